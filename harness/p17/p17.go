package p17

import (
	"errors"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/zzverif/hc"
	packages "github.com/ls6-events/astra/zzverif/packagesx"
	"github.com/ls6-events/astra/zzverif/v"
)

// weird are statements that cannot be analysed, or only in part.
var weird = []string{
	"c.Query(n)",
	"c.Query(x.A)",
	"c.Query(fmt.Sprint(\"a\"))",
	"c.Query(n + \"s\")",
	"c.Status(code())",
	"c.Status(x.N)",
	"c.Status(codes[0])",
	"c.Status(1 << 40)",
	"c.JSON(code(), x)",
	"c.JSON(200, make(chan int))",
	"c.JSON(200, func() {})",
	"c.JSON(200, c.Query)",
	"c.JSON(200, []func(){})",
	"c.JSON(200, map[string]chan int{})",
	"c.JSON(200, struct{ F func() }{})",
	"c.JSON(200, c)",
	"c.JSON(pair())",
	"c.JSON(200, complex(1, 2))",
	"c.JSON(200, G[int]{})",
	"c.JSON(200, G[G[T]]{})",
	"c.JSON(200, x.I)",
	"c.JSON(200, fmt.State(nil))",
	"type L struct{ L *L }; c.JSON(200, L{})",
	"type L []L; c.JSON(200, L{})",
	"c.BindJSON(nil)",
	"c.BindJSON(x.I)",
	"c.BindJSON(*new(*T))",
	"rec(c, 1)",
	"mut1(c)",
	"unnamed(c)",
	"blank(c)",
	"iface(c)",
	"none(c)",
	"fn(c)",
	"x.F(c)",
	"x.Fs[0](c)",
	"x.I.(interface{ H(*gin.Context) }).H(c)",
	"mk()(c)",
	"S.M(S{}, c)",
	"m := S{}.M; m(c)",
	"h := S.M; h(S{}, c)",
	"_ = append([]*gin.Context{}, c)",
	"println(c)",
	"panic(c)",
	"_ = any(c)",
	"_ = P(c)",
	"_ = (*gin.Context)(c)",
	"fmt.Sprint(c)",
	"func() {}()",
	"func(*gin.Context) {}(c)",
	"(func(d *gin.Context) { _ = d })(c)",
	"(rec)(c, 1)",
	"(c).Next()",
	"(*c).Next()",
	"go func() { c.Next() }()",
	"asm(c)",
	"tparam[*gin.Context](c)",
	"var y Y; y.Next()",
	"var z Z; z.M(c)",
	"two(two(c))",
	"copied(c.Copy())",
	"c = c.Copy()",
	"_ = []func(*gin.Context){rec1}",
	"defer func() { _ = recover() }()",
	"L: for { break L }",
	"switch any(x).(type) { case T: }",
	"_ = len([...]int{1})",
	"_ = x.Fs[len(n)]",
	"var c int; _ = c",
	"c := 1; println(c)",
	"*c = gin.Context{}",
	"_ = min(1, 2)",
	"clear(map[int]int{})",
	"_ = G[int].M",
	"_, _ = G[int]{}.M(c)",
	"c.Query(K)",
	"c.Query(V)",
	"c.Query(V2)",
	"c.Query(V4)",
	"c.Query(Rec)",
	"c.Status(int(W))",
	"c.Query(string(rune(65)))",
}

const rest = `package h

import (
	"fmt"

	"` + hc.Gin + `"
)

type T struct {
	A  string
	N  int
	I  any
	F  func(*gin.Context)
	Fs []func(*gin.Context)
}

type S struct{}

func (S) M(d *gin.Context) { _ = d }

type G[E any] struct{ E E }

func (G[E]) M(d *gin.Context) (e E, err error) { return }

type P *gin.Context

type Y struct{ *gin.Context }

type Z struct{ S }

const K string = "k"

var (
	codes  []int
	V      = "v"
	V2, V3 = pairs()
	V4     = V
	Rec    = func() string { return fmt.Sprint(V) }()
	W      = 1e2
	fn     func(*gin.Context)
	n      string
)

func pairs() (string, string)              { return "", "" }
func code() int                            { return 200 }
func pair() (int, any)                     { return 200, nil }
func rec(d *gin.Context, n int)            { rec(d, n); rec(d, n-1) }
func rec1(d *gin.Context)                  { rec1(d) }
func mut1(d *gin.Context)                  { mut2(d); mut2(d) }
func mut2(e *gin.Context)                  { mut1(e); rec(e, 1); mut1(e) }
func unnamed(*gin.Context)                 {}
func blank(_ *gin.Context)                 {}
func iface(d any)                          { _ = d }
func none(d ...any)                        {}
func mk() func(*gin.Context)               { return nil }
func asm(d *gin.Context)
func tparam[E any](e E)                    { _ = e }
func two(d *gin.Context) *gin.Context      { return d }
func copied(d *gin.Context)                { _ = d }
`

const fmtSource = `package fmt

type State interface{ Flag(int) bool }

func Sprint(a ...any) string { return "" }
`

func entries(r astra.Route, name string) (n int) {
	for _, p := range r.QueryParams {
		if p.Name == name {
			n++
		}
	}
	return n
}

// H_Weird: any weird statement between ordinary ones, and a route after it.
func H_Weird() {
	w := weird[v.Choose("statement", len(weird))]
	if v.Thorough() {
		w = "{ " + w + " }; { " + weird[v.Choose("second", len(weird))] + " }"
	}
	before, after, last := v.String("before", 1, "pq"), v.String("after", 1, "rs"), v.String("last", 1, "yz")
	place := []string{"@", "if c != nil { @ }", "func() { @ }()", "helper(c)"}[v.Choose("place", 4)]
	body, helper := "", "_ = c"
	for _, r := range place {
		if r == '@' {
			body += w
		} else {
			body += string(r)
		}
	}
	if place == "helper(c)" {
		helper = "{ " + w + " }"
	}
	src := "package h\n\nimport (\n\t\"fmt\"\n\t\"" + hc.Gin + "\"\n)\n\nvar _ = fmt.Sprint\n\nfunc f(c *gin.Context) {\n\tvar x T\n\t_ = x\n\tc.Query(\"" + before + "\")\n\t{ " + body + " }\n\tc.Query(\"" + after + "\")\n\tc.Status(298)\n}\n\nfunc helper(c *gin.Context) { var x T; _ = x; " + helper + " }\n\nfunc g(c *gin.Context) {\n\tc.Query(\"" + last + "\")\n\tc.Status(299)\n}\n"
	hc.Program(hc.GinLite+"func (c *Context) Copy() *Context { return c }\n", hc.Source("fmt", "/f/fmt.go", fmtSource), hc.Source("h", "/w/h.go", src), hc.Source("h", "/w/i.go", rest))
	s := hc.Service()
	r1, r2 := hc.Handler("h", "f", "h.go", 10), hc.Handler("h", "g", "h.go", 21)
	r2.Path = "/g"
	err := hc.ParseGin(s, r1, r2)
	v.Assert("parse", err == nil, "parsing fails")
	if err != nil {
		return
	}
	f, g := s.Routes[0], s.Routes[1]
	v.Assert("before", entries(f, before) == 1, "the call before is lost or repeated")
	v.Assert("after", entries(f, after) == 1, "the call after is lost or repeated")
	ok := false
	for _, t := range f.ReturnTypes {
		if t.StatusCode == 298 {
			ok = true
		}
	}
	v.Assert("status", ok, "the response after is lost")
	r2.OperationID = "g"
	r2.QueryParams = []astra.Param{{Name: last, Field: astra.Field{Type: "string"}}}
	r2.ReturnTypes = []astra.ReturnType{{StatusCode: 299, Field: astra.Field{Type: "nil"}}}
	v.Assert("next route", hc.SameRoute(g, r2), "the next route is affected")
}

// handlers are declarations of the first handler, in one line.
var handlers = []struct{ decl, name string }{
	{"func f(*gin.Context) {}", "f"},
	{"func f(_ *gin.Context) {}", "f"},
	{"func f(c *gin.Context) {}", "f"},
	{"func f(c *gin.Context)", "f"},
	{"func f(c *gin.Context) { f(c) }", "f"},
	{"func f(c *gin.Context) { rec(c, 1); c.Next() }", "f"},
	{"func f(a int, c *gin.Context) {}", "f"},
	{"func f(c gin.Context) {}", "f"},
	{"func f(c any) {}", "f"},
	{"func f() {}", "f"},
	{"func f(c P) {}", "f"},
	{"type Ctx = gin.Context; func f(c *Ctx) { c.Status(200) }", "f"},
	{"type Ctx = *gin.Context; func f(c Ctx) { c.Status(200) }", "f"},
	{"func f[E any](c *gin.Context) { c.Status(200) }", "f[...]"},
	{"func f[E any](c *gin.Context) { var e E; c.JSON(200, e) }", "f[...]"},
	{"func (s S) f(c *gin.Context) { c.Status(200) }", "f"},
	{"func (s S) f(c *gin.Context) { c.Status(200) }", "S.f"},
	{"func (s S) f(c *gin.Context) { c.Status(200) }", "(*S).f"},
	{"func (s S) f(c *gin.Context) { c.Status(200) }", "S.f-fm"},
	{"var f = func(c *gin.Context) { c.Status(200) }", "init.func1"},
	{"var f = func(*gin.Context) {}", "glob..func1"},
	{"var f = func() {}", "init.func1"},
	{"var f = func(c int) {}", "init.func1"},
	{"var f gin.HandlerFunc", "f"},
	{"type f struct{ H func(*gin.Context) }", "f"},
	{"const f = 1", "f"},
	{"", "f"},
	{"", "f.func1"},
	{"", "f.gowrap1"},
	{"", "f.func1.2"},
	{"", "init.0.func1"},
}

// H_Handlers: any weird handler, and a route after it.
func H_Handlers() {
	h := handlers[v.Choose("handler", len(handlers))]
	last := v.String("last", 1, "yz")
	src := "package h\n\nimport \"" + hc.Gin + "\"\n\n" + h.decl + "\n\nfunc g(c *gin.Context) {\n\tc.Query(\"" + last + "\")\n\tc.Status(299)\n}\n"
	hc.Program(hc.GinLite, hc.Source("fmt", "/f/fmt.go", fmtSource), hc.Source("h", "/w/h.go", src), hc.Source("h", "/w/i.go", rest))
	s := hc.Service()
	r1, r2 := hc.Handler("h", h.name, "h.go", 5+v.Choose("line", 3)-1), hc.Handler("h", "g", "h.go", 7)
	r2.Path = "/g"
	err := hc.ParseGin(s, r1, r2)
	v.Assert("parse", err == nil, "parsing fails")
	if err != nil {
		return
	}
	r2.OperationID = "g"
	r2.QueryParams = []astra.Param{{Name: last, Field: astra.Field{Type: "string"}}}
	r2.ReturnTypes = []astra.ReturnType{{StatusCode: 299, Field: astra.Field{Type: "nil"}}}
	v.Assert("next route", hc.SameRoute(s.Routes[1], r2), "the next route is affected")
}

// H_Names: any handler name and file of a route.
func H_Names() {
	name := v.StringUpTo("name", 0, 4, "h.f/12-")
	file := v.StringUpTo("file", 0, 3, "h.go/")
	hc.Program(hc.GinLite, hc.Source("h", "/w/h.go", "package h\n\nimport \""+hc.Gin+"\"\n\nfunc f(c *gin.Context) { c.Status(200) }\n"))
	r := hc.Handler("h", "f", file, v.Int("line", -1, 6))
	r.Handler = name
	s := hc.Service()
	if hc.ParseGin(s, r) == nil {
		v.Assert("route", len(s.Routes) == 1, "a route is lost")
	}
}

// H_Graph: helpers that pass the context on in every way.
func H_Graph() {
	n := 3
	src := ""
	var calls [4][3]bool
	for i := 0; i <= n; i++ {
		fn := "h" + hc.Digit(i)
		body := ""
		for j := 0; j < n; j++ {
			id := hc.Digit(i) + " calls " + hc.Digit(j+1)
			if i == 0 && j > 0 {
				continue
			}
			calls[i][j] = v.Bool(id)
			if calls[i][j] {
				body += " h" + hc.Digit(j+1) + "(c);"
			}
		}
		if i > 0 {
			body = " c.Query(\"" + hc.Digit(i) + "\");" + body
		} else {
			fn = "f"
		}
		src += "func " + fn + "(c *gin.Context) {" + body + " c.Status(200) }\n"
	}
	hc.Program(hc.GinLite, hc.Source("h", "/w/h.go", "package h\n\nimport \""+hc.Gin+"\"\n\n"+src))
	s := hc.Service()
	err := hc.ParseGin(s, hc.Handler("h", "f", "h.go", 5))
	v.Assert("parse", err == nil, "parsing fails")
	if err != nil {
		return
	}
	reached := [4]bool{true}
	for k := 0; k <= n; k++ {
		for i := 0; i <= n; i++ {
			for j := 0; j < n; j++ {
				if reached[i] && calls[i][j] {
					reached[j+1] = true
				}
			}
		}
	}
	for i := 1; i <= n; i++ {
		want := 0
		if reached[i] {
			want = 1
		}
		v.Assert("helper "+hc.Digit(i), entries(s.Routes[0], hc.Digit(i)) == want, "a helper's call is not recorded exactly once")
	}
	v.Assert("status", len(s.Routes[0].ReturnTypes) == 1, "the response is not recorded once")
}

// H_Deep: long chains of helpers that are each called twice.
func H_Deep() {
	n := 1 + v.Choose("depth", 24)
	src := "func f(c *gin.Context) { h1(c); h1(c); c.Status(200) }\n"
	for i := 1; i < n; i++ {
		src += "func h" + hc.Digit(i) + "(c *gin.Context) { h" + hc.Digit(i+1) + "(c); h" + hc.Digit(i+1) + "(c) }\n"
	}
	src += "func h" + hc.Digit(n) + "(c *gin.Context) { c.Query(\"a\") }\n"
	hc.Program(hc.GinLite, hc.Source("h", "/w/h.go", "package h\n\nimport \""+hc.Gin+"\"\n\n"+src))
	s := hc.Service()
	err := hc.ParseGin(s, hc.Handler("h", "f", "h.go", 5))
	v.Assert("parse", err == nil && entries(s.Routes[0], "a") == 1, "the call at the end of a chain is not recorded once")
}

// H_Unloadable: packages that cannot be loaded.
func H_Unloadable() {
	helper := v.Choose("helper", 4)
	before, after := v.String("before", 1, "pq"), v.String("after", 1, "rs")
	call := []string{"sub.Help(c)", "c.JSON(200, sub.T{})", "c.Query(sub.K)", "c.Query(sub.V)"}[helper]
	src := "package h\n\nimport (\n\t\"" + hc.Gin + "\"\n\t\"sub\"\n)\n\nfunc f(c *gin.Context) {\n\tc.Query(\"" + before + "\")\n\t" + call + "\n\tc.Query(\"" + after + "\")\n\tc.Status(298)\n}\n"
	hc.Program(hc.GinLite, hc.Source("h", "/w/h.go", src), hc.Source("sub", "/s/s.go", "package sub\n\nimport \""+hc.Gin+"\"\n\ntype T struct{}\n\nconst K = \"k\"\n\nvar V = \"v\"\n\nfunc Help(c *gin.Context) {}\n"))
	packages.LoadErr = func(path string) error {
		if path == "sub" {
			return errors.New("no")
		}
		return nil
	}
	s := hc.Service()
	err := hc.ParseGin(s, hc.Handler("h", "f", "h.go", 8))
	v.Assert("parse", err == nil, "parsing fails")
	if err != nil {
		return
	}
	f := s.Routes[0]
	v.Assert("before", entries(f, before) == 1, "the call before is lost or repeated")
	v.Assert("after", entries(f, after) == 1, "the call after is lost or repeated")
	v.Assert("status", len(f.ReturnTypes) == 1 && f.ReturnTypes[0].StatusCode == 298, "the response after is lost")
}
