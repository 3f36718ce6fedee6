package p16

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/inputs"
	"github.com/ls6-events/astra/zzverif/hc"
	osx "github.com/ls6-events/astra/zzverif/osx"
	"github.com/ls6-events/astra/zzverif/v"
)

const imports = "package h\n\nimport \"" + hc.Gin + "\"\n\ntype T struct{ A string }\n\n"

var typeT = astra.Field{Type: "T", Package: "h"}

var status299 = astra.ReturnType{StatusCode: 299, Field: astra.Field{Type: "nil"}}

// parse parses routes.
func parse(routes ...astra.Route) (*astra.Service, bool) {
	s := hc.Service()
	err := hc.ParseGin(s, routes...)
	v.Assert("parse", err == nil, "parsing fails")
	return s, err == nil && len(s.Routes) == len(routes)
}

// H_Calls: each call there is, with any status and name.
func H_Calls() {
	ctx := v.String("ctx", 1, "ck")
	status := v.String("status", 1, "12345") + v.String("status digits", 2, "0123456789")
	code := hc.Number(status, 10)
	v.Assume(code != 299) // the statement after the call
	name := v.StringUpTo("name", 0, 2, "aZ-_.[] ")
	src, want := hc.GinCall(v.Choose("call", hc.Calls), ctx, "\""+name+"\"", status, "x")
	hc.Program(hc.GinSource, hc.Source("h", "/w/h.go", imports+"func f("+ctx+" *gin.Context) {\n\tvar x T\n\t"+src+"\n\t_ = x\n\t"+ctx+".Status(299)\n}\n"))
	r := hc.Handler("h", "f", "h.go", 7)
	s, ok := parse(r)
	if !ok {
		return
	}
	r.OperationID = "f"
	want(&r, name, code, typeT)
	r.ReturnTypes = append(r.ReturnTypes, status299)
	v.Assert("route", hc.SameRoute(s.Routes[0], r), "the call is not recorded as it is written")
}

// H_Names: each call there is, with a longer name or content type.
func H_Names() {
	min, max := 3, 12
	if v.Thorough() {
		max = 24
	}
	name := v.StringUpTo("name", min, max, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_./+; =")
	src, want := hc.GinCall(v.Choose("call", hc.Calls), "c", "\""+name+"\"", "200", "x")
	hc.Program(hc.GinSource, hc.Source("h", "/w/h.go", imports+"func f(c *gin.Context) {\n\tvar x T\n\t"+src+"\n\t_ = x\n\tc.Status(299)\n}\n"))
	r := hc.Handler("h", "f", "h.go", 7)
	s, ok := parse(r)
	if !ok {
		return
	}
	r.OperationID = "f"
	want(&r, name, 200, typeT)
	r.ReturnTypes = append(r.ReturnTypes, status299)
	v.Assert("route", hc.SameRoute(s.Routes[0], r), "the call is not recorded as it is written")
}

var anonymous = astra.Field{Type: "struct", StructFields: map[string]astra.Field{"A": {
	Type: "string", StructFieldBindingTags: astTraversal.BindingTagMap{"": {Name: "A"}}, StructFieldValidationTags: astTraversal.ValidationTagMap{}}}}

// values are expressions and what they are described as.
var values = []struct {
	src  string
	want astra.Field
}{
	{"x", typeT},
	{"&x", typeT},
	{"T{A: \"b\"}", typeT},
	{"&T{}", typeT},
	{"(x)", typeT},
	{"p", typeT},
	{"*p", typeT},
	{"mk()", typeT},
	{"ptr(1)", typeT},
	{"xs[0]", typeT},
	{"m[\"a\"]", typeT},
	{"w.T", typeT},
	{"w.P.P.T", typeT},
	{"w.get()", typeT},
	{"<-ch", typeT},
	{"T(y)", typeT},
	{"new(T)", typeT},
	{"func() T { return x }()", typeT},
	{"i.(T)", typeT},
	{"id(x)", typeT},
	{"id[T](x)", typeT},
	{"x.A", astra.Field{Type: "string"}},
	{"\"s\"", astra.Field{Type: "string"}},
	{"x.A + \"s\"", astra.Field{Type: "string"}},
	{"1", astra.Field{Type: "int"}},
	{"-1.5", astra.Field{Type: "float64"}},
	{"len(xs)", astra.Field{Type: "int"}},
	{"int8(1)", astra.Field{Type: "int8"}},
	{"x == T(y)", astra.Field{Type: "bool"}},
	{"nil", astra.Field{Type: "nil"}},
	{"i", astra.Field{Type: "any"}},
	{"any(x)", astra.Field{Type: "any"}},
	{"xs", astra.Field{Type: "slice", SliceType: "T", Package: "h"}},
	{"xs[1:]", astra.Field{Type: "slice", SliceType: "T", Package: "h"}},
	{"[]T{}", astra.Field{Type: "slice", SliceType: "T", Package: "h"}},
	{"[]*T{&x}", astra.Field{Type: "slice", SliceType: "T", Package: "h"}},
	{"make([]T, 0)", astra.Field{Type: "slice", SliceType: "T", Package: "h"}},
	{"append(xs, x)", astra.Field{Type: "slice", SliceType: "T", Package: "h"}},
	{"[...]string{\"a\", \"b\"}", astra.Field{Type: "array", ArrayType: "string", ArrayLength: 2}},
	{"m", astra.Field{Type: "map", MapKeyType: "string", MapValueType: "T", Package: "h"}},
	{"map[string]int{}", astra.Field{Type: "map", MapKeyType: "string", MapValueType: "int"}},
	{"gin.H{}", astra.Field{Type: "H", Package: hc.Gin}},
	{"y", anonymous},
	{"&y", anonymous},
	{"struct{ A string }{\"b\"}", anonymous},
}

// H_Values: each kind of expression as the value of a response or a body.
func H_Values() {
	src := imports + `type W struct {
	T T
	P *W
}

func (w W) get() T { return w.T }

func mk() (x T) { return }

func ptr(int) *T { return nil }

func id[E any](e E) E { return e }

func f(c *gin.Context) {
	var x T
	var y struct{ A string }
	var w W
	var i any = x
	p, xs, m, ch := &x, []T{x}, map[string]T{}, make(chan T)
	_, _, _, _, _, _, _, _, _ = x, y, w, i, p, xs, m, ch, id[int]
	`
	val := values[v.Choose("value", len(values))]
	call := v.Choose("call", 5)
	if call == 4 {
		call = 8
	}
	digit := v.String("status digit", 1, "059")
	stmt, want := hc.GinCall(call, "c", "", "20"+digit, val.src)
	hc.Program(hc.GinSource, hc.Source("h", "/w/h.go", src+stmt+"\n\tc.Status(299)\n}\n"))
	r := hc.Handler("h", "f", "h.go", 20)
	if call == 3 && v.Bool("bound") {
		stmt, want = hc.GinCall(25+v.Choose("bind", 14), "c", "", "", "@")
		if stmt[len(stmt)-3:] == "&@)" {
			stmt = stmt[:len(stmt)-3] + val.src + ")"
		}
		hc.Program(hc.GinSource, hc.Source("h", "/w/h.go", src+stmt+"\n\tc.Status(299)\n}\n"))
	}
	s, ok := parse(r)
	if !ok {
		return
	}
	r.OperationID = "f"
	want(&r, "", 200+int(digit[0]-'0'), val.want)
	r.ReturnTypes = append(r.ReturnTypes, status299)
	v.Assert("route", hc.SameRoute(s.Routes[0], r), "the value is not recorded with its type")
}

// places are bodies of a handler; @ stands for the call on c, # for a call of it in a helper, where
// it is on d.
var places = []string{
	"@",
	"{ @ }",
	"if c != nil { @ } else { _ = 1 }",
	"if c != nil { _ = 1 } else { @ }",
	"for i := 0; i < 2; i++ { @ }",
	"for range []int{1} { @ }",
	"switch { case c == nil: @ }",
	"switch c { case nil: default: @ }",
	"var i any; switch i.(type) { case int: @ }",
	"L: for { @; break L }",
	"func() { @ }()",
	"defer @",
	"go @",
	"defer func() { if r := recover(); r != nil { @ } }()",
	"g := func() { @ }; g()",
	"d := c; #",
	"g := func(d *gin.Context) { # }; g(c)",
	"func(d *gin.Context) { # }(c)",
	"return; @",
	"same(c)",
	"if same(c) { return }",
	"go same(c)",
	"_ = []bool{same(c)}",
	"func() { same(c) }()",
	"same(c); same(c)",
	"same(c); twice(c)",
	"other(c)",
	"twice(c)",
	"S{}.method(c)",
	"(&S{}).pointer(1, c)",
	"var s S; s.pointer(1, c)",
	"generic(1, c)",
	"generic[int](1, c)",
	"sub.Helper(c)",
	"sub.Deep(c, 1)",
	"sub.Value.Method(c)",
	"variadic(c, 1, 2)",
	"var w W; w.S.method(c)",
}

// H_Places: the places of a handler a call can be in.
func H_Places() {
	place := v.Choose("place", len(places))
	name, digit := v.String("name", 1, "a-"), v.String("status digit", 1, "059")
	call := []int{0, 12, 26}[v.Choose("call", 3)]
	on := func(ctx string) string {
		src, _ := hc.GinCall(call, ctx, "\""+name+"\"", "20"+digit, "x")
		return src
	}
	_, want := hc.GinCall(call, "", "", "", "")
	body := ""
	for _, r := range places[place] {
		switch r {
		case '@':
			body += on("c")
		case '#':
			body += on("d")
		default:
			body += string(r)
		}
	}
	at := func(b bool) string {
		if b {
			return "_ = x; " + on("d")
		}
		return "_ = x"
	}
	has := func(s string) bool {
		for i := 0; i+len(s) <= len(body); i++ {
			if body[i:i+len(s)] == s {
				return true
			}
		}
		return false
	}
	inSub := has("sub.")
	use := ""
	if !inSub {
		use = "var _ = sub.Value\n"
	}
	src := `package h

import (
	"` + hc.Gin + `"
	sub "h/v2"
)

type T struct{ A string }

` + use + `
func f(c *gin.Context) {
	var x T
	_ = x
	` + body + `
	c.JSON(299, T{})
}

func same(d *gin.Context) bool { var x T; ` + at(has("same") || has("twice")) + `; return false }

func twice(e *gin.Context) { same(e) }

func variadic(d *gin.Context, n ...int) { var x T; ` + at(has("variadic")) + ` }
`
	file2 := `package h

import web "` + hc.Gin + `"

type S struct{}

type W struct{ S S }

func (S) method(d *web.Context) { var x T; ` + at(has("method")) + ` }

func (s *S) pointer(n int, d *web.Context) { var x T; ` + at(has("pointer")) + ` }

func other(d *web.Context) { var x T; ` + at(has("other")) + ` }

func generic[E any](e E, d *web.Context) { var x T; ` + at(has("generic")) + ` }
`
	sub1 := `package sub

import "` + hc.Gin + `"

type T struct{ B int }

type V struct{}

var Value V

func (V) Method(d *gin.Context) { var x T; ` + at(has("Method")) + ` }

func Deep(e *gin.Context, n int) { Helper(e) }
`
	sub2 := `package sub

import . "` + hc.Gin + `"

func Helper(d *Context) { var x T; ` + at(has("Helper") || has("Deep")) + ` }
`
	hc.Program(hc.GinLite, hc.Source("h", "/w/h.go", src), hc.Source("h", "/w/i.go", file2), hc.Source("h/v2", "/w/v2/a.go", sub1), hc.Source("h/v2", "/w/v2/b.go", sub2))
	r := hc.Handler("h", "f", "h.go", 12)
	s, ok := parse(r)
	if !ok {
		return
	}
	val := typeT
	if inSub {
		val.Package = "h/v2"
	}
	r.OperationID = "f"
	want(&r, name, 200+int(digit[0]-'0'), val)
	r.ReturnTypes = append(r.ReturnTypes, astra.ReturnType{StatusCode: 299, ContentType: "application/json", Field: typeT})
	v.Assert("route", hc.SameRoute(s.Routes[0], r), "a call in such a place is not recorded exactly once")
}

// H_Sequence: two calls in a handler, of each kind, record what each records alone, in their order.
func H_Sequence() {
	i := v.Choose("first", 39)
	j := v.Choose("second", 39)
	if !v.Thorough() && i > 12 {
		v.Assume(j == 0 || j == 12 || j == 18 || j == 25 || j == 28 || j == i)
	}
	n1, n2, digit := v.String("name1", 1, "ab"), v.String("name2", 1, "ab"), v.String("status digit", 1, "05")
	a, want1 := hc.GinCall(i, "c", "\""+n1+"\"", "200", "x")
	b, want2 := hc.GinCall(j, "c", "\""+n2+"\"", "20"+digit, "y")
	hc.Program(hc.GinSource, hc.Source("h", "/w/h.go", imports+"type U T\n\nfunc f(c *gin.Context) {\n\tvar x T\n\tvar y U\n\t"+a+"\n\t"+b+"\n\t_, _ = x, y\n\tc.Status(299)\n}\n"))
	r := hc.Handler("h", "f", "h.go", 9)
	s, ok := parse(r)
	if !ok {
		return
	}
	r.OperationID = "f"
	want1(&r, n1, 200, typeT)
	alone := len(r.ReturnTypes)
	want2(&r, n2, 200+int(digit[0]-'0'), astra.Field{Type: "U", Package: "h"})
	// A response that is the same in every way is recorded once.
	if alone == 1 && len(r.ReturnTypes) == 2 {
		x, y := r.ReturnTypes[0], r.ReturnTypes[1]
		if x.StatusCode == y.StatusCode && x.ContentType == y.ContentType && hc.SameField(x.Field, y.Field) {
			r.ReturnTypes = r.ReturnTypes[:1]
		}
	}
	r.ReturnTypes = append(r.ReturnTypes, status299)
	v.Assert("route", hc.SameRoute(s.Routes[0], r), "two calls are not recorded in order")
}

// decoys are statements that record nothing, whatever their names.
var decoys = []string{
	"JSON(200, T{})",
	"o.JSON(200, T{})",
	"o.Context.Query(\"a\")",
	"other.Context{}.JSON(200, 1)",
	"(&other.Context{}).Query(\"a\")",
	"var c other.Context; c.JSON(200, 1)",
	"var i interface{ Status(int) } = o; i.Status(404)",
	"o.Query(\"a\")",
	"c.Keys[\"a\"] = 200",
	"c.Next()",
	"_ = c.JSON",
	"_ = c.Query",
	"_ = len(\"Query\")",
	"println(\"c.Status(404)\")",
	"/* c.Status(404) */",
	"_ = (*gin.Context).Status",
	"fs[0](200)",
	"func(int) {}(404)",
	"_ = T(struct{ A string }{})",
	"var Query func(string); if Query != nil { Query(\"b\") }",
	"c2 := &Context{}; c2.Status(404)",
}

// H_Decoys: what is not a supported call on the gin context records nothing.
func H_Decoys() {
	n := v.String("name", 1, "ab")
	d1 := decoys[v.Choose("decoy", len(decoys))]
	order := v.Bool("before")
	src := `package h

import (
	"` + hc.Gin + `"
	"other"
)

type T struct{ A string }

type O struct{ Context other.Context }

func (O) JSON(int, any)   {}
func (O) Status(int)      {}
func (O) Query(string)    {}
func JSON(int, any)       {}

type Context struct{}

func (*Context) Status(int) {}

func f(c *gin.Context) {
	var o O
	fs := []func(int){}
	_, _ = o, fs
	_ = other.Context{}
	`
	real := "c.Query(\"" + n + "\"); c.JSON(299, T{})"
	if order {
		src += "if c != nil { " + d1 + " }\n\t" + real
	} else {
		src += real + "\n\t{ " + d1 + " }"
	}
	src += "\n}\n"
	otherSrc := `package other

type Context struct{}

func (Context) JSON(int, any)   {}
func (*Context) Query(string)   {}
`
	hc.Program(hc.GinLite, hc.Source("h", "/w/h.go", src), hc.Source("other", "/o/o.go", otherSrc))
	r := hc.Handler("h", "f", "h.go", 21)
	s, ok := parse(r)
	if !ok {
		return
	}
	r.OperationID = "f"
	r.QueryParams = []astra.Param{{Name: n, Field: astra.Field{Type: "string"}}}
	r.ReturnTypes = []astra.ReturnType{{StatusCode: 299, ContentType: "application/json", Field: typeT}}
	v.Assert("route", hc.SameRoute(s.Routes[0], r), "something else than a call on the context is recorded")
}

// H_Routes: several routes of one program are recorded as each would be alone.
func H_Routes() {
	kinds := func(id string) (string, func(*astra.Route, string, int, astra.Field), string, string) {
		name, digit := v.String(id+".name", 1, "ab"), v.String(id+".status digit", 1, "05")
		call := []int{0, 1, 12, 25, 11}[v.Choose(id+".call", 5)]
		src, want := hc.GinCall(call, "c", "\""+name+"\"", "20"+digit, "x")
		return src, want, name, digit
	}
	a, want1, n1, d1 := kinds("1")
	b, want2, n2, d2 := kinds("2")
	src := imports + "func f(c *gin.Context) {\n\tvar x T\n\t_ = x\n\t" + a + "\n\thelp(c)\n}\n"
	src2 := "func g(c *gin.Context) {\n\tvar x T\n\t_ = x\n\t" + b + "\n\thelp(c)\n}\n"
	help := "func help(d *gin.Context) {\n\td.Status(299)\n}\n"
	split := v.Bool("two files")
	file := "h.go"
	if split {
		file = "i.go"
		hc.Program(hc.GinSource, hc.Source("h", "/w/i.go", "package h\n\nimport \""+hc.Gin+"\"\n\n"+src2), hc.Source("h", "/w/h.go", src+help))
	} else {
		hc.Program(hc.GinSource, hc.Source("h", "/w/h.go", src+help+src2))
	}
	r1, r2, r3 := hc.Handler("h", "f", "h.go", 7), hc.Handler("h", "g", file, 7), hc.Handler("h", "f", "h.go", 7)
	r1.Path, r2.Path, r3.Path = "/1/:p", "/2/*q", "/3"
	s, ok := parse(r1, r2, r3)
	if !ok {
		return
	}
	r1.PathParams = []astra.Param{{Name: "p", Field: astra.Field{Type: "string"}, IsRequired: true}}
	r2.PathParams = []astra.Param{{Name: "q", Field: astra.Field{Type: "string"}}}
	r1.OperationID, r2.OperationID, r3.OperationID = "f", "g", "f"
	want1(&r1, n1, 200+int(d1[0]-'0'), typeT)
	want2(&r2, n2, 200+int(d2[0]-'0'), typeT)
	want1(&r3, n1, 200+int(d1[0]-'0'), typeT)
	for _, r := range []*astra.Route{&r1, &r2, &r3} {
		r.ReturnTypes = append(r.ReturnTypes, status299)
	}
	v.Assert("first", hc.SameRoute(s.Routes[0], r1), "the first route is recorded differently among others")
	v.Assert("second", hc.SameRoute(s.Routes[1], r2), "the second route is recorded differently among others")
	v.Assert("third", hc.SameRoute(s.Routes[2], r3), "a third route with the first's handler is recorded differently")
}

// H_Inputs: every input parses all routes, which records no call once more.
func H_Inputs() {
	n := 2 + v.Choose("inputs", 2)
	name := v.String("name", 2, "ab-")
	src, want := hc.GinCall(v.Choose("call", hc.Calls), "c", "\""+name+"\"", "200", "x")
	src2, want2 := hc.GinCall(10+v.Choose("other", 4), "c", "\"o\"", "200", "x")
	hc.Program(hc.GinSource, hc.Source("h", "/w/h.go", imports+"func f(c *gin.Context) {\n\tvar x T\n\t"+src+"\n\t_ = x\n\tc.Status(299)\n\t"+src2+"\n}\n"))
	osx.Put(hc.WD+"/go.mod", "module m\n")
	r := hc.Handler("h", "f", "h.go", 7)
	s := hc.Service()
	for i := 0; i < n; i++ {
		inputs.WithGinInput(nil)(s)
	}
	s.Routes = []astra.Route{r}
	err := s.ParseRoutes()
	v.Assert("parse", v.And(err == nil, len(s.Routes) == 1), "parsing for several inputs fails")
	if err != nil || len(s.Routes) != 1 {
		return
	}
	r.OperationID = "f"
	want(&r, name, 200, typeT)
	r.ReturnTypes = append(r.ReturnTypes, status299)
	want2(&r, "o", 200, typeT)
	v.Assert("again", hc.SameRoute(s.Routes[0], r), "a call is recorded once more by a further input")
}

// H_Depth: a call in nested blocks of any kind, or at the end of a chain of helpers of other files, packages and types.
func H_Depth() {
	most := 12
	if v.Thorough() {
		most = 40
	}
	n := 1 + v.Choose("depth", most)
	name, digit := v.String("name", 1, "a-"), v.String("status digit", 1, "059")
	on, want := hc.GinCall([]int{0, 12, 26}[v.Choose("call", 3)], "c", "\""+name+"\"", "20"+digit, "x")
	head := imports[:len("package h\n\nimport ")] + "(\n\t\"" + hc.Gin + "\"\n\tsub \"h/v2\"\n)\n\ntype T struct{ A string }\n\ntype S struct{}\n\nvar _ = sub.T{}\n\n"
	src := head + "func f(c *gin.Context) {\n\tvar x T\n\t_ = x\n\t"
	file2 := "package h\n\nimport \"" + hc.Gin + "\"\n\n"
	file3 := "package sub\n\nimport \"" + hc.Gin + "\"\n\ntype T struct{ A string }\n\n"
	kind := v.Choose("kind", 9)
	val := typeT
	if kind < 6 {
		open := []string{"if true { ", "for { ", "switch { case true: ", "{ ", "func() { ", "if false { } else { "}[kind]
		shut := []string{" }", " }", " }", " }", " }()", " }"}[kind]
		for i := 0; i < n; i++ {
			src += open
		}
		src += on
		for i := 0; i < n; i++ {
			src += shut
		}
		src += "\n\tc.Status(299)\n}\n"
	} else {
		hop := func(i int, body string) string {
			if kind == 8 || kind == 6 && i%2 == 0 {
				return "func H" + hc.Digit(i) + "(c *gin.Context) { var x T; _ = x; " + body + " }\n"
			}
			return "func (S) H" + hc.Digit(i) + "(c *gin.Context) { var x T; _ = x; " + body + " }\n"
		}
		call := func(i int) string {
			switch {
			case kind == 8 && i == 1:
				return "sub.H" + hc.Digit(i) + "(c)"
			case kind == 8 || kind == 6 && i%2 == 0:
				return "H" + hc.Digit(i) + "(c)"
			}
			return "S{}.H" + hc.Digit(i) + "(c)"
		}
		src += call(1) + "\n\tc.Status(299)\n}\n"
		for i := 1; i <= n; i++ {
			body := on
			if i < n {
				body = call(i + 1)
			}
			switch {
			case kind == 8:
				file3 += hop(i, body)
				val.Package = "h/v2"
			case i%3 == 0:
				src += hop(i, body)
			default:
				file2 += hop(i, body)
			}
		}
	}
	file2 += "var _ gin.Context\n"
	file3 += "var _ gin.Context\n"
	hc.Program(hc.GinLite, hc.Source("h", "/w/h.go", src), hc.Source("h", "/w/i.go", file2), hc.Source("h/v2", "/w/v2/a.go", file3))
	r := hc.Handler("h", "f", "h.go", 14)
	s, ok := parse(r)
	if !ok {
		return
	}
	r.OperationID = "f"
	want(&r, name, 200+int(digit[0]-'0'), val)
	r.ReturnTypes = append(r.ReturnTypes, status299)
	v.Assert("route", hc.SameRoute(s.Routes[0], r), "a call at some depth is not recorded exactly once")
}
