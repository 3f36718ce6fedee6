package p29

import (
	"errors"
	"go/ast"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

// call is a call of a handler as it is expected to be offered: its name and first argument, the
// context's name where it is, what it records by itself, and the calls of the helper it passes the context to.
type call struct {
	key    string
	ctx    string
	effect func(r *astra.Route)
	helper []call
}

func query(name string) func(r *astra.Route) {
	return func(r *astra.Route) {
		r.QueryParams = append(r.QueryParams, astra.Param{Name: name, Field: astra.Field{Type: "string"}})
	}
}

func response(code int, ct string, f astra.Field) func(r *astra.Route) {
	return func(r *astra.Route) {
		r.ReturnTypes = append(r.ReturnTypes, astra.ReturnType{StatusCode: code, ContentType: ct, Field: f})
	}
}

func status(code int) func(r *astra.Route) { return response(code, "", astra.Field{Type: "nil"}) }

// key describes a call by its syntax.
func key(n *ast.CallExpr) string {
	k := "?"
	switch f := n.Fun.(type) {
	case *ast.Ident:
		k = f.Name
	case *ast.SelectorExpr:
		k = f.Sel.Name
	case *ast.FuncLit:
		k = "func"
	case *ast.IndexExpr:
		k = "index"
	case *ast.CallExpr:
		k = "call"
	case *ast.ArrayType:
		k = "array"
	}
	if len(n.Args) > 0 {
		if l, ok := n.Args[0].(*ast.BasicLit); ok {
			k += l.Value
		}
	}
	return k
}

// program is the body of a handler whose context is c, helpers, and its calls.
type program struct {
	body, decls string
	calls       []call
}

const programs = 4

func get(i int, x string) program {
	q := func(n string) call { return call{key: "Query\"" + n + "\"", ctx: "c", effect: query(n)} }
	in := func(ctx string, k call) call { k.ctx = ctx; return k }
	s := func(n int) call {
		return call{key: "Status" + string([]byte{byte('0' + n/100), byte('0' + n/10%10), byte('0' + n%10)}), ctx: "c", effect: status(n)}
	}
	none := func(k string) call { return call{key: k, ctx: "c"} }
	json := call{key: "JSON200", ctx: "c", effect: response(200, "application/json", astra.Field{Type: "int"})}
	switch i {
	case 0:
		return program{body: "\tc.Query(\"" + x + "\")\n\tc.JSON(200, val(c.Query(\"n\")))\n\thelp(c)\n\tif len(\"l\") > 1 {\n\t\tc.Query(string(\"k\"))\n\t}\n\tc.Status(298)",
			decls: "func val(s string) int { return 1 }\n\nfunc help(d *gin.Context) {\n\td.Query(\"h\")\n\td.Status(204)\n}\n",
			calls: []call{q(x), json, none("val"), q("n"),
				{key: "help", ctx: "c", helper: []call{in("d", q("h")), in("d", s(204))}},
				none("len\"l\""), {key: "Query", ctx: "c", effect: query("k")}, none("string\"k\""), s(298)}}
	case 1:
		return program{body: "\tdefer c.Query(\"" + x + "\")\n\tgo func() {\n\t\tc.Query(\"g\")\n\t}()\n\tfn := func(c *gin.Context) {\n\t\tc.Query(\"i\")\n\t}\n\tfn(nil)\n\t_ = []byte(\"b\")\n\tgen[int](1)\n\tc.Status(298)",
			decls: "func gen[E any](e E) {}\n",
			calls: []call{q(x), none("func"), q("g"), q("i"), none("fn"), none("array\"b\""), none("index1"), s(298)}}
	case 2:
		return program{body: "\tchain().next(\"" + x + "\").next(c.Query(\"m\")).end(c)\n\tmk()(\"f\")\n\tc.Status(298)",
			decls: "type C struct{}\n\nfunc chain() C { return C{} }\n\nfunc (x C) next(s string) C { return x }\n\nfunc (x C) end(d *gin.Context) { d.Query(\"e\") }\n\nfunc mk() func(string) { return nil }\n",
			calls: []call{{key: "end", ctx: "c", helper: []call{in("d", q("e"))}}, none("next"), none("next\"" + x + "\""), none("chain"), q("m"), none("call\"f\""), none("mk"), s(298)}}
	default:
		return program{body: "\ta(c)\n\tfor i := 0; i < cap(c.Keys2(\"" + x + "\")); i++ {\n\t\tc.Query(\"z\")\n\t}\n\tswitch c.Query(\"s\") {\n\tcase c.Query(\"t\"):\n\t\tc.Status(297)\n\t}\n\tc.Status(298)",
			decls: "func a(e *gin.Context) {\n\te.Query(\"1\")\n\tb(e)\n\te.Query(\"3\")\n}\n\nfunc b(d *gin.Context) {\n\td.Query(\"2\")\n}\n",
			calls: []call{{key: "a", ctx: "c", helper: []call{in("e", q("1")), {key: "b", ctx: "e", helper: []call{in("d", q("2"))}}, in("e", q("3"))}},
				none("cap"), none("Keys2\"" + x + "\""), q("z"), q("s"), q("t"), s(297), s(298)}}
	}
}

// What a custom function does with a call.
const (
	nothing = iota
	claim
	claimNew
	claimFresh
	change
	fail
	actions
)

var errCustom = errors.New("custom")

// act does something with a route, as a custom function does.
func act(action int, who string, r *astra.Route) (*astra.Route, error) {
	switch action {
	case claim:
		query(who)(r)
		return r, nil
	case claimNew:
		n := *r
		n.QueryParams = append(append([]astra.Param{}, r.QueryParams...), astra.Param{Name: who + "new", Field: astra.Field{Type: "string"}})
		n.Doc = "new"
		return &n, nil
	case claimFresh:
		return &astra.Route{Method: "PUT", Doc: who, Path: "/fresh", ReturnTypes: hc.Nil()}, nil
	case change:
		query(who)(r)
		return nil, nil
	case fail:
		return nil, errCustom
	}
	return nil, nil
}

// custom is a custom function: what it does with which call (all of them if empty).
type custom struct {
	who    string
	action int
	target string
	offers []string
}

func (u *custom) on(k string) int {
	if u.target == "" || u.target == k {
		return u.action
	}
	return nothing
}

func (u *custom) option() astra.Option {
	return astra.WithCustomFunc(func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) {
		k := key(b.Traverser.Node)
		u.offers = append(u.offers, ctx+" "+k)
		return act(u.on(k), u.who, b.Route)
	})
}

// simulate is what the handler's calls do with the custom functions.
func simulate(calls []call, us []*custom, r *astra.Route, offers [][]string) {
	for _, c := range calls {
		claimed := false
		for i, u := range us {
			offers[i] = append(offers[i], c.ctx+" "+c.key)
			n, err := act(u.on(c.key), u.who, r)
			if err != nil {
				claimed = true
				break
			}
			if n != nil {
				*r = *n
				claimed = true
				break
			}
		}
		if claimed {
			continue
		}
		if c.effect != nil {
			c.effect(r)
		}
		simulate(c.helper, us, r, offers)
	}
}

func keys(calls []call) (ks []string) {
	for _, c := range calls {
		ks = append(append(ks, c.key), keys(c.helper)...)
	}
	return ks
}

const gin = hc.GinLite + "\nfunc (c *Context) Keys2(s string) []int { return nil }\n"

func source(p program, ctx string) {
	hc.Program(gin, hc.Source("h", "/w/h.go", "package h\n\nimport \""+hc.Gin+"\"\n\nfunc f(c *gin.Context) {\n"+p.body+"\n}\n\n"+p.decls))
}

func compare(id string, got, want []string) {
	v.Assert(id+" number", len(got) == len(want), "a custom function is offered too many or too few calls")
	for i := range want {
		if i < len(got) {
			v.Assert(id+" offer", got[i] == want[i], "a custom function is offered the calls in another order, or with another context's name")
		}
	}
}

func run(p program, us ...*custom) {
	source(p, "c")
	var opts []astra.Option
	for _, u := range us {
		opts = append(opts, u.option())
	}
	s := hc.Service(opts...)
	r := hc.Handler("h", "f", "h.go", 5)
	err := hc.ParseGin(s, r)
	v.Assert("parse", err == nil && len(s.Routes) == 1, "parsing fails")
	if err != nil {
		return
	}
	r.OperationID = "f"
	offers := make([][]string, len(us))
	simulate(p.calls, us, &r, offers)
	for i, u := range us {
		compare(u.who, u.offers, offers[i])
	}
	v.Assert("route", hc.SameRoute(s.Routes[0], r), "the result is not what the custom functions and the built-in treatment make")
}

// H_One: a custom function that does something with one of the calls, or with all.
func H_One() {
	p := get(v.Choose("program", programs), v.String("x", 1, "xyz"))
	ks := keys(p.calls)
	u := &custom{who: "A", action: v.Choose("action", actions)}
	if t := v.Choose("target", len(ks)+1); t < len(ks) {
		u.target = ks[t]
	}
	run(p, u)
}

// H_Two: two or three custom functions that do something with the same or different calls.
func H_Two() {
	p := get(v.Choose("program", programs), "x")
	ks := keys(p.calls)
	t := v.Choose("target", len(ks))
	a := &custom{who: "A", action: v.Choose("action", actions), target: ks[t]}
	b := &custom{who: "B", action: v.Choose("second action", actions)}
	switch v.Choose("second target", 3) {
	case 0:
		b.target = ks[t]
	case 1:
		b.target = ks[(t+1)%len(ks)]
	}
	if v.Thorough() && v.Bool("third") {
		run(p, a, b, &custom{who: "C", action: change, target: ks[len(ks)-1]})
		return
	}
	run(p, a, b)
}

// operands are arguments, and what they are as a value, a status code and a type (nothing: an error).
type operand struct {
	src   string
	value string
	code  int
	typ   astra.Field
}

var operands = []operand{
	{},
	{},
	{"t", "", 0, astra.Field{Type: "T", Package: "h"}},
	{"code", "417", 417, astra.Field{Type: "int"}},
	{"t.S", "", 0, astra.Field{Type: "string"}},
	{"[]T{}", "", 0, astra.Field{Type: "slice", SliceType: "T", Package: "h"}},
	{"text", "tx", 0, astra.Field{Type: "string"}},
}

func isOwn(b *astra.ContextFuncBuilder) bool { return key(b.Traverser.Node)[:3] == "own" }

// H_Builder: the operations of the context function builder, used by several custom functions on the same call.
func H_Builder() {
	n := 1 + v.Choose("arguments", 2)
	args := ""
	digit, letter := v.String("digit", 1, "0129"), v.String("letter", 1, "ab")
	operands := append([]operand{}, operands...)
	operands[0] = operand{"40" + digit, "40" + digit, 400 + hc.Number(digit, 10), astra.Field{Type: "int"}}
	operands[1] = operand{"\"n" + letter + "\"", "n" + letter, 0, astra.Field{Type: "string"}}
	var is, ops [3]int
	for i := 0; i < n; i++ {
		is[i] = v.Choose("argument "+hc.Digit(i), len(operands))
		if !v.Thorough() && i == 0 && n == 2 {
			v.Assume(is[0] < 3)
		}
		if i > 0 {
			args += ", "
		}
		args += operands[is[i]].src
	}
	m := v.Choose("operations", 4)
	if !v.Thorough() {
		v.Assume(m <= n+1)
	}
	for i := 0; i < m; i++ {
		ops[i] = v.Choose("operation "+hc.Digit(i), 4)
	}
	hc.Program(hc.GinLite, hc.Source("h", "/w/h.go", "package h\n\nimport \""+hc.Gin+"\"\n\nconst code = 400 + 17\n\nconst text = \"t\" + `x`\n\ntype T struct{ S string }\n\nfunc own(a ...any) {}\n\nfunc f(c *gin.Context) {\n\tt := T{}\n\town("+args+")\n\tc.Query(\"after\")\n\tc.JSON(200, t)\n}\n"))
	before := v.Bool("before")
	var got [][]any
	var errs []error
	build := func(b *astra.ContextFuncBuilder, claims bool) (*astra.Route, error) {
		for i := 0; i < m; i++ {
			switch ops[i] {
			case 0:
				b = b.Ignored()
			case 1:
				b = b.Value()
			case 2:
				b = b.StatusCode()
			default:
				b = b.ExpressionResult()
			}
		}
		called := false
		r, err := b.Build(func(r *astra.Route, params []any) (*astra.Route, error) {
			called = true
			got = append(got, params)
			if !claims {
				return nil, nil
			}
			query("own")(r)
			return r, nil
		})
		v.Assert("mapper", called == (err == nil), "the mapper is not called exactly when all operations succeed")
		errs = append(errs, err)
		if err != nil && !claims {
			return nil, nil
		}
		return r, err
	}
	opts := []astra.Option{}
	if before {
		// Other custom functions that look at every call leave no trace.
		opts = append(opts, astra.WithCustomFunc(func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) {
			if isOwn(b) {
				return build(b, false)
			}
			return b.Ignored().Build(func(*astra.Route, []any) (*astra.Route, error) { return nil, nil })
		}))
	}
	opts = append(opts, astra.WithCustomFunc(func(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) {
		if isOwn(b) {
			return build(b, true)
		}
		return nil, nil
	}))
	s := hc.Service(opts...)
	r := hc.Handler("h", "f", "h.go", 15)
	err := hc.ParseGin(s, r)
	v.Assert("parse", err == nil, "parsing fails")
	if err != nil {
		return
	}
	// What the operations give.
	fails := false
	for i := 0; i < m; i++ {
		if ops[i] == 0 {
			continue
		}
		if i >= n {
			fails = true
			continue
		}
		o := operands[is[i]]
		fails = fails || ops[i] == 1 && o.value == "" || ops[i] == 2 && o.code == 0
	}
	times := 1
	if before {
		times = 2
	}
	v.Assert("times", len(errs) == times, "a custom function does not see the call")
	for _, err := range errs {
		v.Assert("error", (err != nil) == fails, "the operations fail without reason, or do not fail")
	}
	r.OperationID = "f"
	if !fails {
		query("own")(&r)
		v.Assert("results", len(got) == times, "the operations give no results")
		for _, params := range got {
			v.Assert("parameters", len(params) == m, "wrong number of results")
			for i := 0; i < m && i < len(params); i++ {
				ok := false
				switch ops[i] {
				case 0:
					ok = params[i] == nil
				case 1:
					x, is1 := params[i].(string)
					ok = is1 && x == operands[is[i]].value
				case 2:
					x, is2 := params[i].(int)
					ok = is2 && x == operands[is[i]].code
				default:
					x, is3 := params[i].(astTraversal.Result)
					ok = is3 && hc.SameField(astra.ParseResultToField(x), operands[is[i]].typ)
				}
				v.Assert("parameter", ok, "an operation does not give its argument")
			}
		}
	}
	query("after")(&r)
	response(200, "application/json", astra.Field{Type: "T", Package: "h"})(&r)
	v.Assert("route", hc.SameRoute(s.Routes[0], r), "the result is not what the custom functions and the built-in treatment make")
}
