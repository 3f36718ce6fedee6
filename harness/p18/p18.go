package p18

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

// place is where a constant is and how it is written there: the local, package, other file and
// other package parts of the program, and the expression.
type place struct{ local, pkg, file, sub, expr string }

// places gives every place of the constant expression e, of type typ; z is another of that type.
func places(e, typ, z string, typed bool) []place {
	t := e
	if typed {
		t = typ + "(" + e + ")"
	}
	return []place{
		{expr: e},
		{expr: "(" + e + ")"},
		{expr: "K", pkg: "const K = " + e},
		{expr: "K", pkg: "const K " + typ + " = " + e},
		{expr: typ + "(K)", pkg: "type L " + typ + "\n\nconst K L = L(" + e + ")"},
		{expr: "V", pkg: "var V = " + t},
		{expr: "V", pkg: "var V " + typ + " = " + e},
		{expr: "K", pkg: "const J, K = " + z + ", " + e},
		{expr: "K", pkg: "const (\n\tI = " + z + "\n\tJ, K = I, " + e + "\n)"},
		{expr: "K", pkg: "const (\n\tJ = " + e + "\n\tK\n)"},
		{expr: "V", pkg: "var U, V = " + z + ", " + t},
		{expr: "V", pkg: "var V, U = " + t + ", " + z},
		{expr: "K", pkg: "const K = J\nconst J = " + e},
		{expr: "V", pkg: "var V = J\nconst J = " + t},
		{expr: "V", pkg: "var V = U\nvar U = (" + t + ")"},
		{expr: "K", file: "const K = " + e},
		{expr: "V", file: "var V = " + t},
		{expr: "V", file: "var V = J", pkg: "const J = " + t},
		{expr: "k", local: "const k = " + e},
		{expr: "v", local: "v := " + t},
		{expr: "v", local: "var v = " + t},
		{expr: "v", local: "u, v := " + z + ", " + t + "; _ = u"},
		{expr: "v", local: "var u, v = " + z + ", " + t + "; _ = u"},
		{expr: "v", local: "const k = " + t + "; v := k"},
		{expr: "v", local: "u := " + t + "; v := u"},
		{expr: "K", pkg: "const K = " + z, local: "const K = " + e},
		{expr: "V", pkg: "var V = " + z, local: "V := " + t},
		{expr: "sub.K", sub: "const K = " + e},
		{expr: "sub.K", sub: "const K = J\nconst J " + typ + " = " + e},
		{expr: "sub.V", sub: "var V = " + t},
		{expr: "sub.V", sub: "var U, V = " + z + ", " + t},
		{expr: "sub.V", sub: "var V = U\nvar U = " + t},
		{expr: "sub.V", sub: "const V = " + e, pkg: "const V = " + z},
		{expr: "V", sub: "const V = " + e, pkg: "const V = sub.V"},
		{expr: "V", sub: "var V = " + t, pkg: "var V = sub.V"},
		{expr: "V", sub: "const V = " + t, pkg: "var V = sub.V"},
		{expr: "v", sub: "const V = " + t, local: "v := sub.V"},
	}
}

// parse parses the handler with the call and gives its route back.
func parse(p place, call string) (astra.Route, bool) { return parseWith(hc.GinLite, p, call) }

func parseWith(gin string, p place, call string) (astra.Route, bool) {
	use := "\nvar _ sub.Used\n"
	hc.Program(gin,
		hc.Source("h", "/w/h.go", "package h\n\nimport (\n\t\""+hc.Gin+"\"\n\tsub \"m/other\"\n)\n"+use+"\ntype Str string\n\n"+p.pkg+"\n\nfunc decoy() { k, v := 0, 1; _, _ = k, v }\n\nfunc f(c *gin.Context) {\n\t"+p.local+"\n\t"+call+"\n\tc.Status(998)\n}\n"),
		hc.Source("h", "/w/i.go", "package h\n\n"+p.file+"\n"),
		hc.Source("m/other", "/o/o.go", "package other\n\ntype Used int\n\ntype Str string\n\n"+p.sub+"\n"))
	s := hc.Service()
	err := hc.ParseGin(s, hc.Handler("h", "f", "h.go", 1))
	v.Assert("parse", err == nil, "parsing fails")
	if err != nil {
		return astra.Route{}, false
	}
	return s.Routes[0], true
}

// some gives one of the places, all of which are combined with the first forms only.
func some(form int, ps []place) place {
	if form == 0 || v.Thorough() {
		return ps[v.Choose("place", len(ps))]
	}
	return ps[[]int{0, 2, 5, 9, 10, 19, 27, 29}[v.Choose("place", 8)]]
}

func status(form int, e string, want int) {
	p := some(form, places(e, "int", "7", form >= 6 && form <= 8))
	r, ok := parse(p, "c.Status("+p.expr+")")
	if ok {
		v.Assert("status", len(r.ReturnTypes) == 2 && r.ReturnTypes[0].StatusCode == want, "the status code is not the constant's value")
	}
}

// H_Status: any way to write a constant status code.
func H_Status() {
	form := v.Choose("form", 14)
	e, want := hc.Integer("n", form)
	status(form, e, want)
}

// H_Name: any way to write a constant name.
func H_Name() {
	form := v.Choose("form", 13)
	e, want := hc.Text("s", form)
	ps := places(e, "string", "\"z\"", false)
	p := ps[v.Choose("place", len(ps))]
	r, ok := parse(p, "c.Query("+p.expr+")")
	if ok {
		v.Assert("name", len(r.QueryParams) == 1 && r.QueryParams[0].Name == want, "the name is not the constant's value")
	}
}

// H_Iota: implicit repetition and iota.
func H_Iota() {
	k := v.Int("skipped", 0, 3)
	src := "const (\n"
	for i := 0; i < k; i++ {
		src += "\t_ = iota\n"
	}
	d := v.String("base", 1, "1259")
	form := v.Choose("form", 4)
	want := 0
	switch form {
	case 0:
		src += "\tJ = " + d + "00 + iota\n\tK\n)"
		want = hc.Number(d, 10)*100 + k + 1
	case 1:
		src += "\tJ, I = iota, " + d + " + iota*2\n\t_, K\n)"
		want = hc.Number(d, 10) + (k+1)*2
	case 2:
		src += "\tJ L = " + d + " << iota\n\tK\n)\n\ntype L int"
		want = hc.Number(d, 10) << uint(k+1)
	default:
		src += "\tJ = iota\n\tI = " + d + "\n\tK = iota\n)"
		want = k + 2
	}
	r, ok := parse(place{pkg: src}, "c.Status(int(K))")
	if ok {
		v.Assert("status", len(r.ReturnTypes) == 2 && r.ReturnTypes[0].StatusCode == want, "the status code is not the constant's value")
	}
}

// others have no constant value.
var others = []place{
	{expr: "v", local: "v := g()"},
	{expr: "V", pkg: "var V = g()"},
	{expr: "V", pkg: "var V int"},
	{expr: "U", pkg: "var U, V = two()"},
	{expr: "v", local: "v, w := two(); _ = w"},
	{expr: "v", local: "var v int"},
	{expr: "s.V", local: "var s struct{ V int }"},
	{expr: "s.V", local: "s := struct{ V int }{V: 5}", pkg: "var V = 6"},
	{expr: "sub.X.V", sub: "var X struct{ V int }\nvar V = 5"},
	{expr: "v", local: "for v := range 3 { _ = v }; v := g()"},
	{expr: "m[0]", local: "m := map[int]int{0: 1}"},
	{expr: "V + 1", pkg: "var V = g()"},
	{expr: "sub.V", sub: "var V int"},
	{expr: "sub.G()", sub: "func G() int { return 5 }"},
	{expr: "int(f)", local: "f := float64(g())"},
}

// H_Other: what has no constant value is not given one.
func H_Other() {
	p := others[v.Choose("expression", len(others))]
	p.pkg += "\nfunc g() int { return 1 }\n\nfunc two() (int, int) { return 1, 2 }\n"
	r, ok := parse(p, "c.Status("+p.expr+")")
	if ok {
		v.Assert("status", len(r.ReturnTypes) == 1 && r.ReturnTypes[0].StatusCode == 998, "a value is recorded that is not constant")
	}
}

// H_Unnamed: names and content types that are not constant are not recorded, the rest of the call is.
func H_Unnamed() {
	p := []place{
		{expr: "h()"},
		{expr: "v", local: "v := h()"},
		{expr: "V", pkg: "var V = h()"},
		{expr: "V", pkg: "var V string"},
		{expr: "v + \"x\"", local: "v := h()"},
		{expr: "\"x\" + h()"},
		{expr: "sub.V", sub: "var V string"},
		{expr: "s.V", local: "s := struct{ V string }{V: \"x\"}"},
		{expr: "m[0]", local: "m := []string{\"x\"}"},
		{expr: "c.Param(\"q\")"},
		{expr: "x[:1]", local: "x := h()"},
	}[v.Choose("expression", 11)]
	p.pkg += "\nfunc h() string { return \"h\" }\n"
	d := v.String("digit", 1, "0123456789")
	r, ok := parseWith(hc.GinSource, p, "c.Data(20"+d+", "+p.expr+", nil); c.Query("+p.expr+"); c.GetHeader("+p.expr+"); c.Header("+p.expr+", \"x\"); c.PostForm("+p.expr+"); c.Query(\"last\")")
	if !ok {
		return
	}
	v.Assert("response", len(r.ReturnTypes) == 2 && r.ReturnTypes[0].StatusCode == 200+hc.Number(d, 10) && r.ReturnTypes[0].ContentType == "", "a response of unknown content type is not recorded, or given one")
	v.Assert("names", len(r.QueryParams) == 1 && r.QueryParams[0].Name == "last" && len(r.RequestHeaders) == 0 && len(r.ResponseHeaders) == 0 && len(r.Body) == 0, "a parameter is recorded under a name that is not constant")
}
