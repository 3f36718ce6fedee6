package p30

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/zzverif/hc"
	packages "github.com/ls6-events/astra/zzverif/packagesx"
	"github.com/ls6-events/astra/zzverif/v"
)

const head = "package h\n\nimport \"" + hc.Gin + "\"\n\n"

// mark is the body of a handler that is told by its query parameter.
func mark(m string) string { return "{ c.Query(\"" + m + "\"); c.Status(299) }" }

func fill(r *astra.Route, m string) {
	r.QueryParams = []astra.Param{{Name: m, Field: astra.Field{Type: "string"}}}
	r.ReturnTypes = []astra.ReturnType{{StatusCode: 299, Field: astra.Field{Type: "nil"}}}
}

func check(src []packages.Source, routes []astra.Route, wants []astra.Route) {
	hc.Program(hc.GinLite, src...)
	s := hc.Service()
	err := hc.ParseGin(s, routes...)
	v.Assert("parse", err == nil && len(s.Routes) == len(wants), "parsing fails")
	if err != nil {
		return
	}
	for i, w := range wants {
		v.Assert("route "+hc.Digit(i), hc.SameRoute(s.Routes[i], w), "a route is not documented from its handler")
	}
}

// lower is the lower-camel-case form of a name of letters and inner underscores.
func lower(name string) string {
	out, up := []byte{}, false
	for i := 0; i < len(name); i++ {
		c := name[i]
		switch {
		case c == '_':
			up = true
			continue
		case i == 0 && c >= 'A' && c <= 'Z':
			c += 'a' - 'A'
		case up && c >= 'a' && c <= 'z':
			c -= 'a' - 'A'
		}
		up = false
		out = append(out, c)
	}
	return string(out)
}

// H_Name: handlers of any name, with any documentation.
func H_Name() {
	name := v.StringUpTo("name", 1, 3, "aBz_")
	v.Assume(name[0] != '_' && name[len(name)-1] != '_')
	caps := 0
	for i := 0; i < len(name); i++ {
		if name[i] == 'B' {
			caps++
		} else if name[i] != '_' {
			caps = 0
		}
		v.Assume(caps < 2) // what becomes of abbreviations is a matter of taste
	}
	t := v.String("text", 1, "xY.\"*")
	d := [...]struct{ src, want string }{
		{"", ""},
		{"// " + t + " text\n", t + " text"},
		{"//" + t + "\n", t},
		{"// " + t + "\n//   two\n//\n// end.\n", t + "\n  two\n\nend."},
		{"/* " + t + " text */\n", t + " text"},
		{"/*\n" + t + "\n\ntext\n*/\n", t + "\n\ntext"},
		{"// " + t + "\n\n", ""},
		{"// not\n\n// " + t + "\n", t},
		{"// " + t + "\n//go:noinline\n", t},
		{"// \u00e9" + t + "\n", "\u00e9" + t},
		{"var x int // not\n// " + t + "\n", t},
	}
	doc := d[v.Choose("doc", len(d))]
	v.Assume(doc.want != "" || t == "x")
	v.Assume(t != "*" || doc.src[:2] != "//" || doc.src[2] == ' ')
	r := hc.Handler("h", name, "h.go", 20)
	w := r
	w.Doc, w.OperationID = doc.want, lower(name)
	fill(&w, "a")
	check([]packages.Source{hc.Source("h", "/w/h.go", head+"// other\nfunc other(c *gin.Context) "+mark("o")+"\n\n"+doc.src+"func "+name+"(c *gin.Context) "+mark("a")+"\n")}, []astra.Route{r}, []astra.Route{w})
}

// H_Decoys: handlers among other things of their names.
func H_Decoys() {
	a, b := v.String("first", 1, "ab"), v.String("second", 1, "cd")
	target := "// F.\nfunc f(c *gin.Context) " + mark(a) + "\n"
	n := 14
	decoy := func(i int, m string) string {
		switch i {
		case 1:
			return "// M.\nfunc (S) f(c *gin.Context) " + mark(m) + "\n"
		case 2:
			return "func (*S2) f(c *gin.Context) " + mark(m) + "\n"
		case 3:
			return "func g2" + m + "(c *gin.Context) { f := func(c *gin.Context) " + mark(m) + "; f(c) }\n"
		case 4:
			return "// f is F.\nfunc F(c *gin.Context) " + mark(m) + "\n"
		case 5:
			return "var F" + m + " = func(c *gin.Context) " + mark(m) + "\n"
		case 6:
			return "// f\nfunc ff(c *gin.Context) " + mark(m) + "\n"
		case 7:
			return "type I" + m + " interface{ f(c *gin.Context) }\n"
		case 8:
			return "type f" + m + " struct{ f func(c *gin.Context) }\n"
		case 9:
			return "func h" + m + "() { type f struct{}; var g f; _ = g }\n"
		case 10:
			return "func _(c *gin.Context) " + mark(m) + "\n"
		case 11:
			return "func init() { func(c *gin.Context) " + mark(m) + "(nil) }\n"
		case 12:
			return "func G[f any](c *gin.Context, x f) " + mark(m) + "\n"
		case 13:
			return "// " + m + "\nfunc k(c *gin.Context) { f(c); c.Query(\"" + m + "\") }\n"
		}
		return ""
	}
	i, j := v.Choose("before", n), v.Choose("after", n)
	v.Assume(i == 0 || i != j)
	src := head + "type S struct{}\n\ntype S2 struct{}\n\n" + decoy(i, "o") + "\n" + target + "\n" + decoy(j, b) + "\nfunc l(c *gin.Context) " + mark("l") + "\n"
	files := []packages.Source{hc.Source("h", "/w/h.go", src)}
	switch v.Choose("files", 3) {
	case 1:
		files = []packages.Source{hc.Source("h", "/w/a.go", head+"type X struct{}\n\nfunc (X) f(c *gin.Context) "+mark("x")+"\n\nfunc l2(c *gin.Context) "+mark("y")+"\n"), files[0]}
	case 2:
		files = append(files, hc.Source("m/h", "/m/h.go", head+"// Other.\nfunc f(c *gin.Context) "+mark("m")+"\n"))
	}
	r, l := hc.Handler("h", "f", "/w/h.go", 10), hc.Handler("h", "l", "/w/h.go", 12)
	l.Path = "/l"
	w, wl := r, l
	w.Doc, w.OperationID = "F.", "f"
	fill(&w, a)
	wl.OperationID = "l"
	fill(&wl, "l")
	routes, wants := []astra.Route{r, l}, []astra.Route{w, wl}
	if len(files) == 2 && files[1].Pkg == "m/h" {
		m := hc.Handler("m/h", "f", "/m/h.go", 6)
		m.Path = "/m"
		wm := m
		wm.Doc, wm.OperationID = "Other.", "f"
		fill(&wm, "m")
		routes, wants = append(routes, m), append(wants, wm)
	}
	if v.Bool("reverse") {
		for x, y := 0, len(routes)-1; x < y; x, y = x+1, y-1 {
			routes[x], routes[y] = routes[y], routes[x]
			wants[x], wants[y] = wants[y], wants[x]
		}
	}
	check(files, routes, wants)
}

// lits are declarations with inline handlers: lines, and for each line with a registered handler its
// mark and the name the runtime gives it.
type lit struct {
	mark, name string
}

func handler(m string) string { return "func(c *gin.Context) " + mark(m) }

// layout gives the lines of a file after its head, of 5 lines, and the inline handlers at each line.
func layout(i int, x string) ([]string, map[int]lit) {
	const e = ""
	switch i {
	case 0:
		return []string{
			"func setup(r R) {",
			"\tr.GET(" + handler("1") + ")",
			"\tr.GET(" + handler(x) + ")",
			"\tr.GET(func(c *gin.Context) {",
			"\t\tc.Query(\"3\")",
			"\t\tc.Status(299)",
			"\t})",
			"}",
		}, map[int]lit{1: {"1", "setup.func1"}, 2: {x, "setup.func2"}, 3: {"3", "setup.func3"}}
	case 1:
		return []string{
			"func (s S) setup(r R) {",
			"\tr.GET(wrap(func() {}, " + handler("1") + "))",
			"\tfunc() {",
			"\t\tr.GET(" + handler(x) + ")",
			"\t}()",
			"}",
			"var v1 = " + handler("6"),
			"var v2, v3 = 1, func() func(*gin.Context) { return " + handler("7") + " }()",
		}, map[int]lit{1: {"1", "S.setup.func2"}, 3: {x, "S.setup.func3.1"}, 6: {"6", "init.func1"}, 7: {"7", "init.func2.1"}}
	case 2:
		return []string{
			"// Doc of mk.",
			"func mk(n int) func(*gin.Context) { return " + handler(x) + " }",
			"func gen[E any](e E) func(*gin.Context) {",
			"\treturn " + handler("3"),
			"}",
			"func (s *S) mk() (h func(*gin.Context)) {",
			"\th = " + handler("6"),
			"\treturn",
			"}",
		}, map[int]lit{1: {x, "setup.mk.func1"}, 3: {"3", "gen[...].func1"}, 6: {"6", "(*S).mk.func1"}}
	case 3:
		return []string{
			"var m = map[string]func(*gin.Context){",
			"\t\"a\": " + handler("1") + ",",
			"\t\"b\": " + handler(x) + ",",
			"}",
			"var s = []struct{ h func(*gin.Context) }{",
			"\t{" + handler("5") + "},",
			"\t{h: " + handler("6") + "},",
			"}",
		}, map[int]lit{1: {"1", "glob..func1"}, 2: {x, "init.func2"}, 5: {"5", "glob..func3"}, 6: {"6", "init.func4"}}
	case 4:
		// Handlers in handlers.
		return []string{
			"func setup(r R) {",
			"\tr.GET(func(d *gin.Context) {",
			"\t\tinner := " + handler("2"),
			"\t\tinner(d)",
			"\t\td.Query(\"" + x + "\")",
			"\t\td.Status(299)",
			"\t})",
			"\tgo func(r R) { r.GET(" + handler("7") + ") }(r)",
			"\tdefer func(c int) {}(1)",
			"}",
		}, map[int]lit{2: {"2", "setup.func1.1"}, 7: {"7", "setup.func2.1"}}
	}
	return []string{
		"func init() { use(" + handler("0") + ") }",
		"func init() { use(" + handler(x) + ") }",
		"func use(func(*gin.Context)) {}",
		"func other(c *gin.Context) " + mark("3"),
		"var _ = func(n int) int { return n }",
		"var _ = " + handler("5"),
	}, map[int]lit{0: {"0", "init.0.func1"}, 1: {x, "init.1.func1"}, 5: {"5", "init.func2"}}
}

// H_Inline: inline handlers by line, among all that a file can have.
func H_Inline() {
	k := v.Choose("layout", 6)
	x := v.String("x", 1, "xy")
	lines, lits := layout(k, x)
	gap := v.Choose("gap", 2)
	src := head + "type R struct{}\n\nfunc (R) GET(func(*gin.Context)) {}\n\nfunc wrap(a func(), b func(*gin.Context)) func(*gin.Context) { return b }\n\ntype S struct{}\n\n"
	if k == 3 {
		// Names of variables must not collide.
		src = head + "\n"
	}
	first := 1
	for i := 0; i < len(src); i++ {
		if src[i] == '\n' {
			first++
		}
	}
	file := src
	for _, l := range lines {
		file += l + "\n"
		for g := 0; g < gap; g++ {
			file += "\n"
		}
	}
	files := []packages.Source{hc.Source("h", "/w/h.go", file)}
	if v.Bool("other file") {
		// Literals at every line of another file.
		other := head
		for i := 0; i < 40; i++ {
			other += "var o" + hc.Digit(i) + " = " + handler("o") + "\n"
		}
		name := v.StringUpTo("file", 1, 2, "ahH-.")
		v.Assume(name != "h" && name[:1] != ".")
		o := hc.Source("h", "/w/"+name+".go", other)
		if v.Bool("after") {
			files = append(files, o)
		} else {
			files = append([]packages.Source{o}, files...)
		}
	}
	var routes, wants []astra.Route
	for i := 0; i < len(lines); i++ {
		l, ok := lits[i]
		if !ok {
			continue
		}
		r := hc.Handler("h", l.name, "/w/h.go", first+i*(1+gap))
		r.Path = "/" + hc.Digit(i)
		w := r
		fill(&w, l.mark)
		routes, wants = append(routes, r), append(wants, w)
	}
	if v.Bool("reverse") {
		for x, y := 0, len(routes)-1; x < y; x, y = x+1, y-1 {
			routes[x], routes[y] = routes[y], routes[x]
			wants[x], wants[y] = wants[y], wants[x]
		}
	}
	check(files, routes, wants)
}

// H_Mixed: named and inline handlers, twice registered handlers, with paths and other methods.
func H_Mixed() {
	p, q := v.String("p", 1, "ab"), v.String("q", 1, "cd")
	src := head + "// A.\nfunc A(c *gin.Context) " + mark("A") + "\n\nfunc setup() []func(*gin.Context) {\n\treturn []func(*gin.Context){\n\t\t" + handler("B") + ",\n\t\tA, " + handler("C") + ",\n\t}\n}\n\n// Gen.\nfunc Gen_x[E any](c *gin.Context) { A(c); c.Query(\"G\") }\n"
	all := []astra.Route{hc.Handler("h", "A", "h.go", 6), hc.Handler("h", "setup.func1", "h.go", 10), hc.Handler("h", "setup.func2", "h.go", 11), hc.Handler("h", "Gen_x[...]", "h.go", 16)}
	var routes, wants []astra.Route
	for i := 0; i < 3; i++ {
		k := v.Choose("route "+hc.Digit(i), len(all))
		r := all[k]
		r.Method, r.Path = []string{"GET", "POST", "PUT"}[i], "/"+p+"/:"+q
		w := r
		switch k {
		case 0:
			w.Doc, w.OperationID = "A.", "a"
			fill(&w, "A")
		case 1:
			fill(&w, "B")
		case 2:
			fill(&w, "C")
		default:
			w.Doc, w.OperationID = "Gen.", "genX"
			fill(&w, "A")
			w.QueryParams = append(w.QueryParams, astra.Param{Name: "G", Field: astra.Field{Type: "string"}})
		}
		w.PathParams = []astra.Param{{Name: q, Field: astra.Field{Type: "string"}, IsRequired: true}}
		routes, wants = append(routes, r), append(wants, w)
	}
	check([]packages.Source{hc.Source("h", "/w/h.go", src)}, routes, wants)
}

// method is a method of a type among others of its name, and the name the runtime gives its value.
func method(k int, m string) (src, name string) {
	b := "(c *gin.Context) " + mark(m) + "\n"
	switch k {
	case 0:
		return "func (S) f" + b, "S.f-fm"
	case 1:
		return "func (*P) f" + b, "(*P).f-fm"
	case 2:
		return "func (g *G[E]) f" + b, "(*G[...]).f-fm"
	case 3:
		return "func (g G2[_, E]) f" + b, "G2[...].f-fm"
	case 4:
		return "func (s (*Q)) f" + b, "(*Q).f-fm"
	case 5:
		return "func (s S) F" + b, "S.F-fm"
	case 6:
		return "func f" + b, "f"
	}
	return "func (s *T_x) f_x" + b, "(*T_x).f_x-fm"
}

// H_Methods: method values among methods and functions of their names, in any order and file.
func H_Methods() {
	const n = 8
	i, j := v.Choose("first", n), v.Choose("second", n)
	t := v.String("text", 1, "xY.")
	x := v.String("x", 1, "ab")
	a, b := head+"type (\n\tS struct{}\n\tP struct{}\n\tG[E any] struct{}\n\tG2[A, B any] struct{}\n\tQ int\n\tT_x struct{}\n)\n\n", head
	places := v.Choose("places", 3)
	marks := map[int]string{}
	names := map[int]string{}
	for k := 0; k < n; k++ {
		m := hc.Digit(k)
		if k == i {
			m = x
		}
		src, name := method(k, m)
		marks[k], names[k] = m, name
		src = "// Doc " + t + hc.Digit(k) + "\n" + src + "\n"
		switch {
		case places == 0 || places == 1 && k%2 == 0:
			a += src
		case places == 2 && k == i:
			b = b + src
		case places == 2:
			a += src
		default:
			b = head + src + b[len(head):]
		}
	}
	files := []packages.Source{hc.Source("h", "/w/h.go", a)}
	if places > 0 {
		files = append(files, hc.Source("h", "/w/i.go", b))
	}
	if v.Bool("reverse") && places > 0 {
		files[0], files[1] = files[1], files[0]
	}
	var routes, wants []astra.Route
	for p, k := range []int{i, j} {
		file, line := "<autogenerated>", 1
		if k == 6 {
			file, line = "i.go", 5
			if places == 0 || places == 1 || places == 2 && i != 6 {
				file = "h.go"
			}
		}
		r := hc.Handler("h", names[k], file, line)
		r.Path = "/" + hc.Digit(p)
		w := r
		w.Doc, w.OperationID = "Doc "+t+hc.Digit(k), "f"
		if k == n-1 {
			w.OperationID = "fX"
		}
		fill(&w, marks[k])
		routes, wants = append(routes, r), append(wants, w)
	}
	check(files, routes, wants)
}
