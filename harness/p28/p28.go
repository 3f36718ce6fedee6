package p28

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/zzverif/hc"
	packages "github.com/ls6-events/astra/zzverif/packagesx"
	"github.com/ls6-events/astra/zzverif/v"
)

// same compares the listed values with the expected ones, given as int64, uint64, float64, string or bool.
func same(got []any, want []any) bool {
	if len(got) != len(want) {
		return false
	}
	for i, w := range want {
		var ok bool
		switch w := w.(type) {
		case int64:
			ok = integer(got[i], w)
		case uint64:
			switch g := got[i].(type) {
			case uint64:
				ok = g == w
			default:
				ok = w < 1<<63 && integer(got[i], int64(w))
			}
		case float64:
			switch g := got[i].(type) {
			case float64:
				ok = g == w
			case float32:
				ok = float64(g) == w
			}
		case string:
			g, is := got[i].(string)
			ok = is && g == w
		case bool:
			g, is := got[i].(bool)
			ok = is && g == w
		}
		if !ok {
			return false
		}
	}
	return true
}

func integer(got any, want int64) bool {
	switch g := got.(type) {
	case int:
		return int64(g) == want
	case int8:
		return int64(g) == want
	case int16:
		return int64(g) == want
	case int32:
		return int64(g) == want
	case int64:
		return g == want
	case uint8:
		return int64(g) == want
	case uint64:
		return want >= 0 && g == uint64(want)
	}
	return false
}

func parse(body string, src ...packages.Source) (*astra.Service, bool) {
	hc.Program(hc.GinLite, append([]packages.Source{hc.Source("h", "/w/h.go",
		"package h\n\nimport (\n\t\""+hc.Gin+"\"\n\t\"m/sub\"\n)\n\nvar _ sub.S\n\nfunc f(c *gin.Context) {\n"+body+"\n\tc.Status(299)\n}\n")}, src...)...)
	s := hc.Service()
	err := hc.ParseGin(s, hc.Handler("h", "f", "h.go", 10))
	v.Assert("parse", err == nil && len(s.Routes) == 1, "parsing fails")
	return s, err == nil
}

// check finds the type among the components and compares its enum.
func check(s *astra.Service, pkg, name, typ string, want []any) {
	n := 0
	for _, c := range s.Components {
		if c.Package == pkg && c.Name == name {
			n++
			v.Assert("type", c.Type == typ, "a type is not described by its basic type")
			v.Assert("number of values", len(c.EnumValues) == len(want), "constants of the type are missing, or others are listed")
			v.Assert("values", same(c.EnumValues, want), "the listed values are not the declared ones, in their order")
		}
	}
	v.Assert("component", n == 1, "the type is not described once")
}

const sub = "package sub\n\ntype S string\n\ntype E string\n\nconst Other E = \"other\"\n"

// uses are ways to use the type E.
var uses = []string{
	"\tvar x E\n\tc.JSON(200, x)",
	"\tvar x []E\n\tc.JSON(200, x)",
	"\tvar x struct{ F *E }\n\tc.JSON(200, x)",
	"\tvar x map[E]int\n\tc.BindJSON(&x)",
}

// group is a declaration of constants, some of the type E, and the values of those.
type group struct {
	src  string
	want []any
}

const strGroups = 15

// texts is a declaration of constants of a string type; p makes its names unique.
func texts(id string, i int, p string) group {
	if i < 13 {
		e, s := hc.Text(id, i)
		if i == 9 || i == 12 {
			e = "E(" + e + ")"
		}
		return group{"const " + p + "A E = " + e + "\n", []any{s}}
	}
	s := v.String(id, 1, "ab")
	switch i {
	case 13:
		return group{"const (\n\t" + p + "A, " + p + "B E = \"" + s + "\", `q`\n\t// c\n\t" + p + "C = E(\"" + s + s + "\")\n)\n", []any{s, "q", s + s}}
	default:
		return group{"const (\n\t" + p + "A E = \"" + s + "x\"\n\t" + p + "B\n\tlower" + p + " = " + p + "A + \"y\"\n\t_ E = \"blank\"\n)\n", []any{s + "x", s + "x", s + "xy"}}
	}
}

// H_Strings: constants of string types, written in every way.
func H_Strings() {
	g := texts("first", v.Choose("form", strGroups), "P")
	var h group
	if v.Bool("second") {
		h = texts("second", 13+v.Choose("second form", 2), "Q")
	}
	s, ok := parse(uses[v.Choose("use", 1)], hc.Source("h", "/w/i.go", "package h\n\ntype Str string\n\n"+g.src+"\ntype E string\n\n"+h.src), hc.Source("m/sub", "/s/s.go", sub))
	if ok {
		check(s, "h", "E", "string", append(append([]any{}, g.want...), h.want...))
	}
}

// integers is a declaration of constants of an integer type that can hold them.
func integers(id string, i int) (src string, want []int) {
	if i < hc.Integers {
		e, n := hc.Integer(id, i)
		if i == 10 || i == 13 {
			e = "E(" + e + ")"
		}
		return "const A E = " + e + "\n", []int{n}
	}
	d := v.String(id, 1, "1347")
	n := hc.Number(d, 10)
	switch i - hc.Integers {
	case 0:
		return "const (\n\tA E = iota\n\tB\n\t_\n\tC\n)\n", []int{0, 1, 3}
	case 1:
		return "const (\n\tA E = iota + " + d + "\n\tB\n\n\tC, D E = iota * 2, " + d + " * iota\n\tE1, F\n)\n", []int{n, n + 1, 4, n * 2, 6, n * 3}
	case 2:
		return "const (\n\tA E = 1 << (iota + " + d + ")\n\tB\n)\n", []int{1 << uint(n), 2 << uint(n)}
	case 3:
		return "const (\n\t_ E = iota\n\tA\n\tX = \"x\"\n\tB = E(iota)\n\tC E = A + B\n)\n", []int{1, 3, 4}
	case 4:
		return "const A, B E = " + d + ", A + 1\nconst C = B * A\n", []int{n, n + 1, n * (n + 1)}
	case 5:
		return "const u = " + d + "\nconst A E = u\nconst B = u\nconst C = E(u) + 1\n", []int{n, n + 1}
	default:
		return "const (\n\tA E = " + d + " // first\n\t// B is\n\tB E = 10 + " + d + "\n)\n", []int{n, 10 + n}
	}
}

var intTypes = []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "byte", "rune", "Base"}

// H_Integers: constants of every integer type.
func H_Integers() {
	i := v.Choose("form", hc.Integers+7)
	t := intTypes[v.Choose("type", len(intTypes))]
	if !v.Thorough() {
		v.Assume(i >= hc.Integers || t == "int" || t == "int64" || t == "uint64")
	}
	src, want := integers("n", i)
	max, min := 1<<62, -1<<62
	typ := t
	switch t {
	case "int8":
		max, min = 127, -128
	case "uint8", "byte":
		max, min = 255, 0
	case "uint", "uint16", "uint32", "uint64", "uintptr":
		max, min = 60000, 0
	case "int16":
		max, min = 32767, -32768
	case "Base":
		typ = "int16"
		max, min = 32767, -32768
	}
	if t == "byte" {
		typ = "uint8"
	}
	if t == "rune" {
		typ = "int32"
	}
	var values []any
	for _, n := range want {
		v.Assume(n >= min && n <= max)
		values = append(values, int64(n))
	}
	s, ok := parse(uses[0], hc.Source("h", "/w/i.go", "package h\n\ntype Base int16\n\ntype E "+t+"\n\nconst base Base = 77\n\n"+src), hc.Source("m/sub", "/s/s.go", sub))
	if !ok {
		return
	}
	for j := range s.Components {
		// The names byte and rune are as good as the types they stand for.
		if c := &s.Components[j]; c.Type == t && t != typ {
			c.Type = typ
		}
	}
	check(s, "h", "E", typ, values)
}

// H_Limits: the largest and smallest values, other kinds of types.
func H_Limits() {
	i := v.Choose("case", 12)
	var t, src string
	var want []any
	switch i {
	case 0:
		t, src, want = "int64", "const A, B E = -9223372036854775808, 1<<63 - 1", []any{int64(-1 << 63), int64(1<<63 - 1)}
	case 1:
		t, src, want = "uint64", "const A, B E = 18446744073709551615, 1 << 63", []any{uint64(1<<64 - 1), uint64(1 << 63)}
	case 2:
		t, src, want = "uint", "const A E = 1<<64 - 1", []any{uint64(1<<64 - 1)}
	case 3:
		t, src, want = "int8", "const A, B E = -128, 127", []any{int64(-128), int64(127)}
	case 4:
		t, src, want = "float64", "const A, B, C E = 1.5, -2.5e3, 3", []any{1.5, -2500.0, 3.0}
	case 5:
		t, src, want = "float32", "const A, B E = 0.25, 7\nconst C E = A * B", []any{0.25, 7.0, 1.75}
	case 6:
		t, src, want = "bool", "const A, B E = true, 1 > 2\nconst C = !B", []any{true, false, true}
	case 7:
		t, src, want = "int", "const A E = 0xFFFFFFFF\nconst B = -A\nconst C E = 'a'\nconst D E = 2.0", []any{int64(0xFFFFFFFF), int64(-0xFFFFFFFF), int64('a'), int64(2)}
	case 8:
		t, src, want = "string", "const A E = \"\"\nconst B E = \"\\x00\\xff\"\nconst C E = \"\\u2028\U0001F600\"", []any{"", "\x00\xff", "\u2028\U0001F600"}
	case 9:
		t, src, want = "uint8", "const A E = 255\nconst B = ^A\nconst C E = ^E(1)", []any{int64(255), int64(0), int64(254)}
	case 10:
		t, src, want = "rune", "const A, B E = '\\n', '\u4e16'", []any{int64('\n'), int64(0x4e16)}
	default:
		t, src, want = "string", "", nil
	}
	typ := t
	if t == "rune" {
		typ = "int32"
	}
	s, ok := parse(uses[v.Choose("use", len(uses))], hc.Source("h", "/w/i.go", "package h\n\ntype E "+t+"\n\n"+src+"\n"), hc.Source("m/sub", "/s/s.go", sub))
	if !ok {
		return
	}
	for j := range s.Components {
		if c := &s.Components[j]; c.Type == t {
			c.Type = typ
		}
	}
	check(s, "h", "E", typ, want)
}

// decoys are declarations of constants that do not have the type E, whatever it is made of, but for
// those they return.
const decoys = 16

func decoy(i int) (src, body string, want []any) {
	switch i {
	case 0:
		return "const D = \"untyped\"\n", "", nil
	case 1:
		return "type E2 string\n\nconst D E2 = \"d\"\n", "", nil
	case 2:
		return "type EA = E\n\nconst D EA = \"d\"\n", "", []any{"d"}
	case 3:
		return "const D = string(E(\"d\"))\n", "", nil
	case 4:
		return "const D sub.E = \"d\"\n", "", nil
	case 5:
		return "type Sub E\n\nconst D Sub = \"d\"\n", "", nil
	case 6:
		return "const D = len(E(\"d\"))\n", "", nil
	case 7:
		return "var D E = \"d\"\n", "", nil
	case 8:
		return "type E3 = string\n\nconst D E3 = \"d\"\n", "", nil
	case 9:
		// A local type of the same name, not used by the handler.
		return "func other() {\n\ttype E string\n\tconst D E = \"d\"\n}\n", "", nil
	case 10:
		return "const D = E(\"a\") == \"a\"\n", "", nil
	case 11:
		return "const D E = E(Own) + E(Two)\n\ntype E4 E\n\nconst Own, Two E4 = \"o\", \"t\"\n", "", []any{"ot"}
	case 12:
		return "type H struct{ D E }\n\nfunc (H) E() string { return \"d\" }\n", "", nil
	case 13:
		return "const _ E = \"blank\"\n", "", nil
	case 14:
		return "const D, F = E(\"d\"), \"f\"\n", "", []any{"d"}
	}
	return "const (\n\tD E = \"d\"\n\tF = \"f\"\n\tG\n)\n", "", []any{"d"}
}

// H_Decoys: constants of other types, and aliases.
func H_Decoys() {
	i := v.Choose("decoy", decoys)
	x := v.String("value", 1, "ab")
	src, _, more := decoy(i)
	own := "const A E = \"" + x + "\"\n"
	want := []any{x}
	decls := own + src
	if v.Bool("decoy first") {
		decls, want = src+own, append(append([]any{}, more...), x)
	} else {
		want = append(want, more...)
	}
	decls += "\ntype E string\n"
	s, ok := parse(uses[v.Choose("use", len(uses))], hc.Source("h", "/w/i.go", "package h\n\nimport \"m/sub\"\n\nvar _ sub.S\n\n"+decls), hc.Source("m/sub", "/s/s.go", sub))
	if ok {
		check(s, "h", "E", "string", want)
	}
}

// H_Files: types and constants over files and packages.
func H_Files() {
	a, b, c := v.String("a", 1, "ab"), v.String("b", 1, "cd"), v.String("c", 1, "ef")
	typ := "type E string\n"
	var h, i, j, k string
	body, pkg := uses[v.Choose("use", 2)], "h"
	want := []any{a, b, c}
	switch v.Choose("case", 6) {
	case 0:
		h, i, j = "const A E = \""+a+"\"\n", typ+"const B E = \""+b+"\"\n", "const C E = \""+c+"\"\n"
	case 1:
		h, i, j = typ+"const A E = \""+a+"\"\n", "const D = \"d\"\n\nconst B, C E = \""+b+"\", \""+c+"\"\n", ""
	case 2:
		// A type of another package.
		body, pkg = "\tvar x sub.S\n\tc.JSON(200, x)", "m/sub"
		h, j, k = typ+"const A E = \"z\"\n\nconst X sub.S = \"x\"\n", "const Y = sub.S(\"y\")\n", "const A S = \""+a+"\"\n\nconst B, C = S(\""+b+"\"), S(\""+c+"\")\n"
	case 3:
		// Types of one name in two packages.
		h, k = typ+"const A, B, C E = \""+a+"\", \""+b+"\", \""+c+"\"\n", "const More E = \"more\"\n"
	case 4:
		// A type of another package, through an alias.
		body, pkg = "\tvar x AS\n\tc.JSON(200, []AS{x})", "m/sub"
		h, k = "type AS = sub.S\n\nconst X AS = \"x\"\n", "const A, B, C S = \""+a+"\", \""+b+"\", \""+c+"\"\n"
	default:
		// A local type hides the package's.
		body = "\ttype E string\n\tvar x E\n\tc.JSON(200, x)"
		h, want = typ+"const A, B, C E = \""+a+"\", \""+b+"\", \""+c+"\"\n", nil
	}
	pk := "package h\n\nimport \"m/sub\"\n\nvar _"
	hc.Program(hc.GinLite, hc.Source("h", "/w/a.go", pk+"1 sub.S\n\n"+h), hc.Source("h", "/w/h.go",
		"package h\n\nimport (\n\t\""+hc.Gin+"\"\n\t\"m/sub\"\n)\n\nvar _ sub.S\n\nfunc f(c *gin.Context) {\n"+body+"\n\tc.Status(299)\n}\n"),
		hc.Source("h", "/w/i.go", pk+"2 sub.S\n\n"+i), hc.Source("h", "/w/j.go", pk+"3 sub.S\n\n"+j), hc.Source("m/sub", "/s/s.go", sub+k))
	s := hc.Service()
	err := hc.ParseGin(s, hc.Handler("h", "f", "h.go", 10))
	v.Assert("parse", err == nil && len(s.Routes) == 1, "parsing fails")
	if err != nil {
		return
	}
	name := "E"
	if pkg != "h" {
		name = "S"
	}
	check(s, pkg, name, "string", want)
}

// H_Document: the values reach the document, however many there are.
func H_Document() {
	x := v.String("value", 1, "aB-")
	var t, src string
	var want []any
	switch v.Choose("case", 9) {
	case 0:
		t = "string"
	case 1:
		t, src, want = "string", "const A E = \""+x+"\"", []any{x}
	case 2:
		t, src, want = "string", "const B, A E = \""+x+"\", \"\"", []any{x, ""}
	case 3:
		t, src, want = "string", "const A, B, C, D E = \"d\", \""+x+"\", \""+x+"\", \"a\"", []any{"d", x, x, "a"}
	case 4:
		t, src, want = "int", "const A E = 0", []any{0.0}
	case 5:
		t, src, want = "int8", "const A, B, C E = 7, -7, 0", []any{7.0, -7.0, 0.0}
	case 6:
		t, src, want = "float64", "const A, B E = 1.5, -2", []any{1.5, -2.0}
	case 7:
		t, src, want = "bool", "const A E = false", []any{false}
	default:
		t, src, want = "bool", "const A, B E = true, false", []any{true, false}
	}
	s, ok := parse(uses[v.Choose("use", len(uses))], hc.Source("h", "/w/i.go", "package h\n\ntype E "+t+"\n\n"+src+"\n"), hc.Source("m/sub", "/s/s.go", sub))
	if !ok {
		return
	}
	d, ok := hc.Doc(s)
	if !ok {
		return
	}
	e, ok := d.Components.Schemas["h.E"]
	v.Assert("documented", ok, "the type has no schema")
	v.Assert("number of documented values", len(e.Enum) == len(want), "constants are missing from the document, or others are listed")
	for i := range want {
		if i < len(e.Enum) {
			g, isText := e.Enum[i].(string)
			w, text := want[i].(string)
			v.Assert("documented values", isText == text && g == w && (text || e.Enum[i] == want[i]), "the documented values are not the declared ones, in their order")
		}
	}
}
