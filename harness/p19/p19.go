package p19

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

// typ is a type: how it is written, what it is described as where it is used, and the named types
// it involves.
type typ struct {
	src   string
	want  astra.Field
	types []string
	bad   bool // cannot be described
}

var predeclared = []string{"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "byte", "rune"}

func ref(pkg, name string) astra.Field { return astra.Field{Type: name, Package: pkg} }

func basic(name string) astra.Field { return astra.Field{Type: name} }

func untagged(f astra.Field, name string) astra.Field {
	f.StructFieldBindingTags = astTraversal.BindingTagMap{"": {Name: name}}
	f.StructFieldValidationTags = astTraversal.ValidationTagMap{}
	return f
}

// named are the named types of the program, and others that elements can be of.
var named = []typ{
	{src: "T", want: ref("h", "T"), types: []string{"h.T"}},
	{src: "*T", want: ref("h", "T"), types: []string{"h.T"}},
	{src: "**T", want: ref("h", "T"), types: []string{"h.T"}},
	{src: "sub.T", want: ref("m/sub", "T"), types: []string{"m/sub.T"}},
	{src: "E", want: ref("h", "E"), types: []string{"h.E"}},
	{src: "I", want: ref("h", "I"), types: []string{"h.I"}},
	{src: "M", want: ref("h", "M"), types: []string{"h.M", "h.T"}},
	{src: "L", want: ref("h", "L"), types: []string{"h.L", "m/sub.T"}},
	{src: "R", want: ref("h", "R"), types: []string{"h.R", "h.I"}},
	{src: "N", want: ref("h", "N"), types: []string{"h.N"}},
	{src: "D", want: ref("h", "D"), types: []string{"h.D", "h.T", "h.E", "m/sub.T"}},
	{src: "F", want: ref("h", "F"), types: []string{"h.F"}},
	{src: "G[int]", want: ref("h", "G"), types: []string{"h.G"}},
	{src: "A", want: ref("h", "T"), types: []string{"h.T"}},
	{src: "AS", want: ref("m/sub", "T"), types: []string{"m/sub.T"}},
	{src: "AP", want: ref("h", "T"), types: []string{"h.T"}},
	{src: "AI", want: basic("int")},
	{src: "AA", want: ref("h", "T"), types: []string{"h.T"}},
	{src: "error", want: basic("error")},
	{src: "any", want: basic("any")},
	{src: "interface{ X() }", want: basic("any")},
	{src: "func()", bad: true},
	{src: "chan T", bad: true},
	{src: "Fn", bad: true},
	{src: "*Fn", bad: true},
}

const decls = `
// T is a T.
type T struct {
	A string
	b int
}

type E string

type I int

type M map[string]T

type L []*sub.T

type R [4]I

type N T

// D has
// parts.
type D struct {
	T T
	E []E
	S map[E]sub.T
}

type F interface{ X() }

type G[X any] struct{ V X }

type (
	A  = T
	AS = sub.T
	AP = *T
	AI = int
	AA = A
	Fn func()
)
`

// components is what the named types are described as.
func components(key string) astra.Field {
	structure := func(pkg, name string, fields map[string]astra.Field, doc string) astra.Field {
		for k, f := range fields {
			fields[k] = untagged(f, k)
		}
		return astra.Field{Type: "struct", Package: pkg, Name: name, StructFields: fields, Doc: doc}
	}
	switch key {
	case "h.T":
		return structure("h", "T", map[string]astra.Field{"A": basic("string")}, "T is a T.")
	case "m/sub.T":
		return structure("m/sub", "T", map[string]astra.Field{"B": basic("int")}, "")
	case "h.E":
		return astra.Field{Type: "string", Package: "h", Name: "E"}
	case "h.I":
		return astra.Field{Type: "int", Package: "h", Name: "I"}
	case "h.M":
		return astra.Field{Type: "map", Package: "h", Name: "M", MapKeyType: "string", MapValueType: "T"}
	case "h.L":
		return astra.Field{Type: "slice", Package: "h", ReferencePackage: "m/sub", Name: "L", SliceType: "T"}
	case "h.R":
		return astra.Field{Type: "array", Package: "h", Name: "R", ArrayType: "I", ArrayLength: 4}
	case "h.N":
		return structure("h", "N", map[string]astra.Field{"A": basic("string")}, "")
	case "h.D":
		return structure("h", "D", map[string]astra.Field{
			"T": ref("h", "T"),
			"E": {Type: "slice", SliceType: "E", Package: "h"},
			"S": {Type: "map", MapKeyType: "E", MapKeyPackage: "h", MapValueType: "T", Package: "m/sub"},
		}, "D has\nparts.")
	case "h.F":
		return astra.Field{Type: "any", Package: "h", Name: "F"}
	case "h.G":
		return structure("h", "G", map[string]astra.Field{"V": basic("int")}, "")
	}
	if key == "h.t2" {
		return structure("h", "t2", map[string]astra.Field{"X": basic("int")}, "")
	}
	if key == "h.g2" {
		return structure("h", "g2", map[string]astra.Field{"V": basic("string")}, "")
	}
	panic(key)
}

// shapes are the ways a type can be made of another.
const shapes = 12

func shape(i int, e typ) typ {
	pkg := func(f astra.Field) string {
		if f.Type == "" || astra.IsAcceptedType(f.Type) {
			return ""
		}
		return f.Package
	}
	t := e
	switch i {
	case 0:
		return e
	case 1:
		t.src = "*" + e.src
	case 2:
		t.src, t.want = "[]"+e.src, astra.Field{Type: "slice", SliceType: e.want.Type, Package: pkg(e.want)}
	case 3:
		n := v.String("length", 1, "0139")
		t.src, t.want = "["+n+"]"+e.src, astra.Field{Type: "array", ArrayType: e.want.Type, ArrayLength: int64(n[0] - '0'), Package: pkg(e.want)}
	case 4:
		k := v.Pick("key", predeclared...)
		t.src, t.want = "map["+k+"]"+e.src, astra.Field{Type: "map", MapKeyType: k, MapValueType: e.want.Type, Package: pkg(e.want)}
	case 5:
		t.src, t.want = "map[E]"+e.src, astra.Field{Type: "map", MapKeyType: "E", MapKeyPackage: "h", MapValueType: e.want.Type, Package: pkg(e.want)}
		t.types = append([]string{"h.E"}, e.types...)
	case 6:
		t.src, t.want = "map[sub.K]*"+e.src, astra.Field{Type: "map", MapKeyType: "K", MapKeyPackage: "m/sub", MapValueType: e.want.Type, Package: pkg(e.want)}
		t.types = append([]string{"m/sub.K"}, e.types...)
	case 7:
		t.src, t.want = "[][]"+e.src, astra.Field{Type: "slice", SliceType: "slice"}
	case 8:
		t.src, t.want = "[]map[string]"+e.src, astra.Field{Type: "slice", SliceType: "map"}
	case 9:
		t.src, t.want = "map[string][2]"+e.src, astra.Field{Type: "map", MapKeyType: "string", MapValueType: "array"}
	case 10:
		t.src, t.want = "*[]*"+e.src, astra.Field{Type: "slice", SliceType: e.want.Type, Package: pkg(e.want)}
	default:
		t.src, t.bad = "struct{ V "+e.src+"; W int }", false
		t.want = astra.Field{Type: "struct", StructFields: map[string]astra.Field{"W": untagged(basic("int"), "W")}}
		if !e.bad {
			t.want.StructFields["V"] = untagged(e.want, "V")
		}
	}
	return t
}

func program(body string, more string) {
	hc.Program(hc.GinLite,
		hc.Source("h", "/w/h.go", "package h\n\nimport (\n\t\""+hc.Gin+"\"\n\tsub \"m/sub\"\n)\n\nvar _ sub.K\n\nfunc f(c *gin.Context) {\n"+body+"\n\tc.Status(299)\n}\n"+more),
		hc.Source("h", "/w/i.go", "package h\n\nimport \"m/sub\"\n"+decls),
		hc.Source("m/sub", "/s/s.go", "package sub\n\ntype T struct{ B int }\n\ntype K string\n"))
}

func parse() (*astra.Service, bool) {
	s := hc.Service()
	err := hc.ParseGin(s, hc.Handler("h", "f", "h.go", 10))
	v.Assert("parse", err == nil, "parsing fails")
	return s, err == nil
}

// check compares the components with those of the named types, and the extra ones.
func check(s *astra.Service, types []string, extra ...astra.Field) {
	wants := append([]astra.Field{}, extra...)
	seen := map[string]bool{}
	for _, k := range types {
		if !seen[k] {
			seen[k] = true
			if k == "m/sub.K" {
				wants = append(wants, astra.Field{Type: "string", Package: "m/sub", Name: "K"})
			} else {
				wants = append(wants, components(k))
			}
		}
	}
	v.Assert("number of components", len(s.Components) == len(wants), "named types are missing among the components, or others are there")
	for i, w := range wants {
		n := 0
		for _, c := range s.Components {
			if c.Name == w.Name && hc.SameField(c, w) {
				n++
			}
		}
		v.Assert("component "+hc.Digit(i), n == 1, "a named type is not described as it is declared")
	}
}

func element() typ {
	i := v.Choose("element", len(named)+1)
	if i == len(named) {
		n := v.Pick("predeclared", predeclared...)
		return typ{src: n, want: basic(n)}
	}
	return named[i]
}

// H_Values: types of values.
func H_Values() {
	e := element()
	t := shape(v.Choose("shape", shapes), e)
	bound := v.Bool("bound")
	call := "c.JSON(200, x)"
	if bound {
		call = "c.BindJSON(&x)"
	}
	program("\tvar x "+t.src+"\n\t"+call, "")
	s, ok := parse()
	if !ok {
		return
	}
	r := s.Routes[0]
	if t.bad {
		v.Assert("nothing", len(r.Body) == 0 && len(r.ReturnTypes) == 1, "a type is described that cannot be")
		return
	}
	if bound {
		v.Assert("body", len(r.Body) == 1 && hc.SameField(r.Body[0].Field, t.want), "the body is not described by its type")
	} else {
		v.Assert("response", len(r.ReturnTypes) == 2 && hc.SameField(r.ReturnTypes[0].Field, t.want), "the response is not described by its type")
	}
	check(s, t.types)
}

// H_Fields: types of fields of a named struct.
func H_Fields() {
	e := element()
	t := shape(v.Choose("shape", shapes), e)
	program("\tc.JSON(200, W{})", "\ntype W struct {\n\tX string\n\tF "+t.src+"\n\tY, Z int\n\tu T\n}\n")
	s, ok := parse()
	if !ok {
		return
	}
	w := astra.Field{Type: "struct", Package: "h", Name: "W", StructFields: map[string]astra.Field{
		"X": untagged(basic("string"), "X"), "Y": untagged(basic("int"), "Y"), "Z": untagged(basic("int"), "Z")}}
	if !t.bad {
		w.StructFields["F"] = untagged(t.want, "F")
	}
	v.Assert("response", len(s.Routes[0].ReturnTypes) == 2 && hc.SameField(s.Routes[0].ReturnTypes[0].Field, ref("h", "W")), "the response is not described by its type")
	check(s, t.types, w)
}

// line is a field declaration and the fields it makes.
type line struct {
	src   string
	want  map[string]astra.Field
	types []string
}

func one(name string, f astra.Field) map[string]astra.Field {
	return map[string]astra.Field{name: untagged(f, name)}
}

func embedded(name string, f astra.Field) map[string]astra.Field {
	f = untagged(f, name)
	f.IsEmbedded = true
	return map[string]astra.Field{name: f}
}

func doc(f map[string]astra.Field, d string) map[string]astra.Field {
	for k, x := range f {
		x.Doc = d
		f[k] = x
	}
	return f
}

const lines = 40

// field is the declaration number i; n names its field, text is in its documentation or tag.
func field(i int, n, text string) line {
	str := basic("string")
	switch i {
	case 0:
		return line{src: n + " string", want: one(n, str)}
	case 1:
		return line{src: "l" + n + " string"}
	case 2:
		return line{src: n + ", l" + n + ", Second" + n + " string", want: map[string]astra.Field{n: untagged(str, n), "Second" + n: untagged(str, "Second"+n)}}
	case 3:
		return line{src: "_ string"}
	case 4:
		return line{src: "// " + n + " is " + text + ".\n\t" + n + " string", want: doc(one(n, str), n+" is "+text+".")}
	case 5:
		return line{src: "/* " + text + " */\n\t" + n + " string", want: doc(one(n, str), text)}
	case 6:
		return line{src: "// " + text + "\n\t//\n\t//   two\n\t" + n + " string", want: doc(one(n, str), text+"\n\n  two")}
	case 7:
		return line{src: n + " string // " + text, want: one(n, str)}
	case 8:
		return line{src: "// " + text + "\n\n\t" + n + " string", want: one(n, str)}
	case 9:
		return line{src: "// " + text + "\n\t" + n + ", Second" + n + " string", want: doc(map[string]astra.Field{n: untagged(str, n), "Second" + n: untagged(str, "Second"+n)}, text)}
	case 10:
		return line{src: n + " string `json:\"" + text + "\"`", want: map[string]astra.Field{n: {Type: "string", StructFieldBindingTags: astraTag("json", text), StructFieldValidationTags: astraNo()}}}
	case 11:
		return line{src: n + " string \"form:\\\"" + text + ",omitempty\\\" binding:\\\"required\\\"\"", want: map[string]astra.Field{n: {Type: "string",
			StructFieldBindingTags: astraOptional("form", text), StructFieldValidationTags: required("binding")}}}
	case 12:
		return line{src: n + ", Second" + n + " string `xml:\"" + text + "\"`", want: map[string]astra.Field{
			n:            {Type: "string", StructFieldBindingTags: astraTag("xml", text), StructFieldValidationTags: astraNo()},
			"Second" + n: {Type: "string", StructFieldBindingTags: astraTag("xml", text), StructFieldValidationTags: astraNo()}}}
	case 13:
		return line{src: n + " struct{ V string `json:\"" + text + "\"`; w int }", want: one(n, astra.Field{Type: "struct", StructFields: map[string]astra.Field{
			"V": {Type: "string", StructFieldBindingTags: astraTag("json", text), StructFieldValidationTags: astraNo()}}})}
	case 14:
		return line{src: n + " struct {\n\t\t// " + text + "\n\t\tV string\n\t}", want: one(n, astra.Field{Type: "struct", StructFields: doc(one("V", str), text)})}
	case 15:
		return line{src: "T", want: embedded("T", ref("h", "T")), types: []string{"h.T"}}
	case 16:
		return line{src: "*T", want: embedded("T", ref("h", "T")), types: []string{"h.T"}}
	case 17:
		return line{src: "// " + text + "\n\tsub.T", want: doc(embedded("T", ref("m/sub", "T")), text), types: []string{"m/sub.T"}}
	case 18:
		return line{src: "// " + text + "\n\t*sub.T", want: doc(embedded("T", ref("m/sub", "T")), text), types: []string{"m/sub.T"}}
	case 19:
		return line{src: "A", want: embedded("A", ref("h", "T")), types: []string{"h.T"}}
	case 20:
		return line{src: "G[int]", want: embedded("G", ref("h", "G")), types: []string{"h.G"}}
	case 21:
		return line{src: "E", want: one("E", ref("h", "E")), types: []string{"h.E"}}
	case 22:
		return line{src: "F", want: one("F", ref("h", "F")), types: []string{"h.F"}}
	case 23:
		return line{src: "t2", want: embedded("t2", ref("h", "t2")), types: []string{"h.t2"}}
	case 24:
		return line{src: "error"}
	case 25:
		return line{src: n + " func()"}
	case 26:
		return line{src: n + " []chan int"}
	case 27:
		return line{src: n + " map[string]Fn"}
	case 28:
		return line{src: n + " T", want: one(n, ref("h", "T")), types: []string{"h.T"}}
	case 29:
		return line{src: "// +" + text + "\n\t" + n + " []T", want: doc(one(n, astra.Field{Type: "slice", SliceType: "T", Package: "h"}), "+"+text), types: []string{"h.T"}}
	case 30:
		return line{src: n + " *struct{ U *struct{ V T } }", want: one(n, astra.Field{Type: "struct", StructFields: one("U", astra.Field{Type: "struct", StructFields: one("V", ref("h", "T"))})}), types: []string{"h.T"}}
	case 31:
		return line{src: "\u00c9" + n + " string", want: one("\u00c9"+n, str)}
	case 32:
		return line{src: "T `json:\"" + text + "\"`", want: map[string]astra.Field{"T": {Type: "T", Package: "h", IsEmbedded: true, StructFieldBindingTags: astraTag("json", text), StructFieldValidationTags: astraNo()}}, types: []string{"h.T"}}
	case 34:
		return line{src: "*t2 `json:\"" + text + "\"`", want: map[string]astra.Field{"t2": {Type: "t2", Package: "h", IsEmbedded: true, StructFieldBindingTags: astraTag("json", text), StructFieldValidationTags: astraNo()}}, types: []string{"h.t2"}}
	case 35:
		return line{src: "e2"}
	case 36:
		return line{src: "a2", want: embedded("a2", ref("h", "t2")), types: []string{"h.t2"}}
	case 37:
		return line{src: "Fn"}
	case 38:
		return line{src: "// " + text + "\n\tg2[string]", want: doc(embedded("g2", ref("h", "g2")), text), types: []string{"h.g2"}}
	default:
		return line{src: n + " interface{ error }", want: one(n, basic("any"))}
	}
}

func astraTag(b astraBinding, name string) astraTags { return astraTags{b: {Name: name}} }

func astraOptional(b astraBinding, name string) astraTags {
	return astraTags{b: {Name: name, ReturnOptional: true}}
}

func astraNo() astraValidations { return astraValidations{} }

func required(k astTraversal.ValidationTagType) astraValidations {
	return astraValidations{k: {IsRequired: true}}
}

type (
	astraBinding     = astTraversal.BindingTagType
	astraTags        = astTraversal.BindingTagMap
	astraValidations = astTraversal.ValidationTagMap
)

func embeds(i int) bool { return i >= 15 && i <= 24 || i == 32 || i >= 34 && i <= 38 }

// H_Struct: structs of two field declarations of every kind, in three ways of being declared.
func H_Struct() {
	text := v.String("text", 1, "tu")
	i, j := v.Choose("first", lines), v.Choose("second", lines)
	// Two embedded fields of one name cannot be.
	if embeds(i) {
		v.Assume(!embeds(j))
	}
	if !v.Thorough() && i > 6 {
		v.Assume(j == 0 || j == 4 || j == 14 || j == 17 || j == i)
	}
	a, b := field(i, "P", text), field(j, "Q", text)
	src := ""
	w := astra.Field{Type: "struct", Package: "h", Name: "W", StructFields: map[string]astra.Field{}}
	switch v.Choose("declaration", 3) {
	case 0:
		src = "\n// W is " + text + ".\ntype W struct {\n\t" + a.src + "\n\t" + b.src + "\n}\n"
		w.Doc = "W is " + text + "."
	case 1:
		src = "\n// Group.\ntype (\n\tW0 struct{ P, Q int }\n\n\t// W is " + text + "\n\tW struct {\n\t\t" + a.src + "\n\n\t\t" + b.src + "\n\t}\n)\n"
		w.Doc = "W is " + text
	default:
		src = "\n// Text.\n\ntype W struct {\n\t" + a.src + "\n\n\t" + b.src + "\n} // " + text + "\n"
	}
	for _, l := range []line{a, b} {
		for k, f := range l.want {
			w.StructFields[k] = f
		}
	}
	program("\tc.JSON(200, W{})", "\ntype t2 struct{ X int }\n\ntype e2 int\n\ntype a2 = t2\n\ntype g2[X any] struct{ V X }\n"+src)
	s, ok := parse()
	if !ok {
		return
	}
	v.Assert("response", len(s.Routes[0].ReturnTypes) == 2 && hc.SameField(s.Routes[0].ReturnTypes[0].Field, ref("h", "W")), "the response is not described by its type")
	check(s, append(append([]string{}, a.types...), b.types...), w)
}

// H_Twice: types used several times, in several routes and packages, are described once.
func H_Twice() {
	src := []string{"T", "sub.T", "D", "L", "M", "E", "*T"}
	uses := map[string][]string{"T": {"h.T"}, "*T": {"h.T"}, "sub.T": {"m/sub.T"}, "D": {"h.D", "h.T", "h.E", "m/sub.T"}, "L": {"h.L", "m/sub.T"}, "M": {"h.M", "h.T"}, "E": {"h.E"}}
	x, y, z := src[v.Choose("first", len(src))], src[v.Choose("second", len(src))], src[v.Choose("third", len(src))]
	program("\tvar x "+x+"\n\tvar y []"+y+"\n\tc.JSON(200, x)\n\tc.JSON(201, y)", "\nfunc g(c *gin.Context) {\n\tvar z "+z+"\n\tc.BindJSON(&z)\n\tc.Status(299)\n}\n")
	s := hc.Service()
	r := hc.Handler("h", "g", "h.go", 20)
	r.Path = "/g"
	err := hc.ParseGin(s, hc.Handler("h", "f", "h.go", 10), r)
	v.Assert("parse", err == nil, "parsing fails")
	if err == nil {
		check(s, append(append(append([]string{}, uses[x]...), uses[y]...), uses[z]...))
	}
}

// H_Local: types declared in functions, generic types and named types of every underlying type.
func H_Local() {
	e := element()
	t := shape(v.Choose("shape", shapes), e)
	v.Assume(!t.bad)
	name := "X" + v.StringUpTo("name", 0, 1, "_9a")
	w := t.want
	w.Name, w.Package = name, "h"
	if p := t.want.Package; p != "" && p != "h" {
		w.ReferencePackage = p
	}
	v.Assume(t.src[0] == '*' || t.want.Type == "slice" || t.want.Type == "array" || t.want.Type == "map" || t.want.Type == "struct" || e.want.Package == "" && e.src != "error" && astra.IsAcceptedType(t.want.Type))
	decl := "type " + name + " " + t.src
	if v.Bool("local") {
		program("\t"+decl+"\n\tvar x "+name+"\n\tc.JSON(200, x)", "")
	} else {
		program("\tvar x "+name+"\n\tc.JSON(200, x)", decl+"\n")
	}
	s, ok := parse()
	if !ok {
		return
	}
	v.Assert("response", len(s.Routes[0].ReturnTypes) == 2 && hc.SameField(s.Routes[0].ReturnTypes[0].Field, ref("h", name)), "the response is not described by its type")
	check(s, t.types, w)
}

// H_Generic: types made of one generic type, with the same or different arguments, in a handler and another.
func H_Generic() {
	args := []typ{{src: "int", want: basic("int")}, {src: "string", want: basic("string")}, {src: "T", want: ref("h", "T")}, {src: "sub.T", want: ref("m/sub", "T")}}
	i, j := v.Choose("first", len(args)), v.Choose("second", len(args))
	src := "\nfunc g(c *gin.Context) {\n\tvar z G[" + args[j].src + "]\n\tc.BindJSON(&z)\n\tc.Status(299)\n}\n"
	body := "\tvar x G[" + args[i].src + "]\n\tc.JSON(200, x)"
	if v.Bool("field") {
		body = "\tvar x struct{ X G[" + args[i].src + "] }\n\tc.JSON(200, x)"
	}
	program(body, src)
	s := hc.Service()
	r := hc.Handler("h", "g", "h.go", 20)
	r.Path = "/g"
	err := hc.ParseGin(s, hc.Handler("h", "f", "h.go", 10), r)
	v.Assert("parse", err == nil, "parsing fails")
	if err != nil {
		return
	}
	if i != j {
		v.Known("KF03", "generic 1")
	}
	for m, k := range []int{i, j} {
		w := args[k].want
		n := 0
		for _, c := range s.Components {
			f := c.StructFields["V"]
			if c.Type == "struct" && c.Package == "h" && len(c.StructFields) == 1 && f.Type == w.Type && f.Package == w.Package {
				n++
			}
		}
		v.Assert("generic "+hc.Digit(m), n == 1, "an instantiation of a generic type is not described")
	}
}
