package p20

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

func tagged(f astra.Field, name string) astra.Field {
	f.StructFieldBindingTags = astTraversal.BindingTagMap{"": {Name: name}}
	f.StructFieldValidationTags = astTraversal.ValidationTagMap{}
	return f
}

func name(i int) string { return "T" + hc.Digit(i) }

// use is how a field or type refers to a type: its source and its description.
func use(how int, t string) (string, astra.Field) {
	switch how {
	case 0:
		return "*" + t, astra.Field{Type: t, Package: "h"}
	case 1:
		return "[]" + t, astra.Field{Type: "slice", SliceType: t, Package: "h"}
	case 2:
		return "map[string]" + t, astra.Field{Type: "map", MapKeyType: "string", MapValueType: t, Package: "h"}
	case 3:
		return "[2]*" + t, astra.Field{Type: "array", ArrayType: t, ArrayLength: 2, Package: "h"}
	case 4:
		return "[]*" + t, astra.Field{Type: "slice", SliceType: t, Package: "h"}
	case 5:
		return "map[int]*" + t, astra.Field{Type: "map", MapKeyType: "int", MapValueType: t, Package: "h"}
	case 6:
		return "**" + t, astra.Field{Type: t, Package: "h"}
	}
	return "struct{ V *" + t + " }", astra.Field{Type: "struct", StructFields: map[string]astra.Field{"V": tagged(astra.Field{Type: t, Package: "h"}, "V")}}
}

// declaration declares the type t, which refers to the type u in one of 14 ways.
func declaration(how int, t, u string) (string, astra.Field) {
	switch {
	case how >= 12:
		src, f := use(how-8, u)
		f.Name = t
		return "type " + t + " " + src + "\n", f
	case how < 4 && how != 3:
		// Named pointers, slices and maps.
		src, f := use(how, u)
		f.Name = t
		return "type " + t + " " + src + "\n", f
	case how == 3:
		return "type " + t + " struct {\n\tA int\n\t*" + u + "\n}\n", structure(t, map[string]astra.Field{
			"A": tagged(astra.Field{Type: "int"}, "A"), u: tagged(astra.Field{Type: u, Package: "h", IsEmbedded: true}, u)})
	}
	src, f := use(how-4, u)
	return "type " + t + " struct {\n\tA int\n\tF " + src + "\n\tl " + src + "\n}\n", structure(t, map[string]astra.Field{
		"A": tagged(astra.Field{Type: "int"}, "A"), "F": tagged(f, "F")})
}

func structure(t string, fs map[string]astra.Field) astra.Field {
	return astra.Field{Type: "struct", Package: "h", Name: t, StructFields: fs}
}

func parse(body, decls string) (*astra.Service, bool) {
	hc.Program(hc.GinLite, hc.Source("h", "/w/h.go", "package h\n\nimport \""+hc.Gin+"\"\n\nfunc f(c *gin.Context) {\n"+body+"\n\tc.Status(299)\n}\n"),
		hc.Source("h", "/w/i.go", "package h\n\n"+decls))
	s := hc.Service()
	err := hc.ParseGin(s, hc.Handler("h", "f", "h.go", 5))
	v.Assert("parse", err == nil && len(s.Routes) == 1, "parsing fails")
	return s, err == nil
}

func check(s *astra.Service, wants []astra.Field) {
	v.Assert("number of components", len(s.Components) == len(wants), "types are missing among the components, or recorded repeatedly")
	for i, w := range wants {
		n := 0
		for _, c := range s.Components {
			if hc.SameField(c, w) {
				n++
			}
		}
		v.Assert("component "+hc.Digit(i), n == 1, "a type or its references are not described as they are declared")
	}
}

// H_Graph: three types that refer to themselves and each other in every way.
func H_Graph() {
	n, ways := 3, 14
	var to [3]int
	decls := ""
	var fields [3]astra.Field
	for i := 0; i < n; i++ {
		id := hc.Digit(i)
		to[i] = v.Choose("target "+id, n)
		how := v.Choose("how "+id, ways)
		if !v.Thorough() && i > 0 {
			v.Assume(how == 0 || how == 1 || how == 3 || how == 4+i || how == 11)
		}
		var src string
		src, fields[i] = declaration(how, name(i), name(to[i]))
		decls += src
		if how == 0 {
			fields[i].IsRequired = true // a mark, removed below
		}
	}
	for i := 0; i < n; i++ {
		_, embeds := fields[i].StructFields[name(to[i])]
		v.Assume(!embeds || !fields[to[i]].IsRequired) // a named pointer cannot be embedded
	}
	for i := 0; i < n; i++ {
		if f, embeds := fields[i].StructFields[name(to[i])]; embeds && fields[to[i]].Type != "struct" {
			f.IsEmbedded = false // nothing is promoted from a slice or map
			fields[i].StructFields[name(to[i])] = f
		}
	}
	for i := 0; i < n; i++ {
		fields[i].IsRequired = false
	}
	how := 0
	if v.Thorough() {
		how = v.Choose("use", 3)
	}
	body, want := "", astra.Field{}
	switch how {
	case 0:
		body, want = "\tvar x T0\n\tc.JSON(200, x)", astra.Field{Type: "T0", Package: "h"}
	case 1:
		body, want = "\tvar x []*T0\n\tc.JSON(200, x)", astra.Field{Type: "slice", SliceType: "T0", Package: "h"}
	case 2:
		body, want = "\tvar x map[string]T0\n\tc.JSON(200, &x)", astra.Field{Type: "map", MapKeyType: "string", MapValueType: "T0", Package: "h"}
	}
	s, ok := parse(body, decls)
	if !ok {
		return
	}
	v.Assert("response", len(s.Routes[0].ReturnTypes) == 2 && hc.SameField(s.Routes[0].ReturnTypes[0].Field, want), "the response does not refer to its type")
	var wants []astra.Field
	var seen [3]bool
	for i := 0; !seen[i]; i = to[i] {
		seen[i] = true
		wants = append(wants, fields[i])
	}
	check(s, wants)
}

// H_Fan: a type with two references, to itself and to others that refer back.
func H_Fan() {
	var to [3]int
	var how [3]int
	for i := range to {
		id := hc.Digit(i)
		to[i], how[i] = v.Choose("target "+id, 2), v.Choose("how "+id, 8)
		if !v.Thorough() {
			v.Assume(how[i] == i || how[i] == i+4 || how[i] == 3)
		}
	}
	srcF, f := use(how[0], name(to[0]))
	srcG, g := use(how[1], name(to[1]))
	srcH, h := use(how[2], name(to[2]))
	decls := "type T0 struct {\n\tF " + srcF + "\n\tG " + srcG + "\n}\n\ntype T1 struct {\n\tH " + srcH + "\n}\n"
	uses := v.Choose("uses", 4)
	body := []string{"\tc.JSON(200, T0{})", "\tc.JSON(200, T0{})\n\tc.JSON(201, T1{})", "\tvar x T1\n\tc.BindJSON(&x)\n\tc.JSON(200, []T0{})", "\tc.JSON(200, T1{})"}[uses]
	s, ok := parse(body, decls)
	if !ok {
		return
	}
	w0 := structure("T0", map[string]astra.Field{"F": tagged(f, "F"), "G": tagged(g, "G")})
	w1 := structure("T1", map[string]astra.Field{"H": tagged(h, "H")})
	var wants []astra.Field
	if uses < 3 || to[2] == 0 {
		wants = append(wants, w0)
	}
	if uses > 0 || to[0] == 1 || to[1] == 1 {
		wants = append(wants, w1)
	}
	check(s, wants)
}

// H_Special: recursion through generic types, function types, methods, interfaces, aliases, local types and other packages.
func H_Special() {
	i := v.Choose("case", 16)
	tag := v.String("name", 1, "xy")
	n := "N" + tag
	ref := func(t string) astra.Field { return astra.Field{Type: t, Package: "h"} }
	comp := func(t string, fs map[string]astra.Field) astra.Field {
		for k, f := range fs {
			fs[k] = tagged(f, k)
		}
		return structure(t, fs)
	}
	fields := func(fs ...any) map[string]astra.Field {
		m := map[string]astra.Field{}
		for i := 0; i < len(fs); i += 2 {
			m[fs[i].(string)] = fs[i+1].(astra.Field)
		}
		return m
	}
	integer := astra.Field{Type: "int"}
	slice := func(t string) astra.Field { return astra.Field{Type: "slice", SliceType: t, Package: "h"} }
	var body, decls string
	var wants []astra.Field
	switch i {
	case 0:
		body, decls = "\tc.JSON(200, "+n+"[int]{})", "type "+n+"[E any] struct {\n\tV E\n\tNext *"+n+"[E]\n}\n"
		wants = []astra.Field{comp(n, fields("V", integer, "Next", ref(n)))}
	case 1:
		body, decls = "\tc.JSON(200, Tree{})", "type "+n+"[E any] struct {\n\tV []E\n\tNext *"+n+"[E]\n}\n\ntype Tree struct{ C "+n+"[Tree] }\n"
		wants = []astra.Field{comp(n, fields("V", slice("Tree"), "Next", ref(n))), comp("Tree", fields("C", ref(n)))}
	case 2:
		// A function type cannot be described.
		body, decls = "\tc.JSON(200, "+n+"{})", "type "+n+" struct {\n\tA int\n\tF func("+n+") *"+n+"\n\tG Fn\n}\n\ntype Fn func(Fn) "+n+"\n"
		wants = []astra.Field{comp(n, fields("A", integer))}
	case 3:
		body, decls = "\tc.JSON(200, "+n+"{})", "type "+n+" struct {\n\tI Iface\n}\n\ntype Iface interface{ M(Iface) "+n+" }\n"
		wants = []astra.Field{comp(n, fields("I", ref("Iface"))), {Type: "any", Package: "h", Name: "Iface"}}
	case 4:
		body, decls = "\tc.JSON(200, "+n+"{})", "type "+n+" struct {\n\tA *Al\n\tB []Al\n}\n\ntype Al = "+n+"\n"
		wants = []astra.Field{comp(n, fields("A", ref(n), "B", slice(n)))}
	case 5:
		body, decls = "\ttype "+n+" struct {\n\t\tA *"+n+"\n\t\tG *G\n\t}\n\tc.JSON(200, "+n+"{})", "type G struct{ G []G }\n"
		wants = []astra.Field{comp(n, fields("A", ref(n), "G", ref("G"))), comp("G", fields("G", slice("G")))}
	case 6:
		body, decls = "\tvar x "+n+"\n\tc.JSON(200, x)", "type "+n+" []"+n+"\n"
		wants = []astra.Field{{Type: "slice", SliceType: n, Package: "h", Name: n}}
	case 7:
		body, decls = "\tvar x "+n+"\n\tc.JSON(200, x)", "type "+n+" [2]*"+n+"\n"
		wants = []astra.Field{{Type: "array", ArrayType: n, ArrayLength: 2, Package: "h", Name: n}}
	case 8:
		body, decls = "\tvar x "+n+"\n\tc.JSON(200, x)", "type "+n+" *"+n+"\n"
		wants = []astra.Field{{Type: n, Package: "h", Name: n}}
	case 9:
		body, decls = "\tvar x "+n+"\n\tc.JSON(200, x)", "type "+n+" map[K]"+n+"\n\ntype K [2]K2\n\ntype K2 struct {\n\tP *"+n+"\n}\n"
		wants = []astra.Field{{Type: "map", MapKeyType: "K", MapKeyPackage: "h", MapValueType: n, Package: "h", Name: n},
			{Type: "array", ArrayType: "K2", ArrayLength: 2, Package: "h", Name: "K"}, comp("K2", fields("P", ref(n)))}
	case 10:
		// Nested containers.
		body, decls = "\tc.JSON(200, "+n+"{})", "type "+n+" struct {\n\tA [][]"+n+"\n\tB map[string][]*"+n+"\n\tC []struct{ D *"+n+" }\n}\n"
		wants = []astra.Field{comp(n, fields("A", astra.Field{Type: "slice", SliceType: "slice"}, "B", astra.Field{Type: "map", MapKeyType: "string", MapValueType: "slice"}, "C", astra.Field{Type: "slice", SliceType: "struct"}))}
	case 11:
		// The same names in another package.
		body, decls = "\tc.JSON(200, "+n+"{})", "import \"m/sub\"\n\ntype "+n+" struct {\n\tA *"+n+"\n\tB *sub."+n+"\n}\n"
		f := fields("A", ref(n), "B", astra.Field{Type: n, Package: "m/sub"})
		o := comp(n, fields("B", astra.Field{Type: n, Package: "m/sub"}))
		o.Package = "m/sub"
		wants = []astra.Field{comp(n, f), o}
	case 12:
		body, decls = "\tc.JSON(200, A{})", "type A struct {\n\t*"+n+"\n\tX int\n}\n\ntype "+n+" struct {\n\t*A\n\tY *A\n}\n"
		a := comp("A", fields(n, ref(n), "X", integer))
		e := comp(n, fields("A", ref("A"), "Y", ref("A")))
		f := a.StructFields[n]
		f.IsEmbedded = true
		a.StructFields[n] = f
		f = e.StructFields["A"]
		f.IsEmbedded = true
		e.StructFields["A"] = f
		wants = []astra.Field{a, e}
	case 13:
		body, decls = "\tc.JSON(200, "+n+"{}.Children)", "type "+n+" struct {\n\tParent *"+n+"\n\tChildren []"+n+"\n}\n"
		wants = []astra.Field{comp(n, fields("Parent", ref(n), "Children", slice(n)))}
	case 14:
		body, decls = "\tc.JSON(200, get().get())", "type "+n+" struct{ Next *"+n+" }\n\nfunc get() *"+n+" { return nil }\n\nfunc (n *"+n+") get() "+n+" { return *n.get().Next }\n"
		wants = []astra.Field{comp(n, fields("Next", ref(n)))}
	case 15:
		// Unexported fields lead nowhere.
		body, decls = "\tc.JSON(200, "+n+"{})", "type "+n+" struct {\n\tA int\n\tp *"+n+"\n\tq []Q\n}\n\ntype Q struct{ N "+n+" }\n"
		wants = []astra.Field{comp(n, fields("A", integer))}
	}
	hc.Program(hc.GinLite, hc.Source("h", "/w/h.go", "package h\n\nimport \""+hc.Gin+"\"\n\nfunc f(c *gin.Context) {\n"+body+"\n\tc.Status(299)\n}\n"),
		hc.Source("h", "/w/i.go", "package h\n\n"+decls), hc.Source("m/sub", "/s/s.go", "package sub\n\ntype "+n+" struct{ B *"+n+" }\n"))
	s := hc.Service()
	err := hc.ParseGin(s, hc.Handler("h", "f", "h.go", 5))
	v.Assert("parse", err == nil && len(s.Routes) == 1, "parsing fails")
	if err == nil {
		check(s, wants)
	}
}
