package p07

import (
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/outputs/openapi"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

// pkg is an arbitrary package path of at most n elements.
func pkg(id string, n int, dotted bool) string {
	p := ""
	k := 1 + v.Choose(id+".n", n)
	for i := 0; i < k; i++ {
		e := id + "." + string(rune('0'+i))
		if i > 0 {
			p += "/"
		}
		p += v.String(e, 1, "ab")
		if dotted && i == 0 && v.Bool(e+".dot") {
			p += "." + v.String(e+".y", 1, "ab")
		}
	}
	return p
}

type comp struct {
	f      astra.Field
	unique bool // differs by binding
}

func component(id, name, p string, kinds int) comp {
	c := comp{f: astra.Field{Package: p, Name: name, Doc: "doc " + id}}
	switch v.Choose(id+".kind", kinds) {
	case 0:
		c.f.Type = "int"
	case 1:
		c.f.Type = "struct"
		c.f.StructFields = map[string]astra.Field{"F": hc.Tagged("string", "f", "json")}
	case 2:
		c.f.Type, c.unique = "struct", true
		c.f.StructFields = map[string]astra.Field{"F": {Type: "string", StructFieldBindingTags: astTraversal.BindingTagMap{"json": {Name: "f"}, "form": {Name: "g"}}}}
	case 3: // and a field without tags
		c.f.Type, c.unique = "struct", true
		c.f.StructFields = map[string]astra.Field{"F": {Type: "string", StructFieldBindingTags: astTraversal.BindingTagMap{"json": {Name: "f"}, "form": {Name: "g"}}},
			"G": {Type: "int", StructFieldBindingTags: astTraversal.BindingTagMap{"": {Name: "G"}}}}
	}
	return c
}

func generate(cs []comp) (openapi.OpenAPISchema, bool) {
	s := hc.Service()
	r := astra.Route{Handler: "main.h", Method: "GET", Path: "/p"}
	for i, c := range cs {
		s.Components = append(s.Components, c.f)
		r.ReturnTypes = append(r.ReturnTypes, astra.ReturnType{StatusCode: 200 + i, ContentType: "application/json", Field: astra.Field{Package: c.f.Package, Type: c.f.Name}})
	}
	s.Routes = []astra.Route{r}
	return hc.Doc(s)
}

func last(p string) string { return p[strings.LastIndex(p, "/")+1:] }

// alone reports whether no other package of the components could claim the package's name.
func alone(cs []comp, p string) bool {
	n := last(p)
	for _, c := range cs {
		q := c.f.Package
		if q == p {
			continue
		}
		q = "." + strings.ReplaceAll(q, "/", ".")
		for _, b := range []string{"", ".json", ".form"} {
			if strings.HasSuffix(q, "."+n+b) || strings.HasSuffix(q+b, "."+n) {
				return false
			}
		}
	}
	return true
}

func response(d openapi.OpenAPISchema, i int) string {
	op := d.Paths["/p"].Get
	if op == nil {
		return ""
	}
	x := op.Responses["20"+string(rune('0'+i))].Content["application/json"].Schema
	return x.Ref
}

func check(cs []comp, reversed bool) {
	d, ok := generate(cs)
	if !ok {
		return
	}
	n := 0
	var refs []string
	for i, c := range cs {
		n++
		if c.unique {
			n++
		}
		ref := response(d, i)
		refs = append(refs, ref)
		s, ok := hc.Resolve(d, ref)
		v.Assert("resolves", ok, "a type's reference leads nowhere")
		v.Assert("own schema", s.Description == c.f.Doc, "a type's reference leads to another type's schema")
		if c.f.Type == "struct" {
			_, ok = s.Properties["f"]
			v.Assert("own binding", ok, "a type's reference leads to its schema for another binding")
		}
		if alone(cs, c.f.Package) {
			w := hc.RefPrefix + last(c.f.Package) + "."
			if c.unique {
				w += "json."
			}
			v.Assert("short", ref == w+c.f.Name, "an unambiguous package has no short name")
		}
		v.Observe("ref", ref)
	}
	v.Assert("count", len(d.Components.Schemas) == n, "not one schema per type and binding")
	if !reversed {
		return
	}
	var back []comp
	for i := range cs {
		back = append(back, cs[len(cs)-1-i])
	}
	d, ok = generate(back)
	if !ok {
		return
	}
	for i := range cs {
		v.Assert("order", response(d, len(cs)-1-i) == refs[i], "naming depends on the order of the types")
	}
}

func distinct(cs []comp) {
	for i := range cs {
		for j := 0; j < i; j++ {
			v.Assume(cs[i].f.Package != cs[j].f.Package || cs[i].f.Name != cs[j].f.Name)
		}
	}
}

// H_Pair: two types of any packages.
func H_Pair() {
	cs := []comp{component("c0", "T", pkg("c0", 3, true), 4), component("c1", v.Pick("name", "T", "U"), pkg("c1", 3, true), 3)}
	distinct(cs)
	check(cs, true)
}

// H_Three: three types.
func H_Three() {
	n := 2
	if v.Thorough() {
		n = 3
	}
	cs := []comp{component("c0", "T", pkg("c0", n, false), 2), component("c1", "T", pkg("c1", n, true), 1), component("c2", v.Pick("name", "T", "U"), pkg("c2", n, false), 1)}
	distinct(cs)
	check(cs, true)
}

// H_Deep: three packages whose names need several elements to tell apart.
func H_Deep() {
	var cs []comp
	for i := 0; i < 3; i++ {
		id := "c" + string(rune('0'+i))
		c := component(id, "T", v.String(id+".x", 1, "ab")+v.Pick(id+".sep", "/", ".")+v.String(id+".y", 1, "ab")+"/p", 1)
		cs = append(cs, c)
	}
	distinct(cs)
	check(cs, false)
}

// H_Bindings: a package named like a binding, or a type next to one.
func H_Bindings() {
	cs := []comp{component("c0", "T", v.Pick("p0", "p", "q/p"), 4), component("c1", "T", v.Pick("p1", "json", "p/json", "q/p/json", "p.json", "q/p.json", "p.form"), 3), component("c2", "T", v.Pick("p2", "r/json", "r", "p/form"), 2)}
	distinct(cs)
	check(cs, false)
}

// H_History: a service processed earlier leaves nothing behind.
func H_History() {
	if _, ok := generate([]comp{component("a0", "T", pkg("a0", 2, false), 3), component("a1", "T", pkg("a1", 2, false), 1)}); !ok {
		return
	}
	p := pkg("c0", 2, false)
	c := component("c0", "T", p, 4)
	check([]comp{c}, false)
	// A type only the earlier service had is unknown to this one.
	s := hc.Service()
	other := v.String("other", 1, "ab")
	if !v.Bool("none") {
		v.Assume(other != p)
		s.Components = []astra.Field{c.f}
	}
	s.Routes = []astra.Route{{Handler: "main.h", Method: "GET", Path: "/p", ReturnTypes: []astra.ReturnType{{StatusCode: 200, ContentType: "application/json", Field: astra.Field{Package: other, Type: "T"}}}}}
	if d, ok := hc.Doc(s); ok {
		v.Assert("forgotten", response(d, 0) == "", "a name of an earlier service is still used")
	}
}

// H_Names: types of longer names in a package of a longer name, referred to as a value, an element and a field.
func H_Names() {
	n := 12
	if v.Thorough() {
		n = 20
	}
	const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
	p, name := "p", "T"
	if v.Bool("name") {
		name = "T" + v.StringUpTo("name", 1, n, letters)
	} else {
		p = "m/p" + v.StringUpTo("package", 1, n, letters)
	}
	c := component("c0", name, p, 2)
	check([]comp{c, component("c1", "U", "q", 1)}, false)
}

// H_Alike: two types whose names or packages are nearly the same.
func H_Alike() {
	const letters = "tT1_-~"
	a, b := component("c0", "T", "m/p", 3), component("c1", "T", "m/p", 2)
	if v.Bool("names") {
		a.f.Name = "T" + v.StringUpTo("a", 0, 2, "tT1_")
		b.f.Name = "T" + v.StringUpTo("b", 0, 2, "tT1_")
	} else {
		a.f.Package = "m/" + v.StringUpTo("a", 1, 2, letters)
		b.f.Package = v.Pick("root", "m/", "M/", "") + v.StringUpTo("b", 1, 2, letters)
	}
	distinct([]comp{a, b})
	check([]comp{a, b}, false)
}

// H_Keys: types named like bindings next to packages named like types.
func H_Keys() {
	packages, names := []string{"p", "p.T", "q/p", "q/p.T", "p.T.json", "p.json"}, []string{"T", "json", "form"}
	cs := []comp{
		component("c0", v.Pick("name0", names...), v.Pick("p0", packages...), 4),
		component("c1", v.Pick("name1", names...), v.Pick("p1", packages...), 4),
	}
	distinct(cs)
	check(cs, false)
}

// H_Escapes: packages that only their separators, or what could stand for those, tell apart.
func H_Escapes() {
	seps := []string{".", "/", "_", "_d", "_s", "_u", "_ud", "_us"}
	n := 4
	if v.Thorough() {
		n = len(seps)
	}
	a := "a" + v.Pick("a1", seps[:2]...) + "b" + v.Pick("a2", seps[:3]...) + "c"
	b := "a" + v.Pick("b1", seps[:n]...) + "b" + v.Pick("b2", seps[:n]...) + "c"
	c := "a" + v.Pick("c1", seps...) + "b" + v.Pick("c2", seps...) + "c"
	cs := []comp{component("c0", "T", a, 1), component("c1", "T", b, 1), component("c2", "T", c, 1)}
	distinct(cs)
	check(cs, false)
}

// H_Four: two pairs of packages of which only all of the path tells the packages apart, and only the escapes the pairs.
func H_Four() {
	t := v.String("between", 2, "_sdu")
	a, b := "a"+t+"b/c", "a"+t+"b.c"
	if v.Bool("later") {
		a, b = "a/b"+t+"c", "a.b"+t+"c"
	}
	c, e := "a/b/c", v.Pick("fourth", "a/b.c", "a.b/c", "a.b.c")
	cs := []comp{component("c0", "T", a, 1), component("c1", "T", b, 1), component("c2", "T", c, 1), component("c3", "T", e, 1)}
	check(cs, false)
}
