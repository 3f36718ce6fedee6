package p09

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/outputs/azureFunctions"
	jsonOutput "github.com/ls6-events/astra/outputs/json"
	"github.com/ls6-events/astra/outputs/openapi"
	"github.com/ls6-events/astra/zzverif/hc"
	osx "github.com/ls6-events/astra/zzverif/osx"
	"github.com/ls6-events/astra/zzverif/v"
)

// same generates the outputs once with maps in insertion order and once with up to n map
// iterations in any order, and compares the bytes.
func same(s *astra.Service, n int, azure bool) {
	routes := append([]astra.Route{}, s.Routes...)
	gen := func(file string) string {
		s.Routes = append([]astra.Route{}, routes...)
		err := openapi.Generate(file)(s)
		v.Assert("generates", err == nil, "generation fails")
		b, _ := osx.Get(hc.WD + "/" + file)
		return string(b)
	}
	rest := func() string {
		s.Routes = append([]astra.Route{}, routes...)
		err := jsonOutput.Generate("j.json")(s)
		v.Assert("generates", err == nil, "generation fails")
		b, _ := osx.Get(hc.WD + "/j.json")
		if !azure {
			return string(b)
		}
		err = azureFunctions.Generate("az")(s)
		v.Assert("generates", err == nil, "generation fails")
		all := string(b)
		for _, f := range osx.Snapshot() {
			if len(f.Path) > len(hc.WD)+3 && f.Path[:len(hc.WD)+3] == hc.WD+"/az" {
				all += f.Path + "=" + string(f.Data) + "\n"
			}
		}
		osx.RemoveAll(hc.WD + "/az")
		return all
	}
	a := gen("o.json")
	var y, r string
	if azure {
		y = gen("o.yaml")
	}
	r = rest()
	v.MapOrder(true)
	v.MapBudget(n)
	b := gen("o.json")
	v.Assert("openapi", a == b, "the OpenAPI document depends on the iteration order of a map")
	if azure {
		v.Assert("yaml", y == gen("o.yaml"), "the YAML document depends on the iteration order of a map")
	}
	v.Assert("others", r == rest(), "another output depends on the iteration order of a map")
	v.MapOrder(false)
}

func budget() int {
	if v.Thorough() {
		return 3
	}
	return 2
}

func embedded(p, n string) astra.Field {
	return astra.Field{Package: p, Type: n, IsEmbedded: true, StructFieldBindingTags: astTraversal.BindingTagMap{"": {Name: n}}}
}

// H_Structs: structs with several embedded structs and fields, with several tags, used in bodies, responses and bound parameters.
func H_Structs() {
	fs := map[string]astra.Field{"E1": embedded("q", "E1"), "E2": embedded("q", "E2"), "E3": embedded("q", "E3")}
	two := astTraversal.BindingTagMap{"json": {Name: "j"}, "form": {Name: "f"}, "header": {Name: v.String("h", 1, "jf")}}
	switch v.Choose("own", 3) {
	case 1:
		fs["A"] = astra.Field{Type: "string", StructFieldBindingTags: two}
	case 2:
		fs["A"] = hc.Tagged("string", "x", "json", "form")
		fs["B"] = hc.Tagged("int", v.Pick("dup", "x", "y"), "json", "form")
	}
	// Two embedded structs may promote a field of the same name.
	s := hc.Service()
	s.Components = []astra.Field{
		hc.Component("q", "S", fs),
		hc.Component("q", "E1", map[string]astra.Field{"X": hc.Tagged("string", "e", "json", "form", "header")}),
		hc.Component("q", "E2", map[string]astra.Field{"X": hc.Tagged("int", v.Pick("e2", "e", "e2"), "json", "form", "header")}),
		hc.Component("q", "E3", map[string]astra.Field{"Y": hc.Tagged("bool", "z", "json", "form", "header")}),
	}
	f := astra.Field{Type: "S", Package: "q"}
	r := astra.Route{Handler: "main.h", Method: "POST", Path: "/p", ReturnTypes: []astra.ReturnType{{StatusCode: 200, ContentType: "application/json", Field: f}}}
	switch v.Choose("use", 3) {
	case 0:
		r.QueryParams = []astra.Param{{IsBound: true, Field: f}}
	case 1:
		r.RequestHeaders = []astra.Param{{IsBound: true, Field: f}}
		r.QueryParams = []astra.Param{{Name: "e", Field: astra.Field{Type: "string"}}}
	case 2:
		r.Body = []astra.BodyParam{{IsBound: true, ContentType: "application/x-www-form-urlencoded", Field: f}, {Name: "n", ContentType: "application/x-www-form-urlencoded", Field: astra.Field{Type: "string"}},
			{Name: "n", ContentType: "multipart/form-data", Field: astra.Field{Type: "file"}}}
	}
	s.Routes = []astra.Route{r}
	same(s, budget()-1, false)
}

// H_Tags: fields of any tags under the same or different names, in every place a struct appears.
func H_Tags() {
	fs := map[string]astra.Field{}
	for _, n := range []string{"A", "B", "C"} {
		tags := []astTraversal.BindingTagType{"json", "form"}
		if n == "C" {
			tags = []astTraversal.BindingTagType{""}
			if v.Bool("tagged") {
				tags = []astTraversal.BindingTagType{"xml", "json"}
			}
		} else if k := v.Choose("tags"+n, 3); k < 2 {
			tags = tags[k : k+1]
		}
		m := astTraversal.BindingTagMap{}
		for i, t := range tags {
			m[t] = astTraversal.BindingTag{Name: n}
			if i > 0 {
				m[t] = astTraversal.BindingTag{Name: v.Pick("name"+n, n, "n"+n)}
			}
		}
		fs[n] = astra.Field{Type: "string", StructFieldBindingTags: m}
	}
	s := hc.Service()
	s.Components = []astra.Field{hc.Component("q", "S", fs)}
	f := astra.Field{Type: "S", Package: "q"}
	s.Routes = []astra.Route{{Handler: "main.h", Method: "POST", Path: "/p", Body: []astra.BodyParam{{IsBound: true, ContentType: "application/x-www-form-urlencoded", Field: f}, {IsBound: true, ContentType: "application/json", Field: f}},
		ReturnTypes: []astra.ReturnType{{StatusCode: 200, ContentType: "application/json", Field: f}, {StatusCode: 201, ContentType: "application/xml", Field: f}}}}
	same(s, budget()-1, false)
}

// H_Names: types of the same name in packages that need longer names.
func H_Names() {
	s := hc.Service()
	r := astra.Route{Handler: "main.h", Method: "GET", Path: "/p"}
	for i, p := range []string{"a/p", v.Pick("p1", "b/p", "a.b/p"), v.Pick("p2", "a/b/p", "c")} {
		c := astra.Field{Package: p, Name: "T", Type: "int"}
		if i == 0 {
			c = hc.Component(p, "T", map[string]astra.Field{"F": {Type: "string", StructFieldBindingTags: astTraversal.BindingTagMap{"json": {Name: "a"}, "form": {Name: "b"}, "xml": {Name: v.String("x", 1, "ab")}}}})
		}
		s.Components = append(s.Components, c)
		r.ReturnTypes = append(r.ReturnTypes, astra.ReturnType{StatusCode: 200 + i, ContentType: "application/json", Field: astra.Field{Package: p, Type: "T"}})
	}
	s.Routes = []astra.Route{r}
	same(s, budget(), false)
}

// H_Rest: headers, mapped types and several routes, in every output and both formats.
func H_Rest() {
	s := hc.Service(astra.WithCustomTypeMapping(map[string]astra.TypeFormat{"q.M": {Type: "string", Format: "m"}, "q.N": {Type: "string", Format: "n"}}))
	s.Components = []astra.Field{{Package: "q", Name: "M", Type: "int"}, {Package: "q", Name: "N", Type: "int"},
		hc.Component("q", "S", map[string]astra.Field{"A": hc.Tagged("string", "a", "json"), "B": {Type: "M", Package: "q", StructFieldBindingTags: astTraversal.BindingTagMap{"json": {Name: "b"}}}})}
	for i, m := range []string{"GET", "POST"} {
		s.Routes = append(s.Routes, astra.Route{Handler: "main.h" + m, Method: m, Path: "/" + v.String("p"+m, 1, "ab") + "/:x",
			PathParams:      []astra.Param{{Name: "x", Field: astra.Field{Type: "string"}, IsRequired: true}},
			ResponseHeaders: []astra.Param{{Name: "H1", Field: astra.Field{Type: "string"}}, {Name: "H2", Field: astra.Field{Type: "int"}}},
			ReturnTypes: []astra.ReturnType{{StatusCode: 200 + i, ContentType: "application/json", Field: astra.Field{Package: "q", Type: "S"}}, {StatusCode: 200, ContentType: "application/xml", Field: astra.Field{Package: "q", Type: "N"}},
				{StatusCode: 200, ContentType: "application/json", Field: astra.Field{Package: "q", Type: "N"}}}})
	}
	same(s, budget(), true)
}

// H_Many: so many parameters and fields that sorting them takes other paths than for a few.
func H_Many() {
	fs := map[string]astra.Field{}
	n := 9 + v.Choose("fields", 2)*6
	for i := 0; i < n; i++ {
		name := "F" + string(rune('a'+i))
		f := astra.Field{Type: "string", StructFieldBindingTags: astTraversal.BindingTagMap{"header": {Name: name}, "form": {Name: name}, "uri": {Name: name}}}
		if i == 3 {
			f.Type = "int"
		}
		fs[name] = f
	}
	s := hc.Service()
	s.Components = []astra.Field{hc.Component("q", "S", fs)}
	f := astra.Field{Type: "S", Package: "q"}
	r := astra.Route{Handler: "main.h", Method: "GET", Path: "/p", ReturnTypes: hc.Nil()}
	bound := []astra.Param{{IsBound: true, Field: f}}
	r.QueryParams, r.RequestHeaders = bound, bound
	if v.Bool("templates") {
		for i := 0; i < n; i++ {
			r.Path += "/:F" + string(rune('a'+i))
			r.PathParams = append(r.PathParams, astra.Param{Name: "F" + string(rune('a'+i)), IsRequired: true, Field: astra.Field{Type: "string"}})
		}
	}
	s.Routes = []astra.Route{r}
	same(s, 1, false)
}

// H_Case: fields, embedded structs and types whose names differ in case only.
func H_Case() {
	n := v.Pick("name", "e1", "E1", "e")
	fs := map[string]astra.Field{"E1": embedded("q", "E1"), n: embedded("q", n)}
	a := v.Pick("field", "a", "A", "b")
	fs["A"] = hc.Tagged("string", "x", "json", "form", "header")
	fs[a] = hc.Tagged("int", v.Pick("dup", "x", "X"), "json", "form", "header")
	s := hc.Service()
	s.Components = []astra.Field{
		hc.Component("q", "S", fs),
		hc.Component("q", "E1", map[string]astra.Field{"X": hc.Tagged("string", "e", "json", "form", "header")}),
	}
	if n != "E1" {
		s.Components = append(s.Components, hc.Component("q", n, map[string]astra.Field{"X": hc.Tagged("int", v.Pick("inner", "e", "E"), "json", "form", "header")}))
	}
	f := astra.Field{Type: "S", Package: "q"}
	r := astra.Route{Handler: "main.h", Method: "POST", Path: "/p", ReturnTypes: []astra.ReturnType{{StatusCode: 200, ContentType: "application/json", Field: f}}}
	switch v.Choose("use", 3) {
	case 0:
		r.QueryParams = []astra.Param{{IsBound: true, Field: f}}
	case 1:
		r.RequestHeaders = []astra.Param{{IsBound: true, Field: f}}
	case 2:
		r.Body = []astra.BodyParam{{IsBound: true, ContentType: "application/x-www-form-urlencoded", Field: f}}
	}
	s.Routes = []astra.Route{r}
	same(s, budget()-1, false)
}
