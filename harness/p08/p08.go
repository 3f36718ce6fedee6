package p08

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

// tags chooses the tags of a field: json, form, uri, xml, none, and differing names.
func tags(id, name string, n int) astTraversal.BindingTagMap {
	switch v.Choose(id+".tags", n) {
	case 0:
		return astTraversal.BindingTagMap{"json": {Name: name}}
	case 1:
		return astTraversal.BindingTagMap{"uri": {Name: name}}
	case 2:
		return astTraversal.BindingTagMap{"": {Name: name}}
	case 3:
		return astTraversal.BindingTagMap{"json": {Name: name}, "form": {Name: name}}
	case 4:
		return astTraversal.BindingTagMap{"json": {Name: name}, "form": {Name: name + "2"}}
	case 5:
		return astTraversal.BindingTagMap{"form": {Name: name}}
	case 6:
		return astTraversal.BindingTagMap{"json": {NotShown: true}, "header": {Name: name}}
	case 7:
		return astTraversal.BindingTagMap{"xml": {Name: name}, "yaml": {Name: name}}
	default:
		return astTraversal.BindingTagMap{"json": {Name: name, ReturnOptional: true}}
	}
}

// field chooses how a field uses the type T of package p.
func field(id, p, t string, n int) astra.Field {
	switch v.Choose(id+".shape", n) {
	case 0:
		return astra.Field{Type: t, Package: p}
	case 1:
		return astra.Field{Type: "slice", SliceType: t, Package: p}
	case 2:
		return astra.Field{Type: "map", MapKeyType: "string", MapValueType: t, Package: p}
	case 3:
		return astra.Field{Type: "array", ArrayType: t, ArrayLength: 3, Package: p}
	case 4:
		return astra.Field{Type: t, Package: p, IsEmbedded: true}
	default:
		return astra.Field{Type: "struct", StructFields: map[string]astra.Field{"I": {Type: t, Package: p, StructFieldBindingTags: astTraversal.BindingTagMap{"json": {Name: "i"}}}}}
	}
}

// use makes a route that uses a type somewhere.
func use(id, p, t string) astra.Route {
	r := astra.Route{Handler: "main.h", Method: "POST", Path: "/p", ReturnTypes: hc.Nil()}
	f := astra.Field{Type: t, Package: p}
	switch v.Choose(id+".use", 9) {
	case 0:
		r.ReturnTypes = []astra.ReturnType{{StatusCode: 200, ContentType: "application/json", Field: f}}
	case 1:
		r.ReturnTypes = []astra.ReturnType{{StatusCode: 200, ContentType: "application/xml", Field: f}}
	case 2:
		r.ReturnTypes = []astra.ReturnType{{StatusCode: 200, ContentType: "application/protobuf", Field: f}}
	case 3:
		r.Body = []astra.BodyParam{{IsBound: true, ContentType: "application/json", Field: f}, {IsBound: true, ContentType: "multipart/form-data", Field: f}}
	case 4:
		r.Body = []astra.BodyParam{{IsBound: true, ContentType: "application/yaml", Field: f}}
	case 5:
		r.QueryParams = []astra.Param{{IsBound: true, Field: f}}
		r.RequestHeaders = []astra.Param{{IsBound: true, Field: f}}
	case 6:
		r.QueryParams = []astra.Param{{Name: "q", IsArray: true, Field: f}}
		r.ResponseHeaders = []astra.Param{{Name: "h", IsMap: true, Field: f}}
	case 7:
		r.ReturnTypes = []astra.ReturnType{{StatusCode: 200, ContentType: "application/json", Field: astra.Field{Type: "slice", SliceType: t, Package: p}},
			{StatusCode: 200, ContentType: "application/json", Field: astra.Field{Type: "map", MapKeyType: "string", MapValueType: t, Package: p}},
			{StatusCode: 200, ContentType: "application/json", Field: astra.Field{Type: "array", ArrayType: t, Package: p}}}
	case 8:
		r.PathParams = []astra.Param{{IsBound: true, Field: f}}
		r.Body = []astra.BodyParam{{Name: "f", IsArray: true, ContentType: "application/x-www-form-urlencoded", Field: f}}
	}
	return r
}

func check(s *astra.Service) {
	d, ok := hc.Doc(s)
	if !ok {
		return
	}
	n := 0
	hc.Refs(d, func(ref string) {
		n++
		_, ok := hc.Resolve(d, ref)
		v.Assert("resolves", ok, "a reference leads nowhere")
	})
	v.Observe("refs", n)
}

// H_Mixed: a struct with two fields of any tags, one referring to a second struct of any tags.
func H_Mixed() {
	f := field("f", "q", "I", 6)
	f.StructFieldBindingTags = tags("f", "f", 8)
	if f.IsEmbedded {
		f.StructFieldBindingTags = astTraversal.BindingTagMap{"": {Name: "f"}}
	}
	g := astra.Field{Type: "string", StructFieldBindingTags: tags("g", "g", 8)}
	h := astra.Field{Type: "string", StructFieldBindingTags: tags("h", "h", 6)}
	s := hc.Service()
	s.Components = []astra.Field{
		hc.Component("q", "S", map[string]astra.Field{"F": f, "G": g}),
		hc.Component("q", "I", map[string]astra.Field{"H": h}),
	}
	s.Routes = []astra.Route{use("u", "q", "S")}
	check(s)
}

// H_Named: named slices, maps, arrays and basic types, and types the document has no component for.
func H_Named() {
	f := field("f", "q", v.Pick("f.of", "I", "absent"), 4)
	f.Name = "L"
	h := astra.Field{Type: "string", StructFieldBindingTags: tags("h", "h", 8)}
	s := hc.Service()
	s.Components = []astra.Field{f, hc.Component("q", "I", map[string]astra.Field{"H": h})}
	t := v.Pick("t", "L", "absent", "I")
	s.Routes = []astra.Route{use("u", "q", t)}
	check(s)
}

// H_Packages: the same name in two packages, referring to each other.
func H_Packages() {
	p0, p1 := v.String("p0", 1, "ab")+"/"+v.String("p0b", 1, "xy"), v.String("p1", 1, "ab")+"/"+v.String("p1b", 1, "xy")
	v.Assume(p0 != p1)
	f := field("f", p1, "T", 6)
	f.StructFieldBindingTags = tags("f", "f", 5)
	if f.IsEmbedded {
		f.StructFieldBindingTags = astTraversal.BindingTagMap{"": {Name: "f"}}
	}
	h := astra.Field{Type: "slice", SliceType: "T", Package: p0, StructFieldBindingTags: tags("h", "h", 5)}
	s := hc.Service()
	s.Components = []astra.Field{
		hc.Component(p0, "T", map[string]astra.Field{"F": f}),
		hc.Component(p1, "T", map[string]astra.Field{"H": h}),
	}
	r := astra.Route{Handler: "main.h", Method: "GET", Path: "/p"}
	for i, ct := range []string{"application/json", "application/xml"} {
		r.ReturnTypes = append(r.ReturnTypes, astra.ReturnType{StatusCode: 200 + i, ContentType: ct, Field: astra.Field{Type: "T", Package: p0}})
	}
	s.Routes = []astra.Route{r}
	check(s)
}
