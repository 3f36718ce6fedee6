package p31

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/outputs/openapi"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

type binding = astTraversal.BindingTagType

var contentTypes = map[binding]string{"json": "application/json", "xml": "application/xml", "yaml": "application/yaml", "form": "application/x-www-form-urlencoded"}

func tags(id, goName string, n int) astTraversal.BindingTagMap {
	switch v.Choose(id+".tags", n) {
	case 0:
		return astTraversal.BindingTagMap{"json": {Name: v.String(id+".json", 1, "kl-")}}
	case 1:
		return astTraversal.BindingTagMap{"": {Name: goName}}
	case 2:
		return astTraversal.BindingTagMap{"json": {Name: v.String(id+".json", 1, "kl")}, "form": {Name: v.String(id+".form", 1, "kl")}}
	case 3:
		return astTraversal.BindingTagMap{"json": {NotShown: true}, "form": {Name: "f" + goName}}
	default:
		return astTraversal.BindingTagMap{"form": {Name: "f" + goName}}
	}
}

func specific(fields map[string]astra.Field) (bs []binding, plain bool) {
	for _, b := range []binding{"json", "form", "xml", "yaml"} {
		for _, f := range fields {
			if _, ok := f.StructFieldBindingTags[b]; ok {
				bs = append(bs, b)
				break
			}
		}
	}
	for _, f := range fields {
		if _, ok := f.StructFieldBindingTags[""]; ok {
			plain = true
		}
	}
	return
}

func has(bs []binding, b binding) bool {
	for _, x := range bs {
		if x == b {
			return true
		}
	}
	return false
}

// visible reports whether a struct has a schema for a binding.
func visible(c astra.Field, b binding) bool {
	if c.Type != "struct" {
		return true
	}
	bs, plain := specific(c.StructFields)
	return plain || has(bs, b) || b == ""
}

// promoted reports whether a struct has the fields of one that it embeds: tags can hide it, or name it as a field.
func promoted(name string, f astra.Field, b binding) bool {
	if b == "" {
		b = "json"
	}
	t, tagged := f.StructFieldBindingTags[b]
	return f.IsEmbedded && (!tagged || !t.NotShown && (t.Name == name || b != "json" && b != "yaml"))
}

// differ reports whether a struct's schemas for the bindings differ.
func differ(c astra.Field, bs []binding) bool {
	cs, _ := specific(c.StructFields)
	for name, f := range c.StructFields {
		if _, ok := f.StructFieldBindingTags[""]; ok {
			continue
		}
		for _, b := range cs {
			if f.IsEmbedded && promoted(name, f, b) == promoted(name, f, cs[0]) {
				continue
			}
			if f.StructFieldBindingTags[b] != f.StructFieldBindingTags[cs[0]] {
				return true
			}
		}
	}
	return false
}

type world struct {
	d     openapi.OpenAPISchema
	comps []astra.Field
}

func (w *world) comp(name string) astra.Field {
	for _, c := range w.comps {
		if c.Name == name {
			return c
		}
	}
	return astra.Field{}
}

// leads checks that a schema is a reference to the type's schema, or nothing if the type has none for the binding.
func (w *world) leads(s openapi.Schema, name string, b binding) {
	c := w.comp(name)
	if !visible(c, b) {
		v.Assert("no reference", s.Ref == "", "a reference to a type without a schema")
		return
	}
	t, ok := hc.Resolve(w.d, s.Ref)
	v.Assert("reference", ok && t.Description == c.Doc, "a field does not refer to its type's schema")
}

func (w *world) item(s *openapi.Schema, t string, b binding) {
	v.Assert("items", s != nil, "no item schema")
	if s == nil {
		return
	}
	if f, ok := astra.PredefinedTypeMap[t]; ok {
		v.Assert("item type", s.Type == f.Type && s.Format == f.Format && s.Ref == "", "wrong item type")
		return
	}
	w.leads(*s, t, b)
}

// field checks the schema of one field or component that is not a struct with a name.
func (w *world) field(s openapi.Schema, f astra.Field, b binding) {
	switch f.Type {
	case "slice":
		v.Assert("slice", s.Type == "array" && s.Ref == "" && s.AdditionalProperties == nil, "a slice is not an array")
		w.item(s.Items, f.SliceType, b)
	case "array":
		v.Assert("array", s.Type == "array" && s.Ref == "" && s.AdditionalProperties == nil, "an array is not an array")
		v.Assert("length", s.MaxItems == int(f.ArrayLength) && s.MaxLength == 0, "an array's length is not the number of its items")
		w.item(s.Items, f.ArrayType, b)
	case "map":
		v.Assert("map", s.Type == "object" && s.Ref == "" && s.Items == nil, "a map is not an object")
		w.item(s.AdditionalProperties, f.MapValueType, b)
	case "struct":
		w.object(s, f, b)
	default:
		if t, ok := astra.PredefinedTypeMap[f.Type]; ok {
			v.Assert("scalar", s.Type == t.Type && s.Format == t.Format && s.Ref == "" && s.Items == nil && s.AdditionalProperties == nil, "wrong scalar type")
			v.Assert("enum", len(s.Enum) == len(f.EnumValues), "wrong number of enum values")
			for i, e := range f.EnumValues {
				switch e := e.(type) {
				case string:
					g, ok := s.Enum[i].(string)
					v.Assert("enum value", ok && g == e, "wrong enum value")
				case int:
					g, ok := s.Enum[i].(float64)
					v.Assert("enum value", ok && int(g) == e, "wrong enum value")
				}
			}
			return
		}
		w.leads(s, f.Type, b)
	}
}

// object checks the schema of a struct: exactly its visible fields.
func (w *world) object(s openapi.Schema, c astra.Field, b binding) {
	want := map[string]astra.Field{}
	var embedded []string
	for name, f := range c.StructFields {
		if promoted(name, f, b) {
			embedded = append(embedded, f.Type)
			continue
		}
		t, ok := f.StructFieldBindingTags[b]
		if _, plain := f.StructFieldBindingTags[""]; !ok && !plain && b == "" {
			// Inside a type without tags, a field's JSON name is used, or the one it has.
			for _, o := range []binding{"form", "json"} {
				if u, has := f.StructFieldBindingTags[o]; has {
					t, ok = u, true
				}
			}
		}
		if ok {
			if !t.NotShown {
				_, dup := want[t.Name]
				v.Assume(!dup)
				want[t.Name] = f
			}
		} else if _, ok := f.StructFieldBindingTags[""]; ok {
			_, dup := want[name]
			v.Assume(!dup)
			want[name] = f
		}
	}
	props := map[string]openapi.Schema{}
	for k, p := range s.Properties {
		props[k] = p
	}
	var refs []openapi.Schema
	for _, x := range s.AllOf {
		if x.Ref != "" {
			refs = append(refs, x)
			continue
		}
		for k, p := range x.Properties {
			props[k] = p
		}
	}
	v.Assert("object", s.Type == "object" && s.Ref == "", "a struct is not an object")
	v.Assert("properties", len(props) == len(want), "wrong number of properties")
	for k, f := range want {
		p, ok := props[k]
		v.Assert("property", ok, "a visible field is missing")
		if ok {
			w.field(p, f, b)
		}
	}
	n := 0
	for _, e := range embedded {
		if visible(w.comp(e), b) {
			n++
			found := false
			for _, r := range refs {
				if t, ok := hc.Resolve(w.d, r.Ref); ok && t.Description == w.comp(e).Doc {
					found = true
				}
			}
			v.Assert("embedded", found, "an embedded struct is missing")
		}
	}
	v.Assert("embeds", len(refs) == n, "wrong number of embedded structs")
}

// check documents component S under every binding it has and compares.
func check(comps []astra.Field, opts ...astra.Option) {
	s := hc.Service(opts...)
	s.Components = comps
	r := astra.Route{Handler: "main.h", Method: "POST", Path: "/p", ReturnTypes: hc.Nil()}
	for _, b := range []binding{"json", "form", "xml", "yaml"} {
		r.Body = append(r.Body, astra.BodyParam{IsBound: true, ContentType: contentTypes[b], Field: astra.Field{Type: comps[0].Name, Package: comps[0].Package}})
	}
	s.Routes = []astra.Route{r}
	d, ok := hc.Doc(s)
	if !ok {
		return
	}
	w := &world{d, comps}
	c := comps[0]
	bs, _ := specific(c.StructFields)
	if len(bs) > 1 && !differ(c, bs) {
		for _, o := range comps[1:] {
			if o.Name != c.Name && (differ(o, bs) || visible(o, bs[0]) != visible(o, bs[1])) {
				for _, id := range []string{"no reference", "reference", "embedded", "embeds"} {
					v.Known("KF01", id)
				}
			}
		}
	}
	op := d.Paths["/p"].Post
	for _, b := range []binding{"json", "form", "xml", "yaml"} {
		if !visible(c, b) {
			continue
		}
		var x openapi.Schema
		if op.RequestBody != nil {
			x = op.RequestBody.Content[contentTypes[b]].Schema
		}
		t, ok := hc.Resolve(d, x.Ref)
		v.Assert("documented", ok && t.Description == c.Doc, "a type is not documented")
		if !ok {
			continue
		}
		if c.Type != "struct" || len(bs) == 0 {
			w.field(t, c, "")
		} else if has(bs, b) {
			w.field(t, c, b)
		}
	}
}

func shape(id string, n int) astra.Field {
	switch v.Choose(id+".shape", n) {
	case 0:
		return astra.Field{Type: "I", Package: "q"}
	case 1:
		return astra.Field{Type: v.Pick(id+".scalar", "string", "int64", "bool", "float32", "any")}
	case 2:
		return astra.Field{Type: "slice", SliceType: "I", Package: "q"}
	case 3:
		return astra.Field{Type: "map", MapKeyType: "string", MapValueType: "I", Package: "q"}
	case 4:
		return astra.Field{Type: "array", ArrayType: "I", ArrayLength: 2, Package: "q"}
	case 5:
		return astra.Field{Type: "struct", StructFields: map[string]astra.Field{"J": {Type: "string", StructFieldBindingTags: astTraversal.BindingTagMap{"json": {Name: "j"}, "form": {Name: "j"}}}}}
	case 6:
		return astra.Field{Type: "slice", SliceType: v.Pick(id+".item", "string", "uint8")}
	case 7:
		return astra.Field{Type: "map", MapKeyType: "string", MapValueType: v.Pick(id+".value", "int", "any", "struct")}
	case 8:
		return astra.Field{Type: "struct", StructFields: map[string]astra.Field{}}
	case 9:
		return astra.Field{Type: v.Pick(id+".number", "int", "int8", "int16", "int32", "uint", "uint8", "uint16", "uint32", "uint64", "float64", "byte", "rune")}
	default:
		return astra.Field{Type: "array", ArrayType: "float64", ArrayLength: int64(v.Int(id+".length", 1, 1000))}
	}
}

func inner(n int) astra.Field {
	c := hc.Component("q", "I", map[string]astra.Field{"H": {Type: "string", StructFieldBindingTags: tags("i", "H", n)}})
	c.Doc = "doc I"
	return c
}

// H_Struct: a struct of one field of any shape and one scalar field, with any tags.
func H_Struct() {
	f := shape("f", 11)
	f.StructFieldBindingTags = tags("f", "F", 5)
	g := astra.Field{Type: "int", StructFieldBindingTags: tags("g", "G", 5)}
	s := hc.Component("q", "S", map[string]astra.Field{"F": f, "G": g})
	s.Doc = v.Pick("doc", "doc S", "S\"s\n")
	check([]astra.Field{s, inner(3)})
}

// embedTags are the tags of an embedded struct.
func embedTags(name string, n int) astTraversal.BindingTagMap {
	switch v.Choose(name+".embed", n) {
	case 0:
		return astTraversal.BindingTagMap{"": {Name: name}}
	case 1:
		return astTraversal.BindingTagMap{"json": {Name: v.String(name+".name", 1, "kl")}}
	case 2:
		return astTraversal.BindingTagMap{"json": {NotShown: true}}
	case 3:
		return astTraversal.BindingTagMap{"json": {Name: name, ReturnOptional: true}}
	case 4:
		return astTraversal.BindingTagMap{"json": {NotShown: true}, "form": {Name: v.String(name+".name", 1, "kl")}}
	case 5:
		return astTraversal.BindingTagMap{"json": {Name: v.String(name+".name", 1, "kl")}, "form": {NotShown: true}, "yaml": {Name: "y"}}
	default:
		return astTraversal.BindingTagMap{"yaml": {NotShown: true}, "xml": {Name: "x"}}
	}
}

// H_Embedded: a struct that embeds one or two others, tagged or not.
func H_Embedded() {
	fs := map[string]astra.Field{"I": {Type: "I", Package: "q", IsEmbedded: true, StructFieldBindingTags: embedTags("I", 7)}}
	if v.Bool("field") {
		fs["G"] = astra.Field{Type: "int", StructFieldBindingTags: tags("g", "G", 5)}
	}
	s := hc.Component("q", "S", fs)
	s.Doc = "doc S"
	comps := []astra.Field{s, inner(5)}
	if v.Bool("two") {
		fs["E"] = astra.Field{Type: "E", Package: "q", IsEmbedded: true, StructFieldBindingTags: embedTags("E", 2)}
		e := hc.Component("q", "E", map[string]astra.Field{"K": {Type: "string", StructFieldBindingTags: tags("e", "K", 2)}})
		e.Doc = "doc E"
		comps = append(comps, e)
	}
	check(comps)
}

// H_Named: named types that are no structs.
func H_Named() {
	f := shape("f", 11)
	comps := []astra.Field{f, inner(5)}
	if v.Bool("other") {
		// The elements belong to another package, and the type's own has one of the same name.
		if f.Package != "" {
			f.ReferencePackage = "r"
		}
		decoy := hc.Component("q", "I", map[string]astra.Field{"H": {Type: "int", StructFieldBindingTags: astTraversal.BindingTagMap{"json": {Name: "h"}, "form": {Name: "h"}}}})
		decoy.Doc = "decoy"
		comps[1].Package = "r"
		comps = append(comps, decoy)
	}
	f.Name, f.Package, f.Doc = "S", "q", "doc S"
	comps[0] = f
	check(comps)
}

// H_Enum: named basic types with any enum values.
func H_Enum() {
	f := astra.Field{Name: "S", Package: "q", Doc: "doc S", Type: "string"}
	n := v.Choose("n", 4)
	ints := v.Bool("ints")
	if ints {
		f.Type = "int"
	}
	for i := 0; i < n; i++ {
		id := "e" + string(rune('0'+i))
		if ints {
			f.EnumValues = append(f.EnumValues, []int{0, -7, 12}[v.Choose(id, 3)])
		} else {
			f.EnumValues = append(f.EnumValues, v.StringUpTo(id, 0, 2, "aB\""))
		}
	}
	check([]astra.Field{f})
}

// H_Mapped: a struct with a custom mapping has exactly the mapped type and format.
func H_Mapped() {
	s := hc.Component("q", "S", map[string]astra.Field{"G": {Type: "int", StructFieldBindingTags: tags("g", "G", 5)}})
	s.Doc = "doc S"
	t, f := v.StringUpTo("type", 1, 2, "ab"), v.StringUpTo("format", 0, 2, "ab")
	sv := hc.Service(astra.WithCustomTypeMappingSingle("q.S", t, f))
	sv.Components = []astra.Field{s}
	sv.Routes = []astra.Route{{Handler: "main.h", Method: "GET", Path: "/p", ReturnTypes: []astra.ReturnType{{StatusCode: 200, ContentType: "application/protobuf", Field: astra.Field{Type: "S", Package: "q"}}}}}
	d, ok := hc.Doc(sv)
	if !ok {
		return
	}
	x, ok := hc.Resolve(d, d.Paths["/p"].Get.Responses["200"].Content["application/protobuf"].Schema.Ref)
	v.Assert("mapped", ok && x.Type == t && x.Format == f && len(x.Properties) == 0 && len(x.AllOf) == 0, "a mapped type is not documented as its mapping")
}
