// Package hc holds what several harnesses share.
package hc

import (
	"encoding/json"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/outputs/openapi"
	osx "github.com/ls6-events/astra/zzverif/osx"
	"github.com/ls6-events/astra/zzverif/v"
)

// WD is the working directory of the harnesses' services.
const WD = "/w"

// Config is a valid configuration.
func Config() *astra.Config {
	return &astra.Config{Title: "T", Version: "1", Host: "h", BasePath: "/", Port: 80}
}

// Service makes a service with a memory file system.
func Service(opts ...astra.Option) *astra.Service {
	osx.Reset(WD)
	opts = append([]astra.Option{astra.WithCustomWorkDir(WD), astra.WithConfig(Config())}, opts...)
	return astra.New(opts...)
}

// Doc generates the OpenAPI document of s and reads it back.
func Doc(s *astra.Service) (openapi.OpenAPISchema, bool) {
	var d openapi.OpenAPISchema
	err := openapi.Generate("o.json")(s)
	v.Assert("generate", err == nil, "generation fails")
	if err != nil {
		return d, false
	}
	b, ok := osx.Get(WD + "/o.json")
	v.Assert("written", ok, "no document was written")
	if !ok {
		return d, false
	}
	err = json.Unmarshal([]byte(b), &d)
	v.Assert("decodes", err == nil, "the document does not decode")
	return d, err == nil
}

// Op returns the operation of a path for a method.
func Op(p openapi.Path, method string) *openapi.Operation {
	switch method {
	case "GET":
		return p.Get
	case "PUT":
		return p.Put
	case "POST":
		return p.Post
	case "DELETE":
		return p.Delete
	case "OPTIONS":
		return p.Options
	case "HEAD":
		return p.Head
	case "PATCH":
		return p.Patch
	case "TRACE":
		return p.Trace
	}
	return nil
}

// Methods are the methods OpenAPI can express.
var Methods = []string{"GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE"}

// Ops counts the operations of a path.
func Ops(p openapi.Path) int {
	n := 0
	for _, m := range Methods {
		if Op(p, m) != nil {
			n++
		}
	}
	return n
}

// Seg is one segment of a gin path.
type Seg struct {
	Kind byte // 's' static, ':' required, '*' catch-all
	Text string
}

// GinPath makes an arbitrary valid gin path of at most n segments: static segments over an
// alphabet, and parameters with non-empty names; a catch-all only at the end. A segment may
// have a static prefix before its parameter as gin allows ("/user_:name").
func GinPath(name string, n, segMax int, alphabet string) (string, []Seg) {
	k := v.Choose(name+".segments", n+1)
	if k == 0 {
		return "/", []Seg{{'s', "/"}}
	}
	p := ""
	var segs []Seg
	for i := 0; i < k; i++ {
		id := name + "." + string(rune('0'+i))
		pre := "/"
		if v.Bool(id + ".prefixed") {
			pre += v.String(id+".prefix", 1, alphabet)
		}
		kinds := 2
		if i == k-1 {
			kinds = 3
		}
		switch v.Choose(id+".kind", kinds) {
		case 0:
			t := pre + v.StringUpTo(id+".text", 1, segMax, alphabet)
			segs = append(segs, Seg{'s', t})
			p += t
		case 1:
			t := v.StringUpTo(id+".param", 1, segMax, alphabet)
			segs = append(segs, Seg{'s', pre}, Seg{':', t})
			p += pre + ":" + t
		default:
			t := v.StringUpTo(id+".rest", 1, segMax, alphabet)
			segs = append(segs, Seg{'s', "/"}, Seg{'*', t})
			p += "/*" + t
		}
	}
	if v.Bool(name + ".slash") {
		if last := segs[len(segs)-1]; last.Kind != '*' {
			p += "/"
			segs = append(segs, Seg{'s', "/"})
		}
	}
	return p, segs
}

// OpenAPIPath is the documented OpenAPI path of the segments.
func OpenAPIPath(segs []Seg) string {
	var sb strings.Builder
	for _, s := range segs {
		switch s.Kind {
		case 's':
			sb.WriteString(s.Text)
		case ':':
			sb.WriteString("{" + s.Text + "}")
		case '*':
			sb.WriteString("{" + s.Text + "*}")
		}
	}
	return sb.String()
}

// Component is a struct component whose fields carry the given tags.
func Component(pkg, name string, fields map[string]astra.Field) astra.Field {
	return astra.Field{Package: pkg, Name: name, Type: "struct", StructFields: fields}
}

// Tagged makes a field of a type bound under one name for every given tag.
func Tagged(typ, name string, tags ...astTraversal.BindingTagType) astra.Field {
	m := astTraversal.BindingTagMap{}
	for _, t := range tags {
		m[t] = astTraversal.BindingTag{Name: name}
	}
	return astra.Field{Type: typ, StructFieldBindingTags: m}
}

// Flat collects the schemas a composed schema consists of.
func Flat(s openapi.Schema) []openapi.Schema {
	out := []openapi.Schema{s}
	for _, x := range s.AllOf {
		out = append(out, Flat(x)...)
	}
	for _, x := range s.OneOf {
		out = append(out, Flat(x)...)
	}
	for _, x := range s.AnyOf {
		out = append(out, Flat(x)...)
	}
	return out
}

// Same compares the parts of schemas that say what a value is.
func Same(a, b openapi.Schema) bool {
	if (a.Items == nil) != (b.Items == nil) || (a.AdditionalProperties == nil) != (b.AdditionalProperties == nil) {
		return false
	}
	if !v.And(v.EqStr(a.Type, b.Type), v.EqStr(a.Format, b.Format), v.EqStr(a.Ref, b.Ref)) {
		return false
	}
	if len(a.Properties) != len(b.Properties) || len(a.AllOf) != len(b.AllOf) || len(a.OneOf) != len(b.OneOf) || len(a.AnyOf) != len(b.AnyOf) {
		return false
	}
	for k, x := range a.Properties {
		y, ok := b.Properties[k]
		if !ok || !Same(x, y) {
			return false
		}
	}
	return (a.Items == nil || Same(*a.Items, *b.Items)) &&
		(a.AdditionalProperties == nil || Same(*a.AdditionalProperties, *b.AdditionalProperties))
}

// Holds reports whether a composed schema has one alternative or part that is want.
func Holds(s, want openapi.Schema) bool {
	for _, x := range Flat(s) {
		if Same(x, want) {
			return true
		}
	}
	return false
}

// SchemaRefs calls f with every reference a schema contains.
func SchemaRefs(s openapi.Schema, f func(ref string)) {
	if s.Ref != "" {
		f(s.Ref)
	}
	for _, x := range s.AllOf {
		SchemaRefs(x, f)
	}
	for _, x := range s.OneOf {
		SchemaRefs(x, f)
	}
	for _, x := range s.AnyOf {
		SchemaRefs(x, f)
	}
	if s.Items != nil {
		SchemaRefs(*s.Items, f)
	}
	if s.AdditionalProperties != nil {
		SchemaRefs(*s.AdditionalProperties, f)
	}
	for _, x := range s.Properties {
		SchemaRefs(x, f)
	}
}

// Refs calls f with every reference of a document.
func Refs(d openapi.OpenAPISchema, f func(ref string)) {
	for _, s := range d.Components.Schemas {
		SchemaRefs(s, f)
	}
	for _, p := range d.Paths {
		for _, m := range Methods {
			op := Op(p, m)
			if op == nil {
				continue
			}
			for _, q := range op.Parameters {
				SchemaRefs(q.Schema, f)
			}
			if op.RequestBody != nil {
				for _, c := range op.RequestBody.Content {
					SchemaRefs(c.Schema, f)
				}
			}
			for _, r := range op.Responses {
				for _, c := range r.Content {
					SchemaRefs(c.Schema, f)
				}
				for _, h := range r.Headers {
					SchemaRefs(h.Schema, f)
				}
			}
		}
	}
}

// RefPrefix starts every reference to a component.
const RefPrefix = "#/components/schemas/"

// Resolve returns the component a reference leads to.
func Resolve(d openapi.OpenAPISchema, ref string) (openapi.Schema, bool) {
	if !strings.HasPrefix(ref, RefPrefix) {
		return openapi.Schema{}, false
	}
	s, ok := d.Components.Schemas[ref[len(RefPrefix):]]
	return s, ok
}

// Nil is the return type without a body.
func Nil() []astra.ReturnType {
	return []astra.ReturnType{{StatusCode: 200, Field: astra.Field{Type: "nil"}}}
}

// Name is an arbitrary name of 1 to n bytes as identifiers, headers and files have them.
func Name(id string, n int) string {
	return v.StringUpTo(id, 1, n, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.")
}

// MediaType is an arbitrary text of 1 to n bytes as content types have them.
func MediaType(id string, n int) string {
	return v.StringUpTo(id, 1, n, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.+*/; =")
}

// Shapes is how many types Shape knows.
const Shapes = 17

// Shape is one of many types, all different, and its schema. They refer to the types A, U and N of package q.
func Shape(i int) (astra.Field, openapi.Schema) {
	str, a, u, n := openapi.Schema{Type: "string"}, openapi.Schema{Ref: RefPrefix + "q.A"}, openapi.Schema{Ref: RefPrefix + "q.U"}, openapi.Schema{Ref: RefPrefix + "q.N"}
	list := func(e openapi.Schema) openapi.Schema { return openapi.Schema{Type: "array", Items: &e} }
	dict := func(e openapi.Schema) openapi.Schema {
		return openapi.Schema{Type: "object", AdditionalProperties: &e}
	}
	anonymous := func(typ string) astra.Field {
		return astra.Field{Type: "struct", StructFields: map[string]astra.Field{"X": Tagged(typ, "X", "")}}
	}
	object := func(e openapi.Schema) openapi.Schema {
		return openapi.Schema{Type: "object", Properties: map[string]openapi.Schema{"X": e}}
	}
	switch i {
	case 0:
		return astra.Field{Type: "string"}, str
	case 1:
		return astra.Field{Type: "A", Package: "q"}, a
	case 2:
		return astra.Field{Type: "slice", SliceType: "string"}, list(str)
	case 3:
		return astra.Field{Type: "slice", SliceType: "A", Package: "q"}, list(a)
	case 4:
		return astra.Field{Type: "map", MapKeyType: "string", MapValueType: "A", Package: "q"}, dict(a)
	case 5:
		return astra.Field{Type: "map", MapKeyType: "int", MapValueType: "int64"}, dict(openapi.Schema{Type: "integer", Format: "int64"})
	case 6:
		return anonymous("string"), object(str)
	case 7:
		return anonymous("bool"), object(openapi.Schema{Type: "boolean"})
	case 8:
		return astra.Field{Type: "array", ArrayType: "bool"}, list(openapi.Schema{Type: "boolean"})
	case 9:
		return astra.Field{Type: "U", Package: "q"}, u
	case 10:
		return astra.Field{Type: "N", Package: "q"}, n
	case 11:
		return astra.Field{Type: "int"}, openapi.Schema{Type: "integer", Format: "int32"}
	case 12:
		return astra.Field{Type: "int64"}, openapi.Schema{Type: "integer", Format: "int64"}
	case 13:
		return astra.Field{Type: "array", ArrayType: "U", ArrayLength: 2, Package: "q"}, list(u)
	case 14:
		return astra.Field{Type: "map", MapKeyType: "N", MapKeyPackage: "q", MapValueType: "N", Package: "q"}, dict(n)
	case 15:
		return astra.Field{Type: "slice", SliceType: "N", Package: "q"}, list(n)
	default:
		return astra.Field{Type: "slice", SliceType: "int"}, list(openapi.Schema{Type: "integer", Format: "int32"})
	}
}

// ShapeComponents are the components that the types of Shape refer to.
func ShapeComponents() []astra.Field {
	return []astra.Field{
		Component("q", "A", map[string]astra.Field{"X": Tagged("string", "x", "json", "form", "xml", "yaml")}),
		Component("q", "U", map[string]astra.Field{"Z": Tagged("string", "Z", "")}),
		{Package: "q", Name: "N", Type: "int"},
	}
}

// Alternatives are the schemas one of which holds.
func Alternatives(s openapi.Schema) []openapi.Schema {
	if len(s.OneOf) == 0 && len(s.AnyOf) == 0 {
		return []openapi.Schema{s}
	}
	var out []openapi.Schema
	for _, x := range append(append([]openapi.Schema{}, s.OneOf...), s.AnyOf...) {
		out = append(out, Alternatives(x)...)
	}
	return out
}

// SameAlternatives reports whether the alternatives of s are exactly those wanted, each once.
func SameAlternatives(s openapi.Schema, want []openapi.Schema) bool {
	got := Alternatives(s)
	var distinct []openapi.Schema
	for _, w := range want {
		known := false
		for _, d := range distinct {
			known = known || Same(d, w)
		}
		if !known {
			distinct = append(distinct, w)
		}
	}
	if len(got) != len(distinct) {
		return false
	}
	for _, d := range distinct {
		n := 0
		for _, g := range got {
			if Same(g, d) {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}
