package p05

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs/openapi"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

type named struct {
	ct, name string
	schema   openapi.Schema
}
type whole struct {
	ct     string
	schema openapi.Schema
}

const ref = "#/components/schemas/"

func components() []astra.Field {
	return []astra.Field{
		hc.Component("q", "A", map[string]astra.Field{"X": hc.Tagged("string", "x", "json", "form", "xml", "yaml")}),
		hc.Component("q", "B", map[string]astra.Field{"Y": hc.Tagged("string", "y", "json", "form", "xml", "yaml")}),
		hc.Component("q", "U", map[string]astra.Field{"Z": hc.Tagged("string", "Z", "")}),
	}
}

// H_Bodies: recorded bodies in any order and mixture.
func H_Bodies() {
	r := astra.Route{Handler: "main.h", Method: "POST", Path: "/p", ReturnTypes: []astra.ReturnType{{StatusCode: 200, Field: astra.Field{Type: "nil"}}}}
	var ns []named
	var ws []whole
	n := 2
	if v.Thorough() {
		n = 3
	}
	if v.Bool("third") {
		n++
	}
	str := openapi.Schema{Type: "string"}
	for i := 0; i < n; i++ {
		id := "b" + string(rune('0'+i))
		b := astra.BodyParam{}
		kinds := 8
		if i >= 2 && !v.Thorough() {
			kinds = 1
		}
		switch v.Choose(id+".kind", kinds) {
		case 0, 1, 2, 3:
			b.Name = v.String(id+".name", 1, "abx")
			b.ContentType = "application/x-www-form-urlencoded"
			b.Field.Type = "string"
			w := named{b.ContentType, b.Name, str}
			switch v.Choose(id+".shape", 4) {
			case 1:
				b.IsArray = true
				w.schema = openapi.Schema{Type: "array", Items: &str}
			case 2:
				b.IsMap = true
				w.schema = openapi.Schema{Type: "object", AdditionalProperties: &str}
			case 3:
				b.ContentType, w.ct = "multipart/form-data", "multipart/form-data"
				b.Field.Type = "file"
				w.schema = openapi.Schema{Type: "string", Format: "binary"}
			}
			for _, x := range ns {
				v.Assume(x.ct != w.ct || x.name != w.name)
			}
			ns = append(ns, w)
		case 4, 5, 6:
			b.IsBound = true
			b.Field = astra.Field{Package: "q", Type: v.Pick(id+".type", "A", "B", "U")}
			b.ContentType = v.Pick(id+".ct", "application/json", "application/x-www-form-urlencoded", "application/yaml")
			ws = append(ws, whole{b.ContentType, openapi.Schema{Ref: ref + "q." + b.Field.Type}})
		case 7:
			b.IsBound = true
			b.ContentType = "application/json"
			w := whole{b.ContentType, openapi.Schema{}}
			switch v.Choose(id+".shape", 4) {
			case 0:
				b.Field = astra.Field{Type: "slice", SliceType: "A", Package: "q"}
				w.schema = openapi.Schema{Type: "array", Items: &openapi.Schema{Ref: ref + "q.A"}}
			case 1:
				b.Field = astra.Field{Type: "map", MapKeyType: "string", MapValueType: "B", Package: "q"}
				w.schema = openapi.Schema{Type: "object", AdditionalProperties: &openapi.Schema{Ref: ref + "q.B"}}
			case 2:
				b.Field = astra.Field{Type: "array", ArrayType: "string", ArrayLength: 2}
				w.schema = openapi.Schema{Type: "array", Items: &str}
			case 3:
				b.Field = astra.Field{Type: "int64"}
				w.schema = openapi.Schema{Type: "integer", Format: "int64"}
			}
			ws = append(ws, w)
		}
		r.Body = append(r.Body, b)
	}
	s := hc.Service()
	s.Routes = []astra.Route{r}
	s.Components = components()
	d, ok := hc.Doc(s)
	if !ok {
		return
	}
	op := d.Paths["/p"].Post
	v.Assert("operation", op != nil && op.RequestBody != nil, "no request body")
	if op == nil || op.RequestBody == nil {
		return
	}
	c := op.RequestBody.Content
	for _, w := range ws {
		m, ok := c[w.ct]
		v.Assert("content type", ok, "a body's content type is missing")
		v.Assert("bound body", hc.Holds(m.Schema, w.schema), "a bound body's schema is missing")
	}
	for _, w := range ns {
		m, ok := c[w.ct]
		v.Assert("content type", ok, "a body's content type is missing")
		k := 0
		for _, x := range hc.Flat(m.Schema) {
			if p, ok := x.Properties[w.name]; ok {
				k++
				v.Assert("field schema", hc.Same(p, w.schema), "a form field has the wrong schema")
				v.Assert("object", x.Type == "object", "form fields are not in an object")
			}
		}
		v.Assert("field", k == 1, "a form field is not in the document exactly once")
	}
	for ct, m := range c {
		fields, bodies := 0, 0
		used := false
		for _, w := range ns {
			if w.ct == ct {
				fields++
				used = true
			}
		}
		for _, w := range ws {
			if w.ct == ct {
				bodies++
				used = true
			}
		}
		v.Assert("no other content type", used, "the document has another content type")
		props := 0
		for _, x := range hc.Flat(m.Schema) {
			props += len(x.Properties)
		}
		v.Assert("no other field", props == fields, "the document has another property")
		if bodies == 0 {
			v.Assert("one object", m.Schema.Type == "object" && len(m.Schema.Properties) == fields, "form fields are not one object schema")
		}
	}
}

// H_None: no recorded body, no request body.
func H_None() {
	s := hc.Service()
	s.Routes = []astra.Route{{Handler: "main.h", Method: "POST", Path: "/p", ReturnTypes: []astra.ReturnType{{StatusCode: 200, Field: astra.Field{Type: "nil"}}}}}
	d, ok := hc.Doc(s)
	if ok {
		op := d.Paths["/p"].Post
		v.Assert("none", op != nil && op.RequestBody == nil, "a request body from nowhere")
	}
}

func one(method string, b astra.BodyParam) (openapi.Schema, bool) {
	s := hc.Service()
	s.Routes = []astra.Route{{Handler: "main.h", Method: method, Path: "/p", Body: []astra.BodyParam{b}, ReturnTypes: hc.Nil()}}
	s.Components = components()
	d, ok := hc.Doc(s)
	if !ok {
		return openapi.Schema{}, false
	}
	op := hc.Op(d.Paths["/p"], method)
	v.Assert("operation", op != nil && op.RequestBody != nil, "no request body")
	if op == nil || op.RequestBody == nil {
		return openapi.Schema{}, false
	}
	m, ok := op.RequestBody.Content[b.ContentType]
	v.Assert("content type", ok && len(op.RequestBody.Content) == 1, "a body's content type is missing or not alone")
	return m.Schema, ok
}

// H_Methods: a body of any kind under any method.
func H_Methods() {
	b := astra.BodyParam{ContentType: "application/x-www-form-urlencoded"}
	w := openapi.Schema{}
	switch v.Choose("kind", 3) {
	case 0:
		b.Name, b.Field.Type = "x", "string"
		w = openapi.Schema{Type: "object", Properties: map[string]openapi.Schema{"x": {Type: "string"}}}
	case 1:
		b.IsBound, b.ContentType = true, "application/json"
		b.Field = astra.Field{Package: "q", Type: "A"}
		w.Ref = ref + "q.A"
	case 2:
		b.ContentType, b.Name, b.Field.Type = "multipart/form-data", "x", "file"
		w = openapi.Schema{Type: "object", Properties: map[string]openapi.Schema{"x": {Type: "string", Format: "binary"}}}
	}
	if sc, ok := one(v.Pick("method", hc.Methods...), b); ok {
		v.Assert("schema", hc.Same(sc, w), "wrong schema")
	}
}

// H_Names: a form field of any longer name, or a bound body of any content type.
func H_Names() {
	n, m := 14, 24
	if v.Thorough() {
		n, m = 24, 36
	}
	if v.Bool("field") {
		b := astra.BodyParam{ContentType: v.Pick("ct", "application/x-www-form-urlencoded", "multipart/form-data"), Name: hc.Name("name", n), Field: astra.Field{Type: "string"}}
		if sc, ok := one("POST", b); ok {
			v.Assert("schema", hc.Same(sc, openapi.Schema{Type: "object", Properties: map[string]openapi.Schema{b.Name: {Type: "string"}}}), "wrong schema")
		}
		return
	}
	b := astra.BodyParam{ContentType: hc.MediaType("ct", m), IsBound: true, Field: astra.Field{Type: "slice", SliceType: "string"}}
	if sc, ok := one("POST", b); ok {
		v.Assert("schema", hc.Same(sc, openapi.Schema{Type: "array", Items: &openapi.Schema{Type: "string"}}), "wrong schema")
	}
}

// H_Alternatives: several bodies of any kind under one content type are alternatives, next to form fields.
func H_Alternatives() {
	r := astra.Route{Handler: "main.h", Method: "POST", Path: "/p", ReturnTypes: hc.Nil()}
	ct := v.Pick("ct", "application/json", "application/x-www-form-urlencoded", "text/csv")
	n := 3
	var ws []openapi.Schema
	form := astra.BodyParam{ContentType: ct, Name: "f", Field: astra.Field{Type: "int64"}}
	at := v.Choose("form field", n+2) // after that many bodies, if any
	for i := 0; i < n; i++ {
		if at == i {
			r.Body = append(r.Body, form)
		}
		kinds := hc.Shapes
		if i > 0 && !v.Thorough() {
			kinds = 8
		}
		f, sc := hc.Shape(v.Choose("type"+string(rune('0'+i)), kinds))
		r.Body = append(r.Body, astra.BodyParam{ContentType: ct, IsBound: true, Field: f})
		ws = append(ws, sc)
	}
	if at == n {
		r.Body = append(r.Body, form)
	}
	s := hc.Service()
	s.Routes = []astra.Route{r}
	s.Components = hc.ShapeComponents()
	d, ok := hc.Doc(s)
	if !ok || d.Paths["/p"].Post == nil || d.Paths["/p"].Post.RequestBody == nil {
		v.Assert("body", !ok, "no request body")
		return
	}
	c := d.Paths["/p"].Post.RequestBody.Content
	v.Assert("alone", len(c) == 1, "a body's content type is missing or not alone")
	sc := c[ct].Schema
	if at <= n {
		fields := openapi.Schema{Type: "object", Properties: map[string]openapi.Schema{"f": {Type: "integer", Format: "int64"}}}
		v.Assert("both", len(sc.AllOf) == 2 && (hc.Same(sc.AllOf[0], fields) || hc.Same(sc.AllOf[1], fields)), "the form fields are not one object next to the bodies")
		if len(sc.AllOf) != 2 {
			return
		}
		if hc.Same(sc.AllOf[0], fields) {
			sc = sc.AllOf[1]
		} else {
			sc = sc.AllOf[0]
		}
	}
	v.Assert("alternatives", hc.SameAlternatives(sc, ws), "the bodies of a content type are not its alternatives")
}
