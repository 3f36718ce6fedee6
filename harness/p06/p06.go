package p06

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs/openapi"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

const ref = "#/components/schemas/"

func components() []astra.Field {
	return []astra.Field{
		hc.Component("q", "A", map[string]astra.Field{"X": hc.Tagged("string", "x", "json", "xml", "yaml")}),
		hc.Component("q", "U", map[string]astra.Field{"Z": hc.Tagged("string", "Z", "")}),
		{Package: "q", Name: "N", Type: "int"},
	}
}

func kind(id string, n int) (astra.Field, openapi.Schema, bool) {
	switch v.Choose(id, n) {
	case 0:
		return astra.Field{Type: "nil"}, openapi.Schema{}, false
	case 1:
		return astra.Field{Type: "A", Package: "q"}, openapi.Schema{Ref: ref + "q.A"}, true
	case 2:
		return astra.Field{Type: "string"}, openapi.Schema{Type: "string"}, true
	case 3:
		return astra.Field{Type: "slice", SliceType: "A", Package: "q"}, openapi.Schema{Type: "array", Items: &openapi.Schema{Ref: ref + "q.A"}}, true
	case 4:
		return astra.Field{Type: "map", MapKeyType: "string", MapValueType: "A", Package: "q"}, openapi.Schema{Type: "object", AdditionalProperties: &openapi.Schema{Ref: ref + "q.A"}}, true
	case 5:
		return astra.Field{Type: "array", ArrayType: "bool", ArrayLength: 2}, openapi.Schema{Type: "array", Items: &openapi.Schema{Type: "boolean"}}, true
	case 6:
		return astra.Field{Type: "U", Package: "q"}, openapi.Schema{Ref: ref + "q.U"}, true
	case 7:
		return astra.Field{Type: "N", Package: "q"}, openapi.Schema{Ref: ref + "q.N"}, true
	case 8:
		return astra.Field{Type: "map", MapKeyType: "string", MapValueType: "int64"}, openapi.Schema{Type: "object", AdditionalProperties: &openapi.Schema{Type: "integer", Format: "int64"}}, true
	default:
		return astra.Field{Type: "slice", SliceType: "string"}, openapi.Schema{Type: "array", Items: &openapi.Schema{Type: "string"}}, true
	}
}

type want struct {
	status, ct string
	body       bool
	schema     openapi.Schema
}

func code(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func check(rets, headers int, kinds []int) {
	r := astra.Route{Handler: "main.h", Method: "GET", Path: "/p"}
	var ws []want
	for i := 0; i < rets; i++ {
		id := "r" + string(rune('0'+i))
		st := v.Pick(id+".status", "200", "404")
		ct := v.Pick(id+".ct", "application/json", "application/xml", "application/protobuf", "text/plain")
		f, sc, body := kind(id+".type", kinds[i])
		if !body {
			ct = ""
		}
		r.ReturnTypes = append(r.ReturnTypes, astra.ReturnType{StatusCode: code(st), ContentType: ct, Field: f})
		ws = append(ws, want{st, ct, body, sc})
	}
	var hs []astra.Param
	for i := 0; i < headers; i++ {
		id := "h" + string(rune('0'+i))
		h := astra.Param{Name: v.String(id+".name", 1, "HX-"), Field: astra.Field{Type: "string"}, IsRequired: v.Bool(id + ".required")}
		for _, x := range hs {
			v.Assume(x.Name != h.Name)
		}
		hs = append(hs, h)
	}
	r.ResponseHeaders = hs
	s := hc.Service()
	s.Routes = []astra.Route{r}
	s.Components = components()
	d, ok := hc.Doc(s)
	if !ok {
		return
	}
	op := d.Paths["/p"].Get
	v.Assert("operation", op != nil, "no operation")
	if op == nil {
		return
	}
	for _, w := range ws {
		x, ok := op.Responses[w.status]
		v.Assert("status", ok, "a status code is missing")
		if w.body {
			m, ok := x.Content[w.ct]
			v.Assert("content type", ok, "a response's content type is missing")
			v.Assert("schema", hc.Holds(m.Schema, w.schema), "a response's schema is missing or wrong")
		}
	}
	for st, x := range op.Responses {
		okSt := false
		for _, w := range ws {
			okSt = okSt || w.status == st
		}
		v.Assert("no other status", okSt, "the document has another status")
		for ct, m := range x.Content {
			n := 0
			for _, w := range ws {
				if w.status == st && w.ct == ct && w.body {
					n++
				}
			}
			v.Assert("no other content type", n > 0, "the document has another content type")
			if n == 1 {
				for _, w := range ws {
					if w.status == st && w.ct == ct && w.body {
						v.Assert("exact", hc.Same(m.Schema, w.schema), "a response has more than its schema")
					}
				}
			}
		}
		v.Assert("headers", len(x.Headers) == len(hs), "wrong number of headers")
		for _, h := range hs {
			y, ok := x.Headers[h.Name]
			v.Assert("header", ok && y.Required == h.IsRequired && y.Schema.Type == "string", "a response header is missing or wrong")
		}
	}
}

// H_Two: two return types of any kind, up to one header.
func H_Two() { check(2, v.Choose("headers", 2), []int{10, 4}) }

// H_Three: three return types.
func H_Three() { check(3, 0, []int{3, 3, 2}) }

// H_Headers: two headers on every response.
func H_Headers() { check(1+v.Choose("two", 2), 2, []int{2, 2}) }

// one documents one return type and header under a method.
func one(method string, t astra.ReturnType, h astra.Param) {
	s := hc.Service()
	r := astra.Route{Handler: "main.h", Method: method, Path: "/p", ReturnTypes: []astra.ReturnType{t}}
	if h.Name != "" {
		r.ResponseHeaders = []astra.Param{h}
	}
	s.Routes = []astra.Route{r}
	d, ok := hc.Doc(s)
	if !ok {
		return
	}
	op := hc.Op(d.Paths["/p"], method)
	v.Assert("operation", op != nil && len(op.Responses) == 1, "wrong responses")
	if op == nil {
		return
	}
	for k, x := range op.Responses {
		v.Assert("status", len(k) == 3 && code(k) == t.StatusCode, "wrong status")
		if t.Field.Type == "nil" {
			v.Assert("no content", len(x.Content) == 0, "a response without body has content")
		} else {
			m, ok := x.Content[t.ContentType]
			v.Assert("content type", ok && len(x.Content) == 1, "a response's content type is missing or not alone")
			v.Assert("schema", ok && m.Schema.Type == "string", "a response's schema is wrong")
		}
		if h.Name == "" {
			v.Assert("headers", len(x.Headers) == 0, "wrong number of headers")
		} else {
			y, ok := x.Headers[h.Name]
			v.Assert("header", ok && len(x.Headers) == 1 && y.Required == h.IsRequired && y.Schema.Type == "string", "a response header is missing or wrong")
		}
	}
}

// H_Status: any status code, with and without a body.
func H_Status() {
	t := astra.ReturnType{StatusCode: v.Int("status", 100, 599), Field: astra.Field{Type: "nil"}}
	if v.Bool("body") {
		t.ContentType, t.Field.Type = "application/json", "string"
	}
	h := astra.Param{}
	if v.Bool("header") {
		h = astra.Param{Name: "H", Field: astra.Field{Type: "string"}}
	}
	one("GET", t, h)
}

// H_Methods: a response of any kind under any method.
func H_Methods() {
	t := astra.ReturnType{StatusCode: 200, Field: astra.Field{Type: "nil"}}
	if v.Bool("body") {
		t.ContentType, t.Field.Type = "application/json", "string"
	}
	one(v.Pick("method", hc.Methods...), t, astra.Param{Name: "H", Field: astra.Field{Type: "string"}, IsRequired: v.Bool("required")})
}

// H_Names: any longer content type or header name.
func H_Names() {
	n, m := 16, 24
	if v.Thorough() {
		n, m = 28, 36
	}
	t, h := astra.ReturnType{StatusCode: 200, Field: astra.Field{Type: "string"}, ContentType: "application/json"}, astra.Param{}
	if v.Bool("name") {
		h = astra.Param{Name: hc.Name("name", n), Field: astra.Field{Type: "string"}, IsRequired: v.Bool("required")}
	} else {
		t.ContentType = hc.MediaType("ct", m)
	}
	one("GET", t, h)
}

// H_Alternatives: several types of any kind under one status and content type are alternatives.
func H_Alternatives() {
	r := astra.Route{Handler: "main.h", Method: "GET", Path: "/p"}
	ct := v.Pick("ct", "application/json", "application/xml", "text/csv")
	n := 3
	var ws []openapi.Schema
	for i := 0; i < n; i++ {
		kinds := hc.Shapes
		if i > 0 && !v.Thorough() {
			kinds = 11
		}
		f, sc := hc.Shape(v.Choose("type"+string(rune('0'+i)), kinds))
		r.ReturnTypes = append(r.ReturnTypes, astra.ReturnType{StatusCode: 200, ContentType: ct, Field: f})
		ws = append(ws, sc)
	}
	if v.Bool("again") {
		r.ReturnTypes = append(r.ReturnTypes, r.ReturnTypes[v.Choose("which", n)])
	}
	s := hc.Service()
	s.Routes = []astra.Route{r}
	s.Components = hc.ShapeComponents()
	d, ok := hc.Doc(s)
	if !ok || d.Paths["/p"].Get == nil {
		return
	}
	x := d.Paths["/p"].Get.Responses
	v.Assert("alternatives", len(x) == 1 && len(x["200"].Content) == 1 && hc.SameAlternatives(x["200"].Content[ct].Schema, ws), "the types of a response are not its alternatives")
}
