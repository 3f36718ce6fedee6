package p04

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/outputs/openapi"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

type want struct {
	in, name string
	required bool
	schema   openapi.Schema
}

func scalar(t string) openapi.Schema {
	f := astra.PredefinedTypeMap[t]
	return openapi.Schema{Type: f.Type, Format: f.Format}
}

func add(ws []want, w want) []want {
	for _, x := range ws {
		if x.in == w.in && x.name == w.name {
			return ws
		}
	}
	return append(ws, w)
}

func check(op *openapi.Operation, ws []want) {
	v.Assert("count", len(op.Parameters) == len(ws), "wrong number of parameters")
	last := ""
	for _, p := range op.Parameters {
		v.Assert("sorted", p.Name >= last, "parameters are not sorted by name")
		v.Assert("named", p.Name != "", "a parameter has no name")
		last = p.Name
	}
	for _, w := range ws {
		n := 0
		for _, p := range op.Parameters {
			if p.In != w.in || p.Name != w.name {
				continue
			}
			n++
			v.Assert("required", p.Required == w.required, "wrong required flag")
			v.Assert("schema", hc.Same(p.Schema, w.schema), "wrong schema")
			if w.in == "query" {
				if w.schema.Type == "object" {
					v.Assert("style", p.Style == "deepObject" && p.Explode, "a map is not a deepObject")
				} else {
					v.Assert("style", p.Style == "form" && !p.Explode, "not form style")
				}
			}
		}
		v.Assert("once", n == 1, "a parameter does not appear exactly once")
	}
}

func operation(s *astra.Service) *openapi.Operation {
	d, ok := hc.Doc(s)
	if !ok {
		return nil
	}
	for _, p := range d.Paths {
		v.Assert("operation", p.Get != nil, "no operation")
		return p.Get
	}
	v.Assert("operation", false, "no operation")
	return nil
}

var locations = []string{"query", "header", "path"}

// H_Plain: recorded parameters of any kind and location.
func H_Plain() {
	r := astra.Route{Handler: "main.h", Method: "GET", Path: "/p", ReturnTypes: []astra.ReturnType{{StatusCode: 200, Field: astra.Field{Type: "nil"}}}}
	var ws []want
	n := 2
	if v.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		id := "p" + string(rune('0'+i))
		t := "string"
		if i > 0 {
			t = v.Pick(id+".type", "string", "int", "bool", "N")
		}
		p := astra.Param{Name: v.StringUpTo(id+".name", 1, 2, "aB-"), Field: astra.Field{Type: t}, IsRequired: v.Bool(id + ".required")}
		w := want{name: p.Name, required: p.IsRequired, schema: scalar(t)}
		if t == "N" {
			p.Field.Package = "q"
			w.schema = openapi.Schema{Ref: hc.RefPrefix + "q.N"}
		}
		switch v.Choose(id+".shape", 3) {
		case 1:
			p.IsArray = true
			e := w.schema
			w.schema = openapi.Schema{Type: "array", Items: &e}
		case 2:
			p.IsMap = true
			e := w.schema
			w.schema = openapi.Schema{Type: "object", AdditionalProperties: &e}
		}
		w.in = v.Pick(id+".in", locations...)
		switch w.in {
		case "query":
			r.QueryParams = append(r.QueryParams, p)
		case "header":
			r.RequestHeaders = append(r.RequestHeaders, p)
		case "path":
			r.PathParams = append(r.PathParams, p)
		}
		ws = add(ws, w)
	}
	s := hc.Service()
	s.Routes = []astra.Route{r}
	s.Components = []astra.Field{{Package: "q", Name: "N", Type: "int"}}
	if op := operation(s); op != nil {
		check(op, ws)
	}
}

// H_Names: one parameter of any longer name, and any method.
func H_Names() {
	n := 16
	if v.Thorough() {
		n = 28
	}
	p := astra.Param{Name: hc.Name("name", n), Field: astra.Field{Type: "string"}, IsRequired: v.Bool("required")}
	w := want{name: p.Name, required: p.IsRequired, schema: scalar("string"), in: v.Pick("in", "query", "header")}
	one(p, w, "GET")
}

// H_Methods: one parameter of any location under any method.
func H_Methods() {
	p := astra.Param{Name: v.String("name", 1, "aB-"), Field: astra.Field{Type: "string"}, IsRequired: v.Bool("required")}
	w := want{name: p.Name, required: p.IsRequired, schema: scalar("string"), in: v.Pick("in", locations...)}
	one(p, w, v.Pick("method", hc.Methods...))
}

func one(p astra.Param, w want, method string) {
	r := astra.Route{Handler: "main.h", Method: method, Path: "/p", ReturnTypes: hc.Nil()}
	switch w.in {
	case "query":
		r.QueryParams = append(r.QueryParams, p)
	case "header":
		r.RequestHeaders = append(r.RequestHeaders, p)
	case "path":
		r.PathParams = append(r.PathParams, p)
	}
	s := hc.Service()
	s.Routes = []astra.Route{r}
	d, ok := hc.Doc(s)
	if !ok {
		return
	}
	op := hc.Op(d.Paths["/p"], method)
	v.Assert("operation", op != nil, "no operation")
	if op != nil {
		check(op, []want{w})
	}
}

var tagOf = map[string]astTraversal.BindingTagType{"query": astTraversal.FormBindingTag, "header": astTraversal.HeaderBindingTag, "path": astTraversal.URIBindingTag}

// field makes a field of a bound struct and says under which name it is visible for the location.
func field(id, goName, in string, types, kinds int) (astra.Field, string, openapi.Schema) {
	f := astra.Field{Type: "string"}
	sc := scalar("string")
	switch v.Choose(id+".type", types) {
	case 3:
		f.Type, f.Package = "N", "q"
		sc = openapi.Schema{Ref: hc.RefPrefix + "q.N"}
	case 1:
		f.Type, f.SliceType = "slice", "int"
		e := scalar("int")
		sc = openapi.Schema{Type: "array", Items: &e}
	case 2:
		f.Type, f.MapKeyType, f.MapValueType = "map", "string", "bool"
		e := scalar("bool")
		sc = openapi.Schema{Type: "object", AdditionalProperties: &e}
	}
	switch v.Choose(id+".tag", kinds) {
	case 0: // tagged for this location
		n := v.String(id+".name", 1, "abc")
		f.StructFieldBindingTags = astTraversal.BindingTagMap{tagOf[in]: {Name: n}}
		return f, n, sc
	case 1: // untagged
		f.StructFieldBindingTags = astTraversal.BindingTagMap{"": {Name: goName}}
		return f, goName, sc
	case 2: // hidden
		f.StructFieldBindingTags = astTraversal.BindingTagMap{tagOf[in]: {NotShown: true}, "json": {Name: "j"}}
		return f, "", sc
	default: // for another binding only
		f.StructFieldBindingTags = astTraversal.BindingTagMap{"json": {Name: "j"}}
		return f, "", sc
	}
}

// H_Bound: bound structs are spread into their fields, embedded ones included.
func H_Bound() {
	in := v.Pick("in", locations...)
	fs := map[string]astra.Field{}
	var ws []want
	required := in != "path" && v.Bool("required")
	note := func(n string, sc openapi.Schema) {
		if n == "" {
			return
		}
		for _, w := range ws {
			v.Assume(w.name != n)
		}
		if in == "path" && n != "a" {
			return
		}
		ws = append(ws, want{in: in, name: n, required: in == "path" || required, schema: sc})
	}
	f, n, sc := field("f0", "A", in, 4, 4)
	fs["A"] = f
	note(n, sc)
	visible := n != ""
	if v.Bool("second") {
		f, n, sc := field("f1", "B", in, 3, 2)
		fs["B"] = f
		note(n, sc)
		visible = visible || n != ""
	}
	v.Assume(visible)
	comps := []astra.Field{}
	if v.Bool("embeds") {
		f, n, sc := field("f2", "C", in, 4, 2)
		note(n, sc)
		fs["E"] = astra.Field{Package: "q", Type: "E", IsEmbedded: true, StructFieldBindingTags: astTraversal.BindingTagMap{"": {Name: "E"}}}
		comps = append(comps, hc.Component("q", "E", map[string]astra.Field{"C": f}))
	}
	r := astra.Route{Handler: "main.h", Method: "GET", Path: "/p/:a", ReturnTypes: []astra.ReturnType{{StatusCode: 200, Field: astra.Field{Type: "nil"}}}}
	a := astra.Param{Name: "a", Field: astra.Field{Type: "string"}, IsRequired: true}
	r.PathParams = []astra.Param{a}
	if in != "path" {
		ws = append(ws, want{in: "path", name: "a", required: true, schema: scalar("string")})
	} else if len(ws) == 0 {
		ws = append(ws, want{in: "path", name: "a", required: true, schema: scalar("string")})
	}
	b := astra.Param{IsBound: true, IsRequired: required, Field: astra.Field{Package: "q", Type: "S"}}
	switch in {
	case "query":
		r.QueryParams = append(r.QueryParams, b)
	case "header":
		r.RequestHeaders = append(r.RequestHeaders, b)
	case "path":
		r.PathParams = append(r.PathParams, b)
	}
	s := hc.Service()
	s.Routes = []astra.Route{r}
	s.Components = append(comps, hc.Component("q", "S", fs), astra.Field{Package: "q", Name: "N", Type: "int"})
	if op := operation(s); op != nil {
		check(op, ws)
	}
}

// H_Embeds: chains of embedded structs, whose fields the embedding struct's fields of the same name hide.
func H_Embeds() {
	in := v.Pick("in", locations...)
	depth := 1 + v.Choose("depth", 4)
	types := []string{"string", "int", "bool", "float64", "int64"}
	pkgs := []string{"q", "q", "other/q", "q", "q"}
	names := []string{"S", "E1", "E1", "E3", "E4"}
	r := astra.Route{Handler: "main.h", Method: "GET", Path: "/p/:a", ReturnTypes: hc.Nil()}
	r.PathParams = []astra.Param{{Name: "a", Field: astra.Field{Type: "string"}, IsRequired: true}}
	template := want{in: "path", name: "a", required: true, schema: scalar("string")}
	var ws []want
	var comps []astra.Field
	for i := 0; i <= depth; i++ {
		name := v.String("name"+string(rune('0'+i)), 1, "abcde")
		fs := map[string]astra.Field{"F": hc.Tagged(types[i], name, tagOf[in])}
		if i < depth {
			fs[names[i+1]] = astra.Field{Package: pkgs[i+1], Type: names[i+1], IsEmbedded: true, StructFieldBindingTags: astTraversal.BindingTagMap{"": {Name: names[i+1]}}}
		}
		comps = append(comps, hc.Component(pkgs[i], names[i], fs))
		hidden := false
		for _, w := range ws {
			hidden = hidden || w.name == name
		}
		if !hidden {
			ws = append(ws, want{in: in, name: name, required: in == "path", schema: scalar(types[i])})
		}
	}
	b := astra.Param{IsBound: true, Field: astra.Field{Package: "q", Type: "S"}}
	switch in {
	case "query":
		r.QueryParams = append(r.QueryParams, b)
	case "header":
		r.RequestHeaders = append(r.RequestHeaders, b)
	case "path":
		r.PathParams = append(r.PathParams, b)
		for _, w := range ws {
			if w.name == "a" {
				template = w
			}
		}
		ws = nil
	}
	s := hc.Service()
	s.Routes = []astra.Route{r}
	s.Components = comps
	if op := operation(s); op != nil {
		check(op, append(ws, template))
	}
}
