package p33

import (
	"strings"

	"github.com/ls6-events/astra/outputs/openapi"
	"github.com/ls6-events/astra/zzverif/hc"
	osx "github.com/ls6-events/astra/zzverif/osx"
	packages "github.com/ls6-events/astra/zzverif/packagesx"
	"github.com/ls6-events/astra/zzverif/v"
)

// shape is the JSON that encoding/json writes for the values of a type.
type shape struct {
	// kind is the JSON type, "" if it can be any.
	kind string
	// format is the format the type has in the document.
	format string
	// elem is the shape of the elements of an array, or of the values of a map.
	elem *shape
	// fields are those of an object made from a struct.
	fields []field
	// object tells that an object is made from a struct.
	object bool
	// values is the number of values the type has, 0 if they are not declared.
	values int
	// length is the length of an array.
	length int
	// unnamed tells that the type is composed and has no name.
	unnamed bool
}

type field struct {
	name  string
	shape shape
}

// typ is a type and its JSON.
type typ struct {
	src   string
	shape shape
}

func scalar(kind, format string) shape { return shape{kind: kind, format: format} }

func list(e shape) shape { return shape{kind: "array", elem: &e} }

func dict(e shape) shape { return shape{kind: "object", elem: &e} }

func object(fs ...field) shape { return shape{kind: "object", object: true, fields: fs} }

// accepts checks that a schema describes a shape: it allows all JSON of the shape, and names nothing else.
// Elements of unnamed composed types may be left open.
func accepts(d openapi.OpenAPISchema, s openapi.Schema, sh shape, open bool) {
	for i := 0; i < 5 && s.Ref != ""; i++ {
		t, ok := hc.Resolve(d, s.Ref)
		v.Assert("resolves", ok, "a reference leads nowhere")
		s = t
	}
	if open && s.Type == "" && s.Enum == nil {
		// Not described at all.
		return
	}
	v.Assert("oneOf", len(s.OneOf) == 0 && len(s.AnyOf) == 0, "alternatives for a type")
	if len(s.AllOf) == 0 {
		v.Assert("type", s.Type == sh.kind, "the document has another type than the JSON")
	}
	v.Assert("format", s.Format == sh.format, "the document has another format")
	v.Assert("values", len(s.Enum) == sh.values, "the document has other values")
	switch {
	case sh.kind == "array":
		v.Assert("length", s.MaxItems == 0 || s.MaxItems == sh.length, "the document has another length")
		v.Assert("elements", open || s.Items != nil, "the document does not say what an array has")
		if s.Items != nil {
			accepts(d, *s.Items, *sh.elem, open || sh.elem.unnamed)
		}
	case sh.object:
		seen := 0
		if open && len(s.Properties) == 0 && len(s.AllOf) == 0 {
			return
		}
		for _, f := range sh.fields {
			ps := property(d, s, f.name)
			v.Assert("property", len(ps) > 0, "the JSON has a field that the document lacks")
			for _, p := range ps {
				accepts(d, p, f.shape, open)
			}
		}
		seen = len(names(d, s))
		v.Assert("properties", seen == len(sh.fields), "the document has a field that the JSON lacks")
		v.Assert("no values", s.AdditionalProperties == nil, "a struct is documented as a map")
	case sh.kind == "object":
		v.Assert("map", open || s.AdditionalProperties != nil && len(s.Properties) == 0, "a map is not documented as one")
		if s.AdditionalProperties != nil {
			accepts(d, *s.AdditionalProperties, *sh.elem, open || sh.elem.unnamed)
		}
	default:
		v.Assert("scalar", s.Items == nil && s.AdditionalProperties == nil && len(s.Properties) == 0 && len(s.AllOf) == 0, "a value is documented as something composed")
	}
}

// property returns all that a schema says about one property.
func property(d openapi.OpenAPISchema, s openapi.Schema, name string) (out []openapi.Schema) {
	for i := 0; i < 5 && s.Ref != ""; i++ {
		s, _ = hc.Resolve(d, s.Ref)
	}
	if p, ok := s.Properties[name]; ok {
		out = append(out, p)
	}
	for _, e := range s.AllOf {
		out = append(out, property(d, e, name)...)
	}
	return
}

// names returns the properties of a schema.
func names(d openapi.OpenAPISchema, s openapi.Schema) map[string]bool {
	for i := 0; i < 5 && s.Ref != ""; i++ {
		s, _ = hc.Resolve(d, s.Ref)
	}
	out := map[string]bool{}
	for n := range s.Properties {
		out[n] = true
	}
	for _, e := range s.AllOf {
		for n := range names(d, e) {
			out[n] = true
		}
	}
	return out
}

const timeSource = "package time\n\ntype Time struct {\n\twall uint64\n\text  int64\n}\n"

// document runs the whole of astra on a handler.
func document(body, decls, sub string) (openapi.OpenAPISchema, bool) {
	return run("h", body, decls, sub)
}

const temp = ".astra/astramain"

// run does so for a handler of some package. The main package is loaded from its temporary copy.
func run(pkg, body, decls, sub string, more ...packages.Source) (openapi.OpenAPISchema, bool) {
	h := "package " + pkg + "\n\nimport (\n\t\"" + hc.Gin + "\"\n\t\"sub\"\n\t\"time\"\n)\n\nvar (\n\t_ time.Time\n\t_ sub.S\n)\n\nfunc f(c *gin.Context) {\n" + body + "\n\tc.Status(299)\n}\n"
	i := "package " + pkg + "\n\nimport (\n\t\"sub\"\n\t\"time\"\n)\n\nvar (\n\t_ time.Time\n\t_ sub.S\n)\n\n" + decls
	dir, path := "/w/", pkg
	s := hc.Service()
	if pkg == "main" {
		osx.Put("/w/h.go", h)
		osx.Put("/w/i.go", i)
		h, i = "package astramain"+h[len("package main"):], "package astramain"+i[len("package main"):]
		dir, path = "/w/"+temp+"/", "m/"+temp
	} else {
		osx.Put("/w/main.go", "package main\n")
	}
	more = append(more, hc.Source(path, dir+"h.go", h), hc.Source(path, dir+"i.go", i), hc.Source("time", "/t/time.go", timeSource), hc.Source("sub", "/s/s.go", "package sub\n\n"+sub))
	hc.Program(hc.GinSource, more...)
	err := hc.ParseGin(s, hc.Handler(pkg, "f", "h.go", 14))
	v.Assert("parse", err == nil && len(s.Routes) == 1, "parsing fails")
	if err != nil {
		return openapi.OpenAPISchema{}, false
	}
	if pkg == "main" {
		a, _ := osx.Get(dir + "h.go")
		b, _ := osx.Get(dir + "i.go")
		v.Assert("copy", string(a) == h && string(b) == i, "the temporary main package is not the main package")
	}
	v.Assert("clean", s.Clean() == nil, "cleaning fails")
	return hc.Doc(s)
}

// given returns the JSON body of the response or the request.
func given(d openapi.OpenAPISchema, request bool) (openapi.Schema, bool) {
	op := d.Paths["/"].Get
	v.Assert("operation", op != nil, "the handler is not documented")
	if op == nil {
		return openapi.Schema{}, false
	}
	if request {
		v.Assert("request body", op.RequestBody != nil, "the request body is not documented")
		if op.RequestBody == nil {
			return openapi.Schema{}, false
		}
		c, ok := op.RequestBody.Content["application/json"]
		v.Assert("request type", ok && len(op.RequestBody.Content) == 1, "the request body is not JSON")
		return c.Schema, ok
	}
	v.Assert("responses", len(op.Responses) == 2, "not the responses that the handler gives")
	c, ok := op.Responses["200"].Content["application/json"]
	v.Assert("response type", ok && len(op.Responses["200"].Content) == 1, "the response is not JSON")
	return c.Schema, ok
}

const types = `type E int

const (
	E1 E = 1
	E2 E = 2
)

type L []S

type M map[string]*S

type PS *S

type AS = S

type D S

type Q struct{ q int }

type T time.Time

`

// element picks a type; n and m are JSON names of the fields of S and sub.S.
func element(n, m string) typ {
	s := object(field{n, scalar("integer", "int32")}, field{"B", list(scalar("string", ""))})
	ss := object(field{m, scalar("boolean", "")})
	e := scalar("integer", "int32")
	e.values = 2
	se := scalar("string", "")
	se.values = 1
	all := []typ{
		{"string", scalar("string", "")},
		{"bool", scalar("boolean", "")},
		{"int64", scalar("integer", "int64")},
		{"uint16", scalar("integer", "uint16")},
		{"float64", scalar("number", "float64")},
		{"any", scalar("", "")},
		{"interface{ F() }", scalar("", "")},
		{"time.Time", scalar("string", "date-time")},
		{"E", e},
		{"S", s},
		{"L", list(s)},
		{"M", dict(s)},
		{"PS", s},
		{"AS", s},
		{"D", s},
		{"Q", object()},
		{"T", object()},
		{"sub.S", ss},
		{"sub.E", se},
		{"sub.L", list(se)},
		{"sub.M", dict(ss)},
	}
	return all[v.Choose("element", len(all))]
}

// unnamed is a composed type without a name.
func unnamed(s shape) shape {
	s.unnamed = true
	return s
}

// made makes a type of another.
func made(id string, t typ, n string, how ...int) typ {
	arr := list(t.shape)
	arr.length = 3
	un := typ{t.src, t.shape}
	switch how[v.Choose(id, len(how))] {
	case 1:
		return typ{"*" + t.src, t.shape}
	case 2:
		un = typ{"[]" + t.src, list(t.shape)}
	case 3:
		un = typ{"[]*" + t.src, list(t.shape)}
	case 4:
		un = typ{"[3]" + t.src, arr}
	case 5:
		un = typ{"map[string]" + t.src, dict(t.shape)}
	case 6:
		un = typ{"map[int]*" + t.src, dict(t.shape)}
	case 7:
		un = typ{"struct{ F " + t.src + " `json:\"" + n + "\"` }", object(field{n, t.shape})}
	case 8:
		un = typ{"[][]" + t.src, list(unnamed(list(t.shape)))}
	case 9:
		un = typ{"map[string][]" + t.src, dict(unnamed(list(t.shape)))}
	case 10:
		un = typ{"[]map[sub.E]" + t.src, list(unnamed(dict(t.shape)))}
	case 11:
		un = typ{"[]struct{ F " + t.src + " }", list(unnamed(object(field{"F", t.shape})))}
	case 12:
		un = typ{"map[E]struct{ F *" + t.src + " }", dict(unnamed(object(field{"F", t.shape})))}
	default:
		return t
	}
	return typ{un.src, unnamed(un.shape)}
}

// H_Types: values of all types, written and read.
func H_Types() {
	n := v.String("name", 1, "ab-_")
	v.Assume(n != "-")
	t := made("made", element(n, n+"x"), n+"y", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)
	if v.Thorough() {
		t = made("again", t, n+"w", 0, 1, 2, 5, 7)
	}
	value("h", n, t, v.Choose("place", 4))
}

// H_Main: types of the program's main package, which is analysed in a copy.
func H_Main() {
	n := v.String("name", 1, "ab-_")
	v.Assume(n != "-")
	d := value("main", n, made("made", element(n, n+"x"), n+"y", 0, 2, 5, 7, 9), v.Choose("place", 3))
	for name := range d.Components.Schemas {
		v.Assert("own name", !strings.Contains(name, "astra"), "a type is named after the temporary package")
	}
}

// value checks the document of a handler that exchanges a value.
func value(pkg, n string, t typ, place int) openapi.OpenAPISchema {
	decls := types + "type S struct {\n\tA int `json:\"" + n + ",omitempty\"`\n\tB []string\n\tc bool\n}\n"
	sub := "type S struct {\n\tX bool `json:\"" + n + "x\"`\n\tY int `json:\"-\"`\n}\n\ntype E string\n\nconst A E = \"a\"\n\ntype L []E\n\ntype M map[E]*S\n"
	call := "c.JSON(200, x)"
	switch place {
	case 1:
		call = "c.BindJSON(&x)"
	case 2:
		decls += "\ntype W struct {\n\tG " + t.src + " `json:\"" + n + "z\"`\n}\n"
		t = typ{"W", object(field{n + "z", t.shape})}
	case 3:
		decls += "\ntype V struct{ G " + t.src + " }\n\ntype W struct {\n\tG []*V `json:\"" + n + "z\"`\n}\n"
		t = typ{"W", object(field{n + "z", list(object(field{"G", t.shape}))})}
	}
	d, ok := run(pkg, "\tvar x "+t.src+"\n\t"+call, decls, sub)
	if !ok {
		return d
	}
	if s, ok := given(d, place == 1); ok {
		accepts(d, s, t.shape, false)
	}
	return d
}

// declared is a field of a struct, as encoding/json sees it.
type declared struct {
	// name is its JSON name.
	name string
	// tagged tells whether the name is from a tag.
	tagged bool
	// depth is how deeply it is embedded.
	depth int
	shape shape
}

// encoded returns the fields that encoding/json takes: of several with one name the least embedded one, the tagged ones first, and none if more than one remain.
func encoded(fs []declared) (out []field) {
	for i, f := range fs {
		wins := true
		for j, g := range fs {
			if i != j && f.name == g.name && (g.depth < f.depth || g.depth == f.depth && (g.tagged || !f.tagged)) {
				wins = false
			}
		}
		if wins {
			out = append(out, field{f.name, f.shape})
		}
	}
	return
}

// member writes a field of a struct and tells how it is encoded.
func member(id, name string, depth int, ts []typ, kinds int) (string, []declared) {
	t := ts[v.Choose(id+".type", len(ts))]
	d := declared{name: name, depth: depth, shape: t.shape}
	switch v.Choose(id+".tag", kinds) {
	case 0:
		d.name, d.tagged = v.String(id+".name", 1, "abA"), true
		return name + " " + t.src + " `json:\"" + d.name + "\"`", []declared{d}
	case 1:
		return name + " " + t.src, []declared{d}
	case 2:
		return name + " " + t.src + " `json:\",omitempty\"`", []declared{d}
	case 3:
		return name + " " + t.src + " `json:\"-\"`", nil
	default:
		return name + " " + t.src + " `json:\"-,\"`", []declared{{"-", true, depth, t.shape}}
	}
}

// shadowed notes the known finding about fields of one name.
func shadowed(fs []declared) {
	for i, f := range fs {
		for j, g := range fs {
			if i < j && f.name == g.name && f.shape.kind != g.shape.kind {
				v.Known("KF04", "type")
				v.Known("KF04", "scalar")
				v.Known("KF04", "elements")
				if f.depth == g.depth && f.tagged == g.tagged {
					v.Known("KF04", "properties")
				}
			}
		}
	}
}

// H_Embedded: structs that embed others, whose fields may have the same names.
func H_Embedded() {
	ts := []typ{{"string", scalar("string", "")}, {"[]int", list(scalar("integer", "int32"))}}
	own, ds := member("own", "A", 0, ts, 5)
	var in []declared
	inner, es := member("inner", "B", 1, ts[:1], 2)
	in = append(in, es...)
	deep := ""
	if v.Bool("deeper") {
		x, es := member("deep", "A", 2, ts[1:], 2)
		deep = x
		in = append(in, es...)
	}
	// How the struct is embedded.
	how := v.Choose("how", 7)
	embed, pkg := [...]string{"N", "*N", "n", "sub.N", "N `json:\"-\"`", "N `json:\"c\"`", "N\n\tO"}[how], "h"
	other := ""
	switch how {
	case 6:
		// Another embedded struct.
		o, es := member("other", "B", 1, ts[1:], 2)
		other = "type O struct{ " + o + " }\n\n"
		in = append(in, es...)
	case 4:
		in = nil
	case 5:
		shadowed(in)
		for i := range in {
			in[i].depth--
		}
		in = []declared{{"c", true, 0, object(encoded(in)...)}}
	}
	name := "N"
	if how == 2 {
		name = "n"
	}
	def := "type " + name + " struct {\n\t" + inner + "\n"
	if deep != "" {
		def += "\t*K\n"
	}
	def += "}\n\n"
	if deep != "" {
		def += "type K struct {\n\t" + deep + "\n}\n\n"
	}
	decls, sub := "type W struct {\n\t"+own+"\n\t"+embed+"\n}\n\n"+other, "type S int\n\n"
	if how == 3 {
		pkg = "sub"
	}
	if pkg == "sub" {
		sub += def
	} else {
		decls += def
	}
	ds = append(ds, in...)
	fs := encoded(ds)
	if len(fs) < len(ds) {
		shadowed(ds)
	}
	request := (how == 0 || v.Thorough()) && v.Bool("request")
	call := "c.JSON(200, x)"
	if request {
		call = "c.BindJSON(&x)"
	}
	d, ok := document("\tvar x W\n\t"+call, decls, sub)
	if !ok {
		return
	}
	if s, ok := given(d, request); ok {
		accepts(d, s, object(fs...), false)
	}
}

// H_Bytes: bytes and characters.
func H_Bytes() {
	num := scalar("integer", "uint8")
	t := []typ{
		{"uint8", num},
		{"[2]uint8", list(num)},
		{"map[string]uint8", dict(num)},
		{"byte", num},
		{"rune", scalar("integer", "int32")},
		{"[]byte", scalar("string", "")},
		{"[]uint8", scalar("string", "")},
		{"[2]byte", list(num)},
	}[v.Choose("type", 8)]
	if t.shape.kind == "array" {
		t.shape.length = 2
	}
	switch t.src {
	case "byte", "rune", "[]byte", "[]uint8", "[2]byte":
		v.Known("KF05", "type")
		v.Known("KF05", "format")
		v.Known("KF05", "scalar")
	}
	n := v.String("name", 1, "ab")
	request := v.Bool("request")
	call := "c.JSON(200, x)"
	if request {
		call = "c.BindJSON(&x)"
	}
	d, ok := document("\tvar x struct{ F "+t.src+" `json:\""+n+"\"` }\n\t"+call, "", "type S int\n")
	if !ok {
		return
	}
	if s, ok := given(d, request); ok {
		accepts(d, s, object(field{n, t.shape}), false)
	}
}

// H_Quoted: fields that are encoded as strings.
func H_Quoted() {
	n := v.String("name", 1, "ab")
	opt := v.Pick("option", ",string", ",omitempty,string", ",strin", ",omitempty", "")
	t := []typ{{"int64", scalar("integer", "int64")}, {"bool", scalar("boolean", "")}, {"string", scalar("string", "")}, {"[]int", list(scalar("integer", "int32"))}}[v.Choose("type", 4)]
	sh := t.shape
	if (opt == ",string" || opt == ",omitempty,string") && sh.kind != "array" && sh.kind != "string" {
		sh = scalar("string", "")
		v.Known("KF06", "type")
		v.Known("KF06", "format")
	}
	d, ok := document("\tvar x W\n\tc.JSON(200, x)", "type W struct {\n\tF "+t.src+" `json:\""+n+opt+"\"`\n}\n", "type S int\n")
	if !ok {
		return
	}
	if s, ok := given(d, false); ok {
		accepts(d, s, object(field{n, sh}), false)
	}
}

// parameters checks the parameters of a place.
func parameters(d openapi.OpenAPISchema, op *openapi.Operation, in string, fs []field) {
	n := 0
	for _, p := range op.Parameters {
		if p.In != in {
			continue
		}
		n++
		known := false
		for _, f := range fs {
			if f.name == p.Name {
				known = true
				accepts(d, p.Schema, f.shape, false)
			}
		}
		v.Assert("known parameter", known, "a parameter that the handler does not read")
	}
	v.Assert("parameters", n == len(fs), "a parameter that the handler reads is missing, or given twice")
}

// H_Bound: structs that are bound to the query, the headers or a form.
func H_Bound() {
	e := scalar("integer", "int32")
	e.values = 2
	ts := []typ{{"string", scalar("string", "")}, {"*int64", scalar("integer", "int64")}, {"[]bool", list(scalar("boolean", ""))}, {"E", e}, {"[]E", list(e)}, {"map[string]string", dict(scalar("string", ""))}, {"time.Time", scalar("string", "date-time")}}
	key := v.Pick("key", "form", "header", "query")
	call, tag, in := "c.Bind(&x)", "form", ""
	switch key {
	case "header":
		call, tag, in = "c.BindHeader(&x)", "header", "header"
	case "query":
		call, in = "c.ShouldBindQuery(&x)", "query"
	}
	k := v.Choose("own", len(ts))
	own, kinds := ts[k], 4
	if k > 1 && !v.Thorough() {
		kinds = 1
	}
	var fs []field
	member := func(id, name, alphabet string, t typ, kinds int) string {
		switch v.Choose(id+".tag", kinds) {
		case 0:
			n := v.String(id+".name", 2, alphabet)
			fs = append(fs, field{n, t.shape})
			return name + " " + t.src + " `" + tag + ":\"" + n + "\" binding:\"required\"`"
		case 1:
			fs = append(fs, field{name, t.shape})
			return name + " " + t.src
		case 2:
			fs = append(fs, field{name, t.shape})
			return name + " " + t.src + " `" + tag + ":\",omitempty\"`"
		}
		return name + " " + t.src + " `" + tag + ":\"-\"`"
	}
	embedded := v.Choose("embedded", 4)
	var more []packages.Source
	if embedded == 3 {
		// Another package of the same name, whose types are met first.
		call = "c.JSON(201, O{})\n\t" + call
		more = append(more, hc.Source("x/sub", "/x/s.go", "package sub\n\ntype N struct{ X bool }\n"), hc.Source("h", "/w/j.go", "package h\n\nimport \"x/sub\"\n\ntype O struct{ P sub.N }\n"))
	}
	def := "type W struct {\n\t" + member("own", "A", "ab-", own, kinds) + "\n\t" + [...]string{"*N", "N", "sub.N", "sub.N"}[embedded] + "\n\th int\n}\n\n"
	n := "type N struct {\n\t" + member("inner", "B", "cd", ts[0], 4) + "\n\tC []string\n}\n\n"
	fs = append(fs, field{"C", list(scalar("string", ""))})
	d, ok := run("h", "\tvar x W\n\t"+call, types+"type S int\n\n"+n+def, "type S int\n\n"+n, more...)
	op := d.Paths["/"].Get
	if !ok || op == nil {
		v.Assert("operation", false, "the handler is not documented")
		return
	}
	if in == "" {
		v.Assert("request body", op.RequestBody != nil, "the form is not documented")
		if op.RequestBody == nil {
			return
		}
		for _, ct := range []string{"application/x-www-form-urlencoded", "multipart/form-data"} {
			m, ok := op.RequestBody.Content[ct]
			v.Assert("form type", ok, "a form is not documented")
			if ok {
				accepts(d, m.Schema, object(fs...), false)
			}
		}
		in = "query"
	} else {
		v.Assert("no body", op.RequestBody == nil, "a body that is not read")
	}
	parameters(d, op, in, fs)
}

// H_Handler: all that a handler exchanges, at once.
func H_Handler() {
	a, b, h := v.String("query", 2, "ab-"), v.String("second", 2, "ab-"), v.String("header", 2, "aB-")
	f, k := v.String("field", 2, "ab-"), v.String("json", 1, "ab-")
	v.Assume(a != b && k != "-")
	st, st2 := "4"+v.String("status", 2, "0123456789"), "20"+v.String("success", 1, "0123456789")
	body := v.Choose("body", 3)
	read := [...]string{"c.ShouldBindJSON(&x)", "c.PostForm(\"" + f + "\")", "_ = 0"}[body]
	s := object(field{k, scalar("integer", "int32")})
	d, ok := document("\tvar x S\n\tq := c.Query(\""+a+"\")\n\tif q == \"\" || "+"c.GetHeader(\""+h+"\") == \"\" {\n\t\tc.String("+st+", \"no\")\n\t\treturn\n\t}\n\tfor _, e := range c.QueryArray(\""+b+"\") {\n\t\t_ = e\n\t}\n\t"+read+"\n\tc.JSON("+st2+", []S{x})", "type S struct {\n\tA int `json:\""+k+"\"`\n}\n", "type S int\n")
	op := d.Paths["/"].Get
	if !ok || op == nil {
		v.Assert("operation", false, "the handler is not documented")
		return
	}
	parameters(d, op, "query", []field{{a, scalar("string", "")}, {b, list(scalar("string", ""))}})
	parameters(d, op, "header", []field{{h, scalar("string", "")}})
	v.Assert("all parameters", len(op.Parameters) == 3, "a parameter of another place")
	v.Assert("status codes", len(op.Responses) == 3, "not the responses that the handler gives")
	m, ok := op.Responses[st].Content["text/plain"]
	v.Assert("text", ok && len(op.Responses[st].Content) == 1, "a text is not documented")
	accepts(d, m.Schema, scalar("string", ""), false)
	m, ok = op.Responses[st2].Content["application/json"]
	v.Assert("json", ok && len(op.Responses[st2].Content) == 1, "a JSON response is not documented")
	accepts(d, m.Schema, list(s), false)
	_, ok = op.Responses["299"]
	v.Assert("last", ok, "the last response is not documented")
	v.Assert("body", (op.RequestBody != nil) == (body < 2), "a body that is not read, or none")
	if op.RequestBody == nil {
		return
	}
	switch body {
	case 0:
		m, ok := op.RequestBody.Content["application/json"]
		v.Assert("json body", ok && len(op.RequestBody.Content) == 1, "the body is not JSON")
		accepts(d, m.Schema, s, false)
	case 1:
		v.Assert("form body", len(op.RequestBody.Content) > 0, "the form is not documented")
		for _, m := range op.RequestBody.Content {
			accepts(d, m.Schema, object(field{f, scalar("string", "")}), false)
		}
	}
}
