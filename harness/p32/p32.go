package p32

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs/openapi"
	"github.com/ls6-events/astra/zzverif/hc"
	osx "github.com/ls6-events/astra/zzverif/osx"
	"github.com/ls6-events/astra/zzverif/v"
)

// elem is a type and what it is documented as.
type elem struct {
	src  string
	kind string // the schema's type
	prop string // the only property of an object
	enum int    // values
}

var elems = []elem{
	{"error", "string", "", 0},
	{"time.Duration", "integer", "", 0},
	{"*time.Duration", "integer", "", 0},
	{"*error", "string", "", 0},
	{"Err", "string", "", 0},
	{"Dur", "integer", "", 0},
	// Types that share the names.
	{"Duration", "object", "A", 0},
	{"Error", "object", "B", 0},
	{"sub.Duration", "string", "", 2},
	{"sub.Error", "integer", "", 0},
	{"mtime.Duration", "object", "C", 0},
	{"time.Month", "integer", "", 2},
	{"Own", "integer", "", 1},
	{"string", "string", "", 0},
}

const decls = `package h

import (
	"time"
)

type Err = error

type Dur = time.Duration

type Duration struct{ A string }

type Error struct{ B string }

type Own time.Duration

const Second Own = 7
`

const timeSource = `package time

type Duration int64

const (
	Nanosecond  Duration = 1
	Microsecond          = 1000 * Nanosecond
)

type Month int

const (
	January Month = 1 + iota
	February
)
`

const subSource = `package sub

type Duration string

const (
	Short Duration = "s"
	Long  Duration = "l"
)

type Error int
`

func generate(body, more string, clean bool) (*astra.Service, openapi.OpenAPISchema, bool) {
	hc.Program(hc.GinLite, hc.Source("h", "/w/h.go", "package h\n\nimport (\n\t\""+hc.Gin+"\"\n\tmtime \"m/time\"\n\t\"sub\"\n\t\"time\"\n)\n\nvar (\n\t_ time.Duration\n\t_ sub.Error\n\t_ mtime.Duration\n)\n\nfunc f(c *gin.Context) {\n"+body+"\n\tc.Status(299)\n}\n"+more),
		hc.Source("h", "/w/i.go", decls), hc.Source("time", "/t/time.go", timeSource), hc.Source("sub", "/s/s.go", subSource),
		hc.Source("m/time", "/m/time.go", "package mtime\n\ntype Duration struct{ C int }\n"))
	s := hc.Service()
	osx.Put("/w/main.go", "package main\n")
	err := hc.ParseGin(s, hc.Handler("h", "f", "h.go", 16))
	v.Assert("parse", err == nil && len(s.Routes) == 1, "parsing fails")
	if err != nil {
		return s, openapi.OpenAPISchema{}, false
	}
	v.Assert("clean", s.Clean() == nil, "cleaning fails")
	d, ok := hc.Doc(s)
	return s, d, ok
}

// resolve follows references.
func resolve(d openapi.OpenAPISchema, s openapi.Schema) openapi.Schema {
	for i := 0; i < 4 && s.Ref != ""; i++ {
		t, ok := hc.Resolve(d, s.Ref)
		v.Assert("resolves", ok, "a reference leads nowhere")
		s = t
	}
	return s
}

// is checks that a schema is the documentation of a type.
func is(d openapi.OpenAPISchema, s openapi.Schema, e elem) {
	if e.src == "error" || e.src == "*error" || e.src == "Err" {
		v.Assert("error", s.Ref == "", "an error refers to a schema")
	}
	s = resolve(d, s)
	v.Assert("kind", s.Type == e.kind, "a type is not documented as its substitute, or as itself if it has none")
	v.Assert("enum", len(s.Enum) == e.enum, "the values of a type are not its own, or a substituted type has values")
	n := 0
	if e.prop != "" {
		n = 1
		_, ok := s.Properties[e.prop]
		v.Assert("property", ok, "a type's own field is not documented")
	}
	v.Assert("properties", len(s.Properties) == n && s.Items == nil && s.AdditionalProperties == nil, "a type is documented as something else")
}

// has checks the shape of the schema of a type made of e.
func has(d openapi.OpenAPISchema, s openapi.Schema, shape int, e elem) {
	switch shape {
	case 0, 1:
		is(d, s, e)
	case 2, 3, 4:
		s = resolve(d, s)
		v.Assert("items", s.Type == "array" && s.Items != nil, "a slice or an array is not documented as one")
		if s.Items != nil {
			is(d, *s.Items, e)
		}
	case 5, 6:
		s = resolve(d, s)
		v.Assert("values", s.Type == "object" && s.AdditionalProperties != nil, "a map is not documented as one")
		if s.AdditionalProperties != nil {
			is(d, *s.AdditionalProperties, e)
		}
	default:
		s = resolve(d, s)
		p, ok := s.Properties["F"]
		v.Assert("field", ok && len(s.Properties) == 1, "a field is not documented")
		if ok {
			is(d, p, e)
		}
	}
}

// typ writes the type of a shape.
func typ(shape int, e string) string {
	return [...]string{e, "*" + e, "[]" + e, "[]*" + e, "[3]" + e, "map[string]" + e, "map[time.Duration]" + e, "struct{ F " + e + " }"}[shape]
}

// H_Program: substituted and similarly named types in every place of a handler.
func H_Program() {
	e := elems[v.Choose("element", len(elems))]
	shape := v.Choose("shape", 8)
	t := typ(shape, e.src)
	more, place := "", v.Choose("place", 5)
	n := v.String("name", 1, "XY")
	switch place {
	case 1:
		// A field of a named struct.
		more = "\ntype W struct {\n\t" + n + " " + t + "\n}\n"
		t = "W"
	case 2:
		// A named type.
		v.Assume(shape > 1)
		more = "\ntype W" + n + " " + t + "\n"
		t = "W" + n
	case 3:
		// A field of an anonymous struct in a named struct.
		more = "\ntype W struct {\n\tS struct{ " + n + " " + t + " }\n}\n"
		t = "W"
	}
	call := "c.JSON(200, x)"
	if place == 4 {
		call = "c.BindJSON(&x)"
	}
	_, d, ok := generate("\tvar x "+t+"\n\t"+call, more, true)
	if !ok {
		return
	}
	op := d.Paths["/"].Get
	var s openapi.Schema
	if place == 4 {
		v.Assert("body", op.RequestBody != nil, "the body is not documented")
		if op.RequestBody != nil {
			s = op.RequestBody.Content["application/json"].Schema
		}
	} else {
		s = op.Responses["200"].Content["application/json"].Schema
	}
	switch place {
	case 3:
		p, ok := resolve(d, s).Properties["S"]
		v.Assert("struct", ok, "an anonymous struct is not documented")
		s = p
		fallthrough
	case 1:
		p, ok := resolve(d, s).Properties[n]
		v.Assert("place", ok, "a field is not documented")
		s = p
	}
	has(d, s, shape, e)
}

// H_Own: types named like the predeclared one, in their own package.
func H_Own() {
	n := v.String("name", 1, "XY")
	shape := v.Choose("shape", 8)
	v.Assume(shape != 6)
	t := typ(shape, "error")
	call, decl := "\tvar x W\n\tc.JSON(200, x)", "type W struct{ "+n+" "+t+" }\n"
	place := v.Choose("place", 3)
	switch place {
	case 1:
		call, decl = "\tvar x "+t+"\n\tc.JSON(200, x)", ""
	case 2:
		decl = "type W " + t + "\n"
		v.Assume(shape > 1)
		if shape < 7 {
			v.Known("KF02", "kind")
			v.Known("KF02", "property")
			v.Known("KF02", "properties")
			v.Known("KF02", "error")
		}
	}
	hc.Program(hc.GinLite, hc.Source("h", "/w/h.go", "package h\n\nimport \""+hc.Gin+"\"\n\nfunc f(c *gin.Context) {\n"+call+"\n\tc.Status(299)\n}\n\ntype error struct{ E int }\n\n"+decl))
	s := hc.Service()
	osx.Put("/w/main.go", "package main\n")
	err := hc.ParseGin(s, hc.Handler("h", "f", "h.go", 5))
	v.Assert("parse", err == nil && s.Clean() == nil, "parsing or cleaning fails")
	d, ok := hc.Doc(s)
	if !ok || err != nil {
		return
	}
	x := d.Paths["/"].Get.Responses["200"].Content["application/json"].Schema
	if place == 0 {
		p, ok := resolve(d, x).Properties[n]
		v.Assert("place", ok, "a field is not documented")
		x = p
	}
	has(d, x, shape, elem{"own error", "object", "E", 0})
}

// H_Names: components and references of any name.
func H_Names() {
	f := astra.Field{Name: v.StringUpTo("name", 7, 8, "Duration"), Package: v.Pick("parents", "", "main/", "a/", "main.", "vendor/") + v.StringUpTo("package", 3, 5, "time/"), Type: "int64", EnumValues: []any{1, 2}}
	w := f
	if f.Package == "time" && f.Name == "Duration" {
		w.Type, w.EnumValues = "int", nil
	}
	g := astra.Field{Type: v.StringUpTo("type", 4, 5, "error")}
	x := g
	if g.Type == "error" {
		x.Type = "string"
	}
	if v.Bool("other package") {
		g.Package = "h"
		x = g
	}
	h := g
	h.Type, h.SliceType = "slice", g.Type
	y := x
	y.Type, y.SliceType = "slice", x.Type
	s := hc.Service()
	osx.Put("/w/go.mod", "module m\n")
	s.Components = []astra.Field{f}
	s.Routes = []astra.Route{{Path: "/", Method: "GET", QueryParams: []astra.Param{{Name: "error", Field: g}, {Name: "b", Field: f}}, ReturnTypes: []astra.ReturnType{{StatusCode: 200, Field: h}}}}
	want := hc.CopyRoutes(s.Routes)
	want[0].QueryParams[0].Field, want[0].QueryParams[1].Field, want[0].ReturnTypes[0].Field = x, w, y
	v.Assert("clean", s.Clean() == nil, "cleaning fails")
	v.Assert("component", hc.SameFields(s.Components, []astra.Field{w}), "a component is not substituted exactly when it is a substituted type")
	v.Assert("references", hc.SameRoutes(s.Routes, want), "a reference is not substituted exactly when it is to a substituted type")
}

// H_Rest: everything else is as it was.
func H_Rest() {
	var f astra.Field
	a := v.Choose("aspect", hc.FieldAspects)
	hc.SetField("f", &f, a)
	hc.SetField("g", &f, (a+1+v.Choose("second aspect", 3)*4)%hc.FieldAspects)
	s := hc.Service()
	osx.Put("/w/go.mod", "module m\n")
	r := astra.Route{Path: "/", Method: "GET"}
	hc.SetRoute("r", &r, v.Choose("route aspect", hc.RouteAspects), f)
	s.Routes = []astra.Route{r}
	s.Components = []astra.Field{f}
	routes, comps := hc.CopyRoutes(s.Routes), hc.CopyFields(s.Components)
	v.Assert("clean", s.Clean() == nil, "cleaning fails")
	v.Assert("routes", hc.SameRoutes(s.Routes, routes), "cleaning changes a route")
	v.Assert("components", hc.SameFields(s.Components, comps), "cleaning changes a component")
}
