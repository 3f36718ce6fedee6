package p22

import (
	"encoding/json"
	"path"
	"strings"

	"github.com/ls6-events/astra"
	jsonOutput "github.com/ls6-events/astra/outputs/json"
	"github.com/ls6-events/astra/outputs/openapi"
	"github.com/ls6-events/astra/zzverif/hc"
	osx "github.com/ls6-events/astra/zzverif/osx"
	"github.com/ls6-events/astra/zzverif/v"
	"gopkg.in/yaml.v3"
)

func read(s *astra.Service) (out jsonOutput.JSONOutput, ok bool) {
	routes, components := hc.CopyRoutes(s.Routes), hc.CopyFields(s.Components)
	v.Assert("generates", jsonOutput.Generate("j.json")(s) == nil, "generation fails")
	b, ok := osx.Get(hc.WD + "/j.json")
	v.Assert("written", ok, "nothing was written")
	err := json.Unmarshal(b, &out)
	v.Assert("decodes", err == nil, "the output does not decode")
	v.Assert("service", hc.SameRoutes(routes, s.Routes) && hc.SameFields(components, s.Components), "generating changed the service")
	return out, ok && err == nil
}

// H_Route: every aspect of a route, and pairs of them, survive.
func H_Route() {
	s := hc.Service()
	r := astra.Route{Handler: "h", Method: "GET", Path: "/p"}
	a := v.Choose("aspect", hc.RouteAspects)
	hc.SetRoute("r", &r, a, astra.Field{Type: "string"})
	if v.Thorough() {
		hc.SetRoute("t", &r, (a+1+v.Choose("other", hc.RouteAspects-1))%hc.RouteAspects, astra.Field{Type: "int"})
	}
	s.Routes = append(s.Routes, r, astra.Route{Handler: "last"})
	if v.Bool("first") {
		s.Routes = append([]astra.Route{{Handler: "first", Method: "PUT"}}, s.Routes...)
	}
	out, ok := read(s)
	if ok {
		v.Assert("routes", hc.SameRoutes(out.Routes, s.Routes), "a route is altered or lost")
		v.Assert("components", len(out.Components) == 0, "a component came up")
	}
}

// H_Field: every aspect of a field, as component and anywhere in a route, survives.
func H_Field() {
	s := hc.Service()
	var f astra.Field
	hc.SetField("f", &f, v.Choose("aspect", hc.FieldAspects))
	if v.Thorough() {
		hc.SetField("g", &f, v.Choose("other", hc.FieldAspects))
	}
	var r astra.Route
	switch v.Choose("place", 7) {
	case 0:
		s.Components = []astra.Field{{Name: "C"}, f, {Name: "D"}}
	case 1:
		r.PathParams = []astra.Param{{Field: f}}
	case 2:
		r.QueryParams = []astra.Param{{Field: f}}
	case 3:
		r.Body = []astra.BodyParam{{Field: f}}
	case 4:
		r.ReturnTypes = []astra.ReturnType{{Field: f}}
	case 5:
		r.RequestHeaders = []astra.Param{{Field: f}}
	default:
		r.ResponseHeaders = []astra.Param{{Field: f}}
	}
	s.Routes = []astra.Route{r}
	out, ok := read(s)
	if ok {
		v.Assert("routes", hc.SameRoutes(out.Routes, s.Routes), "a route is altered or lost")
		v.Assert("components", hc.SameFields(out.Components, s.Components), "a component is altered or lost")
	}
}

// H_Path: where the outputs go, and in which format.
func H_Path() {
	s := hc.Service()
	osx.PutDir(hc.WD + "/d")
	osx.PutDir("/w/wd")
	osx.PutDir("/w/wd/d")
	s.WorkDir = v.Pick("wd", hc.WD, hc.WD+"/wd", hc.WD+"/")
	s.Routes = []astra.Route{{Handler: "main.f", Method: "GET", Path: "/p", ReturnTypes: hc.Nil()}}
	p := v.Pick("dir", "", "d/", "./", "/d/") + v.StringUpTo("base", 1, 2, "ab.js") + v.Pick("suffix", "", ".json", ".yaml", ".yml", ".JSON", ".jso", "json", "yaml", ".json.yml", ".yaml.json", ".yaml.txt")
	if strings.HasSuffix(p, ".") {
		v.Assume(!strings.HasSuffix(p, "/.") && p != "." && p != ".." && !strings.HasSuffix(p, "/.."))
	}
	isJSON := v.Bool("json output")
	y := !isJSON && (strings.HasSuffix(p, ".yaml") || strings.HasSuffix(p, ".yml"))
	want := p
	if !strings.HasSuffix(p, ".json") && !y {
		want += ".json"
	}
	want = path.Join(s.WorkDir, want)
	g := openapi.Generate(p)
	if isJSON {
		g = jsonOutput.Generate(p)
	}
	for i := 0; i < 2; i++ {
		v.Assert("generates", g(s) == nil, "generation fails")
		n := 0
		for _, f := range osx.Snapshot() {
			if f.Dir {
				continue
			}
			n++
			v.Assert("place", f.Path == want, "the output went elsewhere")
			v.Assert("format", len(f.Data) > 0 && (f.Data[0] == '{') == !y, "the output has the wrong format")
		}
		v.Assert("one file", n == 1, "not exactly one file was written")
	}
}

// norm drops empty objects and lists, which the formats may spell or omit.
func norm(x any) any {
	switch x := x.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, y := range x {
			if n := norm(y); n != nil {
				m[k] = n
			}
		}
		if len(m) == 0 {
			return nil
		}
		return m
	case []any:
		var l []any
		for _, y := range x {
			l = append(l, norm(y))
		}
		if len(l) == 0 {
			return nil
		}
		return l
	}
	return x
}

func equal(a, b any) bool {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, e := range x {
			f, ok := y[k]
			if !ok || !equal(e, f) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return b != nil && hc.SameValue(a, b)
}

// H_Formats: the YAML document is the JSON document.
func H_Formats() {
	s := hc.Service()
	f := hc.Tagged(v.Pick("type", "string", "int", "any", "byte"), v.String("name", 1, "ab-"), "json")
	f.Doc = v.StringUpTo("doc", 0, 1, "xy:#")
	f.IsRequired = v.Bool("required")
	s.Components = []astra.Field{hc.Component("q", "S", map[string]astra.Field{"F": f})}
	r := astra.Route{Handler: "main.f", Method: v.Pick("method", "GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE"), Path: "/p", Doc: v.String("rdoc", 1, "x-"), OperationID: "o", ReturnTypes: hc.Nil()}
	sf := astra.Field{Type: "S", Package: "q"}
	switch v.Choose("shape", 9) {
	case 0:
		r.ReturnTypes = []astra.ReturnType{{StatusCode: v.Int("status", 200, 203), ContentType: v.Pick("ct", "application/json", "text/plain"), Field: sf}}
	case 1:
		r.Body = []astra.BodyParam{{IsBound: true, ContentType: "application/json", Field: sf}}
	case 2:
		r.QueryParams = []astra.Param{{Name: "n", Field: astra.Field{Type: "string"}, IsRequired: v.Bool("qr"), IsArray: v.Bool("qa"), IsMap: v.Bool("qm")}}
	case 3:
		r.ResponseHeaders = []astra.Param{{Name: "n", Field: astra.Field{Type: "int"}, IsRequired: v.Bool("hr")}}
	case 4:
		s.Components[0].StructFields["E"] = astra.Field{Type: "Enum", Package: "q"}
		s.Components = append(s.Components, astra.Field{Package: "q", Name: "Enum", Type: "int", EnumValues: []any{v.Int("enum", -2, 2), 5}})
	case 5:
		s.Components[0].StructFields["M"] = astra.Field{Type: "map", MapKeyType: "string", MapValueType: "int"}
		s.Components[0].StructFields["L"] = astra.Field{Type: "slice", SliceType: v.Pick("el", "string", "bool")}
	case 6:
		s.Components[0].StructFields["A"] = astra.Field{Type: "array", ArrayType: "string", ArrayLength: int64(v.Int("length", 0, 3))}
	case 7:
		s.Components[0].StructFields["B"] = astra.Field{Type: "E", Package: "q", IsEmbedded: true}
		s.Components = append(s.Components, hc.Component("q", "E", map[string]astra.Field{"X": {Type: "string"}}))
	default:
		r.Body = []astra.BodyParam{{Name: "n", ContentType: "application/x-www-form-urlencoded", Field: astra.Field{Type: "string"}, IsRequired: v.Bool("br")}}
	}
	s.Routes = []astra.Route{r}
	s.Config = &astra.Config{Title: v.StringUpTo("title", 0, 1, "t\""), Description: v.StringUpTo("description", 0, 1, "d"), Version: "1", Contact: astra.Contact{Name: "c", URL: "u", Email: "e"}, License: astra.License{Name: "l", URL: "w"}, Host: "h", Port: 80}
	ext := v.Pick("ext", ".yaml", ".yml")
	v.Assert("generates", openapi.Generate("o.json")(s) == nil && openapi.Generate("o"+ext)(s) == nil, "generation fails")
	b, _ := osx.Get(hc.WD + "/o.json")
	c, _ := osx.Get(hc.WD + "/o" + ext)
	var j, y map[string]any
	v.Assert("json", json.Unmarshal(b, &j) == nil && len(j) > 0, "the JSON document does not decode")
	v.Assert("yaml", yaml.Unmarshal(c, &y) == nil && len(y) > 0, "the YAML document does not decode")
	v.Assert("same", equal(norm(j), norm(y)), "the YAML document differs from the JSON document")
}
