package p11

import (
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/cache"
	"github.com/ls6-events/astra/inputs"
	"github.com/ls6-events/astra/outputs"
	"github.com/ls6-events/astra/zzverif/hc"
	osx "github.com/ls6-events/astra/zzverif/osx"
	"github.com/ls6-events/astra/zzverif/v"
)

var files = []string{"", "/w/c.json", "/w/c.yaml", "/w/c.yml", "/w/d/c.json"}

// service makes a service that caches to an arbitrary one of the supported places.
func service(opts ...astra.Option) *astra.Service {
	osx.Reset(hc.WD)
	osx.PutDir("/w/d")
	osx.PutDir("/w/.astra")
	opts = append(opts, astra.WithCustomWorkDir(hc.WD))
	if f := files[v.Choose("file", len(files))]; f == "" {
		opts = append(opts, cache.WithCache())
	} else {
		opts = append(opts, cache.WithCustomCachePath(f))
	}
	return astra.New(opts...)
}

// reload caches s and loads the cache into a fresh service that held something else.
func reload(s *astra.Service) *astra.Service {
	if v.Bool("over an older cache") {
		f := s.CachePath
		if f == "" {
			f = "/w/.astra/cache.json"
		}
		older := "{\"components\": [{\"name\": \"older\"}, {\"name\": \"and longer than what comes\"}]}   }}}"
		if v.Bool("longer") {
			older += strings.Repeat("older\n", 1500)
		}
		osx.Put(f, older)
		defer func() {
			// The same as without one.
			b, _ := osx.Get(f)
			osx.Remove(f)
			v.Assert("caches", s.Cache() == nil, "caching fails")
			c, _ := osx.Get(f)
			v.Assert("replaced", string(b) == string(c), "an older cache is not replaced in full")
		}()
	}
	v.Assert("caches", s.Cache() == nil, "caching fails")
	t := astra.New(astra.WithCustomWorkDir(hc.WD), astra.WithCustomTypeMappingSingle("old", "t", "f"))
	t.CachePath = s.CachePath
	t.Routes = []astra.Route{{Handler: "old"}}
	t.GetTypeMapping("int", "")
	var err error
	if s.CachePath != "" && v.Bool("custom path") {
		err = t.LoadCacheFromCustomPath(s.CachePath)
	} else {
		err = t.LoadCache()
	}
	v.Assert("loads", err == nil, "loading the cache fails")
	return t
}

func compare(s, t *astra.Service) {
	v.Assert("routes", hc.SameRoutes(s.Routes, t.Routes), "a route is not restored")
	v.Assert("components", hc.SameFields(s.Components, t.Components), "a component is not restored")
	v.Assert("config", (s.Config == nil) == (t.Config == nil) && (s.Config == nil || *s.Config == *t.Config), "the configuration is not restored")
	v.Assert("inputs", len(s.Inputs) == len(t.Inputs), "an input is not restored")
	for i := range s.Inputs {
		v.Assert("input", i < len(t.Inputs) && s.Inputs[i].Mode == t.Inputs[i].Mode, "an input mode is not restored")
	}
	v.Assert("outputs", len(s.Outputs) == len(t.Outputs), "an output is not restored")
	for i, o := range s.Outputs {
		if i < len(t.Outputs) {
			p := t.Outputs[i]
			v.Assert("output", o.Mode == p.Mode && len(o.Configuration) == len(p.Configuration), "an output mode is not restored")
			for k, x := range o.Configuration {
				y, ok := p.Configuration[k].(string)
				v.Assert("output configuration", ok && x == y, "an output's configuration is not restored")
			}
		}
	}
	v.Assert("mappings", len(s.CustomTypeMapping) == len(t.CustomTypeMapping), "a type mapping is not restored")
	for k, x := range s.CustomTypeMapping {
		y, ok := t.CustomTypeMapping[k]
		v.Assert("mapping", ok && x == y, "a type mapping is not restored")
	}
	for k := range s.CustomTypeMapping {
		x, okx := s.GetTypeMapping(k, "p")
		y, oky := t.GetTypeMapping(k, "p")
		v.Assert("lookup", x == y && okx == oky, "a restored type mapping has no effect")
	}
}

// H_Route: every aspect of a route.
func H_Route() {
	s := service()
	r := astra.Route{Handler: "h", Method: "GET", Path: "/p"}
	a := v.Choose("aspect", hc.RouteAspects)
	hc.SetRoute("r", &r, a, astra.Field{Type: "string"})
	s.Routes = append(s.Routes, r, astra.Route{Handler: "last"})
	compare(s, reload(s))
}

// H_Field: every aspect of a field, as component and anywhere in a route.
func H_Field() {
	s := service()
	var f astra.Field
	a := v.Choose("aspect", hc.FieldAspects)
	hc.SetField("f", &f, a)
	if v.Thorough() {
		hc.SetField("g", &f, (a+1+v.Choose("other", hc.FieldAspects-1))%hc.FieldAspects)
	}
	if v.Bool("component") {
		s.Components = []astra.Field{f, {Name: "D"}}
	} else {
		s.Routes = []astra.Route{{ReturnTypes: []astra.ReturnType{{Field: f}}, RequestHeaders: []astra.Param{{Field: f}}}}
	}
	compare(s, reload(s))
}

// H_Settings: configuration, inputs, outputs and type mappings.
func H_Settings() {
	var opts []astra.Option
	switch v.Choose("part", 4) {
	case 0:
		opts = append(opts, astra.WithConfig(&astra.Config{Title: v.StringUpTo("title", 0, 1, "t:#"), Description: "d", Version: v.String("version", 1, "1v"), Secure: v.Bool("secure"), Host: v.StringUpTo("host", 0, 1, "h"), BasePath: "/b", Port: v.Int("port", 0, 99),
			Contact: astra.Contact{Name: v.String("contact", 1, "nm"), URL: "u", Email: "e"}, License: astra.License{Name: "l", URL: v.String("url", 1, "u\"")}}))
	case 1:
		for i := v.Choose("inputs", 3); i > 0; i-- {
			opts = append(opts, inputs.WithGinInput(nil))
		}
	case 2:
		n := 1 + v.Choose("outputs", 2)
		for i := 0; i < n; i++ {
			id := hc.Digit(i)
			p := v.StringUpTo("path"+id, 0, 2, "a/.\"")
			switch v.Choose("mode"+id, 3) {
			case 0:
				opts = append(opts, outputs.WithOpenAPIOutput(p))
			case 1:
				opts = append(opts, outputs.WithJSONOutput(p))
			default:
				opts = append(opts, outputs.WithAzureFunctionsOutput(p))
			}
		}
	default:
		n := v.Choose("mappings", 3)
		for i := 0; i < n; i++ {
			id := hc.Digit(i)
			opts = append(opts, astra.WithCustomTypeMappingSingle(v.Pick("key"+id, "int", "p.T", "old", "p.U"), v.String("type"+id, 1, "s:"), v.StringUpTo("format"+id, 0, 1, "f-")))
		}
	}
	s := service(opts...)
	compare(s, reload(s))
}

// H_Pipeline: every stage that caches writes the service as it is then.
func H_Pipeline() {
	s := service()
	s.CLIMode = astra.CLIModeSetup
	text := v.String("text", 1, "ab")
	stage := v.Choose("stage", 4)
	set := func(i int, name string) astra.ServiceFunction {
		return func(s *astra.Service) error {
			if stage == i {
				s.Components = append(s.Components, astra.Field{Name: name + text})
			}
			return nil
		}
	}
	s.Inputs = []astra.Input{{Mode: "m", CreateRoutes: set(1, "c"), ParseRoutes: set(2, "p")}}
	s.Outputs = []astra.Output{{Mode: "o", Generate: set(3, "g")}}
	if stage == 0 {
		s.Components = []astra.Field{{Name: "first" + text}}
	}
	osx.Put("/w/go.mod", "module m\n")
	v.Assert("setup", s.SetupParse() == nil, "setting up fails")
	if stage > 1 {
		v.Assert("complete", s.CompleteParse() == nil, "completing fails")
	}
	t := astra.New(astra.WithCustomWorkDir(hc.WD))
	t.CachePath = s.CachePath
	v.Assert("loads", t.LoadCache() == nil, "loading the cache fails")
	compare(s, t)
	v.Assert("recorded", len(t.Components) == 1, "the cache does not hold what the stage recorded")
}

const valid = `{"inputs":[{"mode":"gin"}],"outputs":[],"config":{"title":"t","version":"9","host":"g","port":8,"secure":true},"routes":[{"handler":"h"}],"components":[{"name":"c"}],"custom_type_mapping":{"p.k":{"type":"u","format":"g"},"l":{"type":"u","format":""}}}`

// H_Malformed: a cache that cannot be read is an error and changes nothing.
func H_Malformed() {
	osx.Reset(hc.WD)
	osx.PutDir("/w/.astra")
	s := astra.New(astra.WithCustomWorkDir(hc.WD), astra.WithConfig(hc.Config()), inputs.WithGinInput(nil), outputs.WithJSONOutput("j"), astra.WithCustomTypeMappingSingle("p.k", "t", "f"))
	s.Routes = []astra.Route{{Handler: "kept"}}
	s.Components = []astra.Field{{Name: "kept"}}
	config := s.Config
	f := "/w/c" + v.Pick("suffix", ".json", ".yaml", ".yml", ".txt", "json")
	s.CachePath = f
	isJSON := f == "/w/c.json"
	good := false
	switch v.Choose("kind", 6) {
	case 0: // missing
	case 1:
		osx.PutDir(f)
	case 2:
		if !isJSON {
			return
		}
		osx.Put(f, valid[:v.Choose("cut", len(valid))])
	case 3:
		if !isJSON {
			return
		}
		// One byte of a JSON cache is replaced by one that fits nowhere outside a string.
		i := v.Choose("at", 30)
		osx.Put(f, valid[:i]+"\x01"+valid[i+1:])
	case 4:
		// One part, after others that are fine, has the wrong type.
		before := ""
		if v.Bool("others") {
			before = valid[1:len(valid)-1] + ","
		}
		osx.Put(f, "{"+before+`"`+v.Pick("key", "inputs", "outputs", "config", "routes", "components", "custom_type_mapping")+`":`+v.Pick("value", "5", `"x"`, "true")+`}`)
	default:
		osx.Put(f, valid)
		if v.Bool("fault") {
			op := v.Pick("op", "open", "read")
			osx.Fault = func(o, p string) error {
				if o == op && p == f {
					return osx.ErrInjected
				}
				return nil
			}
		} else {
			good = f != "/w/c.txt" && f != "/w/cjson"
		}
	}
	var err error
	if v.Bool("custom path") {
		err = s.LoadCacheFromCustomPath(f)
	} else {
		err = s.LoadCache()
	}
	v.Assert("error", (err == nil) == good, "an unreadable cache is no error, or a good one is")
	if err == nil {
		return
	}
	m := s.CustomTypeMapping["p.k"]
	mapped, known := s.GetTypeMapping("k", "p")
	v.Assert("unchanged", len(s.Routes) == 1 && s.Routes[0].Handler == "kept" && len(s.Components) == 1 && s.Components[0].Name == "kept" && s.Config == config && *config == *hc.Config() && len(s.Inputs) == 1 && s.Inputs[0].ParseRoutes != nil && len(s.Outputs) == 1 && len(s.CustomTypeMapping) == 1 && m.Type == "t" && m.Format == "f" && known && mapped.Type == "t", "a failed load changed the service")
}

// H_Fault: a file operation that fails makes caching fail, unless the cache is right all the same.
func H_Fault() {
	s := service()
	s.Components = []astra.Field{{Name: v.String("name", 1, "ab")}}
	if v.Bool("over an older cache") {
		v.Assert("caches", s.Cache() == nil, "caching fails")
		s.Components = append(s.Components, astra.Field{Name: "more"})
	}
	k := v.Choose("fault", 6)
	n := 0
	hit := false
	osx.Fault = func(op, p string) error {
		n++
		if n == k+1 {
			hit = true
			return osx.ErrInjected
		}
		return nil
	}
	err := s.Cache()
	osx.Fault = nil
	v.Assert("cause", err == nil || hit, "caching fails without a cause")
	if err != nil {
		return
	}
	t := astra.New(astra.WithCustomWorkDir(hc.WD))
	t.CachePath = s.CachePath
	v.Assert("loads", t.LoadCache() == nil && hc.SameFields(s.Components, t.Components), "caching failed silently")
}
