package p26

import (
	"errors"
	"regexp"
	"strconv"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/cache"
	"github.com/ls6-events/astra/cli"
	"github.com/ls6-events/astra/inputs"
	"github.com/ls6-events/astra/outputs"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

type model struct {
	config       *astra.Config
	content      astra.Config
	workDir      string
	cache        bool
	cachePath    string
	mode         astra.CLIMode
	deny, custom int
	inputs       int
	outputs      []astra.OutputMode
	paths        []string
	mapping      map[string]astra.TypeFormat
}

const options = 13

func option(id string, k int, m *model) astra.Option {
	switch k {
	case 0:
		c := &astra.Config{Title: v.StringUpTo(id+".title", 0, 1, "tu"), Port: 1}
		m.config, m.content = c, *c
		return astra.WithConfig(c)
	case 1:
		m.workDir = "/" + v.String(id+".wd", 1, "ab")
		return astra.WithCustomWorkDir(m.workDir)
	case 2:
		m.cache = true
		return cache.WithCache()
	case 3:
		m.cache = true
		m.cachePath = v.String(id+".cache", 1, "cd")
		return cache.WithCustomCachePath(m.cachePath)
	case 4:
		m.cache = true
		m.mode = astra.CLIModeSetup
		return cli.WithCLI()
	case 5:
		m.mode = astra.CLIModeBuilder
		return cli.WithCLIBuilder()
	case 6:
		m.deny++
		return astra.WithPathDenyList("/x")
	case 7:
		m.deny++
		return astra.WithPathDenyListFunc(func(string) bool { return true })
	case 8:
		m.custom++
		return astra.WithCustomFunc(func(string, *astra.ContextFuncBuilder) (*astra.Route, error) { return nil, nil })
	case 9:
		key, t := v.String(id+".key", 1, "kl"), v.String(id+".type", 1, "st")
		m.mapping[key] = astra.TypeFormat{Type: t}
		return astra.WithCustomTypeMappingSingle(key, t, "")
	case 10:
		m.inputs++
		return inputs.WithGinInput(nil)
	case 11:
		p := v.String(id+".path", 1, "pq")
		m.paths = append(m.paths, p)
		m.outputs = append(m.outputs, outputs.OutputModeOpenAPI)
		return outputs.WithOpenAPIOutput(p)
	default:
		p := v.String(id+".path", 1, "pq")
		m.paths = append(m.paths, p)
		if v.Bool(id + ".azure") {
			m.outputs = append(m.outputs, outputs.OutputModeAzureFunctions)
			return outputs.WithAzureFunctionsOutput(p)
		}
		m.outputs = append(m.outputs, outputs.OutputModeJSON)
		return outputs.WithJSONOutput(p)
	}
}

// H_Options: each option sets exactly what it names, in any sequence of three.
func H_Options() {
	m := &model{mapping: map[string]astra.TypeFormat{}}
	n := 3
	var opts []astra.Option
	for i := 0; i < n; i++ {
		id := "o" + string(rune('0'+i))
		opts = append(opts, option(id, v.Choose(id, options), m))
	}
	s := astra.New(opts...)
	v.Assert("config", s.Config == m.config, "wrong config")
	v.Assert("content", m.config == nil || *m.config == m.content, "an option changes the config")
	v.Assert("work dir", s.WorkDir == m.workDir, "wrong working directory")
	v.Assert("cache", s.CacheEnabled == m.cache && s.CachePath == m.cachePath, "wrong cache settings")
	v.Assert("mode", s.CLIMode == m.mode, "wrong CLI mode")
	v.Assert("deny list", len(s.PathDenyList) == m.deny, "wrong deny list")
	v.Assert("custom functions", len(s.CustomFuncs) == m.custom, "wrong custom functions")
	v.Assert("inputs", len(s.Inputs) == m.inputs, "wrong inputs")
	for _, in := range s.Inputs {
		v.Assert("input", in.Mode == inputs.InputModeGin && in.CreateRoutes != nil && in.ParseRoutes != nil, "an input is incomplete")
	}
	v.Assert("outputs", len(s.Outputs) == len(m.outputs), "wrong outputs")
	for i, o := range s.Outputs {
		v.Assert("output mode", o.Mode == m.outputs[i] && o.Generate != nil, "an output is incomplete")
		key := astra.IOConfigurationKeyFilePath
		if m.outputs[i] == outputs.OutputModeAzureFunctions {
			key = astra.IOConfigurationKeyDirectoryPath
		}
		p, ok := o.Configuration[key].(string)
		v.Assert("output path", ok && p == m.paths[i] && len(o.Configuration) == 1, "an output's configuration is wrong")
	}
	v.Assert("mappings", len(s.CustomTypeMapping) == len(m.mapping), "wrong type mappings")
	for k, t := range m.mapping {
		v.Assert("mapping", s.CustomTypeMapping[k] == t, "a type mapping differs")
	}
	v.Assert("empty", len(s.Routes) == 0 && len(s.Components) == 0, "a new service is not empty")
}

// H_Deny: deny entries match exactly what they say.
func H_Deny() {
	p := v.StringUpTo("path", 1, 3, "/ab")
	e := v.StringUpTo("entry", 1, 3, "/ab")
	s := astra.New(astra.WithPathDenyList(e), astra.WithPathDenyListRegex(regexp.MustCompile("^/a+$")), astra.WithPathDenyListFunc(func(x string) bool { return x == "/b" }))
	v.Assert("exact", s.PathDenyList[0](p) == (p == e), "an exact entry matches something else")
	re := len(p) > 1 && p[0] == '/'
	for i := 1; i < len(p); i++ {
		if p[i] != 'a' {
			re = false
		}
	}
	v.Assert("regexp", s.PathDenyList[1](p) == re, "a regular expression entry matches wrongly")
	v.Assert("function", s.PathDenyList[2](p) == (p == "/b"), "a function entry matches wrongly")
}

func config() astra.Config {
	return astra.Config{
		Title: v.StringUpTo("title", 0, 1, "t"), Description: v.StringUpTo("description", 0, 1, "d"), Version: v.StringUpTo("version", 0, 1, "v"),
		Contact: astra.Contact{Name: v.String("contact", 1, "nm"), URL: "u", Email: "e"},
		License: astra.License{Name: v.String("license", 1, "lm"), URL: "w"},
		Secure:  v.Bool("secure"),
		Host:    v.StringUpTo("host", 0, 2, "ho."), BasePath: v.StringUpTo("base", 0, 2, "/b"), Port: v.Int("port", -1, 70000),
	}
}

// H_Validate: defaults only where empty, port zero rejected, nothing else changed.
func H_Validate() {
	c := config()
	w := c
	if w.Host == "" {
		w.Host = "localhost"
	}
	if w.BasePath == "" {
		w.BasePath = "/"
	}
	port := c.Port
	err := c.Validate()
	if port == 0 {
		v.Assert("port", errors.Is(err, astra.ErrConfigPortRequired), "port 0 is not rejected")
		return
	}
	v.Assert("valid", err == nil, "a config with a port is rejected")
	v.Assert("defaults", c == w, "validation changed something else, or missed a default")
}

// H_Builder: the builder sets exactly the named fields, in any order of three setters.
func H_Builder() {
	c := config()
	b := astra.NewConfigBuilder()
	var w astra.Config
	for i := 0; i < 3; i++ {
		switch v.Choose("set"+string(rune('0'+i)), 8) {
		case 0:
			b, w.Title = b.SetTitle(c.Title), c.Title
		case 1:
			b, w.Description = b.SetDescription(c.Description), c.Description
		case 2:
			b, w.Version = b.SetVersion(c.Version), c.Version
		case 3:
			b, w.Contact = b.SetContact(c.Contact), c.Contact
		case 4:
			b, w.License = b.SetLicense(c.License), c.License
		case 5:
			b, w.Secure = b.SetSecure(c.Secure), c.Secure
		case 6:
			b, w.Host = b.SetHost(c.Host), c.Host
		case 7:
			b, w.BasePath = b.SetBasePath(c.BasePath), c.BasePath
		}
	}
	if v.Bool("with port") {
		b, w.Port = b.SetPort(c.Port), c.Port
	}
	got, err := b.Build()
	if w.Port == 0 {
		v.Assert("port", err != nil && got == nil, "port 0 is not rejected")
		return
	}
	if w.Host == "" {
		w.Host = "localhost"
	}
	if w.BasePath == "" {
		w.BasePath = "/"
	}
	v.Assert("built", err == nil && got != nil && *got == w, "the built config differs")
}

// H_Empty: contacts and licenses with empty parts are kept as they are, through the builder, validation and the document.
func H_Empty() {
	c := astra.Contact{Name: v.StringUpTo("contact", 0, 1, "n"), URL: v.StringUpTo("url", 0, 1, "u"), Email: v.StringUpTo("email", 0, 1, "e")}
	l := astra.License{Name: v.StringUpTo("license", 0, 1, "l"), URL: v.StringUpTo("terms", 0, 1, "w")}
	b := astra.NewConfigBuilder().SetTitle("t").SetPort(1)
	if v.Bool("license first") {
		b = b.SetLicense(l).SetContact(c)
	} else {
		b = b.SetContact(c).SetLicense(l)
	}
	got, err := b.Build()
	v.Assert("built", err == nil && *got == astra.Config{Title: "t", Port: 1, Host: "localhost", BasePath: "/", Contact: c, License: l}, "the built config differs")
	s := hc.Service()
	astra.WithConfig(got)(s)
	d, ok := hc.Doc(s)
	if ok {
		v.Assert("contact", d.Info.Contact.Name == c.Name && d.Info.Contact.URL == c.URL && d.Info.Contact.Email == c.Email, "wrong contact")
		v.Assert("license", d.Info.License.Name == l.Name && d.Info.License.URL == l.URL, "wrong license")
	}
}

// H_Info: the document's info and server URL.
func H_Info() {
	c := config()
	c.Port = v.Int("port2", 1, 65535)
	w := c
	s := hc.Service()
	s.Config = &c
	d, ok := hc.Doc(s)
	if !ok {
		return
	}
	if w.Description == "" {
		w.Description = "Generated by astra"
	}
	v.Assert("title", d.Info.Title == w.Title && d.Info.Version == w.Version && d.Info.Description == w.Description, "wrong texts")
	v.Assert("contact", d.Info.Contact.Name == w.Contact.Name && d.Info.Contact.URL == "u" && d.Info.Contact.Email == "e", "wrong contact")
	v.Assert("license", d.Info.License.Name == w.License.Name && d.Info.License.URL == "w", "wrong license")
	u := "http://"
	if w.Secure {
		u = "https://"
	}
	u += w.Host + ":" + strconv.Itoa(w.Port) + w.BasePath
	v.Assert("server", len(d.Servers) == 1 && d.Servers[0].URL == u, "wrong server URL")
}

// H_Texts: the text given to an option is what the service has, whatever it is.
func H_Texts() {
	n := 5
	if v.Thorough() {
		n = 9
	}
	t := v.StringUpTo("text", 0, n, "/.aB \\-")
	var o astra.Option
	k := v.Choose("option", 8)
	switch k {
	case 0:
		o = astra.WithCustomWorkDir(t)
	case 1:
		o = cache.WithCustomCachePath(t)
	case 2:
		o = astra.WithCustomTypeMappingSingle(t, "t", "f")
	case 3:
		o = astra.WithCustomTypeMappingSingle("k", t, t)
	case 4:
		o = astra.WithCustomTypeMapping(map[string]astra.TypeFormat{"k": {Type: t, Format: t}})
	case 5:
		o = outputs.WithOpenAPIOutput(t)
	case 6:
		o = outputs.WithJSONOutput(t)
	default:
		o = outputs.WithAzureFunctionsOutput(t)
	}
	// Twice, since options can be used for several services.
	for i := 0; i < 2; i++ {
		s := astra.New(o)
		wd, cp := "", ""
		switch k {
		case 0:
			wd = t
		case 1:
			cp = t
		case 2:
			m, ok := s.CustomTypeMapping[t]
			v.Assert("key", ok && len(s.CustomTypeMapping) == 1 && m == astra.TypeFormat{Type: "t", Format: "f"}, "a mapping is not under the given key")
		case 3, 4:
			v.Assert("mapping", len(s.CustomTypeMapping) == 1 && s.CustomTypeMapping["k"] == astra.TypeFormat{Type: t, Format: t}, "a mapping is not the given one")
		default:
			key := astra.IOConfigurationKeyFilePath
			if k == 7 {
				key = astra.IOConfigurationKeyDirectoryPath
			}
			v.Assert("outputs", len(s.Outputs) == 1, "not one output")
			got, ok := s.Outputs[0].Configuration[key].(string)
			v.Assert("path", ok && got == t && len(s.Outputs[0].Configuration) == 1, "an output's path is not the given one")
		}
		v.Assert("work dir", s.WorkDir == wd, "wrong working directory")
		v.Assert("cache", s.CacheEnabled == (k == 1) && s.CachePath == cp, "wrong cache settings")
	}
}
