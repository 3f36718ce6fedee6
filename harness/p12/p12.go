package p12

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/cache"
	"github.com/ls6-events/astra/cli"
	"github.com/ls6-events/astra/inputs"
	"github.com/ls6-events/astra/outputs"
	cmd "github.com/ls6-events/astra/zzverif/clicmd"
	cobra "github.com/ls6-events/astra/zzverif/cobrax"
	gin "github.com/ls6-events/astra/zzverif/ginx"
	"github.com/ls6-events/astra/zzverif/hc"
	osx "github.com/ls6-events/astra/zzverif/osx"
	packages "github.com/ls6-events/astra/zzverif/packagesx"
	"github.com/ls6-events/astra/zzverif/v"
)

// run executes the CLI and reports its exit code.
func run(args ...string) (code int) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(osx.ExitCode)
			if !ok {
				panic(r)
			}
			code = e.Code
		}
	}()
	cobra.Args = args
	if err := cmd.Execute(); err != nil {
		return 1
	}
	return 0
}

func handler(c *gin.Context) {}

const ginSource = `package gin
type Context struct{}
func (c *Context) JSON(code int, obj any) {}
`

// The handler's package is this one: the router gives the real function, the program a source of
// the same file, name and line.
const source = `package p12

import "github.com/gin-gonic/gin"

type T struct{ A string }

func handler(c *gin.Context) {
	c.JSON(200, T{})
}
`

const pkg = "github.com/ls6-events/astra/zzverif/p12"

func program() {
	packages.Reset([]packages.Source{{Pkg: "github.com/gin-gonic/gin", File: "/gin/gin.go", Text: ginSource}, {Pkg: pkg, File: "/w/p12.go", Text: source}})
}

// files lists what a run wrote, except astra's own directory.
func files() (out []osx.Node) {
	for _, n := range osx.Snapshot() {
		if n.Path != "/w/.astra" && (len(n.Path) < 10 || n.Path[:10] != "/w/.astra/") {
			out = append(out, n)
		}
	}
	return out
}

func output(id string) astra.Option {
	switch v.Choose(id+".mode", 3) {
	case 0:
		return outputs.WithOpenAPIOutput(v.Pick(id+".path", "o.json", "o.yaml", "p"))
	case 1:
		return outputs.WithJSONOutput(v.String(id+".path", 1, "oj") + v.Pick(id+".extension", "", ".json.json"))
	}
	return outputs.WithAzureFunctionsOutput(v.Pick(id+".path", "f", "g/"))
}

// create stands in for the gin input's first stage, so that file and line are those of the source.
func create(n int, path, text string) astra.Option {
	return func(s *astra.Service) {
		s.Inputs[n].CreateRoutes = func(s *astra.Service) error {
			s.AddRoute(astra.Route{Handler: pkg + ".handler", File: "p12.go", LineNo: 7, Method: "GET", Path: "/" + path + "/:" + text})
			return nil
		}
	}
}

// H_Same: one step, or set up in the program and complete in the CLI.
func H_Same() {
	path, text := v.String("path", 1, "ab"), v.String("param", 1, "xy")
	n := 1 + v.Choose("outputs", 2)
	opts := []astra.Option{astra.WithCustomWorkDir(hc.WD), inputs.WithGinInput(nil), create(0, path, text)}
	opts = append(opts, output("out"))
	if n == 2 {
		opts = append(opts, []astra.Option{outputs.WithOpenAPIOutput("o2.yml"), outputs.WithJSONOutput("o2"), outputs.WithAzureFunctionsOutput("o2")}[v.Choose("second", 3)])
	}
	if v.Bool("mapping") {
		opts = append(opts, astra.WithCustomTypeMappingSingle(v.Pick("mapped", "string", pkg+".T"), "number", v.String("format", 1, "fg")))
	}
	config := func() astra.Option {
		c := hc.Config()
		c.Title = text
		c.Secure = path == "b"
		return astra.WithConfig(c)
	}
	start := func() {
		osx.Reset(hc.WD)
		osx.Put("/w/go.mod", "module m\n")
		osx.Put("/w/main.go", "package main\n")
		program()
	}
	start()
	one := astra.New(append(append([]astra.Option{}, opts...), config())...)
	v.Assert("one step", one.Parse() == nil, "parsing in one step fails")
	want := files()

	start()
	file := v.Pick("cache", "", "/w/c.yaml", "/w/c.json")
	o := append(append([]astra.Option{}, opts...), config(), cli.WithCLI())
	if file != "" {
		o = append(o, cache.WithCustomCachePath(file))
	} else {
		file = v.Pick("name", ".astra/cache.json", "/w/.astra/cache.json")
	}
	two := astra.New(o...)
	v.Assert("set up", two.SetupParse() == nil, "setting up fails")
	if v.Bool("torn down") {
		v.Assert("tear down", two.Teardown() == nil, "tearing down fails")
	}
	v.Assert("generate", run("generate", "-c", file, "--dir", v.Pick("dir", ".", "/w", "/w/")) == 0, "the CLI fails")
	got := files()
	j := 0
	for _, n := range got {
		if n.Path == file {
			continue
		}
		if j >= len(want) {
			v.Assert("more", false, "the CLI writes another file")
			return
		}
		v.Assert("same", n.Path == want[j].Path && n.Dir == want[j].Dir && string(n.Data) == string(want[j].Data), "the CLI writes something else")
		j++
	}
	v.Assert("less", j == len(want), "the CLI misses a file")
}

// H_Modes: what the CLI makes of a cache with arbitrary modes and configurations.
func H_Modes() {
	osx.Reset(hc.WD)
	osx.Put("/w/go.mod", "module m\n")
	program()
	mode := func(id string, known ...string) (string, int) {
		i := v.Choose(id, len(known)+2)
		if i < len(known) {
			return known[i], i
		}
		if i == len(known) {
			return "", -1
		}
		return v.String(id+".other", 2, "gio"), -1
	}
	in, ik := mode("input", "gin")
	text := `{"inputs":[{"mode":"` + in + `"}],"outputs":[`
	ok := ik == 0
	var want []string
	n := 1 + v.Choose("outputs", 2)
	for i := 0; i < n; i++ {
		id := "o" + hc.Digit(i)
		m, k := mode(id, "openapi", "json", "azureFunctions")
		key := v.Pick(id+".key", "filePath", "directoryPath")
		val := v.Pick(id+".value", `"p"`, `"q"`, `""`, "5", "null")
		if i > 0 {
			text += ","
		}
		text += `{"mode":"` + m + `","configuration":{"` + key + `":` + val + `}}`
		good := k >= 0 && (val == `"p"` || val == `"q"`) && (key == "filePath") == (k < 2)
		ok = ok && good
		if good {
			want = append(want, hc.WD+"/"+val[1:2]+[]string{".json", ".json", ""}[k])
		}
	}
	text += `],"config":{"title":"t","port":1},"routes":[],"components":[],"custom_type_mapping":{}}`
	osx.Put("/w/c.json", text)
	code := run("generate", "-c", "/w/c.json", "-d", "/w")
	v.Assert("exit", (code == 0) == ok, "the CLI accepts a bad cache, or refuses a good one")
	if code != 0 {
		for _, f := range []string{"/w/p.json", "/w/q.json", "/w/p", "/w/q"} {
			v.Assert("nothing", !osx.Exists(f), "a refused cache makes outputs")
		}
		return
	}
	for _, f := range want {
		v.Assert("output", osx.Exists(f), "an output is missing")
	}
}

// H_Bad: caches the CLI cannot use.
func H_Bad() {
	osx.Reset(hc.WD)
	osx.Put("/w/go.mod", "module m\n")
	program()
	file := "/w/c.json"
	switch v.Choose("kind", 5) {
	case 0:
	case 1:
		osx.Put(file, v.Pick("text", "", "{", "[]", "5"))
	case 2:
		osx.Put(file, `{"inputs":[],"outputs":[{"mode":"json","configuration":{"filePath":"p"}}]}`)
	case 3:
		osx.Put(file, `{"inputs":[{"mode":"gin"}],"outputs":[]}`)
	default:
		// The program that was cached does not exist any more.
		osx.Put(file, `{"inputs":[{"mode":"gin"}],"outputs":[{"mode":"json","configuration":{"filePath":"p"}}],"routes":[{"handler":"gone.f","file":"x.go","path":"/","method":"GET"}]}`)
	}
	v.Assert("exit", run("generate", "-c", file, "-d", v.Pick("dir", "/w", ".")) == 1, "the CLI reports success")
	v.Assert("nothing", !osx.Exists("/w/p.json"), "a failing run makes outputs")
}
