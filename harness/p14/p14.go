package p14

import (
	"path"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/cache"
	"github.com/ls6-events/astra/cli"
	"github.com/ls6-events/astra/outputs"
	"github.com/ls6-events/astra/zzverif/hc"
	osx "github.com/ls6-events/astra/zzverif/osx"
	"github.com/ls6-events/astra/zzverif/v"
)

func under(p, dir string) bool { return p == dir || dir == "/" || strings.HasPrefix(p, dir+"/") }

// project fills the file system with a project and its surroundings.
func project(leftovers, older bool) {
	osx.Reset(hc.WD)
	osx.Put("/w/go.mod", "module m\n")
	osx.Put("/w/main.go", "package main\n")
	osx.Put("/w/main_test.go", "package main\n")
	osx.Put("/w/note.json", "note")
	osx.Put("/w/cache.json", "user")
	osx.Put("/w/azure/f/keep.go", "package f\n")
	osx.Put("/w/astramain/keep.go", "package astramain\n")
	osx.Put("/w/sub/keep.go", "package sub\n")
	osx.Put("/w/sub/.astra/keep", "keep")
	osx.Put("/x/go.mod", "module x\n")
	if leftovers {
		osx.Put("/w/.astra/astramain/gone.go", "package astramain\n")
		osx.Put("/w/.astra/azure/gone/function.json", "{}")
		osx.Put("/w/.astra/keep", "keep")
	}
	if older {
		osx.Put("/w/fns/old/function.json", "{}")
		osx.Put("/w/o.json", "{}")
		osx.Put("/w/o.yaml", "a: b")
	}
}

type run struct {
	opts    []astra.Option
	allowed []string // what may be touched, with everything below
	refused bool     // a directory that cannot be an output
}

func (r *run) file(p string, yaml bool) {
	if !strings.HasSuffix(p, ".json") && !(yaml && (strings.HasSuffix(p, ".yaml") || strings.HasSuffix(p, ".yml"))) {
		p += ".json"
	}
	r.allowed = append(r.allowed, path.Join(hc.WD, p))
}

func (r *run) dir(p string) {
	p = path.Join(hc.WD, p)
	if under("/w/.astra/azure", p) {
		r.refused = true
		return
	}
	r.allowed = append(r.allowed, p)
}

// check compares the file system with what it was.
func (r *run) check(before []osx.Node) {
	after := osx.Snapshot()
	may := func(p string) bool {
		for _, a := range r.allowed {
			if under(p, a) {
				return true
			}
		}
		return under(p, "/w/.astra")
	}
	for _, b := range before {
		if may(b.Path) {
			continue
		}
		found := false
		for _, a := range after {
			if a.Path == b.Path {
				found = true
				v.Assert("changed", a.Dir == b.Dir && string(a.Data) == string(b.Data), "a run changes a file that is none of its outputs")
			}
		}
		v.Assert("deleted", found, "a run deletes something that is none of its outputs")
	}
	for _, a := range after {
		if may(a.Path) {
			continue
		}
		found := false
		for _, b := range before {
			found = found || a.Path == b.Path
		}
		v.Assert("created", found, "a run creates something that is none of its outputs")
	}
}

// gone checks what is left of astra's own directory after a successful run.
func gone(s *astra.Service, leftovers bool) {
	if !s.CacheEnabled && s.CLIMode == astra.CLIModeNone {
		v.Assert("directory", !osx.Exists("/w/.astra"), "astra's directory is left behind")
		return
	}
	v.Assert("main package", !osx.Exists("/w/.astra/astramain"), "the temporary main package is left behind")
	v.Assert("ignored", osx.Exists("/w/.astra/.gitignore"), "the rest of astra's directory is gone")
	if leftovers {
		v.Assert("rest", osx.Exists("/w/.astra/keep"), "the rest of astra's directory is gone")
	}
	if s.CacheEnabled {
		p := s.CachePath
		if p == "" {
			p = "/w/.astra/cache.json"
		}
		_, ok := osx.Get(p)
		v.Assert("cache", ok, "the cache is gone")
	}
}

func routes(n int) astra.Option {
	return func(s *astra.Service) {
		s.Inputs = append(s.Inputs, astra.Input{Mode: "gin", CreateRoutes: func(s *astra.Service) error {
			for i := 0; i < n; i++ {
				s.AddRoute(astra.Route{Handler: "main.f" + hc.Digit(i), Method: "GET", Path: "/p" + hc.Digit(i), ReturnTypes: hc.Nil()})
			}
			return nil
		}, ParseRoutes: func(s *astra.Service) error {
			_, err := s.GetMainPackageName()
			return err
		}})
	}
}

func (r *run) mode(leftovers bool) {
	switch v.Choose("mode", 5) {
	case 4:
		// A path for a cache that is not enabled is no reason to touch what is there.
		if v.Bool("builder") {
			r.opts = append(r.opts, cli.WithCLIBuilder())
		}
		r.opts = append(r.opts, func(s *astra.Service) { s.CachePath = "/w/note.json" })
	case 1:
		r.opts = append(r.opts, cli.WithCLI())
	case 2:
		r.opts = append(r.opts, cli.WithCLIBuilder())
	case 3:
		p := v.Pick("cache", "", "/w/c.yaml", "/w/c.json", "/w/cache.json")
		if p == "" {
			r.opts = append(r.opts, cache.WithCache())
		} else {
			r.opts = append(r.opts, cache.WithCustomCachePath(p))
			r.allowed = append(r.allowed, p)
		}
	}
}

// workDir sets the working directory, or leaves it to the service.
func (r *run) workDir() {
	switch v.Choose("work dir", 3) {
	case 0:
		r.opts = append(r.opts, astra.WithCustomWorkDir(hc.WD))
	case 1:
		r.opts = append(r.opts, astra.WithCustomWorkDir("/w/"))
	}
}

// H_Runs: whole runs, in every mode.
func H_Runs() {
	left := v.Bool("leftovers")
	project(left, left)
	count, where := 2, 0
	if v.Thorough() {
		count = v.Choose("routes", 3)
		where = 3
	}
	r := &run{opts: []astra.Option{astra.WithConfig(hc.Config()), routes(count)}}
	if where == 0 {
		r.opts = append(r.opts, astra.WithCustomWorkDir(hc.WD))
	} else {
		r.workDir()
	}
	n := 1 + v.Choose("outputs", 2)
	for i := 0; i < n; i++ {
		id := "o" + hc.Digit(i)
		switch v.Choose(id, 3) {
		case 0:
			p := v.Pick(id+".openapi", "o", "o.yaml", "sub/o.yml", "note")
			r.opts = append(r.opts, outputs.WithOpenAPIOutput(p))
			r.file(p, true)
		case 1:
			p := v.Pick(id+".json", "o.json", "sub/o.yaml", "../x/o")
			r.opts = append(r.opts, outputs.WithJSONOutput(p))
			r.file(p, false)
		default:
			p := v.Pick(id+".azure", "fns", "sub/fns", "../x/fns", "sub")
			r.opts = append(r.opts, outputs.WithAzureFunctionsOutput(p))
			r.dir(p)
		}
	}
	r.mode(left)
	before := osx.Snapshot()
	s := astra.New(r.opts...)
	err := s.Parse()
	r.check(before)
	if n == 1 {
		v.Assert("succeeds", err == nil, "a run fails without a cause")
	}
	if err == nil {
		gone(s, left)
	}
}

// H_Dirs: any output directory or file name.
func H_Dirs() {
	project(false, v.Bool("older outputs"))
	r := &run{}
	r.workDir()
	r.opts = append(r.opts, astra.WithConfig(hc.Config()), routes(1))
	max := 3
	if v.Thorough() {
		max = 4
	}
	p := ""
	switch v.Choose("kind", 4) {
	case 0:
		p = v.StringUpTo("dir", 0, max, "./w")
	case 1:
		p = v.Pick("special", "sub/..", "../w", "../w/", "./fns/", "fns/../sub", ".astra", ".astra/", ".astra/azure", ".astra/azure/f", ".astra/astramain", ".astra/..", "..", "/", "/w", "../.astra", "fns/.astra", ".astra/other", "azure", ".astr", ".")
	case 2:
		p = v.StringUpTo("name", 1, 2, "ab.")
		r.opts = append(r.opts, outputs.WithOpenAPIOutput(p))
		r.file(p, true)
	default:
		p = v.StringUpTo("name", 1, 2, "ab.")
		r.opts = append(r.opts, outputs.WithJSONOutput(p))
		r.file(p, false)
	}
	if len(r.allowed) == 0 {
		r.opts = append(r.opts, outputs.WithAzureFunctionsOutput(p))
		r.dir(p)
	}
	before := osx.Snapshot()
	s := astra.New(r.opts...)
	err := s.Parse()
	r.check(before)
	if r.refused {
		v.Assert("refused", err != nil, "an output directory that holds the project is accepted")
	}
	if err == nil {
		gone(s, false)
	}
}

// H_Faults: any one or two file operations fail.
func H_Faults() {
	left, older := v.Bool("leftovers"), v.Bool("older outputs")
	project(left, older)
	r := &run{opts: []astra.Option{astra.WithConfig(hc.Config()), routes(2)}}
	if v.Bool("work dir") {
		r.opts = append(r.opts, astra.WithCustomWorkDir(hc.WD))
	}
	switch v.Choose("output", 3) {
	case 0:
		r.opts = append(r.opts, outputs.WithOpenAPIOutput("o.yaml"))
		r.file("o.yaml", true)
	case 1:
		r.opts = append(r.opts, outputs.WithJSONOutput("o"))
		r.file("o", false)
	default:
		r.opts = append(r.opts, outputs.WithAzureFunctionsOutput("fns"))
		r.dir("fns")
	}
	cached := v.Bool("cached")
	if cached {
		r.opts = append(r.opts, cache.WithCustomCachePath("/w/c.json"))
		r.allowed = append(r.allowed, "/w/c.json")
	}
	before := osx.Snapshot()
	k := v.Choose("fault", 40)
	again := v.Bool("twice")
	n := 0
	failed := ""
	osx.Fault = func(o, p string) error {
		n++
		if n == k+1 || again && n == k+2 {
			failed = o + " " + p
			return osx.ErrInjected
		}
		return nil
	}
	s := astra.New(r.opts...)
	err := s.Parse()
	osx.Fault = nil
	r.check(before)
	// Teardown reports what it cannot remove in the log alone.
	if err == nil && failed != "removeall /w/.astra" && failed != "removeall /w/.astra/astramain" && failed != "stat /w/.astra/astramain" && failed != "stat /w/.astra/.gitignore" {
		gone(s, left)
	}
}

// H_Cache: the cache's own functions touch the cache alone, wherever it is.
func H_Cache() {
	project(v.Bool("leftovers"), false)
	s := astra.New(astra.WithConfig(hc.Config()), astra.WithCustomWorkDir(hc.WD))
	r := &run{}
	p := v.Pick("cache", "", "/w/c.yaml", "/w/cache.json", "/w/sub", "/w", "/w/sub/c.json")
	if p != "" {
		cache.WithCustomCachePath(p)(s)
	}
	if p != "/w" && p != "/w/sub" {
		r.allowed = append(r.allowed, p)
	}
	if p == "" {
		osx.PutDir("/w/.astra")
		r.allowed = nil
	}
	before := osx.Snapshot()
	n := 1 + v.Choose("steps", 3)
	for i := 0; i < n; i++ {
		switch v.Choose("step"+hc.Digit(i), 3) {
		case 0:
			s.Cache()
		case 1:
			s.ClearCache()
		default:
			now := osx.Snapshot()
			s.LoadCache()
			r2 := &run{}
			r2.check(now)
			after := osx.Snapshot()
			v.Assert("loads", len(after) == len(now), "loading the cache changes files")
		}
	}
	r.check(before)
}
