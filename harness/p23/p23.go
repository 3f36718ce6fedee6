package p23

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs/azureFunctions"
	"github.com/ls6-events/astra/utils"
	"github.com/ls6-events/astra/zzverif/hc"
	osx "github.com/ls6-events/astra/zzverif/osx"
	"github.com/ls6-events/astra/zzverif/v"
)

const dir = hc.WD + "/fns"

// generate writes the output and returns the functions by directory name.
func generate(s *astra.Service) (names []string, fns []azureFunctions.AzureFunctionsOutput) {
	err := azureFunctions.Generate("fns")(s)
	v.Assert("generates", err == nil, "generation fails")
	if err != nil {
		return
	}
	for _, f := range osx.Snapshot() {
		if !strings.HasPrefix(f.Path, dir+"/") {
			continue
		}
		rest := f.Path[len(dir)+1:]
		i := strings.IndexByte(rest, '/')
		if f.Dir {
			v.Assert("directories", i < 0, "a directory in a function's directory")
			continue
		}
		v.Assert("files", i > 0 && rest[i:] == "/function.json", "another file was written")
		var out azureFunctions.AzureFunctionsOutput
		v.Assert("decodes", json.Unmarshal(f.Data, &out) == nil, "a function does not decode")
		names = append(names, rest[:i])
		fns = append(fns, out)
	}
	return names, fns
}

// trigger checks what all functions have in common and returns the trigger.
func trigger(f azureFunctions.AzureFunctionsOutput) azureFunctions.AzureFunctionsBinding {
	v.Assert("bindings", len(f.Bindings) == 2, "not exactly two bindings")
	if len(f.Bindings) != 2 {
		return azureFunctions.AzureFunctionsBinding{}
	}
	t, r := f.Bindings[0], f.Bindings[1]
	v.Assert("trigger", t.Type == "httpTrigger" && t.Direction == "in" && t.Name == "req" && len(t.Methods) == 2 && t.Methods[1] == "options", "wrong trigger")
	v.Assert("response", r.Type == "http" && r.Direction == "out" && r.Name == "res" && len(r.Methods) == 0 && r.Route == "", "wrong response binding")
	return t
}

var types = []struct{ goType, azure string }{
	{"string", "alpha"}, {"int", "long"}, {"int32", "int"}, {"int64", "long"}, {"uint", "long"}, {"uint32", "int"}, {"uint64", "long"},
	{"float32", "float"}, {"float64", "double"}, {"bool", "bool"}, {"time.Time", "datetime"}, {"github.com/google/uuid.UUID", "guid"},
}

// H_Convert: the trigger's route, for every path.
func H_Convert() {
	n := 3
	if v.Thorough() {
		n = 4
	}
	p, segs := hc.GinPath("p", n, 2, "al{")
	s := hc.Service()
	osx.PutDir(hc.WD + "/.astra")
	params := utils.ExtractParamsFromPath(p)
	s.Routes = []astra.Route{{Handler: "main.f", Method: "GET", Path: p, PathParams: params}}
	_, fns := generate(s)
	if len(fns) != 1 {
		v.Assert("one", false, "not exactly one function")
		return
	}
	want := ""
	for _, g := range segs {
		switch g.Kind {
		case 's':
			want += g.Text
		case ':':
			want += "{" + g.Text + ":alpha}"
		default:
			want += "{" + g.Text + ":alpha?}"
		}
	}
	v.Assert("route", trigger(fns[0]).Route == want, "the trigger's route is wrong")
}

// H_Types: every type of a parameter, and names that contain each other or type names.
func H_Types() {
	s := hc.Service()
	osx.PutDir(hc.WD + "/.astra")
	t, u := types[v.Choose("t", len(types))], types[v.Choose("u", len(types))]
	a, b := v.Pick("a", "x", "al", "alpha", "i"), v.Pick("b", "a", "l", "in", "xx", "pha", "d")
	opt := v.Bool("rest")
	p := "/s/:" + a
	want := "/s/{" + a + ":" + t.azure + "}"
	if opt {
		p += "/*" + b
		want += "/{" + b + ":" + u.azure + "?}"
	} else {
		p += "/:" + b + "/e"
		want += "/{" + b + ":" + u.azure + "}/e"
	}
	ps := []astra.Param{{Name: a, IsRequired: true, Field: astra.Field{Type: t.goType}}, {Name: b, IsRequired: !opt, Field: astra.Field{Type: u.goType}}}
	if v.Bool("swap") {
		ps[0], ps[1] = ps[1], ps[0]
	}
	s.Routes = []astra.Route{{Handler: "main.f", Method: "GET", Path: p, PathParams: ps}}
	_, fns := generate(s)
	v.Assert("one", len(fns) == 1, "not exactly one function")
	if len(fns) == 1 {
		v.Assert("route", trigger(fns[0]).Route == want, "the trigger's route is wrong")
	}
}

// H_Functions: one function per route, whatever routes share.
func H_Functions() {
	s := hc.Service()
	// What an earlier run left is no part of the output.
	if v.Bool("leftover") {
		osx.Put(hc.WD+"/.astra/azure/old/function.json", "{}")
	}
	if v.Bool("previous") {
		osx.Put(dir+"/old/function.json", "{}")
		osx.Put(dir+"/"+"f/function.json", "{}")
	}
	n := v.Choose("routes", 4)
	for i := 0; i < n; i++ {
		id := hc.Digit(i)
		s.Routes = append(s.Routes, astra.Route{Path: "/" + v.String("path"+id, 1, "ab"), Method: v.Pick("method"+id, "GET", "HEAD"),
			Handler: v.Pick("handler"+id, "main.f", "github.com/u/r.v1/p.f", "main.f_2", "main.main.func1")})
	}
	names, fns := generate(s)
	v.Assert("count", len(fns) == n, "not one function per route")
	if len(fns) != n {
		return
	}
	used := map[int]bool{}
	for i, f := range fns {
		t := trigger(f)
		found := false
		for j, r := range s.Routes {
			want := r.Handler[strings.LastIndexByte(r.Handler, '.')+1:]
			if found || used[j] || t.Route != r.Path || t.Methods[0] != strings.ToLower(r.Method) {
				continue
			}
			shared := 0
			for k, o := range s.Routes {
				if k != j && o.Handler[strings.LastIndexByte(o.Handler, '.')+1:] == want {
					shared++
				}
			}
			// A function no other route has gives the directory its name, unless a shared one took it.
			if names[i] == want || (shared > 0 || want == "f_2") && strings.HasPrefix(names[i], want) {
				found = true
				used[j] = true
			}
		}
		v.Assert("function", found, "a function is no route's, or not named after its handler")
	}
}

// H_Same: many routes of one handler each have a function of their own.
func H_Same() {
	n := 2 + v.Choose("routes", 12)
	if v.Thorough() {
		n = 2 + v.Choose("more routes", 40)
	}
	s := hc.Service()
	osx.PutDir(hc.WD + "/.astra")
	f, g := "main."+v.String("f", 1, "ab"), "main."+v.String("g", 1, "bc")
	for i := 0; i < n; i++ {
		h := f
		if i%5 == 4 {
			h = g
		}
		s.Routes = append(s.Routes, astra.Route{Path: "/" + strconv.Itoa(i), Method: "GET", Handler: h})
	}
	_, fns := generate(s)
	v.Assert("count", len(fns) == n, "not one function per route")
	for i := 0; i < n; i++ {
		found := 0
		for _, f := range fns {
			if trigger(f).Route == "/"+strconv.Itoa(i) {
				found++
			}
		}
		v.Assert("once", found == 1, "a route has no function, or several")
	}
}

// H_Names: any method, a longer path, and a longer function name in a package of any longer name.
func H_Names() {
	n := 12
	if v.Thorough() {
		n = 20
	}
	s := hc.Service()
	osx.PutDir(hc.WD + "/.astra")
	r := astra.Route{Path: "/p", Method: v.Pick("method", append([]string{"CONNECT"}, hc.Methods...)...), Handler: "main.f"}
	name := "f"
	switch v.Choose("what", 3) {
	case 0:
		r.Path = "/" + hc.Name("path", n)
	case 1:
		name = "f" + v.StringUpTo("name", 0, n, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_")
		r.Handler = "main." + name
	case 2:
		r.Handler = "m/" + v.StringUpTo("package", 1, n, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_") + ".f"
	}
	s.Routes = []astra.Route{r}
	names, fns := generate(s)
	v.Assert("one", len(fns) == 1, "not exactly one function")
	if len(fns) != 1 {
		return
	}
	v.Assert("name", names[0] == name, "the directory is not named after the function")
	t := trigger(fns[0])
	v.Assert("route", t.Route == r.Path, "the trigger's route is wrong")
	v.Assert("method", t.Methods[0] == strings.ToLower(r.Method), "the trigger's method is wrong")
}
