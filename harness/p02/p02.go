package p02

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

func expressible(m string) bool {
	for _, x := range hc.Methods {
		if x == m {
			return true
		}
	}
	return false
}

func route(id string, rich bool, methods ...string) astra.Route {
	p := "/" + v.String(id+".p", 1, "ab")
	if v.Bool(id + ".param") {
		p += "/:" + v.String(id+".param", 1, "xy")
	}
	doc, op := v.String(id+".doc", 1, "dD"), v.String(id+".op", 1, "oO")
	if rich {
		doc, op = v.StringUpTo(id+".doc0", 0, 2, "dD\n\""), v.StringUpTo(id+".op0", 0, 1, "oO")
	}
	return astra.Route{
		Handler: "main.h", Method: v.Pick(id+".method", methods...), Path: p, Doc: doc, OperationID: op,
		ReturnTypes: []astra.ReturnType{{StatusCode: 200, Field: astra.Field{Type: "nil"}}},
	}
}

func docPath(p string) string {
	for i := 0; i < len(p); i++ {
		if p[i] == ':' {
			return p[:i] + "{" + p[i+1:] + "}"
		}
	}
	return p
}

func check(routes []astra.Route) {
	for i := range routes {
		for j := 0; j < i; j++ {
			v.Assume(routes[i].Method != routes[j].Method || routes[i].Path != routes[j].Path)
		}
	}
	s := hc.Service()
	s.Routes = append([]astra.Route{}, routes...)
	d, ok := hc.Doc(s)
	if !ok {
		return
	}
	n := 0
	for _, r := range routes {
		if !expressible(r.Method) {
			continue
		}
		n++
		p, ok := d.Paths[docPath(r.Path)]
		v.Assert("path", ok, "a route's path is not in the document")
		op := hc.Op(p, r.Method)
		v.Assert("operation", op != nil, "a route has no operation")
		if op != nil {
			v.Assert("operation id", op.OperationID == r.OperationID, "wrong operation id")
			v.Assert("description", op.Description == r.Doc, "wrong description")
			_, ok = op.Responses["200"]
			v.Assert("response", ok && len(op.Responses) == 1, "wrong responses")
		}
	}
	got := 0
	for _, p := range d.Paths {
		got += hc.Ops(p)
	}
	v.Assert("count", got == n, "the document has other operations")
}

// H_Pair: two routes with any methods.
func H_Pair() {
	all := append([]string{"CONNECT"}, hc.Methods...)
	check([]astra.Route{route("r0", v.Thorough(), all...), route("r1", false, all...)})
}

// H_Three: three routes.
func H_Three() {
	check([]astra.Route{route("r0", false, "GET", "POST"), route("r1", false, "GET", "PATCH"), route("r2", false, "PUT", "POST")})
}

// H_Texts: any description and operation id.
func H_Texts() {
	check([]astra.Route{route("r0", true, "GET", "TRACE"), route("r1", false, "GET")})
}

// H_None: a service without routes.
func H_None() {
	check(nil)
}

func simple(method, path string) astra.Route {
	return astra.Route{Handler: "main.h", Method: method, Path: path, ReturnTypes: hc.Nil()}
}

// slashed is an arbitrary clean path, which may end in a slash.
func slashed(id string) string {
	p := "/" + v.StringUpTo(id, 0, 4, "aA/")
	for i := 1; i < len(p); i++ {
		v.Assume(v.Not(v.And(p[i] == '/', p[i-1] == '/')))
	}
	return p
}

// H_Slashes: paths which differ in a trailing slash, in case or in depth are different paths.
func H_Slashes() {
	check([]astra.Route{simple("GET", slashed("p0")), simple(v.Pick("method", "GET", "POST"), slashed("p1"))})
}

// H_Long: any longer path, description and operation id.
func H_Long() {
	n := 14
	if v.Thorough() {
		n = 24
	}
	r := simple("GET", "/p")
	switch v.Choose("what", 3) {
	case 0:
		r.Path = "/" + hc.Name("path", n)
	case 1:
		r.Doc = v.StringUpTo("doc", 1, n, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.: @/")
	case 2:
		r.OperationID = hc.Name("op", n)
	}
	check([]astra.Route{r, simple("POST", "/q")})
}
