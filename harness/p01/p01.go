package p01

import (
	filepath "github.com/ls6-events/astra/zzverif/filepathx"
	"reflect"
	"regexp"
	"runtime"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/inputs"
	gin "github.com/ls6-events/astra/zzverif/ginx"
	"github.com/ls6-events/astra/zzverif/hc"
	osx "github.com/ls6-events/astra/zzverif/osx"
	"github.com/ls6-events/astra/zzverif/v"
)

func first(c *gin.Context) {}

func second(c *gin.Context) {
	_ = c
}

var third = func(c *gin.Context) {}

type receiver struct{}

func (receiver) fourth(c *gin.Context) {}

func handler(i int) gin.HandlerFunc {
	switch i {
	case 0:
		return first
	case 1:
		return second
	case 2:
		return third
	}
	return receiver{}.fourth
}

// where is the place of a handler as its route records it.
func where(h gin.HandlerFunc) (string, int) {
	pc := reflect.ValueOf(h).Pointer()
	file, line := runtime.FuncForPC(pc).FileLine(pc)
	if file == "<autogenerated>" {
		return file, line // a method value
	}
	rel, _ := filepath.Rel(hc.WD, file)
	return rel, line
}

type entry struct {
	option astra.Option
	match  func(string) bool
}

// deny makes an arbitrary deny entry and its own predicate.
func deny(id string) entry {
	switch v.Choose(id+".kind", 3) {
	case 0:
		p := "/" + v.StringUpTo(id+".exact", 1, 2, "ab:*")
		return entry{astra.WithPathDenyList(p), func(x string) bool { return x == p }}
	case 1:
		re := regexp.MustCompile(v.Pick(id+".re", "^/a", "b$", "/[^b]"))
		return entry{astra.WithPathDenyListRegex(re), re.MatchString}
	}
	c := v.String(id+".byte", 1, "ab:")[0]
	f := func(x string) bool { return len(x) > 1 && x[1] == c }
	return entry{astra.WithPathDenyListFunc(f), f}
}

// H_Routes: a router of up to 3 routes against up to 2 deny entries.
func H_Routes() {
	n := v.Choose("routes", 4)
	m := v.Choose("entries", 3)
	if !v.Thorough() && n == 3 && m == 2 {
		n = 2
	}
	check(n, m)
}

func check(n, m int) {
	e := &gin.Engine{}
	off := 0
	if n == 2 {
		off = v.Choose("handler", 4)
	}
	for i := 0; i < n; i++ {
		id := "r" + string(rune('0'+i))
		h := handler((i + off) % 4)
		e.List = append(e.List, gin.RouteInfo{Method: v.String(id+".method", 1, "GP"), Path: "/" + v.StringUpTo(id+".path", 1, 2, "ab:*"), Handler: "x." + v.String(id+".name", 1, "fg"), HandlerFunc: h})
		if n == 1 && v.Bool("any method") {
			e.List[0].Method = v.StringUpTo("method", 1, 7, "ACDEGHILNOPRSTU")
		}
	}
	var es []entry
	for i := 0; i < m; i++ {
		es = append(es, deny("d"+string(rune('0'+i))))
	}
	osx.Reset(hc.WD)
	opts := []astra.Option{astra.WithCustomWorkDir(hc.WD)}
	// The order of options does not matter.
	before := v.Choose("before", 2)
	if before == 1 {
		opts = append(opts, inputs.WithGinInput(e))
	}
	for _, d := range es {
		opts = append(opts, d.option)
	}
	if before == 0 {
		opts = append(opts, inputs.WithGinInput(e))
	}
	s := astra.New(opts...)
	s.Components = []astra.Field{{Package: "q", Name: "T", Type: "int"}}
	s.Routes = []astra.Route{{Path: "/old", Method: "GET", Handler: "x.old"}}
	err := s.CreateRoutes()
	v.Assert("created", err == nil, "creating the routes fails")
	want := s.Routes[:1]
	v.Assert("kept", want[0].Path == "/old" && want[0].Handler == "x.old", "an earlier route is lost")
	got := s.Routes[1:]
	for _, r := range e.List {
		no := false
		for _, d := range es {
			no = d.match(r.Path) || no
		}
		if no {
			continue
		}
		v.Assert("missing", len(got) > 0, "a route is missing")
		if len(got) == 0 {
			return
		}
		g := got[0]
		got = got[1:]
		file, line := where(r.HandlerFunc)
		v.Assert("route", v.And(g.Path == r.Path, g.Method == r.Method, g.Handler == r.Handler), "a route is recorded under another path, method or handler name")
		v.Assert("place", g.File == file && g.LineNo == line, "a route is recorded with another handler's file or line")
		v.Assert("fresh", len(g.PathParams)+len(g.QueryParams)+len(g.Body)+len(g.ReturnTypes)+len(g.RequestHeaders)+len(g.ResponseHeaders) == 0 && g.Doc == "" && g.OperationID == "", "a new route already documents something")
	}
	v.Assert("more", len(got) == 0, "a denied or unregistered route is recorded")
	v.Assert("rest", len(s.Components) == 1 && len(s.Inputs) == 1 && len(s.Outputs) == 0 && s.Config == nil && len(s.PathDenyList) == m && len(osx.Ops) == 0, "creating routes changes something else")
}

// H_Many: more routes and entries, with fewer kinds.
func H_Many() {
	n := 4
	if v.Thorough() {
		n = 6
	}
	e := &gin.Engine{}
	var opts []astra.Option
	a, b := v.String("a", 1, "ab"), v.String("b", 1, "ab")
	opts = append(opts, astra.WithPathDenyList("/"+a), astra.WithPathDenyListFunc(func(p string) bool { return p == "/"+b+"/" }), astra.WithPathDenyListRegex(regexp.MustCompile("^/c.$")))
	for i := 0; i < n; i++ {
		id := "r" + string(rune('0'+i))
		e.List = append(e.List, gin.RouteInfo{Method: "GET", Path: "/" + v.StringUpTo(id+".path", 1, 2, "abc/"), Handler: id, HandlerFunc: first})
	}
	osx.Reset(hc.WD)
	s := astra.New(append(opts, astra.WithCustomWorkDir(hc.WD), inputs.WithGinInput(e))...)
	v.Assert("created", s.CreateRoutes() == nil, "creating the routes fails")
	i := 0
	for _, r := range e.List {
		if v.Or(r.Path == "/"+a, r.Path == "/"+b+"/", len(r.Path) == 3 && r.Path[1] == 'c') {
			continue
		}
		v.Assert("missing", i < len(s.Routes), "a route is missing")
		if i >= len(s.Routes) {
			return
		}
		v.Assert("route", v.And(s.Routes[i].Path == r.Path, s.Routes[i].Handler == r.Handler), "a route is recorded out of order")
		i++
	}
	v.Assert("more", i == len(s.Routes), "a denied or unregistered route is recorded")
}

// H_Inputs: several inputs add their routes in order; a failing working directory is an error.
func H_Inputs() {
	n := 1 + v.Choose("inputs", 2)
	osx.Reset(hc.WD)
	opts := []astra.Option{astra.WithCustomWorkDir(hc.WD)}
	var want []gin.RouteInfo
	for i := 0; i < n; i++ {
		e := &gin.Engine{}
		for j := v.Choose("routes"+string(rune('0'+i)), 3); j > 0; j-- {
			e.List = append(e.List, gin.RouteInfo{Method: "GET", Path: "/" + v.StringUpTo("p"+string(rune('0'+i))+string(rune('0'+j)), 0, 2, "ab"), Handler: "x.f", HandlerFunc: handler(v.Choose("h"+string(rune('0'+i))+string(rune('0'+j)), 4))})
		}
		want = append(want, e.List...)
		opts = append(opts, inputs.WithGinInput(e))
	}
	s := astra.New(opts...)
	fail := v.Bool("fail")
	if fail {
		osx.Fault = func(op, p string) error {
			if op == "getwd" {
				return osx.ErrInjected
			}
			return nil
		}
	}
	err := s.CreateRoutes()
	if err != nil {
		v.Assert("failed", fail, "creating routes fails without a reason")
		return
	}
	v.Assert("count", len(s.Routes) == len(want), "wrong number of routes")
	for i, r := range s.Routes {
		if i < len(want) {
			_, line := where(want[i].HandlerFunc)
			v.Assert("order", v.And(r.Path == want[i].Path, r.LineNo == line), "routes are out of order")
		}
	}
}
