package p13

import (
	"errors"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/outputs"
	"github.com/ls6-events/astra/zzverif/hc"
	osx "github.com/ls6-events/astra/zzverif/osx"
	"github.com/ls6-events/astra/zzverif/v"
)

var events []string

func callback(name string, fail bool, err error) astra.ServiceFunction {
	return func(*astra.Service) error {
		events = append(events, name)
		if fail {
			return err
		}
		return nil
	}
}

func service(opts ...astra.Option) *astra.Service {
	osx.Reset(hc.WD)
	osx.Put("/w/go.mod", "module m\n")
	osx.Put("/w/main.go", "package main\n")
	events = nil
	return astra.New(append([]astra.Option{astra.WithConfig(hc.Config())}, opts...)...)
}

// H_Stages: any callbacks fail.
func H_Stages() {
	s := service()
	if v.Bool("work dir") {
		s.WorkDir = hc.WD
	}
	s.CacheEnabled = v.Bool("cache")
	if v.Bool("cli") {
		s.CLIMode = astra.CLIModeBuilder
	}
	n, m := v.Choose("inputs", 3), v.Choose("outputs", 3)
	if v.Thorough() {
		n, m = v.Choose("more inputs", 4), v.Choose("more outputs", 4)
	}
	var want []string
	var first error
	add := func(name string) (bool, error) {
		err := errors.New(name)
		fail := v.Bool("fails " + name)
		return fail, err
	}
	type step struct {
		name string
		fail bool
		err  error
	}
	var creates, parses, generates []step
	for i := 0; i < n; i++ {
		cf, ce := add("create" + hc.Digit(i))
		pf, pe := add("parse" + hc.Digit(i))
		s.Inputs = append(s.Inputs, astra.Input{Mode: "m", CreateRoutes: callback("create"+hc.Digit(i), cf, ce), ParseRoutes: callback("parse"+hc.Digit(i), pf, pe)})
		creates, parses = append(creates, step{"create" + hc.Digit(i), cf, ce}), append(parses, step{"parse" + hc.Digit(i), pf, pe})
	}
	for i := 0; i < m; i++ {
		gf, ge := add("generate" + hc.Digit(i))
		s.Outputs = append(s.Outputs, astra.Output{Mode: "o", Generate: callback("generate"+hc.Digit(i), gf, ge)})
		generates = append(generates, step{"generate" + hc.Digit(i), gf, ge})
	}
	err := s.Parse()
	if n == 0 || m == 0 {
		v.Assert("incomplete", err != nil && len(events) == 0 && len(osx.Ops) == 0, "parsing without input or output is no error, or does something")
		return
	}
	for _, st := range append(append(creates, parses...), generates...) {
		if first != nil {
			break
		}
		want = append(want, st.name)
		if st.fail {
			first = st.err
		}
	}
	v.Assert("order", len(events) == len(want), "wrong number of stages ran")
	for i := range want {
		if i < len(events) {
			v.Assert("stage", events[i] == want[i], "the stages run out of order")
		}
	}
	if first == nil {
		v.Assert("success", err == nil, "parsing fails without a cause")
	} else {
		v.Assert("error", errors.Is(err, first), "the error of a stage is lost or replaced")
	}
}

// H_Halves: the halves fail alike, and a failed first half is not completed by Parse.
func H_Halves() {
	s := service()
	s.WorkDir = hc.WD
	n, m := v.Choose("inputs", 2), v.Choose("outputs", 2)
	for i := 0; i < n; i++ {
		s.Inputs = append(s.Inputs, astra.Input{Mode: "m", CreateRoutes: callback("c", false, nil), ParseRoutes: callback("p", false, nil)})
	}
	for i := 0; i < m; i++ {
		s.Outputs = append(s.Outputs, astra.Output{Mode: "o", Generate: callback("g", false, nil)})
	}
	var err error
	want := ""
	if v.Bool("second") {
		err, want = s.CompleteParse(), "pg"
	} else {
		err, want = s.SetupParse(), "c"
	}
	got := ""
	for _, e := range events {
		got += e
	}
	if n*m == 0 {
		v.Assert("incomplete", err != nil && got == "" && len(osx.Ops) == 0, "parsing without input or output is no error, or does something")
	} else {
		v.Assert("complete", err == nil && got == want, "the wrong stages run")
	}
}

// stat reports whether op only asks.
func stat(op string) bool { return op == "stat" }

// H_Faults: any file operation fails, with the real outputs.
func H_Faults() {
	s := service()
	if v.Bool("work dir") {
		s.WorkDir = hc.WD
	}
	s.CacheEnabled = v.Bool("cache")
	if s.CacheEnabled && v.Bool("older cache") {
		osx.Put("/w/.astra/cache.json", "{}")
	}
	if v.Bool("leftovers") {
		osx.Put("/w/.astra/astramain/main.go", "package astramain\n")
		osx.Put("/w/.astra/azure/f/function.json", "{}")
		osx.Put("/w/fns/f/function.json", "{}")
		osx.Put("/w/o.json", "{}")
	}
	s.Inputs = []astra.Input{{Mode: "m", CreateRoutes: callback("c", false, nil), ParseRoutes: func(s *astra.Service) error {
		s.Routes = []astra.Route{{Handler: "m.f", Method: "GET", Path: "/p", ReturnTypes: hc.Nil()}}
		return nil
	}}}
	mark := func(name string) { s.Outputs = append(s.Outputs, astra.Output{Generate: callback(name, false, nil)}) }
	kind := v.Choose("output", 3)
	mark("before")
	[]astra.Option{outputs.WithOpenAPIOutput("o"), outputs.WithJSONOutput("o"), outputs.WithAzureFunctionsOutput("fns")}[kind](s)
	mark("after")
	k := v.Choose("fault", 40)
	fault := []error{osx.ErrInjected, osx.ErrPermission, osx.ErrExist, osx.ErrPartial}[v.Choose("error", 4)]
	n := 0
	op, late := "", false
	osx.Fault = func(o, p string) error {
		n++
		if n == k+1 {
			op = o
			late = len(events) > 0 && events[len(events)-1] == "after" && !s.CacheEnabled
			return fault
		}
		return nil
	}
	err := s.Parse()
	osx.Fault = nil
	if op == "" {
		v.Assert("no fault", err == nil, "parsing fails without a fault")
		return
	}
	v.Reach("fault " + op)
	if err != nil {
		v.Assert("cause", errors.Is(err, fault), "the failure of a file operation is replaced by another error")
		for i, e := range events {
			if e == "after" && i+1 < len(events) {
				v.Assert("later", false, "stages run after the last")
			}
		}
		return
	}
	// Success: nothing depended on the failed operation.
	if late || stat(op) {
		return
	}
	if len(events) > 0 && events[len(events)-1] == "after" {
		// The cache's write after the last output, or teardown, which only logs: the cache must be complete.
		t := astra.New(astra.WithCustomWorkDir(hc.WD))
		v.Assert("cache", t.LoadCache() == nil && hc.SameRoutes(t.Routes, s.Routes), "a cache that could not be written is not reported")
		return
	}
	v.Assert("swallowed", false, "a failed file operation is not reported")
}
