package p10

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

type want struct {
	typ, format string
	ok          bool
}

func predefined(key string) want {
	switch key {
	case "string":
		return want{"string", "", true}
	case "int":
		return want{"integer", "int32", true}
	case "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64":
		return want{"integer", key, true}
	case "float32", "float64":
		return want{"number", key, true}
	case "bool":
		return want{"boolean", "", true}
	case "byte", "rune":
		return want{"string", key, true}
	case "struct", "map":
		return want{"object", "", true}
	case "slice", "array":
		return want{"array", "", true}
	case "any", "nil":
		return want{"", "", true}
	case "time.Time":
		return want{"string", "date-time", true}
	case "github.com/google/uuid.UUID":
		return want{"string", "uuid", true}
	case "file":
		return want{"string", "binary", true}
	}
	return want{}
}

var builtin = []string{"nil", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool", "byte", "rune", "struct", "map", "slice", "array", "any", "file"}

type query struct{ name, pkg, key string }

func ask(id string) query {
	switch v.Choose(id, 4) {
	case 0:
		n := v.Pick(id+".builtin", builtin...)
		return query{n, v.StringUpTo(id+".ignored", 0, 1, "p"), n}
	case 1:
		return query{"Time", "time", "time.Time"}
	case 2:
		return query{"UUID", "github.com/google/uuid", "github.com/google/uuid.UUID"}
	default:
		n := v.StringUpTo(id+".name", 1, 2, "AB")
		p := v.StringUpTo(id+".pkg", 0, 2, "pq/.")
		return query{n, p, p + "." + n}
	}
}

// H_Mapping: custom mappings win, the last one of a key counts, everything else is predefined.
func H_Mapping() {
	q := ask("q")
	var opts []astra.Option
	type cm struct{ key, typ, format string }
	var ms []cm
	n := v.Choose("customs", 3)
	if n == 2 && !v.Thorough() {
		v.Assume(q.key == "int" || q.key == "time.Time" || q.pkg == "p")
	}
	for i := 0; i < n; i++ {
		id := "c" + string(rune('0'+i))
		k := ""
		switch v.Choose(id, 3) {
		case 0:
			k = v.StringUpTo(id+".key", 1, 3, "ABpq/.")
		case 1:
			k = v.Pick(id+".predefined", "time.Time", "int", "Time", "UUID")
		case 2:
			k = q.key
		}
		m := cm{k, v.String(id+".type", 1, "xy"), v.StringUpTo(id+".format", 0, 1, "fg")}
		ms = append(ms, m)
		if v.Bool(id + ".single") {
			opts = append(opts, astra.WithCustomTypeMappingSingle(m.key, m.typ, m.format))
		} else {
			opts = append(opts, astra.WithCustomTypeMapping(map[string]astra.TypeFormat{m.key: {Type: m.typ, Format: m.format}}))
		}
	}
	other := hc.Service(astra.WithCustomTypeMappingSingle(q.key, "other", "other"))
	if v.Bool("other first") {
		other.GetTypeMapping(q.name, q.pkg)
	}
	s := hc.Service(opts...)
	got, ok := s.GetTypeMapping(q.name, q.pkg)
	w := predefined(q.key)
	for _, m := range ms {
		if m.key == q.key {
			w = want{m.typ, m.format, true}
		}
	}
	v.Assert("known", ok == w.ok, "a mapping is missing or invented")
	if ok && w.ok {
		v.Assert("type", v.And(got.Type == w.typ, got.Format == w.format), "wrong mapping")
	}
	got, ok = s.GetTypeMapping(q.name, q.pkg)
	v.Assert("again", ok == w.ok && got.Type == w.typ && got.Format == w.format, "the second answer differs")
	got, ok = other.GetTypeMapping(q.name, q.pkg)
	v.Assert("other service", ok && got.Type == "other" && got.Format == "other", "a service's mapping leaked into another")
	got, ok = hc.Service().GetTypeMapping(q.name, q.pkg)
	w = predefined(q.key)
	v.Assert("fresh service", ok == w.ok && got.Type == w.typ && got.Format == w.format, "the predefined mappings changed")
}

// H_Component: a mapped component's schema has exactly the mapped type and format.
func H_Component() {
	name := v.StringUpTo("name", 1, 2, "AB")
	pkg := v.StringUpTo("pkg", 1, 2, "pq")
	typ := v.String("type", 1, "xy")
	if v.Bool("known type") {
		typ = v.Pick("known", "object", "array", "string", "integer")
	}
	format := v.StringUpTo("format", 0, 1, "fg")
	key := v.Pick("separator", ".", "/")
	s := hc.Service(astra.WithCustomTypeMappingSingle(pkg+key+name, typ, format))
	c := astra.Field{Name: name, Package: pkg, Type: "int"}
	if v.Bool("struct") {
		c.Type = "struct"
		c.StructFields = map[string]astra.Field{}
	}
	s.Components = []astra.Field{c}
	s.Routes = []astra.Route{{Handler: "main.f", Method: "GET", Path: "/", ReturnTypes: []astra.ReturnType{{StatusCode: 200, ContentType: "application/json", Field: astra.Field{Type: name, Package: pkg}}}}}
	d, ok := hc.Doc(s)
	if !ok {
		return
	}
	sc, ok := d.Components.Schemas[pkg+"."+name]
	v.Assert("schema", ok, "no schema for the component")
	if key == "." {
		v.Assert("mapped", sc.Type == typ && sc.Format == format && len(sc.Properties) == 0 && sc.Items == nil, "the schema is not the mapping")
	} else if c.Type == "struct" {
		v.Assert("unmapped", sc.Type == "object", "an unmapped component is not described by itself")
	} else {
		v.Assert("unmapped", sc.Type == "integer" && sc.Format == "int32", "an unmapped component is not described by itself")
	}
}

// H_Shared: services that are given the same option, or options made from the same map, have nothing else in common.
func H_Shared() {
	q := ask("q")
	if !v.Thorough() {
		v.Assume(q.key == "int" || q.key == "time.Time" || q.pkg == "p")
	}
	shared := map[string]astra.TypeFormat{}
	w := predefined(q.key)
	if v.Bool("in the map") {
		shared[q.key] = astra.TypeFormat{Type: "s", Format: "t"}
		w = want{"s", "t", true}
	}
	if v.Bool("another in the map") {
		shared["z.Z"] = astra.TypeFormat{Type: "z", Format: "z"}
	}
	n := len(shared)
	first := astra.WithCustomTypeMapping(shared)
	second := first
	if !v.Bool("same option") {
		second = astra.WithCustomTypeMapping(shared)
	}
	own := astra.WithCustomTypeMappingSingle(q.key, "own", v.StringUpTo("format", 0, 1, "fg"))
	if v.Bool("own as a map") {
		own = astra.WithCustomTypeMapping(map[string]astra.TypeFormat{q.key: {Type: "own"}})
	}
	var one, two *astra.Service
	ownFirst := v.Bool("own first")
	make1 := func() {
		if ownFirst {
			one = hc.Service(own, first)
		} else {
			one = hc.Service(first, own)
		}
		if v.Bool("asked") {
			one.GetTypeMapping(q.name, q.pkg)
		}
	}
	later := v.Bool("later")
	if !later {
		make1()
	}
	two = hc.Service(second)
	if later {
		make1()
	}
	got, ok := two.GetTypeMapping(q.name, q.pkg)
	v.Assert("shared", ok == w.ok && (!ok || v.And(got.Type == w.typ, got.Format == w.format)), "a service has another one's mapping")
	got, ok = one.GetTypeMapping(q.name, q.pkg)
	if ownFirst && n > 0 && shared[q.key].Type != "" {
		v.Assert("last", ok && got.Type == "s", "not the last mapping counts")
	} else {
		v.Assert("last", ok && got.Type == "own", "not the last mapping counts")
	}
	v.Assert("map", len(shared) == n, "the caller's map was changed")
}
