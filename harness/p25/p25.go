package p25

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

func field(id string) astra.Field {
	f := astra.Field{}
	switch v.Choose(id+".shape", 4) {
	case 0:
		f.Type = v.String(id+".type", 1, "ABa")
		f.Package = v.String(id+".pkg", 1, "pq")
	case 1:
		f.Type = "slice"
		f.SliceType = v.String(id+".elem", 1, "ABa")
		f.Package = v.String(id+".pkg", 1, "pq")
	case 2:
		f.Type = "map"
		f.MapKeyType = v.Pick(id+".key", "int", "string")
		f.MapValueType = v.String(id+".value", 1, "ABa")
		f.Package = "p"
	case 3:
		f.Type = v.Pick(id+".basic", "int", "string")
	}
	return f
}

func eqField(a, b astra.Field) bool {
	return a.Type == b.Type && a.Package == b.Package && a.SliceType == b.SliceType && a.MapKeyType == b.MapKeyType && a.MapValueType == b.MapValueType
}

func eqReturn(a, b astra.ReturnType) bool {
	return a.StatusCode == b.StatusCode && a.ContentType == b.ContentType && eqField(a.Field, b.Field)
}

// H_ReturnTypes: any additions in any grouping keep the first occurrence of each distinct one.
func H_ReturnTypes() {
	n := 3
	var in []astra.ReturnType
	for i := 0; i < n; i++ {
		id := "r" + string(rune('0'+i))
		in = append(in, astra.ReturnType{
			StatusCode:  v.Int(id+".status", 100, 599),
			ContentType: v.Pick(id+".ct", "application/json", ""),
			Field:       field(id),
		})
	}
	var want []astra.ReturnType
	for _, r := range in {
		dup := false
		for _, w := range want {
			if eqReturn(r, w) {
				dup = true
				break
			}
		}
		if !dup {
			want = append(want, r)
		}
	}
	var got []astra.ReturnType
	switch v.Choose("grouping", 3) {
	case 0:
		for _, r := range in {
			got = astra.AddReturnType(got, r)
		}
	case 1:
		got = astra.AddReturnType(got, in...)
	case 2:
		got = astra.AddReturnType(got, in[0])
		got = astra.AddReturnType(got, in[1:]...)
	}
	v.Assert("return types", len(got) == len(want), "wrong number of return types")
	if len(got) != len(want) {
		return
	}
	for i := range got {
		v.Assert("return type", eqReturn(got[i], want[i]), "a return type differs")
	}
}

// H_Components: the same for components, named by name and package.
func H_Components() {
	n := 3
	var in []astra.Field
	for i := 0; i < n; i++ {
		id := "c" + string(rune('0'+i))
		in = append(in, astra.Field{
			Name:    v.StringUpTo(id+".name", 1, 2, "ABa"),
			Package: v.StringUpTo(id+".pkg", 1, 2, "pP/"),
			Type:    v.Pick(id+".type", "struct", "int"),
			Doc:     string(rune('0' + i)),
		})
	}
	var want []astra.Field
	for _, r := range in {
		dup := false
		for _, w := range want {
			if r.Name == w.Name && r.Package == w.Package {
				dup = true
				break
			}
		}
		if !dup {
			want = append(want, r)
		}
	}
	var got []astra.Field
	switch v.Choose("grouping", 3) {
	case 0:
		for _, r := range in {
			got = astra.AddComponent(got, r)
		}
	case 1:
		got = astra.AddComponent(got, in...)
	case 2:
		got = astra.AddComponent(got, in[0])
		got = astra.AddComponent(got, in[1:]...)
	}
	v.Assert("components", len(got) == len(want), "wrong number of components")
	if len(got) != len(want) {
		return
	}
	for i := range got {
		v.Assert("component", v.And(got[i].Name == want[i].Name, got[i].Package == want[i].Package, got[i].Type == want[i].Type, got[i].Doc == want[i].Doc), "a component differs")
	}
}

// made is a type that others make up; depth limits anonymous structs.
func made(id string, depth int) astra.Field {
	n := 3
	if depth > 0 {
		n = 5
	}
	switch v.Choose(id+".shape", n) {
	case 0:
		return astra.Field{Type: v.String(id+".type", 1, "AB"), Package: v.String(id+".pkg", 1, "pq")}
	case 1:
		return astra.Field{Type: "array", ArrayType: v.String(id+".elem", 1, "AB"), Package: "p", ArrayLength: int64(v.Int(id+".length", 1, 9))}
	case 2:
		return astra.Field{Type: "map", MapKeyType: "K", MapKeyPackage: v.String(id+".keypkg", 1, "pq"), MapValueType: "A", Package: "p"}
	case 3:
		f := made(id+".F", depth-1)
		f.StructFieldBindingTags = astTraversal.BindingTagMap{"json": {Name: v.String(id+".json", 1, "jk"), ReturnOptional: v.Bool(id + ".optional")}}
		return astra.Field{Type: "struct", StructFields: map[string]astra.Field{v.Pick(id+".field", "F", "G"): f}}
	}
	f := astra.Field{Type: "int", Doc: v.String(id+".doc", 1, "de"), IsEmbedded: v.Bool(id + ".embedded")}
	f.StructFieldValidationTags = astTraversal.ValidationTagMap{"binding": {IsRequired: v.Bool(id + ".required")}}
	return astra.Field{Type: "struct", StructFields: map[string]astra.Field{"F": f, "G": {Type: "T", Package: "p"}}}
}

// H_Shapes: two types of any shape are the same exactly if all that they are made of is.
func H_Shapes() {
	depth := 1
	if v.Thorough() {
		depth = 2
	}
	a := astra.ReturnType{StatusCode: 200, ContentType: "c", Field: made("a", depth)}
	b := astra.ReturnType{StatusCode: 200, ContentType: "c", Field: made("b", depth)}
	z := astra.ReturnType{StatusCode: 201, ContentType: "c", Field: a.Field}
	got := astra.AddReturnType(nil, z, a, b, z, b)
	same := hc.SameField(a.Field, b.Field)
	v.Assert("first", len(got) >= 2 && hc.SameField(got[0].Field, z.Field) && hc.SameField(got[1].Field, a.Field), "a return type is missing")
	if same {
		v.Assert("same", len(got) == 2, "a return type is recorded twice")
	} else {
		v.Assert("different", len(got) == 3 && hc.SameField(got[2].Field, b.Field), "a return type is taken for another")
	}
}

// rich is a route with something in every part.
func rich(id string) astra.Route {
	r := astra.Route{Handler: v.String(id+".handler", 1, "hg"), File: id, LineNo: 7, Path: v.String(id+".path", 1, "/a"), Method: v.Pick(id+".method", "GET", "POST")}
	p := []astra.Param{{Name: id, Field: astra.Field{Type: "string"}}}
	if v.Bool(id + ".doc") {
		r.Doc, r.OperationID = id, id
	}
	if v.Bool(id + ".params") {
		r.PathParams, r.QueryParams, r.RequestHeaders, r.ResponseHeaders = p, p, p, p
	}
	if v.Bool(id + ".body") {
		r.Body = []astra.BodyParam{{Name: id, Field: astra.Field{Type: "string"}}}
		r.ReturnTypes = hc.Nil()
	}
	return r
}

// H_Whole: a replaced route is the new one in every part, the others are as they were.
func H_Whole() {
	a, b, n := rich("a"), rich("b"), rich("n")
	v.Assume(a.Path != b.Path || a.Method != b.Method)
	s := &astra.Service{}
	s.AddRoute(a)
	s.AddRoute(b)
	v.Assert("added", len(s.Routes) == 2 && hc.SameRoute(s.Routes[0], a) && hc.SameRoute(s.Routes[1], b), "an added route is changed")
	s.ReplaceRoute(n)
	for i, w := range []astra.Route{a, b} {
		if w.Path == n.Path && w.Method == n.Method {
			w = n
		}
		v.Assert("route "+hc.Digit(i), len(s.Routes) == 2 && hc.SameRoute(s.Routes[i], w), "a replaced route is not the new one, or another is changed")
	}
}

// H_Replace: replacing changes the route with that path and method only.
func H_Replace() {
	n := 1 + v.Choose("routes", 3)
	s := &astra.Service{}
	var in []astra.Route
	for i := 0; i < n; i++ {
		id := "r" + string(rune('0'+i))
		r := astra.Route{Path: v.StringUpTo(id+".path", 1, 2, "/aA"), Method: v.Pick(id+".method", "GET", "POST"), Handler: id}
		for _, q := range in { // gin refuses the same method and path twice
			v.Assume(!(q.Path == r.Path && q.Method == r.Method))
		}
		in = append(in, r)
		s.AddRoute(r)
	}
	v.Assert("added", len(s.Routes) == n, "a route was not added")
	r := astra.Route{Path: v.StringUpTo("path", 1, 2, "/aA"), Method: v.Pick("method", "GET", "POST"), Handler: v.Pick("handler", "new", "r0", "r1"), Doc: "new"}
	s.ReplaceRoute(r)
	v.Assert("number", len(s.Routes) == n, "the number of routes changed")
	for i := range in {
		want, doc := in[i].Handler, ""
		if in[i].Path == r.Path && in[i].Method == r.Method {
			want, doc = r.Handler, r.Doc
		}
		v.Assert("replaced", v.And(s.Routes[i].Handler == want, s.Routes[i].Doc == doc, s.Routes[i].Path == in[i].Path, s.Routes[i].Method == in[i].Method), "wrong route replaced")
	}
}
