package p03

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/utils"
	"github.com/ls6-events/astra/zzverif/hc"
	"github.com/ls6-events/astra/zzverif/v"
)

const alpha = "ab_-.{}:*%9"

// H_Paths: extraction of parameters and the OpenAPI path of every gin path.
func H_Paths() {
	path, segs := hc.GinPath("p", 3, 2, "ab_.-{}%9")
	params := utils.ExtractParamsFromPath(path)
	var want []hc.Seg
	for _, s := range segs {
		if s.Kind != 's' {
			want = append(want, s)
		}
	}
	v.Assert("count", len(params) == len(want), "wrong number of parameters")
	for i, p := range params {
		v.Assert("name", p.Name == want[i].Text, "wrong parameter name")
		v.Assert("required", p.IsRequired == (want[i].Kind == ':'), "wrong required flag")
		v.Assert("type", p.Field.Type == "string" && !p.IsBound && !p.IsArray && !p.IsMap, "wrong type")
	}
	got := utils.MapPathParams(path, func(s string) string { return "<" + s + ">" })
	exp := ""
	for _, s := range segs {
		if s.Kind == 's' {
			exp += s.Text
		} else {
			exp += "<" + string(rune(s.Kind)) + s.Text + ">"
		}
	}
	v.Assert("mapped", got == exp, "the mapped path differs")
	v.Observe("mapped", got)
}

// H_Document: the document's path and path parameters.
func H_Document() {
	path, segs := hc.GinPath("p", 2, 1, "ab.{")
	s := hc.Service()
	s.Routes = []astra.Route{{Handler: "main.f", Method: "GET", Path: path, PathParams: utils.ExtractParamsFromPath(path),
		ReturnTypes: []astra.ReturnType{{StatusCode: 200, Field: astra.Field{Type: "nil"}}}}}
	d, ok := hc.Doc(s)
	if !ok {
		return
	}
	v.Assert("one path", len(d.Paths) == 1, "not exactly one path")
	p, ok := d.Paths[hc.OpenAPIPath(segs)]
	v.Assert("path", ok, "the path is not in the document")
	if !ok || p.Get == nil {
		v.Assert("operation", !ok, "no operation")
		return
	}
	n := 0
	for i, sg := range segs {
		if sg.Kind == 's' {
			continue
		}
		// OpenAPI allows one parameter per name and location, also where a path repeats a name;
		// one that occurs as required is required.
		first, required := true, false
		for j, o := range segs {
			if o.Kind != 's' && o.Text == sg.Text {
				first = first && j >= i
				required = required || o.Kind == ':'
			}
		}
		if !first {
			continue
		}
		n++
		c := 0
		for _, q := range p.Get.Parameters {
			if q.Name == sg.Text && q.In == "path" && q.Required == required && q.Schema.Type == "string" {
				c++
			}
		}
		v.Assert("parameter", c == 1, "a path parameter is missing or wrong")
	}
	v.Assert("parameters", len(p.Get.Parameters) == n, "wrong number of parameters")
}

// printable are the characters that a segment can have.
const printable = " !#$%&'()+,-.0123456789;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"

// H_Long: longer names and static parts of any printable characters.
func H_Long() {
	n := 2
	if v.Thorough() {
		n = 4
	}
	static, prefix, name, rest := "s", "", "n", "r"
	switch v.Choose("long", 3) {
	case 0:
		static = v.StringUpTo("static", 0, n, printable)
	case 1:
		prefix = v.StringUpTo("prefix", 0, 1, printable)
		name = v.StringUpTo("name", 1, n, printable)
	default:
		rest = v.StringUpTo("rest", 1, n, printable)
	}
	v.Assume(name != rest)
	path := "/" + static + "/" + prefix + ":" + name + "/*" + rest
	params := utils.ExtractParamsFromPath(path)
	v.Assert("params", len(params) == 2, "wrong number of parameters")
	if len(params) != 2 {
		return
	}
	v.Assert("names", v.And(v.EqStr(params[0].Name, name), v.EqStr(params[1].Name, rest)), "wrong parameter name")
	v.Assert("kinds", v.And(params[0].IsRequired, v.Not(params[1].IsRequired)), "wrong required flag")
	s := hc.Service()
	s.Routes = []astra.Route{{Handler: "main.f", Method: "GET", Path: path, PathParams: params,
		ReturnTypes: []astra.ReturnType{{StatusCode: 200, Field: astra.Field{Type: "nil"}}}}}
	d, ok := hc.Doc(s)
	if !ok {
		return
	}
	for p, o := range d.Paths {
		v.Assert("template", v.EqStr(p, "/"+static+"/"+prefix+"{"+name+"}/{"+rest+"*}"), "the path is not in the document")
		if o.Get == nil {
			continue
		}
		v.Assert("listed", len(o.Get.Parameters) == 2, "wrong number of path parameters")
		if len(o.Get.Parameters) != 2 {
			continue
		}
		a, b := o.Get.Parameters[0], o.Get.Parameters[1]
		if !a.Required {
			a, b = b, a
		}
		v.Assert("listed names", v.And(v.EqStr(a.Name, name), v.EqStr(b.Name, rest)), "a path parameter has another name")
		v.Assert("listed kinds", v.And(a.Required, v.Not(b.Required), a.In == "path", b.In == "path"), "a path parameter is of the wrong kind")
	}
	v.Assert("single", len(d.Paths) == 1, "not exactly one path")
}
