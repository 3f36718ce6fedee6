package p15

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/zzverif/hc"
	osx "github.com/ls6-events/astra/zzverif/osx"
	"github.com/ls6-events/astra/zzverif/v"
)

// H_Clause: the package clause is renamed, and nothing else, whatever the file looks like.
func H_Clause() {
	s := hc.Service()
	osx.Put("/w/go.mod", "module m\n")
	pre := ""
	switch v.Choose("before", 6) {
	case 1:
		pre = "// " + v.String("comment", 1, "p/*a\"`") + "package main\n"
	case 2:
		pre = "/* package main\n" + v.String("comment", 1, "/*p\n") + " */"
	case 3:
		pre = "//go:build " + v.Pick("tag", "linux", "ignore", "!windows") + "\n\n"
	case 4:
		pre = v.StringUpTo("space", 1, 2, " \n\t\r")
	case 5:
		pre = "\xef\xbb\xbf"
	}
	name := v.Pick("name", "main", "main_test", "other", "mainx", "main_", "astramain")
	gap := v.Pick("gap", " ", "\t", "  ", "/* package main */", " /*\n*/ ")
	post := ""
	switch v.Choose("after", 5) {
	case 0:
		post = "\n"
	case 1:
		post = ";import \"fmt\";var _ = fmt.Sprint(\"package main\")"
	case 2:
		post = " // package main\nconst S = `" + v.String("raw", 2, "\npm ") + "package main\n`\n"
	case 3:
		post = "\r\n\r\nfunc main() {}\r\n"
	case 4:
		post = "\nvar main_ = \"" + v.String("text", 1, "mA ") + "package main\"\n\n\n/* package main */"
	}
	text := pre + "package" + gap + name + post
	osx.Put("/w/x.go", text)
	_, err := s.GetMainPackageName()
	v.Assert("copies", err == nil, "the main package cannot be copied")
	got, ok := osx.Get("/w/.astra/astramain/x.go")
	v.Assert("copied", ok, "a Go file is missing")
	want := name
	switch name {
	case "main":
		want = "astramain"
	case "main_test":
		want = "astramain_test"
	}
	v.Assert("content", string(got) == pre+"package"+gap+want+post, "more or less than the package name is changed")
	now, _ := osx.Get("/w/x.go")
	v.Assert("original", string(now) == text, "the user's file is changed")
}

// H_Files: exactly the Go files of the directory are copied.
func H_Files() {
	s := hc.Service()
	osx.Put("/w/go.mod", "module m\n")
	if v.Bool("leftover") {
		osx.Put("/w/.astra/astramain/old.go", "package astramain\n")
	}
	if v.Bool("nested") {
		osx.Put("/w/sub/s.go", "package main\n")
	}
	if v.Bool("directory") {
		osx.Put("/w/dir.go/d.go", "package dir\n")
	}
	n := v.Choose("files", 4)
	want := map[string]string{}
	for i := 0; i < n; i++ {
		id := "f" + hc.Digit(i)
		name := hc.Digit(i) + v.String(id, 2, ".gox") + v.Pick(id+".ext", ".go", ".txt", "go", ".go.tmpl")
		osx.Put("/w/"+name, "package main\n//"+id+"\n")
		if len(name) > 3 && name[len(name)-3:] == ".go" {
			want[name] = "package astramain\n//" + id + "\n"
		}
	}
	if v.Bool("set up") {
		v.Assert("setup", s.Setup() == nil, "setting up fails")
	}
	_, err := s.GetMainPackageName()
	v.Assert("copies", err == nil, "the main package cannot be copied")
	const dir = "/w/.astra/astramain/"
	found := 0
	for _, f := range osx.Snapshot() {
		if len(f.Path) > len(dir) && f.Path[:len(dir)] == dir {
			text, ok := want[f.Path[len(dir):]]
			v.Assert("extra", ok, "something else is copied, or left over")
			v.Assert("text", string(f.Data) == text, "a copy differs")
			found++
		}
	}
	v.Assert("all", found == len(want), "a Go file is not copied")
}

// H_Names: files are told apart by the end of their names alone.
func H_Names() {
	s := hc.Service()
	osx.Put("/w/go.mod", "module m\n")
	n := 9
	if v.Thorough() {
		n = 14
	}
	name := v.StringUpTo("name", 1, n, "abcdefghijklmnopqrstuvwxyzM0123456789_-.")
	v.Assume(v.And(name != ".", name != "..", name != "go.mod", name != ".astra"))
	if v.Bool("go") {
		name += ".go"
	}
	osx.Put("/w/"+name, "package main\n")
	_, err := s.GetMainPackageName()
	v.Assert("copies", err == nil, "the main package cannot be copied")
	got, ok := osx.Get("/w/.astra/astramain/" + name)
	isGo := len(name) > 2 && name[len(name)-3:] == ".go"
	v.Assert("copied", ok == isGo, "a Go file is not copied, or another file is")
	v.Assert("content", !isGo || string(got) == "package astramain\n", "a copy differs")
}

// H_Module: the import path is the module's, however go.mod is written.
func H_Module() {
	s := hc.Service()
	word := v.StringUpTo("module", 1, 2, "amx") + v.Pick("path", "", "/b", "module", "/module", ".io/x/v2")
	pre := v.Pick("before", "", "// module z\n", "\n\n", "go 1.20\n", "require module.x v1.0.0\n", "// "+v.String("comment", 1, "m/ ")+"\n", "\t")
	gap := v.Pick("gap", " ", "\t", "   ")
	mod := ""
	switch v.Choose("form", 5) {
	case 0:
		mod = "module" + gap + word
	case 1:
		mod = "module" + gap + "\"" + word + "\""
	case 2:
		mod = "module" + gap + "`" + word + "`"
	case 3:
		mod = "module" + gap + word + " // module y"
	case 4:
		mod = "module" + gap + word + "//y"
	}
	mod += v.Pick("end", "", "\n", "\r\n", "\n\ngo 1.20\nrequire (\n\tmodule v1.0.0\n)\n")
	osx.Put("/w/go.mod", pre+mod)
	osx.Put("/w/a.go", "package main\n")
	osx.Put("/w/z.go", "package main\n")
	got, err := s.GetMainPackageName()
	v.Assert("copies", err == nil, "the main package cannot be copied")
	v.Assert("path", got == word+"/.astra/astramain", "the temporary package has another import path")
	again, err := s.GetMainPackageName()
	v.Assert("again", err == nil && again == got, "the import path changes")
}

const temp = "m/.astra/astramain"

var packages = []string{temp, "main", "", "m", "m/.astra/astramain/x", "m/.astra/astramain2", "x/m/.astra/astramain", ".astra/astramain", "m/.astra", "M/.astra/astramain"}

func pkg(id string) (string, string) {
	p := ""
	if v.Bool(id + ".temp") {
		p = temp
	} else {
		p = v.Pick(id+".package", packages[1:]...)
	}
	if p == temp {
		return p, "main"
	}
	return p, p
}

// field makes a field, and what it is after cleaning; at the given depth its packages vary.
func field(id string, depth, at int) (astra.Field, astra.Field) {
	var f, w astra.Field
	f.Name, f.Type = "T"+hc.Digit(depth), "struct"
	f.Doc = temp
	f.SliceType, f.MapValueType, f.MapKeyType, f.ArrayType, f.ArrayLength = "a", "b", "c", "d", 3
	f.IsRequired, f.IsEmbedded = true, true
	f.EnumValues = []any{temp, "e"}
	f.Package, f.MapKeyPackage = "p", "q"
	w = f
	if depth == at {
		f.Package, w.Package = pkg(id)
		f.MapKeyPackage, w.MapKeyPackage = pkg(id + ".key")
		if v.Bool(id + ".reference") {
			f.ReferencePackage, w.ReferencePackage = temp, "main"
		}
		return f, w
	}
	inner, clean := field(id, depth+1, at)
	f.StructFields = map[string]astra.Field{temp: {Package: "p", Type: "string"}, "In": inner, "Last": {Package: temp, Name: "L"}}
	w.StructFields = map[string]astra.Field{temp: {Package: "p", Type: "string"}, "In": clean, "Last": {Package: "main", Name: "L"}}
	f.StructFieldBindingTags = astTraversal.BindingTagMap{astTraversal.JSONBindingTag: {Name: temp}}
	w.StructFieldBindingTags = f.StructFieldBindingTags
	return f, w
}

// H_Clean: every occurrence of the temporary path is main again, and nothing else changes.
func H_Clean() {
	s := hc.Service()
	osx.Put("/w/go.mod", "module m\n")
	deep := 3
	if v.Thorough() {
		deep = 4
	}
	f, w := field("f", 0, v.Choose("depth", deep))
	other := astra.Field{Package: "p", Name: "O", Type: "string"}
	s.Components = []astra.Field{other, {Package: temp, Name: "C", Type: "int"}}
	r := astra.Route{Handler: temp + ".h", File: temp, Path: "/" + temp, Method: "GET", Doc: temp, OperationID: temp}
	plain := func() astra.Param { return astra.Param{Name: temp, Field: other} }
	r.PathParams = []astra.Param{plain(), plain()}
	r.QueryParams = []astra.Param{plain(), plain()}
	r.RequestHeaders = []astra.Param{plain(), plain()}
	r.ResponseHeaders = []astra.Param{plain(), plain()}
	r.Body = []astra.BodyParam{{Name: temp, ContentType: temp, Field: other}, {Field: other}}
	r.ReturnTypes = []astra.ReturnType{{StatusCode: 200, ContentType: temp, Field: other}, {Field: other}}
	s.Routes = []astra.Route{hc.CopyRoute(r), hc.CopyRoute(r)}
	want := []astra.Route{hc.CopyRoute(r), hc.CopyRoute(r)}
	components := []astra.Field{other, {Package: "main", Name: "C", Type: "int"}}
	i, j := v.Choose("route", 2), v.Choose("entry", 2)
	x, y := &s.Routes[i], &want[i]
	switch v.Choose("place", 7) {
	case 0:
		s.Components[j], components[j] = f, w
	case 1:
		x.PathParams[j].Field, y.PathParams[j].Field = f, w
	case 2:
		x.QueryParams[j].Field, y.QueryParams[j].Field = f, w
	case 3:
		x.RequestHeaders[j].Field, y.RequestHeaders[j].Field = f, w
	case 4:
		x.ResponseHeaders[j].Field, y.ResponseHeaders[j].Field = f, w
	case 5:
		x.Body[j].Field, y.Body[j].Field = f, w
	case 6:
		x.ReturnTypes[j].Field, y.ReturnTypes[j].Field = f, w
	}
	v.Assert("cleans", s.Clean() == nil, "cleaning fails")
	v.Assert("routes", hc.SameRoutes(s.Routes, want), "a temporary path remains in a route, or something else is changed")
	v.Assert("components", hc.SameFields(s.Components, components), "a temporary path remains in a component, or something else is changed")
	v.Assert("cleans again", s.Clean() == nil && hc.SameRoutes(s.Routes, want) && hc.SameFields(s.Components, components), "cleaning twice changes more")
}
