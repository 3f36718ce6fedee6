package p21

import (
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/zzverif/v"
)

var keys = []string{"header", "form", "uri", "json", "xml", "yaml"}

// value is an arbitrary tag value: a name and up to two options.
func value(id string) (tag, name string, hidden, opt bool) {
	name = v.StringUpTo(id+".name", 0, 2, "aZ-_. '")
	tag = name
	k := v.Choose(id+".options", 3)
	for i := 0; i < k; i++ {
		o := "omitempty"
		switch v.Choose(id+".o"+string(rune('0'+i)), 3) {
		case 0:
			opt = true
		case 1:
			o = v.StringUpTo(id+".x"+string(rune('0'+i)), 0, 2, "om-")
		case 2:
			o = "string"
		}
		tag += "," + o
	}
	return tag, name, tag == "-", opt
}

func check(m astTraversal.BindingTagMap, key, field, name string, hidden, opt bool) {
	b, ok := m[astTraversal.BindingTagType(key)]
	v.Assert("present", ok, "a binding key of the tag is missing")
	want := name
	if name == "" {
		want = field
	}
	v.Assert("hidden", b.NotShown == hidden, "wrong visibility")
	if !hidden {
		v.Assert("name", b.Name == want, "wrong name")
	}
	v.Assert("optional", b.ReturnOptional == opt, "wrong optionality")
}

// H_Binding: up to two binding keys in one tag, with other keys around.
func H_Binding() {
	field := v.StringUpTo("field", 1, 2, "AbZ_")
	i := v.Choose("key", len(keys))
	t, name, hidden, opt := value("v")
	tag := keys[i] + `:"` + t + `"`
	switch v.Choose("around", 3) {
	case 1:
		tag = `db:"json" ` + tag
	case 2:
		tag = tag + ` example:"x,omitempty"`
	}
	m, val := astTraversal.ParseStructTag(field, tag)
	check(m, keys[i], field, name, hidden, opt)
	v.Assert("only", len(m) == 1, "a binding key that is not in the tag")
	v.Assert("validation", len(val) == 0, "a validation key that is not in the tag")
}

// H_Long: a longer name, a longer option and a longer field name.
func H_Long() {
	n := 12
	if v.Thorough() {
		n = 20
	}
	const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.;:! /"
	field, name, option := "Field", "n", ""
	switch v.Choose("what", 3) {
	case 0:
		field, name = "F"+v.StringUpTo("field", 0, n, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"), ""
	case 1:
		name = v.StringUpTo("name", 1, n, letters)
	case 2:
		option = v.StringUpTo("option", 1, n, letters)
	}
	i := v.Choose("key", len(keys))
	tag := name
	if option != "" {
		tag += "," + option
	}
	m, val := astTraversal.ParseStructTag(field, keys[i]+`:"`+tag+`"`)
	check(m, keys[i], field, name, tag == "-", option == "omitempty")
	v.Assert("only", len(m) == 1 && len(val) == 0, "another key")
}

// H_Other: other keys, also such that contain the known ones, are no binding or validation keys.
func H_Other() {
	key := v.StringUpTo("other", 1, 4, "abdefghjilmnoruxy_-")
	for _, k := range keys {
		v.Assume(key != k)
	}
	switch v.Choose("affix", 3) {
	case 1:
		key += v.Pick("key", keys...)
	case 2:
		key = v.Pick("key", keys...) + key
	}
	m, val := astTraversal.ParseStructTag("F", key+`:"n,omitempty,required"`)
	b, ok := m[astTraversal.NoBindingTag]
	v.Assert("no binding", ok && len(m) == 1 && b.Name == "F" && !b.NotShown && !b.ReturnOptional, "a field without binding keys does not keep its name")
	v.Assert("validation", len(val) == 0, "a validation key that is not in the tag")
}

// H_Two: two keys do not disturb each other.
func H_Two() {
	field := "Fd"
	i := v.Choose("key1", len(keys))
	j := v.Choose("key2", len(keys)-1)
	if j >= i {
		j++
	}
	n1 := v.StringUpTo("name1", 0, 1, "a-")
	n2 := v.StringUpTo("name2", 0, 1, "b-")
	o1, o2 := v.Bool("opt1"), v.Bool("opt2")
	t1, t2 := n1, n2
	if o1 {
		t1 += ",omitempty"
	}
	if o2 {
		t2 += ",omitempty"
	}
	tag := keys[i] + `:"` + t1 + `" ` + keys[j] + `:"` + t2 + `"`
	req := v.Bool("required")
	if req {
		tag += ` binding:"required"`
	}
	m, val := astTraversal.ParseStructTag(field, tag)
	check(m, keys[i], field, n1, t1 == "-", o1)
	check(m, keys[j], field, n2, t2 == "-", o2)
	v.Assert("only", len(m) == 2, "a binding key that is not in the tag")
	v.Assert("required", val[astTraversal.GinValidationTag].IsRequired == req, "wrong required flag")
}

// H_Validation: the field is required exactly when the rules contain 'required'.
func H_Validation() {
	key := v.Pick("key", "binding", "validate")
	n := 1 + v.Choose("rules", 3)
	tag, req := "", false
	for i := 0; i < n; i++ {
		id := "r" + string(rune('0'+i))
		r := ""
		switch v.Choose(id+".kind", 5) {
		case 0:
			r, req = "required", true
		case 1:
			r = "required_if=A b"
		case 2:
			r = v.StringUpTo(id+".text", 1, 2, "rm=1|")
		case 3:
			r = "required" + v.String(id+".suffix", 1, "_xd|=")
		case 4:
			r = v.String(id+".prefix", 1, "_xd|") + "required"
		}
		if i > 0 {
			tag += ","
		}
		tag += r
	}
	m, val := astTraversal.ParseStructTag("F", key+`:"`+tag+`"`)
	b, ok := m[astTraversal.NoBindingTag]
	v.Assert("no binding", ok && len(m) == 1 && b.Name == "F" && !b.NotShown && !b.ReturnOptional, "a field without binding keys does not keep its name")
	t, ok := val[astTraversal.ValidationTagType(key)]
	v.Assert("key", ok && len(val) == 1, "the validation key is missing")
	v.Assert("required", t.IsRequired == req, "wrong required flag")
}

// H_Both: both validation keys, each with its own rules, do not disturb each other, nor a binding key.
func H_Both() {
	rules := func(id string) (string, bool) {
		r := v.Pick(id, "required", "max=3", "max=3,required", "required_if=A b", "omitempty,email")
		return r, r == "required" || r == "max=3,required"
	}
	r1, req1 := rules("binding")
	r2, req2 := rules("validate")
	parts := []string{`binding:"` + r1 + `"`, `validate:"` + r2 + `"`}
	if v.Bool("swapped") {
		parts[0], parts[1] = parts[1], parts[0]
	}
	tag := parts[0] + " " + parts[1]
	name := v.StringUpTo("name", 0, 1, "a-")
	k := v.Pick("key", keys...)
	if name != "" {
		switch v.Choose("where", 3) {
		case 0:
			tag = k + `:"` + name + `" ` + tag
		case 1:
			tag += " " + k + `:"` + name + `"`
		default:
			tag = parts[0] + " " + k + `:"` + name + `" ` + parts[1]
		}
	}
	m, val := astTraversal.ParseStructTag("F", tag)
	if name != "" {
		check(m, k, "F", name, name == "-", false)
	} else {
		b, ok := m[astTraversal.NoBindingTag]
		v.Assert("no binding", ok && b.Name == "F" && !b.NotShown, "a field without binding keys does not keep its name")
	}
	v.Assert("only", len(m) == 1 && len(val) == 2, "not the keys of the tag")
	b, ok := val[astTraversal.GinValidationTag]
	v.Assert("binding", ok && b.IsRequired == req1, "wrong required flag")
	b, ok = val[astTraversal.ValidatorValidationTag]
	v.Assert("validate", ok && b.IsRequired == req2, "wrong required flag")
}
