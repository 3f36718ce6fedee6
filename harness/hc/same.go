package hc

import (
	"strconv"

	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	"github.com/ls6-events/astra/zzverif/v"
)

// SameValue compares enum values, numbers by value.
func SameValue(a, b any) bool {
	x, xf, xn := number(a)
	y, yf, yn := number(b)
	if xn || yn {
		return xn && yn && x == y && xf == yf
	}
	s, ok := a.(string)
	t, ok2 := b.(string)
	if ok || ok2 {
		return ok && ok2 && s == t
	}
	p, ok := a.(bool)
	q, ok2 := b.(bool)
	return ok && ok2 && p == q
}

// number splits a number into its whole part and the rest.
func number(a any) (int64, float64, bool) {
	switch x := a.(type) {
	case int:
		return int64(x), 0, true
	case int64:
		return x, 0, true
	case float64:
		return int64(x), x - float64(int64(x)), true
	}
	return 0, 0, false
}

// SameField compares every recorded aspect of two fields.
func SameField(a, b astra.Field) bool {
	if len(a.EnumValues) != len(b.EnumValues) || len(a.StructFields) != len(b.StructFields) || len(a.StructFieldBindingTags) != len(b.StructFieldBindingTags) || len(a.StructFieldValidationTags) != len(b.StructFieldValidationTags) {
		return false
	}
	for i := range a.EnumValues {
		if !SameValue(a.EnumValues[i], b.EnumValues[i]) {
			return false
		}
	}
	for k, x := range a.StructFields {
		y, ok := b.StructFields[k]
		if !ok || !SameField(x, y) {
			return false
		}
	}
	for k, x := range a.StructFieldBindingTags {
		y, ok := b.StructFieldBindingTags[k]
		if !ok || x != y {
			return false
		}
	}
	for k, x := range a.StructFieldValidationTags {
		y, ok := b.StructFieldValidationTags[k]
		if !ok || x != y {
			return false
		}
	}
	return v.And(a.Package == b.Package, a.ReferencePackage == b.ReferencePackage, a.Type == b.Type, a.Name == b.Name, a.IsRequired == b.IsRequired, a.IsEmbedded == b.IsEmbedded,
		a.SliceType == b.SliceType, a.ArrayType == b.ArrayType, a.ArrayLength == b.ArrayLength,
		a.MapKeyPackage == b.MapKeyPackage, a.MapKeyType == b.MapKeyType, a.MapValueType == b.MapValueType, a.Doc == b.Doc)
}

// SameParam compares two parameters.
func SameParam(a, b astra.Param) bool {
	return SameField(a.Field, b.Field) && v.And(a.Name == b.Name, a.IsRequired == b.IsRequired, a.IsArray == b.IsArray, a.IsMap == b.IsMap, a.IsBound == b.IsBound)
}

func sameParams(a, b []astra.Param) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !SameParam(a[i], b[i]) {
			return false
		}
	}
	return true
}

// SameRoute compares every recorded aspect of two routes.
func SameRoute(a, b astra.Route) bool {
	if len(a.Body) != len(b.Body) || len(a.ReturnTypes) != len(b.ReturnTypes) {
		return false
	}
	for i, x := range a.Body {
		y := b.Body[i]
		if !SameField(x.Field, y.Field) || !v.And(x.Name == y.Name, x.ContentType == y.ContentType, x.IsRequired == y.IsRequired, x.IsArray == y.IsArray, x.IsMap == y.IsMap, x.IsBound == y.IsBound) {
			return false
		}
	}
	for i, x := range a.ReturnTypes {
		y := b.ReturnTypes[i]
		if !SameField(x.Field, y.Field) || !v.And(x.StatusCode == y.StatusCode, x.ContentType == y.ContentType) {
			return false
		}
	}
	return sameParams(a.PathParams, b.PathParams) && sameParams(a.QueryParams, b.QueryParams) && sameParams(a.RequestHeaders, b.RequestHeaders) && sameParams(a.ResponseHeaders, b.ResponseHeaders) &&
		v.And(a.Handler == b.Handler, a.File == b.File, a.LineNo == b.LineNo, a.Method == b.Method, a.Path == b.Path, a.Doc == b.Doc, a.OperationID == b.OperationID)
}

// SameRoutes compares lists of routes.
func SameRoutes(a, b []astra.Route) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !SameRoute(a[i], b[i]) {
			return false
		}
	}
	return true
}

// SameFields compares lists of fields.
func SameFields(a, b []astra.Field) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !SameField(a[i], b[i]) {
			return false
		}
	}
	return true
}

// text is an arbitrary short text, with characters that need quoting somewhere.
func text(id string) string { return v.String(id, 1, "aB1 \"\\<:#'-~") }

// FieldAspects is how many aspects SetField knows.
const FieldAspects = 15

// SetField gives one aspect of a field an arbitrary value.
func SetField(id string, f *astra.Field, aspect int) {
	switch aspect {
	case 0:
		f.Package = text(id)
	case 1:
		f.Type = text(id)
	case 2:
		f.Name = text(id)
	case 3:
		switch v.Choose(id+".enum", 3) {
		case 0:
			f.EnumValues = []any{text(id), "b"}
		case 1:
			f.EnumValues = []any{v.Int(id, -3, 3), 7}
		default:
			f.EnumValues = []any{v.Bool(id), 1.5}
		}
	case 4:
		f.IsRequired = v.Bool(id)
	case 5:
		f.IsEmbedded = v.Bool(id)
	case 6:
		f.SliceType = text(id)
	case 7:
		f.ArrayType, f.ArrayLength = text(id), int64(v.Int(id+".length", 0, 3))
	case 8:
		f.MapKeyPackage = text(id)
	case 9:
		f.MapKeyType = text(id)
	case 10:
		f.MapValueType = text(id)
	case 11:
		f.StructFields = map[string]astra.Field{"F": {Type: text(id)}, "G": {Type: "int", StructFields: map[string]astra.Field{"H": {Name: "h", Doc: text(id + ".nested")}}}}
	case 12:
		f.StructFieldBindingTags = astTraversal.BindingTagMap{"json": {Name: text(id), NotShown: v.Bool(id + ".hidden"), ReturnOptional: v.Bool(id + ".omit")}, "": {Name: "x"}}
		f.StructFieldValidationTags = astTraversal.ValidationTagMap{"binding": {IsRequired: v.Bool(id + ".required")}}
	case 13:
		f.ReferencePackage = text(id)
	default:
		f.Doc = text(id)
	}
}

// RouteAspects is how many aspects SetRoute knows.
const RouteAspects = 13

func param(id string, f astra.Field) astra.Param {
	return astra.Param{Name: text(id), Field: f, IsRequired: v.Bool(id + ".required"), IsArray: v.Bool(id + ".array"), IsMap: v.Bool(id + ".map"), IsBound: v.Bool(id + ".bound")}
}

// SetRoute gives one aspect of a route an arbitrary value; f is the field of the entry it makes.
func SetRoute(id string, r *astra.Route, aspect int, f astra.Field) {
	switch aspect {
	case 0:
		r.Handler = text(id)
	case 1:
		r.File = text(id)
	case 2:
		r.LineNo = v.Int(id, 0, 3)
	case 3:
		r.Method = text(id)
	case 4:
		r.Path = text(id)
	case 5:
		r.PathParams = []astra.Param{{Name: "p"}, param(id, f)}
	case 6:
		r.QueryParams = []astra.Param{param(id, f), {Name: "q"}}
	case 7:
		r.Body = []astra.BodyParam{{ContentType: text(id), Name: "b", Field: f, IsRequired: v.Bool(id + ".required"), IsArray: v.Bool(id + ".array")}, {ContentType: "c", Name: text(id + ".name"), IsMap: v.Bool(id + ".map"), IsBound: v.Bool(id + ".bound")}}
	case 8:
		r.ReturnTypes = []astra.ReturnType{{StatusCode: v.Int(id, 0, 3), ContentType: text(id + ".type"), Field: f}, {StatusCode: 200}}
	case 9:
		r.Doc = text(id)
	case 10:
		r.OperationID = text(id)
	case 11:
		r.RequestHeaders = []astra.Param{param(id, f)}
	default:
		r.ResponseHeaders = []astra.Param{param(id, f)}
	}
}

// CopyField copies a field deeply.
func CopyField(f astra.Field) astra.Field {
	f.EnumValues = append([]any(nil), f.EnumValues...)
	if f.StructFields != nil {
		m := map[string]astra.Field{}
		for k, x := range f.StructFields {
			m[k] = CopyField(x)
		}
		f.StructFields = m
	}
	return f
}

func copyParams(ps []astra.Param) []astra.Param {
	var out []astra.Param
	for _, p := range ps {
		p.Field = CopyField(p.Field)
		out = append(out, p)
	}
	return out
}

// CopyRoute copies a route deeply.
func CopyRoute(r astra.Route) astra.Route {
	r.PathParams, r.QueryParams, r.RequestHeaders, r.ResponseHeaders = copyParams(r.PathParams), copyParams(r.QueryParams), copyParams(r.RequestHeaders), copyParams(r.ResponseHeaders)
	var bs []astra.BodyParam
	for _, b := range r.Body {
		b.Field = CopyField(b.Field)
		bs = append(bs, b)
	}
	var ts []astra.ReturnType
	for _, t := range r.ReturnTypes {
		t.Field = CopyField(t.Field)
		ts = append(ts, t)
	}
	r.Body, r.ReturnTypes = bs, ts
	return r
}

// CopyRoutes copies routes deeply.
func CopyRoutes(rs []astra.Route) []astra.Route {
	var out []astra.Route
	for _, r := range rs {
		out = append(out, CopyRoute(r))
	}
	return out
}

// CopyFields copies fields deeply.
func CopyFields(fs []astra.Field) []astra.Field {
	var out []astra.Field
	for _, f := range fs {
		out = append(out, CopyField(f))
	}
	return out
}

// Digit is the decimal digit of i.
func Digit(i int) string { return strconv.Itoa(i) }
