package main

import (
	"encoding/base64"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// The encoding/json and yaml.v3 libraries are reflection-driven and lie outside the encoding;
// this file is their model: the struct-tag, omission, nil and ordering rules of both, over values
// that may be symbolic. JSON text is rendered exactly as encoding/json renders it. YAML text is a
// private rendering (flow style under a comment line); scalar quoting is taken to be sound.

type codec struct {
	yaml bool
}

type cfield struct {
	name      string
	path      []int
	omitEmpty bool
	quoted    bool
	typ       types.Type
	tagged    bool
	depth     int
}

func (c codec) fields(st *types.Struct) []cfield {
	var out []cfield
	var walk func(st *types.Struct, path []int, depth int, seen map[*types.Struct]bool)
	walk = func(st *types.Struct, path []int, depth int, seen map[*types.Struct]bool) {
		if seen[st] {
			return
		}
		seen[st] = true
		defer delete(seen, st)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i))
			p := append(append([]int{}, path...), i)
			key := "json"
			if c.yaml {
				key = "yaml"
			}
			tv := tag.Get(key)
			if c.yaml && tv == "" && !strings.Contains(string(tag), ":") {
				tv = string(tag)
			}
			if tv == "-" {
				continue
			}
			parts := strings.Split(tv, ",")
			name := parts[0]
			cf := cfield{path: p, typ: f.Type(), depth: depth, tagged: name != ""}
			inline := false
			for _, o := range parts[1:] {
				switch o {
				case "omitempty":
					cf.omitEmpty = true
				case "string":
					cf.quoted = true
				case "inline":
					inline = true
				}
			}
			et := f.Type()
			if pt, ok := et.Underlying().(*types.Pointer); ok {
				et = pt.Elem()
			}
			est, isStruct := et.Underlying().(*types.Struct)
			if c.yaml {
				if !f.Exported() && !f.Embedded() {
					continue
				}
				if inline {
					if isStruct {
						walk(est, p, depth+1, seen)
						continue
					}
					panic(unsup("inline yaml field of %v", f.Type()))
				}
				if !f.Exported() {
					continue
				}
				if name == "" {
					name = strings.ToLower(f.Name())
				}
				cf.name = name
				out = append(out, cf)
				continue
			}
			if f.Embedded() {
				if !f.Exported() && !isStruct {
					continue
				}
				if name == "" && isStruct {
					walk(est, p, depth+1, seen)
					continue
				}
				if !f.Exported() {
					continue
				}
			} else if !f.Exported() {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			cf.name = name
			out = append(out, cf)
		}
	}
	walk(st, nil, 0, map[*types.Struct]bool{})
	// dominance: least depth, then tagged; several dominant fields cancel out
	var res []cfield
	for i, f := range out {
		keep := true
		for j, g := range out {
			if i == j || f.name != g.name {
				continue
			}
			if g.depth < f.depth || g.depth == f.depth && (g.tagged == f.tagged || g.tagged) {
				keep = false
			}
		}
		if keep {
			res = append(res, f)
		}
	}
	return res
}

// fieldAt follows a field path; ok is false when an embedded pointer on it is nil.
func fieldAt(v value, path []int) (value, bool) {
	for i, p := range path {
		if i > 0 {
			if ptr, ok := v.(*value); ok {
				if ptr == nil {
					return nil, false
				}
				v = *ptr
			}
		}
		v = v.(structure)[p]
	}
	return v, true
}

type encoder struct {
	w     *worker
	c     codec
	out   []value
	html  bool
	depth int
}

func (e *encoder) str(s string) {
	for i := 0; i < len(s); i++ {
		e.out = append(e.out, uint64(s[i]))
	}
}

func (e *encoder) val(v value) { e.out = append(e.out, strBytes(v)...) }

type encErr struct{ msg string }

func (w *worker) isEmpty(t types.Type, v value, yaml bool) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return strLen(v) == 0
		case u.Info()&types.IsBoolean != 0:
			return w.not(v)
		case u.Info()&types.IsInteger != 0:
			return w.eq(v, uint64(0))
		case u.Info()&types.IsFloat != 0:
			return v.(float64) == 0
		}
	case *types.Slice:
		return len(v.([]value)) == 0
	case *types.Array:
		return len(v.(array)) == 0
	case *types.Map:
		m := v.(*hmap)
		return m == nil || m.n == 0
	case *types.Pointer:
		return v.(*value) == nil
	case *types.Interface:
		return v.(iface).t == nil
	case *types.Struct:
		if !yaml {
			return false
		}
		var r value = true
		for i, x := range v.(structure) {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			r = w.and(r, w.isEmpty(f.Type(), x, true))
		}
		return r
	case *types.Signature:
		return false
	}
	return false
}

func (e *encoder) encode(t types.Type, v value) {
	w := e.w
	e.depth++
	defer func() { e.depth-- }()
	if e.depth > 500 {
		panic(unsup("cyclic value in encoder"))
	}
	if p, ok := v.(*value); ok && p == nil {
		if _, isP := t.Underlying().(*types.Pointer); isP {
			e.str("null")
			return
		}
	}
	if !e.c.yaml {
		if _, isI := t.Underlying().(*types.Interface); !isI && w.hasMethod(t, "MarshalJSON") {
			r := w.callMethod(iface{canon(t), v}, "MarshalJSON", nil).(tuple)
			if r[1].(iface).t != nil {
				panic(encErr{"MarshalJSON"})
			}
			e.out = append(e.out, r[0].([]value)...)
			return
		}
	} else if _, isI := t.Underlying().(*types.Interface); !isI && w.hasMethod(t, "MarshalYAML") {
		r := w.callMethod(iface{canon(t), v}, "MarshalYAML", nil).(tuple)
		if r[1].(iface).t != nil {
			panic(encErr{"MarshalYAML"})
		}
		i := r[0].(iface)
		if i.t == nil {
			e.str("null")
			return
		}
		e.encode(i.t, i.v)
		return
	}
	if _, isI := t.Underlying().(*types.Interface); !isI && w.hasMethod(t, "MarshalText") {
		r := w.callMethod(iface{canon(t), v}, "MarshalText", nil).(tuple)
		if r[1].(iface).t != nil {
			panic(encErr{"MarshalText"})
		}
		e.quote(mkStr(r[0].([]value)))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			e.quote(v)
			return
		case u.Info()&types.IsBoolean != 0:
			if w.branch(v) {
				e.str("true")
			} else {
				e.str("false")
			}
			return
		case u.Info()&types.IsInteger != 0:
			e.val(w.formatVal(t, v, 'd', false, false, 0))
			return
		case u.Info()&types.IsFloat != 0:
			f := v.(float64)
			if math.IsNaN(f) || math.IsInf(f, 0) {
				panic(encErr{"unsupported value"})
			}
			e.str(jsonFloat(f, u.Kind() == types.Float32))
			return
		}
	case *types.Pointer:
		e.encode(u.Elem(), *v.(*value))
		return
	case *types.Interface:
		i := v.(iface)
		if i.t == nil {
			e.str("null")
			return
		}
		e.encode(i.t, i.v)
		return
	case *types.Slice:
		s := v.([]value)
		if s == nil {
			if e.c.yaml {
				e.str("[]")
			} else {
				e.str("null")
			}
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && !e.c.yaml {
			x, ok := mkStr(append([]value(nil), s...)).(string)
			if !ok {
				panic(unsup("base64 of symbolic bytes"))
			}
			e.quote(base64.StdEncoding.EncodeToString([]byte(x)))
			return
		}
		e.list(u.Elem(), s)
		return
	case *types.Array:
		e.list(u.Elem(), v.(array))
		return
	case *types.Map:
		m := v.(*hmap)
		if m == nil {
			if e.c.yaml {
				e.str("{}")
			} else {
				e.str("null")
			}
			return
		}
		e.str("{")
		for i, x := range w.sortedEnts(m) {
			if i > 0 {
				e.str(",")
			}
			switch k := x.k.(type) {
			case string, *sstr:
				e.quote(k)
			case uint64, *Term:
				if e.c.yaml {
					panic(unsup("integer map keys in yaml"))
				}
				e.quote(w.formatVal(u.Key(), k, 'd', false, false, 0))
			default:
				panic(unsup("map key %T in encoder", k))
			}
			e.str(":")
			e.encode(u.Elem(), x.v)
		}
		e.str("}")
		return
	case *types.Struct:
		e.str("{")
		first := true
		for _, f := range e.c.fields(u) {
			x, ok := fieldAt(v, f.path)
			if !ok {
				continue
			}
			if f.omitEmpty && w.branch(w.isEmpty(f.typ, x, e.c.yaml)) {
				continue
			}
			if !first {
				e.str(",")
			}
			first = false
			e.quote(f.name)
			e.str(":")
			if f.quoted {
				panic(unsup("the string tag option"))
			}
			e.encode(f.typ, x)
		}
		e.str("}")
		return
	case *types.Signature, *types.Chan:
		if e.c.yaml {
			panic(targetPanic{iface{canon(tString), "cannot marshal type: " + t.String()}})
		}
		panic(encErr{"unsupported type " + t.String()})
	}
	panic(unsup("encoding of %v", t))
}

func (e *encoder) list(t types.Type, s []value) {
	e.str("[")
	for i, x := range s {
		if i > 0 {
			e.str(",")
		}
		e.encode(t, x)
	}
	e.str("]")
}

func jsonFloat(f float64, is32 bool) string {
	abs := math.Abs(f)
	bitsz := 64
	if is32 {
		bitsz = 32
	}
	fm := byte('f')
	if abs != 0 && (!is32 && (abs < 1e-6 || abs >= 1e21) || is32 && (float32(abs) < 1e-6 || float32(abs) >= 1e21)) {
		fm = 'e'
	}
	b := strconv.AppendFloat(nil, f, fm, -1, bitsz)
	if fm == 'e' {
		if n := len(b); n >= 4 && b[n-4] == 'e' && (b[n-3] == '-' || b[n-3] == '+') && b[n-2] == '0' {
			b[n-2] = b[n-1]
			b = b[:n-1]
		}
	}
	return string(b)
}

const hexDigits = "0123456789abcdef"

// quote renders a string literal as encoding/json does.
func (e *encoder) quote(s value) {
	w := e.w
	e.str("\"")
	bs := strBytes(s)
	for i := 0; i < len(bs); {
		var c byte
		switch b := bs[i].(type) {
		case uint64:
			c = byte(b)
		case *Term:
			tt := w.tt
			lt := func(n uint64) *Term { return tt.Bin(tUlt, b, tt.Const(n, 8)) }
			is := func(n byte) *Term { return tt.Eq(b, tt.Const(uint64(n), 8)) }
			special := tt.Or(tt.Or(lt(0x20), is('"')), is('\\'))
			if e.html {
				special = tt.Or(special, tt.Or(is('<'), tt.Or(is('>'), is('&'))))
			}
			plain := tt.And(tt.Not(special), lt(0x80))
			if w.branch(w.boolv(plain)) {
				e.out = append(e.out, b)
				i++
				continue
			}
			if w.branch(w.boolv(tt.Not(lt(0x80)))) {
				panic(unsup("JSON text of a symbolic non-ASCII byte"))
			}
			c = byte(w.concretize(b))
		}
		if c >= utf8.RuneSelf {
			var buf [4]byte
			l := 0
			for l < 4 && i+l < len(bs) {
				x, ok := bs[i+l].(uint64)
				if !ok {
					break
				}
				buf[l] = byte(x)
				l++
			}
			r, sz := utf8.DecodeRune(buf[:l])
			switch {
			case r == utf8.RuneError && sz == 1:
				e.str("\\ufffd")
			case r == '\u2028' || r == '\u2029':
				e.str("\\u202" + string(hexDigits[r&0xf]))
			default:
				e.str(string(buf[:sz]))
			}
			i += sz
			continue
		}
		switch {
		case c == '"' || c == '\\':
			e.str("\\" + string(rune(c)))
		case c == '\n':
			e.str("\\n")
		case c == '\r':
			e.str("\\r")
		case c == '\t':
			e.str("\\t")
		case c == '\b':
			e.str("\\b")
		case c == '\f':
			e.str("\\f")
		case c < 0x20 || e.html && (c == '<' || c == '>' || c == '&'):
			e.str("\\u00" + string(hexDigits[c>>4]) + string(hexDigits[c&0xf]))
		default:
			e.out = append(e.out, uint64(c))
		}
		i++
	}
	e.str("\"")
}

// indent is json.Indent over text whose symbolic bytes are never structural.
func indentText(src []value, prefix, ind string) []value {
	var out []value
	str := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, uint64(s[i]))
		}
	}
	nl := func(d int) {
		str("\n" + prefix)
		for ; d > 0; d-- {
			str(ind)
		}
	}
	depth := 0
	need := false
	inStr := false
	for i := 0; i < len(src); i++ {
		c, conc := src[i].(uint64)
		if inStr {
			out = append(out, src[i])
			if conc && c == '\\' {
				i++
				out = append(out, src[i])
			} else if conc && c == '"' {
				inStr = false
			}
			continue
		}
		if !conc {
			if need {
				need = false
				depth++
				nl(depth)
			}
			out = append(out, src[i])
			continue
		}
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			continue
		}
		if need && c != ']' && c != '}' {
			need = false
			depth++
			nl(depth)
		}
		switch c {
		case '"':
			inStr = true
			out = append(out, c)
		case '{', '[':
			need = true
			out = append(out, c)
		case ',':
			out = append(out, c)
			nl(depth)
		case ':':
			str(": ")
		case '}', ']':
			if need {
				need = false
			} else {
				depth--
				nl(depth)
			}
			out = append(out, c)
		default:
			out = append(out, c)
		}
	}
	return out
}

func (w *worker) encodeTop(c codec, html bool, v iface) (b []value, err value) {
	e := &encoder{w: w, c: c, html: html}
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(encErr)
			if !ok {
				panic(r)
			}
			b, err = nil, w.newError(x.msg)
		}
	}()
	if v.t == nil {
		e.str("null")
	} else {
		e.encode(v.t, v.v)
	}
	return e.out, iface{}
}

// ---- decoding

type decoder struct {
	w   *worker
	c   codec
	src []value
	pos int
	bad string // first type mismatch
}

type decErr struct{ msg string }

// byteAt returns the byte at the position, resolving symbolic bytes to structure or plain.
func (d *decoder) peek() (byte, bool) {
	if d.pos >= len(d.src) {
		return 0, false
	}
	switch b := d.src[d.pos].(type) {
	case uint64:
		return byte(b), true
	case *Term:
		return byte(d.w.concretize(b)), true
	}
	panic(unsup("decoder input"))
}

func (d *decoder) ws() {
	for {
		if d.pos >= len(d.src) {
			return
		}
		c, _ := d.peek()
		if c != ' ' && c != '\t' && c != '\n' && c != '\r' {
			return
		}
		d.pos++
	}
}

// jval is a parsed JSON value.
type jval struct {
	kind byte // n b s # [ {
	b    bool
	s    value // string, or number text
	list []*jval
	keys []value
}

func (d *decoder) parse(depth int) *jval {
	if depth > 1000 {
		panic(decErr{"exceeded max depth"})
	}
	d.ws()
	if d.pos >= len(d.src) {
		panic(decErr{"unexpected end of JSON input"})
	}
	if t, ok := d.src[d.pos].(*Term); ok {
		// a symbolic digit of a rendered number
		w := d.w
		dig := w.tt.And(w.tt.Bin(tUle, w.tt.Const('0', 8), t), w.tt.Bin(tUle, t, w.tt.Const('9', 8)))
		if w.branch(w.boolv(dig)) {
			return d.number()
		}
	}
	c, _ := d.peek()
	switch {
	case c == '{':
		d.pos++
		v := &jval{kind: '{'}
		d.ws()
		if c, ok := d.peek(); ok && c == '}' {
			d.pos++
			return v
		}
		for {
			d.ws()
			if c, ok := d.peek(); !ok || c != '"' {
				panic(decErr{"expected object key"})
			}
			v.keys = append(v.keys, d.strLit())
			d.ws()
			if c, ok := d.peek(); !ok || c != ':' {
				panic(decErr{"expected colon"})
			}
			d.pos++
			v.list = append(v.list, d.parse(depth+1))
			d.ws()
			c, ok := d.peek()
			if ok && c == ',' {
				d.pos++
				continue
			}
			if ok && c == '}' {
				d.pos++
				return v
			}
			panic(decErr{"expected comma or brace"})
		}
	case c == '[':
		d.pos++
		v := &jval{kind: '['}
		d.ws()
		if c, ok := d.peek(); ok && c == ']' {
			d.pos++
			return v
		}
		for {
			v.list = append(v.list, d.parse(depth+1))
			d.ws()
			c, ok := d.peek()
			if ok && c == ',' {
				d.pos++
				continue
			}
			if ok && c == ']' {
				d.pos++
				return v
			}
			panic(decErr{"expected comma or bracket"})
		}
	case c == '"':
		return &jval{kind: 's', s: d.strLit()}
	case c == '-' || c >= '0' && c <= '9':
		return d.number()
	}
	for _, lit := range []string{"null", "true", "false"} {
		if lit[0] != c {
			continue
		}
		for i := 0; i < len(lit); i++ {
			if x, ok := d.peek(); !ok || x != lit[i] {
				panic(decErr{"invalid literal"})
			}
			d.pos++
		}
		if lit == "null" {
			return &jval{kind: 'n'}
		}
		return &jval{kind: 'b', b: lit == "true"}
	}
	panic(decErr{"invalid character"})
}

func (d *decoder) number() *jval {
	start := d.pos
	w := d.w
	for d.pos < len(d.src) {
		switch b := d.src[d.pos].(type) {
		case uint64:
			if !strings.ContainsRune("+-0123456789.eE", rune(b)) {
				goto done
			}
		case *Term:
			dig := w.tt.And(w.tt.Bin(tUle, w.tt.Const('0', 8), b), w.tt.Bin(tUle, b, w.tt.Const('9', 8)))
			if !w.branch(w.boolv(dig)) {
				goto done
			}
		}
		d.pos++
	}
done:
	s := mkStr(append([]value(nil), d.src[start:d.pos]...))
	if x, ok := s.(string); ok {
		y := strings.TrimPrefix(x, "-")
		if len(y) > 1 && y[0] == '0' && y[1] >= '0' && y[1] <= '9' || y == "" || y[0] == '.' || strings.HasSuffix(y, ".") {
			panic(decErr{"invalid number"})
		}
		if _, err := strconv.ParseFloat(x, 64); err != nil && !strings.Contains(err.Error(), "range") {
			panic(decErr{"invalid number"})
		}
	}
	return &jval{kind: '#', s: s}
}

func (d *decoder) strLit() value {
	w := d.w
	d.pos++
	var out []value
	for {
		if d.pos >= len(d.src) {
			panic(decErr{"unterminated string"})
		}
		var c byte
		switch b := d.src[d.pos].(type) {
		case uint64:
			c = byte(b)
		case *Term:
			tt := w.tt
			lt := func(n uint64) *Term { return tt.Bin(tUlt, b, tt.Const(n, 8)) }
			is := func(n byte) *Term { return tt.Eq(b, tt.Const(uint64(n), 8)) }
			plain := tt.And(tt.Not(tt.Or(tt.Or(lt(0x20), is('"')), is('\\'))), lt(0x80))
			if w.branch(w.boolv(plain)) {
				out = append(out, b)
				d.pos++
				continue
			}
			if w.branch(w.boolv(tt.Not(lt(0x80)))) {
				panic(unsup("JSON decoding of a symbolic non-ASCII byte"))
			}
			c = byte(w.concretize(b))
		}
		if c == '"' {
			d.pos++
			return mkStr(out)
		}
		if c < 0x20 {
			panic(decErr{"control character in string"})
		}
		if c != '\\' {
			if c >= 0x80 {
				var buf [4]byte
				l := 0
				for l < 4 && d.pos+l < len(d.src) {
					x, ok := d.src[d.pos+l].(uint64)
					if !ok {
						break
					}
					buf[l] = byte(x)
					l++
				}
				r, sz := utf8.DecodeRune(buf[:l])
				if r == utf8.RuneError && sz == 1 {
					out = append(out, uint64(0xef), uint64(0xbf), uint64(0xbd))
				} else {
					for i := 0; i < sz; i++ {
						out = append(out, uint64(buf[i]))
					}
				}
				d.pos += sz
				continue
			}
			out = append(out, uint64(c))
			d.pos++
			continue
		}
		d.pos++
		e, ok := d.peek()
		if !ok {
			panic(decErr{"unterminated escape"})
		}
		d.pos++
		switch e {
		case '"', '\\', '/':
			out = append(out, uint64(e))
		case 'n':
			out = append(out, uint64('\n'))
		case 't':
			out = append(out, uint64('\t'))
		case 'r':
			out = append(out, uint64('\r'))
		case 'b':
			out = append(out, uint64('\b'))
		case 'f':
			out = append(out, uint64('\f'))
		case 'u':
			h4 := func() rune {
				var h [4]byte
				for i := range h {
					x, ok := d.peek()
					if !ok {
						panic(decErr{"bad unicode escape"})
					}
					h[i] = x
					d.pos++
				}
				n, err := strconv.ParseUint(string(h[:]), 16, 32)
				if err != nil {
					panic(decErr{"bad unicode escape"})
				}
				return rune(n)
			}
			r := h4()
			if r >= 0xd800 && r < 0xdc00 && d.pos+1 < len(d.src) && d.src[d.pos] == uint64('\\') && d.src[d.pos+1] == uint64('u') {
				d.pos += 2
				r2 := h4()
				if r2 >= 0xdc00 && r2 < 0xe000 {
					r = (r-0xd800)<<10 | (r2 - 0xdc00) + 0x10000
				} else {
					r = utf8.RuneError
				}
			}
			if r >= 0xd800 && r < 0xe000 {
				r = utf8.RuneError
			}
			for _, x := range []byte(string(r)) {
				out = append(out, uint64(x))
			}
		default:
			panic(decErr{"bad escape"})
		}
	}
}

func (d *decoder) mismatch(v *jval, t types.Type) {
	if d.bad == "" {
		d.bad = "cannot unmarshal " + string(rune(v.kind)) + " into Go value of type " + t.String()
	}
}

// store decodes v into *p of type t.
func (d *decoder) store(v *jval, t types.Type, p *value) {
	w := d.w
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if v.kind == 'n' {
			w.store(p, (*value)(nil), false)
			return
		}
		q, _ := (*p).(*value)
		if q == nil {
			q = new(value)
			*q = zero(pt.Elem())
			w.store(p, q, false)
		}
		d.store(v, pt.Elem(), q)
		return
	}
	meth := "UnmarshalJSON"
	if d.c.yaml {
		meth = "UnmarshalYAML"
	}
	if _, isI := t.Underlying().(*types.Interface); !isI && (w.hasMethod(types.NewPointer(t), meth) || w.hasMethod(types.NewPointer(t), "UnmarshalText")) {
		panic(unsup("custom unmarshaler of %v", t))
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			d.mismatch(v, t)
			return
		}
		w.store(p, d.any(v), false)
		return
	case *types.Basic:
		if v.kind == 'n' {
			if d.c.yaml {
				w.store(p, zero(t), false)
			}
			return
		}
		switch {
		case u.Info()&types.IsString != 0:
			if v.kind == 's' {
				w.store(p, v.s, false)
				return
			}
			if d.c.yaml && (v.kind == '#') {
				w.store(p, v.s, false)
				return
			}
		case u.Info()&types.IsBoolean != 0:
			if v.kind == 'b' {
				w.store(p, v.b, false)
				return
			}
		case u.Info()&types.IsInteger != 0:
			if v.kind == '#' {
				if n, ok := d.parseInt(v.s, u); ok {
					w.store(p, n, false)
					return
				}
			}
		case u.Info()&types.IsFloat != 0:
			if v.kind == '#' {
				if s, ok := v.s.(string); ok {
					f, err := strconv.ParseFloat(s, 64)
					if err == nil {
						w.store(p, f, false)
						return
					}
				} else {
					panic(unsup("symbolic number decoded as float"))
				}
			}
		}
		d.mismatch(v, t)
		return
	case *types.Slice:
		if v.kind == 'n' {
			w.store(p, []value(nil), false)
			return
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && v.kind == 's' && !d.c.yaml {
			s, ok := v.s.(string)
			if !ok {
				panic(unsup("base64 of symbolic bytes"))
			}
			bs, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				panic(decErr{"base64"})
			}
			r := make([]value, len(bs))
			for i, x := range bs {
				r[i] = uint64(x)
			}
			w.store(p, r, false)
			return
		}
		if v.kind != '[' {
			d.mismatch(v, t)
			return
		}
		old, _ := (*p).([]value)
		r := make([]value, len(v.list))
		for i := range r {
			// encoding/json reuses the elements of the existing backing array
			if i < cap(old) && !d.c.yaml {
				r[i] = copyVal(old[:cap(old)][i])
				if i >= len(old) {
					r[i] = zero(u.Elem())
				}
			} else {
				r[i] = zero(u.Elem())
			}
			d.store(v.list[i], u.Elem(), &r[i])
		}
		w.store(p, r, false)
		return
	case *types.Array:
		if v.kind == 'n' {
			return
		}
		if v.kind != '[' {
			d.mismatch(v, t)
			return
		}
		a := copyVal(*p).(array)
		for i := range a {
			if i < len(v.list) {
				d.store(v.list[i], u.Elem(), &a[i])
			} else {
				a[i] = zero(u.Elem())
			}
		}
		w.store(p, a, false)
		return
	case *types.Map:
		if v.kind == 'n' {
			w.store(p, (*hmap)(nil), false)
			return
		}
		if v.kind != '{' {
			d.mismatch(v, t)
			return
		}
		m, _ := (*p).(*hmap)
		if m == nil {
			m = newMap()
			w.store(p, m, false)
		}
		for i, k := range v.keys {
			var kv value = k
			kb, ok := u.Key().Underlying().(*types.Basic)
			if !ok {
				panic(unsup("map key %v in decoder", u.Key()))
			}
			if kb.Info()&types.IsInteger != 0 {
				n, ok := d.parseInt(k, kb)
				if !ok {
					d.mismatch(&jval{kind: 's'}, u.Key())
					continue
				}
				kv = n
			}
			if _, isI := u.Key().Underlying().(*types.Interface); isI {
				kv = iface{canon(tString), k}
			}
			x := new(value)
			*x = zero(u.Elem())
			d.store(v.list[i], u.Elem(), x)
			w.mapSet(m, kv, *x)
		}
		return
	case *types.Struct:
		if v.kind == 'n' {
			return
		}
		if v.kind != '{' {
			d.mismatch(v, t)
			return
		}
		fs := d.c.fields(u)
		for i, k := range v.keys {
			var hit *cfield
			for j := range fs {
				if w.branch(w.eq(k, fs[j].name)) {
					hit = &fs[j]
					break
				}
			}
			if hit == nil && !d.c.yaml {
				ks, ok := k.(string)
				if !ok {
					// a symbolic key that matches no field exactly: compare folded
					for j := range fs {
						if strLen(k) == len(fs[j].name) && w.branch(w.foldEq(k, fs[j].name)) {
							hit = &fs[j]
							break
						}
					}
				} else {
					for j := range fs {
						if strings.EqualFold(ks, fs[j].name) {
							hit = &fs[j]
							break
						}
					}
				}
			}
			if hit == nil {
				continue
			}
			q := p
			cur := u
			for n, ix := range hit.path {
				if n > 0 {
					if ptr, ok := (*q).(*value); ok {
						pt := cur.Field(hit.path[n-1]).Type().Underlying().(*types.Pointer)
						if ptr == nil {
							ptr = new(value)
							*ptr = zero(pt.Elem())
							w.store(q, ptr, false)
						}
						q = ptr
						cur = pt.Elem().Underlying().(*types.Struct)
					} else {
						cur = cur.Field(hit.path[n-1]).Type().Underlying().(*types.Struct)
					}
				}
				s := (*q).(structure)
				q = &s[ix]
			}
			d.store(v.list[i], hit.typ, q)
		}
		return
	case *types.Signature, *types.Chan:
		if v.kind == 'n' {
			return
		}
		d.mismatch(v, t)
		return
	}
	panic(unsup("decoding into %v", t))
}

// foldEq compares ASCII strings of equal length ignoring case.
func (w *worker) foldEq(k value, name string) value {
	var r value = true
	for i := 0; i < len(name); i++ {
		c := name[i]
		x := w.eq(strAt(k, i), uint64(c))
		if c >= 'a' && c <= 'z' {
			x = w.or(x, w.eq(strAt(k, i), uint64(c-32)))
		} else if c >= 'A' && c <= 'Z' {
			x = w.or(x, w.eq(strAt(k, i), uint64(c+32)))
		}
		r = w.and(r, x)
	}
	return r
}

func (d *decoder) parseInt(s value, b *types.Basic) (value, bool) {
	k, _ := intKind(b)
	if x, ok := s.(string); ok {
		if k.signed {
			n, err := strconv.ParseInt(x, 10, int(k.w))
			return uint64(n), err == nil
		}
		n, err := strconv.ParseUint(x, 10, int(k.w))
		return n, err == nil
	}
	w := d.w
	bs := strBytes(s)
	neg := false
	if len(bs) > 0 && bs[0] == uint64('-') {
		neg = true
		bs = bs[1:]
	}
	if len(bs) > 18 {
		panic(unsup("long symbolic number"))
	}
	tt := w.tt
	wd := uint8(4 * len(bs))
	if wd < 8 {
		wd = 8
	}
	acc := tt.Const(0, wd)
	for _, x := range bs {
		t := w.term(x, 8)
		if u, ok := x.(uint64); ok && (u < '0' || u > '9') {
			return nil, false
		}
		acc = tt.Bin(tAdd, tt.Bin(tMul, acc, tt.Const(10, wd)), tt.ZExt(tt.Bin(tAdd, t, tt.Const(0xd0, 8)), wd))
	}
	r := tt.ZExt(acc, 64)
	if neg {
		r = tt.Neg(r)
	}
	if k.w < 64 {
		r = tt.Trunc(r, k.w)
	}
	return w.unterm(r, k), true
}

func (d *decoder) any(v *jval) value {
	switch v.kind {
	case 'n':
		return iface{}
	case 'b':
		return iface{canon(types.Typ[types.Bool]), v.b}
	case 's':
		return iface{canon(tString), v.s}
	case '#':
		s, ok := v.s.(string)
		if d.c.yaml {
			if n, ok := d.parseInt(v.s, types.Typ[types.Int]); ok {
				return iface{canon(tInt), n}
			}
		}
		if !ok {
			n, ok := d.parseInt(v.s, types.Typ[types.Int])
			if !ok {
				panic(unsup("symbolic number"))
			}
			return iface{canon(types.Typ[types.Float64]), float64(int64(d.w.concInt(n, tInt)))}
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			panic(decErr{"number out of range"})
		}
		return iface{canon(types.Typ[types.Float64]), f}
	case '[':
		r := make([]value, len(v.list))
		for i, x := range v.list {
			r[i] = d.any(x)
		}
		return iface{canon(types.NewSlice(anyType)), r}
	case '{':
		m := newMap()
		for i, k := range v.keys {
			d.w.mapSet(m, k, d.any(v.list[i]))
		}
		return iface{canon(types.NewMap(tString, anyType)), m}
	}
	panic(unsup("decoded value"))
}

var anyType = types.Universe.Lookup("any").Type()

// decodeTop decodes one value; strict requires that nothing but space follows it.
func (w *worker) decodeTop(c codec, src []value, dst iface, strict bool) (n int, err value) {
	p, ok := dst.v.(*value)
	if !ok || p == nil {
		return 0, w.newError("json: Unmarshal(non-pointer)")
	}
	d := &decoder{w: w, c: c, src: src}
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(decErr)
			if !ok {
				panic(r)
			}
			n, err = d.pos, w.newError(x.msg)
		}
	}()
	if c.yaml {
		// a comment line heads the private rendering
		d.ws()
		for {
			if b, ok := d.peek(); ok && b == '#' {
				for {
					b, ok := d.peek()
					if !ok {
						break
					}
					d.pos++
					if b == '\n' {
						break
					}
				}
				d.ws()
				continue
			}
			break
		}
		if d.pos >= len(d.src) {
			if strict {
				return d.pos, iface{} // an empty document decodes to nothing
			}
			return d.pos, w.eofError()
		}
	}
	if !strict && !c.yaml {
		d.ws()
		if d.pos >= len(d.src) {
			return d.pos, w.eofError()
		}
	}
	v := d.parse(0)
	if strict || c.yaml {
		d.ws()
		if d.pos < len(d.src) {
			panic(decErr{"invalid character after top-level value"})
		}
	}
	d.store(v, dst.t.Underlying().(*types.Pointer).Elem(), p)
	if d.bad != "" {
		return d.pos, w.newError(d.bad)
	}
	return d.pos, iface{}
}

func (w *worker) eofError() value {
	g, ok := w.eng.pkgs["io"].Members["EOF"]
	if !ok {
		return w.newError("EOF")
	}
	w.prog.ensureInit(w.eng.pkgs["io"])
	return *w.prog.global(g.(*ssa.Global))
}

func (w *worker) readAll(r iface) ([]value, value) {
	var out []value
	for i := 0; i < 1000; i++ {
		buf := make([]value, 4096)
		for j := range buf {
			buf[j] = uint64(0)
		}
		res := w.callMethod(r, "Read", []value{buf}).(tuple)
		n := int(w.concInt(res[0], tInt))
		out = append(out, buf[:n]...)
		e := res[1].(iface)
		if e.t != nil {
			eof := w.eofError().(iface)
			if e.t == eof.t && e.v == eof.v {
				return out, iface{}
			}
			return out, e
		}
	}
	panic(unsup("reader does not end"))
}

func yamlText(b []value) []value {
	out := []value{}
	for _, c := range []byte("# yaml\n") {
		out = append(out, uint64(c))
	}
	out = append(out, b...)
	return append(out, uint64('\n'))
}

func addCodec(in map[string]intrinsic) {
	js, ym := codec{}, codec{yaml: true}
	in["encoding/json.Marshal"] = func(w *worker, fr *frame, a []value) value {
		b, err := w.encodeTop(js, true, a[0].(iface))
		return tuple{b, err}
	}
	in["encoding/json.MarshalIndent"] = func(w *worker, fr *frame, a []value) value {
		b, err := w.encodeTop(js, true, a[0].(iface))
		if err.(iface).t == nil {
			b = indentText(b, goStr(a[1]), goStr(a[2]))
		}
		return tuple{b, err}
	}
	in["encoding/json.Indent"] = func(w *worker, fr *frame, a []value) value {
		b := indentText(a[1].([]value), goStr(a[2]), goStr(a[3]))
		r := w.writeTo(iface{canon(types.NewPointer(w.eng.namedType("bytes", "Buffer"))), a[0]}, mkStr(b)).(tuple)
		return r[1]
	}
	in["encoding/json.Valid"] = func(w *worker, fr *frame, a []value) value {
		x := new(value)
		*x = iface{}
		_, err := w.decodeTop(js, a[0].([]value), iface{canon(types.NewPointer(anyType)), x}, true)
		return err.(iface).t == nil
	}
	in["encoding/json.Unmarshal"] = func(w *worker, fr *frame, a []value) value {
		_, err := w.decodeTop(js, a[0].([]value), a[1].(iface), true)
		return err
	}
	in["gopkg.in/yaml.v3.Marshal"] = func(w *worker, fr *frame, a []value) value {
		b, err := w.encodeTop(ym, false, a[0].(iface))
		if err.(iface).t == nil {
			b = yamlText(b)
		}
		return tuple{b, err}
	}
	in["gopkg.in/yaml.v3.Unmarshal"] = func(w *worker, fr *frame, a []value) value {
		_, err := w.decodeTop(ym, a[0].([]value), a[1].(iface), true)
		return err
	}
	for _, lib := range []struct {
		pkg string
		c   codec
	}{{"encoding/json", js}, {"gopkg.in/yaml.v3", ym}} {
		lib := lib
		in[lib.pkg+".NewDecoder"] = func(w *worker, fr *frame, a []value) value {
			p := new(value)
			*p = structure{&opaque{a[0]}, []value(nil), false}
			return p
		}
		in["(*"+lib.pkg+".Decoder).Decode"] = func(w *worker, fr *frame, a []value) value {
			s := (*a[0].(*value)).(structure)
			if s[2] == false {
				b, err := w.readAll(s[0].(*opaque).v.(iface))
				if err.(iface).t != nil {
					return err
				}
				w.store(&s[1], b, false)
				w.store(&s[2], true, false)
			}
			b := s[1].([]value)
			n, err := w.decodeTop(lib.c, b, a[1].(iface), false)
			w.store(&s[1], b[min(n, len(b)):], false)
			return err
		}
		in["(*"+lib.pkg+".Decoder).DisallowUnknownFields"] = func(w *worker, fr *frame, a []value) value { panic(unsup("DisallowUnknownFields")) }
		in[lib.pkg+".NewEncoder"] = func(w *worker, fr *frame, a []value) value {
			p := new(value)
			*p = structure{&opaque{a[0]}, "", "", true}
			return p
		}
		in["(*"+lib.pkg+".Encoder).SetIndent"] = func(w *worker, fr *frame, a []value) value {
			if lib.c.yaml {
				return nil
			}
			s := (*a[0].(*value)).(structure)
			w.store(&s[1], a[1], false)
			w.store(&s[2], a[2], false)
			return nil
		}
		in["(*"+lib.pkg+".Encoder).SetEscapeHTML"] = func(w *worker, fr *frame, a []value) value {
			s := (*a[0].(*value)).(structure)
			w.store(&s[3], a[1], false)
			return nil
		}
		in["(*"+lib.pkg+".Encoder).Close"] = func(w *worker, fr *frame, a []value) value { return iface{} }
		in["(*"+lib.pkg+".Encoder).Encode"] = func(w *worker, fr *frame, a []value) value {
			s := (*a[0].(*value)).(structure)
			b, err := w.encodeTop(lib.c, s[3].(bool) && !lib.c.yaml, a[1].(iface))
			if err.(iface).t != nil {
				return err
			}
			if lib.c.yaml {
				b = yamlText(b)
			} else {
				if s[1] != "" || s[2] != "" {
					b = indentText(b, goStr(s[1]), goStr(s[2]))
				}
				b = append(b, uint64('\n'))
			}
			r := w.callMethod(s[0].(*opaque).v.(iface), "Write", []value{b}).(tuple)
			return r[1]
		}
	}
}
