package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Values of the interpreted program:
//
//	bool, uint64 (every integer kind, sign- or zero-extended to 64 bits by its type),
//	float64, complex128, string       concrete scalars
//	*Term                             symbolic Boolean or integer
//	*sstr                             string of concrete length with some symbolic bytes
//	structure, array                  aggregates
//	[]value                           slices
//	*value                            pointers
//	iface                             interface values
//	*hmap, *fnv, *hchan               maps, functions, channels
//	tuple                             multiple results
//	*poison                           result of an initialiser the engine could not run
type value = any

type structure []value
type array []value
type tuple []value

type sstr struct{ b []value }

type iface struct {
	t types.Type
	v value
}

type fnv struct {
	fn     *cfunc
	env    []value
	native func(w *worker, args []value) value
	name   string
}

type hchan struct{ buf []value }

type poison struct{ msg string }

// symAddr is the address of an element of a scalar array selected by a symbolic index.
type symAddr struct {
	base  []value
	idx   *Term
	width uint8 // of integer elements
}

// sliceData is the result of unsafe.SliceData / unsafe.StringData.
type sliceData struct{ s value }

// opaque wraps an engine-side object carried through the interpreted program.
type opaque struct{ v any }

type hent struct {
	k, v value
	dead bool
}

type hmap struct {
	ents []*hent
	idx  map[any]*hent
	sym  []*hent
	n    int
}

func newMap() *hmap { return &hmap{idx: map[any]*hent{}} }

type unsupported struct{ msg string }
type pathAbort struct{ why string }
type targetPanic struct{ v value }

func unsup(format string, a ...any) unsupported { return unsupported{fmt.Sprintf(format, a...)} }

// ---- canonical types

var (
	canonMu    sync.RWMutex
	canonPtr   = map[types.Type]types.Type{}
	canonTable typeutil.Map
)

func canon(t types.Type) types.Type {
	canonMu.RLock()
	c, ok := canonPtr[t]
	canonMu.RUnlock()
	if ok {
		return c
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	t0 := t
	t = types.Unalias(t)
	if v := canonTable.At(t); v != nil {
		c = v.(types.Type)
	} else {
		canonTable.Set(t, t)
		c = t
	}
	canonPtr[t0] = c
	canonPtr[t] = c
	return c
}

// ---- integer kinds

type ikind struct {
	w      uint8
	signed bool
}

func intKind(t types.Type) (ikind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ikind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return ikind{64, true}, true
	case types.Int8:
		return ikind{8, true}, true
	case types.Int16:
		return ikind{16, true}, true
	case types.Int32, types.UntypedRune:
		return ikind{32, true}, true
	case types.UntypedInt:
		return ikind{64, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return ikind{64, false}, true
	case types.Uint8:
		return ikind{8, false}, true
	case types.Uint16:
		return ikind{16, false}, true
	case types.Uint32:
		return ikind{32, false}, true
	}
	return ikind{}, false
}

// norm puts raw bits into the canonical form of kind k.
func (k ikind) norm(v uint64) uint64 {
	switch k.w {
	case 64:
		return v
	case 8:
		if k.signed {
			return uint64(int64(int8(v)))
		}
		return v & 0xff
	case 16:
		if k.signed {
			return uint64(int64(int16(v)))
		}
		return v & 0xffff
	case 32:
		if k.signed {
			return uint64(int64(int32(v)))
		}
		return v & 0xffffffff
	}
	return v
}

// ---- copying

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		c := make(structure, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	case array:
		c := make(array, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				c[i] = copyVal(x)
			default:
				c[i] = x
			}
		}
		return c
	}
	return v
}

func isAgg(v value) bool {
	switch v.(type) {
	case structure, array:
		return true
	}
	return false
}

// zero returns the zero value of t.
func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Alias:
		return zero(types.Unalias(t))
	case *types.Named:
		return zero(t.Underlying())
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Info()&types.IsString != 0:
			return ""
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		if len(a) > 0 {
			z := zero(t.Elem())
			for i := range a {
				a[i] = copyVal(z)
			}
		}
		return a
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*hmap)(nil)
	case *types.Signature:
		return (*fnv)(nil)
	case *types.Interface:
		return iface{}
	case *types.Chan:
		return (*hchan)(nil)
	case *types.TypeParam:
		panic(unsup("zero of type parameter"))
	}
	panic(unsup("zero of %v", t))
}

// ---- strings

func strLen(v value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *sstr:
		return len(v.b)
	}
	panic(unsup("len of %T", v))
}

func strAt(v value, i int) value {
	switch v := v.(type) {
	case string:
		return uint64(v[i])
	case *sstr:
		return v.b[i]
	}
	panic(unsup("string index of %T", v))
}

func strBytes(v value) []value {
	switch v := v.(type) {
	case string:
		b := make([]value, len(v))
		for i := 0; i < len(v); i++ {
			b[i] = uint64(v[i])
		}
		return b
	case *sstr:
		return v.b
	}
	panic(unsup("bytes of %T", v))
}

// mkStr makes a string of the bytes; b is not retained when it may be modified by the caller,
// so callers pass ownership.
func mkStr(b []value) value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &sstr{b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(uint64))
	}
	return string(bs)
}

func strSlice(v value, lo, hi int) value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *sstr:
		return mkStr(v.b[lo:hi:hi])
	}
	panic(unsup("slice of %T", v))
}

func strConcat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]value, 0, len(x)+len(y))
	return mkStr(append(append(r, x...), y...))
}

func strConcatAll(parts ...value) value {
	var r value = ""
	for _, p := range parts {
		r = strConcat(r, p)
	}
	return r
}

// goStr returns a concrete string or raises unsupported.
func goStr(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	panic(unsup("symbolic string where a concrete one is required"))
}

// ---- hashing of concrete map keys

type hkIface struct {
	t types.Type
	k any
}
type hkPair struct{ a, b any }

func hashKey(v value) (any, bool) {
	switch v := v.(type) {
	case bool, uint64, float64, string, *value, complex128, *hchan:
		return v, true
	case *fnv:
		return v, true
	case iface:
		if v.t == nil {
			return hkIface{}, true
		}
		switch v.v.(type) {
		case []value, *hmap, *fnv:
			panic(targetPanic{mkRuntimeError("runtime error: hash of unhashable type " + v.t.String())})
		}
		k, ok := hashKey(v.v)
		return hkIface{v.t, k}, ok
	case structure:
		return hashSeq(v)
	case array:
		return hashSeq(v)
	case *Term, *sstr:
		return nil, false
	case *opaque:
		return v, true
	case nil:
		return nil, true
	}
	panic(unsup("map key of %T", v))
}

func hashSeq(s []value) (any, bool) {
	var acc any = len(s)
	for _, x := range s {
		k, ok := hashKey(x)
		if !ok {
			return nil, false
		}
		acc = hkPair{acc, k}
	}
	return acc, true
}

var runtimeErrorType types.Type // runtime.errorString

func mkRuntimeError(msg string) value {
	return iface{runtimeErrorType, msg}
}
