package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var tString = types.Typ[types.String]
var tInt = types.Typ[types.Int]

func skipInit(path string) bool {
	switch path {
	case "runtime", "syscall", "internal/cpu", "internal/poll", "internal/syscall/unix", "os/exec", "net", "net/http", "crypto/tls", "github.com/mattn/go-isatty", "github.com/mattn/go-colorable", "internal/godebug":
		return true
	}
	return strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime/")
}

var noop intrinsic = func(w *worker, fr *frame, a []value) value { return nil }

func zeroResult(fn *ssa.Function) intrinsic {
	res := fn.Signature.Results()
	return func(w *worker, fr *frame, a []value) value {
		switch res.Len() {
		case 0:
			return nil
		case 1:
			return zero(res.At(0).Type())
		}
		return zero(res)
	}
}

// lookupIntrinsic finds the engine's own implementation of a function, if it has one.
func lookupIntrinsic(fn *ssa.Function, c *cfunc) intrinsic {
	name := c.name
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := intrinsics[name]; ok {
		return f
	}
	switch {
	case strings.HasPrefix(name, "(*github.com/rs/zerolog.Event)."), strings.HasPrefix(name, "(*github.com/rs/zerolog.Logger)."):
		return zeroResult(fn)
	case strings.HasPrefix(name, "(github.com/rs/zerolog.Context)."):
		if fn.Signature.Results().Len() == 1 && strings.HasSuffix(name, ").Logger") {
			// the first field of Context is the logger
			return func(w *worker, fr *frame, a []value) value { return copyVal(a[0].(structure)[0]) }
		}
		return func(w *worker, fr *frame, a []value) value { return copyVal(a[0]) }
	case name == "(github.com/rs/zerolog.Logger).With":
		ct := fn.Signature.Results().At(0).Type()
		return func(w *worker, fr *frame, a []value) value {
			z := zero(ct).(structure)
			z[0] = copyVal(a[0])
			return z
		}
	case strings.HasPrefix(name, "github.com/rs/zerolog/log."):
		return zeroResult(fn)
	case strings.HasPrefix(name, "(github.com/rs/zerolog.Logger).") && (strings.HasSuffix(name, ").Output") || strings.HasSuffix(name, ").Hook")):
		return func(w *worker, fr *frame, a []value) value { return copyVal(a[0]) }
	}
	return nil
}

var intrinsics map[string]intrinsic

func vpath(s string) string { return modPath + "/zzverif/v." + s }

func init() {
	in := map[string]intrinsic{}
	intrinsics = in

	// ---- harness interface
	in[vpath("String")] = func(w *worker, fr *frame, a []value) value {
		name, n, alpha := goStr(a[0]), int(w.concInt(a[1], tInt)), goStr(a[2])
		s := w.newString(name, n, alpha)
		w.inputs = append(w.inputs, inputRec{name, 's', s})
		return s
	}
	in[vpath("Int")] = func(w *worker, fr *frame, a []value) value {
		name, lo, hi := goStr(a[0]), w.concInt(a[1], tInt), w.concInt(a[2], tInt)
		v := w.newInt(name, lo, hi)
		w.inputs = append(w.inputs, inputRec{name, 'i', v})
		return v
	}
	in[vpath("Bool")] = func(w *worker, fr *frame, a []value) value {
		name := goStr(a[0])
		t := w.tt.Var(w.freshName(name), 0)
		if _, ok := w.model[t.name]; !ok {
			w.model[t.name] = 0
		}
		w.inputs = append(w.inputs, inputRec{name, 'b', t})
		return t
	}
	in[vpath("Choose")] = func(w *worker, fr *frame, a []value) value {
		name, n := goStr(a[0]), int(w.concInt(a[1], tInt))
		i := w.choose(n)
		w.inputs = append(w.inputs, inputRec{name, 'c', uint64(i)})
		return uint64(i)
	}
	in[vpath("Assume")] = func(w *worker, fr *frame, a []value) value { w.assume(a[0]); return nil }
	in[vpath("Assert")] = func(w *worker, fr *frame, a []value) value {
		msg := ""
		if s, ok := a[2].(string); ok {
			msg = s
		}
		w.check(goStr(a[0]), msg, a[1])
		return nil
	}
	in[vpath("Known")] = func(w *worker, fr *frame, a []value) value {
		w.known = append(w.known, goStr(a[0])+"|"+goStr(a[1]))
		return nil
	}
	in[vpath("Reach")] = func(w *worker, fr *frame, a []value) value {
		w.x.mu.Lock()
		w.x.reach[goStr(a[0])]++
		w.x.mu.Unlock()
		return nil
	}
	in[vpath("Observe")] = func(w *worker, fr *frame, a []value) value {
		var vs []value
		for _, x := range a[1].([]value) {
			vs = append(vs, x.(iface).v)
		}
		w.obs = append(w.obs, obsRec{goStr(a[0]), vs})
		return nil
	}
	in[vpath("MapBudget")] = func(w *worker, fr *frame, a []value) value {
		w.mapBudget = int(int64(a[0].(uint64)))
		return nil
	}
	in[vpath("MapOrder")] = func(w *worker, fr *frame, a []value) value {
		w.mapOrder = a[0].(bool)
		return nil
	}
	in[vpath("And")] = func(w *worker, fr *frame, a []value) value {
		var r value = true
		for _, x := range a[0].([]value) {
			r = w.and(r, x)
		}
		return r
	}
	in[vpath("Or")] = func(w *worker, fr *frame, a []value) value {
		var r value = false
		for _, x := range a[0].([]value) {
			r = w.or(r, x)
		}
		return r
	}
	in[vpath("Not")] = func(w *worker, fr *frame, a []value) value { return w.not(a[0]) }
	in[vpath("Implies")] = func(w *worker, fr *frame, a []value) value { return w.or(w.not(a[0]), a[1]) }
	in[vpath("Iff")] = func(w *worker, fr *frame, a []value) value {
		return w.or(w.and(a[0], a[1]), w.and(w.not(a[0]), w.not(a[1])))
	}
	in[vpath("EqStr")] = func(w *worker, fr *frame, a []value) value { return w.eq(a[0], a[1]) }
	in[vpath("Thorough")] = func(w *worker, fr *frame, a []value) value { return w.eng.thorough }
	in[vpath("Symbolic")] = func(w *worker, fr *frame, a []value) value { return true }

	// ---- bytes and strings
	indexByte := func(w *worker, fr *frame, a []value) value { return w.indexByte(a[0], a[1]) }
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		in[n] = indexByte
	}
	count := func(w *worker, fr *frame, a []value) value {
		n := 0
		s := asBytes(a[0])
		for _, b := range s {
			if w.branch(w.eq(b, a[1])) {
				n++
			}
		}
		return uint64(n)
	}
	in["internal/bytealg.Count"] = count
	in["internal/bytealg.CountString"] = count
	index := func(w *worker, fr *frame, a []value) value { return w.indexStr(a[0], a[1]) }
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		in[n] = index
	}
	in["strings.LastIndex"] = func(w *worker, fr *frame, a []value) value {
		if s, ok := a[0].(string); ok {
			if t, ok := a[1].(string); ok {
				return uint64(strings.LastIndex(s, t))
			}
		}
		n, m := strLen(a[0]), strLen(a[1])
		for i := n - m; i >= 0; i-- {
			if w.branch(w.strEq(strSlice(a[0], i, i+m), a[1])) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	in["internal/bytealg.Equal"] = func(w *worker, fr *frame, a []value) value {
		return w.strEq(mkStr(asBytes(a[0])), mkStr(asBytes(a[1])))
	}
	in["bytes.Equal"] = in["internal/bytealg.Equal"]
	compare := func(w *worker, fr *frame, a []value) value {
		x, y := mkStr(asBytes(a[0])), mkStr(asBytes(a[1]))
		if w.branch(w.strEq(x, y)) {
			return uint64(0)
		}
		if w.branch(w.strLess(x, y)) {
			return ^uint64(0)
		}
		return uint64(1)
	}
	in["internal/bytealg.Compare"] = compare
	in["internal/bytealg.CompareString"] = compare
	in["strings.Compare"] = compare
	in["cmp.Compare"] = nil
	delete(in, "cmp.Compare")
	in["internal/bytealg.MakeNoZero"] = func(w *worker, fr *frame, a []value) value {
		n := int(w.concInt(a[0], tInt))
		s := make([]value, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	}
	in["(*strings.Builder).copyCheck"] = noop
	in["strings.Clone"] = func(w *worker, fr *frame, a []value) value { return a[0] }
	in["internal/stringslite.Clone"] = in["strings.Clone"]

	// ---- numbers
	in["strconv.Itoa"] = func(w *worker, fr *frame, a []value) value { return w.itoa(a[0]) }
	in["math.Float64bits"] = func(w *worker, fr *frame, a []value) value { return math.Float64bits(a[0].(float64)) }
	in["math.Float64frombits"] = func(w *worker, fr *frame, a []value) value { return math.Float64frombits(a[0].(uint64)) }
	in["math.Float32bits"] = func(w *worker, fr *frame, a []value) value {
		return uint64(math.Float32bits(float32(a[0].(float64))))
	}
	in["math.Float32frombits"] = func(w *worker, fr *frame, a []value) value {
		return float64(math.Float32frombits(uint32(a[0].(uint64))))
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Exp": math.Exp, "Log": math.Log} {
		f := f
		in["math."+n] = func(w *worker, fr *frame, a []value) value { return f(a[0].(float64)) }
		in["math."+strings.ToLower(n)] = in["math."+n]
	}
	conc1 := func(f func(uint64) uint64, next string) intrinsic {
		return func(w *worker, fr *frame, a []value) value {
			x, ok := a[0].(uint64)
			if !ok {
				panic(unsup("math/bits on a symbolic value"))
			}
			return f(x)
		}
	}
	in["math/bits.Len64"] = func(w *worker, fr *frame, a []value) value {
		t, ok := a[0].(*Term)
		if !ok {
			return uint64(bits.Len64(a[0].(uint64)))
		}
		for i := uint8(0); i < t.w; i++ {
			if w.branch(w.boolv(w.tt.Bin(tUlt, t, w.tt.Const(1<<i, t.w)))) {
				return uint64(i)
			}
		}
		return uint64(t.w)
	}
	in["math/bits.Len"] = in["math/bits.Len64"]
	in["math/bits.Len32"] = in["math/bits.Len64"]
	in["math/bits.TrailingZeros64"] = conc1(func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) }, "")
	in["math/bits.TrailingZeros"] = in["math/bits.TrailingZeros64"]
	in["math/bits.OnesCount64"] = conc1(func(x uint64) uint64 { return uint64(bits.OnesCount64(x)) }, "")
	for _, f := range []string{"addVV", "subVV", "addVW", "subVW", "shlVU", "shrVU", "mulAddVWW", "addMulVVW"} {
		g := f + "_g"
		in["math/big."+f] = func(w *worker, fr *frame, a []value) value {
			fn := w.eng.pkgs["math/big"].Func(g)
			if fn == nil {
				panic(unsup("math/big.%s", g))
			}
			return w.call(w.prog.get(fn), a, fr)
		}
	}

	// ---- errors and formatting
	in["errors.Is"] = func(w *worker, fr *frame, a []value) value { return w.errorsIs(a[0].(iface), a[1].(iface)) }
	in["fmt.Sprintf"] = func(w *worker, fr *frame, a []value) value {
		s, _ := w.sprintf(a[0], a[1].([]value))
		return s
	}
	in["fmt.Sprint"] = func(w *worker, fr *frame, a []value) value { return w.sprint(a[0].([]value), false) }
	in["fmt.Sprintln"] = func(w *worker, fr *frame, a []value) value { return w.sprint(a[0].([]value), true) }
	in["fmt.Errorf"] = func(w *worker, fr *frame, a []value) value {
		s, wrapped := w.sprintf(a[0], a[1].([]value))
		if wrapped != nil {
			p := new(value)
			*p = structure{s, *wrapped}
			return iface{canon(types.NewPointer(w.eng.namedType("fmt", "wrapError"))), p}
		}
		return w.newError(s)
	}
	in["fmt.Printf"] = func(w *worker, fr *frame, a []value) value { return tuple{uint64(0), iface{}} }
	in["fmt.Println"] = in["fmt.Printf"]
	in["fmt.Print"] = in["fmt.Printf"]
	in["fmt.Fprintf"] = func(w *worker, fr *frame, a []value) value {
		s, _ := w.sprintf(a[1], a[2].([]value))
		return w.writeTo(a[0].(iface), s)
	}
	in["fmt.Fprint"] = func(w *worker, fr *frame, a []value) value {
		return w.writeTo(a[0].(iface), w.sprint(a[1].([]value), false))
	}
	in["fmt.Fprintln"] = func(w *worker, fr *frame, a []value) value {
		return w.writeTo(a[0].(iface), w.sprint(a[1].([]value), true))
	}

	// ---- sorting
	in["sort.Slice"] = func(w *worker, fr *frame, a []value) value {
		s, _ := a[0].(iface).v.([]value)
		f := w.prog.get(w.eng.pkgs["sort"].Func("pdqsort_func"))
		w.call(f, []value{w.lessSwap(s, a[1]), uint64(0), uint64(len(s)), uint64(bits.Len(uint(len(s))))}, fr)
		return nil
	}
	in["sort.SliceStable"] = func(w *worker, fr *frame, a []value) value {
		s, _ := a[0].(iface).v.([]value)
		f := w.prog.get(w.eng.pkgs["sort"].Func("stable_func"))
		w.call(f, []value{w.lessSwap(s, a[1]), uint64(len(s))}, fr)
		return nil
	}

	// ---- reflection
	in["reflect.DeepEqual"] = func(w *worker, fr *frame, a []value) value {
		x, y := a[0].(iface), a[1].(iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		return w.deepEqual(x.v, y.v, x.t, 0)
	}
	in["reflect.ValueOf"] = func(w *worker, fr *frame, a []value) value {
		return structure{(*value)(nil), &opaque{a[0]}, uint64(0)}
	}
	in["(reflect.Value).Pointer"] = func(w *worker, fr *frame, a []value) value {
		o, ok := a[0].(structure)[1].(*opaque)
		if !ok {
			panic(unsup("reflect.Value.Pointer"))
		}
		f, ok := o.v.(iface).v.(*fnv)
		if !ok {
			panic(unsup("reflect pointer of %T", o.v.(iface).v))
		}
		if f == nil {
			return uint64(0)
		}
		return w.fnID(f.fn)
	}
	in["(reflect.Value).IsNil"] = func(w *worker, fr *frame, a []value) value {
		o, ok := a[0].(structure)[1].(*opaque)
		if !ok {
			panic(unsup("reflect.Value.IsNil"))
		}
		switch v := o.v.(iface).v.(type) {
		case *fnv:
			return v == nil
		case *value:
			return v == nil
		case []value:
			return v == nil
		case *hmap:
			return v == nil
		}
		panic(unsup("reflect.Value.IsNil"))
	}
	in["(reflect.Value).IsValid"] = func(w *worker, fr *frame, a []value) value {
		o, ok := a[0].(structure)[1].(*opaque)
		return ok && o.v.(iface).t != nil
	}
	in["runtime.FuncForPC"] = func(w *worker, fr *frame, a []value) value {
		id, ok := a[0].(uint64)
		if !ok || w.prog.fnByID[id] == nil {
			return (*value)(nil)
		}
		p := new(value)
		*p = structure{&opaque{w.prog.fnByID[id]}}
		return p
	}
	fnOf := func(a value) *cfunc {
		p, ok := a.(*value)
		if !ok || p == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		return (*p).(structure)[0].(*opaque).v.(*cfunc)
	}
	in["(*runtime.Func).FileLine"] = func(w *worker, fr *frame, a []value) value {
		f := fnOf(a[0])
		if isBound(f.fn) {
			return tuple{"<autogenerated>", uint64(1)}
		}
		pos := w.eng.fset.Position(f.fn.Pos())
		return tuple{pos.Filename, uint64(pos.Line)}
	}
	in["(*runtime.Func).Name"] = func(w *worker, fr *frame, a []value) value {
		return strings.ReplaceAll(strings.ReplaceAll(fnOf(a[0]).name, "$bound", "-fm"), "$", ".func")
	}
	in["(*runtime.Func).Entry"] = func(w *worker, fr *frame, a []value) value { return w.fnID(fnOf(a[0])) }

	// ---- synchronisation: one goroutine
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*sync.Pool).Put", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched", "runtime.GC"} {
		in[n] = noop
	}
	in["(*sync.Mutex).TryLock"] = func(w *worker, fr *frame, a []value) value { return true }
	in["(*sync.Pool).Get"] = func(w *worker, fr *frame, a []value) value {
		s := (*a[0].(*value)).(structure)
		f := s[len(s)-1]
		if fv, ok := f.(*fnv); ok && fv != nil {
			return w.callFn(fv, nil, fr)
		}
		return iface{}
	}
	in["(*sync.Once).Do"] = func(w *worker, fr *frame, a []value) value {
		// the first field that holds state marks the execution
		s := (*a[0].(*value)).(structure)
		m := &s[len(s)-1]
		if _, done := (*m).(*opaque); done {
			return nil
		}
		w.record(m)
		*m = onceDone
		w.callFn(a[1], nil, fr)
		return nil
	}
	ld := func(w *worker, fr *frame, a []value) value { return w.load(a[0]) }
	st := func(w *worker, fr *frame, a []value) value { w.storeTo(a[0], a[1], false); return nil }
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		in["sync/atomic.Load"+k] = ld
		in["sync/atomic.Store"+k] = st
		in["internal/runtime/atomic.Load"+k] = ld
		k := k
		in["sync/atomic.Swap"+k] = func(w *worker, fr *frame, a []value) value {
			old := w.load(a[0])
			w.storeTo(a[0], a[1], false)
			return old
		}
		in["sync/atomic.CompareAndSwap"+k] = func(w *worker, fr *frame, a []value) value {
			if w.branch(w.eq(w.load(a[0]), a[1])) {
				w.storeTo(a[0], a[2], false)
				return true
			}
			return false
		}
		if k != "Pointer" {
			ik := ikind{64, k[0] == 'I'}
			if strings.HasSuffix(k, "32") {
				ik.w = 32
			}
			in["sync/atomic.Add"+k] = func(w *worker, fr *frame, a []value) value {
				n := intBin(token.ADD, ik, ik, w.load(a[0]).(uint64), a[1].(uint64))
				w.storeTo(a[0], n, false)
				return n
			}
		}
	}
	// (atomic.Pointer[T]), (atomic.Value)
	in["(*sync/atomic.Pointer).Load"] = func(w *worker, fr *frame, a []value) value { return w.loadLast(a[0]) }
	in["(*sync/atomic.Pointer[T]).Load"] = in["(*sync/atomic.Pointer).Load"]
	storeLast := func(w *worker, fr *frame, a []value) value {
		s := (*a[0].(*value)).(structure)
		w.store(&s[len(s)-1], a[1], false)
		return nil
	}
	in["(*sync/atomic.Pointer).Store"] = storeLast
	in["(*sync/atomic.Pointer[T]).Store"] = storeLast
	cas := func(w *worker, fr *frame, a []value) value {
		if w.branch(w.eq(w.loadLast(a[0]), a[1])) {
			storeLast(w, fr, []value{a[0], a[2]})
			return true
		}
		return false
	}
	in["(*sync/atomic.Pointer).CompareAndSwap"] = cas
	in["(*sync/atomic.Pointer[T]).CompareAndSwap"] = cas
	in["(*sync/atomic.Value).Load"] = func(w *worker, fr *frame, a []value) value {
		v := w.loadLast(a[0])
		if i, ok := v.(iface); ok {
			return i
		}
		return iface{}
	}
	in["(*sync/atomic.Value).Store"] = storeLast

	// ---- environment
	godebug := func(w *worker, fr *frame, a []value) value {
		p, _ := a[0].(*value)
		if p == nil {
			return ""
		}
		if s, ok := (*p).(structure); ok {
			for _, f := range s {
				if n, ok := f.(string); ok && strings.TrimPrefix(n, "#") == "gotypesalias" {
					return "0" // the default for the repository's go directive
				}
			}
		}
		return ""
	}
	in["(*internal/godebug.Setting).Value"] = godebug
	in["(*internal/godebug.Setting).IncNonDefault"] = noop
	in["(*internal/godebug.Setting).Undocumented"] = func(w *worker, fr *frame, a []value) value { return false }
	in["os.Getenv"] = func(w *worker, fr *frame, a []value) value { return "" }
	in["os.LookupEnv"] = func(w *worker, fr *frame, a []value) value { return tuple{"", false} }
	in["time.Now"] = func(w *worker, fr *frame, a []value) value {
		return zero(w.eng.namedType("time", "Time"))
	}
	in["os.NewFile"] = func(w *worker, fr *frame, a []value) value {
		p := new(value)
		*p = zero(w.eng.namedType("os", "File"))
		return p
	}
	in["os.Getwd"] = func(w *worker, fr *frame, a []value) value { panic(unsup("the real os.Getwd")) }
	in["maps.clone"] = func(w *worker, fr *frame, a []value) value {
		i := a[0].(iface)
		m, _ := i.v.(*hmap)
		if m == nil {
			return i
		}
		c := newMap()
		for _, e := range m.ents {
			if !e.dead {
				ne := &hent{k: e.k, v: e.v}
				c.ents = append(c.ents, ne)
				c.n++
				if hk, ok := hashKey(e.k); ok {
					c.idx[hk] = ne
				} else {
					c.sym = append(c.sym, ne)
				}
			}
		}
		return iface{i.t, c}
	}

	addCodec(in)
}

var onceDone = &opaque{"done"}

func (w *worker) loadLast(p value) value {
	s := (*p.(*value)).(structure)
	v := s[len(s)-1]
	return v
}

// isBound reports whether a function wraps a method value; the compiler has no source file for these.
func isBound(f *ssa.Function) bool { return strings.HasPrefix(f.Synthetic, "bound method wrapper") }

func (w *worker) fnID(f *cfunc) value {
	id, ok := w.prog.fnIDs[f]
	if !ok {
		id = uint64(len(w.prog.fnIDs)+1) * 64
		w.prog.fnIDs[f] = id
		w.prog.fnByID[id] = f
	}
	return id
}

func asBytes(v value) []value {
	switch v := v.(type) {
	case []value:
		return v
	case string, *sstr:
		return strBytes(v)
	}
	panic(unsup("bytes of %T", v))
}

func (w *worker) newString(name string, n int, alphabet string) value {
	if n == 0 {
		w.freshName(name)
		return ""
	}
	var dom *[4]uint64
	first := uint64('a')
	if alphabet != "" {
		dom = new([4]uint64)
		for i := 0; i < len(alphabet); i++ {
			dom[alphabet[i]>>6] |= 1 << (alphabet[i] & 63)
		}
		first = uint64(alphabet[0])
	}
	base := w.freshName(name)
	b := make([]value, n)
	for i := range b {
		t := w.tt.Var(base+"["+strconv.Itoa(i)+"]", 8)
		if dom != nil {
			t.dom = dom
			if len(alphabet) == 1 {
				b[i] = first
				continue
			}
			w.domAssert(t)
		}
		if _, ok := w.model[t.name]; !ok {
			w.model[t.name] = first
		}
		b[i] = t
	}
	return mkStr(b)
}

// domAssert tells the solver the domain of a byte variable.
func (w *worker) domAssert(t *Term) {
	var f *Term = w.tt.Bool(false)
	raw := func(op uint8, a, b *Term) *Term { return w.tt.mk(op, 0, a, b, nil, 0, "") }
	for i := uint64(0); i < 256; {
		if t.dom[i>>6]>>(i&63)&1 == 0 {
			i++
			continue
		}
		j := i
		for j+1 < 256 && t.dom[(j+1)>>6]>>((j+1)&63)&1 == 1 {
			j++
		}
		var r *Term
		if i == j {
			r = raw(tEq, t, w.tt.Const(i, 8))
		} else {
			r = w.tt.And(raw(tUle, w.tt.Const(i, 8), t), raw(tUle, t, w.tt.Const(j, 8)))
		}
		f = w.tt.Or(f, r)
		i = j + 1
	}
	w.sol.assert(f)
}

func (w *worker) newInt(name string, lo, hi int64) value {
	n := w.freshName(name)
	if lo == hi {
		return uint64(lo)
	}
	if lo > hi {
		panic(unsup("empty range for %s", name))
	}
	rng := uint64(hi) - uint64(lo)
	wd := uint8(bits.Len64(rng))
	t := w.tt.Var(n, wd)
	if _, ok := w.model[t.name]; !ok {
		w.model[t.name] = 0
	}
	if rng != maskW(wd) {
		w.assertPath(w.tt.Bin(tUle, t, w.tt.Const(rng, wd)))
	}
	r := w.tt.ZExt(t, 64)
	return w.unterm(w.tt.Bin(tAdd, r, w.tt.Const(uint64(lo), 64)), ikind{64, true})
}

func (w *worker) indexByte(s, c value) value {
	if x, ok := s.(string); ok {
		if b, ok := c.(uint64); ok {
			return uint64(strings.IndexByte(x, byte(b)))
		}
	}
	for i, b := range asBytes(s) {
		if w.branch(w.eq(b, c)) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (w *worker) indexStr(s, t value) value {
	if x, ok := s.(string); ok {
		if y, ok := t.(string); ok {
			return uint64(strings.Index(x, y))
		}
	}
	a, b := asBytes(s), asBytes(t)
	for i := 0; i+len(b) <= len(a); i++ {
		var r value = true
		for j := range b {
			r = w.and(r, w.eq(a[i+j], b[j]))
			if r == false {
				break
			}
		}
		if w.branch(r) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

// itoa renders a signed integer; for a symbolic one the path forks on sign and number of digits.
func (w *worker) itoa(v value) value {
	switch v := v.(type) {
	case uint64:
		return strconv.FormatInt(int64(v), 10)
	case *Term:
		tt := w.tt
		neg := false
		if w.branch(w.boolv(tt.Bin(tSlt, v, tt.Const(0, v.w)))) {
			neg = true
			v = tt.Neg(v)
		}
		n := 1
		lim := uint64(10)
		for n < 19 && !w.branch(w.boolv(tt.Bin(tUlt, v, tt.Const(lim, v.w)))) {
			n++
			lim *= 10
		}
		// the value has n digits: compute at the width that needs
		wd := uint8(64)
		if n < 19 {
			wd = uint8(bits.Len64(lim))
		}
		x := v
		if wd < v.w {
			x = tt.Trunc(v, wd)
		}
		b := make([]value, n)
		p := uint64(1)
		for i := n - 1; i >= 0; i-- {
			d := x
			if p > 1 {
				d = tt.Bin(tUDiv, d, tt.Const(p, wd))
			}
			if i > 0 {
				d = tt.Bin(tURem, d, tt.Const(10, wd))
			}
			if wd < 8 {
				d = tt.ZExt(d, 8)
			} else {
				d = tt.Trunc(d, 8)
			}
			b[i] = w.unterm(tt.Bin(tAdd, d, tt.Const('0', 8)), ikind{8, false})
			p *= 10
		}
		s := mkStr(b)
		if neg {
			s = strConcat("-", s)
		}
		return s
	}
	panic(unsup("itoa of %T", v))
}

func (w *worker) newError(s value) iface {
	p := new(value)
	*p = structure{s}
	return iface{canon(types.NewPointer(w.eng.namedType("errors", "errorString"))), p}
}

func (w *worker) hasMethod(t types.Type, name string) bool {
	return w.eng.lookupMethod(t, nil, name) != nil
}

func (w *worker) errorsIs(err, target iface) value {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	for {
		if err.t == target.t && types.Comparable(err.t) {
			if w.branch(w.eq(err.v, target.v)) {
				return true
			}
		}
		if w.hasMethod(err.t, "Is") {
			if w.branch(w.callMethod(err, "Is", []value{target})) {
				return true
			}
		}
		if !w.hasMethod(err.t, "Unwrap") {
			return false
		}
		switch r := w.callMethod(err, "Unwrap", nil).(type) {
		case iface:
			if r.t == nil {
				return false
			}
			err = r
		case []value:
			for _, x := range r {
				if w.branch(w.errorsIs(x.(iface), target)) {
					return true
				}
			}
			return false
		}
	}
}

func (w *worker) writeTo(wr iface, s value) value {
	b := append([]value(nil), strBytes(s)...)
	if wr.t == nil {
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	}
	if wr.t.String() == "*os.File" {
		return tuple{uint64(len(b)), iface{}}
	}
	return w.callMethod(wr, "Write", []value{b})
}

func (w *worker) lessSwap(s []value, less value) value {
	swap := &fnv{name: "swap", native: func(w *worker, a []value) value {
		i, j := int(w.concInt(a[0], tInt)), int(w.concInt(a[1], tInt))
		x, y := copyVal(s[i]), copyVal(s[j])
		w.store(&s[i], y, false)
		w.store(&s[j], x, false)
		return nil
	}}
	return structure{less, swap}
}

func (w *worker) deepEqual(x, y value, t types.Type, depth int) value {
	if depth > 200 {
		panic(unsup("deep comparison too deep"))
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		a, b := x.([]value), y.([]value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		var r value = true
		for i := range a {
			r = w.and(r, w.deepEqual(a[i], b[i], u.Elem(), depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		a, b := x.(array), y.(array)
		var r value = true
		for i := range a {
			r = w.and(r, w.deepEqual(a[i], b[i], u.Elem(), depth+1))
		}
		return r
	case *types.Struct:
		a, b := x.(structure), y.(structure)
		var r value = true
		for i := range a {
			r = w.and(r, w.deepEqual(a[i], b[i], u.Field(i).Type(), depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Map:
		a, b := x.(*hmap), y.(*hmap)
		if (a == nil) != (b == nil) {
			return false
		}
		if a == nil || a == b {
			return true
		}
		if a.n != b.n {
			return false
		}
		var r value = true
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			f := w.mapFind(b, e.k)
			if f == nil {
				return false
			}
			r = w.and(r, w.deepEqual(e.v, f.v, u.Elem(), depth+1))
		}
		return r
	case *types.Pointer:
		a, b := x.(*value), y.(*value)
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return w.deepEqual(*a, *b, u.Elem(), depth+1)
	case *types.Interface:
		a, b := x.(iface), y.(iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t {
			return false
		}
		return w.deepEqual(a.v, b.v, a.t, depth+1)
	case *types.Signature:
		a, b := x.(*fnv), y.(*fnv)
		return a == nil && b == nil
	}
	return w.eq(x, y)
}

// ---- formatting

func (w *worker) sprint(args []value, ln bool) value {
	var r value = ""
	prevStr := true
	for i, x := range args {
		a := x.(iface)
		isStr := false
		if a.t != nil {
			if b, ok := a.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && (ln || !isStr && !prevStr) {
			r = strConcat(r, " ")
		}
		r = strConcat(r, w.format(a, 'v', false, false))
		prevStr = isStr
	}
	if ln {
		r = strConcat(r, "\n")
	}
	return r
}

// sprintf implements the verbs the code under test uses; it also returns the operand of a %w.
func (w *worker) sprintf(format value, args []value) (value, *iface) {
	f := goStr(format)
	var out value = ""
	var wrapped *iface
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = strConcat(out, f[i:])
			break
		}
		out = strConcat(out, f[i:i+j])
		i += j + 1
		plus, sharp := false, false
		width, zeroPad, minus := 0, false, false
		for i < len(f) {
			switch {
			case f[i] == '+':
				plus = true
			case f[i] == '#':
				sharp = true
			case f[i] == '-':
				minus = true
			case f[i] == '0' && width == 0:
				zeroPad = true
			case f[i] >= '0' && f[i] <= '9':
				width = width*10 + int(f[i]-'0')
			default:
				goto verb
			}
			i++
		}
	verb:
		if i >= len(f) {
			out = strConcat(out, "%!(NOVERB)")
			break
		}
		c := f[i]
		i++
		if c == '%' {
			out = strConcat(out, "%")
			continue
		}
		if ai >= len(args) {
			out = strConcat(out, "%!"+string(c)+"(MISSING)")
			continue
		}
		a := args[ai].(iface)
		ai++
		var s value
		if c == 'w' {
			if wrapped == nil && a.t != nil {
				x := a
				wrapped = &x
			}
			s = w.format(a, 'v', plus, sharp)
		} else {
			s = w.format(a, c, plus, sharp)
		}
		for n := strLen(s); n < width; n++ {
			if minus {
				s = strConcat(s, " ")
			} else if zeroPad {
				s = strConcat("0", s)
			} else {
				s = strConcat(" ", s)
			}
		}
		out = strConcat(out, s)
	}
	if ai < len(args) {
		out = strConcat(out, "%!(EXTRA)")
	}
	return out, wrapped
}

func (w *worker) format(a iface, verb byte, plus, sharp bool) value {
	if verb == 'T' {
		if a.t == nil {
			return "<nil>"
		}
		return types.TypeString(a.t, func(p *types.Package) string { return p.Name() })
	}
	if a.t == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if !sharp {
			p, isPtr := a.v.(*value)
			if w.hasMethod(a.t, "Error") && !(isPtr && p == nil) {
				return w.fmtStr(w.callMethod(a, "Error", nil), verb)
			}
			if w.hasMethod(a.t, "String") && !(isPtr && p == nil) {
				return w.fmtStr(w.callMethod(a, "String", nil), verb)
			}
		}
	}
	return w.formatVal(a.t, a.v, verb, plus, sharp, 0)
}

func (w *worker) fmtStr(s value, verb byte) value {
	if verb == 'q' {
		return w.quote(s)
	}
	return s
}

func (w *worker) quote(s value) value {
	if x, ok := s.(string); ok {
		return strconv.Quote(x)
	}
	f := w.prog.get(w.eng.pkgs["strconv"].Func("Quote"))
	return w.call(f, []value{s}, nil)
}

func (w *worker) formatVal(t types.Type, v value, verb byte, plus, sharp bool, depth int) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			switch verb {
			case 'v', 's':
				if sharp {
					return w.quote(v)
				}
				return v
			case 'q':
				return w.quote(v)
			case 'x':
				if x, ok := v.(string); ok {
					return fmt.Sprintf("%x", x)
				}
			}
		case u.Info()&types.IsInteger != 0:
			switch verb {
			case 'v', 'd':
				k, _ := intKind(u)
				switch x := v.(type) {
				case uint64:
					if k.signed {
						return strconv.FormatInt(int64(x), 10)
					}
					return strconv.FormatUint(x, 10)
				case *Term:
					if k.signed {
						return w.itoa(w.unterm(w.tt.SExt(x, 64), ikind{64, true}))
					}
					return w.itoa(w.unterm(w.tt.ZExt(x, 64), ikind{64, true}))
				}
			case 'x', 'X', 'o', 'b', 'c', 'q', 'U':
				if x, ok := v.(uint64); ok {
					return fmt.Sprintf("%"+string(verb), int64(x))
				}
			}
		case u.Info()&types.IsBoolean != 0:
			if w.branch(v) {
				return "true"
			}
			return "false"
		case u.Info()&types.IsFloat != 0:
			return fmt.Sprintf("%"+string(verb), v.(float64))
		}
	case *types.Slice:
		x := v.([]value)
		if verb == 's' {
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return mkStr(append([]value(nil), x...))
			}
		}
		var r value = "["
		for i, e := range x {
			if i > 0 {
				r = strConcat(r, " ")
			}
			r = strConcat(r, w.formatElem(u.Elem(), e, verb, plus, sharp, depth))
		}
		return strConcat(r, "]")
	case *types.Map:
		m := v.(*hmap)
		var r value = "map["
		if m != nil {
			first := true
			for _, e := range w.sortedEnts(m) {
				if !first {
					r = strConcat(r, " ")
				}
				first = false
				r = strConcatAll(r, w.formatElem(u.Key(), e.k, verb, plus, sharp, depth), ":", w.formatElem(u.Elem(), e.v, verb, plus, sharp, depth))
			}
		}
		return strConcat(r, "]")
	case *types.Struct:
		x := v.(structure)
		var r value = "{"
		for i, e := range x {
			if i > 0 {
				r = strConcat(r, " ")
			}
			if plus {
				r = strConcat(r, u.Field(i).Name()+":")
			}
			r = strConcat(r, w.formatElem(u.Field(i).Type(), e, verb, plus, sharp, depth))
		}
		return strConcat(r, "}")
	case *types.Interface:
		i := v.(iface)
		if i.t == nil {
			return "<nil>"
		}
		return w.format(i, verb, plus, sharp)
	case *types.Pointer:
		p := v.(*value)
		if p == nil {
			return "<nil>"
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Map, *types.Array:
				return strConcat("&", w.formatVal(u.Elem(), *p, verb, plus, sharp, depth+1))
			}
		}
		return "0xc000000000"
	case *types.Signature:
		return "0x0"
	}
	panic(unsup("format %%%c of %v", verb, t))
}

func (w *worker) formatElem(t types.Type, v value, verb byte, plus, sharp bool, depth int) value {
	if i, ok := v.(iface); ok {
		if i.t == nil {
			return "<nil>"
		}
		return w.format(i, verb, plus, sharp)
	}
	if (verb == 'v' || verb == 's') && !sharp {
		if w.hasMethod(t, "Error") || w.hasMethod(t, "String") {
			return w.format(iface{canon(t), v}, verb, plus, sharp)
		}
	}
	return w.formatVal(t, v, verb, plus, sharp, depth+1)
}

// sortedEnts orders the live entries of a map with string or integer keys.
func (w *worker) sortedEnts(m *hmap) []*hent {
	var es []*hent
	for _, e := range m.ents {
		if !e.dead {
			es = append(es, e)
		}
	}
	for i := 1; i < len(es); i++ {
		for j := i; j > 0; j-- {
			var lt value
			switch a := es[j].k.(type) {
			case string, *sstr:
				lt = w.strLess(a, es[j-1].k)
			default:
				lt = w.symIntBin2(token.LSS, ikind{64, true}, a, es[j-1].k)
			}
			if !w.branch(lt) {
				break
			}
			es[j], es[j-1] = es[j-1], es[j]
		}
	}
	return es
}
