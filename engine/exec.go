package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	w         *worker
	fn        *cfunc
	caller    *frame
	regs      []value
	defers    []func()
	panicking bool
	panicV    value
	result    value
}

func (fr *frame) get(o *operand) value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.k
}

func rtPanic(format string, a ...any) targetPanic {
	return targetPanic{mkRuntimeError("runtime error: " + fmt.Sprintf(format, a...))}
}

// callFn calls a function value.
func (w *worker) callFn(f value, args []value, caller *frame) value {
	switch f := f.(type) {
	case *fnv:
		if f == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		if f.native != nil {
			return f.native(w, args)
		}
		if len(f.env) > 0 {
			a := make([]value, 0, len(args)+len(f.env))
			a = append(a, args...)
			a = append(a, f.env...)
			args = a
		}
		return w.call(f.fn, args, caller)
	case *poison:
		panic(unsup("call of value from failed initialiser: %s", f.msg))
	}
	panic(unsup("call of %T", f))
}

func (w *worker) call(f *cfunc, args []value, caller *frame) value {
	if f.intr != nil {
		if caller == nil {
			caller = &frame{w: w, fn: f}
		}
		return f.intr(w, caller, args)
	}
	if !f.compiled {
		w.prog.compile(f)
	}
	w.depth++
	if w.depth > w.maxDepth {
		msg := "call depth exceeds " + fmt.Sprint(w.maxDepth) + ": " + w.stackString(6)
		w.depth = 0
		panic(nonterm{msg})
	}
	w.callStack = append(w.callStack, f)
	fr := &frame{w: w, fn: f, caller: caller, regs: make([]value, f.nregs)}
	copy(fr.regs, args)
	if f.hasDefer {
		w.runDeferring(fr)
	} else {
		w.run(fr, 0)
	}
	w.callStack = w.callStack[:len(w.callStack)-1]
	w.depth--
	return fr.result
}

// runDeferring runs a function that has deferred calls.
func (w *worker) runDeferring(fr *frame) {
	depth, cs := w.depth, len(w.callStack)
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok {
				if re, isRT := r.(error); isRT && strings.Contains(re.Error(), "nil pointer") && false {
					tp = rtPanic("%v", re)
				} else {
					panic(r)
				}
			}
			w.depth, w.callStack = depth, w.callStack[:cs]
			fr.panicking = true
			fr.panicV = tp.v
		}()
		w.run(fr, 0)
	}()
	if !fr.panicking {
		return
	}
	w.runDefers(fr)
	// recovered: run the recover block to load named results
	if fr.fn.recover >= 0 {
		w.run(fr, fr.fn.recover)
	} else {
		fr.result = zero(fr.fn.fn.Signature.Results())
		if fr.fn.fn.Signature.Results().Len() == 0 {
			fr.result = nil
		}
	}
}

func (w *worker) runDefers(fr *frame) {
	depth, cs := w.depth, len(w.callStack)
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					w.depth, w.callStack = depth, w.callStack[:cs]
					fr.panicking = true
					fr.panicV = tp.v
				}
			}()
			d()
		}()
	}
	if fr.panicking {
		panic(targetPanic{fr.panicV})
	}
}

// runInit runs a package initialiser; an instruction the engine cannot run poisons its result.
func (w *worker) runInit(f *cfunc) {
	if !f.compiled {
		w.prog.compile(f)
	}
	fr := &frame{w: w, fn: f, regs: make([]value, f.nregs)}
	b := 0
	prev := -1
	guard := 0
	for b >= 0 {
		cb := &f.blocks[b]
		w.phis(fr, cb, prev)
		next := -1
		for i := range cb.code {
			ci := &cb.code[i]
			n := w.safeStep(fr, cb, i)
			switch ci.op {
			case iIf, iJump, iReturn:
				next = n
			}
		}
		prev, b = b, next
		if guard++; guard > 100000 {
			return
		}
	}
}

func (w *worker) safeStep(fr *frame, cb *cblock, i int) (next int) {
	depth, cs := w.depth, len(w.callStack)
	defer func() {
		if r := recover(); r != nil {
			ci := &cb.code[i]
			msg := fmt.Sprint(r)
			if w.eng.debugInit {
				fmt.Printf("init %s: %v: %v\n", fr.fn.name, ci.in, msg)
			}
			w.depth, w.callStack = depth, w.callStack[:cs]
			if ci.dst >= 0 {
				fr.regs[ci.dst] = &poison{msg}
			}
			next = -1
			if ci.op == iIf {
				next = cb.succs[1]
			}
		}
	}()
	ci := &cb.code[i]
	if ci.op == iCall && ci.fn != nil && ci.fn.fn.Synthetic == "package initializer" {
		return -1
	}
	if ci.op == iStore {
		if p, ok := fr.get(&ci.b).(*poison); ok {
			if a, ok := fr.get(&ci.a).(*value); ok && a != nil {
				*a = p
			}
			return -1
		}
	}
	return w.exec(fr, cb, i, i+1)
}

func (w *worker) phis(fr *frame, cb *cblock, prev int) {
	if len(cb.phis) == 0 {
		return
	}
	pi := 0
	for i, p := range cb.preds {
		if p == prev {
			pi = i
			break
		}
	}
	if len(cb.phis) == 1 {
		ph := &cb.phis[0]
		fr.regs[ph.dst] = fr.get(&ph.edges[pi])
		return
	}
	var tmp [8]value
	vals := tmp[:0]
	for i := range cb.phis {
		vals = append(vals, fr.get(&cb.phis[i].edges[pi]))
	}
	for i := range cb.phis {
		fr.regs[cb.phis[i].dst] = vals[i]
	}
}

func (w *worker) run(fr *frame, b int) {
	prev := -1
	for b >= 0 {
		cb := &fr.fn.blocks[b]
		w.steps += int64(len(cb.code)) + 1
		if w.steps > w.maxSteps && w.initing == 0 {
			panic(nonterm{fmt.Sprintf("more than %d instructions: %s", w.maxSteps, w.stackString(6))})
		}
		w.phis(fr, cb, prev)
		next := w.exec(fr, cb, 0, len(cb.code))
		prev, b = b, next
	}
}

func (w *worker) record(p *value) {
	if w.journal {
		w.trail = append(w.trail, undo{p: p, old: *p})
	}
}

func (w *worker) undoFn(f func()) {
	if w.journal {
		w.trail = append(w.trail, undo{f: f})
	}
}

// store writes v to *p, element by element for aggregates so that interior pointers stay valid.
func (w *worker) store(p *value, v value, fresh bool) {
	switch v := v.(type) {
	case structure:
		if d, ok := (*p).(structure); ok && len(d) == len(v) {
			for i := range v {
				w.store(&d[i], v[i], fresh)
			}
			return
		}
		if !fresh {
			w.record(p)
		}
		*p = copyVal(v)
		return
	case array:
		if d, ok := (*p).(array); ok && len(d) == len(v) {
			for i := range v {
				w.store(&d[i], v[i], fresh)
			}
			return
		}
		if !fresh {
			w.record(p)
		}
		*p = copyVal(v)
		return
	}
	if !fresh {
		w.record(p)
	}
	*p = v
}

func (w *worker) storeTo(addr value, v value, fresh bool) {
	switch a := addr.(type) {
	case *value:
		if a == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		w.store(a, v, fresh)
		return
	case *symAddr:
		i := w.concretize(a.idx)
		w.store(&a.base[i], v, false)
		return
	}
	panic(unsup("store to %T", addr))
}

func (w *worker) load(addr value) value {
	switch a := addr.(type) {
	case *value:
		if a == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		v := *a
		switch v.(type) {
		case structure, array:
			return copyVal(v)
		case *poison:
			panic(unsup("use of value from failed initialiser: %s", v.(*poison).msg))
		}
		return v
	case *symAddr:
		return w.selectElem(a.base, a.idx, a.width)
	case *poison:
		panic(unsup("use of value from failed initialiser: %s", a.msg))
	}
	panic(unsup("load from %T", addr))
}

// selectElem reads base[idx] for a symbolic in-range index as an if-then-else chain over runs of equal values.
// width is that of integer elements.
func (w *worker) selectElem(base []value, idx *Term, width uint8) value {
	tt := w.tt
	isBool := false
	for _, x := range base {
		switch x := x.(type) {
		case uint64:
		case bool:
			isBool = true
		case *Term:
			if x.w == 0 {
				isBool = true
			}
		default:
			i := w.concretize(idx)
			return base[i]
		}
	}
	// only the index values that fit the index width can occur
	n := len(base)
	if idx.w < 64 && uint64(n) > 1<<idx.w {
		n = 1 << idx.w
	}
	if width == 0 && !isBool {
		width = 64
	}
	mk := func(v value) *Term {
		switch v := v.(type) {
		case uint64:
			return tt.Const(v, width)
		case bool:
			return tt.Bool(v)
		}
		return v.(*Term)
	}
	res := mk(base[n-1])
	i := n - 1
	for i > 0 {
		j := i
		cur := mk(base[i-1])
		for j > 0 && mk(base[j-1]) == cur {
			j--
		}
		// indices j..i-1 share cur
		if cur != res {
			res = tt.Ite(tt.Bin(tUlt, idx, tt.Const(uint64(i), idx.w)), cur, res)
		}
		i = j
	}
	return res
}

func (w *worker) exec(fr *frame, cb *cblock, from, to int) (next int) {
	regs := fr.regs
	code := cb.code
	for i := from; i < to; i++ {
		ci := &code[i]
		switch ci.op {
		case iUnOp:
			switch token.Token(ci.tok) {
			case token.MUL:
				regs[ci.dst] = w.load(fr.get(&ci.a))
			default:
				regs[ci.dst] = w.unop(ci, fr.get(&ci.a))
			}
		case iBinOp:
			x, y := fr.get(&ci.a), fr.get(&ci.b)
			if ci.commaOk { // integer operands
				if a, ok := x.(uint64); ok {
					if b, ok := y.(uint64); ok {
						regs[ci.dst] = intBin(token.Token(ci.tok), ci.ik, ci.ik2, a, b)
						continue
					}
				}
			}
			regs[ci.dst] = w.binop(ci, x, y)
		case iFieldAddr:
			p, ok := fr.get(&ci.a).(*value)
			if !ok {
				panic(unsup("field address of %T", fr.get(&ci.a)))
			}
			if p == nil {
				panic(rtPanic("invalid memory address or nil pointer dereference"))
			}
			s, ok := (*p).(structure)
			if !ok {
				if ps, ok := (*p).(*poison); ok {
					panic(unsup("use of value from failed initialiser: %s", ps.msg))
				}
				panic(unsup("field address in %T", *p))
			}
			regs[ci.dst] = &s[ci.n]
		case iField:
			s, ok := fr.get(&ci.a).(structure)
			if !ok {
				panic(unsup("field of %T", fr.get(&ci.a)))
			}
			regs[ci.dst] = s[ci.n]
		case iIf:
			c := fr.get(&ci.a)
			b, ok := c.(bool)
			if !ok {
				b = w.branch(c)
			}
			if b {
				return cb.succs[0]
			}
			return cb.succs[1]
		case iJump:
			return cb.succs[0]
		case iReturn:
			switch len(ci.args) {
			case 0:
			case 1:
				fr.result = fr.get(&ci.args[0])
			default:
				t := make(tuple, len(ci.args))
				for j := range ci.args {
					t[j] = fr.get(&ci.args[j])
				}
				fr.result = t
			}
			return -1
		case iStore:
			w.storeTo(fr.get(&ci.a), fr.get(&ci.b), ci.fresh)
		case iAlloc:
			if ci.heap {
				p := new(value)
				*p = zero(ci.t)
				regs[ci.dst] = p
			} else {
				// a local is re-zeroed each time its Alloc executes
				p := new(value)
				*p = zero(ci.t)
				regs[ci.dst] = p
			}
		case iCall:
			args := make([]value, len(ci.args))
			for j := range ci.args {
				args[j] = fr.get(&ci.args[j])
			}
			if ci.fn != nil {
				regs[ci.dst] = w.call(ci.fn, args, fr)
			} else {
				regs[ci.dst] = w.callFn(fr.get(&ci.a), args, fr)
			}
		case iInvoke:
			regs[ci.dst] = w.invoke(fr, ci)
		case iBuiltin:
			args := make([]value, len(ci.args))
			for j := range ci.args {
				args[j] = fr.get(&ci.args[j])
			}
			regs[ci.dst] = w.builtin(fr, ci.name, ci, args)
		case iExtract:
			regs[ci.dst] = fr.get(&ci.a).(tuple)[ci.n]
		case iIndexAddr:
			regs[ci.dst] = w.indexAddr(fr.get(&ci.a), fr.get(&ci.b), ci.t2, ci.ik.w)
		case iIndex:
			regs[ci.dst] = w.index(fr.get(&ci.a), fr.get(&ci.b), ci.t2, ci.ik.w)
		case iLookup:
			regs[ci.dst] = w.lookup(ci, fr.get(&ci.a), fr.get(&ci.b))
		case iMakeInterface:
			v := fr.get(&ci.a)
			if p, ok := v.(*poison); ok {
				panic(unsup("use of value from failed initialiser: %s", p.msg))
			}
			regs[ci.dst] = iface{ci.t, v}
		case iTypeAssert:
			regs[ci.dst] = w.typeAssert(ci, fr.get(&ci.a))
		case iChangeInterface, iChangeType:
			regs[ci.dst] = fr.get(&ci.a)
		case iConvert:
			regs[ci.dst] = w.convert(ci.t, ci.t2, fr.get(&ci.a))
		case iMakeClosure:
			env := make([]value, len(ci.args))
			for j := range ci.args {
				env[j] = fr.get(&ci.args[j])
			}
			regs[ci.dst] = &fnv{fn: ci.fn, env: env}
		case iMakeMap:
			regs[ci.dst] = newMap()
		case iMakeSlice:
			n := w.concInt(fr.get(&ci.a), ci.t2)
			c := w.concInt(fr.get(&ci.b), ci.t2)
			if n < 0 || c < n {
				panic(rtPanic("makeslice: len out of range"))
			}
			if c > 1<<26 {
				panic(unsup("make of %d elements", c))
			}
			s := make([]value, c)
			if c > 0 {
				z := zero(ci.t)
				if isAgg(z) {
					for j := range s {
						s[j] = copyVal(z)
					}
				} else {
					for j := range s {
						s[j] = z
					}
				}
			}
			regs[ci.dst] = s[:n]
		case iMapUpdate:
			m, ok := fr.get(&ci.a).(*hmap)
			if !ok {
				panic(unsup("map update of %T", fr.get(&ci.a)))
			}
			if m == nil {
				panic(targetPanic{iface{runtimeErrorType, "assignment to entry in nil map"}})
			}
			w.mapSet(m, fr.get(&ci.b), fr.get(&ci.c))
		case iRange:
			regs[ci.dst] = w.rangeIter(fr, fr.get(&ci.a))
		case iNext:
			regs[ci.dst] = w.iterNext(ci, fr.get(&ci.a))
		case iSlice:
			regs[ci.dst] = w.slice(fr, ci)
		case iPanic:
			panic(targetPanic{fr.get(&ci.a)})
		case iDefer:
			w.deferCall(fr, ci)
		case iRunDefers:
			w.runDefers(fr)
		case iSliceToArrayPtr:
			s := fr.get(&ci.a).([]value)
			n := int(ci.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			if len(s) < n {
				panic(rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
			}
			p := new(value)
			*p = array(s[:n:n])
			regs[ci.dst] = p
		case iMakeChan:
			regs[ci.dst] = &hchan{}
		case iNop:
		default:
			panic(unsup("instruction %v", ci.in))
		}
	}
	return -1
}

func (w *worker) deferCall(fr *frame, ci *cinstr) {
	args := make([]value, len(ci.args))
	for j := range ci.args {
		args[j] = fr.get(&ci.args[j])
	}
	switch opcode(ci.n) {
	case iCall:
		if ci.fn != nil {
			fr.defers = append(fr.defers, func() { w.call(ci.fn, args, fr) })
		} else {
			f := fr.get(&ci.a)
			fr.defers = append(fr.defers, func() { w.callFn(f, args, fr) })
		}
	case iInvoke:
		rcv := fr.get(&ci.a).(iface)
		fr.defers = append(fr.defers, func() { w.invokeOn(fr, ci, rcv, args) })
	case iBuiltin:
		fr.defers = append(fr.defers, func() { w.builtin(fr, ci.name, ci, args) })
	}
}

func (w *worker) invoke(fr *frame, ci *cinstr) value {
	rcv, ok := fr.get(&ci.a).(iface)
	if !ok {
		panic(unsup("method call on %T", fr.get(&ci.a)))
	}
	args := make([]value, len(ci.args))
	for j := range ci.args {
		args[j] = fr.get(&ci.args[j])
	}
	return w.invokeOn(fr, ci, rcv, args)
}

func (w *worker) invokeOn(fr *frame, ci *cinstr, rcv iface, args []value) value {
	if rcv.t == nil {
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	}
	f := ci.mcache[rcv.t]
	if f == nil {
		f = w.method(rcv.t, ci.pkg, ci.name)
		ci.mcache[rcv.t] = f
	}
	a := make([]value, 0, len(args)+1)
	a = append(append(a, rcv.v), args...)
	return w.call(f, a, fr)
}

func (w *worker) method(t types.Type, pkg *types.Package, name string) *cfunc {
	k := methodKey{t: t, name: name}
	if pkg != nil && !token.IsExported(name) {
		k.pkg = pkg.Path()
	}
	if f, ok := w.prog.methods[k]; ok {
		return f
	}
	fn := w.eng.lookupMethod(t, pkg, name)
	if fn == nil {
		panic(unsup("no method %s on %v", name, t))
	}
	f := w.prog.get(fn)
	w.prog.methods[k] = f
	return f
}

// callMethod calls an exported method of an interface value by name.
func (w *worker) callMethod(rcv iface, name string, args []value) value {
	f := w.method(rcv.t, nil, name)
	return w.call(f, append([]value{rcv.v}, args...), nil)
}

func (e *engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	e.methodMu.Lock()
	defer e.methodMu.Unlock()
	sel := e.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

// ---- integers

func intBin(op token.Token, k, k2 ikind, a, b uint64) value {
	switch op {
	case token.ADD:
		return k.norm(a + b)
	case token.SUB:
		return k.norm(a - b)
	case token.MUL:
		return k.norm(a * b)
	case token.QUO:
		if b == 0 {
			panic(rtPanic("integer divide by zero"))
		}
		if k.signed {
			if int64(b) == -1 {
				return k.norm(-a)
			}
			return k.norm(uint64(int64(a) / int64(b)))
		}
		return a / b
	case token.REM:
		if b == 0 {
			panic(rtPanic("integer divide by zero"))
		}
		if k.signed {
			if int64(b) == -1 {
				return uint64(0)
			}
			return k.norm(uint64(int64(a) % int64(b)))
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return k.norm(a ^ b)
	case token.AND_NOT:
		return k.norm(a &^ b)
	case token.SHL:
		if k2.signed && int64(b) < 0 {
			panic(rtPanic("negative shift amount"))
		}
		if b >= uint64(k.w) {
			return uint64(0)
		}
		return k.norm(a << b)
	case token.SHR:
		if k2.signed && int64(b) < 0 {
			panic(rtPanic("negative shift amount"))
		}
		if k.signed {
			if b >= 64 {
				b = 63
			}
			return k.norm(uint64(int64(a) >> b))
		}
		if b >= uint64(k.w) {
			return uint64(0)
		}
		return a >> b
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	}
	if k.signed {
		x, y := int64(a), int64(b)
		switch op {
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	}
	switch op {
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic(unsup("integer operator %v", op))
}

// term lifts a scalar to a term of width wd (0: Boolean).
func (w *worker) term(v value, wd uint8) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case uint64:
		return w.tt.Const(v, wd)
	case bool:
		return w.tt.Bool(v)
	}
	panic(unsup("term of %T", v))
}

// unterm turns constant terms back into concrete values.
func (w *worker) unterm(t *Term, k ikind) value {
	if t.op == tConst {
		if t.w == 0 {
			return t.val == 1
		}
		return k.norm(t.val)
	}
	return t
}

func (w *worker) binop(ci *cinstr, x, y value) value {
	op := token.Token(ci.tok)
	switch op {
	case token.EQL:
		return w.eq(x, y)
	case token.NEQ:
		return w.not(w.eq(x, y))
	}
	if ci.commaOk {
		return w.symIntBin(op, ci.ik, ci.ik2, x, y)
	}
	switch a := x.(type) {
	case string, *sstr:
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return w.strLess(x, y)
		case token.GTR:
			return w.strLess(y, x)
		case token.LEQ:
			return w.not(w.strLess(y, x))
		case token.GEQ:
			return w.not(w.strLess(x, y))
		}
	case float64:
		b, ok := y.(float64)
		if !ok {
			break
		}
		f32 := false
		if bt, ok := ci.t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			f32 = true
		}
		var r float64
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		default:
			panic(unsup("float operator %v", op))
		}
		if f32 {
			r = float64(float32(r))
		}
		return r
	case bool, *Term:
		switch op {
		case token.AND:
			return w.and(x, y)
		case token.OR:
			return w.or(x, y)
		}
	case complex128:
		b := y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	}
	panic(unsup("operator %v on %T and %T", op, x, y))
}

func (w *worker) symIntBin(op token.Token, k, k2 ikind, x, y value) value {
	tt := w.tt
	a := w.term(x, k.w)
	var b *Term
	if op == token.SHL || op == token.SHR {
		switch yy := y.(type) {
		case uint64:
			if yy >= uint64(k.w) {
				yy = uint64(k.w)
				if yy > maskW(k.w) {
					yy = maskW(k.w)
				}
			}
			b = tt.Const(yy, k.w)
		case *Term:
			if k2.signed && w.branch(tt.Bin(tSlt, yy, tt.Const(0, yy.w))) {
				panic(rtPanic("negative shift amount"))
			}
			if yy.w > k.w {
				big := tt.Bin(tUle, tt.Const(uint64(k.w), yy.w), yy)
				b = tt.Ite(big, tt.Const(uint64(k.w), k.w), tt.Trunc(yy, k.w))
			} else {
				b = tt.ZExt(yy, k.w)
			}
		}
	} else {
		b = w.term(y, k.w)
	}
	if a.w != b.w {
		panic(unsup("operand widths %d and %d for %v", a.w, b.w, op))
	}
	sel := func(s, u uint8) uint8 {
		if k.signed {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return w.unterm(tt.Bin(tAdd, a, b), k)
	case token.SUB:
		return w.unterm(tt.Bin(tSub, a, b), k)
	case token.MUL:
		return w.unterm(tt.Bin(tMul, a, b), k)
	case token.QUO, token.REM:
		if w.branch(tt.Eq(b, tt.Const(0, b.w))) {
			panic(rtPanic("integer divide by zero"))
		}
		if op == token.QUO {
			return w.unterm(tt.Bin(sel(tSDiv, tUDiv), a, b), k)
		}
		return w.unterm(tt.Bin(sel(tSRem, tURem), a, b), k)
	case token.AND:
		return w.unterm(tt.Bin(tBAnd, a, b), k)
	case token.OR:
		return w.unterm(tt.Bin(tBOr, a, b), k)
	case token.XOR:
		return w.unterm(tt.Bin(tBXor, a, b), k)
	case token.AND_NOT:
		return w.unterm(tt.Bin(tBAnd, a, tt.BNot(b)), k)
	case token.SHL:
		return w.unterm(tt.Bin(tShl, a, b), k)
	case token.SHR:
		return w.unterm(tt.Bin(sel(tAShr, tLShr), a, b), k)
	case token.LSS:
		return w.unterm(tt.Bin(sel(tSlt, tUlt), a, b), k)
	case token.LEQ:
		return w.unterm(tt.Bin(sel(tSle, tUle), a, b), k)
	case token.GTR:
		return w.unterm(tt.Bin(sel(tSlt, tUlt), b, a), k)
	case token.GEQ:
		return w.unterm(tt.Bin(sel(tSle, tUle), b, a), k)
	}
	panic(unsup("integer operator %v", op))
}

func (w *worker) unop(ci *cinstr, x value) value {
	switch token.Token(ci.tok) {
	case token.NOT:
		return w.not(x)
	case token.SUB:
		switch x := x.(type) {
		case uint64:
			return ci.ik.norm(-x)
		case *Term:
			return w.unterm(w.tt.Neg(x), ci.ik)
		case float64:
			return -x
		case complex128:
			return -x
		}
	case token.XOR:
		switch x := x.(type) {
		case uint64:
			return ci.ik.norm(^x)
		case *Term:
			return w.unterm(w.tt.BNot(x), ci.ik)
		}
	}
	panic(unsup("operator %v on %T", token.Token(ci.tok), x))
}

// ---- Booleans

func (w *worker) boolv(t *Term) value {
	if t.op == tConst {
		return t.val == 1
	}
	return t
}

func (w *worker) not(x value) value {
	switch x := x.(type) {
	case bool:
		return !x
	case *Term:
		return w.boolv(w.tt.Not(x))
	}
	panic(unsup("not of %T", x))
}

func (w *worker) and(x, y value) value {
	if a, ok := x.(bool); ok {
		if !a {
			return false
		}
		return y
	}
	if b, ok := y.(bool); ok {
		if !b {
			return false
		}
		return x
	}
	return w.boolv(w.tt.And(x.(*Term), y.(*Term)))
}

func (w *worker) or(x, y value) value {
	if a, ok := x.(bool); ok {
		if a {
			return true
		}
		return y
	}
	if b, ok := y.(bool); ok {
		if b {
			return true
		}
		return x
	}
	return w.boolv(w.tt.Or(x.(*Term), y.(*Term)))
}

// ---- equality and order

func (w *worker) eq(x, y value) value {
	switch a := x.(type) {
	case uint64:
		switch b := y.(type) {
		case uint64:
			return a == b
		case *Term:
			return w.boolv(w.tt.Eq(b, w.tt.Const(a, b.w)))
		}
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *Term:
			if a {
				return b
			}
			return w.not(b)
		}
	case *Term:
		switch b := y.(type) {
		case uint64, bool:
			return w.eq(y, x)
		case *Term:
			if a.w != b.w {
				panic(unsup("comparison of widths %d and %d", a.w, b.w))
			}
			return w.boolv(w.tt.Eq(a, b))
		}
	case string:
		if b, ok := y.(string); ok {
			return a == b
		}
		return w.strEq(x, y)
	case *sstr:
		return w.strEq(x, y)
	case float64:
		return a == y.(float64)
	case complex128:
		return a == y.(complex128)
	case *value:
		if b, ok := y.(*value); ok {
			return a == b
		}
		if y == nil {
			return a == nil
		}
		return false
	case *hmap:
		b, ok := y.(*hmap)
		return ok && a == b
	case *fnv:
		b, ok := y.(*fnv)
		if a == nil || b == nil {
			return ok && a == b
		}
		return ok && a == b
	case *hchan:
		b, ok := y.(*hchan)
		return ok && a == b
	case []value:
		b, ok := y.([]value)
		if ok && (a == nil || b == nil) {
			return a == nil && b == nil
		}
	case iface:
		b, ok := y.(iface)
		if !ok {
			break
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t {
			return false
		}
		switch a.v.(type) {
		case []value, *hmap, *fnv:
			panic(rtPanic("comparing uncomparable type %v", a.t))
		}
		return w.eq(a.v, b.v)
	case structure:
		b := y.(structure)
		var r value = true
		for i := range a {
			r = w.and(r, w.eq(a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case array:
		b := y.(array)
		var r value = true
		for i := range a {
			r = w.and(r, w.eq(a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case *opaque:
		return x == y
	case nil:
		return y == nil
	case *symAddr:
		panic(unsup("comparison of symbolic addresses"))
	}
	panic(unsup("comparison of %T and %T", x, y))
}

func (w *worker) strEq(x, y value) value {
	n := strLen(x)
	if n != strLen(y) {
		return false
	}
	var r value = true
	for i := 0; i < n; i++ {
		r = w.and(r, w.eq(strAt(x, i), strAt(y, i)))
		if r == false {
			return false
		}
	}
	return r
}

func (w *worker) strLess(x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a < b
		}
	}
	nx, ny := strLen(x), strLen(y)
	n := min(nx, ny)
	var r value = nx < ny
	for i := n - 1; i >= 0; i-- {
		a, b := w.term(strAt(x, i), 8), w.term(strAt(y, i), 8)
		lt := w.tt.Bin(tUlt, a, b)
		eq := w.tt.Eq(a, b)
		r = w.boolv(w.tt.Or(lt, w.tt.And(eq, w.term(r, 0))))
	}
	return r
}

// ---- indexing

func (w *worker) indexAddr(x, idx value, it types.Type, width uint8) value {
	var base []value
	switch x := x.(type) {
	case []value:
		base = x
	case *value:
		if x == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		a, ok := (*x).(array)
		if !ok {
			if p, ok := (*x).(*poison); ok {
				panic(unsup("use of value from failed initialiser: %s", p.msg))
			}
			panic(unsup("index of %T", *x))
		}
		base = a
	default:
		panic(unsup("index address of %T", x))
	}
	switch i := idx.(type) {
	case uint64:
		if i >= uint64(len(base)) {
			panic(rtPanic("index out of range [%d] with length %d", int64(i), len(base)))
		}
		return &base[i]
	case *Term:
		k, _ := intKind(it)
		i = w.inRange(i, k, len(base))
		for _, e := range base {
			switch e.(type) {
			case uint64, bool, *Term:
			default:
				return &base[w.concretize(i)]
			}
		}
		return &symAddr{base, i, width}
	}
	panic(unsup("index %T", idx))
}

// inRange forks off the out-of-range values of a symbolic index.
func (w *worker) inRange(i *Term, k ikind, n int) *Term {
	if i.w < 64 && uint64(n) > maskW(i.w) && !k.signed {
		return i
	}
	var ok value
	if k.w >= 64 || uint64(n) <= maskW(i.w) {
		ok = w.boolv(w.tt.Bin(tUlt, i, w.tt.Const(uint64(n), i.w)))
	} else {
		ok = w.boolv(w.tt.Bin(tSle, w.tt.Const(0, i.w), i))
	}
	if !w.branch(ok) {
		panic(rtPanic("index out of range [symbolic] with length %d", n))
	}
	return i
}

func (w *worker) index(x, idx value, it types.Type, width uint8) value {
	switch x := x.(type) {
	case string, *sstr:
		n := strLen(x)
		switch i := idx.(type) {
		case uint64:
			if i >= uint64(n) {
				panic(rtPanic("index out of range [%d] with length %d", int64(i), n))
			}
			return strAt(x, int(i))
		case *Term:
			k, _ := intKind(it)
			i = w.inRange(i, k, n)
			r := w.selectElem(strBytes(x), i, 8)
			if t, ok := r.(*Term); ok {
				r = w.unterm(w.tt.Trunc(t, 8), ikind{8, false})
			}
			return r
		}
	case array:
		switch i := idx.(type) {
		case uint64:
			if i >= uint64(len(x)) {
				panic(rtPanic("index out of range [%d] with length %d", int64(i), len(x)))
			}
			return x[i]
		case *Term:
			k, _ := intKind(it)
			i = w.inRange(i, k, len(x))
			return w.selectElem(x, i, width)
		}
	}
	panic(unsup("index of %T", x))
}

func (w *worker) slice(fr *frame, ci *cinstr) value {
	x := fr.get(&ci.a)
	arg := func(i int, def int) int {
		o := &ci.args[i]
		if o.reg < 0 && o.k == nil {
			return def
		}
		return int(w.concInt(fr.get(o), types.Typ[types.Int]))
	}
	switch x := x.(type) {
	case string, *sstr:
		n := strLen(x)
		lo := arg(0, 0)
		hi := arg(1, n)
		if hi < 0 || hi > n {
			panic(rtPanic("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			panic(rtPanic("slice bounds out of range [%d:%d]", lo, hi))
		}
		return strSlice(x, lo, hi)
	case []value:
		lo := arg(0, 0)
		hi := arg(1, len(x))
		mx := arg(2, cap(x))
		if mx < 0 || mx > cap(x) || hi < 0 || hi > mx {
			panic(rtPanic("slice bounds out of range [:%d] with capacity %d", hi, cap(x)))
		}
		if lo < 0 || lo > hi {
			panic(rtPanic("slice bounds out of range [%d:%d]", lo, hi))
		}
		return x[lo:hi:mx]
	case *value:
		if x == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		a, ok := (*x).(array)
		if !ok {
			panic(unsup("slice of pointer to %T", *x))
		}
		lo := arg(0, 0)
		hi := arg(1, len(a))
		mx := arg(2, len(a))
		if mx < 0 || mx > len(a) || hi < 0 || hi > mx || lo < 0 || lo > hi {
			panic(rtPanic("slice bounds out of range [%d:%d]", lo, hi))
		}
		return []value(a)[lo:hi:mx]
	}
	panic(unsup("slice of %T", x))
}

// ---- maps

func (w *worker) mapFind(m *hmap, k value) *hent {
	if m == nil {
		// hashing an unhashable key panics even for a nil map
		hashKey(k)
		return nil
	}
	hk, conc := hashKey(k)
	if conc {
		if e, ok := m.idx[hk]; ok {
			return e
		}
		for _, e := range m.sym {
			if !e.dead && w.branch(w.eq(e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if !e.dead && w.branch(w.eq(e.k, k)) {
			return e
		}
	}
	return nil
}

func (w *worker) mapSet(m *hmap, k, v value) {
	if e := w.mapFind(m, k); e != nil {
		if w.journal {
			old := e.v
			w.trail = append(w.trail, undo{f: func() { e.v = old }})
		}
		e.v = v
		return
	}
	e := &hent{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	hk, conc := hashKey(k)
	if conc {
		m.idx[hk] = e
	} else {
		m.sym = append(m.sym, e)
	}
	if w.journal {
		w.trail = append(w.trail, undo{f: func() {
			m.ents = m.ents[:len(m.ents)-1]
			m.n--
			if conc {
				delete(m.idx, hk)
			} else {
				m.sym = m.sym[:len(m.sym)-1]
			}
		}})
	}
}

func (w *worker) mapDelete(m *hmap, k value) {
	if m == nil {
		return
	}
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	hk, conc := hashKey(e.k)
	if conc {
		delete(m.idx, hk)
	}
	w.undoFn(func() {
		e.dead = false
		m.n++
		if conc {
			m.idx[hk] = e
		}
	})
}

func (w *worker) lookup(ci *cinstr, x, k value) value {
	switch x := x.(type) {
	case *hmap:
		e := w.mapFind(x, k)
		var v value
		if e != nil {
			v = e.v
		} else {
			v = zero(ci.t.Underlying().(*types.Map).Elem())
		}
		if ci.commaOk {
			return tuple{v, e != nil}
		}
		return v
	case string, *sstr:
		return w.index(x, k, types.Typ[types.Int], 8)
	case *poison:
		panic(unsup("use of value from failed initialiser: %s", x.msg))
	}
	panic(unsup("lookup in %T", x))
}

type mapIter struct {
	ents   []*hent
	pos    int
	choose bool
}

type strIter struct {
	s   value
	pos int
}

func (w *worker) rangeIter(fr *frame, x value) value {
	switch x := x.(type) {
	case *hmap:
		if x == nil {
			return &mapIter{}
		}
		var es []*hent
		for _, e := range x.ents {
			if !e.dead {
				es = append(es, e)
			}
		}
		choose := w.mapOrder && w.inPath && (fr.fn.repo || fr.fn.mapsPkg) && len(es) > 1
		if choose && w.mapBudget >= 0 {
			// at most mapBudget iterations on a path deviate from insertion order, each by one
			// entry that comes first instead
			choose = false
			if w.mapBudget > 0 {
				if i := w.choose(len(es)); i > 0 {
					w.mapBudget--
					w.mapUsed = true
					e := es[i]
					copy(es[1:i+1], es[:i])
					es[0] = e
				}
			}
		}
		if choose {
			w.mapUsed = true
		}
		return &mapIter{ents: es, choose: choose}
	case string, *sstr:
		return &strIter{s: x}
	case *poison:
		panic(unsup("use of value from failed initialiser: %s", x.msg))
	}
	panic(unsup("range over %T", x))
}

func (w *worker) iterNext(ci *cinstr, it value) value {
	switch it := it.(type) {
	case *mapIter:
		if it.choose {
			// any live entry not yet visited may come next
			var live []*hent
			for _, e := range it.ents {
				if !e.dead {
					live = append(live, e)
				}
			}
			it.ents = live
			if len(live) > 0 {
				i := w.choose(len(live))
				e := live[i]
				it.ents = append(append([]*hent{}, live[:i]...), live[i+1:]...)
				return tuple{true, e.k, e.v}
			}
		} else {
			for it.pos < len(it.ents) {
				e := it.ents[it.pos]
				it.pos++
				if !e.dead {
					return tuple{true, e.k, e.v}
				}
			}
		}
		return tuple{false, nil, nil}
	case *strIter:
		n := strLen(it.s)
		if it.pos >= n {
			return tuple{false, uint64(0), uint64(0)}
		}
		p := it.pos
		r, sz := w.decodeRune(it.s, p)
		it.pos += sz
		return tuple{true, uint64(p), r}
	}
	panic(unsup("next of %T", it))
}

// decodeRune decodes the rune at position p; symbolic bytes fork on being ASCII.
func (w *worker) decodeRune(s value, p int) (value, int) {
	switch b := strAt(s, p).(type) {
	case uint64:
		if b < utf8.RuneSelf {
			return b, 1
		}
		n := strLen(s)
		var buf [4]byte
		l := 0
		for l < 4 && p+l < n {
			x, ok := strAt(s, p+l).(uint64)
			if !ok {
				break
			}
			buf[l] = byte(x)
			l++
		}
		r, sz := utf8.DecodeRune(buf[:l])
		return uint64(int64(r)), sz
	case *Term:
		if w.branch(w.boolv(w.tt.Bin(tUlt, b, w.tt.Const(0x80, 8)))) {
			return w.unterm(w.tt.ZExt(b, 32), ikind{32, true}), 1
		}
		panic(unsup("decoding a symbolic non-ASCII byte"))
	}
	panic(unsup("decode rune"))
}

// ---- type assertions

func (w *worker) typeAssert(ci *cinstr, x value) value {
	i, ok := x.(iface)
	if !ok {
		panic(unsup("type assertion on %T", x))
	}
	var match bool
	var v value
	if it, isI := ci.t.Underlying().(*types.Interface); isI {
		if i.t != nil {
			match = w.eng.implements(i.t, ci.t, it)
		}
		v = i
	} else {
		match = i.t == ci.t
		v = i.v
	}
	if match {
		if ci.commaOk {
			return tuple{v, true}
		}
		return v
	}
	if ci.commaOk {
		return tuple{zero(ci.t), false}
	}
	if i.t == nil {
		panic(targetPanic{mkRuntimeError(fmt.Sprintf("interface conversion: interface is nil, not %v", ci.t))})
	}
	panic(targetPanic{mkRuntimeError(fmt.Sprintf("interface conversion: interface {} is %v, not %v", i.t, ci.t))})
}

// ---- conversions

func (w *worker) convert(from, to types.Type, x value) value {
	fu, tu := from.Underlying(), to.Underlying()
	if p, ok := x.(*poison); ok {
		panic(unsup("use of value from failed initialiser: %s", p.msg))
	}
	switch tu := tu.(type) {
	case *types.Basic:
		switch {
		case tu.Info()&types.IsInteger != 0:
			k, _ := intKind(tu)
			switch v := x.(type) {
			case uint64:
				return k.norm(v)
			case *Term:
				fk, _ := intKind(fu)
				if k.w <= v.w {
					return w.unterm(w.tt.Trunc(v, k.w), k)
				}
				if fk.signed {
					return w.unterm(w.tt.SExt(v, k.w), k)
				}
				return w.unterm(w.tt.ZExt(v, k.w), k)
			case float64:
				if k.signed {
					return k.norm(uint64(int64(v)))
				}
				if v < 0 {
					return k.norm(uint64(int64(v)))
				}
				return k.norm(uint64(v))
			case *value:
				if tu.Kind() == types.Uintptr {
					panic(unsup("pointer to uintptr"))
				}
			}
		case tu.Info()&types.IsFloat != 0:
			var f float64
			switch v := x.(type) {
			case uint64:
				fk, _ := intKind(fu)
				if fk.signed {
					f = float64(int64(v))
				} else {
					f = float64(v)
				}
			case float64:
				f = v
			default:
				panic(unsup("conversion of symbolic integer to float"))
			}
			if tu.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case tu.Info()&types.IsComplex != 0:
			if c, ok := x.(complex128); ok {
				return c
			}
		case tu.Info()&types.IsString != 0:
			switch v := x.(type) {
			case string, *sstr:
				return v
			case uint64:
				fk, _ := intKind(fu)
				r := int64(v)
				if !fk.signed && v > 0x10ffff || r < 0 || r > 0x10ffff {
					r = utf8.RuneError
				}
				return string(rune(r))
			case *Term:
				lt := w.tt.Bin(tUlt, v, w.tt.Const(0x80, v.w))
				if w.branch(w.boolv(lt)) {
					return mkStr([]value{w.unterm(w.tt.Trunc(v, 8), ikind{8, false})})
				}
				panic(unsup("symbolic non-ASCII rune to string"))
			case []value:
				es, ok := fu.(*types.Slice)
				if !ok {
					break
				}
				if eb, ok := es.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
					return mkStr(append([]value(nil), v...))
				}
				var r value = ""
				for _, c := range v {
					r = strConcat(r, w.convert(types.Typ[types.Int32], types.Typ[types.String], c))
				}
				return r
			}
		case tu.Kind() == types.UnsafePointer:
			return x
		}
	case *types.Slice:
		switch x.(type) {
		case string, *sstr:
			eb, _ := tu.Elem().Underlying().(*types.Basic)
			if eb != nil && eb.Kind() == types.Uint8 {
				b := strBytes(x)
				r := make([]value, len(b))
				copy(r, b)
				return r
			}
			n := strLen(x)
			r := []value{}
			for p := 0; p < n; {
				c, sz := w.decodeRune(x, p)
				r = append(r, c)
				p += sz
			}
			return r
		case []value:
			return x
		}
	case *types.Pointer:
		return x
	case *types.Array: // slice to array
		if s, ok := x.([]value); ok {
			n := int(tu.Len())
			if len(s) < n {
				panic(rtPanic("cannot convert slice with length %d to array with length %d", len(s), n))
			}
			return copyVal(array(s[:n]))
		}
	case *types.Signature, *types.Map, *types.Struct, *types.Chan, *types.Interface:
		return x
	}
	panic(unsup("conversion of %T from %v to %v", x, from, to))
}

// ---- builtins

func (w *worker) builtin(fr *frame, name string, ci *cinstr, args []value) value {
	for _, a := range args {
		if p, ok := a.(*poison); ok {
			panic(unsup("use of value from failed initialiser: %s", p.msg))
		}
	}
	switch name {
	case "len":
		switch x := args[0].(type) {
		case string, *sstr:
			return uint64(strLen(x))
		case []value:
			return uint64(len(x))
		case *hmap:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case array:
			return uint64(len(x))
		case *value:
			return uint64(len((*x).(array)))
		case *hchan:
			return uint64(0)
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return uint64(cap(x))
		case array:
			return uint64(len(x))
		case *value:
			return uint64(len((*x).(array)))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].([]value)
		switch y := args[1].(type) {
		case string, *sstr:
			return w.appendTo(s, strBytes(y), 1)
		case []value:
			return w.appendTo(s, y, ci.n)
		}
	case "copy":
		d := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case string, *sstr:
			src = strBytes(y)
		case []value:
			src = y
		}
		n := min(len(d), len(src))
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			w.store(&d[i], tmp[i], false)
		}
		return uint64(n)
	case "delete":
		w.mapDelete(args[0].(*hmap), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *hmap:
			if x != nil {
				for _, e := range append([]*hent{}, x.ents...) {
					if !e.dead {
						w.mapDelete(x, e.k)
					}
				}
			}
			return nil
		case []value:
			if len(x) > 0 {
				et := ci.t.Underlying().(*types.Slice).Elem()
				for i := range x {
					w.store(&x[i], zero(et), false)
				}
			}
			return nil
		}
	case "print", "println":
		return nil
	case "recover":
		// fr is the deferred function; its caller is the panicking frame
		if c := fr.caller; c != nil && c.panicking {
			c.panicking = false
			v := c.panicV
			c.panicV = nil
			if i, ok := v.(iface); ok {
				return i
			}
			return iface{}
		}
		return iface{}
	case "panic":
		panic(targetPanic{args[0]})
	case "min", "max":
		r := args[0]
		k, isInt := intKind(ci.t)
		for _, y := range args[1:] {
			var less value
			switch {
			case isInt:
				less = w.symIntBin2(token.LSS, k, y, r)
			default:
				switch y.(type) {
				case string, *sstr:
					less = w.strLess(y, r)
				case float64:
					less = y.(float64) < r.(float64)
				}
			}
			b := w.branch(less)
			if (name == "min") == b {
				r = y
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			panic(rtPanic("value method called using nil pointer"))
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "String": // unsafe.String
		n := int(w.concInt(args[1], types.Typ[types.Int]))
		if sd, ok := args[0].(*sliceData); ok {
			switch s := sd.s.(type) {
			case []value:
				return mkStr(append([]value(nil), s[:n]...))
			case string, *sstr:
				return strSlice(s, 0, n)
			}
		}
		if n == 0 {
			return ""
		}
	case "SliceData", "StringData":
		return &sliceData{args[0]}
	case "Slice": // unsafe.Slice
		n := int(w.concInt(args[1], types.Typ[types.Int]))
		if sd, ok := args[0].(*sliceData); ok {
			switch s := sd.s.(type) {
			case []value:
				return s[:n:n]
			case string, *sstr:
				return append([]value(nil), strBytes(s)[:n]...)
			}
		}
		if n == 0 {
			return []value(nil)
		}
	}
	panic(unsup("builtin %s on %T", name, args))
}

func (w *worker) symIntBin2(op token.Token, k ikind, x, y value) value {
	if a, ok := x.(uint64); ok {
		if b, ok := y.(uint64); ok {
			return intBin(op, k, k, a, b)
		}
	}
	return w.symIntBin(op, k, k, x, y)
}

func (w *worker) appendTo(s []value, y []value, size int) value {
	n := len(s) + len(y)
	if len(y) == 0 {
		return s
	}
	if n <= cap(s) {
		r := s[:n]
		for i, v := range y {
			p := &r[len(s)+i]
			w.record(p)
			*p = copyVal(v)
		}
		return r
	}
	c := growCap(cap(s), n, size)
	r := make([]value, n, c)
	for i, v := range s {
		r[i] = copyVal(v)
	}
	for i, v := range y {
		r[len(s)+i] = copyVal(v)
	}
	// the spare capacity is addressable through reslicing: give it the element's zero value
	if c > n {
		var z value
		if len(y) > 0 {
			z = zeroLike(y[0])
		}
		full := r[:c]
		for i := n; i < c; i++ {
			full[i] = copyVal(z)
		}
	}
	return r
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var gcSizes = types.SizesFor("gc", "amd64")

func elemSize(t types.Type) (n int) {
	defer func() {
		if recover() != nil {
			n = 8
		}
	}()
	return int(gcSizes.Sizeof(t))
}

// growCap is the capacity the gc run time gives a slice that grows (append aliasing depends on it).
func growCap(old, need, size int) int {
	c := need
	if need <= 2*old {
		if old < 256 {
			c = 2 * old
		} else {
			c = old
			for c < need {
				c += (c + 3*256) / 4
			}
		}
	}
	if size <= 0 {
		return c
	}
	bytes := c * size
	if bytes > 32768-8 {
		return (bytes + 8191) / 8192 * 8192 / size
	}
	for _, k := range sizeClasses {
		if k >= bytes {
			return k / size
		}
	}
	return c
}

func zeroLike(v value) value {
	switch v := v.(type) {
	case uint64:
		return uint64(0)
	case bool:
		return false
	case *Term:
		if v.w == 0 {
			return false
		}
		return uint64(0)
	case string, *sstr:
		return ""
	case float64:
		return float64(0)
	case structure:
		r := make(structure, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	case array:
		r := make(array, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	case *value:
		return (*value)(nil)
	case []value:
		return []value(nil)
	case *hmap:
		return (*hmap)(nil)
	case *fnv:
		return (*fnv)(nil)
	case iface:
		return iface{}
	}
	return nil
}

func (e *engine) implements(t types.Type, it types.Type, iface *types.Interface) bool {
	k := [2]types.Type{t, it}
	e.implMu.RLock()
	r, ok := e.impl[k]
	e.implMu.RUnlock()
	if ok {
		return r
	}
	r = types.Implements(t, iface)
	e.implMu.Lock()
	e.impl[k] = r
	e.implMu.Unlock()
	return r
}

var _ = math.Pi
