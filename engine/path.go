package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// decision is one resolved nondeterministic step of a path.
type decision struct {
	choice int32
	forced bool   // the other side is infeasible (or there is none)
	val    uint64 // candidate value of a concretisation step
}

type workItem struct {
	prefix []decision
	model  map[string]uint64
}

// inputRec is one nondeterministic input in call order, as replayed natively.
type inputRec struct {
	name string
	kind byte // 's' string, 'i' int, 'b' bool, 'c' choice
	v    value
}

type obsRec struct {
	name string
	v    []value
}

type undo struct {
	p   *value
	old value
	f   func()
}

type violation struct {
	Kind    string         `json:"kind"` // assert | panic | nontermination
	ID      string         `json:"id"`
	Msg     string         `json:"msg"`
	Harness string         `json:"harness"`
	Known   string         `json:"known,omitempty"`
	Inputs  []replayInput  `json:"inputs"`
	MapOrd  bool           `json:"map_order"`
	Extra   map[string]any `json:"extra,omitempty"`
}

type replayInput struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	S    []byte `json:"s,omitempty"`
	I    int64  `json:"i"`
}

// explorer runs one harness: a work list of decision prefixes shared by the workers.
type explorer struct {
	eng      *engine
	harness  string
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*workItem
	busy     int
	stop     bool
	deadline time.Time
	maxPaths int64

	paths, completed, aborted, assumed int64
	steps                              int64
	asserts                            map[string]*assertStat
	reach                              map[string]int64
	unsup                              map[string]int64
	limitHits                          int64
	unknowns                           int64
	dropped                            int64
	violations                         []*violation
	violKey                            map[string]int
	knowns                             map[string]*violation
	samples                            []pathSample
	funcs                              map[string]bool
	maxDecisions                       int
	decisions                          int64
}

type assertStat struct {
	Evaluated int64 `json:"evaluated"`
	Solver    int64 `json:"discharged_by_solver"`
	Static    int64 `json:"decided_by_path"`
	Failed    int64 `json:"failed"`
	Unknown   int64 `json:"unknown"`
}

// pathSample is a completed path with concrete inputs and the observations predicted for them.
type pathSample struct {
	Inputs []replayInput `json:"inputs"`
	Obs    []string      `json:"obs"`
	MapOrd bool          `json:"-"`
}

func (x *explorer) push(it *workItem) {
	x.mu.Lock()
	x.queue = append(x.queue, it)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *explorer) pop() *workItem {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop {
			return nil
		}
		if len(x.queue) > 0 {
			if time.Now().After(x.deadline) || (x.maxPaths > 0 && x.paths >= x.maxPaths) {
				x.dropped += int64(len(x.queue))
				x.queue = nil
				x.stop = true
				x.cond.Broadcast()
				return nil
			}
			// depth first, but let idle workers take from the shallow end
			it := x.queue[len(x.queue)-1]
			x.queue = x.queue[:len(x.queue)-1]
			x.busy++
			x.paths++
			return it
		}
		if x.busy == 0 {
			x.stop = true
			x.cond.Broadcast()
			return nil
		}
		x.cond.Wait()
	}
}

func (x *explorer) done() {
	x.mu.Lock()
	x.busy--
	x.mu.Unlock()
	x.cond.Broadcast()
}

// worker executes paths with its own heap and its own solver process.
type worker struct {
	eng  *engine
	x    *explorer
	id   int
	tt   *termTable
	sol  *solver
	prog *progState

	trail   []undo
	journal bool
	initing int

	prefix []decision
	pos    int
	decs   []decision
	model  map[string]uint64
	memo   map[*Term]uint64

	names     map[string]int
	inputs    []inputRec
	obs       []obsRec
	known     []string
	steps     int64
	maxSteps  int64
	depth     int
	maxDepth  int
	mapOrder  bool
	mapUsed   bool
	mapBudget int
	inPath    bool
	dom       map[*Term][4]uint64
	entangled map[*Term]bool
	callStack []*cfunc
	funcs     map[*cfunc]bool
	lemmas    map[lemma]bool
}

func (w *worker) evalB(t *Term) bool { return t.eval(w.model, w.memo) == 1 }

func (w *worker) mergeModel(m map[string]uint64) {
	c := make(map[string]uint64, len(w.model)+1)
	for k, v := range w.model {
		c[k] = v
	}
	for k, v := range m {
		c[k] = v
	}
	w.setModel(c)
}

func (w *worker) setModel(m map[string]uint64) {
	w.model = m
	w.memo = map[*Term]uint64{}
}

// single-variable analysis -------------------------------------------------

type svInfo struct {
	v     *Term
	multi bool
}

var noVar = &svInfo{}

func (w *worker) singleVar(t *Term, memo map[*Term]*svInfo) *svInfo {
	switch t.op {
	case tConst:
		return noVar
	case tVar:
		return &svInfo{v: t}
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := noVar
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x == nil {
			continue
		}
		s := w.singleVar(x, memo)
		if s == noVar {
			continue
		}
		if s.multi {
			r = s
			break
		}
		if r == noVar {
			r = s
		} else if r.v != s.v {
			r = &svInfo{multi: true}
			break
		}
	}
	memo[t] = r
	return r
}

func collectVars(t *Term, seen map[*Term]bool, f func(*Term)) {
	if t.op == tConst || seen[t] {
		return
	}
	seen[t] = true
	if t.op == tVar {
		f(t)
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			collectVars(x, seen, f)
		}
	}
}

// domainOf computes the byte values of v for which t holds.
func domainOf(t, v *Term) (d [4]uint64) {
	m := map[string]uint64{}
	for i := uint64(0); i < 1<<v.w; i++ {
		m[v.name] = i
		if t.eval(m, map[*Term]uint64{}) == 1 {
			d[i>>6] |= 1 << (i & 63)
		}
	}
	return d
}

func fullDom(v *Term) [4]uint64 {
	if v.dom != nil {
		return *v.dom
	}
	var d [4]uint64
	for i := 0; i < 1<<v.w; i++ {
		d[i>>6] |= 1 << (i & 63)
	}
	return d
}

func firstIn(d [4]uint64) (uint64, bool) {
	for i := uint64(0); i < 256; i++ {
		if d[i>>6]>>(i&63)&1 == 1 {
			return i, true
		}
	}
	return 0, false
}

// assertPath adds a fact to the path condition.
func (w *worker) assertPath(t *Term) {
	if t.isTrue() {
		return
	}
	w.sol.assert(t)
	sv := w.singleVar(t, map[*Term]*svInfo{})
	if sv.v != nil && sv.v.w <= 8 && sv.v.w > 0 {
		d := domainOf(t, sv.v)
		cur, ok := w.dom[sv.v]
		if !ok {
			cur = fullDom(sv.v)
		}
		for i := range cur {
			cur[i] &= d[i]
		}
		w.dom[sv.v] = cur
		return
	}
	collectVars(t, map[*Term]bool{}, func(v *Term) { w.entangled[v] = true })
}

// feasible decides whether the path condition together with t is satisfiable.
func (w *worker) feasible(t *Term) (satResult, map[string]uint64) {
	if t.isFalse() {
		return resUnsat, nil
	}
	if w.evalB(t) {
		return resSat, w.model
	}
	sv := w.singleVar(t, map[*Term]*svInfo{})
	if sv.v != nil && sv.v.w <= 8 && sv.v.w > 0 && !w.entangled[sv.v] {
		d := domainOf(t, sv.v)
		cur, ok := w.dom[sv.v]
		if !ok {
			cur = fullDom(sv.v)
		}
		cur0 := cur
		for i := range cur {
			cur[i] &= d[i]
		}
		x, ok := firstIn(cur)
		if !ok {
			// an infeasible side is the solver's verdict, remembered per (condition, domain)
			key := lemmaKey(t, cur0)
			if w.lemmas[key] {
				return resUnsat, nil
			}
			r, m := w.sol.check(t)
			if w.sol.dead {
				panic(unsup("solver died"))
			}
			if r == resUnsat {
				w.lemmas[key] = true
			}
			return r, m
		}
		m := make(map[string]uint64, len(w.model)+1)
		for k, v := range w.model {
			m[k] = v
		}
		m[sv.v.name] = x
		return resSat, m
	}
	r, m := w.sol.check(t)
	if w.sol.dead {
		panic(unsup("solver died"))
	}
	return r, m
}

type lemma struct {
	shape string
	dom   [4]uint64
}

// lemmaKey identifies a condition over one variable up to the variable's name.
func lemmaKey(t *Term, dom [4]uint64) lemma {
	var b []byte
	seen := map[*Term]int{}
	var put func(t *Term)
	put = func(t *Term) {
		if t == nil {
			b = append(b, '_')
			return
		}
		if i, ok := seen[t]; ok {
			b = append(b, '#')
			b = strconv.AppendInt(b, int64(i), 32)
			return
		}
		seen[t] = len(seen)
		b = append(b, '(', t.op+'A', t.w)
		if t.op != tVar {
			b = strconv.AppendUint(b, t.val, 32)
			put(t.a)
			put(t.b)
			put(t.c)
		}
	}
	put(t)
	return lemma{string(b), dom}
}

func (w *worker) nextPrefix() (decision, bool) {
	if w.pos < len(w.prefix) {
		d := w.prefix[w.pos]
		w.pos++
		w.decs = append(w.decs, d)
		return d, true
	}
	return decision{}, false
}

func (w *worker) fork(d decision, m map[string]uint64) {
	p := make([]decision, len(w.decs)+1)
	copy(p, w.decs)
	p[len(w.decs)] = d
	c := make(map[string]uint64, len(w.model)+1)
	for k, v := range w.model {
		c[k] = v
	}
	for k, v := range m {
		c[k] = v
	}
	w.x.push(&workItem{prefix: p, model: c})
}

// branch resolves a condition, forking the path when both sides are feasible.
func (w *worker) branch(c value) bool {
	switch c := c.(type) {
	case bool:
		return c
	case *Term:
		if c.op == tConst {
			return c.val == 1
		}
		return w.branchTerm(c)
	}
	panic(unsup("branch on %T", c))
}

func (w *worker) branchTerm(c *Term) bool {
	if !w.inPath {
		panic(unsup("symbolic branch outside a path"))
	}
	if d, ok := w.nextPrefix(); ok {
		r := d.choice == 1
		if !d.forced {
			if r {
				w.assertPath(c)
			} else {
				w.assertPath(w.tt.Not(c))
			}
		}
		return r
	}
	side := w.evalB(c)
	other, same := w.tt.Not(c), c
	if !side {
		other, same = c, w.tt.Not(c)
	}
	r, m := w.feasible(other)
	ch := int32(b2u(side))
	switch r {
	case resSat:
		w.fork(decision{choice: 1 - ch}, m)
		w.decs = append(w.decs, decision{choice: ch})
		w.assertPath(same)
	case resUnsat:
		w.decs = append(w.decs, decision{choice: ch, forced: true})
	default:
		w.x.mu.Lock()
		w.x.unknowns++
		w.x.mu.Unlock()
		w.decs = append(w.decs, decision{choice: ch})
		w.assertPath(same)
	}
	return side
}

// choose picks one of n alternatives; all are explored.
func (w *worker) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if !w.inPath {
		panic(unsup("choice outside a path"))
	}
	if d, ok := w.nextPrefix(); ok {
		return int(d.choice)
	}
	for i := n - 1; i >= 1; i-- {
		w.fork(decision{choice: int32(i)}, w.model)
	}
	w.decs = append(w.decs, decision{choice: 0})
	return 0
}

// concretize forks over the possible values of t.
func (w *worker) concretize(t *Term) uint64 {
	for {
		if t.op == tConst {
			return t.val
		}
		if d, ok := w.nextPrefix(); ok {
			eq := w.tt.Eq(t, w.tt.Const(d.val, t.w))
			if d.choice == 1 {
				if !d.forced {
					w.assertPath(eq)
				}
				return d.val
			}
			w.assertPath(w.tt.Not(eq))
			continue
		}
		v := t.eval(w.model, w.memo)
		eq := w.tt.Eq(t, w.tt.Const(v, t.w))
		r, m := w.feasible(w.tt.Not(eq))
		switch r {
		case resSat:
			w.fork(decision{choice: 0, val: v}, m)
			w.decs = append(w.decs, decision{choice: 1, val: v})
			w.assertPath(eq)
		case resUnsat:
			w.decs = append(w.decs, decision{choice: 1, val: v, forced: true})
		default:
			w.x.mu.Lock()
			w.x.unknowns++
			w.x.mu.Unlock()
			w.decs = append(w.decs, decision{choice: 1, val: v})
			w.assertPath(eq)
		}
		return v
	}
}

// concInt concretises an integer value of static type t to a signed number.
func (w *worker) concInt(v value, t types.Type) int64 {
	switch v := v.(type) {
	case uint64:
		return int64(v)
	case *Term:
		k, _ := intKind(t)
		return int64(k.norm(w.concretize(v)))
	}
	panic(unsup("integer of %T", v))
}

func (w *worker) assume(c value) {
	switch c := c.(type) {
	case bool:
		if !c {
			panic(pathAbort{"assume"})
		}
		return
	case *Term:
		if c.isTrue() {
			return
		}
		if c.isFalse() {
			panic(pathAbort{"assume"})
		}
		if d, ok := w.nextPrefix(); ok {
			_ = d
			w.assertPath(c)
			return
		}
		r, m := w.feasible(c)
		switch r {
		case resSat:
			w.decs = append(w.decs, decision{choice: 1})
			w.assertPath(c)
			if !w.evalB(c) {
				w.mergeModel(m)
			}
		case resUnsat:
			panic(pathAbort{"assume"})
		default:
			panic(unsup("assumption undecided by the solver"))
		}
		return
	}
	panic(unsup("assume %T", c))
}

// check decides an assertion on this path: for every value of the inputs that follow the path.
func (w *worker) check(id, msg string, c value) {
	st := func(f func(*assertStat)) {
		w.x.mu.Lock()
		s := w.x.asserts[id]
		if s == nil {
			s = &assertStat{}
			w.x.asserts[id] = s
		}
		f(s)
		w.x.mu.Unlock()
	}
	switch c := c.(type) {
	case bool:
		st(func(s *assertStat) { s.Evaluated++; s.Static++ })
		if !c {
			st(func(s *assertStat) { s.Failed++ })
			w.report("assert", id, msg, w.model)
			panic(pathAbort{"assertion failed"})
		}
		return
	case *Term:
		if c.op == tConst {
			w.check(id, msg, c.val == 1)
			return
		}
		if d, ok := w.nextPrefix(); ok { // already decided when this prefix was first run
			_ = d
			if !d.forced {
				w.assertPath(c)
			}
			return
		}
		st(func(s *assertStat) { s.Evaluated++ })
		if !w.evalB(c) {
			st(func(s *assertStat) { s.Failed++ })
			w.report("assert", id, msg, w.model)
			w.assume(c)
			return
		}
		r, m := w.sol.check(w.tt.Not(c))
		if w.sol.dead {
			panic(unsup("solver died"))
		}
		switch r {
		case resUnsat:
			st(func(s *assertStat) { s.Solver++ })
			w.decs = append(w.decs, decision{choice: 1, forced: true})
		case resSat:
			st(func(s *assertStat) { s.Failed++ })
			full := make(map[string]uint64, len(w.model))
			for k, v := range w.model {
				full[k] = v
			}
			for k, v := range m {
				full[k] = v
			}
			w.report("assert", id, msg, full)
			w.decs = append(w.decs, decision{choice: 1})
			w.assertPath(c)
		default:
			st(func(s *assertStat) { s.Unknown++ })
			w.decs = append(w.decs, decision{choice: 1})
			w.assertPath(c)
		}
		return
	}
	panic(unsup("assert %T", c))
}

func (w *worker) report(kind, id, msg string, m map[string]uint64) {
	v := &violation{Kind: kind, ID: id, Msg: msg, Harness: w.x.harness, Inputs: w.concreteInputs(m), MapOrd: w.mapUsed}
	for _, k := range w.known {
		kf, kid, _ := strings.Cut(k, "|")
		if kid == id {
			v.Known = kf
		}
	}
	w.x.mu.Lock()
	defer w.x.mu.Unlock()
	key := kind + "|" + id + "|" + v.Known
	w.x.violKey[key]++
	if w.x.violKey[key] <= 6 {
		w.x.violations = append(w.x.violations, v)
	}
}

func evalVal(v value, m map[string]uint64) value {
	switch v := v.(type) {
	case *Term:
		u := v.eval(m, map[*Term]uint64{})
		if v.w == 0 {
			return u == 1
		}
		return sext(u, v.w)
	case *sstr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			switch x := x.(type) {
			case uint64:
				b[i] = byte(x)
			case *Term:
				b[i] = byte(x.eval(m, map[*Term]uint64{}))
			}
		}
		return string(b)
	}
	return v
}

func (w *worker) concreteInputs(m map[string]uint64) []replayInput {
	var out []replayInput
	for _, in := range w.inputs {
		r := replayInput{Name: in.name, Kind: string(in.kind)}
		switch x := evalVal(in.v, m).(type) {
		case string:
			r.S = []byte(x)
		case uint64:
			r.I = int64(x)
		case bool:
			r.I = int64(b2u(x))
		case int:
			r.I = int64(x)
		}
		out = append(out, r)
	}
	return out
}

func (w *worker) concreteObs(m map[string]uint64) []string {
	var out []string
	for _, o := range w.obs {
		var sb strings.Builder
		sb.WriteString(o.name)
		sb.WriteByte('=')
		for i, v := range o.v {
			if i > 0 {
				sb.WriteByte(',')
			}
			switch x := evalVal(v, m).(type) {
			case string:
				fmt.Fprintf(&sb, "%q", x)
			case uint64:
				fmt.Fprintf(&sb, "%d", int64(x))
			case bool:
				fmt.Fprintf(&sb, "%v", x)
			default:
				fmt.Fprintf(&sb, "?%T", x)
			}
		}
		out = append(out, sb.String())
	}
	return out
}

func (w *worker) freshName(base string) string {
	n := w.names[base]
	w.names[base] = n + 1
	if n == 0 {
		return base
	}
	return fmt.Sprintf("%s#%d", base, n)
}

func (w *worker) rollback() {
	for i := len(w.trail) - 1; i >= 0; i-- {
		u := &w.trail[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		*u = undo{}
	}
	if cap(w.trail) > 1<<20 {
		w.trail = nil
	} else {
		w.trail = w.trail[:0]
	}
}

// runPath executes the harness once, following it.prefix.
func (w *worker) runPath(it *workItem, f *cfunc) {
	w.tt = newTermTable()
	w.prefix, w.pos, w.decs = it.prefix, 0, make([]decision, 0, len(it.prefix)+16)
	m := make(map[string]uint64, len(it.model)+8)
	for k, v := range it.model {
		m[k] = v
	}
	w.setModel(m)
	w.names = map[string]int{}
	w.inputs, w.obs, w.known = nil, nil, nil
	w.steps, w.depth = 0, 0
	w.mapOrder, w.mapUsed, w.mapBudget = false, false, -1
	w.dom, w.entangled = map[*Term][4]uint64{}, map[*Term]bool{}
	w.callStack = w.callStack[:0]
	w.journal, w.inPath = true, true
	w.sol.beginPath()
	why := w.runGuarded(f)
	w.inPath, w.journal = false, false
	w.initing = 0
	if why == "" && !w.sol.dead {
		// the path condition itself goes to the solver: no verdict rests on an impossible path
		switch r, m := w.sol.check(nil); r {
		case resSat:
			w.mergeModel(m)
		case resUnsat:
			w.noteUnsup("engine: a completed path has an unsatisfiable condition")
		}
	}
	if why == "" {
		w.x.mu.Lock()
		w.x.completed++
		keep := len(w.x.samples) < w.eng.maxSamples && (w.x.completed%w.eng.sampleEvery == 1 || w.eng.sampleEvery <= 1)
		w.x.mu.Unlock()
		if keep {
			s := pathSample{Inputs: w.concreteInputs(w.model), Obs: w.concreteObs(w.model), MapOrd: w.mapUsed}
			w.x.mu.Lock()
			w.x.samples = append(w.x.samples, s)
			w.x.mu.Unlock()
		}
	}
	if w.sol.dead {
		w.sol.restart()
	} else {
		w.sol.endPath()
	}
	w.rollback()
	w.x.mu.Lock()
	w.x.steps += w.steps
	w.x.decisions += int64(len(w.decs) - len(it.prefix))
	if len(w.decs) > w.x.maxDecisions {
		w.x.maxDecisions = len(w.decs)
	}
	w.x.mu.Unlock()
}

func (w *worker) stackString(n int) string {
	var names []string
	for i := len(w.callStack) - 1; i >= 0 && len(names) < n; i-- {
		names = append(names, w.callStack[i].name)
	}
	return strings.Join(names, " < ")
}

func (w *worker) runGuarded(f *cfunc) (why string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case pathAbort:
			why = r.why
			w.x.mu.Lock()
			if r.why == "assume" {
				w.x.assumed++
			} else {
				w.x.aborted++
			}
			w.x.mu.Unlock()
		case targetPanic:
			why = "panic"
			msg := w.panicString(r.v)
			w.report("panic", "panic", msg+" at "+w.stackString(6), w.model)
			w.x.mu.Lock()
			w.x.aborted++
			w.x.mu.Unlock()
		case nonterm:
			why = "nontermination"
			w.report("nontermination", "termination", r.msg, w.model)
			w.x.mu.Lock()
			w.x.limitHits++
			w.x.mu.Unlock()
		case unsupported:
			why = "unsupported"
			w.noteUnsup(r.msg + " @ " + w.stackString(4))
		default:
			why = "unsupported"
			if w.eng.debug {
				panic(r)
			}
			w.noteUnsup(fmt.Sprintf("engine: %v @ %s", r, w.stackString(4)))
		}
	}()
	w.call(f, nil, nil)
	return ""
}

type nonterm struct{ msg string }

func (w *worker) noteUnsup(msg string) {
	w.x.mu.Lock()
	w.x.unsup[msg]++
	w.x.mu.Unlock()
}

func (w *worker) panicString(v value) string {
	if i, ok := v.(iface); ok {
		switch x := i.v.(type) {
		case string:
			return x
		case *sstr:
			return evalVal(x, w.model).(string)
		}
		if i.t != nil {
			if s, ok := w.tryErrorString(i); ok {
				return s
			}
			return "value of type " + i.t.String()
		}
	}
	return fmt.Sprintf("%T", v)
}

func (w *worker) tryErrorString(i iface) (s string, ok bool) {
	defer func() {
		if recover() != nil {
			s, ok = "", false
		}
	}()
	r := w.callMethod(i, "Error", nil)
	v := evalVal(r, w.model)
	s, ok = v.(string)
	return
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
