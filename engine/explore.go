package main

// Path exploration: a path is a list of boolean decisions; a run re-executes
// the harness from the start, follows the given prefix and then forks, through
// the solver, at every decision that is open both ways.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func stack() string { return string(debug.Stack()) }

type pathEnd struct{ kind, reason string }

type undoRec struct {
	c     *Cell
	v     Value
	mo    *MapObj
	mcopy *MapObj
}

type extractor interface {
	read(c *Cell, t types.Type) Value
	write(c *Cell, v Value)
}

type Machine struct {
	eng     *Engine
	tf      *TF
	sol     *Solver
	epoch   uint32
	undo    []undoRec
	funcs   map[*ssa.Function]*cfunc
	globals map[*ssa.Global]*Cell
	inited  map[*ssa.Package]int
	methods map[methKey]*ssa.Function
	impls   map[implKey]bool
	touched map[*ssa.Function]bool
	ex      extractor
	inInit  int
	rtypes  map[*Cell]types.Type
	rtypeOf map[types.Type]*Cell

	// path state
	s            *pathSched
	cur          *G
	prefix       []byte
	prefixVals   []uint64 // values tried by concInt on the prefix
	vals         []uint64
	dec          []byte
	pc           []*Term
	byVar        map[*Term][]int // the conditions of pc, by variable
	gen          uint32
	small        *Solver // for queries about a single variable
	known        map[*Term]bool
	model        Model
	steps        int
	maxSteps     int
	maxTime      int64
	nextAddr     uint64
	labels       map[string]int
	ndvars       []ndVar
	pathDone     chan *pathEnd
	killing      bool
	gwg          sync.WaitGroup
	mapOrder     int
	selForks     int
	delays       int
	delayed      int
	pointsOn     bool
	npoints      int
	uuidN        int
	race, firing bool
	obs          []obsRec
	asserts      int
	trivial      int
	reached      map[string]bool
	viols        []*Violation
	cutShort     string
	steplog      []stepRec
	job          *Job
}

type ndVar struct {
	key  string
	kind string
	t    []*Term // bytes of a string / a single term
}

type obsRec struct {
	label string
	v     []obsPart
}

type obsPart struct {
	s string
	t []*Term // symbolic string
	i *Term
	b bool
}

type stepRec struct {
	t    int64
	g    string
	what Str
}

// history renders the steps logged.
func (m *Machine) history() []string {
	var out []string
	for _, r := range m.steplog {
		out = append(out, fmt.Sprintf("%dus %s: %s", r.t/1000, r.g, m.modelStr(r.what)))
	}
	return out
}

type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"message"`
	Inputs  map[string]string `json:"inputs"`
	Obs     []string          `json:"observations"`
	Steps   []string          `json:"steps"`
	kind    string
}

func newMachine(e *Engine) *Machine {
	m := &Machine{
		eng: e, tf: newTF(), sol: newSolver(e.solverTO), small: newSolver(e.solverTO),
		funcs: map[*ssa.Function]*cfunc{}, globals: map[*ssa.Global]*Cell{},
		inited: map[*ssa.Package]int{}, methods: map[methKey]*ssa.Function{}, impls: map[implKey]bool{},
		touched:  map[*ssa.Function]bool{},
		pathDone: make(chan *pathEnd, 4),
	}
	return m
}

// decisions --------------------------------------------------------------------

func (m *Machine) decide(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if c.op == OpNot {
		return !m.decide(c.a)
	}
	if v, ok := m.known[c]; ok {
		return v
	}
	if m.inInit > 0 {
		m.unsupported("symbolic decision in package initialisation")
	}
	i := len(m.dec)
	if i < len(m.prefix) {
		d := m.prefix[i]
		m.dec = append(m.dec, d)
		v := d&1 == 1
		m.known[c] = v
		if d&2 == 0 { // not forced
			m.addPC(c, v)
		}
		return v
	}
	v := m.tf.Eval(c, m.model) == 1
	other := c
	if v {
		other = m.tf.Not(c)
	}
	var d byte
	if v {
		d = 1
	}
	r, md := m.check(other)
	switch r {
	case Sat:
		alt := make([]byte, i+1)
		copy(alt, m.dec)
		alt[i] = d ^ 1
		m.job.push(workItem{prefix: alt, vals: append([]uint64(nil), m.vals...), model: md})
	case Unsat:
		d |= 2
	case Unknown:
		m.job.noteCut("solver unknown at a branch")
	}
	m.dec = append(m.dec, d)
	m.known[c] = v
	if d&2 == 0 {
		m.addPC(c, v)
	}
	return v
}

func (m *Machine) addPC(c *Term, v bool) {
	if !v {
		c = m.tf.Not(c)
	}
	m.pushPC(c)
}

func (m *Machine) pushPC(c *Term) {
	for _, v := range c.vars() {
		m.byVar[v] = append(m.byVar[v], len(m.pc))
	}
	m.pc = append(m.pc, c)
}

// check decides pc and c. The model at hand satisfies pc, so only the
// conditions that share variables with c, directly or not, take part; the
// resulting model is the one at hand with their variables changed.
func (m *Machine) check(c *Term) (Result, Model) {
	m.gen++
	var idx []int
	work := append([]*Term(nil), c.vars()...)
	for _, v := range work {
		v.mark = m.gen
	}
	n := len(work)
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		for _, i := range m.byVar[v] {
			p := m.pc[i]
			if p.mark == m.gen {
				continue
			}
			p.mark = m.gen
			idx = append(idx, i)
			for _, w := range p.vars() {
				if w.mark != m.gen {
					w.mark = m.gen
					n++
					work = append(work, w)
				}
			}
		}
	}
	sort.Ints(idx)
	slice := make([]*Term, len(idx))
	for k, i := range idx {
		slice[k] = m.pc[i]
	}
	sol := m.sol
	if n == 1 {
		sol = m.small
	}
	t0 := sol.Stats
	r, md := sol.Check(slice, c)
	if sol != m.sol {
		d := sol.Stats
		d.Queries -= t0.Queries
		d.SatN -= t0.SatN
		d.UnsatN -= t0.UnsatN
		d.UnknownN -= t0.UnknownN
		d.Time -= t0.Time
		m.sol.Stats.add(d)
	}
	if r == Sat {
		all := make(Model, len(m.model)+len(md))
		for k, v := range m.model {
			all[k] = v
		}
		for k, v := range md {
			all[k] = v
		}
		md = all
	}
	return r, md
}

func (m *Machine) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(abortSig{"infeasible", "assumption"})
	}
	if c.op == OpAnd { // keep conjuncts separate: better reuse
		m.assume(c.a)
		m.assume(c.b)
		return
	}
	if v, ok := m.known[c]; ok {
		if !v {
			panic(abortSig{"infeasible", "assumption"})
		}
		return
	}
	if m.tf.Eval(c, m.model) == 1 {
		m.pushPC(c)
		m.known[c] = true
		return
	}
	r, md := m.check(c)
	switch r {
	case Sat:
		m.pushPC(c)
		m.known[c] = true
		m.model = md
	case Unsat:
		panic(abortSig{"infeasible", "assumption"})
	default:
		m.job.noteCut("solver unknown at an assumption")
		panic(abortSig{"unknown", "assumption"})
	}
}

func (m *Machine) fresh(label, kind string, w uint8) *Term {
	k := m.labels[label]
	m.labels[label] = k + 1
	key := fmt.Sprintf("%s#%d", label, k)
	t := m.tf.Var(key, w)
	m.ndvars = append(m.ndvars, ndVar{key: key, kind: kind, t: []*Term{t}})
	return t
}

func (m *Machine) choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	t := m.fresh(label, "int", 8)
	m.assume(m.tf.Ult(t, m.tf.Const(uint64(n), 8)))
	for i := 0; i < n-1; i++ {
		if m.decide(m.tf.Eq(t, m.tf.Const(uint64(i), 8))) {
			return i
		}
	}
	return n - 1
}

// assertTrue checks an obligation for all values on this path.
func (m *Machine) assertTrue(c *Term, msg string) {
	m.asserts++
	if c.isTrue() {
		m.trivial++
		return
	}
	if v, ok := m.known[c]; ok && v {
		m.trivial++
		return
	}
	nc := m.tf.Not(c)
	if m.tf.Eval(c, m.model) == 0 {
		m.violate("assert", msg, m.model)
		panic(abortSig{"violation", msg})
	}
	r, md := m.check(nc)
	switch r {
	case Sat:
		m.violate("assert", msg, md)
		m.assume(c)
	case Unsat:
		m.known[c] = true
	default:
		m.job.noteCut("solver unknown at assertion: " + msg)
		m.assume(c)
	}
}

func (m *Machine) violate(kind, msg string, md Model) {
	v := &Violation{Harness: m.job.h.name, Msg: msg, Inputs: m.inputs(md), kind: kind, Obs: m.obsStrings(md), Steps: m.history()}
	m.viols = append(m.viols, v)
}

func (m *Machine) inputs(md Model) map[string]string {
	out := map[string]string{}
	if thorough {
		out["tier"] = "thorough"
	}
	if m.s.nsteps < 200000 {
		for _, g := range m.s.gs {
			if g.name[0] == 'm' && len(g.steps) > 0 {
				b := make([]byte, 0, 8*len(g.steps))
				last := int64(0)
				for _, t := range g.steps {
					b = strconv.AppendInt(b, t-last, 36)
					b = append(b, ' ')
					last = t
				}
				out["sched/"+g.name] = string(b)
			}
		}
	}
	for _, v := range m.ndvars {
		switch v.kind {
		case "bytes":
			b := make([]byte, len(v.t))
			for i, t := range v.t {
				b[i] = byte(m.tf.Eval(t, md))
			}
			out[v.key] = fmt.Sprintf("x%x", b)
		default:
			out[v.key] = fmt.Sprintf("%d", sext(m.tf.Eval(v.t[0], md), max8(v.t[0].w)))
		}
	}
	return out
}

func max8(w uint8) uint8 {
	if w <= 8 {
		return 64 // bytes and booleans are unsigned
	}
	return w
}

func (m *Machine) obsStrings(md Model) []string {
	var out []string
	for _, o := range m.obs {
		s := o.label
		for _, p := range o.v {
			switch {
			case p.i != nil:
				x := m.tf.Eval(p.i, md)
				if p.i.w == 0 {
					s += fmt.Sprintf(" %v", x == 1)
				} else {
					s += fmt.Sprintf(" %d", sext(x, max8(p.i.w)))
				}
			case p.t != nil:
				b := make([]byte, len(p.t))
				for i, t := range p.t {
					b[i] = byte(m.tf.Eval(t, md))
				}
				s += fmt.Sprintf(" %q", b)
			default:
				s += fmt.Sprintf(" %q", p.s)
			}
		}
		out = append(out, s)
	}
	return out
}

// one path -----------------------------------------------------------------------

func (m *Machine) runPath(it workItem) *pathEnd {
	m.epoch++
	m.s = &pathSched{now: 0, mutexes: map[*Cell]*mutexState{}, wgs: map[*Cell]*wgState{}, conds: map[*Cell][]*G{},
		timerOf: map[*Cell]*timerObj{}, chanOf: map[*Cell]*ChanObj{}, smaps: map[*Cell]*MapObj{}, avals: map[*Cell]Iface{}, pools: map[*Cell][]Value{},
		clk: map[interface{}]vclock{}, acc: map[interface{}]*raceRec{}}
	m.race, m.firing = false, false
	m.prefix = it.prefix
	m.prefixVals, m.vals = it.vals, nil
	m.dec = m.dec[:0:0]
	m.pc = m.pc[:0:0]
	m.byVar = map[*Term][]int{}
	m.known = map[*Term]bool{}
	m.model = it.model
	if m.model == nil {
		m.model = Model{}
	}
	m.steps = 0
	m.maxSteps = m.job.lim.Steps
	m.maxTime = int64(m.job.lim.VirtualSec) * 1e9
	m.nextAddr = 0
	m.labels = map[string]int{}
	m.ndvars = nil
	m.killing = false
	m.mapOrder = 0
	m.selForks = 1 << 30
	m.delays = 0
	m.delayed = 0
	m.pointsOn = false
	m.npoints = 0
	m.uuidN = 0
	m.obs = nil
	m.asserts, m.trivial = 0, 0
	m.reached = map[string]bool{}
	m.viols = nil
	m.cutShort = ""
	m.steplog = m.steplog[:0]
	m.cur = nil

	g := m.spawn(nil, &Closure{fn: m.job.h.fn}, nil, true)
	m.s.runq = nil
	m.cur = g
	g.resume <- struct{}{}
	end := <-m.pathDone
	// stop the other goroutines
	m.killing = true
	for _, x := range m.s.gs {
		select {
		case x.resume <- struct{}{}:
		default:
		}
	}
	m.gwg.Wait()
	for len(m.pathDone) > 0 {
		<-m.pathDone
	}
	m.killing = false
	if end.kind == "panic" || end.kind == "deadlock" {
		if end.kind == "deadlock" {
			end.reason = "deadlock: " + end.reason
		}
		m.violate(end.kind, end.reason, m.model)
	}
	if end.kind == "steps" {
		// a candidate: it counts only if the real code does not come to an end either
		m.violate("livelock", "runs without an end", m.model)
	}
	if len(m.dec) < len(m.prefix) && end.kind == "done" {
		end = &pathEnd{"internal", "path replay diverged"}
	}
	// roll back
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		if u.mo != nil {
			u.mo.ents, u.mo.n, u.mo.nsym, u.mo.idx, u.mo.saved = u.mcopy.ents, u.mcopy.n, u.mcopy.nsym, u.mcopy.idx, 0
		} else {
			u.c.v = u.v
		}
	}
	m.undo = m.undo[:0]
	return end
}

// jobs ------------------------------------------------------------------------------

type Limits struct {
	Steps      int
	Paths      int
	Seconds    int
	VirtualSec int
}

type harness struct {
	name string
	fn   *ssa.Function
}

type workItem struct {
	prefix []byte
	vals   []uint64
	model  Model
}

type Job struct {
	eng *Engine
	h   harness
	lim Limits

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []workItem
	active   int
	stop     bool
	deadline time.Time

	Paths, Done, Infeasible int
	Steps                   int64
	Decisions               int64
	Switches                int64
	Asserts, Trivial        int
	Reached                 map[string]int
	Cuts                    map[string]int
	Viols                   []*Violation
	violPaths               int
	violCount               map[string]int
	firstViol               time.Time
	Samples                 []*sample
	Stats                   SolverStats
	Elapsed                 time.Duration
	MaxPoints               int
}

type sample struct {
	inputs map[string]string
	obs    []string
}

func (j *Job) push(w workItem) {
	j.mu.Lock()
	j.queue = append(j.queue, w)
	j.mu.Unlock()
	j.cond.Signal()
}

func (j *Job) noteCut(s string) {
	j.mu.Lock()
	j.Cuts[s]++
	j.mu.Unlock()
}

func (j *Job) pop() (workItem, bool) {
	j.mu.Lock()
	defer j.mu.Unlock()
	for {
		if j.stop {
			return workItem{}, false
		}
		if n := len(j.queue); n > 0 {
			if j.Paths >= j.lim.Paths || time.Now().After(j.deadline) {
				j.Cuts[fmt.Sprintf("path/time budget of %s reached", j.h.name)]++
				j.stop = true
				j.cond.Broadcast()
				return workItem{}, false
			}
			w := j.queue[n-1]
			j.queue = j.queue[:n-1]
			j.active++
			j.Paths++
			return w, true
		}
		if j.active == 0 {
			j.stop = true
			j.cond.Broadcast()
			return workItem{}, false
		}
		j.cond.Wait()
	}
}

func (e *Engine) runJob(h harness, lim Limits, machines []*Machine) *Job {
	j := &Job{eng: e, h: h, lim: lim, Reached: map[string]int{}, Cuts: map[string]int{}}
	j.cond = sync.NewCond(&j.mu)
	j.deadline = time.Now().Add(time.Duration(lim.Seconds) * time.Second)
	j.queue = []workItem{{}}
	t0 := time.Now()
	var wg sync.WaitGroup
	for _, m := range machines {
		wg.Add(1)
		go func(m *Machine) {
			defer wg.Done()
			m.job = j
			st0 := m.sol.Stats
			for {
				it, ok := j.pop()
				if !ok {
					break
				}
				end := m.runPath(it)
				j.finish(m, end)
			}
			j.mu.Lock()
			d := m.sol.Stats
			d.Queries -= st0.Queries
			d.SatN -= st0.SatN
			d.UnsatN -= st0.UnsatN
			d.UnknownN -= st0.UnknownN
			d.Time -= st0.Time
			j.Stats.add(d)
			j.mu.Unlock()
			if len(m.tf.tab) > 3_000_000 {
				m.reset()
			}
		}(m)
	}
	wg.Wait()
	j.Elapsed = time.Since(t0)
	return j
}

// reset drops the machine's term table (and everything that refers to it).
func (m *Machine) reset() {
	m.sol.close()
	m.small.close()
	n := newMachine(m.eng)
	n.touched = m.touched
	st := m.sol.Stats
	n.sol.Stats = st
	*m = Machine{}
	m.small = n.small
	m.eng, m.tf, m.sol, m.funcs, m.globals, m.inited = n.eng, n.tf, n.sol, n.funcs, n.globals, n.inited
	m.methods, m.impls, m.touched, m.pathDone = n.methods, n.impls, n.touched, n.pathDone
}

func (j *Job) finish(m *Machine, end *pathEnd) {
	j.mu.Lock()
	defer j.mu.Unlock()
	j.active--
	j.Steps += int64(m.steps)
	j.Decisions += int64(len(m.dec))
	j.Switches += int64(m.s.switches)
	j.Asserts += m.asserts
	j.Trivial += m.trivial
	if m.npoints > j.MaxPoints {
		j.MaxPoints = m.npoints
	}
	for k := range m.reached {
		j.Reached[k]++
	}
	for _, v := range m.viols {
		j.addViol(v)
	}
	switch end.kind {
	case "done":
		j.Done++
		if len(m.viols) == 0 {
			j.addSample(m)
		}
	case "infeasible":
		j.Infeasible++
	case "violation", "panic", "deadlock":
	default:
		j.Cuts[end.kind+": "+end.reason]++
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "CUT", end.kind, end.reason, m.inputs(m.model))
		}
	}
	if j.violPaths >= 3000 || j.violPaths > 0 && time.Since(j.firstViol) > 20*time.Second {
		j.stop = true
	}
	j.cond.Broadcast()
}

// addViol keeps the first violations of every message and a spread of the
// later ones: not all of them need to be reproducible natively.
func (j *Job) addViol(v *Violation) {
	if j.violPaths == 0 {
		j.firstViol = time.Now()
		j.violCount = map[string]int{}
	}
	j.violPaths++
	k := v.key()
	j.violCount[k]++
	if n := j.violCount[k]; n <= 4 || n%(1+n/8) == 0 && n < 400 {
		j.Viols = append(j.Viols, v)
	}
}

func (v *Violation) key() string { return v.Harness + "|" + v.kind + "|" + stripDigits(v.Msg) }

func (j *Job) addSample(m *Machine) {
	// keep a spread of paths: the first 8, then reservoir-like thinning
	n := j.Done
	if len(j.Samples) < 24 || n%(1+n/24) == 0 && len(j.Samples) < 64 {
		j.Samples = append(j.Samples, &sample{inputs: m.inputs(m.model), obs: m.obsStrings(m.model)})
	}
}

func (j *Job) cutList() []string {
	var out []string
	for k, n := range j.Cuts {
		out = append(out, fmt.Sprintf("%s (x%d)", firstLine(k), n))
	}
	sort.Strings(out)
	return out
}

func firstLine(s string) string {
	if os.Getenv("VERIF_DEBUG") != "" {
		return s
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var _ = token.NoPos
