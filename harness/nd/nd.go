// Package nd is the harness interface: symbolic inputs, assumptions and
// assertions. The symbolic engine implements these functions itself; the Go
// bodies below are the native implementation, used when a model found by the
// solver is replayed against the compiled code.
package nd

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	mu     sync.Mutex
	inputs map[string]string
	counts map[string]int
	names  map[string]string // goroutine id -> name
	kids   map[string]int
	base   time.Time
	waitFn func()
	sched  map[string][]int64 // goroutine name -> when it passes each ordering point
	passed map[string]int
	end    int64 // after the last ordering point
	raw    int   // run under the race detector, which ordering would blind

	spawned int
)

// Setup installs the inputs of one native replay.
func Setup(in map[string]string, quiesce func()) {
	inputs, waitFn = in, quiesce
	raw, _ = strconv.Atoi(in["raw"])
	counts, names, kids = map[string]int{}, map[string]string{}, map[string]int{}
	names[goid()] = "m"
	base, end = time.Now(), 0
	sched, passed = map[string][]int64{}, map[string]int{}
	for k, v := range in {
		if !strings.HasPrefix(k, "sched/") {
			continue
		}
		t, l := int64(0), []int64(nil)
		for _, f := range strings.Fields(v) {
			d, _ := strconv.ParseInt(f, 36, 64)
			t += d
			l = append(l, t)
		}
		sched[k[len("sched/"):]] = l
		if t >= end && in["hold"] != "" {
			end = t + 1
		}
	}
}

// Log records a step for the report of a violation.
func Log(s string) {
	if os.Getenv("VERIF_TRACE") != "" {
		mu.Lock()
		fmt.Println("STEP", time.Since(base), names[goid()], s)
		mu.Unlock()
	}
}

// Order is a place that goroutines pass natively in the order of the engine's
// run: at a given virtual time, which passes only when all others are blocked.
func Order() {
	if raw > 0 {
		return
	}
	mu.Lock()
	name, ok := names[goid()]
	if !ok {
		mu.Unlock()
		return
	}
	k := passed[name]
	passed[name] = k + 1
	l := sched[name]
	t := end // it does not pass in the engine's run: after everything that does.
	if k < len(l) {
		t = l[k]
	}
	mu.Unlock()
	if d := time.Duration(t) - time.Since(base); d > 0 {
		time.Sleep(d)
	}
}

func goid() string {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	if i := bytes.IndexByte(b, ' '); i > 0 {
		b = b[:i]
	}
	return string(b)
}

func next(label string) string {
	mu.Lock()
	defer mu.Unlock()
	k := counts[label]
	counts[label] = k + 1
	return inputs[label+"#"+strconv.Itoa(k)]
}

func num(label string) int {
	n, _ := strconv.Atoi(next(label))
	return n
}

// Byte is any byte.
func Byte(label string) byte { return byte(num(label)) }

// Bool is any boolean.
func Bool(label string) bool { return num(label) == 1 }

// Int is any integer in lo..hi.
func Int(label string, lo, hi int) int {
	n := num(label)
	if n < lo {
		n = lo
	}
	if n > hi {
		n = hi
	}
	return n
}

// Choose is any of 0..n-1; the engine splits on it.
func Choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	return Int(label, 0, n-1)
}

// Str is any string of n bytes.
func Str(label string, n int) string { return string(Bytes(label, n)) }

// Bytes is any byte slice of length n.
func Bytes(label string, n int) []byte {
	s := next(label)
	b := make([]byte, n)
	if strings.HasPrefix(s, "x") {
		d, _ := hex.DecodeString(s[1:])
		copy(b, d)
	}
	return b
}

// StrUpTo is any string of at most n bytes.
func StrUpTo(label string, n int) string { return Str(label, Choose(label+".len", n+1)) }

// BytesUpTo is any byte slice of at most n bytes.
func BytesUpTo(label string, n int) []byte { return Bytes(label, Choose(label+".len", n+1)) }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		fmt.Println("ASSUME-FAILED")
		os.Exit(5)
	}
}

// Assert states the property.
func Assert(b bool, msg string) {
	if !b {
		fmt.Println("ASSERT-FAILED " + msg)
		os.Exit(3)
	}
}

// Fail is Assert(false, msg).
func Fail(msg string) { Assert(false, msg) }

// And, Or and Not combine conditions without branching.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }

// All is the conjunction of its arguments, without branching.
func All(bs ...bool) bool {
	r := true
	for _, b := range bs {
		r = And(r, b)
	}
	return r
}

// Reach marks a point that must be reachable (vacuity witness).
func Reach(label string) {}

// Observe records values; symbolic and native runs must agree on them.
func Observe(label string, vals ...interface{}) {
	var sb strings.Builder
	sb.WriteString("OBS " + label)
	for _, v := range vals {
		switch x := v.(type) {
		case string:
			fmt.Fprintf(&sb, " %q", x)
		case []byte:
			fmt.Fprintf(&sb, " %q", x)
		case nil:
			fmt.Fprintf(&sb, " %q", "<nil>")
		default:
			fmt.Fprintf(&sb, " %v", x)
		}
	}
	mu.Lock()
	fmt.Println(sb.String())
	mu.Unlock()
}

// Quiesce waits until every other goroutine is blocked; time does not pass.
func Quiesce() {
	Order()
	waitFn()
}

// Spawn starts a goroutine that delay points can postpone.
func Spawn(f func()) {
	if raw > 0 {
		// vary who comes first from run to run.
		k := (raw * (spawned + 1) * 37) % 11
		spawned++
		go func() {
			for i := 0; i < k*raw; i++ {
				runtime.Gosched()
			}
			f()
		}()
		return
	}
	mu.Lock()
	p, ok := names[goid()]
	name := ""
	if ok {
		name = fmt.Sprintf("%s.%d", p, kids[p])
		kids[p]++
	}
	mu.Unlock()
	go func() {
		if name != "" {
			id := goid()
			mu.Lock()
			names[id] = name
			mu.Unlock()
			defer func() {
				mu.Lock()
				delete(names, id)
				mu.Unlock()
			}()
			Order()
		}
		f()
	}()
}

// Delays allows up to k delays at the points executed from now on.
func Delays(k int) {}

// Point is a place where the running goroutine may be delayed until all the
// others are blocked. Inserted by the instrumenter.
func Point() {
	if names != nil {
		Order()
	}
}

// Races turns on the detection of data races in the repository's code.
func Races() {}

// MapOrder makes the next k map iterations visit entries in any order.
func MapOrder(k int) {}

// SelectForks bounds the number of ready-select choices explored.
func SelectForks(k int) {}

// Now is the virtual time in nanoseconds since the start.
func Now() int64 { return int64(time.Since(base)) }

// Mutex is a sync.Mutex whose waiters count as blocked for testing/synctest.
type Mutex struct {
	once sync.Once
	ch   chan struct{}
}

func (m *Mutex) init() { m.once.Do(func() { m.ch = make(chan struct{}, 1) }) }

func (m *Mutex) Lock() { m.init(); m.ch <- struct{}{} }
func (m *Mutex) TryLock() bool {
	m.init()
	select {
	case m.ch <- struct{}{}:
		return true
	default:
		return false
	}
}
func (m *Mutex) Unlock() {
	m.init()
	select {
	case <-m.ch:
	default:
		panic("sync: unlock of unlocked mutex")
	}
}

// RWMutex is the same for sync.RWMutex (a waiting writer blocks new readers).
type RWMutex struct {
	w    Mutex
	mu   sync.Mutex
	r    int
	wait int
	cond []chan struct{}
}

func (m *RWMutex) wake() {
	for _, c := range m.cond {
		close(c)
	}
	m.cond = nil
}

func (m *RWMutex) Lock() {
	m.mu.Lock()
	m.wait++
	m.mu.Unlock()
	m.w.Lock()
	for {
		m.mu.Lock()
		if m.r == 0 {
			m.r = -1
			m.wait--
			m.mu.Unlock()
			return
		}
		c := make(chan struct{})
		m.cond = append(m.cond, c)
		m.mu.Unlock()
		<-c
	}
}

func (m *RWMutex) TryLock() bool {
	if !m.w.TryLock() {
		return false
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.r == 0 {
		m.r = -1
		return true
	}
	m.w.Unlock()
	return false
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if m.r != -1 {
		m.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.r = 0
	m.wake()
	m.mu.Unlock()
	m.w.Unlock()
}

func (m *RWMutex) RLock() {
	first := true
	for {
		m.mu.Lock()
		if m.r >= 0 && (m.wait == 0 || !first) {
			m.r++
			m.mu.Unlock()
			return
		}
		c := make(chan struct{})
		m.cond = append(m.cond, c)
		m.mu.Unlock()
		<-c
		first = false
	}
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.r <= 0 {
		m.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	if m.r == 0 {
		m.wake()
	}
	m.mu.Unlock()
}

// RLocker is unused but keeps the method set of sync.RWMutex.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Thorough reports whether the larger bounds of the thorough tier apply.
func Thorough() bool { return inputs["tier"] == "thorough" }

// Pick is q in the quick tier and t in the thorough tier.
func Pick(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}
