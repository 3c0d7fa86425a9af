package vp

// Native side: replays a model trace against the real code.  All goroutines
// of the harness and of the code under test run one at a time; at each gate
// (an operation the model schedules) a goroutine waits for the controller,
// which hands out turns in the order of the trace.

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type event struct {
	K     string   `json:"k"`
	G     int      `json:"g"`
	Name  string   `json:"name"`
	Op    string   `json:"op"`
	Case  int      `json:"case"`
	G2    int      `json:"g2"`
	Case2 int      `json:"case2"`
	Child int      `json:"child"`
	Val   uint64   `json:"val"`
	Keys  []string `json:"keys"`
	Pos   string   `json:"pos"`
}

type traceFile struct {
	Msg    string  `json:"msg"`
	Kind   string  `json:"kind"` // assert crash deadlock race witness
	Events []event `json:"events"`
}

const (
	running = iota
	parked
	posted
	exited
	born
)

type alt struct {
	ch   reflect.Value
	send bool
}

type grant struct {
	c    int
	rdv  bool
	free bool
}

type gor struct {
	uid     int
	state   int
	op      string
	alts    []alt
	hasDef  bool
	ready   func() bool
	wake    chan grant
	nondet  []event
	orders  []event
	childs  []int
	cur     grant
	reached []string
}

var (
	mu     sync.Mutex
	change = sync.NewCond(&mu)
	byGoid = map[int64]*gor{}
	byUID  = map[int]*gor{}
	spawnQ []*gor
	trace  traceFile
	free   bool
	nextID = 100000
	active bool
	reach  = map[string]bool{}
	late   = map[int]bool{} // goroutines whose start the trace schedules
)

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	id, _ := strconv.ParseInt(f[1], 10, 64)
	return id
}

func self() *gor {
	hide()
	defer show()
	mu.Lock()
	defer mu.Unlock()
	return byGoid[goid()]
}

func outcome(kind, msg string) {
	fmt.Printf("VPREPLAY %s %s\n", kind, msg)
	os.Stdout.Sync()
	code := 10
	if kind == "mismatch" {
		code = 11
	}
	if kind == "ok" {
		code = 0
	}
	if kind == "race" {
		code = 13
	}
	os.Exit(code)
}

// newGor must be called with mu held.
func newGor(uid int) *gor {
	g := &gor{uid: uid, wake: make(chan grant, 1)}
	for _, e := range trace.Events {
		if e.G != uid {
			continue
		}
		switch e.K {
		case "nondet":
			g.nondet = append(g.nondet, e)
		case "maporder":
			g.orders = append(g.orders, e)
		case "spawn":
			g.childs = append(g.childs, e.Child)
		}
	}
	byUID[uid] = g
	return g
}

// W prepares f to run as a managed goroutine: evaluated by the go statement.
func W[F any](f F) F {
	p := self()
	if p == nil {
		return f
	}
	hide()
	mu.Lock()
	uid := 0
	if len(p.childs) > 0 {
		uid = p.childs[0]
		p.childs = p.childs[1:]
	} else {
		nextID++
		uid = nextID
	}
	g := newGor(uid)
	spawnQ = append(spawnQ, g)
	mu.Unlock()
	show()
	v := reflect.ValueOf(f)
	return reflect.MakeFunc(v.Type(), func(args []reflect.Value) []reflect.Value {
		enter(g)
		normal := false
		defer func() { leave(g, normal, recover()) }()
		var r []reflect.Value
		if v.Type().IsVariadic() {
			r = v.CallSlice(args)
		} else {
			r = v.Call(args)
		}
		normal = true
		return r
	}).Interface().(F)
}

func enter(g *gor) {
	hide()
	defer show()
	mu.Lock()
	byGoid[goid()] = g
	if free {
		mu.Unlock()
		return
	}
	g.state = born
	change.Broadcast()
	mu.Unlock()
	g.cur = <-g.wake
}

func leave(g *gor, normal bool, r any) {
	if r != nil {
		outcome("crash", fmt.Sprint(r))
	}
	hide()
	defer show()
	mu.Lock()
	g.state = exited
	delete(byGoid, goid())
	change.Broadcast()
	mu.Unlock()
}

func gate(op string, hasDef bool, ready func() bool, alts ...alt) grant {
	g := self()
	if g == nil {
		return grant{free: true}
	}
	hide()
	defer show()
	mu.Lock()
	if free {
		mu.Unlock()
		return grant{free: true}
	}
	g.op, g.alts, g.hasDef, g.ready = op, alts, hasDef, ready
	g.state = parked
	change.Broadcast()
	mu.Unlock()
	g.cur = <-g.wake
	return g.cur
}

// post ends a rendezvous: both sides have done their part; go on in turn.
func post(c grant) {
	if !c.rdv {
		return
	}
	g := self()
	hide()
	defer show()
	mu.Lock()
	g.state = posted
	change.Broadcast()
	mu.Unlock()
	<-g.wake
}

// ---- instrumented operations ----

func altOf(ch any, send bool) alt { return alt{reflect.ValueOf(ch), send} }

func AltS[T any](ch chan<- T) alt { return altOf(ch, true) }
func AltR[T any](ch <-chan T) alt { return altOf(ch, false) }

func Recv[T any](ch <-chan T) T {
	c := gate("recv", false, nil, AltR(ch))
	v := <-ch
	post(c)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	c := gate("recv", false, nil, AltR(ch))
	v, ok := <-ch
	post(c)
	return v, ok
}

func Send[T any](ch chan<- T, v T) {
	c := gate("send", false, nil, AltS(ch))
	ch <- v
	post(c)
}

func Val[T any](ch chan<- T, v T) T { return v }

type Sel struct {
	g    grant
	alts []alt
	def  bool
}

func SelGate(hasDef bool, alts ...alt) Sel {
	g := gate("select", hasDef, nil, alts...)
	s := Sel{g: g, alts: alts, def: hasDef}
	if g.free && hasDef {
		s.g.free = true
		s.g.c = -1
		for i, a := range alts {
			if altReady(a) {
				s.g.free = false
				s.g.c = i
				break
			}
		}
		if s.g.c == -1 {
			s.g.free = false
		}
	}
	return s
}

func CaseR[T any](s Sel, i int, ch <-chan T) <-chan T {
	if s.g.free || s.g.c == i {
		return ch
	}
	return nil
}

func CaseS[T any](s Sel, i int, ch chan<- T) chan<- T {
	if s.g.free || s.g.c == i {
		return ch
	}
	return nil
}

func CaseDefault(s Sel) <-chan struct{} {
	if !s.g.free && s.g.c == -1 {
		c := make(chan struct{})
		close(c)
		return c
	}
	return nil
}

func Post(s Sel) { post(s.g) }

var closed sync.Map

func Close[T any](ch chan<- T) {
	gate("close", false, nil)
	close(ch)
}

func Lock(l func()) {
	gate("lock", false, nil)
	l()
}

func WgWait(l func()) {
	gate("WgWait", false, nil)
	l()
}

// A gates an operation that never blocks once it is its turn.
func A[F any](f F) F {
	gate("atomic", false, nil)
	return f
}

var condWaiters = map[*sync.Cond][]*int{}
var condMu sync.Mutex

func CondWait(c *sync.Cond) {
	gate("CondWait", false, nil)
	tok := new(int)
	hide()
	condMu.Lock()
	condWaiters[c] = append(condWaiters[c], tok)
	condMu.Unlock()
	show()
	c.L.Unlock()
	waiting := func() bool {
		hide()
		defer show()
		condMu.Lock()
		defer condMu.Unlock()
		for _, x := range condWaiters[c] {
			if x == tok {
				return true
			}
		}
		return false
	}
	g := gate("CondWait/1", false, func() bool { return !waiting() })
	if g.free {
		for waiting() {
			time.Sleep(time.Millisecond)
		}
	} else if waiting() {
		outcome("mismatch", "a condition waiter is resumed without a signal")
	}
	c.L.Lock()
}

func CondBroadcast(c *sync.Cond) {
	gate("CondBroadcast", false, nil)
	hide()
	defer show()
	condMu.Lock()
	delete(condWaiters, c)
	condMu.Unlock()
}

func CondSignal(c *sync.Cond) {
	gate("CondSignal", false, nil)
	hide()
	defer show()
	condMu.Lock()
	if l := condWaiters[c]; len(l) > 0 {
		condWaiters[c] = l[1:]
	}
	condMu.Unlock()
}

func WithCancel(p context.Context) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(p)
	return ctx, func() { gate("cancel", false, nil); cancel() }
}

func WithCancelCause(p context.Context) (context.Context, context.CancelCauseFunc) {
	ctx, cancel := context.WithCancelCause(p)
	return ctx, func(e error) { gate("cancel", false, nil); cancel(e) }
}

func WithTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithCancel(p)
}

func WithDeadline(p context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithCancel(p)
}

func nextNondet(name string) uint64 {
	g := self()
	if g == nil || len(g.nondet) == 0 {
		return 0
	}
	e := g.nondet[0]
	if e.Name != name {
		outcome("mismatch", fmt.Sprintf("input %q asked for, the trace has %q", name, e.Name))
	}
	g.nondet = g.nondet[1:]
	return e.Val
}

func RandFloat64() float64 { return math.Float64frombits(nextNondet("rand.Float64")) }

type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

func MapIter[K comparable, V any](m map[K]V) (*MapIt[K, V], K, V) {
	it := &MapIt[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.Slice(it.keys, func(i, j int) bool { return fmt.Sprint(it.keys[i]) < fmt.Sprint(it.keys[j]) })
	if g := self(); g != nil && len(g.orders) > 0 {
		o := g.orders[0]
		g.orders = g.orders[1:]
		rank := map[string]int{}
		for i, k := range o.Keys {
			rank[k] = i
		}
		sort.SliceStable(it.keys, func(i, j int) bool { return rank[fmt.Sprint(it.keys[i])] < rank[fmt.Sprint(it.keys[j])] })
	}
	var k K
	var v V
	return it, k, v
}

func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		x := it.keys[0]
		it.keys = it.keys[1:]
		y, ok := it.m[x]
		if !ok {
			continue
		}
		if k != nil {
			*k = x
		}
		if v != nil {
			*v = y
		}
		return true
	}
	return false
}

type ChanIt[T any] struct{ ch <-chan T }

func ChanIter[T any](ch <-chan T) (*ChanIt[T], T) {
	var z T
	return &ChanIt[T]{ch}, z
}

func (it *ChanIt[T]) Next(v *T) bool {
	x, ok := Recv2(it.ch)
	if ok && v != nil {
		*v = x
	}
	return ok
}

// ---- harness intrinsics ----

func Bool(name string) bool           { return nextNondet(name) == 1 }
func Int(name string, lo, hi int) int { return int(int64(nextNondet(name))) }
func Pick(name string, n int) int     { return int(nextNondet(name)) }
func Float(name string) float64       { return math.Float64frombits(nextNondet(name)) }

func Assume(b bool) {
	if !b && active {
		outcome("mismatch", "an assumption of the harness does not hold")
	}
}

func Assert(b bool, msg string) {
	if !b && msg == trace.Msg {
		outcome("assert", msg)
	}
}

func Reach(label string) {
	hide()
	defer show()
	mu.Lock()
	reach[label] = true
	mu.Unlock()
}
func Goal(label string)      {}
func CrashIs(prop string)    {}
func DeadlockIs(prop string) {}

func Gate() { gate("vp.Gate", false, nil) }

func Await(ps ...*bool) {
	cond := func() bool {
		for _, p := range ps {
			if *p {
				return true
			}
		}
		return false
	}
	g := gate("vp.Await", false, cond)
	if g.free {
		for !cond() {
			time.Sleep(time.Millisecond)
		}
	} else if !cond() {
		outcome("mismatch", "an awaited condition does not hold")
	}
}

func Quiesce() { gate("vp.Quiesce", false, func() bool { return false }) }

func Fork(b bool) bool { return b }

func Goroutines() int {
	hide()
	defer show()
	mu.Lock()
	defer mu.Unlock()
	n := 0
	for _, g := range byUID {
		if g.state != exited {
			n++
		}
	}
	return n - 1
}

func Time(ns int64) time.Time { return time.Unix(0, ns).UTC() }

// ---- controller ----

// altReady: the alternative can proceed without a partner.
func altReady(a alt) bool {
	if !a.ch.IsValid() || a.ch.IsNil() {
		return false
	}
	if a.send {
		return a.ch.Len() < a.ch.Cap()
	}
	if a.ch.Len() > 0 {
		return true
	}
	// empty, and every goroutine is at a gate: a receive can only succeed
	// if the channel is closed
	_, ok := a.ch.TryRecv()
	return !ok && isClosed(a.ch)
}

func isClosed(ch reflect.Value) bool {
	chosen, _, ok := reflect.Select([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: ch}, {Dir: reflect.SelectDefault}})
	return chosen == 0 && !ok
}

func canMove(g *gor) bool {
	if g.state != parked {
		return false
	}
	switch g.op {
	case "recv", "send", "select":
		for _, a := range g.alts {
			if altReady(a) {
				return true
			}
			for _, h := range byUID {
				if h == g || h.state != parked {
					continue
				}
				for _, b := range h.alts {
					if a.send != b.send && a.ch.IsValid() && b.ch.IsValid() && !a.ch.IsNil() && !b.ch.IsNil() && a.ch.Pointer() == b.ch.Pointer() {
						return true
					}
				}
			}
		}
		return g.hasDef
	case "lock", "WgWait", "vp.Quiesce":
		return false // not decided here
	case "CondWait/1", "vp.Await":
		return g.ready()
	}
	return true
}

func settle(g *gor, want string) {
	deadline := time.Now().Add(10 * time.Second)
	t := time.AfterFunc(10*time.Second, func() { mu.Lock(); change.Broadcast(); mu.Unlock() })
	defer t.Stop()
	mu.Lock()
	defer mu.Unlock()
	for g.state == running {
		if time.Now().After(deadline) {
			mu.Unlock()
			outcome("mismatch", fmt.Sprintf("goroutine %d does not reach its next operation (%s)", g.uid, want))
		}
		change.Wait()
	}
}

func resume(g *gor, c grant) {
	mu.Lock()
	g.state = running
	mu.Unlock()
	g.wake <- c
}

// settleBirth waits for a spawned goroutine to register.
func settleBirth(g *gor) {
	mu.Lock()
	defer mu.Unlock()
	for g.state != born {
		change.Wait()
	}
}

func drainSpawns() {
	for {
		mu.Lock()
		if len(spawnQ) == 0 {
			mu.Unlock()
			return
		}
		g := spawnQ[0]
		spawnQ = spawnQ[1:]
		mu.Unlock()
		settleBirth(g)
		if late[g.uid] {
			continue
		}
		resume(g, grant{})
		settle(g, "start")
	}
}

// Run replays the trace named by VP_TRACE with harness f.
func Run(f func()) {
	b, err := os.ReadFile(os.Getenv("VP_TRACE"))
	if err == nil {
		err = json.Unmarshal(b, &trace)
	}
	if err != nil {
		fmt.Println("VPREPLAY error", err)
		os.Exit(12)
	}
	verbose := os.Getenv("VP_V") != ""
	active = true
	hide()
	for _, e := range trace.Events {
		if e.K == "step" && e.Op == "start" {
			late[e.G] = true
		}
	}
	mu.Lock()
	main := newGor(0)
	mu.Unlock()
	go func() {
		enter(main)
		defer func() { leave(main, true, recover()) }()
		f()
	}()
	settleBirth(main)
	resume(main, grant{})
	settle(main, "start")
	drainSpawns()
	for i, e := range trace.Events {
		if e.K != "step" {
			continue
		}
		mu.Lock()
		g := byUID[e.G]
		var h *gor
		if e.G2 >= 0 {
			h = byUID[e.G2]
		}
		mu.Unlock()
		if verbose {
			fmt.Printf("%d: g%d %s case %d g2 %d (%s)\n", i, e.G, e.Op, e.Case, e.G2, e.Pos)
		}
		if e.Op == "start" && g != nil && g.state == born {
			resume(g, grant{})
			settle(g, e.Op)
			drainSpawns()
			continue
		}
		if g == nil || g.state != parked {
			outcome("mismatch", fmt.Sprintf("event %d: goroutine %d is not waiting", i, e.G))
		}
		if !sameOp(g.op, e.Op) {
			outcome("mismatch", fmt.Sprintf("event %d: goroutine %d is at %q, the model at %q (%s)", i, e.G, g.op, e.Op, e.Pos))
		}
		if e.Op == "vp.Quiesce" {
			mu.Lock()
			for _, x := range byUID {
				if x != g && canMove(x) {
					mu.Unlock()
					outcome("mismatch", fmt.Sprintf("event %d: goroutine %d (%s) can still move at quiescence", i, x.uid, x.op))
				}
			}
			mu.Unlock()
		}
		if h != nil {
			if h.state != parked {
				outcome("mismatch", fmt.Sprintf("event %d: partner %d is not waiting", i, e.G2))
			}
			resume(h, grant{c: e.Case2, rdv: true})
			resume(g, grant{c: e.Case, rdv: true})
			settle(g, "rendezvous")
			settle(h, "rendezvous")
			if g.state != posted || h.state != posted {
				outcome("mismatch", fmt.Sprintf("event %d: rendezvous did not happen", i))
			}
			resume(g, grant{})
			settle(g, e.Op)
			resume(h, grant{})
			settle(h, e.Op)
		} else {
			resume(g, grant{c: e.Case})
			settle(g, e.Op)
		}
		drainSpawns()
	}
	if trace.Kind == "deadlock" {
		if main.state == exited {
			outcome("mismatch", "the main goroutine has finished")
		}
		mu.Lock()
		for _, x := range byUID {
			if canMove(x) {
				mu.Unlock()
				outcome("mismatch", fmt.Sprintf("goroutine %d (%s) can still move", x.uid, x.op))
			}
		}
		// let everything run freely: a real deadlock stays
		free = true
		var l []*gor
		for _, x := range byUID {
			if x.state == parked {
				l = append(l, x)
			}
		}
		mu.Unlock()
		for _, x := range l {
			if x.op != "vp.Quiesce" {
				resume(x, grant{free: true})
			}
		}
		time.Sleep(1500 * time.Millisecond)
		if main.state == exited {
			outcome("mismatch", "the main goroutine finishes when run freely")
		}
		outcome("deadlock", trace.Msg)
	}
	if trace.Kind == "witness" {
		if !reach[trace.Msg] {
			outcome("mismatch", "the witness state is not reached")
		}
		outcome("ok", "")
	}
	if trace.Kind == "race" {
		outcome("race", "the trace ends: see the race detector's reports")
	}
	outcome("mismatch", "the trace ends without the violation")
}

func sameOp(native, model string) bool {
	switch native {
	case "lock":
		return model == "Lock" || model == "RWLock" || model == "RLock"
	case "atomic":
		return strings.HasPrefix(model, "atomic.") || model == "TryLock" || model == "cancel" || strings.HasPrefix(model, "(*sync.Once)")
	}
	return native == model
}
