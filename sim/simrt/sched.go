package simrt

import (
	"fmt"
	"math"
	"math/rand"
	"runtime/debug"
	"sort"
	"time"
	"unsafe"
)

// Sched describes how the scheduler makes its decisions.
type Sched struct {
	Mode   string  `json:"mode"`           // "seq", "rand", "pct", "plan"
	Seed   uint64  `json:"seed,omitempty"` // seed of the decisions
	P      float64 `json:"p,omitempty"`    // probability to switch at a statement
	Q      float64 `json:"q,omitempty"`    // probability to switch at a lock or I/O call
	Depth  int     `json:"depth,omitempty"`
	Length int     `json:"len,omitempty"` // expected number of steps (pct)
	Plan   []Dec   `json:"plan,omitempty"`
}

// Dec is one scheduling decision: task T, having made Y yields of its own,
// gives way to task To.
type Dec struct {
	T  int   `json:"t"`
	Y  int64 `json:"y"`
	To int   `json:"to"`
}

// Abort is the panic value that ends a simulated task early.
type Abort struct{ Why string }

func (a Abort) Error() string { return "simulation aborted: " + a.Why }

// ExitPanic is the panic value of a simulated os.Exit.
type ExitPanic struct{ Code int }

type task struct {
	id    int
	ch    chan struct{}
	y     int64
	lim   int64
	max   int64
	done  bool
	wait  func() bool // nil when runnable
	what  string
	prio  int
	op    int  // current harness operation
	nio   *int // I/O calls within that operation
	app   bool // started by the instrumented code
	final bool
	vc    clock
}

// World is one simulated execution.
type World struct {
	Sched    Sched
	Budget   int64 // yields per task
	AllocMax int64 // largest single allocation the simulated allocator grants

	tasks   []*task
	cur     *task
	rng     *Rng
	maprng  *Rng
	plan    map[[2]int64]int
	decs    []Dec
	change  []int64
	total   int64
	base    int64
	mainCh  chan struct{}
	dead    bool
	ended   bool
	aborted string

	Hang, Deadlock bool
	AllocFail      int64
	Panics         []string
	Switches       int
	Pairs          map[uint64]struct{}
	hash           uint64
	Events         int64
	Log            func(string)
	clock          int64
	atomic         int
	timers         []timer
	rand           *rand.Rand
	Race           string // data race found
	NoRace         bool   // do not look for data races
	race           race
}

// Atomic runs f without giving way to another task; oracles use it.
func Atomic(f func()) {
	w := W
	if w == nil {
		f()
		return
	}
	w.atomic++
	defer func() { w.atomic-- }()
	f()
}

// W is the execution in progress.
var W *World

// Steps counts the statements executed in this process.
var Steps int64

// Cov marks the statements reached.
var Cov = make([]byte, 1<<16)

var resets []func()
var resetNames []string

// OnReset registers the initialiser of the package variables of a command.
func OnReset(name string, f func()) {
	resets = append(resets, f)
	resetNames = append(resetNames, name)
}

// Reset sets the package variables of a command to their initial values.
func Reset(name string) {
	for i, n := range resetNames {
		if n == name {
			resets[i]()
		}
	}
}

type timer struct {
	at int64
	f  func()
}

// fire lets the time pass until the next timer runs off.
func (w *World) fire() bool {
	best := -1
	for i, t := range w.timers {
		if best < 0 || t.at < w.timers[best].at {
			best = i
		}
	}
	if best < 0 {
		return false
	}
	t := w.timers[best]
	w.timers = append(w.timers[:best], w.timers[best+1:]...)
	if w.clock < t.at {
		w.clock = t.at
	}
	t.f()
	return true
}

// After is time.After on the simulated clock: time passes when no task can run.
func After(d time.Duration) <-chan time.Time {
	c := MakeChan(make(chan time.Time, 1))
	if W == nil {
		return c
	}
	W.timers = append(W.timers, timer{W.clock + int64(d), func() {
		k := SendCase[time.Time](c, time.Unix(0, W.clock))
		k.ready()
	}})
	return c
}

type start struct {
	pkg   string
	order int
	f     func()
}

var starts []start
var sorted bool

// OnStart registers a step of the initialisation of package variables that
// the code changes.
func OnStart(pkg string, order int, f func()) {
	starts = append(starts, start{pkg, order, f})
}

// Restart gives package variables the values they have in a new process.
// Packages were registered in the order of their initialisation.
func Restart() {
	pending = nil
	if len(chans) > 0 {
		chans = map[unsafe.Pointer]*chn{}
	}
	if !sorted {
		first := map[string]int{}
		for i, s := range starts {
			if _, ok := first[s.pkg]; !ok {
				first[s.pkg] = i
			}
		}
		sort.SliceStable(starts, func(i, j int) bool {
			a, b := starts[i], starts[j]
			if a.pkg != b.pkg {
				return first[a.pkg] < first[b.pkg]
			}
			return a.order < b.order
		})
		sorted = true
	}
	for _, s := range starts {
		s.f()
	}
}

// Epoch is the simulated time at which every execution starts.
const Epoch = int64(1700000000) * 1e9

// Run executes main as task 0 and every task it spawns.
func (w *World) Run(main func()) {
	if w.Budget == 0 {
		w.Budget = 5_000_000
	}
	if w.AllocMax == 0 {
		w.AllocMax = 1 << 30
	}
	w.rng = NewRng(Mix(w.Sched.Seed, 1))
	w.maprng = NewRng(Mix(w.Sched.Seed, 2))
	w.hash = 14695981039346656037
	w.clock = Epoch
	w.mainCh = make(chan struct{}, 1)
	if w.Sched.Mode == "plan" {
		w.plan = map[[2]int64]int{}
		for _, d := range w.Sched.Plan {
			w.plan[[2]int64{int64(d.T), d.Y}] = d.To
		}
	}
	if w.Sched.Mode == "pct" {
		l := w.Sched.Length
		if l < 10 {
			l = 1000
		}
		for i := 0; i < w.Sched.Depth; i++ {
			w.change = append(w.change, int64(w.rng.N(l)))
		}
		sort.Slice(w.change, func(i, j int) bool { return w.change[i] < w.change[j] })
	}
	W = w
	w.spawn(main)
	t := w.tasks[0]
	for _, f := range pending {
		w.spawn(f).app = true
	}
	w.cur = t
	w.arm(t)
	t.ch <- struct{}{}
	<-w.mainCh
	w.ended = true
	w.race.sh, w.race.sync = nil, nil
	RaceOn = false
	W = nil
}

func (w *World) spawn(f func()) *task {
	t := &task{id: len(w.tasks), ch: make(chan struct{}, 1), max: w.Budget, nio: new(int)}
	if w.Sched.Mode == "pct" {
		t.prio = 1000 + w.rng.N(1000)
	}
	if w.cur != nil {
		t.op, t.nio = w.cur.op, w.cur.nio
	}
	w.tasks = append(w.tasks, t)
	w.forked(t)
	w.live()
	go func() {
		<-t.ch
		if w.dead {
			return
		}
		debug.SetPanicOnFault(true)
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case Abort, ExitPanic:
				default:
					w.Panics = append(w.Panics, fmt.Sprintf("%v\n%s", r, debug.Stack()))
				}
			}
			w.finish(t)
		}()
		f()
	}()
	return t
}

// Go starts a task.
func Go(f func()) {
	w := W
	t := w.spawn(f)
	w.event("spawn", int64(t.id), 0)
	w.point(1)
}

var pending []func()

// GoApp starts a task for the instrumented code. Such a task may stay blocked
// when everything else has ended.
func GoApp(f func()) {
	w := W
	if w == nil { // at the initialisation of a package
		pending = append(pending, f)
		return
	}
	t := w.spawn(f)
	t.app = true
	w.event("spawn", int64(t.id), 1)
	w.point(1)
}

// idle tells that only tasks of the instrumented code are left and that they
// wait for something that does not come.
func (w *World) idle(self *task) bool {
	for _, t := range w.tasks {
		if t == self || t.done {
			continue
		}
		if !t.app || w.runnable(t) {
			return false
		}
	}
	return true
}

// ID returns the number of the running task.
func ID() int {
	if W == nil {
		return -1
	}
	return W.cur.id
}

// Join waits until all other tasks have ended.
func Join() {
	w := W
	self := w.cur
	Block("join", func() bool { return w.idle(self) })
	for _, t := range w.tasks {
		self.vc.join(t.vc)
	}
}

// Others tells how many other tasks are still running.
func Others() (n int) {
	for _, t := range W.tasks {
		if t != W.cur && !t.done && !(t.app && !W.runnable(t)) {
			n++
		}
	}
	return
}

func (w *World) arm(t *task) {
	lim := t.max
	set := func(n int64) {
		if n < lim {
			lim = n
		}
	}
	switch w.Sched.Mode {
	case "rand":
		if len(w.tasks) > 1 && w.Sched.P > 0 {
			g := math.Log(1-w.rng.F()) / math.Log(1-w.Sched.P)
			if g < 1e12 {
				set(t.y + 1 + int64(g))
			}
		}
	case "pct":
		if len(w.change) > 0 {
			d := w.change[0] - w.total
			if d < 0 {
				d = 0
			}
			set(t.y + d + 1)
		}
	case "plan":
		for _, d := range w.Sched.Plan {
			if d.T == t.id && d.Y > t.y {
				set(d.Y)
			}
		}
	}
	t.lim = lim
	w.base = t.y
}

// Y is called before every statement of the instrumented code.
func Y(site int32) {
	w := W
	if w == nil {
		return
	}
	if int(site) < len(Cov) {
		Cov[site] = 1
	}
	t := w.cur
	t.y++
	if t.y >= t.lim {
		w.slow(t, int(site))
	}
}

func (w *World) slow(t *task, site int) {
	if w.aborted != "" {
		panic(Abort{w.aborted})
	}
	if t.y >= t.max {
		w.Hang = true
		t.max = t.y + 1000000
		w.abort("hang")
	}
	w.total += t.y - w.base
	w.base = t.y
	switch w.Sched.Mode {
	case "rand":
		w.give(t, w.random(t), site)
	case "pct":
		for len(w.change) > 0 && w.change[0] <= w.total {
			w.change = w.change[1:]
			t.prio = len(w.change)
		}
		w.give(t, w.best(), site)
	case "plan":
		if to, ok := w.plan[[2]int64{int64(t.id), t.y}]; ok {
			w.give(t, w.byID(to), site)
		} else {
			w.arm(t)
		}
	default:
		w.arm(t)
	}
}

func (w *World) runnable(t *task) bool { return !t.done && (t.wait == nil || t.wait()) }

func (w *World) random(not *task) *task {
	var l []*task
	for _, t := range w.tasks {
		if t != not && w.runnable(t) {
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[w.rng.N(len(l))]
}

func (w *World) best() (b *task) {
	for _, t := range w.tasks {
		if w.runnable(t) && (b == nil || t.prio > b.prio) {
			b = t
		}
	}
	return
}

func (w *World) byID(id int) *task {
	if id >= 0 && id < len(w.tasks) && w.runnable(w.tasks[id]) {
		return w.tasks[id]
	}
	return nil
}

// give switches from t to another task and comes back when t is chosen again.
func (w *World) give(t, to *task, site int) {
	if to == nil || to == t || w.atomic > 0 {
		w.arm(t)
		return
	}
	w.decs = append(w.decs, Dec{t.id, t.y, to.id})
	w.Switches++
	if w.Pairs != nil {
		w.Pairs[Mix(uint64(site), uint64(to.y))] = struct{}{}
	}
	w.event("switch", int64(t.id)<<32|int64(to.id), t.y)
	w.resume(to)
	<-t.ch
	w.awake(t)
}

func (w *World) awake(t *task) {
	if w.aborted != "" {
		panic(Abort{w.aborted})
	}
}

func (w *World) resume(to *task) {
	to.wait = nil
	w.cur = to
	w.arm(to)
	to.ch <- struct{}{}
}

// point is an explicit scheduling point (locks, I/O).
func (w *World) point(weight float64) {
	t := w.cur
	t.y++
	if t.y >= t.lim {
		w.slow(t, -1)
		return
	}
	switch w.Sched.Mode {
	case "rand":
		if len(w.tasks) > 1 && w.atomic == 0 && w.rng.P(w.Sched.Q*weight) {
			w.total += t.y - w.base
			w.base = t.y
			w.give(t, w.random(t), -1)
		}
	}
}

// Point is a scheduling point of the simulated environment.
func Point() {
	if W != nil {
		W.point(1)
	}
}

// Block parks the running task until ready is true.
func Block(what string, ready func() bool) {
	w := W
	if ready() {
		return
	}
	if w == nil {
		panic("simrt: block outside of a simulation: " + what)
	}
	t := w.cur
	for !ready() {
		if w.aborted != "" {
			panic(Abort{w.aborted})
		}
		t.y++
		w.total += t.y - w.base
		w.base = t.y
		t.wait, t.what = ready, what
		to := w.choose(t)
		for to == nil && !w.idle(nil) && w.fire() {
			to = w.choose(t)
		}
		if to == nil {
			w.Deadlock = !w.idle(nil)
			w.abort("deadlock: " + w.waiting())
		}
		w.event("block", int64(t.id)<<32|int64(to.id), t.y)
		if to != t {
			w.resume(to)
			<-t.ch
			w.awake(t)
		}
		t.wait = nil
	}
}

func (w *World) waiting() string {
	s := ""
	for _, t := range w.tasks {
		if !t.done && t.wait != nil {
			s += fmt.Sprintf(" task %d waits for %s;", t.id, t.what)
		}
	}
	return s
}

// choose picks the task that runs when t cannot go on.
func (w *World) choose(t *task) (to *task) {
	switch w.Sched.Mode {
	case "rand":
		to = w.random(t)
	case "pct":
		to = w.best()
	case "plan":
		if id, ok := w.plan[[2]int64{int64(t.id), t.y}]; ok {
			to = w.byID(id)
		}
	}
	if to == nil {
		for _, o := range w.tasks {
			if o != t && w.runnable(o) {
				to = o
				break
			}
		}
	}
	if to == nil && w.runnable(t) && !t.done {
		to = t
	}
	if to != nil && to != t {
		w.decs = append(w.decs, Dec{t.id, t.y, to.id})
		w.Switches++
	}
	return
}

func (w *World) abort(why string) {
	if w.aborted == "" {
		w.aborted = why
		w.event("abort "+why, 0, 0)
	}
	for _, t := range w.tasks {
		t.lim = 0
		t.wait = nil
	}
	panic(Abort{why})
}

// Stop ends the execution early.
func Stop(why string) { W.abort(why) }

// Aborted tells why the execution ended early.
func (w *World) Aborted() string { return w.aborted }

func (w *World) finish(t *task) {
	t.done = true
	w.live()
	t.y++
	w.total += t.y - w.base
	w.base = t.y
	Steps += t.y
	w.event("end", int64(t.id), t.y)
	if w.aborted != "" {
		for _, o := range w.tasks {
			if !o.done {
				o.wait = nil
				w.cur = o
				o.lim = 0
				o.ch <- struct{}{}
				return
			}
		}
		w.mainCh <- struct{}{}
		return
	}
	to := w.choose(t)
	for to == nil && !w.idle(t) && w.fire() {
		to = w.choose(t)
	}
	if to == nil {
		for _, o := range w.tasks {
			if !o.done {
				w.Deadlock = !w.idle(nil)
				w.aborted = "deadlock: " + w.waiting()
				w.cur = o
				o.wait = nil
				o.lim = 0
				o.ch <- struct{}{}
				return
			}
		}
		w.mainCh <- struct{}{}
		return
	}
	w.resume(to)
}

// Decisions returns the scheduling decisions made.
func (w *World) Decisions() []Dec { return w.decs }

// Hash identifies the execution.
func (w *World) Hash() uint64 { return w.hash }

func (w *World) mixin(v uint64) { w.hash = mix64(w.hash^v) * 1099511628211 }

func (w *World) event(k string, a, b int64) {
	w.Events++
	for i := 0; i < len(k); i++ {
		w.hash = (w.hash ^ uint64(k[i])) * 1099511628211
	}
	w.mixin(uint64(a))
	w.mixin(uint64(b))
	if w.Log != nil {
		w.Log(fmt.Sprintf("[t%d y%d] %s %d %d", w.cur.id, w.cur.y, k, a, b))
	}
}

// Event adds an entry to the event log.
func Event(k string, a, b int64) {
	if W != nil {
		W.event(k, a, b)
	}
}

// Note adds a text entry to the event log.
func Note(s string) {
	if w := W; w != nil {
		w.Events++
		for i := 0; i < len(s); i++ {
			w.hash = (w.hash ^ uint64(s[i])) * 1099511628211
		}
		w.mixin(uint64(len(s)))
		if w.Log != nil {
			w.Log(fmt.Sprintf("[t%d y%d] %s", w.cur.id, w.cur.y, s))
		}
	}
}

// Seq returns the number of the next event; it orders calls and returns.
func Seq() int64 {
	if W == nil {
		return 0
	}
	W.Events++
	return W.Events
}

// SetOp names the harness operation the running task executes.
func SetOp(id int) {
	if W != nil {
		W.cur.op, W.cur.nio = id, new(int)
	}
}

// NextIO numbers an I/O call within the current harness operation.
func NextIO() (op, n int) {
	if W == nil {
		return -1, 0
	}
	t := W.cur
	*t.nio++
	return t.op, *t.nio
}

// Split reads a variable and lets other tasks run before the caller stores
// the result of its computation back.
func Split[T any](v T) T {
	if W != nil {
		W.point(0.5)
	}
	return v
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// AL is the simulated allocator: it refuses allocations above the limit.
func AL[I integer](n I, sz int64) I {
	w := W
	if w == nil {
		return n
	}
	v := int64(n)
	if n > 0 && (v < 0 || v > w.AllocMax || v*sz > w.AllocMax) {
		if w.AllocFail == 0 {
			w.AllocFail = v
		}
		w.event("allocfail", v, sz)
		w.abort("allocation refused")
	}
	return n
}

// It is one step of a map iteration.
type It[K comparable, V any] struct {
	m map[K]V
	K K
}

// Has tells whether the key is still in the map.
func (i It[K, V]) Has() bool { _, ok := i.m[i.K]; return ok }

// Val returns the current value of the key.
func (i It[K, V]) Val() V { return i.m[i.K] }

// Map iterates over a map in an order decided by the simulator.
func Map[M ~map[K]V, K comparable, V any](m M) []It[K, V] {
	l := make([]It[K, V], 0, len(m))
	ks := make([]string, 0, len(m))
	for k := range m {
		l = append(l, It[K, V]{m, k})
	}
	for _, i := range l {
		ks = append(ks, fmt.Sprintf("%T:%v", i.K, i.K))
	}
	sort.Sort(&byKey[K, V]{l, ks})
	if W != nil {
		r := W.maprng
		for i := len(l) - 1; i > 0; i-- {
			j := r.N(i + 1)
			l[i], l[j] = l[j], l[i]
		}
	}
	return l
}

type byKey[K comparable, V any] struct {
	l []It[K, V]
	s []string
}

func (b *byKey[K, V]) Len() int           { return len(b.l) }
func (b *byKey[K, V]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byKey[K, V]) Swap(i, j int) {
	b.l[i], b.l[j] = b.l[j], b.l[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}

// Now is the simulated clock; every look at it moves it on.
func Now() time.Time {
	if W == nil {
		return time.Unix(0, Epoch)
	}
	return time.Unix(0, Tick(1000))
}

// Tick moves the simulated clock.
func Tick(ns int64) int64 {
	if W == nil {
		return Epoch
	}
	W.clock += ns
	return W.clock
}

// Clock returns the simulated time.
func (w *World) Clock() int64 { return w.clock }

// Since is time.Since on the simulated clock.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until on the simulated clock.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep moves the simulated clock and lets other tasks run.
func Sleep(d time.Duration) {
	if d > 0 {
		Tick(int64(d))
	}
	Gosched() // who sleeps in a loop does not keep others from running
}

// CurOp returns the harness operation of the running task.
func CurOp() (op, n int) {
	if W == nil {
		return -1, 0
	}
	return W.cur.op, *W.cur.nio
}

// Note2 adds an entry with a name to the event log.
func Note2(k, s string, a, b int64) {
	w := W
	if w == nil {
		return
	}
	w.Events++
	for i := 0; i < len(k); i++ {
		w.hash = (w.hash ^ uint64(k[i])) * 1099511628211
	}
	for i := 0; i < len(s); i++ {
		w.hash = (w.hash ^ uint64(s[i])) * 1099511628211
	}
	w.mixin(uint64(a))
	w.mixin(uint64(b))
	if w.Log != nil {
		w.Log(fmt.Sprintf("[t%d y%d] %s %s %d %d", w.cur.id, w.cur.y, k, s, a, b))
	}
}

// Spend counts a call to the operating system like n statements.
func Spend(n int64) {
	if W == nil || W.cur == nil {
		return
	}
	t := W.cur
	t.max -= n
	if t.lim > t.max {
		t.lim = t.max
	}
}

// Allow lets the running task execute that many statements more.
func Allow(n int64) {
	if W != nil && W.cur != nil {
		W.cur.max += n
		W.Budget += n
	}
}

// Rand stands for the global source of package math/rand.
func Rand() *rand.Rand {
	w := W
	if w == nil {
		return rand.New(rand.NewSource(1))
	}
	if w.rand == nil {
		w.rand = rand.New(rand.NewSource(int64(Mix(w.Sched.Seed, 3) >> 1)))
	}
	return w.rand
}

// Gosched lets another task run.
func Gosched() {
	w := W
	if w == nil {
		return
	}
	n := 0
	w.cur.prio -= 3000
	Block("its turn", func() bool { n++; return n > 2 })
}
