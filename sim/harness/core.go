package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"wpkverif/simlog"
	"wpkverif/simmmap"
	"wpkverif/simos"
	"wpkverif/simrt"
)

// Op is one step of a workload.
type Op struct {
	ID int    `json:"id"`
	K  string `json:"k"`
	A  string `json:"a,omitempty"`
	B  string `json:"b,omitempty"`
	N  int64  `json:"n,omitempty"`
	M  int64  `json:"m,omitempty"`
}

// FaultAt is a fault placed at the Nth I/O call of an operation.
type FaultAt struct {
	Op   int    `json:"op"`
	Nth  int    `json:"nth"`
	Kind string `json:"kind"`
	Call string `json:"call,omitempty"` // what it hit (information)
	N    int    `json:"n,omitempty"`
	E    int    `json:"errno,omitempty"`
}

// FaultGen draws faults while an execution runs.
type FaultGen struct {
	P     map[string]float64 `json:"p"`              // call kind -> probability
	Short float64            `json:"short"`          // of these, cut short instead of failing
	Max   int                `json:"max"`            // at most that many
	From  int                `json:"from,omitempty"` // operations with a lower number are spared
	Only  string             `json:"only,omitempty"` // path fragment
}

// Plan determines one execution completely.
// SeqRef names the runs made before in the same process.
type SeqRef struct {
	Seed              uint64
	Deep              bool
	From, Step, Index int
}

type Plan struct {
	Seq    *SeqRef          `json:"seq,omitempty"`
	Prop   string           `json:"prop"`
	Seed   uint64           `json:"seed"`
	Cfg    map[string]int64 `json:"cfg,omitempty"`
	Tasks  [][]Op           `json:"tasks"`
	Gen    *FaultGen        `json:"gen,omitempty"`
	Faults []FaultAt        `json:"faults,omitempty"`
	Sched  simrt.Sched      `json:"sched"`
	Crash  *CrashPt         `json:"crash,omitempty"`
	Lives  []CrashPt        `json:"lives,omitempty"` // deaths after which the next task went on
	// what the minimised execution shows
	Class  string   `json:"class,omitempty"`
	Detail string   `json:"detail,omitempty"`
	Hash   string   `json:"hash,omitempty"`
	Trace  []string `json:"trace,omitempty"`
}

// CrashPt is a process death: Rec journal entries survive, and Keep bytes of
// the next one (-1: none).
type CrashPt struct {
	Life int `json:"life"`
	Rec  int `json:"rec"`
	Keep int `json:"keep"`
}

func (p *Plan) ops() (n int) {
	for _, t := range p.Tasks {
		n += len(t)
	}
	return
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	n := &Plan{}
	json.Unmarshal(b, n)
	return n
}

// Violation is a broken property.
type Violation struct {
	Class  string
	Detail string
}

// Exec is one execution of a plan.
type Exec struct {
	P      *Plan
	FS     *simos.FS
	W      *simrt.World
	V      *Violation
	Fired  []FaultAt
	Probes map[string]int64
	States map[uint64]struct{}
	Crash  *CrashPt
	Lives  []CrashPt
	frng   *simrt.Rng
	quiet  int
	log    []string
	only   bool                         // only leaks count
	spare  func(kind, path string) bool // calls without faults
	subs   int                          // sub-executions (crash images opened, ...)
}

// Prop is a property with the way to explore it.
type Prop struct {
	ID    string
	Gen   func(r *simrt.Rng, deep bool) *Plan
	Run   func(x *Exec)
	Quick int // executions
	Deep  int
	Rule  string // what makes an execution non-trivial
	Real  string // what ran real code
	Note  string
	// Trivial tells an execution that exercised nothing.
	Trivial func(x *Exec) bool
	Budget  int64
	NoPanic bool // the scenario handles panics itself
	Assume  []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func propIDs() (l []string) {
	for k := range props {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// failure is the panic value that unwinds a task after a violation.
func (x *Exec) Fail(class, format string, a ...any) {
	if x.only && class != "leak" && class != "misuse" {
		x.Hit("left-to-others")
	} else if x.V == nil {
		x.V = &Violation{class, fmt.Sprintf(format, a...)}
		simrt.Note("violation " + class)
	}
	if simrt.W != nil {
		simrt.Stop("violation")
	}
}

// Check reports a violation unless ok.
func (x *Exec) Check(ok bool, class, format string, a ...any) {
	if !ok {
		x.Fail(class, format, a...)
	}
}

// Hit counts a rare condition.
func (x *Exec) Hit(s string) { x.Probes[s]++ }

// State records an abstract state.
func (x *Exec) State(a ...any) {
	h := uint64(1)
	for _, v := range a {
		h = simrt.MixStr(h, fmt.Sprint(v))
	}
	x.States[h] = struct{}{}
}

// Quiet runs f without faults.
func (x *Exec) Quiet(f func()) {
	x.quiet++
	full, limited := x.FS.Full, x.FS.Limited
	x.FS.Full, x.FS.Limited = false, false
	defer func() { x.quiet--; x.FS.Full, x.FS.Limited = full, limited }()
	f()
}

func (x *Exec) cfg(k string) int64 { return x.P.Cfg[k] }

// set fixes a configuration value that the scenario needs, also in a plan the
// minimiser has reduced.
func (x *Exec) set(k string, v int64) {
	if x.P.Cfg == nil {
		x.P.Cfg = map[string]int64{}
	}
	x.P.Cfg[k] = v
}

func (x *Exec) is(k string) bool { return x.P.Cfg[k] != 0 }

// fault decides about one call of an operation.
func (x *Exec) fault(op, nth int, kind, path string, n int) *FaultAt {
	if x.quiet > 0 || x.spare != nil && x.spare(kind, path) {
		return nil
	}
	if g := x.P.Gen; g != nil {
		if len(x.Fired) >= g.Max || op < g.From {
			return nil
		}
		p := g.P[kind]
		if p == 0 || (g.Only != "" && !strings.Contains(path, g.Only)) {
			return nil
		}
		if !x.frng.P(p) {
			return nil
		}
		f := FaultAt{Op: op, Nth: nth, Kind: "err", Call: kind + " " + path, N: int(x.frng.U64() >> 40)}
		switch kind {
		case "read":
			if x.frng.P(g.Short) {
				f.Kind = "short"
			} else if x.frng.P(0.3) {
				f.Kind = "partial"
			}
		case "readdir":
			if x.frng.P(0.4) {
				f.Kind = "partial"
			}
		case "write":
			if x.frng.P(g.Short) {
				f.Kind = "partial"
			}
		case "stream":
			if x.frng.P(g.Short) {
				f.Kind = "short"
			} else {
				f.Kind = simrt.Pick(x.frng, "err", "partial", "eof")
			}
		}
		f.E = int(simrt.Pick(x.frng, syscall.EIO, syscall.ENOSPC, syscall.EINTR, syscall.EACCES, syscall.EMFILE, syscall.ENOMEM))
		x.Fired = append(x.Fired, f)
		return &f
	}
	for _, f := range x.P.Faults {
		if f.Op == op && f.Nth == nth && strings.HasPrefix(f.Call, kind+" ") {
			f.Call = kind + " " + path // a reduced plan may call with other data
			x.Fired = append(x.Fired, f)
			return &f
		}
	}
	return nil
}

func (x *Exec) inject(c *simos.Call) *simos.Fault {
	f := x.fault(c.Op, c.Nth, c.Kind, c.Path, c.N)
	if f == nil {
		return nil
	}
	return &simos.Fault{Kind: f.Kind, N: f.N, Errno: syscall.Errno(f.E)}
}

// execute runs a plan once.
func execute(pr *Prop, p *Plan, logging bool) *Exec {
	x := &Exec{P: p, FS: simos.NewFS(), Probes: map[string]int64{}, States: map[uint64]struct{}{}}
	x.frng = simrt.NewRng(simrt.MixStr(p.Seed, "faults"))
	w := &simrt.World{Sched: p.Sched, Budget: pr.Budget, Pairs: map[uint64]struct{}{}}
	x.W = w
	if logging {
		w.Log = func(s string) { x.log = append(x.log, s) }
	}
	simos.Cur = x.FS
	simos.Env = map[string]string{"HOME": "/work", "TMPDIR": "/tmp"}
	simos.Exe = "/bin/tool"
	simlog.Lines, simlog.Hook = nil, nil
	time.Local = time.UTC
	if tz := x.cfg("tz"); tz != 0 { // minutes east of Greenwich
		time.Local = time.FixedZone("SIM", int(tz)*60)
	}
	x.FS.Order = uint64(x.cfg("order"))
	x.FS.Inject = x.inject
	if n := x.cfg("space"); n > 0 {
		x.FS.Limited, x.FS.Space = true, n
		x.FS.OnFull = func(c *simos.Call) {
			x.Fired = append(x.Fired, FaultAt{Op: c.Op, Nth: -1, Kind: "full", Call: c.Kind + " " + c.Path})
		}
	}
	simrt.Restart()
	w.Run(func() {
		simrt.SetOp(-1)
		pr.Run(x)
	})
	simmmap.Reset()
	if x.only && x.V == nil {
		return x
	}
	if x.V == nil {
		switch {
		case len(w.Panics) > 0 && !pr.NoPanic:
			x.V = &Violation{"panic", w.Panics[0]}
		case w.Race != "":
			x.V = &Violation{"race", w.Race}
		case w.Hang:
			x.V = &Violation{"hang", fmt.Sprintf("a task executed more than %d statements and calls", w.Budget)}
		case w.Deadlock:
			x.V = &Violation{"deadlock", w.Aborted()}
		case w.AllocFail != 0:
			x.V = &Violation{"overalloc", fmt.Sprintf("allocation of %d elements requested", w.AllocFail)}
		}
	} else if len(w.Panics) > 0 && x.V.Class != "panic" {
		x.V.Detail += "\nalso panicked: " + w.Panics[0]
	}
	return x
}

// fix turns a generating plan into the explicit one that repeats its execution.
func (x *Exec) fix() *Plan {
	n := x.P.clone()
	n.Gen = nil
	n.Faults = append([]FaultAt(nil), x.Fired...)
	n.Sched = simrt.Sched{Mode: "plan", Seed: x.P.Sched.Seed, Plan: append([]simrt.Dec(nil), x.W.Decisions()...)}
	n.Crash = x.Crash
	n.Lives = append([]CrashPt(nil), x.Lives...)
	return n
}

// mixSched draws a scheduling policy.
func mixSched(r *simrt.Rng, length int) simrt.Sched {
	s := simrt.Sched{Mode: "rand", Seed: r.U64()}
	switch r.N(10) {
	case 0, 1, 2:
		s.Mode, s.Depth, s.Length = "pct", r.Range(1, 5), length
	default:
		s.P = simrt.Pick(r, 0, 0.005, 0.02, 0.1, 0.3)
		s.Q = simrt.Pick(r, 0.05, 0.1, 0.3, 0.6)
	}
	return s
}

func seqSched(r *simrt.Rng) simrt.Sched { return simrt.Sched{Mode: "seq", Seed: r.U64()} }

// content generates file data that identifies its block.
func content(id int64, size int) []byte {
	b := make([]byte, size)
	r := simrt.NewRng(simrt.Mix(uint64(id), 77))
	for i := 0; i < len(b); i += 8 {
		v := r.U64()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}
