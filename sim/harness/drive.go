package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"wpkverif/simrt"
)

var root = "/verif"

// report is what a worker tells about its share.
type report struct {
	Runs       int               `json:"runs"`
	Nontrivial int               `json:"nontrivial"`
	Subs       int               `json:"subs"`
	Steps      int64             `json:"steps"`
	Switches   int64             `json:"switches"`
	SimNS      int64             `json:"simns"`
	NIO        int64             `json:"nio"`
	Faults     map[string]int64  `json:"faults"`
	Calls      map[string]int64  `json:"calls"`
	Probes     map[string]int64  `json:"probes"`
	Hashes     []uint64          `json:"hashes"`
	Pairs      []uint64          `json:"pairs"`
	States     []uint64          `json:"states"`
	Cov        []byte            `json:"cov"`
	Samples    []json.RawMessage `json:"samples"`
	First      map[int]uint64    `json:"first"` // run -> hash, for the determinism check
	Replay     string            `json:"replay"`
	Class      string            `json:"class"`
	Detail     string            `json:"detail"`
	Known      []string          `json:"known"`
	Wall       float64           `json:"wall"`
	Index      int               `json:"index"` // run that violates
	from, step int
}

func runSeed(seed uint64, prop string, i int) uint64 {
	return simrt.Mix(simrt.MixStr(seed, prop), uint64(i))
}

func plan(pr *Prop, seed uint64, i int, deep bool) *Plan {
	s := runSeed(seed, pr.ID, i)
	p := pr.Gen(simrt.NewRng(s), deep)
	p.Prop, p.Seed = pr.ID, s
	if p.Cfg == nil {
		p.Cfg = map[string]int64{}
	}
	r := simrt.NewRng(simrt.MixStr(s, "surroundings"))
	if _, ok := p.Cfg["tz"]; !ok {
		p.Cfg["tz"] = simrt.Pick(r, int64(0), 0, 60, -300, 345, 840, -720)
	}
	if _, ok := p.Cfg["order"]; !ok {
		p.Cfg["order"] = int64(r.N(1 << 30))
	}
	id := 1
	for _, t := range p.Tasks {
		for j := range t {
			t[j].ID = id
			id++
		}
	}
	return p
}

const maxSet = 4_000_000

// work executes a share of the runs.
func work(pr *Prop, seed uint64, from, step, n int, deep bool, limit time.Duration, out io.Writer, beat func(int)) {
	start := time.Now()
	rep := report{Faults: map[string]int64{}, Calls: map[string]int64{}, Probes: map[string]int64{}, First: map[int]uint64{}}
	hashes, pairs, states := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	known := loadKnown()
	seen := map[string]bool{}
	for i := from; i < n; i += step {
		if time.Since(start) > limit {
			break
		}
		beat(i)
		p := plan(pr, seed, i, deep)
		x := execute(pr, p, false)
		rep.Runs++
		rep.Subs += x.subs
		rep.Switches += int64(x.W.Switches)
		rep.SimNS += x.W.Clock() - simrt.Epoch
		rep.NIO += int64(x.FS.NIO)
		for k, v := range x.FS.Fired {
			rep.Faults[k] += int64(v)
		}
		for k, v := range x.FS.Kinds {
			rep.Calls[k] += int64(v)
		}
		for k, v := range x.Probes {
			rep.Probes[k] += v
		}
		h := x.W.Hash()
		if _, dup := hashes[h]; !dup {
			hashes[h] = struct{}{}
			if pr.Trivial == nil || !pr.Trivial(x) {
				rep.Nontrivial++
			}
		}
		if len(pairs) < maxSet {
			for k := range x.W.Pairs {
				pairs[k] = struct{}{}
			}
		}
		if len(states) < maxSet {
			for k := range x.States {
				states[k] = struct{}{}
			}
		}
		if i < 24 {
			rep.First[i] = h
		}
		if len(rep.Samples) < 1 && i >= from+step {
			b, _ := json.Marshal(p)
			if len(b) < 6000 {
				rep.Samples = append(rep.Samples, b)
			}
		}
		if x.V != nil {
			if k := known.match(pr.ID, x.V); k != "" {
				if !seen[k] {
					seen[k] = true
					rep.Known = append(rep.Known, k)
				}
				continue
			}
			rep.Index = i
			q := minimise(pr, x, beat)
			rep.Class, rep.Detail = q.Class, q.Detail
			rep.Replay = save(q)
			break
		}
	}
	for h := range hashes {
		rep.Hashes = append(rep.Hashes, h)
	}
	for h := range pairs {
		rep.Pairs = append(rep.Pairs, h)
	}
	for h := range states {
		rep.States = append(rep.States, h)
	}
	rep.Steps = simrt.Steps
	rep.Cov = bytes.TrimRight(simrt.Cov, "\x00")
	rep.Wall = time.Since(start).Seconds()
	b, err := json.Marshal(&rep)
	must(err)
	fmt.Fprintf(out, "REPORT %s\n", b)
}

func save(q *Plan) string {
	dir := filepath.Join(root, "evidence", "replays")
	os.MkdirAll(dir, 0755)
	b, err := json.MarshalIndent(q, "", " ")
	must(err)
	h := fnv.New64a()
	h.Write(b)
	name := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", q.Prop, clean(q.Class), h.Sum64()&0xffffffff))
	must(os.WriteFile(name, b, 0644))
	return name
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '-'
	}, s)
}

// --- known findings ---

type knownList []struct{ prop, class, text string }

func (k knownList) match(prop string, v *Violation) string {
	for _, e := range k {
		if e.prop == prop && e.class == v.Class && strings.Contains(v.Detail, e.text) {
			return e.class + ": " + e.text
		}
	}
	return ""
}

// loadKnown reads the lines "open: property=<id> class=<class> | <text of the
// detail>" of the known-findings file.
func loadKnown() (l knownList) {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, s := range strings.Split(string(b), "\n") {
		s, ok := strings.CutPrefix(s, "open: property=")
		if !ok {
			continue
		}
		prop, s, _ := strings.Cut(s, " class=")
		class, text, ok := strings.Cut(s, " | ")
		if ok && text != "" {
			l = append(l, struct{ prop, class, text string }{prop, class, text})
		}
	}
	return
}

// --- minimisation ---

func minimise(pr *Prop, x *Exec, beat func(int)) *Plan {
	class := x.V.Class
	fmt.Fprintf(os.Stderr, "first seen: %s: %s\n", class, x.V.Detail)
	deadline := time.Now().Add(60 * time.Second)
	cur := x.fix()
	tries := 0
	try := func(p *Plan) *Exec {
		tries++
		beat(-tries)
		y := execute(pr, p, false)
		if y.V != nil && y.V.Class == class {
			return y
		}
		return nil
	}
	// the explicit plan must repeat the execution; if not, keep the seeded one
	if y := try(cur); y == nil {
		cur = x.P.clone()
	}
	better := func(c *Plan) bool {
		if tries > 1500 || time.Now().After(deadline) {
			return false
		}
		if y := try(c); y != nil {
			if c.Gen == nil {
				if n := y.fix(); len(n.Faults) <= len(c.Faults) {
					cur = n
					return true
				}
			}
			cur = c
			return true
		}
		// with the deaths at other places
		if c.Crash != nil || len(c.Lives) > 0 {
			d := c.clone()
			d.Crash, d.Lives = nil, nil
			if y := try(d); y != nil {
				n := y.fix()
				if z := try(n); z != nil {
					cur = n
					return true
				}
			}
		}
		// with other interleavings
		if len(c.Tasks) > 1 && c.Gen == nil {
			for s := uint64(0); s < 3; s++ {
				d := c.clone()
				d.Sched = simrt.Sched{Mode: "rand", Seed: simrt.Mix(c.Sched.Seed, s), P: []float64{0.02, 0.1, 0.3}[s], Q: 0.3}
				if y := try(d); y != nil {
					n := y.fix()
					if z := try(n); z != nil {
						cur = n
						return true
					}
				}
			}
		}
		return false
	}
	for pass := 0; pass < 4; pass++ {
		before := cur.ops()*1000 + len(cur.Faults)*100 + len(cur.Sched.Plan)
		for t := range cur.Tasks {
			for chunk := len(cur.Tasks[t]); chunk > 0; chunk /= 2 {
				for i := 0; i < len(cur.Tasks[t]); {
					c := cur.clone()
					e := min(i+chunk, len(c.Tasks[t]))
					c.Tasks[t] = append(append([]Op{}, c.Tasks[t][:i]...), c.Tasks[t][e:]...)
					if !better(c) {
						i += chunk
					}
				}
			}
		}
		for i := 0; i < len(cur.Faults); {
			c := cur.clone()
			c.Faults = append(c.Faults[:i], c.Faults[i+1:]...)
			if !better(c) {
				i++
			}
		}
		for chunk := len(cur.Sched.Plan); chunk > 0; chunk /= 2 {
			for i := 0; i < len(cur.Sched.Plan); {
				c := cur.clone()
				e := min(i+chunk, len(c.Sched.Plan))
				c.Sched.Plan = append(c.Sched.Plan[:i], c.Sched.Plan[e:]...)
				c.Sched.Mode = "plan"
				n := len(cur.Sched.Plan)
				if !better(c) || len(cur.Sched.Plan) >= n {
					i += chunk
				}
			}
		}
		for t := range cur.Tasks {
			for i := range cur.Tasks[t] {
				for _, v := range []int64{0, 1, 10, 100} {
					if i < len(cur.Tasks[t]) && cur.Tasks[t][i].N > v {
						c := cur.clone()
						c.Tasks[t][i].N = v
						if better(c) {
							break
						}
					}
				}
			}
		}
		ks := []string{}
		for k := range cur.Cfg {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if cur.Cfg[k] != 0 {
				c := cur.clone()
				c.Cfg[k] = 0
				better(c)
			}
		}
		if cur.ops()*1000+len(cur.Faults)*100+len(cur.Sched.Plan) >= before {
			break
		}
	}
	y := execute(pr, cur, true)
	if y.V == nil { // the plan as it was generated
		cur = x.P.clone()
		y = execute(pr, cur, true)
	}
	if y.V == nil {
		y.V = &Violation{"lost", "the minimised plan does not repeat the violation"}
	}
	cur.Class, cur.Detail = y.V.Class, y.V.Detail
	cur.Hash = fmt.Sprintf("%016x", y.W.Hash())
	cur.Trace = y.log
	if len(cur.Trace) > 400 {
		cur.Trace = append([]string{"..."}, cur.Trace[len(cur.Trace)-400:]...)
	}
	return cur
}

// --- commands ---

func replay(file string, verbose bool) int {
	b, err := os.ReadFile(file)
	must(err)
	p := &Plan{}
	must(json.Unmarshal(b, p))
	pr := props[p.Prop]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property", p.Prop)
		return 3
	}
	if p.Class == "crash" && os.Getenv("VERIF_BARE") == "" {
		return replayCrash(p, file)
	}
	if q := p.Seq; q != nil {
		for i := q.From; i < q.Index; i += q.Step {
			execute(pr, plan(pr, q.Seed, i, q.Deep), false)
		}
	}
	x := execute(pr, p, verbose)
	for _, s := range x.log {
		fmt.Println(s)
	}
	if x.V == nil {
		fmt.Printf("no violation; hash %016x\n", x.W.Hash())
		return 0
	}
	same := ""
	if p.Hash != "" {
		if fmt.Sprintf("%016x", x.W.Hash()) == p.Hash && x.V.Class == p.Class {
			same = " (identical execution)"
		} else {
			same = " (NOT the recorded execution)"
		}
	}
	fmt.Printf("class %s%s\n%s\nhash %016x\n", x.V.Class, same, x.V.Detail, x.W.Hash())
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.Prop, file)
	return 1
}

// replayCrash repeats an execution that ends the process, in a process of its own.
func replayCrash(p *Plan, file string) int {
	c := exec.Command(os.Args[0], "replay", file)
	c.Env = append(os.Environ(), "VERIF_ROOT="+root, "VERIF_BARE=1")
	out, _ := c.CombinedOutput()
	d := fatalLine(string(out))
	if d == "" {
		fmt.Println("no crash")
		return 0
	}
	same := " (NOT the recorded execution)"
	if d == p.Detail {
		same = " (identical execution)"
	}
	fmt.Printf("class crash%s\n%s\n", same, d)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.Prop, file)
	return 1
}

// fatalLine finds the message of an error that ends a Go process.
func fatalLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error: ") && !strings.Contains(l, "all goroutines are asleep") && !strings.Contains(l, "out of memory") {
			return l
		}
	}
	return ""
}

func replayChild(file string) string {
	c := exec.Command(os.Args[0], "replay", file)
	c.Env = append(os.Environ(), "VERIF_ROOT="+root)
	out, _ := c.CombinedOutput()
	return string(out)
}

// confirm saves a plan that fails in a fresh process the same way twice.
func confirm(q *Plan, class string) string {
	q.Hash = ""
	f := save(q)
	defer os.Remove(f)
	out := replayChild(f)
	i := strings.LastIndex(out, "\nhash ")
	if i < 0 || !strings.Contains(out, "class "+class+"\n") || len(out) < i+22 {
		return ""
	}
	q.Class, q.Hash = class, out[i+6:i+22]
	g := save(q)
	if !strings.Contains(replayChild(g), "(identical execution)") {
		os.Remove(g)
		return ""
	}
	return g
}

func main() {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		root = r
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay|run|list ...")
		os.Exit(3)
	}
	cmd := os.Args[1]
	fl := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fl.String("prop", "", "property")
	seed := fl.Uint64("seed", 1, "seed")
	deep := fl.Bool("deep", false, "thorough tier")
	from := fl.Int("from", 0, "first run")
	step := fl.Int("step", 1, "run stride")
	n := fl.Int("n", 0, "number of runs")
	limit := fl.Float64("limit", 1e9, "seconds")
	workers := fl.Int("workers", 8, "worker processes")
	progress := fl.String("progress", "", "file that names the current run")
	verbose := fl.Bool("v", false, "print the event log")
	fl.Parse(os.Args[2:])

	realOut := os.Stdout
	if cmd == "worker" || cmd == "replay" || cmd == "run" {
		// what the code under test prints must not mix with the protocol
		null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
		must(err)
		os.Stdout = null
	}
	simrt.Places = places
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	debug.SetMaxStack(256 << 20)
	switch cmd {
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id)
		}
	case "worker":
		runtime.GOMAXPROCS(2)
		pr := props[*prop]
		var mux sync.Mutex
		var last = time.Now()
		go func() {
			for {
				time.Sleep(time.Second)
				mux.Lock()
				d := time.Since(last)
				mux.Unlock()
				if d > 90*time.Second {
					fmt.Fprintln(os.Stderr, "harness: an execution does not end")
					buf := make([]byte, 1<<16)
					os.Stderr.Write(buf[:runtime.Stack(buf, true)])
					os.Exit(4)
				}
			}
		}()
		pf, _ := os.OpenFile(*progress, os.O_WRONLY, 0)
		w := bufio.NewWriter(realOut)
		work(pr, *seed, *from, *step, *n, *deep, time.Duration(*limit*1e9), w, func(i int) {
			if pf != nil && i >= 0 {
				var b [8]byte
				binary.LittleEndian.PutUint64(b[:], uint64(i+1))
				pf.WriteAt(b[:], 0)
			}
			mux.Lock()
			last = time.Now()
			mux.Unlock()
		})
		w.Flush()
	case "replay":
		os.Stdout, realOut = realOut, os.Stdout
		c := replay(fl.Arg(0), *verbose)
		os.Exit(c)
	case "run": // one run with its event log
		pr := props[*prop]
		p := plan(pr, *seed, *from, *deep)
		x := execute(pr, p, *verbose)
		b, _ := json.Marshal(p)
		fmt.Fprintf(realOut, "%s\n", b)
		for _, s := range x.log {
			fmt.Fprintln(realOut, s)
		}
		fmt.Fprintf(realOut, "hash %016x violation %+v\n", x.W.Hash(), x.V)
	case "check":
		os.Exit(check(*prop, *seed, *deep, *workers, *n, *limit))
	default:
		os.Exit(3)
	}
}

// crashed tells that a worker process was ended by the Go runtime.
type crashed struct {
	run    int
	detail string
}

func (c *crashed) Error() string { return fmt.Sprintf("run %d: %s", c.run, c.detail) }

// spawn runs one worker process.
func spawn(args ...string) (*report, error) {
	pf, err := os.CreateTemp("", "wpkverif")
	if err != nil {
		return nil, err
	}
	defer os.Remove(pf.Name())
	defer pf.Close()
	var errb bytes.Buffer
	c := exec.Command(os.Args[0], append(args, "-progress", pf.Name())...)
	c.Stderr = &errb
	c.Env = append(os.Environ(), "VERIF_ROOT="+root)
	out, err := c.Output()
	if err != nil {
		var b [8]byte
		if d := fatalLine(errb.String()); d != "" {
			if n, _ := pf.ReadAt(b[:], 0); n == 8 {
				return nil, &crashed{int(binary.LittleEndian.Uint64(b[:])) - 1, d}
			}
		}
		os.Stderr.WriteString(head(errb.String(), 20000))
		return nil, fmt.Errorf("worker failed: %v", err)
	}
	os.Stderr.Write(errb.Bytes())
	s := string(out)
	i := strings.LastIndex(s, "REPORT ")
	if i < 0 {
		return nil, fmt.Errorf("worker gave no report")
	}
	r := &report{}
	if err := json.Unmarshal([]byte(s[i+7:]), r); err != nil {
		return nil, err
	}
	return r, nil
}

func merge(dst, src map[string]int64) {
	for k, v := range src {
		dst[k] += v
	}
}

func check(id string, seed uint64, deep bool, workers, n int, limit float64) int {
	start := time.Now()
	pr := props[id]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 3
	}
	if n == 0 {
		if n = pr.Quick; deep {
			n = pr.Deep
		}
	}
	if limit > 1e8 {
		if limit = 100; deep {
			limit = 600
		}
	}
	args := func(w, of, n int) []string {
		return []string{"worker", "-prop", id, "-seed", strconv.FormatUint(seed, 10), "-deep=" + strconv.FormatBool(deep),
			"-from", strconv.Itoa(w), "-step", strconv.Itoa(of), "-n", strconv.Itoa(n), "-limit", fmt.Sprint(limit)}
	}
	reps := make([]*report, workers)
	errs := make([]error, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			reps[w], errs[w] = spawn(args(w, workers, n)...)
		}()
	}
	wg.Wait()
	var crash *crashed
	for w, err := range errs {
		if c, ok := err.(*crashed); ok {
			crash = c
			reps[w] = &report{}
		} else if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			return 4
		}
		reps[w].from, reps[w].step = w, workers
	}
	tot := report{Faults: map[string]int64{}, Calls: map[string]int64{}, Probes: map[string]int64{}}
	hashes, pairs, states := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	cov := make([]byte, 1<<16)
	first := map[int]uint64{}
	var viol *report
	known := map[string]bool{}
	for _, r := range reps {
		tot.Runs += r.Runs
		tot.Nontrivial += r.Nontrivial
		tot.Subs += r.Subs
		tot.Steps += r.Steps
		tot.Switches += r.Switches
		tot.SimNS += r.SimNS
		tot.NIO += r.NIO
		merge(tot.Faults, r.Faults)
		merge(tot.Calls, r.Calls)
		merge(tot.Probes, r.Probes)
		for _, h := range r.Hashes {
			hashes[h] = struct{}{}
		}
		for _, h := range r.Pairs {
			pairs[h] = struct{}{}
		}
		for _, h := range r.States {
			states[h] = struct{}{}
		}
		for i, c := range r.Cov {
			cov[i] |= c
		}
		for k, v := range r.First {
			first[k] = v
		}
		for _, k := range r.Known {
			known[k] = true
		}
		tot.Samples = append(tot.Samples, r.Samples...)
		if r.Replay != "" && viol == nil {
			viol = r
		}
	}
	// determinism: the first runs once more in one other process
	det, differ := 0, 0
	if viol == nil && crash == nil {
		m := min(24, n)
		r, err := spawn(args(0, 1, m)...)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			return 4
		}
		for i, h := range r.First {
			if g, ok := first[i]; ok {
				det++
				if g != h {
					// nothing was violated; what the code does depends on something
					// that is not simulated
					fmt.Fprintf(os.Stderr, "harness: run %d of seed %d does not repeat: %016x and %016x\n", i, seed, g, h)
					differ++
					if os.Getenv("VERIF_STRICT") != "" {
						return 5
					}
				}
			}
		}
	}
	wall := time.Since(start).Seconds()
	sites, reached, missed := coverage(cov)
	samples := tot.Samples
	if len(samples) > 3 {
		samples = samples[:3]
	}
	if len(samples) == 0 {
		b, _ := json.Marshal(plan(pr, seed, 0, deep))
		samples = append(samples, b)
	}
	tier := "quick"
	if deep {
		tier = "thorough"
	}
	nv := 0
	if viol != nil || crash != nil {
		nv = 1
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nv,
		"assumptions": append([]string{
			"the simulated file system behaves like a POSIX one: writes are seen by later reads at once, a write call inside one page is atomic to readers",
			"scheduling points are statement boundaries, compound assignments, locks and I/O calls; weak memory effects are not simulated",
		}, pr.Assume...),
		"coverage": map[string]any{
			"evaluations": tot.Runs, "distinct_nontrivial": min(tot.Nontrivial, len(hashes)), "rule": pr.Rule, "samples": samples,
			"distinct_executions":        len(hashes),
			"sub_executions":             tot.Subs,
			"seeds_per_hour":             int(float64(tot.Runs) / wall * 3600),
			"simulated_seconds":          float64(tot.SimNS) / 1e9,
			"statements_executed":        tot.Steps,
			"context_switches":           tot.Switches,
			"distinct_switch_pairs":      len(pairs),
			"switch_pair_measure":        "statement at which a task was preempted x progress of the task resumed",
			"distinct_abstract_states":   len(states),
			"simulated_io_calls":         tot.NIO,
			"io_calls_by_kind":           tot.Calls,
			"faults_fired":               tot.Faults,
			"probes":                     tot.Probes,
			"instrumented_statements":    sites,
			"reached_statements":         reached,
			"statements_missed_by_file":  missed,
			"determinism_runs_repeated":  det,
			"determinism_runs_differing": differ,
			"worker_processes":           workers,
			"components_real":            pr.Real,
			"components_stubbed":         "operating system files, directories, handles, memory mappings, clock, allocator limit, process exit, log sink; locks and goroutine scheduling are the simulator's",
			"executions_cut_by_time_cap": tot.Runs < n,
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	must(os.WriteFile(filepath.Join(root, "evidence", id+".json"), b, 0644))

	ks := []string{}
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if viol != nil {
		fmt.Printf("%s: %s\n", viol.Class, head(viol.Detail, 3000))
		// the minimised plan must fail the same way in a fresh process
		file := viol.Replay
		if out := replayChild(file); !strings.Contains(out, "(identical execution)") {
			fmt.Printf("the replay in a fresh process differs:\n%s\n", head(out, 3000))
			// the run as it was made, alone or after the runs before it
			p := plan(pr, seed, viol.Index, deep)
			if file = confirm(p, viol.Class); file == "" {
				p.Seq = &SeqRef{seed, deep, viol.from, viol.step, viol.Index}
				if file = confirm(p, viol.Class); file == "" {
					return 5
				}
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		return 1
	}
	if crash != nil {
		p := plan(pr, seed, crash.run, deep)
		p.Class, p.Detail = "crash", crash.detail
		file := save(p)
		fmt.Printf("crash: %s\n", crash.detail)
		if out := replayChild(file); !strings.Contains(out, "(identical execution)") {
			fmt.Printf("the replay in a fresh process differs:\n%s\n", head(out, 3000))
			return 5
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		return 1
	}
	fmt.Printf("%s: held on %d executions (%d distinct), %d statements, %d I/O calls, %d faults, %.1f s\n",
		id, tot.Runs, len(hashes), tot.Steps, tot.NIO, sum(tot.Faults), wall)
	return 0
}

func sum(m map[string]int64) (n int64) {
	for _, v := range m {
		n += v
	}
	return
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// places names the statements of the instrumented code.
func places(site int32) string {
	b, err := os.ReadFile(filepath.Join(root, ".build", "sites.json"))
	var sites []struct {
		F  string `json:"f"`
		L  int    `json:"l"`
		Fn string `json:"fn"`
	}
	if err != nil || json.Unmarshal(b, &sites) != nil || int(site) >= len(sites) {
		return fmt.Sprint(site)
	}
	s := sites[site]
	return fmt.Sprintf("%s:%d (%s)", s.F, s.L, s.Fn)
}

// coverage counts the instrumented statements reached.
func coverage(cov []byte) (total, reached int, missed map[string]int) {
	b, err := os.ReadFile(filepath.Join(root, ".build", "sites.json"))
	if err != nil {
		return
	}
	var sites []struct {
		F string `json:"f"`
	}
	if json.Unmarshal(b, &sites) != nil {
		return
	}
	missed = map[string]int{}
	for i, s := range sites {
		total++
		if i < len(cov) && cov[i] != 0 {
			reached++
		} else {
			missed[s.F]++
		}
	}
	return
}
