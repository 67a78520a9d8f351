package simrt

import (
	"fmt"
	"runtime"
	"unsafe"
)

// The accesses of tasks to memory they share are checked with vector clocks:
// two accesses to one place, at least one of them a write, that nothing orders
// are a data race, whatever the interleaving of the run is.

// RaceOn is set while more than one task is running.
var RaceOn bool

// Places gives names to the statements of the instrumented code.
var Places func(site int32) string

type clock []int64

func (c clock) at(i int) int64 {
	if i < len(c) {
		return c[i]
	}
	return 0
}

func (c *clock) set(i int, v int64) {
	for len(*c) <= i {
		*c = append(*c, 0)
	}
	(*c)[i] = v
}

func (c *clock) join(o clock) {
	for i, v := range o {
		if v > c.at(i) {
			c.set(i, v)
		}
	}
}

type access struct {
	task int
	clk  int64
	site int32
}

type shadow struct {
	w  access
	rs []access
}

type race struct {
	sh   map[unsafe.Pointer]*shadow
	sync map[unsafe.Pointer]*clock
}

func (w *World) live() {
	n := 0
	for _, t := range w.tasks {
		if !t.done {
			n++
		}
	}
	RaceOn = n > 1
}

// forked makes what the running task did happen before what t does.
func (w *World) forked(t *task) {
	if w.race.sync == nil {
		w.race.sync = map[unsafe.Pointer]*clock{}
		w.race.sh = map[unsafe.Pointer]*shadow{}
	}
	if c := w.cur; c != nil {
		t.vc = append(clock(nil), c.vc...)
		c.vc.set(c.id, c.vc.at(c.id)+1)
	}
	t.vc.set(t.id, 1)
}

// Acq makes all that released p happen before what the running task does next.
func Acq(p unsafe.Pointer) {
	w := W
	if w == nil || len(w.tasks) < 2 {
		return
	}
	if c := w.race.sync[p]; c != nil {
		w.cur.vc.join(*c)
	}
}

// Rel makes what the running task did happen before the following acquires of p.
func Rel(p unsafe.Pointer) {
	w := W
	if w == nil || len(w.tasks) < 2 {
		return
	}
	c := w.race.sync[p]
	if c == nil {
		c = new(clock)
		w.race.sync[p] = c
	}
	t := w.cur
	c.join(t.vc)
	t.vc.set(t.id, t.vc.at(t.id)+1)
}

func eface(v any) unsafe.Pointer { return (*[2]unsafe.Pointer)(unsafe.Pointer(&v))[1] }

// Rd notes a read of a variable.
func Rd[T any](site int32, p *T) { note(site, unsafe.Pointer(p), false) }

// Wr notes a write of a variable.
func Wr[T any](site int32, p *T) { note(site, unsafe.Pointer(p), true) }

// RdM notes a read of the content of a map.
func RdM(site int32, m any) { note(site, eface(m), false) }

// WrM notes a change of the content of a map.
func WrM(site int32, m any) { note(site, eface(m), true) }

func note(site int32, p unsafe.Pointer, write bool) {
	w := W
	if w == nil || p == nil || w.atomic > 0 || w.aborted != "" || w.Race != "" || w.NoRace {
		return
	}
	t := w.cur
	s := w.race.sh[p]
	if s == nil {
		s = &shadow{w: access{task: -1}}
		w.race.sh[p] = s
	}
	if s.w.task >= 0 && s.w.task != t.id && s.w.clk > t.vc.at(s.w.task) {
		w.raced(s.w, "write", site, write)
	}
	me := access{t.id, t.vc.at(t.id), site}
	if !write {
		for i := range s.rs {
			if s.rs[i].task == t.id {
				s.rs[i] = me
				return
			}
		}
		s.rs = append(s.rs, me)
		return
	}
	for _, r := range s.rs {
		if r.task != t.id && r.clk > t.vc.at(r.task) {
			w.raced(r, "read", site, true)
		}
	}
	s.rs, s.w = s.rs[:0], me
}

func (w *World) raced(a access, kind string, site int32, write bool) {
	k := "read"
	if write {
		k = "write"
	}
	name := func(s int32) string {
		if Places != nil {
			return Places(s)
		}
		return fmt.Sprint(s)
	}
	w.Race = fmt.Sprintf("%s at %s by task %d and %s at %s by task %d of the same memory, with nothing that orders them",
		kind, name(a.site), a.task, k, name(site), w.cur.id)
}

// Look notes the accesses of the statement that follows. A variable may become
// reachable only by the statement itself, then its access is left out.
func Look(f func()) {
	if W == nil {
		return
	}
	look(f)
	if w := W; w.Race != "" && w.aborted == "" {
		w.abort("race")
	}
}

func look(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(runtime.Error); !ok {
				panic(r)
			}
		}
	}()
	f()
}
