// Package core records executions of the real library as ndjson traces that
// the TLA+ trace specifications in /verif/spec check step by step.
//
// A trace is a concatenation of scenarios.  A scenario drives a handful of
// live library objects ("handles").  Every call into the library is one
// event: its name, its abstract arguments, the outcome (ok / error / panic /
// hang), the projected abstract state of the object the call was made on, and
// the list of *other* live objects whose projection changed.
package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ev is one JSON object of the trace.
type Ev = map[string]any

// H is a 64-bit value that only matters through comparisons: it is replaced by
// its rank among all H values of the scenario, 0 for 0 (TLC integers are 32 bit).
type H uint64

// HM is a map keyed by H values; it becomes a JSON object keyed by rank.
type HM map[uint64]any

// X is a float that only matters through exact comparisons inside a scenario.
type X float64

// R is a float that only matters through comparisons inside one event, up to a
// relative tolerance of 1e-9.
type R float64

// Obj is a live library object under observation.
type Obj interface {
	// Project returns the abstract state; it must only use read-only API.
	Project() Ev
}

// Shower is an object that can also describe itself in words.
type Shower interface{ Show() }

// Show makes scenarios print one of their objects now and then.
var Show bool

// Scn is one scenario.
type Scn struct {
	Rng    *rand.Rand
	Name   string
	Idx    int
	evs    []Ev
	objs   map[int]Obj
	dig    map[int]string
	order  []int
	Dead   bool // a panic/hang ended the scenario
	opAt   atomic.Int64
	opName atomic.Value
	mu     sync.Mutex
	closed bool
	// Watch: when false, other objects are not re-projected after each call.
	Watch bool
}

func NewScn(idx int, name string, seed int64) *Scn {
	return &Scn{Rng: rand.New(rand.NewSource(seed)), Name: name, Idx: idx,
		objs: map[int]Obj{}, dig: map[int]string{}, Watch: true}
}

// Begin emits the scenario header.
func (s *Scn) Begin(args Ev) {
	ev := Ev{"op": "begin", "name": s.Name}
	for k, v := range args {
		ev[k] = v
	}
	s.push(ev)
}

func (s *Scn) push(ev Ev) {
	s.mu.Lock()
	if !s.closed {
		s.evs = append(s.evs, ev)
	}
	s.mu.Unlock()
}

// Put registers (or replaces) the object behind handle h without an event.
func (s *Scn) Put(h int, o Obj) {
	if _, ok := s.objs[h]; !ok {
		s.order = append(s.order, h)
		sort.Ints(s.order)
	}
	s.objs[h] = o
}

// Drop forgets the handle.
func (s *Scn) Drop(h int) {
	delete(s.objs, h)
	delete(s.dig, h)
	for i, x := range s.order {
		if x == h {
			s.order = append(s.order[:i:i], s.order[i+1:]...)
			break
		}
	}
}

func (s *Scn) Get(h int) Obj { return s.objs[h] }
func (s *Scn) Has(h int) bool {
	_, ok := s.objs[h]
	return ok
}
func (s *Scn) Handles() []int { return append([]int(nil), s.order...) }

type PanicErr struct {
	Val   any
	Stack string
}

func (p *PanicErr) Error() string { return fmt.Sprintf("panic: %v", p.Val) }

// InputChanged is the panic of a call that wrote to a slice it was lent.
type InputChanged struct{}

func (InputChanged) Error() string { return "the call changed its argument" }

// Keep remembers what xs holds: defer Keep(xs)() before lending it to a call.
func Keep[T comparable](xs []T) func() {
	old := append([]T(nil), xs...)
	return func() {
		for i, x := range xs {
			if x != old[i] && (x == x || old[i] == old[i]) {
				panic(InputChanged{})
			}
		}
	}
}

// Guard runs fn and turns a panic into a *PanicErr.
func Guard(fn func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = &PanicErr{r, string(debug.Stack())}
		}
	}()
	return fn()
}

func digest(v any) string {
	b, err := json.Marshal(rawify(v))
	if err != nil {
		return "ERR " + err.Error()
	}
	return string(b)
}

// rawify makes H/X/R JSON-marshalable verbatim (for digests only).
func rawify(v any) any {
	switch t := v.(type) {
	case Ev:
		m := make(map[string]any, len(t))
		for k, x := range t {
			m[k] = rawify(x)
		}
		return m
	case []any:
		o := make([]any, len(t))
		for i, x := range t {
			o[i] = rawify(x)
		}
		return o
	case []Ev:
		o := make([]any, len(t))
		for i, x := range t {
			o[i] = rawify(x)
		}
		return o
	case H:
		return uint64(t)
	case HM:
		m := make(map[string]any, len(t))
		for k, x := range t {
			m[fmt.Sprint(k)] = rawify(x)
		}
		return m
	case X:
		return fmt.Sprintf("x%016x", math.Float64bits(float64(t)))
	case R:
		return fmt.Sprintf("r%016x", math.Float64bits(float64(t)))
	case []H:
		return []H(t)
	case []X:
		o := make([]any, len(t))
		for i, x := range t {
			o[i] = rawify(x)
		}
		return o
	case []R:
		o := make([]any, len(t))
		for i, x := range t {
			o[i] = rawify(x)
		}
		return o
	}
	return v
}

// Do performs one library call as one event.  h is the handle of the object
// the call is made on (0: none).  fn may add results to ev, and may Put new
// objects.  The event always carries:
//
//	err    0 ok, 1 error returned, 2 panic
//	post   projection of handle h after the call (if it exists)
//	still  whether that is what it was before
//	chg    the other pre-existing handles whose projection changed
func (s *Scn) Do(op string, h int, args Ev, fn func(ev Ev) error) error {
	if s.Dead {
		return fmt.Errorf("scenario is dead")
	}
	ev := Ev{"op": op, "h": h}
	for k, v := range args {
		ev[k] = v
	}
	s.opName.Store(op)
	s.opAt.Store(time.Now().UnixNano())
	err := Guard(func() error { return fn(ev) })
	ev["err"] = 0
	ev["msg"] = ""
	if err != nil {
		ev["err"] = 1
		ev["msg"] = clip(err.Error())
		if pe, ok := err.(*PanicErr); ok {
			ev["err"] = 2
			if _, bad := pe.Val.(InputChanged); bad {
				ev["inok"] = false
			}
			ev["stack"] = clip2(pe.Stack)
			s.Dead = true
		}
	}
	chg := []any{}
	if !s.Dead {
		for _, g := range s.order {
			o := s.objs[g]
			if g != h && !s.Watch {
				continue
			}
			var p Ev
			perr := Guard(func() error { p = o.Project(); return nil })
			if perr != nil {
				ev["err"] = 2
				ev["msg"] = clip("observing: " + perr.Error())
				ev["stack"] = clip2(perr.(*PanicErr).Stack)
				s.Dead = true
				if _, ok := s.dig[g]; ok && g != h {
					chg = append(chg, g) // it could be observed before
				}
				break
			}
			d := digest(p)
			if g == h {
				ev["post"] = p
				ev["still"] = s.dig[g] == d
			} else if old, ok := s.dig[g]; ok && old != d {
				chg = append(chg, g)
			} else if !ok {
				// created by this call under another handle
			}
			s.dig[g] = d
		}
	}
	s.opAt.Store(0)
	ev["chg"] = chg
	if s.Dead {
		delete(ev, "post")
		delete(ev, "still")
		ev["op"] = "crash"
		ev["in"] = op
	}
	s.push(ev)
	if Show && !s.Dead && s.Watch && op != "show" && s.Rng.Intn(5) == 0 {
		for _, g := range s.Rng.Perm(len(s.order)) {
			if o, ok := s.objs[s.order[g]].(Shower); ok {
				s.Do("show", 0, nil, func(Ev) error { o.Show(); return nil })
				break
			}
		}
	}
	return err
}

func clip(x string) string {
	if len(x) > 200 {
		x = x[:200]
	}
	return x
}
func clip2(x string) string {
	// keep the frames that are in the library
	var keep []string
	for _, l := range strings.Split(x, "\n") {
		if strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) >= 4 {
			break
		}
	}
	return strings.Join(keep, " | ")
}

// ---------------------------------------------------------------- ranking

type ranker struct {
	h  map[uint64]int
	hs []uint64
	xs []float64
}

func walk(v any, f func(any)) {
	switch t := v.(type) {
	case Ev:
		for _, x := range t {
			walk(x, f)
		}
	case []any:
		for _, x := range t {
			walk(x, f)
		}
	case []Ev:
		for _, x := range t {
			walk(x, f)
		}
	case HM:
		for k, x := range t {
			f(H(k))
			walk(x, f)
		}
	case []H:
		for _, x := range t {
			f(x)
		}
	case []X:
		for _, x := range t {
			f(x)
		}
	case []R:
		for _, x := range t {
			f(x)
		}
	default:
		f(v)
	}
}

func mapv(v any, f func(any) any) any {
	switch t := v.(type) {
	case Ev:
		m := make(map[string]any, len(t))
		for k, x := range t {
			m[k] = mapv(x, f)
		}
		return m
	case []any:
		o := make([]any, len(t))
		for i, x := range t {
			o[i] = mapv(x, f)
		}
		return o
	case []Ev:
		o := make([]any, len(t))
		for i, x := range t {
			o[i] = mapv(x, f)
		}
		return o
	case HM:
		m := make(map[string]any, len(t))
		for k, x := range t {
			m[fmt.Sprint(f(H(k)))] = mapv(x, f)
		}
		return m
	case []H:
		o := make([]any, len(t))
		for i, x := range t {
			o[i] = f(x)
		}
		return o
	case []X:
		o := make([]any, len(t))
		for i, x := range t {
			o[i] = f(x)
		}
		return o
	case []R:
		o := make([]any, len(t))
		for i, x := range t {
			o[i] = f(x)
		}
		return o
	default:
		return f(v)
	}
}

// Finish rank-compresses the scenario and returns its ndjson lines.
func (s *Scn) Finish() []byte {
	s.mu.Lock()
	s.closed = true
	evs := s.evs
	s.mu.Unlock()
	hset := map[uint64]struct{}{}
	xset := map[float64]struct{}{}
	for _, e := range evs {
		walk(e, func(v any) {
			switch t := v.(type) {
			case H:
				hset[uint64(t)] = struct{}{}
			case X:
				if f := float64(t); f == f {
					xset[f+0] = struct{}{}
				}
			}
		})
	}
	hs := make([]uint64, 0, len(hset))
	for k := range hset {
		hs = append(hs, k)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	hr := make(map[uint64]int, len(hs))
	for i, k := range hs {
		hr[k] = i + 1
	}
	if _, ok := hr[0]; ok { // the value 0 keeps its name
		for k := range hr {
			hr[k]--
		}
	}
	xs := make([]float64, 0, len(xset))
	for k := range xset {
		xs = append(xs, k)
	}
	sort.Float64s(xs)
	xr := make(map[float64]int, len(xs))
	for i, k := range xs {
		xr[k] = i + 1
	}
	var out []byte
	for _, e := range evs {
		// per-event R ranks
		var rs []float64
		walk(e, func(v any) {
			if t, ok := v.(R); ok && !math.IsNaN(float64(t)) {
				rs = append(rs, float64(t))
			}
		})
		sort.Float64s(rs)
		rr := map[float64]int{}
		rank := 0
		var anchor float64
		for i, v := range rs {
			if i == 0 || !Close(anchor, v) {
				rank++
				anchor = v
			}
			rr[v] = rank
		}
		m := mapv(e, func(v any) any {
			switch t := v.(type) {
			case H:
				return hr[uint64(t)]
			case X:
				if math.IsNaN(float64(t)) {
					return -1
				}
				return xr[float64(t)+0]
			case R:
				if math.IsNaN(float64(t)) {
					return -1
				}
				return rr[float64(t)]
			case bool:
				return t
			}
			return v
		}).(map[string]any)
		m["sc"] = s.Idx
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		out = append(out, b...)
		out = append(out, '\n')
	}
	return out
}

// Close says whether two floats are equal up to 1e-9 relative.
func Close(a, b float64) bool {
	if a == b {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	d := math.Abs(a - b)
	return d <= 1e-9*math.Max(math.Abs(a), math.Abs(b)) || d < 1e-300
}

// ---------------------------------------------------------------- running

// Aborted counts scenarios the harness itself could not complete.
var Aborted atomic.Int64

// Job is one scenario to run.
type Job struct {
	Name string
	Run  func(s *Scn)
}

// RunAll executes the jobs on nw workers, writing job i to chunk i % nchunks.
func RunAll(jobs []Job, seed int64, nchunks int, prefix string, opLimit time.Duration) (nev int, err error) {
	type res struct {
		idx int
		b   []byte
	}
	outs := make([][]byte, len(jobs))
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < nchunks; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= len(jobs) {
					return
				}
				s := NewScn(i, jobs[i].Name, seed*1000003+int64(i)*7919+17)
				done := make(chan error, 1)
				go func() {
					done <- Guard(func() error { jobs[i].Run(s); return nil })
				}()
				tick := time.NewTicker(200 * time.Millisecond)
			loop:
				for {
					select {
					case e := <-done:
						if e != nil {
							if Aborted.Load() < 2 {
								fmt.Fprintf(os.Stderr, "harness error in scenario %d (%s): %v\n%s\n", i, jobs[i].Name, e, e.(*PanicErr).Stack)
							}
							Aborted.Add(1)
						}
						break loop
					case <-tick.C:
						at := s.opAt.Load()
						if at != 0 && time.Since(time.Unix(0, at)) > opLimit {
							op, _ := s.opName.Load().(string)
							s.push(Ev{"op": "crash", "in": op, "h": 0, "err": 3, "msg": "call did not return", "stack": "", "chg": []any{}})
							break loop
						}
					}
				}
				tick.Stop()
				outs[i] = s.Finish()
			}
		}()
	}
	wg.Wait()
	// balance chunks by size
	type chunk struct {
		size int
		ids  []int
	}
	cs := make([]chunk, nchunks)
	ord := make([]int, len(jobs))
	for i := range ord {
		ord[i] = i
	}
	sort.SliceStable(ord, func(a, b int) bool { return len(outs[ord[a]]) > len(outs[ord[b]]) })
	for _, i := range ord {
		k := 0
		for c := range cs {
			if cs[c].size < cs[k].size {
				k = c
			}
		}
		cs[k].ids = append(cs[k].ids, i)
		cs[k].size += len(outs[i]) + 1
	}
	for c := range cs {
		sort.Ints(cs[c].ids)
		f, e := os.Create(fmt.Sprintf("%s.%d.ndjson", prefix, c))
		if e != nil {
			return 0, e
		}
		w := bufio.NewWriterSize(f, 1<<20)
		for _, i := range cs[c].ids {
			w.Write(outs[i])
			nev += strings.Count(string(outs[i]), "\n")
		}
		if e := w.Flush(); e != nil {
			return 0, e
		}
		f.Close()
	}
	return nev, nil
}
