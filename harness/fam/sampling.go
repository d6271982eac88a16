package fam

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/sampling"

	"verif/harness/core"
)

// Occurrence x is offered as the item mk(x).
type smpDom[T any] struct {
	name  string
	mk    func(x int) T
	id    func(v T) int
	serde common.ItemSketchSerde[T]
}

type sumT = sampling.SampleSubsetSummary

type rsSk interface {
	k() int
	n() int64
	num() int
	ids() []int
	upd(x int) error
	reset()
	copy() rsSk
	scribble()
	est(set map[int]bool) (sumT, error)
	image() ([]byte, error)
	str() string
	mergeVo(u voUn) error
}
type rsUn interface {
	mk() int
	upd(x int) error
	merge(s rsSk) error
	raw(n int64, k int, xs []int) error
	result() (rsSk, error) // nil when there is none
	reset()
	image() ([]byte, error)
	str() string
}
type voSk interface {
	k() int
	n() int64
	h() int
	r() int
	num() int
	empty() bool
	all() ([]int, []float64)
	upd(x int, w float64) error
	reset()
	est(set map[int]bool) (sumT, error)
	image(w io.Writer) error
	size() int
	str() string
}
type voUn interface {
	merge(s voSk) error
	result() (voSk, error)
	reset()
	image(w io.Writer) error
	str() string
}

// smpLib makes the library's objects for one item type.
type smpLib interface {
	tname() string
	newR(k int, rf sampling.ResizeFactor) (rsSk, error)
	newRU(mk int) (rsUn, error)
	restR(img []byte) (rsSk, error)
	restRU(img []byte) (rsUn, error)
	newV(k uint, rf sampling.ResizeFactor) (voSk, error)
	newVU(mk uint) (voUn, error)
	restV(img []byte) (voSk, error)
	restVU(img []byte) (voUn, error)
	items(img []byte, n int) []int
}

type rsS[T any] struct {
	d *smpDom[T]
	s *sampling.ReservoirItemsSketch[T]
}

func (o *rsS[T]) k() int   { return o.s.K() }
func (o *rsS[T]) n() int64 { return o.s.N() }
func (o *rsS[T]) num() int { return o.s.NumSamples() }
func (o *rsS[T]) ids() []int {
	out := []int{}
	for _, v := range o.s.Samples() {
		out = append(out, o.d.id(v))
	}
	sort.Ints(out)
	return out
}
func (o *rsS[T]) upd(x int) error { return o.s.Update(o.d.mk(x)) }
func (o *rsS[T]) reset()          { o.s.Reset() }
func (o *rsS[T]) copy() rsSk      { return &rsS[T]{o.d, o.s.Copy()} }
func (o *rsS[T]) str() string     { return o.s.String() }
func (o *rsS[T]) scribble() {
	xs := o.s.Samples()
	for i := range xs {
		xs[i] = o.d.mk(0)
	}
	_ = append(xs, o.d.mk(0))
}
func (o *rsS[T]) est(set map[int]bool) (sumT, error) {
	return o.s.EstimateSubsetSum(func(v T) bool { return set[o.d.id(v)] })
}
func (o *rsS[T]) image() ([]byte, error) { return o.s.ToSlice(o.d.serde) }
func (o *rsS[T]) mergeVo(u voUn) error   { return u.(*voU[T]).u.UpdateReservoirItemsSketch(o.s) }

type rsU[T any] struct {
	d *smpDom[T]
	u *sampling.ReservoirItemsUnion[T]
}

func (o *rsU[T]) mk() int         { return o.u.MaxK() }
func (o *rsU[T]) upd(x int) error { return o.u.Update(o.d.mk(x)) }
func (o *rsU[T]) merge(s rsSk) error {
	if s == nil {
		return o.u.UpdateSketch(nil)
	}
	return o.u.UpdateSketch(s.(*rsS[T]).s)
}
func (o *rsU[T]) raw(n int64, k int, xs []int) error {
	vs := make([]T, len(xs))
	for i, x := range xs {
		vs[i] = o.d.mk(x)
	}
	return o.u.UpdateFromRaw(n, k, vs)
}
func (o *rsU[T]) result() (rsSk, error) {
	s, err := o.u.Result()
	if err != nil || s == nil {
		return nil, err
	}
	return &rsS[T]{o.d, s}, nil
}
func (o *rsU[T]) reset()                 { o.u.Reset() }
func (o *rsU[T]) image() ([]byte, error) { return o.u.ToSlice(o.d.serde) }
func (o *rsU[T]) str() string            { return o.u.String() }

type voS[T any] struct {
	d *smpDom[T]
	s *sampling.VarOptItemsSketch[T]
}

func (o *voS[T]) k() int      { return o.s.K() }
func (o *voS[T]) n() int64    { return o.s.N() }
func (o *voS[T]) h() int      { return o.s.H() }
func (o *voS[T]) r() int      { return o.s.R() }
func (o *voS[T]) num() int    { return o.s.NumSamples() }
func (o *voS[T]) empty() bool { return o.s.IsEmpty() }
func (o *voS[T]) str() string { return o.s.String() }
func (o *voS[T]) all() ([]int, []float64) {
	ids, ws := []int{}, []float64{}
	for x := range o.s.All() {
		ids = append(ids, o.d.id(x.Item))
		ws = append(ws, x.Weight)
	}
	i := 0
	for range o.s.All() { // an iteration may stop early
		if i++; i > o.s.H() {
			break
		}
	}
	return ids, ws
}
func (o *voS[T]) upd(x int, w float64) error { return o.s.Update(o.d.mk(x), w) }
func (o *voS[T]) reset()                     { o.s.Reset() }
func (o *voS[T]) est(set map[int]bool) (sumT, error) {
	return o.s.EstimateSubsetSum(func(v T) bool { return set == nil || set[o.d.id(v)] })
}
func (o *voS[T]) image(w io.Writer) error {
	e := sampling.NewVarOptItemsSketchEncoder[T](w, o.d.serde)
	return e.Encode(o.s)
}
func (o *voS[T]) size() int { return o.s.SerializedSizeBytes(o.d.serde) }

type voU[T any] struct {
	d *smpDom[T]
	u *sampling.VarOptItemsUnion[T]
}

func (o *voU[T]) merge(s voSk) error {
	if s == nil {
		return o.u.Update(nil)
	}
	return o.u.Update(s.(*voS[T]).s)
}
func (o *voU[T]) result() (voSk, error) {
	s, err := o.u.Result()
	if err != nil {
		return nil, err
	}
	return &voS[T]{o.d, s}, nil
}
func (o *voU[T]) reset() { o.u.Reset() }
func (o *voU[T]) image(w io.Writer) error {
	e := sampling.NewVarOptItemsUnionEncoder[T](w, o.d.serde)
	return e.Encode(o.u)
}
func (o *voU[T]) str() string { return o.u.String() }

func (d *smpDom[T]) tname() string { return d.name }
func (d *smpDom[T]) newR(k int, rf sampling.ResizeFactor) (rsSk, error) {
	s, err := sampling.NewReservoirItemsSketch[T](k, sampling.WithReservoirItemsSketchResizeFactor(rf))
	return &rsS[T]{d, s}, err
}
func (d *smpDom[T]) newRU(mk int) (rsUn, error) {
	u, err := sampling.NewReservoirItemsUnion[T](mk)
	return &rsU[T]{d, u}, err
}
func (d *smpDom[T]) restR(img []byte) (rsSk, error) {
	s, err := sampling.NewReservoirItemsSketchFromSlice[T](img, d.serde)
	return &rsS[T]{d, s}, err
}
func (d *smpDom[T]) restRU(img []byte) (rsUn, error) {
	u, err := sampling.NewReservoirItemsUnionFromSlice[T](img, d.serde)
	return &rsU[T]{d, u}, err
}
func (d *smpDom[T]) newV(k uint, rf sampling.ResizeFactor) (voSk, error) {
	s, err := sampling.NewVarOptItemsSketch[T](k, sampling.WithResizeFactor(rf))
	return &voS[T]{d, s}, err
}
func (d *smpDom[T]) newVU(mk uint) (voUn, error) {
	u, err := sampling.NewVarOptItemsUnion[T](mk)
	return &voU[T]{d, u}, err
}
func (d *smpDom[T]) restV(img []byte) (voSk, error) {
	s, err := sampling.DecodeVarOptItemsSketch[T](img, d.serde)
	return &voS[T]{d, s}, err
}
func (d *smpDom[T]) restVU(img []byte) (voUn, error) {
	u, err := sampling.DecodeVarOptItemsUnion[T](img, d.serde)
	return &voU[T]{d, u}, err
}

// items reads what the published layout says follows the preamble.
func (d *smpDom[T]) items(b []byte, n int) []int {
	out := []int{}
	for i := 0; i < n; i++ {
		var v any
		switch any(*new(T)).(type) {
		case int64:
			v, b = int64(binary.LittleEndian.Uint64(b)), b[8:]
		case float64:
			v, b = math.Float64frombits(binary.LittleEndian.Uint64(b)), b[8:]
		case string:
			l := binary.LittleEndian.Uint32(b)
			v, b = string(b[4:4+l]), b[4+l:]
		}
		out = append(out, d.id(v.(T)))
	}
	if len(b) != 0 {
		panic("bytes after the items")
	}
	return out
}

func smpLibs() []smpLib {
	return []smpLib{
		&smpDom[int64]{"int64", func(x int) int64 { return int64(x)*0x10000001 - 5 }, func(v int64) int { return int((v + 5) / 0x10000001) }, common.ItemSketchLongSerDe{}},
		&smpDom[float64]{"float64", func(x int) float64 { return float64(x) * 1.5 }, func(v float64) int { return int(v / 1.5) }, common.ItemSketchDoubleSerDe{}},
		&smpDom[string]{"string", func(x int) string {
			if x == 1 {
				return ""
			}
			return fmt.Sprint(pad[x%7], x)
		}, func(v string) int {
			if v == "" {
				return 1
			}
			i := len(v)
			for i > 0 && v[i-1] >= '0' && v[i-1] <= '9' {
				i--
			}
			x, _ := strconv.Atoi(v[i:])
			return x
		}, common.ItemSketchStringSerDe{}},
	}
}

var pad = []string{"", "a", "é", "日本", "long padding of the item ", "\x00", "z-"}

func idsAny(bag []int) []any { return ints(bag) }

// ---------------------------------------------------------------- reservoirs

type rsObj struct{ s rsSk }

func (o *rsObj) Show()  { _ = o.s.str() }
func (o *rsuObj) Show() { _ = o.u.str() }
func (o *rsObj) Project() Ev {
	ids := o.s.ids()
	if len(ids) != o.s.num() {
		panic("number of samples")
	}
	return Ev{"k": o.s.k(), "n": o.s.n(), "s": ints(ids)}
}

type rsuObj struct{ u rsUn }

func (o *rsuObj) Project() Ev {
	g := Ev{"k": 0, "n": 0, "s": []any{}}
	s, err := o.u.result()
	if err != nil {
		panic(err)
	}
	if s != nil {
		g = (&rsObj{s}).Project()
	}
	return Ev{"mk": o.u.mk(), "g": g}
}

type rsDrv struct {
	*Scn
	cfg  *Cfg
	lib  smpLib
	next int
	keep int
	x    int // last occurrence offered
	rfs  []sampling.ResizeFactor
}

func newRsDrv(s *Scn, cfg *Cfg) *rsDrv {
	return &rsDrv{Scn: s, cfg: cfg, lib: pick(s.Rng, smpLibs()...), next: 1,
		rfs: []sampling.ResizeFactor{sampling.ResizeX1, sampling.ResizeX2, sampling.ResizeX4, sampling.ResizeX8}}
}
func (d *rsDrv) fresh() int { d.next++; return d.next - 1 }
func (d *rsDrv) slot() int {
	hs := []int{}
	for _, h := range d.Handles() {
		if h >= d.keep {
			hs = append(hs, h)
		}
	}
	if len(hs) >= 6 {
		d.drop(hs[d.Rng.Intn(len(hs))])
	}
	return d.fresh()
}
func (d *rsDrv) drop(h int) {
	d.Drop(h)
	d.Do("drop", 0, Ev{"d": h}, func(ev Ev) error { return nil })
}
func (d *rsDrv) sk(h int) rsSk { return d.Get(h).(*rsObj).s }
func (d *rsDrv) un(h int) rsUn { return d.Get(h).(*rsuObj).u }
func (d *rsDrv) isU(h int) bool {
	_, ok := d.Get(h).(*rsuObj)
	return ok
}

func (d *rsDrv) newr(h, k int) {
	d.Do("newr", h, Ev{"k": k}, func(ev Ev) error {
		s, err := d.lib.newR(k, pick(d.Rng, d.rfs...))
		if err == nil {
			d.Put(h, &rsObj{s})
		}
		return err
	})
}
func (d *rsDrv) newu(h, mk int) {
	d.Do("newu", h, Ev{"mk": mk}, func(ev Ev) error {
		u, err := d.lib.newRU(mk)
		if err == nil {
			d.Put(h, &rsuObj{u})
		}
		return err
	})
}

// newbad: sizes that are none, items and sketches that are none.
func (d *rsDrv) newbad() {
	d.Do("newbad", 0, Ev{}, func(ev Ev) error {
		acc := []any{}
		for _, k := range []int{1, 0, -1, math.MinInt32} {
			if _, err := d.lib.newR(k, sampling.ResizeX8); err == nil {
				acc = append(acc, fmt.Sprint("k=", k))
			}
			if u, err := d.lib.newRU(k); err == nil {
				if u.upd(1) == nil {
					acc = append(acc, fmt.Sprint("union of k=", k))
				}
			}
		}
		ev["acc"] = acc
		p, err := sampling.NewReservoirItemsSketch[*int](3)
		if err != nil {
			return err
		}
		if err := p.Update(nil); err != nil {
			return err
		}
		u, err := sampling.NewReservoirItemsUnion[*int](3)
		if err != nil {
			return err
		}
		if err := u.Update(nil); err != nil {
			return err
		}
		if err := u.UpdateSketch(nil); err != nil {
			return err
		}
		u.Reset()
		r, err := u.Result()
		if err != nil {
			return err
		}
		ev["nils"] = p.N() + int64(p.NumSamples())
		if r != nil {
			ev["nils"] = r.N() + int64(r.NumSamples()) + p.N()
		}
		return nil
	})
}
func (d *rsDrv) upd(h, b int) {
	lo := d.x + 1
	d.x += b
	d.Do("upd", h, Ev{"lo": lo, "hi": d.x}, func(ev Ev) error {
		for x := lo; x <= d.x; x++ {
			var err error
			if d.isU(h) {
				err = d.un(h).upd(x)
			} else {
				err = d.sk(h).upd(x)
			}
			if err != nil {
				return err
			}
		}
		return nil
	})
}
func (d *rsDrv) reset(h int) {
	d.Do("reset", h, Ev{}, func(ev Ev) error {
		if d.isU(h) {
			d.un(h).reset()
		} else {
			d.sk(h).reset()
		}
		return nil
	})
}
func (d *rsDrv) copy(g, h int) {
	d.Do("copy", g, Ev{"src": h}, func(ev Ev) error {
		d.Put(g, &rsObj{d.sk(h).copy()})
		return nil
	})
}
func (d *rsDrv) samples(h int) {
	d.Do("samples", h, Ev{}, func(ev Ev) error {
		d.sk(h).scribble()
		_ = d.sk(h).str()
		return nil
	})
}

func (d *rsDrv) est(h int) {
	r := d.Rng
	s := d.sk(h)
	set := map[int]bool{}
	p := pick(r, 0, .2, .5, .8, 1)
	ids := s.ids()
	for _, x := range ids {
		if _, ok := set[x]; !ok {
			set[x] = r.Float64() < p
		}
	}
	tc := 0
	for _, x := range ids {
		if set[x] {
			tc++
		}
	}
	d.Do("est", h, Ev{"tc": tc}, func(ev Ev) error {
		m, err := s.est(set)
		if err != nil {
			return err
		}
		ev["lb"], ev["e"], ev["ub"], ev["tot"], ev["zero"] = R(m.LowerBound), R(m.Estimate), R(m.UpperBound), R(m.TotalSketchWeight), R(0)
		n := float64(s.n())
		ev["n"], ev["tcr"] = R(n), R(float64(tc))
		f := 1.0
		if len(ids) > 0 {
			f = float64(tc) / float64(len(ids))
			lo, hi := propBounds(len(ids), tc, 2*math.Sqrt(1-float64(len(ids))/n))
			ev["rlb"], ev["rub"] = R(n*lo), R(n*hi)
		} else {
			ev["rlb"], ev["rub"] = R(0), R(0)
		}
		ev["er"] = R(n * f)
		return nil
	})
}

// propBounds gives the published approximate binomial proportion bounds.
func propBounds(n, k int, kappa float64) (float64, float64) {
	erf := func(x float64) float64 { // Abramowitz and Stegun 7.1.28
		s := 1 + x*(0.0705230784+x*(0.0422820123+x*(0.0092705272+x*(0.0001520143+x*(0.0002765672+x*0.0000430638)))))
		return 1 - math.Pow(s, -16)
	}
	delta := .5 * (1 - erf(kappa/math.Sqrt2))
	as := func(a, b, y float64) float64 { // 26.5.22
		l := (y*y - 3) / 6
		h := 2 / (1/(2*a-1) + 1/(2*b-1))
		w := y*math.Sqrt(h+l)/h - (1/(2*b-1)-1/(2*a-1))*(l+5./6-2/(3*h))
		return a / (a + b*math.Exp(2*w))
	}
	N, K := float64(n), float64(k)
	var lo, hi float64
	switch {
	case k == 0:
		lo = 0
	case k == 1:
		lo = 1 - math.Pow(1-delta, 1/N)
	case k == n:
		lo = math.Pow(delta, 1/N)
	default:
		lo = 1 - as(N-K+1, K, -kappa)
	}
	switch {
	case k == n:
		hi = 1
	case k == n-1:
		hi = math.Pow(1-delta, 1/N)
	case k == 0:
		hi = 1 - math.Pow(delta, 1/N)
	default:
		hi = 1 - as(N-K, K+1, kappa)
	}
	return lo, hi
}

func (d *rsDrv) merge(u, h int) {
	d.Do("merge", u, Ev{"src": h}, func(ev Ev) error { return d.un(u).merge(d.sk(h)) })
}
func (d *rsDrv) raw(u int) {
	r := d.Rng
	k := pick(r, 2, 3, 4, 8, 20)
	n := pick(r, 1, 2, k, k+1, 3*k, 100, 1000, 100000)
	num := min(n, k)
	bad := r.Intn(4) == 0
	if bad {
		switch r.Intn(3) {
		case 0:
			num = max(0, min(n, k)-1)
		case 1:
			num = k + 1
		case 2:
			k, num = pick(r, 0, 1, -1), 1
		}
	}
	lo := d.x + 1
	d.x += num
	xs := []int{}
	for x := lo; x <= d.x; x++ {
		xs = append(xs, x)
	}
	d.Do("raw", u, Ev{"lo": lo, "hi": d.x, "n": n, "k": k, "bad": bad}, func(ev Ev) error {
		return d.un(u).raw(int64(n), k, xs)
	})
}
func (d *rsDrv) result(g, u int) {
	d.Do("result", g, Ev{"src": u, "some": false}, func(ev Ev) error {
		s, err := d.un(u).result()
		if err != nil {
			return err
		}
		if s != nil {
			ev["some"] = true
			d.Put(g, &rsObj{s})
		}
		return nil
	})
}
func (d *rsDrv) ser(g, h int) {
	r := d.Rng
	var img []byte
	d.Do("ser", g, Ev{"src": h}, func(ev Ev) error {
		var err error
		b := img
		if d.isU(h) {
			img, err = d.un(h).image()
			b = img
			if err == nil && len(img) > 8 {
				b = img[8:]
			}
		} else {
			img, err = d.sk(h).image()
			b = img
		}
		if err != nil {
			return err
		}
		var two []byte
		if d.isU(h) {
			two, _ = d.un(h).image()
			ev["umk"] = int(binary.LittleEndian.Uint32(img[4:]))
			ev["uhead"] = img[0]&0x3f == 1 && img[1] == 2 && img[2] == 12 && (img[3]&4 != 0) == (len(img) == 8)
		} else {
			two, _ = d.sk(h).image()
		}
		ev["stable"] = bytes.Equal(img, two)
		ev["ik"], ev["in"], ev["is"], ev["head"] = int(binary.LittleEndian.Uint32(b[4:])), 0, []any{}, true
		if len(b) > 8 {
			ev["in"] = int(binary.LittleEndian.Uint64(b[8:]))
			ids := d.lib.items(b[16:], min(ev["ik"].(int), ev["in"].(int)))
			sort.Ints(ids)
			ev["is"] = ints(ids)
			ev["head"] = b[0]&0x3f == 2 && b[1] == 2 && b[2] == 11 && b[3]&4 == 0
		} else if !d.isU(h) {
			ev["head"] = b[0]&0x3f == 1 && b[1] == 2 && b[2] == 11 && b[3]&4 != 0
		}
		in := append(img[:len(img):len(img)], make([]byte, pick(r, 0, 0, 3))...)[:len(img)]
		defer core.Keep(in)()
		if d.isU(h) {
			u, err := d.lib.restRU(in)
			if err != nil {
				return err
			}
			d.Put(g, &rsuObj{u})
		} else {
			s, err := d.lib.restR(in)
			if err != nil {
				return err
			}
			d.Put(g, &rsObj{s})
		}
		img = in
		return nil
	})
	if !d.Dead {
		d.Do("scribble", 0, Ev{}, func(ev Ev) error {
			for i := range img {
				img[i] ^= 0x5A
			}
			return nil
		})
	}
}

// uni: how often each occurrence survives.
func (d *rsDrv) uni() {
	r := d.Rng
	mode := pick(r, "sketch", "sketch", "union", "union", "add", "copy")
	T := 1500
	if mode == "union" {
		T = 6000
	}
	k := pick(r, 2, 3, 5, 8)
	n := k + 1 + r.Intn(3*k)
	mk, k2 := pick(r, 2, 3, 4, 8), pick(r, 2, 3, 5, 8)
	n2 := 1 + r.Intn(4*k2)
	ev := Ev{"mode": mode, "k": k, "n": n, "mk": mk, "k2": k2, "n2": n2, "T": T}
	d.Do("uni", 0, ev, func(ev Ev) error {
		cnt := make([]int, n+n2+1)
		half := 0 // of the samples, how many come from the first half
		half2 := 0
		rk := map[int]bool{}
		for t := 0; t < T; t++ {
			a, err := d.lib.newR(k, pick(r, d.rfs...))
			if err != nil {
				return err
			}
			for x := 1; x <= n; x++ {
				a.upd(x)
				if mode == "copy" && r.Intn(4) == 0 {
					if img, err := a.image(); err == nil && r.Intn(2) == 0 {
						if a, err = d.lib.restR(img); err != nil {
							return err
						}
					} else {
						a = a.copy()
					}
				}
			}
			res := a
			if mode == "union" || mode == "add" {
				u, err := d.lib.newRU(mk)
				if err != nil {
					return err
				}
				b, _ := d.lib.newR(k2, sampling.ResizeX8)
				for x := 1; x <= n2; x++ {
					if mode == "union" {
						b.upd(n + x)
					}
				}
				if mode == "union" {
					u.merge(a)
					u.merge(b)
				} else {
					u.merge(a)
					for x := 1; x <= n2; x++ {
						u.upd(n + x)
					}
				}
				if res, err = u.result(); err != nil {
					return err
				}
			}
			rk[res.k()] = true
			hs := 0
			for _, x := range res.ids() {
				cnt[x]++
				if x <= n/2 {
					hs++
				}
			}
			half += hs
			half2 += hs * hs
		}
		ev["ks"] = ints(sortedKeys(rk))
		N := n
		if mode == "union" || mode == "add" {
			N += n2
		}
		ev["cnt"] = ints(cnt[1 : N+1])
		ev["half"], ev["half2"] = half, half2
		return nil
	})
}

func (d *rsDrv) random(steps int, w map[string]int) {
	r := d.Rng
	d.Begin(Ev{"t": d.lib.tname()})
	ch := newChooser(w)
	ks := func() int { return pick(r, 2, 2, 3, 4, 5, 8, 10, 16, 17, 33, 64, 2+r.Intn(100)) }
	size := func(k int) int { return pick(r, 1, 1, 2, 3, k-1, k, k+1, 2*k, 5*k) }
	find := func(u bool) (int, bool) {
		c := []int{}
		for _, h := range d.Handles() {
			if d.isU(h) == u {
				c = append(c, h)
			}
		}
		if len(c) == 0 {
			return 0, false
		}
		return pick(r, c...), true
	}
	for i := 0; i < steps && !d.Dead; i++ {
		op := ch.next(r)
		h, okh := find(false)
		u, oku := find(true)
		if !okh && op != "newu" && op != "uni" {
			op = "newr"
		}
		if !oku && (op == "merge" || op == "add" || op == "raw" || op == "result" || op == "ureset" || op == "user") {
			op = "newu"
		}
		switch op {
		case "newr":
			g, k := d.slot(), ks()
			d.newr(g, k)
			if !d.Dead && r.Intn(3) > 0 {
				d.upd(g, size(k))
			}
		case "newu":
			d.newu(d.slot(), ks())
		case "newbad":
			d.newbad()
		case "upd":
			d.upd(h, size(d.sk(h).k()))
		case "add":
			d.upd(u, size(d.un(u).mk()))
		case "reset":
			d.reset(h)
		case "ureset":
			d.reset(u)
		case "copy":
			if g := d.slot(); d.Has(h) {
				d.copy(g, h)
			}
		case "samples":
			d.samples(h)
		case "est":
			d.est(h)
		case "merge":
			d.merge(u, h)
		case "raw":
			d.raw(u)
		case "result":
			if g := d.slot(); d.Has(u) {
				d.result(g, u)
			}
		case "ser":
			if g := d.slot(); d.Has(h) {
				d.ser(g, h)
			}
		case "user":
			if g := d.slot(); d.Has(u) {
				d.ser(g, u)
			}
		case "uni":
			d.uni()
		}
	}
}

func (d *rsDrv) script(sc []any) {
	d.Begin(Ev{"t": d.lib.tname()})
	i := func(x any) int { return int(x.(float64)) }
	d.next, d.keep = 20, 20
	for _, st := range sc {
		if d.Dead {
			return
		}
		c := st.([]any)
		h := i(c[1])
		switch op := c[0].(string); op {
		case "newr":
			d.newr(h, i(c[2]))
		case "newu":
			d.newu(h, i(c[2]))
		case "upd":
			d.upd(h, i(c[2]))
			if !d.Dead && d.Rng.Intn(4) == 0 {
				d.est(h)
			}
		case "merge":
			d.merge(h, i(c[2]))
		case "add":
			d.upd(h, 1)
		case "reset", "ureset":
			d.reset(h)
		case "ser", "user":
			d.ser(h, i(c[2]))
		case "result":
			d.result(h, i(c[2]))
		default:
			panic("script op " + op)
		}
	}
}

func rsJobs(cfg *Cfg) []core.Job {
	var jobs []core.Job
	add := func(name string, n, steps int, w map[string]int) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("%s#%d", name, i), Run: func(s *Scn) {
				newRsDrv(s, cfg).random(steps, w)
			}})
		}
	}
	nsc := 400
	if cfg.Tier == "thorough" {
		nsc = 5000
	}
	for i, sc := range cfg.Scripts {
		if i >= nsc {
			break
		}
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("spec#%d", i), Run: func(s *Scn) { newRsDrv(s, cfg).script(sc) }})
	}
	switch cfg.Focus {
	case "C24":
		add("hist", cfg.N(800, 20000), 30, map[string]int{"newr": 8, "newu": 4, "newbad": 1, "upd": 20, "add": 8, "reset": 3, "ureset": 2, "copy": 4, "samples": 3, "est": 12, "merge": 24, "raw": 8, "result": 10, "ser": 2, "user": 2})
		add("uniform", cfg.N(160, 3000), 1, map[string]int{"uni": 1})
	case "C27":
		add("images", cfg.N(500, 12000), 26, map[string]int{"newr": 6, "newu": 4, "upd": 16, "add": 8, "reset": 2, "ureset": 2, "copy": 2, "est": 4, "merge": 16, "raw": 6, "result": 6, "ser": 16, "user": 16})
	case "C30":
		add("iso", cfg.N(100, 3000), 26, map[string]int{"newr": 6, "newu": 4, "upd": 16, "add": 8, "reset": 4, "ureset": 4, "copy": 8, "samples": 6, "est": 4, "merge": 20, "result": 10, "ser": 6, "user": 6})
	}
	return jobs
}
