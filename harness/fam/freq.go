package fam

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/frequencies"

	"verif/harness/core"
)

type fqRow struct {
	x           int
	est, lb, ub int64
}

// fqSk hides the two kinds of sketch; items are codes 1..P.
type fqSk interface {
	upd(x int, c int64) error
	upd1(x int) error
	ask(x int) (est, lb, ub int64, err error)
	rows(thr int64, nfn, plain bool) ([]fqRow, error)
	merge(o fqSk) (bool, error)
	mergeNil() (bool, error)
	slice() ([]byte, error)
	restore(img []byte) (fqSk, error)
	text() (string, error)
	restoreText(s string) (fqSk, error)
	size() int
	reset() error
	meta() (w, off int64, act, cap, cur int, empty bool)
}

// ---- longs

type fqLongs struct {
	s *frequencies.LongsSketch
	u *fqUni[int64]
}

func (o *fqLongs) show() {
	words(o.s)
	if _, err := o.s.ToString(); err != nil {
		panic(err)
	}
	rows, err := o.s.GetFrequentItems(frequencies.ErrorTypeEnum.NoFalseNegatives)
	if err != nil {
		panic(err)
	}
	for _, r := range rows {
		words(r)
	}
}

func (o *fqItems[C]) show() {
	words(o.s)
	if _, err := o.s.ToString(); err != nil {
		panic(err)
	}
	rows, err := o.s.GetFrequentItems(frequencies.ErrorTypeEnum.NoFalseNegatives)
	if err != nil {
		panic(err)
	}
	for _, r := range rows {
		words(r)
	}
}

// fqUni is a universe of items.
type fqUni[C comparable] struct {
	keys  []C
	idx   map[C]int
	hash  common.ItemSketchHasher[C]
	serde common.ItemSketchSerde[C]
}

func newFqUni[C comparable](keys []C, h common.ItemSketchHasher[C], sd common.ItemSketchSerde[C]) *fqUni[C] {
	u := &fqUni[C]{keys: keys, idx: map[C]int{}, hash: h, serde: sd}
	for i, k := range keys {
		if _, dup := u.idx[k]; dup {
			panic("duplicate item")
		}
		u.idx[k] = i + 1
	}
	return u
}

func (f *fqLongs) upd(x int, c int64) error { return f.s.UpdateMany(f.u.keys[x-1], c) }
func (f *fqLongs) upd1(x int) error         { return f.s.Update(f.u.keys[x-1]) }
func (f *fqLongs) ask(x int) (est, lb, ub int64, err error) {
	k := f.u.keys[x-1]
	if est, err = f.s.GetEstimate(k); err != nil {
		return
	}
	if lb, err = f.s.GetLowerBound(k); err != nil {
		return
	}
	ub, err = f.s.GetUpperBound(k)
	return
}
func (f *fqLongs) rows(thr int64, nfn, plain bool) ([]fqRow, error) {
	et := frequencies.ErrorTypeEnum.NoFalsePositives
	if nfn {
		et = frequencies.ErrorTypeEnum.NoFalseNegatives
	}
	rs, err := f.s.GetFrequentItemsWithThreshold(thr, et)
	if plain {
		rs, err = f.s.GetFrequentItems(et)
	}
	if err != nil {
		return nil, err
	}
	out := []fqRow{}
	for _, r := range rs {
		out = append(out, fqRow{f.u.idx[r.GetItem()], r.GetEstimate(), r.GetLowerBound(), r.GetUpperBound()})
	}
	return out, nil
}
func (f *fqLongs) merge(o fqSk) (bool, error) {
	r, err := f.s.Merge(o.(*fqLongs).s)
	return r == f.s, err
}
func (f *fqLongs) mergeNil() (bool, error) {
	r, err := f.s.Merge(nil)
	return r == f.s, err
}
func (f *fqLongs) slice() ([]byte, error) { return f.s.ToSlice(), nil }
func (f *fqLongs) restore(img []byte) (fqSk, error) {
	s, err := frequencies.NewLongsSketchFromSlice(img)
	if err != nil {
		return nil, err
	}
	return &fqLongs{s, f.u}, nil
}
func (f *fqLongs) text() (string, error) { return f.s.ToString() }
func (f *fqLongs) restoreText(x string) (fqSk, error) {
	s, err := frequencies.NewLongsSketchFromString(x)
	if err != nil {
		return nil, err
	}
	return &fqLongs{s, f.u}, nil
}
func (f *fqLongs) size() int    { return f.s.GetStorageBytes() }
func (f *fqLongs) reset() error { f.s.Reset(); return nil }
func (f *fqLongs) meta() (int64, int64, int, int, int, bool) {
	s := f.s
	return s.GetStreamLength(), s.GetMaximumError(), s.GetNumActiveItems(), s.GetMaximumMapCapacity(), s.GetCurrentMapCapacity(), s.IsEmpty()
}

// ---- items

type fqItems[C comparable] struct {
	s *frequencies.ItemsSketch[C]
	u *fqUni[C]
}

func (f *fqItems[C]) upd(x int, c int64) error { return f.s.UpdateMany(f.u.keys[x-1], c) }
func (f *fqItems[C]) upd1(x int) error         { return f.s.Update(f.u.keys[x-1]) }
func (f *fqItems[C]) ask(x int) (est, lb, ub int64, err error) {
	k := f.u.keys[x-1]
	if est, err = f.s.GetEstimate(k); err != nil {
		return
	}
	if lb, err = f.s.GetLowerBound(k); err != nil {
		return
	}
	ub, err = f.s.GetUpperBound(k)
	return
}
func (f *fqItems[C]) rows(thr int64, nfn, plain bool) ([]fqRow, error) {
	et := frequencies.ErrorTypeEnum.NoFalsePositives
	if nfn {
		et = frequencies.ErrorTypeEnum.NoFalseNegatives
	}
	rs, err := f.s.GetFrequentItemsWithThreshold(thr, et)
	if plain {
		rs, err = f.s.GetFrequentItems(et)
	}
	if err != nil {
		return nil, err
	}
	out := []fqRow{}
	for _, r := range rs {
		out = append(out, fqRow{f.u.idx[r.GetItem()], r.GetEstimate(), r.GetLowerBound(), r.GetUpperBound()})
	}
	return out, nil
}
func (f *fqItems[C]) merge(o fqSk) (bool, error) {
	r, err := f.s.Merge(o.(*fqItems[C]).s)
	return r == f.s, err
}
func (f *fqItems[C]) mergeNil() (bool, error) {
	r, err := f.s.Merge(nil)
	return r == f.s, err
}
func (f *fqItems[C]) slice() ([]byte, error) { return f.s.ToSlice() }
func (f *fqItems[C]) restore(img []byte) (fqSk, error) {
	s, err := frequencies.NewFrequencyItemsSketchFromSlice[C](img, f.u.hash, f.u.serde)
	if err != nil {
		return nil, err
	}
	return &fqItems[C]{s, f.u}, nil
}
func (f *fqItems[C]) text() (string, error)            { return f.s.ToString() }
func (f *fqItems[C]) restoreText(string) (fqSk, error) { return nil, nil }
func (f *fqItems[C]) size() int                        { return -1 }
func (f *fqItems[C]) reset() error                     { return f.s.Reset() }
func (f *fqItems[C]) meta() (int64, int64, int, int, int, bool) {
	s := f.s
	return s.GetStreamLength(), s.GetMaximumError(), s.GetNumActiveItems(), s.GetMaximumMapCapacity(), s.GetCurrentMapCapacity(), s.IsEmpty()
}

// fqWeakHash keeps few bits of a good hash, so that items collide.
type fqWeakHash[C comparable] struct {
	in   common.ItemSketchHasher[C]
	mask uint64
	add  uint64
}

func (h fqWeakHash[C]) Hash(x C) uint64 { return h.in.Hash(x)&h.mask + h.add }

type fqObj struct {
	f fqSk
	d *fqDrv
}

func (d *fqDrv) sc(v int64) int64 {
	if v%d.factor != 0 {
		return -7
	}
	return v / d.factor
}

func (o *fqObj) Show() {
	if s, ok := o.f.(interface{ show() }); ok {
		s.show()
	}
}
func (o *fqObj) Project() Ev {
	d := o.d
	w, off, act, cp, cur, empty := o.f.meta()
	cs := make([]any, d.P)
	for i := range cs {
		cs[i] = 0
	}
	rs, err := o.f.rows(0, true, false)
	if err != nil {
		panic(err)
	}
	for _, r := range rs {
		if r.x == 0 || cs[r.x-1] != 0 {
			panic("unknown or repeated item")
		}
		cs[r.x-1] = d.sc(r.lb)
	}
	return Ev{"w": d.sc(w), "off": d.sc(off), "act": act, "cap": cp, "cur": cur, "empty": empty, "cs": cs}
}

type fqDrv struct {
	*Scn
	cfg    *Cfg
	next   int
	keep   int
	P      int
	offer  int // items beyond are never offered
	factor int64
	cmax   int64
	top    int64
	lgs    []int
	mk     func(lgMax, lgCur int, plain bool) (fqSk, error)
	hot    int
	kind   string
}

func newFqDrv(s *Scn, cfg *Cfg, P int, lgs []int) *fqDrv {
	r := s.Rng
	d := &fqDrv{Scn: s, cfg: cfg, next: 1, P: P, lgs: lgs, top: 1 << 20}
	d.offer = P - P/5
	d.factor = pick(r, int64(1), 1, 1, 1000, 1<<20, 1<<40)
	d.cmax = pick(r, int64(1), 2, 5, 100, 5000)
	d.kind = pick(r, "longs", "longs", "longs-bad", "ilong", "istr", "idbl", "iweak")
	longs := func() []int64 {
		seen := map[int64]bool{}
		out := []int64{}
		put := func(k int64) {
			if len(out) < P && !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
		base := pick(r, int64(0), -20, 1<<40, math.MinInt64+1)
		if r.Intn(2) == 0 {
			for _, k := range []int64{0, -1, math.MaxInt64, math.MinInt64, 1} {
				put(k)
			}
		}
		for i := 0; len(out) < P; i++ {
			switch r.Intn(3) {
			case 0:
				put(int64(r.Uint64()))
			default:
				put(base + int64(i))
			}
		}
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		return out
	}
	switch d.kind {
	case "longs", "longs-bad":
		ks := longs()
		if d.kind == "longs-bad" {
			// all in one or two places of any table
			lo := []uint64{r.Uint64() & 0xfffff, r.Uint64() & 0xfffff, 0xfffff}
			seen := map[int64]bool{}
			for i := range ks {
				for {
					k := int64(unfmix(r.Uint64()<<20 | lo[r.Intn(3)]))
					if !seen[k] {
						seen[k] = true
						ks[i] = k
						break
					}
				}
			}
		}
		u := newFqUni(ks, nil, nil)
		d.mk = func(a, b int, plain bool) (fqSk, error) {
			s, err := frequencies.NewLongsSketch(a, b)
			if plain {
				s, err = frequencies.NewLongsSketchWithMaxMapSize(1 << a)
			}
			return &fqLongs{s, u}, err
		}
	case "ilong", "iweak":
		var h common.ItemSketchHasher[int64] = common.ItemSketchLongHasher{}
		if d.kind == "iweak" {
			h = fqWeakHash[int64]{h, pick(r, uint64(0), 1, 3, 7), r.Uint64()}
		}
		d.mk = fqMk(newFqUni(longs(), h, common.ItemSketchSerde[int64](common.ItemSketchLongSerDe{})))
	case "idbl":
		ks := []float64{}
		seen := map[float64]bool{}
		for len(ks) < P {
			x := pick(r, r.NormFloat64(), float64(r.Intn(100)), 5e-324, math.MaxFloat64, math.Inf(1), math.Inf(-1), -1.5, math.Ldexp(r.Float64(), -300))
			if !seen[x] {
				seen[x] = true
				ks = append(ks, x)
			}
		}
		d.mk = fqMk(newFqUni(ks, common.ItemSketchHasher[float64](common.ItemSketchDoubleHasher{}), common.ItemSketchSerde[float64](common.ItemSketchDoubleSerDe{})))
	case "istr":
		ks := []string{}
		seen := map[string]bool{}
		for i := 0; len(ks) < P; i++ {
			x := pick(r, "", "a", "\x00", "é", "日本", "日本語", strings.Repeat("x", r.Intn(300)), fmt.Sprint("k", i), string(rune(0x1F600+i)), fmt.Sprint(r.Int63()))
			if !seen[x] {
				seen[x] = true
				ks = append(ks, x)
			}
		}
		d.mk = fqMk(newFqUni(ks, common.ItemSketchHasher[string](common.ItemSketchStringHasher{}), common.ItemSketchSerde[string](common.ItemSketchStringSerDe{})))
	}
	return d
}

func fqMk[C comparable](u *fqUni[C]) func(int, int, bool) (fqSk, error) {
	return func(a, b int, plain bool) (fqSk, error) {
		s, err := frequencies.NewFrequencyItemsSketch[C](a, b, u.hash, u.serde)
		if plain {
			s, err = frequencies.NewFrequencyItemsSketchWithMaxMapSize[C](1<<a, u.hash, u.serde)
		}
		return &fqItems[C]{s, u}, err
	}
}

func (d *fqDrv) fresh() int { d.next++; return d.next - 1 }
func (d *fqDrv) slot() int {
	hs := []int{}
	for _, h := range d.Handles() {
		if h >= d.keep {
			hs = append(hs, h)
		}
	}
	if len(hs) >= 4 {
		d.drop(hs[d.Rng.Intn(len(hs))])
	}
	return d.fresh()
}

func (d *fqDrv) drop(h int) {
	d.Drop(h)
	d.Do("drop", 0, Ev{"d": h}, func(ev Ev) error { return nil })
}

func (d *fqDrv) newf(h, lg int) {
	r := d.Rng
	lgc := pick(r, 0, 3, lg)
	if lg < lgc {
		lgc = max(lg, 3)
	}
	if lg > 3 && r.Intn(3) == 0 {
		lgc = 3 + r.Intn(lg-2)
	}
	plain := r.Intn(4) == 0
	d.Do("newf", h, Ev{"lg": max(lg, 3), "P": d.P, "lgarg": lg, "lgcur": lgc, "kind": d.kind}, func(ev Ev) error {
		f, err := d.mk(lg, lgc, plain)
		if err == nil {
			d.Put(h, &fqObj{f, d})
		}
		return err
	})
}

func (d *fqDrv) f(h int) fqSk { return d.Get(h).(*fqObj).f }

func (d *fqDrv) item() int {
	r := d.Rng
	n := d.offer
	switch d.hot {
	case 1:
		return 1 + min(r.Intn(n), r.Intn(n), r.Intn(n))
	case 2:
		return 1 + r.Intn(min(n, 3))
	case 3:
		return n - r.Intn(min(n, 8))
	}
	return 1 + r.Intn(n)
}

type fqPair struct {
	x int
	c int64
}

func (d *fqDrv) pair() fqPair {
	r := d.Rng
	c := int64(1)
	switch r.Intn(4) {
	case 0:
		c = 1 + r.Int63n(d.cmax)
	case 1:
		c = d.cmax
	}
	return fqPair{d.item(), c}
}

func (d *fqDrv) upd(h int, ps []fqPair) {
	f := d.f(h)
	xs := []any{}
	for _, p := range ps {
		xs = append(xs, []any{p.x, p.c})
	}
	d.Do("upd", h, Ev{"xs": xs}, func(ev Ev) error {
		for _, p := range ps {
			var err error
			if p.c == 1 && d.factor == 1 {
				err = f.upd1(p.x)
			} else {
				err = f.upd(p.x, p.c*d.factor)
			}
			if err != nil {
				return err
			}
		}
		return nil
	})
}

func (d *fqDrv) bad(h int) {
	f := d.f(h)
	x := 1 + d.Rng.Intn(d.P)
	d.Do("bad", h, Ev{}, func(ev Ev) error {
		acc := []any{}
		for _, c := range []int64{-1, -d.factor, math.MinInt64} {
			if f.upd(x, c) == nil {
				acc = append(acc, fmt.Sprint("count ", c))
			}
		}
		if err := f.upd(x, 0); err != nil {
			return err
		}
		self, err := f.mergeNil()
		if err != nil || !self {
			acc = append(acc, "merge of nil")
		}
		ev["acc"] = acc
		return nil
	})
}

func (d *fqDrv) merge(h, src int) {
	a, b := d.f(h), d.f(src)
	d.Do("merge", h, Ev{"src": src, "self": false}, func(ev Ev) error {
		self, err := a.merge(b)
		ev["self"] = self
		return err
	})
}

func (d *fqDrv) reset(h int) {
	f := d.f(h)
	d.Do("reset", h, Ev{}, func(ev Ev) error { return f.reset() })
}

func (d *fqDrv) query(h int) {
	f := d.f(h)
	r := d.Rng
	if r.Intn(2) == 0 {
		xs := []int{}
		for i := 0; i < 10; i++ {
			xs = append(xs, 1+r.Intn(d.P))
		}
		d.Do("q", h, Ev{"xs": ints(xs)}, func(ev Ev) error {
			es, ls, us := []any{}, []any{}, []any{}
			for _, x := range xs {
				e, l, u, err := f.ask(x)
				if err != nil {
					return err
				}
				es, ls, us = append(es, d.sc(e)), append(ls, d.sc(l)), append(us, d.sc(u))
			}
			_, off, _, _, _, _ := f.meta()
			ev["est"], ev["lb"], ev["ub"], ev["maxerr"] = es, ls, us, d.sc(off)
			return nil
		})
		return
	}
	_, off, _, _, _, _ := f.meta()
	thr := pick(r, int64(0), -1, 1, 2, d.cmax, d.sc(off), d.sc(off)+1, d.sc(off)-1, -1000)
	if r.Intn(2) == 0 {
		_, l, u, err := f.ask(1 + r.Intn(d.offer))
		if err == nil {
			thr = d.sc(pick(r, l, u)) + int64(r.Intn(3)-1)
		}
	}
	nfn, plain := r.Intn(2) == 0, r.Intn(4) == 0
	if plain {
		thr = 0
	}
	d.Do("fi", h, Ev{"thr": thr, "nfn": nfn, "plain": plain}, func(ev Ev) error {
		rs, err := f.rows(thr*d.factor, nfn, plain)
		if err != nil {
			return err
		}
		xs, es, ls, us := []any{}, []any{}, []any{}, []any{}
		for _, q := range rs {
			xs, es, ls, us = append(xs, q.x), append(es, d.sc(q.est)), append(ls, d.sc(q.lb)), append(us, d.sc(q.ub))
		}
		ev["xs"], ev["est"], ev["lb"], ev["ub"] = xs, es, ls, us
		return nil
	})
}

func (d *fqDrv) eps() {
	r := d.Rng
	sz := 1 << r.Intn(20)
	wt := int64(r.Intn(1 << 20))
	d.Do("eps", 0, Ev{"wt": wt, "size": sz}, func(ev Ev) error {
		long := r.Intn(2) == 0
		var e, a float64
		var err error
		acc := []any{}
		if long {
			e, err = frequencies.GetEpsilonLongsSketch(sz)
		} else {
			e, err = frequencies.GetEpsilonFrequencyItemsSketch(sz)
		}
		if err != nil {
			return err
		}
		if long {
			a, err = frequencies.GetAprioriErrorLongsSketch(sz, wt)
		} else {
			a, err = frequencies.GetAprioriErrorFrequencyItemsSketch(sz, wt)
		}
		if err != nil {
			return err
		}
		bad := pick(r, 0, -4, 3, 12, 1000)
		if _, err := frequencies.GetEpsilonLongsSketch(bad); err == nil {
			acc = append(acc, bad)
		}
		if _, err := frequencies.GetAprioriErrorFrequencyItemsSketch(bad, 1); err == nil {
			acc = append(acc, bad)
		}
		ev["e2"], ev["a2"], ev["acc"] = int64(math.Round(2*e*float64(sz))), int64(math.Round(2*a*float64(sz))), acc
		return nil
	})
}

func (d *fqDrv) ser(g, src int) {
	f := d.f(src)
	if d.Rng.Intn(3) == 0 {
		if _, ok := f.(*fqLongs); ok {
			d.Do("str", g, Ev{"src": src, "stable": true, "size": 0, "len": 0}, func(ev Ev) error {
				a, err := f.text()
				if err != nil {
					return err
				}
				b, _ := f.text()
				ev["stable"] = a == b
				s, err := f.restoreText(a)
				if err != nil {
					return err
				}
				d.Put(g, &fqObj{s, d})
				return nil
			})
			return
		}
	}
	var img []byte
	d.Do("ser", g, Ev{"src": src, "stable": true, "size": 0, "len": 0}, func(ev Ev) error {
		var err error
		if img, err = f.slice(); err != nil {
			return err
		}
		b, _ := f.slice()
		ev["stable"] = bytes.Equal(img, b)
		ev["size"], ev["len"] = f.size(), len(img)
		if f.size() < 0 {
			ev["size"] = len(img)
		}
		defer core.Keep(img)()
		s, err := f.restore(img)
		if err != nil {
			return err
		}
		d.Put(g, &fqObj{s, d})
		return nil
	})
	if !d.Dead {
		d.Do("scribble", 0, Ev{}, func(ev Ev) error {
			for i := range img {
				img[i] ^= 0x5A
			}
			return nil
		})
	}
}

// serTwin restores an image and sends the same updates to both.
func (d *fqDrv) serTwin(a int) {
	r := d.Rng
	g := d.slot()
	if !d.Has(a) {
		return
	}
	d.ser(g, a)
	_, off0, _, _, _, _ := d.f(a).meta()
	for j := r.Intn(4); j > 0 && !d.Dead && d.Has(g); j-- {
		ps := d.batch()
		d.upd(a, ps)
		if !d.Dead {
			d.upd(g, ps)
		}
		if !d.Dead {
			d.Do("twin", 0, Ev{"a": a, "g": g}, func(ev Ev) error {
				x, y := d.Get(a).Project(), d.Get(g).Project()
				delete(x, "cur") // the image of an empty sketch starts small again
				delete(y, "cur")
				_, o1, _, _, _, _ := d.f(a).meta()
				_, o2, _, _, _, _ := d.f(g).meta()
				if o1 != off0 && o2 != off0 { // which count a purge takes depends on the table's layout
					x, y = Ev{}, Ev{}
				}
				ev["same"] = fmt.Sprint(x) == fmt.Sprint(y)
				return nil
			})
		}
	}
}

func (d *fqDrv) batch() []fqPair {
	r := d.Rng
	n := pick(r, 1, 1, 1, 1, 2, 7, d.P/2, d.P)
	if d.P > 1000 {
		n = d.P / 2
	}
	ps := make([]fqPair, max(1, n))
	for i := range ps {
		ps[i] = d.pair()
	}
	return ps
}

func (d *fqDrv) random(steps int, w map[string]int) {
	r := d.Rng
	d.Begin(Ev{})
	ch := newChooser(w)
	d.newf(d.fresh(), pick(r, d.lgs...))
	if r.Intn(3) > 0 {
		d.newf(d.fresh(), pick(r, d.lgs...))
	}
	for i := 0; i < steps && !d.Dead; i++ {
		hs := d.Handles()
		if len(hs) == 0 {
			d.newf(d.slot(), pick(r, d.lgs...))
			continue
		}
		a := pick(r, hs...)
		if wt, _, _, _, _, _ := d.f(a).meta(); wt/d.factor > d.top {
			d.drop(a)
			continue
		}
		if r.Intn(10) == 0 {
			d.hot = r.Intn(4)
		}
		switch ch.next(r) {
		case "newf":
			d.newf(d.slot(), pick(r, d.lgs...))
		case "upd":
			d.upd(a, d.batch())
		case "fill": // distinct items of one weight: a purge empties the map
			c := 1 + r.Int63n(d.cmax)
			for _, x := range r.Perm(d.offer) {
				if d.Dead || r.Intn(d.offer+5) == 0 {
					break
				}
				d.upd(a, []fqPair{{x + 1, c}})
			}
		case "bad":
			d.bad(a)
		case "merge":
			d.merge(a, pick(r, hs...))
		case "reset":
			d.reset(a)
		case "query":
			d.query(a)
		case "eps":
			d.eps()
		case "ser":
			d.serTwin(a)
		}
	}
}

// script replays a behaviour of MC_Freq; an item of the model stands for two.
func (d *fqDrv) script(sc []any) {
	d.Begin(Ev{})
	i := func(x any) int { return int(x.(float64)) }
	d.next, d.keep = 20, 20
	perm := d.Rng.Perm(d.P)
	for _, st := range sc {
		if d.Dead {
			return
		}
		c := st.([]any)
		h := i(c[1])
		switch c[0].(string) {
		case "newf":
			d.newf(h, i(c[2])+1)
		case "upd":
			x := i(c[2])
			d.upd(h, []fqPair{{perm[2*x-2] + 1, int64(i(c[3]))}})
			if !d.Dead {
				d.upd(h, []fqPair{{perm[2*x-1] + 1, int64(i(c[3]))}})
			}
		case "merge":
			d.merge(h, i(c[2]))
		case "reset":
			d.reset(h)
		case "query":
			d.query(h)
		case "ser":
			d.ser(h, i(c[2]))
		default:
			panic("script op " + c[0].(string))
		}
		for _, g := range d.Handles() {
			if w, _, _, _, _, _ := d.f(g).meta(); w/d.factor > d.top*32 {
				return
			}
		}
	}
}

func fqJobs(cfg *Cfg) []core.Job {
	var jobs []core.Job
	mk := func(s *Scn) *fqDrv {
		r := s.Rng
		switch r.Intn(6) {
		case 0:
			return newFqDrv(s, cfg, 12, []int{0, 3})
		case 1:
			return newFqDrv(s, cfg, 20, []int{1, 2, 3})
		case 2:
			return newFqDrv(s, cfg, 30, []int{3, 4})
		case 3:
			return newFqDrv(s, cfg, 60, []int{5})
		case 4:
			return newFqDrv(s, cfg, 40, []int{3, 4, 5})
		}
		return newFqDrv(s, cfg, 15, []int{3})
	}
	add := func(name string, n, steps int, w map[string]int) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("%s#%d", name, i), Run: func(s *Scn) { mk(s).random(steps, w) }})
		}
	}
	nsc := 200
	if cfg.Tier == "thorough" {
		nsc = 4000
	}
	for i, sc := range cfg.Scripts {
		if i >= nsc {
			break
		}
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("spec#%d", i), Run: func(s *Scn) {
			newFqDrv(s, cfg, 12, []int{3}).script(sc)
		}})
	}
	large := func(n int, w map[string]int) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("large#%d", i), Run: func(s *Scn) {
				r := s.Rng
				var d *fqDrv
				switch r.Intn(4) {
				case 0:
					d = newFqDrv(s, cfg, 1300, []int{9, 10})
				case 1:
					d = newFqDrv(s, cfg, 3600, []int{11})
				default:
					d = newFqDrv(s, cfg, 400, []int{7, 8})
				}
				if d.kind == "longs-bad" && d.P > 1000 || d.kind == "iweak" {
					d = newFqDrv(s, cfg, 100, []int{6})
				}
				d.cmax = min(d.cmax, 100)
				d.random(10, w)
			}})
		}
	}
	switch cfg.Focus {
	case "C19":
		w := map[string]int{"newf": 3, "upd": 40, "fill": 3, "merge": 10, "reset": 1, "bad": 1, "query": 16, "ser": 2, "eps": 1}
		add("hist", cfg.N(700, 20000), 30, w)
		large(cfg.N(24, 800), map[string]int{"newf": 1, "upd": 30, "merge": 10, "query": 6, "ser": 2})
	case "C20":
		add("images", cfg.N(700, 20000), 20, map[string]int{"newf": 4, "upd": 24, "fill": 4, "merge": 8, "reset": 2, "query": 2, "ser": 24})
		large(cfg.N(16, 600), map[string]int{"newf": 1, "upd": 20, "merge": 6, "ser": 10})
	case "C30":
		add("iso", cfg.N(120, 3000), 24, map[string]int{"newf": 4, "upd": 20, "merge": 20, "reset": 3, "query": 10, "ser": 8})
	}
	return jobs
}

var _ = rand.Int
var _ = sort.Ints
