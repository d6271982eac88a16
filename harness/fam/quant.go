package fam

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"math/rand"
	"sort"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"

	"verif/harness/core"
)

// Items are codes 1..P in the order of the sketch; a domain maps them to the
// items of the library.
type qDom[T comparable] struct {
	name  string
	vals  []T // vals[code-1]
	code  map[T]int
	less  common.CompareFn[T]
	serde common.ItemSketchSerde[T]
}

func mkDom[T comparable](name string, vals []T, less common.CompareFn[T], serde common.ItemSketchSerde[T]) *qDom[T] {
	sort.SliceStable(vals, func(i, j int) bool { return less(vals[i], vals[j]) })
	d := &qDom[T]{name: name, less: less, serde: serde, code: map[T]int{}}
	for _, v := range vals {
		if _, ok := d.code[v]; ok {
			continue
		}
		d.vals = append(d.vals, v)
		d.code[v] = len(d.vals)
	}
	return d
}

// qSk is what the driver needs of a sketch.
type qSk interface {
	kind() string
	kk() int
	mm() int
	pk() int
	n() uint64
	upd(c int) error
	merge(o qSk) error
	reset()
	levels() map[int][]int // log2 of weight -> codes, sorted
	minmax() (int, int)
	retained() int
	est() bool
	rank(c int, incl bool) (float64, error)
	ranks(cs []int, incl bool) ([]float64, error)
	quantile(r float64, incl bool) (int, error)
	quantiles(rs []float64, incl bool) ([]int, error)
	cdf(cs []int, incl bool) ([]float64, error)
	pmf(cs []int, incl bool) ([]float64, error)
	view() (*qView, error)
	parts(np int, incl bool) ([]int, error) // kll only
	image() ([]byte, int, error)            // kll only: image and declared size
	restore(img []byte) (qSk, error)
	badSplits() [][]int
}

type qView struct {
	list func() ([]int, []int64)
	rank func(c int, incl bool) (float64, error)
	qtl  func(r float64, incl bool) (int, error)
}

func (v *qView) Project() Ev {
	xs, cw := v.list()
	return Ev{"xs": ints(xs), "cw": ints64(cw)}
}

func ints64(xs []int64) []any {
	o := make([]any, len(xs))
	for i, x := range xs {
		o[i] = x
	}
	return o
}

// ---- KLL

type kllSk[T comparable] struct {
	d *qDom[T]
	s *kll.ItemsSketch[T]
	m int
}

func (o *kllSk[T]) kind() string { return "kll" }
func (o *kllSk[T]) kk() int      { return int(o.s.GetK()) }
func (o *kllSk[T]) mm() int      { return o.m }
func (o *kllSk[T]) n() uint64    { return o.s.GetN() }

// pk is the k whose declared error the sketch reports.
func (o *kllSk[T]) pk() int {
	e := o.s.GetNormalizedRankError(false)
	k := math.Pow(2.296/e, 1/0.9723)
	p := o.s.GetNormalizedRankError(true)
	k2 := math.Pow(2.446/p, 1/0.9433)
	if math.Abs(k-math.Round(k)) > 1e-6*k || math.Abs(k2-k) > 1e-6*k {
		return -1
	}
	return int(math.Round(k))
}
func (o *kllSk[T]) upd(c int) error { o.s.Update(o.d.vals[c-1]); return nil }
func (o *kllSk[T]) merge(x qSk) error {
	o.s.Merge(x.(*kllSk[T]).s)
	return nil
}
func (o *kllSk[T]) reset() { o.s.Reset() }
func (o *kllSk[T]) levels() map[int][]int {
	m := map[int][]int{}
	clear(o.s.GetTotalItemsArray()) // what is handed out is the caller's
	it := o.s.GetIterator()
	for it.Next() {
		w := it.GetWeight()
		if w <= 0 || w&(w-1) != 0 {
			panic(fmt.Sprintf("weight %d", w))
		}
		l := bits.TrailingZeros64(uint64(w))
		m[l] = append(m[l], o.d.code[it.GetQuantile()])
	}
	return m
}
func (o *kllSk[T]) minmax() (int, int) {
	a, e1 := o.s.GetMinItem()
	b, e2 := o.s.GetMaxItem()
	if e1 != nil || e2 != nil {
		if e1 == nil || e2 == nil || !o.s.IsEmpty() {
			panic("extremes")
		}
		return 0, 0
	}
	return o.d.code[a], o.d.code[b]
}
func (o *kllSk[T]) retained() int { return int(o.s.GetNumRetained()) }
func (o *kllSk[T]) est() bool     { return o.s.IsEstimationMode() }
func (o *kllSk[T]) rank(c int, incl bool) (float64, error) {
	return o.s.GetRank(o.d.vals[c-1], incl)
}
func (o *kllSk[T]) items(cs []int) []T {
	xs := make([]T, len(cs))
	for i, c := range cs {
		xs[i] = o.d.vals[c-1]
	}
	return xs
}
func (o *kllSk[T]) codes(xs []T) []int {
	cs := make([]int, len(xs))
	for i, x := range xs {
		cs[i] = o.d.code[x]
	}
	return cs
}
func (o *kllSk[T]) ranks(cs []int, incl bool) ([]float64, error) {
	xs := o.items(cs)
	defer core.Keep(xs)()
	return o.s.GetRanks(xs, incl)
}
func (o *kllSk[T]) quantile(r float64, incl bool) (int, error) {
	x, err := o.s.GetQuantile(r, incl)
	return o.d.code[x], err
}
func (o *kllSk[T]) quantiles(rs []float64, incl bool) ([]int, error) {
	defer core.Keep(rs)()
	xs, err := o.s.GetQuantiles(rs, incl)
	return o.codes(xs), err
}
func (o *kllSk[T]) cdf(cs []int, incl bool) ([]float64, error) {
	xs := o.items(cs)
	defer core.Keep(xs)()
	return o.s.GetCDF(xs, incl)
}
func (o *kllSk[T]) pmf(cs []int, incl bool) ([]float64, error) {
	xs := o.items(cs)
	defer core.Keep(xs)()
	return o.s.GetPMF(xs, incl)
}
func (o *kllSk[T]) view() (*qView, error) {
	v, err := o.s.GetSortedView()
	if err != nil {
		return nil, err
	}
	n := o.s.GetN() // the view stays what it was when the sketch goes on
	return &qView{list: func() ([]int, []int64) {
		xs, cw := []int{}, []int64{}
		it := v.Iterator()
		for it.Next() {
			xs = append(xs, o.d.code[it.GetQuantile()])
			cw = append(cw, it.GetNaturalRank(true))
			if w, l := it.GetWeight(), len(cw); w != cw[l-1]-it.GetNaturalRank(false) || l > 1 && it.GetNaturalRank(false) != cw[l-2] {
				panic("weight of the view's iterator")
			}
			if float64(it.GetNaturalRank(true))/float64(n) != it.GetNormalizedRank(true) || float64(it.GetNaturalRank(false))/float64(n) != it.GetNormalizedRank(false) {
				panic("normalized rank of the view's iterator")
			}
		}
		if v.GetNumRetained() != len(xs) {
			panic("size of the view")
		}
		return xs, cw
	}, rank: func(c int, incl bool) (float64, error) { return v.GetRank(o.d.vals[c-1], incl) },
		qtl: func(r float64, incl bool) (int, error) {
			x, err := v.GetQuantile(r, incl)
			return o.d.code[x], err
		}}, nil
}
func (o *kllSk[T]) parts(np int, incl bool) ([]int, error) {
	b, err := o.s.GetPartitionBoundaries(np, incl)
	if err != nil {
		return nil, err
	}
	return o.codes(b.GetBoundaries()), nil
}
func (o *kllSk[T]) image() ([]byte, int, error) {
	n, err := o.s.GetSerializedSizeBytes()
	if err != nil {
		return nil, 0, err
	}
	b, err := o.s.ToSlice()
	return b, n, err
}
func (o *kllSk[T]) restore(img []byte) (qSk, error) {
	s, err := kll.NewKllItemsSketchFromSlice[T](img, o.d.less, o.d.serde)
	if err != nil {
		return nil, err
	}
	return &kllSk[T]{o.d, s, o.m}, nil
}
func (o *kllSk[T]) badSplits() [][]int {
	if len(o.d.vals) < 2 {
		return [][]int{{1, 1}}
	}
	return [][]int{{1, 1}, {2, 1}, {1, 2, 2}, {2, 1, 2}}
}

// ---- REQ

type reqSk struct {
	d   *qDom[float32]
	s   *req.Sketch
	hra bool
}

func (o *reqSk) kind() string {
	if o.s.IsHighRankAccuracyMode() != o.hra {
		return "other accuracy"
	}
	if o.hra {
		return "hra"
	}
	return "lra"
}
func (o *reqSk) kk() int         { return o.s.K() }
func (o *reqSk) mm() int         { return 0 }
func (o *reqSk) pk() int         { return 0 }
func (o *reqSk) n() uint64       { return uint64(o.s.N()) }
func (o *reqSk) upd(c int) error { return o.s.Update(o.d.vals[c-1]) }
func (o *reqSk) merge(x qSk) error {
	return o.s.Merge(x.(*reqSk).s)
}
func (o *reqSk) reset() { o.s.Reset() }
func (o *reqSk) levels() map[int][]int {
	m := map[int][]int{}
	its := o.s.All()
	defer clear(its)
	for _, it := range its {
		if it.Weight <= 0 || it.Weight&(it.Weight-1) != 0 {
			panic(fmt.Sprintf("weight %d", it.Weight))
		}
		l := bits.TrailingZeros64(uint64(it.Weight))
		m[l] = append(m[l], o.d.code[it.Quantile])
	}
	return m
}
func (o *reqSk) minmax() (int, int) {
	a, e1 := o.s.MinItem()
	b, e2 := o.s.MaxItem()
	if e1 != nil || e2 != nil {
		if e1 == nil || e2 == nil || !o.s.IsEmpty() {
			panic("extremes")
		}
		return 0, 0
	}
	return o.d.code[a], o.d.code[b]
}
func (o *reqSk) retained() int { return o.s.NumRetained() }
func (o *reqSk) est() bool     { return o.s.IsEstimationMode() }
func reqOpt(incl bool) []req.SearchCriteriaOptionFunc {
	if incl {
		return nil
	}
	return []req.SearchCriteriaOptionFunc{req.WithExclusiveSearch()}
}
func (o *reqSk) rank(c int, incl bool) (float64, error) {
	return o.s.Rank(o.d.vals[c-1], reqOpt(incl)...)
}
func (o *reqSk) items(cs []int) []float32 {
	xs := make([]float32, len(cs))
	for i, c := range cs {
		xs[i] = o.d.vals[c-1]
	}
	return xs
}
func (o *reqSk) ranks(cs []int, incl bool) ([]float64, error) {
	xs := o.items(cs)
	defer core.Keep(xs)()
	return o.s.Ranks(xs, reqOpt(incl)...)
}
func (o *reqSk) quantile(r float64, incl bool) (int, error) {
	x, err := o.s.Quantile(r, reqOpt(incl)...)
	return o.d.code[x], err
}
func (o *reqSk) quantiles(rs []float64, incl bool) ([]int, error) {
	defer core.Keep(rs)()
	xs, err := o.s.Quantiles(rs, reqOpt(incl)...)
	cs := make([]int, len(xs))
	for i, x := range xs {
		cs[i] = o.d.code[x]
	}
	return cs, err
}
func (o *reqSk) cdf(cs []int, incl bool) ([]float64, error) {
	xs := o.items(cs)
	defer core.Keep(xs)()
	return o.s.CDF(xs, incl)
}
func (o *reqSk) pmf(cs []int, incl bool) ([]float64, error) {
	xs := o.items(cs)
	defer core.Keep(xs)()
	return o.s.PMF(xs, reqOpt(incl)...)
}
func (o *reqSk) view() (*qView, error) {
	v, err := o.s.SortedView()
	if err != nil {
		return nil, err
	}
	n := int64(o.s.N())
	return &qView{list: func() ([]int, []int64) {
		xs := []int{}
		cw := v.CumulativeWeights()
		for _, x := range v.Quantiles() {
			xs = append(xs, o.d.code[x])
		}
		it := v.Iterator()
		i := 0
		for it.Next() {
			x, _ := it.Quantile()
			r, _ := it.NaturalRank()
			lo, _ := it.NaturalRankWithCriterion(false)
			w, _ := it.Weight()
			nr, err := it.NormalizedRank()
			nlo, _ := it.NormalizedRankWithCriterion(false)
			nhi, _ := it.NormalizedRankWithCriterion(true)
			if nhi != nr || math.Abs(nlo-float64(lo)/float64(v.N())) > 1e-12 || it.N() != v.N() || v.N() != n {
				panic("normalized rank of the view's iterator")
			}
			if i >= len(xs) || o.d.code[x] != xs[i] || r != cw[i] || w != r-lo || i > 0 && lo != cw[i-1] || err != nil || math.Abs(nr-float64(r)/float64(v.N())) > 1e-12 {
				panic("iterator of the view")
			}
			i++
		}
		if i != len(xs) || v.NumRetained() != len(xs) {
			panic("size of the view")
		}
		mn, e1 := v.MinItem()
		mx, e2 := v.MaxItem()
		if i > 0 && (o.d.code[mn] != xs[0] || o.d.code[mx] != xs[i-1]) || (e1 == nil) != (i > 0) || (e2 == nil) != (i > 0) || v.IsEmpty() != (i == 0) {
			panic("extremes of the view")
		}
		weights := append([]int64(nil), cw...)
		clear(cw) // what was handed out is the caller's
		clear(v.Quantiles())
		return xs, weights
	}, rank: func(c int, incl bool) (float64, error) { return v.Rank(o.d.vals[c-1], incl) },
		qtl: func(r float64, incl bool) (int, error) {
			x, err := v.Quantile(r, incl)
			return o.d.code[x], err
		}}, nil
}
func (o *reqSk) parts(int, bool) ([]int, error)  { panic("no") }
func (o *reqSk) image() ([]byte, int, error)     { panic("no") }
func (o *reqSk) restore(img []byte) (qSk, error) { panic("no") }
func (o *reqSk) badSplits() [][]int {
	if len(o.d.vals) < 2 {
		return [][]int{{1, 1}}
	}
	return [][]int{{1, 1}, {2, 1}, {1, 2, 2}, {2, 1, 2}}
}

// ---- observed object

type qObj struct{ s qSk }

func qProj(s qSk) Ev {
	mn, mx := s.minmax()
	lv := s.levels()
	top := -1
	for l := range lv {
		top = max(top, l)
	}
	ls := make([]any, top+1)
	for l := range ls {
		sort.Ints(lv[l])
		ls[l] = ints(lv[l])
	}
	return Ev{"t": s.kind(), "k": s.kk(), "m": s.mm(), "pk": s.pk(), "n": int64(s.n()), "lv": ls, "mn": mn, "mx": mx,
		"nr": s.retained(), "est": s.est()}
}

func (o *qObj) Show() {
	if s, ok := o.s.(*reqSk); ok {
		words(s.s)
		_ = s.s.CompactorDetailString(true)
		_ = s.s.CompactorDetailString(false)
	}
}
func (o *qObj) Project() Ev { return qProj(o.s) }

// ---- driver

type qDrv struct {
	*Scn
	cfg  *Cfg
	next int
	P    int
	mk   func(t string, k, m int) (qSk, error)
	ks   []int
	ms   []int
	ts   []string
	hot  int
	seq  int
	keep int // handles below are never dropped
}

func (t *qDrv) fresh() int { t.next++; return t.next - 1 }
func (t *qDrv) slot() int {
	hs := []int{}
	for _, h := range t.Handles() {
		if h >= t.keep {
			hs = append(hs, h)
		}
	}
	if len(hs) >= 5 {
		h := hs[t.Rng.Intn(len(hs))]
		t.Drop(h)
		t.Do("drop", 0, Ev{"d": h}, func(ev Ev) error { return nil })
	}
	return t.fresh()
}

func kllMk[T comparable](d *qDom[T]) func(string, int, int) (qSk, error) {
	return func(_ string, k, m int) (qSk, error) {
		var s *kll.ItemsSketch[T]
		var err error
		if k == 200 && m == 8 {
			s, err = kll.NewKllItemsSketchWithDefault[T](d.less, d.serde)
		} else {
			s, err = kll.NewKllItemsSketch[T](uint16(k), uint8(m), d.less, d.serde)
		}
		if err != nil {
			return nil, err
		}
		return &kllSk[T]{d, s, m}, nil
	}
}

func reqMk(d *qDom[float32]) func(string, int, int) (qSk, error) {
	return func(t string, k, _ int) (qSk, error) {
		s, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(t == "hra"))
		if err != nil {
			return nil, err
		}
		return &reqSk{d, s, t == "hra"}, nil
	}
}

func qFloats(r *rand.Rand, P int) []float64 {
	vs := make([]float64, P)
	w := r.Intn(4)
	for i := range vs {
		switch w {
		case 0:
			vs[i] = float64(i + 1)
		case 1:
			vs[i] = r.NormFloat64() * math.Exp(10*r.NormFloat64())
		case 2:
			vs[i] = -float64(i+1) / 7
		default:
			vs[i] = float64(i - P/2)
		}
	}
	return vs
}

func newQDrv(s *Scn, cfg *Cfg, fam string) *qDrv {
	r := s.Rng
	t := &qDrv{Scn: s, cfg: cfg, next: 1}
	P := pick(r, 2, 5, 12, 30, 100, 300)
	if fam == "req" {
		vs := qFloats(r, P)
		fs := make([]float32, P)
		for i := range vs {
			fs[i] = float32(vs[i])
		}
		if r.Intn(4) == 0 && cfg.Focus != "C15" {
			fs = append(fs, float32(math.Inf(1)), float32(math.Inf(-1)))
		}
		d := mkDom("f32", fs, func(a, b float32) bool { return a < b }, nil)
		t.P, t.mk = len(d.vals), reqMk(d)
		t.ts = pick(r, []string{"hra"}, []string{"lra"}, []string{"hra", "hra", "hra", "lra"}, []string{"lra", "lra", "lra", "hra"})
		t.ks = pick(r, []int{4}, []int{4}, []int{4, 6}, []int{6, 8}, []int{8, 12}, []int{10}, []int{14, 20})
		t.ms = []int{0}
		return t
	}
	rev := r.Intn(4) == 0
	switch r.Intn(5) {
	case 0:
		vs := qFloats(r, P)
		fs := make([]float32, P)
		for i := range vs {
			fs[i] = float32(vs[i])
		}
		d := mkDom("f32", fs, common.ItemSketchFloatComparator(rev), common.ItemSketchFloatSerDe{})
		t.P, t.mk = len(d.vals), kllMk(d)
	case 1:
		vs := make([]int64, P)
		for i := range vs {
			vs[i] = int64(i) - 2
			if r.Intn(3) == 0 {
				vs[i] = int64(r.Uint64())
			}
		}
		d := mkDom("i64", vs, common.ItemSketchLongComparator(rev), common.ItemSketchLongSerDe{})
		t.P, t.mk = len(d.vals), kllMk(d)
	case 2, 3:
		vs := []string{}
		w := r.Intn(4)
		for len(vs) < P {
			switch {
			case len(vs) == 0 && w > 0:
				vs = append(vs, "")
			case w == 1:
				b := make([]byte, r.Intn(9))
				r.Read(b)
				vs = append(vs, string(b))
			case w == 2:
				vs = append(vs, fmt.Sprintf("é%dß", r.Intn(10*P)))
			default:
				vs = append(vs, fmt.Sprintf("%05d", len(vs)))
			}
		}
		d := mkDom("str", vs, common.ItemSketchStringComparator(rev), common.ItemSketchStringSerDe{})
		t.P, t.mk = len(d.vals), kllMk(d)
	default:
		vs := qFloats(r, P)
		if r.Intn(3) == 0 {
			vs = append(vs, math.Inf(1), math.Inf(-1), math.MaxFloat64, 5e-324)
		}
		d := mkDom("f64", vs, common.ItemSketchDoubleComparator(rev), common.ItemSketchDoubleSerDe{})
		t.P, t.mk = len(d.vals), kllMk(d)
	}
	t.ts = []string{"kll"}
	t.ks = pick(r, []int{8}, []int{8}, []int{8, 9, 10}, []int{8, 16}, []int{12, 20}, []int{25, 11}, []int{40, 8}, []int{60, 100})
	t.ms = pick(r, []int{8}, []int{8}, []int{8}, []int{2}, []int{4, 6}, []int{2, 8})
	return t
}

func (t *qDrv) item() int {
	r := t.Rng
	switch t.hot {
	case 1: // rising
		t.seq++
		return 1 + t.seq%t.P
	case 2: // falling
		t.seq++
		return t.P - t.seq%t.P
	case 3:
		return 1 + min(r.Intn(t.P), r.Intn(t.P), r.Intn(t.P))
	case 4:
		return 1 + max(r.Intn(t.P), r.Intn(t.P), r.Intn(t.P))
	}
	return 1 + r.Intn(t.P)
}

func (t *qDrv) newq(h int, ty string, k, m int) {
	t.Do("newq", h, Ev{"t": ty, "k": k, "m": m}, func(ev Ev) error {
		s, err := t.mk(ty, k, m)
		if err == nil {
			t.Put(h, &qObj{s})
		}
		return err
	})
}

func (t *qDrv) upd(h, x int) {
	o := t.Get(h).(*qObj)
	t.Do("upd", h, Ev{"x": x}, func(ev Ev) error { return o.s.upd(x) })
}

func (t *qDrv) updn(h int, xs []int) {
	o := t.Get(h).(*qObj)
	t.Do("updn", h, Ev{"xs": ints(xs)}, func(ev Ev) error {
		for _, x := range xs {
			if err := o.s.upd(x); err != nil {
				return err
			}
		}
		return nil
	})
}

// nan offers a NaN, which a REQ sketch ignores.
func (t *qDrv) nan(h int) {
	o, ok := t.Get(h).(*qObj).s.(*reqSk)
	if !ok {
		return
	}
	t.Do("updn", h, Ev{"xs": []any{}}, func(ev Ev) error { return o.s.Update(float32(math.NaN())) })
}

func (t *qDrv) merge(h, src int) {
	a, b := t.Get(h).(*qObj), t.Get(src).(*qObj)
	t.Do("merge", h, Ev{"src": src}, func(ev Ev) error { return a.s.merge(b.s) })
}

func (t *qDrv) reset(h int) {
	o := t.Get(h).(*qObj)
	t.Do("reset", h, Ev{}, func(ev Ev) error { o.s.reset(); return nil })
}

func (t *qDrv) ser(g, src int) {
	o := t.Get(src).(*qObj)
	var img []byte
	t.Do("ser", g, Ev{"src": src, "stable": true, "size": 0, "len": 0}, func(ev Ev) error {
		var err error
		var n int
		if img, n, err = o.s.image(); err != nil {
			return err
		}
		img2, _, err := o.s.image()
		if err != nil {
			return err
		}
		ev["stable"], ev["size"], ev["len"] = string(img) == string(img2), n, len(img)
		defer core.Keep(img)()
		s, err := o.s.restore(img)
		if err == nil {
			t.Put(g, &qObj{s})
		}
		return err
	})
	if !t.Dead && t.Has(g) {
		t.Do("scribble", 0, Ev{}, func(ev Ev) error {
			for i := range img {
				img[i] ^= 0x5A
			}
			return nil
		})
		if t.Rng.Intn(2) == 0 {
			t.query(g)
		}
	}
}

// nat turns a normalized rank into a natural one (-1 if it is not one).
func nat(r float64, n uint64) int64 {
	x := r * float64(n)
	y := math.Round(x)
	if math.Abs(x-y) > 1e-6*math.Max(1, y) {
		return -1
	}
	return int64(y)
}

func (t *qDrv) query(h int) {
	o := t.Get(h).(*qObj)
	r := t.Rng
	s := o.s
	n := s.n()
	incl := r.Intn(2) == 0
	probe := func() int {
		if r.Intn(2) == 0 {
			p := o.Project()
			if lv := p["lv"].([]any); len(lv) > 0 {
				l := pick(r, lv...).([]any)
				if len(l) > 0 {
					return l[r.Intn(len(l))].(int)
				}
			}
			if x := p["mn"].(int); x > 0 && r.Intn(2) == 0 {
				return x
			}
			if x := p["mx"].(int); x > 0 {
				return x
			}
		}
		return 1 + r.Intn(t.P)
	}
	splits := func() []int {
		m := map[int]bool{}
		for i := r.Intn(8); i >= 0; i-- {
			m[probe()] = true
		}
		return sortedKeys(m)
	}
	w := r.Intn(9)
	if n == 0 {
		w = 8
	}
	switch w {
	case 0:
		cs := []int{}
		for i := 0; i < 6; i++ {
			cs = append(cs, probe())
		}
		t.Do("qrank", h, Ev{"ys": ints(cs), "incl": incl}, func(ev Ev) error {
			rs := []any{}
			all, err := s.ranks(cs, incl)
			if err != nil {
				return err
			}
			for i, c := range cs {
				x, err := s.rank(c, incl)
				if err != nil {
					return err
				}
				if i >= len(all) || x != all[i] {
					x = -1
				}
				rs = append(rs, nat(x, n))
			}
			ev["rs"] = rs
			return nil
		})
	case 1, 2:
		js := []int{0, int(2 * n)}
		for i := 0; i < 6; i++ {
			js = append(js, r.Intn(int(2*n)+1))
		}
		t.Do("qquant", h, Ev{"js": ints(js), "incl": incl}, func(ev Ev) error {
			qs := []int{}
			rs := []float64{}
			for _, j := range js {
				rs = append(rs, float64(j)/float64(2*n))
			}
			all, err := s.quantiles(rs, incl)
			if err != nil {
				return err
			}
			for i, x := range rs {
				q, err := s.quantile(x, incl)
				if err != nil {
					return err
				}
				if i >= len(all) || q != all[i] {
					q = -1
				}
				qs = append(qs, q)
			}
			ev["qs"] = ints(qs)
			return nil
		})
	case 3, 4:
		cs := splits()
		t.Do("qcdf", h, Ev{"ys": ints(cs), "incl": incl}, func(ev Ev) error {
			c, err := s.cdf(cs, incl)
			if err != nil {
				return err
			}
			p, err := s.pmf(cs, incl)
			if err != nil {
				return err
			}
			a, b := []int64{}, []int64{}
			for i := range c {
				a = append(a, nat(c[i], n))
			}
			for i := range p {
				b = append(b, nat(p[i], n))
			}
			ev["cdf"], ev["pmf"] = ints64(a), ints64(b)
			return nil
		})
	case 5:
		g := t.slot()
		if !t.Has(h) {
			return
		}
		t.Do("view", g, Ev{"src": h}, func(ev Ev) error {
			v, err := s.view()
			if err == nil {
				t.Put(g, v)
			}
			return err
		})
	case 6:
		if s.kind() != "kll" {
			t.bounds(h)
			return
		}
		np := pick(r, 1, 2, 3, 4, 7, 10, 20)
		t.Do("qpart", h, Ev{"np": np, "incl": incl}, func(ev Ev) error {
			bs, err := s.parts(np, incl)
			ev["bs"] = ints(bs)
			return err
		})
	case 7:
		// a query through a view obtained now
		cs := []int{probe(), probe(), probe()}
		js := []int{r.Intn(int(2*n) + 1), r.Intn(int(2*n) + 1)}
		t.Do("qview", h, Ev{"ys": ints(cs), "js": ints(js), "incl": incl}, func(ev Ev) error {
			v, err := s.view()
			if err != nil {
				return err
			}
			rs, qs := []any{}, []any{}
			for _, c := range cs {
				x, err := v.rank(c, incl)
				if err != nil {
					return err
				}
				rs = append(rs, nat(x, n))
			}
			for _, j := range js {
				q, err := v.qtl(float64(j)/float64(2*n), incl)
				if err != nil {
					return err
				}
				qs = append(qs, q)
			}
			ev["rs"], ev["qs"] = rs, qs
			return nil
		})
	case 8:
		t.Do("qbad", h, Ev{}, func(ev Ev) error {
			acc := []any{}
			try := func(name string, err error) {
				if err == nil {
					acc = append(acc, name)
				}
			}
			if n == 0 {
				_, err := s.rank(1, incl)
				try("rank of empty", err)
				_, err = s.ranks([]int{1}, incl)
				try("ranks of empty", err)
				_, err = s.quantile(0.5, incl)
				try("quantile of empty", err)
				_, err = s.quantiles([]float64{0.5}, incl)
				try("quantiles of empty", err)
				_, err = s.cdf([]int{1}, incl)
				try("cdf of empty", err)
				_, err = s.pmf([]int{1}, incl)
				try("pmf of empty", err)
				_, err = s.view()
				try("view of empty", err)
				if s.kind() == "kll" {
					_, err = s.parts(2, incl)
					try("boundaries of empty", err)
				}
			} else {
				for _, x := range []float64{-0.001, 1.0001, -1, 2, math.Inf(1)} {
					_, err := s.quantile(x, incl)
					try(fmt.Sprint("quantile of ", x), err)
					_, err = s.quantiles([]float64{0.5, x}, incl)
					try(fmt.Sprint("quantiles of ", x), err)
				}
				for _, b := range s.badSplits() {
					_, err := s.cdf(b, incl)
					try(fmt.Sprint("cdf of ", b), err)
					_, err = s.pmf(b, incl)
					try(fmt.Sprint("pmf of ", b), err)
				}
				if q, ok := s.(*reqSk); ok {
					_, err := q.s.Rank(float32(math.NaN()))
					try("rank of NaN", err)
					_, err = q.s.CDF([]float32{float32(math.NaN())}, true)
					try("cdf of NaN", err)
				}
			}
			ev["acc"] = acc
			return nil
		})
	}
}

// bounds asks a REQ sketch for its bounds.
func (t *qDrv) bounds(h int) {
	q := t.Get(h).(*qObj).s.(*reqSk)
	n := q.n()
	rk := float64(t.Rng.Intn(int(n)+1)) / float64(n)
	if t.Rng.Intn(5) == 0 {
		rk = pick(t.Rng, 0.0, 1.0)
	}
	t.Do("qbound", h, Ev{}, func(ev Ev) error {
		rs, qs, fs := []R{}, []any{}, []R{}
		for sd := -3; sd <= 3; sd++ {
			var b float64
			var v float32
			var err error
			switch {
			case sd < 0:
				if b, err = q.s.RankLowerBound(rk, req.WithNumStdDev(-sd)); err != nil {
					return err
				}
				v, err = q.s.QuantileLowerBound(rk, req.WithNumStdDev(-sd))
			case sd == 0:
				b = rk
				v, err = q.s.Quantile(rk)
			default:
				if b, err = q.s.RankUpperBound(rk, req.WithNumStdDev(sd)); err != nil {
					return err
				}
				v, err = q.s.QuantileUpperBound(rk, req.WithNumStdDev(sd))
			}
			if err != nil {
				return err
			}
			rs = append(rs, R(b))
			qs = append(qs, q.d.code[v])
			fs = append(fs, R(math.Min(1, math.Max(0, rk+float64(sd)*reqErr(q.kk(), rk, q.hra, n, q.est())))))
		}
		ev["rs"], ev["qs"], ev["fs"] = rs, qs, fs
		ev["lo"], ev["hi"] = R(0), R(1)
		return nil
	})
}

// reqErr is the a priori standard error of a rank.
func reqErr(k int, rank float64, hra bool, n uint64, est bool) float64 {
	if !est || n <= uint64(3*k) {
		return 0
	}
	d := rank
	if hra {
		d = 1 - rank
	}
	if (hra && rank >= 1-float64(3*k)/float64(n)) || (!hra && rank <= float64(3*k)/float64(n)) {
		return 0
	}
	return math.Min(math.Sqrt(0.0512/3)/float64(k)*d, 0.084/float64(k))
}

// ---- accuracy on longer streams

func (t *qDrv) accuracy(fam string) {
	r := t.Rng
	t.Begin(Ev{})
	n := int(math.Exp(math.Log(300) + r.Float64()*math.Log(200)))
	var mk func() (qSk, error)
	var k int
	d64 := func(rev bool) *qDom[float64] {
		vs := make([]float64, n)
		for i := range vs {
			vs[i] = float64(i) * 1.5
		}
		return mkDom("f64", vs, common.ItemSketchDoubleComparator(rev), common.ItemSketchDoubleSerDe{})
	}
	ty := "kll"
	var tol func(rank float64) float64
	if fam == "kll" {
		k = pick(r, 32, 64, 100, 200)
		kmk := kllMk(d64(r.Intn(3) == 0))
		mk = func() (qSk, error) { return kmk("kll", k, 8) }
		tol = func(float64) float64 { return 2.5 * 2.296 / math.Pow(float64(k), 0.9723) }
	} else {
		k = pick(r, 8, 12, 20, 50)
		ty = pick(r, "hra", "lra")
		fs := make([]float32, n)
		for i := range fs {
			fs[i] = float32(i) - 100
		}
		rmk := reqMk(mkDom("f32", fs, func(a, b float32) bool { return a < b }, nil))
		mk = func() (qSk, error) { return rmk(ty, k, 0) }
		tol = func(rank float64) float64 { return 8 * reqErr(k, rank, ty == "hra", uint64(n), true) }
	}
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i + 1
	}
	switch r.Intn(4) {
	case 0:
		r.Shuffle(n, func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
	case 1:
		for i := range perm {
			perm[i] = n - i
		}
	case 2: // from both ends
		for i := range perm {
			if i%2 == 0 {
				perm[i] = i/2 + 1
			} else {
				perm[i] = n - i/2
			}
		}
	}
	parts := pick(r, 1, 1, 3, 8)
	t.Do("acc", 0, Ev{"n": n, "t": ty, "k": k}, func(ev Ev) error {
		sks := []qSk{}
		for i := 0; i < parts; i++ {
			s, err := mk()
			if err != nil {
				return err
			}
			sks = append(sks, s)
		}
		for i, c := range perm {
			p := i % parts
			if n%2 == 0 {
				p = i * parts / n
			}
			if err := sks[p].upd(c); err != nil {
				return err
			}
		}
		s := sks[0]
		for _, o := range sks[1:] {
			if err := s.merge(o); err != nil {
				return err
			}
		}
		ps := []any{}
		for i := 0; i <= 24; i++ {
			c := 1 + i*(n-1)/24
			if i == 1 {
				c = 1 + r.Intn(min(n, 3*k))
			}
			if i == 23 {
				c = n - r.Intn(min(n, 3*k))
			}
			x, err := s.rank(c, true)
			if err != nil {
				return err
			}
			tl := int64(tol(float64(c)/float64(n))*float64(n)) + 1
			if tol(float64(c)/float64(n)) == 0 {
				tl = 0
			}
			ps = append(ps, Ev{"c": c, "e": nat(x, uint64(n)), "tol": tl})
		}
		ev["ps"] = ps
		ev["sn"] = int64(s.n())
		return nil
	})
}

// huge merges its way up to very large counts.
func (t *qDrv) huge(fam string) {
	r := t.Rng
	t.Begin(Ev{})
	mkx := func() (qSk, error) { return t.mk(t.ts[0], t.ks[0], t.ms[0]) }
	a, err := mkx()
	if err != nil {
		return
	}
	b, err := mkx()
	if err != nil {
		return
	}
	want := [2]*big.Int{new(big.Int), new(big.Int)}
	sk := [2]qSk{a, b}
	mn, mx := [2]int{0, 0}, [2]int{0, 0}
	add := func(i, n int) error {
		for j := 0; j < n; j++ {
			x := t.item()
			if mn[i] == 0 || x < mn[i] {
				mn[i] = x
			}
			mx[i] = max(mx[i], x)
			if err := sk[i].upd(x); err != nil {
				return err
			}
		}
		want[i].Add(want[i], big.NewInt(int64(n)))
		return nil
	}
	look := func(ev Ev, pre string, s qSk, i int) {
		lv := s.levels()
		sum := new(big.Int)
		cnt := 0
		for l, xs := range lv {
			x := new(big.Int).Lsh(big.NewInt(int64(len(xs))), uint(l))
			sum.Add(sum, x)
			cnt += len(xs)
		}
		a, b := s.minmax()
		ev[pre+"n"], ev[pre+"sum"], ev["want"] = fmt.Sprint(s.n()), sum.String(), want[i].String()
		ev[pre+"nr"], ev[pre+"cnt"] = s.retained(), cnt
		ev[pre+"ext"] = []any{a, b}
		ev["wext"] = []any{mn[i], mx[i]}
		ev[pre+"rank"] = 0
		if q, ok := s.(*reqSk); ok && math.IsInf(float64(q.d.vals[mx[i]-1]), 0) {
			ev[pre+"rank"] = 1 // such ranks are refused
		} else if x, err := s.rank(mx[i], true); err == nil && math.Abs(x-1) < 1e-9 {
			ev[pre+"rank"] = 1
		}
	}
	top := 40 + r.Intn(22)
	t.Do("hnew", 0, Ev{}, func(ev Ev) error {
		if err := add(0, 1+r.Intn(200)); err != nil {
			return err
		}
		return add(1, 1+r.Intn(200))
	})
	for step := 0; step < 140 && !t.Dead; step++ {
		i := step % 2
		if want[i].BitLen() > top {
			break
		}
		t.Do("huge", 0, Ev{}, func(ev Ev) error {
			if err := sk[i].merge(sk[1-i]); err != nil {
				return err
			}
			want[i].Add(want[i], want[1-i])
			if mn[1-i] < mn[i] {
				mn[i] = mn[1-i]
			}
			mx[i] = max(mx[i], mx[1-i])
			if r.Intn(3) == 0 {
				if err := add(i, r.Intn(30)); err != nil {
					return err
				}
			}
			look(ev, "", sk[i], i)
			return nil
		})
		if fam == "kll" && !t.Dead && (step > 80 || r.Intn(10) == 0) {
			t.Do("hser", 0, Ev{}, func(ev Ev) error {
				img, n, err := sk[i].image()
				if err != nil {
					return err
				}
				if n != len(img) {
					return fmt.Errorf("declared size %d, image %d", n, len(img))
				}
				s, err := sk[i].restore(img)
				if err != nil {
					return err
				}
				look(ev, "", sk[i], i)
				look(ev, "r", s, i)
				ev["same"] = fmt.Sprint(s.levels()) == fmt.Sprint(sk[i].levels()) && s.kk() == sk[i].kk() && s.pk() == sk[i].pk()
				sk[i] = s
				return nil
			})
		}
	}
}

// wide exercises large k: exact for k items, images of them.
func (t *qDrv) wide() {
	r := t.Rng
	t.Begin(Ev{})
	k := pick(r, 1000, 20000, 32767, 32768, 40000, 65535)
	n := pick(r, 3, 500, k, k+1, k+k/3, 2*k+77)
	var img []byte
	var a qSk
	want := big.NewInt(int64(n))
	t.Do("wide", 0, Ev{"k": k, "n": n}, func(ev Ev) error {
		s, err := t.mk("kll", k, 8)
		if err != nil {
			return err
		}
		a = s
		for i := 0; i < n; i++ {
			if err := s.upd(t.item()); err != nil {
				return err
			}
		}
		sum := 0
		for l, xs := range s.levels() {
			sum += len(xs) << l
		}
		ev["sum"], ev["nr"], ev["est"] = sum, s.retained(), s.est()
		return nil
	})
	if t.Dead {
		return
	}
	t.Do("hser", 0, Ev{}, func(ev Ev) error {
		var n int
		var err error
		if img, n, err = a.image(); err != nil {
			return err
		}
		if n != len(img) {
			return fmt.Errorf("declared size %d, image %d", n, len(img))
		}
		s, err := a.restore(img)
		if err != nil {
			return err
		}
		for _, p := range []struct {
			pre string
			s   qSk
		}{{"", a}, {"r", s}} {
			sum, cnt := 0, 0
			for l, xs := range p.s.levels() {
				sum += len(xs) << l
				cnt += len(xs)
			}
			x, y := p.s.minmax()
			ev[p.pre+"n"], ev[p.pre+"sum"], ev["want"] = fmt.Sprint(p.s.n()), fmt.Sprint(sum), want.String()
			ev[p.pre+"nr"], ev[p.pre+"cnt"], ev[p.pre+"ext"], ev[p.pre+"rank"] = p.s.retained(), cnt, []any{x, y}, 1
		}
		ev["wext"] = ev["ext"]
		ev["same"] = fmt.Sprint(s.levels()) == fmt.Sprint(a.levels()) && s.kk() == a.kk() && s.pk() == a.pk()
		return nil
	})
}

func (t *qDrv) random(steps int, w map[string]int) {
	r := t.Rng
	t.Begin(Ev{})
	ch := newChooser(w)
	nw := func(h int) { t.newq(h, pick(r, t.ts...), pick(r, t.ks...), pick(r, t.ms...)) }
	nw(t.fresh())
	for i := 0; i < steps && !t.Dead; i++ {
		sks := []int{}
		for _, h := range t.Handles() {
			if _, ok := t.Get(h).(*qObj); ok {
				sks = append(sks, h)
			}
		}
		if len(sks) == 0 {
			nw(t.slot())
			continue
		}
		a := pick(r, sks...)
		o := t.Get(a).(*qObj)
		if o.s.n() > 1<<20 {
			t.reset(a)
			continue
		}
		if r.Intn(8) == 0 {
			t.hot = r.Intn(5)
		}
		switch op := ch.next(r); op {
		case "newq":
			nw(t.slot())
		case "upd":
			for j := pick(r, 1, 2, 5, 12, 25); j > 0 && !t.Dead; j-- {
				t.upd(a, t.item())
			}
		case "updn":
			xs := make([]int, pick(r, 1, 4, o.s.kk(), o.s.kk()-1, 3*o.s.kk(), 6*o.s.kk()-1, 100, 400))
			for j := range xs {
				xs[j] = t.item()
			}
			t.updn(a, xs)
		case "nan":
			t.nan(a)
		case "merge":
			b := pick(r, sks...)
			if a != b {
				t.merge(a, b)
			}
		case "reset":
			t.reset(a)
		case "ser":
			if o.s.kind() != "kll" {
				break
			}
			g := t.slot()
			if t.Has(a) {
				t.ser(g, a)
				if !t.Dead && t.Has(g) && r.Intn(2) == 0 {
					for j := pick(r, 1, 3, 9); j > 0 && !t.Dead; j-- {
						t.upd(g, t.item())
					}
				}
			}
		case "query":
			t.query(a)
		}
	}
}

// script replays a behaviour of MC_Kll or MC_Req: an item of the model stands
// for a few real ones of its third of the domain.
func (t *qDrv) script(sc []any, fam string) {
	r := t.Rng
	t.Begin(Ev{})
	i := func(x any) int { return int(x.(float64)) }
	mult := pick(r, 2, 3, 5)
	ty := pick(r, t.ts...)
	t.next, t.keep = 20, 20
	for _, st := range sc {
		if t.Dead {
			return
		}
		c := st.([]any)
		switch c[0].(string) {
		case "newq":
			t.newq(i(c[1]), ty, t.ks[(i(c[1])-1)%len(t.ks)], t.ms[0])
		case "upd":
			lo := (i(c[2]) - 1) * t.P / 3
			hi := max(lo+1, i(c[2])*t.P/3)
			for j := 0; j < mult && !t.Dead; j++ {
				t.upd(i(c[1]), min(t.P, 1+lo+r.Intn(hi-lo)))
			}
		case "merge":
			t.merge(i(c[1]), i(c[2]))
		case "reset":
			t.reset(i(c[1]))
		case "ser":
			t.ser(i(c[1]), i(c[2]))
		case "query":
			if t.Has(i(c[1])) {
				t.query(i(c[1]))
			}
		default:
			panic("script op " + c[0].(string))
		}
	}
}

func quantJobs(fam string) func(cfg *Cfg) []core.Job {
	return func(cfg *Cfg) []core.Job {
		var jobs []core.Job
		add := func(name string, n, steps int, w map[string]int) {
			for i := 0; i < n; i++ {
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("%s#%d", name, i), Run: func(s *Scn) {
					newQDrv(s, cfg, fam).random(steps, w)
				}})
			}
		}
		one := func(name string, n int, f func(t *qDrv)) {
			for i := 0; i < n; i++ {
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("%s#%d", name, i), Run: func(s *Scn) { f(newQDrv(s, cfg, fam)) }})
			}
		}
		nsc := 250
		if cfg.Tier == "thorough" {
			nsc = 6000
		}
		for i, sc := range cfg.Scripts {
			if i >= nsc {
				break
			}
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("spec#%d", i), Run: func(s *Scn) { newQDrv(s, cfg, fam).script(sc, fam) }})
		}
		switch cfg.Focus {
		case "C13", "C14":
			add("hist", cfg.N(700, 12000), 16, map[string]int{"newq": 3, "upd": 40, "updn": 10, "merge": 16, "reset": 2, "nan": 1, "ser": 2})
			one("acc", cfg.N(300, 6000), func(t *qDrv) { t.accuracy(fam) })
			one("huge", cfg.N(20, 300), func(t *qDrv) { t.huge(fam) })
			if fam == "kll" {
				one("wide", cfg.N(12, 100), func(t *qDrv) { t.wide() })
			}
		case "C15":
			add("query", cfg.N(800, 16000), 24, map[string]int{"newq": 3, "upd": 10, "updn": 12, "merge": 6, "reset": 1, "query": 40, "ser": 1})
		case "C16":
			add("images", cfg.N(1200, 16000), 16, map[string]int{"newq": 4, "upd": 12, "updn": 14, "merge": 10, "reset": 1, "query": 8, "ser": 30})
			one("huge", cfg.N(20, 300), func(t *qDrv) { t.huge(fam) })
			one("wide", cfg.N(12, 100), func(t *qDrv) { t.wide() })
		case "C30":
			add("iso", cfg.N(100, 6000), 24, map[string]int{"newq": 4, "upd": 14, "updn": 8, "merge": 14, "reset": 2, "query": 16, "ser": 6})
		}
		return jobs
	}
}
