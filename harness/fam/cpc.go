package fam

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/bits"

	"github.com/apache/datasketches-go/cpc"

	"verif/harness/core"
)

// ---- keys

type cpKey struct {
	kind string
	i    int64
	f    float64
	s    string // bytes of byte-slice, string and raw keys
	a    []int64
}

func (k cpKey) bytes() []byte {
	switch k.kind {
	case "u64", "i64":
		return le64(uint64(k.i))
	case "f64":
		return le64(canonDouble(k.f))
	case "is":
		b := []byte{}
		for _, x := range k.a {
			b = append(b, le64(uint64(x))...)
		}
		return b
	case "is32":
		b := []byte{}
		for _, x := range k.a {
			b = append(b, le32(uint32(x))...)
		}
		return b
	}
	return []byte(k.s)
}

// coupon is 64 * address + column, the address having 20 bits.
func (k cpKey) coupon(seed uint64) int {
	lo, hi := murmur(seed, k.bytes())
	return int(lo&0xfffff)*64 + min(bits.LeadingZeros64(hi), 63)
}

func (k cpKey) feed(s *cpc.CpcSketch) error {
	switch k.kind {
	case "u64":
		return s.UpdateUint64(uint64(k.i))
	case "i64":
		return s.UpdateInt64(k.i)
	case "f64":
		return s.UpdateFloat64(k.f)
	case "is":
		defer core.Keep(k.a)()
		return s.UpdateInt64Slice(k.a)
	case "is32":
		a := make([]int32, len(k.a))
		for i, x := range k.a {
			a[i] = int32(x)
		}
		defer core.Keep(a)()
		return s.UpdateInt32Slice(a)
	case "str":
		return s.UpdateString(k.s)
	}
	b := []byte(k.s)
	defer core.Keep(b)()
	return s.UpdateByteSlice(b)
}

// ---- observed objects

type cpSk struct {
	s    *cpc.CpcSketch
	sid  int
	sd   uint64
	mg   bool
	set  map[int]bool // coupons offered so far, for the in-order estimator
	kxp  float64
	hip  float64
	n    int // distinct items offered when all keys are plain (-1 otherwise)
	seen map[string]bool
}

func (o *cpSk) clone(s *cpc.CpcSketch) *cpSk {
	c := *o
	c.s = s
	if o.set != nil {
		c.set = map[int]bool{}
	}
	for k := range o.set {
		c.set[k] = true
	}
	return &c
}

func (o *cpSk) model(a int) {
	k := 1 << o.s.GetLgK()
	rc := (a/64)%k*64 + a%64
	if o.set == nil || o.set[rc] {
		return
	}
	o.set[rc] = true
	o.hip += float64(k) / o.kxp
	o.kxp -= math.Ldexp(1, -(a%64 + 1))
}

func cpMatrix(m []uint64) []any {
	cs := []any{}
	for r, w := range m {
		for w != 0 {
			c := bits.TrailingZeros64(w)
			w &^= 1 << c
			cs = append(cs, r*64+c)
		}
	}
	return cs
}

type cpEst interface {
	GetEstimate() float64
	GetLowerBound(int) float64
	GetUpperBound(int) float64
}

func cpEs(s cpEst) []R {
	return []R{R(s.GetLowerBound(3)), R(s.GetLowerBound(1)), R(s.GetEstimate()), R(s.GetUpperBound(1)), R(s.GetUpperBound(2))}
}

// cpContent is the coupon set of s, seen through a fresh union of its size.
func cpContent(s *cpc.CpcSketch, seed uint64) []any {
	u, err := cpc.NewCpcUnionSketch(s.GetLgK(), seed)
	if err != nil {
		panic(err)
	}
	if err := u.Update(s); err != nil {
		panic(err)
	}
	m, err := u.GetBitMatrix()
	if err != nil {
		panic(err)
	}
	if len(m) != 1<<s.GetLgK() {
		panic("size of the matrix")
	}
	return cpMatrix(m)
}

func cpProj(s *cpc.CpcSketch, sid int, seed uint64) Ev {
	cs := cpContent(s, seed)
	p := Ev{"lgk": s.GetLgK(), "sid": sid, "cs": cs, "es": cpEs(s), "nc": 0, "pc": 0, "mg": false}
	img, err := s.ToCompactSlice()
	if err != nil {
		panic(err)
	}
	p["mg"] = img[5]&4 == 0
	if img[5]>>3&3 != 0 {
		p["nc"] = int(binary.LittleEndian.Uint32(img[8:]))
	}
	p["pc"] = len(cs)
	return p
}

func (o *cpSk) Show() {
	words(o.s)
	img, err := o.s.ToCompactSlice()
	if err != nil {
		panic(err)
	}
	defer core.Keep(img)()
	for _, detail := range []bool{false, true} {
		if _, err := cpc.CpcSketchToString(img, detail); err != nil {
			panic(err)
		}
	}
}
func (o *cpSk) Project() Ev { return cpProj(o.s, o.sid, o.sd) }

type cpUn struct {
	u   *cpc.CpcUnion
	sid int
	sd  uint64
}

func (o *cpUn) Project() Ev {
	m, err := o.u.GetBitMatrix()
	if err != nil {
		panic(err)
	}
	return Ev{"lgk": bits.Len(uint(len(m))) - 1, "sid": o.sid, "cs": cpMatrix(m), "mg": false}
}

// ---- driver

type cpDrv struct {
	*Scn
	cfg   *Cfg
	next  int
	pool  int
	raw   int // percentage of keys with a chosen coupon
	lo    int // columns of chosen coupons: [lo, lo+span)
	span  int
	lgs   []int
	seeds []uint64
	scale int // size of blocks
}

func newCpDrv(s *Scn, cfg *Cfg) *cpDrv {
	r := s.Rng
	t := &cpDrv{Scn: s, cfg: cfg, next: 1}
	t.pool = pick(r, 20, 60, 300, 3000, 1<<30)
	t.raw = pick(r, 0, 0, 30, 80)
	t.lo = pick(r, 0, 0, 1, 2, 5, 8, 12, 20, 40, 55)
	t.span = pick(r, 1, 2, 4, 8, 9, 16)
	t.lgs = pick(r, []int{4}, []int{4, 5}, []int{4, 5, 6}, []int{5, 6}, []int{6, 7}, []int{7, 8})
	if r.Intn(40) == 0 {
		t.lgs = pick(r, []int{9, 10}, []int{12}, []int{5, 11})
	}
	t.seeds = []uint64{9001, 9001 ^ uint64(r.Int63n(1<<40)+1)}
	if SeedHash16(t.seeds[1]) == 0 || SeedHash16(t.seeds[1]) == SeedHash16(9001) {
		t.seeds[1] = 123
	}
	t.scale = pick(r, 1, 1, 2)
	return t
}

func (t *cpDrv) fresh() int { t.next++; return t.next - 1 }

func (t *cpDrv) slot() int {
	hs := t.Handles()
	if len(hs) >= 6 {
		h := hs[t.Rng.Intn(len(hs))]
		t.Drop(h)
		t.Do("drop", 0, Ev{"d": h}, func(ev Ev) error { return nil })
	}
	return t.fresh()
}

// rawKey is a key whose coupon is row, col under seed.
func (t *cpDrv) rawKey(seed uint64, row, col int) cpKey {
	r := t.Rng
	lo := uint64(row)&0xfffff | r.Uint64()<<20
	hi := r.Uint64()>>1>>col | 1<<63>>col
	if col == 63 {
		hi = uint64(r.Intn(2))
	}
	b := unmurmur(seed, lo, hi)
	if r.Intn(3) == 0 {
		return cpKey{kind: "is", a: []int64{int64(binary.LittleEndian.Uint64(b)), int64(binary.LittleEndian.Uint64(b[8:]))}}
	}
	return cpKey{kind: pick(r, "byt", "str"), s: string(b)}
}

func (t *cpDrv) key(seed uint64) cpKey {
	r := t.Rng
	if r.Intn(100) < t.raw {
		return t.rawKey(seed, r.Intn(1<<12), min(63, t.lo+r.Intn(t.span)))
	}
	k := cpKey{kind: "u64", i: int64(r.Intn(t.pool))}
	switch r.Intn(12) {
	case 0:
		k.kind, k.i = "i64", -k.i
	case 1:
		k.kind, k.s = "str", fmt.Sprintf("s%d", k.i)
	case 2:
		k.kind, k.s = "byt", string(make([]byte, 1+k.i%37))
	case 3:
		k.kind, k.f = "f64", pick(r, 0, math.Copysign(0, -1), math.NaN(), math.Inf(1), 1.5, float64(k.i)/3, -float64(k.i))
		if k.f != k.f && r.Intn(2) == 0 {
			k.f = anyNaN(r)
		}
	case 4:
		k.kind = "is"
		for i := 0; i <= int(k.i%5); i++ {
			k.a = append(k.a, k.i*7+int64(i))
		}
	case 5:
		k.kind = "is32"
		for i := 0; i <= int(k.i%5); i++ {
			k.a = append(k.a, int64(int32(k.i*7+int64(i))))
		}
	}
	return k
}

func (t *cpDrv) block(seed uint64, lgk int) []cpKey {
	r := t.Rng
	K := 1 << lgk
	n := pick(r, 1, 1, 2, 3, K/8, K/2, K, 2*K) * t.scale
	n = max(1, min(n, 1200))
	ks := make([]cpKey, n)
	b := int64(-1)
	if r.Intn(3) == 0 {
		b = int64(r.Intn(t.pool))
	}
	row := -1 // all in one row
	if r.Intn(12) == 0 {
		row = r.Intn(K)
		n = 1 + r.Intn(64)
	}
	desc := r.Intn(2) == 0
	for i := range ks {
		switch {
		case row >= 0:
			c := i % 64
			if desc {
				c = 63 - c
			}
			ks[i] = t.rawKey(seed, row, c)
		case b >= 0:
			ks[i] = cpKey{kind: "u64", i: b + int64(i)}
		default:
			ks[i] = t.key(seed)
		}
	}
	return ks
}

// fill offers chosen coupons of the columns [lo, hi) of every row.
func (t *cpDrv) fill(seed uint64, lgk, lo, hi, density int) []cpKey {
	r := t.Rng
	ks := []cpKey{}
	for row := 0; row < 1<<lgk; row++ {
		for c := lo; c < min(hi, 64); c++ {
			if r.Intn(100) < density {
				ks = append(ks, t.rawKey(seed, row, c))
			}
		}
	}
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	return ks
}

func cpCoupons(ks []cpKey, seed uint64) []any {
	o := make([]any, len(ks))
	for i, k := range ks {
		o[i] = k.coupon(seed)
	}
	return o
}

func (t *cpDrv) newSk(h, lgk, sid int) {
	t.Do("newc", h, Ev{"lgk": lgk, "sid": sid}, func(ev Ev) error {
		var s *cpc.CpcSketch
		var err error
		if t.seeds[sid] == 9001 && t.next%2 == 0 {
			s, err = cpc.NewCpcSketchWithDefault(lgk)
		} else {
			s, err = cpc.NewCpcSketch(lgk, t.seeds[sid])
		}
		if err == nil {
			t.Put(h, &cpSk{s: s, sid: sid, sd: t.seeds[sid], set: map[int]bool{}, kxp: float64(int(1) << lgk)})
		}
		return err
	})
}

// room drops keys once the matrix would be nearly full (out of the domain).
func (t *cpDrv) room(o *cpSk, ks []cpKey) []cpKey {
	if o.set == nil {
		return ks
	}
	lim := 50 << o.s.GetLgK()
	if len(o.set)+len(ks) > lim {
		return ks[:max(0, min(len(ks), lim-len(o.set)))]
	}
	return ks
}

func (t *cpDrv) upd(h int, ks []cpKey) {
	o := t.Get(h).(*cpSk)
	ks = t.room(o, ks)
	cs := cpCoupons(ks, o.sd)
	t.Do("upd", h, Ev{"ks": cs}, func(ev Ev) error {
		for i, k := range ks {
			if err := k.feed(o.s); err != nil {
				return err
			}
			o.model(cs[i].(int))
		}
		return nil
	})
}

func (t *cpDrv) updEmpty(h int) {
	o := t.Get(h).(*cpSk)
	w := t.Rng.Intn(4)
	t.Do("upd", h, Ev{"ks": []any{}}, func(ev Ev) error {
		switch w {
		case 0:
			return o.s.UpdateString("")
		case 1:
			return o.s.UpdateByteSlice(nil)
		case 2:
			return o.s.UpdateInt64Slice([]int64{})
		}
		return o.s.UpdateInt32Slice(nil)
	})
}

// again offers coupons that are present, as fresh items and as the same ones.
func (t *cpDrv) again(h int) {
	o := t.Get(h).(*cpSk)
	cs := o.Project()["cs"].([]any)
	if len(cs) == 0 {
		return
	}
	ks := []cpKey{}
	for i := 0; i < 12; i++ {
		c := pick(t.Rng, cs...).(int)
		k := t.rawKey(o.sd, c/64, c%64)
		ks = append(ks, k, k)
	}
	t.Do("again", h, Ev{"ses": cpEs(o.s)}, func(ev Ev) error {
		for _, k := range ks {
			if err := k.feed(o.s); err != nil {
				return err
			}
		}
		return nil
	})
}

func (t *cpDrv) copyOf(g, src int) {
	o := t.Get(src).(*cpSk)
	t.Do("copy", g, Ev{"src": src, "ses": cpEs(o.s)}, func(ev Ev) error {
		c, err := o.s.Copy()
		if err == nil {
			t.Put(g, o.clone(c))
		}
		return err
	})
}

func (t *cpDrv) ser(g, src int) {
	o := t.Get(src).(*cpSk)
	var img []byte
	t.Do("ser", g, Ev{"src": src, "ses": cpEs(o.s), "stable": true, "wes": []R{}}, func(ev Ev) error {
		var err error
		if img, err = o.s.ToCompactSlice(); err != nil {
			return err
		}
		img2, err := o.s.ToCompactSlice()
		if err != nil {
			return err
		}
		ev["stable"] = string(img) == string(img2)
		defer core.Keep(img)()
		w, err := cpc.NewCpcWrapperFromBytes(img)
		if err != nil {
			return err
		}
		ev["wes"] = cpEs(w)
		if w.GetLgK() != o.s.GetLgK() || w.GetFamily() != 16 {
			return errors.New("other parameters in the wrapper")
		}
		var s *cpc.CpcSketch
		if o.sd == 9001 && t.next%2 == 0 {
			s, err = cpc.NewCpcSketchFromSliceWithDefault(img)
		} else {
			s, err = cpc.NewCpcSketchFromSlice(img, o.sd)
		}
		if err == nil {
			t.Put(g, o.clone(s))
		}
		return err
	})
	if t.Dead {
		return
	}
	if t.Rng.Intn(4) == 0 {
		t.Do("xser", 0, Ev{}, func(ev Ev) error {
			_, err := cpc.NewCpcSketchFromSlice(img, t.seeds[1-o.sid])
			return err
		})
	}
	if t.Has(g) {
		t.Do("scribble", 0, Ev{}, func(ev Ev) error {
			for i := range img {
				img[i] ^= 0x5A
			}
			return nil
		})
	}
}

func (t *cpDrv) twin(g, src int) {
	a, b := t.Get(g).(*cpSk), t.Get(src).(*cpSk)
	ks := t.room(a, t.block(a.sd, a.s.GetLgK()))
	cs := cpCoupons(ks, a.sd)
	t.Do("twin", g, Ev{"src": src, "ks": cs}, func(ev Ev) error {
		for _, o := range []*cpSk{a, b} {
			for i, k := range ks {
				if err := k.feed(o.s); err != nil {
					return err
				}
				o.model(cs[i].(int))
			}
		}
		ev["post2"] = b.Project()
		return nil
	})
}

func (t *cpDrv) newUn(h, lgk, sid int) {
	t.Do("newn", h, Ev{"lgk": lgk, "sid": sid}, func(ev Ev) error {
		var u cpc.CpcUnion
		var err error
		if t.seeds[sid] == 9001 && t.next%2 == 0 {
			u, err = cpc.NewCpcUnionSketchWithDefault(lgk)
		} else {
			u, err = cpc.NewCpcUnionSketch(lgk, t.seeds[sid])
		}
		if err == nil {
			t.Put(h, &cpUn{&u, sid, t.seeds[sid]})
		}
		return err
	})
}

func (t *cpDrv) merge(h, src int) {
	u := t.Get(h).(*cpUn)
	o := t.Get(src).(*cpSk)
	t.Do("umerge", h, Ev{"src": src, "kept": true}, func(ev Ev) error {
		m, err := u.u.GetBitMatrix()
		if err != nil {
			return err
		}
		m0 := append([]uint64{}, m...)
		err = u.u.Update(o.s)
		for i := range m {
			if m[i] != m0[i] {
				ev["kept"] = false
			}
		}
		return err
	})
}

// cpIcon asks the library for the estimates of a merged sketch with nc coupons.
func cpIcon(lgk, nc int) []R {
	img := make([]byte, 16)
	img[0], img[1], img[2], img[3], img[5] = 4, 1, 16, byte(lgk), 2|8
	if nc == 0 {
		img[0], img[5] = 2, 2
		z := R(0)
		return []R{z, z, z, z, z}
	}
	binary.LittleEndian.PutUint32(img[8:], uint32(nc))
	w, err := cpc.NewCpcWrapperFromBytes(img)
	if err != nil {
		return []R{}
	}
	return cpEs(w)
}

func (t *cpDrv) result(g, src int) {
	u := t.Get(src).(*cpUn)
	t.Do("ures", g, Ev{"src": src, "ies": []R{}}, func(ev Ev) error {
		s, err := u.u.GetResult()
		if err != nil {
			return err
		}
		o := &cpSk{s: s, sid: u.sid, sd: u.sd, mg: true}
		t.Put(g, o)
		ev["ies"] = cpIcon(s.GetLgK(), len(u.Project()["cs"].([]any)))
		return nil
	})
}

func (t *cpDrv) est(h int) {
	o, ok := t.Get(h).(*cpSk)
	if !ok {
		return
	}
	t.Do("est", h, Ev{}, func(ev Ev) error {
		p := o.Project()
		nc := len(p["cs"].([]any))
		e := o.s.GetEstimate()
		f := e
		// estimates beyond K*2^20 lose the last columns to rounding
		if o.set != nil && o.hip < math.Ldexp(1, o.s.GetLgK()+20) {
			f = o.hip
		}
		ev["tlo"], ev["thi"], ev["zero"] = R(e), R(e), R(0)
		lb := func(k int) (float64, error) { return o.s.GetLowerBound(k), nil }
		ub := func(k int) (float64, error) { return o.s.GetUpperBound(k), nil }
		return estFill(ev, e, lb, ub, float64(nc), f)
	})
}

// accuracy offers n distinct plain items to sketches that are merged in part
// and compares the estimate with the truth.
func (t *cpDrv) accuracy() {
	r := t.Rng
	t.Begin(Ev{})
	lgk := pick(r, 8, 9, 10)
	n := int(math.Exp(r.Float64() * math.Log(60000)))
	base := r.Int63()
	est := func(h int, c float64) {
		o := t.Get(h).(*cpSk)
		t.Do("est", h, Ev{}, func(ev Ev) error {
			e := o.s.GetEstimate()
			eps := 7 * c / math.Sqrt(float64(int(1)<<lgk))
			ev["tlo"], ev["thi"], ev["zero"] = R(float64(n)*(1-eps)-1), R(float64(n)*(1+eps)+1), R(0)
			lb := func(k int) (float64, error) { return o.s.GetLowerBound(k), nil }
			ub := func(k int) (float64, error) { return o.s.GetUpperBound(k), nil }
			return estFill(ev, e, lb, ub, 0, e)
		})
	}
	t.Watch = false
	mk := func(h, from, to int) {
		t.Do("newc", h, Ev{"lgk": lgk, "sid": 0}, func(ev Ev) error {
			s, err := cpc.NewCpcSketch(lgk, t.seeds[0])
			if err == nil {
				t.Put(h, &cpSk{s: s, sid: 0, sd: t.seeds[0], set: map[int]bool{}, kxp: float64(int(1) << lgk)})
				for i := from; i < to; i++ {
					if err := s.UpdateInt64(base + int64(i)*7919); err != nil {
						return err
					}
				}
			}
			return err
		})
	}
	mk(1, 0, n)
	if t.Dead || !t.Has(1) {
		return
	}
	est(1, 0.6)
	mk(2, 0, n/2+r.Intn(n/2+1))
	mk(3, n/3, n)
	mk(4, n/4, n/2)
	if t.Dead {
		return
	}
	u, err := cpc.NewCpcUnionSketch(lgk, t.seeds[0])
	if err != nil {
		return
	}
	for _, h := range []int{4, 3, 2} {
		if core.Guard(func() error { return u.Update(t.Get(h).(*cpSk).s) }) != nil {
			return
		}
	}
	t.Do("ures", 5, Ev{"src": 1, "ies": []R{}}, func(ev Ev) error {
		s, err := u.GetResult()
		if err == nil {
			t.Put(5, &cpSk{s: s, sid: 0, sd: t.seeds[0], mg: true})
		}
		return err
	})
	if !t.Dead && t.Has(5) {
		est(5, 0.75)
	}
}

// coverage: see util.go.
func (t *cpDrv) coverage() {
	r := t.Rng
	t.Begin(Ev{})
	lgk := pick(r, 5, 6, 7, 8, 9, 10)
	mode := pick(r, "update", "update", "image", "copy", "union", "fold", "wrapper")
	n := 1 + int(math.Exp(r.Float64()*math.Log(20000)))
	K := float64(int(1) << lgk)
	rse := .5887 / math.Sqrt(K)
	if mode == "union" || mode == "fold" {
		rse = .6931 / math.Sqrt(K)
	}
	lo, hi := 0.0, rse
	if float64(n) >= 8*K {
		lo = rse
	}
	if lgk < 7 {
		rse *= 1.6
		hi *= 1.3
	}
	seed := t.seeds[0]
	mk := func(lg, from, to int, base int64) (*cpc.CpcSketch, error) {
		s, err := cpc.NewCpcSketch(lg, seed)
		for i := from; i < to && err == nil; i++ {
			err = s.UpdateInt64(base + int64(i))
		}
		return s, err
	}
	type est interface {
		GetEstimate() float64
		GetLowerBound(int) float64
		GetUpperBound(int) float64
	}
	coverage(t.Scn, Ev{"mode": mode, "lgk": lgk}, n, 400, rse, lo, hi, func(base int64) (float64, func(int) (float64, error), func(int) (float64, error), error) {
		var o est
		var err error
		var s, q *cpc.CpcSketch
		m := n * r.Intn(4) / 4
		switch mode {
		case "update":
			o, err = mk(lgk, 0, n, base)
		case "image", "copy", "wrapper":
			if mode == "wrapper" {
				m = n
			}
			if s, err = mk(lgk, 0, m, base); err != nil {
				break
			}
			var b []byte
			if mode == "copy" {
				s, err = s.Copy()
			} else if b, err = s.ToCompactSlice(); err == nil && mode == "image" {
				s, err = cpc.NewCpcSketchFromSlice(b, seed)
			}
			for i := m; i < n && err == nil; i++ {
				err = s.UpdateInt64(base + int64(i))
			}
			o = s
			if mode == "wrapper" && err == nil {
				o, err = cpc.NewCpcWrapperFromBytes(b)
			}
		case "union", "fold":
			if s, err = mk(lgk, 0, n*2/3, base); err != nil {
				break
			}
			lg := lgk
			if mode == "fold" {
				lg += 1 + r.Intn(2)
			}
			if q, err = mk(lg, n/3, n, base); err != nil {
				break
			}
			if r.Intn(2) == 0 {
				s, q = q, s
			}
			var u cpc.CpcUnion
			if u, err = cpc.NewCpcUnionSketch(lg, seed); err != nil {
				break
			}
			if err = u.Update(s); err != nil {
				break
			}
			if err = u.Update(q); err != nil {
				break
			}
			o, err = u.GetResult()
		}
		if err != nil {
			return 0, nil, nil, err
		}
		return o.GetEstimate(), func(k int) (float64, error) { return o.GetLowerBound(k), nil }, func(k int) (float64, error) { return o.GetUpperBound(k), nil }, nil
	})
}

func (t *cpDrv) byKind() (sks, uns []int) {
	for _, h := range t.Handles() {
		switch t.Get(h).(type) {
		case *cpSk:
			sks = append(sks, h)
		case *cpUn:
			uns = append(uns, h)
		}
	}
	return
}

func (t *cpDrv) random(steps int, w map[string]int) {
	r := t.Rng
	t.Begin(Ev{})
	ch := newChooser(w)
	lg := func() int { return pick(r, t.lgs...) }
	sid := func() int {
		if r.Intn(12) == 0 {
			return 1
		}
		return 0
	}
	t.newSk(t.fresh(), lg(), 0)
	if w["umerge"] > 0 {
		t.newUn(t.fresh(), lg(), 0)
	}
	blk := func(h int) []cpKey {
		o := t.Get(h).(*cpSk)
		lgk := o.s.GetLgK()
		if r.Intn(4) == 0 && lgk <= 6 {
			lo := pick(r, 0, 0, 1, 2, 3, 8, 16, 30, 45)
			return t.fill(o.sd, lgk, lo, lo+pick(r, 1, 2, 4, 8, 10, 16, 30), pick(r, 30, 70, 95, 100))
		}
		return t.block(o.sd, lgk)
	}
	for i := 0; i < steps && !t.Dead; i++ {
		sks, uns := t.byKind()
		if len(sks) == 0 {
			t.newSk(t.slot(), lg(), sid())
			continue
		}
		a := pick(r, sks...)
		switch op := ch.next(r); op {
		case "newc":
			t.newSk(t.slot(), lg(), sid())
		case "upd":
			t.upd(a, blk(a))
		case "updx":
			t.updEmpty(a)
		case "again":
			t.again(a)
		case "copy", "ser":
			g := t.slot()
			if !t.Has(a) {
				break
			}
			if op == "copy" {
				t.copyOf(g, a)
			} else {
				t.ser(g, a)
			}
			if r.Intn(2) == 0 && !t.Dead && t.Has(g) {
				t.twin(g, a)
			}
		case "newn":
			t.newUn(t.slot(), lg(), sid())
		case "umerge":
			if len(uns) > 0 {
				t.merge(pick(r, uns...), a)
			}
		case "ures":
			if len(uns) > 0 {
				u := pick(r, uns...)
				g := t.slot()
				if t.Has(u) {
					t.result(g, u)
				}
			}
		case "est":
			t.est(a)
		}
	}
}

// script replays a behaviour of MC_Cpc: model column c stands for the real
// columns [8c, 8c+8), model row r for half of the rows.
func (t *cpDrv) script(sc []any) {
	r := t.Rng
	t.Begin(Ev{})
	i := func(x any) int { return int(x.(float64)) }
	base := r.Intn(2)
	for _, st := range sc {
		if t.Dead {
			return
		}
		c := st.([]any)
		switch c[0].(string) {
		case "newc":
			t.newSk(i(c[1]), 4+base+i(c[2]), 0)
		case "newn":
			t.newUn(i(c[1]), 4+base+i(c[2]), 0)
		case "upd":
			// coupon (row, col): offered in one of the rows, or in half of them
			o := t.Get(i(c[1])).(*cpSk)
			row, col := i(c[2]), i(c[3])
			K := 1 << o.s.GetLgK()
			ks := []cpKey{}
			for q := 0; q < K/2; q++ {
				for d := 0; d < 4; d++ {
					ks = append(ks, t.rawKey(o.sd, 2*q+row, 4*col+d))
				}
			}
			r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
			if r.Intn(3) == 0 {
				ks = ks[:1+r.Intn(len(ks))]
			}
			t.upd(i(c[1]), ks)
		case "umerge":
			t.merge(i(c[1]), i(c[2]))
		case "ures":
			t.result(i(c[1]), i(c[2]))
		case "copy":
			t.copyOf(i(c[1]), i(c[2]))
		case "ser":
			t.ser(i(c[1]), i(c[2]))
		case "again":
			t.again(i(c[1]))
		default:
			panic("script op " + c[0].(string))
		}
	}
}

func cpcJobs(cfg *Cfg) []core.Job {
	var jobs []core.Job
	add := func(name string, n, steps int, w map[string]int) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("%s#%d", name, i), Run: func(s *Scn) {
				newCpDrv(s, cfg).random(steps, w)
			}})
		}
	}
	nsc := 250
	if cfg.Tier == "thorough" {
		nsc = 6000
	}
	for i, sc := range cfg.Scripts {
		if i >= nsc {
			break
		}
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("spec#%d", i), Run: func(s *Scn) { newCpDrv(s, cfg).script(sc) }})
	}
	switch cfg.Focus {
	case "C10":
		add("hist", cfg.N(1600, 20000), 18, map[string]int{"newc": 3, "upd": 40, "updx": 1, "again": 4, "copy": 1, "ser": 1, "newn": 1, "umerge": 1, "ures": 1})
	case "C11":
		add("union", cfg.N(1600, 20000), 24, map[string]int{"newc": 8, "upd": 22, "newn": 3, "umerge": 24, "ures": 6, "copy": 1, "ser": 1, "again": 1})
	case "C12":
		add("images", cfg.N(1600, 20000), 18, map[string]int{"newc": 4, "upd": 24, "newn": 1, "umerge": 9, "ures": 6, "copy": 5, "ser": 16})
	case "C28":
		add("est", cfg.N(300, 8000), 20, map[string]int{"newc": 4, "upd": 24, "newn": 1, "umerge": 4, "ures": 3, "copy": 2, "ser": 2, "est": 20, "again": 6})
		for i := 0; i < cfg.N(3, 100); i++ {
			for lgk := 4; lgk <= 26; lgk++ {
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("ref#%d", lgk), Run: func(s *Scn) { newCpDrv(s, cfg).reference(lgk) }})
			}
		}
		for i := 0; i < cfg.N(80, 2000); i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("acc#%d", i), Run: func(s *Scn) { newCpDrv(s, cfg).accuracy() }})
		}
		for i := 0; i < cfg.N(32, 800); i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("cov#%d", i), Run: func(s *Scn) { newCpDrv(s, cfg).coverage() }})
		}
	case "C30":
		add("iso", cfg.N(120, 8000), 22, map[string]int{"newc": 4, "upd": 20, "newn": 2, "umerge": 12, "ures": 6, "copy": 5, "ser": 5, "again": 1, "est": 1})
	}
	return jobs
}
