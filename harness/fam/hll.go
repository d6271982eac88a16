package fam

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"sort"

	"github.com/apache/datasketches-go/hll"

	"verif/harness/core"
)

// ---- keys

type hlKey struct {
	kind string
	i    int64
	s    string
}

func (k hlKey) bytes() []byte {
	if k.kind == "u64" || k.kind == "i64" {
		return le64(uint64(k.i))
	}
	return []byte(k.s)
}

func hlCoupon(b []byte) uint32 {
	lo, hi := murmur(9001, b)
	v := min(bits.LeadingZeros64(hi), 62) + 1
	return uint32(v)<<26 | uint32(lo&0x3ffffff)
}

func (k hlKey) coupon() uint32 { return hlCoupon(k.bytes()) }

type hlUpdatable interface {
	UpdateUInt64(uint64) error
	UpdateInt64(int64) error
	UpdateSlice([]byte) error
	UpdateString(string) error
}

func (k hlKey) feed(s hlUpdatable) error {
	switch k.kind {
	case "u64":
		return s.UpdateUInt64(uint64(k.i))
	case "i64":
		return s.UpdateInt64(k.i)
	case "byt":
		b := []byte(k.s)
		defer core.Keep(b)()
		return s.UpdateSlice(b)
	}
	return s.UpdateString(k.s)
}

func cEv(c uint32) Ev { return Ev{"c": H(c), "a": int(c & 0xffff), "v": int(c >> 26)} }
func cEvs(cs []uint32) []any {
	o := make([]any, len(cs))
	for i, c := range cs {
		o[i] = cEv(c)
	}
	return o
}

// ---- projection

func hlParse(img []byte) Ev {
	p := Ev{"lgk": int(img[3]), "typ": int(img[7]>>2) & 3, "mode": int(img[7] & 3), "cs": []any{}, "regs": []any{},
		"cm": 0, "nm": 0, "kx": R(0), "kxf": R(0)}
	mode := int(img[7] & 3)
	if mode < 2 {
		start := 8
		if mode == 1 {
			start = 12
		}
		cs := []uint32{}
		for i := start; i+4 <= len(img); i += 4 {
			if c := binary.LittleEndian.Uint32(img[i:]); c != 0 {
				cs = append(cs, c)
			}
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
		p["cs"] = cEvs(cs)
		if mode == 0 {
			p["nm"] = int(img[6])
		} else {
			p["nm"] = int(binary.LittleEndian.Uint32(img[8:]))
		}
		return p
	}
	K := 1 << img[3]
	regs := make([]int, K)
	cm := int(img[6])
	b := img[40:]
	switch img[7] >> 2 & 3 {
	case 0:
		aux := map[int]int{}
		for i := 40 + K/2; i+4 <= len(img); i += 4 {
			if e := binary.LittleEndian.Uint32(img[i:]); e != 0 {
				aux[int(e)&(K-1)] = int(e >> 26)
			}
		}
		for i := range regs {
			n := int(b[i/2]>>(4*(i%2))) & 15
			if n == 15 {
				v, ok := aux[i]
				if !ok {
					v = -1
				}
				regs[i] = v
			} else {
				regs[i] = n + cm
			}
		}
	case 1:
		for i := range regs {
			bit := i * 6
			w := uint(b[bit/8]) | uint(b[bit/8+1])<<8
			regs[i] = int(w>>(bit%8)) & 63
		}
	default:
		for i := range regs {
			regs[i] = int(b[i])
		}
	}
	sum := 0.0
	for _, v := range regs {
		sum += math.Ldexp(1, -v)
	}
	p["regs"] = ints(regs)
	p["cm"], p["nm"] = cm, int(binary.LittleEndian.Uint32(img[32:]))
	f := func(o int) float64 { return math.Float64frombits(binary.LittleEndian.Uint64(img[o:])) }
	p["kx"], p["kxf"] = R(f(16)+f(24)), R(sum)
	return p
}

// agree: the getters say what the image does.
func hlAgree(p Ev, s interface {
	GetLgConfigK() int
	GetTgtHllType() hll.TgtHllType
	IsEmpty() bool
}, mode int) bool {
	return s.GetLgConfigK() == p["lgk"] && int(s.GetTgtHllType()) == p["typ"] && mode == p["mode"]
}

type hlEst interface {
	GetEstimate() (float64, error)
	GetCompositeEstimate() (float64, error)
	GetLowerBound(int) (float64, error)
	GetUpperBound(int) (float64, error)
}

func hlEs(s hlEst) []R {
	o := []R{}
	add := func(f float64, err error) {
		if err != nil {
			f = math.NaN()
		}
		o = append(o, R(f))
	}
	add(s.GetLowerBound(1))
	add(s.GetEstimate())
	add(s.GetUpperBound(1))
	add(s.GetCompositeEstimate())
	return o
}

type hlSk struct {
	s  hll.HllSketch
	in *hlRef // nil once something was merged
}

// hlRef is the in-order (HIP) estimator of the registers, from the moment
// the sketch has any.
type hlRef struct {
	seen map[uint32]bool
	regs []int      // nil while coupons are kept
	kxq  [2]float64 // below and from 32
	est  float64
	at   float64 // coupon estimate at the promotion
	atC  int
}

func newHlRef() *hlRef { return &hlRef{seen: map[uint32]bool{}} }
func (m *hlRef) clone() *hlRef {
	if m == nil {
		return nil
	}
	c := *m
	c.regs = append([]int(nil), m.regs...)
	c.seen = map[uint32]bool{}
	for x := range m.seen {
		c.seen[x] = true
	}
	return &c
}

// offer is told of a coupon just offered to s.
func (m *hlRef) offer(s hll.HllSketch, c uint32) {
	if m == nil {
		return
	}
	m.seen[c] = true
	K := 1 << s.GetLgConfigK()
	put := func(c uint32) {
		a, v := int(c)&(K-1), int(c>>26)
		if v > m.regs[a] {
			m.est += float64(K) / (m.kxq[0] + m.kxq[1])
			m.kxq[m.regs[a]/32] -= math.Ldexp(1, -m.regs[a])
			m.kxq[v/32] += math.Ldexp(1, -v)
			m.regs[a] = v
		}
	}
	if m.regs == nil {
		if int(s.GetCurMode()) == 2 {
			m.regs, m.kxq = make([]int, K), [2]float64{float64(K), 0}
			for c := range m.seen {
				put(c)
			}
			m.est, _ = s.GetEstimate()
			m.at, m.atC = m.est, len(m.seen)
		}
		return
	}
	put(c)
}

func (o *hlSk) Project() Ev {
	es := hlEs(o.s)
	img, err := o.s.ToUpdatableSlice()
	if err != nil {
		panic(err)
	}
	p := hlParse(img)
	p["es"] = es
	p["emp"] = o.s.IsEmpty()
	p["agree"] = o.s.GetSerializationVersion() == 1 && hlAgree(p, o.s, int(o.s.GetCurMode()))
	p["dsz"] = o.s.GetUpdatableSerializationBytes()
	p["asz"] = len(img)
	return p
}

type hlUn struct{ u hll.Union }

func (o *hlUn) Project() Ev {
	img, err := o.u.ToUpdatableSlice()
	if err != nil {
		panic(err)
	}
	p := hlParse(img)
	p["es"] = hlEs(o.u)
	p["emp"] = o.u.IsEmpty()
	p["agree"] = hlAgree(p, o.u, int(o.u.GetCurMode()))
	p["dsz"] = o.u.GetUpdatableSerializationBytes()
	p["asz"] = len(img)
	return p
}

// ---- driver

type hlDrv struct {
	*Scn
	cfg  *Cfg
	next int
	pool int
	high int // percentage of keys with chosen, mostly large register values
	lo   int // chosen values start here
	span int
	lgs  []int
}

func newHlDrv(s *Scn, cfg *Cfg) *hlDrv {
	r := s.Rng
	t := &hlDrv{Scn: s, cfg: cfg, next: 1}
	t.pool = pick(r, 30, 100, 300, 5000, 1<<30)
	t.high = pick(r, 0, 0, 10, 40, 90)
	t.lo = pick(r, 0, 8, 8, 14, 14, 20, 40, 61, r.Intn(63))
	t.span = pick(r, 1, 2, 5, 16, 17, 30)
	t.lgs = pick(r, []int{4}, []int{4, 5}, []int{4, 5, 6, 7}, []int{8}, []int{7, 8, 9}, []int{4, 6, 8})
	return t
}

func (t *hlDrv) fresh() int { t.next++; return t.next - 1 }

func (t *hlDrv) slot() int {
	hs := t.Handles()
	if len(hs) >= 6 {
		h := hs[t.Rng.Intn(len(hs))]
		t.Drop(h)
		t.Do("drop", 0, Ev{"d": h}, func(ev Ev) error { return nil })
	}
	return t.fresh()
}

func (t *hlDrv) key() hlKey {
	r := t.Rng
	if r.Intn(100) < t.high {
		v := min(63, 1+t.lo+r.Intn(t.span))
		if r.Intn(10) == 0 {
			v = min(63, v+15)
		}
		return t.chosen(r.Intn(min(t.pool, 1<<12)), v)
	}
	k := hlKey{kind: "u64", i: int64(r.Intn(t.pool))}
	switch r.Intn(8) {
	case 0:
		k.kind, k.i = "i64", -k.i
	case 1:
		k.kind, k.s = "str", fmt.Sprintf("s%d", k.i)
	case 2:
		k.kind, k.s = "byt", string(make([]byte, 1+k.i%37))
	}
	return k
}

// chosen is a key whose coupon has the register value v and an address that
// ends in a.
func (t *hlDrv) chosen(a, v int) hlKey {
	r := t.Rng
	lo := mix64(uint64(a)*64+uint64(v)+uint64(r.Intn(2)))<<12 | uint64(a)&0xfff
	hi := r.Uint64()>>1>>(v-1) | 1<<63>>(v-1)
	if v == 63 {
		hi = uint64(r.Intn(4))
	}
	return hlKey{kind: pick(r, "byt", "str"), s: string(unmurmur(9001, lo, hi))}
}

func (t *hlDrv) block() []hlKey {
	r := t.Rng
	n := pick(r, 1, 1, 2, 3, 7, 8, 15, 30, 60, 120)
	if n == 1 && r.Intn(10) == 0 {
		n = 250
	}
	ks := make([]hlKey, n)
	b := int64(-1)
	if r.Intn(3) == 0 {
		b = int64(r.Intn(t.pool))
	}
	all := t.high > 0 && r.Intn(4) == 0 // all slots of a small sketch alike
	for i := range ks {
		if all {
			ks[i] = t.chosen(i, min(63, 1+t.lo+r.Intn(2)))
		} else if b >= 0 {
			ks[i] = hlKey{kind: "u64", i: b + int64(i)}
		} else {
			ks[i] = t.key()
		}
	}
	return ks
}

var hlTypes = []hll.TgtHllType{hll.TgtHllTypeHll4, hll.TgtHllTypeHll6, hll.TgtHllTypeHll8}

func (t *hlDrv) newSk(h, lgk int, ty int) {
	t.Do("newh", h, Ev{"lgk": lgk, "typ": ty, "dflt": []int{}}, func(ev Ev) error {
		d, err := hll.NewHllSketchWithDefault()
		if err != nil {
			return err
		}
		u, err := hll.NewUnionWithDefault()
		if err != nil {
			return err
		}
		ev["dflt"] = []int{d.GetLgConfigK(), int(d.GetTgtHllType()), u.GetLgConfigK(), int(u.GetTgtHllType())}
		s, err := hll.NewHllSketch(lgk, hlTypes[ty])
		if err == nil {
			t.Put(h, &hlSk{s, newHlRef()})
		}
		return err
	})
}

func coupons(ks []hlKey) []uint32 {
	o := make([]uint32, len(ks))
	for i, k := range ks {
		o[i] = k.coupon()
	}
	return o
}

func (t *hlDrv) upd(h int, ks []hlKey) {
	o := t.Get(h)
	t.Do("upd", h, Ev{"ks": cEvs(coupons(ks))}, func(ev Ev) error {
		for _, k := range ks {
			var err error
			switch o := o.(type) {
			case *hlSk:
				err = k.feed(o.s)
				if err == nil && t.cfg.Focus == "C28" {
					o.in.offer(o.s, k.coupon())
				}
			case *hlUn:
				err = k.feed(o.u)
			}
			if err != nil {
				return err
			}
		}
		return nil
	})
}

func (t *hlDrv) updEmpty(h int) {
	o := t.Get(h)
	str := t.Rng.Intn(2) == 0
	t.Do("upd", h, Ev{"ks": []any{}}, func(ev Ev) error {
		var u hlUpdatable
		switch o := o.(type) {
		case *hlSk:
			u = o.s
		case *hlUn:
			u = o.u
		}
		if str {
			return u.UpdateString("")
		}
		return u.UpdateSlice(nil)
	})
}

func (t *hlDrv) reset(h int) {
	o := t.Get(h)
	t.Do("reset", h, Ev{}, func(ev Ev) error {
		switch o := o.(type) {
		case *hlSk:
			o.in = newHlRef()
			return o.s.Reset()
		case *hlUn:
			return o.u.Reset()
		}
		return nil
	})
}

func (t *hlDrv) copyAs(g, src int) {
	o := t.Get(src).(*hlSk)
	ty := t.Rng.Intn(4)
	t.Do("copy", g, Ev{"src": src, "typ": ty, "ses": hlEs(o.s)}, func(ev Ev) error {
		var c hll.HllSketch
		var err error
		if ty == 3 {
			c, err = o.s.Copy()
		} else {
			c, err = o.s.CopyAs(hlTypes[ty])
		}
		if err == nil {
			t.Put(g, &hlSk{c, o.in.clone()})
		}
		return err
	})
}

type hlImg interface {
	ToCompactSlice() ([]byte, error)
	ToUpdatableSlice() ([]byte, error)
}

// ser writes src (a sketch or a union) and reads it back as g.
func (t *hlDrv) ser(g, src int) {
	r := t.Rng
	o := t.Get(src)
	var w hlImg
	var es []R
	var in *hlRef
	switch o := o.(type) {
	case *hlSk:
		w, es, in = o.s, hlEs(o.s), o.in.clone()
	case *hlUn:
		w, es = o.u, hlEs(o.u)
	}
	comp := r.Intn(2) == 0
	asUnion := r.Intn(4) == 0
	rebuild := r.Intn(2) == 0
	args := Ev{"src": src, "compact": comp, "un": asUnion, "ses": es, "stable": true}
	var img []byte
	t.Do("ser", g, args, func(ev Ev) error {
		write := func() ([]byte, error) {
			if comp {
				return w.ToCompactSlice()
			}
			return w.ToUpdatableSlice()
		}
		var err error
		img, err = write()
		if err != nil {
			return err
		}
		img2, err := write()
		if err != nil {
			return err
		}
		ev["stable"] = string(img) == string(img2)
		defer core.Keep(img)()
		if asUnion {
			u, err := hll.NewUnionFromSlice(img)
			if err != nil {
				return err
			}
			t.Put(g, &hlUn{u})
			return nil
		}
		s, err := hll.NewHllSketchFromSlice(img, rebuild)
		if err != nil {
			return err
		}
		t.Put(g, &hlSk{s, in})
		return nil
	})
	if !t.Dead && t.Has(g) {
		t.Do("scribble", 0, Ev{}, func(ev Ev) error {
			for i := range img {
				img[i] ^= 0x5A
			}
			return nil
		})
	}
}

// twin updates a restored or copied object and its original alike.
func (t *hlDrv) twin(g, src int) {
	a, b := t.Get(g), t.Get(src)
	ks := t.block()
	feed := func(o core.Obj, k hlKey) error {
		switch o := o.(type) {
		case *hlSk:
			o.in = nil
			return k.feed(o.s)
		case *hlUn:
			return k.feed(o.u)
		}
		return nil
	}
	t.Do("twin", g, Ev{"src": src, "ks": cEvs(coupons(ks))}, func(ev Ev) error {
		for _, k := range ks {
			if err := feed(a, k); err != nil {
				return err
			}
		}
		for _, k := range ks {
			if err := feed(b, k); err != nil {
				return err
			}
		}
		ev["post2"] = b.Project()
		return nil
	})
}

func (t *hlDrv) newUn(h, lgk int) {
	t.Do("newn", h, Ev{"lgk": lgk}, func(ev Ev) error {
		u, err := hll.NewUnion(lgk)
		if err == nil {
			t.Put(h, &hlUn{u})
		}
		return err
	})
}

func (t *hlDrv) merge(h, src int) {
	u := t.Get(h).(*hlUn)
	o := t.Get(src).(*hlSk)
	ask := t.Rng.Intn(3) > 0
	first := t.Rng.Intn(2) == 0
	t.Do("umerge", h, Ev{"src": src, "es": []R{}, "rs": []R{}}, func(ev Ev) error {
		if err := u.u.UpdateSketch(o.s); err != nil {
			return err
		}
		if !ask {
			return nil
		}
		var es, rs []R
		if first {
			es = hlEs(u.u)
		}
		c, err := u.u.GetResult(hll.TgtHllTypeHll8)
		if err != nil {
			return err
		}
		rs = hlEs(c)
		if !first {
			es = hlEs(u.u)
		}
		ev["es"], ev["rs"] = es, rs
		return nil
	})
}

func (t *hlDrv) result(g, src int) {
	u := t.Get(src).(*hlUn)
	ty := t.Rng.Intn(3)
	t.Do("ures", g, Ev{"src": src, "typ": ty, "ses": hlEs(u.u)}, func(ev Ev) error {
		c, err := u.u.GetResult(hlTypes[ty])
		if err == nil {
			t.Put(g, &hlSk{s: c})
		}
		return err
	})
}

func (t *hlDrv) byKind() (sks, uns []int) {
	for _, h := range t.Handles() {
		switch t.Get(h).(type) {
		case *hlSk:
			sks = append(sks, h)
		case *hlUn:
			uns = append(uns, h)
		}
	}
	return
}

func (t *hlDrv) random(steps int, w map[string]int) {
	r := t.Rng
	t.Begin(Ev{})
	ch := newChooser(w)
	lg := func() int { return pick(r, t.lgs...) }
	t.newSk(t.fresh(), lg(), r.Intn(3))
	if w["umerge"] > 0 {
		t.newUn(t.fresh(), lg())
	}
	for i := 0; i < steps && !t.Dead; i++ {
		sks, uns := t.byKind()
		all := append(append([]int{}, sks...), uns...)
		switch ch.next(r) {
		case "newh":
			t.newSk(t.slot(), lg(), r.Intn(3))
		case "upd":
			if len(sks) > 0 {
				t.upd(pick(r, sks...), t.block())
			}
		case "updx":
			t.updEmpty(pick(r, all...))
		case "reset":
			if len(sks) > 0 {
				t.reset(pick(r, sks...))
			}
		case "copy":
			if len(sks) > 0 {
				src := pick(r, sks...)
				g := t.slot()
				if t.Has(src) {
					t.copyAs(g, src)
					if r.Intn(3) == 0 && !t.Dead && t.Has(g) {
						t.twin(g, src)
					}
				}
			}
		case "ser":
			if len(all) > 0 {
				src := pick(r, all...)
				g := t.slot()
				if t.Has(src) {
					t.ser(g, src)
					if r.Intn(2) == 0 && !t.Dead && t.Has(g) {
						t.twin(g, src)
					}
				}
			}
		case "newn":
			t.newUn(t.slot(), lg())
		case "umerge":
			if len(sks) > 0 && len(uns) > 0 {
				t.merge(pick(r, uns...), pick(r, sks...))
			}
		case "uupd":
			if len(uns) > 0 {
				t.upd(pick(r, uns...), t.block())
			}
		case "ures":
			if len(uns) > 0 {
				src := pick(r, uns...)
				g := t.slot()
				if t.Has(src) {
					t.result(g, src)
				}
			}
		case "ureset":
			if len(uns) > 0 {
				t.reset(pick(r, uns...))
			}
		case "est":
			t.est(pick(r, all...))
		}
		if len(all) == 0 {
			t.newSk(t.slot(), lg(), r.Intn(3))
		}
	}
}

// est records estimate and bounds of h, which must be in-order truth for C28.
func (t *hlDrv) est(h int) {
	o := t.Get(h)
	var s hlEst
	switch o := o.(type) {
	case *hlSk:
		s = o.s
	case *hlUn:
		s = o.u
	}
	t.Do("est", h, Ev{}, func(ev Ev) error {
		e, err := s.GetEstimate()
		if err != nil {
			return err
		}
		p := o.Project()
		nc := len(p["cs"].([]any))
		fl := float64(nc)
		z := 0
		regs := p["regs"].([]any)
		for _, v := range regs {
			if v.(int) > 0 {
				fl++
			} else {
				z++
			}
		}
		// the composite estimate only depends on the registers: a fresh sketch
		// holding the same content must agree
		ce, err := s.GetCompositeEstimate()
		if err != nil {
			return err
		}
		ref, f := ce, e
		K := len(regs)
		ev["tlo"], ev["thi"], ev["zero"] = R(0), R(math.Inf(1)), R(0)
		if K == 0 {
			// few coupons of 2^26: the estimate is their number, or a hair more
			ev["tlo"], ev["thi"] = R(fl), R(fl*(1+1e-5)+fl*fl/(1<<27))
		} else {
			if ref, err = hlComposite(regs); err != nil {
				return err
			}
			if float64(z) >= .7*float64(K) && K >= 64 {
				h := 0.0
				for i := z + 1; i <= K; i++ {
					h += 1 / float64(i)
				}
				ref = float64(K) * h
			}
			f = ce
			if sk, ok := o.(*hlSk); ok {
				if sk.in != nil && sk.in.regs != nil {
					f = sk.in.est
					c := float64(sk.in.atC)
					if sk.in.at < c || sk.in.at > c*(1+1e-5)+c*c/(1<<27) {
						f = math.Inf(-1)
					}
				} else {
					f = e // built by a union: either estimator
				}
			} else {
				f = e
			}
		}
		ev["ce"], ev["ref"] = R(ce), R(ref)
		return estFill(ev, e, s.GetLowerBound, s.GetUpperBound, fl, f)
	})
}

// hlComposite asks a sketch read from an 8-bit image of the registers.
func hlComposite(regs []any) (float64, error) {
	K := len(regs)
	img := make([]byte, 40+K)
	kx0, kx1 := 0.0, 0.0
	z := 0
	for i, v := range regs {
		img[40+i] = byte(v.(int))
		if v.(int) == 0 {
			z++
		}
		if v.(int) < 32 {
			kx0 += math.Ldexp(1, -v.(int))
		} else {
			kx1 += math.Ldexp(1, -v.(int))
		}
	}
	img[0], img[1], img[2], img[3] = 10, 1, 7, byte(bits.TrailingZeros(uint(K)))
	img[5] = 16 // out of order
	img[7] = 2 | 2<<2
	binary.LittleEndian.PutUint64(img[16:], math.Float64bits(kx0))
	binary.LittleEndian.PutUint64(img[24:], math.Float64bits(kx1))
	binary.LittleEndian.PutUint32(img[32:], uint32(z))
	s, err := hll.NewHllSketchFromSlice(img, false)
	if err != nil {
		return 0, err
	}
	return s.GetEstimate()
}

// coverage: see util.go.
func (t *hlDrv) coverage() {
	r := t.Rng
	t.Begin(Ev{})
	lgk := pick(r, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 13, 13, 13, 14)
	ty := hlTypes[r.Intn(3)]
	n := 1 + int(math.Exp(r.Float64()*math.Log(30000)))
	if r.Intn(2) == 0 {
		n = int((2 + 2*r.Float64()) * float64(int(1)<<lgk))
	}
	mode := pick(r, "update", "update", "image", "copy", "union", "merge", "direct")
	rse := .8326
	if mode == "union" || mode == "merge" {
		rse = 1.04
	}
	big, K := lgk, float64(int(1)<<lgk)
	if mode == "merge" { // of different sizes: the least counts
		big = lgk + 1 + r.Intn(2)
	}
	rse /= math.Sqrt(K)
	lo := 0.0
	if float64(n) >= 2*K {
		lo = rse
	}
	hi := rse
	if lgk < 7 {
		rse *= 1.6
		hi *= 1.3
	}
	mk := func(lg, from, to int, base int64) (hll.HllSketch, error) {
		s, err := hll.NewHllSketch(lg, ty)
		for i := from; i < to && err == nil; i++ {
			err = s.UpdateInt64(base + int64(i))
		}
		return s, err
	}
	type est interface {
		GetEstimate() (float64, error)
		GetLowerBound(int) (float64, error)
		GetUpperBound(int) (float64, error)
	}
	coverage(t.Scn, Ev{"mode": mode, "lgk": lgk}, n, 400, rse, lo, hi, func(base int64) (float64, func(int) (float64, error), func(int) (float64, error), error) {
		var o est
		var err error
		var s, q hll.HllSketch
		m := n * (1 + r.Intn(3)) / 4
		switch mode {
		case "update":
			o, err = mk(lgk, 0, n, base)
		case "image", "copy":
			if s, err = mk(lgk, 0, m, base); err != nil {
				break
			}
			var b []byte
			if mode == "copy" {
				s, err = s.CopyAs(hlTypes[r.Intn(3)])
			} else if r.Intn(2) == 0 {
				b, err = s.ToCompactSlice()
			} else {
				b, err = s.ToUpdatableSlice()
			}
			if err == nil && b != nil {
				s, err = hll.NewHllSketchFromSlice(b, true)
			}
			for i := m; i < n && err == nil; i++ {
				err = s.UpdateInt64(base + int64(i))
			}
			o = s
		case "union", "merge":
			var u hll.Union
			if s, err = mk(lgk, 0, n*2/3, base); err != nil {
				break
			}
			if q, err = mk(big, n/3, n, base); err != nil {
				break
			}
			if u, err = hll.NewUnion(max(big, 12)); err != nil {
				break
			}
			if mode == "merge" || r.Intn(2) == 0 { // a larger source after a smaller one may be refused
				s, q = q, s
			}
			if err = u.UpdateSketch(s); err != nil {
				break
			}
			if err = u.UpdateSketch(q); err != nil {
				break
			}
			o = u
			if r.Intn(2) == 0 {
				o, err = u.GetResult(ty)
			}
		case "direct":
			var u hll.Union
			if u, err = hll.NewUnion(lgk); err != nil {
				break
			}
			for i := 0; i < n && err == nil; i++ {
				err = u.UpdateInt64(base + int64(i))
			}
			o = u
		}
		if err != nil {
			return 0, nil, nil, err
		}
		e, err := o.GetEstimate()
		return e, o.GetLowerBound, o.GetUpperBound, err
	})
}

// script replays a behaviour of MC_Hll.
func (t *hlDrv) script(sc []any) {
	r := t.Rng
	t.Begin(Ev{})
	i := func(x any) int { return int(x.(float64)) }
	base := r.Intn(3)
	lg := func(c int) int { return []int{4, 5, 8, 9}[(c+base)%4] }
	for _, st := range sc {
		if t.Dead {
			return
		}
		c := st.([]any)
		switch c[0].(string) {
		case "newh":
			t.newSk(i(c[1]), lg(i(c[2])), r.Intn(3))
		case "newn":
			t.newUn(i(c[1]), lg(i(c[2])))
		case "few", "many", "high":
			n := 1 + r.Intn(4)
			t.high = 0
			if c[0] == "many" {
				n = 20 + r.Intn(60)
			} else if c[0] == "high" {
				t.high, n = 80, 3+r.Intn(20)
			}
			ks := make([]hlKey, n)
			for j := range ks {
				ks[j] = t.key()
			}
			t.upd(i(c[1]), ks)
		case "umerge":
			t.merge(i(c[1]), i(c[2]))
		case "copy":
			t.copyAs(i(c[1]), i(c[2]))
		case "ser":
			t.ser(i(c[1]), i(c[2]))
		case "ures":
			t.result(i(c[1]), i(c[2]))
		case "reset":
			t.reset(i(c[1]))
		default:
			panic("script op " + c[0].(string))
		}
	}
}

func hllJobs(cfg *Cfg) []core.Job {
	var jobs []core.Job
	add := func(name string, n, steps int, w map[string]int) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("%s#%d", name, i), Run: func(s *Scn) {
				newHlDrv(s, cfg).random(steps, w)
			}})
		}
	}
	nsc := 250
	if cfg.Tier == "thorough" {
		nsc = 6000
	}
	for i, sc := range cfg.Scripts {
		if i >= nsc {
			break
		}
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("spec#%d", i), Run: func(s *Scn) { newHlDrv(s, cfg).script(sc) }})
	}
	switch cfg.Focus {
	case "C07":
		add("hist", cfg.N(700, 20000), 22, map[string]int{"newh": 4, "upd": 40, "updx": 1, "reset": 2, "copy": 6, "ser": 1})
	case "C08":
		add("union", cfg.N(700, 20000), 26, map[string]int{"newh": 8, "upd": 22, "newn": 3, "umerge": 22, "uupd": 6, "ures": 5, "ureset": 2, "reset": 1, "copy": 1, "ser": 1})
	case "C09":
		add("images", cfg.N(700, 20000), 22, map[string]int{"newh": 4, "upd": 20, "newn": 1, "umerge": 6, "uupd": 2, "ures": 2, "copy": 8, "ser": 14, "reset": 1})
	case "C28":
		add("est", cfg.N(400, 8000), 20, map[string]int{"newh": 4, "upd": 26, "newn": 1, "umerge": 5, "uupd": 2, "ures": 3, "copy": 2, "ser": 2, "est": 20, "reset": 1})
		for i := 0; i < cfg.N(2, 60); i++ {
			for lgk := 4; lgk <= 21; lgk++ {
				if lgk < 16 || i == 0 {
					jobs = append(jobs, core.Job{Name: fmt.Sprintf("ref#%d", lgk), Run: func(s *Scn) { newHlDrv(s, cfg).reference(lgk) }})
				}
			}
			jobs = append(jobs, core.Job{Name: "refc", Run: func(s *Scn) { newHlDrv(s, cfg).couponReference() }})
		}
		for i := 0; i < cfg.N(80, 800); i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("cov#%d", i), Run: func(s *Scn) { newHlDrv(s, cfg).coverage() }})
		}
	case "C30":
		add("iso", cfg.N(140, 8000), 24, map[string]int{"newh": 4, "upd": 20, "newn": 2, "umerge": 10, "uupd": 4, "ures": 6, "ureset": 1, "copy": 6, "ser": 6, "reset": 1})
	}
	return jobs
}
