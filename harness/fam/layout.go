package fam

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"

	"verif/harness/core"
)

// C31: images are the bytes the published layouts prescribe for the content.
// The content comes from what was offered or from the public queries, never
// from the image; whether the image is one of it is Layout.tla's to say.

type lyDrv struct {
	*imDrv
}

func by(b []byte) []any {
	o := make([]any, len(b))
	for i, x := range b {
		o[i] = int(x)
	}
	return o
}
func by64(v uint64) []any  { return by(le64(v)) }
func byF(v float64) []any  { return by64(math.Float64bits(v)) }
func by32(v uint32) []any  { return by(le32(v)) }
func anys(xs ...any) []any { return append([]any{}, xs...) }

// image records that the library (or, for op "made", another writer) gives img for c.
func (d *lyDrv) image(op, f string, fn func() (Ev, []byte, error)) []byte {
	var img []byte
	d.Do(op, 0, Ev{"fmt": f, "c": Ev{"x": 0}, "img": []any{}}, func(ev Ev) error {
		c, b, err := fn()
		if err != nil {
			return err
		}
		img = b
		ev["c"], ev["img"] = c, by(b)
		return nil
	})
	return img
}

func lySh() []any { return by(binary.LittleEndian.AppendUint16(nil, SeedHash16(imSeed))) }

func (d *lyDrv) size() int { return pick(d.Rng, 0, 1, 2, 3, 5, 8, 12, 20, 30) }

// ---- theta

func lyTheta(s theta.Sketch) Ev {
	hs := []any{}
	for h := range s.All() {
		hs = append(hs, by64(h))
	}
	return Ev{"emp": s.IsEmpty(), "ord": s.IsOrdered(), "sh": lySh(), "theta": by64(s.Theta64()), "hs": hs}
}

func (d *lyDrv) thetaImages() {
	r := d.Rng
	c, err := d.theta(pick(r, d.size(), d.size(), 45, 60)) // lgK 5 and more: some are estimating
	if err != nil {
		panic(err)
	}
	if r.Intn(4) == 0 {
		x, err := d.theta(d.size())
		if err != nil {
			panic(err)
		}
		if x, err := theta.ANotB(x, c, imSeed, r.Intn(2) == 0); err == nil {
			c = x
		}
	}
	cont := lyTheta(c)
	put := func(f, w string) []byte {
		return d.image("written", f, func() (Ev, []byte, error) {
			b, err := thMarshal(c, w)
			return cont, b, err
		})
	}
	img := put("theta3", pick(r, "mb", "enc"))
	z := put("theta4", "encz")
	back := func(f string, b []byte) {
		if b == nil {
			return
		}
		for _, how := range []string{"dec", pick(r, "rd", "rd1"), "wrap"} {
			d.image("read", f, func() (Ev, []byte, error) {
				s, err := thRead(b, how, imSeed, 1+r.Intn(9))
				if err != nil {
					return nil, nil, err
				}
				return lyTheta(s), b, nil
			})
		}
	}
	back("theta3", img)
	back("theta4", z)
	// by earlier releases
	back("theta1", thOld(c, 1))
	back("theta2", thOld(c, 2))
	// by another writer: unordered, the entries anywhere
	if img != nil && !c.IsOrdered() {
		back("theta3", lyShuffle(r, img, 8*int(img[0]), 8))
	}
	if img != nil && c.IsOrdered() && len(img) > 8 {
		b := lyShuffle(r, img, 8*int(img[0]), 8)
		b[5] &^= 16
		back("theta3", b)
	}
}

// lyShuffle shuffles entries of n bytes from at on.
func lyShuffle(r *rand.Rand, img []byte, at, n int) []byte {
	b := append([]byte(nil), img...)
	k := (len(b) - at) / n
	r.Shuffle(k, func(i, j int) {
		t := append([]byte(nil), b[at+i*n:at+i*n+n]...)
		copy(b[at+i*n:], b[at+j*n:at+j*n+n])
		copy(b[at+j*n:], t)
	})
	return b
}

// ---- tuple

func lyTuple(o *tuSk, w int) Ev {
	hs, sums := []any{}, []any{}
	o.all(func(h uint64, v []int) {
		hs = append(hs, by64(h))
		var b bytes.Buffer
		switch {
		case o.kind.name() == "strs":
			ss := []any{}
			for _, x := range v {
				ss = append(ss, by([]byte(strconv.Itoa(x))))
			}
			sums = append(sums, ss)
			return
		case w == 0:
			_ = intsWriter(&b, v)
		default:
			for _, x := range v {
				switch o.kind.(type) {
				case *aKind[int64]:
					b.Write(le64(uint64(x)))
				case *aKind[int32]:
					b.Write(le32(uint32(x)))
				case *aKind[float32]:
					b.Write(le32(math.Float32bits(float32(x))))
				default:
					b.Write(le64(math.Float64bits(float64(x))))
				}
			}
		}
		sums = append(sums, by(b.Bytes()))
	})
	return Ev{"emp": o.m.IsEmpty(), "ord": o.m.IsOrdered(), "sh": lySh(), "theta": by64(o.m.Theta64()), "hs": hs, "sums": sums, "nv": 2, "w": w}
}

func (d *lyDrv) tupleImages(k tuKind) {
	r := d.Rng
	s, err := k.newUpd(5, theta.ResizeX8, pick(r, float32(1), 1, .5), imSeed)
	if err != nil {
		panic(err)
	}
	b := r.Int63()
	n := pick(r, 0, 1, 2, 3, 5, 9, 20, 80)
	for i := 0; i < n; i++ {
		_ = s.u.feed(thKey{kind: "i64", i: b + int64(i)}, i%900)
		if r.Intn(3) == 0 {
			_ = s.u.feed(thKey{kind: "i64", i: b + int64(i)}, i%7)
		}
	}
	c, err := k.compact(s, r.Intn(2), r.Intn(2) == 0)
	if err != nil {
		panic(err)
	}
	f, w := "tuple", 0
	switch k.name() {
	case "strs":
		f = "strings"
	case "nums":
		f, w = "numbers", 8
		switch k.(type) {
		case *aKind[int32], *aKind[float32]:
			w = 4
		}
	}
	img := d.image("written", f, func() (Ev, []byte, error) {
		var w2 bytes.Buffer
		err := k.encode(c, &w2)
		return lyTuple(c, w), w2.Bytes(), err
	})
	if img == nil {
		return
	}
	back := func(f string, b []byte, more Ev) {
		for i := 0; i < 2; i++ {
			d.image("read", f, func() (Ev, []byte, error) {
				var o *tuSk
				var err error
				if i == 0 {
					o, err = k.decode(exact(b), nil, imSeed)
				} else {
					o, err = k.decode(nil, &oneByteReader{b: b, max: 1 + r.Intn(9)}, imSeed)
				}
				if err != nil {
					return nil, nil, err
				}
				c := lyTuple(o, w)
				for k, v := range more {
					c[k] = v
				}
				return c, b, nil
			})
		}
	}
	back(f, img, nil)
	if f == "tuple" {
		old := append([]byte(nil), img...)
		old[1], old[3] = byte(pick(r, 1, 3)), byte(pick(r, 1, 5))
		back("tupleold", old, Ev{"ver": int(old[1]), "type": int(old[3])})
	}
}

// ---- HLL

func lyKxq(img []byte) []any {
	part := func(at int, scale float64) []any {
		x := math.Float64frombits(binary.LittleEndian.Uint64(img[at:])) * scale
		if x != math.Trunc(x) || x < 0 || x > 1<<50 {
			return anys(-1, -1)
		}
		return anys(int(int64(x)>>20), int(int64(x)&0xfffff))
	}
	return anys(part(16, 1<<31), part(24, 1<<63))
}

func lyHll(lgk, ty int, cmp bool, cs map[uint32]bool, ooo bool, img []byte, est float64) Ev {
	regs := make([]int, 1<<lgk)
	list := []any{}
	for c := range cs {
		i := int(c & 0x3ffffff & (1<<lgk - 1))
		regs[i] = max(regs[i], int(c>>26))
		list = append(list, by32(c))
	}
	c := Ev{"lgk": lgk, "type": ty, "cmp": cmp, "cs": list, "ooo": ooo, "regs": []any{}, "kxq": []any{}, "hip": byF(est)}
	if n := len(cs); n >= 8 && (lgk < 8 || 4*n > 3<<(lgk-3)) {
		c["regs"] = ints(regs)
		if len(img) >= 40 {
			c["kxq"] = lyKxq(img)
		}
	}
	return c
}

func (d *lyDrv) hllImages() {
	r := d.Rng
	lgk, ty := pick(r, 4, 4, 5, 5, 6, 8, 9, 10), r.Intn(3)
	s, err := hll.NewHllSketch(lgk, hlTypes[ty])
	if err != nil {
		panic(err)
	}
	t := &hlDrv{Scn: d.Scn}
	n := pick(r, 0, 1, 2, 6, 7, 8, 9, 15, 24, 25, 40, 100, 400)
	if lgk >= 8 {
		n = pick(r, 0, 5, 7, 8, 9, 20, 23, 24, 25)
	}
	cs := map[uint32]bool{}
	lo := r.Intn(4) // a floor under the registers
	high := pick(r, 0, 10, 60)
	for i := 0; i < n; i++ {
		k := hlKey{kind: "u64", i: r.Int63()}
		if r.Intn(100) < high {
			k = t.chosen(r.Intn(1<<lgk), min(63, lo+1+r.Intn(pick(r, 3, 20, 62))))
		}
		cs[k.coupon()] = true
		if err := k.feed(s); err != nil {
			panic(err)
		}
	}
	if n >= 100 && r.Intn(2) == 0 { // no register stays empty
		for i := 0; i < 1<<lgk; i++ {
			k := t.chosen(i, 1+lo+r.Intn(4))
			cs[k.coupon()] = true
			if err := k.feed(s); err != nil {
				panic(err)
			}
		}
	}
	ooo := false
	if r.Intn(3) == 0 {
		ty = r.Intn(3)
		if s, err = s.CopyAs(hlTypes[ty]); err != nil {
			panic(err)
		}
	}
	est, err := s.GetEstimate()
	if err != nil {
		panic(err)
	}
	for _, cmp := range []bool{true, false} {
		mk := func(s hll.HllSketch) func() (Ev, []byte, error) {
			return func() (Ev, []byte, error) {
				var b []byte
				var err error
				if cmp {
					b, err = s.ToCompactSlice()
				} else {
					b, err = s.ToUpdatableSlice()
				}
				return lyHll(lgk, ty, cmp, cs, ooo, b, est), b, err
			}
		}
		img := d.image("written", "hll", mk(s))
		if img == nil {
			return
		}
		// by another writer: the tables in another order
		b := append([]byte(nil), img...)
		switch b[7] & 3 {
		case 0:
			if cmp {
				b = lyShuffle(r, b, 8, 4)
			}
		case 1:
			if cmp {
				b = lyShuffle(r, b, 12, 4)
			}
		case 2:
			if ty == 0 && cmp {
				b = lyShuffle(r, b, 40+1<<(lgk-1), 4)
			}
		}
		d.image("made", "hll", func() (Ev, []byte, error) { return lyHll(lgk, ty, cmp, cs, ooo, b, est), b, nil })
		cmp = r.Intn(2) == 0
		d.Do("rewritten", 0, Ev{"fmt": "hll", "c": Ev{"x": 0}, "img": []any{}}, func(ev Ev) error {
			s, err := hll.NewHllSketchFromSlice(exact(b), r.Intn(2) == 0)
			if err != nil {
				return err
			}
			c, b, err := mk(s)()
			ev["c"], ev["img"] = c, by(b)
			return err
		})
	}
}

// ---- CPC

func (d *lyDrv) cpcImages() {
	r := d.Rng
	lgk := pick(r, 4, 4, 5, 6)
	s, err := cpc.NewCpcSketch(lgk, imSeed)
	if err != nil {
		panic(err)
	}
	k := 1 << lgk
	n := pick(r, 0, 1, 2, 3*k/32, 3*k/32+1, k/4, k/2, k, 2*k, 4*k, 8*k, 20*k)
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		key := cpKey{kind: "u64", i: r.Int63()}
		c := key.coupon(imSeed)
		seen[c>>6%k<<6|c&63] = true
		if err := key.feed(s); err != nil {
			panic(err)
		}
	}
	merged := r.Intn(3) == 0
	if merged {
		u, err := cpc.NewCpcUnionSketch(lgk, imSeed)
		if err == nil {
			if err = u.Update(s); err == nil {
				s, err = u.GetResult()
			}
		}
		if err != nil {
			panic(err)
		}
	}
	cont := func(s *cpc.CpcSketch) Ev {
		return Ev{"lgk": s.GetLgK(), "sh": lySh(), "n": len(seen), "merged": merged, "hip": byF(s.GetEstimate())}
	}
	img := d.image("written", "cpc", func() (Ev, []byte, error) {
		b, err := s.ToCompactSlice()
		return cont(s), b, err
	})
	if img == nil {
		return
	}
	d.image("rewritten", "cpc", func() (Ev, []byte, error) {
		x, err := cpc.NewCpcSketchFromSlice(exact(img), imSeed)
		if err != nil {
			return nil, nil, err
		}
		b, err := x.ToCompactSlice()
		return cont(x), b, err
	})
}

// ---- KLL

func lyKll[T comparable](lt common.CompareFn[T], sd common.ItemSketchSerde[T], val func(d *imDrv, i int) T, enc func(T) []byte) func(d *lyDrv) {
	return func(d *lyDrv) {
		r := d.Rng
		k := pick(r, 8, 9, 12, 20)
		s, err := kll.NewKllItemsSketch[T](uint16(k), 8, lt, sd)
		if err != nil {
			panic(err)
		}
		n := pick(r, 0, 1, 2, 3, 7, 20, 33, 70, 150)
		for i := 0; i < n; i++ {
			s.Update(val(d.imDrv, i))
		}
		if n > 0 && r.Intn(2) == 0 { // a query sorts
			if _, err := s.GetQuantile(.5, true); err != nil {
				panic(err)
			}
		}
		cont := func(s *kll.ItemsSketch[T]) (Ev, error) {
			lv := [][]any{}
			var last T
			srt := true
			for it := s.GetIterator(); it.Next(); {
				l := 0
				for w := it.GetWeight(); w > 1; w /= 2 {
					l++
				}
				for len(lv) <= l {
					lv = append(lv, []any{})
				}
				x := it.GetQuantile()
				if l == 0 && len(lv[0]) > 0 && lt(x, last) {
					srt = false
				}
				if l == 0 {
					last = x
				}
				lv[l] = append(lv[l], by(enc(x)))
			}
			c := Ev{"k": int(s.GetK()), "m": 8, "mk": int(s.GetK()), "num": int(s.GetN()), "lv": anys(), "srt": srt, "min": anys(), "max": anys()}
			for _, l := range lv {
				c["lv"] = append(c["lv"].([]any), l)
			}
			if s.GetN() > 0 {
				lo, err := s.GetMinItem()
				if err != nil {
					return nil, err
				}
				hi, err := s.GetMaxItem()
				if err != nil {
					return nil, err
				}
				c["min"], c["max"] = by(enc(lo)), by(enc(hi))
			}
			return c, nil
		}
		img := d.image("written", "kll", func() (Ev, []byte, error) {
			b, err := s.ToSlice()
			if err != nil {
				return nil, nil, err
			}
			c, err := cont(s)
			return c, b, err
		})
		if img == nil {
			return
		}
		d.image("read", "kll", func() (Ev, []byte, error) {
			x, err := kll.NewKllItemsSketchFromSlice[T](exact(img), lt, sd)
			if err != nil {
				return nil, nil, err
			}
			c, err := cont(x)
			return c, img, err
		})
	}
}

// ---- t-digest

func (d *lyDrv) tdigestImages() {
	r := d.Rng
	k := pick(r, 10, 20, 100, 200)
	s, err := tdigest.NewDouble(uint16(k))
	if err != nil {
		panic(err)
	}
	n := pick(r, 0, 1, 2, 3, 8, 19)
	xs := []float64{}
	for i := 0; i < n; i++ {
		x := pick(r, r.NormFloat64(), math.Ldexp(r.Float64(), r.Intn(600)-300), -float64(i))
		xs = append(xs, x)
		if err := s.Update(x); err != nil {
			panic(err)
		}
	}
	up := append([]float64(nil), xs...)
	sort.Float64s(up)
	fl := func(xs []float64) []any {
		o := []any{}
		for _, x := range xs {
			o = append(o, byF(x))
		}
		return o
	}
	for _, buf := range []bool{true, false} {
		c := Ev{"k": k, "vals": fl(xs), "up": fl(up), "buf": buf}
		img := d.image("written", "tdigest", func() (Ev, []byte, error) {
			if r.Intn(2) == 0 {
				b, err := tdigest.EncodeDouble(s, buf)
				return c, b, err
			}
			var w bytes.Buffer
			e := tdigest.NewDoubleEncoder(&w, buf)
			err := e.Encode(s)
			return c, w.Bytes(), err
		})
		if img == nil {
			return
		}
		d.image("rewritten", "tdigest", func() (Ev, []byte, error) {
			x, err := tdigest.DecodeDouble(exact(img))
			if err != nil {
				return nil, nil, err
			}
			b, err := tdigest.EncodeDouble(x, true)
			return c, b, err
		})
	}
}

// ---- frequencies

type lyFq interface {
	GetStreamLength() int64
	GetMaximumError() int64
	GetCurrentMapCapacity() int
}

func (d *lyDrv) freqImages() {
	r := d.Rng
	lgmax := 3 + r.Intn(3)
	n := pick(r, 0, 1, 2, 6, 7, 12, 13, 30, 60)
	lgOf := func(cap int) int {
		l := 0
		for 3<<l/4 < cap {
			l++
		}
		return l
	}
	cont := func(s lyFq, keys [][]byte, lb func(i int) int64) Ev {
		ks, cs := []any{}, []any{}
		for i := range keys {
			if c := lb(i); c > 0 {
				ks, cs = append(ks, by(keys[i])), append(cs, by64(uint64(c)))
			}
		}
		return Ev{"lgmax": lgmax, "lgcur": lgOf(s.GetCurrentMapCapacity()), "total": by64(uint64(s.GetStreamLength())), "off": by64(uint64(s.GetMaximumError())), "keys": ks, "cnts": cs}
	}
	w := func() int64 { return pick[int64](r, 1, 1, 2, 300, 1<<33) }
	big := r.Intn(2) == 0
	wt := func() int64 {
		if big {
			return w()
		}
		return 1 + int64(r.Intn(3))
	}
	if r.Intn(2) == 0 {
		s, err := frequencies.NewLongsSketch(lgmax, 3)
		if err != nil {
			panic(err)
		}
		ks, bs := []int64{}, [][]byte{}
		for i := 0; i < n; i++ {
			ks = append(ks, int64(r.Uint64())>>r.Intn(60)<<6|int64(i))
			bs = append(bs, le64(uint64(ks[i])))
			if err := s.UpdateMany(ks[i], wt()); err != nil {
				panic(err)
			}
		}
		c := func(s *frequencies.LongsSketch) Ev {
			return cont(s, bs, func(i int) int64 { v, _ := s.GetLowerBound(ks[i]); return v })
		}
		img := d.image("written", "freq", func() (Ev, []byte, error) { return c(s), s.ToSlice(), nil })
		if img == nil {
			return
		}
		if len(img) > 32 { // entries of another writer's table
			m := (len(img) - 32) / 16
			b := append([]byte(nil), img...)
			for i, j := range r.Perm(m) {
				copy(b[32+8*i:], img[32+8*j:40+8*j])
				copy(b[32+8*(m+i):], img[32+8*(m+j):40+8*(m+j)])
			}
			img = b
		}
		d.image("read", "freq", func() (Ev, []byte, error) {
			x, err := frequencies.NewLongsSketchFromSlice(exact(img))
			if err != nil {
				return nil, nil, err
			}
			return c(x), img, nil
		})
		return
	}
	h, sd := common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{}
	s, err := frequencies.NewFrequencyItemsSketch[string](lgmax, 3, h, sd)
	if err != nil {
		panic(err)
	}
	ks, bs := []string{}, [][]byte{}
	for i := 0; i < n; i++ {
		ks = append(ks, imStr(d.imDrv, i))
		bs = append(bs, lyStr(ks[i]))
		if err := s.UpdateMany(ks[i], wt()); err != nil {
			panic(err)
		}
	}
	c := func(s *frequencies.ItemsSketch[string]) Ev {
		return cont(s, bs, func(i int) int64 { v, _ := s.GetLowerBound(ks[i]); return v })
	}
	img := d.image("written", "freq", func() (Ev, []byte, error) {
		b, err := s.ToSlice()
		return c(s), b, err
	})
	if img == nil {
		return
	}
	d.image("read", "freq", func() (Ev, []byte, error) {
		x, err := frequencies.NewFrequencyItemsSketchFromSlice[string](exact(img), h, sd)
		if err != nil {
			return nil, nil, err
		}
		return c(x), img, nil
	})
}

func lyStr(s string) []byte { return append(le32(uint32(len(s))), s...) }

// ---- count-min

func (d *lyDrv) cmsImages() {
	r := d.Rng
	nh, nb := 1+r.Intn(4), 3+r.Intn(8)
	s, err := count.NewCountMinSketch(int8(nh), int32(nb), int64(imSeed))
	if err != nil {
		panic(err)
	}
	total := 0
	for i := 0; i < d.size(); i++ {
		w := r.Intn(90)
		total += w
		if err := s.Update([]byte(imStr(d.imDrv, i)), int64(w)); err != nil {
			panic(err)
		}
	}
	c := Ev{"nb": nb, "nh": nh, "sh": lySh(), "total": total}
	img := d.image("written", "cms", func() (Ev, []byte, error) {
		var w bytes.Buffer
		err := s.Serialize(&w)
		return c, w.Bytes(), err
	})
	if img == nil {
		return
	}
	d.image("rewritten", "cms", func() (Ev, []byte, error) {
		x, err := s.Deserialize(exact(img), int64(imSeed))
		if err != nil {
			return nil, nil, err
		}
		var w bytes.Buffer
		err = x.Serialize(&w)
		if !bytes.Equal(w.Bytes(), img) {
			return Ev{"nb": -1, "nh": 0, "sh": lySh(), "total": 0}, w.Bytes(), err
		}
		return c, w.Bytes(), err
	})
}

// ---- Bloom

func (d *lyDrv) bloomImages() {
	r := d.Rng
	bits, nh := 1+r.Intn(1000), 1+r.Intn(6)
	seed := pick(r, r.Uint64(), imSeed, 0)
	s, err := filters.NewBloomFilterBySize(uint64(bits), uint16(nh), filters.WithSeed(seed))
	if err != nil {
		panic(err)
	}
	bits = (bits + 63) / 64 * 64
	ones := map[int]bool{}
	for i := 0; i < d.size(); i++ {
		it := bfItem{kind: "u64", u: r.Uint64()}
		if r.Intn(2) == 0 {
			it = bfItem{kind: "str", b: []byte("s" + imStr(d.imDrv, i))}
			err = s.UpdateString(string(it.b))
		} else {
			err = s.UpdateUInt64(it.u)
		}
		if err != nil {
			panic(err)
		}
		for _, p := range it.positions(bfCfg{cap: uint64(bits), nh: uint16(nh), seed: seed}) {
			ones[p] = true
		}
	}
	if r.Intn(6) == 0 {
		s.Invert()
		for p := 0; p < bits; p++ {
			ones[p] = !ones[p]
			if !ones[p] {
				delete(ones, p)
			}
		}
	}
	c := Ev{"cap": bits, "nh": nh, "seed": by64(seed), "ones": ints(sortedKeys(ones))}
	img := d.image("written", "bloom", func() (Ev, []byte, error) {
		b, err := s.ToCompactSlice()
		return c, b, err
	})
	if img == nil {
		return
	}
	if len(img) > 32 && r.Intn(2) == 0 { // written while the count was not known
		img = append([]byte(nil), img...)
		for i := 24; i < 32; i++ {
			img[i] = 0xff
		}
	}
	d.image("rewritten", "bloom", func() (Ev, []byte, error) {
		x, err := filters.NewBloomFilterFromSlice(exact(img))
		if err != nil {
			return nil, nil, err
		}
		b, err := x.ToCompactSlice()
		return c, b, err
	})
}

// ---- sampling

func lyEncK(k int) []byte {
	p := 0
	for 2<<p <= k {
		p++
	}
	return le32(uint32(p<<11 | (k<<11>>p - 2048)))
}

func lySampling[T any](sd common.ItemSketchSerde[T], val func(d *imDrv, i int) T, enc func(T) []byte) func(d *lyDrv) {
	return func(d *lyDrv) {
		r := d.Rng
		// reservoirs
		rf := r.Intn(4)
		k := pick(r, 2, 3, 8, 12, 16, 20)
		n := pick(r, 0, 1, 2, k-1, k, k+1, 3*k)
		s, err := sampling.NewReservoirItemsSketch[T](k, sampling.WithReservoirItemsSketchResizeFactor([]sampling.ResizeFactor{sampling.ResizeX1, sampling.ResizeX2, sampling.ResizeX4, sampling.ResizeX8}[rf]))
		if err != nil {
			panic(err)
		}
		for i := 0; i < n; i++ {
			if err := s.Update(val(d.imDrv, i)); err != nil {
				panic(err)
			}
		}
		cont := func(s *sampling.ReservoirItemsSketch[T]) Ev {
			its := []any{}
			for _, x := range s.Samples() {
				its = append(its, by(enc(x)))
			}
			return Ev{"k": s.K(), "rf": rf, "n": int(s.N()), "items": its}
		}
		img := d.image("written", "reservoir", func() (Ev, []byte, error) {
			b, err := s.ToSlice(sd)
			return cont(s), b, err
		})
		if img == nil {
			return
		}
		old := append([]byte(nil), img...)
		old[1] = 1
		copy(old[4:], lyEncK(k))
		for _, x := range []struct {
			f string
			b []byte
		}{{"reservoir", img}, {"reservoir1", old}} {
			d.image("read", x.f, func() (Ev, []byte, error) {
				y, err := sampling.NewReservoirItemsSketchFromSlice[T](exact(x.b), sd)
				if err != nil {
					return nil, nil, err
				}
				return cont(y), x.b, nil
			})
		}
		mk := pick(r, k, k+4, 2*k)
		u, err := sampling.NewReservoirItemsUnion[T](mk)
		if err == nil {
			err = u.UpdateSketch(s)
		}
		if err != nil {
			panic(err)
		}
		ucont := func(u *sampling.ReservoirItemsUnion[T]) (Ev, error) {
			g, err := u.Result()
			if err != nil {
				return nil, err
			}
			c := Ev{"mk": u.MaxK(), "g": Ev{"k": 0, "rf": 0, "n": 0, "items": anys()}}
			if g != nil && g.N() > 0 {
				c["g"] = cont(g)
			}
			return c, nil
		}
		uimg := d.image("written", "resunion", func() (Ev, []byte, error) {
			b, err := u.ToSlice(sd)
			if err != nil {
				return nil, nil, err
			}
			c, err := ucont(u)
			if len(b) > 8 { // whichever factor it chose to keep
				c["g"].(Ev)["rf"] = int(b[8] >> 6)
			}
			return c, b, err
		})
		if uimg == nil {
			return
		}
		uold := append([]byte(nil), uimg...)
		uold[1] = 1
		copy(uold[4:], lyEncK(mk))
		for _, x := range []struct {
			f string
			b []byte
		}{{"resunion", uimg}, {"resunion1", uold}} {
			d.image("read", x.f, func() (Ev, []byte, error) {
				y, err := sampling.NewReservoirItemsUnionFromSlice[T](exact(x.b), sd)
				if err != nil {
					return nil, nil, err
				}
				c, err := ucont(y)
				if err == nil && len(x.b) > 8 {
					c["g"].(Ev)["rf"] = int(x.b[8] >> 6)
				}
				return c, x.b, err
			})
		}
		// VarOpt
		v, err := sampling.NewVarOptItemsSketch[T](uint(k))
		if err != nil {
			panic(err)
		}
		for i := 0; i < n; i++ {
			if err := v.Update(val(d.imDrv, i), pick(r, 1., 1, 2.5, 40, 1e9)); err != nil {
				panic(err)
			}
		}
		vcont := func(v *sampling.VarOptItemsSketch[T], img []byte, gad bool) Ev {
			hw, hi, ri := []any{}, []any{}, []any{}
			rw := anys()
			for x := range v.All() {
				if len(hi) < v.H() {
					hw, hi = append(hw, byF(x.Weight)), append(hi, by(enc(x.Item)))
				} else {
					ri = append(ri, by(enc(x.Item)))
					// the image holds the sum of which tau is the share
					if len(img) >= 32 && math.Float64frombits(binary.LittleEndian.Uint64(img[24:]))/float64(v.R()) == x.Weight {
						rw = by(img[24:32])
					}
				}
			}
			return Ev{"k": v.K(), "rf": 3, "n": int(v.N()), "hw": hw, "hi": hi, "ri": ri, "rw": rw, "gad": gad}
		}
		vimg := d.image("written", "varopt", func() (Ev, []byte, error) {
			var w bytes.Buffer
			e := sampling.NewVarOptItemsSketchEncoder[T](&w, sd)
			err := e.Encode(v)
			return vcont(v, w.Bytes(), false), w.Bytes(), err
		})
		if vimg == nil {
			return
		}
		d.image("read", "varopt", func() (Ev, []byte, error) {
			y, err := sampling.DecodeVarOptItemsSketch[T](exact(vimg), sd)
			if err != nil {
				return nil, nil, err
			}
			return vcont(y, vimg, false), vimg, nil
		})
		vu, err := sampling.NewVarOptItemsUnion[T](uint(mk))
		if err == nil {
			err = vu.Update(v)
		}
		if err != nil {
			panic(err)
		}
		d.image("written", "varoptunion", func() (Ev, []byte, error) {
			var w bytes.Buffer
			e := sampling.NewVarOptItemsUnionEncoder[T](&w, sd)
			if err := e.Encode(vu); err != nil {
				return nil, nil, err
			}
			g, err := vu.Result()
			if err != nil {
				return nil, nil, err
			}
			b := w.Bytes()
			return Ev{"mk": mk, "n": n, "g": v.R() == 0 && n > 0, "gc": vcont(g, nil, true)}, b, nil
		})
	}
}

func lyJobs(cfg *Cfg) []core.Job {
	flt := func(d *imDrv, i int) float64 { return float64(d.Rng.Intn(1000)) / 8 }
	lng := func(d *imDrv, i int) int64 { return d.Rng.Int63() >> d.Rng.Intn(60) }
	f64 := func(x float64) []byte { return le64(math.Float64bits(x)) }
	f32 := func(x float32) []byte { return le32(math.Float32bits(x)) }
	i64 := func(x int64) []byte { return le64(uint64(x)) }
	type w struct {
		n, share int
		f        func(d *lyDrv)
	}
	ws := []w{
		{0, 6, (*lyDrv).thetaImages}, {1, 8, (*lyDrv).hllImages}, {2, 3, (*lyDrv).cpcImages}, {3, 3, (*lyDrv).tdigestImages},
		{4, 4, (*lyDrv).freqImages}, {5, 3, (*lyDrv).cmsImages}, {6, 3, (*lyDrv).bloomImages},
		{7, 1, lyKll[float64](common.ItemSketchDoubleComparator(false), common.ItemSketchDoubleSerDe{}, flt, f64)},
		{8, 1, lyKll[float32](common.ItemSketchFloatComparator(false), common.ItemSketchFloatSerDe{}, func(d *imDrv, i int) float32 { return float32(flt(d, i)) }, f32)},
		{9, 1, lyKll[int64](common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{}, lng, i64)},
		{10, 1, lyKll[string](common.ItemSketchStringComparator(false), common.ItemSketchStringSerDe{}, imStr, lyStr)},
		{11, 2, lySampling[int64](common.ItemSketchLongSerDe{}, lng, i64)},
		{12, 1, lySampling[float64](common.ItemSketchDoubleSerDe{}, flt, f64)},
		{13, 1, lySampling[string](common.ItemSketchStringSerDe{}, imStr, lyStr)},
	}
	for _, k := range tuKinds {
		ws = append(ws, w{14, 1, func(d *lyDrv) { d.tupleImages(k) }})
	}
	var jobs []core.Job
	for i := 0; i < cfg.N(8, 100); i++ {
		for _, x := range ws {
			for j := 0; j < x.share; j++ {
				jobs = append(jobs, core.Job{Name: fmt.Sprint("layout", x.n), Run: func(s *Scn) {
					d := &lyDrv{&imDrv{s, cfg}}
					d.Begin(Ev{})
					for m := 0; m < 6 && !d.Dead; m++ {
						x.f(d)
					}
				}})
			}
		}
	}
	return jobs
}
