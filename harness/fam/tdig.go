package fam

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"sort"

	"github.com/apache/datasketches-go/tdigest"

	"verif/harness/core"
)

// tdObj is a digest under observation; its state is read from an image that
// includes the buffer, which changes nothing.
type tdObj struct {
	d *tdigest.Double
	t *tdDrv
}

type tdCent struct {
	m float64
	w uint64
}

type tdState struct {
	k      uint16
	rev    bool
	mn, mx float64
	n      uint64
	cs     []tdCent
	buf    []float64
}

func tdParse(d *tdigest.Double) tdState {
	img, err := tdigest.EncodeDouble(d, true)
	if err != nil {
		panic(err)
	}
	st := tdState{k: d.K(), n: d.TotalWeight()}
	mn, e1 := d.MinValue()
	mx, e2 := d.MaxValue()
	st.mn, st.mx = mn, mx
	if (e1 != nil) != d.IsEmpty() || (e2 != nil) != d.IsEmpty() {
		panic("extremes of a digest")
	}
	u64 := func(o int) uint64 { return binary.LittleEndian.Uint64(img[o:]) }
	f64 := func(o int) float64 { return math.Float64frombits(u64(o)) }
	if binary.LittleEndian.Uint16(img[3:]) != st.k {
		panic("k of an image")
	}
	st.rev = img[5]&4 != 0
	switch {
	case img[5]&1 != 0:
		if st.n != 0 || !d.IsEmpty() {
			panic("empty image")
		}
	case img[5]&2 != 0:
		st.buf = []float64{f64(8)}
		if st.mn != f64(8) || st.mx != f64(8) {
			panic("extremes of a single value")
		}
	default:
		nc, nb := int(binary.LittleEndian.Uint32(img[8:])), int(binary.LittleEndian.Uint32(img[12:]))
		if st.mn != f64(16) || st.mx != f64(24) {
			panic("extremes in an image")
		}
		o := 32
		for i := 0; i < nc; i++ {
			st.cs = append(st.cs, tdCent{f64(o), u64(o + 8)})
			o += 16
		}
		for i := 0; i < nb; i++ {
			st.buf = append(st.buf, f64(o))
			o += 8
		}
		if o != len(img) {
			panic("length of an image")
		}
	}
	return st
}

// cent is a centroid as the specification sees it.
func (t *tdDrv) cent(m float64, w uint64) []any {
	f := 0
	if t.grid {
		f = int(math.Round(1000 * m / t.scale))
	}
	if w > 1<<30 {
		w = 1 << 30
	}
	return []any{X(m), int(w), f}
}

func (t *tdDrv) vals(xs []float64) []any {
	o := make([]any, len(xs))
	for i, x := range xs {
		o[i] = t.cent(x, 1)
	}
	return o
}

func (t *tdDrv) proj(d *tdigest.Double) Ev {
	st := tdParse(d)
	cs := make([]any, len(st.cs))
	for i, c := range st.cs {
		cs[i] = t.cent(c.m, c.w)
	}
	ev := Ev{"k": int(st.k), "rev": st.rev, "n": int64(st.n), "mn": 0, "mx": 0, "cs": cs, "buf": t.vals(st.buf)}
	if st.n > 0 {
		ev["mn"], ev["mx"] = X(st.mn), X(st.mx)
	}
	return ev
}

func (o *tdObj) Show()       { words(o.d) }
func (o *tdObj) Project() Ev { return o.t.proj(o.d) }

type tdDrv struct {
	*Scn
	cfg   *Cfg
	next  int
	keep  int
	grid  bool
	scale float64
	dom   []float64
	ks    []int
	hot   int
	seq   int
}

func newTdDrv(s *Scn, cfg *Cfg) *tdDrv {
	r := s.Rng
	t := &tdDrv{Scn: s, cfg: cfg, next: 1}
	t.grid = r.Intn(4) > 0
	t.scale = math.Ldexp(1, pick(r, 0, 0, -20, 7, 100, -500))
	P := pick(r, 1, 2, 5, 30, 300, 1001)
	for i := 0; i < P; i++ {
		switch {
		case t.grid && P == 1001:
			t.dom = append(t.dom, float64(i-500)*t.scale)
		case t.grid:
			t.dom = append(t.dom, float64(r.Intn(1001)-500)*t.scale)
		case P%2 == 0:
			t.dom = append(t.dom, r.NormFloat64()*math.Exp(40*r.NormFloat64()))
		default:
			t.dom = append(t.dom, r.NormFloat64())
		}
	}
	if r.Intn(5) == 0 {
		t.dom = append(t.dom, math.Copysign(0, -1), 0)
	}
	if !t.grid && r.Intn(4) == 0 {
		t.dom = append(t.dom, 5e-324, 1e290, -1e290)
	}
	sort.Float64s(t.dom)
	t.ks = pick(r, []int{10}, []int{10}, []int{10, 11}, []int{10, 20}, []int{12, 15}, []int{29, 30}, []int{50, 10}, []int{200, 100, 10})
	return t
}

func (t *tdDrv) fresh() int { t.next++; return t.next - 1 }
func (t *tdDrv) slot() int {
	hs := []int{}
	for _, h := range t.Handles() {
		if h >= t.keep {
			hs = append(hs, h)
		}
	}
	if len(hs) >= 4 {
		h := hs[t.Rng.Intn(len(hs))]
		t.Drop(h)
		t.Do("drop", 0, Ev{"d": h}, func(ev Ev) error { return nil })
	}
	return t.fresh()
}

func (t *tdDrv) item() float64 {
	r := t.Rng
	n := len(t.dom)
	t.seq++
	switch t.hot {
	case 1:
		return t.dom[t.seq%n]
	case 2:
		return t.dom[n-1-t.seq%n]
	case 3:
		return t.dom[min(r.Intn(n), r.Intn(n), r.Intn(n))]
	case 4:
		if t.seq%2 == 0 {
			return t.dom[t.seq%n]
		}
		return t.dom[n-1-t.seq%n]
	case 5:
		return t.dom[n/2]
	}
	return t.dom[r.Intn(n)]
}

func (t *tdDrv) newd(h, k int) {
	t.Do("newd", h, Ev{"k": k}, func(ev Ev) error {
		d, err := tdigest.NewDouble(uint16(k))
		if err == nil {
			t.Put(h, &tdObj{d, t})
		}
		return err
	})
}

func (t *tdDrv) d(h int) *tdigest.Double { return t.Get(h).(*tdObj).d }

func (t *tdDrv) upd(h int, xs []float64) {
	d := t.d(h)
	t.Do("upd", h, Ev{"xs": t.vals(xs)}, func(ev Ev) error {
		for _, x := range xs {
			if err := d.Update(x); err != nil {
				return err
			}
		}
		return nil
	})
}

func (t *tdDrv) bad(h int) {
	d := t.d(h)
	t.Do("bad", h, Ev{}, func(ev Ev) error {
		acc := []any{}
		for _, x := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), -math.NaN()} {
			if d.Update(x) == nil {
				acc = append(acc, fmt.Sprint("update with ", x))
			}
		}
		ev["acc"] = acc
		return nil
	})
}

func (t *tdDrv) merge(h, src int) {
	a, b := t.d(h), t.d(src)
	t.Do("merge", h, Ev{"src": src}, func(ev Ev) error { return a.Merge(b) })
}

func (t *tdDrv) batch(d *tdigest.Double) []float64 {
	r := t.Rng
	k := int(d.K())
	room := 4 * (2*k + 10)
	n := pick(r, 1, 1, 2, 3, 10, k, room/2, room-1, room)
	n = min(n, room)
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = t.item()
	}
	return xs
}

// ser restores an image of src under g.
func (t *tdDrv) ser(g, src int) {
	d := t.d(src)
	wb := t.Rng.Intn(2) == 0
	if !wb {
		t.Do("settle", src, Ev{}, func(ev Ev) error { d.SerializedSizeBytes(false); return nil })
		if t.Dead {
			return
		}
	}
	var img []byte
	t.Do("ser", g, Ev{"src": src, "wb": wb, "stable": true, "both": true, "rest": true, "size": 0, "len": 0}, func(ev Ev) error {
		var err error
		n := d.SerializedSizeBytes(wb)
		if img, err = tdigest.EncodeDouble(d, wb); err != nil {
			return err
		}
		var w bytes.Buffer
		enc := tdigest.NewDoubleEncoder(&w, wb)
		if err := enc.Encode(d); err != nil {
			return err
		}
		ev["stable"], ev["size"], ev["len"] = bytes.Equal(img, w.Bytes()), n, len(img)
		defer core.Keep(img)()
		s1, err := tdigest.DecodeDouble(img)
		if err != nil {
			return err
		}
		s2, rest, err := tdStream(t.Rng, img)
		if err != nil {
			return err
		}
		ev["both"] = fmt.Sprintf("%v", tdParse(s1)) == fmt.Sprintf("%v", tdParse(s2))
		ev["rest"] = rest
		s := s1
		if t.Rng.Intn(2) == 0 {
			s = s2
		}
		t.Put(g, &tdObj{s, t})
		return nil
	})
	if !t.Dead {
		t.Do("scribble", 0, Ev{}, func(ev Ev) error {
			for i := range img {
				img[i] ^= 0x5A
			}
			return nil
		})
	}
}

// tdStream reads an image from a stream that goes on behind it.
func tdStream(r *rand.Rand, img []byte) (*tdigest.Double, bool, error) {
	tail := []byte{1, 2, 3, 4, 5}
	rd := &oneByteReader{b: append(append([]byte{}, img...), tail...), max: pick(r, 1, 3, 1000)}
	dec := tdigest.NewDoubleDecoder()
	s, err := dec.Decode(rd)
	if err != nil {
		return nil, false, err
	}
	left, _ := io.ReadAll(rd)
	return s, bytes.Equal(left, tail), nil
}

// compat reads an image in one of the reference implementation's formats.
func (t *tdDrv) compat(g int) {
	r := t.Rng
	k := pick(r, t.ks...)
	nc := pick(r, 1, 2, 3, 10, 30)
	ms := make([]float64, nc)
	for i := range ms {
		ms[i] = t.dom[r.Intn(len(t.dom))]
		if r.Intn(2) == 0 && t.grid {
			ms[i] = (float64(r.Intn(1000)-500) + float64(r.Intn(8))/8) * t.scale
		}
	}
	kind := 1 + r.Intn(2)
	if kind == 2 {
		for i := range ms {
			ms[i] = float64(float32(ms[i]))
			if math.IsInf(ms[i], 0) || ms[i] == 0 {
				ms[i] = 0
			}
		}
	}
	sort.Float64s(ms)
	cs := make([]tdCent, nc)
	for i := range cs {
		cs[i] = tdCent{ms[i], uint64(1 + r.Intn(12))}
	}
	if r.Intn(2) == 0 {
		cs[0].w, cs[nc-1].w = 1, 1
	}
	mn, mx := ms[0], ms[nc-1]
	if cs[0].w > 1 && nc > 1 && t.grid {
		mn -= float64(r.Intn(3)) * t.scale
	}
	if cs[nc-1].w > 1 && nc > 1 && t.grid {
		mx += float64(r.Intn(3)) * t.scale
	}
	be := binary.BigEndian
	img := []byte{0, 0, 0, byte(kind)}
	img = be.AppendUint64(img, math.Float64bits(mn))
	img = be.AppendUint64(img, math.Float64bits(mx))
	if kind == 1 {
		img = be.AppendUint64(img, math.Float64bits(float64(k)))
		img = be.AppendUint32(img, uint32(nc))
	} else {
		img = be.AppendUint32(img, math.Float32bits(float32(k)))
		img = be.AppendUint16(img, 210)
		img = be.AppendUint16(img, 1050)
		img = be.AppendUint16(img, uint16(nc))
	}
	lcs := []any{}
	for _, c := range cs {
		if kind == 1 {
			img = be.AppendUint64(img, math.Float64bits(float64(c.w)))
			img = be.AppendUint64(img, math.Float64bits(c.m))
		} else {
			img = be.AppendUint32(img, math.Float32bits(float32(c.w)))
			img = be.AppendUint32(img, math.Float32bits(float32(c.m)))
		}
		lcs = append(lcs, t.cent(c.m, c.w))
	}
	if nc == 1 && cs[0].w == 1 {
		return // shown as a single value
	}
	t.Do("compat", g, Ev{"k": k, "mn": X(mn), "mx": X(mx), "cs": lcs, "both": true, "kind": kind}, func(ev Ev) error {
		defer core.Keep(img)()
		s1, err := tdigest.DecodeDouble(img)
		if err != nil {
			return err
		}
		s2, rest, err := tdStream(r, img)
		if err != nil {
			return err
		}
		ev["both"] = fmt.Sprintf("%v", tdParse(s1)) == fmt.Sprintf("%v", tdParse(s2)) && rest
		s := s1
		if t.Rng.Intn(2) == 0 {
			s = s2
		}
		t.Put(g, &tdObj{s, t})
		return nil
	})
}

// probes are values around those of the digest, in order.
func (t *tdDrv) probes(d *tdigest.Double, n int) []float64 {
	r := t.Rng
	st := tdParse(d)
	all := append([]float64{st.mn, st.mx}, st.buf...)
	for _, c := range st.cs {
		all = append(all, c.m)
	}
	out := []float64{}
	for i := 0; i < n; i++ {
		a, b := all[r.Intn(len(all))], all[r.Intn(len(all))]
		switch r.Intn(8) {
		case 0, 1, 2:
			out = append(out, a)
		case 3:
			out = append(out, a+(b-a)*r.Float64())
		case 4:
			out = append(out, math.Nextafter(a, b))
		case 5:
			out = append(out, pick(r, st.mn, st.mx, math.Nextafter(st.mn, math.Inf(-1)), math.Nextafter(st.mx, math.Inf(1)), math.Nextafter(st.mn, st.mx), math.Nextafter(st.mx, st.mn)))
		case 6:
			out = append(out, t.item())
		default:
			out = append(out, pick(r, math.Inf(1), math.Inf(-1), st.mn-1, st.mx+1))
		}
	}
	sort.Float64s(out)
	return out
}

func (t *tdDrv) query(h int) {
	d := t.d(h)
	r := t.Rng
	w := r.Intn(9)
	n := d.TotalWeight()
	if n == 0 {
		w = 8
	}
	switch {
	case w < 3:
		vs := t.probes(d, 8)
		xs := []any{}
		for _, v := range vs {
			xs = append(xs, X(v))
		}
		t.Do("qrank", h, Ev{"vs": xs}, func(ev Ev) error {
			r64, rr := []any{}, []any{}
			for _, v := range vs {
				x, err := d.Rank(v)
				if err != nil {
					return err
				}
				if !(x >= 0 && x <= 1) {
					x = -1
				}
				r64 = append(r64, int64(math.Round(x*float64(n)*128)))
				rr = append(rr, R(x))
			}
			ev["r64"], ev["rr"] = r64, rr
			return nil
		})
	case w < 6:
		js := []int{0, int(2 * n)}
		for i := 0; i < 8; i++ {
			switch r.Intn(3) {
			case 0:
				js = append(js, r.Intn(min(int(2*n), 6)+1))
			case 1:
				js = append(js, int(2*n)-r.Intn(min(int(2*n), 6)+1))
			default:
				js = append(js, r.Intn(int(2*n)+1))
			}
		}
		sort.Ints(js)
		t.Do("qquant", h, Ev{"js": ints(js)}, func(ev Ev) error {
			qs := []any{}
			for _, j := range js {
				q, err := d.Quantile(float64(j) / float64(2*n))
				if err != nil {
					return err
				}
				qs = append(qs, R(q))
			}
			st := tdParse(d)
			ms := []any{}
			for _, c := range st.cs {
				ms = append(ms, R(c.m))
			}
			if len(ms) == 0 {
				ms = append(ms, R(st.buf[0]))
			}
			ev["qs"], ev["ms"], ev["mnr"], ev["mxr"] = qs, ms, R(st.mn), R(st.mx)
			return nil
		})
	case w < 8:
		vs := t.probes(d, 1+r.Intn(6))
		sp := vs[:1]
		for _, v := range vs[1:] {
			if v != sp[len(sp)-1] {
				sp = append(sp, v)
			}
		}
		t.Do("qcdf", h, Ev{}, func(ev Ev) error {
			rk, cdf, pmf := []any{}, []any{}, []any{}
			defer core.Keep(sp)()
			for _, v := range sp {
				x, err := d.Rank(v)
				if err != nil {
					return err
				}
				rk = append(rk, R(x))
			}
			c, err := d.CDF(sp)
			if err != nil {
				return err
			}
			for _, x := range c {
				cdf = append(cdf, R(x))
			}
			p, err := d.PMF(sp)
			if err != nil {
				return err
			}
			sum := 0.0
			for _, x := range p {
				sum += x
				pmf = append(pmf, R(sum))
			}
			ev["rk"], ev["cdf"], ev["pmf"], ev["one"] = rk, cdf, pmf, R(1)
			return nil
		})
	default:
		t.Do("qbad", h, Ev{}, func(ev Ev) error {
			acc := []any{}
			try := func(name string, err error) {
				if err == nil {
					acc = append(acc, name)
				}
			}
			_, err := d.Rank(math.NaN())
			try("rank of NaN", err)
			for _, x := range []float64{-0.01, 1.01, math.Inf(1), math.Inf(-1)} {
				_, err = d.Quantile(x)
				try(fmt.Sprint("quantile of ", x), err)
			}
			for _, sp := range [][]float64{{math.NaN()}, {1, math.NaN()}, {math.NaN(), 1}, {1, 1}, {2, 1}, {1, 2, 2}, {1, 3, 2}} {
				_, err = d.CDF(sp)
				try(fmt.Sprint("cdf of ", sp), err)
				_, err = d.PMF(sp)
				try(fmt.Sprint("pmf of ", sp), err)
			}
			if n == 0 {
				_, err = d.Rank(1)
				try("rank of empty", err)
				_, err = d.Quantile(0.5)
				try("quantile of empty", err)
				_, err = d.CDF([]float64{1})
				try("cdf of empty", err)
				_, err = d.PMF([]float64{1})
				try("pmf of empty", err)
				_, err = d.MinValue()
				try("minimum of empty", err)
				_, err = d.MaxValue()
				try("maximum of empty", err)
			}
			ev["acc"] = acc
			return nil
		})
	}
}

// accuracy compares ranks on longer streams with the true ones.
func (t *tdDrv) accuracy() {
	r := t.Rng
	t.Begin(Ev{"grid": false})
	n := int(math.Exp(math.Log(300) + r.Float64()*math.Log(200)))
	k := pick(r, 50, 100, 200, 400)
	perm := r.Perm(n)
	switch r.Intn(4) {
	case 0:
		sort.Ints(perm)
	case 1:
		sort.Sort(sort.Reverse(sort.IntSlice(perm)))
	}
	parts := pick(r, 1, 1, 3, 8)
	t.Do("acc", 0, Ev{"n": n, "k": k}, func(ev Ev) error {
		ds := []*tdigest.Double{}
		for i := 0; i < parts; i++ {
			d, err := tdigest.NewDouble(uint16(k))
			if err != nil {
				return err
			}
			ds = append(ds, d)
		}
		for i, c := range perm {
			p := i % parts
			if n%2 == 0 {
				p = i * parts / n
			}
			if err := ds[p].Update(float64(c + 1)); err != nil {
				return err
			}
		}
		d := ds[0]
		for _, o := range ds[1:] {
			if err := d.Merge(o); err != nil {
				return err
			}
		}
		ps := []any{}
		for i := 0; i <= 24; i++ {
			c := 1 + i*(n-1)/24
			if i == 1 {
				c = 1 + r.Intn(min(n, 20))
			}
			if i == 23 {
				c = n - r.Intn(min(n, 20))
			}
			x, err := d.Rank(float64(c))
			if err != nil {
				return err
			}
			q := float64(c) / float64(n)
			z := 4*math.Log(float64(n)/float64(2*k)) + 24
			tol := float64(n)*q*(1-q)*z/float64(2*k) + 2
			ps = append(ps, Ev{"c": c, "e": int64(math.Round(x * float64(n))), "tol": int64(tol)})
		}
		ev["ps"], ev["sn"] = ps, int64(d.TotalWeight())
		return nil
	})
}

// huge merges its way up to very large weights.
func (t *tdDrv) huge() {
	r := t.Rng
	t.Begin(Ev{"grid": false})
	k := pick(r, t.ks...)
	var ds [2]*tdigest.Double
	want := [2]*big.Int{new(big.Int), new(big.Int)}
	sum := [2]*big.Float{new(big.Float).SetPrec(200), new(big.Float).SetPrec(200)}
	mn, mx := [2]float64{math.Inf(1), math.Inf(1)}, [2]float64{}
	add := func(i, n int) error {
		for j := 0; j < n; j++ {
			x := 1 + float64(r.Intn(1000))
			if err := ds[i].Update(x); err != nil {
				return err
			}
			mn[i], mx[i] = math.Min(mn[i], x), math.Max(mx[i], x)
			sum[i].Add(sum[i], big.NewFloat(x))
		}
		want[i].Add(want[i], big.NewInt(int64(n)))
		return nil
	}
	t.Do("hnew", 0, Ev{}, func(ev Ev) error {
		for i := range ds {
			var err error
			if ds[i], err = tdigest.NewDouble(uint16(k)); err != nil {
				return err
			}
			if err := add(i, 1+r.Intn(500)); err != nil {
				return err
			}
		}
		return nil
	})
	top := 40 + r.Intn(22)
	for step := 0; step < 140 && !t.Dead && want[step%2].BitLen() < top; step++ {
		i := step % 2
		t.Do("huge", 0, Ev{}, func(ev Ev) error {
			if err := ds[i].Merge(ds[1-i]); err != nil {
				return err
			}
			want[i].Add(want[i], want[1-i])
			sum[i].Add(sum[i], sum[1-i])
			mn[i], mx[i] = math.Min(mn[i], mn[1-i]), math.Max(mx[i], mx[1-i])
			if r.Intn(3) == 0 {
				if err := add(i, r.Intn(300)); err != nil {
					return err
				}
			}
			x, err := ds[i].Rank(math.Inf(1))
			if err != nil {
				return err
			}
			if _, err := ds[i].Rank((mn[i] + mx[i]) / 2); err != nil {
				return err
			}
			st := tdParse(ds[i])
			tot, ws := new(big.Int), new(big.Float).SetPrec(200)
			order := true
			for j, c := range st.cs {
				w := new(big.Int).SetUint64(c.w)
				tot.Add(tot, w)
				ws.Add(ws, new(big.Float).SetPrec(200).Mul(big.NewFloat(c.m), new(big.Float).SetPrec(200).SetInt(w)))
				if j > 0 && c.m < st.cs[j-1].m || c.w == 0 {
					order = false
				}
			}
			tot.Add(tot, big.NewInt(int64(len(st.buf))))
			for _, x := range st.buf {
				ws.Add(ws, big.NewFloat(x))
			}
			a, _ := ws.Float64()
			b, _ := sum[i].Float64()
			room := 3*k + 30
			ev["n"], ev["want"], ev["sum"] = fmt.Sprint(st.n), want[i].String(), tot.String()
			ev["ext"], ev["wext"] = []any{R(st.mn), R(st.mx)}, []any{R(mn[i]), R(mx[i])}
			ev["ends"] = []any{R(st.cs[0].m), R(st.cs[len(st.cs)-1].m)}
			ev["order"], ev["nc"], ev["room"], ev["rank"] = order, len(st.cs), room, int(x)
			ev["mean"] = []any{R(a), R(b)}
			return nil
		})
		if !t.Dead && r.Intn(8) == 0 {
			t.Do("hser", 0, Ev{}, func(ev Ev) error {
				img, err := tdigest.EncodeDouble(ds[i], r.Intn(2) == 0)
				if err != nil {
					return err
				}
				s, err := tdigest.DecodeDouble(img)
				if err != nil {
					return err
				}
				s2, _, err := tdStream(r, img)
				if err != nil {
					return err
				}
				a := fmt.Sprintf("%v", tdParse(ds[i]))
				ev["same"] = a == fmt.Sprintf("%v", tdParse(s)) && a == fmt.Sprintf("%v", tdParse(s2))
				ds[i] = s
				return nil
			})
		}
	}
}

func (t *tdDrv) random(steps int, w map[string]int) {
	r := t.Rng
	t.Begin(Ev{"grid": t.grid})
	ch := newChooser(w)
	t.newd(t.fresh(), pick(r, t.ks...))
	top := uint64(30000)
	if t.grid {
		top = 2000
	}
	for i := 0; i < steps && !t.Dead; i++ {
		hs := t.Handles()
		if len(hs) == 0 {
			t.newd(t.slot(), pick(r, t.ks...))
			continue
		}
		a := pick(r, hs...)
		d := t.d(a)
		if d.TotalWeight() > top {
			t.Drop(a)
			t.Do("drop", 0, Ev{"d": a}, func(ev Ev) error { return nil })
			continue
		}
		if r.Intn(8) == 0 {
			t.hot = r.Intn(6)
		}
		switch ch.next(r) {
		case "newd":
			t.newd(t.slot(), pick(r, t.ks...))
		case "upd":
			t.upd(a, t.batch(d))
		case "bad":
			t.bad(a)
		case "merge":
			t.merge(a, pick(r, hs...))
		case "query":
			t.query(a)
		case "compat":
			t.compat(t.slot())
		case "ser":
			g := t.slot()
			if !t.Has(a) {
				break
			}
			single := d.TotalWeight() == 1 // kept in another form
			t.ser(g, a)
			for j := r.Intn(3); j > 0 && !t.Dead && t.Has(g); j-- {
				if r.Intn(3) == 0 && d.TotalWeight() > 0 {
					x := t.item()
					t.Do("qrank", a, Ev{"vs": []any{}, "rr": []any{}, "r64": []any{}}, func(ev Ev) error { _, err := d.Rank(x); return err })
					if !t.Dead {
						t.Do("qrank", g, Ev{"vs": []any{}, "rr": []any{}, "r64": []any{}}, func(ev Ev) error { _, err := t.d(g).Rank(x); return err })
					}
				} else {
					xs := t.batch(d)
					t.upd(a, xs)
					if !t.Dead {
						t.upd(g, xs)
					}
				}
				if !t.Dead && !single {
					t.Do("twin", 0, Ev{"a": a, "g": g}, func(ev Ev) error {
						x, y := tdParse(d), tdParse(t.d(g))
						ev["same"] = fmt.Sprintf("%v", x) == fmt.Sprintf("%v", y)
						return nil
					})
				}
			}
		}
	}
}

// script replays a behaviour of MC_Tdigest; a value of the model stands for a
// batch of its third of the domain.
func (t *tdDrv) script(sc []any) {
	r := t.Rng
	t.Begin(Ev{"grid": t.grid})
	i := func(x any) int { return int(x.(float64)) }
	t.next, t.keep = 20, 20
	top := uint64(30000)
	if t.grid {
		top = 2000
	}
	for _, st := range sc {
		if t.Dead {
			return
		}
		c := st.([]any)
		h := i(c[1])
		switch c[0].(string) {
		case "newd":
			t.newd(h, t.ks[(h-1)%len(t.ks)])
		case "upd":
			room := 4 * (2*int(t.d(h).K()) + 10)
			lo := (i(c[2]) - 1) * len(t.dom) / 3
			hi := max(lo+1, i(c[2])*len(t.dom)/3)
			xs := make([]float64, 1+r.Intn(room/2))
			for j := range xs {
				xs[j] = t.dom[min(len(t.dom)-1, lo+r.Intn(hi-lo))]
			}
			t.upd(h, xs)
		case "merge":
			t.merge(h, i(c[2]))
		case "query":
			t.query(h)
		case "ser":
			t.ser(h, i(c[2]))
		default:
			panic("script op " + c[0].(string))
		}
		for _, h := range t.Handles() {
			if t.d(h).TotalWeight() > top {
				return
			}
		}
	}
}

func tdJobs(cfg *Cfg) []core.Job {
	var jobs []core.Job
	add := func(name string, n, steps int, w map[string]int) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("%s#%d", name, i), Run: func(s *Scn) {
				newTdDrv(s, cfg).random(steps, w)
			}})
		}
	}
	one := func(name string, n int, f func(t *tdDrv)) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("%s#%d", name, i), Run: func(s *Scn) { f(newTdDrv(s, cfg)) }})
		}
	}
	nsc := 100
	if cfg.Tier == "thorough" {
		nsc = 5000
	}
	for i, sc := range cfg.Scripts {
		if i >= nsc {
			break
		}
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("spec#%d", i), Run: func(s *Scn) { newTdDrv(s, cfg).script(sc) }})
	}
	switch cfg.Focus {
	case "C17":
		add("hist", cfg.N(260, 12000), 20, map[string]int{"newd": 3, "upd": 24, "merge": 12, "bad": 1, "query": 20, "ser": 2, "compat": 2})
		one("acc", cfg.N(150, 4000), func(t *tdDrv) { t.accuracy() })
		one("huge", cfg.N(20, 400), func(t *tdDrv) { t.huge() })
	case "C18":
		add("images", cfg.N(350, 15000), 14, map[string]int{"newd": 4, "upd": 18, "merge": 6, "query": 4, "ser": 22, "compat": 10})
		one("huge", cfg.N(20, 400), func(t *tdDrv) { t.huge() })
	case "C30":
		add("iso", cfg.N(80, 3000), 24, map[string]int{"newd": 4, "upd": 16, "merge": 14, "query": 10, "ser": 6})
	}
	return jobs
}
