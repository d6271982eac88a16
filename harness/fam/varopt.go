package fam

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"sort"

	"github.com/apache/datasketches-go/sampling"

	"verif/harness/core"
)

// ------------------------------------------------------------------- VarOpt

// voState is what an image says, after its preamble was checked.
type voState struct {
	k, n, h, r int
	gadget     bool
	head       bool
	hw         []float64
	hm         []bool
	hi, ri     []int
	wr         float64
}

func voParse(lib smpLib, b []byte) voState {
	le := binary.LittleEndian
	s := voState{k: int(le.Uint32(b[4:])), gadget: b[3]&128 != 0}
	pre := int(b[0] & 0x3f)
	s.head = b[1] == 2 && b[2] == 13 && (b[3]&4 != 0) == (pre == 1)
	if pre == 1 {
		s.head = s.head && len(b) == 8
		return s
	}
	s.n, s.h, s.r = int(le.Uint64(b[8:])), int(le.Uint32(b[16:])), int(le.Uint32(b[20:]))
	i := 24
	s.head = s.head && pre == 3 == (s.r == 0) && (pre == 3 || pre == 4)
	if s.r > 0 {
		s.wr = math.Float64frombits(le.Uint64(b[24:]))
		i = 32
	}
	for j := 0; j < s.h; j++ {
		s.hw = append(s.hw, math.Float64frombits(le.Uint64(b[i:])))
		i += 8
	}
	s.hm = make([]bool, s.h)
	if s.gadget {
		for j := 0; j < s.h; j++ {
			s.hm[j] = b[i+j/8]>>(j%8)&1 == 1
		}
		i += (s.h + 7) / 8
	}
	all := lib.items(b[i:], s.h+s.r)
	s.hi, s.ri = all[:s.h], all[s.h:]
	return s
}

type voObj struct {
	d   *voDrv
	s   voSk
	exp *big.Float // weight offered
	// occurrences offered
	seen map[int]bool
}

func (d *voDrv) num(w float64) any {
	if !d.grid {
		return X(w)
	}
	if w != math.Floor(w) || math.Abs(w) > 1e9 {
		return -1
	}
	return int(w)
}
func (d *voDrv) ev(st voState) Ev {
	h, r := []any{}, append([]int{}, st.ri...)
	for i, x := range st.hi {
		h = append(h, []any{x, d.num(st.hw[i]), st.hm[i]})
	}
	sort.Ints(r)
	return Ev{"k": st.k, "n": st.n, "h": h, "r": ints(r), "wr": d.num(st.wr)}
}

// state reads a sketch through its public queries.
func (o *voObj) state() voState {
	s := o.s
	st := voState{k: s.k(), n: int(s.n()), h: s.h(), r: s.r()}
	ids, ws := s.all()
	if len(ids) != s.num() || len(ids) != st.h+st.r || s.empty() != (st.n == 0) {
		panic(fmt.Sprint("number of samples ", len(ids), s.num(), st.h, st.r))
	}
	st.hi, st.ri, st.hw, st.hm = ids[:st.h], ids[st.h:], ws[:st.h], make([]bool, st.h)
	for _, w := range ws[st.h:] {
		if w != ws[st.h] {
			panic("light items of different weights")
		}
	}
	if st.r > 0 {
		all, err := s.est(nil)
		if err != nil {
			panic(err)
		}
		st.wr = all.TotalSketchWeight
		for _, w := range st.hw {
			st.wr -= w
		}
		t := ws[st.h] * float64(st.r)
		if math.Abs(st.wr-t) <= 1e-9*math.Abs(all.TotalSketchWeight) {
			if !o.d.grid {
				st.wr = t // free of the cancellation above
			}
		}
	}
	return st
}
func (o *voObj) Show()       { _ = o.s.str() }
func (o *vuObj) Show()       { _ = o.u.str() }
func (o *voObj) Project() Ev { return o.d.ev(o.state()) }

// inv adds what must hold of any sketch, with its floats compared by TLC.
func (o *voObj) inv() Ev {
	d, st := o.d, o.state()
	hw, ho, ro := []any{}, []any{}, []any{}
	tot := new(big.Float).SetPrec(200).SetFloat64(st.wr)
	hr := []any{}
	for i, x := range st.hi {
		hw, ho, hr = append(hw, X(st.hw[i])), append(ho, X(d.w[x])), append(hr, R(st.hw[i]))
		tot.Add(tot, big.NewFloat(st.hw[i]))
	}
	for _, x := range st.ri {
		ro = append(ro, R(d.w[x]))
	}
	tau := 0.0
	if st.r > 0 {
		tau = st.wr / float64(st.r)
	}
	tf, _ := tot.Float64()
	ef, _ := o.exp.Float64()
	off := true
	for _, x := range append(append([]int{}, st.hi...), st.ri...) {
		off = off && o.seen[x]
	}
	return Ev{"hw": hw, "ho": ho, "hr": hr, "ro": ro, "tau": R(tau), "tot": R(tf), "exp": R(ef), "off": off}
}

func (o *voObj) tau() float64 {
	if o.s.r() == 0 {
		return 0
	}
	_, ws := o.s.all()
	return ws[len(ws)-1]
}

type vuObj struct {
	d    *voDrv
	u    voUn
	exp  *big.Float
	seen map[int]bool
}

func (o *vuObj) image() []byte {
	var b bytes.Buffer
	if err := o.u.image(&b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

type vuState struct {
	mk, n, td int
	tn        float64
	g         voState
	head      bool
}

func vuParse(lib smpLib, b []byte) vuState {
	le := binary.LittleEndian
	s := vuState{mk: int(le.Uint32(b[4:]))}
	s.head = b[1] == 2 && b[2] == 14
	if b[3]&4 != 0 {
		s.head = s.head && b[0]&0x3f == 1 && len(b) == 8
		s.g.k, s.g.gadget, s.g.head = s.mk, true, true
		return s
	}
	s.head = s.head && b[0]&0x3f == 4
	s.n, s.tn, s.td = int(le.Uint64(b[8:])), math.Float64frombits(le.Uint64(b[16:])), int(le.Uint64(b[24:]))
	s.g = voParse(lib, b[32:])
	s.head = s.head && s.g.head && s.g.gadget
	return s
}
func (o *vuObj) Project() Ev {
	s := vuParse(o.d.lib, o.image())
	return Ev{"mk": s.mk, "n": s.n, "tn": o.d.num(s.tn), "td": s.td, "g": o.d.ev(s.g), "head": s.head}
}
func (o *vuObj) inv() Ev {
	st := vuParse(o.d.lib, o.image())
	tot := new(big.Float).SetPrec(200).SetFloat64(st.g.wr)
	for _, w := range st.g.hw {
		tot.Add(tot, big.NewFloat(w))
	}
	tf, _ := tot.Float64()
	ef, _ := o.exp.Float64()
	return Ev{"tot": R(tf), "exp": R(ef)}
}

type voDrv struct {
	*Scn
	cfg  *Cfg
	lib  smpLib
	grid bool
	wts  string
	next int
	keep int
	x    int
	w    map[int]float64 // weight every occurrence was offered with
	rfs  []sampling.ResizeFactor
}

func newVoDrv(s *Scn, cfg *Cfg, grid bool) *voDrv {
	d := &voDrv{Scn: s, cfg: cfg, lib: pick(s.Rng, smpLibs()...), next: 1, grid: grid, w: map[int]float64{},
		rfs: []sampling.ResizeFactor{sampling.ResizeX1, sampling.ResizeX2, sampling.ResizeX4, sampling.ResizeX8}}
	d.wts = pick(s.Rng, "equal", "price", "exp", "up", "down", "edge", "edge", "mix", "heavy")
	return d
}
func (d *voDrv) fresh() int { d.next++; return d.next - 1 }
func (d *voDrv) slot() int {
	hs := []int{}
	for _, h := range d.Handles() {
		if h >= d.keep {
			hs = append(hs, h)
		}
	}
	if len(hs) >= 6 {
		d.drop(hs[d.Rng.Intn(len(hs))])
	}
	return d.fresh()
}
func (d *voDrv) drop(h int) {
	d.Drop(h)
	d.Do("drop", 0, Ev{"d": h}, func(ev Ev) error { return nil })
}
func (d *voDrv) sk(h int) *voObj { return d.Get(h).(*voObj) }
func (d *voDrv) un(h int) *vuObj { return d.Get(h).(*vuObj) }
func (d *voDrv) isU(h int) bool {
	_, ok := d.Get(h).(*vuObj)
	return ok
}
func bigZero() *big.Float { return new(big.Float).SetPrec(200) }
func cloneSeen(m map[int]bool) map[int]bool {
	c := map[int]bool{}
	for x := range m {
		c[x] = true
	}
	return c
}

func (d *voDrv) newv(h, k int) {
	d.Do("newv", h, Ev{"k": k}, func(ev Ev) error {
		s, err := d.lib.newV(uint(k), pick(d.Rng, d.rfs...))
		if err == nil {
			d.Put(h, &voObj{d, s, bigZero(), map[int]bool{}})
		}
		return err
	})
}
func (d *voDrv) newu(h, mk int) {
	d.Do("newu", h, Ev{"mk": mk}, func(ev Ev) error {
		u, err := d.lib.newVU(uint(mk))
		if err == nil {
			d.Put(h, &vuObj{d, u, bigZero(), map[int]bool{}})
		}
		return err
	})
}
func (d *voDrv) newbad() {
	d.Do("newbad", 0, Ev{}, func(ev Ev) error {
		acc := []any{}
		for _, k := range []uint{0, 1<<31 - 1, 1 << 31, 1 << 40, math.MaxUint} {
			if _, err := d.lib.newV(k, sampling.ResizeX8); err == nil {
				acc = append(acc, fmt.Sprint("k=", k))
			}
			if _, err := d.lib.newVU(k); err == nil {
				acc = append(acc, fmt.Sprint("union of k=", k))
			}
		}
		ev["acc"] = acc
		u, err := d.lib.newVU(3)
		if err != nil {
			return err
		}
		return u.merge(nil)
	})
}

// weight draws the next one to offer to o.
func (d *voDrv) weight(o *voObj, i int) float64 {
	r := d.Rng
	if d.grid {
		return 60 * float64(pick(r, 1, 1, 2, 3, 4, 5, 10, 1+r.Intn(100)))
	}
	tau := o.tau()
	if tau == 0 {
		tau = 1
	}
	switch w := d.wts; w {
	case "equal":
		return .1
	case "price":
		return float64(1+r.Intn(500)) / pick(r, 10., 100.)
	case "exp":
		return math.Exp(r.NormFloat64() * 10)
	case "up":
		return math.Pow(1.5, math.Min(float64(o.s.n()+1), 300)*pick(r, .5, 1))
	case "down":
		return math.Pow(1.1, -float64(o.s.n()))
	case "heavy":
		if r.Intn(4) == 0 {
			return 1e15 * r.Float64()
		}
		return 1e9 * (1 + r.Float64())
	case "mix":
		return pick(r, 1, 1, 1, 1e-12, 1e12, 3, 1./3, tau, float64(1+r.Intn(9)))
	}
	// just at the threshold, before and after the item itself counts
	rr := float64(o.s.r())
	nx := tau * rr / math.Max(1, rr-1)
	if nx == 0 {
		nx = tau
	}
	w := pick(r, tau, tau, nx, tau/3, .1, .2, .3, .7, 1.1, 2.2, 3.3, float64(1+r.Intn(50))/10)
	switch r.Intn(4) {
	case 0:
		w = math.Nextafter(w, 0)
	case 1:
		w = math.Nextafter(w, math.Inf(1))
	}
	return w
}
func (d *voDrv) upd(h, b int, ws ...float64) {
	o := d.sk(h)
	xs := []any{}
	lo := d.x + 1
	d.x += b
	ev := Ev{}
	d.Do("upd", h, ev, func(ev Ev) error {
		for x := lo; x <= d.x; x++ {
			var w float64
			if len(ws) > 0 {
				w = ws[x-lo]
			} else {
				w = d.weight(o, x-lo)
			}
			d.w[x] = w
			xs = append(xs, []any{x, d.num(w), false})
			ev["xs"] = xs
			ev["ptau"] = R(o.tau())
			if err := o.s.upd(x, w); err != nil {
				return err
			}
			o.seen[x] = true
			o.exp.Add(o.exp, big.NewFloat(w))
		}
		ev["inv"] = o.inv()
		return nil
	})
}
func (d *voDrv) badw(h int) {
	o := d.sk(h)
	d.Do("badw", h, Ev{}, func(ev Ev) error {
		acc := []any{}
		for _, w := range []float64{0, math.Copysign(0, -1), -1, -math.SmallestNonzeroFloat64, math.NaN(), math.Inf(1), math.Inf(-1)} {
			if o.s.upd(1, w) == nil {
				acc = append(acc, fmt.Sprint(w))
			}
		}
		ev["acc"] = acc
		_ = o.s.str()
		return nil
	})
}
func (d *voDrv) reset(h int) {
	d.Do("reset", h, Ev{}, func(ev Ev) error {
		if d.isU(h) {
			o := d.un(h)
			o.u.reset()
			o.exp, o.seen = bigZero(), map[int]bool{}
		} else {
			o := d.sk(h)
			o.s.reset()
			o.exp, o.seen = bigZero(), map[int]bool{}
		}
		return nil
	})
}

func (d *voDrv) est(h int) {
	r := d.Rng
	o := d.sk(h)
	st := o.state()
	set := map[int]bool{}
	p := pick(r, 0, .2, .5, .8, 1)
	tr := 0
	th, sh := bigZero(), bigZero()
	for i, x := range st.hi {
		if _, ok := set[x]; !ok {
			set[x] = r.Float64() < p
		}
		if set[x] {
			th.Add(th, big.NewFloat(st.hw[i]))
		}
		sh.Add(sh, big.NewFloat(st.hw[i]))
	}
	for _, x := range st.ri {
		if _, ok := set[x]; !ok {
			set[x] = r.Float64() < p
		}
	}
	for _, x := range st.ri {
		if set[x] {
			tr++
		}
	}
	d.Do("est", h, Ev{}, func(ev Ev) error {
		m, err := o.s.est(set)
		if err != nil {
			return err
		}
		thf, _ := th.Float64()
		ef, _ := o.exp.Float64()
		ev["lb"], ev["e"], ev["ub"], ev["tot"] = R(m.LowerBound), R(m.Estimate), R(m.UpperBound), R(m.TotalSketchWeight)
		ev["zero"], ev["th"], ev["exp"] = R(0), R(thf), R(ef)
		f, lo, hi := 0., 0., 0.
		if st.r > 0 {
			f = float64(tr) / float64(st.r)
			lo, hi = propBounds(st.r, tr, 2*math.Sqrt(1-float64(st.r)/float64(st.n-st.h)))
		}
		ev["er"], ev["rlb"], ev["rub"] = R(thf+st.wr*f), R(thf+st.wr*lo), R(thf+st.wr*hi)
		a, err := o.s.est(nil)
		if err != nil {
			return err
		}
		ev["all"] = []any{R(a.LowerBound), R(a.Estimate), R(a.UpperBound), R(a.TotalSketchWeight)}
		return nil
	})
}

// mergeable: in grid mode the specification needs whole thresholds and
// every occurrence at most once.
func (d *voDrv) mergeable(u, h int) bool {
	if !d.grid {
		return true
	}
	o := d.sk(h)
	st := o.state()
	if st.r > 0 && math.Mod(st.wr, float64(st.r)) != 0 {
		return false
	}
	for x := range o.seen {
		if d.un(u).seen[x] {
			return false
		}
	}
	return true
}
func (d *voDrv) merge(u, h int) {
	uo, o := d.un(u), d.sk(h)
	d.Do("merge", u, Ev{"src": h}, func(ev Ev) error {
		if err := uo.u.merge(o.s); err != nil {
			return err
		}
		uo.exp.Add(uo.exp, o.exp)
		for x := range o.seen {
			uo.seen[x] = true
		}
		ev["inv"] = uo.inv()
		return nil
	})
}
func (d *voDrv) mergeres(u int) {
	r := d.Rng
	uo := d.un(u)
	k := pick(r, 2, 3, 4, 5)
	n := pick(r, 1, k-1, k, 2*k, 3*k, 10*k)
	if !d.grid {
		k = pick(r, 2, 3, 5, 16, 50)
		n = pick(r, 1, k-1, k, k+1, 2*k+1, 7*k, 1000)
	}
	lo := d.x + 1
	d.x += n
	ev := Ev{"k": k, "n": n}
	d.Do("mergeres", u, ev, func(ev Ev) error {
		rs, err := d.lib.newR(k, pick(r, d.rfs...))
		if err != nil {
			return err
		}
		for x := lo; x <= d.x; x++ {
			d.w[x] = 1
			if err := rs.upd(x); err != nil {
				return err
			}
		}
		ids := rs.ids()
		ev["xs"] = ints(ids)
		if err := rs.mergeVo(uo.u); err != nil {
			return err
		}
		ev["same"] = fmt.Sprint(ids) == fmt.Sprint(rs.ids()) && rs.n() == int64(n)
		uo.exp.Add(uo.exp, big.NewFloat(float64(n)))
		for x := lo; x <= d.x; x++ {
			uo.seen[x] = true
		}
		ev["inv"] = uo.inv()
		return nil
	})
}
func (d *voDrv) result(g, u int) {
	uo := d.un(u)
	d.Do("result", g, Ev{"src": u}, func(ev Ev) error {
		st := vuParse(d.lib, uo.image())
		s, err := uo.u.result()
		if err != nil {
			return err
		}
		_ = uo.u.str()
		o := &voObj{d, s, new(big.Float).Copy(uo.exp), cloneSeen(uo.seen)}
		d.Put(g, o)
		ev["inv"] = o.inv()
		ev["otau"], ev["zero"] = R(0), R(0)
		if st.td > 0 {
			ev["otau"] = R(st.tn / float64(st.td))
		}
		return nil
	})
}

func (d *voDrv) ser(g, h int) {
	r := d.Rng
	var img []byte
	d.Do("ser", g, Ev{"src": h}, func(ev Ev) error {
		var one, two bytes.Buffer
		if d.isU(h) {
			o := d.un(h)
			if err := o.u.image(&one); err != nil {
				return err
			}
			if err := o.u.image(&two); err != nil {
				return err
			}
			ev["size"] = true
			img = one.Bytes()
			st := vuParse(d.lib, img)
			ev["img"], ev["head"] = Ev{"mk": st.mk, "n": st.n, "tn": d.num(st.tn), "td": st.td, "g": d.ev(st.g)}, st.head
		} else {
			o := d.sk(h)
			if err := o.s.image(&one); err != nil {
				return err
			}
			if err := o.s.image(&two); err != nil {
				return err
			}
			img = one.Bytes()
			ev["size"] = o.s.size() == len(img)
			st := voParse(d.lib, img)
			if !d.grid && st.r > 0 {
				st.wr = st.wr / float64(st.r) * float64(st.r)
			}
			ev["img"], ev["head"] = d.ev(st), st.head && !st.gadget
		}
		ev["stable"] = bytes.Equal(one.Bytes(), two.Bytes())
		in := append(img[:len(img):len(img)], make([]byte, pick(r, 0, 0, 3))...)[:len(img)]
		defer core.Keep(in)()
		if d.isU(h) {
			u, err := d.lib.restVU(in)
			if err != nil {
				return err
			}
			d.Put(g, &vuObj{d, u, new(big.Float).Copy(d.un(h).exp), cloneSeen(d.un(h).seen)})
			// what the two give next is alike up to which light items stay
			ev["res"], ev["rres"] = d.gist(d.un(h).u), d.gist(u)
		} else {
			s, err := d.lib.restV(in)
			if err != nil {
				return err
			}
			d.Put(g, &voObj{d, s, new(big.Float).Copy(d.sk(h).exp), cloneSeen(d.sk(h).seen)})
		}
		img = in
		return nil
	})
	if !d.Dead {
		d.Do("scribble", 0, Ev{}, func(ev Ev) error {
			for i := range img {
				img[i] ^= 0x5A
			}
			return nil
		})
	}
}

func (d *voDrv) gist(u voUn) string {
	s, err := u.result()
	if err != nil {
		return "error"
	}
	ids, ws := s.all()
	hv := []string{}
	for i := 0; i < s.h(); i++ {
		hv = append(hv, fmt.Sprint(ids[i], "/", ws[i]))
	}
	sort.Strings(hv)
	tau := 0.
	if s.r() > 0 {
		tau = ws[len(ws)-1]
	}
	return fmt.Sprint(s.k(), s.n(), s.h(), s.r(), float32(tau), hv)
}

// uni: how often each occurrence survives.
func (d *voDrv) uni() {
	r := d.Rng
	T := 1200
	mode := pick(r, "sketch", "sketch", "image", "union", "union", "union")
	k, k2, mk := pick(r, 1, 2, 3, 4, 5, 6), pick(r, 1, 2, 3, 4, 6), pick(r, 1, 2, 3, 4, 6)
	n := k + 1 + r.Intn(2*k+3)
	n2 := 1 + r.Intn(2*k2+2)
	ws := []float64{0}
	xs := []any{}
	for x := 1; x <= n+n2; x++ {
		w := 60 * float64(pick(r, 1, 1, 2, 3, 5, 10, 12))
		if x == n && r.Intn(2) == 0 {
			w *= 4
		}
		ws = append(ws, w)
		xs = append(xs, []any{x, int(w), false})
	}
	ev := Ev{"mode": mode, "k": k, "mk": mk, "k2": k2, "T": T, "xs": xs[:n], "xs2": xs[n:]}
	d.Do("uni", 0, ev, func(ev Ev) error {
		cnt := make([]int, n+n2)
		for t := 0; t < T; t++ {
			a, err := d.lib.newV(uint(k), pick(r, d.rfs...))
			if err != nil {
				return err
			}
			for x := 1; x <= n; x++ {
				if err := a.upd(x, ws[x]); err != nil {
					return err
				}
				if mode == "image" && r.Intn(4) == 0 {
					var b bytes.Buffer
					if err := a.image(&b); err != nil {
						return err
					}
					if a, err = d.lib.restV(b.Bytes()); err != nil {
						return err
					}
				}
			}
			res := a
			if mode == "union" {
				u, err := d.lib.newVU(uint(mk))
				if err != nil {
					return err
				}
				b, err := d.lib.newV(uint(k2), sampling.ResizeX8)
				if err != nil {
					return err
				}
				for x := n + 1; x <= n+n2; x++ {
					if err := b.upd(x, ws[x]); err != nil {
						return err
					}
				}
				if err := u.merge(a); err != nil {
					return err
				}
				if err := u.merge(b); err != nil {
					return err
				}
				if res, err = u.result(); err != nil {
					return err
				}
			}
			ids, _ := res.all()
			for _, x := range ids {
				cnt[x-1]++
			}
		}
		ev["cnt"] = ints(cnt)
		return nil
	})
}

func (d *voDrv) random(steps int, w map[string]int) {
	r := d.Rng
	d.Begin(Ev{"t": d.lib.tname(), "grid": d.grid})
	ch := newChooser(w)
	ks := func() int {
		if d.grid {
			return 1 + r.Intn(6)
		}
		return pick(r, 1, 1, 2, 2, 3, 4, 5, 8, 10, 16, 17, 33, 64)
	}
	size := func(k int) int { return pick(r, 1, 1, 1, 2, 3, k-1, k, k+1, 2*k, 4*k) }
	find := func(u bool) (int, bool) {
		c := []int{}
		for _, h := range d.Handles() {
			if d.isU(h) == u {
				c = append(c, h)
			}
		}
		if len(c) == 0 {
			return 0, false
		}
		return pick(r, c...), true
	}
	for i := 0; i < steps && !d.Dead; i++ {
		op := ch.next(r)
		h, okh := find(false)
		u, oku := find(true)
		if !okh && op != "newu" && op != "uni" {
			op = "newv"
		}
		if !oku && (op == "merge" || op == "mergeres" || op == "result" || op == "ureset" || op == "user") {
			op = "newu"
		}
		switch op {
		case "newv":
			g, k := d.slot(), ks()
			d.newv(g, k)
			if n := size(k); !d.Dead && d.Has(g) && n > 0 && r.Intn(3) > 0 {
				d.upd(g, n)
			}
		case "newu":
			mk := ks()
			if r.Intn(3) == 0 {
				mk = pick(r, 8+r.Intn(20), 200)
			}
			d.newu(d.slot(), mk)
		case "newbad":
			d.newbad()
		case "badw":
			d.badw(h)
		case "upd":
			if n := size(d.sk(h).s.k()); n > 0 {
				d.upd(h, n)
			}
		case "reset":
			d.reset(h)
		case "ureset":
			d.reset(u)
		case "est":
			d.est(h)
		case "merge":
			if d.mergeable(u, h) {
				d.merge(u, h)
			}
			for j := r.Intn(3); j > 0 && !d.grid && !d.Dead && r.Intn(3) == 0; j-- {
				d.merge(u, h)
			}
		case "mergeres":
			d.mergeres(u)
		case "result":
			if g := d.slot(); d.Has(u) {
				d.result(g, u)
				if q := d.fresh(); d.Has(g) && !d.Dead && r.Intn(3) == 0 {
					d.ser(q, g)
				}
			}
		case "ser":
			if g := d.slot(); d.Has(h) {
				d.ser(g, h)
			}
		case "user":
			if g := d.slot(); d.Has(u) {
				d.ser(g, u)
			}
		case "uni":
			d.uni()
		}
	}
}

func (d *voDrv) script(sc []any) {
	d.Begin(Ev{"t": d.lib.tname(), "grid": d.grid})
	i := func(x any) int { return int(x.(float64)) }
	d.next, d.keep = 20, 20
	for _, st := range sc {
		if d.Dead {
			return
		}
		c := st.([]any)
		h := i(c[1])
		switch op := c[0].(string); op {
		case "newv":
			d.newv(h, i(c[2]))
		case "newu":
			d.newu(h, i(c[2]))
		case "upd":
			d.upd(h, 1, 5*c[2].(float64))
			if !d.Dead && d.Rng.Intn(6) == 0 {
				d.est(h)
			}
		case "merge":
			if d.mergeable(h, i(c[2])) {
				d.merge(h, i(c[2]))
			}
		case "reset", "ureset":
			d.reset(h)
		case "ser", "user":
			d.ser(h, i(c[2]))
		case "result":
			d.result(h, i(c[2]))
		default:
			panic("script op " + op)
		}
	}
}

func voJobs(cfg *Cfg) []core.Job {
	var jobs []core.Job
	add := func(name string, n, steps int, grid bool, w map[string]int) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("%s#%d", name, i), Run: func(s *Scn) {
				newVoDrv(s, cfg, grid).random(steps, w)
			}})
		}
	}
	nsc := 400
	if cfg.Tier == "thorough" {
		nsc = 5000
	}
	for i, sc := range cfg.Scripts {
		if i >= nsc {
			break
		}
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("spec#%d", i), Run: func(s *Scn) { newVoDrv(s, cfg, true).script(sc) }})
	}
	sk := map[string]int{"newv": 8, "newbad": 1, "badw": 2, "upd": 30, "reset": 3, "est": 12, "ser": 3, "newu": 1, "merge": 2, "result": 2}
	un := map[string]int{"newv": 12, "newu": 5, "upd": 20, "reset": 2, "ureset": 3, "est": 4, "merge": 24, "mergeres": 8, "result": 14, "ser": 2, "user": 2, "newbad": 1}
	im := map[string]int{"newv": 10, "newu": 4, "upd": 20, "reset": 2, "ureset": 2, "est": 4, "merge": 16, "mergeres": 5, "result": 8, "ser": 16, "user": 16}
	switch cfg.Focus {
	case "C25":
		add("grid", cfg.N(300, 9000), 30, true, sk)
		add("float", cfg.N(400, 12000), 30, false, sk)
		add("uniform", cfg.N(120, 3000), 1, true, map[string]int{"uni": 1})
	case "C26":
		add("grid", cfg.N(400, 10000), 30, true, un)
		add("float", cfg.N(400, 12000), 30, false, un)
		add("uniform", cfg.N(120, 3000), 1, true, map[string]int{"uni": 1})
	case "C27":
		add("grid", cfg.N(250, 8000), 26, true, im)
		add("float", cfg.N(300, 10000), 26, false, im)
	case "C30":
		iso := map[string]int{"newv": 8, "newu": 4, "upd": 20, "reset": 4, "ureset": 4, "est": 4, "merge": 20, "mergeres": 4, "result": 12, "ser": 6, "user": 6}
		add("grid", cfg.N(50, 1500), 26, true, iso)
		add("iso", cfg.N(80, 2000), 26, false, iso)
	}
	return jobs
}
