package fam

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sort"

	"github.com/apache/datasketches-go/theta"

	"verif/harness/core"
)

// ---- projections

type thSk struct {
	s   theta.Sketch
	upd *theta.QuickSelectUpdateSketch
	sd  [2]uint64
}

func thProj(s theta.Sketch, seeds [2]uint64) Ev {
	set := []H{}
	sorted := true
	last := uint64(0)
	for e := range s.All() {
		if e <= last {
			sorted = false
		}
		last = e
		set = append(set, H(e))
	}
	sh, err := s.SeedHash()
	sid := 9
	if err == nil {
		for i, sd := range seeds {
			if sh == SeedHash16(sd) {
				sid = i
			}
		}
	}
	canon := append([]H(nil), set...)
	sort.Slice(canon, func(i, j int) bool { return canon[i] < canon[j] })
	return Ev{"emp": s.IsEmpty(), "theta": H(s.Theta64()), "set": canon, "n": int(s.NumRetained()),
		"ord": s.IsOrdered(), "srt": sorted, "em": s.IsEstimationMode(), "sid": sid}
}

func (o *thSk) Project() Ev { return thProj(o.s, o.sd) }

// words calls whatever describes x in words.
func words(x any) {
	switch s := x.(type) {
	case interface{ String(bool) string }:
		_ = s.String(true)
		_ = s.String(false)
	case fmt.Stringer:
		_ = s.String()
	}
}

func (o *thSk) Show() { words(o.s) }

type thUn struct {
	u  *theta.Union
	sd [2]uint64
}

func (o *thUn) Project() Ev {
	r, err := o.u.Result(true)
	if err != nil {
		return thErrProj()
	}
	return thProj(r, o.sd)
}

func thErrProj() Ev {
	return Ev{"emp": false, "theta": H(0), "set": []H{}, "n": -1, "ord": false, "srt": false, "em": false, "sid": 8}
}

type thIn struct {
	i  *theta.Intersection
	sd [2]uint64
}

func (o *thIn) Project() Ev {
	if !o.i.HasResult() {
		return thErrProj()
	}
	r, err := o.i.Result(true)
	if err != nil {
		return thErrProj()
	}
	return thProj(r, o.sd)
}

// ---- keys

// thKey is one update call with the hash the format prescribes for it.
type thKey struct {
	kind string
	i    int64
	f    float64
	s    string
}

func (k thKey) bytes() []byte {
	switch k.kind {
	case "u64", "i64":
		return le64(uint64(k.i))
	case "u32":
		return le64(uint64(uint32(k.i)))
	case "i32":
		return le32(uint32(int32(k.i)))
	case "u16":
		return le32(uint32(uint16(k.i)))
	case "i16":
		return le32(uint32(int32(int16(k.i))))
	case "u8":
		return le32(uint32(uint8(k.i)))
	case "i8":
		return le32(uint32(int32(int8(k.i))))
	case "f64":
		return le64(canonDouble(k.f))
	case "f32":
		return le64(canonDouble(float64(float32(k.f))))
	case "str", "byt":
		return []byte(k.s)
	}
	panic("kind")
}

func (k thKey) hash(seed uint64) uint64 {
	if k.kind == "str" {
		h, _ := charHash(seed, k.s)
		return h >> 1
	}
	h, _ := murmur(seed, k.bytes())
	return h >> 1
}

func (k thKey) feed(s *theta.QuickSelectUpdateSketch) error {
	switch k.kind {
	case "u64":
		return s.UpdateUint64(uint64(k.i))
	case "i64":
		return s.UpdateInt64(k.i)
	case "u32":
		return s.UpdateUint32(uint32(k.i))
	case "i32":
		return s.UpdateInt32(int32(k.i))
	case "u16":
		return s.UpdateUint16(uint16(k.i))
	case "i16":
		return s.UpdateInt16(int16(k.i))
	case "u8":
		return s.UpdateUint8(uint8(k.i))
	case "i8":
		return s.UpdateInt8(int8(k.i))
	case "f64":
		return s.UpdateFloat64(k.f)
	case "f32":
		return s.UpdateFloat32(float32(k.f))
	case "str":
		return s.UpdateString(k.s)
	case "byt":
		b := []byte(k.s)
		defer core.Keep(b)()
		return s.UpdateBytes(b)
	}
	panic("kind")
}

var thKinds = []string{"u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8", "f64", "f32", "str", "byt"}

func (t *thDrv) key() thKey {
	r := t.Rng
	if t.shift > 0 && r.Intn(5) > 0 {
		return t.crafted(r.Intn(t.pool))
	}
	n := int64(r.Intn(t.pool))
	k := thKey{kind: "u64", i: n}
	if t.mixed && r.Intn(2) == 0 {
		k.kind = pick(r, thKinds...)
		if r.Intn(3) == 0 {
			k.i = -k.i
		}
		if r.Intn(6) == 0 {
			k.i = r.Int63() - r.Int63()
		}
		k.f = float64(k.i) / 4
		if r.Intn(5) == 0 {
			k.f = pick(r, 0.0, math.Copysign(0, -1), math.NaN(), anyNaN(r), anyNaN(r), math.Inf(1), math.Inf(-1), math.SmallestNonzeroFloat64)
		}
		k.s = fmt.Sprintf("k%d", k.i)
		if r.Intn(6) == 0 {
			// long strings exercise the hash's block/tail paths
			k.s = string(bytes.Repeat([]byte{byte('a' + r.Intn(3))}, 1+r.Intn(40)))
		}
	}
	return k
}

// ---- driver

type thDrv struct {
	*Scn
	cfg   *Cfg
	seeds [2]uint64
	pool  int
	mixed bool
	next  int
	lgk   map[int]uint8
	bufs  map[int][]byte // image behind a decoded sketch
	shift uint           // crafted hashes stay below 2^(64-shift); 0 for none
	salt  uint64
}

// crafted is a key with a chosen hash: small ones drive theta down to almost
// nothing, others share the low bits the tables are probed with.
func (t *thDrv) crafted(i int) thKey {
	x := mix64(t.salt ^ uint64(i))
	h := x >> 1 >> t.shift
	switch x % 16 {
	case 0:
		h = uint64(i % 5)
	case 1:
		h = h&^0xfff | 0x123
	case 2:
		if t.shift < 8 {
			h = theta.MaxTheta - uint64(i%3)
		}
	case 3:
		h = h>>8 + 1
	}
	return thKey{kind: "byt", s: string(unmurmur(t.seeds[0], h<<1|x>>9&1, x))}
}

func newThDrv(s *Scn, cfg *Cfg) *thDrv {
	r := s.Rng
	t := &thDrv{Scn: s, cfg: cfg, seeds: [2]uint64{9001, 12345}, next: 1, lgk: map[int]uint8{}, bufs: map[int][]byte{}}
	t.pool = pick(r, 12, 60, 150, 400, 2000)
	t.mixed = r.Intn(3) == 0
	if r.Intn(3) == 0 {
		t.shift = pick(r, uint(1), 1, 8, 20, uint(r.Intn(58)), uint(r.Intn(58)), 40, 50, 55)
		t.salt = r.Uint64()
	}
	return t
}

func (t *thDrv) fresh() int { t.next++; return t.next - 1 }

func (t *thDrv) begin() {
	t.Begin(Ev{"max": H(theta.MaxTheta), "ctl": H(0)})
}

func startTheta(p float32) uint64 {
	if p < 1 {
		return uint64(float64(theta.MaxTheta) * float64(p))
	}
	return theta.MaxTheta
}

func (t *thDrv) newUpd(h int, lgk uint8, p float32, sid int) {
	rf := pick(t.Rng, theta.ResizeX1, theta.ResizeX2, theta.ResizeX4, theta.ResizeX8)
	t.Do("newu", h, Ev{"k": 1 << lgk, "t0": H(startTheta(p)), "sidx": sid, "rf": int(rf), "got": []int{}}, func(ev Ev) error {
		s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgk), theta.WithUpdateSketchResizeFactor(rf),
			theta.WithUpdateSketchP(p), theta.WithUpdateSketchSeed(t.seeds[sid]))
		if err != nil {
			return err
		}
		t.Put(h, &thSk{s: s, upd: s, sd: t.seeds})
		t.lgk[h] = lgk
		ev["got"] = []int{1 << s.LgK(), int(s.ResizeFactor())}
		return nil
	})
}

func thRet(err error) int {
	switch {
	case err == nil:
		return 0
	case errors.Is(err, theta.ErrDuplicateKey):
		return 1
	case errors.Is(err, theta.ErrHashExceedsTheta):
		return 2
	}
	return 3
}

func (t *thDrv) update(h int, keys []thKey, sid int) {
	o := t.Get(h).(*thSk)
	ks := make([]H, len(keys))
	for i, k := range keys {
		ks[i] = H(k.hash(t.seeds[sid]))
	}
	t.Do("upd", h, Ev{"ks": ks}, func(ev Ev) error {
		rets := make([]int, 0, len(keys))
		for _, k := range keys {
			rets = append(rets, thRet(k.feed(o.upd)))
		}
		ev["rets"] = ints(rets)
		return nil
	})
}

func (t *thDrv) updEmptyString(h int) {
	o := t.Get(h).(*thSk)
	t.Do("updx", h, Ev{}, func(ev Ev) error {
		ev["ret"] = b2i(o.upd.UpdateString("") != nil)
		return nil
	})
}

func (t *thDrv) trim(h int) {
	o := t.Get(h).(*thSk)
	t.Do("trim", h, Ev{}, func(ev Ev) error { o.upd.Trim(); return nil })
}

func (t *thDrv) reset(h int) {
	o := t.Get(h).(*thSk)
	t.Do("reset", h, Ev{}, func(ev Ev) error { o.upd.Reset(); return nil })
}

func (t *thDrv) compact(g, src int) {
	o := t.Get(src).(*thSk)
	ord := t.Rng.Intn(2) == 0
	how := t.Rng.Intn(3)
	t.Do("compact", g, Ev{"src": src, "ordered": ord || (o.upd != nil && how == 2)}, func(ev Ev) error {
		var c *theta.CompactSketch
		switch {
		case o.upd != nil && how == 0:
			c = o.upd.Compact(ord)
		case o.upd != nil && how == 2:
			c = o.upd.CompactOrdered()
		default:
			c = theta.NewCompactSketch(o.s, ord)
		}
		t.Put(g, &thSk{s: c, sd: t.seeds})
		return nil
	})
}

func (t *thDrv) newUnion(h int, lgk uint8, p float32, sid int) {
	rf := pick(t.Rng, theta.ResizeX1, theta.ResizeX2, theta.ResizeX4, theta.ResizeX8)
	t.Do("newn", h, Ev{"k": 1 << lgk, "t0": H(startTheta(p)), "sidx": sid}, func(ev Ev) error {
		u, err := theta.NewUnion(theta.WithUnionLgK(lgk), theta.WithUnionResizeFactor(rf), theta.WithUnionSketchP(p), theta.WithUnionSeed(t.seeds[sid]))
		if err != nil {
			return err
		}
		t.Put(h, &thUn{u, t.seeds})
		return nil
	})
}

func (t *thDrv) unionUpd(h, src int) {
	u := t.Get(h).(*thUn)
	o := t.Get(src).(*thSk)
	t.Do("nupd", h, Ev{"src": src}, func(ev Ev) error { return u.u.Update(o.s) })
}

func (t *thDrv) unionReset(h int) {
	u := t.Get(h).(*thUn)
	t.Do("nreset", h, Ev{}, func(ev Ev) error { u.u.Reset(); return nil })
}

func (t *thDrv) unionRes(g, src int) {
	u := t.Get(src).(*thUn)
	ord := t.Rng.Intn(2) == 0
	t.Do("nres", g, Ev{"src": src, "ordered": ord}, func(ev Ev) error {
		c, err := u.u.Result(ord)
		if err == nil {
			t.Put(g, &thSk{s: c, sd: t.seeds})
		}
		return err
	})
}

func (t *thDrv) newInter(h, sid int) {
	t.Do("newi", h, Ev{"sidx": sid}, func(ev Ev) error {
		t.Put(h, &thIn{theta.NewIntersection(theta.WithIntersectionSeed(t.seeds[sid])), t.seeds})
		return nil
	})
}

func (t *thDrv) interUpd(h, src int) {
	u := t.Get(h).(*thIn)
	o := t.Get(src).(*thSk)
	t.Do("iupd", h, Ev{"src": src}, func(ev Ev) error { return u.i.Update(o.s) })
}

func (t *thDrv) interRes(g, src int) {
	u := t.Get(src).(*thIn)
	ord := t.Rng.Intn(2) == 0
	t.Do("ires", g, Ev{"src": src, "ordered": ord}, func(ev Ev) error {
		c, err := u.i.Result(ord)
		if err == nil {
			t.Put(g, &thSk{s: c, sd: t.seeds})
		}
		return err
	})
}

func (t *thDrv) anotb(g, a, b, sid int) {
	oa, ob := t.Get(a).(*thSk), t.Get(b).(*thSk)
	ord := t.Rng.Intn(2) == 0
	t.Do("anb", g, Ev{"a": a, "b": b, "ordered": ord, "sidx": sid}, func(ev Ev) error {
		c, err := theta.ANotB(oa.s, ob.s, t.seeds[sid], ord)
		if err == nil {
			t.Put(g, &thSk{s: c, sd: t.seeds})
		}
		return err
	})
}

func (t *thDrv) jaccard(a, b, sid int) {
	oa, ob := t.Get(a).(*thSk), t.Get(b).(*thSk)
	t.Do("jac", 0, Ev{"a": a, "b": b, "sidx": sid, "lb": R(0), "est": R(0), "ub": R(0), "zero": R(0), "one": R(1), "num": 0, "den": 0, "eq": false, "eqerr": 0, "same": a == b, "sim": []bool{}, "dis": []bool{}}, func(ev Ev) error {
		j, err := theta.Jaccard(oa.s, ob.s, t.seeds[sid])
		if err != nil {
			return err
		}
		ev["lb"], ev["est"], ev["ub"] = R(j.LowerBound), R(j.Estimate), R(j.UpperBound)
		if ev["sim"], ev["dis"], err = similar(j.LowerBound, j.UpperBound,
			func(x float64) (bool, error) { return theta.IsSimilar(oa.s, ob.s, x, t.seeds[sid]) },
			func(x float64) (bool, error) { return theta.IsDissimilar(oa.s, ob.s, x, t.seeds[sid]) }); err != nil {
			return err
		}
		// the estimate as a fraction over the retained union, which the
		// specification recomputes from the two sets
		thm := min(oa.s.Theta64(), ob.s.Theta64())
		un := map[uint64]bool{}
		for e := range oa.s.All() {
			if e < thm {
				un[e] = true
			}
		}
		for e := range ob.s.All() {
			if e < thm {
				un[e] = true
			}
		}
		den := len(un)
		num := int(math.Round(j.Estimate * float64(den)))
		if !core.Close(j.Estimate*float64(den), float64(num)) {
			num = -1
		}
		ev["num"], ev["den"] = num, den
		eq, err := theta.IsExactlyEqual(oa.s, ob.s, t.seeds[sid])
		ev["eq"] = eq
		if err != nil {
			ev["eqerr"] = 1
		}
		return nil
	})
}

// similar asks the two tests at the bound itself and just beyond it.
func similar(lb, ub float64, sim, dis func(float64) (bool, error)) ([]bool, []bool, error) {
	var out [4]bool
	for i, q := range []struct {
		f func(float64) (bool, error)
		x float64
	}{{sim, lb}, {sim, math.Nextafter(lb, 2)}, {dis, ub}, {dis, math.Nextafter(ub, -1)}} {
		v, err := q.f(q.x)
		if err != nil {
			return nil, nil, err
		}
		out[i] = v
	}
	return out[:2], out[2:], nil
}

// serialize src and restore it as g.
func (t *thDrv) roundTrip(g, src int) {
	o := t.Get(src).(*thSk)
	r := t.Rng
	c, ok := o.s.(*theta.CompactSketch)
	if !ok {
		c = theta.NewCompactSketch(o.s, r.Intn(2) == 0)
	}
	sh, _ := c.SeedHash()
	sid := 0
	if sh == SeedHash16(t.seeds[1]) {
		sid = 1
	}
	seed := t.seeds[sid]
	wfmt := pick(r, "mb", "enc", "encz")
	rfmt := pick(r, "dec", "rd", "rd1", "wrap")
	args := Ev{"src": src, "w": wfmt, "r": rfmt, "srcord": c.IsOrdered(), "declared": 0, "actual": 0, "stable": true, "most": 0}
	lgk, ok := t.lgk[src]
	if !ok {
		lgk = 5
		for 1<<lgk < int(c.NumRetained()) {
			lgk++
		}
	}
	args["lgk"] = int(lgk)
	var img []byte
	t.Do("ser", g, args, func(ev Ev) error {
		var err error
		img, err = thMarshal(c, wfmt)
		if err != nil {
			return err
		}
		ev["declared"] = c.SerializedSizeBytes(wfmt == "encz")
		ev["actual"] = len(img)
		ev["most"] = int(c.MaxSerializedSizeBytes(lgk))
		img2, err := thMarshal(c, wfmt)
		if err != nil {
			return err
		}
		ev["stable"] = bytes.Equal(img, img2)
		defer core.Keep(img)()
		s, err := thRead(img, rfmt, seed, r.Intn(5)+1)
		if err != nil {
			return err
		}
		t.Put(g, &thSk{s: s, sd: t.seeds})
		return nil
	})
	if rfmt != "wrap" && !t.Dead && t.Has(g) {
		t.bufs[g] = img
		// a decoded sketch must not depend on the caller's buffer
		t.Do("scribble", 0, Ev{}, func(ev Ev) error {
			for i := range img {
				img[i] = 0xA5
			}
			return nil
		})
	}
}

func thMarshal(c *theta.CompactSketch, w string) ([]byte, error) {
	switch w {
	case "mb":
		return c.MarshalBinary()
	}
	var b bytes.Buffer
	enc := theta.NewEncoder(&b, w == "encz")
	err := enc.Encode(c)
	return b.Bytes(), err
}

func thRead(img []byte, how string, seed uint64, chunk int) (theta.Sketch, error) {
	switch how {
	case "dec":
		return nilSafe(theta.Decode(img, seed))
	case "rd":
		d := theta.NewDecoder(seed)
		return nilSafe(d.Decode(bytes.NewReader(img)))
	case "rd1":
		d := theta.NewDecoder(seed)
		return nilSafe(d.Decode(&oneByteReader{b: img, max: chunk}))
	case "wrap":
		s, err := theta.WrapCompactSketch(img, seed)
		if err != nil {
			return nil, err
		}
		return s, nil
	}
	panic(how)
}

func nilSafe(s *theta.CompactSketch, err error) (theta.Sketch, error) {
	if err != nil {
		return nil, err
	}
	return s, nil
}

// wrong seed, and every strict prefix, must be refused.
func (t *thDrv) refuse(src int) {
	o := t.Get(src).(*thSk)
	r := t.Rng
	c := theta.NewCompactSketch(o.s, true)
	sh, _ := c.SeedHash()
	other := t.seeds[0]
	if sh == SeedHash16(other) {
		other = t.seeds[1]
	}
	wfmt := pick(r, "mb", "encz")
	how := pick(r, "dec", "rd", "wrap")
	t.Do("badseed", 0, Ev{"src": src, "w": wfmt, "r": how}, func(ev Ev) error {
		img, err := thMarshal(c, wfmt)
		if err != nil {
			return nil
		}
		_, err = thRead(img, how, other, 3)
		return err
	})
}

func (t *thDrv) est(h int) {
	o := t.Get(h).(*thSk)
	t.Do("est", h, Ev{}, func(ev Ev) error {
		return estFill(ev, o.s.Estimate(), func(k int) (float64, error) { return o.s.LowerBound(uint8(k)) },
			func(k int) (float64, error) { return o.s.UpperBound(uint8(k)) },
			float64(o.s.NumRetained()), float64(o.s.NumRetained())/(float64(o.s.Theta64())/float64(theta.MaxTheta)))
	})
}

// estFill records estimate and bounds for the ordering specification.
func estFill(ev Ev, est float64, lb, ub func(int) (float64, error), floor, formula float64) error {
	ls, us := []R{}, []R{}
	for k := 1; k <= 3; k++ {
		l, err := lb(k)
		if err != nil {
			return err
		}
		u, err := ub(k)
		if err != nil {
			return err
		}
		ls, us = append(ls, R(l)), append(us, R(u))
	}
	ev["lbs"], ev["ubs"], ev["e"], ev["floor"], ev["formula"] = ls, us, R(est), R(floor), R(formula)
	return nil
}

func (t *thDrv) sketches(f func(o *thSk) bool) []int {
	var out []int
	for _, h := range t.Handles() {
		if o, ok := t.Get(h).(*thSk); ok && (f == nil || f(o)) {
			out = append(out, h)
		}
	}
	return out
}

func sidOf(seeds [2]uint64, s theta.Sketch) int {
	sh, _ := s.SeedHash()
	if sh == SeedHash16(seeds[1]) {
		return 1
	}
	return 0
}

// slot returns a handle for a new object, evicting one when too many are live.
func (t *thDrv) slot() int {
	hs := t.Handles()
	if len(hs) >= 7 {
		h := hs[t.Rng.Intn(len(hs))]
		t.Drop(h)
		t.Do("drop", 0, Ev{"d": h}, func(ev Ev) error { return nil })
	}
	return t.fresh()
}

func (t *thDrv) keysBlock() []thKey {
	r := t.Rng
	n := pick(r, 0, 1, 1, 2, 5, 17, 40, 90)
	if n == 0 {
		n = r.Intn(150)
	}
	ks := make([]thKey, n)
	if r.Intn(3) == 0 { // contiguous run
		b := r.Intn(t.pool)
		for i := range ks {
			ks[i] = thKey{kind: "u64", i: int64((b + i) % t.pool)}
			if t.shift > 0 {
				ks[i] = t.crafted((b + i) % t.pool)
			}
		}
		return ks
	}
	for i := range ks {
		ks[i] = t.key()
	}
	return ks
}

func (t *thDrv) random(steps int, weights map[string]int) {
	r := t.Rng
	t.begin()
	p := func() float32 { return pick(r, float32(1), 1, 1, 1, 0.5, 0.1, 0.01, 0.999) }
	lg := func() uint8 { return pick(r, uint8(5), 5, 5, 6, 7) }
	sid := func() int {
		if r.Intn(12) == 0 {
			return 1
		}
		return 0
	}
	names := []string{}
	for k := range weights {
		names = append(names, k)
	}
	sort.Strings(names)
	tot := 0
	for _, n := range names {
		tot += weights[n]
	}
	for i := 0; i < 2; i++ {
		t.newUpd(t.fresh(), lg(), p(), 0)
	}
	for i := 0; i < steps && !t.Dead; i++ {
		x := r.Intn(tot)
		op := ""
		for _, n := range names {
			if x -= weights[n]; x < 0 {
				op = n
				break
			}
		}
		upds := t.sketches(func(o *thSk) bool { return o.upd != nil })
		all := t.sketches(nil)
		var uns, ins []int
		for _, h := range t.Handles() {
			switch t.Get(h).(type) {
			case *thUn:
				uns = append(uns, h)
			case *thIn:
				ins = append(ins, h)
			}
		}
		switch op {
		case "newu":
			t.newUpd(t.slot(), lg(), p(), sid())
		case "upd":
			if len(upds) > 0 {
				h := pick(r, upds...)
				t.update(h, t.keysBlock(), sidOf(t.seeds, t.Get(h).(*thSk).s))
			}
		case "updx":
			if len(upds) > 0 {
				t.updEmptyString(pick(r, upds...))
			}
		case "trim":
			if len(upds) > 0 {
				t.trim(pick(r, upds...))
			}
		case "reset":
			if len(upds) > 0 {
				t.reset(pick(r, upds...))
			}
		case "compact":
			if len(all) > 0 {
				src := pick(r, all...)
				g := t.slot()
				if t.Has(src) {
					t.compact(g, src)
				}
			}
		case "newn":
			t.newUnion(t.slot(), lg(), p(), sid())
		case "nupd":
			if len(uns) > 0 && len(all) > 0 {
				t.unionUpd(pick(r, uns...), pick(r, all...))
			}
		case "nreset":
			if len(uns) > 0 {
				t.unionReset(pick(r, uns...))
			}
		case "nres":
			if len(uns) > 0 {
				src := pick(r, uns...)
				g := t.slot()
				if t.Has(src) {
					t.unionRes(g, src)
				}
			}
		case "newi":
			t.newInter(t.slot(), sid())
		case "iupd":
			if len(ins) > 0 && len(all) > 0 {
				t.interUpd(pick(r, ins...), pick(r, all...))
			}
		case "ires":
			if len(ins) > 0 {
				src := pick(r, ins...)
				g := t.slot()
				if t.Has(src) {
					t.interRes(g, src)
				}
			}
		case "anb":
			if len(all) > 0 {
				a, b := pick(r, all...), pick(r, all...)
				g := t.slot()
				if t.Has(a) && t.Has(b) {
					t.anotb(g, a, b, sid())
				}
			}
		case "jac":
			if len(all) > 0 {
				t.jaccard(pick(r, all...), pick(r, all...), sid())
			}
		case "ser":
			if len(all) > 0 {
				src := pick(r, all...)
				g := t.slot()
				if t.Has(src) {
					t.roundTrip(g, src)
				}
			}
		case "refuse":
			if len(all) > 0 {
				t.refuse(pick(r, all...))
			}
		case "est":
			if len(all) > 0 {
				t.est(pick(r, all...))
			}
		}
	}
}

// script replays one behaviour of the specification.  Abstract hash v of the
// model (K=2) stands for 16 keys whose real hashes lie in the v-th range.
type thBlocks struct {
	keys [][]thKey
}

func newThBlocks(seed uint64, nblocks, per int) *thBlocks {
	b := &thBlocks{keys: make([][]thKey, nblocks+1)}
	width := uint64(theta.MaxTheta)/uint64(nblocks) + 1
	for i, full := int64(0), 0; full < nblocks; i++ {
		k := thKey{kind: "u64", i: i}
		v := int(k.hash(seed)/width) + 1
		if len(b.keys[v]) < per {
			b.keys[v] = append(b.keys[v], k)
			if len(b.keys[v]) == per {
				full++
			}
		}
	}
	return b
}

func (t *thDrv) script(sc []any, blocks *thBlocks) {
	t.begin()
	i := func(x any) int { return int(x.(float64)) }
	for _, st := range sc {
		if t.Dead {
			return
		}
		c := st.([]any)
		switch c[0].(string) {
		case "newu":
			t.newUpd(i(c[1]), 5, 1, 0)
		case "upd":
			ks := append([]thKey(nil), blocks.keys[i(c[2])]...)
			t.Rng.Shuffle(len(ks), func(a, b int) { ks[a], ks[b] = ks[b], ks[a] })
			t.update(i(c[1]), ks, 0)
		case "trim":
			t.trim(i(c[1]))
		case "reset":
			t.reset(i(c[1]))
		case "compact":
			t.compact(i(c[1]), i(c[2]))
		case "newn":
			t.newUnion(i(c[1]), 5, 1, 0)
		case "nupd":
			t.unionUpd(i(c[1]), i(c[2]))
		case "nres":
			t.unionRes(i(c[1]), i(c[2]))
		case "nreset":
			t.unionReset(i(c[1]))
		case "newi":
			t.newInter(i(c[1]), 0)
		case "iupd":
			t.interUpd(i(c[1]), i(c[2]))
		case "ires":
			t.interRes(i(c[1]), i(c[2]))
		case "anb":
			t.anotb(i(c[1]), i(c[2]), i(c[3]), 0)
		case "jac":
			t.jaccard(i(c[1]), i(c[2]), 0)
		case "ser":
			t.roundTrip(i(c[1]), i(c[2]))
		default:
			panic(fmt.Sprint("unknown step ", c))
		}
	}
}

// widths makes sorted sketches whose gaps need exactly w bits, so that every
// width of the compressed image is written and read, in blocks and alone.
func (t *thDrv) widths(w uint) {
	r := t.Rng
	t.begin()
	for _, full := range []bool{true, true, false} {
		h := t.fresh()
		t.newUpd(h, 6, 1, 0)
		n := 8*r.Intn(6) + pick(r, 0, 0, 1, 7, r.Intn(8))
		n = max(n, 1)
		one := r.Intn(n)
		var last uint64
		var ks []thKey
		for i := 0; i < n; i++ {
			// one gap of full width, the others as wide as the rest allows
			d := r.Uint64() >> (64 - w)
			if i == one {
				d |= 1 << (w - 1)
			} else if !full {
				d >>= uint(r.Intn(int(w) + 1))
			}
			left := uint64(theta.MaxTheta) - 1 - last
			if i < one {
				left -= 1<<w - 1
			}
			if int64(left) < int64(n-i) {
				break
			}
			if i != one && d > left/uint64(n-i) {
				d %= left / uint64(n-i)
			}
			last += max(d, 1)
			ks = append(ks, thKey{kind: "byt", s: string(unmurmur(t.seeds[0], last<<1|uint64(i&1), r.Uint64()))})
		}
		t.update(h, ks, 0)
		for i := 0; i < 3 && !t.Dead; i++ {
			g := t.fresh()
			t.compact(g, h)
			t.roundTrip(t.fresh(), g)
		}
	}
}

// counts: as many entries as fill the bytes that count them, and one more.
func (t *thDrv) counts(n int) {
	r := t.Rng
	t.begin()
	h := t.fresh()
	if n <= 1<<12 {
		t.newUpd(h, 9, 1, 0)
		ks := make([]thKey, n)
		for j := range ks {
			ks[j] = thKey{kind: "i64", i: r.Int63()}
		}
		t.update(h, ks, 0)
		for i := 0; i < 4 && !t.Dead; i++ {
			g := t.fresh()
			t.compact(g, h)
			t.roundTrip(t.fresh(), g)
		}
		return
	}
	base, lim := r.Int63(), pick(r, uint8(17), 18)
	t.Do("many", 0, Ev{"n": n}, func(ev Ev) error {
		s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lim), theta.WithUpdateSketchSeed(t.seeds[0]))
		if err != nil {
			return err
		}
		for i := 0; i < n; i++ {
			if err := s.UpdateInt64(base + int64(i)); err != nil {
				return err
			}
		}
		digest := func(s theta.Sketch) string {
			sum, x, k := uint64(0), uint64(0), 0
			for e := range s.All() {
				sum, x, k = sum*31+e, x^e, k+1
			}
			sh, err := s.SeedHash()
			return fmt.Sprint(k, s.NumRetained(), s.Theta64(), sum, x, s.IsOrdered(), s.IsEmpty(), sh, err)
		}
		c := s.Compact(true)
		ev["kept"], ev["want"] = int(c.NumRetained()), digest(c)
		got := []any{}
		for _, w := range []string{"mb", "enc", "encz"} {
			img, err := thMarshal(c, w)
			if err != nil {
				return err
			}
			for _, how := range []string{"dec", "rd", "rd1", "wrap"} {
				q, err := thRead(img, how, t.seeds[0], 4096)
				if err != nil {
					return err
				}
				got = append(got, digest(q))
			}
		}
		ev["got"] = got
		return nil
	})
}

// large drives one bigger sketch with few observations.
func (t *thDrv) large() {
	r := t.Rng
	t.begin()
	t.pool = 1 << 40
	lg := pick(r, uint8(8), 9, 10)
	h := t.fresh()
	t.newUpd(h, lg, pick(r, float32(1), 1, 0.3), 0)
	for i := 0; i < 4 && !t.Dead; i++ {
		n := (1 << lg) * (1 + r.Intn(3)) / 2
		ks := make([]thKey, n)
		for j := range ks {
			ks[j] = thKey{kind: "i64", i: r.Int63n(int64(4) << lg)}
		}
		t.update(h, ks, 0)
		if i == 2 {
			t.roundTrip(t.fresh(), h)
		}
	}
	t.est(h)
}

// simCoverage: see util.go.
func (t *thDrv) simCoverage() {
	r := t.Rng
	t.begin()
	lg := pick(r, uint8(5), 6, 7, 8, 9)
	p := pick(r, float32(1), 1, 1, 0.5)
	na, nb, nc := simSizes(r, 4000)
	n := float64(na + nb + nc)
	lgb := lg + uint8(r.Intn(2))
	mk := func(lg uint8, from, to int, base int64) (theta.Sketch, error) {
		s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lg), theta.WithUpdateSketchP(p), theta.WithUpdateSketchSeed(t.seeds[0]))
		for i := from; i < to && err == nil; i++ {
			if e := s.UpdateInt64(base + int64(i)); e != nil && !errors.Is(e, theta.ErrDuplicateKey) && !errors.Is(e, theta.ErrHashExceedsTheta) {
				err = e
			}
		}
		if err == nil && r.Intn(2) == 0 {
			return theta.NewCompactSketch(s, r.Intn(2) == 0), nil
		}
		return s, err
	}
	// the one of more entries decides theta, so at least half as many are there
	k := math.Min(n*float64(p), float64(int(1)<<lg))
	if k < 12 {
		p, k = 1, math.Min(n, float64(int(1)<<lg))
	}
	simCoverage(t.Scn, Ev{"lgk": int(lg)}, na, nb, nc, 400, k, func(base int64) (float64, float64, float64, error) {
		a, err := mk(lg, 0, na+nc, base)
		if err != nil {
			return 0, 0, 0, err
		}
		b, err := mk(lgb, na, na+nc+nb, base)
		if err != nil {
			return 0, 0, 0, err
		}
		j, err := theta.Jaccard(a, b, t.seeds[0])
		return j.LowerBound, j.Estimate, j.UpperBound, err
	})
}

// coverage: see util.go.
func (t *thDrv) coverage() {
	r := t.Rng
	t.begin()
	lg := pick(r, uint8(5), 6, 7, 8, 9)
	p := pick(r, float32(1), 1, 1, 0.5, 0.1, 0.02)
	n := 1 + int(math.Exp(r.Float64()*math.Log(6000)))
	mode := pick(r, "update", "compact", "image", "union", "inter", "anotb")
	K := float64(int(1) << lg)
	rse := 1 / math.Sqrt(K)
	if e := float64(n) * float64(p); p < 1 {
		rse = math.Max(rse, math.Sqrt(1/e)) + 2/e
	}
	if p == 1 && n <= 1<<lg && (mode == "update" || mode == "compact" || mode == "image") {
		rse = 0
	}
	// between k and 15/8 k keys are kept, of a stream that is much longer
	lo, hi := 0.0, 1/math.Sqrt(float64(int(1)<<lg))
	if e := float64(n) * float64(p); e >= 8*float64(int(1)<<lg) && mode != "inter" && mode != "anotb" {
		lo = hi * math.Sqrt(.87/1.875)
	}
	ext := 0
	if mode == "inter" || mode == "anotb" {
		// a set of n out of n+ext, so the error is that of the larger one
		ext = r.Intn(n + 1)
		rse *= 1.5 * math.Sqrt(float64(n+ext)/float64(n))
	}
	mk := func(lg uint8, p float32, from, to int, base int64) (*theta.QuickSelectUpdateSketch, error) {
		s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lg), theta.WithUpdateSketchP(p), theta.WithUpdateSketchSeed(t.seeds[0]))
		for i := from; i < to && err == nil; i++ {
			if e := s.UpdateInt64(base + int64(i)); e != nil && !errors.Is(e, theta.ErrDuplicateKey) && !errors.Is(e, theta.ErrHashExceedsTheta) {
				err = e
			}
		}
		return s, err
	}
	coverage(t.Scn, Ev{"mode": mode, "lgk": int(lg)}, n, 400, rse, lo, hi, func(base int64) (float64, func(int) (float64, error), func(int) (float64, error), error) {
		var o theta.Sketch
		u, err := mk(lg, p, 0, n, base)
		if err != nil {
			return 0, nil, nil, err
		}
		o = u
		err = nil
		switch mode {
		case "compact":
			o = theta.NewCompactSketch(u, r.Intn(2) == 0)
		case "image":
			var b []byte
			if b, err = theta.NewCompactSketch(u, true).MarshalBinary(); err == nil {
				o, err = nilSafe(theta.Decode(b, t.seeds[0]))
			}
		case "union":
			var a, c *theta.QuickSelectUpdateSketch
			if a, err = mk(lg, p, 0, n*2/3, base); err != nil {
				break
			}
			if c, err = mk(lg+uint8(r.Intn(2)), p, n/3, n, base); err != nil {
				break
			}
			var un *theta.Union
			if un, err = theta.NewUnion(theta.WithUnionLgK(lg), theta.WithUnionSeed(t.seeds[0])); err != nil {
				break
			}
			if err = un.Update(a); err != nil {
				break
			}
			if err = un.Update(c); err != nil {
				break
			}
			o, err = un.OrderedResult()
		case "inter", "anotb":
			var a, c *theta.QuickSelectUpdateSketch
			if a, err = mk(lg, p, 0, n+ext, base); err != nil {
				break
			}
			if mode == "anotb" {
				if c, err = mk(lg, p, n, n+2*ext, base); err == nil {
					o, err = theta.ANotB(a, c, t.seeds[0], true)
				}
				break
			}
			if c, err = mk(lg, p, -ext, n, base); err != nil {
				break
			}
			in := theta.NewIntersection(theta.WithIntersectionSeed(t.seeds[0]))
			if err = in.Update(a); err != nil {
				break
			}
			if err = in.Update(c); err != nil {
				break
			}
			o, err = in.OrderedResult()
		}
		if err != nil {
			return 0, nil, nil, err
		}
		return o.Estimate(), func(k int) (float64, error) { return o.LowerBound(uint8(k)) }, func(k int) (float64, error) { return o.UpperBound(uint8(k)) }, nil
	})
}

func ThetaJobs(cfg *Cfg) []core.Job {
	var jobs []core.Job
	w := map[string]int{"newu": 3, "upd": 30, "updx": 1, "trim": 3, "reset": 2, "compact": 5}
	nScript, nRand, nLarge, steps := cfg.N(700, 8000), cfg.N(700, 10000), cfg.N(16, 160), 40
	switch cfg.Focus {
	case "C02":
		w = map[string]int{"newu": 4, "upd": 14, "trim": 1, "reset": 1, "compact": 5, "newn": 3, "nupd": 10, "nreset": 1, "nres": 5,
			"newi": 4, "iupd": 9, "ires": 5, "anb": 8, "jac": 6, "ser": 2}
		steps = 60
	case "C03":
		w = map[string]int{"newu": 4, "upd": 14, "trim": 1, "compact": 5, "newn": 2, "nupd": 5, "nres": 3,
			"newi": 2, "iupd": 3, "ires": 2, "anb": 3, "jac": 1, "ser": 20, "refuse": 3}
	case "C30":
		w = map[string]int{"newu": 4, "upd": 14, "trim": 2, "reset": 2, "compact": 5, "newn": 3, "nupd": 8, "nreset": 1, "nres": 5,
			"newi": 3, "iupd": 6, "ires": 4, "anb": 5, "jac": 3, "ser": 6, "est": 5}
		nScript, nRand, nLarge = 0, cfg.N(250, 8000), cfg.N(6, 100)
	case "C28":
		w = map[string]int{"newu": 4, "upd": 14, "trim": 1, "reset": 1, "compact": 3, "newn": 2, "nupd": 4, "nres": 3,
			"newi": 2, "iupd": 3, "ires": 2, "anb": 3, "ser": 2, "est": 20}
		nScript, nRand = 0, cfg.N(250, 4000)
	}
	if cfg.Focus == "C01" {
		nLarge *= 2
	}
	blocks := newThBlocks(9001, 7, 16)
	for i := 0; i < nScript && i < len(cfg.Scripts); i++ {
		sc := cfg.Scripts[i]
		jobs = append(jobs, core.Job{Name: "theta-script", Run: func(s *Scn) { newThDrv(s, cfg).script(sc, blocks) }})
	}
	for i := 0; i < nRand; i++ {
		jobs = append(jobs, core.Job{Name: "theta-random", Run: func(s *Scn) { newThDrv(s, cfg).random(steps, w) }})
	}
	if cfg.Focus == "C28" {
		for i := 0; i < cfg.N(2, 100); i++ {
			for n := 0; n <= 130; n += 10 {
				jobs = append(jobs, core.Job{Name: "theta-reference", Run: func(s *Scn) { newThDrv(s, cfg).reference(refSizes(s.Rng, n)) }})
			}
		}
		for i := 0; i < cfg.N(40, 600); i++ {
			jobs = append(jobs, core.Job{Name: "theta-coverage", Run: func(s *Scn) { newThDrv(s, cfg).coverage() }})
			if i%2 == 0 {
				jobs = append(jobs, core.Job{Name: "theta-similarity", Run: func(s *Scn) { newThDrv(s, cfg).simCoverage() }})
			}
		}
	}
	if cfg.Focus == "C03" {
		for i := 0; i < cfg.N(126, 1260); i++ {
			w := uint(i%63 + 1)
			jobs = append(jobs, core.Job{Name: "theta-widths", Run: func(s *Scn) { newThDrv(s, cfg).widths(w) }})
		}
	}
	if cfg.Focus == "C03" {
		for i := 0; i < cfg.N(2, 10); i++ {
			for _, n := range []int{254, 255, 256, 257, 511, 512, 513, 65535, 65536, 65537, 90000} {
				jobs = append(jobs, core.Job{Name: "theta-counts", Run: func(s *Scn) { newThDrv(s, cfg).counts(n) }})
			}
		}
	}
	for i := 0; i < nLarge; i++ {
		jobs = append(jobs, core.Job{Name: "theta-large", Run: func(s *Scn) { newThDrv(s, cfg).large() }})
	}
	return jobs
}
