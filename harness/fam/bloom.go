package fam

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"sort"

	"github.com/apache/datasketches-go/filters"
	"github.com/cespare/xxhash/v2"

	"verif/harness/core"
)

type bfCfg struct {
	cap  uint64
	nh   uint16
	seed uint64
}

// bfItem is a typed key; several may stand for the same bytes.
type bfItem struct {
	kind string // u64 | i64 | str | bytes | f64 | i64s | f64s
	u    uint64
	b    []byte
	us   []uint64
}

func (it bfItem) none() bool {
	return it.kind == "str" && len(it.b) == 0 || (it.kind == "i64s" || it.kind == "f64s") && len(it.us) == 0
}

// raw is what the published format hashes for the key.
func (it bfItem) raw() []byte {
	switch it.kind {
	case "u64", "i64":
		return le64(it.u)
	case "f64":
		return le64(canonDouble(math.Float64frombits(it.u)))
	case "i64s", "f64s":
		out := []byte{}
		for _, u := range it.us {
			out = append(out, le64(u)...)
		}
		return out
	}
	return it.b
}

func (it bfItem) positions(c bfCfg) []int {
	sum := func(seed uint64) uint64 {
		h := xxhash.NewWithSeed(seed)
		h.Write(it.raw())
		return h.Sum64()
	}
	h0 := sum(c.seed)
	h1 := sum(h0)
	set := map[int]bool{}
	for i := uint64(1); i <= uint64(c.nh); i++ {
		set[int(((h0+i*h1)>>1)%c.cap)] = true
	}
	return sortedKeys(set)
}

func fs(us []uint64) []float64 {
	o := []float64{}
	for _, u := range us {
		o = append(o, math.Float64frombits(u))
	}
	return o
}
func is(us []uint64) []int64 {
	o := []int64{}
	for _, u := range us {
		o = append(o, int64(u))
	}
	return o
}

func (it bfItem) update(f filters.BloomFilter) error {
	switch it.kind {
	case "u64":
		return f.UpdateUInt64(it.u)
	case "i64":
		return f.UpdateInt64(int64(it.u))
	case "str":
		return f.UpdateString(string(it.b))
	case "f64":
		return f.UpdateFloat64(math.Float64frombits(it.u))
	case "i64s":
		xs := is(it.us)
		defer core.Keep(xs)()
		return f.UpdateInt64Array(xs)
	case "f64s":
		xs := fs(it.us)
		defer core.Keep(xs)()
		return f.UpdateFloat64Array(xs)
	}
	b := append([]byte(nil), it.b...)
	defer core.Keep(b)()
	return f.UpdateSlice(b)
}

func (it bfItem) query(f filters.BloomFilter) bool {
	switch it.kind {
	case "u64":
		return f.QueryUInt64(it.u)
	case "i64":
		return f.QueryInt64(int64(it.u))
	case "str":
		return f.QueryString(string(it.b))
	case "f64":
		return f.QueryFloat64(math.Float64frombits(it.u))
	case "i64s":
		xs := is(it.us)
		defer core.Keep(xs)()
		return f.QueryInt64Array(xs)
	case "f64s":
		xs := fs(it.us)
		defer core.Keep(xs)()
		return f.QueryFloat64Array(xs)
	}
	b := append([]byte(nil), it.b...)
	defer core.Keep(b)()
	return f.QuerySlice(b)
}

func (it bfItem) both(f filters.BloomFilter) bool {
	switch it.kind {
	case "u64":
		return f.QueryAndUpdateUInt64(it.u)
	case "i64":
		return f.QueryAndUpdateInt64(int64(it.u))
	case "str":
		return f.QueryAndUpdateString(string(it.b))
	case "f64":
		return f.QueryAndUpdateFloat64(math.Float64frombits(it.u))
	case "i64s":
		xs := is(it.us)
		defer core.Keep(xs)()
		return f.QueryAndUpdateInt64Array(xs)
	case "f64s":
		xs := fs(it.us)
		defer core.Keep(xs)()
		return f.QueryAndUpdateFloat64Array(xs)
	}
	b := append([]byte(nil), it.b...)
	defer core.Keep(b)()
	return f.QueryAndUpdateSlice(b)
}

// as gives another key with the same meaning.
func (it bfItem) as(d *bfDrv) bfItem {
	r := d.Rng
	switch it.kind {
	case "u64", "i64":
		switch r.Intn(4) {
		case 0:
			return bfItem{kind: "u64", u: it.u}
		case 1:
			return bfItem{kind: "i64", u: it.u}
		case 2:
			return bfItem{kind: "i64s", us: []uint64{it.u}}
		default:
			return bfItem{kind: "bytes", b: it.raw()}
		}
	case "str", "bytes":
		if len(it.b) > 0 && r.Intn(2) == 0 {
			return bfItem{kind: "str", b: it.b}
		}
		return bfItem{kind: "bytes", b: it.b}
	case "f64":
		if r.Intn(3) == 0 {
			return bfItem{kind: "bytes", b: it.raw()}
		}
		f := math.Float64frombits(it.u)
		if f == 0 {
			return bfItem{kind: "f64", u: pick(r, uint64(0), 1<<63)}
		}
		if math.IsNaN(f) {
			return bfItem{kind: "f64", u: pick(r, 0x7ff8000000000000, math.Float64bits(anyNaN(r)))}
		}
	case "i64s":
		if r.Intn(3) == 0 {
			return bfItem{kind: "bytes", b: it.raw()}
		}
	}
	return it
}

type bfObj struct {
	f filters.BloomFilter
	d *bfDrv
}

func (o *bfObj) cfg() bfCfg { return bfCfg{o.f.Capacity(), o.f.NumHashes(), o.f.Seed()} }

func bfBits(img []byte) []uint64 {
	n := int(binary.LittleEndian.Uint32(img[16:]))
	out := make([]uint64, n)
	if len(img) == 24 {
		return out
	}
	for i := range out {
		out[i] = binary.LittleEndian.Uint64(img[32+8*i:])
	}
	return out
}

// The image is taken from a copy of the state so that projecting does not
// itself settle a pending bit count: a fresh filter of the same parameters is
// united with the one under observation.
func (o *bfObj) Project() Ev {
	c := o.cfg()
	g, err := filters.NewBloomFilterBySize(c.cap, c.nh, filters.WithSeed(c.seed))
	if err != nil {
		panic(err)
	}
	if err := g.Union(o.f); err != nil {
		panic(err)
	}
	img, err := g.ToCompactSlice()
	if err != nil {
		panic(err)
	}
	set := []any{}
	for i, w := range bfBits(img) {
		for ; w != 0; w &= w - 1 {
			set = append(set, i*64+bits.TrailingZeros64(w))
		}
	}
	// what the filter says about its count is asked only now and then, so that
	// the pending count is settled at different moments
	ev := Ev{"cap": c.cap, "nh": c.nh, "seed": fmt.Sprint(c.seed), "bits": set}
	return ev
}

type bfDrv struct {
	*Scn
	cfg   *Cfg
	next  int
	keep  int
	items []bfItem
	cfgs  []bfCfg
}

func newBfDrv(s *Scn, cfg *Cfg, cfgs []bfCfg, P int) *bfDrv {
	r := s.Rng
	d := &bfDrv{Scn: s, cfg: cfg, next: 1, cfgs: cfgs}
	seen := map[string]bool{}
	base := r.Uint64()
	for i := 0; len(d.items) < P; i++ {
		var it bfItem
		switch r.Intn(8) {
		case 0:
			it = bfItem{kind: "u64", u: pick(r, uint64(i), base+uint64(i), 0, math.MaxUint64, 1<<63)}
		case 1:
			it = bfItem{kind: "i64", u: pick(r, uint64(i), base+uint64(i), math.MaxUint64-uint64(i))}
		case 2:
			it = bfItem{kind: "str", b: []byte(pick(r, "a", "é", "日本語", fmt.Sprint("key", i)))}
		case 3:
			it = bfItem{kind: "bytes", b: make([]byte, r.Intn(70))}
			if r.Intn(2) == 0 {
				r.Read(it.b)
			}
		case 4:
			f := pick(r, float64(i), r.NormFloat64(), 0, math.NaN(), math.Inf(1), math.Inf(-1), 5e-324, -1.5)
			it = bfItem{kind: "f64", u: math.Float64bits(f)}
		case 5, 6:
			n := 1 + r.Intn(12)
			for k := 0; k < n; k++ {
				it.us = append(it.us, pick(r, uint64(k), r.Uint64(), math.Float64bits(float64(i)), 1<<63))
			}
			it.kind = pick(r, "i64s", "f64s")
			if it.kind == "f64s" {
				for k, u := range it.us {
					it.us[k] = math.Float64bits(math.Float64frombits(u)) // NaN payloads may not survive
					if math.IsNaN(math.Float64frombits(u)) {
						it.us[k] = 0x7ff8000000000001
					}
				}
			}
		case 7:
			it = bfItem{kind: "u64", u: r.Uint64()}
		}
		if !seen[string(it.raw())] && !it.none() {
			seen[string(it.raw())] = true
			d.items = append(d.items, it)
		}
	}
	return d
}

func (d *bfDrv) fresh() int { d.next++; return d.next - 1 }
func (d *bfDrv) slot() int {
	hs := []int{}
	for _, h := range d.Handles() {
		if h >= d.keep {
			hs = append(hs, h)
		}
	}
	if len(hs) >= 5 {
		d.drop(hs[d.Rng.Intn(len(hs))])
	}
	return d.fresh()
}
func (d *bfDrv) drop(h int) {
	d.Drop(h)
	d.Do("drop", 0, Ev{"d": h}, func(ev Ev) error { return nil })
}
func (d *bfDrv) o(h int) *bfObj { return d.Get(h).(*bfObj) }

func (d *bfDrv) newb(h int, c bfCfg) {
	r := d.Rng
	ask := c.cap - uint64(r.Intn(64))
	d.Do("newb", h, Ev{"cap": c.cap, "nh": c.nh, "seed": fmt.Sprint(c.seed), "ask": ask}, func(ev Ev) error {
		pos := []any{}
		for _, it := range d.items {
			pos = append(pos, ints(it.positions(c)))
		}
		ev["pos"] = pos
		f, err := filters.NewBloomFilterBySize(ask, c.nh, filters.WithSeed(c.seed))
		if err == nil {
			d.Put(h, &bfObj{f, d})
			ev["used"], ev["empty"] = f.BitsUsed(), f.IsEmpty()
		}
		return err
	})
}

func (d *bfDrv) newbad() {
	r := d.Rng
	d.Do("newbad", 0, Ev{}, func(ev Ev) error {
		acc := []any{}
		try := func(f filters.BloomFilter, err error) {
			if err == nil {
				acc = append(acc, "accepted")
			}
		}
		try(filters.NewBloomFilterBySize(0, 3))
		try(filters.NewBloomFilterBySize(100, 0))
		try(filters.NewBloomFilterBySize(math.MaxUint64, 3))
		try(filters.NewBloomFilterBySize((math.MaxInt32-4)*64+1+uint64(r.Intn(1000)), 3))
		try(filters.NewBloomFilterByAccuracy(0, .1))
		for _, p := range []float64{0, 1, -1, 2, math.Inf(1), math.NaN()} {
			try(filters.NewBloomFilterByAccuracy(100, p))
		}
		ev["acc"] = acc
		f, err := filters.NewBloomFilterWithDefault()
		if err != nil {
			return err
		}
		ev["dseed"], ev["dcap"], ev["dnh"] = f.Seed() == filters.DefaultSeed, f.Capacity(), f.NumHashes()
		return nil
	})
}

func (d *bfDrv) upd(h int, xs []int) {
	f := d.o(h).f
	d.Do("upd", h, Ev{"xs": ints(xs)}, func(ev Ev) error {
		for _, x := range xs {
			if err := d.items[x-1].as(d).update(f); err != nil {
				return err
			}
		}
		return nil
	})
}

func (d *bfDrv) qau(h int, x int) {
	f := d.o(h).f
	d.Do("qau", h, Ev{"x": x}, func(ev Ev) error {
		ev["was"] = d.items[x-1].as(d).both(f)
		return nil
	})
}

// noitem offers the keys that stand for nothing.
func (d *bfDrv) noitem(h int) {
	f := d.o(h).f
	d.Do("noitem", h, Ev{}, func(ev Ev) error {
		says := []any{}
		for _, it := range []bfItem{{kind: "str"}, {kind: "i64s"}, {kind: "f64s"}} {
			if err := it.update(f); err != nil {
				return err
			}
			says = append(says, it.query(f), it.both(f))
		}
		ev["says"] = says
		return nil
	})
}

func (d *bfDrv) comb(op string, h, src int) {
	a, b := d.o(h).f, d.o(src).f
	d.Do(op, h, Ev{"src": src}, func(ev Ev) error {
		ev["compat"] = a.IsCompatible(b) && b.IsCompatible(a)
		if op == "union" {
			return a.Union(b)
		}
		return a.Intersect(b)
	})
}

type bfOther struct{ filters.BloomFilter }

func (d *bfDrv) bad(h int) {
	r := d.Rng
	o := d.o(h)
	c := o.cfg()
	d.Do("bad", h, Ev{}, func(ev Ev) error {
		acc := []any{}
		for k := 0; k < 4; k++ {
			e := c
			switch k {
			case 0:
				e.nh++
				if e.nh == 0 {
					e.nh = 1
				}
			case 1:
				e.cap += 64 * uint64(1+r.Intn(3))
			case 2:
				e.seed = pick(r, c.seed+1, ^c.seed, c.seed^1<<63, c.seed^1<<32)
			}
			g, err := filters.NewBloomFilterBySize(e.cap, e.nh, filters.WithSeed(e.seed))
			if err != nil {
				return err
			}
			for i := 0; i < 3 && e.nh < 1000; i++ {
				d.items[r.Intn(len(d.items))].update(g)
			}
			if k == 3 {
				g = bfOther{g}
			} else if o.f.IsCompatible(g) || g.IsCompatible(o.f) {
				acc = append(acc, fmt.Sprint("compatible ", e))
			}
			if o.f.Union(g) == nil {
				acc = append(acc, fmt.Sprint("union ", e))
			}
			if o.f.Intersect(g) == nil {
				acc = append(acc, fmt.Sprint("intersect ", e))
			}
		}
		ev["acc"] = acc
		return nil
	})
}

func (d *bfDrv) query(h int) {
	r := d.Rng
	f := d.o(h).f
	xs := []int{}
	for i := 0; i < 8; i++ {
		xs = append(xs, 1+r.Intn(len(d.items)))
	}
	d.Do("query", h, Ev{"xs": ints(xs)}, func(ev Ev) error {
		says := []any{}
		for _, x := range xs {
			says = append(says, d.items[x-1].as(d).query(f))
		}
		ev["says"] = says
		return nil
	})
}

func (d *bfDrv) used(h int) {
	f := d.o(h).f
	emptyFirst := d.Rng.Intn(2) == 0
	d.Do("used", h, Ev{}, func(ev Ev) error {
		if emptyFirst {
			ev["empty"] = f.IsEmpty()
			ev["used"] = f.BitsUsed()
		} else {
			ev["used"] = f.BitsUsed()
			ev["empty"] = f.IsEmpty()
		}
		ev["again"] = f.BitsUsed()
		return nil
	})
}

func (d *bfDrv) invert(h int) {
	f := d.o(h).f
	d.Do("invert", h, Ev{}, func(ev Ev) error { return f.Invert() })
}
func (d *bfDrv) reset(h int) {
	f := d.o(h).f
	d.Do("reset", h, Ev{}, func(ev Ev) error { return f.Reset() })
}

func (d *bfDrv) ser(g, src int) {
	r := d.Rng
	f := d.o(src).f
	var img []byte
	d.Do("ser", g, Ev{"src": src}, func(ev Ev) error {
		var err error
		if img, err = f.ToCompactSlice(); err != nil {
			return err
		}
		two, _ := f.ToCompactSlice()
		ev["stable"] = bytes.Equal(img, two)
		ev["len"] = len(img)
		ev["icount"] = 0
		if len(img) >= 32 {
			ev["icount"] = int64(binary.LittleEndian.Uint64(img[24:]))
			if r.Intn(3) == 0 { // the count is left to the reader
				for i := 24; i < 32; i++ {
					img[i] = 0xff
				}
			}
		}
		defer core.Keep(img)()
		x, err := filters.NewBloomFilterFromSlice(img)
		if err != nil {
			return err
		}
		d.Put(g, &bfObj{x, d})
		ev["used"] = x.BitsUsed()
		ev["empty"] = x.IsEmpty()
		return nil
	})
	if !d.Dead {
		d.Do("scribble", 0, Ev{}, func(ev Ev) error {
			for i := range img {
				img[i] ^= 0x5A
			}
			return nil
		})
	}
}

// acc: a filter made for n items at a false-positive rate keeps to it.
func (d *bfDrv) acc() {
	r := d.Rng
	n := pick(r, 1, 10, 100, 1000, 1000+r.Intn(2000))
	p := pick(r, .5, .1, .03, .01, .001)
	d.Do("acc", 0, Ev{"n": n}, func(ev Ev) error {
		f, err := filters.NewBloomFilterByAccuracy(uint64(n), p, filters.WithSeed(r.Uint64()))
		if err != nil {
			return err
		}
		ev["bitsok"] = f.Capacity() == (filters.SuggestNumFilterBits(uint64(n), p)+63)/64*64
		// m = -n ln p / ln2^2, k = m/n ln 2
		m := -float64(n) * math.Log(p) / (math.Ln2 * math.Ln2)
		ev["mlo"], ev["m"] = int(math.Floor(m)), filters.SuggestNumFilterBits(uint64(n), p)
		ev["kok"] = math.Abs(float64(f.NumHashes())-math.Ceil(float64(filters.SuggestNumFilterBits(uint64(n), p))/float64(n)*math.Ln2)) < .5
		ev["k2ok"] = float64(filters.SuggestNumHashes(p)) == math.Ceil(-math.Log(p)/math.Ln2)
		base := r.Uint64()
		str := r.Intn(2) == 0
		key := func(i int) bfItem {
			if str {
				return bfItem{kind: "str", b: []byte(fmt.Sprint("s", base, i))}
			}
			return bfItem{kind: "u64", u: base + uint64(i)}
		}
		for i := 0; i < n; i++ {
			key(i).update(f)
		}
		missing, fp, T := 0, 0, 20000
		for i := 0; i < n; i++ {
			if !key(i).query(f) {
				missing++
			}
		}
		for i := n; i < n+T; i++ {
			if key(i).query(f) {
				fp++
			}
		}
		if n < 1000 { // a small filter deviates by chance
			fp = 0
		}
		ev["missing"], ev["fp"], ev["max"] = missing, fp, int(float64(T)*p*1.3+6*math.Sqrt(float64(T)*p)+10)
		return nil
	})
}

func (d *bfDrv) xs() []int {
	r := d.Rng
	n := pick(r, 1, 1, 1, 2, 5)
	out := []int{}
	for i := 0; i < n; i++ {
		out = append(out, 1+r.Intn(len(d.items)))
	}
	return out
}

func (d *bfDrv) random(steps int, w map[string]int) {
	r := d.Rng
	d.Begin(Ev{})
	ch := newChooser(w)
	d.newb(d.fresh(), pick(r, d.cfgs...))
	for i := 0; i < steps && !d.Dead; i++ {
		hs := d.Handles()
		if len(hs) == 0 {
			d.newb(d.slot(), pick(r, d.cfgs...))
			continue
		}
		a := pick(r, hs...)
		mate := func() int {
			c := d.o(a).cfg()
			bs := []int{}
			for _, b := range hs {
				if d.o(b).cfg() == c {
					bs = append(bs, b)
				}
			}
			if len(bs) == 1 && r.Intn(4) > 0 {
				b := d.slot()
				d.newb(b, c)
				if !d.Dead && d.Has(a) && d.Has(b) {
					d.upd(b, d.xs())
				}
				return b
			}
			return pick(r, bs...)
		}
		switch op := ch.next(r); op {
		case "newb":
			d.newb(d.slot(), pick(r, d.cfgs...))
		case "upd":
			d.upd(a, d.xs())
		case "qau":
			d.qau(a, 1+r.Intn(len(d.items)))
		case "noitem":
			d.noitem(a)
		case "union", "inter":
			b := mate()
			if !d.Dead && d.Has(a) && d.Has(b) {
				d.comb(op, a, b)
			}
		case "invert":
			d.invert(a)
		case "reset":
			d.reset(a)
		case "bad":
			d.bad(a)
		case "query":
			d.query(a)
		case "used":
			d.used(a)
		case "ser":
			if g := d.slot(); d.Has(a) {
				d.ser(g, a)
			}
		case "newbad":
			d.newbad()
		case "acc":
			d.acc()
		}
	}
}

func (d *bfDrv) script(sc []any) {
	d.Begin(Ev{})
	i := func(x any) int { return int(x.(float64)) }
	d.next, d.keep = 20, 20
	for _, st := range sc {
		if d.Dead {
			return
		}
		c := st.([]any)
		h := i(c[1])
		switch op := c[0].(string); op {
		case "newb":
			d.newb(h, d.cfgs[0])
		case "upd":
			d.upd(h, []int{i(c[2])})
		case "qau":
			d.qau(h, i(c[2]))
		case "union", "inter":
			d.comb(op, h, i(c[2]))
		case "invert":
			d.invert(h)
		case "reset":
			d.reset(h)
		case "ser":
			d.ser(h, i(c[2]))
		case "query":
			d.query(h)
			if !d.Dead && d.Rng.Intn(2) == 0 {
				d.used(h)
			}
		case "bad":
			d.bad(h)
		default:
			panic("script op " + op)
		}
	}
}

func bfJobs(cfg *Cfg) []core.Job {
	var jobs []core.Job
	conf := func(s *Scn) []bfCfg {
		r := s.Rng
		out := []bfCfg{}
		for i := 0; i < 2; i++ {
			c := bfCfg{uint64(64 * pick(r, 1, 1, 2, 3, 4, 8)), uint16(1 + r.Intn(8)), pick(r, 0, 9001, math.MaxUint64, r.Uint64())}
			switch r.Intn(16) {
			case 0:
				c.nh = uint16(pick(r, 65535, 65534, 256, 40000))
			case 1, 2:
				c.nh = uint16(pick(r, 20, 63, 64))
			}
			out = append(out, c)
		}
		return out
	}
	add := func(name string, n, steps int, w map[string]int) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("%s#%d", name, i), Run: func(s *Scn) {
				newBfDrv(s, cfg, conf(s), pick(s.Rng, 6, 12, 25)).random(steps, w)
			}})
		}
	}
	nsc := 250
	if cfg.Tier == "thorough" {
		nsc = 4000
	}
	for i, sc := range cfg.Scripts {
		if i >= nsc {
			break
		}
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("spec#%d", i), Run: func(s *Scn) {
			c := bfCfg{64, uint16(pick(s.Rng, 2, 5, 20)), s.Rng.Uint64()}
			newBfDrv(s, cfg, []bfCfg{c}, 3).script(sc)
		}})
	}
	switch cfg.Focus {
	case "C22":
		add("hist", cfg.N(700, 20000), 30, map[string]int{"newb": 3, "upd": 30, "qau": 12, "noitem": 2, "union": 8, "inter": 5, "invert": 4, "reset": 2, "bad": 3, "query": 20, "used": 10, "ser": 4, "newbad": 1})
		add("rate", cfg.N(24, 600), 3, map[string]int{"acc": 3, "newbad": 1})
	case "C23":
		add("images", cfg.N(700, 20000), 24, map[string]int{"newb": 3, "upd": 20, "qau": 8, "union": 5, "inter": 4, "invert": 4, "reset": 3, "query": 12, "used": 6, "ser": 24})
	case "C30":
		add("iso", cfg.N(100, 3000), 24, map[string]int{"newb": 4, "upd": 20, "qau": 5, "union": 14, "inter": 8, "invert": 5, "reset": 3, "query": 10, "ser": 12, "bad": 3, "used": 3})
	}
	return jobs
}

var _ = sort.Ints
