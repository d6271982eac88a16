package fam

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"

	"github.com/apache/datasketches-go/count"

	"verif/harness/core"
)

type cmCfg struct {
	nh   int
	nb   int
	seed int64
}

type cmObj struct {
	s *count.CountMinSketch
	d *cmDrv
}

type cmDrv struct {
	*Scn
	cfg    *Cfg
	next   int
	keep   int
	items  [][]byte
	cfgs   []cmCfg
	cols   map[cmCfg][]any
	factor int64
	wmax   int64
	top    int64
	neg    bool
}

func cmImage(s *count.CountMinSketch) []byte {
	var b bytes.Buffer
	if err := s.Serialize(&b); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// cmCells reads total weight and counters from an image.
func cmCells(img []byte, c cmCfg) (tot int64, rows [][]int64) {
	rows = make([][]int64, c.nh)
	for i := range rows {
		rows[i] = make([]int64, c.nb)
	}
	if len(img) == 16 {
		return
	}
	if len(img) != 24+8*c.nh*c.nb {
		panic("length of a count-min image")
	}
	tot = int64(binary.LittleEndian.Uint64(img[16:]))
	for i := range rows {
		for j := range rows[i] {
			rows[i][j] = int64(binary.LittleEndian.Uint64(img[24+8*(i*c.nb+j):]))
		}
	}
	return
}

func (o *cmObj) cfg() cmCfg {
	return cmCfg{int(o.s.GetNumHashes()), int(o.s.GetNumBuckets()), o.s.GetSeed()}
}

func (d *cmDrv) sc(v int64) int64 {
	if v%d.factor != 0 || v/d.factor > 1<<30 || v/d.factor < -1<<30 {
		return -777777777
	}
	return v / d.factor
}

func (o *cmObj) Project() Ev {
	c := o.cfg()
	tot, rows := cmCells(cmImage(o.s), c)
	rs := []any{}
	for _, row := range rows {
		q := []any{}
		for _, v := range row {
			q = append(q, o.d.sc(v))
		}
		rs = append(rs, q)
	}
	return Ev{"nb": c.nb, "nh": c.nh, "seed": fmt.Sprint(c.seed), "tot": o.d.sc(o.s.GetTotalWeight()), "itot": o.d.sc(tot), "ctr": rs,
		"rel": math.Abs(o.s.GetRelativeError()*float64(c.nb)-math.E) < 1e-12}
}

func newCmDrv(s *Scn, cfg *Cfg, cfgs []cmCfg, P int) *cmDrv {
	r := s.Rng
	d := &cmDrv{Scn: s, cfg: cfg, next: 1, cfgs: cfgs, cols: map[cmCfg][]any{}, top: 300000}
	d.factor = pick(r, int64(1), 1, 1, 1000, 1<<20, 1<<36)
	d.wmax = pick(r, int64(1), 2, 10, 1000)
	d.neg = r.Intn(5) == 0
	seen := map[string]bool{}
	base := r.Uint64()
	for i := 0; len(d.items) < P; i++ {
		var b []byte
		switch r.Intn(7) {
		case 0:
			b = le64(uint64(i))
		case 1:
			b = le64(pick(r, 0, 1, math.MaxUint64, 1<<63, base+uint64(i), 255, 256))
		case 2:
			b = []byte(fmt.Sprint("item", i))
		case 3:
			b = []byte{byte(i)}
		case 4:
			b = make([]byte, 1+r.Intn(40))
			r.Read(b)
		case 5:
			b = make([]byte, 1+r.Intn(33)) // zeros of many lengths
		case 6:
			b = []byte(pick(r, "é", "日本語", "\x00", "a\x00", "ab", "\xff\xfe"))
		}
		if !seen[string(b)] {
			seen[string(b)] = true
			d.items = append(d.items, b)
		}
	}
	return d
}

func (d *cmDrv) fresh() int { d.next++; return d.next - 1 }
func (d *cmDrv) slot() int {
	hs := []int{}
	for _, h := range d.Handles() {
		if h >= d.keep {
			hs = append(hs, h)
		}
	}
	if len(hs) >= 4 {
		d.drop(hs[d.Rng.Intn(len(hs))])
	}
	return d.fresh()
}
func (d *cmDrv) drop(h int) {
	d.Drop(h)
	d.Do("drop", 0, Ev{"d": h}, func(ev Ev) error { return nil })
}
func (d *cmDrv) o(h int) *cmObj { return d.Get(h).(*cmObj) }

// put offers an item through a method that can carry it.
func (d *cmDrv) put(s *count.CountMinSketch, it []byte, w int64) error {
	k := d.Rng.Intn(3)
	if k == 0 && len(it) == 8 {
		return s.UpdateUint64(binary.LittleEndian.Uint64(it), w)
	}
	if k == 1 {
		return s.UpdateString(string(it), w)
	}
	return s.Update(append([]byte(nil), it...), w)
}

func (d *cmDrv) probe(c cmCfg) ([]any, error) {
	if q, ok := d.cols[c]; ok {
		return q, nil
	}
	rows := make([][]any, c.nh)
	for _, it := range d.items {
		s, err := count.NewCountMinSketch(int8(c.nh), int32(c.nb), c.seed)
		if err != nil {
			return nil, err
		}
		if err := s.Update(it, 1); err != nil {
			return nil, err
		}
		_, rs := cmCells(cmImage(s), c)
		for i, row := range rs {
			at := 0
			for j, v := range row {
				if v == 1 && at == 0 {
					at = j + 1
				} else if v != 0 {
					at = -1
				}
			}
			rows[i] = append(rows[i], at)
		}
	}
	out := []any{}
	for _, q := range rows {
		out = append(out, q)
	}
	d.cols[c] = out
	return out, nil
}

func (d *cmDrv) newc(h int, c cmCfg) {
	d.Do("newc", h, Ev{"nb": c.nb, "nh": c.nh, "seed": fmt.Sprint(c.seed)}, func(ev Ev) error {
		q, err := d.probe(c)
		if err != nil {
			return err
		}
		ev["cols"] = q
		s, err := count.NewCountMinSketch(int8(c.nh), int32(c.nb), c.seed)
		if err == nil {
			d.Put(h, &cmObj{s, d})
		}
		return err
	})
}

func (d *cmDrv) newbad() {
	r := d.Rng
	d.Do("newbad", 0, Ev{}, func(ev Ev) error {
		acc := []any{}
		type q struct {
			nh int8
			nb int32
		}
		for _, c := range []q{{0, 10}, {-1, 10}, {1, 2}, {3, 0}, {2, -5}, {1, math.MinInt32}, {127, math.MaxInt32}, {1, 1 << 30}, {4, 1 << 28}, {8, 1 << 29}, {int8(2 + r.Intn(120)), 1 << 30}} {
			if s, err := count.NewCountMinSketch(c.nh, c.nb, 1); err == nil || s != nil {
				acc = append(acc, fmt.Sprint(c))
			}
		}
		for _, x := range []float64{0, -1, math.Inf(-1)} {
			if _, err := count.SuggestNumBuckets(x); err == nil {
				acc = append(acc, fmt.Sprint("error ", x))
			}
		}
		for _, x := range []float64{-0.001, 1.0001, math.Inf(1), math.Inf(-1)} {
			if _, err := count.SuggestNumHashes(x); err == nil {
				acc = append(acc, fmt.Sprint("confidence ", x))
			}
		}
		ev["acc"] = acc
		return nil
	})
}

func (d *cmDrv) advice() {
	r := d.Rng
	n := 1 + r.Intn(5000)
	if r.Intn(4) == 0 {
		n = 1 + r.Intn(3)
	}
	conf := pick(r, r.Float64(), 1-math.Pow(10, -r.Float64()*12), 0.5, 0.95, 0.99, 1-math.Exp(-float64(r.Intn(8))-.5))
	d.Do("advice", 0, Ev{"n": n, "one": 0}, func(ev Ev) error {
		b, err := count.SuggestNumBuckets(1 / float64(n))
		if err != nil {
			return err
		}
		h, err := count.SuggestNumHashes(conf)
		if err != nil {
			return err
		}
		one, err := count.SuggestNumHashes(1)
		if err != nil {
			return err
		}
		ev["b"], ev["h"], ev["one"] = b, h, one
		ev["pa"], ev["pb"], ev["pc"] = R(math.Exp(-float64(h))), R(1-conf), R(math.Exp(-float64(h)+1))
		return nil
	})
}

type cmPair struct {
	x int
	w int64
}

func (d *cmDrv) batch() []cmPair {
	r := d.Rng
	n := pick(r, 1, 1, 1, 2, 7, len(d.items))
	ps := []cmPair{}
	for i := 0; i < n; i++ {
		w := int64(1)
		switch r.Intn(4) {
		case 0:
			w = 1 + r.Int63n(d.wmax)
		case 1:
			w = d.wmax
		case 2:
			if r.Intn(4) == 0 {
				w = 0
			}
		}
		if d.neg && r.Intn(3) == 0 {
			w = -w
		}
		x := 1 + r.Intn(len(d.items))
		if r.Intn(2) == 0 {
			x = 1 + min(r.Intn(len(d.items)), r.Intn(len(d.items)))
		}
		ps = append(ps, cmPair{x, w})
	}
	return ps
}

func (d *cmDrv) upd(h int, ps []cmPair) {
	s := d.o(h).s
	xs := []any{}
	for _, p := range ps {
		xs = append(xs, []any{p.x, p.w})
	}
	d.Do("upd", h, Ev{"xs": xs}, func(ev Ev) error {
		for _, p := range ps {
			if err := d.put(s, d.items[p.x-1], p.w*d.factor); err != nil {
				return err
			}
		}
		return nil
	})
}

func (d *cmDrv) empty(h int) {
	s := d.o(h).s
	d.Do("noitem", h, Ev{}, func(ev Ev) error {
		if err := s.Update(nil, 5); err != nil {
			return err
		}
		if err := s.Update([]byte{}, 5); err != nil {
			return err
		}
		if err := s.UpdateString("", 5); err != nil {
			return err
		}
		ev["est"] = []any{s.GetEstimate(nil), s.GetEstimate([]byte{}), s.GetEstimateString(""), s.GetLowerBound(nil)}
		return nil
	})
}

func (d *cmDrv) merge(h, src int) {
	a, b := d.o(h).s, d.o(src).s
	d.Do("merge", h, Ev{"src": src}, func(ev Ev) error { return a.Merge(b) })
}

// mergebad tries sources that must be refused.
func (d *cmDrv) mergebad(h int) {
	r := d.Rng
	a := d.o(h)
	c := a.cfg()
	d.Do("mergebad", h, Ev{}, func(ev Ev) error {
		acc := []any{}
		if a.s.Merge(a.s) == nil {
			acc = append(acc, "self")
		}
		for k := 0; k < 4; k++ {
			e := c
			switch k {
			case 3: // another shape with as many cells
				f := []int{}
				for n := 1; n <= 127; n++ {
					if cells := c.nh * c.nb; n != c.nh && cells%n == 0 && cells/n >= 3 {
						f = append(f, n)
					}
				}
				if len(f) == 0 {
					continue
				}
				e.nh = pick(r, f...)
				e.nb = c.nh * c.nb / e.nh
			case 0:
				e.nh = 1 + (c.nh+r.Intn(3))%6
				if e.nh == c.nh {
					e.nh++
				}
			case 1:
				e.nb = c.nb + 1 + r.Intn(5)
			case 2:
				e.seed = pick(r, c.seed+1, ^c.seed, r.Int63())
				if e.seed == c.seed {
					e.seed++
				}
			}
			b, err := count.NewCountMinSketch(int8(e.nh), int32(e.nb), e.seed)
			if err != nil {
				return err
			}
			if r.Intn(3) > 0 {
				for i := 0; i < 3; i++ {
					b.Update(d.items[r.Intn(len(d.items))], 3*d.factor)
				}
			}
			if a.s.Merge(b) == nil {
				acc = append(acc, fmt.Sprint(e))
			}
		}
		ev["acc"] = acc
		return nil
	})
}

func (d *cmDrv) query(h int) {
	r := d.Rng
	o := d.o(h)
	xs := []int{}
	for i := 0; i < 8; i++ {
		xs = append(xs, 1+r.Intn(len(d.items)))
	}
	d.Do("query", h, Ev{"xs": ints(xs)}, func(ev Ev) error {
		es, ls, us := []any{}, []any{}, []any{}
		for _, x := range xs {
			it := d.items[x-1]
			var e, l, u int64
			k := r.Intn(3)
			switch {
			case k == 0 && len(it) == 8:
				v := binary.LittleEndian.Uint64(it)
				e, l, u = o.s.GetEstimateUint64(v), o.s.GetLowerBoundUint64(v), o.s.GetUpperBoundUint64(v)
			case k == 1:
				e, l, u = o.s.GetEstimateString(string(it)), o.s.GetLowerBound(it), o.s.GetUpperBound(it)
			default:
				e, l, u = o.s.GetEstimate(it), o.s.GetLowerBound(it), o.s.GetUpperBound(it)
			}
			es, ls = append(es, d.sc(e)), append(ls, d.sc(l))
			us = append(us, int64(math.Floor(float64(u-e)/float64(d.factor)*float64(o.cfg().nb)*1000)))
		}
		ev["est"], ev["lb"], ev["dub"] = es, ls, us
		return nil
	})
}

func (d *cmDrv) ser(g, src int) {
	r := d.Rng
	o := d.o(src)
	hs := d.Handles()
	recv := d.o(hs[r.Intn(len(hs))]).s
	var img []byte
	d.Do("ser", g, Ev{"src": src}, func(ev Ev) error {
		img = cmImage(o.s)
		ev["stable"] = bytes.Equal(img, cmImage(o.s))
		defer core.Keep(img)()
		c := o.cfg()
		bad := c.seed + 1 + r.Int63n(1000)
		if SeedHash16(uint64(bad)) != SeedHash16(uint64(c.seed)) && SeedHash16(uint64(bad)) != 0 {
			if _, err := recv.Deserialize(img, bad); err == nil {
				ev["wrong"] = true
			}
		}
		if _, ok := ev["wrong"]; !ok {
			ev["wrong"] = false
		}
		s, err := recv.Deserialize(img, c.seed)
		if err == nil {
			d.Put(g, &cmObj{s, d})
		}
		return err
	})
	if !d.Dead {
		d.Do("scribble", 0, Ev{}, func(ev Ev) error {
			for i := range img {
				img[i] ^= 0x5A
			}
			return nil
		})
	}
}

func (d *cmDrv) serTwin(a int) {
	r := d.Rng
	g := d.slot()
	if !d.Has(a) {
		return
	}
	d.ser(g, a)
	for j := r.Intn(3); j > 0 && !d.Dead && d.Has(g); j-- {
		ps := d.batch()
		d.upd(a, ps)
		if !d.Dead {
			d.upd(g, ps)
		}
		if !d.Dead {
			d.Do("twin", 0, Ev{}, func(ev Ev) error {
				ev["same"] = bytes.Equal(cmImage(d.o(a).s), cmImage(d.o(g).s))
				return nil
			})
		}
	}
}

// acc measures how independent and even the rows are, and how often an
// estimate is off by more than the advertised error.
func (d *cmDrv) acc() {
	r := d.Rng
	c := cmCfg{2 + r.Intn(4), 8 + r.Intn(60), pick(r, 0, 1, 9001, r.Int63(), -r.Int63())}
	N := 600
	d.Do("acc", 0, Ev{"nb": c.nb, "nh": c.nh, "n": N}, func(ev Ev) error {
		items := make([][]byte, N)
		kind := r.Intn(3)
		base := r.Uint64()
		for i := range items {
			switch kind {
			case 0:
				items[i] = le64(base + uint64(i))
			case 1:
				items[i] = le64(r.Uint64())
			default:
				items[i] = []byte(fmt.Sprint("k", i))
			}
		}
		e := &cmDrv{Scn: d.Scn, items: items, cols: map[cmCfg][]any{}}
		cols, err := e.probe(c)
		if err != nil {
			return err
		}
		p1, p2 := []any{}, []any{}
		for a := 0; a < c.nh; a++ {
			for b := a; b < c.nh; b++ {
				n := 0
				cnt := map[[2]int]int{}
				for i := 0; i < N; i++ {
					cnt[[2]int{cols[a].([]any)[i].(int), cols[b].([]any)[i].(int)}]++
				}
				for _, v := range cnt {
					n += v * (v - 1) / 2
				}
				if a == b {
					p1 = append(p1, n)
				} else {
					p2 = append(p2, n)
				}
			}
		}
		s, err := count.NewCountMinSketch(int8(c.nh), int32(c.nb), c.seed)
		if err != nil {
			return err
		}
		for _, it := range items {
			s.Update(it, 1)
		}
		over := 0
		for _, it := range items {
			if float64(s.GetEstimate(it)-1) > s.GetRelativeError()*float64(s.GetTotalWeight()) {
				over++
			}
		}
		exp1 := float64(N) * float64(N-1) / 2 / float64(c.nb)
		exp2 := exp1 / float64(c.nb)
		ev["p1"], ev["p2"], ev["over"] = p1, p2, over
		ev["lo1"], ev["hi1"] = int(exp1-8*math.Sqrt(exp1)-5), int(exp1+8*math.Sqrt(exp1)+20)
		ev["lo2"], ev["hi2"] = int(exp2-8*math.Sqrt(exp2)-5), int(exp2+8*math.Sqrt(exp2)+20)
		ev["maxover"] = int(float64(N)*math.Exp(-float64(c.nh)) + 6*math.Sqrt(float64(N)) + 5)
		return nil
	})
}

func (d *cmDrv) random(steps int, w map[string]int) {
	r := d.Rng
	d.Begin(Ev{})
	ch := newChooser(w)
	d.newc(d.fresh(), pick(r, d.cfgs...))
	for i := 0; i < steps && !d.Dead; i++ {
		hs := d.Handles()
		if len(hs) == 0 {
			d.newc(d.slot(), pick(r, d.cfgs...))
			continue
		}
		a := pick(r, hs...)
		if d.o(a).s.GetTotalWeight()/d.factor > d.top {
			d.drop(a)
			continue
		}
		switch ch.next(r) {
		case "newc":
			d.newc(d.slot(), pick(r, d.cfgs...))
		case "upd":
			d.upd(a, d.batch())
		case "noitem":
			d.empty(a)
		case "merge":
			// find a compatible one
			c := d.o(a).cfg()
			bs := []int{}
			for _, b := range hs {
				if b != a && d.o(b).cfg() == c {
					bs = append(bs, b)
				}
			}
			if len(bs) == 0 {
				b := d.slot()
				d.newc(b, c)
				if !d.Dead && d.Has(a) {
					d.upd(b, d.batch())
				}
				bs = append(bs, b)
			}
			if !d.Dead && d.Has(a) {
				d.merge(a, pick(r, bs...))
			}
		case "mergebad":
			d.mergebad(a)
		case "query":
			d.query(a)
		case "ser":
			d.serTwin(a)
		case "newbad":
			d.newbad()
		case "advice":
			d.advice()
		case "acc":
			d.acc()
		}
	}
}

// script replays a behaviour of MC_Cms with items whose rows collide likewise
// often: three buckets, two rows.
func (d *cmDrv) script(sc []any) {
	d.Begin(Ev{})
	i := func(x any) int { return int(x.(float64)) }
	d.next, d.keep = 20, 20
	for _, st := range sc {
		if d.Dead {
			return
		}
		c := st.([]any)
		h := i(c[1])
		switch c[0].(string) {
		case "newc":
			d.newc(h, d.cfgs[0])
		case "upd":
			d.upd(h, []cmPair{{i(c[2]), int64(i(c[3]))}})
		case "merge":
			d.merge(h, i(c[2]))
		case "ser":
			d.ser(h, i(c[2]))
		case "query":
			d.query(h)
		case "mergebad":
			d.mergebad(h)
		default:
			panic("script op " + c[0].(string))
		}
		for _, g := range d.Handles() {
			if d.o(g).s.GetTotalWeight()/d.factor > d.top {
				return
			}
		}
	}
}

func cmJobs(cfg *Cfg) []core.Job {
	var jobs []core.Job
	conf := func(s *Scn) []cmCfg {
		r := s.Rng
		seed := func() int64 {
			return pick(r, 0, 1, -1, 9001, math.MaxInt64, math.MinInt64, r.Int63(), int64(r.Intn(1000)))
		}
		out := []cmCfg{}
		for i := 0; i < 2; i++ {
			c := cmCfg{1 + r.Intn(5), 3 + r.Intn(30), seed()}
			switch r.Intn(8) {
			case 0:
				c = cmCfg{127, 3, seed()}
			case 1:
				c = cmCfg{1 + r.Intn(3), 100 + r.Intn(100), seed()}
			case 2, 3:
				c = cmCfg{1 + r.Intn(2), 3, seed()}
			}
			if h := SeedHash16(uint64(c.seed)); h == 0 {
				c.seed = 1
			}
			out = append(out, c)
		}
		return out
	}
	add := func(name string, n, steps int, w map[string]int) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("%s#%d", name, i), Run: func(s *Scn) {
				newCmDrv(s, cfg, conf(s), pick(s.Rng, 6, 12, 30)).random(steps, w)
			}})
		}
	}
	nsc := 250
	if cfg.Tier == "thorough" {
		nsc = 4000
	}
	for i, sc := range cfg.Scripts {
		if i >= nsc {
			break
		}
		jobs = append(jobs, core.Job{Name: fmt.Sprintf("spec#%d", i), Run: func(s *Scn) {
			d := newCmDrv(s, cfg, []cmCfg{{2, 3, s.Rng.Int63n(1000) + 1}}, 4)
			d.neg = true
			d.script(sc)
		}})
	}
	switch cfg.Focus {
	case "C21":
		add("hist", cfg.N(700, 20000), 30, map[string]int{"newc": 3, "upd": 40, "noitem": 2, "merge": 10, "mergebad": 3, "query": 20, "ser": 6, "newbad": 1, "advice": 1})
		add("rows", cfg.N(40, 1000), 6, map[string]int{"acc": 3, "advice": 2, "newbad": 1})
	case "C30":
		add("iso", cfg.N(100, 3000), 24, map[string]int{"newc": 4, "upd": 20, "merge": 20, "query": 10, "ser": 12, "mergebad": 5})
	}
	return jobs
}

var _ = sort.Ints
