package fam

import (
	"bytes"
	"fmt"
	"math"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verif/harness/core"
)

// C32: constructors accept exactly the documented parameters; what they build
// reports them, and stays within the size they promise, for all its life.

// paObj is an object under a constructor's parameters.  Any of the functions
// may be missing.
type paObj struct {
	reports func() []int
	size    func() (int, error)
	feed    func(x int64) error
	reset   func()
	copy    func() (*paObj, error)
	image   func() (*paObj, error)
}

type paDrv struct {
	*Scn
}

// frac gives a fraction the way Params.tla takes it.
func frac(x float64) []int {
	f := math.Floor(x * 1e6)
	more := 0
	if f != x*1e6 || (x != 0 && f == 0 && x > 0) {
		more = 1
	}
	return []int{int(f), more}
}

func paInts(xs []int) []any {
	o := make([]any, len(xs))
	for i, x := range xs {
		o[i] = x
	}
	return o
}

// live records the construction, and what becomes of the object.
func (d *paDrv) live(kind string, p []int, feeds int, mk func() (*paObj, error)) {
	r := d.Rng
	var o *paObj
	note := func(ev Ev, o *paObj) error {
		ev["rep"], ev["size"] = []any{}, 0
		if o.reports != nil {
			ev["rep"] = paInts(o.reports())
		}
		if o.size != nil {
			n, err := o.size()
			if err != nil {
				return fmt.Errorf("SIZE: %w", err)
			}
			ev["size"] = n
		}
		return nil
	}
	d.Do("make", 0, Ev{"kind": kind, "p": paInts(p), "made": false, "rep": []any{}, "size": 0}, func(ev Ev) error {
		x, err := mk()
		if err != nil {
			return err
		}
		ev["made"] = true
		o = x
		return note(ev, x)
	})
	if o == nil || o.feed == nil {
		return
	}
	for step := 0; step < 5 && !d.Dead; step++ {
		did := pick(r, "feed", "feed", "reset", "copy", "image")
		if step == 0 {
			did = "feed"
		}
		d.Do("life", 0, Ev{"did": did, "rep": []any{}, "size": 0}, func(ev Ev) error {
			switch did {
			case "feed":
				base := r.Int63()
				for i := 0; i < feeds; i++ {
					if err := o.feed(base + int64(i)); err != nil {
						return err
					}
				}
			case "reset":
				if o.reset != nil {
					o.reset()
				}
			case "copy":
				if o.copy != nil {
					x, err := o.copy()
					if err != nil {
						return err
					}
					o = x
				}
			case "image":
				if o.image != nil {
					x, err := o.image()
					if err != nil {
						return err
					}
					o = x
				}
			}
			return note(ev, o)
		})
	}
}

var paProbs = []float64{1, 0.5, 0.01, 1e-5, math.SmallestNonzeroFloat32, 1.0000002, 1.5, 2, 0, -1e-9, -0.5, -1, math.Inf(1), math.Inf(-1)}

func (d *paDrv) prob() (float64, []int) {
	p := pick(d.Rng, paProbs...)
	if d.Rng.Intn(2) == 0 {
		p = 1
	}
	f := float64(float32(p))
	if math.IsInf(f, 0) {
		return f, []int{map[bool]int{true: 9000000, false: -9000000}[f > 0], 0}
	}
	return f, frac(f)
}

// near draws from a range and its borders.
func (d *paDrv) near(lo, hi, low, high int) int {
	v := pick(d.Rng, lo-1, lo, lo+1, hi-1, hi, hi+1, lo+d.Rng.Intn(hi-lo+1), low+d.Rng.Intn(high-low+1))
	return max(low, min(high, v))
}

func paSwallow(err error) error { // refusals of known or too high hashes
	return nil
}

func (d *paDrv) sampled(kind string) {
	r := d.Rng
	lgk := d.near(5, 26, 0, 255)
	if r.Intn(2) == 0 {
		lgk = 5 + r.Intn(4)
	}
	p, fp := d.prob()
	rf := r.Intn(4)
	if lgk > 14 && rf == 0 {
		rf = 3
	}
	nv := 1 + r.Intn(5)
	feeds := 10
	if lgk <= 9 {
		feeds = pick(r, 1, 60, 3<<lgk, 5<<lgk)
	}
	v := append(append([]int{lgk}, fp...), rf, nv)
	trf := theta.ResizeFactor(rf)
	switch kind {
	case "theta":
		d.live(kind, v, feeds, func() (*paObj, error) {
			s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(uint8(lgk)), theta.WithUpdateSketchP(float32(p)), theta.WithUpdateSketchResizeFactor(trf))
			if err != nil {
				return nil, err
			}
			return &paObj{reports: func() []int { return []int{int(s.LgK()), int(s.ResizeFactor())} },
				size:  func() (int, error) { return int(s.NumRetained()), nil },
				feed:  func(x int64) error { return paSwallow(s.UpdateInt64(x)) },
				reset: s.Reset}, nil
		})
	case "thetaU":
		d.live(kind, v, feeds, func() (*paObj, error) {
			u, err := theta.NewUnion(theta.WithUnionLgK(uint8(lgk)), theta.WithUnionSketchP(float32(p)), theta.WithUnionResizeFactor(trf))
			if err != nil {
				return nil, err
			}
			lg := uint8(5 + r.Intn(5))
			s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lg))
			if err != nil {
				return nil, fmt.Errorf("SOURCE: %w", err)
			}
			n := 0
			return &paObj{size: func() (int, error) {
				c, err := u.Result(r.Intn(2) == 0)
				if err != nil {
					return 0, err
				}
				return int(c.NumRetained()), nil
			}, feed: func(x int64) error {
				_ = s.UpdateInt64(x)
				if n++; n%64 == 0 {
					err := u.Update(s)
					s.Reset()
					return err
				}
				return nil
			}, reset: u.Reset}, nil
		})
	case "tuple":
		d.live(kind, v, feeds, func() (*paObj, error) {
			var s *tuple.UpdateSketch[*listSum, int]
			var err error
			opts := []tuple.UpdateSketchOptionFunc{tuple.WithUpdateSketchLgK(uint8(lgk)), tuple.WithUpdateSketchP(float32(p)), tuple.WithUpdateSketchResizeFactor(trf)}
			if r.Intn(2) == 0 {
				s, err = tuple.NewUpdateSketch[*listSum, int](func() *listSum { return &listSum{} }, opts...)
			} else {
				s, err = tuple.NewUpdateSketchWithSummaryUpdateFunc[*listSum, int](func() *listSum { return &listSum{} }, listUpdF, opts...)
			}
			if err != nil {
				return nil, err
			}
			return &paObj{reports: func() []int { return []int{int(s.LgK()), int(s.ResizeFactor())} },
				size:  func() (int, error) { return int(s.NumRetained()), nil },
				feed:  func(x int64) error { return paSwallow(s.UpdateInt64(x, 1)) },
				reset: s.Reset}, nil
		})
	case "tupleU":
		d.live(kind, v, feeds, func() (*paObj, error) {
			var u *tuple.Union[*listSum]
			var err error
			opts := []tuple.UnionOptionFunc{tuple.WithUnionLgK(uint8(lgk)), tuple.WithUnionSketchP(float32(p)), tuple.WithUnionResizeFactor(trf)}
			if r.Intn(2) == 0 {
				u, err = tuple.NewUnion[*listSum](listPolicy{}, opts...)
			} else {
				u, err = tuple.NewUnionWithSummaryMergeFunc[*listSum](listMergeF, opts...)
			}
			if err != nil {
				return nil, err
			}
			s, err := tuple.NewUpdateSketch[*listSum, int](func() *listSum { return &listSum{} }, tuple.WithUpdateSketchLgK(uint8(5+r.Intn(5))))
			if err != nil {
				return nil, fmt.Errorf("SOURCE: %w", err)
			}
			n := 0
			return &paObj{size: func() (int, error) {
				c, err := u.Result(r.Intn(2) == 0)
				if err != nil {
					return 0, err
				}
				return int(c.NumRetained()), nil
			}, feed: func(x int64) error {
				_ = s.UpdateInt64(x, 1)
				if n++; n%64 == 0 {
					err := u.Update(s)
					s.Reset()
					return err
				}
				return nil
			}, reset: u.Reset}, nil
		})
	case "nums":
		d.live(kind, v, feeds, func() (*paObj, error) {
			s, err := tuple.NewArrayOfNumbersUpdateSketch[float64](uint8(nv), tuple.WithUpdateSketchLgK(uint8(lgk)), tuple.WithUpdateSketchP(float32(p)), tuple.WithUpdateSketchResizeFactor(trf))
			if err != nil {
				return nil, err
			}
			vals := make([]float64, nv)
			return &paObj{reports: func() []int { return []int{int(s.LgK()), int(s.ResizeFactor()), int(s.NumValuesInSummary())} },
				size:  func() (int, error) { return int(s.NumRetained()), nil },
				feed:  func(x int64) error { return paSwallow(s.UpdateInt64(x, vals)) },
				reset: s.Reset}, nil
		})
	case "numsU":
		d.live(kind, v, feeds, func() (*paObj, error) {
			u, err := tuple.NewArrayOfNumbersSketchUnion[float64](numPolicy[float64]{}, uint8(nv), tuple.WithUnionLgK(uint8(lgk)), tuple.WithUnionSketchP(float32(p)), tuple.WithUnionResizeFactor(trf))
			if err != nil {
				return nil, err
			}
			s, err := tuple.NewArrayOfNumbersUpdateSketch[float64](uint8(nv), tuple.WithUpdateSketchLgK(uint8(5+r.Intn(5))))
			if err != nil {
				return nil, fmt.Errorf("SOURCE: %w", err)
			}
			vals := make([]float64, nv)
			n := 0
			return &paObj{size: func() (int, error) {
				c, err := u.Result(r.Intn(2) == 0)
				if err != nil {
					return 0, err
				}
				return int(c.NumRetained()), nil
			}, feed: func(x int64) error {
				_ = s.UpdateInt64(x, vals)
				if n++; n%64 == 0 {
					err := u.Update(s)
					s.Reset()
					return err
				}
				return nil
			}, reset: u.Reset}, nil
		})
	}
}

func paCpc(s *cpc.CpcSketch) *paObj {
	return &paObj{reports: func() []int { return []int{s.GetLgK()} },
		feed: func(x int64) error { return s.UpdateInt64(x) },
		copy: func() (*paObj, error) {
			c, err := s.Copy()
			if err != nil {
				return nil, err
			}
			return paCpc(c), nil
		},
		image: func() (*paObj, error) {
			b, err := s.ToCompactSlice()
			if err != nil {
				return nil, err
			}
			c, err := cpc.NewCpcSketchFromSliceWithDefault(b)
			if err != nil {
				return nil, err
			}
			return paCpc(c), nil
		}}
}

func paHll(s hll.HllSketch) *paObj {
	return &paObj{reports: func() []int { return []int{s.GetLgConfigK(), int(s.GetTgtHllType())} },
		feed:  func(x int64) error { return s.UpdateInt64(x) },
		reset: func() { _ = s.Reset() },
		copy: func() (*paObj, error) {
			c, err := s.Copy()
			if err != nil {
				return nil, err
			}
			return paHll(c), nil
		},
		image: func() (*paObj, error) {
			b, err := s.ToCompactSlice()
			if err != nil {
				return nil, err
			}
			c, err := hll.NewHllSketchFromSlice(b, true)
			if err != nil {
				return nil, err
			}
			return paHll(c), nil
		}}
}

func paHllU(u hll.Union) *paObj {
	return &paObj{reports: func() []int { return []int{u.GetLgConfigK()} }, // it is fed items only
		feed:  func(x int64) error { return u.UpdateInt64(x) },
		reset: func() { _ = u.Reset() }}
}

func (d *paDrv) counting(kind string) {
	r := d.Rng
	feeds := pick(r, 1, 20, 300, 3000)
	switch kind {
	case "cpc", "cpcU":
		lgk := d.near(4, 26, -3, 200)
		if r.Intn(2) == 0 {
			lgk = 4 + r.Intn(6)
		}
		if lgk > 12 {
			feeds = min(feeds, 20)
		}
		d.live(kind, []int{lgk}, feeds, func() (*paObj, error) {
			if kind == "cpc" {
				var s *cpc.CpcSketch
				var err error
				if r.Intn(2) == 0 {
					s, err = cpc.NewCpcSketchWithDefault(lgk)
				} else {
					s, err = cpc.NewCpcSketch(lgk, 9001)
				}
				if err != nil {
					return nil, err
				}
				return paCpc(s), nil
			}
			u, err := cpc.NewCpcUnionSketchWithDefault(lgk)
			if err != nil {
				return nil, err
			}
			o := &paObj{reports: func() []int {
				res, err := u.GetResult()
				if err != nil {
					return []int{-1}
				}
				return []int{res.GetLgK()}
			}}
			src, err := cpc.NewCpcSketchWithDefault(min(26, max(4, lgk)+r.Intn(3))) // none smaller
			if err != nil {
				return nil, fmt.Errorf("SOURCE: %w", err)
			}
			n := 0
			o.feed = func(x int64) error {
				if err := src.UpdateInt64(x); err != nil {
					return err
				}
				if n++; n%50 == 0 || n < 3 {
					return u.Update(src)
				}
				return nil
			}
			return o, nil
		})
	case "hll", "hllU":
		lgk := d.near(4, 21, -3, 200)
		if r.Intn(2) == 0 {
			lgk = 4 + r.Intn(6)
		}
		tt := r.Intn(3)
		if lgk > 14 {
			feeds = min(feeds, 20)
		}
		if kind == "hll" {
			d.live(kind, []int{lgk, tt}, feeds, func() (*paObj, error) {
				s, err := hll.NewHllSketch(lgk, hll.TgtHllType(tt))
				if err != nil {
					return nil, err
				}
				return paHll(s), nil
			})
		} else {
			d.live(kind, []int{lgk}, feeds, func() (*paObj, error) {
				u, err := hll.NewUnion(lgk)
				if err != nil {
					return nil, err
				}
				return paHllU(u), nil
			})
		}
		// The deviations asked for are one, two or three, in every mode.
		d.Do("ask", 0, Ev{"nsd": 0, "oks": []any{}}, func(ev Ev) error {
			s, err := hll.NewHllSketch(4+r.Intn(6), hll.TgtHllType(tt))
			if err != nil {
				return err
			}
			b := r.Int63()
			for i := 0; i < feeds; i++ {
				if err := s.UpdateInt64(b + int64(i)); err != nil {
					return err
				}
			}
			n := pick(r, -1, 0, 1, 2, 3, 4, 100)
			_, e1 := s.GetLowerBound(n)
			_, e2 := s.GetUpperBound(n)
			ev["nsd"], ev["oks"] = n, anys(e1 == nil, e2 == nil)
			return nil
		})
	}
}

func paKll(s *kll.ItemsSketch[int64]) *paObj {
	return &paObj{reports: func() []int { return []int{int(s.GetK())} },
		feed:  func(x int64) error { s.Update(x); return nil },
		reset: s.Reset,
		image: func() (*paObj, error) {
			b, err := s.ToSlice()
			if err != nil {
				return nil, err
			}
			c, err := kll.NewKllItemsSketchFromSlice[int64](b, common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{})
			if err != nil {
				return nil, err
			}
			return paKll(c), nil
		}}
}

func paTd(s *tdigest.Double) *paObj {
	return &paObj{reports: func() []int { return []int{int(s.K())} },
		feed: func(x int64) error { return s.Update(float64(x % 1000003)) },
		size: func() (int, error) {
			b, err := tdigest.EncodeDouble(s, false)
			if err != nil {
				return 0, err
			}
			if len(b) < 40 {
				return 0, nil
			}
			return (len(b) - 32) / 16, nil
		},
		image: func() (*paObj, error) {
			b, err := tdigest.EncodeDouble(s, true)
			if err != nil {
				return nil, err
			}
			c, err := tdigest.DecodeDouble(b)
			if err != nil {
				return nil, err
			}
			return paTd(c), nil
		}}
}

func (d *paDrv) quantiles(kind string) {
	r := d.Rng
	feeds := pick(r, 1, 20, 300, 3000)
	switch kind {
	case "kll":
		k, m, cmp := d.near(8, 65535, 0, 65535), pick(r, 8, 8, 2, 4, 6, 0, 1, 3, 5, 7, 9, 10, 255), 1
		if r.Intn(2) == 0 {
			k = 8 + r.Intn(100)
		}
		if r.Intn(8) == 0 {
			cmp = 0
		}
		d.live(kind, []int{k, m, cmp}, feeds, func() (*paObj, error) {
			var f common.CompareFn[int64]
			if cmp == 1 {
				f = common.ItemSketchLongComparator(false)
			}
			s, err := kll.NewKllItemsSketch[int64](uint16(k), uint8(m), f, common.ItemSketchLongSerDe{})
			if err != nil {
				return nil, err
			}
			return paKll(s), nil
		})
	case "req":
		k, hra := d.near(4, 1024, -4, 3000), r.Intn(2)
		d.live(kind, []int{k, hra}, feeds, func() (*paObj, error) {
			s, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra == 1))
			if err != nil {
				return nil, err
			}
			return &paObj{reports: func() []int {
				h := 0
				if s.IsHighRankAccuracyMode() {
					h = 1
				}
				return []int{s.K(), h}
			},
				feed:  func(x int64) error { return s.Update(float32(x % 100003)) },
				reset: func() { s.Reset() }}, nil
		})
	case "tdig":
		k := d.near(10, 65535, 0, 65535)
		if r.Intn(2) == 0 {
			k = 10 + r.Intn(200)
		}
		d.live(kind, []int{k}, feeds, func() (*paObj, error) {
			s, err := tdigest.NewDouble(uint16(k))
			if err != nil {
				return nil, err
			}
			return paTd(s), nil
		})
	}
}

func paFreqL(s *frequencies.LongsSketch) *paObj {
	return &paObj{reports: func() []int { return []int{s.GetMaximumMapCapacity()} },
		size:  func() (int, error) { return s.GetNumActiveItems(), nil },
		feed:  func(x int64) error { return s.Update(x) },
		reset: func() { s.Reset() },
		image: func() (*paObj, error) {
			c, err := frequencies.NewLongsSketchFromSlice(s.ToSlice())
			if err != nil {
				return nil, err
			}
			return paFreqL(c), nil
		}}
}

func paFreqI(s *frequencies.ItemsSketch[int64]) *paObj {
	return &paObj{reports: func() []int { return []int{s.GetMaximumMapCapacity()} },
		size:  func() (int, error) { return s.GetNumActiveItems(), nil },
		feed:  func(x int64) error { return s.Update(x) },
		reset: func() { _ = s.Reset() },
		image: func() (*paObj, error) {
			b, err := s.ToSlice()
			if err != nil {
				return nil, err
			}
			c, err := frequencies.NewFrequencyItemsSketchFromSlice[int64](b, common.ItemSketchLongHasher{}, common.ItemSketchLongSerDe{})
			if err != nil {
				return nil, err
			}
			return paFreqI(c), nil
		}}
}

func paCms(s *count.CountMinSketch) *paObj {
	return &paObj{reports: func() []int { return []int{int(s.GetNumHashes()), int(s.GetNumBuckets()), int(s.GetSeed())} },
		feed: func(x int64) error { return s.UpdateUint64(uint64(x), 1) },
		image: func() (*paObj, error) {
			var b bytes.Buffer
			if err := s.Serialize(&b); err != nil {
				return nil, err
			}
			c, err := s.Deserialize(b.Bytes(), s.GetSeed())
			if err != nil {
				return nil, err
			}
			return paCms(c), nil
		}}
}

func paBloom(f filters.BloomFilter) *paObj {
	return &paObj{reports: func() []int { return []int{int(f.Capacity() / 64), int(f.NumHashes()), int(f.Seed())} },
		feed:  func(x int64) error { return f.UpdateInt64(x) },
		reset: func() { _ = f.Reset() },
		image: func() (*paObj, error) {
			b, err := f.ToCompactSlice()
			if err != nil {
				return nil, err
			}
			c, err := filters.NewBloomFilterFromSlice(b)
			if err != nil {
				return nil, err
			}
			return paBloom(c), nil
		}}
}

func (d *paDrv) tables(kind string) {
	r := d.Rng
	feeds := pick(r, 1, 20, 300)
	switch kind {
	case "freq", "freqM":
		longs := r.Intn(2) == 0
		if kind == "freq" {
			mx := pick(r, -1, 0, 1, 2, 3, 4, 5, 6, 8, 20, 28)
			cur := min(max(mx, 3), pick(r, -1, 0, 3, 4, 5, 10))
			d.live(kind, []int{mx, cur}, feeds, func() (*paObj, error) {
				if longs {
					s, err := frequencies.NewLongsSketch(mx, cur)
					if err != nil {
						return nil, err
					}
					return paFreqL(s), nil
				}
				s, err := frequencies.NewFrequencyItemsSketch[int64](mx, cur, common.ItemSketchLongHasher{}, common.ItemSketchLongSerDe{})
				if err != nil {
					return nil, err
				}
				return paFreqI(s), nil
			})
			return
		}
		n := pick(r, -8, -1, 0, 1, 2, 3, 4, 7, 8, 9, 16, 24, 31, 32, 33, 64, 1000, 1024, 1<<20, 1<<20+1, 1<<28)
		d.live(kind, []int{n}, feeds, func() (*paObj, error) {
			if longs {
				s, err := frequencies.NewLongsSketchWithMaxMapSize(n)
				if err != nil {
					return nil, err
				}
				return paFreqL(s), nil
			}
			s, err := frequencies.NewFrequencyItemsSketchWithMaxMapSize[int64](n, common.ItemSketchLongHasher{}, common.ItemSketchLongSerDe{})
			if err != nil {
				return nil, err
			}
			return paFreqI(s), nil
		})
	case "cms":
		h, b, seed := pick(r, -128, -1, 0, 1, 2, 5, 100, 127), pick(r, -5, 0, 1, 2, 3, 4, 5, 10, 1000), r.Intn(1<<30)
		switch r.Intn(6) { // too many cells in all
		case 0:
			h = 1 + r.Intn(127)
			b = (1<<30 + h - 1) / h
		case 1:
			h, b = pick(r, 64, 127, 100), math.MaxInt32
		}
		d.live(kind, []int{h, b, seed}, feeds, func() (*paObj, error) {
			s, err := count.NewCountMinSketch(int8(h), int32(b), int64(seed))
			if err != nil {
				return nil, err
			}
			return paCms(s), nil
		})
	case "bloom":
		w, b, k, seed := r.Intn(20), pick(r, 0, 1, 31, 32, 33, 63), pick(r, 0, 1, 2, 3, 16, 1000, 65535), r.Intn(1<<30)
		switch r.Intn(6) {
		case 0:
			w, b = 2147483643, 1+r.Intn(63)
		case 1:
			w = 2147483644 + r.Intn(4)
		}
		if k > 20 {
			feeds = 1
		}
		d.live(kind, []int{w, b, k, seed}, feeds, func() (*paObj, error) {
			f, err := filters.NewBloomFilterBySize(uint64(w)*64+uint64(b), uint16(k), filters.WithSeed(uint64(seed)))
			if err != nil {
				return nil, err
			}
			return paBloom(f), nil
		})
	case "bloomA":
		n := pick(r, 0, 0, 1, 2, 10, 1000, 100000)
		p := pick(r, 0.0, 1, 0.5, 0.01, 1e-6, 1e-9, 0.999999, 1.0000001, 2, -0.01, -1, math.SmallestNonzeroFloat64)
		d.live(kind, append([]int{n}, frac(p)...), feeds, func() (*paObj, error) {
			f, err := filters.NewBloomFilterByAccuracy(uint64(n), p)
			if err != nil {
				return nil, err
			}
			o := paBloom(f)
			o.reports, o.image = nil, nil
			return o, nil
		})
	}
}

func (d *paDrv) samples(kind string) {
	r := d.Rng
	feeds := pick(r, 1, 20, 300)
	k := pick(r, 0, 1, 2, 3, 4, 5, 8, 16, 17, 100, 1<<20)
	rf := r.Intn(4)
	var resv func(s *sampling.ReservoirItemsSketch[int64]) *paObj
	resv = func(s *sampling.ReservoirItemsSketch[int64]) *paObj {
		return &paObj{reports: func() []int { return []int{s.K()} },
			size:  func() (int, error) { return len(s.Samples()), nil },
			feed:  func(x int64) error { return s.Update(x) },
			reset: s.Reset,
			copy:  func() (*paObj, error) { return resv(s.Copy()), nil },
			image: func() (*paObj, error) {
				b, err := s.ToSlice(common.ItemSketchLongSerDe{})
				if err != nil {
					return nil, err
				}
				c, err := sampling.NewReservoirItemsSketchFromSlice[int64](b, common.ItemSketchLongSerDe{})
				if err != nil {
					return nil, err
				}
				return resv(c), nil
			}}
	}
	var resvU func(u *sampling.ReservoirItemsUnion[int64]) *paObj
	resvU = func(u *sampling.ReservoirItemsUnion[int64]) *paObj {
		return &paObj{reports: func() []int { return []int{u.MaxK()} },
			size: func() (int, error) {
				s, err := u.Result()
				if err != nil || s == nil { // nothing in it
					return 0, err
				}
				return len(s.Samples()), nil
			},
			feed:  func(x int64) error { return u.Update(x) },
			reset: u.Reset,
			image: func() (*paObj, error) {
				b, err := u.ToSlice(common.ItemSketchLongSerDe{})
				if err != nil {
					return nil, err
				}
				c, err := sampling.NewReservoirItemsUnionFromSlice[int64](b, common.ItemSketchLongSerDe{})
				if err != nil {
					return nil, err
				}
				return resvU(c), nil
			}}
	}
	var vopt func(s *sampling.VarOptItemsSketch[int64]) *paObj
	vopt = func(s *sampling.VarOptItemsSketch[int64]) *paObj {
		return &paObj{reports: func() []int { return []int{s.K()} },
			size:  func() (int, error) { return s.NumSamples(), nil },
			feed:  func(x int64) error { return s.Update(x, float64(1+x&1023)) },
			reset: s.Reset,
			image: func() (*paObj, error) {
				var b bytes.Buffer
				enc := sampling.NewVarOptItemsSketchEncoder[int64](&b, common.ItemSketchLongSerDe{})
				if err := enc.Encode(s); err != nil {
					return nil, err
				}
				c, err := sampling.DecodeVarOptItemsSketch[int64](b.Bytes(), common.ItemSketchLongSerDe{})
				if err != nil {
					return nil, err
				}
				return vopt(c), nil
			}}
	}
	switch kind {
	case "resv":
		k = pick(r, k, k, -1, math.MinInt32, math.MaxInt32)
		if k == math.MaxInt32 {
			rf = 3
		}
		d.live(kind, []int{k, rf}, feeds, func() (*paObj, error) {
			s, err := sampling.NewReservoirItemsSketch[int64](k, sampling.WithReservoirItemsSketchResizeFactor(sampling.ResizeFactor(rf)))
			if err != nil {
				return nil, err
			}
			return resv(s), nil
		})
	case "resvU":
		k = pick(r, k, k, -1, math.MinInt32, math.MaxInt32)
		d.live(kind, []int{k}, feeds, func() (*paObj, error) {
			u, err := sampling.NewReservoirItemsUnion[int64](k)
			if err != nil {
				return nil, err
			}
			if r.Intn(2) == 0 { // a result needs something in it
				if err := u.Update(5); err != nil {
					return nil, fmt.Errorf("SOURCE: %w", err)
				}
			}
			return resvU(u), nil
		})
	case "vopt":
		k = pick(r, k, k, math.MaxInt32-1, math.MaxInt32)
		if k > 1<<20 {
			rf = 3
		}
		d.live(kind, []int{k, rf}, feeds, func() (*paObj, error) {
			s, err := sampling.NewVarOptItemsSketch[int64](uint(k), sampling.WithResizeFactor(sampling.ResizeFactor(rf)))
			if err != nil {
				return nil, err
			}
			return vopt(s), nil
		})
	case "voptU":
		k = pick(r, k, k, math.MaxInt32-1, math.MaxInt32)
		d.live(kind, []int{k}, feeds, func() (*paObj, error) {
			u, err := sampling.NewVarOptItemsUnion[int64](uint(k))
			if err != nil {
				return nil, err
			}
			n := 0
			src, err := sampling.NewVarOptItemsSketch[int64](uint(1 + r.Intn(40)))
			if err != nil {
				return nil, fmt.Errorf("SOURCE: %w", err)
			}
			return &paObj{size: func() (int, error) {
				s, err := u.Result()
				if err != nil {
					return 0, err
				}
				return s.NumSamples(), nil
			}, feed: func(x int64) error {
				if err := src.Update(x, float64(1+x&1023)); err != nil {
					return err
				}
				if n++; n%20 == 0 || n < 3 {
					err := u.Update(src)
					src.Reset()
					return err
				}
				return nil
			}, reset: u.Reset}, nil
		})
	}
}

func paJobs(cfg *Cfg) []core.Job {
	type w struct {
		kind string
		f    func(d *paDrv, kind string)
	}
	ws := []w{}
	for _, k := range []string{"theta", "thetaU", "tuple", "tupleU", "nums", "numsU"} {
		ws = append(ws, w{k, (*paDrv).sampled})
	}
	for _, k := range []string{"cpc", "cpcU", "hll", "hllU"} {
		ws = append(ws, w{k, (*paDrv).counting})
	}
	for _, k := range []string{"kll", "req", "tdig"} {
		ws = append(ws, w{k, (*paDrv).quantiles})
	}
	for _, k := range []string{"freq", "freqM", "cms", "bloom", "bloomA"} {
		ws = append(ws, w{k, (*paDrv).tables})
	}
	for _, k := range []string{"resv", "resvU", "vopt", "voptU"} {
		ws = append(ws, w{k, (*paDrv).samples})
	}
	var jobs []core.Job
	for i := 0; i < cfg.N(12, 150); i++ {
		for _, x := range ws {
			jobs = append(jobs, core.Job{Name: "params-" + x.kind, Run: func(s *Scn) {
				d := &paDrv{s}
				d.Begin(Ev{"kind": x.kind})
				for j := 0; j < 12 && !s.Dead; j++ {
					x.f(d, x.kind)
				}
			}})
		}
	}
	return jobs
}
