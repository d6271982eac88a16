package fam

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"

	"verif/harness/core"
)

// C29: images that are cut short, carry a foreign header, or belong to
// another seed.  The layouts (where the header fields are and what they may
// hold) are the specification's, in Image.tla; the harness reads the fields
// at those places and applies faults there.

const (
	imSeed  = uint64(9001)
	imOther = uint64(777)
)

type imRead struct {
	name string
	fn   func(b []byte, seed uint64) error
	// what the reader makes of an image, where images may end in unused storage
	canon func(b []byte) (string, error)
}

type imFmt struct {
	name   string // of the layout in Image.tla
	seedAt int    // where the seed hash is, or -1
	pmask  byte
	valid  map[byte]bool // preamble sizes the format knows
	vers   map[byte]bool
	mk     func(d *imDrv, n int) ([]byte, error)
	rds    []imRead
	noSeed func(b []byte) bool // images whose seed hash no reader need look at
	strict bool                // the preamble size is determined by the other fields
	preAny bool                // the preamble size is not read
}

type imDrv struct {
	*Scn
	cfg *Cfg
}

// fam names the formats that share a family number.
func (f imFmt) fam() string {
	switch f.name {
	case "numbers":
		return "tuple"
	case "items":
		return "longs"
	case "tdigestold":
		return "tdigest"
	}
	return strings.TrimRight(f.name, "1234")
}

func bset(v ...byte) map[byte]bool {
	m := map[byte]bool{}
	for _, x := range v {
		m[x] = true
	}
	return m
}

func errOf[T any](_ T, err error) error { return err }

func (d *imDrv) theta(n int) (*theta.CompactSketch, error) {
	r := d.Rng
	lg := uint8(5 + r.Intn(3))
	p := pick(r, float32(1), 1, 0.5)
	s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lg), theta.WithUpdateSketchP(p), theta.WithUpdateSketchSeed(imSeed))
	if err != nil {
		return nil, err
	}
	b := r.Int63()
	for i := 0; i < n; i++ {
		_ = s.UpdateInt64(b + int64(i)) // refusals of known hashes
	}
	return theta.NewCompactSketch(s, r.Intn(3) > 0), nil
}

// thOld writes the layouts of earlier releases, which the readers accept.
func thOld(c *theta.CompactSketch, ver byte) []byte {
	hs := []uint64{}
	for h := range c.All() {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	th := c.Theta64()
	pre := byte(3)
	if ver == 2 {
		pre = 2
		if th < theta.MaxTheta {
			pre = 3
		} else if len(hs) == 0 {
			pre = 1
		}
	}
	b := make([]byte, int(pre)*8)
	sh := SeedHash16(imSeed)
	b[0], b[1], b[2], b[5] = pre, ver, 3, 0x1a
	if ver == 2 {
		binary.LittleEndian.PutUint16(b[6:], sh)
	}
	if pre > 1 {
		binary.LittleEndian.PutUint32(b[8:], uint32(len(hs)))
	}
	if pre > 2 {
		binary.LittleEndian.PutUint64(b[16:], th)
	}
	for _, h := range hs {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	return b
}

var imThetaReaders = []imRead{
	{name: "Decode", fn: func(b []byte, sd uint64) error { return errOf(theta.Decode(b, sd)) }},
	{name: "Decoder", fn: func(b []byte, sd uint64) error { d := theta.NewDecoder(sd); return errOf(d.Decode(bytes.NewReader(b))) }},
	{name: "Wrap", fn: func(b []byte, sd uint64) error {
		w, err := theta.WrapCompactSketch(b, sd)
		if err != nil {
			return err
		}
		n := 0
		for range w.All() {
			n++
		}
		w.Estimate()
		return nil
	}},
}

func (d *imDrv) tuple(k tuKind, n int) ([]byte, error) {
	r := d.Rng
	s, err := k.newUpd(uint8(5+r.Intn(2)), theta.ResizeX8, pick(r, float32(1), 1, .5), imSeed)
	if err != nil {
		return nil, err
	}
	b := r.Int63()
	for i := 0; i < n; i++ {
		_ = s.u.feed(thKey{kind: "i64", i: b + int64(i)}, i%9)
	}
	c, err := k.compact(s, 0, r.Intn(2) == 0)
	if err != nil {
		return nil, err
	}
	var w bytes.Buffer
	err = k.encode(c, &w)
	return w.Bytes(), err
}

func tuReaders(k tuKind) []imRead {
	return []imRead{
		{name: "Decode", fn: func(b []byte, sd uint64) error { return errOf(k.decode(b, nil, sd)) }},
		{name: "Decoder", fn: func(b []byte, sd uint64) error { return errOf(k.decode(nil, bytes.NewReader(b), sd)) }},
	}
}

func (d *imDrv) hll(n int) (hll.HllSketch, error) {
	r := d.Rng
	s, err := hll.NewHllSketch(4+r.Intn(7), hlTypes[r.Intn(3)])
	if err != nil {
		return nil, err
	}
	b := r.Int63()
	for i := 0; i < n && err == nil; i++ {
		err = s.UpdateInt64(b + int64(i))
	}
	return s, err
}

type hlAny interface {
	ToUpdatableSlice() ([]byte, error)
	GetEstimate() (float64, error)
}

func hlCanon[T hlAny](mk func(b []byte) (T, error)) func(b []byte) (string, error) {
	return func(b []byte) (string, error) {
		s, err := mk(exact(b))
		if err != nil {
			return "", err
		}
		u, err := s.ToUpdatableSlice()
		if err != nil {
			return "", err
		}
		e, err := s.GetEstimate()
		return fmt.Sprintf("%x %v", u, e), err
	}
}

func hlReader[T hlAny](name string, mk func(b []byte) (T, error)) imRead {
	return imRead{name: name, fn: func(b []byte, _ uint64) error { return errOf(mk(b)) }, canon: hlCanon(mk)}
}

var imHllReaders = []imRead{
	hlReader("HllSketch", func(b []byte) (hll.HllSketch, error) { return hll.NewHllSketchFromSlice(b, true) }),
	hlReader("HllSketch/norebuild", func(b []byte) (hll.HllSketch, error) { return hll.NewHllSketchFromSlice(b, false) }),
	hlReader("Union", func(b []byte) (hll.Union, error) { return hll.NewUnionFromSlice(b) }),
}

func imKll[T comparable](lt common.CompareFn[T], sd common.ItemSketchSerde[T], val func(d *imDrv, i int) T) (func(d *imDrv, n int) ([]byte, error), []imRead) {
	return func(d *imDrv, n int) ([]byte, error) {
		s, err := kll.NewKllItemsSketch[T](uint16(pick(d.Rng, 8, 9, 20)), 8, lt, sd)
		if err != nil {
			return nil, err
		}
		for i := 0; i < n; i++ {
			s.Update(val(d, i))
		}
		return s.ToSlice()
	}, []imRead{{name: "FromSlice", fn: func(b []byte, _ uint64) error {
		return errOf(kll.NewKllItemsSketchFromSlice[T](b, lt, sd))
	}}}
}

func imFreq[T comparable](h common.ItemSketchHasher[T], sd common.ItemSketchSerde[T], val func(d *imDrv, i int) T) (func(d *imDrv, n int) ([]byte, error), []imRead) {
	return func(d *imDrv, n int) ([]byte, error) {
		s, err := frequencies.NewFrequencyItemsSketch[T](3+d.Rng.Intn(4), 3, h, sd)
		if err != nil {
			return nil, err
		}
		for i := 0; i < n; i++ {
			if err := s.UpdateMany(val(d, i), int64(1+i%5)); err != nil {
				return nil, err
			}
		}
		return s.ToSlice()
	}, []imRead{{name: "FromSlice", fn: func(b []byte, _ uint64) error {
		return errOf(frequencies.NewFrequencyItemsSketchFromSlice[T](b, h, sd))
	}}}
}

func imSampling[T any](sd common.ItemSketchSerde[T], val func(d *imDrv, i int) T) []imFmt {
	rs := func(d *imDrv, n int) (*sampling.ReservoirItemsSketch[T], error) {
		s, err := sampling.NewReservoirItemsSketch[T](pick(d.Rng, 3, 10, 40), sampling.WithReservoirItemsSketchResizeFactor(sampling.ResizeX2))
		for i := 0; i < n && err == nil; i++ {
			s.Update(val(d, i))
		}
		return s, err
	}
	vo := func(d *imDrv, n int) (*sampling.VarOptItemsSketch[T], error) {
		s, err := sampling.NewVarOptItemsSketch[T](uint(pick(d.Rng, 3, 10, 40)))
		for i := 0; i < n && err == nil; i++ {
			err = s.Update(val(d, i), pick(d.Rng, 1., 1, 2, 50))
		}
		return s, err
	}
	return []imFmt{
		{name: "reservoir", seedAt: -1, pmask: 0x3f, valid: bset(1, 2), vers: bset(2), strict: true,
			mk: func(d *imDrv, n int) ([]byte, error) {
				s, err := rs(d, n)
				if err != nil {
					return nil, err
				}
				return s.ToSlice(sd)
			},
			rds: []imRead{{name: "FromSlice", fn: func(b []byte, _ uint64) error { return errOf(sampling.NewReservoirItemsSketchFromSlice[T](b, sd)) }}}},
		{name: "reservoirunion", seedAt: -1, pmask: 0x3f, valid: bset(1), vers: bset(2), strict: true,
			mk: func(d *imDrv, n int) ([]byte, error) {
				u, err := sampling.NewReservoirItemsUnion[T](pick(d.Rng, 3, 10, 40))
				if err != nil {
					return nil, err
				}
				for _, m := range []int{n, n / 3} {
					if m == 0 {
						break
					}
					s, err := rs(d, m)
					if err != nil {
						return nil, err
					}
					if err := u.UpdateSketch(s); err != nil {
						return nil, err
					}
				}
				return u.ToSlice(sd)
			},
			rds: []imRead{{name: "FromSlice", fn: func(b []byte, _ uint64) error { return errOf(sampling.NewReservoirItemsUnionFromSlice[T](b, sd)) }}}},
		{name: "varopt", seedAt: -1, pmask: 0x3f, valid: bset(1, 3, 4), vers: bset(2), strict: true,
			mk: func(d *imDrv, n int) ([]byte, error) {
				s, err := vo(d, n)
				if err != nil {
					return nil, err
				}
				var w bytes.Buffer
				e := sampling.NewVarOptItemsSketchEncoder[T](&w, sd)
				err = e.Encode(s)
				return w.Bytes(), err
			},
			rds: []imRead{{name: "Decode", fn: func(b []byte, _ uint64) error { return errOf(sampling.DecodeVarOptItemsSketch[T](b, sd)) }}}},
		{name: "varoptunion", seedAt: -1, pmask: 0x3f, valid: bset(1, 4), vers: bset(2),
			mk: func(d *imDrv, n int) ([]byte, error) {
				u, err := sampling.NewVarOptItemsUnion[T](uint(pick(d.Rng, 3, 10, 40)))
				if err != nil {
					return nil, err
				}
				for _, m := range []int{n, n / 3} {
					if m == 0 {
						break
					}
					s, err := vo(d, m)
					if err != nil {
						return nil, err
					}
					if err := u.Update(s); err != nil {
						return nil, err
					}
				}
				var w bytes.Buffer
				e := sampling.NewVarOptItemsUnionEncoder[T](&w, sd)
				err = e.Encode(u)
				return w.Bytes(), err
			},
			rds: []imRead{{name: "Decode", fn: func(b []byte, _ uint64) error { return errOf(sampling.DecodeVarOptItemsUnion[T](b, sd)) }}}},
	}
}

func imStr(d *imDrv, i int) string {
	return pad[d.Rng.Intn(len(pad))] + fmt.Sprint(i)
}

func imFormats() []imFmt {
	fs := []imFmt{
		{name: "theta3", seedAt: 6, pmask: 0xff, valid: bset(1, 2, 3), vers: bset(1, 2, 3, 4), rds: imThetaReaders,
			noSeed: func(b []byte) bool { return b[5]&4 != 0 },
			mk: func(d *imDrv, n int) ([]byte, error) {
				c, err := d.theta(n)
				if err != nil {
					return nil, err
				}
				return c.MarshalBinary()
			}},
		{name: "theta4", seedAt: 6, pmask: 0xff, valid: bset(1, 2), vers: bset(1, 2, 3, 4), rds: imThetaReaders,
			mk: func(d *imDrv, n int) ([]byte, error) {
				for {
					c, err := d.theta(max(n, 2))
					if err != nil {
						return nil, err
					}
					b, err := thMarshal(c, "encz")
					if err != nil || b[1] == 4 {
						return b, err
					}
					n++
				}
			}},
		{name: "theta2", seedAt: 6, pmask: 0xff, valid: bset(1, 2, 3), vers: bset(1, 2, 3, 4), rds: imThetaReaders,
			mk: func(d *imDrv, n int) ([]byte, error) {
				c, err := d.theta(n)
				if err != nil {
					return nil, err
				}
				return thOld(c, 2), nil
			}},
		{name: "theta1", seedAt: -1, pmask: 0xff, valid: bset(3), vers: bset(1, 2, 3, 4), rds: imThetaReaders, preAny: true,
			mk: func(d *imDrv, n int) ([]byte, error) {
				c, err := d.theta(n)
				if err != nil {
					return nil, err
				}
				return thOld(c, 1), nil
			}},
		{name: "cms", seedAt: 13, pmask: 0xff, valid: bset(2), vers: bset(1), strict: true,
			mk: func(d *imDrv, n int) ([]byte, error) {
				c, err := count.NewCountMinSketch(int8(1+d.Rng.Intn(4)), int32(3+d.Rng.Intn(20)), int64(imSeed))
				for i := 0; i < n && err == nil; i++ {
					err = c.Update([]byte(imStr(d, i)), int64(i%5))
				}
				if err != nil {
					return nil, err
				}
				var w bytes.Buffer
				err = c.Serialize(&w)
				return w.Bytes(), err
			},
			rds: []imRead{{name: "Deserialize", fn: func(b []byte, sd uint64) error {
				c, err := count.NewCountMinSketch(1, 3, int64(sd))
				if err != nil {
					return err
				}
				return errOf(c.Deserialize(b, int64(sd)))
			}}}},
		{name: "bloom", seedAt: -1, pmask: 0xff, valid: bset(3, 4), vers: bset(1), strict: true,
			mk: func(d *imDrv, n int) ([]byte, error) {
				f, err := filters.NewBloomFilterBySize(uint64(1+d.Rng.Intn(2000)), uint16(1+d.Rng.Intn(5)), filters.WithSeed(imSeed))
				for i := 0; i < n && err == nil; i++ {
					err = f.UpdateInt64(d.Rng.Int63())
				}
				if err != nil {
					return nil, err
				}
				return f.ToCompactSlice()
			},
			rds: []imRead{{name: "FromSlice", fn: func(b []byte, _ uint64) error { return errOf(filters.NewBloomFilterFromSlice(b)) }}}},
		{name: "longs", seedAt: -1, pmask: 0x3f, valid: bset(1, 4), vers: bset(1), strict: true,
			mk: func(d *imDrv, n int) ([]byte, error) {
				s, err := frequencies.NewLongsSketch(3+d.Rng.Intn(4), 3)
				for i := 0; i < n && err == nil; i++ {
					err = s.UpdateMany(d.Rng.Int63n(100), int64(1+i%5))
				}
				if err != nil {
					return nil, err
				}
				return s.ToSlice(), nil
			},
			rds: []imRead{{name: "FromSlice", fn: func(b []byte, _ uint64) error { return errOf(frequencies.NewLongsSketchFromSlice(b)) }}}},
		{name: "tdigest", seedAt: -1, pmask: 0xff, valid: bset(1, 2), vers: bset(1), strict: true,
			mk: func(d *imDrv, n int) ([]byte, error) {
				s, err := tdigest.NewDouble(uint16(pick(d.Rng, 10, 20, 100)))
				for i := 0; i < n && err == nil; i++ {
					err = s.Update(d.Rng.NormFloat64())
				}
				if err != nil {
					return nil, err
				}
				return tdigest.EncodeDouble(s, d.Rng.Intn(2) == 0)
			},
			rds: imTdReaders},
		{name: "tdigestold", seedAt: -1, pmask: 0xff, valid: bset(0), vers: bset(0), preAny: true, rds: imTdReaders,
			mk: func(d *imDrv, n int) ([]byte, error) { return tdOld(d, n), nil }},
	}
	for _, upd := range []bool{false, true} {
		fs = append(fs, imFmt{name: "hll", seedAt: -1, pmask: 0x3f, valid: bset(2, 3, 10), vers: bset(1), strict: true, rds: imHllReaders,
			mk: func(d *imDrv, n int) ([]byte, error) {
				s, err := d.hll(n)
				if err != nil {
					return nil, err
				}
				if upd {
					return s.ToUpdatableSlice()
				}
				return s.ToCompactSlice()
			}})
	}
	fs = append(fs, imFmt{name: "hll", seedAt: -1, pmask: 0x3f, valid: bset(2, 3, 10), vers: bset(1), strict: true, rds: imHllReaders,
		mk: func(d *imDrv, n int) ([]byte, error) {
			u, err := hll.NewUnion(pick(d.Rng, 10, 11))
			if err != nil {
				return nil, err
			}
			for i := 0; i < 2; i++ {
				s, err := d.hll(n)
				if err != nil {
					return nil, err
				}
				_ = u.UpdateSketch(s) // may be refused
			}
			if d.Rng.Intn(2) == 0 {
				return u.ToCompactSlice()
			}
			return u.ToUpdatableSlice()
		}})
	fs = append(fs, imFmt{name: "cpc", seedAt: 6, pmask: 0xff, valid: bset(2, 4, 6, 8, 10), vers: bset(1), strict: true,
		mk: func(d *imDrv, n int) ([]byte, error) {
			r := d.Rng
			lg := pick(r, 4, 5, 6, 8)
			s, err := cpc.NewCpcSketch(lg, imSeed)
			if err != nil {
				return nil, err
			}
			b := r.Int63()
			for i := 0; i < n && err == nil; i++ {
				err = s.UpdateInt64(b + int64(i))
			}
			if err == nil && r.Intn(3) == 0 {
				var u cpc.CpcUnion
				if u, err = cpc.NewCpcUnionSketch(lg, imSeed); err == nil {
					if err = u.Update(s); err == nil {
						s, err = u.GetResult()
					}
				}
			}
			if err != nil {
				return nil, err
			}
			return s.ToCompactSlice()
		},
		rds: []imRead{
			{name: "FromSlice", fn: func(b []byte, sd uint64) error { return errOf(cpc.NewCpcSketchFromSlice(b, sd)) }},
			{name: "Wrapper", fn: func(b []byte, sd uint64) error {
				w, err := cpc.NewCpcWrapperFromBytes(b)
				if err != nil {
					return err
				}
				w.GetEstimate()
				w.GetLowerBound(2)
				w.GetUpperBound(2)
				if sd != imSeed { // it does not look at the seed
					return fmt.Errorf("seed")
				}
				return nil
			}},
		}})
	for _, k := range tuKinds {
		k := k
		f := imFmt{name: "tuple", seedAt: 6, pmask: 0xff, valid: bset(1, 2, 3), vers: bset(1, 3),
			mk: func(d *imDrv, n int) ([]byte, error) { return d.tuple(k, n) }, rds: tuReaders(k),
			noSeed: func(b []byte) bool { return b[5]&4 != 0 }}
		if k.name() == "nums" {
			f.name, f.valid, f.vers, f.preAny = "numbers", bset(1), bset(1), true
			f.noSeed = func(b []byte) bool { return b[4]&8 == 0 }
		}
		fs = append(fs, f)
	}
	type mr struct {
		m func(d *imDrv, n int) ([]byte, error)
		r []imRead
	}
	two := func(m func(d *imDrv, n int) ([]byte, error), r []imRead) mr { return mr{m, r} }
	flt := func(d *imDrv, i int) float64 { return float64(d.Rng.Intn(1000)) / 8 }
	lng := func(d *imDrv, i int) int64 { return d.Rng.Int63() >> d.Rng.Intn(60) }
	for _, x := range []mr{
		two(imKll[float64](common.ItemSketchDoubleComparator(false), common.ItemSketchDoubleSerDe{}, flt)),
		two(imKll[float32](common.ItemSketchFloatComparator(false), common.ItemSketchFloatSerDe{}, func(d *imDrv, i int) float32 { return float32(flt(d, i)) })),
		two(imKll[int64](common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{}, lng)),
		two(imKll[string](common.ItemSketchStringComparator(false), common.ItemSketchStringSerDe{}, imStr)),
	} {
		fs = append(fs, imFmt{name: "kll", seedAt: -1, pmask: 0xff, valid: bset(2, 5), vers: bset(1, 2), strict: true, mk: x.m, rds: x.r})
	}
	for _, x := range []mr{
		two(imFreq[int64](freqLongHasher(), common.ItemSketchLongSerDe{}, lng)),
		two(imFreq[float64](common.ItemSketchDoubleHasher{}, common.ItemSketchDoubleSerDe{}, flt)),
		two(imFreq[string](common.ItemSketchStringHasher{}, common.ItemSketchStringSerDe{}, imStr)),
	} {
		fs = append(fs, imFmt{name: "items", seedAt: -1, pmask: 0x3f, valid: bset(1, 4), vers: bset(1), strict: true, mk: x.m, rds: x.r})
	}
	fs = append(fs, imSampling[int64](common.ItemSketchLongSerDe{}, lng)...)
	fs = append(fs, imSampling[float64](common.ItemSketchDoubleSerDe{}, flt)...)
	fs = append(fs, imSampling[string](common.ItemSketchStringSerDe{}, imStr)...)
	return fs
}

func freqLongHasher() common.ItemSketchHasher[int64] { return &longHasher{} }

type longHasher struct{}

func (longHasher) Hash(x int64) uint64 {
	z := uint64(x) + 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

var imTdReaders = []imRead{
	{name: "DecodeDouble", fn: func(b []byte, _ uint64) error { return errOf(tdigest.DecodeDouble(b)) }},
	{name: "Decoder", fn: func(b []byte, _ uint64) error {
		d := tdigest.NewDoubleDecoder()
		return errOf(d.Decode(bytes.NewReader(b)))
	}},
	{name: "Decoder/slow", fn: func(b []byte, _ uint64) error {
		d := tdigest.NewDoubleDecoder()
		return errOf(d.Decode(&oneByteReader{b: b, max: 3}))
	}},
}

// tdOld writes the two layouts of the reference implementation.
func tdOld(d *imDrv, n int) []byte {
	n = min(max(n, 1), 60)
	b := []byte{0, 0, 0, byte(1 + d.Rng.Intn(2))}
	be := binary.BigEndian
	f64 := func(x float64) { b = be.AppendUint64(b, math.Float64bits(x)) }
	f32 := func(x float64) { b = be.AppendUint32(b, math.Float32bits(float32(x))) }
	f64(0)
	f64(float64(n))
	num := f64
	if b[3] == 1 {
		f64(100)
		b = be.AppendUint32(b, uint32(n))
	} else {
		num = f32
		f32(100)
		b = be.AppendUint32(b, 0)
		b = be.AppendUint16(b, uint16(n))
	}
	for i := 0; i < n; i++ {
		num(1)
		num(float64(i) + .5)
	}
	return b
}

// exact copies b into a slice with no room behind it.
func exact(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c[:len(b):len(b)]
}

// outcome of a read: ok, refused or crash
func (d *imDrv) try(rd imRead, b []byte, seed uint64) string {
	err := core.Guard(func() error { return rd.fn(exact(b), seed) })
	if err == nil {
		return "ok"
	}
	if _, bad := err.(*core.PanicErr); bad {
		return "crash"
	}
	return "refused"
}

func (d *imDrv) run(f imFmt, all []imFmt, n int) {
	r := d.Rng
	d.Begin(Ev{})
	var img []byte
	hdr := []int{}
	d.Do("image", 0, Ev{"fmt": f.name, "len": 0, "hdr": hdr}, func(ev Ev) error {
		b, err := f.mk(d, n)
		if err != nil {
			return err
		}
		img = b
		for i := 0; i < 8 && i < len(b); i++ {
			hdr = append(hdr, int(b[i]))
		}
		ev["len"], ev["hdr"] = len(b), ints(hdr)
		return nil
	})
	if img == nil || d.Dead {
		return
	}
	for _, rd := range f.rds {
		d.Do("prefixes", 0, Ev{"fmt": f.name, "rd": rd.name, "len": len(img), "full": "", "runs": []any{}}, func(ev Ev) error {
			ev["full"] = d.try(rd, img, imSeed)
			runs := []any{}
			from, cur, at := 0, "", 0
			whole := "-"
			if rd.canon != nil {
				whole, _ = rd.canon(img)
			}
			for n := 0; n <= len(img); n++ {
				o := ""
				if n < len(img) {
					if len(img) > 3000 && n > 400 && n < len(img)-400 && r.Intn(8) > 0 {
						continue // of a long image
					}
					o = d.try(rd, img[:n], imSeed)
					if o == "ok" && rd.canon != nil {
						if c, err := rd.canon(img[:n]); err == nil && c == whole {
							o = "same"
						}
					}
				}
				if o != cur {
					if cur != "" {
						runs = append(runs, []any{from, at, cur})
					}
					from, cur = n, o
				}
				at = n
			}
			ev["runs"] = runs
			return nil
		})
		type flt struct {
			field string
			at    int
			vals  []byte
		}
		fl := []flt{{"family", 2, nil}, {"version", 1, nil}}
		for v := 0; v < 256; v++ {
			x := byte(v)
			if x != img[2] {
				fl[0].vals = append(fl[0].vals, x)
			}
			if !f.vers[x] {
				fl[1].vals = append(fl[1].vals, x)
			}
		}
		if !f.preAny {
			var vs []byte
			for v := 0; v < 256; v++ {
				x := byte(v)
				if x&^f.pmask == img[0]&^f.pmask && x != img[0] && (f.strict || !f.valid[x&f.pmask]) {
					vs = append(vs, x)
				}
			}
			fl = append(fl, flt{"preamble", 0, vs})
		}
		for _, x := range fl {
			d.Do("header", 0, Ev{"fmt": f.name, "rd": rd.name, "field": x.field, "outs": []any{}}, func(ev Ev) error {
				outs := []any{}
				seen := map[string]bool{}
				for _, v := range x.vals {
					b := append([]byte(nil), img...)
					b[x.at] = v
					if o := d.try(rd, b, imSeed); !seen[o] {
						seen[o] = true
						outs = append(outs, []any{int(v), o})
					}
				}
				ev["outs"] = outs
				return nil
			})
		}
		if f.seedAt >= 0 && (f.noSeed == nil || !f.noSeed(img)) {
			d.Do("header", 0, Ev{"fmt": f.name, "rd": rd.name, "field": "seed", "outs": []any{}}, func(ev Ev) error {
				outs := []any{[]any{1, d.try(rd, img, imOther)}}
				if rd.name != "Wrapper" {
					b := append([]byte(nil), img...)
					b[f.seedAt] ^= 1 << r.Intn(8)
					outs = append(outs, []any{2, d.try(rd, b, imSeed)})
				}
				ev["outs"] = outs
				return nil
			})
		}
	}
	// as another format
	for i := 0; i < 6; i++ {
		g := pick(r, all...)
		if g.fam() == f.fam() {
			continue
		}
		rd := pick(r, g.rds...)
		d.Do("foreign", 0, Ev{"fmt": f.name, "as": g.name, "rd": rd.name, "out": ""}, func(ev Ev) error {
			ev["out"] = d.try(rd, img, imSeed)
			return nil
		})
	}
}

func imJobs(cfg *Cfg) []core.Job {
	all := imFormats()
	var jobs []core.Job
	ns := []int{1, 0, 2, 3, 8, 20, 60, 300}
	for i := 0; i < cfg.N(40, 600); i++ {
		for _, f := range all {
			jobs = append(jobs, core.Job{Name: "image", Run: func(s *Scn) { (&imDrv{s, cfg}).run(f, all, ns[i%len(ns)]) }})
		}
	}
	return jobs
}
