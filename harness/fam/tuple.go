package fam

import (
	"encoding/hex"
	"strings"

	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"github.com/cespare/xxhash/v2"
	"io"
	"math"
	"sort"
	"strconv"

	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verif/harness/core"
)

// ---------------------------------------------------------------- summaries
//
// Every summary dumps to a sequence of integers; how updates and policies act
// on that sequence is what the specification says per kind.

// listSum records every value offered, in order, by mutation.
type listSum struct{ v []int }

func (s *listSum) Reset()               { s.v = s.v[:0] }
func (s *listSum) Clone() tuple.Summary { return &listSum{append([]int(nil), s.v...)} }
func (s *listSum) Update(x int)         { s.v = append(s.v, x) }

type listPolicy struct{}

func (listPolicy) Apply(in, inc *listSum) { in.v = append(in.v, inc.v...) }

// valSum does the same as an immutable value.
type valSum struct{ v string }

func (s valSum) Reset()               {}
func (s valSum) Clone() tuple.Summary { return s }
func (s valSum) Update(int)           {}

func valUpd(s valSum, x int) valSum { return valSum{s.v + strconv.Itoa(x) + ","} }
func valMerge(a, b valSum) valSum   { return valSum{a.v + b.v} }

func listUpdF(s *listSum, x int) *listSum { s.v = append(s.v, x); return s }
func listMergeF(a, b *listSum) *listSum   { a.v = append(a.v, b.v...); return a }
func strDump(s *tuple.ArrayOfStringsSummary) []int {
	return strsDump(func(w io.Writer) error { return tuple.ArrayOfStringsSummaryWriter(w, s) })
}

func inlineDump(s tuple.ArrayOfStringsInlineSummary) []int {
	return strsDump(func(w io.Writer) error { return tuple.ArrayOfStringsInlineSummaryWriter(w, s) })
}

// strsDump reads the written summary: size, number of strings, the strings.
func strsDump(wr func(io.Writer) error) []int {
	var b bytes.Buffer
	if err := wr(&b); err != nil {
		return []int{-1}
	}
	if b.Len() < 5 || int(binary.LittleEndian.Uint32(b.Bytes())) != b.Len() {
		return []int{-3}
	}
	p := b.Bytes()[4:]
	n := int(p[0])
	p = p[1:]
	out := []int{}
	for i := 0; i < n; i++ {
		l := binary.LittleEndian.Uint32(p)
		x, err := strconv.Atoi(string(p[4 : 4+l]))
		if err != nil {
			x = -2
		}
		out = append(out, x)
		p = p[4+l:]
	}
	return out
}

type strPolicy struct{}

func (strPolicy) Apply(in, inc *tuple.ArrayOfStringsSummary) {
	var vs []string
	for _, x := range append(strDump(in), strDump(inc)...) {
		vs = append(vs, strconv.Itoa(x))
	}
	in.Update(vs)
}

// inlinePolicy serves where only the keys matter: a value cannot be changed in place.
type inlinePolicy struct{}

func (inlinePolicy) Apply(in, inc tuple.ArrayOfStringsInlineSummary) {}

func inlineMerge(a, b tuple.ArrayOfStringsInlineSummary) tuple.ArrayOfStringsInlineSummary {
	var vs []string
	for _, x := range append(inlineDump(a), inlineDump(b)...) {
		vs = append(vs, strconv.Itoa(x))
	}
	return tuple.ArrayOfStringsInlineSummaryUpdateFunc(tuple.NewArrayOfStringsInlineSummary(), vs)
}

func intsWriter(w io.Writer, v []int) error {
	b := binary.LittleEndian.AppendUint32(nil, uint32(len(v)))
	for _, x := range v {
		b = binary.LittleEndian.AppendUint32(b, uint32(x))
	}
	_, err := w.Write(b)
	return err
}
func intsReader(r io.Reader) ([]int, error) {
	var n uint32
	if err := binary.Read(r, binary.LittleEndian, &n); err != nil {
		return nil, err
	}
	v := make([]int, 0, 8)
	for i := uint32(0); i < n; i++ {
		var x uint32
		if err := binary.Read(r, binary.LittleEndian, &x); err != nil {
			return nil, err
		}
		v = append(v, int(x))
	}
	return v, nil
}

// ---------------------------------------------------------------- kinds

// tuMeta is the summary-independent face of any tuple sketch.
type tuMeta interface {
	IsEmpty() bool
	Theta64() uint64
	NumRetained() uint32
	SeedHash() (uint16, error)
	IsOrdered() bool
	IsEstimationMode() bool
	Estimate() float64
	Theta() float64
	LowerBound(uint8) (float64, error)
	UpperBound(uint8) (float64, error)
}

type tuSubset interface {
	LowerBoundFromSubset(uint8, uint32) (float64, error)
	UpperBoundFromSubset(uint8, uint32) (float64, error)
}

type tuUpd interface {
	feed(k thKey, v int) error
	trim()
	reset()
}

// tuKind builds and combines the sketches of one summary kind.
type tuKind interface {
	name() string
	newUpd(lgk uint8, rf theta.ResizeFactor, p float32, seed uint64) (*tuSk, error)
	compact(o *tuSk, how int, ord bool) (*tuSk, error)
	filter(o *tuSk, mod, rem int) (*tuSk, error)
	newUnion(lgk uint8, rf theta.ResizeFactor, p float32, seed uint64) (tuAcc, error)
	newInter(seed uint64) tuAcc
	anb(a, b *tuSk, seed uint64, ord bool) (*tuSk, error)
	anbTheta(a *tuSk, b theta.Sketch, seed uint64, ord bool) (*tuSk, error)
	fromTheta(s theta.Sketch, v int, ord bool) (*tuSk, error)
	jac(a, b *tuSk, seed uint64) (lb, est, ub float64, eq bool, sim, dis []bool, err error)
	encode(o *tuSk, w io.Writer) error
	decode(b []byte, r io.Reader, seed uint64) (*tuSk, error)
}

type tuAcc interface {
	update(o *tuSk) error
	result(ord bool) (*tuSk, error)
	reset()
	has() bool
}

type tuSk struct {
	kind tuKind
	m    tuMeta
	raw  any
	u    tuUpd // update sketches only
	all  func(func(h uint64, v []int))
	th   theta.Sketch // plain theta sketches
}

type tuObj struct {
	*tuSk
	sd [2]uint64
}

func (o *tuObj) Project() Ev { return tuProj(o.tuSk, o.sd) }

func (o *tuObj) Show() { words(o.raw) }

func tuProj(o *tuSk, seeds [2]uint64) Ev {
	type kv struct {
		h uint64
		v []int
	}
	var es []kv
	sorted := true
	last := uint64(0)
	o.all(func(h uint64, v []int) {
		if h <= last {
			sorted = false
		}
		last = h
		es = append(es, kv{h, append([]int(nil), v...)})
	})
	sh, err := o.m.SeedHash()
	sid := 9
	if err == nil {
		for i, sd := range seeds {
			if sh == SeedHash16(sd) {
				sid = i
			}
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].h < es[j].h })
	set, sums := []H{}, core.HM{}
	for _, e := range es {
		set = append(set, H(e.h))
		sums[e.h] = ints(e.v)
	}
	return Ev{"emp": o.m.IsEmpty(), "theta": H(o.m.Theta64()), "set": set, "m": sums, "n": int(o.m.NumRetained()),
		"ord": o.m.IsOrdered(), "srt": sorted, "em": o.m.IsEstimationMode(), "sid": sid}
}

type tuAccObj struct {
	a     tuAcc
	sd    [2]uint64
	union bool
}

func (o *tuAccObj) Project() Ev {
	if !o.a.has() {
		e := thErrProj()
		e["m"] = core.HM{}
		return e
	}
	r, err := o.a.result(true)
	if err != nil {
		e := thErrProj()
		e["m"] = core.HM{}
		return e
	}
	return tuProj(r, o.sd)
}

func plainTheta(s theta.Sketch) *tuSk {
	return &tuSk{m: s, raw: s, th: s, all: func(f func(uint64, []int)) {
		for h := range s.All() {
			f(h, nil)
		}
	}}
}

// feeder is the typed update API shared by generic and array-of-numbers sketches.
type feeder[V any] interface {
	UpdateUint64(uint64, V) error
	UpdateInt64(int64, V) error
	UpdateUint32(uint32, V) error
	UpdateInt32(int32, V) error
	UpdateUint16(uint16, V) error
	UpdateInt16(int16, V) error
	UpdateUint8(uint8, V) error
	UpdateInt8(int8, V) error
	UpdateFloat64(float64, V) error
	UpdateFloat32(float32, V) error
	UpdateString(string, V) error
	UpdateBytes([]byte, V) error
	Trim()
	Reset()
}

type upd[V any] struct {
	f   feeder[V]
	val func(int) V
}

func (u *upd[V]) trim()  { u.f.Trim() }
func (u *upd[V]) reset() { u.f.Reset() }
func (u *upd[V]) feed(k thKey, x int) error {
	v := u.val(x)
	switch k.kind {
	case "u64":
		return u.f.UpdateUint64(uint64(k.i), v)
	case "i64":
		return u.f.UpdateInt64(k.i, v)
	case "u32":
		return u.f.UpdateUint32(uint32(k.i), v)
	case "i32":
		return u.f.UpdateInt32(int32(k.i), v)
	case "u16":
		return u.f.UpdateUint16(uint16(k.i), v)
	case "i16":
		return u.f.UpdateInt16(int16(k.i), v)
	case "u8":
		return u.f.UpdateUint8(uint8(k.i), v)
	case "i8":
		return u.f.UpdateInt8(int8(k.i), v)
	case "f64":
		return u.f.UpdateFloat64(k.f, v)
	case "f32":
		return u.f.UpdateFloat32(float32(k.f), v)
	case "str":
		return u.f.UpdateString(k.s, v)
	case "byt":
		b := []byte(k.s)
		defer core.Keep(b)()
		return u.f.UpdateBytes(b, v)
	}
	panic("kind")
}

// ---- generic kind

type gKind[S tuple.UpdatableSummary[V], V any] struct {
	nm     string
	mk     func() S
	updF   func(S, V) S
	pol    tuple.Policy[S]
	mergeF func(S, S) S
	val    func(int) V
	dump   func(S) []int
	wr     tuple.SummaryWriter[S]
	rd     tuple.SummaryReader[S]
}

func (g *gKind[S, V]) name() string { return g.nm }
func (g *gKind[S, V]) wrap(s tuple.Sketch[S]) *tuSk {
	o := &tuSk{kind: g, m: s, raw: s, all: func(f func(uint64, []int)) {
		for h, x := range s.All() {
			f(h, g.dump(x))
		}
	}}
	if u, ok := s.(*tuple.UpdateSketch[S, V]); ok {
		o.u = &upd[V]{u, g.val}
	}
	return o
}
func (g *gKind[S, V]) wrapC(s *tuple.CompactSketch[S], err error) (*tuSk, error) {
	if err != nil {
		return nil, err
	}
	return g.wrap(s), nil
}
func (g *gKind[S, V]) sk(o *tuSk) tuple.Sketch[S] { return o.raw.(tuple.Sketch[S]) }

func (g *gKind[S, V]) newUpd(lgk uint8, rf theta.ResizeFactor, p float32, seed uint64) (*tuSk, error) {
	opts := []tuple.UpdateSketchOptionFunc{tuple.WithUpdateSketchLgK(lgk), tuple.WithUpdateSketchResizeFactor(rf),
		tuple.WithUpdateSketchP(p), tuple.WithUpdateSketchSeed(seed)}
	var s *tuple.UpdateSketch[S, V]
	var err error
	if g.updF != nil {
		s, err = tuple.NewUpdateSketchWithSummaryUpdateFunc[S, V](g.mk, g.updF, opts...)
	} else {
		s, err = tuple.NewUpdateSketch[S, V](g.mk, opts...)
	}
	if err != nil {
		return nil, err
	}
	return g.wrap(s), nil
}
func (g *gKind[S, V]) compact(o *tuSk, how int, ord bool) (*tuSk, error) {
	if u, ok := o.raw.(*tuple.UpdateSketch[S, V]); ok && how == 0 {
		return g.wrapC(u.Compact(ord))
	}
	return g.wrapC(tuple.NewCompactSketch[S](g.sk(o), ord))
}
func (g *gKind[S, V]) filter(o *tuSk, mod, rem int) (*tuSk, error) {
	pred := func(s S) bool {
		n := 0
		for _, x := range g.dump(s) {
			n += x
		}
		return n%mod == rem
	}
	if u, ok := o.raw.(*tuple.UpdateSketch[S, V]); ok {
		return g.wrapC(u.Filter(pred))
	}
	return g.wrapC(o.raw.(*tuple.CompactSketch[S]).Filter(pred))
}

type gUnion[S tuple.UpdatableSummary[V], V any] struct {
	g    *gKind[S, V]
	u    *tuple.Union[S]
	turn int // alternates the two ways to an ordered result
}

func (a *gUnion[S, V]) update(o *tuSk) error { return a.u.Update(a.g.sk(o)) }
func (a *gUnion[S, V]) result(ord bool) (*tuSk, error) {
	if a.turn++; ord && a.turn%2 == 0 {
		return a.g.wrapC(a.u.OrderedResult())
	}
	return a.g.wrapC(a.u.Result(ord))
}
func (a *gUnion[S, V]) reset()    { a.u.Reset() }
func (a *gUnion[S, V]) has() bool { return true }

func (g *gKind[S, V]) newUnion(lgk uint8, rf theta.ResizeFactor, p float32, seed uint64) (tuAcc, error) {
	opts := []tuple.UnionOptionFunc{tuple.WithUnionLgK(lgk), tuple.WithUnionResizeFactor(rf), tuple.WithUnionSketchP(p), tuple.WithUnionSeed(seed)}
	var u *tuple.Union[S]
	var err error
	if g.mergeF != nil {
		u, err = tuple.NewUnionWithSummaryMergeFunc[S](g.mergeF, opts...)
	} else {
		u, err = tuple.NewUnion[S](g.pol, opts...)
	}
	if err != nil {
		return nil, err
	}
	return &gUnion[S, V]{g: g, u: u}, nil
}

type gInter[S tuple.UpdatableSummary[V], V any] struct {
	g    *gKind[S, V]
	i    *tuple.Intersection[S]
	turn int // alternates the two ways to an ordered result
}

func (a *gInter[S, V]) update(o *tuSk) error { return a.i.Update(a.g.sk(o)) }
func (a *gInter[S, V]) result(ord bool) (*tuSk, error) {
	if a.turn++; ord && a.turn%2 == 0 {
		return a.g.wrapC(a.i.OrderedResult())
	}
	return a.g.wrapC(a.i.Result(ord))
}
func (a *gInter[S, V]) reset()    {}
func (a *gInter[S, V]) has() bool { return a.i.HasResult() }

func (g *gKind[S, V]) newInter(seed uint64) tuAcc {
	if g.mergeF != nil {
		return &gInter[S, V]{g: g, i: tuple.NewIntersectionWithSummaryMergeFunc[S](g.mergeF, tuple.WithIntersectionSeed(seed))}
	}
	return &gInter[S, V]{g: g, i: tuple.NewIntersection[S](g.pol, tuple.WithIntersectionSeed(seed))}
}
func (g *gKind[S, V]) anb(a, b *tuSk, seed uint64, ord bool) (*tuSk, error) {
	return g.wrapC(tuple.ANotB[S](g.sk(a), g.sk(b), seed, ord))
}
func (g *gKind[S, V]) anbTheta(a *tuSk, b theta.Sketch, seed uint64, ord bool) (*tuSk, error) {
	return g.wrapC(tuple.TupleANotThetaB[S](g.sk(a), b, seed, ord))
}
func (g *gKind[S, V]) fromTheta(s theta.Sketch, v int, ord bool) (*tuSk, error) {
	x := g.mk()
	if g.updF != nil {
		x = g.updF(x, g.val(v))
	} else {
		x.Update(g.val(v))
	}
	return g.wrapC(tuple.NewCompactSketchFromThetaSketch[S](s, x, ord))
}
func (g *gKind[S, V]) jac(a, b *tuSk, seed uint64) (lb, est, ub float64, eq bool, sim, dis []bool, err error) {
	if g.pol == nil {
		return 0, 0, 0, false, nil, nil, errNA
	}
	j, err := tuple.Jaccard[S](g.sk(a), g.sk(b), g.pol, seed)
	if err != nil {
		return
	}
	if sim, dis, err = similar(j.LowerBound, j.UpperBound,
		func(x float64) (bool, error) { return tuple.IsSimilar[S](g.sk(a), g.sk(b), g.pol, x, seed) },
		func(x float64) (bool, error) { return tuple.IsDissimilar[S](g.sk(a), g.sk(b), g.pol, x, seed) }); err != nil {
		return
	}
	eq, err = tuple.IsExactlyEqual[S](g.sk(a), g.sk(b), g.pol, seed)
	return j.LowerBound, j.Estimate, j.UpperBound, eq, sim, dis, err
}

var errNA = errors.New("not applicable")

func (g *gKind[S, V]) encode(o *tuSk, w io.Writer) error {
	e := tuple.NewEncoder[S](w, g.wr)
	return e.Encode(o.raw.(*tuple.CompactSketch[S]))
}
func (g *gKind[S, V]) decode(b []byte, r io.Reader, seed uint64) (*tuSk, error) {
	if r != nil {
		d := tuple.NewDecoder[S](seed, g.rd)
		return g.wrapC(d.Decode(r))
	}
	return g.wrapC(tuple.Decode[S](b, seed, g.rd))
}

// ---- array of numbers

type aKind[N tuple.Number] struct{ nm string }

type numPolicy[N tuple.Number] struct{}

func (numPolicy[N]) Apply(in, inc *tuple.ArrayOfNumbersSummary[N]) {
	a, b := in.Values(), inc.Values()
	a[0] = N((2*int(a[0]) + int(b[0])) % 97)
	a[1] = N((int(a[1]) + int(b[1])) % 97)
}

func (g *aKind[N]) name() string { return g.nm }
func (g *aKind[N]) wrap(s tuple.ArrayOfNumbersSketch[N]) *tuSk {
	o := &tuSk{kind: g, m: s, raw: s, all: func(f func(uint64, []int)) {
		for h, x := range s.All() {
			v := []int{}
			for _, y := range x.Values() {
				v = append(v, int(y))
			}
			f(h, v)
		}
	}}
	if u, ok := s.(*tuple.ArrayOfNumbersUpdateSketch[N]); ok {
		o.u = &upd[[]N]{u, func(x int) []N { return []N{N(x), 1} }}
	}
	return o
}
func (g *aKind[N]) wrapC(s *tuple.ArrayOfNumbersCompactSketch[N], err error) (*tuSk, error) {
	if err != nil {
		return nil, err
	}
	return g.wrap(s), nil
}
func (g *aKind[N]) sk(o *tuSk) tuple.ArrayOfNumbersSketch[N] {
	return o.raw.(tuple.ArrayOfNumbersSketch[N])
}
func (g *aKind[N]) newUpd(lgk uint8, rf theta.ResizeFactor, p float32, seed uint64) (*tuSk, error) {
	s, err := tuple.NewArrayOfNumbersUpdateSketch[N](2, tuple.WithUpdateSketchLgK(lgk), tuple.WithUpdateSketchResizeFactor(rf),
		tuple.WithUpdateSketchP(p), tuple.WithUpdateSketchSeed(seed))
	if err != nil {
		return nil, err
	}
	return g.wrap(s), nil
}
func (g *aKind[N]) compact(o *tuSk, how int, ord bool) (*tuSk, error) {
	if u, ok := o.raw.(*tuple.ArrayOfNumbersUpdateSketch[N]); ok && how == 0 {
		return g.wrapC(u.Compact(ord))
	}
	return g.wrapC(tuple.NewArrayOfNumbersCompactSketch[N](g.sk(o), ord))
}
func (g *aKind[N]) filter(o *tuSk, mod, rem int) (*tuSk, error) { return nil, errNA }

type aUnion[N tuple.Number] struct {
	g    *aKind[N]
	u    *tuple.ArrayOfNumbersSketchUnion[N]
	turn int // alternates the two ways to an ordered result
}

func (a *aUnion[N]) update(o *tuSk) error { return a.u.Update(a.g.sk(o)) }
func (a *aUnion[N]) result(ord bool) (*tuSk, error) {
	if a.turn++; ord && a.turn%2 == 0 {
		return a.g.wrapC(a.u.OrderedResult())
	}
	return a.g.wrapC(a.u.Result(ord))
}
func (a *aUnion[N]) reset()    { a.u.Reset() }
func (a *aUnion[N]) has() bool { return true }
func (g *aKind[N]) newUnion(lgk uint8, rf theta.ResizeFactor, p float32, seed uint64) (tuAcc, error) {
	u, err := tuple.NewArrayOfNumbersSketchUnion[N](numPolicy[N]{}, 2, tuple.WithUnionLgK(lgk), tuple.WithUnionResizeFactor(rf), tuple.WithUnionSketchP(p), tuple.WithUnionSeed(seed))
	if err != nil {
		return nil, err
	}
	return &aUnion[N]{g: g, u: u}, nil
}

type aInter[N tuple.Number] struct {
	g    *aKind[N]
	i    *tuple.ArrayOfNumbersSketchIntersection[N]
	turn int // alternates the two ways to an ordered result
}

func (a *aInter[N]) update(o *tuSk) error { return a.i.Update(a.g.sk(o)) }
func (a *aInter[N]) result(ord bool) (*tuSk, error) {
	if a.turn++; ord && a.turn%2 == 0 {
		return a.g.wrapC(a.i.OrderedResult())
	}
	return a.g.wrapC(a.i.Result(ord))
}
func (a *aInter[N]) reset()    {}
func (a *aInter[N]) has() bool { return a.i.HasResult() }
func (g *aKind[N]) newInter(seed uint64) tuAcc {
	return &aInter[N]{g: g, i: tuple.NewArrayOfNumbersSketchIntersection[N](numPolicy[N]{}, 2, tuple.WithIntersectionSeed(seed))}
}
func (g *aKind[N]) anb(a, b *tuSk, seed uint64, ord bool) (*tuSk, error) {
	return g.wrapC(tuple.ArrayOfNumbersSketchANotB[N](g.sk(a), g.sk(b), seed, ord))
}
func (g *aKind[N]) anbTheta(a *tuSk, b theta.Sketch, seed uint64, ord bool) (*tuSk, error) {
	return nil, errNA
}
func (g *aKind[N]) fromTheta(s theta.Sketch, v int, ord bool) (*tuSk, error) { return nil, errNA }
func (g *aKind[N]) jac(a, b *tuSk, seed uint64) (lb, est, ub float64, eq bool, sim, dis []bool, err error) {
	sa, sb := g.sk(a).(tuple.Sketch[*tuple.ArrayOfNumbersSummary[N]]), g.sk(b).(tuple.Sketch[*tuple.ArrayOfNumbersSummary[N]])
	j, err := tuple.Jaccard(sa, sb, numPolicy[N]{}, seed)
	if err != nil {
		return
	}
	if sim, dis, err = similar(j.LowerBound, j.UpperBound,
		func(x float64) (bool, error) { return tuple.IsSimilar(sa, sb, numPolicy[N]{}, x, seed) },
		func(x float64) (bool, error) { return tuple.IsDissimilar(sa, sb, numPolicy[N]{}, x, seed) }); err != nil {
		return
	}
	eq, err = tuple.IsExactlyEqual(sa, sb, numPolicy[N]{}, seed)
	return j.LowerBound, j.Estimate, j.UpperBound, eq, sim, dis, err
}
func (g *aKind[N]) encode(o *tuSk, w io.Writer) error {
	e := tuple.NewArrayOfNumbersSketchEncoder[N](w)
	return e.Encode(o.raw.(*tuple.ArrayOfNumbersCompactSketch[N]))
}
func (g *aKind[N]) decode(b []byte, r io.Reader, seed uint64) (*tuSk, error) {
	if r != nil {
		d := tuple.NewArrayOfNumbersSketchDecoderDecoder[N](seed)
		return g.wrapC(d.Decode(r))
	}
	return g.wrapC(tuple.DecodeArrayOfNumbersCompactSketch[N](b, seed))
}

func idInt(x int) int { return x }

var tuKinds = []tuKind{
	&gKind[*listSum, int]{nm: "list", mk: func() *listSum { return &listSum{} }, pol: listPolicy{}, val: idInt,
		dump: func(s *listSum) []int { return s.v },
		wr:   func(w io.Writer, s *listSum) error { return intsWriter(w, s.v) },
		rd:   func(r io.Reader) (*listSum, error) { v, err := intsReader(r); return &listSum{v}, err }},
	&gKind[*listSum, int]{nm: "listf", mk: func() *listSum { return &listSum{} }, pol: listPolicy{}, val: idInt,
		updF: listUpdF, mergeF: listMergeF,
		dump: func(s *listSum) []int { return s.v },
		wr:   func(w io.Writer, s *listSum) error { return intsWriter(w, s.v) },
		rd:   func(r io.Reader) (*listSum, error) { v, err := intsReader(r); return &listSum{v}, err }},
	&gKind[valSum, int]{nm: "val", mk: func() valSum { return valSum{} }, updF: valUpd, mergeF: valMerge, val: idInt,
		dump: valDump,
		wr:   func(w io.Writer, s valSum) error { return intsWriter(w, valDump(s)) },
		rd: func(r io.Reader) (valSum, error) {
			v, err := intsReader(r)
			s := valSum{}
			for _, x := range v {
				s = valUpd(s, x)
			}
			return s, err
		}},
	&gKind[*tuple.ArrayOfStringsSummary, []string]{nm: "strs", mk: tuple.NewArrayOfStringsSummaryFunc, pol: strPolicy{},
		val: func(x int) []string { return []string{strconv.Itoa(x)} }, dump: strDump,
		wr: tuple.ArrayOfStringsSummaryWriter, rd: tuple.ArrayOfStringsSummaryReader},
	&gKind[tuple.ArrayOfStringsInlineSummary, []string]{nm: "strs", mk: tuple.NewArrayOfStringsInlineSummary,
		updF: tuple.ArrayOfStringsInlineSummaryUpdateFunc, mergeF: inlineMerge, pol: inlinePolicy{},
		val: func(x int) []string { return []string{strconv.Itoa(x)} }, dump: inlineDump,
		wr: tuple.ArrayOfStringsInlineSummaryWriter, rd: tuple.ArrayOfStringsInlineSummaryReader},
	&aKind[int64]{"nums"},
	&aKind[float64]{"nums"},
	&aKind[float32]{"nums"},
	&aKind[int32]{"nums"},
}

func valDump(s valSum) []int {
	out := []int{}
	cur := 0
	for i := 0; i < len(s.v); i++ {
		if s.v[i] == ',' {
			out = append(out, cur)
			cur = 0
		} else {
			cur = cur*10 + int(s.v[i]-'0')
		}
	}
	return out
}

// ---------------------------------------------------------------- driver

type tuDrv struct {
	*thDrv
	kind tuKind
}

func newTuDrv(s *Scn, cfg *Cfg) *tuDrv {
	t := &tuDrv{thDrv: newThDrv(s, cfg)}
	t.kind = pick(s.Rng, tuKinds...)
	return t
}

func (t *tuDrv) begin() {
	t.Begin(Ev{"max": H(theta.MaxTheta), "ctl": H(0), "kind": t.kind.name()})
}
func (t *tuDrv) obj(o *tuSk) *tuObj { return &tuObj{o, t.seeds} }
func (t *tuDrv) get(h int) *tuObj   { return t.Get(h).(*tuObj) }

func (t *tuDrv) newUpd(h int, lgk uint8, p float32, sid int) {
	rf := pick(t.Rng, theta.ResizeX1, theta.ResizeX2, theta.ResizeX4, theta.ResizeX8)
	t.Do("newu", h, Ev{"k": 1 << lgk, "t0": H(startTheta(p)), "sidx": sid, "rf": int(rf)}, func(ev Ev) error {
		o, err := t.kind.newUpd(lgk, rf, p, t.seeds[sid])
		if err != nil {
			return err
		}
		t.Put(h, t.obj(o))
		return nil
	})
}

// a plain theta sketch as an operand
func (t *tuDrv) newTheta(h int, keys []thKey, lgk uint8, p float32, sid int) {
	rf := pick(t.Rng, theta.ResizeX1, theta.ResizeX2, theta.ResizeX4, theta.ResizeX8)
	ord := t.Rng.Intn(3)
	t.Do("newth", h, Ev{}, func(ev Ev) error {
		s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(lgk), theta.WithUpdateSketchResizeFactor(rf),
			theta.WithUpdateSketchP(p), theta.WithUpdateSketchSeed(t.seeds[sid]))
		if err != nil {
			return err
		}
		for _, k := range keys {
			k.feed(s)
		}
		if ord == 0 {
			t.Put(h, t.obj(plainTheta(s)))
		} else {
			t.Put(h, t.obj(plainTheta(s.Compact(ord == 1))))
		}
		return nil
	})
}

func tuRet(err error) int {
	switch {
	case err == nil:
		return 0
	case errors.Is(err, tuple.ErrHashExceedsTheta):
		return 2
	}
	return 3
}

func (t *tuDrv) update(h int, keys []thKey, sid int) {
	o := t.get(h)
	ks := make([]H, len(keys))
	vs := make([]int, len(keys))
	for i, k := range keys {
		ks[i] = H(k.hash(t.seeds[sid]))
		vs[i] = 1 + t.Rng.Intn(9)
	}
	t.Do("upd", h, Ev{"ks": ks, "vs": ints(vs)}, func(ev Ev) error {
		rets := make([]int, 0, len(keys))
		for i, k := range keys {
			rets = append(rets, tuRet(o.u.feed(k, vs[i])))
		}
		ev["rets"] = ints(rets)
		return nil
	})
}

func (t *tuDrv) put(g int) func(o *tuSk, err error) error {
	return func(o *tuSk, err error) error {
		if err == nil {
			t.Put(g, t.obj(o))
		}
		return err
	}
}

func (t *tuDrv) compact(g, src int) {
	o := t.get(src)
	ord := t.Rng.Intn(2) == 0
	how := t.Rng.Intn(2)
	t.Do("compact", g, Ev{"src": src, "ordered": ord}, func(ev Ev) error {
		return t.put(g)(o.kind.compact(o.tuSk, how, ord))
	})
}
func (t *tuDrv) filter(g, src int) {
	o := t.get(src)
	mod := 2 + t.Rng.Intn(2)
	rem := t.Rng.Intn(mod)
	if _, err := o.kind.filter(o.tuSk, mod, rem); err == errNA {
		return
	}
	t.Do("filter", g, Ev{"src": src, "mod": mod, "rem": rem}, func(ev Ev) error {
		return t.put(g)(o.kind.filter(o.tuSk, mod, rem))
	})
}
func (t *tuDrv) newUnion(h int, lgk uint8, p float32, sid int) {
	rf := pick(t.Rng, theta.ResizeX1, theta.ResizeX2, theta.ResizeX4, theta.ResizeX8)
	t.Do("newn", h, Ev{"k": 1 << lgk, "t0": H(startTheta(p)), "sidx": sid}, func(ev Ev) error {
		u, err := t.kind.newUnion(lgk, rf, p, t.seeds[sid])
		if err != nil {
			return err
		}
		t.Put(h, &tuAccObj{u, t.seeds, true})
		return nil
	})
}
func (t *tuDrv) newInter(h, sid int) {
	t.Do("newi", h, Ev{"sidx": sid}, func(ev Ev) error {
		t.Put(h, &tuAccObj{t.kind.newInter(t.seeds[sid]), t.seeds, false})
		return nil
	})
}
func (t *tuDrv) accUpd(op string, h, src int) {
	a, o := t.Get(h).(*tuAccObj), t.get(src)
	t.Do(op, h, Ev{"src": src}, func(ev Ev) error { return a.a.update(o.tuSk) })
}
func (t *tuDrv) accRes(op string, g, src int) {
	a := t.Get(src).(*tuAccObj)
	ord := t.Rng.Intn(2) == 0
	t.Do(op, g, Ev{"src": src, "ordered": ord}, func(ev Ev) error { return t.put(g)(a.a.result(ord)) })
}
func (t *tuDrv) accReset(h int) {
	a := t.Get(h).(*tuAccObj)
	t.Do("nreset", h, Ev{}, func(ev Ev) error { a.a.reset(); return nil })
}
func (t *tuDrv) anb(g, a, b, sid int) {
	oa, ob := t.get(a), t.get(b)
	ord := t.Rng.Intn(2) == 0
	if ob.th != nil {
		if _, ok := oa.kind.(interface{ noTheta() }); ok {
			return
		}
	}
	t.Do("anb", g, Ev{"a": a, "b": b, "ordered": ord, "sidx": sid}, func(ev Ev) error {
		if ob.th != nil {
			return t.put(g)(oa.kind.anbTheta(oa.tuSk, ob.th, t.seeds[sid], ord))
		}
		return t.put(g)(oa.kind.anb(oa.tuSk, ob.tuSk, t.seeds[sid], ord))
	})
}
func (g *aKind[N]) noTheta() {}

func (t *tuDrv) fromTheta(g, src int) {
	o := t.get(src)
	v := 1 + t.Rng.Intn(9)
	ord := t.Rng.Intn(2) == 0
	if _, ok := t.kind.(interface{ noTheta() }); ok {
		return
	}
	t.Do("fromth", g, Ev{"src": src, "ordered": ord, "v": v}, func(ev Ev) error {
		return t.put(g)(t.kind.fromTheta(o.th, v, ord))
	})
}

func (t *tuDrv) jaccard(a, b, sid int) {
	oa, ob := t.get(a), t.get(b)
	if t.kind.name() == "val" {
		return
	}
	t.Do("jac", 0, Ev{"a": a, "b": b, "sidx": sid, "lb": R(0), "est": R(0), "ub": R(0), "zero": R(0), "one": R(1), "num": 0, "den": 0, "eq": false, "eqerr": 0, "same": a == b, "sim": []bool{}, "dis": []bool{}}, func(ev Ev) error {
		lb, est, ub, eq, sim, dis, err := t.kind.jac(oa.tuSk, ob.tuSk, t.seeds[sid])
		if err != nil {
			return err
		}
		ev["lb"], ev["est"], ev["ub"], ev["eq"] = R(lb), R(est), R(ub), eq
		ev["sim"], ev["dis"] = sim, dis
		thm := min(oa.m.Theta64(), ob.m.Theta64())
		un := map[uint64]bool{}
		for _, o := range []*tuObj{oa, ob} {
			o.all(func(h uint64, _ []int) {
				if h < thm {
					un[h] = true
				}
			})
		}
		den := len(un)
		num := int(est*float64(den) + 0.5)
		if !core.Close(est*float64(den), float64(num)) {
			num = -1
		}
		ev["num"], ev["den"] = num, den
		return nil
	})
}

func (t *tuDrv) roundTrip(g, src int) {
	o := t.get(src)
	r := t.Rng
	sid := 0
	if sh, _ := o.m.SeedHash(); sh == SeedHash16(t.seeds[1]) {
		sid = 1
	}
	how := pick(r, "dec", "rd", "rd1")
	c := o.tuSk
	if o.u != nil {
		var err error
		c, err = o.kind.compact(o.tuSk, 1, r.Intn(2) == 0)
		if err != nil {
			return
		}
	}
	var img []byte
	t.Do("ser", g, Ev{"src": src, "r": how, "srcord": c.m.IsOrdered(), "stable": true}, func(ev Ev) error {
		var b, b2 bytes.Buffer
		if err := c.kind.encode(c, &b); err != nil {
			return err
		}
		if err := c.kind.encode(c, &b2); err != nil {
			return err
		}
		img = b.Bytes()
		ev["stable"] = bytes.Equal(img, b2.Bytes())
		defer core.Keep(img)()
		switch how {
		case "dec":
			return t.put(g)(t.kind.decode(img, nil, t.seeds[sid]))
		case "rd":
			return t.put(g)(t.kind.decode(nil, bytes.NewReader(img), t.seeds[sid]))
		default:
			return t.put(g)(t.kind.decode(nil, &oneByteReader{b: img, max: 1 + r.Intn(5)}, t.seeds[sid]))
		}
	})
	t.Do("scribble", 0, Ev{}, func(ev Ev) error {
		for i := range img {
			img[i] = 0xA5
		}
		return nil
	})
}

func (t *tuDrv) refuse(src int) {
	o := t.get(src)
	c, err := o.kind.compact(o.tuSk, 1, true)
	if err != nil {
		return
	}
	other := t.seeds[0]
	if sh, _ := o.m.SeedHash(); sh == SeedHash16(other) {
		other = t.seeds[1]
	}
	t.Do("badseed", 0, Ev{"src": src}, func(ev Ev) error {
		var b bytes.Buffer
		if err := c.kind.encode(c, &b); err != nil {
			return nil
		}
		_, err := c.kind.decode(b.Bytes(), nil, other)
		return err
	})
}

func (t *tuDrv) est(h int) {
	o := t.get(h)
	t.Do("est", h, Ev{"sub": []Ev{}}, func(ev Ev) error {
		n, subs := o.m.NumRetained(), []Ev{}
		sb, isSub := o.m.(tuSubset)
		for _, k := range []uint32{0, 1, n / 3, n - n/3, n, n + 1, n + 100} {
			if !isSub {
				break
			}
			s := Ev{}
			c := float64(min(k, n))
			if err := estFill(s, c/o.m.Theta(), func(d int) (float64, error) { return sb.LowerBoundFromSubset(uint8(d), k) },
				func(d int) (float64, error) { return sb.UpperBoundFromSubset(uint8(d), k) }, c, c); err != nil {
				return err
			}
			subs = append(subs, Ev{"k": int(k), "lbs": s["lbs"], "ubs": s["ubs"], "e": s["e"], "floor": s["floor"]})
		}
		ev["sub"] = subs
		return estFill(ev, o.m.Estimate(), func(k int) (float64, error) { return o.m.LowerBound(uint8(k)) },
			func(k int) (float64, error) { return o.m.UpperBound(uint8(k)) },
			float64(o.m.NumRetained()), float64(o.m.NumRetained())/(float64(o.m.Theta64())/float64(theta.MaxTheta)))
	})
}

func (t *tuDrv) of(f func(o *tuObj) bool) []int {
	var out []int
	for _, h := range t.Handles() {
		if o, ok := t.Get(h).(*tuObj); ok && f(o) {
			out = append(out, h)
		}
	}
	return out
}

func (t *tuDrv) sid(h int) int {
	if sh, _ := t.get(h).m.SeedHash(); sh == SeedHash16(t.seeds[1]) {
		return 1
	}
	return 0
}

func (t *tuDrv) random(steps int, weights map[string]int) {
	r := t.Rng
	t.begin()
	p := func() float32 { return pick(r, float32(1), 1, 1, 1, 0.5, 0.1, 0.999) }
	lg := func() uint8 { return pick(r, uint8(5), 5, 5, 6) }
	sid := func() int { return b2i(r.Intn(12) == 0) }
	names := []string{}
	tot := 0
	for k, w := range weights {
		names = append(names, k)
		tot += w
	}
	sort.Strings(names)
	for i := 0; i < 2; i++ {
		t.newUpd(t.fresh(), lg(), p(), 0)
	}
	for i := 0; i < steps && !t.Dead; i++ {
		x := r.Intn(tot)
		op := ""
		for _, n := range names {
			if x -= weights[n]; x < 0 {
				op = n
				break
			}
		}
		upds := t.of(func(o *tuObj) bool { return o.u != nil })
		all := t.of(func(o *tuObj) bool { return o.th == nil })
		ths := t.of(func(o *tuObj) bool { return o.th != nil })
		var uns, ins []int
		for _, h := range t.Handles() {
			if a, ok := t.Get(h).(*tuAccObj); ok {
				if a.union {
					uns = append(uns, h)
				} else {
					ins = append(ins, h)
				}
			}
		}
		one := func(hs []int, f func(g, src int)) {
			if len(hs) == 0 {
				return
			}
			src := pick(r, hs...)
			g := t.slot()
			if t.Has(src) {
				f(g, src)
			}
		}
		switch op {
		case "newu":
			t.newUpd(t.slot(), lg(), p(), sid())
		case "newth":
			t.newTheta(t.slot(), t.keysBlock(), lg(), p(), sid())
		case "upd":
			if len(upds) > 0 {
				h := pick(r, upds...)
				t.update(h, t.keysBlock(), t.sid(h))
			}
		case "updx":
			if len(upds) > 0 {
				h := pick(r, upds...)
				t.Do("updx", h, Ev{}, func(ev Ev) error {
					ev["ret"] = b2i(t.get(h).u.feed(thKey{kind: "str"}, 1) != nil)
					return nil
				})
			}
		case "trim":
			if len(upds) > 0 {
				h := pick(r, upds...)
				t.Do("trim", h, Ev{}, func(ev Ev) error { t.get(h).u.trim(); return nil })
			}
		case "reset":
			if len(upds) > 0 {
				h := pick(r, upds...)
				t.Do("reset", h, Ev{}, func(ev Ev) error { t.get(h).u.reset(); return nil })
			}
		case "compact":
			one(all, t.compact)
		case "filter":
			one(all, t.filter)
		case "newn":
			t.newUnion(t.slot(), lg(), p(), sid())
		case "nupd":
			if len(uns) > 0 && len(all) > 0 {
				t.accUpd("nupd", pick(r, uns...), pick(r, all...))
			}
		case "nreset":
			if len(uns) > 0 {
				t.accReset(pick(r, uns...))
			}
		case "nres":
			one(uns, func(g, src int) { t.accRes("nres", g, src) })
		case "newi":
			t.newInter(t.slot(), sid())
		case "iupd":
			if len(ins) > 0 && len(all) > 0 {
				t.accUpd("iupd", pick(r, ins...), pick(r, all...))
			}
		case "ires":
			one(ins, func(g, src int) { t.accRes("ires", g, src) })
		case "anb":
			if len(all) > 0 {
				a, b := pick(r, all...), pick(r, append(all, ths...)...)
				g := t.slot()
				if t.Has(a) && t.Has(b) {
					t.anb(g, a, b, sid())
				}
			}
		case "fromth":
			one(ths, t.fromTheta)
		case "jac":
			if len(all) > 0 {
				t.jaccard(pick(r, all...), pick(r, all...), sid())
			}
		case "ser":
			one(all, t.roundTrip)
		case "refuse":
			if len(all) > 0 {
				t.refuse(pick(r, all...))
			}
		case "est":
			if len(all) > 0 {
				t.est(pick(r, all...))
			}
		}
	}
}

func (t *tuDrv) script(sc []any, blocks *thBlocks) {
	t.begin()
	i := func(x any) int { return int(x.(float64)) }
	for _, st := range sc {
		if t.Dead {
			return
		}
		c := st.([]any)
		switch c[0].(string) {
		case "newu":
			t.newUpd(i(c[1]), 5, 1, 0)
		case "upd":
			ks := append([]thKey(nil), blocks.keys[i(c[2])]...)
			t.Rng.Shuffle(len(ks), func(a, b int) { ks[a], ks[b] = ks[b], ks[a] })
			t.update(i(c[1]), ks, 0)
		case "trim":
			h := i(c[1])
			t.Do("trim", h, Ev{}, func(ev Ev) error { t.get(h).u.trim(); return nil })
		case "reset":
			h := i(c[1])
			t.Do("reset", h, Ev{}, func(ev Ev) error { t.get(h).u.reset(); return nil })
		case "compact":
			t.compact(i(c[1]), i(c[2]))
		case "newn":
			t.newUnion(i(c[1]), 5, 1, 0)
		case "nupd":
			t.accUpd("nupd", i(c[1]), i(c[2]))
		case "nres":
			t.accRes("nres", i(c[1]), i(c[2]))
		case "nreset":
			t.accReset(i(c[1]))
		case "newi":
			t.newInter(i(c[1]), 0)
		case "iupd":
			t.accUpd("iupd", i(c[1]), i(c[2]))
		case "ires":
			t.accRes("ires", i(c[1]), i(c[2]))
		case "anb":
			t.anb(i(c[1]), i(c[2]), i(c[3]), 0)
		case "ser":
			t.roundTrip(i(c[1]), i(c[2]))
		default:
			panic(fmt.Sprint("unknown step ", c))
		}
	}
}

// simCoverage: see util.go.
func (t *tuDrv) simCoverage() {
	r := t.Rng
	t.begin()
	for t.kind.name() == "val" || t.kind.name() == "strs" {
		t.kind = pick(r, tuKinds...)
	}
	lg := pick(r, uint8(5), 6, 7, 8)
	lgb := lg + uint8(r.Intn(2))
	na, nb, nc := simSizes(r, 2000)
	seed := t.seeds[0]
	mk := func(lg uint8, from, to int, base int64) (*tuSk, error) {
		s, err := t.kind.newUpd(lg, pick(r, theta.ResizeX1, theta.ResizeX2, theta.ResizeX4, theta.ResizeX8), 1, seed)
		for i := from; i < to && err == nil; i++ {
			if e := s.u.feed(thKey{kind: "i64", i: base + int64(i)}, 1); e != nil && !errors.Is(e, tuple.ErrHashExceedsTheta) {
				err = e
			}
		}
		if err == nil && r.Intn(2) == 0 {
			s, err = t.kind.compact(s, 0, r.Intn(2) == 0)
		}
		return s, err
	}
	simCoverage(t.Scn, Ev{"lgk": int(lg)}, na, nb, nc, 400, math.Min(float64(na+nb+nc), float64(int(1)<<lg)), func(base int64) (float64, float64, float64, error) {
		a, err := mk(lg, 0, na+nc, base)
		if err != nil {
			return 0, 0, 0, err
		}
		b, err := mk(lgb, na, na+nc+nb, base)
		if err != nil {
			return 0, 0, 0, err
		}
		l, e, u, _, _, _, err := t.kind.jac(a, b, seed)
		return l, e, u, err
	})
}

// coverage: see util.go.
func (t *tuDrv) coverage() {
	r := t.Rng
	t.begin()
	for t.kind.name() == "val" || t.kind.name() == "strs" {
		t.kind = pick(r, tuKinds...)
	}
	lg := pick(r, uint8(5), 6, 7, 8)
	p := pick(r, float32(1), 1, 0.5, 0.1)
	n := 1 + int(math.Exp(r.Float64()*math.Log(3000)))
	mode := pick(r, "update", "trim", "compact", "filter", "image", "union", "inter", "anotb")
	rse := 1 / math.Sqrt(float64(int(1)<<lg))
	if e := float64(n) * float64(p); p < 1 {
		rse = math.Max(rse, math.Sqrt(1/e)) + 2/e
	}
	// between k and 15/8 k keys are kept, of a stream that is much longer
	lo, hi := 0.0, 1/math.Sqrt(float64(int(1)<<lg))
	if e := float64(n) * float64(p); e >= 8*float64(int(1)<<lg) && mode != "inter" && mode != "anotb" {
		lo = hi * math.Sqrt(.87/1.875)
	}
	ext := 0
	if mode == "inter" || mode == "anotb" {
		ext = r.Intn(n + 1)
		rse *= 1.5 * math.Sqrt(float64(n+ext)/float64(n))
	}
	rf := pick(r, theta.ResizeX1, theta.ResizeX2, theta.ResizeX4, theta.ResizeX8)
	seed := t.seeds[0]
	mk := func(lg uint8, from, to int, base int64) (*tuSk, error) {
		s, err := t.kind.newUpd(lg, rf, p, seed)
		for i := from; i < to && err == nil; i++ {
			if e := s.u.feed(thKey{kind: "i64", i: base + int64(i)}, 1); e != nil && !errors.Is(e, tuple.ErrHashExceedsTheta) {
				err = e
			}
		}
		return s, err
	}
	coverage(t.Scn, Ev{"mode": mode, "lgk": int(lg)}, n, 400, rse, lo, hi, func(base int64) (float64, func(int) (float64, error), func(int) (float64, error), error) {
		var c, d *tuSk
		o, err := mk(lg, 0, n, base)
		if err != nil {
			return 0, nil, nil, err
		}
		switch mode {
		case "trim":
			o.u.trim()
		case "compact":
			o, err = t.kind.compact(o, 0, r.Intn(2) == 0)
		case "filter":
			if c, e := t.kind.filter(o, 1, 0); e == nil { // not every kind has one
				o = c
			}
		case "image":
			if o, err = t.kind.compact(o, 0, true); err == nil {
				var b bytes.Buffer
				if err = t.kind.encode(o, &b); err == nil {
					o, err = t.kind.decode(b.Bytes(), nil, seed)
				}
			}
		case "union":
			var u tuAcc
			if u, err = t.kind.newUnion(lg, rf, 1, seed); err != nil {
				break
			}
			if c, err = mk(lg+uint8(r.Intn(2)), 0, n*2/3, base); err != nil {
				break
			}
			if d, err = mk(lg, n/3, n, base); err != nil {
				break
			}
			if err = u.update(c); err != nil {
				break
			}
			if err = u.update(d); err != nil {
				break
			}
			o, err = u.result(r.Intn(2) == 0)
		case "inter", "anotb":
			if o, err = mk(lg, 0, n+ext, base); err != nil {
				break
			}
			if mode == "anotb" {
				if c, err = mk(lg, n, n+2*ext, base); err == nil {
					o, err = t.kind.anb(o, c, seed, r.Intn(2) == 0)
				}
				break
			}
			in := t.kind.newInter(seed)
			if c, err = mk(lg, -ext, n, base); err != nil {
				break
			}
			if err = in.update(o); err != nil {
				break
			}
			if err = in.update(c); err != nil {
				break
			}
			o, err = in.result(r.Intn(2) == 0)
		}
		if err != nil {
			return 0, nil, nil, err
		}
		return o.m.Estimate(), func(k int) (float64, error) { return o.m.LowerBound(uint8(k)) }, func(k int) (float64, error) { return o.m.UpperBound(uint8(k)) }, nil
	})
}

// strings puts lists of strings through the two kinds of string summaries.
func (t *tuDrv) strings() {
	r := t.Rng
	t.begin()
	for i := 0; i < 12; i++ {
		n := pick(r, 0, 1, 2, 3, 126, 127, 127, 128, 129, 200, 254, 255, 256, 257, 300, 383, r.Intn(140))
		in := make([]string, n)
		for j := range in {
			in[j] = pick(r, "", "a", "b,c", "\x00", "é", "\xff\xfe", strings.Repeat("x", r.Intn(8)), strings.Repeat("日", r.Intn(300)/(1+n/20)))
		}
		hexs := func(v []string) []string {
			out := []string{}
			for _, x := range v {
				out = append(out, hex.EncodeToString([]byte(x)))
			}
			return out
		}
		inline := r.Intn(2) == 0
		orig := hexs(in)
		t.Do("strs", 0, Ev{"given": orig, "inline": inline, "out": []string{}, "rest": 0, "left": -1, "size": 0, "total": 0, "dup": []string{}, "key": R(0), "ref": R(1)}, func(ev Ev) error {
			h := xxhash.NewWithSeed(0x7A3CCA71)
			h.WriteString(strings.Join(in, ","))
			k, w := tuple.GenerateHashKeyFromStrings(in), h.Sum64()
			ev["key"], ev["ref"] = fmt.Sprintf("%x", k), fmt.Sprintf("%x", w)
			var b bytes.Buffer
			var err error
			tail := 1 + r.Intn(9)
			if inline {
				s := tuple.ArrayOfStringsInlineSummaryUpdateFunc(tuple.NewArrayOfStringsInlineSummary(), in)
				c := s.Clone().(tuple.ArrayOfStringsInlineSummary)
				for j := range in { // only the clone is its own
					in[j] = "changed"
				}
				err = tuple.ArrayOfStringsInlineSummaryWriter(&b, c)
			} else {
				s := tuple.NewArrayOfStringsSummaryFunc()
				s.Update([]string{"before", "that"})
				s.Update(in)
				for j := range in {
					in[j] = "changed"
				}
				c := s.Clone().(*tuple.ArrayOfStringsSummary)
				if r.Intn(2) == 0 {
					s.Reset()
					s.Update([]string{"other"})
				}
				err = tuple.ArrayOfStringsSummaryWriter(&b, c)
			}
			if err != nil {
				return err
			}
			ev["total"] = b.Len()
			ev["size"] = int(binary.LittleEndian.Uint32(b.Bytes()))
			rd := bytes.NewReader(append(b.Bytes(), make([]byte, tail)...))
			var back bytes.Buffer
			if inline {
				s, e := tuple.ArrayOfStringsInlineSummaryReader(rd)
				if err = e; err == nil {
					err = tuple.ArrayOfStringsInlineSummaryWriter(&back, s)
				}
			} else {
				s, e := tuple.ArrayOfStringsSummaryReader(rd)
				if err = e; err == nil {
					err = tuple.ArrayOfStringsSummaryWriter(&back, s)
				}
			}
			if err != nil {
				return err
			}
			ev["left"], ev["rest"] = rd.Len(), tail
			split := func(p []byte) []string {
				out := []string{}
				for p = p[5:]; len(p) >= 4; {
					l := min(binary.LittleEndian.Uint32(p), uint32(len(p)-4))
					out = append(out, hex.EncodeToString(p[4:4+l]))
					p = p[4+l:]
				}
				return out
			}
			ev["out"], ev["dup"] = split(back.Bytes()), split(b.Bytes())
			return nil
		})
	}
}

func TupleJobs(cfg *Cfg) []core.Job {
	var jobs []core.Job
	w := map[string]int{"newu": 3, "upd": 26, "updx": 1, "trim": 3, "reset": 2, "compact": 5, "filter": 4}
	nScript, nRand, steps := cfg.N(500, 8000), cfg.N(600, 10000), 30
	switch cfg.Focus {
	case "C30":
		w = map[string]int{"newu": 4, "upd": 14, "updx": 1, "trim": 2, "reset": 2, "compact": 5, "filter": 3, "newn": 3, "nupd": 8, "nreset": 1, "nres": 5,
			"newi": 3, "iupd": 6, "ires": 4, "anb": 5, "jac": 3, "ser": 5, "newth": 2, "fromth": 2, "est": 5}
		nScript, nRand = 0, cfg.N(250, 8000)
	case "C05":
		w = map[string]int{"newu": 4, "upd": 14, "trim": 1, "reset": 1, "compact": 4, "filter": 1, "newn": 3, "nupd": 10, "nreset": 2, "nres": 5,
			"newi": 4, "iupd": 9, "ires": 5, "anb": 7, "jac": 4, "ser": 1, "newth": 3, "fromth": 2}
		steps = 40
	case "C06":
		w = map[string]int{"newu": 4, "upd": 12, "trim": 1, "compact": 3, "filter": 2, "newn": 2, "nupd": 5, "nres": 3,
			"newi": 2, "iupd": 3, "ires": 2, "anb": 3, "ser": 16, "refuse": 3, "newth": 1, "fromth": 2}
		for i := 0; i < cfg.N(20, 400); i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("strings#%d", i), Run: func(s *Scn) { newTuDrv(s, cfg).strings() }})
		}
	case "C28":
		w = map[string]int{"newu": 4, "upd": 14, "trim": 1, "reset": 1, "compact": 3, "filter": 2, "newn": 2, "nupd": 4, "nres": 3,
			"newi": 2, "iupd": 3, "ires": 2, "anb": 3, "ser": 2, "est": 20}
		nScript, nRand = 0, cfg.N(250, 4000)
		for i := 0; i < cfg.N(2, 100); i++ {
			for n := 0; n <= 130; n += 10 {
				jobs = append(jobs, core.Job{Name: "tuple-reference", Run: func(s *Scn) { newTuDrv(s, cfg).reference(refSizes(s.Rng, n)) }})
			}
		}
		for i := 0; i < cfg.N(24, 600); i++ {
			jobs = append(jobs, core.Job{Name: fmt.Sprintf("cov#%d", i), Run: func(s *Scn) { newTuDrv(s, cfg).coverage() }})
			if i%2 == 0 {
				jobs = append(jobs, core.Job{Name: fmt.Sprintf("sim#%d", i), Run: func(s *Scn) { newTuDrv(s, cfg).simCoverage() }})
			}
		}
	}
	blocks := newThBlocks(9001, 7, 16)
	for i := 0; i < nScript && i < len(cfg.Scripts); i++ {
		sc := cfg.Scripts[i]
		jobs = append(jobs, core.Job{Name: "tuple-script", Run: func(s *Scn) { newTuDrv(s, cfg).script(sc, blocks) }})
	}
	for i := 0; i < nRand; i++ {
		jobs = append(jobs, core.Job{Name: "tuple-random", Run: func(s *Scn) { newTuDrv(s, cfg).random(steps, w) }})
	}
	return jobs
}
