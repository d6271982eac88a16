// Package fam holds one driver per sketch family.
package fam

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"sort"

	"github.com/twmb/murmur3"

	"verif/harness/core"
)

type Ev = core.Ev
type H = core.H
type X = core.X
type R = core.R
type Scn = core.Scn

// Cfg is what a run of the driver is asked to do.
type Cfg struct {
	Focus   string // property id
	Tier    string // quick | thorough
	Seed    int64
	Scripts [][]any // behaviours generated from the specification by TLC
	Scale   float64
}

func (c *Cfg) N(quick, thorough int) int {
	n := quick
	if c.Tier == "thorough" {
		n = thorough
	}
	if c.Scale > 0 {
		n = int(float64(n) * c.Scale)
	}
	return n
}

// LoadScripts reads TLC-emitted scripts: one JSON array per line.
func LoadScripts(path string) ([][]any, error) {
	if path == "" {
		return nil, nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var out [][]any
	dec := json.NewDecoder(bytesReader(b))
	for dec.More() {
		var s []any
		if err := dec.Decode(&s); err != nil {
			return nil, err
		}
		out = append(out, s)
	}
	return out, nil
}

type br struct {
	b []byte
	i int
}

func (r *br) Read(p []byte) (int, error) {
	if r.i >= len(r.b) {
		return 0, io.EOF
	}
	n := copy(p, r.b[r.i:])
	r.i += n
	return n, nil
}
func bytesReader(b []byte) *br { return &br{b: b} }

// oneByteReader returns short reads, as an io.Reader may.
type oneByteReader struct {
	b   []byte
	i   int
	max int
}

func (r *oneByteReader) Read(p []byte) (int, error) {
	if r.i >= len(r.b) {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	k := min(len(p), r.max)
	n := copy(p[:k], r.b[r.i:])
	r.i += n
	return n, nil
}

func le64(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }
func le32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }

// murmur is the harness's own hash oracle (independent implementation).
func murmur(seed uint64, b []byte) (uint64, uint64) { return murmur3.SeedSum128(seed, seed, b) }

// SeedHash16 as specified by the cross-language format.
func SeedHash16(seed uint64) uint16 {
	h, _ := murmur(0, le64(seed))
	return uint16(h & 0xffff)
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// anyNaN is a NaN of either sign, quiet or signalling, with any payload.
func anyNaN(r *rand.Rand) float64 {
	return math.Float64frombits(0x7ff0000000000000 | r.Uint64()<<63 | pick(r, 1, 1<<51, 1<<51|1, 1<<r.Intn(52), r.Uint64()&(1<<51-1)|1))
}

// canonical double bits shared by the families that hash floats.
func canonDouble(f float64) uint64 {
	if f == 0 {
		return 0
	}
	if math.IsNaN(f) {
		return 0x7ff8000000000000
	}
	return math.Float64bits(f)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func ints(xs []int) []any {
	o := make([]any, len(xs))
	for i, x := range xs {
		o[i] = x
	}
	return o
}

func sortedKeys[V any](m map[int]V) []int {
	o := make([]int, 0, len(m))
	for k := range m {
		o = append(o, k)
	}
	sort.Ints(o)
	return o
}

var _ = fmt.Sprint

// chooser draws operation names with weights, in a reproducible order.
type chooser struct {
	names []string
	cum   []int
}

func newChooser(w map[string]int) *chooser {
	c := &chooser{}
	for n := range w {
		c.names = append(c.names, n)
	}
	sort.Strings(c.names)
	t := 0
	for _, n := range c.names {
		t += w[n]
		c.cum = append(c.cum, t)
	}
	return c
}

func (c *chooser) next(r *rand.Rand) string {
	x := r.Intn(c.cum[len(c.cum)-1])
	return c.names[sort.SearchInts(c.cum, x+1)]
}

// ---- hash inversion: the 16-byte input with a chosen hash

func rotl(x uint64, r uint) uint64 { return x<<r | x>>(64-r) }

// oddInv is the inverse of an odd number modulo 2^64.
func oddInv(a uint64) uint64 {
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

func unfmix(k uint64) uint64 {
	k ^= k >> 33
	k *= oddInv(0xc4ceb9fe1a85ec53)
	k ^= k >> 33
	k *= oddInv(0xff51afd7ed558ccd)
	k ^= k >> 33
	return k
}

// unmurmur returns the 16 bytes whose murmur hash under seed is (lo, hi).
func unmurmur(seed, lo, hi uint64) []byte {
	h1, h2 := lo, hi
	h2 -= h1
	h1 -= h2
	h1, h2 = unfmix(h1), unfmix(h2)
	h2 -= h1
	h1 -= h2
	h1 ^= 16
	h2 ^= 16
	// undo the body; h2 before its own block is seed
	i5 := oddInv(5)
	b2 := (h2 - 0x38495ab5) * i5 // = rotl(seed^k2, 31) + h1
	a2 := rotl(b2-h1, 64-31)
	k2 := a2 ^ seed
	b1 := (h1 - 0x52dce729) * i5 // = rotl(seed^k1, 27) + h2(seed)
	a1 := rotl(b1-seed, 64-27)
	k1 := a1 ^ seed
	k1 *= oddInv(mmC2)
	k1 = rotl(k1, 64-31)
	k1 *= oddInv(mmC1)
	k2 *= oddInv(mmC1)
	k2 = rotl(k2, 64-33)
	k2 *= oddInv(mmC2)
	out := append(le64(k1), le64(k2)...)
	if l, h := murmur(seed, out); l != lo || h != hi {
		panic("unmurmur")
	}
	return out
}

// coverage repeats an experiment of n distinct items T times and records how
// often the truth lies between the bounds of 1, 2 and 3 deviations, the mean
// estimate and the mean width of the bounds.
func coverage(s *Scn, args Ev, n, T int, rse, lo, hi float64, one func(base int64) (float64, func(int) (float64, error), func(int) (float64, error), error)) {
	args["n"], args["T"] = n, T
	s.Do("cov", 0, args, func(ev Ev) error {
		cov := make([]int, 3)
		wid, low, up := make([]float64, 3), make([]float64, 3), make([]float64, 3)
		sum := 0.0
		for i := 0; i < T; i++ {
			e, lb, ub, err := one(s.Rng.Int63() &^ 1)
			if err != nil {
				return err
			}
			sum += e
			for k := 1; k <= 3; k++ {
				l, err := lb(k)
				if err != nil {
					return err
				}
				u, err := ub(k)
				if err != nil {
					return err
				}
				if l <= float64(n) && float64(n) <= u {
					cov[k-1]++
				}
				wid[k-1] += u - l
				low[k-1] += e - l
				up[k-1] += u - e
			}
		}
		N := float64(n)
		ev["cov"] = ints(cov)
		d := 7*rse*N/math.Sqrt(float64(T)) + 1e-4*N
		ev["mlo"], ev["mean"], ev["mhi"] = R(N-d), R(sum/float64(T)), R(N+d)
		ws, mx := []R{}, []R{}
		for k := 1; k <= 3; k++ {
			ws = append(ws, R(wid[k-1]/float64(T)))
			mx = append(mx, R(5*float64(k)*rse*N+1e-3*N+2))
		}
		ev["wid"], ev["wmax"] = ws, mx
		// each side against the error the estimator is known to have
		sides := []Ev{}
		for k := 1; lo > 0 && k <= 3; k++ {
			a, b := float64(k)*lo, float64(k)*hi
			bu := 4.0
			if b < .8 {
				bu = b / (1 - b)
			}
			sides = append(sides, Ev{"dl": R(low[k-1] / float64(T)), "dlmin": R(.92 * N * a / (1 + a)), "dlmax": R(1.3 * N * b),
				"du": R(up[k-1] / float64(T)), "dumin": R(.92 * N * a), "dumax": R(1.2*N*bu + 2)})
		}
		ev["sides"] = sides
		return nil
	})
}

// simCoverage does the same for the similarity of sets of na and nb items and
// nc common ones, of which about k are retained in the union.
func simCoverage(s *Scn, args Ev, na, nb, nc, T int, k float64, one func(base int64) (lb, est, ub float64, err error)) {
	J := float64(nc) / float64(na+nb+nc)
	// with few on one side the bounds, which are approximations, cover less
	args["T"], args["nab"], args["few"] = T, []int{na, nb, nc}, J != 0 && J != 1 && math.Min(J, 1-J)*k < 8
	s.Do("jcov", 0, args, func(ev Ev) error {
		cov, sum, wid := 0, 0.0, 0.0
		for i := 0; i < T; i++ {
			l, e, u, err := one(s.Rng.Int63() &^ 1)
			if err != nil {
				return err
			}
			if l <= J && J <= u {
				cov++
			}
			sum += e
			wid += u - l
		}
		d := 7*math.Sqrt(J*(1-J)/k/float64(T)) + 1e-3/k
		ev["cov"] = cov
		ev["mlo"], ev["mean"], ev["mhi"] = R(J-d), R(sum/float64(T)), R(J+d)
		ev["wid"], ev["wmax"] = R(wid/float64(T)), R(8*math.Sqrt(J*(1-J)/k)+8/k)
		return nil
	})
}

// simSizes picks sizes of two sets with a common part.
func simSizes(r *rand.Rand, most int) (na, nb, nc int) {
	n := 1 + int(math.Exp(r.Float64()*math.Log(float64(most))))
	nc = int(float64(n) * pick(r, 0, .02, .2, .5, .8, .97, 1))
	na = r.Intn(n - nc + 1)
	return na, n - nc - na, nc
}
