package fam

import (
	"encoding/binary"
	"math"
	"math/rand"

	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/theta"
)

// Estimates and bounds against references that are computed here from the
// probabilities they stand for, or, for the tabulated errors of HLL and CPC,
// against the published tables.

// refs collects answers and the range in which each must be.
type refs struct {
	xs  []Ev
	err error
}

func (q *refs) add(got float64, err error, lo, hi float64) {
	if err != nil && q.err == nil {
		q.err = err
	}
	q.xs = append(q.xs, Ev{"got": R(got), "lo": R(lo), "hi": R(hi)})
}

func (q *refs) near(got float64, err error, want, tol float64) {
	q.add(got, err, want-tol, want+tol)
}

func refDo(s *Scn, what string, fn func(q *refs) error) {
	s.Do("ref", 0, Ev{"what": what, "xs": []Ev{}}, func(ev Ev) error {
		q := &refs{}
		if err := fn(q); err != nil {
			return err
		}
		ev["xs"] = q.xs
		return q.err
	})
}

// ibeta is the regularized incomplete beta function.
func ibeta(a, b, x float64) float64 {
	if x <= 0 {
		return 0
	}
	if x >= 1 {
		return 1
	}
	la, _ := math.Lgamma(a)
	s := -la
	if a < 5000 && a == math.Floor(a) {
		for i := 1.0; i <= a; i++ {
			s += math.Log((a + b - i) * x)
		}
	} else {
		lb, _ := math.Lgamma(b)
		lab, _ := math.Lgamma(a + b)
		s += lab - lb + a*math.Log(x)
	}
	bt := math.Exp(s + b*math.Log1p(-x))
	if x < (a+1)/(a+b+2) {
		return bt * betacf(a, b, x) / a
	}
	return 1 - bt*betacf(b, a, 1-x)/b
}

func betacf(a, b, x float64) float64 {
	fix := func(v float64) float64 {
		if math.Abs(v) < 1e-300 {
			return 1e-300
		}
		return v
	}
	c, d := 1.0, 1/fix(1-(a+b)*x/(a+1))
	h := d
	for m := 1.0; m < 20000; m++ {
		p := m * (b - m) * x / ((a - 1 + 2*m) * (a + 2*m))
		d, c = 1/fix(1+p*d), fix(1+p/c)
		h *= d * c
		p = -(a + m) * (a + b + m) * x / ((a + 2*m) * (a + 1 + 2*m))
		d, c = 1/fix(1+p*d), fix(1+p/c)
		h *= d * c
		if math.Abs(d*c-1) < 1e-14 {
			break
		}
	}
	return h
}

func bisect(lo, hi float64, above func(float64) bool) float64 {
	for i := 0; i < 120; i++ {
		m := (lo + hi) / 2
		if above(m) {
			hi = m
		} else {
			lo = m
		}
	}
	return lo
}

func tail(k float64) float64 { return math.Erfc(k/math.Sqrt2) / 2 }

// trials is the number of trials of probability p that give n or more
// successes with probability q.
func trials(n, p, q float64) float64 {
	return bisect(n-1, n/p*4+200/p, func(m float64) bool { return ibeta(n, m-n+1, p) > q })
}

// binomial checks the bounds of a sample of n at rate p.
func (q *refs) binomial(n int, p float64, lb, ub func(uint8) (float64, error)) {
	rel, abs := .005, 1.1
	if n > 120 {
		rel = .05
		if p > .5 {
			rel = .15
		}
	} else if p > .02 {
		abs = 2.4
	}
	N := float64(n)
	for k := 1; k <= 3; k++ {
		l, err := lb(uint8(k))
		u, err2 := ub(uint8(k))
		wl, wu := N, N
		if p < 1 {
			wl, wu = 0, trials(N+1, p, 1-tail(float64(k)))
			if n > 0 {
				wl = math.Min(N/p, math.Max(N, trials(N, p, tail(float64(k)))))
			}
		}
		q.near(l, err, wl, abs+rel*(N/p-wl))
		q.near(u, err2, wu, abs+rel*(wu-N/p))
	}
}

// thCrafted is the image of a sketch with the given keys and theta.
func thCrafted(th uint64, keys []uint64) []byte {
	b := []byte{3, 3, 3, 0, 0, 2 | 8 | 16}
	b = binary.LittleEndian.AppendUint16(b, SeedHash16(9001))
	b = binary.LittleEndian.AppendUint32(b, uint32(len(keys)))
	b = binary.LittleEndian.AppendUint32(b, math.Float32bits(1))
	b = binary.LittleEndian.AppendUint64(b, th)
	for _, k := range keys {
		b = binary.LittleEndian.AppendUint64(b, k)
	}
	return b
}

func seqKeys(from, n int) []uint64 {
	ks := make([]uint64, n)
	for i := range ks {
		ks[i] = uint64(from + i + 1)
	}
	return ks
}

// refSizes are ten sizes from n on, and some large ones.
func refSizes(r *rand.Rand, n int) []int {
	var out []int
	for i := 0; i < 10; i++ {
		out = append(out, n+i)
	}
	return append(out, r.Intn(130), 100+r.Intn(300), 100+r.Intn(4000))
}

func anyRate(r *rand.Rand, n int) (uint64, float64) {
	p := 1.0
	switch r.Intn(8) {
	case 0: // around the limits of the approximations
		p = float64(n) / 360 * (.98 + .04*r.Float64())
	case 1:
		p = 1 - math.Pow(10, -1-6*r.Float64())
	case 2:
		p = r.Float64()
	default:
		p = math.Pow(10, -9*r.Float64())
	}
	th := uint64(math.Min(p, 1) * float64(theta.MaxTheta))
	th = max(th, uint64(n)+1, 1<<22)
	th = min(th, uint64(theta.MaxTheta))
	return th, float64(th) / float64(theta.MaxTheta)
}

func (t *thDrv) reference(sizes []int) {
	r := t.Rng
	t.begin()
	for len(sizes) > 0 && !t.Dead {
		part := sizes[:min(10, len(sizes))]
		sizes = sizes[len(part):]
		refDo(t.Scn, "binomial", func(q *refs) error {
			for _, n := range part {
				th, p := anyRate(r, n)
				if th == uint64(theta.MaxTheta) {
					p = 1
				}
				s, err := thRead(thCrafted(th, seqKeys(0, n)), pick(r, "dec", "rd", "wrap"), 9001, 64)
				if err != nil {
					return err
				}
				q.binomial(n, p, s.LowerBound, s.UpperBound)
			}
			return nil
		})
	}
	for i := 0; i < 6 && !t.Dead; i++ {
		refDo(t.Scn, "similarity", func(q *refs) error { return similarityRef(r, q, thJac) })
	}
}

func thJac(a, b theta.Sketch) (lb, est, ub float64, err error) {
	j, err := theta.Jaccard(a, b, 9001)
	return j.LowerBound, j.Estimate, j.UpperBound, err
}

// similarityRef compares bounds of the similarity of two crafted samples.
func similarityRef(r *rand.Rand, q *refs, jac func(a, b theta.Sketch) (lb, est, ub float64, err error)) error {
	n := pick(r, 1, 2, 3, 5, 10, 30, 100, 300, 1000)
	n = 1 + r.Intn(2*n)
	c := pick(r, 0, 1, n, n-1, r.Intn(n+1), r.Intn(n+1), r.Intn(n+1))
	c = min(max(c, 0), n)
	na := r.Intn(n - c + 1)
	th, p := anyRate(r, n)
	if p == 1 || c == n { // equal sets are told apart
		return nil
	}
	a, err := theta.Decode(thCrafted(th, seqKeys(0, na+c)), 9001)
	if err != nil {
		return err
	}
	b, err := theta.Decode(thCrafted(th, seqKeys(na, n-na)), 9001)
	if err != nil {
		return err
	}
	l, e, u, err := jac(a, b)
	N, C := float64(n), float64(c)
	k := 2 * (math.Sqrt(1-p) + .01*math.Max(0, p-.5))
	wl, wu := 0.0, 1.0
	if c > 0 {
		wl = bisect(0, 1, func(x float64) bool { return ibeta(C, N-C+1, x) > tail(k) })
	}
	if c < n {
		wu = bisect(0, 1, func(x float64) bool { return ibeta(C+1, N-C, x) > 1-tail(k) })
	}
	tl := .01 + .02*(wu-wl)
	tu := tl
	if c <= 1 { // not approximated
		tl = 1e-4
	}
	if c == 0 || c == n-1 {
		tu = 1e-4
	}
	q.near(l, err, wl, tl)
	q.near(u, err, wu, tu)
	q.near(e, err, C/N, 1e-9)
	return nil
}

// reference of tuple sketches: converted ones, and parts of them.
func (t *tuDrv) reference(sizes []int) {
	r := t.Rng
	t.begin()
	for {
		t.kind = pick(r, tuKinds...)
		if _, no := t.kind.(interface{ noTheta() }); !no && t.kind.name() != "val" && t.kind.name() != "strs" {
			break
		}
	}
	for len(sizes) > 0 && !t.Dead {
		part := sizes[:min(10, len(sizes))]
		sizes = sizes[len(part):]
		refDo(t.Scn, "binomial", func(q *refs) error {
			for _, n := range part {
				th, p := anyRate(r, n)
				if th == uint64(theta.MaxTheta) {
					p = 1
				}
				s, err := theta.Decode(thCrafted(th, seqKeys(0, n)), 9001)
				if err != nil {
					return err
				}
				o, err := t.kind.fromTheta(s, 1, r.Intn(2) == 0)
				if err != nil {
					return err
				}
				q.binomial(n, p, o.m.LowerBound, o.m.UpperBound)
				if sb, ok := o.m.(tuSubset); ok {
					k := r.Intn(n + 1)
					q.binomial(k, p, func(d uint8) (float64, error) { return sb.LowerBoundFromSubset(d, uint32(k)) },
						func(d uint8) (float64, error) { return sb.UpperBoundFromSubset(d, uint32(k)) })
				}
			}
			return nil
		})
	}
	for i := 0; i < 6 && !t.Dead; i++ {
		refDo(t.Scn, "similarity", func(q *refs) error {
			return similarityRef(r, q, func(a, b theta.Sketch) (lb, est, ub float64, err error) {
				x, err := t.kind.fromTheta(a, 1, true)
				if err != nil {
					return
				}
				y, err := t.kind.fromTheta(b, 2, true)
				if err != nil {
					return
				}
				lb, est, ub, _, _, _, err = t.kind.jac(x, y, 9001)
				return
			})
		})
	}
}

// geoMean and geoVar of 2^-M, where M is the largest of a Poisson number,
// lam in the mean, of values which are j with probability 2^-j.
func geo(lam float64) (mean, vr float64) {
	prev := math.Exp(-lam)
	s, s2 := prev, prev
	for j := 1; j < 64; j++ {
		c := math.Exp(-lam * math.Ldexp(1, -j))
		s += (c - prev) * math.Ldexp(1, -j)
		s2 += (c - prev) * math.Ldexp(1, -2*j)
		prev = c
	}
	return s, s2 - s*s
}

// distinct is the mean number of different coupons after n items: the column
// is geometric and the row one of K.
func distinct(K, n float64) float64 {
	s := 0.0
	for j := 1; j <= 64; j++ {
		p := math.Ldexp(1, -min(j, 63))
		s -= K * math.Expm1(n*math.Log1p(-p/K))
	}
	return s
}

// published errors of the estimators of HLL sketches of 16 to 4096 registers
// at 1, 2, 3 deviations: below and above the estimate, in order of arrival
// and out of it
var hlErrs = [4][]float64{
	{0.207316195, 0.502865572, 0.882303765, 0.146981579, 0.335426881, 0.557052, 0.104026721, 0.227683872, 0.365888317,
		0.073614601, 0.156781585, 0.245740374, 0.05205248, 0.108783763, 0.168030442, 0.036770852, 0.075727545, 0.11593785,
		0.025990219, 0.053145536, 0.080772263, 0.018373987, 0.037266176, 0.056271814, 0.012936253, 0.02613829, 0.039387631},
	{0.207805347, 0.355574279, 0.475535095, 0.146988328, 0.262390832, 0.360864026, 0.103877775, 0.191503663, 0.269311582,
		0.073452978, 0.138513438, 0.198487447, 0.051982806, 0.099703123, 0.144128618, 0.036768609, 0.07138158, 0.104430324,
		0.025991325, 0.050854296, 0.0748143, 0.01834533, 0.036121138, 0.05327616, 0.012920332, 0.025572893, 0.037896952},
	{0.254409839, 0.682266712, 1.304022158, 0.181817353, 0.443389054, 0.778776219, 0.129432281, 0.295782195, 0.49252279,
		0.091640655, 0.201175925, 0.323664385, 0.064858051, 0.138523393, 0.218805328, 0.045851855, 0.095925072, 0.148635751,
		0.032454144, 0.067009668, 0.102660669, 0.022921382, 0.046868565, 0.071307398, 0.016155679, 0.032825719, 0.049677541},
	{0.256980172, 0.411905944, 0.52651057, 0.182332109, 0.310275547, 0.412660505, 0.129314228, 0.230142294, 0.315636197,
		0.091584836, 0.16834013, 0.236346847, 0.06487411, 0.122045231, 0.174112107, 0.04591465, 0.08784505, 0.126917615,
		0.032433119, 0.062897613, 0.091862929, 0.022960633, 0.044875401, 0.065736049, 0.016186662, 0.031827816, 0.046973459},
}

// the same of CPC sketches: of merged ones and of others, in 1/10000 of k
// deviations of a sketch with one row
var cpErrs = [2][]float64{
	{8031, 8559, 9309, 7084, 7959, 8660, 7141, 7514, 7876, 7458, 7430, 7572, 6892, 7141, 7497, 6889, 7132, 7290,
		7075, 7118, 7185, 7040, 7047, 7085, 6993, 7019, 7053, 6953, 7001, 6983, 6944, 6966, 7004},
	{5855, 6688, 7391, 5886, 6444, 6923, 5885, 6254, 6594, 5889, 6134, 6326, 5900, 6072, 6203, 5875, 6005, 6089,
		5871, 5980, 6040, 5889, 5941, 6015, 5871, 5926, 5973, 5866, 5901, 5915, 5880, 5914, 5953},
}

func hlImage(lgk, unhit int, ooo bool, hip, kxq float64) []byte {
	K := 1 << lgk
	img := make([]byte, 40+K)
	for i := unhit; i < K; i++ {
		img[40+i] = byte(1 + i%3)
	}
	img[0], img[1], img[2], img[3], img[7] = 10, 1, 7, byte(lgk), 2|2<<2
	if ooo {
		img[5] = 16
	}
	binary.LittleEndian.PutUint64(img[8:], math.Float64bits(hip))
	binary.LittleEndian.PutUint64(img[16:], math.Float64bits(kxq))
	binary.LittleEndian.PutUint32(img[32:], uint32(unhit))
	return img
}

// reference of HLL: the estimate of registers with a given sum, of lists of
// coupons, and the published errors.
func (t *hlDrv) reference(lgk int) {
	r := t.Rng
	t.Begin(Ev{})
	K := float64(int(1) << lgk)
	sum := func(lam float64) float64 { // of a sketch of lam K items
		m, v := geo(lam)
		return K * m / (1 + v/(m*m)/K)
	}
	limit := .64
	switch lgk {
	case 4:
		limit = .718
	case 5:
		limit = .672
	}
	refDo(t.Scn, "hll-estimate", func(q *refs) error {
		for i := 0; i < 24; i++ {
			lam := math.Exp(-1.5 + r.Float64()*5)
			if r.Intn(6) == 0 {
				lam = math.Exp(r.Float64() * 20)
			}
			s, err := hll.NewHllSketchFromSlice(hlImage(lgk, 0, true, 1, sum(lam)), false)
			if err != nil {
				return err
			}
			e, err := s.GetEstimate()
			q.near(e, err, lam*K, lam*K*(.3/K+3e-5))
		}
		for i := 0; i < 12; i++ { // few items: the registers still unset
			lam := 1.1 * limit * r.Float64()
			z := int(K * math.Exp(-lam))
			if z == 0 || z == 1<<lgk {
				continue
			}
			s, err := hll.NewHllSketchFromSlice(hlImage(lgk, z, true, 1, sum(lam)), false)
			if err != nil {
				return err
			}
			lin := 0.0
			for j := z + 1; j <= 1<<lgk; j++ {
				lin += K / float64(j)
			}
			e, err := s.GetEstimate()
			switch avg := (lin + lam*K) / 2 / K; {
			case avg < limit-.3/K-1e-4:
				q.near(e, err, lin, 1e-6*K)
			case avg > limit+.3/K+1e-4:
				q.near(e, err, lam*K, lam*K*(.3/K+3e-5))
			}
		}
		return nil
	})
	refDo(t.Scn, "hll-error", func(q *refs) error {
		for _, ooo := range []bool{false, true} {
			est := 2 * K * math.Exp(6*r.Float64())
			s, err := hll.NewHllSketchFromSlice(hlImage(lgk, 0, ooo, est, sum(est/K)), false)
			if err != nil {
				return err
			}
			e, err := s.GetEstimate()
			if err != nil {
				return err
			}
			for k := 1; k <= 3; k++ {
				el, eu := float64(k)*.8325546111576977/math.Sqrt(K), float64(k)*.8325546111576977/math.Sqrt(K)
				if ooo {
					el, eu = float64(k)*1.03896/math.Sqrt(K), float64(k)*1.03896/math.Sqrt(K)
				}
				if lgk <= 12 {
					j := 0
					if ooo {
						j = 2
					}
					el, eu = hlErrs[j][3*(lgk-4)+k-1], hlErrs[j+1][3*(lgk-4)+k-1]
				}
				l, err := s.GetLowerBound(k)
				q.near(l, err, math.Max(K, e/(1+el)), e*el*1e-5)
				u, err := s.GetUpperBound(k)
				q.near(u, err, e/(1-eu), e*eu*1e-5)
			}
		}
		return nil
	})
}

// coupons of a list or set: the estimate allows for collisions.
func (t *hlDrv) couponReference() {
	r := t.Rng
	t.Begin(Ev{})
	for i := 0; i < 3; i++ {
		refDo(t.Scn, "hll-coupons", func(q *refs) error {
			lgk := 4 + r.Intn(18)
			c := 1 + r.Intn(7)
			if lgk > 7 {
				c = 1 + int(math.Exp(r.Float64()*math.Log(float64(int(3)<<(lgk-5)))))
				c = min(c, 3<<(lgk-5)-1)
			}
			s, err := hll.NewHllSketch(lgk, hlTypes[r.Intn(3)])
			if err != nil {
				return err
			}
			seen := map[uint32]bool{}
			for v := r.Int63(); len(seen) < c; v++ {
				if err := s.UpdateInt64(v); err != nil {
					return err
				}
				seen[hlCoupon(le64(uint64(v)))] = true
			}
			C := float64(c)
			n := bisect(0, 2*C+2, func(n float64) bool { return distinct(1<<26, n) > C })
			e, err := s.GetEstimate()
			q.near(e, err, n, 1e-9+1e-8*n)
			for k := 1; k <= 3; k++ {
				d := float64(k) * .409 / 8192
				l, err := s.GetLowerBound(k)
				q.near(l, err, math.Max(C, n/(1+d)), 1e-9+2e-8*n)
				u, err := s.GetUpperBound(k)
				q.near(u, err, math.Max(C, n/(1-d)), 1e-9+2e-8*n)
			}
			return nil
		})
	}
}

func cpImage(lgk, nc int, hip float64) []byte {
	img := make([]byte, 32)
	img[0], img[1], img[2], img[3], img[5] = 8, 1, 16, byte(lgk), 2|4|8
	if hip == 0 {
		img[0], img[5] = 4, 2|8
	}
	binary.LittleEndian.PutUint32(img[8:], uint32(nc))
	if hip != 0 {
		binary.LittleEndian.PutUint64(img[24:], math.Float64bits(hip))
	}
	return img
}

// reference of CPC: the estimate of merged sketches from their coupons, and
// the published errors.
func (t *cpDrv) reference(lgk int) {
	r := t.Rng
	t.Begin(Ev{})
	K := math.Ldexp(1, lgk)
	refDo(t.Scn, "cpc-estimate", func(q *refs) error {
		for i := 0; i < 24; i++ {
			load := math.Exp(-5 + r.Float64()*7)
			if r.Intn(3) == 0 {
				load = 5 + r.Float64()
			}
			nc := min(max(2, int(load*K)), int(28*K))
			if nc < 2 {
				continue
			}
			w, err := cpc.NewCpcWrapperFromBytes(cpImage(lgk, nc, 0))
			if err != nil {
				return err
			}
			want := bisect(0, K*math.Ldexp(1, 40), func(n float64) bool { return distinct(K, n) > float64(nc) })
			rel := 2e-5
			if float64(nc) > 5.55*K {
				rel += .014 / K
			}
			q.near(w.GetEstimate(), nil, want, want*rel)
		}
		return nil
	})
	refDo(t.Scn, "cpc-error", func(q *refs) error {
		for i, hip := range []float64{0, math.Ceil(K * math.Exp(8*r.Float64()))} {
			nc := max(2, int(K*math.Exp(r.Float64()*3-1)))
			if i == 1 {
				nc = 1 + r.Intn(int(min(hip, 9*K)))
			}
			w, err := cpc.NewCpcWrapperFromBytes(cpImage(lgk, nc, hip))
			if err != nil {
				return err
			}
			e := w.GetEstimate()
			if i == 1 {
				q.near(e, nil, hip, 0)
			}
			for k := 1; k <= 3; k++ {
				x := math.Log(2)
				if i == 1 {
					x = math.Sqrt(math.Log(2) / 2)
				}
				if lgk <= 14 {
					x = cpErrs[i][3*(lgk-4)+k-1] / 1e4
				}
				d := float64(k) * x / math.Sqrt(K)
				q.near(w.GetLowerBound(k), nil, math.Max(float64(nc), e/(1+d)), e*d*1e-6)
				q.add(w.GetUpperBound(k), nil, math.Ceil(e/(1-d)-1e-9*e), math.Ceil(e/(1-d)+1e-9*e))
			}
		}
		return nil
	})
}
