package verifharness

import (
	"fmt"
	"math"
	"math/big"
	"slices"
	"sort"
	"strings"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

func init() {
	Register(&Prop{
		ID:        "C16",
		Rule:      "case = parameter set x key generator history (other keys generated before and between) x secret distribution; every public key's error is recovered with the secret key and checked modulo every prime; non-trivial when distinct by (set, secret kind, position in the history)",
		Cases:     tiers(1500, 18000),
		MinEvents: []string{"public-key", "fresh-error", "error-width"},
		Run:       runPublicKeys,
	})
	Register(&Prop{
		ID:        "C17",
		Rule:      "case = parameter set (digit count 1 to 4) x relinearization, rotation (positive, negative, large index), conjugation and switching keys of one generator; every digit's error is recovered with the secrets and checked modulo every prime; non-trivial when distinct by (set, gamma, key kind, index, secret kind)",
		Cases:     tiers(1200, 15000),
		MinEvents: []string{"relinearization-key", "rotation-key", "conjugation-key", "switching-key", "default-rotation-keys", "fresh-error", "error-width"},
		Run:       runEvalKeys,
	})
	Register(&Prop{
		ID:        "C18",
		Rule:      "case = parameter set x secret distribution and its parameter; coefficients are read modulo every prime; non-trivial when distinct by (set, distribution, parameter)",
		Cases:     tiers(1500, 18000),
		MinEvents: []string{"ternary", "sparse", "distrib", "gaussian", "key-pair", "fresh-secret"},
		Run:       runSecrets,
	})
	Register(&Prop{
		ID:        "C19",
		Rule:      "case = parameter set x encryption entry point x domain x level, under public keys made up by the harness which lay the randomness bare; non-trivial when distinct by (set, entry point, domain, level)",
		Cases:     tiers(1200, 15000),
		MinEvents: []string{"mask", "error", "fresh-randomness", "randomness-width"},
		Run:       runEncRandom,
	})
	Register(&Prop{
		ID:        "C20",
		Rule:      "case = parameter set x gamma; all residues of all reference strings; non-trivial when distinct by (set, gamma, index)",
		Cases:     tiers(720, 9000),
		MinEvents: []string{"string", "added", "shared", "two-setups"},
		Run:       runCRS,
	})
}

// gammaWorld is a world whose digits are the special modulus split in gamma parts.
func (c *Ctx) gammaWorld(cfg Cfg, gamma int) *World {
	if gamma == 2 {
		return c.World(cfg)
	}
	key := fmt.Sprintf("%s|g%d", cfg.Name, gamma)
	if w := worlds[key]; w != nil {
		return w
	}
	w := newWorld(c, cfg, fmt.Sprintf("g%d", gamma))
	c.seeded("world|"+key, func() {
		w.P.Parameters = mkrlwe.NewParameters(w.CK.Parameters, gamma)
	})
	w.setDigits(gamma)
	worlds[key] = w
	return w
}

// randGamma is a digit split the special moduli allow.
func (c *Ctx) randGamma(cfg Cfg) int {
	g := []int{2, 2, 1, 3, 4}[c.R.IntN(5)]
	if g > len(cfg.LogP) {
		g = 1 + c.R.IntN(len(cfg.LogP))
	}
	return g
}

// small reads a polynomial given by its residues modulo the primes: the same
// integer, of absolute value at most lim, modulo every one of them.
func (c *Ctx) small(what string, rows [][]uint64, mods []uint64, lim float64) []float64 {
	n := len(rows[0])
	out := make([]float64, n)
	for i := 0; i < n; i++ {
		for j, q := range mods {
			x := rows[j][i] % q
			var v float64
			if x > q/2 {
				v = -float64(q - x)
			} else {
				v = float64(x)
			}
			if j == 0 {
				if math.Abs(v) > lim {
					c.Failf("too-large", "%s: coefficient %d is %g modulo the first prime, allowed %g", what, i, v, lim)
				}
				out[i] = v
			} else if v != out[i] {
				c.Failf("inconsistent", "%s: coefficient %d is %g modulo the first prime but %g modulo prime %d of %d", what, i, out[i], v, j, len(mods))
			}
		}
	}
	c.Eval()
	return out
}

// smallQP reads a polynomial over all primes, in the transformed domain.
func (c *Ctx) smallQP(w *World, what string, x rlwe.PolyQP, lim float64) []float64 {
	rQ, rP := w.P.RingQ(), w.P.RingP()
	q, p := rQ.NewPoly(), rP.NewPoly()
	rQ.InvNTT(x.Q, q)
	rP.InvNTT(x.P, p)
	rows := append(append([][]uint64{}, q.Coeffs...), p.Coeffs...)
	mods := append(append([]uint64{}, rQ.Modulus...), rP.Modulus...)
	return c.small(what, rows, mods, lim)
}

func (w *World) errLim() float64 { return math.Floor(6*w.Sigma) + 1 }

// mulQP is the product of two transformed polynomials, one of them in Montgomery
// form.
func (w *World) mulQP(a, b rlwe.PolyQP) rlwe.PolyQP {
	r := w.P.RingQP()
	out := r.NewPoly()
	r.MulCoeffsMontgomeryLvl(len(w.P.RingQ().Modulus)-1, len(w.P.RingP().Modulus)-1, a, b, out)
	return out
}

func (w *World) addQP(a, b rlwe.PolyQP) rlwe.PolyQP {
	rQ, rP := w.P.RingQ(), w.P.RingP()
	out := w.P.RingQP().NewPoly()
	rQ.Reduce(a.Q, out.Q)
	rP.Reduce(a.P, out.P)
	rQ.Add(out.Q, b.Q, out.Q)
	rP.Add(out.P, b.P, out.P)
	return out
}

func (w *World) subQP(a, b rlwe.PolyQP) rlwe.PolyQP {
	rQ, rP := w.P.RingQ(), w.P.RingP()
	out := w.P.RingQP().NewPoly()
	rQ.Reduce(a.Q, out.Q)
	rP.Reduce(a.P, out.P)
	rQ.Sub(out.Q, b.Q, out.Q)
	rP.Sub(out.P, b.P, out.P)
	return out
}

func (w *World) invM(a rlwe.PolyQP) rlwe.PolyQP {
	out := w.P.RingQP().NewPoly()
	w.P.RingQ().InvMForm(a.Q, out.Q)
	w.P.RingP().InvMForm(a.P, out.P)
	return out
}

// gadget returns P*s on the primes of digit i and nothing on the others.
func (w *World) gadget(s rlwe.PolyQP, i int) rlwe.PolyQP {
	out := w.P.RingQP().NewPoly()
	P := w.P.RingP().ModulusBigint
	for j := i * w.alpha; j < (i+1)*w.alpha && j < len(w.P.RingQ().Modulus); j++ {
		q := w.P.RingQ().Modulus[j]
		f := new(big.Int).Mod(P, new(big.Int).SetUint64(q)).Uint64()
		for k, x := range s.Q.Coeffs[j] {
			out.Q.Coeffs[j][k] = mulmod(f, x%q, q)
		}
	}
	return out
}

func mulmod(a, b, q uint64) uint64 {
	return ring.BRed(a, b, q, ring.BRedParams(q))
}

// autoQP applies X -> X^gal to a transformed polynomial, by way of coefficients.
func (w *World) autoQP(a rlwe.PolyQP, gal uint64) rlwe.PolyQP {
	out := w.P.RingQP().NewPoly()
	f := func(r *ring.Ring, x, y *ring.Poly) {
		t := r.NewPoly()
		r.InvNTT(x, t)
		m := uint64(2 * w.N)
		for j, q := range r.Modulus {
			for i := 0; i < w.N; i++ {
				k := uint64(i) * gal % m
				v := t.Coeffs[j][i] % q
				if k >= uint64(w.N) {
					y.Coeffs[j][k-uint64(w.N)] = (q - v) % q
				} else {
					y.Coeffs[j][k] = v
				}
			}
		}
		r.NTT(y, y)
	}
	f(w.P.RingQ(), a.Q, out.Q)
	f(w.P.RingP(), a.P, out.P)
	return out
}

// noise collects error polynomials: each new, and together of the declared width.
type noise struct {
	c    *Ctx
	w    *World
	seen map[string]string
	cls  map[string]*[nClasses + 1]moment // by label, by class of positions, and all
}

type moment struct {
	n       int
	sum, sq float64
	out     [3]int // beyond one, two and three standard deviations
}

func (m *moment) add(x, sigma float64) {
	m.n++
	m.sum += x
	m.sq += x * x
	for i := range m.out {
		if math.Abs(x) > float64(i+1)*sigma {
			m.out[i]++
		}
	}
}

func (m *moment) merge(o moment) {
	m.n += o.n
	m.sum += o.sum
	m.sq += o.sq
	for i := range m.out {
		m.out[i] += o.out[i]
	}
}

// classes of the position i among n: the first, the last, by remainder.
const nClasses = 10

func className(k int) string {
	return [nClasses]string{"0 mod 8", "1 mod 8", "2 mod 8", "3 mod 8", "4 mod 8", "5 mod 8", "6 mod 8", "7 mod 8", "first", "last"}[k]
}

func eachClass(i, n int, f func(k int)) {
	f(i % 8)
	if i == 0 {
		f(8)
	}
	if i == n-1 {
		f(9)
	}
}

func (c *Ctx) noise(w *World) *noise {
	return &noise{c: c, w: w, seen: map[string]string{}, cls: map[string]*[nClasses + 1]moment{}}
}

func (s *noise) label(l string) *[nClasses + 1]moment {
	if s.cls[l] == nil {
		s.cls[l] = new([nClasses + 1]moment)
	}
	return s.cls[l]
}

// add takes an error polynomial, of the kinds which the labels name.
func (s *noise) add(what string, e []float64, labels ...string) {
	s.unique(what, e)
	for _, l := range append(labels, "") {
		m := s.label(l)
		for i, x := range e {
			m[nClasses].add(x, s.w.Sigma)
			eachClass(i, len(e), func(k int) { m[k].add(x, s.w.Sigma) })
		}
	}
}

// unique: no two polynomials are equal, opposite or zero (rings large enough for
// this never to happen by chance).
func (s *noise) unique(what string, e []float64) {
	if len(e) < 64 || s.w.Sigma < 2 && len(e) < 128 {
		return
	}
	neg := make([]float64, len(e))
	zero := true
	for i := range e {
		neg[i] = -e[i] + 0
		e[i] += 0
		zero = zero && e[i] == 0
	}
	s.c.Check(!zero, "no-randomness", "%s is zero", what)
	k, kn := fmt.Sprint(e), fmt.Sprint(neg)
	if o, ok := s.seen[k]; ok {
		s.c.Failf("reused-randomness", "%s is the same polynomial as %s", what, o)
	}
	if o, ok := s.seen[kn]; ok {
		s.c.Failf("reused-randomness", "%s is the opposite of %s", what, o)
	}
	s.seen[k] = what
	s.c.Event("fresh-error")
}

// width: mean zero and the standard deviation of the parameters, at seven standard
// errors.
func (s *noise) width() {
	var ls []string
	for l := range s.cls {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		for k, m := range s.cls[l] {
			what := "error coefficients"
			if l != "" {
				what += " of " + l
			}
			if k < nClasses {
				what += " at the positions " + className(k)
			}
			s.moments(m, what)
		}
	}
}

func (s *noise) moments(m moment, what string) {
	if m.n < 400 {
		return
	}
	n := float64(m.n)
	sg := s.w.Sigma
	mean := m.sum / n
	v := m.sq / n
	s.c.Check(math.Abs(mean) <= 7*sg/math.Sqrt(n), "biased-error", "the mean of %d %s is %g (width %g)", m.n, what, mean, sg)
	lo := 0.97*sg*sg*(1-7*math.Sqrt(2/n)) - 0.05
	hi := (1.03*sg*sg + 0.17) * (1 + 7*math.Sqrt(2/n))
	s.c.Ratio("error-variance", v/hi)
	s.c.Check(v >= lo && v <= hi, "error-width", "the variance of %d %s is %g, expected about %g (%g to %g)", m.n, what, v, sg*sg, lo, hi)
	// the tails: rounding moves the border by up to one half
	for i, k := range m.out {
		b := float64(i+1) * sg
		hi := math.Erfc(math.Max(b-1, 0) / (sg * math.Sqrt2))
		lo := math.Erfc((b + 1) / (sg * math.Sqrt2))
		if n*lo < 60 {
			continue
		}
		f := float64(k) / n
		s.c.Check(f >= lo-7*math.Sqrt(lo/n) && f <= hi+7*math.Sqrt(hi/n), "error-tail", "%d of %d %s are beyond %d standard deviations, expected a share of %.3g to %.3g", k, m.n, what, i+1, lo, hi)
		s.c.Event("error-tail")
	}
	s.c.Event("error-width")
}

// secret makes a secret key of some distribution.
func (c *Ctx) secret(w *World, kg *mkrlwe.KeyGenerator, id string) (*mkrlwe.SecretKey, string) {
	switch c.R.IntN(4) {
	case 0:
		return kg.GenSecretKeyGaussian(id), "gaussian"
	case 1:
		return kg.GenSecretKeySparse(1+c.R.IntN(w.N/2), id), "sparse"
	case 2:
		return kg.GenSecretKeyWithDistrib(0.2+0.6*c.R.Float64(), id), "distrib"
	}
	return kg.GenSecretKey(id), "ternary"
}

// disturb makes the generator produce something else in between.
func (c *Ctx) disturb(w *World, kg *mkrlwe.KeyGenerator, sk *mkrlwe.SecretKey) string {
	switch c.R.IntN(6) {
	case 0:
		kg.GenRelinearizationKey(sk, kg.GenSecretKey(sk.ID))
		return "rlk"
	case 1:
		kg.GenRotationKey(1, sk)
		return "rtk"
	case 2:
		kg.GenConjugationKey(sk)
		return "cjk"
	case 3:
		kg.GenPublicKey(sk)
		return "pk"
	case 4:
		kg.GenKeyPair("x")
		return "pair"
	}
	return "none"
}

// pkError recovers the error of a public key.
func (c *Ctx) pkError(w *World, what string, pk *mkrlwe.PublicKey, sk *mkrlwe.SecretKey) []float64 {
	e := w.addQP(pk.Value[0], w.mulQP(sk.Value, pk.Value[1]))
	return c.smallQP(w, what, e, w.errLim())
}

func eqQP(w *World, a, b rlwe.PolyQP) bool {
	for _, s := range []struct {
		a, b *ring.Poly
		m    []uint64
	}{{a.Q, b.Q, w.P.RingQ().Modulus}, {a.P, b.P, w.P.RingP().Modulus}} {
		if len(s.a.Coeffs) != len(s.b.Coeffs) || len(s.a.Coeffs) != len(s.m) {
			return false
		}
		for j, q := range s.m {
			for i := range s.a.Coeffs[j] {
				if s.a.Coeffs[j][i]%q != s.b.Coeffs[j][i]%q {
					return false
				}
			}
		}
	}
	return true
}

func runPublicKeys(c *Ctx) {
	cfg := c.stdCfg()
	w := c.gammaWorld(cfg, c.randGamma(cfg))
	kg := mkrlwe.NewKeyGenerator(w.P.Parameters)
	kg2 := mkckks.NewKeyGenerator(w.P)
	ns := c.noise(w)
	before := crsHash(w.P.Parameters)
	n := 6
	if w.N < 64 {
		n = 10
	}
	for i := 0; i < n; i++ {
		id := hostileIDs[c.R.IntN(len(hostileIDs))]
		g := kg
		if c.R.IntN(3) == 0 {
			g = kg2
		}
		var sk *mkrlwe.SecretKey
		var pk *mkrlwe.PublicKey
		kind := "pair"
		switch c.R.IntN(4) {
		case 0:
			sk, pk = g.GenKeyPair(id)
		case 1:
			kind = "sparse-pair"
			sk, pk = g.GenKeyPairSparse(1+c.R.IntN(w.N/2), id)
		default:
			sk, kind = c.secret(w, g, id)
			kind += ">" + c.disturb(w, g, sk)
			h := qpHash(sk.Value)
			pk = g.GenPublicKey(sk)
			c.Check(h == qpHash(sk.Value) && sk.ID == id, "operand-changed", "GenPublicKey changed the secret key")
			if c.R.IntN(2) == 0 {
				// a second public key of the same secret has another error
				pk2 := kg2.GenPublicKey(sk)
				ns.add("the error of a second public key", c.pkError(w, "public key", pk2, sk))
				c.Event("public-key")
			}
		}
		c.Logf("public key of %q %s", id, kind)
		c.Check(pk.ID == id && sk.ID == id, "owner", "keys generated for %q carry %q and %q", id, sk.ID, pk.ID)
		c.Check(eqQP(w, pk.Value[1], w.P.CRS[0].Value[0]), "not-common", "the public key of %q does not use the common reference string", id)
		ns.add(fmt.Sprintf("the error of public key %d", i), c.pkError(w, fmt.Sprintf("error of the public key of %q (%s)", id, kind), pk, sk))
		// the parts of a key are its own memory
		scr := w.P.CRS[0].Value[0].Q.Coeffs[0][0]
		pk.Value[1].Q.Coeffs[0][0] ^= 1
		c.Check(w.P.CRS[0].Value[0].Q.Coeffs[0][0] == scr, "aliasing", "a public key shares memory with the common reference string")
		pk.Value[1].Q.Coeffs[0][0] ^= 1
		c.Event("public-key")
		c.State("%s|%s|%d", w.Name+w.Tag, kind, i)
	}
	if w.N >= 64 && w.N <= 256 && c.Case%6 == 0 {
		// two generators that do the same, for a long time
		n := c.long(30+c.R.IntN(120), w)
		twins := []*mkrlwe.KeyGenerator{mkrlwe.NewKeyGenerator(w.P.Parameters), mkrlwe.NewKeyGenerator(w.P.Parameters)}
		id := hostileIDs[c.R.IntN(len(hostileIDs))]
		secrets := c.noise(w)
		for i := 0; i < n; i++ {
			for j, g := range twins {
				sk, pk := g.GenKeyPair(id)
				secrets.unique(fmt.Sprintf("secret %d of generator %d", i, j), c.skSmall(w, "secret", sk, 1))
				ns.add(fmt.Sprintf("the error of public key %d of generator %d", i, j), c.pkError(w, "public key", pk, sk))
			}
		}
		c.Logf("%d key pairs by each of two", n)
		c.Event("marathon")
		c.State("%s|marathon", w.Name+w.Tag)
	}
	ns.width()
	c.Check(before == crsHash(w.P.Parameters), "operand-changed", "key generation changed the common reference strings")
	w.poolNoise(c, ns)
}

// long makes some of the long runs longer still: generators with a period, or which
// change their ways after so many calls, have to show it.
func (c *Ctx) long(n int, w *World) int {
	if c.Case%72 != 0 && c.Case%72 != 30 {
		return n
	}
	n = 600 + c.R.IntN(1000)
	if c.R.IntN(3) == 0 {
		n = 4200 + c.R.IntN(400)
	}
	c.Event("long-marathon")
	return n * 64 / w.N
}

// poolNoise gathers the error statistics of the small rings over cases.
var pooled = map[float64]*noise{}

func (w *World) poolNoise(c *Ctx, s *noise) {
	p := pooled[w.Sigma]
	if p == nil {
		p = c.noise(w)
		pooled[w.Sigma] = p
	}
	p.c, p.w = c, w
	for l, ms := range s.cls {
		for k := range ms {
			p.label(l)[k].merge(ms[k])
		}
	}
	p.width()
}

func (c *Ctx) gadgetErrors(w *World, what string, swk *mkrlwe.SwitchingKey, f func(i int) rlwe.PolyQP, ns *noise) {
	beta := (len(w.P.RingQ().Modulus) + w.alpha - 1) / w.alpha
	c.Check(len(swk.Value) == beta, "digits", "%s has %d digits, expected %d", what, len(swk.Value), beta)
	for i := range swk.Value {
		// f gives what the digit is to be, error aside, in Montgomery form
		e := w.invM(w.subQP(swk.Value[i], f(i)))
		x := c.smallQP(w, fmt.Sprintf("error of digit %d of %s", i, what), e, w.errLim())
		kind := what
		if _, k, ok := strings.Cut(what, " of many "); ok {
			kind = k
		}
		kind = strings.TrimRight(kind, "-0123456789 ")
		ns.add(fmt.Sprintf("the error of digit %d of %s", i, what), x, "a "+kind, fmt.Sprintf("digit %d of a %s", i, kind))
	}
}

func (w *World) negQP(a rlwe.PolyQP) rlwe.PolyQP {
	return w.subQP(w.P.RingQP().NewPoly(), a)
}

func runEvalKeys(c *Ctx) {
	cfg := c.stdCfg()
	gamma := c.randGamma(cfg)
	w := c.gammaWorld(cfg, gamma)
	before := crsHash(w.P.Parameters)
	kg := mkrlwe.NewKeyGenerator(w.P.Parameters)
	ns := c.noise(w)
	id := hostileIDs[c.R.IntN(len(hostileIDs))]
	sk, kind := c.secret(w, kg, id)
	r, rkind := c.secret(w, kg, id+"r")
	hs, hr := qpHash(sk.Value), qpHash(r.Value)
	crs := w.P.CRS
	h := w.N / 2
	for i := 0; i < 4; i++ {
		if c.R.IntN(3) == 0 {
			c.disturb(w, kg, sk)
		}
		which := (c.Case + i) % 5
		switch which {
		case 0:
			k := kg.GenRelinearizationKey(sk, r)
			c.Logf("relinearization key %s %s", kind, rkind)
			c.Check(k.ID == id, "owner", "the relinearization key generated for %q carries %q", id, k.ID)
			c.gadgetErrors(w, "relinearization key part 0", k.Value[0], func(i int) rlwe.PolyQP { return w.negQP(w.mulQP(crs[0].Value[i], sk.Value)) }, ns)
			c.gadgetErrors(w, "relinearization key part 1", k.Value[1], func(i int) rlwe.PolyQP {
				return w.subQP(w.gadget(sk.Value, i), w.mulQP(crs[0].Value[i], r.Value))
			}, ns)
			c.gadgetErrors(w, "relinearization key part 2", k.Value[2], func(i int) rlwe.PolyQP {
				return w.negQP(w.addQP(w.gadget(r.Value, i), w.mulQP(crs[-1].Value[i], sk.Value)))
			}, ns)
			c.Event("relinearization-key")
		case 1:
			k := 1 << c.R.IntN(w.LogN-1)
			ask := k
			switch c.R.IntN(4) {
			case 0:
				ask = k - h
			case 1:
				ask = k - 3*h
			}
			kg, crs := kg, crs
			if c.R.IntN(3) == 0 {
				// any other index, once it has a reference string
				k = c.R.IntN(h)
				if c.R.IntN(6) == 0 {
					k = []int{0, h - 1}[c.R.IntN(2)]
				}
				ask = k - h*c.R.IntN(3)
				P := w.P.Parameters
				P.CRS = make(map[int]*mkrlwe.SwitchingKey)
				for i, a := range w.P.CRS {
					P.CRS[i] = a
				}
				kg = mkrlwe.NewKeyGenerator(P) // it may be there before the index is
				if c.R.IntN(4) == 0 {
					kg.GenRotationKey(1, sk)
				}
				if P.CRS[k] == nil {
					P.AddCRS(k)
				}
				if c.R.IntN(2) == 0 {
					kg = mkrlwe.NewKeyGenerator(P)
				}
				crs = P.CRS
				c.Event("any-index")
			}
			rk := kg.GenRotationKey(ask, sk)
			c.Logf("rotation key %d %s", ask, kind)
			c.Check(rk.ID == id && rk.RotIdx == uint(k), "owner", "the rotation key by %d for %q carries %q and index %d", ask, id, rk.ID, rk.RotIdx)
			// sigma^-1(s): the key switches before the automorphism is applied
			si := w.autoQP(sk.Value, w.galRot(-k))
			c.gadgetErrors(w, fmt.Sprintf("rotation key %d", ask), rk.Value, func(i int) rlwe.PolyQP {
				return w.subQP(w.gadget(sk.Value, i), w.mulQP(crs[k].Value[i], si))
			}, ns)
			c.Event("rotation-key")
			c.State("%s|g%d|rot%d|%s", w.Name, gamma, ask, kind)
		case 2:
			k := kg.GenConjugationKey(sk)
			c.Logf("conjugation key %s", kind)
			c.Check(k.ID == id, "owner", "the conjugation key for %q carries %q", id, k.ID)
			sc := w.autoQP(sk.Value, w.galConj())
			c.gadgetErrors(w, "conjugation key", k.Value, func(i int) rlwe.PolyQP {
				return w.subQP(w.gadget(sc, i), w.mulQP(crs[-2].Value[i], sk.Value))
			}, ns)
			c.Event("conjugation-key")
		case 3:
			swk := mkrlwe.NewSwitchingKey(w.P.Parameters)
			// over whatever was there before
			for i := range swk.Value {
				for j := range swk.Value[i].Q.Coeffs {
					swk.Value[i].Q.Coeffs[j][i%w.N] = 7
				}
			}
			kg.GenSwitchingKey(sk, swk)
			c.gadgetErrors(w, "switching key", swk, func(i int) rlwe.PolyQP { return w.gadget(sk.Value, i) }, ns)
			c.Event("switching-key")
		default:
			if w.LogN > 9 {
				c.defaultRotations(c.World(wideCfgs[(c.Case/10)%len(wideCfgs)]))
				continue
			}
			set := mkrlwe.NewRotationKeySet()
			kg.GenDefaultRotationKeys(sk, set)
			n := 0
			for k := 1; k < h; k *= 2 {
				rk := set.GetRotationKey(id, uint(k))
				n++
				c.Check(rk.ID == id && rk.RotIdx == uint(k), "owner", "default rotation key %d carries %q and index %d", k, rk.ID, rk.RotIdx)
				si := w.autoQP(sk.Value, w.galRot(-k))
				c.gadgetErrors(w, fmt.Sprintf("default rotation key %d", k), rk.Value, func(i int) rlwe.PolyQP {
					return w.subQP(w.gadget(sk.Value, i), w.mulQP(crs[k].Value[i], si))
				}, ns)
			}
			c.Check(n == w.LogN-1, "missing-key", "%d default rotation keys, expected %d", n, w.LogN-1)
			c.Event("default-rotation-keys")
		}
		c.State("%s|g%d|%d|%s", w.Name, gamma, which, kind)
	}
	if w.N >= 64 && w.N <= 128 && c.Case%12 == 6 {
		// one generator, for a long time
		n := 40 + c.R.IntN(60)
		if c.Case%60 == 6 {
			n = 500 + c.R.IntN(600)
		}
		which := c.R.IntN(4)
		for i := 0; i < n; i++ {
			what := fmt.Sprintf("number %d of many ", i)
			switch which {
			case 0:
				k := 1 << (i % (w.LogN - 1))
				si := w.autoQP(sk.Value, w.galRot(-k))
				c.gadgetErrors(w, what+"rotation keys", kg.GenRotationKey(k, sk).Value, func(i int) rlwe.PolyQP {
					return w.subQP(w.gadget(sk.Value, i), w.mulQP(crs[k].Value[i], si))
				}, ns)
			case 1:
				sc := w.autoQP(sk.Value, w.galConj())
				c.gadgetErrors(w, what+"conjugation keys", kg.GenConjugationKey(sk).Value, func(i int) rlwe.PolyQP {
					return w.subQP(w.gadget(sc, i), w.mulQP(crs[-2].Value[i], sk.Value))
				}, ns)
			case 2:
				k := kg.GenRelinearizationKey(sk, r)
				c.gadgetErrors(w, what+"relinearization keys (part 0)", k.Value[0], func(i int) rlwe.PolyQP { return w.negQP(w.mulQP(crs[0].Value[i], sk.Value)) }, ns)
				c.gadgetErrors(w, what+"relinearization keys (part 1)", k.Value[1], func(i int) rlwe.PolyQP {
					return w.subQP(w.gadget(sk.Value, i), w.mulQP(crs[0].Value[i], r.Value))
				}, ns)
				c.gadgetErrors(w, what+"relinearization keys (part 2)", k.Value[2], func(i int) rlwe.PolyQP {
					return w.negQP(w.addQP(w.gadget(r.Value, i), w.mulQP(crs[-1].Value[i], sk.Value)))
				}, ns)
			default:
				swk := mkrlwe.NewSwitchingKey(w.P.Parameters)
				kg.GenSwitchingKey(sk, swk)
				c.gadgetErrors(w, what+"switching keys", swk, func(i int) rlwe.PolyQP { return w.gadget(sk.Value, i) }, ns)
			}
		}
		c.Logf("%d keys of kind %d", n, which)
		c.Event("marathon")
		c.State("%s|g%d|marathon|%d", w.Name, gamma, which)
	}
	c.Check(hs == qpHash(sk.Value) && hr == qpHash(r.Value) && sk.ID == id, "operand-changed", "key generation changed a secret key")
	c.Check(before == crsHash(w.P.Parameters), "operand-changed", "key generation changed the common reference strings")
	w.poolNoise(c, ns)
}

// wideCfgs: rings of every size in use, with as few primes as there can be.
var wideCfgs = []Cfg{
	{"wide-n12", 12, 11, []int{50}, rep(55, 2), 35, sg},
	{"wide-n13", 13, 12, []int{50}, rep(55, 2), 35, sg},
	{"wide-n14", 14, 13, []int{50}, rep(55, 2), 35, sg},
	{"wide-n15", 15, 14, []int{50}, rep(55, 2), 35, sg},
	{"wide-n16", 16, 15, []int{50}, rep(55, 2), 35, sg},
}

// defaultRotations: the default rotation keys are all there, each of them a key.
func (c *Ctx) defaultRotations(w *World) {
	kg := mkrlwe.NewKeyGenerator(w.P.Parameters)
	sk := kg.GenSecretKey("wide")
	set := mkrlwe.NewRotationKeySet()
	kg.GenDefaultRotationKeys(sk, set)
	ns := c.noise(w)
	some := c.R.IntN(w.LogN - 1)
	for i := 0; i < w.LogN-1; i++ {
		rk := set.Value["wide"][uint(1)<<i]
		c.Check(rk != nil, "missing-key", "there is no default rotation key %d (ring degree %d)", 1<<i, w.N)
		c.Check(rk.ID == "wide" && rk.RotIdx == uint(1)<<i, "owner", "default rotation key %d carries %q and index %d", 1<<i, rk.ID, rk.RotIdx)
		if i != some && i != w.LogN-2 {
			continue
		}
		si := w.autoQP(sk.Value, w.galRot(-(1 << i)))
		c.gadgetErrors(w, fmt.Sprintf("default rotation key %d", 1<<i), rk.Value, func(j int) rlwe.PolyQP {
			return w.subQP(w.gadget(sk.Value, j), w.mulQP(w.P.CRS[1<<i].Value[j], si))
		}, ns)
	}
	ns.width()
	c.Event("default-rotation-keys")
	c.State("%s|default", w.Name)
}

// skSmall reads a secret key modulo every prime.
func (c *Ctx) skSmall(w *World, what string, sk *mkrlwe.SecretKey, lim float64) []float64 {
	return c.smallQP(w, what, w.invM(sk.Value), lim)
}

type binom struct {
	n, k int
	p    float64
}

var pooledBins = map[string]*binom{}

// frequency: k hits out of n at probability p, pooled over cases, within seven
// standard errors.
func (c *Ctx) frequency(name string, n, k int, p float64) {
	b := pooledBins[name]
	if b == nil {
		b = &binom{}
		pooledBins[name] = b
	}
	b.n += n
	b.k += k
	b.p += p * float64(n)
	for _, x := range []binom{{n, k, p}, {b.n, b.k, b.p / float64(b.n)}} {
		if x.n < 500 {
			continue
		}
		m := x.p * float64(x.n)
		sd := math.Sqrt(m*(1-x.p)) + 1
		c.Ratio("frequency", math.Abs(float64(x.k)-m)/(7*sd))
		c.Check(math.Abs(float64(x.k)-m) <= 7*sd, "distribution", "%s: %d of %d, expected %.0f (standard deviation %.1f)", name, x.k, x.n, m, sd)
	}
}

func runSecrets(c *Ctx) {
	cfg := c.stdCfg()
	w := c.World(cfg)
	kgs := []*mkrlwe.KeyGenerator{mkrlwe.NewKeyGenerator(w.P.Parameters), mkckks.NewKeyGenerator(w.P)}
	ns := c.noise(w)
	seen := c.noise(w)
	count := func(s []float64) (z, pos, lowHalf int) {
		for i, x := range s {
			switch {
			case x == 0:
				z++
			case x > 0:
				pos++
			}
			if x != 0 && i < len(s)/2 {
				lowHalf++
			}
		}
		return
	}
	classes := func(s []float64) {
		var cn, cz [nClasses]int
		nz := 0
		for j, x := range s {
			if x != 0 {
				nz++
			}
			eachClass(j, w.N, func(k int) {
				cn[k]++
				if x != 0 {
					cz[k]++
				}
			})
		}
		for k := range cn {
			c.frequency("non-zero of ternary secrets at "+className(k), cn[k], cz[k], float64(nz)/float64(w.N))
		}
	}
	for i := 0; i < 8; i++ {
		kg := kgs[c.R.IntN(2)]
		id := hostileIDs[c.R.IntN(len(hostileIDs))]
		var sk *mkrlwe.SecretKey
		var s []float64
		kind, par := "", ""
		switch (c.Case + i) % 6 {
		case 0, 1:
			kind = "ternary"
			if c.R.IntN(2) == 0 {
				sk = kg.GenSecretKey(id)
			} else {
				var pk *mkrlwe.PublicKey
				sk, pk = kg.GenKeyPair(id)
				c.pkError(w, "public key of the pair", pk, sk)
				c.Check(pk.ID == id, "owner", "public key of %q carries %q", id, pk.ID)
				c.Event("key-pair")
			}
			s = c.skSmall(w, "ternary secret", sk, 1)
			z, pos, low := count(s)
			c.Check(w.N < 64 || (z > w.N/8 && z < w.N*7/8), "distribution", "a ternary secret with %d zeros of %d coefficients", z, w.N)
			c.frequency("positive among non-zero of ternary secrets", w.N-z, pos, 0.5)
			c.frequency("lower half among non-zero of ternary secrets", w.N-z, low, 0.5)
			classes(s)
		case 2:
			kind = "sparse"
			hw := 1 + c.R.IntN(w.N)
			if c.R.IntN(3) == 0 {
				hw = []int{0, 1, 2, w.N / 2, w.N - 1, w.N}[c.R.IntN(6)]
			}
			par = fmt.Sprint(hw)
			if c.R.IntN(2) == 0 {
				sk = kg.GenSecretKeySparse(hw, id)
			} else {
				var pk *mkrlwe.PublicKey
				sk, pk = kg.GenKeyPairSparse(hw, id)
				c.pkError(w, "public key of the sparse pair", pk, sk)
				c.Check(pk.ID == id, "owner", "public key of %q carries %q", id, pk.ID)
				c.Event("key-pair")
			}
			s = c.skSmall(w, "sparse secret", sk, 1)
			z, pos, low := count(s)
			c.Check(w.N-z == hw, "distribution", "a sparse secret of weight %d has %d non-zero coefficients", hw, w.N-z)
			c.frequency("positive among non-zero of sparse secrets", hw, pos, 0.5)
			if hw <= w.N/8 {
				c.frequency("lower half among non-zero of sparse secrets", hw, low, 0.5)
			}
		case 3, 4:
			kind = "distrib"
			p := []float64{1.0 / 3, 0.5, 0.25, 0.75, 0.1, 0.9, 0.02, 0.97}[c.R.IntN(8)]
			par = fmt.Sprint(p)
			sk = kg.GenSecretKeyWithDistrib(p, id)
			s = c.skSmall(w, "ternary secret", sk, 1)
			z, pos, _ := count(s)
			c.frequency(fmt.Sprintf("zeros of secrets with %.2f zeros", p), w.N, z, p)
			c.frequency("positive among non-zero of distributed secrets", w.N-z, pos, 0.5)
		default:
			kind = "gaussian"
			sk = kg.GenSecretKeyGaussian(id)
			s = c.skSmall(w, "gaussian secret", sk, w.errLim())
			ns.add("a gaussian secret", s)
		}
		c.Logf("%s %s %q", kind, par, id)
		c.Event(kind)
		c.State("%s|%s|%s", w.Name, kind, par)
		c.Check(sk.ID == id, "owner", "the secret key generated for %q carries %q", id, sk.ID)
		if z, _, _ := count(s); w.N-z >= 24 && w.N >= 64 {
			seen.unique("a "+kind+" secret", s)
			c.Event("fresh-secret")
		}
	}
	if w.N >= 64 && w.N <= 512 && c.Case%6 == 0 {
		// two generators that do the same, for a long time
		n := c.long(30+c.R.IntN(120), w)
		twins := []*mkrlwe.KeyGenerator{mkrlwe.NewKeyGenerator(w.P.Parameters), mkrlwe.NewKeyGenerator(w.P.Parameters)}
		kind := c.R.IntN(4)
		for i := 0; i < n; i++ {
			for j, g := range twins {
				what := fmt.Sprintf("secret %d of generator %d", i, j)
				switch kind {
				case 0:
					s := c.skSmall(w, what, g.GenSecretKey("a"), 1)
					classes(s)
					seen.unique(what, s)
				case 1:
					s := c.skSmall(w, what, g.GenSecretKeySparse(w.N/4, "a"), 1)
					z, _, _ := count(s)
					c.Check(w.N-z == w.N/4, "distribution", "a sparse secret of weight %d has %d non-zero coefficients", w.N/4, w.N-z)
					seen.unique(what, s)
				case 2:
					s := c.skSmall(w, what, g.GenSecretKeyWithDistrib(1.0/3, "a"), 1)
					z, _, _ := count(s)
					c.frequency("zeros of secrets with 0.33 zeros", w.N, z, 1.0/3)
					classes(s)
					seen.unique(what, s)
				default:
					ns.add(what, c.skSmall(w, what, g.GenSecretKeyGaussian("a"), w.errLim()))
				}
			}
		}
		c.Logf("%d secrets of kind %d by each of two", n, kind)
		c.Event("marathon")
		c.State("%s|marathon|%d", w.Name, kind)
	}
	w.poolNoise(c, ns)
}

// constPK is a public key whose two parts are the constants a and b.
func (w *World) constPK(id string, a, b uint64) *mkrlwe.PublicKey {
	pk := mkrlwe.NewPublicKey(w.P.Parameters, id)
	set := func(r *ring.Ring, p *ring.Poly, v uint64) {
		for j, q := range r.Modulus {
			for i := range p.Coeffs[j] {
				p.Coeffs[j][i] = v % q
			}
		}
	}
	set(w.P.RingQ(), pk.Value[0].Q, a)
	set(w.P.RingQ(), pk.Value[1].Q, b)
	set(w.P.RingP(), pk.Value[0].P, a)
	set(w.P.RingP(), pk.Value[1].P, b)
	return pk
}

func runEncRandom(c *Ctx) {
	w := c.World(c.stdCfg())
	ns := c.noise(w)
	masks := c.noise(w)
	id := hostileIDs[c.R.IntN(len(hostileIDs))]
	const K = 1 << 16
	encs := []*mkckks.Encryptor{mkckks.NewEncryptor(w.P), mkckks.NewEncryptor(w.P)}
	rencs := []*mkrlwe.Encryptor{mkrlwe.NewEncryptor(w.P.Parameters), mkrlwe.NewEncryptor(w.P.Parameters)}
	L := w.P.MaxLevel()
	rQ := w.P.RingQ()
	look := func(i int, kind string, ct *mkckks.Ciphertext, pt *ring.Poly, level int, ka, kb uint64) {
		c.Check(ct.Level() == level, "level", "encryption at level %d, expected %d", ct.Level(), level)
		read := func(p *ring.Poly) *ring.Poly {
			t := rQ.NewPolyLvl(level)
			rQ.ReduceLvl(level, p, t)
			if p.IsNTT {
				rQ.InvNTTLvl(level, t, t)
			}
			return t
		}
		c0, c1 := read(ct.Value["0"]), read(ct.Value[id])
		rQ.SubLvl(level, c0, pt, c0)
		rQ.ReduceLvl(level, c0, c0)
		split := func(what string, p *ring.Poly, k uint64) (u, e []float64) {
			x := c.small(what, p.Coeffs, rQ.Modulus[:level+1], float64(k)+w.errLim())
			u, e = make([]float64, w.N), make([]float64, w.N)
			for i := range x {
				if k != 0 {
					u[i] = math.Round(x[i] / float64(k))
				}
				e[i] = x[i] - u[i]*float64(k)
			}
			return
		}
		u0, e0 := split("c0", c0, ka)
		u1, e1 := split("c1", c1, kb)
		for _, e := range [][]float64{e0, e1} {
			for j := range e {
				c.Check(math.Abs(e[j]) <= w.errLim(), "too-large", "an encryption error of %g (width %g)", e[j], w.Sigma)
			}
		}
		ns.add(fmt.Sprintf("error of c0 of encryption %d", i), e0, "component 0 "+kind, fmt.Sprintf("component 0 below level 1: %v", level < 1))
		ns.add(fmt.Sprintf("error of c1 of encryption %d", i), e1, "component 1 "+kind, fmt.Sprintf("component 1 below level 1: %v", level < 1))
		c.Event("error")
		if ka != 0 {
			if kb != 0 {
				for j := range u0 {
					c.Check(u0[j] == u1[j], "inconsistent", "the two components of an encryption are masked by different polynomials")
				}
			}
			nz, pos := 0, 0
			var cn, cz [nClasses]int
			for j, x := range u0 {
				eachClass(j, len(u0), func(k int) {
					cn[k]++
					if x != 0 {
						cz[k]++
					}
				})
				c.Check(math.Abs(x) <= 1, "too-large", "a mask coefficient of %g", x)
				if x != 0 {
					nz++
				}
				if x > 0 {
					pos++
				}
			}
			if w.N >= 64 {
				masks.unique(fmt.Sprintf("mask of encryption %d", i), u0)
			}
			c.frequency("non-zero of encryption masks", w.N, nz, 0.5)
			for k := range cn {
				c.frequency("non-zero of encryption masks at "+className(k), cn[k], cz[k], 0.5)
			}
			c.frequency("positive of non-zero of encryption masks", nz, pos, 0.5)
			c.Event("mask")
		}
	}
	for i := 0; i < 6; i++ {
		mode := c.R.IntN(4)
		// errors are bare under a zero key, the mask under a constant one
		ka, kb := uint64(0), uint64(0)
		switch c.R.IntN(3) {
		case 0:
			ka = K
		case 1:
			ka, kb = K, 2*K
		}
		pk := w.constPK(id, ka, kb)
		v, _ := randMsg(c.R, w.Slots, 1)
		level, scale := L, w.P.Scale()
		var ct *mkckks.Ciphertext
		dom := "x"
		enc := encs[c.R.IntN(2)]
		var pt *ring.Poly
		switch mode {
		case 0:
			pt = enc.EncodeMsgNew(msgOf(v)).Value
			ct = enc.EncryptMsgNew(msgOf(v), pk)
		case 1:
			pt = enc.EncodeMsgNew(msgOf(v)).Value
			ids := mkrlwe.NewIDSet()
			ids.Add(id)
			ids.Add("other")
			ct = enc.EncryptMsgNewExpand(msgOf(v), pk, ids)
		default:
			level = c.R.IntN(L + 1)
			scale = c.randScale(w, level)
			pt = w.encode(v, level, scale)
			in := &rlwe.Plaintext{Value: clonePoly(pt)}
			if c.R.IntN(2) == 0 {
				dom += "pt"
				rQ.NTTLvl(level, in.Value, in.Value)
				in.Value.IsNTT = true
			}
			ids := mkrlwe.NewIDSet()
			ids.Add(id)
			cl := level + c.R.IntN(L-level+1)
			rc := mkrlwe.NewCiphertext(w.P.Parameters, ids, cl)
			if c.R.IntN(2) == 0 {
				dom += "ct"
				rc = mkrlwe.NewCiphertextNTT(w.P.Parameters, ids, cl)
			}
			rencs[c.R.IntN(2)].Encrypt(in, pk, rc)
			ct = &mkckks.Ciphertext{Ciphertext: rc, Scale: scale}
		}
		c.Logf("encrypt mode=%d domain=%s level=%d key=(%d,%d)", mode, dom, level, ka, kb)
		c.State("%s|%d|%s|l%d|%d,%d", w.Name, mode, dom, level, ka, kb)
		look(i, dom, ct, pt, level, ka, kb)
		c.Event("fresh-randomness")
	}
	if w.N >= 64 && w.N <= 256 && c.Case%6 == 0 {
		// two encryptors that do the same, for a long time
		pk := w.constPK(id, K, 2*K)
		v, _ := randMsg(c.R, w.Slots, 1)
		n := c.long(40+c.R.IntN(260), w)
		twins := []*mkckks.Encryptor{mkckks.NewEncryptor(w.P), mkckks.NewEncryptor(w.P)}
		level := L
		if c.R.IntN(2) == 0 {
			level = 0
		}
		dom := []string{"x", "xct", "xpt", "xptct"}[c.R.IntN(4)]
		for i := 0; i < n; i++ {
			for j, enc := range twins {
				pt := enc.EncodeMsgNew(msgOf(v))
				ids := mkrlwe.NewIDSet()
				ids.Add(id)
				ct := mkckks.NewCiphertext(w.P, ids, level, 1)
				if strings.Contains(dom, "ct") {
					ct.Value["0"].IsNTT = true
					ct.Value[id].IsNTT = true
				}
				if strings.Contains(dom, "pt") {
					in := enc.EncodeMsgNew(msgOf(v))
					rQ.NTT(in.Value, in.Value)
					in.Value.IsNTT = true
					enc.EncryptPtxt(in, pk, ct)
				} else {
					enc.EncryptMsg(msgOf(v), pk, ct)
				}
				look(100000*(j+1)+i, dom, ct, pt.Value, level, K, 2*K)
			}
		}
		c.Logf("%d encryptions by each of two", n)
		c.Event("marathon")
		c.State("%s|marathon|l%d|%s", w.Name, level, dom)
	}
	w.poolNoise(c, ns)
	c.Event("randomness-width")
}

func runCRS(c *Ctx) {
	cfg := c.stdCfg()
	if c.Case%240 == 17 {
		cfg = wideCfgs[len(wideCfgs)-1-(c.Case/240)%2]
	}
	gamma := c.randGamma(cfg)
	ck := mkCKKS(cfg)
	w := &World{Cfg: cfg, CK: ck, N: 1 << cfg.LogN, Slots: 1 << cfg.LogSlots}
	w.P = mkckks.NewParameters(ck)
	if gamma != 2 {
		w.P.Parameters = mkrlwe.NewParameters(ck.Parameters, gamma)
	}
	w.setDigits(gamma)
	P := w.P.Parameters
	beta := (len(w.P.RingQ().Modulus) + w.alpha - 1) / w.alpha
	seen := map[uint64]string{}
	var sum float64
	var cnt int
	pos, raw, posRows := make([]float64, w.N), make([]float64, w.N), 0
	type moments struct{ n, s, s2, low float64 }
	per := map[uint64]*moments{} // by prime
	rows := func(name string, r *ring.Ring, p *ring.Poly) {
		c.Check(len(p.Coeffs) == len(r.Modulus), "malformed", "%s has %d rows, expected %d", name, len(p.Coeffs), len(r.Modulus))
		for j, q := range r.Modulus {
			c.Check(len(p.Coeffs[j]) == w.N, "malformed", "%s has rows of %d", name, len(p.Coeffs[j]))
			h := uint64(14695981039346656037)
			pm := per[q]
			if pm == nil {
				pm = new(moments)
				per[q] = pm
			}
			posRows++
			for k, x := range p.Coeffs[j] {
				c.Check(x < q, "range", "%s: residue %d of modulus %d", name, x, q)
				u := float64(x) / float64(q)
				pos[k] += u
				raw[k] += float64(ring.InvMForm(x, q, r.MredParams[j])) / float64(q)
				sum += u
				cnt++
				pm.n++
				pm.s += u
				pm.s2 += u * u
				pm.low += float64(x & 1)
				h = (h ^ x) * 1099511628211
				h ^= h >> 29
			}
			if o, ok := seen[h]; ok {
				c.Failf("reused-randomness", "%s row %d equals %s", name, j, o)
			}
			seen[h] = fmt.Sprintf("%s row %d", name, j)
		}
	}
	inspect := func(idx int) {
		s := P.CRS[idx]
		c.Check(s != nil, "missing", "there is no common reference string %d", idx)
		c.Check(len(s.Value) == beta, "digits", "string %d has %d digits, expected %d", idx, len(s.Value), beta)
		for i := range s.Value {
			rows(fmt.Sprintf("string %d digit %d Q", idx, i), w.P.RingQ(), s.Value[i].Q)
			rows(fmt.Sprintf("string %d digit %d P", idx, i), w.P.RingP(), s.Value[i].P)
		}
		c.Event("string")
		c.State("%s|g%d|%d", w.Name, gamma, idx)
	}
	standard := []int{0, -1, -2, -3, -4}
	for k := 1; k < w.N/2; k *= 2 {
		standard = append(standard, k)
	}
	for _, k := range standard {
		inspect(k)
	}
	// and whatever else there is
	var further []int
	for k := range P.CRS {
		if !slices.Contains(standard, k) {
			further = append(further, k)
		}
	}
	sort.Ints(further)
	for _, k := range further {
		inspect(k)
	}
	// copies of the parameters share the strings
	copyBefore := w.P
	ev := mkckks.NewEvaluator(w.P)
	kg := mkckks.NewKeyGenerator(w.P)
	h := w.N / 2
	for i := 0; i < 5; i++ {
		k := 3 + c.R.IntN(h-3)
		if i == 3 { // any other number may serve as an index
			k = []int{h, h + 1, h + 3, 2*h + 1 + c.R.IntN(h), 1 << 40}[c.R.IntN(5)]
		} else if i == 4 {
			k = -5 - c.R.IntN(3*h)
		}
		if _, ok := P.CRS[k]; ok {
			continue
		}
		before := crsHash(P)
		w.P.AddCRS(k)
		added := P.CRS[k]
		c.Check(added != nil, "missing", "AddCRS(%d) added nothing", k)
		delete(P.CRS, k)
		c.Check(crsHash(P) == before, "operand-changed", "AddCRS(%d) changed another reference string", k)
		P.CRS[k] = added
		inspect(k)
		c.Event("added")
		// everyone who holds the parameters works with the same string
		c.Check(copyBefore.CRS[k] == P.CRS[k], "not-common", "a copy of the parameters does not see string %d", k)
		if i == 0 {
			sk := kg.GenSecretKey("a")
			set := mkrlwe.NewRotationKeySet()
			set.AddRotationKey(kg.GenRotationKey(k, sk))
			w.parties = []*Party{{ID: "a", SK: sk, S2: l2(w.skCoeffs(sk)), R2: 1}}
			w.oracle = ckksEncoder(w)
			v, _ := randMsg(c.R, w.Slots, 1)
			l := w.P.MaxLevel()
			x := w.craft(c, w.parties, v, l, math.Min(w.P.Scale(), w.modQ(l)/(256*math.Sqrt(float64(w.N)))))
			m := &Mon{c: c, w: w, ev: ev, rtk: set}
			m.Rot(x, k)
			c.Event("shared")
		}
	}
	if cnt >= 1000 {
		mean := sum / float64(cnt)
		tol := 7 * math.Sqrt(1.0/12/float64(cnt))
		c.Ratio("uniform", math.Abs(mean-0.5)/tol)
		c.Check(math.Abs(mean-0.5) <= tol, "distribution", "the mean of %d residues is %g of the modulus", cnt, mean)
	}
	for q, pm := range per {
		if pm.n < 200 {
			continue
		}
		for _, m := range []struct {
			what                 string
			got, mean, deviation float64
		}{
			{"mean", pm.s / pm.n, 0.5, math.Sqrt(1.0 / 12)},
			{"mean square", pm.s2 / pm.n, 1.0 / 3, math.Sqrt(4.0 / 45)},
			{"share of odd values", pm.low / pm.n, 0.5, 0.5},
		} {
			tol := 7.5*m.deviation/math.Sqrt(pm.n) + 2/float64(q)
			c.Ratio("uniform-per-prime", math.Abs(m.got-m.mean)/tol)
			c.Check(math.Abs(m.got-m.mean) <= tol, "distribution", "modulo %d the %s of %g residues is %g", q, m.what, pm.n, m.got)
		}
		c.Event("prime")
	}
	if posRows >= 40 {
		// no coefficient is special
		tol := 8 * math.Sqrt(1.0/12/float64(posRows))
		for k := range pos {
			for _, s := range []float64{pos[k], raw[k]} {
				d := math.Abs(s/float64(posRows) - 0.5)
				c.Ratio("uniform-per-position", d/tol)
				c.Check(d <= tol, "distribution", "the mean of coefficient %d over %d rows is %g of the modulus", k, posRows, s/float64(posRows))
			}
		}
		c.Event("position")
	}
	// another setup has other strings
	o := mkrlwe.NewParameters(ck.Parameters, gamma)
	var all []int
	for idx := range P.CRS {
		all = append(all, idx)
	}
	sort.Ints(all)
	for _, idx := range all {
		if o.CRS[idx] == nil {
			o.AddCRS(idx)
			c.Event("added-twice")
		}
		for i := range o.CRS[idx].Value {
			c.Check(polyHash(o.CRS[idx].Value[i].Q) != polyHash(P.CRS[idx].Value[i].Q), "reused-randomness", "two setups have the same string %d", idx)
			c.Check(polyHash(o.CRS[idx].Value[i].P) != polyHash(P.CRS[idx].Value[i].P), "reused-randomness", "two setups have the same string %d", idx)
		}
	}
	c.Event("two-setups")
}
