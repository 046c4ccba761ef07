package verifharness

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"math/rand/v2"
	"sort"
	"strings"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

// Cfg is one parameter set of the scheme.
type Cfg struct {
	Name     string
	LogN     int
	LogSlots int
	LogQ     []int
	LogP     []int
	LogScale float64
	Sigma    float64
}

func rep(v, n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = v
	}
	return r
}

func cat(parts ...[]int) []int {
	var r []int
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

const sg = rlwe.DefaultSigma

// smallCfgs: cheap rings, chosen to cover digit sizes (alpha), partial last
// digits, odd and even special-modulus counts, sparse packing, chain lengths from
// one to the 21 moduli of the training programs, small and maximal primes, scales
// near to and far from the prime size, and other error widths.
var smallCfgs = []Cfg{
	{"a1-n5", 5, 4, []int{50, 40, 40, 40}, rep(50, 2), 40, sg},
	{"a2-n5-part", 5, 4, cat([]int{45}, rep(40, 6)), rep(48, 4), 40, sg},
	{"a3-n6-part", 6, 5, cat([]int{45}, rep(38, 7)), rep(46, 6), 38, sg},
	{"a1-n4-two", 4, 3, []int{55, 45}, rep(60, 2), 45, sg},
	{"a1-n7-sparse", 7, 3, []int{50, 40, 40}, rep(52, 2), 40, sg},
	{"a2-n6-even", 6, 5, cat([]int{50}, rep(42, 5)), rep(52, 4), 42, sg},
	{"p3-n5", 5, 4, []int{50, 40, 40, 40, 40}, rep(45, 3), 40, sg},
	{"p5-n5", 5, 4, cat([]int{46}, rep(40, 4)), rep(48, 5), 40, sg},
	{"one-slot", 6, 0, []int{50, 40, 40}, rep(52, 2), 40, sg},
	{"lr-chain", 6, 5, cat([]int{55}, rep(38, 20)), rep(50, 2), 38, sg},
	{"max-prime", 5, 4, []int{60, 60, 60}, rep(60, 2), 50, sg},
	{"small-prime", 6, 5, []int{36, 30, 30, 30}, rep(36, 2), 30, sg},
	{"low-scale", 6, 4, []int{50, 45, 45, 45}, rep(55, 2), 30, sg},
	{"sigma1", 5, 4, []int{50, 40, 40}, rep(50, 2), 40, 1.0},
	{"sigma8", 6, 5, []int{50, 40, 40}, rep(52, 2), 40, 8.0},
	{"one-mod", 5, 4, []int{55}, rep(60, 2), 40, sg},
	{"a4-n5", 5, 4, cat([]int{42}, rep(36, 8)), rep(42, 8), 36, sg},
	{"p7-n5", 5, 3, cat([]int{44}, rep(38, 6)), rep(44, 7), 38, sg},
	{"mixed-q", 6, 5, []int{52, 36, 44, 38, 42, 40}, rep(54, 4), 40, sg},
	{"two-slot", 5, 1, []int{50, 40, 40, 40}, rep(50, 2), 40, sg},
	{"long-chain", 5, 4, cat([]int{40}, rep(30, 30)), rep(36, 2), 30, sg},
}

// midCfgs: larger rings, closer to deployments.
var midCfgs = []Cfg{
	{"n9", 9, 8, cat([]int{55}, rep(40, 4)), rep(55, 2), 40, sg},
	{"n10-a2", 10, 9, cat([]int{55}, rep(45, 5)), rep(56, 4), 45, sg},
	{"n10-sparse", 10, 5, cat([]int{50}, rep(40, 3)), rep(55, 2), 40, sg},
	{"n8-lr", 8, 7, cat([]int{55}, rep(38, 20)), rep(50, 2), 38, sg},
	{"n11-p6", 11, 10, cat([]int{50}, rep(42, 6)), rep(54, 6), 42, sg},
}

// bigCfgs: sizes of the repository's own parameter sets.
var bigCfgs = []Cfg{
	{"n13", 13, 12, cat([]int{55}, rep(40, 5)), rep(55, 4), 40, sg},
	{"n14", 14, 13, cat([]int{58}, rep(45, 6)), rep(58, 4), 45, sg},
	{"n15", 15, 14, []int{58, 45}, rep(58, 2), 45, sg},
}

func cfgByName(name string) Cfg {
	for _, l := range [][]Cfg{smallCfgs, midCfgs, bigCfgs} {
		for _, c := range l {
			if c.Name == name {
				return c
			}
		}
	}
	panic("no config " + name)
}

// Party is one participant with everything only the harness may see.
type Party struct {
	ID   string
	Kind string
	SK   *mkrlwe.SecretKey
	PK   *mkrlwe.PublicKey
	R    *mkrlwe.SecretKey
	rlk  *mkrlwe.RelinearizationKey
	rtk  map[int]*mkrlwe.RotationKey
	cjk  *mkrlwe.ConjugationKey

	gen    string  // which of the party's key generations this is
	S2, R2 float64 // l2 norms of the secret and of the relinearization randomness
}

// World is a parameter set with parties, and the oracles over it.
type World struct {
	Cfg
	Tag     string
	CK      ckks.Parameters
	P       mkckks.Parameters
	oracle  ckks.Encoder
	parties []*Party
	N       int
	Slots   int
	bigP    float64
	digit   []float64 // size of each decomposition digit
	alpha   int
}

var worlds = map[string]*World{}

// hostileIDs are party names; anything but "0" is allowed.
var hostileIDs = []string{"company0", "1", "", "00", "0 ", "bob", "zero", "-1", "用户", "a/b", strings.Repeat("x", 300), "company10",
	"organisation-1-eu", "organisation-2-eu", strings.Repeat("x", 150) + "y" + strings.Repeat("x", 149)}

// World returns the world of a config, cached per process and independent of
// which cases ran before.
func (c *Ctx) World(cfg Cfg) *World { return c.worldTag(cfg, "") }

func (c *Ctx) worldTag(cfg Cfg, tag string) *World {
	key := cfg.Name + "|" + tag
	if w := worlds[key]; w != nil {
		return w
	}
	w := newWorld(c, cfg, tag)
	if len(worlds) > 60 {
		worlds = map[string]*World{}
	}
	worlds[key] = w
	return w
}

func mkCKKS(cfg Cfg) ckks.Parameters {
	q, p, err := rlwe.GenModuli(cfg.LogN, cfg.LogQ, cfg.LogP)
	if err != nil {
		panic(err)
	}
	rp, err := rlwe.NewParameters(cfg.LogN, q, p, cfg.Sigma)
	if err != nil {
		panic(err)
	}
	ck, err := ckks.NewParameters(rp, cfg.LogSlots, math.Exp2(cfg.LogScale))
	if err != nil {
		panic(err)
	}
	return ck
}

func newWorld(c *Ctx, cfg Cfg, tag string) *World {
	w := &World{Cfg: cfg, Tag: tag}
	w.CK = mkCKKS(cfg)
	c.seeded("world|"+cfg.Name+"|"+tag, func() { w.P = mkckks.NewParameters(w.CK) })
	w.oracle = ckks.NewEncoder(w.CK)
	w.N = 1 << cfg.LogN
	w.Slots = 1 << cfg.LogSlots
	w.setDigits(2)
	return w
}

func (w *World) setDigits(gamma int) {
	w.bigP = 1
	for _, p := range w.P.RingP().Modulus {
		w.bigP *= float64(p)
	}
	w.alpha = len(w.P.RingP().Modulus) / gamma
	w.digit = nil
	Q := w.P.RingQ().Modulus
	for i := 0; i < len(Q); i += w.alpha {
		d := 1.0
		for j := i; j < i+w.alpha && j < len(Q); j++ {
			d *= float64(Q[j])
		}
		w.digit = append(w.digit, d)
	}
}

// seeded runs f with the global randomness determined by the label only, and then
// puts the case's own randomness back in place.
func (c *Ctx) seeded(label string, f func()) {
	c.Reseed(label)
	f()
	c.Reseed(fmt.Sprintf("case|%s|%d|after|%s", c.Prop, c.Case, label))
}

// Party returns the i-th party of the world.
func (c *Ctx) Party(w *World, i int) *Party {
	for len(w.parties) <= i {
		w.parties = append(w.parties, nil)
	}
	if w.parties[i] == nil {
		w.parties[i] = c.newParty(w, i, "")
	}
	return w.parties[i]
}

// newParty draws the keys of the i-th party; gen tells generations of keys apart.
func (c *Ctx) newParty(w *World, i int, gen string) *Party {
	p := &Party{rtk: map[int]*mkrlwe.RotationKey{}, gen: gen}
	if i < len(hostileIDs) {
		p.ID = hostileIDs[i]
	} else {
		p.ID = fmt.Sprintf("p%d", i)
	}
	c.seeded(fmt.Sprintf("party|%s|%s|%d%s", w.Name, w.Tag, i, gen), func() {
		kg := mkckks.NewKeyGenerator(w.P)
		switch i % 5 {
		case 2:
			p.Kind = "gaussian"
			p.SK = kg.GenSecretKeyGaussian(p.ID)
			p.PK = kg.GenPublicKey(p.SK)
		case 3:
			p.Kind = "sparse"
			p.SK = kg.GenSecretKeySparse(w.N/4, p.ID)
			p.PK = kg.GenPublicKey(p.SK)
		case 4:
			p.Kind = "dense"
			p.SK = kg.GenSecretKeyWithDistrib(1.0/3, p.ID)
			p.PK = kg.GenPublicKey(p.SK)
		default:
			p.Kind = "ternary"
			p.SK, p.PK = kg.GenKeyPair(p.ID)
		}
		p.R = kg.GenSecretKey(p.ID)
	})
	p.S2 = l2(w.skCoeffs(p.SK))
	p.R2 = l2(w.skCoeffs(p.R))
	return p
}

// rekey gives the i-th party new keys under its old name, until undo is called.
func (c *Ctx) rekey(w *World, i int) (undo func()) {
	old := c.Party(w, i)
	w.parties[i] = c.newParty(w, i, fmt.Sprintf("|%s|%d|%d", c.Prop, c.Case, c.R.Uint32()))
	return func() { w.parties[i] = old }
}

func (c *Ctx) Parties(w *World, idx ...int) []*Party {
	var r []*Party
	for _, i := range idx {
		r = append(r, c.Party(w, i))
	}
	return r
}

func (c *Ctx) Rlk(w *World, p *Party) *mkrlwe.RelinearizationKey {
	if p.rlk == nil {
		c.seeded(fmt.Sprintf("rlk|%s|%s|%s%s", w.Name, w.Tag, p.ID, p.gen), func() {
			p.rlk = mkckks.NewKeyGenerator(w.P).GenRelinearizationKey(p.SK, p.R)
		})
	}
	return p.rlk
}

func (c *Ctx) Rtk(w *World, p *Party, k int) *mkrlwe.RotationKey {
	if p.rtk[k] == nil {
		c.seeded(fmt.Sprintf("rtk|%s|%s|%s|%d%s", w.Name, w.Tag, p.ID, k, p.gen), func() {
			p.rtk[k] = mkckks.NewKeyGenerator(w.P).GenRotationKey(k, p.SK)
		})
	}
	return p.rtk[k]
}

func (c *Ctx) Cjk(w *World, p *Party) *mkrlwe.ConjugationKey {
	if p.cjk == nil {
		c.seeded(fmt.Sprintf("cjk|%s|%s|%s%s", w.Name, w.Tag, p.ID, p.gen), func() {
			p.cjk = mkckks.NewKeyGenerator(w.P).GenConjugationKey(p.SK)
		})
	}
	return p.cjk
}

func (c *Ctx) SkSet(ps ...*Party) *mkrlwe.SecretKeySet {
	s := mkrlwe.NewSecretKeySet()
	for _, p := range ps {
		s.AddSecretKey(p.SK)
	}
	return s
}

func (c *Ctx) RlkSet(w *World, ps ...*Party) *mkrlwe.RelinearizationKeySet {
	s := mkrlwe.NewRelinearizationKeyKeySet(w.P.Parameters)
	for _, p := range ps {
		s.AddRelinearizationKey(c.Rlk(w, p))
	}
	return s
}

// RtkSet is the default key set: every power of two below N/2.
func (c *Ctx) RtkSet(w *World, ps ...*Party) *mkrlwe.RotationKeySet {
	s := mkrlwe.NewRotationKeySet()
	for _, p := range ps {
		for k := 1; k < w.N/2; k *= 2 {
			s.AddRotationKey(c.Rtk(w, p, k))
		}
	}
	return s
}

func (c *Ctx) CjkSet(w *World, ps ...*Party) *mkrlwe.ConjugationKeySet {
	s := mkrlwe.NewConjugationKeySet()
	for _, p := range ps {
		s.AddConjugationKey(c.Cjk(w, p))
	}
	return s
}

func idsOf(ps []*Party) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for _, p := range ps {
		s.Add(p.ID)
	}
	return s
}

func names(ps []*Party) string {
	var r []string
	for _, p := range ps {
		n := p.ID
		if len(n) > 12 {
			n = n[:12] + "~"
		}
		r = append(r, fmt.Sprintf("%q", n))
	}
	sort.Strings(r)
	return strings.Join(r, ",")
}

func l2(v []float64) float64 {
	s := 0.0
	for _, x := range v {
		s += x * x
	}
	return math.Sqrt(s)
}

// skCoeffs returns the coefficients of a secret key (read from its first prime).
func (w *World) skCoeffs(sk *mkrlwe.SecretKey) []float64 {
	ringQ := w.P.RingQ()
	t := ringQ.NewPoly()
	ringQ.InvMFormLvl(0, sk.Value.Q, t)
	ringQ.InvNTTLvl(0, t, t)
	q := ringQ.Modulus[0]
	r := make([]float64, w.N)
	for i, x := range t.Coeffs[0] {
		if x > q/2 {
			r[i] = -float64(q - x)
		} else {
			r[i] = float64(x)
		}
	}
	return r
}

// ---- phases -------------------------------------------------------------

// rawPhase returns c_0 + sum_i c_i s_i modulo the first level+1 primes, in
// coefficient form, from the components the ciphertext has.
func (w *World) rawPhase(c *Ctx, val map[string]*ring.Poly, level int, sk map[string]*mkrlwe.SecretKey) *ring.Poly {
	ringQ := w.P.RingQ()
	acc := ringQ.NewPolyLvl(level)
	tmp := ringQ.NewPolyLvl(level)
	for id, p := range val {
		if p == nil || len(p.Coeffs) < level+1 {
			c.Failf("malformed-ciphertext", "component %q has fewer than the %d moduli of the ciphertext", id, level+1)
		}
		ringQ.ReduceLvl(level, p, tmp)
		if id != "0" {
			s := sk[id]
			if s == nil {
				c.Failf("foreign-component", "ciphertext has a component for %q, who takes no part in it", id)
			}
			if !p.IsNTT {
				ringQ.NTTLvl(level, tmp, tmp)
			}
			ringQ.MulCoeffsMontgomeryLvl(level, tmp, s.Value.Q, tmp)
			ringQ.InvNTTLvl(level, tmp, tmp)
		} else if p.IsNTT {
			ringQ.InvNTTLvl(level, tmp, tmp)
		}
		ringQ.AddLvl(level, acc, tmp, acc)
	}
	ringQ.ReduceLvl(level, acc, acc)
	return acc
}

func (w *World) skMap() map[string]*mkrlwe.SecretKey {
	m := map[string]*mkrlwe.SecretKey{}
	for _, p := range w.parties {
		if p != nil {
			m[p.ID] = p.SK
		}
	}
	return m
}

func (w *World) phase(c *Ctx, ct *mkckks.Ciphertext) *ring.Poly {
	return w.rawPhase(c, ct.Value, ct.Level(), w.skMap())
}

// centred returns the coefficients of a polynomial centred modulo the level's
// modulus.
func (w *World) centred(level int, p *ring.Poly) []*big.Int {
	out := make([]*big.Int, w.N)
	for i := range out {
		out[i] = new(big.Int)
	}
	w.P.RingQ().PolyToBigintCenteredLvl(level, p, out)
	return out
}

func infNorm(v []*big.Int) float64 {
	m := new(big.Int)
	for _, x := range v {
		if x.CmpAbs(m) > 0 {
			m.Abs(x)
		}
	}
	f, _ := new(big.Float).SetInt(m).Float64()
	return f
}

// diffNorm is the largest coefficient of a-b modulo the level's modulus.
func (w *World) diffNorm(level int, a, b *ring.Poly) float64 {
	ringQ := w.P.RingQ()
	d := ringQ.NewPolyLvl(level)
	ringQ.SubLvl(level, a, b, d)
	ringQ.ReduceLvl(level, d, d)
	return infNorm(w.centred(level, d))
}

// modQ is the ciphertext modulus at a level.
func (w *World) modQ(level int) float64 {
	q := 1.0
	for i := 0; i <= level; i++ {
		q *= float64(w.P.RingQ().Modulus[i])
	}
	return q
}

// mulPoly multiplies two coefficient-form polynomials.
func (w *World) mulPoly(level int, a, b *ring.Poly) *ring.Poly {
	ringQ := w.P.RingQ()
	x, y := ringQ.NewPolyLvl(level), ringQ.NewPolyLvl(level)
	ringQ.NTTLvl(level, a, x)
	ringQ.MFormLvl(level, x, x)
	ringQ.NTTLvl(level, b, y)
	ringQ.MulCoeffsMontgomeryLvl(level, x, y, x)
	ringQ.InvNTTLvl(level, x, x)
	return x
}

// autoPoly applies X -> X^gal to a coefficient-form polynomial.
func (w *World) autoPoly(level int, a *ring.Poly, gal uint64) *ring.Poly {
	ringQ := w.P.RingQ()
	out := ringQ.NewPolyLvl(level)
	m := uint64(2 * w.N)
	for j := 0; j <= level; j++ {
		q := ringQ.Modulus[j]
		for i := 0; i < w.N; i++ {
			k := (uint64(i) * gal) % m
			x := a.Coeffs[j][i] % q
			if k >= uint64(w.N) {
				out.Coeffs[j][k-uint64(w.N)] = (q - x) % q
			} else {
				out.Coeffs[j][k] = x
			}
		}
	}
	return out
}

// galRot is the automorphism exponent of a rotation to the left by k slots.
func (w *World) galRot(k int) uint64 {
	h := w.N / 2
	k %= h
	if k < 0 {
		k += h
	}
	g := uint64(1)
	for i := 0; i < k; i++ {
		g = g * 5 % uint64(2*w.N)
	}
	return g
}

func (w *World) galConj() uint64 { return uint64(2*w.N - 1) }

// upScale returns qd * a, for a known modulo the primes up to outLevel, modulo the
// primes up to level, where qd is the product of the primes between.
func (w *World) upScale(level, outLevel int, a *ring.Poly) (*ring.Poly, float64) {
	ringQ := w.P.RingQ()
	qd := big.NewInt(1)
	for i := outLevel + 1; i <= level; i++ {
		qd.Mul(qd, new(big.Int).SetUint64(ringQ.Modulus[i]))
	}
	co := w.centred(outLevel, a)
	for i := range co {
		co[i].Mul(co[i], qd)
	}
	out := ringQ.NewPolyLvl(level)
	ringQ.SetCoefficientsBigintLvl(level, co, out)
	f, _ := new(big.Float).SetInt(qd).Float64()
	return out, f
}

// ---- slots --------------------------------------------------------------

// decode evaluates a coefficient-form polynomial at the slot roots: for the small
// rings with a transform of the harness's own, else with lattigo's.
func (w *World) decode(level int, p *ring.Poly, scale float64) []complex128 {
	if w.LogSlots <= 7 {
		co := w.centred(level, p)
		gap := (w.N / 2) / w.Slots
		out := make([]complex128, w.Slots)
		M := 4 * w.Slots
		vals := make([]float64, 2*w.Slots)
		for i := range vals {
			f, _ := new(big.Float).SetInt(co[i*gap]).Float64()
			vals[i] = f / scale
		}
		g := 1
		for j := range out {
			var s complex128
			for k, v := range vals {
				s += complex(v, 0) * cmplx.Rect(1, 2*math.Pi*float64((g*k)%M)/float64(M))
			}
			out[j] = s
			g = g * 5 % M
		}
		return out
	}
	pt := ckks.NewPlaintext(w.CK, level, scale)
	w.P.RingQ().ReduceLvl(level, p, pt.Value)
	pt.Value.IsNTT = false
	return w.oracle.Decode(pt, w.LogSlots)
}

func (w *World) slotsOf(c *Ctx, ct *mkckks.Ciphertext) []complex128 {
	return w.decode(ct.Level(), w.phase(c, ct), ct.Scale)
}

func maxDiff(a, b []complex128) float64 {
	if len(a) != len(b) {
		return math.Inf(1)
	}
	m := 0.0
	for i := range a {
		d := cmplx.Abs(a[i] - b[i])
		if math.IsNaN(d) {
			return math.Inf(1)
		}
		if d > m {
			m = d
		}
	}
	return m
}

func maxAbs(a []complex128) float64 {
	m := 0.0
	for _, x := range a {
		if d := cmplx.Abs(x); d > m {
			m = d
		}
	}
	return m
}

// randMsg draws a message; the pattern decides its shape.
func randMsg(r *rand.Rand, n int, mag float64) ([]complex128, string) {
	v := make([]complex128, n)
	pat := []string{"random", "real", "imag", "zero", "const", "onehot", "alt", "tiny"}[r.IntN(8)]
	if r.IntN(2) == 0 {
		pat = "random"
	}
	u := func() float64 { return (2*r.Float64() - 1) * mag / math.Sqrt2 }
	// no coefficient of an encoding may be exactly 2^64, which lattigo's encoder gets wrong
	mag *= 1 - 1.0/4096
	switch pat {
	case "random":
		for i := range v {
			v[i] = complex(u(), u())
		}
	case "real":
		for i := range v {
			v[i] = complex(u(), 0)
		}
	case "imag":
		for i := range v {
			v[i] = complex(0, u())
		}
	case "const":
		x := complex(u(), u())
		for i := range v {
			v[i] = x
		}
	case "onehot":
		v[r.IntN(n)] = complex(mag, 0)
	case "alt":
		for i := range v {
			v[i] = complex(mag*float64(1-2*(i%2)), 0)
		}
	case "tiny":
		for i := range v {
			v[i] = complex(u()*1e-3, u()*1e-3)
		}
	}
	return v, pat
}

func msgOf(v []complex128) *mkckks.Message {
	return &mkckks.Message{Value: append([]complex128(nil), v...)}
}

func rotl(v []complex128, k int) []complex128 {
	n := len(v)
	k %= n
	if k < 0 {
		k += n
	}
	return append(append([]complex128(nil), v[k:]...), v[:k]...)
}

func conj(v []complex128) []complex128 {
	r := make([]complex128, len(v))
	for i := range v {
		r[i] = cmplx.Conj(v[i])
	}
	return r
}

// ---- noise bounds (largest coefficient of the phase error) --------------

const slack = 10.0

func (w *World) sOf(id string) float64 {
	for _, p := range w.parties {
		if p != nil && p.ID == id {
			return p.S2
		}
	}
	return math.Sqrt(float64(w.N))
}

func (w *World) rOf(id string) float64 {
	for _, p := range w.parties {
		if p != nil && p.ID == id {
			return p.R2
		}
	}
	return math.Sqrt(float64(w.N))
}

// freshBound: u*e + e0 + e1*s, plus the encoder's rounding.
func (w *World) freshBound(id string) float64 {
	s := w.sOf(id)
	sig := w.Sigma + 0.5
	return slack*sig*math.Sqrt(float64(w.N)+1+s*s) + 1
}

// ksBound: switching with decomposed digits of one component, and the rounding of
// the division by P in both components.
func (w *World) ksBound(level int, id string) float64 {
	e := 0.0
	for i := 0; i*w.alpha <= level; i++ {
		e += w.digit[i] * (w.Sigma + 0.5) * math.Sqrt(float64(w.N)/3) / w.bigP
	}
	return slack * (e + 0.6*(1+w.sOf(id)))
}

func (w *World) ksBoundAll(level int, ids []string) float64 {
	b := 0.0
	for _, id := range ids {
		b += w.ksBound(level, id)
	}
	return b
}

// rescaleBound: rounding of each component, in units of the rescaled ciphertext.
func (w *World) rescaleBound(ids []string) float64 {
	b := slack * 0.6
	for _, id := range ids {
		b += slack * 0.6 * w.sOf(id)
	}
	return 2 * b
}

// mulBound: error of the relinearized product before rescaling.
func (w *World) mulBound(level int, ids0, ids1 []string) float64 {
	sig := w.Sigma + 0.5
	n := float64(w.N)
	e := 0.0
	for i := 0; i*w.alpha <= level; i++ {
		e += n * w.digit[i] * w.digit[i] / 4 * sig * math.Sqrt(n) / w.bigP
	}
	b := 0.0
	for _, a := range ids0 {
		for _, d := range ids1 {
			b += slack * e * (w.sOf(d) + w.rOf(a) + 1)
		}
	}
	for _, d := range ids1 {
		b += slack * 0.6 * w.sOf(d)
	}
	for _, a := range ids0 {
		b += slack * 0.6 * w.rOf(a)
		b += 2 * w.ksBound(level, a)
	}
	return b
}

// slotErr turns a bound on coefficients into one on slots.
func (w *World) slotErr(coef, scale float64) float64 {
	return coef * math.Sqrt(float64(w.N)) / scale
}

// slotErrKS is the same for the noise of key switching: the digits are not centred,
// so that in large rings it gathers in the slots near the root one.
func (w *World) slotErrKS(coef, scale float64) float64 {
	return w.slotErr(coef, scale) * math.Max(1, math.Sqrt(float64(w.N))/8)
}

// biasErr bounds what the truncation of the division by P adds to a slot: the same
// sign in every coefficient, so that it adds up instead of averaging out.
func (w *World) biasErr(ids []string, scale float64) float64 {
	b := 0.0
	for _, id := range ids {
		b += 1 + 6*(w.sOf(id)+w.rOf(id))
	}
	return b * float64(w.N) / scale
}

func sortedIDs(s *mkrlwe.IDSet) []string {
	var r []string
	for id := range s.Value {
		r = append(r, id)
	}
	sort.Strings(r)
	return r
}

func ctIDs(ct *mkckks.Ciphertext) []string { return sortedIDs(ct.IDSet()) }

func sameIDs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func unionIDs(a, b []string) []string {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	var r []string
	for x := range m {
		r = append(r, x)
	}
	sort.Strings(r)
	return r
}
