package verifharness

import (
	"fmt"
	"math"
	"math/big"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	"mk-lr/mkrlwe"
)

func init() {
	Register(&Prop{
		ID:        "C21",
		Rule:      "case = parameter set x gamma x level x polynomial (uniform, extreme, sparse, small) in either domain; every digit is reconstructed over all moduli and compared with big-integer arithmetic; non-trivial when distinct by (set, gamma, level, polynomial kind, domain)",
		Cases:     tiers(2100, 27000),
		MinEvents: []string{"digit", "recomposed", "single", "split"},
		Run:       runDecompose,
	})
	Register(&Prop{
		ID:        "C22",
		Rule:      "case = parameter set x pair of levels x polynomial (uniform, extreme, multiples of the dropped modulus, lazily reduced); basis extension and division compared with big-integer arithmetic; non-trivial when distinct by (set, operation, levels, polynomial kind)",
		Cases:     tiers(2100, 27000),
		MinEvents: []string{"up-QP", "up-PQ", "down-Q", "down-Q-ntt", "down-P", "copy"},
		Run:       runBasis,
	})
	Register(&Prop{
		ID:        "C23",
		Rule:      "case = parameter set x gamma x level x domain: products with error-free gadget vectors and with generated switching keys, plain and hoisted, and the generic layer's multiplication, rotation and conjugation on ciphertexts of several parties; non-trivial when distinct by (set, gamma, operation, levels, party counts)",
		Cases:     tiers(1500, 18000),
		MinEvents: []string{"exact-product", "switching-product", "hoisted-product", "MulAndRelin", "MulAndRelinHoisted", "Rotate", "RotateHoisted", "Conjugate"},
		Run:       runKeySwitch,
	})
}

// hardPoly is a polynomial at a level of a hostile kind.
func (c *Ctx) hardPoly(r *ring.Ring, level int) (*ring.Poly, string) {
	n := r.N
	p := ring.NewPoly(n, level+1)
	kind := []string{"uniform", "uniform", "extreme", "small", "single", "zero", "top"}[c.R.IntN(7)]
	Q := big.NewInt(1)
	for j := 0; j <= level; j++ {
		Q.Mul(Q, new(big.Int).SetUint64(r.Modulus[j]))
	}
	set := func(i int, v *big.Int) {
		for j := 0; j <= level; j++ {
			p.Coeffs[j][i] = new(big.Int).Mod(v, new(big.Int).SetUint64(r.Modulus[j])).Uint64()
		}
	}
	switch kind {
	case "uniform":
		for j := range p.Coeffs {
			for i := range p.Coeffs[j] {
				p.Coeffs[j][i] = c.R.Uint64N(r.Modulus[j])
			}
		}
	case "extreme":
		for j := range p.Coeffs {
			for i := range p.Coeffs[j] {
				switch c.R.IntN(3) {
				case 0:
					p.Coeffs[j][i] = r.Modulus[j] - 1
				case 1:
					p.Coeffs[j][i] = 1
				}
			}
		}
	case "small":
		for i := 0; i < n; i++ {
			set(i, big.NewInt(int64(c.R.IntN(2001)-1000)))
		}
	case "single":
		set(c.R.IntN(n), new(big.Int).Rsh(Q, uint(1+c.R.IntN(5))))
	case "top":
		for i := 0; i < n; i++ {
			set(i, new(big.Int).Sub(Q, big.NewInt(int64(1+c.R.IntN(5)))))
		}
	}
	return p, kind
}

// crt reconstructs the non-negative integers below the product of the moduli.
type crt struct {
	mods  []*big.Int
	M     *big.Int
	basis []*big.Int
}

var crtCache = map[string]*crt{}

func newCRT(mods []uint64) *crt {
	key := fmt.Sprint(mods)
	if x := crtCache[key]; x != nil {
		return x
	}
	x := &crt{M: big.NewInt(1)}
	for _, m := range mods {
		b := new(big.Int).SetUint64(m)
		x.mods = append(x.mods, b)
		x.M.Mul(x.M, b)
	}
	for _, b := range x.mods {
		t := new(big.Int).Div(x.M, b)
		inv := new(big.Int).ModInverse(t, b)
		x.basis = append(x.basis, t.Mul(t, inv))
	}
	crtCache[key] = x
	return x
}

func (x *crt) at(rows [][]uint64, i int) *big.Int {
	s := new(big.Int)
	for j := range x.mods {
		t := new(big.Int).SetUint64(rows[j][i])
		s.Add(s, t.Mul(t, x.basis[j]))
	}
	return s.Mod(s, x.M)
}

// centredAt is the representative of smallest absolute value.
func (x *crt) centredAt(rows [][]uint64, i int) *big.Int {
	v := x.at(rows, i)
	if new(big.Int).Lsh(v, 1).Cmp(x.M) > 0 {
		v.Sub(v, x.M)
	}
	return v
}

func runDecompose(c *Ctx) {
	cfg := c.stdCfg()
	gamma := c.randGamma(cfg)
	w := c.gammaWorld(cfg, gamma)
	rQ, rP := w.P.RingQ(), w.P.RingP()
	ks := mkrlwe.NewKeySwitcher(w.P.Parameters)
	alpha := len(rP.Modulus) / gamma
	levelP := len(rP.Modulus) - 1
	step := 1
	if w.N > 256 {
		step = w.N / 256
	}
	ad := mkrlwe.NewSwitchingKey(w.P.Parameters)
	for it := 0; it < 4; it++ {
		level := c.R.IntN(w.P.MaxLevel() + 1)
		if it == 0 {
			level = c.Case % (w.P.MaxLevel() + 1)
		}
		a, kind := c.hardPoly(rQ, level)
		in := clonePoly(a)
		ntt := c.R.IntN(2) == 0
		if ntt {
			rQ.NTTLvl(level, in, in)
			in.IsNTT = true
		}
		h := polyHash(in)
		ks.Decompose(level, in, ad)
		c.Check(h == polyHash(in), "operand-changed", "Decompose changed its input")
		c.Logf("decompose g=%d level=%d %s ntt=%v", gamma, level, kind, ntt)
		c.State("%s|g%d|l%d|%s|%v", w.Name, gamma, level, kind, ntt)
		beta := (level + alpha) / alpha
		mods := append(append([]uint64{}, rQ.Modulus[:level+1]...), rP.Modulus...)
		big1 := newCRT(mods)
		inverse := func(q, p *ring.Poly) [][]uint64 {
			tq, tp := rQ.NewPolyLvl(level), rP.NewPoly()
			rQ.ReduceLvl(level, q, tq)
			rP.Reduce(p, tp)
			rQ.InvNTTLvl(level, tq, tq)
			rP.InvNTT(tp, tp)
			return append(append([][]uint64{}, tq.Coeffs[:level+1]...), tp.Coeffs...)
		}
		check := func(what string, d int, rows [][]uint64) {
			end := min((d+1)*alpha, level+1)
			block := newCRT(rQ.Modulus[d*alpha : end])
			lo := new(big.Int).Neg(block.M)
			hi := new(big.Int).Lsh(block.M, 1)
			for i := 0; i < w.N; i += step {
				v := big1.centredAt(rows, i)
				want := block.at(a.Coeffs[d*alpha:end], i)
				c.Check(new(big.Int).Mod(new(big.Int).Sub(v, want), block.M).Sign() == 0, "wrong-digit", "%s: digit %d of %d at level %d, coefficient %d is not congruent to the input", what, d, beta, level, i)
				c.Check(v.Cmp(lo) > 0 && v.Cmp(hi) < 0, "digit-size", "%s: digit %d of %d at level %d, coefficient %d is %v, not a small representative modulo %v", what, d, beta, level, i, v, block.M)
			}
		}
		for d := 0; d < beta; d++ {
			rows := inverse(ad.Value[d].Q, ad.Value[d].P)
			check("Decompose", d, rows)
			c.Event("digit")
		}
		// one digit at a time
		d := c.R.IntN(beta)
		oq, op := rQ.NewPoly(), rP.NewPoly()
		src := clonePoly(a)
		ks.DecomposeSingleNTT(level, levelP, alpha, d, gamma, src, oq, op)
		c.Check(polyHash(src) == polyHash(a), "operand-changed", "DecomposeSingleNTT changed its input")
		check("DecomposeSingleNTT", d, inverse(oq, op))
		c.Event("single")
		dc := mkrlwe.NewDecomposer(rQ, rP, gamma)
		oq, op = rQ.NewPoly(), rP.NewPoly()
		dc.DecomposeAndSplit(level, levelP, alpha, d, gamma, src, oq, op)
		rows := append(append([][]uint64{}, oq.Coeffs[:level+1]...), op.Coeffs...)
		check("DecomposeAndSplit", d, rows)
		c.Event("split")
		// recomposition: the digits times the gadget give P times the input
		for j := 0; j <= level; j++ {
			q := rQ.Modulus[j]
			rowsD := inverse(ad.Value[j/alpha].Q, ad.Value[j/alpha].P)
			for i := 0; i < w.N; i += step {
				c.Check(rowsD[j][i]%q == a.Coeffs[j][i]%q, "wrong-digit", "the digits do not recompose to the input modulo prime %d at level %d", j, level)
			}
		}
		c.Event("recomposed")
	}
}

func runBasis(c *Ctx) {
	w := c.World(c.stdCfg())
	rQ, rP := w.P.RingQ(), w.P.RingP()
	be := mkrlwe.NewFastBasisExtender(rQ, rP)
	if c.R.IntN(2) == 0 {
		o := be
		be = be.ShallowCopy()
		if c.R.IntN(2) == 0 { // the original keeps working next to its copy
			be, o = o, be
		}
		t := rP.NewPoly()
		x, _ := c.hardPoly(rQ, w.P.MaxLevel())
		o.ModUpQtoP(w.P.MaxLevel(), len(rP.Modulus)-1, x, t)
		c.Event("copy")
	}
	step := 1
	if w.N > 256 {
		step = w.N / 256
	}
	for it := 0; it < 5; it++ {
		lQ, lP := c.R.IntN(len(rQ.Modulus)), c.R.IntN(len(rP.Modulus))
		if c.R.IntN(2) == 0 {
			lP = len(rP.Modulus) - 1
		}
		crQ, crP := newCRT(rQ.Modulus[:lQ+1]), newCRT(rP.Modulus[:lP+1])
		all := newCRT(append(append([]uint64{}, rQ.Modulus[:lQ+1]...), rP.Modulus[:lP+1]...))
		// edge: how close to the ends of the range the correction term of the
		// conversion may be off by one (it is computed in floating point)
		up := func(what string, from, to *crt, in, out [][]uint64) {
			for i := 0; i < w.N; i += step {
				x := from.at(in, i)
				edge := new(big.Int).Rsh(from.M, 40)
				near := x.Cmp(edge) < 0 || new(big.Int).Sub(from.M, x).Cmp(edge) < 0
				ok := false
				for k := -1; k <= 1 && !ok; k++ {
					if k != 0 && !near {
						continue
					}
					v := new(big.Int).Add(x, new(big.Int).Mul(from.M, big.NewInt(int64(k))))
					ok = true
					for j, m := range to.mods {
						if new(big.Int).Mod(v, m).Uint64() != out[j][i]%m.Uint64() {
							ok = false
							break
						}
					}
				}
				c.Check(ok, "wrong-extension", "%s from %d to %d moduli: coefficient %d (%v) is not carried over", what, len(from.mods), len(to.mods), i, x)
			}
		}
		xQ, kq := c.hardPoly(rQ, lQ)
		xP, kp := c.hardPoly(rP, lP)
		hq, hp := polyHash(xQ), polyHash(xP)
		oP, oQ := rP.NewPoly(), rQ.NewPoly()
		be.ModUpQtoP(lQ, lP, xQ, oP)
		up("ModUpQtoP", crQ, crP, xQ.Coeffs, oP.Coeffs)
		c.Event("up-QP")
		be.ModUpPtoQ(lP, lQ, xP, oQ)
		up("ModUpPtoQ", crP, crQ, xP.Coeffs, oQ.Coeffs)
		c.Event("up-PQ")
		c.Check(hq == polyHash(xQ) && hp == polyHash(xP), "operand-changed", "a basis extension changed its input")
		c.State("up|%s|%d|%d|%s|%s", w.Name, lQ, lP, kq, kp)

		// division: (x_Q, x_P) is one integer below QP
		down := func(what string, div, keep *crt, rowsQ, rowsP, out [][]uint64) {
			for i := 0; i < w.N; i += step {
				rows := append(append([][]uint64{}, rowsQ[:lQ+1]...), rowsP[:lP+1]...)
				x := all.at(rows, i)
				q, r := new(big.Int).DivMod(x, div.M, new(big.Int))
				edge := new(big.Int).Rsh(div.M, 40)
				got := keep.at(out, i)
				// floor or nearest; at the ends of the range one more either way
				lo, hi := 0, 1
				if r.Sign() == 0 {
					hi = 0
				}
				if r.Sign() != 0 && (r.Cmp(edge) < 0 || new(big.Int).Sub(div.M, r).Cmp(edge) < 0) {
					lo, hi = -1, 1
				}
				ok := false
				for k := lo; k <= hi; k++ {
					v := new(big.Int).Add(q, big.NewInt(int64(k)))
					if v.Mod(v, keep.M).Cmp(got) == 0 {
						ok = true
					}
				}
				c.Check(ok, "wrong-division", "%s at levels %d and %d: coefficient %d (%v) divides to %v, got %v", what, lQ, lP, i, x, q, got)
			}
		}
		kind := kq + "/" + kp
		yQ, yP := clonePoly(xQ), clonePoly(xP)
		if c.R.IntN(3) == 0 { // an exact multiple of P
			kind = kq + "*P"
			for j := range yQ.Coeffs {
				m := new(big.Int).Mod(crP.M, crQ.mods[j]).Uint64()
				for i := range yQ.Coeffs[j] {
					yQ.Coeffs[j][i] = mulmod(yQ.Coeffs[j][i], m, rQ.Modulus[j])
				}
			}
			yP.Zero()
		}
		if c.R.IntN(3) == 0 { // lazily reduced, as the inverse transform leaves it
			kind += "+lazy"
			for j := range yQ.Coeffs {
				for i := range yQ.Coeffs[j] {
					if c.R.IntN(2) == 0 {
						yQ.Coeffs[j][i] += rQ.Modulus[j]
					}
				}
			}
			for j := range yP.Coeffs {
				for i := range yP.Coeffs[j] {
					if c.R.IntN(2) == 0 {
						yP.Coeffs[j][i] += rP.Modulus[j]
					}
				}
			}
		}
		c.Logf("levels %d %d %s", lQ, lP, kind)
		oQ = rQ.NewPoly()
		be.ModDownQPtoQ(lQ, lP, yQ, yP, oQ)
		down("ModDownQPtoQ", crP, crQ, yQ.Coeffs, yP.Coeffs, oQ.Coeffs)
		c.Event("down-Q")
		// in the transformed domain
		nQ, nP := rQ.NewPolyLvl(lQ), rP.NewPolyLvl(lP)
		rQ.ReduceLvl(lQ, yQ, nQ)
		rP.ReduceLvl(lP, yP, nP)
		rQ.NTTLvl(lQ, nQ, nQ)
		rP.NTTLvl(lP, nP, nP)
		oN := rQ.NewPolyLvl(lQ)
		be.ModDownQPtoQNTT(lQ, lP, nQ, nP, oN)
		rQ.ReduceLvl(lQ, oN, oN)
		rQ.InvNTTLvl(lQ, oN, oN)
		down("ModDownQPtoQNTT", crP, crQ, yQ.Coeffs, yP.Coeffs, oN.Coeffs)
		c.Event("down-Q-ntt")
		oP = rP.NewPoly()
		be.ModDownQPtoP(lQ, lP, yQ, yP, oP)
		down("ModDownQPtoP", crQ, crP, yQ.Coeffs, yP.Coeffs, oP.Coeffs)
		c.Event("down-P")
		c.State("down|%s|%d|%d|%s", w.Name, lQ, lP, kind)
	}
}

// rawCT is a ciphertext of the generic layer with known phase.
func (c *Ctx) rawCT(w *World, ps []*Party, level int) (*mkrlwe.Ciphertext, *ring.Poly) {
	v, _ := randMsg(c.R, w.Slots, 1)
	s := math.Min(w.P.Scale(), math.Sqrt(w.modQ(level))/(64*math.Sqrt(float64(w.N))))
	x := w.craft(c, ps, v, level, math.Max(s, 1))
	return x.ct.Ciphertext, w.rawPhase(c, x.ct.Value, level, w.skMap())
}

func runKeySwitch(c *Ctx) {
	cfg := c.stdCfg()
	gamma := c.randGamma(cfg)
	w := c.gammaWorld(cfg, gamma)
	rQ := w.P.RingQ()
	ks := mkrlwe.NewKeySwitcher(w.P.Parameters)
	m := &Mon{c: c, w: w}
	ps := c.everyone(w, 3)
	L := w.P.MaxLevel()

	// products with gadget vectors
	for it := 0; it < 3; it++ {
		level := c.R.IntN(L + 1)
		a, kind := c.hardPoly(rQ, level)
		in := clonePoly(a)
		ntt := c.R.IntN(2) == 0
		if ntt {
			rQ.NTTLvl(level, in, in)
			in.IsNTT = true
		}
		h := polyHash(in)
		b, bkind := c.hardPoly(rQ, L)
		swk := w.exactGadget(b)
		out := rQ.NewPoly()
		if c.R.IntN(2) == 0 { // used before
			c.junk(w, out)
		}
		ks.ExternalProduct(level, in, swk, out)
		want := w.mulPoly(level, a, w.dropTo(b, level))
		d := w.diffNorm(level, w.dropTo(out, level), want)
		c.Logf("external product g=%d level=%d %s x %s ntt=%v", gamma, level, kind, bkind, ntt)
		c.Check(d <= 1, "wrong-result", "ExternalProduct with an error-free vector at level %d is off by %g", level, d)
		c.Event("exact-product")
		c.State("ext|%s|g%d|l%d|%s|%s|%v", w.Name, gamma, level, kind, bkind, ntt)
		hoisted := mkrlwe.NewSwitchingKey(w.P.Parameters)
		ks.Decompose(level, in, hoisted)
		hh := swkHash(hoisted)
		out2 := rQ.NewPoly()
		ks.ExternalProductHoisted(level, hoisted, swk, out2)
		d = w.diffNorm(level, w.dropTo(out2, level), want)
		c.Check(d <= 1, "wrong-result", "ExternalProductHoisted with an error-free vector at level %d is off by %g", level, d)
		c.Check(hh == swkHash(hoisted) && h == polyHash(in), "operand-changed", "an external product changed its operands")
		c.Event("hoisted-product")

		// a generated switching key of a secret
		p := ps[c.R.IntN(len(ps))]
		key := mkrlwe.NewSwitchingKey(w.P.Parameters)
		mkrlwe.NewKeyGenerator(w.P.Parameters).GenSwitchingKey(p.SK, key)
		ks.ExternalProduct(level, in, key, out)
		s := rQ.NewPoly()
		rQ.InvMFormLvl(level, p.SK.Value.Q, s)
		rQ.InvNTTLvl(level, s, s)
		want = w.mulPoly(level, a, s)
		m.bounded("switching-product", level, w.dropTo(out, level), want, w.ksBound(level, p.ID)*2)
		c.Event("switching-product")
	}

	// the generic layer's operations on ciphertexts, again and again on one
	// key switcher: what an earlier call left in its scratch space must not
	// reach a later one
	for round := 0; round < 2; round++ {
		genericOps(c, w, ks, m, gamma, ps)
	}
}

func genericOps(c *Ctx, w *World, ks *mkrlwe.KeySwitcher, m *Mon, gamma int, ps []*Party) {
	L := w.P.MaxLevel()
	ps0, ps1 := c.randParties(w, 3, 3), c.randParties(w, 3, 3)
	ids0, ids1 := sortedIDs(idsOf(ps0)), sortedIDs(idsOf(ps1))
	l0, l1 := c.R.IntN(L+1), c.R.IntN(L+1)
	lo := c.R.IntN(min(l0, l1) + 1)
	if c.R.IntN(2) == 0 {
		lo = min(l0, l1)
	}
	A, pa := c.rawCT(w, ps0, l0)
	B, pb := c.rawCT(w, ps1, l1)
	if c.R.IntN(5) == 0 {
		B, pb, l1, ids1 = A, pa, l0, ids0
		lo = min(lo, l0)
	}
	rlk := c.RlkSet(w, ps...)
	uni := unionIDs(ids0, ids1)
	union := mkrlwe.NewIDSet()
	for _, id := range uni {
		union.Add(id)
	}
	outLvl := func(ids *mkrlwe.IDSet, level int) *mkrlwe.Ciphertext {
		o := mkrlwe.NewCiphertext(w.P.Parameters, ids, level)
		if c.R.IntN(2) == 0 { // used before
			for _, p := range o.Value {
				c.junk(w, p)
			}
		}
		return o
	}
	phaseOf := func(ct *mkrlwe.Ciphertext) *ring.Poly {
		return w.rawPhase(c, ct.Value, ct.Level(), w.skMap())
	}
	frozen := func(op string, f func()) {
		h0, h1 := hashRaw(A), hashRaw(B)
		f()
		c.Check(h0 == hashRaw(A) && h1 == hashRaw(B), "operand-changed", "%s changed its operands", op)
		c.Event(op)
		c.State("%s|%s|g%d|%d/%d|l%d/%d->%d", op, w.Name, gamma, len(ids0), len(ids1), l0, l1, lo)
	}
	want := w.mulPoly(lo, w.dropTo(pa, lo), w.dropTo(pb, lo))
	bound := w.mulBound(lo, ids0, ids1)
	o := outLvl(union, lo)
	c.Logf("generic layer g=%d parties %v %v levels %d %d -> %d", gamma, ids0, ids1, l0, l1, lo)
	frozen("MulAndRelin", func() { ks.MulAndRelin(A, B, rlk, o) })
	m.bounded("MulAndRelin", lo, phaseOf(o), want, bound)
	hoist := func(ct *mkrlwe.Ciphertext) *mkrlwe.HoistedCiphertext {
		hc := mkrlwe.NewHoistedCiphertext()
		for id, p := range ct.Value {
			if id != "0" {
				hc.Value[id] = mkrlwe.NewSwitchingKey(w.P.Parameters)
				ks.Decompose(lo, p, hc.Value[id])
			}
		}
		return hc
	}
	var hA, hB *mkrlwe.HoistedCiphertext
	if c.R.IntN(3) > 0 {
		hA = hoist(A)
	}
	if c.R.IntN(3) > 0 {
		hB = hoist(B)
	}
	o2 := outLvl(union, lo)
	frozen("MulAndRelinHoisted", func() { ks.MulAndRelinHoisted(A, B, hA, hB, rlk, o2) })
	m.bounded("MulAndRelinHoisted", lo, phaseOf(o2), want, bound)

	// rotations and conjugation, at the ciphertext's level and below
	rtk := c.RtkSet(w, ps...)
	lr := c.R.IntN(l0 + 1)
	if c.R.IntN(2) == 0 {
		lr = l0
	}
	ids := idsOf(ps0)
	for it := 0; it < 2; it++ {
		k := 1 << c.R.IntN(w.LogN-1)
		ask := k
		if c.R.IntN(2) == 0 {
			ask -= w.N / 2 * (1 + c.R.IntN(3))
		}
		ks, rtk := ks, rtk
		if c.R.IntN(4) == 0 {
			// any other index, once it has a reference string and keys
			k = c.R.IntN(w.N / 2)
			if c.R.IntN(6) == 0 {
				k = 0
			}
			ask = k - w.N/2*c.R.IntN(3)
			P := w.P.Parameters
			P.CRS = make(map[int]*mkrlwe.SwitchingKey)
			for i, a := range w.P.CRS {
				P.CRS[i] = a
			}
			if P.CRS[k] == nil {
				P.AddCRS(k)
			}
			ks, rtk = mkrlwe.NewKeySwitcher(P), mkrlwe.NewRotationKeySet()
			kg := mkrlwe.NewKeyGenerator(P)
			for _, p := range ps0 {
				rtk.AddRotationKey(kg.GenRotationKey(ask, p.SK))
			}
			c.Event("any-index")
		}
		want = w.autoPoly(lr, w.dropTo(pa, lr), w.galRot(k))
		o = outLvl(ids, lr)
		frozen("Rotate", func() { ks.Rotate(A, ask, rtk, o) })
		m.bounded("Rotate", lr, phaseOf(o), want, w.ksBoundAll(lr, ids0))
		hc := mkrlwe.NewHoistedCiphertext()
		for id, p := range A.Value {
			if id != "0" {
				hc.Value[id] = mkrlwe.NewSwitchingKey(w.P.Parameters)
				ks.Decompose(lr, p, hc.Value[id])
			}
		}
		hh := hoistHash(hc)
		o = outLvl(ids, lr)
		frozen("RotateHoisted", func() { ks.RotateHoisted(A, ask, hc, rtk, o) })
		c.Check(hh == hoistHash(hc), "operand-changed", "RotateHoisted changed the hoisted form")
		m.bounded("RotateHoisted", lr, phaseOf(o), want, w.ksBoundAll(lr, ids0))
	}
	cjk := c.CjkSet(w, ps...)
	o = outLvl(ids, lr)
	frozen("Conjugate", func() { ks.Conjugate(A, cjk, o) })
	m.bounded("Conjugate", lr, phaseOf(o), w.autoPoly(lr, w.dropTo(pa, lr), w.galConj()), w.ksBoundAll(lr, ids0))
}

func hashRaw(ct *mkrlwe.Ciphertext) uint64 {
	h := uint64(len(ct.Value))
	for id, p := range ct.Value {
		h += hash64(id) * (2*polyHash(p) + 1)
	}
	return h
}

// exactGadget is the gadget vector of b, without error, in Montgomery form.
func (w *World) exactGadget(b *ring.Poly) *mkrlwe.SwitchingKey {
	rQ := w.P.RingQ()
	t := rQ.NewPoly()
	rQ.NTT(b, t)
	rQ.MForm(t, t)
	swk := mkrlwe.NewSwitchingKey(w.P.Parameters)
	for i := range swk.Value {
		swk.Value[i] = w.gadget(rlwe.PolyQP{Q: t}, i)
	}
	return swk
}
