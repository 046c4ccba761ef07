package verifharness

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"math/cmplx"
	"sort"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

// CT is a ciphertext of the system with its shadow: the message it must decrypt
// to, and a bound on how far each slot may be off.
type CT struct {
	ct  *mkckks.Ciphertext
	val []complex128
	err float64
}

// randPoly is a uniformly random polynomial at a level.
func (w *World) randPoly(c *Ctx, level int) *ring.Poly {
	p := ring.NewPoly(w.N, level+1)
	for j := range p.Coeffs {
		q := w.P.RingQ().Modulus[j]
		for i := range p.Coeffs[j] {
			p.Coeffs[j][i] = c.R.Uint64N(q)
		}
	}
	return p
}

// encode is the encoding of a message at a level and scale, by lattigo's encoder.
func (w *World) encode(vals []complex128, level int, scale float64) *ring.Poly {
	pt := ckks.NewPlaintext(w.CK, level, scale)
	w.oracle.Encode(pt, vals, w.LogSlots)
	return pt.Value
}

// craft makes, without the system's encryptor, a ciphertext of the message under
// the given parties, at any level and scale, with fully random components.
func (w *World) craft(c *Ctx, ps []*Party, vals []complex128, level int, scale float64) *CT {
	ringQ := w.P.RingQ()
	ct := &mkckks.Ciphertext{Ciphertext: &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}, Scale: scale}
	acc := ringQ.NewPolyLvl(level)
	// small error, the same integer modulo every prime
	for i := 0; i < w.N; i++ {
		e := c.R.IntN(9) - 4
		for j := range acc.Coeffs {
			q := ringQ.Modulus[j]
			if e < 0 {
				acc.Coeffs[j][i] = q - uint64(-e)
			} else {
				acc.Coeffs[j][i] = uint64(e)
			}
		}
	}
	pt := w.encode(vals, level, scale)
	ringQ.ReduceLvl(level, pt, pt)
	ringQ.AddLvl(level, acc, pt, acc)
	for _, p := range ps {
		a := w.randPoly(c, level)
		if !c.uniform && c.R.IntN(6) == 0 {
			w.thin(c, a)
		}
		ct.Value[p.ID] = a
		t := ringQ.NewPolyLvl(level)
		ringQ.NTTLvl(level, a, t)
		ringQ.MulCoeffsMontgomeryLvl(level, t, p.SK.Value.Q, t)
		ringQ.InvNTTLvl(level, t, t)
		ringQ.SubLvl(level, acc, t, acc)
	}
	if len(ps) > 0 && !c.uniform && c.R.IntN(6) == 0 {
		p := ps[c.R.IntN(len(ps))]
		w.clearShared(c, p, ct.Value[p.ID], acc, level)
	}
	ct.Value["0"] = acc
	return &CT{ct: ct, val: append([]complex128(nil), vals...), err: w.slotErr(32, scale) + 1e-12*maxAbs(vals)}
}

// thin puts zeros into a random component: a decryption is as good with them.
func (w *World) thin(c *Ctx, a *ring.Poly) {
	switch c.R.IntN(6) {
	case 0: // all of it
		a.Zero()
	case 1: // the first coefficient
		for j := range a.Coeffs {
			a.Coeffs[j][0] = 0
		}
	case 2: // one residue of the first coefficient
		a.Coeffs[c.R.IntN(len(a.Coeffs))][0] = 0
	case 3: // a whole row: a multiple of that prime
		row := a.Coeffs[c.R.IntN(len(a.Coeffs))]
		for i := range row {
			row[i] = 0
		}
	case 4: // all but one coefficient
		k := c.R.IntN(w.N)
		for j := range a.Coeffs {
			for i := range a.Coeffs[j] {
				if i != k {
					a.Coeffs[j][i] = 0
				}
			}
		}
	default: // one half
		lo := c.R.IntN(2) * w.N / 2
		for j := range a.Coeffs {
			for i := lo; i < lo+w.N/2; i++ {
				a.Coeffs[j][i] = 0
			}
		}
	}
	c.Event("thin-component")
}

// clearShared moves the first coefficient of the shared component to zero by
// changing one coefficient of a party's component: with s_k = 1 or -1, adding x
// s_k to a_{N-k} takes x off the first coefficient of a*s.
func (w *World) clearShared(c *Ctx, p *Party, a, acc *ring.Poly, level int) {
	s := w.skCoeffs(p.SK)
	for k := 1; k < w.N; k++ {
		if s[k] != 1 && s[k] != -1 {
			continue
		}
		t := ring.NewPoly(w.N, level+1) // what is added to a
		for j := 0; j <= level; j++ {
			q := w.P.RingQ().Modulus[j]
			x := acc.Coeffs[j][0] % q
			if s[k] > 0 && x != 0 {
				x = q - x
			}
			t.Coeffs[j][w.N-k] = x
			a.Coeffs[j][w.N-k] = (a.Coeffs[j][w.N-k] + x) % q
		}
		ringQ := w.P.RingQ()
		ringQ.NTTLvl(level, t, t)
		ringQ.MulCoeffsMontgomeryLvl(level, t, p.SK.Value.Q, t)
		ringQ.InvNTTLvl(level, t, t)
		ringQ.SubLvl(level, acc, t, acc)
		for j := 0; j <= level; j++ {
			if acc.Coeffs[j][0] != 0 {
				panic("harness: the first coefficient is not cleared")
			}
		}
		c.Event("thin-shared")
		return
	}
}

// polyHash fingerprints a polynomial including its domain flag.
func polyHash(p *ring.Poly) uint64 {
	if p == nil {
		return 0
	}
	h := uint64(0x243f6a8885a308d3)
	put := func(x uint64) { h = bits.RotateLeft64((h^x)*0x9e3779b97f4a7c15, 29) + x }
	if p.IsNTT {
		put(1)
	}
	put(uint64(len(p.Coeffs)))
	for _, r := range p.Coeffs {
		put(uint64(len(r)))
		for _, x := range r {
			put(x)
		}
	}
	return h
}

func qpHash(p rlwe.PolyQP) uint64 { return polyHash(p.Q)*31 + polyHash(p.P) }

func swkHash(s *mkrlwe.SwitchingKey) uint64 {
	h := uint64(17)
	if s == nil {
		return h
	}
	for _, v := range s.Value {
		h = h*1000003 + qpHash(v)
	}
	return h
}

func ctHash(ct *mkckks.Ciphertext) uint64 {
	var ids []string
	for id := range ct.Value {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	h := math.Float64bits(ct.Scale)
	for _, id := range ids {
		h = h*1000003 + hash64(id)
		h = h*1000003 + polyHash(ct.Value[id])
	}
	return h
}

// valEq compares two ciphertexts as values: same parties, level and scale, and the
// same residues.
func (w *World) valEq(a, b *mkckks.Ciphertext) (bool, string) {
	if !sameIDs(ctIDs(a), ctIDs(b)) {
		return false, "different parties"
	}
	if a.Level() != b.Level() {
		return false, fmt.Sprintf("levels %d and %d", a.Level(), b.Level())
	}
	if a.Scale != b.Scale && math.Abs(a.Scale/b.Scale-1) > 1e-14 {
		return false, fmt.Sprintf("scales %g and %g", a.Scale, b.Scale)
	}
	for id := range a.Value {
		for j := 0; j <= a.Level(); j++ {
			q := w.P.RingQ().Modulus[j]
			if j >= len(a.Value[id].Coeffs) || j >= len(b.Value[id].Coeffs) {
				return false, "component lengths"
			}
			for i := range a.Value[id].Coeffs[j] {
				if a.Value[id].Coeffs[j][i]%q != b.Value[id].Coeffs[j][i]%q {
					return false, fmt.Sprintf("component %q modulus %d coefficient %d", id, j, i)
				}
			}
		}
	}
	return true, ""
}

// Mon wraps an evaluator: every call is checked against the one-step oracle on
// the phases of the actual operands, and the shadow message is carried along.
type Mon struct {
	c   *Ctx
	w   *World
	ev  *mkckks.Evaluator
	rlk *mkrlwe.RelinearizationKeySet
	rtk *mkrlwe.RotationKeySet
	cjk *mkrlwe.ConjugationKeySet
	// given: results go into ciphertexts of other levels and party sets, too
	given bool
}

func (c *Ctx) Mon(w *World) *Mon {
	return &Mon{c: c, w: w, ev: mkckks.NewEvaluator(w.P)}
}

func (c *Ctx) MonFull(w *World, ps []*Party) *Mon {
	m := c.Mon(w)
	m.rlk = c.RlkSet(w, ps...)
	m.rtk = c.RtkSet(w, ps...)
	m.cjk = c.CjkSet(w, ps...)
	return m
}

func (m *Mon) desc(x *CT) string {
	return fmt.Sprintf("[ids=%d lvl=%d scale=2^%.2f]", len(x.ct.Value)-1, x.ct.Level(), math.Log2(x.ct.Scale))
}

// wellFormed: the parties are exactly those expected, every component carries the
// ciphertext's moduli, scale is a positive number.
func (m *Mon) wellFormed(op string, out *mkckks.Ciphertext, ids []string, level int, scale float64) {
	c := m.c
	c.Check(out != nil && out.Ciphertext != nil && out.Value["0"] != nil, "malformed-ciphertext", "%s returned no ciphertext", op)
	c.Check(sameIDs(ctIDs(out), ids), "party-set", "%s: result belongs to %v, expected %v", op, ctIDs(out), ids)
	c.Check(out.Level() == level, "level", "%s: result at level %d, expected %d", op, out.Level(), level)
	for id, p := range out.Value {
		c.Check(len(p.Coeffs) == level+1, "malformed-ciphertext", "%s: component %q has %d moduli, the ciphertext %d", op, id, len(p.Coeffs), level+1)
		for j := range p.Coeffs {
			c.Check(len(p.Coeffs[j]) == m.w.N, "malformed-ciphertext", "%s: component %q has a row of %d coefficients", op, id, len(p.Coeffs[j]))
		}
	}
	c.Check(out.Scale > 0 && math.Abs(out.Scale/scale-1) < 1e-9, "scale", "%s: result scale %g, expected %g", op, out.Scale, scale)
}

// bounded checks a phase error against its bound; a bound that the modulus cannot
// resolve makes the step inconclusive.
func (m *Mon) bounded(op string, level int, got, want *ring.Poly, bound float64) {
	c := m.c
	if bound > m.w.modQ(level)/16 {
		c.Event("inconclusive:" + op)
		return
	}
	d := m.w.diffNorm(level, got, want)
	c.Ratio(op, d/bound)
	c.Check(d <= bound, "wrong-result", "%s: phase is off by %.3g, allowed %.3g (level %d)", op, d, bound, level)
}

// slots checks the shadow message.
func (m *Mon) slots(op string, x *CT) {
	c, w := m.c, m.w
	// the plaintext has to fit the modulus for its value to mean anything
	// (a long chain of squares can leave even the range of the reference)
	if !((maxAbs(x.val)+x.err)*x.ct.Scale*2*math.Sqrt(float64(w.N)) <= w.modQ(x.ct.Level())/2) {
		c.Event("overflow:" + op)
		return
	}
	d := maxDiff(w.slotsOf(c, x.ct), x.val)
	tol := 2*x.err + 1e-9*(maxAbs(x.val)+1e-12)
	c.Ratio("slots-"+op, d/tol)
	c.Check(d <= tol, "wrong-message", "%s: a slot is off by %.3g, allowed %.3g", op, d, tol)
}

// dropTo reduces a phase to a lower level.
func (w *World) dropTo(p *ring.Poly, level int) *ring.Poly {
	return &ring.Poly{Coeffs: p.Coeffs[:level+1]}
}

// addFactor is how much the smaller-scale operand is scaled up by.
func addFactor(sa, sb float64) (fa, fb float64) {
	fa, fb = 1, 1
	if sb > sa {
		fa = math.Max(1, math.Floor(sb/sa))
	} else if sa > sb {
		fb = math.Max(1, math.Floor(sa/sb))
	}
	return
}

func (m *Mon) Add(a, b *CT) *CT { return m.addsub(a, b, false) }
func (m *Mon) Sub(a, b *CT) *CT { return m.addsub(a, b, true) }

func (m *Mon) addsub(a, b *CT, sub bool) *CT {
	c, w := m.c, m.w
	op := "AddNew"
	if sub {
		op = "SubNew"
	}
	c.Logf("%s %s %s", op, m.desc(a), m.desc(b))
	pa, pb := w.phase(c, a.ct), w.phase(c, b.ct)
	var out *mkckks.Ciphertext
	if sub {
		out = m.ev.SubNew(a.ct, b.ct)
	} else {
		out = m.ev.AddNew(a.ct, b.ct)
	}
	level := min(a.ct.Level(), b.ct.Level())
	scale := math.Max(a.ct.Scale, b.ct.Scale)
	m.wellFormed(op, out, unionIDs(ctIDs(a.ct), ctIDs(b.ct)), level, scale)
	ringQ := w.P.RingQ()
	if a.ct.Scale == b.ct.Scale {
		want := ringQ.NewPolyLvl(level)
		if sub {
			ringQ.SubLvl(level, w.dropTo(pa, level), w.dropTo(pb, level), want)
		} else {
			ringQ.AddLvl(level, w.dropTo(pa, level), w.dropTo(pb, level), want)
		}
		d := w.diffNorm(level, w.phase(c, out), want)
		c.Check(d == 0, "wrong-result", "%s of equal scales is not exact: phase off by %g", op, d)
	}
	fa, fb := addFactor(a.ct.Scale, b.ct.Scale)
	if a.ct.Scale != b.ct.Scale {
		// the operand of the lower scale enters a whole number of times
		near := math.Inf(1)
		for _, up := range []float64{0, 1} {
			ka, kb := fa, fb
			if r := math.Max(a.ct.Scale, b.ct.Scale) / math.Min(a.ct.Scale, b.ct.Scale); up == 1 {
				// from 2^52 on, the ratio of two float64 is itself rounded to a whole number
				if r == math.Trunc(r) && r < 1<<52 {
					break
				}
				if a.ct.Scale < b.ct.Scale {
					ka++
				} else {
					kb++
				}
			}
			xa, xb, want := ringQ.NewPolyLvl(level), ringQ.NewPolyLvl(level), ringQ.NewPolyLvl(level)
			ia, _ := big.NewFloat(ka).Int(nil)
			ib, _ := big.NewFloat(kb).Int(nil)
			ringQ.MulScalarBigintLvl(level, w.dropTo(pa, level), ia, xa)
			ringQ.MulScalarBigintLvl(level, w.dropTo(pb, level), ib, xb)
			if sub {
				ringQ.SubLvl(level, xa, xb, want)
			} else {
				ringQ.AddLvl(level, xa, xb, want)
			}
			near = math.Min(near, w.diffNorm(level, w.phase(c, out), want))
		}
		c.Check(near == 0, "wrong-result", "%s of scales %g and %g: the operand of the lower scale does not enter by the ratio of the scales (phase off by %g)", op, a.ct.Scale, b.ct.Scale, near)
		c.Event("scale-match")
	}
	va, vb := make([]complex128, len(a.val)), make([]complex128, len(a.val))
	ra, rb := a.ct.Scale*fa/scale, b.ct.Scale*fb/scale
	v := make([]complex128, len(a.val))
	for i := range v {
		va[i], vb[i] = a.val[i], b.val[i]
		if sub {
			v[i] = va[i] - vb[i]
		} else {
			v[i] = va[i] + vb[i]
		}
	}
	r := &CT{ct: out, val: v}
	r.err = a.err + b.err + math.Abs(ra-1)*maxAbs(va) + math.Abs(rb-1)*maxAbs(vb) + 1e-11*(maxAbs(va)+maxAbs(vb))
	m.slots(op, r)
	c.Event(op)
	c.State("%s|%s|%d/%d|l%d/%d|%s", op, w.Name, len(a.ct.Value), len(b.ct.Value), a.ct.Level(), b.ct.Level(), scaleRel(a.ct.Scale, b.ct.Scale))
	return r
}

func scaleRel(a, b float64) string {
	switch {
	case a == b:
		return "="
	case a > b:
		return fmt.Sprintf(">%d", int(math.Log2(a/b)))
	}
	return fmt.Sprintf("<%d", int(math.Log2(b/a)))
}

// expRescale applies the documented rescaling rule: divide by the last prime while
// the scale stays at least half the target, never below level zero.
func (w *World) expRescale(level int, scale, target float64) (int, float64) {
	if level == 0 {
		return level, scale
	}
	for level > 0 && scale/float64(w.P.RingQ().Modulus[level]) >= target/2 {
		scale /= float64(w.P.RingQ().Modulus[level])
		level--
	}
	return level, scale
}

func prodVals(a, b []complex128) []complex128 {
	v := make([]complex128, len(a))
	for i := range v {
		v[i] = a[i] * b[i]
	}
	return v
}

// checkMul is the oracle of a relinearized, rescaled product.
func (m *Mon) checkMul(op string, a, b *CT, pa, pb *ring.Poly, out *mkckks.Ciphertext) *CT {
	c, w := m.c, m.w
	level := min(a.ct.Level(), b.ct.Level())
	ids0, ids1 := ctIDs(a.ct), ctIDs(b.ct)
	ids := unionIDs(ids0, ids1)
	ol, os := w.expRescale(level, a.ct.Scale*b.ct.Scale, w.P.Scale())
	m.wellFormed(op, out, ids, ol, os)
	want := w.mulPoly(level, w.dropTo(pa, level), w.dropTo(pb, level))
	got, qd := w.upScale(level, ol, w.phase(c, out))
	bound := w.mulBound(level, ids0, ids1)
	if ol < level {
		bound += qd * w.rescaleBound(ids)
	}
	m.bounded(op, level, got, want, bound)
	r := &CT{ct: out, val: prodVals(a.val, b.val)}
	ma, mb := maxAbs(a.val), maxAbs(b.val)
	r.err = ma*b.err + mb*a.err + a.err*b.err + w.slotErrKS(bound, a.ct.Scale*b.ct.Scale) + 4*w.biasErr(ids, a.ct.Scale*b.ct.Scale)
	m.slots(op, r)
	c.Event(op)
	c.State("%s|%s|%d/%d|l%d/%d->%d|sq%v", op, w.Name, len(ids0), len(ids1), a.ct.Level(), b.ct.Level(), ol, a == b)
	return r
}

func (m *Mon) Mul(a, b *CT) *CT {
	c, w := m.c, m.w
	c.Logf("MulRelinNew %s %s same=%v", m.desc(a), m.desc(b), a.ct == b.ct)
	pa, pb := w.phase(c, a.ct), w.phase(c, b.ct)
	out := m.ev.MulRelinNew(a.ct, b.ct, m.rlk)
	return m.checkMul("MulRelinNew", a, b, pa, pb, out)
}

func (m *Mon) MulHoisted(a, b *CT, ha, hb *mkrlwe.HoistedCiphertext) *CT {
	c, w := m.c, m.w
	c.Logf("MulRelinHoistedNew %s %s h=%v/%v", m.desc(a), m.desc(b), ha != nil, hb != nil)
	pa, pb := w.phase(c, a.ct), w.phase(c, b.ct)
	out := m.ev.MulRelinHoistedNew(a.ct, b.ct, ha, hb, m.rlk)
	return m.checkMul("MulRelinHoistedNew", a, b, pa, pb, out)
}

// MulPt multiplies by an encoded message.
func (m *Mon) MulPt(a *CT, pt *ckks.Plaintext, vals []complex128) *CT {
	c, w := m.c, m.w
	c.Logf("MulPtxtNew %s ptscale=2^%.2f ptlevel=%d", m.desc(a), math.Log2(pt.Scale), pt.Level())
	pa := w.phase(c, a.ct)
	level := a.ct.Level()
	pp := w.P.RingQ().NewPolyLvl(level)
	w.P.RingQ().ReduceLvl(level, pt.Value, pp)
	if pt.Value.IsNTT {
		w.P.RingQ().InvNTTLvl(level, pp, pp)
		c.Event("ntt-plaintext")
	}
	out := m.ev.MulPtxtNew(a.ct, pt)
	ids := ctIDs(a.ct)
	ol, os := w.expRescale(level, a.ct.Scale*pt.Scale, w.P.Scale())
	m.wellFormed("MulPtxtNew", out, ids, ol, os)
	want := w.mulPoly(level, pa, pp)
	got, qd := w.upScale(level, ol, w.phase(c, out))
	bound := 0.0
	if ol < level {
		bound = qd * w.rescaleBound(ids)
	}
	if bound == 0 {
		d := w.diffNorm(level, got, want)
		c.Check(d == 0, "wrong-result", "MulPtxtNew without rescaling is not exact: phase off by %g", d)
	} else {
		m.bounded("MulPtxtNew", level, got, want, bound)
	}
	r := &CT{ct: out, val: prodVals(a.val, vals)}
	pe := w.slotErr(6, pt.Scale) + 1e-12*maxAbs(vals)
	r.err = maxAbs(a.val)*pe + (maxAbs(vals)+pe)*a.err + w.slotErr(bound, a.ct.Scale*pt.Scale)
	m.slots("MulPtxtNew", r)
	c.Event("MulPtxtNew")
	c.State("MulPtxtNew|%s|%d|l%d->%d|s%d", w.Name, len(ids), level, ol, int(math.Log2(pt.Scale)))
	return r
}

// MulConst multiplies by a constant, into a fresh result or in place.
func (m *Mon) MulConst(a *CT, constant interface{}, val complex128, inPlace bool) *CT {
	c, w := m.c, m.w
	c.Logf("MultByConst %s const=%v(%T) inplace=%v", m.desc(a), constant, constant, inPlace)
	pa := w.phase(c, a.ct)
	level := a.ct.Level()
	ids := ctIDs(a.ct)
	inScale := a.ct.Scale
	out := a.ct
	if !inPlace {
		// the given result may be at another level, and have room for other parties
		lo, in := level, a.ct.IDSet().CopyNew()
		if m.given && c.R.IntN(4) == 0 {
			lo = c.R.IntN(w.P.MaxLevel() + 1)
			level = min(level, lo)
		}
		if m.given && c.R.IntN(4) == 0 {
			for i := 0; i < 3; i++ {
				if c.R.IntN(2) == 0 {
					in.Add(c.Party(w, i).ID)
				}
			}
		}
		out = mkckks.NewCiphertext(w.P, in, lo, inScale*float64(1+c.R.IntN(3))/2)
		for _, id := range append(ctIDs(out), "0") {
			c.junk(w, out.Value[id])
		}
		ids = ctIDs(out)
		pa = w.dropTo(pa, level)
		c.State("MultByConst|given|l%d|%d|%d", lo-a.ct.Level(), len(ids)-a.ct.IDSet().Size(), level)
	}
	m.ev.MultByConst(a.ct, constant, out)
	// the scale the result declares decides what the phase has to be
	k := out.Scale / inScale
	c.Check(out.Scale > 0 && !math.IsInf(out.Scale, 0) && k > 0.9, "scale", "MultByConst(%v): result scale %g from %g", constant, out.Scale, inScale)
	m.wellFormed("MultByConst", out, ids, level, out.Scale)
	// whole constants leave the scale, others take the precision of the top prime
	if real(val) == math.Trunc(real(val)) && imag(val) == math.Trunc(imag(val)) {
		c.Check(math.Abs(k-1) < 1e-9, "scale", "MultByConst(%v) with a whole constant changes the scale by %g", constant, k)
	} else {
		top := float64(w.P.RingQ().Modulus[level])
		c.Check(math.Abs(k/top-1) < 1e-9, "scale", "MultByConst(%v) with a fraction changes the scale by %g, not by the top prime %g", constant, k, top)
	}
	// expected phase: (a + b X^{N/2}) * phase * k with the constant rounded to integers
	re, im := bigRound(real(val), k), bigRound(imag(val), k)
	co := make([]*big.Int, w.N)
	for i := range co {
		co[i] = new(big.Int)
	}
	co[0].Set(re)
	co[w.N/2].Set(im)
	cp := w.P.RingQ().NewPolyLvl(level)
	w.P.RingQ().SetCoefficientsBigintLvl(level, co, cp)
	want := w.mulPoly(level, pa, cp)
	d := w.diffNorm(level, w.phase(c, out), want)
	// the rounding of the constant may go either way by one unit (or by float
	// precision for constants beyond 2^53)
	unit := 1.0 + math.Max(math.Abs(real(val)), math.Abs(imag(val)))*k*0x1p-51
	if b2f(re, im, val, k) == 0 && math.Max(math.Abs(real(val)), math.Abs(imag(val))) < 1<<52 {
		c.Check(d == 0, "wrong-result", "MultByConst(%v) with a whole constant is not exact: phase off by %g", constant, d)
	}
	pn := infNorm(w.centred(level, pa))
	if d != 0 && pn*unit*4 < w.modQ(level)/16 {
		c.Check(d <= pn*unit*4, "wrong-result", "MultByConst(%v): phase off by %g, allowed %g", constant, d, pn*unit*4)
	} else if d != 0 {
		c.Event("inconclusive:MultByConst")
	}
	r := &CT{ct: out, val: make([]complex128, len(a.val))}
	for i := range r.val {
		r.val[i] = a.val[i] * val
	}
	r.err = a.err*(cmplx.Abs(val)+2/k) + maxAbs(a.val)*(1.5/k*b2f(re, im, val, k)+1e-12*cmplx.Abs(val))
	m.slots("MultByConst", r)
	c.Event("MultByConst")
	c.State("MultByConst|%s|%d|l%d|%T|ip%v|k%v", w.Name, len(ids), level, constant, inPlace, k > 1)
	return r
}

// b2f is 0 when the constant is an integer at unit scale, else 1.
func b2f(re, im *big.Int, val complex128, k float64) float64 {
	if k == 1 && real(val) == math.Trunc(real(val)) && imag(val) == math.Trunc(imag(val)) {
		return 0
	}
	return 1
}

func bigRound(x, k float64) *big.Int {
	f := new(big.Float).SetPrec(200).SetFloat64(x)
	f.Mul(f, new(big.Float).SetPrec(200).SetFloat64(k))
	if x < 0 {
		f.Sub(f, big.NewFloat(0.5))
	} else {
		f.Add(f, big.NewFloat(0.5))
	}
	i, _ := f.Int(nil)
	return i
}

// checkAuto is the oracle of a rotation or conjugation: hops key switches.
func (m *Mon) checkAuto(op string, a *CT, pa *ring.Poly, gal uint64, hops int, val []complex128, out *mkckks.Ciphertext) *CT {
	c, w := m.c, m.w
	level := a.ct.Level()
	ids := ctIDs(a.ct)
	m.wellFormed(op, out, ids, level, a.ct.Scale)
	want := w.autoPoly(level, pa, gal)
	bound := float64(hops) * w.ksBoundAll(level, ids)
	got := w.phase(c, out)
	if hops == 0 {
		d := w.diffNorm(level, got, want)
		c.Check(d == 0, "wrong-result", "%s by nothing changes the phase by %g", op, d)
	} else {
		m.bounded(op, level, got, want, bound)
	}
	r := &CT{ct: out, val: val, err: a.err + w.slotErrKS(bound, a.ct.Scale) + float64(hops)*w.biasErr(ids, a.ct.Scale)}
	m.slots(op, r)
	c.Event(op)
	return r
}

// hops is how many key switches a rotation may take: one with a dedicated key,
// else one per set bit.
func (w *World) hops(k int) int {
	h := w.N / 2
	k %= h
	if k < 0 {
		k += h
	}
	n := 0
	for ; k > 0; k >>= 1 {
		n += k & 1
	}
	return n
}

func (m *Mon) Rot(a *CT, k int) *CT {
	c, w := m.c, m.w
	c.Logf("RotateNew %s by %d", m.desc(a), k)
	pa := w.phase(c, a.ct)
	out := m.ev.RotateNew(a.ct, k, m.rtk)
	c.State("RotateNew|%s|%d|l%d|k%d", w.Name, len(a.ct.Value)-1, a.ct.Level(), k)
	return m.checkAuto("RotateNew", a, pa, w.galRot(k), w.hops(k), rotl(a.val, k), out)
}

func (m *Mon) RotHoisted(a *CT, k int, h *mkrlwe.HoistedCiphertext) *CT {
	c, w := m.c, m.w
	c.Logf("RotateHoistedNew %s by %d", m.desc(a), k)
	pa := w.phase(c, a.ct)
	out := m.ev.RotateHoistedNew(a.ct, k, h, m.rtk)
	c.State("RotateHoistedNew|%s|%d|l%d|k%d", w.Name, len(a.ct.Value)-1, a.ct.Level(), k)
	return m.checkAuto("RotateHoistedNew", a, pa, w.galRot(k), w.hops(k), rotl(a.val, k), out)
}

func (m *Mon) Conj(a *CT) *CT {
	c, w := m.c, m.w
	c.Logf("ConjugateNew %s", m.desc(a))
	pa := w.phase(c, a.ct)
	out := m.ev.ConjugateNew(a.ct, m.cjk)
	c.State("ConjugateNew|%s|%d|l%d", w.Name, len(a.ct.Value)-1, a.ct.Level())
	return m.checkAuto("ConjugateNew", a, pa, w.galConj(), 1, conj(a.val), out)
}

// Rescale rescales to a target scale, into a new ciphertext or in place.
func (m *Mon) Rescale(a *CT, target float64, inPlace bool) *CT {
	c, w := m.c, m.w
	c.Logf("Rescale %s target=2^%.2f inplace=%v", m.desc(a), math.Log2(target), inPlace)
	pa := w.phase(c, a.ct)
	level, scale := a.ct.Level(), a.ct.Scale
	ids := ctIDs(a.ct)
	var out *mkckks.Ciphertext
	var err error
	if inPlace {
		out = a.ct
		err = m.ev.Rescale(a.ct, target, a.ct)
	} else {
		out, err = m.ev.RescaleNew(a.ct, target)
	}
	c.Check(err == nil, "refused", "Rescale of a level-%d ciphertext to %g is refused: %v", level, target, err)
	ol, os := w.expRescale(level, scale, target)
	m.wellFormed("Rescale", out, ids, ol, os)
	got, qd := w.upScale(level, ol, w.phase(c, out))
	bound := 0.0
	if ol == level {
		d := w.diffNorm(level, got, pa)
		c.Check(d == 0, "wrong-result", "a rescaling that divides by nothing changed the ciphertext: phase off by %g", d)
	} else {
		bound = qd * w.rescaleBound(ids)
		m.bounded("Rescale", level, got, pa, bound)
	}
	r := &CT{ct: out, val: append([]complex128(nil), a.val...), err: a.err + w.slotErr(bound, scale)}
	m.slots("Rescale", r)
	c.Event("Rescale")
	c.State("Rescale|%s|%d|l%d->%d|ip%v", w.Name, len(ids), level, ol, inPlace)
	return r
}

// Drop drops levels, into a new ciphertext or in place.
func (m *Mon) Drop(a *CT, n int, inPlace bool) *CT {
	c, w := m.c, m.w
	c.Logf("DropLevel %s by %d inplace=%v", m.desc(a), n, inPlace)
	pa := w.phase(c, a.ct)
	level, scale := a.ct.Level(), a.ct.Scale
	ids := ctIDs(a.ct)
	out := a.ct
	if inPlace {
		m.ev.DropLevel(a.ct, n)
	} else {
		out = m.ev.DropLevelNew(a.ct, n)
	}
	m.wellFormed("DropLevel", out, ids, level-n, scale)
	d := w.diffNorm(level-n, w.phase(c, out), w.dropTo(pa, level-n))
	c.Check(d == 0, "wrong-result", "dropping levels changes the phase by %g", d)
	r := &CT{ct: out, val: append([]complex128(nil), a.val...), err: a.err}
	m.slots("DropLevel", r)
	c.Event("DropLevel")
	c.State("DropLevel|%s|%d|l%d-%d|ip%v", w.Name, len(ids), level, n, inPlace)
	return r
}

// pick returns k distinct party indexes out of n.
// Change changes a ciphertext in place, by what its message can bear.
func (m *Mon) Change(a *CT) *CT {
	c := m.c
	c.Event("changed-in-place")
	switch k := c.R.IntN(4); {
	case k < 2 && a.ct.Level() > 0:
		// if the message still fits
		if room := m.w.modQ(a.ct.Level()-1) / (a.ct.Scale * 256 * float64(m.w.N)); maxAbs(a.val) < room {
			return m.Drop(a, 1, true)
		}
	case k == 2:
		return m.MulConst(a, complex(0, 1), complex(0, 1), true)
	}
	return m.MulConst(a, -1, -1, true)
}

// Renew gives party i new keys under its old name, in the key sets at hand, until
// undo is called.
func (m *Mon) Renew(i int) (p *Party, undo func()) {
	c, w := m.c, m.w
	undo = c.rekey(w, i)
	p = c.Party(w, i)
	if m.rlk != nil {
		m.rlk.AddRelinearizationKey(c.Rlk(w, p))
	}
	if m.rtk != nil {
		for k := 1; k < w.N/2; k *= 2 {
			m.rtk.AddRotationKey(c.Rtk(w, p, k))
		}
	}
	if m.cjk != nil {
		m.cjk.AddConjugationKey(c.Cjk(w, p))
	}
	c.Event("renewed-keys")
	return p, undo
}

func (c *Ctx) pick(n, k int) []int {
	return c.R.Perm(n)[:k]
}

// capMag is a message magnitude which fits a plaintext at the level and scale.
func (w *World) capMag(level int, scale float64) float64 {
	return w.modQ(level) / scale / (64 * math.Sqrt(float64(w.N)))
}

func clonePolys(m map[string]*ring.Poly) map[string]*ring.Poly {
	out := map[string]*ring.Poly{}
	for id, p := range m {
		out[id] = clonePoly(p)
	}
	return out
}

func clonePoly(p *ring.Poly) *ring.Poly {
	q := &ring.Poly{IsNTT: p.IsNTT, IsMForm: p.IsMForm}
	for _, r := range p.Coeffs {
		q.Coeffs = append(q.Coeffs, append([]uint64(nil), r...))
	}
	return q
}

func ckksEncoder(w *World) ckks.Encoder { return ckks.NewEncoder(w.CK) }
