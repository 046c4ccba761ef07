package verifharness

import (
	"fmt"
	"math"
	"sort"

	"github.com/ldsec/lattigo/v2/ckks"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

// Prog is a random straight-line program over the evaluator: every step goes
// through the one-step monitor, and Before/After see every step.
type Prog struct {
	m    *Mon
	w    *World
	c    *Ctx
	enc  *mkckks.Encryptor
	ps   []*Party // parties with evaluation keys
	live []*CT
	// After is told the step's name, operands and result.
	After func(op string, operands []*CT, r *CT)
	// Before is told the operands before the step.
	Before func(op string, operands []*CT)
	maxIDs int
	// InPlace allows steps which change a live ciphertext in place.
	InPlace bool
}

func (c *Ctx) Prog(w *World, ps []*Party) *Prog {
	return &Prog{m: c.MonFull(w, ps), w: w, c: c, enc: mkckks.NewEncryptor(w.P), ps: ps, maxIDs: 4}
}

func (p *Prog) fresh() *CT {
	c, w := p.c, p.w
	k := 1 + c.R.IntN(min(3, len(p.ps)))
	var ps []*Party
	for _, i := range c.R.Perm(len(p.ps))[:k] {
		ps = append(ps, p.ps[i])
	}
	l := w.P.MaxLevel()
	if c.R.IntN(3) == 0 {
		l = c.R.IntN(l + 1)
	}
	s := w.P.Scale()
	if c.R.IntN(4) == 0 {
		s = c.randScale(w, l)
		if c.R.IntN(2) == 0 { // small enough or large enough to be matched by a whole factor
			s = w.P.Scale() * math.Exp2(float64(c.R.IntN(17)-8))
		}
	}
	if lim := w.modQ(l) / (256 * math.Sqrt(float64(w.N))); s > lim {
		s = lim
	}
	return c.operand(w, p.enc, ps, l, s, 1)
}

// add puts a ciphertext into the live pool if it still carries a meaningful value.
func (p *Prog) add(x *CT) {
	w := p.w
	room := w.modQ(x.ct.Level()) / (x.ct.Scale * 64 * math.Sqrt(float64(w.N)))
	if maxAbs(x.val)+x.err > room || x.err > 0.05*(maxAbs(x.val)+1) {
		return
	}
	if len(p.live) >= 7 {
		p.live[p.c.R.IntN(len(p.live))] = x
		return
	}
	p.live = append(p.live, x)
}

func (p *Prog) pick() *CT { return p.live[p.c.R.IntN(len(p.live))] }

// fits: a product of the two is still meaningful.
func (p *Prog) fits(a, b *CT) bool {
	w := p.w
	l := min(a.ct.Level(), b.ct.Level())
	return (maxAbs(a.val)*maxAbs(b.val)+1)*a.ct.Scale*b.ct.Scale*64*math.Sqrt(float64(w.N)) < w.modQ(l)
}

// Step runs one random operation and returns its name.
func (p *Prog) Step() string {
	c, w, m := p.c, p.w, p.m
	for len(p.live) < 3 {
		p.live = append(p.live, p.fresh())
	}
	a, b := p.pick(), p.pick()
	if c.R.IntN(6) == 0 {
		b = a
	}
	before := func(op string, xs ...*CT) {
		if p.Before != nil {
			p.Before(op, xs)
		}
	}
	done := func(op string, r *CT, xs ...*CT) string {
		if p.After != nil {
			p.After(op, xs, r)
		}
		p.add(r)
		return op
	}
	if p.InPlace && c.R.IntN(6) == 0 {
		return p.twice(a, b)
	}
	switch k := c.R.IntN(20); {
	case k < 2:
		before("fresh")
		return done("fresh", p.fresh())
	case k < 4:
		before("AddNew", a, b)
		return done("AddNew", m.Add(a, b), a, b)
	case k < 6:
		before("SubNew", a, b)
		return done("SubNew", m.Sub(a, b), a, b)
	case k < 9:
		if !p.fits(a, b) {
			return "skip"
		}
		before("MulRelinNew", a, b)
		return done("MulRelinNew", m.Mul(a, b), a, b)
	case k < 11:
		if !p.fits(a, b) {
			return "skip"
		}
		before("MulRelinHoistedNew", a, b)
		var ha, hb *mkrlwe.HoistedCiphertext
		if c.R.IntN(3) > 0 {
			ha = m.ev.HoistedForm(a.ct)
		}
		if c.R.IntN(3) > 0 {
			hb = m.ev.HoistedForm(b.ct)
		}
		return done("MulRelinHoistedNew", m.MulHoisted(a, b, ha, hb), a, b)
	case k < 13:
		v, _ := randMsg(c.R, w.Slots, 1)
		pt := p.enc.EncodeMsgNew(msgOf(v))
		if !(a.ct.Scale*pt.Scale*64*math.Sqrt(float64(w.N))*(maxAbs(a.val)+1) <= w.modQ(a.ct.Level())) {
			return "skip"
		}
		before("MulPtxtNew", a)
		return done("MulPtxtNew", m.MulPt(a, pt, v), a)
	case k < 14:
		kv, cv := c.randConst()
		before("MultByConst", a)
		return done("MultByConst", m.MulConst(a, kv, cv, false), a)
	case k < 16:
		k := c.R.IntN(2*w.N) - w.N
		before("RotateNew", a)
		return done("RotateNew", m.Rot(a, k), a)
	case k < 17:
		k := 1 << c.R.IntN(w.LogN-1)
		if c.R.IntN(3) == 0 {
			k -= w.N / 2
		}
		before("RotateHoistedNew", a)
		h := m.ev.HoistedForm(a.ct)
		return done("RotateHoistedNew", m.RotHoisted(a, k, h), a)
	case k < 18:
		before("ConjugateNew", a)
		return done("ConjugateNew", m.Conj(a), a)
	case k < 19:
		if a.ct.Level() == 0 {
			return "skip"
		}
		before("RescaleNew", a)
		t := w.P.Scale() * math.Exp2(float64(c.R.IntN(9)-4))
		return done("RescaleNew", m.Rescale(a, t, false), a)
	default:
		n := c.R.IntN(a.ct.Level() + 1)
		if c.R.IntN(2) == 0 {
			n = min(1, a.ct.Level())
		}
		before("DropLevelNew", a)
		return done("DropLevelNew", m.Drop(a, n, false), a)
	}
}

// twice uses a ciphertext, changes it in place and uses it again.
func (p *Prog) twice(a, b *CT) string {
	m, k := p.m, p.c.R.IntN(6)
	use := func(a *CT) {
		switch k {
		case 0, 1:
			if p.fits(a, b) {
				p.add(m.Mul(a, b))
			}
		case 2:
			if p.fits(b, a) {
				p.add(m.Mul(b, a))
			}
		case 3:
			p.add(m.Rot(a, 1))
		case 4:
			p.add(m.Conj(a))
		default:
			p.add(m.Add(a, b))
		}
	}
	use(a)
	var rest []*CT
	for _, x := range p.live {
		if x != a {
			rest = append(rest, x)
		}
	}
	x := m.Change(a)
	if b == a {
		b = x
	}
	p.live = rest
	p.add(x)
	use(x)
	return "changed-in-place"
}

// Vault fingerprints the objects an operation must leave alone.
type Vault struct {
	names []string
	now   []func() uint64
	was   []uint64
}

func (v *Vault) add(name string, f func() uint64) {
	v.names = append(v.names, name)
	v.now = append(v.now, f)
	v.was = append(v.was, f())
}

func (v *Vault) check(c *Ctx, op string) {
	for i := range v.names {
		c.Check(v.now[i]() == v.was[i], "operand-changed", "%s changed %s", op, v.names[i])
	}
}

func rlkHash(k *mkrlwe.RelinearizationKey) uint64 {
	return swkHash(k.Value[0]) + 3*swkHash(k.Value[1]) + 7*swkHash(k.Value[2]) + hash64(k.ID)
}

func crsHash(p mkrlwe.Parameters) uint64 {
	var ks []int
	for k := range p.CRS {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	h := uint64(1)
	for _, k := range ks {
		h = h*1000003 + uint64(k)
		h = h*1000003 + swkHash(p.CRS[k])
	}
	return h
}

func msgHash(v []complex128) uint64 {
	h := uint64(len(v))
	for _, x := range v {
		h = h*1000003 + math.Float64bits(real(x))
		h = h*1000003 + math.Float64bits(imag(x))
	}
	return h
}

func ptHash(p *ckks.Plaintext) uint64 {
	return polyHash(p.Value)*31 + math.Float64bits(p.Scale)
}

// keyVault holds every key of the parties and the common reference strings.
func (c *Ctx) keyVault(w *World, ps []*Party, m *Mon) *Vault {
	v := &Vault{}
	for _, p := range ps {
		p := p
		v.add(fmt.Sprintf("the secret key of %q", p.ID), func() uint64 { return qpHash(p.SK.Value) + hash64(p.SK.ID) })
		v.add(fmt.Sprintf("the public key of %q", p.ID), func() uint64 {
			return qpHash(p.PK.Value[0]) + 5*qpHash(p.PK.Value[1]) + hash64(p.PK.ID)
		})
		if p.rlk != nil {
			v.add(fmt.Sprintf("the relinearization key of %q", p.ID), func() uint64 { return rlkHash(p.rlk) })
		}
		for k, r := range p.rtk {
			r := r
			v.add(fmt.Sprintf("the rotation key %d of %q", k, p.ID), func() uint64 { return swkHash(r.Value) + uint64(r.RotIdx) + hash64(r.ID) })
		}
		if p.cjk != nil {
			v.add(fmt.Sprintf("the conjugation key of %q", p.ID), func() uint64 { return swkHash(p.cjk.Value) + hash64(p.cjk.ID) })
		}
	}
	v.add("the common reference strings", func() uint64 { return crsHash(w.P.Parameters) })
	if m != nil {
		if m.rlk != nil {
			v.add("the relinearization key set", func() uint64 {
				h := uint64(len(m.rlk.Value))
				for id, k := range m.rlk.Value {
					h += hash64(id + "|" + k.ID)
				}
				return h
			})
		}
		if m.rtk != nil {
			v.add("the rotation key set", func() uint64 {
				h := uint64(0)
				for id, s := range m.rtk.Value {
					for k, r := range s {
						h += hash64(fmt.Sprintf("%s|%d|%s|%d", id, k, r.ID, r.RotIdx))
					}
				}
				return h
			})
		}
		if m.cjk != nil {
			v.add("the conjugation key set", func() uint64 {
				h := uint64(len(m.cjk.Value))
				for id, k := range m.cjk.Value {
					h += hash64(id + "|" + k.ID)
				}
				return h
			})
		}
	}
	return v
}

// scribble overwrites everything a ciphertext holds.
func scribble(ct *mkckks.Ciphertext) {
	for id, p := range ct.Value {
		for j := range p.Coeffs {
			for i := range p.Coeffs[j] {
				p.Coeffs[j][i] ^= 0x5a5a5
			}
		}
		_ = id
	}
}

func (x *CT) clone() *CT {
	return &CT{ct: x.ct.CopyNew(), val: append([]complex128(nil), x.val...), err: x.err}
}

// cloneDeep copies a ciphertext with the harness's own code.
func cloneDeep(ct *mkckks.Ciphertext) *mkckks.Ciphertext {
	out := &mkckks.Ciphertext{Ciphertext: &mkrlwe.Ciphertext{Value: nil}, Scale: ct.Scale}
	out.Value = clonePolys(ct.Value)
	return out
}
