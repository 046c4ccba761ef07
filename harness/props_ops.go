package verifharness

import (
	"fmt"
	"github.com/ldsec/lattigo/v2/ring"
	"math"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

// pickCfg spreads the cases of a property over the parameter sets.
func (c *Ctx) pickCfg(lists ...[]Cfg) Cfg {
	var all []Cfg
	for _, l := range lists {
		all = append(all, l...)
	}
	return all[c.Case%len(all)]
}

// stdCfg: mostly the small rings, every tenth case a middle one, and now and then
// one of a size used in practice.
func (c *Ctx) stdCfg() Cfg {
	if n := map[bool]int{true: 97, false: 211}[c.Tier == "thorough"]; c.Case%n == n-1 {
		return bigCfgs[(c.Case/n)%len(bigCfgs)]
	}
	if c.Case%10 == 9 {
		return midCfgs[(c.Case/10)%len(midCfgs)]
	}
	return smallCfgs[(c.Case-c.Case/10)%len(smallCfgs)]
}

func tiers(quick, thorough int) func(string) int {
	return func(t string) int {
		if t == "thorough" {
			return thorough
		}
		return quick
	}
}

// crowd is the number of parties around: usually n, in some cases of the small
// rings many more.
func (c *Ctx) crowd(w *World, n int) int {
	if w.LogN <= 6 && c.Case%27 == 6 && n > 2 {
		c.Event("crowd-of-forty")
		return 40
	}
	if w.LogN <= 7 && c.Case%9 == 6 && n > 2 {
		return 11
	}
	return n
}

// everyone is all the parties around.
func (c *Ctx) everyone(w *World, n int) []*Party {
	var r []*Party
	for i := 0; i < c.crowd(w, n); i++ {
		r = append(r, c.Party(w, i))
	}
	return r
}

// randParties picks a non-empty party subset, sized 1..max.
func (c *Ctx) randParties(w *World, pool, max int) []*Party {
	if n := c.crowd(w, pool); n > pool {
		pool, max = n, []int{3, n}[c.R.IntN(2)]
	}
	k := 1 + c.R.IntN(max)
	return c.Parties(w, c.pick(pool, k)...)
}

// anyParties is randParties, or now and then nobody: a ciphertext all of whose
// parties have partially decrypted it, or a public constant.
func (c *Ctx) anyParties(w *World, pool, max int) []*Party {
	if c.R.IntN(12) == 0 {
		c.Event("no-party")
		return nil
	}
	return c.randParties(w, pool, max)
}

// share lets b have one polynomial in common with a, by address, without a change
// to b's message. It needs that a's level is at least b's.
func (c *Ctx) share(w *World, a, b *CT, ps []*Party) bool {
	level := b.ct.Level()
	if len(ps) == 0 || a == b || a.ct.Level() < level {
		return false
	}
	common := func(x *ring.Poly) *ring.Poly {
		if len(x.Coeffs) == level+1 {
			return x
		}
		return &ring.Poly{Coeffs: x.Coeffs[:level+1]}
	}
	ringQ := w.P.RingQ()
	d := ringQ.NewPolyLvl(level)
	p := ps[c.R.IntN(len(ps))]
	if x := a.ct.Value[p.ID]; x != nil && c.R.IntN(2) == 0 {
		// the party's component: the shared component makes up for it
		ringQ.SubLvl(level, b.ct.Value[p.ID], x, d)
		ringQ.NTTLvl(level, d, d)
		ringQ.MulCoeffsMontgomeryLvl(level, d, p.SK.Value.Q, d)
		ringQ.InvNTTLvl(level, d, d)
		ringQ.AddLvl(level, b.ct.Value["0"], d, b.ct.Value["0"])
		b.ct.Value[p.ID] = common(x)
		c.Event("shared-component")
		return true
	}
	// component "0": the party's component makes up for it, if its secret has an inverse
	x := a.ct.Value["0"]
	s := ringQ.NewPolyLvl(level)
	ringQ.InvMFormLvl(level, p.SK.Value.Q, s)
	ringQ.SubLvl(level, b.ct.Value["0"], x, d)
	ringQ.NTTLvl(level, d, d)
	for j, row := range d.Coeffs {
		q := ringQ.Modulus[j]
		for i := range row {
			if s.Coeffs[j][i]%q == 0 {
				return false
			}
			row[i] = ring.BRed(row[i], ring.ModExp(s.Coeffs[j][i], q-2, q), q, ringQ.BredParams[j])
		}
	}
	ringQ.InvNTTLvl(level, d, d)
	ringQ.AddLvl(level, b.ct.Value[p.ID], d, b.ct.Value[p.ID])
	b.ct.Value["0"] = common(x)
	c.Event("shared-component")
	return true
}

// randScale is a scale around the default one that leaves room for a message.
func (c *Ctx) randScale(w *World, level int) float64 {
	s := w.P.Scale()
	if c.R.IntN(3) == 0 {
		s *= 1 + c.R.Float64()
	}
	if lim := w.modQ(level) / (256 * math.Sqrt(float64(w.N))); s > lim {
		s = lim
	}
	return s
}

// operand draws an operand: crafted under a random party set, level and scale, or
// really encrypted.
// junk fills the rows of a polynomial with residues.
func (c *Ctx) junk(w *World, p *ring.Poly) {
	for j := range p.Coeffs {
		q := w.P.RingQ().Modulus[j]
		for k := range p.Coeffs[j] {
			p.Coeffs[j][k] = c.R.Uint64() % q
		}
	}
}

func (c *Ctx) operand(w *World, enc *mkckks.Encryptor, ps []*Party, level int, scale, mag float64) *CT {
	lim := w.capMag(level, scale)
	if mag > lim {
		mag = lim
	}
	v, _ := randMsg(c.R, w.Slots, mag)
	if enc != nil && len(ps) > 0 && c.R.IntN(3) == 0 {
		// real encryption, padded to the party set, brought to the level
		pk := ps[c.R.IntN(len(ps))]
		pt := ckks.NewPlaintext(w.CK, level, scale)
		w.oracle.Encode(pt, v, w.LogSlots)
		ct := mkckks.NewCiphertext(w.P, idsOf(ps), level, scale)
		enc.EncryptPtxt(pt, pk.PK, ct)
		return &CT{ct: ct, val: v, err: w.slotErr(w.freshBound(pk.ID)+1, scale) + 1e-13*maxAbs(v)}
	}
	return w.craft(c, ps, v, level, scale)
}

func init() {
	Register(&Prop{
		ID:        "C01",
		Rule:      "case = parameter set x encrypting party (ternary, gaussian, sparse, dense secret) x entry point (message, plaintext at any level/scale/domain, padded party set, reused output) x message pattern; non-trivial when distinct by (set, entry point, level, domain, pattern, party kind)",
		Cases:     tiers(2100, 27000),
		MinEvents: []string{"encrypt", "decrypt", "rekeyed", "many-keys"},
		Run:       runEncDec,
	})
	Register(&Prop{
		ID:        "C02",
		Rule:      "case = parameter set x two operands with independent party sets (disjoint, overlapping, nested, equal, same object), levels and scales; non-trivial when distinct by (op, set, party counts, levels, scale relation)",
		Cases:     tiers(2100, 27000),
		MinEvents: []string{"AddNew", "SubNew", "scale-match", "no-party", "shared-component"},
		Run: func(c *Ctx) {
			w := c.World(c.stdCfg())
			m := c.Mon(w)
			enc := mkckks.NewEncryptor(w.P)
			for i := 0; i < 6; i++ {
				ps0, ps1 := c.anyParties(w, 6, 4), c.anyParties(w, 6, 4)
				if c.R.IntN(4) == 0 {
					ps1 = ps0
				}
				l0, l1 := c.R.IntN(w.P.MaxLevel()+1), c.R.IntN(w.P.MaxLevel()+1)
				s0 := c.randScale(w, l0)
				s1 := s0
				switch c.R.IntN(7) {
				case 6: // as far apart as the modulus permits
					s0 = math.Exp2(float64(2 + c.R.IntN(20)))
					room := math.Log2(w.modQ(min(l0, l1))/(256*math.Sqrt(float64(w.N)))/s0) - 1
					if room < 1 {
						room = 1
					}
					s1 = s0 * math.Exp2(math.Floor(room*c.R.Float64()))
					if c.R.IntN(2) == 0 {
						s1 = s0 * math.Exp2(math.Floor(math.Min(room, 60+30*c.R.Float64())))
					}
				case 0: // integer ratio
					s1 = s0 * float64(2+c.R.IntN(1000))
				case 1:
					s1 = s0 * math.Exp2(float64(1+c.R.IntN(20)))
				case 2: // slightly different
					s1 = s0 * (1 + (c.R.Float64()-0.5)*1e-4)
				case 3: // large, not a whole ratio: the mismatch is bounded by one part in the ratio
					s1 = s0 * (1000 + 1000*c.R.Float64())
				case 4: // not a whole ratio
					if c.R.IntN(2) == 0 {
						s1 = s0 * (1 + 20*c.R.Float64())
					}
				}
				lmin := min(l0, l1)
				if s1 > w.modQ(lmin)/(256*math.Sqrt(float64(w.N))) {
					s1 = s0
				}
				if s0 > w.modQ(lmin)/(256*math.Sqrt(float64(w.N))) {
					s0 = w.modQ(lmin) / (256 * math.Sqrt(float64(w.N)))
					s1 = s0
				}
				mag := 2.0
				if c.R.IntN(2) == 0 {
					mag = w.capMag(lmin, math.Max(s0, s1)) / 2
				}
				if c.R.IntN(2) == 0 {
					s0, s1 = s1, s0
				}
				a := c.operand(w, enc, ps0, l0, s0, mag)
				b := c.operand(w, enc, ps1, l1, s1, mag)
				if c.R.IntN(8) == 0 {
					b = a
				}
				if c.R.IntN(6) == 0 {
					c.share(w, a, b, ps1)
				}
				c.Logf("parties %s | %s", names(ps0), names(ps1))
				x := m.Add(a, b)
				y := m.Sub(a, b)
				// a+b-(a-b) = 2b: the results are usable as operands
				m.Sub(x, y)
				m.Add(y, x)
				if c.R.IntN(4) == 0 {
					x = m.Change(x)
					m.Add(x, b)
					m.Sub(a, x)
				}
			}
		},
	})
	Register(&Prop{
		ID:        "C03",
		Rule:      "case = parameter set x two operands with independent party sets, levels and scales (incl. squares of one object and of equal values), then a chain of products down the levels; non-trivial when distinct by (set, party counts, levels in and out, square)",
		Cases:     tiers(1260, 18000),
		MinEvents: []string{"MulRelinNew", "no-party", "shared-component"},
		Run: func(c *Ctx) {
			w := c.World(c.stdCfg())
			all := c.everyone(w, 5)
			m := c.MonFull2(w, all, true, false, false)
			enc := mkckks.NewEncryptor(w.P)
			for i := 0; i < 4; i++ {
				ps0, ps1 := c.anyParties(w, 5, 3), c.anyParties(w, 5, 3)
				if c.R.IntN(4) == 0 {
					ps1 = ps0
				}
				l0, l1 := c.R.IntN(w.P.MaxLevel()+1), c.R.IntN(w.P.MaxLevel()+1)
				if c.R.IntN(3) == 0 {
					l0, l1 = w.P.MaxLevel(), w.P.MaxLevel()
				}
				s0, s1 := c.randScale(w, l0), c.randScale(w, l1)
				lm := min(l0, l1)
				// the product must fit
				lim := math.Sqrt(w.modQ(lm)) / (64 * math.Sqrt(float64(w.N)))
				if s0 > lim {
					s0 = lim
				}
				if s1 > lim {
					s1 = lim
				}
				mag := 1.0
				if c.R.IntN(3) == 0 {
					mag = math.Sqrt(w.capMag(lm, s0*s1)) / 2
				}
				a := c.operand(w, enc, ps0, l0, s0, mag)
				b := c.operand(w, enc, ps1, l1, s1, mag)
				if c.R.IntN(5) == 0 {
					b = a
				}
				shared := c.R.IntN(5) == 0 && c.share(w, a, b, ps1)
				c.Logf("parties %s | %s", names(ps0), names(ps1))
				x := m.Mul(a, b)
				x = m.Mul(x, a)
				x = m.Mul(x, x)
				y := m.Mul(b, x)
				if y.ct.Level() > 0 {
					m.Mul(y, b)
				}
				if !shared && c.R.IntN(3) == 0 {
					// the same objects, changed since
					same := a == b
					a = m.Change(a)
					if same {
						b = a
					}
					m.Mul(a, b)
					m.Mul(b, a)
				}
			}
			if c.R.IntN(4) == 0 {
				p, undo := m.Renew(c.R.IntN(5))
				defer undo()
				a := c.operand(w, enc, []*Party{p}, w.P.MaxLevel(), math.Min(w.P.Scale(), math.Sqrt(w.modQ(w.P.MaxLevel()))/(64*math.Sqrt(float64(w.N)))), 1)
				m.Mul(a, a)
			}
		},
	})
	Register(&Prop{
		ID:        "C04",
		Rule:      "case = parameter set x operand (party set, level, scale) x encoded message (library-encoded or at another scale and a level not below the operand's); non-trivial when distinct by (set, party count, level in and out, plaintext scale)",
		Cases:     tiers(2100, 27000),
		MinEvents: []string{"MulPtxtNew", "ntt-plaintext"},
		Run: func(c *Ctx) {
			w := c.World(c.stdCfg())
			m := c.Mon(w)
			enc := mkckks.NewEncryptor(w.P)
			for i := 0; i < 6; i++ {
				ps := c.anyParties(w, 6, 4)
				l := c.R.IntN(w.P.MaxLevel() + 1)
				s := c.randScale(w, l)
				mag := 1.0
				a := c.operand(w, enc, ps, l, s, mag)
				v, pat := randMsg(c.R, w.Slots, []float64{1, 1, 30, 1000}[c.R.IntN(4)])
				c.Logf("parties %s pattern %s", names(ps), pat)
				var pt *ckks.Plaintext
				if c.R.IntN(2) == 0 {
					pt = enc.EncodeMsgNew(msgOf(v))
					c.checkEncoded(w, pt, v)
				} else {
					pl := l + c.R.IntN(w.P.MaxLevel()-l+1)
					ps := w.P.Scale() * math.Exp2(float64(c.R.IntN(11)-5))
					if lim := w.modQ(pl) / (256 * maxAbs(v)); ps > lim && lim > 1 {
						ps = lim
					}
					pt = ckks.NewPlaintext(w.CK, pl, ps)
					w.oracle.Encode(pt, v, w.LogSlots)
				}
				if c.R.IntN(3) == 0 { // the encoded message in the other domain
					w.P.RingQ().NTTLvl(pt.Level(), pt.Value, pt.Value)
					pt.Value.IsNTT = true
				}
				h := polyHash(pt.Value)
				x := m.MulPt(a, pt, v)
				c.Check(h == polyHash(pt.Value), "operand-changed", "MulPtxtNew changed the plaintext")
				if x.ct.Level() > 0 {
					m.MulPt(x, enc.EncodeMsgNew(msgOf(v)), v)
				}
				if c.R.IntN(4) == 0 {
					m.MulPt(m.Change(a), pt, v)
				}
			}
		},
	})
	Register(&Prop{
		ID:        "C05",
		Rule:      "case = parameter set x operand x constant of every accepted type (int, int64, uint64, float64, complex128; whole, fractional, negative, zero, large) x fresh or in-place result; non-trivial when distinct by (set, party count, level, type, in-place, scaled)",
		Cases:     tiers(2100, 27000),
		MinEvents: []string{"MultByConst"},
		Run: func(c *Ctx) {
			w := c.World(c.stdCfg())
			m := c.Mon(w)
			m.given = true
			enc := mkckks.NewEncryptor(w.P)
			for i := 0; i < 8; i++ {
				ps := c.anyParties(w, 6, 4)
				l := c.R.IntN(w.P.MaxLevel() + 1)
				s := c.randScale(w, l)
				a := c.operand(w, enc, ps, l, s, 1)
				kv, cv := c.randConst()
				inPlace := c.R.IntN(2) == 0
				x := m.MulConst(a, kv, cv, inPlace)
				kv, cv = c.randConst()
				m.MulConst(x, kv, cv, c.R.IntN(2) == 0)
			}
		},
	})
	Register(&Prop{
		ID:        "C06",
		Rule:      "case = parameter set x operand (party set, level) x rotation indexes (all of a small ring in turn; negative, beyond the ring, zero, multiples of the slot count, with dedicated keys); non-trivial when distinct by (set, party count, level, index)",
		Cases:     tiers(1500, 18000),
		MinEvents: []string{"RotateNew"},
		Run:       runRotate,
	})
	Register(&Prop{
		ID:        "C07",
		Rule:      "case = parameter set x operand (party set, every level) ; non-trivial when distinct by (set, party count, level)",
		Cases:     tiers(1800, 24000),
		MinEvents: []string{"ConjugateNew"},
		Run: func(c *Ctx) {
			w := c.World(c.stdCfg())
			all := c.everyone(w, 5)
			m := c.MonFull2(w, all, false, false, true)
			enc := mkckks.NewEncryptor(w.P)
			for i := 0; i < 4; i++ {
				ps := c.anyParties(w, 5, 4)
				l := c.R.IntN(w.P.MaxLevel() + 1)
				s := c.randScale(w, l)
				a := c.operand(w, enc, ps, l, s, []float64{1, w.capMag(l, s)}[c.R.IntN(2)])
				x := m.Conj(a)
				m.Conj(x) // an involution
				if c.R.IntN(3) == 0 {
					m.Conj(m.Change(a))
				}
			}
			if c.R.IntN(4) == 0 {
				p, undo := m.Renew(c.R.IntN(5))
				defer undo()
				l := c.R.IntN(w.P.MaxLevel() + 1)
				m.Conj(c.operand(w, enc, []*Party{p}, l, c.randScale(w, l), 1))
			}
		},
	})
	Register(&Prop{
		ID:        "C08",
		Rule:      "case = parameter set x operand (party set, level, scale from below one prime to several primes) x target scale x fresh or in-place; and every documented refusal; non-trivial when distinct by (set, party count, level in and out, in-place)",
		Cases:     tiers(2100, 27000),
		MinEvents: []string{"Rescale", "DropLevel", "refusal", "threshold", "tiny-target"},
		Run:       runRescale,
	})
	Register(&Prop{
		ID:        "C10",
		Rule:      "case = parameter set x operands x hoisted form for either, both or no operand, at equal or different levels, reused for several operations; compared with the plain operation and with the oracle; non-trivial when distinct by (op, set, party counts, levels, index)",
		Cases:     tiers(1260, 15000),
		MinEvents: []string{"MulRelinHoistedNew", "RotateHoistedNew", "hoisted-vs-plain"},
		Run:       runHoisted,
	})
}

// MonFull2 is MonFull with only the key sets asked for.
func (c *Ctx) MonFull2(w *World, ps []*Party, rlk, rtk, cjk bool) *Mon {
	m := c.Mon(w)
	if rlk {
		m.rlk = c.RlkSet(w, ps...)
	}
	if rtk {
		m.rtk = c.RtkSet(w, ps...)
	}
	if cjk {
		m.cjk = c.CjkSet(w, ps...)
	}
	return m
}

func (c *Ctx) randConst() (interface{}, complex128) {
	switch c.R.IntN(14) {
	case 13: // next to a whole number, or next to nothing
		d := math.Exp2(-float64(5+c.R.IntN(40))) * float64(1-2*c.R.IntN(2))
		k := float64(c.R.IntN(2001) - 1000)
		switch c.R.IntN(4) {
		case 0:
			return complex(k, k+d), complex(k, k+d)
		case 1:
			return complex(k+d, 3), complex(k+d, 3)
		case 2:
			return d, complex(d, 0)
		}
		return k + d, complex(k+d, 0)
	case 12:
		switch c.R.IntN(4) {
		case 0:
			k := math.Exp2(float64(50+c.R.IntN(40))) * float64(1-2*c.R.IntN(2))
			return k, complex(k, 0)
		case 1:
			k := uint64(1)<<(40+c.R.IntN(24)) | uint64(1)<<60
			return k, complex(float64(k), 0)
		case 2:
			k := int64(-1) << (40 + c.R.IntN(24))
			return k, complex(float64(k), 0)
		default:
			k := complex(math.Exp2(float64(30+c.R.IntN(50))), -math.Exp2(float64(30+c.R.IntN(50))))
			return k, k
		}
	case 0:
		k := c.R.IntN(2001) - 1000
		return k, complex(float64(k), 0)
	case 1:
		k := int64(c.R.IntN(1<<20)) - 1<<19
		return k, complex(float64(k), 0)
	case 2:
		k := uint64(c.R.IntN(1 << 20))
		return k, complex(float64(k), 0)
	case 3:
		k := float64(c.R.IntN(2001) - 1000)
		return k, complex(k, 0)
	case 4:
		k := c.R.NormFloat64() * 3
		return k, complex(k, 0)
	case 5:
		k := complex(c.R.NormFloat64(), c.R.NormFloat64())
		return k, k
	case 6:
		k := complex(float64(c.R.IntN(21)-10), float64(c.R.IntN(21)-10))
		return k, k
	case 7:
		k := complex(0, c.R.NormFloat64())
		return k, k
	case 8:
		k := complex(c.R.NormFloat64(), 0)
		return k, k
	case 9:
		ks := []interface{}{0, int64(0), uint64(0), 0.0, complex(0, 0), 1, -1, int64(-1), 1.0, -1.0, complex(0, 1), complex(0, -1)}
		vs := []complex128{0, 0, 0, 0, 0, 1, -1, -1, 1, -1, 1i, -1i}
		i := c.R.IntN(len(ks))
		return ks[i], vs[i]
	case 10:
		k := math.Exp2(float64(c.R.IntN(40))) * float64(1-2*c.R.IntN(2))
		return k, complex(k, 0)
	default:
		k := float64(c.R.IntN(1000)) + 0.5
		return -k, complex(-k, 0)
	}
}

// checkEncoded: the library's encoding of a message decodes to it.
func (c *Ctx) checkEncoded(w *World, pt *ckks.Plaintext, v []complex128) {
	c.Check(pt.Level() == w.P.MaxLevel(), "level", "EncodeMsgNew made a plaintext at level %d", pt.Level())
	c.Check(pt.Scale == w.P.Scale(), "scale", "EncodeMsgNew made a plaintext of scale %g", pt.Scale)
	if maxAbs(v)*pt.Scale*2*math.Sqrt(float64(w.N)) > w.modQ(pt.Level())/2 {
		c.Event("overflow:encode")
		return
	}
	d := maxDiff(w.decode(pt.Level(), pt.Value, pt.Scale), v)
	tol := w.slotErr(6, pt.Scale) + 1e-9*maxAbs(v)
	c.Check(d <= tol, "wrong-message", "EncodeMsgNew: a slot is off by %.3g, allowed %.3g", d, tol)
}

func runEncDec(c *Ctx) {
	w := c.World(c.stdCfg())
	enc := mkckks.NewEncryptor(w.P)
	dec := mkckks.NewDecryptor(w.P)
	renc := mkrlwe.NewEncryptor(w.P.Parameters)
	rdec := mkrlwe.NewDecryptor(w.P.Parameters)
	m := c.Mon(w)
	L := w.P.MaxLevel()
	var undo []func()
	defer func() {
		for i := len(undo) - 1; i >= 0; i-- {
			undo[i]()
		}
	}()
	used := map[int]bool{}
	for i := 0; i < 6; i++ {
		pi := c.R.IntN(7)
		if used[pi] && c.R.IntN(2) == 0 { // the party has replaced its keys meanwhile
			undo = append(undo, c.rekey(w, pi))
			c.Event("rekeyed")
		}
		used[pi] = true
		p := c.Party(w, pi)
		others := c.randParties(w, 7, 4)
		ids := idsOf(append(others, p))
		var all []*Party
		for _, id := range sortedIDs(ids) {
			for j := 0; j < c.crowd(w, 7); j++ {
				if q := c.Party(w, j); q.ID == id {
					all = append(all, q)
				}
			}
		}
		level, scale := L, w.P.Scale()
		mode := c.R.IntN(6)
		var pat string
		var v []complex128
		var ct *mkckks.Ciphertext
		var want []string
		domain := ""
		mag := func() float64 {
			switch c.R.IntN(4) {
			case 0:
				return w.capMag(level, scale)
			case 1:
				return 100
			}
			return 1
		}
		short := w.Slots
		draw := func() {
			v, pat = randMsg(c.R, w.Slots, math.Min(mag(), w.capMag(level, scale)))
			if mode != 3 && mode != 5 && c.R.IntN(4) == 0 { // fewer values than slots: the rest is zero
				short = c.R.IntN(w.Slots + 1)
				for j := short; j < w.Slots; j++ {
					v[j] = 0
				}
				pat += "-short"
			}
		}
		switch mode {
		case 0:
			draw()
			ct = enc.EncryptMsgNew(msgOf(v[:short]), p.PK)
			want = []string{p.ID}
		case 1:
			draw()
			ct = enc.EncryptMsgNewExpand(msgOf(v[:short]), p.PK, ids)
			want = sortedIDs(ids)
		case 2: // into a given ciphertext, possibly at a lower level
			level = c.R.IntN(L + 1)
			if w.capMag(level, scale) < 1e-3 {
				level = L
			}
			draw()
			ct = mkckks.NewCiphertext(w.P, idsOf([]*Party{p}), level, 1)
			enc.EncryptMsg(msgOf(v[:short]), p.PK, ct)
			want = []string{p.ID}
		case 3: // a plaintext at any level and scale
			level = c.R.IntN(L + 1)
			scale = c.randScale(w, level)
			draw()
			pt := ckks.NewPlaintext(w.CK, level, scale)
			w.oracle.Encode(pt, v, w.LogSlots)
			if c.R.IntN(2) == 0 { // in the transformed domain
				domain = "ntt"
				w.P.RingQ().NTTLvl(level, pt.Value, pt.Value)
				pt.Value.IsNTT = true
			}
			h := polyHash(pt.Value)
			ct = mkckks.NewCiphertext(w.P, idsOf([]*Party{p}), L, 1)
			enc.EncryptPtxt(pt, p.PK, ct)
			c.Check(h == polyHash(pt.Value), "operand-changed", "EncryptPtxt changed the plaintext")
			want = []string{p.ID}
		case 4: // encrypt again over an earlier encryption
			draw()
			v0, _ := randMsg(c.R, w.Slots, 1)
			ct = enc.EncryptMsgNew(msgOf(v0), p.PK)
			want = []string{p.ID}
			if c.R.IntN(2) == 0 { // one of several parties
				ct = w.craft(c, all, v0, L, scale).ct
				want = sortedIDs(ids)
			}
			enc.EncryptMsg(msgOf(v[:short]), p.PK, ct)
		default: // the generic layer, in either domain for plaintext and ciphertext
			level = c.R.IntN(L + 1)
			scale = c.randScale(w, level)
			draw()
			pt := &rlwe.Plaintext{Value: w.encode(v, level, scale)}
			if c.R.IntN(2) == 0 {
				domain += "pt"
				w.P.RingQ().NTTLvl(level, pt.Value, pt.Value)
				pt.Value.IsNTT = true
			}
			var rc *mkrlwe.Ciphertext
			if c.R.IntN(2) == 0 {
				domain += "ct"
				rc = mkrlwe.NewCiphertextNTT(w.P.Parameters, idsOf([]*Party{p}), level)
			} else {
				rc = mkrlwe.NewCiphertext(w.P.Parameters, idsOf([]*Party{p}), level)
			}
			if c.R.IntN(3) == 0 { // the shared component says which domain is wanted
				domain += "~"
				rc.Value["0"].IsNTT = !rc.Value["0"].IsNTT
			}
			nt := rc.Value["0"].IsNTT
			if c.R.IntN(2) == 0 { // over something else
				domain += "+"
				for _, q := range rc.Value {
					c.junk(w, q)
				}
			}
			renc.Encrypt(pt, p.PK, rc)
			c.Check(rc.Value["0"].IsNTT == nt, "domain", "Encrypt changed the domain of the ciphertext it was given")
			for id, q := range rc.Value {
				c.Check(q.IsNTT == nt, "domain", "after an encryption component %q is in another domain than the ciphertext", id)
			}
			ct = &mkckks.Ciphertext{Ciphertext: rc, Scale: scale}
			want = []string{p.ID}
		}
		c.Logf("encrypt mode=%d domain=%s party=%q(%s) level=%d scale=2^%.1f pattern=%s ids=%d", mode, domain, p.ID, p.Kind, level, math.Log2(scale), pat, len(want))
		c.Event("encrypt")
		c.State("%s|%d|%s|%s|l%d|%s", w.Name, mode, domain, p.Kind, level, pat)
		c.Check(sameIDs(ctIDs(ct), want), "party-set", "encryption belongs to %v, expected %v", ctIDs(ct), want)
		c.Check(ct.Level() == level, "level", "encryption at level %d, expected %d", ct.Level(), level)
		c.Check(ct.Scale == scale, "scale", "encryption has scale %g, expected %g", ct.Scale, scale)
		for _, id := range want {
			c.Check(len(ct.Value[id].Coeffs) >= level+1, "malformed-ciphertext", "component %q has %d moduli at level %d", id, len(ct.Value[id].Coeffs), level)
		}
		// phase = encoding + small noise
		ref := w.encode(v, level, scale)
		m.bounded("encrypt", level, w.phase(c, ct), ref, w.freshBound(p.ID))
		x := &CT{ct: ct, val: v, err: w.slotErr(w.freshBound(p.ID)+1, scale)}
		m.slots("encrypt", x)
		// decryption with exactly, and with more than, the keys needed
		var keys *mkrlwe.SecretKeySet
		if c.R.IntN(2) == 0 {
			keys = c.SkSet(all...)
		} else {
			keys = c.SkSet(append(c.everyone(w, 7), all...)...)
		}
		if c.R.IntN(6) == 0 { // and with many more
			for j := 0; j < 40; j++ {
				k := p.SK.CopyNew()
				k.ID = fmt.Sprintf("stranger%d", j)
				keys.AddSecretKey(k)
			}
			c.Event("many-keys")
		}
		if mode == 5 {
			out := &rlwe.Plaintext{Value: w.P.RingQ().NewPoly()}
			out.Value.IsNTT = c.R.IntN(2) == 0
			nt := out.Value.IsNTT
			rdec.Decrypt(ct.Ciphertext, keys, out)
			c.Check(out.Value.IsNTT == nt, "domain", "Decrypt changed the domain of the plaintext it was given")
			c.Check(len(out.Value.Coeffs) == level+1, "level", "Decrypt left a plaintext at level %d, expected %d", len(out.Value.Coeffs)-1, level)
			if nt {
				w.P.RingQ().InvNTTLvl(level, out.Value, out.Value)
			}
			d := w.diffNorm(level, out.Value, w.phase(c, ct))
			c.Check(d == 0, "wrong-result", "Decrypt of a %q encryption to a plaintext (transformed=%v) is not the phase of the ciphertext", domain, nt)
			c.Event("decrypt")
			continue
		}
		before := ctHash(ct)
		msg := dec.Decrypt(ct, keys)
		c.Check(ctHash(ct) == before, "operand-changed", "Decrypt changed the ciphertext")
		c.Event("decrypt")
		c.Check(len(msg.Value) == w.Slots && msg.Slots() == w.Slots, "slots", "decryption has %d slots, expected %d", len(msg.Value), w.Slots)
		d := maxDiff(msg.Value, v)
		tol := 2*x.err + 1e-9*maxAbs(v)
		c.Ratio("decrypt", d/tol)
		c.Check(d <= tol, "wrong-message", "decryption: a slot is off by %.3g, allowed %.3g", d, tol)
	}
}

func runRotate(c *Ctx) {
	cfg := c.stdCfg()
	dedicated := c.Case%4 == 3
	bare := c.Case%8 == 5
	tag := ""
	if dedicated {
		tag = "rotdedicated"
	} else if bare {
		// the parameters know further indexes, but nobody made keys for them:
		// every other index has to come from the powers of two alone
		tag = "rotbare"
	}
	w := c.worldTag(cfg, tag)
	all := c.everyone(w, 4)
	m := c.MonFull2(w, all, false, true, false)
	enc := mkckks.NewEncryptor(w.P)
	h := w.N / 2
	if dedicated {
		// further indexes with keys of their own
		ks := []int{3, 5 % h, h - 1, h - 2, h/2 + 1}
		for _, k := range ks {
			if k <= 0 || k&(k-1) == 0 {
				continue
			}
			if _, ok := w.P.CRS[k]; !ok {
				c.seeded("addcrs|"+w.Name, func() { w.P.AddCRS(k) })
			}
			for _, p := range all {
				m.rtk.AddRotationKey(c.Rtk(w, p, k))
			}
		}
	}
	extra := map[int]bool{}
	if bare {
		for _, k := range []int{3, 5, 6, h/2 + 1, h - 3} {
			if k <= 0 || k >= h || k&(k-1) == 0 {
				continue
			}
			extra[k] = true
			if _, ok := w.P.CRS[k]; !ok {
				c.seeded("addcrs|"+w.Name, func() { w.P.AddCRS(k) })
			}
		}
	}
	for i := 0; i < 6; i++ {
		ps := c.anyParties(w, 4, 3)
		l := c.R.IntN(w.P.MaxLevel() + 1)
		s := c.randScale(w, l)
		a := c.operand(w, enc, ps, l, s, []float64{1, w.capMag(l, s)}[c.R.IntN(2)])
		var k int
		switch c.R.IntN(8) {
		case 0:
			k = 1 << c.R.IntN(w.LogN-1)
		case 1:
			k = -(1 << c.R.IntN(w.LogN-1))
			if i == 1 && c.Case%8 == 0 && w.LogN >= 8 {
				// beyond 32 bits (a few, for the reduction is by subtraction)
				k = 1<<31 + c.R.IntN(1<<31)
				if c.R.IntN(2) == 0 {
					k = -k
				}
			}
		case 2:
			k = h + c.R.IntN(3*h)
		case 3:
			k = -h - c.R.IntN(3*h)
		case 4:
			k = []int{0, h, -h, 2 * h, -3 * h, w.Slots, h - 1, h + 1, 1 - h}[c.R.IntN(9)]
		case 5:
			k = (c.Case*6 + i) % h // walks through every index of the small rings
		default:
			k = c.R.IntN(h)
		}
		if bare && (extra[((k%h)+h)%h] || extra[((-k%h)+h)%h]) {
			k = 7 % h // needs a key of its own, which is not there
			if extra[((-k%h)+h)%h] {
				k = 2 % h
			}
		}
		c.Logf("parties %s dedicated=%v bare=%v", names(ps), dedicated, bare)
		x := m.Rot(a, k)
		if i%3 == 0 {
			m.Rot(x, -k)
		}
		if dedicated && i%2 == 0 {
			for _, k := range []int{3, -1, -2, h/2 + 1} {
				m.Rot(a, k)
			}
		}
		if c.R.IntN(4) == 0 && k < 1<<30 && k > -1<<30 {
			m.Rot(m.Change(a), k)
		}
	}
	if !dedicated && c.R.IntN(4) == 0 {
		p, undo := m.Renew(c.R.IntN(4))
		defer undo()
		l := c.R.IntN(w.P.MaxLevel() + 1)
		a := c.operand(w, enc, []*Party{p}, l, c.randScale(w, l), 1)
		k := 1 + c.R.IntN(h-1)
		if bare {
			k = 1 << c.R.IntN(w.LogN-1)
		}
		m.Rot(a, k)
	}
	if c.Case%16 == 2 && w.LogN <= 8 {
		// an index which the parameters learn of when evaluator and key generator
		// exist already, and no other keys at all
		w := newWorld(c, cfg, "rotlate")
		m := c.Mon(w)
		kg := mkckks.NewKeyGenerator(w.P)
		k := 1 + c.R.IntN(h-1)
		for k&(k-1) == 0 {
			k = 1 + c.R.IntN(h-1)
		}
		if c.R.IntN(2) == 0 {
			m.Rot(c.operand(w, nil, c.Parties(w, 0), 0, 1, 1), 0)
		}
		w.P.AddCRS(k)
		p := c.Party(w, c.R.IntN(4))
		m.rtk = mkrlwe.NewRotationKeySet()
		m.rtk.AddRotationKey(kg.GenRotationKey(k, p.SK))
		l := c.R.IntN(w.P.MaxLevel() + 1)
		a := c.operand(w, nil, []*Party{p}, l, c.randScale(w, l), 1)
		m.Rot(a, k)
		m.Rot(a, k-h)
		c.Event("late-index")
	}
}

func runRescale(c *Ctx) {
	w := c.World(c.stdCfg())
	m := c.Mon(w)
	enc := mkckks.NewEncryptor(w.P)
	Q := w.P.RingQ().Modulus
	for i := 0; i < 6; i++ {
		ps := c.anyParties(w, 6, 4)
		l := c.R.IntN(w.P.MaxLevel() + 1)
		if l == 0 {
			// documented refusals: level zero
			a := c.operand(w, enc, ps, 0, c.randScale(w, 0), 1)
			before := ctHash(a.ct)
			_, err := m.ev.RescaleNew(a.ct, w.P.Scale())
			c.Check(err != nil, "not-refused", "rescaling a level-0 ciphertext is not refused")
			out := a.ct.CopyNew()
			c.Check(m.ev.Rescale(a.ct, w.P.Scale(), out) != nil, "not-refused", "rescaling a level-0 ciphertext is not refused")
			ok, why := w.valEq(out, a.ct)
			c.Check(ok && ctHash(a.ct) == before, "refusal-effect", "a refused rescaling changed a ciphertext: %s", why)
			c.Event("refusal")
			if w.P.MaxLevel() == 0 {
				m.Drop(a, 0, false)
			}
			continue
		}
		// scale between the default and what the modulus can hold
		smax := w.modQ(l) / (1024 * math.Sqrt(float64(w.N)))
		s := w.P.Scale()
		for j := l; j > 0 && c.R.IntN(3) != 0; j-- {
			s *= float64(Q[j])
		}
		s *= 0.5 + c.R.Float64()
		if s > smax {
			s = smax * (0.2 + 0.8*c.R.Float64())
		}
		half := 0.0
		if k := math.Floor(math.Log2(s / float64(Q[l]))); k >= 1 && c.R.IntN(4) == 0 {
			half = math.Exp2(k)
			s = half * float64(Q[l]) // exact: so is the quotient, however it is computed
		}
		a := c.operand(w, enc, ps, l, s, 1)
		target := w.P.Scale() * math.Exp2(float64(c.R.IntN(21)-10))
		switch c.R.IntN(8) {
		case 0:
			target = s // nothing to do
		case 1:
			target = s / float64(Q[l]) // one prime, at the threshold
		case 2:
			target = s / float64(Q[l]) * 2.0001 // just below the threshold
		case 3:
			target = s / float64(Q[l]) * 1.9999
		case 4:
			target = 1 // as far as the levels go
			if c.R.IntN(2) == 0 {
				// even for scales which exceed the product of all primes
				target = []float64{1e-3, 1e-6, 1e-12, 1e-40, 1e-300, math.SmallestNonzeroFloat64}[c.R.IntN(6)]
				c.Event("tiny-target")
			}
		case 5:
			target = s * 1e6
		}
		if half > 0 {
			target = 2 * half // the quotient is exactly half the target: still divided
			c.Event("threshold")
		}
		// refusals
		if c.R.IntN(3) == 0 {
			before := ctHash(a.ct)
			for _, bad := range []float64{0, -1, -s} {
				_, err := m.ev.RescaleNew(a.ct, bad)
				c.Check(err != nil, "not-refused", "rescaling to a scale of %g is not refused", bad)
				out := a.ct.CopyNew()
				c.Check(m.ev.Rescale(a.ct, bad, out) != nil, "not-refused", "rescaling to a scale of %g is not refused", bad)
				ok, why := w.valEq(out, a.ct)
				c.Check(ok, "refusal-effect", "a refused rescaling changed its output: %s", why)
			}
			z := a.ct.CopyNew()
			z.Scale = 0
			_, err := m.ev.RescaleNew(z, w.P.Scale())
			c.Check(err != nil, "not-refused", "rescaling a ciphertext of scale zero is not refused")
			c.Check(ctHash(a.ct) == before, "refusal-effect", "a refused rescaling changed its operand")
			c.Event("refusal")
		}
		a0 := &CT{ct: a.ct.CopyNew(), val: a.val, err: a.err}
		x := m.Rescale(a, target, false)
		y := m.Rescale(a0, target, true)
		ok, why := w.valEq(x.ct, y.ct)
		c.Check(ok, "in-place-differs", "rescaling in place and into a new ciphertext differ: %s", why)
		// into a ciphertext given by the caller
		out := mkckks.NewCiphertext(w.P, a.ct.IDSet(), l, 1)
		for _, p := range out.Value {
			c.junk(w, p)
		}
		c.Check(m.ev.Rescale(a.ct, target, out) == nil, "refused", "rescaling into a given ciphertext is refused")
		ok, why = w.valEq(x.ct, out)
		c.Check(ok, "in-place-differs", "rescaling into a given ciphertext differs: %s", why)
		// which has to fit
		if len(ps) > 0 {
			c.misfits(w, m, a.ct, target)
		}
		n := c.R.IntN(x.ct.Level() + 1)
		z := m.Drop(x, n, false)
		m.Drop(z, c.R.IntN(z.ct.Level()+1), true)
	}
}

func runHoisted(c *Ctx) {
	w := c.World(c.stdCfg())
	all := c.everyone(w, 4)
	m := c.MonFull2(w, all, true, true, false)
	enc := mkckks.NewEncryptor(w.P)
	plain := mkckks.NewEvaluator(w.P)
	for i := 0; i < 2; i++ {
		ps0, ps1 := c.anyParties(w, 4, 3), c.anyParties(w, 4, 3)
		l0, l1 := c.R.IntN(w.P.MaxLevel()+1), c.R.IntN(w.P.MaxLevel()+1)
		if c.R.IntN(2) == 0 {
			l1 = l0
		}
		lm := min(l0, l1)
		lim := math.Sqrt(w.modQ(lm)) / (64 * math.Sqrt(float64(w.N)))
		s0, s1 := math.Min(c.randScale(w, l0), lim), math.Min(c.randScale(w, l1), lim)
		a := c.operand(w, enc, ps0, l0, s0, 1)
		b := c.operand(w, enc, ps1, l1, s1, 1)
		if c.R.IntN(5) == 0 {
			c.share(w, a, b, ps1)
		}
		ha, hb := m.ev.HoistedForm(a.ct), m.ev.HoistedForm(b.ct)
		c.Check(len(ha.Value) == len(ps0), "party-set", "hoisted form has %d components for %d parties", len(ha.Value), len(ps0))
		fa, fb := hoistHash(ha), hoistHash(hb)
		ref := plain.MulRelinNew(a.ct, b.ct, c.RlkSet(w, all...))
		for _, mode := range c.R.Perm(4)[:3] {
			x, y := ha, hb
			if mode&1 != 0 {
				x = nil
			}
			if mode&2 != 0 {
				y = nil
			}
			r := m.MulHoisted(a, b, x, y)
			c.sameCipher(w, "MulRelinHoistedNew", r.ct, ref, l0 == l1, w.mulBound(lm, ctIDs(a.ct), ctIDs(b.ct)), lm, a.ct.Scale*b.ct.Scale)
		}
		// square with the hoisted form used twice
		sq := m.MulHoisted(a, a, ha, ha)
		c.sameCipher(w, "MulRelinHoistedNew", sq.ct, plain.MulRelinNew(a.ct, a.ct, c.RlkSet(w, all...)), true, 0, l0, 0)
		// several rotations of one hoisted form
		for j := 0; j < 3; j++ {
			k := 1 << c.R.IntN(w.LogN-1)
			switch c.R.IntN(4) {
			case 0:
				k -= w.N / 2
			case 1:
				k += w.N / 2
			case 2:
				k = []int{0, w.N / 2, -w.N}[c.R.IntN(3)]
			}
			r := m.RotHoisted(a, k, ha)
			c.sameCipher(w, "RotateHoistedNew", r.ct, plain.RotateNew(a.ct, k, m.rtk), true, 0, l0, 0)
		}
		c.Check(fa == hoistHash(ha) && fb == hoistHash(hb), "operand-changed", "an operation changed the hoisted form it was given")
		if c.R.IntN(2) == 0 {
			// the same object, changed since and hoisted anew
			a = m.Change(a)
			ha = m.ev.HoistedForm(a.ct)
			m.MulHoisted(a, a, ha, ha)
			m.RotHoisted(a, 1, ha)
		}
	}
	if c.R.IntN(4) == 0 {
		p, undo := m.Renew(c.R.IntN(4))
		defer undo()
		l := c.R.IntN(w.P.MaxLevel() + 1)
		a := c.operand(w, enc, []*Party{p}, l, math.Min(c.randScale(w, l), math.Sqrt(w.modQ(l))/(64*math.Sqrt(float64(w.N)))), 1)
		h := m.ev.HoistedForm(a.ct)
		m.MulHoisted(a, a, h, h)
		m.RotHoisted(a, 1<<c.R.IntN(w.LogN-1), h)
	}
}

func hoistHash(h *mkrlwe.HoistedCiphertext) uint64 {
	var s uint64
	for id, k := range h.Value {
		s += hash64(id) * (2*swkHash(k) + 1)
	}
	return s
}

// sameCipher: hoisted and plain results agree: to the last bit when the operands
// are at one level (the same computation), else within the noise of both.
func (c *Ctx) sameCipher(w *World, op string, a, b *mkckks.Ciphertext, exact bool, bound float64, level int, inScale float64) {
	c.Event("hoisted-vs-plain")
	c.Check(sameIDs(ctIDs(a), ctIDs(b)) && a.Level() == b.Level() && math.Abs(a.Scale/b.Scale-1) < 1e-12, "hoisted-differs", "%s: parties, level or scale differ from the plain operation's", op)
	pa, pb := w.phase(c, a), w.phase(c, b)
	ids := ctIDs(a)
	lim := 2*w.rescaleBound(ids) + 4*w.ksBoundAll(a.Level(), ids)
	if inScale > 0 {
		lim += 2 * bound * a.Scale / inScale
	} else {
		lim += 2 * w.mulBound(level, ids, ids)
	}
	if lim > w.modQ(a.Level())/16 {
		c.Event("inconclusive:" + op)
		return
	}
	d := w.diffNorm(a.Level(), pa, pb)
	c.Ratio("hoisted-vs-plain", d/lim)
	c.Check(d <= lim, "hoisted-differs", "%s: the hoisted result decrypts %.3g away from the plain one, allowed %.3g", op, d, lim)
}

// misfits: rescaling into a ciphertext of another level or other parties is refused
// and leaves both ciphertexts as they were.
func (c *Ctx) misfits(w *World, m *Mon, a *mkckks.Ciphertext, target float64) {
	l := a.Level()
	try := func(what string, out *mkckks.Ciphertext) {
		for _, p := range out.Value {
			c.junk(w, p)
		}
		ha, ho := ctHash(a), ctHash(out)
		var err error
		if e := catch(func() { err = m.ev.Rescale(a, target, out) }); e == nil && err == nil {
			c.Failf("not-refused", "rescaling to %g into a ciphertext %s is not refused", target, what)
		}
		c.Check(ctHash(a) == ha && ctHash(out) == ho, "refusal-effect", "a refused rescaling into a ciphertext %s changed its operand or output", what)
		c.Event("misfit")
	}
	switch c.R.IntN(4) {
	case 0:
		if l < w.P.MaxLevel() {
			try("of a higher level", mkckks.NewCiphertext(w.P, a.IDSet(), l+1+c.R.IntN(w.P.MaxLevel()-l), a.Scale))
		}
	case 1:
		if l > 0 {
			try("of a lower level", mkckks.NewCiphertext(w.P, a.IDSet(), c.R.IntN(l), a.Scale))
		}
	case 2:
		ids := a.IDSet()
		ids.Add("someone else")
		try("with one party more", mkckks.NewCiphertext(w.P, ids, l, a.Scale))
	default:
		ids := a.IDSet()
		for _, id := range ctIDs(a)[:1] {
			ids.Remove(id)
		}
		if c.R.IntN(2) == 0 {
			ids.Add("someone else")
		}
		if !sameIDs(sortedIDs(ids), ctIDs(a)) {
			try("lacking one of its parties", mkckks.NewCiphertext(w.P, ids, l, a.Scale))
		}
	}
}
