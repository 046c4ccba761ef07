package verifharness

import (
	"fmt"
	"math"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

func init() {
	Register(&Prop{
		ID:        "C09",
		Rule:      "case = parameter set x random program of 14 operations over ciphertexts with independent party sets (1 to 7 parties, padded or not), levels and scales; every result's parties, level, scale and moduli are compared with the union/minimum/scale rule; non-trivial when distinct by (operation, set, party counts, levels)",
		Cases:     tiers(900, 12000),
		MinEvents: []string{"result", "fresh-result"},
		Run:       runMeta,
	})
	Register(&Prop{
		ID:        "C11",
		Rule:      "case = parameter set x random program; before every operation all operands, plaintexts, hoisted forms, keys and reference strings are fingerprinted, afterwards compared; then operands are overwritten and the result compared, and the result overwritten and the operands compared; non-trivial when distinct by (operation, set, party counts, levels)",
		Cases:     tiers(780, 9000),
		MinEvents: []string{"frozen", "independent", "keys-frozen", "enc-frozen"},
		Run:       runFrozen,
	})
	Register(&Prop{
		ID:        "C12",
		Rule:      "case = parameter set x long history (30 operations) on one evaluator, one encryptor and one decryptor, with levels, party sets and scales jumping, plaintext, ciphertext, message and key-set objects overwritten with other contents between calls, parties replacing their keys; every result is compared with a fresh instance's and with the oracle; non-trivial when distinct by (operation, previous operation, set)",
		Cases:     tiers(660, 9000),
		MinEvents: []string{"fresh-compare", "decrypt-compare", "encrypt-after-history", "reused-object", "rekeyed"},
		Run:       runHistory,
	})
	Register(&Prop{
		ID:        "C13",
		Rule:      "case = parameter set x session in which parties join and leave between operations and every surviving ciphertext is decrypted at the end with the system's decryptor; non-trivial when distinct by (set, program's operation sequence, party count)",
		Cases:     tiers(780, 9000),
		MinEvents: []string{"join", "leave", "final-decrypt"},
		Run:       runSession,
	})
	Register(&Prop{
		ID:        "C14",
		Rule:      "case = parameter set x ciphertext (fresh, padded, computed) x key set with each party missing in turn, foreign keys, a wrong key; non-trivial when distinct by (set, party count, who is missing, what kind of ciphertext)",
		Cases:     tiers(1200, 15000),
		MinEvents: []string{"missing-refused", "extra-ignored", "partial-hidden", "wrong-key"},
		Run:       runMissing,
	})
	Register(&Prop{
		ID:        "C15",
		Rule:      "case = parameter set x ciphertext in either domain x order in which the parties partially decrypt; non-trivial when distinct by (set, party count, order, domain, level)",
		Cases:     tiers(1500, 18000),
		MinEvents: []string{"partial", "complete"},
		Run:       runPartial,
	})
}

func runMeta(c *Ctx) {
	w := c.World(c.stdCfg())
	ps := c.everyone(w, 6)
	p := c.Prog(w, ps)
	p.After = func(op string, xs []*CT, r *CT) {
		// parties, level, scale are already checked by the step's monitor; here the
		// representation: one domain, every component as long as the ciphertext,
		// never more parties than took part
		n := map[string]bool{}
		for _, x := range xs {
			for _, id := range ctIDs(x.ct) {
				n[id] = true
			}
		}
		if op != "fresh" {
			c.Check(len(n) == len(r.ct.Value)-1, "party-set", "%s: %d parties took part, the result has %d", op, len(n), len(r.ct.Value)-1)
			c.Event("result")
		} else {
			c.Event("fresh-result")
		}
		for id, q := range r.ct.Value {
			c.Check(q.IsNTT == r.ct.Value["0"].IsNTT, "domain", "%s: component %q is in another domain than the ciphertext", op, id)
			c.Check(len(q.Coeffs) == r.ct.Level()+1, "malformed-ciphertext", "%s: component %q has %d moduli at level %d", op, id, len(q.Coeffs), r.ct.Level())
		}
		c.Check(r.ct.ScalingFactor() == r.ct.Scale, "scale", "ScalingFactor differs from Scale")
	}
	for i := 0; i < 14; i++ {
		p.Step()
	}
	// encryptions: exactly the asked parties, maximum level, default scale
	v, _ := randMsg(c.R, w.Slots, 1)
	pk := ps[c.R.IntN(len(ps))]
	for i := 0; i < 2; i++ {
		more := append(c.randParties(w, 7, 5), pk)
		ct := p.enc.EncryptMsgNewExpand(msgOf(v), pk.PK, idsOf(more))
		p.m.wellFormed("EncryptMsgNewExpand", ct, sortedIDs(idsOf(more)), w.P.MaxLevel(), w.P.Scale())
		for id, q := range ct.Value {
			if id != "0" && id != pk.ID {
				c.Check(infNorm(w.centred(ct.Level(), q)) == 0, "malformed-ciphertext", "padding component %q of a fresh encryption is not zero", id)
			}
		}
	}
	ct := p.enc.EncryptMsgNew(msgOf(v), pk.PK)
	p.m.wellFormed("EncryptMsgNew", ct, []string{pk.ID}, w.P.MaxLevel(), w.P.Scale())
	c.Event("fresh-result")
	// encryption over a used ciphertext of several parties, below the top level
	l := c.R.IntN(w.P.MaxLevel() + 1)
	s := w.P.Scale()
	if lim := w.modQ(l) / (256 * math.Sqrt(float64(w.N))); s > lim {
		s = lim
	}
	dirty := c.operand(w, nil, ps[:3], w.P.MaxLevel(), w.P.Scale(), 1)
	pt := ckks.NewPlaintext(w.CK, l, s)
	w.oracle.Encode(pt, v, w.LogSlots)
	o := ps[c.R.IntN(3)]
	p.enc.EncryptPtxt(pt, o.PK, dirty.ct)
	p.m.wellFormed("EncryptPtxt", dirty.ct, sortedIDs(idsOf(ps[:3])), l, s)
	p.m.bounded("EncryptPtxt", l, w.phase(c, dirty.ct), w.encode(v, l, s), w.freshBound(o.ID))
}

func runFrozen(c *Ctx) {
	w := c.World(c.stdCfg())
	ps := c.everyone(w, 4)
	p := c.Prog(w, ps)
	keys := c.keyVault(w, ps, p.m)
	var all *Vault
	var copies []*mkckks.Ciphertext
	p.Before = func(op string, xs []*CT) {
		all = &Vault{}
		for i, x := range p.live {
			x := x
			all.add(fmt.Sprintf("a ciphertext (live %d)", i), func() uint64 { return ctHash(x.ct) })
		}
	}
	p.After = func(op string, xs []*CT, r *CT) {
		if op == "fresh" {
			return
		}
		all.check(c, op)
		c.Event("frozen")
		c.State("%s|%s|%d|l%d", op, w.Name, len(r.ct.Value), r.ct.Level())
		// the result does not share memory with the operands
		keep := cloneDeep(r.ct)
		copies = copies[:0]
		for _, x := range xs {
			copies = append(copies, cloneDeep(x.ct))
		}
		for _, x := range xs {
			scribble(x.ct)
		}
		c.Check(ctHash(keep) == ctHash(r.ct), "aliasing", "%s: the result changes when an operand is overwritten", op)
		for i, x := range xs {
			x.ct.Value = copies[i].Value
			x.ct.Scale = copies[i].Scale
		}
		scribble(r.ct)
		all.check(c, op+" (overwriting the result)")
		// components of the result do not share memory with each other either
		c.separate(op, r.ct.Value)
		r.ct.Value = keep.Value
		c.Event("independent")
	}
	for i := 0; i < 12; i++ {
		p.Step()
		if i%4 == 3 {
			keys.check(c, "a program")
			c.Event("keys-frozen")
		}
	}
	// plaintexts, messages, hoisted forms, id sets
	a := p.fresh()
	v, _ := randMsg(c.R, w.Slots, 1)
	msg := msgOf(v)
	ids := idsOf(ps)
	vt := &Vault{}
	vt.add("the message", func() uint64 { return msgHash(msg.Value) })
	vt.add("the party set", func() uint64 { return hash64(fmt.Sprint(sortedIDs(ids))) })
	vt.add("the ciphertext", func() uint64 { return ctHash(a.ct) })
	pt := p.enc.EncodeMsgNew(msg)
	vt.check(c, "EncodeMsgNew")
	vt.add("the plaintext", func() uint64 { return ptHash(pt) })
	e1 := p.enc.EncryptMsgNew(msg, ps[0].PK)
	vt.check(c, "EncryptMsgNew")
	e2 := p.enc.EncryptMsgNewExpand(msg, ps[0].PK, ids)
	vt.check(c, "EncryptMsgNewExpand")
	vt.add("an earlier encryption", func() uint64 { return ctHash(e1) })
	vt.add("an earlier expanded encryption", func() uint64 { return ctHash(e2) })
	e3 := p.enc.EncryptMsgNew(msg, ps[1].PK)
	pt2 := p.enc.EncodeMsgNew(msg)
	vt.check(c, "a later encryption")
	p.enc.EncryptPtxt(pt2, ps[0].PK, mkckks.NewCiphertext(w.P, ids, w.P.MaxLevel(), 1))
	vt.check(c, "EncryptPtxt")
	scribble(e3)
	vt.check(c, "overwriting an encryption")
	// plaintexts and ciphertexts in either domain, at any level
	p.frozenDomains(vt)
	hf := p.m.ev.HoistedForm(a.ct)
	vt.check(c, "HoistedForm")
	vt.add("the hoisted form", func() uint64 { return hoistHash(hf) })
	p.m.ev.HoistedForm(e1)
	p.m.ev.MulPtxtNew(a.ct, pt)
	if p.fits(a, a) {
		b := p.fresh()
		p.m.MulHoisted(a, a, hf, hf)
		p.m.Mul(b, b)
		p.m.Mul(a, b)
	}
	p.m.RotHoisted(a, 1, hf)
	p.m.Rot(a, 3)
	vt.check(c, "evaluation")
	dec := mkckks.NewDecryptor(w.P)
	sks := c.SkSet(ps...)
	m1 := dec.Decrypt(a.ct, sks)
	h1 := msgHash(m1.Value)
	m2 := dec.Decrypt(e1, sks)
	_ = m2
	c.Check(msgHash(m1.Value) == h1, "aliasing", "a decrypted message changes with the next decryption")
	m2.Value[0] = 12345
	c.Check(msgHash(m1.Value) == h1, "aliasing", "two decrypted messages share memory")
	// many messages of one decryptor, of ciphertexts of few and of many parties
	msgs := &Vault{}
	msgs.add("a decrypted message (earlier)", func() uint64 { return msgHash(m1.Value) })
	src := []*mkckks.Ciphertext{a.ct, e1, e2, p.enc.EncryptMsgNewExpand(msg, ps[0].PK, ids)}
	for _, x := range p.live {
		src = append(src, x.ct)
	}
	for i := 0; i < 10; i++ {
		x := src[c.R.IntN(len(src))]
		if i < 4 {
			x = src[3]
		}
		mi := dec.Decrypt(x, sks)
		msgs.check(c, fmt.Sprintf("decryption %d", i+3))
		for k := range mi.Value {
			mi.Value[k] += complex(float64(1000*i), 1)
		}
		msgs.check(c, fmt.Sprintf("overwriting message %d", i+3))
		msgs.add(fmt.Sprintf("decrypted message %d (%d parties)", i+3, len(x.Value)-1), func() uint64 { return msgHash(mi.Value) })
	}
	c.Check(len(sks.Value) == len(ps), "operand-changed", "Decrypt changed the key set")
	vt.check(c, "Decrypt")
	keys.check(c, "encryption, evaluation and decryption")
	c.Event("enc-frozen")
}

// frozenDomains: encryption, decryption and key switching take operands in either
// domain and leave them alone.
func (p *Prog) frozenDomains(vt *Vault) {
	c, w := p.c, p.w
	ringQ := w.P.RingQ()
	L := w.P.MaxLevel()
	renc, rdec := mkrlwe.NewEncryptor(w.P.Parameters), mkrlwe.NewDecryptor(w.P.Parameters)
	ks := mkrlwe.NewKeySwitcher(w.P.Parameters)
	for i := 0; i < 4; i++ {
		l := c.R.IntN(L + 1)
		if i < 2 {
			l = L
		}
		v, _ := randMsg(c.R, w.Slots, 1)
		s := math.Min(w.P.Scale(), w.modQ(l)/(256*math.Sqrt(float64(w.N))))
		pt := ckks.NewPlaintext(w.CK, l, s)
		w.oracle.Encode(pt, v, w.LogSlots)
		nttP, nttC := i%2 == 1, c.R.IntN(2) == 1
		if nttP {
			ringQ.NTTLvl(l, pt.Value, pt.Value)
			pt.Value.IsNTT = true
		}
		pk := p.ps[c.R.IntN(len(p.ps))]
		before := ptHash(pt)
		for j := 0; j < 2; j++ {
			ct := mkrlwe.NewCiphertext(w.P.Parameters, idsOf([]*Party{pk}), l)
			if nttC {
				ct = mkrlwe.NewCiphertextNTT(w.P.Parameters, idsOf([]*Party{pk}), l)
			}
			what := fmt.Sprintf("encryption %d of a plaintext (NTT=%v) into a ciphertext (NTT=%v)", j+1, nttP, nttC)
			if c.R.IntN(2) == 0 {
				renc.Encrypt(&rlwe.Plaintext{Value: pt.Value}, pk.PK, ct)
			} else {
				p.enc.EncryptPtxt(pt, pk.PK, &mkckks.Ciphertext{Ciphertext: ct})
			}
			c.Check(ptHash(pt) == before, "operand-changed", "%s changed the plaintext", what)
			p.m.bounded("encrypt", l, w.rawPhase(c, ct.Value, l, w.skMap()), w.encode(v, l, s), w.freshBound(pk.ID))
			h := ctHash(&mkckks.Ciphertext{Ciphertext: ct, Scale: 1})
			out := &rlwe.Plaintext{Value: ringQ.NewPolyLvl(l)}
			out.Value.IsNTT = c.R.IntN(2) == 0
			rdec.Decrypt(ct, c.SkSet(pk), out)
			c.Check(h == ctHash(&mkckks.Ciphertext{Ciphertext: ct, Scale: 1}), "operand-changed", "Decrypt changed its ciphertext (NTT=%v)", nttC)
			oh := polyHash(out.Value)
			scribble(&mkckks.Ciphertext{Ciphertext: ct})
			c.Check(oh == polyHash(out.Value), "aliasing", "a decrypted plaintext shares memory with the ciphertext")
		}
		// key switching
		a := w.randPoly(c, l)
		a.IsNTT = nttC
		ah := polyHash(a)
		key := c.Rtk(w, pk, 1).Value
		c1, c2, d := ringQ.NewPolyLvl(l), ringQ.NewPolyLvl(l), mkrlwe.NewSwitchingKey(w.P.Parameters)
		ks.ExternalProduct(l, a, key, c1)
		ks.Decompose(l, a, d)
		dh := swkHash(d)
		ks.ExternalProductHoisted(l, d, key, c2)
		c.Check(polyHash(a) == ah, "operand-changed", "key switching changed its operand (NTT=%v)", nttC)
		c.Check(swkHash(d) == dh, "operand-changed", "ExternalProductHoisted changed the decomposed operand")
		ks.ExternalProduct(l, a, key, c2)
		c.Check(w.diffNorm(l, c1, c2) == 0, "operand-changed", "a second external product of the same operands is another")
	}
	vt.check(c, "encryption and key switching in either domain")
}

// near: two results of one operation agree up to the noise of both.
func (c *Ctx) near(w *World, op string, a, b *mkckks.Ciphertext, lim float64) {
	c.Check(sameIDs(ctIDs(a), ctIDs(b)) && a.Level() == b.Level() && math.Abs(a.Scale/b.Scale-1) < 1e-12, "history", "%s: parties, level or scale differ from a fresh instance's", op)
	d := w.diffNorm(a.Level(), w.phase(c, a), w.phase(c, b))
	if lim > w.modQ(a.Level())/16 {
		c.Event("inconclusive:" + op)
		return
	}
	c.Check(d <= lim, "history", "%s: the result is %.3g away from a fresh instance's, allowed %.3g", op, d, lim)
	c.Event("fresh-compare")
}

func runHistory(c *Ctx) {
	w := c.World(c.stdCfg())
	ps := c.everyone(w, 5)
	p := c.Prog(w, ps)
	dec := mkckks.NewDecryptor(w.P)
	sks := c.SkSet(ps...)
	prev := ""
	n := 30
	if w.LogN > 8 {
		n = 12
	}
	for i := 0; i < n; i++ {
		p.After = func(op string, xs []*CT, r *CT) {
			c.State("%s|%s>%s|%d", w.Name, prev, op, r.ct.Level())
			prev = op
			if op == "AddNew" || op == "SubNew" || op == "MulRelinNew" {
				ev := mkckks.NewEvaluator(w.P)
				var f *mkckks.Ciphertext
				lim := 0.0
				switch op {
				case "AddNew":
					f = ev.AddNew(xs[0].ct, xs[1].ct)
				case "SubNew":
					f = ev.SubNew(xs[0].ct, xs[1].ct)
				case "MulRelinNew":
					f = ev.MulRelinNew(xs[0].ct, xs[1].ct, c.RlkSet(w, ps...))
					ids := ctIDs(r.ct)
					l := min(xs[0].ct.Level(), xs[1].ct.Level())
					lim = 2*w.mulBound(l, ids, ids)*r.ct.Scale/(xs[0].ct.Scale*xs[1].ct.Scale) + 2*w.rescaleBound(ids)
				}
				c.near(w, op, r.ct, f, lim)
			}
		}
		p.Step()
		if c.R.IntN(3) == 0 && len(p.live) > 0 {
			// decryption after decryptions at other levels and scales
			x := p.pick()
			if (maxAbs(x.val)+x.err)*x.ct.Scale*4*math.Sqrt(float64(w.N)) < w.modQ(x.ct.Level())/2 {
				got := dec.Decrypt(x.ct, sks)
				d := maxDiff(got.Value, x.val)
				tol := 2*x.err + 1e-8*(maxAbs(x.val)+1e-12)
				c.Check(d <= tol, "wrong-message", "decryption with a used decryptor: a slot is off by %.3g, allowed %.3g", d, tol)
				fr := mkckks.NewDecryptor(w.P).Decrypt(x.ct, sks)
				c.Check(maxDiff(got.Value, fr.Value) <= 1e-9*(maxAbs(fr.Value)+1e-12), "history", "a used decryptor gives another message than a fresh one")
				c.Event("decrypt-compare")
			}
		}
		if c.R.IntN(6) == 0 {
			// a big value at the top level exercises all moduli of the decryptor
			mag := math.Min(w.capMag(w.P.MaxLevel(), w.P.Scale()), 1e25)
			v, _ := randMsg(c.R, w.Slots, mag)
			pk := ps[c.R.IntN(len(ps))]
			var ct *mkckks.Ciphertext
			if c.R.IntN(2) == 0 {
				ct = p.enc.EncryptMsgNew(msgOf(v), pk.PK)
			} else {
				ct = p.enc.EncryptMsgNewExpand(msgOf(v), pk.PK, idsOf([]*Party{pk, ps[0]}))
			}
			got := dec.Decrypt(ct, sks)
			tol := w.slotErr(2*w.freshBound(pk.ID)+2, w.P.Scale()) + 1e-8*maxAbs(v)
			d := maxDiff(got.Value, v)
			c.Check(d <= tol, "wrong-message", "encryption and decryption after a history: a slot is off by %.3g, allowed %.3g", d, tol)
			c.Event("encrypt-after-history")
		}
	}
	p.After = nil
	p.reused(dec, sks)
	p.rekeyed(dec, sks)
}

// reused: one object (plaintext, ciphertext, message) is overwritten with other
// contents between calls; what counts is what it holds at the time of the call.
func (p *Prog) reused(dec *mkckks.Decryptor, sks *mkrlwe.SecretKeySet) {
	c, w, m := p.c, p.w, p.m
	L := w.P.MaxLevel()
	pt := ckks.NewPlaintext(w.CK, L, w.P.Scale())
	msg := mkckks.NewMessage(w.P)
	box := &CT{ct: &mkckks.Ciphertext{Ciphertext: &mkrlwe.Ciphertext{}}}
	for i := 0; i < 3; i++ {
		v, _ := randMsg(c.R, w.Slots, 1)
		w.oracle.Encode(pt, v, w.LogSlots)
		for j := 0; j < 2; j++ {
			a := p.pick()
			if a.ct.Scale*pt.Scale*64*math.Sqrt(float64(w.N))*(maxAbs(a.val)+1) <= w.modQ(a.ct.Level()) {
				m.MulPt(a, pt, v)
				c.Event("reused-object")
			}
		}
		// the ciphertext object box takes the contents of another one
		x := p.pick()
		f := cloneDeep(x.ct)
		box.ct.Value, box.ct.Scale = f.Value, f.Scale
		box.val, box.err = append([]complex128(nil), x.val...), x.err
		b := p.pick()
		m.Rot(box, 1+c.R.IntN(w.N/2-1))
		m.Conj(box)
		m.Add(box, b)
		if p.fits(box, b) {
			m.Mul(box, b)
		}
		if p.fits(box, box) {
			m.Mul(box, box)
		}
		// and is changed in place
		k := 1 + c.R.IntN(3)
		box = m.MulConst(box, -k, complex(float64(-k), 0), true)
		if l := box.ct.Level(); l > 0 {
			box = m.Drop(box, 1+c.R.IntN(l), true)
		}
		m.Rot(box, 1)
		m.Sub(b, box)
		if p.fits(box, b) {
			m.Mul(b, box)
		}
		// the message object
		v, _ = randMsg(c.R, w.Slots, 1)
		copy(msg.Value, v)
		pk := p.ps[c.R.IntN(len(p.ps))]
		ct := p.enc.EncryptMsgNew(msg, pk.PK)
		m.bounded("EncryptMsgNew", L, w.phase(c, ct), w.encode(v, L, w.P.Scale()), w.freshBound(pk.ID))
		q := p.enc.EncodeMsgNew(msg)
		c.Check(w.diffNorm(L, q.Value, w.encode(v, L, w.P.Scale())) <= 2, "wrong-result", "encoding a message object that held another message before")
		c.Event("reused-object")
	}
}

// rekeyed: parties replace all their keys under the same name, in the same key
// sets; the used instances must work with the new ones.
func (p *Prog) rekeyed(dec *mkckks.Decryptor, sks *mkrlwe.SecretKeySet) {
	c, w, m := p.c, p.w, p.m
	if w.modQ(w.P.MaxLevel()) < w.P.Scale()*w.P.Scale()*1024*math.Sqrt(float64(w.N)) {
		return
	}
	rlk, rtk, cjk := c.RlkSet(w, p.ps...), c.RtkSet(w, p.ps...), c.CjkSet(w, p.ps...)
	check := func(op string, ct *mkckks.Ciphertext, want []complex128) {
		d := maxDiff(dec.Decrypt(ct, sks).Value, want)
		c.Check(d < 0.02, "history", "%s by used instances after parties replaced their keys: a slot is off by %.3g", op, d)
	}
	for i := 0; i < 2; i++ {
		o := p.ps[c.R.IntN(2)]
		b := p.ps[2+c.R.IntN(2)]
		var sk *mkrlwe.SecretKey
		var pk *mkrlwe.PublicKey
		c.seeded(fmt.Sprintf("rekey|%d|%d", c.Case, i), func() {
			kg := mkckks.NewKeyGenerator(w.P)
			sk, pk = kg.GenKeyPair(o.ID)
			rlk.AddRelinearizationKey(kg.GenRelinearizationKey(sk, kg.GenSecretKey(o.ID)))
			kg.GenDefaultRotationKeys(sk, rtk)
			cjk.AddConjugationKey(kg.GenConjugationKey(sk))
		})
		sks.AddSecretKey(sk)
		v, _ := randMsg(c.R, w.Slots, 1)
		u, _ := randMsg(c.R, w.Slots, 1)
		x, y := p.enc.EncryptMsgNew(msgOf(v), pk), p.enc.EncryptMsgNew(msgOf(u), b.PK)
		check("encryption", x, v)
		s := m.ev.AddNew(x, y)
		sum := make([]complex128, len(v))
		for j := range v {
			sum[j] = v[j] + u[j]
		}
		check("addition", s, sum)
		check("multiplication", m.ev.MulRelinNew(s, x, rlk), prodVals(sum, v))
		check("multiplication", m.ev.MulRelinNew(y, x, rlk), prodVals(u, v))
		k := 1 + c.R.IntN(w.N/2-1)
		check("rotation", m.ev.RotateNew(s, k, rtk), rotl(sum, k))
		check("hoisted rotation", m.ev.RotateHoistedNew(s, 1, m.ev.HoistedForm(s), rtk), rotl(sum, 1))
		check("conjugation", m.ev.ConjugateNew(s, cjk), conj(sum))
		sks.AddSecretKey(o.SK)
		c.Event("rekeyed")
	}
}

// separate: the components of a ciphertext share no memory with each other.
func (c *Ctx) separate(op string, val map[string]*ring.Poly) {
	mem := map[*uint64]string{}
	for id, q := range val {
		for j := range q.Coeffs {
			if len(q.Coeffs[j]) == 0 {
				continue
			}
			if o, ok := mem[&q.Coeffs[j][0]]; ok {
				c.Failf("aliasing", "%s: components %q and %q of the result share memory", op, o, id)
			}
			mem[&q.Coeffs[j][0]] = id
		}
	}
}

func runSession(c *Ctx) {
	cfg := c.stdCfg()
	w := c.World(cfg)
	m := c.Mon(w)
	m.rlk = mkrlwe.NewRelinearizationKeyKeySet(w.P.Parameters)
	m.rtk = mkrlwe.NewRotationKeySet()
	m.cjk = mkrlwe.NewConjugationKeySet()
	sks := mkrlwe.NewSecretKeySet()
	pks := mkrlwe.NewPublicKeyKeySet()
	in := map[int]bool{}
	var members []*Party
	pool, most := c.crowd(w, 7), 5
	if pool > 7 {
		most = pool
	}
	rebuild := func() {
		members = members[:0]
		for i := 0; i < pool; i++ {
			if in[i] {
				members = append(members, c.Party(w, i))
			}
		}
	}
	var undo []func()
	defer func() {
		for i := len(undo) - 1; i >= 0; i-- {
			undo[i]()
		}
	}()
	was := map[int]bool{}
	enc := mkckks.NewEncryptor(w.P)
	// tour: everything there is to do with one party's keys
	tour := func(p *Party) {
		v, _ := randMsg(c.R, w.Slots, 1)
		x := &CT{ct: enc.EncryptMsgNew(msgOf(v), pks.GetPublicKey(p.ID)), val: v, err: w.slotErr(w.freshBound(p.ID)+1, w.P.Scale())}
		m.Mul(x, x)
		m.Rot(x, 1)
		m.Conj(x)
		m.RotHoisted(x, 1, m.ev.HoistedForm(x.ct))
		c.Event("tour")
	}
	join := func(i int) {
		renewed := was[i] && c.R.IntN(3) > 0
		if renewed { // back with new keys
			undo = append(undo, c.rekey(w, i))
			c.Event("rejoin-new-keys")
		}
		was[i] = true
		p := c.Party(w, i)
		sks.AddSecretKey(p.SK)
		pks.AddPublicKey(p.PK)
		m.rlk.AddRelinearizationKey(c.Rlk(w, p))
		for k := 1; k < w.N/2; k *= 2 {
			m.rtk.AddRotationKey(c.Rtk(w, p, k))
		}
		m.cjk.AddConjugationKey(c.Cjk(w, p))
		in[i] = true
		rebuild()
		c.Logf("join %q", p.ID)
		c.Event("join")
		if renewed {
			tour(p)
		}
	}
	join(c.R.IntN(7))
	prog := &Prog{m: m, w: w, c: c, enc: enc, InPlace: true}
	seq := ""
	prog.After = func(op string, xs []*CT, r *CT) { seq += op[:1] + op[len(op)-4:len(op)-3] }
	if pool > 11 {
		// a crowd: everyone's inputs are added up
		for _, j := range c.pick(pool, 18+c.R.IntN(16)) {
			if !in[j] {
				join(j)
			}
		}
		fresh := func(p *Party) *CT {
			v, _ := randMsg(c.R, w.Slots, 1)
			return &CT{ct: enc.EncryptMsgNew(msgOf(v), pks.GetPublicKey(p.ID)), val: v, err: w.slotErr(w.freshBound(p.ID)+1, w.P.Scale())}
		}
		sum := fresh(members[0])
		for _, p := range members[1:] {
			sum = m.Add(sum, fresh(p))
		}
		prog.add(sum)
		prog.add(m.Mul(sum, fresh(members[c.R.IntN(len(members))])))
		prog.add(m.Rot(sum, 1))
		prog.add(m.Conj(sum))
		c.Event("crowd-sum")
	}
	n := 24
	if w.LogN > 8 {
		n = 10
	}
	for i := 0; i < n; i++ {
		if c.R.IntN(5) == 0 && len(members) < most || pool > 7 && i < 8 {
			j := c.R.IntN(pool)
			if !in[j] {
				join(j)
				seq += "+"
			}
		}
		if c.R.IntN(6) == 0 && len(members) > 1 {
			// a party leaves: its keys go; ciphertexts it takes part in are dropped,
			// the others must go on working
			var js []int
			for j := 0; j < pool; j++ {
				if in[j] {
					js = append(js, j)
				}
			}
			j := js[c.R.IntN(len(js))]
			p := c.Party(w, j)
			if c.R.IntN(2) == 0 {
				tour(p)
			}
			m.rlk.DelRelinearizationKey(p.ID)
			m.cjk.DelConjugationKey(p.ID)
			sks.DelSecretKey(p.ID)
			pks.DelPublicKey(p.ID)
			for k := 1; k < w.N/2; k *= 2 {
				m.rtk.DelRotationKey(p.ID, uint(k))
			}
			delete(in, j)
			rebuild()
			var keep []*CT
			for _, x := range prog.live {
				if _, ok := x.ct.Value[p.ID]; !ok {
					keep = append(keep, x)
				} else {
					c.Check(catch(func() { mkckks.NewDecryptor(w.P).Decrypt(x.ct, sks) }) != nil, "not-refused", "a ciphertext of a party that left is decrypted without its key")
				}
			}
			prog.live = keep
			c.Logf("leave %q, %d ciphertexts stay", p.ID, len(keep))
			c.Event("leave")
			seq += "-"
		}
		prog.ps = members
		// inputs come through the public key store
		if c.R.IntN(3) == 0 {
			p := members[c.R.IntN(len(members))]
			v, _ := randMsg(c.R, w.Slots, 1)
			ct := prog.enc.EncryptMsgNew(msgOf(v), pks.GetPublicKey(p.ID))
			prog.add(&CT{ct: ct, val: v, err: w.slotErr(w.freshBound(p.ID)+1, w.P.Scale())})
		}
		prog.Step()
	}
	dec := mkckks.NewDecryptor(w.P)
	for _, x := range prog.live {
		if !((maxAbs(x.val)+x.err)*x.ct.Scale*4*math.Sqrt(float64(w.N)) <= w.modQ(x.ct.Level())/2) {
			continue
		}
		got := dec.Decrypt(x.ct, sks)
		d := maxDiff(got.Value, x.val)
		tol := 2*x.err + 1e-8*(maxAbs(x.val)+1e-12)
		c.Ratio("final", d/tol)
		c.Check(d <= tol, "wrong-message", "end of session: a slot is off by %.3g, allowed %.3g", d, tol)
		c.Event("final-decrypt")
	}
	c.State("%s|%s", w.Name, seq)
}

// computed makes a ciphertext of all the parties by an operation.
func (c *Ctx) computed(w *World, enc *mkckks.Encryptor, ps []*Party, kind int) (*mkckks.Ciphertext, []complex128, string) {
	v, _ := randMsg(c.R, w.Slots, 1)
	l := c.R.IntN(w.P.MaxLevel() + 1)
	s := w.P.Scale()
	if lim := w.modQ(l) / (256 * math.Sqrt(float64(w.N))); s > lim {
		s = lim
	}
	switch kind % 3 {
	case 0: // encrypted by one, padded for the others
		return enc.EncryptMsgNewExpand(msgOf(v), ps[0].PK, idsOf(ps)), v, "padded"
	case 1:
		x := w.craft(c, ps, v, l, s)
		return x.ct, v, "crafted"
	default:
		ev := mkckks.NewEvaluator(w.P)
		ct := enc.EncryptMsgNew(msgOf(v), ps[0].PK)
		for _, p := range ps[1:] {
			u, _ := randMsg(c.R, w.Slots, 1)
			ct = ev.AddNew(ct, enc.EncryptMsgNew(msgOf(u), p.PK))
			for i := range v {
				v[i] += u[i]
			}
		}
		return ct, v, "sum"
	}
}

func runMissing(c *Ctx) {
	cfg := c.stdCfg()
	w := c.World(cfg)
	enc := mkckks.NewEncryptor(w.P)
	dec := mkckks.NewDecryptor(w.P)
	rdec := mkrlwe.NewDecryptor(w.P.Parameters)
	c.uniform = true // a component with zeros would hide less
	strangers := func(sks *mkrlwe.SecretKeySet) {
		for j := 0; j < 40; j++ {
			k := c.Party(w, 0).SK.CopyNew()
			k.ID = fmt.Sprintf("stranger%d", j)
			sks.AddSecretKey(k)
		}
		c.Event("many-keys")
	}
	for i := 0; i < 3; i++ {
		ps := c.randParties(w, 7, 4)
		ct, v, kind := c.computed(w, enc, ps, c.R.IntN(3))
		tol := w.slotErr(200*w.freshBound(ps[0].ID)*float64(len(ps)), ct.Scale) + 1e-8
		c.Logf("%s of %s", kind, names(ps))
		before := ctHash(ct)
		for miss := range ps {
			var some []*Party
			for j, p := range ps {
				if j != miss {
					some = append(some, p)
				}
			}
			sks := c.SkSet(some...)
			// strangers do not help
			for _, j := range c.pick(c.crowd(w, 7), 3) {
				p := c.Party(w, j)
				if _, ok := ct.Value[p.ID]; !ok {
					sks.AddSecretKey(p.SK)
				}
			}
			if c.R.IntN(6) == 0 {
				strangers(sks)
			}
			nk := len(sks.Value)
			r := catch(func() { dec.Decrypt(ct, sks) })
			c.Check(r != nil, "not-refused", "a %s ciphertext of %d parties is decrypted without the key of %q", kind, len(ps), ps[miss].ID)
			pt := &rlwe.Plaintext{Value: w.P.RingQ().NewPoly()}
			r = catch(func() { rdec.Decrypt(ct.Ciphertext, sks, pt) })
			c.Check(r != nil, "not-refused", "a %s ciphertext of %d parties is decrypted without the key of %q (generic layer)", kind, len(ps), ps[miss].ID)
			c.Check(len(sks.Value) == nk && ctHash(ct) == before, "refusal-effect", "a refused decryption changed its inputs")
			c.Event("missing-refused")
			c.State("%s|%s|%d|%d", w.Name, kind, len(ps), miss)
			// what the others can compute shows nothing of the message
			if (kind != "padded" || miss == 0) && w.N >= 32 {
				t := ct.CopyNew()
				for _, p := range some {
					dec.PartialDecrypt(t, p.SK)
				}
				c.Check(len(t.Value) == 2, "party-set", "after %d partial decryptions %d components are left", len(some), len(t.Value))
				n := infNorm(w.centred(t.Level(), t.Value["0"]))
				c.Check(n > w.modQ(t.Level())/64, "secrecy", "without the key of %q the ciphertext is already down to 2^%.1f of 2^%.1f", ps[miss].ID, math.Log2(n), math.Log2(w.modQ(t.Level())))
				c.Event("partial-hidden")
			}
		}
		// all keys, more keys: the message
		for _, more := range []bool{false, true} {
			sks := c.SkSet(ps...)
			if more {
				sks = c.SkSet(c.everyone(w, 7)...)
				if c.R.IntN(3) == 0 {
					strangers(sks)
				}
			}
			d := maxDiff(dec.Decrypt(ct, sks).Value, v)
			c.Check(d <= tol, "wrong-message", "a %s ciphertext of %d parties decrypts %.3g off with all %d keys", kind, len(ps), d, len(sks.Value))
			c.Event("extra-ignored")
		}
		// a wrong key under the right name gives no message
		if kind != "padded" && w.N >= 32 {
			var imp *mkrlwe.SecretKey
			j := c.R.IntN(len(ps))
			c.seeded(fmt.Sprintf("impostor|%d|%d", c.Case, i), func() { imp = mkckks.NewKeyGenerator(w.P).GenSecretKey(ps[j].ID) })
			sks := c.SkSet(ps...)
			sks.AddSecretKey(imp)
			pt := &rlwe.Plaintext{Value: w.P.RingQ().NewPoly()}
			rdec.Decrypt(ct.Ciphertext, sks, pt)
			n := infNorm(w.centred(ct.Level(), pt.Value))
			c.Check(n > w.modQ(ct.Level())/64, "secrecy", "another secret key under the name %q decrypts the ciphertext (2^%.1f)", ps[j].ID, math.Log2(n))
			c.Event("wrong-key")
		}
	}
	// no parties at all: nothing to refuse
	pt := ckks.NewPlaintext(w.CK, w.P.MaxLevel(), w.P.Scale())
	v, _ := randMsg(c.R, w.Slots, 1)
	w.oracle.Encode(pt, v, w.LogSlots)
	ct := mkckks.NewCiphertext(w.P, mkrlwe.NewIDSet(), w.P.MaxLevel(), w.P.Scale())
	ct.Value["0"].Copy(pt.Value)
	d := maxDiff(dec.Decrypt(ct, mkrlwe.NewSecretKeySet()).Value, v)
	c.Check(d <= w.slotErr(10, w.P.Scale()), "wrong-message", "a ciphertext of no party decrypts %.3g off", d)
}

func runPartial(c *Ctx) {
	w := c.World(c.stdCfg())
	enc := mkckks.NewEncryptor(w.P)
	dec := mkckks.NewDecryptor(w.P)
	rdec := mkrlwe.NewDecryptor(w.P.Parameters)
	ringQ := w.P.RingQ()
	for i := 0; i < 4; i++ {
		ps := c.randParties(w, 7, 5)
		ct, v, kind := c.computed(w, enc, ps, c.R.IntN(3))
		level := ct.Level()
		want := w.phase(c, ct)
		ntt := c.R.IntN(3) == 0
		t := cloneDeep(ct)
		if ntt {
			for _, p := range t.Value {
				ringQ.NTTLvl(level, p, p)
				p.IsNTT = true
			}
		}
		order := c.R.Perm(len(ps))
		c.Logf("%s of %s order %v ntt=%v", kind, names(ps), order, ntt)
		c.State("%s|%s|%v|%v|l%d", w.Name, kind, order, ntt, level)
		for n, j := range order {
			rest := map[string]uint64{}
			for id, p := range t.Value {
				if id != "0" && id != ps[j].ID {
					rest[id] = polyHash(p)
				}
			}
			skh := qpHash(ps[j].SK.Value)
			if c.R.IntN(2) == 0 {
				dec.PartialDecrypt(t, ps[j].SK)
			} else {
				rdec.PartialDecrypt(t.Ciphertext, ps[j].SK)
			}
			c.Event("partial")
			_, still := t.Value[ps[j].ID]
			c.Check(!still && len(t.Value) == len(ps)-n, "party-set", "after %d partial decryptions of %d the ciphertext has %d components", n+1, len(ps), len(t.Value))
			for id, h := range rest {
				c.Check(t.Value[id] != nil && polyHash(t.Value[id]) == h, "operand-changed", "the partial decryption of %q changed the component of %q", ps[j].ID, id)
			}
			c.Check(skh == qpHash(ps[j].SK.Value), "operand-changed", "a partial decryption changed the secret key")
			c.Check(t.Level() == level && t.Scale == ct.Scale && t.Value["0"].IsNTT == ntt, "level", "a partial decryption changed level, scale or domain")
			// what is left still has the same phase
			d := w.diffNorm(level, w.rawPhase(c, t.Value, level, w.skMap()), want)
			c.Check(d == 0, "wrong-result", "after partial decryption %d of %d the phase is off by %g", n+1, len(ps), d)
		}
		// complete: anyone reads the message
		tol := w.slotErr(200*w.freshBound(ps[0].ID)*float64(len(ps)), ct.Scale) + 1e-8
		if !ntt {
			d := maxDiff(dec.Decrypt(t, mkrlwe.NewSecretKeySet()).Value, v)
			c.Check(d <= tol, "wrong-message", "after all partial decryptions the message is %.3g off", d)
		}
		got := ring.NewPoly(w.N, level+1)
		ringQ.ReduceLvl(level, t.Value["0"], got)
		if ntt {
			ringQ.InvNTTLvl(level, got, got)
		}
		c.Check(w.diffNorm(level, got, want) == 0, "wrong-result", "all partial decryptions together are not the decryption")
		// some parties partially, the decryptor the rest
		k := c.R.IntN(len(ps) + 1)
		h := ct.CopyNew()
		rem := mkrlwe.NewSecretKeySet()
		for n, j := range order {
			if n < k {
				dec.PartialDecrypt(h, ps[j].SK)
			} else {
				rem.AddSecretKey(ps[j].SK)
			}
		}
		d := maxDiff(dec.Decrypt(h, rem).Value, v)
		c.Check(d <= tol, "wrong-message", "%d partial decryptions and the rest by the decryptor: the message is %.3g off", k, d)
		c.Event("complete")
		// a party that made itself a new key under its name: the decryptors in
		// use have to go by the key they are given, not by its name
		old := ps[order[len(order)-1]]
		nsk, npk := mkckks.NewKeyGenerator(w.P).GenKeyPair(old.ID)
		u, _ := randMsg(c.R, w.Slots, 1)
		x := enc.EncryptMsgNew(msgOf(u), npk)
		dec.PartialDecrypt(x, nsk)
		d = maxDiff(dec.Decrypt(x, mkrlwe.NewSecretKeySet()).Value, u)
		c.Check(d <= tol, "wrong-message", "partial decryption under the new key of a name seen before: the message is %.3g off", d)
		y := enc.EncryptMsgNew(msgOf(u), npk)
		rdec.PartialDecrypt(y.Ciphertext, nsk)
		d = maxDiff(dec.Decrypt(y, mkrlwe.NewSecretKeySet()).Value, u)
		c.Check(d <= tol, "wrong-message", "partial decryption under the new key of a name seen before: the message is %.3g off", d)
		if i%2 == 0 {
			z := enc.EncryptMsgNew(msgOf(u), old.PK)
			dec.PartialDecrypt(z, old.SK)
			d = maxDiff(dec.Decrypt(z, mkrlwe.NewSecretKeySet()).Value, u)
			c.Check(d <= tol, "wrong-message", "partial decryption under the former key of a name: the message is %.3g off", d)
		}
		c.Event("rekeyed")
	}
}
