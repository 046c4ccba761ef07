package verifharness

import (
	"fmt"
	"runtime"

	"github.com/ldsec/lattigo/v2/ckks"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

func init() {
	Register(&Prop{
		ID:        "C35",
		Rule:      "case = kind of call x parameter set, repeated hundreds of times on long-lived instances with operands that are new objects each time and dropped afterwards; the memory still reachable and the goroutines alive are compared between two long stretches; non-trivial when distinct by (call, set, parties)",
		Cases:     tiers(4*memKinds, 40*memKinds),
		MinEvents: []string{"stretch"},
		Run:       runGrowth,
	})
}

var memCfgs = []Cfg{
	{"m8", 8, 7, []int{50, 40, 40}, rep(52, 2), 40, sg},
	{"m9-a2", 9, 8, cat([]int{50}, rep(42, 3)), rep(52, 4), 42, sg},
	{"m8-one", 8, 7, []int{55}, rep(60, 2), 40, sg},
	{"m7-lr", 7, 6, cat([]int{55}, rep(38, 9)), rep(50, 2), 38, sg},
}

const memKinds = 26

func runGrowth(c *Ctx) {
	w := c.World(memCfgs[(c.Case/memKinds)%len(memCfgs)])
	ps := []*Party{c.Party(w, 0), c.Party(w, 1+c.R.IntN(4))}
	ev := mkckks.NewEvaluator(w.P)
	enc := mkckks.NewEncryptor(w.P)
	dec := mkckks.NewDecryptor(w.P)
	kg := mkckks.NewKeyGenerator(w.P)
	rlk, rtk, cjk, sks := c.RlkSet(w, ps...), c.RtkSet(w, ps...), c.CjkSet(w, ps...), c.SkSet(ps...)
	L := w.P.MaxLevel()
	v, _ := randMsg(c.R, w.Slots, 1)
	a0 := w.craft(c, ps, v, L, w.P.Scale()).ct
	b0 := w.craft(c, ps[:1], v, L, w.P.Scale()).ct
	pt := ckks.NewPlaintext(w.CK, L, w.P.Scale())
	w.oracle.EncodeNTT(pt, v, w.LogSlots)
	ks := mkrlwe.NewKeySwitcher(w.P.Parameters)
	ext := mkrlwe.NewFastBasisExtender(w.P.RingQ(), w.P.RingP())
	h := w.N / 2
	pks := mkrlwe.NewPublicKeyKeySet()
	passed := 0
	passer := func(i int) string { // a name never used before
		passed++
		return fmt.Sprint("passer-by ", passed)
	}
	cp := func(s *mkrlwe.SwitchingKey) *mkrlwe.SwitchingKey {
		r := &mkrlwe.SwitchingKey{}
		for _, v := range s.Value {
			r.Value = append(r.Value, v.CopyNew())
		}
		return r
	}
	cp3 := func(s [3]*mkrlwe.SwitchingKey) [3]*mkrlwe.SwitchingKey {
		return [3]*mkrlwe.SwitchingKey{cp(s[0]), cp(s[1]), cp(s[2])}
	}
	type call struct {
		name string
		f    func(i int)
	}
	a := func() *mkckks.Ciphertext { return a0.CopyNew() }
	b := func() *mkckks.Ciphertext { return b0.CopyNew() }
	pk := ps[0].PK
	calls := []call{
		{"AddNew", func(i int) { ev.AddNew(a(), b()) }},
		{"SubNew", func(i int) { x := b(); x.Scale *= 4; ev.SubNew(a(), x) }},
		{"MulRelinNew", func(i int) { ev.MulRelinNew(a(), b(), rlk) }},
		{"RotateNew", func(i int) { ev.RotateNew(a(), i%h, rtk) }},
		{"ConjugateNew", func(i int) { ev.ConjugateNew(a(), cjk) }},
		{"HoistedForm", func(i int) { x := a(); ev.HoistedForm(x) }},
		{"MulRelinHoistedNew", func(i int) { x, y := a(), b(); ev.MulRelinHoistedNew(x, y, ev.HoistedForm(x), ev.HoistedForm(y), rlk) }},
		{"RotateHoistedNew", func(i int) { x := a(); ev.RotateHoistedNew(x, 1<<(i%(w.LogN-1)), ev.HoistedForm(x), rtk) }},
		{"MulPtxtNew", func(i int) { ev.MulPtxtNew(a(), pt) }},
		{"MultByConst", func(i int) { x := a(); ev.MultByConst(x, []float64{2, 0.3}[i%2], x) }},
		{"DropLevelNew", func(i int) { ev.DropLevelNew(a(), i%(L+1)) }},
		{"Rescale", func(i int) {
			x := a()
			x.Scale *= x.Scale
			if L > 0 {
				if _, err := ev.RescaleNew(x, w.P.Scale()); err != nil {
					panic(err)
				}
			}
		}},
		{"EncryptMsgNew", func(i int) { enc.EncryptMsgNew(msgOf(append([]complex128{}, v...)), pk) }},
		{"EncodeMsgNew", func(i int) { enc.EncodeMsgNew(msgOf(append([]complex128{}, v...))) }},
		{"Decrypt", func(i int) { dec.Decrypt(a(), sks) }},
		{"PartialDecrypt", func(i int) { x := a(); dec.PartialDecrypt(x, ps[0].SK); dec.PartialDecrypt(x, ps[1].SK) }},
		{"key pairs", func(i int) { kg.GenKeyPair("p"); kg.GenSecretKeyGaussian("p"); kg.GenSecretKeySparse(h/2, "p") }},
		{"evaluation keys", func(i int) {
			switch i % 3 {
			case 0:
				kg.GenRelinearizationKey(ps[0].SK, ps[0].R)
			case 1:
				kg.GenRotationKey(1, ps[0].SK)
			default:
				kg.GenConjugationKey(ps[0].SK)
			}
		}},
		{"key stores", func(i int) {
			rlk.AddRelinearizationKey(c.Rlk(w, ps[0]))
			rtk.DelRotationKey(ps[0].ID, 1)
			rtk.AddRotationKey(c.Rtk(w, ps[0], 1))
			cjk.DelConjugationKey(ps[1].ID)
			cjk.AddConjugationKey(c.Cjk(w, ps[1]))
			sks.AddSecretKey(ps[1].SK.CopyNew())
		}},
		{"new instances", func(i int) {
			switch i % 6 {
			case 0:
				mkckks.NewEvaluator(w.P)
			case 1:
				mkckks.NewEncryptor(w.P)
			case 2:
				mkckks.NewDecryptor(w.P)
			case 3:
				mkckks.NewKeyGenerator(w.P)
			case 4:
				mkrlwe.NewKeySwitcher(w.P.Parameters)
			default:
				mkrlwe.NewFastBasisExtender(w.P.RingQ(), w.P.RingP()).ShallowCopy()
			}
		}},
		{"new parameters", func(i int) {
			P := mkckks.NewParameters(mkCKKS(w.Cfg))
			P.AddCRS(3)
			// and a life on them
			kg := mkckks.NewKeyGenerator(P)
			sk, pk := kg.GenKeyPair("p")
			sks, rlk, rtk, cjk := mkrlwe.NewSecretKeySet(), mkrlwe.NewRelinearizationKeyKeySet(P.Parameters), mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
			sks.AddSecretKey(sk)
			rlk.AddRelinearizationKey(kg.GenRelinearizationKey(sk, kg.GenSecretKey("p")))
			rtk.AddRotationKey(kg.GenRotationKey(1, sk))
			cjk.AddConjugationKey(kg.GenConjugationKey(sk))
			ev := mkckks.NewEvaluator(P)
			x := mkckks.NewEncryptor(P).EncryptMsgNew(msgOf(append([]complex128{}, v...)), pk)
			y := ev.MulRelinNew(x, x, rlk)
			y = ev.ConjugateNew(ev.RotateNew(y, 1, rtk), cjk)
			ev.RotateHoistedNew(x, 1, ev.HoistedForm(x), rtk)
			mkckks.NewDecryptor(P).Decrypt(ev.AddNew(x, y), sks)
			mkrlwe.NewFastBasisExtender(P.RingQ(), P.RingP()).ShallowCopy()
		}},
		{"ciphertexts", func(i int) {
			x := a()
			ids := idsOf(ps)
			ids.Add("another")
			x.PadCiphertext(ids)
			mkckks.NewCiphertext(w.P, ids, L, 1).CopyNew()
			x.IDSet().Union(ids).Intersection(ids).CopyNew()
		}},
		{"decomposition", func(i int) {
			d := mkrlwe.NewSwitchingKey(w.P.Parameters)
			x := a0.Value["0"].CopyNew()
			ks.Decompose(L, x, d)
			ks.ExternalProduct(L, x, d, w.P.RingQ().NewPoly())
		}},
		{"basis extension", func(i int) {
			q, p := a0.Value["0"].CopyNew(), w.P.RingP().NewPoly()
			ext.ModUpQtoP(L, len(w.P.RingP().Modulus)-1, q, p)
			ext.ModDownQPtoQ(L, len(w.P.RingP().Modulus)-1, q, p, q)
		}},
		{"calls for parties who come and go", func(i int) {
			// the same operands and keys under a name never seen before
			name := passer(i)
			x := a()
			x.Value[name] = x.Value[pk.ID]
			delete(x.Value, pk.ID)
			rl := mkrlwe.NewRelinearizationKeyKeySet(w.P.Parameters)
			rl.AddRelinearizationKey(&mkrlwe.RelinearizationKey{Value: cp3(c.Rlk(w, ps[0]).Value), ID: name})
			rl.AddRelinearizationKey(c.Rlk(w, ps[1]))
			ro, co, so := mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet(), mkrlwe.NewSecretKeySet()
			ro.AddRotationKey(&mkrlwe.RotationKey{Value: cp(c.Rtk(w, ps[0], 1).Value), ID: name, RotIdx: 1})
			ro.AddRotationKey(c.Rtk(w, ps[1], 1))
			co.AddConjugationKey(&mkrlwe.ConjugationKey{Value: cp(c.Cjk(w, ps[0]).Value), ID: name})
			co.AddConjugationKey(c.Cjk(w, ps[1]))
			sk := ps[0].SK.CopyNew()
			sk.ID = name
			so.AddSecretKey(sk)
			so.AddSecretKey(ps[1].SK)
			y := a()
			y.Scale *= 8
			y.Value[name] = y.Value[pk.ID]
			delete(y.Value, pk.ID)
			ev.AddNew(x, y)
			ev.SubNew(y, x)
			ev.MulRelinNew(x, ev.AddNew(x, y), rl)
			ev.RotateNew(x, 1, ro)
			ev.RotateHoistedNew(x, 1, ev.HoistedForm(x), ro)
			ev.ConjugateNew(x, co)
			ev.MulPtxtNew(x, pt)
			p2 := ps[0].PK.CopyNew()
			p2.ID = name
			enc.EncryptMsgNew(msgOf(v), p2)
			kg.GenPublicKey(sk)
			dec.Decrypt(x, so)
		}},
		{"keys of parties who come and go", func(i int) {
			name := passer(i)
			rlk.AddRelinearizationKey(&mkrlwe.RelinearizationKey{Value: cp3(c.Rlk(w, ps[0]).Value), ID: name})
			rlk.DelRelinearizationKey(name)
			rtk.AddRotationKey(&mkrlwe.RotationKey{Value: cp(c.Rtk(w, ps[0], 1).Value), ID: name, RotIdx: 1})
			rtk.DelRotationKey(name, 1)
			cjk.AddConjugationKey(&mkrlwe.ConjugationKey{Value: cp(c.Cjk(w, ps[0]).Value), ID: name})
			cjk.DelConjugationKey(name)
			sk := ps[0].SK.CopyNew()
			sk.ID = name
			sks.AddSecretKey(sk)
			sks.DelSecretKey(name)
			p2 := ps[0].PK.CopyNew()
			p2.ID = name
			pks.AddPublicKey(p2)
			pks.DelPublicKey(name)
		}},
	}
	if len(calls) != memKinds {
		panic("memKinds")
	}
	k := calls[c.Case%len(calls)]
	for _, p := range ps { // everything there is to be cached is there
		for i := 1; i < h; i *= 2 {
			c.Rtk(w, p, i)
		}
	}
	n := 240
	if k.name == "new parameters" {
		n = 40
	}
	heap := func() (uint64, int) {
		var m runtime.MemStats
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&m)
		return m.HeapAlloc, runtime.NumGoroutine()
	}
	stretch := func() (int64, int) {
		h0, g0 := heap()
		for i := 0; i < n; i++ {
			k.f(i)
		}
		h1, g1 := heap()
		c.Event("stretch")
		return int64(h1) - int64(h0), g1 - g0
	}
	for i := 0; i < h && i < 128 && i < n/2; i++ { // every kind of operand once
		k.f(i)
	}
	m0, g0 := stretch()
	m1, g1 := stretch()
	m2, g2 := stretch()
	c.Logf("%s: the reachable memory grows by %d, %d, %d bytes, the goroutines by %d, %d, %d in %d calls", k.name, m0, m1, m2, g0, g1, g2, n)
	lim := int64(n) * 48
	c.Ratio("growth", float64(min(m0, m1, m2))/float64(lim))
	c.Check(m0 <= lim || m1 <= lim || m2 <= lim, "memory-growth", "%d times %s keep %d, %d and %d bytes of memory alive", n, k.name, m0, m1, m2)
	c.Check(g0 < n/20 || g1 < n/20 || g2 < n/20, "goroutine-growth", "%d times %s keep %d goroutines alive", n, k.name, g2)
	c.State("%s|%s|%s", w.Name, k.name, names(ps))
	runtime.KeepAlive([]interface{}{ev, enc, dec, kg, ks, ext, rlk, rtk, cjk, sks, pks, a0, b0, pt})
}
