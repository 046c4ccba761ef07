package verifharness

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"math/cmplx"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

func init() {
	Register(&Prop{
		ID:        "C24",
		Rule:      "case = parameter set x 4 to 6 goroutines, each with its own evaluator, encryptor, decryptor and key generator, on shared parameters, keys, key sets, ciphertexts, plaintexts and hoisted forms, under the race detector with random yields; results compared with the sequential ones; non-trivial when distinct by the interleaving of operations seen (order of start times)",
		Cases:     tiers(72, 700),
		MinEvents: []string{"concurrent-op", "overlap", "concurrent-keygen", "concurrent-encrypt", "cold-start", "cold-op", "shallow-copy"},
		Run:       runConcurrent,
	})
	Register(&Prop{
		ID:        "C25",
		Rule:      "case = one of the other workloads (programs, decomposition, basis extension, key switching, key generation, encryption), run under the address sanitizer with pointer-conversion checks, or the same low-level calls on rows with guard words on both sides; non-trivial when distinct by (workload, parameter set, guarded call)",
		Cases:     tiers(96, 1200),
		MinEvents: []string{"sanitized", "guarded-call"},
		Run:       runMemory,
	})
	Register(&Prop{
		ID:        "C26",
		Rule:      "case = random sequence of 120 additions, replacements, removals and look-ups on one store, mirrored on a model; non-trivial when distinct by (store, operation, whether the key was present)",
		Cases:     tiers(2100, 27000),
		MinEvents: []string{"idset", "secret-store", "public-store", "relin-store", "rotation-store", "conj-store", "refused", "handed-out"},
		Run:       runStores,
	})
	Register(&Prop{
		ID:        "C27",
		Rule:      "case = parameter set x object (ciphertext of either layer and domain, level, party count; keys; party set) copied, padded or created, then both sides overwritten in turn; non-trivial when distinct by (object, set, level, party count, domain)",
		Cases:     tiers(1500, 18000),
		MinEvents: []string{"copy", "copy-into", "pad", "new", "key-copy"},
		Run:       runCopies,
	})
	Register(&Prop{
		ID:        "C31",
		Rule:      "case = random input of each numeric helper, compared with big-number references; non-trivial when distinct by (helper, size)",
		Cases:     tiers(2400, 30000),
		MinEvents: []string{"deviation", "bit-reverse", "rescaling-params"},
		Run:       runUtils,
	})
	Register(&Prop{
		ID:        "C32",
		Rule:      "case = parameter set x gamma; every accessor and every shape derived from it against the declared set; non-trivial when distinct by (set, gamma)",
		Cases:     tiers(480, 4800),
		MinEvents: []string{"accessors"},
		Run:       runParams,
	})
	Register(&Prop{
		ID:        "C33",
		Rule:      "case = parameter set x refused call (missing evaluation key of one party, missing reference string, foreign output, too low an output level, too many dropped levels, bad rescaling target) followed by valid work on the same instances; non-trivial when distinct by (set, kind of refusal, party counts)",
		Cases:     tiers(1200, 15000),
		MinEvents: []string{"refused", "usable-after", "misfit"},
		Run:       runRefusals,
	})
}

// ---- concurrency ---------------------------------------------------------

type concRes struct {
	at, end time.Time
	name    string
	ct      *mkckks.Ciphertext
	msg     []complex128
	err     string
}

var coldDone = map[string]bool{}

// coldStart lets goroutines be the first in the process to do anything with a
// parameter set, so that tables which are filled on first use are filled by several
// at once. They share nothing but the parameters.
func (c *Ctx) coldStart(cfg Cfg) {
	if coldDone[cfg.Name] {
		return
	}
	coldDone[cfg.Name] = true
	ck := mkCKKS(cfg)
	P := mkckks.NewParameters(ck)
	w := &World{Cfg: cfg, CK: ck, P: P, N: 1 << cfg.LogN, Slots: 1 << cfg.LogSlots}
	w.setDigits(2)
	const G = 4
	type result struct {
		err  string
		got  [][]complex128
		want [][]complex128
		name []string
		ct   []*mkckks.Ciphertext
	}
	res := make([]result, G)
	vals := make([][]complex128, G)
	for g := range vals {
		vals[g] = make([]complex128, w.Slots)
		for i := range vals[g] {
			vals[g][i] = complex(c.R.Float64()-0.5, c.R.Float64()-0.5)
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			defer func() {
				if e := recover(); e != nil {
					res[g].err = fmt.Sprint(e)
				}
			}()
			kg := mkckks.NewKeyGenerator(P)
			sk, pk := kg.GenKeyPair("x")
			sks := mkrlwe.NewSecretKeySet()
			sks.AddSecretKey(sk)
			rlk := mkrlwe.NewRelinearizationKeyKeySet(P.Parameters)
			rlk.AddRelinearizationKey(kg.GenRelinearizationKey(sk, kg.GenSecretKeySparse(w.N/4, "x")))
			cjk := mkrlwe.NewConjugationKeySet()
			cjk.AddConjugationKey(kg.GenConjugationKey(sk))
			rtk := mkrlwe.NewRotationKeySet()
			kg.GenDefaultRotationKeys(sk, rtk)
			enc := mkckks.NewEncryptor(P)
			dec := mkckks.NewDecryptor(P)
			ev := mkckks.NewEvaluator(P)
			v := vals[g]
			x := enc.EncryptMsgNew(msgOf(v), pk)
			put := func(name string, ct *mkckks.Ciphertext, f func(i int) complex128) {
				want := make([]complex128, len(v))
				for i := range v {
					want[i] = f(i)
				}
				r := &res[g]
				r.name = append(r.name, name)
				r.ct = append(r.ct, ct)
				r.want = append(r.want, want)
				r.got = append(r.got, dec.Decrypt(ct, sks).Value)
			}
			put("EncryptMsgNew", x, func(i int) complex128 { return v[i] })
			put("ConjugateNew", ev.ConjugateNew(x, cjk), func(i int) complex128 { return cmplx.Conj(v[i]) })
			s := w.N / 2
			if w.Slots == s {
				put("RotateNew", ev.RotateNew(x, 3, rtk), func(i int) complex128 { return v[(i+3)%s] })
				put("RotateHoistedNew", ev.RotateHoistedNew(x, 2, ev.HoistedForm(x), rtk), func(i int) complex128 { return v[(i+2)%s] })
			}
			put("AddNew", ev.AddNew(x, x), func(i int) complex128 { return 2 * v[i] })
			put("MulRelinNew", ev.MulRelinNew(x, x, rlk), func(i int) complex128 { return v[i] * v[i] })
			put("MulPtxtNew", ev.MulPtxtNew(x, enc.EncodeMsgNew(msgOf(v))), func(i int) complex128 { return v[i] * v[i] })
			y := x.CopyNew()
			ev.MultByConst(y, complex(0, 0.5), y)
			put("MultByConst", y, func(i int) complex128 { return complex(0, 0.5) * v[i] })
		}(g)
	}
	close(start)
	wg.Wait()
	for g := range res {
		r := res[g]
		c.Check(r.err == "", "panic", "first use by %d goroutines: %s", G, r.err)
		for k := range r.name {
			l := r.ct[k].Level()
			// loose: a wrong table gives values of the size of the modulus
			if w.modQ(l) < math.Exp2(16)*r.ct[k].Scale*math.Sqrt(float64(w.N)) || r.ct[k].Scale < math.Exp2(25) {
				continue
			}
			d := maxDiff(r.got[k], r.want[k])
			c.Check(d <= 1e-1, "concurrent-differs", "%s as first use by %d goroutines is %.3g off", r.name[k], G, d)
			c.Event("cold-op")
		}
	}
	c.Event("cold-start")
	c.State("cold|%s", cfg.Name)
}

// copiesOfExtender has goroutines divide and extend at once, each with its own
// shallow copy of one basis extender.
func (c *Ctx) copiesOfExtender(w *World) {
	rQ, rP := w.P.RingQ(), w.P.RingP()
	be := mkrlwe.NewFastBasisExtender(rQ, rP)
	const G, rounds = 4, 6
	type job struct {
		lQ, lP int
		q, p   *ring.Poly
	}
	run := func(e *mkrlwe.FastBasisExtender, j job) [4]uint64 {
		a, b, d, u := rQ.NewPoly(), rQ.NewPoly(), rP.NewPoly(), rP.NewPoly()
		e.ModUpQtoP(j.lQ, j.lP, j.q, u)
		e.ModDownQPtoQ(j.lQ, j.lP, j.q, clonePoly(j.p), a)
		e.ModDownQPtoQNTT(j.lQ, j.lP, j.q, clonePoly(j.p), b)
		e.ModDownQPtoP(j.lQ, j.lP, j.q, j.p, d)
		return [4]uint64{polyHash(u), polyHash(a), polyHash(b), polyHash(d)}
	}
	jobs := make([][]job, G)
	want := make([][][4]uint64, G)
	got := make([][][4]uint64, G)
	errs := make([]string, G)
	for g := range jobs {
		for i := 0; i < rounds; i++ {
			j := job{lQ: c.R.IntN(len(rQ.Modulus)), lP: c.R.IntN(len(rP.Modulus))}
			j.q, _ = c.hardPoly(rQ, j.lQ)
			j.p, _ = c.hardPoly(rP, j.lP)
			jobs[g] = append(jobs[g], j)
			want[g] = append(want[g], run(mkrlwe.NewFastBasisExtender(rQ, rP), j))
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < G; g++ {
		wg.Add(1)
		e := be
		if g > 0 {
			e = be.ShallowCopy()
		}
		go func(g int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					errs[g] = fmt.Sprint(e)
				}
			}()
			<-start
			for _, j := range jobs[g] {
				got[g] = append(got[g], run(e, j))
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for g := range got {
		c.Check(errs[g] == "", "panic", "shallow copies of a basis extender in %d goroutines: %s", G, errs[g])
		for i := range got[g] {
			c.Check(got[g][i] == want[g][i], "concurrent-differs", "a shallow copy of a basis extender among %d goroutines converts otherwise than alone (levels %d, %d)", G, jobs[g][i].lQ, jobs[g][i].lP)
			c.Event("shallow-copy")
		}
	}
}

func runConcurrent(c *Ctx) {
	cfgs := []Cfg{smallCfgs[0], smallCfgs[1], smallCfgs[5], smallCfgs[6], smallCfgs[10], smallCfgs[3], smallCfgs[12], smallCfgs[18]}
	cfg := cfgs[(c.Case+c.Case/len(cfgs))%len(cfgs)]
	c.coldStart(cfg)
	w := c.World(cfg)
	c.copiesOfExtender(w)
	ps := c.everyone(w, 3)
	L := w.P.MaxLevel()
	rlk, rtk, cjk, sks := c.RlkSet(w, ps...), c.RtkSet(w, ps...), c.CjkSet(w, ps...), c.SkSet(ps...)
	enc0 := mkckks.NewEncryptor(w.P)
	var cts []*mkckks.Ciphertext
	for i := 0; i < 4; i++ {
		sel := c.randParties(w, 3, 3)
		l := L
		if i == 3 {
			l = c.R.IntN(L + 1)
		}
		s := math.Min(w.P.Scale(), math.Sqrt(w.modQ(l))/(64*math.Sqrt(float64(w.N))))
		cts = append(cts, c.operand(w, nil, sel, l, s, 1).ct)
	}
	v, _ := randMsg(c.R, w.Slots, 1)
	msg := msgOf(v)
	pt := enc0.EncodeMsgNew(msg)
	ev0 := mkckks.NewEvaluator(w.P)
	hoisted := make([]*mkrlwe.HoistedCiphertext, len(cts))
	for i := range cts {
		hoisted[i] = ev0.HoistedForm(cts[i])
	}
	type op struct {
		name string
		run  func(ev *mkckks.Evaluator) *mkckks.Ciphertext
		want *mkckks.Ciphertext
	}
	var ops []op
	for i := 0; i < 14; i++ {
		a, b := c.R.IntN(len(cts)), c.R.IntN(len(cts))
		k := 1 << c.R.IntN(w.LogN-1)
		kk := c.R.IntN(w.N) - w.N/2
		var o op
		switch c.R.IntN(10) {
		case 0:
			o = op{"Add", func(ev *mkckks.Evaluator) *mkckks.Ciphertext { return ev.AddNew(cts[a], cts[b]) }, nil}
		case 1:
			o = op{"Sub", func(ev *mkckks.Evaluator) *mkckks.Ciphertext { return ev.SubNew(cts[a], cts[b]) }, nil}
		case 2, 3:
			o = op{"Mul", func(ev *mkckks.Evaluator) *mkckks.Ciphertext { return ev.MulRelinNew(cts[a], cts[b], rlk) }, nil}
		case 4:
			o = op{"MulHoisted", func(ev *mkckks.Evaluator) *mkckks.Ciphertext {
				return ev.MulRelinHoistedNew(cts[a], cts[b], hoisted[a], hoisted[b], rlk)
			}, nil}
		case 5:
			o = op{"Rotate", func(ev *mkckks.Evaluator) *mkckks.Ciphertext { return ev.RotateNew(cts[a], kk, rtk) }, nil}
		case 6:
			o = op{"RotateHoisted", func(ev *mkckks.Evaluator) *mkckks.Ciphertext {
				return ev.RotateHoistedNew(cts[a], k, hoisted[a], rtk)
			}, nil}
		case 7:
			o = op{"Conjugate", func(ev *mkckks.Evaluator) *mkckks.Ciphertext { return ev.ConjugateNew(cts[a], cjk) }, nil}
		case 8:
			o = op{"MulPtxt", func(ev *mkckks.Evaluator) *mkckks.Ciphertext { return ev.MulPtxtNew(cts[a], pt) }, nil}
		default:
			o = op{"Rescale", func(ev *mkckks.Evaluator) *mkckks.Ciphertext {
				x := ev.DropLevelNew(cts[a], 0)
				ev.MultByConst(x, 3, x)
				y, err := ev.RescaleNew(x, 1)
				if err != nil {
					return x
				}
				return y
			}, nil}
		}
		o.want = o.run(mkckks.NewEvaluator(w.P))
		ops = append(ops, o)
	}
	wantMsg := make([][]complex128, len(cts))
	for i := range cts {
		wantMsg[i] = mkckks.NewDecryptor(w.P).Decrypt(cts[i], sks).Value
	}
	before := uint64(0)
	for i := range cts {
		before += ctHash(cts[i]) + hoistHash(hoisted[i])
	}
	before += ptHash(pt) + crsHash(w.P.Parameters)

	// no call into the harness from the goroutines: its locks would order them
	G := 4 + c.R.IntN(3)
	res := make([][]concRes, G)
	fresh := make([][]*mkckks.Ciphertext, G)
	type pair struct {
		sk *mkrlwe.SecretKey
		pk *mkrlwe.PublicKey
	}
	pairs := make([]pair, G)
	plans := make([][]int, G)
	delays := make([][]int, G)
	for g := range plans {
		plans[g] = c.R.Perm(len(ops))
		for range ops {
			delays[g] = append(delays[g], c.R.IntN(6))
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			defer func() {
				if e := recover(); e != nil {
					res[g] = append(res[g], concRes{err: fmt.Sprint(e)})
				}
			}()
			ev := mkckks.NewEvaluator(w.P)
			enc := mkckks.NewEncryptor(w.P)
			dec := mkckks.NewDecryptor(w.P)
			for n, i := range plans[g] {
				switch delays[g][n] {
				case 0:
					runtime.Gosched()
				case 1:
					time.Sleep(time.Microsecond)
				}
				t := time.Now()
				ct := ops[i].run(ev)
				res[g] = append(res[g], concRes{at: t, end: time.Now(), name: ops[i].name, ct: ct})
				if n%4 == g%4 {
					j := (n + g) % len(cts)
					t = time.Now()
					m := dec.Decrypt(cts[j], sks).Value
					res[g] = append(res[g], concRes{at: t, end: time.Now(), name: fmt.Sprintf("Decrypt%d", j), msg: m})
				}
				if n%5 == g%5 {
					fresh[g] = append(fresh[g], enc.EncryptMsgNew(msg, ps[g%3].PK))
				}
			}
			kg := mkckks.NewKeyGenerator(w.P)
			pairs[g].sk, pairs[g].pk = kg.GenKeyPair("x")
			kg.GenRelinearizationKey(pairs[g].sk, ps[0].R)
			kg.GenRotationKey(1, pairs[g].sk)
			kg.GenConjugationKey(pairs[g].sk)
		}(g)
	}
	close(start)
	wg.Wait()

	type stamp struct {
		at time.Time
		g  int
		n  string
	}
	var order []stamp
	for g := range res {
		for _, r := range res[g] {
			c.Check(r.err == "", "panic", "goroutine %d of %d: %s", g, G, r.err)
			order = append(order, stamp{r.at, g, r.name})
		}
		n := 0
		for _, r := range res[g] {
			if r.msg != nil {
				var j int
				fmt.Sscanf(r.name, "Decrypt%d", &j)
				d := maxDiff(r.msg, wantMsg[j])
				c.Check(d <= 1e-6*(1+maxAbs(wantMsg[j])), "concurrent-differs", "decryption among %d goroutines is %.3g off the sequential one", G, d)
				continue
			}
			o := ops[plans[g][n]]
			n++
			ok, why := w.valEq(r.ct, o.want)
			c.Check(ok, "concurrent-differs", "%s among %d goroutines differs from the sequential result: %s", o.name, G, why)
			c.Event("concurrent-op")
		}
		for h := range res {
			if h == g {
				continue
			}
			for _, r := range res[g] {
				for _, s := range res[h] {
					if r.at.Before(s.end) && s.at.Before(r.end) {
						c.State("pair|%s|%s|%s", w.Name, r.name, s.name)
						c.Event("overlap")
					}
				}
			}
		}
		for _, ct := range fresh[g] {
			p := ps[g%3]
			d := w.diffNorm(L, w.phase(c, ct), w.encode(v, L, w.P.Scale()))
			c.Check(d <= w.freshBound(p.ID), "concurrent-differs", "an encryption among %d goroutines is %.3g off, allowed %.3g", G, d, w.freshBound(p.ID))
			c.Event("concurrent-encrypt")
		}
		c.pkError(w, "public key generated among goroutines", pairs[g].pk, pairs[g].sk)
		c.Event("concurrent-keygen")
	}
	after := uint64(0)
	for i := range cts {
		after += ctHash(cts[i]) + hoistHash(hoisted[i])
	}
	after += ptHash(pt) + crsHash(w.P.Parameters)
	c.Check(before == after, "operand-changed", "concurrent work changed a shared operand")
	sort.Slice(order, func(i, j int) bool { return order[i].at.Before(order[j].at) })
	var sig strings.Builder
	for _, s := range order {
		fmt.Fprintf(&sig, "%d%s", s.g, s.n[:1])
	}
	c.State("order|%s", sig.String())
	c.Logf("%s %d goroutines order %.200s", w.Name, G, sig.String())
}

// ---- memory --------------------------------------------------------------

// guarded is a polynomial whose rows have guard words on both sides.
type guarded struct {
	p    *ring.Poly
	back [][]uint64
}

const guardWords = 16
const guardValue = 0xdeadbeefcafef00d

func guard(p *ring.Poly) *guarded {
	g := &guarded{p: &ring.Poly{IsNTT: p.IsNTT, IsMForm: p.IsMForm}}
	for _, r := range p.Coeffs {
		b := make([]uint64, len(r)+2*guardWords)
		for i := range b {
			b[i] = guardValue
		}
		copy(b[guardWords:], r)
		g.back = append(g.back, b)
		g.p.Coeffs = append(g.p.Coeffs, b[guardWords:guardWords+len(r):guardWords+len(r)])
	}
	return g
}

func (g *guarded) check(c *Ctx, what string) {
	for j, b := range g.back {
		n := len(b) - 2*guardWords
		for i := 0; i < guardWords; i++ {
			c.Check(b[i] == guardValue && b[guardWords+n+i] == guardValue, "out-of-bounds", "%s wrote outside row %d of its polynomial", what, j)
		}
	}
}

// quiet runs a workload for its memory accesses only: what its oracles find is
// other properties' business.
func (c *Ctx) quiet(f func(*Ctx)) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(violationPanic); ok {
				c.Event("functional-mismatch")
				return
			}
			panic(e)
		}
	}()
	f(c)
}

func runMemory(c *Ctx) {
	type wl struct {
		name string
		f    func(*Ctx)
	}
	wls := []wl{{"decompose", runDecompose}, {"basis", runBasis}, {"keyswitch", runKeySwitch}, {"meta", runMeta},
		{"encdec", runEncDec}, {"rotate", runRotate}, {"rescale", runRescale}, {"evalkeys", runEvalKeys},
		{"hoisted", runHoisted}, {"partial", runPartial}, {"encrandom", runEncRandom}}
	x := wls[c.Case%len(wls)]
	// walk through the parameter sets for each workload
	saved := c.Case
	c.Case = c.Case/len(wls) + c.Case
	if c.Case%10 == 9 { // a small ring
		c.Case++
	}
	c.quiet(x.f)
	cfg := smallCfgs[c.Case%len(smallCfgs)]
	c.Case = saved
	c.State("%s|%s", x.name, cfg.Name)
	c.Event("sanitized")
	if c.Case%2 == 0 {
		runGuarded(c, cfg)
	}
}

// runGuarded runs the calls that work on rows eight words at a time, and the
// evaluator's, on guarded polynomials.
func runGuarded(c *Ctx, cfg Cfg) {
	w := c.World(cfg)
	rQ, rP := w.P.RingQ(), w.P.RingP()
	L, lP := w.P.MaxLevel(), len(rP.Modulus)-1
	lv := c.R.IntN(L + 1)
	q, _ := c.hardPoly(rQ, lv)
	p, _ := c.hardPoly(rP, lP)
	call := func(name string, gs []*guarded, f func()) {
		f()
		for _, g := range gs {
			g.check(c, name)
		}
		c.Event("guarded-call")
		c.State("guarded|%s|%s|l%d", name, w.Name, lv)
	}
	newQ := func() *guarded { return guard(ring.NewPoly(w.N, lv+1)) }
	newP := func() *guarded { return guard(rP.NewPoly()) }
	be := mkrlwe.NewFastBasisExtender(rQ, rP)
	gq, gp, oq, op := guard(q), guard(p), newQ(), newP()
	call("ModUpQtoP", []*guarded{gq, op}, func() { be.ModUpQtoP(lv, lP, gq.p, op.p) })
	call("ModUpPtoQ", []*guarded{gp, oq}, func() { be.ModUpPtoQ(lP, lv, gp.p, oq.p) })
	call("ModDownQPtoQ", []*guarded{gq, gp, oq}, func() { be.ModDownQPtoQ(lv, lP, gq.p, gp.p, oq.p) })
	call("ModDownQPtoP", []*guarded{gq, gp, op}, func() { be.ModDownQPtoP(lv, lP, gq.p, gp.p, op.p) })
	call("ModDownQPtoQNTT", []*guarded{gq, gp, oq}, func() { be.ModDownQPtoQNTT(lv, lP, gq.p, gp.p, oq.p) })
	ks := mkrlwe.NewKeySwitcher(w.P.Parameters)
	ad := &mkrlwe.SwitchingKey{}
	var ags []*guarded
	for range mkrlwe.NewSwitchingKey(w.P.Parameters).Value {
		a, b := guard(rQ.NewPoly()), guard(rP.NewPoly())
		ags = append(ags, a, b)
		ad.Value = append(ad.Value, rlwe.PolyQP{Q: a.p, P: b.p})
	}
	gq = guard(q)
	call("Decompose", append(ags, gq), func() { ks.Decompose(lv, gq.p, ad) })
	out := newQ()
	call("ExternalProductHoisted", append(ags, out), func() { ks.ExternalProductHoisted(lv, ad, w.P.CRS[0], out.p) })
	call("ExternalProduct", []*guarded{gq, out}, func() { ks.ExternalProduct(lv, gq.p, w.P.CRS[0], out.p) })
	// whole ciphertexts
	ps := c.everyone(w, 2)
	gct := func(ct *mkckks.Ciphertext) (*mkckks.Ciphertext, []*guarded) {
		o := &mkckks.Ciphertext{Ciphertext: &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}, Scale: ct.Scale}
		var gs []*guarded
		for id, p := range ct.Value {
			g := guard(p)
			gs = append(gs, g)
			o.Value[id] = g.p
		}
		return o, gs
	}
	s := math.Min(w.P.Scale(), math.Sqrt(w.modQ(lv))/(64*math.Sqrt(float64(w.N))))
	a, ga := gct(c.operand(w, nil, ps, lv, s, 1).ct)
	b, gb := gct(c.operand(w, nil, ps[:1], lv, s, 1).ct)
	ab := append(ga, gb...)
	ev := mkckks.NewEvaluator(w.P)
	rlk, rtk, cjk := c.RlkSet(w, ps...), c.RtkSet(w, ps...), c.CjkSet(w, ps...)
	call("AddNew", ab, func() { ev.AddNew(a, b) })
	b.Scale *= 1000
	call("SubNew", ab, func() { ev.SubNew(a, b) })
	b.Scale = s
	call("MulRelinNew", ab, func() { ev.MulRelinNew(a, b, rlk) })
	call("RotateNew", ab, func() { ev.RotateNew(a, 1, rtk) })
	call("ConjugateNew", ab, func() { ev.ConjugateNew(a, cjk) })
	call("HoistedForm", ab, func() { ev.HoistedForm(a) })
	for _, k := range []interface{}{3, 0.5, complex(1, 1), complex(0.5, 2)} {
		o, go_ := gct(mkckks.NewCiphertext(w.P, a.IDSet(), lv, s))
		call("MultByConst", append(go_, ga...), func() { ev.MultByConst(a, k, o) })
		x, gx := gct(a)
		call("MultByConst-in-place", gx, func() { ev.MultByConst(x, k, x) })
	}
	if lv > 0 {
		o, go_ := gct(mkckks.NewCiphertext(w.P, a.IDSet(), lv, s))
		call("Rescale", append(go_, ga...), func() { ev.Rescale(a, 1, o) })
	}
	o, go_ := gct(mkckks.NewCiphertext(w.P, a.IDSet(), lv, s))
	enc := mkckks.NewEncryptor(w.P)
	v, _ := randMsg(c.R, w.Slots, 1)
	call("EncryptMsg", go_, func() { enc.EncryptMsg(msgOf(v), ps[0].PK, o) })
	call("Decrypt", ga, func() { mkckks.NewDecryptor(w.P).Decrypt(a, c.SkSet(ps...)) })
	call("PartialDecrypt", ga, func() { mkckks.NewDecryptor(w.P).PartialDecrypt(a, ps[0].SK) })
}

// ---- stores --------------------------------------------------------------

func runStores(c *Ctx) {
	w := c.World(smallCfgs[3])
	ids := append([]string{"0"}, hostileIDs...)
	if c.Case%4 == 1 { // a large population
		for i := 0; i < 50; i++ {
			ids = append(ids, fmt.Sprintf("user%d", i))
		}
	}
	steps := 120
	if c.Case%28 == 3 { // and a larger one still
		steps = 1500
		for i := 0; i < 400; i++ {
			ids = append(ids, fmt.Sprintf("user%d", i))
		}
		c.Event("hundreds-of-parties")
	}
	id := func() string { return ids[1+c.R.IntN(len(ids)-1)] }
	which := (c.Case + c.Case/12) % 6
	state := func(store, op string, present bool) { c.State("%s|%s|%v", store, op, present) }
	switch which {
	case 0:
		// party sets
		s, m := mkrlwe.NewIDSet(), map[string]bool{}
		t, n := mkrlwe.NewIDSet(), map[string]bool{}
		same := func(op string, s *mkrlwe.IDSet, m map[string]bool) {
			c.Check(s.Size() == len(m), "wrong-store", "after %s the set has size %d, expected %d", op, s.Size(), len(m))
			for _, x := range ids {
				c.Check(s.Has(x) == m[x], "wrong-store", "after %s Has(%q) is %v", op, x, s.Has(x))
			}
		}
		for i := 0; i < steps; i++ {
			x := id()
			if c.R.IntN(3) == 0 {
				s, t, m, n = t, s, n, m
			}
			op := ""
			switch c.R.IntN(8) {
			case 0, 1, 2:
				op = "Add"
				s.Add(x)
				m[x] = true
			case 3:
				op = "Remove"
				s.Remove(x)
				delete(m, x)
			case 4:
				op = "Add 0"
				c.Check(catch(func() { s.Add("0") }) != nil, "not-refused", "the reserved name is accepted as a party")
				c.Event("refused")
			case 5:
				op = "Union"
				u := s.Union(t)
				um := map[string]bool{}
				for k := range m {
					um[k] = true
				}
				for k := range n {
					um[k] = true
				}
				same(op, u, um)
				u.Add("fresh")
				u.Remove(x)
			case 6:
				op = "Intersection"
				u := s.Intersection(t)
				um := map[string]bool{}
				for k := range m {
					if n[k] {
						um[k] = true
					}
				}
				same(op, u, um)
				u.Add("fresh")
				u.Remove(x)
			case 7:
				op = "CopyNew"
				u := s.CopyNew()
				same(op, u, m)
				u.Add("fresh")
				u.Remove(x)
			}
			same(op, s, m)
			same(op+" (other set)", t, n)
			c.Check(!s.Has("fresh") && !t.Has("fresh"), "aliasing", "%s shares its result with its operand", op)
			state("idset", op, m[x])
			c.Event("idset")
		}
	case 1:
		s, m := mkrlwe.NewSecretKeySet(), map[string]*mkrlwe.SecretKey{}
		c.storeModel(steps, "secret-store", id, func(x string) {
			k := mkrlwe.NewSecretKey(w.P.Parameters, x)
			s.AddSecretKey(k)
			m[x] = k
		}, func(x string) { s.DelSecretKey(x); delete(m, x) },
			func(x string) bool { return s.GetSecretKey(x) == m[x] }, func(x string) bool { return m[x] != nil },
			func() bool { return len(s.Value) == len(m) })
	case 2:
		s, m := mkrlwe.NewPublicKeyKeySet(), map[string]*mkrlwe.PublicKey{}
		c.storeModel(steps, "public-store", id, func(x string) {
			k := mkrlwe.NewPublicKey(w.P.Parameters, x)
			s.AddPublicKey(k)
			m[x] = k
		}, func(x string) { s.DelPublicKey(x); delete(m, x) },
			func(x string) bool { return s.GetPublicKey(x) == m[x] }, func(x string) bool { return m[x] != nil },
			func() bool { return len(s.Value) == len(m) })
	case 3:
		s, m := mkrlwe.NewRelinearizationKeyKeySet(w.P.Parameters), map[string]*mkrlwe.RelinearizationKey{}
		c.storeModel(steps, "relin-store", id, func(x string) {
			k := mkrlwe.NewRelinearizationKey(w.P.Parameters, x)
			s.AddRelinearizationKey(k)
			m[x] = k
		}, func(x string) { s.DelRelinearizationKey(x); delete(m, x) },
			func(x string) bool { return s.GetRelinearizationKey(x) == m[x] }, func(x string) bool { return m[x] != nil },
			func() bool { return len(s.Value) == len(m) })
	case 4:
		s, m := mkrlwe.NewConjugationKeySet(), map[string]*mkrlwe.ConjugationKey{}
		c.storeModel(steps, "conj-store", id, func(x string) {
			k := mkrlwe.NewConjugationKey(w.P.Parameters, x)
			s.AddConjugationKey(k)
			m[x] = k
		}, func(x string) { s.DelConjugationKey(x); delete(m, x) },
			func(x string) bool { return s.GetConjugationKey(x) == m[x] }, func(x string) bool { return m[x] != nil },
			func() bool { return len(s.Value) == len(m) })
	default:
		s := mkrlwe.NewRotationKeySet()
		m := map[string]*mkrlwe.RotationKey{}
		idx := []uint{0, 1, 2, 3, 4, 7, 8, 1 << 20}
		if c.Case%2 == 0 { // many indexes, few parties
			for k := uint(9); k < 60; k++ {
				idx = append(idx, k)
			}
			two := []string{id(), id()}
			id = func() string { return two[c.R.IntN(2)] }
		}
		key := func(x string, k uint) string { return fmt.Sprintf("%s|%d", x, k) }
		for i := 0; i < steps; i++ {
			x, k := id(), idx[c.R.IntN(len(idx))]
			switch c.R.IntN(5) {
			case 0, 1:
				rk := mkrlwe.NewRotationKey(w.P.Parameters, k, x)
				c.Check(rk.ID == x && rk.RotIdx == k, "owner", "NewRotationKey(%d,%q) carries %q and %d", k, x, rk.ID, rk.RotIdx)
				s.AddRotationKey(rk)
				m[key(x, k)] = rk
			case 2:
				s.DelRotationKey(x, k)
				delete(m, key(x, k))
			default:
			}
			for j := 0; j < 4; j++ {
				y, l := id(), idx[c.R.IntN(len(idx))]
				want := m[key(y, l)]
				var got *mkrlwe.RotationKey
				e := catch(func() { got = s.GetRotationKey(y, l) })
				if want == nil {
					c.Check(e != nil, "not-refused", "the rotation key %d of %q is handed out although it is not there", l, y)
					c.Event("refused")
				} else {
					c.Check(e == nil && got == want, "wrong-store", "the rotation key %d of %q is not the one stored last", l, y)
				}
				state("rotation-store", "get", want != nil)
			}
			c.Event("rotation-store")
		}
	}
	c.Logf("store %d", which)
}

func (c *Ctx) storeModel(steps int, name string, id func() string, add, del func(string), get, has func(string) bool, size func() bool) {
	seen := map[string]bool{}
	look := func(y string) {
		same := false
		e := catch(func() { same = get(y) })
		if !has(y) {
			c.Check(e != nil, "not-refused", "%s: a key of %q is handed out although there is none", name, y)
			c.Event("refused")
			return
		}
		c.Check(e == nil, "wrong-store", "%s: the key of %q is there but refused: %v", name, y, e)
		c.Check(same, "wrong-store", "%s: the key of %q is not the one stored last", name, y)
		c.Event("handed-out")
	}
	for i := 0; i < steps; i++ {
		x := id()
		seen[x] = true
		op := "get"
		switch c.R.IntN(5) {
		case 0, 1:
			op = "add"
			add(x)
		case 2:
			op = "del"
			del(x)
		}
		look(x)
		look(id())
		look(id())
		if i%20 == 19 {
			for y := range seen {
				look(y)
			}
		}
		c.Check(size(), "wrong-store", "%s: after %s of %q the number of keys is wrong", name, op, x)
		c.Event(name)
		c.State("%s|%s|%s", name, op, x)
	}
}

// ---- copies --------------------------------------------------------------

func runCopies(c *Ctx) {
	w := c.World(c.stdCfg())
	P := w.P.Parameters
	ps := c.randParties(w, 6, 4)
	l := c.R.IntN(w.P.MaxLevel() + 1)
	ntt := c.R.IntN(2) == 0
	// creation
	idset := idsOf(ps)
	if c.R.IntN(4) == 0 {
		idset = mkrlwe.NewIDSet()
	}
	hid := fmt.Sprint(sortedIDs(idset))
	zero := func(name string, ct *mkrlwe.Ciphertext, ids *mkrlwe.IDSet, ntt bool) {
		c.Check(fmt.Sprint(sortedIDs(ct.IDSet())) == fmt.Sprint(sortedIDs(ids)) && len(ct.Value) == ids.Size()+1, "party-set", "%s made a ciphertext of %v", name, sortedIDs(ct.IDSet()))
		c.Check(ct.Level() == l, "level", "%s made a ciphertext of level %d, expected %d", name, ct.Level(), l)
		for id, p := range ct.Value {
			c.Check(len(p.Coeffs) == l+1 && p.IsNTT == ntt, "malformed-ciphertext", "%s: component %q has %d moduli, transformed=%v", name, id, len(p.Coeffs), p.IsNTT)
			for _, r := range p.Coeffs {
				c.Check(len(r) == w.N, "malformed-ciphertext", "%s: component %q has rows of %d", name, id, len(r))
				for _, x := range r {
					c.Check(x == 0, "malformed-ciphertext", "%s: component %q is not zero", name, id)
				}
			}
		}
	}
	zero("NewCiphertext", mkrlwe.NewCiphertext(P, idset, l), idset, false)
	zero("NewCiphertextNTT", mkrlwe.NewCiphertextNTT(P, idset, l), idset, true)
	sc := math.Exp2(60 * c.R.Float64())
	nc := mkckks.NewCiphertext(w.P, idset, l, sc)
	zero("mkckks.NewCiphertext", nc.Ciphertext, idset, false)
	c.Check(nc.Scale == sc && nc.ScalingFactor() == sc, "scale", "NewCiphertext has scale %g, expected %g", nc.Scale, sc)
	nc.SetScalingFactor(sc + 1)
	c.Check(nc.ScalingFactor() == sc+1 && nc.Scale == sc+1, "scale", "SetScalingFactor has no effect")
	c.Check(hid == fmt.Sprint(sortedIDs(idset)), "operand-changed", "NewCiphertext changed the party set")
	msg := mkckks.NewMessage(w.P)
	c.Check(len(msg.Value) == w.Slots && msg.Slots() == w.Slots && maxAbs(msg.Value) == 0, "slots", "NewMessage has %d slots", len(msg.Value))
	c.Event("new")

	// deep copies
	v, _ := randMsg(c.R, w.Slots, 1)
	s := math.Min(w.P.Scale(), w.modQ(l)/(256*math.Sqrt(float64(w.N))))
	x := w.craft(c, ps, v, l, s).ct
	if ntt {
		for _, p := range x.Value {
			w.P.RingQ().NTTLvl(l, p, p)
			p.IsNTT = true
		}
	}
	h := ctHash(x)
	y := x.CopyNew()
	c.Check(ctHash(y) == h && ctHash(x) == h, "copy-differs", "CopyNew is not a copy (transformed=%v, level %d)", ntt, l)
	scribble(y)
	y.Scale = 1
	for id := range y.Value {
		delete(y.Value, id)
	}
	c.Check(ctHash(x) == h, "aliasing", "overwriting a copy changes the original")
	z := x.Ciphertext.CopyNew()
	c.separate("CopyNew", z.Value)
	hr := hashRaw(z)
	c.Check(hr == hashRaw(x.Ciphertext), "copy-differs", "CopyNew of the generic layer is not a copy")
	keep := cloneDeep(x)
	scribble(x)
	c.Check(hashRaw(z) == hr, "aliasing", "overwriting the original changes a copy")
	x = keep
	c.Event("copy")
	c.State("ct|%s|l%d|%d|%v", w.Name, l, len(ps), ntt)
	c.Check(x.El() == x.Ciphertext, "copy-differs", "El is not the ciphertext itself")

	// copy into an existing ciphertext
	t := mkckks.NewCiphertext(w.P, idsOf(ps), l, 1)
	scribble(t)
	t.Ciphertext.Copy(x.Ciphertext)
	hx := hashRaw(x.Ciphertext)
	ok, why := w.valEq(&mkckks.Ciphertext{Ciphertext: t.Ciphertext, Scale: 1}, &mkckks.Ciphertext{Ciphertext: x.Ciphertext, Scale: 1})
	c.Check(ok, "copy-differs", "Copy does not copy: %s", why)
	scribble(t)
	c.Check(hashRaw(x.Ciphertext) == hx, "aliasing", "Copy shares memory with its source")
	c.Event("copy-into")

	// padding
	more := c.randParties(w, 7, 5)
	pad := cloneDeep(x)
	old := map[string]uint64{}
	for id, p := range pad.Value {
		old[id] = polyHash(p)
	}
	for i := 0; i < 2; i++ { // twice: the second time nothing is left to do
		mi := idsOf(more)
		pad.PadCiphertext(mi)
		c.Check(sameIDs(sortedIDs(mi), sortedIDs(idsOf(more))), "operand-changed", "PadCiphertext changed the party set")
		c.Check(sameIDs(ctIDs(pad), unionIDs(ctIDs(x), sortedIDs(mi))), "party-set", "PadCiphertext: parties %v", ctIDs(pad))
		for id, p := range pad.Value {
			if hh, was := old[id]; was {
				c.Check(polyHash(p) == hh, "operand-changed", "PadCiphertext changed the component of %q, which was there", id)
				continue
			}
			c.Check(len(p.Coeffs) == l+1 && p.IsNTT == ntt, "malformed-ciphertext", "PadCiphertext: component %q has %d moduli (transformed=%v) in a ciphertext of %d (transformed=%v)", id, len(p.Coeffs), p.IsNTT, l+1, ntt)
			for _, r := range p.Coeffs {
				c.Check(len(r) == w.N, "malformed-ciphertext", "PadCiphertext: component %q has rows of %d", id, len(r))
				for _, x := range r {
					c.Check(x == 0, "malformed-ciphertext", "PadCiphertext: component %q is not zero", id)
				}
			}
		}
	}
	// the padded components are separate, also in a copy
	c.separate("PadCiphertext", pad.Value)
	c.separate("CopyNew", pad.CopyNew().Value)
	c.Check(ctHash(pad.CopyNew()) == ctHash(pad), "copy-differs", "CopyNew of a padded ciphertext is not a copy")
	if len(pad.Value) > len(x.Value)+1 {
		var ids []string
		for id := range pad.Value {
			if _, was := old[id]; !was {
				ids = append(ids, id)
			}
		}
		pad.Value[ids[0]].Coeffs[0][0] = 77
		c.Check(pad.Value[ids[1]].Coeffs[0][0] == 0, "aliasing", "padded components share memory")
		pad.Value[ids[0]].Coeffs[0][0] = 0
	}
	d := w.diffNorm(l, w.rawPhase(c, pad.Value, l, w.skMap()), w.rawPhase(c, x.Value, l, w.skMap()))
	c.Check(d == 0, "wrong-result", "padding changes what the ciphertext decrypts to")
	c.Event("pad")

	// keys
	p := ps[0]
	sk := p.SK.CopyNew()
	hs := qpHash(p.SK.Value)
	c.Check(sk.ID == p.ID && qpHash(sk.Value) == hs, "copy-differs", "the copy of a secret key differs")
	sk.Value.Q.Coeffs[0][0] ^= 3
	sk.Value.P.Coeffs[0][0] ^= 3
	sk.ID = "changed"
	c.Check(qpHash(p.SK.Value) == hs && p.SK.ID == p.ID, "aliasing", "a secret key shares memory with its copy")
	pk := p.PK.CopyNew()
	hp := qpHash(p.PK.Value[0]) + 5*qpHash(p.PK.Value[1])
	c.Check(pk.ID == p.ID && qpHash(pk.Value[0])+5*qpHash(pk.Value[1]) == hp, "copy-differs", "the copy of a public key differs")
	for i := range pk.Value {
		pk.Value[i].Q.Coeffs[0][0] ^= 3
		pk.Value[i].P.Coeffs[0][0] ^= 3
	}
	pk.ID = "changed"
	c.Check(qpHash(p.PK.Value[0])+5*qpHash(p.PK.Value[1]) == hp && p.PK.ID == p.ID, "aliasing", "a public key shares memory with its copy")
	var nsk *mkrlwe.SecretKey
	var npk *mkrlwe.PublicKey
	c.Check(nsk.CopyNew() == nil && npk.CopyNew() == nil, "copy-differs", "the copy of no key is a key")
	c.Event("key-copy")
	c.Logf("copies l=%d ntt=%v parties %s", l, ntt, names(ps))
}

// ---- helpers -------------------------------------------------------------

func runUtils(c *Ctx) {
	// standard deviation
	n := 1 + c.R.IntN(200)
	off := []float64{0, 0, 1, -1e3, 1e6}[c.R.IntN(5)]
	amp := math.Exp2(float64(c.R.IntN(60) - 30))
	vec := make([]float64, n)
	for i := range vec {
		vec[i] = off + amp*c.R.NormFloat64()
	}
	scale := math.Exp2(float64(c.R.IntN(40) - 10))
	keep := append([]float64(nil), vec...)
	got := mkckks.StandardDeviation(vec, scale)
	mean := new(big.Float).SetPrec(300)
	for _, x := range keep {
		mean.Add(mean, new(big.Float).SetPrec(300).SetFloat64(x))
	}
	mean.Quo(mean, new(big.Float).SetPrec(300).SetInt64(int64(n)))
	sq := new(big.Float).SetPrec(300)
	for _, x := range keep {
		d := new(big.Float).SetPrec(300).Sub(new(big.Float).SetPrec(300).SetFloat64(x), mean)
		sq.Add(sq, d.Mul(d, d))
	}
	f, _ := sq.Quo(sq, new(big.Float).SetPrec(300).SetInt64(int64(n))).Float64()
	want := math.Sqrt(f) * scale
	tol := 1e-9*want + 1e-9*(math.Abs(off)+amp)*scale
	c.Check(math.Abs(got-want) <= tol, "wrong-result", "StandardDeviation of %d values about %g is %g, expected %g", n, off, got, want)
	c.Check(floatsEq(vec, keep), "operand-changed", "StandardDeviation changed its input")
	c.Event("deviation")
	c.State("deviation|%d|%g", n, off)

	// bit reversal on the first N entries, N a power of two
	lg := c.R.IntN(11)
	if c.Case%200 == 7 {
		lg = 15 + c.Case/200%4
	}
	N := 1 << lg
	extra := c.R.IntN(3) * c.R.IntN(5)
	rev := func(i int) int {
		if i >= N {
			return i
		}
		return int(bits.Reverse64(uint64(i)) >> (64 - uint(lg)) & uint64(N-1))
	}
	if lg == 0 {
		rev = func(i int) int { return i }
	}
	fl := make([]float64, N+extra)
	cp := make([]complex128, N+extra)
	rc := make([]*ring.Complex, N+extra)
	for i := range fl {
		fl[i] = float64(i)
		cp[i] = complex(float64(i), float64(-i))
		rc[i] = ring.NewComplex(big.NewFloat(float64(i)), big.NewFloat(0))
	}
	rc0 := append([]*ring.Complex(nil), rc...)
	mkckks.SliceBitReverseInPlaceFloat64(fl, N)
	mkckks.SliceBitReverseInPlaceComplex128(cp, N)
	mkckks.SliceBitReverseInPlaceRingComplex(rc, N)
	for i := range fl {
		c.Check(fl[i] == float64(rev(i)), "wrong-result", "bit reversal of %d values: position %d holds %g, expected %d", N, i, fl[i], rev(i))
		c.Check(cp[i] == complex(float64(rev(i)), float64(-rev(i))), "wrong-result", "complex bit reversal of %d values: position %d", N, i)
		c.Check(rc[i] == rc0[rev(i)], "wrong-result", "big complex bit reversal of %d values: position %d", N, i)
	}
	c.Event("bit-reverse")
	c.State("reverse|%d|%d", N, extra)

	// rescaling parameters: the inverse of P modulo each prime, in Montgomery form
	ck := mkCKKS(smallCfgs[c.R.IntN(len(smallCfgs))])
	Q, P := ck.Q(), ck.P()
	Q, P = Q[:1+c.R.IntN(len(Q))], P[:c.R.IntN(len(P)+1)]
	par := mkckks.GenSwitchkeysRescalingParams(Q, P)
	c.Check(len(par) == len(Q), "wrong-result", "GenSwitchkeysRescalingParams gives %d values for %d primes", len(par), len(Q))
	for i, q := range Q {
		b := new(big.Int).SetUint64(q)
		v := big.NewInt(1)
		for _, p := range P {
			v.Mul(v, new(big.Int).SetUint64(p))
		}
		inv := new(big.Int).ModInverse(v.Mod(v, b), b)
		inv.Lsh(inv, 64).Mod(inv, b)
		c.Check(par[i] == inv.Uint64(), "wrong-result", "GenSwitchkeysRescalingParams: value %d of %d", i, len(Q))
	}
	c.Event("rescaling-params")
	c.State("params|%d|%d", len(Q), len(P))
	c.Logf("n=%d N=%d primes %d/%d", n, N, len(Q), len(P))
}

func floatsEq(a, b []float64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

func runParams(c *Ctx) {
	cfg := c.pickCfg(smallCfgs, midCfgs)
	ck := mkCKKS(cfg)
	P := mkckks.NewParameters(ck)
	ceil := func(a, b int) int { return (a + b - 1) / b }
	shape := func(p mkrlwe.Parameters, gamma int) {
		c.Check(p.Gamma() == gamma, "parameters", "Gamma is %d, expected %d", p.Gamma(), gamma)
		alpha := len(cfg.LogP) / gamma
		c.Check(p.Alpha() == alpha, "parameters", "Alpha is %d, expected %d", p.Alpha(), alpha)
		for l := 0; l < len(cfg.LogQ); l++ {
			c.Check(p.Beta(l) == ceil(l+1, alpha), "parameters", "Beta(%d) is %d with digits of %d primes", l, p.Beta(l), alpha)
		}
		swk := mkrlwe.NewSwitchingKey(p)
		c.Check(len(swk.Value) == ceil(len(cfg.LogQ), alpha), "parameters", "a switching key has %d digits", len(swk.Value))
		for _, v := range swk.Value {
			c.Check(len(v.Q.Coeffs) == len(cfg.LogQ) && len(v.P.Coeffs) == len(cfg.LogP), "parameters", "a switching key digit has %d and %d moduli", len(v.Q.Coeffs), len(v.P.Coeffs))
		}
		c.Check(p.N() == 1<<cfg.LogN && p.LogN() == cfg.LogN && p.QCount() == len(cfg.LogQ) && p.PCount() == len(cfg.LogP) && p.MaxLevel() == len(cfg.LogQ)-1 && p.Sigma() == cfg.Sigma, "parameters", "ring parameters differ from the declared ones")
		for i, q := range p.Q() {
			c.Check(q == ck.Q()[i], "parameters", "prime %d differs from the declared one", i)
		}
		for i, q := range p.P() {
			c.Check(q == ck.P()[i], "parameters", "special prime %d differs from the declared one", i)
		}
	}
	shape(P.Parameters, 2)
	c.Check(P.Scale() == math.Exp2(cfg.LogScale) && P.LogSlots() == cfg.LogSlots && P.Slots() == 1<<cfg.LogSlots, "parameters", "scale %g, slots %d", P.Scale(), P.Slots())
	g := 1 + c.R.IntN(len(cfg.LogP))
	shape(mkrlwe.NewParameters(ck.Parameters, g), g)
	enc := mkckks.NewEncryptor(P)
	v, _ := randMsg(c.R, P.Slots(), 1)
	pt := enc.EncodeMsgNew(msgOf(v))
	c.Check(pt.Level() == P.MaxLevel() && pt.Scale == P.Scale(), "parameters", "an encoded message has level %d and scale %g", pt.Level(), pt.Scale)
	c.Event("accessors")
	c.State("%s|g%d", cfg.Name, g)
	c.Logf("%s gamma %d", cfg.Name, g)
}

// ---- refusals ------------------------------------------------------------

func runRefusals(c *Ctx) {
	w := c.World(c.stdCfg())
	ps := c.everyone(w, 4)
	L := w.P.MaxLevel()
	m := c.MonFull(w, ps)
	enc := mkckks.NewEncryptor(w.P)
	keys := c.keyVault(w, ps, m)
	// the same sets without one party's keys
	gone := c.R.IntN(len(ps))
	var some []*Party
	for i, p := range ps {
		if i != gone {
			some = append(some, p)
		}
	}
	rlk, rtk, cjk := c.RlkSet(w, some...), c.RtkSet(w, some...), c.CjkSet(w, some...)
	for it := 0; it < 5; it++ {
		sel := []*Party{ps[gone]}
		for _, i := range c.pick(3, c.R.IntN(3)) {
			sel = append(sel, some[i])
		}
		l := c.R.IntN(L + 1)
		s := math.Min(w.P.Scale(), math.Sqrt(w.modQ(l))/(64*math.Sqrt(float64(w.N))))
		a := c.operand(w, nil, sel, l, s, 1)
		b := c.operand(w, nil, some[:1+c.R.IntN(2)], l, s, 1)
		ha, hb := ctHash(a.ct), ctHash(b.ct)
		kind := ""
		refused := func(name string, f func()) {
			kind = name
			c.Logf("refuse %s", name)
			e := catch(f)
			c.Check(e != nil, "not-refused", "%s is not refused", name)
			c.Check(ctHash(a.ct) == ha && ctHash(b.ct) == hb, "refusal-effect", "%s changed its operands", name)
			c.Event("refused")
		}
		switch k := (c.Case + it) % 13; k {
		case 0:
			refused("multiplication without the first operand's relinearization key", func() { m.ev.MulRelinNew(a.ct, b.ct, rlk) })
		case 1:
			refused("multiplication without the second operand's relinearization key", func() { m.ev.MulRelinNew(b.ct, a.ct, rlk) })
		case 2:
			refused("hoisted multiplication without a relinearization key", func() {
				m.ev.MulRelinHoistedNew(a.ct, b.ct, m.ev.HoistedForm(a.ct), m.ev.HoistedForm(b.ct), rlk)
			})
		case 3:
			refused("rotation without a rotation key", func() { m.ev.RotateNew(a.ct, 1<<c.R.IntN(w.LogN-1), rtk) })
		case 4:
			refused("rotation by a composite index without the rotation keys", func() { m.ev.RotateNew(a.ct, 3, rtk) })
		case 5:
			refused("hoisted rotation without a rotation key", func() { m.ev.RotateHoistedNew(a.ct, 1, m.ev.HoistedForm(a.ct), rtk) })
		case 6:
			refused("hoisted rotation by an index without a reference string", func() { m.ev.RotateHoistedNew(b.ct, 3, m.ev.HoistedForm(b.ct), m.rtk) })
		case 7:
			refused("conjugation without a conjugation key", func() { m.ev.ConjugateNew(a.ct, cjk) })
		case 8:
			kg := mkckks.NewKeyGenerator(w.P)
			for _, k := range []int{3, -1, 5, w.N/2 - 2} {
				kk := ((k % (w.N / 2)) + w.N/2) % (w.N / 2)
				if _, ok := w.P.CRS[kk]; ok {
					continue
				}
				refused(fmt.Sprintf("generation of a rotation key %d without a reference string", k), func() { kg.GenRotationKey(k, ps[0].SK) })
			}
			// the generator still works
			pk := kg.GenPublicKey(ps[0].SK)
			c.pkError(w, "public key after a refusal", pk, ps[0].SK)
		case 9:
			refused("dropping more levels than there are", func() { m.ev.DropLevelNew(a.ct, l+1+c.R.IntN(4)) })
			refused("dropping more levels than there are, in place", func() { m.ev.DropLevel(a.ct, l+1+c.R.IntN(4)) })
			// levels which were dropped do not come back
			a = m.Drop(a, c.R.IntN(l+1), true)
			ha, l = ctHash(a.ct), a.ct.Level()
			refused("dropping a negative number of levels", func() { m.ev.DropLevelNew(a.ct, -1-c.R.IntN(4)) })
			refused("dropping a negative number of levels, in place", func() { m.ev.DropLevel(a.ct, -1-c.R.IntN(2)) })
		case 10, 11:
			// rescaling to no scale, of no scale, or with no level left
			rescale := func(name string, x *mkckks.Ciphertext, min float64) {
				refused("rescaling "+name, func() {
					h := ctHash(x)
					out := x.CopyNew()
					if err := m.ev.Rescale(x, min, out); err == nil {
						return
					}
					c.Check(ctHash(x) == h, "refusal-effect", "a refused rescaling changed its operand")
					if _, err := m.ev.RescaleNew(x, min); err == nil {
						return
					}
					panic("refused")
				})
			}
			x := c.operand(w, nil, sel, max(l, min(1, L)), w.P.Scale(), 1).ct
			if x.Level() > 0 {
				rescale("to a scale of zero", x, 0)
				rescale("to a negative scale", x, -w.P.Scale())
				z := cloneDeep(x)
				z.Scale = 0
				rescale("a ciphertext without a scale", z, w.P.Scale())
			}
			z := cloneDeep(x)
			for _, q := range z.Value {
				q.Coeffs = q.Coeffs[:1]
			}
			rescale("at level zero", z, 1)
			refused("a party named 0", func() { mkrlwe.NewIDSet().Add("0") })
			if x.Level() > 0 {
				c.misfits(w, m, x, []float64{1, w.P.Scale(), w.P.Scale() * 1e9}[c.R.IntN(3)])
			}
			refused("partial decryption by a party which is not involved", func() {
				n := len(b.ct.Value)
				defer func() {
					c.Check(len(b.ct.Value) == n, "refusal-effect", "a party which is not involved changed the party set")
				}()
				other, _ := mkckks.NewKeyGenerator(w.P).GenKeyPair("someone else")
				mkckks.NewDecryptor(w.P).PartialDecrypt(b.ct, other)
			})
			refused("decryption without the key of a party", func() { mkckks.NewDecryptor(w.P).Decrypt(a.ct, c.SkSet(some...)) })
			{ // an encryption for others than the owner of the key
				ids := idsOf(some)
				was := fmt.Sprint(sortedIDs(ids))
				v, _ := randMsg(c.R, w.Slots, 1)
				refused("an encryption padded to others only", func() { enc.EncryptMsgNewExpand(msgOf(v), ps[gone].PK, ids) })
				c.Check(fmt.Sprint(sortedIDs(ids)) == was, "refusal-effect", "an encryption changed the party set it was given from %s to %v", was, sortedIDs(ids))
			}
			refused("encryption into a ciphertext of others", func() {
				ids := mkrlwe.NewIDSet()
				ids.Add("someone else")
				v, _ := randMsg(c.R, w.Slots, 1)
				enc.EncryptMsg(msgOf(v), ps[0].PK, mkckks.NewCiphertext(w.P, ids, L, 1))
			})
		default:
			// outputs at a higher level than the input, generic layer
			if l == L {
				kind = "none"
				break
			}
			ks := mkrlwe.NewKeySwitcher(w.P.Parameters)
			o := mkrlwe.NewCiphertext(w.P.Parameters, idsOf(ps), L)
			refused("rotation into a higher level", func() { ks.Rotate(b.ct.Ciphertext, 1, m.rtk, o) })
			refused("conjugation into a higher level", func() { ks.Conjugate(b.ct.Ciphertext, m.cjk, o) })
			refused("multiplication into a higher level", func() { ks.MulAndRelin(b.ct.Ciphertext, b.ct.Ciphertext, m.rlk, o) })
			hi := c.operand(w, nil, some[:1], L, s, 1)
			for _, x := range [][2]*mkrlwe.Ciphertext{{b.ct.Ciphertext, hi.ct.Ciphertext}, {hi.ct.Ciphertext, b.ct.Ciphertext}} {
				refused("multiplication into a level higher than one operand's", func() { ks.MulAndRelin(x[0], x[1], m.rlk, o) })
				refused("hoisted multiplication into a level higher than one operand's", func() { ks.MulAndRelinHoisted(x[0], x[1], nil, nil, m.rlk, o) })
			}
			refused("hoisted rotation into a higher level", func() { ks.RotateHoisted(b.ct.Ciphertext, 1, nil, m.rtk, o) })
			refused("hoisted multiplication into a higher level", func() { ks.MulAndRelinHoisted(b.ct.Ciphertext, b.ct.Ciphertext, nil, nil, m.rlk, o) })
		}
		c.State("%s|%s|%d", w.Name, kind, len(sel))
		// the same evaluator still gives right answers, with the complete keys
		m.Mul(a, b)
		m.Rot(a, 1)
		m.Conj(b)
		m.Sub(a, b)
		v, _ := randMsg(c.R, w.Slots, 1)
		ct := enc.EncryptMsgNew(msgOf(v), ps[0].PK)
		m.bounded("encrypt", L, w.phase(c, ct), w.encode(v, L, w.P.Scale()), w.freshBound(ps[0].ID))
		c.Event("usable-after")
	}
	keys.check(c, "a refused operation")
	_ = ckks.Parameters{}
}
