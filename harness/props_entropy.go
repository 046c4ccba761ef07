package verifharness

import (
	crand "crypto/rand"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/rand/v2"
	"sort"
	"sync"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

// C34: every case is run by eight processes in step, which do the same thing with
// the same inputs. Processes 0 and 1 are given the same stream of system
// randomness, the others streams of their own. Each reports fingerprints of what
// was drawn at random; run.py compares them: what comes from the system's source
// is equal in processes 0 and 1 and different everywhere else.

// Print is the fingerprint of something drawn at random.
type Print struct {
	Digest string `json:"d"`
	Bytes  int    `json:"b"` // drawn from the system by the stage it belongs to
	What   string `json:"w"`
}

const nStreams = 8

type countingReader struct {
	mu sync.Mutex
	r  io.Reader
	n  int
}

func (r *countingReader) Read(b []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n += len(b)
	return r.r.Read(b)
}

func (r *countingReader) count() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.n
}

func init() {
	Register(&Prop{
		ID:        "C34",
		Rule:      "case = parameter set x one of eight processes in step (two with the same stream of system randomness, six with streams of their own), fingerprinting everything drawn at random: reference strings, secrets of every kind, the errors of every kind of key, masks and errors of encryptions; non-trivial when distinct by (set, what was drawn, process)",
		Cases:     tiers(8*40, 8*400),
		MinEvents: []string{"crs", "secret", "key-error", "mask", "encryption-error"},
		Run:       runEntropy,
	})
}

func runEntropy(c *Ctx) {
	group, stream := c.Case/nStreams, c.Case%nStreams
	if stream == 1 {
		stream = 0
	}
	c.R = rand.New(rand.NewPCG(hash64(fmt.Sprintf("%d|C34|%d", c.Seed, group)), 0x5eed))
	var cfgs []Cfg
	for _, cfg := range append(append([]Cfg{}, smallCfgs...), midCfgs...) {
		if cfg.LogN >= 6 && cfg.LogN <= 10 {
			cfgs = append(cfgs, cfg)
		}
	}
	cfg := cfgs[group%len(cfgs)]
	c.Reseed(fmt.Sprintf("stream|%d|%d", group, stream))
	src := &countingReader{r: crand.Reader}
	old := crand.Reader
	crand.Reader = src
	defer func() { crand.Reader = old }()
	c.Logf("set %s stream %d", cfg.Name, stream)

	var stage string
	var held []string
	prints := map[string]Print{}
	enter := func(name string, f func()) {
		stage = name
		held = held[:0]
		n := src.count()
		f()
		n = src.count() - n
		for _, k := range held {
			p := prints[k]
			p.Bytes = n
			prints[k] = p
		}
		c.Logf("%s: %d bytes of system randomness", name, n)
	}
	put := func(what string, digest uint64) {
		k := stage + ": " + what
		for i := 2; prints[k].What != ""; i++ {
			k = fmt.Sprintf("%s: %s (%d)", stage, what, i)
		}
		prints[k] = Print{fmt.Sprintf("%016x", digest), 0, k}
		held = append(held, k)
		c.State("%s|%s|p%d", cfg.Name, k, c.Case%nStreams)
		c.Eval()
	}
	vec := func(what string, e []float64) {
		h := fnv.New64a()
		for _, x := range e {
			h.Write([]byte{byte(int64(x)), byte(int64(x) >> 8)})
		}
		put(what, h.Sum64())
	}
	crs := func(name string, set map[int]*mkrlwe.SwitchingKey, only func(int) bool) {
		var idx []int
		for i := range set {
			if only == nil || only(i) {
				idx = append(idx, i)
			}
		}
		sort.Ints(idx)
		var all []uint64
		for _, i := range idx {
			for d := range set[i].Value {
				x := polyDigest(set[i].Value[d])
				put(fmt.Sprintf("unordered digit %d of reference string %d", d, i), x)
				all = append(all, x)
			}
			c.Event("crs")
		}
		// the order in which they are drawn is free
		sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
		h := fnv.New64a()
		for _, x := range all {
			fmt.Fprint(h, x, " ")
		}
		put("the reference strings together", h.Sum64())
	}

	w := &World{Cfg: cfg, Tag: "entropy"}
	w.CK = mkCKKS(cfg)
	w.N, w.Slots = 1<<cfg.LogN, 1<<cfg.LogSlots
	enter("new parameters", func() {
		w.P = mkckks.NewParameters(w.CK)
		crs("new", w.P.CRS, nil)
	})
	w.setDigits(2)
	P := w.P.Parameters
	enter("another reference string", func() {
		P.AddCRS(5)
		P.AddCRS(7)
		crs("added", P.CRS, func(i int) bool { return i == 5 || i == 7 })
	})
	if group%3 == 0 {
		enter("other parameters", func() { crs("new", mkrlwe.NewParameters(w.CK.Parameters, 1).CRS, nil) })
	}
	id := []string{"company0", "", "bob"}[c.R.IntN(3)]
	var sk, r *mkrlwe.SecretKey
	hw := w.N/4 + c.R.IntN(w.N/4)
	gens := []struct {
		name string
		f    func(kg *mkrlwe.KeyGenerator) *mkrlwe.SecretKey
	}{
		{"a secret key", func(kg *mkrlwe.KeyGenerator) *mkrlwe.SecretKey { return kg.GenSecretKey(id) }},
		{"a Gaussian secret key", func(kg *mkrlwe.KeyGenerator) *mkrlwe.SecretKey { return kg.GenSecretKeyGaussian(id) }},
		{"a dense secret key", func(kg *mkrlwe.KeyGenerator) *mkrlwe.SecretKey { return kg.GenSecretKeyWithDistrib(0.5, id) }},
		{"a sparse secret key", func(kg *mkrlwe.KeyGenerator) *mkrlwe.SecretKey { return kg.GenSecretKeySparse(hw, id) }},
	}
	c.R.Shuffle(len(gens), func(i, j int) { gens[i], gens[j] = gens[j], gens[i] })
	for i, g := range gens {
		enter(g.name, func() {
			kg := mkrlwe.NewKeyGenerator(P)
			for j := 0; j < 2; j++ {
				s := g.f(kg)
				vec(g.name, c.skSmall(w, g.name, s, math.Floor(6*w.Sigma)+1))
				c.Event("secret")
				if i == 0 {
					sk, r = s, sk
				}
			}
		})
	}
	if r == nil {
		r = sk
	}
	swkErrors := func(what string, swk *mkrlwe.SwitchingKey, f func(i int) rlwe.PolyQP) {
		for i := range swk.Value {
			e := w.invM(w.subQP(swk.Value[i], f(i)))
			vec(fmt.Sprintf("the error of digit %d of %s", i, what), c.smallQP(w, what, e, w.errLim()))
			c.Event("key-error")
		}
	}
	pairs := []struct {
		name string
		f    func(kg *mkrlwe.KeyGenerator)
	}{
		{"a key pair", func(kg *mkrlwe.KeyGenerator) {
			s, pk := kg.GenKeyPair(id)
			vec("the secret", c.skSmall(w, "the secret", s, 1))
			vec("the error of the public key", c.pkError(w, "public key", pk, s))
			c.Event("key-error")
		}},
		{"a sparse key pair", func(kg *mkrlwe.KeyGenerator) {
			s, pk := kg.GenKeyPairSparse(hw, id)
			vec("the secret", c.skSmall(w, "the secret", s, 1))
			vec("the error of the public key", c.pkError(w, "public key", pk, s))
		}},
		{"public keys", func(kg *mkrlwe.KeyGenerator) {
			for j := 0; j < 2; j++ {
				vec("the error of the public key", c.pkError(w, "public key", kg.GenPublicKey(sk), sk))
			}
		}},
		{"a relinearization key", func(kg *mkrlwe.KeyGenerator) {
			k := kg.GenRelinearizationKey(sk, r)
			swkErrors("part 0", k.Value[0], func(i int) rlwe.PolyQP { return w.negQP(w.mulQP(P.CRS[0].Value[i], sk.Value)) })
			swkErrors("part 1", k.Value[1], func(i int) rlwe.PolyQP {
				return w.subQP(w.gadget(sk.Value, i), w.mulQP(P.CRS[0].Value[i], r.Value))
			})
			swkErrors("part 2", k.Value[2], func(i int) rlwe.PolyQP {
				return w.negQP(w.addQP(w.gadget(r.Value, i), w.mulQP(P.CRS[-1].Value[i], sk.Value)))
			})
		}},
		{"rotation keys", func(kg *mkrlwe.KeyGenerator) {
			for _, k := range []int{1, 5, 1 << (w.LogN - 2)} {
				si := w.autoQP(sk.Value, w.galRot(-k))
				swkErrors(fmt.Sprintf("rotation key %d", k), kg.GenRotationKey(k, sk).Value, func(i int) rlwe.PolyQP {
					return w.subQP(w.gadget(sk.Value, i), w.mulQP(P.CRS[k].Value[i], si))
				})
			}
		}},
		{"a conjugation key", func(kg *mkrlwe.KeyGenerator) {
			sc := w.autoQP(sk.Value, w.galConj())
			swkErrors("conjugation key", kg.GenConjugationKey(sk).Value, func(i int) rlwe.PolyQP {
				return w.subQP(w.gadget(sc, i), w.mulQP(P.CRS[-2].Value[i], sk.Value))
			})
		}},
		{"a switching key", func(kg *mkrlwe.KeyGenerator) {
			swk := mkrlwe.NewSwitchingKey(P)
			kg.GenSwitchingKey(sk, swk)
			swkErrors("switching key", swk, func(i int) rlwe.PolyQP { return w.gadget(sk.Value, i) })
		}},
		{"a bare error", func(kg *mkrlwe.KeyGenerator) {
			e := w.P.RingQP().NewPoly()
			kg.GenGaussianError(e)
			put("the error", polyDigest(e))
		}},
	}
	c.R.Shuffle(len(pairs), func(i, j int) { pairs[i], pairs[j] = pairs[j], pairs[i] })
	for _, g := range pairs {
		enter(g.name, func() { g.f(mkrlwe.NewKeyGenerator(P)) })
	}
	// one generator, and one more, for everything
	enter("one generator for everything", func() {
		kg := mkckks.NewKeyGenerator(w.P)
		for _, g := range gens {
			vec(g.name, c.skSmall(w, g.name, g.f(kg), math.Floor(6*w.Sigma)+1))
		}
		for _, g := range pairs {
			g.f(kg)
		}
	})
	const K = 1 << 16
	rQ := w.P.RingQ()
	look := func(ct *mkrlwe.Ciphertext, pt *ring.Poly, level int) {
		for n, key := range []string{"0", id} {
			t := rQ.NewPolyLvl(level)
			rQ.ReduceLvl(level, ct.Value[key], t)
			if ct.Value[key].IsNTT {
				rQ.InvNTTLvl(level, t, t)
			}
			if n == 0 {
				rQ.SubLvl(level, t, pt, t)
				rQ.ReduceLvl(level, t, t)
			}
			x := c.small("encryption", t.Coeffs, rQ.Modulus[:level+1], float64(K*(n+1))+w.errLim())
			u, e := make([]float64, w.N), make([]float64, w.N)
			for i := range x {
				u[i] = math.Round(x[i] / float64(K*(n+1)))
				e[i] = x[i] - u[i]*float64(K*(n+1))
			}
			if n == 0 {
				vec("the mask", u)
				c.Event("mask")
			}
			vec(fmt.Sprintf("the error of component %d", n), e)
			c.Event("encryption-error")
		}
	}
	v, _ := randMsg(c.R, w.Slots, 1)
	level := c.R.IntN(w.P.MaxLevel() + 1)
	pk := w.constPK(id, K, 2*K)
	enter("encryption of a message", func() {
		enc := mkckks.NewEncryptor(w.P)
		for j := 0; j < 2; j++ {
			pt := enc.EncodeMsgNew(msgOf(v))
			look(enc.EncryptMsgNew(msgOf(v), pk).Ciphertext, pt.Value, w.P.MaxLevel())
		}
	})
	enter("encryption of a plaintext", func() {
		enc := mkrlwe.NewEncryptor(P)
		for j := 0; j < 2; j++ {
			pt := rlwe.NewPlaintext(w.CK.Parameters, level)
			ids := mkrlwe.NewIDSet()
			ids.Add(id)
			ct := mkrlwe.NewCiphertext(P, ids, level)
			if c.R.IntN(2) == 0 {
				ct = mkrlwe.NewCiphertextNTT(P, ids, level)
			}
			enc.Encrypt(pt, pk, ct)
			look(ct, rQ.NewPolyLvl(level), level)
		}
	})

	// the many first calls of one instance, and many instances: what is looked at lies
	// around round numbers
	if group%4 == 0 {
		n := 1100
		if w.N <= 64 && group%8 == 0 {
			n = 4200
		}
		at := func(i int) bool {
			return i&(i-1) == 0 || (i+1)&i == 0 || (i-1)&(i-2) == 0 || i%500 <= 1 || i == 100 || i == n-1
		}
		enter("many encryptions", func() {
			enc := mkckks.NewEncryptor(w.P)
			msg := msgOf(v)
			pt := enc.EncodeMsgNew(msg)
			for i := 1; i < n; i++ {
				if ct := enc.EncryptMsgNew(msg, pk); at(i) {
					look(ct.Ciphertext, pt.Value, w.P.MaxLevel())
				}
			}
		})
		enter("many keys", func() {
			kg := mkckks.NewKeyGenerator(w.P)
			for i := 1; i < n; i++ {
				if s, p := kg.GenKeyPair(id); at(i) {
					vec("the secret", c.skSmall(w, "the secret", s, 1))
					vec("the error of the public key", c.pkError(w, "public key", p, s))
				}
			}
		})
		enter("many instances", func() {
			msg := msgOf(v)
			for i := 1; i < n/4; i++ {
				kg, enc := mkckks.NewKeyGenerator(w.P), mkckks.NewEncryptor(w.P)
				pt := enc.EncodeMsgNew(msg)
				ct := enc.EncryptMsgNew(msg, pk)
				if s := kg.GenSecretKeyGaussian(id); at(i) {
					vec("the secret", c.skSmall(w, "the secret", s, math.Floor(6*w.Sigma)+1))
					look(ct.Ciphertext, pt.Value, w.P.MaxLevel())
				}
			}
		})
		c.Event("long-marathon")
	}

	c.run.mu.Lock()
	if c.run.part.Prints == nil {
		c.run.part.Prints = map[string]map[string]Print{}
	}
	c.run.part.Prints[fmt.Sprint(c.Case)] = prints
	c.run.mu.Unlock()
}

func polyDigest(p rlwe.PolyQP) uint64 {
	h := fnv.New64a()
	for _, rows := range [][][]uint64{p.Q.Coeffs, p.P.Coeffs} {
		for _, row := range rows {
			for _, x := range row {
				h.Write([]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24), byte(x >> 32), byte(x >> 40), byte(x >> 48), byte(x >> 56)})
			}
		}
	}
	return h.Sum64()
}
