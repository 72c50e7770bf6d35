package checks

import (
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/sign"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP02(t *testing.T) {
	Run(t, "P02", []Sub{
		{"altered", "the signature of a context with r or s changed, negated, exchanged, scaled or zero; trivial: it is the signature still", 900, sigAltered},
		{"context", "the signature of a context, checked in another one; trivial: it is the signature there too", 900, sigContext},
		{"range", "contexts made so that s is small, near half the order or near the order, checked with both signs and neighbours; all count", 600, sigRange},
		{"degenerate", "contexts where the ECDSA equation ends at infinity, the hash is zero or the key and the tweak cancel; all count", 400, sigDegenerate},
	})
}

func libSig(r, s *big.Int) *sign.ThresholdEcdsaCombinedSigInternal {
	return &sign.ThresholdEcdsaCombinedSigInternal{R: S(r), S: S(s)}
}

// decide has the library judge a signature and compares
func (s *sctx) decide(c *C, r, sg *big.Int, what string) bool {
	want := s.accepts(r, sg)
	sig := libSig(r, sg)
	err := s.verify(sig)
	if want {
		Must(c, err, "%s: the signature r=%x s=%x (%s)", s, r, sg, what)
	} else {
		MustErr(c, err, "%s: r=%x s=%x (%s)", s, r, sg, what)
	}
	if V(sig.R).Cmp(r) != 0 || V(sig.S).Cmp(sg) != 0 {
		c.Fatalf("%s: verification changed the signature", s)
	}
	return want
}

// drawSig is a context as far as a signature goes: any threshold, any key
func drawSig(c *C) *sctx {
	s := &sctx{t: Int(c, 1, 4, "t")}
	x, k := NonZero(c, "x"), NonZero(c, "k")
	s.key, s.pre = known(bulkPoly(c, x, s.t, "key"), nil, false), known(bulkPoly(c, k, s.t, "pre"), nil, false)
	s.lambda, s.kl, s.xl = &trans{}, &trans{}, &trans{}
	s.drawMsg(c)
	c.Key(s.t, x, k)
	return s
}

func sigAltered(c *C) {
	s := drawSig(c)
	r, sg := s.signature()
	if !s.decide(c, r, sg, "as it is") {
		c.Fatalf("harness: %s: the signature r=%x s=%x is not one", s, r, sg)
	}
	r0, s0 := r, sg
	what := ""
	switch Int(c, 0, 11, "how") {
	case 0, 1:
		what, sg = "s", OtherScalar(c, sg, "s'")
	case 2, 3:
		what, r = "r", OtherScalar(c, r, "r'")
	case 4:
		what, sg = "s negated", ref.Neg(sg)
	case 5:
		what, r = "r negated", ref.Neg(r)
	case 6:
		what, r, sg = "exchanged", sg, r
	case 7:
		what, sg = "s zero", new(big.Int)
	case 8:
		what, r = "r zero", new(big.Int)
	case 9:
		what, r, sg = "both zero", new(big.Int), new(big.Int)
	case 10:
		what, r, sg = "both negated", ref.Neg(r), ref.Neg(sg)
	case 11: // a signature by the same key with another nonce
		what = "another nonce"
		o := *s
		o.pre = known(bulkPoly(c, NonZero(c, "k'"), s.t, "pre'"), nil, false)
		r, sg = o.signature()
	}
	c.Key(what)
	if r.Cmp(r0) == 0 && sg.Cmp(s0) == 0 {
		c.Trivial()
	}
	ok := s.decide(c, r, sg, what)
	c.Label("%s accepted=%v", what, ok)
	c.Note("%s: %s", s, what)
	if what == "another nonce" && !ref.ECDSAVerify(s.pk(), s.hash, r, sg) {
		c.Fatalf("harness: not an ECDSA signature")
	}
	s.decide(c, r0, s0, "afterwards")
}

func sigContext(c *C) {
	s := drawSig(c)
	r, sg := s.signature()
	s.lambda, s.kl, s.xl = s.key, s.key, s.key
	var o *sctx
	what := ""
	for i := 0; ; i++ {
		o, what = s.otherCtx(c)
		if what != "lambda" && what != "nonce times lambda" && what != "key times lambda" {
			break
		}
		if i > 3 {
			q := *s
			q.hash = AlterBytes(c, s.hash, "hash'")
			o, what = &q, "hash"
			break
		}
	}
	// the same signature, in its own context first or not at all before the other
	same := libSig(r, sg)
	if Bool(c, "own first") {
		Must(c, s.verify(same), "%s: the signature", s)
	}
	if err := o.verify(same); (err == nil) != o.accepts(r, sg) {
		c.Fatalf("%s: the signature of another %s: %v", o, what, err)
	}
	Must(c, s.verify(same), "%s: the signature, after it was checked in another context", s)
	ok := o.decide(c, r, sg, "of another "+what)
	if ok {
		c.Trivial()
	}
	c.Key(what)
	c.Label("%s accepted=%v", what, ok)
	c.Note("%s: checked with another %s", s, what)
	r2, s2 := o.signature()
	if !o.decide(c, r2, s2, "its own") {
		c.Fatalf("harness: not the signature")
	}
	// parts of both
	o.decide(c, r2, sg, "r of the one, s of the other, "+what)
	o.decide(c, r, s2, "s of the one, r of the other, "+what)
	s.decide(c, r, sg, "as it is")
}

// withS is a context whose signature has, before normalisation, a given s
func withS(c *C, want *big.Int) *sctx {
	s := drawSig(c)
	s.path = nil // no tweak, so that the nonce does not depend on the key
	r, _, rnd, _ := refRho(ref.G(), s.pre.pts()[0], nil, s.hash, s.randomnes)
	x := ref.Mul(ref.Sub(ref.Mul(want, ref.Add(s.pre.secret(), rnd)), ref.HashInt(s.hash)), ref.Inv(r))
	if x.Sign() == 0 {
		panic("zero key")
	}
	s.key = known(bulkPoly(c, x, s.t, "key"), nil, false)
	return s
}

func sigRange(c *C) {
	half := ref.Half
	around := []*big.Int{big.NewInt(0), half, new(big.Int).Rsh(ref.Q, 2), new(big.Int).Lsh(big.NewInt(1), 255), new(big.Int).Lsh(big.NewInt(1), 128), new(big.Int).Lsh(big.NewInt(1), 64)}
	v := ref.Mod(new(big.Int).Add(Pick(c, around, "around"), big.NewInt(int64(Int(c, -4, 4, "d")))), ref.Q)
	if v.Sign() == 0 {
		v = new(big.Int).Set(half)
	}
	if OneIn(c, 5, "any") {
		v = NonZero(c, "s")
	}
	s := withS(c, v)
	c.Key(v)
	r, sg := s.signature()
	c.Note("%s: s=%x", s, v)
	a := s.decide(c, r, v, "s as made")
	b := s.decide(c, r, ref.Neg(v), "s negated")
	c.Label("low=%v", a)
	if a == b || sg.Cmp(v) != 0 && sg.Cmp(ref.Neg(v)) != 0 {
		c.Fatalf("harness: exactly one of s=%x and its negation is low", v)
	}
	if a != (v.Cmp(half) <= 0) {
		c.Fatalf("harness: s=%x", v)
	}
	for _, d := range []int64{-1, 1} {
		s.decide(c, r, ref.Add(v, big.NewInt(d)), "neighbour")
		s.decide(c, ref.Add(r, big.NewInt(d)), sg, "neighbour of r")
	}
}

func sigDegenerate(c *C) {
	switch Int(c, 0, 2, "how") {
	case 0: // e + r x = 0: no s works
		s := drawSig(c)
		s.path = nil
		r, _, _, _ := refRho(ref.G(), s.pre.pts()[0], nil, s.hash, s.randomnes)
		x := ref.Mul(ref.Neg(ref.HashInt(s.hash)), ref.Inv(r))
		if x.Sign() == 0 {
			c.Trivial()
			return
		}
		s.key = known(bulkPoly(c, x, s.t, "key"), nil, false)
		c.Key("infinity")
		c.Label("infinity")
		c.Note("%s: the equation ends at infinity", s)
		for k := 0; k < 2; k++ {
			if s.decide(c, r, NonZero(c, "s"), "infinity") {
				c.Fatalf("harness: accepted")
			}
		}
		s.decide(c, r, new(big.Int), "infinity")
		s.decide(c, r, big.NewInt(1), "infinity")
	case 1: // a hash that is zero
		s := drawSig(c)
		s.hash = make([]byte, Int(c, 0, 40, "zeros"))
		if Bool(c, "order") {
			s.hash = ref.B32(ref.Q)
		}
		c.Key("zero hash", len(s.hash))
		c.Label("zero hash")
		c.Note("%s: zero hash", s)
		r, sg := s.signature()
		if !s.decide(c, r, sg, "zero hash") {
			c.Fatalf("harness: not a signature")
		}
		s.decide(c, r, ref.Neg(sg), "zero hash, negated")
		s.decide(c, r, OtherScalar(c, sg, "s'"), "zero hash, altered")
	case 2: // the shift of the nonce by a multiple of the key, and other forgeries without the key
		s := drawSig(c)
		r, _, _, _ := s.rho()
		a, b := NonZero(c, "a"), NonZero(c, "b")
		// R' = aG + bPK gives (r', r'/b) on the hash r'a/b, not on this one
		P := ref.MulG(a).Add(s.pk().Mul(b))
		if P.Inf() {
			return
		}
		rr := ref.Mod(P.X, ref.Q)
		c.Key("forged")
		c.Label("forged")
		c.Note("%s: forged", s)
		sg := ref.Mul(rr, ref.Inv(b))
		s.decide(c, rr, sg, "forged")
		s.decide(c, r, ref.Mul(r, ref.Inv(b)), "forged with the right r")
		// a valid signature on the same hash with s high and r of the negated nonce
		_, good := s.signature()
		s.decide(c, ref.Neg(r), good, "negated r")
		s.decide(c, r, ref.Mul(good, big.NewInt(2)), "twice s")
	}
}
