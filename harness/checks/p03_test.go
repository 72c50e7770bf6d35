package checks

import (
	"math/big"
	"sort"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/sign"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP03(t *testing.T) {
	Run(t, "P03", []Sub{
		{"honest", "a signing context and a signer at any index; all count", 350, shareHonest},
		{"altered", "an honest share with one or more of its parts changed, exchanged or negated; trivial: the change has no effect", 350, shareAltered},
		{"elsewhere", "an honest share checked under another signer or another context; trivial: the share is right there too", 450, shareElsewhere},
		{"openings", "a share made of another opening than the signer's; trivial: the same opening", 300, shareOpenings},
		{"kinds", "a share made of openings of the wrong kind, or no share; all count", 400, shareKinds},
	})
}

// shareVals are the numbers a share consists of, in no particular order
func shareVals(sh *sign.ThresholdEcdsaSigShareInternal) []*big.Int {
	var r []*big.Int
	for _, l := range Leaves(sh) {
		if s, ok := l.Get().(curve.EccScalar); ok {
			r = append(r, V(s))
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Cmp(r[j]) < 0 })
	return r
}

func sorted(v [4]*big.Int) []*big.Int {
	r := append([]*big.Int{}, v[:]...)
	sort.Slice(r, func(i, j int) bool { return r[i].Cmp(r[j]) < 0 })
	return r
}

func sameShare(a, b [4]*big.Int) bool { return SameVals(a[:], b[:]) }

func drawSctx(c *C, maxT int) *sctx {
	s := synth(c, Int(c, 1, maxT, "t"))
	s.drawMsg(c)
	return s
}

func shareHonest(c *C) {
	s := drawSctx(c, 4)
	i := Node(c, "signer")
	s.degenerate(c, i)
	c.Key(i)
	c.Label("t=%d", s.t)
	c.Note("%s signer %d", s, i)
	before := s.dump()
	sh := s.libShare(c, i)
	if got, want := shareVals(sh), sorted(s.share(i)); !SameVals(got, want) {
		c.Fatalf("%s: share of %d is %x, want %x", s, i, got, want)
	}
	d := Dump(sh)
	for round := 0; round < 2; round++ {
		Must(c, s.verifyShare(sh, i), "verification %d of the share of %d: %s", round, i, s)
	}
	if Dump(sh) != d || s.dump() != before {
		c.Fatalf("%s: signing or verification changed its inputs", s)
	}
	again := s.libShare(c, i)
	if !SameVals(shareVals(again), shareVals(sh)) {
		c.Fatalf("%s: a second share of %d differs", s, i)
	}
}

func shareAltered(c *C) {
	s := drawSctx(c, 3)
	i := Node(c, "signer")
	s.degenerate(c, i)
	c.Key(i)
	sh := s.libShare(c, i)
	want := Dump(sh)
	ls := Leaves(sh)
	var sc []Leaf
	for _, l := range ls {
		if _, ok := l.Get().(curve.EccScalar); ok {
			sc = append(sc, l)
		}
	}
	if len(sc) < 4 {
		c.Fatalf("harness: the share has %d parts", len(sc))
	}
	what := ""
	get := func(k int) *big.Int { return V(sc[k].Get().(curve.EccScalar)) }
	set := func(k int, v *big.Int) { sc[k].Set(S(v)) }
	k := Int(c, 0, len(sc)-1, "k")
	switch Int(c, 0, 9, "how") {
	case 8: // what a check of the halves together would not notice
		what = "shifted across the halves"
		j := (k + 2) % len(sc)
		d := NonZero(c, "d")
		set(k, ref.Add(get(k), d))
		set(j, ref.Sub(get(j), d))
	case 9:
		what = "all shifted"
		d, e := Scalar(c, "d"), NonZero(c, "e")
		set(0, ref.Add(get(0), d))
		set(1, ref.Add(get(1), e))
		set(2, ref.Sub(get(2), d))
		set(3, ref.Sub(get(3), e))
	case 0, 1:
		what = "one part"
		set(k, OtherScalar(c, get(k), "leaf"))
	case 2:
		what = "two exchanged"
		j := (k + Int(c, 1, len(sc)-1, "j")) % len(sc)
		a, b := get(k), get(j)
		set(k, b)
		set(j, a)
	case 3:
		what = "halves exchanged"
		a, b, e, f := get(0), get(1), get(2), get(3)
		set(0, e)
		set(1, f)
		set(2, a)
		set(3, b)
	case 4: // what the combined signature would not notice
		what = "all scaled"
		m := Pick(c, []*big.Int{ref.Neg(big.NewInt(1)), big.NewInt(2), big.NewInt(0)}, "m")
		for j := range sc {
			set(j, ref.Mul(m, get(j)))
		}
	case 5: // value and mask changed by opposite amounts
		what = "shifted"
		j := k ^ 1
		d := NonZero(c, "d")
		set(k, ref.Add(get(k), d))
		set(j, ref.Sub(get(j), d))
	case 6:
		what = "masks dropped"
		set(1, new(big.Int))
		set(3, new(big.Int))
	case 7:
		what = "one half negated"
		j := k ^ 1
		set(k, ref.Neg(get(k)))
		set(j, ref.Neg(get(j)))
	}
	c.Key(what)
	c.Label("%s", what)
	c.Note("%s signer %d: %s", s, i, what)
	if Dump(sh) == want {
		c.Trivial()
		Must(c, s.verifyShare(sh, i), "an unchanged share")
		return
	}
	MustErr(c, s.verifyShare(sh, i), "%s: share of %d with %s", s, i, what)
}

func shareElsewhere(c *C) {
	s := drawSctx(c, 3)
	i := Node(c, "signer")
	s.degenerate(c, i)
	sh := s.libShare(c, i)
	o, j, what := s, i, ""
	if OneIn(c, 3, "signer") {
		what, j = "signer", OtherNode(c, i, "other signer")
	} else {
		o, what = s.otherCtx(c)
	}
	c.Key(i, j, what)
	same := sameShare(s.share(i), o.share(j))
	c.Label("%s accepted=%v", what, same)
	c.Note("%s signer %d, checked under another %s (signer %d)", s, i, what, j)
	err := o.verifyShare(sh, j)
	if same {
		c.Trivial()
		Must(c, err, "%s: share of %d under another %s (signer %d), where it is right too", s, i, what, j)
	} else {
		MustErr(c, err, "%s: share of %d under another %s (signer %d)", s, i, what, j)
	}
	Must(c, s.verifyShare(sh, i), "%s: share of %d afterwards", s, i)
}

func shareOpenings(c *C) {
	s := drawSctx(c, 3)
	i := Node(c, "signer")
	s.degenerate(c, i)
	in := [3][]*big.Int{s.lambda.share(i), s.kl.share(i), s.xl.share(i)}
	k := Int(c, 0, 2, "opening")
	what := ""
	switch Int(c, 0, 4, "how") {
	case 0, 1:
		what = "altered"
		in[k] = append([]*big.Int{}, in[k]...)
		h := Int(c, 0, 1, "half")
		in[k][h] = OtherScalar(c, in[k][h], "leaf")
	case 2:
		what = "of another signer"
		in[k] = []*trans{s.lambda, s.kl, s.xl}[k].share(OtherNode(c, i, "other signer"))
	case 3:
		what = "of another transcript"
		j := (k + Int(c, 1, 2, "other")) % 3
		in[k], in[j] = in[j], in[k]
	case 4:
		what = "value and mask exchanged"
		in[k] = []*big.Int{in[k][1], in[k][0]}
	}
	c.Key(i, k, what)
	c.Label("%s", what)
	c.Note("%s signer %d, opening %d %s", s, i, k, what)
	ops := [3]poly.CommitmentOpening{mkOpening(in[0]), mkOpening(in[1]), mkOpening(in[2])}
	sh, err := s.newShare(ops[0], ops[1], ops[2])
	Must(c, err, "share of other openings")
	exp := s.shareOf(in[0], in[1], in[2])
	if !SameVals(shareVals(sh), sorted(exp)) {
		c.Fatalf("%s: share of the openings %x is %x, want %x", s, in, shareVals(sh), exp)
	}
	err = s.verifyShare(sh, i)
	if sameShare(exp, s.share(i)) {
		c.Trivial()
		Must(c, err, "the same share")
	} else {
		MustErr(c, err, "%s: share of %d with opening %d %s", s, i, k, what)
	}
}

func shareKinds(c *C) {
	s := drawSctx(c, 2)
	i := Node(c, "signer")
	s.degenerate(c, i)
	in := [3][]*big.Int{s.lambda.share(i), s.kl.share(i), s.xl.share(i)}
	var ops [3]poly.CommitmentOpening
	for k := range in {
		ops[k] = mkOpening(in[k])
	}
	n := 0
	what := ""
	for k := range in {
		if n > 0 && !OneIn(c, 3, "more") || n == 0 && k < 2 && !OneIn(c, 3, "this") {
			continue
		}
		n++
		x := Int(c, 0, 4, "kind")
		what += string(rune('a'+k)) + []string{"simple", "simple pointer", "nil", "simple mask", "nil pointer"}[x] + " "
		switch x {
		case 0:
			ops[k] = SimpleOp(in[k][0])
		case 1:
			ops[k] = PtrOp(SimpleOp(in[k][0]))
		case 2:
			ops[k] = nil
		case 3:
			ops[k] = SimpleOp(in[k][1])
		case 4:
			ops[k] = (*poly.SimpleCommitmentOpening)(nil)
		}
	}
	c.Key(i, what)
	c.Label("%d wrong", n)
	c.Note("%s signer %d: %s", s, i, what)
	sh, err := s.newShare(ops[0], ops[1], ops[2])
	MustErr(c, err, "share of openings %s", what)
	if sh != nil && err == nil {
		c.Fatalf("a share all the same")
	}
	var none sign.ThresholdEcdsaSigShareInternal
	MustErr(c, s.verifyShare(&none, i), "verification of an empty share")
	for _, l := range Leaves(&none) {
		c.Fatalf("harness: leaf %s in an empty share", l.Path)
	}
}
