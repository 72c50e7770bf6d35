package checks

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP12(t *testing.T) {
	Run(t, "P12", []Sub{
		{"evaluate", "arbitrary points (the identity, equal and opposite ones included) evaluated at an index; all count", 1200, commitEvaluate},
		{"create", "a polynomial (or a pair) committed to with a stated number of coefficients, fewer, as many or more than it needs; all count", 1200, commitCreate},
		{"open", "a commitment and an index of the 32-bit range, with the true opening and every kind of wrong one; all count", 900, commitOpen},
		{"compare", "two commitments equal or differing in one point, length, order or kind; all count", 2500, commitCompare},
	})
}

func commitCreate(c *C) {
	pair := Bool(c, "pair")
	size := Size(c, 6, 6, 60, 130, "size")
	p, q := drawPoly(c, size, "p"), drawPoly(c, size, "q")
	num := Int(c, max(1, len(p)-5), size+2, "num")
	fits := p.Deg() <= num && (!pair || q.Deg() <= num)
	c.Key(pair, p, q, num)
	c.Label("pair=%v fits=%v degree=%d/%d", pair, fits, p.Deg(), num)
	c.Note("degree %d (%d) committed with %d coefficients, pair=%v", p.Deg(), q.Deg(), num, pair)
	lp, lq := Poly(p), Poly(q)
	var cm poly.PolynomialCommitment
	var err error
	if pair {
		var x *poly.PedersenCommitment
		if x, err = poly.PedersenCM.Create(lp, lq, num); err == nil {
			cm = x
		}
	} else {
		var x *poly.SimpleCommitment
		if x, err = poly.SimpleCM.Create(lp, num); err == nil {
			cm = x
		}
	}
	if (err == nil) != fits {
		c.Fatalf("committing to %x and %x with %d coefficients (pair=%v): %v", p, q, num, pair, err)
	}
	if !samePoly(lp, p, 0) || !samePoly(lq, q, 0) {
		c.Fatalf("the polynomial changed")
	}
	if err != nil {
		return
	}
	want := make([]ref.Pt, num)
	for i := range want {
		if pair {
			want[i] = ref.Pedersen(coeffAt(p, i), coeffAt(q, i))
		} else {
			want[i] = ref.MulG(coeffAt(p, i))
		}
	}
	c.Owned(cm)
	if cm.Len() != num || !samePts(points(cm), want) {
		c.Fatalf("commitment to %x, %x (pair=%v) with %d coefficients has other points", p, q, pair, num)
	}
	if !PV(cm.ConstantTerm()).Eq(want[0]) || cm.CurveType() != K {
		c.Fatalf("wrong constant term")
	}
	ct, other := poly.Simple, poly.Pedersen
	if pair {
		ct, other = other, ct
	}
	if cm.Type() != ct || cm.VerifyIs(ct, K) != nil || cm.VerifyIs(other, K) == nil || cm.VerifyIs(ct, curve.EccCurveType(2)) == nil {
		c.Fatalf("wrong kind of commitment")
	}
	twice(c, "constant term", func() pointT { return cm.ConstantTerm() }, eachPoint(c, want[0]))
	// the constant term handed out is a copy
	k := cm.ConstantTerm()
	k.AddPoints(k, Pt(ref.G()))
	c.Owned(k)
	if !samePts(points(cm), want) {
		c.Fatalf("changing the constant term handed out changed the commitment")
	}
}

func commitOpen(c *C) {
	pair := Bool(c, "pair")
	t := Size(c, 1, 5, 60, 258, "t")
	p, q := bulkPoly(c, nil, t, "p"), bulkPoly(c, nil, t, "q")
	if OneIn(c, 4, "small") {
		p = PolyN(c, t, "p")
	}
	i := Node(c, "index")
	var cm poly.PolynomialCommitment
	share := bigs(p.AtNode(i))
	if pair {
		share = append(share, q.AtNode(i))
		x, err := poly.PedersenCM.Create(Poly(p), Poly(q), t)
		Must(c, err, "Create")
		cm = x
	} else {
		x, err := poly.SimpleCM.Create(Poly(p), t)
		Must(c, err, "Create")
		cm = x
	}
	c.Key(pair, p, q, i)
	c.Owned(cm)
	if got := PV(cm.EvaluateAt(NI(i))); !got.Eq(commitTo(share)) {
		c.Fatalf("commitment to %x at %d is %s, want %s", p, i, got, commitTo(share))
	}
	check := func(what string, idx int, o poly.CommitmentOpening, want bool) {
		before := Dump(o)
		if cm.CheckOpening(NI(idx), o) != want {
			c.Fatalf("CheckOpening of %s at %d (index %d, t=%d, pair=%v): want %v", what, idx, i, t, pair, want)
		}
		r, err := cm.ReturnOpeningIfConsistent(NI(idx), o)
		if (err == nil) != want || (want && Dump(r) != before) {
			c.Fatalf("ReturnOpeningIfConsistent of %s at %d: %v", what, idx, err)
		}
		if Dump(o) != before {
			c.Fatalf("checking changed the opening")
		}
	}
	check("the true opening", i, mkOpening(share), true)
	check("the true opening (pointer)", i, PtrOp(mkOpening(share)), true)
	bad := append([]*big.Int{}, share...)
	k := Int(c, 0, len(bad)-1, "which")
	bad[k] = OtherScalar(c, bad[k], "other")
	check("another opening", i, mkOpening(bad), false)
	check("another opening (pointer)", i, PtrOp(mkOpening(bad)), false)
	if pair {
		b2 := bigs(share[1], share[0])
		check("the opening turned round", i, mkOpening(b2), share[0].Cmp(share[1]) == 0)
		b3 := bigs(ref.Add(share[0], big.NewInt(1)), ref.Sub(share[1], big.NewInt(1)))
		check("value and mask off by opposite amounts", i, mkOpening(b3), false)
		check("an opening of the other kind", i, SimpleOp(share[0]), false)
		check("an opening of the other kind (pointer)", i, PtrOp(SimpleOp(share[0])), false)
	} else {
		check("an opening of the other kind", i, PedersenOp(share[0], new(big.Int)), false)
		check("an opening of the other kind (pointer)", i, PtrOp(PedersenOp(share[0], new(big.Int))), false)
	}
	check("no opening", i, nil, false)
	j := OtherNode(c, i, "j")
	same := p.AtNode(j).Cmp(p.AtNode(i)) == 0 && (!pair || q.AtNode(j).Cmp(q.AtNode(i)) == 0)
	check("the opening of another index", j, mkOpening(share), same)
	c.Label("pair=%v t=%d", pair, t)
	c.Note("pair=%v t=%d index %d, other index %d, altered part %d", pair, t, i, j, k)
}

func drawPoints(c *C, n int) []ref.Pt {
	r := make([]ref.Pt, n)
	for i := range r {
		if i > 0 && OneIn(c, 4, "related") {
			r[i] = OtherPoint(c, r[i-1], "pt")
			if Bool(c, "same") {
				r[i] = r[i-1]
			}
			continue
		}
		r[i] = AnyPoint(c, "pt")
	}
	return r
}
func commitment(pair bool, ps []ref.Pt) poly.PolynomialCommitment {
	if pair {
		return poly.PedersenCM.New(Pts(ps))
	}
	return poly.SimpleCM.New(Pts(ps))
}

func commitEvaluate(c *C) {
	pair := Bool(c, "pair")
	ps := drawPoints(c, Size(c, 1, 6, 60, 300, "n"))
	i := Node(c, "index")
	c.Key(pair, ps, i)
	c.Label("n=%d", len(ps))
	c.Note("%v at index %d", ps, i)
	cm := commitment(pair, ps)
	want := ref.EvalPts(ps, ref.NodeX(i))
	for r := 0; r < 2; r++ {
		e := cm.EvaluateAt(NI(i))
		if got := PV(e); !got.Eq(want) {
			c.Fatalf("%v evaluates at index %d to %s, want %s", ps, i, got, want)
		}
		Spoil(e)
	}
	if !samePts(points(cm), ps) {
		c.Fatalf("evaluation changed the points")
	}
	twice(c, "evaluation", func() pointT { return cm.EvaluateAt(NI(i)) }, eachPoint(c, want))
	twice(c, "clone", cm.Clone, func(x poly.PolynomialCommitment, what string) {
		if !samePts(points(x), ps) {
			c.Fatalf("%s of %v has other points", what, ps)
		}
	})
	if !samePts(points(cm), ps) {
		c.Fatalf("changing evaluations and clones changed the points")
	}
	// one of its points changed in place
	j := Int(c, 0, len(ps)-1, "changed")
	ps[j] = OtherPoint(c, ps[j], "changed")
	cm.Points()[j].Assign(Pt(ps[j]))
	want = ref.EvalPts(ps, ref.NodeX(i))
	if got := PV(cm.EvaluateAt(NI(i))); !got.Eq(want) {
		c.Fatalf("after its point %d changed, %v evaluates at index %d to %s, want %s", j, ps, i, got, want)
	}
	c.Owned(cm)
}

func commitCompare(c *C) {
	pair, pair2 := Bool(c, "pair"), Bool(c, "pair2")
	ps := drawPoints(c, Size(c, 1, 5, 100, 300, "n"))
	qs := append([]ref.Pt{}, ps...)
	what := Int(c, 0, 5, "what")
	switch what {
	case 0, 1:
	case 2:
		i := Int(c, 0, len(qs)-1, "i")
		qs[i] = OtherPoint(c, qs[i], "other")
	case 3:
		qs = append(qs, AnyPoint(c, "extra"))
	case 4:
		if len(qs) > 1 {
			qs = qs[:len(qs)-1]
		}
	case 5:
		qs = Shuffle(c, qs, "order")
	}
	a, b := commitment(pair, ps), commitment(pair2, qs)
	same := samePts(ps, qs)
	c.Key(pair, pair2, ps, qs)
	c.Label("what=%d same=%v kinds=%v", what, same, pair == pair2)
	c.Note("%v against %v", ps, qs)
	eq := func(x, y poly.PolynomialCommitment) bool { return x.Equal(y) == 1 }
	if eq(a, b) != same || eq(b, a) != same {
		c.Fatalf("%v and %v: Equal is %v and %v", ps, qs, eq(a, b), eq(b, a))
	}
	ra, rb := a.StableRepresentation(), b.StableRepresentation()
	if bytes.Equal(ra, rb) != (same && pair == pair2) {
		c.Fatalf("%v (pair=%v) and %v (pair=%v): representations %x and %x", ps, pair, qs, pair2, ra, rb)
	}
	want := []byte{'S', 1}
	if pair {
		want[0] = 'P'
	}
	for _, p := range ps {
		want = append(want, p.Bytes()...)
	}
	if !bytes.Equal(ra, want) || !bytes.Equal(a.StableRepresentation(), want) {
		c.Fatalf("representation of %v is %x, want %x", ps, ra, want)
	}
	// equal points in another projective form have the same representation
	g := Pt(ref.G())
	alt := a.Clone()
	for i, p := range alt.Points() {
		q := p.Clone().AddPoints(p, g)
		q = q.SubPoints(q, g)
		alt.Points()[i] = q
	}
	if !eq(alt, a) || !bytes.Equal(alt.StableRepresentation(), want) {
		c.Fatalf("the representation of %v depends on the projective form", ps)
	}
}
