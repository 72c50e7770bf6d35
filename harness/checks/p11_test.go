package checks

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP11(t *testing.T) {
	Run(t, "P11", []Sub{
		{"complete", "a true statement with edge and random witnesses, any data: the proof verifies, is reproducible, and the reference verifier accepts it under the system's own domain separator; all count", 900, zkComplete},
		{"altered", "a valid proof with one element of the proof, the statement or the data changed; all count", 1600, zkAltered},
		{"false", "a proof made from a witness that does not satisfy the statement; all count", 700, zkFalse},
		{"cross", "a proof of one system or of an exchanged statement presented for another; all count", 400, zkCross},
		{"nonce", "two proofs from different seeds use different, non-zero nonces; all count", 300, zkNonce},
	})
}

const (
	zDlog = iota
	zEqual
	zProduct
)

var zkName = [...]string{"equal discrete logs", "equal openings", "product"}
var zkDST = [...]string{"ic-crypto-tecdsa-zk-proof-of-dlog-eq", "ic-crypto-tecdsa-zk-proof-of-equal-openings", "ic-crypto-tecdsa-zk-proof-of-product"}

// zkStmt is a statement with its witness; pts are the statement's points in
// the order Verify takes them
type zkStmt struct {
	sys int
	w   []*big.Int
	pts []ref.Pt
}

// statement computes the points the witness is about
//
//	dlog:    w = x; pts = g, h, x·g, x·h
//	equal:   w = secret, mask; pts = pedersen, simple
//	product: w = lhs, rhs, rhs mask, product, product mask; pts = the three commitments
func zkStatement(sys int, w []*big.Int, g, h ref.Pt) zkStmt {
	s := zkStmt{sys: sys, w: w}
	switch sys {
	case zDlog:
		s.pts = []ref.Pt{g, h, g.Mul(w[0]), h.Mul(w[0])}
	case zEqual:
		s.pts = []ref.Pt{ref.Pedersen(w[0], w[1]), ref.MulG(w[0])}
	case zProduct:
		s.pts = []ref.Pt{ref.MulG(w[0]), ref.Pedersen(w[1], w[2]), ref.Pedersen(w[3], w[4])}
	}
	return s
}

func drawStmt(c *C, sys int) zkStmt {
	var w []*big.Int
	switch sys {
	case zDlog:
		w = bigs(Scalar(c, "x"))
	case zEqual:
		w = bigs(Scalar(c, "secret"), Scalar(c, "mask"))
	case zProduct:
		l, r := Scalar(c, "lhs"), Scalar(c, "rhs")
		w = bigs(l, r, Scalar(c, "rhs mask"), ref.Mul(l, r), Scalar(c, "product mask"))
	}
	g, h := ref.G(), ref.H()
	if sys == zDlog {
		if Bool(c, "g?") {
			g = NonIdPoint(c, "g")
		}
		h = NonIdPoint(c, "h")
	}
	return zkStatement(sys, w, g, h)
}

// prove lets the library prove the statement with its witness
func (s zkStmt) prove(sd *seed.Seed, ad []byte) (any, error) {
	w := Ss(s.w)
	switch s.sys {
	case zDlog:
		return zk.ProofOfDLogEquivalenceIns.Create(sd, w[0], Pt(s.pts[0]), Pt(s.pts[1]), ad)
	case zEqual:
		return zk.ProofOfEqualOpeningsIns.Create(sd, w[0], w[1], ad)
	}
	return zk.ProofOfProductIns.Create(sd, w[0], w[1], w[2], w[3], w[4], ad)
}

func zkVerify(proof any, pts []ref.Pt, ad []byte) error {
	p := Pts(pts)
	switch x := proof.(type) {
	case *zk.ProofOfDLogEquivalence:
		return x.Verify(p[0], p[1], p[2], p[3], ad)
	case *zk.ProofOfEqualOpenings:
		return x.Verify(p[0], p[1], ad)
	case *zk.ProofOfProduct:
		return x.Verify(p[0], p[1], p[2], ad)
	}
	panic(fmt.Sprintf("%T", proof))
}

// zkRefVerify is the reference verifier: it tells which slots of the proof are
// challenge and responses, and gives the nonce commitments; nil if it refuses
func zkRefVerify(sys int, vals []*big.Int, pts []ref.Pt, ad []byte, dst string) (perm []int, coms []ref.Pt) {
	perms := [][]int{{0, 1}, {1, 0}}
	if sys == zProduct {
		perms = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	}
	for _, p := range perms {
		ch, z := vals[p[0]], vals[p[1]]
		ro := ref.NewRO(dst).Bytes("associated_data", ad)
		var cs []ref.Pt
		switch sys {
		case zDlog:
			cs = []ref.Pt{pts[0].Mul(z).Sub(pts[2].Mul(ch)), pts[1].Mul(z).Sub(pts[3].Mul(ch))}
			ro.Point("instance_g", pts[0]).Point("instance_h", pts[1]).Point("instance_g_x", pts[2]).Point("instance_h_x", pts[3])
			ro.Point("commitment1", cs[0]).Point("commitment2", cs[1])
		case zEqual:
			cs = []ref.Pt{ref.H().Mul(z).Sub(pts[0].Sub(pts[1]).Mul(ch))}
			ro.Point("instance_g", ref.G()).Point("instance_h", ref.H()).Point("instance_a", pts[0]).Point("instance_b", pts[1])
			ro.Point("commitment", cs[0])
		case zProduct:
			z2 := vals[p[2]]
			cs = []ref.Pt{ref.MulG(z).Sub(pts[0].Mul(ch)), pts[1].Mul(z).Add(ref.H().Mul(z2)).Sub(pts[2].Mul(ch))}
			ro.Point("instance_g", ref.G()).Point("instance_h", ref.H()).Point("instance_lhs", pts[0]).Point("instance_rhs", pts[1]).Point("instance_product", pts[2])
			ro.Point("commitment1", cs[0]).Point("commitment2", cs[1])
		}
		if ro.OutScalars(1)[0].Cmp(ch) == 0 {
			return p, cs
		}
	}
	return nil, nil
}

// leafVals are the scalars inside a proof
func leafVals(proof any) []*big.Int {
	var r []*big.Int
	for _, l := range zkLeaves(proof) {
		r = append(r, V(l.Get().(scalarT)))
	}
	return r
}
func zkLeaves(proof any) []Leaf { return Leaves(&proof) }

func zkSetup(c *C) (zkStmt, any, []byte) {
	sys := Int(c, 0, 2, "system")
	s := drawStmt(c, sys)
	ad := Data(c, "ad")
	c.Key(sys, s.w, ad)
	before := string(ad)
	proof, err := s.prove(Seed(c, "seed"), ad)
	Must(c, err, "proof of %s", zkName[sys])
	if err := zkVerify(proof, s.pts, ad); err != nil {
		c.Fatalf("true proof of %s, witness %x, refused: %v", zkName[sys], s.w, err)
	}
	if string(ad) != before {
		c.Fatalf("associated data changed")
	}
	return s, proof, ad
}

func zkComplete(c *C) {
	sys := Int(c, 0, 2, "system")
	s := drawStmt(c, sys)
	ad := Data(c, "ad")
	c.Key(sys, s.w, ad)
	c.Label("%s", zkName[sys])
	c.Note("%s, witness %x, %d bytes of data", zkName[sys], s.w, len(ad))
	sb := Expand(U64(c, "seed"), 32)
	proof, err := s.prove(seed.FromBytes(sb), ad)
	c.Owned(proof)
	Must(c, err, "proof of %s", zkName[sys])
	again, err := s.prove(seed.FromBytes(sb), append([]byte{}, ad...))
	Must(c, err, "proof of %s", zkName[sys])
	if Dump(proof) != Dump(again) {
		c.Fatalf("%s: two proofs from the same seed differ", zkName[sys])
	}
	before := Dump(proof)
	for i := 0; i < 2; i++ {
		if err := zkVerify(proof, s.pts, ad); err != nil {
			c.Fatalf("true proof of %s, witness %x, refused: %v", zkName[sys], s.w, err)
		}
	}
	if Dump(proof) != before {
		c.Fatalf("%s: verifying changed the proof", zkName[sys])
	}
	perm, coms := zkRefVerify(sys, leafVals(proof), s.pts, ad, zkDST[sys])
	if perm == nil {
		c.Fatalf("%s: the challenge of the proof is not the hash of statement, data and commitments under %q", zkName[sys], zkDST[sys])
	}
	// a proof the reference makes is accepted too
	r := bulk(c, 2, "nonce")
	vals := make([]*big.Int, len(perm))
	ch, zs := zkRefProve(s, r, ad)
	vals[perm[0]] = ch
	for i, z := range zs {
		vals[perm[i+1]] = z
	}
	mine := Copy(proof)
	for i, l := range zkLeaves(mine) {
		l.Set(S(vals[i]))
	}
	if err := zkVerify(mine, s.pts, ad); err != nil {
		c.Fatalf("%s: proof made by the reference refused: %v", zkName[sys], err)
	}
	_ = coms
}

// zkRefProve proves by the book
func zkRefProve(s zkStmt, r []*big.Int, ad []byte) (*big.Int, []*big.Int) {
	ro := ref.NewRO(zkDST[s.sys]).Bytes("associated_data", ad)
	switch s.sys {
	case zDlog:
		ro.Point("instance_g", s.pts[0]).Point("instance_h", s.pts[1]).Point("instance_g_x", s.pts[2]).Point("instance_h_x", s.pts[3])
		ro.Point("commitment1", s.pts[0].Mul(r[0])).Point("commitment2", s.pts[1].Mul(r[0]))
		ch := ro.OutScalars(1)[0]
		return ch, bigs(ref.Add(ref.Mul(s.w[0], ch), r[0]))
	case zEqual:
		ro.Point("instance_g", ref.G()).Point("instance_h", ref.H()).Point("instance_a", s.pts[0]).Point("instance_b", s.pts[1])
		ro.Point("commitment", ref.H().Mul(r[0]))
		ch := ro.OutScalars(1)[0]
		return ch, bigs(ref.Add(ref.Mul(s.w[1], ch), r[0]))
	}
	ro.Point("instance_g", ref.G()).Point("instance_h", ref.H()).Point("instance_lhs", s.pts[0]).Point("instance_rhs", s.pts[1]).Point("instance_product", s.pts[2])
	ro.Point("commitment1", ref.MulG(r[0])).Point("commitment2", s.pts[1].Mul(r[0]).Add(ref.H().Mul(r[1])))
	ch := ro.OutScalars(1)[0]
	z2 := ref.Sub(s.w[4], ref.Mul(s.w[0], s.w[2]))
	return ch, bigs(ref.Add(ref.Mul(s.w[0], ch), r[0]), ref.Add(ref.Mul(z2, ch), r[1]))
}

func zkAltered(c *C) {
	s, proof, ad := zkSetup(c)
	c.Label("%s", zkName[s.sys])
	// the same object, already seen to verify, or a copy never seen
	inPlace := Bool(c, "in place")
	n := Int(c, 1, 3, "alterations")
	for k := 0; k < n; k++ {
		zkAlterOnce(c, s, proof, ad, inPlace)
		if err := zkVerify(proof, s.pts, ad); err != nil {
			c.Fatalf("proof of %s refused after another was checked: %v", zkName[s.sys], err)
		}
	}
}

func zkAlterOnce(c *C, s zkStmt, proof any, ad []byte, inPlace bool) {
	what := ""
	bad, pts, data := proof, append([]ref.Pt{}, s.pts...), ad
	if !inPlace {
		bad = Copy(proof)
	}
	old := leafVals(proof)
	switch Int(c, 0, 10, "what") {
	case 0, 1, 2:
		ls := zkLeaves(bad)
		i := Int(c, 0, len(ls)-1, "leaf")
		what = fmt.Sprintf("proof element %d", i)
		alterLeaf(c, ls[i])
	case 3, 4:
		i := Int(c, 0, len(pts)-1, "point")
		what = fmt.Sprintf("statement point %d", i)
		pts[i] = OtherPoint(c, pts[i], "point")
	case 5, 6:
		what, data = "data", AlterBytes(c, ad, "ad'")
	case 7: // all the proof's elements together
		d := NonZero(c, "d")
		for i, l := range zkLeaves(bad) {
			switch {
			case d.Cmp(big.NewInt(2)) <= 0:
				l.Set(S(ref.Add(old[i], d)))
			case d.Bit(0) == 0:
				l.Set(S(ref.Mul(old[i], d)))
			default:
				l.Set(S(old[(i+1)%len(old)]))
			}
		}
		what = "all proof elements"
	default: // several points together, so that a sum, a difference or the set stays
		i := Int(c, 0, len(pts)-1, "i")
		j := (i + Int(c, 1, len(pts)-1, "j")) % len(pts)
		d := NonIdPoint(c, "d")
		if Bool(c, "small d") {
			d = ref.G()
		}
		how := Int(c, 0, 5, "how")
		switch how {
		case 0:
			pts[i], pts[j] = pts[j], pts[i]
		case 1:
			pts[i], pts[j] = pts[i].Add(d), pts[j].Add(d)
		case 2:
			pts[i], pts[j] = pts[i].Add(d), pts[j].Sub(d)
		case 3:
			for k := range pts {
				pts[k] = pts[k].Add(d)
			}
		case 4:
			for k := range pts {
				pts[k] = pts[k].Neg()
			}
		case 5:
			pts[i], pts[j] = pts[i].Neg(), pts[j].Neg()
		}
		what = []string{"two points exchanged", "two points shifted alike", "two points shifted against each other", "all points shifted", "all points negated", "two points negated"}[how]
	}
	if what != "data" && samePts(pts, s.pts) && fmt.Sprint(leafVals(bad)) == fmt.Sprint(old) {
		c.Label("unchanged")
		return
	}
	c.Key(what)
	c.Label("%s", what)
	c.Note("%s, %d bytes of data, altered: %s, same object %v", zkName[s.sys], len(ad), what, inPlace)
	if zkVerify(bad, pts, data) == nil {
		c.Fatalf("proof of %s with %s altered is accepted (data %d bytes)", zkName[s.sys], what, len(ad))
	}
	for i, l := range zkLeaves(proof) {
		l.Set(S(old[i]))
	}
}

func zkFalse(c *C) {
	sys := Int(c, 0, 2, "system")
	s := drawStmt(c, sys)
	ad := Data(c, "ad")
	c.Key(sys, s.w, ad)
	sd := Seed(c, "seed")
	var made zkStmt // what the prover proves
	pts := append([]ref.Pt{}, s.pts...)
	what := ""
	switch sys {
	case zDlog: // the two logarithms differ
		y := OtherScalar(c, s.w[0], "y")
		if Bool(c, "first") {
			pts[2], what = pts[0].Mul(y), "g to another exponent"
		} else {
			pts[3], what = pts[1].Mul(y), "h to another exponent"
		}
		made = s
		if Bool(c, "prove y") {
			made = zkStatement(sys, bigs(y), pts[0], pts[1])
		}
	case zEqual: // the Pedersen commitment holds another secret
		w := bigs(OtherScalar(c, s.w[0], "y"), s.w[1])
		if Bool(c, "simple") {
			pts[1], what = ref.MulG(w[0]), "simple commitment to another value"
		} else {
			pts[0], what = ref.Pedersen(w[0], w[1]), "masked commitment to another value"
		}
		made = s
		if Bool(c, "prove y") {
			made = zkStatement(sys, w, ref.G(), ref.H())
		}
	case zProduct:
		w := append([]*big.Int{}, s.w...)
		switch Int(c, 0, 3, "which") {
		case 0:
			w[3], what = OtherScalar(c, w[3], "product"), "another product"
		case 1: // the product of something else
			w[3], what = ref.Mul(w[0], w[2]), "left times mask"
		case 2:
			w[3], what = ref.Add(w[0], w[1]), "sum"
		case 3:
			w[3], what = ref.Mul(w[1], w[1]), "square"
		}
		if w[3].Cmp(s.w[3]) == 0 {
			w[3] = ref.Add(w[3], big.NewInt(1))
		}
		made = zkStatement(sys, w, ref.G(), ref.H())
		pts = made.pts
	}
	c.Label("%s: %s", zkName[sys], what)
	c.Note("%s of a false statement: %s", zkName[sys], what)
	proof, err := made.prove(sd, ad)
	if err != nil {
		return // refusing to prove is fine as well
	}
	if zkVerify(proof, pts, ad) == nil {
		c.Fatalf("proof of %s for a false statement (%s, witness %x) is accepted", zkName[sys], what, made.w)
	}
	// whatever is in the proof: a cheating prover controls its elements
	perm := bulk(c, 3, "random")
	for i, l := range zkLeaves(proof) {
		switch Int(c, 0, 3, "cheat") {
		case 0:
			l.Set(S(perm[i]))
		case 1:
			l.Set(S(new(big.Int)))
		}
	}
	if zkVerify(proof, pts, ad) == nil {
		c.Fatalf("made-up proof of %s for a false statement (%s) is accepted", zkName[sys], what)
	}
	// honest answer to a challenge drawn for another statement
	r := bulk(c, 2, "nonce")
	ch, zs := zkRefProve(made, r, ad)
	for i, l := range zkLeaves(proof) {
		if i == 0 {
			l.Set(S(ch))
		} else {
			l.Set(S(zs[i-1]))
		}
	}
	if zkVerify(proof, pts, ad) == nil {
		c.Fatalf("proof of %s by a prover with a false witness (%s) is accepted", zkName[sys], what)
	}
}

func zkCross(c *C) {
	ad := Data(c, "ad")
	v, m := Scalar(c, "v"), NonZero(c, "m")
	c.Key(v, m, ad)
	sd := Seed(c, "seed")
	what := ""
	put := func(to any, from any) any {
		t := Copy(to)
		vs := leafVals(from)
		for i, l := range zkLeaves(t) {
			l.Set(S(vs[i%len(vs)]))
		}
		return t
	}
	// (H, H, m·H) seen as equal logarithms and as equal openings of (v·G+m·H, v·G)
	eq := zkStatement(zEqual, bigs(v, m), ref.G(), ref.H())
	dl := zkStatement(zDlog, bigs(m), ref.H(), ref.H())
	pe, err := eq.prove(sd, ad)
	Must(c, err, "proof")
	pd, err := dl.prove(sd, ad)
	Must(c, err, "proof")
	pr := zkStatement(zProduct, bigs(v, m, v, ref.Mul(v, m), m), ref.G(), ref.H())
	pp, err := pr.prove(sd, ad)
	Must(c, err, "proof")
	stmts := []zkStmt{dl, eq, pr}
	proofs := []any{pd, pe, pp}
	i := Int(c, 0, 2, "from")
	j := (i + Int(c, 1, 2, "to")) % 3
	what = zkName[i] + " as " + zkName[j]
	if zkVerify(put(proofs[j], proofs[i]), stmts[j].pts, ad) == nil {
		c.Fatalf("proof of %s is accepted", what)
	}
	// another true statement of the same system
	o := drawStmt(c, i)
	if !samePts(o.pts, stmts[i].pts) {
		what += ", and another statement"
		if zkVerify(proofs[i], o.pts, ad) == nil {
			c.Fatalf("proof of %s is accepted for another true statement", zkName[i])
		}
	}
	// under the separators of the other systems the reference does not accept
	for k := range zkDST {
		perm, _ := zkRefVerify(i, leafVals(proofs[i]), stmts[i].pts, ad, zkDST[k])
		if (perm != nil) != (k == i) {
			c.Fatalf("proof of %s is made under the separator of %s", zkName[i], zkName[k])
		}
	}
	c.Label("%s", what)
	c.Note("%s", what)
}

func zkNonce(c *C) {
	sys := Int(c, 0, 2, "system")
	s := drawStmt(c, sys)
	ad := Data(c, "ad")
	c.Key(sys, s.w, ad)
	b := Expand(U64(c, "seed"), 32)
	b2 := AlterBytes(c, b, "seed'")
	p, err := s.prove(seed.FromBytes(b), ad)
	Must(c, err, "proof")
	p2, err := s.prove(seed.FromBytes(b2), ad)
	Must(c, err, "proof")
	_, k := zkRefVerify(sys, leafVals(p), s.pts, ad, zkDST[sys])
	_, k2 := zkRefVerify(sys, leafVals(p2), s.pts, ad, zkDST[sys])
	if k == nil || k2 == nil {
		c.Fatalf("%s: proof is not of the documented form", zkName[sys])
	}
	for i := range k {
		if k[i].Inf() {
			c.Fatalf("%s: zero nonce", zkName[sys])
		}
		if k[i].Eq(k2[i]) {
			c.Fatalf("%s: proofs from different seeds have the same nonce %d: the witness can be computed", zkName[sys], i)
		}
	}
	if len(k) == 2 && sys == zProduct {
		// the masks of the two responses are independent: equal ones would show
		// as commitment2 = r·(rhs commitment + H)
		vs := leafVals(p)
		perm, _ := zkRefVerify(sys, vs, s.pts, ad, zkDST[sys])
		ch := vs[perm[0]]
		r1 := ref.Sub(vs[perm[1]], ref.Mul(s.w[0], ch))
		r2 := ref.Sub(vs[perm[2]], ref.Mul(ref.Sub(s.w[4], ref.Mul(s.w[0], s.w[2])), ch))
		if r1.Cmp(r2) == 0 || r2.Sign() == 0 {
			c.Fatalf("product: the two nonces are not independent")
		}
	}
	c.Label("%s", zkName[sys])
	c.Note("%s from two seeds", zkName[sys])
}
