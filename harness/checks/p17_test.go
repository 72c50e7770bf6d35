package checks

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP17(t *testing.T) {
	Run(t, "P17", []Sub{
		{"index", "a point times a node index of the 32-bit range; all count", 3000, pointIndex},
		{"programs", "a program of additions, subtractions, doublings, scalar and index multiplications, assignments and clones over aliased registers; non-trivial when it has at least one operation", 2200, pointPrograms},
		{"binary", "addition and subtraction of two related points in every aliasing; all count", 4000, pointBinary},
		{"mul", "a point times a boundary-biased scalar, in every aliasing; all count", 3000, pointMul},
		{"lincomb", "two-term linear combinations, Pedersen and base-point shortcuts over related points and boundary scalars; all count", 2000, pointLinComb},
		{"constants", "the generators and the identity; the seed drawn only repeats the test", 4, pointConstants},
	})
}

func checkPoint(c *C, p curve.EccPoint, want ref.Pt, what string) {
	c.Helper()
	if p == nil {
		c.Fatalf("%s: nil, want %s", what, want)
	}
	c.Loose(p)
	if !bytes.Equal(p.Serialize(), want.Bytes()) {
		c.Fatalf("%s: got %x, want %s", what, p.Serialize(), want)
	}
	if p.IsInfinity() != want.Inf() {
		c.Fatalf("%s: IsInfinity %v for %s", what, p.IsInfinity(), want)
	}
	if !want.Inf() {
		if p.AffineX().BigInt().Cmp(want.X) != 0 || p.AffineY().BigInt().Cmp(want.Y) != 0 {
			c.Fatalf("%s: affine (%x, %x), want (%x, %x)", what, p.AffineX().BigInt(), p.AffineY().BigInt(), want.X, want.Y)
		}
	}
	if p.CurveType() != K {
		c.Fatalf("%s: curve %v", what, p.CurveType())
	}
}

// libPoint is the library's point, in a projective form drawn at random: fresh
// from decoding, or the result of additions that cancel out
func libPoint(c *C, p ref.Pt) curve.EccPoint {
	switch Int(c, 0, 3, "form") {
	case 1:
		q := Pt(p)
		g := curve.Point.GeneratorG(K)
		q = q.AddPoints(q, g)
		return q.SubPoints(q, g)
	case 2:
		q := Pt(p)
		q = q.Double(q)
		return q.SubPoints(q, Pt(p))
	}
	return Pt(p)
}

func pointPrograms(c *C) {
	const regs = 3
	var lib [regs]curve.EccPoint
	var mod [regs]ref.Pt
	for i := range lib {
		mod[i] = AnyPoint(c, "init")
		lib[i] = libPoint(c, mod[i])
		c.Key(mod[i])
	}
	n := Int(c, 0, 10, "steps")
	if n == 0 {
		c.Trivial()
	}
	var prog []string
	for s := 0; s < n; s++ {
		d, a, b := Int(c, 0, regs-1, "d"), Int(c, 0, regs-1, "a"), Int(c, 0, regs-1, "b")
		k := Int(c, 0, 9, "op")
		c.Key(d, a, b, k)
		var res curve.EccPoint
		var want ref.Pt
		var name string
		switch k {
		case 0, 1:
			name = "add"
			want = mod[a].Add(mod[b])
			res = lib[d].AddPoints(lib[a], lib[b])
		case 2, 3:
			name = "sub"
			want = mod[a].Sub(mod[b])
			res = lib[d].SubPoints(lib[a], lib[b])
		case 4:
			name = "double"
			want = mod[a].Add(mod[a])
			res = lib[d].Double(lib[a])
		case 5:
			k := Scalar(c, "k")
			name = "mul"
			c.Key(k)
			want = mod[a].Mul(k)
			ks := S(k)
			res = lib[d].ScalarMul(lib[a], ks)
			checkScalar(c, ks, k, "scalar after mul")
		case 6:
			i := Node(c, "i")
			name = "index"
			c.Key(i)
			checkPoint(c, lib[a].MulByNodeIndex(NI(i)), mod[a].Mul(ref.NodeX(i)), "MulByNodeIndex")
		case 7:
			name = "assign"
			want = mod[a]
			res = lib[d].Assign(lib[a])
		case 8:
			name = "clone"
			want = mod[a]
			lib[d] = lib[a].Clone()
			res = lib[d]
		case 9:
			name = "fresh"
			want = AnyPoint(c, "fresh")
			lib[d] = libPoint(c, want)
			res = lib[d]
		}
		prog = append(prog, name)
		if name != "index" {
			mod[d] = want
			checkPoint(c, res, want, name+" returned")
		}
		for i := range lib {
			checkPoint(c, lib[i], mod[i], "register after "+name)
			if got := i2b(lib[a].Equal(lib[i])); got != mod[a].Eq(mod[i]) {
				c.Fatalf("Equal(%s,%s)=%v", mod[a], mod[i], got)
			}
		}
	}
	c.Note("%v from %s", prog, mod[0])
}

// related draws a pair of points that are often equal, opposite, double or the identity
func related(c *C) (ref.Pt, ref.Pt) {
	a := AnyPoint(c, "a")
	switch Int(c, 0, 7, "rel") {
	case 0:
		return a, a
	case 1:
		return a, a.Neg()
	case 2:
		return a, a.Add(a)
	case 3:
		return a, ref.Id()
	case 4:
		return ref.Id(), a
	case 5: // same x up to the field's cube root of one: same y
		if a.Inf() {
			return a, a
		}
		beta, _ := new(big.Int).SetString("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee", 16)
		return a, ref.Pt{X: ref.MulM(a.X, beta, ref.P), Y: a.Y}
	}
	return a, AnyPoint(c, "b")
}

func pointBinary(c *C) {
	a, b := related(c)
	sub := Bool(c, "sub")
	c.Key(a, b, sub)
	c.Note("%s ± %s (sub=%v)", a, b, sub)
	f := func(r, x, y curve.EccPoint) curve.EccPoint { return r.AddPoints(x, y) }
	g := func(x, y ref.Pt) ref.Pt { return x.Add(y) }
	if sub {
		f = func(r, x, y curve.EccPoint) curve.EccPoint { return r.SubPoints(x, y) }
		g = func(x, y ref.Pt) ref.Pt { return x.Sub(y) }
	}
	for _, alias := range []string{"fresh", "r=a", "r=b", "a=b", "r=a=b"} {
		la, lb, w, vb := libPoint(c, a), libPoint(c, b), g(a, b), b
		if alias == "a=b" || alias == "r=a=b" {
			lb, vb, w = la, a, g(a, a)
		}
		r := curve.Point.GeneratorG(K)
		switch alias {
		case "r=a", "r=a=b":
			r = la
		case "r=b":
			r = lb
		}
		checkPoint(c, f(r, la, lb), w, alias+" returned")
		checkPoint(c, r, w, alias+" receiver")
		if r != la {
			checkPoint(c, la, a, alias+" first operand after")
		}
		if r != lb {
			checkPoint(c, lb, vb, alias+" second operand after")
		}
	}
	la, lb := libPoint(c, a), libPoint(c, b)
	if i2b(la.Equal(lb)) != a.Eq(b) || i2b(lb.Equal(la)) != a.Eq(b) || !i2b(la.Equal(la)) {
		c.Fatalf("Equal(%s,%s) wrong", a, b)
	}
	d := libPoint(c, b)
	checkPoint(c, d.Double(la), a.Add(a), "double")
	checkPoint(c, la, a, "operand of double")
	checkPoint(c, la.Double(la), a.Add(a), "double in place")
}

func pointMul(c *C) {
	a, k := AnyPoint(c, "a"), Scalar(c, "k")
	c.Key(a, k)
	c.Note("%x * %s", k, a)
	w := a.Mul(k)
	la, ks := libPoint(c, a), S(k)
	r := libPoint(c, AnyPoint(c, "garbage"))
	checkPoint(c, r.ScalarMul(la, ks), w, "mul returned")
	checkPoint(c, r, w, "mul receiver")
	checkPoint(c, la, a, "operand")
	checkScalar(c, ks, k, "scalar")
	checkPoint(c, la.ScalarMul(la, ks), w, "mul in place")
	checkScalar(c, ks, k, "scalar")
}

func pointIndex(c *C) {
	a, i := AnyPoint(c, "a"), Node(c, "i")
	c.Key(a, i)
	c.Note("(%d+1) * %s", i, a)
	la := libPoint(c, a)
	checkPoint(c, la.MulByNodeIndex(NI(i)), a.Mul(ref.NodeX(i)), "MulByNodeIndex")
	checkPoint(c, la, a, "operand")
	if OneIn(c, 3, "twice") {
		twice(c, "clone", la.Clone, eachPoint(c, a))
		twice(c, "MulByNodeIndex", func() pointT { return la.MulByNodeIndex(NI(i)) }, eachPoint(c, a.Mul(ref.NodeX(i))))
		twice(c, "decoded", func() pointT { return Pt(a) }, eachPoint(c, a))
		k := Scalar(c, "k")
		twice(c, "MulByG", func() pointT { return curve.Point.MulByG(S(k)) }, eachPoint(c, ref.MulG(k)))
		twice(c, "Pedersen", func() pointT { return curve.Point.Pedersen(S(k), S(k)) }, eachPoint(c, ref.Pedersen(k, k)))
		twice(c, "MulPoints", func() pointT { return curve.Point.MulPoints(la, S(k), la, S(k)) }, eachPoint(c, a.Mul(ref.Add(k, k))))
		twice(c, "G", func() pointT { return curve.Point.GeneratorG(K) }, eachPoint(c, ref.G()))
		twice(c, "H", func() pointT { return curve.Point.GeneratorH(K) }, eachPoint(c, ref.H()))
		twice(c, "identity", func() pointT { return curve.Point.Identity(K) }, eachPoint(c, ref.Id()))
		checkPoint(c, la, a, "operand")
	}
}

func pointLinComb(c *C) {
	a, b := related(c)
	x, y := Scalar(c, "x"), Scalar(c, "y")
	switch Int(c, 0, 7, "srel") {
	case 0:
		y = x
	case 1:
		y = ref.Neg(x)
	case 2:
		x = new(big.Int)
	case 3:
		y = new(big.Int)
	}
	c.Key(a, b, x, y)
	c.Note("%x*%s + %x*%s", x, a, y, b)
	la, lb, sx, sy := libPoint(c, a), libPoint(c, b), S(x), S(y)
	switch Int(c, 0, 4, "form") {
	case 0, 1:
		checkPoint(c, curve.Point.MulPoints(la, sx, lb, sy), a.Mul(x).Add(b.Mul(y)), "MulPoints")
	case 2:
		r := libPoint(c, ref.G()).(*curve.Secp256k1Point)
		checkPoint(c, r.LinComb(la, sx, lb, sy), a.Mul(x).Add(b.Mul(y)), "LinComb")
	case 3:
		checkPoint(c, curve.Point.MulPoints(la, sx, la, sx), a.Mul(ref.Add(x, x)), "MulPoints of the same objects")
	case 4:
		checkPoint(c, curve.Point.Pedersen(sx, sy), ref.Pedersen(x, y), "Pedersen")
	}
	checkPoint(c, curve.Point.MulByG(sx), ref.MulG(x), "MulByG")
	checkPoint(c, la, a, "first point after")
	checkPoint(c, lb, b, "second point after")
	checkScalar(c, sx, x, "first scalar after")
	checkScalar(c, sy, y, "second scalar after")
}

func pointConstants(c *C) {
	c.Key(Int(c, 0, 3, "i"))
	g, h := curve.Point.GeneratorG(K), curve.Point.GeneratorH(K)
	checkPoint(c, g, ref.G(), "G")
	checkPoint(c, h, ref.H(), "H")
	checkPoint(c, curve.Point.Identity(K), ref.Id(), "identity")
	qm1 := S(new(big.Int).Sub(ref.Q, big.NewInt(1)))
	for _, p := range []curve.EccPoint{g, h} {
		r := p.Clone().ScalarMul(p, qm1)
		if r.AddPoints(r, p); !r.IsInfinity() || p.IsInfinity() {
			c.Fatalf("generator %x is not of full order", p.Serialize())
		}
	}
	if i2b(g.Equal(h)) {
		c.Fatalf("the generators are equal")
	}
	// they are handed out afresh: changing one does not change the next
	g.AddPoints(g, h)
	h.AddPoints(h, h)
	checkPoint(c, curve.Point.GeneratorG(K), ref.G(), "G afterwards")
	checkPoint(c, curve.Point.GeneratorH(K), ref.H(), "H afterwards")
	id := curve.Point.Identity(K)
	id.AddPoints(id, g)
	checkPoint(c, curve.Point.Identity(K), ref.Id(), "identity afterwards")
}
