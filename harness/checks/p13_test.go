package checks

import (
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP13(t *testing.T) {
	Run(t, "P13", []Sub{
		{"queries", "coefficients, zero and equality tests, evaluation at boundary values; all count", 4000, polyQueries},
		{"programs", "a program of additions, multiplications, scalings and evaluations over aliased registers of polynomials, every register compared after each step; non-trivial when it has at least one operation", 4000, polyPrograms},
		{"products", "two polynomials of up to 300 coefficients, often of the same number, multiplied, also into one of them or by itself; non-trivial when both have coefficients", 500, polyProducts},
		{"interpolate", "samples of a polynomial or arbitrary ones at distinct points, of any order, often lying on a polynomial of lower degree; all count", 4000, polyInterpolate},
		{"repeated", "samples with a repeated point; all count", 2000, polyRepeated},
	})
}

// drawPoly draws up to max coefficients, with zeros at the ends and inside
func drawPoly(c *C, max int, label string) ref.Poly {
	n := Int(c, 0, max, label+".n")
	if max > 12 {
		n = max
	}
	p := ref.Poly(bulk(c, n, label))
	switch Int(c, 0, 6, label+".shape") {
	case 0:
		for i := range p {
			p[i] = Scalar(c, label)
		}
	case 1:
		for i := range p {
			if Bool(c, label+".zero") {
				p[i] = new(big.Int)
			}
		}
	case 2: // trailing zeros
		for i := Int(c, 0, n, label+".deg"); i < n; i++ {
			p[i] = new(big.Int)
		}
	case 3:
		for i := range p {
			p[i] = big.NewInt(int64(Int(c, 0, 3, label)))
		}
	}
	return p
}

func coeffAt(p ref.Poly, i int) *big.Int {
	if i < len(p) {
		return p[i]
	}
	return new(big.Int)
}
func polyAdd(a, b ref.Poly) ref.Poly {
	n := max(len(a), len(b))
	r := make(ref.Poly, n)
	for i := range r {
		r[i] = ref.Add(coeffAt(a, i), coeffAt(b, i))
	}
	return r
}
func polyMul(a, b ref.Poly) ref.Poly {
	if len(a)+len(b) == 0 {
		return nil
	}
	r := make(ref.Poly, len(a)+len(b))
	for i := range r {
		r[i] = new(big.Int)
	}
	t := new(big.Int)
	for i := range a {
		for j := range b {
			r[i+j].Add(r[i+j], t.Mul(a[i], b[j]))
		}
	}
	for i := range r {
		r[i].Mod(r[i], ref.Q)
	}
	return r
}
func polyScale(a ref.Poly, k *big.Int) ref.Poly {
	r := make(ref.Poly, len(a))
	for i := range r {
		r[i] = ref.Mul(a[i], k)
	}
	return r
}

// samePoly compares a library polynomial with the model, beyond both ends
func samePoly(p *poly.Polynomial, m ref.Poly, upto int) bool {
	for i := 0; i < max(len(m), upto)+2; i++ {
		if V(p.Coeff(i)).Cmp(coeffAt(m, i)) != 0 {
			return false
		}
	}
	return p.CurveType() == K
}

func polyPrograms(c *C) {
	const regs = 4
	L := make([]*poly.Polynomial, regs)
	M := make([]ref.Poly, regs)
	own := make([][]scalarT, regs) // what a register was made of, until it is overwritten
	for i := range L {
		M[i] = drawPoly(c, Size(c, 5, 5, 100, 130, "reg"), "reg")
		own[i] = Ss(M[i])
		L[i] = poly.Poly.New(K, own[i])
	}
	scal := []curve.EccScalar{S(Scalar(c, "k")), S(Scalar(c, "k"))}
	sval := []*big.Int{V(scal[0]), V(scal[1])}
	n := Int(c, 0, 10, "steps")
	if n == 0 {
		c.Trivial()
	}
	var prog []string
	for s := 0; s < n; s++ {
		d, a, b, k := Int(c, 0, regs-1, "d"), Int(c, 0, regs-1, "a"), Int(c, 0, regs-1, "b"), Int(c, 0, 1, "k")
		op := Pick(c, []string{"add", "mul", "scale", "eval", "fresh", "poke"}, "op")
		if op == "mul" && len(M[a])+len(M[b]) > 24 {
			op = "add"
		}
		var ret *poly.Polynomial
		switch op {
		case "add":
			ret = L[d].Add(L[a], L[b])
			M[d] = polyAdd(M[a], M[b])
		case "mul":
			ret = L[d].Mul(L[a], L[b])
			M[d] = polyMul(M[a], M[b])
		case "scale":
			ret = L[d].MulScalar(L[a], scal[k])
			M[d] = polyScale(M[a], sval[k])
		case "eval":
			got := V(L[a].EvaluateAt(scal[k]))
			if got.Cmp(M[a].At(sval[k])) != 0 {
				c.Fatalf("step %d of %v: evaluation at %x is %x, want %x", s, prog, sval[k], got, M[a].At(sval[k]))
			}
		case "fresh":
			L[d] = poly.Poly.Zero(K)
			M[d] = nil
		case "poke": // the scalars it was made of are the caller's to change
			if len(own[a]) > 0 {
				i := Int(c, 0, len(own[a])-1, "i")
				v := Scalar(c, "v")
				own[a][i].Assign(S(v))
				if V(L[a].Coeff(i)).Cmp(v) == 0 { // it may or may not have copied them
					M[a] = append(ref.Poly{}, M[a]...)
					M[a][i] = v
				}
			}
		}
		if op != "eval" && op != "poke" {
			own[d] = nil
		}
		prog = append(prog, op)
		c.Key(op, d, a, b, k)
		if ret != nil && ret != L[d] && !samePoly(ret, M[d], 0) {
			c.Fatalf("step %d (%s): returned polynomial differs from the receiver", s, op)
		}
		for i := range L {
			if !samePoly(L[i], M[i], 12) {
				c.Fatalf("after %v (receiver %d, operands %d %d) register %d is wrong: want %x", prog, d, a, b, i, M[i])
			}
		}
		for i := range scal {
			if V(scal[i]).Cmp(sval[i]) != 0 {
				c.Fatalf("after %v the scalar changed", prog)
			}
		}
	}
	c.Key(sval)
	c.Label("steps=%d", n)
	c.Note("%v", prog)
}

// polyProducts multiplies long polynomials
func polyProducts(c *C) {
	draw := func(n int, label string) ref.Poly {
		if n > 12 {
			return drawPoly(c, n, label)
		}
		return ref.Poly(bulk(c, n, label))
	}
	size := func(label string) int {
		switch Int(c, 0, 5, label) {
		case 0, 1:
			return int(U64(c, label+" size") % 100)
		case 2:
			return 1<<Int(c, 3, 7, label+" log") + Int(c, -1, 1, label+" off")
		case 3:
			return int(U64(c, label+" size") % 300)
		}
		return Int(c, 0, 40, label+" size")
	}
	n := size("n")
	m := n
	if OneIn(c, 3, "unequal") {
		m = size("m")
	}
	a, b := draw(n, "a"), draw(m, "b")
	own := [][]scalarT{Ss(a), Ss(b)}
	la, lb := poly.Poly.New(K, own[0]), poly.Poly.New(K, own[1])
	if n == 0 || m == 0 {
		c.Trivial()
	}
	how := Pick(c, []string{"new", "left", "right", "square"}, "how")
	c.Key(a, b, how)
	c.Label("%s", how)
	c.Label("n %s equal %v", bucket(n, 0, 1, 16, 32, 64, 128), n == m)
	c.Note("%d by %d coefficients, %s", n, m, how)
	dst, wa, wb := poly.Poly.Zero(K), a, b
	want := polyMul(a, b)
	switch how {
	case "left":
		dst, wa = la, want
	case "right":
		dst, wb = lb, want
	case "square":
		lb, b, wb = la, a, a
		want = polyMul(a, a)
	}
	r := dst.Mul(la, lb)
	if !samePoly(r, want, 0) || !samePoly(dst, want, 0) {
		c.Fatalf("the product (%s) of the polynomials %x and %x is wrong", how, a, b)
	}
	if !samePoly(la, wa, 0) || !samePoly(lb, wb, 0) {
		c.Fatalf("the product (%s) changed an operand", how)
	}
	c.Owned(r, la, lb)
}

// sampleXs draws distinct points
func sampleXs(c *C, n int) []*big.Int {
	seen := map[string]bool{}
	var xs []*big.Int
	style := Int(c, 0, 2, "xs")
	for len(xs) < n {
		var x *big.Int
		switch style {
		case 0:
			x = big.NewInt(int64(len(xs)))
		case 1:
			x = Scalar(c, "x")
		default:
			x = RandScalar(c, "x")
		}
		for seen[x.String()] {
			x = ref.Add(x, big.NewInt(1))
		}
		seen[x.String()] = true
		xs = append(xs, x)
	}
	return Shuffle(c, xs, "order")
}

func samplesOf(xs, ys []*big.Int) [][2]curve.EccScalar {
	r := make([][2]curve.EccScalar, len(xs))
	for i := range xs {
		r[i] = [2]curve.EccScalar{S(xs[i]), S(ys[i])}
	}
	return r
}

func polyInterpolate(c *C) {
	n := Size(c, 0, 12, 100, 131, "n")
	xs := sampleXs(c, n)
	ys := make([]*big.Int, n)
	kind := Int(c, 0, 3, "kind")
	switch kind {
	case 0: // any values
		for i := range ys {
			ys[i] = Scalar(c, "y")
		}
	case 1: // a polynomial of the right degree
		p := ref.Poly(bulk(c, n, "p"))
		for i := range ys {
			ys[i] = p.At(xs[i])
		}
	case 2: // of lower degree
		p := ref.Poly(bulk(c, Int(c, 0, n, "deg"), "p"))
		for i := range ys {
			ys[i] = p.At(xs[i])
		}
	case 3: // lower degree but for one sample
		p := ref.Poly(bulk(c, Int(c, 0, n, "deg"), "p"))
		for i := range ys {
			ys[i] = p.At(xs[i])
		}
		if n > 0 {
			i := Int(c, 0, n-1, "off")
			ys[i] = OtherScalar(c, ys[i], "off")
		}
	}
	c.Key(n, kind, xs, ys)
	c.Label("n=%d kind=%d", n, kind)
	c.Note("%d samples, kind %d", n, kind)
	in := samplesOf(xs, ys)
	before := Dump(in)
	p, err := poly.Poly.Interpolate(K, in)
	Must(c, err, "Interpolate(%d distinct samples)", n)
	c.Owned(p)
	if Dump(in) != before {
		c.Fatalf("interpolation changed its samples")
	}
	m := make(ref.Poly, n+3)
	for i := range m {
		m[i] = V(p.Coeff(i))
	}
	for i := n; i < len(m); i++ {
		if m[i].Sign() != 0 {
			c.Fatalf("interpolating %d samples gave degree %d", n, i)
		}
	}
	for i := range xs {
		if m.At(xs[i]).Cmp(ys[i]) != 0 {
			c.Fatalf("polynomial through %d samples (xs %x ys %x) has value %x at %x, want %x", n, xs, ys, m.At(xs[i]), xs[i], ys[i])
		}
	}
	if got := p.EvaluateAt(S(big.NewInt(77))); V(got).Cmp(m.At(big.NewInt(77))) != 0 {
		c.Fatalf("interpolated polynomial evaluates to %x at 77, want %x", V(got), m.At(big.NewInt(77)))
	}
	// the order does not matter
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	var in2 [][2]curve.EccScalar
	for _, i := range Shuffle(c, idx, "again") {
		in2 = append(in2, in[i])
	}
	q, err := poly.Poly.Interpolate(K, in2)
	Must(c, err, "Interpolate in another order")
	if p.Equal(q) != 1 || !samePoly(q, m, n) {
		c.Fatalf("interpolation depends on the order of the samples")
	}
}

func polyRepeated(c *C) {
	n := Size(c, 2, 9, 100, 131, "n")
	xs := sampleXs(c, n)
	ys := make([]*big.Int, n)
	p := ref.Poly(bulk(c, Int(c, 0, n, "deg"), "p"))
	for i := range ys {
		if ys[i] = p.At(xs[i]); Bool(c, "any") {
			ys[i] = Scalar(c, "y")
		}
	}
	i := Int(c, 0, n-1, "i")
	j := (i + Int(c, 1, n-1, "j")) % n
	xs[j] = xs[i]
	same := Bool(c, "same y")
	if same {
		ys[j] = ys[i]
	}
	c.Key(n, i, j, same, xs)
	c.Label("n=%d same=%v", n, same)
	c.Note("%d samples, %d and %d at the same point, same value %v", n, i, j, same)
	got, err := poly.Poly.Interpolate(K, samplesOf(xs, ys))
	if err == nil {
		c.Fatalf("samples %d and %d of %d at the same point (same value: %v) accepted: %v", i, j, n, same, Dump(got))
	}
}

func polyQueries(c *C) {
	m := drawPoly(c, Size(c, 8, 8, 40, 300, "size"), "p")
	p := Poly(m)
	c.Key(m)
	c.Note("%d coefficients", len(m))
	x := Scalar(c, "x")
	c.Key(x)
	nz, zero := 0, 1
	for _, v := range m {
		if v.Sign() != 0 {
			nz++
			zero = 0
		}
	}
	c.Label("coefficients=%d nonzero=%d", len(m), nz)
	if p.NonZeroCoefficients() != nz || p.IsZero() != zero {
		c.Fatalf("%x: NonZeroCoefficients %d IsZero %d, want %d %d", m, p.NonZeroCoefficients(), p.IsZero(), nz, zero)
	}
	xs := S(x)
	Spoil(p.EvaluateAt(S(x)))
	if got := V(p.EvaluateAt(xs)); got.Cmp(m.At(x)) != 0 || V(xs).Cmp(x) != 0 {
		c.Fatalf("%x at %x is %x, want %x", m, x, got, m.At(x))
	}
	// a coefficient handed out is a copy
	if len(m) > 0 {
		k := p.Coeff(Int(c, 0, len(m)-1, "i"))
		k = k.Add(k, S(big.NewInt(1)))
	}
	if !samePoly(p, m, 0) {
		c.Fatalf("reading changed the polynomial %x", m)
	}
	i := Int(c, 0, len(m)+2, "which")
	twice(c, "coefficient", func() scalarT { return p.Coeff(i) }, eachScalar(c, coeffAt(m, i)))
	twice(c, "evaluation", func() scalarT { return p.EvaluateAt(xs) }, eachScalar(c, m.At(x)))
	if !samePoly(p, m, 0) {
		c.Fatalf("changing what %x handed out changed it", m)
	}
	// equality with a polynomial of another length or one other coefficient
	o := append(ref.Poly{}, m...)
	for i := Int(c, 0, 3, "pad"); i > 0; i-- {
		o = append(o, new(big.Int))
	}
	if p.Equal(Poly(o)) != 1 || Poly(o).Equal(p) != 1 {
		c.Fatalf("%x is not equal to itself padded with zeros", m)
	}
	if len(o) > 0 {
		i := Int(c, 0, len(o)-1, "other")
		o[i] = OtherScalar(c, o[i], "other")
		if p.Equal(Poly(o)) != 0 || Poly(o).Equal(p) != 0 {
			c.Fatalf("%x equals %x", m, o)
		}
	}
	// a polynomial with a given constant
	num := Size(c, 0, 6, 40, 300, "num")
	k := Scalar(c, "k")
	r, err := poly.Poly.RandomWithConstant(S(k), num, Seed(c, "rng").Rng())
	c.Owned(p, r)
	if num == 0 {
		MustErr(c, err, "RandomWithConstant of no coefficients")
		return
	}
	Must(c, err, "RandomWithConstant(%d)", num)
	if V(r.Coeff(0)).Cmp(k) != 0 || r.Coeff(num).IsZero() != 1 || V(r.EvaluateAt(S(new(big.Int)))).Cmp(k) != 0 {
		c.Fatalf("RandomWithConstant(%x, %d) has constant %x", k, num, V(r.Coeff(0)))
	}
	if num > 1 && r.Coeff(num-1).IsZero() == 1 {
		c.Fatalf("RandomWithConstant(%d): last coefficient is zero", num)
	}
	if q := poly.Poly.Random(K, num, Seed(c, "rng").Rng()); q.NonZeroCoefficients() != num || q.Coeff(num).IsZero() != 1 {
		c.Fatalf("Random(%d) has %d coefficients", num, q.NonZeroCoefficients())
	}
}
