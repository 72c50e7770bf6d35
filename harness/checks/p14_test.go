package checks

import (
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP14(t *testing.T) {
	Run(t, "P14", []Sub{
		{"coefficients", "a set of distinct node indices of the 32-bit range in any order and a target (zero, a node, another node, any scalar); all count", 6000, lagrangeCoeffs},
		{"points", "points of a polynomial in the exponent, or arbitrary ones, interpolated at a target; all count", 700, lagrangePoints},
		{"refused", "empty and repeated node sets, sample lists of the wrong length; all count", 4000, lagrangeRefused},
	})
}

func nis(idx []int) []NI {
	r := make([]NI, len(idx))
	for i := range idx {
		r[i] = NI(idx[i])
	}
	return r
}

// target draws a value to interpolate at
func target(c *C, idx []int) (*big.Int, string) {
	switch Int(c, 0, 5, "target") {
	case 0, 1:
		return new(big.Int), "zero"
	case 2:
		return ref.NodeX(Pick(c, idx, "node")), "a node"
	case 3:
		return ref.NodeX(Node(c, "other node")), "node"
	case 4:
		return big.NewInt(int64(Int(c, 0, 20, "small"))), "small"
	}
	return Scalar(c, "any"), "scalar"
}

func coefficients(c *C, at *big.Int, idx []int, viaZero bool) *poly.LagrangeCoefficients {
	in := nis(idx)
	v := S(at)
	var l *poly.LagrangeCoefficients
	var err error
	if viaZero {
		l, err = poly.Lagrange.AtZero(K, in)
	} else {
		l, err = poly.Lagrange.AtValue(v, in)
	}
	Must(c, err, "Lagrange coefficients at %x of %v", at, idx)
	c.Owned(l)
	for i := range in {
		if in[i] != NI(idx[i]) {
			c.Fatalf("the node list changed")
		}
	}
	if V(v).Cmp(at) != 0 {
		c.Fatalf("the target changed")
	}
	return l
}

func lagrangeCoeffs(c *C) {
	n := Int(c, 1, 10, "n")
	if OneIn(c, 20, "many") {
		n = Int(c, 11, 40, "n+")
		if OneIn(c, 3, "very many") {
			n = Pick(c, []int{41, 47, 48, 49, 63, 64, 65, 66, 67, 79, 81, 97, 99, 100, 101, 127, 128, 129, 130, 131, 190, 255, 256, 257, 258}, "n++")
		}
	}
	idx := NodeSet(c, n, "nodes")
	at, how := target(c, idx)
	c.Key(idx, at)
	c.Label("%s n %s", how, bucket(n, 1, 2, 3, 11, 41, 64, 128, 256))
	c.Note("nodes %v at %x", idx, at)
	viaZero := at.Sign() == 0 && Bool(c, "AtZero")
	l := coefficients(c, at, idx, viaZero)
	want := ref.Lagrange(ref.NodeXs(idx), at)
	if len(l.Coefficients()) != n {
		c.Fatalf("%d coefficients for %d nodes", len(l.Coefficients()), n)
	}
	for i, k := range l.Coefficients() {
		if V(k).Cmp(want[i]) != 0 {
			c.Fatalf("nodes %v at %x: coefficient %d is %x, want %x", idx, at, i, V(k), want[i])
		}
	}
	p := drawPoly(c, n, "p")
	if len(p) == 0 {
		p = ref.Poly{new(big.Int)}
	}
	ys := make([]*big.Int, n)
	for i := range ys {
		ys[i] = p.AtNode(idx[i])
	}
	for round := 0; round < 2; round++ { // the coefficients can be used again
		in := Ss(ys)
		got, err := l.InterpolateScalar(in)
		Must(c, err, "InterpolateScalar")
		c.Owned(got)
		if V(got).Cmp(p.At(at)) != 0 {
			c.Fatalf("polynomial %x sampled at nodes %v interpolates at %x to %x, want %x (round %d)", p, idx, at, V(got), p.At(at), round)
		}
		for i := range in {
			if V(in[i]).Cmp(ys[i]) != 0 {
				c.Fatalf("sample %d changed", i)
			}
		}
	}
	// another order of the nodes
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	perm = Shuffle(c, perm, "perm")
	idx2, y2 := make([]int, n), make([]*big.Int, n)
	for i, j := range perm {
		idx2[i], y2[i] = idx[j], ys[j]
	}
	l2 := coefficients(c, at, idx2, false)
	got, err := l2.InterpolateScalar(Ss(y2))
	Must(c, err, "InterpolateScalar")
	if V(got).Cmp(p.At(at)) != 0 {
		c.Fatalf("nodes %v in the order %v interpolate at %x to %x, want %x", idx, idx2, at, V(got), p.At(at))
	}
	// made from given coefficients
	l3, err := poly.Lagrange.New(Ss(want))
	Must(c, err, "Lagrange.New")
	if l3.Equal(l) != 1 || l.Equal(l3) != 1 {
		c.Fatalf("equal coefficients compare as different")
	}
	i := Int(c, 0, n-1, "i")
	want[i] = OtherScalar(c, want[i], "other")
	l4, err := poly.Lagrange.New(Ss(want))
	Must(c, err, "Lagrange.New")
	if l4.Equal(l) != 0 {
		c.Fatalf("different coefficients compare as equal")
	}
	l5, _ := poly.Lagrange.New(append(Ss(want), S(new(big.Int))))
	if l5.Equal(l) != 0 || l.Equal(l5) != 0 {
		c.Fatalf("coefficients of different numbers compare as equal")
	}
}

func lagrangePoints(c *C) {
	n := Int(c, 1, 7, "n")
	idx := NodeSet(c, n, "nodes")
	at, how := target(c, idx)
	xs := ref.NodeXs(idx)
	ys := make([]ref.Pt, n)
	var want ref.Pt
	if Bool(c, "any points") {
		for i := range ys {
			ys[i] = AnyPoint(c, "y")
		}
		want = ref.InterpPtAt(xs, ys, at)
	} else {
		p, q := bulkPoly(c, nil, n, "p"), bulkPoly(c, nil, n, "q")
		for i := range ys {
			ys[i] = ref.Pedersen(p.AtNode(idx[i]), q.AtNode(idx[i]))
		}
		want = ref.Pedersen(p.At(at), q.At(at))
	}
	c.Key(idx, at, ys)
	c.Label("%s n=%d", how, n)
	c.Note("points at nodes %v, target %x", idx, at)
	l := coefficients(c, at, idx, false)
	in := Pts(ys)
	for round := 0; round < 2; round++ {
		got, err := l.InterpolatePoint(in)
		Must(c, err, "InterpolatePoint")
		c.Owned(got)
		if !PV(got).Eq(want) {
			c.Fatalf("points at nodes %v interpolate at %x to %s, want %s", idx, at, PV(got), want)
		}
		if !samePts(PVs(in), ys) {
			c.Fatalf("the sample points changed")
		}
	}
}

func lagrangeRefused(c *C) {
	n := Int(c, 1, 8, "n")
	idx := NodeSet(c, n, "nodes")
	at, _ := target(c, idx)
	what := Int(c, 0, 3, "what")
	c.Key(n, idx, at, what)
	switch what {
	case 0:
		c.Label("no nodes")
		c.Note("no nodes")
		_, err := poly.Lagrange.AtValue(S(at), nil)
		MustErr(c, err, "AtValue without nodes")
		_, err = poly.Lagrange.AtZero(K, []NI{})
		MustErr(c, err, "AtZero without nodes")
		_, err = poly.Lagrange.New([]curve.EccScalar{})
		MustErr(c, err, "no coefficients")
	case 1: // a node twice, anywhere
		dup := append([]int{}, idx...)
		x := Pick(c, idx, "dup")
		pos := Int(c, 0, n, "pos")
		dup = append(dup[:pos], append([]int{x}, dup[pos:]...)...)
		c.Label("repeated")
		c.Note("repeated node in %v", dup)
		_, err := poly.Lagrange.AtValue(S(at), nis(dup))
		MustErr(c, err, "nodes %v at %x", dup, at)
		_, err = poly.Lagrange.AtZero(K, nis(dup))
		MustErr(c, err, "nodes %v at zero", dup)
	default: // wrong number of samples
		m := Int(c, 0, n+3, "m")
		if m == n {
			m = n - 1
		}
		c.Label("wrong length")
		c.Note("%d samples for %d nodes", m, n)
		l := coefficients(c, at, idx, false)
		if v, err := l.InterpolateScalar(Ss(bulk(c, m, "ys"))); err == nil {
			c.Fatalf("%d scalars interpolated over %d nodes: %x", m, n, V(v))
		}
		ps := make([]ref.Pt, m)
		for i := range ps {
			ps[i] = ref.G()
		}
		if v, err := l.InterpolatePoint(Pts(ps)); err == nil {
			c.Fatalf("%d points interpolated over %d nodes: %s", m, n, PV(v))
		}
	}
}
