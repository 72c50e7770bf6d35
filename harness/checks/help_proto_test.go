package checks

import (
	"math/big"
	"sort"

	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/tidwall/btree"

	. "verifharness/hx"
	"verifharness/ref"
)

// polyFrom are the coefficients of the polynomial through the points
func polyFrom(xs, ys []*big.Int) ref.Poly {
	r := ref.Poly{}
	for range xs {
		r = append(r, new(big.Int))
	}
	for i := range xs {
		num := ref.Poly{big.NewInt(1)}
		den := big.NewInt(1)
		for j := range xs {
			if j == i {
				continue
			}
			n := make(ref.Poly, len(num)+1) // num * (x - xs[j])
			for k := range n {
				n[k] = new(big.Int)
			}
			for k, v := range num {
				n[k+1] = ref.Add(n[k+1], v)
				n[k] = ref.Sub(n[k], ref.Mul(v, xs[j]))
			}
			num, den = n, ref.Mul(den, ref.Sub(xs[i], xs[j]))
		}
		f := ref.Mul(ys[i], ref.Inv(den))
		for k := range num {
			r[k] = ref.Add(r[k], ref.Mul(f, num[k]))
		}
	}
	return r
}

// learn finds out the polynomials of a dealing the library made
func (d *dealt) learn(c *C) *dealt {
	if d.values != nil {
		return d
	}
	var xs, v, m []*big.Int
	for i := 0; i < d.t; i++ {
		op, err := dealings.CommitmentOpening.OpenDealing(d.d, d.ad, NI(d.dealer), NI(i), d.ps[i].SK, d.ps[i].PK)
		Must(c, err, "opening a %s dealing of %d for %d", kindName[d.kind], d.dealer, i)
		o := OpVals(op)
		xs, v = append(xs, ref.NodeX(i)), append(v, o[0])
		if len(o) > 1 {
			m = append(m, o[1])
		}
	}
	d.values = polyFrom(xs, v)
	if m != nil {
		d.mask = polyFrom(xs, m)
	}
	pts := SimplePts(d.values)
	if m != nil {
		pts = PedersenPts(d.values, d.mask)
	}
	if !samePts(pts, points(d.d.Commitment)) {
		c.Fatalf("%s dealing of %d: its commitment is not to the polynomial its receivers get", kindName[d.kind], d.dealer)
	}
	return d
}

// combine are the polynomials a transcript of the dealings has
func combine(kind int, ds []*dealt) (f, g ref.Poly) {
	l := make([]*big.Int, len(ds))
	for i := range l {
		l[i] = big.NewInt(1)
	}
	if kind != kRandom {
		var xs []*big.Int
		for _, d := range ds {
			xs = append(xs, ref.Mod(ref.NodeX(d.dealer), ref.Q))
		}
		l = ref.Lagrange(xs, new(big.Int))
	}
	t := len(ds[0].values)
	f = make(ref.Poly, t)
	if ds[0].mask != nil {
		g = make(ref.Poly, t)
	}
	for k := 0; k < t; k++ {
		f[k] = new(big.Int)
		if g != nil {
			g[k] = new(big.Int)
		}
		for i, d := range ds {
			f[k] = ref.Add(f[k], ref.Mul(l[i], d.values[k]))
			if g != nil {
				g[k] = ref.Add(g[k], ref.Mul(l[i], d.mask[k]))
			}
		}
	}
	return
}

// trans is a transcript and everything secret about it
type trans struct {
	T    *dealings.IDkgTranscriptInternal
	kind int
	f, g ref.Poly // g: nil when unmasked
	ps   []party
	ops  []poly.CommitmentOpening // as the library gives them to the receivers
}

func (t *trans) secret() *big.Int { return t.f[0] }
func (t *trans) share(i int) []*big.Int {
	if t.g == nil {
		return bigs(t.f.AtNode(i))
	}
	return bigs(t.f.AtNode(i), t.g.AtNode(i))
}
func (t *trans) pts() []ref.Pt {
	if t.g == nil {
		return SimplePts(t.f)
	}
	return PedersenPts(t.f, t.g)
}

// known is a transcript made of polynomials chosen here, in the library's form
func known(f, g ref.Poly, sum bool) *trans {
	t := &trans{f: f, g: g, kind: kMasked}
	var cm poly.PolynomialCommitment
	if g == nil {
		cm = SimpleCom(f)
	} else {
		cm = PedersenCom(f, g)
	}
	if sum {
		t.T = &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.SummationCommitment{PolynomialCommitment: cm}}
	} else {
		t.T = &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: cm}}
	}
	return t
}

// baseOf is what the dealings of the next operation refer to
func baseOf(kind int, a, b *trans) *base {
	r := &base{kind: kind}
	switch kind {
	case kRandom:
		r.op = &dealings.RandomTranscript{}
	case kUnmasked:
		r.f = a.f
		r.op = &dealings.ReshareOfUnmaskedTranscript{P1: a.T.CombinedCommitment}
	case kMasked:
		r.f, r.g = a.f, a.g
		r.op = &dealings.ReshareOfMaskedTranscript{P1: a.T.CombinedCommitment}
	case kProduct:
		r.f, r.g, r.h = a.f, b.f, b.g
		r.op = &dealings.UnmaskedTimesMaskedTranscript{Left: a.T.CombinedCommitment, Right: b.T.CombinedCommitment}
	}
	return r
}

// want is the secret the operation must result in
func (b *base) want(ds []*dealt) *big.Int {
	switch b.kind {
	case kRandom:
		s := new(big.Int)
		for _, d := range ds {
			s = ref.Add(s, d.values[0])
		}
		return s
	case kProduct:
		return ref.Mul(b.f[0], b.g[0])
	}
	return b.f[0]
}

// need is how many dealings the operation takes at least
func (b *base) need() int {
	switch b.kind {
	case kRandom:
		return 1
	case kProduct:
		return len(b.f) + len(b.g) - 1
	}
	return len(b.f)
}

func dealingMap(ds []*dealt) *btree.Map[NI, *dealings.IDkgDealingInternal] {
	m := &btree.Map[NI, *dealings.IDkgDealingInternal]{}
	for _, d := range ds {
		m.Set(NI(d.dealer), d.d)
	}
	return m
}

// round runs one operation: every dealer deals to the receivers, some dealings
// are corrupted for some receivers, the transcript is made and every receiver
// obtains its opening, by complaint and the others' openings where needed. It
// checks all of it against the plain secrets.
func round(c *C, b *base, dealers []int, ps []party, t int, ad []byte, corruption int) *trans {
	n := len(ps)
	var ds []*dealt
	bad := map[int]map[int]bool{} // dealer -> receivers
	for _, i := range dealers {
		var d *dealt
		if Bool(c, "known") {
			d = dealKnown(c, b, t, i, ad, ps)
		} else {
			d = dealLib(c, b, t, i, ad, ps).learn(c)
		}
		if corruption > 0 && n > t && OneIn(c, corruption, "corrupt dealing") {
			var all []int
			for k := range ps {
				all = append(all, k)
			}
			targets := Subset(c, all, Int(c, 1, n-t, "targets"), "targets")
			d = d.corrupt(c, targets)
			bad[i] = map[int]bool{}
			for _, k := range targets {
				bad[i][k] = true
			}
		}
		if err := d.publicly(b.op, t, i, n, ad); err != nil {
			c.Fatalf("%s dealing of %d (n=%d t=%d) refused: %v", kindName[b.kind], i, n, t, err)
		}
		ds = append(ds, d)
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].dealer < ds[j].dealer })
	m := dealingMap(ds)
	T, err := dealings.NewTranscriptInternal(K, t, m, b.op)
	Must(c, err, "%s transcript of %d dealings %v, need %d", kindName[b.kind], len(ds), dealers, b.need())
	c.Owned(T)
	r := &trans{T: T, kind: b.kind, ps: ps}
	r.f, r.g = combine(b.kind, ds)
	if w := b.want(ds); r.f[0].Cmp(w) != 0 {
		c.Fatalf("harness: combined secret %x, want %x", r.f[0], w)
	}
	checkTranscript(c, r)
	for i := range ps {
		op, err := dealings.CommitmentOpening.FromDealings(m, T.CombinedCommitment, ad, NI(i), ps[i].SK, ps[i].PK)
		var mine []int
		for _, d := range ds {
			if bad[d.dealer][i] {
				mine = append(mine, d.dealer)
			}
		}
		if (err != nil) != (len(mine) > 0) {
			c.Fatalf("%s transcript: receiver %d, corrupted dealings %v: opening: %v", kindName[b.kind], i, mine, err)
		}
		if err != nil {
			op = r.recover(c, ds, m, i, mine, ad)
		}
		if !SameVals(OpVals(op), r.share(i)) {
			c.Fatalf("%s transcript: receiver %d opens %x, want %x", kindName[b.kind], i, OpVals(op), r.share(i))
		}
		if !T.CombinedCommitment.CheckOpening(NI(i), op) {
			c.Fatalf("%s transcript: the opening of %d is not consistent", kindName[b.kind], i)
		}
		r.ops = append(r.ops, op)
		c.Owned(op)
	}
	return r
}

// recover is the complaint and recovery round of one receiver
func (r *trans) recover(c *C, ds []*dealt, m *btree.Map[NI, *dealings.IDkgDealingInternal], i int, mine []int, ad []byte) poly.CommitmentOpening {
	ps := r.ps
	cs, err := complaints.GenerateComplaints(m, ad, NI(i), ps[i].SK, ps[i].PK, Seed(c, "complaint"))
	Must(c, err, "complaints of %d", i)
	if ks := cs.Keys(); !sameInts(ks, mine) {
		c.Fatalf("receiver %d complains about %v, corrupted for it are %v", i, ks, mine)
	}
	provided := &btree.Map[NI, *btree.Map[NI, poly.CommitmentOpening]]{}
	for _, d := range ds {
		cp, ok := cs.Get(NI(d.dealer))
		if !ok {
			continue
		}
		Must(c, cp.Verify(d.d, NI(d.dealer), NI(i), ps[i].PK, ad), "complaint of %d about %d", i, d.dealer)
		var good []int
		var ops []poly.CommitmentOpening
		for k := range ps {
			op, err := dealings.CommitmentOpening.OpenDealing(d.d, ad, NI(d.dealer), NI(k), ps[k].SK, ps[k].PK)
			if err != nil {
				continue
			}
			good = append(good, k)
			if Bool(c, "pointer") {
				op = PtrOp(op)
			}
			ops = append(ops, op)
		}
		take := Subset(c, good, Int(c, d.t, len(good), "openers"), "openers")
		sub := &btree.Map[NI, poly.CommitmentOpening]{}
		for _, k := range take {
			for x := range good {
				if good[x] == k {
					sub.Set(NI(k), ops[x])
				}
			}
		}
		provided.Set(NI(d.dealer), sub)
	}
	op, err := dealings.CommitmentOpening.FromDealingsAndOpenings(m, provided, r.T.CombinedCommitment, ad, NI(i), ps[i].SK, ps[i].PK)
	Must(c, err, "opening of %d from others' openings of the dealings %v", i, mine)
	return op
}

func sameInts(a []NI, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	b = append([]int{}, b...)
	sort.Ints(b)
	for i := range a {
		if int(a[i]) != b[i] {
			return false
		}
	}
	return true
}

// checkTranscript compares the transcript's commitment with the plain secrets
func checkTranscript(c *C, r *trans) {
	cm := r.T.CombinedCommitment
	want := r.pts()
	if !samePts(points(cm), want) {
		c.Fatalf("%s transcript: its commitment is not the one to its secret", kindName[r.kind])
	}
	if cm.Len() != len(want) {
		c.Fatalf("%s transcript: commitment of length %d, want %d", kindName[r.kind], cm.Len(), len(want))
	}
	ty := poly.Simple
	if r.g != nil {
		ty = poly.Pedersen
	}
	if cm.Type() != ty {
		c.Fatalf("%s transcript: commitment type %v", kindName[r.kind], cm.Type())
	}
	if !PV(r.T.ConstantTerm()).Eq(want[0]) {
		c.Fatalf("%s transcript: constant term", kindName[r.kind])
	}
}
