package checks

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP07(t *testing.T) {
	Run(t, "P07", []Sub{
		{"history", "a history of 1-6 operations on real dealings: random, resharings, products, changing committees, thresholds and dealer subsets, corrupted dealings recovered by complaints; all count", 120, history},
		{"algebra", "a transcript of dealings with chosen polynomials at arbitrary dealer indices, combined and opened at arbitrary indices, compared with the plain secrets; all count", 700, algebra},
		{"refused", "a transcript made of too few dealings, dealings of another kind or length, or for a wrong operation; all count", 800, refusedTranscript},
		{"compare", "comparison of transcripts with equal or different commitments; all count", 400, compareTranscripts},
	})
}

func history(c *C) {
	steps := Int(c, 1, 5, "steps")
	if Bool(c, "long") {
		steps = Int(c, 4, 6, "steps'")
	}
	var done []*trans
	var log []string
	for s := 0; s < steps; s++ {
		// what can be done with what there is
		var pairs, singles []*trans
		for _, t := range done {
			if t.g != nil {
				pairs = append(pairs, t)
			} else {
				singles = append(singles, t)
			}
		}
		type prod struct{ a, b *trans }
		var prods []prod
		for _, a := range singles {
			for _, b := range pairs {
				if min(len(a.ps), len(b.ps)) >= len(a.f)+len(b.f)-1 {
					prods = append(prods, prod{a, b})
				}
			}
		}
		var kinds []int
		if len(prods) > 0 {
			kinds = append(kinds, kProduct, kProduct, kProduct, kProduct)
		}
		if len(singles) > 0 {
			kinds = append(kinds, kUnmasked, kUnmasked)
		}
		if len(pairs) > 0 {
			kinds = append(kinds, kMasked, kMasked, kMasked)
		}
		kinds = append(kinds, kRandom)
		kind := kinds[U64(c, "kind")%uint64(len(kinds))]
		var a, b *trans
		switch kind {
		case kUnmasked:
			a = Pick(c, singles, "of")
		case kMasked:
			a = Pick(c, pairs, "of")
		case kProduct:
			p := Pick(c, prods, "of")
			a, b = p.a, p.b
		}
		bs := baseOf(kind, a, b)
		// a new committee, of another size as it may be
		n := Int(c, 1, 4, "n")
		if !OneIn(c, 3, "small") {
			n = Int(c, 3, 5, "n'")
		}
		maxT := n
		if n >= 3 { // mostly so that products remain possible
			maxT = (n + 1) / 2
			if OneIn(c, 4, "high threshold") {
				maxT = n
			}
		}
		t := Int(c, 1, maxT, "t")
		ps := parties(c, n, "keys")
		var all []int
		have := 5
		switch kind {
		case kUnmasked, kMasked:
			have = len(a.ps)
		case kProduct:
			have = min(len(a.ps), len(b.ps))
		}
		for i := 0; i < have; i++ {
			all = append(all, i)
		}
		take := bs.need()
		if OneIn(c, 2, "more") {
			take = Int(c, take, have, "dealers")
		}
		dealers := Subset(c, all, take, "dealers")
		if kind == kRandom {
			dealers = NodeSet(c, Int(c, 1, 3, "dealers"), "dealers")
		}
		ad := Data(c, "ad")
		corruption := Pick(c, []int{0, 3, 1}, "corruption")
		r := round(c, bs, dealers, ps, t, ad, corruption)
		switch kind { // against the secret of the base, independent of the combination
		case kUnmasked, kMasked:
			if r.f[0].Cmp(a.f[0]) != 0 {
				c.Fatalf("resharing changed the secret")
			}
		case kProduct:
			if r.f[0].Cmp(ref.Mul(a.f[0], b.f[0])) != 0 {
				c.Fatalf("wrong product")
			}
		}
		if kind == kUnmasked && !PV(r.T.ConstantTerm()).Eq(PV(a.T.ConstantTerm())) {
			c.Fatalf("resharing changed the public point")
		}
		// any t openings give back the secret
		var idx []int
		for i := range ps {
			idx = append(idx, i)
		}
		q := Subset(c, idx, t, "quorum")
		var ys []*big.Int
		for _, i := range q {
			ys = append(ys, OpVals(r.ops[i])[0])
		}
		if ref.InterpAt(ref.NodeXs(q), ys, new(big.Int)).Cmp(r.secret()) != 0 {
			c.Fatalf("the openings of %v do not determine the secret", q)
		}
		done = append(done, r)
		log = append(log, fmt.Sprintf("%s(t=%d n=%d dealers=%v corruption=%d)", kindName[kind], t, n, dealers, corruption))
		c.Label("%s", kindName[kind])
		c.Key(kind, n, t, dealers, ad, ps[0].sk)
	}
	for _, r := range done { // nothing later changed them
		checkTranscript(c, r)
	}
	c.Note("%s", strings.Join(log, " → "))
}

// bare is a dealing that consists of its commitment
func bare(d *dealt) *dealings.IDkgDealingInternal {
	if d.mask == nil {
		return &dealings.IDkgDealingInternal{Commitment: SimpleCom(d.values)}
	}
	return &dealings.IDkgDealingInternal{Commitment: PedersenCom(d.values, d.mask)}
}

// bareRound draws an operation on arbitrary indices; small keeps it cheap
func bareRound(c *C, kind, maxT, extra int) (*base, []*dealt, int) {
	b := makeBase(c, kind, maxT, "base")
	b.edge(c, -1) // the constant terms
	t := Int(c, 1, maxT, "t")
	m := b.need() + Int(c, 0, extra, "extra")
	var ds []*dealt
	for _, i := range NodeSet(c, m, "dealers") {
		d := &dealt{kind: kind, t: t, dealer: i, b: b}
		d.values = bulkPoly(c, b.secret(i), t, "values")
		if isPair(kind) {
			d.mask = bulkPoly(c, nil, t, "mask")
		}
		d.d = bare(d)
		ds = append(ds, d)
	}
	c.Key(kind, t, m)
	for _, d := range ds {
		c.Key(d.dealer, d.values)
	}
	return b, ds, t
}

func algebra(c *C) {
	kind := Int(c, 0, 3, "kind")
	maxT, extra := 3, 2
	if OneIn(c, 20, "many") { // more dealings than any committee of the tests
		maxT, extra = 2, Pick(c, []int{12, 15, 16, 17, 18, 24, 31, 32, 33, 40, 63, 64, 65, 70, 128, 130, 256, 260}, "extra")
	} else if OneIn(c, 40, "long") {
		maxT = Size(c, 4, 7, 2, 66, "long")
	}
	b, ds, t := bareRound(c, kind, maxT, extra)
	m := dealingMap(ds)
	before := Dump(m)
	T, err := dealings.NewTranscriptInternal(K, t, m, b.op)
	Must(c, err, "%s transcript of %d dealings, need %d", kindName[kind], len(ds), b.need())
	r := &trans{T: T, kind: kind}
	r.f, r.g = combine(kind, ds)
	checkTranscript(c, r)
	if r.f[0].Cmp(b.want(ds)) != 0 {
		c.Fatalf("%s transcript: secret", kindName[kind])
	}
	if Dump(m) != before {
		c.Fatalf("making a transcript changed the dealings")
	}
	i := Node(c, "receiver")
	if got := PV(T.EvaluateAt(NI(i))); !got.Eq(commitTo(r.share(i))) {
		c.Fatalf("%s transcript evaluated at %d: %s, want %s", kindName[kind], i, got, commitTo(r.share(i)))
	}
	var idx []NI
	var ops []poly.CommitmentOpening
	for _, d := range Shuffle(c, ds, "order") {
		op := d.opening(i)
		if OneIn(c, 3, "pointer") {
			op = PtrOp(op)
		}
		idx, ops = append(idx, NI(d.dealer)), append(ops, op)
	}
	opsDump := Dump(ops)
	op, err := dealings.CommitmentOpening.CombineOpenings(idx, ops, T.CombinedCommitment, NI(i), K)
	if err != nil || !SameVals(OpVals(op), r.share(i)) {
		c.Fatalf("%s transcript of dealers %v: receiver %d opens %v, %v; want %x", kindName[kind], idx, i, op, err, r.share(i))
	}
	if Dump(ops) != opsDump {
		c.Fatalf("combining changed the openings")
	}
	// with one of them altered, missing, of another receiver or of another kind
	what := ""
	switch Int(c, 0, 4, "fault") {
	case 0, 1:
		what = "altered"
		ls := Leaves(&ops)
		alterLeaf(c, Pick(c, ls, "leaf"))
	case 2:
		what = "missing"
		k := Int(c, 0, len(ops)-1, "k")
		idx, ops = append(append([]NI{}, idx[:k]...), idx[k+1:]...), append(append([]poly.CommitmentOpening{}, ops[:k]...), ops[k+1:]...)
	case 3:
		what = "another receiver's"
		d := Pick(c, ds, "d")
		for k := range idx {
			if int(idx[k]) == d.dealer {
				ops[k] = d.opening(OtherNode(c, i, "i'"))
			}
		}
	case 4:
		what = "other kind"
		k := Int(c, 0, len(ops)-1, "k")
		v := OpVals(ops[k])
		if len(v) == 1 {
			ops[k] = PedersenOp(v[0], new(big.Int))
		} else {
			ops[k] = SimpleOp(v[0])
		}
	}
	op, err = dealings.CommitmentOpening.CombineOpenings(idx, ops, T.CombinedCommitment, NI(i), K)
	if err == nil && !SameVals(OpVals(op), r.share(i)) {
		c.Fatalf("%s transcript, %s opening: receiver %d gets %x, which is not its share %x", kindName[kind], what, i, OpVals(op), r.share(i))
	}
	if err == nil && what == "other kind" {
		c.Fatalf("%s transcript: opening of the wrong kind is combined", kindName[kind])
	}
	c.Label("%s %s", kindName[kind], what)
	c.Label("dealings %s", bucket(len(ds), 1, 2, 3, 4, 8, 16, 32, 64))
	c.Note("%s of %d dealings (dealers %v), t=%d, receiver %d; then %s", kindName[kind], len(ds), idx, t, i, what)
}

func refusedTranscript(c *C) {
	kind := Int(c, 0, 3, "kind")
	b, ds, t := bareRound(c, kind, 3, 1)
	op := b.op
	what := ""
	fault := Int(c, 0, 6, "fault")
	if kind == kRandom && (fault == 0 || fault >= 5) {
		fault = 1 + fault%4
	}
	other := func(d *dealt) *dealings.IDkgDealingInternal { // same points, other kind
		if d.mask == nil {
			return &dealings.IDkgDealingInternal{Commitment: poly.PedersenCM.New(d.d.Commitment.Points())}
		}
		return &dealings.IDkgDealingInternal{Commitment: poly.SimpleCM.New(d.d.Commitment.Points())}
	}
	th := t
	switch fault {
	case 0:
		what = "too few dealings"
		ds = ds[:Int(c, 0, b.need()-1, "few")]
	case 1:
		what = "a dealing of the other kind"
		d := Pick(c, ds, "d")
		d.d = other(d)
	case 2:
		what = "all dealings of the other kind"
		for _, d := range ds {
			d.d = other(d)
		}
	case 3:
		what = "a dealing of another length"
		d := Pick(c, ds, "d")
		p := d.d.Commitment.Points()
		if len(p) > 1 && Bool(c, "shorter") {
			p = p[:len(p)-1]
		} else {
			p = append(append([]pointT{}, p...), Pt(AnyPoint(c, "extra")))
		}
		if isPair(kind) {
			d.d = &dealings.IDkgDealingInternal{Commitment: poly.PedersenCM.New(p)}
		} else {
			d.d = &dealings.IDkgDealingInternal{Commitment: poly.SimpleCM.New(p)}
		}
	case 4:
		what = "another threshold"
		th = Pick(c, []int{t + 1, t - 1, 0, 2 * t, t + 256}, "t'")
	case 5:
		what = "base of the other kind"
		wrong := poly.PolynomialCommitment(poly.PedersenCM.New(Pts(SimplePts(b.f))))
		if kind == kMasked {
			wrong = poly.SimpleCM.New(Pts(PedersenPts(b.f, b.g)))
		}
		switch kind {
		case kUnmasked:
			op = &dealings.ReshareOfUnmaskedTranscript{P1: wrap(c, wrong)}
		case kMasked:
			op = &dealings.ReshareOfMaskedTranscript{P1: wrap(c, wrong)}
		case kProduct:
			op = &dealings.UnmaskedTimesMaskedTranscript{Left: wrap(c, wrong), Right: wrap(c, PedersenCom(b.g, b.h))}
			if Bool(c, "right") {
				op = &dealings.UnmaskedTimesMaskedTranscript{Left: wrap(c, SimpleCom(b.f)), Right: wrap(c, poly.SimpleCM.New(Pts(PedersenPts(b.g, b.h))))}
			}
		}
	case 6:
		what = "unknown operation"
		op = Pick(c, []dealings.IDkgTranscriptOperationInternal{nil, 1, "random", struct{}{}}, "op")
		if kind == kUnmasked && Bool(c, "secret") { // a resharing of something else
			what = "resharing of another secret"
			f := append(ref.Poly{}, b.f...)
			f[0] = OtherScalar(c, f[0], "f0")
			op = &dealings.ReshareOfUnmaskedTranscript{P1: wrap(c, SimpleCom(f))}
		}
	}
	c.Key(fault, th)
	c.Label("%s: %s", kindName[kind], what)
	c.Note("%s, t=%d, %d dealings, need %d: %s", kindName[kind], t, len(ds), b.need(), what)
	T, err := dealings.NewTranscriptInternal(K, th, dealingMap(ds), op)
	if err == nil {
		c.Fatalf("%s transcript (t=%d) of %d dealings, with %s, is made: %d points", kindName[kind], t, len(ds), what, len(T.CombinedCommitment.Points()))
	}
}

func compareTranscripts(c *C) {
	n := Int(c, 1, 3, "n")
	pair := Bool(c, "pair")
	pts := make([]ref.Pt, n)
	for i := range pts {
		pts[i] = AnyPoint(c, "pt")
	}
	p2, pair2 := append([]ref.Pt{}, pts...), pair
	what := "equal"
	switch Int(c, 0, 4, "what") {
	case 0:
	case 1:
		i := Int(c, 0, n-1, "i")
		p2[i], what = OtherPoint(c, pts[i], "pt'"), "point"
	case 2:
		p2, what = append(p2, AnyPoint(c, "more")), "longer"
	case 3:
		pair2, what = !pair, "kind"
	case 4:
		p2, what = Shuffle(c, p2, "order"), "order"
	}
	mk := func(pair bool, p []ref.Pt) *dealings.IDkgTranscriptInternal {
		var cm poly.PolynomialCommitment = poly.SimpleCM.New(Pts(p))
		if pair {
			cm = poly.PedersenCM.New(Pts(p))
		}
		if Bool(c, "summation") {
			return &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.SummationCommitment{PolynomialCommitment: cm}}
		}
		return &dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: cm}}
	}
	a, b := mk(pair, pts), mk(pair2, p2)
	want := what == "equal" || (what == "order" && samePts(pts, p2))
	c.Key(pair, fmt.Sprint(pts), fmt.Sprint(p2), what)
	c.Label("%s %v", what, want)
	c.Note("transcripts of %d points that differ in %s", n, what)
	x, y := a.Compare(*b), b.Compare(*a)
	if (x == 0) != want {
		c.Fatalf("Compare = %d of transcripts that differ in %s", x, what)
	}
	if (x < 0) != (y > 0) || (x == 0) != (y == 0) {
		c.Fatalf("Compare is not antisymmetric: %d, %d", x, y)
	}
}
