package checks

import (
	"math/big"
	"testing"

	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/tidwall/btree"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP08(t *testing.T) {
	Run(t, "P08", []Sub{
		{"rebuild", "openings by any set of up to 130 receivers at arbitrary indices, share rebuilt at any index; all count", 1500, rebuildShare},
		{"altered", "a quorum of openings altered, exchanged, stale, mixed or cancelling; all count", 2400, rebuildAltered},
		{"history", "several rebuildings in a row, by quorums that are alike, of dealings that are alike, between refused ones; all count", 400, rebuildHistory},
		{"combine", "a transcript's share from dealings, some opened by others, with and without corruption and with bad openings; all count", 300, combineWithOpenings},
	})
}

// bareDealing is a dealing that consists of its commitment, wrapped as it may be
func bareDealing(c *C, maxT int) *dealt {
	kind := Int(c, 0, 3, "kind")
	b := &base{kind: kRandom}
	d := &dealt{kind: kind, t: Size(c, 1, maxT, 60, 130, "t"), b: b}
	d.values = bulkPoly(c, nil, d.t, "values")
	if isPair(kind) {
		d.mask = bulkPoly(c, nil, d.t, "mask")
	}
	d.d = bare(d)
	c.Key(kind, d.t, d.values)
	return d
}

// special makes the value or the mask at an index zero, or a small number
func (d *dealt) special(c *C, i int) {
	if !OneIn(c, 8, "special") {
		return
	}
	v := big.NewInt(int64(Int(c, -2, 1, "special share")))
	if v.Sign() < 0 {
		v = new(big.Int)
	}
	k := Int(c, 0, d.t-1, "special coefficient")
	if which := Int(c, 0, 2, "special part"); which != 1 {
		force(d.values, k, i, v)
	} else if d.mask == nil {
		return
	}
	if d.mask != nil && Bool(c, "special mask") {
		force(d.mask, k, i, v)
	}
	d.d = bare(d)
}

func rebuildShare(c *C) {
	d := bareDealing(c, 5)
	k := Int(c, 0, d.t+2, "openings")
	idx := NodeSet(c, k, "openers")
	at := Node(c, "at")
	if k > 0 && OneIn(c, 4, "an opener") {
		at = Pick(c, idx, "which")
	}
	d.special(c, at)
	if k > 0 {
		d.special(c, idx[0])
	}
	ops := make([]poly.CommitmentOpening, k)
	for i, x := range idx {
		ops[i] = d.opening(x)
		if OneIn(c, 3, "pointer") {
			ops[i] = PtrOp(ops[i])
		}
	}
	m := openMap(idx, ops)
	before := Dump(m) + Dump(d.d)
	c.Key(idx, at)
	c.Label("%s t=%d openings=%d", map[bool]string{true: "pair", false: "single"}[isPair(d.kind)], d.t, k)
	c.Note("t=%d, openings of %v, rebuilt at %d", d.t, idx, at)
	op, err := dealings.ReconstructShareFromOpenings(d.d, m, NI(at))
	if k < d.t {
		if err == nil {
			c.Fatalf("share %d rebuilt from %d openings, threshold %d", at, k, d.t)
		}
		return
	}
	if err != nil || !SameVals(OpVals(op), d.share(at)) {
		c.Fatalf("share %d from the openings of %v (t=%d): %v, %v; want %x", at, idx, d.t, op, err, d.share(at))
	}
	if !d.d.Commitment.CheckOpening(NI(at), op) || !commits(points(d.d.Commitment), at, OpVals(op)) {
		c.Fatalf("share %d is not consistent", at)
	}
	if Dump(m)+Dump(d.d) != before {
		c.Fatalf("rebuilding changed the openings or the dealing")
	}
	// any exact quorum and any other order of insertion gives the same
	m2 := openMap(nil, nil)
	for _, i := range Shuffle(c, idx, "again")[:d.t] {
		m2.Set(NI(i), d.opening(i))
	}
	op, err = dealings.ReconstructShareFromOpenings(d.d, m2, NI(at))
	if err != nil || !SameVals(OpVals(op), d.share(at)) {
		c.Fatalf("share %d from a subset of %v: %v, %v", at, idx, op, err)
	}
}

func rebuildAltered(c *C) {
	d := bareDealing(c, 4)
	k := d.t + Int(c, 0, 2, "more")
	idx := NodeSet(c, k, "openers")
	at := Node(c, "at")
	if OneIn(c, 4, "an opener") {
		at = Pick(c, idx, "which")
	}
	d.special(c, at)
	if k > 0 {
		d.special(c, idx[0])
	}
	ops := make([]poly.CommitmentOpening, k)
	for i, x := range idx {
		ops[i] = d.opening(x)
	}
	what := ""
	wrongKind := false
	switch Int(c, 0, 9, "fault") {
	case 0, 1:
		what = "altered"
		alterLeaf(c, Pick(c, Leaves(&ops), "leaf"))
	case 2:
		what = "exchanged"
		if k == 1 {
			ops[0] = d.opening(OtherNode(c, idx[0], "i'"))
			break
		}
		i := Int(c, 0, k-2, "i")
		ops[i], ops[i+1] = ops[i+1], ops[i]
	case 3:
		what = "of another index"
		i := Int(c, 0, k-1, "i")
		ops[i] = d.opening(OtherNode(c, idx[i], "i'"))
	case 4:
		what = "of another dealing"
		o := bareDealing(c, 4)
		i := Int(c, 0, k-1, "i")
		ops[i] = o.opening(idx[i])
		wrongKind = isPair(o.kind) != isPair(d.kind)
	case 5:
		what = "of another kind"
		i := Int(c, 0, k-1, "i")
		v := OpVals(ops[i])
		if len(v) == 1 {
			ops[i] = PedersenOp(v[0], new(big.Int))
		} else {
			ops[i] = SimpleOp(v[0])
		}
		wrongKind = true
	case 6: // changes that cancel at the index
		what = "cancelling"
		if k == 1 {
			break
		}
		i := Int(c, 0, k-2, "i")
		j := Int(c, i+1, k-1, "j")
		l := ref.Lagrange(nodeXsModQ(idx), ref.Mod(ref.NodeX(at), ref.Q))
		a := NonZero(c, "a")
		if l[i].Sign() == 0 || l[j].Sign() == 0 { // the index is an opener's: these do not matter
			a = new(big.Int)
		}
		b := ref.Neg(ref.Mul(ref.Mul(a, l[i]), ref.Inv(l[j])))
		for y, add := range map[int]*big.Int{i: a, j: b} {
			v := OpVals(ops[y])
			v[0] = ref.Add(v[0], add)
			ops[y] = mkOpening(v)
		}
	case 7: // value and mask shifted against each other
		what = "value against mask"
		i := Int(c, 0, k-1, "i")
		v := OpVals(ops[i])
		x := NonZero(c, "x")
		v[0] = ref.Add(v[0], x)
		if len(v) > 1 {
			v[1] = ref.Sub(v[1], x)
		}
		ops[i] = mkOpening(v)
	case 8:
		what = "nothing there"
		i := Int(c, 0, k-1, "i")
		ops[i] = nil
		wrongKind = true
	case 9: // consistent openings of a different polynomial at all indices
		what = "all of another dealing"
		o := &dealt{kind: d.kind, t: d.t, values: append(ref.Poly{}, d.values...), mask: append(ref.Poly(nil), d.mask...)}
		e := Int(c, 0, d.t-1, "e")
		o.values[e] = OtherScalar(c, o.values[e], "coeff")
		for i, x := range idx {
			ops[i] = o.opening(x)
		}
	}
	for i := range ops {
		if OneIn(c, 3, "pointer") && ops[i] != nil {
			ops[i] = PtrOp(ops[i])
		}
	}
	c.Key(idx, at, what)
	c.Label("%s", what)
	c.Note("t=%d, openings of %v, one %s, rebuilt at %d", d.t, idx, what, at)
	op, err := dealings.ReconstructShareFromOpenings(d.d, openMap(idx, ops), NI(at))
	if err == nil && !SameVals(OpVals(op), d.share(at)) {
		c.Fatalf("share %d from openings of %v (t=%d), %s: %x, the true one is %x", at, idx, d.t, what, OpVals(op), d.share(at))
	}
	if err == nil && wrongKind {
		c.Fatalf("share %d rebuilt from openings of which one is of another kind (%s)", at, what)
	}
}

// rebuildHistory rebuilds shares one after the other: what was computed for one
// quorum, index or dealing must not be used for another
func rebuildHistory(c *C) {
	maxT := 5
	if OneIn(c, 3, "large") {
		maxT = 20
	}
	d := bareDealing(c, maxT)
	ds := []*dealt{d}
	// a twin: one coefficient different
	o := &dealt{kind: d.kind, t: d.t, b: d.b, values: append(ref.Poly{}, d.values...), mask: append(ref.Poly(nil), d.mask...)}
	e := Int(c, 0, d.t-1, "e")
	o.values[e] = OtherScalar(c, o.values[e], "coeff")
	o.d = bare(o)
	ds = append(ds, o)
	k := d.t + Int(c, 0, 4, "more")
	set := NodeSet(c, k, "openers")
	at := Node(c, "at")
	c.Label("t<=%d openings<=%d", (d.t+4)/5*5, (k+4)/5*5)
	for i, n := 0, Int(c, 3, 7, "rounds"); i < n; i++ {
		switch Int(c, 0, 3, "next") {
		case 0:
			at = OtherNode(c, at, "at")
		default:
			set = Sister(c, set, "sister")
		}
		d := Pick(c, ds, "dealing")
		c.Key(set, at)
		ops := make([]poly.CommitmentOpening, len(set))
		for j, x := range set {
			ops[j] = d.opening(x)
		}
		if OneIn(c, 3, "bad") {
			bad := append([]poly.CommitmentOpening{}, ops...)
			bad[Int(c, 0, len(set)-1, "bad")] = ds[Int(c, 0, 1, "from")].opening(Node(c, "bad"))
			op, err := dealings.ReconstructShareFromOpenings(d.d, openMap(set, bad), NI(at))
			if err == nil && !SameVals(OpVals(op), d.share(at)) {
				c.Fatalf("round %d: share %d from openings of %v (t=%d), one of them wrong: %x, the true one is %x", i, at, set, d.t, OpVals(op), d.share(at))
			}
		}
		op, err := dealings.ReconstructShareFromOpenings(d.d, openMap(set, ops), NI(at))
		if err != nil || !SameVals(OpVals(op), d.share(at)) {
			c.Fatalf("round %d: share %d from the openings of %v (t=%d): %v, %v; want %x", i, at, set, d.t, op, err, d.share(at))
		}
	}
	c.Note("t=%d, quorums of %d up to %v", d.t, k, set)
}

func nodeXsModQ(idx []int) []*big.Int {
	r := make([]*big.Int, len(idx))
	for i := range idx {
		r[i] = ref.Mod(ref.NodeX(idx[i]), ref.Q)
	}
	return r
}

func combineWithOpenings(c *C) {
	kind := Int(c, 0, 3, "kind")
	b := makeBase(c, kind, 2, "base")
	b.edge(c, -1)
	crowd := OneIn(c, 6, "crowd")
	n := Int(c, 2, 5, "n")
	if crowd {
		n = Int(c, 2, 3, "n")
	}
	t := Int(c, 1, n-1, "t")
	ps := parties(c, n, "keys")
	ad := Data(c, "ad")
	r := Int(c, 0, n-1, "receiver")
	m, times := b.need()+Int(c, 0, 1, "more"), 1
	if crowd { // what is done for many at once is to come out in order
		m, times = Pick(c, []int{9, 17, 18, 24, 33, 40}, "dealings"), 8
		c.Label("crowd of %d", m)
	}
	provided := &btree.Map[NI, *btree.Map[NI, poly.CommitmentOpening]]{}
	var ds []*dealt
	var opened []int
	corrupted := 0
	for _, i := range NodeSet(c, m, "dealers") {
		d := dealKnown(c, b, t, i, ad, ps)
		good := d
		often := 3
		if crowd {
			often = 12
		}
		if OneIn(c, often, "bad") {
			d = d.corrupt(c, []int{r})
			corrupted++
		}
		if d != good || OneIn(c, often, "opened anyway") {
			var others []int
			for k := range ps {
				if k != r {
					others = append(others, k)
				}
			}
			q := Subset(c, others, Int(c, t, len(others), "openers"), "openers")
			sub := &btree.Map[NI, poly.CommitmentOpening]{}
			for _, k := range q {
				op, err := dealings.CommitmentOpening.OpenDealing(d.d, ad, NI(i), NI(k), ps[k].SK, ps[k].PK)
				if err != nil || !SameVals(OpVals(op), good.share(k)) {
					c.Fatalf("%s dealing of %d opened by %d: %v, %v", kindName[kind], i, k, op, err)
				}
				if Bool(c, "pointer") {
					op = PtrOp(op)
				}
				sub.Set(NI(k), op)
			}
			provided.Set(NI(i), sub)
			opened = append(opened, i)
		}
		ds = append(ds, d)
		c.Key(i)
	}
	dm := dealingMap(ds)
	T, err := dealings.NewTranscriptInternal(K, t, dm, b.op)
	Must(c, err, "transcript")
	f, g := combine(kind, ds)
	tr := &trans{T: T, kind: kind, f: f, g: g}
	c.Key(kind, n, t, r, opened, ps[0].sk)
	before := Dump(dm) + Dump(provided)
	for k := 0; k < times; k++ {
		op, err := dealings.CommitmentOpening.FromDealingsAndOpenings(dm, provided, T.CombinedCommitment, ad, NI(r), ps[r].SK, ps[r].PK)
		if err != nil || !SameVals(OpVals(op), tr.share(r)) {
			c.Fatalf("%s transcript of %d: receiver %d with openings for %v gets %v, %v; want %x", kindName[kind], m, r, opened, op, err, tr.share(r))
		}
		c.Owned(op)
	}
	if Dump(dm)+Dump(provided) != before {
		c.Fatalf("combining changed its inputs")
	}
	for k := 0; k < times; k++ {
		op, err := dealings.CommitmentOpening.FromDealings(dm, T.CombinedCommitment, ad, NI(r), ps[r].SK, ps[r].PK)
		if corrupted > 0 {
			MustErr(c, err, "share of %d out of dealings of which %d are bad for it", r, corrupted)
		} else if err != nil || !SameVals(OpVals(op), tr.share(r)) {
			c.Fatalf("%s transcript of %d: receiver %d gets %v, %v; want %x", kindName[kind], m, r, op, err, tr.share(r))
		}
		c.Owned(op)
	}
	// now one fault in the openings or the transcript
	what := "no openings provided"
	com := T.CombinedCommitment
	must := false
	if len(opened) > 0 {
		i := Pick(c, opened, "for")
		sub, _ := provided.Get(NI(i))
		ks := sub.Keys()
		k := Pick(c, ks, "of")
		old, _ := sub.Get(k)
		switch Int(c, 0, 4, "fault") {
		case 0, 1:
			what = "an altered opening"
			x := []poly.CommitmentOpening{Copy(old)}
			alterLeaf(c, Pick(c, Leaves(&x), "leaf"))
			sub.Set(k, x[0])
		case 2:
			what = "too few openings"
			for sub.Len() >= t {
				sub.Delete(sub.Keys()[0])
			}
			must = true
		case 3:
			what = "an opening of another index"
			for _, d := range ds {
				if d.dealer == i {
					sub.Set(k, d.opening(OtherNode(c, int(k), "k'")))
				}
			}
		case 4:
			what = "an opening of another kind"
			v := OpVals(old)
			if len(v) == 1 {
				sub.Set(k, PedersenOp(v[0], new(big.Int)))
			} else {
				sub.Set(k, SimpleOp(v[0]))
			}
			must = true
		}
	} else if Bool(c, "other transcript") {
		what = "another transcript"
		pts := tr.pts()
		e := Int(c, 0, len(pts)-1, "e")
		pts[e] = OtherPoint(c, pts[e], "pt")
		var cm poly.PolynomialCommitment = poly.SimpleCM.New(Pts(pts))
		if g != nil {
			cm = poly.PedersenCM.New(Pts(pts))
		}
		if kind == kRandom {
			com = &dealings.SummationCommitment{PolynomialCommitment: cm}
		} else {
			com = &dealings.InterpolationCommitment{PolynomialCommitment: cm}
		}
		must = true
	}
	c.Label("%s, %s", kindName[kind], what)
	c.Note("%s of %d dealings to %d (t=%d), receiver %d, opened by others: %v; then %s", kindName[kind], len(ds), n, t, r, opened, what)
	op, err := dealings.CommitmentOpening.FromDealingsAndOpenings(dm, provided, com, ad, NI(r), ps[r].SK, ps[r].PK)
	if err == nil && !SameVals(OpVals(op), tr.share(r)) {
		c.Fatalf("%s transcript, %s: receiver %d gets %x, which is not its share %x", kindName[kind], what, r, OpVals(op), tr.share(r))
	}
	if err == nil && must {
		c.Fatalf("%s transcript, %s: no error", kindName[kind], what)
	}
}
