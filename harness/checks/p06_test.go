package checks

import (
	"testing"

	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/zk"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP06(t *testing.T) {
	Run(t, "P06", []Sub{
		{"public", "a dealing and one fault in it or in the arguments it is verified against; all count", 1400, publicFaults},
		{"secret", "a dealing of another secret than its base transcripts dictate, with the proof made for it; all count", 400, falseSecret},
		{"private", "a dealing with any subset of receivers corrupted, verified by every receiver; all count", 400, privateFaults},
		{"binding", "private verification with one wrong argument or a replaced commitment; all count", 500, privateBinding},
	})
}

func drawDealing(c *C, maxN int) *dealt {
	kind := Int(c, 0, 3, "kind")
	n := Int(c, 1, maxN, "n")
	t := Int(c, 1, n, "t")
	dealer := Node(c, "dealer")
	ad := Data(c, "ad")
	b := makeBase(c, kind, 3, "base")
	b.edge(c, dealer)
	ps := parties(c, n, "keys")
	c.Key(kind, n, t, dealer, ad, ps[0].sk)
	if Bool(c, "known") {
		return dealKnown(c, b, t, dealer, ad, ps)
	}
	return dealLib(c, b, t, dealer, ad, ps)
}

// statement are the points at the dealer's index that a base transcript dictates
func (b *base) statement(dealer int) []ref.Pt {
	switch b.kind {
	case kUnmasked:
		return []ref.Pt{ref.MulG(b.f.AtNode(dealer))}
	case kMasked:
		return []ref.Pt{ref.Pedersen(b.f.AtNode(dealer), b.g.AtNode(dealer))}
	case kProduct:
		return []ref.Pt{ref.MulG(b.f.AtNode(dealer)), ref.Pedersen(b.g.AtNode(dealer), b.h.AtNode(dealer))}
	}
	return nil
}
func samePts(a, b []ref.Pt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Eq(b[i]) {
			return false
		}
	}
	return true
}

// altered is the base with one coefficient of one polynomial changed
func (b *base) altered(c *C) *base {
	n := &base{kind: b.kind, f: append(ref.Poly{}, b.f...), g: append(ref.Poly{}, b.g...), h: append(ref.Poly{}, b.h...)}
	var ch []ref.Poly
	for _, p := range []ref.Poly{n.f, n.g, n.h} {
		if len(p) > 0 {
			ch = append(ch, p)
		}
	}
	p := Pick(c, ch, "which")
	i := Int(c, 0, len(p)-1, "coeff")
	p[i] = OtherScalar(c, p[i], "other")
	n.build(c)
	return n
}
func (b *base) build(c *C) {
	switch b.kind {
	case kUnmasked:
		b.op = &dealings.ReshareOfUnmaskedTranscript{P1: wrap(c, SimpleCom(b.f))}
	case kMasked:
		b.op = &dealings.ReshareOfMaskedTranscript{P1: wrap(c, PedersenCom(b.f, b.g))}
	case kProduct:
		b.op = &dealings.UnmaskedTimesMaskedTranscript{Left: wrap(c, SimpleCom(b.f)), Right: wrap(c, PedersenCom(b.g, b.h))}
	default:
		b.op = &dealings.RandomTranscript{}
	}
}

func publicFaults(c *C) {
	d := drawDealing(c, 4)
	n := len(d.ps)
	before := Dump(d.d)
	if err := d.publicly(d.b.op, d.t, d.dealer, n, d.ad); err != nil {
		c.Fatalf("good %s dealing refused: %v", kindName[d.kind], err)
	}
	t, dealer, ad, op := d.t, d.dealer, d.ad, d.b.op
	// the fault goes into a copy, or into the very object that was verified
	good, bad := d.d, Copy(d.d)
	if Bool(c, "in place") {
		good, bad = bad, good
	}
	what := ""
	legal := false
	fault := Int(c, 0, 21, "fault")
	if OneIn(c, 4, "argument") {
		fault = Int(c, 0, 6, "argument fault")
	}
	if d.b.f == nil && (fault == 5 || fault == 6) { // no base
		fault = 4
	}
	if d.kind == kRandom && fault == 8 {
		fault = 7
	}
	switch fault {
	case 0:
		what, t = "threshold", Pick(c, []int{t + 1, t - 1, 0, t + 256, n + 1}, "t'")
	case 1:
		what, n = "receiver count", Pick(c, []int{n + 1, n - 1, 0, n + 256, 2 * n}, "n'")
	case 2:
		what, dealer = "dealer", OtherNode(c, dealer, "dealer'")
	case 3:
		what, ad = "associated data", AlterBytes(c, ad, "ad'")
	case 4: // another operation, in the same base if possible
		o := &base{kind: (d.kind + Int(c, 1, 3, "kind'")) % 4}
		b2 := makeBase(c, o.kind, 3, "base'")
		if d.b.f != nil && b2.f != nil {
			b2.f = d.b.f
			if b2.g != nil && d.b.g != nil && len(b2.h) > 0 && len(d.b.h) == 0 {
				b2.g, b2.h = d.b.f, d.b.g
			}
			if b2.kind == kMasked && len(b2.g) != len(b2.f) {
				b2.g = bulkPoly(c, nil, len(b2.f), "g'")
			}
			b2.build(c)
		}
		what, op = "operation "+kindName[o.kind], b2.op
	case 5, 6: // another base transcript
		b2 := d.b.altered(c)
		if !OneIn(c, 3, "one coefficient") {
			b2 = makeBase(c, d.kind, 3, "base'")
		}
		what, op = "base transcript", b2.op
		legal = samePts(b2.statement(dealer), d.b.statement(dealer))
	case 7: // commitment of the other kind with the same points
		what = "commitment kind"
		if isPair(d.kind) {
			bad.Commitment = poly.SimpleCM.New(bad.Commitment.Points())
		} else {
			bad.Commitment = poly.PedersenCM.New(bad.Commitment.Points())
		}
	case 8: // constant of the commitment
		what = "committed constant"
		pts := points(bad.Commitment)
		pts[0] = OtherPoint(c, pts[0], "constant")
		if isPair(d.kind) {
			bad.Commitment = poly.PedersenCM.New(Pts(pts))
		} else {
			bad.Commitment = poly.SimpleCM.New(Pts(pts))
		}
	case 9: // commitment length
		what = "commitment length"
		p := bad.Commitment.Points()
		if len(p) > 1 && Bool(c, "shorter") {
			p = p[:len(p)-1]
		} else {
			p = append(p, Pt(AnyPoint(c, "extra")))
		}
		if isPair(d.kind) {
			bad.Commitment = poly.PedersenCM.New(p)
		} else {
			bad.Commitment = poly.SimpleCM.New(p)
		}
	case 10: // a valid ciphertext of the other kind
		what = "ciphertext kind"
		sd := Seed(c, "s")
		var err error
		if isPair(d.kind) {
			bad.Ciphertext, err = mega.EncryptCiphertextSingle(sd, Ss(bulk(c, n, "pt")), pks(d.ps), NI(dealer), ad)
		} else {
			pt := make([][2]scalarT, n)
			for i := range pt {
				v := Ss(bulk(c, 2, "pt"))
				pt[i] = [2]scalarT{v[0], v[1]}
			}
			bad.Ciphertext, err = mega.EncryptCiphertextPair(sd, pt, pks(d.ps), NI(dealer), ad)
		}
		Must(c, err, "encrypt")
	case 11: // ephemeral key, proof of possession
		var ls []Leaf
		for _, l := range Leaves(&bad.Ciphertext) {
			if _, ok := l.Get().(pointT); ok || hasPart(l.Path, ".PopProof") {
				ls = append(ls, l)
			}
		}
		l := Pick(c, ls, "leaf")
		what = "ciphertext" + l.Path
		alterLeaf(c, l)
	case 12: // number of ciphertexts
		what = "ciphertext count"
		less := n > 1 && Bool(c, "less")
		switch x := bad.Ciphertext.(type) {
		case *mega.MEGaCiphertextSingle:
			if less {
				x.CTexts = x.CTexts[:n-1]
			} else {
				x.CTexts = append(x.CTexts, S(Scalar(c, "extra")))
			}
		case *mega.MEGaCiphertextPair:
			if less {
				x.CTexts = x.CTexts[:n-1]
			} else {
				x.CTexts = append(x.CTexts, [2]scalarT{S(Scalar(c, "extra")), S(Scalar(c, "extra"))})
			}
		}
	case 13: // possession proof of another dealer or other data
		what = "proof of possession for another context"
		d2, a2 := dealer, ad
		if Bool(c, "dealer") {
			d2 = OtherNode(c, dealer, "dealer'")
		} else {
			a2 = AlterBytes(c, ad, "ad'")
		}
		o := dealKnown(c, d.b, d.t, d2, a2, d.ps)
		bad.Ciphertext = o.d.Ciphertext
	case 14: // missing or superfluous proof
		if bad.Proof != nil {
			what, bad.Proof = "missing proof", nil
		} else {
			what, bad.Proof = "superfluous proof", someProof(c, Bool(c, "product"))
		}
	case 15: // proof of the other kind
		what, bad.Proof = "proof kind", someProof(c, d.kind != kProduct)
	case 16: // an element of the proof
		if bad.Proof == nil {
			what, bad.Proof = "superfluous proof", someProof(c, Bool(c, "product"))
			break
		}
		l := Pick(c, Leaves(&bad.Proof), "leaf")
		what = "proof" + l.Path
		alterLeaf(c, l)
	case 17: // a good proof for something else
		what = "proof for another statement"
		if bad.Proof == nil {
			bad.Proof = someProof(c, Bool(c, "product"))
			break
		}
		d2, a2 := dealer, ad
		switch Int(c, 0, 2, "which") {
		case 0:
			d2 = OtherNode(c, dealer, "dealer'")
		case 1:
			a2 = AlterBytes(c, ad, "ad'")
		}
		o := dealKnown(c, d.b, d.t, d2, a2, d.ps)
		bad.Proof = o.d.Proof
		if d.kind == kMasked { // the statement is the same when the evaluations are
			legal = string(a2) == string(ad) && samePts(d.b.statement(d2), d.b.statement(dealer)) && points(o.d.Commitment)[0].Eq(points(good.Commitment)[0])
		}
	case 18: // not an operation
		what, op = "unknown operation", Pick(c, []dealings.IDkgTranscriptOperationInternal{nil, "x", struct{}{}, dealings.RandomTranscript{}}, "op")
	case 19: // base commitment of the wrong kind
		switch d.kind {
		case kUnmasked:
			what, op = "base kind", &dealings.ReshareOfUnmaskedTranscript{P1: wrap(c, poly.PedersenCM.New(Pts(SimplePts(d.b.f))))}
		case kProduct:
			what, op = "base kind", &dealings.UnmaskedTimesMaskedTranscript{
				Left:  wrap(c, poly.PedersenCM.New(Pts(SimplePts(d.b.f)))),
				Right: wrap(c, PedersenCom(d.b.g, d.b.h))}
			if Bool(c, "right") {
				op = &dealings.UnmaskedTimesMaskedTranscript{
					Left:  wrap(c, SimpleCom(d.b.f)),
					Right: wrap(c, poly.SimpleCM.New(Pts(PedersenPts(d.b.g, d.b.h))))}
			}
		default:
			what, t = "threshold", t+1
		}
	case 20: // other ciphertexts: public verification does not see them
		what, legal = "ciphertexts (legal)", true
		bad = d.corrupt(c, []int{Int(c, 0, n-1, "target")}).d
	case 21: // other coefficients than the constant: neither
		if d.t == 1 {
			what, legal = "nothing", true
			break
		}
		what, legal = "higher coefficient (legal)", true
		pts := points(bad.Commitment)
		i := Int(c, 1, d.t-1, "i")
		pts[i] = OtherPoint(c, pts[i], "point")
		if isPair(d.kind) {
			bad.Commitment = poly.PedersenCM.New(Pts(pts))
		} else {
			bad.Commitment = poly.SimpleCM.New(Pts(pts))
		}
	}
	c.Key(fault)
	c.Label("%s", what)
	c.Note("%s dealing (n=%d t=%d dealer=%d), fault: %s", kindName[d.kind], len(d.ps), d.t, d.dealer, what)
	err := bad.PubliclyVerify(K, op, t, NI(dealer), n, ad)
	if legal && err != nil {
		c.Fatalf("%s dealing with %s must pass public verification: %v", kindName[d.kind], what, err)
	}
	if !legal && err == nil {
		c.Fatalf("%s dealing (n=%d t=%d dealer=%d) with wrong %s passes public verification", kindName[d.kind], len(d.ps), d.t, d.dealer, what)
	}
	if Dump(good) != before {
		c.Fatalf("the dealing changed")
	}
	// what came before does not matter: the good one passes, the bad one does not
	again := []*dealings.IDkgDealingInternal{good}
	if Dump(bad) == before {
		again = append(again, bad)
	}
	for _, g := range again {
		Must(c, g.PubliclyVerify(K, d.b.op, d.t, NI(d.dealer), len(d.ps), d.ad), "good %s dealing after one with wrong %s", kindName[d.kind], what)
	}
	if err := bad.PubliclyVerify(K, op, t, NI(dealer), n, ad); (err == nil) != legal {
		c.Fatalf("%s dealing with %s, again: %v", kindName[d.kind], what, err)
	}
}

// someProof is a valid proof of some statement
func someProof(c *C, product bool) dealings.ZkProof {
	v := Ss(bulk(c, 4, "witness"))
	if product {
		p, err := zk.ProofOfProductIns.Create(Seed(c, "ps"), v[0], v[1], v[2], v[0].Clone().Mul(v[0], v[1]), v[3], nil)
		Must(c, err, "proof")
		return &dealings.ProductProof{ProofOfProduct: p}
	}
	p, err := zk.ProofOfEqualOpeningsIns.Create(Seed(c, "ps"), v[0], v[1], nil)
	Must(c, err, "proof")
	return &dealings.MaskedResharingProof{ProofOfEqualOpenings: p}
}

func falseSecret(c *C) {
	kind := Int(c, 1, 3, "kind")
	n := Int(c, 1, 4, "n")
	t := Int(c, 1, n, "t")
	dealer, ad := Node(c, "dealer"), Data(c, "ad")
	b := makeBase(c, kind, 3, "base")
	b.edge(c, dealer)
	lie := b.altered(c)
	ps := parties(c, n, "keys")
	c.Key(kind, n, t, dealer, ad, ps[0].sk)
	d := dealKnown(c, lie, t, dealer, ad, ps)
	if err := d.publicly(lie.op, t, dealer, n, ad); err != nil {
		c.Fatalf("%s dealing refused against its own base: %v", kindName[kind], err)
	}
	same := samePts(b.statement(dealer), lie.statement(dealer))
	c.Label("%s same=%v", kindName[kind], same)
	if err := d.publicly(b.op, t, dealer, n, ad); (err == nil) != same {
		c.Fatalf("%s dealing of another secret than the base transcript dictates at %d: %v", kindName[kind], dealer, err)
	}
	// the right secret's proof with a commitment to another one
	if kind != kUnmasked {
		g := dealKnown(c, b, t, dealer, ad, ps)
		mix := &dealings.IDkgDealingInternal{Ciphertext: d.d.Ciphertext, Commitment: d.d.Commitment, Proof: g.d.Proof}
		if !points(g.d.Commitment)[0].Eq(points(d.d.Commitment)[0]) {
			MustErr(c, mix.PubliclyVerify(K, b.op, t, NI(dealer), n, ad), "commitment to another secret with the proof of the right one")
		}
	}
	c.Note("%s dealing by %d of a secret other than the base's", kindName[kind], dealer)
}

func privateFaults(c *C) {
	d := drawDealing(c, 6)
	n := len(d.ps)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	targets := Subset(c, idx, Int(c, 0, n, "corrupted"), "targets")
	bad := d.corrupt(c, targets)
	wrong := map[int]bool{}
	for _, i := range targets {
		wrong[i] = true
	}
	swap := ""
	if n > 1 && OneIn(c, 3, "swap") { // two receivers' ciphertexts exchanged
		i := Int(c, 0, n-2, "i")
		j := Int(c, i+1, n-1, "j")
		switch x := bad.d.Ciphertext.(type) {
		case *mega.MEGaCiphertextSingle:
			x.CTexts[i], x.CTexts[j] = x.CTexts[j], x.CTexts[i]
		case *mega.MEGaCiphertextPair:
			x.CTexts[i], x.CTexts[j] = x.CTexts[j], x.CTexts[i]
		}
		wrong[i], wrong[j] = true, true
		swap = "swapped"
	}
	c.Key(targets, swap)
	c.Label("corrupted=%d of %d", len(targets), n)
	c.Note("%s dealing (n=%d t=%d), corrupted for %v %s", kindName[d.kind], n, d.t, targets, swap)
	if err := bad.publicly(d.b.op, d.t, d.dealer, n, d.ad); err != nil {
		c.Fatalf("the ciphertexts do not matter for public verification: %v", err)
	}
	for i := range d.ps {
		if err := d.privately(i); err != nil {
			c.Fatalf("good dealing refused by %d: %v", i, err)
		}
		if err := bad.privately(i); (err != nil) != wrong[i] {
			c.Fatalf("%s dealing corrupted for %v: private verification by %d: %v", kindName[d.kind], targets, i, err)
		}
	}
}

func privateBinding(c *C) {
	d := drawDealing(c, 4)
	n := len(d.ps)
	i := Int(c, 0, n-1, "receiver")
	if err := d.privately(i); err != nil {
		c.Fatalf("good dealing refused by %d: %v", i, err)
	}
	other := newParty(RandScalar(c, "other"))
	if n > 1 && Bool(c, "colleague") {
		other = d.ps[(i+1)%n]
	}
	sk, pk, ad, dealer, idx := d.ps[i].SK, d.ps[i].PK, d.ad, d.dealer, i
	good, bad := d.d, Copy(d.d)
	if Bool(c, "in place") {
		good, bad = bad, good
	}
	what, legal := "", false
	switch Int(c, 0, 9, "fault") {
	case 0:
		what, sk = "private key", other.SK
	case 1:
		what, pk = "public key", other.PK
	case 2:
		what, sk, pk = "keys", other.SK, other.PK
	case 3:
		what, ad = "associated data", AlterBytes(c, ad, "ad'")
	case 4:
		what, dealer = "dealer", OtherNode(c, dealer, "dealer'")
	case 5:
		what, idx = "index", OtherNode(c, i, "i'")
	case 6: // a commitment to something else, that may agree at this index
		what = "commitment"
		pts := points(bad.Commitment)
		k := Int(c, 0, len(pts)-1, "k")
		pts[k] = OtherPoint(c, pts[k], "pt")
		if isPair(d.kind) {
			bad.Commitment = poly.PedersenCM.New(Pts(pts))
		} else {
			bad.Commitment = poly.SimpleCM.New(Pts(pts))
		}
	case 7: // two coefficients changed so that they cancel at index 0 only
		pts := points(bad.Commitment)
		if len(pts) < 2 {
			legal = true
			break
		}
		q := NonIdPoint(c, "q")
		pts[0], pts[1] = pts[0].Add(q), pts[1].Sub(q)
		what, legal = "cancelling change", i == 0
		if isPair(d.kind) {
			bad.Commitment = poly.PedersenCM.New(Pts(pts))
		} else {
			bad.Commitment = poly.SimpleCM.New(Pts(pts))
		}
	case 8: // commitment of the other kind
		what = "commitment kind"
		if isPair(d.kind) {
			bad.Commitment = poly.SimpleCM.New(bad.Commitment.Points())
		} else {
			bad.Commitment = poly.PedersenCM.New(bad.Commitment.Points())
		}
	case 9: // the proof of possession
		var ls []Leaf
		for _, l := range Leaves(&bad.Ciphertext) {
			if _, ok := l.Get().(pointT); ok || hasPart(l.Path, ".PopProof") {
				ls = append(ls, l)
			}
		}
		l := Pick(c, ls, "leaf")
		what = "ciphertext" + l.Path
		alterLeaf(c, l)
	}
	c.Key(what)
	c.Label("%s", what)
	c.Note("%s dealing to %d, receiver %d, wrong %s", kindName[d.kind], n, i, what)
	err := bad.PrivateVerify(K, sk, pk, ad, NI(dealer), NI(idx))
	if legal != (err == nil) {
		c.Fatalf("%s dealing (n=%d), receiver %d, wrong %s: private verification: %v", kindName[d.kind], n, i, what, err)
	}
	Must(c, good.PrivateVerify(K, d.ps[i].SK, d.ps[i].PK, d.ad, NI(d.dealer), NI(i)), "private verification by %d after one with wrong %s", i, what)
	err = bad.PrivateVerify(K, sk, pk, ad, NI(dealer), NI(idx))
	if legal != (err == nil) {
		c.Fatalf("%s dealing (n=%d), receiver %d, wrong %s, again: private verification: %v", kindName[d.kind], n, i, what, err)
	}
}
