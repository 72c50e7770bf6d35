package checks

import (
	"math/big"
	"sort"
	"testing"

	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP09(t *testing.T) {
	Run(t, "P09", []Sub{
		{"exact", "1-5 dealings of all kinds to 1-5 receivers, any of them corrupted for any receivers, complaints of one receiver; all count", 260, exactComplaints},
		{"genuine", "a genuine complaint and one fault in it or in what it is verified against; all count", 700, genuineComplaint},
		{"large", "a complaint of one of 257 to 300 receivers, verified for it and for those whose index differs in a high bit; all count", 24, largeCommittee},
		{"spurious", "a complaint about a good dealing, honest or forged; all count", 350, spuriousComplaint},
	})
}

// worsen makes the dealing wrong for some receivers
func (d *dealt) worsen(c *C, targets []int) (*dealt, map[int]bool) {
	wrong := map[int]bool{}
	n := len(d.ps)
	switch k := Int(c, 0, 5, "how"); {
	case k == 4 && n > 1: // two receivers' shares exchanged
		i := Int(c, 0, n-2, "i")
		j := Int(c, i+1, n-1, "j")
		r := *d
		r.d = Copy(d.d)
		switch x := r.d.Ciphertext.(type) {
		case *mega.MEGaCiphertextSingle:
			x.CTexts[i], x.CTexts[j] = x.CTexts[j], x.CTexts[i]
		case *mega.MEGaCiphertextPair:
			x.CTexts[i], x.CTexts[j] = x.CTexts[j], x.CTexts[i]
		}
		wrong[i], wrong[j] = true, true
		return &r, wrong
	case k == 5 && d.t > 1: // the commitment is to other higher coefficients
		r := *d
		r.d = Copy(d.d)
		pts := points(d.d.Commitment)
		q := NonIdPoint(c, "q")
		e := Int(c, 1, d.t-1, "e")
		pts[e] = pts[e].Add(q)
		if isPair(d.kind) {
			r.d.Commitment = poly.PedersenCM.New(Pts(pts))
		} else {
			r.d.Commitment = poly.SimpleCM.New(Pts(pts))
		}
		for i := 0; i < n; i++ { // x^e is never 0
			wrong[i] = true
		}
		return &r, wrong
	}
	for _, i := range targets {
		wrong[i] = true
	}
	return d.corrupt(c, targets), wrong
}

func drawTargets(c *C, n, min int) []int {
	var all []int
	for i := 0; i < n; i++ {
		all = append(all, i)
	}
	return Subset(c, all, Int(c, min, n, "count"), "targets")
}

func drawReceivers(c *C, n int) []party {
	ps := parties(c, n, "keys")
	for i := 1; i < n; i++ {
		if OneIn(c, 6, "shared key") {
			ps[i] = ps[i-1]
		}
	}
	return ps
}

func exactComplaints(c *C) {
	n := Int(c, 1, 5, "n")
	many := Int(c, 1, 5, "dealings")
	if OneIn(c, 8, "many") {
		n, many = Int(c, 1, 2, "n-"), Pick(c, []int{6, 8, 9, 12, 16, 17, 33, 40}, "dealings+")
	}
	if OneIn(c, 60, "committee") { // more receivers than a byte counts
		n, many = Pick(c, []int{65, 129, 256, 257, 258, 300}, "n++"), Int(c, 1, 2, "dealings-")
	}
	ps := drawReceivers(c, n)
	ad := Data(c, "ad")
	r := Int(c, 0, n-1, "receiver")
	var ds []*dealt
	var want []int
	for _, i := range NodeSet(c, many, "dealers") {
		kind := Int(c, 0, 3, "kind")
		b := makeBase(c, kind, 2, "base")
		b.edge(c, i)
		d := dealKnown(c, b, Int(c, 1, min(n, 7), "t"), i, ad, ps)
		if OneIn(c, 2, "bad") {
			var w map[int]bool
			d, w = d.worsen(c, drawTargets(c, n, 1))
			if w[r] {
				want = append(want, i)
			}
		}
		if err := d.publicly(d.b.op, d.t, i, n, ad); err != nil {
			c.Fatalf("%s dealing: its shares do not matter for public verification: %v", kindName[kind], err)
		}
		ds = append(ds, d)
		c.Key(kind, d.t, i)
	}
	c.Key(n, r, want, ad)
	c.Label("dealings=%d bad=%d", len(ds), len(want))
	c.Note("%d dealings to %d, receiver %d: bad are %v", len(ds), n, r, want)
	m := dealingMap(ds)
	before := Dump(m)
	cs, err := complaints.GenerateComplaints(m, ad, NI(r), ps[r].SK, ps[r].PK, Seed(c, "seed"))
	if Dump(m) != before {
		c.Fatalf("complaining changed the dealings")
	}
	if len(want) == 0 {
		if err == nil {
			c.Fatalf("receiver %d complains about %v without a reason", r, cs.Keys())
		}
		return
	}
	Must(c, err, "complaints of %d, bad dealings %v", r, want)
	if !sameInts(cs.Keys(), want) {
		sort.Ints(want)
		c.Fatalf("receiver %d complains about %v, bad are %v", r, cs.Keys(), want)
	}
	type cz struct{ ch, z *big.Int }
	var seen [][]*big.Int
	for _, d := range ds {
		for _, k := range cs.Keys() {
			cp, _ := cs.Get(k)
			err := cp.Verify(d.d, NI(d.dealer), NI(r), ps[r].PK, ad)
			if (int(k) == d.dealer) != (err == nil) {
				c.Fatalf("complaint of %d about the dealing of %d, verified for that of %d: %v", r, k, d.dealer, err)
			}
		}
	}
	for _, k := range cs.Keys() {
		cp, _ := cs.Get(k)
		var vs []*big.Int
		for _, l := range Leaves(cp) {
			if s, ok := l.Get().(scalarT); ok {
				vs = append(vs, V(s))
			}
		}
		seen = append(seen, vs)
	}
	// a repeated nonce would give away the secret key: (z1-z2)/(c1-c2)
	for i := range seen {
		for j := range seen[:i] {
			if len(seen[i]) != 2 {
				continue
			}
			for _, p := range []cz{{ref.Sub(seen[i][0], seen[j][0]), ref.Sub(seen[i][1], seen[j][1])}, {ref.Sub(seen[i][1], seen[j][1]), ref.Sub(seen[i][0], seen[j][0])}} {
				if p.ch.Sign() != 0 && ref.Mul(p.z, ref.Inv(p.ch)).Cmp(ps[r].sk) == 0 {
					c.Fatalf("the secret key of receiver %d can be computed from two of its complaints", r)
				}
			}
		}
	}
}

// complainAbout makes a dealing bad for a receiver and its complaint
func complainAbout(c *C, n int) (good, bad *dealt, r int, cp *complaints.IDkgComplaintInternal) {
	kind := Int(c, 0, 3, "kind")
	if n == 0 {
		n = Int(c, 1, 4, "n")
	}
	ps := drawReceivers(c, n)
	ad := Data(c, "ad")
	dealer := Node(c, "dealer")
	b := makeBase(c, kind, 2, "base")
	b.edge(c, dealer)
	good = dealKnown(c, b, Int(c, 1, min(n, 7), "t"), dealer, ad, ps)
	r = Int(c, 0, n-1, "receiver")
	if n > 10 {
		r = []int{0, 1, n - 257, n - 1, 256, int(U64(c, "any receiver") % uint64(n))}[U64(c, "which receiver")%6]
	}
	bad = good.corrupt(c, []int{r})
	c.Key(kind, n, r, dealer, ad, ps[r].sk)
	if Bool(c, "directly") {
		var err error
		cp, err = complaints.NewComplaintInternal(Seed(c, "seed"), bad.d, NI(dealer), NI(r), ps[r].SK, ps[r].PK, ad)
		Must(c, err, "complaint")
	} else {
		cs, err := complaints.GenerateComplaints(dealingMap([]*dealt{bad}), ad, NI(r), ps[r].SK, ps[r].PK, Seed(c, "seed"))
		Must(c, err, "complaint")
		cp, _ = cs.Get(NI(dealer))
	}
	if cp == nil {
		c.Fatalf("no complaint about the dealing of %d, bad for %d", dealer, r)
	}
	Must(c, cp.Verify(bad.d, NI(dealer), NI(r), ps[r].PK, ad), "genuine complaint of %d about %d", r, dealer)
	return
}

func genuineComplaint(c *C) {
	good, bad, r, cp := complainAbout(c, 0)
	ps, ad, dealer, d := bad.ps, bad.ad, bad.dealer, bad.d
	pk, idx := ps[r].PK, r
	n := len(ps)
	what := ""
	before := Dump(bad.d)
	switch Int(c, 0, 10, "fault") {
	case 0, 1, 2: // its contents
		x := Copy(cp)
		l := Pick(c, Leaves(x), "leaf")
		alterLeaf(c, l)
		cp, what = x, "element"+l.Path
	case 3:
		dealer, what = OtherNode(c, dealer, "dealer'"), "dealer"
	case 4:
		idx, what = OtherNode(c, r, "r'"), "complainer index"
		if n > 1 && Bool(c, "existing") {
			idx = (r + 1 + Int(c, 0, n-2, "which")) % n
		}
	case 5:
		what = "complainer key"
		o := newParty(OtherScalar(c, ps[r].sk, "sk'"))
		if o.sk.Cmp(ps[r].sk) == 0 {
			o = newParty(ref.Add(o.sk, big.NewInt(1)))
		}
		pk = o.PK
	case 6:
		ad, what = AlterBytes(c, ad, "ad'"), "associated data"
	case 7: // the dealing as it should have been
		d, what = good.d, "repaired dealing"
	case 8: // another bad dealing of the same dealer
		what = "another dealing"
		o := dealKnown(c, bad.b, bad.t, bad.dealer, bad.ad, ps).corrupt(c, []int{r})
		if PV(o.d.Ciphertext.Ephemeral()).Eq(PV(d.Ciphertext.Ephemeral())) {
			c.Trivial()
			return
		}
		d = o.d
	case 9: // a dealing whose ciphertext or commitment is of the other kind
		what = "kind of the commitment"
		d = Copy(d)
		if isPair(bad.kind) {
			d.Commitment = poly.SimpleCM.New(d.Commitment.Points())
		} else {
			d.Commitment = poly.PedersenCM.New(d.Commitment.Points())
		}
	case 10: // another ephemeral key
		what = "ephemeral key"
		d = Copy(d)
		e := Pt(OtherPoint(c, PV(d.Ciphertext.Ephemeral()), "eph'"))
		switch x := d.Ciphertext.(type) {
		case *mega.MEGaCiphertextSingle:
			x.EphemeralKey = e
		case *mega.MEGaCiphertextPair:
			x.EphemeralKey = e
		}
	}
	c.Key(what)
	c.Label("%s", what)
	c.Note("complaint of %d about the %s dealing of %d, %s altered", r, kindName[bad.kind], bad.dealer, what)
	MustErr(c, cp.Verify(d, NI(dealer), NI(idx), pk, ad), "complaint of %d about the %s dealing of %d with altered %s", r, kindName[bad.kind], bad.dealer, what)
	if Dump(bad.d) != before {
		c.Fatalf("verifying changed the dealing")
	}
}

func largeCommittee(c *C) {
	n := []int{257, 258, 300}[U64(c, "size")%3]
	_, bad, r, cp := complainAbout(c, n)
	c.Label("n=%d", n)
	c.Note("complaint of %d of %d receivers about the dealing of %d", r, n, bad.dealer)
	for _, i := range []int{r ^ 256, r ^ 128, r ^ 1, r ^ 65536, r ^ 1<<31, n} {
		if i == r {
			continue
		}
		MustErr(c, cp.Verify(bad.d, NI(bad.dealer), NI(i), bad.ps[r].PK, bad.ad), "complaint of receiver %d presented as one of receiver %d of %d", r, i, n)
		if i < n {
			MustErr(c, cp.Verify(bad.d, NI(bad.dealer), NI(i), bad.ps[i].PK, bad.ad), "complaint of receiver %d presented as one of receiver %d of %d, with its key", r, i, n)
		}
	}
	for _, i := range []int{bad.dealer ^ 256, bad.dealer ^ 65536, bad.dealer ^ 1<<31, bad.dealer ^ 1} {
		MustErr(c, cp.Verify(bad.d, NI(i), NI(r), bad.ps[r].PK, bad.ad), "complaint about dealer %d presented as one about %d", bad.dealer, i)
	}
	Must(c, cp.Verify(bad.d, NI(bad.dealer), NI(r), bad.ps[r].PK, bad.ad), "genuine complaint of %d of %d, again", r, n)
}

func spuriousComplaint(c *C) {
	good, _, r, _ := complainAbout(c, 0)
	ps, ad, dealer := good.ps, good.ad, good.dealer
	n := len(ps)
	sd := Seed(c, "seed'")
	sk, idx, pk := ps[r].SK, r, ps[r].PK
	what := ""
	switch Int(c, 0, 4, "how") {
	case 0:
		what = "honest keys"
	case 1: // made with another secret key
		what, sk = "another secret key", newParty(OtherScalar(c, ps[r].sk, "sk'")).SK
	case 2: // in another's name
		what = "another's name"
		if n > 1 {
			o := ps[(r+1)%n]
			idx, pk = (r+1)%n, o.PK
		} else {
			pk = newParty(RandScalar(c, "sk'")).PK
		}
	case 3:
		what, idx = "another index", OtherNode(c, r, "r'")
		if n > 1 && Bool(c, "existing") {
			idx = (r + 1) % n
		}
	case 4: // with an own key pair not registered: verified under the registered key
		o := newParty(RandScalar(c, "sk'"))
		what, sk = "own key pair", o.SK
	}
	cp, err := complaints.NewComplaintInternal(sd, good.d, NI(dealer), NI(idx), sk, pk, ad)
	c.Key(what, idx)
	c.Label("%s", what)
	c.Note("complaint of %d about a good %s dealing of %d (%s)", idx, kindName[good.kind], dealer, what)
	if err != nil {
		return
	}
	vi, vk := idx, pk
	if what == "another index" && idx >= n { // no such receiver: nobody's share
		MustErr(c, cp.Verify(good.d, NI(dealer), NI(idx), pk, ad), "complaint of a node %d that is no receiver", idx)
		return
	}
	if what == "another index" { // verified for the index it claims, under the key registered there
		vk = ps[idx].PK
		if ps[idx].sk.Cmp(ps[r].sk) != 0 || idx != vi {
			MustErr(c, cp.Verify(good.d, NI(dealer), NI(vi), vk, ad), "complaint in the name of %d", vi)
			return
		}
	}
	if err := cp.Verify(good.d, NI(dealer), NI(vi), vk, ad); err == nil {
		c.Fatalf("complaint of %d about a good %s dealing of %d (%s) is accepted", vi, kindName[good.kind], dealer, what)
	}
	// with a made-up shared secret
	x := Copy(cp)
	for _, l := range Leaves(x) {
		if _, ok := l.Get().(pointT); ok {
			alterLeaf(c, l)
		}
	}
	if err := x.Verify(good.d, NI(dealer), NI(vi), vk, ad); err == nil {
		c.Fatalf("complaint with a made-up shared secret (%s) is accepted", what)
	}
}
