package checks

import (
	"math/big"
	"strings"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/zk"
	"github.com/tidwall/btree"

	. "verifharness/hx"
	"verifharness/ref"
)

// bulk are n pseudo-random scalars out of a single draw
func bulk(c *C, n int, label string) []*big.Int {
	b := Expand(U64(c, label), 32*n)
	r := make([]*big.Int, n)
	for i := range r {
		r[i] = ref.Mod(new(big.Int).SetBytes(b[32*i:32*i+32]), ref.Q)
	}
	return r
}

// bulkPoly is a polynomial of n coefficients, pseudo-random but for a given
// constant (nil: random too); once in a while with zero or equal coefficients
func bulkPoly(c *C, constant *big.Int, n int, label string) ref.Poly {
	p := ref.Poly(bulk(c, n, label))
	if n > 1 && OneIn(c, 6, label+".odd") {
		switch Int(c, 0, 2, label+".how") {
		case 0:
			p[n-1] = new(big.Int)
		case 1:
			p[Int(c, 1, n-1, label+".z")] = new(big.Int)
		case 2:
			for i := 1; i < n; i++ {
				p[i] = p[0]
			}
		}
	}
	if constant != nil && n > 0 {
		p[0] = constant
	}
	if n > 1 && OneIn(c, 8, label+".special") { // the share of a low index is
		v := Pick(c, bigs(new(big.Int), new(big.Int), big.NewInt(1), ref.Neg(big.NewInt(1)), p[0], p[1]), label+".share")
		force(p, n-1, Int(c, 0, 4, label+".at"), v)
	}
	return p
}

// force changes coefficient k so that the share of node i is v
func force(p ref.Poly, k, i int, v *big.Int) {
	x := ref.Mod(ref.NodeX(i), ref.Q)
	d := ref.Sub(v, p.At(x))
	for j := 0; j < k; j++ {
		d = ref.Mul(d, ref.Inv(x))
	}
	p[k] = ref.Add(p[k], d)
}

// twice obtains a thing twice and again after the first was changed in place:
// the others must not change with it
func twice[T any](c *C, what string, get func() T, check func(T, string)) {
	a, b := get(), get()
	check(a, what)
	Spoil(a)
	check(b, what+", after another such result was changed")
	check(get(), what+", after an earlier such result was changed")
}
func eachScalar(c *C, want *big.Int) func(scalarT, string) {
	return func(s scalarT, what string) { checkScalar(c, s, want, what) }
}
func eachPoint(c *C, want ref.Pt) func(pointT, string) {
	return func(p pointT, what string) { checkPoint(c, p, want, what) }
}
func eachField(c *C, want *big.Int) func(curve.EccFieldElement, string) {
	return func(f curve.EccFieldElement, what string) { checkField(c, f, want, what) }
}

// party is a node with its encryption keys
type party struct {
	sk *big.Int
	SK *mega.MEGaPrivateKey
	PK *mega.MEGaPublicKey
}

func (p party) pk() ref.Pt { return ref.MulG(p.sk) }
func newParty(sk *big.Int) party {
	if sk.Sign() == 0 {
		sk = big.NewInt(1)
	}
	return party{sk, mega.NewMEGaPrivateKey(S(sk)), mega.NewMEGaPublicKey(Pt(ref.MulG(sk)))}
}
func parties(c *C, n int, label string) []party {
	ks := bulk(c, n, label)
	r := make([]party, n)
	for i := range r {
		r[i] = newParty(ks[i])
	}
	return r
}
func pks(ps []party) []*mega.MEGaPublicKey {
	r := make([]*mega.MEGaPublicKey, len(ps))
	for i := range ps {
		r[i] = ps[i].PK
	}
	return r
}

// the four kinds of dealing
const (
	kRandom = iota
	kUnmasked
	kMasked
	kProduct
)

var kindName = [...]string{"random", "unmasked", "masked", "product"}

func isPair(kind int) bool { return kind == kRandom || kind == kProduct }

// base is what a dealing refers to: the polynomials of earlier transcripts
type base struct {
	kind    int
	f, g, h ref.Poly // unmasked: f; masked: values f, masks g; product: left f, right g masked with h
	op      dealings.IDkgTranscriptOperationInternal
}

// wrap hands a commitment over as it is or inside a combined one
func wrap(c *C, p poly.PolynomialCommitment) poly.PolynomialCommitment {
	switch Int(c, 0, 3, "wrap") {
	case 2:
		return &dealings.InterpolationCommitment{PolynomialCommitment: p}
	case 3:
		return &dealings.SummationCommitment{PolynomialCommitment: p}
	}
	return p
}

func makeBase(c *C, kind, maxT int, label string) *base {
	b := &base{kind: kind}
	t := Int(c, 1, maxT, label+".t")
	switch kind {
	case kRandom:
		b.op = &dealings.RandomTranscript{}
	case kUnmasked:
		b.f = bulkPoly(c, nil, t, label+".f")
		b.op = &dealings.ReshareOfUnmaskedTranscript{P1: wrap(c, SimpleCom(b.f))}
	case kMasked:
		b.f, b.g = bulkPoly(c, nil, t, label+".f"), bulkPoly(c, nil, t, label+".g")
		b.op = &dealings.ReshareOfMaskedTranscript{P1: wrap(c, PedersenCom(b.f, b.g))}
	case kProduct:
		t2 := Int(c, 1, maxT, label+".t2")
		b.f, b.g, b.h = bulkPoly(c, nil, t, label+".f"), bulkPoly(c, nil, t2, label+".g"), bulkPoly(c, nil, t2, label+".h")
		b.op = &dealings.UnmaskedTimesMaskedTranscript{Left: wrap(c, SimpleCom(b.f)), Right: wrap(c, PedersenCom(b.g, b.h))}
	}
	return b
}

// edge sometimes makes the shares of a dealer in the base, or with -1 its constant terms,
// special ones, zero more often than not
func (b *base) edge(c *C, dealer int) {
	if b.f == nil || !OneIn(c, 5, "edge") {
		return
	}
	for i, f := range []ref.Poly{b.f, b.g, b.h} {
		if f == nil || !Bool(c, "this") {
			continue
		}
		v := new(big.Int)
		if !Bool(c, "zero") {
			v = Scalar(c, "share")
		}
		f[0] = ref.Add(f[0], ref.Sub(v, f.AtNode(dealer)))
		if v.Sign() == 0 {
			c.Label("zero %s", []string{"secret", "second part", "third part"}[i])
		}
	}
	b.build(c)
}

// secret is what the dealer must share
func (b *base) secret(dealer int) *big.Int {
	switch b.kind {
	case kUnmasked, kMasked:
		return b.f.AtNode(dealer)
	case kProduct:
		return ref.Mul(b.f.AtNode(dealer), b.g.AtNode(dealer))
	}
	return nil
}

// shares is the library's form of it
func (b *base) shares(dealer int) dealings.SecretShares {
	switch b.kind {
	case kRandom:
		return &dealings.RandomSecret{}
	case kUnmasked:
		return &dealings.ReshareOfUnmaskedSecret{S1: S(b.f.AtNode(dealer))}
	case kMasked:
		return &dealings.ReshareOfMaskedSecret{S1: S(b.f.AtNode(dealer)), S2: S(b.g.AtNode(dealer))}
	}
	return &dealings.UnmaskedTimesMaskedSecret{Left: S(b.f.AtNode(dealer)), Right: [2]curve.EccScalar{S(b.g.AtNode(dealer)), S(b.h.AtNode(dealer))}}
}

// dealt is a dealing and, when the harness chose them, its polynomials
type dealt struct {
	d            *dealings.IDkgDealingInternal
	kind, t      int
	dealer       int
	ad           []byte
	ps           []party
	b            *base
	values, mask ref.Poly // mask only for the pair kinds
}

// dealLib lets the library make the dealing
func dealLib(c *C, b *base, t, dealer int, ad []byte, ps []party) *dealt {
	d, err := dealings.NewIDkgDealingInternal(b.shares(dealer), K, Seed(c, "dealseed"), t, pks(ps), NI(dealer), ad)
	Must(c, err, "NewIDkgDealingInternal(%s,t=%d,n=%d,dealer=%d)", kindName[b.kind], t, len(ps), dealer)
	c.Loose(d)
	return &dealt{d: d, kind: b.kind, t: t, dealer: dealer, ad: ad, ps: ps, b: b}
}

// dealKnown makes the dealing from polynomials chosen here
func dealKnown(c *C, b *base, t, dealer int, ad []byte, ps []party) *dealt {
	r := &dealt{kind: b.kind, t: t, dealer: dealer, ad: ad, ps: ps, b: b}
	r.values = bulkPoly(c, b.secret(dealer), t, "values")
	sd := Seed(c, "dealseed")
	var ct mega.MEGaCiphertext
	var cm poly.PolynomialCommitment
	var err error
	var proof dealings.ZkProof
	if isPair(b.kind) {
		r.mask = bulkPoly(c, nil, t, "mask")
		ct, cm, err = dealings.EncryptAndCommitPairPolynomial(Poly(r.values), Poly(r.mask), t, pks(ps), NI(dealer), ad, sd)
	} else {
		ct, cm, err = dealings.EncryptAndCommitSinglePolynomial(Poly(r.values), t, pks(ps), NI(dealer), ad, sd)
	}
	Must(c, err, "EncryptAndCommit")
	switch b.kind {
	case kMasked:
		p, err := zk.ProofOfEqualOpeningsIns.Create(sd, S(b.f.AtNode(dealer)), S(b.g.AtNode(dealer)), ad)
		Must(c, err, "equal openings proof")
		proof = &dealings.MaskedResharingProof{ProofOfEqualOpenings: p}
	case kProduct:
		p, err := zk.ProofOfProductIns.Create(sd, S(b.f.AtNode(dealer)), S(b.g.AtNode(dealer)), S(b.h.AtNode(dealer)), S(r.values[0]), S(r.mask[0]), ad)
		Must(c, err, "product proof")
		proof = &dealings.ProductProof{ProofOfProduct: p}
	}
	r.d = &dealings.IDkgDealingInternal{Ciphertext: ct, Commitment: cm, Proof: proof}
	c.Loose(r.d)
	return r
}

// share is the true share at an index
func (d *dealt) share(i int) []*big.Int {
	if d.mask == nil {
		return []*big.Int{d.values.AtNode(i)}
	}
	return []*big.Int{d.values.AtNode(i), d.mask.AtNode(i)}
}
func (d *dealt) opening(i int) poly.CommitmentOpening { return mkOpening(d.share(i)) }

func mkOpening(v []*big.Int) poly.CommitmentOpening {
	if len(v) == 1 {
		return SimpleOp(v[0])
	}
	return PedersenOp(v[0], v[1])
}

func (d *dealt) publicly(op dealings.IDkgTranscriptOperationInternal, t, dealer, n int, ad []byte) error {
	return d.d.PubliclyVerify(K, op, t, NI(dealer), n, ad)
}
func (d *dealt) privately(i int) error {
	return d.d.PrivateVerify(K, d.ps[i].SK, d.ps[i].PK, d.ad, NI(d.dealer), NI(i))
}

// corrupt makes the ciphertexts of some receivers wrong, on a copy
func (d *dealt) corrupt(c *C, targets []int) *dealt {
	r := *d
	r.d = Copy(d.d)
	for _, i := range targets {
		delta := S(NonZero(c, "delta"))
		switch x := r.d.Ciphertext.(type) {
		case *mega.MEGaCiphertextSingle:
			x.CTexts[i] = x.CTexts[i].Add(x.CTexts[i], delta)
		case *mega.MEGaCiphertextPair:
			switch Int(c, 0, 3, "half") {
			case 0, 1:
				x.CTexts[i][0] = x.CTexts[i][0].Add(x.CTexts[i][0], delta)
			case 2:
				x.CTexts[i][1] = x.CTexts[i][1].Add(x.CTexts[i][1], delta)
			case 3:
				x.CTexts[i][0] = x.CTexts[i][0].Add(x.CTexts[i][0], delta)
				x.CTexts[i][1] = x.CTexts[i][1].Sub(x.CTexts[i][1], delta)
			}
		}
	}
	return &r
}

// commits tells, by the reference, whether points commit to the share at an index
func commits(pts []ref.Pt, i int, share []*big.Int) bool {
	e := ref.EvalPts(pts, ref.NodeX(i))
	if len(share) == 1 {
		return e.Eq(ref.MulG(share[0]))
	}
	return e.Eq(ref.Pedersen(share[0], share[1]))
}
func commitTo(share []*big.Int) ref.Pt {
	if len(share) == 1 {
		return ref.MulG(share[0])
	}
	return ref.Pedersen(share[0], share[1])
}

func bigs(vs ...*big.Int) []*big.Int { return vs }

func points(cm poly.PolynomialCommitment) []ref.Pt { return PVs(cm.Points()) }

func openMap(idx []int, ops []poly.CommitmentOpening) *btree.Map[NI, poly.CommitmentOpening] {
	return Map(idx, ops)
}

type (
	scalarT = curve.EccScalar
	pointT  = curve.EccPoint
)

func hasPart(path, part string) bool { return strings.Contains(path, part) }

// alterLeaf puts another value into a slot
func alterLeaf(c *C, l Leaf) {
	switch v := l.Get().(type) {
	case curve.EccScalar:
		l.Set(S(OtherScalar(c, V(v), "leaf")))
	case curve.EccPoint:
		l.Set(Pt(OtherPoint(c, PV(v), "leaf")))
	}
}
