package checks

import (
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/PlatONnetwork/tecdsa/zk"
	"github.com/tidwall/btree"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP24(t *testing.T) {
	Run(t, "P24", []Sub{
		{"history", "a history of read-only operations on one set of objects, with repetitions; all count", 240, inputsKept},
		{"concurrent", "two to four rounds of read-only operations run by several goroutines on shared objects no operation has touched yet (race detector on); all count", 32, concurrentReads},
		{"clones", "a clone changed in place, then its original; all count", 2400, clonesIndependent},
		{"cold", "a new process in which goroutines make independent objects as the very first use of the library; all count", 16, coldStart},
	})
}

// kit is one round of dealings and what belongs to it
type kit struct {
	b      *base
	ds     []*dealings.IDkgDealingInternal
	who    []int
	m      *btree.Map[NI, *dealings.IDkgDealingInternal]
	shares []dealings.SecretShares
	T      *dealings.IDkgTranscriptInternal
	bad    *btree.Map[NI, *dealings.IDkgDealingInternal] // the first one corrupted for badFor
	badFor int
	opens  []*btree.Map[NI, poly.CommitmentOpening] // of every dealing, by receiver
	given  *btree.Map[NI, *btree.Map[NI, poly.CommitmentOpening]]
	comb   []poly.CommitmentOpening // of every receiver
	comp   *complaints.IDkgComplaintInternal
}

// pool are the shared objects
type pool struct {
	n, t  int
	ad    []byte
	sk    []*mega.MEGaPrivateKey
	pk    []*mega.MEGaPublicKey
	kits  []*kit
	sd    *seed.Seed
	path  *key.DerivationPath
	hash  []byte
	rnd   []byte
	key   *dealings.IDkgTranscriptInternal
	pre   *dealings.IDkgTranscriptInternal
	quad  [3]*dealings.IDkgTranscriptInternal // lambda, kappa·lambda, key·lambda
	qops  [][3]poly.CommitmentOpening
	sig   *btree.Map[NI, *sign.ThresholdEcdsaSigShareInternal]
	full  *sign.ThresholdEcdsaCombinedSigInternal
	mpk   *key.MasterEcdsaPublicKey
	scal  []curve.EccScalar
	pts   []curve.EccPoint
	fes   []curve.EccFieldElement
	polys []*poly.Polynomial
	nodes []NI
	lagr  *poly.LagrangeCoefficients
	smpl  [][2]curve.EccScalar
	coms  []poly.PolynomialCommitment
	ops   []poly.CommitmentOpening
	enc   [][]byte
	ro    *ro.RandomOracle
	cts   *mega.MEGaCiphertextSingle
	ctp   *mega.MEGaCiphertextPair
	plain [][2]curve.EccScalar
	dl    *zk.ProofOfDLogEquivalence
	eq    *zk.ProofOfEqualOpenings
	pr    *zk.ProofOfProduct
	dlP   []curve.EccPoint
	eqP   []curve.EccPoint
	prP   []curve.EccPoint
}

// drawKit is one round with n-1 or more dealers, made by the library
func drawKit(c *C, p *pool, ps []party, b *base) (*kit, *trans) {
	k := &kit{b: b, badFor: Int(c, 0, p.n-1, "bad receiver")}
	k.who = NodeSet(c, max(b.need(), 2), "dealers")
	if OneIn(c, 6, "crowd") {
		k.who = NodeSet(c, Pick(c, []int{9, 17, 18, 20, 33}, "dealers+"), "dealers")
		c.Label("crowd of %d", len(k.who))
	}
	var ds []*dealt
	k.opens = nil
	for _, i := range k.who {
		d := dealKnown(c, b, p.t, i, p.ad, ps)
		ds = append(ds, d)
		k.ds, k.shares = append(k.ds, d.d), append(k.shares, b.shares(i))
	}
	k.m = dealingMap(ds)
	T, err := dealings.NewTranscriptInternal(K, p.t, k.m, b.op)
	Must(c, err, "transcript")
	k.T = T
	bad := append([]*dealt{}, ds...)
	bad[0] = bad[0].corrupt(c, []int{k.badFor})
	k.bad = dealingMap(bad)
	for _, d := range ds {
		m := &btree.Map[NI, poly.CommitmentOpening]{}
		for i := range ps {
			op := d.opening(i)
			if i%2 == 1 {
				op = PtrOp(op)
			}
			m.Set(NI(i), op)
		}
		k.opens = append(k.opens, m)
	}
	some := 1 + int(U64(c, "opened")%uint64(len(k.who)))
	k.given = Map(k.who[:some], k.opens[:some])
	cp, err := complaints.NewComplaintInternal(p.sd, bad[0].d, NI(k.who[0]), NI(k.badFor), p.sk[k.badFor], p.pk[k.badFor], p.ad)
	Must(c, err, "complaint")
	k.comp = cp
	r := &trans{T: T, kind: b.kind, ps: ps}
	var sorted []*dealt
	for _, i := range k.m.Keys() {
		for _, d := range ds {
			if d.dealer == int(i) {
				sorted = append(sorted, d)
			}
		}
	}
	r.f, r.g = combine(b.kind, sorted)
	for i := range ps {
		k.comb = append(k.comb, mkOpening(r.share(i)))
	}
	return k, r
}

func drawPool(c *C) *pool {
	p := &pool{n: Int(c, 2, 3, "n"), ad: Bytes(c, 40, "ad"), sd: Seed(c, "seed")}
	p.t = Int(c, 1, p.n-1, "t")
	ps := parties(c, p.n, "keys")
	for _, x := range ps {
		p.sk, p.pk = append(p.sk, x.SK), append(p.pk, x.PK)
	}
	// one or two rounds, the second on top of the first
	k, t := drawKit(c, p, ps, makeBase(c, Int(c, 0, 3, "kind"), 2, "base"))
	p.kits = append(p.kits, k)
	if isPair(k.b.kind) {
		if Bool(c, "product") {
			u := known(bulkPoly(c, nil, Int(c, 1, 2, "t2"), "u"), nil, false)
			k, _ = drawKit(c, p, ps, baseOf(kProduct, u, t))
		} else {
			k, _ = drawKit(c, p, ps, baseOf(kMasked, t, nil))
		}
	} else {
		k, _ = drawKit(c, p, ps, baseOf(kUnmasked, t, nil))
	}
	p.kits = append(p.kits, k)
	s := synth(c, p.t)
	s.drawMsg(c)
	p.path, p.hash, p.rnd = libPath(s.path), s.hash, s.randomnes
	p.key, p.pre, p.quad = s.key.T, s.pre.T, [3]*dealings.IDkgTranscriptInternal{s.lambda.T, s.kl.T, s.xl.T}
	var idx []int
	var shs []*sign.ThresholdEcdsaSigShareInternal
	for i := range ps {
		p.qops = append(p.qops, [3]poly.CommitmentOpening{mkOpening(s.lambda.share(i)), mkOpening(s.kl.share(i)), mkOpening(s.xl.share(i))})
		idx, shs = append(idx, i), append(shs, s.libShare(c, i))
	}
	p.sig = Map(idx, shs)
	full, err := s.combine(idx, shs)
	Must(c, err, "signature")
	p.full = full
	p.mpk = &key.MasterEcdsaPublicKey{PublicKey: s.key.pts()[0].Bytes()}
	for i := 0; i < 5; i++ {
		p.scal = append(p.scal, S(Scalar(c, "scalar")))
	}
	for i := 0; i < 4; i++ {
		p.pts = append(p.pts, libPoint(c, AnyPoint(c, "point")))
	}
	for i := 0; i < 4; i++ {
		p.fes = append(p.fes, FE(FieldEl(c, "field")))
	}
	for i := 0; i < 3; i++ {
		p.polys = append(p.polys, Poly(bulkPoly(c, nil, Int(c, 0, 4, "len"), "poly")))
	}
	idx = NodeSet(c, Int(c, 1, 4, "samples"), "samples")
	p.nodes = nis(idx)
	if p.lagr, err = poly.Lagrange.AtZero(K, p.nodes); err != nil {
		c.Fatalf("%v", err)
	}
	f := bulkPoly(c, nil, len(idx), "f")
	g := bulkPoly(c, nil, len(idx), "g")
	for _, i := range idx {
		p.smpl = append(p.smpl, [2]curve.EccScalar{S(ref.Mod(ref.NodeX(i), ref.Q)), S(f.AtNode(i))})
		p.ops = append(p.ops, mkOpening(bigs(f.AtNode(i))), PtrOp(mkOpening(bigs(f.AtNode(i), g.AtNode(i)))))
	}
	p.coms = []poly.PolynomialCommitment{SimpleCom(f), PedersenCom(f, g), p.kits[0].T.CombinedCommitment, p.kits[1].ds[0].Commitment,
		&dealings.InterpolationCommitment{PolynomialCommitment: SimpleCom(f)}, &dealings.SummationCommitment{PolynomialCommitment: PedersenCom(f, g)}}
	for _, o := range p.ops {
		e, err := o.Serialize()
		Must(c, err, "serialize")
		p.enc = append(p.enc, e)
	}
	p.enc = append(p.enc, Bytes(c, 70, "junk"), p.pts[0].Serialize(), p.scal[0].SerializeTagged())
	p.ro = ro.NewRandomOracle("ic-test")
	for i, n := 0, Int(c, 1, 4, "inputs"); i < n; i++ {
		Must(c, addInput(p.ro, drawInput(c, fmt.Sprintf("%c", 'a'+(i*7)%5))), "input")
	}
	for i := range ps {
		p.plain = append(p.plain, [2]curve.EccScalar{p.scal[i%3], p.scal[(i+1)%3]})
	}
	p.cts, err = mega.EncryptCiphertextSingle(p.sd, p.scal[:p.n], p.pk, 3, p.ad)
	Must(c, err, "encrypt")
	p.ctp, err = mega.EncryptCiphertextPair(p.sd, p.plain, p.pk, 3, p.ad)
	Must(c, err, "encrypt")
	w := bulk(c, 4, "witness")
	ds, es := zkStatement(zDlog, w[:1], ref.G(), ref.MulG(w[3])), zkStatement(zEqual, w[:2], ref.G(), ref.H())
	qs := zkStatement(zProduct, bigs(w[0], w[1], w[2], ref.Mul(w[0], w[1]), w[3]), ref.G(), ref.H())
	prove := func(s zkStmt) any {
		x, err := s.prove(p.sd, p.ad)
		Must(c, err, "proof")
		return x
	}
	p.dl, p.eq, p.pr = prove(ds).(*zk.ProofOfDLogEquivalence), prove(es).(*zk.ProofOfEqualOpenings), prove(qs).(*zk.ProofOfProduct)
	p.dlP, p.eqP, p.prP = Pts(ds.pts), Pts(es.pts), Pts(qs.pts)
	c.Key(p.n, p.t, Dump(p.scal), Dump(p.kits[0].T), Dump(p.full))
	return p
}

// result writes down what an operation gave
func result(v any, err error) string {
	if err != nil {
		return "refused"
	}
	return Dump(v)
}
func yes(err error) string {
	if err != nil {
		return "refused"
	}
	return "accepted"
}

// rop is an operation on the pool with its arguments chosen
type rop struct {
	name string
	run  func(p *pool) string
}

// drawOp chooses an operation and what chooses its arguments
func drawOp(c *C) rop {
	i := int(U64(c, "op") % uint64(len(poolOps)))
	x := U64(c, "args")
	a, b, e, f, g := int(x>>1&0xff), int(x>>9&0xff), int(x>>17&0xff), int(x>>25&0xff), int(x>>33&0xff)
	o := poolOps[i]
	return rop{o.name, func(p *pool) string { return o.run(p, arg{a, b, e, f, g}) }}
}

type arg struct{ a, b, e, f, g int }

func at[T any](xs []T, i int) T { return xs[i%len(xs)] }

type poolOp struct {
	name string
	run  func(p *pool, x arg) string
}

var poolOps []poolOp

func init() {
	def := func(name string, run func(p *pool, x arg) string) { poolOps = append(poolOps, poolOp{name, run}) }
	// rounds
	kitOf := func(p *pool, x arg) (*kit, int) {
		k := at(p.kits, x.a)
		return k, x.b % len(k.ds)
	}
	def("new dealing", func(p *pool, x arg) string {
		k, i := kitOf(p, x)
		return result(dealings.NewIDkgDealingInternal(k.shares[i], K, p.sd, p.t, p.pk, NI(k.who[i]), p.ad))
	})
	def("verify dealing publicly", func(p *pool, x arg) string {
		k, i := kitOf(p, x)
		return yes(k.ds[i].PubliclyVerify(K, k.b.op, p.t, NI(k.who[i]), p.n, p.ad))
	})
	def("verify a wrong dealing publicly", func(p *pool, x arg) string {
		k, i := kitOf(p, x)
		return yes(k.ds[i].PubliclyVerify(K, at(p.kits, x.a+1).b.op, p.t, NI(k.who[i]), p.n, p.ad))
	})
	def("verify dealing privately", func(p *pool, x arg) string {
		k, i := kitOf(p, x)
		r := x.e % p.n
		return yes(k.ds[i].PrivateVerify(K, p.sk[r], p.pk[r], p.ad, NI(k.who[i]), NI(r)))
	})
	def("verify a corrupted dealing privately", func(p *pool, x arg) string {
		k, _ := kitOf(p, x)
		d, _ := k.bad.Get(NI(k.who[0]))
		r := x.e % p.n
		return yes(d.PrivateVerify(K, p.sk[r], p.pk[r], p.ad, NI(k.who[0]), NI(r)))
	})
	def("transcript", func(p *pool, x arg) string {
		k, _ := kitOf(p, x)
		return result(dealings.NewTranscriptInternal(K, p.t, k.m, k.b.op))
	})
	def("combine commitments", func(p *pool, x arg) string {
		k, _ := kitOf(p, x)
		return result(dealings.CombineCommitmentsViaInterpolation(k.ds[0].Commitment.Type(), K, p.t, k.m))
	})
	def("open dealing", func(p *pool, x arg) string {
		k, i := kitOf(p, x)
		r := x.e % p.n
		return result(dealings.CommitmentOpening.OpenDealing(k.ds[i], p.ad, NI(k.who[i]), NI(r), p.sk[r], p.pk[r]))
	})
	def("open transcript", func(p *pool, x arg) string {
		k, _ := kitOf(p, x)
		r := x.e % p.n
		return result(dealings.CommitmentOpening.FromDealings(k.m, k.T.CombinedCommitment, p.ad, NI(r), p.sk[r], p.pk[r]))
	})
	def("open transcript with others' openings", func(p *pool, x arg) string {
		k, _ := kitOf(p, x)
		r := x.e % p.n
		return result(dealings.CommitmentOpening.FromDealingsAndOpenings(k.bad, k.given, k.T.CombinedCommitment, p.ad, NI(r), p.sk[r], p.pk[r]))
	})
	def("reconstruct share", func(p *pool, x arg) string {
		k, i := kitOf(p, x)
		return result(dealings.ReconstructShareFromOpenings(k.ds[i], k.opens[i], NI(x.e)))
	})
	def("combine openings", func(p *pool, x arg) string {
		k, _ := kitOf(p, x)
		var idx []NI
		var ops []poly.CommitmentOpening
		r := x.e % p.n
		for i := range k.who {
			o, _ := k.opens[i].Get(NI(r))
			idx, ops = append(idx, NI(k.who[i])), append(ops, o)
		}
		before := Dump(idx) + Dump(ops)
		s := result(dealings.CommitmentOpening.CombineOpenings(idx, ops, k.T.CombinedCommitment, NI(r), K))
		if Dump(idx)+Dump(ops) != before {
			return "CHANGED: the lists of indexes or openings"
		}
		return s
	})
	def("complaints", func(p *pool, x arg) string {
		k, _ := kitOf(p, x)
		r, m := k.badFor, k.bad
		if x.e%4 == 0 {
			r = x.e / 4 % p.n
		}
		if x.f%4 == 0 {
			m = k.m
		}
		return result(complaints.GenerateComplaints(m, p.ad, NI(r), p.sk[r], p.pk[r], p.sd))
	})
	def("verify complaint", func(p *pool, x arg) string {
		k, _ := kitOf(p, x)
		m := k.bad
		if x.f%3 == 0 {
			m = k.m
		}
		d, _ := m.Get(NI(k.who[0]))
		return yes(k.comp.Verify(d, NI(k.who[0]), NI(k.badFor), p.pk[k.badFor], p.ad))
	})
	def("transcript queries", func(p *pool, x arg) string {
		k, _ := kitOf(p, x)
		return Dump(k.T.ConstantTerm()) + Dump(k.T.EvaluateAt(NI(x.e))) + Dump(k.T.Compare(*at(p.kits, x.f).T)) + Dump(k.T.Compare(*k.T))
	})
	def("secret from opening bytes", func(p *pool, x arg) string {
		return result(dealings.Secret.From(at(p.ops, x.a).ToCommitmentOpeningBytes(), at(p.ops, x.b).ToCommitmentOpeningBytes()))
	})
	// commitments and openings
	def("evaluate commitment", func(p *pool, x arg) string { return Dump(at(p.coms, x.a).EvaluateAt(NI(x.b))) })
	def("commitment queries", func(p *pool, x arg) string {
		m := at(p.coms, x.a)
		return Dump(m.ConstantTerm()) + Dump(m.Points()) + fmt.Sprint(m.Len(), m.Type(), m.CurveType())
	})
	def("compare commitments", func(p *pool, x arg) string {
		return fmt.Sprint(at(p.coms, x.a).Equal(at(p.coms, x.b)), at(p.coms, x.b).Equal(at(p.coms, x.b).Clone()))
	})
	def("encode commitment", func(p *pool, x arg) string {
		m := at(p.coms, x.a)
		return result(m.Serialize()) + Dump(m.StableRepresentation())
	})
	def("check opening", func(p *pool, x arg) string {
		i := x.b % len(p.nodes)
		return fmt.Sprint(at(p.coms, x.a).CheckOpening(p.nodes[i], at(p.ops, 2*i+x.e%3)))
	})
	def("return opening", func(p *pool, x arg) string {
		i := x.b % len(p.nodes)
		return result(at(p.coms, x.a).ReturnOpeningIfConsistent(p.nodes[i], at(p.ops, 2*i+x.e%3)))
	})
	def("commitment kind", func(p *pool, x arg) string {
		m := at(p.coms, x.a)
		return yes(m.VerifyIs(poly.Simple, K)) + yes(m.VerifyIs(poly.Pedersen, K))
	})
	def("create commitment", func(p *pool, x arg) string {
		u, v := at(p.polys, x.a), at(p.polys, x.b)
		return result(poly.SimpleCM.Create(u, 4)) + result(poly.PedersenCM.Create(u, v, 4))
	})
	def("encode opening", func(p *pool, x arg) string {
		o := at(p.ops, x.a)
		return result(o.Serialize()) + Dump(o.ToCommitmentOpeningBytes()) + o.ToString()
	})
	def("decode opening", func(p *pool, x arg) string { return result(poly.Commitment.Deserialize(at(p.enc, x.a))) })
	def("decode element", func(p *pool, x arg) string {
		e := at(p.enc, x.a)
		return result(curve.Point.Deserialize(K, e)) + result(curve.Scalar.DeserializeTagged(e)) + result(curve.Point.DeserializeAnyFormat(K, e)) + yes(mega.VerifyMegaPublicKey(K, e))
	})
	// encryption
	def("encrypt", func(p *pool, x arg) string {
		if x.a%2 == 0 {
			return result(mega.EncryptCiphertextSingle(p.sd, p.scal[:p.n], p.pk, NI(x.b), p.ad))
		}
		return result(mega.EncryptCiphertextPair(p.sd, p.plain, p.pk, NI(x.b), p.ad))
	})
	def("check ciphertext", func(p *pool, x arg) string {
		d := NI(3 + x.b%5/4)
		return yes(p.cts.CheckValidity(p.n, p.ad, d)) + yes(p.ctp.CheckValidity(p.n, p.ad, d)) + yes(p.cts.VerifyPop(p.ad, d)) + yes(p.ctp.VerifyPop(p.ad, d))
	})
	def("decrypt", func(p *pool, x arg) string {
		r := x.a % p.n
		if x.b%2 == 0 {
			return result(p.cts.Decrypt(p.ad, 3, NI(r), p.sk[r], p.pk[r]))
		}
		return result(p.ctp.Decrypt(p.ad, 3, NI(r), p.sk[r], p.pk[r]))
	})
	def("decrypt with a shared secret", func(p *pool, x arg) string {
		r := x.a % p.n
		if x.b%2 == 0 {
			return result(p.cts.DecryptFromSharedSecret(p.ad, 3, NI(r), p.pk[r], at(p.pts, x.e)))
		}
		return result(p.ctp.DecryptFromSharedSecret(p.ad, 3, NI(r), p.pk[r], at(p.pts, x.e)))
	})
	def("decrypt and check", func(p *pool, x arg) string {
		k, i := kitOf(p, x)
		r := x.e % p.n
		return result(k.ds[i].Ciphertext.DecryptAndCheck(k.ds[i].Commitment, p.ad, NI(k.who[i]), NI(r), p.sk[r], p.pk[r]))
	})
	def("ciphertext queries", func(p *pool, x arg) string {
		var m mega.MEGaCiphertext = p.cts
		if x.a%2 == 1 {
			m = p.ctp
		}
		return fmt.Sprint(m.Recipients(), m.CType()) + Dump(m.Ephemeral()) + Dump(m.PopPublic()) + Dump(m.Proof()) + yes(m.VerifyIs(mega.CiphertextPairs, K))
	})
	def("keys", func(p *pool, x arg) string {
		u, v, err := mega.GenKeypair(K, p.sd)
		return result(u, err) + result(v, err) + Dump(at(p.pk, x.a).Serialize()) + Dump(at(p.sk, x.a).Serialize()) + Dump(at(p.sk, x.b).PublicKey())
	})
	// proofs
	def("prove", func(p *pool, x arg) string {
		w := func(i int) curve.EccScalar { return at(p.scal, x.b+i) }
		switch x.a % 3 {
		case 0:
			return result(zk.ProofOfDLogEquivalenceIns.Create(p.sd, w(0), at(p.pts, x.e), at(p.pts, x.f), p.ad))
		case 1:
			return result(zk.ProofOfEqualOpeningsIns.Create(p.sd, w(0), w(1), p.ad))
		}
		return result(zk.ProofOfProductIns.Create(p.sd, w(0), w(1), w(2), w(3), w(4), p.ad))
	})
	def("verify proof", func(p *pool, x arg) string {
		return yes(p.dl.Verify(p.dlP[0], p.dlP[1], p.dlP[2], p.dlP[3], p.ad)) + yes(p.eq.Verify(p.eqP[0], p.eqP[1], p.ad)) + yes(p.pr.Verify(p.prP[0], p.prP[1], p.prP[2], p.ad))
	})
	def("verify a wrong proof", func(p *pool, x arg) string {
		u, v := at(p.pts, x.a), at(p.pts, x.b)
		return yes(p.dl.Verify(p.dlP[0], p.dlP[1], u, v, p.ad)) + yes(p.eq.Verify(u, p.eqP[1], p.ad)) + yes(p.pr.Verify(p.prP[0], u, v, p.ad))
	})
	// polynomials
	def("polynomial arithmetic", func(p *pool, x arg) string {
		u, v, k := at(p.polys, x.a), at(p.polys, x.b), at(p.scal, x.e)
		z := func() *poly.Polynomial { return poly.Poly.Zero(K) }
		return Dump(z().Add(u, v)) + Dump(z().Mul(u, v)) + Dump(z().MulScalar(u, k))
	})
	def("polynomial queries", func(p *pool, x arg) string {
		u, v, k := at(p.polys, x.a), at(p.polys, x.b), at(p.scal, x.e)
		return Dump(u.EvaluateAt(k)) + fmt.Sprint(u.Equal(v), u.IsZero(), u.NonZeroCoefficients()) + Dump(u.Coeff(x.f%6))
	})
	def("interpolate polynomial", func(p *pool, x arg) string { return result(poly.Poly.Interpolate(K, p.smpl)) })
	def("lagrange", func(p *pool, x arg) string {
		ys := make([]curve.EccScalar, len(p.nodes))
		yp := make([]curve.EccPoint, len(p.nodes))
		for i := range ys {
			ys[i], yp[i] = at(p.scal, x.a+i), at(p.pts, x.b+i)
		}
		before := Dump(ys) + Dump(yp)
		s := result(poly.Lagrange.AtValue(at(p.scal, x.e), p.nodes)) + result(poly.Lagrange.AtZero(K, p.nodes)) + result(p.lagr.InterpolateScalar(ys)) + result(p.lagr.InterpolatePoint(yp)) + fmt.Sprint(p.lagr.Equal(p.lagr))
		if Dump(ys)+Dump(yp) != before {
			return "CHANGED: the lists of samples"
		}
		return s
	})
	def("random polynomial", func(p *pool, x arg) string {
		return Dump(poly.Poly.Random(K, 3, p.sd.Rng())) + result(poly.Poly.RandomWithConstant(at(p.scal, x.a), 1+x.b%3, p.sd.Rng()))
	})
	// scalars, field elements, points
	def("scalar arithmetic", func(p *pool, x arg) string {
		u, v := at(p.scal, x.a), at(p.scal, x.b)
		z := func() curve.EccScalar { return curve.Scalar.One(K) }
		return Dump(z().Add(u, v)) + Dump(z().Sub(u, v)) + Dump(z().Mul(u, v)) + Dump(z().Invert(u)) + Dump(z().Negate(v)) + Dump(z().Assign(u))
	})
	def("scalar queries", func(p *pool, x arg) string {
		u, v := at(p.scal, x.a), at(p.scal, x.b)
		return fmt.Sprint(u.Equal(v), u.IsZero(), u.IsHigh(), u.BigInt(), u.Serialize(), u.SerializeTagged(), curve.Scalar.ToScalarBytes(u).ScalarBytes())
	})
	def("field arithmetic", func(p *pool, x arg) string {
		u, v := at(p.fes, x.a), at(p.fes, x.b)
		z := func() curve.EccFieldElement { return curve.Field.One(K) }
		r, ok := z().Sqrt(u)
		return Dump(z().Add(u, v)) + Dump(z().Sub(u, v)) + Dump(z().Mul(u, v)) + Dump(z().Square(u)) + Dump(z().Invert(u)) + Dump(z().Negate(v)) + Dump(z().Progenitor(u)) + Dump(r) + fmt.Sprint(ok)
	})
	def("field queries", func(p *pool, x arg) string {
		u, v := at(p.fes, x.a), at(p.fes, x.b)
		return fmt.Sprint(u.Equal(v), u.IsZero(), u.Sign(), u.BigInt(), u.AsBytes())
	})
	def("point arithmetic", func(p *pool, x arg) string {
		u, v, k, l := at(p.pts, x.a), at(p.pts, x.b), at(p.scal, x.e), at(p.scal, x.f)
		z := func() curve.EccPoint { return curve.Point.GeneratorG(K) }
		return Dump(z().AddPoints(u, v)) + Dump(z().SubPoints(u, v)) + Dump(z().Double(u)) + Dump(z().ScalarMul(u, k)) + Dump(curve.Point.MulPoints(u, k, v, l)) + Dump(u.Clone().MulByNodeIndex(NI(x.g))) + Dump(z().Assign(v))
	})
	def("generator multiples", func(p *pool, x arg) string {
		k, l := at(p.scal, x.a), at(p.scal, x.b)
		return Dump(curve.Point.MulByG(k)) + Dump(curve.Point.Pedersen(k, l)) + Dump(curve.Point.GeneratorH(K))
	})
	def("point queries", func(p *pool, x arg) string {
		u, v := at(p.pts, x.a), at(p.pts, x.b)
		return fmt.Sprint(u.Equal(v), u.IsInfinity(), u.Serialize(), u.SerializeTagged(), u.SerializeUncompressed()) + Dump(u.AffineX()) + Dump(v.AffineY())
	})
	def("point from coordinates", func(p *pool, x arg) string {
		u := at(p.pts, x.a)
		return result(curve.Point.FromFieldElems(u.AffineX(), u.AffineY())) + result(curve.Point.FromFieldElems(at(p.fes, x.b), at(p.fes, x.e)))
	})
	// hashing, randomness, keys
	def("hash", func(p *pool, x arg) string {
		e, d := at(p.enc, x.a), at(p.enc, x.b)
		if len(d) == 0 {
			d = []byte("x")
		}
		return result(curve.HashToField(2, K, e, d)) + result(curve.Scalar.HashToSeveralScalar(K, 2, e, d)) + result(curve.Point.HashToPoint(K, e, d)) + result(seed.ExpandMessageXmd(e, d, x.e))
	})
	def("map to curve", func(p *pool, x arg) string { return result(curve.MapToCurve(at(p.fes, x.a))) })
	def("random oracle", func(p *pool, x arg) string {
		return result(p.ro.OutputScalars(K, 1+x.a%3)) + result(p.ro.OutputByteString(x.b)) + result(p.ro.OutputPoint(K))
	})
	def("seed", func(p *pool, x arg) string {
		var b [40]byte
		r := p.sd.Rng()
		r.FillUint8(b[:])
		return Dump(p.sd.Derive("x"+strconv.Itoa(x.a))) + fmt.Sprint(b, r.Uint32()) + Dump(curve.Scalar.FromSeed(K, p.sd)) + Dump(seed.FromBytes(at(p.enc, x.b)))
	})
	def("derive key", func(p *pool, x arg) string {
		t, ck, err := p.path.DeriveTweak(p.key.ConstantTerm())
		return result(t, err) + result(ck, err) + result(sign.DerivePublicKey(p.mpk, p.path))
	})
	def("next index", func(p *pool, x arg) string { return Dump(key.DerivationIndex(at(p.enc, x.a)).Next()) })
	// signing
	def("signature share", func(p *pool, x arg) string {
		q := at(p.qops, x.a)
		return result(sign.NewThresholdEcdsaSigShareInternal(p.path, p.hash, p.rnd, p.key, p.pre, q[0], q[1], q[2], K))
	})
	def("verify signature share", func(p *pool, x arg) string {
		s, _ := p.sig.Get(NI(x.a % p.n))
		return yes(s.Verify(p.path, p.hash, p.rnd, NI(x.b%p.n), p.key, p.pre, p.quad[0], p.quad[1], p.quad[2], K))
	})
	def("combine signature", func(p *pool, x arg) string {
		return result(sign.NewThresholdEcdsaCombinedSigInternal(p.path, p.hash, p.rnd, p.key, p.pre, p.t, p.sig, K))
	})
	def("verify signature", func(p *pool, x arg) string {
		h := p.hash
		if x.a%4 == 0 {
			h = p.rnd
		}
		return yes(p.full.Verify(p.path, h, p.rnd, p.key, p.pre, K))
	})
	def("signing parameters", func(p *pool, x arg) string {
		r, t, n, R, err := sign.DeriveRho(K, p.hash, p.rnd, p.path, p.key, p.pre)
		return result([]any{r, t, n, R}, err) + result(sign.ConvertHashToInteger(p.hash, K)) + result(sign.EcdsaConversion(at(p.pts, x.a)))
	})
}

func safely(o rop, p *pool) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return o.run(p)
}

func inputsKept(c *C) {
	p := drawPool(c)
	twin := Copy(p)
	before := Dump(p)
	if Dump(twin) != before {
		c.Fatalf("harness: the copy differs\n%s\n%s", before, Dump(twin))
	}
	n := 4 + int(U64(c, "length")%20)
	var hist []rop
	got := []string{}
	for i := 0; i < n; i++ {
		var o rop
		again := -1
		if i > 0 && OneIn(c, 3, "again") {
			again = Int(c, 0, len(hist)-1, "which")
			o = hist[again]
		} else {
			o = drawOp(c)
		}
		hist = append(hist, o)
		r := o.run(p)
		if strings.HasPrefix(r, "CHANGED") {
			c.Fatalf("%s: %s", o.name, r)
		}
		got = append(got, r)
		if again >= 0 && got[again] != got[i] {
			c.Fatalf("%s gives another result the second time:\n%s\n%s", o.name, got[again], got[i])
		}
		if now := Dump(p); now != before {
			c.Fatalf("%s changed its inputs, in %s", o.name, changed(before, now))
		}
		c.Label("%s", o.name)
	}
	// alone, on objects on which nothing else ran
	i := Int(c, 0, n-1, "alone")
	if r := hist[i].run(twin); r != got[i] {
		c.Fatalf("%s gives another result on fresh objects:\n%s\n%s", hist[i].name, got[i], r)
	}
	c.Note("n=%d t=%d, %s", p.n, p.t, names(hist))
}

func names(h []rop) string {
	var r []string
	for _, o := range h {
		r = append(r, o.name)
	}
	return strings.Join(r, "; ")
}

// changed shows where two dumps differ
func changed(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, i-90):min(len(s), i+90)] }
	return fmt.Sprintf("…%s… now …%s…", cut(a), cut(b))
}

func concurrentReads(c *C) {
	p := drawPool(c)
	before := Dump(p)
	for r, rounds := 0, Int(c, 2, 4, "rounds"); r < rounds; r++ {
		concurrentRound(c, p, before)
	}
}

func concurrentRound(c *C, p *pool, before string) {
	fresh := Copy(p) // nothing has run on these objects
	n := 3 + int(U64(c, "operations")%6)
	var list []rop
	for i := 0; i < n; i++ {
		list = append(list, drawOp(c))
	}
	workers := Int(c, 2, 4, "workers")
	orders := make([][]int, workers)
	for w := range orders {
		var o []int
		for i := range list {
			o = append(o, i)
		}
		switch w % 3 {
		case 0: // the same order as the first: pairs of the same operation
		case 1:
			o = Shuffle(c, o, "order")
		case 2:
			for i := range o {
				o[i] = len(list) - 1 - i
			}
		}
		orders[w] = o
	}
	got := make([][]string, workers)
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for w := range orders {
		got[w] = make([]string, len(list))
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-begin
			for _, i := range orders[w] {
				got[w][i] = safely(list[i], fresh)
			}
		}(w)
	}
	close(begin)
	wg.Wait()
	for i, o := range list {
		want := safely(o, p)
		for w := range got {
			if got[w][i] != want {
				c.Fatalf("%s, run by %d goroutines among %s, gives\n%s\nand alone\n%s", o.name, workers, names(list), got[w][i], want)
			}
		}
		if strings.HasPrefix(want, "panic") || strings.HasPrefix(want, "CHANGED") {
			c.Fatalf("%s: %s", o.name, want)
		}
		c.Label("%s", o.name)
	}
	if now := Dump(fresh); now != before {
		c.Fatalf("%s changed the inputs, in %s", names(list), changed(before, now))
	}
	c.Note("n=%d t=%d, %d goroutines: %s", p.n, p.t, workers, names(list))
}

// ---- clones

// spoil changes, in place, a scalar, point or field element
func spoil(c *C, x any) {
	switch v := x.(type) {
	case curve.EccScalar:
		o := S(NonZero(c, "d"))
		switch Int(c, 0, 4, "how") {
		case 0:
			v.Add(v, o)
		case 1:
			v.Sub(v, o)
		case 2:
			v.Assign(S(OtherScalar(c, V(v), "o")))
		case 3:
			v.Add(v, curve.Scalar.One(K)).Negate(v)
			v.Add(v, o)
		case 4:
			v.Mul(v, o).Add(v, o)
		}
	case curve.EccPoint:
		o := Pt(NonIdPoint(c, "d"))
		switch Int(c, 0, 4, "how") {
		case 0:
			v.AddPoints(v, o)
		case 1:
			v.SubPoints(v, o)
		case 2:
			v.Assign(Pt(OtherPoint(c, PV(v), "o")))
		case 3:
			v.AddPoints(v, o).Double(v)
		case 4:
			v.AddPoints(v, o).ScalarMul(v, S(NonZero(c, "k")))
		}
	case curve.EccFieldElement:
		o := FE(ref.Mod(new(big.Int).Add(FieldEl(c, "d"), big.NewInt(1)), ref.P))
		switch Int(c, 0, 4, "how") {
		case 0:
			v.Add(v, o)
		case 1:
			v.Sub(v, o)
		case 2:
			v.Assign(o)
		case 3:
			v.Negate(v).Add(v, o)
		case 4:
			v.CAssign(o, 1)
		}
	}
}

// slots are the elements an object is made of
func slots(x any) []any {
	switch x.(type) {
	case curve.EccScalar, curve.EccPoint, curve.EccFieldElement:
		return []any{x}
	}
	var r []any
	for _, l := range Leaves(&x) {
		r = append(r, l.Get())
	}
	return r
}

func clonesIndependent(c *C) {
	var x, y any
	what := ""
	ad := Expand(U64(c, "ad"), 20)
	n := Int(c, 1, 4, "n")
	switch Int(c, 0, 11, "type") {
	case 0:
		s := S(Scalar(c, "s"))
		x, y, what = s, s.Clone(), "scalar"
	case 1:
		s := libPoint(c, AnyPoint(c, "p"))
		x, y, what = s, s.Clone(), "point"
	case 2:
		s := FE(FieldEl(c, "f"))
		x, y, what = s, s.Clone(), "field element"
	case 3:
		s := SimpleCom(bulkPoly(c, nil, n, "f"))
		x, y, what = s, s.Clone(), "commitment"
	case 4:
		s := PedersenCom(bulkPoly(c, nil, n, "f"), bulkPoly(c, nil, n, "g"))
		x, y, what = s, s.Clone(), "masked commitment"
	case 5:
		s := &dealings.SummationCommitment{PolynomialCommitment: PedersenCom(bulkPoly(c, nil, n, "f"), bulkPoly(c, nil, n, "g"))}
		x, y, what = s, s.Clone(), "combined commitment"
	case 6:
		s := &dealings.InterpolationCommitment{PolynomialCommitment: SimpleCom(bulkPoly(c, nil, n, "f"))}
		x, y, what = s, s.Clone(), "combined commitment"
	case 7, 8, 9:
		sys := Int(c, 0, 2, "system")
		pr, err := drawStmt(c, sys).prove(Seed(c, "seed"), ad)
		Must(c, err, "proof")
		switch v := pr.(type) {
		case *zk.ProofOfDLogEquivalence:
			x, y, what = v, v.Clone(), "proof of equal logarithms"
		case *zk.ProofOfEqualOpenings:
			x, y, what = v, v.Clone(), "proof of equal openings"
			if Bool(c, "wrapped") {
				w := &dealings.MaskedResharingProof{ProofOfEqualOpenings: v}
				x, y, what = w, dealings.ZkProof(w).Clone(), "masked resharing proof"
			}
		case *zk.ProofOfProduct:
			x, y, what = v, v.Clone(), "proof of product"
			if Bool(c, "wrapped") {
				w := &dealings.ProductProof{ProofOfProduct: v}
				x, y, what = w, dealings.ZkProof(w).Clone(), "product proof"
			}
		}
	case 10, 11:
		s, err := mega.EncryptCiphertextSingle(Seed(c, "seed"), Ss(bulk(c, n, "plain")), pks(parties(c, n, "keys")), NI(Node(c, "dealer")), ad)
		Must(c, err, "encrypt")
		x, y, what = s, s.Clone(), "ciphertext"
	}
	ox, oy := Dump(x), Dump(y)
	c.Key(what, ox)
	c.Label("%s", what)
	c.Note("%s", what)
	dx, dy := ox, oy
	switch what {
	case "combined commitment": // the clone need not be wrapped
		dx, dy = Dump(x.(poly.PolynomialCommitment).Points()), Dump(y.(poly.PolynomialCommitment).Points())
		if x.(poly.PolynomialCommitment).Type() != y.(poly.PolynomialCommitment).Type() {
			c.Fatalf("%s: the clone has another type", what)
		}
	}
	if dx != dy {
		c.Fatalf("%s: the clone differs:\n%s\n%s", what, dx, dy)
	}
	if reflect.ValueOf(x).Pointer() == reflect.ValueOf(y).Pointer() {
		c.Fatalf("%s: the clone is the original", what)
	}
	sx, sy := slots(x), slots(y)
	if len(sx) != len(sy) || len(sx) == 0 {
		c.Fatalf("%s: %d parts, the clone has %d", what, len(sx), len(sy))
	}
	// change one, then all parts of the clone, then of the original
	i := Int(c, 0, len(sy)-1, "part")
	spoil(c, sy[i])
	if Dump(x) != ox {
		c.Fatalf("%s: changing part %d of the clone changes the original", what, i)
	}
	if len(sy) > 1 {
		for _, s := range sy {
			spoil(c, s)
		}
		if Dump(x) != ox {
			c.Fatalf("%s: changing the clone changes the original", what)
		}
	}
	oy = Dump(y)
	for j, s := range sx {
		spoil(c, s)
		if Dump(y) != oy {
			c.Fatalf("%s: changing part %d of the original changes the clone", what, j)
		}
	}
	// replacing whole parts
	switch v := x.(type) {
	case *poly.SimpleCommitment:
		replaced(c, what, v.Points(), y)
	case *poly.PedersenCommitment:
		replaced(c, what, v.Points(), y)
	case *mega.MEGaCiphertextSingle:
		o := Dump(y)
		for i := range v.CTexts {
			v.CTexts[i] = S(big.NewInt(int64(i)))
		}
		if Dump(y) != o {
			c.Fatalf("%s: replacing a part of the original replaces that of the clone", what)
		}
	}
}

func replaced(c *C, what string, ps []curve.EccPoint, other any) {
	o := Dump(other)
	for i := range ps {
		ps[i] = Pt(ref.Pt{})
	}
	if Dump(other) != o {
		c.Fatalf("%s: replacing a part of the original replaces that of the clone", what)
	}
}

// ---- first use of the library

// coldOps make everything they work on themselves
var coldOps = []struct {
	name string
	run  func(b []byte) string
}{
	{"generator multiple", func(b []byte) string { return Dump(curve.Point.MulByG(coldS(b))) }},
	{"second generator", func(b []byte) string { return Dump(curve.Point.GeneratorH(K)) }},
	{"commitment", func(b []byte) string { return Dump(curve.Point.Pedersen(coldS(b), coldS(b[8:]))) }},
	{"hash to curve", func(b []byte) string { return result(curve.Point.HashToPoint(K, b, b[:9])) }},
	{"hash to field", func(b []byte) string { return result(curve.HashToField(2, K, b, b[:9])) }},
	{"hash to scalars", func(b []byte) string { return result(curve.Scalar.HashToSeveralScalar(K, 2, b, b[:9])) }},
	{"constants", func(b []byte) string {
		s := ""
		for _, f := range []curve.EccFieldElement{curve.Field.A(K), curve.Field.B(K), curve.Field.SswuA(K), curve.Field.SswuB(K), curve.Field.SswuZ(K), curve.Field.SswuC2(K), curve.Field.Zero(K), curve.Field.One(K)} {
			s += Dump(f)
		}
		return s
	}},
	{"field", func(b []byte) string {
		f, err := curve.Field.FromBytesWide(K, b)
		if err != nil {
			return "refused"
		}
		r, ok := curve.Field.One(K).Sqrt(f)
		return Dump(r) + fmt.Sprint(ok) + Dump(f.Clone().Invert(f))
	}},
	{"scalar", func(b []byte) string {
		s := coldS(b)
		return Dump(s.Clone().Invert(s)) + fmt.Sprint(s.IsHigh()) + Dump(s.SerializeTagged())
	}},
	{"point", func(b []byte) string {
		for i := range b {
			e := append([]byte{2 + b[0]&1}, b[i:i+32]...)
			if p, err := curve.Point.DeserializeAnyFormat(K, e); err == nil {
				return Dump(p) + Dump(p.SerializeUncompressed()) + Dump(p.Clone().MulByNodeIndex(NI(b[1])))
			}
		}
		return "none"
	}},
	{"seed", func(b []byte) string {
		s := seed.FromBytes(b)
		return Dump(s) + Dump(s.Derive("x")) + Dump(curve.Scalar.FromSeed(K, s))
	}},
	{"random oracle", func(b []byte) string {
		o := ro.NewRandomOracle("cold")
		if o.AddBytesString("b", b) != nil || o.AddUint32("i", 7) != nil {
			return "refused"
		}
		return result(o.OutputScalars(K, 2)) + result(o.OutputPoint(K))
	}},
	{"derivation", func(b []byte) string {
		t, ck, err := key.New([]key.DerivationIndex{b[:5], b[5:7]}).DeriveTweak(curve.Point.GeneratorG(K))
		return result(t, err) + result(ck, err) + Dump(key.NewBip32([]uint32{1, 2}))
	}},
	{"proofs", func(b []byte) string {
		s := seed.FromBytes(b)
		p, err := zk.ProofOfEqualOpeningsIns.Create(s, coldS(b), coldS(b[8:]), b)
		if err != nil {
			return "refused"
		}
		return Dump(p) + yes(p.Verify(curve.Point.Pedersen(coldS(b), coldS(b[8:])), curve.Point.MulByG(coldS(b)), b))
	}},
	{"keys", func(b []byte) string {
		u, v, err := mega.GenKeypair(K, seed.FromBytes(b))
		return result(u, err) + result(v, err)
	}},
	{"dealing", func(b []byte) string {
		s := seed.FromBytes(b)
		u, v, err := mega.GenKeypair(K, s)
		if err != nil {
			return "refused"
		}
		d, err := dealings.NewIDkgDealingInternal(&dealings.RandomSecret{}, K, s, 1, []*mega.MEGaPublicKey{u}, 0, b)
		if err != nil {
			return "refused"
		}
		return Dump(d) + yes(d.PubliclyVerify(K, &dealings.RandomTranscript{}, 1, 0, 1, b)) + yes(d.PrivateVerify(K, v, u, b, 0, 0))
	}},
	{"lagrange", func(b []byte) string {
		return result(poly.Lagrange.AtZero(K, []NI{0, NI(b[0]) + 1, 300})) + Dump(poly.Poly.Random(K, 3, seed.FromBytes(b).Rng()))
	}},
	{"encodings", func(b []byte) string {
		e, err := (poly.SimpleCommitmentOpening{coldS(b)}).Serialize()
		if err != nil {
			return "refused"
		}
		o, err := poly.Commitment.Deserialize(e)
		return Dump(e) + result(o, err)
	}},
	{"message hash", func(b []byte) string {
		return result(sign.ConvertHashToInteger(b, K)) + result(sign.EcdsaConversion(curve.Point.GeneratorG(K)))
	}},
}

func coldS(b []byte) curve.EccScalar {
	s, err := curve.Scalar.FromBytesWide(K, b[:32])
	if err != nil {
		panic(err)
	}
	return s
}

// TestP24Cold is the new process
func TestP24Cold(t *testing.T) {
	sd, err := strconv.ParseUint(os.Getenv("VERIF_COLD"), 10, 64)
	if err != nil {
		t.Skip("run by TestP24")
	}
	const workers = 6
	r := Expand(sd, 4096)
	orders := make([][]int, workers)
	for w := range orders { // all start with the same or with different ones
		rr := Expand(sd+uint64(w), 64)
		if r[0]%2 == 0 {
			rr = Expand(sd, 64)
		}
		o := make([]int, len(coldOps))
		for i := range o {
			o[i] = i
		}
		for i := len(o) - 1; i > 0; i-- {
			j := int(rr[i]) % (i + 1)
			o[i], o[j] = o[j], o[i]
		}
		orders[w] = o
	}
	got := make([][]string, workers)
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for w := range got {
		got[w] = make([]string, len(coldOps))
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-begin
			for _, i := range orders[w] {
				b := r[64*i+64:][:200]
				got[w][i] = safely(rop{run: func(*pool) string { return coldOps[i].run(b) }}, nil)
			}
		}(w)
	}
	close(begin)
	wg.Wait()
	for i, o := range coldOps {
		want := safely(rop{run: func(*pool) string { return o.run(r[64*i+64:][:200]) }}, nil)
		for w := range got {
			if got[w][i] != want || strings.HasPrefix(want, "panic") {
				t.Errorf("COLD-DIFFERENCE in /repo/: %s by goroutine %d of a new process:\n%s\nand afterwards\n%s", o.name, w, got[w][i], want)
			}
		}
	}
}

func coldStart(c *C) {
	sd := U64(c, "cold") >> 1
	c.Key(sd)
	c.Note("process %d", sd)
	exe, err := os.Executable()
	if err != nil {
		Broken("no path of the test binary: %v", err)
	}
	cmd := exec.Command(exe, "-test.run", "^TestP24Cold$", "-test.timeout=0")
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "VERIF_COLD="+strconv.FormatUint(sd, 10))
	out, err := cmd.CombinedOutput()
	if err == nil {
		return
	}
	s := string(out)
	for _, sign := range []string{"DATA RACE", "COLD-DIFFERENCE", "fatal error: concurrent map", "all goroutines are asleep", "stack overflow"} {
		if strings.Contains(s, sign) && strings.Contains(s, "/repo/") {
			if len(s) > 6000 {
				s = s[:6000]
			}
			c.Fatalf("goroutines that use the library for the first time, each on its own objects:\n%s", s)
		}
	}
	Broken("the new process ended with %v:\n%s", err, s)
}
