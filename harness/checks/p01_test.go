package checks

import (
	"math/big"
	"sort"
	"testing"

	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/sign"

	. "verifharness/hx"
	"verifharness/ref"
)

func TestP01(t *testing.T) {
	Run(t, "P01", []Sub{
		{"quorums", "transcripts of known secrets, signers at any indices, two quorums and too small a set; all count", 300, quorums},
		{"protocol", "five rounds of real dealings, some of them corrupted and recovered from, then signing; all count", 20, protocol},
		{"reshared", "the key reshared to other nodes with another threshold between two signatures; all count", 8, reshared},
		{"boundary", "contexts whose signature is small, near half the order or near the order, or with zero hash; all count", 150, signBoundary},
	})
}

// sign1 combines the shares of some signers and checks the result
func (s *sctx) sign1(c *C, idx []int, shs map[int]*sign.ThresholdEcdsaSigShareInternal) *sign.ThresholdEcdsaCombinedSigInternal {
	var l []*sign.ThresholdEcdsaSigShareInternal
	var before string
	for _, i := range idx {
		l = append(l, shs[i])
		before += Dump(shs[i])
	}
	sig, err := s.combine(idx, l)
	Must(c, err, "%s: combining the shares of %v", s, idx)
	var after string
	for _, i := range idx {
		after += Dump(shs[i])
	}
	if before != after {
		c.Fatalf("%s: combining changed the shares", s)
	}
	r, sg := s.signature()
	if V(sig.R).Cmp(r) != 0 || V(sig.S).Cmp(sg) != 0 {
		c.Fatalf("%s: signers %v make r=%x s=%x, want %x %x", s, idx, V(sig.R), V(sig.S), r, sg)
	}
	c.Owned(sig)
	return sig
}

// judge has a signature verified by the library and by the book
func (s *sctx) judge(c *C, sig *sign.ThresholdEcdsaCombinedSigInternal) {
	Must(c, s.verify(sig), "%s: verification of the signature", s)
	if V(sig.S).Cmp(ref.Half) > 0 || V(sig.S).Sign() == 0 {
		c.Fatalf("%s: s=%x", s, V(sig.S))
	}
	pk, err := sign.DerivePublicKey(&key.MasterEcdsaPublicKey{PublicKey: s.key.T.ConstantTerm().Serialize()}, libPath(s.path))
	Must(c, err, "%s: derived public key", s)
	c.Owned(pk)
	p, ok := ref.Decode(pk.PublicKey)
	if !ok || !p.Eq(s.pk()) {
		c.Fatalf("%s: derived key %x, want %s", s, pk.PublicKey, s.pk())
	}
	if !ref.ECDSAVerify(p, s.hash, V(sig.R), V(sig.S)) {
		c.Fatalf("%s: r=%x s=%x is no signature under %s", s, V(sig.R), V(sig.S), p)
	}
}

// signAll makes the shares of all signers and several quorums of them
func (s *sctx) signAll(c *C, idx []int, quorums int) {
	shs := map[int]*sign.ThresholdEcdsaSigShareInternal{}
	for _, i := range idx {
		shs[i] = s.libShare(c, i)
		Must(c, s.verifyShare(shs[i], i), "%s: share of %d", s, i)
	}
	s.judge(c, s.sign1(c, idx, shs))
	for q := 0; q < quorums; q++ {
		k := s.t
		if q > 0 && Bool(c, "more") {
			k = Int(c, s.t, len(idx), "size")
		}
		sub := Subset(c, idx, k, "quorum")
		sig := s.sign1(c, sub, shs)
		if q == 0 {
			s.judge(c, sig)
		}
	}
	few := Subset(c, idx, Int(c, 0, s.t-1, "few"), "few")
	var l []*sign.ThresholdEcdsaSigShareInternal
	for _, i := range few {
		l = append(l, shs[i])
	}
	sig, err := s.combine(few, l)
	MustErr(c, err, "%s: combining the shares of %v only", s, few)
	if err == nil || sig != nil {
		c.Fatalf("%s: too few signers %v get %v", s, few, sig)
	}
}

func quorums(c *C) {
	t := Int(c, 1, 6, "t")
	if OneIn(c, 12, "large") {
		t = Size(c, 7, 14, 3, 130, "large t")
	}
	s := synth(c, t)
	s.drawMsg(c)
	idx := NodeSet(c, t+Int(c, 0, 3, "extra"), "signers")
	s.degenerateIn(c, idx[Int(c, 0, len(idx)-1, "zero")], true)
	c.Key(idx)
	c.Label("t=%s", bucket(t, 1, 2, 3, 5, 7))
	c.Label("hash %s", bucket(len(s.hash), 0, 1, 32, 33))
	c.Note("%s signers %v", s, idx)
	before := s.dump()
	s.signAll(c, idx, 2)
	if s.dump() != before {
		c.Fatalf("%s: signing changed the context", s)
	}
}

func signBoundary(c *C) {
	t := Int(c, 1, 3, "t")
	s := synth(c, t)
	s.drawMsg(c)
	kind := Int(c, 0, 3, "kind")
	if kind == 3 {
		s.hash = make([]byte, Int(c, 0, 40, "zeros"))
		c.Key("zero hash", len(s.hash))
	} else {
		s.path = nil
		around := []*big.Int{big.NewInt(1), ref.Half, ref.Neg(big.NewInt(1))}
		v := ref.Add(around[kind], big.NewInt(int64(Int(c, -3, 3, "d"))))
		if v.Sign() == 0 {
			v = big.NewInt(1)
		}
		r, _, rnd, _ := refRho(ref.G(), s.pre.pts()[0], nil, s.hash, s.randomnes)
		x := ref.Mul(ref.Sub(ref.Mul(v, ref.Add(s.pre.secret(), rnd)), ref.HashInt(s.hash)), ref.Inv(r))
		if x.Sign() == 0 {
			panic("zero key")
		}
		s.key = known(bulkPoly(c, x, t, "key'"), nil, false)
		s.xl = known(bulkPoly(c, ref.Mul(x, s.lambda.secret()), t, "xl'"), bulkPoly(c, nil, t, "xl mask'"), false)
		c.Key(v)
		_, sg := s.signature()
		if sg.Cmp(v) != 0 && sg.Cmp(ref.Neg(v)) != 0 {
			c.Fatalf("harness: s=%x, want %x", sg, v)
		}
	}
	c.Label("%s", []string{"s near 0", "s near half", "s near the order", "zero hash"}[kind])
	c.Note("%s", s)
	s.signAll(c, NodeSet(c, t+Int(c, 0, 1, "extra"), "signers"), 1)
}

// committee is who takes part in a round
type committee struct {
	ps []party
	t  int
	ad []byte
}

// dealersFor picks at least as many dealers as the operation needs
func (k committee) dealersFor(c *C, b *base) []int {
	var all []int
	for i := range k.ps {
		all = append(all, i)
	}
	n := b.need()
	if Bool(c, "all dealers") {
		n = len(all)
	} else {
		n = Int(c, n, len(all), "dealers")
	}
	d := Subset(c, all, n, "dealers")
	sort.Ints(d)
	return d
}

// run is one round in which the nodes of one committee deal to another
func (k committee) run(c *C, b *base, to committee, corruption int) *trans {
	return round(c, b, k.dealersFor(c, b), to.ps, to.t, to.ad, corruption)
}

func drawCommittee(c *C, maxT int, label string) committee {
	t := 1 + int(U64(c, label+".t")%uint64(maxT))
	n := 2*t - 1 + Int(c, 0, 2, label+".n")
	return committee{parties(c, n, label), t, Bytes(c, 40, label+".ad")}
}

// preSign are the rounds before signing
func (k committee) preSign(c *C, s *sctx, corruption int) {
	random := baseOf(kRandom, nil, nil)
	s.t = k.t
	if s.key == nil {
		a := k.run(c, random, k, corruption)
		s.key = k.run(c, baseOf(kMasked, a, nil), k, corruption)
	}
	b := k.run(c, random, k, corruption)
	s.lambda = k.run(c, random, k, corruption)
	s.pre = k.run(c, baseOf(kMasked, b, nil), k, corruption)
	s.xl = k.run(c, baseOf(kProduct, s.key, s.lambda), k, corruption)
	s.kl = k.run(c, baseOf(kProduct, s.pre, s.lambda), k, corruption)
}

func (k committee) all() (r []int) {
	for i := range k.ps {
		r = append(r, i)
	}
	return
}

func protocol(c *C) {
	maxT := 3
	if Thorough() {
		maxT = 4
	}
	k := drawCommittee(c, maxT, "committee")
	corruption := Pick(c, []int{0, 4, 2}, "corruption")
	s := &sctx{}
	k.preSign(c, s, corruption)
	s.drawMsg(c)
	c.Key(len(k.ps), k.t)
	c.Label("n=%d t=%d", len(k.ps), k.t)
	c.Label("corruption 1/%d", corruption)
	c.Note("n=%d t=%d corruption 1/%d: %s", len(k.ps), k.t, corruption, s)
	s.signAll(c, k.all(), 3)
	s.drawMsg(c)
	s.signAll(c, k.all(), 1)
}

func reshared(c *C) {
	k := drawCommittee(c, 2, "committee")
	corruption := Pick(c, []int{0, 3}, "corruption")
	s := &sctx{}
	k.preSign(c, s, corruption)
	s.drawMsg(c)
	s.signAll(c, k.all(), 1)
	pub := s.pk()

	k2 := drawCommittee(c, 3, "next committee")
	o := &sctx{path: s.path, hash: s.hash, randomnes: s.randomnes}
	o.key = k.run(c, baseOf(kUnmasked, s.key, nil), k2, corruption)
	if !PV(o.key.T.ConstantTerm()).Eq(PV(s.key.T.ConstantTerm())) {
		c.Fatalf("the public key changed")
	}
	k2.preSign(c, o, corruption)
	if !o.pk().Eq(pub) {
		c.Fatalf("harness: public key")
	}
	c.Key(len(k.ps), k.t, len(k2.ps), k2.t)
	c.Label("t=%d then t=%d", k.t, k2.t)
	c.Note("n=%d t=%d then n=%d t=%d, %s", len(k.ps), k.t, len(k2.ps), k2.t, o)
	o.signAll(c, k2.all(), 2)
	if sig := libSig(o.signature()); s.verify(sig) == nil {
		c.Fatalf("the same nonce in both committees")
	}
}
