package ref

import (
	"encoding/hex"
	"math/big"
	"math/rand"
	"testing"
)

func rnd(r *rand.Rand) *big.Int { return new(big.Int).Rand(r, Q) }

func TestMulAgrees(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 40; i++ {
		a := MulG(rnd(r))
		k := rnd(r)
		if i%4 == 0 {
			k = Sub(zero, I(int64(i)))
		}
		if i%4 == 1 {
			k = I(int64(i))
		}
		if !a.Mul(k).Eq(a.MulSlow(k)) || !MulG(k).Eq(G().MulSlow(k)) || !a.Mul(k).OnCurve() {
			t.Fatal(i)
		}
	}
}

func TestVectors(t *testing.T) {
	// RFC 9380 J.8.1 secp256k1_XMD:SHA-256_SSWU_RO_
	dst := []byte("QUUX-V01-CS02-with-secp256k1_XMD:SHA-256_SSWU_RO_")
	p := HashToCurve(nil, dst)
	if hex.EncodeToString(B32(p.X)) != "c1cae290e291aee617ebaef1be6d73861479c48b841eaba9b7b5852ddfeb1346" || hex.EncodeToString(B32(p.Y)) != "64fa678e07ae116126f08b022a94af6de15985c996c3a91b64c406a960e51067" {
		t.Fatal(p.X.Text(16), p.Y.Text(16))
	}
	p = HashToCurve([]byte("abc"), dst)
	if hex.EncodeToString(B32(p.X)) != "3377e01eab42db296b512293120c6cee72b6ecf9f9205760bd9ff11fb3cb2c4b" {
		t.Fatal(p.X.Text(16))
	}
	if H().String() != "037bdcfc024cf697a41fd3cda2436c843af5669e50042be3314a532d5b70572f59" {
		t.Fatal(H())
	}
	if x := hex.EncodeToString(XMD([]byte("abc"), []byte("QUUX-V01-CS02-with-expander-SHA256-128"), 0x20)); x != "d8ccab23b5985ccea865c6c97b6e5b8350e794e603b4b97902f53a8a0d605615" {
		t.Fatal(x)
	}
	// RFC 8439 A.1 test vector 1
	if x := hex.EncodeToString(ChaCha(make([]byte, 32), 16)); x != "76b8e0ada0f13d90405d6ae55386bd28" {
		t.Fatal(x)
	}
	// exceptional inputs of the map stay on the curve
	if u := SqrtP(InvM(I(11), P)); u != nil {
		if !MapToCurve(u).OnCurve() {
			t.Fatal("exceptional")
		}
		t.Log("u^2 = -1/Z exists")
	}
	if !MapToCurve(zero).OnCurve() {
		t.Fatal("zero")
	}
}
