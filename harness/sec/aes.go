// Package sec has the harnesses of encryption, compression and the encrypted file system.
package sec

import (
	"crypto/rand"

	"github.com/axgrid/axutils/crypto"
	_ "vpharness/model"
	"vpharness/vp"
)

// source is a random source with arbitrary output that remembers what was drawn.
type source struct{ drawn []byte }

func (s *source) Read(b []byte) (int, error) {
	x := vp.Bytes("random", len(b))
	s.drawn = append(s.drawn, x...)
	return copy(b, x), nil
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func keyLen(name string) int { return 16 + 8*vp.Choose(name, 3) }

func encrypt(key, data []byte) []byte {
	rand.Reader = &source{}
	k, d := clone(key), clone(data)
	ct, err := crypto.NewAES(key).Encrypt(data)
	vp.Assert(err == nil, "encryption with a valid key succeeds")
	vp.Assert(vp.EqBytes(k, key) && vp.EqBytes(d, data), "encryption leaves its arguments alone")
	return ct
}

// Arbitrary data of up to 4 bytes (or 40), arbitrary key of each valid length, arbitrary nonce: decryption gives the data back; the
// same object can be used again.
//
//vp:check K01
func AESRoundTrip() {
	key := vp.Bytes("key", keyLen("keylen"))
	n := vp.Choose("n", 6)
	if n == 5 {
		n = 40
	}
	data := vp.Bytes("data", n)
	ct := encrypt(key, data)
	c := clone(ct)
	pt, err := crypto.NewAES(clone(key)).Decrypt(ct)
	vp.Assert(err == nil, "decryption under the same key succeeds")
	vp.Assert(len(pt) == n && vp.EqBytes(pt, data), "decryption returns the original data")
	vp.Assert(vp.EqBytes(c, ct), "decryption leaves its argument alone")
	pt, err = crypto.NewAES(key).Decrypt(ct)
	vp.Assert(err == nil && vp.EqBytes(pt, data), "decryption can be repeated")
}

// rejected: decryption gives an error and no data.
func rejected(key, ct []byte) {
	pt, err := crypto.NewAES(key).Decrypt(ct)
	vp.Assert(err != nil, "anything but a ciphertext of this key is rejected")
	vp.Assert(len(pt) == 0, "no data with an error")
}

// Arbitrary data of up to 3 bytes, arbitrary key: any other key, any changed byte, any truncation (at either end)
// and any extension by one or two bytes is rejected.
//
//vp:check K01
func AESTampered() {
	key := vp.Bytes("key", keyLen("keylen"))
	n := vp.Choose("n", 4)
	ct := encrypt(key, vp.Bytes("data", n))
	vp.Assert(len(ct) == 12+n+16, "the ciphertext is nonce, data and tag")
	switch vp.Choose("change", 5) {
	case 0:
		other := vp.Bytes("other", keyLen("otherlen"))
		vp.Assume(!vp.EqBytes(key, other))
		rejected(other, ct)
	case 1:
		d := vp.Byte("xor")
		vp.Assume(d != 0)
		ct[vp.Choose("at", len(ct))] ^= d
		rejected(key, ct)
	case 2:
		rejected(key, ct[:vp.Choose("cut", len(ct))])
	case 3:
		rejected(key, ct[1+vp.Choose("drop", len(ct)):])
	case 4:
		rejected(key, append(clone(ct), vp.Bytes("more", 1+vp.Choose("extra", 2))...))
	}
}

// Two ciphertexts of arbitrary data under one key: nonce of one with the body of the other is rejected (unless
// the nonces are equal).
//
//vp:check K01
func AESMixed() {
	key := vp.Bytes("key", 16)
	a := encrypt(key, vp.Bytes("data", vp.Choose("n", 3)))
	b := encrypt(key, vp.Bytes("data", vp.Choose("n", 3)))
	vp.Assume(!vp.EqBytes(a[:12], b[:12]))
	rejected(key, append(clone(a[:12]), b[12:]...))
	pt, err := crypto.NewAES(key).Decrypt(a)
	vp.Assert(err == nil && len(pt) == len(a)-28, "both can still be decrypted")
}

// Arbitrary input of up to 40 bytes that was never encrypted, arbitrary key of each valid length: rejected, no
// panic.
//
//vp:check K01
func AESGarbage() {
	rejected(vp.Bytes("key", keyLen("keylen")), vp.Bytes("in", vp.Choose("n", 41)))
}

// Keys of every length 0..40 that is not valid: an error from both directions, no panic.
//
//vp:check K01
func AESBadKey() {
	k := vp.Choose("keylen", 41)
	vp.Assume(k != 16 && k != 24 && k != 32)
	key := vp.Bytes("key", k)
	rand.Reader = &source{}
	ct, err := crypto.NewAES(key).Encrypt(vp.Bytes("data", vp.Choose("n", 3)))
	vp.Assert(err != nil && len(ct) == 0, "encryption under an invalid key is an error")
	pt, err := crypto.NewAES(key).Decrypt(vp.Bytes("in", vp.Choose("m", 41)))
	vp.Assert(err != nil && len(pt) == 0, "decryption under an invalid key is an error")
}

// Two or three encryptions of arbitrary data of up to 2 bytes by one object or two, arbitrary random bytes: each
// ciphertext starts with the 12 bytes drawn for it, and equal data give the same body only under the same nonce.
//
//vp:check K02
func AESNonce() {
	s := &source{}
	rand.Reader = s
	key := vp.Bytes("key", 16)
	data := vp.Bytes("data", vp.Choose("n", 3))
	one := crypto.NewAES(key)
	var cts [][]byte
	for range 3 {
		a := one
		if vp.Choose("other", 2) == 1 {
			a = crypto.NewAES(key)
		}
		before := len(s.drawn)
		ct, err := a.Encrypt(data)
		vp.Assert(err == nil, "encryption with a valid key succeeds")
		vp.Assert(len(s.drawn)-before == 12, "a full-length nonce is drawn for every encryption")
		vp.Assert(len(ct) == 28+len(data) && vp.EqBytes(ct[:12], s.drawn[before:]), "the nonce is the bytes drawn")
		for _, o := range cts {
			vp.Assert(vp.EqBytes(o[:12], ct[:12]) || !vp.EqBytes(o[12:], ct[12:]), "the nonce is used: the same body appears only under the same nonce")
		}
		cts = append(cts, ct)
	}
}
