package model

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rand"
	"errors"
	"hash"
	"io"
	mrand "math/rand"

	"vpharness/vp"
)

// AES-GCM is idealised: sealing yields fresh bytes that are remembered, and only what was sealed under the same
// key, nonce and additional data opens. Tags do not collide.

//vp:model crypto/rand.Read
func RandRead(b []byte) (int, error) { return io.ReadFull(rand.Reader, b) }

//vp:model math/rand.Read
func MathRandRead(b []byte) (int, error) { return copy(b, vp.Fresh("mathrand", len(b))), nil }

//vp:model (*math/rand.Rand).Read
func MathRandRandRead(r *mrand.Rand, b []byte) (int, error) { return MathRandRead(b) }

type aesBlock struct{ key []byte }

func (b *aesBlock) BlockSize() int          { return 16 }
func (b *aesBlock) Encrypt(dst, src []byte) { panic("model: raw AES block") }
func (b *aesBlock) Decrypt(dst, src []byte) { panic("model: raw AES block") }

//vp:model crypto/aes.NewCipher
func AESNewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16, 24, 32:
		return &aesBlock{append([]byte(nil), key...)}, nil
	}
	return nil, aes.KeySizeError(len(key))
}

type sealed struct{ key, nonce, plain, ad, ct []byte }

var allSealed []sealed

type gcm struct {
	key        []byte
	nonce, tag int
}

//vp:model crypto/cipher.NewGCM
func NewGCM(b cipher.Block) (cipher.AEAD, error) { return &gcm{b.(*aesBlock).key, 12, 16}, nil }

//vp:model crypto/cipher.NewGCMWithNonceSize
func NewGCMWithNonceSize(b cipher.Block, n int) (cipher.AEAD, error) {
	if n <= 0 {
		return nil, errors.New("cipher: the nonce can't have zero length")
	}
	return &gcm{b.(*aesBlock).key, n, 16}, nil
}

//vp:model crypto/cipher.NewGCMWithTagSize
func NewGCMWithTagSize(b cipher.Block, n int) (cipher.AEAD, error) {
	if n < 12 || n > 16 {
		return nil, errors.New("cipher: incorrect tag size given to GCM")
	}
	return &gcm{b.(*aesBlock).key, 12, n}, nil
}

func (g *gcm) NonceSize() int { return g.nonce }
func (g *gcm) Overhead() int  { return g.tag }

func (g *gcm) Seal(dst, nonce, plain, ad []byte) []byte {
	if len(nonce) != g.nonce {
		panic("crypto/cipher: incorrect nonce length given to GCM")
	}
	for _, s := range allSealed {
		if len(s.ct) == len(plain)+g.tag && vp.EqBytes(s.key, g.key) && vp.EqBytes(s.nonce, nonce) && vp.EqBytes(s.plain, plain) && vp.EqBytes(s.ad, ad) {
			return append(dst, s.ct...)
		}
	}
	ct := vp.Fresh("sealed", len(plain)+g.tag)
	for _, s := range allSealed {
		vp.Assume(!vp.EqBytes(s.ct[len(s.ct)-12:], ct[len(ct)-12:]))
	}
	s := sealed{append([]byte(nil), g.key...), append([]byte(nil), nonce...), append([]byte(nil), plain...), append([]byte(nil), ad...), ct}
	allSealed = append(allSealed, s)
	return append(dst, ct...)
}

var errOpen = errors.New("cipher: message authentication failed")

func (g *gcm) Open(dst, nonce, ct, ad []byte) ([]byte, error) {
	if len(nonce) != g.nonce {
		panic("crypto/cipher: incorrect nonce length given to GCM")
	}
	for _, s := range allSealed {
		if vp.And(vp.EqBytes(s.ct, ct), vp.EqBytes(s.key, g.key), vp.EqBytes(s.nonce, nonce), vp.EqBytes(s.ad, ad)) {
			return append(dst, s.plain...), nil
		}
	}
	return nil, errOpen
}

type md5Hash struct{ b []byte }

func (h *md5Hash) Write(p []byte) (int, error) { h.b = append(h.b, p...); return len(p), nil }
func (h *md5Hash) Sum(b []byte) []byte {
	s := md5.Sum(h.b)
	return append(b, s[:]...)
}
func (h *md5Hash) Reset()         { h.b = nil }
func (h *md5Hash) Size() int      { return md5.Size }
func (h *md5Hash) BlockSize() int { return md5.BlockSize }

//vp:model crypto/md5.New
func MD5New() hash.Hash { return &md5Hash{} }
