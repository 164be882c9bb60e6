package pure

import (
	"crypto/md5"

	"github.com/axgrid/axutils/comparer"
	"github.com/axgrid/axutils/crypto"
	"vpharness/vp"
)

type elA struct {
	id  uint64
	tag int
}

func (e elA) GetId() uint64 { return e.id }

type elB struct {
	pad string
	id  uint64
	tag int
}

func (e *elB) GetId() uint64 { return e.id }

// Slices of 0..3 elements with arbitrary (possibly equal) identifiers, two different element types.
//
//vp:check D01
func Compare() { compare(4, 4) }

// One slice of up to 4, the other of up to 4 elements.
//
//vp:check D01 thorough
func CompareLong() { compare(5, 5) }

func compare(n, m int) {
	var cur []elA
	var mod []*elB
	for i := range vp.Choose("n", n) {
		cur = append(cur, elA{vp.Uint64("c"), i})
	}
	for i := range vp.Choose("m", m) {
		mod = append(mod, &elB{"", vp.Uint64("m"), i})
	}
	cur0 := append([]elA(nil), cur...)
	mod0 := append([]*elB(nil), mod...)
	ids := make([]uint64, len(mod))
	for i := range mod {
		ids[i] = mod[i].id
	}
	del, create, keep := comparer.CompareSlice(cur, mod)
	d, c, k := 0, 0, 0
	for i, x := range cur0 {
		in := false
		for _, id := range ids {
			in = vp.Or(in, id == x.id)
		}
		if in {
			vp.Assert(k < len(keep) && keep[k].tag == i && keep[k].id == x.id, "kept elements are those in both, in input order")
			k++
		} else {
			vp.Assert(d < len(del) && del[d].tag == i && del[d].id == x.id, "deleted elements are those missing from the modified slice, in input order")
			d++
		}
	}
	for i := range mod0 {
		in := false
		for _, y := range cur0 {
			in = vp.Or(in, ids[i] == y.id)
		}
		if !in {
			vp.Assert(c < len(create) && create[c] == mod0[i], "created elements are those missing from the current slice, in input order")
			c++
		}
	}
	vp.Assert(d == len(del) && c == len(create) && k == len(keep), "nothing else is reported")
	for i := range cur {
		vp.Assert(cur[i] == cur0[i], "the current slice is unchanged")
	}
	for i := range mod {
		vp.Assert(mod[i] == mod0[i] && mod[i].id == ids[i], "the modified slice is unchanged")
	}
	vp.ObserveInt("deleted", len(del))
	vp.ObserveInt("created", len(create))
}

// Texts of 0..5 arbitrary bytes (MD5 itself is idealised as an injective function on symbolic texts), and some
// concrete texts around the MD5 block size with the real MD5.
//
//vp:check K03
func MD5() {
	var text string
	if n := vp.Choose("n", 12); n < 6 {
		text = vp.String("t", n)
	} else {
		l := []int{55, 56, 63, 64, 65, 200}[n-6]
		b := make([]byte, l)
		for i := range b {
			b[i] = byte(7*i + l)
		}
		text = string(b)
	}
	want := md5.Sum([]byte(text))
	got := crypto.GetMD5HashBytes(text)
	vp.Assert(len(got) == 16, "digest has 16 bytes")
	vp.Assert(vp.EqBytes(got, want[:]), "the byte helper returns the MD5 digest of the text")
	s := crypto.GetMD5Hash(text)
	vp.Assert(len(s) == 32, "hexadecimal form has 32 characters")
	hex := make([]byte, 0, 32)
	for _, b := range want {
		hex = append(hex, hexd(b>>4), hexd(b&15))
	}
	vp.Assert(vp.EqBytes([]byte(s), hex), "the string helper returns the lower-case hexadecimal digest")
	vp.Assert(crypto.GetMD5Hash(string([]byte(text))) == s, "equal texts give equal results")
	got[0]++
	vp.Assert(vp.EqBytes(crypto.GetMD5HashBytes(text), want[:]), "the result does not alias internal state")
}

func hexd(b byte) byte {
	return byte(vp.Ite(b < 10, int('0'+b), int('a'+b-10)))
}
