package model

import (
	"encoding/gob"
	"errors"
	"io"

	"vpharness/vp"
)

// A gob stream is modelled as messages, each a length and an injective function of the exported content (true of
// encoding/gob for values of one type, up to the identification of nil pointers and zero values, and of empty and
// nil slices).

//vp:model encoding/gob.NewEncoder
func GobNewEncoder(w io.Writer) *gob.Encoder {
	e := new(gob.Encoder)
	vp.SetField(e, "w", []io.Writer{w})
	return e
}

func le32(n int) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }

//vp:model (*encoding/gob.Encoder).Encode
func GobEncode(e *gob.Encoder, v any) error {
	if v == nil {
		return errors.New("gob: cannot encode nil")
	}
	b := vp.Serialize(v)
	_, err := vp.GetField(e, "w").([]io.Writer)[0].Write(append(le32(len(b)), b...))
	return err
}

//vp:model encoding/gob.NewDecoder
func GobNewDecoder(r io.Reader) *gob.Decoder {
	d := new(gob.Decoder)
	vp.SetField(d, "r", r)
	return d
}

//vp:model (*encoding/gob.Decoder).Decode
func GobDecode(d *gob.Decoder, v any) error {
	r := vp.GetField(d, "r").(io.Reader)
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return err
	}
	n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16 | int(h[3])<<24
	if n > 1<<16 {
		return errors.New("gob: bad data")
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return err
	}
	if !vp.Deserialize(b, v) {
		return errors.New("gob: bad data")
	}
	return nil
}
