package pure

import (
	"github.com/axgrid/axutils/math"
	"vpharness/vp"
)

type ord interface {
	~int | ~int64 | ~int32 | ~int16 | ~int8 | ~uint | ~uint64 | ~uint32 | ~uint16 | ~uint8 | ~float32 | ~float64
}

func minmax[T ord](a, b, lo, hi T) {
	vp.Assert(vp.Or(lo == a, lo == b), "the minimum is one of the arguments")
	vp.Assert(vp.And(lo <= a, lo <= b), "the minimum is not greater than either argument")
	vp.Assert(vp.Or(hi == a, hi == b), "the maximum is one of the arguments")
	vp.Assert(vp.And(hi >= a, hi >= b), "the maximum is not smaller than either argument")
}

// Every pair of values of each of the ten integer types.
//
//vp:check A01
func MinMaxInt() {
	minmax(one(vp.Int("a"), vp.Int("b"), math.Min, math.Max))
	minmax(one(vp.Int64("a"), vp.Int64("b"), math.Min64, math.Max64))
	minmax(one(vp.Int32("a"), vp.Int32("b"), math.Min32, math.Max32))
	minmax(one(vp.Int16("a"), vp.Int16("b"), math.Min16, math.Max16))
	minmax(one(vp.Int8("a"), vp.Int8("b"), math.Min8, math.Max8))
}

// Every pair of values of each of the five unsigned types.
//
//vp:check A01
func MinMaxUint() {
	minmax(one(vp.Uint("a"), vp.Uint("b"), math.MinUInt, math.MaxUInt))
	minmax(one(vp.Uint64("a"), vp.Uint64("b"), math.MinUInt64, math.MaxUInt64))
	minmax(one(vp.Uint32("a"), vp.Uint32("b"), math.MinUInt32, math.MaxUInt32))
	minmax(one(vp.Uint16("a"), vp.Uint16("b"), math.MinUInt16, math.MaxUInt16))
	minmax(one(uint8(vp.Byte("a")), uint8(vp.Byte("b")), math.MinUInt8, math.MaxUInt8))
}

func one[T any](a, b T, lo, hi func(T, T) T) (T, T, T, T) { return a, b, lo(a, b), hi(a, b) }

// Every pair of float64 and of float32 values without NaN, including infinities and both zeros.
//
//vp:check A01
func MinMaxFloat() {
	a, b := vp.Float64("a"), vp.Float64("b")
	vp.Assume(vp.And(a == a, b == b))
	minmax(one(a, b, math.MinFloat64, math.MaxFloat64))
	c, d := vp.Float32("c"), vp.Float32("d")
	vp.Assume(vp.And(c == c, d == d))
	minmax(one(c, d, math.MinFloat32, math.MaxFloat32))
}

func pow10(n int) int {
	p := 1
	for range n {
		p *= 10
	}
	return p
}

// Every int, shifts 0..25 upwards.
//
//vp:check A02
func ShiftUp() {
	v := vp.Int("v")
	n := vp.Choose("n", 26)
	r := math.IntPointMove(v, n)
	vp.Assert(r == v*pow10(n), "shifting up multiplies by 10^n modulo the word size")
	vp.ObserveInt("r", r)
}

// Every int, shifts 1..25 downwards.
//
//vp:check A02
func ShiftDown() {
	v := vp.Int("v")
	n := 1 + vp.Choose("n", 25)
	r := math.IntPointMove(v, -n)
	if n <= 18 {
		vp.Assert(r == v/pow10(n), "shifting down divides by 10^n, truncating towards zero")
	} else {
		vp.Assert(r == 0, "shifting down by more digits than an int has gives zero")
	}
	vp.ObserveInt("r", r)
}

// Every int whose upward shift by n (0..18) does not overflow.
//
//vp:check A02
func ShiftBack() {
	v := vp.Int("v")
	n := vp.Choose("n", 19)
	lim := (1<<63 - 1) / pow10(n)
	vp.Assume(vp.And(v <= lim, v >= -lim))
	vp.Assert(math.IntPointMove(math.IntPointMove(v, n), -n) == v, "shifting up and back returns the original")
}
