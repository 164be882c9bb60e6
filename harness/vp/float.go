package vp

import "math"

func f64(u uint64) float64 { return math.Float64frombits(u) }
func f32(u uint32) float32 { return math.Float32frombits(u) }
