//go:build go1.21

package main

import (
	"math"

	"github.com/DataDog/sketches-go/ddsketch"
)

// sketchOf reports the number of values in a sketch and its quantiles, scaled
func sketchOf(s *distributionSketch, scale float64, q []float64) (int, []int64) {
	if s == nil {
		return 0, []int64{}
	}
	d := find[*ddsketch.DDSketch](s, "sketch")
	if d == nil {
		return -1, []int64{}
	}
	n := int((*d).GetCount())
	res := []int64{}
	if n == 0 {
		return 0, res
	}
	for _, v := range s.getQuantiles(q) {
		v = math.Round(v * scale)
		if math.IsNaN(v) || v > 2e9 || v < -2e9 {
			v = -2e9
		}
		res = append(res, int64(v))
	}
	return n, res
}
