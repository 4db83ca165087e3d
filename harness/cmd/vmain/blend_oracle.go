package main

import "math"

// The ideal blend functions, written from the W3C compositing specification
// and the definitions of the modes that Photoshop has in addition. They are
// written for real numbers in [0, 1].

type vec [3]float64

// bands is how far the arguments of a comparison may be from each other until
// the result of a discontinuous mode is regarded as certain.
type blendFn func(s, d vec, band float64) []vec

func each(f func(s, d float64) float64) blendFn {
	return func(s, d vec, band float64) []vec {
		return []vec{{f(s[0], d[0]), f(s[1], d[1]), f(s[2], d[2])}}
	}
}

func clamp01(v float64) float64 { return math.Max(0, math.Min(1, v)) }

func fBurn(s, d float64) float64 {
	switch {
	case d >= 1:
		return 1
	case s <= 0:
		return 0
	}
	return 1 - math.Min(1, (1-d)/s)
}

func fDodge(s, d float64) float64 {
	switch {
	case d <= 0:
		return 0
	case s >= 1:
		return 1
	}
	return math.Min(1, d/(1-s))
}

func fVivid(s, d float64) float64 {
	if s < 0.5 {
		if s <= 0 {
			return 0
		}
		return 1 - math.Min(1, (1-d)/(2*s))
	}
	if s >= 1 {
		return 1
	}
	return math.Min(1, d/(2*(1-s)))
}

func fHard(s, d float64) float64 {
	if s < 0.5 {
		return 2 * s * d
	}
	return 1 - 2*(1-s)*(1-d)
}

func fSoft(s, d float64) float64 {
	if s < 0.5 {
		return d - (1-2*s)*d*(1-d)
	}
	var t float64
	if d <= 0.25 {
		t = ((16*d-12)*d + 4) * d
	} else {
		t = math.Sqrt(d)
	}
	return d + (2*s-1)*(t-d)
}

func vLum(c vec) float64 { return 0.30*c[0] + 0.59*c[1] + 0.11*c[2] }
func vMin(c vec) float64 { return math.Min(c[0], math.Min(c[1], c[2])) }
func vMax(c vec) float64 { return math.Max(c[0], math.Max(c[1], c[2])) }
func vSat(c vec) float64 { return vMax(c) - vMin(c) }

func vClip(c vec) vec {
	l, n, x := vLum(c), vMin(c), vMax(c)
	if n < 0 {
		for i := range c {
			c[i] = l + (c[i]-l)*l/(l-n)
		}
	}
	if x > 1 {
		for i := range c {
			c[i] = l + (c[i]-l)*(1-l)/(x-l)
		}
	}
	for i := range c {
		c[i] = clamp01(c[i])
	}
	return c
}

func vSetLum(c vec, l float64) vec {
	d := l - vLum(c)
	for i := range c {
		c[i] += d
	}
	return vClip(c)
}

func vSetSat(c vec, s float64) vec {
	n, x := vMin(c), vMax(c)
	if x <= n {
		return vec{}
	}
	for i := range c {
		c[i] = (c[i] - n) * s / (x - n)
	}
	return c
}

// choose returns a if cond is sure, b if it is surely false, or both.
func choose(diff, band float64, a, b vec) []vec {
	switch {
	case diff > band:
		return []vec{a}
	case diff < -band:
		return []vec{b}
	}
	return []vec{a, b}
}

type blendMode struct {
	name   string
	f      blendFn
	nonsep bool
	// steps is how many integer operations may lose precision.
	steps float64
}

var blendModes = []blendMode{
	{"Normal", each(func(s, d float64) float64 { return s }), false, 0},
	{"Darken", each(math.Min), false, 0},
	{"Multiply", each(func(s, d float64) float64 { return s * d }), false, 1},
	{"ColorBurn", each(fBurn), false, 1},
	{"LinearBurn", each(func(s, d float64) float64 { return math.Max(0, s+d-1) }), false, 0},
	{"DarkerColor", func(s, d vec, band float64) []vec { return choose(vLum(d)-vLum(s), band, s, d) }, true, 0},
	{"Lighten", each(math.Max), false, 0},
	{"Screen", each(func(s, d float64) float64 { return s + d - s*d }), false, 1},
	{"ColorDodge", each(fDodge), false, 1},
	{"LinearDodge", each(func(s, d float64) float64 { return math.Min(1, s+d) }), false, 0},
	{"LighterColor", func(s, d vec, band float64) []vec { return choose(vLum(s)-vLum(d), band, s, d) }, true, 0},
	{"Add", each(func(s, d float64) float64 { return s + d }), false, 0},
	{"Overlay", each(func(s, d float64) float64 { return fHard(d, s) }), false, 2},
	{"SoftLight", each(fSoft), false, 3},
	{"HardLight", each(fHard), false, 2},
	{"LinearLight", each(func(s, d float64) float64 { return clamp01(d + 2*s - 1) }), false, 1},
	{"VividLight", each(fVivid), false, 1},
	{"PinLight", each(func(s, d float64) float64 {
		if s < 0.5 {
			return math.Min(2*s, d)
		}
		return math.Max(2*s-1, d)
	}), false, 1},
	{"HardMix", func(s, d vec, band float64) []vec {
		var lo, hi vec
		for i := range s {
			v := s[i] + d[i] - 1
			switch {
			case v > band:
				lo[i], hi[i] = 1, 1
			case v < -band:
			case d[i] >= 1 && s[i] <= 0:
				lo[i], hi[i] = 1, 1
			case d[i] <= 0 && s[i] >= 1:
			default:
				hi[i] = 1
			}
		}
		if lo == hi {
			return []vec{lo}
		}
		return []vec{lo, hi}
	}, false, 0},
	{"Difference", each(func(s, d float64) float64 { return math.Abs(s - d) }), false, 0},
	{"Exclusion", each(func(s, d float64) float64 { return s + d - 2*s*d }), false, 2},
	{"Subtract", each(func(s, d float64) float64 { return math.Max(0, d-s) }), false, 0},
	{"Divide", each(func(s, d float64) float64 {
		switch {
		case d <= 0:
			return 0
		case s <= 0:
			return 1
		}
		return math.Min(1, d/s)
	}), false, 1},
	{"Hue", func(s, d vec, band float64) []vec { return []vec{vSetLum(vSetSat(s, vSat(d)), vLum(d))} }, true, 3},
	{"Saturation", func(s, d vec, band float64) []vec { return []vec{vSetLum(vSetSat(d, vSat(s)), vLum(d))} }, true, 3},
	{"Color", func(s, d vec, band float64) []vec { return []vec{vSetLum(s, vLum(d))} }, true, 3},
	{"Luminosity", func(s, d vec, band float64) []vec { return []vec{vSetLum(d, vLum(s))} }, true, 3},
}

// blendRange returns the range of the ideal function when the arguments have
// the errors.
func blendRange(m *blendMode, s, d vec, sErr, dErr, band float64) (lo, hi vec) {
	lo, hi = vec{9, 9, 9}, vec{-9, -9, -9}
	merge := func(r []vec) {
		for _, v := range r {
			for i := range v {
				lo[i], hi[i] = math.Min(lo[i], v[i]), math.Max(hi[i], v[i])
			}
		}
	}
	merge(m.f(s, d, band))
	if sErr == 0 && dErr == 0 {
		return
	}
	shift := func(v, e float64) float64 {
		// An unpremultiplied zero and one are exact.
		if v <= 0 || v >= 1 {
			return v
		}
		return clamp01(v + e)
	}
	if !m.nonsep {
		for i := 0; i < 4; i++ {
			s2, d2 := s, d
			for k := range s {
				s2[k] = shift(s[k], sErr*float64(i&1*2-1))
				d2[k] = shift(d[k], dErr*float64(i>>1*2-1))
			}
			merge(m.f(s2, d2, band))
		}
		return
	}
	for i := 0; i < 64; i++ {
		s2, d2 := s, d
		for k := range s {
			s2[k] = shift(s[k], sErr*float64(i>>uint(k)&1*2-1))
			d2[k] = shift(d[k], dErr*float64(i>>uint(3+k)&1*2-1))
		}
		merge(m.f(s2, d2, band))
	}
	return
}
