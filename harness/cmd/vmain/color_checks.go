package main

import (
	"fmt"
	stdcolor "image/color"
	"math"
	"math/rand"
	"reflect"

	"github.com/oov/psd/color"

	"verif/vk"
)

var colorModels = []struct {
	name string
	m    stdcolor.Model
	typ  stdcolor.Color
	gray bool
	// alpha is how many bits the alpha has.
	alpha int
	// tol is how far components may be from the source, in 1/65535.
	tol float64
}{
	{"Gray1", color.Gray1Model, color.Gray1{}, true, 0, 0},
	{"Gray32", color.Gray32Model, color.Gray32{}, true, 0, 3},
	{"NGrayA", color.NGrayAModel, color.NGrayA{}, true, 8, 258},
	{"NGrayA32", color.NGrayA32Model, color.NGrayA32{}, true, 16, 4},
	{"NGrayA64", color.NGrayA64Model, color.NGrayA64{}, true, 16, 5},
	{"NRGBA128", color.NRGBA128Model, color.NRGBA128{}, false, 16, 5},
	{"NCMYKA", color.NCMYKAModel, color.NCMYKA{}, false, 8, 3 * 258},
	{"NCMYKA80", color.NCMYKA80Model, color.NCMYKA80{}, false, 16, 6},
}

func rndFloat(r *rand.Rand) float32 {
	switch r.Intn(10) {
	case 0:
		return []float32{0, 1, -1, float32(math.Copysign(0, -1)), 2, 0.5, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 0.99999994, 1.0000001}[r.Intn(14)]
	case 1:
		return math.Float32frombits(r.Uint32())
	case 2:
		return float32(r.NormFloat64() * 10)
	case 3:
		return float32(r.Intn(256)) / 255
	}
	return r.Float32()
}

// own returns a random color of the package and the ideal non-premultiplied
// components and alpha.
func ownColor(r *rand.Rand) (c stdcolor.Color, ideal vec, alpha float64) {
	g := func(f float32) float64 {
		if !(f > 0) {
			return 0
		}
		return math.Pow(math.Min(1, float64(f)), 1/2.2)
	}
	al := func(f float32) float64 {
		if !(f > 0) {
			return 0
		}
		return math.Min(1, float64(f))
	}
	f8 := func(v uint8) float64 { return float64(v) / 255 }
	f16 := func(v uint16) float64 { return float64(v) / 65535 }
	switch r.Intn(8) {
	case 0:
		b := r.Intn(2) == 0
		if b {
			return color.Gray1{Y: true}, vec{1, 1, 1}, 1
		}
		return color.Gray1{}, vec{}, 1
	case 1:
		v := rndFloat(r)
		return color.Gray32{Y: v}, vec{g(v), g(v), g(v)}, 1
	case 2:
		y, a := rnd8(r), rndAlpha8(r)
		return color.NGrayA{Y: y, A: a}, vec{f8(y), f8(y), f8(y)}, f8(a)
	case 3:
		y, a := rnd16(r), rndAlpha16(r)
		return color.NGrayA32{Y: y, A: a}, vec{f16(y), f16(y), f16(y)}, f16(a)
	case 4:
		v, a := rndFloat(r), rndFloat(r)
		return color.NGrayA64{Y: v, A: a}, vec{g(v), g(v), g(v)}, al(a)
	case 5:
		v := color.NRGBA128{R: rndFloat(r), G: rndFloat(r), B: rndFloat(r), A: rndFloat(r)}
		return v, vec{g(v.R), g(v.G), g(v.B)}, al(v.A)
	case 6:
		v := color.NCMYKA{C: rnd8(r), M: rnd8(r), Y: rnd8(r), K: rnd8(r), A: rndAlpha8(r)}
		k := f8(v.K)
		return v, vec{f8(v.C) * k, f8(v.M) * k, f8(v.Y) * k}, f8(v.A)
	}
	v := color.NCMYKA80{C: rnd16(r), M: rnd16(r), Y: rnd16(r), K: rnd16(r), A: rndAlpha16(r)}
	k := f16(v.K)
	return v, vec{f16(v.C) * k, f16(v.M) * k, f16(v.Y) * k}, f16(v.A)
}

// caseColorRGBA decides what colors of the package mean.
func caseColorRGBA(c *vk.Ctx) {
	for n := 0; n < 200; n++ {
		v, ideal, alpha := ownColor(c.Rng)
		r, g, b, a := v.RGBA()
		c.Eval(1)
		c.Distinct(fmt.Sprintf("%T%v", v, v))
		c.Count(fmt.Sprintf("%T", v), 1)
		if n == 0 {
			c.Sample("%T %v", v, v)
		}
		if a > 0xffff || r > a || g > a || b > a {
			c.Fail("invalid", "%T %v: RGBA %#x %#x %#x %#x is not a valid premultiplied color", v, v, r, g, b, a)
			return
		}
		if d := math.Abs(float64(a) - alpha*65535); d > 1.1 {
			c.Fail("alpha", "%T %v: alpha is %#x, want %v", v, v, a, alpha*65535)
			return
		}
		for i, o := range []uint32{r, g, b} {
			if w := ideal[i] * alpha * 65535; math.Abs(float64(o)-w) > 3.1 {
				c.Fail("component", "%T %v: component %d is %#x, want %v", v, v, i, o, w)
				return
			}
		}
	}
}

// anyColor returns a valid color of the standard library or of the package.
func anyColor(r *rand.Rand) stdcolor.Color {
	switch r.Intn(12) {
	case 0:
		return stdcolor.Gray{Y: rnd8(r)}
	case 1:
		return stdcolor.Gray16{Y: rnd16(r)}
	case 2:
		return stdcolor.Alpha{A: rndAlpha8(r)}
	case 3:
		return stdcolor.Alpha16{A: rndAlpha16(r)}
	case 4:
		return stdcolor.CMYK{C: rnd8(r), M: rnd8(r), Y: rnd8(r), K: rnd8(r)}
	case 5:
		return stdcolor.NYCbCrA{YCbCr: stdcolor.YCbCr{Y: rnd8(r), Cb: rnd8(r), Cr: rnd8(r)}, A: rndAlpha8(r)}
	case 6, 7:
		return stdcolor.NRGBA{R: rnd8(r), G: rnd8(r), B: rnd8(r), A: rndAlpha8(r)}
	case 8:
		return stdcolor.NRGBA64{R: rnd16(r), G: rnd16(r), B: rnd16(r), A: rndAlpha16(r)}
	case 9:
		a := rndAlpha16(r)
		f := func() uint16 { return uint16(r.Intn(int(a) + 1)) }
		return stdcolor.RGBA64{R: f(), G: f(), B: f(), A: a}
	}
	v, _, _ := ownColor(r)
	return v
}

func sameBits(a, b stdcolor.Color) bool {
	// NaN is equal to itself here.
	return reflect.TypeOf(a) == reflect.TypeOf(b) && fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b)
}

// caseColorModel decides that models convert to their own type, keep what is
// already of the type, and keep the color as far as the type can represent.
func caseColorModel(c *vk.Ctx) {
	for n := 0; n < 60; n++ {
		v := anyColor(c.Rng)
		r, g, b, a := v.RGBA()
		for i := range colorModels {
			m := &colorModels[i]
			o := m.m.Convert(v)
			c.Eval(1)
			c.Distinct(m.name, fmt.Sprintf("%T%v", v, v))
			if reflect.TypeOf(o) != reflect.TypeOf(m.typ) {
				c.Fail("type", "%s: %T %v is converted to %T", m.name, v, v, o)
				return
			}
			if reflect.TypeOf(v) == reflect.TypeOf(m.typ) {
				c.Count("own type", 1)
				if !sameBits(v, o) {
					c.Fail("identity", "%s: %#v became %#v", m.name, v, o)
					return
				}
			}
			if o2 := m.m.Convert(o); !sameBits(o, o2) {
				c.Fail("idempotent", "%s: %#v became %#v", m.name, o, o2)
				return
			}
			or, og, ob, oa := o.RGBA()
			if oa > 0xffff || or > oa || og > oa || ob > oa {
				c.Fail("invalid", "%s: %T %v: RGBA %#x %#x %#x %#x is not a valid premultiplied color", m.name, v, v, or, og, ob, oa)
				return
			}
			c.Count("conversions", 1)
			fail := func(what string, want interface{}) {
				c.Fail(what, "%s: %T %v (%#x %#x %#x %#x) became %v (%#x %#x %#x %#x), want %v", m.name, v, v, r, g, b, a, o, or, og, ob, oa, want)
			}
			// The ideal.
			w := vec{float64(r), float64(g), float64(b)}
			if m.gray {
				y := 0.299*w[0] + 0.587*w[1] + 0.114*w[2]
				w = vec{y, y, y}
			}
			got := vec{float64(or), float64(og), float64(ob)}
			if m.name == "Gray1" {
				if math.Abs(w[0]-0x8000) < 2 {
					continue
				}
				y := 0.0
				if w[0] >= 0x8000 {
					y = 65535
				}
				if got != (vec{y, y, y}) || oa != 0xffff {
					fail("gray1", y)
					return
				}
				continue
			}
			switch {
			case m.alpha == 0:
				if oa != 0xffff {
					fail("alpha", "opaque")
					return
				}
			case a == 0 || a == 0xffff:
				if oa != a {
					fail("alpha", a)
					return
				}
			case m.alpha == 8:
				if math.Abs(float64(oa)-float64(a)) > 257 {
					fail("alpha", a)
					return
				}
			default:
				if math.Abs(float64(oa)-float64(a)) > 1.1 {
					fail("alpha", a)
					return
				}
			}
			for k := range w {
				// The non-premultiplied component has the error of tol and
				// is multiplied by the alpha, that has an error too.
				tol := m.tol + math.Abs(float64(oa)-float64(a))
				if m.alpha == 0 {
					tol = m.tol
				}
				if math.Abs(got[k]-w[k]) > tol {
					fail("component", w)
					return
				}
			}
		}
		if n == 0 {
			c.Sample("%T %v", v, v)
		}
	}
}
