package main

import (
	"fmt"
	"image"
	stdcolor "image/color"
	"math/rand"

	"verif/vk"
)

// A sheet is a drawing of 256x256 pixels which has all the pairs of two 8-bit quantities.
// The pairs meet in a random order, the other quantities are random.

var sheetKinds = []string{
	"destination color x source color, opaque",
	"destination color x source color, translucent",
	"destination alpha x source alpha",
	"source alpha x source color",
	"destination alpha x destination color",
	"source alpha x opacity",
	"destination alpha x opacity",
	"source color x opacity",
}

var fastPairs = [][2]string{{"NRGBA", "NRGBA"}, {"NRGBA", "RGBA"}, {"RGBA", "NRGBA"}, {"RGBA", "RGBA"}}

func newSheet(kind string, b image.Rectangle, f func(x, y int) stdcolor.NRGBA) *pic {
	p := &pic{kind: kind}
	w := b.Dx()
	var pix []byte
	switch kind {
	case "RGBA", "hidden RGBA":
		i := image.NewRGBA(b)
		p.base, pix = i, i.Pix
	case "Alpha":
		i := image.NewAlpha(b)
		p.base = i
		for n := range i.Pix {
			i.Pix[n] = f(n%w, n/w).A
		}
	default:
		i := image.NewNRGBA(b)
		p.base, pix = i, i.Pix
	}
	premul := kind == "RGBA" || kind == "hidden RGBA"
	for n := 0; n+3 < len(pix); n += 4 {
		v := f(n/4%w, n/4/w)
		if premul {
			// The components are stored as they are, unless they are not valid.
			v.R, v.G, v.B = min8(v.R, v.A), min8(v.G, v.A), min8(v.B, v.A)
		}
		pix[n], pix[n+1], pix[n+2], pix[n+3] = v.R, v.G, v.B, v.A
	}
	p.img = p.base
	if len(kind) > 6 && kind[:6] == "hidden" {
		p.img = &hidden{p.base.(interface {
			image.Image
			Set(x, y int, c stdcolor.Color)
		})}
	}
	return p
}

func min8(a, b byte) byte {
	if a < b {
		return a
	}
	return b
}

// sheetOf makes the images. Sheets of opacity must be drawn row by row with opacity[y].
func sheetOf(r *rand.Rand, kind int, dk, sk string) (dst, src *pic, opacity []int) {
	var px, py [3][]int
	for i := range px {
		px[i], py[i] = r.Perm(256), r.Perm(256)
	}
	const opaque = 255
	anyColor := func(alpha func(x, y int) byte) func(x, y int) stdcolor.NRGBA {
		return func(x, y int) stdcolor.NRGBA {
			a := alpha(x, y)
			v := stdcolor.NRGBA{rnd8(r), rnd8(r), rnd8(r), a}
			if r.Intn(2) == 0 && a > 0 {
				// Premultiplied pixels of all the colors.
				v.R, v.G, v.B = byte(r.Intn(int(a)+1)), byte(r.Intn(int(a)+1)), byte(r.Intn(int(a)+1))
			}
			return v
		}
	}
	anyAlpha := func(x, y int) byte { return rndAlpha8(r) }
	alphaX := func(x, y int) byte { return byte(x) }
	alphaY := func(x, y int) byte { return byte(y) }
	colorX := func(a func(x, y int) byte) func(x, y int) stdcolor.NRGBA {
		return func(x, y int) stdcolor.NRGBA {
			return stdcolor.NRGBA{byte(px[0][x]), byte(px[1][x]), byte(px[2][x]), a(x, y)}
		}
	}
	colorY := func(a func(x, y int) byte) func(x, y int) stdcolor.NRGBA {
		return func(x, y int) stdcolor.NRGBA {
			return stdcolor.NRGBA{byte(py[0][y]), byte(py[1][y]), byte(py[2][y]), a(x, y)}
		}
	}
	one := func(x, y int) byte { return opaque }
	high := func(x, y int) byte {
		// The alphas that are large enough for most of premultiplied colors.
		return byte(128 + r.Intn(128))
	}
	b := image.Rect(0, 0, 256, 256)
	b = b.Add(image.Pt(r.Intn(100)-50, r.Intn(100)-50))
	b2 := image.Rect(0, 0, 256, 256).Add(image.Pt(r.Intn(100)-50, r.Intn(100)-50))
	var fd, fs func(x, y int) stdcolor.NRGBA
	switch kind {
	case 0:
		fd, fs = colorX(one), colorY(one)
	case 1:
		fd, fs = colorX(high), colorY(high)
	case 2:
		fd, fs = anyColor(alphaX), anyColor(alphaY)
	case 3:
		fd, fs = anyColor(anyAlpha), colorY(alphaX)
	case 4:
		fd, fs = colorY(alphaX), anyColor(anyAlpha)
	case 5:
		fd, fs, opacity = anyColor(anyAlpha), anyColor(alphaX), py[0]
	case 6:
		fd, fs, opacity = anyColor(alphaX), anyColor(anyAlpha), py[0]
	case 7:
		fd, fs, opacity = anyColor(anyAlpha), colorX(one), py[0]
	}
	return newSheet(dk, b, fd), newSheet(sk, b2, fs), opacity
}

const (
	// The numbers of sheets of a mode and of an operator.
	blendSheets = 8*4 + 8
	pdSheets    = 5*8 + 5
	// The others of cases of a mode or an operator are random drawings.
	sheetEvery   = 87
	pdSheetEvery = 266
)

func caseBlendSheet(c *vk.Ctx, m *blendMode, n int) {
	kind := n % 8
	pair := [2]string{}
	if n < 8*4 {
		pair = fastPairs[n/8]
	} else {
		// The general functions.
		pair = [2]string{pick(c.Rng, "hidden NRGBA", "hidden RGBA", "NRGBA", "RGBA"), pick(c.Rng, "hidden NRGBA", "hidden RGBA")}
	}
	dst, src, opacity := sheetOf(c.Rng, kind, pair[0], pair[1])
	before := dst.clone()
	d := blendDrawers[m.name]
	b, sb := dst.img.Bounds(), src.img.Bounds()
	c.Distinct(m.name, fmt.Sprint(kind, pair), before.bytes(), src.bytes())
	c.Count("sheet of "+sheetKinds[kind], 1)
	if opacity == nil {
		s := &scene{dst: dst, src: src, r: b, sp: sb.Min}
		d.Draw(dst.dst(), s.r, src.img, s.sp)
		checkBlend(c, m, s, before)
		return
	}
	for y := 0; y < 256; y++ {
		u := image.NewUniform(stdcolor.Alpha{byte(opacity[y])})
		s := &scene{dst: dst, src: src, r: image.Rect(b.Min.X, b.Min.Y+y, b.Max.X, b.Min.Y+y+1), sp: sb.Min.Add(image.Pt(0, y))}
		s.mask = &pic{kind: "Uniform", img: u, base: u}
		d.DrawMask(dst.dst(), s.r, src.img, s.sp, u, image.Point{})
		checkBlend(c, m, s, before)
		if c.Failed() {
			return
		}
	}
}

func casePorterDuffSheet(c *vk.Ctx, op, n int) {
	kind := n % 5
	var dk, sk string
	if n < 5*8 {
		dk = []string{"NRGBA", "RGBA"}[n/5&1]
		sk = []string{"NRGBA", "RGBA", "Alpha", "Uniform"}[n/5>>1]
	} else {
		dk, sk = pick(c.Rng, "hidden NRGBA", "hidden RGBA", "NRGBA", "RGBA"), pick(c.Rng, "hidden NRGBA", "hidden RGBA")
	}
	uniform := sk == "Uniform"
	k := sk
	if uniform {
		k = "NRGBA"
	}
	dst, src, _ := sheetOf(c.Rng, kind, dk, k)
	before := dst.clone()
	p := &porterDuff[op]
	b, sb := dst.img.Bounds(), src.img.Bounds()
	c.Distinct(p.name, fmt.Sprint(kind, dk, sk), before.bytes(), src.bytes())
	c.Count("sheet of "+sheetKinds[kind], 1)
	if !uniform {
		s := &scene{dst: dst, src: src, r: b, sp: sb.Min}
		p.d.Draw(dst.dst(), s.r, src.img, s.sp)
		checkPorterDuff(c, op, s, before)
		return
	}
	for y := 0; y < 256; y++ {
		// A color for each of the rows.
		u := image.NewUniform(src.img.At(sb.Min.X+c.Rng.Intn(256), sb.Min.Y+y))
		s := &scene{dst: dst, src: &pic{kind: "Uniform", img: u, base: u}, r: image.Rect(b.Min.X, b.Min.Y+y, b.Max.X, b.Min.Y+y+1)}
		p.d.Draw(dst.dst(), s.r, u, image.Point{})
		checkPorterDuff(c, op, s, before)
		if c.Failed() {
			return
		}
	}
}
