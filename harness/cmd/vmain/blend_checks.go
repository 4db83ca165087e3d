package main

import (
	"bytes"
	"fmt"
	"image"
	stdcolor "image/color"
	"image/draw"
	"math"
	"math/rand"
	"runtime"
	"sync"

	"github.com/oov/psd/blend"

	"verif/vk"
)

var blendDrawers = map[string]blend.Drawer{
	"Normal": blend.Normal, "Darken": blend.Darken, "Multiply": blend.Multiply, "ColorBurn": blend.ColorBurn,
	"LinearBurn": blend.LinearBurn, "DarkerColor": blend.DarkerColor, "Lighten": blend.Lighten, "Screen": blend.Screen,
	"ColorDodge": blend.ColorDodge, "LinearDodge": blend.LinearDodge, "LighterColor": blend.LighterColor, "Add": blend.Add,
	"Overlay": blend.Overlay, "SoftLight": blend.SoftLight, "HardLight": blend.HardLight, "LinearLight": blend.LinearLight,
	"VividLight": blend.VividLight, "PinLight": blend.PinLight, "HardMix": blend.HardMix, "Difference": blend.Difference,
	"Exclusion": blend.Exclusion, "Subtract": blend.Subtract, "Divide": blend.Divide, "Hue": blend.Hue,
	"Saturation": blend.Saturation, "Color": blend.Color, "Luminosity": blend.Luminosity,
}

var porterDuff = []struct {
	name string
	d    draw.Drawer
	// Fa and Fb of the W3C specification.
	f func(sa, da float64) (fa, fb float64)
}{
	{"Clear", blend.Clear, func(sa, da float64) (float64, float64) { return 0, 0 }},
	{"Copy", blend.Copy, func(sa, da float64) (float64, float64) { return 1, 0 }},
	{"Dest", blend.Dest, func(sa, da float64) (float64, float64) { return 0, 1 }},
	{"SrcOver", blend.SrcOver, func(sa, da float64) (float64, float64) { return 1, 1 - sa }},
	{"DestOver", blend.DestOver, func(sa, da float64) (float64, float64) { return 1 - da, 1 }},
	{"SrcIn", blend.SrcIn, func(sa, da float64) (float64, float64) { return da, 0 }},
	{"DestIn", blend.DestIn, func(sa, da float64) (float64, float64) { return 0, sa }},
	{"SrcOut", blend.SrcOut, func(sa, da float64) (float64, float64) { return 1 - da, 0 }},
	{"DestOut", blend.DestOut, func(sa, da float64) (float64, float64) { return 0, 1 - sa }},
	{"SrcAtop", blend.SrcAtop, func(sa, da float64) (float64, float64) { return da, 1 - sa }},
	{"DestAtop", blend.DestAtop, func(sa, da float64) (float64, float64) { return 1 - da, sa }},
	{"XOR", blend.XOR, func(sa, da float64) (float64, float64) { return 1 - da, 1 - sa }},
}

var (
	dstKinds  = []string{"NRGBA", "RGBA", "NRGBA", "RGBA", "hidden NRGBA", "hidden RGBA", "RGBA64", "NRGBA64"}
	srcKinds  = []string{"NRGBA", "RGBA", "NRGBA", "RGBA", "hidden NRGBA", "hidden RGBA", "RGBA64", "NRGBA64", "Gray", "Gray16", "Paletted", "CMYK", "YCbCr", "Uniform"}
	maskKinds = []string{"", "", "Uniform", "Alpha", "Alpha16", "NRGBA", "RGBA", "Paletted"}
)

// scene is a call of DrawMask.
type scene struct {
	dst, src, mask *pic
	r              image.Rectangle
	sp, mp         image.Point
}

func (s *scene) String() string {
	m := "nil"
	if s.mask != nil {
		m = s.mask.kind
	}
	return fmt.Sprintf("dst %s %v r %v src %s %v sp %v mask %s mp %v", s.dst.kind, s.dst.img.Bounds(), s.r, s.src.kind, s.src.img.Bounds(), s.sp, m, s.mp)
}

func (s *scene) maskImage() image.Image {
	if s.mask == nil {
		return nil
	}
	return s.mask.img
}

// isFast is true for the combinations that have functions of their own.
func (s *scene) isFast() bool {
	if !s.dst.fast() || !s.src.fast() {
		return false
	}
	return s.mask == nil || s.mask.kind == "Uniform"
}

func rndPoint(c *vk.Ctx, n int) image.Point {
	return image.Pt(c.Rng.Intn(2*n+1)-n, c.Rng.Intn(2*n+1)-n)
}

// randScene makes a scene. wild scenes have regions that are clipped.
func randScene(c *vk.Ctx, size int, wild bool, dk, sk, mk string) *scene {
	return sceneOf(c, image.Pt(size, size), wild, dk, sk, mk)
}

// sceneOf makes a scene of images up to the size. Those of more than 1000 are at least a half of it.
func sceneOf(c *vk.Ctx, size image.Point, wild bool, dk, sk, mk string) *scene {
	r := c.Rng
	dimOf := func(n int) int {
		if n > 1000 {
			return n/2 + r.Intn(n/2)
		}
		return 1 + r.Intn(n)
	}
	dim := func() (int, int) { return dimOf(size.X), dimOf(size.Y) }
	w, h := dim()
	o := rndPoint(c, 20)
	s := &scene{}
	ext := func(p image.Point) image.Rectangle {
		if !wild {
			return image.Rect(p.X-r.Intn(3), p.Y-r.Intn(3), p.X+w+r.Intn(3), p.Y+h+r.Intn(3))
		}
		q := p.Add(image.Pt(rndPoint(c, 1+size.X/4).X, rndPoint(c, 1+size.Y/4).Y))
		w, h := dim()
		return image.Rect(q.X, q.Y, q.X+w, q.Y+h)
	}
	s.r = image.Rect(o.X, o.Y, o.X+w, o.Y+h)
	s.dst = newPic(dk, ext(o), r)
	s.sp = rndPoint(c, 20)
	s.src = newPic(sk, ext(s.sp), r)
	if mk != "" {
		s.mp = rndPoint(c, 20)
		s.mask = newPic(mk, ext(s.mp), r)
		if mk == "Uniform" {
			s.mask = rndUniformMask(c)
		}
	}
	return s
}

// extremeSize returns a size of an image that is long, tall or large.
func extremeSize(c *vk.Ctx) image.Point {
	r := c.Rng
	n := 1001 + r.Intn(1000<<uint(r.Intn(8)))
	switch r.Intn(21) {
	case 0, 1, 2, 3, 4, 5, 6, 7, 8, 9:
		c.Count("long images", 1)
		return image.Pt(n, 1+r.Intn(3))
	case 10, 11, 12, 13, 14, 15, 16, 17, 18, 19:
		c.Count("tall images", 1)
		return image.Pt(1+r.Intn(3), n)
	}
	c.Count("images of a million pixels", 1)
	return image.Pt(1001+r.Intn(800), 1001+r.Intn(800))
}

// far returns a large number.
func far(r *rand.Rand) int {
	n := 1<<uint(12+r.Intn(17)) + r.Intn(100) - 50
	if r.Intn(2) == 0 {
		n = -n
	}
	return n
}

// spread makes the rectangle of the scene much larger than images, or moves images far away.
func (s *scene) spread(c *vk.Ctx) {
	r := c.Rng
	if r.Intn(2) == 0 {
		d := image.Pt(far(r), far(r))
		if d.X < 0 {
			d.X = -d.X
		}
		if d.Y < 0 {
			d.Y = -d.Y
		}
		switch r.Intn(3) {
		case 0:
			d.X = r.Intn(10)
		case 1:
			d.Y = r.Intn(10)
		}
		s.r.Min, s.sp, s.mp = s.r.Min.Sub(d), s.sp.Sub(d), s.mp.Sub(d)
		if r.Intn(2) == 0 {
			s.r.Max = s.r.Max.Add(image.Pt(d.Y, d.X))
		}
		c.Count("huge rectangles", 1)
		return
	}
	c.Count("far images", 1)
	d := image.Pt(far(r), far(r))
	switch {
	case s.src.move(d) && r.Intn(3) > 0:
		s.sp = s.sp.Add(d)
	case s.src.move(image.Pt(-d.X, -d.Y)) && s.dst.move(d):
		s.r = s.r.Add(d)
	case s.mask != nil && s.mask.move(d):
		s.mp = s.mp.Add(d)
	}
}

func rndUniformMask(c *vk.Ctx) *pic {
	var u *image.Uniform
	switch c.Rng.Intn(4) {
	case 0:
		u = image.NewUniform(stdcolor.Alpha{255})
	case 1:
		u = image.NewUniform(stdcolor.Alpha16{rndAlpha16(c.Rng)})
	default:
		u = image.NewUniform(stdcolor.Alpha{rndAlpha8(c.Rng)})
	}
	return &pic{kind: "Uniform", img: u, base: u}
}

func kindsOf(c *vk.Ctx) (dk, sk, mk string) {
	r := c.Rng
	return dstKinds[r.Intn(len(dstKinds))], srcKinds[r.Intn(len(srcKinds))], maskKinds[r.Intn(len(maskKinds))]
}

func maskAlpha(m image.Image, x, y int) float64 {
	if m == nil {
		return 1
	}
	_, _, _, a := m.At(x, y).RGBA()
	return float64(a) / 0xffff
}

// caseBlend decides that each pixel is what the ideal function says.
func caseBlend(c *vk.Ctx) {
	m := &blendModes[c.Index%len(blendModes)]
	d := blendDrawers[m.name]
	if n := c.Index / len(blendModes) / sheetEvery; c.Index/len(blendModes)%sheetEvery == 0 {
		caseBlendSheet(c, m, n%blendSheets)
		return
	}
	for n := 0; n < 6; n++ {
		dk, sk, mk := kindsOf(c)
		if n < 4 {
			// All the combinations of the fast paths.
			dk, sk = []string{"NRGBA", "RGBA"}[n&1], []string{"NRGBA", "RGBA"}[n>>1]
			mk = pick(c.Rng, "", "Uniform", "Uniform", "Alpha")
		}
		s := randScene(c, 14, false, dk, sk, mk)
		before := s.dst.clone()
		if s.mask == nil && c.Rng.Intn(2) == 0 {
			d.Draw(s.dst.dst(), s.r, s.src.img, s.sp)
		} else {
			d.DrawMask(s.dst.dst(), s.r, s.src.img, s.sp, s.maskImage(), s.mp)
		}
		c.Distinct(m.name, s.String(), before.bytes(), s.src.bytes())
		c.Count(m.name, 1)
		if s.isFast() {
			c.Count("fast "+sk+" to "+dk, 1)
		} else {
			c.Count("general", 1)
		}
		if n == 5 {
			c.Sample("%s: %v", m.name, s)
		}
		checkBlend(c, m, s, before)
		if c.Failed() {
			return
		}
	}
}

func checkBlend(c *vk.Ctx, m *blendMode, s *scene, before *pic) {
	const u16 = 1.0 / 65535
	fast := s.isFast()
	_, dn := s.dst.img.(*image.NRGBA)
	_, sn := s.src.img.(*image.NRGBA)
	fast8 := fast && dn && sn
	u := u16
	if fast8 {
		u = 1.0 / 255
	}
	at := pixelAt
	if fast {
		at = fastPixelAt
	}
	clipped := s.r.Intersect(s.dst.img.Bounds()).Intersect(s.src.img.Bounds().Add(s.r.Min.Sub(s.sp)))
	mi := s.maskImage()
	if mi != nil {
		clipped = clipped.Intersect(mi.Bounds().Add(s.r.Min.Sub(s.mp)))
	}
	for y := clipped.Min.Y; y < clipped.Max.Y; y++ {
		for x := clipped.Min.X; x < clipped.Max.X; x++ {
			rel := image.Pt(x, y).Sub(s.r.Min)
			sp, mp := s.sp.Add(rel), s.mp.Add(rel)
			ps, pd := at(s.src.img, sp.X, sp.Y), at(before.img, x, y)
			ma := maskAlpha(mi, mp.X, mp.Y)
			out, oa, premul, q := rawPixel(s.dst.img, x, y)
			old, olda, _, _ := rawPixel(before.img, x, y)
			c.Eval(1)

			t := ps.a * ma
			var terr float64
			if fast && mi != nil && ma < 1 {
				terr = ps.a / 255 // the opacity is used as 8-bit
			}
			if ma < 1 && ps.a < 1 {
				terr += u
			}
			fail := func(what, f string, a ...interface{}) {
				c.Fail(what, "%s: %v\nat (%d,%d): src %v alpha %v, dst %v alpha %v, mask %v -> %v alpha %v: %s",
					m.name, s, x, y, ps.c, ps.a, pd.c, pd.a, ma, out, oa, fmt.Sprintf(f, a...))
			}
			if out == old && oa == olda && t <= terr+1.01*u {
				continue
			}
			a1, a2, a3 := t*pd.a, t*(1-pd.a), (1-t)*pd.a
			a := a1 + a2 + a3
			werr := 2 * terr
			aerr := terr * (1 - pd.a)
			if t > 0 && t < 1 && pd.a > 0 && pd.a < 1 {
				werr += 3 * u
				aerr += 3 * u
			} else if terr > 0 {
				werr += u
				aerr += u * (1 - pd.a)
			}
			if math.Abs(oa-a) > aerr+1.01*q {
				fail("alpha", "the ideal alpha is %v (tolerance %v)", a, aerr+1.01*q)
				return
			}
			if a <= 2*aerr+2*q {
				continue
			}
			band := 2.0 / 255
			berr := (1 + m.steps) / 255
			if !fast8 {
				band = 1e-4 + ps.err + pd.err
				berr = (3 + m.steps) * u16
			}
			if m.nonsep && m.steps > 0 && fast8 {
				// An error of the 8-bit luminosity is multiplied by up to
				// 0.89/0.11 while colors are clipped.
				berr += 14.0 / 255
			}
			lo, hi := blendRange(m, ps.c, pd.c, ps.err, pd.err, band)
			for i := range out {
				spread := math.Max(hi[i], math.Max(ps.c[i], pd.c[i])) - math.Min(lo[i], math.Min(ps.c[i], pd.c[i]))
				l := (lo[i]*a1 + ps.c[i]*a2 + pd.c[i]*a3) / a
				h := (hi[i]*a1 + ps.c[i]*a2 + pd.c[i]*a3) / a
				e := berr*a1/a + (ps.err*a2+pd.err*a3)/a + werr*spread/a
				l, h = math.Min(1, l-e), math.Min(1, h+e)
				v := out[i]
				var e2 float64
				if premul {
					l, h = l*a, h*a
					e2 = aerr + 4*u16
				} else if !fast {
					e2 = 5 * u16 / math.Max(a-aerr, u16)
				} else if !fast8 {
					e2 = 2 * u16
				}
				if v < l-e2-1.01*q || v > h+e2+1.01*q {
					fail("color", "component %d: the ideal value is in [%v, %v] (tolerance %v)", i, l, h, e2+1.01*q)
					return
				}
				if premul && v > oa+1e-9 {
					fail("premultiplied", "component %d is larger than the alpha", i)
					return
				}
				if ex := math.Max(l-v, v-h); ex > 0 {
					kind := "separable"
					if m.nonsep {
						kind = "non-separable"
					}
					if a < 0.95 || ma < 1 {
						kind += " (translucent)"
					}
					if fast8 {
						kind += " 8-bit"
					}
					c.Max("error beyond the ideal range in 1/1000 of a level, "+kind, int(ex*255000))
				}
			}
		}
	}
}

// casePorterDuff decides that each pixel is what the ideal operator says.
func casePorterDuff(c *vk.Ctx) {
	op := c.Index % len(porterDuff)
	p := &porterDuff[op]
	if n := c.Index / len(porterDuff) / pdSheetEvery; c.Index/len(porterDuff)%pdSheetEvery == 0 {
		casePorterDuffSheet(c, op, n%pdSheets)
		return
	}
	for n := 0; n < 10; n++ {
		dk, sk, _ := kindsOf(c)
		if n < 8 {
			dk = []string{"NRGBA", "RGBA"}[n&1]
			sk = []string{"NRGBA", "RGBA", "Alpha", "Uniform"}[n>>1]
		}
		s := randScene(c, 14, false, dk, sk, "")
		before := s.dst.clone()
		p.d.Draw(s.dst.dst(), s.r, s.src.img, s.sp)
		c.Distinct(p.name, s.String(), before.bytes(), s.src.bytes())
		c.Count(p.name, 1)
		c.Count("source "+sk, 1)
		if n == 9 {
			c.Sample("%s: %v", p.name, s)
		}
		checkPorterDuff(c, op, s, before)
		if c.Failed() {
			return
		}
	}
}

func checkPorterDuff(c *vk.Ctx, op int, s *scene, before *pic) {
	const u16 = 1.0 / 65535
	p := &porterDuff[op]
	black := s.src.kind == "Alpha"
	clipped := s.r.Intersect(s.dst.img.Bounds()).Intersect(s.src.img.Bounds().Add(s.r.Min.Sub(s.sp)))
	for y := clipped.Min.Y; y < clipped.Max.Y; y++ {
		for x := clipped.Min.X; x < clipped.Max.X; x++ {
			q := image.Pt(x, y).Sub(s.r.Min).Add(s.sp)
			ps, pd := fastPixelAt(s.src.img, q.X, q.Y), fastPixelAt(before.img, x, y)
			if black {
				ps.c = vec{}
			}
			fa, fb := p.f(ps.a, pd.a)
			a := ps.a*fa + pd.a*fb
			out, oa, premul, qu := rawPixel(s.dst.img, x, y)
			c.Eval(1)
			fail := func(what, f string, v ...interface{}) {
				c.Fail(what, "%s: %v\nat (%d,%d): src %v alpha %v, dst %v alpha %v -> %v alpha %v: %s",
					p.name, s, x, y, ps.c, ps.a, pd.c, pd.a, out, oa, fmt.Sprintf(f, v...))
			}
			aerr := 3*u16 + 1.01*qu
			if math.Abs(oa-a) > aerr {
				fail("alpha", "the ideal alpha is %v", a)
				return
			}
			if a < 3*qu || oa == 0 {
				if premul {
					for i := range out {
						if out[i] > oa+1e-9 {
							fail("premultiplied", "component %d is larger than the alpha", i)
							return
						}
					}
				}
				continue
			}
			for i := range out {
				v := ps.c[i]*ps.a*fa + pd.c[i]*pd.a*fb
				e := 5 * u16
				if !premul {
					v /= a
					e = 6*u16/a + 2*u16
				}
				e += 1.01 * qu
				if math.Abs(v-out[i]) > e {
					fail("color", "component %d: the ideal value is %v (tolerance %v)", i, v, e)
					return
				}
				if premul && out[i] > oa+1e-9 {
					fail("premultiplied", "component %d is larger than the alpha", i)
					return
				}
			}
		}
	}
}

// anyDrawer is a blend mode or a Porter-Duff operator.
type anyDrawer struct {
	name string
	d    draw.Drawer
	m    blend.Drawer
}

func drawerOf(i int) anyDrawer {
	i %= len(blendModes) + len(porterDuff)
	if i < len(blendModes) {
		d := blendDrawers[blendModes[i].name]
		return anyDrawer{blendModes[i].name, d, d}
	}
	p := porterDuff[i-len(blendModes)]
	return anyDrawer{p.name, p.d, nil}
}

func (d *anyDrawer) draw(s *scene, dst draw.Image, src image.Image) {
	if d.m == nil || s.mask == nil {
		d.d.Draw(dst, s.r, src, s.sp)
		return
	}
	d.m.DrawMask(dst, s.r, src, s.sp, s.maskImage(), s.mp)
}

// caseRegion decides which pixels are written from which pixels: a call must
// be same as calls for each of the pixels with images of 1x1.
func caseRegion(c *vk.Ctx) {
	d := drawerOf(c.Index)
	for n := 0; n < 6; n++ {
		dk, sk, mk := kindsOf(c)
		if n < 2 {
			dk, sk, mk = pick(c.Rng, "NRGBA", "RGBA"), pick(c.Rng, "NRGBA", "RGBA"), pick(c.Rng, "", "Uniform")
		}
		if d.m == nil {
			mk = ""
			if n == 2 {
				dk, sk = pick(c.Rng, "NRGBA", "RGBA"), "Alpha"
			}
		}
		size := 12
		if c.Index%83 == 0 && n < 3 {
			size = 60 + c.Rng.Intn(200)
			c.Count("large images", 1)
		}
		s := randScene(c, size, n != 0, dk, sk, mk)
		if c.Index%23 == 0 && n == []int{0, 1, 0, 1, 2}[c.Index/23%5] {
			s = sceneOf(c, extremeSize(c), n != 0, dk, sk, mk)
		}
		if c.Rng.Intn(20) == 0 {
			s.spread(c)
		} else if c.Rng.Intn(12) == 0 {
			s.r.Max = s.r.Min.Sub(image.Pt(c.Rng.Intn(3), c.Rng.Intn(3))) // empty
		}
		before, srcBytes := s.dst.clone(), s.src.snapshot()
		var maskBytes []byte
		if s.mask != nil {
			maskBytes = s.mask.snapshot()
		}
		d.draw(s, s.dst.dst(), s.src.img)
		c.Distinct(d.name, s.String(), before.bytes())
		if n == 5 {
			c.Sample("%s: %v", d.name, s)
		}
		if !bytes.Equal(srcBytes, s.src.bytes()) {
			c.Fail("source", "%s: %v: the source is modified", d.name, s)
			return
		}
		if s.mask != nil && !bytes.Equal(maskBytes, s.mask.bytes()) {
			c.Fail("mask", "%s: %v: the mask is modified", d.name, s)
			return
		}
		want := before.clone()
		sb := s.src.img.Bounds()
		var inside int
		all := s.r.Intersect(want.img.Bounds())
		for y := all.Min.Y; y < all.Max.Y; y++ {
			for x := all.Min.X; x < all.Max.X; x++ {
				rel := image.Pt(x, y).Sub(s.r.Min)
				sp, mp := s.sp.Add(rel), s.mp.Add(rel)
				if !image.Pt(x, y).In(want.img.Bounds()) || !sp.In(sb) {
					continue
				}
				if s.mask != nil && !mp.In(s.mask.img.Bounds()) {
					continue
				}
				inside++
				one := &scene{dst: dot(want, x, y), src: dot(s.src, sp.X, sp.Y), r: image.Rect(0, 0, 1, 1)}
				if s.mask != nil {
					one.mask = dot(s.mask, mp.X, mp.Y)
				}
				d.draw(one, one.dst.dst(), one.src.img)
				copyDot(want, x, y, one.dst)
			}
		}
		c.Eval(1 + inside)
		if inside > 0 {
			c.Count("pixels inside", inside)
		} else {
			c.Count("nothing to draw", 1)
		}
		c.Count("pixels outside", before.base.Bounds().Dx()*before.base.Bounds().Dy()-inside)
		if i := firstDiff(want.bytes(), s.dst.bytes()); i >= 0 {
			c.Fail("region", "%s: %v: byte %d of the memory (bounds %v) of the destination is %d, want %d, was %d", d.name, s, i, s.dst.base.Bounds(), s.dst.bytes()[i], want.bytes()[i], before.bytes()[i])
			return
		}
	}
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

// dot returns an image of 1x1 at (0,0) that has a pixel of p.
func dot(p *pic, x, y int) *pic {
	n := &pic{kind: p.kind}
	one := image.Rect(0, 0, 1, 1)
	switch b := p.base.(type) {
	case *image.Uniform:
		return p
	case *image.NRGBA:
		i := image.NewNRGBA(one)
		copy(i.Pix, b.Pix[b.PixOffset(x, y):])
		n.base = i
	case *image.RGBA:
		i := image.NewRGBA(one)
		copy(i.Pix, b.Pix[b.PixOffset(x, y):])
		n.base = i
	case *image.NRGBA64:
		i := image.NewNRGBA64(one)
		copy(i.Pix, b.Pix[b.PixOffset(x, y):])
		n.base = i
	case *image.RGBA64:
		i := image.NewRGBA64(one)
		copy(i.Pix, b.Pix[b.PixOffset(x, y):])
		n.base = i
	case *image.Alpha:
		i := image.NewAlpha(one)
		copy(i.Pix, b.Pix[b.PixOffset(x, y):])
		n.base = i
	default:
		n.base = &fixed{p.base.ColorModel(), p.base.At(x, y)}
	}
	n.img = n.base
	if h, ok := p.img.(*hidden); ok && h != nil {
		n.img = &hidden{n.base.(draw.Image)}
	}
	return n
}

// fixed is an image of 1x1.
type fixed struct {
	m stdcolor.Model
	c stdcolor.Color
}

func (f *fixed) ColorModel() stdcolor.Model { return f.m }
func (f *fixed) Bounds() image.Rectangle    { return image.Rect(0, 0, 1, 1) }
func (f *fixed) At(x, y int) stdcolor.Color { return f.c }

func copyDot(p *pic, x, y int, one *pic) {
	switch b := p.base.(type) {
	case *image.NRGBA:
		copy(b.Pix[b.PixOffset(x, y):], one.bytes())
	case *image.RGBA:
		copy(b.Pix[b.PixOffset(x, y):], one.bytes())
	case *image.NRGBA64:
		copy(b.Pix[b.PixOffset(x, y):], one.bytes())
	case *image.RGBA64:
		copy(b.Pix[b.PixOffset(x, y):], one.bytes())
	default:
		panic("not writable")
	}
}

// caseBlendSchedule decides that the result does not depend on the number of
// processors, on what other goroutines do, and on whether the source is the
// destination itself.
var coldBlend sync.Once

// blendColdStart draws with all the drawers at once, before anything else was
// drawn by this process: nothing may depend on who is the first.
func blendColdStart(c *vk.Ctx) {
	type call struct {
		d      anyDrawer
		s      *scene
		before *pic
		out    *pic
	}
	var calls []*call
	total := len(blendModes) + len(porterDuff)
	for i := 0; i < total; i++ {
		for n := 0; n < 6; n++ {
			dk, sk, mk := kindsOf(c)
			if n < 4 {
				dk, sk = []string{"NRGBA", "RGBA"}[n&1], []string{"NRGBA", "RGBA"}[n>>1]
				mk = pick(c.Rng, "", "Uniform")
			}
			d := drawerOf(i)
			if d.m == nil {
				mk = ""
			}
			s := randScene(c, 16, false, dk, sk, mk)
			calls = append(calls, &call{d, s, s.dst.clone(), s.dst})
		}
	}
	order := c.Rng.Perm(len(calls))
	runtime.GOMAXPROCS(8)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, i := range order {
		cl := calls[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			cl.d.draw(cl.s, cl.out.dst(), cl.s.src.img)
		}()
	}
	close(start)
	wg.Wait()
	runtime.GOMAXPROCS(1)
	for _, cl := range calls {
		got := cl.before.clone()
		cl.d.draw(cl.s, got.dst(), cl.s.src.img)
		c.Eval(1)
		if i := firstDiff(got.bytes(), cl.out.bytes()); i >= 0 {
			c.Fail("first", "%s: %v: byte %d was %d when all the drawers were used at once for the first time, it is %d now", cl.d.name, cl.s, i, cl.out.bytes()[i], got.bytes()[i])
			return
		}
	}
	c.Count("first draws of a process", len(calls))
}

func caseBlendSchedule(c *vk.Ctx) {
	coldBlend.Do(func() { blendColdStart(c) })
	base := runtime.NumGoroutine()
	d := drawerOf(c.Index)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	for n := 0; n < 3; n++ {
		dk, sk, mk := kindsOf(c)
		if n == 0 {
			dk, sk, mk = pick(c.Rng, "NRGBA", "RGBA"), pick(c.Rng, "NRGBA", "RGBA"), pick(c.Rng, "", "Uniform")
		}
		if d.m == nil {
			mk = ""
			if c.Rng.Intn(3) == 0 {
				sk = pick(c.Rng, "Alpha", "Uniform")
			}
		}
		size := 40
		if c.Index%61 == 0 {
			size = 60 + c.Rng.Intn(300)
			c.Count("large images", 1)
		}
		s := randScene(c, size, n == 2, dk, sk, mk)
		if c.Index%101 == 0 && n == 0 {
			s = sceneOf(c, extremeSize(c), n == 2, dk, sk, mk)
		}
		before := s.dst.clone()
		run := func(procs int, dst *pic, src image.Image) {
			runtime.GOMAXPROCS(procs)
			d.draw(s, dst.dst(), src)
			c.Eval(1)
			if procs > 8 {
				procs = 9
			}
			c.Count(fmt.Sprintf("GOMAXPROCS %d", procs), 1)
		}
		want := before.clone()
		run(1, want, s.src.img)
		c.Distinct(d.name, s.String(), before.bytes())
		for _, procs := range []int{2, 3, 4, 5, 8, 1 + c.Rng.Intn(32<<uint(c.Rng.Intn(3)))} {
			got := before.clone()
			run(procs, got, s.src.img)
			if i := firstDiff(want.bytes(), got.bytes()); i >= 0 {
				c.Fail("processors", "%s: %v: GOMAXPROCS %d: byte %d is %d, want %d", d.name, s, procs, i, got.bytes()[i], want.bytes()[i])
				return
			}
		}

		// Goroutines draw into disjoint parts of an image.
		runtime.GOMAXPROCS(4)
		got := before.clone()
		var wg sync.WaitGroup
		k := 1 + c.Rng.Intn(5)
		for i := 0; i < k; i++ {
			s2 := *s
			y0, y1 := s.r.Dy()*i/k, s.r.Dy()*(i+1)/k
			s2.r.Min.Y, s2.r.Max.Y = s.r.Min.Y+y0, s.r.Min.Y+y1
			s2.sp.Y += y0
			s2.mp.Y += y0
			wg.Add(1)
			go func() {
				defer wg.Done()
				d.draw(&s2, got.dst(), s.src.img)
			}()
		}
		wg.Wait()
		c.Eval(1)
		c.Count("concurrent draws", k)
		if i := firstDiff(want.bytes(), got.bytes()); i >= 0 {
			c.Fail("concurrent", "%s: %v: %d goroutines: byte %d is %d, want %d", d.name, s, k, i, got.bytes()[i], want.bytes()[i])
			return
		}

		// Draw the image to itself with an offset.
		s3 := &scene{dst: newPic(dk, image.Rect(0, 0, 8+c.Rng.Intn(24), 8+c.Rng.Intn(32)), c.Rng)}
		b := s3.dst.img.Bounds()
		s3.r = image.Rect(c.Rng.Intn(6), c.Rng.Intn(6), b.Dx()-c.Rng.Intn(6), b.Dy()-c.Rng.Intn(6))
		s3.sp = image.Pt(c.Rng.Intn(7), c.Rng.Intn(7))
		switch c.Rng.Intn(9) {
		case 0, 1, 2:
			s3.sp.Y = s3.r.Min.Y
		case 3:
			s3.sp = s3.r.Min
		case 4: // all of the image
			s3.r = b
			s3.sp = b.Min
		}
		if d.m != nil && c.Rng.Intn(2) == 0 {
			s3.mask = newPic("Alpha", b, c.Rng)
		}
		s3.src = s3.dst
		orig := s3.dst.clone()
		want = orig.clone()
		runtime.GOMAXPROCS(1)
		d.draw(s3, want.dst(), orig.img)
		for _, procs := range []int{1, 2, 4, 8} {
			got := orig.clone()
			runtime.GOMAXPROCS(procs)
			d.draw(s3, got.dst(), got.img)
			c.Eval(1)
			c.Count("self draws", 1)
			if i := firstDiff(want.bytes(), got.bytes()); i >= 0 {
				c.Fail("self", "%s: %v: drawing to itself with GOMAXPROCS %d: byte %d is %d, want %d", d.name, s3, procs, i, got.bytes()[i], want.bytes()[i])
				return
			}
		}
		if n == 2 {
			c.Sample("%s: %v", d.name, s)
		}
	}
	if n := vk.Settle(base); n > base {
		c.Fail("goroutines", "%s: there are %d goroutines after drawing, there were %d", d.name, n, base)
	}
}

// caseAlphaLaws decides the laws that hold exactly.
func caseAlphaLaws(c *vk.Ctx) {
	m := &blendModes[c.Index%len(blendModes)]
	d := blendDrawers[m.name]
	for n := 0; n < 4; n++ {
		dk, sk, mk := kindsOf(c)
		if n < 2 {
			dk, sk, mk = pick(c.Rng, "NRGBA", "RGBA"), pick(c.Rng, "NRGBA", "RGBA"), pick(c.Rng, "", "Uniform")
		}
		s := randScene(c, 14, false, dk, sk, mk)
		before := s.dst.clone()
		d.DrawMask(s.dst.dst(), s.r, s.src.img, s.sp, s.maskImage(), s.mp)
		c.Distinct(m.name, s.String(), before.bytes())
		fail := func(what string, x, y int, f string, a ...interface{}) {
			c.Fail(what, "%s: %v: at (%d,%d) %v -> %v: %s", m.name, s, x, y, before.img.At(x, y), s.dst.img.At(x, y), fmt.Sprintf(f, a...))
		}
		clipped := s.r.Intersect(s.dst.img.Bounds()).Intersect(s.src.img.Bounds().Add(s.r.Min.Sub(s.sp)))
		if s.mask != nil {
			clipped = clipped.Intersect(s.mask.img.Bounds().Add(s.r.Min.Sub(s.mp)))
		}
		for y := clipped.Min.Y; y < clipped.Max.Y && !c.Failed(); y++ {
			for x := clipped.Min.X; x < clipped.Max.X; x++ {
				rel := image.Pt(x, y).Sub(s.r.Min)
				sp, mp := s.sp.Add(rel), s.mp.Add(rel)
				ps, ma := fastPixelAt(s.src.img, sp.X, sp.Y), maskAlpha(s.maskImage(), mp.X, mp.Y)
				oldc, olda, _, _ := rawPixel(before.img, x, y)
				newc, newa, premul, q := rawPixel(s.dst.img, x, y)
				c.Eval(1)
				if ps.a == 0 || ma == 0 {
					c.Count("no coverage", 1)
					if oldc != newc || olda != newa {
						fail("coverage", x, y, "modified though the source or the mask is transparent")
						return
					}
					continue
				}
				if olda == 1 {
					c.Count("opaque destination", 1)
					if newa != 1 {
						fail("opaque", x, y, "the opaque destination is not opaque anymore")
						return
					}
				}
				if ps.a == 1 && ma == 1 {
					c.Count("opaque source", 1)
					if newa != 1 {
						fail("opaque source", x, y, "an opaque source does not make the destination opaque")
						return
					}
					if m.name == "Normal" {
						for i := range newc {
							if math.Abs(newc[i]-ps.c[i]) > q {
								fail("replace", x, y, "an opaque source does not replace the destination: %v", ps.c)
								return
							}
						}
					}
				}
				if premul {
					for i := range newc {
						if newc[i] > newa {
							fail("premultiplied", x, y, "a component is larger than the alpha")
							return
						}
					}
				}
				if newa < olda-4.0/255 {
					fail("erase", x, y, "the destination became more transparent")
					return
				}
			}
		}
		if n == 3 {
			c.Sample("%s: %v", m.name, s)
		}
	}
}
