package main

import (
	"fmt"
	"image"
	stdcolor "image/color"
	"image/draw"
	"math/rand"
)

// hidden hides the concrete type of the image from type switches.
type hidden struct{ draw.Image }

// readonly hides the type and the methods to write.
type readonly struct{ image.Image }

// pic is an image with the memory behind of it.
type pic struct {
	kind string
	img  image.Image
	base image.Image
}

func (p *pic) dst() draw.Image { return p.img.(draw.Image) }

// bytes returns the memory of the image, beyond the bounds too.
func (p *pic) bytes() []byte {
	switch b := p.base.(type) {
	case *image.NRGBA:
		return b.Pix
	case *image.RGBA:
		return b.Pix
	case *image.NRGBA64:
		return b.Pix
	case *image.RGBA64:
		return b.Pix
	case *image.Gray:
		return b.Pix
	case *image.Gray16:
		return b.Pix
	case *image.Alpha:
		return b.Pix
	case *image.Alpha16:
		return b.Pix
	case *image.Paletted:
		return b.Pix
	case *image.CMYK:
		return b.Pix
	case *image.YCbCr:
		return append(append(append([]byte(nil), b.Y...), b.Cb...), b.Cr...)
	case *image.Uniform:
		r, g, bb, a := b.RGBA()
		return []byte(fmt.Sprint(r, g, bb, a))
	}
	panic(fmt.Sprintf("no memory: %T", p.base))
}

// move moves the bounds of the image, if it is possible.
func (p *pic) move(d image.Point) bool {
	if p.img != p.base {
		return false
	}
	switch b := p.base.(type) {
	case *image.NRGBA:
		b.Rect = b.Rect.Add(d)
	case *image.RGBA:
		b.Rect = b.Rect.Add(d)
	case *image.NRGBA64:
		b.Rect = b.Rect.Add(d)
	case *image.RGBA64:
		b.Rect = b.Rect.Add(d)
	case *image.Alpha:
		b.Rect = b.Rect.Add(d)
	default:
		return false
	}
	return true
}

func (p *pic) snapshot() []byte { return append([]byte(nil), p.bytes()...) }

// fast returns whether the image is a RGBA or a NRGBA.
func (p *pic) fast() bool {
	switch p.img.(type) {
	case *image.RGBA, *image.NRGBA:
		return true
	}
	return false
}

var corner8 = []byte{0, 0, 255, 255, 1, 254, 127, 128, 129, 63, 64, 65, 126}

func rnd8(r *rand.Rand) byte {
	if r.Intn(5) < 2 {
		return corner8[r.Intn(len(corner8))]
	}
	return byte(r.Intn(256))
}

func rndAlpha8(r *rand.Rand) byte {
	switch r.Intn(8) {
	case 0, 1:
		return 255
	case 2:
		return 0
	case 3:
		return byte(1 + r.Intn(12))
	}
	return rnd8(r)
}

func rnd16(r *rand.Rand) uint16 {
	switch r.Intn(6) {
	case 0:
		return []uint16{0, 0xffff, 1, 0xfffe, 0x7fff, 0x8000, 0x8001, 0x3fff, 0x4000, 0x100, 0xff}[r.Intn(11)]
	case 1:
		return uint16(rnd8(r)) * 0x101
	}
	return uint16(r.Intn(65536))
}

func rndAlpha16(r *rand.Rand) uint16 {
	switch r.Intn(8) {
	case 0, 1:
		return 0xffff
	case 2:
		return 0
	}
	return rnd16(r)
}

// fillMode makes images that have more of the special pixels.
type fillMode struct{ alpha int } // -1: random, otherwise all pixels have it

func fillPix(p []byte, kind string, r *rand.Rand, alpha int) {
	switch kind {
	case "NRGBA", "RGBA":
		for i := 0; i+3 < len(p); i += 4 {
			a := rndAlpha8(r)
			if alpha >= 0 {
				a = byte(alpha)
			}
			v := [3]byte{rnd8(r), rnd8(r), rnd8(r)}
			if r.Intn(8) == 0 {
				v[1], v[2] = v[0], v[0]
			}
			for k := range v {
				if kind == "RGBA" {
					if v[k] > a {
						if r.Intn(3) == 0 {
							v[k] = a
						} else {
							v[k] = byte(r.Intn(int(a) + 1))
						}
					}
				}
				p[i+k] = v[k]
			}
			p[i+3] = a
		}
	case "NRGBA64", "RGBA64":
		for i := 0; i+7 < len(p); i += 8 {
			a := rndAlpha16(r)
			if alpha >= 0 {
				a = uint16(alpha) * 0x101
			}
			for k := 0; k < 3; k++ {
				v := rnd16(r)
				if kind == "RGBA64" && v > a {
					if r.Intn(3) == 0 {
						v = a
					} else {
						v = uint16(r.Intn(int(a) + 1))
					}
				}
				p[i+k*2], p[i+k*2+1] = byte(v>>8), byte(v)
			}
			p[i+6], p[i+7] = byte(a>>8), byte(a)
		}
	case "Alpha":
		for i := range p {
			p[i] = rndAlpha8(r)
		}
	case "Alpha16":
		for i := 0; i+1 < len(p); i += 2 {
			a := rndAlpha16(r)
			p[i], p[i+1] = byte(a>>8), byte(a)
		}
	default:
		for i := range p {
			p[i] = rnd8(r)
		}
	}
}

var pal = func() stdcolor.Palette {
	r := rand.New(rand.NewSource(7))
	var p stdcolor.Palette
	for i := 0; i < 256; i++ {
		p = append(p, stdcolor.NRGBA{rnd8(r), rnd8(r), rnd8(r), rndAlpha8(r)})
	}
	return p
}()

// newPic makes a random image of the kind.
// A part of images is a part of a larger image.
func newPic(kind string, b image.Rectangle, r *rand.Rand) *pic {
	return newPicAlpha(kind, b, r, -1)
}

func newPicAlpha(kind string, b image.Rectangle, r *rand.Rand, alpha int) *pic {
	p := &pic{kind: kind}
	if kind == "Uniform" {
		u := image.NewUniform(rndColor(r))
		p.img, p.base = u, u
		return p
	}
	hide := false
	k := kind
	switch kind {
	case "hidden NRGBA":
		hide, k = true, "NRGBA"
	case "hidden RGBA":
		hide, k = true, "RGBA"
	}
	big := b
	sub := r.Intn(2) == 0
	if sub {
		big = image.Rect(b.Min.X-r.Intn(4), b.Min.Y-r.Intn(4), b.Max.X+r.Intn(4), b.Max.Y+r.Intn(4))
	}
	type subImager interface {
		SubImage(image.Rectangle) image.Image
	}
	switch k {
	case "NRGBA":
		p.base = image.NewNRGBA(big)
	case "RGBA":
		p.base = image.NewRGBA(big)
	case "NRGBA64":
		p.base = image.NewNRGBA64(big)
	case "RGBA64":
		p.base = image.NewRGBA64(big)
	case "Gray":
		p.base = image.NewGray(big)
	case "Gray16":
		p.base = image.NewGray16(big)
	case "Alpha":
		p.base = image.NewAlpha(big)
	case "Alpha16":
		p.base = image.NewAlpha16(big)
	case "Paletted":
		p.base = image.NewPaletted(big, pal)
	case "CMYK":
		p.base = image.NewCMYK(big)
	case "YCbCr":
		y := image.NewYCbCr(big, image.YCbCrSubsampleRatio444)
		fillPix(y.Y, k, r, alpha)
		fillPix(y.Cb, k, r, alpha)
		fillPix(y.Cr, k, r, alpha)
		p.base = y
	default:
		panic(kind)
	}
	if k != "YCbCr" {
		fillPix(p.bytes(), k, r, alpha)
	}
	p.img = p.base
	if sub && !b.Empty() {
		p.img = p.base.(subImager).SubImage(b)
	}
	if hide {
		p.img = &hidden{p.img.(draw.Image)}
	}
	return p
}

func rndColor(r *rand.Rand) stdcolor.Color {
	switch r.Intn(3) {
	case 0:
		return stdcolor.NRGBA{rnd8(r), rnd8(r), rnd8(r), rndAlpha8(r)}
	case 1:
		return stdcolor.NRGBA64{rnd16(r), rnd16(r), rnd16(r), rndAlpha16(r)}
	}
	a := rndAlpha8(r)
	f := func() uint8 { return uint8(r.Intn(int(a) + 1)) }
	return stdcolor.RGBA{f(), f(), f(), a}
}

// clone makes a copy that does not share the memory and has the same bounds,
// type and stride.
func (p *pic) clone() *pic {
	n := &pic{kind: p.kind}
	sub := func(base image.Image) image.Image {
		i := base
		if b := p.img.Bounds(); b != base.Bounds() {
			i = base.(interface {
				SubImage(image.Rectangle) image.Image
			}).SubImage(b)
		}
		if _, ok := p.img.(*hidden); ok {
			return &hidden{i.(draw.Image)}
		}
		return i
	}
	cp := func(b []byte) []byte { return append([]byte(nil), b...) }
	switch b := p.base.(type) {
	case *image.NRGBA:
		n.base = &image.NRGBA{Pix: cp(b.Pix), Stride: b.Stride, Rect: b.Rect}
	case *image.RGBA:
		n.base = &image.RGBA{Pix: cp(b.Pix), Stride: b.Stride, Rect: b.Rect}
	case *image.NRGBA64:
		n.base = &image.NRGBA64{Pix: cp(b.Pix), Stride: b.Stride, Rect: b.Rect}
	case *image.RGBA64:
		n.base = &image.RGBA64{Pix: cp(b.Pix), Stride: b.Stride, Rect: b.Rect}
	case *image.Alpha:
		n.base = &image.Alpha{Pix: cp(b.Pix), Stride: b.Stride, Rect: b.Rect}
	default:
		// The others are not written.
		return p
	}
	n.img = sub(n.base)
	return n
}

// pixel is an ideal non-premultiplied color with the error of it.
type pixel struct {
	c   vec
	a   float64
	err float64
}

// pixelAt returns the pixel as color.Color describes.
func pixelAt(i image.Image, x, y int) pixel {
	r, g, b, a := i.At(x, y).RGBA()
	if a == 0 {
		return pixel{}
	}
	fa := float64(a)
	p := pixel{vec{float64(r) / fa, float64(g) / fa, float64(b) / fa}, fa / 0xffff, 0}
	if a < 0xffff {
		p.err = 1.01 / 0xffff
	}
	return p
}

// fastPixelAt is same as pixelAt, but NRGBA is not premultiplied.
func fastPixelAt(i image.Image, x, y int) pixel {
	if n, ok := i.(*image.NRGBA); ok {
		c := n.NRGBAAt(x, y)
		if c.A == 0 {
			return pixel{}
		}
		return pixel{vec{float64(c.R) / 255, float64(c.G) / 255, float64(c.B) / 255}, float64(c.A) / 255, 0}
	}
	return pixelAt(i, x, y)
}

// rawPixel returns components as stored in the image in [0, 1].
func rawPixel(i image.Image, x, y int) (c vec, a float64, premul bool, q float64) {
	switch t := i.(type) {
	case *hidden:
		return rawPixel(t.Image, x, y)
	case *image.NRGBA:
		v := t.NRGBAAt(x, y)
		return vec{float64(v.R) / 255, float64(v.G) / 255, float64(v.B) / 255}, float64(v.A) / 255, false, 1.0 / 255
	case *image.RGBA:
		v := t.RGBAAt(x, y)
		return vec{float64(v.R) / 255, float64(v.G) / 255, float64(v.B) / 255}, float64(v.A) / 255, true, 1.0 / 255
	case *image.NRGBA64:
		v := t.NRGBA64At(x, y)
		return vec{float64(v.R) / 65535, float64(v.G) / 65535, float64(v.B) / 65535}, float64(v.A) / 65535, false, 1.0 / 65535
	case *image.RGBA64:
		v := t.RGBA64At(x, y)
		return vec{float64(v.R) / 65535, float64(v.G) / 65535, float64(v.B) / 65535}, float64(v.A) / 65535, true, 1.0 / 65535
	}
	panic(fmt.Sprintf("%T", i))
}

func pick(r *rand.Rand, s ...string) string { return s[r.Intn(len(s))] }
