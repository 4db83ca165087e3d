package main

import (
	"image"
	"image/color"

	"golang.org/x/image/draw"

	"github.com/oov/psd"
	"github.com/oov/psd/blend"
	"github.com/oov/psd/composite"

	"verif/psdgen"
)

// refTree is an independent compositor: no tiles, no cache, no goroutines.
// It knows only the document and the state of layers.
type refTree struct {
	rect image.Rectangle
	leaf map[int]*image.NRGBA // nil: no image
	mask map[int]*image.Alpha // nil: no mask
	def  map[int]int          // default color of the mask

	full map[int]image.Rectangle
}

func newRef(d *psdgen.Doc, rect image.Rectangle) *refTree {
	t := &refTree{
		rect: rect,
		leaf: map[int]*image.NRGBA{},
		mask: map[int]*image.Alpha{},
		def:  map[int]int{},
		full: map[int]image.Rectangle{},
	}
	for _, l := range d.Flat {
		if !l.Folder && l.SectType == 0 && !l.Rect.Empty() {
			t.full[l.SeqID] = l.Rect
			t.leaf[l.SeqID] = clipNRGBA(leafImage(l), rect)
		}
		if l.Mask.Len > 0 && !l.Mask.Rect.Empty() {
			m := image.NewAlpha(rect)
			for i := range m.Pix {
				m.Pix[i] = byte(l.Mask.Default)
			}
			p, mr := l.Plane(-2), l.Mask.Rect
			for y := mr.Min.Y; y < mr.Max.Y; y++ {
				for x := mr.Min.X; x < mr.Max.X; x++ {
					if image.Pt(x, y).In(rect) {
						m.Pix[m.PixOffset(x, y)] = p[(y-mr.Min.Y)*mr.Dx()+x-mr.Min.X]
					}
				}
			}
			t.mask[l.SeqID] = m
			t.def[l.SeqID] = l.Mask.Default
		}
	}
	return t
}

// leafImage returns the image of the layer.
func leafImage(l *psdgen.Layer) *image.NRGBA {
	m := image.NewNRGBA(l.Rect)
	a := l.Plane(-1)
	for i := 0; i < l.Rect.Dx()*l.Rect.Dy(); i++ {
		al := byte(255)
		if a != nil {
			al = a[i]
		}
		if al == 0 {
			continue
		}
		for k := 0; k < 3; k++ {
			if p := l.Plane(k); p != nil {
				m.Pix[i*4+k] = p[i]
			}
		}
		m.Pix[i*4+3] = al
	}
	return m
}

func clipNRGBA(src *image.NRGBA, rect image.Rectangle) *image.NRGBA {
	d := image.NewNRGBA(rect)
	r := src.Rect.Intersect(rect)
	for y := r.Min.Y; y < r.Max.Y; y++ {
		copy(d.Pix[d.PixOffset(r.Min.X, y):d.PixOffset(r.Min.X, y)+r.Dx()*4], src.Pix[src.PixOffset(r.Min.X, y):])
	}
	return d
}

// bounds returns the union of rectangles of layers.
func (t *refTree) bounds() image.Rectangle {
	var r image.Rectangle
	for _, f := range t.full {
		r = r.Union(f)
	}
	return r
}

var refModes = map[psd.BlendMode]blend.Drawer{
	"norm": blend.Normal, "dark": blend.Darken, "mul ": blend.Multiply, "idiv": blend.ColorBurn,
	"lbrn": blend.LinearBurn, "dkCl": blend.DarkerColor, "lite": blend.Lighten, "scrn": blend.Screen,
	"div ": blend.ColorDodge, "lddg": blend.Add, "lgCl": blend.LighterColor, "over": blend.Overlay,
	"sLit": blend.SoftLight, "hLit": blend.HardLight, "vLit": blend.VividLight, "lLit": blend.LinearLight,
	"pLit": blend.PinLight, "hMix": blend.HardMix, "diff": blend.Difference, "smud": blend.Exclusion,
	"fsub": blend.Subtract, "fdiv": blend.Divide, "hue ": blend.Hue, "sat ": blend.Saturation,
	"colr": blend.Color, "lum ": blend.Luminosity,
}

func (t *refTree) draw(dst, src *image.NRGBA, opacity int, bm psd.BlendMode) {
	d, ok := refModes[bm]
	if !ok {
		d = blend.Normal
	}
	d.DrawMask(dst, t.rect, src, t.rect.Min, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
}

func (t *refTree) copyOf(src *image.NRGBA) *image.NRGBA {
	d := image.NewNRGBA(t.rect)
	t.copyTo(d, src)
	return d
}

func (t *refTree) copyTo(dst, src *image.NRGBA) {
	for i := 0; i < len(src.Pix); i += 4 {
		if src.Pix[i+3] == 0 {
			dst.Pix[i], dst.Pix[i+1], dst.Pix[i+2], dst.Pix[i+3] = 0, 0, 0, 0
			continue
		}
		copy(dst.Pix[i:i+4], src.Pix[i:i+4])
	}
}

// render returns the image of the tree whose root is l.
func (t *refTree) render(root *composite.Layer) *image.NRGBA {
	b := image.NewNRGBA(t.rect)
	if t.rect.Empty() {
		return b
	}
	for i := range root.Children {
		l := &root.Children[i]
		t.layer(b, l, l.Opacity, l.BlendMode, false)
	}
	return b
}

// layer draws l to b and returns whether it could have drawn something.
func (t *refTree) layer(b *image.NRGBA, l *composite.Layer, opacity int, bm psd.BlendMode, isClip bool) bool {
	if !l.Visible || opacity == 0 || (l.Clipping && !isClip) {
		return false
	}
	var buf *image.NRGBA
	pass := l.Folder && bm == psd.BlendModePassThrough && len(l.Clip) == 0
	if l.Folder {
		a := 255
		if pass {
			buf = t.copyOf(b)
			a = opacity
		} else {
			buf = image.NewNRGBA(t.rect)
		}
		drew := false
		for i := range l.Children {
			c := &l.Children[i]
			if t.layer(buf, c, c.Opacity*a/255, c.BlendMode, false) {
				drew = true
			}
		}
		if !drew {
			return false
		}
	} else {
		src := t.leaf[l.SeqID]
		if src == nil {
			return false
		}
		buf = t.copyOf(src)
	}
	if l.MaskEnabled {
		t.applyMask(buf, b, l, pass)
	}
	if len(l.Clip) > 0 {
		cb := t.copyOf(buf)
		for i := 3; i < len(cb.Pix); i += 4 {
			cb.Pix[i] = 255
		}
		for _, cl := range l.Clip {
			t.layer(cb, cl, cl.Opacity, cl.BlendMode, true)
		}
		blend.DestIn.Draw(cb, t.rect, buf, t.rect.Min)
		buf = cb
	}
	if pass {
		t.copyTo(b, buf)
		return true
	}
	t.draw(b, buf, opacity, bm)
	return true
}

func (t *refTree) applyMask(buf, b *image.NRGBA, l *composite.Layer, pass bool) {
	m := t.mask[l.SeqID]
	if m == nil {
		m = image.NewAlpha(t.rect)
		if l.MaskDefaultColor == 255 {
			for i := range m.Pix {
				m.Pix[i] = 255
			}
		}
	}
	if pass {
		for i := 0; i < len(m.Pix); i++ {
			k := int(m.Pix[i])
			d, s := buf.Pix[i*4:i*4+4], b.Pix[i*4:i*4+4]
			da, sa := int(d[3])*k, int(s[3])*(255-k)
			if da+sa == 0 {
				d[0], d[1], d[2], d[3] = 0, 0, 0, 0
				continue
			}
			for j := 0; j < 3; j++ {
				d[j] = uint8((int(d[j])*da + int(s[j])*sa) / (da + sa))
			}
			d[3] = uint8((da + sa + 127) / 255)
		}
		return
	}
	if l.MaskDefaultColor != 255 {
		blend.DestIn.Draw(buf, t.rect, m, t.rect.Min)
		return
	}
	inv := image.NewAlpha(t.rect)
	for i, v := range m.Pix {
		inv.Pix[i] = 255 - v
	}
	blend.DestOut.Draw(buf, t.rect, inv, t.rect.Min)
}

var _ draw.Image = (*image.NRGBA)(nil)
