package main

import (
	"bytes"
	"fmt"
	"image"
	"math"
	"math/rand"

	"golang.org/x/image/draw"
	"golang.org/x/image/math/f64"

	"github.com/oov/psd/composite"

	"verif/psdgen"
	"verif/vk"
)

var lattice = [][4]int{
	{1, 0, 0, 1}, {0, -1, 1, 0}, {-1, 0, 0, -1}, {0, 1, -1, 0},
	{-1, 0, 0, 1}, {1, 0, 0, -1}, {0, 1, 1, 0}, {0, -1, -1, 0},
}

type aff struct{ a, b, c, d, e, f int } // x' = ax+by+c, y' = dx+ey+f

func (m aff) f64() f64.Aff3 {
	return f64.Aff3{float64(m.a), float64(m.b), float64(m.c), float64(m.d), float64(m.e), float64(m.f)}
}

func (m aff) point(x, y int) image.Point { return image.Pt(m.a*x+m.b*y+m.c, m.d*x+m.e*y+m.f) }

func (m aff) rect(r image.Rectangle) image.Rectangle {
	p, q := m.point(r.Min.X, r.Min.Y), m.point(r.Max.X, r.Max.Y)
	return image.Rect(p.X, p.Y, q.X, q.Y)
}

// pixel returns the position of the pixel.
func (m aff) pixel(x, y int) image.Point {
	return m.rect(image.Rect(x, y, x+1, y+1)).Min
}

func (m aff) then(n aff) aff {
	p0 := n.point(m.c, m.f)
	return aff{
		n.a*m.a + n.b*m.d, n.a*m.b + n.b*m.e, p0.X,
		n.d*m.a + n.e*m.d, n.d*m.b + n.e*m.e, p0.Y,
	}
}

func (m aff) plane(rect image.Rectangle, p []byte) []byte {
	out := m.rect(rect)
	q := make([]byte, len(p))
	for y := rect.Min.Y; y < rect.Max.Y; y++ {
		for x := rect.Min.X; x < rect.Max.X; x++ {
			t := m.pixel(x, y).Sub(out.Min)
			q[t.Y*out.Dx()+t.X] = p[(y-rect.Min.Y)*rect.Dx()+x-rect.Min.X]
		}
	}
	return q
}

// doc returns the transformed document. It is not encodable.
func (m aff) doc(d *psdgen.Doc) *psdgen.Doc {
	nd := *d
	nd.Flat = nil
	for _, l := range d.Flat {
		nl := *l
		nl.Rect = m.rect(l.Rect)
		nl.Mask.Rect = m.rect(l.Mask.Rect)
		nl.Chans = nil
		for _, c := range l.Chans {
			nc := *c
			if !c.NoData && len(c.Data) > 0 {
				nc.Data = m.plane(c.Rect, c.Data)
				nc.Rect = m.rect(c.Rect)
			}
			nl.Chans = append(nl.Chans, &nc)
		}
		nd.Flat = append(nd.Flat, &nl)
	}
	return &nd
}

func randAff(c *vk.Ctx) aff {
	l := lattice[c.Rng.Intn(len(lattice))]
	m := aff{a: l[0], b: l[1], d: l[2], e: l[3]}
	if c.Rng.Intn(4) == 0 {
		m = aff{a: 1, e: 1}
	}
	d := 100
	if c.Rng.Intn(4) == 0 {
		d = 1
	}
	switch c.Rng.Intn(6) {
	case 0:
	case 1:
		m.c = c.Rng.Intn(2*d+1) - d
	case 2:
		m.f = c.Rng.Intn(2*d+1) - d
	default:
		m.c, m.f = c.Rng.Intn(2*d+1)-d, c.Rng.Intn(2*d+1)-d
	}
	return m
}

// --- M05

func caseTransform(c *vk.Ctx) {
	switch c.Index % 7 {
	case 0, 2, 4:
		caseLattice(c)
	case 1, 3:
		caseAffine(c)
	case 6:
		caseResample(c)
	case 5:
		caseLatticeAlpha(c)
	}
}

// caseLattice: rotations by 90 degrees, flips and integer translations move
// pixels, so that the result is exact.
func caseLattice(c *vk.Ctx) {
	r := c.Rng
	d, data := genComp(c, psdgen.CompOpt{Binary: true, NoClbl: true, MaxDim: 40, MaxLayers: 6, Near: true, Long: true, Many: true})
	tile, procs := randTile(r, d), setProcs(r)
	m := randAff(c)
	base, err := open(data, tile)
	if err != nil {
		c.Fail("new", "New: %v", err)
		return
	}
	origRect, origCanvas := base.Rect, base.CanvasRect
	origImage := image.NewNRGBA(origCanvas)
	if err := base.Renderer.Render(bg, origImage); err != nil {
		c.Fail("render", "%v", err)
		return
	}
	var t *composite.Tree
	how := "New"
	switch r.Intn(3) {
	case 0:
		opt := &composite.Options{TileSize: tile, TransformMatrix: m.f64()}
		saved := *opt
		t, err = composite.New(bg, bytes.NewReader(data), opt)
		if opt.TileSize != saved.TileSize || opt.TransformMatrix != saved.TransformMatrix || opt.LayerNameEncodingDetector != nil {
			c.Fail("options", "New modified options: %+v", opt)
			return
		}
	case 1:
		how = "Transform"
		t, err = base.Transform(bg, m.f64(), 0)
	case 2:
		how = "Transform twice"
		t, err = base.Transform(bg, m.f64(), 0)
		if err == nil {
			n := randAff(c)
			t, err = t.Transform(bg, n.f64(), 0)
			m = m.then(n)
		}
	}
	if err != nil {
		c.Fail("transform", "%s %v: %v", how, m, err)
		return
	}
	noteComp(c, d, how, m, "tile", tile)
	what := fmt.Sprintf("%s %v tile=%d procs=%d %v", how, m, tile, procs, outline(d.Roots))
	wantCanvas := m.rect(origCanvas)
	if t.CanvasRect != wantCanvas {
		c.Fail("canvas rect", "%s: CanvasRect is %v, want %v", what, t.CanvasRect, wantCanvas)
		return
	}
	ref := newRef(m.doc(d), wantCanvas)
	want := ref.render(&t.Root)
	dest := garbage(r, t.CanvasRect)
	clearOutside(dest, t.Rect)
	if err := t.Renderer.Render(bg, dest); err != nil {
		c.Fail("render", "%v", err)
		return
	}
	c.Eval(len(dest.Pix) / 4)
	if s := diffImages(dest, want, wantCanvas); s != "" {
		c.Fail("pixels", "%s: %s", what, s)
		return
	}
	if visible(want) > 0 {
		c.Distinct(data, how, m)
		c.Count("visible pixels", visible(want))
	}
	// edits of the transformed tree
	ls := layersOf(t)
	for i := 0; i < 2; i++ {
		l := pickLayer(r, ls)
		e := edit(r, d, l)
		t.Renderer.SetDirtyByLayer(l)
		if err := t.Renderer.RenderDiff(bg, dest); err != nil {
			c.Fail("render", "%v", err)
			return
		}
		if s := diffImages(dest, ref.render(&t.Root), wantCanvas); s != "" {
			c.Fail("pixels after edit", "%s: %s: %s", what, e, s)
			return
		}
	}
	// the original is as it was.
	if base.Rect != origRect || base.CanvasRect != origCanvas {
		c.Fail("original rect", "%s: the original tree has been changed", what)
		return
	}
	again := image.NewNRGBA(origCanvas)
	if err := base.Clone().Renderer.Render(bg, again); err != nil {
		c.Fail("render", "%v", err)
		return
	}
	if s := diffImages(again, origImage, origCanvas); s != "" {
		c.Fail("original pixels", "%s: %s", what, s)
	}
}

// caseLatticeAlpha moves a layer with any alpha and a mask, with and without gamma.
func caseLatticeAlpha(c *vk.Ctx) {
	r := c.Rng
	d, data := genComp(c, psdgen.CompOpt{NoFolder: true, NoClip: true, Visible: true, MaxDim: 50, MaxLayers: 1, Blends: []string{"norm"}, Near: true})
	tile := randTile(r, d)
	setProcs(r)
	m := randAff(c)
	gamma := []float64{0, 1, 2.2, 1.8, 0.5}[r.Intn(5)]
	base, err := open(data, tile)
	if err != nil {
		c.Fail("new", "New: %v", err)
		return
	}
	orig := image.NewNRGBA(base.CanvasRect)
	if err := base.Renderer.Render(bg, orig); err != nil {
		c.Fail("render", "%v", err)
		return
	}
	how := "New"
	var t *composite.Tree
	if r.Intn(2) == 0 {
		t, err = composite.New(bg, bytes.NewReader(data), &composite.Options{TileSize: tile, TransformMatrix: m.f64(), Gamma: gamma})
	} else {
		how = "Transform"
		t, err = base.Transform(bg, m.f64(), gamma)
	}
	if err != nil {
		c.Fail("transform", "%v", err)
		return
	}
	what := fmt.Sprintf("%s %v gamma=%v tile=%d %v", how, m, gamma, tile, outline(d.Roots))
	c.Sample("%s", what)
	dest := image.NewNRGBA(t.CanvasRect)
	if err := t.Renderer.Render(bg, dest); err != nil {
		c.Fail("render", "%v", err)
		return
	}
	n := 0
	for y := orig.Rect.Min.Y; y < orig.Rect.Max.Y; y++ {
		for x := orig.Rect.Min.X; x < orig.Rect.Max.X; x++ {
			p := m.pixel(x, y)
			if !p.In(dest.Rect) {
				c.Fail("canvas rect", "%s: CanvasRect is %v", what, t.CanvasRect)
				return
			}
			w, g := orig.Pix[orig.PixOffset(x, y):][:4], dest.Pix[dest.PixOffset(p.X, p.Y):][:4]
			tol := 2
			if gamma != 0 && gamma != 1 {
				// 16 bits of the premultiplied color are not enough for dark transparent pixels.
				tol = 3 + 2*255/(int(w[3])+1)
				if w[3] < 64 {
					tol = 255
				}
			}
			ok := w[3] == g[3]
			for k := 0; k < 3 && w[3] > 0; k++ {
				if df := int(w[k]) - int(g[k]); df > tol || df < -tol {
					ok = false
				}
			}
			if !ok {
				c.Fail("alpha", "%s: (%d,%d) is moved to %v: %v became %v", what, x, y, p, w, g)
				return
			}
			if w[3] > 0 && w[3] < 255 {
				n++
			}
		}
	}
	c.Eval(len(orig.Pix) / 4)
	c.Count("half transparent pixels", n)
	if n > 0 {
		c.Distinct(data, how, m, gamma)
	}
}

// caseAffine transforms layers of a color by any matrix: inside of the
// transformed rectangle has the color, outside of it is transparent.
func caseAffine(c *vk.Ctx) {
	r := c.Rng
	d := psdgen.RandComp(r, psdgen.CompOpt{Flat: true, MaxLayers: 1, NoFolder: true, NoMask: true, NoClip: true, Visible: true, MaxDim: 60, Blends: []string{"norm"}, Near: true})
	l := d.Roots[0]
	maskVal := -1 // of the mask
	if r.Intn(2) == 0 {
		maskVal = []int{0, 255, 0, 255, r.Intn(256)}[r.Intn(5)]
		x, y := r.Intn(d.W)-d.W/4, r.Intn(d.H)-d.H/4
		l.Mask = psdgen.Mask{Len: 20, Rect: image.Rect(x, y, x+1+r.Intn(d.W), y+1+r.Intn(d.H)), Default: 255 * r.Intn(2)}
		n := l.Mask.Rect.Dx() * l.Mask.Rect.Dy()
		l.Chans = append(l.Chans, &psdgen.Chan{ID: -2, Rect: l.Mask.Rect, Comp: r.Intn(4), Data: bytes.Repeat([]byte{byte(maskVal)}, n)})
		c.Count("masks of a color", 1)
	}
	data := psdgen.Encode(d, r).Bytes
	tile := randTile(r, d)
	setProcs(r)
	m, kind := randMatrix(r)
	c.Count(kind, 1)
	gamma := 0.0
	if r.Intn(2) == 0 {
		gamma = []float64{1, 2.2, 1.8, 0.5}[r.Intn(4)]
	}
	var t *composite.Tree
	var err error
	how := "New"
	if r.Intn(2) == 0 {
		t, err = composite.New(bg, bytes.NewReader(data), &composite.Options{TileSize: tile, TransformMatrix: m, Gamma: gamma})
	} else {
		how = "Transform"
		t, err = open(data, tile)
		if err == nil {
			t, err = t.Transform(bg, m, gamma)
		}
	}
	if err != nil {
		c.Fail("transform", "%v", err)
		return
	}
	what := fmt.Sprintf("%s %v gamma=%v tile=%d %v", how, m, gamma, tile, outline(d.Roots))
	cr := boundsOf(m, image.Rect(0, 0, d.W, d.H))
	if t.CanvasRect != cr {
		c.Fail("canvas rect", "%s: CanvasRect is %v, want %v", what, t.CanvasRect, cr)
		return
	}
	c.Sample("%s", what)
	if l.Rect.Empty() {
		return
	}
	dest := image.NewNRGBA(t.CanvasRect)
	if err := t.Renderer.Render(bg, dest); err != nil {
		c.Fail("render", "%v", err)
		return
	}
	var col [3]byte
	for k := range col {
		if p := l.Plane(k); p != nil {
			col[k] = p[0]
		}
	}
	distance := func(b image.Rectangle, ux, uy float64) (in, src float64) { return distanceTo(m, b, ux, uy) }
	inside, outside := 0, 0
	for y := cr.Min.Y; y < cr.Max.Y; y++ {
		for x := cr.Min.X; x < cr.Max.X; x++ {
			// center of the pixel in the layer, and the distance to the border in the result
			ux, uy := invert(m, float64(x)+0.5, float64(y)+0.5)
			in, src := distance(l.Rect, ux, uy)
			alpha := 255
			if maskVal >= 0 {
				mi, ms := distance(l.Mask.Rect, ux, uy)
				switch {
				case mi > 2 && ms > 2:
					alpha = maskVal
				case mi < -2 && ms < -2:
					alpha = l.Mask.Default
				default:
					continue
				}
			}
			p := dest.Pix[dest.PixOffset(x, y):][:4]
			if in > 2 && src > 2 && ux > 0 && uy > 0 && ux < float64(d.W) && uy < float64(d.H) {
				inside++
				if alpha < 255 {
					c.Count("inside, masked", 1)
				}
				if da := int(p[3]) - alpha; da > 1 || da < -1 {
					c.Fail("inside", "%s: (%d,%d) is %v, want alpha %d", what, x, y, p, alpha)
					return
				}
				for k := 0; k < 3 && alpha > 128; k++ {
					if df := int(p[k]) - int(col[k]); df > 2 || df < -2 {
						c.Fail("inside", "%s: (%d,%d) is %v, want %v", what, x, y, p, col)
						return
					}
				}
			} else if in < -2 && src < -2 {
				outside++
				if p[3] != 0 {
					c.Fail("outside", "%s: (%d,%d) is %v, want transparent", what, x, y, p)
					return
				}
			}
		}
	}
	c.Eval(inside + outside)
	c.Count("inside", inside)
	c.Count("outside", outside)
	if inside+outside > 0 {
		c.Distinct(data, how, m, gamma)
	}
}

// randMatrix returns a matrix that is not singular, and the kind of it.
func randMatrix(r *rand.Rand) (f64.Aff3, string) {
	rs := func(v float64) float64 {
		if r.Intn(3) == 0 {
			return -v
		}
		return v
	}
	// an entry of the matrix
	entry := func() float64 {
		if r.Intn(2) == 0 {
			return rs([]float64{0.25, 0.5, 1, 1.5, 2, 3}[r.Intn(6)])
		}
		return rs(0.2 + r.Float64()*2.3)
	}
	var tx, ty float64
	switch r.Intn(5) {
	case 0: // none
	case 1:
		tx, ty = float64(r.Intn(200)-100), float64(r.Intn(200)-100)
	default:
		tx, ty = r.Float64()*100-50, r.Float64()*100-50
	}
	if r.Intn(6) == 0 {
		tx = 0
	}
	if r.Intn(6) == 0 {
		ty = 0
	}
	switch r.Intn(12) {
	case 0:
		return f64.Aff3{1, 0, tx, entry(), 1, ty}, "matrices that only shear y"
	case 1:
		return f64.Aff3{1, entry(), tx, 0, 1, ty}, "matrices that only shear x"
	case 2:
		return f64.Aff3{entry(), 0, tx, 0, 1, ty}, "matrices that only scale x"
	case 3:
		return f64.Aff3{1, 0, tx, 0, entry(), ty}, "matrices that only scale y"
	case 4:
		return f64.Aff3{0, entry(), tx, entry(), 0, ty}, "matrices that exchange x and y"
	case 5:
		// one of them is zero.
		m := f64.Aff3{entry(), entry(), tx, entry(), entry(), ty}
		m[[]int{0, 1, 3, 4}[r.Intn(4)]] = 0
		return m, "matrices with a zero"
	case 6:
		for {
			m := f64.Aff3{entry(), entry(), tx, entry(), entry(), ty}
			if math.Abs(m[0]*m[4]-m[1]*m[3]) > 0.25 {
				return m, "matrices of any values"
			}
		}
	}
	th := r.Float64() * 2 * math.Pi
	if r.Intn(3) == 0 {
		th = 0
	}
	sx, sy := 0.3+r.Float64()*2, 0.3+r.Float64()*2
	return f64.Aff3{math.Cos(th) * sx, -math.Sin(th) * sy, tx, math.Sin(th) * sx, math.Cos(th) * sy, ty}, "matrices of rotations and scales"
}

// invert returns the position before the transform.
func invert(m f64.Aff3, x, y float64) (float64, float64) {
	px, py := x-m[2], y-m[5]
	det := m[0]*m[4] - m[1]*m[3]
	return (m[4]*px - m[1]*py) / det, (-m[3]*px + m[0]*py) / det
}

// distanceTo returns the distance to the border of b in pixels of the result and of the layer.
func distanceTo(m f64.Aff3, b image.Rectangle, ux, uy float64) (in, src float64) {
	dx := math.Min(ux-float64(b.Min.X), float64(b.Max.X)-ux)
	dy := math.Min(uy-float64(b.Min.Y), float64(b.Max.Y)-uy)
	det := math.Abs(m[0]*m[4] - m[1]*m[3])
	return math.Min(dx*det/math.Hypot(m[1], m[4]), dy*det/math.Hypot(m[0], m[3])), math.Min(dx, dy)
}

// caseResample transforms a layer of any pixels: values between pixels are
// of the bilinear filter, in the space of the gamma.
func caseResample(c *vk.Ctx) {
	r := c.Rng
	d := psdgen.RandComp(r, psdgen.CompOpt{MaxLayers: 1, NoFolder: true, NoMask: true, NoClip: true, Visible: true, MaxDim: 40, Blends: []string{"norm"}, Near: true})
	l := d.Roots[0]
	if l.Rect.Empty() {
		return
	}
	if r.Intn(3) == 0 {
		x, y := r.Intn(d.W)-d.W/4, r.Intn(d.H)-d.H/4
		l.Mask = psdgen.Mask{Len: 20, Rect: image.Rect(x, y, x+5+r.Intn(d.W), y+5+r.Intn(d.H)), Default: 255 * r.Intn(2)}
		l.Chans = append(l.Chans, &psdgen.Chan{ID: -2, Rect: l.Mask.Rect, Comp: r.Intn(4), Data: psdgen.RandPlane(r, l.Mask.Rect.Dx(), l.Mask.Rect.Dy(), 8)})
	}
	viaNew := r.Intn(2) == 0
	if !viaNew {
		// Transform may forget tiles without anything, and those at the border of what is left have no neighbors.
		for _, ch := range l.Chans {
			for i, v := range ch.Data {
				if ch.ID == -1 && v == 0 || ch.ID == -2 && int(v) == l.Mask.Default {
					ch.Data[i] = 100
				}
			}
		}
	}
	data := psdgen.Encode(d, r).Bytes
	tile := randTile(r, d)
	setProcs(r)
	m, _ := randMatrix(r)
	gamma := []float64{0, 0, 0.45, 0.5, 1, 1.8, 2.2, 2.6, 0.4 + 2.4*r.Float64()}[r.Intn(9)]
	var t *composite.Tree
	var err error
	how := "New"
	if viaNew {
		t, err = composite.New(bg, bytes.NewReader(data), &composite.Options{TileSize: tile, TransformMatrix: m, Gamma: gamma})
	} else {
		how = "Transform"
		t, err = open(data, tile)
		if err == nil {
			t, err = t.Transform(bg, m, gamma)
		}
	}
	if err != nil {
		c.Fail("transform", "%v", err)
		return
	}
	what := fmt.Sprintf("%s %v gamma=%v tile=%d %v", how, m, gamma, tile, outline(d.Roots))
	dest := image.NewNRGBA(t.CanvasRect)
	if err := t.Renderer.Render(bg, dest); err != nil {
		c.Fail("render", "%v", err)
		return
	}
	g := gamma
	if g == 0 {
		g = 1
	}
	leaf := leafImage(l)
	src := image.NewNRGBA64(l.Rect)
	for i := range leaf.Pix {
		v := float64(leaf.Pix[i]) / 255
		if i&3 != 3 {
			v = math.Pow(v, g)
		}
		w := uint16(v*65535 + 0.5)
		src.Pix[i*2], src.Pix[i*2+1] = byte(w>>8), byte(w)
	}
	want := image.NewNRGBA64(t.CanvasRect)
	draw.BiLinear.Transform(want, m, src, src.Rect, draw.Src, nil)
	var mask *image.Alpha16
	if l.Mask.Len > 0 {
		ms := image.NewAlpha16(l.Mask.Rect)
		for i, v := range l.Plane(-2) {
			ms.Pix[i*2], ms.Pix[i*2+1] = v, v
		}
		mask = image.NewAlpha16(t.CanvasRect)
		draw.BiLinear.Transform(mask, m, ms, ms.Rect, draw.Src, nil)
	}
	n, between := 0, 0
	cr := t.CanvasRect
	for y := cr.Min.Y; y < cr.Max.Y; y++ {
		for x := cr.Min.X; x < cr.Max.X; x++ {
			ux, uy := invert(m, float64(x)+0.5, float64(y)+0.5)
			if in, src := distanceTo(m, l.Rect, ux, uy); in <= 2 || src <= 2 {
				continue
			}
			if ux <= 0 || uy <= 0 || ux >= float64(d.W) || uy >= float64(d.H) {
				continue
			}
			w := want.NRGBA64At(x, y)
			alpha := float64(w.A) / 257
			if mask != nil {
				in, src := distanceTo(m, l.Mask.Rect, ux, uy)
				switch {
				case in > 2 && src > 2:
					alpha *= float64(mask.Alpha16At(x, y).A) / 65535
				case in < -2 && src < -2:
					alpha *= float64(l.Mask.Default) / 255
				default:
					continue
				}
			}
			p := dest.Pix[dest.PixOffset(x, y):][:4]
			n++
			if da := float64(p[3]) - alpha; math.Abs(da) > 3.5 {
				c.Fail("alpha", "%s: (%d,%d) is %v, want alpha %v", what, x, y, p, alpha)
				return
			}
			if w.A < 0x8000 || alpha < 100 {
				continue
			}
			for k, v := range []uint16{w.R, w.G, w.B} {
				// the error of a level of 16 bits, and of the dark side of the gamma
				lo := 255*math.Pow(math.Max(float64(v)-6, 0)/65535, 1/g) - 4
				hi := 255*math.Pow(math.Min(float64(v)+6, 65535)/65535, 1/g) + 4
				if df := float64(p[k]); df < lo || df > hi {
					c.Fail("color", "%s: (%d,%d) is %v, want %.1f..%.1f at %d", what, x, y, p, lo, hi, k)
					return
				}
			}
			between++
		}
	}
	c.Eval(n)
	c.Count("resampled pixels", n)
	c.Count("resampled colors", between)
	if gamma != 0 && gamma != 1 {
		c.Count("resampled colors in gamma", between)
	}
	if between > 0 {
		c.Distinct(data, how, m, gamma)
	}
}

func boundsOf(m f64.Aff3, r image.Rectangle) image.Rectangle {
	minX, minY := math.Inf(1), math.Inf(1)
	maxX, maxY := math.Inf(-1), math.Inf(-1)
	for i := 0; i < 4; i++ {
		x, y := float64(r.Min.X), float64(r.Min.Y)
		if i&1 != 0 {
			x = float64(r.Max.X)
		}
		if i&2 != 0 {
			y = float64(r.Max.Y)
		}
		tx, ty := m[0]*x+m[1]*y+m[2], m[3]*x+m[4]*y+m[5]
		minX, maxX = math.Min(minX, tx), math.Max(maxX, tx)
		minY, maxY = math.Min(minY, ty), math.Max(maxY, ty)
	}
	return image.Rect(int(math.Floor(minX)), int(math.Floor(minY)), int(math.Ceil(maxX)), int(math.Ceil(maxY)))
}
