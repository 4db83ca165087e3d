package main

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"runtime"
	"strings"
	"sync/atomic"

	"github.com/oov/psd/composite"

	"verif/psdgen"
	"verif/vk"
)

// --- M01

// caseHistory performs a random history of edits and renderings.
func caseHistory(c *vk.Ctx) {
	r := c.Rng
	d, data := genComp(c, psdgen.CompOpt{Many: true})
	tile := randTile(r, d)
	setProcs(r)
	t, err := open(data, tile)
	if err != nil {
		c.Fail("new", "New: %v (%v)", err, outline(d.Roots))
		return
	}
	ls := layersOf(t)
	if len(ls) == 0 {
		return
	}
	noteComp(c, d, "tile", tile)
	dest := image.NewNRGBA(t.CanvasRect)
	if err := t.Renderer.Render(bg, dest); err != nil {
		c.Fail("render", "Render: %v", err)
		return
	}
	var log []string
	fail := func(key, diff string) {
		c.Fail(key, "tile=%d %v: after %s: %s", tile, outline(d.Roots), strings.Join(log, "; "), diff)
	}
	check := func(key string, got *image.NRGBA, rect image.Rectangle) bool {
		want := fresh(c, data, tile, t)
		if want == nil {
			return false
		}
		c.Eval(rect.Dx() * rect.Dy())
		if s := diffImages(got, want, rect); s != "" {
			fail(key, s)
			return false
		}
		c.Distinct(data, tile, strings.Join(log, ";"), visible(want))
		return true
	}
	if !check("first", dest, t.CanvasRect) {
		return
	}
	steps := 4 + r.Intn(10)
	var focus []*composite.Layer
	for i := 0; i < steps; i++ {
		if len(focus) == 0 || r.Intn(4) == 0 {
			focus = nil
			for n := 1 + r.Intn(3); n > 0; n-- {
				focus = append(focus, pickLayer(r, ls))
			}
		}
		n := 1
		if r.Intn(4) == 0 {
			n += r.Intn(4)
		}
		var dirty []*composite.Layer
		for ; n > 0; n-- {
			l := focus[r.Intn(len(focus))]
			log = append(log, editAny(r, d, l))
			if r.Intn(2) == 0 {
				t.Renderer.SetDirtyByLayer(l)
			} else {
				dirty = append(dirty, l)
			}
		}
		r.Shuffle(len(dirty), func(i, j int) { dirty[i], dirty[j] = dirty[j], dirty[i] })
		for _, l := range dirty {
			t.Renderer.SetDirtyByLayer(l)
		}
		c.Count("edits", 1)
		switch r.Intn(10) {
		case 0: // an interrupted rendering has no effect on later ones
			log = append(log, "canceled")
			ctx := newStepCtx(r.Intn(3))
			ctx.spin = r.Intn(3) * r.Intn(300)
			work := dest
			if r.Intn(2) == 0 {
				// what it has drawn is thrown away.
				work = image.NewNRGBA(dest.Rect)
				copy(work.Pix, dest.Pix)
			}
			var err error
			if r.Intn(4) == 0 {
				err = t.Renderer.Render(ctx, work)
			} else {
				err = t.Renderer.RenderDiff(ctx, work)
			}
			if err != nil && err != composite.ErrAborted {
				fail("cancel error", err.Error())
				return
			}
			c.Count("canceled", 1)
			if err == nil {
				dest = work
				if !check("diff", dest, t.CanvasRect) {
					return
				}
			} else {
				if work != dest {
					c.Count("canceled and thrown away", 1)
				}
				if !bytes.Equal(work.Pix, dest.Pix) {
					c.Count("canceled in the middle", 1)
				}
				if r.Intn(4) == 0 {
					break
				}
			}
			fallthrough
		case 1, 2, 3, 4, 5:
			log = append(log, "diff")
			before := append([]byte(nil), dest.Pix...)
			if err := t.Renderer.RenderDiff(bg, dest); err != nil {
				fail("render", err.Error())
				return
			}
			if !check("diff", dest, t.CanvasRect) {
				return
			}
			c.Count("diffs", 1)
			if bytes.Equal(before, dest.Pix) {
				c.Count("diffs without a change", 1)
			}
		case 6, 7:
			log = append(log, "render")
			// Render must not depend on what dest had.
			dest = garbage(r, t.CanvasRect)
			clearOutside(dest, t.Rect)
			if err := t.Renderer.Render(bg, dest); err != nil {
				fail("render", err.Error())
				return
			}
			if !check("render", dest, t.CanvasRect) {
				return
			}
		case 8: // go on with a clone
			log = append(log, "clone")
			t = t.Clone()
			ls, focus = layersOf(t), nil
			// all places are changed for the new renderer.
			if err := t.Renderer.RenderDiff(bg, dest); err != nil {
				fail("render", err.Error())
				return
			}
			if !check("clone diff", dest, t.CanvasRect) {
				return
			}
		case 9: // render later
			c.Count("accumulated", 1)
		}
	}
}

// clearOutside clears pixels that have no layers at all.
func clearOutside(m *image.NRGBA, rect image.Rectangle) {
	for y := m.Rect.Min.Y; y < m.Rect.Max.Y; y++ {
		for x := m.Rect.Min.X; x < m.Rect.Max.X; x++ {
			if !image.Pt(x, y).In(rect) {
				i := m.PixOffset(x, y)
				m.Pix[i], m.Pix[i+1], m.Pix[i+2], m.Pix[i+3] = 0, 0, 0, 0
			}
		}
	}
}

// --- M02

func caseReference(c *vk.Ctx) {
	r := c.Rng
	d, data := genComp(c, psdgen.CompOpt{NoClbl: true, Empty: true, Long: true, Many: true})
	var want *image.NRGBA
	var ref *refTree
	var first *composite.Tree
	var log []string
	for i := 0; i < 3; i++ {
		tile, procs := randTile(r, d), setProcs(r)
		t, err := open(data, tile)
		if err != nil {
			c.Fail("new", "New: %v (%v)", err, outline(d.Roots))
			return
		}
		if want == nil {
			first = t
			noteComp(c, d)
			ls := layersOf(t)
			for n := r.Intn(4); n > 0 && len(ls) > 0; n-- {
				log = append(log, edit(r, d, ls[r.Intn(len(ls))]))
			}
			ref = newRef(d, t.CanvasRect)
			want = ref.render(&t.Root)
		} else {
			copyState(t, first)
		}
		if t.CanvasRect != image.Rect(0, 0, d.W, d.H) {
			c.Fail("canvas rect", "CanvasRect is %v, the image is %dx%d", t.CanvasRect, d.W, d.H)
			return
		}
		if !t.Rect.In(t.CanvasRect) {
			c.Fail("rect", "Rect %v is not in CanvasRect %v", t.Rect, t.CanvasRect)
			return
		}
		dest, rect := randDest(c, t)
		if err := t.Renderer.Render(bg, dest); err != nil {
			c.Fail("render", "Render: %v", err)
			return
		}
		c.Eval(rect.Dx() * rect.Dy())
		if s := diffImages(dest, want, rect); s != "" {
			c.Fail("pixels", "tile=%d procs=%d dest=%v rect=%v %v %s: %s", tile, procs, dest.Rect, t.Rect, outline(d.Roots), strings.Join(log, ";"), s)
			return
		}
		if v := visible(want); v > 0 {
			c.Distinct(data, tile, procs, strings.Join(log, ";"), dest.Rect)
			c.Count("visible pixels", v)
		} else {
			c.Count("empty images", 1)
		}
	}
}

// randDest returns an image and the area to compare.
func randDest(c *vk.Ctx, t *composite.Tree) (*image.NRGBA, image.Rectangle) {
	r := c.Rng
	cr := t.CanvasRect
	rect := cr
	switch r.Intn(4) {
	case 0: // larger
		rect = image.Rect(cr.Min.X-r.Intn(20), cr.Min.Y-r.Intn(20), cr.Max.X+r.Intn(20), cr.Max.Y+r.Intn(20))
	case 1: // a part
		x, y := cr.Min.X+r.Intn(cr.Dx()), cr.Min.Y+r.Intn(cr.Dy())
		rect = image.Rect(x, y, x+1+r.Intn(cr.Dx()), y+1+r.Intn(cr.Dy()))
	}
	var m *image.NRGBA
	if r.Intn(3) == 0 { // a sub image
		m = image.NewNRGBA(rect.Inset(-1 - r.Intn(5))).SubImage(rect).(*image.NRGBA)
	} else {
		m = image.NewNRGBA(rect)
	}
	if r.Intn(2) == 0 {
		for y := rect.Min.Y; y < rect.Max.Y; y++ {
			r.Read(m.Pix[m.PixOffset(rect.Min.X, y):][:rect.Dx()*4])
		}
		clearOutside(m, t.Rect)
	}
	return m, rect.Intersect(cr)
}

// stepCtx is canceled when Done is called for the n+1th time.
type stepCtx struct {
	context.Context
	cancel func()
	n      atomic.Int32
	spin   int // it yields before that
}

func newStepCtx(n int) *stepCtx {
	ctx, cancel := context.WithCancel(bg)
	s := &stepCtx{Context: ctx, cancel: cancel}
	s.n.Store(int32(n))
	return s
}

func (s *stepCtx) Done() <-chan struct{} {
	if s.n.Add(-1) < 0 {
		for i := 0; i < s.spin; i++ {
			runtime.Gosched()
		}
		s.cancel()
	}
	return s.Context.Done()
}

var _ = fmt.Sprint
