package main

import (
	"bytes"
	"context"
	"fmt"
	"image"
	"math/rand"
	"runtime"
	"strings"

	"golang.org/x/text/encoding"

	"github.com/oov/psd"
	"github.com/oov/psd/composite"

	"verif/psdgen"
	"verif/vk"
)

var bg = context.Background()

func genComp(c *vk.Ctx, o psdgen.CompOpt) (*psdgen.Doc, []byte) {
	d := psdgen.RandComp(c.Rng, o)
	return d, psdgen.Encode(d, c.Rng).Bytes
}

func noteComp(c *vk.Ctx, d *psdgen.Doc, extra ...interface{}) {
	leaves, folders, clips, masks, passes := 0, 0, 0, 0, 0
	for _, l := range d.Flat {
		switch {
		case l.Folder:
			folders++
			if l.SectBM == "pass" {
				passes++
			}
		case l.SectType == 0:
			leaves++
		}
		if l.Clipping {
			clips++
		}
		if l.Mask.Len > 0 {
			masks++
		}
	}
	if len(d.Flat) >= 100 {
		c.Count("documents of 100 layers and more", 1)
	}
	if d.W > 1000 || d.H > 1000 {
		c.Count("long documents", 1)
	}
	c.Count("layers", leaves)
	c.Count("folders", folders)
	c.Count("clipping layers", clips)
	c.Count("masks", masks)
	c.Count("pass-through folders", passes)
	c.Sample("%v tree=%s %v", d, outline(d.Roots), extra)
}

func outline(ns []*psdgen.Layer) string {
	var sb strings.Builder
	for i, l := range ns {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%d:", l.SeqID)
		if l.Clipping {
			sb.WriteByte('^')
		}
		if l.Flags&2 != 0 {
			sb.WriteByte('!')
		}
		bm := l.Blend
		if l.Folder {
			bm = l.SectBM
		}
		fmt.Fprintf(&sb, "%s/%d", strings.TrimSpace(bm), l.Opacity)
		if l.Mask.Len > 0 {
			fmt.Fprintf(&sb, " m%v=%d,%d", l.Mask.Rect, l.Mask.Default, l.Mask.Flags)
		}
		if l.Folder {
			sb.WriteString("{" + outline(l.Children) + "}")
		} else {
			fmt.Fprintf(&sb, " %v", l.Rect)
		}
	}
	return sb.String()
}

var tileSizes = []int{0, 1, 3, 7, 8, 10, 16, 17, 31, 32, 33, 50, 64, 100, 256}

func randTile(r *rand.Rand, d *psdgen.Doc) int {
	n := tileSizes[r.Intn(len(tileSizes))]
	if n > 0 && n < 7 && (d.W > 40 || d.H > 40 || big(d)) {
		n = 11
	}
	return n
}

func big(d *psdgen.Doc) bool {
	for _, l := range d.Flat {
		if l.Rect.Dx()*l.Rect.Dy() > 3000 {
			return true
		}
	}
	return false
}

func open(data []byte, tile int) (*composite.Tree, error) {
	return composite.New(bg, bytes.NewReader(data), &composite.Options{TileSize: tile})
}

// setProcs changes GOMAXPROCS and returns the value.
func setProcs(r *rand.Rand) int {
	n := []int{1, 2, 3, 4, 5, 8, 16}[r.Intn(7)]
	if r.Intn(12) == 0 {
		n = []int{32, 64, 100}[r.Intn(3)]
	}
	runtime.GOMAXPROCS(n)
	return n
}

// walk calls f with all layers except the root.
func walk(root *composite.Layer, f func(l *composite.Layer)) {
	for i := range root.Children {
		f(&root.Children[i])
		walk(&root.Children[i], f)
	}
}

func layersOf(t *composite.Tree) []*composite.Layer {
	var ls []*composite.Layer
	walk(&t.Root, func(l *composite.Layer) { ls = append(ls, l) })
	return ls
}

// copyState copies what can be edited.
func copyState(dst, src *composite.Tree) {
	m := map[int]*composite.Layer{}
	walk(&src.Root, func(l *composite.Layer) { m[l.SeqID] = l })
	walk(&dst.Root, func(l *composite.Layer) {
		s := m[l.SeqID]
		l.Visible, l.Opacity, l.BlendMode, l.MaskEnabled = s.Visible, s.Opacity, s.BlendMode, s.MaskEnabled
		l.BlendClippedElements, l.MaskDefaultColor = s.BlendClippedElements, s.MaskDefaultColor
	})
}

// editAny makes a random change of the layer, including those that M02 says nothing about.
func editAny(r *rand.Rand, d *psdgen.Doc, l *composite.Layer) string {
	switch k := r.Intn(20); {
	case k == 0 && len(l.Clip) > 0 || k < 3 && len(l.Clip) > 0 && !l.BlendClippedElements:
		l.BlendClippedElements = !l.BlendClippedElements
		return fmt.Sprintf("%d.clbl=%v", l.SeqID, l.BlendClippedElements)
	case k == 3 && l.MaskEnabled:
		l.MaskDefaultColor = 255 - l.MaskDefaultColor
		return fmt.Sprintf("%d.mask=%d", l.SeqID, l.MaskDefaultColor)
	}
	return edit(r, d, l)
}

// edit makes a random change of the layer and returns the description.
func edit(r *rand.Rand, d *psdgen.Doc, l *composite.Layer) string {
	k := r.Intn(8)
	switch {
	case !l.Visible && r.Intn(2) == 0:
		k = 0
	case l.Opacity == 0 && r.Intn(2) == 0:
		k = 3
	}
	switch k {
	case 0, 1:
		l.Visible = !l.Visible
		return fmt.Sprintf("%d.visible=%v", l.SeqID, l.Visible)
	case 3, 4:
		l.Opacity = r.Intn(256)
		switch r.Intn(16) {
		case 0, 1:
			l.Opacity = 0
		case 2, 3:
			l.Opacity = 255
		case 4:
			l.Opacity = 1
		}
		return fmt.Sprintf("%d.opacity=%d", l.SeqID, l.Opacity)
	case 5:
		if d.Flat[l.SeqID].Mask.Len > 0 && !d.Flat[l.SeqID].Mask.Rect.Empty() {
			l.MaskEnabled = !l.MaskEnabled
			return fmt.Sprintf("%d.mask=%v", l.SeqID, l.MaskEnabled)
		}
	}
	keys := psdgen.BlendKeys
	if !l.Folder {
		keys = keys[1:] // pass-through is for folders
	} else if r.Intn(2) == 0 {
		keys = keys[:2]
	}
	l.BlendMode = psd.BlendMode(keys[r.Intn(len(keys))])
	return fmt.Sprintf("%d.blend=%s", l.SeqID, string(l.BlendMode))
}

func garbage(r *rand.Rand, rect image.Rectangle) *image.NRGBA {
	m := image.NewNRGBA(rect)
	r.Read(m.Pix)
	return m
}

// diffImages returns a description of the first difference in rect.
func diffImages(got, want *image.NRGBA, rect image.Rectangle) string {
	n := 0
	first := ""
	for y := rect.Min.Y; y < rect.Max.Y; y++ {
		for x := rect.Min.X; x < rect.Max.X; x++ {
			g, w := got.Pix[got.PixOffset(x, y):][:4], want.Pix[want.PixOffset(x, y):][:4]
			if g[3] == 0 && w[3] == 0 || bytes.Equal(g, w) {
				continue
			}
			if n == 0 {
				first = fmt.Sprintf("(%d,%d): got %v want %v", x, y, g, w)
			}
			n++
		}
	}
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("%s (%d pixels in %v)", first, n, rect)
}

func visible(m *image.NRGBA) int {
	n := 0
	for i := 3; i < len(m.Pix); i += 4 {
		if m.Pix[i] != 0 {
			n++
		}
	}
	return n
}

func fresh(c *vk.Ctx, data []byte, tile int, state *composite.Tree) *image.NRGBA {
	t, err := open(data, tile)
	if err != nil {
		c.Fail("new", "New: %v", err)
		return nil
	}
	copyState(t, state)
	m := image.NewNRGBA(t.CanvasRect)
	if err := t.Renderer.Render(bg, m); err != nil {
		c.Fail("render", "Render: %v", err)
		return nil
	}
	return m
}

var _ encoding.Encoding

// shown returns whether l and all of its ancestors are visible.
func shown(l *composite.Layer) bool {
	for ; l.Parent != nil; l = l.Parent {
		if !l.Visible || l.Opacity == 0 {
			return false
		}
		if l.Clipping {
			if l.ClippedBy == nil || !l.ClippedBy.Visible || l.ClippedBy.Opacity == 0 {
				return false
			}
		}
	}
	return true
}

// pickLayer chooses a layer to edit. It prefers ones that have an effect.
func pickLayer(r *rand.Rand, ls []*composite.Layer) *composite.Layer {
	l := ls[r.Intn(len(ls))]
	for i := 0; i < 6 && (len(l.Children) == 0 && l.Folder || !shown(l)); i++ {
		l = ls[r.Intn(len(ls))]
	}
	for r.Intn(3) == 0 && l.Parent.Parent != nil {
		l = l.Parent
	}
	if l.Clipping && l.ClippedBy != nil && r.Intn(4) == 0 {
		l = l.ClippedBy
	}
	return l
}

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }
