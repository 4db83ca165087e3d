package psdgen

import (
	"image"
	"math/rand"
)

// CompOpt controls RandComp.
type CompOpt struct {
	MaxDim    int // default 70
	MaxLayers int // default 8
	// Binary limits alpha channels and masks to 0 and 255.
	Binary bool
	// Blends are the keys to choose from. Default is BlendKeys.
	Blends []string
	// NoClbl prohibits clbl=0.
	NoClbl bool
	// Flat fills each of layers with a color.
	Flat     bool
	NoFolder bool
	// Visible makes all layers visible, without opacity.
	Visible        bool
	NoMask, NoClip bool
	// Near keeps the coordinates of layers far from the limit of 32 bits.
	Near bool
	// Empty allows documents without layers.
	Empty bool
	// Long makes some of documents long and narrow.
	Long bool
	// Many makes some of documents have hundreds of layers.
	Many bool

	many, deep, clips bool
}

// RandComp returns a random document that the compositor supports.
func RandComp(r *rand.Rand, o CompOpt) *Doc {
	if o.MaxDim == 0 {
		o.MaxDim = 70
	}
	if o.MaxLayers == 0 {
		o.MaxLayers = 8
	}
	if o.Blends == nil {
		o.Blends = BlendKeys
	}
	d := &Doc{Level: 1, Mode: RGB, Depth: 8, Channels: 3, PSB: r.Intn(5) == 0}
	d.W, d.H = 1+r.Intn(o.MaxDim), 1+r.Intn(o.MaxDim)
	budget := 1 + r.Intn(o.MaxLayers)
	switch k := r.Intn(300); {
	case o.Long && k < 3:
		d.W = 2000 + r.Intn(2000<<uint(r.Intn(6)))
		d.H = 1 + r.Intn(3)
		if r.Intn(2) == 0 {
			d.W, d.H = d.H, d.W
		}
		d.PSB = d.PSB || d.W > 30000 || d.H > 30000
		budget = 1 + r.Intn(3)
		o.Near = true
	case o.Many && k > 297:
		d.W, d.H = 1+r.Intn(6), 1+r.Intn(6)
		budget = 100 + r.Intn(300)
		o.many = true
		switch r.Intn(3) {
		case 0:
			o.deep = true
		case 1:
			o.clips = !o.NoClip
		}
	}
	d.MergedComp = Raw
	for i := 0; i < d.Channels; i++ {
		d.Merged = append(d.Merged, make([]byte, d.W*d.H))
	}
	if o.Empty && r.Intn(30) == 0 {
		budget = 0
	}
	d.Roots = compNodes(r, d, &o, &budget, 0)
	d.Reindex()
	return d
}

// Reindex rebuilds the file order.
func (d *Doc) Reindex() {
	d.Flat = flatten(d.Roots, nil)
	for i, l := range d.Flat {
		l.SeqID = i
	}
}

func compRect(r *rand.Rand, d *Doc, o *CompOpt) image.Rectangle {
	switch r.Intn(24) {
	case 0:
		return image.Rectangle{}
	case 1, 2, 5, 6, 7, 8:
		return image.Rect(0, 0, d.W, d.H)
	case 3: // far away
		x, y := r.Intn(5*d.W)-2*d.W-3, r.Intn(5*d.H)-2*d.H-3
		if r.Intn(8) == 0 {
			far := []int{-1<<31 + 70000, -1 << 30, -1<<16 - 1, 1 << 16, 1 << 24, 1<<31 - 1000}
			if o.Near {
				far = far[2:5]
			}
			k := r.Intn(3)
			if k != 0 {
				x += far[r.Intn(len(far))]
			}
			if k != 1 {
				y += far[r.Intn(len(far))]
			}
		}
		return image.Rect(x, y, x+1+r.Intn(d.W), y+1+r.Intn(d.H))
	case 4: // larger than the canvas
		m := 40
		if d.W > 1000 || d.H > 1000 {
			m = 3
		}
		return image.Rect(-r.Intn(m), -r.Intn(m), d.W+r.Intn(m), d.H+r.Intn(m))
	}
	x, y := r.Intn(d.W+8)-d.W/3-4, r.Intn(d.H+8)-d.H/3-4
	return image.Rect(x, y, x+1+d.W/3+r.Intn(d.W), y+1+d.H/3+r.Intn(d.H))
}

func binary(b []byte) {
	for i, v := range b {
		b[i] = 0
		if v >= 0x60 {
			b[i] = 255
		}
	}
}

func compPlane(r *rand.Rand, w, h int, alpha bool) []byte {
	b := RandPlane(r, w, h, 8)
	if !alpha || w*h == 0 {
		return b
	}
	switch r.Intn(5) {
	case 2, 3:
		for i := range b {
			if b[i] == 0 {
				b[i] = byte(r.Intn(256))
			}
		}
	case 0: // only a part is opaque
		x0, y0 := r.Intn(w), r.Intn(h)
		x1, y1 := x0+1+r.Intn(w-x0), y0+1+r.Intn(h-y0)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				if x < x0 || x >= x1 || y < y0 || y >= y1 {
					b[y*w+x] = 0
				}
			}
		}
	case 1: // a dot
		if r.Intn(3) > 0 {
			break
		}
		v := b[0] | 1
		for i := range b {
			b[i] = 0
		}
		b[r.Intn(len(b))] = v
	}
	return b
}

func compNodes(r *rand.Rand, d *Doc, o *CompOpt, budget *int, depth int) []*Layer {
	var ns []*Layer
	// clipping layers at the bottom have nothing to clip.
	orphans := false
	for *budget > 0 {
		if n := 5; len(ns) > 0 && depth > 0 {
			if o.many && !o.deep {
				n = 40
			}
			if r.Intn(n) == 0 {
				break
			}
		}
		*budget--
		l := &Layer{
			Blend:    o.Blends[r.Intn(len(o.Blends))],
			Opacity:  255,
			Clipping: !o.NoClip && (r.Intn(5) == 0 && len(ns) > 0 || r.Intn(25) == 0 || orphans && r.Intn(2) == 0),
		}
		if r.Intn(3) == 0 {
			l.Blend = "norm"
		}
		if !o.Visible {
			if r.Intn(5) < 2 {
				l.Opacity = uint8(r.Intn(256))
				switch r.Intn(20) {
				case 0, 1:
					l.Opacity = 0
				case 2:
					l.Opacity = 1
				case 3:
					l.Opacity = 254
				}
			}
			if r.Intn(10) == 0 {
				l.Flags |= 2
			}
		}
		orphans = l.Clipping && (orphans || len(ns) == 0)
		if o.clips && len(ns) > 0 && r.Intn(15) > 0 {
			l.Clipping = true
		}
		l.Folder = !o.NoFolder && (depth < 5 && r.Intn(3) == 0 || o.deep && r.Intn(20) > 0)
		l.Mask.Len = -1
		l.Mask.Param = -1
		compMask(r, d, o, l)
		l.SectBM = l.Blend
		if l.Folder {
			l.SectType = 1 + r.Intn(2)
			if r.Intn(2) == 0 {
				l.SectBM = "pass"
			}
			b := append([]byte{0, 0, 0, byte(l.SectType)}, "8BIM"+l.SectBM...)
			l.Infos = append(l.Infos, KV{Sig: "8BIM", Key: "lsct", Data: b})
			if r.Intn(12) == 0 {
				// pixels of a folder are not a part of the picture.
				compPixels(r, d, o, l)
			} else {
				for id := -1; id < 3; id++ {
					l.Chans = append(l.Chans, &Chan{ID: id, NoData: true})
				}
			}
			if r.Intn(7) > 0 || o.deep {
				l.Children = compNodes(r, d, o, budget, depth+1)
			}
		} else {
			compPixels(r, d, o, l)
		}
		if l.Mask.Len > 0 {
			c := &Chan{ID: -2, Rect: l.Mask.Rect, Comp: r.Intn(4)}
			c.Data = compPlane(r, c.Rect.Dx(), c.Rect.Dy(), true)
			if o.Binary {
				binary(c.Data)
			}
			l.Chans = append(l.Chans, c)
		}
		if r.Intn(3) == 0 {
			r.Shuffle(len(l.Chans), func(i, j int) { l.Chans[i], l.Chans[j] = l.Chans[j], l.Chans[i] })
		}
		compInfos(r, o, l)
		ns = append(ns, l)
	}
	return ns
}

func compMask(r *rand.Rand, d *Doc, o *CompOpt, l *Layer) {
	if o.NoMask || r.Intn(4) > 0 {
		return
	}
	m := &l.Mask
	m.Rect = compRect(r, d, o)
	m.Default = 255 * r.Intn(2)
	if r.Intn(5) == 0 {
		m.Flags = 2
	}
	m.Len = 20
}

func compPixels(r *rand.Rand, d *Doc, o *CompOpt, l *Layer) {
	l.Rect = compRect(r, d, o)
	ids := []int{0, 1, 2}
	if !o.Flat && r.Intn(3) > 0 {
		ids = append(ids, -1)
	}
	if !o.Flat && r.Intn(15) == 0 {
		ids = append(ids[:1], ids[2:]...)
	}
	if r.Intn(20) == 0 {
		// a channel that is not related to the color.
		ids = append(ids, 3)
	}
	w, h := l.Rect.Dx(), l.Rect.Dy()
	for _, id := range ids {
		c := &Chan{ID: id, Rect: l.Rect, Comp: r.Intn(4), Data: compPlane(r, w, h, id == -1)}
		if o.Binary && id == -1 {
			binary(c.Data)
		}
		if o.Flat {
			v := byte(r.Intn(256))
			for i := range c.Data {
				c.Data[i] = v
			}
		}
		l.Chans = append(l.Chans, c)
	}
}

func compInfos(r *rand.Rand, o *CompOpt, l *Layer) {
	l.Pascal = randBytes(r, r.Intn(12))
	if r.Intn(3) > 0 {
		l.HasLuni = true
		var b []byte
		l.Luni, b = luniBlock(r, false)
		l.Infos = append(l.Infos, KV{Sig: "8BIM", Key: "luni", Data: b})
	}
	if r.Intn(3) == 0 {
		l.ClblSet = true
		l.Clbl = o.NoClbl || r.Intn(2) == 0
		b := make([]byte, 4)
		if l.Clbl {
			b[0] = 1
		}
		l.Infos = append(l.Infos, KV{Sig: "8BIM", Key: "clbl", Data: b})
	}
}

// Plane returns the data of the channel, or nil.
func (l *Layer) Plane(id int) []byte {
	for _, c := range l.Chans {
		if c.ID == id && !c.NoData {
			return c.Data
		}
	}
	return nil
}

// DeepComp returns a document that takes time to render.
// The bottom is folders in folders, and they are covered by layers as large as the canvas.
func DeepComp(r *rand.Rand, w, h int) *Doc {
	d := &Doc{Level: 1, Mode: RGB, Depth: 8, Channels: 3, W: w, H: h, MergedComp: Raw}
	for i := 0; i < d.Channels; i++ {
		d.Merged = append(d.Merged, make([]byte, w*h))
	}
	o := &CompOpt{}
	full := image.Rect(0, 0, w, h)
	leaf := func(op int) *Layer {
		l := &Layer{Blend: BlendKeys[r.Intn(len(BlendKeys))], Opacity: uint8(op), Rect: full}
		l.Mask.Len, l.Mask.Param = -1, -1
		for id := -1; id < 3; id++ {
			b := make([]byte, w*h)
			if id == -1 {
				v := byte(90 + r.Intn(80))
				for i := range b {
					b[i] = v + byte(i&15)
				}
			} else {
				r.Read(b)
			}
			l.Chans = append(l.Chans, &Chan{ID: id, Rect: full, Comp: Raw, Data: b})
		}
		compInfos(r, o, l)
		return l
	}
	var folder func(n int) *Layer
	folder = func(n int) *Layer {
		l := &Layer{Blend: "norm", Opacity: 255, Folder: true, SectType: 1}
		l.Mask.Len, l.Mask.Param = -1, -1
		l.SectBM = l.Blend
		if r.Intn(2) == 0 {
			l.SectBM = "pass"
		}
		b := append([]byte{0, 0, 0, 1}, "8BIM"+l.SectBM...)
		l.Infos = append(l.Infos, KV{Sig: "8BIM", Key: "lsct", Data: b})
		for id := -1; id < 3; id++ {
			l.Chans = append(l.Chans, &Chan{ID: id, NoData: true})
		}
		l.Children = append(l.Children, leaf(200+r.Intn(56)))
		if n > 0 {
			l.Children = append(l.Children, folder(n-1))
		}
		if r.Intn(2) == 0 {
			l.Children = append(l.Children, leaf(100+r.Intn(80)))
		}
		return l
	}
	for n := 1 + r.Intn(2); n > 0; n-- {
		d.Roots = append(d.Roots, folder(r.Intn(3)))
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		d.Roots = append(d.Roots, leaf(100+r.Intn(80)))
	}
	d.Reindex()
	return d
}
