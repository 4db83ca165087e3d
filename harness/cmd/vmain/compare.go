package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"math"
	"math/rand"

	"github.com/oov/psd"

	"verif/psdgen"
)

// Aspects of the comparison.
const (
	aConfig = 1 << iota
	aMerged
	aRecords
	aLayerPixels
	aNoLayerImage // layers have no image
	aNoMerged
)

func closeTo(c color.Color, want [4]float64, tol float64) bool {
	r, g, b, a := c.RGBA()
	for i, v := range []uint32{r, g, b, a} {
		if math.Abs(float64(v)-want[i]) > tol {
			return false
		}
	}
	return true
}

func rgbaStr(c color.Color) string {
	r, g, b, a := c.RGBA()
	return fmt.Sprintf("%T(%d,%d,%d,%d)", c, r, g, b, a)
}

func compareConfig(d *psdgen.Doc, c *psd.Config) error {
	v := 1
	if d.PSB {
		v = 2
	}
	if c.Version != v || c.PSB() != d.PSB {
		return fmt.Errorf("version %d", c.Version)
	}
	if c.Rect != image.Rect(0, 0, d.W, d.H) {
		return fmt.Errorf("rect %v", c.Rect)
	}
	if c.Channels != d.Channels || c.Depth != d.Depth || int(c.ColorMode) != d.Mode {
		return fmt.Errorf("channels %d depth %d mode %d", c.Channels, c.Depth, c.ColorMode)
	}
	if !bytes.Equal(c.ColorModeData, d.ColorModeData) {
		return fmt.Errorf("color mode data differs")
	}
	if len(c.Res) != len(d.Res) {
		return fmt.Errorf("%d image resources, want %d", len(c.Res), len(d.Res))
	}
	for _, rs := range d.Res {
		g, ok := c.Res[rs.ID]
		if !ok {
			return fmt.Errorf("image resource %#x is lost", rs.ID)
		}
		if g.Name != string(rs.Name) {
			return fmt.Errorf("image resource %#x name %q want %q", rs.ID, g.Name, rs.Name)
		}
		if !bytes.Equal(g.Data, rs.Data) {
			return fmt.Errorf("image resource %#x data differs", rs.ID)
		}
	}
	pal := c.Palette()
	if d.Mode != psdgen.Indexed {
		if pal != nil {
			return fmt.Errorf("palette for color mode %d", d.Mode)
		}
		return nil
	}
	if len(pal) != 256 {
		return fmt.Errorf("palette has %d colors", len(pal))
	}
	t := d.TransparentIndex()
	for i := range pal {
		want := [4]float64{float64(d.ColorModeData[i]) * 257, float64(d.ColorModeData[i+256]) * 257, float64(d.ColorModeData[i+512]) * 257, 65535}
		if i == t {
			want = [4]float64{}
		}
		if !closeTo(pal[i], want, 0) {
			return fmt.Errorf("palette[%d] %s want %v", i, rgbaStr(pal[i]), want)
		}
	}
	return nil
}

// comparePicker compares all pixels.
func comparePicker(what string, pk image.Image, rect image.Rectangle, want func(x, y int) [4]float64) error {
	if pk == nil {
		return fmt.Errorf("%s: no picker", what)
	}
	if pk.Bounds() != rect {
		return fmt.Errorf("%s: bounds %v want %v", what, pk.Bounds(), rect)
	}
	m := pk.ColorModel()
	for y := rect.Min.Y; y < rect.Max.Y; y++ {
		for x := rect.Min.X; x < rect.Max.X; x++ {
			c := pk.At(x, y)
			w := want(x-rect.Min.X, y-rect.Min.Y)
			if !closeTo(c, w, 4.1) {
				return fmt.Errorf("%s: (%d,%d) %s want %.1f", what, x, y, rgbaStr(c), w)
			}
			if (x^y)&3 == 0 {
				if cc := m.Convert(c); !sameColor(cc, c) {
					return fmt.Errorf("%s: (%d,%d) %s is not a color of its color model: %s", what, x, y, rgbaStr(c), rgbaStr(cc))
				}
			}
		}
	}
	return nil
}

func sameColor(a, b color.Color) bool {
	r, g, bb, aa := a.RGBA()
	r2, g2, b2, a2 := b.RGBA()
	return r == r2 && g == g2 && bb == b2 && aa == a2
}

func compareMerged(d *psdgen.Doc, p *psd.PSD) error {
	if !bytes.Equal(p.Data, bytes.Join(d.Merged, nil)) {
		return fmt.Errorf("merged data differs: %s", diffAt(p.Data, bytes.Join(d.Merged, nil)))
	}
	if len(p.Channel) != d.Channels {
		return fmt.Errorf("merged: %d channels want %d", len(p.Channel), d.Channels)
	}
	rect := image.Rect(0, 0, d.W, d.H)
	for i, pl := range d.Merged {
		ch, ok := p.Channel[i]
		if !ok {
			return fmt.Errorf("merged: no channel %d", i)
		}
		if !bytes.Equal(ch.Data, pl) {
			return fmt.Errorf("merged: channel %d differs: %s", i, diffAt(ch.Data, pl))
		}
		if err := comparePicker(fmt.Sprintf("merged channel %d", i), ch.Picker, rect, func(x, y int) [4]float64 {
			return psdgen.GrayRGBA(pl, d.W, d.Depth, x, y)
		}); err != nil {
			return err
		}
	}
	ti, ha := d.TransparentIndex(), d.HasAlpha()
	return comparePicker("merged", p.Picker, rect, func(x, y int) [4]float64 {
		return psdgen.PixelRGBA(d.Mode, d.Depth, d.W, d.Merged, ha, d.ColorModeData, ti, x, y)
	})
}

func diffAt(a, b []byte) string {
	if len(a) != len(b) {
		return fmt.Sprintf("length %d want %d", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("[%d] = %#x want %#x", i, a[i], b[i])
		}
	}
	return "same"
}

func compareMask(l *psdgen.Layer, m *psd.Mask) error {
	w := &l.Mask
	if w.Len < 0 || w.Short > 0 {
		if m.Rect != (image.Rectangle{}) || m.RealRect != (image.Rectangle{}) {
			return fmt.Errorf("mask %+v for the layer that has no mask", *m)
		}
		return nil
	}
	if m.Rect != w.Rect || m.DefaultColor != w.Default || m.Flags != w.Flags {
		return fmt.Errorf("mask %+v want %+v", *m, *w)
	}
	if m.Enabled() != (w.Flags&2 == 0) {
		return fmt.Errorf("mask enabled %v flags %d", m.Enabled(), w.Flags)
	}
	if w.Wild {
		return nil
	}
	ud, vd, uf, vf := 255, 255, 0.0, 0.0
	if w.Param >= 0 {
		if w.Param&1 != 0 {
			ud = w.UserDensity
		}
		if w.Param&2 != 0 {
			uf = w.UserFeather
		}
		if w.Param&4 != 0 {
			vd = w.VectorDensity
		}
		if w.Param&8 != 0 {
			vf = w.VectorFeather
		}
	}
	if m.UserMaskDensity != ud || m.VectorMaskDensity != vd || !sameFloat(m.UserMaskFeather, uf) || !sameFloat(m.VectorMaskFeather, vf) {
		return fmt.Errorf("mask parameters %+v want %+v", *m, *w)
	}
	if w.Real {
		if m.RealFlags != w.RealFlags || m.RealBackgroundColor != w.RealBG || m.RealRect != w.RealRect || m.RealEnabled() != (w.RealFlags&2 == 0) {
			return fmt.Errorf("real mask %+v want %+v", *m, *w)
		}
	} else if m.RealRect != (image.Rectangle{}) {
		return fmt.Errorf("real mask %+v want none", *m)
	}
	return nil
}

// blendNames are names of blend modes in Compositing and Blending Level 1, and similar names of others.
var blendNames = map[string]string{
	"pass": "pass-through", "norm": "normal", "diss": "dissolve", "dark": "darken", "mul ": "multiply", "idiv": "color-burn",
	"lbrn": "linear-burn", "dkCl": "darker-color", "lite": "lighten", "scrn": "screen", "div ": "color-dodge",
	"lddg": "linear-dodge", "lgCl": "lighter-color", "over": "overlay", "sLit": "soft-light", "hLit": "hard-light",
	"vLit": "vivid-light", "lLit": "linear-light", "pLit": "pin-light", "hMix": "hard-mix", "diff": "difference",
	"smud": "exclusion", "fsub": "subtract", "fdiv": "divide", "hue ": "hue", "sat ": "saturation", "colr": "color", "lum ": "luminosity",
}

func compareRecord(l *psdgen.Layer, g *psd.Layer) error {
	if g.SeqID != l.SeqID {
		return fmt.Errorf("SeqID %d want %d", g.SeqID, l.SeqID)
	}
	if g.Name != l.Name() || g.String() != l.Name() || g.MBCSName != string(l.Pascal) || g.UnicodeName != l.Luni {
		return fmt.Errorf("name %q unicode %q mbcs %q want %q %q %q", g.Name, g.UnicodeName, g.MBCSName, l.Name(), l.Luni, l.Pascal)
	}
	if g.Rect != l.Rect {
		return fmt.Errorf("rect %v want %v", g.Rect, l.Rect)
	}
	if string(g.BlendMode) != l.Blend || g.Opacity != l.Opacity || g.Clipping != l.Clipping || g.Flags != l.Flags {
		return fmt.Errorf("blend mode %q opacity %d clipping %v flags %d want %q %d %v %d", string(g.BlendMode), g.Opacity, g.Clipping, g.Flags, l.Blend, l.Opacity, l.Clipping, l.Flags)
	}
	if w := blendNames[l.Blend]; g.BlendMode.String() != w {
		return fmt.Errorf("the name of the blend mode %q is %q want %q", l.Blend, g.BlendMode.String(), w)
	}
	if g.Visible() != (l.Flags&2 == 0) || g.TransparencyProtected() != (l.Flags&1 != 0) {
		return fmt.Errorf("visible %v protected %v flags %d", g.Visible(), g.TransparencyProtected(), l.Flags)
	}
	if w := !l.ClblSet || l.Clbl; g.BlendClippedElements != w {
		return fmt.Errorf("BlendClippedElements %v want %v", g.BlendClippedElements, w)
	}
	s := g.SectionDividerSetting
	if s.Type != l.SectType || string(s.BlendMode) != l.SectBM || s.SubType != l.SectSub {
		return fmt.Errorf("section divider %+v want %d %q %d", s, l.SectType, l.SectBM, l.SectSub)
	}
	if g.Folder() != l.Folder || g.FolderIsOpen() != (l.SectType == 1) || g.HasImage() == l.Folder {
		return fmt.Errorf("folder %v open %v image %v want %v", g.Folder(), g.FolderIsOpen(), g.HasImage(), l.Folder)
	}
	if err := compareMask(l, &g.Mask); err != nil {
		return err
	}
	n := 0
	for _, kv := range l.Infos {
		switch kv.Key {
		case "luni", "clbl", "lsct", "lsdk":
			continue
		}
		n++
		v, ok := g.AdditionalLayerInfo[psd.AdditionalInfoKey(kv.Key)]
		if !ok {
			return fmt.Errorf("additional info %q is lost", kv.Key)
		}
		if !bytes.Equal(v, kv.Data) {
			return fmt.Errorf("additional info %q differs", kv.Key)
		}
	}
	for k := range g.AdditionalLayerInfo {
		switch string(k) {
		case "luni", "clbl", "lsct", "lsdk":
		default:
			n--
		}
	}
	if n != 0 {
		return fmt.Errorf("additional info has %d extra keys", -n)
	}
	return nil
}

func compareLayerPixels(d *psdgen.Doc, l *psdgen.Layer, g *psd.Layer) error {
	if len(g.Channel) != len(l.Chans) {
		return fmt.Errorf("%d channels want %d", len(g.Channel), len(l.Chans))
	}
	base := psdgen.BaseChannels(d.Mode)
	w, h := l.Rect.Dx(), l.Rect.Dy()
	planes := make([][]byte, base)
	var alpha []byte
	hasAlpha := false
	for _, c := range l.Chans {
		ch, ok := g.Channel[c.ID]
		if !ok {
			return fmt.Errorf("no channel %d", c.ID)
		}
		rect := c.Rect
		if !bytes.Equal(ch.Data, c.Data) {
			return fmt.Errorf("channel %d (%v comp %d) differs: %s", c.ID, rect, c.Comp, diffAt(ch.Data, c.Data))
		}
		if err := comparePicker(fmt.Sprintf("channel %d", c.ID), ch.Picker, rect, func(x, y int) [4]float64 {
			return psdgen.GrayRGBA(c.Data, rect.Dx(), d.Depth, x, y)
		}); err != nil {
			return err
		}
		switch {
		case c.ID >= 0 && c.ID < base:
			planes[c.ID] = c.Data
		case c.ID == -1:
			alpha, hasAlpha = c.Data, true
		}
	}
	for i := range planes {
		if planes[i] == nil {
			planes[i] = make([]byte, psdgen.RowBytes(w, d.Depth)*h)
		}
	}
	if hasAlpha {
		planes = append(planes, alpha)
	}
	return comparePicker("layer", g.Picker, l.Rect, func(x, y int) [4]float64 {
		return psdgen.PixelRGBA(d.Mode, d.Depth, w, planes, hasAlpha, nil, -1, x, y)
	})
}

// compareTree compares the tree in the order of the file.
func compareTree(d *psdgen.Doc, want []*psdgen.Layer, got []psd.Layer, aspects int, path string) error {
	if len(want) != len(got) {
		return fmt.Errorf("%s: %d layers want %d", path, len(got), len(want))
	}
	for i, l := range want {
		p := fmt.Sprintf("%s/%d", path, i)
		if aspects&aRecords != 0 {
			if err := compareRecord(l, &got[i]); err != nil {
				return fmt.Errorf("%s: %v", p, err)
			}
		}
		if aspects&aLayerPixels != 0 {
			if err := compareLayerPixels(d, l, &got[i]); err != nil {
				return fmt.Errorf("%s: %v", p, err)
			}
		}
		if aspects&aNoLayerImage != 0 && (got[i].Picker != nil || len(got[i].Channel) != 0) {
			return fmt.Errorf("%s: image of the layer was loaded", p)
		}
		if err := compareTree(d, l.Children, got[i].Layer, aspects, p); err != nil {
			return err
		}
	}
	return nil
}

func compareGlobalInfo(d *psdgen.Doc, p *psd.PSD) error {
	want := map[string][]byte{}
	if d.HasAdditional {
		for _, kv := range d.Infos {
			want[kv.Key] = kv.Data
		}
	}
	if len(p.AdditinalLayerInfo) != len(want) {
		return fmt.Errorf("%d global additional infos, want %d", len(p.AdditinalLayerInfo), len(want))
	}
	for k, v := range want {
		if g, ok := p.AdditinalLayerInfo[psd.AdditionalInfoKey(k)]; !ok || !bytes.Equal(g, v) {
			return fmt.Errorf("global additional info %q differs", k)
		}
	}
	return nil
}

// compareDoc compares what was decoded with the model.
func compareDoc(d *psdgen.Doc, p *psd.PSD, aspects int) error {
	if p == nil {
		return fmt.Errorf("nil without an error")
	}
	if aspects&aConfig != 0 {
		if err := compareConfig(d, &p.Config); err != nil {
			return fmt.Errorf("config: %v", err)
		}
	}
	if aspects&aMerged != 0 {
		if err := compareMerged(d, p); err != nil {
			return err
		}
	}
	if aspects&aNoMerged != 0 && (p.Picker != nil || len(p.Data) != 0 || len(p.Channel) != 0) {
		return fmt.Errorf("merged image was loaded")
	}
	if aspects&aRecords != 0 {
		if err := compareGlobalInfo(d, p); err != nil {
			return err
		}
	}
	return compareTree(d, d.Roots, p.Layer, aspects, "")
}

func newRand(r *rand.Rand) *rand.Rand { return rand.New(rand.NewSource(r.Int63())) }
