#!/usr/bin/env python3
"""bugs.py [ID...]: writes /verif/seeded/ID from the specifications below, after it was confirmed in a scratch copy.

Each of them is a change (FILE, EDITS) and a program that observes what the property says.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = "/verif/seeded"
BASE = "835850b"
B = []
def bug(id, prop, file, edits, needs, breaks, main, race=False, arch=""):
    B.append(dict(id=id, prop=prop, files=file if isinstance(file, list) else [(file, edits)], needs=needs, breaks=breaks, main=main, race=race, arch=arch))

PSDIMP = '''package main

import (
	"bytes"
	"image"
	"github.com/oov/psd"
)
var _ = image.Rect
'''
COMPIMP = '''package main

import (
	"bytes"
	"context"
	"image"

	"github.com/oov/psd/composite"
)

func load(d *doc) *composite.Tree {
	t, err := composite.New(context.Background(), bytes.NewReader(d.bytes()), nil)
	check(err)
	return t
}

func draw(t *composite.Tree) *image.NRGBA {
	im := image.NewNRGBA(t.CanvasRect)
	check(t.Renderer.Render(context.Background(), im))
	return im
}
'''

bug("p03-psb-long-keys", "P03", "psd.go", [('''			"FXid",
''', '')],
 "a PSB file with a block whose key is FXid", "the length of the block is read as 4 bytes, so the layer is not decoded as it is stored",
 PSDIMP + '''
func main() {
	l := plain("a", image.Rect(0, 0, 2, 2), solid(1, 2, 3, 4))
	l.infos = []info{{"FXid", []byte("filter effects")}, {"tail", []byte("12345678")}}
	d := rgbDoc(2, 2, l)
	d.psb = true
	p, _, err := psd.Decode(bytes.NewReader(d.bytes()), nil)
	check(err)
	for _, i := range l.infos {
		if got := string(p.Layer[0].AdditionalLayerInfo[psd.AdditionalInfoKey(i.key)]); got != string(i.data) {
			fail("%s is %q", i.key, got)
		}
	}
}
''')

bug("p03-surrogates", "P03", "util.go", [('''	buf := make([]uint16, ln)
''', '''	buf := make([]rune, ln)
'''), ('''		buf[i] = readUint16(b, 4+i<<1)
''', '''		buf[i] = rune(readUint16(b, 4+i<<1))
'''), ('''	return string(utf16.Decode(buf))
''', '''	return string(buf)
'''), ('''	"unicode/utf16"
''', '')],
 "a unicode layer name with a character outside of the basic plane", "surrogate pairs are not joined",
 PSDIMP + '''
func main() {
	l := plain("a", image.Rect(0, 0, 2, 2), solid(1, 2, 3, 4))
	l.infos = []info{{"luni", cat(u32(4), u16('x'), u16(0xd83d), u16(0xde00), u16('y'))}}
	p, _, err := psd.Decode(bytes.NewReader(rgbDoc(2, 2, l).bytes()), nil)
	check(err)
	if n := p.Layer[0].UnicodeName; n != "x\\U0001F600y" {
		fail("name is %q", n)
	}
}
''')

bug("p05-psb-long-rows", "P05", "compress_other.go", [('@	if large {', '''			lens[i] = l
''', '''			lens[i] = l & 0xffff
''')],
 "a row of a PSB file that takes more than 65535 bytes after PackBits compression", "the length of the row is truncated",
 '''package main

import (
	"bytes"
	"image"

	"github.com/oov/psd"
)

func main() {
	const w = 70000
	row := make([]byte, w)
	for i := range row {
		row[i] = byte(i * i >> 3)
	}
	var pack []byte
	for i := 0; i < w; i += 128 {
		e := i + 128
		if e > w {
			e = w
		}
		pack = append(append(pack, byte(e-i-1)), row[i:e]...)
	}
	b := cat(u32(len(pack)), u32(len(pack)), pack, pack)
	dest := make([]byte, w*2)
	n, err := psd.CompressionMethodRLE.Decode(dest, bytes.NewReader(b), int64(len(b)), image.Rect(0, 0, w, 2), 8, 1, true)
	if err != nil || n != len(b) || !bytes.Equal(dest, cat(row, row)) {
		fail("not restored: %v, %d of %d bytes", err, n, len(b))
	}
}
''')

bug("p08-short-name", "P08", "util.go", [('''	if _, err := io.ReadFull(r, buf); err != nil {
		return "", 1, err
	}
	return string(buf), len(buf) + 1, nil
''', '''	if n, err := r.Read(buf); n == 0 && err != nil {
		return "", 1, err
	}
	return string(buf), len(buf) + 1, nil
''')],
 "a reader that delivers only a part of a name at once", "the rest of the name is read as what follows it",
 PSDIMP + '''
type slow struct{ r *bytes.Reader }

func (s slow) Read(b []byte) (int, error) {
	if len(b) > 3 {
		b = b[:3]
	}
	return s.r.Read(b)
}

func main() {
	d := rgbDoc(2, 2, plain("a long name of the layer", image.Rect(0, 0, 2, 2), solid(1, 2, 3, 4)))
	p, _, err := psd.Decode(slow{bytes.NewReader(d.bytes())}, nil)
	check(err)
	if p.Layer[0].Name != "a long name of the layer" {
		fail("name is %q", p.Layer[0].Name)
	}
}
''')

bug("p09-shared-header", "P09", "imageres.go", [('''	b := make([]byte, 6)
''', '''	b := resourceHeader[:]
'''), ('''func readImageResource(''', '''var resourceHeader [6]byte

func readImageResource(''')],
 "two files that are decoded at the same time", "the headers of image resources are read to a memory that is shared",
 '''package main

import (
	"bytes"
	"sync"

	"github.com/oov/psd"
)

func main() {
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		d := rgbDoc(1, 1)
		for i := 0; i < 300; i++ {
			d.res = append(d.res, resource(1000+i*8+k, "", []byte{byte(k)})...)
		}
		b := d.bytes()
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for n := 0; n < 30; n++ {
				cfg, _, err := psd.DecodeConfig(bytes.NewReader(b))
				check(err)
				if len(cfg.Res) != 300 {
					fail("%d resources", len(cfg.Res))
				}
			}
		}(k)
	}
	wg.Wait()
}
''', race=True)

bug("p12-incomplete-layer", "P12", "layer.go", [('''		lci.Layer.Picker = pk
		lci.Layer.Channel = chMap
		if o.LayerImageLoaded != nil {
			o.LayerImageLoaded(lci.Layer, i, len(lcis))
		}
''', '''		lci.Layer.Picker = pk
		if o.LayerImageLoaded != nil {
			o.LayerImageLoaded(lci.Layer, i, len(lcis))
		}
		lci.Layer.Channel = chMap
''')],
 "a callback that uses channels of the layer", "the layer given to the callback does not have its channels yet",
 PSDIMP + '''
func main() {
	d := rgbDoc(2, 2, plain("a", image.Rect(0, 0, 2, 2), solid(1, 2, 3, 4)))
	n := 0
	_, _, err := psd.Decode(bytes.NewReader(d.bytes()), &psd.DecodeOptions{LayerImageLoaded: func(l *psd.Layer, i, total int) {
		n++
		if len(l.Channel) != 4 || len(l.Channel[1].Data) != 4 || l.Channel[1].Data[0] != 2 {
			fail("channels: %v", l.Channel)
		}
	}})
	check(err)
	if n != 1 {
		fail("%d calls", n)
	}
}
''')

bug("p13-hidden-error", "P13", "compress.go", [('''	if _, err = io.ReadFull(zr, dest); err != nil {
		zr.Close()
		return int(N - lr.N), err
	}
''', '''	if _, err = io.ReadFull(zr, dest); err != nil {
		zr.Close()
		return int(N - lr.N), errBrokenPackBits
	}
''')],
 "the reader fails in the middle of the data compressed by ZIP", "the error of the reader is replaced by one that says the file is broken",
 '''package main

import (
	"bytes"
	"compress/zlib"
	"errors"
	"image"
	"io"
	"testing/iotest"

	"github.com/oov/psd"
)

var errDevice = errors.New("device error")

func main() {
	im := make([]byte, 3*64*64)
	x := uint32(1)
	for i := range im {
		x = x*1664525 + 1013904223
		im[i] = byte(x >> 24)
	}
	var buf bytes.Buffer
	w := zlib.NewWriter(&buf)
	w.Write(im)
	w.Close()
	d := rgbDoc(64, 64)
	d.comp, d.data = 2, buf.Bytes()
	b := d.bytes()
	_ = image.Rect
	for _, n := range []int{len(b) - 10, len(b) - 6000, 10, 100} {
		r := io.MultiReader(bytes.NewReader(b[:len(b)-n]), iotest.ErrReader(errDevice))
		if _, _, err := psd.Decode(r, nil); !errors.Is(err, errDevice) {
			fail("%d bytes before the end: %v", n, err)
		}
	}
}
''')

bug("p10-short-zip", "P10", "compress.go", [('''	if _, err = io.ReadFull(zr, dest); err != nil {
		zr.Close()
''', '''	if _, err = io.ReadFull(zr, dest); err != nil && err != io.ErrUnexpectedEOF {
		zr.Close()
'''), ('''	if err = zr.Close(); err != nil {
''', '''	if err := zr.Close(); err != nil && err != io.ErrUnexpectedEOF {
''')],
 "a file that ends in the middle of the merged image compressed by ZIP", "the rest of the image is left black without an error",
 '''package main

import (
	"bytes"
	"compress/zlib"

	"github.com/oov/psd"
)

func main() {
	im := make([]byte, 3*64*64)
	x := uint32(1)
	for i := range im {
		x = x*1664525 + 1013904223
		im[i] = byte(x >> 24)
	}
	var buf bytes.Buffer
	w := zlib.NewWriter(&buf)
	w.Write(im)
	w.Close()
	d := rgbDoc(64, 64)
	d.comp, d.data = 2, buf.Bytes()
	b := d.bytes()
	p, _, err := psd.Decode(bytes.NewReader(b), nil)
	check(err)
	if !bytes.Equal(p.Data, im) {
		fail("pixels differ")
	}
	if _, _, err := psd.Decode(bytes.NewReader(b[:len(b)/2]), nil); err == nil {
		fail("a half of the file was accepted")
	}
}
''')

bug("p01-signature", "P01", "imageres.go", [(''' && sig != "AgHg" && sig != "DCSR" {''', ''' && sig != "AgHg" {''')],
 "a file with an image resource whose signature is DCSR", "the file is rejected",
 PSDIMP + '''
func main() {
	d := rgbDoc(1, 1)
	for i, s := range []string{"8BIM", "MeSa", "PHUT", "AgHg", "DCSR"} {
		r := resource(2000+i, s, []byte(s))
		copy(r, s)
		d.res = append(d.res, r...)
	}
	cfg, _, err := psd.DecodeConfig(bytes.NewReader(d.bytes()))
	check(err)
	if len(cfg.Res) != 5 || cfg.Res[2004].Name != "DCSR" {
		fail("%v", cfg.Res)
	}
}
''')

bug("p06-short-divider", "P06", "layer.go", [('''		typ = int(readUint32(b, 0))
		if len(b) < 12 {
			return typ, "", 0, nil
		}
		if string(b[4:8]) != sectionSignature {
			return 0, "", 0, errors.New("psd: unexpected signature in section divider setting 2")
''', '''		typ = int(readUint32(b, 0))
		if len(b) <= 4 {
			return typ, "", 0, nil
		}
		if string(b[4:8]) != sectionSignature {
			return 0, "", 0, errors.New("psd: unexpected signature in section divider setting 2")
''')],
 "a layer with a lsdk block of 5 to 11 bytes", "decoding panics",
 PSDIMP + '''
func main() {
	for n := 0; n < 20; n++ {
		l := plain("a", image.Rect(0, 0, 1, 1), solid(1, 2, 3, 4))
		l.infos = []info{{"lsdk", cat(u32(0), []byte("8BIMnorm"), make([]byte, 8))[:n]}}
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail("%d bytes: %v", n, e)
				}
			}()
			psd.Decode(bytes.NewReader(rgbDoc(1, 1, l).bytes()), nil)
		}()
	}
}
''')

bug("p14-extra-overrun", "P14", "layer.go", [('''	if extraDataLen+4 != read {
''', '''	if extraDataLen+4 > read {
''')],
 "a layer whose name goes beyond the end of its extra data", "the layer is accepted though the lengths contradict each other",
 PSDIMP + '''
func main() {
	l := plain("seven..", image.Rect(0, 0, 1, 1), solid(1, 2, 3, 4))
	b := rgbDoc(1, 1, l).bytes()
	i := bytes.Index(b, []byte("\\x07seven.."))
	// mask and blending ranges are empty, so the extra data is 4+4+8 bytes.
	b[i-9] = 12
	if p, _, err := psd.Decode(bytes.NewReader(b), nil); err == nil {
		fail("accepted: %q", p.Layer[0].Name)
	}
}
''')

bug("m01-nested-pass-through", "M01", "composite/renderer.go", [('''		if l2.BlendMode == psd.BlendModePassThrough {
			r.setDirtyByLayerPassThrough(l2, areaMap)
		}
	}
}
''', '''		if l2.BlendMode == psd.BlendModePassThrough && len(l2.Clip) > 0 {
			r.setDirtyByLayerPassThrough(l2, areaMap)
		}
	}
}
''')],
 "a pass-through folder in a pass-through folder over the layer that is edited after rendering", "the picture of the inner folder that has the old backdrop is used again",
 COMPIMP + '''
func main() {
	r := image.Rect(0, 0, 4, 4)
	mul := plain("top", image.Rect(0, 0, 4, 2), solid(128, 255, 255, 255))
	mul.blend = "mul "
	d := rgbDoc(4, 4,
		plain("bottom", r, solid(10, 20, 30, 255)),
		plain("edited", r, solid(200, 100, 50, 255)),
		folderEnd(), folderEnd(), mul, folder("inner", "pass"), folder("outer", "pass"))
	t := load(d)
	draw(t)
	l := &t.Root.Children[1]
	l.Visible = false
	t.Renderer.SetDirtyByLayer(l)
	got := draw(t)
	t2 := load(d)
	t2.Root.Children[1].Visible = false
	if want := draw(t2); !bytes.Equal(got.Pix, want.Pix) {
		fail("%v, it should be %v", got.At(0, 0), want.At(0, 0))
	}
}
''')

bug("m02-nested-opacity", "M02", "composite/renderer.go", [('''			a = opacity * 32897
''', '''			a = l.Opacity * 32897
''')],
 "a pass-through folder in a pass-through folder that is translucent", "the opacity of the outer folder is not applied to layers of the inner one",
 COMPIMP + '''
func main() {
	in, out := folder("inner", "pass"), folder("outer", "pass")
	out.opacity = 128
	r := image.Rect(0, 0, 4, 4)
	t := load(rgbDoc(4, 4, plain("bottom", r, solid(0, 0, 0, 255)), folderEnd(), folderEnd(), plain("top", r, solid(255, 255, 255, 255)), in, out))
	c := draw(t).NRGBAAt(1, 1)
	if c.R < 126 || c.R > 130 {
		fail("%v", c)
	}
}
''')

bug("m03-lost-dirty", "M03", "composite/renderer.go", [('''		for _, l := range r.deferedDirtyReq {
			r.setDirtyByLayer(l)
		}
''', '''		if n := len(r.deferedDirtyReq); n > 0 {
			// The last request is the newest state.
			r.setDirtyByLayer(r.deferedDirtyReq[n-1])
		}
''')],
 "two layers that are reported while a rendering is in progress", "only the last report takes effect",
 COMPIMP + '''
// hook is called while rendering is in progress.
type hook struct {
	context.Context
	f func()
}

func (h hook) Done() <-chan struct{} { h.f(); return nil }

func main() {
	d := rgbDoc(8, 8, plain("a", image.Rect(0, 0, 4, 8), solid(255, 0, 0, 255)), plain("b", image.Rect(4, 0, 8, 8), solid(0, 255, 0, 255)))
	t, err := composite.New(context.Background(), bytes.NewReader(d.bytes()), &composite.Options{TileSize: 4})
	check(err)
	draw(t)
	a, b := &t.Root.Children[0], &t.Root.Children[1]
	a.Visible, b.Visible = false, false
	check(t.Renderer.Render(hook{context.Background(), func() {
		t.Renderer.SetDirtyByLayer(a)
		t.Renderer.SetDirtyByLayer(b)
	}}, image.NewNRGBA(t.CanvasRect)))
	im := draw(t)
	for i, v := range im.Pix {
		if v != 0 {
			fail("a hidden layer is still there at %d: %v", i/4, v)
		}
	}
}
''')

bug("m04-clipped-folder", "M04", "composite/cloner.go", [('''	if src.ClippedBy != nil {
''', '''	if src.ClippedBy != nil && len(src.Children) == 0 {
''')],
 "a folder that is clipped by a layer, in a tree that is cloned", "the clipped folder of the clone refers the layer of the original",
 COMPIMP + '''
func main() {
	r := image.Rect(0, 0, 4, 4)
	f := folder("clipped", "norm")
	f.clipping = 1
	t := load(rgbDoc(4, 4, plain("base", r, solid(1, 2, 3, 255)), folderEnd(), plain("a", r, solid(200, 0, 0, 255)), plain("b", r, solid(0, 200, 0, 128)), f))
	c := t.Clone()
	draw(c)
	if len(c.Root.Children) != 2 {
		fail("%d layers", len(c.Root.Children))
	}
	if c.Root.Children[1].ClippedBy != &c.Root.Children[0] {
		fail("the clone refers another tree")
	}
	l := &c.Root.Children[1]
	l.Visible = false
	c.Renderer.SetDirtyByLayer(l)
	if p := draw(c).NRGBAAt(1, 1); p.R != 1 || p.G != 2 {
		fail("the folder is still there: %v", p)
	}
}
''')

bug("m05-gamma-opaque", "M05", "composite/layerimage.go", [('''			pix[d+2] = uint8(g16 >> 8)
			pix[d+1] = uint8(r16)
			pix[d+0] = uint8(r16 >> 8)
			d += 8
			s += deltaX
		}
	}
''', '''			pix[d+2] = uint8(r16 >> 8)
			pix[d+1] = uint8(r16)
			pix[d+0] = uint8(r16 >> 8)
			d += 8
			s += deltaX
		}
	}
''')],
 "loading with a gamma and a matrix, and a layer without transparency channel", "the green of the layer is replaced by its red",
 COMPIMP + '''
func main() {
	l := plain("a", image.Rect(0, 0, 8, 8), solid(200, 40, 90, 255))
	l.chans = l.chans[1:]
	t, err := composite.New(context.Background(), bytes.NewReader(rgbDoc(8, 8, l).bytes()), &composite.Options{Gamma: 2.2, TransformMatrix: [6]float64{1, 0, 2, 0, 1, 2}})
	check(err)
	t.Rect, t.CanvasRect = image.Rect(0, 0, 16, 16), image.Rect(0, 0, 16, 16)
	c := draw(t).NRGBAAt(6, 6)
	if c.R < 196 || c.R > 202 || c.G < 36 || c.G > 42 || c.B < 86 || c.B > 92 || c.A != 255 {
		fail("%v", c)
	}
}
''')

bug("m06-stale-buffer", "M06", "composite/layerimage.go", [('''				blend.Copy.Draw(img, rect, b, rect.Min)
			} else {
				blend.Clear.Draw(img, image.Rect(tx, ty, tx+tileSize, ty+tileSize), image.Transparent, image.Point{})
			}
''', '''				blend.Copy.Draw(img, rect, b, rect.Min)
			}
''')],
 "thumbnails of several layers at once, one of which has tiles that are empty", "the previous layer is seen in the empty part of the thumbnail",
 COMPIMP + '''
func main() {
	var ls []layer
	for i := 0; i < 40; i++ {
		if i%2 == 0 {
			ls = append(ls, plain("full", image.Rect(0, 0, 192, 192), solid(255, 0, 0, 255)))
		} else {
			ls = append(ls, plain("corners", image.Rect(0, 0, 192, 192), func(x, y int) [4]byte {
				if (x < 64 && y < 64) || (x >= 128 && y >= 128) {
					return [4]byte{0, 255, 0, 255}
				}
				return [4]byte{}
			}))
		}
	}
	t := load(rgbDoc(192, 192, ls...))
	m, err := t.Thumbnails(context.Background(), 48)
	check(err)
	for i := 1; i < 40; i += 2 {
		one, err := t.Thumbnail(i, 48, nil)
		check(err)
		if !bytes.Equal(one.Pix, m[i].Pix) {
			fail("layer %d: the center is %v", i, m[i].At(24, 24))
		}
	}
}
''')

bug("m07-deep-names", "M07", "composite/builder.go", [('''		s = append(s, l.Layer[i].MBCSName)
		if len(l.Layer[i].Layer) > 0 {
			s = append(s, b.gatherLayerName(&l.Layer[i])...)
		}
	}
	return s
''', '''		s = append(s, l.Layer[i].MBCSName)
	}
	return s
''')],
 "a layer in a folder in a folder that has a name without unicode", "its name is not given to the detector of the encoding",
 COMPIMP.replace('"image"\n', '"image"\n\t"strings"\n\n\t"golang.org/x/text/encoding"\n') + '''
func main() {
	d := rgbDoc(4, 4, folderEnd(), folderEnd(), plain("deep", image.Rect(0, 0, 2, 2), solid(1, 2, 3, 4)), folder("in", "norm"), folder("out", "norm"))
	var seen string
	_, err := composite.New(context.Background(), bytes.NewReader(d.bytes()), &composite.Options{
		LayerNameEncodingDetector: func(b []byte) encoding.Encoding { seen = string(b); return encoding.Nop }})
	check(err)
	for _, n := range []string{"deep", "in", "out"} {
		if !strings.Contains(seen, n) {
			fail("%q is not in %q", n, seen)
		}
	}
}
''')

BLENDIMP = '''package main

import (
	"image"
	"image/color"

	"github.com/oov/psd/blend"
)
'''
bug("p02-alpha-channel", "P02", "picker.go", [("@func (p *pickerNRGBA16) setSource(", '''src[2], src[3]
''', '''src[2], src[len(src)-1]
''')],
 "a 16 bit RGB document with transparency in the merged image and a spot channel", "alpha is taken from the spot channel",
 PSDIMP + '''
func main() {
	l := layer{name: "a", rect: image.Rect(0, 0, 1, 1), opacity: 255}
	for id := -1; id < 3; id++ {
		l.chans = append(l.chans, channel{id: id, data: []byte{0x80, 0x01}})
	}
	d := &doc{w: 1, h: 1, depth: 16, mode: 3, channels: 5, layers: []layer{l}, neg: true, data: []byte{0x10, 0, 0x20, 0, 0x30, 0, 0x40, 0, 0x50, 0}}
	p, _, err := psd.Decode(bytes.NewReader(d.bytes()), nil)
	check(err)
	if _, _, _, a := p.Picker.At(0, 0).RGBA(); a != 0x4000 {
		fail("alpha is %#x", a)
	}
}
''')

bug("p04-gray32-large", "P04", "picker.go", [("@func (p *pickerNGrayA32) At(", '''		Y: readFloat32(p.Y, pos),
''', '''		Y: readFloat32(p.Y[pos&^0x3fff:], pos&0xfff),
''')],
 "a layer of a 32 bit grayscale document with transparency and more than 1024 pixels", "the gray is taken from another row",
 PSDIMP + '''
func main() {
	const w, h = 40, 60
	var y, a []byte
	for i := 0; i < w*h; i++ {
		v := u32(0)
		if i%7 < 3 {
			v = u32(0x3f800000)
		}
		y, a = append(y, v...), append(a, u32(0x3f800000)...)
	}
	l := layer{name: "a", rect: image.Rect(0, 0, w, h), opacity: 255, chans: []channel{{id: -1, data: a}, {id: 0, data: y}}}
	d := &doc{w: 1, h: 1, depth: 32, mode: 1, channels: 1, layers: []layer{l}, data: make([]byte, 4)}
	p, _, err := psd.Decode(bytes.NewReader(d.bytes()), nil)
	check(err)
	for i := 0; i < w*h; i++ {
		r, _, _, al := p.Layer[0].Picker.At(i%w, i/w).RGBA()
		if (r == 0xffff) != (i%7 < 3) || al != 0xffff {
			fail("pixel %d is %#x %#x", i, r, al)
		}
	}
}
''')

bug("p04-real-mask", "P04", "layer.go", [('''				rect = lci.Layer.Mask.RealRect
''', '''				rect = lci.Layer.Mask.RealRect.Intersect(lci.Layer.Mask.Rect.Union(lci.Layer.Rect))
''')],
 "a layer with a real user mask that extends outside of the layer and of the combined mask", "the samples of the real mask are put to a smaller rectangle",
 PSDIMP + '''
func main() {
	l := plain("a", image.Rect(0, 0, 2, 2), solid(1, 2, 3, 255))
	real := image.Rect(-1, -1, 3, 3)
	l.mask = cat(rect(image.Rect(0, 0, 1, 1)), []byte{0, 0, 0, 0}, rect(real))
	m := make([]byte, 16)
	for i := range m {
		m[i] = byte(i * 3)
	}
	l.chans = append(l.chans, channel{id: -2, data: []byte{9}}, channel{id: -3, data: m})
	p, _, err := psd.Decode(bytes.NewReader(rgbDoc(2, 2, l).bytes()), nil)
	check(err)
	c := p.Layer[0].Channel[-3]
	if !bytes.Equal(c.Data, m) || c.Picker.Bounds() != real {
		fail("%v %v", c.Data, c.Picker.Bounds())
	}
}
''')

bug("p11-padding", "P11", "psd.go", [("@	if !o.SkipMergedImage {", '''			return nil, read, err
		}
		read += l
	}
	return psd, read, nil
''', '''			return nil, read, err
		}
		if read += l; l&1 != 0 && cmpMethod == CompressionMethodRLE {
			// The data is padded to make the size even.
			if l, err = r.Read(b[:1]); err == nil {
				read += l
			}
		}
	}
	return psd, read, nil
''')],
 "a run-length compressed merged image of an odd number of bytes that is followed by other data", "a byte of what follows is consumed",
 PSDIMP + '''
func main() {
	d := &doc{w: 1, h: 1, depth: 8, mode: 1, channels: 1, comp: 1, data: []byte{0, 3, 0, 7, 0x80}}
	b := d.bytes()
	r := bytes.NewReader(cat(b, b))
	for i := 0; i < 2; i++ {
		_, n, err := psd.Decode(r, nil)
		check(err)
		if n != len(b) || r.Len() != len(b)*(1-i) {
			fail("read %d of %d bytes, %d remain", n, len(b), r.Len())
		}
	}
}
''')

bug("b01-dodge-mask", "B01", "blend/zblends.go", [("@var drawColorDodgeRGBAToNRGBA drawFunc", '''				sr = sr * 0xffff / sa
				sg = sg * 0xffff / sa
				sb = sb * 0xffff / sa
''', '''				sr = min(sr*0xffff/tmp, 0xffff)
				sg = min(sg*0xffff/tmp, 0xffff)
				sb = min(sb*0xffff/tmp, 0xffff)
''')],
 "color dodge of a translucent RGBA image to a NRGBA image with a translucent uniform mask", "the color of the source is restored with the masked alpha and becomes lighter",
 BLENDIMP + '''
func main() {
	for _, m := range []int{255, 200, 128, 20} {
		for v := 0; v <= 100; v += 10 {
			d1, d2 := image.NewNRGBA(image.Rect(0, 0, 1, 1)), image.NewNRGBA(image.Rect(0, 0, 1, 1))
			s1, s2 := image.NewRGBA(image.Rect(0, 0, 1, 1)), image.NewNRGBA(image.Rect(0, 0, 1, 1))
			s1.SetRGBA(0, 0, color.RGBA{byte(v), byte(v / 2), 0, 100})
			s2.SetNRGBA(0, 0, color.NRGBA{byte(v * 255 / 100), byte(v / 2 * 255 / 100), 0, 100})
			d1.SetNRGBA(0, 0, color.NRGBA{40, 60, 80, 255})
			d2.SetNRGBA(0, 0, color.NRGBA{40, 60, 80, 255})
			mask := image.NewUniform(color.Alpha{byte(m)})
			blend.ColorDodge.DrawMask(d1, d1.Rect, s1, image.Point{}, mask, image.Point{})
			blend.ColorDodge.DrawMask(d2, d2.Rect, s2, image.Point{}, mask, image.Point{})
			for i := range d1.Pix {
				if e := int(d1.Pix[i]) - int(d2.Pix[i]); e < -3 || e > 3 {
					fail("mask %d, source %d: %v %v", m, v, d1.Pix, d2.Pix)
				}
			}
		}
	}
}
''')

bug("b02-xor-uniform", "B02", "blend/zporterduffs.go", [("@var drawXORUniformToNRGBA drawUniformFunc", '''			} else if a == 0 {
				dpix[j+2] = 0
''', '''			} else if a < 0x100 {
				dpix[j+2] = 0
'''), ("@var drawXORUniformToNRGBA drawUniformFunc", '''			if a == 0xffff {
''', '''			if a >= 0xff {
''')],
 "XOR of an uniform image to a NRGBA image where the result is translucent", "the color is not divided by alpha",
 BLENDIMP + '''
func main() {
	src := image.NewUniform(color.NRGBA{200, 100, 50, 255})
	for a := 0; a < 256; a++ {
		dst := image.NewNRGBA(image.Rect(0, 0, 1, 1))
		dst.SetNRGBA(0, 0, color.NRGBA{10, 20, 30, byte(a)})
		blend.XOR.Draw(dst, dst.Rect, src, image.Point{})
		got := dst.NRGBAAt(0, 0)
		if int(got.A) != 255-a || (a < 128 && (got.R < 197 || got.R > 202)) {
			fail("destination alpha %d: %v", a, got)
		}
	}
}
''')

bug("b03-mask-shift", "B03", "blend/util.go", [('''		*r = r.Intersect(mask.Bounds().Add(orig.Sub(*mp)))
''', '''		*r = r.Intersect(mask.Bounds().Add(r.Min.Sub(*mp)))
''')],
 "drawing with a mask image whose bounds begin after the mask point, where the rectangle begins outside of the destination", "the rectangle is clipped by the mask at a wrong place",
 BLENDIMP.replace('"image/color"\n', '"image/color"\n\t"image/draw"\n') + '''
func main() {
	dst := image.NewNRGBA(image.Rect(0, 0, 8, 8))
	mask := image.NewAlpha(image.Rect(4, 4, 30, 30))
	draw.Draw(mask, mask.Rect, image.NewUniform(color.Opaque), image.Point{}, draw.Src)
	im := image.NewNRGBA(image.Rect(0, 0, 20, 20))
	for i := 0; i < len(im.Pix); i += 4 {
		im.Pix[i], im.Pix[i+3] = 255, 255
	}
	blend.Normal.DrawMask(dst, image.Rect(-3, -3, 17, 17), im, image.Point{}, mask, image.Point{})
	for y := 0; y < 8; y++ {
		for x := 0; x < 8; x++ {
			want := uint8(0)
			if x >= 1 && y >= 1 {
				want = 255
			}
			if dst.NRGBAAt(x, y).A != want {
				fail("(%d, %d) is %v", x, y, dst.NRGBAAt(x, y))
			}
		}
	}
}
''')

bug("b05-hue-mask", "B05", "blend/zblends.go", [("@var drawHueNRGBAToRGBA drawFunc", '''			a3 := (0xffff - tmp) * da / 0xffff
''', '''			a3 := (0xffff - sa) * da / 0xffff
''')],
 "hue from a NRGBA image to a RGBA image with a translucent mask", "the destination loses its opacity where the mask is translucent",
 BLENDIMP + '''
func main() {
	for m := 0; m < 256; m++ {
		dst, src := image.NewRGBA(image.Rect(0, 0, 1, 1)), image.NewNRGBA(image.Rect(0, 0, 1, 1))
		dst.SetRGBA(0, 0, color.RGBA{10, 20, 30, 255})
		src.SetNRGBA(0, 0, color.NRGBA{90, 60, 20, 255})
		blend.Hue.DrawMask(dst, dst.Rect, src, image.Point{}, image.NewUniform(color.Alpha{byte(m)}), image.Point{})
		if got := int(dst.Pix[3]); got < 254 {
			fail("opaque became %d with mask %d", got, m)
		}
	}
}
''')

bug("k01-gamma-order", "K01", "color/color.go", [("@func (c NGrayA64) RGBA()", '''	a := uint32(c.A * 0xffff)
	y = y * a / 0xffff
''', '''	a := uint32(c.A * 0xffff)
	y = fromFloat(float64(c.Y*c.A), 1.0/2.2)
''')],
 "a translucent 32 bit gray color", "the gray is multiplied before the gamma correction and becomes larger than alpha",
 '''package main

import psdColor "github.com/oov/psd/color"

func main() {
	for i := 1; i <= 64; i++ {
		if _, _, b, al := (psdColor.NGrayA64{Y: 1, A: float32(i) / 64}).RGBA(); b > al || b+1 < al {
			fail("white of alpha %#x is %#x", al, b)
		}
	}
}
''')

bug("b04-mask-rows", "B04", "blend/draw.go", [('''		spY += step
		mpY += step
''', '''		spY += step
''')],
 "an image mask whose rows differ, and more than one CPU", "only the first part of the rows uses the right rows of the mask",
 BLENDIMP.replace('"image/color"\n', '"image/color"\n\t"runtime"\n') + '''
func main() {
	r := image.Rect(0, 0, 4, 64)
	src := image.NewNRGBA(r)
	mask := image.NewAlpha(r)
	for i := range src.Pix {
		src.Pix[i] = 255
	}
	for y := 0; y < 64; y++ {
		for x := 0; x < 4; x++ {
			mask.SetAlpha(x, y, color.Alpha{byte(y * 4)})
		}
	}
	for _, n := range []int{1, 2, 4, 8} {
		runtime.GOMAXPROCS(n)
		dst := image.NewNRGBA(r)
		blend.Normal.DrawMask(dst, r, src, image.Point{}, mask, image.Point{})
		for y := 0; y < 64; y++ {
			if a := int(dst.NRGBAAt(1, y).A); a < y*4-1 || a > y*4+1 {
				fail("%d CPUs: row %d is %d", n, y, a)
			}
		}
	}
}
''')

bug("k02-gray16-alpha", "K02", "color/color.go", [("@func nGrayA32Model(", '''	y = (y * 0xffff) / a
	return NGrayA32{uint16(y), uint16(a)}
''', '''	y = (y * 0xff) / (a >> 8)
	return NGrayA32{uint16(y), uint16(a)}
'''), ("@func nGrayA32Model(", '''	if a == 0 {
''', '''	if a < 0x100 {
''')],
 "converting a translucent color to 16 bit gray", "the gray becomes lighter, and overflows near to white",
 '''package main

import (
	"image/color"

	psdColor "github.com/oov/psd/color"
)

func main() {
	for a := 0x200; a < 0x10000; a += 255 {
		c := psdColor.NGrayA32Model.Convert(color.NRGBA64{0xffff, 0xffff, 0xffff, uint16(a)}).(psdColor.NGrayA32)
		if c.Y < 0xff00 || c.A != uint16(a) {
			fail("white of alpha %#x became %#v", a, c)
		}
	}
}
''')

bug("e01-name-collision", "E01", "psdexporter/main.go", [('''				fmt.Sprintf("%s_%03d", filename, i),
''', '''				fmt.Sprintf("%.3s_%03d", filename, i),
''')],
 "folders in a folder", "layers of different folders are written to the same file",
 '''package main

import (
	"image"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
)

func main() {
	r := image.Rect(0, 0, 1, 1)
	d := rgbDoc(1, 1, folderEnd(),
		folderEnd(), plain("a", r, solid(1, 0, 0, 255)), folder("x", "norm"),
		folderEnd(), plain("b", r, solid(2, 0, 0, 255)), folder("y", "norm"),
		folder("top", "norm"))
	check(os.WriteFile("in.psd", d.bytes(), 0o600))
	if out, err := exec.Command("../exporter", "in.psd").CombinedOutput(); err != nil {
		fail("%v %s", err, out)
	}
	fs, _ := filepath.Glob("*.png")
	seen := map[uint32]bool{}
	for _, n := range fs {
		f, err := os.Open(n)
		check(err)
		im, err := png.Decode(f)
		check(err)
		c, _, _, _ := im.At(0, 0).RGBA()
		seen[c>>8] = true
	}
	if len(fs) != 2 || !seen[1] || !seen[2] {
		fail("%v %v", fs, seen)
	}
}
''')
bug("x01-high-length", "X01", "util.go", [('''		return readUint64(b, offset)
''', '''		return uint64(uint(readUint32(b, offset))<<16<<16 | uint(readUint32(b, offset+4)))
''')],
 "a platform of 32 bits and a PSB file whose length field has a bit above the 32nd", "the upper half of the length is lost, so a file that must be rejected is decoded",
 PSDIMP + '''
func main() {
	d := rgbDoc(2, 2, plain("a", image.Rect(0, 0, 2, 2), solid(1, 2, 3, 4)))
	d.psb = true
	b := d.bytes()
	if _, _, err := psd.Decode(bytes.NewReader(b), nil); err != nil {
		fail("%v", err)
	}
	// header 26, color mode data 4, resources 4
	b[34+3] = 1
	if _, _, err := psd.Decode(bytes.NewReader(b), nil); err == nil {
		fail("a section of 4 GiB was accepted")
	}
}
''', arch="386")

bug("x02-unaligned-atomic", "X02", "composite/context.go", [('''	abort int32
''', '''	waits int32
	abort int64
'''), ('''	atomic.StoreInt32(&pc.abort, 1)
''', '''	atomic.StoreInt64(&pc.abort, 1)
'''), ('''	return atomic.LoadInt32(&pc.abort) != 0
''', '''	return atomic.LoadInt64(&pc.abort) != 0
''')],
 "a platform of 32 bits, where fields of 64 bits may not be aligned for atomic operations", "compositing panics",
 COMPIMP + '''
func main() {
	t := load(rgbDoc(20, 20, plain("a", image.Rect(0, 0, 20, 20), solid(1, 2, 3, 255))))
	if c := draw(t).NRGBAAt(5, 5); c.R != 1 || c.G != 2 || c.B != 3 || c.A != 255 {
		fail("%v", c)
	}
}
''', arch="386")

bug("x03-end-of-row", "X03", "compress_wasm_js.go", [('''			if len(dest) < l || i+1 >= ln {
''', '''			if len(dest) < l {
''')],
 "WebAssembly, and a row of PackBits that ends within a packet", "the decoder reads beyond the row and panics",
 PSDIMP + '''
func main() {
	b := cat(u16(2), u16(1), []byte{0xfe, 7, 0xfe})
	dest := make([]byte, 6)
	if _, err := psd.CompressionMethodRLE.Decode(dest, bytes.NewReader(b), int64(len(b)), image.Rect(0, 0, 3, 2), 8, 1, false); err == nil {
		fail("a broken row was accepted")
	}
}
''', arch="wasm")

bug("x04-busy-wait", "X04", "composite/context.go", [('''		<-complete
		return ErrAborted
''', '''		for {
			select {
			case <-complete:
				return ErrAborted
			default:
			}
		}
''')],
 "WebAssembly, where goroutines share a thread and are not preempted, and cancellation of an operation", "the operation never returns",
 COMPIMP + '''
func main() {
	var ls []layer
	for i := 0; i < 4; i++ {
		ls = append(ls, plain("a", image.Rect(0, 0, 200, 200), solid(1, 2, 3, 255)))
	}
	t := load(rgbDoc(200, 200, ls...))
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	t.Renderer.Render(ctx, image.NewNRGBA(t.CanvasRect))
	if c := draw(t).NRGBAAt(5, 5); c.R != 1 || c.G != 2 || c.B != 3 || c.A != 255 {
		fail("%v", c)
	}
}
''', arch="wasm")

bug("x05-long-run", "X05", "compress.inc.js", [('''                var l = 256 - buf[ofs++] + 1;
''', '''                var l = 1 - buf[ofs++] & 0x7f;
''')],
 "GopherJS, and a run of 128 bytes", "the run is taken as empty, and the rest of the row is misplaced",
 '''
'use strict';
const fs = require('fs');
const g = {};
new Function('$global', fs.readFileSync('compress.inc.js', 'utf8'))(g);
const psd = g['$github.com/oov/psd$'];
const row = [0x81, 5, 0, 6, 0xff, 7, 1, 8, 9];
const lens = psd.decodePackBitsLines(new Uint8Array([0, 9, 0, 9]), 2, false);
if (lens.length !== 2 || lens[0] !== 9 || lens[1] !== 9) throw new Error('FAIL lengths ' + lens);
const dest = new Uint8Array(133 * 2);
const ok = psd.decodePackBits(dest, new Uint8Array(row.concat(row)), lens, 133);
const want = new Array(128).fill(5).concat([6, 7, 7, 8, 9]);
if (!ok || dest.join() !== want.concat(want).join()) throw new Error('FAIL ' + ok + ' ' + dest.join());
''', arch="node")

EXPORTER = {"e01-name-collision"}

bug("p09-lazy-row", "P09", "picker.go", [('''type pickerGray1 struct {
	Rect image.Rectangle
	Y    []byte
}
''', '''type pickerGray1 struct {
	Rect image.Rectangle
	Y    []byte
	row  int // bytes in a row
}
'''), ('''	pos := (p.Rect.Dx()+7)>>3*(y-p.Rect.Min.Y) + xx>>3
	return psdColor.Gray1''', '''	if p.row == 0 {
		p.row = (p.Rect.Dx() + 7) >> 3
	}
	pos := p.row*(y-p.Rect.Min.Y) + xx>>3
	return psdColor.Gray1''')],
 "an image of 1 bit that is read for the first time by several goroutines", "the number of bytes in a row is written while it is read",
 '''package main

import (
	"bytes"
	"image/color"
	"sync"

	"github.com/oov/psd"
)

func main() {
	d := &doc{w: 20, h: 3, depth: 1, mode: 0, channels: 1, data: []byte{1, 2, 3, 4, 5, 6, 7, 8, 9}}
	for n := 0; n < 50; n++ {
		p, _, err := psd.Decode(bytes.NewReader(d.bytes()), nil)
		check(err)
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for y := 0; y < 3; y++ {
					for x := 0; x < 20; x++ {
						want := byte(255)
						if (y*3+x/8+1)>>uint(7-x%8)&1 != 0 {
							want = 0
						}
						if got := color.GrayModel.Convert(p.Picker.At(x, y)).(color.Gray).Y; got != want {
							fail("(%d,%d) is %d", x, y, got)
						}
					}
				}
			}()
		}
		wg.Wait()
	}
}
''', race=True)

bug("b04-first-draw", "B04", "blend/util.go", [('''func sqrt(a uint32, b float64) uint32 {
''', '''var sqrtTable [256]uint32

// sqrt is used for 8-bit components in most cases.
func sqrt(a uint32, b float64) uint32 {
	if b == 255 {
		if sqrtTable[255] == 0 {
			for i := len(sqrtTable) - 1; i >= 0; i-- {
				sqrtTable[i] = uint32(math.Sqrt(float64(i)/b) * b)
			}
		}
		return sqrtTable[a]
	}
''')],
 "the first draws with SoftLight in a process at the same time", "a table is read while it is filled",
 '''package main

import (
	"image"
	"sync"

	"github.com/oov/psd/blend"
)

func main() {
	r := image.Rect(0, 0, 64, 1)
	var dst [8]*image.NRGBA
	src := image.NewNRGBA(r)
	var wg sync.WaitGroup
	for i := range src.Pix {
		src.Pix[i] = 255
	}
	for k := range dst {
		dst[k] = image.NewNRGBA(r)
		for x := 0; x < 64; x++ {
			copy(dst[k].Pix[x*4:], []byte{byte(x * 4), byte(255 - x), byte(64 + x), 255})
		}
		wg.Add(1)
		go func(d *image.NRGBA) {
			defer wg.Done()
			blend.SoftLight.Draw(d, r, src, image.Point{})
		}(dst[k])
	}
	wg.Wait()
	for k := range dst {
		if string(dst[k].Pix) != string(dst[0].Pix) {
			fail("the result %d differs", k)
		}
	}
}
''', race=True)

bug("m03-gamma-cache", "M03", "composite/layerimage.go", [('''func makeGammaTable(g float64) *gammaTable {
	var t [256]uint16
''', '''var gammaTables = map[float64]*gammaTable{}

func makeGammaTable(g float64) *gammaTable {
	gamma := g
	if gt, ok := gammaTables[gamma]; ok {
		return gt
	}
	var t [256]uint16
'''), ('''	return &gammaTable{t, rt}
''', '''	gt := &gammaTable{t, rt}
	gammaTables[gamma] = gt
	return gt
''')],
 "trees that are opened or transformed with gamma at the same time", "tables are kept in a map that is not guarded",
 COMPIMP.replace('import (', 'import (\n\t"sync"\n\t"golang.org/x/image/math/f64"') + '''
func main() {
	d := rgbDoc(8, 8, plain("a", image.Rect(0, 0, 8, 8), solid(200, 100, 50, 255)))
	b := d.bytes()
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t, err := composite.New(context.Background(), bytes.NewReader(b), &composite.Options{
				TransformMatrix: f64.Aff3{1, 0, 2, 0, 1, 0}, Gamma: 2.2})
			check(err)
			if c := draw(t).NRGBAAt(5, 5); c.A != 255 || c.R < 195 || c.R > 202 {
				fail("%v", c)
			}
		}()
	}
	wg.Wait()
	_ = load
}
''', race=True)

bug("x06-exclusion", "X06", "blend/genblend.go", [("""			ret = dest + src - (dest * src / halfValue);
""", """			ret = dest + src - (dest * src / maxValue);
""")],
 "the files of the blend package are generated again", "what is generated draws the exclusion of 16 bit components like the screen",
 BLENDIMP + '''
func main() {
	r := image.Rect(0, 0, 1, 1)
	src, dst := image.NewNRGBA64(r), image.NewNRGBA64(r)
	src.SetNRGBA64(0, 0, color.NRGBA64{0x8000, 0xffff, 0x4000, 0xffff})
	dst.SetNRGBA64(0, 0, color.NRGBA64{0x8000, 0xffff, 0x8000, 0xffff})
	blend.Exclusion.Draw(dst, r, src, image.Point{})
	c := dst.NRGBA64At(0, 0)
	if c.A != 0xffff || c.R < 0x7f00 || c.R > 0x8100 || c.G > 0x100 || c.B < 0x7f00 || c.B > 0x8100 {
		fail("%v", c)
	}
}
''', arch="generated")

bug("p07-channel-map", "P07", "layer.go", [('''		for j := 0; j < numChannels; j++ {
''', '''		layer.Channel = make(map[int]Channel, numChannels)
		for j := 0; j != numChannels; j++ {
''')],
 "a file whose first layer claims tens of thousands of channels", "memory for all the channels is allocated before any of them was read",
 PSDIMP.replace('import (', 'import (\n\t"runtime"') + '''
func main() {
	d := rgbDoc(2, 2, plain("a", image.Rect(0, 0, 2, 2), solid(1, 2, 3, 4)))
	b := d.bytes()
	// The count of channels follows the rectangle of the layer.
	i := bytes.Index(b, cat(u32(0), u32(0), u32(2), u32(2), u16(4)))
	if i < 0 {
		panic("no layer")
	}
	b[i+16], b[i+17] = 0xff, 0xff
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	_, _, err := psd.Decode(bytes.NewReader(b), nil)
	runtime.ReadMemStats(&m1)
	if err == nil {
		fail("it was decoded")
	}
	if n := m1.TotalAlloc - m0.TotalAlloc; n > 1<<20 {
		fail("%d bytes were allocated for a file of %d bytes", n, len(b))
	}
}
''')

bug("p14-version", "P14", "psd.go", [('''	cfg.Version = int(readUint16(b, 4))
''', '''	cfg.Version = int(b[5])
''')],
 "a file whose version is 257", "only the low byte of the version is checked",
 PSDIMP + '''
func main() {
	d := rgbDoc(2, 2, plain("a", image.Rect(0, 0, 2, 2), solid(1, 2, 3, 4)))
	b := d.bytes()
	_, _, err := psd.Decode(bytes.NewReader(b), nil)
	check(err)
	b[4] = 1
	if _, _, err = psd.Decode(bytes.NewReader(b), nil); err == nil {
		fail("version %d was decoded", int(b[4])<<8|int(b[5]))
	}
}
''')

bug("b01-near-gray", "B01", "blend/util.go", [('''	if max > min {
		return 0,''', '''	if max > min+1 {
		return 0,''')],
 "hue of a source whose components differ by one", "colors that are nearly gray have no hue",
 BLENDIMP + '''
func main() {
	r := image.Rect(0, 0, 1, 1)
	src, dst := image.NewNRGBA(r), image.NewNRGBA(r)
	src.SetNRGBA(0, 0, color.NRGBA{101, 100, 100, 255})
	dst.SetNRGBA(0, 0, color.NRGBA{40, 140, 40, 255})
	blend.Hue.Draw(dst, r, src, image.Point{})
	// The saturation of the destination, the hue of the source.
	if c := dst.NRGBAAt(0, 0); int(c.R)-int(c.B) < 90 || c.A != 255 {
		fail("%v", c)
	}
}
''')

bug("m06-trim-rows", "M06", "composite/thumbnail.go", [('''	if rect.Dx()*rect.Dy() == w*h {
''', '''	if rect.Dx() == w {
''')],
 "a thumbnail of a layer that covers whole columns of its tiles but not all the rows", "empty rows are not trimmed",
 COMPIMP + '''
func main() {
	l := plain("a", image.Rect(0, 0, 64, 16), solid(200, 100, 50, 255))
	t := load(rgbDoc(64, 64, l))
	im, err := t.Thumbnail(t.Root.Children[0].SeqID, 32, nil)
	check(err)
	if im.Rect.Dx() != 32 || im.Rect.Dy() != 8 {
		fail("%v", im.Rect)
	}
	for y := 0; y < 8; y++ {
		if c := im.NRGBAAt(16, y); c.A != 255 {
			fail("%d: %v", y, c)
		}
	}
	_ = draw
}
''')

bug("m06-temp-buffer", "M06", "composite/thumbnail.go", [('''	if src.Stride*src.Rect.Dy() > len(tempBuffer) {
''', '''	if src.Stride*src.Rect.Dy() > cap(tempBuffer) {
''')],
 "a buffer that is a part of a larger one", "bytes after the end of the buffer are overwritten",
 COMPIMP + '''
func main() {
	t := load(rgbDoc(8, 8, plain("a", image.Rect(0, 0, 8, 8), solid(200, 100, 50, 255))))
	all := bytes.Repeat([]byte{7}, 1<<20)
	im, err := t.Thumbnail(t.Root.Children[0].SeqID, 4, all[:100])
	check(err)
	if c := im.NRGBAAt(2, 2); c.R != 200 || c.A != 255 {
		fail("%v", c)
	}
	for i, v := range all[100:] {
		if v != 7 {
			fail("byte %d after the end is %d", i, v)
		}
	}
	_ = draw
}
''')

bug("m05-shear-mask", "M05", "composite/layerimage.go", [('''	if m[0] == 1 && m[1] == 0 && m[2] == 0 && m[3] == 0 && m[4] == 1 && m[5] == 0 {
		return newTiledMask(''', '''	if m[0] == 1 && m[1] == 0 && m[2] == 0 && m[4] == 1 && m[5] == 0 {
		return newTiledMask(''')],
 "a matrix that does nothing but shear vertically, and a layer with a mask", "the mask stays where it was",
 COMPIMP + '''
func main() {
	l := plain("a", image.Rect(0, 0, 32, 32), solid(200, 100, 50, 255))
	l.mask = cat(rect(image.Rect(0, 0, 32, 16)), []byte{0, 0, 0, 0})
	l.chans = append(l.chans, channel{id: -2, data: bytes.Repeat([]byte{255}, 32*16)})
	t, err := load(rgbDoc(32, 32, l)).Transform(context.Background(), [6]float64{1, 0, 0, 1, 1, 0}, 0)
	check(err)
	im := draw(t)
	// (24, 8) is moved to (24, 32), and (24, 24) to (24, 48).
	if a, b := im.NRGBAAt(24, 32), im.NRGBAAt(24, 48); a.A != 255 || b.A != 0 {
		fail("%v %v", a, b)
	}
}
''')

bug("m05-low-gamma", "M05", "composite/layer.go", [('''	if gamma != 0 {
''', '''	if gamma >= 1 {
''')],
 "Transform with a gamma that is less than 1", "the gamma is ignored, so colors between pixels are darker",
 COMPIMP + '''
func main() {
	l := plain("a", image.Rect(0, 0, 32, 32), func(x, y int) [4]byte { v := byte(255 * (x & 1)); return [4]byte{v, v, v, 255} })
	t, err := load(rgbDoc(32, 32, l)).Transform(context.Background(), [6]float64{0.5, 0, 0, 0, 0.5, 0}, 0.5)
	check(err)
	// (0.5*1 + 0.5*0) ^ (1 / 0.5)
	if c := draw(t).NRGBAAt(8, 8); c.R < 55 || c.R > 73 || c.A != 255 {
		fail("%v", c)
	}
}
''')

bug("m03-canceled-requests", "M03", "composite/renderer.go", [('''	if err := pc.Wait(ctx); err == ErrAborted {
		// revert
''', '''	if err := pc.Wait(ctx); err == ErrAborted {
		// What is reverted will be drawn again anyway.
		r.setDirtyM.Lock()
		r.deferedDirtyReq = r.deferedDirtyReq[:0]
		r.setDirtyM.Unlock()
''')],
 "a layer that is reported while a rendering is in progress, which is canceled after that", "the report is lost, and the old picture remains",
 COMPIMP + '''
type hook struct {
	context.Context
	f func()
}

func (h hook) Done() <-chan struct{} { h.f(); return h.Context.Done() }

func main() {
	l := plain("a", image.Rect(0, 0, 8, 8), solid(255, 0, 0, 255))
	t := load(rgbDoc(8, 8, l))
	draw(t)
	for i := 0; i < 50; i++ {
		a := &t.Root.Children[0]
		a.Visible = !a.Visible
		ctx, cancel := context.WithCancel(context.Background())
		err := t.Renderer.Render(hook{ctx, func() {
			t.Renderer.SetDirtyByLayer(a)
			cancel()
		}}, image.NewNRGBA(t.CanvasRect))
		if err != nil && err != composite.ErrAborted {
			fail("%v", err)
		}
		if c := draw(t).NRGBAAt(1, 1); (c.A != 0) != a.Visible {
			fail("%d: visible=%v, and the pixel is %v", i, a.Visible, c)
		}
	}
}
''')

def sh(cmd, cwd, check=True):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, errors="replace")
    if check and p.returncode: raise Exception(f"{cmd}: {p.returncode}\n{p.stdout[-3000:]}{p.stderr[-3000:]}")
    return p.returncode, p.stdout + p.stderr

def stable(d):
    base = json.load(open("/opt/vp/BASELINE.json"))
    env = "PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="
    rc, o = sh(f"rm -rf output blend/output; mkdir -p output; {env} go test -json -vet=off -count=1 -timeout 3m . ./color ./blend ./psdexporter", d, False)
    ok = set()
    for l in o.splitlines():
        try: x = json.loads(l)
        except Exception: continue
        if x.get("Action") == "pass" and "Test" in x: ok.add(x["Package"] + "/" + x["Test"])
    return sorted(set(base["stable"]) - ok)

def make(b):
    t = tempfile.mkdtemp(prefix="seed")
    try:
        sh(f"cp -a /repo {t}/repo", "/")
        r = f"{t}/repo"
        sh("git checkout -q -- .", r)
        f = f"{t}/{b['id']}"
        os.makedirs(f)
        open(f"{f}/main.go", "w").write(b["main"])
        if "mkpsd" not in b:
            shutil.copy(f"{HERE}/mkpsd.go", f)
        if b["arch"] != "node": sh("PATH=/opt/veriftools/go1.27.3/bin:$PATH gofmt -w *.go", f)
        d = open(f"{HERE}/demo.sh").read().replace("RACE ", "-race " if b["race"] else "")
        if b["id"] in EXPORTER:
            d = d.replace('mkdir "$t/work"', 'go build -o "$t/exporter" github.com/oov/psd/psdexporter || exit 2\nmkdir "$t/work"')
        if b["arch"] == "386":
            d = d.replace("go build", "GOARCH=386 go build")
        elif b["arch"] == "wasm":
            d = d.replace("go build", "GOOS=js GOARCH=wasm go build").replace('timeout 200 "$t/prog"',
                'timeout 60 node --stack-size=8192 "$(go env GOROOT)/lib/wasm/wasm_exec_node.js" "$t/prog"')
        elif b["arch"] == "generated":
            d = d.replace('cat > "$t/demo/go.mod"', '''# The files of the blend package are written again.
cp -a "$repo" "$t/generated" || exit 2
repo=$t/generated
(cd "$repo/blend" && for g in gendivtable genrgba2nrgba genblend genporterduff; do go run $g.go || exit 1; done) || exit 1
cat > "$t/demo/go.mod"''')
        elif b["arch"] == "node":
            os.rename(f"{f}/main.go", f"{f}/main.js")
            os.remove(f"{f}/mkpsd.go")
            d = '#!/bin/bash\n# Runs the program beside this against the JavaScript in the current directory.\nexec node "$(dirname "$0")/main.js"\n'
        open(f"{f}/demo.sh", "w").write(d)
        os.chmod(f"{f}/demo.sh", 0o755)
        shutil.copy("/verif/harness/go.sum", f"{f}/go.sum.txt")
        shutil.copy("/verif/stubs/downscale/downscale.go", f"{f}/downscale.txt")
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{f}/meta.json", "w"), indent=1)
        rc, o = sh(f"bash {f}/demo.sh", r, False)
        if rc: return f"the demonstration fails on the unchanged tree: {rc} {o[-1500:]}"
        for name, edits in b["files"]:
            s = open(f"{r}/{name}").read()
            for e in edits:
                at = 0
                if len(e) == 3:
                    at = s.index(e[0][1:]); e = e[1:]
                elif s.count(e[0]) != 1: return f"{name}: {s.count(e[0])} times: {e[0]!r}"
                i = s.index(e[0], at)
                s = s[:i] + e[1] + s[i+len(e[0]):]
            open(f"{r}/{name}", "w").write(s)
        _, p = sh("git diff", r)
        open(f"{f}/patch.diff", "w").write(p)
        # lines that are removed must be original ones
        orig = True
        for name, _ in b["files"]:
            _, bl = sh(f"git blame -s HEAD -- {name}", r)
            old = bl.splitlines()
            _, dd = sh(f"git diff -U0 -- {name}", r)
            import re
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", dd, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for k in range(a, a+n):
                    if not old[k-1].lstrip("^").startswith(BASE): orig = False; print("   not original:", old[k-1])
        rc, o = sh("PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPROXY=off GOFLAGS= go build . ./color ./blend ./psdexporter", r, False)
        if rc: return "does not build: " + o[-1000:]
        m = stable(r)
        if m: return "tests notice: " + " ".join(m[:3])
        rc, o = sh(f"bash {f}/demo.sh", r, False)
        if rc == 0: return "the demonstration does not notice"
        if not orig: return "not original lines"
        msg = f"ok (demo {rc}: {o.strip().splitlines()[-1][:100] if o.strip() else ''})"
        if rc == 2 and "FAIL" not in o: msg = "SUSPICIOUS " + o[-1000:]
        if os.path.exists(f"{OUT}/{b['id']}"): shutil.rmtree(f"{OUT}/{b['id']}")
        shutil.copytree(f, f"{OUT}/{b['id']}")
        return msg
    finally:
        shutil.rmtree(t)

if __name__ == "__main__":
    os.makedirs(OUT, exist_ok=True)
    ids = sys.argv[1:]
    for b in B:
        if ids and b["id"] not in ids: continue
        try: print(b["id"], make(b), flush=True)
        except Exception as e: print(b["id"], "EXC", e, flush=True)
