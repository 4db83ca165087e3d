package main

import (
	"bytes"

	"fmt"
	"image"
	"io"
	"math/rand"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/oov/psd"

	"verif/psdgen"
	"verif/vk"
)

func getBE(b []byte) uint64 {
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}

func putBE(b []byte, v uint64) {
	for i := len(b) - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
}

// declaredTooBig returns whether the header declares a large image.
// The memory for the declared size is legitimately allocated.
func declaredTooBig(b []byte) bool {
	if len(b) < 26 {
		return false
	}
	ch, h, w, depth := getBE(b[12:14]), getBE(b[14:18]), getBE(b[18:22]), getBE(b[22:24])
	if w > 300000 || h > 300000 || ch > 56 || depth > 32 {
		return false // must be rejected
	}
	if string(b[:6]) == "8BPS\x00\x01" && (w > 30000 || h > 30000) {
		return false // must be rejected
	}
	return w*h*ch*depth/8 > 32<<20 || layersTooBig(b, int(depth))
}

// layersTooBig returns whether the layers of the document declare large images.
func layersTooBig(b []byte, depth int) bool {
	wide := 4
	if b[5] == 2 {
		wide = 8
	}
	skip := func(p, n int) int { // skips data with its length
		if p < 0 || p+n > len(b) {
			return -1
		}
		v := getBE(b[p : p+n])
		if v > uint64(len(b)) {
			return -1
		}
		return p + n + int(v)
	}
	total := 0
	area := func(p, channels int) {
		if p+16 > len(b) {
			return
		}
		var v [4]int
		for i := range v {
			v[i] = int(int32(getBE(b[p+i*4 : p+i*4+4])))
		}
		w, h := max(v[3]-v[1], v[1]-v[3]), max(v[2]-v[0], v[0]-v[2])
		if 0 < w && w <= 300000 && 0 < h && h <= 300000 { // must be rejected if not
			if total += psdgen.RowBytes(w, depth) * h * channels; total > 1<<30 {
				total = 1 << 30
			}
		}
	}
	walk := func(p int) { // p is at the number of layers
		if p < 0 || p+2 > len(b) {
			return
		}
		n := int(int16(getBE(b[p : p+2])))
		if n < 0 {
			n = -n
		}
		for p += 2; n > 0; n-- {
			if p+18 > len(b) {
				return
			}
			ch := int(getBE(b[p+16 : p+18]))
			area(p, ch+4)
			p += 18 + ch*(2+wide) + 12
			next := skip(p, 4)
			if p+8 <= len(b) && getBE(b[p+4:p+8]) > 0 {
				area(p+8, 1)
				area(p+8+20, 1)
				area(p+8+16, 1)
				area(p+8+18, 1)
			}
			if p = next; p < 0 {
				return
			}
		}
	}
	if p := skip(skip(26, 4), 4); p >= 0 {
		walk(p + 2*wide)
	}
	for _, key := range []string{"Layr", "Lr16", "Lr32"} {
		for at := 0; ; {
			i := bytes.Index(b[at:], []byte(key))
			if i < 0 {
				break
			}
			at += i + 4
			walk(at + 4)
			walk(at + 8)
		}
	}
	return total > 32<<20
}

// mutate breaks the data. fields may be nil.
func mutate(r *rand.Rand, data []byte, fields []psdgen.Field, n int) ([]byte, string) {
	b := append([]byte{}, data...)
	var what []string
	for n = 1 + r.Intn(n); n > 0; n-- {
		if fields != nil && r.Intn(4) > 0 {
			f := fields[r.Intn(len(fields))]
			// data fields are many, so choose again.
			for k := 0; k < 3 && (f.Kind == "data" || f.Kind == "rowlen" || f.Kind == "pad"); k++ {
				f = fields[r.Intn(len(fields))]
			}
			what = append(what, mutateField(r, b, f))
			continue
		}
		if len(b) < 40 {
			break
		}
		switch r.Intn(6) {
		case 0, 1:
			i := r.Intn(len(b))
			if i >= 14 && i < 22 {
				continue
			}
			v := byte(r.Intn(256))
			what = append(what, fmt.Sprintf("[%d]=%#x", i, v))
			b[i] = v
		case 2:
			i := 26 + r.Intn(len(b)-26)
			k := 1 + r.Intn(8)
			if i+k > len(b) {
				k = len(b) - i
			}
			what = append(what, fmt.Sprintf("delete [%d:%d]", i, i+k))
			b = append(b[:i], b[i+k:]...)
			fields = nil
		case 3:
			i := 26 + r.Intn(len(b)-26)
			k := 1 + r.Intn(8)
			what = append(what, fmt.Sprintf("insert %d at %d", k, i))
			ins := make([]byte, k)
			if r.Intn(2) == 0 {
				r.Read(ins)
			}
			b = append(b[:i:i], append(ins, b[i:]...)...)
			fields = nil
		case 4:
			i := r.Intn(len(b))
			what = append(what, fmt.Sprintf("truncate %d", i))
			b = b[:i]
			fields = nil
		case 5:
			i := r.Intn(len(b))
			if i >= 14 && i < 22 {
				continue
			}
			what = append(what, fmt.Sprintf("flip [%d]", i))
			b[i] ^= 1 << uint(r.Intn(8))
		}
	}
	return b, strings.Join(what, ", ")
}

func mutateField(r *rand.Rand, b []byte, f psdgen.Field) string {
	if f.Off+f.Size > len(b) {
		return "out"
	}
	p := b[f.Off : f.Off+f.Size]
	old := getBE(p)
	var v uint64
	desc := func() string { return fmt.Sprintf("%s@%d %#x->%#x", f.Name, f.Off, old, getBE(p)) }
	switch f.Kind {
	case "dim":
		switch r.Intn(4) {
		case 0:
			v = 0
		case 1:
			v = uint64(1 + r.Intn(200))
		case 2:
			v = 300001 + uint64(r.Intn(1<<30))
		case 3:
			v = 0xffffffff - uint64(r.Intn(3))
		}
	case "rect":
		switch r.Intn(6) {
		case 0:
			v = old + uint64(r.Intn(41)) - 20
		case 1:
			v = 0x80000000
		case 2:
			v = 0x7fffffff
		case 3:
			v = 0xffffffff
		case 4:
			v = 0
		case 5:
			v = old + 310000 + uint64(r.Intn(1<<28))
		}
	case "enum", "comp", "value":
		switch r.Intn(4) {
		case 0:
			v = uint64(r.Intn(12))
		case 1:
			v = ^uint64(0)
		case 2:
			v = r.Uint64()
		case 3:
			keys := []string{"Layr", "Lr16", "Lr32", "luni", "lsct", "lsdk", "clbl", "LMsk", "pass", "norm", "\x00\x00\x00\x00"}
			if f.Size == 4 {
				copy(p, keys[r.Intn(len(keys))])
				return desc()
			}
			v = uint64(r.Intn(60))
		}
	case "sig":
		r.Read(p[r.Intn(len(p)):])
		return desc()
	case "data", "pad":
		p[r.Intn(len(p))] = byte(r.Intn(256))
		return f.Name + " data"
	default: // len, count, chlen, rowlen
		switch r.Intn(9) {
		case 0:
			v = 0
		case 1:
			v = 1
		case 2:
			v = ^uint64(0)
		case 3:
			v = 1<<uint(f.Size*8-1) - 1
		case 4:
			v = 1 << uint(f.Size*8-1)
		case 5:
			v = old + uint64(1+r.Intn(4))
		case 6:
			v = old - uint64(1+r.Intn(4))
		case 7:
			v = uint64(r.Intn(300))
		case 8:
			v = r.Uint64()
		}
	}
	putBE(p, v)
	return desc()
}

// touch looks at an image like users do. Returns the number of colors read.
func touch(r *rand.Rand, im image.Image) int {
	if im == nil {
		return 0
	}
	b := im.Bounds()
	if b.Empty() {
		return 0
	}
	im.ColorModel()
	n := 0
	at := func(x, y int) {
		im.At(x, y).RGBA()
		n++
	}
	if b.Dx() <= 64 && b.Dy() <= 64 {
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				at(x, y)
			}
		}
		return n
	}
	at(b.Min.X, b.Min.Y)
	at(b.Max.X-1, b.Max.Y-1)
	at(b.Min.X, b.Max.Y-1)
	at(b.Max.X-1, b.Min.Y)
	for i := 0; i < 50; i++ {
		at(b.Min.X+r.Intn(b.Dx()), b.Min.Y+r.Intn(b.Dy()))
	}
	return n
}

func touchLayers(r *rand.Rand, ls []psd.Layer) int {
	n := 0
	for i := range ls {
		l := &ls[i]
		n += touch(r, l.Picker)
		for _, ch := range l.Channel {
			n += touch(r, ch.Picker)
		}
		_ = l.String()
		_ = l.BlendMode.String()
		_ = l.Folder() || l.FolderIsOpen() || l.HasImage() || l.Visible() || l.TransparencyProtected() || l.Mask.Enabled() || l.Mask.RealEnabled()
		n += touchLayers(r, l.Layer)
	}
	return n
}

// guardReader panics if it's read forever after the end.
type guardReader struct {
	r    io.Reader
	ends int
}

func (g *guardReader) Read(p []byte) (int, error) {
	n, err := g.r.Read(p)
	if err != nil {
		g.ends++
		if g.ends > 100000 {
			panic("the reader is being read forever after the end")
		}
	}
	return n, err
}

// attack decodes hostile data in the ways users do.
func attack(c *vk.Ctx, b []byte, what string) {
	try := func(how string, f func() (image.Image, *psd.PSD, error)) {
		c.Eval(1)
		c.Guard(what+": "+how, func() {
			im, p, err := f()
			if err != nil {
				if p != nil || im != nil {
					c.Fail("both", "%s: %s: an image with error %v", what, how, err)
				}
				if err.Error() == "" {
					c.Fail("noerror", "%s: %s: empty error", what, how)
				}
				c.Count("rejected", 1)
				return
			}
			c.Count("accepted", 1)
			n := touch(c.Rng, im)
			if p != nil {
				p.Config.Palette()
				p.Config.PSB()
				n += touch(c.Rng, p.Picker)
				for _, ch := range p.Channel {
					n += touch(c.Rng, ch.Picker)
				}
				n += touchLayers(c.Rng, p.Layer)
			} else if im == nil {
				c.Fail("neither", "%s: %s: neither an image nor an error", what, how)
			}
			c.Count("colors read from accepted images", n)
		})
	}
	seek := func() io.Reader { return bytes.NewReader(b) }
	plain := func() io.Reader { return &guardReader{r: bytes.NewReader(b)} }
	if c.Rng.Intn(2) == 0 {
		seek, plain = plain, seek
	}
	try("Decode", func() (image.Image, *psd.PSD, error) {
		p, _, err := psd.Decode(plain(), nil)
		if err == nil && p == nil {
			return nil, nil, nil
		}
		return nil, p, err
	})
	o := &psd.DecodeOptions{SkipLayerImage: c.Rng.Intn(2) == 0, SkipMergedImage: c.Rng.Intn(2) == 0}
	try(fmt.Sprintf("Decode(%v,%v)", o.SkipLayerImage, o.SkipMergedImage), func() (image.Image, *psd.PSD, error) {
		p, _, err := psd.Decode(seek(), o)
		return nil, p, err
	})
	try("image.Decode", func() (image.Image, *psd.PSD, error) {
		im, _, err := image.Decode(plain())
		return im, nil, err
	})
	c.Eval(1)
	c.Guard(what+": DecodeConfig", func() {
		cfg, _, err := psd.DecodeConfig(plain())
		if err == nil {
			cfg.Palette()
		}
		ic, _, err := image.DecodeConfig(seek())
		if err == nil && ic.ColorModel == nil {
			c.Fail("nomodel", "%s: no color model without error", what)
		}
	})
}

// nestedLayers returns a document whose layer has a layer in its additional information, which has a layer, and so on.
func nestedLayers(levels int, key string) []byte {
	const per = 60
	be := func(b []byte, v int) []byte { return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
	b := []byte("8BPS\x00\x01\x00\x00\x00\x00\x00\x00\x00\x03\x00\x00\x00\x01\x00\x00\x00\x01\x00\x08\x00\x03\x00\x00\x00\x00\x00\x00\x00\x00")
	b = be(b, levels*per+4)
	for i := levels; i > 0; i-- {
		b = be(b, i*per-4) // layer info
		b = append(b, 0, 1)
		b = append(b, make([]byte, 18)...)
		b = append(b, "8BIMnorm\xff\x00\x00\x00"...)
		b = be(b, (i-1)*per+24)
		b = append(b, make([]byte, 12)...)
		b = append(b, "8BIM"+key...)
	}
	return append(b, make([]byte, 1000)...)
}

func caseHostile(c *vk.Ctx) {
	setProcs(c)
	debug.SetMaxStack(12 << 20)
	if c.Index%1000 == 77 {
		key := []string{"Layr", "Lr16", "Lr32"}[c.Rng.Intn(3)]
		b := nestedLayers(20000+c.Rng.Intn(20000), key)
		c.Distinct(b)
		c.Count("layers nested deeply", 1)
		attack(c, b, "nested "+key)
		return
	}
	if c.Rng.Intn(15) == 0 && len(testdata) > 0 {
		t := testdata[c.Rng.Intn(len(testdata))]
		if len(t.Data) < 100000 {
			m, what := mutate(c.Rng, t.Data, nil, 4)
			if declaredTooBig(m) {
				return
			}
			c.Distinct(m)
			c.Count("mutated sample files", 1)
			attack(c, m, t.Name+" ("+what+")")
			return
		}
	}
	if c.Rng.Intn(40) == 0 {
		// noise after a valid beginning
		b := make([]byte, c.Rng.Intn(3000))
		c.Rng.Read(b)
		copy(b, "8BPS\x00\x01")
		if len(b) > 26 {
			copy(b[12:], []byte{0, byte(c.Rng.Intn(6)), 0, 0, 0, byte(c.Rng.Intn(30)), 0, 0, 0, byte(c.Rng.Intn(30)), 0, 8 << uint(c.Rng.Intn(3)), 0, byte(c.Rng.Intn(10))})
			copy(b[26:], []byte{0, 0, 0, 0, 0, 0, 0, 0, 0})
		}
		c.Distinct(b)
		c.Count("noise", 1)
		attack(c, b, "noise")
		return
	}
	d, f := genDoc(c, psdgen.Opt{MaxDim: 9, MaxLayers: 4})
	for i := 0; i < 12; i++ {
		m, what := mutate(c.Rng, f.Bytes, f.Fields, 3)
		if declaredTooBig(m) {
			continue
		}
		c.Distinct(m)
		c.Count("mutated documents", 1)
		if i == 0 {
			c.Sample("%s: %s", d, what)
		}
		attack(c, m, d.String()+" ("+what+")")
	}
}

// --- P07: allocation

// declaredPlanes returns the number of bytes of pixels that are declared.
func declaredPlanes(d *psdgen.Doc) int {
	n := psdgen.RowBytes(d.W, d.Depth) * d.H * d.Channels
	for _, l := range d.Flat {
		for _, c := range l.Chans {
			n += psdgen.RowBytes(c.Rect.Dx(), d.Depth) * c.Rect.Dy()
		}
		n += psdgen.RowBytes(l.Rect.Dx(), d.Depth) * l.Rect.Dy() * 6
	}
	return n
}

// manyLayers returns a document of n records of layers without pixels.
func manyLayers(n int, shape string, psb bool) []byte {
	be := func(b []byte, v, size int) []byte {
		for size--; size >= 0; size-- {
			b = append(b, byte(v>>uint(8*size)))
		}
		return b
	}
	intSize := 4
	ver := byte(1)
	if psb {
		intSize, ver = 8, 2
	}
	info := be(nil, n, 2)
	for i := 0; i < n; i++ {
		t := 0
		switch shape {
		case "nested":
			t = 3
			if i >= n/2 {
				t = 1 + i%2
			}
		case "folders":
			t = 3
			if i%2 == 1 {
				t = 1
			}
		case "folders of layers":
			t = []int{3, 0, 0, 0, 0, 1}[i%6]
		}
		info = append(info, make([]byte, 18)...)
		info = append(info, "8BIMnorm\xff\x00\x00\x00"...)
		if t == 0 {
			info = be(info, 12, 4)
			info = append(info, make([]byte, 12)...)
			continue
		}
		info = be(info, 28, 4)
		info = append(info, make([]byte, 12)...)
		info = append(info, "8BIMlsct\x00\x00\x00\x04"...)
		info = be(info, t, 4)
	}
	b := append([]byte("8BPS\x00"), ver)
	b = append(b, "\x00\x00\x00\x00\x00\x00\x00\x03\x00\x00\x00\x01\x00\x00\x00\x01\x00\x08\x00\x03\x00\x00\x00\x00\x00\x00\x00\x00"...)
	b = be(b, len(info)+intSize, intSize)
	b = be(b, len(info), intSize)
	b = append(b, info...)
	return append(b, 0, 0, 1, 2, 3)
}

// measured returns how much was allocated by decoding b.
func measured(c *vk.Ctx, what string, r io.Reader, o *psd.DecodeOptions) (used int, p *psd.PSD, err error, ok bool) {
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	ok = c.Guard(what, func() { p, _, err = psd.Decode(r, o) })
	runtime.ReadMemStats(&m1)
	c.Eval(1)
	return int(m1.TotalAlloc - m0.TotalAlloc), p, err, ok
}

func caseAlloc(c *vk.Ctx) {
	runtime.GOMAXPROCS(2)
	if c.Index%9 == 4 {
		n := 60 * (1 + c.Rng.Intn(1<<uint(c.Rng.Intn(9))))
		shape := []string{"nested", "folders", "folders of layers", "flat"}[c.Rng.Intn(4)]
		b := manyLayers(n, shape, c.Rng.Intn(2) == 0)
		c.Distinct(b)
		c.Count("documents of many layers", 1)
		what := fmt.Sprintf("%d layers (%s)", n, shape)
		used, p, err, ok := measured(c, what, bytes.NewReader(b), nil)
		if !ok {
			return
		}
		if err != nil || p == nil {
			c.Fail("many layers", "%s: %v", what, err)
			return
		}
		total := 0
		var walk func(ls []psd.Layer)
		walk = func(ls []psd.Layer) {
			for i := range ls {
				total++
				walk(ls[i].Layer)
			}
		}
		walk(p.Layer)
		want := map[string]int{"nested": n / 2, "folders": n / 2, "folders of layers": n / 6 * 5, "flat": n}[shape]
		if total != want {
			c.Fail("many layers", "%s: %d layers in the tree, want %d", what, total, want)
		}
		c.Max("bytes allocated per layer record", used/n)
		if used > 10000*n+1<<20 {
			c.Fail("alloc:layers", "%s: %d bytes were allocated for %d bytes of input", what, used, len(b))
		}
		return
	}
	d, f := genDoc(c, psdgen.Opt{MaxDim: 9, MaxLayers: 4})
	c.Distinct(f.Bytes)
	planes := declaredPlanes(d)
	channels := d.Channels
	for _, l := range d.Flat {
		channels += len(l.Chans)
	}
	var lens []psdgen.Field
	for _, fl := range f.Fields {
		switch fl.Kind {
		case "len", "chlen", "rowlen", "count":
			lens = append(lens, fl)
		}
		if fl.Name == "infoData:luni" && fl.Size >= 4 {
			lens = append(lens, psdgen.Field{Off: fl.Off, Size: 4, Kind: "count", Name: "length of unicode name"})
		}
	}
	// all the kinds of the length fields, and some of the same kind.
	byName := map[string][]psdgen.Field{}
	var names []string
	for _, fl := range lens {
		if byName[fl.Name] == nil {
			names = append(names, fl.Name)
		}
		byName[fl.Name] = append(byName[fl.Name], fl)
	}
	c.Sample("%s: %d length fields of %d kinds", d, len(lens), len(names))
	for _, nm := range names {
		fl := byName[nm][c.Rng.Intn(len(byName[nm]))]
		vals := []uint64{^uint64(0), 1<<uint(fl.Size*8-1) - 1, 1 << uint(fl.Size*8-2)}
		if fl.Size >= 4 {
			// what might still be thought of as small
			vals = append(vals, 1<<25, 3<<23, 1<<24-1, 5<<20)
		}
		if fl.Size == 8 {
			vals = append(vals, 0x7fffffff, 0x40000000, 1<<36)
		}
		v := vals[c.Rng.Intn(len(vals))]
		b := append([]byte{}, f.Bytes...)
		putBE(b[fl.Off:fl.Off+fl.Size], v)
		extra := 0
		if nm == "channels" {
			extra = 60 * psdgen.RowBytes(d.W, d.Depth) * d.H
		}
		what := fmt.Sprintf("%s: %s = %#x", d, nm, getBE(b[fl.Off:fl.Off+fl.Size]))
		var o *psd.DecodeOptions
		if c.Rng.Intn(2) == 0 {
			o = &psd.DecodeOptions{SkipLayerImage: c.Rng.Intn(2) == 0}
		}
		var r io.Reader = bytes.NewReader(b)
		if c.Rng.Intn(2) == 0 {
			r = &plainReader{r}
		}
		used, _, _, ok := measured(c, what, r, o)
		// The decoder of ZIP has buffers of a fixed size.
		used -= channels * 60 << 10
		limit := 40*len(b) + 4*(planes+extra) + 512<<10
		c.Max("bytes allocated beyond those that are there", used-(limit-512<<10))
		c.Count("fields: "+strings.SplitN(nm, ":", 2)[0], 1)
		if ok && used > limit {
			c.Fail("alloc:"+strings.SplitN(nm, ":", 2)[0], "%s: %d bytes were allocated for %d bytes of input and %d bytes of declared pixels", what, used, len(b), planes)
		}
	}
}

// --- P14: what must be rejected

func caseReject(c *vk.Ctx) {
	r := c.Rng
	var o *psd.DecodeOptions
	reject := func(name string, d *psdgen.Doc, b []byte, cfgToo bool) {
		c.Eval(1)
		c.Distinct(name, b)
		c.Count(name, 1)
		c.Guard(name, func() {
			p, _, err := psd.Decode(bytes.NewReader(b), o)
			if err == nil || p != nil {
				c.Fail("accepted:"+name, "%s: accepted %s (image %v, error %v)", d, name, p != nil, err)
			}
			if o == nil && !strings.Contains(name, "layer") {
				im, _, err := image.Decode(bytes.NewReader(b))
				if err == nil || im != nil {
					c.Fail("accepted:"+name, "%s: image.Decode accepted %s", d, name)
				}
			}
			if cfgToo {
				_, _, err := psd.DecodeConfig(bytes.NewReader(b))
				_, _, err2 := image.DecodeConfig(bytes.NewReader(b))
				if err == nil || err2 == nil {
					c.Fail("accepted:"+name, "%s: DecodeConfig accepted %s: %v %v", d, name, err, err2)
				}
			}
		})
	}
	d, f := genDoc(c, psdgen.Opt{MaxDim: 8, MaxLayers: 4})
	c.Sample("%s", d)
	set := func(name string, v uint64) []byte {
		b := append([]byte{}, f.Bytes...)
		for _, fl := range f.Fields {
			if fl.Name == name {
				putBE(b[fl.Off:fl.Off+fl.Size], v)
				break
			}
		}
		return b
	}
	choose := func(vs ...uint64) uint64 { return vs[r.Intn(len(vs))] }
	// alias returns a value of 16 bits that some bits of have the valid value v.
	alias := func(v int) uint64 {
		switch r.Intn(4) {
		case 0:
			return uint64(v)<<8 | uint64(r.Intn(2)*v)
		case 1:
			return uint64(v) | 0x8000
		}
		return uint64(v) | uint64(1+r.Intn(255))<<8
	}
	either := func(a, b uint64) uint64 { return choose(a, b) }
	b := append([]byte{}, f.Bytes...)
	b[r.Intn(4)] ^= byte(1 << uint(r.Intn(8)))
	reject("signature", d, b, true)
	reject("version", d, set("version", either(choose(0, 3, 4, 0x100, 0x200, 0xffff), alias(1+r.Intn(2)))), true)
	reject("number of channels", d, set("channels", either(choose(0, 57, 58, 255, 256, 0x101, 0xffff), alias(d.Channels))), true)
	over := choose(30001, 30002, 65536, 300001, 0x80000000, 0xffffffff)
	if d.PSB {
		over = choose(300001, 300002, 0x80000000, 0xffffffff)
	}
	far := uint64(1) << uint(19+r.Intn(13))
	reject("width", d, set("width", choose(0, over, far|uint64(d.W))), true)
	reject("height", d, set("height", choose(0, over, far|uint64(d.H))), true)
	reject("depth", d, set("depth", either(choose(0, 2, 4, 7, 9, 12, 15, 17, 24, 31, 33, 64, 0x801, 0xffff), alias(d.Depth))), true)
	if v := alias(d.Mode); v > 15 {
		b := set("mode", v)
		reject("color mode", d, b, false)
		if _, _, err := image.DecodeConfig(bytes.NewReader(b)); err == nil {
			c.Fail("accepted:image.DecodeConfig", "%s: image.DecodeConfig accepted the color mode %d", d, v)
		}
	}

	// unsupported or inconsistent combinations.
	noMerged := func(mode, depth, ch int) {
		dd := *d
		dd.Mode, dd.Depth, dd.Channels = mode, depth, ch
		dd.Flat, dd.Roots, dd.Placement = nil, nil, ""
		dd.NoLayerSection = true
		dd.MergedComp = psdgen.Raw
		dd.Merged = nil
		dd.Res = nil
		if mode == psdgen.Indexed && len(dd.ColorModeData) < 768 {
			dd.ColorModeData = make([]byte, 768)
		}
		for i := 0; i < ch; i++ {
			dd.Merged = append(dd.Merged, psdgen.RandPlane(r, dd.W, dd.H, depth))
		}
		reject("unsupported mode and depth", &dd, psdgen.Encode(&dd, r).Bytes, false)
		if _, _, err := image.DecodeConfig(bytes.NewReader(psdgen.Encode(&dd, r).Bytes)); err == nil {
			c.Fail("accepted:image.DecodeConfig", "%s: image.DecodeConfig accepted unsupported", &dd)
		}
	}
	switch r.Intn(8) {
	case 0:
		noMerged(int(choose(5, 6, 7, 8, 9, 10, 0x7fff, 0xffff)), int(choose(8, 16)), 1+r.Intn(4))
	case 1:
		noMerged(psdgen.Bitmap, int(choose(8, 16, 32)), 1)
	case 2:
		noMerged(psdgen.Indexed, int(choose(1, 16, 32)), 1)
	case 3:
		noMerged(psdgen.RGB, int(choose(8, 16, 32)), 1+r.Intn(2))
	case 4:
		noMerged(psdgen.CMYK, int(choose(8, 16)), 1+r.Intn(3))
	case 5:
		noMerged(psdgen.CMYK, 32, 4+r.Intn(2))
	case 6:
		noMerged(int(choose(psdgen.RGB, psdgen.Grayscale, psdgen.CMYK)), 1, 4+r.Intn(2))
	case 7:
		dd := *d
		dd.Mode, dd.Depth, dd.Channels = psdgen.Indexed, 8, 1
		dd.Flat, dd.Roots, dd.Placement, dd.NoLayerSection = nil, nil, "", true
		dd.ColorModeData = make([]byte, choose(0, 1, 255, 256, 512, 767))
		dd.Merged = [][]byte{psdgen.RandPlane(r, dd.W, dd.H, 8)}
		dd.MergedComp = psdgen.Raw
		reject("short palette", &dd, psdgen.Encode(&dd, r).Bytes, false)
	}
	reject("unknown compression method", d, set("mergedComp", either(choose(4, 5, 255, 256, 0x101, 0xffff, 0x8000), alias(d.MergedComp)|0x100)), false)

	// signatures
	for _, fl := range f.Fields {
		if fl.Kind != "sig" || fl.Off == 0 || r.Intn(3) > 0 {
			continue
		}
		b := append([]byte{}, f.Bytes...)
		k := fl.Off + r.Intn(4)
		if fl.Name == "infoSig" {
			// paddings are skipped until '8'.
			k = fl.Off + 1 + r.Intn(3)
		}
		if r.Intn(2) == 0 {
			b[k] ^= byte(1 << uint(r.Intn(8)))
		} else {
			copy(b[fl.Off:fl.Off+4], otherSig(r, fl.Name))
		}
		reject("broken "+fl.Name+" (layer or resource)", d, b, false)
	}

	rejectLengths(c, reject, d, f)

	// layers
	o = nil
	if r.Intn(2) == 0 {
		o = &psd.DecodeOptions{SkipMergedImage: true}
	}
	ld, lf := genDoc(c, psdgen.Opt{MaxDim: 8, MaxLayers: 4, ForceLayer: true, Modes: []int{psdgen.RGB, psdgen.Grayscale, psdgen.CMYK}})
	for _, fl := range lf.Fields {
		if fl.Name == "channelComp" && r.Intn(3) == 0 {
			// only when there is data
			b := append([]byte{}, lf.Bytes...)
			putBE(b[fl.Off:fl.Off+2], either(choose(4, 5, 255, 256, 0xffff), alias(int(b[fl.Off+1]))|0x100))
			if next := fieldAt(lf, fl.Off+2); next == "channelData" {
				reject("unknown compression method of a layer", ld, b, false)
			}
		}
	}
	for _, fl := range lf.Fields {
		// layers that are not folders may have a section divider setting too.
		if fl.Name != "infoData:lsct" || fl.Size < 4 || r.Intn(2) == 0 {
			continue
		}
		b := append([]byte{}, lf.Bytes...)
		t := b[fl.Off+3]
		if t == 1 || t == 2 {
			b[fl.Off+3] = byte(choose(0, 3))
		} else if t == 3 {
			b[fl.Off+3] = byte(choose(0, 1, 2))
		} else {
			b[fl.Off+3] = byte(choose(1, 2, 3))
		}
		reject("unbalanced folder (layer)", ld, b, false)
		if fl.Size >= 12 {
			b := append([]byte{}, lf.Bytes...)
			if r.Intn(2) == 0 {
				b[fl.Off+4+r.Intn(4)] ^= byte(1 << uint(r.Intn(8)))
			} else {
				copy(b[fl.Off+4:fl.Off+8], otherSig(r, "blendSig"))
			}
			reject("broken signature of a section divider (layer)", ld, b, false)
		}
	}
	if len(ld.Flat) > 0 {
		// the image of a layer in the color mode that is not supported.
		dd := *ld
		dd.Mode = int(choose(psdgen.Bitmap, psdgen.Indexed, 7, 8, 9))
		if dd.Mode == psdgen.Bitmap {
			dd.Mode = 7
		}
		dd.ColorModeData = make([]byte, 768)
		reject("layer in unsupported mode", &dd, psdgen.Encode(&dd, r).Bytes, false)
		// layers at two places.
		if ld.Placement == "" && ld.HasAdditional {
			e := psdgen.EncodeBoth(ld, r)
			reject("layers at two places (layer)", ld, e, false)
		}
		// nested layers.
		dd = *ld
		fl2 := *dd.Flat[0]
		inner := psdgen.EncodeLayerInfo(ld, r)
		fl2.Infos = append(append([]psdgen.KV{}, fl2.Infos...), psdgen.KV{Sig: "8BIM", Key: []string{"Layr", "Lr16", "Lr32"}[r.Intn(3)], Data: inner})
		dd.Flat = append([]*psdgen.Layer{&fl2}, dd.Flat[1:]...)
		reject("layers in a layer", &dd, psdgen.Encode(&dd, r).Bytes, false)
	}
}

// otherSig returns a signature that is not valid at the place.
func otherSig(r *rand.Rand, place string) string {
	s := []string{"8BPS", "8bim", "8BIN", "8B\x00\x00", "8888", "8\x00\x00\x00", "8B65", "8BMI", "8BI ", "8b64", "8GIM"}
	if place != "infoSig" {
		// paddings are skipped until '8'.
		s = append(s, "\x00\x00\x00\x00", "MIB8", "norm", "    ", "\xff\xff\xff\xff", "BIM\x00", "mesa", "8B64", "SeMa")
	}
	if place != "infoSig" && place != "resSig" {
		s = append(s, "MeSa", "PHUT", "AgHg", "DCSR")
	}
	return s[r.Intn(len(s))]
}

// lenNode is a length field and the interval it covers.
type lenNode struct {
	name       string
	off, size  int
	start, end int
	parent     *lenNode
	// last is the end of the last thing that is not a padding.
	last int
	// lastStart is where the last child that has own length begins with its header.
	hasPad bool
}

func lengthNodes(f *psdgen.File) []*lenNode {
	var ns []*lenNode
	for _, fl := range f.Fields {
		if fl.Kind != "len" {
			continue
		}
		n := &lenNode{name: strings.SplitN(fl.Name, ":", 2)[0], off: fl.Off, size: fl.Size, start: fl.Off + fl.Size}
		v := uint64(0)
		for _, x := range f.Bytes[fl.Off : fl.Off+fl.Size] {
			v = v<<8 | uint64(x)
		}
		n.end = n.start + int(v)
		n.last = n.start
		// fields are in the order of the file, so the last one that contains it is the nearest.
		for _, m := range ns {
			if m.start <= n.off && n.end <= m.end && m.end > m.start {
				n.parent = m
			}
		}
		ns = append(ns, n)
	}
	for _, fl := range f.Fields {
		for _, n := range ns {
			if n.start <= fl.Off && fl.Off+fl.Size <= n.end {
				if fl.Kind != "pad" {
					n.last = fl.Off + fl.Size
				}
			}
		}
	}
	for _, n := range ns {
		n.hasPad = n.last != n.end
	}
	return ns
}

// rejectLengths makes a length disagree with that of the section that contains it.
func rejectLengths(c *vk.Ctx, reject func(string, *psdgen.Doc, []byte, bool), d *psdgen.Doc, f *psdgen.File) {
	r := c.Rng
	ns := lengthNodes(f)
	set := func(n *lenNode, end int) []byte {
		b := append([]byte{}, f.Bytes...)
		putBE(b[n.off:n.start], uint64(end-n.start))
		return b
	}
	for _, n := range ns {
		if r.Intn(4) > 0 && len(ns) > 12 {
			continue
		}
		// a part that goes beyond the end of the whole.
		if n.parent != nil {
			end := n.parent.end + 1 + r.Intn(8)
			if n.size > 1 || end-n.start < 256 {
				reject("length: "+n.name+" (layer or resource) beyond "+n.parent.name, d, set(n, end), n.parent.name == "imageResLen")
			}
		}
		// a length that does not fit in int of some platforms.
		if size := n.start - n.off; size >= 4 {
			b := append([]byte{}, f.Bytes...)
			v := uint64(n.end - n.start)
			if size == 8 {
				v |= 1 << []uint{31, 32, 33, 47, 62, 63}[r.Intn(6)]
			} else {
				v |= 1 << 31
			}
			putBE(b[n.off:n.start], v)
			reject("length: "+n.name+" (layer or resource) huge", d, b, n.name == "imageResLen" || n.parent != nil && n.parent.name == "imageResLen")
		}
		if n.hasPad || n.last-n.start < 4 {
			continue
		}
		k := 1 + r.Intn(3)
		if r.Intn(3) == 0 {
			k = 1 + r.Intn(n.last-n.start-2)
		}
		end := n.end - k
		switch n.name {
		case "imageResLen", "layerInfoLen":
		case "extraLen":
			// other than between blocks.
			if at := fieldAt(f, end); at == "infoPad" || at == "infoSig" && fieldStart(f, end) {
				continue
			}
		case "layerAndMaskLen":
			if d.HasAdditional {
				at := 0
				for _, fl := range f.Fields {
					if fl.Name == "infoSig" && fl.Off < n.end && fl.Off > f.LayerImgEnd {
						at = fl.Off
						break
					}
				}
				if at == 0 || end < at+8 {
					continue
				}
			} else if d.HasGlobal || d.Placement != "" {
				continue
			}
		default:
			continue
		}
		reject("length: "+n.name+" (layer or resource) shorter than the content", d, set(n, end), n.name == "imageResLen" && !fieldStart(f, end))
	}
	// data of the last channel.
	for i := len(f.Fields) - 1; i >= 0; i-- {
		fl := f.Fields[i]
		if fl.Kind != "chlen" {
			continue
		}
		l := d.Flat[len(d.Flat)-1]
		if len(l.Chans) == 0 {
			break
		}
		v := uint64(0)
		for _, x := range f.Bytes[fl.Off : fl.Off+fl.Size] {
			v = v<<8 | uint64(x)
		}
		b := append([]byte{}, f.Bytes...)
		putBE(b[fl.Off:fl.Off+fl.Size], v+uint64(d.LayerInfoPad+1+r.Intn(4)))
		reject("length: last channel (layer) beyond layerInfoLen", d, b, false)
		b = append([]byte{}, f.Bytes...)
		bit := uint(31)
		if fl.Size == 8 && r.Intn(3) > 0 {
			bit = 32
		}
		putBE(b[fl.Off:fl.Off+fl.Size], v|1<<bit)
		reject("length: last channel (layer) huge", d, b, false)
		ch := l.Chans[len(l.Chans)-1]
		if (ch.Comp == psdgen.Raw || ch.Comp == psdgen.RLE) && ch.Tail == 0 && !ch.NoData && v >= 4 {
			b := append([]byte{}, f.Bytes...)
			putBE(b[fl.Off:fl.Off+fl.Size], v-1-uint64(r.Intn(int(v-3))))
			reject("length: last channel (layer) shorter than the content", d, b, false)
		}
		break
	}
}

func fieldStart(f *psdgen.File, n int) bool {
	for _, fl := range f.Fields {
		if fl.Off == n {
			return true
		}
	}
	return false
}
