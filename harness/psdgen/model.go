// Package psdgen has a model of Photoshop documents, a generator of random
// documents, and an encoder that was written from the file format
// specification independently of the decoder.
package psdgen

import (
	"fmt"
	"image"
	"math"
	"math/rand"
	"unicode/utf16"
)

// Color modes.
const (
	Bitmap    = 0
	Grayscale = 1
	Indexed   = 2
	RGB       = 3
	CMYK      = 4
)

// Compression methods.
const (
	Raw = iota
	RLE
	ZIP
	ZIPPred
)

// Res is an image resource.
type Res struct {
	Sig  string
	ID   int
	Name []byte
	Data []byte
}

// KV is an additional layer information.
type KV struct {
	Sig  string
	Key  string
	Data []byte
	Pad  int // zeros after the data that are not a part of the length
}

// Chan is a channel of the layer.
type Chan struct {
	ID   int
	Rect image.Rectangle
	Comp int
	Data []byte // uncompressed
	Tail int    // junk after the compressed data
	// NoData is true if the channel has the compression method only.
	NoData bool
}

// Mask is the layer mask data.
type Mask struct {
	Len     int // -1: none
	Rect    image.Rectangle
	Default int
	Flags   int

	Param         int // -1: none
	UserDensity   int
	UserFeather   float64
	VectorDensity int
	VectorFeather float64

	Real      bool
	RealFlags int
	RealBG    int
	RealRect  image.Rectangle
	Extra     int  // junk after everything
	Short     int  // >0: only junk of this length (<16)
	Wild      bool // the data ends somewhere after Rect, or has arbitrary bytes after Flags
	Junk      []byte
}

// Layer is a record of the layer.
type Layer struct {
	Rect     image.Rectangle
	Chans    []*Chan
	Blend    string
	Opacity  uint8
	Clipping bool
	Flags    uint8
	Mask     Mask
	Ranges   []byte
	Pascal   []byte
	Infos    []KV

	// Expectations.
	HasLuni  bool
	Luni     string
	ClblSet  bool
	Clbl     bool
	SectType int
	SectBM   string
	SectSub  int

	Folder   bool
	Children []*Layer

	SeqID int
}

// Doc is a document.
type Doc struct {
	PSB           bool
	Mode, Depth   int
	W, H          int
	Channels      int
	ColorModeData []byte
	Res           []Res

	NoLayerSection bool
	Roots          []*Layer
	Flat           []*Layer // file order
	NegCount       bool
	EmptyLayerInfo int    // how to write no layers: 0: length 0, 1: count 0
	Placement      string // "", Lr16, Lr32, Layr
	LayerInfoPad   int
	HasGlobal      bool
	GlobalMask     []byte
	HasAdditional  bool
	Infos          []KV
	AddPad         int
	SectionPad     int

	MergedComp int
	Merged     [][]byte // planes

	Level int // zlib
	// RLE encoder behaviour
	RLENoop bool
}

// BaseChannels returns the number of color channels.
func BaseChannels(mode int) int {
	switch mode {
	case RGB:
		return 3
	case CMYK:
		return 4
	}
	return 1
}

// RowBytes returns the number of bytes in a row.
func RowBytes(w, depth int) int { return (w*depth + 7) / 8 }

// HasAlpha returns whether the merged image has the transparency.
func (d *Doc) HasAlpha() bool {
	if d.Mode == Bitmap || d.Mode == Indexed {
		return false
	}
	if d.Channels <= BaseChannels(d.Mode) {
		return false
	}
	for _, r := range d.Res {
		if r.ID == 0x041D {
			for i := 0; i+4 <= len(r.Data); i += 4 {
				if r.Data[i] == 0 && r.Data[i+1] == 0 && r.Data[i+2] == 0 && r.Data[i+3] == 0 {
					return true
				}
			}
			return false
		}
	}
	return true
}

// TransparentIndex returns the index of transparent color of the palette.
func (d *Doc) TransparentIndex() int {
	for _, r := range d.Res {
		if r.ID == 0x0417 {
			return int(r.Data[0])<<8 | int(r.Data[1])
		}
	}
	return -1
}

func (d *Doc) String() string {
	v := "psd"
	if d.PSB {
		v = "psb"
	}
	s := fmt.Sprintf("%s mode=%d depth=%d %dx%d ch=%d cmd=%d res=%d comp=%d layers=%d", v, d.Mode, d.Depth, d.W, d.H, d.Channels, len(d.ColorModeData), len(d.Res), d.MergedComp, len(d.Flat))
	if d.Placement != "" {
		s += " in=" + d.Placement
	}
	return s
}

// Sample returns the sample at the position. It's 0..1 except for the float.
func Sample(plane []byte, w, depth, x, y int) float64 {
	rb := RowBytes(w, depth)
	switch depth {
	case 1:
		if plane[y*rb+x/8]&(0x80>>uint(x%8)) != 0 {
			return 1
		}
		return 0
	case 8:
		return float64(plane[y*rb+x]) / 255
	case 16:
		p := plane[y*rb+x*2:]
		return float64(int(p[0])<<8|int(p[1])) / 65535
	case 32:
		p := plane[y*rb+x*4:]
		return float64(math.Float32frombits(uint32(p[0])<<24 | uint32(p[1])<<16 | uint32(p[2])<<8 | uint32(p[3])))
	}
	panic("depth")
}

func clamp01(v float64) float64 {
	switch {
	case v >= 1:
		return 1
	case v > 0:
		return v
	}
	return 0 // incl. NaN
}

func colorOf(v float64, depth int) float64 {
	if depth == 32 {
		return math.Pow(clamp01(v), 1/2.2)
	}
	return v
}

// GrayRGBA returns the color of the channel sample, 0..65535.
func GrayRGBA(plane []byte, w, depth, x, y int) [4]float64 {
	v := Sample(plane, w, depth, x, y)
	if depth == 1 {
		v = 1 - v // 1 is black
	} else {
		v = colorOf(v, depth)
	}
	v *= 65535
	return [4]float64{v, v, v, 65535}
}

// PixelRGBA returns the premultiplied color of the pixel, 0..65535.
// planes has color channels and the alpha if any.
func PixelRGBA(mode, depth, w int, planes [][]byte, hasAlpha bool, pal []byte, transparent int, x, y int) [4]float64 {
	s := func(i int) float64 { return colorOf(Sample(planes[i], w, depth, x, y), depth) }
	var r, g, b float64
	a := 1.0
	switch mode {
	case Bitmap:
		return GrayRGBA(planes[0], w, depth, x, y)
	case Indexed:
		i := int(planes[0][y*w+x])
		if i == transparent {
			return [4]float64{}
		}
		return [4]float64{float64(pal[i]) * 257, float64(pal[i+256]) * 257, float64(pal[i+512]) * 257, 65535}
	case Grayscale:
		r = s(0)
		g, b = r, r
	case RGB:
		r, g, b = s(0), s(1), s(2)
	case CMYK:
		k := s(3)
		r, g, b = s(0)*k, s(1)*k, s(2)*k
	}
	if hasAlpha {
		a = clamp01(Sample(planes[BaseChannels(mode)], w, depth, x, y))
	}
	return [4]float64{r * a * 65535, g * a * 65535, b * a * 65535, a * 65535}
}

// --- generator

// Opt controls the generator.
type Opt struct {
	MaxDim     int // default 24
	MaxLayers  int // default 8
	NoLayers   bool
	ForceLayer bool
	Modes      []int
	Comp       []int // merged compression methods
	LayerComp  []int
	PSB        int // 0 random 1 psd 2 psb
	Depth      int
	Big        bool // sometimes larger
	NoFolders  bool
	Many       bool // sometimes hundreds of layers or more
	Extreme    bool // sometimes large numbers or sizes of anything
	extreme    int

	deep bool // folders are nested deeply
}

func pick(r *rand.Rand, a []int) int { return a[r.Intn(len(a))] }

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// RandDoc returns a random document.
func RandDoc(r *rand.Rand, o Opt) *Doc {
	if o.MaxDim == 0 {
		o.MaxDim = 24
	}
	if o.MaxLayers == 0 {
		o.MaxLayers = 8
	}
	if o.Modes == nil {
		o.Modes = []int{Bitmap, Grayscale, Grayscale, Indexed, RGB, RGB, RGB, CMYK, CMYK}
	}
	if o.Comp == nil {
		o.Comp = []int{Raw, RLE, ZIP, ZIPPred}
	}
	if o.LayerComp == nil {
		o.LayerComp = []int{Raw, RLE, ZIP, ZIPPred}
	}
	if o.Extreme && r.Intn(30) == 0 {
		o.extreme = 1 + r.Intn(extremes)
	}
	d := &Doc{Level: r.Intn(10), RLENoop: r.Intn(4) == 0}
	switch o.PSB {
	case 0:
		d.PSB = r.Intn(3) == 0
	case 2:
		d.PSB = true
	}
	d.Mode = pick(r, o.Modes)
	switch d.Mode {
	case Bitmap:
		d.Depth = 1
	case Indexed:
		d.Depth = 8
	case CMYK:
		d.Depth = pick(r, []int{8, 16})
	default:
		d.Depth = pick(r, []int{8, 8, 16, 32})
	}
	if o.Depth != 0 {
		d.Depth = o.Depth
	}
	d.W, d.H = 1+r.Intn(o.MaxDim), 1+r.Intn(o.MaxDim)
	if o.Big {
		switch r.Intn(12) {
		case 0:
			d.W = 100 + r.Intn(500)
			if r.Intn(12) == 0 {
				// rows longer than 64 KB
				d.PSB = true
				d.W, d.H = 30001+r.Intn(60000), 1+r.Intn(2)
				o.NoLayers, o.ForceLayer = true, false
			}
		case 1:
			d.H = 100 + r.Intn(400)
		case 2:
			d.W, d.H = 64+r.Intn(100), 64+r.Intn(100)
			if r.Intn(15) == 0 {
				d.W, d.H = 500+r.Intn(700), 500+r.Intn(500)
				o.NoLayers, o.ForceLayer = true, false
			}
		}
	}
	base := BaseChannels(d.Mode)
	d.Channels = base
	if d.Mode != Bitmap && r.Intn(2) == 0 {
		d.Channels += 1 + r.Intn(3)
		if r.Intn(15) == 0 && d.W*d.H < 1000 {
			d.Channels = base + r.Intn(57-base)
		}
	}
	switch {
	case d.Mode == Indexed:
		d.ColorModeData = randBytes(r, 768)
	case r.Intn(6) == 0:
		d.ColorModeData = randBytes(r, 1+r.Intn(200))
		if r.Intn(12) == 0 {
			d.ColorModeData = randBytes(r, roundSize(r, 65000+r.Intn(2000)))
		}
	}
	genRes(r, d, o.extreme)
	d.MergedComp = pick(r, o.Comp)
	if d.Depth == 1 && d.MergedComp == ZIPPred {
		d.MergedComp = ZIP
	}
	// This may reduce the size of the canvas.
	genLayerSection(r, d, o)
	for i := 0; i < d.Channels; i++ {
		d.Merged = append(d.Merged, RandPlane(r, d.W, d.H, d.Depth))
	}
	return d
}

// RandPlane returns random samples.
func RandPlane(r *rand.Rand, w, h, depth int) []byte {
	rb := RowBytes(w, depth)
	b := make([]byte, rb*h)
	switch r.Intn(5) {
	case 0: // constant
		v := byte(r.Intn(256))
		for i := range b {
			b[i] = v
		}
	case 1: // runs
		for i := 0; i < len(b); {
			v := byte(r.Intn(256))
			for n := 1 + r.Intn(300); n > 0 && i < len(b); n-- {
				b[i] = v
				i++
			}
		}
	case 2: // gradient
		s := r.Intn(7)
		for i := range b {
			b[i] = byte(i * s)
		}
	case 3: // extremes
		for i := range b {
			b[i] = byte(-(r.Intn(2)))
		}
	default:
		r.Read(b)
	}
	if depth == 32 {
		for i := 0; i+4 <= len(b); i += 4 {
			var f float32
			switch r.Intn(12) {
			case 0:
				f = 0
			case 1:
				f = 1
			case 2:
				f = float32(r.NormFloat64() * 3)
			case 3:
				f = float32(math.NaN())
				if r.Intn(2) == 0 {
					f = float32(math.Inf(1 - 2*r.Intn(2)))
				}
			default:
				f = r.Float32()
			}
			u := math.Float32bits(f)
			b[i], b[i+1], b[i+2], b[i+3] = byte(u>>24), byte(u>>16), byte(u>>8), byte(u)
		}
	}
	return b
}

const (
	_ = iota
	manyResources
	largeData
	deepFolders
	manyChannels
	longNames
	longRanges
	extremes = longRanges
)

// roundSize returns a size at which buffers are likely to end, or n.
func roundSize(r *rand.Rand, n int) int {
	if r.Intn(2) == 0 {
		return n
	}
	k := 6 + r.Intn(11)
	if r.Intn(3) == 0 {
		k = 12
	}
	m := 1 << uint(k)
	if k < 15 && r.Intn(2) == 0 {
		m *= 1 + r.Intn(1<<17/m)
	}
	if k == 16 {
		m *= 1 + r.Intn(3)
	}
	return m + []int{0, 0, 0, -1, 1, -2, 2}[r.Intn(7)]
}

// largeBytes returns megabytes.
func largeBytes(r *rand.Rand) []byte {
	n := 1 << uint(20+r.Intn(4))
	if r.Intn(2) == 0 {
		n += r.Intn(100000)
	}
	b := make([]byte, n)
	for i := 0; i < len(b); i += 1 + r.Intn(5) {
		b[i] = byte(i*7 + i>>8 + i>>16)
	}
	return b
}

func genRes(r *rand.Rand, d *Doc, extreme int) {
	used := map[int]bool{0x0417: true, 0x041D: true}
	sigs := []string{"8BIM", "8BIM", "8BIM", "MeSa", "PHUT", "AgHg", "DCSR"}
	n := r.Intn(5)
	if r.Intn(30) == 0 {
		n = 50 + r.Intn(50)
	}
	large := -1
	switch extreme {
	case manyResources:
		n = 250 + r.Intn(500)
	case largeData:
		n++
		large = r.Intn(n)
	}
	for ; n > 0; n-- {
		id := r.Intn(65536)
		if used[id] {
			continue
		}
		used[id] = true
		rs := Res{Sig: sigs[r.Intn(len(sigs))], ID: id, Data: randBytes(r, r.Intn(40))}
		if r.Intn(8) == 0 {
			rs.Data = randBytes(r, roundSize(r, 60000+r.Intn(20000)))
			if extreme == manyResources {
				rs.Data = rs.Data[:min(1000, len(rs.Data))]
			}
		}
		if n-1 == large {
			rs.Data = largeBytes(r)
		}
		if r.Intn(2) == 0 {
			rs.Name = randBytes(r, r.Intn(256))
		}
		d.Res = append(d.Res, rs)
	}
	if d.Channels > BaseChannels(d.Mode) && r.Intn(2) == 0 {
		var data []byte
		for i := BaseChannels(d.Mode); i < d.Channels; i++ {
			v := 0
			if r.Intn(2) == 0 {
				v = 1 + r.Intn(1000)
				if r.Intn(2) == 0 {
					v <<= 16
				}
			}
			data = append(data, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
		}
		d.Res = append(d.Res, Res{Sig: "8BIM", ID: 0x041D, Data: data})
	}
	if d.Mode == Indexed && r.Intn(2) == 0 {
		v := r.Intn(256)
		if r.Intn(4) == 0 {
			v = 256 + r.Intn(1000)
		}
		d.Res = append(d.Res, Res{Sig: "8BIM", ID: 0x0417, Data: []byte{byte(v >> 8), byte(v)}})
	}
	r.Shuffle(len(d.Res), func(i, j int) { d.Res[i], d.Res[j] = d.Res[j], d.Res[i] })
}

// BlendKeys are keys of all blend modes.
var BlendKeys = []string{
	"pass", "norm", "diss", "dark", "mul ", "idiv", "lbrn", "dkCl", "lite", "scrn", "div ", "lddg", "lgCl",
	"over", "sLit", "hLit", "vLit", "lLit", "pLit", "hMix", "diff", "smud", "fsub", "fdiv", "hue ", "sat ", "colr", "lum ",
}

var extraKeys = []string{"lyid", "lclr", "fxrp", "shmd", "iOpa", "infx", "knko", "lspf", "LMsk", "FMsk", "Patt", "lfx2", "FEid", "PxSD", "lnk2", "Mtrn", "cinf",
	"FXid", "Alph", "Mt16", "Mt32"}

func genInfos(r *rand.Rand, n int) []KV {
	var kvs []KV
	// What has a meaning is made elsewhere.
	used := map[string]bool{"lsct": true, "lsdk": true, "luni": true, "clbl": true, "Layr": true, "Lr16": true, "Lr32": true, "lnkE": true}
	if n > 0 && r.Intn(20) == 0 {
		n = 20 + r.Intn(20)
	}
	for ; n > 0; n-- {
		k := extraKeys[r.Intn(len(extraKeys))]
		if r.Intn(6) == 0 {
			k = string([]byte{byte(0x20 + r.Intn(95)), byte(0x20 + r.Intn(95)), byte(0x20 + r.Intn(95)), byte(0x20 + r.Intn(95))})
		}
		if used[k] {
			continue
		}
		used[k] = true
		kv := KV{Sig: "8BIM", Key: k, Data: randBytes(r, r.Intn(30))}
		if r.Intn(12) == 0 {
			kv.Data = randBytes(r, roundSize(r, 65530+r.Intn(500)))
		}
		if r.Intn(5) == 0 {
			kv.Sig = "8B64"
		}
		kvs = append(kvs, kv)
	}
	return kvs
}

func genLayerSection(r *rand.Rand, d *Doc, o Opt) {
	canLayer := d.Mode == Grayscale || d.Mode == RGB || d.Mode == CMYK
	if !canLayer || o.NoLayers || (!o.ForceLayer && r.Intn(6) == 0) {
		d.NoLayerSection = r.Intn(2) == 0
	} else {
		budget := 1 + r.Intn(o.MaxLayers)
		if o.extreme == deepFolders {
			budget = 70 + r.Intn(400)
			d.W, d.H = min(d.W, 2), min(d.H, 2)
			o.deep = true
			o.LayerComp = []int{Raw}
		} else if o.Many && r.Intn(60) == 0 {
			budget = 250 + r.Intn(200)
			d.W, d.H = min(d.W, 2), min(d.H, 2)
			if r.Intn(15) == 0 {
				budget = 5000
			}
		} else if r.Intn(40) == 0 && d.W*d.H < 1000 {
			budget = 10 + r.Intn(50)
			o.deep = true
			o.LayerComp = []int{Raw}
		}
		d.Roots = genNodes(r, d, o, &budget, 0)
		d.Flat = flatten(d.Roots, nil)
		for i, l := range d.Flat {
			l.SeqID = i
		}
	}
	if d.NoLayerSection {
		return
	}
	d.NegCount = r.Intn(2) == 0
	d.EmptyLayerInfo = r.Intn(2)
	d.LayerInfoPad = r.Intn(4)
	if len(d.Flat) > 0 && r.Intn(3) == 0 {
		switch d.Depth {
		case 16:
			d.Placement = "Lr16"
		case 32:
			d.Placement = "Lr32"
		default:
			d.Placement = "Layr"
		}
	}
	d.HasGlobal = r.Intn(3) > 0 || d.Placement != ""
	if d.HasGlobal {
		if r.Intn(2) == 0 {
			d.GlobalMask = randBytes(r, r.Intn(30))
			if r.Intn(60) == 0 {
				d.GlobalMask = randBytes(r, roundSize(r, 65530+r.Intn(100)))
			}
		}
		d.HasAdditional = r.Intn(2) == 0 || d.Placement != ""
	}
	if d.HasAdditional {
		d.Infos = genInfos(r, r.Intn(4))
		for i := range d.Infos {
			d.Infos[i].Pad = r.Intn(4)
		}
		if len(d.Infos) == 0 && d.Placement == "" {
			d.Infos = []KV{{Sig: "8BIM", Key: "Patt", Data: nil}}
		}
		d.AddPad = r.Intn(4)
	} else {
		d.SectionPad = r.Intn(4)
	}
}

func genNodes(r *rand.Rand, d *Doc, o Opt, budget *int, depth int) []*Layer {
	var ns []*Layer
	for *budget > 0 {
		if len(ns) > 0 && r.Intn(4) == 0 && depth > 0 {
			break
		}
		*budget--
		l := genLayer(r, d, o)
		if !o.NoFolders && (o.deep && (r.Intn(10) > 0 || o.extreme == deepFolders && r.Intn(20) > 0) || r.Intn(3) == 0 && depth < 5) {
			l.Folder = true
			if r.Intn(5) > 0 || o.extreme == deepFolders {
				l.Children = genNodes(r, d, o, budget, depth+1)
			}
		}
		finishLayer(r, l, o.extreme)
		ns = append(ns, l)
	}
	return ns
}

// flatten returns layers in the file order.
func flatten(ns []*Layer, flat []*Layer) []*Layer {
	for _, n := range ns {
		if n.Folder {
			m := &Layer{
				Blend: "norm", Opacity: 255, Flags: 0, SectType: 3,
				Pascal: []byte("</Layer group>"),
				Mask:   Mask{Len: -1},
				Infos:  []KV{{Sig: "8BIM", Key: "lsct", Data: []byte{0, 0, 0, 3}}},
				SectBM: "norm",
			}
			// it usually has channels.
			for id := -1; id < 3; id++ {
				m.Chans = append(m.Chans, &Chan{ID: id, NoData: true})
			}
			flat = append(flat, m)
			flat = flatten(n.Children, flat)
		}
		flat = append(flat, n)
	}
	return flat
}

func randRect(r *rand.Rand, d *Doc) image.Rectangle {
	x, y := r.Intn(d.W*2+8)-d.W/2-4, r.Intn(d.H*2+8)-d.H/2-4
	w, h := 1+r.Intn(d.W+4), 1+r.Intn(d.H+4)
	switch r.Intn(12) {
	case 0:
		w = 0
	case 1:
		h = 0
	case 2:
		x, y, w, h = 0, 0, 0, 0
	case 3:
		x, y, w, h = 0, 0, d.W, d.H
	case 4:
		x, y = x-70000*r.Intn(2), y+70000
	case 5:
		if r.Intn(6) == 0 { // the limit of the file format
			const lim = math.MaxInt32
			far := func(n int) int {
				return []int{-lim - 1, -lim, -1 << 30, 1 << 30, lim - n - 1, lim - n}[r.Intn(6)]
			}
			if r.Intn(3) > 0 {
				x = far(w)
			}
			if r.Intn(3) > 0 {
				y = far(h)
			}
		}
	case 6:
		if d.W*d.H < 1000 && r.Intn(12) == 0 { // much larger than the canvas
			w, h = 1+r.Intn(700), 1+r.Intn(3)
			if d.PSB && r.Intn(8) == 0 {
				w, h = 15000+r.Intn(60000), 1
			}
			if r.Intn(4) == 0 {
				w, h = 1+r.Intn(3), 1+r.Intn(700)
			}
		}
	}
	return image.Rect(x, y, x+w, y+h)
}

func genLayer(r *rand.Rand, d *Doc, o Opt) *Layer {
	l := &Layer{
		Rect:     randRect(r, d),
		Blend:    BlendKeys[r.Intn(len(BlendKeys))],
		Opacity:  uint8(r.Intn(256)),
		Clipping: r.Intn(3) == 0,
		Flags:    uint8(r.Intn(256)),
		Ranges:   randBytes(r, r.Intn(3)*8),
	}
	if r.Intn(3) == 0 {
		l.Opacity = 255
	}
	if o.extreme == longRanges && r.Intn(3) == 0 {
		l.Ranges = randBytes(r, 8*(8000+r.Intn(1000)))
	}
	genMask(r, d, l)
	base := BaseChannels(d.Mode)
	var ids []int
	for i := 0; i < base; i++ {
		ids = append(ids, i)
	}
	if r.Intn(10) == 0 { // a missing color channel
		k := r.Intn(len(ids))
		ids = append(ids[:k], ids[k+1:]...)
	}
	if r.Intn(3) > 0 {
		ids = append(ids, -1)
	}
	if l.Mask.Len > 0 && l.Mask.Short == 0 && r.Intn(8) > 0 {
		ids = append(ids, -2)
		if l.Mask.Real {
			ids = append(ids, -3)
		}
	}
	if r.Intn(8) == 0 { // spot
		ids = append(ids, base+r.Intn(4))
	}
	if o.extreme == manyChannels && r.Intn(4) == 0 && l.Rect.Dx()*l.Rect.Dy() < 100 {
		id := base + 4
		for n := 1 + r.Intn(80); n > 0 && id < 32000; n-- {
			id += 1 + r.Intn(1+r.Intn(400))
			ids = append(ids, id)
		}
	}
	if r.Intn(2) == 0 {
		r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	} else if n := len(ids); r.Intn(2) == 0 {
		// Photoshop writes the transparency first.
		for i := 0; i < n; i++ {
			if ids[i] == -1 {
				copy(ids[1:i+1], ids[:i])
				ids[0] = -1
			}
		}
	}
	for _, id := range ids {
		c := &Chan{ID: id, Comp: pick(r, o.LayerComp)}
		switch id {
		case -2:
			c.Rect = l.Mask.Rect
		case -3:
			c.Rect = l.Mask.RealRect
		default:
			c.Rect = l.Rect
		}
		c.Data = RandPlane(r, c.Rect.Dx(), c.Rect.Dy(), d.Depth)
		if len(c.Data) == 0 {
			c.NoData = r.Intn(2) == 0
		}
		if r.Intn(8) == 0 && !c.NoData {
			c.Tail = 1 + r.Intn(3)
		}
		l.Chans = append(l.Chans, c)
	}
	return l
}

func genMask(r *rand.Rand, d *Doc, l *Layer) {
	m := &l.Mask
	m.Param = -1
	m.Len = -1
	if r.Intn(2) == 0 {
		return
	}
	if r.Intn(10) == 0 {
		m.Len = 1 + r.Intn(15)
		m.Short = m.Len
		return
	}
	m.Rect = randRect(r, d)
	m.Default = 255 * r.Intn(2)
	m.Flags = r.Intn(32) &^ 16
	m.Len = 20
	if r.Intn(8) == 0 {
		// The data of any length: what is there is to be read, and nothing else is.
		m.Wild = true
		m.Len = 16 + r.Intn(40)
		if m.Len < 17 {
			m.Default = 0
		}
		if m.Len < 18 {
			m.Flags = 0
			return
		}
		m.Flags |= r.Intn(2) << 4
		m.Junk = randBytes(r, m.Len-18)
		if len(m.Junk) > 0 && r.Intn(3) > 0 {
			m.Junk[0] &= 15
		}
		return
	}
	switch r.Intn(4) {
	case 0:
		m.Flags |= 16
		m.Param = r.Intn(16)
		m.Len = 18 + 1
		m.UserDensity, m.VectorDensity = r.Intn(256), r.Intn(256)
		m.UserFeather, m.VectorFeather = r.Float64()*250, r.Float64()*250
		if r.Intn(8) == 0 {
			m.UserFeather = math.Float64frombits(r.Uint64())
		}
		if r.Intn(8) == 0 {
			m.VectorFeather = []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 5e-324, -1}[r.Intn(6)]
		}
		for i, n := range []int{1, 8, 1, 8} {
			if m.Param&(1<<uint(i)) != 0 {
				m.Len += n
			}
		}
	case 1:
		m.Real = true
		m.Len = 36
		m.RealFlags = r.Intn(32)
		m.RealBG = 255 * r.Intn(2)
		m.RealRect = randRect(r, d)
		if r.Intn(3) == 0 {
			m.Extra = 1 + r.Intn(4)
			m.Len += m.Extra
		}
	}
}

// randUnits returns a name in UTF-16, which may have anything that is possible in files.
func randUnits(r *rand.Rand) []uint16 {
	n := r.Intn(12)
	if r.Intn(25) == 0 {
		n = []int{126, 127, 128, 254, 255, 256, 257, 1000}[r.Intn(8)]
	}
	var rs []uint16
	for ; n > 0; n-- {
		switch r.Intn(6) {
		case 0:
			rs = append(rs, uint16(0x3041+r.Intn(80)))
		case 1:
			rs = append(rs, utf16.Encode([]rune{rune(0x1F300 + r.Intn(200))})...)
		case 2:
			rs = append(rs, uint16(0x4E00+r.Intn(1000)))
		case 3:
			switch r.Intn(8) {
			case 0: // incl. surrogates that are not paired
				rs = append(rs, uint16(0xD800+r.Intn(0x800)))
			case 1:
				rs = append(rs, uint16(r.Intn(0x20)))
			case 2:
				rs = append(rs, []uint16{0xFEFF, 0xFFFE, 0xFFFF, 0xFFFD, 0, 0x7F, 0x80, 0xE000, 0x200F}[r.Intn(9)])
			case 3:
				rs = append(rs, utf16.Encode([]rune{rune(0x10000 + r.Intn(0x100000))})...)
			default:
				rs = append(rs, uint16(r.Intn(0x10000)))
			}
		default:
			rs = append(rs, uint16(0x20+r.Intn(95)))
		}
	}
	return rs
}

// luniBlock returns a random name and the data of its block.
func luniBlock(r *rand.Rand, long bool) (string, []byte) {
	u := randUnits(r)
	for n := 1000 << uint(r.Intn(8)); long && len(u) < n; {
		u = append(u, randUnits(r)...)
	}
	b := []byte{0, byte(len(u) >> 16), byte(len(u) >> 8), byte(len(u))}
	for _, c := range u {
		b = append(b, byte(c>>8), byte(c))
	}
	return string(utf16.Decode(u)), b
}

func finishLayer(r *rand.Rand, l *Layer, extreme int) {
	l.Pascal = randBytes(r, r.Intn(40))
	if r.Intn(10) == 0 {
		l.Pascal = randBytes(r, 255)
	}
	l.SectBM = l.Blend
	kvs := genInfos(r, r.Intn(4))
	if extreme == largeData && len(kvs) > 0 && r.Intn(8) == 0 {
		kvs[0].Data = largeBytes(r)
	}
	if r.Intn(3) > 0 {
		l.HasLuni = true
		var b []byte
		l.Luni, b = luniBlock(r, extreme == longNames && r.Intn(4) == 0)
		if r.Intn(2) == 0 {
			b = append(b, make([]byte, r.Intn(4))...)
		}
		kvs = append(kvs, KV{Sig: "8BIM", Key: "luni", Data: b})
	}
	if r.Intn(2) == 0 {
		l.ClblSet = true
		l.Clbl = r.Intn(2) == 0
		b := make([]byte, 4)
		if l.Clbl {
			b[0] = 1
		}
		kvs = append(kvs, KV{Sig: "8BIM", Key: "clbl", Data: b})
	}
	if l.Folder {
		l.SectType = 1 + r.Intn(2)
	}
	if l.Folder || r.Intn(8) == 0 {
		b := []byte{0, 0, 0, byte(l.SectType)}
		switch r.Intn(3) {
		case 0:
			l.SectBM = BlendKeys[r.Intn(len(BlendKeys))]
			b = append(append(b, "8BIM"...), l.SectBM...)
		case 1:
			l.SectBM = BlendKeys[r.Intn(len(BlendKeys))]
			b = append(append(b, "8BIM"...), l.SectBM...)
			l.SectSub = r.Intn(2)
			b = append(b, 0, 0, 0, byte(l.SectSub))
		}
		key := "lsct"
		if r.Intn(5) == 0 {
			key = "lsdk"
		}
		kvs = append(kvs, KV{Sig: "8BIM", Key: key, Data: b})
	}
	r.Shuffle(len(kvs), func(i, j int) { kvs[i], kvs[j] = kvs[j], kvs[i] })
	for i := range kvs {
		kvs[i].Pad = r.Intn(4)
		if r.Intn(2) == 0 {
			kvs[i].Pad = 0
		}
	}
	l.Infos = kvs
}

// Name returns the expected name.
func (l *Layer) Name() string {
	if l.HasLuni {
		return l.Luni
	}
	return string(l.Pascal)
}
