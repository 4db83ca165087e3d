package psdgen

import (
	"bytes"
	"compress/zlib"
	"image"
	"io"
	"math"
	"math/rand"
)

// Field is a field of the file.
type Field struct {
	Off, Size int
	// Kind: sig, len, count, dim, rect, enum, data, comp, pad, chlen, rowlen, value
	Kind string
	Name string
}

// File is an encoded document.
type File struct {
	Bytes  []byte
	Fields []Field
	// ends of sections
	HeaderEnd    int // the end of the color mode data
	ResEnd       int
	LayerSecEnd  int
	MergedData   int // beginning of the compressed data
	MergedNeed   int // shortest prefix that has the whole merged image: less than MergedEnd if ZIP
	LayerImages  int // beginning of the layer images (0: none)
	LayerImgEnd  int
	MergedEnd    int
	ZLIBTrailers []int // offsets of zlib checksums; 4 bytes each
}

type enc struct {
	b      []byte
	fields []Field
	r      *rand.Rand
	d      *Doc
	f      *File
}

func (e *enc) field(kind, name string, n int) {
	e.fields = append(e.fields, Field{len(e.b), n, kind, name})
}

func (e *enc) put(kind, name string, b []byte) {
	if len(b) == 0 {
		return
	}
	e.field(kind, name, len(b))
	e.b = append(e.b, b...)
}

func be(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

func (e *enc) num(kind, name string, v int, n int) { e.put(kind, name, be(uint64(v), n)) }

// length writes a placeholder.
func (e *enc) length(name string, n int) int {
	e.field("len", name, n)
	e.b = append(e.b, make([]byte, n)...)
	return len(e.b)
}

func (e *enc) patch(start, n int) {
	copy(e.b[start-n:start], be(uint64(len(e.b)-start), n))
}

func (e *enc) big() int {
	if e.d.PSB {
		return 8
	}
	return 4
}

// Encode writes the document. r decides encoder's freedoms.
func Encode(d *Doc, r *rand.Rand) *File {
	e := &enc{r: r, d: d, f: &File{}}
	ver := 1
	if d.PSB {
		ver = 2
	}
	e.put("sig", "8BPS", []byte("8BPS"))
	e.num("enum", "version", ver, 2)
	e.put("data", "reserved", make([]byte, 6))
	e.num("count", "channels", d.Channels, 2)
	e.num("dim", "height", d.H, 4)
	e.num("dim", "width", d.W, 4)
	e.num("enum", "depth", d.Depth, 2)
	e.num("enum", "mode", d.Mode, 2)
	e.num("len", "colorModeDataLen", len(d.ColorModeData), 4)
	e.put("data", "colorModeData", d.ColorModeData)
	e.f.HeaderEnd = len(e.b)

	p := e.length("imageResLen", 4)
	for _, rs := range d.Res {
		e.put("sig", "resSig", []byte(rs.Sig))
		e.num("enum", "resID", rs.ID, 2)
		e.pascal("resName", rs.Name, 2)
		e.num("len", "resLen", len(rs.Data), 4)
		e.put("data", "resData", rs.Data)
		if len(rs.Data)&1 != 0 {
			e.put("pad", "resPad", []byte{0})
		}
	}
	e.patch(p, 4)
	e.f.ResEnd = len(e.b)

	e.layerSection()
	e.f.LayerSecEnd = len(e.b)

	e.num("comp", "mergedComp", d.MergedComp, 2)
	e.f.MergedData = len(e.b)
	switch d.MergedComp {
	case RLE:
		e.rle("merged", d.Merged, RowBytes(d.W, d.Depth), d.H)
	default:
		e.put("data", "merged", e.compress(d.MergedComp, bytes.Join(d.Merged, nil), d.W, d.Depth))
	}
	if d.MergedComp == ZIP || d.MergedComp == ZIPPred {
		e.f.ZLIBTrailers = append(e.f.ZLIBTrailers, len(e.b)-4)
		e.f.MergedNeed = e.f.MergedData + inflateNeed(e.b[e.f.MergedData:], len(d.Merged)*RowBytes(d.W, d.Depth)*d.H)
	} else {
		e.f.MergedNeed = len(e.b)
	}
	e.f.MergedEnd = len(e.b)
	e.f.Bytes = e.b
	e.f.Fields = e.fields
	return e.f
}

func (e *enc) pascal(name string, s []byte, align int) {
	e.num("len", name+"Len", len(s), 1)
	e.put("data", name, s)
	if n := (1 + len(s)) % align; n != 0 {
		e.put("pad", name+"Pad", make([]byte, align-n))
	}
}

func (e *enc) layerSection() {
	d := e.d
	n := e.big()
	if d.NoLayerSection {
		e.num("len", "layerAndMaskLen", 0, n)
		return
	}
	sec := e.length("layerAndMaskLen", n)
	if d.Placement == "" {
		e.layerInfo()
	} else {
		e.num("len", "layerInfoLen", 0, n)
	}
	if d.HasGlobal {
		e.num("len", "globalMaskLen", len(d.GlobalMask), 4)
		e.put("data", "globalMask", d.GlobalMask)
	}
	if d.HasAdditional {
		at := -1
		if d.Placement != "" {
			at = e.r.Intn(len(d.Infos) + 1)
		}
		for i, kv := range d.Infos {
			if i == at {
				e.layerBlock()
			}
			e.kv(kv)
		}
		if at == len(d.Infos) {
			e.layerBlock()
		}
		e.put("pad", "addPad", make([]byte, d.AddPad))
	} else {
		e.put("pad", "sectionPad", make([]byte, d.SectionPad))
	}
	e.patch(sec, n)
}

func (e *enc) layerBlock() {
	e.put("sig", "infoSig", []byte("8BIM"))
	e.put("enum", "infoKey", []byte(e.d.Placement))
	e.layerInfo()
	e.put("pad", "infoPad", make([]byte, e.r.Intn(4)))
}

var long = map[string]bool{"LMsk": true, "Lr16": true, "Lr32": true, "Layr": true, "Mt16": true, "Mt32": true, "Mtrn": true,
	"Alph": true, "FMsk": true, "lnk2": true, "FEid": true, "FXid": true, "PxSD": true}

func (e *enc) kv(kv KV) {
	e.put("sig", "infoSig", []byte(kv.Sig))
	e.put("enum", "infoKey", []byte(kv.Key))
	n := 4
	if e.d.PSB && long[kv.Key] {
		n = 8
	}
	e.num("len", "infoLen:"+kv.Key, len(kv.Data), n)
	e.put("data", "infoData:"+kv.Key, kv.Data)
	e.put("pad", "infoPad", make([]byte, kv.Pad))
}

func (e *enc) rect(name string, r image.Rectangle) {
	for _, v := range []int{r.Min.Y, r.Min.X, r.Max.Y, r.Max.X} {
		e.num("rect", name, v, 4)
	}
}

func (e *enc) layerInfo() {
	d := e.d
	n := e.big()
	if len(d.Flat) == 0 && d.EmptyLayerInfo == 0 {
		e.num("len", "layerInfoLen", 0, n)
		return
	}
	p := e.length("layerInfoLen", n)
	cnt := len(d.Flat)
	if d.NegCount {
		cnt = -cnt
	}
	e.num("count", "numLayers", cnt, 2)
	// channel data is compressed first since the record has the length.
	comp := make([][][]byte, len(d.Flat))
	for i, l := range d.Flat {
		for _, c := range l.Chans {
			var b []byte
			if !c.NoData {
				b = e.channel(c)
			}
			comp[i] = append(comp[i], b)
		}
	}
	for i, l := range d.Flat {
		e.rect("layerRect", l.Rect)
		e.num("count", "numChannels", len(l.Chans), 2)
		for j, c := range l.Chans {
			e.num("enum", "channelID", c.ID, 2)
			e.num("chlen", "channelLen", 2+len(comp[i][j])+c.Tail, n)
		}
		e.put("sig", "blendSig", []byte("8BIM"))
		e.put("enum", "blendMode", []byte(l.Blend))
		clip := 0
		if l.Clipping {
			clip = 1
		}
		e.put("value", "opacityEtc", []byte{l.Opacity, byte(clip), l.Flags, 0})
		ex := e.length("extraLen", 4)
		e.mask(&l.Mask)
		e.num("len", "rangesLen", len(l.Ranges), 4)
		e.put("data", "ranges", l.Ranges)
		e.pascal("layerName", l.Pascal, 4)
		for _, kv := range l.Infos {
			e.kv(kv)
		}
		e.patch(ex, 4)
	}
	e.f.LayerImages = len(e.b)
	for i, l := range d.Flat {
		for j, c := range l.Chans {
			e.num("comp", "channelComp", c.Comp, 2)
			e.put("data", "channelData", comp[i][j])
			if c.Tail > 0 {
				e.put("pad", "channelTail", make([]byte, c.Tail))
			}
		}
	}
	e.f.LayerImgEnd = len(e.b)
	e.put("pad", "layerInfoPad", make([]byte, d.LayerInfoPad))
	e.patch(p, n)
}

func (e *enc) mask(m *Mask) {
	if m.Len < 0 {
		e.num("len", "maskLen", 0, 4)
		return
	}
	e.num("len", "maskLen", m.Len, 4)
	if m.Short > 0 {
		e.put("data", "maskJunk", make([]byte, m.Short))
		return
	}
	start := len(e.b)
	e.rect("maskRect", m.Rect)
	if m.Wild {
		b := append([]byte{byte(m.Default), byte(m.Flags)}, m.Junk...)
		e.put("value", "maskWild", b[:m.Len-16])
		return
	}
	e.num("value", "maskDefault", m.Default, 1)
	e.num("value", "maskFlags", m.Flags, 1)
	if m.Param >= 0 {
		e.num("value", "maskParam", m.Param, 1)
		if m.Param&1 != 0 {
			e.num("value", "maskUserDensity", m.UserDensity, 1)
		}
		if m.Param&2 != 0 {
			e.put("value", "maskUserFeather", be(math.Float64bits(m.UserFeather), 8))
		}
		if m.Param&4 != 0 {
			e.num("value", "maskVectorDensity", m.VectorDensity, 1)
		}
		if m.Param&8 != 0 {
			e.put("value", "maskVectorFeather", be(math.Float64bits(m.VectorFeather), 8))
		}
	}
	if m.Real {
		e.num("value", "maskRealFlags", m.RealFlags, 1)
		e.num("value", "maskRealBG", m.RealBG, 1)
		e.rect("maskRealRect", m.RealRect)
		e.put("pad", "maskExtra", make([]byte, m.Extra))
	}
	if n := m.Len - (len(e.b) - start); n > 0 {
		e.put("pad", "maskPad", make([]byte, n))
	}
}

func (e *enc) channel(c *Chan) []byte {
	w, h := c.Rect.Dx(), c.Rect.Dy()
	return CompressPlanes(c.Comp, [][]byte{c.Data}, w, h, e.d.Depth, e.d.PSB, e.d.Level, e.d.RLENoop, e.r)
}

func (e *enc) compress(comp int, data []byte, w, depth int) []byte {
	switch comp {
	case Raw:
		return data
	case ZIP:
		return deflate(data, e.d.Level)
	case ZIPPred:
		return deflate(Predict(data, w, depth), e.d.Level)
	}
	panic("comp")
}

// CompressPlanes compresses planes with the method.
func CompressPlanes(comp int, planes [][]byte, w, h, depth int, psb bool, level int, noop bool, r *rand.Rand) []byte {
	e := &enc{d: &Doc{PSB: psb, Level: level, RLENoop: noop}, r: r}
	if comp == RLE {
		e.rle("", planes, RowBytes(w, depth), h)
		return e.b
	}
	return e.compress(comp, bytes.Join(planes, nil), w, depth)
}

func deflate(b []byte, level int) []byte {
	var buf bytes.Buffer
	w, err := zlib.NewWriterLevel(&buf, level)
	if err != nil {
		panic(err)
	}
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

// Predict applies the prediction of the "ZIP with prediction".
func Predict(data []byte, w, depth int) []byte {
	out := append([]byte{}, data...)
	rb := RowBytes(w, depth)
	if rb == 0 {
		return out
	}
	for o := 0; o+rb <= len(out); o += rb {
		row := out[o : o+rb]
		src := data[o : o+rb]
		switch depth {
		case 8:
			for i := 1; i < rb; i++ {
				row[i] = src[i] - src[i-1]
			}
		case 16:
			for i := 2; i < rb; i += 2 {
				v := (int(src[i])<<8 | int(src[i+1])) - (int(src[i-2])<<8 | int(src[i-1]))
				row[i], row[i+1] = byte(v>>8), byte(v)
			}
		case 32:
			t := make([]byte, rb)
			for x := 0; x < w; x++ {
				for k := 0; k < 4; k++ {
					t[k*w+x] = src[x*4+k]
				}
			}
			row[0] = t[0]
			for i := 1; i < rb; i++ {
				row[i] = t[i] - t[i-1]
			}
		}
	}
	return out
}

func (e *enc) rle(name string, planes [][]byte, rb, h int) {
	n := 2
	if e.d.PSB {
		n = 4
	}
	var rows [][]byte
	for _, p := range planes {
		for y := 0; y < h; y++ {
			rows = append(rows, e.packBits(p[y*rb:(y+1)*rb]))
		}
	}
	for _, row := range rows {
		e.num("rowlen", name+"RowLen", len(row), n)
	}
	for _, row := range rows {
		e.put("data", name+"Row", row)
	}
}

// packBits compresses a row. The way of splitting is random.
func (e *enc) packBits(row []byte) []byte {
	r := e.r
	var out []byte
	style := r.Intn(3)
	for i := 0; i < len(row); {
		if e.d.RLENoop && r.Intn(6) == 0 {
			out = append(out, 0x80)
		}
		run := 1
		for i+run < len(row) && run < 128 && row[i+run] == row[i] {
			run++
		}
		if run >= 2 && (style != 0 || run >= 3) {
			if style == 2 && run > 2 && r.Intn(2) == 0 {
				run = 2 + r.Intn(run-1)
			}
			out = append(out, byte(257-run), row[i])
			i += run
			continue
		}
		// literal
		n := 1
		for i+n < len(row) && n < 128 {
			if i+n+2 < len(row) && row[i+n] == row[i+n+1] && row[i+n] == row[i+n+2] {
				break
			}
			n++
		}
		if style == 2 {
			n = 1 + r.Intn(n)
		}
		out = append(out, byte(n-1))
		out = append(out, row[i:i+n]...)
		i += n
	}
	return out
}

// EncodeLayerInfo returns the content of the layer info without the length.
func EncodeLayerInfo(d *Doc, r *rand.Rand) []byte {
	e := &enc{r: r, d: d, f: &File{}}
	e.layerInfo()
	return e.b[e.big():]
}

// EncodeBoth writes layers in both of the layer info and the additional info.
func EncodeBoth(d *Doc, r *rand.Rand) []byte {
	dd := *d
	key := "Layr"
	switch d.Depth {
	case 16:
		key = "Lr16"
	case 32:
		key = "Lr32"
	}
	dd.Infos = append(append([]KV{}, d.Infos...), KV{Sig: "8BIM", Key: key, Data: EncodeLayerInfo(d, r)})
	return Encode(&dd, r).Bytes
}

// inflateNeed returns the length of the shortest prefix of b that inflates to n bytes.
func inflateNeed(b []byte, n int) int {
	lo, hi := 0, len(b)
	for lo < hi {
		m := (lo + hi) / 2
		ok := false
		if zr, err := zlib.NewReader(bytes.NewReader(b[:m])); err == nil {
			k, _ := io.Copy(io.Discard, zr)
			ok = int(k) >= n
		}
		if ok {
			hi = m
		} else {
			lo = m + 1
		}
	}
	return lo
}
