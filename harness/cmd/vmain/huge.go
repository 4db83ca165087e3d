package main

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"io"
	"runtime"

	"github.com/oov/psd"

	"verif/vk"
)

// hugeFile is a file that has many zeros, which are not in the memory.
type hugeFile struct {
	head  []byte
	zeros int64
	tail  []byte
	pos   int64
	size  int64 // may be less than all of them
}

func (f *hugeFile) Read(p []byte) (int, error) {
	if f.pos >= f.size {
		return 0, io.EOF
	}
	if rest := f.size - f.pos; int64(len(p)) > rest {
		p = p[:rest]
	}
	n := 0
	h := int64(len(f.head))
	switch {
	case f.pos < h:
		n = copy(p, f.head[f.pos:])
	case f.pos < h+f.zeros:
		n = len(p)
		if rest := h + f.zeros - f.pos; int64(n) > rest {
			n = int(rest)
		}
		clear(p[:n])
	default:
		n = copy(p, f.tail[f.pos-h-f.zeros:])
	}
	f.pos += int64(n)
	return n, nil
}

func (f *hugeFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

// caseHuge decodes documents of gigabytes, most of which is what decoding has to skip.
func caseHuge(c *vk.Ctx) {
	r := c.Rng
	psb := r.Intn(2) == 0
	where := []string{"global mask", "blending ranges"}[r.Intn(2)]
	if psb {
		where = []string{"global mask", "blending ranges", "layer info", "channel", "channel"}[r.Intn(5)]
	}
	n := []int64{1<<31 - 1000, 1 << 31, 1<<31 + int64(r.Intn(1000)), 3<<30 + 1, 1<<32 - 4000}[r.Intn(5)]
	if where == "layer info" || where == "channel" {
		n = []int64{1 << 31, 1 << 32, 1<<32 + int64(r.Intn(1000)), 5 << 30, 1<<33 + 77}[r.Intn(5)]
	}
	size := 4
	ver := byte(1)
	if psb {
		size, ver = 8, 2
	}
	be := func(b []byte, v int64, size int) []byte {
		for size--; size >= 0; size-- {
			b = append(b, byte(v>>uint(8*size)))
		}
		return b
	}
	at := map[string]int64{where: n}
	planes := make([]byte, 3*6)
	r.Read(planes)
	lp := make([][]byte, 3)
	for i := range lp {
		lp[i] = []byte{byte(r.Intn(256)), byte(r.Intn(256))}
	}

	// Everything before and after the zeros.
	head := append([]byte("8BPS\x00"), ver)
	head = append(head, "\x00\x00\x00\x00\x00\x00\x00\x03\x00\x00\x00\x02\x00\x00\x00\x03\x00\x08\x00\x03\x00\x00\x00\x00\x00\x00\x00\x00"...)
	chan0 := r.Intn(3)
	record := append(make([]byte, 8), 0, 0, 0, 1, 0, 0, 0, 2)
	record = be(record, 3, 2)
	for i := range lp {
		record = be(record, int64(i), 2)
		ln := int64(4)
		if i == chan0 {
			ln += at["channel"]
		}
		record = be(record, ln, size)
	}
	record = append(record, "8BIMnorm\xff\x00\x00\x00"...)
	record = be(record, 4+4+at["blending ranges"]+4, 4)
	record = be(record, 0, 4)
	record = be(record, at["blending ranges"], 4)
	recTail := []byte{1, 'x', 0, 0}
	var img []byte
	cut := 0
	for i := range lp {
		img = append(img, 0, 0)
		img = append(img, lp[i]...)
		if i == chan0 {
			cut = len(img)
		}
	}
	infoLen := int64(2+len(record)+len(recTail)+len(img)) + at["blending ranges"] + at["layer info"] + at["channel"]
	secLen := int64(size) + infoLen + 4 + at["global mask"]
	head = be(head, secLen, size)
	head = be(head, infoLen, size)
	head = be(head, 1, 2)
	f := &hugeFile{zeros: n}
	all := append([]byte{}, head...)
	all = append(all, record...)
	if where == "blending ranges" {
		f.head, all = all, nil
	}
	all = append(all, recTail...)
	all = append(all, img[:cut]...)
	if where == "channel" {
		f.head, all = all, nil
	}
	all = append(all, img[cut:]...)
	if where == "layer info" {
		f.head, all = all, nil
	}
	all = be(all, at["global mask"], 4)
	if where == "global mask" {
		f.head, all = all, nil
	}
	all = append(all, 0, 0)
	all = append(all, planes...)
	f.tail = append(all, 1, 2, 3)
	total := int64(len(f.head)+len(f.tail)-3) + n
	f.size = total + 3

	skip := r.Intn(3) == 0
	seek := r.Intn(3) > 0 || runtime.GOARCH == "wasm"
	what := fmt.Sprintf("psb=%v with %d bytes of %s, seekable=%v, SkipLayerImage=%v", psb, n, where, seek, skip)
	c.Sample("%s", what)
	c.Distinct(what, planes)
	c.Count("documents of gigabytes", 1)
	open := func() io.Reader {
		f.pos = 0
		if !seek {
			return &plainReader{f}
		}
		return f
	}
	fits := ^uint(0)>>63 == 1
	c.Eval(1)
	c.Guard(what, func() {
		p, read, err := psd.Decode(open(), &psd.DecodeOptions{SkipLayerImage: skip})
		if !fits {
			if n >= 1<<31 && err == nil {
				c.Fail("huge", "%s: accepted by a platform of 32 bits", what)
			}
			if n >= 1<<31 || err != nil {
				return
			}
		}
		if err != nil {
			c.Fail("huge", "%s: %v", what, err)
			return
		}
		if int64(read) != total || f.pos != total {
			c.Fail("huge", "%s: read %d, consumed %d, want %d", what, read, f.pos, total)
		}
		if !bytes.Equal(p.Data, planes) {
			c.Fail("huge", "%s: merged image differs", what)
		}
		if len(p.Layer) != 1 || p.Layer[0].Name != "x" || p.Layer[0].Rect != image.Rect(0, 0, 2, 1) {
			c.Fail("huge", "%s: layers differ", what)
			return
		}
		for i := range lp {
			if !skip && !bytes.Equal(p.Layer[0].Channel[i].Data, lp[i]) {
				c.Fail("huge", "%s: channel %d differs", what, i)
			}
		}
	})
	if seek {
		// what is cut inside and after
		end := total
		for _, k := range []int64{int64(len(f.head)) + 1 + r.Int63n(n), int64(len(f.head)) + n - 1, int64(len(f.head)) + n, total - 1} {
			f.size = k
			c.Eval(1)
			c.Guard(what+" (truncated)", func() {
				if p, _, err := psd.Decode(open(), &psd.DecodeOptions{SkipLayerImage: skip}); err == nil || p != nil {
					c.Fail("huge prefix", "%s: the first %d of %d bytes were accepted", what, k, end)
				}
			})
		}
	}
}
