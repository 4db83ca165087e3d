package main

import (
	"bytes"
	"fmt"
	"image"
	"io"

	"github.com/oov/psd"

	"verif/psdgen"
	"verif/vk"
)

func caseCompress(c *vk.Ctx) {
	r := c.Rng
	np := setProcs(c)
	if r.Intn(100) == 0 {
		caseRowTable(c)
		return
	}
	depth := []int{1, 8, 16, 32}[r.Intn(4)]
	comp := r.Intn(4)
	if comp == psdgen.ZIPPred && depth == 1 {
		comp = psdgen.ZIP
	}
	w, h, ch := 1+r.Intn(40), 1+r.Intn(40), 1+r.Intn(5)
	switch r.Intn(10) {
	case 0:
		w = 1 + r.Intn(3000)
	case 1:
		h = 1 + r.Intn(600)
		w = 1 + r.Intn(12)
	case 2:
		w, h = 1+r.Intn(3), 1+r.Intn(3)
	}
	psb := r.Intn(2) == 0
	if r.Intn(150) == 0 {
		// rows longer than 64 KB
		psb = true
		w, h, ch = 20000+r.Intn(60000), 1+r.Intn(3), 1+r.Intn(2)
		c.Count("long rows", 1)
	}
	if r.Intn(500) == 0 {
		// rows of megabytes, the longest a PSB can have
		psb = true
		w, h, ch = 260000+r.Intn(40001), 1, 1
		if r.Intn(2) == 0 {
			depth = 32
		}
		c.Count("longest rows", 1)
	}
	x, y := r.Intn(200)-100, r.Intn(200)-100
	rect := image.Rect(x, y, x+w, y+h)
	var planes [][]byte
	for i := 0; i < ch; i++ {
		planes = append(planes, psdgen.RandPlane(r, w, h, depth))
	}
	want := bytes.Join(planes, nil)
	enc := psdgen.CompressPlanes(comp, planes, w, h, depth, psb, r.Intn(10), r.Intn(3) == 0, r)
	if comp == psdgen.RLE && r.Intn(8) == 0 {
		enc = padRows(c, enc, h*ch, psb)
	}
	what := fmt.Sprintf("method %d depth %d %dx%dx%d psb=%v GOMAXPROCS=%d", comp, depth, w, h, ch, psb, np)
	c.Sample("%s, %d bytes -> %d bytes", what, len(enc), len(want))
	c.Distinct(enc)
	c.Count(fmt.Sprintf("method %d depth %d", comp, depth), 1)
	cm := psd.CompressionMethod(comp)
	junk := make([]byte, r.Intn(30))
	r.Read(junk)
	stream := append(append([]byte{}, enc...), junk...)

	hint := int64(len(enc))
	if r.Intn(3) == 0 {
		hint = 0
	}
	for k := 0; k < 3; k++ {
		cr := &countReader{r: bytes.NewReader(stream)}
		var rd io.Reader = cr
		br := bytes.NewReader(stream)
		pos := func() int { return cr.n }
		switch k {
		case 1:
			rd = br
			pos = func() int { return len(stream) - br.Len() }
		case 2:
			cr.r = &chunkReader{r: bytes.NewReader(stream), rng: newRand(r), max: 1 + r.Intn(9)}
		}
		dest := make([]byte, len(want))
		n, err := cm.Decode(dest, rd, hint, rect, depth, ch, psb)
		c.Eval(1)
		if err != nil {
			c.Fail("error", "%s: %v", what, err)
			return
		}
		if !bytes.Equal(dest, want) {
			c.Fail("differs", "%s: %s", what, diffAt(dest, want))
			return
		}
		if n != pos() {
			c.Fail("read", "%s: read %d consumed %d", what, n, pos())
		}
		if comp < psdgen.ZIP && n != len(enc) {
			c.Fail("read", "%s: consumed %d want %d", what, n, len(enc))
		}
		if comp >= psdgen.ZIP && hint > 0 && n > len(enc) {
			c.Fail("overread", "%s: consumed %d of the hint %d", what, n, len(enc))
		}
	}

	// Neighbours of the destination are never touched.
	back := make([]byte, len(want)+64)
	for i := range back {
		back[i] = 0xA5
	}
	dest := back[32 : 32+len(want)]
	accepted := false
	decode := func(name string, b []byte, mustFail bool) {
		accepted = false
		for i := range dest {
			dest[i] = 0
		}
		c.Eval(1)
		c.Guard(what+": "+name, func() {
			n, err := cm.Decode(dest, bytes.NewReader(b), int64(len(b)), rect, depth, ch, psb)
			if mustFail && err == nil {
				c.Fail("accepted:"+name, "%s: %s was accepted", what, name)
			}
			if n < 0 || n > len(b) {
				c.Fail("read", "%s: %s: read %d of %d bytes", what, name, n, len(b))
			}
			if err == nil {
				accepted = true
				c.Count("malformed but accepted", 1)
			} else {
				c.Count("malformed and rejected", 1)
			}
		})
		for i := 0; i < 32; i++ {
			if back[i] != 0xA5 || back[len(back)-1-i] != 0xA5 {
				c.Fail("overrun", "%s: %s: out of the destination was modified", what, name)
				return
			}
		}
	}
	// truncation
	need := len(enc)
	if comp >= psdgen.ZIP {
		need = 0
		if len(enc) > 10 {
			// at least the header and something
			need = 3
		}
	}
	for k := 0; k < 4 && need > 0; k++ {
		decode("truncated", enc[:r.Intn(need)], true)
	}
	switch comp {
	case psdgen.RLE:
		n := 2
		if psb {
			n = 4
		}
		rows := h * ch
		rb := psdgen.RowBytes(w, depth)
		rowAt := func(i int) (off, ln int) {
			off = rows * n
			for k := 0; k < i; k++ {
				off += int(getBE(enc[k*n : k*n+n]))
			}
			return off, int(getBE(enc[i*n : i*n+n]))
		}
		i := r.Intn(rows)
		if r.Intn(2) == 0 {
			i = rows - 1
		}
		off, ln := rowAt(i)
		replace := func(row []byte) []byte {
			b := append([]byte{}, enc[:off]...)
			b = append(b, row...)
			b = append(b, enc[off+ln:]...)
			putBE(b[i*n:i*n+n], uint64(len(row)))
			return b
		}
		row := append([]byte{}, enc[off:off+ln]...)
		// A row that is longer than the width.
		decode("long row (run)", replace(append(append([]byte{}, row...), byte(257-2-r.Intn(126)), 1)), true)
		lit := 1 + r.Intn(20)
		decode("long row (literal)", replace(append(append(append([]byte{}, row...), byte(lit-1)), make([]byte, lit)...)), true)
		decode("row that ends in a packet (run)", replace(append(append([]byte{}, row...), byte(129+r.Intn(127)))), true)
		decode("row that ends in a packet (literal)", replace([]byte{byte(min(rb, 128) - 1)}), true)
		if rb >= 2 {
			// The packet without its data would fit in the row, so only the data is missing.
			head := byte(257 - (2 + r.Intn(min(rb, 128)-1)))
			if head < 129 {
				head = 129
			}
			b := []byte{head}
			for k := r.Intn(3); k > 0; k-- {
				b = append([]byte{128}, b...)
			}
			decode("row that is a head of a run", replace(b), true)
			if rb >= 3 {
				k := 1 + r.Intn(min(rb-2, 100))
				b := append([]byte{byte(k - 1)}, want[i*rb:i*rb+k]...)
				b = append(b, byte(257-(2+r.Intn(min(rb-k, 128)-1))))
				decode("row that ends in a head of a run that fits", replace(b), true)
			}
		}
		if rb >= 2 {
			// The last packet begins in the row and ends out of it.
			room := 1 + r.Intn(min(rb-1, 127))
			var b []byte
			for k := rb - room; k > 0; {
				l := min(k, 128)
				if l == 1 {
					b = append(b, 0, 1)
				} else {
					b = append(b, byte(257-l), 1)
				}
				k -= l
			}
			over := room + 1 + r.Intn(128-room)
			if r.Intn(3) == 0 {
				over = 128
			}
			if r.Intn(2) == 0 {
				decode("row that ends in a part of a run", replace(append(b, byte(257-over), 1)), true)
			} else {
				decode("row that ends in a part of a literal", replace(append(append(b, byte(over-1)), make([]byte, over)...)), true)
			}
		}
		// A row that is shorter than the width does not affect others.
		short := [][]byte{nil, {byte(257 - min(rb, 128)), 1}, {0, 1}, {128}}[r.Intn(4)]
		decode("short row", replace(short), false)
		for k := 0; k < rows && accepted; k++ {
			if k != i && !bytes.Equal(dest[k*rb:(k+1)*rb], want[k*rb:(k+1)*rb]) {
				c.Fail("short row", "%s: row %d was changed by row %d that is too short", what, k, i)
				break
			}
		}
		b := append([]byte{}, enc...)
		putBE(b[(rows-1)*n:rows*n], uint64(1<<uint(8*n-r.Intn(n-1))-1))
		decode("huge row", b, true)
		// random damage
		for k := 0; k < 4; k++ {
			b := append([]byte{}, enc...)
			b[r.Intn(len(b))] = byte(r.Intn(256))
			decode("damaged", b, false)
		}
	case psdgen.ZIP, psdgen.ZIPPred:
		for k := 0; k < 4; k++ {
			b := append([]byte{}, enc...)
			b[r.Intn(len(b))] = byte(r.Intn(256))
			decode("damaged", b, false)
		}
		short := psdgen.CompressPlanes(psdgen.ZIP, [][]byte{want[:r.Intn(len(want))]}, w, h, depth, psb, 6, false, r)
		decode("short data", short, true)
	case psdgen.Raw:
		decode("short data", want[:r.Intn(len(want))], true)
	}
	// a short destination of RLE is an error, not a panic
	if comp == psdgen.RLE {
		c.Eval(1)
		c.Guard(what+": short destination", func() {
			if _, err := cm.Decode(make([]byte, r.Intn(len(want))), bytes.NewReader(enc), 0, rect, depth, ch, psb); err == nil {
				c.Fail("shortdest", "%s: short destination was accepted", what)
			}
		})
	}
	// unknown method
	c.Eval(1)
	bad := psd.CompressionMethod([]int{4, 5, -1, 255, 256, 257}[r.Intn(6)])
	if _, err := bad.Decode(dest, bytes.NewReader(enc), 0, rect, depth, ch, psb); err == nil {
		c.Fail("unknown", "unknown method %d was accepted", int(bad))
	}
}

// caseRowTable decodes run-length compressed data whose row lengths are much more than there is,
// where the sum modulo 2^32 (or 2^31) is what there is.
func caseRowTable(c *vk.Ctx) {
	r := c.Rng
	psb := r.Intn(2) == 0
	h, ch := 22000+r.Intn(8001), 3
	n := 2
	if psb {
		n = 4
		h = 2 + r.Intn(500)
		ch = 1 + r.Intn(4)
	}
	lines := h * ch
	table := make([]byte, lines*n)
	data := make([]byte, r.Intn(70000))
	for i := range data {
		data[i] = 0x80
	}
	wrap := uint64(1) << uint([]int{32, 32, 32, 31}[r.Intn(4)])
	left := wrap + uint64(len(data))
	if left > uint64(lines)*65535 && !psb {
		left = uint64(lines) * 65535
	}
	put := func(i int, v uint64) {
		putBE(table[i*n:i*n+n], v)
		left -= v
	}
	first := 0
	if psb {
		if r.Intn(2) == 0 {
			// a row that is as long as the rest of the data comes first
			v := uint64(r.Intn(len(data) + 1))
			put(0, v)
			first++
		}
		for i := first; i < lines && left > 0; i++ {
			v := []uint64{1<<31 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 1, 1 << 30, 1<<31 - 17, 1<<31 - 16}[r.Intn(7)]
			if v > left || i == lines-1 {
				v = min(left, 1<<32-1)
			}
			put(i, v)
		}
	} else {
		gap := r.Intn(2) * r.Intn(100)
		for i := gap; i < lines && left > 0; i++ {
			put(i, min(left, 65535))
		}
	}
	enc := append(table, data...)
	what := fmt.Sprintf("table of %d rows psb=%v whose lengths exceed %d bytes of data by 2^32", lines, psb, len(data))
	c.Distinct(enc)
	c.Count("tables of huge sums", 1)
	dest := make([]byte, lines)
	c.Eval(2)
	c.Guard(what, func() {
		if _, err := psd.CompressionMethodRLE.Decode(dest, bytes.NewReader(enc), 0, image.Rect(0, 0, 1, h), 8, ch, psb); err == nil {
			c.Fail("accepted: table", "%s was accepted", what)
		}
	})
	head := []byte{'8', 'B', 'P', 'S', 0, 1, 0, 0, 0, 0, 0, 0, 0, byte(ch), 0, 0, byte(h >> 8), byte(h), 0, 0, 0, 1, 0, 8, 0, 7}
	if psb {
		head[5] = 2
		head = append(head, make([]byte, 4)...)
	}
	head = append(head, make([]byte, 4+4+4)...)
	head = append(head, 0, 1)
	c.Guard(what+" in a document", func() {
		if _, _, err := psd.Decode(bytes.NewReader(append(head, enc...)), nil); err == nil {
			c.Fail("accepted: document", "%s was accepted in a document", what)
		}
	})
}

// padRows adds packets that do nothing, so that the size of the data or of everything is round.
func padRows(c *vk.Ctx, enc []byte, rows int, psb bool) []byte {
	r := c.Rng
	n := 2
	if psb {
		n = 4
	}
	size := len(enc)
	if r.Intn(3) > 0 {
		size -= rows * n
	}
	unit := 1 << uint(8+r.Intn(10))
	if r.Intn(2) == 0 {
		unit = 1 << 16
	}
	add := unit - size%unit + r.Intn(3)*unit*r.Intn(2)
	if r.Intn(3) == 0 {
		add += r.Intn(3) - 1
	}
	table := append([]byte{}, enc[:rows*n]...)
	var data []byte
	rest := enc[rows*n:]
	for i := 0; i < rows; i++ {
		t := table[i*n : i*n+n]
		ln := int(getBE(t))
		data = append(data, rest[:ln]...)
		rest = rest[ln:]
		k := add / (rows - i)
		if r.Intn(2) == 0 {
			k = add
		}
		if !psb {
			k = max(0, min(k, 60000-ln)) // The row is made longer below.
		}
		for j := 0; j < k; j++ {
			data = append(data, 0x80)
		}
		putBE(t, uint64(ln+k))
		add -= k
	}
	if add == 0 {
		c.Count("round sizes", 1)
	}
	return append(table, data...)
}
