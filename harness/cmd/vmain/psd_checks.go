package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"io"
	"log"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/oov/psd"

	"verif/psdgen"
	"verif/vk"
)

var testdata []struct {
	Name string
	Data []byte
}

// loadTestdata reads sample files of the repository that are not so large.
func loadTestdata(w *vk.Worker) {
	testdata = nil
	names, _ := filepath.Glob("/repo/testdata/*.ps[db]")
	sort.Strings(names)
	for _, n := range names {
		b, err := os.ReadFile(n)
		if err != nil || len(b) > 400000 {
			continue
		}
		testdata = append(testdata, struct {
			Name string
			Data []byte
		}{filepath.Base(n), b})
	}
}

// genDoc makes a document and encodes it.
func genDoc(c *vk.Ctx, o psdgen.Opt) (*psdgen.Doc, *psdgen.File) {
	d := psdgen.RandDoc(c.Rng, o)
	f := psdgen.Encode(d, c.Rng)
	return d, f
}

func noteDoc(c *vk.Ctx, d *psdgen.Doc, f *psdgen.File) {
	c.Count(fmt.Sprintf("mode%d/depth%d", d.Mode, d.Depth), 1)
	c.Count(fmt.Sprintf("merged compression %d", d.MergedComp), 1)
	if d.PSB {
		c.Count("psb", 1)
	}
	if d.Placement != "" {
		c.Count("layers in "+d.Placement, 1)
	}
	c.Count("layers", len(d.Flat))
	n := 0
	for _, l := range d.Flat {
		n += len(l.Chans)
		for _, ch := range l.Chans {
			if !ch.NoData && len(ch.Data) > 0 {
				c.Count(fmt.Sprintf("layer channel compression %d", ch.Comp), 1)
			}
		}
		if l.Mask.Len > 0 {
			c.Count("masks", 1)
		}
		if l.Folder {
			c.Count("folders", 1)
		}
	}
	c.Count("layer channels", n)
	c.Count("bytes", len(f.Bytes))
	if d.HasAlpha() {
		c.Count("merged with alpha", 1)
	}
}

var procs = []int{1, 2, 3, 4, 5, 7, 8, 16}

func setProcs(c *vk.Ctx) int {
	n := procs[c.Rng.Intn(len(procs))]
	if c.Rng.Intn(16) == 0 {
		n = []int{32, 64, 128}[c.Rng.Intn(3)]
	}
	runtime.GOMAXPROCS(n)
	return n
}

// fidelity makes checks that compare what was decoded with the model.
func fidelity(aspects int, o psdgen.Opt, opt func(r *rand.Rand) *psd.DecodeOptions, configToo bool) func(c *vk.Ctx) {
	return func(c *vk.Ctx) {
		d, f := genDoc(c, o)
		np := setProcs(c)
		noteDoc(c, d, f)
		c.Distinct(f.Bytes)
		c.Sample("%s, %d bytes, GOMAXPROCS=%d", d, len(f.Bytes), np)
		var do *psd.DecodeOptions
		if opt != nil {
			do = opt(c.Rng)
		}
		p, _, err := psd.Decode(bytes.NewReader(f.Bytes), do)
		if err != nil {
			c.Fail("decode-error", "%s: %v", d, err)
			return
		}
		after := ""
		if c.Index%4 == 3 {
			// What was returned does not change by decoding others.
			for n := 1 + c.Rng.Intn(3); n > 0; n-- {
				_, other := genDoc(c, o)
				if _, _, err := psd.Decode(bytes.NewReader(other.Bytes), nil); err != nil {
					c.Fail("decode-error", "another: %v", err)
					return
				}
			}
			for i := range f.Bytes {
				f.Bytes[i] ^= 0xff
			}
			after = " (after decoding others)"
			c.Count("others were decoded before comparing", 1)
		}
		c.Eval(1)
		if err := compareDoc(d, p, aspects); err != nil {
			c.Fail("differs", "%s%s: %v", d, after, err)
		}
		if after != "" {
			return
		}
		if configToo {
			cfg, _, err := psd.DecodeConfig(bytes.NewReader(f.Bytes))
			if err == nil {
				err = compareConfig(d, &cfg)
			}
			c.Eval(1)
			if err != nil {
				c.Fail("config-differs", "%s: DecodeConfig: %v", d, err)
			}
		}
	}
}

func skipSome(r *rand.Rand, layer, merged bool) *psd.DecodeOptions {
	if r.Intn(3) == 0 {
		return nil
	}
	return &psd.DecodeOptions{
		SkipLayerImage:  layer && r.Intn(2) == 0,
		SkipMergedImage: merged && r.Intn(2) == 0,
	}
}

// --- P01: config

// modeChannels has the number of color channels; -1 means that is not known.
var modeChannels = map[psd.ColorMode]int{
	psd.ColorModeBitmap: 1, psd.ColorModeGrayscale: 1, psd.ColorModeIndexed: 1, psd.ColorModeRGB: 3, psd.ColorModeCMYK: 4,
}

func caseConfig(c *vk.Ctx) {
	fidelity(aConfig, psdgen.Opt{MaxDim: 8, MaxLayers: 2, Extreme: true}, func(r *rand.Rand) *psd.DecodeOptions { return skipSome(r, true, true) }, true)(c)
	for m, n := range modeChannels {
		if m.Channels() != n {
			c.Fail("mode-channels", "color mode %d has %d channels, want %d", m, m.Channels(), n)
		}
	}
	// Headers of large images. The image is not decoded.
	d := psdgen.RandDoc(c.Rng, psdgen.Opt{MaxDim: 4, NoLayers: true})
	f := psdgen.Encode(d, c.Rng)
	lim := 30000
	if d.PSB {
		lim = 300000
	}
	dim := func() int {
		switch c.Rng.Intn(6) {
		case 0:
			return lim
		case 1:
			return 1
		case 2:
			return lim - 1 - c.Rng.Intn(3)
		}
		return 1 + c.Rng.Intn(lim)
	}
	d.W, d.H = dim(), dim()
	d.Channels = []int{1, 2, 3, 4, 5, 55, 56, 1 + c.Rng.Intn(56)}[c.Rng.Intn(8)]
	b := append([]byte{}, f.Bytes[:f.ResEnd]...)
	for _, fl := range f.Fields {
		v := -1
		switch fl.Name {
		case "width":
			v = d.W
		case "height":
			v = d.H
		case "channels":
			v = d.Channels
		}
		if v >= 0 {
			putBE(b[fl.Off:fl.Off+fl.Size], uint64(v))
		}
	}
	c.Distinct(b)
	c.Count("large headers", 1)
	cfg, n, err := psd.DecodeConfig(bytes.NewReader(b))
	c.Eval(1)
	if err == nil {
		err = compareConfig(d, &cfg)
	}
	if err != nil {
		c.Fail("large-config", "%s: DecodeConfig: %v", d, err)
		return
	}
	if n != len(b) {
		c.Fail("large-config", "%s: DecodeConfig read %d want %d", d, n, len(b))
	}
	boom := errors.New("stop")
	var cfg2 *psd.Config
	_, _, err = psd.Decode(bytes.NewReader(b), &psd.DecodeOptions{ConfigLoaded: func(cfg psd.Config) error { cfg2 = &cfg; return boom }})
	if cfg2 == nil || !errors.Is(err, boom) {
		c.Fail("large-config", "%s: ConfigLoaded: %v", d, err)
	} else if err := compareConfig(d, cfg2); err != nil {
		c.Fail("large-config", "%s: ConfigLoaded: %v", d, err)
	}
	if d.Channels >= psdgen.BaseChannels(d.Mode) {
		ic, _, err := image.DecodeConfig(bytes.NewReader(b))
		if err != nil || ic.Width != d.W || ic.Height != d.H {
			c.Fail("large-config", "%s: image.DecodeConfig: %dx%d %v", d, ic.Width, ic.Height, err)
		}
	}
}

// --- P03: unbalanced folders

func caseTree(c *vk.Ctx) {
	if c.Rng.Intn(4) > 0 {
		fidelity(aRecords, psdgen.Opt{ForceLayer: true, Modes: []int{psdgen.Grayscale, psdgen.RGB, psdgen.CMYK}, MaxDim: 6, MaxLayers: 24, Many: true, Extreme: true},
			func(r *rand.Rand) *psd.DecodeOptions { return skipSome(r, true, true) }, false)(c)
		return
	}
	d := psdgen.RandDoc(c.Rng, psdgen.Opt{ForceLayer: true, Modes: []int{psdgen.RGB}, MaxDim: 4, MaxLayers: 12})
	// remove or duplicate some of markers and folders.
	var flat []*psdgen.Layer
	for _, l := range d.Flat {
		if l.SectType != 0 && c.Rng.Intn(3) == 0 {
			if c.Rng.Intn(2) == 0 {
				continue
			}
			flat = append(flat, l)
		}
		flat = append(flat, l)
	}
	d.Flat = flat
	ok := true
	depth := 0
	for i, l := range flat {
		l.SeqID = i
		switch l.SectType {
		case 3:
			depth++
		case 1, 2:
			depth--
			if depth < 0 {
				ok = false
			}
		}
	}
	ok = ok && depth == 0
	f := psdgen.Encode(d, c.Rng)
	p, _, err := psd.Decode(bytes.NewReader(f.Bytes), skipSome(c.Rng, true, true))
	c.Eval(1)
	if !ok {
		c.Count("unbalanced", 1)
		c.Distinct(f.Bytes)
		if err == nil {
			c.Fail("unbalanced-accepted", "%s: unbalanced folders were accepted", d)
		}
		return
	}
	if err != nil {
		c.Fail("decode-error", "%s: %v", d, err)
		return
	}
	n := 0
	var walk func(ls []psd.Layer)
	walk = func(ls []psd.Layer) {
		for i := range ls {
			n++
			walk(ls[i].Layer)
		}
	}
	walk(p.Layer)
	m := 0
	for _, l := range flat {
		if l.SectType != 3 {
			m++
		}
	}
	if n != m {
		c.Fail("lost", "%s: %d layers in the tree want %d", d, n, m)
	}
}

// --- comparing two decodings

func diffLayers(a, b []psd.Layer) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d layers / %d layers", len(a), len(b))
	}
	for i := range a {
		x, y := a[i], b[i]
		if s := diffLayers(x.Layer, y.Layer); s != "" {
			return s
		}
		x.Layer, y.Layer = nil, nil
		if !reflect.DeepEqual(x.Picker, y.Picker) {
			if s := diffPicker(x.Picker, y.Picker); s != "" {
				return fmt.Sprintf("layer %d picker: %s", x.SeqID, s)
			}
		}
		x.Picker, y.Picker = nil, nil
		if s := diffChannels(x.Channel, y.Channel); s != "" {
			return fmt.Sprintf("layer %d: %s", x.SeqID, s)
		}
		x.Channel, y.Channel = nil, nil
		for _, f := range [][2]*float64{{&x.Mask.UserMaskFeather, &y.Mask.UserMaskFeather}, {&x.Mask.VectorMaskFeather, &y.Mask.VectorMaskFeather}} {
			if sameFloat(*f[0], *f[1]) {
				*f[0], *f[1] = 0, 0
			}
		}
		if !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("layer %+v / %+v", x, y)
		}
	}
	return ""
}

// sameFloat also returns true for two NaNs, and distinguishes zeros.
func sameFloat(a, b float64) bool {
	return a != a && b != b || math.Float64bits(a) == math.Float64bits(b)
}

func diffPicker(a, b image.Image) string {
	if (a == nil) != (b == nil) {
		return "one has no picker"
	}
	if a == nil {
		return ""
	}
	if a.Bounds() != b.Bounds() {
		return fmt.Sprintf("bounds %v / %v", a.Bounds(), b.Bounds())
	}
	r := a.Bounds()
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			if !sameColor(a.At(x, y), b.At(x, y)) {
				return fmt.Sprintf("(%d,%d) %s / %s", x, y, rgbaStr(a.At(x, y)), rgbaStr(b.At(x, y)))
			}
		}
	}
	return ""
}

func diffChannels(a, b map[int]psd.Channel) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d channels / %d channels", len(a), len(b))
	}
	for k, x := range a {
		y, ok := b[k]
		if !ok {
			return fmt.Sprintf("channel %d is only in one", k)
		}
		if !bytes.Equal(x.Data, y.Data) {
			return fmt.Sprintf("channel %d %s", k, diffAt(x.Data, y.Data))
		}
		if s := diffPicker(x.Picker, y.Picker); s != "" {
			return fmt.Sprintf("channel %d picker %s", k, s)
		}
	}
	return ""
}

func diffPSD(a, b *psd.PSD) string {
	if (a == nil) != (b == nil) {
		return "one is nil"
	}
	if a == nil {
		return ""
	}
	if !reflect.DeepEqual(a.Config, b.Config) {
		return "config"
	}
	if !bytes.Equal(a.Data, b.Data) {
		return "data: " + diffAt(a.Data, b.Data)
	}
	if s := diffPicker(a.Picker, b.Picker); s != "" {
		return "picker: " + s
	}
	if s := diffChannels(a.Channel, b.Channel); s != "" {
		return s
	}
	if !reflect.DeepEqual(a.AdditinalLayerInfo, b.AdditinalLayerInfo) {
		return "additional layer info"
	}
	return diffLayers(a.Layer, b.Layer)
}

// --- P08: readers

type chunkReader struct {
	r    io.Reader
	rng  *rand.Rand
	max  int
	zero bool
	eof  bool // returns the last data with io.EOF
	rest int
	n    int
	junk bool // uses all of the given space, as io.Reader allows
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.junk {
		for i := 0; i < len(p) && i < 1000; i++ {
			p[i] = 0x38
		}
	}
	if r.zero && r.rng.Intn(4) == 0 {
		return 0, nil
	}
	k := 1 + r.rng.Intn(r.max)
	if k < len(p) {
		p = p[:k]
	}
	n, err := r.r.Read(p)
	r.n += n
	r.rest -= n
	if r.eof && r.rest == 0 && err == nil {
		err = io.EOF
	}
	return n, err
}

type plainReader struct{ r io.Reader }

func (r *plainReader) Read(p []byte) (int, error) { return r.r.Read(p) }

// byteSrc has ReadByte.
type byteSrc struct{ b *bytes.Reader }

func (r *byteSrc) Read(p []byte) (int, error) { return r.b.Read(p) }
func (r *byteSrc) ReadByte() (byte, error)    { return r.b.ReadByte() }

// seekFail has Seek that never succeeds.
type seekFail struct{ plainReader }

func (r *seekFail) Seek(int64, int) (int64, error) { return 0, errors.New("not seekable") }

// offSeeker is a seeker that starts at the middle.
func mkReader(kind int, data []byte, rng *rand.Rand) (io.Reader, string, func()) {
	nop := func() {}
	switch kind {
	case 0:
		return &chunkReader{r: bytes.NewReader(data), rng: rng, max: 1, rest: len(data)}, "one byte", nop
	case 1:
		return &chunkReader{r: bytes.NewReader(data), rng: rng, max: 7, rest: len(data)}, "chunks up to 7", nop
	case 2:
		return &chunkReader{r: bytes.NewReader(data), rng: rng, max: 300, zero: true, rest: len(data)}, "chunks with empty reads", nop
	case 3:
		return &chunkReader{r: bytes.NewReader(data), rng: rng, max: 5000, eof: true, rest: len(data)}, "data with EOF", nop
	case 4:
		return &plainReader{bytes.NewReader(data)}, "no seek", nop
	case 5:
		return &seekFail{plainReader{bytes.NewReader(data)}}, "failing seek", nop
	case 6:
		pre := rng.Intn(50)
		b := append(make([]byte, pre), data...)
		r := bytes.NewReader(b)
		r.Seek(int64(pre), 0)
		return r, "seeker at the middle", nop
	case 7:
		return &byteSrc{bytes.NewReader(data)}, "byte reader", nop
	case 8:
		pr, pw, err := os.Pipe()
		if err != nil {
			return bytes.NewReader(data), "pipe unavailable", nop
		}
		done := make(chan struct{})
		go func() {
			pw.Write(data)
			pw.Close()
			close(done)
		}()
		return pr, "os pipe", func() { pr.Close(); <-done }
	case 9:
		if runtime.GOARCH == "wasm" {
			// os.File itself panics there at offsets beyond 2^53.
			return bytes.NewReader(data), "seekable", nop
		}
		f, err := os.CreateTemp(os.TempDir(), "verif-psd-")
		if err != nil {
			return bytes.NewReader(data), "file unavailable", nop
		}
		f.Write(data)
		f.Seek(0, 0)
		return f, "file", func() { n := f.Name(); f.Close(); os.Remove(n) }
	case 10:
		b := append([]byte{}, data...)
		return bytes.NewBuffer(b), "buffer", func() {
			// The buffer is of the caller.
			for i := range b {
				b[i] ^= 0xff
			}
		}
	case 11:
		return strings.NewReader(string(data)), "string", nop
	case 12:
		pre, post := make([]byte, rng.Intn(300)), make([]byte, rng.Intn(300))
		rng.Read(post)
		b := append(append(pre, data...), post...)
		return io.NewSectionReader(bytes.NewReader(b), int64(len(pre)), int64(len(data))), "section of a file", nop
	case 13:
		var rs []io.Reader
		for rest := data; ; {
			n := rng.Intn(len(rest) + 1)
			if rng.Intn(2) == 0 {
				n = min(n, rng.Intn(40))
			}
			if len(rs) > 200 {
				n = len(rest)
			}
			rs = append(rs, bytes.NewReader(rest[:n]))
			if rest = rest[n:]; len(rest) == 0 {
				break
			}
		}
		return io.MultiReader(rs...), "several readers", nop
	case 14:
		return &chunkReader{r: bytes.NewReader(data), rng: rng, max: 1 + rng.Intn(100), junk: true, rest: len(data), zero: rng.Intn(2) == 0}, "uses all of the buffer", nop
	case 15:
		// Seek that can not use the current position, or not the end.
		return &seekSome{plainReader{bytes.NewReader(data)}}, "partial seek", nop
	default:
		return newBufio(data, rng), "bufio", nop
	}
}

const numReaders = 17

// seekSome can not seek relative to the current position.
type seekSome struct{ plainReader }

func (r *seekSome) Seek(off int64, whence int) (int64, error) {
	if whence == io.SeekCurrent && off != 0 {
		return 0, errors.New("can not seek relative to the current position")
	}
	return r.r.(*bytes.Reader).Seek(off, whence)
}

func caseReaders(c *vk.Ctx) {
	var data []byte
	var name string
	zip := false
	if c.Rng.Intn(12) == 0 && len(testdata) > 0 {
		t := testdata[c.Rng.Intn(len(testdata))]
		data, name = t.Data, t.Name
		if len(data) > 60000 && c.Rng.Intn(4) > 0 {
			t = testdata[c.Rng.Intn(len(testdata))]
			data, name = t.Data, t.Name
		}
		zip = true
	} else {
		d, f := genDoc(c, psdgen.Opt{Big: true})
		noteDoc(c, d, f)
		data, name = f.Bytes, d.String()
		zip = d.MergedComp >= psdgen.ZIP
	}
	do := skipSome(c.Rng, true, true)
	ref, refRead, refErr := psd.Decode(bytes.NewReader(data), do)
	if refErr != nil {
		c.Fail("decode-error", "%s: %v", name, refErr)
		return
	}
	for k := 0; k < numReaders; k++ {
		r, what, done := mkReader(k, data, newRand(c.Rng))
		p, n, err := psd.Decode(r, do)
		done()
		c.Eval(1)
		c.Distinct(what, data)
		c.Count("reader: "+what, 1)
		if err != nil {
			c.Fail("reader-error", "%s: reader %q: %v", name, what, err)
			continue
		}
		if n != refRead && !(zip && (do == nil || !do.SkipMergedImage)) {
			c.Fail("reader-read", "%s: reader %q: read %d want %d", name, what, n, refRead)
		}
		if s := diffPSD(p, ref); s != "" {
			c.Fail("reader-differs", "%s: reader %q: %s", name, what, s)
		}
	}
	// malformed data must not be accepted depending on the reader.
	m, what := mutate(c.Rng, data, nil, 2)
	if declaredTooBig(m) {
		return
	}
	c.Sample("%s and %s (%s)", name, "mutated", what)
	ref, _, refErr = psd.Decode(bytes.NewReader(m), do)
	for _, k := range []int{0, 1, 4, 5, 7, 10, 11, 12, 14, 16, 9} {
		r, rn, done := mkReader(k, m, newRand(c.Rng))
		p, _, err := psd.Decode(r, do)
		done()
		c.Eval(1)
		if (err == nil) != (refErr == nil) {
			c.Fail("reader-verdict", "%s (%s): reader %q: %v, memory: %v", name, what, rn, err, refErr)
			continue
		}
		if err == nil {
			c.Count("malformed but accepted", 1)
			if s := diffPSD(p, ref); s != "" {
				c.Fail("reader-differs", "%s (%s): reader %q: %s", name, what, rn, s)
			}
		} else {
			c.Count("malformed and rejected", 1)
		}
	}
}

// --- P09: GOMAXPROCS and concurrency

var coldDecode sync.Once

// decodeColdStart decodes at once, before anything else was decoded by this
// process: nothing may depend on who is the first.
func decodeColdStart(c *vk.Ctx) {
	type job struct {
		b   []byte
		p   [2]*psd.PSD
		err [2]error
	}
	var jobs []*job
	for i := 0; i < 24; i++ {
		_, f := genDoc(c, psdgen.Opt{MaxDim: 20, MaxLayers: 4})
		jobs = append(jobs, &job{b: f.Bytes})
	}
	runtime.GOMAXPROCS(8)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, j := range jobs {
		for k := range j.p {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if k == 1 {
					image.DecodeConfig(bytes.NewReader(j.b))
				}
				j.p[k], _, j.err[k] = psd.Decode(bytes.NewReader(j.b), nil)
				if p := j.p[k]; p != nil && p.Picker != nil {
					touchAll(p)
				}
			}()
		}
	}
	close(start)
	wg.Wait()
	runtime.GOMAXPROCS(1)
	for i, j := range jobs {
		p, _, err := psd.Decode(bytes.NewReader(j.b), nil)
		for k := range j.p {
			c.Eval(1)
			if (err == nil) != (j.err[k] == nil) {
				c.Fail("first", "document %d: the first decoding: %v, now: %v", i, j.err[k], err)
				return
			}
			if err == nil {
				if s := diffPSD(j.p[k], p); s != "" {
					c.Fail("first", "document %d: the first decoding differs: %s", i, s)
					return
				}
			}
		}
	}
	c.Count("first decodings of a process", 2*len(jobs))
}

// touchAll reads pixels of all the images of p.
func touchAll(p *psd.PSD) {
	read := func(m image.Image) {
		if m == nil || m.Bounds().Empty() {
			return
		}
		b := m.Bounds()
		for _, q := range []image.Point{b.Min, {b.Max.X - 1, b.Max.Y - 1}, {(b.Min.X + b.Max.X) / 2, (b.Min.Y + b.Max.Y) / 2}} {
			if q.In(b) {
				c := m.At(q.X, q.Y)
				c.RGBA()
				m.ColorModel().Convert(color.NRGBA64{uint16(q.X * 9999), 0x1234, uint16(q.Y * 7777), uint16(0xffff - q.X)}).RGBA()
			}
		}
	}
	read(p.Picker)
	p.Config.Palette()
	for _, ch := range p.Channel {
		read(ch.Picker)
	}
	var walk func([]psd.Layer)
	walk = func(ls []psd.Layer) {
		for i := range ls {
			read(ls[i].Picker)
			for _, ch := range ls[i].Channel {
				read(ch.Picker)
			}
			walk(ls[i].Layer)
		}
	}
	walk(p.Layer)
}

func caseProcs(c *vk.Ctx) {
	coldDecode.Do(func() { decodeColdStart(c) })
	var data []byte
	var name string
	if c.Rng.Intn(10) == 0 && len(testdata) > 0 {
		t := testdata[c.Rng.Intn(len(testdata))]
		data, name = t.Data, t.Name
		if len(data) > 150000 {
			data = nil
		}
	}
	comp := []int{psdgen.RLE, psdgen.RLE, psdgen.RLE, psdgen.Raw, psdgen.ZIPPred}
	if data == nil {
		d, f := genDoc(c, psdgen.Opt{Big: true, MaxDim: 40, Comp: comp, LayerComp: comp, MaxLayers: 5})
		noteDoc(c, d, f)
		data, name = f.Bytes, d.String()
		if c.Rng.Intn(3) == 0 {
			// break a row
			data = append([]byte{}, data...)
			for _, fl := range f.Fields {
				if strings.HasSuffix(fl.Name, "Row") && c.Rng.Intn(20) == 0 {
					data[fl.Off] = byte(c.Rng.Intn(256))
				}
			}
			name += " (broken rows)"
		}
	}
	c.Distinct(data)
	c.Sample("%s", name)
	runtime.GOMAXPROCS(1)
	base := runtime.NumGoroutine()
	ref, refN, refErr := psd.Decode(bytes.NewReader(data), nil)
	// Another document, which is decoded at the same time.
	_, f2 := genDoc(c, psdgen.Opt{MaxDim: 30, Comp: comp, LayerComp: comp, MaxLayers: 3})
	ref2, _, refErr2 := psd.Decode(bytes.NewReader(f2.Bytes), nil)
	if refErr != nil {
		c.Count("rejected", 1)
	}
	ps := []int{2, 3, 4, 5, 6, 7, 8, 13, 16, 17 + c.Rng.Intn(112)}
	for _, n := range ps {
		runtime.GOMAXPROCS(n)
		p, rd, err := psd.Decode(bytes.NewReader(data), nil)
		c.Eval(1)
		if (err == nil) != (refErr == nil) {
			c.Fail("procs-verdict", "%s: GOMAXPROCS=%d: %v, 1: %v", name, n, err, refErr)
			continue
		}
		if err != nil {
			continue
		}
		if rd != refN {
			c.Fail("procs-read", "%s: GOMAXPROCS=%d: read %d want %d", name, n, rd, refN)
		}
		if s := diffPSD(p, ref); s != "" {
			c.Fail("procs-differs", "%s: GOMAXPROCS=%d: %s", name, n, s)
		}
	}
	// concurrent decoding and concurrent readers of an image.
	runtime.GOMAXPROCS(8)
	// Nobody has read this one yet.
	fresh, _, _ := psd.Decode(bytes.NewReader(data), nil)
	const workers = 9
	errs := make([]string, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < workers; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					errs[i] = fmt.Sprint("panic: ", e)
				}
			}()
			<-start
			var p *psd.PSD
			var err error
			if i == 4 && refErr2 == nil {
				if p, _, err = psd.Decode(bytes.NewReader(f2.Bytes), nil); err != nil {
					errs[i] = "another document: " + err.Error()
				} else if s := diffPSD(p, ref2); s != "" {
					errs[i] = "another document: " + s
				}
				return
			}
			if (i == 0 || i == 2 || i == 5) && fresh != nil {
				errs[i] = diffPSD(fresh, ref)
				return
			}
			if i%3 == 2 {
				p = ref
				err = refErr
				if _, _, e := image.Decode(bytes.NewReader(data)); (e == nil) != (err == nil) && refErr == nil {
					errs[i] = "image.Decode: " + fmt.Sprint(e)
					return
				}
			} else {
				p, _, err = psd.Decode(bytes.NewReader(data), nil)
			}
			if (err == nil) != (refErr == nil) {
				errs[i] = fmt.Sprintf("verdict %v / %v", err, refErr)
				return
			}
			if err == nil {
				errs[i] = diffPSD(p, ref)
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Eval(workers)
	c.Count("concurrent decodings", workers)
	for _, e := range errs {
		if e != "" {
			c.Fail("concurrent-differs", "%s: %s", name, e)
			break
		}
	}
	// Nothing may be left behind, of failed decodings either.
	for k := 0; k < 8; k++ {
		b := data[:c.Rng.Intn(len(data)+1)]
		if _, _, err := psd.Decode(bytes.NewReader(b), nil); err != nil {
			c.Count("failed decodings", 1)
		}
	}
	if n := vk.Settle(base); n > base {
		c.Fail("goroutines", "%s: there are %d goroutines after decoding, there were %d", name, n, base)
	}
	c.Count("goroutines accounted for", 1)
}

// --- P10: truncation

func casePrefix(c *vk.Ctx) {
	d, f := genDoc(c, psdgen.Opt{MaxDim: 7, MaxLayers: 4})
	noteDoc(c, d, f)
	setProcs(c)
	limit := len(f.Bytes) // prefixes shorter than this must be rejected
	var do *psd.DecodeOptions
	mode := c.Rng.Intn(4)
	switch mode {
	case 1:
		do = &psd.DecodeOptions{SkipLayerImage: true}
	case 2:
		do = &psd.DecodeOptions{SkipMergedImage: true}
	case 3:
		do = &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: true}
	}
	if do != nil && do.SkipMergedImage {
		limit = f.LayerSecEnd
	} else {
		// the deflate stream may already have enough data.
		limit = f.MergedNeed
	}
	c.Sample("%s, all prefixes of %d bytes, options %d", d, limit, mode)
	kinds := []int{-1, 4, 9}
	kind := kinds[c.Rng.Intn(2)]
	if c.Rng.Intn(10) == 0 {
		kind = 9
	}
	step := func(i int) int { return 1 }
	if limit > 6000 {
		step = func(i int) int { return 1 + c.Rng.Intn(limit/2000) }
	}
	at := map[int]bool{}
	for _, fl := range f.Fields {
		at[fl.Off], at[fl.Off+fl.Size-1], at[fl.Off+fl.Size] = true, true, true
	}
	var pts []int
	for n := 0; n < limit; n += step(n) {
		pts = append(pts, n)
	}
	if limit > 6000 {
		for n := range at {
			if n < limit {
				pts = append(pts, n)
			}
		}
	}
	sort.Ints(pts)
	if max := 800; runtime.GOARCH == "wasm" && len(pts) > max {
		c.Rng.Shuffle(len(pts), func(i, j int) { pts[i], pts[j] = pts[j], pts[i] })
		pts = pts[:max]
	}
	for _, n := range pts {
		b := f.Bytes[:n]
		var r io.Reader = bytes.NewReader(b)
		done := func() {}
		if kind >= 0 {
			r, _, done = mkReader(kind, b, c.Rng)
		}
		p, _, err := psd.Decode(r, do)
		done()
		c.Eval(1)
		if err == nil {
			c.Fail("truncated-accepted", "%s: the first %d bytes of %d were accepted (options %d) in %s", d, n, limit, mode, fieldAt(f, n))
			return
		}
		if p != nil {
			c.Fail("truncated-image", "%s: the first %d bytes of %d: image with error %v", d, n, limit, err)
			return
		}
		if n < f.ResEnd {
			if _, _, err := psd.DecodeConfig(bytes.NewReader(b)); err == nil {
				c.Fail("truncated-config", "%s: DecodeConfig accepted the first %d bytes", d, n)
				return
			}
			if _, _, err := image.DecodeConfig(bytes.NewReader(b)); err == nil {
				c.Fail("truncated-config", "%s: image.DecodeConfig accepted the first %d bytes", d, n)
				return
			}
		}
		if mode == 1 {
			if _, _, err := image.Decode(bytes.NewReader(b)); err == nil {
				c.Fail("truncated-image", "%s: image.Decode accepted the first %d bytes", d, n)
				return
			}
		}
	}
	c.Count("prefixes", len(pts))
	c.Distinct(f.Bytes)
}

func fieldAt(f *psdgen.File, n int) string {
	i := sort.Search(len(f.Fields), func(i int) bool { return f.Fields[i].Off+f.Fields[i].Size > n })
	if i < len(f.Fields) {
		return f.Fields[i].Name
	}
	return "?"
}

// --- P11: consumed bytes

type countReader struct {
	r io.Reader
	n int
}

func (r *countReader) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	r.n += n
	return n, err
}

// closeReader can be closed, which only its owner may do.
type closeReader struct {
	r      io.Reader
	closed bool
}

func (r *closeReader) Read(p []byte) (int, error) { return r.r.Read(p) }
func (r *closeReader) Close() error               { r.closed = true; return nil }

type closeSeeker struct {
	*closeReader
	io.Seeker
}

func caseConsume(c *vk.Ctx) {
	if c.Index%100 == 50 || runtime.GOARCH != "amd64" && c.Rng.Intn(10) == 0 {
		caseHuge(c)
		return
	}
	comp := []int{psdgen.Raw, psdgen.RLE}
	var stream []byte
	var docs []*psdgen.Doc
	var files []*psdgen.File
	k := 2 + c.Rng.Intn(3)
	for i := 0; i < k; i++ {
		d, f := genDoc(c, psdgen.Opt{Comp: comp, MaxDim: 16})
		docs, files = append(docs, d), append(files, f)
		stream = append(stream, f.Bytes...)
		noteDoc(c, d, f)
	}
	junk := make([]byte, c.Rng.Intn(20))
	c.Rng.Read(junk)
	stream = append(stream, junk...)
	setProcs(c)
	c.Distinct(stream)
	c.Sample("%d documents in a stream of %d bytes, first %s", k, len(stream), docs[0])
	seekable := c.Rng.Intn(2) == 0
	br := bytes.NewReader(stream)
	pos := func() int { return len(stream) - br.Len() }
	cl := &closeReader{r: br}
	var r io.Reader = &closeSeeker{closeReader: cl, Seeker: br}
	if !seekable {
		r = cl
	}
	var ps []*psd.PSD
	for i, d := range docs {
		start := pos()
		var do *psd.DecodeOptions
		if c.Rng.Intn(3) == 0 {
			do = &psd.DecodeOptions{SkipLayerImage: true}
		}
		p, n, err := psd.Decode(r, do)
		c.Eval(1)
		if err != nil {
			c.Fail("stream-error", "document %d %s: %v", i, d, err)
			return
		}
		if n != len(files[i].Bytes) || pos()-start != n {
			c.Fail("stream-read", "document %d %s: read %d consumed %d want %d", i, d, n, pos()-start, len(files[i].Bytes))
			return
		}
		if err := compareDoc(d, p, aConfig|aMerged); err != nil {
			c.Fail("stream-differs", "document %d %s: %v", i, d, err)
			return
		}
		ps = append(ps, p)
	}
	if cl.closed {
		c.Fail("closed", "the reader was closed by decoding, it belongs to the caller")
	}
	for i, p := range ps {
		if err := compareDoc(docs[i], p, aConfig|aMerged); err != nil {
			c.Fail("stream-differs", "document %d %s after decoding all of them: %v", i, docs[i], err)
			return
		}
	}
	// parts
	d, f := docs[0], files[0]
	for _, w := range []struct {
		what string
		want int
		do   func(r io.Reader) (int, error)
	}{
		{"DecodeConfig", f.ResEnd, func(r io.Reader) (int, error) { _, n, err := psd.DecodeConfig(r); return n, err }},
		{"SkipMergedImage", f.LayerSecEnd, func(r io.Reader) (int, error) {
			_, n, err := psd.Decode(r, &psd.DecodeOptions{SkipMergedImage: true})
			return n, err
		}},
		{"SkipMergedImage SkipLayerImage", f.LayerSecEnd, func(r io.Reader) (int, error) {
			_, n, err := psd.Decode(r, &psd.DecodeOptions{SkipMergedImage: true, SkipLayerImage: true})
			return n, err
		}},
	} {
		br := bytes.NewReader(stream)
		var r io.Reader = br
		if c.Rng.Intn(2) == 0 {
			r = &plainReader{br}
		}
		n, err := w.do(r)
		c.Eval(1)
		if got := len(stream) - br.Len(); err != nil || n != w.want || got != w.want {
			c.Fail("part-read", "%s: %s: read %d consumed %d want %d err %v", d, w.what, n, got, w.want, err)
		}
	}
	// agreement of entry points
	cfg, _, err := psd.DecodeConfig(bytes.NewReader(stream))
	p, _, err2 := psd.Decode(bytes.NewReader(stream), nil)
	ic, fm, err3 := image.DecodeConfig(bytes.NewReader(stream))
	im, fm2, err4 := image.Decode(bytes.NewReader(stream))
	c.Eval(1)
	if err != nil || err2 != nil || err3 != nil || err4 != nil {
		c.Fail("agree-error", "%s: %v %v %v %v", d, err, err2, err3, err4)
		return
	}
	if !reflect.DeepEqual(cfg, p.Config) {
		c.Fail("agree-config", "%s: config of DecodeConfig and Decode differ", d)
	}
	want := "psd"
	if d.PSB {
		want = "psb"
	}
	if fm != want || fm2 != want {
		c.Fail("agree-format", "%s: format %q %q", d, fm, fm2)
	}
	if ic.Width != d.W || ic.Height != d.H || im.Bounds() != p.Picker.Bounds() {
		c.Fail("agree-size", "%s: %dx%d %v", d, ic.Width, ic.Height, im.Bounds())
	}
	if s := diffPicker(im, p.Picker); s != "" {
		c.Fail("agree-image", "%s: %s", d, s)
	}
	if fmt.Sprintf("%T", ic.ColorModel) != fmt.Sprintf("%T", im.ColorModel()) {
		c.Fail("agree-model", "%s: color model %T %T", d, ic.ColorModel, im.ColorModel())
	}
	for i := 0; i < 8; i++ {
		cl := im.At(c.Rng.Intn(d.W), c.Rng.Intn(d.H))
		if !sameColor(ic.ColorModel.Convert(cl), cl) {
			c.Fail("agree-model", "%s: %s is not in the color model of the config", d, rgbaStr(cl))
			break
		}
	}
}

// --- P12: options

type memLog struct{ n int }

func (l *memLog) Write(p []byte) (int, error) { l.n += len(p); return len(p), nil }

func caseOptions(c *vk.Ctx) {
	d, f := genDoc(c, psdgen.Opt{MaxDim: 10, Extreme: true})
	noteDoc(c, d, f)
	setProcs(c)
	c.Distinct(f.Bytes)
	c.Sample("%s", d)
	boom := errors.New("config callback error")
	for _, v := range []struct{ sl, sm, debug bool }{
		{false, false, false}, {true, false, false}, {false, true, false}, {true, true, false}, {false, false, true},
	} {
		what := fmt.Sprintf("%s: SkipLayerImage=%v SkipMergedImage=%v Debug=%v", d, v.sl, v.sm, v.debug)
		br := bytes.NewReader(f.Bytes)
		cr := &countReader{r: br}
		nCfg := 0
		var seen []*psd.Layer
		var bad string
		do := &psd.DecodeOptions{
			SkipLayerImage:  v.sl,
			SkipMergedImage: v.sm,
			ConfigLoaded: func(cfg psd.Config) error {
				nCfg++
				if cr.n != f.ResEnd {
					bad = fmt.Sprintf("ConfigLoaded after %d bytes want %d", cr.n, f.ResEnd)
				}
				if err := compareConfig(d, &cfg); err != nil {
					bad = "ConfigLoaded: " + err.Error()
				}
				return nil
			},
			LayerImageLoaded: func(l *psd.Layer, index, total int) {
				i := len(seen)
				seen = append(seen, l)
				if index != i || total != len(d.Flat) || i >= len(d.Flat) {
					bad = fmt.Sprintf("LayerImageLoaded(%d, %d), call #%d of %d", index, total, i, len(d.Flat))
					return
				}
				if nCfg != 1 {
					bad = "LayerImageLoaded before ConfigLoaded"
				}
				if d.Flat[i].SectType == 3 {
					return
				}
				if err := compareRecord(d.Flat[i], l); err != nil {
					bad = fmt.Sprintf("LayerImageLoaded #%d: %v", i, err)
				} else if err := compareLayerPixels(d, d.Flat[i], l); err != nil {
					bad = fmt.Sprintf("LayerImageLoaded #%d: %v", i, err)
				}
			},
		}
		var lg memLog
		if v.debug {
			psd.Debug = log.New(&lg, "", 0)
		}
		p, n, err := psd.Decode(cr, do)
		if v.debug {
			// seekable too
			p2, n2, err2 := psd.Decode(bytes.NewReader(f.Bytes), nil)
			psd.Debug = nil
			if err == nil && (err2 != nil || (n2 != n && d.MergedComp < 2) || diffPSD(p2, p) != "") {
				c.Fail("debug", "%s: differs on a seeker: %d %v %s", what, n2, err2, diffPSD(p2, p))
			}
		}
		c.Eval(1)
		if err != nil {
			c.Fail("option-error", "%s: %v", what, err)
			continue
		}
		if bad != "" {
			c.Fail("callback", "%s: %s", what, bad)
		}
		if nCfg != 1 {
			c.Fail("callback", "%s: ConfigLoaded was called %d times", what, nCfg)
		}
		wantCalls := len(d.Flat)
		if v.sl {
			wantCalls = 0
		}
		if len(seen) != wantCalls {
			c.Fail("callback", "%s: LayerImageLoaded was called %d times want %d", what, len(seen), wantCalls)
		}
		c.Count("layer callbacks", len(seen))
		asp := aConfig | aRecords
		if v.sl {
			asp |= aNoLayerImage
		} else {
			asp |= aLayerPixels
		}
		if v.sm {
			asp |= aNoMerged
		} else {
			asp |= aMerged
		}
		if err := compareDoc(d, p, asp); err != nil {
			c.Fail("option-differs", "%s: %v", what, err)
		}
	}
	// the error of the callback
	br := bytes.NewReader(f.Bytes)
	calls := 0
	p, _, err := psd.Decode(br, &psd.DecodeOptions{
		ConfigLoaded:     func(psd.Config) error { return boom },
		LayerImageLoaded: func(*psd.Layer, int, int) { calls++ },
	})
	c.Eval(1)
	if !errors.Is(err, boom) || p != nil || calls != 0 {
		c.Fail("callback-error", "%s: error of ConfigLoaded: got %v image %v, %d layers were loaded", d, err, p != nil, calls)
	}
	if got := len(f.Bytes) - br.Len(); got != f.ResEnd {
		c.Fail("callback-error", "%s: %d bytes were consumed after ConfigLoaded failed, want %d", d, got, f.ResEnd)
	}
}

// --- P13: I/O faults

type faultReader struct {
	r   io.Reader
	n   int // bytes before the fault
	err error
	// with: the fault comes with the data
	with   bool
	once   bool // the reader works again after it reported the fault
	faults int
}

func (r *faultReader) Read(p []byte) (int, error) {
	if r.once && r.faults > 0 {
		return r.r.Read(p)
	}
	if r.n <= 0 {
		r.faults++
		if r.faults > 10000 {
			panic("the reader is being read forever after the fault")
		}
		return 0, r.err
	}
	if len(p) > r.n {
		p = p[:r.n]
	}
	n, err := r.r.Read(p)
	r.n -= n
	if err == nil && r.n == 0 && r.with {
		r.faults++
		err = r.err
	}
	return n, err
}

// faultSeeker fails to read at n and after.
type faultSeeker struct {
	r   *bytes.Reader
	n   int
	err error
	// The error is reported only once.
	once, done bool
}

func (r *faultSeeker) Seek(off int64, whence int) (int64, error) { return r.r.Seek(off, whence) }

func (r *faultSeeker) Read(p []byte) (int, error) {
	pos, _ := r.r.Seek(0, io.SeekCurrent)
	rest := r.n - int(pos)
	if r.done {
		return r.r.Read(p)
	}
	if rest <= 0 {
		r.done = r.once
		return 0, r.err
	}
	if len(p) > rest {
		p = p[:rest]
	}
	return r.r.Read(p)
}

type temporary struct{}

func (temporary) Error() string   { return "try again" }
func (temporary) Timeout() bool   { return true }
func (temporary) Temporary() bool { return true }

var faultErrors = []error{
	io.ErrNoProgress, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrDeadlineExceeded, temporary{},
	fmt.Errorf("connection was closed: %w", io.EOF), syscall.EAGAIN, syscall.EINTR,
}

func caseFaults(c *vk.Ctx) {
	d, f := genDoc(c, psdgen.Opt{MaxDim: 7, MaxLayers: 4})
	noteDoc(c, d, f)
	setProcs(c)
	c.Distinct(f.Bytes)
	boom := errors.New("injected fault")
	do := skipSome(c.Rng, true, true)
	limit := f.MergedNeed
	if do != nil && do.SkipMergedImage {
		limit = f.LayerSecEnd
	}
	with, once := c.Rng.Intn(3) == 0, c.Rng.Intn(2) == 0
	// io.ReadFull ignores an error that comes with all the data it wants, so that one has to stay.
	once = once && !with
	var pts []int
	for _, fl := range f.Fields {
		pts = append(pts, fl.Off)
		if fl.Size > 1 {
			pts = append(pts, fl.Off+1+c.Rng.Intn(fl.Size-1))
		}
		if fl.Size > 8 {
			pts = append(pts, fl.Off+fl.Size-1)
		}
	}
	kind := []string{"plain", "plain", "plain", "seekable", "seekable", "bufio"}[c.Rng.Intn(6)]
	c.Count("reader: "+kind, 1)
	seen := map[int]bool{}
	c.Sample("%s: faults at %d points, with data %v, once %v", d, len(pts), with, once)
	for _, n := range pts {
		if n >= limit || seen[n] {
			continue
		}
		if with && n == 0 {
			continue
		}
		seen[n] = true
		e := boom
		if c.Rng.Intn(3) == 0 {
			e = faultErrors[c.Rng.Intn(len(faultErrors))]
		}
		var fr io.Reader = &faultReader{r: bytes.NewReader(f.Bytes), n: n, err: e, with: with, once: once}
		switch kind {
		case "seekable":
			fr = &faultSeeker{r: bytes.NewReader(f.Bytes), n: n, err: e, once: once}
		case "bufio":
			fr = bufio.NewReaderSize(fr, 16+c.Rng.Intn(300))
		}
		p, _, err := psd.Decode(fr, do)
		c.Eval(1)
		if err == nil || p != nil {
			c.Fail("fault-lost", "%s: fault after %d bytes (%s): image %v error %v", d, n, fieldAt(f, n), p != nil, err)
			return
		}
		if !errors.Is(err, e) {
			c.Fail("fault-replaced", "%s: fault after %d bytes (%s): error %v does not tell %v", d, n, fieldAt(f, n), err, e)
			return
		}
		if n < f.ResEnd {
			fr := &faultReader{r: bytes.NewReader(f.Bytes), n: n, err: e, with: with, once: once}
			if _, _, err := psd.DecodeConfig(fr); !errors.Is(err, e) {
				c.Fail("fault-config", "%s: DecodeConfig: fault after %d bytes (%s): %v", d, n, fieldAt(f, n), err)
				return
			}
		}
	}
	c.Count("faults", len(seen))
}
