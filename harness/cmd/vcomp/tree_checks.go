package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"image"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"time"

	"golang.org/x/image/math/f64"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/transform"

	"github.com/oov/downscale"
	"github.com/oov/psd/composite"

	"verif/psdgen"
	"verif/vk"
)

// --- M03

func caseConcurrent(c *vk.Ctx) {
	coldNew.Do(func() { newColdStart(c) })
	r := c.Rng
	d, data := genComp(c, psdgen.CompOpt{MaxDim: 50, MaxLayers: 7})
	tile, procs := []int{5, 8, 11, 16, 31}[r.Intn(5)], setProcs(r)
	base := runtime.NumGoroutine()
	t, err := open(data, tile)
	if err != nil {
		c.Fail("new", "New: %v", err)
		return
	}
	noteComp(c, d, "tile", tile, "procs", procs)
	ref, err := open(data, tile)
	if err != nil {
		c.Fail("new", "New: %v", err)
		return
	}
	want := image.NewNRGBA(ref.CanvasRect)
	if err := ref.Renderer.Render(bg, want); err != nil {
		c.Fail("render", "%v", err)
		return
	}
	ls := layersOf(t)
	if len(ls) == 0 {
		return
	}
	c.Distinct(data, tile, procs)
	what := fmt.Sprintf("tile=%d procs=%d %v", tile, procs, outline(d.Roots))
	switch c.Index % 5 {
	case 0:
		concurrentUse(c, data, tile, ref, t, ls, want, what)
	case 1:
		if c.Index%10 == 1 {
			lateRequest(c)
			break
		}
		deferredDirty(c, d, data, tile, t, ls, what)
	case 2:
		cancelRender(c, t, ls, want, what)
	case 3:
		cancelNew(c, data, tile, want, what)
	case 4:
		cancelOthers(c, t, want, what)
	}
	if n := vk.Settle(base); n > base {
		buf := make([]byte, 1<<16)
		c.Fail("leak", "%s: %d goroutines are left\n%s", what, n-base, buf[:runtime.Stack(buf, true)])
	}
}

var coldNew sync.Once

// newColdStart opens and renders documents at once, before anything else was
// opened by this process: nothing may depend on who is the first.
func newColdStart(c *vk.Ctx) {
	type job struct {
		data []byte
		m    f64.Aff3
		g    float64
		tree *composite.Tree
		img  *image.NRGBA
		err  error
	}
	var jobs []*job
	for i := 0; i < 6; i++ {
		_, data := genComp(c, psdgen.CompOpt{MaxDim: 30, MaxLayers: 5})
		m, g := f64.Aff3{1, 0, 0, 0, 1, 0}, 0.0
		if i%2 == 1 {
			m, g = f64.Aff3{0.75, 0.25, 3, 0, 1.5, 0}, 2.2
		}
		jobs = append(jobs, &job{data: data, m: m, g: g}, &job{data: data, m: m, g: g})
	}
	do := func(j *job) (*composite.Tree, *image.NRGBA, error) {
		t, err := composite.New(bg, bytes.NewReader(j.data), &composite.Options{TransformMatrix: j.m, Gamma: j.g, TileSize: 16})
		if err != nil {
			return nil, nil, err
		}
		img := image.NewNRGBA(t.CanvasRect)
		err = t.Renderer.Render(bg, img)
		t.ThumbnailSheet(bg, 8)
		return t, img, err
	}
	runtime.GOMAXPROCS(8)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			j.tree, j.img, j.err = do(j)
		}()
	}
	close(start)
	wg.Wait()
	for i, j := range jobs {
		_, img, err := do(j)
		c.Eval(1)
		if err != nil || j.err != nil {
			c.Fail("first", "tree %d: the first time: %v, now: %v", i, j.err, err)
			return
		}
		if s := diffImages(j.img, img, j.tree.CanvasRect); s != "" {
			c.Fail("first", "tree %d of those that were opened at once: %s", i, s)
			return
		}
	}
	c.Count("first trees of a process", len(jobs))
}

func concurrentUse(c *vk.Ctx, data []byte, tile int, ref, t *composite.Tree, ls []*composite.Layer, want *image.NRGBA, what string) {
	var wg sync.WaitGroup
	n := 3 + c.Rng.Intn(4)
	var thumbs map[int]*image.NRGBA
	// t itself is not used by anybody yet.
	if m, err := ref.Thumbnails(bg, 9); err == nil {
		thumbs = m
	}
	for i := 0; i < n; i++ {
		kind := c.Rng.Intn(9)
		seed := c.Rng.Int63()
		if i == 0 {
			kind = 0
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Guard("goroutine", func() {
				rr := newRand(seed)
				for k := 0; k < 2; k++ {
					m := image.NewNRGBA(t.CanvasRect)
					var err error
					switch kind {
					case 0, 1:
						err = t.Renderer.Render(bg, m)
					case 2:
						for j := 0; j < 5; j++ {
							t.Renderer.SetDirtyByLayer(ls[rr.Intn(len(ls))])
							runtime.Gosched()
						}
						continue
					case 3:
						err = t.Clone().Renderer.Render(bg, m)
					case 4:
						tm, err := t.Thumbnails(bg, 9)
						if err != nil || len(tm) != len(thumbs) {
							c.Fail("thumbnails", "%s: %v, %d thumbnails, want %d", what, err, len(tm), len(thumbs))
							return
						}
						for id, m := range tm {
							w := thumbs[id]
							if w == nil || w.Rect != m.Rect || !bytes.Equal(w.Pix, m.Pix) {
								c.Fail("thumbnails", "%s: the thumbnail of %d differs from the one that was made alone", what, id)
								return
							}
						}
						continue
					case 7:
						var nt *composite.Tree
						nt, err = open(data, tile)
						if err == nil {
							err = nt.Renderer.Render(bg, m)
						}
					case 8:
						sheet, rects, err := t.ThumbnailSheet(bg, 9)
						if err != nil || len(rects) != len(thumbs) {
							c.Fail("thumbnails", "%s: %v, %d thumbnails in the sheet, want %d", what, err, len(rects), len(thumbs))
							return
						}
						for id, q := range rects {
							w := thumbs[id]
							if w == nil {
								c.Fail("thumbnails", "%s: the sheet has %d", what, id)
								return
							}
							o := q.Min.Add(image.Pt((9-w.Rect.Dx())/2, (9-w.Rect.Dy())/2))
							if s := diffImages(sheet.SubImage(w.Rect.Add(o)).(*image.NRGBA), shifted(w, o), w.Rect.Add(o)); s != "" {
								c.Fail("thumbnails", "%s: the sheet at %v differs from the thumbnail of %d that was made alone: %s", what, q, id, s)
								return
							}
						}
						continue
					case 5:
						var nt *composite.Tree
						nt, err = t.Transform(bg, f64.Aff3{1, 0, 0, 0, 1, 0}, 0)
						if err == nil {
							err = nt.Renderer.Render(bg, m)
						}
					case 6:
						// it is not known what it draws since others render at the same time.
						if err := t.Renderer.RenderDiff(bg, m); err != nil {
							c.Fail("render", "%s: %v", what, err)
						}
						continue
					}
					if err != nil {
						c.Fail("render", "%s: %v", what, err)
						return
					}
					c.Eval(1)
					c.Count("concurrent images", 1)
					if s := diffImages(m, want, t.CanvasRect); s != "" {
						c.Fail("concurrent pixels", "%s: kind=%d: %s", what, kind, s)
						return
					}
				}
			})
		}()
	}
	wg.Wait()
	finalRender(c, t, want, what)
}

func finalRender(c *vk.Ctx, t *composite.Tree, want *image.NRGBA, what string) {
	m := image.NewNRGBA(t.CanvasRect)
	if err := t.Renderer.Render(bg, m); err != nil {
		c.Fail("render", "%s: %v", what, err)
		return
	}
	c.Eval(1)
	if s := diffImages(m, want, t.CanvasRect); s != "" {
		c.Fail("later pixels", "%s: %s", what, s)
	}
}

// shifted returns m moved by o.
func shifted(m *image.NRGBA, o image.Point) *image.NRGBA {
	n := *m
	n.Rect = m.Rect.Add(o)
	return &n
}

// hookCtx calls f when Done is called for the first time.
type hookCtx struct {
	context.Context
	f    func()
	once sync.Once
}

func (h *hookCtx) Done() <-chan struct{} {
	h.once.Do(h.f)
	return h.Context.Done()
}

// deferredDirty: requests made while rendering are not lost.
func deferredDirty(c *vk.Ctx, d *psdgen.Doc, data []byte, tile int, t *composite.Tree, ls []*composite.Layer, what string) {
	r := c.Rng
	dest := image.NewNRGBA(t.CanvasRect)
	if r.Intn(2) == 0 {
		if err := t.Renderer.Render(bg, dest); err != nil {
			c.Fail("render", "%s: %v", what, err)
			return
		}
	}
	for i := 0; i < 3; i++ {
		var changed []*composite.Layer
		var log []string
		edits := 1 + r.Intn(3)
		if r.Intn(2) == 0 {
			edits = 4 + r.Intn(12)
		}
		for n := edits; n > 0; n-- {
			l := pickLayer(r, ls)
			log = append(log, editAny(r, d, l))
			changed = append(changed, l)
		}
		r.Shuffle(len(changed), func(i, j int) { changed[i], changed[j] = changed[j], changed[i] })
		done := make(chan error, 1)
		ctx, cancel := context.WithCancel(bg)
		keep := image.NewNRGBA(dest.Rect)
		copy(keep.Pix, dest.Pix)
		if r.Intn(2) == 0 {
			// The rendering asks the context after it has begun, so the requests are surely made in it.
			log = append(log, "requested in the middle")
			stop := r.Intn(2) == 0
			c.Count("requests in the middle", len(changed))
			done <- t.Renderer.RenderDiff(&hookCtx{Context: ctx, f: func() {
				for _, l := range changed {
					t.Renderer.SetDirtyByLayer(l)
				}
				if stop {
					cancel()
				}
			}}, dest)
		} else {
			go func() { done <- t.Renderer.RenderDiff(ctx, dest) }()
			for n := r.Intn(40); n > 0; n-- {
				runtime.Gosched()
			}
			for _, l := range changed {
				t.Renderer.SetDirtyByLayer(l)
			}
			if r.Intn(3) == 0 {
				cancel()
			}
		}
		err := <-done
		if err != nil && err != composite.ErrAborted {
			c.Fail("render", "%s: %v", what, err)
		}
		if err != nil {
			log = append(log, "canceled")
			c.Count("canceled with requests", 1)
		}
		if err != nil && r.Intn(2) == 0 {
			dest = keep // what it has drawn is thrown away.
			c.Count("canceled and thrown away", 1)
		}
		cancel()
		if err := t.Renderer.RenderDiff(bg, dest); err != nil {
			c.Fail("render", "%s: %v", what, err)
			return
		}
		want := fresh(c, data, tile, t)
		if want == nil {
			return
		}
		c.Eval(1)
		c.Count("deferred requests", len(changed))
		if s := diffImages(dest, want, t.CanvasRect); s != "" {
			c.Fail("deferred pixels", "%s: %v: %s", what, log, s)
			return
		}
	}
}

// lateRequest: what is being rendered while it is requested will be rendered again,
// even if the most of folders are taken from the cache made before the change.
func lateRequest(c *vk.Ctx) {
	r := c.Rng
	tile := []int{8, 16, 32, 64}[r.Intn(4)]
	d := psdgen.DeepComp(r, 30+r.Intn(80), 30+r.Intn(130))
	data := psdgen.Encode(d, r).Bytes
	procs := 2 + r.Intn(7)
	runtime.GOMAXPROCS(procs)
	t, err := open(data, tile)
	if err != nil {
		c.Fail("new", "New: %v", err)
		return
	}
	what := fmt.Sprintf("%dx%d tile=%d procs=%d %v", d.W, d.H, tile, procs, outline(d.Roots))
	ls := layersOf(t)
	top := &t.Root.Children[len(t.Root.Children)-1]
	dest := image.NewNRGBA(t.CanvasRect)
	if err := t.Renderer.Render(bg, dest); err != nil {
		c.Fail("render", "%s: %v", what, err)
		return
	}
	t.Renderer.SetDirtyByLayer(top)
	start := time.Now()
	if err := t.Renderer.RenderDiff(bg, dest); err != nil {
		c.Fail("render", "%s: %v", what, err)
		return
	}
	cost := time.Since(start)
	for i := 0; i < 6; i++ {
		l := pickLayer(r, ls)
		log := editAny(r, d, l)
		t.Renderer.SetDirtyByLayer(top)
		done := make(chan error)
		go func() { done <- t.Renderer.RenderDiff(bg, dest) }()
		wait := time.Duration(r.Int63n(int64(cost) + 1))
		for start := time.Now(); time.Since(start) < wait; {
			runtime.Gosched()
		}
		t.Renderer.SetDirtyByLayer(l)
		if err := <-done; err != nil {
			c.Fail("render", "%s: %v", what, err)
			return
		}
		if err := t.Renderer.RenderDiff(bg, dest); err != nil {
			c.Fail("render", "%s: %v", what, err)
			return
		}
		want := fresh(c, data, tile, t)
		if want == nil {
			return
		}
		c.Eval(1)
		c.Count("late requests", 1)
		if s := diffImages(dest, want, t.CanvasRect); s != "" {
			c.Fail("deferred pixels", "%s: %s requested after %v: %s", what, log, wait, s)
			return
		}
	}
}

// slowDone takes time to return the channel so that everything to wait for becomes ready.
type slowDone struct {
	context.Context
	d time.Duration
	// who is slow: 0 every caller, 1 the goroutine that made it, 2 the other goroutines
	who int
	id  string
}

// newSlowDone is called by the goroutine that calls the operation.
func newSlowDone(ctx context.Context, r *rand.Rand) (context.Context, string) {
	s := slowDone{ctx, time.Duration(r.Intn(300)) * time.Microsecond, r.Intn(4), goroutineID()}
	if s.who == 3 {
		s.who = 1
	}
	if s.who == 1 {
		s.d = time.Duration(r.Intn(6000)) * time.Microsecond
	}
	return s, []string{" slowly", " while the others finish", " before the others"}[s.who]
}

func (s slowDone) Done() <-chan struct{} {
	if s.who == 0 || (s.who == 1) == (goroutineID() == s.id) {
		time.Sleep(s.d)
	}
	return s.Context.Done()
}

func goroutineID() string {
	var b [64]byte
	return strings.SplitN(string(b[:runtime.Stack(b[:], false)]), " ", 3)[1]
}

// randCancel returns a context that will be canceled.
func randCancel(c *vk.Ctx) (context.Context, func(), string) {
	r := c.Rng
	if r.Intn(3) == 0 {
		ctx, cancel, how := randCancel(c)
		slow, s := newSlowDone(ctx, r)
		return slow, cancel, how + s
	}
	switch r.Intn(5) {
	case 0:
		ctx, cancel := context.WithCancel(bg)
		cancel()
		return ctx, cancel, "canceled already"
	case 1:
		ctx := newStepCtx(r.Intn(4))
		return ctx, ctx.cancel, "canceled while waiting"
	case 2:
		ctx, cancel := context.WithTimeout(bg, time.Duration(r.Intn(300))*time.Microsecond)
		return ctx, cancel, "timeout"
	}
	ctx, cancel := context.WithCancel(bg)
	n := r.Intn(60)
	go func() {
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
		cancel()
	}()
	return ctx, cancel, "canceled by another goroutine"
}

func cancelRender(c *vk.Ctx, t *composite.Tree, ls []*composite.Layer, want *image.NRGBA, what string) {
	r := c.Rng
	dest := image.NewNRGBA(t.CanvasRect)
	for i := 0; i < 4; i++ {
		for n := r.Intn(3); n > 0; n-- {
			t.Renderer.SetDirtyByLayer(ls[r.Intn(len(ls))])
		}
		ctx, cancel, how := randCancel(c)
		var err error
		diff := r.Intn(2) == 0
		m := dest
		if diff {
			err = t.Renderer.RenderDiff(ctx, dest)
		} else {
			m = garbage(r, t.CanvasRect)
			clearOutside(m, t.Rect)
			err = t.Renderer.Render(ctx, m)
		}
		cancel()
		switch {
		case err == composite.ErrAborted:
			c.Count("aborted", 1)
		case err != nil:
			c.Fail("cancel error", "%s: %s: %v", what, how, err)
			return
		default:
			c.Count("completed", 1)
			if !diff {
				if s := diffImages(m, want, t.CanvasRect); s != "" {
					c.Fail("cancel pixels", "%s: %s: reported as completed: %s", what, how, s)
					return
				}
			}
		}
		c.Eval(1)
	}
	finalRender(c, t, want, what)
}

// slowReader calls f when it passes the position.
type slowReader struct {
	r   io.Reader
	n   int
	at  int
	f   func()
	err error
}

func (s *slowReader) Read(p []byte) (int, error) {
	if s.f != nil && s.n >= s.at {
		s.f()
		s.f = nil
	}
	if s.err != nil && s.n >= s.at {
		return 0, s.err
	}
	runtime.Gosched()
	if len(p) > 64 {
		p = p[:64]
	}
	n, err := s.r.Read(p)
	s.n += n
	return n, err
}

var errInjected = errors.New("injected")

func cancelNew(c *vk.Ctx, data []byte, tile int, want *image.NRGBA, what string) {
	r := c.Rng
	for i := 0; i < 4; i++ {
		sr := &slowReader{r: bytes.NewReader(data), at: r.Intn(len(data))}
		var ctx context.Context = bg
		cancel := func() {}
		how := ""
		fault := false
		switch r.Intn(4) {
		case 0:
			sr.err = errInjected
			fault = true
			how = fmt.Sprintf("read error at %d", sr.at)
		case 1:
			cc, f := context.WithCancel(bg)
			ctx, cancel, sr.f = cc, f, f
			how = fmt.Sprintf("canceled at %d", sr.at)
			if r.Intn(2) == 0 {
				slow, s := newSlowDone(cc, r)
				ctx = slow
				how += s
			}
		default:
			ctx, cancel, how = randCancel(c)
		}
		m := [6]float64{1, 0, 0, 0, 1, 0}
		if r.Intn(3) == 0 {
			m[2] = 5 // goes through the transform
		}
		t, err := composite.New(ctx, sr, &composite.Options{TileSize: tile, TransformMatrix: m})
		cancel()
		c.Eval(1)
		switch {
		case err != nil && t != nil:
			c.Fail("new", "%s: %s: both of a tree and an error %v", what, how, err)
			return
		case err == composite.ErrAborted && !fault:
			c.Count("aborted New", 1)
		case err != nil && fault && strings.Contains(err.Error(), "injected"):
			c.Count("failed New", 1)
		case err != nil:
			c.Fail("new error", "%s: %s: %v", what, how, err)
			return
		default:
			c.Count("completed New", 1)
			if m[2] != 0 {
				break
			}
			finalRender(c, t, want, what+" "+how)
		}
	}
}

func cancelOthers(c *vk.Ctx, t *composite.Tree, want *image.NRGBA, what string) {
	r := c.Rng
	full, err := t.Thumbnails(bg, 11)
	if err != nil {
		c.Fail("thumbnails", "%s: %v", what, err)
		return
	}
	for i := 0; i < 4; i++ {
		ctx, cancel, how := randCancel(c)
		var err error
		k := r.Intn(3)
		switch k {
		case 0:
			m := f64.Aff3{1, 0, 0, 0, 1, 0}
			var nt *composite.Tree
			if nt, err = t.Transform(ctx, m, 0); err == nil {
				finalRender(c, nt, want, what+" "+how)
			} else if nt != nil {
				c.Fail("transform", "%s: %s: both of a tree and an error", what, how)
			}
		case 1:
			var m map[int]*image.NRGBA
			if m, err = t.Thumbnails(ctx, 11); err == nil && len(m) != len(full) {
				c.Fail("thumbnails", "%s: %s: %d thumbnails, want %d", what, how, len(m), len(full))
			}
		case 2:
			var m map[int]image.Rectangle
			if _, m, err = t.ThumbnailSheet(ctx, 11); err == nil && len(m) != len(full) {
				c.Fail("thumbnails", "%s: %s: %d thumbnails in the sheet, want %d", what, how, len(m), len(full))
			}
		}
		cancel()
		c.Eval(1)
		if err == nil {
			c.Count("completed others", 1)
		} else if err == composite.ErrAborted {
			c.Count("aborted others", 1)
		} else {
			c.Fail("cancel error", "%s: %s: %v", what, how, err)
			return
		}
	}
	finalRender(c, t, want, what)
}

// --- M04

// checkLinks verifies that all pointers stay in the tree.
func checkLinks(t *composite.Tree) string {
	own := map[*composite.Layer]bool{&t.Root: true}
	walk(&t.Root, func(l *composite.Layer) { own[l] = true })
	if t.Root.Parent != nil {
		return "the root has a parent"
	}
	var bad string
	var rec func(l *composite.Layer)
	rec = func(l *composite.Layer) {
		for i := range l.Children {
			ch := &l.Children[i]
			if ch.Parent != l {
				bad = fmt.Sprintf("parent of layer %d is wrong", ch.SeqID)
			}
			if ch.ClippedBy != nil && (!own[ch.ClippedBy] || ch.ClippedBy.Parent != l) {
				bad = fmt.Sprintf("layer %d is clipped by a layer that is not in the tree", ch.SeqID)
			}
			for _, cl := range ch.Clip {
				if !own[cl] || cl.ClippedBy != ch {
					bad = fmt.Sprintf("layer %d clips a layer that is not in the tree", ch.SeqID)
				}
			}
			rec(ch)
		}
	}
	rec(&t.Root)
	return bad
}

func stateOf(t *composite.Tree) string {
	var sb strings.Builder
	fmt.Fprint(&sb, t.Rect, t.CanvasRect, t.Root.SeqID)
	var rec func(l *composite.Layer)
	rec = func(l *composite.Layer) {
		fmt.Fprintf(&sb, "(%d %q %v %v %v %s %d %v %v %v %d [", l.SeqID, l.Name, l.Folder, l.FolderOpen, l.Visible, string(l.BlendMode), l.Opacity, l.Clipping, l.BlendClippedElements, l.MaskEnabled, l.MaskDefaultColor)
		if l.ClippedBy != nil {
			fmt.Fprint(&sb, "^", l.ClippedBy.SeqID)
		}
		for _, cl := range l.Clip {
			fmt.Fprint(&sb, " ", cl.SeqID)
		}
		sb.WriteString("]")
		for i := range l.Children {
			rec(&l.Children[i])
		}
		sb.WriteString(")")
	}
	rec(&t.Root)
	return sb.String()
}

func caseClone(c *vk.Ctx) {
	r := c.Rng
	d, data := genComp(c, psdgen.CompOpt{MaxDim: 40, MaxLayers: 7, Many: true})
	tile := randTile(r, d)
	setProcs(r)
	t, err := open(data, tile)
	if err != nil {
		c.Fail("new", "New: %v", err)
		return
	}
	if len(layersOf(t)) == 0 {
		return
	}
	noteComp(c, d, "tile", tile)
	trees := []*composite.Tree{t}
	dests := []*image.NRGBA{image.NewNRGBA(t.CanvasRect)}
	var log []string
	what := func() string { return fmt.Sprintf("tile=%d %v: %s", tile, outline(d.Roots), strings.Join(log, "; ")) }
	for i := 0; i < 8+r.Intn(8); i++ {
		k := r.Intn(len(trees))
		x := trees[k]
		if len(trees) < 4 && r.Intn(3) == 0 {
			states := make([]string, len(trees))
			for j := range trees {
				states[j] = stateOf(trees[j])
			}
			log = append(log, fmt.Sprintf("tree%d=clone of tree%d", len(trees), k))
			cl := x.Clone()
			if s := stateOf(cl); s != states[k] {
				c.Fail("state", "%s: the clone is %s, the original is %s", what(), s, states[k])
				return
			}
			for j := range trees {
				if stateOf(trees[j]) != states[j] {
					c.Fail("original state", "%s: tree%d has been changed by Clone", what(), j)
					return
				}
			}
			if cl.Renderer == x.Renderer {
				c.Fail("renderer", "%s: the renderer is shared", what())
				return
			}
			trees = append(trees, cl)
			dests = append(dests, image.NewNRGBA(cl.CanvasRect))
			for _, y := range trees {
				if s := checkLinks(y); s != "" {
					c.Fail("links", "%s: %s", what(), s)
					return
				}
			}
			c.Count("clones", 1)
		} else {
			// changes of a tree are not visible in the others.
			states := make([]string, len(trees))
			for j := range trees {
				states[j] = stateOf(trees[j])
			}
			for n := 1 + r.Intn(2); n > 0; n-- {
				l := pickLayer(r, layersOf(x))
				log = append(log, fmt.Sprintf("tree%d.%s", k, editAny(r, d, l)))
				x.Renderer.SetDirtyByLayer(l)
			}
			for j := range trees {
				if j != k && stateOf(trees[j]) != states[j] {
					c.Fail("shared state", "%s: tree%d has been changed", what(), j)
					return
				}
			}
		}
		for n := 1 + r.Intn(2); n > 0; n-- {
			j := r.Intn(len(trees))
			log = append(log, fmt.Sprintf("render tree%d", j))
			y := trees[j]
			if err := y.Renderer.RenderDiff(bg, dests[j]); err != nil {
				c.Fail("render", "%v", err)
				return
			}
			want := fresh(c, data, tile, y)
			if want == nil {
				return
			}
			c.Eval(1)
			c.Count("images", 1)
			if s := diffImages(dests[j], want, y.CanvasRect); s != "" {
				c.Fail("pixels", "%s: %s", what(), s)
				return
			}
		}
	}
	c.Distinct(data, strings.Join(log, ";"))
}

// --- M06

func caseThumbnail(c *vk.Ctx) {
	r := c.Rng
	opt := psdgen.CompOpt{MaxDim: 50, MaxLayers: 10, NoClbl: true, Empty: true, Long: true, Many: true}
	size := 1 + r.Intn(40)
	large := r.Intn(150) == 0
	switch {
	case c.Index%1000 == 77 || large && r.Intn(8) == 0:
		// it needs a sheet of 4096
		large = true
		size = 1025 + r.Intn(600)
		opt.MaxDim, opt.MaxLayers = 20, 10
	case large:
		size = 64 << uint(r.Intn(4))
		size -= r.Intn(2) * r.Intn(size/2)
		opt.MaxDim, opt.MaxLayers = 20, min(60, 2048/size*2048/size)
	}
	moved := r.Intn(4)
	if moved == 1 || moved == 2 {
		// Colors of translucent pixels are rounded.
		opt.Near, opt.Binary = true, true
	}
	d, data := genComp(c, opt)
	tile := randTile(r, d)
	procs := setProcs(r)
	var t *composite.Tree
	var err error
	m := aff{1, 0, r.Intn(200) - 100, 0, 1, r.Intn(200) - 100}
	if r.Intn(3) == 0 {
		m.c, m.f = r.Intn(1<<18)-1<<17, r.Intn(1<<18)-1<<17
	}
	switch moved {
	case 1:
		t, err = composite.New(bg, bytes.NewReader(data), &composite.Options{TileSize: tile, TransformMatrix: m.f64()})
	case 2:
		if t, err = open(data, tile); err == nil {
			t, err = t.Transform(bg, m.f64(), 0)
		}
	default:
		t, err = open(data, tile)
	}
	if err != nil {
		c.Fail("new", "New: %v", err)
		return
	}
	if moved == 3 {
		t = t.Clone()
	}
	noteComp(c, d, "tile", tile)
	what := fmt.Sprintf("tile=%d size=%d procs=%d tree=%s %v", tile, size, procs, [...]string{"New", fmt.Sprint("New", m), fmt.Sprint("Transform", m), "Clone"}[moved], outline(d.Roots))
	if ls := layersOf(t); len(ls) > 0 && r.Intn(2) == 0 {
		// They are of the pixels of the layer, however it is shown.
		for n := 1 + r.Intn(4); n > 0; n-- {
			edit(r, d, pickLayer(r, ls))
		}
		if r.Intn(2) == 0 {
			t.Renderer.Render(bg, image.NewNRGBA(t.CanvasRect))
		}
	}
	want := map[int]*image.NRGBA{}
	for _, l := range d.Flat {
		if l.Folder || l.SectType != 0 || l.Rect.Empty() {
			continue
		}
		if m := expectedThumb(leafImage(l), size); m != nil {
			want[l.SeqID] = m
		}
	}
	same := func(got, want *image.NRGBA) string {
		if got.Rect != want.Rect {
			return fmt.Sprintf("size is %v, want %v", got.Rect, want.Rect)
		}
		return diffImages(got, want, got.Rect)
	}
	// one by one, with buffers
	bufs := [][]byte{nil, make([]byte, 100), make([]byte, 1<<20)}
	for _, l := range d.Flat {
		b := bufs[r.Intn(len(bufs))]
		canary := r.Intn(3) == 0
		switch {
		case canary:
			// what is after the end of the buffer is not a part of it.
			b = bytes.Repeat([]byte{0xa5}, 1<<16)[:r.Intn(1<<uint(r.Intn(15)))]
			r.Read(b)
		case len(b) > 100:
			r.Read(b[:1<<14])
		default:
			r.Read(b)
		}
		m, err := t.Thumbnail(l.SeqID, size, b)
		if canary {
			if rest := b[len(b):cap(b)]; bytes.Count(rest, []byte{0xa5}) != len(rest) {
				c.Fail("buffer", "%s: layer %d: bytes after the end of the buffer of %d bytes have been changed", what, l.SeqID, len(b))
				return
			}
			c.Count("buffers in the middle of a memory", 1)
		}
		w := want[l.SeqID]
		switch {
		case w == nil && err == nil:
			if !m.Rect.Empty() {
				c.Fail("unexpected", "%s: layer %d has a thumbnail", what, l.SeqID)
				return
			}
		case w != nil && err != nil:
			c.Fail("missing", "%s: layer %d: %v", what, l.SeqID, err)
			return
		case w != nil:
			if s := same(m, w); s != "" {
				c.Fail("pixels", "%s: layer %d: %s", what, l.SeqID, s)
				return
			}
			c.Count("thumbnails", 1)
			c.Eval(1)
			c.Distinct(data, l.SeqID, size)
		}
	}
	if _, err := t.Thumbnail(len(d.Flat)+5, size, nil); err == nil {
		c.Fail("unknown layer", "%s: no error", what)
	}
	ms, err := t.Thumbnails(bg, size)
	if err != nil {
		c.Fail("thumbnails", "%s: %v", what, err)
		return
	}
	sheet, rects, err := t.ThumbnailSheet(bg, size)
	if err != nil {
		// only if it does not fit 4096x4096
		if large && (4096/size)*(4096/size) < len(ms) {
			c.Count("too large for a sheet", 1)
			return
		}
		c.Fail("sheet", "%s: %v", what, err)
		return
	}
	if sheet.Rect.Dx() > 1024 {
		c.Count("large sheets", 1)
	}
	for id, w := range want {
		m := ms[id]
		if m == nil {
			c.Fail("missing", "%s: layer %d is not in Thumbnails", what, id)
			return
		}
		if s := same(m, w); s != "" {
			c.Fail("pixels", "%s: layer %d of Thumbnails: %s", what, id, s)
			return
		}
		rc, ok := rects[id]
		if !ok || rc.Dx() != size || rc.Dy() != size || !rc.In(sheet.Rect) {
			c.Fail("sheet rect", "%s: layer %d is at %v in the sheet %v", what, id, rc, sheet.Rect)
			return
		}
		// the cell has the thumbnail at the center.
		cell := image.NewNRGBA(rc)
		ox, oy := rc.Min.X+(size-w.Rect.Dx())/2, rc.Min.Y+(size-w.Rect.Dy())/2
		for y := 0; y < w.Rect.Dy(); y++ {
			copy(cell.Pix[cell.PixOffset(ox, oy+y):][:w.Rect.Dx()*4], w.Pix[w.PixOffset(0, y):])
		}
		if s := diffImages(sheet, cell, rc); s != "" {
			c.Fail("sheet pixels", "%s: layer %d at %v: %s", what, id, rc, s)
			return
		}
		for id2, rc2 := range rects {
			if id2 != id && rc2.Overlaps(rc) {
				c.Fail("sheet rect", "%s: layers %d and %d overlap", what, id, id2)
				return
			}
		}
		c.Eval(2)
	}
	for id, m := range ms {
		if want[id] == nil && !m.Rect.Empty() {
			c.Fail("unexpected", "%s: layer %d has a thumbnail", what, id)
		}
	}
	if len(rects) != len(ms) {
		c.Fail("sheet count", "%s: %d thumbnails, and %d in the sheet", what, len(ms), len(rects))
	}
}

// expectedThumb returns nil if there are no pixels.
func expectedThumb(m *image.NRGBA, size int) *image.NRGBA {
	var rc image.Rectangle
	for y := m.Rect.Min.Y; y < m.Rect.Max.Y; y++ {
		for x := m.Rect.Min.X; x < m.Rect.Max.X; x++ {
			if m.Pix[m.PixOffset(x, y)+3] > 0 {
				rc = rc.Union(image.Rect(x, y, x+1, y+1))
			}
		}
	}
	if rc.Empty() {
		return nil
	}
	src := image.NewNRGBA(image.Rect(0, 0, rc.Dx(), rc.Dy()))
	for y := 0; y < rc.Dy(); y++ {
		copy(src.Pix[y*src.Stride:][:src.Stride], m.Pix[m.PixOffset(rc.Min.X, rc.Min.Y+y):])
	}
	w, h := size, size
	if rc.Dx() > rc.Dy() {
		h = rc.Dy() * size / rc.Dx()
	} else {
		w = rc.Dx() * size / rc.Dy()
	}
	if w == 0 || h == 0 {
		return nil
	}
	dst := image.NewNRGBA(image.Rect(0, 0, w, h))
	if err := downscale.NRGBAFast(bg, dst, src); err != nil {
		panic(err)
	}
	return dst
}

// --- M07

// caseRefused opens a document in the color mode or the depth that is not supported.
func caseRefused(c *vk.Ctx) {
	d := psdgen.RandDoc(c.Rng, psdgen.Opt{MaxDim: 8})
	if d.Mode == psdgen.RGB && d.Depth == 8 {
		return
	}
	t, err := composite.New(bg, bytes.NewReader(psdgen.Encode(d, c.Rng).Bytes), nil)
	if err == nil || t != nil {
		c.Fail("not refused", "New accepted %s: %v", d, err)
		return
	}
	c.Eval(1)
	c.Count(fmt.Sprintf("refused: mode %d depth %d", d.Mode, d.Depth), 1)
}

// pickyEncoding fails to decode the names that have 0x80 or more.
type pickyEncoding struct{}

func (pickyEncoding) NewDecoder() *encoding.Decoder {
	return &encoding.Decoder{Transformer: picky{}}
}

func (pickyEncoding) NewEncoder() *encoding.Encoder { return encoding.Nop.NewEncoder() }

type picky struct{ transform.NopResetter }

var errPicky = errors.New("not acceptable")

func (picky) Transform(dst, src []byte, atEOF bool) (nd, ns int, err error) {
	for ns < len(src) {
		if src[ns] >= 0x80 {
			return nd, ns, errPicky
		}
		if nd+2 > len(dst) {
			return nd, ns, transform.ErrShortDst
		}
		dst[nd], dst[nd+1] = '~', src[ns]
		nd += 2
		ns++
	}
	return nd, ns, nil
}

func caseTreeShape(c *vk.Ctx) {
	r := c.Rng
	if r.Intn(12) == 0 {
		caseRefused(c)
		return
	}
	d, data := genComp(c, psdgen.CompOpt{MaxDim: 6, MaxLayers: 20, Empty: true, Many: true})
	var seen [][]byte
	opt := &composite.Options{TileSize: 8}
	enc := encoding.Encoding(encoding.Nop)
	decode := func(b []byte) string { return string(b) }
	if r.Intn(3) > 0 {
		switch r.Intn(5) {
		case 0, 1:
			enc = charmap.Windows1252
		case 2:
			enc = charmap.KOI8R
		case 3:
			enc = japanese.ISO2022JP // has a state
		case 4:
			enc = pickyEncoding{}
			c.Count("decoder fails", 1)
		}
		decode = func(b []byte) string {
			s, err := enc.NewDecoder().Bytes(b)
			if err != nil {
				return string(b)
			}
			return string(s)
		}
		opt.LayerNameEncodingDetector = func(b []byte) encoding.Encoding {
			seen = append(seen, append([]byte(nil), b...))
			return enc
		}
	}
	t, err := composite.New(bg, bytes.NewReader(data), opt)
	if err != nil {
		c.Fail("new", "New: %v", err)
		return
	}
	noteComp(c, d)
	c.Distinct(data)
	if s := checkLinks(t); s != "" {
		c.Fail("links", "%v: %s", outline(d.Roots), s)
		return
	}
	if t.Root.SeqID != composite.SeqIDRoot || !t.Root.Folder || !t.Root.Visible || t.Root.Opacity != 255 {
		c.Fail("root", "root is %+v", t.Root)
	}
	var rec func(ns []*psdgen.Layer, ls []composite.Layer) string
	rec = func(ns []*psdgen.Layer, ls []composite.Layer) string {
		if len(ns) != len(ls) {
			return fmt.Sprintf("%d layers, want %d", len(ls), len(ns))
		}
		base := -1
		var clip []int
		flush := func() string {
			if base < 0 {
				return ""
			}
			var got []int
			for _, cl := range ls[base].Clip {
				got = append(got, cl.SeqID)
			}
			if fmt.Sprint(got) != fmt.Sprint(clip) {
				return fmt.Sprintf("layer %d has clipping layers %v, want %v", ls[base].SeqID, got, clip)
			}
			return ""
		}
		for i, n := range ns {
			l := &ls[i]
			c.Eval(1)
			name := ""
			switch {
			case n.HasLuni && n.Luni != "":
				name = n.Luni
			case len(n.Pascal) > 0:
				name = decode(n.Pascal)
			}
			bm := n.Blend
			if n.Folder {
				bm = n.SectBM
			} else if bm == "pass" {
				bm = "norm"
			}
			clbl := true
			if n.ClblSet {
				clbl = n.Clbl
			}
			want := fmt.Sprintf("%d %q folder=%v open=%v visible=%v %s %d clip=%v clbl=%v mask=%v,%d", n.SeqID, name, n.Folder, n.SectType == 1, n.Flags&2 == 0, bm, n.Opacity, n.Clipping, clbl,
				n.Mask.Len > 0 && !n.Mask.Rect.Empty() && n.Mask.Flags&2 == 0, n.Mask.Default)
			got := fmt.Sprintf("%d %q folder=%v open=%v visible=%v %s %d clip=%v clbl=%v mask=%v,%d", l.SeqID, l.Name, l.Folder, l.FolderOpen, l.Visible, string(l.BlendMode), l.Opacity, l.Clipping, l.BlendClippedElements,
				l.MaskEnabled, l.MaskDefaultColor)
			if want != got {
				return fmt.Sprintf("layer is %s, want %s", got, want)
			}
			if n.Clipping {
				clip = append(clip, n.SeqID)
				if base >= 0 && l.ClippedBy != &ls[base] || base < 0 && l.ClippedBy != nil {
					return fmt.Sprintf("ClippedBy of layer %d is wrong", l.SeqID)
				}
				if len(l.Clip) > 0 {
					return fmt.Sprintf("clipping layer %d has clipping layers", l.SeqID)
				}
			} else {
				if s := flush(); s != "" {
					return s
				}
				if l.ClippedBy != nil {
					return fmt.Sprintf("ClippedBy of layer %d is not nil", l.SeqID)
				}
				base, clip = i, nil
			}
			if s := rec(n.Children, l.Children); s != "" {
				return s
			}
		}
		return flush()
	}
	if s := rec(d.Roots, t.Root.Children); s != "" {
		c.Fail("tree", "%v: %s", outline(d.Roots), s)
		return
	}
	for _, b := range seen {
		// all of the names are given to the detector.
		for _, l := range d.Flat {
			if l.SectType == 3 {
				continue
			}
			if !bytes.Contains(b, l.Pascal) {
				c.Fail("detector", "%v: the name of layer %d was not given to the detector", outline(d.Roots), l.SeqID)
				return
			}
		}
		c.Count("detections", 1)
	}
	if len(seen) > 1 {
		c.Count("repeated detections", 1)
	}
}
