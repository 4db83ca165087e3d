package main

import (
	"bytes"
	"context"
	"fmt"
	"image/png"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/psdgen"
	"verif/vk"
)

// runExporter executes psdexporter in a scratch directory.
// prep may put something in the directory before the execution.
func runExporter(c *vk.Ctx, data []byte, prep func(dir string)) (files map[string][]byte, exit error, out string) {
	bin := filepath.Join(os.Getenv("VERIF_ROOT"), "out", "bin", "psdexporter")
	dir, err := os.MkdirTemp("", "verif-export")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	in := filepath.Join(dir, "in.psd")
	work := filepath.Join(dir, "work")
	if err := os.WriteFile(in, data, 0o644); err != nil {
		panic(err)
	}
	if err := os.Mkdir(work, 0o755); err != nil {
		panic(err)
	}
	if prep != nil {
		prep(work)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, in)
	cmd.Dir = work
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	exit = cmd.Run()
	if exit != nil {
		if _, ok := exit.(*exec.ExitError); !ok || ctx.Err() != nil {
			panic(fmt.Sprintf("cannot run %s: %v %v", bin, exit, ctx.Err()))
		}
	}
	files = map[string][]byte{}
	es, err := os.ReadDir(work)
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		if e.IsDir() {
			continue
		}
		b, err := os.ReadFile(filepath.Join(work, e.Name()))
		if err != nil {
			panic(err)
		}
		files[e.Name()] = b
	}
	return files, exit, buf.String()
}

func expectedFiles(ns []*psdgen.Layer, prefix string, m map[string]*psdgen.Layer) {
	for i, n := range ns {
		name := fmt.Sprintf("%03d", i)
		if prefix != "" {
			name = prefix + "_" + name
		}
		if n.Folder || n.SectType != 0 {
			expectedFiles(n.Children, name, m)
			continue
		}
		if !n.Rect.Empty() {
			m[name+".png"] = n
		}
	}
}

// expectedOutput returns the lines about the files that are written.
func expectedOutput(ns []*psdgen.Layer, prefix, path string) (out string) {
	for i, n := range ns {
		name := fmt.Sprintf("%03d", i)
		full := n.Name()
		if prefix != "" {
			name, full = prefix+"_"+name, path+"/"+n.Name()
		}
		if n.Folder || n.SectType != 0 {
			out += expectedOutput(n.Children, name, full)
		} else if !n.Rect.Empty() {
			out += full + " -> " + name + ".png\n"
		}
	}
	return out
}

func caseExport(c *vk.Ctx) {
	d, f := genDoc(c, psdgen.Opt{MaxDim: 12, MaxLayers: 9, ForceLayer: true, Many: true, Modes: []int{psdgen.Grayscale, psdgen.RGB, psdgen.RGB, psdgen.CMYK}})
	noteDoc(c, d, f)
	want := map[string]*psdgen.Layer{}
	expectedFiles(d.Roots, "", want)
	var wantNames []string
	for n := range want {
		wantNames = append(wantNames, n)
	}
	sort.Strings(wantNames)
	var prep func(string)
	if c.Index%3 == 1 {
		// The files of an earlier execution are replaced.
		prep = func(dir string) {
			for _, n := range wantNames {
				if err := os.WriteFile(filepath.Join(dir, n), bytes.Repeat([]byte("earlier"), 1+c.Rng.Intn(500)), 0o644); err != nil {
					panic(err)
				}
			}
			c.Count("earlier files", len(wantNames))
		}
	}
	files, exit, out := runExporter(c, f.Bytes, prep)
	if exit != nil {
		c.Fail("exit", "%v: psdexporter failed: %v\n%s", d, exit, out)
		return
	}
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	c.Eval(1)
	if strings.Join(names, " ") != strings.Join(wantNames, " ") {
		c.Fail("files", "%v: files are %v, want %v\n%s", d, names, wantNames, out)
		return
	}
	if w := expectedOutput(d.Roots, "", ""); out != w {
		c.Fail("output", "%v: psdexporter wrote %q, want %q", d, out, w)
		return
	}
	for n, l := range want {
		if err := compareExported(d, l, files[n]); err != nil {
			c.Fail("pixels", "%v: %s: %v", d, n, err)
			return
		}
		c.Eval(l.Rect.Dx() * l.Rect.Dy())
		c.Count("files", 1)
	}
	if len(want) > 0 {
		c.Distinct(f.Bytes)
	}
	// What cannot be written is reported.
	if c.Index%5 == 2 && len(wantNames) > 0 {
		n := wantNames[c.Rng.Intn(len(wantNames))]
		_, exit, _ := runExporter(c, f.Bytes, func(dir string) {
			if err := os.Mkdir(filepath.Join(dir, n), 0o755); err != nil {
				panic(err)
			}
		})
		c.Eval(1)
		c.Count("obstructed", 1)
		if exit == nil {
			c.Fail("exit of obstructed", "%v: psdexporter succeeded though %s can not be written", d, n)
		}
	}
	// What cannot be decoded is reported.
	if c.Index%4 == 0 && f.LayerImgEnd > 40 {
		n := 26 + c.Rng.Intn(f.LayerImages-26)
		_, exit, _ := runExporter(c, f.Bytes[:n], nil)
		c.Eval(1)
		c.Count("truncated", 1)
		if exit == nil {
			c.Fail("exit of truncated", "%v: psdexporter succeeded with the first %d bytes of %d", d, n, len(f.Bytes))
		}
	}
}

func compareExported(d *psdgen.Doc, l *psdgen.Layer, b []byte) error {
	r := bytes.NewReader(b)
	im, err := png.Decode(r)
	if err != nil {
		return err
	}
	if r.Len() > 0 {
		return fmt.Errorf("there are %d bytes after the end", r.Len())
	}
	w, h := l.Rect.Dx(), l.Rect.Dy()
	if im.Bounds().Dx() != w || im.Bounds().Dy() != h {
		return fmt.Errorf("size is %v, want %dx%d", im.Bounds(), w, h)
	}
	base := psdgen.BaseChannels(d.Mode)
	planes := make([][]byte, base)
	var alpha []byte
	for _, ch := range l.Chans {
		switch {
		case ch.ID >= 0 && ch.ID < base:
			planes[ch.ID] = ch.Data
		case ch.ID == -1:
			alpha = ch.Data
		}
	}
	for i := range planes {
		if planes[i] == nil {
			planes[i] = make([]byte, psdgen.RowBytes(w, d.Depth)*h)
		}
	}
	if alpha != nil {
		planes = append(planes, alpha)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			want := psdgen.PixelRGBA(d.Mode, d.Depth, w, planes, alpha != nil, nil, -1, x, y)
			got := im.At(im.Bounds().Min.X+x, im.Bounds().Min.Y+y)
			// PNG has 8 bits per channel, not premultiplied.
			if !closeTo(got, want, 300) {
				return fmt.Errorf("(%d,%d) %s want %.1f", x, y, rgbaStr(got), want)
			}
		}
	}
	return nil
}
