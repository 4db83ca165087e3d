package vk

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/build"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	"github.com/gopherjs/gopherjs/js"
)

// archName is set by the linker if it differs from GOARCH.
var archName = runtime.GOARCH

// OnArch returns the case of a check that executes the cases of other checks on the other architecture.
// Each ID is repeated as many times as it should be executed.
func OnArch(all func() []*Check, ids ...string) func(c *Ctx) {
	var cks map[string]*Check
	return func(c *Ctx) {
		if cks == nil {
			cks = map[string]*Check{}
			for _, ck := range all() {
				cks[ck.ID] = ck
			}
		}
		id := ids[c.Index%len(ids)]
		ck := cks[id]
		if ck.Init != nil && !c.W.inited[id] {
			if c.W.inited == nil {
				c.W.inited = map[string]bool{}
			}
			c.W.inited[id] = true
			ck.Init(c.W)
		}
		c.Count("executed on "+archName, 1)
		c.Count("cases of "+id, 1)
		n := js.Calls()
		defer func() {
			if n = js.Calls() - n; n > 0 {
				c.Count("calls of JavaScript", int(n))
			}
		}()
		ck.Case(c)
	}
}

var rxConstraint = regexp.MustCompile(`(?m)^//(go:build| \+build).*$`)

// jsOverlay adds what replaces files of the package in dir to the overlay in base (it may not exist)
// so that an ordinary 32 bit build consists of the files that GopherJS would choose.
func jsOverlay(dir, base, out, outDir string) error {
	ov := struct{ Replace map[string]string }{map[string]string{}}
	if b, err := os.ReadFile(base); err == nil {
		if err = json.Unmarshal(b, &ov); err != nil {
			return err
		}
	}
	want, have := build.Default, build.Default
	want.GOOS, want.GOARCH, want.CgoEnabled = "js", "ecmascript", false
	have.GOOS, have.GOARCH, have.CgoEnabled = "linux", "386", false
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	for i, f := range files {
		w, err := want.MatchFile(dir, filepath.Base(f))
		if err != nil {
			return err
		}
		h, err := have.MatchFile(dir, filepath.Base(f))
		if err != nil {
			return err
		}
		if w == h {
			continue
		}
		if h {
			ov.Replace[f] = ""
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		name := "gopherjs" + strconv.Itoa(i) + "x.go"
		if err = os.WriteFile(filepath.Join(outDir, name), rxConstraint.ReplaceAll(b, nil), 0o666); err != nil {
			return err
		}
		ov.Replace[filepath.Join(dir, name)] = filepath.Join(outDir, name)
	}
	b, err := json.Marshal(ov)
	if err != nil {
		return err
	}
	return os.WriteFile(out, b, 0o666)
}

var rxGenerated = regexp.MustCompile(`(?m)^// Code generated .* DO NOT EDIT\.$`)

// genOverlay executes the generators of the package in dir in a copy of it, and adds what they write to the overlay in base (it may not exist).
func genOverlay(dir, base, out, outDir string) error {
	ov := struct{ Replace map[string]string }{map[string]string{}}
	if b, err := os.ReadFile(base); err == nil {
		if err = json.Unmarshal(b, &ov); err != nil {
			return err
		}
	}
	if err := os.RemoveAll(outDir); err != nil {
		return err
	}
	if err := os.MkdirAll(outDir, 0o777); err != nil {
		return err
	}
	files, err := filepath.Glob(filepath.Join(dir, "*"))
	if err != nil {
		return err
	}
	for _, f := range files {
		if st, err := os.Stat(f); err != nil || !st.Mode().IsRegular() {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if strings.HasSuffix(f, ".go") && rxGenerated.Match(b) && !regexp.MustCompile(`(?m)^//( \+build|go:build) ignore`).Match(b) {
			if !strings.HasSuffix(f, "_test.go") {
				ov.Replace[f] = ""
			}
			continue
		}
		if err = os.WriteFile(filepath.Join(outDir, filepath.Base(f)), b, 0o666); err != nil {
			return err
		}
	}
	if err := os.WriteFile(filepath.Join(outDir, "go.mod"), []byte("module generated\n\ngo 1.27\n"), 0o666); err != nil {
		return err
	}
	cmd := exec.Command("go", "generate", ".")
	cmd.Dir = outDir
	cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
	if err := cmd.Run(); err != nil {
		return err
	}
	gen, err := filepath.Glob(filepath.Join(outDir, "*.go"))
	if err != nil {
		return err
	}
	n := 0
	for _, f := range gen {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		o := filepath.Join(dir, filepath.Base(f))
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		if old, err := os.ReadFile(o); err == nil && bytes.Equal(old, b) {
			delete(ov.Replace, o)
			if rxGenerated.Match(b) {
				n++
			}
			continue
		}
		ov.Replace[o] = f
		n++
	}
	fmt.Fprintln(os.Stderr, n, "files are generated,", len(ov.Replace), "replacements")
	if n == 0 {
		return errors.New("nothing is generated")
	}
	b, err := json.Marshal(ov)
	if err != nil {
		return err
	}
	return os.WriteFile(out, b, 0o666)
}
