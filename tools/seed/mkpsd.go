package main

import (
	"encoding/binary"
	"fmt"
	"image"
	"os"
)

// A small writer of documents.

type info struct {
	key  string
	data []byte
}

type channel struct {
	id   int
	comp int
	data []byte // as stored
}

type layer struct {
	rect     image.Rectangle
	blend    string
	opacity  byte
	clipping byte
	flags    byte
	mask     []byte
	ranges   []byte
	name     string
	infos    []info
	chans    []channel
}

type doc struct {
	psb, neg          bool
	w, h, depth, mode int
	channels          int
	cmd               []byte
	res               []byte
	layers            []layer
	add               []byte
	comp              int
	data              []byte
}

func u16(v int) []byte { return binary.BigEndian.AppendUint16(nil, uint16(v)) }
func u32(v int) []byte { return binary.BigEndian.AppendUint32(nil, uint32(v)) }
func cat(a ...[]byte) []byte {
	var r []byte
	for _, b := range a {
		r = append(r, b...)
	}
	return r
}

func (d *doc) num(v int) []byte {
	if d.psb {
		return binary.BigEndian.AppendUint64(nil, uint64(v))
	}
	return u32(v)
}

func rect(r image.Rectangle) []byte {
	return cat(u32(r.Min.Y), u32(r.Min.X), u32(r.Max.Y), u32(r.Max.X))
}

func resource(id int, name string, data []byte) []byte {
	b := cat([]byte("8BIM"), u16(id), []byte{byte(len(name))}, []byte(name))
	if len(name)%2 == 0 {
		b = append(b, 0)
	}
	b = cat(b, u32(len(data)), data)
	if len(data)%2 != 0 {
		b = append(b, 0)
	}
	return b
}

func (d *doc) block(i info) []byte {
	n := u32(len(i.data))
	if d.psb {
		switch i.key {
		case "LMsk", "Lr16", "Lr32", "Layr", "Mt16", "Mt32", "Mtrn", "Alph", "FMsk", "lnk2", "FEid", "FXid", "PxSD":
			n = d.num(len(i.data))
		}
	}
	return cat([]byte("8BIM"), []byte(i.key), n, i.data)
}

func (d *doc) bytes() []byte {
	ver := 1
	if d.psb {
		ver = 2
	}
	b := cat([]byte("8BPS"), u16(ver), make([]byte, 6), u16(d.channels), u32(d.h), u32(d.w), u16(d.depth), u16(d.mode),
		u32(len(d.cmd)), d.cmd, u32(len(d.res)), d.res)
	var sec []byte
	if len(d.layers) > 0 {
		li := u16(len(d.layers))
		if d.neg {
			li = u16(-len(d.layers))
		}
		for _, l := range d.layers {
			li = cat(li, rect(l.rect), u16(len(l.chans)))
			for _, c := range l.chans {
				li = cat(li, u16(c.id), d.num(len(c.data)+2))
			}
			bl := l.blend
			if bl == "" {
				bl = "norm"
			}
			ex := cat(u32(len(l.mask)), l.mask, u32(len(l.ranges)), l.ranges, []byte{byte(len(l.name))}, []byte(l.name))
			ex = append(ex, make([]byte, (4-(1+len(l.name))%4)%4)...)
			for _, i := range l.infos {
				ex = append(ex, d.block(i)...)
			}
			li = cat(li, []byte("8BIM"), []byte(bl), []byte{l.opacity, l.clipping, l.flags, 0}, u32(len(ex)), ex)
		}
		for _, l := range d.layers {
			for _, c := range l.chans {
				li = cat(li, u16(c.comp), c.data)
			}
		}
		if len(li)%2 != 0 {
			li = append(li, 0)
		}
		sec = cat(d.num(len(li)), li, u32(0), d.add)
	}
	return cat(b, d.num(len(sec)), sec, u16(d.comp), d.data)
}

// rgb returns 8 bit channels. at returns red, green, blue and alpha of the pixel.
func rgb(r image.Rectangle, at func(x, y int) [4]byte) []channel {
	cs := []channel{{id: -1}, {id: 0}, {id: 1}, {id: 2}}
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			v := at(x, y)
			cs[0].data = append(cs[0].data, v[3])
			for i := 0; i < 3; i++ {
				cs[1+i].data = append(cs[1+i].data, v[i])
			}
		}
	}
	return cs
}

func solid(c ...byte) func(x, y int) [4]byte {
	return func(x, y int) [4]byte { return [4]byte{c[0], c[1], c[2], c[3]} }
}

func plain(name string, r image.Rectangle, at func(x, y int) [4]byte) layer {
	return layer{name: name, rect: r, opacity: 255, chans: rgb(r, at)}
}

// The end of a folder comes first.
func folderEnd() layer {
	return layer{name: "</Layer group>", opacity: 255, infos: []info{{"lsct", u32(3)}}, chans: rgb(image.Rectangle{}, nil)}
}

func folder(name string, blend string) layer {
	b := blend
	if b == "pass" {
		b = "norm"
	}
	return layer{name: name, opacity: 255, blend: b, infos: []info{{"lsct", cat(u32(1), []byte("8BIM"), []byte(blend))}}, chans: rgb(image.Rectangle{}, nil)}
}

// rgbDoc returns a RGB 8 bit document.
func rgbDoc(w, h int, ls ...layer) *doc {
	return &doc{w: w, h: h, depth: 8, mode: 3, channels: 3, layers: ls, data: make([]byte, w*h*3)}
}

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}

func check(err error) {
	if err != nil {
		fail("%v", err)
	}
}
