// Package js stands in for the package of GopherJS in a build by the ordinary compiler:
// the functions of the JavaScript file of the project are executed by node.
//
// []byte is a Uint8Array that shares the memory with Go (it is copied back after the call),
// []uint is a Uint32Array, as GopherJS converts them.
package js

import (
	_ "embed"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sync"
	"sync/atomic"
)

//go:embed server.js
var server string

// Error is the panic value of an exception in JavaScript.
type Error struct{ Message string }

func (e *Error) Error() string { return "JavaScript error: " + e.Message }

// Object is a value in JavaScript.
type Object struct {
	path []string
	v    interface{}
}

// Global is the global object.
var Global = &Object{}

var calls int64

// Calls returns how many functions in JavaScript were called.
func Calls() int64 { return atomic.LoadInt64(&calls) }

// Get returns the property.
func (o *Object) Get(key string) *Object {
	return &Object{path: append(append([]string(nil), o.path...), key)}
}

type arg struct {
	T   string      `json:"t"`
	Len int         `json:"len"`
	V   interface{} `json:"v"`
}

var (
	mu  sync.Mutex
	in  io.WriteCloser
	out io.Reader
)

func start() {
	file := os.Getenv("VERIF_PSD_INC")
	cmd := exec.Command("node", "-e", server, file)
	cmd.Stderr = os.Stderr
	var err error
	if in, err = cmd.StdinPipe(); err != nil {
		panic(err)
	}
	if out, err = cmd.StdoutPipe(); err != nil {
		panic(err)
	}
	if err = cmd.Start(); err != nil {
		panic(err)
	}
}

// Call calls the function.
func (o *Object) Call(name string, args ...interface{}) *Object {
	mu.Lock()
	defer mu.Unlock()
	if in == nil {
		start()
	}
	atomic.AddInt64(&calls, 1)
	type request struct {
		Path []string `json:"path"`
		Name string   `json:"name"`
		Args []arg    `json:"args"`
	}
	rq := request{Path: o.path, Name: name}
	var payload []byte
	for _, a := range args {
		switch a := a.(type) {
		case []byte:
			rq.Args = append(rq.Args, arg{T: "u8", Len: len(a)})
			payload = append(payload, a...)
		case []uint:
			rq.Args = append(rq.Args, arg{T: "u32", Len: len(a) * 4})
			for _, v := range a {
				payload = binary.LittleEndian.AppendUint32(payload, uint32(v))
			}
		case []uint32:
			rq.Args = append(rq.Args, arg{T: "u32", Len: len(a) * 4})
			for _, v := range a {
				payload = binary.LittleEndian.AppendUint32(payload, v)
			}
		default:
			rq.Args = append(rq.Args, arg{T: "v", V: a})
		}
	}
	h, err := json.Marshal(rq)
	if err != nil {
		panic(err)
	}
	var b [8]byte
	binary.LittleEndian.PutUint32(b[:], uint32(len(h)))
	binary.LittleEndian.PutUint32(b[4:], uint32(len(payload)))
	if _, err = in.Write(append(append(b[:], h...), payload...)); err != nil {
		panic(err)
	}
	if _, err = io.ReadFull(out, b[:]); err != nil {
		panic(err)
	}
	h = make([]byte, binary.LittleEndian.Uint32(b[:]))
	payload = make([]byte, binary.LittleEndian.Uint32(b[4:]))
	if _, err = io.ReadFull(out, h); err != nil {
		panic(err)
	}
	if _, err = io.ReadFull(out, payload); err != nil {
		panic(err)
	}
	var rp struct {
		Err string `json:"err"`
		Ret arg    `json:"ret"`
	}
	if err = json.Unmarshal(h, &rp); err != nil {
		panic(err)
	}
	for _, a := range args {
		if a, ok := a.([]byte); ok {
			payload = payload[copy(a, payload):]
		}
	}
	if rp.Err != "" {
		panic(&Error{rp.Err})
	}
	r := &Object{v: rp.Ret.V}
	switch rp.Ret.T {
	case "u8":
		r.v = payload
	case "u32":
		vs := make([]uint, len(payload)/4)
		for i := range vs {
			vs[i] = uint(binary.LittleEndian.Uint32(payload[i*4:]))
		}
		r.v = vs
	}
	return r
}

// Interface returns the value.
func (o *Object) Interface() interface{} { return o.v }

// Bool returns the value as a boolean.
func (o *Object) Bool() bool {
	switch v := o.v.(type) {
	case nil:
		return false
	case bool:
		return v
	case float64:
		return v != 0
	case string:
		return v != ""
	}
	return true
}

// Int returns the value as an integer.
func (o *Object) Int() int {
	switch v := o.v.(type) {
	case float64:
		return int(v)
	case bool:
		if v {
			return 1
		}
		return 0
	}
	panic(fmt.Sprintf("not a number: %v", o.v))
}
