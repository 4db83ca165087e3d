package main

import (
	"bufio"
	"bytes"
	"io"
	"math/rand"
)

func newBufio(data []byte, rng *rand.Rand) io.Reader {
	return bufio.NewReaderSize(bytes.NewReader(data), 16+rng.Intn(5000))
}
