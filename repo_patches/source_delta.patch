From 7b5242cb631d0e6045797dbc3d52bf5d6770b1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 01/48] fix: decode RLE rows of 16/32-bit images independently
 of GOMAXPROCS

The rows were partitioned by pixels instead of bytes, so multi-byte samples
failed to decode when more than one goroutine was used, and the placement of
short rows depended on the partition. Each row is now decoded into its own place.
---
 compress.go       |  8 +-------
 compress_other.go | 27 ++++++++++++++++++++++-----
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/compress.go b/compress.go
index 5482877..6475abe 100644
--- a/compress.go
+++ b/compress.go
@@ -32,13 +32,7 @@ func (cm CompressionMethod) Decode(dest []byte, r io.Reader, sizeHint int64, rec
 	case CompressionMethodRaw:
 		return io.ReadFull(r, dest)
 	case CompressionMethodRLE:
-		var width int
-		if depth == 1 {
-			width = (rect.Dx() + 7) >> 3
-		} else {
-			width = rect.Dx()
-		}
-		return decodePackBits(dest, r, width, rect.Dy()*channels, large)
+		return decodePackBits(dest, r, (rect.Dx()*depth+7)>>3, rect.Dy()*channels, large)
 	case CompressionMethodZIPWithoutPrediction:
 		return decodeZLIB(dest, r, sizeHint)
 	case CompressionMethodZIPWithPrediction:
diff --git a/compress_other.go b/compress_other.go
index 9b7e084..a90b3d1 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -45,12 +45,16 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	}
 	read += l
 
+	if len(dest) < width*lines {
+		return read, errBrokenPackBits
+	}
+
 	n := runtime.GOMAXPROCS(0)
 	for n > 1 && n<<1 > lines {
 		n--
 	}
 	if n == 1 {
-		err = decodePackBitsPerLine(dest, buf, lens)
+		err = decodePackBitsLines(dest, buf, width, offsets, lens)
 		return
 	}
 
@@ -60,15 +64,15 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	step := lines / n
 	ofs = 0
 	for i := 1; i < n; i++ {
-		go func(index int, dest []byte, buf []byte, lens []int) {
+		go func(index int, dest []byte, offsets []int, lens []int) {
 			defer wg.Done()
-			errs[index] = decodePackBitsPerLine(dest, buf, lens)
-		}(i-1, dest[ofs*width:(ofs+step)*width], buf[offsets[ofs]:offsets[ofs+step]], lens[ofs:ofs+step])
+			errs[index] = decodePackBitsLines(dest, buf, width, offsets, lens)
+		}(i-1, dest[ofs*width:(ofs+step)*width], offsets[ofs:ofs+step], lens[ofs:ofs+step])
 		ofs += step
 	}
 	go func() {
 		defer wg.Done()
-		errs[n-1] = decodePackBitsPerLine(dest[ofs*width:], buf[offsets[ofs]:], lens[ofs:])
+		errs[n-1] = decodePackBitsLines(dest[ofs*width:], buf, width, offsets[ofs:], lens[ofs:])
 	}()
 	wg.Wait()
 	for i := 0; i < n; i++ {
@@ -80,6 +84,19 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	return
 }
 
+// decodePackBitsLines decodes the lines into dest.
+// width is the number of bytes in a line, each line is placed at own position
+// so the result does not depend on how the lines are split.
+func decodePackBitsLines(dest []byte, buf []byte, width int, offsets []int, lens []int) error {
+	for i, ln := range lens {
+		ofs := offsets[i]
+		if err := decodePackBitsPerLine(dest[i*width:(i+1)*width], buf[ofs:ofs+ln], lens[i:i+1]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func decodePackBitsPerLine(dest []byte, buf []byte, lens []int) error {
 	var l int
 	for _, ln := range lens {
-- 
2.43.0


From f6be2966635f03b7d2e73dc1cbb8ef670db71abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 02/48] fix: revert the prediction of ZIP compressed 8-bit and
 32-bit rows

The prediction of 8-bit rows was left in place, and 32-bit rows were handled as
a plain 32-bit integer delta although the delta is applied to the byte planes
of the row (the floating point predictor). A zero width never terminated.
---
 compress.go | 50 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/compress.go b/compress.go
index 6475abe..6b13cce 100644
--- a/compress.go
+++ b/compress.go
@@ -68,27 +68,45 @@ func decodeZLIB(dest []byte, r io.Reader, length int64) (read int, err error) {
 	return int(N - lr.N), nil
 }
 
+// decodeDelta reverts the prediction of each row.
 func decodeDelta(buf []byte, width int, depth int) {
-	switch depth {
-	case 16:
-		var d uint16
-		for i := 0; i < len(buf); {
-			d = 0
-			for j := 0; j < width; j++ {
+	rowBytes := (width*depth + 7) >> 3
+	if rowBytes <= 0 {
+		return
+	}
+	var row []byte
+	if depth == 32 {
+		row = make([]byte, rowBytes)
+	}
+	for ; len(buf) >= rowBytes; buf = buf[rowBytes:] {
+		switch depth {
+		case 8:
+			decodeDelta8(buf[:rowBytes])
+		case 16:
+			var d uint16
+			for i := 0; i < rowBytes; i += 2 {
 				d += readUint16(buf, i)
 				writeUint16(buf, d, i)
-				i += 2
 			}
-		}
-	case 32:
-		var d uint32
-		for i := 0; i < len(buf); {
-			d = 0
-			for j := 0; j < width; j++ {
-				d += readUint32(buf, i)
-				writeUint32(buf, d, i)
-				i += 4
+		case 32:
+			// The delta is applied to the bytes of the row that was split into
+			// four planes from the most significant byte to the least one.
+			decodeDelta8(buf[:rowBytes])
+			copy(row, buf)
+			for i := 0; i < width; i++ {
+				buf[i<<2] = row[i]
+				buf[i<<2+1] = row[i+width]
+				buf[i<<2+2] = row[i+width<<1]
+				buf[i<<2+3] = row[i+width*3]
 			}
 		}
 	}
 }
+
+func decodeDelta8(buf []byte) {
+	var d uint8
+	for i := range buf {
+		d += buf[i]
+		buf[i] = d
+	}
+}
-- 
2.43.0


From 31cf157a8ccc2b7776ff249fb7fa7a1b21c4c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 03/48] fix: do not trust length fields for allocation

A broken length field made the decoder allocate gigabytes, or panic in makeslice.
The buffers now grow along with the data that could be read actually.
---
 compress_other.go | 11 +++++------
 imageres.go       |  4 ++--
 layer.go          |  7 +++----
 psd.go            |  5 ++---
 util.go           | 29 +++++++++++++++++++++++++++++
 5 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/compress_other.go b/compress_other.go
index a90b3d1..b755966 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -10,12 +10,12 @@ import (
 )
 
 func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool) (read int, err error) {
-	buf := make([]byte, lines*(get4or8(large)>>1))
 	var l int
-	if l, err = io.ReadFull(r, buf); err != nil {
+	buf, err := readBytes(r, lines*(get4or8(large)>>1))
+	if err != nil {
 		return
 	}
-	read += l
+	read += len(buf)
 
 	total := 0
 	lens := make([]int, lines)
@@ -39,11 +39,10 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		}
 	}
 
-	buf = make([]byte, total)
-	if l, err = io.ReadFull(r, buf); err != nil {
+	if buf, err = readBytes(r, total); err != nil {
 		return
 	}
-	read += l
+	read += len(buf)
 
 	if len(dest) < width*lines {
 		return read, errBrokenPackBits
diff --git a/imageres.go b/imageres.go
index af5f22a..a7f5ce9 100644
--- a/imageres.go
+++ b/imageres.go
@@ -76,10 +76,10 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 			return nil, read, err
 		}
 		read += l
-		res.Data = make([]byte, readUint32(b, 0))
-		if l, err = io.ReadFull(r, res.Data); err != nil {
+		if res.Data, err = readBytes(r, int(readUint32(b, 0))); err != nil {
 			return nil, read, err
 		}
+		l = len(res.Data)
 		read += l
 		if l, err = adjustAlign2(r, l); err != nil {
 			return nil, read, err
diff --git a/layer.go b/layer.go
index 7771a92..cd93546 100644
--- a/layer.go
+++ b/layer.go
@@ -849,12 +849,11 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 			}
 			read += l
 			var data []byte
-			if ln := int(readUint(b, 0, intSize)); ln > 0 {
-				data = make([]byte, ln)
-				if l, err = io.ReadFull(r, data); err != nil {
+			if ln := int(readUint(b, 0, intSize)); ln != 0 {
+				if data, err = readBytes(r, ln); err != nil {
 					return nil, nil, read, err
 				}
-				read += l
+				read += len(data)
 			}
 			infos[key] = data
 			if Debug != nil {
diff --git a/psd.go b/psd.go
index 4e66663..495f57c 100644
--- a/psd.go
+++ b/psd.go
@@ -183,11 +183,10 @@ func DecodeConfig(r io.Reader) (cfg Config, read int, err error) {
 	cfg.ColorMode = ColorMode(readUint16(b, 24))
 
 	if ln := readUint32(b, 26); ln > 0 {
-		cfg.ColorModeData = make([]byte, ln)
-		if l, err = io.ReadFull(r, cfg.ColorModeData); err != nil {
+		if cfg.ColorModeData, err = readBytes(r, int(ln)); err != nil {
 			return Config{}, read, err
 		}
-		read += l
+		read += len(cfg.ColorModeData)
 	}
 	if Debug != nil {
 		Debug.Println("start - header")
diff --git a/util.go b/util.go
index cddf128..66043c9 100644
--- a/util.go
+++ b/util.go
@@ -1,6 +1,8 @@
 package psd
 
 import (
+	"bytes"
+	"errors"
 	"io"
 	"io/ioutil"
 	"math"
@@ -94,6 +96,33 @@ func readUnicodeString(b []byte) string {
 	return string(utf16.Decode(buf))
 }
 
+// readBytes reads exactly n bytes from r.
+//
+// n usually comes from the file, so the buffer grows along with the data
+// that was actually read unless n is small enough.
+func readBytes(r io.Reader, n int) ([]byte, error) {
+	const chunkSize = 1 << 16
+	if n < 0 {
+		return nil, errors.New("psd: unexpected data length: " + itoa(n))
+	}
+	if n <= chunkSize {
+		b := make([]byte, n)
+		if _, err := io.ReadFull(r, b); err != nil {
+			return nil, err
+		}
+		return b, nil
+	}
+	var buf bytes.Buffer
+	buf.Grow(chunkSize)
+	if l, err := io.CopyN(&buf, r, int64(n)); err != nil {
+		if err == io.EOF && l > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 func adjustAlign2(r io.Reader, l int) (read int, err error) {
 	if l&1 != 0 {
 		var b [1]byte
-- 
2.43.0


From 0ab23bf89119f403d458ef4605397cf564ad167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 04/48] fix: read the alignment padding completely

Read may return fewer bytes than requested (or none), that made the padding be
treated as the next field depending on how the reader splits the data.
---
 util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util.go b/util.go
index 66043c9..d02b4fc 100644
--- a/util.go
+++ b/util.go
@@ -126,7 +126,7 @@ func readBytes(r io.Reader, n int) ([]byte, error) {
 func adjustAlign2(r io.Reader, l int) (read int, err error) {
 	if l&1 != 0 {
 		var b [1]byte
-		return r.Read(b[:])
+		return io.ReadFull(r, b[:])
 	}
 	return 0, nil
 }
@@ -134,7 +134,7 @@ func adjustAlign2(r io.Reader, l int) (read int, err error) {
 func adjustAlign4(r io.Reader, l int) (read int, err error) {
 	if gap := l & 3; gap > 0 {
 		var b [4]byte
-		return r.Read(b[:4-gap])
+		return io.ReadFull(r, b[:4-gap])
 	}
 	return 0, nil
 }
-- 
2.43.0


From ebbd050976fd64857efbf6bf3f24370371d54575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 05/48] fix: detect the end of data when discarding, and never
 go backwards

Seeking beyond the end of data succeeded silently, a Seeker that cannot seek (a
pipe) made the decoding fail, and a negative length rewound the reader.
---
 layer.go |  4 ++--
 util.go  | 23 +++++++++++++++++------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/layer.go b/layer.go
index cd93546..198e8d4 100644
--- a/layer.go
+++ b/layer.go
@@ -174,7 +174,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 		return nil, read, err
 	}
 
-	if remain := layerAndMaskInfoLen + intSize - read; remain != 0 && remain < intSize {
+	if remain := layerAndMaskInfoLen + intSize - read; remain > 0 && remain < intSize {
 		if l, err = discard(r, remain); err != nil {
 			return nil, read, err
 		}
@@ -182,7 +182,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 	}
 
 	if read != layerAndMaskInfoLen+intSize {
-		return nil, read, errors.New("psd: layer and mask info read size mismatched. expected " + itoa(layerAndMaskInfoLen+4) + " actual " + itoa(read))
+		return nil, read, errors.New("psd: layer and mask info read size mismatched. expected " + itoa(layerAndMaskInfoLen+intSize) + " actual " + itoa(read))
 	}
 	if Debug != nil {
 		Debug.Println("end - layer and mask information section")
diff --git a/util.go b/util.go
index d02b4fc..67efb4f 100644
--- a/util.go
+++ b/util.go
@@ -143,18 +143,29 @@ func discard(r io.Reader, skip int) (read int, err error) {
 	type discarder interface {
 		Discard(n int) (discarded int, err error)
 	}
+	if skip < 0 {
+		return 0, errors.New("psd: unexpected data length: " + itoa(skip))
+	}
+	if skip == 0 {
+		return 0, nil
+	}
 	switch rr := r.(type) {
 	case discarder:
 		return rr.Discard(skip)
 	case io.Seeker:
-		if _, err = rr.Seek(int64(skip), 1); err != nil {
-			return 0, err
+		// Seek succeeds even if it goes beyond the end of the data,
+		// so the last byte is always read.
+		// Seek fails if r is not actually seekable such as a pipe.
+		if _, err = rr.Seek(int64(skip)-1, 1); err == nil {
+			var b [1]byte
+			if _, err = io.ReadFull(r, b[:]); err != nil {
+				return 0, err
+			}
+			return skip, nil
 		}
-		return skip, nil
-	default:
-		rd, err := io.CopyN(ioutil.Discard, r, int64(skip))
-		return int(rd), err
 	}
+	rd, err := io.CopyN(ioutil.Discard, r, int64(skip))
+	return int(rd), err
 }
 
 func readPascalString(r io.Reader) (str string, read int, err error) {
-- 
2.43.0


From 6be4e6a2635afb0b21f8b3b02f0fe31a3928f9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 06/48] fix: report inconsistent headers as an error instead of
 panicking

Too few channels for the color mode, a short palette, an indexed or bitmap image
with an unexpected depth, and short resource data caused index out of range.
---
 imageres.go |  2 +-
 psd.go      | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/imageres.go b/imageres.go
index a7f5ce9..6f40be2 100644
--- a/imageres.go
+++ b/imageres.go
@@ -108,7 +108,7 @@ func hasAlphaID0(Res map[int]ImageResource) bool {
 	if !ok {
 		return true
 	}
-	for i, ln := 0, len(aid.Data); i < ln; i += 4 {
+	for i, ln := 0, len(aid.Data); i+4 <= ln; i += 4 {
 		if readUint32(aid.Data, i) == 0 {
 			return true
 		}
diff --git a/psd.go b/psd.go
index 495f57c..4f0fe1f 100644
--- a/psd.go
+++ b/psd.go
@@ -92,10 +92,13 @@ func (cfg *Config) Palette() color.Palette {
 	// 0x0417(1046) | (Photoshop 6.0) Transparency Index.
 	//                2 bytes for the index of transparent color, if any.
 	transparentColorIndex := -1
-	if r, ok := cfg.Res[0x0417]; ok {
+	if r, ok := cfg.Res[0x0417]; ok && len(r.Data) >= 2 {
 		transparentColorIndex = int(readUint16(r.Data, 0))
 	}
-	pal := make(color.Palette, len(cfg.ColorModeData)/3)
+	if len(cfg.ColorModeData) < 256*3 {
+		return nil
+	}
+	pal := make(color.Palette, 256)
 	for i := range pal {
 		c := color.NRGBA{
 			cfg.ColorModeData[i],
@@ -112,12 +115,23 @@ func (cfg *Config) Palette() color.Palette {
 }
 
 func (cfg *Config) makePicker() (picker, error) {
+	if cfg.Channels < cfg.ColorMode.Channels() {
+		return nil, errors.New("psd: unexpected the number of channels: " + itoa(cfg.Channels))
+	}
 	var pk picker
 	switch cfg.ColorMode {
 	case ColorModeIndexed:
-		pk = &pickerPalette{Palette: cfg.Palette()}
+		if cfg.Depth == 8 {
+			pal := cfg.Palette()
+			if pal == nil {
+				return nil, errors.New("psd: unexpected the length of the color mode data: " + itoa(len(cfg.ColorModeData)))
+			}
+			pk = &pickerPalette{Palette: pal}
+		}
 	case ColorModeBitmap:
-		pk = &pickerGray1{}
+		if cfg.Depth == 1 {
+			pk = &pickerGray1{}
+		}
 	default:
 		pk = findPicker(cfg.Depth, cfg.ColorMode, cfg.Channels > cfg.ColorMode.Channels() && hasAlphaID0(cfg.Res))
 	}
-- 
2.43.0


From 7ca2259807c462f932707a98ae93de3012b53d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 07/48] fix: do not panic on layers that have unexpected
 channels or size

Layers in a color mode without picker, channel IDs beyond the color channels,
missing color channels and enormous rectangles caused a panic in Decode, or in
At of the returned image.
---
 layer.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/layer.go b/layer.go
index 198e8d4..4b6bffe 100644
--- a/layer.go
+++ b/layer.go
@@ -438,12 +438,22 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 	return layerSlice, read, nil
 }
 
+// validLayerRect returns whether the size of r is acceptable as the image of the layer.
+func validLayerRect(r image.Rectangle) bool {
+	const maxSize = 300000
+	return r.Dx() <= maxSize && r.Dy() <= maxSize
+}
+
 func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *DecodeOptions) (read int, err error) {
 	var l int
 	b := make([]byte, 2)
 	for i, lci := range lcis {
+		if findPicker(cfg.Depth, cfg.ColorMode, true) == nil {
+			return read, errors.New("psd: layer image of color mode " + itoa(int(cfg.ColorMode)) + " depth " + itoa(cfg.Depth) + " is not implemeted")
+		}
 		chMap := map[int]Channel{}
 		pickerChs := make([][]byte, cfg.ColorMode.Channels(), 8)
+		var alpha []byte
 		for _, j := range lci.ChannelData {
 			var readCh int
 			if j.DataLen >= 2 {
@@ -469,6 +479,9 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 			default:
 				rect = lci.Layer.Rect
 			}
+			if !validLayerRect(rect) {
+				return read, errors.New("psd: layer: " + itoa(i) + " channel: " + itoa(j.ChIndex) + " unexpected the size of the image")
+			}
 			data := make([]byte, (rect.Dx()*cfg.Depth+7)>>3*rect.Dy())
 			pk := findGrayPicker(cfg.Depth)
 			pk.setSource(rect, data)
@@ -498,11 +511,26 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 			}
 			switch {
 			case j.ChIndex >= 0:
-				pickerChs[j.ChIndex] = data
+				// The rest is a channel that is not related to the color of pixels.
+				if j.ChIndex < len(pickerChs) {
+					pickerChs[j.ChIndex] = data
+				}
 			case j.ChIndex == -1:
-				pickerChs = append(pickerChs, data)
+				alpha = data
 			}
 		}
+		for j, data := range pickerChs {
+			if data == nil {
+				// There is no data for this color channel.
+				if !validLayerRect(lci.Layer.Rect) {
+					return read, errors.New("psd: layer: " + itoa(i) + " unexpected the size of the image")
+				}
+				pickerChs[j] = make([]byte, (lci.Layer.Rect.Dx()*cfg.Depth+7)>>3*lci.Layer.Rect.Dy())
+			}
+		}
+		if alpha != nil {
+			pickerChs = append(pickerChs, alpha)
+		}
 		pk := findPicker(cfg.Depth, cfg.ColorMode, cfg.ColorMode.Channels() < len(pickerChs))
 		pk.setSource(lci.Layer.Rect, pickerChs...)
 		lci.Layer.Picker = pk
-- 
2.43.0


From 0331ad7b5d86253afaebf7e34beb494e793a1e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 08/48] fix: read the real user mask rectangle as signed and
 skip the rest of the mask data

A negative coordinate became huge one, and data following the real user mask
was treated as the next section.
---
 layer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/layer.go b/layer.go
index 4b6bffe..83de3ea 100644
--- a/layer.go
+++ b/layer.go
@@ -819,10 +819,16 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	read += l
 	readMask += l
 	layer.Mask.RealRect = image.Rect(
-		int(readUint32(b, 4)), int(readUint32(b, 0)),
-		int(readUint32(b, 12)), int(readUint32(b, 8)),
+		int(int32(readUint32(b, 4))), int(int32(readUint32(b, 0))),
+		int(int32(readUint32(b, 12))), int(int32(readUint32(b, 8))),
 	)
 
+	if readMask < maskLen {
+		if l, err = discard(r, maskLen-readMask); err != nil {
+			return read, err
+		}
+		read += l
+	}
 	return read, nil
 }
 
-- 
2.43.0


From 9f4f21b72f6938601cab8a0bd5681f823d8e863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 09/48] fix: report an unclosed folder instead of dropping the
 layers below it silently

---
 layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/layer.go b/layer.go
index 83de3ea..e2d899c 100644
--- a/layer.go
+++ b/layer.go
@@ -219,6 +219,9 @@ func buildTree(layer []Layer) ([]Layer, error) {
 			n = append(n, l)
 		}
 	}
+	if len(stack) != 0 {
+		return nil, errors.New("psd: layer tree structure is broken(unclosed folder)")
+	}
 	return n, nil
 }
 
-- 
2.43.0


From 5165f946e3c67ad0bfaabd1f845e06124fd4da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:20 +0000
Subject: [PATCH 10/48] fix: check the length of section divider setting and
 unicode layer name

---
 layer.go | 6 ++++++
 util.go  | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index e2d899c..35536bd 100644
--- a/layer.go
+++ b/layer.go
@@ -228,6 +228,9 @@ func buildTree(layer []Layer) ([]Layer, error) {
 func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType int, err error) {
 	b, ok := l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting]
 	if ok {
+		if len(b) < 4 {
+			return 0, "", 0, errors.New("psd: unexpected the length of section divider setting")
+		}
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
@@ -244,6 +247,9 @@ func readSectionDividerSetting(l *Layer) (typ int, blendMode BlendMode, subType
 	}
 	b, ok = l.AdditionalLayerInfo[AdditionalInfoKeySectionDividerSetting2]
 	if ok {
+		if len(b) < 4 {
+			return 0, "", 0, errors.New("psd: unexpected the length of section divider setting")
+		}
 		typ = int(readUint32(b, 0))
 		if len(b) < 12 {
 			return typ, "", 0, nil
diff --git a/util.go b/util.go
index 67efb4f..dd07f59 100644
--- a/util.go
+++ b/util.go
@@ -85,7 +85,13 @@ func writeUint32(b []byte, v uint32, offset int) {
 }
 
 func readUnicodeString(b []byte) string {
-	ln := readUint32(b, 0)
+	if len(b) < 4 {
+		return ""
+	}
+	ln := int(readUint32(b, 0))
+	if remain := (len(b) - 4) >> 1; ln > remain {
+		ln = remain
+	}
 	if ln == 0 {
 		return ""
 	}
-- 
2.43.0


From 267df6af86a53f826065591bb575737d19ee6b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:25 +0000
Subject: [PATCH 11/48] fix: reject the layers in the layer before reading them

The nested layer structure was rejected only after it was read recursively, so a
crafted file exhausted the stack.
---
 layer.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/layer.go b/layer.go
index 35536bd..0db9724 100644
--- a/layer.go
+++ b/layer.go
@@ -130,7 +130,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 
 	var layer []Layer
 	if read < layerAndMaskInfoLen+intSize {
-		if layer, l, err = readLayerInfo(r, cfg, o); err != nil {
+		if layer, l, err = readLayerInfo(r, cfg, o, false); err != nil {
 			return nil, read, err
 		}
 		read += l
@@ -158,7 +158,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 
 	if layerAndMaskInfoLen+intSize-read >= 8 {
 		var layer2 []Layer
-		if psd.AdditinalLayerInfo, layer2, l, err = readAdditionalLayerInfo(r, layerAndMaskInfoLen+intSize-read, cfg, o); err != nil {
+		if psd.AdditinalLayerInfo, layer2, l, err = readAdditionalLayerInfo(r, layerAndMaskInfoLen+intSize-read, cfg, o, false); err != nil {
 			return nil, read, err
 		}
 		read += l
@@ -277,7 +277,7 @@ type layerChannelInfo struct {
 	ChannelData []channelData
 }
 
-func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, read int, err error) {
+func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions, nested bool) (layer []Layer, read int, err error) {
 	intSize := get4or8(cfg.PSB())
 	if Debug != nil {
 		Debug.Println("start - layer info section")
@@ -309,6 +309,9 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions) (layer []Layer, r
 		// how can I use this info...?
 		// hasAlphaForMergedResult = true
 	}
+	if nested && numLayers > 0 {
+		return nil, read, errors.New("psd: unexpected layer structure")
+	}
 	if Debug != nil {
 		Debug.Println("  numLayers:", numLayers)
 	}
@@ -605,14 +608,10 @@ func readLayerExtraData(r io.Reader, layer *Layer, cfg *Config, o *DecodeOptions
 	read += l
 
 	if read < extraDataLen+4 {
-		var layers []Layer
-		if layer.AdditionalLayerInfo, layers, l, err = readAdditionalLayerInfo(r, extraDataLen+4-read, cfg, o); err != nil {
+		if layer.AdditionalLayerInfo, _, l, err = readAdditionalLayerInfo(r, extraDataLen+4-read, cfg, o, true); err != nil {
 			return read, err
 		}
 		read += l
-		if len(layers) > 0 {
-			return read, errors.New("psd: unexpected layer structure")
-		}
 	} else {
 		layer.AdditionalLayerInfo = map[AdditionalInfoKey][]byte{}
 	}
@@ -841,7 +840,7 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	return read, nil
 }
 
-func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOptions) (infos map[AdditionalInfoKey][]byte, layers []Layer, read int, err error) {
+func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOptions, nested bool) (infos map[AdditionalInfoKey][]byte, layers []Layer, read int, err error) {
 	if Debug != nil {
 		Debug.Println("start - additional layer info section")
 		Debug.Println("  infoLen:", infoLen)
@@ -880,7 +879,7 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 				Debug.Println("  key:", key)
 			}
 			var layrs []Layer
-			if layrs, l, err = readLayerInfo(r, cfg, o); err != nil {
+			if layrs, l, err = readLayerInfo(r, cfg, o, nested); err != nil {
 				return nil, nil, read, err
 			}
 			read += l
-- 
2.43.0


From 190888873ef272950e7d92f2574c6d12dc707439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 12/48] fix: return a valid color for negative and NaN float
 samples

math.Pow of a negative value is NaN, and converting NaN to integer is not
portable and exceeded 0xffff.
---
 color/color.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/color/color.go b/color/color.go
index 95f762e..5c0f86a 100644
--- a/color/color.go
+++ b/color/color.go
@@ -10,10 +10,10 @@ func fromFloat(v, gamma float64) uint32 {
 	switch {
 	case x >= 1:
 		return 0xffff
-	case x <= 0:
-		return 0
-	default:
+	case x > 0:
 		return uint32(x * 0xffff)
+	default: // including NaN
+		return 0
 	}
 }
 
@@ -146,7 +146,7 @@ func (c NGrayA64) RGBA() (uint32, uint32, uint32, uint32) {
 	switch {
 	case c.A >= 1:
 		return y, y, y, 0xffff
-	case c.A <= 0:
+	case !(c.A > 0): // including NaN
 		return 0, 0, 0, 0
 	}
 	a := uint32(c.A * 0xffff)
@@ -184,7 +184,7 @@ func (c NRGBA128) RGBA() (uint32, uint32, uint32, uint32) {
 	switch {
 	case c.A >= 1:
 		return r, g, b, 0xffff
-	case c.A <= 0:
+	case !(c.A > 0): // including NaN
 		return 0, 0, 0, 0
 	}
 	a := uint32(c.A * 0xffff)
-- 
2.43.0


From abb35f6c16e465ca239eb4370f8183586f8fffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 13/48] fix: make color models return own type

NGrayAModel, NGrayA32Model and NCMYKA80Model returned another type as is, and
reconverted own type.
---
 color/color.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/color/color.go b/color/color.go
index 5c0f86a..e12500e 100644
--- a/color/color.go
+++ b/color/color.go
@@ -85,7 +85,7 @@ func (c NGrayA) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nGrayAModel(c color.Color) color.Color {
-	if _, ok := c.(NGrayA64); ok {
+	if _, ok := c.(NGrayA); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
@@ -120,7 +120,7 @@ func (c NGrayA32) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nGrayA32Model(c color.Color) color.Color {
-	if _, ok := c.(NGrayA64); ok {
+	if _, ok := c.(NGrayA32); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
@@ -283,7 +283,7 @@ func (c NCMYKA80) RGBA() (uint32, uint32, uint32, uint32) {
 }
 
 func nCMYKA80Model(c color.Color) color.Color {
-	if _, ok := c.(NCMYKA); ok {
+	if _, ok := c.(NCMYKA80); ok {
 		return c
 	}
 	r, g, b, a := c.RGBA()
-- 
2.43.0


From 1d09f4e065d1e5932a329e963b57cde3057e6826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 14/48] fix: unpremultiply before the gamma correction in the
 float color models

---
 color/color.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/color/color.go b/color/color.go
index e12500e..56794d5 100644
--- a/color/color.go
+++ b/color/color.go
@@ -163,12 +163,11 @@ func nGrayA64Model(c color.Color) color.Color {
 		return NGrayA64{0, 0}
 	}
 	y := (299*r + 587*g + 114*b + 500) / 1000
-	x := float32(toFloat(y, 2.2))
 	if a == 0xffff {
-		return NGrayA64{x, 1}
+		return NGrayA64{float32(toFloat(y, 2.2)), 1}
 	}
-	xa := float32(a) / 0xffff
-	return NGrayA64{x / xa, xa}
+	y = y * 0xffff / a
+	return NGrayA64{float32(toFloat(y, 2.2)), float32(a) / 0xffff}
 }
 
 type NRGBA128 struct {
@@ -199,21 +198,21 @@ func nRGBA128Model(c color.Color) color.Color {
 		return c
 	}
 	r, g, b, a := c.RGBA()
+	if a == 0 {
+		return NRGBA128{}
+	}
+	fa := float32(1)
+	if a < 0xffff {
+		r = r * 0xffff / a
+		g = g * 0xffff / a
+		b = b * 0xffff / a
+		fa = float32(a) / 0xffff
+	}
 	const gamma = 2.2
 	fr := float32(toFloat(r, gamma))
 	fg := float32(toFloat(g, gamma))
 	fb := float32(toFloat(b, gamma))
-	switch {
-	case a >= 0xffff:
-		return NRGBA128{fr, fg, fb, 1}
-	case a == 0:
-		return NRGBA128{}
-	}
-	fa := 0xffff / float32(a)
-	fr *= fa
-	fg *= fa
-	fb *= fa
-	return NRGBA128{fr, fg, fb, float32(a) / 0xffff}
+	return NRGBA128{fr, fg, fb, fa}
 }
 
 // NCMYKA represents a non-alpha-premultiplied CMYK color, having 8 bits for each of cyan,
-- 
2.43.0


From 835b685a00ce49bd6ef658c9b724df5da6a04e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 15/48] fix: convert transparent, translucent and black colors
 to CMYK correctly

A transparent color caused division by zero, the ink amounts were divided by
alpha instead of the color components, and black became white in NCMYKA80Model.
---
 color/color.go | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/color/color.go b/color/color.go
index 56794d5..68f3f25 100644
--- a/color/color.go
+++ b/color/color.go
@@ -249,11 +249,15 @@ func nCMYKAModel(c color.Color) color.Color {
 		return c
 	}
 	r, g, b, a := c.RGBA()
+	if a == 0 {
+		return NCMYKA{255, 255, 255, 255, 0}
+	}
+	if a != 0xffff {
+		r = r * 0xffff / a
+		g = g * 0xffff / a
+		b = b * 0xffff / a
+	}
 	cc, mm, yy, kk := color.RGBToCMYK(uint8(r>>8), uint8(g>>8), uint8(b>>8))
-	cc = uint8((uint32(cc) * 0xffff) / a)
-	mm = uint8((uint32(mm) * 0xffff) / a)
-	yy = uint8((uint32(yy) * 0xffff) / a)
-	kk = uint8((uint32(kk) * 0xffff) / a)
 	return NCMYKA{255 - cc, 255 - mm, 255 - yy, 255 - kk, uint8(a >> 8)}
 }
 
@@ -289,6 +293,11 @@ func nCMYKA80Model(c color.Color) color.Color {
 	if a == 0 {
 		return NCMYKA80{0xffff, 0xffff, 0xffff, 0xffff, 0}
 	}
+	if a != 0xffff {
+		r = r * 0xffff / a
+		g = g * 0xffff / a
+		b = b * 0xffff / a
+	}
 	w := r
 	if w < g {
 		w = g
@@ -297,19 +306,12 @@ func nCMYKA80Model(c color.Color) color.Color {
 		w = b
 	}
 	if w == 0 {
-		return NCMYKA80{0xffff, 0xffff, 0xffff, 0xffff, uint16(a)}
+		return NCMYKA80{0xffff, 0xffff, 0xffff, 0, uint16(a)}
 	}
 	cc := (w - r) * 0xffff / w
 	mm := (w - g) * 0xffff / w
 	yy := (w - b) * 0xffff / w
 	kk := 0xffff - w
-	if a == 0xffff {
-		return NCMYKA80{uint16(0xffff - cc), uint16(0xffff - mm), uint16(0xffff - yy), uint16(0xffff - kk), 0xffff}
-	}
-	cc = (cc * 0xffff) / a
-	mm = (mm * 0xffff) / a
-	yy = (yy * 0xffff) / a
-	kk = (kk * 0xffff) / a
 	return NCMYKA80{uint16(0xffff - cc), uint16(0xffff - mm), uint16(0xffff - yy), uint16(0xffff - kk), uint16(a)}
 }
 
-- 
2.43.0


From 326e4c1f8853a5c7ff11c145d9ab26b12ae3725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 16/48] fix: composite: set the parent of all layers correctly

The top-level layers had no parent and the others referred to layers moved by
append, so SetDirtyByLayer did not invalidate the root and stale images remained.
---
 composite/builder.go | 15 ++++++++++++---
 composite/layer.go   | 27 +++++++++++----------------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/composite/builder.go b/composite/builder.go
index 3b4b6bb..7291ea1 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -51,9 +51,18 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.MaskEnabled = psdl.Mask.Enabled() && !psdl.Mask.Rect.Empty()
 
 	b.Rect = b.Rect.Union(psdl.Rect)
-	for i := range psdl.Layer {
-		l.Children = append(l.Children, Layer{Parent: l})
-		b.buildLayer(&l.Children[i], &psdl.Layer[i])
+	b.buildChildren(l, psdl.Layer)
+}
+
+func (b *builder) buildChildren(l *Layer, psdls []psd.Layer) {
+	if len(psdls) == 0 {
+		return
+	}
+	// Layers are referenced by pointers, so they must not be moved by append.
+	l.Children = make([]Layer, len(psdls))
+	for i := range psdls {
+		l.Children[i].Parent = l
+		b.buildLayer(&l.Children[i], &psdls[i])
 	}
 }
 
diff --git a/composite/layer.go b/composite/layer.go
index f8a5b2a..93ec922 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -217,20 +217,6 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 		Img: img,
 		LayerNameEncodingDetector: opt.LayerNameEncodingDetector,
 	}
-	root := Layer{
-		SeqID:      SeqIDRoot,
-		Folder:     true,
-		FolderOpen: true,
-		Visible:    true,
-		BlendMode:  psd.BlendModeNormal,
-		Opacity:    255,
-	}
-	for i := range img.Layer {
-		root.Children = append(root.Children, Layer{})
-		b.buildLayer(&root.Children[i], &img.Layer[i])
-	}
-	b.registerClippingGroup(root.Children)
-
 	r := &Tree{
 		Renderer: &Renderer{
 			cache: map[int]*cache{},
@@ -239,10 +225,19 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 		layerImage: layerImages,
 
 		CanvasRect: img.Config.Rect,
-		Rect:       b.Rect.Intersect(img.Config.Rect),
 
-		Root: root,
+		Root: Layer{
+			SeqID:      SeqIDRoot,
+			Folder:     true,
+			FolderOpen: true,
+			Visible:    true,
+			BlendMode:  psd.BlendModeNormal,
+			Opacity:    255,
+		},
 	}
+	b.buildChildren(&r.Root, img.Layer)
+	b.registerClippingGroup(r.Root.Children)
+	r.Rect = b.Rect.Intersect(img.Config.Rect)
 
 	r.Renderer.pool.New = r.Renderer.allocate
 	r.Renderer.tree = r
-- 
2.43.0


From 06f39d6c6f57359d8b82b21576d733580093c95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 17/48] fix: composite: do not modify layers that are being
 decoded

The workers wrote the rectangles to layers while psd.Decode was copying them,
that was a data race, and whether the written value was used depended on timing.
A mask filled with its default color was treated as disabled in that case.
---
 composite/builder.go | 5 ++++-
 composite/layer.go   | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/composite/builder.go b/composite/builder.go
index 7291ea1..73cd78b 100644
--- a/composite/builder.go
+++ b/composite/builder.go
@@ -12,6 +12,7 @@ import (
 
 type builder struct {
 	Img                       *psd.PSD
+	LayerImage                map[int]layerImage
 	Rect                      image.Rectangle
 	LayerNameEncodingDetector func([]byte) encoding.Encoding
 	LayerNameEncoding         encoding.Encoding
@@ -50,7 +51,9 @@ func (b *builder) buildLayer(l *Layer, psdl *psd.Layer) {
 	l.MaskDefaultColor = psdl.Mask.DefaultColor
 	l.MaskEnabled = psdl.Mask.Enabled() && !psdl.Mask.Rect.Empty()
 
-	b.Rect = b.Rect.Union(psdl.Rect)
+	if ld := b.LayerImage[psdl.SeqID]; ld.Canvas != nil {
+		b.Rect = b.Rect.Union(ld.Canvas.Rect())
+	}
 	b.buildChildren(l, psdl.Layer)
 }
 
diff --git a/composite/layer.go b/composite/layer.go
index 93ec922..977f12a 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -215,6 +215,7 @@ func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 
 	b := &builder{
 		Img: img,
+		LayerImage: layerImages,
 		LayerNameEncodingDetector: opt.LayerNameEncodingDetector,
 	}
 	r := &Tree{
@@ -294,7 +295,6 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 				return
 			}
 			ld.Canvas = ti
-			l.Rect = ti.Rect()
 		}
 		if !l.Mask.Rect.Empty() {
 			if a, ok := l.Channel[-2]; ok {
@@ -303,7 +303,6 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 					return
 				}
 				ld.Mask = m
-				l.Mask.Rect = m.Rect()
 			}
 		}
 
-- 
2.43.0


From 30cbe5592456d52b04ad87d29e1179fd2591975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 18/48] fix: composite: do not deadlock in New when the context
 is canceled

The workers exited while the decoder was still sending layers to them. New could
also return an incomplete tree without error.
---
 composite/layer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index 977f12a..6b9fd0b 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -276,6 +276,9 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 	if err = pc.Wait(ctx); err != nil {
 		return nil, nil, err
 	}
+	if pc.Aborted() {
+		return nil, nil, ErrAborted
+	}
 	img.Config.Rect = transformRect(img.Config.Rect, m)
 	return layerImages, img, nil
 }
@@ -283,6 +286,11 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.Layer, tileSize int, m f64.Aff3, gt *gammaTable, layerImages map[int]layerImage) {
 	defer pc.Done()
 	for l := range ch {
+		if pc.Aborted() || ctx.Err() != nil {
+			// The sender is blocked until it is received.
+			pc.SetAbort()
+			continue
+		}
 		var ld layerImage
 		if l.HasImage() && !l.Rect.Empty() {
 			r, g, b := l.Channel[0].Data, l.Channel[1].Data, l.Channel[2].Data
@@ -292,7 +300,8 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 			}
 			ti, err := newScaledTiledImage(ctx, tileSize, l.Rect, r, g, b, a, 1, m, gt)
 			if err != nil {
-				return
+				pc.SetAbort()
+				continue
 			}
 			ld.Canvas = ti
 		}
@@ -300,7 +309,8 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 			if a, ok := l.Channel[-2]; ok {
 				m, err := newScaledTiledMask(ctx, tileSize, l.Mask.Rect, a.Data, l.Mask.DefaultColor, m)
 				if err != nil {
-					return
+					pc.SetAbort()
+					continue
 				}
 				ld.Mask = m
 			}
-- 
2.43.0


From 6cac109e0ce8c4a018d4ce8d31b2681ba65f856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 19/48] fix: composite: do not panic on the blend modes that
 are not implemented

Dissolve and unknown blend modes are drawn as normal.
---
 composite/draw.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/composite/draw.go b/composite/draw.go
index eaae508..c32a179 100644
--- a/composite/draw.go
+++ b/composite/draw.go
@@ -40,7 +40,11 @@ var blendModes = map[psd.BlendMode]blend.Drawer{
 }
 
 func drawWithOpacity(dst draw.Image, r image.Rectangle, src draw.Image, sp image.Point, opacity int, bm psd.BlendMode) {
-	blendModes[bm].DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
+	d, ok := blendModes[bm]
+	if !ok {
+		d = blend.Normal
+	}
+	d.DrawMask(dst, r, src, sp, image.NewUniform(color.Alpha{uint8(opacity)}), image.Point{})
 }
 
 func removeAlpha(b *image.NRGBA) {
-- 
2.43.0


From ea6d020e18859d21b1fc17e53435522cd26754e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 20/48] fix: composite: do not enlarge the transformed
 rectangle

The corners of the rectangle are not pixels, but 1 was added to them. CanvasRect
was larger than the document by one pixel even if it is not transformed.
---
 composite/layer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index 6b9fd0b..13dd100 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -159,7 +159,7 @@ func transformRect(r image.Rectangle, m f64.Aff3) image.Rectangle {
 		dx, dy := sx*m[0]+sy*m[1]+m[2], sx*m[3]+sy*m[4]+m[5]
 		if i == 0 {
 			xMin, yMin = dx, dy
-			xMax, yMax = dx+1, dy+1
+			xMax, yMax = dx, dy
 			continue
 		}
 		if xMin > dx {
@@ -168,8 +168,6 @@ func transformRect(r image.Rectangle, m f64.Aff3) image.Rectangle {
 		if yMin > dy {
 			yMin = dy
 		}
-		dx++
-		dy++
 		if xMax < dx {
 			xMax = dx
 		}
-- 
2.43.0


From 8be5426bc7fcedc3f53fef998c95d585e52aca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 21/48] fix: composite: accept the matrix of 90 degrees
 rotation, and do not modify the options

The zero diagonal elements were replaced by 1 even if they are part of a valid
matrix, and it was written to the options of the caller.
---
 composite/layer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/composite/layer.go b/composite/layer.go
index 13dd100..e9e460d 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -188,14 +188,17 @@ func transformRect(r image.Rectangle, m f64.Aff3) image.Rectangle {
 func New(ctx context.Context, psdFile io.Reader, opt *Options) (*Tree, error) {
 	if opt == nil {
 		opt = &Options{}
+	} else {
+		o := *opt
+		opt = &o
 	}
 	if opt.TileSize == 0 {
 		opt.TileSize = DefaultTileSize
 	}
-	if opt.TransformMatrix[0] == 0 {
+	if opt.TransformMatrix[0] == 0 && opt.TransformMatrix[1] == 0 {
 		opt.TransformMatrix[0] = 1
 	}
-	if opt.TransformMatrix[4] == 0 {
+	if opt.TransformMatrix[3] == 0 && opt.TransformMatrix[4] == 0 {
 		opt.TransformMatrix[4] = 1
 	}
 	var gt *gammaTable
-- 
2.43.0


From 16d04589c1439cf3515324190d9aaf75f070e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 22/48] fix: composite: do not lose the pixels at negative
 coordinates

The beginning of tiles was rounded toward zero.
---
 composite/layerimage.go | 25 +++++++++++++++++--------
 composite/renderer.go   |  4 ++--
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index 0a44f79..5bdb8e4 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -17,6 +17,15 @@ type layerImage struct {
 	Mask   tiledMask
 }
 
+// alignToTile returns the beginning of the tile that contains v.
+func alignToTile(v int, tileSize int) int {
+	m := v % tileSize
+	if m < 0 {
+		m += tileSize
+	}
+	return v - m
+}
+
 type tiledImage map[image.Point]draw.Image
 
 func (t tiledImage) Get(tileSize int, pt image.Point) (draw.Image, bool) {
@@ -43,8 +52,8 @@ func (t tiledImage) Render(ctx context.Context, img draw.Image) error {
 	}
 
 	rect := img.Bounds()
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := alignToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := alignToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -231,8 +240,8 @@ func newScaledTiledImage(ctx context.Context, tileSize int, rect image.Rectangle
 }
 
 func newTiledImage(ctx context.Context, tileSize int, rect image.Rectangle, r, g, b, a []byte, deltaX int) (tiledImage, error) {
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := alignToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := alignToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -356,8 +365,8 @@ func (t tiledMask) Render(ctx context.Context, img draw.Image) error {
 	}
 
 	rect := img.Bounds()
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := alignToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := alignToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
@@ -425,8 +434,8 @@ func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle,
 }
 
 func newTiledMask(ctx context.Context, tileSize int, rect image.Rectangle, a []byte, defaultColor int) (tiledMask, error) {
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := alignToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := alignToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
diff --git a/composite/renderer.go b/composite/renderer.go
index 2dd8aab..b653dec 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -235,8 +235,8 @@ func (r *Renderer) render(ctx context.Context, dest *image.NRGBA, diffOnly bool)
 		Map: map[int]*[]image.Point{},
 	}
 
-	x0, x1 := (rect.Min.X/tileSize)*tileSize, rect.Max.X
-	y0, y1 := (rect.Min.Y/tileSize)*tileSize, rect.Max.Y
+	x0, x1 := alignToTile(rect.Min.X, tileSize), rect.Max.X
+	y0, y1 := alignToTile(rect.Min.Y, tileSize), rect.Max.Y
 	ylen := (y1 - y0) / tileSize
 
 	n := runtime.GOMAXPROCS(0)
-- 
2.43.0


From 47c2a5a9fc92ad5d7094429e48d5e859f705cd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 23/48] fix: composite: do not trim the last column and row
 from the thumbnail

A layer that has one pixel width or height had no thumbnail.
---
 composite/thumbnail.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index bcd916e..1a9ff4a 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -29,8 +29,8 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 				}
 				for r := w - 1; r >= l; r-- {
 					if pix[r*4+3] > threshold {
-						if r > rect.Max.X {
-							rect.Max.X = r
+						if r >= rect.Max.X {
+							rect.Max.X = r + 1
 						}
 						break
 					}
@@ -38,13 +38,19 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 				if y < rect.Min.Y {
 					rect.Min.Y = y
 				}
-				rect.Max.Y = y
+				if y >= rect.Max.Y {
+					rect.Max.Y = y + 1
+				}
 				break
 			}
 		}
 		pix = pix[stride:]
 	}
 
+	if rect.Empty() {
+		src.Rect = image.Rectangle{}
+		return
+	}
 	if rect.Dx()*rect.Dy() == w*h {
 		return
 	}
-- 
2.43.0


From c19dda7407f65aded0e13b1afabba4efaa2849ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 24/48] fix: composite: invalidate pass-through folders in the
 folder whose blend mode was changed

They are rendered with the backdrop of the folder while it is pass-through, and
the cache was used even after it became another blend mode.
---
 composite/renderer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/composite/renderer.go b/composite/renderer.go
index b653dec..b4df3dc 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -166,6 +166,8 @@ func (r *Renderer) setDirtyByLayerRecursive(l *Layer, areaMap []image.Point) {
 
 func (r *Renderer) setDirtyByLayer(l *Layer) {
 	areaMap := r.buildAreaMap(l)
+	// pass-through folders in l depend on the blend mode of l.
+	r.setDirtyByLayerPassThrough(l, areaMap)
 	r.setDirtyByLayerRecursive(l, areaMap)
 }
 
-- 
2.43.0


From 4220fb07c37cb44e86cd6269583fff81b7e175e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 25/48] fix: composite: treat outside of the transformed mask
 as the default color

The area around the transformed mask was filled with 0 even if the default color
is 255. The default color other than 0 and 255 was handled inconsistently.
---
 composite/layerimage.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/composite/layerimage.go b/composite/layerimage.go
index 5bdb8e4..bef386f 100644
--- a/composite/layerimage.go
+++ b/composite/layerimage.go
@@ -425,6 +425,14 @@ func newScaledTiledMask(ctx context.Context, tileSize int, rect image.Rectangle,
 	if m[0] == 1 && m[1] == 0 && m[2] == 0 && m[3] == 0 && m[4] == 1 && m[5] == 0 {
 		return newTiledMask(ctx, tileSize, rect, a, defaultColor)
 	}
+	if defaultColor == 255 {
+		// The transform fills outside of the mask with zero.
+		inv := make([]byte, len(a))
+		for i, v := range a {
+			inv[i] = 255 - v
+		}
+		a, defaultColor = inv, 0
+	}
 	tmp := createMask(rect, a)
 	trRect := transformRect(rect, m)
 	tmp2 := image.NewAlpha(trRect)
@@ -491,7 +499,7 @@ func newTiledMaskInner(pc *parallelContext, t tiledMask, rect image.Rectangle, t
 
 			used := false
 			dyMax = dyMax * tileSize
-			if defaultColor == 0 {
+			if defaultColor != 255 {
 				for dy, sy := dyMin*tileSize, syMin*rw; dy < dyMax; dy += tileSize {
 					for dx, sx, dEnd := dy+dxMin, sy+sxMin, dy+dxMax; dx < dEnd; dx++ {
 						alpha := a[sx]
-- 
2.43.0


From 8e28534a8d22148f86476ece0c4b4900c2398a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 26/48] fix: composite: report the color depth that is not
 supported and accept a missing channel

The data of 16-bit and 32-bit images was treated as 8-bit one, and a missing
color channel crashed the process.
---
 composite/layer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/composite/layer.go b/composite/layer.go
index e9e460d..e12e813 100644
--- a/composite/layer.go
+++ b/composite/layer.go
@@ -266,6 +266,9 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 			if c.ColorMode != psd.ColorModeRGB {
 				return errors.New("Unsupported color mode")
 			}
+			if c.Depth != 8 {
+				return errors.New("Unsupported color depth")
+			}
 			return nil
 		},
 		LayerImageLoaded: func(l *psd.Layer, index int, total int) { ch <- l },
@@ -284,6 +287,15 @@ func createCanvas(ctx context.Context, psdFile io.Reader, tileSize int, m f64.Af
 	return layerImages, img, nil
 }
 
+// colorData returns the data of the color channel.
+// It is filled with zero if l does not have the channel.
+func colorData(l *psd.Layer, id int) []byte {
+	if ch, ok := l.Channel[id]; ok {
+		return ch.Data
+	}
+	return make([]byte, l.Rect.Dx()*l.Rect.Dy())
+}
+
 func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.Layer, tileSize int, m f64.Aff3, gt *gammaTable, layerImages map[int]layerImage) {
 	defer pc.Done()
 	for l := range ch {
@@ -294,7 +306,7 @@ func createCanvasInner(ctx context.Context, pc *parallelContext, ch <-chan *psd.
 		}
 		var ld layerImage
 		if l.HasImage() && !l.Rect.Empty() {
-			r, g, b := l.Channel[0].Data, l.Channel[1].Data, l.Channel[2].Data
+			r, g, b := colorData(l, 0), colorData(l, 1), colorData(l, 2)
 			var a []byte
 			if ach, ok := l.Channel[-1]; ok {
 				a = ach.Data
-- 
2.43.0


From c02abb9d93d106a0ed2d295c8d0b5841fcc18ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 27/48] fix: blend: do not lose the precision of soft light in
 dark area

The coefficient of the polynomial was truncated to integers, it made an error up
to 1/16 of the full scale and banding.
---
 blend/genblend.go |  4 ++--
 blend/zblends.go  | 36 ++++++++++++++++++------------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index 278ee7a..d4766df 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -215,7 +215,7 @@ var blendModes = []mode{
 				ret = dest - (((maxValue - (src << 1)) * dest * 32897 >> 23) * (maxValue - dest) * 32897 >> 23);
 			} else {
 				if (dest < quarterValue) {
-					tmp = uint32((((int32(dest)<<4 - maxValue*12) * 32897 >> 23) * int32(dest) + maxValue*4) * int32(dest) * 32897 >> 23);
+					tmp = uint32(((int32(dest)<<4 - maxValue*12) * int32(dest) / maxValue + maxValue*4) * int32(dest) / maxValue);
 				} else {
 					tmp = sqrt(dest, maxValue);
 				}
@@ -227,7 +227,7 @@ var blendModes = []mode{
 				ret = dest - (((maxValue - (src << 1)) * dest / maxValue) * (maxValue - dest) / maxValue);
 			} else {
 				if (dest < quarterValue) {
-					tmp = uint32((((int32(dest)<<4 - maxValue*12) / maxValue) * int32(dest) + maxValue*4) * int32(dest) / maxValue);
+					tmp = uint32(((int64(dest)<<4 - maxValue*12) * int64(dest) / maxValue + maxValue*4) * int64(dest) / maxValue);
 				} else {
 					tmp = sqrt(dest, maxValue);
 				}
diff --git a/blend/zblends.go b/blend/zblends.go
index 888a303..4ce6335 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -6378,7 +6378,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				r = dr - (((0xff - (sr << 1)) * dr * 32897 >> 23) * (0xff - dr) * 32897 >> 23)
 			} else {
 				if dr < 0x40 {
-					tmp = uint32((((int32(dr)<<4-0xff*12)*32897>>23)*int32(dr) + 0xff*4) * int32(dr) * 32897 >> 23)
+					tmp = uint32(((int32(dr)<<4-0xff*12)*int32(dr)/0xff + 0xff*4) * int32(dr) / 0xff)
 				} else {
 					tmp = sqrt(dr, 0xff)
 				}
@@ -6389,7 +6389,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				g = dg - (((0xff - (sg << 1)) * dg * 32897 >> 23) * (0xff - dg) * 32897 >> 23)
 			} else {
 				if dg < 0x40 {
-					tmp = uint32((((int32(dg)<<4-0xff*12)*32897>>23)*int32(dg) + 0xff*4) * int32(dg) * 32897 >> 23)
+					tmp = uint32(((int32(dg)<<4-0xff*12)*int32(dg)/0xff + 0xff*4) * int32(dg) / 0xff)
 				} else {
 					tmp = sqrt(dg, 0xff)
 				}
@@ -6400,7 +6400,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				b = db - (((0xff - (sb << 1)) * db * 32897 >> 23) * (0xff - db) * 32897 >> 23)
 			} else {
 				if db < 0x40 {
-					tmp = uint32((((int32(db)<<4-0xff*12)*32897>>23)*int32(db) + 0xff*4) * int32(db) * 32897 >> 23)
+					tmp = uint32(((int32(db)<<4-0xff*12)*int32(db)/0xff + 0xff*4) * int32(db) / 0xff)
 				} else {
 					tmp = sqrt(db, 0xff)
 				}
@@ -6450,7 +6450,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6461,7 +6461,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6472,7 +6472,7 @@ var drawSoftLightNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6536,7 +6536,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6547,7 +6547,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6558,7 +6558,7 @@ var drawSoftLightRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6622,7 +6622,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6633,7 +6633,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6644,7 +6644,7 @@ var drawSoftLightNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6718,7 +6718,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6729,7 +6729,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6740,7 +6740,7 @@ var drawSoftLightRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
@@ -6808,7 +6808,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				r = dr - (((0xffff - (sr << 1)) * dr / 0xffff) * (0xffff - dr) / 0xffff)
 			} else {
 				if dr < 0x4000 {
-					tmp = uint32((((int32(dr)<<4-0xffff*12)/0xffff)*int32(dr) + 0xffff*4) * int32(dr) / 0xffff)
+					tmp = uint32(((int64(dr)<<4-0xffff*12)*int64(dr)/0xffff + 0xffff*4) * int64(dr) / 0xffff)
 				} else {
 					tmp = sqrt(dr, 0xffff)
 				}
@@ -6819,7 +6819,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				g = dg - (((0xffff - (sg << 1)) * dg / 0xffff) * (0xffff - dg) / 0xffff)
 			} else {
 				if dg < 0x4000 {
-					tmp = uint32((((int32(dg)<<4-0xffff*12)/0xffff)*int32(dg) + 0xffff*4) * int32(dg) / 0xffff)
+					tmp = uint32(((int64(dg)<<4-0xffff*12)*int64(dg)/0xffff + 0xffff*4) * int64(dg) / 0xffff)
 				} else {
 					tmp = sqrt(dg, 0xffff)
 				}
@@ -6830,7 +6830,7 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 				b = db - (((0xffff - (sb << 1)) * db / 0xffff) * (0xffff - db) / 0xffff)
 			} else {
 				if db < 0x4000 {
-					tmp = uint32((((int32(db)<<4-0xffff*12)/0xffff)*int32(db) + 0xffff*4) * int32(db) / 0xffff)
+					tmp = uint32(((int64(db)<<4-0xffff*12)*int64(db)/0xffff + 0xffff*4) * int64(db) / 0xffff)
 				} else {
 					tmp = sqrt(db, 0xffff)
 				}
-- 
2.43.0


From 7653f01c19889a7290d613e755ef9276b6ee48ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 28/48] fix: blend: do not overflow in Add, and keep its result
 valid

The sum exceeds 16-bit, so the product with alpha exceeded 32-bit. The result for
alpha-premultiplied images was limited to 0xffff instead of alpha, and the
fallback mixed values of different scales.
---
 blend/genblend.go | 18 +++++++++---------
 blend/zblends.go  | 30 +++++++++++++++---------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/blend/genblend.go b/blend/genblend.go
index d4766df..b5cfce9 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -595,9 +595,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{define "drawMain2_SetNRGBA"}}
 {{if .OverMax}}
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1 + sb*a2 + db*a3) / a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1 + sg*a2 + dg*a3) / a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1 + sr*a2 + dr*a3) / a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1) + uint64(sb*a2 + db*a3)) / uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1) + uint64(sg*a2 + dg*a3)) / uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1) + uint64(sr*a2 + dr*a3)) / uint64(a)) >> 8)
 {{else}}
 			dpix[j+3] = uint8(a >> 8)
 			dpix[j+2] = uint8(((b*a1 + sb*a2 + db*a3) / a) >> 8)
@@ -608,9 +608,9 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 {{define "drawMain2_SetRGBA"}}
 {{if .OverMax}}
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1 + sb*a2 + db*a3) / 0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1 + sg*a2 + dg*a3) / 0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1 + sr*a2 + dr*a3) / 0xffff) >> 8)
+			dpix[j+2] = uint8(min(clip6416((uint64(b)*uint64(a1) + uint64(sb*a2 + db*a3)) / 0xffff), a) >> 8)
+			dpix[j+1] = uint8(min(clip6416((uint64(g)*uint64(a1) + uint64(sg*a2 + dg*a3)) / 0xffff), a) >> 8)
+			dpix[j+0] = uint8(min(clip6416((uint64(r)*uint64(a1) + uint64(sr*a2 + dr*a3)) / 0xffff), a) >> 8)
 {{else}}
 			dpix[j+3] = uint8(a >> 8)
 			dpix[j+2] = uint8(((b*a1 + sb*a2 + db*a3) / 0xffff) >> 8)
@@ -713,9 +713,9 @@ var draw{{.Name}}Fallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 {{.Code.To16}}
 {{end}}
 {{if .OverMax}}
-			out.R = uint16(clip6416(uint64(sr*a2 + dr*a3)/0xffff + uint64(r)*uint64(a1) / uint64(a)) * a / 0xffff)
-			out.G = uint16(clip6416(uint64(sg*a2 + dg*a3)/0xffff + uint64(g)*uint64(a1) / uint64(a)) * a / 0xffff)
-			out.B = uint16(clip6416(uint64(sb*a2 + db*a3)/0xffff + uint64(b)*uint64(a1) / uint64(a)) * a / 0xffff)
+			out.R = uint16(min(clip6416((uint64(r)*uint64(a1) + uint64(sr*a2 + dr*a3)) / 0xffff), a))
+			out.G = uint16(min(clip6416((uint64(g)*uint64(a1) + uint64(sg*a2 + dg*a3)) / 0xffff), a))
+			out.B = uint16(min(clip6416((uint64(b)*uint64(a1) + uint64(sb*a2 + db*a3)) / 0xffff), a))
 			out.A = uint16(a)
 {{else}}
 			out.R = uint16((r*a1 + sr*a2 + dr*a3) / 0xffff)
diff --git a/blend/zblends.go b/blend/zblends.go
index 4ce6335..38dfaf4 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -5484,9 +5484,9 @@ var drawAddNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5543,9 +5543,9 @@ var drawAddRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/a) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/a) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/a) >> 8)
+			dpix[j+2] = uint8(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/uint64(a)) >> 8)
+			dpix[j+1] = uint8(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/uint64(a)) >> 8)
+			dpix[j+0] = uint8(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/uint64(a)) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5602,9 +5602,9 @@ var drawAddNRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/0xffff) >> 8)
+			dpix[j+2] = uint8(min(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/0xffff), a) >> 8)
+			dpix[j+1] = uint8(min(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/0xffff), a) >> 8)
+			dpix[j+0] = uint8(min(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/0xffff), a) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5671,9 +5671,9 @@ var drawAddRGBAToRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0,
 			b = sb + db
 
 			dpix[j+3] = uint8(a >> 8)
-			dpix[j+2] = uint8(clip16((b*a1+sb*a2+db*a3)/0xffff) >> 8)
-			dpix[j+1] = uint8(clip16((g*a1+sg*a2+dg*a3)/0xffff) >> 8)
-			dpix[j+0] = uint8(clip16((r*a1+sr*a2+dr*a3)/0xffff) >> 8)
+			dpix[j+2] = uint8(min(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/0xffff), a) >> 8)
+			dpix[j+1] = uint8(min(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/0xffff), a) >> 8)
+			dpix[j+0] = uint8(min(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/0xffff), a) >> 8)
 
 		}
 		d0 += dyDelta
@@ -5733,9 +5733,9 @@ var drawAddFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 
 			b = sb + db
 
-			out.R = uint16(clip6416(uint64(sr*a2+dr*a3)/0xffff+uint64(r)*uint64(a1)/uint64(a)) * a / 0xffff)
-			out.G = uint16(clip6416(uint64(sg*a2+dg*a3)/0xffff+uint64(g)*uint64(a1)/uint64(a)) * a / 0xffff)
-			out.B = uint16(clip6416(uint64(sb*a2+db*a3)/0xffff+uint64(b)*uint64(a1)/uint64(a)) * a / 0xffff)
+			out.R = uint16(min(clip6416((uint64(r)*uint64(a1)+uint64(sr*a2+dr*a3))/0xffff), a))
+			out.G = uint16(min(clip6416((uint64(g)*uint64(a1)+uint64(sg*a2+dg*a3))/0xffff), a))
+			out.B = uint16(min(clip6416((uint64(b)*uint64(a1)+uint64(sb*a2+db*a3))/0xffff), a))
 			out.A = uint16(a)
 
 			dst.Set(x, y, &out)
-- 
2.43.0


From fa38a52bb73d96e3af77ffbdfbe56f4c29738568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 29/48] fix: blend: leave the destination as is where the
 source is transparent

The fallback wrote back the destination color that went through the conversion,
so the color was degraded each time a transparent image was drawn.
---
 blend/genblend.go |  3 ++
 blend/zblends.go  | 81 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/blend/genblend.go b/blend/genblend.go
index b5cfce9..b27fd44 100644
--- a/blend/genblend.go
+++ b/blend/genblend.go
@@ -671,6 +671,9 @@ var draw{{.Name}}Fallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
diff --git a/blend/zblends.go b/blend/zblends.go
index 38dfaf4..0613d7f 100644
--- a/blend/zblends.go
+++ b/blend/zblends.go
@@ -415,6 +415,9 @@ var drawNormalFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -910,6 +913,9 @@ var drawDarkenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -1357,6 +1363,9 @@ var drawMultiplyFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -1882,6 +1891,9 @@ var drawColorBurnFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -2410,6 +2422,9 @@ var drawLinearBurnFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -2880,6 +2895,9 @@ var drawDarkerColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -3379,6 +3397,9 @@ var drawLightenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -3826,6 +3847,9 @@ var drawScreenFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -4351,6 +4375,9 @@ var drawColorDodgeFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -4804,6 +4831,9 @@ var drawLinearDodgeFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -5259,6 +5289,9 @@ var drawLighterColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -5698,6 +5731,9 @@ var drawAddFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -6193,6 +6229,9 @@ var drawOverlayFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -6775,6 +6814,9 @@ var drawSoftLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -7312,6 +7354,9 @@ var drawHardLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -7822,6 +7867,9 @@ var drawLinearLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY i
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -8479,6 +8527,9 @@ var drawVividLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -9166,6 +9217,9 @@ var drawPinLightFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -9988,6 +10042,9 @@ var drawHardMixFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -10552,6 +10609,9 @@ var drawDifferenceFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -10999,6 +11059,9 @@ var drawExclusionFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -11494,6 +11557,9 @@ var drawSubtractFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int,
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12031,6 +12097,9 @@ var drawDivideFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, s
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12469,6 +12538,9 @@ var drawHueFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, src
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -12886,6 +12958,9 @@ var drawSaturationFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -13298,6 +13373,9 @@ var drawColorFallback drawFallbackFunc = func(dst draw.Image, pX int, pY int, sr
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
@@ -13709,6 +13787,9 @@ var drawLuminosityFallback drawFallbackFunc = func(dst draw.Image, pX int, pY in
 			dr, dg, db, da := dst.At(x, y).RGBA()
 
 			tmp := sa * ma / 0xffff
+			if tmp == 0 {
+				continue
+			}
 			a1 := tmp * da / 0xffff
 			a2 := tmp * (0xffff - da) / 0xffff
 			a3 := (0xffff - tmp) * da / 0xffff
-- 
2.43.0


From 43d233627b14ea770e5c0d3958f6ce519965f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 30/48] fix: blend: process rows in order when an image is
 drawn to itself

The rows were split among goroutines although the order is chosen to read the
source before it is overwritten, the result depended on the timing.
---
 blend/draw.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/blend/draw.go b/blend/draw.go
index af44cdf..113cf2b 100644
--- a/blend/draw.go
+++ b/blend/draw.go
@@ -30,6 +30,11 @@ type uniformDrawer interface {
 	drawUniformToNRGBAUniform(dst *image.NRGBA, r image.Rectangle, src *image.Uniform, sp image.Point, mask *image.Uniform)
 }
 
+// sharesMemory returns whether a and b are parts of the same memory.
+func sharesMemory(a []byte, b []byte) bool {
+	return cap(a) > 0 && cap(b) > 0 && &a[:cap(a)][cap(a)-1] == &b[:cap(b)][cap(b)-1]
+}
+
 type drawFunc func(dest []byte, src []byte, alpha uint32, d0 int, s0 int, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int)
 
 func (f drawFunc) Parallel(dest []byte, src []byte, alpha uint32, d0 int, s0 int, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int) {
@@ -37,6 +42,10 @@ func (f drawFunc) Parallel(dest []byte, src []byte, alpha uint32, d0 int, s0 int
 	for n > 1 && n<<1 > y {
 		n--
 	}
+	if n > 1 && sharesMemory(dest, src) && &dest[d0] != &src[s0] {
+		// The source rows may be overwritten, so it has to be processed in order.
+		n = 1
+	}
 	if n == 1 {
 		f(dest, src, alpha, d0, s0, y, sx0, sx1, sxDelta, syDelta, dx0, dx1, dxDelta, dyDelta)
 		return
@@ -102,6 +111,10 @@ func (f drawFallbackFunc) Parallel(dst draw.Image, pX int, pY int, src image.Ima
 	for n > 1 && n<<1 > y {
 		n--
 	}
+	if n > 1 && image.Image(dst) == src && (pX != spX || pY != spY) {
+		// The source rows may be overwritten, so it has to be processed in order.
+		n = 1
+	}
 	if n == 1 {
 		f(dst, pX, pY, src, spX, spY, mask, mpX, mpY, endX, endY, dx, dy)
 		return
-- 
2.43.0


From edb2a0339af5d4afb026f83949f253c36a1b65d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 31/48] fix: return black for the negative infinity

---
 color/color.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/color/color.go b/color/color.go
index 68f3f25..2b63380 100644
--- a/color/color.go
+++ b/color/color.go
@@ -6,12 +6,11 @@ import (
 )
 
 func fromFloat(v, gamma float64) uint32 {
-	x := math.Pow(v, gamma)
 	switch {
-	case x >= 1:
+	case v >= 1:
 		return 0xffff
-	case x > 0:
-		return uint32(x * 0xffff)
+	case v > 0:
+		return uint32(math.Pow(v, gamma) * 0xffff)
 	default: // including NaN
 		return 0
 	}
-- 
2.43.0


From ff4558a736d4f6854884b840c8d15a53a66b0b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 32/48] fix: psdexporter: skip layers that have no pixels

PNG can not represent an empty image, so it stopped at the first layer that
has no pixels such as an adjustment layer.
---
 psdexporter/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/psdexporter/main.go b/psdexporter/main.go
index 41a3694..edc28ff 100644
--- a/psdexporter/main.go
+++ b/psdexporter/main.go
@@ -18,7 +18,7 @@ func processLayer(filename string, layerName string, l *psd.Layer) error {
 			}
 		}
 	}
-	if !l.HasImage() {
+	if !l.HasImage() || l.Rect.Empty() {
 		return nil
 	}
 	fmt.Printf("%s -> %s.png\n", layerName, filename)
-- 
2.43.0


From 2749bb9b38045b0cabab6b53363f008c1fb6d9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 33/48] fix: blend: Copy between NRGBA images keeps the pixels

Translucent dark pixels were changed by the conversion to the premultiplied
color, even if nothing is drawn on them.
---
 blend/genporterduff.go | 10 ++++++++++
 blend/zporterduffs.go  |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/blend/genporterduff.go b/blend/genporterduff.go
index 93abc7e..3d0d231 100644
--- a/blend/genporterduff.go
+++ b/blend/genporterduff.go
@@ -442,6 +442,16 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 	}
 {{end}}
 {{template "drawMain1" .}}
+{{if eq .Name "Copy"}}
+			if sa != 0 && alpha == 0xffff {
+				// No conversion, no loss.
+				dpix[j+3] = spix[i+3]
+				dpix[j+2] = spix[i+2]
+				dpix[j+1] = spix[i+1]
+				dpix[j+0] = spix[i]
+				continue
+			}
+{{end}}
 {{if and (ne .SrcRead "skip") (ne .SrcRead "alpha")}}
 	{{template "drawMain1_SrcNRGBAToRGBA" .}}
 {{end}}
diff --git a/blend/zporterduffs.go b/blend/zporterduffs.go
index ecace5e..acb59ec 100644
--- a/blend/zporterduffs.go
+++ b/blend/zporterduffs.go
@@ -597,6 +597,15 @@ var drawCopyNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32,
 			sg := uint32(spix[i+1]) * 0x0101
 			sr := uint32(spix[i]) * 0x0101
 
+			if sa != 0 && alpha == 0xffff {
+				// No conversion, no loss.
+				dpix[j+3] = spix[i+3]
+				dpix[j+2] = spix[i+2]
+				dpix[j+1] = spix[i+1]
+				dpix[j+0] = spix[i]
+				continue
+			}
+
 			if sa == 0x0000 {
 				sr = 0
 				sg = 0
-- 
2.43.0


From c31ad48117fe73b85eab2215d8426be630f65877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 34/48] fix: composite: mix masked pass-through folder with the
 backdrop

Putting the backdrop under the masked result makes translucent backdrop more
opaque, and how far depends on which tiles have something to draw.
---
 composite/draw.go     | 26 ++++++++++++++++++++++++++
 composite/renderer.go |  8 ++++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/composite/draw.go b/composite/draw.go
index c32a179..5b8a678 100644
--- a/composite/draw.go
+++ b/composite/draw.go
@@ -55,3 +55,29 @@ func removeAlpha(b *image.NRGBA) {
 		d[i+3] = 255
 	}
 }
+
+// mixByMask brings b back to buf as far as buf is masked.
+//
+// All images are tiles at the same position, mask can be nil.
+func mixByMask(buf *image.NRGBA, b *image.NRGBA, mask *image.Alpha, inverted bool) {
+	for i, j := 0, 0; i < len(buf.Pix); i, j = i+4, j+1 {
+		var m uint32
+		if mask != nil {
+			m = uint32(mask.Pix[j])
+		}
+		if inverted {
+			m = 255 - m
+		}
+		d, s := buf.Pix[i:i+4], b.Pix[i:i+4]
+		da, sa := uint32(d[3])*m, uint32(s[3])*(255-m)
+		a := da + sa
+		if a == 0 {
+			d[0], d[1], d[2], d[3] = 0, 0, 0, 0
+			continue
+		}
+		d[0] = uint8((uint32(d[0])*da + uint32(s[0])*sa) / a)
+		d[1] = uint8((uint32(d[1])*da + uint32(s[1])*sa) / a)
+		d[2] = uint8((uint32(d[2])*da + uint32(s[2])*sa) / a)
+		d[3] = uint8((a + 127) / 255)
+	}
+}
diff --git a/composite/renderer.go b/composite/renderer.go
index b4df3dc..8a4f606 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -404,7 +404,10 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 	}
 
 	if l.MaskEnabled {
-		if ldMask, ok := ld.Mask[pt]; ok {
+		ldMask, ok := ld.Mask[pt]
+		if blendMode == psd.BlendModePassThrough {
+			mixByMask(buf, b, ldMask, l.MaskDefaultColor == 255)
+		} else if ok {
 			if l.MaskDefaultColor != 255 {
 				blend.DestIn.Draw(buf, buf.Rect, ldMask, pt)
 			} else {
@@ -415,9 +418,6 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 				blend.Clear.Draw(buf, buf.Rect, image.Transparent, image.Point{})
 			}
 		}
-		if blendMode == psd.BlendModePassThrough {
-			blend.DestOver.Draw(buf, buf.Rect, b, pt)
-		}
 	}
 
 	if len(l.Clip) == 0 {
-- 
2.43.0


From 7d051b45b72e3c70da4cbfcd8b27d0921d955953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:37 +0000
Subject: [PATCH 35/48] fix: blend: DestOut keeps the pixels where the source
 is transparent

Translucent dark pixels were changed by the conversion to the premultiplied
color, even if nothing is drawn on them.
---
 blend/genporterduff.go | 18 ++++++++++++++++++
 blend/zporterduffs.go  | 15 +++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/blend/genporterduff.go b/blend/genporterduff.go
index 3d0d231..4266d74 100644
--- a/blend/genporterduff.go
+++ b/blend/genporterduff.go
@@ -452,6 +452,12 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 				continue
 			}
 {{end}}
+{{if eq .Name "DestOut"}}
+			if sa == 0 && da != 0 {
+				// No conversion, no loss.
+				continue
+			}
+{{end}}
 {{if and (ne .SrcRead "skip") (ne .SrcRead "alpha")}}
 	{{template "drawMain1_SrcNRGBAToRGBA" .}}
 {{end}}
@@ -465,6 +471,12 @@ var draw{{.Name}}NRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 
 var draw{{.Name}}RGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32, d0, s0, y int, sx0 int, sx1 int, sxDelta int, syDelta int, dx0 int, dx1 int, dxDelta int, dyDelta int) {
 	{{template "drawMain1" .}}
+{{if eq .Name "DestOut"}}
+			if sa == 0 && da != 0 {
+				// No conversion, no loss.
+				continue
+			}
+{{end}}
 	{{if and (ne .DestRead "skip") (ne .DestRead "alpha")}}
 		{{template "drawMain1_DestNRGBAToRGBA" .}}
 	{{end}}
@@ -574,6 +586,12 @@ var draw{{.Name}}AlphaToNRGBA drawFunc = func(dest []byte, src []byte, alpha uin
 	}
 {{end}}
 {{template "drawMainAlpha1" .}}
+{{if eq .Name "DestOut"}}
+			if sa == 0 && da != 0 {
+				// No conversion, no loss.
+				continue
+			}
+{{end}}
 {{if and (ne .DestRead "skip") (ne .DestRead "alpha")}}
 	{{template "drawMainAlpha1_DestNRGBAToRGBA" .}}
 {{end}}
diff --git a/blend/zporterduffs.go b/blend/zporterduffs.go
index acb59ec..8b6b2f0 100644
--- a/blend/zporterduffs.go
+++ b/blend/zporterduffs.go
@@ -4682,6 +4682,11 @@ var drawDestOutNRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
+			if sa == 0 && da != 0 {
+				// No conversion, no loss.
+				continue
+			}
+
 			if da == 0x0000 {
 				dr = 0
 				dg = 0
@@ -4742,6 +4747,11 @@ var drawDestOutRGBAToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint32
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
+			if sa == 0 && da != 0 {
+				// No conversion, no loss.
+				continue
+			}
+
 			if da == 0x0000 {
 				dr = 0
 				dg = 0
@@ -4887,6 +4897,11 @@ var drawDestOutAlphaToNRGBA drawFunc = func(dest []byte, src []byte, alpha uint3
 			dg := uint32(dpix[j+1]) * 0x0101
 			dr := uint32(dpix[j]) * 0x0101
 
+			if sa == 0 && da != 0 {
+				// No conversion, no loss.
+				continue
+			}
+
 			if da == 0x0000 {
 				dr = 0
 				dg = 0
-- 
2.43.0


From f411c257d1a6921546d3a4ee26c0f0ff710994c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:11 +0000
Subject: [PATCH 36/48] fix: composite: do not clip layers by the backdrop of a
 pass-through folder

Layers clipped by a pass-through folder were drawn on all of the tiles that
the folder touches.
---
 composite/renderer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/composite/renderer.go b/composite/renderer.go
index 8a4f606..17c3063 100644
--- a/composite/renderer.go
+++ b/composite/renderer.go
@@ -355,6 +355,11 @@ func (r *Renderer) drawLayer(pt image.Point, b *image.NRGBA, clst *changeList, l
 		return r.updateCache(drDefered, l, pt, buf, c, clst)
 	}
 
+	if blendMode == psd.BlendModePassThrough && len(l.Clip) > 0 {
+		// The backdrop is not a part of what layers are clipped by.
+		blendMode = psd.BlendModeNormal
+	}
+
 	ld := r.tree.layerImage[l.SeqID]
 	ldCanvas, ok := ld.Canvas[pt]
 	if len(l.Children) == 0 && !ok {
-- 
2.43.0


From 73cb4f0c59c01ac79eafe548fd39cfcb6d58881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:33 +0000
Subject: [PATCH 37/48] fix: composite: do not go beyond the last row while
 trimming the thumbnail

---
 composite/thumbnail.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/composite/thumbnail.go b/composite/thumbnail.go
index 1a9ff4a..a916635 100644
--- a/composite/thumbnail.go
+++ b/composite/thumbnail.go
@@ -60,9 +60,7 @@ func trimUnusedArea(src *image.NRGBA, threshold byte) {
 	s := d[stride*rect.Min.Y+rect.Min.X*4:]
 	w, h = rect.Dx()*4, rect.Dy()
 	for y := 0; y < h; y++ {
-		copy(d, s[:w])
-		d = d[w:]
-		s = s[stride:]
+		copy(d[y*w:], s[y*stride:y*stride+w])
 	}
 	src.Rect = rect
 	src.Stride = w
-- 
2.43.0


From 0d9c4aeceb675a485156fa33be3e92422725c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:23 +0000
Subject: [PATCH 38/48] fix: reject the image resources and layer info whose
 lengths are inconsistent

---
 imageres.go | 5 ++++-
 layer.go    | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/imageres.go b/imageres.go
index 6f40be2..0c742ba 100644
--- a/imageres.go
+++ b/imageres.go
@@ -33,7 +33,7 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 	// Image Resource Blocks
 	// http://www.adobe.com/devnet-apps/photoshop/fileformatashtml/#50577409_46269
 	var id int
-	for read < imageResourceLen {
+	for read < imageResourceLen+4 {
 		var res ImageResource
 
 		// Signature: '8BIM'
@@ -90,6 +90,9 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 		}
 		resMap[id] = res
 	}
+	if read != imageResourceLen+4 {
+		return nil, read, errors.New("psd: image resources read size mismatched. expected " + itoa(imageResourceLen+4) + " actual " + itoa(read))
+	}
 	if Debug != nil {
 		Debug.Println("end - image resources section")
 	}
diff --git a/layer.go b/layer.go
index 0db9724..01a4cde 100644
--- a/layer.go
+++ b/layer.go
@@ -436,6 +436,9 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions, nested bool) (lay
 		}
 		read += l
 	}
+	if layerInfoLen+intSize < read {
+		return nil, read, errors.New("psd: layer info read size mismatched. expected " + itoa(layerInfoLen+intSize) + " actual " + itoa(read))
+	}
 	// Discard any remaining data.
 	if layerInfoLen+intSize > read {
 		if l, err = discard(r, layerInfoLen+intSize-read); err != nil {
-- 
2.43.0


From ef31624c64509f49f6c1aa2c31a260dc7cea4e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 39/48] fix: lengths that do not fit in int on 32 bit platforms

---
 imageres.go |  4 ++--
 layer.go    | 16 ++++++++--------
 util.go     | 14 +++++++++++++-
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/imageres.go b/imageres.go
index 0c742ba..2b49719 100644
--- a/imageres.go
+++ b/imageres.go
@@ -23,7 +23,7 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 		return nil, 0, err
 	}
 	read += l
-	imageResourceLen := int(readUint32(b, 0))
+	imageResourceLen := readLen(b, 0, 4)
 	if imageResourceLen == 0 {
 		return map[int]ImageResource{}, read, nil
 	}
@@ -76,7 +76,7 @@ func readImageResource(r io.Reader) (resMap map[int]ImageResource, read int, err
 			return nil, read, err
 		}
 		read += l
-		if res.Data, err = readBytes(r, int(readUint32(b, 0))); err != nil {
+		if res.Data, err = readBytes(r, readLen(b, 0, 4)); err != nil {
 			return nil, read, err
 		}
 		l = len(res.Data)
diff --git a/layer.go b/layer.go
index 01a4cde..fbd4917 100644
--- a/layer.go
+++ b/layer.go
@@ -119,7 +119,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 		return nil, 0, err
 	}
 	read += l
-	layerAndMaskInfoLen := int(readUint(b, 0, intSize))
+	layerAndMaskInfoLen := readLen(b, 0, intSize)
 	if Debug != nil {
 		Debug.Println("  layerAndMaskInfoLen:", layerAndMaskInfoLen)
 		reportReaderPosition("  file offset: 0x%08x", r)
@@ -143,7 +143,7 @@ func readLayerAndMaskInfo(r io.Reader, cfg *Config, o *DecodeOptions) (psd *PSD,
 			return nil, read, err
 		}
 		read += l
-		if globalLayerMaskInfoLen := int(readUint32(b, 0)); globalLayerMaskInfoLen > 0 {
+		if globalLayerMaskInfoLen := readLen(b, 0, 4); globalLayerMaskInfoLen > 0 {
 			if Debug != nil {
 				Debug.Println("  globalLayerMaskInfoLen:", globalLayerMaskInfoLen)
 				reportReaderPosition("    file offset: 0x%08x", r)
@@ -288,7 +288,7 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions, nested bool) (lay
 		return nil, 0, err
 	}
 	read += l
-	layerInfoLen := int(readUint(b, 0, intSize))
+	layerInfoLen := readLen(b, 0, intSize)
 	if Debug != nil {
 		Debug.Println("  layerInfoLen:", layerInfoLen)
 	}
@@ -351,7 +351,7 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions, nested bool) (lay
 			read += l
 			lci.ChannelData[j] = channelData{
 				ChIndex: int(int16(readUint16(b, 0))),
-				DataLen: int(readUint(b, 2, intSize)),
+				DataLen: readLen(b, 2, intSize),
 			}
 		}
 		lcis[i] = lci
@@ -569,7 +569,7 @@ func readLayerExtraData(r io.Reader, layer *Layer, cfg *Config, o *DecodeOptions
 		return 0, err
 	}
 	read += l
-	extraDataLen := int(readUint32(b, 0))
+	extraDataLen := readLen(b, 0, 4)
 	if Debug != nil {
 		Debug.Println("  extraDataLen:", extraDataLen)
 	}
@@ -589,7 +589,7 @@ func readLayerExtraData(r io.Reader, layer *Layer, cfg *Config, o *DecodeOptions
 		return read, err
 	}
 	read += l
-	if blendingRangesLen := int(readUint32(b, 0)); blendingRangesLen > 0 {
+	if blendingRangesLen := readLen(b, 0, 4); blendingRangesLen > 0 {
 		if Debug != nil {
 			Debug.Println("  layer blending ranges data skipped:", blendingRangesLen)
 		}
@@ -639,7 +639,7 @@ func readLayerMaskAndAdjustmentLayerData(r io.Reader, layer *Layer, cfg *Config,
 	}
 	read += l
 
-	maskLen := int(readUint32(b, 0))
+	maskLen := readLen(b, 0, 4)
 	if maskLen == 0 {
 		// no layer mask
 		return read, nil
@@ -894,7 +894,7 @@ func readAdditionalLayerInfo(r io.Reader, infoLen int, cfg *Config, o *DecodeOpt
 			}
 			read += l
 			var data []byte
-			if ln := int(readUint(b, 0, intSize)); ln != 0 {
+			if ln := readLen(b, 0, intSize); ln != 0 {
 				if data, err = readBytes(r, ln); err != nil {
 					return nil, nil, read, err
 				}
diff --git a/util.go b/util.go
index dd07f59..127d474 100644
--- a/util.go
+++ b/util.go
@@ -69,6 +69,18 @@ func readUint(b []byte, offset int, size int) uint64 {
 	panic("psd: unexpected size")
 }
 
+// readLen reads the length of the data that follows.
+//
+// The length that does not fit in int becomes a length which is large enough
+// to reach the end of any data.
+func readLen(b []byte, offset int, size int) int {
+	const maxLen = int(^uint(0)>>1) - 16
+	if v := readUint(b, offset, size); v < uint64(maxLen) {
+		return int(v)
+	}
+	return maxLen
+}
+
 func readFloat32(b []byte, offset int) float32 {
 	return math.Float32frombits(readUint32(b, offset))
 }
@@ -88,7 +100,7 @@ func readUnicodeString(b []byte) string {
 	if len(b) < 4 {
 		return ""
 	}
-	ln := int(readUint32(b, 0))
+	ln := readLen(b, 0, 4)
 	if remain := (len(b) - 4) >> 1; ln > remain {
 		ln = remain
 	}
-- 
2.43.0


From 7ee3351d5328589dc91efa1312b32adb7b73c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 40/48] fix: image data whose size does not fit in int on 32
 bit platforms

---
 layer.go | 13 ++++++++-----
 psd.go   |  8 ++++++--
 util.go  | 12 ++++++++++++
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/layer.go b/layer.go
index fbd4917..972c046 100644
--- a/layer.go
+++ b/layer.go
@@ -455,8 +455,9 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions, nested bool) (lay
 
 // validLayerRect returns whether the size of r is acceptable as the image of the layer.
 func validLayerRect(r image.Rectangle) bool {
+	// The size is negative if it does not fit in int.
 	const maxSize = 300000
-	return r.Dx() <= maxSize && r.Dy() <= maxSize
+	return 0 <= r.Dx() && r.Dx() <= maxSize && 0 <= r.Dy() && r.Dy() <= maxSize
 }
 
 func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *DecodeOptions) (read int, err error) {
@@ -494,10 +495,11 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 			default:
 				rect = lci.Layer.Rect
 			}
-			if !validLayerRect(rect) {
+			dataLen := imageDataLen(rect, cfg.Depth, 1)
+			if !validLayerRect(rect) || dataLen < 0 {
 				return read, errors.New("psd: layer: " + itoa(i) + " channel: " + itoa(j.ChIndex) + " unexpected the size of the image")
 			}
-			data := make([]byte, (rect.Dx()*cfg.Depth+7)>>3*rect.Dy())
+			data := make([]byte, dataLen)
 			pk := findGrayPicker(cfg.Depth)
 			pk.setSource(rect, data)
 
@@ -537,10 +539,11 @@ func readLayerImage(lcis []layerChannelInfo, r io.Reader, cfg *Config, o *Decode
 		for j, data := range pickerChs {
 			if data == nil {
 				// There is no data for this color channel.
-				if !validLayerRect(lci.Layer.Rect) {
+				dataLen := imageDataLen(lci.Layer.Rect, cfg.Depth, 1)
+				if !validLayerRect(lci.Layer.Rect) || dataLen < 0 {
 					return read, errors.New("psd: layer: " + itoa(i) + " unexpected the size of the image")
 				}
-				pickerChs[j] = make([]byte, (lci.Layer.Rect.Dx()*cfg.Depth+7)>>3*lci.Layer.Rect.Dy())
+				pickerChs[j] = make([]byte, dataLen)
 			}
 		}
 		if alpha != nil {
diff --git a/psd.go b/psd.go
index 4f0fe1f..a7ad4e6 100644
--- a/psd.go
+++ b/psd.go
@@ -252,8 +252,12 @@ func Decode(r io.Reader, o *DecodeOptions) (psd *PSD, read int, err error) {
 	if !o.SkipMergedImage {
 		// allocate image buffer.
 		// `+7` and `>>3` is the padding for the 1bit depth color mode.
-		plane := (psd.Config.Rect.Dx()*psd.Config.Depth + 7) >> 3 * psd.Config.Rect.Dy()
-		psd.Data = make([]byte, plane*psd.Config.Channels)
+		dataLen := imageDataLen(psd.Config.Rect, psd.Config.Depth, psd.Config.Channels)
+		if dataLen < 0 {
+			return nil, read, errors.New("psd: unexpected the size of the image")
+		}
+		plane := dataLen / psd.Config.Channels
+		psd.Data = make([]byte, dataLen)
 		chs := make([][]byte, psd.Config.Channels)
 		psd.Channel = make(map[int]Channel)
 		for i := 0; i < psd.Config.Channels; i++ {
diff --git a/util.go b/util.go
index 127d474..b1db3d3 100644
--- a/util.go
+++ b/util.go
@@ -3,6 +3,7 @@ package psd
 import (
 	"bytes"
 	"errors"
+	"image"
 	"io"
 	"io/ioutil"
 	"math"
@@ -81,6 +82,17 @@ func readLen(b []byte, offset int, size int) int {
 	return maxLen
 }
 
+// imageDataLen returns the number of bytes in the image data of rect,
+// or -1 if it does not fit in int.
+func imageDataLen(rect image.Rectangle, depth int, channels int) int {
+	const maxLen = int64(int(^uint(0) >> 1))
+	ln := (int64(rect.Dx())*int64(depth) + 7) >> 3 * int64(rect.Dy())
+	if ln < 0 || ln > maxLen || ln*int64(channels) > maxLen {
+		return -1
+	}
+	return int(ln) * channels
+}
+
 func readFloat32(b []byte, offset int) float32 {
 	return math.Float32frombits(readUint32(b, offset))
 }
-- 
2.43.0


From a3b74af5c58b8ab0d8bced9da4ac09d7fffe9f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 41/48] fix: length of the PackBits data that does not fit in
 int on 32 bit platforms

---
 compress_other.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compress_other.go b/compress_other.go
index b755966..2e6d3b9 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -23,10 +23,13 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	ofs := 0
 	if large {
 		for i := range lens {
-			l = int(readUint32(buf, ofs))
+			l = readLen(buf, ofs, 4)
 			lens[i] = l
 			offsets[i] = total
-			total += l
+			if total += l; total < 0 {
+				// There is no data that is so long.
+				return read, errBrokenPackBits
+			}
 			ofs += 4
 		}
 	} else {
-- 
2.43.0


From 4f9db105bcee7fad2cc1bd0b14e9faf74efec701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 42/48] fix: allocate the buffer for PackBits data along with
 the data that was read on wasm

---
 compress_wasm_js.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/compress_wasm_js.go b/compress_wasm_js.go
index 8009a24..ead79d5 100644
--- a/compress_wasm_js.go
+++ b/compress_wasm_js.go
@@ -8,12 +8,12 @@ import (
 )
 
 func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool) (read int, err error) {
-	buf := make([]byte, lines*(get4or8(large)>>1))
 	var l int
-	if l, err = io.ReadFull(r, buf); err != nil {
+	buf, err := readBytes(r, lines*(get4or8(large)>>1))
+	if err != nil {
 		return
 	}
-	read += l
+	read += len(buf)
 
 	total := 0
 	lens := make([]int, lines)
@@ -37,11 +37,10 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		}
 	}
 
-	buf = make([]byte, total)
-	if l, err = io.ReadFull(r, buf); err != nil {
+	if buf, err = readBytes(r, total); err != nil {
 		return
 	}
-	read += l
+	read += len(buf)
 
 	err = decodePackBitsPerLine(dest, buf, lens)
 	return
-- 
2.43.0


From 794e9f8f02da94be6b218fcca0a467efd4db26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 43/48] fix: place each PackBits line at own position on wasm

---
 compress_wasm_js.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/compress_wasm_js.go b/compress_wasm_js.go
index ead79d5..fb0948c 100644
--- a/compress_wasm_js.go
+++ b/compress_wasm_js.go
@@ -42,10 +42,26 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 	}
 	read += len(buf)
 
-	err = decodePackBitsPerLine(dest, buf, lens)
+	if len(dest) < width*lines {
+		return read, errBrokenPackBits
+	}
+
+	err = decodePackBitsLines(dest, buf, width, offsets, lens)
 	return
 }
 
+// decodePackBitsLines decodes the lines into dest.
+// width is the number of bytes in a line, each line is placed at own position.
+func decodePackBitsLines(dest []byte, buf []byte, width int, offsets []int, lens []int) error {
+	for i, ln := range lens {
+		ofs := offsets[i]
+		if err := decodePackBitsPerLine(dest[i*width:(i+1)*width], buf[ofs:ofs+ln], lens[i:i+1]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func decodePackBitsPerLine(dest []byte, buf []byte, lens []int) error {
 	var l int
 	for _, ln := range lens {
-- 
2.43.0


From ad079b37d5592098421096078e18b3e7e01203df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 44/48] fix: count the no-op byte of PackBits in JavaScript

---
 compress.inc.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compress.inc.js b/compress.inc.js
index d44e57a..be6b2ec 100644
--- a/compress.inc.js
+++ b/compress.inc.js
@@ -31,6 +31,7 @@ $global['$github.com/oov/psd$'] = {
                 }
                 if (buf[ofs] == 0x80) {
                     ofs++;
+                    j++;
                     continue;
                 }
                 var l = 256 - buf[ofs++] + 1;
-- 
2.43.0


From ab5b4408fced2aaee7f7624c3b84ff2a78dea8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 45/48] fix: length of the PackBits data that does not fit in
 int on GopherJS

---
 compress.inc.js |  2 +-
 compress_js.go  | 21 +++++++++++----------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/compress.inc.js b/compress.inc.js
index be6b2ec..cd6f02d 100644
--- a/compress.inc.js
+++ b/compress.inc.js
@@ -1,7 +1,7 @@
 $global['$github.com/oov/psd$'] = {
     decodePackBitsLines: function(buf, lines, large) {
         var r = new Uint32Array(lines);
-        var lens = new DataView(buf.buffer);
+        var lens = new DataView(buf.buffer, buf.byteOffset, buf.byteLength);
         if (large) {
             for (var i = 0; i < lines; ++i) {
                 r[i] = lens.getUint32(i << 2, false);
diff --git a/compress_js.go b/compress_js.go
index 6cfe8d5..bd7a599 100644
--- a/compress_js.go
+++ b/compress_js.go
@@ -11,28 +11,29 @@ import (
 )
 
 func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool) (read int, err error) {
-	intSize := get4or8(large) >> 1
-	b := make([]byte, lines*intSize)
-	var l int
-	if l, err = io.ReadFull(r, b); err != nil {
+	b, err := readBytes(r, lines*(get4or8(large)>>1))
+	if err != nil {
 		return
 	}
-	read += l
+	read += len(b)
 
 	lens := js.Global.Get("$github.com/oov/psd$").Call("decodePackBitsLines", b, lines, large).Interface().([]uint)
 	if lens == nil {
 		return read, errors.New("psd: error occurred in decodePackBitsLines")
 	}
 
-	total := uint(0)
+	total := 0
 	for _, ln := range lens {
-		total += ln
+		if l := int(ln); l < 0 || total+l < 0 {
+			// There is no data that is so long.
+			return read, errBrokenPackBits
+		}
+		total += int(ln)
 	}
-	b = make([]byte, total)
-	if l, err = io.ReadFull(r, b); err != nil {
+	if b, err = readBytes(r, total); err != nil {
 		return
 	}
-	read += l
+	read += len(b)
 	if !js.Global.Get("$github.com/oov/psd$").Call("decodePackBits", dest, b, lens).Bool() {
 		return read, errors.New("psd: error occurred in decodePackBits")
 	}
-- 
2.43.0


From aa48e03af7001783db471f1f657b600e8c517d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 46/48] fix: place each PackBits line at own position on
 GopherJS

---
 compress.inc.js | 12 ++++++++----
 compress_js.go  |  5 ++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/compress.inc.js b/compress.inc.js
index cd6f02d..3c5e153 100644
--- a/compress.inc.js
+++ b/compress.inc.js
@@ -13,14 +13,18 @@ $global['$github.com/oov/psd$'] = {
         }
         return r;
     },
-    decodePackBits: function(dest, buf, lens) {
+    decodePackBits: function(dest, buf, lens, width) {
         var ofs = 0,
-            d = 0;
+            d = 0,
+            end = 0;
         for (var i = 0; i < lens.length; ++i) {
+            // Each line is placed at own position.
+            d = i * width;
+            end = d + width;
             for (var j = 0, ln = lens[i]; j < ln;) {
                 if (buf[ofs] <= 0x7f) {
                     var l = buf[ofs++] + 1;
-                    if (dest.length < d+l || ln-j-1 < l) {
+                    if (end < d+l || ln-j-1 < l) {
                         return false;
                     }
                     for (var k = 0; k < l; ++k) {
@@ -35,7 +39,7 @@ $global['$github.com/oov/psd$'] = {
                     continue;
                 }
                 var l = 256 - buf[ofs++] + 1;
-                if (dest.length < d+l || j+1 >= ln) {
+                if (end < d+l || j+1 >= ln) {
                     return false;
                 }
                 for (var k = 0, c = buf[ofs++]; k < l; ++k) {
diff --git a/compress_js.go b/compress_js.go
index bd7a599..9279a8c 100644
--- a/compress_js.go
+++ b/compress_js.go
@@ -34,7 +34,10 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 		return
 	}
 	read += len(b)
-	if !js.Global.Get("$github.com/oov/psd$").Call("decodePackBits", dest, b, lens).Bool() {
+	if len(dest) < width*lines {
+		return read, errBrokenPackBits
+	}
+	if !js.Global.Get("$github.com/oov/psd$").Call("decodePackBits", dest, b, lens, width).Bool() {
 		return read, errors.New("psd: error occurred in decodePackBits")
 	}
 	return
-- 
2.43.0


From 2a1a9b3e5dc75204bdad4376784770a712db650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:26 +0000
Subject: [PATCH 47/48] fix: reject PackBits rows whose total length overflows
 int on 32-bit platforms

---
 compress_other.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compress_other.go b/compress_other.go
index 2e6d3b9..45d0826 100644
--- a/compress_other.go
+++ b/compress_other.go
@@ -37,7 +37,10 @@ func decodePackBits(dest []byte, r io.Reader, width int, lines int, large bool)
 			l = int(readUint16(buf, ofs))
 			lens[i] = l
 			offsets[i] = total
-			total += l
+			if total += l; total < 0 {
+				// There is no data that is so long.
+				return read, errBrokenPackBits
+			}
 			ofs += 2
 		}
 	}
-- 
2.43.0


From 7e17a937539f305ba5d493547be517f7567cc3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 48/48] fix: grow the layers and channels along with the data
 instead of trusting their counts

---
 layer.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/layer.go b/layer.go
index 972c046..f20d086 100644
--- a/layer.go
+++ b/layer.go
@@ -316,14 +316,16 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions, nested bool) (lay
 		Debug.Println("  numLayers:", numLayers)
 	}
 
-	layerSlice := make([]Layer, numLayers)
-	lcis := make([]layerChannelInfo, numLayers)
-	for i := range layerSlice {
+	// The counts come from the file, so the slices grow along with the data
+	// that was actually read.
+	layerSlice := []Layer{}
+	lcis := []layerChannelInfo{}
+	for i := 0; i < int(numLayers); i++ {
 		if Debug != nil {
 			Debug.Printf("start - layer #%d structure", i)
 		}
+		layerSlice = append(layerSlice, Layer{SeqID: i})
 		layer := &layerSlice[i]
-		layer.SeqID = i
 
 		if l, err = io.ReadFull(r, b[:16]); err != nil {
 			return nil, read, err
@@ -340,21 +342,18 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions, nested bool) (lay
 		read += l
 		numChannels := int(readUint16(b, 0))
 
-		lci := layerChannelInfo{
-			Layer:       layer,
-			ChannelData: make([]channelData, numChannels),
-		}
+		var lci layerChannelInfo
 		for j := 0; j < numChannels; j++ {
 			if l, err = io.ReadFull(r, b[:2+intSize]); err != nil {
 				return nil, read, err
 			}
 			read += l
-			lci.ChannelData[j] = channelData{
+			lci.ChannelData = append(lci.ChannelData, channelData{
 				ChIndex: int(int16(readUint16(b, 0))),
 				DataLen: readLen(b, 2, intSize),
-			}
+			})
 		}
-		lcis[i] = lci
+		lcis = append(lcis, lci)
 
 		if l, err = io.ReadFull(r, b[:12]); err != nil {
 			return nil, read, err
@@ -430,6 +429,9 @@ func readLayerInfo(r io.Reader, cfg *Config, o *DecodeOptions, nested bool) (lay
 			Debug.Printf("end - layer #%d structure", i)
 		}
 	}
+	for i := range lcis {
+		lcis[i].Layer = &layerSlice[i]
+	}
 	if !o.SkipLayerImage {
 		if l, err = readLayerImage(lcis, r, cfg, o); err != nil {
 			return nil, read, err
-- 
2.43.0

