// Package downscale is a stand-in for github.com/oov/downscale, which is not
// available offline. Only the function used by github.com/oov/psd/composite is
// provided: an alpha weighted box filter.
package downscale

import (
	"context"
	"image"
)

// NRGBAFast resizes src to the size of dest.
func NRGBAFast(ctx context.Context, dest *image.NRGBA, src *image.NRGBA) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	dw, dh := dest.Rect.Dx(), dest.Rect.Dy()
	sw, sh := src.Rect.Dx(), src.Rect.Dy()
	if dw <= 0 || dh <= 0 || sw <= 0 || sh <= 0 {
		return nil
	}
	for y := 0; y < dh; y++ {
		y0, y1 := y*sh/dh, (y+1)*sh/dh
		if y1 <= y0 {
			y1 = y0 + 1
		}
		for x := 0; x < dw; x++ {
			x0, x1 := x*sw/dw, (x+1)*sw/dw
			if x1 <= x0 {
				x1 = x0 + 1
			}
			var r, g, b, a, n uint64
			for sy := y0; sy < y1; sy++ {
				for sx := x0; sx < x1; sx++ {
					p := src.Pix[sy*src.Stride+sx*4:]
					al := uint64(p[3])
					r += uint64(p[0]) * al
					g += uint64(p[1]) * al
					b += uint64(p[2]) * al
					a += al
					n++
				}
			}
			d := dest.Pix[y*dest.Stride+x*4:]
			if a == 0 {
				d[0], d[1], d[2], d[3] = 0, 0, 0, 0
				continue
			}
			d[0], d[1], d[2], d[3] = uint8(r/a), uint8(g/a), uint8(b/a), uint8(a/n)
		}
	}
	return nil
}
