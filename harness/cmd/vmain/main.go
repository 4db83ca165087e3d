// Command vmain decides properties of psd, blend, color and psdexporter.
package main

import (
	"math/rand"

	"github.com/oov/psd"

	"verif/psdgen"
	"verif/vk"
)

func main() { vk.Main(checks()) }

const docRule = "each case is a random document (color mode x depth x compression x PSD/PSB x layers/folders/masks/names/resources) written by an independent encoder; the signature is the hash of the input bytes; a case is non-trivial if the decoder was called with those bytes and its result was compared; "

// decodeSubs are checks that are also executed on other architectures.
// Cases choose modes by their number, and therefore the length is a prime number.
var decodeSubs = []string{
	"P01", "P02", "P03", "P04", "P05", "P06", "P05", "P08", "P07", "P02", "P10", "P04", "P11", "P06", "P12", "P05", "P13", "P06", "P14", "P07",
	"K01", "K02", "B01", "B02", "B03", "B05", "B01", "B02", "P03",
}

// genSubs are checks of what is generated.
var genSubs = []string{"B01", "B02", "B03", "B05", "B01"}

// jsSubs do not include P07: memory that is used to call JavaScript is not the one of the decoder.
var jsSubs = []string{"P05", "P02", "P06", "P05", "P13", "P05", "P04", "P05", "P03", "P06", "P10", "P05", "P08", "P12", "P05", "P02", "P05"}

func checks() []*vk.Check {
	layered := []int{psdgen.Grayscale, psdgen.RGB, psdgen.CMYK}
	return []*vk.Check{
		{
			ID: "P01", Level: "exploration", Quick: 4000, Thorough: 60000, Rule: docRule + "config and resources",
			Case: caseConfig,
		},
		{
			ID: "P02", Level: "exploration", Quick: 5000, Thorough: 60000, Rule: docRule + "all bytes of the merged image, all pixels of all pickers",
			Case:        fidelity(aMerged, psdgen.Opt{MaxDim: 40, MaxLayers: 1, Big: true}, func(r *rand.Rand) *psd.DecodeOptions { return skipSome(r, true, false) }, false),
			MinCounters: map[string]int{"psb": 100},
		},
		{
			ID: "P03", Level: "exploration", Quick: 8000, Thorough: 100000, Rule: docRule + "the tree and all fields of all layers; one in four documents has its folder markers removed or duplicated",
			Case: caseTree, MinCounters: map[string]int{"unbalanced": 50, "folders": 500},
		},
		{
			ID: "P04", Level: "exploration", Quick: 4000, Thorough: 50000, Rule: docRule + "all bytes and all pixels of all channels of all layers",
			Case: fidelity(aLayerPixels, psdgen.Opt{MaxDim: 24, MaxLayers: 5, ForceLayer: true, Modes: layered, Big: true, Extreme: true},
				func(r *rand.Rand) *psd.DecodeOptions { return skipSome(r, false, true) }, false),
			MinCounters: map[string]int{"layer channels": 5000},
		},
		{
			ID: "P05", Level: "exploration", Quick: 12000, Thorough: 150000, Rule: "each case compresses random planes (method x depth x size x channels x PSD/PSB) with an independent encoder and decodes them, then decodes broken and truncated variants; non-trivial: at least a byte of data",
			Case: caseCompress,
		},
		{
			ID: "P06", Level: "exploration", Quick: 4000, Thorough: 60000, Rule: "each case mutates a random document at known fields (lengths, counts, enums, rectangles, signatures) and at random bytes, or mutates a sample file; non-trivial: a distinct mutated input",
			Case: caseHostile, Init: loadTestdata, MinCounters: map[string]int{"accepted": 1000, "rejected": 10000},
		},
		{
			ID: "P07", Level: "exploration", Quick: 3000, Thorough: 15000, Rule: "each case sets each kind of length and count fields of a random document to large values and measures allocated bytes; non-trivial: a distinct document",
			Case: caseAlloc, Assumptions: []string{"memory for pixels of the declared size of the image and layers is legitimate"},
		},
		{
			ID: "P08", Level: "exploration", Quick: 1500, Thorough: 12000, Rule: docRule + "decoded from 17 kinds of readers, and compared with the decoding from the memory; malformed inputs too; the signature includes the kind of the reader",
			Case: caseReaders, Init: loadTestdata,
		},
		{
			ID: "P09", Level: "exploration", Quick: 250, Thorough: 4000, Rule: docRule + "decoded with 10 values of GOMAXPROCS and concurrently, under the race detector",
			Case: caseProcs, Init: loadTestdata, Race: true, Shards: 4,
		},
		{
			ID: "P10", Level: "fault_enumeration", Quick: 500, Thorough: 4000, Rule: docRule + "all prefixes of each document (all the field boundaries of larger ones) are decoded",
			Case: casePrefix, MinCounters: map[string]int{"prefixes": 100000},
			Assumptions: []string{"a prefix of a ZIP compressed merged image that already inflates to the whole image is out of scope"},
		},
		{
			ID: "P11", Level: "exploration", Quick: 2500, Thorough: 40000, Rule: docRule + "2-4 documents in a stream",
			Case: caseConsume,
		},
		{
			ID: "P12", Level: "exploration", Quick: 2500, Thorough: 40000, Rule: docRule + "all combinations of options with callbacks that record events",
			Case: caseOptions, MinCounters: map[string]int{"layer callbacks": 1000},
		},
		{
			ID: "P13", Level: "fault_enumeration", Quick: 1200, Thorough: 20000, Rule: docRule + "a fault of the reader is injected at each field boundary and inside of each field",
			Case: caseFaults, MinCounters: map[string]int{"faults": 50000},
		},
		{
			ID: "P14", Level: "exploration", Quick: 3000, Thorough: 40000, Rule: "each case makes a valid document invalid in each of the listed ways; non-trivial: a distinct invalid input",
			Case: caseReject,
		},
		{
			ID: "B01", Level: "exploration", Quick: 27 * 3500, Thorough: 27 * 40000, Rule: "each case draws random images (6 combinations of types of source, destination and mask) with a blend mode; each pixel is compared with the ideal function in real numbers; non-trivial: a distinct combination of mode, call and pixels",
			Case: caseBlend, Assumptions: []string{"premultiplied images have valid pixels"},
		},
		{
			ID: "B02", Level: "exploration", Quick: 12 * 12000, Thorough: 12 * 60000, Rule: "as B01 with the Porter-Duff operators (10 combinations per case)",
			Case: casePorterDuff, Assumptions: []string{"premultiplied images have valid pixels", "an alpha image is a black image on RGBA and NRGBA as reference images of the tests say"},
		},
		{
			ID: "B03", Level: "exploration", Quick: 39 * 2000, Thorough: 39 * 20000, Rule: "each case is 6 calls with random regions, origins and strides; the result is compared with calls for each of the pixels, and all the bytes beyond that must not be modified; non-trivial: a distinct call",
			Case: caseRegion, MinCounters: map[string]int{"pixels inside": 100000, "pixels outside": 100000, "nothing to draw": 100},
		},
		{
			ID: "B04", Level: "exploration", Quick: 39 * 40, Thorough: 39 * 1000, Rule: "each case is 3 calls that are executed with 7 values of GOMAXPROCS, by goroutines concurrently and with the source that is the destination, under the race detector; non-trivial: a distinct call",
			Case: caseBlendSchedule, Race: true, Shards: 4, MinCounters: map[string]int{"self draws": 5000, "first draws of a process": 200},
		},
		{
			ID: "B05", Level: "exploration", Quick: 27 * 7000, Thorough: 27 * 40000, Rule: "each case draws random images (4 combinations of types) with a blend mode; the laws are evaluated for each of the pixels; non-trivial: a distinct call",
			Case: caseAlphaLaws, MinCounters: map[string]int{"no coverage": 10000, "opaque destination": 10000, "opaque source": 10000},
		},
		{
			ID: "K01", Level: "exploration", Quick: 4000, Thorough: 100000, Rule: "each case is 200 random colors of the package, including all kinds of special floating-point numbers; non-trivial: a distinct color",
			Case: caseColorRGBA,
		},
		{
			ID: "K02", Level: "exploration", Quick: 3000, Thorough: 80000, Rule: "each case converts 60 random colors of 17 types with all the models; non-trivial: a distinct pair of a color and a model",
			Case: caseColorModel, Assumptions: []string{"colors to convert are valid premultiplied colors"}, MinCounters: map[string]int{"own type": 1000},
		},
		{
			ID: "E01", Level: "exploration", Quick: 1200, Thorough: 20000, Rule: docRule + "given to the psdexporter command in a scratch directory; all files and all pixels are compared; non-trivial: a distinct document with a layer to export",
			Case: caseExport, MinCounters: map[string]int{"files": 500, "truncated": 50},
		},
		{
			ID: "X01", Level: "exploration", Quick: 6000, Thorough: 80000, Arch: "386",
			Rule: "cases of the other checks of decoding, blending and colors are executed by a 32 bit (GOARCH=386) build of the code with the oracles of these checks; non-trivial: as in those checks",
			Case: vk.OnArch(checks, decodeSubs...), MinCounters: map[string]int{"executed on 386": 1000},
		},
		{
			ID: "X03", Level: "exploration", Quick: 1500, Thorough: 20000, Arch: "wasm", HangSec: 120,
			Rule: "cases of the other checks of decoding, blending and colors are executed by a WebAssembly (GOOS=js) build of the code under node with the oracles of these checks; non-trivial: as in those checks",
			Case: vk.OnArch(checks, decodeSubs...), MinCounters: map[string]int{"executed on wasm": 1000},
		},
		{
			ID: "X06", Level: "exploration", Quick: 30000, Thorough: 600000, Arch: "generated",
			Rule: "cases of the checks of blending are executed by a build whose generated files are what the generators of the current tree write, with the oracles of these checks; non-trivial: as in those checks",
			Case: vk.OnArch(checks, genSubs...), MinCounters: map[string]int{"executed on generated": 5000},
		},
		{
			ID: "X05", Level: "exploration", Quick: 2500, Thorough: 40000, Arch: "gopherjs", HangSec: 120,
			Rule: "cases of the other checks of decoding are executed by a 32 bit build of the files that GopherJS chooses, whose JavaScript part (compress.inc.js) is executed by node, with the oracles of these checks; non-trivial: as in those checks",
			Case: vk.OnArch(checks, jsSubs...), MinCounters: map[string]int{"executed on gopherjs": 1000, "calls of JavaScript": 10000},
		},
	}
}
