#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "documents written by an encoder that is independent of the decoder"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration"):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], technique=technique, note=note, level=level))

NOTE = "Held on the executions of the run only; the oracle is the independent model in harness/, which is trusted. "

prop("P01", "The decoded header, palette and image resources equal those of the file",
 "For every valid PSD or PSB file, decoding only the configuration and decoding the whole document both report the version, canvas size, number of channels, bit depth, color mode, color mode data, palette (of indexed images) and transparency index that are in the file. Every image resource appears under its ID with its exact name and bytes, in whatever order and number they are, of even and odd lengths.",
 ["inputs"], "all valid headers x color mode data x sets of image resources",
 "Tests open two sample files; sizes, modes, names and lengths of the other files are unbounded.",
 ["psd.go", "imageres.go", "colormode.go"],
 [("header and color mode data", "psd.go DecodeConfig"), ("resource blocks", "imageres.go"), ("palette", "psd.go Config.Palette")],
 "runtime monitor: decode generated documents and compare all observable fields with the model that wrote them",
 NOTE + "Resource names are ASCII or arbitrary bytes.")

prop("P02", "The merged image has exactly the pixels stored in the file",
 "For every supported color mode, bit depth, compression method and canvas size, of both PSD and PSB, the merged image that is returned has the bounds of the canvas, the raw samples of each channel that were stored, and at each pixel the color these samples denote (including palette lookup, inverted CMYK ink, bitmap and alpha when the merged image has transparency).",
 ["inputs", "configurations"], "all color modes x depths x compression methods x sizes x sample values x number of CPUs used",
 "Tests compare a few sample images; most of mode/depth/compression combinations are never decoded, and bugs depend on sizes and values.",
 ["psd.go", "picker.go", "compress.go", "util.go"],
 [("merged image", "psd.go Decode"), ("color of a pixel", "picker.go"), ("decompression", "compress.go")],
 "runtime monitor: compare all bytes and all pixels of generated merged images with the model",
 NOTE + "Only modes the decoder supports.")

prop("P03", "The layer tree and all layer properties equal those of the file",
 "For every valid file, the layers form exactly the folder tree the file describes, in the order of the file, and each of them has the rectangle, name, unicode name, blend mode, opacity, clipping, flags, visibility, folder state, layer ID, channel list, mask parameters and additional information blocks that are stored, however many blocks there are and however they are padded. A file whose folder markers are not balanced is rejected rather than decoded into a different tree.",
 ["inputs"], "all layer structures x properties x additional information",
 "The sample files contain a few layers; nesting, padding, masks and rare blocks are combinations no sample covers.",
 ["layer.go", "psd.go", "blendmode.go"],
 [("layer records", "layer.go"), ("folder structure", "layer.go"), ("additional layer information", "layer.go, psd.go")],
 "runtime monitor: compare the decoded tree and all fields with the model that wrote the document",
 NOTE)

prop("P04", "Layer pixels and masks are exactly those stored in the file",
 "For every layer of every supported color mode, depth and compression method, the samples of each channel including transparency and user masks are exactly the stored ones, with the sizes and positions given by the layer and the mask rectangles. The composed picture of the layer shows at each pixel the color and alpha these channels denote, and a layer without pixels is reported as such.",
 ["inputs", "configurations"], "all layer sizes x positions x channel sets x depths x compression methods x sample values",
 "Tests compare a few layers of sample files; each channel has its own compression and size.",
 ["layer.go", "picker.go", "compress.go"],
 [("channel data", "layer.go"), ("color of a pixel", "picker.go"), ("decompression", "compress.go")],
 "runtime monitor: compare all channels and all pixels with the model that wrote the document", NOTE)

prop("P05", "Decompression inverts compression for all methods, depths and sizes",
 "Decompressing data that was written by raw, run-length (PackBits), ZIP or ZIP with prediction compression returns exactly the original samples, for all depths, dimensions, numbers of channels and both sizes of the row length table, whatever packets the compressor chose. The number of consumed bytes is exact, damaged or truncated data gives an error or some data but never a crash, a hang or a write beyond the destination.",
 ["inputs"], "all planes x methods x depths x packet choices; damaged variants of them",
 "The tests decode a few fixed images and compressors are free to choose any packets.",
 ["compress.go", "compress_other.go"],
 [("methods", "compress.go CompressionMethod.Decode"), ("PackBits", "compress.go, compress_other.go"), ("prediction", "compress.go")],
 "runtime monitor: compress random planes with an independent encoder that randomizes packets, decode, compare bytes, consumption and canaries",
 NOTE + "Consumption is exact on success for raw, RLE and ZIP with the size hint.")

prop("P06", "No input makes decoding panic, hang or return an inconsistent result",
 "For every byte sequence, decoding returns in bounded time with an error or with a document, and never panics. All operations on a document that was returned (walking layers, reading any pixel, names, palette, masks, channels) are safe too.",
 ["inputs"], "all byte sequences; sampled as structured and unstructured mutations of valid documents",
 "Tests only decode well-formed samples.",
 ["psd.go", "layer.go", "imageres.go", "compress.go", "picker.go"],
 [("validation of fields", "psd.go, layer.go, imageres.go, compress.go")],
 "runtime monitor: hostile mutations of every field, panic/hang/crash detection in worker processes, walk over accepted results",
 NOTE + "Canvas size of hostile inputs is limited so that the legitimate pixel memory fits in the sandbox.")

prop("P07", "Memory use is bounded by the input and the declared image size",
 "The memory allocated while decoding is bounded by a constant factor of the bytes really present in the input plus the pixels that the header and layer rectangles declare. A length or count field that claims more data than the input has does not make the decoder allocate that amount.",
 ["inputs"], "all length and count fields x huge values",
 "Tests do not measure memory nor decode files that lie about lengths.",
 ["psd.go", "layer.go", "imageres.go", "compress.go", "util.go"],
 [("incremental reads", "util.go"), ("length checks", "psd.go, layer.go, imageres.go, compress.go")],
 "runtime monitor: allocation metering of the real decoder while each length field is set to large values", NOTE)

prop("P08", "The result does not depend on how the reader delivers the bytes",
 "Decoding the same bytes gives the same document, the same byte count and the same success or failure whether the reader delivers everything at once, one byte at a time, in random pieces, together with the end-of-file indication, or supports seeking (at any initial position). Options that skip parts of a file do not change this.",
 ["inputs", "schedules"], "all documents (valid and malformed) x all ways of delivery the reader contract allows",
 "Tests only read from files.",
 ["psd.go", "layer.go", "imageres.go", "util.go", "compress.go"],
 [("complete reads", "util.go"), ("skipping", "util.go")],
 "runtime monitor: differential decoding through 12 kinds of conforming readers", NOTE)

prop("P09", "Decoding is race free and independent of the number of CPUs",
 "Decoding the same bytes gives the same document and pixels for any number of CPUs the program may use, and in any number of goroutines at the same time, even if nothing was decoded before. No data race occurs while doing so, nor while a decoded document is read concurrently. No goroutine is left behind, whether the decoding succeeds or not.",
 ["schedules", "configurations", "inputs"], "all documents x GOMAXPROCS x interleavings of concurrent decoders and readers",
 "Tests run with one setting, and parallel code paths are taken only for some sizes.",
 ["compress.go", "compress_other.go", "psd.go", "picker.go"],
 [("row parallelism", "compress_other.go"), ("read only pickers", "picker.go")],
 "runtime monitor: race detector plus differential decoding under GOMAXPROCS values and concurrent decoding",
 NOTE + "The race detector observes the interleavings that occurred.")

prop("P10", "A truncated file is never decoded as if it were complete",
 "For every valid document and every proper prefix of it, decoding reports an error, whatever options are used, as long as the missing part is one that decoding has to read.",
 ["crash_points", "inputs"], "all cut points of generated documents",
 "Tests never truncate files.",
 ["psd.go", "layer.go", "imageres.go", "util.go", "compress.go"],
 [("complete reads", "util.go"), ("skipping", "util.go")],
 "runtime monitor: decode all the prefixes and require an error", NOTE + "Cuts inside a ZIP compressed merged image are excluded: its stream may already hold all the data.", "fault_enumeration")

prop("P11", "Exactly the bytes of the document are consumed and reported",
 "On success, decoding the configuration or the document consumes from the reader exactly the bytes of that part and reports that number, so that documents placed back to back in a stream are decoded one after another. The standard image registration (configuration and image by format detection) gives the same picture and configuration as direct decoding.",
 ["inputs", "histories"], "sequences of documents in a stream x options",
 "Tests decode a file per reader and do not check counts over a variety.",
 ["psd.go", "layer.go", "imageres.go", "util.go", "compress.go"],
 [("counting of bytes", "all reading functions"), ("image.RegisterFormat", "psd.go")],
 "runtime monitor: offset accounting of a recording reader over streams of several documents",
 NOTE + "A ZIP compressed merged image is excluded: the decompressor may read ahead.")

prop("P12", "Options only skip what they say; callbacks see every loaded layer once",
 "Skipping the layers or the merged image leaves everything else of the result unchanged. The configuration callback is called exactly once, after the configuration and before anything else is read, and an error it returns aborts decoding with that error. The layer callback is called exactly once for each layer record in the order of the file, with the complete layer, its index and the total, and installing logging or callbacks does not change the result.",
 ["configurations", "inputs", "histories"], "documents x all combinations of options x failing callbacks",
 "Tests use one set of options.",
 ["psd.go", "layer.go"],
 [("options", "psd.go DecodeOptions"), ("callbacks", "layer.go")],
 "runtime monitor: event log of callbacks checked against the model, differential decoding over options", NOTE)

prop("P13", "An I/O error of the reader is reported, at whatever byte it occurs",
 "If the reader fails with an error at any offset that decoding has to read, decoding fails, and the error it returns is the reader's error or wraps it. It never returns success with data missing.",
 ["fault_sequences", "inputs"], "documents x offsets of the fault x kinds of errors and readers",
 "Tests have no failing readers.",
 ["psd.go", "layer.go", "imageres.go", "util.go", "compress.go"],
 [("error returns", "all reading functions")],
 "runtime monitor: fault injection at and inside of each field, the returned error is inspected", NOTE, "fault_enumeration")

prop("P14", "Invalid and unsupported files are rejected with an error",
 "A file with a wrong signature, version, zero or excessive size or number of channels, a depth or color mode that is invalid or not supported, a wrong block signature, an unknown compression method, inconsistent section lengths or unbalanced folders is never decoded successfully.",
 ["inputs"], "valid documents x ways to make them invalid",
 "Tests have no invalid samples.",
 ["psd.go", "layer.go", "imageres.go", "compress.go", "colormode.go"],
 [("validation", "psd.go, layer.go, imageres.go, compress.go")],
 "runtime monitor: each way of invalidation applied to random valid documents, an error is required", NOTE)

prop("B01", "Each blend mode computes its formula on every pixel",
 "For every pair of pixels and every mask value, each of the blend modes gives the color and alpha of the W3C/PDF compositing equation with the formula of that mode (separable or not), within rounding of 8 bit arithmetic. This holds equally for premultiplied and straight alpha images and for images of other types, with and without mask.",
 ["inputs"], "all colors x alphas x masks x modes x image types",
 "Tests compare one picture per mode with tolerance; rare values (extremes, low alpha) do not appear.",
 ["blend/zblends.go", "blend/genblend.go", "blend/util.go", "blend/draw.go"],
 [("formulas", "blend/genblend.go, blend/zblends.go"), ("division and multiplication tables", "blend/zdivtable.go")],
 "runtime monitor: each drawn pixel compared with the equation evaluated in real numbers with a derived error interval",
 NOTE + "Premultiplied images have valid pixels.")

prop("B02", "Porter-Duff operators compute their coverage equations on every pixel",
 "For every pair of pixels and every mask value, each of the Porter-Duff operators gives the color and alpha of its coverage equation, within rounding of 8 bit arithmetic, for all combinations of image types. An alpha-only image is treated as black with that coverage.",
 ["inputs"], "all colors x alphas x operators x image types",
 "Tests compare one picture per operator.",
 ["blend/zporterduffs.go", "blend/genporterduff.go", "blend/zrgba2nrgbatable.go"],
 [("operators", "blend/genporterduff.go, blend/zporterduffs.go")],
 "runtime monitor: each drawn pixel compared with the equation evaluated in real numbers", NOTE)

prop("B03", "Drawing modifies exactly the requested region, aligned as requested",
 "Drawing with any rectangle, source point and mask point changes only pixels of the rectangle clipped to the destination, the source and the mask, and each pixel there combines the destination with the source and mask pixels at the same displacement. Sub-images, any strides and origins including negative ones give the same result, and nothing outside is written or read.",
 ["inputs"], "all rectangles x origins x strides x image types x modes",
 "Tests draw one full picture.",
 ["blend/draw.go", "blend/zblends.go", "blend/zporterduffs.go"],
 [("clipping", "blend/draw.go"), ("row loops", "blend/zblends.go, blend/zporterduffs.go")],
 "runtime monitor: region calls compared with per-pixel calls, canary bytes outside", NOTE)

prop("B04", "Drawing is race free, independent of CPUs, and safe on the same image",
 "The result of drawing is the same for any number of CPUs, and concurrent drawing to different images or to disjoint parts of an image is free of data races. This includes the first draws of a process. A draw is complete when it returns, and leaves no goroutine behind. If the source is the destination image itself, the result is as if the source had been copied before.",
 ["schedules", "configurations", "inputs"], "calls x GOMAXPROCS x interleavings x overlapping self-draws",
 "Tests draw with one setting and never draw an image to itself.",
 ["blend/draw.go", "blend/util.go", "blend/zblends.go", "blend/zporterduffs.go"],
 [("row parallelism", "blend/util.go"), ("direction of the self-draw", "blend/draw.go")],
 "runtime monitor: race detector plus differential drawing under GOMAXPROCS values and goroutines",
 NOTE + "Self-draw is by the same image value; masks that share memory with the destination are excluded.")

prop("B05", "Alpha laws hold for every blend mode and every pixel",
 "For every blend mode: a fully transparent source or mask leaves the destination pixel as it is; the resulting alpha is the union of both alphas and never less than either (so an opaque destination stays opaque); drawing on a fully transparent destination gives the source color; premultiplied results are valid. The protect-alpha variants never change the alpha of the destination.",
 ["inputs"], "all colors x alphas x masks x modes",
 "Tests compare one picture per mode.",
 ["blend/zblends.go", "blend/genblend.go", "blend/draw.go"],
 [("alpha computation", "blend/zblends.go")],
 "runtime monitor: laws asserted on each drawn pixel", NOTE)

prop("K01", "Every color value converts to a valid color with the meaning of its samples",
 "For every value of the color types, including NaN, infinities and out-of-range floats, the standard conversion returns a valid alpha-premultiplied color, whose components never exceed its alpha. For ordinary values it is the color that the samples denote, within rounding.",
 ["inputs"], "all values of the color types",
 "There are no tests for colors.",
 ["color/color.go"], [("RGBA methods", "color/color.go")],
 "runtime monitor: validity and reference computation asserted on random and special values", NOTE)

prop("K02", "Color models convert to their own type, idempotently, keeping the color",
 "Each color model converts every color to a value of its own type, returns values that already have this type unchanged, and converting twice gives the same as converting once. The converted color shows the same color as the original, within the precision of the target type, and gray models take its luminance.",
 ["inputs"], "all color models x all kinds of colors",
 "There are no tests for colors.",
 ["color/color.go"], [("models", "color/color.go")],
 "runtime monitor: laws asserted on conversions between all types", NOTE + "Input colors are valid.")

prop("M01", "Incremental rendering equals rendering from scratch after any edits",
 "After any sequence of changing visibility, opacity, blend mode, mask state and the grouping of clipped layers and reporting those layers as dirty, incremental rendering gives exactly the picture that a newly created tree with the same state gives. This holds whatever was rendered or canceled in between and whichever of several renderers and clones is used.",
 ["histories", "inputs"], "documents x sequences of edits, renderings and cancellations",
 "There is no test of edits; invalidation depends on the position of the layer in nested, clipped and pass-through groups.",
 ["composite/renderer.go", "composite/layer.go", "composite/layerimage.go"],
 [("dirty propagation", "composite/renderer.go SetDirtyByLayer"), ("tile cache", "composite/renderer.go")],
 "runtime monitor: history driver with an oracle that renders a fresh tree after each step", NOTE)

prop("M02", "The composite picture equals the layer model evaluated per pixel",
 "The rendered picture equals, at every pixel, the evaluation of the layer stack bottom to top: each visible layer, folder, pass-through folder and clipping group blended with its mode, opacity and mask onto what is below. It does not depend on the tile size, the number of CPUs, or the position and size of the destination image.",
 ["inputs", "configurations", "schedules"], "documents x tile sizes x CPUs x destinations",
 "Tests render nothing offline; the interplay of folders, clipping, masks and tile borders is combinatorial.",
 ["composite/renderer.go", "composite/layerimage.go", "composite/layer.go"],
 [("group rendering", "composite/renderer.go"), ("tiles", "composite/layerimage.go")],
 "runtime monitor: all pixels compared with an independent untiled compositor over generated documents",
 NOTE + "8-bit RGB; the reference uses the blend package, which B01-B05 decide. Groups with 'blend clipped layers' disabled are excluded (documented TODO).")

prop("M03", "Composite operations are race free and cancellation safe",
 "Rendering, marking layers as dirty, cloning, transforming and making thumbnails of one tree from several goroutines causes no data race, never deadlocks, gives correct pictures and loses no dirty mark, even one made while a rendering is in progress. An operation that is canceled or whose reader fails returns promptly with an abort or reader error or completes correctly, leaves no goroutine behind, and the tree renders correctly afterwards.",
 ["schedules", "fault_sequences", "histories"], "documents x interleavings x cancellation points x reader faults",
 "Tests are sequential and never cancel.",
 ["composite/context.go", "composite/layer.go", "composite/renderer.go", "composite/thumbnail.go", "composite/layerimage.go"],
 [("parallel context", "composite/context.go"), ("pipeline of New", "composite/layer.go")],
 "runtime monitor: race detector, goroutine leak and deadlock watch, differential rendering under injected cancellations",
 NOTE + "The race detector observes the interleavings that occurred.")

prop("M04", "Clones are equal to the original and independent of it",
 "A clone of a layer tree has the same structure, fields and picture as the original at the time of cloning. Editing and rendering either of them afterwards never affects the other.",
 ["histories", "inputs"], "documents x sequences of cloning, editing and rendering",
 "There is no test of cloning.",
 ["composite/cloner.go", "composite/layer.go"], [("deep copy", "composite/cloner.go")],
 "runtime monitor: history driver over up to 4 trees, each compared with its own model after each step", NOTE)

prop("M05", "Transforming moves pixels and masks where the matrix says",
 "Transforming a tree, while loading or afterwards or twice, by flips, quarter turns and translations moves each pixel of each layer and mask exactly to the place the matrix gives, and other affine matrices resample them: inside of the transformed shape each pixel is the bilinear mean of the pixels around the place it comes from, of light as the gamma says if one is given, and outside of it is transparent. The canvas rectangle becomes the transformed one, and the original tree and the given options are not modified.",
 ["inputs", "configurations"], "documents x matrices x gamma x tile sizes",
 "Tests transform nothing offline.",
 ["composite/layer.go", "composite/layerimage.go"],
 [("transformation of tiles", "composite/layerimage.go"), ("rectangles", "composite/layer.go")],
 "runtime monitor: transformed renderings compared pixel by pixel with the relocated reference picture",
 NOTE + "Exactness is claimed for lattice matrices with binary alpha; for others within 4 levels inside of the transformed canvas, 2 pixels away from the borders of layers and masks.")

prop("M06", "Thumbnails show the trimmed layer, fitted in the requested square",
 "For each layer with pixels, the thumbnail is the layer picture trimmed of fully transparent margins and reduced to fit the requested size with its aspect ratio, and one at a time or all together give the same images. The thumbnail sheet contains each of them at the rectangle it reports, inside of the sheet and not overlapping. Moving or cloning the tree and changing how layers are shown make no difference, and a buffer that is given for temporary use is not written beyond its length.",
 ["inputs", "configurations"], "documents x sizes x tile sizes",
 "There is no test of thumbnails.",
 ["composite/thumbnail.go"], [("trimming and scaling", "composite/thumbnail.go"), ("packing", "composite/thumbnail.go")],
 "runtime monitor: thumbnails compared with the reduction of an independently trimmed picture; layout invariants of the sheet",
 NOTE + "The scaler library is not available offline: a stand-in with the same interface takes its place on both sides.")

prop("M07", "The composite layer tree mirrors the document",
 "The tree that is built for compositing has the same layers, identifiers, order, nesting, parents, names, folder states, visibility, opacity, blend modes, mask states and clipping groups as the document. The unicode name is used if there is one, and other names are decoded with the encoding the detector chooses, which is given all of such names.",
 ["inputs", "configurations"], "documents x options",
 "There is no test of the tree.",
 ["composite/layer.go"], [("construction of the tree", "composite/layer.go New")],
 "runtime monitor: all fields and links compared with the model that wrote the document", NOTE)

prop("E01", "The exporter writes each layer of the document to its own file",
 "The command line exporter writes, for every layer with pixels of a decodable file, exactly one PNG file named after its position in the tree, whose pixels are those of the layer, without overwriting files of other layers, and exits successfully. It prints the path of names of each such layer with the name of its file. Files of an earlier run are replaced entirely. For a damaged file, or when a picture can not be written, it reports the failure by its exit status.",
 ["inputs"], "documents given to the command",
 "The command has no test.",
 ["psdexporter/main.go"], [("walk over the layers", "psdexporter")],
 "runtime monitor: run the built command in a scratch directory and compare all files with the model", NOTE)

XNOTE = NOTE + "Platforms: linux/386, GOOS=js GOARCH=wasm under node, and the files for GopherJS built by the ordinary compiler with node executing the JavaScript part (GopherJS itself is not available here). "

prop("X01", "Decoding, blending and colors behave the same on 32-bit platforms",
 "The guarantees of decoding, blending and color conversion hold unchanged on platforms whose int has 32 bits: the same pictures and fields, and a file whose lengths or sizes exceed the range of int is rejected with an error, without a panic, a wrong picture, or reading wrong data.",
 ["inputs", "configurations"], "all inputs of the other properties on GOARCH=386",
 "Tests run on the 64 bit platform of the developer only; overflows depend on the values.",
 ["psd.go", "layer.go", "imageres.go", "compress_other.go", "util.go", "blend/draw.go", "blend/util.go", "color/color.go"],
 [("lengths and sizes", "util.go readLen, imageDataLen"), ("PackBits row lengths", "compress_other.go")],
 "runtime monitor: the monitors and oracles of the other checks over a 32 bit build", XNOTE)

prop("X02", "Compositing behaves the same on 32-bit platforms",
 "The guarantees of compositing (pictures, incremental rendering, clones, transformations, thumbnails, concurrency) hold unchanged on platforms whose int has 32 bits.",
 ["inputs", "configurations", "histories"], "all documents and histories of the other properties on GOARCH=386",
 "Tests run on the 64 bit platform of the developer only.",
 ["composite/renderer.go", "composite/layerimage.go", "composite/layer.go", "composite/context.go"],
 [("tiles and rectangles", "composite/layerimage.go"), ("atomic state", "composite/context.go")],
 "runtime monitor: the monitors and oracles of the other checks over a 32 bit build", XNOTE)

prop("X03", "Decoding, blending and colors behave the same in WebAssembly",
 "The guarantees of decoding, blending and color conversion hold unchanged in WebAssembly, which has its own PackBits decoder: the same pictures and fields, and the same rejection of damaged data, without a panic or allocation of memory that the data only claims to need.",
 ["inputs", "configurations"], "all inputs of the other properties on GOOS=js GOARCH=wasm",
 "Files for WebAssembly are not even compiled when tests run.",
 ["compress_wasm_js.go", "compress.go", "psd.go", "layer.go", "blend/draw.go", "color/color.go"],
 [("PackBits decoder of WebAssembly", "compress_wasm_js.go")],
 "runtime monitor: the monitors and oracles of the other checks over a WebAssembly build under node", XNOTE)

prop("X04", "Compositing behaves the same in WebAssembly",
 "The guarantees of compositing (pictures, incremental rendering, clones, transformations, thumbnails) hold unchanged in WebAssembly, where goroutines share one thread: in particular no operation depends on real parallelism to finish.",
 ["inputs", "configurations", "histories", "schedules"], "all documents and histories of the other properties on GOOS=js GOARCH=wasm",
 "Files for WebAssembly are not even compiled when tests run.",
 ["composite/renderer.go", "composite/layerimage.go", "composite/layer.go", "composite/context.go"],
 [("parallel context", "composite/context.go")],
 "runtime monitor: the monitors and oracles of the other checks over a WebAssembly build under node", XNOTE)

prop("X05", "The GopherJS variant of PackBits decoding equals the native one",
 "The decoder that is used under GopherJS, a part of which is written in JavaScript, gives the same pictures, consumes the same number of bytes, and rejects the same damaged data as the native one for every valid packet sequence of PackBits and every length.",
 ["inputs", "configurations"], "all inputs of the decoding properties with the files for GopherJS",
 "Files for GopherJS are not even compiled when tests run.",
 ["compress_js.go", "compress.inc.js"],
 [("lengths of rows", "compress_js.go, compress.inc.js decodePackBitsLines"), ("packets", "compress.inc.js decodePackBits")],
 "runtime monitor: the monitors and oracles of the decoding checks over a build of the GopherJS files with node executing their JavaScript", XNOTE)

prop("X06", "The code the generators write draws what the committed code should draw",
 "Running the generators of the blend package (go generate) succeeds, and the package with the files they write compiles and satisfies the properties of blending: each pixel of every blend mode and Porter-Duff operator, regions, and laws of alpha. The next regeneration therefore neither loses what is in the committed files nor changes results.",
 ["inputs"], "all inputs of the blending properties with regenerated files",
 "Generators have the build constraint that ignores them; no test compiles or runs them.",
 ["blend/genblend.go", "blend/genporterduff.go", "blend/gendivtable.go", "blend/genrgba2nrgba.go", "blend/util.go"],
 [("template of blend modes", "blend/genblend.go"), ("template of operators", "blend/genporterduff.go")],
 "runtime monitor: run the generators in a scratch copy, build the result, and execute it under the monitors and oracles of the blending checks", NOTE)

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
m = dict(version=1, setup_cmd="./check.sh build", checks=[
    dict(property=p["id"], quick_cmd="./check.sh %s" % p["id"],
         thorough_cmd="VERIF_TIER=thorough ./check.sh %s" % p["id"],
         technique=p["technique"], level=p["level"], level_note=p["note"].strip()) for p in P],
    not_applicable=[], notes="No hooks: all monitors observe the public API of the packages built from /repo's working tree.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
