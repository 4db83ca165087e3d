// Command vcomp decides properties of composite.
package main

import "verif/vk"

func main() { vk.Main(checks()) }

const compRule = "each case is a random RGB document (folders, pass-through, clipping groups, masks, all blend modes, opacity, layers outside of the canvas) written by an independent encoder; "

// compSubs are checks that are also executed on other architectures.
var compSubs = []string{"M01", "M02", "M05", "M03", "M04", "M06", "M07"}

func checks() []*vk.Check {
	return []*vk.Check{
		{
			ID: "M01", Level: "exploration", Quick: 12000, Thorough: 150000,
			Rule: compRule + "4-13 steps of edits, SetDirtyByLayer, RenderDiff, Render, canceled rendering and Clone; all pixels are compared with a tree created from scratch after each of renderings; non-trivial: a distinct pair of document and history",
			Case: caseHistory,
		},
		{
			ID: "M02", Level: "exploration", Quick: 20000, Thorough: 300000,
			Rule: compRule + "rendered with 3 pairs of a tile size and GOMAXPROCS, and compared with an independent compositor that has no tile; non-trivial: a distinct combination with a visible pixel",
			Case: caseReference,
		},
		{
			ID: "M05", Level: "exploration", Quick: 15000, Thorough: 150000,
			Rule: compRule + "transformed by New and Transform",
			Case: caseTransform,
		},
		{
			ID: "M03", Level: "exploration", Quick: 1500, Thorough: 20000, Race: true, Shards: 4,
			Rule: compRule + "used by several goroutines, canceled at random points, read from readers that cancel or fail, under the race detector",
			Case: caseConcurrent, MinCounters: map[string]int{"first trees of a process": 24},
		},
		{
			ID: "M04", Level: "exploration", Quick: 10000, Thorough: 100000,
			Rule: compRule + "histories of cloning, editing and rendering up to 4 trees",
			Case: caseClone,
		},
		{
			ID: "M06", Level: "exploration", Quick: 15000, Thorough: 150000,
			Rule: compRule + "thumbnails of all the layers",
			Case: caseThumbnail,
		},
		{
			ID: "M07", Level: "exploration", Quick: 16000, Thorough: 200000,
			Rule: compRule + "all fields and links of the tree",
			Case: caseTreeShape,
		},
		{
			ID: "X02", Level: "exploration", Quick: 3000, Thorough: 60000, Arch: "386",
			Rule: "cases of the checks of compositing are executed by a 32 bit (GOARCH=386) build of the code with the oracles of these checks; non-trivial: as in those checks",
			Case: vk.OnArch(checks, compSubs...), MinCounters: map[string]int{"executed on 386": 1000},
		},
		{
			ID: "X04", Level: "exploration", Quick: 800, Thorough: 15000, Arch: "wasm", HangSec: 120,
			Rule: "cases of the checks of compositing are executed by a WebAssembly (GOOS=js) build of the code under node with the oracles of these checks; non-trivial: as in those checks",
			Case: vk.OnArch(checks, compSubs...), MinCounters: map[string]int{"executed on wasm": 500},
		},
	}
}
