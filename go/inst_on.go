//go:build vhinst

package main

import "github.com/acronis/go-raml/v2/vhhook"

// The library under test was instrumented by an overlay (see instr).

func init() {
	setOrder = func(f func(site, n int) []int) { vhhook.Order = f }
	setYield = func(f func()) { vhhook.Yield = f }
}
