package main

// Hooks of the instrumented library; nil when the harness was built against the library as it is.
var (
	setOrder func(f func(site, n int) []int)
	setYield func(f func())
)
