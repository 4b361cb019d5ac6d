//go:build !race && vfsched

package main

const raceMode = false
