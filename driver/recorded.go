package main

// Transmissions that were received from real aircraft (copies of the files of the folder example of the repository).

import (
	"embed"
	"encoding/hex"
	"strings"
)

//go:embed recordings/*.txt
var recordings embed.FS

// recordedLines gives the lines of a recording
func recordedLines(name string) []string {
	b, err := recordings.ReadFile("recordings/" + name + ".txt")
	if err != nil {
		panic(err)
	}
	return strings.Fields(string(b))
}

// recorded gives the transmissions of all the recordings, once each
func recorded() [][]byte {
	r := [][]byte{}
	seen := map[string]bool{}
	for _, name := range []string{"one", "two"} {
		for _, l := range recordedLines(name) {
			b, err := hex.DecodeString(l)
			if err != nil {
				panic(err)
			}
			if !seen[l] {
				seen[l] = true
				r = append(r, b)
			}
		}
	}
	return r
}
