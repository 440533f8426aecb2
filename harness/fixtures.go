package main

import (
	"os"
	"path/filepath"
	"sort"
	"sync"
)

var fixtureOnce sync.Once
var fixtureSrc []string
var fixtureName []string

// fixtures are the pages of the repository's own corpus.
func fixtures() ([]string, []string) {
	fixtureOnce.Do(func() {
		ms, _ := filepath.Glob("/repo/testdata/test-pages/*/source.html")
		sort.Strings(ms)
		for _, m := range ms {
			if b, err := os.ReadFile(m); err == nil {
				fixtureSrc = append(fixtureSrc, string(b))
				fixtureName = append(fixtureName, filepath.Base(filepath.Dir(m)))
			}
		}
	})
	return fixtureName, fixtureSrc
}
