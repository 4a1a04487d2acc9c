// Package props has the properties and their scenarios.
package props

import (
	"os"
	"path/filepath"

	"vh/mc"
)

// All is the list of properties.
var All []*mc.Prop

func reg(p *mc.Prop) { All = append(All, p) }

func thorough(tier string) bool { return tier == "thorough" }

// pick returns bound for the tier.
func pick[T any](tier string, q, t T) T {
	if tier == "thorough" {
		return t
	}
	return q
}

// scratchDir makes scratch directory of the execution.
func scratchDir(c *mc.C) string {
	var base = os.TempDir()
	if fi, err := os.Stat("/dev/shm"); err == nil && fi.IsDir() {
		base = "/dev/shm"
	}
	var d, err = os.MkdirTemp(base, "vhs")
	if err != nil {
		if d, err = os.MkdirTemp("", "vhs"); err != nil {
			panic(err)
		}
	}
	c.Defer(func() { os.RemoveAll(d) })
	return filepath.ToSlash(d)
}

var cacheDir string

// cached returns path to the file with given content, that is made once
// by the process. It's removed together with work directory of the check.
func cached(name string, content func() []byte) string {
	if cacheDir == "" {
		var err error
		if cacheDir, err = os.MkdirTemp("", "cache"); err != nil {
			panic(err)
		}
	}
	var fpath = filepath.Join(cacheDir, name)
	if _, err := os.Stat(fpath); err != nil {
		if err = os.WriteFile(fpath, content(), 0644); err != nil {
			panic(err)
		}
	}
	return filepath.ToSlash(fpath)
}

// Helper runs helper process.
func Helper(args []string) {}
