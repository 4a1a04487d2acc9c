package kit

import (
	"fmt"

	"github.com/schwarzlichtbezirk/wpk"
)

// Counts are numbers of files around of the limits that code can depend on.
func Counts(small, max int) (res []int) {
	for n := 0; n <= small; n++ {
		res = append(res, n)
	}
	for _, n := range []int{63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000, 10001, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 131073} {
		if n > small && n <= max {
			res = append(res, n)
		}
	}
	return
}

// ManyName is the name of i-th file of large package: some are at the root, the
// others are at directories with different number of files.
func ManyName(i int) string {
	switch i % 5 {
	case 0:
		return fmt.Sprintf("f%d", i)
	case 1, 2:
		return fmt.Sprintf("big/f%d", i)
	case 3:
		return fmt.Sprintf("d%d/e/f%d", i%50, i)
	}
	return fmt.Sprintf("Mixed/%d.txt", i)
}

// ManyData is content of i-th file of large package.
func ManyData(i int) []byte {
	if i%7 == 0 {
		return nil
	}
	return []byte(fmt.Sprintf("%d:content", i))[:1+i%9]
}

// CheckLarge compares file system that has large directories with the tree.
func CheckLarge(fsys wpk.CompleteFS, t Tree, patterns []string) error {
	var dirs = t.Dirs()
	if len(dirs) > 12 { // the largest are among the first and the last
		dirs = append(append(dirs[:6:6], "big", "Mixed", "x"), dirs[len(dirs)-3:]...)
	}
	for _, dir := range dirs {
		if !t.IsDir(dir) {
			continue
		}
		var want = t.list(dir)
		var list, err = fsys.ReadDir(dir)
		if err == nil {
			err = cmpList(list, want)
		}
		if err != nil {
			return short(fmt.Errorf("directory %q of %d: %w", dir, len(want), err))
		}
		var pages = []int{len(want) - 1, len(want), len(want) + 1, 255, 256, 257, 1000}
		if len(want) < 300 {
			pages = append(pages, 1, 2, 7, 63, 64, 65, 127, 128)
		}
		for _, page := range pages {
			if page <= 0 || len(want)/page > 400 {
				continue
			}
			for _, first := range []int{page, 1, -1}[:3-min(2, len(want)/2000)] {
				if err = checkPages(fsys, dir, want, first, page); err != nil {
					return short(fmt.Errorf("directory %q of %d: %w", dir, len(want), err))
				}
			}
		}
		if len(want) < 300 {
			if err = checkReadDirN(fsys, dir, want); err != nil {
				return short(fmt.Errorf("directory %q of %d: %w", dir, len(want), err))
			}
		}
	}
	for name, data := range t {
		var b, err = fsys.ReadFile(name)
		if err != nil || string(b) != data {
			return fmt.Errorf("reading of %q: %q, error %v, want %q", name, b, err, data)
		}
		fi, err := fsys.Stat(name)
		if err != nil {
			return fmt.Errorf("stat of %q: %w", name, err)
		}
		if fi.Size() != int64(len(data)) || fi.IsDir() {
			return fmt.Errorf("stat of %q: size is %d, directory %v", name, fi.Size(), fi.IsDir())
		}
	}
	return short(checkWalkGlob(fsys, t, patterns))
}

func short(err error) error {
	if err != nil && len(err.Error()) > 600 {
		return fmt.Errorf("%s...", err.Error()[:600])
	}
	return err
}

// ManyTree is the tree of n files.
func ManyTree(n int) Tree {
	var t = Tree{}
	for i := 0; i < n; i++ {
		t[ManyName(i)] = string(ManyData(i))
	}
	return t
}
