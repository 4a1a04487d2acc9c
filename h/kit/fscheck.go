package kit

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"
)

// Tree is reference file tree: relative file name to content.
type Tree map[string]string

// Dirs returns all directories of the tree, "." is first.
func (t Tree) Dirs() []string {
	var set = map[string]bool{".": true}
	for name := range t {
		for d := path.Dir(name); d != "."; d = path.Dir(d) {
			set[d] = true
		}
	}
	var res []string
	for d := range set {
		res = append(res, d)
	}
	sort.Strings(res)
	return res
}

// IsDir tells whether it's directory of the tree.
func (t Tree) IsDir(dir string) bool {
	if dir == "." {
		return true
	}
	for name := range t {
		if strings.HasPrefix(name, dir+"/") {
			return true
		}
	}
	return false
}

// Sub returns the tree under given directory.
func (t Tree) Sub(dir string) Tree {
	if dir == "." {
		return t
	}
	var res = Tree{}
	for name, data := range t {
		if strings.HasPrefix(name, dir+"/") {
			res[name[len(dir)+1:]] = data
		}
	}
	return res
}

type treeEnt struct {
	name string
	dir  bool
	size int
}

// list returns sorted content of directory.
func (t Tree) list(dir string) (res []treeEnt) {
	var seen = map[string]bool{}
	for name, data := range t.Sub(dir) {
		if i := strings.IndexByte(name, '/'); i >= 0 {
			if !seen[name[:i]] {
				seen[name[:i]] = true
				res = append(res, treeEnt{name[:i], true, 0})
			}
		} else {
			res = append(res, treeEnt{name, false, len(data)})
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].name < res[j].name })
	return
}

func cmpInfo(fi fs.FileInfo, name string, dir bool, size int) error {
	if fi == nil {
		return fmt.Errorf("no file information")
	}
	if name != "." && fi.Name() != name {
		return fmt.Errorf("name is %q, want %q", fi.Name(), name)
	}
	if fi.IsDir() != dir || fi.Mode().IsDir() != dir || (!dir && !fi.Mode().IsRegular()) {
		return fmt.Errorf("%q: directory is %v, mode is %v, want directory %v", name, fi.IsDir(), fi.Mode(), dir)
	}
	if !dir && fi.Size() != int64(size) {
		return fmt.Errorf("%q: size is %d, want %d", name, fi.Size(), size)
	}
	return nil
}

func cmpList(list []fs.DirEntry, want []treeEnt) error {
	var got, exp []string
	for _, de := range list {
		got = append(got, de.Name())
	}
	for _, e := range want {
		exp = append(exp, e.name)
	}
	if len(got) != len(exp) {
		return fmt.Errorf("directory lists %q, want %q", got, exp)
	}
	for i, de := range list {
		var e = want[i]
		if got[i] != e.name {
			return fmt.Errorf("directory lists %q, want %q", got, exp)
		}
		var typ fs.FileMode
		if e.dir {
			typ = fs.ModeDir
		}
		if de.IsDir() != e.dir || de.Type() != typ {
			return fmt.Errorf("directory entry %q: directory is %v, type is %v, want directory %v", e.name, de.IsDir(), de.Type(), e.dir)
		}
		var fi, err = de.Info()
		if err != nil {
			return err
		}
		if err = cmpInfo(fi, e.name, e.dir, e.size); err != nil {
			return err
		}
	}
	return nil
}

// checkPages reads directory by pages of given size.
func checkPages(fsys fs.FS, dir string, want []treeEnt, first, page int) error {
	var open = func() (fs.ReadDirFile, error) {
		var f, err = fsys.Open(dir)
		if err != nil {
			return nil, err
		}
		var df, ok = f.(fs.ReadDirFile)
		if !ok {
			return nil, fmt.Errorf("is not opened as directory")
		}
		return df, nil
	}
	var df, err = open()
	if err != nil {
		return err
	}
	defer df.Close()
	other, err := open()
	if err != nil {
		return err
	}
	defer other.Close()
	var rest = want
	var n = first
	for k := 0; ; k++ {
		var list, err = df.ReadDir(n)
		if n <= 0 {
			if err != nil {
				return fmt.Errorf("rest of directory: %w", err)
			}
			if err = cmpList(list, rest); err != nil {
				return fmt.Errorf("rest of directory: %w", err)
			}
			rest = nil
			if k > 0 {
				break
			}
			n = page
			continue
		}
		if len(rest) == 0 {
			if err != io.EOF || len(list) > 0 {
				return fmt.Errorf("after the end of directory: %d entries, error %v", len(list), err)
			}
			break
		}
		var m = n
		if m > len(rest) {
			m = len(rest)
		}
		if err != nil && err != io.EOF {
			return err
		}
		if err == io.EOF && m < len(rest) || err == io.EOF && len(list) == 0 {
			return fmt.Errorf("end of directory is reported before the end")
		}
		if err = cmpList(list, rest[:m]); err != nil {
			return fmt.Errorf("page #%d of %d entries: %w", k, n, err)
		}
		rest = rest[m:]
		n = page
		if k > 3*len(want)+8 {
			return fmt.Errorf("endless directory")
		}
	}
	// other handle has own position
	var list, err2 = other.ReadDir(-1)
	if err2 != nil {
		return err2
	}
	if err = cmpList(list, want); err != nil {
		return fmt.Errorf("second handle: %w", err)
	}
	return nil
}

// checkReadDirN checks that it returns the first n entries of directory.
func checkReadDirN(fsys fs.FS, name string, want []treeEnt) error {
	var read func(n int) ([]fs.DirEntry, error)
	switch x := fsys.(type) {
	case *wpk.Package:
		read = func(n int) ([]fs.DirEntry, error) { return x.FTT.ReadDirN(x.FullPath(name), n) }
	case *wpk.Union:
		read = func(n int) ([]fs.DirEntry, error) { return x.ReadDirN(name, n) }
	default:
		return nil
	}
	for n := -1; n <= len(want)+2; n++ {
		var m = n
		if n <= 0 || n > len(want) {
			m = len(want)
		}
		var list, err = read(n)
		if err != nil && (n <= len(want) || err != io.EOF) {
			return fmt.Errorf("first %d entries: %w", n, err)
		}
		if err = cmpList(list, want[:m]); err != nil {
			return fmt.Errorf("first %d entries: %w", n, err)
		}
	}
	return nil
}

// CheckFS compares file system with the reference tree. Probes are names
// to look at, in addition to all that are in the tree.
func CheckFS(fsys wpk.CompleteFS, t Tree, probes, patterns []string) error {
	var names []string
	var seen = map[string]bool{}
	var add = func(s string) {
		if !seen[s] {
			seen[s] = true
			names = append(names, s)
		}
	}
	for _, d := range t.Dirs() {
		add(d)
		if d != "." {
			add(d + "x")
			add(d[:len(d)-1])
			add(d + "/")
			add(d + "/nope")
		}
	}
	for name := range t {
		add(name)
		add(name + "/x")
		add(name[:len(name)-1])
	}
	for _, s := range probes {
		add(s)
	}
	sort.Strings(names)
	for _, name := range names {
		if name == "" {
			continue
		}
		if err := checkName(fsys, t, name); err != nil {
			return fmt.Errorf("%q: %w", name, err)
		}
		if strings.Contains(name, "/") { // the other kind of slashes
			if err := checkName(fsys, t, strings.ReplaceAll(name, "/", "\\")); err != nil {
				return fmt.Errorf("%q: %w", strings.ReplaceAll(name, "/", "\\"), err)
			}
		}
	}
	return checkWalkGlob(fsys, t, patterns)
}

// checkWalkGlob walks by all the tree, and looks for files by patterns.
func checkWalkGlob(fsys wpk.CompleteFS, t Tree, patterns []string) error {
	// walking
	var got, want []string
	var err = fs.WalkDir(fsys, ".", func(fpath string, d fs.DirEntry, err error) error {
		if err != nil {
			return fmt.Errorf("walking at %q: %w", fpath, err)
		}
		got = append(got, fmt.Sprintf("%s %v", fpath, d.IsDir()))
		return nil
	})
	if err != nil {
		return err
	}
	var walk func(dir string)
	walk = func(dir string) {
		want = append(want, dir+" true")
		for _, e := range t.list(dir) {
			var p = e.name
			if dir != "." {
				p = dir + "/" + p
			}
			if e.dir {
				walk(p)
			} else {
				want = append(want, p+" false")
			}
		}
	}
	walk(".")
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("walking gives %q, want %q", got, want)
	}
	// patterns
	for _, p := range patterns {
		var want []string
		var sp = Slash(p)
		var _, bad = path.Match(sp, "x")
		for name := range t {
			if ok, _ := path.Match(sp, name); ok {
				want = append(want, name)
			}
		}
		var got, err = fsys.Glob(p)
		if (err != nil) != (bad != nil) || (bad != nil && !errors.Is(err, path.ErrBadPattern)) {
			return fmt.Errorf("pattern %q: error is %v, want %v", p, err, bad)
		}
		if err != nil {
			continue
		}
		got = append([]string{}, got...)
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, "|") != strings.Join(want, "|") || len(got) != len(want) {
			return fmt.Errorf("pattern %q: %q, want %q", p, got, want)
		}
	}
	return nil
}

func notExist(err error, what string) error {
	if err == nil {
		return fmt.Errorf("%s of missing name succeeds", what)
	}
	if !errors.Is(err, fs.ErrNotExist) {
		return fmt.Errorf("%s of missing name: error is '%v'", what, err)
	}
	return nil
}

// checkName compares everything that can be seen by one name.
func checkName(fsys wpk.CompleteFS, t Tree, name string) (err error) {
	var key = Slash(name)
	var data, isfile = t[key]
	var isdir = t.IsDir(key)
	var base = path.Base(key)
	switch {
	case isfile:
		var f fs.File
		if f, err = fsys.Open(name); err != nil {
			return
		}
		defer f.Close()
		var fi fs.FileInfo
		if fi, err = f.Stat(); err != nil {
			return
		}
		if err = cmpInfo(fi, base, false, len(data)); err != nil {
			return fmt.Errorf("stat of open file: %w", err)
		}
		var b []byte
		if b, err = io.ReadAll(f); err != nil {
			return
		}
		if string(b) != data {
			return fmt.Errorf("open file has content %s, want %s", cut(b), cut([]byte(data)))
		}
		if b, err = fsys.ReadFile(name); err != nil {
			return
		}
		if string(b) != data {
			return fmt.Errorf("file read whole has content %s, want %s", cut(b), cut([]byte(data)))
		}
		for i := range b {
			b[i] ^= 0xff // it's a copy
		}
		if b, err = fsys.ReadFile(name); err != nil || string(b) != data {
			return fmt.Errorf("changing of the content that was read changes the file")
		}
		if fi, err = fsys.Stat(name); err != nil {
			return
		}
		if err = cmpInfo(fi, base, false, len(data)); err != nil {
			return fmt.Errorf("stat: %w", err)
		}
		if _, err = fsys.ReadDir(name); err == nil {
			return fmt.Errorf("file is read as directory")
		}
		if _, err = fsys.Sub(name); err == nil {
			return fmt.Errorf("file is opened as sub-view")
		}
		return nil
	case isdir:
		var want = t.list(key)
		var f fs.File
		if f, err = fsys.Open(name); err != nil {
			return
		}
		var fi fs.FileInfo
		if fi, err = f.Stat(); err != nil {
			return
		}
		if err = cmpInfo(fi, base, true, 0); err != nil {
			return fmt.Errorf("stat of open directory: %w", err)
		}
		if err = f.Close(); err != nil {
			return
		}
		if fi, err = fsys.Stat(name); err != nil {
			return fmt.Errorf("stat of directory: %w", err)
		}
		if err = cmpInfo(fi, base, true, 0); err != nil {
			return fmt.Errorf("stat of directory: %w", err)
		}
		var list []fs.DirEntry
		if list, err = fsys.ReadDir(name); err != nil {
			return
		}
		if err = cmpList(list, want); err != nil {
			return
		}
		if _, err = fsys.ReadFile(name); err == nil {
			return fmt.Errorf("directory is read as file")
		}
		if key == name { // pages
			if err = checkReadDirN(fsys, name, want); err != nil {
				return
			}
			for n := -1; n <= len(want)+1; n++ {
				if err = checkPages(fsys, name, want, n, n); err != nil {
					return fmt.Errorf("reading by %d: %w", n, err)
				}
			}
			if err = checkPages(fsys, name, want, 1, 2); err != nil {
				return fmt.Errorf("reading by 1 and 2: %w", err)
			}
			if err = checkPages(fsys, name, want, 1, -1); err != nil {
				return fmt.Errorf("reading 1 and the rest: %w", err)
			}
		}
		return nil
	}
	if _, err = fsys.Open(name); err != nil {
		err = notExist(err, "open")
	} else {
		err = fmt.Errorf("open of missing name succeeds")
	}
	if err != nil {
		return
	}
	_, err = fsys.Stat(name)
	if err = notExist(err, "stat"); err != nil {
		return
	}
	_, err = fsys.ReadFile(name)
	if err = notExist(err, "whole-file read"); err != nil {
		return
	}
	_, err = fsys.ReadDir(name)
	if err = notExist(err, "directory read"); err != nil {
		return
	}
	_, err = fsys.Sub(name)
	return notExist(err, "sub-view")
}
