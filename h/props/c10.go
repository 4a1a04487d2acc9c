package props

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

var c10patterns = []string{"*", "*/*", "*/*/*", "d*", "d/*", `d\*`, "?", "??", "[ab]", "[^a]", "*/a", "*a*", "d/e/*", "nope", "a", "d/a", "[", "*[", "a[]", "d/[a-b]", ""}

// viewsOf calls f for the file system and all its sub-views, direct and nested.
func viewsOf(c *mc.C, root wpk.CompleteFS, t kit.Tree, f func(what string, fsys wpk.CompleteFS, t kit.Tree)) {
	f("root", root, t)
	for _, d := range t.Dirs() {
		var sub, err = root.Sub(d)
		if err != nil {
			c.Fail("sub-view of %q: %v", d, err)
		}
		var sfs, ok = sub.(wpk.CompleteFS)
		if !ok {
			c.Fail("sub-view of %q is not the file system with all the interfaces", d)
		}
		f(fmt.Sprintf("sub-view %q", d), sfs, t.Sub(d))
		if d == "." {
			continue
		}
		for _, d2 := range t.Sub(d).Dirs() {
			var sub2, err = sfs.Sub(d2)
			if err != nil {
				c.Fail("sub-view of %q at sub-view %q: %v", d2, d, err)
			}
			f(fmt.Sprintf("sub-view %q of sub-view %q", d2, d), sub2.(wpk.CompleteFS), t.Sub(d).Sub(d2))
		}
	}
}

// packTree makes package with files packed in given order, and opens it.
func packTree(c *mc.C, split bool, names []string, t kit.Tree) (w *kit.World) {
	w = kit.NewWorld(split)
	c.NoErr(w.Begin(), "begin")
	for _, name := range names {
		var _, err = w.Pkg.PackData(w.DataFile(), bytes.NewReader([]byte(t[name])), name)
		c.NoErr(err, "pack")
	}
	c.NoErr(w.Pkg.Sync(w.WPT, w.Second()), "finalize")
	w.Pkg = wpk.NewPackage()
	c.NoErr(kit.OpenMem(w.Pkg, w.WPT.Buf), "reopen")
	w.Pkg.Tagger = &kit.MemTagger{Data: w.Dat()}
	return
}

func checkEnum(c *mc.C, what string, pkg *wpk.Package, t kit.Tree) {
	var got, want []string
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		got = append(got, fkey)
		return true
	})
	for name := range t {
		want = append(want, name)
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) || len(got) != len(want) {
		c.Fail("%s: enumeration gives %q, want %q", what, got, want)
	}
	for i := range want { // enumeration can be stopped
		var n int
		pkg.Enum(func(string, wpk.TagsetRaw) bool {
			n++
			return n <= i
		})
		if n != i+1 {
			c.Fail("%s: enumeration stopped at %d has %d calls", what, i+1, n)
		}
	}
	for _, name := range want {
		if full := pkg.FullPath(name); pkg.TrimPath(full) != name {
			c.Fail("%s: full path of %q is %q, trimmed back to %q", what, name, full, pkg.TrimPath(full))
		}
	}
	if ws := pkg.Workspace; ws != "." && ws != "" {
		for _, s := range []string{ws + "x/y", "zz", ws[:len(ws)-1] + "/q", ws + "x"} {
			if r := pkg.TrimPath(s); r != "" {
				c.Fail("%s: path %q out of workspace %q is trimmed to %q", what, s, ws, r)
			}
		}
		if pkg.TrimPath(ws) != "." {
			c.Fail("%s: path of workspace %q is trimmed to %q", what, ws, pkg.TrimPath(ws))
		}
	}
}

func c10tree(names []string, mask int) (list []string, t kit.Tree) {
	t = kit.Tree{}
	for i, s := range names {
		if mask>>i&1 != 0 {
			list = append(list, s)
			t[s] = fmt.Sprintf("<%s>", s)
			if i%4 == 3 {
				t[s] = ""
			}
		}
	}
	return
}

// c10odd: names with empty, '.' and '..' parts, they are possible at packages,
// but they can not be presented at directory listings.
func c10odd(tier string) mc.Scenario {
	var odd = []string{"/a", "//d/b", "d//b", "./a", "../a", "d/", "/", "..", ".", "", "d/.", "d/./b", "d/../b", "d/e//", "...", "d/.../x", "d/..x"}
	var good = []string{"a", "d/b", "d/e/f"}
	return mc.Scenario{Name: "improper names", ShardDepth: 2, Run: func(c *mc.C) {
		var split, union = c.Bool(), c.Bool()
		var t = kit.Tree{}
		var list []string
		var add = func(s string) {
			if _, ok := t[s]; !ok {
				list = append(list, s)
				t[s] = fmt.Sprintf("<%s>", s)
			}
		}
		var mask = c.Choose(8)
		for n := pick(tier, 2, 3); n > 0; n-- {
			if k := c.Choose(len(odd) + 1); k > 0 {
				add(odd[k-1])
			}
		}
		for i, s := range good {
			if mask>>i&1 != 0 {
				add(s)
			}
		}
		c.Logf("packed %q, union %v", list, union)
		var pkg = packTree(c, split, list, t).Pkg
		var top wpk.CompleteFS = pkg
		if union {
			top = &wpk.Union{List: []*wpk.Package{pkg, pkg}}
		}
		c.Step()
		c.State(fmt.Sprint(split, union, list))
		for _, s := range list {
			if b, err := pkg.ReadFile(s); err != nil || string(b) != t[s] {
				c.Fail("file %q is read as %q, %v", s, b, err)
			}
			if fi, err := pkg.Stat(s); err != nil || fi.Size() != int64(len(t[s])) {
				c.Fail("information of %q is %v, %v", s, fi, err)
			}
		}
		var walk = func(fsys fs.FS, prefix string) {
			var seen = map[string]bool{}
			var err = fs.WalkDir(fsys, ".", func(fpath string, d fs.DirEntry, err error) error {
				if err != nil {
					return fmt.Errorf("walk at %q: %w", fpath, err)
				}
				if seen[fpath] {
					return fmt.Errorf("walk passes %q twice", fpath)
				}
				seen[fpath] = true
				if name := d.Name(); fpath != "." && (name != path.Base(fpath) || name == "" || name == "." || name == ".." || strings.Contains(name, "/")) {
					return fmt.Errorf("walk shows %q as %q", name, fpath)
				}
				if fpath != "." && !d.IsDir() {
					if _, ok := t[prefix+fpath]; !ok {
						return fmt.Errorf("walk shows absent file %q", fpath)
					}
				}
				return nil
			})
			if err != nil {
				c.Fail("%T %q: %v", fsys, prefix, err)
			}
			for s := range t {
				if t["."]+t[""] != "" {
					break // the root itself is not a directory
				}
				if fs.ValidPath(s) && strings.HasPrefix(s, prefix) && !seen[s[len(prefix):]] {
					c.Fail("%T %q: walk does not show file %q", fsys, prefix, s)
				}
			}
			c.Outcome(fmt.Sprint(prefix, len(seen)))
		}
		walk(top, "")
		if sub, err := top.Sub("d"); err == nil {
			walk(sub, "d/")
		} else if t.IsDir("d") {
			c.Fail("%T: sub-view is not made: %v", top, err)
		}
	}}
}

var consNames = []string{"a.txt", "index.html", "d/index.html", "d/a.txt", "d/e/x", "d.txt/y", "d/e.txt/Имя"}

// c10consumers: users of file systems at the standard library.
func c10consumers(tier string) mc.Scenario {
	return mc.Scenario{Name: "consumers of file systems", ShardDepth: 2, Run: func(c *mc.C) {
		var n = pick(tier, 6, 7)
		var mask = c.Choose(1 << n)
		var be = c.Choose(4) // the last one is memory
		var split = c.Bool()
		if be < 3 && tier == "quick" && mask != 1<<n-1 && mask != 5 && mask != 0 {
			c.Stop()
		}
		var list, t = c10tree(consNames[:n], mask)
		for _, s := range list {
			t[s] = []string{"", "<html>", "text of file"}[len(s)%3]
		}
		var w = kit.NewWorld(split)
		c.NoErr(w.Begin(), "begin")
		for i, name := range list {
			var file = &kit.FakeFile{Reader: strings.NewReader(t[name]), FakeInfo: kit.FakeInfo{Nm: path.Base(name), Sz: int64(len(t[name])), MT: time.Unix(1600000000+int64(i)*1000, 0)}}
			var _, err = w.Pkg.PackFile(w.DataFile(), file, name)
			c.NoErr(err, "pack")
		}
		c.NoErr(w.Pkg.Sync(w.WPT, w.Second()), "finalize")
		var pkg = wpk.NewPackage()
		if be < 3 {
			var ft, fd, err = kit.SaveReal(scratchDir(c)+"/p", w.WPT.Buf, w.Dat(), split)
			c.NoErr(err, "save")
			pkg, err = kit.OpenReal(ft, fd, be)
			c.NoErr(err, "open")
			defer pkg.Tagger.Close()
		} else {
			c.NoErr(kit.OpenMem(pkg, w.WPT.Buf), "reopen")
			pkg.Tagger = &kit.MemTagger{Data: w.Dat()}
		}
		c.Logf("back-end %d, files %q", be, list)
		viewsOf(c, pkg, t, func(what string, fsys wpk.CompleteFS, t kit.Tree) {
			c.Step()
			c.State(what, fmt.Sprint(mask))
			if err := kit.CheckConsumers(fsys, t); err != nil {
				c.Fail("%s: %v", what, err)
			}
		})
	}}
}

func init() {
	var universe = []string{"d/b", "a", "da/x", "d/e/a", "ab", "d.x", "d/a", "d/eb", "Имя/ё", "d/e/f/g", "e", "d/e.x/y", "a.b.c/d"}
	var probes = []string{"nope", "d", "d/e", "da", "d/e/f", "d/", "d/x", "a/x", "D/a", "A", "d/e/", "Имя"}
	reg(&mc.Prop{
		ID:   "C10",
		Rule: "every subset of the name universe is packed in several orders, reopened, and the package with all its sub-views (direct and nested) is compared with the reference tree by every name of the tree, its neighbours, and probes; every page size; every pattern",
		Bounds: func(tier string) string {
			return fmt.Sprintf("%d names (%d subsets), %d packing orders, single and split, memory back-end for all, 3 real back-ends for 16 trees; page sizes -1..len+1 and mixed; %d patterns", pick(tier, 10, 13), 1<<pick(tier, 10, 13), pick(tier, 3, 4), len(c10patterns)) + fmt.Sprintf("; %d of 17 improper names with 3 proper ones", pick(tier, 2, 3)) + "; trees are also opened from packages with backslashed paths" + fmt.Sprintf("; %d subsets of %d names served by http (every range of every file), archived by zip and tar, walked, parsed as templates; directories with up to 1025 and 4097 files (around powers of 2 and 10) with pages around 256 and 1000; 6 beginnings with up to %d of 15 effective changes (or a failing one at last), the package and views of every age are compared after each", 1<<pick(tier, 6, 7), pick(tier, 6, 7), pick(tier, 3, 4))
		},
		Assumptions: []string{"no name is both a file and a directory of the package"},
		Scenarios: func(tier string) []mc.Scenario {
			var names = universe[:pick(tier, 10, 13)]
			return []mc.Scenario{
				{Name: "trees", ShardDepth: 1, Run: func(c *mc.C) {
					var mask = c.Choose(1 << len(names))
					var order = c.Choose(pick(tier, 4, 5))
					var split = order&1 != 0
					var list, t = c10tree(names, mask)
					switch order {
					case 1:
						for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
							list[i], list[j] = list[j], list[i]
						}
					case 2:
						sort.Strings(list)
					case 4:
						for i := 0; i+1 < len(list); i += 2 {
							list[i], list[i+1] = list[i+1], list[i]
						}
					}
					c.Logf("packed %q", list)
					var w = packTree(c, split, list, t)
					if order == 3 { // paths are kept with backslashes by other software
						backslashed(c, w.WPT.Buf, list)
						c.NoErr(kit.OpenMem(w.Pkg, w.WPT.Buf), "reopen")
					}
					viewsOf(c, w.Pkg, t, func(what string, fsys wpk.CompleteFS, t kit.Tree) {
						c.Step()
						c.State(what, fmt.Sprint(mask))
						if err := kit.CheckFS(fsys, t, probes, c10patterns); err != nil {
							c.Fail("%s: %v", what, err)
						}
						checkEnum(c, what, fsys.(*wpk.Package), t)
					})
				}},
				c10odd(tier),
				c10many(tier),
				c10live(tier),
				c10consumers(tier),
				{Name: "real back-ends", ShardDepth: 2, Run: func(c *mc.C) {
					var mask = []int{0, 1, 0xff, 0x55, 0xaa, 0x0f, 0xf0, 0x9}[c.Choose(8)]
					var split = c.Bool()
					var be = c.Choose(3)
					var list, t = c10tree(names, mask)
					var w = packTree(c, split, list, t)
					var ft, fd, err = kit.SaveReal(scratchDir(c)+"/p", w.WPT.Buf, w.Dat(), split)
					c.NoErr(err, "save")
					var pkg, err2 = kit.OpenReal(ft, fd, be)
					c.NoErr(err2, "open")
					defer pkg.Tagger.Close()
					viewsOf(c, pkg, t, func(what string, fsys wpk.CompleteFS, t kit.Tree) {
						c.Step()
						if err := kit.CheckFS(fsys, t, probes, c10patterns); err != nil {
							c.Fail("%s, %s: %v", kit.Backends[be].Name, what, err)
						}
					})
					// special name gives raw content
					f, err := pkg.Open(wpk.PackName)
					c.NoErr(err, "open of "+wpk.PackName)
					defer f.Close()
					b, err := io.ReadAll(f)
					c.NoErr(err, "read of "+wpk.PackName)
					var want = w.Dat()
					if !split { // header and data section
						var h, _ = kit.DecHeader(w.WPT.Buf)
						want = want[:h.DatOff+h.DatSize]
					}
					if !bytes.Equal(b, want) {
						c.Fail("%s has %d bytes, want %d", wpk.PackName, len(b), len(want))
					}
				}},
			}
		},
	})
}
