package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// closer is tagger that notes closing.
type closer struct {
	wpk.Tagger
	closed int
	err    error
}

func (t *closer) Close() error {
	t.closed++
	return t.err
}

// badTagger fails to give the content of file with given name.
type badTagger struct {
	wpk.Tagger
	name string
	mode int
}

func (t *badTagger) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	if ts.Path() != t.name {
		return t.Tagger.OpenTagset(ts)
	}
	switch t.mode {
	case 1:
		return nil, kit.ErrInjected
	case 2:
		return nil, &fs.PathError{Op: "open", Path: t.name, Err: fs.ErrNotExist} // data file is lost
	}
	var f, err = t.Tagger.OpenTagset(ts)
	if err != nil {
		return nil, err
	}
	return &badFile{f, []error{kit.ErrInjected, io.ErrUnexpectedEOF}[t.mode-3], 3}, nil
}

// badFile fails after several bytes.
type badFile struct {
	wpk.RFile
	err  error
	left int
}

func (f *badFile) Read(p []byte) (n int, err error) {
	if f.left == 0 {
		return 0, f.err
	}
	if len(p) > f.left {
		p = p[:f.left]
	}
	n, err = f.RFile.Read(p)
	f.left -= n
	return
}

type unionPkg struct {
	w   *kit.World
	pkg *wpk.Package
	t   kit.Tree
}

// c12pkg makes package number k with given names at given workspace.
func c12pkg(c *mc.C, k int, split bool, ws string, names []string, mask int) (p unionPkg) {
	p.t = kit.Tree{}
	var full []string
	var t = kit.Tree{}
	for i, s := range names {
		if mask>>i&1 != 0 {
			p.t[s] = fmt.Sprintf("%s of #%d", s, k) + string(bytes.Repeat([]byte{'+'}, k))
			var f = s
			if ws != "." {
				f = ws + "/" + s
			}
			full = append(full, f)
			t[f] = p.t[s]
		}
	}
	if ws != "." { // those are not in the union
		for _, s := range []string{"a", ws + "x/a", "other/a"} {
			full = append([]string{s}, full...)
			t[s] = "out of workspace"
		}
	}
	p.w = packTree(c, split, full, t)
	p.pkg = p.w.Pkg
	if ws != "." {
		if mask != 0 {
			var sub, err = p.w.Pkg.Sub(ws)
			c.NoErr(err, "sub")
			p.pkg = sub.(*wpk.Package)
		} else {
			p.pkg = &wpk.Package{FTT: p.w.Pkg.FTT, Tagger: p.w.Pkg.Tagger, Workspace: ws}
		}
	}
	return
}

func c12check(c *mc.C, pkgs []unionPkg, probes, patterns []string) {
	var u = &wpk.Union{}
	var t = kit.Tree{}
	for _, p := range pkgs {
		u.List = append(u.List, p.pkg)
		for name, data := range p.t {
			if _, ok := t[name]; !ok {
				t[name] = data
			}
		}
	}
	var allempty = len(t) == 0
	for _, p := range pkgs {
		if p.pkg.Workspace == "." {
			allempty = false // root folder exists anyway
		}
	}
	if allempty {
		return
	}
	viewsOf(c, u, t, func(what string, fsys wpk.CompleteFS, t kit.Tree) {
		c.Step()
		if err := kit.CheckFS(fsys, t, probes, patterns); err != nil {
			c.Fail("%s: %v", what, err)
		}
		var got = fsys.(*wpk.Union).AllKeys()
		var want []string
		for name := range t {
			want = append(want, name)
		}
		got = append([]string{}, got...)
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Fail("%s: list of keys is %q, want %q", what, got, want)
		}
	})
	if u.List[0].Workspace == "." {
		for k, p := range pkgs {
			var want = p.w.Dat()
			if !p.w.Split {
				var h, _ = kit.DecHeader(p.w.WPT.Buf)
				want = want[:h.DatOff+h.DatSize]
			}
			var f, err = u.Open(fmt.Sprintf("%s/%d", wpk.PackName, k))
			if err != nil {
				c.Fail("raw content of package #%d: %v", k, err)
			}
			var b, err2 = io.ReadAll(f)
			f.Close()
			if err2 != nil || !bytes.Equal(b, want) {
				c.Fail("raw content of package #%d has %d bytes, want %d, error %v", k, len(b), len(want), err2)
			}
		}
		for _, s := range []string{"/" + fmt.Sprint(len(pkgs)), "/99999999999", "/x", "/", "/-1", "/0x", "x", ""} {
			if f, err := u.Open(wpk.PackName + s); err == nil {
				f.Close()
				c.Fail("%s is opened", wpk.PackName+s)
			}
		}
		if _, err := u.Open(fmt.Sprintf("%s/%d", wpk.PackName, len(pkgs))); !errors.Is(err, fs.ErrNotExist) {
			c.Fail("raw content of package out of list: error is %v", err)
		}
	}
}

func init() {
	var names = []string{"a", "d/a", "A", "d/B é", "d/e/a", "da", "d/e/f/x"}
	var probes = []string{"nope", "d", "D/a", "d/A", "d/b é", "d/e", "d/nope", "a/x", "other/a", "other", "out", "ws/a", "ws"}
	var patterns = []string{"*", "*/*", "d/*", "?", "d*/a", `d\*`, "[", "nope", "[A-Z]", "d/? ?", "D/*"}
	var wss = []string{".", "ws", "ws/x"}
	var base = func(name string, n, k int, spaces bool) mc.Scenario {
		return mc.Scenario{Name: name, ShardDepth: 2, Run: func(c *mc.C) {
			var pkgs []unionPkg
			var masks [4]int
			for i := 0; i < n; i++ {
				masks[i] = c.Choose(1 << k)
			}
			for i := 0; i < n; i++ {
				var ws = "."
				if spaces {
					ws = wss[c.Choose(len(wss))]
				}
				c.Logf("package #%d at %q has names %07b", i, ws, masks[i])
				pkgs = append(pkgs, c12pkg(c, i, i&1 != 0, ws, names[:k], masks[i]))
			}
			c.State(fmt.Sprint(masks))
			c12check(c, pkgs, probes, patterns)
		}}
	}
	reg(&mc.Prop{
		ID:   "C12",
		Rule: "every assignment of name subsets to the packages of the union (and of workspaces to packages), the union and all its sub-views are compared with the overlay of reference trees by every name, page size and pattern; every set of failing packages on closing",
		Bounds: func(tier string) string {
			return fmt.Sprintf("2 packages x subsets of %d names; 3 packages x subsets of %d names; 2 packages x subsets of %d names x 3 workspaces each; 3 packages x subsets of 2 names x 3 workspaces each; 2 and 3 packages with all kinds of reading failures; 1..4 packages closing; unions of 2 packages x subsets of %d names x 2 workspaces served by http, archived and walked; unions of up to 257 packages, and of packages with up to 1100 files", pick(tier, 6, 7), pick(tier, 4, 5), pick(tier, 4, 5), pick(tier, 4, 5))
		},
		Assumptions: []string{"no name is a file in one package and a directory in other", "special name is asked at the union which first package is at its root; file names under the special name are reserved"},
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{
				c12many(tier),
				base("two packages", 2, pick(tier, 6, 7), false),
				base("three packages", 3, pick(tier, 4, 5), false),
				base("two packages at workspaces", 2, pick(tier, 4, 5), true),
				base("three packages at workspaces", 3, 2, true),
				{Name: "one package and none", Solo: true, Run: func(c *mc.C) {
					var mask = c.Choose(1 << len(names))
					var ws = wss[c.Choose(len(wss))]
					c12check(c, []unionPkg{c12pkg(c, 0, false, ws, names, mask)}, probes, patterns)
					var u wpk.Union
					if len(u.AllKeys()) != 0 || u.Close() != nil {
						c.Fail("empty union is not empty")
					}
					for _, p := range patterns {
						var _, bad = path.Match(kit.Slash(p), "")
						if list, err := u.Glob(p); len(list) != 0 || !errors.Is(err, bad) {
							c.Fail("pattern %q at empty union: %q, error %v", p, list, err)
						}
					}
					if _, err := u.Open("a"); !errors.Is(err, fs.ErrNotExist) {
						c.Fail("file of empty union: %v", err)
					}
					if _, err := u.Stat("a"); !errors.Is(err, fs.ErrNotExist) {
						c.Fail("stat of file of empty union: %v", err)
					}
					if _, err := u.ReadFile("a"); !errors.Is(err, fs.ErrNotExist) {
						c.Fail("reading of file of empty union: %v", err)
					}
				}},
				{Name: "workspaces with special name", Solo: true, Run: func(c *mc.C) {
					var ws = []string{wpk.PackName, wpk.PackName + "/x", wpk.PackName + "s", "x/" + wpk.PackName}[c.Choose(4)]
					var name = []string{"0", "a", "1", "y/0", "0x1", ".", "a/b", wpk.PackName + "/0", wpk.PackName, "99999999999"}[c.Choose(10)]
					var w = newLayout(c.Choose(2) * 2)
					w.Begin()
					c.NoErr(w.Pack(ws+"/a", []byte("content")), "pack")
					c.NoErr(w.Finalize(), "finalize")
					var sub, err = w.Pkg.Sub(ws)
					c.NoErr(err, "sub")
					var pkg = sub.(*wpk.Package)
					pkg.Tagger = &kit.MemTagger{Data: w.Dat()}
					var u = wpk.Union{List: []*wpk.Package{pkg}}
					c.Step()
					c.State(ws + name)
					c.Logf("open %q at %q", name, ws)
					// names under the special one are reserved, only panics are excluded
					if f, err := u.Open(name); err == nil {
						f.Close()
					}
					if f, err := pkg.Open(name); err == nil {
						f.Close()
					}
					u.Stat(name)
					u.ReadFile(name)
					u.ReadDir(name)
				}},
				{Name: "packages that fail to read", Run: func(c *mc.C) {
					var n = 2 + c.Choose(2)
					var u wpk.Union
					var first = -1 // package with the file
					var mode [3]int
					for i := 0; i < n; i++ {
						mode[i] = c.Choose(6)
						var p = c12pkg(c, i, i&1 != 0, ".", names, []int{2, 3}[min(mode[i], 1)])
						if mode[i] > 0 && first < 0 {
							first = i
						}
						if mode[i] > 1 {
							p.pkg.Tagger = &badTagger{Tagger: p.pkg.Tagger, name: "a", mode: mode[i] - 1}
						}
						u.List = append(u.List, p.pkg)
					}
					c.Logf("failures of packages: %v", mode[:n])
					c.Step()
					c.State(fmt.Sprint(mode, n))
					var b, err = u.ReadFile("a")
					var f, err2 = u.Open("a")
					var b2 []byte
					if err2 == nil {
						b2, err2 = io.ReadAll(f)
						f.Close()
					}
					if first < 0 {
						if !errors.Is(err, fs.ErrNotExist) || !errors.Is(err2, fs.ErrNotExist) {
							c.Fail("absent file: errors %v, %v", err, err2)
						}
						return
					}
					var want = fmt.Sprintf("a of #%d", first) + string(bytes.Repeat([]byte{'+'}, first))
					if mode[first] == 1 {
						if err != nil || err2 != nil || string(b) != want || string(b2) != want {
							c.Fail("content is %q, %q, want %q, errors %v, %v", b, b2, want, err, err2)
						}
					} else if err == nil || err2 == nil {
						c.Fail("the first package can not give the file, but content is %q, %q, errors %v, %v", b, b2, err, err2)
					}
				}},
				{Name: "consumers of file systems", ShardDepth: 2, Run: func(c *mc.C) {
					var k = pick(tier, 4, 5)
					var u = &wpk.Union{}
					var t = kit.Tree{}
					for i := 0; i < 2; i++ {
						var mask = c.Choose(1 << k)
						var p = c12pkg(c, i, i == 0, []string{".", "ws"}[c.Choose(pick(tier, 1+i, 2))], consNames[:k], mask)
						u.List = append(u.List, p.pkg)
						for name, data := range p.t {
							if _, ok := t[name]; !ok {
								t[name] = data
							}
						}
					}
					if len(t) == 0 {
						c.Stop()
					}
					c.Logf("files %q", u.AllKeys())
					viewsOf(c, u, t, func(what string, fsys wpk.CompleteFS, t kit.Tree) {
						c.Step()
						if err := kit.CheckConsumers(fsys, t); err != nil {
							c.Fail("%s: %v", what, err)
						}
					})
				}},
				{Name: "closing", Solo: true, Run: func(c *mc.C) {
					var n = 1 + c.Choose(4)
					var u wpk.Union
					var tg []*closer
					var bad bool
					for i := 0; i < n; i++ {
						var p = c12pkg(c, i, false, ".", names, 3)
						var t = &closer{Tagger: p.pkg.Tagger}
						if c.Bool() {
							t.err = errors.New("closing failed")
							bad = true
						}
						p.pkg.Tagger = t
						tg = append(tg, t)
						u.List = append(u.List, p.pkg)
					}
					var err = u.Close()
					for i, t := range tg {
						if t.closed != 1 {
							c.Fail("package #%d of %d is closed %d times", i, n, t.closed)
						}
					}
					if (err != nil) != bad {
						c.Fail("closing returns %v, some package failed: %v", err, bad)
					}
				}},
			}
		},
	})
}
