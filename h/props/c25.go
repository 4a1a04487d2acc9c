package props

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"runtime/debug"
	"strings"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// held is number of descriptors and of memory mappings of files at the folder.
type held struct{ fds, maps int }

func heldOf(c *mc.C, dir string) (h held) {
	c.Step()
	var prefix = dir + "/"
	var list, err = os.ReadDir("/proc/self/fd")
	c.NoErr(err, "list of descriptors")
	for _, de := range list {
		if s, err := os.Readlink("/proc/self/fd/" + de.Name()); err == nil && (s == dir || strings.HasPrefix(s, prefix)) {
			h.fds++
		}
	}
	b, err := os.ReadFile("/proc/self/maps")
	c.NoErr(err, "list of mappings")
	h.maps = strings.Count(string(b), " "+prefix)
	return
}

// trapped calls f, access to the memory that is not mapped any more is a failure.
func trapped(c *mc.C, what string, f func()) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(interface{ Addr() uintptr }); ok {
				c.Fail("%s: access to memory that is not mapped", what)
			}
			panic(e)
		}
	}()
	f()
}

var c25data = map[string][]byte{}

// c25pkg makes package files, data file of splitted package can be cut.
func c25pkg(split, cut bool) (dir, ft, fd string) {
	var w kit.Header
	var names = []string{"a", "z", "d/b"}
	var sizes = []int{7, 0, 70000}
	var sets [][]byte
	var dat []byte
	if !split {
		dat = make([]byte, 64)
	}
	for i, name := range names {
		var b = fill("lifetime "+name, sizes[i])
		c25data[name] = b
		sets = append(sets, kit.EncTags([]kit.Tag{{ID: 1, Val: kit.EncUint(uint64(len(dat)), 0)}, {ID: 2, Val: kit.EncUint(uint64(sizes[i]), 0)}, {ID: 3, Val: []byte(name)}}))
		dat = append(dat, b...)
	}
	var table = kit.EncTable(nil, sets)
	copy(w.Sign[:], kit.SignReady)
	w.Count, w.FttSize = uint64(len(names)), uint64(len(table))
	if split {
		w.FttOff, w.DatSize = 64, uint64(len(dat))
		var name = "whole"
		if cut {
			name = "cut"
			dat = dat[:1000]
		}
		ft = cached("c25"+name+".wpt", func() []byte { return append(w.Enc(), table...) })
		fd = cached("c25"+name+".wpf", func() []byte { return dat })
	} else {
		w.DatOff, w.FttOff, w.DatSize = 64, uint64(len(dat)), uint64(len(dat)-64)
		copy(dat, w.Enc())
		ft = cached("c25.wpk", func() []byte { return append(dat, table...) })
		fd = ft
	}
	return path.Dir(ft), ft, fd
}

// handle is opened file or directory.
type handle struct {
	name   string
	f      fs.File
	want   []byte // nil for directory
	closed bool
	end    bool // content was read up to the end
}

// use reads the handle. Closed one can fail, but should not give anything wrong.
func (h *handle) use(c *mc.C) {
	var what = fmt.Sprintf("%s, closed: %v", h.name, h.closed)
	trapped(c, what, func() {
		if h.want == nil {
			var d, ok = h.f.(fs.ReadDirFile)
			c.Assert(ok, "%s: not a directory", what)
			if n, err := d.Read(make([]byte, 4)); n != 0 || err == nil {
				c.Fail("%s: reading of directory gives %d bytes, error %v", what, n, err)
			}
			var list, err = d.ReadDir(-1)
			if err != nil && h.closed {
				return
			}
			if err != nil || (len(list) == 0) != h.end {
				c.Fail("%s: %d entries, at the end: %v, error %v", what, len(list), h.end, err)
			}
			h.end = true
			return
		}
		var rf, ok = h.f.(wpk.RFile)
		c.Assert(ok, "%s: has no all readers", what)
		var buf = make([]byte, len(h.want)+1)
		var n, err = rf.ReadAt(buf, 0)
		if !bytes.Equal(buf[:n], h.want[:min(n, len(h.want))]) {
			c.Fail("%s: positioned read gives wrong content", what)
		}
		if !h.closed && (n != len(h.want) || err != io.EOF) {
			c.Fail("%s: positioned read of %d bytes, error %v", what, n, err)
		}
		if err == nil {
			c.Fail("%s: positioned read over the end gives no error", what)
		}
		if _, err = rf.Seek(0, io.SeekStart); err != nil && !h.closed {
			c.Fail("%s: seek: %v", what, err)
		}
		b, err := io.ReadAll(rf)
		if err != nil && !h.closed || err == nil && !bytes.Equal(b, h.want) {
			c.Fail("%s: content of %d bytes, want %d, error %v", what, len(b), len(h.want), err)
		}
		if !bytes.HasPrefix(h.want, b) {
			c.Fail("%s: wrong content", what)
		}
	})
}

// c25handles: all histories of opening and closing.
func c25handles(tier string) mc.Scenario {
	var depth, live = pick(tier, 5, 7), pick(tier, 2, 3)
	return mc.Scenario{Name: "histories of handles", ShardDepth: 3, Run: func(c *mc.C) {
		var be = c.Choose(3)
		var mode = c.Choose(3) // single file, splitted, splitted with cut data file
		var dir, ft, fd = c25pkg(mode > 0, mode == 2)
		var atview = c.Bool()
		var none = heldOf(c, dir)
		c.Assert(none == held{}, "something is held before opening: %v", none)
		var pkg, err = kit.OpenReal(ft, fd, be)
		c.NoErr(err, "open package")
		var what = fmt.Sprintf("%s, mode %d", kit.Backends[be].Name, mode)
		var base = heldOf(c, dir)
		var top fs.FS = pkg
		if atview { // through the view of folder
			what += ", at the view"
			top, err = pkg.Sub(".")
			c.NoErr(err, "sub")
		}
		var pkgclosed bool
		var hs []*handle
		c.Defer(func() {
			for _, h := range hs {
				if !h.closed {
					h.f.Close()
				}
			}
			pkg.Tagger.Close()
		})
		var wholedat []byte
		if mode < 2 {
			wholedat, err = os.ReadFile(fd)
			c.NoErr(err, "read")
			if mode == 0 {
				wholedat = wholedat[:64+len(c25data["a"])+len(c25data["d/b"])]
			}
		}
		var opens = []string{"a", "z", "d/b", wpk.PackName, "d", "absent", "out"}
		var open = func(name string) {
			var f fs.File
			var err error
			var want []byte
			var before = heldOf(c, dir)
			var fails = pkgclosed
			switch name {
			case "out":
				var ts wpk.TagsetRaw
				ts = ts.Put(wpk.TIDoffset, wpk.UintTag(1<<40)).Put(wpk.TIDsize, wpk.UintTag(1)).Put(wpk.TIDpath, wpk.StrTag("out"))
				var rf wpk.RFile
				if rf, err = pkg.Tagger.OpenTagset(ts); err == nil {
					rf.Close()
					c.Fail("%s: file out of the package is opened", what)
				}
				fails = true
			case "d":
				f, err = top.Open(name)
				c.NoErr(err, what+": open of folder")
			case wpk.PackName:
				want, fails = wholedat, fails || mode == 2
				f, err = top.Open(name)
			case "absent":
				fails = true
				f, err = top.Open(name)
				c.Assert(err != nil, "%s: absent file is opened", what)
			default:
				want, fails = c25data[name], fails || (mode == 2 && name == "d/b")
				f, err = top.Open(name)
			}
			if err != nil {
				c.Assert(fails, "%s: open of %s: %v", what, name, err)
				if after := heldOf(c, dir); after != before {
					c.Fail("%s: failed open of %s holds %v, it was %v", what, name, after, before)
				}
				return
			}
			if mode == 2 && (name == wpk.PackName || name == "d/b") {
				c.Fail("%s: %s is opened out of the data file", what, name)
			}
			var h = &handle{name: what + ": " + name, f: f, want: want}
			if name != "d" && want == nil {
				h.want = []byte{}
			}
			hs = append(hs, h)
		}
		var calm = func(op string, f func()) {
			var before = heldOf(c, dir)
			f()
			if after := heldOf(c, dir); after != before {
				c.Fail("%s: %s changes held objects from %v to %v", what, op, before, after)
			}
		}
		var livenum = func() (n int) {
			for _, h := range hs {
				if !h.closed {
					n++
				}
			}
			return
		}
		for step := 0; step < depth; step++ {
			var state = fmt.Sprint(what, pkgclosed)
			for _, h := range hs {
				state += fmt.Sprint("|", h.name, h.closed, h.want == nil && h.end)
			}
			c.Prune(depth-step, state)
			var nopen = len(opens)
			if len(hs) == live {
				nopen = 0
			}
			var k = c.Choose(nopen + 2*len(hs) + 3)
			switch {
			case k < nopen:
				c.Logf("open %s", opens[k])
				open(opens[k])
			case k < nopen+len(hs):
				var h = hs[k-nopen]
				c.Logf("use of %s", h.name)
				calm("reading of "+h.name, func() { h.use(c) })
			case k < nopen+2*len(hs):
				var h = hs[k-nopen-len(hs)]
				c.Logf("close %s", h.name)
				var err error
				trapped(c, "close of "+h.name, func() { err = h.f.Close() })
				if err != nil && !h.closed {
					c.Fail("close of %s: %v", h.name, err)
				}
				h.closed = true
			case k == nopen+2*len(hs): // requests that hold nothing
				c.Logf("requests")
				for _, name := range []string{"a", "z", "d/b", "absent", "d"} {
					name := name
					calm("reading of whole "+name, func() {
						if b, err := fs.ReadFile(top, name); err == nil && !bytes.Equal(b, c25data[name]) {
							c.Fail("%s: whole %s is wrong", what, name)
						}
					})
					calm("stat of "+name, func() { fs.Stat(top, name) })
					calm("listing of "+name, func() { fs.ReadDir(top, name) })
				}
				calm("glob", func() { fs.Glob(top, "*") })
				calm("sub", func() { fs.Sub(top, "d") })
				calm("walk", func() { fs.WalkDir(top, ".", func(string, fs.DirEntry, error) error { return nil }) })
			case k == nopen+2*len(hs)+1:
				c.Logf("close of package")
				if err := pkg.Tagger.Close(); err != nil && !pkgclosed {
					c.Fail("%s: close of package: %v", what, err)
				}
				pkgclosed = true
			default:
				c.Logf("opened again")
				var p2, err = kit.OpenReal(ft, fd, be)
				c.NoErr(err, "open package once more")
				b, err := p2.ReadFile("a")
				if err != nil || !bytes.Equal(b, c25data["a"]) {
					c.Fail("%s: file at package opened again: %v", what, err)
				}
				c.NoErr(p2.Tagger.Close(), "close of package opened again")
			}
			if livenum() == 0 {
				var want = base
				if pkgclosed {
					want = held{}
				}
				if have := heldOf(c, dir); have != want {
					c.Fail("%s: no opened handles, but %+v are held, want %+v, package closed: %v", what, have, want, pkgclosed)
				}
			}
		}
		// whatever is opened reads the right content, then everything is closed
		for _, h := range hs {
			h.use(c)
		}
		for _, h := range hs {
			if !h.closed {
				c.NoErr(h.f.Close(), "close of "+h.name)
				h.closed = true
			}
		}
		if !pkgclosed {
			c.NoErr(pkg.Tagger.Close(), "close of package")
		}
		if have := heldOf(c, dir); have != (held{}) {
			c.Fail("%s: everything is closed, but %+v are held", what, have)
		}
		c.Outcome(fmt.Sprint(what, len(hs), pkgclosed))
	}}
}

// c25union: closing of the union releases all its packages.
func c25union(tier string) mc.Scenario {
	return mc.Scenario{Name: "closing of unions", ShardDepth: 4, Run: func(c *mc.C) {
		var u wpk.Union
		var dir string
		var n = 1 + c.Choose(3)
		c.Defer(func() { u.Close() })
		for i := 0; i < n; i++ {
			var be, mode, atview = c.Choose(3), c.Choose(3), c.Bool()
			var ft, fd string
			dir, ft, fd = c25pkg(mode > 0, mode == 2)
			var pkg, err = kit.OpenReal(ft, fd, be)
			c.NoErr(err, "open package")
			if atview { // as view of its folder
				var sub, err = pkg.Sub(".")
				c.NoErr(err, "sub")
				pkg = sub.(*wpk.Package)
			}
			u.List = append(u.List, pkg)
		}
		var before = heldOf(c, dir)
		for _, name := range []string{"a", "z", "d/b", wpk.PackName, "d", "absent"} {
			var f, err = u.Open(name)
			if err == nil {
				c.NoErr(f.Close(), "close of file")
			}
			u.ReadFile(name)
			u.Stat(name)
			u.ReadDir(name)
			if after := heldOf(c, dir); after != before {
				c.Fail("requests to %s change held objects from %+v to %+v", name, before, after)
			}
		}
		var f, err = u.Open("a")
		c.NoErr(err, "open")
		if k := c.Choose(n + 1); k > 0 { // one of packages is closed already
			c.Logf("package #%d is closed before", k-1)
			c.NoErr(u.List[k-1].Close(), "close of package")
			u.Close() // can report that
		} else {
			c.NoErr(u.Close(), "close of union")
		}
		(&handle{name: "file of closed union", f: f, want: c25data["a"]}).use(c)
		c.NoErr(f.Close(), "close of file")
		if have := heldOf(c, dir); have != (held{}) {
			c.Fail("union is closed, but %+v are held", have)
		}
	}}
}

// c25open: opening of the package holds nothing, whatever the file is.
func c25open(tier string) mc.Scenario {
	return mc.Scenario{Name: "opening of damaged packages", ShardDepth: 1, Run: func(c *mc.C) {
		var split = c.Bool()
		var _, ft, _ = c25pkg(split, false)
		var whole, err = os.ReadFile(ft)
		c.NoErr(err, "read")
		var dir = scratchDir(c)
		var fpath = dir + "/p"
		var fails bool
		switch k := c.Choose(5); k {
		case 0: // absent
			fails = true
		case 1:
			c.NoErr(os.Mkdir(fpath, 0755), "mkdir")
			fails = true
		case 2:
			c.NoErr(os.WriteFile(fpath, whole, 0644), "write")
		case 3: // cut file
			var list = []int{0, 1, 23, 24, 63, 64, 65, 66, len(whole) - 3, len(whole) - 2, len(whole) - 1}
			c.NoErr(os.WriteFile(fpath, whole[:list[c.Choose(len(list))]], 0644), "write")
			fails = true
		default: // another signature
			var b = bytes.Clone(whole)
			var k = c.Choose(2)
			copy(b, [][]byte{kit.SignBuild, []byte("something other than the")}[k])
			c.NoErr(os.WriteFile(fpath, b, 0644), "write")
			fails = !split || k == 1 // splitted package under construction is readable
		}
		var pkg = wpk.NewPackage()
		err = pkg.OpenFile(fpath)
		if (err != nil) != fails {
			c.Fail("opening gives error %v, should fail: %v", err, fails)
		}
		if have := heldOf(c, dir); have != (held{}) {
			c.Fail("table was read, error %v, but %+v are held", err, have)
		}
		for _, be := range kit.Backends {
			var tgr, err = be.Make(fpath)
			if err == nil {
				c.NoErr(tgr.Close(), "close")
			}
			if have := heldOf(c, dir); have != (held{}) {
				c.Fail("%s: access was made and closed, error %v, but %+v are held", be.Name, err, have)
			}
		}
	}}
}

// c25script: package object of the script holds its files during the session only.
func c25script(tier string) mc.Scenario {
	type op struct {
		name string
		args []string
		open int // number of files held after success, or -1 if it's not changed
	}
	var ops = []op{
		{"begin", []string{"p.wpk"}, 1},
		{"begin", []string{"q.wpt", "q.wpf"}, 2},
		{"begin", []string{"no/p.wpk"}, 1},
		{"begin", []string{"x.wpt", "no/x.wpf"}, 2},
		{"begin", []string{"p.wpk", "dir"}, 2},
		{"begin", []string{"dir"}, 1},
		{"load", []string{"p.wpk"}, -1},
		{"load", []string{"q.wpt", "q.wpf"}, -1},
		{"load", []string{"q.wpt", "no.wpf"}, -1},
		{"load", []string{"bad.wpk"}, -1},
		{"append", nil, -2},
		{"flush", nil, -1},
		{"finalize", nil, 0},
		{"putfile", []string{"a", "src"}, -1},
		{"putfile", []string{"b", "absent"}, -1},
		{"putfile", []string{"c", "dir"}, -1},
	}
	var depth = pick(tier, 4, 5)
	return mc.Scenario{Name: "files of script sessions", ShardDepth: 2, Run: func(c *mc.C) {
		var dir = scratchDir(c)
		c.NoErr(os.Mkdir(dir+"/dir", 0755), "mkdir")
		c.NoErr(os.WriteFile(dir+"/src", []byte("content"), 0644), "write")
		c.NoErr(os.WriteFile(dir+"/bad.wpk", []byte("not a package"), 0644), "write")
		var p = vm().newPkg(c)
		c.Defer(func() { p.do("finalize") })
		var have held
		for i := 0; i < depth; i++ {
			var o = ops[c.Choose(len(ops))]
			var args []lua.LValue
			for j, s := range o.args {
				if o.name != "putfile" || j == 1 {
					s = dir + "/" + s
				}
				args = append(args, lua.LString(s))
			}
			var _, err = p.do(o.name, args...)
			c.Logf("%s%q: %v", o.name, o.args, err)
			var want = have
			if err == nil && o.open != -1 {
				want.fds = o.open
				if o.open == -2 {
					var dat, err = p.get("datpath")
					c.NoErr(err, "datpath")
					want.fds = 1
					if lua.LVAsString(dat) != "" {
						want.fds = 2
					}
				}
			}
			have = heldOf(c, dir)
			if have != want {
				c.Fail("%s%q, error %v: %+v are held, want %+v", o.name, o.args, err, have, want)
			}
		}
	}}
}

func init() {
	reg(&mc.Prop{
		ID: "C25",
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{c25handles(tier), c25union(tier), c25open(tier), c25script(tier), c25many(tier)}
		},
		Assumptions: []string{
			"objects are counted by /proc/self/fd and /proc/self/maps of the checking process; garbage collector could hide some of leaked descriptors, but never adds them",
			"handles are closed while nobody reads them at the same time",
		},
		Rule: "every history of opening, reading, closing of handles and of the package by each back-end is executed on real files; descriptors and mappings of package files are counted after each operation, content of handles is compared with known one, access to unmapped memory is trapped; the same for unions, damaged packages and sessions of script package objects",
		Bounds: func(tier string) string {
			return fmt.Sprintf("histories of %d operations with up to %d handles, unions of up to 3 packages, script sessions of %d operations of 16; up to %d handles at once", pick(tier, 5, 7), pick(tier, 2, 3), pick(tier, 4, 5), pick(tier, 300, 700))
		},
	})
}
