package props

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
	"vh/vsync"
)

// readers of files that work at the same time.
type fileRun struct {
	fsys   fs.FS
	want   map[string][]byte
	shared wpk.RFile
	sname  string
}

func (x *fileRun) cmp(what, name string, got []byte, err error) string {
	if err != nil {
		return fmt.Sprintf("%s of %q: %v", what, name, err)
	}
	if !bytes.Equal(got, x.want[name]) {
		return fmt.Sprintf("%s of %q gives other content, %d bytes of %d", what, name, len(got), len(x.want[name]))
	}
	return ""
}

var fileOpsConc = []struct {
	name string
	do   func(x *fileRun, name string) string
}{
	{"whole", func(x *fileRun, name string) string {
		var b, err = fs.ReadFile(x.fsys, name)
		return x.cmp("reading", name, b, err)
	}},
	{"pieces", func(x *fileRun, name string) string {
		var f, err = x.fsys.Open(name)
		if err != nil {
			return x.cmp("opening", name, nil, err)
		}
		defer f.Close()
		var head = make([]byte, 2)
		if _, err = io.ReadFull(f, head); err != nil {
			return x.cmp("reading of head", name, nil, err)
		}
		vsync.Point("read")
		b, err := io.ReadAll(f)
		return x.cmp("reading by pieces", name, append(head, b...), err)
	}},
	{"seek", func(x *fileRun, name string) string {
		var f, err = x.fsys.Open(name)
		if err != nil {
			return x.cmp("opening", name, nil, err)
		}
		var r = f.(wpk.RFile)
		var tail = make([]byte, 3)
		if _, err = r.Seek(-3, io.SeekEnd); err == nil {
			vsync.Point("read")
			if _, err = io.ReadFull(r, tail); err == nil {
				vsync.Point("read")
				var b = make([]byte, len(x.want[name])-3)
				if _, err = r.ReadAt(b, 0); err == nil {
					if res := x.cmp("reading after seek", name, append(b, tail...), nil); res != "" {
						return res
					}
				}
			}
		}
		if err != nil {
			return x.cmp("reading after seek", name, nil, err)
		}
		vsync.Point("close")
		if err = f.Close(); err != nil {
			return x.cmp("closing", name, nil, err)
		}
		return ""
	}},
	{"shared", func(x *fileRun, name string) string { // positioned reading of the same handle is allowed
		var b = make([]byte, len(x.want[x.sname]))
		for i := range [2]int{} {
			vsync.Point("read")
			if _, err := x.shared.ReadAt(b[i*len(b)/2:(i+1)*len(b)/2], int64(i*len(b)/2)); err != nil {
				return x.cmp("positioned reading", x.sname, nil, err)
			}
		}
		return x.cmp("positioned reading", x.sname, b, nil)
	}},
	{"view", func(x *fileRun, name string) string {
		var sub, err = fs.Sub(x.fsys, "d")
		if err != nil {
			return x.cmp("view", "d", nil, err)
		}
		b, err := fs.ReadFile(sub, "b")
		return x.cmp("reading at view", "d/b", b, err)
	}},
	{"list", func(x *fileRun, name string) string {
		var list, err = fs.ReadDir(x.fsys, ".")
		if err != nil || len(list) != 3 {
			return fmt.Sprintf("listing gives %d entries, error %v", len(list), err)
		}
		return ""
	}},
	{"stat", func(x *fileRun, name string) string {
		for _, n := range []string{"c", "a", "d/b"} { // files of different packages of union
			var fi, err = fs.Stat(x.fsys, n)
			if err != nil {
				return x.cmp("query", n, nil, err)
			}
			if fi.Size() != int64(len(x.want[n])) || fi.IsDir() {
				return fmt.Sprintf("query of %q gives size %d", n, fi.Size())
			}
		}
		return ""
	}},
	{"glob", func(x *fileRun, name string) string {
		for pat, n := range map[string]int{"?": 2, "d/*": 1, "no*": 0} {
			var list, err = fs.Glob(x.fsys, pat)
			if err != nil || len(list) != n {
				return fmt.Sprintf("pattern %q gives %q, error %v", pat, list, err)
			}
		}
		return ""
	}},
}

func fileOpAt(k int) (op int, name string) {
	if k < 6 {
		return k % 3, []string{"a", "c"}[k/3]
	}
	return k - 3, ""
}

// c14files: several threads read files by real back-ends.
func c14files(tier, name string, threads, nops, dev int, union bool) mc.Scenario {
	var names = []string{"a", "d/b", "c"}
	var fills = map[string]int{"a": 5, "d/b": 300, "c": 70000}
	if union {
		tier = "thorough"
	}
	return mc.Scenario{Name: name, MaxDev: dev, ShardDepth: 3, Run: func(c *mc.C) {
		var be, split = c.Choose(len(kit.Backends)), threads == 2 && !union && thorough(tier) && c.Bool()
		var plan [][]int
		for range threads {
			var list []int
			for range nops {
				if threads > 2 && !thorough(tier) {
					list = append(list, []int{0, 2, 5, 6}[c.Choose(4)])
					continue
				}
				list = append(list, c.Choose(pick(tier, 7, 11))) // the first three work with two files
			}
			if n := len(plan); n > 0 && fmt.Sprint(plan[n-1]) > fmt.Sprint(list) {
				c.Stop() // symmetric
			}
			plan = append(plan, list)
		}
		var x = &fileRun{want: map[string][]byte{}, sname: "d/b"}
		var mk = func(id string, names []string) *wpk.Package {
			for _, n := range names {
				x.want[n] = fill("conc "+n, fills[n])
			}
			var w *kit.World
			var build = func() *kit.World {
				if w == nil {
					w = kit.NewWorld(split)
					var err = w.Begin()
					for _, n := range names {
						if err == nil {
							err = w.Pack(n, x.want[n])
						}
					}
					if err == nil {
						err = w.Finalize()
					}
					c.NoErr(err, "package")
				}
				return w
			}
			var ft = cached(fmt.Sprint("c14", id, split, ".wpt"), func() []byte { return build().WPT.Buf })
			var fd = ft
			if split {
				fd = cached(fmt.Sprint("c14", id, split, ".wpf"), func() []byte { return build().WPF.Buf })
			}
			pkg, err := kit.OpenReal(ft, fd, be)
			c.NoErr(err, "open")
			c.Defer(func() { pkg.Tagger.Close() })
			return pkg
		}
		if union {
			x.fsys = &wpk.Union{List: []*wpk.Package{mk("u1", names[:2]), mk("u2", []string{"c"})}}
		} else {
			x.fsys = mk("p", names)
		}
		f, err := x.fsys.Open(x.sname)
		c.NoErr(err, "open")
		c.Defer(func() { f.Close() })
		x.shared = f.(wpk.RFile)
		var res = make([]string, threads)
		var list []func()
		for i := range plan {
			list = append(list, func() {
				for _, k := range plan[i] {
					var op, name = fileOpAt(k)
					if s := fileOpsConc[op].do(x, name); s != "" {
						res[i] = s
						return
					}
				}
			})
		}
		if c.Logging() {
			c.Logf("%s, splitted %v", kit.Backends[be].Name, split)
			for i := range plan {
				for _, k := range plan[i] {
					var op, name = fileOpAt(k)
					c.Logf("thread %d: %s %s", i, fileOpsConc[op].name, name)
				}
			}
		}
		var r = newConc[int](c, threads)
		r.run(list...)
		for i, s := range res {
			if s != "" {
				c.Fail("thread %d, %s: %s", i, kit.Backends[be].Name, s)
			}
		}
		c.State(fmt.Sprint(be, split, plan, union))
		c.Outcome(fmt.Sprint(be, split, plan))
	}}
}
