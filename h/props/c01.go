package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"testing/fstest"
	"time"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

var layoutNames = []string{"single", "single-same", "split"}

func newLayout(i int) *kit.World {
	var w = kit.NewWorld(i == 2)
	w.Same = i == 1
	return w
}

var infoSets = [][]kit.Tag{
	nil,
	{{ID: wpk.TIDlabel, Val: []byte("label")}},
	{{ID: 0, Val: []byte("zero")}, {ID: wpk.TIDauthor, Val: []byte{}}, {ID: 65535, Val: bytes.Repeat([]byte("i"), 300)}},
}

// fill makes distinguishable content of given length.
func fill(seed string, n int) []byte {
	var b = make([]byte, n)
	for i := range b {
		b[i] = byte(i*7+i/251) ^ seed[i%len(seed)]
	}
	return b
}

var oddNames = []string{
	"a", "", ".", "..", "/", "/abs", "a/", "a/b", "a//b", "./a", "../a", "A", "a b", "файл.тхт", "\x00", "x\x00y",
	"@pack", "@pack/0", "\\", "a\\b", "c:\\d", "\xff\xfe", "a.b.c", "~", "%PATH%", strings.Repeat("n", 255), strings.Repeat("n/", 150),
	strings.Repeat("z", 65400),
}

func c01seq(tier string, layout int) mc.Scenario {
	var depth = pick(tier, 3, 4)
	var names = []string{"a", "b/c", "b\\c", "b"}
	var datas = [][]byte{{}, []byte("x"), []byte("hello, world"), fill("q", 300)}
	return mc.Scenario{Name: "sequences of packing, " + layoutNames[layout], Run: func(c *mc.C) {
		var w = newLayout(layout)
		var inf = c.Choose(len(infoSets))
		var infat = 0
		if inf > 0 {
			infat = c.Choose(2)
		}
		c.NoErr(w.Begin(), "begin")
		if inf > 0 && infat == 0 {
			w.SetInfo(infoSets[inf])
		}
		c.Logf("%s: begin, info #%d", layoutNames[layout], inf)
		for i := 0; i < depth; i++ {
			var k = c.Choose(1 + len(names)*len(datas))
			if k == 0 {
				break
			}
			var name, data = names[(k-1)%len(names)], datas[(k-1)/len(names)]
			c.Logf("pack %q with %d bytes", name, len(data))
			c.Step()
			if err := w.Pack(name, data); err != nil {
				c.Fail("%v", err)
			}
		}
		if inf > 0 && infat == 1 {
			w.SetInfo(infoSets[inf])
		}
		c.Step()
		c.NoErr(w.Finalize(), "finalize")
		c.State(w.Key())
		if err := w.Check(); err != nil {
			c.Fail("%v", err)
		}
		c.Outcome(w.Disk.Key())
	}}
}

func c01names(tier string) mc.Scenario {
	return mc.Scenario{Name: "odd names", Run: func(c *mc.C) {
		var w = newLayout(c.Choose(3))
		var n1, n2 = oddNames[c.Choose(len(oddNames))], oddNames[c.Choose(len(oddNames))]
		c.NoErr(w.Begin(), "begin")
		c.Logf("names %q, %q", cutName(n1), cutName(n2))
		c.Step()
		c.Step()
		if err := w.Pack(n1, []byte("first")); err != nil {
			c.Fail("%v", err)
		}
		if err := w.Pack(n2, []byte("2nd")); err != nil {
			c.Fail("%v", err)
		}
		c.NoErr(w.Finalize(), "finalize")
		c.State(w.Key())
		if err := w.Check(); err != nil {
			c.Fail("%v", err)
		}
		c.Outcome(w.Disk.Key())
	}}
}

func cutName(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%s...(%d bytes)", s[:60], len(s))
	}
	return s
}

// name that does not fit to the tagset should be reported, not written broken.
func c01long(tier string) mc.Scenario {
	var lens = []int{65490, 65500, 65510, 65511, 65512, 65513, 65514, 65515, 65516, 65517, 65518, 65519, 65520, 65521, 65522, 65523, 65524, 65530, 65535, 65536, 65537, 65540, 70000, 131072, 131080}
	return mc.Scenario{Name: "name of the limit length", Run: func(c *mc.C) {
		var w = newLayout(c.Choose(3))
		var n = lens[c.Choose(len(lens))]
		var name = strings.Repeat("w", n)
		c.NoErr(w.Begin(), "begin")
		c.NoErr(w.Pack("before", []byte("abc")), "pack")
		var sync bool
		if w.Split && c.Bool() {
			sync = true
			c.NoErr(w.Sync(), "sync")
		}
		c.Logf("%d bytes name, sync %v", n, sync)
		c.Step()
		var df = w.WPT
		if w.Split {
			df = w.WPF
		}
		var pos = df.Pos
		var _, err = w.Pkg.PackData(df, strings.NewReader("long"), name)
		if err == nil {
			var off = kit.EncUint(uint64(pos), 0)
			if fits := 4*3+len(off)+1+n <= 65535; fits {
				w.M.Add(name, []byte("long"), nil)
				c.NoErr(w.Finalize(), "finalize")
				if err = w.Check(); err != nil {
					c.Fail("%v", err)
				}
				return
			}
			if err = w.Pkg.Sync(w.WPT, secondOf(w)); err == nil {
				// everything can be got should be exact
				var pkg = wpk.NewPackage()
				if err = kit.OpenMem(pkg, w.WPT.Buf); err != nil {
					c.Fail("package with name of %d bytes is finalized, but can not be opened: %v", n, err)
				}
				if !pkg.HasTagset(name) || pkg.TagsetNum() != 2 {
					c.Fail("package with name of %d bytes is finalized, but the name is lost", n)
				}
				return
			}
		}
		c.Outcome(fmt.Sprint(n, err))
		// failed flush leaves previous state
		if err = w.CheckDisk(); err != nil {
			c.Fail("after failure: %v", err)
		}
	}}
}

func secondOf(w *kit.World) io.WriteSeeker {
	if w.Split {
		return w.WPF
	}
	if w.Same {
		return w.WPT
	}
	return nil
}

func c01sizes(tier string) mc.Scenario {
	var targets = []int{255, 256, 257, 65535, 65536, 65537}
	var sizes = []int{0, 1, 254, 255, 256, 257, 65535, 65536, 65537}
	return mc.Scenario{Name: "sizes and offsets around integer width", Run: func(c *mc.C) {
		var w = newLayout(c.Choose(3))
		var off = targets[c.Choose(len(targets))]
		var size = sizes[c.Choose(len(sizes))]
		c.NoErr(w.Begin(), "begin")
		var gap = off - int(seekPos(w))
		c.Logf("offset %d, size %d", off, size)
		c.Step()
		if err := w.Pack("gap", fill("g", gap)); err != nil {
			c.Fail("%v", err)
		}
		if err := w.Pack("probe", fill("probe", size)); err != nil {
			c.Fail("%v", err)
		}
		if err := w.Pack("after", []byte("after")); err != nil {
			c.Fail("%v", err)
		}
		c.NoErr(w.Finalize(), "finalize")
		if err := w.Check(); err != nil {
			c.Fail("%v", err)
		}
		c.State(w.Key())
		c.Outcome(fmt.Sprint(off, size))
	}}
}

func seekPos(w *kit.World) int64 {
	if w.Split {
		return w.WPF.Pos
	}
	return w.WPT.Pos
}

type zeroReader struct{ left int64 }

func (r *zeroReader) Read(p []byte) (int, error) {
	if r.left == 0 {
		return 0, io.EOF
	}
	if int64(len(p)) > r.left {
		p = p[:r.left]
	}
	clear(p)
	r.left -= int64(len(p))
	return len(p), nil
}

var zeroBuf = make([]byte, 1<<22)

func (r *zeroReader) WriteTo(w io.Writer) (n int64, err error) {
	for r.left > 0 && err == nil {
		var m int
		m, err = w.Write(zeroBuf[:min(r.left, int64(len(zeroBuf)))])
		n += int64(m)
		r.left -= int64(m)
	}
	return
}

// files beyond 4 GiB are placed at the sparse file.
func c01huge(tier string) mc.Scenario {
	return mc.Scenario{Name: "offsets and sizes beyond 4 GiB", Run: func(c *mc.C) {
		var split = c.Bool()
		var first = []int64{1<<32 - 65, 1<<32 - 1, 1 << 32, 1<<32 + 5}[c.Choose(4)]
		var bk = c.Choose(2) + 1 // bulk reads whole file to memory
		var wpt = &kit.SparseFile{Chunks: map[int64][]byte{}}
		var dat = wpt
		var pkg = wpk.NewPackage()
		var err error
		var second io.WriteSeeker
		if split {
			dat = &kit.SparseFile{Chunks: map[int64][]byte{}}
			second = dat
		}
		c.NoErr(pkg.Begin(wpt, second), "begin")
		c.Logf("split %v, first size %d, %s", split, first, kit.Backends[bk].Name)
		c.Step()
		var off0 = dat.Pos
		_, err = pkg.PackData(dat, &zeroReader{first}, "zero")
		c.NoErr(err, "pack")
		_, err = pkg.PackData(dat, strings.NewReader("tail content"), "tail")
		c.NoErr(err, "pack")
		c.NoErr(pkg.Sync(wpt, second), "finalize")
		var dir = scratchDir(c)
		var fw, fd = dir + "/p.wpt", dir + "/p.wpf"
		c.NoErr(wpt.Save(fw), "save")
		if split {
			c.NoErr(dat.Save(fd), "save")
		} else {
			fd = fw
		}
		pkg, err = kit.OpenReal(fw, fd, bk)
		c.NoErr(err, "open")
		defer pkg.Tagger.Close()
		var b []byte
		b, err = pkg.ReadFile("tail")
		c.NoErr(err, "read tail")
		c.Assert(string(b) == "tail content", "file beyond 4 GiB has content %q", b)
		var ts, _ = pkg.GetTagset("tail")
		var off, size = ts.Pos()
		c.Assert(int64(off) == off0+first && size == 12, "file beyond 4 GiB is at %d+%d, want %d", off, size, off0+first)
		var fi fs.FileInfo
		fi, err = pkg.Stat("zero")
		c.NoErr(err, "stat")
		c.Assert(fi.Size() == first, "size of huge file is %d, want %d", fi.Size(), first)
		var want = uint64(first) + 12
		c.Assert(uint64(pkg.DataSize()) == want, "data size is %d, want %d", pkg.DataSize(), want)
		c.Assert(pkg.TagsetNum() == 2, "count of files is %d", pkg.TagsetNum())
		var f fs.File
		f, err = pkg.Open("zero")
		c.NoErr(err, "open huge file")
		defer f.Close()
		var ra = f.(wpk.RFile)
		var buf [32]byte
		var n int
		n, err = ra.ReadAt(buf[:], first-5)
		c.Assert(n == 5 && err == io.EOF, "reading of the tail of huge file: %d, %v", n, err)
		c.Outcome(fmt.Sprint(split, first, bk))
	}}
}

// packing from the different sources to the real files.
func c01real(tier string) mc.Scenario {
	var names = []string{"a", "d/b", "d\\e"}
	var depth = pick(tier, 2, 3)
	return mc.Scenario{Name: "real files and all back-ends", Run: func(c *mc.C) {
		var layout = c.Choose(3)
		var dir = scratchDir(c)
		var fw, fd = dir + "/p.wpk", dir + "/p.wpk"
		if layout == 2 {
			fw, fd = dir+"/p.wpt", dir+"/p.wpf"
		}
		var wpt, err = os.OpenFile(fw, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
		c.NoErr(err, "create")
		defer wpt.Close()
		var dat = wpt
		var second io.WriteSeeker
		if layout == 2 {
			dat, err = os.OpenFile(fd, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
			c.NoErr(err, "create")
			defer dat.Close()
		}
		if layout > 0 {
			second = dat
		}
		var m = &kit.PModel{Info: infoSets[c.Choose(2)]}
		var pkg = wpk.NewPackage()
		c.NoErr(pkg.Begin(wpt, second), "begin")
		pkg.SetInfo(kit.EncTags(m.Info))
		for i := 0; i < depth; i++ {
			var k = c.Choose(1 + len(names)*2*3)
			if k == 0 {
				break
			}
			k--
			var name = names[k%len(names)]
			k /= len(names)
			var data = [][]byte{{}, fill(name, 5000)}[k%2]
			var src = k / 2
			var ts wpk.TagsetRaw
			c.Logf("pack %q with %d bytes from source %d", name, len(data), src)
			c.Step()
			switch src {
			case 0: // reader
				ts, err = pkg.PackData(dat, bytes.NewReader(data), name)
			case 1: // file at disk
				var fpath = fmt.Sprintf("%s/src%d", dir, i)
				c.NoErr(os.WriteFile(fpath, data, 0644), "write source")
				var f, err1 = os.Open(fpath)
				c.NoErr(err1, "open source")
				ts, err = pkg.PackFile(dat, f, name)
				f.Close()
			case 2: // file of any other file system
				var f, err1 = fstest.MapFS{"x": {Data: data, ModTime: time.Unix(1600000000, 5)}}.Open("x")
				c.NoErr(err1, "open source")
				ts, err = pkg.PackFile(dat, f, name)
				f.Close()
			}
			var nm = kit.Slash(name)
			if m.Find(nm) >= 0 {
				c.Assert(errors.Is(err, fs.ErrExist), "packing of present %q returns error %v", nm, err)
				continue
			}
			c.NoErr(err, "pack")
			var tags, err1 = kit.ParseTags(ts)
			c.NoErr(err1, "returned tagset")
			var tm, err2 = kit.TagsMap(tags)
			c.NoErr(err2, "returned tagset")
			delete(tm, 1)
			delete(tm, 2)
			delete(tm, 3)
			for tid := range tm {
				if src == 0 || tid < wpk.TIDmtime || tid > wpk.TIDbtime {
					c.Fail("packing puts odd tag %d", tid)
				}
			}
			if _, ok := tm[wpk.TIDmtime]; src > 0 && !ok {
				c.Fail("modification time is absent")
			}
			m.Add(nm, data, tm)
		}
		c.NoErr(pkg.Sync(wpt, second), "finalize")
		c.NoErr(wpt.Close(), "close")
		if layout == 2 {
			c.NoErr(dat.Close(), "close")
		}
		if err = kit.CheckReal(fw, fd, m); err != nil {
			c.Fail("%v", err)
		}
		c.State(m.Key())
		c.Outcome(m.Key())
	}}
}

// after packing tags of the files are changed in different ways.
func c01tags(tier string) mc.Scenario {
	var vals = []string{"", "v", strings.Repeat("V", 400)}
	var ids = []uint16{0, wpk.TIDfid, wpk.TIDmime, 65535}
	return mc.Scenario{Name: "tags of packed files", Run: func(c *mc.C) {
		var w = newLayout(c.Choose(3))
		c.NoErr(w.Begin(), "begin")
		for _, nm := range []string{"x", "y/z"} {
			if err := w.Pack(nm, fill(nm, 20)); err != nil {
				c.Fail("%v", err)
			}
			for i := 0; i < 2; i++ {
				var k = c.Choose(1 + len(ids)*len(vals))
				if k == 0 {
					break
				}
				k--
				c.Logf("%s: tag %d = %d bytes", nm, ids[k%len(ids)], len(vals[k/len(ids)]))
				c.Step()
				if err := w.SetTag(nm, ids[k%len(ids)], vals[k/len(ids)]); err != nil {
					c.Fail("%v", err)
				}
			}
		}
		c.NoErr(w.Finalize(), "finalize")
		if err := w.Check(); err != nil {
			c.Fail("%v", err)
		}
		c.State(w.Key())
		c.Outcome(w.Disk.Key())
	}}
}

func init() {
	reg(&mc.Prop{ID: "C01",
		Scenarios: func(tier string) []mc.Scenario {
			var s []mc.Scenario
			for i := range layoutNames {
				s = append(s, c01seq(tier, i))
			}
			return append(s, c01names(tier), c01long(tier), c01sizes(tier), c01tags(tier), c01real(tier), c01huge(tier), c01many(tier))
		},
		MemGB: 24,
		Bounds: func(tier string) string {
			return fmt.Sprintf("every sequence of up to %d packings over 4 names (two are the same after slash conversion) and 4 contents, 3 layouts, 5 ways to give package information; every ordered pair of %d odd names; name lengths around the tagset limit; offsets and sizes around 255, 65535 and 4 GiB; up to %d packings from 3 kinds of sources to the real files, read back by 3 back-ends; packages of every number of files up to the limits and around powers of 2 and 10 up to 65537 (3 layouts); up to 2 tags on each of 2 files", pick(tier, 3, 4), len(oddNames), pick(tier, 2, 3))
		},
	})
}
