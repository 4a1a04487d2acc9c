package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// memModel is reference in-memory reader.
type memModel struct {
	b   []byte
	pos int64
}

type ioRes struct {
	n   int64
	b   []byte
	err int // 0 - none, 1 - end of file, 2 - some other, 3 - any of them
}

func (m *memModel) read(n int) (r ioRes) {
	if m.pos >= int64(len(m.b)) {
		return ioRes{err: 1}
	}
	r.n = int64(n)
	if rest := int64(len(m.b)) - m.pos; r.n > rest {
		r.n = rest
	}
	r.b = m.b[m.pos : m.pos+r.n]
	m.pos += r.n
	return
}

func (m *memModel) readAt(n int, off int64) (r ioRes) {
	if off < 0 {
		return ioRes{err: 3}
	}
	if off >= int64(len(m.b)) {
		return ioRes{err: 1}
	}
	r.n = int64(n)
	if rest := int64(len(m.b)) - off; r.n > rest {
		r.n, r.err = rest, 1
	}
	r.b = m.b[off : off+r.n]
	return
}

func (m *memModel) seek(off int64, whence int) (r ioRes) {
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += m.pos
	case io.SeekEnd:
		off += int64(len(m.b))
	default:
		return ioRes{err: 2}
	}
	if off < 0 {
		return ioRes{err: 2}
	}
	m.pos = off
	return ioRes{n: off}
}

type rop struct {
	kind   int // 0 - read, 1 - positioned read, 2 - seek
	n      int
	off    int64
	whence int
}

func (o rop) String() string {
	switch o.kind {
	case 0:
		return fmt.Sprintf("read %d", o.n)
	case 1:
		return fmt.Sprintf("read %d at %d", o.n, o.off)
	}
	return fmt.Sprintf("seek %d, %d", o.off, o.whence)
}

func errClass(err error) int {
	switch {
	case err == nil:
		return 0
	case err == io.EOF:
		return 1
	}
	return 2
}

// do performs operation at the real file and at the model, and compares them.
func (o rop) do(f wpk.RFile, m *memModel) error {
	var got, want ioRes
	var buf []byte
	var err error
	var n int
	switch o.kind {
	case 0, 1:
		buf = make([]byte, o.n+3)
		for i := range buf {
			buf[i] = 0xA5
		}
		if o.kind == 0 {
			n, err = f.Read(buf[:o.n])
			want = m.read(o.n)
		} else {
			n, err = f.ReadAt(buf[:o.n], o.off)
			want = m.readAt(o.n, o.off)
		}
		got.n = int64(n)
		if n < 0 || n > o.n {
			return fmt.Errorf("%v: %d bytes are read", o, n)
		}
		if o.kind == 0 && want.err == 0 && o.n > 0 && n > 0 && err == nil && want.n > got.n {
			return fmt.Errorf("%v: %d bytes are read, want %d", o, n, want.n)
		}
		got.b = buf[:n]
		for _, x := range buf[o.n:] {
			if x != 0xA5 {
				return fmt.Errorf("%v: memory after the buffer is changed", o)
			}
		}
	case 2:
		got.n, err = f.Seek(o.off, o.whence)
		want = m.seek(o.off, o.whence)
		if want.err != 0 {
			got.n = 0
		}
	}
	got.err = errClass(err)
	if got.n != want.n {
		return fmt.Errorf("%v: result is %d, want %d (error %v)", o, got.n, want.n, err)
	}
	if want.err == 3 && got.err != 0 {
		got.err = 3
	}
	if got.err != want.err {
		return fmt.Errorf("%v: error is %v, want %s", o, err, []string{"none", "end of file", "an error", "any error"}[want.err])
	}
	if !bytes.Equal(got.b, want.b) {
		return fmt.Errorf("%v: content is %s, want %s", o, short(got.b), short(want.b))
	}
	return nil
}

type c11file struct {
	name string
	off  int
	size int
}

// c11pkg makes package with files at exact positions of data part.
func c11pkg(split bool, files []c11file) (ft, fd string, data map[string][]byte) {
	data = map[string][]byte{}
	var total int
	for _, f := range files {
		if f.off+f.size > total {
			total = f.off + f.size
		}
	}
	var dat = fill("data part", total)
	var sets [][]byte
	var h kit.Header
	copy(h.Sign[:], kit.SignReady)
	h.Count = uint64(len(files))
	h.DatSize = uint64(total)
	h.FttOff = 64
	if !split {
		h.DatOff = 64
		h.FttOff = uint64(total)
		h.DatSize = uint64(total - 64)
	}
	for _, f := range files {
		sets = append(sets, kit.EncTags([]kit.Tag{{ID: 1, Val: kit.EncUint(uint64(f.off), 0)}, {ID: 2, Val: kit.EncUint(uint64(f.size), 0)}, {ID: 3, Val: []byte(f.name)}}))
		data[f.name] = dat[f.off : f.off+f.size]
	}
	var table = kit.EncTable(nil, sets)
	h.FttSize = uint64(len(table))
	if split {
		ft = cached("c11.wpt", func() []byte { return append(h.Enc(), table...) })
		fd = cached("c11.wpf", func() []byte { return dat })
		return
	}
	copy(dat, h.Enc())
	for name, b := range data {
		data[name] = append([]byte{}, b...)
	}
	ft = cached("c11.wpk", func() []byte { return append(dat, table...) })
	return ft, ft, data
}

var c11sizes = []int{0, 1, 5, 4095, 4096, 4097, 65535, 65536, 65537}
var c11offs = []int{64, 65, 4095, 4096, 4097, 61440, 65535, 65536, 65537, 131071, 131072, 131073}

func c11files() (files []c11file) {
	for _, o := range c11offs {
		for _, s := range c11sizes {
			files = append(files, c11file{fmt.Sprintf("f/%d/%d", o, s), o, s})
		}
	}
	files = append(files, c11file{"end", 131073 + 65537, 0}, c11file{"last", 131073 + 65530, 7}, c11file{"all", 64, 131073 + 65537 - 64})
	return
}

func c11ops(size int, rich bool) (ops []rop) {
	var add = func(list *[]int64, v ...int64) {
		for _, x := range v {
			var have bool
			for _, y := range *list {
				have = have || x == y
			}
			if !have {
				*list = append(*list, x)
			}
		}
	}
	var n, off, rel []int64
	var s = int64(size)
	if rich {
		add(&n, 0, 1, 2, s, s+1)
		add(&off, -1, 0, 1, s-1, s, s+1)
		add(&rel, -1, 0, 1, -s, s, -s-1, s+1)
	} else {
		add(&n, 0, 2, s+1)
		add(&off, 0, 1, s)
		add(&rel, -1, 0, 2)
	}
	for _, k := range n {
		if k >= 0 {
			ops = append(ops, rop{kind: 0, n: int(k)})
		}
	}
	for _, k := range n {
		for _, o := range off {
			if k >= 0 && (rich || o != 1 || k == 2) {
				ops = append(ops, rop{kind: 1, n: int(k), off: o})
			}
		}
	}
	for _, r := range rel {
		for w := 0; w < 3; w++ {
			ops = append(ops, rop{kind: 2, off: r, whence: w})
		}
	}
	ops = append(ops, rop{kind: 2, off: 0, whence: 3}, rop{kind: 2, off: 0, whence: -1})
	if rich {
		ops = append(ops, rop{kind: 1, n: 1, off: 1<<63 - 1}, rop{kind: 2, off: 1<<62 + 5, whence: 0})
	}
	return
}

// c11open opens package by back-end, package objects are used again
// while execution does not close them.
var c11pool = map[string]*wpk.Package{}

func c11open(c *mc.C, split bool, be int) (*wpk.Package, map[string][]byte) {
	var ft, fd, data = c11pkg(split, c11files())
	var key = fmt.Sprintf("%v%d", split, be)
	if pkg, ok := c11pool[key]; ok {
		return pkg, data
	}
	var pkg, err = kit.OpenReal(ft, fd, be)
	c.NoErr(err, "open package")
	c11pool[key] = pkg
	return pkg, data
}

var c11data = map[bool]map[string][]byte{}

func c11get(c *mc.C, split bool, be int) (*wpk.Package, map[string][]byte) {
	if pkg, ok := c11pool[fmt.Sprintf("%v%d", split, be)]; ok && c11data[split] != nil {
		return pkg, c11data[split]
	}
	var pkg, data = c11open(c, split, be)
	c11data[split] = data
	return pkg, data
}

func openR(c *mc.C, pkg *wpk.Package, name string) wpk.RFile {
	var f, err = pkg.Open(name)
	c.NoErr(err, "open of "+name)
	var rf, ok = f.(wpk.RFile)
	c.Assert(ok, "opened file %s has no all readers", name)
	return rf
}

func init() {
	reg(&mc.Prop{
		ID:   "C11",
		Rule: "every sequence of read, positioned read and seek calls up to the depth bound on a file opened by each back-end, each result compared with reference reader over exact contents; interleavings of calls on two handles; whole reads of every file of the size x offset grid; an execution is one sequence",
		Bounds: func(tier string) string {
			return fmt.Sprintf("one handle: sizes 0,1,5 all operations depth %d (3 at page boundary), reduced alphabet depth %d, sizes around 4096 and 65536 x offsets around page boundaries depth %d; two handles on one file and on neighbour files: depth %d; grid of %d sizes x %d offsets", pick(tier, 2, 3), pick(tier, 3, 5), pick(tier, 1, 2), pick(tier, 3, 4), len(c11sizes), len(c11offs))
		},
		Assumptions: []string{"for negative offset of positioned read any error is accepted"},
		Scenarios: func(tier string) (scs []mc.Scenario) {
			var onehandle = func(c *mc.C, split bool, be int, name string, ops []rop, depth int) {
				var pkg, data = c11get(c, split, be)
				var f = openR(c, pkg, name)
				defer f.Close()
				var m = &memModel{b: data[name]}
				for i := 0; i < depth; i++ {
					var o = ops[c.Choose(len(ops))]
					c.Logf("%s: %v", name, o)
					c.Step()
					if err := o.do(f, m); err != nil {
						c.Fail("%s: %s: %v", kit.Backends[be].Name, name, err)
					}
					c.State(name, fmt.Sprint(be, m.pos))
				}
				// where it is now, and that remainder is readable
				if err := (rop{kind: 2, off: 0, whence: 1}).do(f, m); err != nil {
					c.Fail("%s: %s: position: %v", kit.Backends[be].Name, name, err)
				}
				var rest, err = io.ReadAll(f)
				var want []byte
				if m.pos < int64(len(m.b)) {
					want = m.b[m.pos:]
				}
				if err != nil || !bytes.Equal(rest, want) {
					c.Fail("%s: %s: remainder has %d bytes, want %d, error %v", kit.Backends[be].Name, name, len(rest), len(want), err)
				}
			}
			for _, size := range []int{0, 1, 5} {
				var ops = c11ops(size, true)
				scs = append(scs, mc.Scenario{Name: fmt.Sprintf("one handle, %d bytes", size), ShardDepth: 3, Run: func(c *mc.C) {
					var be = c.Choose(3)
					var split = c.Bool()
					var off = []int{64, 4095, 65535, 131072}[c.Choose(4)]
					if split {
						off = 65536 + off%3
					}
					var depth = pick(tier, 2, 3)
					if off == 65535 {
						depth = 3
					}
					onehandle(c, split, be, fmt.Sprintf("f/%d/%d", clampOff(off), size), ops, depth)
				}})
				var few = c11ops(size, false)
				scs = append(scs, mc.Scenario{Name: fmt.Sprintf("one handle, %d bytes, deep", size), ShardDepth: 3, Run: func(c *mc.C) {
					var be = c.Choose(3)
					onehandle(c, size == 1, be, fmt.Sprintf("f/65535/%d", size), few, pick(tier, 3, 5))
				}})
			}
			scs = append(scs, mc.Scenario{Name: "one handle, pages", ShardDepth: 3, Run: func(c *mc.C) {
				var be = c.Choose(3)
				var size = c11sizes[3+c.Choose(len(c11sizes)-3)]
				var off = c11offs[c.Choose(len(c11offs))]
				onehandle(c, off&1 != 0, be, fmt.Sprintf("f/%d/%d", off, size), c11ops(size, true), pick(tier, 1, 2))
			}})
			for _, pair := range [][2]string{{"f/4096/5", "f/4096/5"}, {"f/4095/5", "f/4096/5"}, {"f/65535/1", "f/65536/5"}, {"f/64/0", "f/64/5"}, {"last", "end"}} {
				var ops = c11ops(5, false)
				scs = append(scs, mc.Scenario{Name: fmt.Sprintf("two handles, %s and %s", pair[0], pair[1]), ShardDepth: 3, Run: func(c *mc.C) {
					var be = c.Choose(3)
					var split = c.Bool()
					var pkg, data = c11get(c, split, be)
					var f [2]wpk.RFile
					var m [2]*memModel
					for i, name := range pair {
						f[i] = openR(c, pkg, name)
						m[i] = &memModel{b: data[name]}
					}
					var open = [2]bool{true, true}
					for i := 0; i < pick(tier, 3, 4); i++ {
						var k = c.Choose(2*len(ops) + 1)
						if k == 2*len(ops) { // close the first one
							if open[0] {
								open[0] = false
								c.NoErr(f[0].Close(), "close")
								c.Logf("close first")
							}
							continue
						}
						var h = k % 2
						if !open[h] {
							continue
						}
						c.Logf("%s: %v", pair[h], ops[k/2])
						c.Step()
						if err := ops[k/2].do(f[h], m[h]); err != nil {
							for i := range f {
								if open[i] {
									f[i].Close()
								}
							}
							c.Fail("%s: handle #%d: %v", kit.Backends[be].Name, h, err)
						}
					}
					for i := range f {
						if open[i] {
							if err := (rop{kind: 0, n: 6}).do(f[i], m[i]); err != nil {
								c.Fail("%s: handle #%d at the end: %v", kit.Backends[be].Name, i, err)
							}
							c.NoErr(f[i].Close(), "close")
						}
					}
				}})
			}
			scs = append(scs, mc.Scenario{Name: "grid", ShardDepth: 2, Run: func(c *mc.C) {
				var be = c.Choose(3)
				var split = c.Bool()
				var ft, fd, data = c11pkg(split, c11files())
				var pkg, err = kit.OpenReal(ft, fd, be)
				c.NoErr(err, "open package")
				var copies = map[string][]byte{}
				for name, want := range data {
					c.Step()
					b, err := pkg.ReadFile(name)
					if err != nil || !bytes.Equal(b, want) {
						c.Fail("%s: %s: whole read has %d bytes, want %d, error %v", kit.Backends[be].Name, name, len(b), len(want), err)
					}
					copies[name] = b
					var f = openR(c, pkg, name)
					b, err = io.ReadAll(f)
					if err != nil || !bytes.Equal(b, want) {
						c.Fail("%s: %s: handle gives %d bytes, want %d, error %v", kit.Backends[be].Name, name, len(b), len(want), err)
					}
					var buf [64]byte
					if n, err := f.ReadAt(buf[:], int64(len(want))-7); len(want) > 7 && (n != 7 || err != io.EOF || !bytes.Equal(buf[:n], want[len(want)-7:])) {
						c.Fail("%s: %s: tail of %d bytes, error %v", kit.Backends[be].Name, name, n, err)
					}
					c.NoErr(f.Close(), "close of file")
				}
				c.NoErr(pkg.Tagger.Close(), "close of package")
				for name, want := range data {
					if !bytes.Equal(copies[name], want) {
						c.Fail("%s: %s: whole-file content is changed after closing", kit.Backends[be].Name, name)
					}
					for i := range copies[name] { // private memory
						copies[name][i]++
					}
				}
			}})
			scs = append(scs, mc.Scenario{Name: "absent data file", Solo: true, Run: func(c *mc.C) {
				var be = c.Choose(3)
				var ft, _, data = c11pkg(true, c11files())
				var pkg, err = kit.OpenReal(ft, scratchDir(c)+"/absent.wpf", be)
				if err != nil {
					c.Assert(errors.Is(err, os.ErrNotExist), "error on absent data file is %v", err)
					return
				}
				defer pkg.Tagger.Close()
				for name := range data {
					if _, err = pkg.ReadFile(name); !errors.Is(err, os.ErrNotExist) {
						c.Fail("%s: reading %s without data file: error is %v", kit.Backends[be].Name, name, err)
					}
				}
			}})
			return
		},
	})
}

// clampOff brings offset to the nearest one of the grid.
func clampOff(off int) int {
	var best = c11offs[0]
	for _, o := range c11offs {
		if o <= off {
			best = o
		}
	}
	return best
}
