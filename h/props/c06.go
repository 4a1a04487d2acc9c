package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"
	"testing/iotest"
	"time"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// faults injects failures, each one spends deviation.
type faults struct {
	c     *mc.C
	fired bool
	read  bool // inject to reads
}

func (f *faults) hook(mf *kit.MemFile) func(op string, n int) (int, error) {
	return func(op string, n int) (int, error) {
		switch op {
		case "seek":
			if f.c.Dev(2) == 1 {
				f.c.Logf("  seek fails")
				f.fired = true
				return 0, kit.ErrInjected
			}
		case "write":
			var kinds = 4
			if n <= 1 || (mf.ID == 0 && mf.Pos == 0 && n <= 64) {
				kinds = 2 // header is atomic
			}
			switch f.c.Dev(kinds) {
			case 1:
				f.c.Logf("  write of %d bytes fails", n)
				f.fired = true
				return 0, kit.ErrInjected
			case 2:
				f.c.Logf("  write of %d bytes fails after %d", n, n/2)
				f.fired = true
				return n / 2, kit.ErrInjected
			case 3:
				f.c.Logf("  write of %d bytes is short for 1 byte", n)
				f.fired = true
				return n - 1, nil
			}
		case "read":
			if n == 0 {
				return -1, nil
			}
			switch f.c.Dev(2) {
			case 1:
				f.c.Logf("  read of %d bytes fails", n)
				f.fired = true
				return 0, kit.ErrInjected
			}
		}
		return -1, nil
	}
}

// source is input of packing with injected failures and short reads.
type source struct {
	f    *faults
	data []byte
	end  bool // EOF is given with the last bytes
}

func (r *source) Read(p []byte) (n int, err error) {
	var max = len(p)
	switch r.f.c.Dev(4) {
	case 1:
		r.f.c.Logf("  source fails")
		r.f.fired = true
		return 0, kit.ErrInjected
	case 2:
		max = min(max, 1)
	case 3:
		if len(r.data) > 1 {
			r.f.c.Logf("  source fails after the first byte")
			r.f.fired = true
			n = copy(p[:1], r.data)
			return n, kit.ErrInjected
		}
	}
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n = copy(p[:max], r.data)
	r.data = r.data[n:]
	if len(r.data) == 0 && r.end {
		err = io.EOF
	}
	return
}

func c06hist(tier string, layout int) mc.Scenario {
	var depth = pick(tier, 5, 6)
	return mc.Scenario{Name: "failures at histories, " + layoutNames[layout], MaxDev: pick(tier, 1, 2), Run: func(c *mc.C) {
		var s = &hist{World: newLayout(layout)}
		var f = &faults{c: c}
		var hook = func() {
			s.WPT.Hook = f.hook(s.WPT)
			if s.WPF != nil {
				s.WPF.Hook = f.hook(s.WPF)
			}
		}
		var unhook = func() {
			s.WPT.Hook = nil
			if s.WPF != nil {
				s.WPF.Hook = nil
			}
		}
		// call runs operation with failures, tells whether it succeeded
		var call = func(what string, do func() error) bool {
			c.Step()
			c.Logf("%s", what)
			f.fired = false
			hook()
			var err = do()
			unhook()
			if f.fired && err == nil {
				c.Fail("%s: failure is passed silently", what)
			}
			if !f.fired && err != nil {
				c.Fail("%s: unexpected error %v", what, err)
			}
			return err == nil
		}
		s.NoFile = false
		if !call("begin", func() error { return s.Pkg.Begin(s.WPT, s.Second()) }) {
			if err := notReady(s.WPT.Buf); err != nil && !s.Split {
				c.Fail("after failed begin: %v", err)
			}
			return
		}
		s.Writing = true
		if s.Split {
			s.Disk = &kit.PModel{}
		}
		var names = []string{"a", "d/b"}
		for i := 0; i < depth; i++ {
			var failed bool
			if s.Writing {
				switch k := c.Choose(5); k {
				case 0: // flush or finalize
					failed = !call("flush", func() error { return s.Pkg.Sync(s.WPT, s.Second()) })
					if failed && !s.Split {
						if err := notReady(s.WPT.Buf); err != nil {
							c.Fail("after failed finalization: %v", err)
						}
						return
					}
					if !failed {
						s.Disk = s.M.Clone()
						if !s.Split {
							s.Writing = false
						}
					}
				case 1, 2:
					var name = names[k-1]
					if s.M.Find(name) >= 0 {
						c.Stop()
					}
					var data = []byte(fmt.Sprintf("%s#%d;", name, len(s.M.Ents)))
					failed = !call("pack "+name, func() error {
						var _, err = s.Pkg.PackData(s.DataFile(), &source{f, data, k == 2}, name)
						return err
					})
					if !failed {
						s.M.Add(name, data, nil)
					}
				case 3: // packing of file
					var name = "file"
					if s.M.Find(name) >= 0 {
						c.Stop()
					}
					var data = []byte("content of file")
					var ts wpk.TagsetRaw
					failed = !call("pack file", func() (err error) {
						ts, err = s.Pkg.PackFile(s.DataFile(), &srcFile{f, source{f, data, false}}, name)
						return err
					})
					if !failed {
						var tags, _ = kit.ParseTags(ts)
						var tm, _ = kit.TagsMap(tags)
						delete(tm, 1)
						delete(tm, 2)
						delete(tm, 3)
						s.M.Add(name, data, tm)
					}
				case 4:
					s.SetInfo(infoSets[1])
				}
			} else if c.Bool() {
				var hdr wpk.Header
				var ts wpk.TagsetRaw
				if call("query", func() (err error) {
					hdr, ts, err = wpk.GetPackageInfo(&kit.MemFile{Buf: s.WPT.Buf, Hook: f.hook(s.WPT)})
					return
				}) && (hdr.Count() != len(s.Disk.Ents) || !bytes.Equal(ts, kit.EncTags(s.Disk.Info))) {
					c.Fail("query gives wrong result")
				}
				var pkg = wpk.NewPackage()
				if call("open", func() error { return pkg.OpenStream(&kit.MemFile{Buf: s.WPT.Buf, Hook: f.hook(s.WPT)}) }) {
					pkg.Tagger = &kit.MemTagger{Data: s.Dat()}
					if err := s.Disk.CmpPkg(pkg); err != nil {
						c.Fail("opened: %v", err)
					}
				}
			} else if !call("append", func() error { return s.Pkg.Append(s.WPT, s.Second()) }) {
				return
			} else {
				s.Writing = true
				if !s.Split {
					s.Disk = nil
				}
			}
			if err := s.Check(); err != nil {
				if failed {
					c.Fail("after the failure: %v", err)
				}
				c.Fail("%v", err)
			}
			if c.DevLeft() == 0 {
				c.Prune(depth-i-1, s.key())
			}
		}
		if s.Writing { // it should be possible to go on after the failure
			if call("last flush", func() error { return s.Pkg.Sync(s.WPT, s.Second()) }) {
				s.Disk = s.M.Clone()
			}
			if err := s.Check(); err != nil {
				c.Fail("after the last flush: %v", err)
			}
		}
		c.Outcome(s.Disk.Key(), fmt.Sprint(c.DevLeft()))
	}}
}

// srcFile is file with failures.
type srcFile struct {
	f *faults
	source
}

func (r *srcFile) Stat() (fs.FileInfo, error) {
	if r.f.c.Dev(2) == 1 {
		r.f.c.Logf("  stat of source fails")
		r.f.fired = true
		return nil, kit.ErrInjected
	}
	return kit.FakeInfo{Nm: "file", Sz: int64(len(r.data)), MT: time.Unix(1700000000, 0)}, nil
}

func (r *srcFile) Close() error { return nil }

// pieceReader gives content by pieces of given size.
type pieceReader struct {
	kit.MemFile
	piece int
	eof   bool
	c     *mc.C
	zero  bool
}

func (r *pieceReader) Read(p []byte) (n int, err error) {
	if len(p) == 0 {
		return 0, nil
	}
	var max = r.piece
	if r.c != nil {
		switch r.c.Dev(5) {
		case 0:
			max = len(p)
		case 1:
			max = 1
		case 2:
			max = (len(p) + 1) / 2
		case 3:
			max = len(p) - 1
		case 4:
			return 0, nil
		}
		if max == 0 {
			max = 1
		}
	}
	if len(p) > max {
		p = p[:max]
	}
	if n, err = r.MemFile.Read(p); err == nil && r.eof && r.Pos >= int64(len(r.Buf)) {
		err = io.EOF
	}
	return
}

func pieceBase(i int) *kit.World {
	var w = newLayout([]int{0, 2}[i%2])
	w.Begin()
	if i >= 6 { // large info
		w.SetInfo([]kit.Tag{{ID: wpk.TIDlabel, Val: fill("info", []int{700, 60000}[i/2-3])}})
		w.Pack("a", []byte("content"))
	} else if i >= 2 {
		w.SetInfo(infoSets[i/2])
		w.Pack("a", []byte("content"))
		w.Pack("d/b", nil)
		w.SetTag("a", wpk.TIDcomment, string(fill("comment", 600)))
	}
	w.Finalize()
	return w
}

func checkPieces(c *mc.C, w *kit.World, mk func() *pieceReader) {
	c.Step()
	var pkg = wpk.NewPackage()
	if err := pkg.OpenStream(mk()); err != nil {
		c.Fail("opening by pieces: %v", err)
	}
	pkg.Tagger = &kit.MemTagger{Data: w.Dat()}
	if err := w.Disk.CmpPkg(pkg); err != nil {
		c.Fail("opened by pieces: %v", err)
	}
	var hdr, info, err = wpk.GetPackageInfo(mk())
	if err != nil {
		c.Fail("query by pieces: %v", err)
	}
	if hdr.Count() != len(w.Disk.Ents) || !bytes.Equal(info, kit.EncTags(w.Disk.Info)) {
		c.Fail("query by pieces gives %d entries, info %x", hdr.Count(), []byte(info))
	}
	var hdr2 wpk.Header
	if _, err = hdr2.ReadFrom(mk()); err != nil || hdr2 != hdr {
		c.Fail("header reading by pieces gives %v, %v", hdr2, err)
	}
	if w.Split || len(w.Disk.Ents) > 0 {
		var p2 = wpk.NewPackage()
		p2.Init(&hdr)
		var r = mk()
		var img, _ = kit.Decode(w.WPT.Buf)
		r.Pos = int64(img.Hdr.FttOff)
		if _, err = p2.FTT.ReadFrom(r); err != nil {
			c.Fail("table reading by pieces: %v", err)
		}
		p2.Tagger = &kit.MemTagger{Data: w.Dat()}
		if err = w.Disk.CmpPkg(p2); err != nil {
			c.Fail("table read by pieces: %v", err)
		}
	}
	c.State(w.Key())
}

func c06pieces(tier string) mc.Scenario {
	return mc.Scenario{Name: "reading by pieces of constant size", Run: func(c *mc.C) {
		var w = pieceBase(c.Choose(10))
		var piece = c.Choose(pick(tier, 80, 800)) + 1
		var eof = c.Bool()
		c.Logf("pieces of %d bytes, EOF with the last: %v", piece, eof)
		checkPieces(c, w, func() *pieceReader {
			return &pieceReader{MemFile: kit.MemFile{Buf: w.WPT.Buf}, piece: piece, eof: eof}
		})
		c.Outcome(fmt.Sprint(piece, eof))
	}}
}

func c06dev(tier string) mc.Scenario {
	return mc.Scenario{Name: "reading with short reads", MaxDev: pick(tier, 2, 3), Run: func(c *mc.C) {
		var w = pieceBase(c.Choose(8))
		var eof = c.Bool()
		checkPieces(c, w, func() *pieceReader {
			return &pieceReader{MemFile: kit.MemFile{Buf: w.WPT.Buf}, c: c, eof: eof}
		})
		c.Outcome(fmt.Sprint(eof, c.DevLeft()))
	}}
}

// packing of any stream gives its whole content.
func c06source(tier string) mc.Scenario {
	var lens = []int{0, 1, 2, 3, 31, 32, 33, 32767, 32768, 32769, 65536, 70000}
	return mc.Scenario{Name: "packing of streams by pieces", Run: func(c *mc.C) {
		var w = newLayout(c.Choose(3))
		w.Begin()
		var data = fill("stream", lens[c.Choose(len(lens))])
		var r io.Reader
		var kind = c.Choose(7)
		switch kind {
		case 0:
			r = bytes.NewReader(data)
		case 1:
			r = iotest.OneByteReader(bytes.NewReader(data))
		case 2:
			r = iotest.HalfReader(bytes.NewReader(data))
		case 3:
			r = iotest.DataErrReader(bytes.NewReader(data))
		case 4:
			r = iotest.DataErrReader(iotest.OneByteReader(bytes.NewReader(data)))
		case 5:
			r = io.MultiReader(bytes.NewReader(data[:len(data)/3]), iotest.HalfReader(bytes.NewReader(data[len(data)/3:])))
		case 6:
			r = bytes.NewBuffer(append([]byte{}, data...))
		}
		c.Logf("%d bytes, kind %d", len(data), kind)
		c.Step()
		var _, err = w.Pkg.PackData(w.DataFile(), r, "s")
		c.NoErr(err, "pack")
		w.M.Add("s", data, nil)
		if err = w.Pack("next", []byte("next")); err != nil {
			c.Fail("%v", err)
		}
		c.NoErr(w.Finalize(), "finalize")
		if err = w.Check(); err != nil {
			c.Fail("%v", err)
		}
		c.State(w.Key())
		c.Outcome(fmt.Sprint(len(data)))
	}}
}

// failures of streams under packing.
var srcErrors = []error{
	kit.ErrInjected, io.ErrUnexpectedEOF, io.ErrShortBuffer, io.ErrShortWrite, io.ErrNoProgress, io.ErrClosedPipe,
	fs.ErrClosed, fs.ErrNotExist, fmt.Errorf("wrapped: %w", io.EOF), context.Canceled, os.ErrDeadlineExceeded, syscall.EAGAIN, syscall.EINTR,
}

// failing of the stream always is the failure of packing.
func c06srcfail(string) mc.Scenario {
	var lens = []int{0, 1, 31, 32767, 32768, 32769, 70000}
	return mc.Scenario{Name: "packing of streams with any failure", Run: func(c *mc.C) {
		var w = newLayout(c.Choose(3))
		w.Begin()
		var data = fill("stream", lens[c.Choose(len(lens))])
		var fail = srcErrors[c.Choose(len(srcErrors))]
		var lim = &limReader{buf: data, err: fail, with: c.Bool()}
		if c.Bool() {
			lim.rest = fill("rest", 10)
		}
		var file = c.Bool()
		if len(data) == 0 && lim.with {
			c.Stop()
		}
		c.Logf("fails with %v after %d bytes", fail, len(data))
		c.Step()
		if err := w.Pack("first", []byte("first")); err != nil {
			c.Fail("%v", err)
		}
		var err error
		if file {
			_, err = w.Pkg.PackFile(w.DataFile(), &failFile{lim, int64(len(data))}, "s")
		} else {
			_, err = w.Pkg.PackData(w.DataFile(), lim, "s")
		}
		if !errors.Is(err, fail) {
			c.Fail("packing of stream that fails with %v after %d bytes returns %v", fail, len(data), err)
		}
		if err = w.Check(); err != nil {
			c.Fail("after the failure: %v", err)
		}
		for _, name := range []string{"next", "s"} {
			if err = w.Pack(name, []byte(name)); err != nil {
				c.Fail("%v", err)
			}
		}
		c.NoErr(w.Finalize(), "finalize")
		if err = w.Check(); err != nil {
			c.Fail("%v", err)
		}
		c.State(w.Key())
		c.Outcome(fmt.Sprint(len(data), fail))
	}}
}

// failFile is file that fails on reading.
type failFile struct {
	*limReader
	size int64
}

func (r *failFile) Stat() (fs.FileInfo, error) {
	return kit.FakeInfo{Nm: "file", Sz: r.size, MT: time.Unix(1700000000, 0)}, nil
}

func (r *failFile) Close() error { return nil }

// tagset that can not be written.
func c06range(tier string) mc.Scenario {
	return mc.Scenario{Name: "tagsets out of range", Run: func(c *mc.C) {
		var w = newLayout(c.Choose(3))
		w.Begin()
		w.Pack("a", []byte("first"))
		w.Pack("b", []byte("second"))
		if w.Split {
			w.Sync()
		}
		var n = []int{32767, 32760, 40000, 65535}[c.Choose(4)]
		var where = c.Choose(3)
		var big = wpk.TagsetRaw{}.Put(200, make(wpk.TagRaw, n)).Put(201, make(wpk.TagRaw, n))
		if where < 2 {
			var nm = []string{"a", "b"}[where]
			var ts, _ = w.Pkg.GetTagset(nm)
			w.Pkg.SetTagset(nm, append(wpk.CopyTagset(ts), big...))
		} else {
			w.Pkg.SetInfo(big)
		}
		c.Step()
		var err = w.Pkg.Sync(w.WPT, w.Second())
		c.Logf("tags of %d bytes at %d: %v", n, where, err)
		var total = len(big)
		if where < 2 {
			var ts, _ = w.Pkg.GetTagset([]string{"a", "b"}[where])
			total = len(ts)
		}
		if (err != nil) != (total > 65535) {
			c.Fail("flush of tagset with %d bytes returns error %v", total, err)
		}
		if err != nil {
			if !errors.Is(err, wpk.ErrRangeTSSize) {
				c.Fail("flush of tagset with %d bytes returns error %v", total, err)
			}
			if err = w.CheckDisk(); err != nil {
				c.Fail("after failed flush: %v", err)
			}
		} else {
			var pkg = wpk.NewPackage()
			c.NoErr(pkg.OpenStream(&kit.MemFile{Buf: w.WPT.Buf}), "open")
		}
		c.State(w.Key())
		c.Outcome(fmt.Sprint(err))
	}}
}

// limWriter fails after given number of bytes.
type limWriter struct {
	bytes.Buffer
	left  int
	once  bool // only one write fails
	quiet bool // writes in part without error
}

func (w *limWriter) Write(p []byte) (n int, err error) {
	if len(p) > w.left {
		n = w.left
		if !w.quiet {
			err = kit.ErrInjected
		}
		if w.once {
			w.left = n + 1<<30
		}
	} else {
		n = len(p)
	}
	w.left -= n
	w.Buffer.Write(p[:n])
	return
}

// limReader fails with given error after given number of bytes.
type limReader struct {
	buf  []byte
	err  error
	with bool   // error is given with the last bytes
	rest []byte // what is given after the error
}

// newLimReader makes reader that fails after k bytes, once or forever.
func newLimReader(c *mc.C, b []byte, k int) *limReader {
	switch c.Choose(5) {
	case 0:
		return &limReader{buf: b[:k:k], err: kit.ErrInjected}
	case 1:
		return &limReader{buf: b[:k:k], err: kit.ErrInjected, with: true}
	case 2:
		return &limReader{buf: b[:k:k], err: io.EOF}
	case 3:
		return &limReader{buf: b[:k:k], err: io.EOF, with: true}
	}
	return &limReader{buf: b[:k:k], err: kit.ErrInjected, rest: b[k:]}
}

func (r *limReader) Read(p []byte) (n int, err error) {
	if len(r.buf) == 0 {
		r.buf, r.rest = r.rest, nil
		return 0, r.err
	}
	n = copy(p, r.buf)
	r.buf = r.buf[n:]
	if len(r.buf) == 0 && r.with {
		err = r.err
	}
	return
}

// c06stream: header and table at streams that fail at every byte.
func c06stream(string) mc.Scenario {
	return mc.Scenario{Name: "streams of header and table failing at every byte", Run: func(c *mc.C) {
		var w = pieceBase(c.Choose(6))
		var img, err = kit.Decode(w.WPT.Buf)
		c.NoErr(err, "decode")
		var hb = w.WPT.Buf[:64]
		var tb = w.WPT.Buf[img.Hdr.FttOff : img.Hdr.FttOff+img.Hdr.FttSize]
		var hdr wpk.Header
		if n, err := hdr.Parse(hb); n != 64 || err != nil {
			c.Fail("header parsing gives %d, %v", n, err)
		}
		c.Step()
		c.State(string(w.WPT.Buf))
		if c.Bool() { // table
			if len(tb) == 0 {
				c.Stop()
			}
			if c.Bool() {
				var lim = limWriter{left: c.Choose(len(tb) + 1), once: c.Bool()}
				var full = lim.left == len(tb)
				if full {
					lim.once = false
				}
				var n, err = w.Pkg.FTT.WriteTo(&lim)
				if (err == nil) != full {
					c.Fail("table of %d bytes is written to the writer with failure after %d bytes, returned %d, %v", len(tb), lim.Len(), n, err)
				}
				if !lim.once && !bytes.HasPrefix(tb, lim.Bytes()) {
					c.Fail("table is written as %x, want %x", lim.Bytes(), tb)
				}
				if full && n != int64(len(tb)) {
					c.Fail("table of %d bytes is written, returned %d", len(tb), n)
				}
				if n > int64(lim.Len()) {
					c.Fail("%d bytes of table were written, returned %d", lim.Len(), n)
				}
				return
			}
			var k = c.Choose(len(tb) + 1)
			var r = newLimReader(c, tb, k)
			var pkg = wpk.NewPackage()
			pkg.Init(&hdr)
			var n, err = pkg.FTT.ReadFrom(r)
			if (err == nil) != (k == len(tb)) {
				c.Fail("table of %d bytes is read from the reader with failure after %d bytes, returned %d, %v", len(tb), k, n, err)
			}
			if err == nil {
				if n != int64(len(tb)) {
					c.Fail("table of %d bytes is read, returned %d", len(tb), n)
				}
				pkg.Tagger = &kit.MemTagger{Data: w.Dat()}
				if err = w.Disk.CmpPkg(pkg); err != nil {
					c.Fail("table is read wrong: %v", err)
				}
			}
			return
		}
		var k = c.Choose(65)
		if c.Bool() {
			var lim = limWriter{left: k, once: c.Bool(), quiet: c.Bool()}
			var n, err = hdr.WriteTo(&lim)
			if (err == nil) != (k == 64) {
				c.Fail("header is written to the writer with failure after %d bytes, returned %d, %v", k, n, err)
			}
			if !lim.once && !bytes.HasPrefix(hb, lim.Bytes()) || k == 64 && (n != 64 || lim.Len() != 64) {
				c.Fail("header is written as %x, want %x, returned %d", lim.Bytes(), hb, n)
			}
			return
		}
		var r = newLimReader(c, hb, k)
		var h2 wpk.Header
		var n, err2 = h2.ReadFrom(r)
		if (err2 == nil) != (k == 64) {
			c.Fail("header is read from the reader with failure after %d bytes, returned %d, %v", k, n, err2)
		}
		if err2 == nil && (h2 != hdr || n != 64) {
			c.Fail("header is read as %v, want %v, returned %d", h2, hdr, n)
		}
		var h3 wpk.Header
		if n, err := h3.Parse(hb[:k:k]); (err == nil) != (k == 64) {
			c.Fail("header of %d bytes is parsed, returned %d, %v", k, n, err)
		}
	}}
}

func init() {
	reg(&mc.Prop{ID: "C06",
		Scenarios: func(tier string) []mc.Scenario {
			var s []mc.Scenario
			for i := range layoutNames {
				s = append(s, c06hist(tier, i))
			}
			return append(s, c06pieces(tier), c06dev(tier), c06source(tier), c06srcfail(tier), c06range(tier), c06stream(tier), c06large(tier), c06largeRead(tier))
		},
		Assumptions: []string{"write of the header (up to 64 bytes at the file start) either succeeds or has no effect; writes to other places can fail in the middle or be short"},
		Bounds: func(tier string) string {
			return fmt.Sprintf("every history of %d operations with up to %d failures of writes, seeks, reads (full, partial and silently short writes) at every call; opening and query by pieces of every size up to %d, of packages with information up to 60 Kb, and with up to %d short reads at every call; packing of 12 lengths by 7 kinds of readers, and of 7 lengths of streams and files that fail with 13 errors; header and table of 6 packages written to and read from streams that fail at every byte, once or forever; a failure at every call of sessions with large tables (to 130 Kb) and streams (to %d bytes); reading of tables to 240 Kb by parts of 4 sizes that fails, or is cut, at %d places", pick(tier, 5, 6), pick(tier, 1, 2), pick(tier, 80, 800), pick(tier, 2, 3), pick(tier, 70000, 200000), pick(tier, 51, 501))
		},
	})
}
