package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime/metrics"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// checkHostile opens any bytes, and compares result with independent decoding.
// Returns decoded image if package is opened.
func checkHostile(c *mc.C, wpt []byte) (pkg *wpk.Package, img *kit.Image) {
	c.Step()
	var limit = uint64(1<<20 + 64*len(wpt))
	var a0 = allocated()
	pkg = wpk.NewPackage()
	var err = pkg.OpenStream(&kit.MemFile{Buf: wpt})
	if a := allocated() - a0; a > limit {
		c.Fail("opening of %d bytes allocates %d bytes", len(wpt), a)
	}
	a0 = allocated()
	var _, info, err1 = wpk.GetPackageInfo(&kit.MemFile{Buf: wpt})
	if a := allocated() - a0; a > limit {
		c.Fail("quick query of %d bytes allocates %d bytes", len(wpt), a)
	}
	var derr error
	img, derr = kit.Decode(wpt)
	if err1 == nil {
		if _, err := kit.ParseTags(info); err != nil {
			c.Fail("quick query returns broken info tagset %x", []byte(info))
		}
		if derr == nil && !bytes.Equal(info, img.InfoRaw) {
			c.Fail("quick query returns info %x, encoded is %x", []byte(info), img.InfoRaw)
		}
		if h, ok := kit.DecHeader(wpt); !ok || (!h.Ready() && !h.Build()) {
			c.Fail("quick query accepts bad header")
		}
	}
	if err != nil {
		c.Outcome("fails", fmt.Sprint(derr == nil))
		return nil, nil
	}
	if derr != nil {
		c.Fail("damaged package is opened: %v", derr)
	}
	c.Outcome("opens", fmt.Sprint(len(img.Ents)))
	// compare entries with encoded ones
	if !bytes.Equal(pkg.GetInfo(), img.InfoRaw) {
		c.Fail("package info is %x, encoded is %x", []byte(pkg.GetInfo()), img.InfoRaw)
	}
	if pkg.TagsetNum() != len(img.Ents) {
		c.Fail("package has %d entries, encoded are %d", pkg.TagsetNum(), len(img.Ents))
	}
	var i int
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		if i >= len(img.Ents) {
			c.Fail("extra entry %q", fkey)
		}
		var e = &img.Ents[i]
		i++
		if fkey != e.Name {
			c.Fail("entry is %q, encoded is %q", fkey, e.Name)
		}
		if !bytes.Equal(ts, e.Raw) {
			c.Fail("entry %q has tags %x, encoded are %x", fkey, []byte(ts), e.Raw)
		}
		var off, size = ts.Pos()
		if uint64(off) != e.Off || uint64(size) != e.Size || ts.Size() != int64(e.Size) || kit.Slash(ts.Path()) != e.Name {
			c.Fail("entry %q has range %d+%d, size %d, path %q, encoded is %d+%d", fkey, off, size, ts.Size(), ts.Path(), e.Off, e.Size)
		}
		if end := img.Hdr.DatOff + img.Hdr.DatSize; e.Off < img.Hdr.DatOff || e.Off > end || e.Size > end-e.Off {
			c.Fail("entry %q has range %d+%d out of data section", fkey, e.Off, e.Size)
		}
		ts.ModTime()
		ts.Mode()
		ts.Name()
		return true
	})
	return
}

// checkHostileRead reads all files of damaged package by all back-ends.
func checkHostileRead(c *mc.C, dir string, wpt, dat []byte, img *kit.Image) {
	var split = dat != nil
	if !split {
		dat = wpt
	}
	var fw, fd, err = kit.SaveReal(dir+"/h", wpt, dat, split)
	c.NoErr(err, "save")
	defer os.Remove(fw)
	defer os.Remove(fd)
	for bk, be := range kit.Backends {
		var pkg, err = kit.OpenReal(fw, fd, bk)
		if err != nil {
			continue
		}
		func() {
			defer pkg.Tagger.Close()
			for i := range img.Ents {
				c.Step()
				var e = &img.Ents[i]
				var want, werr = e.Content(dat)
				var got, err = pkg.ReadFile(e.Name)
				if err == nil && (werr != nil || !bytes.Equal(got, want)) {
					c.Fail("%s: reading of %q at %d+%d of %d bytes file gives %d bytes without error", be.Name, e.Name, e.Off, e.Size, len(dat), len(got))
				}
				if err != nil && werr == nil {
					c.Fail("%s: reading of %q at %d+%d of %d bytes file fails: %v", be.Name, e.Name, e.Off, e.Size, len(dat), err)
				}
				var ts, _ = pkg.GetTagset(e.Name)
				var f, err1 = pkg.Tagger.OpenTagset(ts)
				if err1 != nil {
					if werr == nil {
						c.Fail("%s: opening of %q fails: %v", be.Name, e.Name, err1)
					}
					continue
				}
				var b, err2 = io.ReadAll(io.LimitReader(f, 1<<20))
				if err2 == nil && (werr != nil || !bytes.Equal(b, want)) {
					c.Fail("%s: stream of %q at %d+%d of %d bytes file gives %d bytes without error", be.Name, e.Name, e.Off, e.Size, len(dat), len(b))
				}
				if err2 != nil && werr == nil {
					c.Fail("%s: stream of %q fails: %v", be.Name, e.Name, err2)
				}
				f.Close()
			}
			var f, err = pkg.Open(wpk.PackName)
			if err == nil {
				var end = img.Hdr.DatOff + img.Hdr.DatSize
				var b, err = io.ReadAll(io.LimitReader(f, 1<<20))
				if err == nil && (uint64(len(dat)) < end || !bytes.Equal(b, dat[:end])) {
					c.Fail("%s: raw content gives %d bytes of %d without error, data file has %d", be.Name, len(b), end, len(dat))
				}
				f.Close()
			}
		}()
	}
}

// base images for damages.
func hostileBase(i int) (wpt, dat []byte) {
	var w = newLayout([]int{0, 2, 0, 2}[i])
	w.Begin()
	w.Pack("a", []byte("first"))
	switch i {
	case 2: // all kinds of entries
		w.SetInfo(infoSets[1])
		w.Pack("d/bc", []byte{})
		w.SetTag("a", wpk.TIDmime, "text")
	case 3:
		w.Pack("b", []byte("2nd"))
		w.SetInfo(infoSets[1])
	}
	w.Finalize()
	if w.Split {
		return w.WPT.Bytes(), w.WPF.Bytes()
	}
	return w.WPT.Bytes(), nil
}

func hostile(c *mc.C, dir *string, wpt, dat []byte) {
	c.State(string(wpt))
	if _, img := checkHostile(c, wpt); img != nil {
		if *dir == "" {
			*dir = scratchDir(c)
		}
		checkHostileRead(c, *dir, wpt, dat, img)
	}
}

func c05bytes(tier string) mc.Scenario {
	return mc.Scenario{Name: "every byte with every value", Run: func(c *mc.C) {
		var wpt, dat = hostileBase(c.Choose(4))
		var i, v = c.Choose(len(wpt)), c.Choose(255) + 1
		wpt[i] ^= byte(v)
		c.Logf("byte %d is changed to %#x", i, wpt[i])
		var dir string
		hostile(c, &dir, wpt, dat)
	}}
}

func c05pairs(tier string) mc.Scenario {
	var vals = []byte{0, 1, 2, 3, 4, 0x3f, 0x40, 0x7f, 0x80, 0xff}
	return mc.Scenario{Name: "every pair of table bytes", Run: func(c *mc.C) {
		var n = 2
		if tier == "thorough" {
			n = 4
		}
		var wpt, dat = hostileBase(c.Choose(n))
		var h, _ = kit.DecHeader(wpt)
		var t = wpt[h.FttOff : h.FttOff+h.FttSize]
		var i = c.Choose(len(t) - 1)
		var j = i + 1 + c.Choose(len(t)-i-1)
		var v1, v2 = vals[c.Choose(len(vals))], vals[c.Choose(len(vals))]
		t[i], t[j] = v1, v2
		c.Logf("table bytes %d, %d are %#x, %#x", i, j, v1, v2)
		var dir string
		hostile(c, &dir, wpt, dat)
	}}
}

func c05cut(tier string) mc.Scenario {
	return mc.Scenario{Name: "every truncation", Run: func(c *mc.C) {
		var wpt, dat = hostileBase(c.Choose(4))
		var dir = scratchDir(c)
		if c.Bool() && dat != nil {
			var n = c.Choose(len(dat))
			c.Logf("data file is cut to %d", n)
			dat = dat[:n]
			hostile(c, &dir, wpt, dat)
			return
		}
		var n = c.Choose(len(wpt))
		if c.Bool() { // header fields are as for full file, tail is garbage
			c.Logf("bytes from %d are replaced", n)
			for i := n; i < len(wpt); i++ {
				wpt[i] = byte(c.Choose(2) * 0xff)
				for i++; i < len(wpt); i++ {
					wpt[i] = wpt[n]
				}
			}
		} else {
			c.Logf("tags file is cut to %d", n)
			wpt = wpt[:n]
		}
		hostile(c, &dir, wpt, dat)
	}}
}

func c05header(tier string) mc.Scenario {
	return mc.Scenario{Name: "header values", Run: func(c *mc.C) {
		var wpt, dat = hostileBase(c.Choose(4))
		var h, _ = kit.DecHeader(wpt)
		var l = uint64(len(wpt))
		var vals = []uint64{0, 1, 63, 64, l - h.FttOff, l, 1 << 20, 1 << 31, 1 << 33, 1<<63 - 1, 1 << 63, 1<<64 - 64, 1<<64 - 1}
		for _, f := range []*uint64{&h.Count, &h.FttOff, &h.FttSize, &h.DatOff, &h.DatSize} {
			if tier == "thorough" || f != &h.Count {
				if k := c.Choose(len(vals) + 1); k > 0 {
					*f = vals[k-1]
				}
			} else if k := c.Choose(4); k > 0 {
				*f = []uint64{0, 1 << 33, 1<<64 - 1}[k-1]
			}
		}
		if c.Bool() {
			copy(h.Sign[:], kit.SignBuild)
		}
		copy(wpt, h.Enc())
		c.Logf("header %+v", h)
		var dir string
		hostile(c, &dir, wpt, dat)
	}}
}

// tagsets composed from valid and invalid tags.
func c05sets(tier string) mc.Scenario {
	type opt struct {
		d string
		t []kit.Tag
	}
	var datlen = uint64(10)
	var u = kit.EncUint
	return mc.Scenario{Name: "composed tagsets", Run: func(c *mc.C) {
		var split = c.Bool()
		var base uint64
		if !split {
			base = 64
		}
		var vals = []uint64{0, base, base + 3, base + datlen - 1, base + datlen, base + datlen + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1, -base, -base - datlen + 1}
		var mk = func(id uint16) []opt {
			var o = []opt{{"absent", nil}, {"empty", []kit.Tag{{ID: id}}}, {"3 bytes", []kit.Tag{{ID: id, Val: []byte{1, 0, 0}}}},
				{"9 bytes", []kit.Tag{{ID: id, Val: make([]byte, 9)}}}}
			for _, v := range vals {
				o = append(o, opt{fmt.Sprint(v), []kit.Tag{{ID: id, Val: u(v, 0)}}})
			}
			return append(o, opt{"8 bytes", []kit.Tag{{ID: id, Val: u(base+1, 8)}}},
				opt{"repeated", []kit.Tag{{ID: id, Val: u(base+1, 1)}, {ID: id, Val: u(base+2, 1)}}},
				opt{"repeated, out of bounds at first", []kit.Tag{{ID: id, Val: u(1000, 0)}, {ID: id, Val: u(base+1, 1)}}},
				opt{"repeated, out of bounds at last", []kit.Tag{{ID: id, Val: u(base+1, 1)}, {ID: id, Val: u(1000, 0)}}},
				opt{"repeated, broken at first", []kit.Tag{{ID: id, Val: []byte{1, 2, 3}}, {ID: id, Val: u(base, 1)}}},
				opt{"repeated, broken at last", []kit.Tag{{ID: id, Val: u(base, 1)}, {ID: id, Val: []byte{}}}})
		}
		var offs, sizes = mk(1), mk(2)
		var paths = []opt{{"a", []kit.Tag{{ID: 3, Val: []byte("a")}}}, {"absent", nil}, {"empty", []kit.Tag{{ID: 3}}},
			{"b\\c", []kit.Tag{{ID: 3, Val: []byte("b\\c")}}}, {"repeated", []kit.Tag{{ID: 3, Val: []byte("a")}, {ID: 3, Val: []byte("b")}}}}
		var o, s, p = offs[c.Choose(len(offs))], sizes[c.Choose(len(sizes))], paths[c.Choose(len(paths))]
		var order = c.Choose(3)
		c.Logf("split %v, offset %s, size %s, path %s, order %d", split, o.d, s.d, p.d, order)
		var tags []kit.Tag
		switch order {
		case 0:
			tags = append(append(append(tags, o.t...), s.t...), p.t...)
		case 1:
			tags = append(append(append(tags, p.t...), s.t...), o.t...)
		case 2: // repeated ones are at the ends
			var rest []kit.Tag
			for _, x := range [][]kit.Tag{o.t, s.t, p.t} {
				if len(x) > 0 {
					tags = append(tags, x[0])
					rest = append(rest, x[1:]...)
				}
			}
			tags = append(tags, rest...)
		}
		var sets = [][]byte{kit.EncTags(tags)}
		if len(sets[0]) == 0 {
			sets = nil
		}
		var dat = fill("data", int(datlen))
		var extra = c.Choose(4) // second entry
		switch extra {
		case 1:
			sets = append(sets, kit.EncTags([]kit.Tag{{ID: 1, Val: u(base, 1)}, {ID: 2, Val: u(1, 1)}, {ID: 3, Val: []byte("a")}}))
		case 2:
			sets = append(sets, kit.EncTags([]kit.Tag{{ID: 1, Val: u(base, 1)}, {ID: 2, Val: u(1, 1)}, {ID: 3, Val: []byte("b/c")}}))
		case 3:
			sets = append(sets, kit.EncTags([]kit.Tag{{ID: 1, Val: u(base, 1)}, {ID: 2, Val: u(1, 1)}, {ID: 3, Val: []byte("b\\c")}}))
		}
		var h = kit.Header{Count: uint64(len(sets)), FttOff: 64 + datlen, DatOff: base, DatSize: datlen}
		copy(h.Sign[:], kit.SignReady)
		var table = kit.EncTable(nil, sets)
		h.FttSize = uint64(len(table))
		var wpt = h.Enc()
		wpt = append(wpt, dat...)
		wpt = append(wpt, table...)
		var dir string
		if split {
			hostile(c, &dir, wpt, dat)
		} else {
			hostile(c, &dir, wpt, nil)
		}
	}}
}

// short strings of table bytes from small alphabet.
func c05table(tier string) mc.Scenario {
	var depth = pick(tier, 6, 8)
	var alpha = []byte{0, 1, 3, 4, 0xff}
	return mc.Scenario{Name: "all short tables", Run: func(c *mc.C) {
		var n = c.Choose(depth + 1)
		var t []byte
		for i := 0; i < n; i++ {
			t = append(t, alpha[c.Choose(len(alpha))])
		}
		var size = []uint64{uint64(n), uint64(n) + 1, 4}[c.Choose(3)]
		var h = kit.Header{Count: 1, FttOff: 64, FttSize: size, DatSize: 10}
		copy(h.Sign[:], kit.SignReady)
		var wpt = append(h.Enc(), t...)
		c.Logf("table %x, size %d", t, size)
		var dir string
		hostile(c, &dir, wpt, nil)
	}}
}

// reader of tables from stream.
func c05stream(tier string) mc.Scenario {
	return mc.Scenario{Name: "reading of parts from stream", Run: func(c *mc.C) {
		var wpt, _ = hostileBase(c.Choose(4))
		var n = c.Choose(len(wpt) + 1)
		var h, _ = kit.DecHeader(wpt)
		wpt = wpt[:n]
		c.Step()
		c.Logf("%d bytes", n)
		var hdr wpk.Header
		var _, err = hdr.ReadFrom(bytes.NewReader(wpt))
		if (err != nil) != (n < 64) {
			c.Fail("header reading from %d bytes returns error %v", n, err)
		}
		var hdr2 wpk.Header
		if _, err = hdr2.Parse(wpt); (err != nil) != (n < 64) {
			c.Fail("header parsing from %d bytes returns error %v", n, err)
		}
		if n < int(h.FttOff) {
			return
		}
		if hdr != hdr2 || uint64(hdr.Count()) != h.Count || uint64(hdr.DataSize()) != h.DatSize || uint64(hdr.FttSize()) != h.FttSize {
			c.Fail("read header %+v and parsed %+v are different", hdr, hdr2)
		}
		var t = wpt[h.FttOff:]
		var p1, p2 = wpk.NewPackage(), wpk.NewPackage()
		p1.Init(&hdr)
		p2.Init(&hdr)
		var n1, n2 int64
		n1, err = p1.FTT.ReadFrom(bytes.NewReader(t))
		if (err != nil) != (len(t) < int(h.FttSize)) {
			c.Fail("table reading from %d bytes of %d returns error %v", len(t), h.FttSize, err)
		}
		n2, err = p2.Parse(t)
		if (err != nil) != (len(t) < int(h.FttSize)) {
			c.Fail("table parsing from %d bytes of %d returns error %v", len(t), h.FttSize, err)
		}
		if err == nil && (n1 != int64(h.FttSize) || n2 != n1 || p1.TagsetNum() != int(h.Count) || p2.TagsetNum() != int(h.Count)) {
			c.Fail("table reading gives %d entries, parsing gives %d", p1.TagsetNum(), p2.TagsetNum())
		}
		c.Outcome(fmt.Sprint(errors.Is(err, io.EOF), n1, n2))
		c.State(string(wpt))
	}}
}

func init() {
	reg(&mc.Prop{ID: "C05",
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{c05cut(tier), c05stream(tier), c05sets(tier), c05header(tier), c05bytes(tier), c05table(tier), c05pairs(tier)}
		},
		Assumptions: []string{"allocation is out of proportion when it exceeds 1 MB plus 64 bytes per input byte"},
		Bounds: func(tier string) string {
			return fmt.Sprintf("4 base packages: every byte with every value, every truncation of tags and data file, every pair of table bytes with 10x10 values, product of 13 values of each header field; all table byte strings over 5-symbol alphabet up to %d bytes; composed tagsets with valid, broken, repeated, overflowing tags; opened ones are read by 3 back-ends", pick(tier, 6, 8))
		},
	})
}
