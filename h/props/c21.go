package props

import (
	"bytes"
	"fmt"
	"io"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

var perms3 = [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// checkForeign opens package made by independent encoder.
func checkForeign(c *mc.C, wpt, dat []byte, split bool, m *kit.PModel, files bool) {
	c.Step()
	c.State(string(wpt), string(dat))
	if img, err := kit.Decode(wpt); err != nil {
		panic("encoder is wrong: " + err.Error())
	} else if err = m.CmpImage(img, dat); err != nil {
		panic("encoder is wrong: " + err.Error())
	}
	var pkg = wpk.NewPackage()
	if err := kit.OpenMem(pkg, wpt); err != nil {
		c.Fail("valid package is not opened: %v", err)
	}
	if pkg.IsSplitted() != split {
		c.Fail("IsSplitted is %v", pkg.IsSplitted())
	}
	var h, _ = kit.DecHeader(wpt)
	if uint64(pkg.DataSize()) != h.DatSize {
		c.Fail("data size is %d, want %d", pkg.DataSize(), h.DatSize)
	}
	pkg.Tagger = &kit.MemTagger{Data: dat}
	if err := m.CmpPkg(pkg); err != nil {
		c.Fail("%v", err)
	}
	checkQuick(c, wpt, false)
	if files {
		var dir = scratchDir(c)
		var d []byte
		if split {
			d = dat
		}
		var ft, fd, err = kit.SaveReal(dir+"/p", wpt, d, split)
		c.NoErr(err, "save")
		if err = kit.CheckReal(ft, fd, m); err != nil {
			c.Fail("%v", err)
		}
	}
	c.Outcome(m.Key(), fmt.Sprint(h.FttOff, h.DatOff, h.DatSize))
}

// c21ids: identifiers of tags are the documented numbers.
func c21ids() mc.Scenario {
	var list = []struct {
		name string
		id   wpk.TID
		want wpk.TID
	}{
		{"none", wpk.TIDnone, 0}, {"offset", wpk.TIDoffset, 1}, {"size", wpk.TIDsize, 2}, {"path", wpk.TIDpath, 3}, {"fid", wpk.TIDfid, 4},
		{"mtime", wpk.TIDmtime, 5}, {"atime", wpk.TIDatime, 6}, {"ctime", wpk.TIDctime, 7}, {"btime", wpk.TIDbtime, 8}, {"attr", wpk.TIDattr, 9}, {"mime", wpk.TIDmime, 10},
		{"crc32ieee", wpk.TIDcrc32ieee, 11}, {"crc32c", wpk.TIDcrc32c, 12}, {"crc32k", wpk.TIDcrc32k, 13}, {"crc64iso", wpk.TIDcrc64iso, 14},
		{"md5", wpk.TIDmd5, 20}, {"sha1", wpk.TIDsha1, 21}, {"sha224", wpk.TIDsha224, 22}, {"sha256", wpk.TIDsha256, 23}, {"sha384", wpk.TIDsha384, 24}, {"sha512", wpk.TIDsha512, 25},
		{"tmbjpeg", wpk.TIDtmbjpeg, 100}, {"tmbwebp", wpk.TIDtmbwebp, 101}, {"label", wpk.TIDlabel, 110}, {"link", wpk.TIDlink, 111}, {"keywords", wpk.TIDkeywords, 112},
		{"category", wpk.TIDcategory, 113}, {"version", wpk.TIDversion, 114}, {"author", wpk.TIDauthor, 115}, {"comment", wpk.TIDcomment, 116},
	}
	return mc.Scenario{Name: "identifiers", ShardDepth: 1, Run: func(c *mc.C) {
		var e = list[c.Choose(len(list))]
		c.Step()
		c.State(e.name)
		c.Outcome(e.name)
		if e.id != e.want {
			c.Fail("tag %s has identifier %d, format says %d", e.name, e.id, e.want)
		}
		var tag = append(append(kit.EncUint(uint64(e.want), 2), 3, 0), "val"...)
		if ts := (wpk.TagsetRaw{}).Put(e.id, wpk.StrTag("val")); !bytes.Equal(ts, tag) {
			c.Fail("tag %s is encoded as %x, want %x", e.name, []byte(ts), tag)
		}
	}}
}

// c21tags: widths of integers and order of tags.
func c21tags(tier string) mc.Scenario {
	var widths = []int{1, 2, 4, 8}
	var extras = [][]kit.Tag{nil, {{ID: 0, Val: []byte{}}}, {{ID: wpk.TIDmime, Val: []byte("text/plain")}}, {{ID: 40000, Val: fill("x", 300)}, {ID: wpk.TIDfid, Val: []byte{5, 0}}}}
	return mc.Scenario{Name: "tags encoding", Run: func(c *mc.C) {
		var split = c.Bool()
		var base uint64
		if !split {
			base = 64
		}
		var m = &kit.PModel{Info: infoSets[c.Choose(2)]}
		var dat = make([]byte, base)
		var sets [][]byte
		var n = pick(tier, 1, 2)
		for i := 0; i < n; i++ {
			var wo, ws = widths[c.Choose(4)], widths[c.Choose(4)]
			var perm = perms3[c.Choose(6)]
			var ex = extras[c.Choose(len(extras))]
			var at = c.Choose(3) // place of extra tags
			var name = []string{"a", "dir/b"}[i]
			if i == 0 && at == 2 {
				name = "dir\\a" // name is normalized at reading
			}
			var data = fill(name, 5+i)
			var must = []kit.Tag{{ID: 1, Val: kit.EncUint(uint64(len(dat)), wo)}, {ID: 2, Val: kit.EncUint(uint64(len(data)), ws)}, {ID: 3, Val: []byte(name)}}
			var tags []kit.Tag
			for j, k := range perm {
				if at == j {
					tags = append(tags, ex...)
				}
				tags = append(tags, must[k])
			}
			c.Logf("%s: widths %d, %d, order %v, %d extra tags at %d", name, wo, ws, perm, len(ex), at)
			dat = append(dat, data...)
			sets = append(sets, kit.EncTags(tags))
			var tm, _ = kit.TagsMap(ex)
			m.Add(kit.Slash(name), data, tm)
			m.Ents[i].Raw = name
		}
		var table = kit.EncTable(kit.EncTags(m.Info), sets)
		var h = kit.Header{Count: uint64(n), FttSize: uint64(len(table)), DatOff: base, DatSize: uint64(len(dat)) - base}
		copy(h.Sign[:], kit.SignReady)
		if split {
			h.FttOff = 64
			checkForeign(c, append(h.Enc(), table...), dat, true, m, n == 1)
		} else {
			h.FttOff = uint64(len(dat))
			copy(dat, h.Enc())
			dat = append(dat, table...)
			checkForeign(c, dat, dat, false, m, n == 1)
		}
	}}
}

// c21place: places of table and data.
func c21place(tier string) mc.Scenario {
	return mc.Scenario{Name: "places of table and data", Run: func(c *mc.C) {
		var split = c.Bool()
		var pre = split && c.Bool() // prebuild signature at split package
		var n = c.Choose(4)
		var order = perms3[c.Choose(6)] // order of data blocks
		var gap = c.Choose(3)           // gaps between the blocks
		var share = n > 1 && c.Bool()   // the last entry has part of the first one
		var before = c.Bool()           // table is before the data
		var g1, g2 = c.Choose(2) * 5, c.Choose(2) * 70000
		var m = &kit.PModel{Info: infoSets[c.Choose(3)]}
		c.Logf("split %v, prebuild %v, %d entries, order %v, gaps %d, shared %v, table before %v, gaps of table %d, %d", split, pre, n, order, gap, share, before, g1, g2)
		var names = []string{"a", "dir/b", "dir/sub/c"}
		var datas = [][]byte{fill("A", 9), {}, fill("CC", 3)}
		var block []byte
		var offs [3]uint64
		for _, k := range order {
			if k < n {
				block = append(block, fill("-", gap)...)
				offs[k] = uint64(len(block))
				block = append(block, datas[k]...)
			}
		}
		block = append(block, fill("+", gap*2)...)
		if share {
			offs[n-1] = offs[0] + 2
			datas[n-1] = datas[0][2:7]
		}
		// place of data
		var build = func(datoff uint64) []byte {
			var sets [][]byte
			m.Ents = nil
			for i := 0; i < n; i++ {
				sets = append(sets, kit.EncTags([]kit.Tag{{ID: 1, Val: kit.EncUint(offs[i]+datoff, 8)}, {ID: 2, Val: kit.EncUint(uint64(len(datas[i])), 0)}, {ID: 3, Val: []byte(names[i])}}))
				m.Add(names[i], datas[i], nil)
			}
			return kit.EncTable(kit.EncTags(m.Info), sets)
		}
		var h = kit.Header{Count: uint64(n), DatSize: uint64(len(block))}
		copy(h.Sign[:], kit.SignReady)
		if pre {
			copy(h.Sign[:], kit.SignBuild)
		}
		var wpt []byte
		if split {
			var t = build(0)
			h.FttOff, h.FttSize = uint64(64+g1), uint64(len(t))
			wpt = append(h.Enc(), fill("*", g1)...)
			wpt = append(wpt, t...)
			wpt = append(wpt, fill("*", g2)...)
			checkForeign(c, wpt, block, true, m, false)
			return
		}
		if before {
			var t = build(0)
			h.FttOff, h.FttSize = uint64(64+g1), uint64(len(t))
			h.DatOff = h.FttOff + h.FttSize + uint64(g2)
			t = build(h.DatOff)
			wpt = append(h.Enc(), fill("*", g1)...)
			wpt = append(wpt, t...)
			wpt = append(wpt, fill("*", g2)...)
			wpt = append(wpt, block...)
		} else {
			h.DatOff = uint64(64 + g1)
			var t = build(h.DatOff)
			h.FttOff, h.FttSize = h.DatOff+h.DatSize+uint64(g2), uint64(len(t))
			wpt = append(h.Enc(), fill("*", g1)...)
			wpt = append(wpt, block...)
			wpt = append(wpt, fill("*", g2)...)
			wpt = append(wpt, t...)
		}
		checkForeign(c, wpt, wpt, false, m, g2 == 0 || tier == "thorough")
	}}
}

// c21write: written package is byte-for-byte the same as of independent encoder.
func c21write(tier string) mc.Scenario {
	var depth = pick(tier, 3, 4)
	var names = []string{"a", "d/b", "c"}
	var datas = [][]byte{{}, []byte("xyz"), fill("Q", 260)}
	return mc.Scenario{Name: "written bytes", Run: func(c *mc.C) {
		var layout = c.Choose(3)
		var w = newLayout(layout)
		c.NoErr(w.Begin(), "begin")
		var bh = kit.Header{}
		copy(bh.Sign[:], kit.SignBuild)
		if !w.Split {
			bh.FttOff, bh.DatOff = 64, 64
		}
		if !bytes.Equal(w.WPT.Buf, bh.Enc()) {
			c.Fail("begin writes %x, want %x", w.WPT.Buf, bh.Enc())
		}
		var data []byte
		if !w.Split {
			data = bh.Enc()
		}
		var ents [][]kit.Tag
		var info = infoSets[c.Choose(3)]
		w.SetInfo(info)
		for i := 0; i < depth; i++ {
			var k = c.Choose(1 + 3*len(datas))
			if k == 0 {
				break
			}
			k--
			var name, d = names[k%3], datas[k/3]
			var has = w.M.Find(name) >= 0
			c.Logf("pack %s, %d bytes", name, len(d))
			c.Step()
			if err := w.Pack(name, d); err != nil {
				c.Fail("%v", err)
			}
			if has {
				continue
			}
			var tags = []kit.Tag{{ID: 1, Val: kit.EncUint(uint64(len(data)), 0)}, {ID: 2, Val: kit.EncUint(uint64(len(d)), 0)}, {ID: 3, Val: []byte(name)}}
			data = append(data, d...)
			if c.Bool() {
				w.SetTag(name, wpk.TIDmime, "mm")
				tags = append(tags, kit.Tag{ID: wpk.TIDmime, Val: []byte("mm")})
			}
			ents = append(ents, tags)
		}
		c.NoErr(w.Finalize(), "finalize")
		c.State(w.Key())
		var sets [][]byte
		for _, e := range ents {
			sets = append(sets, kit.EncTags(e))
		}
		var table = kit.EncTable(kit.EncTags(info), sets)
		if !w.Split {
			var h = kit.Header{Count: uint64(len(ents)), FttOff: uint64(len(data)), FttSize: uint64(len(table)), DatOff: 64, DatSize: uint64(len(data)) - 64}
			copy(h.Sign[:], kit.SignReady)
			copy(data, h.Enc())
			if want := append(data, table...); !bytes.Equal(w.WPT.Buf, want) {
				c.Fail("package is written as %x, want %x", w.WPT.Buf, want)
			}
			c.Outcome(string(data))
			return
		}
		if !bytes.Equal(w.WPF.Buf, data) {
			c.Fail("data part is written as %x, want %x", w.WPF.Buf, data)
		}
		var h, ok = kit.DecHeader(w.WPT.Buf)
		var want = kit.Header{Count: uint64(len(ents)), FttOff: h.FttOff, FttSize: uint64(len(table)), DatOff: 0, DatSize: uint64(len(data))}
		copy(want.Sign[:], kit.SignReady)
		if !ok || h != want {
			c.Fail("header is %+v, want %+v", h, want)
		}
		if h.FttOff < 64 || int(h.FttOff) > len(w.WPT.Buf)-len(table) || !bytes.Equal(w.WPT.Buf[h.FttOff:int(h.FttOff)+len(table)], table) {
			c.Fail("table is not written at its offset %d", h.FttOff)
		}
		c.Outcome(string(table))
	}}
}

// c21far: integers at the edges of their widths, at sparse real files.
func c21far(string) mc.Scenario {
	var widths = []int{1, 2, 4, 8}
	var pos = []uint64{0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 7, 1<<32 - 1, 1 << 32, 1<<32 + 77, 1<<33 + 1, 1<<40 + 3}
	var sizes = []uint64{0, 1, 127, 128, 255, 256, 32768, 65535, 65536, 70001}
	return mc.Scenario{Name: "edges of integers", Run: func(c *mc.C) {
		var split = c.Bool()
		var off, size = pos[c.Choose(len(pos))], sizes[c.Choose(len(sizes))]
		var huge = size == 1 && c.Bool() // only table can have it
		var minw = func(v uint64) int { return len(kit.EncUint(v, 0)) }
		var wo = widths[c.Choose(4)]
		var base uint64
		if !split {
			base = 64
		}
		off += base
		var data = fill("far", int(size))
		if huge {
			size = []uint64{1<<31 + 3, 1<<32 - 1, 1 << 32, 1<<40 + 5}[c.Choose(4)]
		}
		var ws = widths[c.Choose(4)]
		if wo < minw(off) || ws < minw(size) {
			c.Stop()
		}
		var rest = uint64(c.Choose(2)) * 1000 // after the file
		c.Logf("offset %d by %d bytes, size %d by %d bytes, %d more bytes", off, wo, size, ws, rest)
		c.Step()
		c.State(fmt.Sprint(split, off, size, wo, ws))
		var set = kit.EncTags([]kit.Tag{{ID: 1, Val: kit.EncUint(off, wo)}, {ID: 2, Val: kit.EncUint(size, ws)}, {ID: 3, Val: []byte("d/far")}})
		var table = kit.EncTable(nil, [][]byte{set})
		var h = kit.Header{Count: 1, FttSize: uint64(len(table)), DatOff: base, DatSize: off + size + rest - base, FttOff: 64}
		copy(h.Sign[:], kit.SignReady)
		if !split { // table is behind the data
			h.FttOff = off + size + rest
		}
		var ft = &kit.SparseFile{Chunks: map[int64][]byte{0: h.Enc(), int64(h.FttOff): table}, End: int64(h.FttOff) + int64(len(table))}
		var wpt io.ReadSeeker
		var dir = scratchDir(c)
		var fpath, dpath = dir + "/p.wpk", dir + "/p.wpk"
		var pkg = wpk.NewPackage()
		if huge {
			var f = &farFile{h.Enc(), int64(h.FttOff), table, 0}
			wpt = f
			c.NoErr(pkg.OpenStream(wpt), "valid package is not opened")
		} else {
			if !split && size > 0 {
				ft.Chunks[int64(off)] = data
			}
			c.NoErr(ft.Save(fpath), "save")
			if split {
				dpath = dir + "/p.wpf"
				var fd = &kit.SparseFile{Chunks: map[int64][]byte{int64(off): data}, End: int64(off + size + rest)}
				c.NoErr(fd.Save(dpath), "save")
			}
			c.NoErr(pkg.OpenFile(fpath), "valid package is not opened")
		}
		if uint64(pkg.DataSize()) != h.DatSize || pkg.TagsetNum() != 1 || pkg.IsSplitted() != split {
			c.Fail("data size is %d, want %d; %d entries", pkg.DataSize(), h.DatSize, pkg.TagsetNum())
		}
		var ts, ok = pkg.GetTagset("d/far")
		if !ok {
			c.Fail("entry is not found")
		}
		var tags, _ = kit.ParseTags(ts)
		if err := kit.CheckTags(ts, tags); err != nil {
			c.Fail("%v", err)
		}
		if huge {
			return
		}
		for i := range kit.Backends {
			if i == 0 && off > 1<<25 { // bulk reads whole file to memory
				continue
			}
			var pkg, err = kit.OpenReal(fpath, dpath, i)
			c.NoErr(err, kit.Backends[i].Name)
			var b, err2 = pkg.ReadFile("d/far")
			if err2 != nil || !bytes.Equal(b, data) {
				c.Fail("%s: content at %d is %d bytes %.20q, error %v", kit.Backends[i].Name, off, len(b), b, err2)
			}
			pkg.Tagger.Close()
		}
	}}
}

// farFile is stream with a header and a table at any offset.
type farFile struct {
	head []byte
	off  int64
	body []byte
	pos  int64
}

func (f *farFile) Read(p []byte) (n int, err error) {
	if end := f.off + int64(len(f.body)); f.pos >= end {
		return 0, io.EOF
	} else if int64(len(p)) > end-f.pos {
		p = p[:end-f.pos]
	}
	for n = range p {
		p[n] = 0
		if f.pos < int64(len(f.head)) {
			p[n] = f.head[f.pos]
		} else if f.pos >= f.off {
			p[n] = f.body[f.pos-f.off]
		}
		f.pos++
	}
	return len(p), nil
}

func (f *farFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.off + int64(len(f.body))
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	f.pos = off
	return off, nil
}

func init() {
	reg(&mc.Prop{ID: "C21",
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{c21ids(), c21write(tier), c21place(tier), c21tags(tier), c21far(tier), c21many(tier)}
		},
		Bounds: func(tier string) string {
			return fmt.Sprintf("all packings of up to %d files of 3 names, 3 contents, 3 informations, 3 layouts are compared with independent encoder byte-for-byte; all packages of independent encoder with up to 3 entries over data order, gaps, shared data, table place, prebuild signature; all combinations of integer widths, order and extra tags for %d entries; 21 offsets up to 1 TiB x 10 sizes x all integer widths at sparse real files of every back-end; tables of up to 65537 entries with tagsets of up to 65 Kb", pick(tier, 3, 4), pick(tier, 1, 2))
		},
	})
}
