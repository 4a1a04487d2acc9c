package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// c06large: any call fails at writing and opening of large package.
func c06large(tier string) mc.Scenario {
	var sizes = pick(tier, []int{70000}, []int{200000, 32768 * 4})
	var tables = []struct{ n, tag int }{{20, 6000}, {2, 65000}, {300, 40}, {1500, 0}}[:pick(tier, 3, 4)]
	return mc.Scenario{Name: "failures at large packages", MaxDev: 1, ShardDepth: 3, Run: func(c *mc.C) {
		var s = &hist{World: newLayout(c.Choose(3))}
		var size = sizes[c.Choose(len(sizes))]
		var tab = tables[c.Choose(len(tables))]
		var ses = c.Choose(3)
		var f = &faults{c: c}
		c.Logf("stream of %d bytes, %d entries with tags of %d bytes, session #%d", size, tab.n, tab.tag, ses)
		var fired, failed bool
		var call = func(what string, do func() error) {
			c.Step()
			c.Logf("%s", what)
			f.fired = false
			s.WPT.Hook = f.hook(s.WPT)
			if s.WPF != nil {
				s.WPF.Hook = f.hook(s.WPF)
			}
			var err = do()
			s.WPT.Hook = nil
			if s.WPF != nil {
				s.WPF.Hook = nil
			}
			if f.fired && err == nil {
				c.Fail("%s: failure is passed silently", what)
			}
			if !f.fired && err != nil {
				c.Fail("%s: unexpected error %v", what, err)
			}
			failed = err != nil
			fired = fired || failed
		}
		// until repeats the call while it fails
		var until = func(what string, do func() error) {
			for failed = true; failed; {
				call(what, do)
				if failed {
					if what == "append" && !s.Split && notReady(s.WPT.Buf) == nil {
						s.Disk = nil // it was invalidated already
					}
					if err := s.Check(); err != nil {
						c.Fail("after failed %s: %.600s", what, err)
					}
				}
			}
		}
		var fill1 = func(k int) {
			for i := 0; i < tab.n; i++ {
				var name = fmt.Sprintf("%d/%s", k, kit.ManyName(i))
				if err := s.Pack(name, kit.ManyData(i)); err != nil {
					c.Fail("%v", err)
				}
				if err := s.SetTag(name, wpk.TIDcomment, string(fill(name, tab.tag))); err != nil {
					c.Fail("%v", err)
				}
			}
		}
		var stream = func(name string) {
			var data = fill(name, size)
			until("pack stream", func() error {
				var _, err = s.Pkg.PackData(s.DataFile(), &source{f, data, false}, name)
				return err
			})
			s.M.Add(name, data, nil)
		}
		c.NoErr(s.Begin(), "begin")
		fill1(0)
		stream("stream")
		var sync = func() {
			call("flush", func() error { return s.Pkg.Sync(s.WPT, s.Second()) })
			if failed && !s.Split {
				if err := notReady(s.WPT.Buf); err != nil {
					c.Fail("after failed finalization: %v", err)
				}
				c.Outcome("failed")
				c.Stop()
			}
			if !failed {
				s.Disk = s.M.Clone()
			}
			if err := s.Check(); err != nil {
				c.Fail("%.600s", err)
			}
		}
		sync()
		if ses > 0 {
			if !s.Split || ses == 2 {
				until("append", func() error { return s.Pkg.Append(s.WPT, s.Second()) })
			}
			s.Writing = true
			if !s.Split {
				s.Disk = nil
			}
			fill1(1)
			stream("stream2")
			sync()
		}
		if failed {
			sync()
		}
		s.Writing = false
		if failed { // twice, nothing to read surely
			c.Stop()
		}
		var pkg = wpk.NewPackage()
		call("open", func() error { return pkg.OpenStream(&kit.MemFile{Buf: s.WPT.Buf, Hook: f.hook(s.WPT)}) })
		if !failed {
			pkg.Tagger = &kit.MemTagger{Data: s.Dat()}
			if err := s.Disk.CmpPkg(pkg); err != nil {
				c.Fail("opened: %.600s", err)
			}
		}
		c.State(fmt.Sprint(s.Split, s.Same, size, tab, ses, c.DevLeft()))
		c.Outcome(fmt.Sprint(size, tab, ses, fired))
	}}
}

// partReader gives only portions and fails at given offset.
type partReader struct {
	kit.MemFile
	max  int
	fail int64
}

func (r *partReader) Read(p []byte) (int, error) {
	if len(p) > r.max {
		p = p[:r.max]
	}
	if r.fail >= 0 {
		if r.Pos >= r.fail {
			return 0, kit.ErrInjected
		}
		p = p[:min(int64(len(p)), r.fail-r.Pos)]
	}
	return r.MemFile.Read(p)
}

// c06largeRead: reading of large package fails at any part of the table.
func c06largeRead(tier string) mc.Scenario {
	var tables = []struct{ n, tag int }{{40, 6000}, {3, 65000}, {3000, 0}, {0, 0}}
	return mc.Scenario{Name: "reading of large tables that fails", ShardDepth: 3, Run: func(c *mc.C) {
		var tab = tables[c.Choose(len(tables))]
		var max = []int{1 << 30, 4096, 1000, 17}[c.Choose(4)]
		var split = c.Bool()
		var w = kit.NewWorld(split)
		c.NoErr(w.Begin(), "begin")
		w.SetInfo([]kit.Tag{{ID: wpk.TIDlabel, Val: fill("info", tab.tag)}})
		for i := 0; i < tab.n; i++ {
			var name = kit.ManyName(i)
			if err := w.Pack(name, kit.ManyData(i)); err != nil {
				c.Fail("%v", err)
			}
			if err := w.SetTag(name, wpk.TIDcomment, string(fill(name, tab.tag))); err != nil {
				c.Fail("%v", err)
			}
		}
		c.NoErr(w.Finalize(), "finalize")
		img, err := kit.Decode(w.WPT.Buf)
		c.NoErr(err, "decode")
		var beg, end = int64(img.Hdr.FttOff), int64(img.Hdr.FttOff + img.Hdr.FttSize)
		var parts = int64(pick(tier, 50, 500))
		for k := int64(-1); k <= parts; k++ {
			var at = beg + (end-beg)*k/parts
			if k < 0 {
				at = -1
			} else if k == parts {
				at--
			}
			c.Step()
			var pkg = wpk.NewPackage()
			var err = pkg.OpenStream(&partReader{kit.MemFile{Buf: w.WPT.Buf}, max, at})
			if at < 0 {
				c.NoErr(err, "open by parts")
				pkg.Tagger = &kit.MemTagger{Data: w.Dat()}
				if err = w.Disk.CmpPkg(pkg); err != nil {
					c.Fail("opened by parts: %.600s", err)
				}
			} else if !errors.Is(err, kit.ErrInjected) {
				c.Fail("opening with the failure at %d of table %d-%d returns %v", at, beg, end, err)
			}
			var hdr wpk.Header
			_, err = hdr.ReadFrom(bytes.NewReader(w.WPT.Buf))
			c.NoErr(err, "header")
			var p2 = wpk.NewPackage()
			p2.Init(&hdr)
			var r = &partReader{kit.MemFile{Buf: w.WPT.Buf, Pos: beg}, max, at}
			n, err := p2.FTT.ReadFrom(r)
			if at < 0 {
				c.NoErr(err, "table by parts")
				if n != end-beg {
					c.Fail("table of %d bytes is read as %d", end-beg, n)
				}
			} else if !errors.Is(err, kit.ErrInjected) {
				c.Fail("reading of table with the failure at %d of table %d-%d returns %v", at, beg, end, err)
			}
			// file cut at this place
			if at >= 0 {
				if err = wpk.NewPackage().OpenStream(bytes.NewReader(w.WPT.Buf[:at])); err == nil {
					c.Fail("package cut at %d of table %d-%d is opened", at, beg, end)
				}
				p2 = wpk.NewPackage()
				p2.Init(&hdr)
				if _, err = p2.FTT.ReadFrom(io.NewSectionReader(bytes.NewReader(w.WPT.Buf), beg, at-beg)); err == nil {
					c.Fail("table cut at %d of %d-%d is read", at, beg, end)
				}
			}
		}
		c.State(fmt.Sprint(tab, max, split))
		c.Outcome(fmt.Sprint(tab, max, split))
	}}
}
