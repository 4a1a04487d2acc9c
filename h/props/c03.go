package props

import (
	"fmt"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// crashImages calls f for each state of the files that can remain if process
// dies inside the given writes. Header is written by one call of 64 bytes at
// most, and is supposed to be atomic; all other writes are torn at each byte.
func crashImages(img [2][]byte, ops []kit.WriteOp, tornHeader bool, f func(img [2][]byte, desc func() string, bound bool)) (end [2][]byte) {
	for i := range img {
		img[i] = append([]byte{}, img[i]...)
	}
	for k, op := range ops {
		var hdr = op.File == 0 && op.Off == 0 && len(op.Data) <= 64
		if !hdr || tornHeader {
			var torn = img
			for n := 1; n < len(op.Data); n++ {
				torn[op.File] = kit.Apply(append([]byte{}, img[op.File]...), op.Off, op.Data[:n])
				f(torn, func() string {
					return fmt.Sprintf("write #%d of file %d at %d is torn at byte %d of %d", k, op.File, op.Off, n, len(op.Data))
				}, false)
			}
		}
		img[op.File] = kit.Apply(img[op.File], op.Off, op.Data)
		f(img, func() string { return fmt.Sprintf("after write #%d of file %d at %d", k, op.File, op.Off) }, true)
	}
	return img
}

func images(s *hist) (img [2][]byte) {
	img[0] = s.WPT.Bytes()
	if s.WPF != nil {
		img[1] = s.WPF.Bytes()
	}
	return
}

// splitState checks that files show one of given states, returns it.
func splitState(img [2][]byte, states ...*kit.PModel) (m *kit.PModel, err error) {
	for _, m = range states {
		if e := kit.CheckFiles(img[0], img[1], true, m); e == nil {
			return m, nil
		} else if err == nil {
			err = e
		}
	}
	return nil, err
}

// switchReader gives content of other image after some number of reads.
type switchReader struct {
	kit.MemFile
	next  []byte
	after int
}

func (r *switchReader) Read(p []byte) (int, error) {
	if r.after == 0 && r.next != nil {
		r.Buf, r.next = r.next, nil
	}
	r.after--
	return r.MemFile.Read(p)
}

// checkReaders checks what is shown by readers interrupted by flush.
func checkReaders(c *mc.C, bounds [][2][]byte, before, after *kit.PModel) {
	for i := range bounds {
		for j := i; j < len(bounds); j++ {
			for r := 1; r <= 2; r++ {
				var pkg = wpk.NewPackage()
				c.Step()
				var err = pkg.OpenStream(&switchReader{kit.MemFile{Buf: bounds[i][0]}, bounds[j][0], r})
				if err == nil {
					pkg.Tagger = &kit.MemTagger{Data: bounds[j][1]}
					if err = before.CmpPkg(pkg); err != nil {
						if e := after.CmpPkg(pkg); e == nil {
							err = nil
						}
					}
				}
				if err != nil {
					c.Fail("reader that has read the header after %d writes of flush, and the table after %d writes, does not see any flushed state: %v", i, j, err)
				}
			}
		}
	}
}

// crashStep executes operation, and checks all crash points inside of it.
func crashStep(c *mc.C, s *hist, log *kit.WLog, what string, do func() error, deep int) {
	var before, img = s.Disk.Clone(), images(s)
	var reader = wpk.NewPackage() // reader opened before
	var rerr = reader.OpenStream(&kit.MemFile{Buf: img[0]})
	log.Ops = nil
	if err := do(); err != nil {
		c.Fail("%s: %v", what, err)
	}
	var ops = log.Ops
	log.Ops = nil
	var after = s.Disk.Clone()
	var bounds = [][2][]byte{{append([]byte{}, img[0]...), append([]byte{}, img[1]...)}}
	crashImages(img, ops, false, func(img [2][]byte, desc func() string, bound bool) {
		c.Step()
		var m, err = splitState(img, before, after)
		if err != nil {
			c.Fail("crash in '%s', %s: files do not show last flushed state: %v", what, desc(), err)
		}
		if !bound {
			return
		}
		var cp = [2][]byte{append([]byte{}, img[0]...), append([]byte{}, img[1]...)}
		bounds = append(bounds, cp)
		if deep > 0 { // recovery
			recover2(c, cp, m, fmt.Sprintf("crash in '%s', %s, then ", what, desc()), deep-1)
		}
	})
	if rerr == nil {
		reader.Tagger = &kit.MemTagger{Data: s.Dat()}
		if err := before.CmpPkg(reader); err != nil {
			c.Fail("reader that has opened package before '%s' does not see its state: %v", what, err)
		}
		checkReaders(c, bounds, before, after)
	}
}

// recover2 opens package after crash, and packs one more file.
func recover2(c *mc.C, img [2][]byte, m *kit.PModel, what string, deep int) {
	var s = &hist{World: kit.NewWorld(true)}
	s.WPT.Buf, s.WPF.Buf = append([]byte{}, img[0]...), append([]byte{}, img[1]...)
	s.NoFile = false
	s.Disk = m.Clone()
	var log = &kit.WLog{}
	if err := s.Reopen(true); err != nil {
		c.Fail("%s%v", what, err)
	}
	s.SetLog(log)
	crashStep(c, s, log, what+"append", s.Append, deep)
	crashStep(c, s, log, what+"pack", func() error { return s.Pack("recovered", []byte("rec")) }, deep)
	crashStep(c, s, log, what+"flush", s.Sync, deep)
	if err := s.Check(); err != nil {
		c.Fail("%spacking and flush: %v", what, err)
	}
}

func crashScenario(name string, depth, deep int, ops []histOp) mc.Scenario {
	return mc.Scenario{Name: name, Run: func(c *mc.C) {
		var s = &hist{World: kit.NewWorld(true)}
		c.NoErr(opBegin.do(s), "begin")
		var log = &kit.WLog{}
		s.SetLog(log)
		for i := 0; i < depth; i++ {
			var en []*histOp
			for j := range ops {
				if ops[j].en(s) {
					en = append(en, &ops[j])
				}
			}
			var op = en[c.Choose(len(en))]
			c.Logf("%s", op.name)
			crashStep(c, s, log, op.name, func() error { return op.do(s) }, deep)
			s.check(c)
			c.Prune(depth-i-1, s.key())
		}
		c.Outcome(s.Disk.Key())
	}}
}

func init() {
	var big = histOp{"pack big", canWrite, func(s *hist) error { return s.Pack("big/"+fmt.Sprint(len(s.M.Ents)), fill("b", 40)) }}
	var ops = []histOp{pack("a"), opSync, opFin, opReopen, opAppend, rename("a", "renamed/a"), alias("a", "c"), del("a"),
		settag("a", wpk.TIDmime, "long value of the tag to grow"), setinfo(infoSets[1]), setinfo(nil), big, opReopenSame}
	var grow = []histOp{big, opSync, del("big/0"), setinfo(infoSets[1]), setinfo(nil), opReopen, opAppend}
	reg(&mc.Prop{ID: "C03",
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{
				crashScenario("crash points of histories", pick(tier, 6, 8), 0, ops),
				crashScenario("crash points of growing and shrinking", pick(tier, 8, 11), 0, grow),
				crashScenario("crash points with recovery", pick(tier, 4, 5), pick(tier, 1, 2), ops),
				c03many(tier),
			}
		},
		Assumptions: []string{
			"process dies, the system does not: writes reach the files in the order they are issued",
			"write of the header (64 bytes at the file start, or its part) is atomic, all other writes can be torn at any byte",
		},
		Bounds: func(tier string) string {
			return fmt.Sprintf("every history of up to %d operations out of 13 of split package, and of up to %d of growing and shrinking tables; crash at each write boundary and at each byte of each write, readers interrupted at each pair of write boundaries of each flush; recovery by append and flush after each crash for histories of %d operations; flush of tables with up to 600 (5000 at thorough) entries at up to 120 write boundaries", pick(tier, 6, 8), pick(tier, 8, 11), pick(tier, 4, 5))
		},
	})
}
