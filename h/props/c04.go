package props

import (
	"bytes"
	"fmt"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// notReady checks that package can not be opened or queried.
func notReady(b []byte) error {
	var pkg = wpk.NewPackage()
	if pkg.OpenStream(&kit.MemFile{Buf: b}) == nil {
		return fmt.Errorf("package under construction is opened, it shows %d entries", pkg.TagsetNum())
	}
	if hdr, _, err := wpk.GetPackageInfo(&kit.MemFile{Buf: b}); err == nil {
		return fmt.Errorf("package under construction is available for quick query, it shows %d entries", hdr.Count())
	}
	return nil
}

// singleStep executes operation, and checks all crash points inside of it.
func singleStep(c *mc.C, s *hist, log *kit.WLog, what string, do func() error) {
	var before, img = s.Disk.Clone(), images(s)
	var start = append([]byte{}, img[0]...)
	log.Ops = nil
	if err := do(); err != nil {
		c.Fail("%s: %v", what, err)
	}
	var ops = log.Ops
	log.Ops = nil
	var after = s.Disk.Clone()
	var base = s.base
	var begin = what == opBegin.name || what == opBeginOver.name || what == opBeginKeep.name
	if begin {
		base = nil
	}
	var check = func(img []byte, desc string) {
		c.Step()
		if base != nil && (len(img) < 64+len(base) || !bytes.Equal(img[64:64+len(base)], base)) {
			c.Fail("crash in '%s', %s: data of finalized files is overwritten", what, desc)
		}
		if bytes.Equal(img, start) { // nothing was done yet
			if before == nil {
				if err := notReady(img); err != nil {
					c.Fail("crash in '%s', %s: %v", what, desc, err)
				}
			} else if err := kit.CheckFiles(img, img, false, before); err != nil {
				c.Fail("crash in '%s', %s: %v", what, desc, err)
			}
			return
		}
		var err = notReady(img)
		if err == nil {
			return
		}
		if after != nil {
			if err = kit.CheckFiles(img, img, false, after); err == nil {
				return
			}
		}
		c.Fail("crash in '%s', %s: %v", what, desc, err)
	}
	var last = crashImages(img, ops, what != opFin.name, func(img [2][]byte, desc func() string, bound bool) { check(img[0], desc()) })
	if !begin && !bytes.Equal(last[0], s.WPT.Buf) {
		panic("log of writes is incomplete")
	}
	// state at the end of operation
	if after == nil {
		if err := notReady(s.WPT.Buf); err != nil {
			c.Fail("after '%s': %v", what, err)
		}
	} else if err := kit.CheckFiles(s.WPT.Buf, s.WPT.Buf, false, after); err != nil {
		c.Fail("after '%s': %v", what, err)
	}
}

// package is begun at the file with other package without truncation.
var opBeginKeep = histOp{"begin over old content", func(s *hist) bool { return s.begun == 1 }, func(s *hist) (err error) {
	s.begun++
	err = s.Begin()
	s.ready, s.base = false, nil
	return
}}

func c04hist(tier string, layout int) mc.Scenario {
	var big = histOp{"pack big", canWrite, func(s *hist) error { return s.Pack("big/"+fmt.Sprint(len(s.M.Ents)), fill("b", 70)) }}
	var ops = []histOp{pack("a"), opFin, opReopen, opAppend, opReopenSame, opBeginKeep, del("a"), rename("a", "renamed/a"),
		settag("a", wpk.TIDmime, "value"), setinfo(infoSets[1]), setinfo(nil), big}
	var depth = pick(tier, 7, 9)
	return mc.Scenario{Name: "crash points of histories, " + layoutNames[layout], Run: func(c *mc.C) {
		var s = &hist{World: newLayout(layout)}
		var log = &kit.WLog{}
		s.SetLog(log)
		var img = images(s)
		c.NoErr(opBegin.do(s), "begin")
		crashImages(img, log.Ops, true, func(img [2][]byte, desc func() string, bound bool) {
			if err := notReady(img[0]); err != nil {
				c.Fail("crash in 'begin', %s: %v", desc(), err)
			}
		})
		for i := 0; i < depth; i++ {
			var en []*histOp
			for j := range ops {
				if ops[j].en(s) {
					en = append(en, &ops[j])
				}
			}
			var op = en[c.Choose(len(en))]
			c.Logf("%s", op.name)
			singleStep(c, s, log, op.name, func() error { return op.do(s) })
			c.Prune(depth-i-1, s.key())
		}
		c.Outcome(s.Disk.Key())
	}}
}

func init() {
	reg(&mc.Prop{ID: "C04",
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{c04hist(tier, 0), c04hist(tier, 1), c04many(tier)}
		},
		Assumptions: []string{
			"process dies, the system does not: writes reach the file in the order they are issued",
			"write of the header at finalization (64 bytes at the file start) is atomic, all other writes can be torn at any byte",
		},
		Bounds: func(tier string) string {
			return fmt.Sprintf("every history of up to %d operations out of 12 of single-file package, begun at new file or over the file of other package; crash at each write boundary and at each byte of each write; finalization of packages with up to 600 (5000 at thorough) files at up to 120 write boundaries", pick(tier, 7, 9))
		},
	})
}
