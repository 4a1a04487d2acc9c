package props

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// c22others are packages with info tags of other sizes.
var c22others = sync.OnceValue(func() (bufs [][]byte) {
	for _, n := range []int{1, 40, 2000} {
		var w = kit.NewWorld(false)
		w.Begin()
		w.SetInfo([]kit.Tag{{ID: wpk.TIDlabel, Val: []byte(strings.Repeat("o", n))}})
		w.Sync()
		bufs = append(bufs, w.WPT.Buf)
	}
	return
})

// checkQuick compares quick query with the full open. Damaged is for files
// that are not written by the library: damaged part can be out of the scope
// of quick query.
func checkQuick(c *mc.C, wpt []byte, damaged bool) {
	var pkg = wpk.NewPackage()
	var err1 = pkg.OpenStream(&kit.MemFile{Buf: wpt})
	var hdr, info, err2 = wpk.GetPackageInfo(&kit.MemFile{Buf: wpt, Pos: 7})
	// queries to other packages does not change the result
	for _, b := range c22others() {
		if _, _, err := wpk.GetPackageInfo(&kit.MemFile{Buf: b}); err != nil {
			c.Fail("query of other package fails with '%v'", err)
		}
	}
	if err1 != nil {
		if errors.Is(err1, wpk.ErrSignPre) || errors.Is(err1, wpk.ErrSignBad) {
			if err2 == nil {
				c.Fail("opening fails with '%v', but quick query returns no error", err1)
			}
		} else if len(wpt) < 64 {
			if err2 == nil {
				c.Fail("opening fails with '%v', but quick query returns no error", err1)
			}
		} else if !damaged {
			c.Fail("opening fails with '%v'", err1)
		}
		return
	}
	if err2 != nil {
		c.Fail("package is opened, but quick query fails with '%v'", err2)
	}
	if !bytes.Equal(info, pkg.GetInfo()) {
		c.Fail("quick query gives info %x, package has %x", []byte(info), []byte(pkg.GetInfo()))
	}
	if !damaged && hdr.Count() != pkg.TagsetNum() {
		c.Fail("quick query gives %d entries, package has %d", hdr.Count(), pkg.TagsetNum())
	}
	if hdr.DataSize() != pkg.DataSize() {
		c.Fail("quick query gives data size %d, package has %d", hdr.DataSize(), pkg.DataSize())
	}
	var whole wpk.Header
	if _, err := whole.Parse(wpt); err != nil || whole != hdr {
		c.Fail("quick query gives header %+v, parsed is %+v, %v", hdr, whole, err)
	}
	if h, _ := kit.DecHeader(wpt); uint64(hdr.Count()) != h.Count || uint64(hdr.FttSize()) != h.FttSize || uint64(hdr.DataSize()) != h.DatSize {
		c.Fail("quick query gives header values %d, %d, %d, encoded are %d, %d, %d", hdr.Count(), hdr.FttSize(), hdr.DataSize(),
			h.Count, h.FttSize, h.DatSize)
	}
	if hdr.IsReady() != nil {
		c.Fail("header of opened package is not ready")
	}
	if img, err := kit.Decode(wpt); err == nil {
		if uint64(hdr.Count()) != img.Hdr.Count || uint64(hdr.FttSize()) != img.Hdr.FttSize || uint64(hdr.DataSize()) != img.Hdr.DatSize {
			c.Fail("quick query gives header values %d, %d, %d, encoded are %d, %d, %d", hdr.Count(), hdr.FttSize(), hdr.DataSize(),
				img.Hdr.Count, img.Hdr.FttSize, img.Hdr.DatSize)
		}
		if !bytes.Equal(info, img.InfoRaw) {
			c.Fail("quick query gives info %x, encoded is %x", []byte(info), img.InfoRaw)
		}
	} else if !damaged {
		c.Fail("decoding: %v", err)
	}
}

func c22hist(tier string, layout int) mc.Scenario {
	var ops = []histOp{opBegin, setinfo(infoSets[1]), pack("a"), opFin, opReopen, opAppend, opSync, setinfo(infoSets[2]), setinfo(nil),
		del("a"), pack("b"), opReopenSame}
	var depth = pick(tier, 7, 10)
	return mc.Scenario{Name: "states of package, " + layoutNames[layout], Run: func(c *mc.C) {
		var s = &hist{World: newLayout(layout)}
		c.NoErr(opBegin.do(s), "begin")
		checkQuick(c, s.WPT.Buf, false)
		for i := 0; i < depth; i++ {
			var en []*histOp
			for j := range ops {
				if ops[j].en(s) {
					en = append(en, &ops[j])
				}
			}
			var op = en[c.Choose(len(en))]
			c.Logf("%s", op.name)
			c.Step()
			if err := op.do(s); err != nil {
				c.Fail("%s: %v", op.name, err)
			}
			if len(s.WPT.Buf) > 0 {
				checkQuick22(c, s)
			}
			c.Prune(depth-i-1, s.key())
		}
		c.Outcome(s.Disk.Key())
	}}
}

func checkQuick22(c *mc.C, s *hist) {
	if s.Disk != nil {
		checkQuick(c, s.WPT.Buf, false)
		return
	}
	if _, _, err := wpk.GetPackageInfo(&kit.MemFile{Buf: s.WPT.Buf}); !errors.Is(err, wpk.ErrSignPre) {
		c.Fail("quick query of not ready package returns error '%v'", err)
	}
	var pkg = wpk.NewPackage()
	if err := pkg.OpenStream(&kit.MemFile{Buf: s.WPT.Buf}); !errors.Is(err, wpk.ErrSignPre) {
		c.Fail("opening of not ready package returns error '%v'", err)
	}
}

// every byte of signature, every length of the file, every set of header fields.
func c22bytes(tier string) mc.Scenario {
	return mc.Scenario{Name: "damaged headers", Run: func(c *mc.C) {
		var w = newLayout(c.Choose(3))
		var state = c.Choose(4) // begun, finalized, empty finalized, appending
		w.Begin()
		if state != 0 && state != 2 {
			w.Pack("a", []byte("data"))
			w.SetInfo(infoSets[1])
		}
		if state != 0 {
			c.NoErr(w.Finalize(), "finalize")
		}
		if state == 3 {
			c.NoErr(w.Append(), "append")
		}
		var b = w.WPT.Bytes()
		switch c.Choose(3) {
		case 0: // any length
			var n = c.Choose(len(b) + 1)
			b = b[:n]
			c.Logf("state %d, cut to %d", state, n)
		case 1: // any byte of signature
			var i = c.Choose(24)
			b[i] ^= byte([]int{1, 0x20, 0x80, 0xff}[c.Choose(4)])
			c.Logf("state %d, signature byte %d", state, i)
		case 2: // header values
			var hdr, _ = kit.DecHeader(b)
			var vals = append([]uint64{64, uint64(len(b)), uint64(len(b)) + 1, 70000}, edgeUints(pick(tier, 1, 9))...)
			switch c.Choose(5) {
			case 0:
				hdr.Count = vals[c.Choose(len(vals))]
			case 1:
				hdr.FttOff = vals[c.Choose(len(vals))]
			case 2:
				hdr.FttSize = vals[c.Choose(len(vals))]
			case 3:
				hdr.DatOff = vals[c.Choose(len(vals))]
			case 4:
				hdr.DatSize = vals[c.Choose(len(vals))]
			}
			copy(b, hdr.Enc())
			c.Logf("state %d, header %+v", state, hdr)
		}
		c.Step()
		c.State(string(b))
		checkQuick(c, b, true)
		c.Outcome(fmt.Sprint(state, len(b)))
	}}
}

// information of any size.
func c22info(tier string) mc.Scenario {
	var sizes = []int{0, 1, 255, 256, 4000, 32767, 32768, 65000, 65500}
	return mc.Scenario{Name: "information sizes", Run: func(c *mc.C) {
		var w = newLayout(c.Choose(3))
		var n1, n2 = sizes[c.Choose(len(sizes))], sizes[c.Choose(4)]
		c.NoErr(w.Begin(), "begin")
		if c.Bool() {
			w.Pack("a", []byte("data"))
		}
		w.SetInfo([]kit.Tag{{ID: wpk.TIDcomment, Val: fill("c", n1)}, {ID: 7, Val: fill("d", min(n2, 65535-8-n1))}})
		c.NoErr(w.Finalize(), "finalize")
		c.Logf("info of %d and %d bytes", n1, n2)
		c.Step()
		checkQuick(c, w.WPT.Buf, false)
		c.State(w.Key())
		c.Outcome(fmt.Sprint(n1, n2))
	}}
}

func init() {
	reg(&mc.Prop{ID: "C22",
		Scenarios: func(tier string) []mc.Scenario {
			var s []mc.Scenario
			for i := range layoutNames {
				s = append(s, c22hist(tier, i))
			}
			return append(s, c22bytes(tier), c22info(tier), c22many(tier))
		},
		Bounds: func(tier string) string {
			return fmt.Sprintf("query and full open compared in every state of every history of up to %d operations out of 12 (3 layouts); every truncation, every signature byte and all powers of two and neighbours at each header field at 4 package states; information sizes up to the limit; up to 65537 files; result is compared after queries to 3 other packages", pick(tier, 7, 10))
		},
	})
}
