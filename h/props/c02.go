package props

import (
	"bytes"
	"fmt"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// histOp is operation of package history.
type histOp struct {
	name string
	en   func(s *hist) bool
	do   func(s *hist) error
}

// hist is history of work with package.
type hist struct {
	*kit.World
	seq     int    // number of packed contents
	base    []byte // data part at last finalization
	ready   bool   // package object can be used for appending
	begun   int
	lastopn int
}

func (s *hist) content(name string) []byte {
	s.seq++
	return []byte(fmt.Sprintf("%s#%d;", name, len(s.M.Ents)))
}

func (s *hist) key() string {
	return fmt.Sprintf("%s|%v|%d|%d", s.World.Key(), s.ready, s.begun, len(s.base))
}

func canWrite(s *hist) bool { return s.Writing }
func hasPkg(s *hist) bool   { return s.Writing || s.ready }

func pack(name string) histOp {
	return histOp{"pack " + name, canWrite, func(s *hist) error { return s.Pack(name, s.content(name)) }}
}

func rename(from, to string) histOp {
	return histOp{"rename " + from + " to " + to, hasPkg, func(s *hist) error { return s.Rename(from, to) }}
}

func alias(from, to string) histOp {
	return histOp{"alias " + from + " as " + to, hasPkg, func(s *hist) error { return s.Alias(from, to) }}
}

func del(name string) histOp {
	return histOp{"delete " + name, hasPkg, func(s *hist) error { return s.Delete(name) }}
}

func settag(name string, tid uint16, val string) histOp {
	return histOp{fmt.Sprintf("set tag %d of %s to %d bytes", tid, name, len(val)), hasPkg, func(s *hist) error { return s.SetTag(name, tid, val) }}
}

func setinfo(info []kit.Tag) histOp {
	return histOp{"set info", hasPkg, func(s *hist) error { s.SetInfo(info); return nil }}
}

func addinfo(tid uint16, val string) histOp {
	return histOp{fmt.Sprintf("add tag %d to info", tid), hasPkg, func(s *hist) error { s.AddInfo(tid, val); return nil }}
}

var (
	opBegin = histOp{"begin", func(s *hist) bool { return s.begun < 2 }, func(s *hist) (err error) {
		s.begun++
		if s.begun == 1 {
			err = s.Begin()
		} else {
			err = s.BeginNew()
		}
		s.ready, s.base = false, nil
		return
	}}
	opBeginOver = histOp{"begin over the same file", func(s *hist) bool { return s.begun == 1 }, func(s *hist) (err error) {
		s.begun++
		s.WPT.Seek(0, 0)
		if s.WPF != nil {
			s.WPF.Buf = s.WPF.Buf[:0]
			s.WPF.Seek(0, 0)
		}
		s.WPT.Buf = s.WPT.Buf[:0]
		err = s.Begin()
		s.ready, s.base = false, nil
		return
	}}
	opSync = histOp{"flush", func(s *hist) bool { return s.Writing && s.Split }, func(s *hist) error { return s.Sync() }}
	opFin  = histOp{"finalize", canWrite, func(s *hist) error {
		if err := s.Finalize(); err != nil {
			return err
		}
		s.ready = true
		s.base = dataPart(s)
		return nil
	}}
	opReopen = histOp{"close and reopen", func(s *hist) bool { return !s.NoFile && (!s.Writing || s.Split) && s.Disk != nil }, func(s *hist) error {
		s.Writing = false
		s.ready = true
		var err = s.Reopen(true)
		if err == nil {
			s.base = dataPart(s)
		}
		return err
	}}
	opReopenSame = histOp{"reopen by the same object", func(s *hist) bool { return !s.NoFile && (!s.Writing || s.Split) && s.Disk != nil }, func(s *hist) error {
		s.Writing = false
		s.ready = true
		var err = s.Reopen(false)
		if err == nil {
			s.base = dataPart(s)
		}
		return err
	}}
	opAppend = histOp{"append", func(s *hist) bool { return s.ready && !s.Writing }, func(s *hist) error {
		s.ready = false
		return s.Append()
	}}
)

// dataPart returns data section of the last state.
func dataPart(s *hist) []byte {
	var img, err = kit.Decode(s.WPT.Buf)
	if err != nil {
		return nil
	}
	return append([]byte{}, s.Dat()[img.Hdr.DatOff:img.Hdr.DatOff+img.Hdr.DatSize]...)
}

func (s *hist) check(c *mc.C) {
	if err := s.Check(); err != nil {
		c.Fail("%v", err)
	}
	var off = 0
	if !s.Split {
		off = 64
	}
	if d := s.Dat(); s.base != nil && (len(d) < off+len(s.base) || !bytes.Equal(d[off:off+len(s.base)], s.base)) {
		c.Fail("data of previously packed files is altered")
	}
}

// histScenario explores all sequences of operations.
func histScenario(name string, layout, depth int, begin bool, ops []histOp) mc.Scenario {
	return mc.Scenario{Name: fmt.Sprintf("%s, %s", name, layoutNames[layout]), Run: func(c *mc.C) {
		var s = &hist{World: newLayout(layout)}
		if begin {
			c.NoErr(opBegin.do(s), "begin")
		}
		for i := 0; i < depth; i++ {
			var en []*histOp
			for j := range ops {
				if ops[j].en(s) {
					en = append(en, &ops[j])
				}
			}
			if len(en) == 0 {
				break
			}
			var op = en[c.Choose(len(en))]
			c.Logf("%s", op.name)
			c.Step()
			if err := op.do(s); err != nil {
				c.Fail("%s: %v", op.name, err)
			}
			s.check(c)
			c.Prune(depth-i-1, s.key())
		}
		c.Outcome(s.Disk.Key())
	}}
}

func init() {
	var all = []histOp{
		opBegin, pack("a"), opFin, opReopen, opAppend, opSync, opReopenSame,
		pack("d/b"), rename("a", "d/b"), rename("d/b", "c"), alias("a", "c"), del("a"), del("d/b"),
		settag("a", wpk.TIDmime, "m"), settag("a", wpk.TIDoffset+100, "longer value of tag"), setinfo(infoSets[1]), setinfo(nil), addinfo(200, "added"), opBeginOver,
	}
	var sess = []histOp{opBegin, pack("a"), pack("b"), opFin, opReopen, opAppend, opSync, opReopenSame, del("a"), opBeginOver}
	reg(&mc.Prop{ID: "C02",
		Scenarios: func(tier string) []mc.Scenario {
			var s []mc.Scenario
			for i := range layoutNames {
				s = append(s, histScenario("histories with all operations", i, pick(tier, 6, 8), true, all))
				s = append(s, histScenario("long histories of sessions", i, pick(tier, 10, 14), true, sess))
			}
			return append(s, c02many(tier), c02sessions(tier))
		},
		Bounds: func(tier string) string {
			return fmt.Sprintf("every history of %d operations out of %d, and of %d session operations out of %d, on 3 layouts; sessions of packing with 0..1025 and 0..257 files (around powers of 2), 8 edits, 3 kinds of session end; histories of 70 (300 at thorough) sessions with every 3 of 7 operations at each; visited states are merged by the whole state of files, object and model", pick(tier, 6, 8), len(all), pick(tier, 10, 14), len(sess))
		},
	})
}
