package props

import (
	"errors"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
	"vh/vsync"
)

// cEnt is file of the model.
type cEnt struct {
	name, data, label string
	mtime             bool
}

// brief is all that is seen at the tagset.
func (e cEnt) brief() string {
	return fmt.Sprintf("%s/%d/%s/%v", e.name, len(e.data), e.label, e.mtime)
}

func (e cEnt) full() string { return e.brief() + "/" + e.data }

// cState is the model of package: sequence of files with different names.
type cState struct {
	ents []cEnt
	info string
}

func (s cState) clone() cState {
	s.ents = append([]cEnt{}, s.ents...)
	return s
}

func (s cState) find(name string) int {
	for i := range s.ents {
		if s.ents[i].name == name {
			return i
		}
	}
	return -1
}

func (s cState) String() string {
	var b strings.Builder
	b.WriteString("info=" + s.info)
	for _, e := range s.ents {
		b.WriteString(" " + e.full())
	}
	return b.String()
}

func cKey(s cState) string { return s.String() }

// put inserts or replaces the file.
func (s cState) put(e cEnt) cState {
	s = s.clone()
	if i := s.find(e.name); i >= 0 {
		s.ents[i] = e
	} else {
		s.ents = append(s.ents, e)
	}
	return s
}

func (s cState) del(i int) cState {
	s = s.clone()
	s.ents = append(s.ents[:i], s.ents[i+1:]...)
	return s
}

// tsBrief is description of the real tagset, same as for model.
func tsBrief(ts wpk.TagsetRaw) string {
	var tags, err = kit.ParseTags(ts)
	if err != nil {
		return "broken"
	}
	var name, _ = kit.Find(tags, wpk.TIDpath)
	var size, _ = kit.TagUint(tags, wpk.TIDsize)
	var label, _ = kit.Find(tags, wpk.TIDlabel)
	var _, mtime = kit.Find(tags, wpk.TIDmtime)
	return fmt.Sprintf("%s/%d/%s/%v", name, size, label, mtime)
}

// cRun is package shared by the threads.
type cRun struct {
	*conc[cState]
	split    bool
	pkg      *wpk.Package
	sub      *wpk.Package // view of directory "d"
	wpt, wpf *cfile
	dat      *cfile
	base     wpk.TagsetRaw // tagset of the file "a" as it was at the beginning
	snaps    [8][2][]byte  // state of the files when a thread has written the header last
}

// second returns second parameter for the calls.
func (x *cRun) second() wpk.WriteSeekCloser {
	if x.split {
		return x.wpf
	}
	return x.wpt
}

//go:norace
func (x *cRun) snapshot() {
	if id := vsync.ThreadID(); id >= 0 {
		x.snaps[id] = [2][]byte{x.wpt.all(), x.dat.all()}
	}
}

//go:norace
func (x *cRun) snap(id int) [2][]byte { return x.snaps[id] }

// image decodes state of the files to the same form as the model has.
func image(wpt, dat []byte) string {
	var img, err = kit.DecodeStrict(wpt)
	if err != nil {
		return "table is broken: " + err.Error()
	}
	var s cState
	if v, ok := kit.Find(img.Info, wpk.TIDlabel); ok {
		s.info = string(v)
	}
	var b strings.Builder
	b.WriteString("info=" + s.info)
	for _, e := range img.Ents {
		var data, err = e.Content(dat)
		if err != nil {
			return fmt.Sprintf("file %s can not be read: %v", e.Name, err)
		}
		b.WriteString(" " + tsBrief(e.Raw) + "/" + string(data))
	}
	return b.String()
}

// errName is class of the error.
func errName(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, fs.ErrExist):
		return "exists"
	case errors.Is(err, fs.ErrNotExist):
		return "not exists"
	}
	return err.Error()
}

// cOp is operation of the alphabet.
type cOp struct {
	name string
	kind byte // m - changes, f - flush, r - reads
	big  bool // not atomic for the readers
	rare bool
	run  func(x *cRun, th int, v int)
}

func cPack(name string, sub, file bool) func(x *cRun, th int, v int) {
	return func(x *cRun, th int, v int) {
		var full, pkg = name, x.pkg
		if sub {
			full, pkg = "d/"+name, x.sub
		}
		var data = fmt.Sprintf("<%s of %d>", full, v)
		x.do(th, fmt.Sprintf("pack %s by %d", full, v), func() string {
			var ts wpk.TagsetRaw
			var err error
			if file {
				ts, err = pkg.PackFile(x.second(), &cdisk{*newSource(data), int64(len(data))}, name)
			} else {
				ts, err = pkg.PackData(x.second(), newSource(data), name)
			}
			if err != nil {
				return errName(err)
			}
			return tsBrief(ts)
		}, func(s cState) (cState, string) {
			if s.find(full) >= 0 {
				return s, "exists"
			}
			var e = cEnt{full, data, "", file}
			return s.put(e), e.brief()
		})
	}
}

// cMove is rename or alias.
func cMove(from, to string, sub, keep bool) func(x *cRun, th int, v int) {
	return func(x *cRun, th int, v int) {
		var src, dst, pkg = from, to, x.pkg
		if sub {
			src, dst, pkg = "d/"+from, "d/"+to, x.sub
		}
		x.do(th, fmt.Sprintf("move %s to %s, keep %v", src, dst, keep), func() string {
			if keep {
				return errName(pkg.PutAlias(from, to))
			}
			return errName(pkg.Rename(from, to))
		}, func(s cState) (cState, string) {
			var i = s.find(src)
			if i < 0 {
				return s, "not exists"
			}
			if s.find(dst) >= 0 {
				return s, "exists"
			}
			var e = s.ents[i]
			e.name = dst
			if !keep {
				s = s.del(i)
			}
			return s.put(e), "ok"
		})
	}
}

func cRenameDir(skip bool) func(x *cRun, th int, v int) {
	return func(x *cRun, th int, v int) {
		x.do(th, "rename directory d to e", func() string {
			var n, err = x.pkg.RenameDir("d", "e", skip)
			return fmt.Sprint(n, errName(err))
		}, func(s cState) (cState, string) {
			var n int
			for _, e := range s.clone().ents {
				if strings.HasPrefix(e.name, "d/") {
					var old = e.name
					e.name = "e/" + e.name[2:]
					if s.find(e.name) >= 0 {
						if !skip {
							return s, fmt.Sprint(n, "exists")
						}
						continue
					}
					s = s.del(s.find(old)).put(e)
					n++
				}
			}
			return s, fmt.Sprint(n, "ok")
		})
	}
}

func cDelete(name string) func(x *cRun, th int, v int) {
	return func(x *cRun, th int, v int) {
		x.do(th, "delete "+name, func() string {
			var ts, ok = x.pkg.DelTagset(name)
			if !ok {
				return "none"
			}
			return tsBrief(ts)
		}, func(s cState) (cState, string) {
			var i = s.find(name)
			if i < 0 {
				return s, "none"
			}
			return s.del(i), s.ents[i].brief()
		})
	}
}

// cSet puts the tagset with content of the first file.
func cSet(name string, setup bool) func(x *cRun, th int, v int) {
	return func(x *cRun, th int, v int) {
		var e = cEnt{name, cInit[0].data, fmt.Sprint("set", v), false}
		x.do(th, fmt.Sprintf("set tagset %s by %d", name, v), func() string {
			var off, size = x.base.Pos()
			var ts = x.pkg.BaseTagset(off, size, name).Put(wpk.TIDlabel, wpk.StrTag(e.label))
			if setup {
				x.pkg.SetupTagset(ts)
			} else {
				x.pkg.SetTagset(name, ts)
			}
			return "ok"
		}, func(s cState) (cState, string) {
			return s.put(e), "ok"
		})
	}
}

func cGet(name string) func(x *cRun, th int, v int) {
	return func(x *cRun, th int, v int) { x.get(th, name) }
}

func (x *cRun) get(th int, name string) (got wpk.TagsetRaw) {
	x.do(th, "get "+name, func() string {
		var ts, ok = x.pkg.GetTagset(name)
		if !ok {
			return "none"
		}
		got = ts
		return tsBrief(ts)
	}, func(s cState) (cState, string) {
		var i = s.find(name)
		if i < 0 {
			return s, "none"
		}
		return s, s.ents[i].brief()
	})
	return
}

// cRetag adds the tag, as two operations.
func cRetag(name string) func(x *cRun, th int, v int) {
	return func(x *cRun, th int, v int) {
		var ts = x.get(th, name)
		if ts == nil {
			return
		}
		var label = fmt.Sprint("tag", v)
		var data = x.data(ts)
		var e = cEnt{name: name, data: data, label: label, mtime: ts.Has(wpk.TIDmtime)}
		x.do(th, fmt.Sprintf("set %s with tag by %d", name, v), func() string {
			x.pkg.SetTagset(name, kit.Retag(ts, wpk.TIDlabel, label))
			return "ok"
		}, func(s cState) (cState, string) {
			return s.put(e), "ok"
		})
	}
}

// data returns content of the file as it's written.
func (x *cRun) data(ts wpk.TagsetRaw) string {
	var off, size = ts.Pos()
	return string(x.dat.bytes(uint64(off), uint64(size)))
}

func cRead(name string) func(x *cRun, th int, v int) {
	return func(x *cRun, th int, v int) {
		x.do(th, "read "+name, func() string {
			var b, err = x.pkg.ReadFile(name)
			if err != nil {
				return errName(err)
			}
			return string(b)
		}, func(s cState) (cState, string) {
			if i := s.find(name); i >= 0 {
				return s, s.ents[i].data
			}
			return s, "not exists"
		})
	}
}

func cStat(name string) func(x *cRun, th int, v int) {
	return func(x *cRun, th int, v int) {
		x.do(th, "stat "+name, func() string {
			var fi, err = x.pkg.Stat(name)
			if err != nil {
				return errName(err)
			}
			return fmt.Sprint(fi.Name(), fi.Size(), fi.IsDir())
		}, func(s cState) (cState, string) {
			if i := s.find(name); i >= 0 {
				return s, fmt.Sprint(path.Base(name), len(s.ents[i].data), false)
			}
			return s, "not exists"
		})
	}
}

func cEnum(x *cRun, th int, v int) {
	x.do(th, "enumerate", func() string {
		var list []string
		x.pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
			if ts.Path() != fkey {
				fkey += "!"
			}
			list = append(list, tsBrief(ts))
			return true
		})
		return fmt.Sprint(list)
	}, func(s cState) (cState, string) {
		var list []string
		for _, e := range s.ents {
			list = append(list, e.brief())
		}
		return s, fmt.Sprint(list)
	})
}

func cFlush(x *cRun, th int, v int) {
	x.do(th, "flush", func() string {
		var err error
		if x.split {
			err = x.pkg.Sync(x.wpt, x.wpf)
		} else {
			err = x.pkg.Sync(x.wpt, nil)
		}
		if err != nil {
			return errName(err)
		}
		var s = x.snap(vsync.ThreadID())
		return image(s[0], s[1])
	}, func(s cState) (cState, string) {
		return s, s.String()
	})
}

var cOps = []cOp{
	{"pack b", 'm', false, false, cPack("b", false, false)},
	{"rename a to b", 'm', false, false, cMove("a", "b", false, false)},
	{"alias a as b", 'm', false, false, cMove("a", "b", false, true)},
	{"delete a", 'm', false, false, cDelete("a")},
	{"pack file b", 'm', false, false, cPack("b", false, true)},
	{"retag a", 'm', false, false, cRetag("a")},
	{"rename directory d to e", 'm', true, false, cRenameDir(false)},
	{"set b", 'm', false, false, cSet("b", false)},
	{"pack a", 'm', false, true, cPack("a", false, false)},
	{"delete b", 'm', false, true, cDelete("b")},
	{"rename b to a", 'm', false, true, cMove("b", "a", false, false)},
	{"pack x at d", 'm', false, true, cPack("x", true, false)},
	{"rename x to y at d", 'm', false, true, cMove("x", "y", true, false)},
	{"alias a as e/x", 'm', false, true, cMove("a", "e/x", false, true)},
	{"setup b", 'm', false, true, cSet("b", true)},
	{"set info", 'm', false, true, func(x *cRun, th int, v int) {
		x.do(th, fmt.Sprint("set info by ", v), func() string {
			x.pkg.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag(fmt.Sprint("info", v))))
			return "ok"
		}, func(s cState) (cState, string) {
			s.info = fmt.Sprint("info", v)
			return s, "ok"
		})
	}},
	{"flush", 'f', false, false, cFlush},
	{"get b", 'r', false, false, cGet("b")},
	{"read b", 'r', false, false, cRead("b")},
	{"enumerate", 'r', false, false, cEnum},
	{"get a", 'r', false, true, cGet("a")},
	{"read a", 'r', false, true, cRead("a")},
	{"stat b", 'r', false, true, cStat("b")},
	{"number", 'r', false, true, func(x *cRun, th int, v int) {
		x.do(th, "number of files", func() string {
			return fmt.Sprint(x.pkg.TagsetNum())
		}, func(s cState) (cState, string) {
			return s, fmt.Sprint(len(s.ents))
		})
	}},
	{"glob", 'r', false, true, func(x *cRun, th int, v int) {
		x.do(th, "glob", func() string {
			var list, err = x.pkg.Glob("*")
			return fmt.Sprint(list, errName(err))
		}, func(s cState) (cState, string) {
			var list []string
			for _, e := range s.ents {
				if !strings.Contains(e.name, "/") {
					list = append(list, e.name)
				}
			}
			return s, fmt.Sprint(list, "ok")
		})
	}},
	{"read directory", 'r', false, true, func(x *cRun, th int, v int) {
		x.do(th, "read directory", func() string {
			var list []string
			var des, err = x.pkg.ReadDir(".")
			for _, de := range des {
				list = append(list, de.Name())
			}
			return fmt.Sprint(list, errName(err))
		}, func(s cState) (cState, string) {
			var m = map[string]bool{}
			for _, e := range s.ents {
				var top, _, _ = strings.Cut(e.name, "/")
				m[top] = true
			}
			var list []string
			for k := range m {
				list = append(list, k)
			}
			sort.Strings(list)
			return s, fmt.Sprint(list, "ok")
		})
	}},
	{"enumerate d", 'r', false, true, func(x *cRun, th int, v int) {
		x.do(th, "enumerate d", func() string {
			var list []string
			x.sub.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
				list = append(list, fkey)
				return true
			})
			return fmt.Sprint(list)
		}, func(s cState) (cState, string) {
			var list []string
			for _, e := range s.ents {
				if strings.HasPrefix(e.name, "d/") {
					list = append(list, e.name[2:])
				}
			}
			return s, fmt.Sprint(list)
		})
	}},
	{"get info", 'r', false, true, func(x *cRun, th int, v int) {
		x.do(th, "get info", func() string {
			var s, _ = x.pkg.GetInfo().TagStr(wpk.TIDlabel)
			return s
		}, func(s cState) (cState, string) {
			return s, s.info
		})
	}},
	{"sizes and whole content", 'r', false, true, func(x *cRun, th int, v int) {
		x.pkg.DataSize()
		x.do(th, "sizes and whole content", func() string {
			var f, err = x.pkg.Open(wpk.PackName)
			if err != nil {
				return errName(err)
			}
			f.Close()
			return fmt.Sprint(x.pkg.IsSplitted())
		}, func(s cState) (cState, string) {
			return s, fmt.Sprint(x.split)
		})
	}},
}

var cInit = []cEnt{{"a", "content of a", "", false}, {"d/x", "content of x", "first", false}, {"d/y", "content of y", "", false}}

// newRun makes package with several first files.
func newRun(c *mc.C, split bool, files, threads int) (x *cRun) {
	x = &cRun{conc: newConc[cState](c, threads), split: split, pkg: wpk.NewPackage(), wpt: &cfile{}}
	x.dat = x.wpt
	var err error
	if split {
		x.wpf = &cfile{}
		x.dat = x.wpf
		err = x.pkg.Begin(x.wpt, x.wpf)
	} else {
		err = x.pkg.Begin(x.wpt, nil)
	}
	c.NoErr(err, "begin")
	x.pkg.Tagger = &ctagger{x.dat}
	for _, e := range cInit[:files] {
		var ts wpk.TagsetRaw
		ts, err = x.pkg.PackData(x.second(), newSource(e.data), e.name)
		c.NoErr(err, "pack")
		if e.label != "" {
			x.pkg.SetTagset(e.name, wpk.CopyTagset(ts).Put(wpk.TIDlabel, wpk.StrTag(e.label)))
		}
	}
	var sub, err2 = x.pkg.Sub("d")
	c.NoErr(err2, "sub")
	x.sub = sub.(*wpk.Package)
	var ts, _ = x.pkg.GetTagset("a")
	x.pkg.SetTagset("a", append(make(wpk.TagsetRaw, 0, 256), ts...)) // with spare space
	x.base = wpk.CopyTagset(ts)
	x.wpt.onhead = x.snapshot
	return
}

// cPlan is what the threads can do.
type cPlan struct {
	name  string
	split bool
	files int
	dev   int
	rows  [][]string // sets of operations for each step of each thread
}

// opSet returns operations of the set, that is given by letters of kinds,
// upper case is for frequent ones only, '!' excludes not atomic ones.
func opSet(set string) (list []cOp) {
	for _, op := range cOps {
		if op.big && strings.Contains(set, "!") {
			continue
		}
		if strings.Contains(set, string(op.kind)) || !op.rare && strings.Contains(set, strings.ToUpper(string(op.kind))) {
			list = append(list, op)
		}
	}
	return
}

func cScenario(p cPlan) mc.Scenario {
	return mc.Scenario{Name: p.name, MaxDev: p.dev, ShardDepth: 3, Run: func(c *mc.C) {
		var plan [][]cOp
		var prev int
		for i, row := range p.rows {
			var list []cOp
			var code int
			for k, set := range row {
				var ops = opSet(set)
				var m int
				if k == 0 && i > 0 && fmt.Sprint(row) == fmt.Sprint(p.rows[i-1]) { // symmetric threads
					m = prev + c.Choose(len(ops)-prev)
				} else {
					m = c.Choose(len(ops))
				}
				if k == 0 {
					code = m
				}
				list = append(list, ops[m])
			}
			prev = code
			plan = append(plan, list)
		}
		if c.Logging() {
			for i := range plan {
				var s []string
				for _, op := range plan[i] {
					s = append(s, op.name)
				}
				c.Logf("thread %d: %s", i, strings.Join(s, ", "))
			}
		}
		var x = newRun(c, p.split, p.files, len(plan)+1)
		var list []func()
		for i := range plan {
			list = append(list, func() {
				for k, op := range plan[i] {
					op.run(x, i, 10*(i+1)+k)
				}
			})
		}
		x.run(list...)
		// final state is seen by operations after all other ones
		var th = len(plan)
		var read = func(name string) { cRead(name)(x, th, 0) }
		vsync.Start(false, func(n int, free bool) int { return 0 }, func() {
			cEnum(x, th, 0)
			for _, e := range x.names() {
				read(e)
			}
			cFlush(x, th, 0)
		})
		var clock = 1 << 30
		for _, o := range x.ops[th] {
			o.Inv, o.Ret = clock, clock+1
			clock += 2
		}
		var init = cState{ents: cInit[:p.files]}
		var h = x.history()
		if !kit.Linearize(init, cKey, h) {
			c.Fail("history has no order: %s", kit.HistoryString(h))
		}
		c.Outcome(kit.HistoryString(h))
		c.State(x.ops[th][len(x.ops[th])-1].Res)
	}}
}

// names returns names of all the files.
func (x *cRun) names() (list []string) {
	x.pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		list = append(list, fkey)
		return true
	})
	return
}

func init() {
	reg(&mc.Prop{
		ID:    "C14",
		MemGB: -1,
		Rule: "threads work with the real package under controlled scheduler (the synchronization package is replaced in the current sources at build, scheduling points are also at each access to package files), all schedules up to the preemption bound are explored; " +
			"recorded history with the flushed bytes, the final enumeration, contents and the final flush should be linearizable to the model of package by exhaustive search; deadlocks, panics and wrong unlocks are violations; " +
			"data races are found by happens-before detector in each explored schedule",
		Bounds: func(tier string) string {
			return pick(tier,
				"all pairs of 29 operations in all schedules at 3 initial packages; 3 threads by 1 operation: all 11 main ones by 3 preemptions, all 17 changes and flush by 2; 2 threads by (2,1) operations, 2 preemptions; by (2,2) of 8 main changes, flush and reads, 2 preemptions",
				"all pairs of 29 operations, all triples of 17 changes and flush, all (2,1) operations in all schedules at 3 initial packages; 2 threads by (2,2) operations by 2 preemptions, main ones by 6; 3 threads by (2,1,1) and (2,2,2), 2 threads by (3,2) main ones by 2-3 preemptions") +
				fmt.Sprintf("; files of 3 back-ends read by 2 threads (2 preemptions) and 3 threads (%d), files of union by 2 threads (%d), all statements of back-ends and of union are scheduling points; race detector is on: %v", pick(tier, 1, 2), pick(tier, 1, 2), vsync.Race)
		},
		Assumptions: []string{
			"scheduling points are at calls of synchronization primitives, atomic operations, and accesses to package files, unsynchronized accesses in between are subject of race detector",
			"rename of directory with several files is one operation for the other changes and for flush, but not for the readers",
		},
		Scenarios: func(tier string) (list []mc.Scenario) {
			var add = func(name string, split bool, files, dev int, rows ...[]string) {
				list = append(list, cScenario(cPlan{name, split, files, dev, rows}))
			}
			const all = 1000
			add("1x1, split", true, 2, all, []string{"mfr"}, []string{"mfr"})
			add("1x1, single", false, 2, all, []string{"mr"}, []string{"mr"})
			add("1x1, two files in directory", true, 3, all, []string{"mf"}, []string{"mf"})
			add("1x1x1, split", true, 2, pick(tier, 3, all), []string{"MFR!"}, []string{"MFR!"}, []string{"MFR!"})
			add("1x1x1, all changes", true, 2, pick(tier, 2, all), []string{"mf"}, []string{"mf"}, []string{"mf"})
			add("1x1x1, two files in directory", true, 3, 3, []string{"MF"}, []string{"MF"}, []string{"MF"})
			add("2x1, split", true, 2, pick(tier, 4, all), []string{"M", "MF"}, []string{"MFR!"})
			add("2x1, all operations", true, 2, pick(tier, 2, all), []string{"m!", "mf!"}, []string{"fr"})
			add("2x1, single", false, 2, pick(tier, 2, all), []string{"m!", "m!"}, []string{"mr!"})
			add("2x2, split", true, 2, pick(tier, 2, 6), []string{"M!", "MF!"}, []string{"M!", "FR"})
			list = append(list,
				c14files(tier, "files of back-ends, 1x1", 2, 1, 2, false),
				c14files(tier, "files of back-ends, 1x1x1", 3, 1, pick(tier, 1, 2), false),
				c14files(tier, "files of union, 1x1", 2, 1, pick(tier, 1, 2), true),
			)
			if thorough(tier) {
				list = append(list, c14files(tier, "files of back-ends, 2x2", 2, 2, 1, false))
				add("2x2, all operations", true, 2, 2, []string{"m!", "mf!"}, []string{"m!", "fr"})
				add("2x1x1, split", true, 2, 3, []string{"M!", "MF!"}, []string{"M!"}, []string{"FR"})
				add("3x2, split", true, 2, 2, []string{"M!", "F", "M!"}, []string{"M!", "FR"})
				add("2x2x2, split", true, 2, 2, []string{"M!", "F"}, []string{"M!", "F"}, []string{"M!", "R"})
			}
			return
		},
	})
}
