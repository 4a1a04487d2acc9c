package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// sess is package object of the script with model of its life cycle.
type sess struct {
	*luaPkg
	dir     string
	m       *kit.PModel // content of the object
	datsize int
	open    bool
	pk, dt  string                 // paths of current or the last package, dt is for split one
	known   bool                   // the package of paths was opened
	split   bool                   // loaded package is split really
	disk    map[string]*kit.PModel // last completed state of packages, nil if package is not readable
	seq     int
}

func (s *sess) path(name string) string { return s.dir + "/" + name }

// datOf returns data file of the package.
func datOf(pk string) string {
	if strings.HasSuffix(pk, ".wpt") {
		return strings.TrimSuffix(pk, ".wpt") + ".wpf"
	}
	return ""
}

// snapshot is content of all files of the folder.
func (s *sess) snapshot() string {
	var list []string
	filepath.Walk(s.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			s.c.Fail("walk: %v", err)
		}
		if fi.IsDir() {
			list = append(list, p)
			return nil
		}
		var b, err2 = os.ReadFile(p)
		s.c.NoErr(err2, "read")
		list = append(list, p+"\x00"+string(b))
		return nil
	})
	sort.Strings(list)
	return strings.Join(list, "\x01")
}

// object is all what can be seen of the object.
func (s *sess) object() string {
	var b strings.Builder
	for _, name := range []string{"label", "pkgpath", "datpath", "recnum", "tagnum", "fftsize", "datasize"} {
		var v, err = s.get(name)
		if err != nil {
			s.c.Fail("property %s: %v", name, firstLine(err.Error()))
		}
		fmt.Fprintf(&b, "%s=%s ", name, luaStr(v))
	}
	s.p.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		fmt.Fprintf(&b, "%q:%x ", fkey, []byte(ts))
		return true
	})
	fmt.Fprintf(&b, "%x", []byte(s.p.GetInfo()))
	return b.String()
}

func (s *sess) Logf(f string, a ...any) { s.c.Logf(f, a...) }

// call makes the call that should be successful or not.
func (s *sess) expect(ok bool, name string, args ...lua.LValue) []lua.LValue {
	var res, _ = s.expectErr(ok, name, args...)
	return res
}

func (s *sess) expectErr(ok bool, name string, args ...lua.LValue) ([]lua.LValue, error) {
	var what = name + "(" + strings.ReplaceAll(luaStrs(args), s.dir+"/", "") + ")"
	s.Logf("%s, should be done: %v", what, ok)
	var obj, files string
	if !ok {
		obj, files = s.object(), s.snapshot()
	}
	var res, err = s.do(name, args...)
	if (err == nil) != ok {
		if err == nil {
			s.c.Fail("%s is done, but should raise an error", what)
		}
		s.c.Fail("%s: %s", what, strings.ReplaceAll(firstLine(err.Error()), s.dir, ""))
	}
	if !ok {
		if now := s.object(); now != obj {
			s.c.Fail("failed %s changed the object: %s, was %s", what, strings.ReplaceAll(now, s.dir, ""), strings.ReplaceAll(obj, s.dir, ""))
		}
		if now := s.snapshot(); now != files {
			s.c.Fail("failed %s changed the files", what)
		}
	}
	return res, err
}

// check compares the object and the files with the model.
func (s *sess) check() {
	var fail = func(f string, a ...any) {
		s.c.Fail("%s", strings.ReplaceAll(fmt.Sprintf(f, a...), s.dir, ""))
	}
	if err := s.m.CmpPkg(&s.p.Package); err != nil {
		fail("%v", err)
	}
	var prop = func(name string, want ...lua.LValue) {
		var v, err = s.get(name)
		if err != nil {
			fail("property %s: %v", name, firstLine(err.Error()))
		}
		for _, w := range want {
			if v == w {
				return
			}
		}
		fail("property %s is %s, want %s", name, luaStr(v), luaStr(want[0]))
	}
	var pk, dt lua.LValue = lua.LNil, lua.LNil
	if s.open {
		pk = lua.LString(s.path(s.pk))
		if s.dt != "" {
			dt = lua.LString(s.path(s.dt))
		}
	}
	prop("pkgpath", pk)
	prop("datpath", dt)
	prop("tagnum", lua.LNumber(len(s.m.Ents)))
	prop("datasize", lua.LNumber(s.datsize))
	var uniq, offs = map[string]bool{}, map[uint]bool{}
	var sum, fsize int
	for _, e := range s.m.Ents {
		uniq[string(e.Data)] = true // contents are unique but aliases
		sum += len(e.Data)
		var ts, _ = s.p.GetTagset(e.Name)
		var off, _ = ts.Pos()
		offs[off] = true
		fsize += len(ts) + 2
		var res, err = s.do("filesize", lua.LString(e.Name))
		if err != nil || len(res) != 1 || res[0] != lua.LNumber(len(e.Data)) {
			fail("filesize(%q) is %s %v", e.Name, luaStrs(res), err)
		}
	}
	prop("recnum", lua.LNumber(len(uniq)), lua.LNumber(len(offs)))
	prop("fftsize", lua.LNumber(fsize), lua.LNumber(fsize+4+len(kit.EncTags(s.m.Info))))
	if res, err := s.do("sumsize"); err != nil || len(res) != 1 || res[0] != lua.LNumber(sum) {
		fail("sumsize is %s %v, want %d", luaStrs(res), err, sum)
	}
	var label lua.LValue = lua.LNil
	if v, ok := kit.Find(s.m.Info, wpk.TIDlabel); ok {
		label = lua.LString(v)
	}
	prop("label", label)
	for _, name := range []string{"a", "b", "c", "none"} {
		var ok = s.m.Find(name) >= 0
		if res, err := s.do("hasfile", lua.LString(name)); err != nil || len(res) != 1 || res[0] != lua.LBool(ok) {
			fail("hasfile(%q) is %s %v, want %v", name, luaStrs(res), err, ok)
		}
		if !ok {
			if res, err := s.do("filesize", lua.LString(name)); err == nil {
				fail("filesize(%q) is %s", name, luaStrs(res))
			}
		}
	}
	var res, err = s.do("glob", lua.LString("?"))
	if err != nil || len(res) != len(s.m.Ents) {
		fail("glob is %s %v, want %d names", luaStrs(res), err, len(s.m.Ents))
	}
	for i, v := range res {
		if v != lua.LString(s.m.Ents[i].Name) {
			fail("glob is %s, name #%d should be %q", luaStrs(res), i, s.m.Ents[i].Name)
		}
	}
	var str, e2 = s.call(s.ls.GetGlobal("tostring"), s.ud)
	if e2 != nil || !strings.HasPrefix(str[0].String(), "files: ") || !strings.Contains(str[0].String(), fmt.Sprintf("datasize: %d", s.datsize)) {
		fail("tostring is %s %v", luaStrs(str), e2)
	}
	s.checkDisk()
}

// checkDisk checks that files hold the last completed state.
func (s *sess) checkDisk() {
	for name, m := range s.disk {
		if datOf(name) != "" {
			if _, err := os.Stat(s.path(datOf(name))); err != nil {
				continue // data file is removed
			}
		}
		var wpt, err = os.ReadFile(s.path(name))
		s.c.NoErr(err, "read")
		var img, e = kit.Decode(wpt)
		if m == nil {
			if e == nil {
				s.c.Fail("package %s that is not finalized is readable", name)
			}
			continue
		}
		if e != nil {
			s.c.Fail("package %s is not readable: %v", name, e)
		}
		var dat = wpt
		if d := datOf(name); d != "" {
			if dat, err = os.ReadFile(s.path(d)); err != nil {
				s.c.Fail("read: %v", err)
			}
		}
		if err = m.CmpImage(img, dat); err != nil {
			s.c.Fail("package %s on the disk: %v", name, err)
		}
	}
}

func (s *sess) begin(pk, dt string, ok bool) {
	var args = []lua.LValue{lua.LString(s.path(pk))}
	if dt != "" {
		args = append(args, lua.LString(s.path(dt)))
	}
	s.expect(ok && !s.open, "begin", args...)
	if !ok || s.open {
		return
	}
	s.open, s.pk, s.dt, s.known, s.split = true, pk, dt, true, dt != ""
	s.m.Ents, s.datsize = nil, 0
	s.disk[pk] = nil
	if dt != "" {
		s.disk[pk] = &kit.PModel{}
	}
	for f, n := range map[string]int64{pk: 64, dt: 0} { // nothing remains of the previous files
		if f == "" {
			continue
		}
		if fi, err := os.Stat(s.path(f)); err != nil || fi.Size() > n {
			s.c.Fail("file %s of new package has size %d, error %v", f, fi.Size(), err)
		}
	}
}

func (s *sess) load(pk, dt string) {
	var args = []lua.LValue{lua.LString(s.path(pk))}
	if dt != "" {
		args = append(args, lua.LString(s.path(dt)))
	}
	var m = s.disk[pk]
	var ok = !s.open && m != nil
	s.expect(ok, "load", args...)
	if !ok {
		return
	}
	s.m = m.Clone()
	s.pk, s.dt, s.known, s.split = pk, dt, true, datOf(pk) != ""
	var wpt, err = os.ReadFile(s.path(pk))
	s.c.NoErr(err, "read")
	var h, _ = kit.DecHeader(wpt)
	s.datsize = int(h.DatSize)
}

func (s *sess) append() {
	var ok = !s.open && s.known && s.split == (s.dt != "")
	for _, f := range []string{s.pk, s.dt} {
		if _, err := os.Stat(s.path(f)); err != nil && f != "" {
			ok = false
		}
	}
	s.expect(ok, "append")
	if ok {
		s.open = true
		if s.dt == "" {
			s.disk[s.pk] = nil
		}
	}
}

func (s *sess) put(op, name, src string, srcok bool) {
	var ok = s.open && s.m.Find(name) < 0 && srcok
	var data = fmt.Sprintf("data #%d of %s", s.seq, name)
	if op == "putfile" && srcok {
		data = "source"
	}
	if op == "putdata" {
		s.expect(ok, op, lua.LString(name), lua.LString(data))
	} else {
		s.expect(ok, op, lua.LString(name), lua.LString(s.path(src)))
	}
	if ok {
		s.seq++
		var all, err = entries(&s.p.Package)
		s.c.NoErr(err, "entries")
		var tags = all[name]
		for id := uint16(1); id <= 3; id++ {
			delete(tags, id)
		}
		s.m.Add(name, []byte(data), tags)
		s.datsize += len(data)
	}
}

func (s *sess) sync(op string) {
	var ok = s.open && (op == "finalize" || s.dt != "")
	s.expect(ok, op)
	if ok {
		if op == "finalize" {
			s.open = false
		}
		s.disk[s.pk] = s.m.Clone()
	}
}

// remove deletes the file of package when it's not opened.
func (s *sess) remove(name string) {
	if _, err := os.Stat(s.path(name)); err != nil || s.open {
		s.c.Stop()
	}
	s.Logf("remove %s", name)
	s.c.NoErr(os.Remove(s.path(name)), "remove")
	if !strings.HasSuffix(name, ".wpf") {
		delete(s.disk, name)
	}
}

func (s *sess) edit(op, from, to string) {
	var i, j = s.m.Find(from), s.m.Find(to)
	switch op {
	case "rename":
		s.expect(i >= 0 && j < 0, op, lua.LString(from), lua.LString(to))
		if i >= 0 && j < 0 {
			var e = s.m.Ents[i].Clone()
			e.Name = to
			s.m.Del(i)
			s.m.Ents = append(s.m.Ents, e)
		}
	case "putalias":
		s.expect(i >= 0 && j < 0, op, lua.LString(from), lua.LString(to))
		if i >= 0 && j < 0 {
			var e = s.m.Ents[i].Clone()
			e.Name = to
			s.m.Ents = append(s.m.Ents, e)
		}
	case "delalias":
		if res := s.expect(true, op, lua.LString(from)); len(res) != 1 || res[0] != lua.LBool(i >= 0) {
			s.c.Fail("delalias returns %s", luaStrs(res))
		}
		if i >= 0 {
			s.m.Del(i)
		}
	}
}

// key is the state of the model and of the implementation.
func (s *sess) key() string {
	return strings.ReplaceAll(s.object(), s.dir, "") + "\x02" + strings.ReplaceAll(s.snapshot(), s.dir, "") + fmt.Sprint(s.open, s.pk, s.dt, s.known, s.split, s.seq)
}

func newSess(c *mc.C) *sess {
	var s = &sess{luaPkg: vm().newPkg(c), dir: scratchDir(c), m: &kit.PModel{}, disk: map[string]*kit.PModel{}}
	c.NoErr(os.WriteFile(s.path("src"), []byte("source"), 0644), "write")
	c.NoErr(os.Chtimes(s.path("src"), fileTime, fileTime), "times")
	c.NoErr(os.Mkdir(s.path("dir"), 0755), "mkdir")
	c.Defer(func() { s.do("finalize") })
	return s
}

// c18cycle: all sequences of calls.
func c18cycle(tier string) mc.Scenario {
	var depth = pick(tier, 5, 6)
	return mc.Scenario{Name: "sequences of calls", Run: func(c *mc.C) {
		var s = newSess(c)
		for i := 0; i < depth; i++ {
			switch c.Choose(22) {
			case 0:
				s.begin("p.wpk", "", true)
			case 1:
				s.begin("s.wpt", "s.wpf", true)
			case 2:
				s.begin("none/p.wpk", "", false)
			case 3:
				s.begin("p.wpk", "none/s.wpf", false)
			case 4:
				s.begin("none/s.wpt", "s.wpf", false)
			case 5:
				s.begin("s.wpt", "dir", false)
			case 6:
				s.load("p.wpk", "")
			case 7:
				s.load("s.wpt", "s.wpf")
			case 8:
				s.load("absent.wpk", "")
			case 9:
				s.load("src", "") // not a package
			case 10:
				s.append()
			case 11:
				s.put("putdata", "a", "", true)
			case 12:
				s.put("putfile", "b", "src", true)
			case 13:
				s.put("putfile", "c", "absent", false)
			case 14:
				s.put("putfile", "c", "dir", false)
			case 15:
				s.sync("flush")
			case 16:
				s.sync("finalize")
			case 17:
				s.edit("rename", "a", "c")
			case 18:
				s.remove("s.wpf")
			case 19:
				s.remove("p.wpk")
			case 20:
				s.load("s.wpt", "") // can not be appended
			case 21:
				c.Logf("label")
				c.NoErr(s.set("label", lua.LString("x")), "label")
				setInfoTag(s.m, wpk.TIDlabel, "x")
			}
			s.check()
			c.Prune(depth-i-1, s.key())
		}
		s.finish()
		c.Outcome(s.key())
	}}
}

// setInfoTag changes tag of package information.
func setInfoTag(m *kit.PModel, id uint16, val string) {
	for i := range m.Info {
		if m.Info[i].ID == id {
			m.Info[i].Val = []byte(val)
			return
		}
	}
	m.Info = append(append([]kit.Tag{}, m.Info...), kit.Tag{ID: id, Val: []byte(val)})
}

// finish checks that the object is usable to the end.
func (s *sess) finish() {
	if !s.open {
		s.begin("last.wpk", "", true)
	}
	s.edit("delalias", "a", "")
	s.put("putdata", "a", "", true)
	s.sync("finalize")
	s.check()
	s.load(s.pk, s.dt)
	s.check()
	var dat = s.pk
	if s.dt != "" {
		dat = s.dt
	}
	if err := kit.CheckReal(s.path(s.pk), s.path(dat), s.m); err != nil {
		s.c.Fail("%v", err)
	}
}

// c18valid: longer sequences of calls which life cycle allows.
func c18valid(tier string) mc.Scenario {
	var depth = pick(tier, 7, 9)
	return mc.Scenario{Name: "long sessions", Run: func(c *mc.C) {
		var s = newSess(c)
		var names = []string{"a", "b", "c"}
		var free = func() string {
			for _, n := range names {
				if s.m.Find(n) < 0 {
					return n
				}
			}
			c.Stop()
			return ""
		}
		for i := 0; i < depth; i++ {
			if !s.open {
				switch c.Choose(6) {
				case 0:
					s.begin("p.wpk", "", true)
				case 1:
					s.begin("s.wpt", "s.wpf", true)
				case 2, 3:
					var pk = []string{"p.wpk", "s.wpt"}[c.Choose(2)]
					if s.disk[pk] == nil {
						c.Stop()
					}
					s.load(pk, datOf(pk))
				case 4:
					if !s.known {
						c.Stop()
					}
					s.append()
				case 5: // other object
					s.luaPkg = s.newPkg(c)
					s.m, s.known, s.datsize = &kit.PModel{}, false, 0
					c.Logf("new object")
				}
			} else {
				switch c.Choose(7) {
				case 0, 1:
					s.put("putdata", free(), "", true)
				case 2:
					if s.dt == "" {
						c.Stop()
					}
					s.sync("flush")
				case 3, 4:
					s.sync("finalize")
				case 5:
					if len(s.m.Ents) == 0 {
						c.Stop()
					}
					s.edit("putalias", s.m.Ents[0].Name, free())
				case 6:
					if len(s.m.Ents) == 0 {
						c.Stop()
					}
					s.edit("delalias", s.m.Ents[0].Name, "")
				}
			}
			s.check()
			c.Prune(depth-i-1, s.key())
		}
		s.finish()
		c.Outcome(s.key())
	}}
}

// c18damage: loading of damaged packages and failed openings by all ways.
func c18damage(tier string) mc.Scenario {
	return mc.Scenario{Name: "loading of damaged packages", Run: func(c *mc.C) {
		var s = newSess(c)
		var split = c.Bool()
		var pk, dt = "p.wpk", ""
		if split {
			pk, dt = "s.wpt", "s.wpf"
		}
		s.begin(pk, dt, true)
		s.put("putdata", "a", "", true)
		s.put("putfile", "b", "src", true)
		s.sync("finalize")
		var b, err = os.ReadFile(s.path(pk))
		c.NoErr(err, "read")
		// state of the object before
		switch c.Choose(4) {
		case 0:
		case 1:
			s.luaPkg, s.m, s.known, s.datsize = s.newPkg(c), &kit.PModel{}, false, 0
		case 2:
			s.begin("other.wpk", "", true)
			s.put("putdata", "c", "", true)
			s.sync("finalize")
		case 3:
			s.begin("other.wpt", "other.wpf", true)
			s.put("putdata", "c", "", true)
		}
		var bad []byte
		var img, e = kit.Decode(b)
		c.NoErr(e, "decode")
		var tab = int(img.Hdr.FttOff)
		switch c.Choose(5) {
		case 0:
			bad = b[:c.Choose(64)]
		case 1:
			bad = b[:tab+c.Choose(int(img.Hdr.FttSize))]
		case 2: // broken lengths of the table
			bad = append([]byte{}, b...)
			bad[tab+2+c.Choose(2)] ^= 0x55
		case 3: // count of entries
			bad = append([]byte{}, b...)
			bad[24+c.Choose(8)] ^= 0x80
		case 4:
			bad = append([]byte("another signature of the file, 24 bytes")[:24], b[24:]...)
		}
		if _, err := kit.DecodeStrict(bad); err == nil {
			c.Stop()
		}
		c.NoErr(os.WriteFile(s.path("bad.wpk"), bad, 0644), "write")
		if e := s.p; e != nil {
			var pkg = wpk.NewPackage()
			if pkg.OpenFile(s.path("bad.wpk")) == nil {
				c.Stop() // it's property of opening, not of scripts
			}
		}
		s.load("bad.wpk", "")
		s.check()
		if !s.open && s.known {
			s.append()
		}
		s.finish()
		c.State(s.key())
		c.Outcome(string(bad))
	}}
}

// c18misuse: methods and properties with wrong arguments.
func c18misuse(tier string) mc.Scenario {
	return mc.Scenario{Name: "wrong arguments", ShardDepth: 2, Run: func(c *mc.C) {
		var s = newSess(c)
		var where = c.Choose(3)
		if where > 0 {
			s.begin("s.wpt", "s.wpf", true)
			s.put("putdata", "a", "", true)
		}
		if where == 2 {
			s.sync("finalize")
		}
		var l = s.luaVM
		var bads = []lua.LValue{lua.LNil, lua.LTrue, l.ls.NewTable(), l.ls.NewUserData()}
		var methods = []string{"load", "begin", "hasfile", "filesize", "glob", "putdata", "putfile", "rename", "renamedir", "putalias", "delalias", "hastag", "gettag", "settag", "addtag", "deltag", "gettags", "settags", "addtags", "deltags", "setupinfo"}
		switch c.Choose(3) {
		case 0: // wrong types of arguments
			var name = methods[c.Choose(len(methods))]
			for _, bad := range bads {
				if _, ok := bad.(*lua.LTable); ok && name == "setupinfo" {
					continue
				}
				s.expect(false, name, bad)
				if name == "putdata" || name == "rename" || name == "putalias" || name == "renamedir" || name == "settags" || name == "addtags" || name == "deltags" {
					if _, ok := bad.(*lua.LTable); !ok || !strings.HasSuffix(name, "tags") {
						s.expect(false, name, lua.LString("a"), bad)
					}
				}
			}
			s.expect(false, name)
		case 1: // method of other object
			var all = append(methods, "append", "finalize", "flush", "sumsize", "getinfo")
			var name = all[c.Choose(len(all))]
			for _, bad := range append(bads, lua.LString("x")) {
				var obj, files = s.object(), s.snapshot()
				if res, err := s.call(s.ls.GetField(s.ud, name), bad, lua.LString("a"), lua.LString("b")); err == nil {
					c.Fail("%s of %s is %s", name, bad.Type(), luaStrs(res))
				}
				if s.object() != obj || s.snapshot() != files {
					c.Fail("%s of other object changed something", name)
				}
			}
		case 2: // properties
			var ro = []string{"pkgpath", "datpath", "recnum", "tagnum", "fftsize", "datasize"}
			var rw = append([]string{"label", "secret"}, autoNames...)
			var k = c.Choose(len(ro) + len(rw) + 1)
			var obj, files = s.object(), s.snapshot()
			switch {
			case k < len(ro):
				if err := s.set(ro[k], lua.LNumber(1)); err == nil {
					c.Fail("property %s is changed", ro[k])
				}
			case k < len(ro)+len(rw):
				var name = rw[k-len(ro)]
				var was, _ = s.get(name)
				for _, bad := range append(bads, lua.LString("x"), lua.LNumber(1)) {
					if t := bad.Type(); name == "label" || name == "secret" {
						if t == lua.LTString || t == lua.LTNumber {
							continue
						}
					} else if t == lua.LTBool {
						continue
					}
					if err := s.set(name, bad); err == nil {
						c.Fail("property %s is set to %s", name, luaStr(bad))
					}
				}
				if name == "label" {
					for _, n := range []int{65536, 65537, 70000, 131072} {
						if err := s.set(name, lua.LString(fill("label", n))); err == nil {
							c.Fail("label of %d bytes is set", n)
						}
					}
				}
				if now, _ := s.get(name); now != was {
					c.Fail("property %s is %s, was %s", name, luaStr(now), luaStr(was))
				}
			default:
				if v, err := s.get("unknown"); err != nil || v != lua.LNil {
					c.Fail("unknown property is %v, %v", v, err)
				}
				if err := s.set("unknown", lua.LNumber(1)); err == nil {
					c.Fail("unknown property is changed")
				}
			}
			if s.object() != obj || s.snapshot() != files {
				c.Fail("wrong use of properties changed something")
			}
		}
		s.check()
		s.finish()
		c.State(s.key())
		c.Outcome(fmt.Sprint(where))
	}}
}

// c18script: the same objects are used by the text of script.
func c18script(tier string) mc.Scenario {
	var steps = []string{
		`pkg:begin(dir.."/p.wpk")`, `pkg:begin(dir.."/s.wpt", dir.."/s.wpf")`, `pkg:putdata("f"..n, "data"..n, {label="l"..n})`, `pkg:flush()`, `pkg:finalize()`, `pkg:append()`, `pkg:load(dir.."/p.wpk")`, `pkg:load(dir.."/s.wpt", dir.."/s.wpf")`,
	}
	var depth = pick(tier, 5, 6)
	return mc.Scenario{Name: "texts of scripts", Run: func(c *mc.C) {
		var dir = scratchDir(c)
		var open, split, known bool
		var disk = map[bool]int{false: -1, true: -1}
		var have int
		var text = "local pkg = wpk.new()\nlocal n = 0\nlocal dir = ...\n"
		text = strings.Replace(text, "...", "\""+dir+"\"", 1)
		for i := 0; i < depth; i++ {
			var k = c.Choose(len(steps))
			var ok bool
			switch k {
			case 0, 1:
				if ok = !open; ok {
					open, split, known, have = true, k == 1, true, 0
					disk[split] = map[bool]int{false: -1, true: 0}[split]
				}
			case 2:
				if ok = open; ok {
					have++
				}
			case 3, 4:
				if ok = open && (k == 4 || split); ok {
					disk[split] = have
					open = k == 3
				}
			case 5:
				if ok = !open && known; ok {
					open = true
					if !split {
						disk[false] = -1
					}
				}
			case 6, 7:
				if ok = !open && disk[k == 7] >= 0; ok {
					split, known, have = k == 7, true, disk[k == 7]
				}
			}
			text += "n = n + 1\n"
			if ok {
				text += steps[k] + "\n"
			} else {
				text += "if pcall(function() " + steps[k] + " end) then error(\"step " + fmt.Sprint(i) + " is done\") end\n"
			}
			text += fmt.Sprintf("assert(pkg.tagnum == %d, \"step %d, tagnum is \"..pkg.tagnum)\n", have, i)
			text += fmt.Sprintf("assert((pkg.pkgpath ~= nil) == %v, \"step %d, pkgpath is wrong\")\n", open, i)
			text += fmt.Sprintf("assert((pkg.datpath ~= nil) == %v, \"step %d, datpath is wrong\")\n", open && split, i)
		}
		if open {
			text += "pkg:finalize()\n"
		}
		c.Step()
		if c.Logging() {
			for _, l := range strings.Split(text, "\n") {
				c.Logf("%s", l)
			}
		}
		var l = vm()
		if err := l.ls.DoString(text); err != nil {
			c.Fail("%v", strings.ReplaceAll(firstLine(err.Error()), dir, ""))
		}
		c.State(fmt.Sprint(open, split, known, disk, have))
		c.Outcome(text[len(dir):])
	}}
}

func init() {
	reg(&mc.Prop{
		ID: "C18",
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{c18cycle(tier), c18valid(tier), c18damage(tier), c18misuse(tier), c18script(tier)}
		},
		Assumptions: []string{
			"files of a package are not changed by others while it is opened, and two objects do not write one package",
			"records are counted by their offsets or by contents, both are accepted",
		},
		Rule: "every sequence of calls of the script object at a scratch folder; each result, the object properties and all files are compared with the model of life cycle after every call; a failed call should change no byte",
		Bounds: func(tier string) string {
			return fmt.Sprintf("sequences of %d of 22 calls, including failed ones; sessions of %d allowed calls with several objects; all cuts of header and table; %d steps scripts", pick(tier, 5, 6), pick(tier, 7, 9), pick(tier, 5, 6))
		},
	})
}
