package props

import (
	"fmt"
	"path"
	"strings"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// fileOps is script session with model of documented file operations.
type fileOps struct {
	*sess
}

// move is reference renaming (or aliasing) of one file.
func (s *fileOps) move(from, to string, keep bool) bool {
	from, to = kit.Slash(from), kit.Slash(to)
	var i = s.m.Find(from)
	if i < 0 || s.m.Find(to) >= 0 {
		return false
	}
	var e = s.m.Ents[i].Clone()
	e.Name = to
	if !keep {
		s.m.Del(i)
	}
	s.m.Ents = append(s.m.Ents, e)
	return true
}

func (s *fileOps) rename(from, to string) {
	s.expect(s.move(from, to, false), "rename", lua.LString(from), lua.LString(to))
}

func (s *fileOps) alias(from, to string) {
	s.expect(s.move(from, to, true), "putalias", lua.LString(from), lua.LString(to))
}

func (s *fileOps) delete(name string) {
	var i = s.m.Find(kit.Slash(name))
	var res = s.expect(true, "delalias", lua.LString(name))
	if len(res) != 1 || res[0] != lua.LBool(i >= 0) {
		s.c.Fail("delalias(%q) returns %s", name, luaStrs(res))
	}
	if i >= 0 {
		s.m.Del(i)
	}
}

func (s *fileOps) renamedir(from, to string, skip bool) {
	var slashed = func(d string) string {
		if d = kit.Slash(d); d != "" && !strings.HasSuffix(d, "/") {
			d += "/"
		}
		return d
	}
	var src, dst = slashed(from), slashed(to)
	var count int
	var ok = true
	for _, e := range s.m.Clone().Ents {
		if strings.HasPrefix(e.Name, src) {
			if s.move(e.Name, dst+e.Name[len(src):], false) {
				count++
			} else if !skip {
				ok = false
				break
			}
		}
	}
	s.Logf("renamedir(%q, %q, %v), should be done: %v, files %d", from, to, skip, ok, count)
	var res, err = s.do("renamedir", lua.LString(from), lua.LString(to), lua.LBool(skip))
	if (err == nil) != ok {
		s.c.Fail("renamedir(%q, %q, %v): error is %v, expected success: %v", from, to, skip, err, ok)
	}
	if ok && (len(res) != 1 || res[0] != lua.LNumber(count)) {
		s.c.Fail("renamedir(%q, %q, %v) returns %s, but %d files are renamed", from, to, skip, luaStrs(res), count)
	}
}

func (s *fileOps) pack(name string) {
	var key = kit.Slash(name)
	var ok = s.m.Find(key) < 0
	var data = fmt.Sprintf("data #%d of %s", s.seq, key)
	s.expect(ok, "putdata", lua.LString(name), lua.LString(data), s.table(lua.LString("label"), lua.LString("of "+key)))
	if ok {
		s.seq++
		s.datsize += len(data)
		var all, err = entries(&s.p.Package)
		s.c.NoErr(err, "entries")
		var tags = all[key]
		for id := uint16(1); id <= 3; id++ {
			delete(tags, id)
		}
		if tags[wpk.TIDlabel] != "of "+key {
			s.c.Fail("label of packed file is %q", tags[wpk.TIDlabel])
		}
		s.m.Add(key, []byte(data), tags)
	}
}

func (s *fileOps) info(name string, id uint16, val string) {
	s.Logf("information %s=%s", name, val)
	if _, err := s.do("setupinfo", s.table(lua.LString(name), lua.LString(val))); err != nil {
		s.c.Fail("setupinfo: %v", firstLine(err.Error()))
	}
	s.m.Info = nil
	setInfoTag(s.m, id, val)
}

func (s *fileOps) label(val string) {
	s.Logf("label %q", val)
	s.c.NoErr(s.set("label", lua.LString(val)), "label")
	setInfoTag(s.m, wpk.TIDlabel, val)
}

// report compares all what the script can ask with the model.
func (s *fileOps) report(names, patterns []string) {
	if err := s.m.CmpPkg(&s.p.Package); err != nil {
		s.c.Fail("%v", err)
	}
	var one = func(method string, args ...lua.LValue) lua.LValue {
		var res, err = s.do(method, args...)
		if err != nil || len(res) != 1 {
			s.c.Fail("%s(%s) is %s %v", method, luaStrs(args), luaStrs(res), err)
		}
		return res[0]
	}
	var sum int
	var uniq = map[string]bool{}
	for _, e := range s.m.Ents {
		sum += len(e.Data)
		uniq[string(e.Data)] = true // contents are not empty and differ
	}
	for _, name := range names {
		var i = s.m.Find(kit.Slash(name))
		if v := one("hasfile", lua.LString(name)); v != lua.LBool(i >= 0) {
			s.c.Fail("hasfile(%q) is %s", name, luaStr(v))
		}
		if i >= 0 {
			if v := one("filesize", lua.LString(name)); v != lua.LNumber(len(s.m.Ents[i].Data)) {
				s.c.Fail("filesize(%q) is %s, want %d", name, luaStr(v), len(s.m.Ents[i].Data))
			}
		} else if res, err := s.do("filesize", lua.LString(name)); err == nil {
			s.c.Fail("filesize of absent %q is %s", name, luaStrs(res))
		}
	}
	for _, p := range patterns {
		var want []string
		var bad bool
		for _, e := range s.m.Ents {
			if ok, err := path.Match(p, e.Name); ok {
				want = append(want, e.Name)
			} else if err != nil {
				bad = true
			}
		}
		var _, err = path.Match(p, "")
		bad = bad || err != nil
		res, err := s.do("glob", lua.LString(p))
		if bad {
			if err == nil {
				s.c.Fail("glob of wrong pattern %q is %s", p, luaStrs(res))
			}
			continue
		}
		var got []string
		for _, v := range res {
			got = append(got, v.String())
		}
		if err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			s.c.Fail("glob(%q) is %q %v, want %q", p, got, err, want)
		}
	}
	if v := one("sumsize"); v != lua.LNumber(sum) {
		s.c.Fail("sumsize is %s, want %d", luaStr(v), sum)
	}
	for name, want := range map[string]int{"tagnum": len(s.m.Ents), "recnum": len(uniq), "datasize": s.datsize} {
		if v, err := s.get(name); err != nil || v != lua.LNumber(want) {
			s.c.Fail("property %s is %s, want %d", name, luaStr(v), want)
		}
	}
	var str, err = s.call(s.ls.GetGlobal("tostring"), s.ud)
	if err != nil || len(str) != 1 {
		s.c.Fail("tostring is %s %v", luaStrs(str), err)
	}
	var text = str[0].String() + ","
	var want = []string{fmt.Sprintf("files: %d,", len(uniq)), fmt.Sprintf("aliases: %d,", len(s.m.Ents)-len(uniq)), fmt.Sprintf("datasize: %d,", s.datsize)}
	for name, id := range infoNames {
		if v, ok := kit.Find(s.m.Info, id); ok {
			want = append(want, name+": "+string(v)+",")
		} else if strings.Contains(text, name+":") {
			s.c.Fail("tostring is %q, but package has no %s", text, name)
		}
	}
	for _, w := range want {
		if !strings.Contains(text, w) {
			s.c.Fail("tostring is %q, it has no %q", text, w)
		}
	}
	// information
	res, err := s.do("getinfo")
	if err != nil {
		s.c.Fail("getinfo: %v", err)
	}
	if len(s.m.Info) == 0 {
		if len(res) == 1 {
			if t, ok := res[0].(*lua.LTable); ok && t.Len() == 0 {
				return // empty table is the same
			}
		}
		if len(res) > 0 && res[0] != lua.LNil {
			s.c.Fail("getinfo is %s, but package has no information", luaStrs(res))
		}
		return
	}
	var got = map[string]string{}
	if t, ok := res[0].(*lua.LTable); ok {
		t.ForEach(func(k, v lua.LValue) { got[k.String()] = v.String() })
	}
	var ref = map[string]string{}
	for _, t := range s.m.Info { // keys are names or identifiers
		var key = fmt.Sprint(t.ID)
		for name, id := range infoNames {
			if _, ok := got[name]; ok && id == t.ID {
				key = name
			}
		}
		ref[key] = string(t.Val)
	}
	if fmt.Sprint(got) != fmt.Sprint(ref) {
		s.c.Fail("getinfo is %v, want %v", got, ref)
	}
}

var infoNames = map[string]uint16{"label": wpk.TIDlabel, "link": wpk.TIDlink, "version": wpk.TIDversion, "author": wpk.TIDauthor, "comment": wpk.TIDcomment}

type fileOp struct {
	name string
	do   func(s *fileOps)
}

func c23ops() (ops []fileOp) {
	var add = func(f func(s *fileOps)) { ops = append(ops, fileOp{do: f}) }
	for _, n := range []string{"d/b", `d\a`, "e/x", "dx/a"} {
		add(func(s *fileOps) { s.pack(n) })
	}
	for _, p := range [][2]string{{"a", "d/a"}, {`d\a`, "a"}, {"d/a", `d\a`}, {"none", "a"}, {"d/a", `e\a`}} {
		add(func(s *fileOps) { s.rename(p[0], p[1]) })
	}
	for _, p := range [][2]string{{"a", `e\a`}, {"d/a", "a"}, {`d\a`, "d/b"}} {
		add(func(s *fileOps) { s.alias(p[0], p[1]) })
	}
	for _, n := range []string{"a", `d\a`, "none"} {
		add(func(s *fileOps) { s.delete(n) })
	}
	for _, p := range [][2]string{{"d", "e"}, {`d\e\`, "e/"}, {"e", ""}, {"d/", `d\e`}} {
		for _, skip := range []bool{true, false} {
			add(func(s *fileOps) { s.renamedir(p[0], p[1], skip) })
		}
	}
	add(func(s *fileOps) { s.info("link", wpk.TIDlink, "here") })
	add(func(s *fileOps) { s.info("author", wpk.TIDauthor, "me, too") })
	add(func(s *fileOps) { s.info("version", wpk.TIDversion, "1") })
	add(func(s *fileOps) { s.info("comment", wpk.TIDcomment, "") })
	add(func(s *fileOps) { s.label("lbl") })
	add(func(s *fileOps) { s.label("") })
	return
}

var (
	c23names    = []string{"a", "d/a", `d\a`, "d/b", "d/e/a", `d/e\a`, "e/a", `e\x`, "dx/a", "d", "e", "none", "", "A", "d/", "/a"}
	c23patterns = []string{"*", "?", "d/*", "*/a", "d/?/*", "[ad]*/?", "[", "d/[", `\a`, `d\a`, "none", ""}
)

func c23edit(tier, name string, split bool, init []string, depth int) mc.Scenario {
	var ops = c23ops()
	return mc.Scenario{Name: name, ShardDepth: 2, Run: func(c *mc.C) {
		var s = &fileOps{newSess(c)}
		if split {
			s.begin("s.wpt", "s.wpf", true)
		} else {
			s.begin("p.wpk", "", true)
		}
		for _, n := range init {
			s.pack(n)
		}
		if split { // continue loaded package by other object
			s.sync("finalize")
			s.luaPkg = s.newPkg(c)
			s.m = &kit.PModel{}
			s.load("s.wpt", "s.wpf")
			s.append()
		}
		for i := 0; i < depth; i++ {
			ops[c.Choose(len(ops))].do(s)
			s.report(c23names, c23patterns)
			c.Prune(depth-i-1, s.m.Key(), fmt.Sprint(s.datsize, s.seq))
		}
		s.sync("finalize")
		s.checkDisk()
		var pk, dt = s.pk, s.dt
		s.luaPkg = s.newPkg(c)
		s.load(pk, dt)
		s.report(c23names, c23patterns)
		if dt == "" {
			dt = pk
		}
		if err := kit.CheckReal(s.path(pk), s.path(dt), s.m); err != nil {
			s.c.Fail("%v", err)
		}
		c.Outcome(s.m.Key())
	}}
}

func init() {
	reg(&mc.Prop{
		ID: "C23",
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{
				c23many(tier),
				c23edit(tier, "edits of package that was begun", false, []string{"a", "d/a", `d\e/a`}, pick(tier, 3, 4)),
				c23edit(tier, "edits of package that was appended", true, []string{"e/a", `d\b`, "d/a", "d/e/a"}, pick(tier, 3, 4)),
			}
		},
		Assumptions: []string{
			"the third argument of renamedir is given always, its default value is not documented",
			"packed contents are not empty, so each of them has own offset",
		},
		Rule: "every sequence of script file operations at an opened package; results, the whole table, and each reporting function and property are compared with the reference table after every operation, finalized files are decoded independently and opened again by other object",
		Bounds: func(tier string) string {
			return fmt.Sprintf("sequences of %d of %d operations at 2 packages, %d asked names, %d patterns; reports about up to 4097 files", pick(tier, 3, 4), len(c23ops()), len(c23names), len(c23patterns))
		},
	})
}
