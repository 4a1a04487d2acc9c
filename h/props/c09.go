package props

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// editor is package with some workspaces, and reference file table.
type editor struct {
	*kit.World
	c     *mc.C
	views []*wpk.Package
	dirs  []string // workspaces of views
	seq   int
}

func (e *editor) full(v int, name string) string {
	name = kit.Slash(name)
	if e.dirs[v] == "" {
		return name
	}
	return e.dirs[v] + "/" + name
}

func (e *editor) wrong(err error, want []error, what string) error {
	if len(want) == 0 {
		if err != nil {
			return fmt.Errorf("%s: unexpected error %v", what, err)
		}
		return nil
	}
	for _, w := range want {
		if errors.Is(err, w) {
			return nil
		}
	}
	return fmt.Errorf("%s: error is %v, want '%v'", what, err, want[0])
}

// move is reference renaming or aliasing.
func (e *editor) move(src, dst string, keep bool) (want []error) {
	var i, j = e.M.Find(src), e.M.Find(dst)
	if i < 0 {
		want = append(want, fs.ErrNotExist)
	}
	if j >= 0 {
		want = append(want, fs.ErrExist)
	}
	if len(want) == 0 {
		var x = e.M.Ents[i].Clone()
		x.Name, x.Raw = dst, ""
		if !keep {
			e.M.Del(i)
		}
		e.M.Ents = append(e.M.Ents, x)
	}
	return
}

type editOp struct {
	name string
	do   func(e *editor, v int) error
}

func edRename(from, to string) editOp {
	return editOp{fmt.Sprintf("rename %q to %q", from, to), func(e *editor, v int) error {
		var err = e.views[v].Rename(from, to)
		return e.wrong(err, e.move(e.full(v, from), e.full(v, to), false), "rename")
	}}
}

func edAlias(from, to string) editOp {
	return editOp{fmt.Sprintf("alias %q as %q", from, to), func(e *editor, v int) error {
		var err = e.views[v].PutAlias(from, to)
		return e.wrong(err, e.move(e.full(v, from), e.full(v, to), true), "alias")
	}}
}

func edDelete(name string) editOp {
	return editOp{fmt.Sprintf("delete %q", name), func(e *editor, v int) error {
		var prev, had = e.views[v].GetTagset(name)
		var ts, ok = e.views[v].DelTagset(name)
		var i = e.M.Find(e.full(v, name))
		if ok != (i >= 0) || had != ok {
			return fmt.Errorf("delete returns %v", ok)
		}
		if ok {
			if !bytes.Equal(ts, prev) {
				return fmt.Errorf("delete returns other tagset than was stored")
			}
			e.M.Del(i)
		} else if len(ts) > 0 {
			return fmt.Errorf("delete of missing entry returns tagset")
		}
		return nil
	}}
}

func edSetTag(name string, val string) editOp {
	return editOp{fmt.Sprintf("tag %q with %d bytes", name, len(val)), func(e *editor, v int) error {
		var ts, ok = e.views[v].GetTagset(name)
		var i = e.M.Find(e.full(v, name))
		if ok != (i >= 0) {
			return fmt.Errorf("get of tagset returns %v", ok)
		}
		if ok {
			e.views[v].SetTagset(name, kit.Retag(ts, 115, val))
			e.M.Ents[i].Tags[115] = val
		}
		return nil
	}}
}

// edSetup puts the link to content of the first entry by SetupTagset.
func edSetup(name string) editOp {
	return editOp{fmt.Sprintf("setup %q", name), func(e *editor, v int) error {
		if len(e.M.Ents) == 0 {
			return nil
		}
		var first, ok = e.Pkg.GetTagset(e.M.Ents[0].Name)
		if !ok {
			return fmt.Errorf("first entry is not found")
		}
		var off, size = first.Pos()
		e.views[v].SetupTagset(e.views[v].BaseTagset(off, size, name).Put(114, wpk.StrTag("new")))
		var x = kit.PEnt{Name: e.full(v, name), Data: e.M.Ents[0].Data, Tags: map[uint16]string{114: "new"}}
		if i := e.M.Find(x.Name); i >= 0 {
			e.M.Ents[i] = x
		} else {
			e.M.Ents = append(e.M.Ents, x)
		}
		return nil
	}}
}

// edRetag puts other tag to existing entry by SetupTagset, as scripts do.
func edRetag(name string) editOp {
	return editOp{fmt.Sprintf("retag %q", name), func(e *editor, v int) error {
		var ts, ok = e.views[v].GetTagset(name)
		var i = e.M.Find(e.full(v, name))
		if ok != (i >= 0) {
			return fmt.Errorf("get of tagset returns %v", ok)
		}
		if ok {
			e.views[v].SetupTagset(kit.Retag(ts, 114, "re"))
			e.M.Ents[i].Tags[114] = "re"
		}
		return nil
	}}
}

func edPack(name string) editOp {
	return editOp{fmt.Sprintf("pack %q", name), func(e *editor, v int) error {
		e.seq++
		var data = []byte(fmt.Sprintf("%s!%d", e.full(v, name), e.seq))
		var _, err = e.views[v].PackData(e.DataFile(), bytes.NewReader(data), name)
		if e.M.Find(e.full(v, name)) >= 0 {
			return e.wrong(err, []error{fs.ErrExist}, "pack")
		}
		e.M.Add(e.full(v, name), data, nil)
		return e.wrong(err, nil, "pack")
	}}
}

func edRenameDir(from, to string, skip bool) editOp {
	return editOp{fmt.Sprintf("rename directory %q to %q, skip existing %v", from, to, skip), func(e *editor, v int) error {
		var n, err = e.views[v].RenameDir(from, to, skip)
		var slashed = func(s string) string {
			if s = kit.Slash(s); s != "" && !strings.HasSuffix(s, "/") {
				s += "/"
			}
			return s
		}
		var src, dst = e.full(v, slashed(from)), e.full(v, slashed(to))
		var want []error
		var count int
		for _, x := range e.M.Clone().Ents {
			if strings.HasPrefix(x.Name, src) {
				if bad := e.move(x.Name, dst+x.Name[len(src):], false); len(bad) > 0 {
					if !skip {
						want = bad
						break
					}
				} else {
					count++
				}
			}
		}
		if n != count {
			return fmt.Errorf("directory rename reports %d files, want %d", n, count)
		}
		return e.wrong(err, want, "directory rename")
	}}
}

// check compares the table and all the views with reference table.
func (e *editor) check() error {
	if err := e.M.CmpPkg(e.Pkg); err != nil {
		return err
	}
	for v := 1; v < len(e.views); v++ {
		var names, want []string
		var bad string
		e.views[v].Enum(func(fkey string, ts wpk.TagsetRaw) bool {
			names = append(names, fkey)
			if !e.views[v].HasTagset(fkey) || ts.Path() != e.full(v, fkey) {
				bad = fkey
			}
			return true
		})
		if bad != "" {
			return fmt.Errorf("entry %q at workspace %q is stored with other name", bad, e.dirs[v])
		}
		for _, x := range e.M.Ents {
			if strings.HasPrefix(x.Name, e.dirs[v]+"/") {
				want = append(want, x.Name[len(e.dirs[v])+1:])
			}
		}
		if fmt.Sprint(names) != fmt.Sprint(want) {
			return fmt.Errorf("workspace %q shows %q, want %q", e.dirs[v], names, want)
		}
	}
	return nil
}

// backslashed changes the written package to one of other software that keeps
// given paths with backslashes.
func backslashed(c *mc.C, wpt []byte, names []string) {
	var img, err = kit.Decode(wpt)
	c.NoErr(err, "decode")
	var t = wpt[img.Hdr.FttOff : img.Hdr.FttOff+img.Hdr.FttSize]
	for _, name := range names {
		var from = append(append([]byte{3, 0}, kit.EncUint(uint64(len(name)), 2)...), name...)
		if n := bytes.Count(t, from); n != 1 {
			panic(fmt.Sprintf("path %q is found %d times", name, n))
		}
		copy(t[bytes.Index(t, from)+4:], strings.ReplaceAll(name, "/", "\\"))
	}
}

func editScenario(name string, split bool, init []string, dirs []string, ops []editOp, depth int) mc.Scenario {
	return mc.Scenario{Name: name, ShardDepth: 2, Run: func(c *mc.C) {
		var e = &editor{World: kit.NewWorld(split), c: c, dirs: dirs}
		c.NoErr(e.Begin(), "begin")
		for i, s := range init {
			c.NoErr(e.Pack(s, []byte(fmt.Sprintf("%s:%d", s, i))), "pack")
			if i%2 == 1 {
				c.NoErr(e.SetTag(s, 10, "mime/"+s), "tag")
			}
		}
		if split { // edit opened package
			c.NoErr(e.Finalize(), "finalize")
			if strings.HasPrefix(name, "foreign") {
				backslashed(c, e.WPT.Buf, init)
				for i := range e.Disk.Ents {
					e.Disk.Ents[i].Raw = strings.ReplaceAll(e.Disk.Ents[i].Name, "/", "\\")
				}
			}
			c.NoErr(e.Reopen(true), "reopen")
			c.NoErr(e.Append(), "append")
		}
		for _, d := range dirs {
			if d == "" {
				e.views = append(e.views, e.Pkg)
			} else {
				var sub, err = e.Pkg.Sub(d)
				c.NoErr(err, "sub")
				e.views = append(e.views, sub.(*wpk.Package))
			}
		}
		e.Pkg.Tagger = &kit.MemTagger{Data: e.Dat()}
		for step := 0; step < depth; step++ {
			var k = c.Choose(len(ops)*len(dirs) + 1)
			if k == 0 {
				break
			}
			k--
			var op, v = ops[k%len(ops)], k / len(ops)
			c.Logf("at %q: %s", dirs[v], op.name)
			var before = e.M.Key()
			c.Step()
			if err := op.do(e, v); err != nil {
				c.Fail("at %q: %s: %v", dirs[v], op.name, err)
			}
			e.Pkg.Tagger.(*kit.MemTagger).Data = e.Dat()
			if err := e.check(); err != nil {
				c.Fail("after at %q: %s: %v", dirs[v], op.name, err)
			}
			if e.M.Key() == before && k != 0 {
				c.Stop() // nothing is changed, same as shorter sequence
			}
			c.Prune(depth-step-1, e.M.Key(), fmt.Sprint(len(e.Dat())))
		}
		c.NoErr(e.Finalize(), "finalize")
		if err := e.CheckDisk(); err != nil {
			c.Fail("reopened: %v", err)
		}
	}}
}

func init() {
	var product = func(names []string, with func(a, b string) editOp) (ops []editOp) {
		for _, a := range names {
			for _, b := range names {
				ops = append(ops, with(a, b))
			}
		}
		return
	}
	reg(&mc.Prop{
		ID:   "C09",
		Rule: "every sequence of editing operations up to the depth bound, each issued at each workspace; after each operation the whole table and every workspace is compared with reference table, each complete sequence is flushed and reopened; a sequence is not continued after an operation that has changed nothing, or into a table that was already explored with at least same remaining depth",
		Bounds: func(tier string) string {
			return fmt.Sprintf("files: 4 names, 49-66 operations x 2-3 workspaces, depth %d; directories: 6 entries, 8 directory names in both slash kinds, all pairs x skip mode x 3 workspaces, depth %d; mixed: depth %d", pick(tier, 3, 4), pick(tier, 2, 3), pick(tier, 4, 5)) + "; single packages are edited after they are begun, split ones after they are opened, with paths of the library and with backslashed ones of other software"
		},
		Scenarios: func(tier string) (scs []mc.Scenario) {
			// all single-file operations at colliding names
			var names = []string{"a", "d/a", "ab", `d\b`}
			var ops = append(product(names, edRename), product(names, edAlias)...)
			for _, s := range names {
				ops = append(ops, edDelete(s), edSetTag(s, "x"), edSetTag(s, "longer value"), edSetup(s), edRetag(s), edPack(s))
			}
			var dirnames = []string{"d", "d/", `d\e`, "d/e/f", "x", "", "da", `x\`}
			var dops []editOp
			for _, skip := range []bool{false, true} {
				dops = append(dops, product(dirnames, func(a, b string) editOp { return edRenameDir(a, b, skip) })...)
			}
			var mixed = []editOp{
				edRename("a", "d/a"), edRename("d/a", "a"), edRename("d/e/a", "x/a"), edRename("a", "d/e/a"),
				edAlias("a", "x/a"), edAlias("d/a", "a"), edDelete("a"), edDelete("d/a"), edSetTag("a", "tag"), edSetTag("d/e/a", "tag2"),
				edRenameDir("d", "x", false), edRenameDir("x", "d", true), edRenameDir("d/e", "", false), edRenameDir("", "d", true), edPack("a"), edPack("d/a"), edRetag("d/a"),
			}
			for _, split := range []bool{false, true} {
				var l = layoutNames[0]
				if split {
					l = layoutNames[2]
				}
				scs = append(scs,
					editScenario("files, "+l, split, []string{"a", "d/a", "d/e"}, []string{"", "d"}, ops, pick(tier, 2, 3)),
					editScenario("directories, "+l, split, []string{"d/a", "da", "d/e/a", "a", "d/e/f/a", "x/a", "dd/e/a"}, []string{"", "d", "d/e"}, dops, pick(tier, 2, 3)),
					editScenario("mixed, "+l, split, []string{"a", "d/a", "d/e/a"}, []string{"", "d"}, mixed, pick(tier, 4, 5)),
				)
			}
			scs = append(scs, editScenario("foreign, files", true, []string{"a", "d/a", "d/e"}, []string{"", "d"}, ops, pick(tier, 2, 3)),
				editScenario("foreign, mixed", true, []string{"a", "d/a", "d/e/a"}, []string{"", "d"}, mixed, pick(tier, 4, 5)))
			scs = append(scs, editScenario("files, deep", false, []string{"a", "d/a", "d/e"}, []string{"", "d"}, ops, pick(tier, 3, 4)))
			return
		},
	})
}
