package props

import (
	"fmt"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// c10live: the tree is changed while it is used, views that were made earlier included.
func c10live(tier string) mc.Scenario {
	var depth = pick(tier, 3, 4)
	var starts = [][]string{
		{"a", "d/b", "d/e/c"},
		{"d/e/c", "d.x/b"},
		nil,
	}
	var probes = []string{"d", "d/e", "d.x", "g", "g/e", "e", "a", "c", "nope"}
	var patterns = []string{"*", "*/*", "d/*", "*/e/*", "?", "g*"}
	var files = []string{"a", "d/b", "d/e/c", "g/a", "d/n"}
	var moves = [][2]string{{"d/b", "g/b"}, {"d/b", "d/e/b"}, {"d/e/c", "c"}, {"a", "d/a"}, {"g/a", "d/e/a"}}
	var dirs = [][2]string{{"d", "g"}, {"d/e", "e"}, {"g", "d/e"}}
	return mc.Scenario{Name: "changed trees", Run: func(c *mc.C) {
		var begin = c.Choose(len(starts))
		var opened = c.Bool()
		var w = kit.NewWorld(opened && begin == 1)
		var tgr = &kit.MemTagger{}
		c.NoErr(w.Begin(), "begin")
		for _, name := range starts[begin] {
			c.NoErr(w.Pack(name, []byte("<"+name+">")), "pack")
		}
		if opened {
			c.NoErr(w.Finalize(), "finalize")
			c.NoErr(w.Reopen(true), "reopen")
			c.NoErr(w.Append(), "append")
		}
		w.Pkg.Tagger = tgr
		type view struct {
			dir  string
			fsys wpk.CompleteFS
		}
		var views = []view{{".", w.Pkg}}
		var names = func() string {
			var list []string
			for i := range w.M.Ents {
				list = append(list, w.M.Ents[i].Name)
			}
			return strings.Join(list, " ")
		}
		var check = func() {
			c.Step()
			tgr.Data = w.Dat()
			var t = kit.Tree{}
			for i := range w.M.Ents {
				t[w.M.Ents[i].Name] = string(w.M.Ents[i].Data)
			}
			for _, v := range views {
				if t.IsDir(v.dir) {
					if err := kit.CheckFS(v.fsys, t.Sub(v.dir), probes, patterns); err != nil {
						c.Fail("view %q: %v", v.dir, err)
					}
				}
			}
			for _, d := range t.Dirs() { // views are made for directories when they appear
				var have bool
				for _, v := range views {
					have = have || v.dir == d
				}
				if !have {
					var sub, err = w.Pkg.Sub(d)
					c.NoErr(err, "view of "+d)
					views = append(views, view{d, sub.(wpk.CompleteFS)})
				}
			}
		}
		check()
		var n int
		for n < depth {
			var nops = len(files)*2 + len(moves) + len(dirs) + 3
			var k = c.Choose(nops)
			if k == nops-1 {
				break
			}
			n++
			var before = names()
			switch {
			case k < len(files):
				c.Logf("pack %q", files[k])
				c.NoErr(w.Pack(files[k], []byte(fmt.Sprintf("<%s %d>", files[k], n))), "pack")
			case k < 2*len(files):
				c.Logf("delete %q", files[k-len(files)])
				c.NoErr(w.Delete(files[k-len(files)]), "delete")
			case k < 2*len(files)+len(moves):
				var m = moves[k-2*len(files)]
				c.Logf("rename %q", m)
				c.NoErr(w.Rename(m[0], m[1]), "rename")
			case k < 2*len(files)+len(moves)+len(dirs):
				var m = dirs[k-2*len(files)-len(moves)]
				var target = w.M.Clone()
				var count int
				for i := range target.Ents {
					if s, ok := strings.CutPrefix(target.Ents[i].Name, m[0]+"/"); ok {
						if w.M.Find(m[1]+"/"+s) >= 0 {
							c.Stop() // occupied, it's of C09
						}
						target.Ents[i].Name = m[1] + "/" + s
						count++
					}
				}
				c.Logf("rename directory %q", m)
				var got, err = w.Pkg.RenameDir(m[0], m[1], false)
				c.NoErr(err, "rename of directory")
				c.Assert(got == count, "%d files are moved, want %d", got, count)
				w.M = target
			case k == nops-3:
				c.Logf("alias")
				c.NoErr(w.Alias("d/e/c", "g/x"), "alias")
			default:
				c.Logf("flush")
				c.NoErr(w.Sync(), "flush")
				c.NoErr(w.Append(), "append")
			}
			check()
			if k < nops-2 && names() == before { // failed operation is the last one
				break
			}
		}
		c.State(names())
		c.Outcome(fmt.Sprint(begin, opened, names()))
	}}
}
