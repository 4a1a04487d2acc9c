package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/luawpk"

	"vh/kit"
	"vh/mc"
)

// Scenarios with many files: limits of counters, of tables, and of pages can
// be met by number of entries only.

// c01many packs every number of files up to the limit, and around of powers.
func c01many(tier string) mc.Scenario {
	var counts = kit.Counts(pick(tier, 70, 300), pick(tier, 65537, 131073))
	return mc.Scenario{Name: "many files", ShardDepth: 2, Run: func(c *mc.C) {
		var n = counts[len(counts)-1-c.Choose(len(counts))]
		var w = newLayout(c.Choose(3))
		c.Logf("%d files", n)
		c.NoErr(w.Begin(), "begin")
		w.SetInfo(infoSets[1])
		for i := 0; i < n; i++ {
			if err := w.Pack(kit.ManyName(i), kit.ManyData(i)); err != nil {
				c.Fail("%v", err)
			}
		}
		c.Step()
		c.NoErr(w.Finalize(), "finalize")
		c.State(fmt.Sprint(n, w.Split, w.Same))
		if err := w.Check(); err != nil {
			c.Fail("%.600s", err)
		}
		if n > 0 {
			if err := w.Pack(kit.ManyName(n/2), []byte("again")); err != nil {
				c.Fail("%v", err)
			}
		}
		c.Outcome(fmt.Sprint(n, w.Split, w.Same))
	}}
}

// edits at package with many files.
var manyEdits = []struct {
	name string
	do   func(w *kit.World, n int) error
}{
	{"nothing", func(w *kit.World, n int) error { return nil }},
	{"delete the first", func(w *kit.World, n int) error { return w.Delete(kit.ManyName(0)) }},
	{"delete the last", func(w *kit.World, n int) error { return w.Delete(kit.ManyName(n - 1)) }},
	{"rename at the middle", func(w *kit.World, n int) error { return w.Rename(kit.ManyName(n/2), "renamed/x") }},
	{"rename the first to existing", func(w *kit.World, n int) error { return w.Rename(kit.ManyName(0), kit.ManyName(n-1)) }},
	{"alias of the last", func(w *kit.World, n int) error { return w.Alias(kit.ManyName(n-1), "alias") }},
	{"tag of all", func(w *kit.World, n int) error {
		for i := 0; i < n; i++ {
			if err := w.SetTag(kit.ManyName(i), wpk.TIDlabel, fmt.Sprintf("label %d", i%300)); err != nil {
				return err
			}
		}
		return nil
	}},
	{"delete a few", func(w *kit.World, n int) error {
		for i := 0; i < 8; i++ {
			if err := w.Delete(kit.ManyName(i * n / 8)); err != nil {
				return err
			}
		}
		return nil
	}},
}

// c02many: sessions of packing with many files.
func c02many(tier string) mc.Scenario {
	var counts = append(kit.Counts(pick(tier, 3, 8), pick(tier, 257, 1025)), pick(tier, 1025, 10001))
	var n2s = []int{0, 1, 255, 256, 257, 2, 63, 1025}[:pick(tier, 5, 8)]
	return mc.Scenario{Name: "sessions with many files", ShardDepth: 2, Run: func(c *mc.C) {
		var n1 = counts[len(counts)-1-c.Choose(len(counts))]
		var e = c.Choose(len(manyEdits))
		var n2 = n2s[c.Choose(len(n2s))]
		var ses = c.Choose(3)
		var w = newLayout(c.Choose(3))
		c.Logf("%d files, %s, session #%d, %d files", n1, manyEdits[e].name, ses, n2)
		var check = func(what string) {
			c.Step()
			if err := w.Check(); err != nil {
				c.Fail("%s: %.600s", what, err)
			}
		}
		c.NoErr(w.Begin(), "begin")
		for i := 0; i < n1; i++ {
			if err := w.Pack(kit.ManyName(i), kit.ManyData(i)); err != nil {
				c.Fail("%v", err)
			}
		}
		switch ses {
		case 0: // the same session
			if w.Split {
				c.NoErr(w.Sync(), "flush")
				check("flushed")
			}
		case 1: // by the same object
			c.NoErr(w.Finalize(), "finalize")
			check("the first session")
			c.NoErr(w.Append(), "append")
		case 2: // by other object
			c.NoErr(w.Finalize(), "finalize")
			c.NoErr(w.Reopen(true), "reopen")
			check("reopened")
			c.NoErr(w.Append(), "append")
		}
		if n1 > 0 {
			if err := manyEdits[e].do(w, n1); err != nil {
				c.Fail("%v", err)
			}
		}
		for i := n1; i < n1+n2; i++ {
			if err := w.Pack(kit.ManyName(i), kit.ManyData(i)); err != nil {
				c.Fail("%v", err)
			}
		}
		c.NoErr(w.Finalize(), "finalize")
		c.State(fmt.Sprint(n1, e, n2, ses, w.Split, w.Same))
		check("the last session")
		c.Outcome(fmt.Sprint(len(w.M.Ents)))
	}}
}

var manyPatterns = []string{"*", "*/*", "f*", "big/*", "big/f*1", "d?/e/*", "d1*/e/f*", "Mixed/[0-9].txt", "*/?/*"}

// c10many: large directories.
func c10many(tier string) mc.Scenario {
	var counts = kit.Counts(pick(tier, 16, 70), pick(tier, 4097, 32769))
	return mc.Scenario{Name: "large directories", ShardDepth: 2, Run: func(c *mc.C) {
		var n = counts[len(counts)-1-c.Choose(len(counts))]
		var kind = c.Choose(3)
		if kind != 1 && n > pick(tier, 1025, 4097) {
			c.Stop()
		}
		c.Logf("%d files, tree #%d", n, kind)
		var t = kit.Tree{}
		switch kind {
		case 0: // mixed
			t = kit.ManyTree(n)
		case 1: // all at the root
			for i := 0; i < n; i++ {
				t[fmt.Sprintf("f%d", i)] = string(kit.ManyData(i))
			}
		case 2: // directories with one file only
			for i := 0; i < n; i++ {
				t[fmt.Sprintf("x/d%d/f", i)] = string(kit.ManyData(i))
			}
		}
		var names []string
		for name := range t {
			names = append(names, name)
		}
		sort.Strings(names)
		var w = packTree(c, kind == 1, names, t)
		c.Step()
		c.State(fmt.Sprint(n, kind))
		if err := kit.CheckLarge(w.Pkg, t, manyPatterns); err != nil {
			c.Fail("%v", err)
		}
		for _, d := range []string{"big", "x", "d3"} {
			if !t.IsDir(d) {
				continue
			}
			var sub, err = w.Pkg.Sub(d)
			c.NoErr(err, "sub")
			if err := kit.CheckLarge(sub.(wpk.CompleteFS), t.Sub(d), []string{"*", "*/*", "f*"}); err != nil {
				c.Fail("sub-view %q: %v", d, err)
			}
		}
		c.Outcome(fmt.Sprint(n, kind))
	}}
}

// c12many: union of many packages, and of packages with many files.
func c12many(tier string) mc.Scenario {
	var npkg = kit.Counts(pick(tier, 12, 40), pick(tier, 257, 1025))
	var nfile = []int{1, 2, 5, 300, 1100}
	return mc.Scenario{Name: "large unions", ShardDepth: 2, Run: func(c *mc.C) {
		var n = npkg[len(npkg)-1-c.Choose(len(npkg))]
		if n == 0 {
			c.Stop()
		}
		var k = nfile[c.Choose(len(nfile))]
		var step = c.Choose(3) // all packages have the same files; overlapped; different ones
		if k*n > pick(tier, 6000, 30000) {
			c.Stop()
		}
		c.Logf("%d packages of %d files, overlap #%d", n, k, step)
		var u = &wpk.Union{}
		var t = kit.Tree{}
		for p := 0; p < n; p++ {
			var list []string
			var pt = kit.Tree{}
			for i := 0; i < k; i++ {
				var name = kit.ManyName(p*[]int{0, (k + 1) / 2, k}[step] + i)
				list = append(list, name)
				pt[name] = fmt.Sprintf("%d of %d", i, p)
				if _, ok := t[name]; !ok {
					t[name] = pt[name]
				}
			}
			u.List = append(u.List, packTree(c, p&1 != 0, list, pt).Pkg)
		}
		c.Step()
		c.State(fmt.Sprint(n, k, step))
		if err := kit.CheckLarge(u, t, manyPatterns[:5]); err != nil {
			c.Fail("%v", err)
		}
		if t.IsDir("big") {
			var sub, err = u.Sub("big")
			c.NoErr(err, "sub")
			if err := kit.CheckLarge(sub.(wpk.CompleteFS), t.Sub("big"), []string{"*", "f*"}); err != nil {
				c.Fail("sub-view: %v", err)
			}
		}
		var got = append([]string{}, u.AllKeys()...)
		if len(got) != len(t) {
			c.Fail("union has %d keys, want %d", len(got), len(t))
		}
		for _, name := range got {
			if _, ok := t[name]; !ok {
				c.Fail("union has key %q", name)
			}
		}
		c.Outcome(fmt.Sprint(n, k, step))
	}}
}

// c17many: automatic identifiers of many files.
func c17many(tier string) mc.Scenario {
	var counts = []int{254, 255, 256, 257, 1000, 65534, 65535, 65536, 65537, 66000}
	if tier == "thorough" {
		counts = append(counts, 131072, 200000)
	}
	return mc.Scenario{Name: "identifiers of many files", ShardDepth: 2, Run: func(c *mc.C) {
		var n = counts[len(counts)-1-c.Choose(len(counts))]
		var split = c.Bool()
		var mode = c.Choose(3) // one session; two sessions; two sessions of different objects
		var a = newAutoPack(c, split)
		c.Logf("%d files, sessions #%d", n, mode)
		a.setopt(0, true)
		var fids = map[string]string{}
		var total int
		var put = func(k int) {
			for i := 0; i < k; i++ {
				var _, err = a.do("putdata", lua.LString(fmt.Sprintf("f%d", total)), lua.LString("x"))
				c.NoErr(err, "putdata")
				total++
			}
		}
		put(n)
		if mode > 0 {
			c.NoErr(a.fin(), "finalize")
			if mode == 2 {
				a.luaPkg = a.newPkg(c)
				var _, err = a.do("load", a.paths()...)
				c.NoErr(err, "load")
				a.setopt(0, true)
			}
			var _, err = a.do("append")
			c.NoErr(err, "append")
			put(5)
		}
		c.NoErr(a.fin(), "finalize")
		c.State(fmt.Sprint(n, split, mode))
		var img, err = kit.Decode(a.c17file())
		c.NoErr(err, "decoding")
		for _, e := range img.Ents {
			var v, ok = kit.Find(e.Tags, wpk.TIDfid)
			if !ok || len(v) == 0 {
				c.Fail("%q has no identifier", e.Name)
			}
			var id = strings.TrimRight(string(v), "\x00")
			if other, ok := fids[id]; ok {
				c.Fail("%q and %q have the same identifier %x", other, e.Name, id)
			}
			fids[id] = e.Name
		}
		var num = len(img.Ents)
		if num != total {
			c.Fail("package has %d files, want %d", num, total)
		}
		c.Outcome(fmt.Sprint(n, split, mode))
	}}
}

// c22many: quick query for many files.
func c22many(tier string) mc.Scenario {
	var counts = kit.Counts(pick(tier, 70, 300), pick(tier, 65537, 131073))
	return mc.Scenario{Name: "many files", ShardDepth: 2, Run: func(c *mc.C) {
		var n = counts[len(counts)-1-c.Choose(len(counts))]
		var w = newLayout(c.Choose(3))
		c.Logf("%d files", n)
		c.NoErr(w.Begin(), "begin")
		w.SetInfo(infoSets[2])
		for i := 0; i < n; i++ {
			var _, err = w.Pkg.PackData(w.DataFile(), bytes.NewReader(kit.ManyData(i)), kit.ManyName(i))
			c.NoErr(err, "pack")
		}
		c.NoErr(w.Pkg.Sync(w.WPT, w.Second()), "finalize")
		c.Step()
		c.State(fmt.Sprint(n, w.Split, w.Same))
		checkQuick(c, w.WPT.Buf, false)
		var hdr, _, err = wpk.GetPackageInfo(&kit.MemFile{Buf: w.WPT.Buf})
		if err != nil || hdr.Count() != n {
			c.Fail("quick query gives %d entries, want %d, error %v", hdr.Count(), n, err)
		}
		c.Outcome(fmt.Sprint(n, w.Split, w.Same))
	}}
}

func (a *autoPack) fin() error {
	var _, err = a.do("finalize")
	return err
}

func (a *autoPack) c17file() []byte {
	var b, err = os.ReadFile(a.dir + "/p.wpk")
	a.c.NoErr(err, "read")
	return b
}

// c23many: what the script is told about package with many files.
func c23many(tier string) mc.Scenario {
	var counts = kit.Counts(pick(tier, 16, 70), pick(tier, 4097, 65537))
	return mc.Scenario{Name: "many files", ShardDepth: 2, Run: func(c *mc.C) {
		var n = counts[len(counts)-1-c.Choose(len(counts))]
		var a = newAutoPack(c, c.Bool())
		var reopen = c.Bool()
		c.Logf("%d files, reopened %v", n, reopen)
		var uniq = map[string]bool{}
		var num, sum, dat, unum int
		var lens = make([]int, n)
		for i := 0; i < n; i++ {
			if i%3 == 2 {
				var _, err = a.do("putalias", lua.LString(kit.ManyName(i-1)), lua.LString(kit.ManyName(i)))
				c.NoErr(err, "putalias")
				sum += lens[i-1]
				lens[i] = lens[i-1]
			} else {
				var data = "0123456789"[:1+i%9]
				if i == 0 && n > 200 {
					data = strings.Repeat("x", 65536) // offsets of the others differ by it
				}
				var _, err = a.do("putdata", lua.LString(kit.ManyName(i)), lua.LString(data))
				c.NoErr(err, "putdata")
				sum += len(data)
				lens[i] = len(data)
				dat += len(data)
				unum++
			}
			uniq[kit.ManyName(i)] = true
			num++
		}
		if reopen {
			c.NoErr(a.fin(), "finalize")
			a.luaPkg = a.newPkg(c)
			var _, err = a.do("load", a.paths()...)
			c.NoErr(err, "load")
		}
		c.State(fmt.Sprint(n, a.split, reopen))
		for name, want := range map[string]int{"tagnum": num, "recnum": unum, "datasize": dat} {
			if v, err := a.get(name); err != nil || v != lua.LNumber(want) {
				c.Fail("property %s is %s, want %d", name, luaStr(v), want)
			}
		}
		if v, err := a.do("sumsize"); err != nil || len(v) != 1 || v[0] != lua.LNumber(sum) {
			c.Fail("sumsize is %s %v, want %d", luaStrs(v), err, sum)
		}
		for _, p := range []string{"*", "*/*", "big/f*1", "d?/e/*"} {
			var res, err = a.do("glob", lua.LString(p))
			if err != nil {
				c.Fail("glob(%q) with %d files: %v", p, n, firstLine(err.Error()))
			}
			var got, want = map[string]bool{}, 0
			for _, v := range res {
				got[v.String()] = true
			}
			for name := range uniq {
				if ok, _ := path.Match(p, name); ok {
					want++
					if !got[name] {
						c.Fail("glob(%q) has no %q", p, name)
					}
				}
			}
			if len(res) != want || len(got) != want {
				c.Fail("glob(%q) has %d names, %d unique, want %d", p, len(res), len(got), want)
			}
		}
		if n > 0 {
			if v, err := a.do("hasfile", lua.LString(kit.ManyName(n-1))); err != nil || len(v) != 1 || v[0] != lua.LTrue {
				c.Fail("the last file is not found: %s %v", luaStrs(v), err)
			}
		}
		c.Outcome(fmt.Sprint(n, a.split, reopen))
	}}
}

// runMany is about large trees.
func runMany(c *mc.C, tier string) {
	var counts = []int{1100, 257, 256, 255, 100}
	if tier == "thorough" {
		counts = append(counts, 128, 1024, 5000)
	}
	var k = c.Choose(len(counts) + 3)
	var o = packOpts{split: c.Bool()}
	if c.Bool() {
		o.mime, o.link = true, true
	}
	var ft = fileTree{}
	switch {
	case k < len(counts):
		for i := 0; i < counts[k]; i++ {
			ft[kit.ManyName(i)] = kit.ManyData(i)
		}
	case k == len(counts): // deep one
		var d string
		for i := 0; i < 200; i++ {
			d += fmt.Sprintf("d%d/", i)
			if i%20 == 19 {
				ft[d+"f"] = kit.ManyData(i)
			}
		}
	case k == len(counts)+1: // sizes around of buffers
		for _, n := range []int{511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 1 << 17, 1<<17 + 1} {
			ft[fmt.Sprintf("s%d", n)] = fill("size", n)
		}
	default: // the longest names of files
		for i := 1; i < 4; i++ {
			ft[strings.Repeat("n", 256-i)] = kit.ManyData(i)
			ft[strings.Repeat("d", 256-i)+"/"+strings.Repeat("я", 127)] = kit.ManyData(i)
		}
	}
	c.Logf("%d files, case #%d, options %+v", len(ft), k, o)
	var t = newTools(c)
	t.writeTree("src", ft)
	t.mkdir("pk")
	t.setTimes("src", ft)
	var r = t.run("pack", ".", -1, nil, append(o.args(), "-src", t.path("src"), "-dst", t.path("pk/out.wpk"))...)
	c.Assert(r.ok(), "packing of %d files fails: %v", len(ft), r)
	var pt, pd = outFiles("pk/out.wpk", o.split)
	t.checkPacked(pt, pd, t.srcFiles("src", ft), o)
	for _, mode := range toolModes {
		t.checkExtract(pt, ft, mode, nil)
	}
	c.State(fmt.Sprint(k, o))
	c.Outcome(string(t.read(pt)))
}

// c24many: scripts that work with many files.
func c24many(tier string) mc.Scenario {
	var counts = []int{70000, 10000, 6000, 5120, 5000, 1025, 256, 255, 100}
	if tier == "thorough" {
		counts = append(counts, 300000, 131072, 65535, 5119, 5121)
	}
	var texts = []string{
		`local t = {p:glob("*")} assert(#t == N, "table of names has "..#t) for i, s in ipairs(t) do assert(s == "f"..i) end`,
		`assert(select("#", p:glob("*")) == N)`,
		`for i, s in ipairs{p:glob("f*")} do assert(p:filesize(s) == 1) p:settag(s, "label", "x") end assert(p:hastag("f"..N, "label"))`,
		`for _, s in ipairs{p:glob("f*1")} do p:delalias(s) end for i = 1, N do assert(p:hasfile("f"..i) == (i % 10 ~= 1)) end`,
		`local t = {} for i = 1, N do t[i] = "p:putalias('f"..i.."', 'a/"..i.."')" end P = p for i = 1, N, 500 do assert(loadstring("local p = P "..table.concat(t, " ", i, math.min(i+499, N))))() end assert(p.tagnum == 2*N)`,
	}
	return mc.Scenario{Name: "many files", ShardDepth: 2, Run: func(c *mc.C) {
		var n = counts[c.Choose(len(counts))]
		var k = c.Choose(len(texts))
		if k == 3 && n > 10000 {
			c.Stop()
		}
		var dir = scratchDir(c)
		var text = fmt.Sprintf("N = %d local p = wpk.new() p:begin(%q) for i = 1, N do p:putdata('f'..i, 'x') end %s p:finalize()\n", n, dir+"/p.wpk", texts[k])
		c.NoErr(os.WriteFile(dir+"/s.lua", []byte(text), 0644), "write")
		c.Step()
		c.State(fmt.Sprint(n, k))
		c.Logf("%d files, text #%d", n, k)
		if err := luawpk.RunLuaVM(dir + "/s.lua"); err != nil {
			c.Fail("script fails: %s", firstLine(err.Error()))
		}
		c.Outcome(fmt.Sprint(n, k))
	}}
}

// c24folder: scripts pack all files of large folder.
func c24folder(tier string) mc.Scenario {
	var counts = pick(tier, []int{6000, 5120, 257, 101, 100, 1, 0}, []int{70000, 20000, 6000, 5121, 5120, 5119, 1025, 257, 101, 100, 99, 3, 2, 1, 0})
	var texts = []string{
		`local t = path.enum(src) for i, s in ipairs(t) do p:putfile(s, path.join(src, s)) end`,
		`local t = {} if N > 0 then t = path.enum(src, N + 1) end for i, s in ipairs(t) do p:putfile(s, path.join(src, s)) end`,
		`for i, s in ipairs{path.glob(src.."/*")} do p:putfile(path.base(s), s) end`,
		`assert(select("#", path.glob(path.join(src, "f*"))) == N) for i = 1, N do local s = path.join(src, "f"..i) if checkfile(s) then p:putfile("f"..i, s) end end`,
	}
	return mc.Scenario{Name: "large folder", ShardDepth: 2, Run: func(c *mc.C) {
		var n = counts[c.Choose(len(counts))]
		var k = c.Choose(len(texts))
		var dir = scratchDir(c)
		c.NoErr(os.Mkdir(dir+"/src", 0755), "mkdir")
		for i := 1; i <= n; i++ {
			c.NoErr(os.WriteFile(fmt.Sprintf("%s/src/f%d", dir, i), fmt.Append(nil, i), 0644), "write")
		}
		var text = fmt.Sprintf("N = %d src = %q local p = wpk.new() p:begin(%q) %s p:finalize()\n", n, dir+"/src", dir+"/p.wpk", texts[k])
		c.NoErr(os.WriteFile(dir+"/s.lua", []byte(text), 0644), "write")
		c.Step()
		c.State(fmt.Sprint(n, k))
		c.Logf("%d files, text #%d", n, k)
		if err := luawpk.RunLuaVM(dir + "/s.lua"); err != nil {
			c.Fail("script fails: %s", firstLine(err.Error()))
		}
		var b, err = os.ReadFile(dir + "/p.wpk")
		c.NoErr(err, "read")
		im, err := kit.DecodeStrict(b)
		c.NoErr(err, "decode")
		if len(im.Ents) != n {
			c.Fail("%d files of %d are in the package", len(im.Ents), n)
		}
		var seen = map[string]bool{}
		for i := range im.Ents {
			var e = &im.Ents[i]
			var data, err = e.Content(b)
			if err != nil || seen[e.Name] || "f"+string(data) != e.Name {
				c.Fail("file %q has wrong content: %v", e.Name, err)
			}
			seen[e.Name] = true
		}
		c.Outcome(fmt.Sprint(n, k))
	}}
}

// slowReader gives data by portions.
type slowReader struct {
	r io.Reader
	n int
}

func (r *slowReader) Read(p []byte) (int, error) {
	if len(p) > r.n {
		p = p[:r.n]
	}
	return r.r.Read(p)
}

// c21many: large tables of other software are read by all the ways.
func c21many(tier string) mc.Scenario {
	var counts = kit.Counts(pick(tier, 20, 300), pick(tier, 65537, 131073))
	var extras = [][]int{{0}, {300, 0, 1}, {5000, 7, 256}, {65000, 0, 40000}}
	return mc.Scenario{Name: "large tables", ShardDepth: 2, Run: func(c *mc.C) {
		var n = counts[len(counts)-1-c.Choose(len(counts))]
		var ex = extras[c.Choose(len(extras))]
		if len(ex) > 1 && n*ex[0] > pick(tier, 8<<20, 64<<20) {
			c.Stop()
		}
		c.Logf("%d files with tags of %v bytes", n, ex)
		var m = &kit.PModel{Info: infoSets[1]}
		var dat []byte
		var sets [][]byte
		for i := 0; i < n; i++ {
			var name, data = kit.ManyName(i), kit.ManyData(i)
			var tags = []kit.Tag{{ID: 1, Val: kit.EncUint(uint64(len(dat)), 0)}, {ID: 2, Val: kit.EncUint(uint64(len(data)), 0)}, {ID: 3, Val: []byte(name)}}
			var tm = map[uint16]string{}
			if k := ex[i%len(ex)]; k > 0 {
				var v = fill(name, k)
				tags = append(tags, kit.Tag{ID: 40000, Val: v})
				tm[40000] = string(v)
			}
			dat = append(dat, data...)
			sets = append(sets, kit.EncTags(tags))
			m.Add(name, data, tm)
		}
		var table = kit.EncTable(kit.EncTags(m.Info), sets)
		var h = kit.Header{Count: uint64(n), FttSize: uint64(len(table)), FttOff: 64, DatSize: uint64(len(dat))}
		copy(h.Sign[:], kit.SignReady)
		var wpt = append(h.Enc(), table...)
		var check = func(what string, pkg *wpk.Package) {
			c.Step()
			pkg.Tagger = &kit.MemTagger{Data: dat}
			if err := m.CmpPkg(pkg); err != nil {
				c.Fail("%s: %.600s", what, err)
			}
			var b bytes.Buffer
			var k, err = pkg.FTT.WriteTo(&b)
			if err != nil || k != int64(len(table)) || !bytes.Equal(b.Bytes(), table) {
				c.Fail("%s: table is written by %d bytes, want %d, error %v", what, k, len(table), err)
			}
		}
		var pkg = wpk.NewPackage()
		c.NoErr(pkg.OpenStream(&kit.MemFile{Buf: wpt}), "open")
		check("opened", pkg)
		for _, part := range []int{1 << 30, 4096, 1000} {
			var hdr wpk.Header
			var r = &slowReader{bytes.NewReader(wpt), part}
			var _, err = hdr.ReadFrom(r)
			c.NoErr(err, "header")
			pkg = wpk.NewPackage()
			pkg.Init(&hdr)
			k, err := pkg.FTT.ReadFrom(r)
			if err != nil || k != int64(len(table)) {
				c.Fail("table is read by %d bytes of %d, error %v", k, len(table), err)
			}
			check("read", pkg)
		}
		var hdr wpk.Header
		hdr.Parse(wpt)
		pkg = wpk.NewPackage()
		pkg.Init(&hdr)
		k, err := pkg.Parse(table)
		if err != nil || k != int64(len(table)) {
			c.Fail("table is parsed by %d bytes of %d, error %v", k, len(table), err)
		}
		check("parsed", pkg)
		c.State(fmt.Sprint(n, ex))
		c.Outcome(fmt.Sprint(n, ex))
	}}
}

// thinPoint tells whether crash point is checked, when there are too many of them.
func thinPoint(k, num int) bool {
	return num < 120 || k < 30 || k >= num-30 || k%(num/60) == 0
}

// c03many: crash points at flush of large table.
func c03many(tier string) mc.Scenario {
	var counts = []int{300, 40, 2500}[:pick(tier, 2, 3)]
	return mc.Scenario{Name: "crash points with many files", ShardDepth: 3, Run: func(c *mc.C) {
		var n = counts[c.Choose(len(counts))]
		var e = c.Choose(len(manyEdits))
		var n2 = []int{0, 1, n}[c.Choose(3)]
		var fin, reopen = c.Bool(), c.Bool()
		c.Logf("%d files, %s, %d files, finalize %v, reopen %v", n, manyEdits[e].name, n2, fin, reopen)
		var w = kit.NewWorld(true)
		var put = func(from, to int) {
			for i := from; i < to; i++ {
				if err := w.Pack(kit.ManyName(i), kit.ManyData(i)); err != nil {
					c.Fail("%v", err)
				}
			}
		}
		c.NoErr(w.Begin(), "begin")
		put(0, n)
		c.NoErr(w.Sync(), "flush")
		if reopen {
			c.NoErr(w.Reopen(true), "reopen")
			c.NoErr(w.Append(), "append")
		}
		if err := w.Check(); err != nil {
			c.Fail("%.600s", err)
		}
		var before, img = w.Disk.Clone(), images(&hist{World: w})
		var log = &kit.WLog{}
		w.SetLog(log)
		if err := manyEdits[e].do(w, n); err != nil {
			c.Fail("%v", err)
		}
		put(n, n+n2)
		if fin {
			c.NoErr(w.Finalize(), "finalize")
		} else {
			c.NoErr(w.Sync(), "flush")
		}
		var after = w.Disk.Clone()
		var bounds = [][2][]byte{img}
		for k, op := range log.Ops {
			var check = func(m int) {
				var torn = img
				torn[op.File] = kit.Apply(append([]byte{}, img[op.File]...), op.Off, op.Data[:m])
				c.Step()
				if _, err := splitState(torn, before, after); err != nil {
					c.Fail("crash after %d bytes of write #%d of %d, file %d at %d: files do not show last flushed state: %.600s", m, k, len(log.Ops), op.File, op.Off, err)
				}
				if m == len(op.Data) && (k%(1+len(log.Ops)/8) == 0 || k >= len(log.Ops)-3) {
					bounds = append(bounds, torn)
				}
			}
			if thinPoint(k, len(log.Ops)) {
				var hdr = op.File == 0 && op.Off == 0 && len(op.Data) <= 64
				var l = len(op.Data)
				for _, m := range []int{1, l / 2, l - 1, 4096, 8192, 65536} {
					if !hdr && m > 0 && m < l {
						check(m)
					}
				}
				check(l)
			}
			img[op.File] = kit.Apply(append([]byte{}, img[op.File]...), op.Off, op.Data)
		}
		checkReaders(c, bounds, before, after)
		c.State(fmt.Sprint(n, e, n2, fin, reopen))
		if err := w.Check(); err != nil {
			c.Fail("%.600s", err)
		}
		c.Outcome(fmt.Sprint(n, e, n2, fin, reopen))
	}}
}

// c04many: crash points at finalization of large package.
func c04many(tier string) mc.Scenario {
	var counts = []int{300, 40, 2500}[:pick(tier, 2, 3)]
	return mc.Scenario{Name: "crash points with many files", ShardDepth: 3, Run: func(c *mc.C) {
		var n = counts[c.Choose(len(counts))]
		var e = c.Choose(len(manyEdits))
		var n2 = []int{0, 1, n}[c.Choose(3)]
		var w = newLayout(c.Choose(2))
		c.Logf("%d files, %s, %d files", n, manyEdits[e].name, n2)
		c.NoErr(w.Begin(), "begin")
		for i := 0; i < n; i++ {
			if err := w.Pack(kit.ManyName(i), kit.ManyData(i)); err != nil {
				c.Fail("%v", err)
			}
		}
		c.NoErr(w.Finalize(), "finalize")
		c.NoErr(w.Reopen(true), "reopen")
		var img = w.WPT.Bytes()
		var before = w.Disk.Clone()
		var log = &kit.WLog{}
		w.SetLog(log)
		c.NoErr(w.Append(), "append")
		if err := manyEdits[e].do(w, n); err != nil {
			c.Fail("%v", err)
		}
		for i := n; i < n+n2; i++ {
			if err := w.Pack(kit.ManyName(i), kit.ManyData(i)); err != nil {
				c.Fail("%v", err)
			}
		}
		c.NoErr(w.Finalize(), "finalize")
		var h, _ = kit.DecHeader(img)
		var start = append([]byte{}, img...)
		var data = append([]byte{}, img[h.DatOff:h.DatOff+h.DatSize]...)
		for k, op := range log.Ops {
			var check = func(m int) {
				var torn = kit.Apply(append([]byte{}, img...), op.Off, op.Data[:m])
				c.Step()
				if bytes.Equal(torn, start) {
					if err := kit.CheckFiles(torn, torn, false, before); err != nil {
						c.Fail("nothing is written yet: %.600s", err)
					}
					return
				}
				if !bytes.Equal(torn[h.DatOff:h.DatOff+h.DatSize], data) {
					c.Fail("crash after %d bytes of write #%d of %d at %d: data of finalized files is overwritten", m, k, len(log.Ops), op.Off)
				}
				var err = notReady(torn)
				if err != nil { // it's ready already
					err = kit.CheckFiles(torn, torn, false, w.Disk)
				}
				if err != nil {
					c.Fail("crash after %d bytes of write #%d of %d at %d: %.600s", m, k, len(log.Ops), op.Off, err)
				}
			}
			if thinPoint(k, len(log.Ops)) {
				var l = len(op.Data)
				for _, m := range []int{1, l / 2, l - 1, 4096, 8192, 65536} {
					if op.Off > 0 && m > 0 && m < l {
						check(m)
					}
				}
				check(l)
			}
			img = kit.Apply(append([]byte{}, img...), op.Off, op.Data)
		}
		c.State(fmt.Sprint(n, e, n2, w.Same))
		if err := w.Check(); err != nil {
			c.Fail("%.600s", err)
		}
		c.Outcome(fmt.Sprint(n, e, n2, w.Same))
	}}
}

// c02sessions: histories of many sessions.
func c02sessions(tier string) mc.Scenario {
	var ops = []func(w *kit.World, k int) error{
		func(w *kit.World, k int) error { return nil },
		func(w *kit.World, k int) error { return w.Pack(fmt.Sprintf("d%d/f%d", k%3, k), kit.ManyData(k)) },
		func(w *kit.World, k int) error { return w.Pack("same", []byte("same")) },
		func(w *kit.World, k int) error {
			if len(w.M.Ents) == 0 {
				return nil
			}
			return w.Delete(w.M.Ents[0].Name)
		},
		func(w *kit.World, k int) error { w.SetInfo(infoSets[k%3]); return nil },
		func(w *kit.World, k int) error {
			if len(w.M.Ents) == 0 {
				return nil
			}
			return w.Rename(w.M.Ents[0].Name, fmt.Sprintf("renamed/%d", k))
		},
		func(w *kit.World, k int) error {
			if len(w.M.Ents) == 0 {
				return nil
			}
			return w.SetTag(w.M.Ents[len(w.M.Ents)-1].Name, uint16(100+k), "tag")
		},
	}
	var num = pick(tier, 70, 300)
	return mc.Scenario{Name: "many sessions", ShardDepth: 3, Run: func(c *mc.C) {
		var a = [3]int{c.Choose(len(ops)), c.Choose(len(ops)), c.Choose(len(ops))}
		var w = newLayout(c.Choose(3))
		var fresh = c.Choose(3) // by the same object; reopened; by turns
		c.Logf("operations %v, reopening #%d", a, fresh)
		c.NoErr(w.Begin(), "begin")
		for k := 0; k < num; k++ {
			for i, op := range a {
				if err := ops[op](w, k*3+i); err != nil {
					c.Fail("session #%d: %v", k, err)
				}
			}
			c.NoErr(w.Finalize(), "finalize")
			if fresh == 1 || fresh == 2 && k&1 == 1 {
				c.NoErr(w.Reopen(k&2 == 0), "reopen")
			}
			c.Step()
			if k < 4 || k%16 == 15 || k == num-1 {
				if err := w.Check(); err != nil {
					c.Fail("session #%d: %.600s", k, err)
				}
			}
			c.NoErr(w.Append(), "append")
		}
		c.NoErr(w.Finalize(), "finalize")
		c.State(w.Key())
		if err := w.Check(); err != nil {
			c.Fail("%.600s", err)
		}
		c.Outcome(w.Disk.Key())
	}}
}

// c25many: many handles are opened at once.
func c25many(tier string) mc.Scenario {
	var counts = kit.Counts(pick(tier, 16, 70), pick(tier, 300, 700))[1:]
	return mc.Scenario{Name: "many handles", ShardDepth: 3, Run: func(c *mc.C) {
		var n = counts[c.Choose(len(counts))]
		var be = c.Choose(len(kit.Backends))
		var split = c.Bool()
		var one = c.Bool() // all handles are of the same file
		var order = c.Choose(3)
		var w = kit.NewWorld(split)
		c.NoErr(w.Begin(), "begin")
		var want = make([][]byte, n)
		for i := range want {
			want[i] = fill(fmt.Sprint(i), []int{0, 1, 100, 4096, 5000, 7}[i%6])
			if err := w.Pack(kit.ManyName(i), want[i]); err != nil {
				c.Fail("%v", err)
			}
		}
		c.NoErr(w.Finalize(), "finalize")
		var dir = scratchDir(c)
		var ft, fd = dir + "/p.wpt", dir + "/p.wpt"
		c.NoErr(os.WriteFile(ft, w.WPT.Buf, 0644), "write")
		if split {
			fd = dir + "/p.wpf"
			c.NoErr(os.WriteFile(fd, w.WPF.Buf, 0644), "write")
		}
		var what = fmt.Sprintf("%d handles, %s, splitted %v, the same file %v", n, kit.Backends[be].Name, split, one)
		c.Logf("%s, order %d", what, order)
		var pkg, err = kit.OpenReal(ft, fd, be)
		c.NoErr(err, "open")
		var hs = make([]wpk.RFile, n)
		c.Defer(func() {
			for _, f := range hs {
				if f != nil {
					f.Close()
				}
			}
			pkg.Tagger.Close()
		})
		for i := range hs {
			var k = i
			if one {
				k = min(4, n-1)
			}
			f, err := pkg.Open(kit.ManyName(k))
			c.NoErr(err, what+": open of file")
			want[i] = want[k]
			hs[i] = f.(wpk.RFile)
		}
		var got = make([][]byte, n)
		var read = func(i, k int) {
			trapped(c, what, func() {
				c.Step()
				var buf = make([]byte, k)
				var m, err = io.ReadFull(hs[i], buf)
				if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
					c.Fail("%s: reading of #%d: %v", what, i, err)
				}
				got[i] = append(got[i], buf[:m]...)
				if want := want[i]; !bytes.HasPrefix(want, got[i]) || m < k && len(got[i]) != len(want) {
					c.Fail("%s: handle #%d gives wrong content", what, i)
				}
			})
		}
		var idx []int
		for i := range hs {
			switch order {
			case 0:
				idx = append(idx, i)
			case 1:
				idx = append(idx, n-1-i)
			case 2:
				if i%2 == 0 {
					idx = append(idx, i)
				}
			}
		}
		if order == 2 {
			for i := 1; i < n; i += 2 {
				idx = append(idx, i)
			}
		}
		for _, k := range []int{1, 50, 3000} {
			for _, i := range idx {
				read(i, k)
			}
		}
		for j, i := range idx {
			if j == n/2 {
				c.NoErr(pkg.Tagger.Close(), "close of package")
			}
			if j%16 == 0 || n < 20 {
				for _, i := range idx[j:] {
					read(i, 10)
				}
			}
			c.NoErr(hs[i].Close(), "close")
			hs[i] = nil
		}
		if have := heldOf(c, dir); have != (held{}) {
			c.Fail("%s: everything is closed, but %+v are held", what, have)
		}
		c.State(what, fmt.Sprint(order))
		c.Outcome(what)
	}}
}

// c26many: database grows by many rounds, readers are opened at each of them.
func c26many(tier string) mc.Scenario {
	var per = pick(tier, []int{1, 3, 40, 256}, []int{1, 3, 40, 255, 256, 257, 1025})
	var rounds = pick(tier, []int{3, 12}, []int{3, 12, 40})
	var sizes = []int{9, 5000, 40000}
	return mc.Scenario{Name: "growing database", ShardDepth: 3, Run: func(c *mc.C) {
		var w = &dbWorld{c: c, split: c.Bool(), be: 1 + c.Choose(2), pkg: wpk.NewPackage(), m: &kit.PModel{}}
		var n, num = per[c.Choose(len(per))], rounds[c.Choose(len(rounds))]
		var max = sizes[c.Choose(len(sizes))]
		var edit = c.Choose(3)
		if n*num > pick(tier, 700, 3100) || n*num*max > pick(tier, 4<<20, 16<<20) {
			c.Stop()
		}
		c.Logf("%d rounds of %d files of up to %d bytes, edits #%d", num, n, max, edit)
		c.State(fmt.Sprint(w.split, w.be, n, num, max, edit))
		var dir = scratchDir(c)
		w.ft, w.fd = dir+"/p.wpk", dir+"/p.wpk"
		if w.split {
			w.ft, w.fd = dir+"/p.wpt", dir+"/p.wpf"
		}
		c.Defer(w.closeFiles)
		w.files(os.O_CREATE | os.O_TRUNC)
		c.NoErr(w.pkg.Begin(w.wt, w.second()), "begin")
		var err error
		w.pkg.Tagger, err = kit.Backends[w.be].Make(w.fd)
		c.NoErr(err, "access to live package")
		c.Defer(func() { w.pkg.Tagger.Close() })
		for r := 0; r < num; r++ {
			if w.wt == nil {
				w.files(0)
				c.NoErr(w.pkg.Append(w.wt, w.second()), "append")
			}
			for i := r * n; i < (r+1)*n; i++ {
				var data = fill(fmt.Sprint(i), max*(i%5)/4)
				var _, err = w.pkg.PackData(w.wd, bytes.NewReader(data), kit.ManyName(i))
				c.NoErr(err, "pack")
				w.m.Add(kit.ManyName(i), data, nil)
			}
			switch edit {
			case 1: // the first ones are deleted
				var _, ok = w.pkg.DelTagset(w.m.Ents[0].Name)
				c.Assert(ok, "file %q can not be deleted", w.m.Ents[0].Name)
				w.m.Del(0)
			case 2:
				var k = len(w.m.Ents) / 2
				var e = w.m.Ents[k].Clone()
				var name = fmt.Sprintf("renamed/%d", r)
				c.NoErr(w.pkg.Rename(e.Name, name), "rename")
				e.Name = name
				w.m.Del(k)
				w.m.Ents = append(w.m.Ents, e)
			}
			c.Step()
			if err := w.m.CmpPkg(w.pkg); err != nil {
				c.Fail("live package by %s: %.600s", kit.Backends[w.be].Name, err)
			}
			c.NoErr(w.pkg.Sync(w.wt, w.second()), "flush")
			w.disk = w.m.Clone()
			if !w.split {
				w.closeFiles()
			}
			if len(w.readers) < 9 || r == num-1 {
				w.reader(r % 3)
			}
			if r < 9 || r == num-1 {
				w.check()
			}
		}
		c.Outcome(fmt.Sprint(n, num, max, edit))
	}}
}

// c16many: operations with many tags of one file.
func c16many(tier string) mc.Scenario {
	var counts = []int{1000, 4097, 2049, 1025, 257, 256, 255, 129, 128, 127, 65, 64, 63, 40}
	if tier == "thorough" {
		counts = append(counts, 13000, 10000, 8193, 4096, 4095, 2048, 2047, 1024, 1023, 513, 512, 511)
	}
	var lens = []int{0, 1, 10, 200, 255, 256, 1000}
	return mc.Scenario{Name: "many tags", ShardDepth: 2, Run: func(c *mc.C) {
		var n, size = counts[c.Choose(len(counts))], lens[c.Choose(len(lens))]
		var seq = c.Choose(4)
		if n*(4+size) > 60000 {
			c.Stop()
		}
		c.Logf("%d tags of %d bytes, sequence #%d", n, size, seq)
		var l = vm()
		var p, m = l.newPkg(c), newLuaSet()
		m.newFile(p, "before", 100, 3, kit.Tag{ID: 110, Val: []byte("x")})
		m.newFile(p, "f", 0, 100, kit.Tag{ID: 110, Val: []byte("x")}, kit.Tag{ID: 65535, Val: []byte{1, 2}})
		m.newFile(p, "after", 100, 3, kit.Tag{ID: 110, Val: []byte("x")})
		var id = func(i int) uint16 { return uint16(20001 + 3*i) }
		var pairs = func(from, to, step int, mark string) (kv []lua.LValue) {
			for i := from; i < to; i += step {
				var v = fill(mark+fmt.Sprint(i), size)
				for k := range v {
					v[k] = "0123456789abcdef"[v[k]&15]
				}
				if len(v)%2 == 1 {
					v[0] = '_'
				}
				kv = append(kv, lua.LNumber(id(i)), lua.LString(v))
			}
			return
		}
		var do = func(o *luaOp) {
			c.Step()
			var x, err = o.run(p, m)
			if err == nil {
				m, err = x, x.check(p, []uint16{110, 65535, id(0), id(n / 2), id(n - 1), id(n)})
			}
			if err != nil {
				c.Fail("after %s: %.600s", o.op, err)
			}
		}
		do(&luaOp{op: "settags", name: "f", kv: pairs(0, n*2/3, 1, "a")})
		switch seq {
		case 0:
			do(&luaOp{op: "addtags", name: "f", kv: pairs(n/3, n, 1, "b")})
		case 1:
			do(&luaOp{op: "settags", name: "f", kv: pairs(n/3, n, 1, "b")})
		case 2:
			do(&luaOp{op: "deltags", name: "f", kv: pairs(0, n, 2, "b")})
			do(&luaOp{op: "addtags", name: "f", kv: pairs(0, n, 3, "c")})
		case 3:
			do(&luaOp{op: "settag", name: "f", k: lua.LNumber(id(n / 3)), v: lua.LString("one")})
			do(&luaOp{op: "deltag", name: "f", k: lua.LNumber(id(0))})
			do(&luaOp{op: "addtag", name: "f", k: lua.LNumber(id(n)), v: lua.LString("last")})
		}
		do(&luaOp{op: "setupinfo", kv: pairs(0, n, 1, "i")})
		do(&luaOp{op: "setupinfo", kv: pairs(0, n, 2, "j")})
		do(&luaOp{op: "deltags", name: "f", kv: pairs(0, n, 1, "")})
		c.State(fmt.Sprint(n, size, seq))
		c.Outcome(fmt.Sprint(n, size))
	}}
}

// c07wide: identifiers and lengths by all the range, sets of many tags.
func c07wide(tier string) mc.Scenario {
	var lens = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535}
	var ids = []uint16{1, 0x100, 0x101, 0, 0xff, 0x7fff, 0x8000, 0x8001, 0xff00, 0xfffe, 0xffff}
	return mc.Scenario{Name: "all the range of identifiers and lengths", ShardDepth: 2, Run: func(c *mc.C) {
		var k1 = c.Choose(len(ids))
		var k2 = (k1 + 4*c.Choose(pick(tier, 3, len(ids)))) % len(ids)
		var l1 = lens[c.Choose(pick(tier, 13, len(lens)))*pick(tier, 3, 1)]
		var spare = []int{0, 300, 3}[c.Choose(pick(tier, 2, 3))]
		var m = tagModel{{ID: ids[k1], Val: fill("first", l1)}}
		if k2 != k1 {
			m = m.put(ids[k2], fill("second", (l1*7+3)%300))
		}
		m = m.put(0x4444, []byte("end"))
		var b = kit.EncTags(m)
		var ts = wpk.TagsetRaw(append(make([]byte, 0, len(b)+spare), b...))
		ts, m = c07step(c, ts, m, 0, lens, []uint16{ids[k1], ids[(k1+5)%len(ids)]})
		checkTagset(c, ts, m, ids)
		c.State(string(ts))
		c.Outcome(string(ts))
	}}
}

func c07many(tier string) mc.Scenario {
	var counts = kit.Counts(pick(tier, 10, 70), pick(tier, 2049, 16384))
	return mc.Scenario{Name: "sets of many tags", ShardDepth: 2, Run: func(c *mc.C) {
		var n = counts[len(counts)-1-c.Choose(len(counts))]
		var size = []int{0, 3, 60, 300}[c.Choose(4)]
		if n*(size+4) > pick(tier, 1<<17, 1<<18) {
			c.Stop()
		}
		var m tagModel
		var ts wpk.TagsetRaw
		var id = func(i int) uint16 { return uint16(i*7919 + 5) } // odd multiplier gives unique identifiers
		for i := 0; i < n; i++ {
			var v = fill(fmt.Sprint(i), size*(i%4)/3)
			m = append(m, kit.Tag{ID: id(i), Val: v})
			ts = ts.Put(id(i), v)
		}
		var ids []uint16
		for _, i := range []int{n / 2, 0, n - 1, n, 1, n / 3, 255, 256, 127} {
			if i >= 0 {
				ids = append(ids, id(i))
			}
		}
		checkTagset(c, ts, m, ids)
		for i := 0; i < 2; i++ {
			ts, m = c07step(c, ts, m, i, []int{0, 2, 60, 500}, ids[:4-2*i])
			checkTagset(c, ts, m, ids)
		}
		c.State(string(ts))
		c.Outcome(fmt.Sprint(n, size))
	}}
}
