package props

import (
	"fmt"
	"io/fs"
	"path"
	"strings"
	"time"

	"vh/kit"
	"vh/mc"
)

// hostileNames returns names of entries that are not usual, absolute ones
// point to the scratch folder only.
func hostileNames(t *tools, tier string) (list []string) {
	list = []string{
		"../esc", "../../esc", "../../../esc", "d/../../esc", "d/e/../../../esc", "d/../../out2/esc", "..\\esc", "..\\..\\esc", "d\\..\\..\\esc", "d/..\\../esc",
		"../dst", "../dst2/esc", "..//esc", ".//..//esc", "./../esc", "//../esc", "/../esc", "\\..\\esc", "/../../esc", "d/./../../esc", "d//..//..//esc",
		"..", "../", "../..", "d/../..", ".. ", "..a", "...", "../.../esc", ".../../../esc",
		"....//esc", "..././esc", "....\\\\esc", "%2e%2e/esc", "..%2fesc", ".%00./esc", "../good", "../pk/p.wpk", "..\x00/esc", "../esc\x00", "$VHUP/esc", "%VHUP%/esc", "${VHUP}/esc",
		t.path("esc"), t.path("dst/../esc"), t.path("dst2/esc"), "/" + t.path("esc"), strings.ReplaceAll(t.path("esc"), "/", "\\"),
		"C:" + t.path("esc"), "C:\\esc", "C:esc", "C:../../esc", "C:..\\esc", "\\\\host\\share\\esc", "\\\\?\\C:\\esc",
		"", ".", "/", "\\", "d/..", "x/", "./x1", "x//y", "./", "~/esc", "~", "d/../x2", "x/../../dst/x3", "../dst/x4",
	}
	// all paths of few segments
	var segs = []string{"..", ".", "", "q"}
	var n = pick(tier, 3, 5)
	var seps = []string{"/", "\\"}
	var rec func(pre string, k int)
	var seen = map[string]bool{}
	for _, s := range list {
		seen[s] = true
	}
	rec = func(pre string, k int) {
		if s := pre + "w"; !seen[s] && strings.Contains(s, "..") {
			seen[s] = true
			list = append(list, s)
		}
		if k == 0 {
			return
		}
		for _, g := range segs {
			for _, p := range seps {
				if k < n-1 && p == "\\" {
					continue // first two separators only
				}
				rec(pre+g+p, k-1)
			}
		}
	}
	rec("", n)
	return
}

// lexical tells where the entry should be placed in the destination folder,
// or that its name escapes out of it.
func lexical(name string) (place string, escapes bool) {
	name = strings.ReplaceAll(name, "\\", "/")
	var p = path.Clean("/base/dst/" + name)
	if p == "/base/dst" {
		return "", true // this is not a file
	}
	if !strings.HasPrefix(p, "/base/dst/") {
		return "", true
	}
	return p[len("/base/dst/"):], false
}

// wellFormed names are proper for any file system
func wellFormed(name string) bool {
	return fs.ValidPath(name) && name != "." && !strings.ContainsAny(name, "\\\x00")
}

type hostileEnt struct {
	name string
	data []byte
}

func writeHostile(t *tools, base string, split bool, ents []hostileEnt) string {
	var off = 64
	if split {
		off = 0
	}
	var dat []byte
	var sets [][]byte
	for _, e := range ents {
		sets = append(sets, kit.EncTags([]kit.Tag{
			{ID: 1, Val: kit.EncUint(uint64(off+len(dat)), 0)},
			{ID: 2, Val: kit.EncUint(uint64(len(e.data)), 0)},
			{ID: 3, Val: []byte(e.name)},
			{ID: 5, Val: kit.EncUint(1700000000000, 8)},
			{ID: 6, Val: kit.EncUint(1700000000000, 8)},
		}))
		dat = append(dat, e.data...)
	}
	var tb = kit.EncTable(nil, sets)
	var h = kit.Header{Count: uint64(len(sets)), DatOff: uint64(off), DatSize: uint64(len(dat)), FttOff: 64, FttSize: uint64(len(tb))}
	copy(h.Sign[:], kit.SignReady)
	if split {
		t.write(base+".wpt", append(h.Enc(), tb...))
		t.write(base+".wpf", dat)
		return base + ".wpt"
	}
	h.FttOff += uint64(len(dat))
	t.write(base+".wpk", append(append(h.Enc(), dat...), tb...))
	return base + ".wpk"
}

// destination folder: how it's given, and working folder of the extractor
var dstForms = []struct{ dir, arg string }{
	{".", "ABS"}, {"a/b/dst", "."}, {"a/b", "dst"}, {"a/b", "./dst/"}, {".", "ABS/"}, {"a/b/dst/sub", ".."}, {"a/b/dst", "sub/.."}, {"a", "b\\dst"}, {"a/b/dst2", "../dst"},
}

func init() {
	reg(&mc.Prop{
		ID: "C20",
		Rule: "each execution writes a package with hostile and usual names by independent encoder, runs built cmd/extract as unprivileged user, " +
			"and compares everything in the scratch folder outside of the destination before and after the run; usual entries should be extracted to their places, " +
			"an entry which name escapes should be refused by its name in the output and with non-zero exit code, whatever package is given after",
		Bounds: func(tier string) string {
			return fmt.Sprintf("each hostile name (about %d: special ones, and all paths of up to %d segments out of '..', '.', empty and a name with both separators) "+
				"at each position among two usual entries, 9 forms of the destination, 3 opening modes, single and split, with times and without; all ordered pairs of special names in thorough tier", pick(tier, 200, 2000), pick(tier, 3, 5))
		},
		Assumptions: []string{
			"destination folder has no symbolic links that lead out of it",
			"absolute names point to the scratch folder only, to keep wrong extraction harmless",
		},
		Scenarios: func(tier string) (list []mc.Scenario) {
			list = append(list, mc.Scenario{Name: "names", ShardDepth: 2, Hang: 100 * time.Second, Run: func(c *mc.C) {
				var t = newTools(c)
				var names = hostileNames(t, tier)
				var k = c.Choose(len(names))
				var form = pickForm(c, tier, k)
				runHostile(t, []string{names[k]}, c.Choose(3), form, k)
			}})
			list = append(list, mc.Scenario{Name: "pairs", ShardDepth: 2, Hang: 100 * time.Second, Run: func(c *mc.C) {
				var t = newTools(c)
				var names = hostileNames(t, tier)[:pick(tier, 60, 72)]
				var i, k = c.Choose(len(names)), c.Choose(len(names))
				if i == k || strings.ReplaceAll(names[i], "\\", "/") == strings.ReplaceAll(names[k], "\\", "/") {
					c.Stop()
				}
				runHostile(t, []string{names[i], names[k]}, (i+k)%3, (i*5+k)%len(dstForms), i+3*k)
			}})
			return
		},
	})
}

// pickForm chooses form of destination: all of them in thorough tier, and
// in quick one for special names only.
func pickForm(c *mc.C, tier string, k int) int {
	if tier == "thorough" || k < 70 {
		return c.Choose(len(dstForms))
	}
	return (k + c.Choose(2)) % len(dstForms)
}

func runHostile(t *tools, bad []string, pos, form, variant int) {
	var c = t.c
	var ents = []hostileEnt{{"good", []byte("good content")}, {"g/d/file.txt", []byte("other good content")}}
	var hostile []hostileEnt
	for i, s := range bad {
		if n := strings.ReplaceAll(s, "\\", "/"); !dropUser && strings.HasPrefix(n, "/") && !strings.HasPrefix(n, t.dir) {
			c.Stop() // privileged process should not get it
		}
		hostile = append(hostile, hostileEnt{s, []byte(fmt.Sprintf("hostile content %d", i))})
	}
	ents = append(append(append([]hostileEnt{}, ents[:pos]...), hostile...), ents[pos:]...)
	t.mkdir("a/b/dst/sub", "a/b/dst2", "a/out2", "pk", "dst", "dst2")
	for _, s := range []string{"a/b/esc0", "a/good", "a/b/good", "good", "a/b/dst2/esc"} {
		t.write(s, []byte("untouchable"))
	}
	// existing files are targets to overwrite
	if variant&1 == 0 {
		for _, s := range []string{"a/b/esc", "a/esc", "esc", "a/b/w", "a/w"} {
			t.write(s, []byte("untouchable"))
		}
	}
	var split = variant&2 != 0
	var mode = toolModes[variant%3]
	var pk = writeHostile(t, "pk/p", split, ents)
	var before = t.outside("a/b/dst")
	var f = dstForms[form]
	var arg = strings.Replace(f.arg, "ABS", t.path("a/b/dst"), 1)
	var src = t.path(pk)
	var second []hostileEnt
	if variant%4 == 1 { // other package is given after this one
		second = []hostileEnt{{"q/usual", []byte("content of other package")}}
		src += ";" + t.path(writeHostile(t, "pk/q", false, second))
		before = t.outside("a/b/dst")
	}
	var args = []string{"-src", src, "-dst", arg, "-pm", mode}
	if variant%5 == 0 {
		args = append(args, "-ft")
	}
	if variant%7 == 0 {
		args = append(args, "-md")
	}
	var r = t.run("extract", f.dir, -1, []string{"VHUP=" + t.dir}, args...)
	var what = fmt.Sprintf("package with names %q extracted from folder %q to %q", bad, f.dir, f.arg)
	if after := t.outside("a/b/dst"); after != before {
		c.Fail("%s: something is changed out of destination: %s", what, firstDiff(before, after))
	}
	c.Assert(!r.crashed(), "%s: crash: %v", what, r)
	var got = t.readTree("a/b/dst")
	// one of hostile entries can not be created
	var stops = strings.Contains(strings.Join(bad, ""), "\x00")
	for _, x := range hostile {
		for _, y := range hostile {
			var px, ex = lexical(x.name)
			var py, ey = lexical(y.name)
			stops = stops || !ex && !ey && strings.HasPrefix(px, py+"/")
		}
	}
	// places in the destination with contents that are claimed for them
	var claims = map[string][]string{}
	for _, e := range ents {
		var p, esc = lexical(e.name)
		if esc {
			c.Assert(!r.ok(), "%s: refused entry is not reported: %v", what, r)
			var named = strings.Contains(r.out, e.name) || strings.Contains(r.out, strings.ReplaceAll(e.name, "\\", "/")) || strings.Contains(r.out, fmt.Sprintf("%q", e.name))
			c.Assert(named || stops, "%s: refused entry %q is not named: %v", what, e.name, r)
			continue
		}
		claims[p] = append(claims[p], string(e.data))
	}
	for _, e := range ents {
		var p, esc = lexical(e.name)
		if esc {
			continue
		}
		var clash bool // other entry claims this place, or the folder of it
		for q := range claims {
			clash = clash || q != p && (strings.HasPrefix(p, q+"/") || strings.HasPrefix(q, p+"/"))
		}
		var b, ok = got[p]
		if wellFormed(e.name) && !clash && (!stops || r.ok()) {
			c.Assert(ok, "%s: usual entry %q is not extracted: %v", what, e.name, r)
		}
		c.Assert(ok || !r.ok(), "%s: entry %q is not extracted and not reported: %v", what, e.name, r)
		if ok && len(claims[p]) == 1 && (!stops || r.ok()) {
			c.Assert(string(b) == string(e.data), "%s: entry %q has content %q", what, e.name, b)
		}
	}
	for _, e := range second { // it's not reached if the first one fails
		var b, ok = got[e.name]
		c.Assert(!r.ok() || ok && string(b) == string(e.data), "%s: file of the second package is not extracted: %v", what, r)
		claims[e.name] = append(claims[e.name], string(e.data))
	}
	for n, b := range got {
		var ok bool
		for _, s := range claims[n] {
			ok = ok || s == string(b)
		}
		c.Assert(ok, "%s: unexpected file %q in destination with content %q", what, n, b)
	}
	c.State(what, fmt.Sprint(pos))
	c.Outcome(fmt.Sprint(bad, form, r.code, pos))
}

func firstDiff(a, b string) string {
	var old = map[string]bool{}
	for _, s := range strings.Split(a, "\n") {
		old[s] = true
	}
	for _, s := range strings.Split(b, "\n") {
		if !old[s] {
			return s
		}
	}
	return "something is removed"
}
