package props

import (
	"fmt"
	"mime"
	"net/http"
	"os"
	"path"
	"strings"
	"syscall"
	"time"

	"vh/kit"
	"vh/mc"
)

// contents of source files, sniffing looks at the first 512 bytes.
var toolContents = [][]byte{
	[]byte("hello, world"),
	{},
	[]byte("\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR"),
	[]byte("<!DOCTYPE html><html><body>x</body></html>"),
	append([]byte(strings.Repeat("text ", 103)[:512]), 0, 1, 2, 3, 4, 5),
	append([]byte(strings.Repeat("text ", 103)[:511]), 0),
	{0, 1, 2, 3, 254, 255, '\n', '\r'},
	[]byte(strings.Repeat("0123456789abcdef", 2100)),
}

// names of source files
var toolNames = []string{
	"a", "b.txt", "d/a", "d/b.txt", "d/e/c.html", ".hidden", "d.x/with space.png", "-f", "%HOME%", "тест.css",
	"d/e/.d/x.tar.gz", "$HOME/~", "d-1/b.TXT", "noext.", "a;b", "d..e/..c", "bin.wpk",
}

// mimeOf is content type by the extension or by content.
func mimeOf(name string, b []byte) string {
	if s := mime.TypeByExtension(path.Ext(name)); s != "" {
		return s
	}
	if len(b) > 512 {
		b = b[:512]
	}
	return http.DetectContentType(b)
}

// packOpts are options of packer and extractor.
type packOpts struct {
	split, mime, link bool
}

func (o packOpts) args() (a []string) {
	if o.split {
		a = append(a, "-split")
	}
	if o.mime {
		a = append(a, "-mime")
	}
	if o.link {
		a = append(a, "--link=true")
	}
	return
}

// outNames are destination names with files that should be created.
var outNames = []string{"out.wpk", "out", "my.pack.v1", "out.wpt"}

func outFiles(name string, split bool) (ft, fd string) {
	if !split {
		return name, name
	}
	var base = strings.TrimSuffix(name, path.Ext(name))
	return base + ".wpt", base + ".wpf"
}

// stamps are modification times of source files
var stamps = []time.Time{
	time.Unix(1700000000, 123456789),
	time.Unix(1, 0),
	time.Unix(1234567890, 999999999),
	time.Unix(4102444800, 5000),
	time.Unix(-86400*365, 1000000),
}

func (t *tools) setTimes(dir string, ft fileTree) {
	for i, n := range ft.names() {
		t.c.NoErr(os.Chtimes(t.path(dir+"/"+n), stamps[(i+2)%len(stamps)], stamps[i%len(stamps)]), "chtimes")
	}
}

// toolFile is expected packed file.
type toolFile struct {
	name, full string
	data       []byte
}

// checkPacked compares created package with source files by independent decoder.
func (t *tools) checkPacked(ft, fd string, src []toolFile, o packOpts) {
	var c = t.c
	var b, dat = t.read(ft), t.read(fd)
	var img, err = kit.DecodeStrict(b)
	c.NoErr(err, "decoding of created package")
	c.Assert(img.Hdr.Ready(), "created package is not ready")
	c.Assert((img.Hdr.DatOff == 0) == o.split, "package is splitted: %v, expected %v", !o.split, o.split)
	var ents = map[string]*kit.Entry{}
	for i := range img.Ents {
		ents[img.Ents[i].Name] = &img.Ents[i]
	}
	for _, f := range src {
		var e = ents[f.name]
		c.Assert(e != nil, "file %q is not packed", f.name)
		delete(ents, f.name)
		var d, err = e.Content(dat)
		c.NoErr(err, "content of "+f.name)
		c.Assert(string(d) == string(f.data), "file %q is packed with content %d %q, expected %d %q", f.name, len(d), cut(d), len(f.data), cut(f.data))
		var v, ok = kit.Find(e.Tags, tidMIME)
		if o.mime {
			c.Assert(ok && string(v) == mimeOf(f.name, f.data), "content type of %q is %q, expected %q", f.name, v, mimeOf(f.name, f.data))
		} else {
			c.Assert(!ok, "content type of %q is %q, and it's not asked", f.name, v)
		}
		v, ok = kit.Find(e.Tags, tidLink)
		if o.link {
			c.Assert(ok && string(v) == f.full, "link of %q is %q, expected %q", f.name, v, f.full)
		} else {
			c.Assert(!ok, "link of %q is %q, and it's not asked", f.name, v)
		}
	}
	for n := range ents {
		c.Fail("unexpected packed file %q", n)
	}
}

func (t *tools) srcFiles(dir string, ft fileTree) (list []toolFile) {
	for _, n := range ft.names() {
		list = append(list, toolFile{n, t.path(dir + "/" + n), ft[n]})
	}
	return
}

// checkExtract extracts package and compares result.
func (t *tools) checkExtract(ft string, want fileTree, mode string, times func(n string) (mt, at time.Time)) {
	var c = t.c
	var dst = "x-" + mode
	var args = []string{"-src", t.path(ft), "-dst", t.path(dst)}
	if mode != "" {
		args = append(args, "-pm", mode)
	}
	if times != nil {
		args = append(args, "-ft", "-md=true")
	} else {
		t.mkdir(dst)
	}
	var r = t.run("extract", ".", -1, nil, args...)
	c.Assert(r.ok(), "extraction fails (mode %q): %v", mode, r)
	if times != nil {
		for n := range want {
			var fi, err = os.Stat(t.path(dst + "/" + n))
			c.NoErr(err, "stat")
			var mt, at = times(n)
			c.Assert(fi.ModTime().Equal(mt), "modification time of %q is %v, expected %v", n, fi.ModTime().UTC(), mt.UTC())
			var st = fi.Sys().(*syscall.Stat_t)
			var got = time.Unix(st.Atim.Sec, st.Atim.Nsec)
			c.Assert(got.Equal(at), "access time of %q is %v, expected %v", n, got.UTC(), at.UTC())
		}
	}
	if err := cmpTree(t.readTree(dst), want); err != nil {
		c.Fail("extracted (mode %q): %v", mode, err)
	}
}

const (
	tidMIME = 10
	tidLink = 111
)

var toolModes = []string{"mmap", "bulk", "fsys", ""}

func init() {
	reg(&mc.Prop{
		ID: "C19",
		Rule: "each execution makes a source tree, runs built cmd/pack on it as unprivileged user in a scratch folder, decodes the package by independent decoder " +
			"(names, contents, content types, links), runs built cmd/extract in every opening mode, and compares extracted tree and times with the source; " +
			"fault scenarios limit size of written files to every value, make each kind of source or destination unusable, or damage the package, and expect non-zero exit code",
		Bounds: func(tier string) string {
			return fmt.Sprintf("all trees of 0..%d files out of %d names, %d contents in rotation, 4 opening modes, split, mime and link options; "+
				"lists of 1..3 source folders of 7 forms, 4 destination names; all file size limits 0..size of package in steps of %d byte(s); truncation of each package file at each of those points, extracted alone, before and after other package; trees of up to 1100 files, 200 nested folders, names of 255 bytes, sizes around of buffers",
				pick(tier, 2, 3), len(toolNames), len(toolContents), pick(tier, 3, 1))
		},
		Assumptions: []string{
			"special files (pipes, devices) are not in the source trees",
			"destination folder has no symbolic links that lead out of it",
			"content type by extension is what the mime package of this system returns",
		},
		Scenarios: func(tier string) (list []mc.Scenario) {
			list = append(list, mc.Scenario{Name: "trees", ShardDepth: 2, Hang: 100 * time.Second, Run: func(c *mc.C) { runTrees(c, tier) }})
			list = append(list, mc.Scenario{Name: "large trees", ShardDepth: 3, Hang: 200 * time.Second, Run: func(c *mc.C) { runMany(c, tier) }})
			list = append(list, mc.Scenario{Name: "sources", ShardDepth: 3, Hang: 100 * time.Second, Run: func(c *mc.C) { runSources(c, tier) }})
			list = append(list, mc.Scenario{Name: "same-object", ShardDepth: 2, Hang: 100 * time.Second, Run: runSeveral})
			for i := range toolFaults {
				var f = toolFaults[i]
				list = append(list, mc.Scenario{Name: "fault:" + f.name, ShardDepth: 2, Hang: 100 * time.Second, Run: func(c *mc.C) {
					var t = newTools(c)
					f.run(t)
				}})
			}
			list = append(list, mc.Scenario{Name: "fault:full disk at packing", ShardDepth: 2, Hang: 100 * time.Second, Run: func(c *mc.C) { runFullPack(c, tier) }})
			list = append(list, mc.Scenario{Name: "fault:full disk at extracting", ShardDepth: 2, Hang: 100 * time.Second, Run: func(c *mc.C) { runFullExtract(c, tier) }})
			list = append(list, mc.Scenario{Name: "fault:damaged package", ShardDepth: 3, Hang: 100 * time.Second, Run: func(c *mc.C) { runDamaged(c, tier) }})
			return
		},
	})
}

// runTrees is about all small trees.
func runTrees(c *mc.C, tier string) {
	var n = pick(tier, 2, 3)
	var ft = fileTree{}
	var shift = c.Choose(pick(tier, 4, len(toolContents)))
	var from = 0
	for len(ft) < n {
		var k = c.Choose(len(toolNames) - from + 1)
		if k == 0 {
			break
		}
		from += k
		ft[toolNames[from-1]] = toolContents[(shift*2+from+len(ft)*3)%len(toolContents)]
	}
	var o = packOpts{split: c.Bool()}
	if opt := c.Choose(pick(tier, 2, 3)); opt == 1 {
		o.mime, o.link = true, true
	} else if opt == 2 {
		o.mime = true
	}
	var t = newTools(c)
	t.writeTree("src", ft)
	t.mkdir("src/empty/dir", "pk")
	t.setTimes("src", ft)
	var args = append(o.args(), "-src", t.path("src"), "-dst", t.path("pk/out.wpk"))
	if shift&1 == 1 {
		args = append(args, "-log=false")
	}
	var r = t.run("pack", ".", -1, nil, args...)
	c.Assert(r.ok(), "packing of %q fails: %v", ft.names(), r)
	var pt, pd = outFiles("pk/out.wpk", o.split)
	t.checkPacked(pt, pd, t.srcFiles("src", ft), o)
	var names = ft.names()
	var at = func(n string) (time.Time, time.Time) {
		for i := range names {
			if names[i] == n {
				return stamps[i%len(stamps)], stamps[(i+2)%len(stamps)]
			}
		}
		return time.Time{}, time.Time{}
	}
	for i, mode := range toolModes {
		var times = at
		if (i+shift)&1 == 0 {
			times = nil
		}
		t.checkExtract(pt, ft, mode, times)
	}
	c.State(fmt.Sprint(names, o, shift))
	c.Outcome(string(t.read(pt)))
}

// forms of path in the list of source folders
var srcForms = []func(t *tools, dir string) (s, base string){
	func(t *tools, dir string) (s, base string) { return t.path(dir), t.path(dir) },
	func(t *tools, dir string) (s, base string) { return t.path(dir) + "/", t.path(dir) },
	func(t *tools, dir string) (s, base string) { return ";" + t.path(dir) + ";", t.path(dir) },
	func(t *tools, dir string) (s, base string) {
		return strings.ReplaceAll(t.path(dir), "/", "\\"), t.path(dir)
	},
	func(t *tools, dir string) (s, base string) { return "$VHDIR/" + dir, t.path(dir) },
	func(t *tools, dir string) (s, base string) { return "%VHDIR%/" + dir + "/", t.path(dir) },
	func(t *tools, dir string) (s, base string) { return "${VHDIR}\\" + dir, t.path(dir) },
}

// runSources is about several source folders and forms of the paths.
func runSources(c *mc.C, tier string) {
	var n = 1 + c.Choose(3)
	var form = c.Choose(len(srcForms))
	var out = outNames[c.Choose(len(outNames))]
	var o = packOpts{split: c.Bool(), mime: true, link: true}
	var t = newTools(c)
	t.mkdir("pk.d")
	// files of several folders differ
	var src []string
	var want = fileTree{}
	var files []toolFile
	for i := 0; i < n; i++ {
		var dir = []string{"s one", "s2.x", "s3/sub"}[i]
		var ft = fileTree{}
		for k, nm := range []string{"f.txt", "d/g", "d/h.html"} {
			nm = strings.Replace(nm, "f", fmt.Sprintf("f%d", i), 1)
			nm = strings.Replace(nm, "g", fmt.Sprintf("g%d", i), 1)
			nm = strings.Replace(nm, "h.", fmt.Sprintf("h%d.", i), 1)
			ft[nm] = append([]byte(fmt.Sprintf("%d-%d:", i, k)), toolContents[(i+3*k)%len(toolContents)]...)
			want[nm] = ft[nm]
		}
		t.writeTree(dir, ft)
		var s, base = srcForms[(form+i)%len(srcForms)](t, dir)
		src = append(src, s)
		for _, nm := range ft.names() {
			files = append(files, toolFile{nm, base + "/" + nm, ft[nm]})
		}
	}
	var dst, _ = srcForms[[]int{0, 3, 4, 5, 6}[(form+n)%5]](t, "pk.d/"+out)
	dst = strings.TrimSuffix(dst, "/")
	var r = t.run("pack", ".", -1, []string{"VHDIR=" + t.dir}, append(o.args(), "-src", strings.Join(src, ";"), "-dst", dst)...)
	c.Assert(r.ok(), "packing of %q to %q fails: %v", src, dst, r)
	var pt, pd = outFiles("pk.d/"+out, o.split)
	t.checkPacked(pt, pd, files, o)
	for _, nm := range (fileTree(t.readTree("pk.d"))).names() {
		c.Assert("pk.d/"+nm == pt || "pk.d/"+nm == pd, "unexpected file %q", nm)
	}
	var mode = toolModes[c.Choose(3)]
	t.checkExtract(pt, want, mode, nil)
	// extraction with other forms of the paths
	t.mkdir("y")
	var s, _ = srcForms[form](t, pt)
	s = strings.TrimSuffix(s, "/")
	var d, _ = srcForms[(form+3)%len(srcForms)](t, "y")
	if strings.HasPrefix(d, ";") {
		d = strings.Trim(d, ";")
	}
	if !strings.HasSuffix(strings.TrimRight(s, ";"), "/") {
		r = t.run("extract", ".", -1, []string{"VHDIR=" + t.dir}, "-src", s, "-dst", d, "-pm", mode, "-sl=false")
		c.Assert(r.ok(), "extraction of %q to %q fails: %v", s, d, r)
		if err := cmpTree(t.readTree("y"), want); err != nil {
			c.Fail("extraction of %q to %q: %v", s, d, err)
		}
	}
	c.Outcome(string(t.read(pt)))
}

// runSeveral is about extraction of several packages, over existing files also.
func runSeveral(c *mc.C) {
	var t = newTools(c)
	var n = 1 + c.Choose(3)
	var mode = toolModes[c.Choose(3)]
	var exist = c.Choose(3)
	var rel = c.Bool()
	var want = fileTree{}
	var src []string
	t.mkdir("pk", "dst")
	for i := 0; i < n; i++ {
		var o = packOpts{split: c.Bool()}
		var ft = fileTree{}
		ft[fmt.Sprintf("f%d.txt", i)] = []byte(strings.Repeat(fmt.Sprint("data", i), 10*i))
		ft[fmt.Sprintf("d/g%d", i)] = toolContents[i+3]
		ft[fmt.Sprintf("d%d/e/h", i)] = toolContents[i+1]
		if i == 2 {
			ft = fileTree{} // package without files
		}
		var dir = fmt.Sprintf("s%d", i)
		t.writeTree(dir, ft)
		var out = fmt.Sprintf("pk/p%d.wpk", i)
		var r = t.run("pack", ".", -1, nil, append(o.args(), "-src", dir, "-dst", out)...)
		c.Assert(r.ok(), "packing with relative paths fails: %v", r)
		var pt, pd = outFiles(out, o.split)
		t.checkPacked(pt, pd, t.srcFiles(dir, ft), o)
		if !rel {
			pt = t.path(pt)
		}
		src = append(src, pt)
		for k, b := range ft {
			want[k] = b
		}
	}
	switch exist {
	case 1: // longer files are present
		for k := range want {
			t.write("dst/"+k, []byte(strings.Repeat("old content ", 4000)))
		}
		t.write("dst/other", []byte("other"))
		want["other"] = []byte("other")
	case 2: // shorter files are present
		for k := range want {
			t.write("dst/"+k, []byte("old"))
		}
	}
	var r *toolRun
	if rel {
		r = t.run("extract", ".", -1, nil, "-src", strings.Join(src, ";"), "-dst", []string{"dst", "./dst/", "pk/../dst"}[exist], "-pm", mode)
	} else {
		r = t.run("extract", "dst", -1, nil, "-src", strings.Join(src, ";"), "-dst", ".", "-pm", mode)
	}
	c.Assert(r.ok(), "extraction of %q fails: %v", src, r)
	if err := cmpTree(t.readTree("dst"), want); err != nil {
		c.Fail("extraction of %d packages: %v", n, err)
	}
	c.Outcome(fmt.Sprint(want.names(), n, exist))
}

// runFullPack limits size of created files.
func runFullPack(c *mc.C, tier string) {
	var o = packOpts{split: c.Bool(), mime: true}
	var ft = fileTree{"a.txt": toolContents[0], "d/b": toolContents[6], "d/c": {}}
	var t = newTools(c)
	t.writeTree("src", ft)
	t.mkdir("pk")
	var step = pick(tier, 3, 1)
	var lim = c.Choose(600/step) * step
	var pt, pd = outFiles("pk/out.wpk", o.split)
	var r = t.run("pack", ".", lim, nil, append(o.args(), "-src", t.path("src"), "-dst", t.path("pk/out.wpk"))...)
	if r.ok() {
		t.checkPacked(pt, pd, t.srcFiles("src", ft), o)
		c.Outcome("packed")
		return
	}
	// when it's enough space, packing is successful
	c.Assert(lim < 480, "packing to files limited by %d bytes fails: %v", lim, r)
	var b, err = os.ReadFile(t.path(pt))
	if err == nil {
		var img, err = kit.Decode(b)
		c.Assert(err != nil || len(img.Ents) == 0, "failed packing left readable package with %d entries", func() int {
			if img == nil {
				return 0
			}
			return len(img.Ents)
		}())
	}
	c.Outcome(fmt.Sprint(r.code, len(b)))
}

// runFullExtract limits size of extracted files.
func runFullExtract(c *mc.C, tier string) {
	var o = packOpts{split: c.Bool()}
	var mode = toolModes[c.Choose(3)]
	var ft = fileTree{"a.txt": toolContents[0], "d/b": []byte(strings.Repeat("x", 100)), "d/c": {}}
	var t = newTools(c)
	t.writeTree("src", ft)
	t.mkdir("pk", "dst")
	var r = t.run("pack", ".", -1, nil, append(o.args(), "-src", t.path("src"), "-dst", t.path("pk/out.wpk"))...)
	c.Assert(r.ok(), "packing fails: %v", r)
	var pt, _ = outFiles("pk/out.wpk", o.split)
	var step = pick(tier, 7, 1)
	var lim = c.Choose(112/step) * step
	r = t.run("extract", ".", lim, nil, "-src", t.path(pt), "-dst", t.path("dst"), "-pm", mode)
	if r.ok() {
		if err := cmpTree(t.readTree("dst"), ft); err != nil {
			c.Fail("extraction to files limited by %d bytes claims success: %v", lim, err)
		}
		return
	}
	c.Assert(lim < 100, "extraction to files limited by %d bytes fails: %v", lim, r)
	c.Outcome(fmt.Sprint(r.code, lim))
}

// runDamaged truncates package files.
func runDamaged(c *mc.C, tier string) {
	var o = packOpts{split: c.Bool()}
	var mode = toolModes[c.Choose(3)]
	var ft = fileTree{"a.txt": toolContents[0], "b": toolContents[6], "c": {}}
	var t = newTools(c)
	t.writeTree("src", ft)
	t.mkdir("pk", "dst")
	var r = t.run("pack", ".", -1, nil, append(o.args(), "-src", t.path("src"), "-dst", t.path("pk/out.wpk"))...)
	c.Assert(r.ok(), "packing fails: %v", r)
	var pt, pd = outFiles("pk/out.wpk", o.split)
	var victim = pt
	if o.split && c.Bool() {
		victim = pd
	}
	var b = t.read(victim)
	var step = pick(tier, 5, 1)
	if victim == pd && o.split {
		step = 1
	}
	var size = c.Choose((len(b)+step-1)/step) * step
	t.c.NoErr(os.Truncate(t.path(victim), int64(size)), "truncate")
	var order = c.Choose(3) // alone, first, last
	var src, sum = t.path(pt), ft
	if order > 0 {
		sum = fileTree{"other/file": toolContents[2]}
		t.writeTree("src2", sum)
		var r = t.run("pack", ".", -1, nil, "-src", t.path("src2"), "-dst", t.path("pk/other.wpk"))
		c.Assert(r.ok(), "packing fails: %v", r)
		src = []string{"", src + ";" + t.path("pk/other.wpk"), t.path("pk/other.wpk") + ";" + src}[order]
		for k, v := range ft {
			sum[k] = v
		}
	}
	r = t.run("extract", ".", -1, nil, "-src", src, "-dst", t.path("dst"), "-pm", mode)
	if ft = sum; r.ok() {
		if err := cmpTree(t.readTree("dst"), ft); err != nil {
			c.Fail("extraction of package with truncated %q to %d of %d bytes claims success: %v", path.Ext(victim), size, len(b), err)
		}
	}
	c.Assert(!r.crashed(), "extraction of truncated package crashes: %v", r)
	c.Outcome(fmt.Sprint(r.code, size, o.split))
}

// toolFaults are situations when something can not be packed or extracted.
var toolFaults = []struct {
	name string
	run  func(t *tools)
}{
	{"source", func(t *tools) {
		var c = t.c
		var ft = fileTree{"a.txt": toolContents[0], "d/b": toolContents[2], "z": toolContents[0]}
		t.mkdir("pk", "other")
		t.writeTree("src", ft)
		t.writeTree("src2", fileTree{"q": toolContents[0]})
		var src = t.path("src")
		var o = packOpts{split: c.Bool(), mime: c.Bool()}
		var kind = c.Choose(12)
		var must = true
		switch kind {
		case 0: // unreadable file
			c.NoErr(os.Chmod(t.path("src/d/b"), 0), "chmod")
			must = dropUser
		case 1: // unreadable folder
			c.NoErr(os.Chmod(t.path("src/d"), 0), "chmod")
			must = dropUser
		case 2: // broken link
			c.NoErr(os.Symlink("absent", t.path("src/d/l")), "symlink")
		case 3: // link to folder
			c.NoErr(os.Symlink("../../other", t.path("src/d/l")), "symlink")
		case 4: // absent folder at each position
			src = t.path("absent") + ";" + src
		case 5:
			src += ";" + t.path("absent")
		case 6: // file instead of folder
			src += ";" + t.path("src2/q")
		case 7: // no any folder
			src = ""
		case 8:
			src = ";;"
		case 9: // same names in several folders
			t.write("src2/a.txt", []byte("other content"))
			src += ";" + t.path("src2")
		case 10: // same folder twice
			src += ";" + t.path("src")
		case 11: // link to itself
			c.NoErr(os.Symlink("l", t.path("src/d/l")), "symlink")
		}
		var r = t.run("pack", ".", -1, nil, append(o.args(), "-src", src, "-dst", t.path("pk/out.wpk"))...)
		c.Assert(!r.ok() || !must, "packing of what can not be packed (case %d) claims success: %v", kind, r)
		c.NoErr(os.Chmod(t.path("src/d"), 0777), "chmod")
		c.Outcome(fmt.Sprint(kind, r.code))
	}},
	{"destination", func(t *tools) {
		var c = t.c
		t.writeTree("src", fileTree{"a.txt": toolContents[0], "d/b": toolContents[2]})
		t.mkdir("pk")
		var o = packOpts{split: c.Bool()}
		var dst = t.path("pk/out.wpk")
		var pt, pd = outFiles(dst, o.split)
		var kind = c.Choose(7)
		switch kind {
		case 0:
			dst = ""
		case 1:
			dst = t.path("absent/out.wpk")
		case 2: // folder has the name of the file
			c.NoErr(os.Mkdir(pt, 0777), "mkdir")
		case 3:
			if pd != pt {
				c.NoErr(os.Mkdir(pd, 0777), "mkdir")
			} else {
				c.Stop()
			}
		case 4: // not permitted
			if !dropUser {
				c.Stop()
			}
			c.NoErr(os.Chmod(t.path("pk"), 0555), "chmod")
		case 5:
			if !dropUser {
				c.Stop()
			}
			c.NoErr(os.WriteFile(pd, nil, 0444), "write")
		case 6:
			t.write("file", nil)
			dst = t.path("file/out.wpk")
		}
		var r = t.run("pack", ".", -1, nil, append(o.args(), "-src", t.path("src"), "-dst", dst)...)
		c.Assert(!r.ok(), "packing to unusable destination (case %d) claims success: %v", kind, r)
		c.Outcome(fmt.Sprint(kind, r.code))
	}},
	{"destination in the source", func(t *tools) {
		var c = t.c
		var ft = fileTree{"a.txt": toolContents[0], "d/b": toolContents[2], "z": toolContents[0]}
		t.writeTree("src", ft)
		var o = packOpts{split: c.Bool()}
		var out = []string{"src/out.wpk", "src/d/out.wpk", "src/zz.wpk"}[c.Choose(3)]
		var pt, pd = outFiles(out, o.split)
		if c.Bool() { // package of previous run
			t.write(pt, []byte("old"))
			t.write(pd, []byte("old data"))
		}
		var r = t.run("pack", ".", -1, nil, append(o.args(), "-src", t.path("src"), "-dst", t.path(out))...)
		c.Assert(!r.crashed(), "packing crashes: %v", r)
		if r.ok() {
			t.checkPacked(pt, pd, t.srcFiles("src", ft), o)
			t.checkExtract(pt, ft, "fsys", nil)
		} else {
			var fi, err = os.Stat(t.path(pd))
			c.Assert(err != nil || fi.Size() < toolFsize/2, "packing of package into itself grows to %d bytes: %v", func() int64 {
				if fi == nil {
					return 0
				}
				return fi.Size()
			}(), r)
		}
		c.Outcome(fmt.Sprint(out, r.code))
	}},
	{"backslashes", func(t *tools) {
		// such names can not be kept in the package
		var c = t.c
		var ft = fileTree{"a.txt": toolContents[0]}
		var name = []string{"d\\b", "\\x", "x\\", "d\\..\\b", "\\"}[c.Choose(5)]
		t.writeTree("src", ft)
		t.writeTree("src", fileTree{name: toolContents[2]})
		t.mkdir("pk", "dst")
		var r = t.run("pack", ".", -1, nil, "-src", t.path("src"), "-dst", t.path("pk/out.wpk"))
		if r.ok() {
			r = t.run("extract", ".", -1, nil, "-src", t.path("pk/out.wpk"), "-dst", t.path("dst"))
			ft[name] = toolContents[2]
			if err := cmpTree(t.readTree("dst"), ft); err != nil && r.ok() {
				c.Fail("packing and extracting of file with name %q claims success: %v", name, err)
			}
		}
		c.Outcome(fmt.Sprint(name, r.code))
	}},
	{"broken name", func(t *tools) {
		var c = t.c
		var ft = fileTree{"a.txt": toolContents[0]}
		ft[[]string{"\xff", "d/\xff", "d\xff/x", "a\nb", "\x01"}[c.Choose(5)]] = toolContents[2]
		t.writeTree("src", ft)
		t.mkdir("pk", "dst")
		var r = t.run("pack", ".", -1, nil, "-src", t.path("src"), "-dst", t.path("pk/out.wpk"))
		if r.ok() {
			r = t.run("extract", ".", -1, nil, "-src", t.path("pk/out.wpk"), "-dst", t.path("dst"))
			if err := cmpTree(t.readTree("dst"), ft); err != nil && r.ok() {
				c.Fail("packing and extracting of files %q claims success: %v", ft.names(), err)
			}
		}
		c.Outcome(fmt.Sprint(ft.names(), r.code))
	}},
	{"extraction", func(t *tools) {
		var c = t.c
		var ft = fileTree{"a.txt": toolContents[0], "d/b": toolContents[2], "d/e/c": toolContents[0]}
		t.writeTree("src", ft)
		t.mkdir("pk", "dst")
		var o = packOpts{split: c.Bool()}
		var mode = toolModes[c.Choose(3)]
		var md = c.Bool()
		var r = t.run("pack", ".", -1, nil, append(o.args(), "-src", t.path("src"), "-dst", t.path("pk/out.wpk"))...)
		c.Assert(r.ok(), "packing fails: %v", r)
		var pt, pd = outFiles(t.path("pk/out.wpk"), o.split)
		var src, dst = pt, t.path("dst")
		var kind = c.Choose(12)
		switch kind {
		case 0: // no package
			src = t.path("pk/absent.wpk")
		case 1:
			src += ";" + t.path("pk/absent.wpk")
		case 2:
			src = ""
		case 3: // no destination
			dst = ""
		case 4:
			if md {
				c.Stop()
			}
			dst = t.path("absent")
		case 5: // folder instead of file
			t.mkdir("dst/d/b")
		case 6: // file instead of folder
			t.write("dst/d", []byte("file"))
		case 7:
			t.write("file", []byte("file"))
			dst = t.path("file")
		case 8: // not permitted
			if !dropUser {
				c.Stop()
			}
			c.NoErr(os.Chmod(t.path("dst"), 0555), "chmod")
		case 9:
			if !dropUser {
				c.Stop()
			}
			t.write("dst/d/b", []byte("old"))
			c.NoErr(os.Chmod(t.path("dst/d/b"), 0444), "chmod")
		case 10:
			mode = "absent"
		case 11: // no data file
			if !o.split {
				c.Stop()
			}
			c.NoErr(os.Remove(pd), "remove")
		}
		var args = []string{"-src", src, "-dst", dst, "-pm", mode}
		if md {
			args = append(args, "-md")
		}
		r = t.run("extract", ".", -1, nil, args...)
		c.Assert(!r.ok(), "impossible extraction (case %d) claims success: %v", kind, r)
		c.Assert(!r.crashed(), "impossible extraction (case %d) crashes: %v", kind, r)
		c.Outcome(fmt.Sprint(kind, r.code))
	}},
}
