package props

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"hash"
	"mime"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// Reference computations.

func refCRC32C(b []byte) []byte {
	var r = ^uint32(0)
	for _, x := range b {
		r ^= uint32(x)
		for i := 0; i < 8; i++ {
			r = r>>1 ^ 0x82f63b78&-(r&1)
		}
	}
	return binary.BigEndian.AppendUint32(nil, ^r)
}

func refCRC64(b []byte) []byte {
	var r = ^uint64(0)
	for _, x := range b {
		r ^= uint64(x)
		for i := 0; i < 8; i++ {
			r = r>>1 ^ 0xd800000000000000&-(r&1)
		}
	}
	return binary.BigEndian.AppendUint64(nil, ^r)
}

func refHMAC(h func() hash.Hash, key string, b []byte) []byte {
	var x = h()
	var k = []byte(key)
	if len(k) > x.BlockSize() {
		x.Write(k)
		k = x.Sum(nil)
	}
	var ipad, opad = make([]byte, x.BlockSize()), make([]byte, x.BlockSize())
	copy(ipad, k)
	copy(opad, k)
	for i := range ipad {
		ipad[i] ^= 0x36
		opad[i] ^= 0x5c
	}
	x = h()
	x.Write(ipad)
	x.Write(b)
	var in = x.Sum(nil)
	x = h()
	x.Write(opad)
	x.Write(in)
	return x.Sum(nil)
}

// content types by magic numbers of contents, for unknown extensions.
var magics = []struct{ head, ctype string }{
	{"\xff\xd8\xff\xe0\x00\x10JFIF", "image/jpeg"},
	{"\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR", "image/png"},
	{"GIF89a\x01\x00\x01\x00", "image/gif"},
	{"%PDF-1.4\n", "application/pdf"},
	{"\x1f\x8b\x08\x00\x00", "application/gzip"},
}

// content types of the extensions map of the package.
var extTypes = map[string]string{
	".djvu": "image/x-djvu", ".kmz": "application/vnd.google-earth.kmz", ".docx": "application/vnd.openxmlformats-officedocument.wordprocessingml.document",
	".map": "application/json", ".wpl": "application/vnd.ms-wpl", ".yaml": "application/x-yaml",
}

func refMime(name string, data []byte) string {
	var ext = strings.ToLower(path.Ext(name))
	if s := mime.TypeByExtension(ext); s != "" {
		return s
	}
	if s := extTypes[ext]; s != "" {
		return s
	}
	for _, m := range magics {
		if strings.HasPrefix(string(data), m.head) {
			return m.ctype
		}
	}
	return "application/octet-stream"
}

var autoNames = []string{"autofid", "automime", "crc32", "crc64", "md5", "sha1", "sha224", "sha256", "sha384", "sha512"}
var autoIds = []uint16{4, 10, 12, 14, 20, 21, 22, 23, 24, 25}

// autoOpts are current options of the package object.
type autoOpts struct {
	on     [10]bool
	secret string
}

// tags returns automatic tags of the file but its identifier.
func (o *autoOpts) tags(name string, data []byte) map[uint16]string {
	var m = map[uint16]string{}
	for i, id := range autoIds {
		if !o.on[i] {
			continue
		}
		var b []byte
		switch id {
		case 10:
			b = []byte(refMime(name, data))
		case 12:
			b = refCRC32C(data)
		case 14:
			b = refCRC64(data)
		case 20:
			b = refHMAC(md5.New, o.secret, data)
		case 21:
			b = refHMAC(sha1.New, o.secret, data)
		case 22:
			b = refHMAC(sha256.New224, o.secret, data)
		case 23:
			b = refHMAC(sha256.New, o.secret, data)
		case 24:
			b = refHMAC(sha512.New384, o.secret, data)
		case 25:
			b = refHMAC(sha512.New, o.secret, data)
		default:
			continue
		}
		m[id] = string(b)
	}
	return m
}

// autoPack is package that is written by scripts, with its model.
type autoPack struct {
	*luaPkg
	autoOpts
	dir   string
	split bool
	files map[string]map[uint16]string
	order []string
	data  map[string]string
}

func newAutoPack(c *mc.C, split bool) *autoPack {
	var a = &autoPack{luaPkg: vm().newPkg(c), dir: scratchDir(c), split: split, files: map[string]map[uint16]string{}, data: map[string]string{}}
	a.begin()
	c.Defer(func() { a.close() })
	return a
}

func (a *autoPack) paths() []lua.LValue {
	var args = []lua.LValue{lua.LString(a.dir + "/p.wpk")}
	if a.split {
		args = append(args, lua.LString(a.dir+"/p.wpf"))
	}
	return args
}

func (a *autoPack) begin() {
	var _, err = a.do("begin", a.paths()...)
	a.c.NoErr(err, "begin")
}

func (a *autoPack) close() { a.do("finalize") }

func (a *autoPack) setopt(i int, on bool) {
	a.on[i] = on
	a.c.NoErr(a.set(autoNames[i], lua.LBool(on)), autoNames[i])
}

func (a *autoPack) setsecret(s string) {
	a.secret = s
	a.c.NoErr(a.set("secret", lua.LString(s)), "secret")
}

func (a *autoPack) checkopts() {
	for i, name := range autoNames {
		var v, err = a.get(name)
		if err != nil || v != lua.LBool(a.on[i]) {
			a.c.Fail("option %s is %v %v, want %v", name, v, err, a.on[i])
		}
	}
	if v, err := a.get("secret"); err != nil || v != lua.LString(a.secret) {
		a.c.Fail("secret is %v %v, want %q", v, err, a.secret)
	}
}

var fileTime = time.Unix(1600000000, 123456000)

// put packs data or file with given explicit tags.
func (a *autoPack) put(file bool, name string, data []byte, tags ...lua.LValue) {
	a.c.Logf("pack %q, %d bytes, by file %v, tags {%s}, options %v", name, len(data), file, luaStrs(tags), a.on)
	var args = []lua.LValue{lua.LString(name), lua.LString(data)}
	var op = "putdata"
	if file {
		op = "putfile"
		args[1] = lua.LString(a.dir + "/src")
		a.c.NoErr(os.WriteFile(a.dir+"/src", data, 0644), "write")
		a.c.NoErr(os.Chtimes(a.dir+"/src", fileTime, fileTime), "times")
	}
	if len(tags) > 0 {
		args = append(args, a.table(tags...))
	}
	if _, err := a.do(op, args...); err != nil {
		a.c.Fail("%s(%q): %v", op, name, firstLine(err.Error()))
	}
	a.data[name] = string(data)
	var want = a.tags(name, data)
	for i := 0; i < len(tags); i += 2 {
		var id, _ = luaKey(tags[i])
		var b, _, _ = luaTag(id, tags[i+1])
		want[id] = string(b)
	}
	var all, err = entries(&a.p.Package)
	a.c.NoErr(err, "entries")
	var got = all[name]
	if got == nil {
		a.c.Fail("%s(%q): file is not in the package", op, name)
	}
	var reread = map[uint16]string{}
	for id, v := range got {
		reread[id] = v
	}
	for id := uint16(1); id <= 3; id++ {
		delete(got, id)
	}
	for id := uint16(5); id <= 8; id++ { // times of file
		if v, ok := got[id]; ok && file && id == 5 {
			if t, ok := wpk.TagRaw(v).TagTime(); !ok || !t.Equal(fileTime) {
				a.c.Fail("%s(%q): modification time is %v, want %v", op, name, t, fileTime)
			}
		} else if file && id == 5 {
			a.c.Fail("%s(%q): no modification time", op, name)
		}
		delete(got, id)
	}
	if _, ok := want[4]; a.on[0] && !ok {
		var fid, ok = got[4]
		var n, isn = kit.Uint([]byte(fid))
		if !ok || !isn {
			a.c.Fail("%s(%q): identifier of file is %q, %v", op, name, fid, ok)
		}
		for other, tags := range all {
			if v, ok := kit.Uint([]byte(tags[4])); ok && v == n && other != name {
				a.c.Fail("%s(%q): identifier %d is already used by %q", op, name, n, other)
			}
		}
		delete(got, 4)
	}
	if tagsStr(got) != tagsStr(want) {
		a.c.Fail("%s(%q): tags are %s, want %s", op, name, tagsHex(got), tagsHex(want))
	}
	delete(all, name)
	a.same(all, fmt.Sprintf("%s(%q)", op, name))
	a.files[name] = reread
}

func tagsHex(t map[uint16]string) string {
	var s []string
	for k, v := range t {
		s = append(s, fmt.Sprintf("%d:%x", k, v))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// same checks that tags of files are as they were.
func (a *autoPack) same(all map[string]map[uint16]string, what string) {
	for name, want := range a.files {
		if got := all[name]; tagsStr(got) != tagsStr(want) {
			a.c.Fail("after %s tags of %q are %s, were %s", what, name, tagsHex(got), tagsHex(want))
		}
	}
	if len(all) != len(a.files) {
		a.c.Fail("after %s package has %d files, want %d", what, len(all), len(a.files))
	}
}

func (a *autoPack) checkSame(what string) {
	var all, err = entries(&a.p.Package)
	a.c.NoErr(err, "entries")
	a.same(all, what)
}

// disk checks the package on the disk.
func (a *autoPack) disk() {
	var _, err = a.do("finalize")
	a.c.NoErr(err, "finalize")
	a.reread()
}

func (a *autoPack) reread() {
	var dat = a.dir + "/p.wpk"
	if a.split {
		dat = a.dir + "/p.wpf"
	}
	var pkg, err = kit.OpenReal(a.dir+"/p.wpk", dat, 0)
	a.c.NoErr(err, "open")
	defer pkg.Close()
	var all, e = entries(pkg)
	a.c.NoErr(e, "entries")
	a.same(all, "reopening")
	for name, data := range a.data {
		if b, err := pkg.ReadFile(name); err != nil || string(b) != data {
			a.c.Fail("content of %q has %d bytes, %v, want %d", name, len(b), err, len(data))
		}
	}
}

// c17options: all combinations of the options.
func c17options(tier string) mc.Scenario {
	return mc.Scenario{Name: "combinations of options", ShardDepth: 2, Run: func(c *mc.C) {
		var lo, hi = c.Choose(32), c.Choose(32)
		var split, file = c.Bool(), c.Bool()
		var secret = []string{"", "key"}[c.Choose(2)]
		var a = newAutoPack(c, split)
		a.put(file, "before", []byte("packed before"))
		if secret != "" {
			a.setsecret(secret)
		}
		for i := range autoNames {
			if (lo|hi<<5)>>i&1 != 0 {
				a.setopt(i, true)
			}
		}
		a.checkopts()
		a.put(file, "empty", nil)
		a.put(file, "dir/text.TXT", fill("text", 100))
		a.put(!file, "pic", append([]byte(magics[1].head), fill("pic", 5000)...))
		for i := range autoNames {
			if a.on[i] {
				a.setopt(i, false)
			}
		}
		a.checkopts()
		a.put(file, "after", []byte("packed after"))
		a.disk()
		c.State(fmt.Sprint(lo, hi, split, file, secret))
		c.Outcome(fmt.Sprint(lo, hi, split, file, secret))
	}}
}

// c17content: checksums of contents of all sizes.
func c17content(tier string) mc.Scenario {
	var max = pick(tier, 300, 1200)
	var big = []int{4095, 4096, 32767, 32768, 32769, 65536, 100001, 1 << 20}
	var secrets = []string{"", "k", strings.Repeat("s", 63), strings.Repeat("s", 64), strings.Repeat("s", 65), strings.Repeat("s", 127), strings.Repeat("s", 128), strings.Repeat("s", 129), "\x00", "a\x00b\xff"}
	return mc.Scenario{Name: "contents and secrets", ShardDepth: 2, Run: func(c *mc.C) {
		var file = c.Bool()
		var part = c.Choose(max/50 + 1)
		var secret = c.Choose(len(secrets))
		var a = newAutoPack(c, c.Bool())
		a.setsecret(secrets[secret])
		for i := range autoNames {
			a.setopt(i, true)
		}
		if part == max/50 {
			if secret > 2 {
				c.Stop()
			}
			for _, n := range big {
				a.put(file, fmt.Sprintf("f%d", n), fill("seed", n))
			}
			if secret == 0 {
				var n = pick(tier, 17<<20+3, 70<<20+3)
				a.put(file, "large", fill("seed", n))
			}
		} else {
			for n := part * 50; n < part*50+50; n++ {
				a.put(file, fmt.Sprintf("f%d", n), fill(fmt.Sprint("seed", n), n))
			}
		}
		a.disk()
		c.State(fmt.Sprint(file, part, secret))
		c.Outcome(fmt.Sprint(file, part, secret))
	}}
}

// c17mime: content types.
func c17mime(tier string) mc.Scenario {
	var names = []string{"a.html", "a.HTM", "a.css", "x/y.JS", "a.png", "a.Jpg", "a.json", "a.pdf", "a.txt", "a.tar.gz", "a.", ".png", "noext", "dir.png/noext", "a.unknown", "a.b/c.unk", "А.ПНГ", "a.svg", "a.webp", "a.xml", "a.wasm"}
	for ext := range extTypes {
		names = append(names, "f"+ext, "F"+strings.ToUpper(ext))
	}
	sort.Strings(names)
	return mc.Scenario{Name: "content types", Run: func(c *mc.C) {
		var name = names[c.Choose(len(names))]
		var k = c.Choose(len(magics) + 3)
		var file = c.Bool()
		var explicit = c.Choose(3)
		var others = c.Bool() // other options that read contents are on
		var data []byte
		switch {
		case k < len(magics):
			data = append([]byte(magics[k].head), fill("rest", 1000)...)
		case k == len(magics):
			data = []byte("plain text, no magic")
		case k == len(magics)+1:
			data = []byte{}
		default:
			data = []byte("x" + magics[0].head) // magic is not at the start
		}
		var a = newAutoPack(c, false)
		a.setopt(1, true)
		if others {
			a.setopt(2, true)
			a.setopt(4, true)
		}
		switch explicit {
		case 0:
			a.put(file, name, data)
		case 1:
			a.put(file, name, data, lua.LString("mime"), lua.LString("my/type"))
		case 2:
			a.put(file, name, data, lua.LString("mime"), lua.LString(""), lua.LString("crc32"), lua.LString("01020304"))
		}
		a.put(!file, "next.unknown", data)
		a.disk()
		c.State(name, fmt.Sprint(k, file, explicit, others))
		c.Outcome(name, fmt.Sprint(k, file, explicit, others))
	}}
}

// c17fids: unique identifiers.
func c17fids(tier string) mc.Scenario {
	var depth = pick(tier, 5, 6)
	return mc.Scenario{Name: "identifiers of files", Run: func(c *mc.C) {
		var a = newAutoPack(c, c.Bool())
		a.setopt(0, true)
		var k int
		var name = func() string { return fmt.Sprintf("f%d", len(a.order)+k) }
		var put = func(tags ...lua.LValue) {
			var n = name()
			a.put(false, n, []byte("content of "+n), tags...)
			a.order = append(a.order, n)
		}
		for i := 0; i < depth; i++ {
			switch op := c.Choose(11); op {
			case 0:
				put()
			case 1, 2, 3:
				put(lua.LString("fid"), lua.LNumber([]int{1, 2, 300}[op-1]))
			case 4, 5:
				if len(a.order) == 0 {
					c.Stop()
				}
				var n = a.order[len(a.order)-1]
				if op == 4 {
					c.Logf("settag(%q, fid, 2)", n)
					var _, err = a.do("settag", lua.LString(n), lua.LString("fid"), lua.LNumber(2))
					c.NoErr(err, "settag")
					a.files[n][4] = "\x02"
				} else {
					c.Logf("settags(%q, fid = 3)", n)
					var _, err = a.do("settags", lua.LString(n), a.table(lua.LString("fid"), lua.LNumber(3)))
					c.NoErr(err, "settags")
					a.files[n][4] = "\x03"
				}
			case 6: // delete the first or the last
				if len(a.order) == 0 {
					c.Stop()
				}
				var j = c.Choose(2) * (len(a.order) - 1)
				c.Logf("delalias(%q)", a.order[j])
				var _, err = a.do("delalias", lua.LString(a.order[j]))
				c.NoErr(err, "delalias")
				delete(a.files, a.order[j])
				delete(a.data, a.order[j])
				a.order = append(append([]string{}, a.order[:j]...), a.order[j+1:]...)
				k++
			case 7: // by the same object
				c.Logf("finalize, append")
				a.disk()
				var _, err = a.do("append")
				c.NoErr(err, "append")
			case 8, 9: // by other object, with or without options
				c.Logf("finalize, load and append by other object")
				a.disk()
				a.luaPkg = a.newPkg(c)
				a.on = [10]bool{}
				var _, err = a.do("load", a.paths()...)
				c.NoErr(err, "load")
				_, err = a.do("append")
				c.NoErr(err, "append")
				if op == 8 {
					a.setopt(0, true)
				}
			case 10:
				a.setopt(0, !a.on[0])
			}
			a.checkSame("the operation")
		}
		a.put(false, "last", []byte("last"))
		a.disk()
		c.Outcome(fmt.Sprint(len(a.order)))
	}}
}

// c17switch: options are switched between packings.
func c17switch(tier string) mc.Scenario {
	var depth = pick(tier, 5, 6)
	var opts = []int{0, 1, 2, 4, 9}
	return mc.Scenario{Name: "switching of options", Run: func(c *mc.C) {
		var a = newAutoPack(c, c.Bool())
		var n int
		for i := 0; i < depth; i++ {
			switch op := c.Choose(len(opts) + 6); op {
			default:
				a.setopt(opts[op], !a.on[opts[op]])
			case len(opts), len(opts) + 1:
				a.put(op == len(opts), fmt.Sprintf("f%d", n), fill("f", 10+n))
				n++
			case len(opts) + 2:
				a.setsecret([]string{"one", "two", ""}[len(a.secret)%3])
			case len(opts) + 3:
				a.put(false, fmt.Sprintf("f%d", n), fill("f", 10+n), lua.LString("md5"), lua.LString("00"), lua.LString("fid"), lua.LNumber(100+n))
				n++
			case len(opts) + 4:
				if !a.split {
					c.Stop()
				}
				var _, err = a.do("flush")
				c.NoErr(err, "flush")
				a.reread()
			case len(opts) + 5:
				a.disk()
				var _, err = a.do("append")
				c.NoErr(err, "append")
			}
		}
		a.checkopts()
		a.checkSame("the session")
		a.put(false, "last.png", []byte("last"))
		a.disk()
		c.State(fmt.Sprint(a.on, a.secret, n))
		c.Outcome(fmt.Sprint(a.on, a.secret, n))
	}}
}

// c17two: two package objects of the same script are used in turn, each one
// has its own options.
func c17two(tier string) mc.Scenario {
	var depth = pick(tier, 5, 6)
	var secrets = []string{"one", "the other secret", ""}
	return mc.Scenario{Name: "two package objects", Run: func(c *mc.C) {
		var a = newAutoPack(c, c.Bool())
		var b = newAutoPack(c, false)
		b.luaPkg = a.newPkg(c) // the same machine
		b.begin()
		c.Defer(func() { b.close() })
		a.setopt(4, true)
		b.setopt(4, true)
		var n int
		var next [2]int
		for i := 0; i < depth; i++ {
			var op = c.Choose(8)
			var k = op % 2
			var x = []*autoPack{a, b}[k]
			switch op / 2 {
			case 0:
				x.setsecret(secrets[next[k]%3])
				next[k]++
			case 1:
				x.setopt(7, !x.on[7])
			case 2:
				x.setopt(1, !x.on[1])
			default:
				x.put(n%2 == 0, fmt.Sprintf("f%d.txt", n), fill("f", 10+n))
				n++
			}
			a.checkopts()
			b.checkopts()
		}
		for i, x := range []*autoPack{a, b} {
			x.put(false, fmt.Sprint("last", i), []byte("last"))
			x.checkSame("the session")
		}
		a.disk()
		b.disk()
		c.State(fmt.Sprint(a.on, a.secret, b.on, b.secret, n))
		c.Outcome(fmt.Sprint(a.on, a.secret, b.on, b.secret, n))
	}}
}

// c17once: sources that can be read only once, it is not possible to compute
// tags by them, and they should not get into the package without those tags.
func c17once(tier string) mc.Scenario {
	return mc.Scenario{Name: "sources that can be read only once", ShardDepth: 2, Run: func(c *mc.C) {
		var mask int
		for k := 0; k < pick(tier, 2, 3); k++ {
			mask |= 1 << c.Choose(11) & 1023
		}
		if mask&1 != 0 && c.Bool() {
			mask = 1023
		}
		var name = []string{"f", "d/f.txt"}[c.Choose(2)]
		var data = fill("pipe", []int{0, 3000}[c.Choose(2)])
		var split = c.Bool()
		var a = newAutoPack(c, split)
		a.put(true, "before", []byte("packed before"))
		for i := range autoNames {
			if mask>>i&1 != 0 {
				a.setopt(i, true)
			}
		}
		var pipe = a.dir + "/pipe"
		c.NoErr(syscall.Mkfifo(pipe, 0600), "pipe")
		var done = make(chan error, 1)
		go func() {
			var f, err = os.OpenFile(pipe, os.O_WRONLY, 0)
			if err == nil {
				f.Write(data)
				err = f.Close()
			}
			done <- err
		}()
		c.Step()
		var _, err = a.do("putfile", lua.LString(name), lua.LString(pipe))
		if f, e := os.OpenFile(pipe, os.O_RDONLY|syscall.O_NONBLOCK, 0); e == nil { // writer should not wait any more
			<-done
			f.Close()
		}
		c.Logf("%q of %d bytes with options %v: %v", name, len(data), a.on, err)
		if err != nil {
			var once = mask & ^1 // identifier does not need contents
			if path.Ext(name) != "" {
				once &^= 2
			}
			if once == 0 {
				c.Fail("packing of %q without reading of its contents again fails: %v", name, err)
			}
			a.checkSame("failed packing")
		} else {
			var all, e = entries(&a.p.Package)
			c.NoErr(e, "entries")
			var got = all[name]
			if got == nil {
				c.Fail("file is not in the package")
			}
			a.files[name] = map[uint16]string{}
			for id, v := range got {
				a.files[name][id] = v
			}
			a.data[name] = string(data)
			for id := uint16(1); id <= 8; id++ {
				delete(got, id)
			}
			if want := a.tags(name, data); tagsStr(got) != tagsStr(want) {
				c.Fail("tags are %s, want %s", tagsHex(got), tagsHex(want))
			}
		}
		a.put(true, "after", []byte("packed after"))
		if err != nil {
			a.put(false, name, []byte("packed again"))
		}
		a.disk()
		c.State(fmt.Sprint(mask, name, len(data), split))
	}}
}

func init() {
	reg(&mc.Prop{
		ID: "C17",
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{c17options(tier), c17content(tier), c17mime(tier), c17fids(tier), c17switch(tier), c17two(tier), c17once(tier), c17many(tier)}
		},
		Assumptions: []string{
			"hash functions and content types by extension of the standard library are right",
			"identifiers that are set explicitly by the script are not checked to be unique, automatic ones are different from all others at the moment of packing",
		},
		Rule: "real script functions pack data and files; tags are compared with independent computation after each packing, and again at the package reopened from disk",
		Bounds: func(tier string) string {
			return fmt.Sprintf("1024 combinations of options; contents of every size up to %d and 8 larger ones with 10 secrets, and one of %d MB; content types: 33 names by 8 contents; sequences of %d operations on identifiers; sequences of %d switches and packings; pipes with combinations of %d options; identifiers of up to 66000 files at 3 kinds of sessions; two package objects used in turn by %d operations", pick(tier, 300, 1200), pick(tier, 17, 70), pick(tier, 5, 6), pick(tier, 5, 6), pick(tier, 2, 3), pick(tier, 5, 6))
		},
	})
}
