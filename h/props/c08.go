package props

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"path"
	"syscall"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"

	"vh/kit"
	"vh/mc"
)

// edgeUints are neighbourhoods of all powers of two.
func edgeUints(wide int) (res []uint64) {
	var seen = map[uint64]bool{}
	var add = func(v uint64) {
		if !seen[v] {
			seen[v] = true
			res = append(res, v)
		}
	}
	for k := 0; k <= 64; k++ {
		var p uint64
		if k < 64 {
			p = 1 << k
		}
		for d := -wide; d <= wide; d++ {
			add(p + uint64(d))
		}
	}
	for _, v := range []uint64{0x0123456789abcdef, 0xfedcba9876543210, 0x00ff00ff00ff00ff, 0x8000000080000000, 0x80000001, 0x8001, 0x81} {
		add(v)
		add(v & 0xffffffff)
		add(v & 0xffff)
		add(v & 0xff)
	}
	return
}

var c08secs = []int64{0, 1, -1, 59, -59, 1000, -1000, 1 << 31, 1<<31 - 1, -(1 << 31), -(1 << 31) - 1, 1 << 32, 1700000000, 253402300799, -62135596800, -62135596801, 9223372036, -9223372037, 99999999999}
var c08nsecs = []int64{0, 1, 999, 1000, 999999, 1000000, 1000001, 1500000, 499999999, 500000000, 999000000, 999999999}

// c08buf: accessor of buffer touches exactly the bytes of its value,
// and panics at the buffer of smaller length even if its capacity is larger.
func c08buf(c *mc.C, op, n int) {
	c.Step()
	var size = []int{2, 4, 8, 4, 8}[op%5]
	var name = []string{"U16", "U32", "U64", "F32", "F64"}[op%5]
	var back = []byte{0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0xab, 0xac, 0xad, 0xae, 0xaf, 0xb0}
	var want = append([]byte{}, back...)
	var b = back[3 : 3+n]
	var panics = true
	var got uint64
	func() {
		defer func() { recover() }()
		switch op {
		case 0:
			got = uint64(util.GetU16(b))
		case 1:
			got = uint64(util.GetU32(b))
		case 2:
			got = util.GetU64(b)
		case 3:
			got = uint64(math.Float32bits(util.GetF32(b)))
		case 4:
			got = math.Float64bits(util.GetF64(b))
		case 5:
			util.SetU16(b, 0x0807)
		case 6:
			util.SetU32(b, 0x0a090807)
		case 7:
			util.SetU64(b, 0x0e0d0c0b0a090807)
		case 8:
			util.SetF32(b, math.Float32frombits(0x0a090807))
		case 9:
			util.SetF64(b, math.Float64frombits(0x0e0d0c0b0a090807))
		}
		panics = false
	}()
	if full := uint64(0xabaaa9a8a7a6a5a4); op < 5 && n >= size && got != full<<(64-8*size)>>(64-8*size) {
		c.Fail("Get%s gives %x", name, got)
	}
	if op >= 5 && n >= size {
		copy(want[3:], []byte{7, 8, 9, 10, 11, 12, 13, 14}[:size])
	}
	if panics != (n < size) {
		c.Fail("%d-byte accessor %s of buffer with %d bytes: panics is %v", size, name, n, panics)
	}
	if !bytes.Equal(back, want) {
		c.Fail("accessor %s of buffer with %d bytes leaves memory %x, want %x", name, n, back, want)
	}
}

// same checks tag through the value and through the tagset getter.
func c08get(c *mc.C, tag wpk.TagRaw, f func(t wpk.TagRaw, ts wpk.TagsetRaw, id uint16) error) {
	c.Step()
	var ts = wpk.TagsetRaw{}.Put(5, []byte("before")).Put(77, tag).Put(78, []byte("after!"))
	if err := f(tag, ts, 77); err != nil {
		c.Fail("%v", err)
	}
}

func eqTag(got wpk.TagRaw, want []byte, what string) error {
	if !bytes.Equal(got, want) {
		return fmt.Errorf("%s is encoded as %x, want %x", what, []byte(got), want)
	}
	return nil
}

func c08uint(c *mc.C, v uint64) {
	type row struct {
		tag  wpk.TagRaw
		w    int
		what string
	}
	var rows = []row{
		{wpk.UintTag(uint(v)), 0, "UintTag"},
		{wpk.Uint64Tag(v), 8, "Uint64Tag"},
		{wpk.Uint32Tag(uint32(v)), 4, "Uint32Tag"},
		{wpk.Uint16Tag(uint16(v)), 2, "Uint16Tag"},
		{wpk.ByteTag(byte(v)), 1, "ByteTag"},
	}
	for _, w := range []int{1, 2, 4, 8} {
		rows = append(rows, row{wpk.UintLenTag(uint(v), w), w, fmt.Sprintf("UintLenTag %d", w)})
	}
	for _, r := range rows {
		var enc = kit.EncUint(v, r.w)
		if err := eqTag(r.tag, enc, fmt.Sprintf("%s(%d)", r.what, v)); err != nil {
			c.Fail("%v", err)
		}
		c08decode(c, r.tag)
	}
	for w := -1; w <= 17; w++ {
		if w == 1 || w == 2 || w == 4 || w == 8 {
			continue
		}
		var bad = func() (tag wpk.TagRaw) {
			defer func() { recover() }()
			return wpk.UintLenTag(uint(v), w)
		}()
		if bad != nil {
			c.Fail("UintLenTag with length %d makes the tag %x", w, []byte(bad))
		}
	}
}

// c08decode compares all decoders at the given tag with independent ones.
func c08decode(c *mc.C, tag wpk.TagRaw) {
	c.State(string(tag))
	c08get(c, tag, func(t wpk.TagRaw, ts wpk.TagsetRaw, id uint16) error {
		var b = []byte(tag)
		var n, isn = kit.Uint(b)
		var cmp = func(what string, ok, wantok bool, v, want any) error {
			if ok != wantok {
				return fmt.Errorf("%s of %x: ok is %v, want %v", what, b, ok, wantok)
			}
			if v != want {
				return fmt.Errorf("%s of %x is %v, want %v", what, b, v, want)
			}
			return nil
		}
		var only = func(l int) uint64 {
			if len(b) == l {
				return n
			}
			return 0
		}
		var f float64
		if len(b) == 8 {
			f = math.Float64frombits(n)
		}
		var ms int64
		var tm time.Time
		var istm = len(b) == 8 || len(b) == 12
		if len(b) == 8 {
			ms = int64(n)
			tm = time.UnixMilli(ms)
		} else if len(b) == 12 {
			var lo, _ = kit.Uint(b[:8])
			var hi, _ = kit.Uint(b[8:])
			tm = time.Unix(int64(lo), int64(hi))
			ms = tm.UnixMilli()
		}
		var first = func(errs ...error) error {
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			return nil
		}
		for k := 0; k < 2; k++ {
			var src interface{} = t
			_ = src
			var s string
			var bl bool
			var by byte
			var u16 uint16
			var u32 uint32
			var u64 uint64
			var u uint
			var fl float64
			var tt time.Time
			var um int64
			var ok [10]bool
			if k == 0 {
				s, ok[0] = t.TagStr()
				bl, ok[1] = t.TagBool()
				by, ok[2] = t.TagByte()
				u16, ok[3] = t.TagUint16()
				u32, ok[4] = t.TagUint32()
				u64, ok[5] = t.TagUint64()
				u, ok[6] = t.TagUint()
				fl, ok[7] = t.TagNumber()
				tt, ok[8] = t.TagTime()
				um, ok[9] = t.TagUnixms()
			} else {
				s, ok[0] = ts.TagStr(id)
				bl, ok[1] = ts.TagBool(id)
				by, ok[2] = ts.TagByte(id)
				u16, ok[3] = ts.TagUint16(id)
				u32, ok[4] = ts.TagUint32(id)
				u64, ok[5] = ts.TagUint64(id)
				u, ok[6] = ts.TagUint(id)
				fl, ok[7] = ts.TagNumber(id)
				tt, ok[8] = ts.TagTime(id)
				um, ok[9] = ts.TagUnixms(id)
			}
			if err := first(
				cmp("TagStr", ok[0], true, s, string(b)),
				cmp("TagBool", ok[1], len(b) == 1, bl, len(b) == 1 && b[0] != 0),
				cmp("TagByte", ok[2], len(b) == 1, by, byte(only(1))),
				cmp("TagUint16", ok[3], len(b) == 2, u16, uint16(only(2))),
				cmp("TagUint32", ok[4], len(b) == 4, u32, uint32(only(4))),
				cmp("TagUint64", ok[5], len(b) == 8, u64, only(8)),
				cmp("TagUint", ok[6], isn, u, uint(n)),
				cmp("TagNumber", ok[7], len(b) == 8, math.Float64bits(fl), math.Float64bits(f)),
				cmp("TagUnixms", ok[9], istm, um, ms),
			); err != nil {
				return err
			}
			if ok[8] != istm {
				return fmt.Errorf("TagTime of %x: ok is %v, want %v", b, ok[8], istm)
			}
			if istm && (!tt.Equal(tm) || tt.UnixNano() != tm.UnixNano()) {
				return fmt.Errorf("TagTime of %x is %v, want %v", b, tt.UTC(), tm.UTC())
			}
		}
		// absent tag gives nothing
		var va0, a0 = ts.TagStr(79)
		var va1, a1 = ts.TagBool(79)
		var va2, a2 = ts.TagByte(79)
		var va3, a3 = ts.TagUint16(79)
		var va4, a4 = ts.TagUint32(79)
		var va5, a5 = ts.TagUint64(79)
		var va6, a6 = ts.TagUint(79)
		var va7, a7 = ts.TagNumber(79)
		var va8, a8 = ts.TagTime(79)
		var va9, a9 = ts.TagUnixms(79)
		if a0 || a1 || a2 || a3 || a4 || a5 || a6 || a7 || a8 || a9 ||
			va0 != "" || va1 || va2 != 0 || va3 != 0 || va4 != 0 || va5 != 0 || va6 != 0 || va7 != 0 || !va8.IsZero() || va9 != 0 {
			return fmt.Errorf("absent tag is decoded")
		}
		return nil
	})
}

func c08time(c *mc.C, tm time.Time) {
	var want = append(kit.EncUint(uint64(tm.Unix()), 8), kit.EncUint(uint64(tm.Nanosecond()), 4)...)
	var tag = wpk.TimeTag(tm)
	if err := eqTag(tag, want, "TimeTag"); err != nil {
		c.Fail("%v", err)
	}
	if got, ok := tag.TagTime(); !ok || !got.Equal(tm) {
		c.Fail("time %v is decoded from 12 bytes as %v", tm.UTC(), got.UTC())
	}
	if ms, ok := tag.TagUnixms(); !ok || ms != tm.UnixMilli() {
		c.Fail("time %v is decoded from 12 bytes as %d milliseconds", tm.UTC(), ms)
	}
	c08decode(c, tag)
	tag = wpk.UnixmsTag(tm)
	if err := eqTag(tag, kit.EncUint(uint64(tm.UnixMilli()), 8), "UnixmsTag"); err != nil {
		c.Fail("%v", err)
	}
	if ms, ok := tag.TagUnixms(); !ok || ms != tm.UnixMilli() {
		c.Fail("time %v is decoded from 8 bytes as %d milliseconds", tm.UTC(), ms)
	}
	if got, ok := tag.TagTime(); !ok || !got.Equal(time.UnixMilli(tm.UnixMilli())) {
		c.Fail("time %v is decoded from 8 bytes as %v", tm.UTC(), got.UTC())
	}
	c08decode(c, tag)
}

type allTimes interface {
	fs.FileInfo
	AccessTime() time.Time
	ChangeTime() time.Time
	BirthTime() time.Time
	HasChangeTime() bool
	HasBirthTime() bool
}

// c08times is what should be seen, nil is for absent.
type c08times struct{ m, a, ch, b *time.Time }

func (w *c08times) check(fi fs.FileInfo) error {
	var at, ok = fi.(allTimes)
	if !ok {
		return fmt.Errorf("file information of packed file has no time accessors")
	}
	var cmp = func(what string, got time.Time, want *time.Time) error {
		if want != nil && !got.Equal(*want) {
			return fmt.Errorf("%s is %v, want %v", what, got.UTC(), want.UTC())
		}
		return nil
	}
	if err := cmp("ModTime", at.ModTime(), w.m); err != nil {
		return err
	}
	if err := cmp("AccessTime", at.AccessTime(), w.a); err != nil {
		return err
	}
	if at.HasChangeTime() != (w.ch != nil) || at.HasBirthTime() != (w.b != nil) {
		return fmt.Errorf("presence of change and birth times is %v, %v, want %v, %v", at.HasChangeTime(), at.HasBirthTime(), w.ch != nil, w.b != nil)
	}
	if err := cmp("ChangeTime", at.ChangeTime(), w.ch); err != nil {
		return err
	}
	return cmp("BirthTime", at.BirthTime(), w.b)
}

// virtFile is file of virtual file system.
type virtFile struct {
	*bytes.Reader
	fi fs.FileInfo
}

func (f *virtFile) Stat() (fs.FileInfo, error) { return f.fi, nil }
func (f *virtFile) Close() error               { return nil }

type virtInfo struct {
	name string
	size int64
	mt   time.Time
	sys  any
}

func (i *virtInfo) Name() string       { return i.name }
func (i *virtInfo) Size() int64        { return i.size }
func (i *virtInfo) Mode() fs.FileMode  { return 0644 }
func (i *virtInfo) ModTime() time.Time { return i.mt }
func (i *virtInfo) IsDir() bool        { return false }
func (i *virtInfo) Sys() any           { return i.sys }

type virtTimes struct {
	virtInfo
	at, ct, bt time.Time
	hasc, hasb bool
}

func (i *virtTimes) AccessTime() time.Time { return i.at }
func (i *virtTimes) ChangeTime() time.Time { return i.ct }
func (i *virtTimes) BirthTime() time.Time  { return i.bt }
func (i *virtTimes) HasChangeTime() bool   { return i.hasc }
func (i *virtTimes) HasBirthTime() bool    { return i.hasb }

// c08pack packs one file and checks what is seen live and after reopening.
func c08pack(c *mc.C, split bool, file fs.File, name string, data []byte, w *c08times) {
	var wd = kit.NewWorld(split)
	c.NoErr(wd.Begin(), "begin")
	if _, err := wd.Pkg.PackData(wd.DataFile(), bytes.NewReader([]byte("head")), "head"); err != nil {
		c.Fail("packing: %v", err)
	}
	var ts, err = wd.Pkg.PackFile(wd.DataFile(), file, name)
	c.NoErr(err, "packing of file")
	c.Step()
	var check = func(what string, fi fs.FileInfo) {
		if fi.Size() != int64(len(data)) || fi.Name() != path.Base(name) || fi.IsDir() || fi.Mode().IsDir() {
			c.Fail("%s: file information is %q, %d bytes, dir %v", what, fi.Name(), fi.Size(), fi.IsDir())
		}
		if err := w.check(fi); err != nil {
			c.Fail("%s: %v", what, err)
		}
	}
	check("returned tagset", ts)
	var views = func(pkg *wpk.Package, what string) {
		var fi, err = pkg.Stat(name)
		c.NoErr(err, "stat")
		check(what+", stat", fi)
		f, err := pkg.Open(name)
		c.NoErr(err, "open")
		fi, err = f.Stat()
		c.NoErr(err, "stat of open file")
		check(what+", stat of open file", fi)
		b, err := io.ReadAll(f)
		if err != nil || !bytes.Equal(b, data) {
			c.Fail("%s: content is %s, error %v", what, short(b), err)
		}
		f.Close()
		list, err := pkg.ReadDir(".")
		c.NoErr(err, "readdir")
		for _, de := range list {
			if de.Name() == path.Base(name) {
				fi, err = de.Info()
				c.NoErr(err, "info of directory entry")
				check(what+", directory entry", fi)
			}
		}
	}
	wd.Pkg.Tagger = &kit.MemTagger{Data: wd.Dat()}
	views(wd.Pkg, "live")
	c.NoErr(wd.Pkg.Sync(wd.WPT, wd.Second()), "finalize")
	var pkg = wpk.NewPackage()
	c.NoErr(kit.OpenMem(pkg, wd.WPT.Buf), "reopen")
	pkg.Tagger = &kit.MemTagger{Data: wd.Dat()}
	views(pkg, "reopened")

	// package file is packed to other package, with all its times
	var f, err2 = pkg.Open(name)
	c.NoErr(err2, "open")
	var wd2 = kit.NewWorld(!split)
	c.NoErr(wd2.Begin(), "begin")
	ts, err = wd2.Pkg.PackFile(wd2.DataFile(), f, "copy")
	c.NoErr(err, "packing of file from other package")
	var w2 = *w
	if w.a == nil { // absent access time of source is not defined in copy
		w2.a = nil
	}
	if err = w2.check(ts); err != nil {
		c.Fail("repacked: %v", err)
	}
}

func init() {
	reg(&mc.Prop{
		ID:   "C08",
		Rule: "every value of the alphabets is encoded by every constructor and decoded by every converter and tagset getter, and compared with independent codec; every byte string of the length/pattern grid is decoded by every converter; every file of the time grid is packed, reopened and its file information compared with the source",
		Bounds: func(tier string) string {
			return fmt.Sprintf("integers: ±%d around every power of two up to 2^64, all 256 bytes, all 65536 two-byte values; floats: all exponents x 2 signs x 4 mantissas; tag lengths 0..17 x %d patterns; times: %d seconds x %d nanoseconds; packed files: OS files, virtual files with and without extended times, files of other package",
				pick(tier, 2, 40), 6, len(c08secs), len(c08nsecs))
		},
		Assumptions: []string{"64-bit little-endian platform", "file system of scratch directory stores times in nanoseconds"},
		Scenarios: func(tier string) []mc.Scenario {
			var uints = edgeUints(pick(tier, 2, 40))
			return []mc.Scenario{
				{Name: "integers", ShardDepth: 1, Run: func(c *mc.C) {
					var v = uints[c.Choose(len(uints))]
					c.Logf("integer %d", v)
					c08uint(c, v)
				}},
				{Name: "small integers", ShardDepth: 1, Run: func(c *mc.C) {
					var hi = c.Choose(256)
					for lo := 0; lo < 256; lo++ {
						var v = uint64(hi<<8 | lo)
						var n = 2
						if v <= 255 {
							n = 1
						}
						var tag = wpk.UintTag(uint(v))
						if err := eqTag(tag, kit.EncUint(v, n), "UintTag"); err != nil {
							c.Fail("%v", err)
						}
						if u, ok := tag.TagUint(); !ok || u != uint(v) {
							c.Fail("integer %d is decoded as %d", v, u)
						}
						c08decode(c, kit.EncUint(v, 2))
					}
					for _, bl := range []bool{false, true} {
						var tag = wpk.BoolTag(bl)
						if got, ok := tag.TagBool(); !ok || got != bl {
							c.Fail("boolean %v is decoded as %v", bl, got)
						}
						if want := map[bool]string{true: "\x01", false: "\x00"}[bl]; string(tag) != want {
							c.Fail("boolean %v is encoded as %x", bl, []byte(tag))
						}
						c08decode(c, tag)
					}
					var bt = wpk.ByteTag(byte(hi))
					if got, ok := bt.TagByte(); !ok || got != byte(hi) {
						c.Fail("byte %d is decoded as %d", hi, got)
					}
				}},
				{Name: "floats", ShardDepth: 1, Run: func(c *mc.C) {
					var exp = uint64(c.Choose(2048))
					for _, m := range []uint64{0, 1, 1<<52 - 1, 1 << 51} {
						for s := uint64(0); s < 2; s++ {
							var bits = s<<63 | exp<<52 | m
							var f = math.Float64frombits(bits)
							var tag = wpk.NumberTag(f)
							if err := eqTag(tag, kit.EncUint(bits, 8), "NumberTag"); err != nil {
								c.Fail("%v", err)
							}
							if got, ok := tag.TagNumber(); !ok || math.Float64bits(got) != bits {
								c.Fail("number %v is decoded as %v", f, got)
							}
							var buf bytes.Buffer
							c.NoErr(util.WriteF64(&buf, f), "WriteF64")
							if !bytes.Equal(buf.Bytes(), tag) {
								c.Fail("number %v is written as %x, stored as %x", f, buf.Bytes(), []byte(tag))
							}
							if got, err := util.ReadF64(&buf); err != nil || math.Float64bits(got) != bits {
								c.Fail("number %v is read as %v", f, got)
							}
							var f32 = math.Float32frombits(uint32(s<<31 | exp&0xff<<23 | m&0x7fffff))
							var b4 [4]byte
							util.SetF32(b4[:], f32)
							if math.Float32bits(util.GetF32(b4[:])) != math.Float32bits(f32) {
								c.Fail("32-bit number %v is not kept", f32)
							}
							buf.Reset()
							c.NoErr(util.WriteF32(&buf, f32), "WriteF32")
							if !bytes.Equal(buf.Bytes(), b4[:]) {
								c.Fail("32-bit number %v is written as %x, stored as %x", f32, buf.Bytes(), b4)
							}
							if got, err := util.ReadF32(&buf); err != nil || math.Float32bits(got) != math.Float32bits(f32) {
								c.Fail("32-bit number %v is read as %v", f32, got)
							}
						}
					}
				}},
				{Name: "stream integers", ShardDepth: 1, Run: func(c *mc.C) {
					var v = uints[c.Choose(len(uints))]
					var buf bytes.Buffer
					c.NoErr(util.WriteU16(&buf, uint16(v)), "WriteU16")
					c.NoErr(util.WriteU32(&buf, uint32(v)), "WriteU32")
					c.NoErr(util.WriteU64(&buf, v), "WriteU64")
					var want = append(append(kit.EncUint(v, 2), kit.EncUint(v, 4)...), kit.EncUint(v, 8)...)
					if !bytes.Equal(buf.Bytes(), want) {
						c.Fail("integer %d is written as %x, want %x", v, buf.Bytes(), want)
					}
					for n := 0; n <= len(want); n++ {
						var r = bytes.NewReader(want[:n])
						var a, e1 = util.ReadU16(r)
						var b, e2 = util.ReadU32(r)
						var d, e3 = util.ReadU64(r)
						if (e1 == nil) != (n >= 2) || (e2 == nil) != (n >= 6) || (e3 == nil) != (n >= 14) {
							c.Fail("reading from %d bytes: errors %v, %v, %v", n, e1, e2, e3)
						}
						if n == 14 && (a != uint16(v) || b != uint32(v) || d != v) {
							c.Fail("integer %d is read as %d, %d, %d", v, a, b, d)
						}
					}
				}},
				{Name: "buffers of any size", ShardDepth: 1, Run: func(c *mc.C) {
					c08buf(c, c.Choose(10), c.Choose(10))
				}},
				{Name: "all lengths", ShardDepth: 2, Run: func(c *mc.C) {
					var n = c.Choose(18)
					var pat = c.Choose(6)
					var b = make([]byte, n)
					for i := range b {
						switch pat {
						case 1:
							b[i] = 0xff
						case 2:
							b[i] = byte(i + 1)
						case 3:
							b[i] = byte(0x80 + i)
						case 4:
							if i == 0 {
								b[i] = 1
							}
						case 5:
							if i == n-1 {
								b[i] = 1
							}
						}
					}
					c08decode(c, b)
				}},
				{Name: "text", ShardDepth: 1, Run: func(c *mc.C) {
					var s = []string{"", "a", "\x00", "text", "имя/файл", "\xff\xfe", "a\x00b", string(fill("q", 300)), string(fill("q", 65000))}[c.Choose(9)]
					var tag = wpk.StrTag(s)
					if err := eqTag(tag, []byte(s), "StrTag"); err != nil {
						c.Fail("%v", err)
					}
					if len(s) < 60000 {
						c08decode(c, tag)
					} else if got, ok := tag.TagStr(); !ok || got != s {
						c.Fail("long text is not kept")
					}
				}},
				{Name: "times", ShardDepth: 2, Run: func(c *mc.C) {
					var sec = c08secs[c.Choose(len(c08secs))]
					for _, ns := range c08nsecs {
						c08time(c, time.Unix(sec, ns))
						c08time(c, time.Unix(sec, ns).UTC())
					}
				}},
				{Name: "accessors", ShardDepth: 3, Run: func(c *mc.C) {
					// each time tag is absent, or in 8 bytes, or in 12 bytes form
					var base = time.Unix(c08secs[c.Choose(len(c08secs))], c08nsecs[c.Choose(len(c08nsecs))])
					var order = c.Choose(2)
					var w c08times
					var ts = wpk.TagsetRaw{}.Put(1, wpk.UintTag(100)).Put(2, wpk.UintTag(5)).Put(3, wpk.StrTag("dir/name.ext"))
					var put = func(id uint16, k int) {
						var form = c.Choose(3)
						if form == 0 {
							return
						}
						var tm = base.Add(time.Duration(k) * 1001 * time.Millisecond)
						if form == 1 {
							tm = time.UnixMilli(tm.UnixMilli())
							ts = ts.Put(id, wpk.UnixmsTag(tm))
						} else {
							ts = ts.Put(id, wpk.TimeTag(tm))
						}
						switch id {
						case 5:
							w.m = &tm
						case 6:
							w.a = &tm
						case 7:
							w.ch = &tm
						case 8:
							w.b = &tm
						}
					}
					for i := 0; i < 4; i++ {
						if order == 0 {
							put(uint16(5+i), i)
						} else {
							put(uint16(8-i), i)
						}
					}
					if err := w.check(ts); err != nil {
						c.Fail("%v", err)
					}
					if ts.Name() != "name.ext" || ts.Size() != 5 || ts.Path() != "dir/name.ext" || ts.IsDir() {
						c.Fail("file information is %q %q %d", ts.Name(), ts.Path(), ts.Size())
					}
					if off, size := ts.Pos(); off != 100 || size != 5 {
						c.Fail("position is %d, %d", off, size)
					}
				}},
				{Name: "OS file", ShardDepth: 3, Run: func(c *mc.C) {
					var dir = scratchDir(c)
					var msec = []int64{1, 1700000000, -1, 1<<31 - 1, 1 << 31, -1000}[c.Choose(6)]
					var nsec = c08nsecs[c.Choose(len(c08nsecs))]
					var split = c.Bool()
					var data = fill("q", []int{0, 1, 255, 256, 5000}[c.Choose(5)])
					var fpath = dir + "/src.bin"
					c.NoErr(os.WriteFile(fpath, data, 0644), "file")
					var mt = time.Unix(msec, nsec)
					var at = mt.Add(12345678901 * time.Nanosecond)
					c.NoErr(os.Chtimes(fpath, at, mt), "chtimes")
					var fi, err = os.Stat(fpath)
					c.NoErr(err, "stat")
					var st = fi.Sys().(*syscall.Stat_t)
					var rmt = fi.ModTime()
					var rat = time.Unix(st.Atim.Unix())
					var rct = time.Unix(st.Ctim.Unix())
					if !rmt.Equal(mt) || !rat.Equal(at) {
						c.Stop() // times are not supported here
					}
					f, err := os.Open(fpath)
					c.NoErr(err, "open")
					defer f.Close()
					c08pack(c, split, f, "dir1.ext", data, &c08times{&rmt, &rat, &rct, nil})
				}},
				{Name: "virtual file", ShardDepth: 3, Run: func(c *mc.C) {
					var tm = time.Unix(c08secs[c.Choose(len(c08secs))], c08nsecs[c.Choose(len(c08nsecs))])
					var split = c.Bool()
					var kind = c.Choose(6)
					var data = fill("q", 33)
					var vi = virtInfo{"x", 33, tm, nil}
					var w = c08times{m: &tm}
					var fi fs.FileInfo = &vi
					switch kind {
					case 1:
						vi.sys = "something"
						fi = &vi
					default:
						if kind >= 2 {
							var a, ct, b = tm.Add(time.Second + 1), tm.Add(time.Hour + 2), tm.Add(-time.Hour - 3)
							var vt = &virtTimes{vi, a, ct, b, kind&1 != 0, kind&2 == 0}
							w.a = &a
							if vt.hasc {
								w.ch = &ct
							}
							if vt.hasb {
								w.b = &b
							}
							fi = vt
						}
					}
					c08pack(c, split, &virtFile{bytes.NewReader(data), fi}, "virt", data, &w)
				}},
			}
		},
	})
}
