package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// Types of tags by the documentation of scripts API.
var (
	luaUint = map[string]uint16{"offset": 1, "size": 2, "fid": 4, "attr": 9}
	luaTime = map[string]uint16{"mtime": 5, "atime": 6, "ctime": 7, "btime": 8}
	luaHex  = map[string]uint16{"crc32": 12, "crc32ieee": 11, "crc32c": 12, "crc32k": 13, "crc64": 14, "crc64iso": 14,
		"md5": 20, "sha1": 21, "sha224": 22, "sha256": 23, "sha384": 24, "sha512": 25, "tmbjpeg": 100, "tmbwebp": 101}
	luaText = map[string]uint16{"path": 3, "mime": 10, "label": 110, "link": 111, "keywords": 112, "category": 113, "version": 114, "author": 115, "comment": 116}
)

var luaNames, luaKinds, luaIds = func() ([]string, map[uint16]byte, map[string]uint16) {
	var names []string
	var kinds, ids = map[uint16]byte{}, map[string]uint16{}
	for k, m := range map[byte]map[string]uint16{'u': luaUint, 't': luaTime, 'x': luaHex, 's': luaText} {
		for name, id := range m {
			names = append(names, name)
			kinds[id], ids[name] = k, id
		}
	}
	sort.Strings(names)
	return names, kinds, ids
}()

const iso8601 = "2006-01-02T15:04:05.999Z07:00"

// luaKey is identifier of the tag for given key, false if key is wrong.
func luaKey(k lua.LValue) (uint16, bool) {
	switch k := k.(type) {
	case lua.LNumber:
		var f = float64(k)
		if f >= 0 && f <= 65535 && f == math.Trunc(f) {
			return uint16(f), true
		}
	case lua.LString:
		var id, ok = luaIds[string(k)]
		return id, ok
	}
	return 0, false
}

func luaProtected(id uint16) bool { return id >= 1 && id <= 3 }

// luaTag is the tag for given value. It has several variants if value
// is out of documented rules but has evident meaning, and nil error can be absent.
func luaTag(id uint16, v lua.LValue) (want []byte, ok, maybe bool) {
	var num = func(f float64) ([]byte, bool, bool) {
		if f != f || f <= -1 || f >= 1<<64 {
			return nil, false, false
		}
		return kit.EncUint(uint64(f), 0), true, f < 0 || f != math.Trunc(f)
	}
	defer func() {
		if len(want) > 65535 {
			ok = false
		}
	}()
	switch luaKinds[id] {
	case 'u':
		switch v := v.(type) {
		case lua.LNumber:
			return num(float64(v))
		case lua.LString:
			var i, err = strconv.ParseUint(strings.TrimPrefix(string(v), "+"), 10, 63)
			if err != nil {
				return nil, false, false
			}
			return kit.EncUint(i, 0), true, strings.HasPrefix(string(v), "+")
		case lua.LBool:
			if v {
				return []byte{1}, true, false
			}
			return []byte{0}, true, false
		}
	case 'x':
		switch v := v.(type) {
		case lua.LNumber:
			return num(float64(v))
		case lua.LString:
			var b, err = hex.DecodeString(string(v))
			return b, err == nil, false
		}
	case 's':
		switch v.(type) {
		case lua.LNumber, lua.LString, lua.LBool:
			return []byte(v.String()), true, false
		}
	case 't':
		switch v := v.(type) {
		case lua.LNumber:
			var f = float64(v)
			if f != f || f <= -1<<63 || f >= 1<<63 {
				return nil, false, false
			}
			return kit.EncUint(uint64(int64(f)), 8), true, f != math.Trunc(f)
		case lua.LString:
			var t, err = time.Parse(iso8601, string(v))
			if err != nil {
				return nil, false, false
			}
			return append(kit.EncUint(uint64(t.Unix()), 8), kit.EncUint(uint64(t.Nanosecond()), 4)...), true, false
		}
	default:
		switch v := v.(type) {
		case lua.LNumber:
			if f := float64(v); f >= 0 && f < 1<<63 && f == math.Trunc(f) {
				return kit.EncUint(uint64(f), 0), true, false
			}
			return kit.EncUint(math.Float64bits(float64(v)), 8), true, false
		case lua.LString:
			return []byte(v), true, false
		case lua.LBool:
			if v {
				return []byte{1}, true, false
			}
			return []byte{0}, true, false
		}
	}
	return nil, false, false
}

// luaVal is script value of the tag.
func luaVal(id uint16, tag []byte) lua.LValue {
	switch luaKinds[id] {
	case 'u':
		var v, _ = kit.Uint(tag)
		return lua.LNumber(v)
	case 'x':
		return lua.LString(hex.EncodeToString(tag))
	case 't':
		var t time.Time
		if len(tag) == 8 {
			var v, _ = kit.Uint(tag)
			t = time.UnixMilli(int64(v))
		} else {
			var s, _ = kit.Uint(tag[:8])
			var ns, _ = kit.Uint(tag[8:])
			t = time.Unix(int64(s), int64(ns))
		}
		return lua.LString(t.UTC().Format(iso8601))
	}
	return lua.LString(tag)
}

// luaSet is model of the package: tags of files and information.
type luaSet struct {
	files map[string]map[uint16]string
	info  map[uint16]string
}

func (m *luaSet) clone() *luaSet {
	var x = &luaSet{map[string]map[uint16]string{}, map[uint16]string{}}
	for name, t := range m.files {
		x.files[name] = map[uint16]string{}
		for k, v := range t {
			x.files[name][k] = v
		}
	}
	for k, v := range m.info {
		x.info[k] = v
	}
	return x
}

func tagsStr(t map[uint16]string) string {
	var s []string
	for k, v := range t {
		s = append(s, fmt.Sprintf("%d:%q", k, cutStr(v)))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func (m *luaSet) key() string {
	var s []string
	for name, t := range m.files {
		s = append(s, name+" "+tagsStr(t))
	}
	sort.Strings(s)
	return strings.Join(s, "\n") + "\n" + tagsStr(m.info)
}

// tagsOfTable checks table of tags made by the script API.
func tagsOfTable(v lua.LValue) (map[uint16]lua.LValue, error) {
	var t, ok = v.(*lua.LTable)
	if !ok {
		return nil, fmt.Errorf("result is %s, not a table", luaStr(v))
	}
	var res = map[uint16]lua.LValue{}
	var err error
	t.ForEach(func(k, v lua.LValue) {
		var id, ok = luaKey(k)
		if !ok {
			err = fmt.Errorf("unknown key %s", luaStr(k))
		} else if _, ok = res[id]; ok {
			err = fmt.Errorf("tag %d repeats", id)
		}
		res[id] = v
	})
	return res, err
}

// raw compares all tags of the package with the model.
func (m *luaSet) raw(p *luaPkg) error {
	var got, err = entries(&p.p.Package)
	if err != nil {
		return err
	}
	if len(got) != len(m.files) {
		return fmt.Errorf("package has %d files, want %d", len(got), len(m.files))
	}
	for name, want := range m.files {
		if tags, ok := got[name]; !ok {
			return fmt.Errorf("no file %q", name)
		} else if tagsStr(tags) != tagsStr(want) {
			return fmt.Errorf("tags of %q are %s, want %s", name, tagsStr(tags), tagsStr(want))
		}
	}
	var tags, e = kit.ParseTags(p.p.GetInfo())
	if e != nil {
		return fmt.Errorf("package information: %w", e)
	}
	var info, e2 = kit.TagsMap(tags)
	if e2 != nil {
		return fmt.Errorf("package information: %w", e2)
	}
	if tagsStr(info) != tagsStr(m.info) {
		return fmt.Errorf("package information is %s, want %s", tagsStr(info), tagsStr(m.info))
	}
	return nil
}

// check compares tags seen by scripts with the model.
func (m *luaSet) check(p *luaPkg, ids []uint16) error {
	if err := m.raw(p); err != nil {
		return err
	}
	for name, want := range m.files {
		var res, err = p.do("gettags", lua.LString(name))
		if err != nil {
			return fmt.Errorf("gettags(%q): %w", name, err)
		}
		if len(res) != 1 {
			return fmt.Errorf("gettags(%q) returns %s", name, luaStrs(res))
		}
		var got, e = tagsOfTable(res[0])
		if e != nil {
			return fmt.Errorf("gettags(%q): %w", name, e)
		}
		if len(got) != len(want) {
			return fmt.Errorf("gettags(%q) has %d tags, want %d", name, len(got), len(want))
		}
		for id, tag := range want {
			if got[id] != luaVal(id, []byte(tag)) {
				return fmt.Errorf("gettags(%q) has tag %d %s, want %s", name, id, luaStr(got[id]), luaStr(luaVal(id, []byte(tag))))
			}
		}
		for _, id := range ids {
			if err = m.checkTag(p, name, id, lua.LNumber(id)); err != nil {
				return err
			}
		}
	}
	var res, err = p.do("getinfo")
	if err != nil || len(res) != 1 {
		return fmt.Errorf("getinfo: %s %w", luaStrs(res), err)
	}
	var got, e = tagsOfTable(res[0])
	if e != nil {
		return fmt.Errorf("getinfo: %w", e)
	}
	var n int
	for id, tag := range m.info {
		if id == wpk.TIDfid || id == wpk.TIDpath { // those tags are service tags
			delete(got, id)
			continue
		}
		n++
		if got[id] != luaVal(id, []byte(tag)) {
			return fmt.Errorf("getinfo has tag %d %s, want %s", id, luaStr(got[id]), luaStr(luaVal(id, []byte(tag))))
		}
	}
	if len(got) != n {
		return fmt.Errorf("getinfo has %d tags, want %d", len(got), n)
	}
	var label, ok = m.info[wpk.TIDlabel]
	var v, e3 = p.get("label")
	if e3 != nil {
		return fmt.Errorf("label: %w", e3)
	}
	if ok && v != lua.LString(label) || !ok && v != lua.LNil {
		return fmt.Errorf("label is %s, want %q", luaStr(v), label)
	}
	return nil
}

func (m *luaSet) checkTag(p *luaPkg, name string, id uint16, k lua.LValue) error {
	var tag, ok = m.files[name][id]
	var res, err = p.do("hastag", lua.LString(name), k)
	if err != nil || len(res) != 1 || res[0] != lua.LBool(ok) {
		return fmt.Errorf("hastag(%q, %s) is %s %v, want %v", name, luaStr(k), luaStrs(res), err, ok)
	}
	if res, err = p.do("gettag", lua.LString(name), k); err != nil {
		return fmt.Errorf("gettag(%q, %s): %w", name, luaStr(k), err)
	}
	if !ok {
		if len(res) > 0 && res[0] != lua.LNil {
			return fmt.Errorf("gettag(%q, %s) is %s for absent tag", name, luaStr(k), luaStrs(res))
		}
	} else if want := luaVal(id, []byte(tag)); len(res) != 1 || res[0] != want {
		return fmt.Errorf("gettag(%q, %s) is %s, want %s", name, luaStr(k), luaStrs(res), luaStr(want))
	}
	return nil
}

// newFile adds file to the package that is not written.
func (m *luaSet) newFile(p *luaPkg, name string, off, size int, tags ...kit.Tag) {
	tags = append([]kit.Tag{{ID: 1, Val: kit.EncUint(uint64(off), 8)}, {ID: 2, Val: kit.EncUint(uint64(size), 8)}, {ID: 3, Val: []byte(name)}}, tags...)
	p.p.SetTagset(name, kit.EncTags(tags))
	m.files[name], _ = kit.TagsMap(tags)
}

func newLuaSet() *luaSet {
	return &luaSet{map[string]map[uint16]string{}, map[uint16]string{}}
}

// luaOp is operation on tags.
type luaOp struct {
	op   string
	name string
	k, v lua.LValue
	kv   []lua.LValue // pairs of the table
}

func (o *luaOp) String() string {
	var s []string
	for i := 0; i+1 < len(o.kv); i += 2 {
		s = append(s, "["+luaStr(o.kv[i])+"]="+luaStr(o.kv[i+1]))
	}
	switch o.op {
	case "settag", "addtag":
		return fmt.Sprintf("%s(%q, %s, %s)", o.op, o.name, luaStr(o.k), luaStr(o.v))
	case "deltag", "hastag", "gettag":
		return fmt.Sprintf("%s(%q, %s)", o.op, o.name, luaStr(o.k))
	case "label":
		return "label = " + luaStr(o.v)
	}
	return fmt.Sprintf("%s(%q, {%s})", o.op, o.name, strings.Join(s, ", "))
}

// run makes the operation at the package and at the model.
func (o *luaOp) run(p *luaPkg, m *luaSet) (*luaSet, error) {
	var args []lua.LValue
	if o.op != "setupinfo" {
		args = append(args, lua.LString(o.name))
	}
	var x = m.clone()
	var file = x.files[o.name]
	var isfail, maybe = file == nil, false
	var ret lua.LValue
	var one = func(k, v lua.LValue, withval bool) (id uint16, tag string) {
		var ok bool
		if id, ok = luaKey(k); !ok || luaProtected(id) {
			isfail = true
			return
		}
		if withval {
			var b, ok, mb = luaTag(id, v)
			if !ok {
				isfail = true
			}
			maybe = maybe || mb
			tag = string(b)
		}
		return
	}
	switch o.op {
	case "settag", "addtag", "deltag":
		args = append(args, o.k)
		if o.op != "deltag" {
			args = append(args, o.v)
		}
		var id, tag = one(o.k, o.v, o.op != "deltag")
		if isfail {
			break
		}
		var _, has = file[id]
		switch {
		case o.op == "deltag":
			delete(file, id)
			ret = lua.LBool(has)
		case o.op == "settag" || !has:
			file[id] = tag
			ret = lua.LBool(!has)
		default:
			ret = lua.LBool(false)
		}
	case "hastag", "gettag": // wrong keys only
		args = append(args, o.k)
		var _, ok = luaKey(o.k)
		isfail = isfail || !ok
	case "gettags":
	case "settags", "addtags", "deltags", "setupinfo":
		args = append(args, p.table(o.kv...))
		var n int
		if o.op == "setupinfo" {
			isfail = false
			x.info = map[uint16]string{}
			file = x.info
		}
		for i := 0; i+1 < len(o.kv); i += 2 {
			if o.kv[i+1] == lua.LNil {
				continue // there is no such pair in the table
			}
			var id, tag = one(o.kv[i], o.kv[i+1], o.op != "deltags")
			if isfail {
				continue
			}
			var _, has = file[id]
			if o.op == "deltags" {
				if has {
					n++
				}
				delete(file, id)
			} else if o.op != "addtags" || !has {
				file[id] = tag
				n++
			}
		}
		if o.op == "addtags" || o.op == "deltags" {
			ret = lua.LNumber(n)
		}
	case "label":
		switch o.v.(type) {
		case lua.LString, lua.LNumber:
			x.info[wpk.TIDlabel] = o.v.String()
			isfail = len(o.v.String()) > 65535
		default:
			isfail = true
		}
		if err := p.set("label", o.v); (err != nil) != isfail {
			return nil, fmt.Errorf("%v: %v", o, err)
		}
	}
	if o.op != "label" {
		var res, err = p.do(o.op, args...)
		if isfail || maybe && err != nil {
			if err == nil {
				return nil, fmt.Errorf("%v: no error, result is %s", o, luaStrs(res))
			}
			isfail = true
		} else if err != nil {
			return nil, fmt.Errorf("%v: %v", o, firstLine(err.Error()))
		} else if ret != nil && (len(res) != 1 || res[0] != ret) {
			return nil, fmt.Errorf("%v returns %s, want %s", o, luaStrs(res), luaStr(ret))
		}
	}
	if isfail {
		x = m
	}
	if err := x.raw(p); err != nil {
		return nil, fmt.Errorf("after %v: %w", o, err)
	}
	return x, nil
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	return s
}

// luaValues are values of tags.
func luaValues(l *luaVM) (vs []lua.LValue) {
	for _, f := range []float64{0, 1, 5, 255, 256, 65535, 65536, 1 << 32, 1<<32 - 1, 1 << 53, 1 << 62, 1<<63 + 4096, 1e300, -1, -65536, -1e300, 0.5, 1.5, -0.5, -1.5, math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 1596212345678} {
		vs = append(vs, lua.LNumber(f))
	}
	for _, s := range []string{"", "0", "1", "12", "-5", "+7", "007", "0100", "0x1f", "0b11", "0o17", "1_000", "4 ", "1.5", "9223372036854775807", "1e3", " 4", "abc", "false", "true", "0aFF", "00", "zz", "й\x00\xff",
		"2021-02-03T04:05:06.789Z", "2021-02-03T04:05:06+03:00", "1969-12-31T23:59:59.5Z", "2021-02-30T04:05:06Z", "0001-01-01T00:00:00Z", "2021-02-03", "2021-02-03T04:05:06.123456789Z",
		strings.Repeat("ab", 150), strings.Repeat("0", 65536), strings.Repeat("c", 60000), strings.Repeat("1", 131072)} {
		vs = append(vs, lua.LString(s))
	}
	return append(vs, lua.LTrue, lua.LFalse, lua.LNil, l.ls.NewTable(), l.ls.NewFunction(func(*lua.LState) int { return 0 }), l.ls.NewUserData())
}

// luaKeys are keys of tags.
func luaKeys(l *luaVM) (ks []lua.LValue) {
	for _, name := range luaNames {
		ks = append(ks, lua.LString(name), lua.LNumber(luaIds[name]))
	}
	for _, f := range []float64{0, 15, 200, 40000, 65535, 65536, 65537, 65539, 65540, 65536 + 110, 1 << 32, 1<<32 + 4, 1e300, -1, -4, -65532, 4.5, 3.9, 0.5, -0.5, math.NaN(), math.Inf(1), math.Inf(-1)} {
		ks = append(ks, lua.LNumber(f))
	}
	for _, s := range []string{"", "Label", "label ", "4", "110", "bogus", "й"} {
		ks = append(ks, lua.LString(s))
	}
	return append(ks, lua.LTrue, lua.LNil, l.ls.NewTable(), l.ls.NewFunction(func(*lua.LState) int { return 0 }))
}

// c16single: one operation with every key and value.
func c16single(tier string) mc.Scenario {
	var ops = []string{"settag", "addtag", "settags", "addtags", "setupinfo"}
	return mc.Scenario{Name: "one operation", ShardDepth: 2, Run: func(c *mc.C) {
		var l = vm()
		var keys = luaKeys(l)
		var k = keys[c.Choose(len(keys))]
		var op = ops[c.Choose(len(ops))]
		var prior = c.Choose(4) // no tag, empty, short and long one
		if op == "setupinfo" && prior > 0 {
			c.Stop()
		}
		var id, ok = luaKey(k)
		if !ok && prior > 0 {
			prior = 0
		}
		for _, v := range luaValues(l) {
			if op != "settag" && op != "addtag" {
				if n, ok := k.(lua.LNumber); k == lua.LNil || ok && n != n {
					continue // can not be key of the table
				}
			}
			var p, m = l.newPkg(c), newLuaSet()
			m.newFile(p, "other", 100, 3, kit.Tag{ID: 110, Val: []byte("x")})
			var tags = []kit.Tag{{ID: 10, Val: []byte("text/plain")}, {ID: 50000, Val: []byte{}}}
			if prior > 0 && !luaProtected(id) && id != 10 && id != 50000 {
				tags = append(tags, kit.Tag{ID: id, Val: [][]byte{{}, {7}, bytes.Repeat([]byte{9}, 12)}[prior-1]})
			}
			m.newFile(p, "dir/file", 0, 100, append(tags, kit.Tag{ID: 201, Val: []byte("last")})...)
			var o = &luaOp{op: op, name: "dir/file", k: k, v: v, kv: []lua.LValue{k, v}}
			var x, err = o.run(p, m)
			if err != nil {
				c.Fail("%v", err)
			}
			if tag, ok := x.files["dir/file"][id]; ok && x != m && !(luaKinds[id] == 'u' && !okUint(tag)) && !(luaKinds[id] == 't' && len(tag) != 8 && len(tag) != 12) {
				if err = x.checkTag(p, "dir/file", id, k); err != nil {
					c.Fail("after %v: %v", o, err)
				}
			}
		}
		c.Outcome(op, luaStr(k), fmt.Sprint(prior))
	}}
}

func okUint(tag string) bool {
	var _, ok = kit.Uint([]byte(tag))
	return ok
}

// c16keys: reading and deletion with every key, wrong file names.
func c16keys(tier string) mc.Scenario {
	var ops = []string{"deltag", "deltags", "hastag", "gettag", "gettags", "settag", "addtag", "settags", "addtags"}
	return mc.Scenario{Name: "keys and names", ShardDepth: 2, Run: func(c *mc.C) {
		var l = vm()
		var keys = luaKeys(l)
		var k = keys[c.Choose(len(keys))]
		var op = ops[c.Choose(len(ops))]
		if n, ok := k.(lua.LNumber); op[len(op)-1] == 's' && (k == lua.LNil || ok && n != n) {
			c.Stop()
		}
		var id, ok = luaKey(k)
		var names = []string{"dir/file", "none", "other", "", "dir", "dir/", "Dir/file", "/dir/file", "dir//file"}
		if n, ok := k.(lua.LNumber); ok && n > 1000 && strings.HasSuffix(op, "s") {
			names = names[:2] // tables with large keys are slow
		}
		for _, name := range names {
			for _, has := range []bool{false, true} {
				for _, v := range luaValues(l) {
					var p, m = l.newPkg(c), newLuaSet()
					var tags = []kit.Tag{{ID: 10, Val: []byte("text/plain")}}
					if has && ok && !luaProtected(id) && id != 10 {
						tags = append(tags, kit.Tag{ID: id, Val: []byte{8, 7, 6, 5, 4, 3, 2, 1}})
					}
					m.newFile(p, "dir/file", 0, 100, tags...)
					m.newFile(p, "other", 100, 3)
					if op != "gettag" || ok {
						var o = &luaOp{op: op, name: name, k: k, v: lua.LString("00"), kv: []lua.LValue{k, lua.LString("00")}}
						if op == "deltags" {
							o.kv[1] = v
						} else if luaKinds[id] == 't' {
							o.v, o.kv[1] = lua.LNumber(77), lua.LNumber(77)
						}
						if _, err := o.run(p, m); err != nil {
							c.Fail("%v", err)
						}
						if m.files[name] != nil && ok && (op == "hastag" || op == "gettag") {
							if err := m.checkTag(p, name, id, k); err != nil {
								c.Fail("%v", err)
							}
						}
					} else {
						if res, err := p.do("gettag", lua.LString(name), k); err == nil {
							c.Fail("gettag(%q, %s) is %s, want error", name, luaStr(k), luaStrs(res))
						}
					}
					if op != "deltags" {
						break
					}
				}
			}
		}
		c.Outcome(op, luaStr(k))
	}}
}

// c16history: sequences of operations.
func c16history(tier string) mc.Scenario {
	var str = func(s string) lua.LValue { return lua.LString(s) }
	var num = func(f float64) lua.LValue { return lua.LNumber(f) }
	var table = func(kv ...lua.LValue) []lua.LValue { return kv }
	var depth = pick(tier, 3, 4)
	var ops []*luaOp
	for _, name := range []string{"a", "b"} {
		ops = append(ops,
			&luaOp{op: "settag", name: name, k: str("label"), v: str("new label")},
			&luaOp{op: "settag", name: name, k: num(110), v: str("")},
			&luaOp{op: "settag", name: name, k: str("fid"), v: num(300)},
			&luaOp{op: "settag", name: name, k: str("md5"), v: str("0011ff")},
			&luaOp{op: "settag", name: name, k: str("size"), v: num(1)},
			&luaOp{op: "addtag", name: name, k: str("label"), v: str("added")},
			&luaOp{op: "addtag", name: name, k: str("fid"), v: str("12")},
			&luaOp{op: "addtag", name: name, k: str("mtime"), v: num(1500)},
			&luaOp{op: "deltag", name: name, k: str("label")},
			&luaOp{op: "deltag", name: name, k: num(4)},
			&luaOp{op: "deltag", name: name, k: str("path")},
			&luaOp{op: "settags", name: name, kv: table(str("mtime"), str("2021-02-03T04:05:06Z"), str("fid"), num(1), num(150), lua.LTrue)},
			&luaOp{op: "settags", name: name, kv: table(str("label"), str("bad"), str("md5"), str("x"))},
			&luaOp{op: "settags", name: name, kv: table(str("label"), str("bad"), str("offset"), num(0))},
			&luaOp{op: "addtags", name: name, kv: table(str("label"), str("set"), str("md5"), str("ffffff"))},
			&luaOp{op: "addtags", name: name, kv: table(str("comment"), str("set"), str("none"), str("ffffff"))},
			&luaOp{op: "deltags", name: name, kv: table(str("label"), str("any"), str("md5"), lua.LTrue, num(150), num(-1))},
			&luaOp{op: "deltags", name: name, kv: table(str("mtime"), str("any"), str("size"), lua.LTrue)},
			&luaOp{op: "deltags", name: name},
			&luaOp{op: "settags", name: name},
		)
	}
	ops = append(ops,
		&luaOp{op: "setupinfo", kv: table(str("label"), str("info"), str("version"), num(1.5), str("mtime"), num(1e12))},
		&luaOp{op: "setupinfo"},
		&luaOp{op: "setupinfo", kv: table(str("label"), lua.LTrue, str("sha1"), lua.LFalse)},
		&luaOp{op: "setupinfo", kv: table(str("author"), str("me"))},
		&luaOp{op: "label", v: str("package label")},
		&luaOp{op: "label", v: str("")},
		&luaOp{op: "label", v: lua.LTrue},
		&luaOp{op: "settag", name: "none", k: str("label"), v: str("new label")},
	)
	return mc.Scenario{Name: "sequences of operations", ShardDepth: depth - 1, Run: func(c *mc.C) {
		var l = vm()
		var p, m = l.newPkg(c), newLuaSet()
		m.newFile(p, "a", 0, 100, kit.Tag{ID: 110, Val: []byte("origin")}, kit.Tag{ID: 4, Val: []byte{1}})
		m.newFile(p, "b", 100, 5)
		for i := 0; i < depth; i++ {
			var o = ops[c.Choose(len(ops))]
			c.Logf("%v", o)
			var err error
			if m, err = o.run(p, m); err != nil {
				c.Fail("%v", err)
			}
			if err = m.check(p, []uint16{0, 1, 4, 5, 20, 110, 116, 150}); err != nil {
				c.Fail("after %v: %v", o, err)
			}
			c.Prune(depth-i-1, m.key())
		}
		c.Outcome(m.key())
	}}
}

// c16bulk: tables of several tags.
func c16bulk(tier string) mc.Scenario {
	var ops = []string{"settags", "addtags", "deltags", "setupinfo"}
	var n = pick(tier, 3, 4)
	return mc.Scenario{Name: "tables of tags", Run: func(c *mc.C) {
		var l = vm()
		var op = ops[c.Choose(len(ops))]
		var vals = []lua.LValue{lua.LString("0a0b"), lua.LNumber(70000), lua.LString("1"), lua.LTrue, lua.LString("x y"), lua.LNumber(-1), l.ls.NewTable()}
		var keys = []lua.LValue{lua.LString("label"), lua.LNumber(4), lua.LString("crc32"), lua.LNumber(5), lua.LNumber(1), lua.LString("none"), lua.LNumber(150), lua.LNumber(4.5), lua.LNumber(-65532), lua.LString("mime")}
		var p, m = l.newPkg(c), newLuaSet()
		m.newFile(p, "other", 100, 3, kit.Tag{ID: 110, Val: []byte("x")})
		m.newFile(p, "f", 0, 100, kit.Tag{ID: 110, Val: []byte("x")}, kit.Tag{ID: 150, Val: []byte{1, 2}}, kit.Tag{ID: 4, Val: []byte{1}})
		m.info = map[uint16]string{110: "info"}
		p.p.SetInfo(kit.EncTags([]kit.Tag{{ID: 110, Val: []byte("info")}}))
		var o = &luaOp{op: op, name: "f"}
		var from int
		for i := 0; i < n; i++ {
			var k = from + c.Choose(len(keys)+1-from)
			if k == len(keys) {
				break
			}
			from = k + 1
			o.kv = append(o.kv, keys[k], vals[c.Choose(len(vals))])
		}
		c.Logf("%v", o)
		var x, err = o.run(p, m)
		if err != nil {
			c.Fail("%v", err)
		}
		if err = x.check(p, []uint16{4, 5, 12, 110, 150}); err != nil {
			c.Fail("after %v: %v", o, err)
		}
		c.State(x.key())
		c.Outcome(o.String())
	}}
}

// c16put: tags given at packing.
func c16put(tier string) mc.Scenario {
	return mc.Scenario{Name: "tags at packing", Run: func(c *mc.C) {
		var l = vm()
		var dir = scratchDir(c)
		var split = c.Bool()
		var file = c.Bool()
		var auto = c.Bool() // automatic tags are on
		var p, m = l.newPkg(c), newLuaSet()
		var args = []lua.LValue{lua.LString(dir + "/p.wpk")}
		if split {
			args = append(args, lua.LString(dir+"/p.wpf"))
		}
		var _, err = p.do("begin", args...)
		c.NoErr(err, "begin")
		c.Defer(func() { p.do("finalize") })
		var put = func(name string, tags ...lua.LValue) error {
			var args = []lua.LValue{lua.LString(name), lua.LString("data of " + name)}
			if file {
				args[1] = lua.LString(dir + "/src")
				c.NoErr(os.WriteFile(dir+"/src", []byte("data of "+name), 0644), "write")
			}
			if tags != nil {
				args = append(args, p.table(tags...))
			}
			var op = "putdata"
			if file {
				op = "putfile"
			}
			var _, err = p.do(op, args...)
			return err
		}
		c.NoErr(put("first", lua.LString("comment"), lua.LString("x")), "put")
		if auto {
			for _, name := range []string{"autofid", "automime", "md5"} {
				c.NoErr(p.set(name, lua.LTrue), name)
			}
		}
		m.files, err = entries(&p.p.Package)
		c.NoErr(err, "entries")
		if s := m.files["first"][116]; s != "x" {
			c.Fail("tag of putdata is %q", s)
		}
		var pool = [][]lua.LValue{
			{lua.LString("label"), lua.LString("text")}, {lua.LString("fid"), lua.LNumber(77)}, {lua.LString("mime"), lua.LString("a/b")}, {lua.LString("md5"), lua.LString("00ff")}, {lua.LNumber(700), lua.LTrue},
			{lua.LString("md5"), lua.LString("0")}, {lua.LString("size"), lua.LNumber(1)}, {lua.LString("path"), lua.LString("other")}, {lua.LString("none"), lua.LNumber(1)}, {lua.LNumber(65536 + 3), lua.LString("x")}, {lua.LString("author"), l.ls.NewTable()}, {lua.LTrue, lua.LNumber(1)},
		}
		var kv []lua.LValue
		var n = c.Choose(3)
		var from int
		for i := 0; i < n; i++ {
			var k = from + c.Choose(len(pool)-from)
			kv = append(kv, pool[k]...)
			if from = k + 1; from == len(pool) {
				break
			}
		}
		var isfail bool
		var want = map[uint16]string{}
		for i := 0; i < len(kv); i += 2 {
			var id, ok = luaKey(kv[i])
			if !ok || luaProtected(id) {
				isfail = true
				continue
			}
			var b, ok2, _ = luaTag(id, kv[i+1])
			isfail = isfail || !ok2
			want[id] = string(b)
		}
		var o = (&luaOp{op: "put", name: "second", kv: kv}).String()
		c.Logf("%s, by file %v, automatic tags %v", o, file, auto)
		err = put("second", kv...)
		if (err != nil) != isfail {
			c.Fail("%s: %v, want error %v", o, err, isfail)
		}
		var got, e = entries(&p.p.Package)
		c.NoErr(e, "entries")
		if isfail {
			if got["second"] != nil {
				c.Fail("%s is failed, but file is in package with tags %s", o, tagsStr(got["second"]))
			}
		} else {
			for id, tag := range want {
				if got["second"][id] != tag {
					c.Fail("%s: tags are %s", o, tagsStr(got["second"]))
				}
			}
			delete(got, "second")
		}
		if tagsStr(got["first"]) != tagsStr(m.files["first"]) || len(got) != 1 {
			c.Fail("%s changed other file: %s, was %s", o, tagsStr(got["first"]), tagsStr(m.files["first"]))
		}
		// name is free after the fail
		if isfail {
			c.NoErr(put("second"), "packing after the fail")
		}
		_, err = p.do("finalize")
		c.NoErr(err, "finalize")
		var pkg, e2 = kit.OpenReal(dir+"/p.wpk", map[bool]string{true: dir + "/p.wpf", false: dir + "/p.wpk"}[split], 0)
		c.NoErr(e2, "open")
		defer pkg.Close()
		for _, name := range []string{"first", "second"} {
			if b, err := pkg.ReadFile(name); err != nil || string(b) != "data of "+name {
				c.Fail("content of %q is %q, %v", name, b, err)
			}
		}
		for id, tag := range want {
			if isfail {
				break
			}
			if ts, _ := pkg.GetTagset("second"); true {
				if v, _ := ts.Get(id); string(v) != tag {
					c.Fail("%s: tag %d is %q after reopening", o, id, v)
				}
			}
		}
		c.State(o, fmt.Sprint(split, file, auto))
		c.Outcome(o, fmt.Sprint(split, file, auto))
	}}
}

// c16conv: conversions for scripts.
func c16conv(tier string) mc.Scenario {
	return mc.Scenario{Name: "conversions of scripts", ShardDepth: 1, Run: func(c *mc.C) {
		var l = vm()
		var call = func(name string, args ...lua.LValue) (lua.LValue, error) {
			c.Step()
			var res, err = l.call(l.ls.GetGlobal(name), args...)
			if err == nil && len(res) != 1 {
				c.Fail("%s returns %s", name, luaStrs(res))
			}
			if err != nil {
				return nil, err
			}
			return res[0], nil
		}
		var a = c.Choose(256)
		for b := -1; b < 256; b++ {
			var s = string([]byte{byte(a)})
			if b >= 0 {
				s += string([]byte{byte(b)})
			}
			var h, err = call("bin2hex", lua.LString(s))
			if err != nil || h != lua.LString(fmt.Sprintf("%x", s)) {
				c.Fail("bin2hex(%q) is %v, %v", s, h, err)
			}
			for _, hs := range []string{h.String(), strings.ToUpper(h.String())} {
				var v, err = call("hex2bin", lua.LString(hs))
				if err != nil || v != lua.LString(s) {
					c.Fail("hex2bin(%q) is %v, %v", hs, v, err)
				}
			}
			var v, e = call("hex2bin", lua.LString(s))
			var want, e2 = hex.DecodeString(s)
			if (e != nil) != (e2 != nil) || e == nil && v != lua.LString(want) {
				c.Fail("hex2bin(%q) is %v, %v", s, v, e)
			}
		}
		// times
		for _, base := range []int64{0, 1, 999, 1000, 1e12, 1596212345678, -1, -999, -1001, -62135596800000, 253402300799000} {
			var ms = base + int64(a)*7
			var s, err = call("milli2time", lua.LNumber(ms))
			if err != nil || s != lua.LString(time.UnixMilli(ms).Format(iso8601)) {
				c.Fail("milli2time(%d) is %v, %v", ms, s, err)
			}
			if y := time.UnixMilli(ms).Year(); y >= 0 && y <= 9999 {
				var v, err = call("time2milli", s)
				if err != nil || v != lua.LNumber(ms) {
					c.Fail("time2milli(%v) is %v, %v", s, v, err)
				}
			}
			const layout = "02 Jan 06 15:04 MST"
			if s, err = call("milli2time", lua.LNumber(ms), lua.LString(layout)); err != nil || s != lua.LString(time.UnixMilli(ms).Format(layout)) {
				c.Fail("milli2time(%d) with layout is %v, %v", ms, s, err)
			}
		}
		if v, err := call("time2milli", lua.LString("31 Jan 06 15:04 UTC"), lua.LString("02 Jan 06 15:04 MST")); err != nil || v != lua.LNumber(1138719840000) {
			c.Fail("time2milli with layout is %v, %v", v, err)
		}
		if v, err := call("time2milli", lua.LString("31 Jan 06")); err == nil {
			c.Fail("time2milli of wrong text is %v", v)
		}
		c.Outcome(fmt.Sprint(a))
	}}
}

func init() {
	reg(&mc.Prop{
		ID: "C16",
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{c16single(tier), c16keys(tier), c16history(tier), c16bulk(tier), c16many(tier), c16put(tier), c16conv(tier)}
		},
		Assumptions: []string{
			"fractions of unsigned tags and of milliseconds are cut or refused, both are accepted",
			"order of tags inside of a set is not observed by scripts",
		},
		Rule: "real script functions are called through the script machine; tags and results are compared with the model of documented rules after every call",
		Bounds: func(tier string) string {
			return fmt.Sprintf("every of %d keys with every of %d values by every operation at 4 prior states; sequences of %d operations of 48; tables up to %d of 10 keys with 7 values; packing with up to 2 of 12 tags; up to %d tags at once", len(luaKeys(vm())), len(luaValues(vm())), pick(tier, 3, 4), pick(tier, 3, 4), pick(tier, 4097, 13000))
		},
	})
}
