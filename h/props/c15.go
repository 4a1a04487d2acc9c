package props

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/luawpk"
	"github.com/schwarzlichtbezirk/wpk/util"

	"vh/mc"
)

func isVar(b byte, first bool) bool {
	return b == '_' || b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z' || !first && b >= '0' && b <= '9'
}

// varEnd returns end of the variable name at s[i:], or i if there is no name.
func varEnd(s string, i int) int {
	if i >= len(s) || !isVar(s[i], true) {
		return i
	}
	for i < len(s) && isVar(s[i], false) {
		i++
	}
	return i
}

// refEnvfmt substitutes variables: string is read from left to right, each
// well-formed reference is a unit, any other character stands for itself.
func refEnvfmt(s string, lookup func(string) (string, bool)) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		var name, end = "", 0
		switch {
		case s[i] == '%':
			if j := varEnd(s, i+1); j > i+1 && j < len(s) && s[j] == '%' {
				name, end = s[i+1:j], j+1
			}
		case s[i] == '$' && i+1 < len(s) && s[i+1] == '{':
			if j := varEnd(s, i+2); j > i+2 && j < len(s) && s[j] == '}' {
				name, end = s[i+2:j], j+1
			}
		case s[i] == '$':
			if j := varEnd(s, i+1); j > i+1 {
				name, end = s[i+1:j], j
			}
		}
		if end == 0 {
			sb.WriteByte(s[i])
			i++
			continue
		}
		if v, ok := lookup(name); ok {
			sb.WriteString(v)
		} else {
			sb.WriteString(s[i:end])
		}
		i = end
	}
	return sb.String()
}

func refMap(s string, f func(b byte) byte) string {
	var b = []byte(s)
	for i := range b {
		b[i] = f(b[i])
	}
	return string(b)
}

func refSlash(b byte) byte {
	if b == '\\' {
		return '/'
	}
	return b
}

func refLower(b byte) byte {
	if b >= 'A' && b <= 'Z' {
		return b - 'A' + 'a'
	}
	return b
}

func refUpper(b byte) byte {
	if b >= 'a' && b <= 'z' {
		return b - 'a' + 'A'
	}
	return b
}

func refKey(b byte) byte { return refSlash(refLower(b)) }

func refJoin(dir, base string) string {
	switch {
	case dir == "" || dir == ".":
		return base
	case base == "" || base == ".":
		return dir
	}
	return strings.TrimSuffix(dir, "/") + "/" + strings.TrimPrefix(base, "/")
}

func refName(s string) string {
	if i := strings.LastIndexAny(s, "/\\"); i >= 0 {
		s = s[i+1:]
	}
	s, _, _ = strings.Cut(s, ".")
	return s
}

// words calls f for all strings of the alphabet with given prefix and
// up to n more letters.
func words(abc []string, prefix string, n int, f func(s string)) {
	f(prefix)
	if n > 0 {
		for _, a := range abc {
			words(abc, prefix+a, n-1, f)
		}
	}
}

// prefixes selects up to n leading letters by choices. Returns prefix and true
// if it can be continued.
func wordPrefix(c *mc.C, abc []string, n int) (string, bool) {
	var s string
	for i := 0; i < n; i++ {
		var k = c.Choose(len(abc) + 1)
		if k == 0 {
			return s, false
		}
		s += abc[k-1]
	}
	return s, true
}

func fresh(s string) string { return string([]byte(s)) }

// pureStr calls f with copy of s and checks that it is not changed.
func pureStr(c *mc.C, name, s string, f func(s string) string, want string) {
	var in = fresh(s)
	var got = f(in)
	if in != s {
		c.Fail("%s changed its input %q to %q", name, s, in)
	}
	if got != want {
		c.Fail("%s(%q) is %q, want %q", name, s, got, want)
	}
}

func c15case(c *mc.C, s string) {
	c.Step()
	pureStr(c, "ToSlash", s, util.ToSlash, refMap(s, refSlash))
	pureStr(c, "ToLower", s, util.ToLower, refMap(s, refLower))
	pureStr(c, "ToUpper", s, util.ToUpper, refMap(s, refUpper))
	pureStr(c, "ToKey", s, util.ToKey, refMap(s, refKey))
	pureStr(c, "PathName", s, util.PathName, refName(s))
}

// c15bytes: every one and two bytes string, and the third of special ones.
func c15bytes(tier string) mc.Scenario {
	return mc.Scenario{Name: "conversions of every byte", ShardDepth: 1, Run: func(c *mc.C) {
		var a = byte(c.Choose(256))
		c15case(c, string([]byte{a}))
		for b := 0; b < 256; b++ {
			c15case(c, string([]byte{a, byte(b)}))
			for _, x := range []byte("Aa/\\.@[`{\xc3\xe1") {
				c15case(c, string([]byte{a, byte(b), x}))
				c15case(c, string([]byte{x, a, byte(b)}))
			}
		}
		c.Outcome(fmt.Sprint(a))
	}}
}

var c15abc = []string{"a", "Z", ".", "/", "\\", "й"}

// c15words: conversions of longer strings.
func c15words(tier string) mc.Scenario {
	var n = pick(tier, 7, 10)
	return mc.Scenario{Name: "conversions of strings", Run: func(c *mc.C) {
		var s, cont = wordPrefix(c, c15abc, 3)
		if !cont {
			c15case(c, s)
		} else {
			words(c15abc, s, n-3, func(s string) { c15case(c, s) })
		}
		c.State(s)
		c.Outcome(s)
	}}
}

// c15join: all pairs of strings.
func c15join(tier string) mc.Scenario {
	var abc = []string{"a", ".", "/", "\\"}
	var n = pick(tier, 4, 5)
	return mc.Scenario{Name: "joining", Run: func(c *mc.C) {
		var dir, cont = wordPrefix(c, abc, 3)
		var k = n - 3
		if !cont {
			k = 0
		}
		words(abc, dir, k, func(dir string) {
			words(abc, "", n, func(base string) {
				c.Step()
				var d, b = fresh(dir), fresh(base)
				var want = refJoin(dir, base)
				if got := util.JoinPath(d, b); got != want {
					c.Fail("JoinPath(%q, %q) is %q, want %q", dir, base, got, want)
				}
				if got := util.JoinFilePath(d, b); got != want {
					c.Fail("JoinFilePath(%q, %q) is %q, want %q", dir, base, got, want)
				}
				if d != dir || b != base {
					c.Fail("JoinPath(%q, %q) changed its input", dir, base)
				}
			})
		})
		c.State(dir)
		c.Outcome(dir)
	}}
}

// c15env: environment variables.
func c15env(tier string) mc.Scenario {
	var abc = []string{"$", "{", "}", "%", "A", "B", "1", "/"}
	var n = pick(tier, 7, 8)
	type env struct {
		m, os map[string]string
	}
	var envs = []env{
		{nil, map[string]string{"A": "x"}},
		{map[string]string{"A": "", "AB": "$A%B%"}, map[string]string{"A": "os", "B": "longer value"}},
		{map[string]string{"B": "/b/b/b"}, map[string]string{"B": "other", "A1": "", "BA": "%"}},
		{map[string]string{}, nil},
		{map[string]string{"A": "й", "B": "", "A1": "$", "B1A": "}"}, nil},
	}
	return mc.Scenario{Name: "environment variables", Run: func(c *mc.C) {
		var e = envs[c.Choose(len(envs))]
		var s, cont = wordPrefix(c, abc, 3)
		var k = n - 3
		if !cont {
			k = 0
		}
		for name, v := range e.os {
			os.Setenv(name, v)
			c.Defer(func() { os.Unsetenv(name) })
		}
		var lookup = func(name string) (v string, ok bool) {
			if v, ok = e.m[name]; !ok {
				v, ok = e.os[name]
			}
			return
		}
		words(abc, s, k, func(s string) {
			c.Step()
			pureStr(c, fmt.Sprintf("Envfmt with map %q and environment %q", e.m, e.os), s, func(s string) string { return util.Envfmt(s, e.m) }, refEnvfmt(s, lookup))
		})
		c.State(s, fmt.Sprint(e))
		c.Outcome(s, fmt.Sprint(e))
	}}
}

// c15envlong: sequences of tokens with longer names and values.
func c15envlong(tier string) mc.Scenario {
	var abc = []string{"$VAR", "${VAR}", "%VAR%", "$_v9", "${NO}", "%NO%", "$NO", "/bin", "$", "%", "${VAR", "%VAR", "}", "й\xff", "$VAR1"}
	var n = pick(tier, 4, 5)
	return mc.Scenario{Name: "sequences of references", Run: func(c *mc.C) {
		var kind = c.Choose(3)
		var m map[string]string
		var env = map[string]string{"VAR": "/go", "_v9": strings.Repeat("long/", 9)}
		if kind == 1 {
			m = map[string]string{"VAR": "/any/path", "_v9": ""}
		} else if kind == 2 {
			m, env = env, map[string]string{"VAR": "x"}
		}
		for name, v := range env {
			os.Setenv(name, v)
			c.Defer(func() { os.Unsetenv(name) })
		}
		var lookup = func(name string) (v string, ok bool) {
			if v, ok = m[name]; !ok {
				v, ok = env[name]
			}
			return
		}
		var s, cont = wordPrefix(c, abc, 2)
		var k = n - 2
		if !cont {
			k = 0
		}
		words(abc, s, k, func(s string) {
			c.Step()
			pureStr(c, fmt.Sprintf("Envfmt with map %q and environment %q", m, env), s, func(s string) string { return util.Envfmt(s, m) }, refEnvfmt(s, lookup))
		})
		c.State(s, fmt.Sprint(kind))
		c.Outcome(s, fmt.Sprint(kind))
	}}
}

// c15envnext: the environment is changed between formattings.
func c15envnext(tier string) mc.Scenario {
	var depth = pick(tier, 3, 4)
	var vals = []string{"", "x", "other value"}
	return mc.Scenario{Name: "changes of environment", Run: func(c *mc.C) {
		var env, m = map[string]string{}, map[string]string{}
		for _, name := range []string{"VHA", "VHB"} {
			os.Unsetenv(name)
			c.Defer(func() { os.Unsetenv(name) })
		}
		for i := 0; i < depth; i++ {
			var op = c.Choose(12)
			var name = []string{"VHA", "VHB"}[op%2]
			switch k := op / 2; {
			case k < 3:
				env[name] = vals[k]
				os.Setenv(name, vals[k])
			case k == 3:
				delete(env, name)
				os.Unsetenv(name)
			case k == 4:
				m[name] = "by map"
			default:
				delete(m, name)
			}
			c.Logf("variables %q, map %q", env, m)
			for _, s := range []string{"$VHA", "${VHB}/$VHA", "%VHA%%VHB%", "$VHB.$VHC"} {
				for _, m := range []map[string]string{m, nil} {
					c.Step()
					var lookup = func(name string) (v string, ok bool) {
						if v, ok = m[name]; !ok {
							v, ok = env[name]
						}
						return
					}
					pureStr(c, fmt.Sprintf("Envfmt with map %q and environment %q", m, env), s, func(s string) string { return util.Envfmt(s, m) }, refEnvfmt(s, lookup))
				}
			}
		}
		c.State(fmt.Sprint(env, m))
		c.Outcome(fmt.Sprint(env, m))
	}}
}

// luaCall calls function by its global path with given arguments.
func luaCall(ls *lua.LState, fn lua.LValue, nret int, args ...lua.LValue) (res []lua.LValue, err error) {
	var top = ls.GetTop()
	err = ls.CallByParam(lua.P{Fn: fn, NRet: nret, Protect: true}, args...)
	for i := top + 1; i <= ls.GetTop(); i++ {
		res = append(res, ls.Get(i))
	}
	ls.SetTop(top)
	return
}

// c15lua: path library of scripts.
func c15lua(tier string) mc.Scenario {
	var abc = []string{"a", "B", ".", "/", "\\", "*", "?", "[", "]", "$", "%"}
	var n = pick(tier, 3, 4)
	return mc.Scenario{Name: "path library of scripts", ShardDepth: 2, Run: func(c *mc.C) {
		var s, cont = wordPrefix(c, abc, 2)
		var k = n - 2
		if !cont {
			k = 0
		}
		os.Setenv("B", "val")
		c.Defer(func() { os.Unsetenv("B") })
		var ls = lua.NewState()
		c.Defer(ls.Close)
		luawpk.InitLuaVM(ls)
		var mod = ls.GetGlobal("path").(*lua.LTable)
		var call = func(name string, nret int, args ...string) ([]lua.LValue, error) {
			c.Step()
			var a []lua.LValue
			for _, s := range args {
				a = append(a, lua.LString(s))
			}
			return luaCall(ls, mod.RawGetString(name), nret, a...)
		}
		var want = func(name string, args []string, res ...lua.LValue) {
			var got, err = call(name, len(res), args...)
			if err != nil {
				c.Fail("path.%s(%q): %v", name, args, err)
			}
			for i := range res {
				if got[i] != res[i] {
					c.Fail("path.%s(%q) is %v, want %v", name, args, got, res)
				}
			}
		}
		var names = []string{"", "a", "B", "aB", "a.B", "a/B", ".", "/", "[", "*"}
		words(abc, s, k, func(s string) {
			var a = []string{s}
			want("toslash", a, lua.LString(strings.ReplaceAll(s, "\\", "/")))
			want("clean", a, lua.LString(path.Clean(s)))
			want("volume", a, lua.LString(""))
			want("dir", a, lua.LString(path.Dir(s)))
			want("base", a, lua.LString(path.Base(s)))
			want("name", a, lua.LString(refName(s)))
			want("ext", a, lua.LString(path.Ext(s)))
			var d, f = path.Split(s)
			want("split", a, lua.LString(d), lua.LString(f))
			want("envfmt", a, lua.LString(refEnvfmt(s, os.LookupEnv)))
			for _, name := range names {
				want("join", []string{s, name, "x"}, lua.LString(path.Join(s, name, "x")))
				want("join", []string{name, s}, lua.LString(path.Join(name, s)))
				var ok, err = path.Match(s, name)
				if err == nil {
					want("match", []string{name, s}, lua.LBool(ok))
				} else if res, err := call("match", 1, name, s); err == nil {
					c.Fail("path.match(%q, %q) is %v for malformed pattern", name, s, res)
				}
			}
		})
		want("join", nil, lua.LString(""))
		if sep := mod.RawGetString("sep"); sep != lua.LString("/") {
			c.Fail("path.sep is %v", sep)
		}
		c.State(s)
		c.Outcome(s)
	}}
}

// c15disk: functions that look at the disk.
func c15disk(tier string) mc.Scenario {
	return mc.Scenario{Name: "enumeration by path library", Run: func(c *mc.C) {
		var dir = scratchDir(c)
		var n = c.Choose(4)
		var names = map[string]bool{}
		for _, name := range []string{"a.txt", "b.txt", "c"}[:n] {
			names[name] = true
			c.NoErr(os.WriteFile(dir+"/"+name, nil, 0644), "write")
		}
		var sub = c.Bool()
		if sub {
			names["sub"] = true
			c.NoErr(os.Mkdir(dir+"/sub", 0755), "mkdir")
		}
		var ls = lua.NewState()
		c.Defer(ls.Close)
		luawpk.InitLuaVM(ls)
		var mod = ls.GetGlobal("path").(*lua.LTable)
		var lim = c.Choose(6) - 1 // 4 is no argument
		var args = []lua.LValue{lua.LString(dir)}
		var count = len(names)
		if lim < 4 {
			args = append(args, lua.LNumber(lim))
			if lim > 0 {
				count = min(lim, count)
			}
		}
		c.Step()
		var res, err = luaCall(ls, mod.RawGetString("enum"), 1, args...)
		if count == 0 && lim > 0 && lim < 4 {
			// end of folder may be reported as error
		} else if err != nil {
			c.Fail("path.enum with limit %d at %d entries: %v", lim, len(names), err)
		} else {
			var got = map[string]bool{}
			res[0].(*lua.LTable).ForEach(func(_, v lua.LValue) {
				if !names[v.String()] || got[v.String()] {
					c.Fail("path.enum returned %q", v.String())
				}
				got[v.String()] = true
			})
			if len(got) != count || res[0].(*lua.LTable).Len() != count {
				c.Fail("path.enum with limit %d at %d entries returned %d", lim, len(names), len(got))
			}
		}
		for _, pat := range []string{"*", "*.txt", "c", "none", "s*"} {
			c.Step()
			var top = ls.GetTop()
			var err = ls.CallByParam(lua.P{Fn: mod.RawGetString("glob"), NRet: lua.MultRet, Protect: true}, lua.LString(dir+"/"+pat))
			if err != nil {
				c.Fail("path.glob(%q): %v", pat, err)
			}
			var got = map[string]bool{}
			for i := top + 1; i <= ls.GetTop(); i++ {
				got[ls.Get(i).String()] = true
			}
			ls.SetTop(top)
			var want int
			for name := range names {
				if ok, _ := path.Match(pat, name); ok {
					want++
					if !got[dir+"/"+name] {
						c.Fail("path.glob(%q) has no %q", pat, name)
					}
				}
			}
			if len(got) != want {
				c.Fail("path.glob(%q) returned %d names, want %d", pat, len(got), want)
			}
		}
		for _, pat := range []string{"[", dir + "/[", dir + "/[a"} {
			// malformed pattern is seen only at matching with some name
			if pat != "[" && len(names) == 0 {
				continue
			}
			c.Step()
			if _, err = luaCall(ls, mod.RawGetString("glob"), 1, lua.LString(pat)); err == nil {
				c.Fail("path.glob(%q) has no error", pat)
			}
		}
		if _, err = luaCall(ls, mod.RawGetString("enum"), 1, lua.LString(dir+"/none")); err == nil {
			c.Fail("path.enum of absent folder has no error")
		}
		if names["a.txt"] {
			if _, err = luaCall(ls, mod.RawGetString("enum"), 1, lua.LString(dir+"/a.txt")); err == nil {
				c.Fail("path.enum of file has no error")
			}
		}
		if n := heldOf(c, dir).fds; n != 0 {
			c.Fail("%d files are left open by path library", n)
		}
		// checkfile
		for _, name := range []string{"a.txt", "sub", "none"} {
			c.Step()
			var res, err = luaCall(ls, ls.GetGlobal("checkfile"), 2, lua.LString(dir+"/"+name))
			if err != nil {
				c.Fail("checkfile(%q): %v", name, err)
			}
			if res[0] != lua.LBool(names[name]) || names[name] && res[1] != lua.LBool(name != "sub") {
				c.Fail("checkfile(%q) is %v", name, res)
			}
		}
		c.State(fmt.Sprint(n, sub, lim))
		c.Outcome(fmt.Sprint(n, sub, lim))
	}}
}

// c15names: names of package parts and of temporary files.
func c15names(tier string) mc.Scenario {
	var abc = []string{"a", ".", "/", "w", "й"}
	var n = pick(tier, 6, 8)
	return mc.Scenario{Name: "names of files", Run: func(c *mc.C) {
		var check = func(s string) {
			var cut = s
			for i := len(s) - 1; i >= 0 && s[i] != '/'; i-- {
				if s[i] == '.' {
					cut = s[:i]
					break
				}
			}
			c.Step()
			if got := wpk.MakeTagsPath(fresh(s)); got != cut+".wpt" {
				c.Fail("MakeTagsPath(%q) is %q", s, got)
			}
			if got := wpk.MakeDataPath(fresh(s)); got != cut+".wpf" {
				c.Fail("MakeDataPath(%q) is %q", s, got)
			}
			if got, want := wpk.TempPath(fresh(s)), refJoin(filepath.ToSlash(os.TempDir()), s); got != want {
				c.Fail("TempPath(%q) is %q", s, got)
			}
		}
		var s, cont = wordPrefix(c, abc, 3)
		if !cont {
			check(s)
		} else {
			words(abc, s, n-3, check)
		}
		c.State(s)
		c.Outcome(s)
	}}
}

// c15exist: existence of files and directories.
func c15exist(tier string) mc.Scenario {
	return mc.Scenario{Name: "existence of files", Solo: true, Run: func(c *mc.C) {
		var dir = scratchDir(c)
		c.NoErr(os.MkdirAll(dir+"/sub/deep", 0755), "mkdir")
		c.NoErr(os.WriteFile(dir+"/file", []byte("x"), 0644), "write")
		c.NoErr(os.WriteFile(dir+"/sub/.empty", nil, 0), "write")
		for name, to := range map[string]string{"lfile": "file", "ldir": "sub", "lbad": "none", "lloop": "lloop"} {
			c.NoErr(os.Symlink(to, dir+"/"+name), "link")
		}
		const file, folder, none, bad = 1, 2, 0, 3
		for name, kind := range map[string]int{
			"file": file, "sub": folder, "sub/": folder, "sub/deep": folder, "sub/.empty": file, ".": folder, "sub/..": folder,
			"none": none, "sub/none": none, "none/none": none, "lfile": file, "ldir": folder, "ldir/.empty": file, "lbad": none,
			"file/x": bad, "file/": bad, "lloop": bad, strings.Repeat("n", 300): bad, "a\x00b": bad,
		} {
			for _, p := range []string{dir + "/" + name, dir + "//" + name} {
				c.Step()
				var is, err = wpk.FileExists(fresh(p))
				if is != (kind == file) || (err != nil) != (kind == bad) {
					c.Fail("FileExists of %q is %v, %v", name, is, err)
				}
				is, err = wpk.DirExists(fresh(p))
				if is != (kind == folder) || (err != nil) != (kind == bad) {
					c.Fail("DirExists of %q is %v, %v", name, is, err)
				}
			}
		}
		c.Outcome("done")
	}}
}

func init() {
	reg(&mc.Prop{
		ID: "C15",
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{c15bytes(tier), c15words(tier), c15join(tier), c15env(tier), c15envlong(tier), c15envnext(tier), c15lua(tier), c15disk(tier), c15names(tier), c15exist(tier)}
		},
		Assumptions: []string{
			"the helpers are pure functions of their arguments and of the environment",
			"extension is all from the first dot of the last path element, as PathName defines it",
			"a reference to unknown variable is one unit: its closing percent sign does not open the next one",
		},
		Rule: "every input string of the alphabet up to the length bound, checked against an independent definition of each function",
		Bounds: func(tier string) string {
			return fmt.Sprintf("all strings of 1 and 2 bytes with special third byte; conversions: 6 letters, length up to %d; join: pairs of 4 letters strings up to %d; Envfmt: 8 letters, length up to %d with 5 environments, and %d tokens of 15 with 3 environments, after each of %d changes of variables and the map; script path library: 11 letters, length up to %d; names of package parts: 5 letters, length up to %d; 19 kinds of existing and absent files",
				pick(tier, 7, 10), pick(tier, 4, 5), pick(tier, 7, 8), pick(tier, 4, 5), pick(tier, 3, 4), pick(tier, 3, 4), pick(tier, 6, 8))
		},
	})
}
