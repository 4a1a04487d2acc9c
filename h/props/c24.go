package props

import (
	"bytes"
	"fmt"
	"log"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/schwarzlichtbezirk/wpk/luawpk"

	"vh/kit"
	"vh/mc"
)

// stmt is statement of script with its effect.
type stmt struct {
	text   string
	pack   bool // makes package of this number
	logs   bool
	fails  bool // stops with an error
	ends   bool // stops without error
	syntax bool // text is not compiled at all
}

const packText = `do local p = wpk.new() p:begin(DIR.."/p@.wpk") p:putdata("f", "data of @") p:finalize() end`

var stmts = []stmt{
	{text: packText, pack: true},
	{text: `log("line @")`, logs: true},
	{text: `assert(not pcall(function() error("x") end))`},
	{text: `assert(not pcall(function() wpk.new():load(DIR.."/absent") end))`},
	{text: `dofile(scrdir.."/inc@.lua")`, pack: true},
	{text: `assert(leak == nil) leak = nil`},
	{text: `error("stop @")`, fails: true},
	{text: `wpk.new():load(DIR.."/absent")`, fails: true},
	{text: `wpk.new():finalize()`, fails: true},
	{text: `dofile(scrdir.."/bad@.lua")`, pack: true, fails: true},
	{text: `dofile(scrdir.."/absent.lua")`, fails: true},
	{text: `dofile(scrdir.."/syntax.lua")`, fails: true},
	{text: `nothing.field = 1`, fails: true},
	{text: `do return end`, ends: true},
	{text: `if then`, syntax: true, fails: true},
}

// other ways to fail, and not to fail.
var stmtsMore = []stmt{
	{text: `error()`, fails: true},
	{text: `error({1, 2})`, fails: true},
	{text: `error(false, 2)`, fails: true},
	{text: `assert(false)`, fails: true},
	{text: `local function f() return 1 + f() end f()`, fails: true},
	{text: `coroutine.wrap(function() error("in coroutine") end)()`, fails: true},
	{text: `wpk.new():load("%s%d")`, fails: true},
	{text: `log()`, fails: true},
	{text: `checkfile({})`, fails: true},
	{text: `loadstring("if then")()`, fails: true},
	{text: `assert(not pcall(error)) assert(not pcall(error, nil)) assert(not pcall(error, {}))`},
	{text: `assert(not coroutine.resume(coroutine.create(function() error("x") end)))`},
	{text: `assert(not xpcall(function() local x = nil; x() end, function(m) return m end))`},
	{text: `assert(not pcall(dofile, scrdir.."/syntax.lua")) assert(not pcall(dofile, scrdir.."/absent.lua"))`},
	{text: `local function f() return 1 + f() end assert(not pcall(f))`},
	{text: `assert(loadstring("if then") == nil)`},
	{text: `coroutine.wrap(function() dofile(scrdir.."/inc@.lua") coroutine.yield() error("x") end)()`, pack: true},
	{text: `for i = 1, 2 do if i == 2 then dofile(scrdir.."/inc@.lua") end end`, pack: true},
	{text: `pcall(dofile, scrdir.."/bad@.lua")`, pack: true},
	{text: `log("line @", "and other") log()`, logs: true, fails: true},
}

// forms of the same text.
var textForms = []struct {
	name string
	f    func(text string) string
}{
	{"usual", func(text string) string { return text }},
	{"interpreter line", func(text string) string { return "#!/usr/bin/env build\n" + text }},
	{"comment line", func(text string) string { return "# script\n" + text }},
	{"windows lines", func(text string) string { return strings.ReplaceAll(text, "\n", "\r\n") }},
	{"no last line", func(text string) string { return strings.TrimSuffix(text, "\n") }},
	{"last comment", func(text string) string { return text + "-- end" }},
	{"one line", func(text string) string { return strings.ReplaceAll(text, "\n", " ") }},
	{"blank lines", func(text string) string { return "\n\n\t --[[ header\n]]\n" + text + "\n\n" }},
	{"large", func(text string) string { return strings.Repeat("-- "+strings.Repeat("x", 997)+"\n", 200) + text }},
	{"other characters", func(text string) string { return "local s = \"\xff\\0\xd0\x96\" -- \xff\n" + text }},
}

// script composes text of the script, prefix is for numbers of statements.
func scriptOf(stmts []stmt, dir, prefix string, list []int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "DIR = %q\n", dir)
	for i, k := range list {
		b.WriteString(strings.ReplaceAll(stmts[k].text, "@", prefix+fmt.Sprint(i)) + "\n")
	}
	b.WriteString("leak = 1\n")
	return b.String()
}

// effect returns numbers of made packages, text lines of log and whether script fails.
func effectOf(stmts []stmt, prefix string, list []int) (packs, logs []string, fails bool) {
	for _, k := range list {
		if stmts[k].syntax {
			return nil, nil, true
		}
	}
	for i, k := range list {
		if stmts[k].pack {
			packs = append(packs, prefix+fmt.Sprint(i))
		}
		if stmts[k].logs {
			logs = append(logs, "line "+prefix+fmt.Sprint(i))
		}
		if stmts[k].fails {
			return packs, logs, true
		}
		if stmts[k].ends {
			return
		}
	}
	return
}

// writeIncluded makes scripts included by others.
func writeIncluded(prefix string, n int, write func(name, text string)) {
	write("syntax.lua", "if then")
	for i := 0; i < n; i++ {
		var text = strings.ReplaceAll(packText, "@", prefix+fmt.Sprint(i))
		write(fmt.Sprintf("inc%s%d.lua", prefix, i), text)
		write(fmt.Sprintf("bad%s%d.lua", prefix, i), text+"\nerror(\"included stop\")\n"+"wpk.new():begin(DIR..\"/after.wpk\")")
	}
}

// checkPacks compares packages of the folder with expected ones.
func checkPacks(c *mc.C, dir string, packs []string) {
	var have, err = filepath.Glob(dir + "/*.wpk")
	c.NoErr(err, "glob")
	if len(have) != len(packs) {
		c.Fail("scripts made %d packages, expected %q", len(have), packs)
	}
	for _, p := range packs {
		var b, err = os.ReadFile(dir + "/p" + p + ".wpk")
		if err != nil {
			c.Fail("package p%s.wpk is not made by the script", p)
		}
		img, err := kit.Decode(b)
		if err != nil {
			c.Fail("package p%s.wpk: %v", p, err)
		}
		if len(img.Ents) != 1 {
			c.Fail("package p%s.wpk has %d files", p, len(img.Ents))
		}
		var m kit.PModel
		var tags, e = kit.TagsMap(img.Ents[0].Tags)
		c.NoErr(e, "tags")
		for id := uint16(1); id <= 3; id++ {
			delete(tags, id)
		}
		m.Add("f", []byte("data of "+p), tags)
		if err = m.CmpImage(img, b); err != nil {
			c.Fail("package p%s.wpk: %v", p, err)
		}
	}
}

// c24text: all short texts at the runner.
func c24text(tier string) mc.Scenario {
	return c24list("texts of scripts", stmts, pick(tier, 3, 4), 1)
}

// c24forms: other statements and forms of text.
func c24forms(tier string) mc.Scenario {
	return c24list("forms of scripts", append(append([]stmt{}, stmts...), stmtsMore...), pick(tier, 2, 3), len(textForms))
}

func c24list(name string, stmts []stmt, depth, forms int) mc.Scenario {
	return mc.Scenario{Name: name, ShardDepth: 2, Run: func(c *mc.C) {
		var dir = scratchDir(c)
		var list []int
		var form = textForms[c.Choose(forms)]
		for i := 0; i < depth; i++ {
			if k := c.Choose(len(stmts) + 1); k < len(stmts) {
				list = append(list, k)
			} else {
				break
			}
		}
		c.NoErr(os.Mkdir(dir+"/s", 0755), "mkdir")
		var write = func(name, text string) { c.NoErr(os.WriteFile(dir+"/s/"+name, []byte(text), 0644), "write") }
		writeIncluded("", len(list), write)
		var text = form.f(scriptOf(stmts, dir, "", list))
		write("main.lua", text)
		if c.Logging() {
			c.Logf("%s", form.name)
			for _, l := range strings.Split(strings.ReplaceAll(text[max(0, len(text)-2000):], dir, ""), "\n") {
				c.Logf("%s", l)
			}
		}
		var packs, logs, fails = effectOf(stmts, "", list)
		var out bytes.Buffer
		var prev = log.Writer()
		log.SetOutput(&out)
		c.Step()
		var err = luawpk.RunLuaVM(dir + "/s/main.lua")
		log.SetOutput(prev)
		if (err != nil) != fails {
			c.Fail("script returns error %v, but should fail: %v", err, fails)
		}
		checkPacks(c, dir, packs)
		checkLog(c, out.String(), logs)
		c.Outcome(fmt.Sprint(packs, logs, fails))
	}}
}

// checkLog finds lines in the log, each is at its own line in this order.
func checkLog(c *mc.C, out string, logs []string) {
	var n int
	for _, l := range strings.Split(out, "\n") {
		if n < len(logs) && strings.HasSuffix(l, " "+logs[n]) {
			n++
		} else if strings.Contains(l, "line ") {
			c.Fail("unexpected line in the log: %q", l)
		}
	}
	if n < len(logs) {
		c.Fail("log has no line %q: %q", logs[n], out)
	}
}

const envText = `
local f = io.open(OUT, "wb")
local function put(...) for i, v in ipairs({...}) do f:write(type(v), "=", tostring(v), "\n") end end
put(scrdir, bindir, tmpdir, buildvers, buildtime)
local function check(p) local a, b = checkfile(p) f:write(p, " ", tostring(a), " ", type(b) == "string" and "text" or tostring(b), "\n") end
for _, p in ipairs(PATHS) do check(scrdir.."/"..p) end
f:close()
`

// c24env: host variables and functions for all forms of the path.
func c24env(tier string) mc.Scenario {
	var dirs = []string{"", "sub", "sub dir/x", "sub.lua/y", "$a"}
	var forms = []func(dir, name string) string{
		func(dir, name string) string { return dir + "/" + name },
		func(dir, name string) string { return dir + "//" + name },
		func(dir, name string) string { return dir + "/./" + name },
		func(dir, name string) string { return dir + "/up/../" + name },
		func(dir, name string) string { return path.Dir(dir) + "//" + path.Base(dir) + "/./" + name },
	}
	return mc.Scenario{Name: "environment of scripts", ShardDepth: 2, Run: func(c *mc.C) {
		var root = scratchDir(c)
		var dir = path.Join(root, dirs[c.Choose(len(dirs))])
		c.NoErr(os.MkdirAll(dir+"/up", 0755), "mkdir")
		c.NoErr(os.WriteFile(dir+"/file", []byte("x"), 0644), "write")
		c.NoErr(os.WriteFile(dir+"/empty", nil, 0644), "write")
		c.NoErr(os.Symlink("file", dir+"/lfile"), "link")
		c.NoErr(os.Symlink("up", dir+"/ldir"), "link")
		c.NoErr(os.Symlink("nowhere", dir+"/lbad"), "link")
		var name = []string{"s.lua", "s", "s.x.lua", " "}[c.Choose(4)]
		var paths = []string{"file", "empty", "up", "absent", "up/absent", "file/x", "", "lfile", "ldir", "lbad", strings.Repeat("n", 300)}
		var want = []string{"true true", "true true", "true false", "false nil", "false nil", "false text", "true false", "true true", "true false", "false nil", "false text"}
		var text = fmt.Sprintf("OUT = %q\nPATHS = {", root+"/out")
		for _, p := range paths {
			text += fmt.Sprintf("%q,", p)
		}
		text += "}" + envText
		c.NoErr(os.WriteFile(dir+"/"+name, []byte(text), 0644), "write")
		var fpath = forms[c.Choose(len(forms))](dir, name)
		c.Logf("script %q", strings.ReplaceAll(fpath, root, "ROOT"))
		c.Step()
		c.NoErr(luawpk.RunLuaVM(fpath), "script")
		var b, err = os.ReadFile(root + "/out")
		c.NoErr(err, "read")
		var lines = strings.Split(string(b), "\n")
		if len(lines) != 6+len(paths) {
			c.Fail("script writes %d lines: %q", len(lines), b)
		}
		exe, err := os.Executable()
		c.NoErr(err, "executable")
		for i, w := range []string{dir, filepath.ToSlash(filepath.Dir(exe)), filepath.ToSlash(os.TempDir()), "", ""} {
			var v, ok = strings.CutPrefix(lines[i], "string=")
			if i < 3 {
				v = path.Clean(v)
			} else {
				w = []string{luawpk.BuildVers, luawpk.BuildTime}[i-3]
			}
			if !ok || v != w {
				c.Fail("host variable #%d is %q, want %q", i, strings.ReplaceAll(lines[i], root, "ROOT"), strings.ReplaceAll(w, root, "ROOT"))
			}
		}
		for i, p := range paths {
			var at = strings.LastIndexByte(lines[5+i], ' ')
			at = strings.LastIndexByte(lines[5+i][:at], ' ')
			if got := lines[5+i][at+1:]; got != want[i] {
				c.Fail("checkfile of %q is %s, want %s", p, got, want[i])
			}
		}
		c.Outcome(fpath[len(root):])
	}}
}

// c24tool: lists of scripts at the command-line builder.
func c24tool(tier string) mc.Scenario {
	var scripts = [][]int{{0}, {}, {1, 0}, {6, 0}, {0, 7}, {14}, {0, 13, 6}, {9}, nil}
	var forms = []string{"s/%s", "$D/%s", "${D}/%s", "%%D%%/%s", "./s//%s"}
	return mc.Scenario{Name: "lists of scripts", ShardDepth: 2, Run: func(c *mc.C) {
		var t = newTools(c)
		t.mkdir("s")
		var args, packs, logs []string
		var failed bool
		var prevLogs []string
		var prevFails bool
		var n = c.Choose(pick(tier, 3, 4))
		for i := 0; i < n; i++ {
			var k = c.Choose(len(scripts) + min(i, 1))
			if k == len(scripts) { // the previous script once more
				args = append(args, args[i-1])
				if !failed {
					logs, failed = append(logs, prevLogs...), prevFails
				}
				continue
			}
			var list = scripts[k]
			var p = string(rune('a'+i)) + "-"
			var name = fmt.Sprintf("%d.lua", i)
			var fail = true
			var ps, ls []string
			if list != nil {
				writeIncluded(p, 3, func(name, text string) { t.write("s/"+name, []byte(text)) })
				t.write("s/"+name, []byte(scriptOf(stmts, t.dir, p, list)))
				ps, ls, fail = effectOf(stmts, p, list)
			}
			args = append(args, fmt.Sprintf(forms[c.Choose(len(forms))], name))
			if !failed {
				packs, logs, failed = append(packs, ps...), append(logs, ls...), fail
			}
			prevLogs, prevFails = ls, fail
		}
		c.Logf("scripts %q, should fail: %v, packages %q", args, failed, packs)
		var r = t.run("build", ".", -1, []string{"D=" + t.dir + "/s"}, args...)
		c.Assert(!r.crashed(), "builder crashed: %v", r)
		if r.ok() == failed {
			c.Fail("exit code of builder is %d, but script should fail: %v", r.code, failed)
		}
		c.Assert(!failed || len(r.out) > 0, "builder fails without a message")
		checkPacks(c, t.dir, packs)
		checkLog(c, r.out, logs)
		c.Outcome(fmt.Sprint(packs, logs, failed))
	}}
}

func init() {
	reg(&mc.Prop{
		ID: "C24",
		Scenarios: func(tier string) []mc.Scenario {
			return []mc.Scenario{c24text(tier), c24forms(tier), c24env(tier), c24tool(tier), c24many(tier), c24folder(tier)}
		},
		Assumptions: []string{
			"scripts that exit the process or change host variables are not used",
		},
		Rule: "script texts are composed of every sequence of statements and run by the real runner and by the built cmd/build (as unprivileged user in a scratch folder); packages that were made, log lines, error and exit code are compared with the effects of statements up to the first failure; host variables and checkfile are compared with the real file system",
		Bounds: func(tier string) string {
			return fmt.Sprintf("texts of up to %d of %d statements, up to %d of %d by %d forms of text, 100 forms of script paths, lists of up to %d of 9 scripts (or the previous one again) by 5 forms of path; 5 scripts with up to 70000 files", pick(tier, 3, 4), len(stmts), pick(tier, 2, 3), len(stmts)+len(stmtsMore), len(textForms), pick(tier, 2, 3))
		},
	})
}
