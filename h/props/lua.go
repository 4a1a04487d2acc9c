package props

import (
	"fmt"
	"sort"

	lua "github.com/yuin/gopher-lua"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/luawpk"

	"vh/kit"
	"vh/mc"
)

// luaVM is scripts virtual machine, it has no state but its globals.
type luaVM struct {
	ls *lua.LState
}

var sharedVM *luaVM

// vm returns virtual machine shared by executions of the process.
func vm() *luaVM {
	if sharedVM == nil {
		sharedVM = newVM()
	}
	return sharedVM
}

func newVM() *luaVM {
	var l = &luaVM{lua.NewState(lua.Options{RegistryMaxSize: 1 << 22, RegistryGrowStep: 4096})}
	luawpk.InitLuaVM(l.ls)
	return l
}

// protect runs f, errors raised inside of it are returned.
func (l *luaVM) protect(f func()) error {
	var _, err = l.call(l.ls.NewFunction(func(*lua.LState) int {
		f()
		return 0
	}))
	return err
}

// call calls function with any number of results.
func (l *luaVM) call(fn lua.LValue, args ...lua.LValue) (res []lua.LValue, err error) {
	if fn == lua.LNil {
		return nil, fmt.Errorf("no such function")
	}
	var top = l.ls.GetTop()
	err = l.ls.CallByParam(lua.P{Fn: fn, NRet: lua.MultRet, Protect: true}, args...)
	for i := top + 1; i <= l.ls.GetTop(); i++ {
		res = append(res, l.ls.Get(i))
	}
	l.ls.SetTop(top)
	if e, ok := err.(*lua.ApiError); ok && e.Type == lua.ApiErrorPanic {
		panic(fmt.Sprintf("script call panics: %v", e.Object))
	}
	return
}

// luaPkg is package object of the script.
type luaPkg struct {
	*luaVM
	c  *mc.C
	ud *lua.LUserData
	p  *luawpk.LuaPackage
}

func (l *luaVM) newPkg(c *mc.C) *luaPkg {
	var res, err = l.call(l.ls.GetField(l.ls.GetGlobal("wpk"), "new"))
	c.NoErr(err, "wpk.new")
	var ud = res[0].(*lua.LUserData)
	return &luaPkg{l, c, ud, ud.Value.(*luawpk.LuaPackage)}
}

// do calls the method.
func (p *luaPkg) do(name string, args ...lua.LValue) ([]lua.LValue, error) {
	p.c.Step()
	return p.call(p.ls.GetField(p.ud, name), append([]lua.LValue{p.ud}, args...)...)
}

// get reads the property.
func (p *luaPkg) get(name string) (v lua.LValue, err error) {
	p.c.Step()
	err = p.protect(func() { v = p.ls.GetField(p.ud, name) })
	return
}

// set changes the property.
func (p *luaPkg) set(name string, v lua.LValue) error {
	p.c.Step()
	return p.protect(func() { p.ls.SetField(p.ud, name, v) })
}

// table makes script table with given pairs.
func (l *luaVM) table(kv ...lua.LValue) *lua.LTable {
	var t = l.ls.NewTable()
	for i := 0; i+1 < len(kv); i += 2 {
		t.RawSet(kv[i], kv[i+1])
	}
	return t
}

func luaStr(v lua.LValue) string {
	switch v := v.(type) {
	case lua.LString:
		return fmt.Sprintf("%q", cutStr(string(v)))
	case lua.LNumber:
		return fmt.Sprintf("%v", float64(v))
	case *lua.LTable:
		var s []string
		v.ForEach(func(k, e lua.LValue) { s = append(s, luaStr(k)+"="+luaStr(e)) })
		sort.Strings(s)
		return fmt.Sprint(s)
	case *lua.LFunction:
		return "function"
	case *lua.LUserData:
		return "userdata"
	}
	return v.String()
}

func luaStrs(vs []lua.LValue) string {
	var s string
	for i, v := range vs {
		if i > 0 {
			s += ", "
		}
		s += luaStr(v)
	}
	return s
}

func cutStr(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%s...%d", s[:30], len(s))
	}
	return s
}

// entries returns all tag sets of the package.
func entries(p *wpk.Package) (map[string]map[uint16]string, error) {
	var res = map[string]map[uint16]string{}
	var err error
	p.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		var tags, e = kit.ParseTags(ts)
		if e == nil {
			res[fkey], e = kit.TagsMap(tags)
		}
		if e != nil {
			err = fmt.Errorf("tag set of %q: %w", fkey, e)
		}
		return true
	})
	return res, err
}
