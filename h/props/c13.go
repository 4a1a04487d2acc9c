package props

import (
	"fmt"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/util"

	"vh/kit"
	"vh/mc"
	"vh/vsync"
)

// smPair is a pair of sequence.
type smPair struct {
	k string
	v int
}

// smState is the model of the table: sequence of pairs with different keys.
type smState []smPair

func (s smState) clone() smState { return append(smState{}, s...) }

func (s smState) find(k string) int {
	for i := range s {
		if s[i].k == k {
			return i
		}
	}
	return -1
}

func (s smState) String() string {
	var b strings.Builder
	for _, p := range s {
		fmt.Fprintf(&b, "%s=%d ", p.k, p.v)
	}
	return b.String()
}

// table is what is under the check: the table itself, or package with it.
type table interface {
	poke(k string, v int)
	push(k string, v int) bool
	del(k string) (int, bool)
	peek(k string) (int, bool)
	has(k string) bool
	count() int
	pop() (string, int, bool)
	enum(f func(k string, v int) bool)
	init()
}

type seqTable struct {
	m util.SeqMap[string, int]
}

func (t *seqTable) poke(k string, v int)              { t.m.Poke(k, v) }
func (t *seqTable) push(k string, v int) bool         { return t.m.Push(k, v) }
func (t *seqTable) del(k string) (int, bool)          { return t.m.Delete(k) }
func (t *seqTable) peek(k string) (int, bool)         { return t.m.Peek(k) }
func (t *seqTable) has(k string) bool                 { return t.m.Has(k) }
func (t *seqTable) count() int                        { return t.m.Len() }
func (t *seqTable) pop() (string, int, bool)          { return t.m.Pop() }
func (t *seqTable) enum(f func(k string, v int) bool) { t.m.Range(f) }
func (t *seqTable) init()                             { t.m.Init(0) }

// pkgTable is table of tagsets in the package.
type pkgTable struct {
	pkg *wpk.Package
}

func tsOf(k string, v int) wpk.TagsetRaw {
	return wpk.TagsetRaw{}.Put(wpk.TIDoffset, wpk.UintTag(uint(v))).Put(wpk.TIDpath, wpk.StrTag(k))
}

func tsVal(ts wpk.TagsetRaw) int {
	var v, _ = ts.TagUint(wpk.TIDoffset)
	return int(v)
}

func (t *pkgTable) poke(k string, v int)      { t.pkg.SetTagset(k, tsOf(k, v)) }
func (t *pkgTable) push(k string, v int) bool { panic("no such method") }
func (t *pkgTable) del(k string) (int, bool) {
	var ts, ok = t.pkg.DelTagset(k)
	if !ok {
		return 0, false
	}
	return tsVal(ts), true
}
func (t *pkgTable) peek(k string) (int, bool) {
	var ts, ok = t.pkg.GetTagset(k)
	if !ok {
		return 0, false
	}
	return tsVal(ts), true
}
func (t *pkgTable) has(k string) bool        { return t.pkg.HasTagset(k) }
func (t *pkgTable) count() int               { return t.pkg.TagsetNum() }
func (t *pkgTable) pop() (string, int, bool) { panic("no such method") }
func (t *pkgTable) init()                    { panic("no such method") }
func (t *pkgTable) enum(f func(k string, v int) bool) {
	t.pkg.Enum(func(k string, ts wpk.TagsetRaw) bool { return f(k, tsVal(ts)) })
}

// smOp is operation of the alphabet.
type smOp struct {
	name  string
	seq   bool // for the table itself only
	class int  // less is more important
	run   func(x *conc[smState], th int, t table, v int)
}

func smPoke(k string) func(x *conc[smState], th int, t table, v int) {
	return func(x *conc[smState], th int, t table, v int) {
		x.do(th, fmt.Sprintf("poke(%s,%d)", k, v), func() string {
			t.poke(k, v)
			return "ok"
		}, func(s smState) (smState, string) {
			s = s.clone()
			if i := s.find(k); i >= 0 {
				s[i].v = v
			} else {
				s = append(s, smPair{k, v})
			}
			return s, "ok"
		})
	}
}

func smPush(k string) func(x *conc[smState], th int, t table, v int) {
	return func(x *conc[smState], th int, t table, v int) {
		x.do(th, fmt.Sprintf("push(%s,%d)", k, v), func() string {
			return fmt.Sprint(t.push(k, v))
		}, func(s smState) (smState, string) {
			s = s.clone()
			var i = s.find(k)
			if i < 0 {
				s = append(s, smPair{k, v})
			}
			return s, fmt.Sprint(i >= 0)
		})
	}
}

func smDel(k string) func(x *conc[smState], th int, t table, v int) {
	return func(x *conc[smState], th int, t table, v int) {
		x.do(th, fmt.Sprintf("delete(%s)", k), func() string {
			var r, ok = t.del(k)
			return fmt.Sprint(r, ok)
		}, func(s smState) (smState, string) {
			var i = s.find(k)
			if i < 0 {
				return s, fmt.Sprint(0, false)
			}
			var r = s[i].v
			s = s.clone()
			return append(s[:i], s[i+1:]...), fmt.Sprint(r, true)
		})
	}
}

func smPeek(k string) func(x *conc[smState], th int, t table, v int) {
	return func(x *conc[smState], th int, t table, v int) {
		x.do(th, fmt.Sprintf("peek(%s)", k), func() string {
			var r, ok = t.peek(k)
			return fmt.Sprint(r, ok)
		}, func(s smState) (smState, string) {
			if i := s.find(k); i >= 0 {
				return s, fmt.Sprint(s[i].v, true)
			}
			return s, fmt.Sprint(0, false)
		})
	}
}

func smHas(k string) func(x *conc[smState], th int, t table, v int) {
	return func(x *conc[smState], th int, t table, v int) {
		x.do(th, fmt.Sprintf("has(%s)", k), func() string {
			return fmt.Sprint(t.has(k))
		}, func(s smState) (smState, string) {
			return s, fmt.Sprint(s.find(k) >= 0)
		})
	}
}

func smEnum(x *conc[smState], th int, t table, v int) {
	x.do(th, "range", func() string {
		var got smState
		t.enum(func(k string, v int) bool {
			got = append(got, smPair{k, v})
			return true
		})
		return got.String()
	}, func(s smState) (smState, string) {
		return s, s.String()
	})
}

// smEnumDel deletes the entry while enumeration, and stops it then.
func smEnumDel(x *conc[smState], th int, t table, v int) {
	x.do(th, "range with deletion of the first", func() string {
		var res = "none"
		t.enum(func(k string, v int) bool {
			res = fmt.Sprint(k, v)
			return false
		})
		return res
	}, func(s smState) (smState, string) {
		if len(s) == 0 {
			return s, "none"
		}
		return s, fmt.Sprint(s[0].k, s[0].v)
	})
	t.enum(func(k string, v int) bool {
		smDel(k)(x, th, t, v)
		return true
	})
}

var smOps = []smOp{
	{"poke a", false, 0, smPoke("a")},
	{"delete a", false, 0, smDel("a")},
	{"range", false, 0, smEnum},
	{"pop", true, 0, func(x *conc[smState], th int, t table, v int) {
		x.do(th, "pop", func() string {
			var k, v, ok = t.pop()
			return fmt.Sprint(k, v, ok)
		}, func(s smState) (smState, string) {
			if len(s) == 0 {
				return s, fmt.Sprint("", 0, false)
			}
			var p = s[len(s)-1]
			return s[: len(s)-1 : len(s)-1], fmt.Sprint(p.k, p.v, true)
		})
	}},
	{"poke c", false, 0, smPoke("c")},
	{"peek a", false, 0, smPeek("a")},
	{"push a", true, 1, smPush("a")},
	{"has b", false, 1, smHas("b")},
	{"len", false, 1, func(x *conc[smState], th int, t table, v int) {
		x.do(th, "len", func() string {
			return fmt.Sprint(t.count())
		}, func(s smState) (smState, string) {
			return s, fmt.Sprint(len(s))
		})
	}},
	{"delete b", false, 1, smDel("b")},
	{"range and delete", false, 1, smEnumDel},
	{"peek b", false, 2, smPeek("b")},
	{"poke b", false, 2, smPoke("b")},
	{"push c", true, 2, smPush("c")},
	{"init", true, 2, func(x *conc[smState], th int, t table, v int) {
		x.do(th, "init", func() string {
			t.init()
			return "ok"
		}, func(s smState) (smState, string) {
			return smState{}, "ok"
		})
	}},
}

var smInits = []smState{{{"a", 1}, {"b", 2}}, {}, {{"b", 3}, {"a", 4}, {"c", 5}}}

func smKey(s smState) string { return s.String() }

// runTable runs operations in several threads on the table.
func runTable(c *mc.C, t table, init smState, plan [][]smOp) {
	for _, p := range init {
		t.poke(p.k, p.v)
	}
	var x = newConc[smState](c, len(plan)+1)
	var list []func()
	for i := range plan {
		list = append(list, func() {
			for k, op := range plan[i] {
				op.run(x, i, t, 10*(i+1)+k)
			}
		})
	}
	if c.Logging() {
		for i := range plan {
			var s []string
			for _, op := range plan[i] {
				s = append(s, op.name)
			}
			c.Logf("thread %d: %s", i, strings.Join(s, ", "))
		}
		c.Logf("initial: %v", init)
	}
	x.run(list...)
	// final state is seen by operations after all other ones
	var clock = 1 << 30
	var final = func(run func(x *conc[smState], th int, t table, v int)) {
		run(x, len(plan), t, 0)
		var l = x.ops[len(plan)]
		l[len(l)-1].Inv, l[len(l)-1].Ret = clock, clock+1
		clock += 2
	}
	final(smEnum)
	for _, k := range []string{"a", "b", "c"} {
		final(smPeek(k))
		final(smHas(k))
	}
	final(smOps[8].run)
	var h = x.history()
	if !kit.Linearize(init, smKey, h) {
		c.Fail("history is not linearizable: %s", kit.HistoryString(h))
	}
	c.Outcome(kit.HistoryString(h))
	c.State(kit.HistoryString(x.ops[len(plan)]))
}

// smLarge is initial contents with n entries between of those that operations touch.
func smLarge(n int) (s smState) {
	s = append(s, smPair{"a", 1})
	for i := 0; i < n; i++ {
		s = append(s, smPair{fmt.Sprintf("x%d", i), i})
	}
	return append(s, smPair{"b", 2})
}

// smScenario explores all plans of given shape over the operations of classes.
func smScenario(name string, shape []int, class, inits, dev int, mk func() table, seq bool) mc.Scenario {
	return smScenarioAt(name, shape, class, smInits[:inits], dev, mk, seq)
}

func smScenarioAt(name string, shape []int, class int, inits []smState, dev int, mk func() table, seq bool) mc.Scenario {
	var ops []smOp
	for _, op := range smOps {
		if len(inits[0]) > 60 && op.name == "range and delete" {
			continue // too many deletions
		}
		if op.class <= class && (seq || !op.seq) {
			ops = append(ops, op)
		}
	}
	return mc.Scenario{Name: name, MaxDev: dev, ShardDepth: 4, Run: func(c *mc.C) {
		var init = inits[c.Choose(len(inits))]
		var plan [][]smOp
		var prev int
		for i, n := range shape {
			var row []smOp
			var code int
			for k := 0; k < n; k++ {
				var m int
				if k == 0 && i > 0 && n == shape[i-1] { // threads of the same length are symmetric
					m = prev + c.Choose(len(ops)-prev)
				} else {
					m = c.Choose(len(ops))
				}
				if k == 0 {
					code = m
				}
				row = append(row, ops[m])
			}
			prev = code
			plan = append(plan, row)
		}
		runTable(c, mk(), init, plan)
	}}
}

func init() {
	var seqmap = func() table {
		var t = &seqTable{}
		t.m.Init(0)
		return t
	}
	var pkgmap = func() table { return &pkgTable{wpk.NewPackage()} }
	const all = 1000
	reg(&mc.Prop{
		ID:    "C13",
		MemGB: -1,
		Rule: "real table is driven by threads under controlled scheduler (the synchronization package is replaced in the current sources at build), all schedules are explored; " +
			"recorded history with the final contents should be linearizable to an ordered map by exhaustive search; deadlocks, panics and wrong unlocks are violations; " +
			"data races are found by happens-before detector in each explored schedule",
		Bounds: func(tier string) string {
			return pick(tier,
				"2 threads by 2 operations and 3 threads by 1 operation out of 15, 2-3 initial contents, all schedules; 3 threads by (2,1,1) operations out of 6, all schedules; 2 threads by 1 (2,1) operation at tables with 65 and 302 entries, all schedules",
				"2 threads by (3,2), 3 threads by 2 operations out of 6, 2 threads by 2 and 3 threads by 1 operation out of 15, 3 initial contents, all schedules (3x2: 3 preemptions); 2 threads by 1 (2,1) operation at tables with 65, 302 and 1102 entries, all schedules") +
				fmt.Sprintf("; same through the package methods; race detector is on: %v", vsync.Race)
		},
		Assumptions: []string{"scheduling points are at calls of synchronization primitives and atomic operations, unsynchronized accesses in between are subject of race detector"},
		Scenarios: func(tier string) (list []mc.Scenario) {
			list = append(list,
				smScenario("table 1x1", []int{1, 1}, 2, 3, all, seqmap, true),
				smScenario("table 1x1x1", []int{1, 1, 1}, 2, pick(tier, 1, 3), all, seqmap, true),
				smScenario("table 2x2", []int{2, 2}, pick(tier, 1, 2), pick(tier, 1, 3), all, seqmap, true),
				smScenario("package 2x1", []int{2, 1}, 2, 2, all, pkgmap, false),
				smScenario("package 1x1x1", []int{1, 1, 1}, 1, 1, all, pkgmap, false),
				smScenario("table 2x1x1", []int{2, 1, 1}, 0, 1, all, seqmap, true),
			)
			var large = []smState{smLarge(300), smLarge(63), smLarge(1100)}[:pick(tier, 2, 3)]
			list = append(list,
				smScenarioAt("large table 1x1", []int{1, 1}, 2, large, all, seqmap, true),
				smScenarioAt("large table 2x1", []int{2, 1}, pick(tier, 0, 1), large[:1], all, seqmap, true),
				smScenarioAt("large package 1x1", []int{1, 1}, pick(tier, 1, 2), large, all, pkgmap, false),
			)
			if thorough(tier) {
				list = append(list,
					smScenario("package 2x2", []int{2, 2}, 2, 2, all, pkgmap, false),
					smScenario("table 3x2", []int{3, 2}, 0, 2, all, seqmap, true),
					smScenario("table 2x2x2", []int{2, 2, 2}, 0, 1, 3, seqmap, true),
				)
			}
			return
		},
	})
}
