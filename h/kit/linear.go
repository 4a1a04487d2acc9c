package kit

import (
	"fmt"
	"sort"
	"strings"
)

// Op is a completed operation of concurrent history on the state S.
type Op[S any] struct {
	Thread   int
	Name     string
	Inv, Ret int
	Res      string
	Apply    func(s S) (S, string) // changes copy of the state
}

// Linearize looks for an order of operations consistent with real time, in
// which each of them returns what was really returned.
func Linearize[S any](init S, key func(S) string, ops []*Op[S]) bool {
	var n = len(ops)
	var seen = map[string]bool{}
	var rec func(s S, done uint64) bool
	rec = func(s S, done uint64) bool {
		if done == 1<<n-1 {
			return true
		}
		var k = fmt.Sprintf("%x/", done) + key(s)
		if seen[k] {
			return false
		}
		seen[k] = true
		// the earliest return among of remained operations
		var minRet = 1 << 60
		for i, o := range ops {
			if done>>i&1 == 0 && o.Ret < minRet {
				minRet = o.Ret
			}
		}
		for i, o := range ops {
			if done>>i&1 == 1 || o.Inv > minRet {
				continue
			}
			var s2, res = o.Apply(s)
			if res == o.Res && rec(s2, done|1<<i) {
				return true
			}
		}
		return false
	}
	return rec(init, 0)
}

// HistoryString describes the history.
func HistoryString[S any](ops []*Op[S]) string {
	var list = append([]*Op[S]{}, ops...)
	sort.SliceStable(list, func(i, j int) bool { return list[i].Inv < list[j].Inv })
	var s []string
	for _, o := range list {
		s = append(s, fmt.Sprintf("thread %d [%d..%d] %s -> %s", o.Thread, o.Inv, o.Ret, o.Name, o.Res))
	}
	return strings.Join(s, "; ")
}
