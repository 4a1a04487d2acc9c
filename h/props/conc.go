package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"vh/kit"
	"vh/mc"
	"vh/vsync"
)

// conc is one controlled execution of several threads.
type conc[S any] struct {
	c   *mc.C
	ops [][]*kit.Op[S] // operations of each thread
}

func newConc[S any](c *mc.C, threads int) *conc[S] {
	return &conc[S]{c, make([][]*kit.Op[S], threads)}
}

// do performs operation by the thread and records it.
func (x *conc[S]) do(th int, name string, real func() string, model func(s S) (S, string)) {
	var o = &kit.Op[S]{Thread: th, Name: name, Apply: model}
	vsync.Begin(&o.Inv)
	o.Res = real()
	vsync.End(&o.Inv, &o.Ret)
	x.ops[th] = append(x.ops[th], o)
}

// concLost is set when threads wait for each other by other means than
// the replaced package, so they can not be controlled.
var concLost bool

var raceSeen int

// raceReport returns text of found data race.
func raceReport() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			if b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid())); err == nil {
				if i := strings.LastIndex(string(b), "WARNING: DATA RACE"); i >= 0 {
					b = b[i:]
				}
				return string(b)
			}
		}
	}
	return ""
}

// raceKey returns functions of the repository that take part in the race.
func raceKey(rep string) string {
	var list []string
	var side string
	for _, l := range strings.Split(rep, "\n") {
		switch {
		case strings.HasPrefix(l, "Read at"), strings.HasPrefix(l, "Write at"), strings.HasPrefix(l, "Previous "):
			side = strings.Join(strings.Fields(l)[:2], " ")
		case strings.HasPrefix(l, "Goroutine"):
			side = ""
		case side != "" && strings.HasPrefix(l, "  github.com/schwarzlichtbezirk"):
			list = append(list, side+" in "+filepath.Base(strings.TrimSpace(l)))
			side = ""
		}
	}
	if len(list) == 0 { // no functions of the repository at the report
		var s = strings.Join(strings.Fields(rep), " ")
		return "unknown: " + s[:min(len(s), 1500)]
	}
	return strings.Join(list, ", ")
}

// run runs threads by all schedules, one per execution.
func (x *conc[S]) run(list ...func()) {
	var c = x.c
	if concLost {
		c.Stop()
	}
	var r = vsync.Start(c.Logging(), func(n int, free bool) int {
		if free {
			return c.Choose(n)
		}
		return c.Dev(n)
	}, list...)
	for i := 0; i < r.Points; i++ {
		c.Step()
	}
	if r.Lost {
		concLost = true
		fmt.Fprintln(os.Stderr, "threads are not controlled")
		c.Stop()
	}
	c.Logf("schedule: %s", strings.Join(r.Trace, " "))
	if r.Horizon {
		c.Stop()
	}
	if n := vsync.RaceErrors(); n > raceSeen {
		raceSeen = n
		var rep = raceReport()
		if rep == "" || strings.Contains(rep, "schwarzlichtbezirk") {
			c.Fail("data race: %s\n%s", raceKey(rep), rep)
		}
		fmt.Fprintln(os.Stderr, rep) // it's not about the repository
	}
	c.Assert(r.Panic == "", "%s", r.Panic)
	c.Assert(r.Misuse == "", "%s", r.Misuse)
	c.Assert(r.Deadlock == "", "deadlock:%s", r.Deadlock)
}

// history returns operations of all the threads.
func (x *conc[S]) history() (list []*kit.Op[S]) {
	for _, l := range x.ops {
		list = append(list, l...)
	}
	return
}
