// vh is the driver of the model checker: parent process starts workers,
// merges what they report, confirms violations by replay, writes evidence.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vh/mc"
	"vh/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check ID tier | vh replay file | vh list")
		os.Exit(2)
	}
	time.Local = time.FixedZone("VH", -(3*3600 + 1800)) // local time should not be taken for universal one
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "child":
		child(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "helper":
		props.Helper(os.Args[2:])
	case "list":
		for _, p := range props.All {
			for _, t := range []string{"quick", "thorough"} {
				for _, s := range p.Scenarios(t) {
					fmt.Println(p.ID, t, s.Name)
				}
			}
		}
	}
}

func find(id string) *mc.Prop {
	for _, p := range props.All {
		if p.ID == id {
			return p
		}
	}
	fmt.Fprintln(os.Stderr, "unknown property "+id)
	os.Exit(2)
	return nil
}

func root() string {
	if s := os.Getenv("VH_ROOT"); s != "" {
		return s
	}
	var exe, _ = os.Executable()
	return filepath.Dir(filepath.Dir(exe))
}

func setLimit(p *mc.Prop) {
	if os.Getenv("VH_NOLIMIT") != "" {
		return
	}
	var gb = p.MemGB
	if gb == 0 {
		gb = 6
	}
	if gb > 0 {
		var lim = uint64(gb) << 30
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	debug.SetPanicOnFault(true)
}

const journalSize = 1 << 20

func child(args []string) {
	var p = find(args[0])
	var tier = args[1]
	var shard, _ = strconv.Atoi(args[2])
	var n, _ = strconv.Atoi(args[3])
	var jfile, out = args[4], args[5]
	var secs, _ = strconv.Atoi(args[6])
	runtime.GOMAXPROCS(4)
	setLimit(p)
	var jf, err = os.OpenFile(jfile, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	jf.Truncate(journalSize)
	var mem []byte
	if mem, err = syscall.Mmap(int(jf.Fd()), 0, journalSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var e = mc.NewEngine(p, tier)
	e.Shard, e.NShard = shard, n
	e.Deadline = time.Now().Add(time.Duration(secs) * time.Second)
	e.Known = loadKnown(p.ID)
	e.Journal = func(sc int, t []mc.Choice) {
		binary.LittleEndian.PutUint32(mem[0:], uint32(sc)+1)
		var l = len(t)
		if l > (journalSize-64)/12 {
			return
		}
		if l > 0 {
			var b = mem[64+(l-1)*12:]
			binary.LittleEndian.PutUint32(b, uint32(t[l-1].N))
			binary.LittleEndian.PutUint32(b[4:], uint32(t[l-1].V))
			b[8] = 0
			if t[l-1].Dev {
				b[8] = 1
			}
		}
		binary.LittleEndian.PutUint32(mem[4:], uint32(l))
	}
	go func() {
		for {
			time.Sleep(time.Second)
			if busy, lim := e.Busy(); busy > lim {
				var _, t = readJournal(mem)
				var v = e.Current(t, fmt.Sprintf("hang: execution does not finish in %v", lim))
				var b, _ = json.Marshal(&mc.Result{Violations: []*mc.Violation{v}, Incomplete: []string{"hang"}})
				os.WriteFile(out, b, 0644)
				os.Exit(0)
			}
		}
	}()
	e.Run()
	var st, oc = e.Hashes()
	os.WriteFile(out+".st", pack(st), 0644)
	os.WriteFile(out+".oc", pack(oc), 0644)
	var b, _ = json.Marshal(e.Result())
	os.WriteFile(out, b, 0644)
	os.Exit(0)
}

func pack(h []uint64) []byte {
	var b = make([]byte, 8*len(h))
	for i, x := range h {
		binary.LittleEndian.PutUint64(b[i*8:], x)
	}
	return b
}

func readJournal(mem []byte) (sc int, t []mc.Choice) {
	sc = int(binary.LittleEndian.Uint32(mem)) - 1
	var l = int(binary.LittleEndian.Uint32(mem[4:]))
	for i := 0; i < l; i++ {
		var b = mem[64+i*12:]
		t = append(t, mc.Choice{N: int(binary.LittleEndian.Uint32(b)), V: int(binary.LittleEndian.Uint32(b[4:])), Dev: b[8] == 1})
	}
	return
}

// loadKnown reads known findings of the property: lines
//
//	finding: property=ID key=<prefix of violation key>
func loadKnown(id string) func(v *mc.Violation) bool {
	var b, _ = os.ReadFile(filepath.Join(root(), "known_findings.txt"))
	var keys []string
	for _, l := range strings.Split(string(b), "\n") {
		var pre = "finding: property=" + id + " key="
		if strings.HasPrefix(l, pre) {
			keys = append(keys, strings.TrimSpace(l[len(pre):]))
		}
	}
	if len(keys) == 0 {
		return nil
	}
	return func(v *mc.Violation) bool {
		for _, k := range keys {
			if v.Key() == k {
				return true
			}
		}
		return false
	}
}

func replay(fpath string) int {
	var v, err = mc.ParseViolation(fpath)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if v.NoReplay {
		fmt.Println(v.Msg)
		return 1
	}
	if v.NShard > 0 {
		var work, err = os.MkdirTemp("", "vhwork")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		defer os.RemoveAll(work)
		os.Chmod(work, 0711)
		if rerun(v, work) {
			fmt.Println("VIOLATED: " + v.Msg)
			return 1
		}
		fmt.Println("holds")
		return 0
	}
	var p = find(v.Property)
	if work, err := os.MkdirTemp("", "vhwork"); err == nil {
		defer os.RemoveAll(work)
		os.Chmod(work, 0711)
		os.Setenv("TMPDIR", work)
	}
	setLimit(p)
	var e = mc.NewEngine(p, v.Tier)
	go func() {
		for {
			time.Sleep(time.Second)
			if busy, lim := e.Busy(); busy > lim {
				fmt.Printf("hang: execution does not finish in %v\n", lim)
				os.Exit(1)
			}
		}
	}()
	var v2, log = e.Replay(v.Scenario, v.Trail)
	for _, l := range log {
		fmt.Println(l)
	}
	if v2 != nil {
		fmt.Println("VIOLATED: " + v2.Msg)
		return 1
	}
	fmt.Println("holds")
	return 0
}

// confirm replays violation in separate processes.
func confirm(file string, times int, work string) (n int, out string) {
	var exe, _ = os.Executable()
	for i := 0; i < times; i++ {
		var cmd = exec.Command(exe, "replay", file)
		cmd.Env = append(os.Environ(), "VH_ROOT="+root(), "TMPDIR="+work, "GORACE=exitcode=0 log_path="+filepath.Join(work, "race"))
		var b, err = cmd.CombinedOutput()
		if err != nil { // exit 1, or a crash
			n++
			out = string(b)
		}
	}
	return
}

func raceOrHang(msg string) bool {
	return strings.HasPrefix(msg, "hang") || strings.Contains(msg, "race")
}

// rerun runs the worker that has found the violation once again in the new
// process, and returns true if it finds the same violation.
func rerun(v *mc.Violation, work string) bool {
	var dir, err = os.MkdirTemp(work, "rerun")
	if err != nil {
		return false
	}
	defer os.RemoveAll(dir)
	var exe, _ = os.Executable()
	var out = filepath.Join(dir, "o")
	var cmd = exec.Command(exe, "child", v.Property, v.Tier, strconv.Itoa(v.Shard), strconv.Itoa(v.NShard), filepath.Join(dir, "j"), out, "200")
	cmd.Env = append(os.Environ(), "VH_ROOT="+root(), "TMPDIR="+dir, "GORACE=exitcode=0 log_path="+filepath.Join(dir, "race"))
	var timer = time.AfterFunc(220*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	defer timer.Stop()
	cmd.Run()
	var r mc.Result
	var b, rerr = os.ReadFile(out)
	if rerr != nil || json.Unmarshal(b, &r) != nil {
		return false
	}
	for _, v2 := range r.Violations {
		if v2.Scenario == v.Scenario && v2.Msg == v.Msg && fmt.Sprint(v2.Trail) == fmt.Sprint(v.Trail) {
			return true
		}
	}
	return false
}

func check(id, tier string) int {
	var t0 = time.Now()
	var p = find(id)
	var rt = root()
	var seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	var secs = 200
	if tier == "thorough" {
		secs = 700
	}
	if s, err := strconv.Atoi(os.Getenv("VH_SECS")); err == nil {
		secs = s
	}
	var nw = runtime.NumCPU()
	if p.Workers > 0 && nw > p.Workers {
		nw = p.Workers
	}
	var work, err = os.MkdirTemp("", "vhwork")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(work)
	os.Chmod(work, 0711)
	var repdir = filepath.Join(rt, "replays")
	os.MkdirAll(repdir, 0755)
	var exe, _ = os.Executable()
	type done struct {
		i    int
		err  error
		outp []byte
	}
	var ch = make(chan done, nw)
	for i := 0; i < nw; i++ {
		go func(i int) {
			var scratch = filepath.Join(work, fmt.Sprintf("s%d", i))
			os.MkdirAll(scratch, 0755)
			var cmd = exec.Command(exe, "child", id, tier, strconv.Itoa(i), strconv.Itoa(nw),
				filepath.Join(work, fmt.Sprintf("j%d", i)), filepath.Join(work, fmt.Sprintf("o%d", i)), strconv.Itoa(secs))
			var buf bytes.Buffer
			cmd.Stdout, cmd.Stderr = &buf, &buf
			cmd.Env = append(os.Environ(), "VH_ROOT="+rt, "TMPDIR="+scratch, "GOTRACEBACK=single",
				"GORACE=exitcode=0 log_path="+filepath.Join(scratch, "race"))
			var timer = time.AfterFunc(time.Duration(secs+250)*time.Second, func() {
				if cmd.Process != nil {
					cmd.Process.Kill()
				}
			})
			var err = cmd.Run()
			timer.Stop()
			if os.Getenv("VH_TIMES") != "" {
				os.Stderr.Write(buf.Bytes())
			}
			ch <- done{i, err, buf.Bytes()}
		}(i)
	}
	var total mc.Result
	total.PerScen = map[string]int64{}
	var viols []*mc.Violation
	var shardOf = map[*mc.Violation]int{}
	var known []*mc.Violation
	var notes []string
	var states, outcomes = map[uint64]struct{}{}, map[uint64]struct{}{}
	var incomplete = map[string]bool{}
	for k := 0; k < nw; k++ {
		var d = <-ch
		var r mc.Result
		var b, rerr = os.ReadFile(filepath.Join(work, fmt.Sprintf("o%d", d.i)))
		if rerr != nil || json.Unmarshal(b, &r) != nil {
			// worker died: what it was executing is the suspect
			var mem, _ = os.ReadFile(filepath.Join(work, fmt.Sprintf("j%d", d.i)))
			var tail = string(d.outp)
			if len(tail) > 3000 {
				tail = tail[:3000]
			}
			if len(mem) >= journalSize {
				var sc, t = readJournal(mem)
				var scs = p.Scenarios(tier)
				if sc >= 0 && sc < len(scs) {
					var v = &mc.Violation{Property: id, Tier: tier, Scenario: scs[sc].Name, Trail: t,
						Msg: "process crashed: " + strings.TrimSpace(tail)}
					viols = append(viols, v)
				}
			}
			notes = append(notes, fmt.Sprintf("worker %d died: %v", d.i, d.err))
			incomplete["worker died"] = true
			continue
		}
		total.Execs += r.Execs
		total.Trans += r.Trans
		total.Pruned += r.Pruned
		total.Diverged += r.Diverged
		if r.MaxTrail > total.MaxTrail {
			total.MaxTrail = r.MaxTrail
		}
		for _, s := range r.Incomplete {
			incomplete[s] = true
		}
		for s, n := range r.PerScen {
			total.PerScen[s] += n
		}
		if len(total.Samples) < 12 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		for _, v := range r.Violations {
			shardOf[v] = d.i
		}
		viols = append(viols, r.Violations...)
		known = append(known, r.KnownHits...)
		for sfx, m := range map[string]map[uint64]struct{}{".st": states, ".oc": outcomes} {
			var hb, _ = os.ReadFile(filepath.Join(work, fmt.Sprintf("o%d", d.i)+sfx))
			for i := 0; i+8 <= len(hb); i += 8 {
				m[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
			}
		}
	}
	// confirm violations by replay in fresh processes
	sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].Trail) < len(viols[j].Trail) })
	var confirmed []*mc.Violation
	var files []string
	var seenScen = map[string]bool{}
	var reruns = 2
	for i, v := range viols {
		if seenScen[v.Scenario] || len(confirmed) >= 3 {
			continue
		}
		var f = filepath.Join(repdir, fmt.Sprintf("%s-%d.json", id, i))
		var b, _ = json.MarshalIndent(v, "", " ")
		os.WriteFile(f, b, 0644)
		if v.NoReplay {
			confirmed, files = append(confirmed, v), append(files, f)
			seenScen[v.Scenario] = true
			continue
		}
		var times = 5
		if strings.HasPrefix(v.Msg, "hang") {
			times = 1
		}
		var n, out = confirm(f, times, work)
		if n == times {
			confirmed, files = append(confirmed, v), append(files, f)
			seenScen[v.Scenario] = true
			continue
		}
		var shard, ok = shardOf[v]
		if n == 0 && ok && reruns > 0 && len(confirmed) == 0 && time.Since(t0) < 350*time.Second && !raceOrHang(v.Msg) {
			// the fault can depend on previous executions of the process
			reruns--
			v.Shard, v.NShard = shard, nw
			b, _ = json.MarshalIndent(v, "", " ")
			os.WriteFile(f, b, 0644)
			if rerun(v, work) && rerun(v, work) {
				v.Log = append(v.Log, "(it depends on previous executions of the process: "+
					"replay runs all executions of the worker up to this one)")
				confirmed, files = append(confirmed, v), append(files, f)
				seenScen[v.Scenario] = true
				continue
			}
		}
		{
			notes = append(notes, fmt.Sprintf("not reproduced (%d of %d), not counted: %s: %s | %s", n, times, v.Scenario, first(v.Msg), first(out)))
			incomplete[v.Scenario] = true
		}
	}
	var inc []string
	for s := range incomplete {
		inc = append(inc, s)
	}
	sort.Strings(inc)
	if len(total.Samples) > 12 {
		total.Samples = total.Samples[:12]
	}
	for i, s := range total.Samples {
		if len(s) > 600 {
			total.Samples[i] = s[:600] + "..."
		}
	}
	var bounds string
	if p.Bounds != nil {
		bounds = p.Bounds(tier)
	}
	var perscen []string
	for s, n := range total.PerScen {
		perscen = append(perscen, fmt.Sprintf("%s: %d", s, n))
	}
	sort.Strings(perscen)
	if len(perscen) > 60 {
		perscen = append(perscen[:60], fmt.Sprintf("... %d more", len(perscen)-60))
	}
	var cov = map[string]any{
		"states":                        len(states),
		"transitions":                   total.Trans,
		"traces_validated_against_impl": total.Execs,
		"distinct_outcomes":             len(outcomes),
		"pruned_at_visited_state":       total.Pruned,
		"longest_trail":                 total.MaxTrail,
		"scenarios_executions":          perscen,
		"rule":                          p.Rule,
		"bounds":                        bounds,
		"samples":                       total.Samples,
		"exhaustive":                    len(inc) == 0 && len(viols) == 0,
	}
	if len(inc) > 0 {
		cov["incomplete"] = inc
	}
	if total.Diverged > 0 {
		notes = append(notes, fmt.Sprintf("%d executions diverged on prefix replay", total.Diverged))
		cov["exhaustive"] = false
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	var assumptions = p.Assumptions
	if assumptions == nil {
		assumptions = []string{}
	}
	var ev = map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": assumptions,
		"wall_s": float64(int(time.Since(t0).Seconds()*100)) / 100, "violations": len(confirmed),
	}
	var eb, _ = json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(rt, "evidence"), 0755)
	if err = os.WriteFile(filepath.Join(rt, "evidence", id+".json"), append(eb, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s %s: %d executions, %d states, %d transitions, %d distinct outcomes, exhaustive=%v, %.1fs\n",
		id, tier, total.Execs, len(states), total.Trans, len(outcomes), cov["exhaustive"], time.Since(t0).Seconds())
	for _, n := range notes {
		fmt.Println("note: " + n)
	}
	var kseen = map[string]bool{}
	for _, v := range known {
		if !kseen[v.Key()] {
			kseen[v.Key()] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, v.Key())
		}
	}
	if len(confirmed) == 0 {
		return 0
	}
	for i, v := range confirmed {
		fmt.Printf("-- %s: %s\n", v.Scenario, v.Msg)
		for _, l := range v.Log {
			fmt.Println("     " + l)
		}
		var rel, _ = filepath.Rel(rt, files[i])
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rel)
	}
	return 1
}

func first(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}
