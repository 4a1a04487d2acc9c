package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"vh/mc"
)

// tools runs command-line tools of the repository in a scratch folder,
// as unprivileged user who can write only there.
type tools struct {
	c    *mc.C
	root string // scratch folder
	dir  string // folder deep in the scratch one
}

const nobody = 65534

var toolsDir string

// toolPath returns executable that was built together with this one.
func toolPath(name string) string {
	if toolsDir == "" {
		var exe, err = os.Executable()
		if err == nil {
			toolsDir, err = os.MkdirTemp("", "tools")
		}
		if err == nil {
			err = os.Chmod(toolsDir, 0755)
		}
		for _, n := range []string{"pack", "extract", "build"} {
			if _, e := os.Stat(exe + "." + n); e != nil {
				continue // is not used by the check
			}
			var b []byte
			if err == nil {
				b, err = os.ReadFile(exe + "." + n)
			}
			if err == nil {
				err = os.WriteFile(filepath.Join(toolsDir, n), b, 0755)
			}
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "tools are not available:", err)
			toolsDir = ""
			return ""
		}
	}
	if _, err := os.Stat(filepath.Join(toolsDir, name)); err != nil {
		fmt.Fprintln(os.Stderr, "tool is not available:", err)
		return ""
	}
	return filepath.Join(toolsDir, name)
}

func newTools(c *mc.C) *tools {
	var root = scratchDir(c)
	c.NoErr(os.Chmod(root, 0777), "chmod")
	var t = &tools{c, root, root}
	t.mkdir("1/2/3/4/5")
	t.dir += "/1/2/3/4/5"
	return t
}

func (t *tools) path(name string) string { return t.dir + "/" + name }

// dirs makes folders, that are writable for everyone.
func (t *tools) mkdir(list ...string) {
	for _, name := range list {
		var p = t.dir
		for _, s := range strings.Split(name, "/") {
			p += "/" + s
			if err := os.Mkdir(p, 0777); err != nil && !errors.Is(err, fs.ErrExist) {
				t.c.Fail("mkdir: %v", err)
			}
			t.c.NoErr(os.Chmod(p, 0777), "chmod")
		}
	}
}

func (t *tools) write(name string, data []byte) {
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		t.mkdir(name[:i])
	}
	t.c.NoErr(os.WriteFile(t.path(name), data, 0666), "write")
	t.c.NoErr(os.Chmod(t.path(name), 0666), "chmod")
}

func (t *tools) read(name string) []byte {
	var b, err = os.ReadFile(t.path(name))
	t.c.NoErr(err, "read")
	return b
}

type fileTree map[string][]byte

func (ft fileTree) names() (list []string) {
	for k := range ft {
		list = append(list, k)
	}
	sort.Strings(list)
	return
}

func (t *tools) writeTree(dir string, ft fileTree) {
	t.mkdir(dir)
	for _, n := range ft.names() {
		t.write(dir+"/"+n, ft[n])
	}
}

// readTree returns files of the folder, if it exists.
func (t *tools) readTree(dir string) fileTree {
	var ft = fileTree{}
	var root = t.path(dir)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			if p == root {
				return err
			}
			t.c.Fail("walk: %v", err)
		}
		if !fi.IsDir() {
			var b []byte
			if b, err = os.ReadFile(p); err != nil {
				t.c.Fail("read: %v", err)
			}
			ft[filepath.ToSlash(p[len(root)+1:])] = b
		}
		return nil
	})
	return ft
}

// outside is description of all in the scratch except of given folder.
func (t *tools) outside(except string) string {
	var list []string
	filepath.Walk(t.root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			t.c.Fail("walk: %v", err)
		}
		if except != "" && p == t.path(except) {
			return filepath.SkipDir
		}
		var s = fmt.Sprintf("%s %v", p[len(t.root):], fi.Mode())
		if fi.Mode().IsRegular() {
			var b, err2 = os.ReadFile(p)
			t.c.NoErr(err2, "read")
			s += fmt.Sprintf(" %v %q", fi.ModTime().UnixNano(), b)
		}
		list = append(list, s)
		return nil
	})
	return strings.Join(list, "\n")
}

// cmpTree compares trees of files.
func cmpTree(got, want fileTree) error {
	for _, n := range want.names() {
		var b, ok = got[n]
		if !ok {
			return fmt.Errorf("file %q is absent", n)
		}
		if !bytes.Equal(b, want[n]) {
			return fmt.Errorf("file %q has content %d %q, expected %d %q", n, len(b), cut(b), len(want[n]), cut(want[n]))
		}
	}
	for _, n := range got.names() {
		if _, ok := want[n]; !ok {
			return fmt.Errorf("unexpected file %q", n)
		}
	}
	return nil
}

func cut(b []byte) string {
	if len(b) > 24 {
		return string(b[:24]) + "..."
	}
	return string(b)
}

type toolRun struct {
	code int
	out  string
}

func (r *toolRun) String() string {
	var s = r.out
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return fmt.Sprintf("exit code %d, output:\n%s", r.code, s)
}

// ok tells whether the tool claims success.
func (r *toolRun) ok() bool { return r.code == 0 }

// crashed tells whether the tool was ended by a panic or by a signal.
func (r *toolRun) crashed() bool {
	return r.code < 0 || r.code == 2 && strings.Contains(r.out, "\ngoroutine ")
}

var dropUser = os.Geteuid() == 0

// maximum size of the file that can be written by a tool
const toolFsize = 1 << 21

// run runs the tool at given folder. Size of the files it can write is
// limited, if fsize is not negative.
func (t *tools) run(name, dir string, fsize int, env []string, args ...string) *toolRun {
	var bin = toolPath(name)
	if bin == "" {
		t.c.Stop()
	}
	var ctx, cancel = context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	var out bytes.Buffer
	var start = func() error {
		var cmd = exec.CommandContext(ctx, bin, args...)
		cmd.Dir = t.path(dir)
		cmd.Env = append([]string{"HOME=" + t.dir, "TMPDIR=" + t.dir, "PATH=/usr/bin:/bin", "GOMAXPROCS=2"}, env...)
		out.Reset()
		cmd.Stdout, cmd.Stderr = &out, &out
		cmd.WaitDelay = 5 * time.Second
		if dropUser {
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		}
		if fsize < 0 {
			fsize = toolFsize
		}
		var old syscall.Rlimit
		t.c.NoErr(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old), "getrlimit")
		var lim = old
		lim.Cur = uint64(fsize)
		t.c.NoErr(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim), "setrlimit")
		var err = cmd.Start()
		t.c.NoErr(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old), "setrlimit")
		if err != nil {
			return err
		}
		return cmd.Wait()
	}
	t.c.Step()
	var err = start()
	if dropUser && errors.Is(err, syscall.EPERM) {
		dropUser = false // not permitted here
		err = start()
	}
	if ctx.Err() != nil {
		t.c.Fail("%s %q does not finish in 30 seconds, output:\n%s", name, args, cut(out.Bytes()))
	}
	var r = &toolRun{0, out.String()}
	var xe *exec.ExitError
	if errors.As(err, &xe) {
		r.code = xe.ExitCode()
		if r.code == 0 {
			r.code = -1
		}
	} else if err != nil && err != io.EOF {
		fmt.Fprintf(os.Stderr, "can not run %s: %v\n", name, err)
		t.c.Stop()
	}
	if t.c.Logging() {
		t.c.Logf("%s %q -> exit code %d", name, args, r.code)
	}
	return r
}
