package props

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/mc"
)

// dbReader is package opened by the other object at some moment.
type dbReader struct {
	what string
	pkg  *wpk.Package
	m    *kit.PModel // what was seen at opening
	f    wpk.RFile   // file opened at the same moment, can be absent
	name string
	want []byte
}

// check compares everything the reader shows with the moment of its opening.
func (r *dbReader) check(c *mc.C) {
	c.Step()
	if err := r.m.CmpPkg(r.pkg); err != nil {
		c.Fail("%s: %v", r.what, err)
	}
	if r.f == nil {
		return
	}
	var buf = make([]byte, len(r.want)+1)
	var n, err = r.f.ReadAt(buf, 0)
	if n != len(r.want) || err != io.EOF || !bytes.Equal(buf[:n], r.want) {
		c.Fail("%s: opened file %q gives %d bytes of %d, error %v", r.what, r.name, n, len(r.want), err)
	}
}

// dbWorld is package at real files with writer and any number of readers.
type dbWorld struct {
	c       *mc.C
	split   bool
	be      int
	ft, fd  string
	wt, wd  *os.File
	pkg     *wpk.Package
	m, disk *kit.PModel // disk is nil if package should not be readable
	readers []*dbReader
}

func (w *dbWorld) writing() bool { return w.wt != nil }

// files opens files of the package to write.
func (w *dbWorld) files(flag int) {
	var err error
	w.wt, err = os.OpenFile(w.ft, os.O_WRONLY|flag, 0644)
	w.c.NoErr(err, "open to write")
	w.wd = w.wt
	if w.split {
		w.wd, err = os.OpenFile(w.fd, os.O_WRONLY|flag, 0644)
		w.c.NoErr(err, "open to write")
	}
}

func (w *dbWorld) second() io.WriteSeeker {
	if w.split {
		return w.wd
	}
	return nil
}

func (w *dbWorld) closeFiles() {
	if w.wt != nil {
		w.wt.Close()
		if w.split {
			w.wd.Close()
		}
	}
	w.wt, w.wd = nil, nil
}

// reader opens the package by the new object.
func (w *dbWorld) reader(be int) {
	var what = fmt.Sprintf("reader #%d by %s", len(w.readers), kit.Backends[be].Name)
	var pkg, err = kit.OpenReal(w.ft, w.fd, be)
	if w.disk == nil {
		if err == nil {
			pkg.Tagger.Close()
			w.c.Fail("%s: package under construction is opened", what)
		}
		return
	}
	w.c.NoErr(err, what)
	w.c.Defer(func() { pkg.Tagger.Close() })
	var r = &dbReader{what: what, pkg: pkg, m: w.disk.Clone()}
	if n := len(r.m.Ents); n > 0 {
		r.name, r.want = r.m.Ents[n-1].Name, r.m.Ents[n-1].Data
		var f, err = pkg.Open(r.name)
		w.c.NoErr(err, what+": open of file")
		w.c.Defer(func() { f.Close() })
		r.f = f.(wpk.RFile)
	}
	w.readers = append(w.readers, r)
}

func (w *dbWorld) check() {
	if err := w.m.CmpPkg(w.pkg); err != nil {
		w.c.Fail("live package by %s: %v", kit.Backends[w.be].Name, err)
	}
	for _, r := range w.readers {
		r.check(w.c)
	}
}

func (w *dbWorld) key() string {
	var b strings.Builder
	var put = func(m *kit.PModel) {
		if m == nil {
			b.WriteString("none\n")
			return
		}
		for _, e := range m.Ents {
			fmt.Fprintf(&b, "%s %d %v|", e.Name, len(e.Data), e.Tags)
		}
		b.WriteString("\n")
	}
	fmt.Fprintln(&b, w.split, w.be, w.writing(), w.pkg.DataSize())
	put(w.m)
	put(w.disk)
	for _, r := range w.readers {
		b.WriteString(r.what)
		put(r.m)
	}
	return b.String()
}

func init() {
	reg(&mc.Prop{
		ID: "C26",
		Scenarios: func(tier string) []mc.Scenario {
			var history = func(name string, depth, maxread int) mc.Scenario {
				return mc.Scenario{Name: name, ShardDepth: 5, Run: func(c *mc.C) {
					var w = &dbWorld{c: c, split: c.Bool(), be: 1 + c.Choose(2), pkg: wpk.NewPackage(), m: &kit.PModel{}}
					var first, second = c.Choose(2), c.Choose(pick(tier, 1, 2))
					var start = c.Choose(4)
					var dir = scratchDir(c)
					w.ft, w.fd = dir+"/p.wpk", dir+"/p.wpk"
					if w.split {
						w.ft, w.fd = dir+"/p.wpt", dir+"/p.wpf"
					}
					c.Defer(w.closeFiles)
					w.files(os.O_CREATE | os.O_TRUNC)
					c.NoErr(w.pkg.Begin(w.wt, w.second()), "begin")
					if w.split {
						w.disk = w.m.Clone()
					}
					var err error
					w.pkg.Tagger, err = kit.Backends[w.be].Make(w.fd)
					c.NoErr(err, "access to live package")
					c.Defer(func() { w.pkg.Tagger.Close() })
					var names = []string{"a", "d/b", "c"}
					var sizes = [][]int{{5, 0, 5000}, {70000, 3, 0}}[first]
					if second == 1 { // the other order
						names[0], names[2] = names[2], names[0]
					}
					w.check()
					if start > 0 { // there is finished package with a reader
						for k, name := range names[:2] {
							var data = fill("live "+name, sizes[k])
							var _, err = w.pkg.PackData(w.wd, bytes.NewReader(data), name)
							c.NoErr(err, "pack")
							w.m.Add(name, data, nil)
						}
						c.NoErr(w.pkg.Sync(w.wt, w.second()), "finalize")
						w.closeFiles()
						w.disk = w.m.Clone()
						w.reader(start - 1)
						c.Logf("finalized package of two files with reader by %s", kit.Backends[start-1].Name)
						w.check()
					}
					for step := 0; step < depth; step++ {
						c.Prune(depth-step, w.key())
						var nrd = 3
						if len(w.readers) >= maxread {
							nrd = 0
						}
						switch k := c.Choose(7 + nrd); k {
						case 0, 1, 2: // insertion
							if !w.writing() {
								c.Stop()
							}
							var name = names[k]
							var data = fill("live "+name, sizes[k])
							var _, err = w.pkg.PackData(w.wd, bytes.NewReader(data), name)
							if w.m.Find(name) >= 0 {
								c.Assert(err != nil, "file %q is packed twice", name)
								c.Stop() // nothing was changed
							}
							c.NoErr(err, "pack")
							c.Logf("pack %q", name)
							w.m.Add(name, data, nil)
						case 3: // the first file gets another name
							if len(w.m.Ents) == 0 || w.m.Find("r/n") >= 0 {
								c.Stop()
							}
							var e = w.m.Ents[0].Clone()
							c.NoErr(w.pkg.Rename(e.Name, "r/n"), "rename")
							c.Logf("rename %q", e.Name)
							e.Name = "r/n"
							w.m.Del(0)
							w.m.Ents = append(w.m.Ents, e)
						case 4: // the last file is deleted
							var n = len(w.m.Ents) - 1
							if n < 0 {
								c.Stop()
							}
							var _, ok = w.pkg.DelTagset(w.m.Ents[n].Name)
							c.Assert(ok, "file %q can not be deleted", w.m.Ents[n].Name)
							c.Logf("delete %q", w.m.Ents[n].Name)
							w.m.Del(n)
						case 5: // flush of splitted package, or alias
							if w.split {
								if !w.writing() {
									c.Stop()
								}
								c.NoErr(w.pkg.Sync(w.wt, w.second()), "flush")
								c.Logf("flush")
								w.disk = w.m.Clone()
								break
							}
							if len(w.m.Ents) == 0 || w.m.Find("alias") >= 0 {
								c.Stop()
							}
							var e = w.m.Ents[0].Clone()
							c.NoErr(w.pkg.PutAlias(e.Name, "alias"), "alias")
							c.Logf("alias of %q", e.Name)
							e.Name = "alias"
							w.m.Ents = append(w.m.Ents, e)
						case 6: // session is finalized, or started again
							if w.writing() {
								c.NoErr(w.pkg.Sync(w.wt, w.second()), "finalize")
								c.Logf("finalize")
								w.closeFiles()
								w.disk = w.m.Clone()
							} else {
								w.files(0)
								c.NoErr(w.pkg.Append(w.wt, w.second()), "append")
								c.Logf("append")
								if !w.split {
									w.disk = nil
								}
							}
						default:
							c.Logf("open by %s", kit.Backends[k-7].Name)
							w.reader(k - 7)
						}
						w.check()
					}
					c.Outcome(w.key())
				}}
			}
			return []mc.Scenario{
				history("live package and its reader", pick(tier, 5, 8), 1),
				history("live package and two readers", pick(tier, 4, 7), 2),
				c26many(tier),
			}
		},
		Assumptions: []string{
			"one thread at a time works with the package, concurrent reading is at C14",
		},
		Rule: "every history of insertions, edits, flushes, sessions and openings by other objects is executed on real files; after each operation the live package object and each reader are compared with reference tables of theirs, all contents are read by real back-ends, files opened earlier are read again",
		Bounds: func(tier string) string {
			return fmt.Sprintf("histories from new package and from finished one with a reader, of %d operations with a reader of 3 back-ends, of %d operations with two readers, live object by memory map and by direct access, 3 files of up to 70000 bytes; databases growing by up to %d rounds, to %d files, with up to 10 readers", pick(tier, 5, 8), pick(tier, 4, 7), pick(tier, 12, 40), pick(tier, 700, 3100))
		},
	})
}
