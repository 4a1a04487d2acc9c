package kit

import (
	"bytes"
	"fmt"
	"os"

	"github.com/schwarzlichtbezirk/wpk"
	"github.com/schwarzlichtbezirk/wpk/bulk"
	"github.com/schwarzlichtbezirk/wpk/fsys"
	"github.com/schwarzlichtbezirk/wpk/mmap"
)

// Backends are all ways to access to nested files.
var Backends = []struct {
	Name string
	Make func(string) (wpk.Tagger, error)
}{
	{"bulk", bulk.MakeTagger},
	{"mmap", mmap.MakeTagger},
	{"fsys", fsys.MakeTagger},
}

// OpenReal opens package from real files with given back-end.
func OpenReal(wpt, dat string, backend int) (pkg *wpk.Package, err error) {
	pkg = wpk.NewPackage()
	if err = pkg.OpenFile(wpt); err != nil {
		return nil, err
	}
	if pkg.Tagger, err = Backends[backend].Make(dat); err != nil {
		return nil, err
	}
	return
}

// CheckReal compares package at real files with the model by every back-end.
func CheckReal(wpt, dat string, want *PModel) error {
	for i, be := range Backends {
		var pkg, err = OpenReal(wpt, dat, i)
		if err != nil {
			return fmt.Errorf("%s: opening: %w", be.Name, err)
		}
		err = want.CmpPkg(pkg)
		if err1 := pkg.Tagger.Close(); err == nil && err1 != nil {
			err = fmt.Errorf("closing: %w", err1)
		}
		if err != nil {
			return fmt.Errorf("%s: %w", be.Name, err)
		}
	}
	return nil
}

// SaveReal writes files content to the given path without extension,
// returns names of tags file and data file.
func SaveReal(base string, wpt, dat []byte, split bool) (ft, fd string, err error) {
	if !split {
		ft = base + ".wpk"
		return ft, ft, os.WriteFile(ft, wpt, 0644)
	}
	ft, fd = base+".wpt", base+".wpf"
	if err = os.WriteFile(ft, wpt, 0644); err == nil {
		err = os.WriteFile(fd, dat, 0644)
	}
	return
}

var zeros = make([]byte, 1<<22)

// SparseFile is file which stores only nonzero chunks.
type SparseFile struct {
	Chunks map[int64][]byte // offset -> content
	Pos    int64
	End    int64
}

func (f *SparseFile) Write(p []byte) (int, error) {
	if len(p) > len(zeros) || !bytes.Equal(p, zeros[:len(p)]) {
		f.Chunks[f.Pos] = append([]byte{}, p...)
	}
	f.Pos += int64(len(p))
	if f.Pos > f.End {
		f.End = f.Pos
	}
	return len(p), nil
}

func (f *SparseFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += f.Pos
	case 2:
		off += f.End
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	f.Pos = off
	return off, nil
}

// Save puts sparse file to the disk.
func (f *SparseFile) Save(fpath string) error {
	var w, err = os.Create(fpath)
	if err != nil {
		return err
	}
	defer w.Close()
	if err = w.Truncate(f.End); err != nil {
		return err
	}
	for off, b := range f.Chunks {
		if _, err = w.WriteAt(b, off); err != nil {
			return err
		}
	}
	return nil
}
