package kit

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"sync"

	"github.com/schwarzlichtbezirk/wpk"
)

// World is package under work with its files in memory, and the model of it.
type World struct {
	Split    bool
	Same     bool // pass same writer as tags and data part for single package
	WPT, WPF *MemFile
	Log      *WLog
	Pkg      *wpk.Package
	Writing  bool
	M        *PModel // in-memory state
	Disk     *PModel // state that should be seen on open, nil - not ready
	NoFile   bool    // package file was not begun yet
	Gen      int
	DefWS    string
}

func NewWorld(split bool) *World {
	var w = &World{Split: split, NoFile: true, M: &PModel{}, Pkg: wpk.NewPackage()}
	w.newFiles()
	return w
}

func (w *World) newFiles() {
	w.Gen++
	w.WPT = &MemFile{ID: 0, Log: w.Log}
	w.WPF = nil
	if w.Split {
		w.WPF = &MemFile{ID: 1, Log: w.Log}
	}
}

// SetLog turns on log of writes.
func (w *World) SetLog(l *WLog) {
	w.Log = l
	w.WPT.Log = l
	if w.WPF != nil {
		w.WPF.Log = l
	}
}

func (w *World) DataFile() *MemFile {
	if w.Split {
		return w.WPF
	}
	return w.WPT
}

// second returns second parameter for package calls.
func (w *World) Second() io.WriteSeeker {
	if w.Split {
		return w.WPF
	}
	if w.Same {
		return w.WPT
	}
	return nil
}

// Dat returns bytes with data part.
func (w *World) Dat() []byte { return w.DataFile().Buf }

func (w *World) Begin() error {
	if err := w.Pkg.Begin(w.WPT, w.Second()); err != nil {
		return err
	}
	w.NoFile = false
	w.Writing = true
	var info, _ = ParseTags(w.Pkg.GetInfo())
	w.M = &PModel{Info: info} // it is not defined, whether info remains
	w.Disk = nil
	if w.Split {
		w.Disk = &PModel{}
	}
	return nil
}

// BeginNew starts new package at other files by the same object.
func (w *World) BeginNew() error {
	w.newFiles()
	return w.Begin()
}

func (w *World) Append() error {
	if err := w.Pkg.Append(w.WPT, w.Second()); err != nil {
		return err
	}
	w.Writing = true
	if !w.Split {
		w.Disk = nil
	}
	return nil
}

// Pack puts data, expected result is checked.
func (w *World) Pack(name string, data []byte) error {
	var nm = Slash(name)
	var df = w.DataFile()
	var before = len(df.Buf)
	var pos = df.Pos
	var ts, err = w.Pkg.PackData(df, bytes.NewReader(data), name)
	if w.M.Find(nm) >= 0 {
		if !errors.Is(err, fs.ErrExist) {
			return fmt.Errorf("packing of existing %q returns %v", name, err)
		}
		if len(df.Buf) != before || df.Pos != pos {
			return fmt.Errorf("packing of existing %q writes to the file", name)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("packing of %q: %w", name, err)
	}
	w.M.Add(nm, data, nil)
	if tags, err := ParseTags(ts); err != nil {
		return err
	} else if off, _ := TagUint(tags, 1); int64(off) != pos {
		return fmt.Errorf("packing of %q returns offset %d, real is %d", name, off, pos)
	} else if err = CmpEntry(&w.M.Ents[len(w.M.Ents)-1], tags, data); err != nil {
		return err
	}
	return nil
}

func (w *World) Sync() error {
	if err := w.Pkg.Sync(w.WPT, w.Second()); err != nil {
		return err
	}
	w.Disk = w.M.Clone()
	return nil
}

func (w *World) Finalize() error {
	if err := w.Sync(); err != nil {
		return err
	}
	w.Writing = false
	return nil
}

// Reopen reads package from the files, to new object, or to the same one.
func (w *World) Reopen(fresh bool) error {
	if fresh {
		w.Pkg = wpk.NewPackage()
	}
	if err := OpenMem(w.Pkg, w.WPT.Buf); err != nil {
		return fmt.Errorf("reopening: %w", err)
	}
	w.M = w.Disk.Clone()
	return nil
}

func expect(err, want error, what string) error {
	if want == nil && err != nil {
		return fmt.Errorf("%s: unexpected error %v", what, err)
	}
	if want != nil && !errors.Is(err, want) {
		return fmt.Errorf("%s: error is %v, want '%v'", what, err, want)
	}
	return nil
}

func (w *World) Rename(from, to string) error {
	var err = w.Pkg.Rename(from, to)
	var f, t = Slash(from), Slash(to)
	var i = w.M.Find(f)
	var want error
	if i < 0 {
		want = fs.ErrNotExist
	} else if w.M.Find(t) >= 0 {
		want = fs.ErrExist
	} else {
		var e = w.M.Ents[i].Clone()
		e.Name = t
		w.M.Del(i)
		w.M.Ents = append(w.M.Ents, e)
	}
	return expect(err, want, fmt.Sprintf("rename %q to %q", from, to))
}

func (w *World) Alias(from, to string) error {
	var err = w.Pkg.PutAlias(from, to)
	var f, t = Slash(from), Slash(to)
	var i = w.M.Find(f)
	var want error
	if i < 0 {
		want = fs.ErrNotExist
	} else if w.M.Find(t) >= 0 {
		want = fs.ErrExist
	} else {
		var e = w.M.Ents[i].Clone()
		e.Name = t
		w.M.Ents = append(w.M.Ents, e)
	}
	return expect(err, want, fmt.Sprintf("alias of %q as %q", from, to))
}

func (w *World) Delete(name string) error {
	var _, ok = w.Pkg.DelTagset(name)
	var i = w.M.Find(Slash(name))
	if ok != (i >= 0) {
		return fmt.Errorf("delete %q returns %v", name, ok)
	}
	if i >= 0 {
		w.M.Del(i)
	}
	return nil
}

// Retag returns tagset with the tag: new one is put to the tagset that package
// gave, present one is replaced at the copy of it.
func Retag(ts wpk.TagsetRaw, tid uint16, val string) wpk.TagsetRaw {
	if !ts.Has(tid) {
		return ts.Put(tid, wpk.StrTag(val))
	}
	return wpk.CopyTagset(ts).Set(tid, wpk.StrTag(val))
}

// SetTag changes tag of entry.
func (w *World) SetTag(name string, tid uint16, val string) error {
	var ts, ok = w.Pkg.GetTagset(name)
	var i = w.M.Find(Slash(name))
	if ok != (i >= 0) {
		return fmt.Errorf("get of tagset %q returns %v", name, ok)
	}
	if ok {
		w.Pkg.SetTagset(name, Retag(ts, tid, val))
		w.M.Ents[i].Tags[tid] = val
	}
	return nil
}

func (w *World) SetInfo(info []Tag) {
	w.M.Info = info
	w.Pkg.SetInfo(EncTags(info))
}

// AddInfo puts the tag to present information, if it has no such tag.
func (w *World) AddInfo(tid uint16, val string) {
	var ts = w.Pkg.GetInfo()
	if !ts.Has(tid) {
		w.M.Info = append(w.M.Info[:len(w.M.Info):len(w.M.Info)], Tag{ID: tid, Val: []byte(val)})
		w.Pkg.SetInfo(ts.Put(tid, wpk.StrTag(val)))
	}
}

// Check compares in-memory state with the model, and files with the last
// state that should be seen on open.
func (w *World) Check() error {
	w.Pkg.Tagger = &MemTagger{Data: w.Dat()}
	if err := w.M.CmpPkg(w.Pkg); err != nil {
		return fmt.Errorf("in memory: %w", err)
	}
	return w.CheckDisk()
}

// CheckDisk compares files with the last state that should be seen on open.
func (w *World) CheckDisk() error {
	if w.NoFile {
		return nil
	}
	return CheckFiles(w.WPT.Buf, w.Dat(), w.Split, w.Disk)
}

// CheckFiles compares package files with expected state, nil is not ready.
// Files are decoded independently and opened by library.
func CheckFiles(wpt, dat []byte, split bool, want *PModel) error {
	var pkg = wpk.NewPackage()
	var operr = OpenMem(pkg, wpt)
	if want == nil {
		if operr == nil {
			return fmt.Errorf("package that is not ready is opened, it shows %d entries", pkg.TagsetNum())
		}
		if !errors.Is(operr, wpk.ErrSignPre) {
			return fmt.Errorf("opening of not ready package: error is '%v', want '%v'", operr, wpk.ErrSignPre)
		}
		return nil
	}
	var foreign []bool
	for _, e := range want.Ents {
		if e.Raw != "" {
			foreign = []bool{true}
		}
	}
	var img, err = DecodeStrict(wpt, foreign...)
	if err != nil {
		return fmt.Errorf("decoding: %w (library: %v)", err, operr)
	}
	if (img.Hdr.DatOff == 0) != split {
		return fmt.Errorf("header has data offset %d, split is %v", img.Hdr.DatOff, split)
	}
	if err = want.CmpImage(img, dat); err != nil {
		return fmt.Errorf("decoded: %w", err)
	}
	if operr != nil {
		return fmt.Errorf("opening: %w", operr)
	}
	if pkg.IsSplitted() != split {
		return fmt.Errorf("opened package has split %v", pkg.IsSplitted())
	}
	if uint64(pkg.DataSize()) != img.Hdr.DatSize {
		return fmt.Errorf("opened package has data size %d, want %d", pkg.DataSize(), img.Hdr.DatSize)
	}
	pkg.Tagger = &MemTagger{Data: dat}
	if err = want.CmpPkg(pkg); err != nil {
		return fmt.Errorf("opened: %w", err)
	}
	return nil
}

// Key is fingerprint of the whole world state.
func (w *World) Key() string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "%v|%v|%s|%s|%d|", w.Writing, w.NoFile, w.M.Key(), w.Disk.Key(), w.WPT.Pos)
	b.Write(w.WPT.Buf)
	if w.WPF != nil {
		fmt.Fprintf(&b, "|%d|", w.WPF.Pos)
		b.Write(w.WPF.Buf)
	}
	fmt.Fprintf(&b, "|%d|%v|%x", w.Pkg.DataSize(), w.Pkg.IsSplitted(), []byte(w.Pkg.GetInfo()))
	w.Pkg.Enum(func(k string, ts wpk.TagsetRaw) bool {
		fmt.Fprintf(&b, "|%s=%x", k, []byte(ts))
		return true
	})
	return b.String()
}

// decoys are small packages.
var decoys = sync.OnceValue(func() (bufs [][]byte) {
	for i := range 2 {
		var d, f = wpk.NewPackage(), &MemFile{}
		if d.Begin(f, nil) != nil {
			break
		}
		for k := range 1 + 3*i {
			d.PackData(f, strings.NewReader("other"), fmt.Sprintf("~other%d", k))
		}
		d.SetInfo(wpk.TagsetRaw{}.Put(wpk.TIDlabel, wpk.StrTag("other")))
		d.Sync(f, nil)
		bufs = append(bufs, f.Buf)
	}
	return
})

// OpenMem opens the package from the memory, and other small packages after
// that, so nothing of the first one should be changed.
func OpenMem(pkg *wpk.Package, buf []byte) error {
	var others = decoys()
	var err = pkg.OpenStream(&MemFile{Buf: buf})
	for _, b := range others {
		wpk.NewPackage().OpenStream(&MemFile{Buf: b})
	}
	return err
}
