package kit

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/fs"
	"sort"
	"strings"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

// PEnt is entry of reference package model. Tags are all tags except of
// offset, size and path.
type PEnt struct {
	Name string
	Data []byte
	Tags map[uint16]string
	Raw  string // path as it is stored at the package made by other software, if it differs from the name
}

// PModel is reference model of package: ordered list of named entries.
type PModel struct {
	Ents []PEnt
	Info []Tag
	idx  map[string]int // positions of entries, for large models only
}

func (m *PModel) Clone() *PModel {
	if m == nil {
		return nil
	}
	var r = &PModel{Info: append([]Tag{}, m.Info...)}
	for _, e := range m.Ents {
		r.Ents = append(r.Ents, e.Clone())
	}
	return r
}

func (e PEnt) Clone() PEnt {
	var t = map[uint16]string{}
	for k, v := range e.Tags {
		t[k] = v
	}
	return PEnt{e.Name, e.Data, t, e.Raw}
}

func (m *PModel) Find(name string) int {
	if len(m.Ents) > 64 {
		if m.idx == nil || len(m.idx) > len(m.Ents) {
			m.idx = map[string]int{}
		}
		for i := len(m.idx); i < len(m.Ents); i++ {
			m.idx[m.Ents[i].Name] = i
		}
		var i, ok = m.idx[name]
		if !ok {
			return -1
		}
		if m.Ents[i].Name == name {
			return i
		}
	}
	for i := range m.Ents {
		if m.Ents[i].Name == name {
			return i
		}
	}
	return -1
}

// Slash is independent slash normalization.
func Slash(s string) string { return strings.ReplaceAll(s, "\\", "/") }

func (m *PModel) Add(name string, data []byte, tags map[uint16]string) {
	if tags == nil {
		tags = map[uint16]string{}
	}
	m.Ents = append(m.Ents, PEnt{Name: name, Data: data, Tags: tags})
}

func (m *PModel) Del(i int) {
	m.Ents = append(m.Ents[:i:i], m.Ents[i+1:]...)
	m.idx = nil
}

// Key is canonical form of the model.
func (m *PModel) Key() string {
	if m == nil {
		return "-"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%x;", EncTags(m.Info))
	for _, e := range m.Ents {
		fmt.Fprintf(&b, "%q=%q%s;", e.Name, e.Data, tagsKey(e.Tags))
		if e.Raw != "" {
			fmt.Fprintf(&b, "%q;", e.Raw)
		}
	}
	return b.String()
}

// String is short description.
func (m *PModel) String() string {
	if m == nil {
		return "(not ready)"
	}
	var s []string
	for _, e := range m.Ents {
		s = append(s, fmt.Sprintf("%q(%d bytes)", e.Name, len(e.Data)))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func tagsKey(t map[uint16]string) string {
	var ids []int
	for id := range t {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, id := range ids {
		fmt.Fprintf(&b, ",%d:%x", id, t[uint16(id)])
	}
	return b.String()
}

// TagsMap makes map of tags, duplicates are the error.
func TagsMap(tags []Tag) (map[uint16]string, error) {
	var m = map[uint16]string{}
	for _, t := range tags {
		if _, ok := m[t.ID]; ok {
			return nil, fmt.Errorf("tag %d repeats", t.ID)
		}
		m[t.ID] = string(t.Val)
	}
	return m, nil
}

func cut(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// CmpEntry compares decoded tagset and content with expected entry.
func CmpEntry(want *PEnt, tags []Tag, data []byte) error {
	var tm, err = TagsMap(tags)
	if err != nil {
		return fmt.Errorf("entry %q: %v", want.Name, err)
	}
	if tm[3] != want.Name && (want.Raw == "" || tm[3] != want.Raw) {
		return fmt.Errorf("entry %q has path tag %q", want.Name, tm[3])
	}
	if size, ok := TagUint(tags, 2); !ok || size != uint64(len(want.Data)) {
		return fmt.Errorf("entry %q has size %d, want %d", want.Name, size, len(want.Data))
	}
	if _, ok := tm[1]; !ok {
		return fmt.Errorf("entry %q has no offset", want.Name)
	}
	delete(tm, 1)
	delete(tm, 2)
	delete(tm, 3)
	if tagsKey(tm) != tagsKey(want.Tags) {
		return fmt.Errorf("entry %q has tags %s, want %s", want.Name, tagsKey(tm), tagsKey(want.Tags))
	}
	if !bytes.Equal(data, want.Data) {
		return fmt.Errorf("entry %q has content %s, want %s", want.Name, cut(data), cut(want.Data))
	}
	return nil
}

// CmpImage compares independently decoded package with the model.
func (m *PModel) CmpImage(img *Image, dat []byte) error {
	if len(img.Ents) != len(m.Ents) {
		var s []string
		for _, e := range img.Ents {
			s = append(s, e.Name)
		}
		return fmt.Errorf("package has entries %q, want %v", s, m)
	}
	if int(img.Hdr.Count) != len(m.Ents) {
		return fmt.Errorf("header has %d entries, want %d", img.Hdr.Count, len(m.Ents))
	}
	if !bytes.Equal(EncTags(m.Info), img.InfoRaw) {
		return fmt.Errorf("package info is %x, want %x", img.InfoRaw, EncTags(m.Info))
	}
	for i := range m.Ents {
		if img.Ents[i].Name != m.Ents[i].Name {
			return fmt.Errorf("entry #%d is %q, want %q", i, img.Ents[i].Name, m.Ents[i].Name)
		}
		var data, err = img.Ents[i].Content(dat)
		if err != nil {
			return fmt.Errorf("entry %q: %v", m.Ents[i].Name, err)
		}
		if err = CmpEntry(&m.Ents[i], img.Ents[i].Tags, data); err != nil {
			return err
		}
	}
	return nil
}

// CmpPkg compares what the package object shows with the model. Files content
// is read by tagger of the package if it is present.
func (m *PModel) CmpPkg(pkg *wpk.Package) (err error) {
	if n := pkg.TagsetNum(); n != len(m.Ents) {
		return fmt.Errorf("package has %d tagsets, want %d", n, len(m.Ents))
	}
	if !bytes.Equal(pkg.GetInfo(), EncTags(m.Info)) {
		return fmt.Errorf("package info is %x, want %x", []byte(pkg.GetInfo()), EncTags(m.Info))
	}
	var i int
	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
		if i >= len(m.Ents) {
			err = fmt.Errorf("extra entry %q", fkey)
			return false
		}
		var want = &m.Ents[i]
		if fkey != want.Name {
			err = fmt.Errorf("entry #%d is %q, want %q", i, fkey, want.Name)
			return false
		}
		i++
		var tags []Tag
		if tags, err = ParseTags(ts); err != nil {
			return false
		}
		var ts2, ok = pkg.GetTagset(fkey)
		if !ok || !bytes.Equal(ts2, ts) || !pkg.HasTagset(fkey) {
			err = fmt.Errorf("entry %q is not found by its name", fkey)
			return false
		}
		var data = want.Data
		if pkg.Tagger != nil {
			if data, err = pkg.ReadFile(fkey); err != nil {
				err = fmt.Errorf("reading %q: %w", fkey, err)
				return false
			}
		}
		if err = CmpEntry(want, tags, data); err != nil {
			return false
		}
		err = CheckTags(ts, tags)
		return err == nil
	})
	if err == nil && i != len(m.Ents) {
		err = fmt.Errorf("enumeration gives %d entries of %d", i, len(m.Ents))
	}
	return
}

// decTime decodes tag of time, tells whether it has valid size.
func decTime(b []byte) (t time.Time, ok bool) {
	switch len(b) {
	case 8:
		return time.UnixMilli(int64(binary.LittleEndian.Uint64(b))), true
	case 12:
		return time.Unix(int64(binary.LittleEndian.Uint64(b)), int64(binary.LittleEndian.Uint32(b[8:]))), true
	}
	return time.Time{}, false
}

// CheckTags compares everything that methods of file tagset show
// with independently decoded tags.
func CheckTags(ts wpk.TagsetRaw, tags []Tag) error {
	var tm, err = TagsMap(tags)
	if err != nil {
		return err
	}
	var name = Slash(tm[3])
	var off, isoff = TagUint(tags, 1)
	var size, issize = TagUint(tags, 2)
	if isoff && issize {
		if o, s := ts.Pos(); uint64(o) != off || uint64(s) != size {
			return fmt.Errorf("entry %q: position is (%d, %d), want (%d, %d)", name, o, s, off, size)
		}
	}
	if issize && uint64(ts.Size()) != size {
		return fmt.Errorf("entry %q: size is %d, want %d", name, ts.Size(), size)
	}
	if ts.Path() != name {
		return fmt.Errorf("entry %q: path is %q", name, ts.Path())
	}
	if ts.Num() != len(tags) {
		return fmt.Errorf("entry %q: has %d tags, want %d", name, ts.Num(), len(tags))
	}
	if base := name[strings.LastIndexByte(name, '/')+1:]; base != "" && ts.Name() != base {
		return fmt.Errorf("entry %q: name is %q, want %q", name, ts.Name(), base)
	}
	var mode = fs.FileMode(0444)
	if !issize {
		mode = fs.ModeDir
	}
	if ts.IsDir() == issize || ts.Mode() != mode || ts.Type() != mode.Type() {
		return fmt.Errorf("entry %q: mode is %v, type is %v, directory %v", name, ts.Mode(), ts.Type(), ts.IsDir())
	}
	for id, v := range tm {
		var got, ok = ts.Get(id)
		if !ok || string(got) != v || !ts.Has(id) {
			return fmt.Errorf("entry %q: tag %d is %q, want %q", name, id, []byte(got), v)
		}
	}
	for i, get := range []func() time.Time{ts.ModTime, ts.AccessTime, ts.ChangeTime, ts.BirthTime} {
		var id = []uint16{wpk.TIDmtime, wpk.TIDatime, wpk.TIDctime, wpk.TIDbtime}[i]
		if want, ok := decTime([]byte(tm[id])); ok && !get().Equal(want) {
			return fmt.Errorf("entry %q: time %d is %v, want %v", name, id, get(), want)
		}
	}
	var _, isc = tm[wpk.TIDctime]
	var _, isb = tm[wpk.TIDbtime]
	if ts.HasChangeTime() != isc || ts.HasBirthTime() != isb {
		return fmt.Errorf("entry %q: existence of times is wrong", name)
	}
	return nil
}
