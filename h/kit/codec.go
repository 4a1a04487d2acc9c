package kit

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
)

// Independent implementation of the format documentation.

// Tag is one record of tagset.
type Tag struct {
	ID  uint16
	Val []byte
}

var (
	SignReady = []byte("Whirlwind 3.4 Package   ")
	SignBuild = []byte("Whirlwind 3.4 Prebuild  ")
)

// ParseTags decodes tagset strictly.
func ParseTags(b []byte) (tags []Tag, err error) {
	for len(b) > 0 {
		if len(b) < 4 {
			return nil, errors.New("broken tag header")
		}
		var id, n = binary.LittleEndian.Uint16(b), int(binary.LittleEndian.Uint16(b[2:]))
		if len(b) < 4+n {
			return nil, errors.New("broken tag content")
		}
		tags = append(tags, Tag{id, append([]byte{}, b[4:4+n]...)})
		b = b[4+n:]
	}
	return
}

// EncTags encodes tagset.
func EncTags(tags []Tag) (b []byte) {
	for _, t := range tags {
		b = binary.LittleEndian.AppendUint16(b, t.ID)
		b = binary.LittleEndian.AppendUint16(b, uint16(len(t.Val)))
		b = append(b, t.Val...)
	}
	return
}

// Uint decodes 1, 2, 4, 8 - bytes integer.
func Uint(b []byte) (uint64, bool) {
	switch len(b) {
	case 1:
		return uint64(b[0]), true
	case 2:
		return uint64(binary.LittleEndian.Uint16(b)), true
	case 4:
		return uint64(binary.LittleEndian.Uint32(b)), true
	case 8:
		return binary.LittleEndian.Uint64(b), true
	}
	return 0, false
}

// EncUint encodes integer to given width, 0 is for minimal one.
func EncUint(v uint64, w int) []byte {
	if w == 0 {
		switch {
		case v <= 0xff:
			w = 1
		case v <= 0xffff:
			w = 2
		case v <= 0xffffffff:
			w = 4
		default:
			w = 8
		}
	}
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], v)
	return append([]byte{}, b[:w]...)
}

func Find(tags []Tag, id uint16) ([]byte, bool) {
	for _, t := range tags {
		if t.ID == id {
			return t.Val, true
		}
	}
	return nil, false
}

func TagUint(tags []Tag, id uint16) (uint64, bool) {
	if v, ok := Find(tags, id); ok {
		return Uint(v)
	}
	return 0, false
}

// Header of package.
type Header struct {
	Sign                                    [24]byte
	Count, FttOff, FttSize, DatOff, DatSize uint64
}

func DecHeader(b []byte) (h Header, ok bool) {
	if len(b) < 64 {
		return
	}
	copy(h.Sign[:], b)
	h.Count = binary.LittleEndian.Uint64(b[24:])
	h.FttOff = binary.LittleEndian.Uint64(b[32:])
	h.FttSize = binary.LittleEndian.Uint64(b[40:])
	h.DatOff = binary.LittleEndian.Uint64(b[48:])
	h.DatSize = binary.LittleEndian.Uint64(b[56:])
	return h, true
}

func (h Header) Enc() []byte {
	var b = append([]byte{}, h.Sign[:]...)
	for _, v := range []uint64{h.Count, h.FttOff, h.FttSize, h.DatOff, h.DatSize} {
		b = binary.LittleEndian.AppendUint64(b, v)
	}
	return b
}

func (h Header) Ready() bool { return bytes.Equal(h.Sign[:], SignReady) }
func (h Header) Build() bool { return bytes.Equal(h.Sign[:], SignBuild) }

// Entry is decoded table entry.
type Entry struct {
	Name      string
	Off, Size uint64
	Tags      []Tag
	Raw       []byte
}

// Image is decoded package.
type Image struct {
	Hdr     Header
	Info    []Tag
	InfoRaw []byte
	Ents    []Entry
	Tail    int  // bytes remained after the table end
	Dup     bool // some tag of some tagset is repeated
}

var ErrNotReady = errors.New("not ready")

// DecodeStrict is as Decode, but does not accept anything odd.
// Paths with backslashes are accepted if foreign is set.
func DecodeStrict(b []byte, foreign ...bool) (img *Image, err error) {
	if img, err = Decode(b); err != nil {
		return
	}
	if img.Tail > 0 {
		return nil, errors.New("garbage after the table end")
	}
	if img.Dup {
		return nil, errors.New("tag repeats")
	}
	if img.Hdr.Count != uint64(len(img.Ents)) {
		return nil, fmt.Errorf("header has %d entries, table has %d", img.Hdr.Count, len(img.Ents))
	}
	for i := range img.Ents {
		if p, _ := Find(img.Ents[i].Tags, 3); string(p) != img.Ents[i].Name && len(foreign) == 0 {
			return nil, errors.New("name is not normalized")
		}
	}
	return
}

// Decode decodes tags part by the format documentation. Error means that
// package is not ready, or is not a package, or is damaged.
func Decode(b []byte) (img *Image, err error) {
	var h, ok = DecHeader(b)
	if !ok {
		return nil, errors.New("short header")
	}
	if h.Build() {
		if h.DatOff != 0 {
			return nil, ErrNotReady
		}
	} else if !h.Ready() {
		return nil, errors.New("bad signature")
	}
	img = &Image{Hdr: h}
	if h.FttSize == 0 {
		return
	}
	if h.FttOff > uint64(len(b)) || h.FttSize > uint64(len(b))-h.FttOff {
		return nil, errors.New("table is out of file")
	}
	var t = b[h.FttOff : h.FttOff+h.FttSize]
	var next = func() (ts []byte, err error) {
		if len(t) < 2 {
			return nil, errors.New("broken table")
		}
		var n = int(binary.LittleEndian.Uint16(t))
		if len(t) < 2+n {
			return nil, errors.New("broken table")
		}
		ts, t = t[2:2+n], t[2+n:]
		return
	}
	if img.InfoRaw, err = next(); err != nil {
		return nil, err
	}
	if img.Info, err = ParseTags(img.InfoRaw); err != nil {
		return nil, err
	}
	var names = map[string]bool{}
	for {
		var ts []byte
		if ts, err = next(); err != nil {
			return nil, err
		}
		if len(ts) == 0 {
			break
		}
		var e = Entry{Raw: ts}
		if e.Tags, err = ParseTags(ts); err != nil {
			return nil, err
		}
		if _, err := TagsMap(e.Tags); err != nil {
			img.Dup = true
		}
		var name, ok1 = Find(e.Tags, 3)
		var ok2, ok3 bool
		e.Off, ok2 = TagUint(e.Tags, 1)
		e.Size, ok3 = TagUint(e.Tags, 2)
		if !ok1 || !ok2 || !ok3 {
			return nil, errors.New("required tag is absent")
		}
		e.Name = Slash(string(name))
		if names[e.Name] {
			return nil, errors.New("name repeats")
		}
		names[e.Name] = true
		if h.DatOff+h.DatSize < h.DatOff || e.Off < h.DatOff || e.Off+e.Size < e.Off || e.Off+e.Size > h.DatOff+h.DatSize {
			return nil, errors.New("range is out of data section")
		}
		img.Ents = append(img.Ents, e)
	}
	img.Tail = len(t)
	return
}

// Content returns file content from the data part.
func (e *Entry) Content(dat []byte) ([]byte, error) {
	if e.Off > uint64(len(dat)) || e.Size > uint64(len(dat))-e.Off {
		return nil, fmt.Errorf("range %d+%d is out of data part %d", e.Off, e.Size, len(dat))
	}
	return dat[e.Off : e.Off+e.Size], nil
}

// EncTable encodes table from info and entries tagsets.
func EncTable(info []byte, sets [][]byte) (b []byte) {
	b = binary.LittleEndian.AppendUint16(b, uint16(len(info)))
	b = append(b, info...)
	for _, s := range sets {
		b = binary.LittleEndian.AppendUint16(b, uint16(len(s)))
		b = append(b, s...)
	}
	return append(b, 0, 0)
}
