// Package kit has in-memory files, an independent encoder and decoder of the
// package format, and reference models.
package kit

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"time"

	"github.com/schwarzlichtbezirk/wpk"
)

// WriteOp is one logged write.
type WriteOp struct {
	File int
	Off  int64
	Data []byte
}

// WLog is common log of writes of several files.
type WLog struct {
	Ops []WriteOp
}

// MemFile is in-memory file with all that package writer and reader need.
type MemFile struct {
	Buf  []byte
	Pos  int64
	ID   int
	Log  *WLog
	Hook func(op string, n int) (max int, err error) // op: "read", "write", "seek"; max<0 - no limit
}

var ErrInjected = errors.New("injected i/o fault")

func (f *MemFile) Write(p []byte) (n int, err error) {
	var max = -1
	if f.Hook != nil {
		if max, err = f.Hook("write", len(p)); err != nil && max <= 0 {
			return 0, err
		}
	}
	if max >= 0 && max < len(p) {
		p = p[:max]
	}
	if end := f.Pos + int64(len(p)); end > int64(len(f.Buf)) {
		if end > int64(cap(f.Buf)) {
			var b = make([]byte, end, end*2+256)
			copy(b, f.Buf)
			f.Buf = b
		} else {
			f.Buf = f.Buf[:end]
		}
	}
	copy(f.Buf[f.Pos:], p)
	if f.Log != nil {
		f.Log.Ops = append(f.Log.Ops, WriteOp{f.ID, f.Pos, append([]byte{}, p...)})
	}
	f.Pos += int64(len(p))
	return len(p), err
}

func (f *MemFile) Read(p []byte) (n int, err error) {
	var max = -1
	if f.Hook != nil {
		if max, err = f.Hook("read", len(p)); err != nil {
			return 0, err
		}
	}
	if f.Pos >= int64(len(f.Buf)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	if max >= 0 && max < len(p) {
		p = p[:max]
	}
	n = copy(p, f.Buf[f.Pos:])
	f.Pos += int64(n)
	return
}

func (f *MemFile) ReadAt(p []byte, off int64) (n int, err error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= int64(len(f.Buf)) {
		return 0, io.EOF
	}
	if n = copy(p, f.Buf[off:]); n < len(p) {
		err = io.EOF
	}
	return
}

func (f *MemFile) Seek(off int64, whence int) (int64, error) {
	if f.Hook != nil {
		if _, err := f.Hook("seek", 0); err != nil {
			return 0, err
		}
	}
	switch whence {
	case io.SeekCurrent:
		off += f.Pos
	case io.SeekEnd:
		off += int64(len(f.Buf))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.Pos = off
	return off, nil
}

func (f *MemFile) Close() error { return nil }

// Bytes returns copy of content.
func (f *MemFile) Bytes() []byte { return append([]byte{}, f.Buf...) }

// Apply replays write to the image.
func Apply(img []byte, off int64, data []byte) []byte {
	if len(data) == 0 {
		return img
	}
	if end := off + int64(len(data)); end > int64(len(img)) {
		var b = make([]byte, end)
		copy(b, img)
		img = b
	}
	copy(img[off:], data)
	return img
}

// MemTagger is back-end over bytes in memory, written independently.
type MemTagger struct {
	Data     []byte
	Closed   int
	CloseErr error
}

type memRFile struct {
	*bytes.Reader
	ts wpk.TagsetRaw
}

func (f *memRFile) Stat() (fs.FileInfo, error) { return f.ts, nil }
func (f *memRFile) Close() error               { return nil }

func (t *MemTagger) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	var tags, err = ParseTags(ts)
	if err != nil {
		return nil, err
	}
	var off, ok1 = TagUint(tags, 1)
	var size, ok2 = TagUint(tags, 2)
	if !ok1 || !ok2 {
		return nil, errors.New("no offset or size")
	}
	if off > uint64(len(t.Data)) || size > uint64(len(t.Data))-off {
		return nil, errors.New("range is out of data")
	}
	return &memRFile{bytes.NewReader(t.Data[off : off+size]), ts}, nil
}

func (t *MemTagger) Close() error { t.Closed++; return t.CloseErr }

// FakeInfo is fs.FileInfo for in-memory sources.
type FakeInfo struct {
	Nm string
	Sz int64
	MT time.Time
}

func (i FakeInfo) Name() string       { return i.Nm }
func (i FakeInfo) Size() int64        { return i.Sz }
func (i FakeInfo) Mode() fs.FileMode  { return 0444 }
func (i FakeInfo) ModTime() time.Time { return i.MT }
func (i FakeInfo) IsDir() bool        { return false }
func (i FakeInfo) Sys() any           { return nil }

// FakeFile is file source with given content and information.
type FakeFile struct {
	io.Reader
	FakeInfo
}

func (f *FakeFile) Stat() (fs.FileInfo, error) { return f.FakeInfo, nil }
func (f *FakeFile) Close() error               { return nil }
