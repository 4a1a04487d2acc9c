package props

import (
	"bytes"
	"errors"
	"io"
	"io/fs"
	"time"

	"github.com/schwarzlichtbezirk/wpk"

	"vh/kit"
	"vh/vsync"
)

// cfile is file in memory shared by the threads. Each call is atomic, as for
// real files, and it makes no order between the threads for race detector.
type cfile struct {
	buf    [4096]byte
	n, pos int
	onhead func() // called when the header is written
}

//go:norace
func (f *cfile) put(p []byte) (head bool) {
	head = f.pos < wpk.HeaderSize
	for i := 0; i < len(p); i++ {
		f.buf[f.pos] = p[i]
		f.pos++
	}
	if f.pos > f.n {
		f.n = f.pos
	}
	return
}

func (f *cfile) Write(p []byte) (int, error) {
	vsync.Point("write")
	vsync.RaceRead(p)
	if f.put(p) && f.onhead != nil {
		f.onhead()
	}
	return len(p), nil
}

//go:norace
func (f *cfile) Seek(off int64, whence int) (int64, error) {
	vsync.Point("seek")
	switch whence {
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(f.n)
	}
	if off < 0 || off > int64(len(f.buf)) {
		return 0, errors.New("bad position")
	}
	f.pos = int(off)
	return off, nil
}

func (f *cfile) Close() error { return nil }

// bytes returns copy of the range, or nil if it's out of the file.
//
//go:norace
func (f *cfile) bytes(off, size uint64) []byte {
	if off > uint64(f.n) || size > uint64(f.n)-off {
		return nil
	}
	var b = make([]byte, size)
	for i := range b {
		b[i] = f.buf[int(off)+i]
	}
	return b
}

//go:norace
func (f *cfile) all() []byte { return f.bytes(0, uint64(f.n)) }

// ctagger gives access to nested files of cfile.
type ctagger struct {
	f *cfile
}

func (t *ctagger) OpenTagset(ts wpk.TagsetRaw) (wpk.RFile, error) {
	var tags, err = kit.ParseTags(ts)
	if err != nil {
		return nil, err
	}
	var off, ok1 = kit.TagUint(tags, 1)
	var size, ok2 = kit.TagUint(tags, 2)
	if !ok1 || !ok2 {
		return nil, errors.New("no offset or size")
	}
	vsync.Point("read")
	var b = t.f.bytes(off, size)
	if b == nil {
		return nil, errors.New("range is out of data")
	}
	return &crfile{bytes.NewReader(b), ts}, nil
}

func (t *ctagger) Close() error { return nil }

type crfile struct {
	*bytes.Reader
	ts wpk.TagsetRaw
}

func (f *crfile) Stat() (fs.FileInfo, error) { return f.ts, nil }
func (f *crfile) Close() error               { return nil }

// csource gives its content by two parts.
type csource struct {
	parts []string
}

func newSource(s string) *csource {
	return &csource{[]string{s[:len(s)/2], s[len(s)/2:]}}
}

func (r *csource) Read(p []byte) (n int, err error) {
	if len(r.parts) == 0 {
		return 0, io.EOF
	}
	n = copy(p, r.parts[0])
	if r.parts[0] = r.parts[0][n:]; r.parts[0] == "" {
		r.parts = r.parts[1:]
	}
	return
}

// cdisk is source that is file of the disk.
type cdisk struct {
	csource
	size int64
}

var cMtime = time.Date(2020, 2, 3, 4, 5, 6, 0, time.UTC)

func (f *cdisk) Stat() (fs.FileInfo, error) {
	return kit.FakeInfo{Nm: "file", Sz: f.size, MT: cMtime}, nil
}
func (f *cdisk) Close() error { return nil }
