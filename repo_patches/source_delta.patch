From 9416cf78521e9f32a802fa3b9b6512844c034a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:53 +0000
Subject: [PATCH 01/55] fix: search of tag with zero identifier in tagset

Iterator has zero tag ID at the end of tagset, so Has, Get, Add, Set and Del
took the end of tagset for the tag with zero ID.
---
 tagset.go | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/tagset.go b/tagset.go
index 115386f..4c6f6eb 100644
--- a/tagset.go
+++ b/tagset.go
@@ -243,9 +243,7 @@ func (ts TagsetRaw) Num() (n int) {
 // Has checks existence of tag with given ID.
 func (ts TagsetRaw) Has(tid TID) bool {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	return tsi.tid == tid
+	return tsi.find(tid)
 }
 
 // GetTag returns TagRaw with given identifier.
@@ -253,13 +251,8 @@ func (ts TagsetRaw) Has(tid TID) bool {
 // returns false.
 func (ts TagsetRaw) Get(tid TID) (TagRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.Failed() {
-		return nil, false // io.ErrUnexpectedEOF
-	}
-	if tsi.tid != tid {
-		return nil, false // ErrNoTag
+	if !tsi.find(tid) {
+		return nil, false // ErrNoTag, or io.ErrUnexpectedEOF on broken content
 	}
 	return TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]), true
 }
@@ -288,9 +281,7 @@ func (ts TagsetRaw) Add(tid TID, tag TagRaw) TagsetRaw {
 // Returns true if it added.
 func (ts TagsetRaw) AddOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid == tid {
+	if tsi.find(tid) {
 		return ts, false
 	}
 	return ts.Put(tid, tag), true
@@ -307,9 +298,7 @@ func (ts TagsetRaw) Set(tid TID, tag TagRaw) TagsetRaw {
 // appends it to tagset. Returns true if new one added.
 func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid != tid {
+	if !tsi.find(tid) {
 		return ts.Put(tid, tag), true
 	}
 
@@ -334,9 +323,7 @@ func (ts TagsetRaw) Del(tid TID) TagsetRaw {
 // DelOk deletes tag with given ID. Returns true if tagset was modified.
 func (ts TagsetRaw) DelOk(tid TID) (TagsetRaw, bool) {
 	var tsi = ts.Iterator()
-	for tsi.Next() && tsi.tid != tid {
-	}
-	if tsi.tid != tid {
+	if !tsi.find(tid) {
 		return ts, false // ErrNoTag
 	}
 	ts = append(ts[:tsi.tag-PTStagsz-PTStidsz], ts[tsi.pos:]...)
@@ -624,6 +611,16 @@ func (tsi *TagsetIterator) Next() (ok bool) {
 	return
 }
 
+// find carries to the tag with given ID. Returns false if there is no such tag.
+func (tsi *TagsetIterator) find(tid TID) bool {
+	for tsi.Next() {
+		if tsi.tid == tid {
+			return true
+		}
+	}
+	return false
+}
+
 // Put is the stub to disable any changes to data content of iterator.
 func (tsi *TagsetIterator) Put(tid TID, tag TagRaw) TagsetRaw {
 	panic(ErrTsiConst)
-- 
2.43.0


From 772626798d8b4fbcc0f3cee91a0906436617228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:57 +0000
Subject: [PATCH 02/55] fix: growing of a tag in the tagset with spare capacity

Append of the longer content overwrites the following tags before they
are moved, if the slice has enough capacity.
---
 tagset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tagset.go b/tagset.go
index 4c6f6eb..e9b7125 100644
--- a/tagset.go
+++ b/tagset.go
@@ -307,7 +307,7 @@ func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 		copy(ts[tsi.tag:tsi.pos], tag)
 	} else {
 		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], tl) // set tag length
-		var suff = ts[tsi.pos:]
+		var suff = append(TagsetRaw{}, ts[tsi.pos:]...) // copy, it can be overwritten below
 		ts = append(ts[:tsi.tag], tag...)
 		ts = append(ts, suff...)
 	}
-- 
2.43.0


From 360e18cb790df36b0b545d33589480bc9623ad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:16 +0000
Subject: [PATCH 03/55] fix: packing of files from virtual file systems

---
 writer.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/writer.go b/writer.go
index 25a043f..324b1ce 100644
--- a/writer.go
+++ b/writer.go
@@ -169,6 +169,20 @@ func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts Tag
 	return
 }
 
+// timespec returns timestamps of the file, or nil if nothing except
+// the modification time is known, as for the files of virtual file systems.
+func timespec(fi fs.FileInfo) (tsp times.Timespec) {
+	if tsp, ok := fi.(times.Timespec); ok {
+		return tsp
+	}
+	defer func() {
+		if recover() != nil { // system-specific information is not provided
+			tsp = nil
+		}
+	}()
+	return times.Get(fi)
+}
+
 // PackFile puts file with given file handle into package and associate keyname "fkey" with it.
 func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts TagsetRaw, err error) {
 	var fi os.FileInfo
@@ -180,8 +194,12 @@ func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts Ta
 	}
 
 	//ts = ts.Put(TIDmtime, TimeTag(fi.ModTime()))
-	var tsp = times.Get(fi)
-	ts = ts.Put(TIDmtime, TimeTag(tsp.ModTime()))
+	ts = ts.Put(TIDmtime, TimeTag(fi.ModTime()))
+	var tsp = timespec(fi)
+	if tsp == nil {
+		pkg.SetTagset(fkey, ts)
+		return
+	}
 	ts = ts.Put(TIDatime, TimeTag(tsp.AccessTime()))
 	if tsp.HasChangeTime() {
 		ts = ts.Put(TIDctime, TimeTag(tsp.ChangeTime()))
-- 
2.43.0


From 29b3038a731e08beb5620361bf6a69a70dc53356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 04/55] fix: whole-file read of empty and partially read files

---
 union.go | 2 +-
 wpk.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/union.go b/union.go
index 9984f15..c5de5ad 100644
--- a/union.go
+++ b/union.go
@@ -144,7 +144,7 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 
 			var size = ts.Size()
 			var buf = make([]byte, size)
-			_, err = f.Read(buf)
+			_, err = io.ReadFull(f, buf)
 			return buf, err
 		}
 	}
diff --git a/wpk.go b/wpk.go
index a5cb640..5e4f8e2 100644
--- a/wpk.go
+++ b/wpk.go
@@ -722,7 +722,7 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 
 		var size = ts.Size()
 		var buf = make([]byte, size)
-		_, err = f.Read(buf)
+		_, err = io.ReadFull(f, buf)
 		return buf, err
 	}
 	return nil, &fs.PathError{Op: "readfile", Path: fkey, Err: fs.ErrNotExist}
-- 
2.43.0


From ced623045dd259e6f546c06d57f0aa509a2849f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:00 +0000
Subject: [PATCH 05/55] fix: opening of package with information and without
 files

---
 wpk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 5e4f8e2..5f2843a 100644
--- a/wpk.go
+++ b/wpk.go
@@ -527,7 +527,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// setup empty tags table with reserved map size
 	ftt.Init(&hdr)
-	if hdr.fttcount == 0 || hdr.fttsize == 0 {
+	if hdr.fttsize == 0 {
 		return
 	}
 	// go to file tags table start
-- 
2.43.0


From 166fd75834ae91fceb025d4e3004dffb8169805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:16 +0000
Subject: [PATCH 06/55] fix: memory mapping of empty files

---
 mmap/mmap.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index fdc5626..40db21d 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -30,6 +30,13 @@ func NewMappedFile(fwpk *os.File, ts wpk.TagsetRaw) (f *MappedFile, err error) {
 	var pgoff = offset % pagesize
 	var offsetx = offset - pgoff
 	var sizex = size + pgoff
+	if size == 0 { // empty block can not be mapped
+		f = &MappedFile{
+			PkgReader: bytes.NewReader(nil),
+			tags:      ts,
+		}
+		return
+	}
 	// create mapped memory block
 	var mmap mm.MMap
 	if mmap, err = mm.MapRegion(fwpk, int(sizex), mm.RDONLY, 0, int64(offsetx)); err != nil {
@@ -51,6 +58,9 @@ func (f *MappedFile) Stat() (fs.FileInfo, error) {
 
 // Close unmaps memory and closes mapped memory handle.
 func (f *MappedFile) Close() error {
+	if f.MMap == nil { // nothing is mapped for empty file
+		return nil
+	}
 	return f.Unmap()
 }
 
-- 
2.43.0


From f99f85afb043a8dc44ed33bbbcc454738739bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:13 +0000
Subject: [PATCH 07/55] fix: entries of previous package in just begun one

---
 writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.go b/writer.go
index 324b1ce..2687451 100644
--- a/writer.go
+++ b/writer.go
@@ -42,6 +42,8 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
+	// new package is empty, drop entries of previous one
+	ftt.tsm.Init(0)
 	// update data offset/pos
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 	return
-- 
2.43.0


From d48ac5075df58f72ddb0f5cb694a3e73332d916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:57 +0000
Subject: [PATCH 08/55] fix: package info query on just begun splitted package

---
 wpk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wpk.go b/wpk.go
index 5f2843a..cd1ed5e 100644
--- a/wpk.go
+++ b/wpk.go
@@ -757,6 +757,9 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	if err = hdr.IsReady(); err != nil {
 		return
 	}
+	if hdr.fttsize == 0 {
+		return // there is no any file tags table yet
+	}
 
 	// go to file tags table start
 	if _, err = r.Seek(int64(hdr.fttoffset), io.SeekStart); err != nil {
-- 
2.43.0


From ffb6f35ba646c3784d49f4aecbde23c9ca160f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:17 +0000
Subject: [PATCH 09/55] fix: short reads on package opening

---
 util/uintio.go | 10 +++++-----
 wpk.go         | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/util/uintio.go b/util/uintio.go
index 31112b3..62305e7 100644
--- a/util/uintio.go
+++ b/util/uintio.go
@@ -56,27 +56,27 @@ func SetF64(b []byte, f float64) {
 }
 
 func ReadU16(r io.Reader) (u uint16, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
 	return
 }
 
 func ReadU32(r io.Reader) (u uint32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
 	return
 }
 
 func ReadU64(r io.Reader) (u uint64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
 	return
 }
 
 func ReadF32(r io.Reader) (f float32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
 	return
 }
 
 func ReadF64(r io.Reader) (f float64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
 	return
 }
 
diff --git a/wpk.go b/wpk.go
index cd1ed5e..5cb8d4b 100644
--- a/wpk.go
+++ b/wpk.go
@@ -196,7 +196,7 @@ func (hdr *Header) Parse(buf []byte) (n int64, err error) {
 
 // ReadFrom reads header from stream as binary data of constant length.
 func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
-	if _, err = r.Read(hdr.signature[:]); err != nil {
+	if _, err = io.ReadFull(r, hdr.signature[:]); err != nil {
 		return
 	}
 	n += SignSize
@@ -409,7 +409,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		n += PTStssize
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -437,7 +437,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		}
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -518,7 +518,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	// read header
 	var hdr Header
 	var hdrbuf [HeaderSize]byte
-	if _, err = r.Read(hdrbuf[:]); err != nil {
+	if _, err = io.ReadFull(r, hdrbuf[:]); err != nil {
 		return
 	}
 	hdr.Parse(hdrbuf[:])
@@ -536,7 +536,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// read file tags
 	var fttbuf = make([]byte, hdr.fttsize)
-	if _, err = r.Read(fttbuf); err != nil {
+	if _, err = io.ReadFull(r, fttbuf); err != nil {
 		return
 	}
 	var fttsize int64
@@ -773,7 +773,7 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	}
 
 	ts = make(TagsetRaw, tsl)
-	if _, err = r.Read(ts); err != nil {
+	if _, err = io.ReadFull(r, ts); err != nil {
 		return
 	}
 
-- 
2.43.0


From 3cced18318ae8a99e69d0d18ee7e02a24a0de171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:27 +0000
Subject: [PATCH 10/55] fix: parsing of table that is shorter than its tagsets

---
 wpk.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/wpk.go b/wpk.go
index 5cb8d4b..edc9881 100644
--- a/wpk.go
+++ b/wpk.go
@@ -360,9 +360,17 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 // It's high performance method without extra allocations calls.
 func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 	{
+		if int64(len(buf)) < n+PTStssize {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
+		if int64(len(buf)) < n+int64(tsl) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
@@ -378,6 +386,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 	}
 
 	for {
+		if int64(len(buf)) < n+PTStssize {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
@@ -385,6 +397,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			break // end marker was reached
 		}
 
+		if int64(len(buf)) < n+int64(tsl) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
-- 
2.43.0


From 392d666911298b7c945c307de13679361b7bbfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 11/55] fix: trust to the sizes in the header of damaged
 package

---
 wpk.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/wpk.go b/wpk.go
index edc9881..c2d0ef3 100644
--- a/wpk.go
+++ b/wpk.go
@@ -541,18 +541,30 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	if err = hdr.IsReady(); err != nil {
 		return
 	}
-	// setup empty tags table with reserved map size
-	ftt.Init(&hdr)
-	if hdr.fttsize == 0 {
+	if hdr.datoffset+hdr.datsize < hdr.datoffset {
+		err = ErrSignFTT // overflow
 		return
 	}
 	// go to file tags table start
 	if _, err = r.Seek(int64(hdr.fttoffset), io.SeekStart); err != nil {
 		return
 	}
-	// read file tags
-	var fttbuf = make([]byte, hdr.fttsize)
-	if _, err = io.ReadFull(r, fttbuf); err != nil {
+	// read file tags, size in the header can not be trusted before it's read
+	var fttbuf []byte
+	if fttbuf, err = io.ReadAll(io.LimitReader(r, int64(hdr.fttsize))); err != nil {
+		return
+	}
+	if uint64(len(fttbuf)) != hdr.fttsize {
+		err = io.ErrUnexpectedEOF
+		return
+	}
+	// setup empty tags table with reserved map size
+	if hdr.fttcount > hdr.fttsize/(PTStssize+3*taghdrsz) {
+		err = ErrSignFTT // each entry has at least three tags
+		return
+	}
+	ftt.Init(&hdr)
+	if hdr.fttsize == 0 {
 		return
 	}
 	var fttsize int64
-- 
2.43.0


From 7966015869747f17da71d4af2e1d6e52b0cc56ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 12/55] fix: ambiguous reading of tagset with repeated required
 tags

---
 wpk.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/wpk.go b/wpk.go
index c2d0ef3..85f4dd7 100644
--- a/wpk.go
+++ b/wpk.go
@@ -84,6 +84,7 @@ var (
 
 	ErrRangeTSSize = errors.New("tagset size value is exceeds out of the type dimension")
 
+	ErrTagDup   = errors.New("required tag is repeated")
 	ErrNoTag    = errors.New("tag with given ID not found")
 	ErrNoPath   = errors.New("file name is absent")
 	ErrNoOffset = errors.New("file offset is absent")
@@ -307,6 +308,7 @@ func (ftt *FTT) SetInfo(ts TagsetRaw) {
 func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 	var offset, size uint
 	var ispath, isoffset, issize bool
+	var npath, noffset, nsize int
 
 	// find expected tags
 	var tsi = ts.Iterator()
@@ -314,10 +316,13 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 		switch tsi.tid {
 		case TIDoffset:
 			offset, isoffset = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
+			noffset++
 		case TIDsize:
 			size, issize = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
+			nsize++
 		case TIDpath:
 			fkey, ispath = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagStr()
+			npath++
 		}
 	}
 	if tsi.Failed() {
@@ -325,6 +330,12 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 		return
 	}
 
+	// each of those tags should be alone, repeated ones are read ambiguously
+	if npath > 1 || noffset > 1 || nsize > 1 {
+		err = &ErrTag{ErrTagDup, fkey, TIDnone}
+		return
+	}
+
 	// check tags existence
 	if !ispath {
 		err = &ErrTag{ErrNoPath, "", TIDpath}
-- 
2.43.0


From 02486207094aceadeac510f0b0061c6e0686f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 13/55] fix: repeated names and overflow of file range in
 damaged package

---
 wpk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wpk.go b/wpk.go
index 85f4dd7..34a6f45 100644
--- a/wpk.go
+++ b/wpk.go
@@ -341,7 +341,7 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 		err = &ErrTag{ErrNoPath, "", TIDpath}
 		return
 	}
-	if ftt.tsm.Has(fkey) { // prevent same file from repeating
+	if ftt.tsm.Has(util.ToSlash(fkey)) { // prevent same file from repeating
 		err = &ErrTag{fs.ErrExist, fkey, TIDpath}
 		return
 	}
@@ -359,7 +359,7 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 		err = &ErrTag{ErrOutOff, fkey, TIDoffset}
 		return
 	}
-	if uint64(offset+size) > ftt.datoffset+ftt.datsize {
+	if uint64(size) > ftt.datoffset+ftt.datsize-uint64(offset) {
 		err = &ErrTag{ErrOutSize, fkey, TIDsize}
 		return
 	}
-- 
2.43.0


From fae029b6beb89c5092576f776bb1fe29c71f619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 14/55] fix: access to the files out of truncated data file

---
 bulk/bulk.go |  7 +++++++
 fsys/fsys.go | 15 +++++++++++++++
 mmap/mmap.go | 12 ++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/bulk/bulk.go b/bulk/bulk.go
index 2a5592e..379d477 100644
--- a/bulk/bulk.go
+++ b/bulk/bulk.go
@@ -18,6 +18,13 @@ type SliceFile struct {
 // NewSliceFile creates SliceFile file structure based on given tags slice.
 func NewSliceFile(bulk []byte, ts wpk.TagsetRaw) (f *SliceFile, err error) {
 	var offset, size = ts.Pos()
+	var end = uint(len(bulk))
+	if offset > end {
+		return nil, &wpk.ErrTag{What: wpk.ErrOutOff, Key: ts.Path(), TID: wpk.TIDoffset}
+	}
+	if size > end-offset {
+		return nil, &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+	}
 	f = &SliceFile{
 		PkgReader: bytes.NewReader(bulk[offset : offset+size]),
 		tags:      ts,
diff --git a/fsys/fsys.go b/fsys/fsys.go
index bb0ad31..1fec77d 100644
--- a/fsys/fsys.go
+++ b/fsys/fsys.go
@@ -28,6 +28,21 @@ func NewChunkFile(fpath string, ts wpk.TagsetRaw) (f *ChunkFile, err error) {
 		return
 	}
 	var offset, size = ts.Pos()
+	// file can not be out of the package
+	var fi os.FileInfo
+	if fi, err = wpkf.Stat(); err != nil {
+		wpkf.Close()
+		return
+	}
+	var end = uint(fi.Size())
+	if offset > end {
+		wpkf.Close()
+		return nil, &wpk.ErrTag{What: wpk.ErrOutOff, Key: ts.Path(), TID: wpk.TIDoffset}
+	}
+	if size > end-offset {
+		wpkf.Close()
+		return nil, &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+	}
 	f = &ChunkFile{
 		PkgReader: io.NewSectionReader(wpkf, int64(offset), int64(size)),
 		wpkf:      wpkf,
diff --git a/mmap/mmap.go b/mmap/mmap.go
index 40db21d..c5d5442 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -27,6 +27,18 @@ type MappedFile struct {
 func NewMappedFile(fwpk *os.File, ts wpk.TagsetRaw) (f *MappedFile, err error) {
 	// calculate paged size/offset
 	var offset, size = ts.Pos()
+	// memory out of the file can not be accessed
+	var fi os.FileInfo
+	if fi, err = fwpk.Stat(); err != nil {
+		return
+	}
+	var end = uint(fi.Size())
+	if offset > end {
+		return nil, &wpk.ErrTag{What: wpk.ErrOutOff, Key: ts.Path(), TID: wpk.TIDoffset}
+	}
+	if size > end-offset {
+		return nil, &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+	}
 	var pgoff = offset % pagesize
 	var offsetx = offset - pgoff
 	var sizex = size + pgoff
-- 
2.43.0


From 1c71612f89fc548cbce100314cc809c971f87100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 15/55] fix: header is updated in parts

---
 wpk.go | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/wpk.go b/wpk.go
index 34a6f45..b910cee 100644
--- a/wpk.go
+++ b/wpk.go
@@ -225,32 +225,18 @@ func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 // WriteTo writes header to stream as binary data of constant length.
+// It's written at once, header should not remain updated in part.
 func (hdr *Header) WriteTo(w io.Writer) (n int64, err error) {
-	if _, err = w.Write(hdr.signature[:]); err != nil {
-		return
-	}
+	var buf [HeaderSize]byte
+	copy(buf[:], hdr.signature[:])
 	n += SignSize
-	if err = util.WriteU64(w, hdr.fttcount); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.fttoffset); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.fttsize); err != nil {
-		return
+	for _, u := range []uint64{hdr.fttcount, hdr.fttoffset, hdr.fttsize, hdr.datoffset, hdr.datsize} {
+		util.SetU64(buf[n:], u)
+		n += 8
 	}
-	n += 8
-	if err = util.WriteU64(w, hdr.datoffset); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.datsize); err != nil {
-		return
-	}
-	n += 8
-	return
+	var m int
+	m, err = w.Write(buf[:])
+	return int64(m), err
 }
 
 // Special name for `Open` calls to get package content reference.
-- 
2.43.0


From 935bdd5fb03e58bf6653ccdb635ac4430b4d902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 16/55] fix: flushed table of splitted package is overwritten
 by the next flush

---
 wpk.go    | 14 +++++++++++++-
 writer.go | 21 ++++++++++++++++++---
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/wpk.go b/wpk.go
index b910cee..ae2b238 100644
--- a/wpk.go
+++ b/wpk.go
@@ -235,7 +235,9 @@ func (hdr *Header) WriteTo(w io.Writer) (n int64, err error) {
 		n += 8
 	}
 	var m int
-	m, err = w.Write(buf[:])
+	if m, err = w.Write(buf[:]); err == nil && m < HeaderSize {
+		err = io.ErrShortWrite
+	}
 	return int64(m), err
 }
 
@@ -249,6 +251,8 @@ type FTT struct {
 
 	datoffset uint64 // files data offset
 	datsize   uint64 // files data total size
+	fttoffset uint64 // offset of file tags table that was read or written last
+	fttsize   uint64 // size of file tags table that was read or written last
 
 	mux sync.Mutex // writer mutex
 }
@@ -259,6 +263,7 @@ func (ftt *FTT) Init(hdr *Header) {
 	ftt.tsm.Init(int(hdr.fttcount))
 	// update data offset/pos
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 }
 
 // TagsetNum returns actual number of entries at files tags table.
@@ -467,6 +472,12 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 
 // WriteTo writes file tags table whole content to the given stream.
 func (ftt *FTT) WriteTo(w io.Writer) (n int64, err error) {
+	n, _, err = ftt.writeTable(w)
+	return
+}
+
+// writeTable writes file tags table and returns also number of written entries.
+func (ftt *FTT) writeTable(w io.Writer) (n int64, count uint64, err error) {
 	// write tagset with package info at first, can be empty
 	{
 		var tsl = len(ftt.info)
@@ -507,6 +518,7 @@ func (ftt *FTT) WriteTo(w io.Writer) (n int64, err error) {
 			return false
 		}
 		n += int64(tsl)
+		count++
 		return true
 	})
 	if err != nil {
diff --git a/writer.go b/writer.go
index 2687451..03835c9 100644
--- a/writer.go
+++ b/writer.go
@@ -1,6 +1,7 @@
 package wpk
 
 import (
+	"bytes"
 	"io"
 	"io/fs"
 	"os"
@@ -46,6 +47,7 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	ftt.tsm.Init(0)
 	// update data offset/pos
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	return
 }
 
@@ -82,19 +84,31 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 
 	var fftpos, fftend, datpos, datend int64
 
+	// make file tags table before any changes in the files
+	var table bytes.Buffer
+	var count uint64
+	if _, count, err = ftt.writeTable(&table); err != nil {
+		return
+	}
+
 	if wpf != nil && wpf != wpt { // splitted package files
 		// get tags table offset as actual end of file
 		datpos = 0
 		if datend, err = wpf.Seek(0, io.SeekCurrent); err != nil {
 			return
 		}
+		// current table should be readable until the header is rewritten,
+		// so new table is placed before it if there is enough space, or after it
 		fftpos = HeaderSize
+		if ftt.fttsize > 0 && uint64(fftpos)+uint64(table.Len()) > ftt.fttoffset {
+			fftpos = int64(ftt.fttoffset + ftt.fttsize)
+		}
 
 		// write file tags table
 		if _, err = wpt.Seek(fftpos, io.SeekStart); err != nil {
 			return
 		}
-		if _, err = ftt.WriteTo(wpt); err != nil {
+		if _, err = table.WriteTo(wpt); err != nil {
 			return
 		}
 		// get writer end marker and setup the file tags table size
@@ -110,7 +124,7 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 		fftpos = datend
 
 		// write file tags table
-		if _, err = ftt.WriteTo(wpt); err != nil {
+		if _, err = table.WriteTo(wpt); err != nil {
 			return
 		}
 		// get writer end marker and setup the file tags table size
@@ -122,7 +136,7 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	// rewrite true header
 	var hdr = Header{
 		signature: [SignSize]byte(util.S2B(SignReady)),
-		fttcount:  uint64(ftt.tsm.Len()),
+		fttcount:  count,
 		fttoffset: uint64(fftpos),
 		fttsize:   uint64(fftend - fftpos),
 		datoffset: uint64(datpos),
@@ -136,6 +150,7 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	}
 	// update data offset/pos
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	return
 }
 
-- 
2.43.0


From 7c383cedc8d50765c7fd80fb0b1f028a44c89d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 17/55] fix: reading of access, change and birth times

---
 tagset.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tagset.go b/tagset.go
index e9b7125..dd528f9 100644
--- a/tagset.go
+++ b/tagset.go
@@ -494,22 +494,22 @@ func (ts TagsetRaw) Info() (fs.FileInfo, error) {
 // AccessTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) AccessTime() time.Time {
-	var t, _ = ts.TagUint64(TIDatime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDatime)
+	return t
 }
 
 // ChangeTime returns file change timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) ChangeTime() time.Time {
-	var t, _ = ts.TagUint64(TIDctime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDctime)
+	return t
 }
 
 // BirthTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) BirthTime() time.Time {
-	var t, _ = ts.TagUint64(TIDbtime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDbtime)
+	return t
 }
 
 // HasChangeTime is times.Timespec interface implementation.
-- 
2.43.0


From c7096ee24cd44c064dc721e743a16a85efffb3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 18/55] fix: backslashes at directory renaming

---
 writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/writer.go b/writer.go
index 03835c9..d306c3d 100644
--- a/writer.go
+++ b/writer.go
@@ -247,6 +247,7 @@ func (pkg *Package) Rename(fkey1, fkey2 string) error {
 
 // RenameDir renames all files in package with 'olddir' path to 'newdir' path.
 func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int, err error) {
+	olddir, newdir = util.ToSlash(olddir), util.ToSlash(newdir)
 	if len(olddir) > 0 && olddir[len(olddir)-1] != '/' {
 		olddir += "/"
 	}
-- 
2.43.0


From b101d583abf7330053dd75e8449eeef70f1b45f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:58 +0000
Subject: [PATCH 19/55] fix: package directories have no file info

---
 wpk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wpk.go b/wpk.go
index ae2b238..facf466 100644
--- a/wpk.go
+++ b/wpk.go
@@ -718,6 +718,9 @@ func (pkg *Package) Stat(fkey string) (fs.FileInfo, error) {
 	if ts, is := pkg.GetTagset(fkey); is {
 		return ts, nil
 	}
+	if f, err := pkg.OpenDir(pkg.FullPath(fkey)); err == nil {
+		return f.Stat()
+	}
 	return nil, &fs.PathError{Op: "stat", Path: fkey, Err: fs.ErrNotExist}
 }
 
-- 
2.43.0


From a072166817270dafe57640f374c5a3b0edd84f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 20/55] fix: reading of package directories

---
 dir.go | 83 ++++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 63 insertions(+), 20 deletions(-)

diff --git a/dir.go b/dir.go
index bb0c918..c41993f 100644
--- a/dir.go
+++ b/dir.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"sort"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk/util"
@@ -30,6 +31,8 @@ func MakeDataPath(fpath string) string {
 type PackDirFile struct {
 	TagsetRaw // has fs.FileInfo interface
 	ftt       *FTT
+	isread    bool          // directory entries were read
+	rest      []fs.DirEntry // entries that remain to return
 }
 
 // fs.ReadDirFile interface implementation.
@@ -49,7 +52,13 @@ func (f *PackDirFile) Close() error {
 
 // fs.ReadDirFile interface implementation.
 func (f *PackDirFile) ReadDir(n int) (matches []fs.DirEntry, err error) {
-	return f.ftt.ReadDirN(f.Path(), n)
+	if !f.isread {
+		if f.rest, err = f.ftt.ReadDirN(f.Path(), -1); err != nil {
+			return
+		}
+		f.isread = true
+	}
+	return nextPage(&f.rest, n)
 }
 
 // DirExists check up directory existence.
@@ -81,11 +90,10 @@ func TempPath(fname string) string {
 	return util.JoinPath(util.ToSlash(os.TempDir()), fname)
 }
 
-// ReadDirN returns fs.DirEntry array with nested into given package directory presentation.
-// It's core function for ReadDirFile and ReadDirFS structures.
-func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error) {
+// scanDir puts entries nested into given package directory presentation
+// to the map by theirs names. Entries already present in the map are kept.
+func (ftt *FTT) scanDir(fulldir string, found map[string]fs.DirEntry) {
 	fulldir = util.ToSlash(fulldir)
-	var found = map[string]fs.DirEntry{}
 	var prefix string
 	if fulldir != "." && fulldir != "" {
 		prefix = fulldir + "/" // set terminated slash
@@ -96,37 +104,72 @@ func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error)
 			var suffix = fkey[len(prefix):]
 			var sp = strings.IndexByte(suffix, '/')
 			if sp < 0 { // file detected
-				found[suffix] = ts
-				n--
+				if _, ok := found[suffix]; !ok {
+					found[suffix] = ts
+				}
 			} else { // dir detected
-				var subdir = util.JoinPath(prefix, suffix[:sp])
-				if _, ok := found[subdir]; !ok {
+				if _, ok := found[suffix[:sp]]; !ok {
 					var dts = TagsetRaw{}.
-						Put(TIDpath, StrTag(subdir))
-					var f = &PackDirFile{
+						Put(TIDpath, StrTag(prefix+suffix[:sp]))
+					found[suffix[:sp]] = &PackDirFile{
 						TagsetRaw: dts,
 						ftt:       ftt,
 					}
-					found[subdir] = f
-					n--
 				}
 			}
 		}
-		return n != 0
+		return true
 	})
+}
 
-	list = make([]fs.DirEntry, len(found))
-	var i int
+// sortDir returns entries of the map sorted by filename.
+func sortDir(found map[string]fs.DirEntry) []fs.DirEntry {
+	var list = make([]fs.DirEntry, 0, len(found))
 	for _, de := range found {
-		list[i] = de
-		i++
+		list = append(list, de)
+	}
+	sort.Slice(list, func(i, j int) bool {
+		return list[i].Name() < list[j].Name()
+	})
+	return list
+}
+
+// limitDir returns no more than n first entries of the list, or all of them
+// if n <= 0. Error is io.EOF if list has less than n entries.
+func limitDir(list []fs.DirEntry, n int) ([]fs.DirEntry, error) {
+	if n <= 0 {
+		return list, nil
+	}
+	if n > len(list) {
+		return list, io.EOF
+	}
+	return list[:n], nil
+}
+
+// nextPage cuts the next part of the rest of directory entries
+// by the rules of fs.ReadDirFile interface.
+func nextPage(rest *[]fs.DirEntry, n int) (list []fs.DirEntry, err error) {
+	if n > 0 && len(*rest) == 0 {
+		return nil, io.EOF
 	}
-	if n > 0 {
-		err = io.EOF
+	if n <= 0 || n > len(*rest) {
+		n = len(*rest)
 	}
+	list, *rest = (*rest)[:n:n], (*rest)[n:]
 	return
 }
 
+// ReadDirN returns fs.DirEntry array with nested into given package directory presentation
+// sorted by filename. It's core function for ReadDirFile and ReadDirFS structures.
+func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error) {
+	var found = map[string]fs.DirEntry{}
+	ftt.scanDir(fulldir, found)
+	if len(found) == 0 && fulldir != "." && fulldir != "" {
+		return nil, &fs.PathError{Op: "readdir", Path: fulldir, Err: fs.ErrNotExist}
+	}
+	return limitDir(sortDir(found), n)
+}
+
 // OpenDir returns PackDirFile structure associated with group of files in package
 // pooled with common directory prefix. Usable to implement fs.FileSystem interface.
 func (ftt *FTT) OpenDir(fulldir string) (fs.ReadDirFile, error) {
-- 
2.43.0


From b5dab55beda327c22af8bb5ec2654b17031f68b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 21/55] fix: type of directory entry with permission bits

---
 tagset.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tagset.go b/tagset.go
index dd528f9..625b3da 100644
--- a/tagset.go
+++ b/tagset.go
@@ -479,10 +479,7 @@ func (ts TagsetRaw) Sys() interface{} {
 
 // Type is for fs.DirEntry interface compatibility.
 func (ts TagsetRaw) Type() fs.FileMode {
-	if ts.Has(TIDsize) { // file size is absent for dir
-		return 0444
-	}
-	return fs.ModeDir
+	return ts.Mode().Type()
 }
 
 // Info returns the FileInfo for the file or subdirectory described by the entry.
-- 
2.43.0


From a98581e1fdaaa9b4f0748f1b9916b87ccf041226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 22/55] fix: root folder of empty package

---
 dir.go | 6 ++++++
 wpk.go | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/dir.go b/dir.go
index c41993f..c7398ca 100644
--- a/dir.go
+++ b/dir.go
@@ -178,6 +178,12 @@ func (ftt *FTT) OpenDir(fulldir string) (fs.ReadDirFile, error) {
 	if fulldir != "." && fulldir != "" {
 		prefix = fulldir + "/" // set terminated slash
 	}
+	if prefix == "" { // root folder always exists
+		return &PackDirFile{
+			TagsetRaw: TagsetRaw{}.Put(TIDpath, StrTag(fulldir)),
+			ftt:       ftt,
+		}, nil
+	}
 	var f *PackDirFile
 	ftt.tsm.Range(func(fkey string, ts TagsetRaw) bool {
 		if strings.HasPrefix(fkey, prefix) {
diff --git a/wpk.go b/wpk.go
index facf466..10de48d 100644
--- a/wpk.go
+++ b/wpk.go
@@ -695,6 +695,13 @@ func (pkg *Package) Sub(dir string) (sub fs.FS, err error) {
 	if dir != "." && dir != "" {
 		prefix = util.ToSlash(dir) + "/" // make prefix slash-terminated
 	}
+	if prefix == "" { // root folder always exists
+		return &Package{
+			FTT:       pkg.FTT,
+			Tagger:    pkg.Tagger,
+			Workspace: pkg.Workspace,
+		}, nil
+	}
 	pkg.Enum(func(fkey string, ts TagsetRaw) bool {
 		if strings.HasPrefix(fkey, prefix) {
 			sub = &Package{
-- 
2.43.0


From fad4e4a7013d4c85db9e1dfa9db50ba1a344d434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 23/55] fix: reading of union directories

---
 union.go | 91 +++++++++++++-------------------------------------------
 1 file changed, 21 insertions(+), 70 deletions(-)

diff --git a/union.go b/union.go
index c5de5ad..4ef20c9 100644
--- a/union.go
+++ b/union.go
@@ -18,6 +18,9 @@ type Void = struct{}
 type UnionDir struct {
 	TagsetRaw
 	*Union
+	dir    string        // directory path relative to the union
+	isread bool          // directory entries were read
+	rest   []fs.DirEntry // entries that remain to return
 }
 
 // fs.ReadDirFile interface implementation.
@@ -36,14 +39,14 @@ func (f *UnionDir) Close() error {
 }
 
 // fs.ReadDirFile interface implementation.
-func (f *UnionDir) ReadDir(n int) ([]fs.DirEntry, error) {
-	var dir = f.Path()
-	if len(f.List) > 0 {
-		if dir = f.List[0].TrimPath(dir); dir == "" {
-			return nil, ErrOtherSubdir
+func (f *UnionDir) ReadDir(n int) (list []fs.DirEntry, err error) {
+	if !f.isread {
+		if f.rest, err = f.ReadDirN(f.dir, -1); err != nil {
+			return
 		}
+		f.isread = true
 	}
-	return f.ReadDirN(dir, n)
+	return nextPage(&f.rest, n)
 }
 
 // Union glues list of packages into single filesystem.
@@ -151,58 +154,19 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 	return nil, &fs.PathError{Op: "readfile", Path: fpath, Err: fs.ErrNotExist}
 }
 
-// ReadDir reads the named directory
+// ReadDirN reads the named directory
 // and returns a list of directory entries sorted by filename.
+// If union have more than one entry with the same name, first will be returned.
 func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 	dir = util.ToSlash(dir)
 	var found = map[string]fs.DirEntry{}
-	var ni = n
 	for _, pkg := range u.List {
-		var fulldir = pkg.FullPath(dir)
-		var prefix string
-		if fulldir != "." {
-			prefix = fulldir + "/" // set terminated slash
-		}
-
-		pkg.tsm.Range(func(fkey string, ts TagsetRaw) bool {
-			if strings.HasPrefix(fkey, prefix) {
-				var suffix = fkey[len(prefix):]
-				var sp = strings.IndexByte(suffix, '/')
-				if sp < 0 { // file detected
-					found[suffix] = ts
-					ni--
-				} else { // dir detected
-					var subdir = util.JoinPath(prefix, suffix[:sp])
-					if _, ok := found[subdir]; !ok {
-						var dts = TagsetRaw{}.
-							Put(TIDpath, StrTag(subdir))
-						var f = &PackDirFile{
-							TagsetRaw: dts,
-							ftt:       pkg.FTT,
-						}
-						found[subdir] = f
-						ni--
-					}
-				}
-			}
-			return ni != 0
-		})
-
-		if ni == 0 {
-			break
-		}
+		pkg.scanDir(pkg.FullPath(dir), found)
 	}
-
-	list = make([]fs.DirEntry, len(found))
-	var i int
-	for _, de := range found {
-		list[i] = de
-		i++
+	if len(found) == 0 && dir != "." && dir != "" {
+		return nil, &fs.PathError{Op: "readdir", Path: dir, Err: fs.ErrNotExist}
 	}
-	if ni > 0 {
-		err = io.EOF
-	}
-	return
+	return limitDir(sortDir(found), n)
 }
 
 // ReadDir reads the named directory
@@ -242,26 +206,13 @@ func (u *Union) Open(dir string) (fs.File, error) {
 	}
 
 	// try to get the folder
-	var prefix string
-	if dir != "." && dir != "" {
-		prefix = dir + "/" // set terminated slash
-	}
 	for _, pkg := range u.List {
-		var f *UnionDir
-		pkg.Enum(func(fkey string, ts TagsetRaw) bool {
-			if strings.HasPrefix(fkey, prefix) {
-				var dts = TagsetRaw{}.
-					Put(TIDpath, StrTag(pkg.FullPath(dir)))
-				f = &UnionDir{
-					TagsetRaw: dts,
-					Union:     u,
-				}
-				return false
-			}
-			return true
-		})
-		if f != nil {
-			return f, nil
+		if _, err := pkg.OpenDir(pkg.FullPath(dir)); err == nil {
+			return &UnionDir{
+				TagsetRaw: TagsetRaw{}.Put(TIDpath, StrTag(pkg.FullPath(dir))),
+				Union:     u,
+				dir:       dir,
+			}, nil
 		}
 	}
 	// on case if not found
-- 
2.43.0


From 6c5e06aac4c9daf0faaa40ea2fd3b61a9f16350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 24/55] fix: union directories have no file info

---
 union.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/union.go b/union.go
index 4ef20c9..ba1f590 100644
--- a/union.go
+++ b/union.go
@@ -108,6 +108,11 @@ func (u *Union) Stat(fpath string) (fs.FileInfo, error) {
 			return ts, nil
 		}
 	}
+	for _, pkg := range u.List {
+		if f, err := pkg.OpenDir(pkg.FullPath(fpath)); err == nil {
+			return f.Stat()
+		}
+	}
 	return nil, &fs.PathError{Op: "stat", Path: fpath, Err: fs.ErrNotExist}
 }
 
-- 
2.43.0


From 6279bec4f1244ada8198d6916825ad416b9b1209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 25/55] fix: raw content of union packages at other workspaces

---
 union.go | 2 +-
 wpk.go   | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/union.go b/union.go
index ba1f590..8e20e88 100644
--- a/union.go
+++ b/union.go
@@ -199,7 +199,7 @@ func (u *Union) Open(dir string) (fs.File, error) {
 			if idx >= uint64(len(u.List)) {
 				return nil, &fs.PathError{Op: "open", Path: dir, Err: fs.ErrNotExist}
 			}
-			return u.List[idx].Open(PackName)
+			return u.List[idx].openPack()
 		}
 	}
 
diff --git a/wpk.go b/wpk.go
index 10de48d..c3d87e5 100644
--- a/wpk.go
+++ b/wpk.go
@@ -775,13 +775,18 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 	return nil, &fs.PathError{Op: "readfile", Path: fkey, Err: fs.ErrNotExist}
 }
 
+// openPack gives access to the whole package content, at any workspace.
+func (pkg *Package) openPack() (fs.File, error) {
+	var ts = pkg.BaseTagset(0, uint(pkg.datoffset+pkg.datsize), "wpk")
+	return pkg.Tagger.OpenTagset(ts)
+}
+
 // Open implements access to nested into package file or directory by filename.
 // fs.FS implementation.
 func (pkg *Package) Open(dir string) (fs.File, error) {
 	var fullname = pkg.FullPath(dir)
 	if fullname == PackName {
-		var ts = pkg.BaseTagset(0, uint(pkg.datoffset+pkg.datsize), "wpk")
-		return pkg.Tagger.OpenTagset(ts)
+		return pkg.openPack()
 	}
 
 	if ts, is := pkg.GetTagset(dir); is {
-- 
2.43.0


From 8de8dd39447a6b4edc42acca826290e2187ce28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:34 +0000
Subject: [PATCH 26/55] fix: environment variable at the end of path

---
 util/strutil.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/util/strutil.go b/util/strutil.go
index 8f3985e..1a2779c 100644
--- a/util/strutil.go
+++ b/util/strutil.go
@@ -206,7 +206,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					mode, p1 = 1, i+1
 					i += 2
 				} else if i < fl-3 && b[i+1] == '{' && VarCharFirst[b[i+2]] {
@@ -275,8 +275,16 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	}
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
-		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		var v = B2S(b[p1:p2])
+		var env string
+		var ok bool
+		if envmap != nil {
+			env, ok = envmap[v]
+		}
+		if !ok {
+			env, ok = os.LookupEnv(v)
+		}
+		if ok {
 			el += len(env) - len(v) - 1
 			n++
 		}
@@ -293,7 +301,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					pe = i
 					mode, p1 = 1, i+1
 					i += 2
@@ -361,13 +369,22 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	}
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
-		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		var v = B2S(b[p1:p2])
+		var env string
+		var ok bool
+		if envmap != nil {
+			env, ok = envmap[v]
+		}
+		if !ok {
+			env, ok = os.LookupEnv(v)
+		}
+		if ok {
 			copy(e[j:], env)
+			j += len(env)
+			pc = i
 		}
 		mode = 0
-	} else { // copy remainder
-		copy(e[j:], b[pc:])
 	}
+	copy(e[j:], b[pc:]) // copy remainder
 	return B2S(e)
 }
-- 
2.43.0


From b19635003d88513607188ed56fa01d82ec81f1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 27/55] fix: order of path.match arguments

---
 luawpk/luapath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/luawpk/luapath.go b/luawpk/luapath.go
index ae9f989..5c6aa49 100644
--- a/luawpk/luapath.go
+++ b/luawpk/luapath.go
@@ -100,7 +100,7 @@ func pathmatch(ls *lua.LState) int {
 	var name = ls.CheckString(1)
 	var pattern = ls.CheckString(2)
 
-	var matched, err = path.Match(name, pattern)
+	var matched, err = path.Match(pattern, name)
 	if err != nil {
 		ls.RaiseError(err.Error())
 		return 0
-- 
2.43.0


From bd59da4a6768e3735c0a021b2c2ab2529d58b64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 28/55] fix: unclosed variable pattern at the end of path

---
 util/strutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/strutil.go b/util/strutil.go
index 1a2779c..a2e5dfb 100644
--- a/util/strutil.go
+++ b/util/strutil.go
@@ -297,7 +297,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 
 	// 2nd passage, fill out result
 	var e = make([]byte, el)
-	i = 0
+	mode, i = 0, 0
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-- 
2.43.0


From c3a67679f1cce2b1a2443ef05b10700546ba4562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:45 +0000
Subject: [PATCH 29/55] fix: bad values at tables of tags

---
 luawpk/nametid.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 07a38b0..0d485c0 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -301,7 +301,6 @@ func TagToValue(tid wpk.TID, tag wpk.TagRaw) (v lua.LValue, err error) {
 // or string names associated ID values. Lua-table values can be strings, numbers,
 // or boolean values.
 func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
-	var err error
 	var errs []error
 	lt.ForEach(func(k lua.LValue, v lua.LValue) {
 		var (
@@ -317,7 +316,7 @@ func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 			errk = &ErrProtected{tid}
 			errs = append(errs, errk)
 		}
-		if tag, errv = ValueToTag(tid, v); err != nil {
+		if tag, errv = ValueToTag(tid, v); errv != nil {
 			errs = append(errs, errv)
 		}
 
-- 
2.43.0


From d59af8046d03e6b101cc215b86805d36beb2edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:46 +0000
Subject: [PATCH 30/55] fix: deltags depends on values of table

---
 luawpk/luawpk.go  |  9 ++++-----
 luawpk/nametid.go | 17 +++++++++++++++++
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 7ed474b..4bb46c9 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -1152,8 +1152,8 @@ func wpkdeltags(ls *lua.LState) int {
 	var fkey = ls.CheckString(2)
 	var lt = ls.CheckTable(3)
 
-	var opts wpk.TagsetRaw
-	if opts, err = TableToTagset(lt, opts); err != nil {
+	var tids []wpk.TID
+	if tids, err = TableToTIDs(lt); err != nil {
 		return 0
 	}
 
@@ -1164,10 +1164,9 @@ func wpkdeltags(ls *lua.LState) int {
 	}
 
 	ts = wpk.CopyTagset(ts)
-	var optsi = opts.Iterator()
 	var n = 0
-	for optsi.Next() {
-		if ts, ok = ts.DelOk(optsi.TID()); ok {
+	for _, tid := range tids {
+		if ts, ok = ts.DelOk(tid); ok {
 			n++
 		}
 	}
diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 0d485c0..afea9fb 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -297,6 +297,23 @@ func TagToValue(tid wpk.TID, tag wpk.TagRaw) (v lua.LValue, err error) {
 	return
 }
 
+// TableToTIDs returns identifiers of tags for all keys of Lua-table,
+// values of table are ignored. Keys can be number identifiers or string names.
+func TableToTIDs(lt *lua.LTable) (tids []wpk.TID, err error) {
+	var errs []error
+	lt.ForEach(func(k lua.LValue, v lua.LValue) {
+		var tid, err = ValueToTID(k)
+		if err != nil {
+			errs = append(errs, err)
+		} else if tid == wpk.TIDoffset || tid == wpk.TIDsize || tid == wpk.TIDpath {
+			errs = append(errs, &ErrProtected{tid})
+		} else {
+			tids = append(tids, tid)
+		}
+	})
+	return tids, errors.Join(errs...)
+}
+
 // TableToTagset converts Lua-table to TagsetRaw. Lua-table keys can be number identifiers
 // or string names associated ID values. Lua-table values can be strings, numbers,
 // or boolean values.
-- 
2.43.0


From d918e57a978ba979e4f9e1d695f88cf77d46f7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 31/55] fix: tag identifiers out of range

---
 luawpk/nametid.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index afea9fb..fc413bf 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -136,7 +136,10 @@ var (
 // values which they presents. Error returns on any other case.
 func ValueToTID(k lua.LValue) (tid wpk.TID, err error) {
 	if n, ok := k.(lua.LNumber); ok {
-		tid = wpk.TID(n)
+		if tid = wpk.TID(n); lua.LNumber(tid) != n { // fractional or out of range
+			tid, err = 0, &ErrKeyUndef{n.String()}
+			return
+		}
 	} else if name, ok := k.(lua.LString); ok {
 		if n, ok := NameTid[string(name)]; ok {
 			tid = n
-- 
2.43.0


From 6776fbceb64b111c484b94ef0167965678922d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:07 +0000
Subject: [PATCH 32/55] fix: numbers out of range of tag value

---
 luawpk/nametid.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index fc413bf..753ecd5 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -129,6 +130,7 @@ func (e *ErrProtected) Error() string {
 var (
 	ErrBadTagKey = errors.New("tag key type is not number or string")
 	ErrBadTagVal = errors.New("tag value type is not string or boolean or 'tag' userdata")
+	ErrBadTagNum = errors.New("number is out of range of tag value")
 )
 
 // ValueToTID converts LValue to uint16 tag identifier.
@@ -154,6 +156,14 @@ func ValueToTID(k lua.LValue) (tid wpk.TID, err error) {
 	return
 }
 
+// numToUint converts number to unsigned integer if it is representable.
+func numToUint(val lua.LNumber) (uint, error) {
+	if !(val >= 0 && val < math.MaxUint) {
+		return 0, ErrBadTagNum
+	}
+	return uint(val), nil
+}
+
 // ValueToTag converts LValue to TagRaw. Strings converts explicitly to byte sequence,
 // boolen converts to 1 byte slice with 1 for 'true' and 0 for 'false'.
 // Otherwise if it is not 'tag' uservalue with TagRaw, returns error.
@@ -161,7 +171,11 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 	switch TidType[tid] {
 	case TTbin:
 		if val, ok := v.(lua.LNumber); ok {
-			tag = wpk.UintTag(uint(val))
+			var n uint
+			if n, err = numToUint(val); err != nil {
+				return
+			}
+			tag = wpk.UintTag(n)
 		} else if val, ok := v.(lua.LString); ok {
 			tag, err = hex.DecodeString(string(val))
 		} else {
@@ -191,12 +205,20 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 		}
 	case TTuint:
 		if val, ok := v.(lua.LNumber); ok {
-			tag = wpk.UintTag(uint(val))
+			var n uint
+			if n, err = numToUint(val); err != nil {
+				return
+			}
+			tag = wpk.UintTag(n)
 		} else if val, ok := v.(lua.LString); ok {
 			var i int
 			if i, err = strconv.Atoi(string(val)); err != nil {
 				return
 			}
+			if i < 0 {
+				err = ErrBadTagNum
+				return
+			}
 			tag = wpk.UintTag(uint(i))
 		} else if val, ok := v.(lua.LBool); ok {
 			if val {
@@ -229,6 +251,10 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 		}
 	case TTtime:
 		if val, ok := v.(lua.LNumber); ok {
+			if !(val >= math.MinInt64 && val < math.MaxInt64) {
+				err = ErrBadTagNum
+				return
+			}
 			var milli = int64(val)
 			var t = time.Unix(milli/1000, (milli%1000)*1000000)
 			tag = wpk.UnixmsTag(t)
@@ -244,7 +270,7 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 		}
 	default:
 		if val, ok := v.(lua.LNumber); ok {
-			if val < 0 || float64(val) != float64(int64(val)) {
+			if !(val >= 0 && val < math.MaxInt64) || float64(val) != float64(int64(val)) {
 				tag = wpk.NumberTag(float64(val))
 			} else {
 				tag = wpk.UintTag(uint(val))
-- 
2.43.0


From ec270dffdc2c5d42459f28872641177a150a6ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:27 +0000
Subject: [PATCH 33/55] fix: too long values of tags

---
 luawpk/luawpk.go  | 7 ++++++-
 luawpk/nametid.go | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 4bb46c9..14b0a5b 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -241,8 +241,13 @@ func setlabel(ls *lua.LState) int {
 	var pkg = CheckPack(ls, 1)
 	var label = ls.CheckString(2)
 
+	var tag, err = ValueToTag(wpk.TIDlabel, lua.LString(label))
+	if err != nil {
+		ls.RaiseError(err.Error())
+		return 0
+	}
 	pkg.SetInfo(wpk.CopyTagset(pkg.GetInfo()).
-		Set(wpk.TIDlabel, wpk.StrTag(label)))
+		Set(wpk.TIDlabel, tag))
 	return 0
 }
 
diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 753ecd5..e5e1191 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -131,6 +131,7 @@ var (
 	ErrBadTagKey = errors.New("tag key type is not number or string")
 	ErrBadTagVal = errors.New("tag value type is not string or boolean or 'tag' userdata")
 	ErrBadTagNum = errors.New("number is out of range of tag value")
+	ErrBadTagLen = errors.New("tag value is too long")
 )
 
 // ValueToTID converts LValue to uint16 tag identifier.
@@ -168,6 +169,11 @@ func numToUint(val lua.LNumber) (uint, error) {
 // boolen converts to 1 byte slice with 1 for 'true' and 0 for 'false'.
 // Otherwise if it is not 'tag' uservalue with TagRaw, returns error.
 func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
+	defer func() {
+		if err == nil && len(tag) > math.MaxUint16 {
+			tag, err = nil, ErrBadTagLen
+		}
+	}()
 	switch TidType[tid] {
 	case TTbin:
 		if val, ok := v.(lua.LNumber); ok {
-- 
2.43.0


From beb583a966cde4d7b076938b0478e48f7f4e45ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:29 +0000
Subject: [PATCH 34/55] fix: packing with wrong tags

---
 luawpk/luawpk.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 14b0a5b..34a350a 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -707,6 +707,11 @@ func wpkputdata(ls *lua.LState) int {
 
 	var r = strings.NewReader(data)
 
+	var opts wpk.TagsetRaw
+	if opts, err = TableToTagset(tags, opts); err != nil {
+		return 0
+	}
+
 	var w = pkg.wpt
 	if pkg.wpf != nil {
 		w = pkg.wpf
@@ -720,8 +725,9 @@ func wpkputdata(ls *lua.LState) int {
 		return 0
 	}
 
-	if ts, err = TableToTagset(tags, ts); err != nil {
-		return 0
+	var optsi = opts.Iterator()
+	for optsi.Next() {
+		ts = ts.Set(optsi.TID(), optsi.Tag())
 	}
 
 	pkg.SetupTagset(ts)
@@ -752,6 +758,11 @@ func wpkputfile(ls *lua.LState) int {
 	}
 	defer file.Close()
 
+	var opts wpk.TagsetRaw
+	if opts, err = TableToTagset(tags, opts); err != nil {
+		return 0
+	}
+
 	var w = pkg.wpt
 	if pkg.wpf != nil {
 		w = pkg.wpf
@@ -765,8 +776,9 @@ func wpkputfile(ls *lua.LState) int {
 		return 0
 	}
 
-	if ts, err = TableToTagset(tags, ts); err != nil {
-		return 0
+	var optsi = opts.Iterator()
+	for optsi.Next() {
+		ts = ts.Set(optsi.TID(), optsi.Tag())
 	}
 
 	pkg.SetupTagset(ts)
-- 
2.43.0


From 7c0e0ad4b82ef231a89312bd1a682f98ded858e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:21 +0000
Subject: [PATCH 35/55] fix: automatic file IDs repeat existing ones

---
 luawpk/luawpk.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 34a350a..be5c982 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -92,6 +92,19 @@ func CheckPack(ls *lua.LState, arg int) *LuaPackage {
 	return nil
 }
 
+// usefid moves counter of automatic file IDs behind the ID of given tagset.
+func (pkg *LuaPackage) usefid(ts wpk.TagsetRaw) {
+	if fid, ok := ts.TagUint(wpk.TIDfid); ok && fid > pkg.fidcount {
+		pkg.fidcount = fid
+	}
+}
+
+// SetupTagset puts tagset to package, automatic file IDs will not repeat its ID.
+func (pkg *LuaPackage) SetupTagset(ts wpk.TagsetRaw) {
+	pkg.usefid(ts)
+	pkg.Package.SetupTagset(ts)
+}
+
 func getterPack(ls *lua.LState) int {
 	var mt = ls.GetMetatable(ls.Get(1))
 	var val = ls.GetField(mt, ls.CheckString(2))
@@ -484,6 +497,11 @@ func wpkload(ls *lua.LState) int {
 		return 0
 	}
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
+	// continue numbering of files
+	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
+		pkg.usefid(ts)
+		return true
+	})
 
 	return 0
 }
-- 
2.43.0


From c7b5e5f3a9bcc4204f272dab3064467ec810808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 36/55] fix: failed opening of package files at the scripting
 interface

---
 luawpk/luawpk.go | 99 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 83 insertions(+), 16 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index be5c982..900b7c1 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -3,6 +3,7 @@ package luawpk
 import (
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	"path"
@@ -492,10 +493,12 @@ func wpkload(ls *lua.LState) int {
 		return 0
 	}
 
-	// open package file
-	if err = pkg.OpenFile(pkgpath); err != nil {
+	// open package file, object should not be changed on failure
+	var ftt wpk.FTT
+	if err = ftt.OpenFile(pkgpath); err != nil {
 		return 0
 	}
+	pkg.FTT = &ftt
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 	// continue numbering of files
 	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
@@ -522,27 +525,81 @@ func wpkbegin(ls *lua.LState) int {
 		return 0
 	}
 
-	// create package file
-	if pkg.wpt, err = os.OpenFile(pkgpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
+	// create package files, present files are truncated only if all was opened
+	var wpt, wpf *os.File
+	var wptnew, wpfnew bool
+	defer func() {
+		if err != nil {
+			dropFile(wpt, wptnew)
+			dropFile(wpf, wpfnew)
+		}
+	}()
+	if wpt, wptnew, err = createFile(pkgpath); err != nil {
 		return 0
 	}
 	if datpath != "" {
-		if pkg.wpf, err = os.OpenFile(datpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
-			pkg.wpt.Close()
-			pkg.wpt = nil
+		if wpf, wpfnew, err = createFile(datpath); err != nil {
+			return 0
+		}
+		if err = wpf.Truncate(0); err != nil {
 			return 0
 		}
 	}
-	// setup file representation
-	pkg.pkgpath, pkg.datpath = pkgpath, datpath
+	if err = wpt.Truncate(0); err != nil {
+		return 0
+	}
 	// starts new package
-	if err = pkg.Begin(pkg.wpt, pkg.wpf); err != nil {
+	if err = pkg.beginFiles(wpt, wpf, pkg.Begin); err != nil {
 		return 0
 	}
+	// setup file representation
+	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 
 	return 0
 }
 
+// createFile opens file to write without truncation, or creates new one
+// if it does not exist.
+func createFile(fpath string) (f *os.File, isnew bool, err error) {
+	if f, err = os.OpenFile(fpath, os.O_WRONLY, 0755); errors.Is(err, fs.ErrNotExist) {
+		f, err = os.OpenFile(fpath, os.O_WRONLY|os.O_CREATE, 0755)
+		isnew = err == nil
+	}
+	if err != nil {
+		f = nil
+	}
+	return
+}
+
+// dropFile closes given file, and removes it if it was just created.
+func dropFile(f *os.File, isnew bool) {
+	if f == nil {
+		return
+	}
+	f.Close()
+	if isnew {
+		os.Remove(f.Name())
+	}
+}
+
+// beginFiles calls given function to start writing of the package files,
+// and puts those files to the object on success.
+func (pkg *LuaPackage) beginFiles(wpt, wpf *os.File, start func(wpt, wpf io.WriteSeeker) error) (err error) {
+	if wpf != nil {
+		err = start(wpt, wpf)
+	} else {
+		err = start(wpt, nil)
+	}
+	if err != nil {
+		return
+	}
+	pkg.wpt = wpt
+	if wpf != nil {
+		pkg.wpf = wpf
+	}
+	return
+}
+
 func wpkappend(ls *lua.LState) int {
 	var err error
 	defer func() {
@@ -557,19 +614,29 @@ func wpkappend(ls *lua.LState) int {
 		return 0
 	}
 
-	// open package file
-	if pkg.wpt, err = os.OpenFile(pkg.pkgpath, os.O_WRONLY, 0755); err != nil {
+	// data file should be given only for splitted package
+	if (pkg.datpath != "") != pkg.IsSplitted() {
+		err = ErrDataClosed
+		return 0
+	}
+	// open package files
+	var wpt, wpf *os.File
+	defer func() {
+		if err != nil {
+			dropFile(wpt, false)
+			dropFile(wpf, false)
+		}
+	}()
+	if wpt, err = os.OpenFile(pkg.pkgpath, os.O_WRONLY, 0755); err != nil {
 		return 0
 	}
 	if pkg.datpath != "" {
-		if pkg.wpf, err = os.OpenFile(pkg.datpath, os.O_WRONLY, 0755); err != nil {
-			pkg.wpt.Close()
-			pkg.wpt = nil
+		if wpf, err = os.OpenFile(pkg.datpath, os.O_WRONLY, 0755); err != nil {
 			return 0
 		}
 	}
 	// starts to append files
-	if err = pkg.Append(pkg.wpt, pkg.wpf); err != nil {
+	if err = pkg.beginFiles(wpt, wpf, pkg.Append); err != nil {
 		return 0
 	}
 
-- 
2.43.0


From 0c47f36353a5260407ac78f1c684e5bb3a5992b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:00 +0000
Subject: [PATCH 37/55] fix: exit code of failed packing and extracting

---
 cmd/extract/extract.go | 4 ++--
 cmd/pack/pack.go       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 84d5519..0441963 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -183,13 +183,13 @@ func readpackage() (err error) {
 func main() {
 	parseargs()
 	if checkargs() > 0 {
-		return
+		os.Exit(1)
 	}
 
 	log.Println("starts")
 	if err := readpackage(); err != nil {
 		log.Println(err.Error())
-		return
+		os.Exit(1)
 	}
 	log.Println("done.")
 }
diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index ed3d4c2..f73267b 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -180,13 +180,13 @@ func writepackage() (err error) {
 func main() {
 	parseargs()
 	if checkargs() > 0 {
-		return
+		os.Exit(1)
 	}
 
 	log.Println("starts")
 	if err := writepackage(); err != nil {
 		log.Println(err.Error())
-		return
+		os.Exit(1)
 	}
 	log.Println("done.")
 }
-- 
2.43.0


From 20c5dafe82c7d460fb9f1c9e51819db65fc38db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:23 +0000
Subject: [PATCH 38/55] fix: errors of packing are lost

---
 cmd/pack/pack.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index f73267b..c14b305 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -111,7 +111,7 @@ func writepackage() (err error) {
 	for i, srcpath := range SrcList {
 		log.Printf("source folder #%d: %s", i+1, srcpath)
 		var num, sum int64
-		fs.WalkDir(os.DirFS(srcpath), ".", func(fkey string, d fs.DirEntry, err error) error {
+		if err = fs.WalkDir(os.DirFS(srcpath), ".", func(fkey string, d fs.DirEntry, err error) error {
 			if err != nil {
 				return err
 			}
@@ -164,7 +164,9 @@ func writepackage() (err error) {
 			}
 			pkg.SetTagset(fkey, ts)
 			return nil
-		})
+		}); err != nil {
+			return
+		}
 		log.Printf("packed: %d files on %d bytes", num, sum)
 	}
 
-- 
2.43.0


From 7e8fe43feccb3d9624fc7da9f82633de1fa5cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:24 +0000
Subject: [PATCH 39/55] fix: content type by file content

---
 cmd/pack/pack.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index c14b305..157405e 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"bytes"
 	"flag"
 	"io"
 	"io/fs"
@@ -149,8 +148,8 @@ func writepackage() (err error) {
 					}
 					// read a chunk to decide between utf-8 text and binary
 					var buf [sniffLen]byte
-					var n int64
-					if n, err = io.CopyN(bytes.NewBuffer(buf[:]), file, sniffLen); err != nil && err != io.EOF {
+					var n int
+					if n, err = io.ReadFull(file, buf[:]); err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 						return err
 					}
 					ctype = http.DetectContentType(buf[:n])
-- 
2.43.0


From 2f2555af363609fbd0ffe1c07db0679138e5d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:26 +0000
Subject: [PATCH 40/55] fix: package is packed into itself

---
 cmd/pack/pack.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index 157405e..020e6a6 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -106,6 +106,15 @@ func writepackage() (err error) {
 		w = fwpf
 	}
 
+	// files of the package itself can be placed in source folders
+	var fiwpk, fiwpf fs.FileInfo
+	if fiwpk, err = os.Stat(pkgfile); err != nil {
+		return
+	}
+	if fiwpf, err = os.Stat(datfile); err != nil {
+		return
+	}
+
 	// write all source folders
 	for i, srcpath := range SrcList {
 		log.Printf("source folder #%d: %s", i+1, srcpath)
@@ -126,6 +135,14 @@ func writepackage() (err error) {
 			}
 			defer file.Close()
 
+			var fi fs.FileInfo
+			if fi, err = file.Stat(); err != nil {
+				return err
+			}
+			if os.SameFile(fi, fiwpk) || os.SameFile(fi, fiwpf) {
+				return nil // file is the package itself
+			}
+
 			if ts, err = pkg.PackFile(w, file, fkey); err != nil {
 				return err
 			}
-- 
2.43.0


From bbecfe0a9ecb824943733f87ac44743ec34a0322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 41/55] fix: packing of names with backslashes

---
 cmd/pack/pack.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index 020e6a6..e9460d9 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"errors"
 	"flag"
 	"io"
 	"io/fs"
@@ -26,6 +27,9 @@ var (
 	Split   bool
 )
 
+// ErrBadName is returned on files which names can not be kept in the package.
+var ErrBadName = errors.New("file name has backslash")
+
 func parseargs() {
 	flag.StringVar(&srcpath, "src", "", "full path to folder with source files to be packaged, or list of folders divided by ';'")
 	flag.StringVar(&DstFile, "dst", "", "full path to output package file")
@@ -127,6 +131,10 @@ func writepackage() (err error) {
 				return nil // file is directory
 			}
 
+			if util.ToSlash(fkey) != fkey {
+				return &fs.PathError{Op: "pack", Path: fkey, Err: ErrBadName}
+			}
+
 			var fpath = util.JoinPath(srcpath, fkey)
 			var file wpk.RFile
 			var ts wpk.TagsetRaw
-- 
2.43.0


From f126115d8d1c5e47809e1ad512b33e545adb1aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:02 +0000
Subject: [PATCH 42/55] fix: extraction out of destination path

---
 cmd/extract/extract.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 0441963..8e1a1f9 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -4,9 +4,11 @@ import (
 	"errors"
 	"flag"
 	"io"
+	"io/fs"
 	"log"
 	"os"
 	"path"
+	"path/filepath"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk"
@@ -30,7 +32,8 @@ var (
 var pkg = wpk.NewPackage()
 
 var (
-	ErrNoWay = errors.New("no way to here")
+	ErrNoWay   = errors.New("no way to here")
+	ErrBadName = errors.New("file name is out of destination path")
 )
 
 func parseargs() {
@@ -129,12 +132,20 @@ func readpackage() (err error) {
 			defer pkg.Close()
 
 			var num, sum int64
+			var errname error // refused entries do not stop extraction of other ones
 			pkg.Enum(func(fkey string, ts wpk.TagsetRaw) (next bool) {
 				defer func() {
 					next = err == nil
 				}()
 
-				var fullpath = util.JoinPath(DstPath, fkey)
+				var fpath = path.Clean(strings.TrimLeft(util.ToSlash(fkey), "/"))
+				if fpath == "." || !filepath.IsLocal(fpath) {
+					errname = &fs.PathError{Op: "extract", Path: fkey, Err: ErrBadName}
+					log.Println(errname.Error())
+					return
+				}
+
+				var fullpath = util.JoinPath(DstPath, fpath)
 				if err = os.MkdirAll(path.Dir(fullpath), os.ModePerm); err != nil {
 					return
 				}
@@ -170,6 +181,9 @@ func readpackage() (err error) {
 				}
 				return
 			})
+			if err == nil {
+				err = errname
+			}
 			log.Printf("unpacked: %d files on %d bytes", num, sum)
 		}()
 		if err != nil {
-- 
2.43.0


From 69502a79e8d4241fe59e016e5ef5a34e7b5dd204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:33 +0000
Subject: [PATCH 43/55] fix: SeqMap.Pop changes the map under the write lock

---
 util/seqmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/seqmap.go b/util/seqmap.go
index 4479db5..2fec692 100644
--- a/util/seqmap.go
+++ b/util/seqmap.go
@@ -65,8 +65,8 @@ func (m *SeqMap[K, T]) Poke(key K, val T) {
 }
 
 func (m *SeqMap[K, T]) Pop() (key K, val T, ok bool) {
-	m.mux.RLock()
-	defer m.mux.RUnlock()
+	m.mux.Lock()
+	defer m.mux.Unlock()
 
 	if n := len(m.seq) - 1; n >= 0 {
 		key, val, ok = m.seq[n].key, m.seq[n].val, true
-- 
2.43.0


From 408800f287017592a79845e8e68d276caa746669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:15 +0000
Subject: [PATCH 44/55] fix: adding a tag to the tagset of opened package
 overwrites the next ones

---
 wpk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wpk.go b/wpk.go
index c3d87e5..6c72e0b 100644
--- a/wpk.go
+++ b/wpk.go
@@ -373,7 +373,7 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			err = io.ErrUnexpectedEOF
 			return
 		}
-		var ts = TagsetRaw(buf[n : n+int64(tsl)])
+		var ts = TagsetRaw(buf[n : n+int64(tsl) : n+int64(tsl)]) // appending should not touch the next one
 		n += int64(tsl)
 
 		var tsi = ts.Iterator()
@@ -403,7 +403,7 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			err = io.ErrUnexpectedEOF
 			return
 		}
-		var ts = TagsetRaw(buf[n : n+int64(tsl)])
+		var ts = TagsetRaw(buf[n : n+int64(tsl) : n+int64(tsl)]) // appending should not touch the next one
 		n += int64(tsl)
 
 		var fkey string
-- 
2.43.0


From 271be49fa4bfdc5124fdc660873bf94a2bb86a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:48 +0000
Subject: [PATCH 45/55] fix: edits of the table are atomic for the threads

---
 util/seqmap.go | 24 ++++++++++++++++++++++++
 wpk.go         | 11 +++++++++++
 writer.go      | 43 +++++++++++++++++++++++--------------------
 3 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/util/seqmap.go b/util/seqmap.go
index 2fec692..766e45d 100644
--- a/util/seqmap.go
+++ b/util/seqmap.go
@@ -108,6 +108,30 @@ func (m *SeqMap[K, T]) Delete(key K) (ret T, ok bool) {
 	return
 }
 
+// Move replaces entry with key1 by the pair of key2 and given value
+// as a single step.
+func (m *SeqMap[K, T]) Move(key1, key2 K, val T) {
+	m.mux.Lock()
+	defer m.mux.Unlock()
+
+	if n, ok := m.idx[key1]; ok {
+		delete(m.idx, key1)
+		m.seq = append(m.seq[:n], m.seq[n+1:]...)
+		for i := n; i < len(m.seq); i++ {
+			m.idx[m.seq[i].key] = i
+		}
+	}
+	if n, ok := m.idx[key2]; ok {
+		m.seq[n].val = val
+	} else {
+		m.idx[key2] = len(m.seq)
+		m.seq = append(m.seq, kvpair[K, T]{
+			key: key2,
+			val: val,
+		})
+	}
+}
+
 func (m *SeqMap[K, T]) Range(f func(K, T) bool) {
 	m.mux.Lock()
 	var s = make([]kvpair[K, T], len(m.seq))
diff --git a/wpk.go b/wpk.go
index 6c72e0b..e381560 100644
--- a/wpk.go
+++ b/wpk.go
@@ -664,16 +664,27 @@ func (pkg *Package) GetTagset(fkey string) (TagsetRaw, bool) {
 
 // SetTagset puts tagset with given filename key.
 func (pkg *Package) SetTagset(fkey string, ts TagsetRaw) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+	pkg.poke(fkey, ts)
+}
+
+// poke puts tagset with given filename key inside of writing operation.
+func (pkg *Package) poke(fkey string, ts TagsetRaw) {
 	pkg.tsm.Poke(pkg.FullPath(util.ToSlash(fkey)), ts)
 }
 
 // SetupTagset puts tagset with filename key stored at tagset.
 func (pkg *Package) SetupTagset(ts TagsetRaw) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
 	pkg.tsm.Poke(ts.Path(), ts)
 }
 
 // GetDelTagset deletes the tagset for a key, returning the previous tagset if any.
 func (pkg *Package) DelTagset(fkey string) (TagsetRaw, bool) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
 	return pkg.tsm.Delete(pkg.FullPath(util.ToSlash(fkey)))
 }
 
diff --git a/writer.go b/writer.go
index d306c3d..2fae2b2 100644
--- a/writer.go
+++ b/writer.go
@@ -157,32 +157,28 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 // PackData puts data streamed by given reader into package as a file
 // and associate keyname "fkey" with it.
 func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts TagsetRaw, err error) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	if _, ok := pkg.GetTagset(fkey); ok {
 		err = &fs.PathError{Op: "packdata", Path: fkey, Err: fs.ErrExist}
 		return
 	}
 
 	var offset, size int64
-	if func() {
-		pkg.mux.Lock()
-		defer pkg.mux.Unlock()
-
-		// get offset and put provided data
-		if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
-			return
-		}
-		if size, err = io.Copy(w, r); err != nil {
-			return
-		}
-		// update actual package data size
-		pkg.datsize += uint64(size)
-	}(); err != nil {
+	// get offset and put provided data
+	if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
 		return
 	}
+	if size, err = io.Copy(w, r); err != nil {
+		return
+	}
+	// update actual package data size
+	pkg.datsize += uint64(size)
 
 	// insert new entry to tags table
 	ts = pkg.BaseTagset(uint(offset), uint(size), fkey)
-	pkg.SetTagset(fkey, ts)
+	pkg.poke(fkey, ts)
 	return
 }
 
@@ -231,6 +227,9 @@ func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts Ta
 // Rename tagset with file name 'fkey1' to 'fkey2'.
 // Keeps link to original file name.
 func (pkg *Package) Rename(fkey1, fkey2 string) error {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	var ts, ok = pkg.GetTagset(fkey1)
 	if !ok {
 		return &fs.PathError{Op: "rename", Path: fkey1, Err: fs.ErrNotExist}
@@ -240,13 +239,15 @@ func (pkg *Package) Rename(fkey1, fkey2 string) error {
 	}
 
 	ts = CopyTagset(ts).Set(TIDpath, StrTag(pkg.FullPath(util.ToSlash(fkey2))))
-	pkg.DelTagset(fkey1)
-	pkg.SetTagset(fkey2, ts)
+	pkg.tsm.Move(pkg.FullPath(util.ToSlash(fkey1)), pkg.FullPath(util.ToSlash(fkey2)), ts)
 	return nil
 }
 
 // RenameDir renames all files in package with 'olddir' path to 'newdir' path.
 func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int, err error) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	olddir, newdir = util.ToSlash(olddir), util.ToSlash(newdir)
 	if len(olddir) > 0 && olddir[len(olddir)-1] != '/' {
 		olddir += "/"
@@ -262,8 +263,7 @@ func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int,
 				return skipexist
 			}
 			ts = CopyTagset(ts).Set(TIDpath, StrTag(pkg.FullPath(util.ToSlash(newkey))))
-			pkg.DelTagset(fkey)
-			pkg.SetTagset(newkey, ts)
+			pkg.tsm.Move(pkg.FullPath(fkey), pkg.FullPath(newkey), ts)
 			count++
 		}
 		return true
@@ -277,6 +277,9 @@ func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int,
 // PutAlias makes clone tagset with file name 'fkey1' and replace name tag
 // in it to 'fkey2'. Keeps link to original file name.
 func (pkg *Package) PutAlias(fkey1, fkey2 string) error {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	var ts, ok = pkg.GetTagset(fkey1)
 	if !ok {
 		return &fs.PathError{Op: "putalias", Path: fkey1, Err: fs.ErrNotExist}
@@ -286,7 +289,7 @@ func (pkg *Package) PutAlias(fkey1, fkey2 string) error {
 	}
 
 	ts = CopyTagset(ts).Set(TIDpath, StrTag(pkg.FullPath(util.ToSlash(fkey2))))
-	pkg.SetTagset(fkey2, ts)
+	pkg.poke(fkey2, ts)
 	return nil
 }
 
-- 
2.43.0


From a811a56d6caef96f2cb848cb9ca66f8be70c9207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:50 +0000
Subject: [PATCH 46/55] fix: packed file appears with all its tags at once

---
 writer.go | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/writer.go b/writer.go
index 2fae2b2..7c49b95 100644
--- a/writer.go
+++ b/writer.go
@@ -157,6 +157,11 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 // PackData puts data streamed by given reader into package as a file
 // and associate keyname "fkey" with it.
 func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts TagsetRaw, err error) {
+	return pkg.packTagged(w, r, fkey, nil)
+}
+
+// packTagged puts data as `PackData` does, new entry appears with additional tags at once.
+func (pkg *Package) packTagged(w io.WriteSeeker, r io.Reader, fkey string, tags TagsetRaw) (ts TagsetRaw, err error) {
 	pkg.mux.Lock()
 	defer pkg.mux.Unlock()
 
@@ -177,7 +182,7 @@ func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts Tag
 	pkg.datsize += uint64(size)
 
 	// insert new entry to tags table
-	ts = pkg.BaseTagset(uint(offset), uint(size), fkey)
+	ts = append(pkg.BaseTagset(uint(offset), uint(size), fkey), tags...)
 	pkg.poke(fkey, ts)
 	return
 }
@@ -202,26 +207,18 @@ func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts Ta
 	if fi, err = file.Stat(); err != nil {
 		return
 	}
-	if ts, err = pkg.PackData(w, file, fkey); err != nil {
-		return
-	}
 
-	//ts = ts.Put(TIDmtime, TimeTag(fi.ModTime()))
-	ts = ts.Put(TIDmtime, TimeTag(fi.ModTime()))
-	var tsp = timespec(fi)
-	if tsp == nil {
-		pkg.SetTagset(fkey, ts)
-		return
-	}
-	ts = ts.Put(TIDatime, TimeTag(tsp.AccessTime()))
-	if tsp.HasChangeTime() {
-		ts = ts.Put(TIDctime, TimeTag(tsp.ChangeTime()))
-	}
-	if tsp.HasBirthTime() {
-		ts = ts.Put(TIDbtime, TimeTag(tsp.BirthTime()))
+	var tags = TagsetRaw{}.Put(TIDmtime, TimeTag(fi.ModTime()))
+	if tsp := timespec(fi); tsp != nil {
+		tags = tags.Put(TIDatime, TimeTag(tsp.AccessTime()))
+		if tsp.HasChangeTime() {
+			tags = tags.Put(TIDctime, TimeTag(tsp.ChangeTime()))
+		}
+		if tsp.HasBirthTime() {
+			tags = tags.Put(TIDbtime, TimeTag(tsp.BirthTime()))
+		}
 	}
-	pkg.SetTagset(fkey, ts)
-	return
+	return pkg.packTagged(w, file, fkey, tags)
 }
 
 // Rename tagset with file name 'fkey1' to 'fkey2'.
-- 
2.43.0


From 73b2976545721831abe94cd493dc17ca163db942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:17 +0000
Subject: [PATCH 47/55] fix: reading of package information and sizes races
 with the writers

---
 wpk.go    | 41 +++++++++++++++++++++++++++++++++--------
 writer.go |  8 ++++----
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/wpk.go b/wpk.go
index e381560..76030bb 100644
--- a/wpk.go
+++ b/wpk.go
@@ -254,18 +254,33 @@ type FTT struct {
 	fttoffset uint64 // offset of file tags table that was read or written last
 	fttsize   uint64 // size of file tags table that was read or written last
 
-	mux sync.Mutex // writer mutex
+	mux sync.Mutex   // writer mutex
+	rwm sync.RWMutex // guards fields above for the readers, tags table has its own
 }
 
 // Init performs initialization for given Package structure.
 func (ftt *FTT) Init(hdr *Header) {
-	ftt.info = nil
+	ftt.setInfo(nil)
 	ftt.tsm.Init(int(hdr.fttcount))
 	// update data offset/pos
+	ftt.setPos(hdr)
+}
+
+// setPos updates offsets and sizes by the header.
+func (ftt *FTT) setPos(hdr *Header) {
+	ftt.rwm.Lock()
+	defer ftt.rwm.Unlock()
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 }
 
+// setInfo puts package information tagset inside of writing operation.
+func (ftt *FTT) setInfo(ts TagsetRaw) {
+	ftt.rwm.Lock()
+	defer ftt.rwm.Unlock()
+	ftt.info = ts
+}
+
 // TagsetNum returns actual number of entries at files tags table.
 func (ftt *FTT) TagsetNum() int {
 	return ftt.tsm.Len()
@@ -273,17 +288,23 @@ func (ftt *FTT) TagsetNum() int {
 
 // IsSplitted returns true if package is splitted on tags and data files.
 func (ftt *FTT) IsSplitted() bool {
+	ftt.rwm.RLock()
+	defer ftt.rwm.RUnlock()
 	return ftt.datoffset == 0
 }
 
 // DataSize returns package data size from files tags table.
 // This value changed on FTT open or sync operation.
 func (ftt *FTT) DataSize() uint {
+	ftt.rwm.RLock()
+	defer ftt.rwm.RUnlock()
 	return uint(ftt.datsize)
 }
 
 // GetInfo returns package information tagset if it present.
 func (ftt *FTT) GetInfo() TagsetRaw {
+	ftt.rwm.RLock()
+	defer ftt.rwm.RUnlock()
 	return ftt.info
 }
 
@@ -291,7 +312,7 @@ func (ftt *FTT) GetInfo() TagsetRaw {
 func (ftt *FTT) SetInfo(ts TagsetRaw) {
 	ftt.mux.Lock()
 	defer ftt.mux.Unlock()
-	ftt.info = ts
+	ftt.setInfo(ts)
 }
 
 // CheckTagset tests path & offset & size tags existence
@@ -384,7 +405,7 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			return
 		}
 
-		ftt.info = ts
+		ftt.setInfo(ts)
 	}
 
 	for {
@@ -440,7 +461,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 			return
 		}
 
-		ftt.info = ts
+		ftt.setInfo(ts)
 	}
 
 	for {
@@ -480,7 +501,8 @@ func (ftt *FTT) WriteTo(w io.Writer) (n int64, err error) {
 func (ftt *FTT) writeTable(w io.Writer) (n int64, count uint64, err error) {
 	// write tagset with package info at first, can be empty
 	{
-		var tsl = len(ftt.info)
+		var info = ftt.GetInfo()
+		var tsl = len(info)
 		if tsl > tsmaxlen {
 			err = ErrRangeTSSize
 			return
@@ -493,7 +515,7 @@ func (ftt *FTT) writeTable(w io.Writer) (n int64, count uint64, err error) {
 		n += PTStssize
 
 		// write tagset content
-		if _, err = w.Write(ftt.info); err != nil {
+		if _, err = w.Write(info); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -788,7 +810,10 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 
 // openPack gives access to the whole package content, at any workspace.
 func (pkg *Package) openPack() (fs.File, error) {
-	var ts = pkg.BaseTagset(0, uint(pkg.datoffset+pkg.datsize), "wpk")
+	pkg.rwm.RLock()
+	var size = uint(pkg.datoffset + pkg.datsize)
+	pkg.rwm.RUnlock()
+	var ts = pkg.BaseTagset(0, size, "wpk")
 	return pkg.Tagger.OpenTagset(ts)
 }
 
diff --git a/writer.go b/writer.go
index 7c49b95..480a3c8 100644
--- a/writer.go
+++ b/writer.go
@@ -46,8 +46,7 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	// new package is empty, drop entries of previous one
 	ftt.tsm.Init(0)
 	// update data offset/pos
-	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
-	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
+	ftt.setPos(&hdr)
 	return
 }
 
@@ -149,8 +148,7 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 		return
 	}
 	// update data offset/pos
-	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
-	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
+	ftt.setPos(&hdr)
 	return
 }
 
@@ -179,7 +177,9 @@ func (pkg *Package) packTagged(w io.WriteSeeker, r io.Reader, fkey string, tags
 		return
 	}
 	// update actual package data size
+	pkg.rwm.Lock()
 	pkg.datsize += uint64(size)
+	pkg.rwm.Unlock()
 
 	// insert new entry to tags table
 	ts = append(pkg.BaseTagset(uint(offset), uint(size), fkey), tags...)
-- 
2.43.0


From 14eea77a8bccd72a5b53c0756a843f6906664f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:17 +0000
Subject: [PATCH 48/55] fix: adding tags to the tagset got from package does
 not share memory

---
 tagset.go | 6 ++++++
 wpk.go    | 7 ++++---
 writer.go | 1 +
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/tagset.go b/tagset.go
index 625b3da..26b8e65 100644
--- a/tagset.go
+++ b/tagset.go
@@ -231,6 +231,12 @@ func CopyTagset(ts TagsetRaw) TagsetRaw {
 	return append(TagsetRaw{}, ts...) // make copy with some extra space
 }
 
+// clip returns tagset without spare space, so that appending to it
+// does not touch the memory shared with tagset stored at the package.
+func (ts TagsetRaw) clip() TagsetRaw {
+	return ts[:len(ts):len(ts)]
+}
+
 // Num returns number of tags in tagset.
 func (ts TagsetRaw) Num() (n int) {
 	var tsi = ts.Iterator()
diff --git a/wpk.go b/wpk.go
index 76030bb..6fa1d30 100644
--- a/wpk.go
+++ b/wpk.go
@@ -305,7 +305,7 @@ func (ftt *FTT) DataSize() uint {
 func (ftt *FTT) GetInfo() TagsetRaw {
 	ftt.rwm.RLock()
 	defer ftt.rwm.RUnlock()
-	return ftt.info
+	return ftt.info.clip()
 }
 
 // SetInfo puts given tagset as package information tagset.
@@ -681,7 +681,8 @@ func (pkg *Package) HasTagset(fkey string) bool {
 
 // GetTagset returns tagset with given filename key, if it found.
 func (pkg *Package) GetTagset(fkey string) (TagsetRaw, bool) {
-	return pkg.tsm.Peek(pkg.FullPath(util.ToSlash(fkey)))
+	var ts, ok = pkg.tsm.Peek(pkg.FullPath(util.ToSlash(fkey)))
+	return ts.clip(), ok
 }
 
 // SetTagset puts tagset with given filename key.
@@ -717,7 +718,7 @@ func (pkg *Package) Enum(f func(string, TagsetRaw) bool) {
 		prefix = pkg.Workspace + "/" // make prefix path slash-terminated
 	}
 	pkg.tsm.Range(func(fkey string, ts TagsetRaw) bool {
-		return !strings.HasPrefix(fkey, prefix) || f(fkey[len(prefix):], ts)
+		return !strings.HasPrefix(fkey, prefix) || f(fkey[len(prefix):], ts.clip())
 	})
 }
 
diff --git a/writer.go b/writer.go
index 480a3c8..c9a1772 100644
--- a/writer.go
+++ b/writer.go
@@ -184,6 +184,7 @@ func (pkg *Package) packTagged(w io.WriteSeeker, r io.Reader, fkey string, tags
 	// insert new entry to tags table
 	ts = append(pkg.BaseTagset(uint(offset), uint(size), fkey), tags...)
 	pkg.poke(fkey, ts)
+	ts = ts.clip()
 	return
 }
 
-- 
2.43.0


From a51d041df629d72df1196f01eed51d6f6781c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 49/55] fix: do not panic on opening at the union workspace
 with special name

---
 union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/union.go b/union.go
index 8e20e88..438c4ab 100644
--- a/union.go
+++ b/union.go
@@ -192,7 +192,7 @@ func (u *Union) Open(dir string) (fs.File, error) {
 
 	if len(u.List) > 0 {
 		if fulldir := u.List[0].FullPath(dir); strings.HasPrefix(fulldir, PackName+"/") {
-			var idx, err = strconv.ParseUint(dir[len(PackName)+1:], 10, 32)
+			var idx, err = strconv.ParseUint(fulldir[len(PackName)+1:], 10, 32)
 			if err != nil {
 				return nil, &fs.PathError{Op: "open", Path: dir, Err: err}
 			}
-- 
2.43.0


From 430857885e182bfdd24013e8a86cff51c12bf3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 50/55] fix: return failure exit code from build tool if script
 fails

---
 cmd/build/build.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/build/build.go b/cmd/build/build.go
index 2f6f3b0..db6d9b2 100644
--- a/cmd/build/build.go
+++ b/cmd/build/build.go
@@ -11,8 +11,7 @@ import (
 func main() {
 	for _, fpath := range os.Args[1:] {
 		if err := lw.RunLuaVM(util.Envfmt(fpath, nil)); err != nil {
-			log.Println(err.Error())
-			return
+			log.Fatalln(err.Error())
 		}
 	}
 }
-- 
2.43.0


From 92e9d608fe276c0c0e929e0d490c94e1d401014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 51/55] fix: reading of closed memory mapped file fails instead
 of crash

---
 mmap/mmap.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index c5d5442..3253bf3 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -63,6 +63,13 @@ func NewMappedFile(fwpk *os.File, ts wpk.TagsetRaw) (f *MappedFile, err error) {
 	return
 }
 
+// closedReader is reader of the file which memory is unmapped.
+type closedReader struct{}
+
+func (closedReader) Read([]byte) (int, error)          { return 0, fs.ErrClosed }
+func (closedReader) ReadAt([]byte, int64) (int, error) { return 0, fs.ErrClosed }
+func (closedReader) Seek(int64, int) (int64, error)    { return 0, fs.ErrClosed }
+
 // Stat is for fs.File interface compatibility.
 func (f *MappedFile) Stat() (fs.FileInfo, error) {
 	return f.tags, nil
@@ -73,6 +80,9 @@ func (f *MappedFile) Close() error {
 	if f.MMap == nil { // nothing is mapped for empty file
 		return nil
 	}
+	// memory can not be accessed after unmapping
+	f.PkgReader = closedReader{}
+	f.region = nil
 	return f.Unmap()
 }
 
-- 
2.43.0


From a210e6d759588262b42e145793b840ac53bbfebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 52/55] fix: entry with backslashes at the path is found under
 other name

---
 tagset.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tagset.go b/tagset.go
index 26b8e65..e1ced25 100644
--- a/tagset.go
+++ b/tagset.go
@@ -440,14 +440,13 @@ func (ts TagsetRaw) Pos() (offset, size uint) {
 // Path required to be present in any tagset.
 func (ts TagsetRaw) Path() string {
 	var fpath, _ = ts.TagStr(TIDpath)
-	return fpath
+	return util.ToSlash(fpath) // as it is in the file tags table
 }
 
 // Name returns base name of nested into package file.
 // fs.FileInfo implementation.
 func (ts TagsetRaw) Name() string {
-	var fpath, _ = ts.TagStr(TIDpath)
-	return path.Base(fpath) // path should be here with true slashes
+	return path.Base(ts.Path()) // path should be here with true slashes
 }
 
 // Size returns size of nested into package file.
-- 
2.43.0


From b0525a8fb4ec5d195c37f1addc69a54af737c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 53/55] fix: endless walk through package with improper file
 names

---
 dir.go   | 13 ++++++++++---
 union.go |  7 +++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/dir.go b/dir.go
index c7398ca..d4a7928 100644
--- a/dir.go
+++ b/dir.go
@@ -92,16 +92,23 @@ func TempPath(fname string) string {
 
 // scanDir puts entries nested into given package directory presentation
 // to the map by theirs names. Entries already present in the map are kept.
-func (ftt *FTT) scanDir(fulldir string, found map[string]fs.DirEntry) {
+// Returns true if directory exists.
+func (ftt *FTT) scanDir(fulldir string, found map[string]fs.DirEntry) (exist bool) {
 	fulldir = util.ToSlash(fulldir)
 	var prefix string
 	if fulldir != "." && fulldir != "" {
 		prefix = fulldir + "/" // set terminated slash
 	}
 
+	exist = prefix == "" // root folder always exists
 	ftt.tsm.Range(func(fkey string, ts TagsetRaw) bool {
 		if strings.HasPrefix(fkey, prefix) {
+			exist = true
 			var suffix = fkey[len(prefix):]
+			switch name, _, _ := strings.Cut(suffix, "/"); name {
+			case "", ".", "..":
+				return true // can not be presented at directory
+			}
 			var sp = strings.IndexByte(suffix, '/')
 			if sp < 0 { // file detected
 				if _, ok := found[suffix]; !ok {
@@ -120,6 +127,7 @@ func (ftt *FTT) scanDir(fulldir string, found map[string]fs.DirEntry) {
 		}
 		return true
 	})
+	return
 }
 
 // sortDir returns entries of the map sorted by filename.
@@ -163,8 +171,7 @@ func nextPage(rest *[]fs.DirEntry, n int) (list []fs.DirEntry, err error) {
 // sorted by filename. It's core function for ReadDirFile and ReadDirFS structures.
 func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error) {
 	var found = map[string]fs.DirEntry{}
-	ftt.scanDir(fulldir, found)
-	if len(found) == 0 && fulldir != "." && fulldir != "" {
+	if !ftt.scanDir(fulldir, found) {
 		return nil, &fs.PathError{Op: "readdir", Path: fulldir, Err: fs.ErrNotExist}
 	}
 	return limitDir(sortDir(found), n)
diff --git a/union.go b/union.go
index 438c4ab..44086ab 100644
--- a/union.go
+++ b/union.go
@@ -165,10 +165,13 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 	dir = util.ToSlash(dir)
 	var found = map[string]fs.DirEntry{}
+	var exist = dir == "." || dir == "" // root folder always exists
 	for _, pkg := range u.List {
-		pkg.scanDir(pkg.FullPath(dir), found)
+		if pkg.scanDir(pkg.FullPath(dir), found) {
+			exist = true
+		}
 	}
-	if len(found) == 0 && dir != "." && dir != "" {
+	if !exist {
 		return nil, &fs.PathError{Op: "readdir", Path: dir, Err: fs.ErrNotExist}
 	}
 	return limitDir(sortDir(found), n)
-- 
2.43.0


From 93ece2b1ddc9f89e59b81098808a2f127996d9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 54/55] fix: file with failed automatic tags remains at the
 package

---
 luawpk/luawpk.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 900b7c1..c6ba7b2 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -858,6 +858,7 @@ func wpkputfile(ls *lua.LState) int {
 	}
 
 	if ts, err = pkg.adjusttagset(file, ts); err != nil {
+		pkg.DelTagset(fkey) // file should not remain without its tags
 		return 0
 	}
 
-- 
2.43.0


From 7159f0842f7feab3749fbf81bb1239a0cd255699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 55/55] fix: script fails on listing of large packages

---
 luawpk/runlvm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/luawpk/runlvm.go b/luawpk/runlvm.go
index 12ab265..3ffe197 100644
--- a/luawpk/runlvm.go
+++ b/luawpk/runlvm.go
@@ -129,7 +129,10 @@ func InitLuaVM(ls *lua.LState) {
 
 // RunLuaVM runs specified Lua-script with Lua WPK API.
 func RunLuaVM(fpath string) (err error) {
-	var ls = lua.NewState()
+	var ls = lua.NewState(lua.Options{
+		RegistryMaxSize:  1 << 24, // function can return names of all files of the package
+		RegistryGrowStep: 4096,
+	})
 	defer ls.Close()
 	InitLuaVM(ls)
 
-- 
2.43.0

