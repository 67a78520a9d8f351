From cbecd78c6a2f2367757b4860d09e2c83cbce9de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 01/50] fix: read until the buffer is full, a reader may
 deliver less at once

---
 union.go       |  6 ++++--
 util/uintio.go | 10 +++++-----
 wpk.go         | 18 ++++++++++--------
 3 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/union.go b/union.go
index 9984f15..0c2852c 100644
--- a/union.go
+++ b/union.go
@@ -144,8 +144,10 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 
 			var size = ts.Size()
 			var buf = make([]byte, size)
-			_, err = f.Read(buf)
-			return buf, err
+			if _, err = io.ReadFull(f, buf); err != nil {
+				return nil, err
+			}
+			return buf, nil
 		}
 	}
 	return nil, &fs.PathError{Op: "readfile", Path: fpath, Err: fs.ErrNotExist}
diff --git a/util/uintio.go b/util/uintio.go
index 31112b3..62305e7 100644
--- a/util/uintio.go
+++ b/util/uintio.go
@@ -56,27 +56,27 @@ func SetF64(b []byte, f float64) {
 }
 
 func ReadU16(r io.Reader) (u uint16, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 2))
 	return
 }
 
 func ReadU32(r io.Reader) (u uint32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 4))
 	return
 }
 
 func ReadU64(r io.Reader) (u uint64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&u)), 8))
 	return
 }
 
 func ReadF32(r io.Reader) (f float32, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 4))
 	return
 }
 
 func ReadF64(r io.Reader) (f float64, err error) {
-	_, err = r.Read(unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
+	_, err = io.ReadFull(r, unsafe.Slice((*byte)(unsafe.Pointer(&f)), 8))
 	return
 }
 
diff --git a/wpk.go b/wpk.go
index a5cb640..8195720 100644
--- a/wpk.go
+++ b/wpk.go
@@ -196,7 +196,7 @@ func (hdr *Header) Parse(buf []byte) (n int64, err error) {
 
 // ReadFrom reads header from stream as binary data of constant length.
 func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
-	if _, err = r.Read(hdr.signature[:]); err != nil {
+	if _, err = io.ReadFull(r, hdr.signature[:]); err != nil {
 		return
 	}
 	n += SignSize
@@ -409,7 +409,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		n += PTStssize
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -437,7 +437,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 		}
 
 		var ts = make(TagsetRaw, tsl)
-		if _, err = r.Read(ts); err != nil {
+		if _, err = io.ReadFull(r, ts); err != nil {
 			return
 		}
 		n += int64(tsl)
@@ -518,7 +518,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	// read header
 	var hdr Header
 	var hdrbuf [HeaderSize]byte
-	if _, err = r.Read(hdrbuf[:]); err != nil {
+	if _, err = io.ReadFull(r, hdrbuf[:]); err != nil {
 		return
 	}
 	hdr.Parse(hdrbuf[:])
@@ -536,7 +536,7 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// read file tags
 	var fttbuf = make([]byte, hdr.fttsize)
-	if _, err = r.Read(fttbuf); err != nil {
+	if _, err = io.ReadFull(r, fttbuf); err != nil {
 		return
 	}
 	var fttsize int64
@@ -722,8 +722,10 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 
 		var size = ts.Size()
 		var buf = make([]byte, size)
-		_, err = f.Read(buf)
-		return buf, err
+		if _, err = io.ReadFull(f, buf); err != nil {
+			return nil, err
+		}
+		return buf, nil
 	}
 	return nil, &fs.PathError{Op: "readfile", Path: fkey, Err: fs.ErrNotExist}
 }
@@ -770,7 +772,7 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 	}
 
 	ts = make(TagsetRaw, tsl)
-	if _, err = r.Read(ts); err != nil {
+	if _, err = io.ReadFull(r, ts); err != nil {
 		return
 	}
 
-- 
2.43.0


From b3c97587b636301f0b3558be84d28c38c37bb036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 02/50] fix: replacing a tag by a longer one keeps the tags
 after it

---
 tagset.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tagset.go b/tagset.go
index 115386f..19aa02b 100644
--- a/tagset.go
+++ b/tagset.go
@@ -317,10 +317,13 @@ func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 	if tl == uint16(tsi.pos-tsi.tag) {
 		copy(ts[tsi.tag:tsi.pos], tag)
 	} else {
-		util.SetU16(ts[tsi.tag-PTStagsz:tsi.tag], tl) // set tag length
-		var suff = ts[tsi.pos:]
-		ts = append(ts[:tsi.tag], tag...)
-		ts = append(ts, suff...)
+		// tags after replaced one should not be overwritten by longer content
+		var buf = make(TagsetRaw, 0, len(ts)-(tsi.pos-tsi.tag)+len(tag))
+		buf = append(buf, ts[:tsi.tag]...)
+		buf = append(buf, tag...)
+		buf = append(buf, ts[tsi.pos:]...)
+		util.SetU16(buf[tsi.tag-PTStagsz:tsi.tag], tl) // set tag length
+		ts = buf
 	}
 	return ts, false
 }
-- 
2.43.0


From 1dc9c2a1c020426ab5768af80438c98710cc229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:17 +0000
Subject: [PATCH 03/50] fix: access, change and birth times read the time tags
 that PackFile writes

---
 tagset.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tagset.go b/tagset.go
index 19aa02b..015f0ee 100644
--- a/tagset.go
+++ b/tagset.go
@@ -510,22 +510,22 @@ func (ts TagsetRaw) Info() (fs.FileInfo, error) {
 // AccessTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) AccessTime() time.Time {
-	var t, _ = ts.TagUint64(TIDatime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDatime)
+	return t
 }
 
 // ChangeTime returns file change timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) ChangeTime() time.Time {
-	var t, _ = ts.TagUint64(TIDctime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDctime)
+	return t
 }
 
 // BirthTime returns file access timestamp of nested into package file.
 // times.Timespec implementation.
 func (ts TagsetRaw) BirthTime() time.Time {
-	var t, _ = ts.TagUint64(TIDbtime)
-	return time.Unix(int64(t), 0)
+	var t, _ = ts.TagTime(TIDbtime)
+	return t
 }
 
 // HasChangeTime is times.Timespec interface implementation.
-- 
2.43.0


From c34757b535f281425c76def574fdb9f52f2f51a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 04/50] fix: write the header by one call, a torn header opened
 as an empty package

---
 wpk.go | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/wpk.go b/wpk.go
index 8195720..1ea7d6d 100644
--- a/wpk.go
+++ b/wpk.go
@@ -224,32 +224,19 @@ func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 // WriteTo writes header to stream as binary data of constant length.
+// Whole header is passed to the stream by single call, so there is no moment
+// when the file has header with signature and sizes of different states.
 func (hdr *Header) WriteTo(w io.Writer) (n int64, err error) {
-	if _, err = w.Write(hdr.signature[:]); err != nil {
-		return
-	}
-	n += SignSize
-	if err = util.WriteU64(w, hdr.fttcount); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.fttoffset); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.fttsize); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.datoffset); err != nil {
-		return
-	}
-	n += 8
-	if err = util.WriteU64(w, hdr.datsize); err != nil {
-		return
-	}
-	n += 8
-	return
+	var buf [HeaderSize]byte
+	copy(buf[:], hdr.signature[:])
+	util.SetU64(buf[SignSize:], hdr.fttcount)
+	util.SetU64(buf[SignSize+8:], hdr.fttoffset)
+	util.SetU64(buf[SignSize+16:], hdr.fttsize)
+	util.SetU64(buf[SignSize+24:], hdr.datoffset)
+	util.SetU64(buf[SignSize+32:], hdr.datsize)
+	var nw int
+	nw, err = w.Write(buf[:])
+	return int64(nw), err
 }
 
 // Special name for `Open` calls to get package content reference.
-- 
2.43.0


From 760a624cbc25a240ed4aee32b763793ff9526e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 05/50] fix: packing and sync go to the end of data, not to
 where a failed call left the stream

---
 writer.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/writer.go b/writer.go
index 25a043f..b1820ba 100644
--- a/writer.go
+++ b/writer.go
@@ -81,11 +81,9 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	var fftpos, fftend, datpos, datend int64
 
 	if wpf != nil && wpf != wpt { // splitted package files
-		// get tags table offset as actual end of file
+		// get end of data, file can have the rest of broken writing after it
 		datpos = 0
-		if datend, err = wpf.Seek(0, io.SeekCurrent); err != nil {
-			return
-		}
+		datend = int64(ftt.datsize)
 		fftpos = HeaderSize
 
 		// write file tags table
@@ -100,9 +98,9 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 			return
 		}
 	} else { // single package file
-		// get tags table offset as actual end of file
+		// get tags table offset as the end of data
 		datpos = HeaderSize
-		if datend, err = wpt.Seek(0, io.SeekCurrent); err != nil {
+		if datend, err = wpt.Seek(int64(ftt.datoffset+ftt.datsize), io.SeekStart); err != nil {
 			return
 		}
 		fftpos = datend
@@ -150,10 +148,12 @@ func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts Tag
 		pkg.mux.Lock()
 		defer pkg.mux.Unlock()
 
-		// get offset and put provided data
-		if offset, err = w.Seek(0, io.SeekCurrent); err != nil {
+		// go to the end of data, some previous call can be broken
+		// with the stream left at any other position
+		if offset, err = w.Seek(int64(pkg.datoffset+pkg.datsize), io.SeekStart); err != nil {
 			return
 		}
+		// put provided data
 		if size, err = io.Copy(w, r); err != nil {
 			return
 		}
-- 
2.43.0


From 3283e774f632db5317d91dd6442a3a93ee7de819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 06/50] fix: appending a tag does not write over the tagset
 that follows in the table

---
 tagset.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tagset.go b/tagset.go
index 015f0ee..5477528 100644
--- a/tagset.go
+++ b/tagset.go
@@ -273,7 +273,9 @@ func (ts TagsetRaw) Put(tid TID, tag TagRaw) TagsetRaw {
 	util.SetU16(buf, tid)
 	util.SetU16(buf[PTStidsz:], uint16(len(tag)))
 	copy(buf[taghdrsz:], tag)
-	ts = append(ts, buf...)
+	// capacity is limited to do not write over the bytes that follows after
+	// this tagset, they can belong to the next tagset or to other copy of this one
+	ts = append(ts[:len(ts):len(ts)], buf...)
 	return ts
 }
 
-- 
2.43.0


From 33ddde662aefe792a43c2384d294a5438c751429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 07/50] fix: package info of a package without files is read
 back

---
 wpk.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wpk.go b/wpk.go
index 1ea7d6d..0299eb1 100644
--- a/wpk.go
+++ b/wpk.go
@@ -514,8 +514,8 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	}
 	// setup empty tags table with reserved map size
 	ftt.Init(&hdr)
-	if hdr.fttcount == 0 || hdr.fttsize == 0 {
-		return
+	if hdr.fttsize == 0 {
+		return // table was not written yet
 	}
 	// go to file tags table start
 	if _, err = r.Seek(int64(hdr.fttoffset), io.SeekStart); err != nil {
@@ -747,6 +747,10 @@ func GetPackageInfo(r io.ReadSeeker) (hdr Header, ts TagsetRaw, err error) {
 		return
 	}
 
+	if hdr.fttsize == 0 {
+		return // table was not written yet
+	}
+
 	// go to file tags table start
 	if _, err = r.Seek(int64(hdr.fttoffset), io.SeekStart); err != nil {
 		return
-- 
2.43.0


From b4194e818b9bd1ac58bee0ffc461ac397cedacdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 08/50] fix: damaged header or tags table is refused, without
 panic and huge allocation

---
 wpk.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/wpk.go b/wpk.go
index 0299eb1..e6841bd 100644
--- a/wpk.go
+++ b/wpk.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"path"
 	"strings"
@@ -128,7 +129,8 @@ const (
 	PTStagsz  = 2 // "tag size" type size.
 	PTStssize = 2 // "tagset size" type size.
 
-	tsmaxlen = 1<<(PTStssize*8) - 1 // tagset maximum length.
+	tsmaxlen = 1<<(PTStssize*8) - 1              // tagset maximum length.
+	tsminlen = PTStssize + 3*(PTStidsz+PTStagsz) // minimum space in the table for one entry.
 )
 
 // Header - package header.
@@ -335,7 +337,7 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 		err = &ErrTag{ErrOutOff, fkey, TIDoffset}
 		return
 	}
-	if uint64(offset+size) > ftt.datoffset+ftt.datsize {
+	if uint64(size) > ftt.datoffset+ftt.datsize-uint64(offset) {
 		err = &ErrTag{ErrOutSize, fkey, TIDsize}
 		return
 	}
@@ -347,9 +349,17 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 // It's high performance method without extra allocations calls.
 func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 	{
+		if int64(len(buf)) < n+PTStssize {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
+		if int64(len(buf)) < n+int64(tsl) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
@@ -365,6 +375,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 	}
 
 	for {
+		if int64(len(buf)) < n+PTStssize {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var tsl = util.GetU16(buf[n : n+PTStssize])
 		n += PTStssize
 
@@ -372,6 +386,10 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			break // end marker was reached
 		}
 
+		if int64(len(buf)) < n+int64(tsl) {
+			err = io.ErrUnexpectedEOF
+			return
+		}
 		var ts = TagsetRaw(buf[n : n+int64(tsl)])
 		n += int64(tsl)
 
@@ -512,6 +530,16 @@ func (ftt *FTT) OpenStream(r io.ReadSeeker) (err error) {
 	if err = hdr.IsReady(); err != nil {
 		return
 	}
+	// check up that tags table is in the file, and can hold this number of entries
+	var end int64
+	if end, err = r.Seek(0, io.SeekEnd); err != nil {
+		return
+	}
+	if hdr.fttoffset > uint64(end) || hdr.fttsize > uint64(end)-hdr.fttoffset ||
+		hdr.fttcount > hdr.fttsize/tsminlen || hdr.datsize > math.MaxInt64 || hdr.datoffset > math.MaxInt64-hdr.datsize {
+		err = ErrSignFTT
+		return
+	}
 	// setup empty tags table with reserved map size
 	ftt.Init(&hdr)
 	if hdr.fttsize == 0 {
-- 
2.43.0


From 249d495d29115973911254485c94df44ffc7349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:02 +0000
Subject: [PATCH 09/50] fix: sync of a split package keeps the previous tags
 table until the header refers to the new one

---
 wpk.go    |  5 ++++-
 writer.go | 49 +++++++++++++++++++++++++------------------------
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/wpk.go b/wpk.go
index e6841bd..b4125da 100644
--- a/wpk.go
+++ b/wpk.go
@@ -251,6 +251,8 @@ type FTT struct {
 
 	datoffset uint64 // files data offset
 	datsize   uint64 // files data total size
+	fttoffset uint64 // placement of tags table to which the header refers
+	fttsize   uint64 // size of this table
 
 	mux sync.Mutex // writer mutex
 }
@@ -259,8 +261,9 @@ type FTT struct {
 func (ftt *FTT) Init(hdr *Header) {
 	ftt.info = nil
 	ftt.tsm.Init(int(hdr.fttcount))
-	// update data offset/pos
+	// update data offset/pos and table placement
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 }
 
 // TagsetNum returns actual number of entries at files tags table.
diff --git a/writer.go b/writer.go
index b1820ba..d6803fe 100644
--- a/writer.go
+++ b/writer.go
@@ -1,6 +1,7 @@
 package wpk
 
 import (
+	"bytes"
 	"io"
 	"io/fs"
 	"os"
@@ -42,8 +43,9 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
-	// update data offset/pos
+	// update data offset/pos and table placement
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	return
 }
 
@@ -78,42 +80,40 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	ftt.mux.Lock()
 	defer ftt.mux.Unlock()
 
+	// make whole tags table at first, files should not be changed on wrong tags
+	var buf bytes.Buffer
+	if _, err = ftt.WriteTo(&buf); err != nil {
+		return
+	}
+
 	var fftpos, fftend, datpos, datend int64
 
 	if wpf != nil && wpf != wpt { // splitted package files
 		// get end of data, file can have the rest of broken writing after it
 		datpos = 0
 		datend = int64(ftt.datsize)
+		// header refers to previous table until it will be rewritten,
+		// so put new table to the place that is not used by previous one
 		fftpos = HeaderSize
-
-		// write file tags table
-		if _, err = wpt.Seek(fftpos, io.SeekStart); err != nil {
-			return
-		}
-		if _, err = ftt.WriteTo(wpt); err != nil {
-			return
-		}
-		// get writer end marker and setup the file tags table size
-		if fftend, err = wpt.Seek(0, io.SeekCurrent); err != nil {
-			return
+		if ftt.fttsize > 0 && uint64(HeaderSize+buf.Len()) > ftt.fttoffset {
+			fftpos = int64(ftt.fttoffset + ftt.fttsize)
 		}
 	} else { // single package file
 		// get tags table offset as the end of data
 		datpos = HeaderSize
-		if datend, err = wpt.Seek(int64(ftt.datoffset+ftt.datsize), io.SeekStart); err != nil {
-			return
-		}
+		datend = int64(ftt.datoffset + ftt.datsize)
 		fftpos = datend
+	}
 
-		// write file tags table
-		if _, err = ftt.WriteTo(wpt); err != nil {
-			return
-		}
-		// get writer end marker and setup the file tags table size
-		if fftend, err = wpt.Seek(0, io.SeekCurrent); err != nil {
-			return
-		}
+	// write file tags table
+	if _, err = wpt.Seek(fftpos, io.SeekStart); err != nil {
+		return
+	}
+	if fftend, err = buf.WriteTo(wpt); err != nil {
+		return
 	}
+	// setup the file tags table end
+	fftend += fftpos
 
 	// rewrite true header
 	var hdr = Header{
@@ -130,8 +130,9 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
-	// update data offset/pos
+	// update data offset/pos and table placement
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
 	return
 }
 
-- 
2.43.0


From 9ad7e0dea8446d577e1baa2b19977d3909fa7eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 10/50] fix: popping from the ordered map takes the write lock

---
 util/seqmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/seqmap.go b/util/seqmap.go
index 4479db5..2fec692 100644
--- a/util/seqmap.go
+++ b/util/seqmap.go
@@ -65,8 +65,8 @@ func (m *SeqMap[K, T]) Poke(key K, val T) {
 }
 
 func (m *SeqMap[K, T]) Pop() (key K, val T, ok bool) {
-	m.mux.RLock()
-	defer m.mux.RUnlock()
+	m.mux.Lock()
+	defer m.mux.Unlock()
 
 	if n := len(m.seq) - 1; n >= 0 {
 		key, val, ok = m.seq[n].key, m.seq[n].val, true
-- 
2.43.0


From 3698fc8cdd978f9d6de74b731cce20bc4fe49d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 11/50] fix: names of package entries are checked and changed
 by one atomic step

---
 util/seqmap.go |  27 ++++++++++++
 wpk.go         |   6 +++
 writer.go      | 114 ++++++++++++++++++++++++++++++-------------------
 3 files changed, 102 insertions(+), 45 deletions(-)

diff --git a/util/seqmap.go b/util/seqmap.go
index 2fec692..5c19c89 100644
--- a/util/seqmap.go
+++ b/util/seqmap.go
@@ -108,6 +108,33 @@ func (m *SeqMap[K, T]) Delete(key K) (ret T, ok bool) {
 	return
 }
 
+// Rekey replaces given old keys by new keys with new values by single step.
+// Replaced pairs are placed to the end of sequence in given order.
+// Old keys should present in the map, and new keys should not.
+func (m *SeqMap[K, T]) Rekey(oldkeys, newkeys []K, vals []T) {
+	m.mux.Lock()
+	defer m.mux.Unlock()
+
+	for _, key := range oldkeys {
+		delete(m.idx, key)
+	}
+	var seq = make([]kvpair[K, T], 0, len(m.seq))
+	for _, pair := range m.seq {
+		if _, ok := m.idx[pair.key]; ok {
+			m.idx[pair.key] = len(seq)
+			seq = append(seq, pair)
+		}
+	}
+	for i, key := range newkeys {
+		m.idx[key] = len(seq)
+		seq = append(seq, kvpair[K, T]{
+			key: key,
+			val: vals[i],
+		})
+	}
+	m.seq = seq
+}
+
 func (m *SeqMap[K, T]) Range(f func(K, T) bool) {
 	m.mux.Lock()
 	var s = make([]kvpair[K, T], len(m.seq))
diff --git a/wpk.go b/wpk.go
index b4125da..cebe826 100644
--- a/wpk.go
+++ b/wpk.go
@@ -645,16 +645,22 @@ func (pkg *Package) GetTagset(fkey string) (TagsetRaw, bool) {
 
 // SetTagset puts tagset with given filename key.
 func (pkg *Package) SetTagset(fkey string, ts TagsetRaw) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
 	pkg.tsm.Poke(pkg.FullPath(util.ToSlash(fkey)), ts)
 }
 
 // SetupTagset puts tagset with filename key stored at tagset.
 func (pkg *Package) SetupTagset(ts TagsetRaw) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
 	pkg.tsm.Poke(ts.Path(), ts)
 }
 
 // GetDelTagset deletes the tagset for a key, returning the previous tagset if any.
 func (pkg *Package) DelTagset(fkey string) (TagsetRaw, bool) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
 	return pkg.tsm.Delete(pkg.FullPath(util.ToSlash(fkey)))
 }
 
diff --git a/writer.go b/writer.go
index d6803fe..e707ea5 100644
--- a/writer.go
+++ b/writer.go
@@ -136,67 +136,72 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 	return
 }
 
-// PackData puts data streamed by given reader into package as a file
-// and associate keyname "fkey" with it.
-func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts TagsetRaw, err error) {
+// packData puts data streamed by given reader into package as a file, and inserts
+// new entry associated with keyname "fkey" to tags table with tags added by given closure.
+// Other changes of the package are waiting until whole job will be done.
+func (pkg *Package) packData(w io.WriteSeeker, r io.Reader, fkey string, addtags func(TagsetRaw) TagsetRaw) (ts TagsetRaw, err error) {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	if _, ok := pkg.GetTagset(fkey); ok {
 		err = &fs.PathError{Op: "packdata", Path: fkey, Err: fs.ErrExist}
 		return
 	}
 
 	var offset, size int64
-	if func() {
-		pkg.mux.Lock()
-		defer pkg.mux.Unlock()
-
-		// go to the end of data, some previous call can be broken
-		// with the stream left at any other position
-		if offset, err = w.Seek(int64(pkg.datoffset+pkg.datsize), io.SeekStart); err != nil {
-			return
-		}
-		// put provided data
-		if size, err = io.Copy(w, r); err != nil {
-			return
-		}
-		// update actual package data size
-		pkg.datsize += uint64(size)
-	}(); err != nil {
+	// go to the end of data, some previous call can be broken
+	// with the stream left at any other position
+	if offset, err = w.Seek(int64(pkg.datoffset+pkg.datsize), io.SeekStart); err != nil {
+		return
+	}
+	// put provided data
+	if size, err = io.Copy(w, r); err != nil {
 		return
 	}
+	// update actual package data size
+	pkg.datsize += uint64(size)
 
 	// insert new entry to tags table
 	ts = pkg.BaseTagset(uint(offset), uint(size), fkey)
-	pkg.SetTagset(fkey, ts)
+	if addtags != nil {
+		ts = addtags(ts)
+	}
+	pkg.tsm.Poke(pkg.FullPath(util.ToSlash(fkey)), ts)
 	return
 }
 
+// PackData puts data streamed by given reader into package as a file
+// and associate keyname "fkey" with it.
+func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts TagsetRaw, err error) {
+	return pkg.packData(w, r, fkey, nil)
+}
+
 // PackFile puts file with given file handle into package and associate keyname "fkey" with it.
 func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts TagsetRaw, err error) {
 	var fi os.FileInfo
 	if fi, err = file.Stat(); err != nil {
 		return
 	}
-	if ts, err = pkg.PackData(w, file, fkey); err != nil {
-		return
-	}
-
-	//ts = ts.Put(TIDmtime, TimeTag(fi.ModTime()))
-	var tsp = times.Get(fi)
-	ts = ts.Put(TIDmtime, TimeTag(tsp.ModTime()))
-	ts = ts.Put(TIDatime, TimeTag(tsp.AccessTime()))
-	if tsp.HasChangeTime() {
-		ts = ts.Put(TIDctime, TimeTag(tsp.ChangeTime()))
-	}
-	if tsp.HasBirthTime() {
-		ts = ts.Put(TIDbtime, TimeTag(tsp.BirthTime()))
-	}
-	pkg.SetTagset(fkey, ts)
-	return
+	return pkg.packData(w, file, fkey, func(ts TagsetRaw) TagsetRaw {
+		var tsp = times.Get(fi)
+		ts = ts.Put(TIDmtime, TimeTag(tsp.ModTime()))
+		ts = ts.Put(TIDatime, TimeTag(tsp.AccessTime()))
+		if tsp.HasChangeTime() {
+			ts = ts.Put(TIDctime, TimeTag(tsp.ChangeTime()))
+		}
+		if tsp.HasBirthTime() {
+			ts = ts.Put(TIDbtime, TimeTag(tsp.BirthTime()))
+		}
+		return ts
+	})
 }
 
 // Rename tagset with file name 'fkey1' to 'fkey2'.
 // Keeps link to original file name.
 func (pkg *Package) Rename(fkey1, fkey2 string) error {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	var ts, ok = pkg.GetTagset(fkey1)
 	if !ok {
 		return &fs.PathError{Op: "rename", Path: fkey1, Err: fs.ErrNotExist}
@@ -205,9 +210,10 @@ func (pkg *Package) Rename(fkey1, fkey2 string) error {
 		return &fs.PathError{Op: "rename", Path: fkey2, Err: fs.ErrExist}
 	}
 
-	ts = CopyTagset(ts).Set(TIDpath, StrTag(pkg.FullPath(util.ToSlash(fkey2))))
-	pkg.DelTagset(fkey1)
-	pkg.SetTagset(fkey2, ts)
+	var path1 = pkg.FullPath(util.ToSlash(fkey1))
+	var path2 = pkg.FullPath(util.ToSlash(fkey2))
+	ts = CopyTagset(ts).Set(TIDpath, StrTag(path2))
+	pkg.tsm.Rekey([]string{path1}, []string{path2}, []TagsetRaw{ts})
 	return nil
 }
 
@@ -219,20 +225,35 @@ func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int,
 	if len(newdir) > 0 && newdir[len(newdir)-1] != '/' {
 		newdir += "/"
 	}
+
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
+	// names that are changed during this call
+	var left, came = map[string]Void{}, map[string]Void{}
+	var oldkeys, newkeys []string
+	var vals []TagsetRaw
 	pkg.Enum(func(fkey string, ts TagsetRaw) bool {
 		if strings.HasPrefix(fkey, olddir) {
 			var newkey = newdir + fkey[len(olddir):]
-			if _, ok := pkg.GetTagset(newkey); ok {
+			var path1 = pkg.FullPath(fkey)
+			var path2 = pkg.FullPath(util.ToSlash(newkey))
+			var _, isleft = left[path2]
+			var _, iscame = came[path2]
+			if iscame || !isleft && pkg.tsm.Has(path2) {
 				err = &fs.PathError{Op: "renamedir", Path: newkey, Err: fs.ErrExist}
 				return skipexist
 			}
-			ts = CopyTagset(ts).Set(TIDpath, StrTag(pkg.FullPath(util.ToSlash(newkey))))
-			pkg.DelTagset(fkey)
-			pkg.SetTagset(newkey, ts)
+			ts = CopyTagset(ts).Set(TIDpath, StrTag(path2))
+			left[path1], came[path2] = Void{}, Void{}
+			oldkeys, newkeys, vals = append(oldkeys, path1), append(newkeys, path2), append(vals, ts)
 			count++
 		}
 		return true
 	})
+	if count > 0 {
+		pkg.tsm.Rekey(oldkeys, newkeys, vals)
+	}
 	if skipexist {
 		err = nil
 	}
@@ -242,6 +263,9 @@ func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int,
 // PutAlias makes clone tagset with file name 'fkey1' and replace name tag
 // in it to 'fkey2'. Keeps link to original file name.
 func (pkg *Package) PutAlias(fkey1, fkey2 string) error {
+	pkg.mux.Lock()
+	defer pkg.mux.Unlock()
+
 	var ts, ok = pkg.GetTagset(fkey1)
 	if !ok {
 		return &fs.PathError{Op: "putalias", Path: fkey1, Err: fs.ErrNotExist}
@@ -250,8 +274,8 @@ func (pkg *Package) PutAlias(fkey1, fkey2 string) error {
 		return &fs.PathError{Op: "putalias", Path: fkey2, Err: fs.ErrExist}
 	}
 
-	ts = CopyTagset(ts).Set(TIDpath, StrTag(pkg.FullPath(util.ToSlash(fkey2))))
-	pkg.SetTagset(fkey2, ts)
+	var path2 = pkg.FullPath(util.ToSlash(fkey2))
+	pkg.tsm.Poke(path2, CopyTagset(ts).Set(TIDpath, StrTag(path2)))
 	return nil
 }
 
-- 
2.43.0


From 1557a6b455928574c851b256449ea9e33f2cf670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:57 +0000
Subject: [PATCH 12/50] fix: every access method opens empty files and refuses
 files outside of the package data

---
 bulk/bulk.go |  4 ++++
 fsys/fsys.go | 10 ++++++++++
 mmap/mmap.go | 20 ++++++++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/bulk/bulk.go b/bulk/bulk.go
index 2a5592e..18de84b 100644
--- a/bulk/bulk.go
+++ b/bulk/bulk.go
@@ -18,6 +18,10 @@ type SliceFile struct {
 // NewSliceFile creates SliceFile file structure based on given tags slice.
 func NewSliceFile(bulk []byte, ts wpk.TagsetRaw) (f *SliceFile, err error) {
 	var offset, size = ts.Pos()
+	if flen := uint(len(bulk)); offset > flen || size > flen-offset {
+		err = &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+		return
+	}
 	f = &SliceFile{
 		PkgReader: bytes.NewReader(bulk[offset : offset+size]),
 		tags:      ts,
diff --git a/fsys/fsys.go b/fsys/fsys.go
index bb0ad31..6fea658 100644
--- a/fsys/fsys.go
+++ b/fsys/fsys.go
@@ -28,6 +28,16 @@ func NewChunkFile(fpath string, ts wpk.TagsetRaw) (f *ChunkFile, err error) {
 		return
 	}
 	var offset, size = ts.Pos()
+	var fi fs.FileInfo
+	if fi, err = wpkf.Stat(); err != nil {
+		wpkf.Close()
+		return
+	}
+	if flen := uint(fi.Size()); offset > flen || size > flen-offset {
+		wpkf.Close()
+		err = &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+		return
+	}
 	f = &ChunkFile{
 		PkgReader: io.NewSectionReader(wpkf, int64(offset), int64(size)),
 		wpkf:      wpkf,
diff --git a/mmap/mmap.go b/mmap/mmap.go
index fdc5626..63e4a3a 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -27,6 +27,23 @@ type MappedFile struct {
 func NewMappedFile(fwpk *os.File, ts wpk.TagsetRaw) (f *MappedFile, err error) {
 	// calculate paged size/offset
 	var offset, size = ts.Pos()
+	// memory behind of the file end can not be read
+	var fi fs.FileInfo
+	if fi, err = fwpk.Stat(); err != nil {
+		return
+	}
+	if flen := uint(fi.Size()); offset > flen || size > flen-offset {
+		err = &wpk.ErrTag{What: wpk.ErrOutSize, Key: ts.Path(), TID: wpk.TIDsize}
+		return
+	}
+	// there is nothing to map for empty file
+	if size == 0 {
+		f = &MappedFile{
+			PkgReader: bytes.NewReader(nil),
+			tags:      ts,
+		}
+		return
+	}
 	var pgoff = offset % pagesize
 	var offsetx = offset - pgoff
 	var sizex = size + pgoff
@@ -51,6 +68,9 @@ func (f *MappedFile) Stat() (fs.FileInfo, error) {
 
 // Close unmaps memory and closes mapped memory handle.
 func (f *MappedFile) Close() error {
+	if f.MMap == nil {
+		return nil // empty file has no mapped block
+	}
 	return f.Unmap()
 }
 
-- 
2.43.0


From 3ebee891b4d79387992fb4cca79c725cae4883ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 13/50] fix: directory listing is sorted by filename and has a
 file and a directory with the same name

---
 dir.go | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/dir.go b/dir.go
index bb0c918..50e8aa5 100644
--- a/dir.go
+++ b/dir.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"sort"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk/util"
@@ -81,48 +82,59 @@ func TempPath(fname string) string {
 	return util.JoinPath(util.ToSlash(os.TempDir()), fname)
 }
 
-// ReadDirN returns fs.DirEntry array with nested into given package directory presentation.
-// It's core function for ReadDirFile and ReadDirFS structures.
+// sortDirEntries brings entries to the order by filename.
+// Package can have a file and a directory with the same name, file is placed first.
+func sortDirEntries(list []fs.DirEntry) {
+	sort.Slice(list, func(i, j int) bool {
+		var ni, nj = list[i].Name(), list[j].Name()
+		if ni != nj {
+			return ni < nj
+		}
+		return !list[i].IsDir() && list[j].IsDir()
+	})
+}
+
+// ReadDirN returns fs.DirEntry array with nested into given package directory presentation
+// sorted by filename. It's core function for ReadDirFile and ReadDirFS structures.
 func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error) {
 	fulldir = util.ToSlash(fulldir)
-	var found = map[string]fs.DirEntry{}
+	var dirs = map[string]Void{}
 	var prefix string
 	if fulldir != "." && fulldir != "" {
 		prefix = fulldir + "/" // set terminated slash
 	}
 
+	list = []fs.DirEntry{}
 	ftt.tsm.Range(func(fkey string, ts TagsetRaw) bool {
 		if strings.HasPrefix(fkey, prefix) {
 			var suffix = fkey[len(prefix):]
 			var sp = strings.IndexByte(suffix, '/')
 			if sp < 0 { // file detected
-				found[suffix] = ts
-				n--
+				list = append(list, ts)
 			} else { // dir detected
 				var subdir = util.JoinPath(prefix, suffix[:sp])
-				if _, ok := found[subdir]; !ok {
+				if _, ok := dirs[subdir]; !ok {
 					var dts = TagsetRaw{}.
 						Put(TIDpath, StrTag(subdir))
 					var f = &PackDirFile{
 						TagsetRaw: dts,
 						ftt:       ftt,
 					}
-					found[subdir] = f
-					n--
+					list = append(list, f)
+					dirs[subdir] = Void{}
 				}
 			}
 		}
-		return n != 0
+		return true
 	})
 
-	list = make([]fs.DirEntry, len(found))
-	var i int
-	for _, de := range found {
-		list[i] = de
-		i++
-	}
+	sortDirEntries(list)
 	if n > 0 {
-		err = io.EOF
+		if len(list) < n {
+			err = io.EOF
+		} else {
+			list = list[:n]
+		}
 	}
 	return
 }
-- 
2.43.0


From 7b131fe8ca6de65f4d3c110f9ce8316212622a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:34 +0000
Subject: [PATCH 14/50] fix: ReadDir of directory handle goes forward, and
 works if packages of union have different workspaces

---
 dir.go   | 22 +++++++++++++++++++++-
 union.go | 16 ++++++++++------
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/dir.go b/dir.go
index 50e8aa5..1c60ba8 100644
--- a/dir.go
+++ b/dir.go
@@ -31,6 +31,8 @@ func MakeDataPath(fpath string) string {
 type PackDirFile struct {
 	TagsetRaw // has fs.FileInfo interface
 	ftt       *FTT
+	rest      []fs.DirEntry // entries that are not read yet
+	isread    bool          // list of entries is obtained
 }
 
 // fs.ReadDirFile interface implementation.
@@ -50,7 +52,25 @@ func (f *PackDirFile) Close() error {
 
 // fs.ReadDirFile interface implementation.
 func (f *PackDirFile) ReadDir(n int) (matches []fs.DirEntry, err error) {
-	return f.ftt.ReadDirN(f.Path(), n)
+	if !f.isread {
+		if f.rest, err = f.ftt.ReadDirN(f.Path(), -1); err != nil {
+			return
+		}
+		f.isread = true
+	}
+	return nextDirEntries(&f.rest, n)
+}
+
+// nextDirEntries cuts next n entries off the list, or all if n <= 0.
+func nextDirEntries(rest *[]fs.DirEntry, n int) (list []fs.DirEntry, err error) {
+	if n <= 0 || n > len(*rest) {
+		if n > 0 && len(*rest) == 0 {
+			err = io.EOF
+		}
+		n = len(*rest)
+	}
+	list, *rest = (*rest)[:n:n], (*rest)[n:]
+	return
 }
 
 // DirExists check up directory existence.
diff --git a/union.go b/union.go
index 0c2852c..950eff3 100644
--- a/union.go
+++ b/union.go
@@ -18,6 +18,9 @@ type Void = struct{}
 type UnionDir struct {
 	TagsetRaw
 	*Union
+	dir    string        // directory path inside of union
+	rest   []fs.DirEntry // entries that are not read yet
+	isread bool          // list of entries is obtained
 }
 
 // fs.ReadDirFile interface implementation.
@@ -36,14 +39,14 @@ func (f *UnionDir) Close() error {
 }
 
 // fs.ReadDirFile interface implementation.
-func (f *UnionDir) ReadDir(n int) ([]fs.DirEntry, error) {
-	var dir = f.Path()
-	if len(f.List) > 0 {
-		if dir = f.List[0].TrimPath(dir); dir == "" {
-			return nil, ErrOtherSubdir
+func (f *UnionDir) ReadDir(n int) (list []fs.DirEntry, err error) {
+	if !f.isread {
+		if f.rest, err = f.ReadDirN(f.dir, -1); err != nil {
+			return
 		}
+		f.isread = true
 	}
-	return f.ReadDirN(dir, n)
+	return nextDirEntries(&f.rest, n)
 }
 
 // Union glues list of packages into single filesystem.
@@ -257,6 +260,7 @@ func (u *Union) Open(dir string) (fs.File, error) {
 				f = &UnionDir{
 					TagsetRaw: dts,
 					Union:     u,
+					dir:       dir,
 				}
 				return false
 			}
-- 
2.43.0


From fdcfcc341e155aff35c5b93bbb4745d643441378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 15/50] fix: union directory has each name once, from the first
 package that has it, sorted by filename

---
 union.go | 49 ++++++++++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/union.go b/union.go
index 950eff3..979a591 100644
--- a/union.go
+++ b/union.go
@@ -158,14 +158,15 @@ func (u *Union) ReadFile(fpath string) ([]byte, error) {
 
 // ReadDir reads the named directory
 // and returns a list of directory entries sorted by filename.
+// If union have more than one file with the same name, first entry will be included to result.
 func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 	dir = util.ToSlash(dir)
-	var found = map[string]fs.DirEntry{}
-	var ni = n
+	var found = map[string]Void{} // names of directories have terminated slash
+	list = []fs.DirEntry{}
 	for _, pkg := range u.List {
 		var fulldir = pkg.FullPath(dir)
 		var prefix string
-		if fulldir != "." {
+		if fulldir != "." && fulldir != "" {
 			prefix = fulldir + "/" // set terminated slash
 		}
 
@@ -174,38 +175,36 @@ func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 				var suffix = fkey[len(prefix):]
 				var sp = strings.IndexByte(suffix, '/')
 				if sp < 0 { // file detected
-					found[suffix] = ts
-					ni--
+					if _, ok := found[suffix]; !ok {
+						list = append(list, ts)
+						found[suffix] = Void{}
+					}
 				} else { // dir detected
-					var subdir = util.JoinPath(prefix, suffix[:sp])
-					if _, ok := found[subdir]; !ok {
+					var name = suffix[:sp+1]
+					if _, ok := found[name]; !ok {
 						var dts = TagsetRaw{}.
-							Put(TIDpath, StrTag(subdir))
-						var f = &PackDirFile{
+							Put(TIDpath, StrTag(util.JoinPath(prefix, suffix[:sp])))
+						var f = &UnionDir{
 							TagsetRaw: dts,
-							ftt:       pkg.FTT,
+							Union:     u,
+							dir:       util.JoinPath(dir, suffix[:sp]),
 						}
-						found[subdir] = f
-						ni--
+						list = append(list, f)
+						found[name] = Void{}
 					}
 				}
 			}
-			return ni != 0
+			return true
 		})
-
-		if ni == 0 {
-			break
-		}
 	}
 
-	list = make([]fs.DirEntry, len(found))
-	var i int
-	for _, de := range found {
-		list[i] = de
-		i++
-	}
-	if ni > 0 {
-		err = io.EOF
+	sortDirEntries(list)
+	if n > 0 {
+		if len(list) < n {
+			err = io.EOF
+		} else {
+			list = list[:n]
+		}
 	}
 	return
 }
-- 
2.43.0


From 38091a05a3bb9ef164e228a69586f5a156949e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 16/50] fix: Stat describes directories, walk through the
 package fails without it

---
 union.go | 61 ++++++++++++++++++++++++++++++++------------------------
 wpk.go   |  5 ++++-
 2 files changed, 39 insertions(+), 27 deletions(-)

diff --git a/union.go b/union.go
index 979a591..e171003 100644
--- a/union.go
+++ b/union.go
@@ -97,7 +97,7 @@ func (u *Union) Sub(dir string) (fs.FS, error) {
 	return &u1, nil
 }
 
-// Stat returns a fs.FileInfo describing the file.
+// Stat returns a fs.FileInfo describing the file or directory.
 // If union have more than one file with the same name, info of the first will be returned.
 // fs.StatFS implementation.
 func (u *Union) Stat(fpath string) (fs.FileInfo, error) {
@@ -108,6 +108,9 @@ func (u *Union) Stat(fpath string) (fs.FileInfo, error) {
 			return ts, nil
 		}
 	}
+	if f, err := u.openDir(util.ToSlash(fpath)); err == nil {
+		return f.Stat()
+	}
 	return nil, &fs.PathError{Op: "stat", Path: fpath, Err: fs.ErrNotExist}
 }
 
@@ -216,6 +219,36 @@ func (u *Union) ReadDir(dir string) ([]fs.DirEntry, error) {
 	return u.ReadDirN(dir, -1)
 }
 
+// openDir returns UnionDir structure associated with group of files in all packages
+// pooled with common directory prefix.
+func (u *Union) openDir(dir string) (fs.ReadDirFile, error) {
+	var prefix string
+	if dir != "." && dir != "" {
+		prefix = dir + "/" // set terminated slash
+	}
+	for _, pkg := range u.List {
+		var f *UnionDir
+		pkg.Enum(func(fkey string, ts TagsetRaw) bool {
+			if strings.HasPrefix(fkey, prefix) {
+				var dts = TagsetRaw{}.
+					Put(TIDpath, StrTag(pkg.FullPath(dir)))
+				f = &UnionDir{
+					TagsetRaw: dts,
+					Union:     u,
+					dir:       dir,
+				}
+				return false
+			}
+			return true
+		})
+		if f != nil {
+			return f, nil
+		}
+	}
+	// on case if not found
+	return nil, &fs.PathError{Op: "open", Path: dir, Err: fs.ErrNotExist}
+}
+
 // Open implements access to nested into union of packages file or directory by keyname.
 // If union have more than one file with the same name, first will be returned.
 // fs.FS implementation.
@@ -246,31 +279,7 @@ func (u *Union) Open(dir string) (fs.File, error) {
 	}
 
 	// try to get the folder
-	var prefix string
-	if dir != "." && dir != "" {
-		prefix = dir + "/" // set terminated slash
-	}
-	for _, pkg := range u.List {
-		var f *UnionDir
-		pkg.Enum(func(fkey string, ts TagsetRaw) bool {
-			if strings.HasPrefix(fkey, prefix) {
-				var dts = TagsetRaw{}.
-					Put(TIDpath, StrTag(pkg.FullPath(dir)))
-				f = &UnionDir{
-					TagsetRaw: dts,
-					Union:     u,
-					dir:       dir,
-				}
-				return false
-			}
-			return true
-		})
-		if f != nil {
-			return f, nil
-		}
-	}
-	// on case if not found
-	return nil, &fs.PathError{Op: "open", Path: dir, Err: fs.ErrNotExist}
+	return u.openDir(dir)
 }
 
 // The End.
diff --git a/wpk.go b/wpk.go
index cebe826..b661b79 100644
--- a/wpk.go
+++ b/wpk.go
@@ -699,12 +699,15 @@ func (pkg *Package) Sub(dir string) (sub fs.FS, err error) {
 	return
 }
 
-// Stat returns a fs.FileInfo describing the file.
+// Stat returns a fs.FileInfo describing the file or directory.
 // fs.StatFS interface implementation.
 func (pkg *Package) Stat(fkey string) (fs.FileInfo, error) {
 	if ts, is := pkg.GetTagset(fkey); is {
 		return ts, nil
 	}
+	if f, err := pkg.OpenDir(pkg.FullPath(fkey)); err == nil {
+		return f.Stat()
+	}
 	return nil, &fs.PathError{Op: "stat", Path: fkey, Err: fs.ErrNotExist}
 }
 
-- 
2.43.0


From 06075d020cef91efdbd4a12868bcb95f8cca91f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:16 +0000
Subject: [PATCH 17/50] fix: table entry with doubled offset, size or path tag
 is refused

---
 wpk.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wpk.go b/wpk.go
index b661b79..6fd57f5 100644
--- a/wpk.go
+++ b/wpk.go
@@ -301,8 +301,16 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 	var ispath, isoffset, issize bool
 
 	// find expected tags
+	var has [TIDpath + 1]bool
 	var tsi = ts.Iterator()
 	for tsi.Next() {
+		if tsi.tid >= TIDoffset && tsi.tid <= TIDpath {
+			if has[tsi.tid] { // prevent ambiguous placement or name of the file
+				err = &ErrTag{fs.ErrExist, fkey, tsi.tid}
+				return
+			}
+			has[tsi.tid] = true
+		}
 		switch tsi.tid {
 		case TIDoffset:
 			offset, isoffset = TagRaw(tsi.TagsetRaw[tsi.tag:tsi.pos]).TagUint()
-- 
2.43.0


From a2e61e9b674bc2f447844255026f3b8e148e1f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 18/50] fix: root of subdirectory is the directory, also if a
 file has the same name

---
 wpk.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wpk.go b/wpk.go
index 6fd57f5..1b87724 100644
--- a/wpk.go
+++ b/wpk.go
@@ -643,12 +643,17 @@ func (pkg *Package) BaseTagset(offset, size uint, fkey string) TagsetRaw {
 
 // HasTagset check up that tagset with given filename key is present.
 func (pkg *Package) HasTagset(fkey string) bool {
-	return pkg.tsm.Has(pkg.FullPath(util.ToSlash(fkey)))
+	var _, is = pkg.GetTagset(fkey)
+	return is
 }
 
 // GetTagset returns tagset with given filename key, if it found.
 func (pkg *Package) GetTagset(fkey string) (TagsetRaw, bool) {
-	return pkg.tsm.Peek(pkg.FullPath(util.ToSlash(fkey)))
+	var fullname = pkg.FullPath(util.ToSlash(fkey))
+	if fullname == pkg.Workspace && fullname != "." && fullname != "" {
+		return nil, false // it is root of the subdirectory, not a file with the same name
+	}
+	return pkg.tsm.Peek(fullname)
 }
 
 // SetTagset puts tagset with given filename key.
-- 
2.43.0


From 2f7676172789bfba7251ea4075599a2a1e375fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 19/50] fix: union inside of a directory named @pack opens its
 files

---
 union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/union.go b/union.go
index e171003..b54e22b 100644
--- a/union.go
+++ b/union.go
@@ -259,7 +259,7 @@ func (u *Union) Open(dir string) (fs.File, error) {
 	}
 
 	if len(u.List) > 0 {
-		if fulldir := u.List[0].FullPath(dir); strings.HasPrefix(fulldir, PackName+"/") {
+		if fulldir := u.List[0].FullPath(dir); fulldir == dir && strings.HasPrefix(dir, PackName+"/") {
 			var idx, err = strconv.ParseUint(dir[len(PackName)+1:], 10, 32)
 			if err != nil {
 				return nil, &fs.PathError{Op: "open", Path: dir, Err: err}
-- 
2.43.0


From 2cdc8d0e42be2d5c4ac49e73c59bac50b2f7ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:40 +0000
Subject: [PATCH 20/50] fix: wrong tag values in script tables raise an error,
 deltags ignores values

---
 luawpk/luawpk.go  |  9 ++++-----
 luawpk/nametid.go | 22 ++++++++++++++++++++--
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 7ed474b..4bb46c9 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -1152,8 +1152,8 @@ func wpkdeltags(ls *lua.LState) int {
 	var fkey = ls.CheckString(2)
 	var lt = ls.CheckTable(3)
 
-	var opts wpk.TagsetRaw
-	if opts, err = TableToTagset(lt, opts); err != nil {
+	var tids []wpk.TID
+	if tids, err = TableToTIDs(lt); err != nil {
 		return 0
 	}
 
@@ -1164,10 +1164,9 @@ func wpkdeltags(ls *lua.LState) int {
 	}
 
 	ts = wpk.CopyTagset(ts)
-	var optsi = opts.Iterator()
 	var n = 0
-	for optsi.Next() {
-		if ts, ok = ts.DelOk(optsi.TID()); ok {
+	for _, tid := range tids {
+		if ts, ok = ts.DelOk(tid); ok {
 			n++
 		}
 	}
diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 07a38b0..2943d98 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -301,7 +301,6 @@ func TagToValue(tid wpk.TID, tag wpk.TagRaw) (v lua.LValue, err error) {
 // or string names associated ID values. Lua-table values can be strings, numbers,
 // or boolean values.
 func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
-	var err error
 	var errs []error
 	lt.ForEach(func(k lua.LValue, v lua.LValue) {
 		var (
@@ -317,7 +316,7 @@ func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 			errk = &ErrProtected{tid}
 			errs = append(errs, errk)
 		}
-		if tag, errv = ValueToTag(tid, v); err != nil {
+		if tag, errv = ValueToTag(tid, v); errv != nil {
 			errs = append(errs, errv)
 		}
 
@@ -328,4 +327,23 @@ func TableToTagset(lt *lua.LTable, ts wpk.TagsetRaw) (wpk.TagsetRaw, error) {
 	return ts, errors.Join(errs...)
 }
 
+// TableToTIDs converts keys of Lua-table to list of tag identifiers
+// that can be changed. Values of Lua-table are ignored.
+func TableToTIDs(lt *lua.LTable) ([]wpk.TID, error) {
+	var tids []wpk.TID
+	var errs []error
+	lt.ForEach(func(k lua.LValue, _ lua.LValue) {
+		var tid, err = ValueToTID(k)
+		if err == nil && (tid == wpk.TIDoffset || tid == wpk.TIDsize || tid == wpk.TIDpath) {
+			err = &ErrProtected{tid}
+		}
+		if err != nil {
+			errs = append(errs, err)
+			return
+		}
+		tids = append(tids, tid)
+	})
+	return tids, errors.Join(errs...)
+}
+
 // The End.
-- 
2.43.0


From 89e2796c18826e61ea6520094859cae8e965ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 21/50] fix: script tags out of range raise an error instead of
 being truncated

---
 luawpk/nametid.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 2943d98..a22372d 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -127,8 +128,8 @@ func (e *ErrProtected) Error() string {
 
 // Tags identifiers conversion errors.
 var (
-	ErrBadTagKey = errors.New("tag key type is not number or string")
-	ErrBadTagVal = errors.New("tag value type is not string or boolean or 'tag' userdata")
+	ErrBadTagKey = errors.New("tag key is not string or integer number in range 1-65535")
+	ErrBadTagVal = errors.New("tag value is not string or boolean or 'tag' userdata, or number is out of range")
 )
 
 // ValueToTID converts LValue to uint16 tag identifier.
@@ -136,6 +137,10 @@ var (
 // values which they presents. Error returns on any other case.
 func ValueToTID(k lua.LValue) (tid wpk.TID, err error) {
 	if n, ok := k.(lua.LNumber); ok {
+		if n < 1 || n > math.MaxUint16 || n != lua.LNumber(wpk.TID(n)) {
+			err = ErrBadTagKey
+			return
+		}
 		tid = wpk.TID(n)
 	} else if name, ok := k.(lua.LString); ok {
 		if n, ok := NameTid[string(name)]; ok {
@@ -151,13 +156,18 @@ func ValueToTID(k lua.LValue) (tid wpk.TID, err error) {
 	return
 }
 
+// isuint returns true if given number can be stored as unsigned integer without loss.
+func isuint(n lua.LNumber) bool {
+	return n >= 0 && n < 1<<64 && n == lua.LNumber(math.Trunc(float64(n)))
+}
+
 // ValueToTag converts LValue to TagRaw. Strings converts explicitly to byte sequence,
 // boolen converts to 1 byte slice with 1 for 'true' and 0 for 'false'.
 // Otherwise if it is not 'tag' uservalue with TagRaw, returns error.
 func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 	switch TidType[tid] {
 	case TTbin:
-		if val, ok := v.(lua.LNumber); ok {
+		if val, ok := v.(lua.LNumber); ok && isuint(val) {
 			tag = wpk.UintTag(uint(val))
 		} else if val, ok := v.(lua.LString); ok {
 			tag, err = hex.DecodeString(string(val))
@@ -187,11 +197,11 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 			err = ErrBadTagVal
 		}
 	case TTuint:
-		if val, ok := v.(lua.LNumber); ok {
+		if val, ok := v.(lua.LNumber); ok && isuint(val) {
 			tag = wpk.UintTag(uint(val))
 		} else if val, ok := v.(lua.LString); ok {
-			var i int
-			if i, err = strconv.Atoi(string(val)); err != nil {
+			var i uint64
+			if i, err = strconv.ParseUint(string(val), 10, 64); err != nil {
 				return
 			}
 			tag = wpk.UintTag(uint(i))
-- 
2.43.0


From fbf2a144d13c2d097903ac2e90f2086394b0321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:45 +0000
Subject: [PATCH 22/50] fix: script steps with wrong or too long tags leave the
 package as it was

---
 luawpk/luawpk.go  | 79 ++++++++++++++++++++++++++++++++++++-----------
 luawpk/nametid.go |  5 +++
 2 files changed, 66 insertions(+), 18 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 4bb46c9..41d247c 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io/fs"
+	"math"
 	"os"
 	"path"
 	"strings"
@@ -224,6 +225,15 @@ var methodsPack = map[string]lua.LGFunction{
 	"setupinfo": wpksetupinfo,
 }
 
+// setuptagset puts given tagset to the table if it can be stored in package.
+func (pkg *LuaPackage) setuptagset(ts wpk.TagsetRaw) error {
+	if len(ts) > math.MaxUint16 {
+		return wpk.ErrRangeTSSize
+	}
+	pkg.SetupTagset(ts)
+	return nil
+}
+
 // properties section
 
 func getlabel(ls *lua.LState) int {
@@ -241,8 +251,13 @@ func setlabel(ls *lua.LState) int {
 	var pkg = CheckPack(ls, 1)
 	var label = ls.CheckString(2)
 
-	pkg.SetInfo(wpk.CopyTagset(pkg.GetInfo()).
-		Set(wpk.TIDlabel, wpk.StrTag(label)))
+	var ts = wpk.CopyTagset(pkg.GetInfo()).
+		Set(wpk.TIDlabel, wpk.StrTag(label))
+	if len(label) > math.MaxUint16 || len(ts) > math.MaxUint16 {
+		ls.RaiseError(wpk.ErrRangeTSSize.Error())
+		return 0
+	}
+	pkg.SetInfo(ts)
 	return 0
 }
 
@@ -700,6 +715,12 @@ func wpkputdata(ls *lua.LState) int {
 		return 0
 	}
 
+	// nothing should be packed on wrong tags
+	var opts wpk.TagsetRaw
+	if opts, err = TableToTagset(tags, opts); err != nil {
+		return 0
+	}
+
 	var r = strings.NewReader(data)
 
 	var w = pkg.wpt
@@ -711,16 +732,18 @@ func wpkputdata(ls *lua.LState) int {
 		return 0
 	}
 
-	if ts, err = pkg.adjusttagset(r, ts); err != nil {
-		return 0
+	if ts, err = pkg.adjusttagset(r, ts); err == nil {
+		var optsi = opts.Iterator()
+		for optsi.Next() {
+			ts = ts.Set(optsi.TID(), optsi.Tag())
+		}
+		err = pkg.setuptagset(ts)
 	}
-
-	if ts, err = TableToTagset(tags, ts); err != nil {
+	if err != nil {
+		pkg.DelTagset(fkey) // file should not be present with incomplete tags
 		return 0
 	}
 
-	pkg.SetupTagset(ts)
-
 	return 0
 }
 
@@ -741,6 +764,12 @@ func wpkputfile(ls *lua.LState) int {
 		return 0
 	}
 
+	// nothing should be packed on wrong tags
+	var opts wpk.TagsetRaw
+	if opts, err = TableToTagset(tags, opts); err != nil {
+		return 0
+	}
+
 	var file wpk.RFile
 	if file, err = os.Open(fpath); err != nil {
 		return 0
@@ -756,16 +785,18 @@ func wpkputfile(ls *lua.LState) int {
 		return 0
 	}
 
-	if ts, err = pkg.adjusttagset(file, ts); err != nil {
-		return 0
+	if ts, err = pkg.adjusttagset(file, ts); err == nil {
+		var optsi = opts.Iterator()
+		for optsi.Next() {
+			ts = ts.Set(optsi.TID(), optsi.Tag())
+		}
+		err = pkg.setuptagset(ts)
 	}
-
-	if ts, err = TableToTagset(tags, ts); err != nil {
+	if err != nil {
+		pkg.DelTagset(fkey) // file should not be present with incomplete tags
 		return 0
 	}
 
-	pkg.SetupTagset(ts)
-
 	return 0
 }
 
@@ -950,7 +981,9 @@ func wpksettag(ls *lua.LState) int {
 	}
 	ts = wpk.CopyTagset(ts)
 	ts, ok = ts.SetOk(tid, tag)
-	pkg.SetupTagset(ts)
+	if err = pkg.setuptagset(ts); err != nil {
+		return 0
+	}
 
 	ls.Push(lua.LBool(ok))
 	return 1
@@ -990,7 +1023,9 @@ func wpkaddtag(ls *lua.LState) int {
 	}
 	ts = wpk.CopyTagset(ts)
 	if ts, ok = ts.AddOk(tid, tag); ok {
-		pkg.SetupTagset(ts)
+		if err = pkg.setuptagset(ts); err != nil {
+			return 0
+		}
 	}
 
 	ls.Push(lua.LBool(ok))
@@ -1094,7 +1129,9 @@ func wpksettags(ls *lua.LState) int {
 	for optsi.Next() {
 		ts = ts.Set(optsi.TID(), optsi.Tag())
 	}
-	pkg.SetupTagset(ts)
+	if err = pkg.setuptagset(ts); err != nil {
+		return 0
+	}
 
 	return 0
 }
@@ -1132,7 +1169,9 @@ func wpkaddtags(ls *lua.LState) int {
 		}
 	}
 	if n > 0 {
-		pkg.SetupTagset(ts)
+		if err = pkg.setuptagset(ts); err != nil {
+			return 0
+		}
 	}
 
 	ls.Push(lua.LNumber(n))
@@ -1222,6 +1261,10 @@ func wpksetupinfo(ls *lua.LState) int {
 	if opts, err = TableToTagset(lt, opts); err != nil {
 		return 0
 	}
+	if len(opts) > math.MaxUint16 {
+		err = wpk.ErrRangeTSSize
+		return 0
+	}
 	pkg.SetInfo(opts)
 	return 0
 }
diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index a22372d..46431e6 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -165,6 +165,11 @@ func isuint(n lua.LNumber) bool {
 // boolen converts to 1 byte slice with 1 for 'true' and 0 for 'false'.
 // Otherwise if it is not 'tag' uservalue with TagRaw, returns error.
 func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
+	defer func() {
+		if err == nil && len(tag) > math.MaxUint16 {
+			err = ErrBadTagVal
+		}
+	}()
 	switch TidType[tid] {
 	case TTbin:
 		if val, ok := v.(lua.LNumber); ok && isuint(val) {
-- 
2.43.0


From 1efa140d45b6a473316641bda2553b3f2f0b2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:22 +0000
Subject: [PATCH 23/50] fix: failed script begin, append and finalize do not
 leave the package half open

---
 luawpk/luawpk.go | 66 ++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 41d247c..42315c7 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -225,6 +225,37 @@ var methodsPack = map[string]lua.LGFunction{
 	"setupinfo": wpksetupinfo,
 }
 
+// openstreams opens package write streams with given additional flags,
+// both or none of them remains opened.
+func (pkg *LuaPackage) openstreams(pkgpath, datpath string, flag int) error {
+	var wpt, err = os.OpenFile(pkgpath, os.O_WRONLY|flag, 0755)
+	if err != nil {
+		return err
+	}
+	if datpath != "" {
+		var wpf, err = os.OpenFile(datpath, os.O_WRONLY|flag, 0755)
+		if err != nil {
+			wpt.Close()
+			return err
+		}
+		pkg.wpf = wpf
+	}
+	pkg.wpt = wpt
+	return nil
+}
+
+// closestreams closes all package write streams in any case,
+// and returns errors that were happened.
+func (pkg *LuaPackage) closestreams() (err error) {
+	err = pkg.wpt.Close()
+	pkg.wpt = nil
+	if pkg.wpf != nil {
+		err = errors.Join(err, pkg.wpf.Close())
+		pkg.wpf = nil
+	}
+	return
+}
+
 // setuptagset puts given tagset to the table if it can be stored in package.
 func (pkg *LuaPackage) setuptagset(ts wpk.TagsetRaw) error {
 	if len(ts) > math.MaxUint16 {
@@ -515,22 +546,16 @@ func wpkbegin(ls *lua.LState) int {
 	}
 
 	// create package file
-	if pkg.wpt, err = os.OpenFile(pkgpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
+	if err = pkg.openstreams(pkgpath, datpath, os.O_CREATE|os.O_TRUNC); err != nil {
 		return 0
 	}
-	if datpath != "" {
-		if pkg.wpf, err = os.OpenFile(datpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0755); err != nil {
-			pkg.wpt.Close()
-			pkg.wpt = nil
-			return 0
-		}
-	}
-	// setup file representation
-	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 	// starts new package
 	if err = pkg.Begin(pkg.wpt, pkg.wpf); err != nil {
+		pkg.closestreams()
 		return 0
 	}
+	// setup file representation
+	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 
 	return 0
 }
@@ -550,18 +575,12 @@ func wpkappend(ls *lua.LState) int {
 	}
 
 	// open package file
-	if pkg.wpt, err = os.OpenFile(pkg.pkgpath, os.O_WRONLY, 0755); err != nil {
+	if err = pkg.openstreams(pkg.pkgpath, pkg.datpath, 0); err != nil {
 		return 0
 	}
-	if pkg.datpath != "" {
-		if pkg.wpf, err = os.OpenFile(pkg.datpath, os.O_WRONLY, 0755); err != nil {
-			pkg.wpt.Close()
-			pkg.wpt = nil
-			return 0
-		}
-	}
 	// starts to append files
 	if err = pkg.Append(pkg.wpt, pkg.wpf); err != nil {
+		pkg.closestreams()
 		return 0
 	}
 
@@ -587,16 +606,7 @@ func wpkfinalize(ls *lua.LState) int {
 		return 0
 	}
 	// close package file
-	if err = pkg.wpt.Close(); err != nil {
-		return 0
-	}
-	pkg.wpt = nil
-	if pkg.wpf != nil {
-		if err = pkg.wpf.Close(); err != nil {
-			return 0
-		}
-		pkg.wpf = nil
-	}
+	err = pkg.closestreams()
 
 	return 0
 }
-- 
2.43.0


From 3114bbbd302251a1be2fae0fa3860096a2b33156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:41 +0000
Subject: [PATCH 24/50] fix: begin of new package drops files of previous one

---
 writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.go b/writer.go
index e707ea5..e386615 100644
--- a/writer.go
+++ b/writer.go
@@ -43,6 +43,8 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	if _, err = hdr.WriteTo(wpt); err != nil {
 		return
 	}
+	// new package has no files of previous one
+	ftt.tsm.Init(0)
 	// update data offset/pos and table placement
 	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
 	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
-- 
2.43.0


From 9ac22bb6093deb8867699acd0ddcb81c8f75db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:42 +0000
Subject: [PATCH 25/50] fix: failed script load leaves previous package as it
 was

---
 luawpk/luawpk.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 42315c7..8f99357 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -520,10 +520,12 @@ func wpkload(ls *lua.LState) int {
 		return 0
 	}
 
-	// open package file
-	if err = pkg.OpenFile(pkgpath); err != nil {
+	// open package file, previous package remains if it fails
+	var ftt = &wpk.FTT{}
+	if err = ftt.OpenFile(pkgpath); err != nil {
 		return 0
 	}
+	pkg.FTT = ftt
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 
 	return 0
-- 
2.43.0


From e84e2af270c852cb881200b52a0409bd980c4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:43 +0000
Subject: [PATCH 26/50] fix: script append refuses data file that does not fit
 to the package

---
 luawpk/luawpk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 8f99357..8a9c47f 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -19,6 +19,7 @@ var (
 	ErrPackOpened = errors.New("package write stream already opened")
 	ErrPackClosed = errors.New("package write stream does not opened")
 	ErrDataClosed = errors.New("package data file is not opened")
+	ErrDataPath   = errors.New("package data file does not fit to package splitting")
 )
 
 // PackMT is "wpk" name of Lua metatable.
@@ -576,6 +577,11 @@ func wpkappend(ls *lua.LState) int {
 		return 0
 	}
 
+	// package should be continued as it was made, splitted or not
+	if pkg.IsSplitted() != (pkg.datpath != "") {
+		err = ErrDataPath
+		return 0
+	}
 	// open package file
 	if err = pkg.openstreams(pkg.pkgpath, pkg.datpath, 0); err != nil {
 		return 0
-- 
2.43.0


From a47071a216151ab4c7729d8173c9976693fd30b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:08 +0000
Subject: [PATCH 27/50] fix: automatic file identifiers do not repeat existing
 ones

---
 luawpk/luawpk.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/luawpk/luawpk.go b/luawpk/luawpk.go
index 8a9c47f..1311d38 100644
--- a/luawpk/luawpk.go
+++ b/luawpk/luawpk.go
@@ -262,10 +262,18 @@ func (pkg *LuaPackage) setuptagset(ts wpk.TagsetRaw) error {
 	if len(ts) > math.MaxUint16 {
 		return wpk.ErrRangeTSSize
 	}
+	pkg.countfid(ts)
 	pkg.SetupTagset(ts)
 	return nil
 }
 
+// countfid lets automatic file identifiers to follow after the one of given tagset.
+func (pkg *LuaPackage) countfid(ts wpk.TagsetRaw) {
+	if fid, ok := ts.TagUint(wpk.TIDfid); ok && fid > pkg.fidcount {
+		pkg.fidcount = fid
+	}
+}
+
 // properties section
 
 func getlabel(ls *lua.LState) int {
@@ -527,6 +535,10 @@ func wpkload(ls *lua.LState) int {
 		return 0
 	}
 	pkg.FTT = ftt
+	pkg.Enum(func(fkey string, ts wpk.TagsetRaw) bool {
+		pkg.countfid(ts)
+		return true
+	})
 	pkg.pkgpath, pkg.datpath = pkgpath, datpath
 
 	return 0
-- 
2.43.0


From 0ffcfc906a8af5efb24f3fb896c5afca63c3a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:09 +0000
Subject: [PATCH 28/50] fix: read errors at file type detection are not ignored

---
 luawpk/adjusttags.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/luawpk/adjusttags.go b/luawpk/adjusttags.go
index e716808..1c127fc 100644
--- a/luawpk/adjusttags.go
+++ b/luawpk/adjusttags.go
@@ -31,7 +31,12 @@ func adjustmime(ts wpk.TagsetRaw, r io.ReadSeeker, skip bool) (wpk.TagsetRaw, er
 			if _, err = r.Seek(0, io.SeekStart); err != nil {
 				return ts, err
 			}
-			if kind, err := filetype.MatchReader(r); err == nil && kind != filetype.Unknown {
+			var buf [8192]byte // as much as filetype needs for any of known types
+			var n int
+			if n, err = io.ReadFull(r, buf[:]); err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
+				return ts, err
+			}
+			if kind, err := filetype.Match(buf[:n]); err == nil && kind != filetype.Unknown {
 				ctype = kind.MIME.Value
 			} else {
 				ctype = "application/octet-stream"
-- 
2.43.0


From b8654ea913d422e962c5655c2f52820a79a17826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:02 +0000
Subject: [PATCH 29/50] fix: pack tool reports failures of reading and packing
 of source files

---
 cmd/pack/pack.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index ed3d4c2..76e92aa 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -111,7 +111,7 @@ func writepackage() (err error) {
 	for i, srcpath := range SrcList {
 		log.Printf("source folder #%d: %s", i+1, srcpath)
 		var num, sum int64
-		fs.WalkDir(os.DirFS(srcpath), ".", func(fkey string, d fs.DirEntry, err error) error {
+		if err = fs.WalkDir(os.DirFS(srcpath), ".", func(fkey string, d fs.DirEntry, err error) error {
 			if err != nil {
 				return err
 			}
@@ -164,7 +164,9 @@ func writepackage() (err error) {
 			}
 			pkg.SetTagset(fkey, ts)
 			return nil
-		})
+		}); err != nil {
+			return
+		}
 		log.Printf("packed: %d files on %d bytes", num, sum)
 	}
 
-- 
2.43.0


From eaea5ee0b60b6564eb1fd1fff184b1d414cad766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:02 +0000
Subject: [PATCH 30/50] fix: pack tool reports failures at closing of output
 files

---
 cmd/pack/pack.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index 76e92aa..5767c53 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -82,13 +82,21 @@ func writepackage() (err error) {
 	if fwpk, err = os.OpenFile(pkgfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644); err != nil {
 		return
 	}
-	defer fwpk.Close()
+	defer func() {
+		if e := fwpk.Close(); err == nil {
+			err = e
+		}
+	}()
 
 	if Split {
 		if fwpf, err = os.OpenFile(datfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644); err != nil {
 			return
 		}
-		defer fwpf.Close()
+		defer func() {
+			if e := fwpf.Close(); err == nil {
+				err = e
+			}
+		}()
 
 		log.Printf("destination tags part:  %s\n", pkgfile)
 		log.Printf("destination files part: %s\n", datfile)
-- 
2.43.0


From 7bbc3515ad7e1e462230383b7d4cb3b8daded9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:29 +0000
Subject: [PATCH 31/50] fix: pack tool detects MIME type by the file content,
 not by zeros

---
 cmd/pack/pack.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index 5767c53..f6f6a74 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"bytes"
 	"flag"
 	"io"
 	"io/fs"
@@ -157,8 +156,8 @@ func writepackage() (err error) {
 					}
 					// read a chunk to decide between utf-8 text and binary
 					var buf [sniffLen]byte
-					var n int64
-					if n, err = io.CopyN(bytes.NewBuffer(buf[:]), file, sniffLen); err != nil && err != io.EOF {
+					var n int
+					if n, err = io.ReadFull(file, buf[:]); err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
 						return err
 					}
 					ctype = http.DetectContentType(buf[:n])
-- 
2.43.0


From 6ec469ecc9b271c3a8bd4bfdd5dc08c555026c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:29 +0000
Subject: [PATCH 32/50] fix: extract tool reports failures at closing of output
 files and at setting of times

---
 cmd/extract/extract.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 84d5519..14b89d3 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -153,10 +153,18 @@ func readpackage() (err error) {
 					var atime, aok = ts.TagTime(wpk.TIDatime)
 					var mtime, mok = ts.TagTime(wpk.TIDmtime)
 					if aok && mok {
-						defer os.Chtimes(fullpath, atime, mtime)
+						defer func() {
+							if e := os.Chtimes(fullpath, atime, mtime); err == nil {
+								err = e
+							}
+						}()
 					}
 				}
-				defer dst.Close()
+				defer func() {
+					if e := dst.Close(); err == nil {
+						err = e
+					}
+				}()
 
 				var n int64
 				if n, err = io.Copy(dst, src); err != nil {
-- 
2.43.0


From 6ad42971db4d62fc68b9890ee7d15a9fb5467af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:29 +0000
Subject: [PATCH 33/50] fix: extract tool does not write out of the destination
 folder

---
 cmd/extract/extract.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 14b89d3..84b5a7d 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -4,9 +4,11 @@ import (
 	"errors"
 	"flag"
 	"io"
+	"io/fs"
 	"log"
 	"os"
 	"path"
+	"path/filepath"
 	"strings"
 
 	"github.com/schwarzlichtbezirk/wpk"
@@ -134,6 +136,11 @@ func readpackage() (err error) {
 					next = err == nil
 				}()
 
+				// the name must not lead out of the destination folder
+				if !filepath.IsLocal(fkey) {
+					err = &fs.PathError{Op: "extract", Path: fkey, Err: fs.ErrInvalid}
+					return
+				}
 				var fullpath = util.JoinPath(DstPath, fkey)
 				if err = os.MkdirAll(path.Dir(fullpath), os.ModePerm); err != nil {
 					return
-- 
2.43.0


From 33a799ea0a4bda4f7b92b395606a5ac3804452b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:50 +0000
Subject: [PATCH 34/50] fix: path.match of scripts takes the name and the
 pattern in documented order

---
 luawpk/luapath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/luawpk/luapath.go b/luawpk/luapath.go
index ae9f989..5c6aa49 100644
--- a/luawpk/luapath.go
+++ b/luawpk/luapath.go
@@ -100,7 +100,7 @@ func pathmatch(ls *lua.LState) int {
 	var name = ls.CheckString(1)
 	var pattern = ls.CheckString(2)
 
-	var matched, err = path.Match(name, pattern)
+	var matched, err = path.Match(pattern, name)
 	if err != nil {
 		ls.RaiseError(err.Error())
 		return 0
-- 
2.43.0


From aa888ebcabb6526eb41712c392453e4280163396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:52 +0000
Subject: [PATCH 35/50] fix: path.enum of scripts gives empty table for empty
 folder if number of names is limited

---
 luawpk/luapath.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/luawpk/luapath.go b/luawpk/luapath.go
index 5c6aa49..cd043db 100644
--- a/luawpk/luapath.go
+++ b/luawpk/luapath.go
@@ -1,6 +1,7 @@
 package luawpk
 
 import (
+	"io"
 	"os"
 	"path"
 	"path/filepath"
@@ -146,7 +147,7 @@ func pathenum(ls *lua.LState) int {
 	defer dir.Close()
 
 	var names []string
-	if names, err = dir.Readdirnames(n); err != nil {
+	if names, err = dir.Readdirnames(n); err != nil && err != io.EOF {
 		ls.RaiseError(err.Error())
 		return 0
 	}
-- 
2.43.0


From ad8bd18212405553ba1d8602370f4dea4feb26aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:16 +0000
Subject: [PATCH 36/50] fix: unknown variable at the end of path is not
 replaced by zeros

---
 util/strutil.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/util/strutil.go b/util/strutil.go
index 8f3985e..baeb7b3 100644
--- a/util/strutil.go
+++ b/util/strutil.go
@@ -364,10 +364,11 @@ func Envfmt(fpath string, envmap map[string]string) string {
 		var v = b[p1:p2]
 		if env, ok := os.LookupEnv(B2S(v)); ok {
 			copy(e[j:], env)
+			j += len(env)
+			pc = i
 		}
 		mode = 0
-	} else { // copy remainder
-		copy(e[j:], b[pc:])
 	}
+	copy(e[j:], b[pc:]) // copy remainder
 	return B2S(e)
 }
-- 
2.43.0


From 0a9e7c4889ee16acc1e8c1976a0650f8169a0c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:18 +0000
Subject: [PATCH 37/50] fix: variable at the end of path is looked at given map
 first

---
 util/strutil.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/util/strutil.go b/util/strutil.go
index baeb7b3..75275fb 100644
--- a/util/strutil.go
+++ b/util/strutil.go
@@ -275,8 +275,16 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	}
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
-		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		var v = B2S(b[p1:p2])
+		var env string
+		var ok bool
+		if envmap != nil {
+			env, ok = envmap[v]
+		}
+		if !ok {
+			env, ok = os.LookupEnv(v)
+		}
+		if ok {
 			el += len(env) - len(v) - 1
 			n++
 		}
@@ -361,8 +369,16 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	}
 	if mode == 1 { // special case: $VAR can be at the end of fpath
 		p2 = i
-		var v = b[p1:p2]
-		if env, ok := os.LookupEnv(B2S(v)); ok {
+		var v = B2S(b[p1:p2])
+		var env string
+		var ok bool
+		if envmap != nil {
+			env, ok = envmap[v]
+		}
+		if !ok {
+			env, ok = os.LookupEnv(v)
+		}
+		if ok {
 			copy(e[j:], env)
 			j += len(env)
 			pc = i
-- 
2.43.0


From 215a8549dde058790619cd675cae09f5e80c4617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:20 +0000
Subject: [PATCH 38/50] fix: variable with one letter name at the end of path
 is replaced

---
 util/strutil.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/strutil.go b/util/strutil.go
index 75275fb..1a2779c 100644
--- a/util/strutil.go
+++ b/util/strutil.go
@@ -206,7 +206,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					mode, p1 = 1, i+1
 					i += 2
 				} else if i < fl-3 && b[i+1] == '{' && VarCharFirst[b[i+2]] {
@@ -301,7 +301,7 @@ func Envfmt(fpath string, envmap map[string]string) string {
 	for i < fl {
 		if mode == 0 {
 			if b[i] == '$' {
-				if i < fl-2 && VarCharFirst[b[i+1]] {
+				if i < fl-1 && VarCharFirst[b[i+1]] {
 					pe = i
 					mode, p1 = 1, i+1
 					i += 2
-- 
2.43.0


From 1fc0949aba7c3c78002d82952ed5423d5ef154f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 39/50] fix: package info, data size and placement can be read
 while other calls change them

---
 wpk.go    | 47 +++++++++++++++++++++++++++++++++++++----------
 writer.go |  8 ++++----
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/wpk.go b/wpk.go
index 1b87724..115b417 100644
--- a/wpk.go
+++ b/wpk.go
@@ -254,16 +254,31 @@ type FTT struct {
 	fttoffset uint64 // placement of tags table to which the header refers
 	fttsize   uint64 // size of this table
 
-	mux sync.Mutex // writer mutex
+	mux sync.Mutex   // writer mutex
+	rmx sync.RWMutex // guards package info and placement, that can be read during any writing
+}
+
+// setplace updates data offset/size and table placement by given header.
+func (ftt *FTT) setplace(hdr *Header) {
+	ftt.rmx.Lock()
+	defer ftt.rmx.Unlock()
+	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
+	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
+}
+
+// getplace returns data offset and size.
+func (ftt *FTT) getplace() (offset, size uint64) {
+	ftt.rmx.RLock()
+	defer ftt.rmx.RUnlock()
+	return ftt.datoffset, ftt.datsize
 }
 
 // Init performs initialization for given Package structure.
 func (ftt *FTT) Init(hdr *Header) {
-	ftt.info = nil
+	ftt.putinfo(nil)
 	ftt.tsm.Init(int(hdr.fttcount))
 	// update data offset/pos and table placement
-	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
-	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
+	ftt.setplace(hdr)
 }
 
 // TagsetNum returns actual number of entries at files tags table.
@@ -273,25 +288,36 @@ func (ftt *FTT) TagsetNum() int {
 
 // IsSplitted returns true if package is splitted on tags and data files.
 func (ftt *FTT) IsSplitted() bool {
-	return ftt.datoffset == 0
+	var offset, _ = ftt.getplace()
+	return offset == 0
 }
 
 // DataSize returns package data size from files tags table.
 // This value changed on FTT open or sync operation.
 func (ftt *FTT) DataSize() uint {
-	return uint(ftt.datsize)
+	var _, size = ftt.getplace()
+	return uint(size)
 }
 
 // GetInfo returns package information tagset if it present.
 func (ftt *FTT) GetInfo() TagsetRaw {
+	ftt.rmx.RLock()
+	defer ftt.rmx.RUnlock()
 	return ftt.info
 }
 
+// putinfo places package information tagset.
+func (ftt *FTT) putinfo(ts TagsetRaw) {
+	ftt.rmx.Lock()
+	defer ftt.rmx.Unlock()
+	ftt.info = ts
+}
+
 // SetInfo puts given tagset as package information tagset.
 func (ftt *FTT) SetInfo(ts TagsetRaw) {
 	ftt.mux.Lock()
 	defer ftt.mux.Unlock()
-	ftt.info = ts
+	ftt.putinfo(ts)
 }
 
 // CheckTagset tests path & offset & size tags existence
@@ -382,7 +408,7 @@ func (ftt *FTT) Parse(buf []byte) (n int64, err error) {
 			return
 		}
 
-		ftt.info = ts
+		ftt.putinfo(ts)
 	}
 
 	for {
@@ -438,7 +464,7 @@ func (ftt *FTT) ReadFrom(r io.Reader) (n int64, err error) {
 			return
 		}
 
-		ftt.info = ts
+		ftt.putinfo(ts)
 	}
 
 	for {
@@ -775,7 +801,8 @@ func (pkg *Package) ReadFile(fkey string) ([]byte, error) {
 func (pkg *Package) Open(dir string) (fs.File, error) {
 	var fullname = pkg.FullPath(dir)
 	if fullname == PackName {
-		var ts = pkg.BaseTagset(0, uint(pkg.datoffset+pkg.datsize), "wpk")
+		var offset, size = pkg.getplace()
+		var ts = pkg.BaseTagset(0, uint(offset+size), "wpk")
 		return pkg.Tagger.OpenTagset(ts)
 	}
 
diff --git a/writer.go b/writer.go
index e386615..9c11859 100644
--- a/writer.go
+++ b/writer.go
@@ -46,8 +46,7 @@ func (ftt *FTT) Begin(wpt, wpf io.WriteSeeker) (err error) {
 	// new package has no files of previous one
 	ftt.tsm.Init(0)
 	// update data offset/pos and table placement
-	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
-	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
+	ftt.setplace(&hdr)
 	return
 }
 
@@ -133,8 +132,7 @@ func (ftt *FTT) Sync(wpt, wpf io.WriteSeeker) (err error) {
 		return
 	}
 	// update data offset/pos and table placement
-	ftt.datoffset, ftt.datsize = hdr.datoffset, hdr.datsize
-	ftt.fttoffset, ftt.fttsize = hdr.fttoffset, hdr.fttsize
+	ftt.setplace(&hdr)
 	return
 }
 
@@ -161,7 +159,9 @@ func (pkg *Package) packData(w io.WriteSeeker, r io.Reader, fkey string, addtags
 		return
 	}
 	// update actual package data size
+	pkg.rmx.Lock()
 	pkg.datsize += uint64(size)
+	pkg.rmx.Unlock()
 
 	// insert new entry to tags table
 	ts = pkg.BaseTagset(uint(offset), uint(size), fkey)
-- 
2.43.0


From 9d3e9156039f69acc22c3af553bb95382a3fc4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 40/50] fix: replacing a tag by one longer than 64K does not
 cut it silently

---
 tagset.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tagset.go b/tagset.go
index 5477528..f07184f 100644
--- a/tagset.go
+++ b/tagset.go
@@ -315,8 +315,7 @@ func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 		return ts.Put(tid, tag), true
 	}
 
-	var tl = uint16(len(tag))
-	if tl == uint16(tsi.pos-tsi.tag) {
+	if len(tag) == tsi.pos-tsi.tag {
 		copy(ts[tsi.tag:tsi.pos], tag)
 	} else {
 		// tags after replaced one should not be overwritten by longer content
@@ -324,7 +323,7 @@ func (ts TagsetRaw) SetOk(tid TID, tag TagRaw) (TagsetRaw, bool) {
 		buf = append(buf, ts[:tsi.tag]...)
 		buf = append(buf, tag...)
 		buf = append(buf, ts[tsi.pos:]...)
-		util.SetU16(buf[tsi.tag-PTStagsz:tsi.tag], tl) // set tag length
+		util.SetU16(buf[tsi.tag-PTStagsz:tsi.tag], uint16(len(tag))) // set tag length
 		ts = buf
 	}
 	return ts, false
-- 
2.43.0


From 869673935c0d231606976a2610d9b15d092d31d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 41/50] fix: renaming of directories takes both kinds of
 slashes

---
 writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/writer.go b/writer.go
index 9c11859..ff05403 100644
--- a/writer.go
+++ b/writer.go
@@ -221,6 +221,7 @@ func (pkg *Package) Rename(fkey1, fkey2 string) error {
 
 // RenameDir renames all files in package with 'olddir' path to 'newdir' path.
 func (pkg *Package) RenameDir(olddir, newdir string, skipexist bool) (count int, err error) {
+	olddir, newdir = util.ToSlash(olddir), util.ToSlash(newdir)
 	if len(olddir) > 0 && olddir[len(olddir)-1] != '/' {
 		olddir += "/"
 	}
-- 
2.43.0


From c85b62ca5bac8125d9d723f5273d0a35aacd2e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 42/50] fix: packing into a package placed inside of the source
 folder does not pack the package itself without end

---
 cmd/pack/pack.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cmd/pack/pack.go b/cmd/pack/pack.go
index f6f6a74..3f2ebef 100644
--- a/cmd/pack/pack.go
+++ b/cmd/pack/pack.go
@@ -114,6 +114,15 @@ func writepackage() (err error) {
 		w = fwpf
 	}
 
+	// package can be placed inside of the source folder
+	var pkginfo, datinfo fs.FileInfo
+	if pkginfo, err = os.Stat(pkgfile); err != nil {
+		return
+	}
+	if datinfo, err = os.Stat(datfile); err != nil {
+		return
+	}
+
 	// write all source folders
 	for i, srcpath := range SrcList {
 		log.Printf("source folder #%d: %s", i+1, srcpath)
@@ -134,6 +143,14 @@ func writepackage() (err error) {
 			}
 			defer file.Close()
 
+			var fi fs.FileInfo
+			if fi, err = file.Stat(); err != nil {
+				return err
+			}
+			if os.SameFile(fi, pkginfo) || os.SameFile(fi, datinfo) {
+				return nil // the package itself is not packed
+			}
+
 			if ts, err = pkg.PackFile(w, file, fkey); err != nil {
 				return err
 			}
-- 
2.43.0


From 6d55e4c4bbdbd8f3c496ee2f64f244473d8eba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 43/50] fix: a time tag out of range raises an error

---
 luawpk/nametid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/luawpk/nametid.go b/luawpk/nametid.go
index 46431e6..1447ed9 100644
--- a/luawpk/nametid.go
+++ b/luawpk/nametid.go
@@ -240,7 +240,7 @@ func ValueToTag(tid wpk.TID, v lua.LValue) (tag wpk.TagRaw, err error) {
 			return
 		}
 	case TTtime:
-		if val, ok := v.(lua.LNumber); ok {
+		if val, ok := v.(lua.LNumber); ok && val >= -1<<63 && val < 1<<63 {
 			var milli = int64(val)
 			var t = time.Unix(milli/1000, (milli%1000)*1000000)
 			tag = wpk.UnixmsTag(t)
-- 
2.43.0


From c9930063aba11e7b07282b60e5097ef925cca19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 44/50] fix: table with one file name in two spellings is
 refused

---
 wpk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wpk.go b/wpk.go
index 115b417..a773fcf 100644
--- a/wpk.go
+++ b/wpk.go
@@ -356,7 +356,7 @@ func (ftt *FTT) CheckTagset(ts TagsetRaw) (fkey string, err error) {
 		err = &ErrTag{ErrNoPath, "", TIDpath}
 		return
 	}
-	if ftt.tsm.Has(fkey) { // prevent same file from repeating
+	if ftt.tsm.Has(util.ToSlash(fkey)) { // prevent same file from repeating
 		err = &ErrTag{fs.ErrExist, fkey, TIDpath}
 		return
 	}
-- 
2.43.0


From 51aa431de773d529ab0fdd24d35a237bec7d3e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 45/50] fix: quick read of package info can mix two headers
 while the package is written

---
 wpk.go | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/wpk.go b/wpk.go
index a773fcf..173a6a4 100644
--- a/wpk.go
+++ b/wpk.go
@@ -197,32 +197,14 @@ func (hdr *Header) Parse(buf []byte) (n int64, err error) {
 }
 
 // ReadFrom reads header from stream as binary data of constant length.
+// Whole header is read at once, so it does not get parts of different states
+// if the package is written at the same time.
 func (hdr *Header) ReadFrom(r io.Reader) (n int64, err error) {
-	if _, err = io.ReadFull(r, hdr.signature[:]); err != nil {
-		return
-	}
-	n += SignSize
-	if hdr.fttcount, err = util.ReadU64(r); err != nil {
-		return
-	}
-	n += 8
-	if hdr.fttoffset, err = util.ReadU64(r); err != nil {
-		return
-	}
-	n += 8
-	if hdr.fttsize, err = util.ReadU64(r); err != nil {
-		return
-	}
-	n += 8
-	if hdr.datoffset, err = util.ReadU64(r); err != nil {
-		return
-	}
-	n += 8
-	if hdr.datsize, err = util.ReadU64(r); err != nil {
+	var buf [HeaderSize]byte
+	if _, err = io.ReadFull(r, buf[:]); err != nil {
 		return
 	}
-	n += 8
-	return
+	return hdr.Parse(buf[:])
 }
 
 // WriteTo writes header to stream as binary data of constant length.
-- 
2.43.0


From 20c60303807cc42582dced1adeaa5ec22ed8a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 46/50] fix: directory listing shows directories that refer to
 themselves or to the parent, walk by the tree of such package never ends

---
 dir.go   | 9 ++++++++-
 union.go | 5 +++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/dir.go b/dir.go
index 1c60ba8..4e3e889 100644
--- a/dir.go
+++ b/dir.go
@@ -114,6 +114,13 @@ func sortDirEntries(list []fs.DirEntry) {
 	})
 }
 
+// isSubdir checks up that path to nested directory is not spelled with empty, "." or ".." names.
+// Such names can be found at damaged package, directory that refers to itself
+// or to its parent makes walk by the tree endless.
+func isSubdir(subdir string) bool {
+	return subdir != "." && subdir == path.Clean(subdir)
+}
+
 // ReadDirN returns fs.DirEntry array with nested into given package directory presentation
 // sorted by filename. It's core function for ReadDirFile and ReadDirFS structures.
 func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error) {
@@ -133,7 +140,7 @@ func (ftt *FTT) ReadDirN(fulldir string, n int) (list []fs.DirEntry, err error)
 				list = append(list, ts)
 			} else { // dir detected
 				var subdir = util.JoinPath(prefix, suffix[:sp])
-				if _, ok := dirs[subdir]; !ok {
+				if _, ok := dirs[subdir]; !ok && isSubdir(subdir) {
 					var dts = TagsetRaw{}.
 						Put(TIDpath, StrTag(subdir))
 					var f = &PackDirFile{
diff --git a/union.go b/union.go
index b54e22b..4510c04 100644
--- a/union.go
+++ b/union.go
@@ -184,9 +184,10 @@ func (u *Union) ReadDirN(dir string, n int) (list []fs.DirEntry, err error) {
 					}
 				} else { // dir detected
 					var name = suffix[:sp+1]
-					if _, ok := found[name]; !ok {
+					var subdir = util.JoinPath(prefix, suffix[:sp])
+					if _, ok := found[name]; !ok && isSubdir(subdir) {
 						var dts = TagsetRaw{}.
-							Put(TIDpath, StrTag(util.JoinPath(prefix, suffix[:sp])))
+							Put(TIDpath, StrTag(subdir))
 						var f = &UnionDir{
 							TagsetRaw: dts,
 							Union:     u,
-- 
2.43.0


From 56248be0e006f1d78af321fc78223fbdb80a17d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 47/50] fix: a file can not be put over, or deleted by, the
 name of the subdirectory it is seen from

---
 wpk.go    | 10 ++++++++++
 writer.go | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/wpk.go b/wpk.go
index 173a6a4..10352ae 100644
--- a/wpk.go
+++ b/wpk.go
@@ -649,6 +649,13 @@ func (pkg *Package) BaseTagset(offset, size uint, fkey string) TagsetRaw {
 		Put(TIDpath, StrTag(pkg.FullPath(util.ToSlash(fkey))))
 }
 
+// isRoot checks up that given filename key is the subdirectory of the package itself,
+// in this case a file with the same name is outside of the subdirectory.
+func (pkg *Package) isRoot(fkey string) bool {
+	return pkg.Workspace != "." && pkg.Workspace != "" &&
+		pkg.FullPath(util.ToSlash(fkey)) == pkg.Workspace
+}
+
 // HasTagset check up that tagset with given filename key is present.
 func (pkg *Package) HasTagset(fkey string) bool {
 	var _, is = pkg.GetTagset(fkey)
@@ -682,6 +689,9 @@ func (pkg *Package) SetupTagset(ts TagsetRaw) {
 func (pkg *Package) DelTagset(fkey string) (TagsetRaw, bool) {
 	pkg.mux.Lock()
 	defer pkg.mux.Unlock()
+	if pkg.isRoot(fkey) {
+		return nil, false
+	}
 	return pkg.tsm.Delete(pkg.FullPath(util.ToSlash(fkey)))
 }
 
diff --git a/writer.go b/writer.go
index ff05403..ba9e564 100644
--- a/writer.go
+++ b/writer.go
@@ -143,6 +143,10 @@ func (pkg *Package) packData(w io.WriteSeeker, r io.Reader, fkey string, addtags
 	pkg.mux.Lock()
 	defer pkg.mux.Unlock()
 
+	if pkg.isRoot(fkey) {
+		err = &fs.PathError{Op: "packdata", Path: fkey, Err: fs.ErrInvalid}
+		return
+	}
 	if _, ok := pkg.GetTagset(fkey); ok {
 		err = &fs.PathError{Op: "packdata", Path: fkey, Err: fs.ErrExist}
 		return
@@ -204,6 +208,9 @@ func (pkg *Package) Rename(fkey1, fkey2 string) error {
 	pkg.mux.Lock()
 	defer pkg.mux.Unlock()
 
+	if pkg.isRoot(fkey2) {
+		return &fs.PathError{Op: "rename", Path: fkey2, Err: fs.ErrInvalid}
+	}
 	var ts, ok = pkg.GetTagset(fkey1)
 	if !ok {
 		return &fs.PathError{Op: "rename", Path: fkey1, Err: fs.ErrNotExist}
@@ -269,6 +276,9 @@ func (pkg *Package) PutAlias(fkey1, fkey2 string) error {
 	pkg.mux.Lock()
 	defer pkg.mux.Unlock()
 
+	if pkg.isRoot(fkey2) {
+		return &fs.PathError{Op: "putalias", Path: fkey2, Err: fs.ErrInvalid}
+	}
 	var ts, ok = pkg.GetTagset(fkey1)
 	if !ok {
 		return &fs.PathError{Op: "putalias", Path: fkey1, Err: fs.ErrNotExist}
-- 
2.43.0


From 6b93ff33be7b77dc3e53885a1907ed83f3ebb39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 48/50] fix: extract tool does not replace files of the
 packages it reads

---
 cmd/extract/extract.go | 48 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/cmd/extract/extract.go b/cmd/extract/extract.go
index 84b5a7d..b78adb9 100644
--- a/cmd/extract/extract.go
+++ b/cmd/extract/extract.go
@@ -119,9 +119,53 @@ func openpackage(pkgpath string) (err error) {
 	return
 }
 
+// sourcefiles returns infos of all files of the source packages.
+func sourcefiles() (list []fs.FileInfo, err error) {
+	for _, pkgpath := range SrcList {
+		var ftt wpk.FTT
+		if err = ftt.OpenFile(pkgpath); err != nil {
+			return
+		}
+		var fpaths = []string{pkgpath}
+		if ftt.IsSplitted() {
+			fpaths = append(fpaths, wpk.MakeDataPath(pkgpath))
+		}
+		for _, fpath := range fpaths {
+			var fi fs.FileInfo
+			if fi, err = os.Stat(fpath); err != nil {
+				return
+			}
+			list = append(list, fi)
+		}
+	}
+	return
+}
+
+// checkown returns error if given path leads to one of the source package files.
+func checkown(fullpath string, list []fs.FileInfo) error {
+	var fi, err = os.Stat(fullpath)
+	if errors.Is(err, fs.ErrNotExist) {
+		return nil
+	} else if err != nil {
+		return err
+	}
+	for _, own := range list {
+		if os.SameFile(fi, own) {
+			return &fs.PathError{Op: "extract", Path: fullpath, Err: fs.ErrExist}
+		}
+	}
+	return nil
+}
+
 func readpackage() (err error) {
 	log.Printf("destination path: %s", DstPath)
 
+	// files of the packages must not be replaced while they are read
+	var own []fs.FileInfo
+	if own, err = sourcefiles(); err != nil {
+		return
+	}
+
 	for _, pkgpath := range SrcList {
 		log.Printf("source package: %s", pkgpath)
 		func() {
@@ -146,6 +190,10 @@ func readpackage() (err error) {
 					return
 				}
 
+				if err = checkown(fullpath, own); err != nil {
+					return
+				}
+
 				var src wpk.RFile
 				if src, err = pkg.OpenTagset(ts); err != nil {
 					return
-- 
2.43.0


From f1af8a4e9b356ccadcdfe4606af4cab07b40a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:18 +0000
Subject: [PATCH 49/50] fix: glob of scripts can return more names than the
 initial stack of the script machine holds

---
 luawpk/runlvm.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/luawpk/runlvm.go b/luawpk/runlvm.go
index 12ab265..29dd195 100644
--- a/luawpk/runlvm.go
+++ b/luawpk/runlvm.go
@@ -129,7 +129,11 @@ func InitLuaVM(ls *lua.LState) {
 
 // RunLuaVM runs specified Lua-script with Lua WPK API.
 func RunLuaVM(fpath string) (err error) {
-	var ls = lua.NewState()
+	// the stack can grow, "glob" functions return each name as a separate value
+	var ls = lua.NewState(lua.Options{
+		RegistryMaxSize:  1 << 24,
+		RegistryGrowStep: 1 << 12,
+	})
 	defer ls.Close()
 	InitLuaVM(ls)
 
-- 
2.43.0


From 06faf016e7f5564f1811c859cbab43a86ac6f2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:26 +0000
Subject: [PATCH 50/50] fix: packing a file of another file system or of a
 package panics

---
 writer.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/writer.go b/writer.go
index ba9e564..911fb35 100644
--- a/writer.go
+++ b/writer.go
@@ -182,16 +182,38 @@ func (pkg *Package) PackData(w io.WriteSeeker, r io.Reader, fkey string) (ts Tag
 	return pkg.packData(w, r, fkey, nil)
 }
 
+// gettimes returns timestamps of the file with given information.
+// It is nil if information was not made by operating system or by package.
+func gettimes(fi fs.FileInfo) (tsp times.Timespec) {
+	if ts, ok := fi.(TagsetRaw); ok { // file is nested into some package
+		return ts
+	}
+	defer func() {
+		if recover() != nil { // `times` does not know what is under file information
+			tsp = nil
+		}
+	}()
+	return times.Get(fi)
+}
+
 // PackFile puts file with given file handle into package and associate keyname "fkey" with it.
+// File can be of any file system, entry gets all timestamps that are known there.
 func (pkg *Package) PackFile(w io.WriteSeeker, file fs.File, fkey string) (ts TagsetRaw, err error) {
 	var fi os.FileInfo
 	if fi, err = file.Stat(); err != nil {
 		return
 	}
 	return pkg.packData(w, file, fkey, func(ts TagsetRaw) TagsetRaw {
-		var tsp = times.Get(fi)
-		ts = ts.Put(TIDmtime, TimeTag(tsp.ModTime()))
-		ts = ts.Put(TIDatime, TimeTag(tsp.AccessTime()))
+		if t := fi.ModTime(); !t.IsZero() {
+			ts = ts.Put(TIDmtime, TimeTag(t))
+		}
+		var tsp = gettimes(fi)
+		if tsp == nil {
+			return ts
+		}
+		if t := tsp.AccessTime(); !t.IsZero() {
+			ts = ts.Put(TIDatime, TimeTag(t))
+		}
 		if tsp.HasChangeTime() {
 			ts = ts.Put(TIDctime, TimeTag(tsp.ChangeTime()))
 		}
-- 
2.43.0

