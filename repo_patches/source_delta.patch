From ce33105e03c7a366f3b7a10b0584debcb813c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:21 +0000
Subject: [PATCH 01/94] fix: skiplist_next() returned the same key again

When the given node (or its next node) is being removed, skiplist_next()
falls back to a search in GT mode, which returned a node with an equal
key, including the given node itself.
---
 src/skiplist.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 0b765cf..672b9d5 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -629,8 +629,9 @@ find_retry:
                 goto find_retry;
             }
             cmp = _sl_cmp(slist, query, next_node);
-            if (cmp > 0) {
+            if (cmp > 0 || (mode == GT && cmp == 0)) {
                 // cur_node < next_node < query
+                // (or `next_node == query` in greater mode)
                 // => move to next node
                 skiplist_node* temp = cur_node;
                 cur_node = next_node;
-- 
2.43.0


From 365cd3f5924dec075cff8e7cbd2285701ea81ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:21 +0000
Subject: [PATCH 02/94] fix: losing skiplist_erase_node() call cleared the
 removed flag

If two threads erase the same node at the same time, the one that comes
second reset the removed flag set by the first one, and then
skiplist_wait_for_free() never returns.
---
 src/skiplist.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 672b9d5..d2b4e6d 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -718,6 +718,15 @@ int skiplist_erase_node_passive(skiplist_raw *slist,
         return -2;
     }
 
+    ATM_LOAD(node->removed, removed);
+    if (removed) {
+        // other thread removed it after the check above.
+        // `removed` flag should be kept, otherwise the node will never be
+        // safe to free.
+        ATM_STORE(node->being_modified, bool_false);
+        return -1;
+    }
+
     // set removed flag first, so that reader cannot read this node.
     ATM_STORE(node->removed, bool_true);
 
-- 
2.43.0


From 6cdc788b0ae5d7fa31057bf8d60e3373cb051692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:21 +0000
Subject: [PATCH 03/94] fix: refused skiplist_insert_nodup() left the node
 write-locked

Inserting the same node again, after its duplicate is gone, hung.
---
 src/skiplist.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index d2b4e6d..657d4ef 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -464,6 +464,7 @@ insert_retry:
                 // Duplicate key is not allowed.
                 _sl_clr_flags(prevs, cur_layer+1, top_layer);
                 ATM_FETCH_SUB(cur_node->ref_count, 1);
+                _sl_write_unlock_an(node);
                 return -1;
             }
 
-- 
2.43.0


From 3822df03a5dca163a6e594a68d8de1da80d43286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:39 +0000
Subject: [PATCH 04/94] fix: blob length was trusted beyond the end of the
 buffer

RwSerializer::getSb() without clone returned a buffer reaching past the
end for a truncated or corrupted input, and with clone allocated and
zeroed whatever the length field said before noticing.
---
 src/internal_helper.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index 56157af..31a64ce 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -179,6 +179,9 @@ Status RwSerializer::getSb(SizedBuf& s_buf_out, bool clone) {
     uint32_t len = getU32(s);
     s_buf_out.clear();
     if (len) {
+        if (dstPtr && !available(len)) {
+            return Status::READ_VIOLATION;
+        }
         if (clone) {
             s_buf_out.alloc(len);
             s = get(s_buf_out.data, len);
-- 
2.43.0


From 9916afbdf6d09d2ddbec1c987e7112b0d38baa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:57 +0000
Subject: [PATCH 05/94] fix: one failed integer read froze every later reader

RwSerializer::getU64/32/16/8() decided whether to advance from the
caller's status, which by default is a static: after one read beyond the
end, later successful reads returned the same bytes again and again.
---
 src/internal_helper.cc | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index 31a64ce..4254825 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -197,65 +197,73 @@ Status RwSerializer::getSb(SizedBuf& s_buf_out, bool clone) {
 
 uint64_t RwSerializer::getU64(Status& s_out) {
     uint64_t off = pos();
+    Status s;
     uint64_t val = 0;
     if (dstPtr) {
         if (curPos + sizeof(val) > len) {
-            s_out = Status::READ_VIOLATION;
+            s = Status::READ_VIOLATION;
         } else {
             read_mem_64(dstPtr, val, 0, off);
         }
     } else {
-        s_out = read_file_64(fOps, dstFile, val, 0, off);
+        s = read_file_64(fOps, dstFile, val, 0, off);
     }
-    if (s_out) pos(off);
+    if (s) pos(off);
+    else s_out = s;
     return val;
 }
 
 uint32_t RwSerializer::getU32(Status& s_out) {
     uint64_t off = pos();
+    Status s;
     uint32_t val = 0;
     if (dstPtr) {
         if (curPos + sizeof(val) > len) {
-            s_out = Status::READ_VIOLATION;
+            s = Status::READ_VIOLATION;
         } else {
             read_mem_32(dstPtr, val, 0, off);
         }
     } else {
-        s_out = read_file_32(fOps, dstFile, val, 0, off);
+        s = read_file_32(fOps, dstFile, val, 0, off);
     }
-    if (s_out) pos(off);
+    if (s) pos(off);
+    else s_out = s;
     return val;
 }
 
 uint16_t RwSerializer::getU16(Status& s_out) {
     uint64_t off = pos();
+    Status s;
     uint16_t val = 0;
     if (dstPtr) {
         if (curPos + sizeof(val) > len) {
-            s_out = Status::READ_VIOLATION;
+            s = Status::READ_VIOLATION;
         } else {
             read_mem_16(dstPtr, val, 0, off);
         }
     } else {
-        s_out = read_file_16(fOps, dstFile, val, 0, off);
+        s = read_file_16(fOps, dstFile, val, 0, off);
     }
-    if (s_out) pos(off);
+    if (s) pos(off);
+    else s_out = s;
     return val;
 }
 
 uint8_t RwSerializer::getU8(Status& s_out) {
     uint64_t off = pos();
+    Status s;
     uint8_t val = 0;
     if (dstPtr) {
         if (curPos + sizeof(val) > len) {
-            s_out = Status::READ_VIOLATION;
+            s = Status::READ_VIOLATION;
         } else {
             read_mem_8(dstPtr, val, 0, off);
         }
     } else {
-        s_out = read_file_8(fOps, dstFile, val, 0, off);
+        s = read_file_8(fOps, dstFile, val, 0, off);
     }
-    if (s_out) pos(off);
+    if (s) pos(off);
+    else s_out = s;
     return val;
 }
 
-- 
2.43.0


From cf41349f8f854fd17987cc3b079c11600351e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:32 +0000
Subject: [PATCH 06/94] fix: SizedBuf::resize(0) left a dangling pointer

realloc() to zero frees the memory and returns null, which was taken for
an allocation failure: the buffer kept its pointer and size, and free()
released it a second time.
---
 include/libjungle/sized_buf.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libjungle/sized_buf.h b/include/libjungle/sized_buf.h
index d849ba4..2f34191 100644
--- a/include/libjungle/sized_buf.h
+++ b/include/libjungle/sized_buf.h
@@ -405,6 +405,12 @@ public:
             return;
         }
 
+        if (!_size) {
+            // `realloc` to zero deallocates the memory.
+            free();
+            return;
+        }
+
         uint8_t* new_ptr = reinterpret_cast<uint8_t*>(::realloc(data, _size));
         if (new_ptr) {
             data = new_ptr;
-- 
2.43.0


From 2d8036ee5e82542b2bb51d4a616878858a34aa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:26 +0000
Subject: [PATCH 07/94] fix: direct-I/O reads overflowed the per-thread buffer

The thread-local read buffer was sized by the first instance used in the
thread; a second instance with a larger buffer or alignment read beyond
its end.
---
 src/fileops_directio.cc | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index cd6f3d3..c62a2aa 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -73,7 +73,7 @@ public:
 };
 
 struct AlignedMemoryHolder {
-    explicit AlignedMemoryHolder(void* _bufPtr) : bufPtr(_bufPtr) {}
+    AlignedMemoryHolder() : bufPtr(nullptr), bufSize(0), alignSize(0) {}
     ~AlignedMemoryHolder() {
         if (bufPtr) {
             free(bufPtr);
@@ -81,6 +81,8 @@ struct AlignedMemoryHolder {
         }
     }
     void* bufPtr;
+    size_t bufSize;
+    size_t alignSize;
 };
 
 static FileHandleDirectIO* getHandle(FileHandle* fhandle) {
@@ -287,16 +289,23 @@ Status FileOpsDirectIO::pread(FileHandle* fhandle,
     auto file_size = static_cast<size_t>(file_size_tmp);
     if (offset + count > file_size) return Status::FILE_SIZE_MISMATCH;
 
-    // Aligned buffer to direct read
-    thread_local void* aligned_buf = nullptr;
-    thread_local Status aligned_buf_status = allocAlignedBuf(&aligned_buf);
-    thread_local auto* aligned_buf_char = static_cast<uint8_t*>(aligned_buf);
-    if (!aligned_buf_status) return aligned_buf_status;
-    assert(aligned_buf != nullptr && aligned_buf_char != nullptr);
-    thread_local AlignedMemoryHolder buf_holder(aligned_buf);
-    (void) buf_holder;
-
     Status s;
+
+    // Aligned buffer to direct read, shared by all instances used by
+    // this thread: they may have different buffer and alignment sizes.
+    thread_local AlignedMemoryHolder buf_holder;
+    if ( buf_holder.bufSize < bufferSize ||
+         buf_holder.alignSize < alignSize ) {
+        void* new_buf = nullptr;
+        EP(allocAlignedBuf(&new_buf));
+        free(buf_holder.bufPtr);
+        buf_holder.bufPtr = new_buf;
+        buf_holder.bufSize = bufferSize;
+        buf_holder.alignSize = alignSize;
+    }
+    void* aligned_buf = buf_holder.bufPtr;
+    auto* aligned_buf_char = static_cast<uint8_t*>(aligned_buf);
+    assert(aligned_buf != nullptr && aligned_buf_char != nullptr);
     size_t aligned_file_offset = offset;
     size_t need_align = offset % alignSize;
     if (need_align > 0) {
-- 
2.43.0


From 446f800d3a7bcf5213ba2c47d23c428fd417dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:26 +0000
Subject: [PATCH 08/94] fix: direct-I/O file size was truncated to 32 bits

eof() kept the result of lseek() in an int, so files of 2 GiB and more
had a negative or wrong size and could neither be read nor reopened.
---
 src/fileops_directio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index c62a2aa..faa4bfe 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -434,7 +434,7 @@ cs_off_t FileOpsDirectIO::eof(FileHandle* fhandle) {
     FileHandleDirectIO* phandle = getHandle(fhandle);
     if (!phandle) return -1;
     if (phandle->fd <= 0) return -1;
-    int r = ::lseek(phandle->fd, 0, SEEK_END);
+    off_t r = ::lseek(phandle->fd, 0, SEEK_END);
     if (r < 0) {
         int n = errno;
         _log_err(myLog,
-- 
2.43.0


From f3039d06db614b90321903326ab986b7cda615d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:26 +0000
Subject: [PATCH 09/94] fix: direct-I/O fsync was skipped after a truncation

ftruncate() did not lower the synced position, so fsync() returned OK
without syncing until the file outgrew its old size.
---
 src/fileops_directio.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index faa4bfe..abf870e 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -584,6 +584,9 @@ Status FileOpsDirectIO::ftruncate(FileHandle* fhandle,
         phandle->flushedFilePos = length;
         phandle->bufPos = need_align;
     }
+    // Data appended after the truncation is not synced yet, no matter
+    // how far the file was synced before.
+    phandle->fsyncedFilePos = std::min(phandle->fsyncedFilePos, length);
 
     // Double check file size
     file_size_tmp = eof(fhandle);
-- 
2.43.0


From afbeef2b703703d48dcbea24eedb95fcea41420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:26 +0000
Subject: [PATCH 10/94] fix: a failed direct-I/O open leaked its descriptor and
 buffer

---
 src/fileops_directio.cc | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index abf870e..0f5400c 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -201,13 +201,20 @@ Status FileOpsDirectIO::open(FileHandle** fhandle_out,
     void* aligned_buf = nullptr;
 
     Status s;
-    EP(allocAlignedBuf(&aligned_buf));
+    s = allocAlignedBuf(&aligned_buf);
+    if (!s) {
+        ::close(r);
+        return s;
+    }
 
     auto* fhandle = new FileHandleDirectIO(pathname, r, this, aligned_buf);
 
     // Set the aligned write buffer
     cs_off_t file_size_tmp = eof(fhandle);
-    if (file_size_tmp < 0) return Status::ERROR;
+    if (file_size_tmp < 0) {
+        delete fhandle;
+        return Status::ERROR;
+    }
     auto file_size = static_cast<size_t>(file_size_tmp);
 
     size_t need_align = file_size % alignSize;
@@ -218,11 +225,15 @@ Status FileOpsDirectIO::open(FileHandle** fhandle_out,
         fhandle->bufPos = 0;
     } else {
         // Read the last un-aligned data
-        EP(readInternal(pathname,
-                        r,
-                        aligned_buf,
-                        need_align,
-                        file_size - need_align));
+        s = readInternal(pathname,
+                         r,
+                         aligned_buf,
+                         need_align,
+                         file_size - need_align);
+        if (!s) {
+            delete fhandle;
+            return s;
+        }
         fhandle->filePos = file_size - need_align;
         fhandle->flushedFilePos = file_size;
         fhandle->fsyncedFilePos = file_size;
-- 
2.43.0


From 49c7e7f3a50c1592020e386a29a53e518b770671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:10 +0000
Subject: [PATCH 11/94] fix: direct-I/O append after a failed one hit an
 assertion

A failed write left the buffer full with the refused data, so that the
next append had no room, and data reported as refused could be written.
---
 src/fileops_directio.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index 0f5400c..153d2b2 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -423,6 +423,8 @@ Status FileOpsDirectIO::append(FileHandle* fhandle,
                          "offset %zu, bytes %d",
                          phandle->pathname.c_str(), num_tries,
                          phandle->filePos, bufferSize);
+                // Not written: don't leave the buffer full.
+                phandle->bufPos -= slice;
                 return Status::FILE_WRITE_SIZE_MISMATCH;
             } else if (num_tries > 0) {
                 _log_warn(myLog,
-- 
2.43.0


From 38e8ef08c3be527d777c0e212cdbc8a52eaee619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:10 +0000
Subject: [PATCH 12/94] fix: direct-I/O flush near the end of a block

When less than 8 bytes were left in the last block of the buffer, the
padding needs one more block: the buffer has it, but an assertion did not
allow for it. And once data grew exactly up to the block boundary, that
block remained in the file without the padding flag, which a reader takes
for a damaged record.
---
 src/fileops_directio.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index 153d2b2..9e978af 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -38,6 +38,7 @@ public:
         , filePos(0)
         , flushedFilePos(0)
         , fsyncedFilePos(0)
+        , paddedFilePos(0)
         , bufPtr(_alignedBuf)
         , bufPos(0)
     {
@@ -67,6 +68,8 @@ public:
     size_t filePos;
     size_t flushedFilePos;
     size_t fsyncedFilePos;
+    // End of file, including the padding written by the last flush.
+    size_t paddedFilePos;
     void* bufPtr;
     uint8_t* bufCharPtr;
     size_t bufPos;
@@ -89,6 +92,16 @@ static FileHandleDirectIO* getHandle(FileHandle* fhandle) {
     return dynamic_cast<FileHandleDirectIO*>(fhandle);
 }
 
+// If the previous padding spans two blocks and data then grew exactly up to
+// the block boundary, the second block still has padding, but without the flag.
+static Status dropStalePadding(FileHandleDirectIO* phandle, size_t end_of_data) {
+    if (phandle->paddedFilePos > end_of_data) {
+        if (::ftruncate(phandle->fd, end_of_data)) return Status::ERROR;
+    }
+    phandle->paddedFilePos = 0;
+    return Status();
+}
+
 FileOpsDirectIO::FileOpsDirectIO(SimpleLogger* log,
                                  size_t buffer_size,
                                  size_t align_size)
@@ -461,7 +474,7 @@ Status FileOpsDirectIO::flush(FileHandle* fhandle) {
     FileHandleDirectIO* phandle = getHandle(fhandle);
     if (!phandle) return Status::NULL_FILEOPS_HANDLE;
     if (phandle->fd <= 0) return Status::INVALID_FILE_DESCRIPTOR;
-    if (0 == phandle->bufPos) return Status();
+    if (0 == phandle->bufPos) return dropStalePadding(phandle, phandle->filePos);
     // Avoid duplicate flush
     if (phandle->flushedFilePos >= phandle->filePos + phandle->bufPos) {
         return Status();
@@ -486,7 +499,8 @@ Status FileOpsDirectIO::flush(FileHandle* fhandle) {
                       0,
                       offset);
     }
-    assert(aligned_pos > 0 && aligned_pos <= bufferSize);
+    // One ALIGNMENT more for padding
+    assert(aligned_pos > 0 && aligned_pos <= bufferSize + alignSize);
 
     size_t num_tries = 0;
     size_t sleep_time_us = 1;
@@ -523,6 +537,12 @@ Status FileOpsDirectIO::flush(FileHandle* fhandle) {
     }
 
     phandle->flushedFilePos = phandle->filePos + phandle->bufPos;
+    if (need_align > 0) {
+        phandle->paddedFilePos = phandle->filePos + aligned_pos;
+    } else {
+        Status s;
+        EP(dropStalePadding(phandle, phandle->flushedFilePos));
+    }
     // Don't need to change buf&file position
     // Wait for next writes to make buffer eventually alignment
     return Status();
-- 
2.43.0


From e524246f504a2d1be0c6ceea6c1dcf3f28325bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:00 +0000
Subject: [PATCH 13/94] fix: direct-I/O read of the file tail failed while the
 file grew

A read of the unaligned tail asks for the whole block; when another
thread appended after the size was taken, it returned more bytes than
asked for, and was retried until the time-out and failed.
---
 src/fileops_directio.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index 9e978af..c29418d 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -142,13 +142,14 @@ Status FileOpsDirectIO::readInternal(const std::string &pathname,
     if (need_align > 0) {
         // This is the case that reading the tail of the file with un-aligned size
         // Extend the read size even it may be larger than file size
-        // The size of bytes returned should be exactly equal to nbyte
+        // The size of bytes returned should be exactly equal to nbyte,
+        // unless the file grew in the meantime
         read_size += (alignSize - need_align);
     }
 
     do {
         r = ::pread(fd, buf, read_size, offset);
-        if (r == (ssize_t) nbyte) break;
+        if (r >= (ssize_t) nbyte) break;
         int n = errno;
         num_tries++;
         _log_err(myLog,
@@ -158,8 +159,8 @@ Status FileOpsDirectIO::readInternal(const std::string &pathname,
                  nbyte, n, strerror(n), num_tries);
         Timer::sleepUs(sleep_time_us);
         sleep_time_us = std::min(sleep_time_us * 2, (size_t) MAX_SLEEP_US);
-    } while (r != (ssize_t) nbyte && ++num_tries < MAX_TRIES);
-    if (r != (ssize_t) nbyte) {
+    } while (r < (ssize_t) nbyte && ++num_tries < MAX_TRIES);
+    if (r < (ssize_t) nbyte) {
         _log_err(myLog,
                  "failed to read log file %s after %d retries, "
                  "offset %ld, bytes %zu",
-- 
2.43.0


From 187d3bcf19d507ed9b85e3bcda85135f9d39944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:00 +0000
Subject: [PATCH 14/94] fix: direct-I/O fsync was skipped after a reopen

open() took all existing data for synced, so fsync() on a reopened file
returned OK without syncing what the previous handle had written.
---
 src/fileops_directio.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index c29418d..a7a3e57 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -231,11 +231,13 @@ Status FileOpsDirectIO::open(FileHandle** fhandle_out,
     }
     auto file_size = static_cast<size_t>(file_size_tmp);
 
+    // Whoever wrote the existing data may not have synced it.
+    fhandle->fsyncedFilePos = 0;
+
     size_t need_align = file_size % alignSize;
     if (need_align == 0) {
         fhandle->filePos = file_size;
         fhandle->flushedFilePos = file_size;
-        fhandle->fsyncedFilePos = file_size;
         fhandle->bufPos = 0;
     } else {
         // Read the last un-aligned data
@@ -250,7 +252,6 @@ Status FileOpsDirectIO::open(FileHandle** fhandle_out,
         }
         fhandle->filePos = file_size - need_align;
         fhandle->flushedFilePos = file_size;
-        fhandle->fsyncedFilePos = file_size;
         fhandle->bufPos = need_align;
     }
 
-- 
2.43.0


From d259179f181af9cc12749e0da76dd5553b7557ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:00 +0000
Subject: [PATCH 15/94] fix: backup and restore hid failed truncations and
 syncs

Both reported success although the copy kept stale bytes at its end, or
was not on disk: a restored manifest could be lost by a power failure.
---
 src/internal_helper.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index 4254825..fb0a40e 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -298,9 +298,9 @@ Status BackupRestore::copyFile(FileOps* f_ops,
 
     TC( f_ops->pread(s_file, tmp_buf.data, tmp_buf.size, 0) );
     TC( f_ops->pwrite(d_file, tmp_buf.data, tmp_buf.size, 0) );
-    f_ops->ftruncate(d_file, file_size);
+    TC( f_ops->ftruncate(d_file, file_size) );
     if (call_fsync) {
-        f_ops->fsync(d_file);
+        TC( f_ops->fsync(d_file) );
     }
 
     f_ops->close(s_file);
@@ -350,9 +350,9 @@ Status BackupRestore::backup(FileOps* f_ops,
                            length - bytes_to_skip,
                            bytes_to_skip ) );
     }
-    f_ops->ftruncate(d_file, length);
+    TC( f_ops->ftruncate(d_file, length) );
     if (call_fsync) {
-        f_ops->fsync(d_file);
+        TC( f_ops->fsync(d_file) );
     }
     f_ops->close(d_file);
     delete d_file;
@@ -399,11 +399,11 @@ Status BackupRestore::backup(FileOps* f_ops,
                         bytes_to_skip ) );
     }
     if (file_size > length) {
-        f_ops->ftruncate(*file, length);
+        TC( f_ops->ftruncate(*file, length) );
     }
 
     if (call_fsync) {
-        f_ops->fsync(*file);
+        TC( f_ops->fsync(*file) );
     }
     return s;
    } catch (Status s) {
-- 
2.43.0


From 8ad03cfa443fb8697a139978cda9c0b7082f186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:00 +0000
Subject: [PATCH 16/94] fix: a backup written anew lacked its first part

If the backup file is gone, it is created again, but the bytes that the
previous one had in common with the new content were left out.
---
 src/internal_helper.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index fb0a40e..7b3d856 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -385,6 +385,8 @@ Status BackupRestore::backup(FileOps* f_ops,
             delete *file;
             *file = nullptr;
         }
+        // The part to skip is gone as well.
+        bytes_to_skip = 0;
     }
 
     if (!(*file)) {
-- 
2.43.0


From 947bd56183b971a86a9a583084d60147c4402722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:33 +0000
Subject: [PATCH 17/94] fix: direct-I/O fsync did not cover a truncation

Truncating synced data left nothing to sync by the positions alone, so a
power loss after fsync() could bring the dropped data back.
---
 src/fileops_directio.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index a7a3e57..bdb7812 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -38,6 +38,7 @@ public:
         , filePos(0)
         , flushedFilePos(0)
         , fsyncedFilePos(0)
+        , unsyncedTruncation(false)
         , paddedFilePos(0)
         , bufPtr(_alignedBuf)
         , bufPos(0)
@@ -68,6 +69,8 @@ public:
     size_t filePos;
     size_t flushedFilePos;
     size_t fsyncedFilePos;
+    // `true` if the file has been truncated since the last fsync.
+    bool unsyncedTruncation;
     // End of file, including the padding written by the last flush.
     size_t paddedFilePos;
     void* bufPtr;
@@ -555,7 +558,8 @@ Status FileOpsDirectIO::fsync(FileHandle* fhandle) {
     if (!phandle) return Status::NULL_FILEOPS_HANDLE;
     if (phandle->fd <= 0) return Status::INVALID_FILE_DESCRIPTOR;
     // Avoid duplicate fsync
-    if (phandle->fsyncedFilePos >= phandle->flushedFilePos) {
+    if (!phandle->unsyncedTruncation &&
+        phandle->fsyncedFilePos >= phandle->flushedFilePos) {
         return Status();
     }
 
@@ -568,6 +572,7 @@ Status FileOpsDirectIO::fsync(FileHandle* fhandle) {
         return Status::ERROR;
     }
     phandle->fsyncedFilePos = phandle->flushedFilePos;
+    phandle->unsyncedTruncation = false;
     return Status();
 }
 
@@ -602,6 +607,8 @@ Status FileOpsDirectIO::ftruncate(FileHandle* fhandle,
         return Status::ERROR;
     }
 
+    phandle->unsyncedTruncation = true;
+
     // Set the aligned write buffer
     if (aligned_length == length) {
         phandle->filePos = aligned_length;
-- 
2.43.0


From 645ecaff4e729e53f9fbb0f7e4c7596b63746807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:04 +0000
Subject: [PATCH 18/94] fix: skiplist_erase_node() trusted a stale top layer

A concurrent operation can leave the list's top layer below that of the
node to erase, and then the previous nodes above it were uninitialized.
---
 src/skiplist.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 657d4ef..766bfb7 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -751,7 +751,9 @@ erase_node_retry:
     __SLD_(size_t nh = 0);
     __SLD_(thread_local skiplist_node* history[1024]; (void)history);
 
+    // `slist->top_layer` may be temporarily lower than that of `node`.
     int cur_layer = slist->top_layer;
+    if (top_layer > cur_layer) cur_layer = top_layer;
     for (; cur_layer >= 0; --cur_layer) {
         do {
             __SLD_( history[nh++] = cur_node );
-- 
2.43.0


From 507b76be19ae756516fdf8b6214265f4d6afce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:55 +0000
Subject: [PATCH 19/94] fix: skiplist insert read a next node that could be
 freed already

The reference on the next node was dropped before its flags were read, so
a concurrent eraser could free the node in between.
---
 src/skiplist.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 766bfb7..24ebb9d 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -455,13 +455,14 @@ insert_retry:
                 cur_node = next_node;
                 ATM_FETCH_SUB(temp->ref_count, 1);
                 continue;
-            } else {
-                // otherwise: cur_node < node <= next_node
-                ATM_FETCH_SUB(next_node->ref_count, 1);
             }
+            // otherwise: cur_node < node <= next_node
+            // Note: `next_node` should be pinned until we are done with it,
+            //       otherwise other thread can remove and free it.
 
             if (no_dup && cmp == 0) {
                 // Duplicate key is not allowed.
+                ATM_FETCH_SUB(next_node->ref_count, 1);
                 _sl_clr_flags(prevs, cur_layer+1, top_layer);
                 ATM_FETCH_SUB(cur_node->ref_count, 1);
                 _sl_write_unlock_an(node);
@@ -502,6 +503,7 @@ insert_retry:
                 if (error_code != 0) {
                     __SLD_RT_INS(error_code, node, top_layer, cur_layer);
                     _sl_clr_flags(prevs, locked_layer, top_layer);
+                    ATM_FETCH_SUB(next_node->ref_count, 1);
                     ATM_FETCH_SUB(cur_node->ref_count, 1);
                     YIELD();
                     goto insert_retry;
@@ -519,11 +521,13 @@ insert_retry:
                     // clear including the current layer
                     // as we already set modification flag above.
                     _sl_clr_flags(prevs, cur_layer, top_layer);
+                    ATM_FETCH_SUB(next_node->ref_count, 1);
                     ATM_FETCH_SUB(cur_node->ref_count, 1);
                     YIELD();
                     goto insert_retry;
                 }
             }
+            ATM_FETCH_SUB(next_node->ref_count, 1);
 
             if (cur_layer) {
                 // non-bottom layer => go down
-- 
2.43.0


From 402919024cdfc1514bd433c86a07bc2fd27289a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:55 +0000
Subject: [PATCH 20/94] fix: direct-I/O fsync after a reopen did not cover a
 truncation

The handle that truncated the file may be gone.
---
 src/fileops_directio.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index bdb7812..bd5a01d 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -69,7 +69,7 @@ public:
     size_t filePos;
     size_t flushedFilePos;
     size_t fsyncedFilePos;
-    // `true` if the file has been truncated since the last fsync.
+    // `true` if the file may have been truncated since the last fsync.
     bool unsyncedTruncation;
     // End of file, including the padding written by the last flush.
     size_t paddedFilePos;
@@ -234,8 +234,9 @@ Status FileOpsDirectIO::open(FileHandle** fhandle_out,
     }
     auto file_size = static_cast<size_t>(file_size_tmp);
 
-    // Whoever wrote the existing data may not have synced it.
+    // Whoever wrote or truncated the existing data may not have synced it.
     fhandle->fsyncedFilePos = 0;
+    fhandle->unsyncedTruncation = true;
 
     size_t need_align = file_size % alignSize;
     if (need_align == 0) {
-- 
2.43.0


From c53cb3c9227436307b204c484d892ef5cd913b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:10 +0000
Subject: [PATCH 21/94] fix: skiplist used relaxed ordering to publish and
 reclaim nodes

A reader on a weakly-ordered machine, or after compiler reordering, could
see a node before its content, or free it before others' last accesses.
---
 src/skiplist.cc | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 24ebb9d..a4a8823 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -54,13 +54,17 @@ limitations under the License.
 
 #if defined(_STL_ATOMIC) && defined(__cplusplus)
     // C++ (STL) atomic operations
-    #define MOR                         std::memory_order_relaxed
-    #define ATM_GET(var)                (var).load(MOR)
-    #define ATM_LOAD(var, val)          (val) = (var).load(MOR)
-    #define ATM_STORE(var, val)         (var).store((val), MOR)
+    // Note: nodes are published to and reclaimed from other threads by these
+    //       operations, so that acquire/release ordering is necessary.
+    #define MOR_L                       std::memory_order_acquire
+    #define MOR_S                       std::memory_order_release
+    #define MOR_RMW                     std::memory_order_acq_rel
+    #define ATM_GET(var)                (var).load(MOR_L)
+    #define ATM_LOAD(var, val)          (val) = (var).load(MOR_L)
+    #define ATM_STORE(var, val)         (var).store((val), MOR_S)
     #define ATM_CAS(var, exp, val)      (var).compare_exchange_weak((exp), (val))
-    #define ATM_FETCH_ADD(var, val)     (var).fetch_add(val, MOR)
-    #define ATM_FETCH_SUB(var, val)     (var).fetch_sub(val, MOR)
+    #define ATM_FETCH_ADD(var, val)     (var).fetch_add(val, MOR_RMW)
+    #define ATM_FETCH_SUB(var, val)     (var).fetch_sub(val, MOR_RMW)
     #define ALLOC_(type, var, count)    (var) = new type[count]
     #define FREE_(var)                  delete[] (var)
 #else
@@ -79,17 +83,19 @@ limitations under the License.
         #define thread_local /*_Thread_local*/
     #endif
 
-    #define MOR                         __ATOMIC_RELAXED
+    #define MOR_L                       __ATOMIC_ACQUIRE
+    #define MOR_S                       __ATOMIC_RELEASE
+    #define MOR_RMW                     __ATOMIC_ACQ_REL
     #define ATM_GET(var)                (var)
-    #define ATM_LOAD(var, val)          __atomic_load(&(var), reinterpret_cast<decltype(&(var))>(&(val)), MOR)
-    #define ATM_STORE(var, val)         __atomic_store(&(var), reinterpret_cast<decltype(&(var))>(&(val)), MOR)
+    #define ATM_LOAD(var, val)          __atomic_load(&(var), reinterpret_cast<decltype(&(var))>(&(val)), MOR_L)
+    #define ATM_STORE(var, val)         __atomic_store(&(var), reinterpret_cast<decltype(&(var))>(&(val)), MOR_S)
     #define ATM_CAS(var, exp, val)      \
             __atomic_compare_exchange(&(var), \
                 reinterpret_cast<decltype(&(var))>(&(exp)), \
                 reinterpret_cast<decltype(&(var))>(&(val)), \
-                1, MOR, MOR)
-    #define ATM_FETCH_ADD(var, val)     __atomic_fetch_add(&(var), (val), MOR)
-    #define ATM_FETCH_SUB(var, val)     __atomic_fetch_sub(&(var), (val), MOR)
+                1, MOR_RMW, MOR_L)
+    #define ATM_FETCH_ADD(var, val)     __atomic_fetch_add(&(var), (val), MOR_RMW)
+    #define ATM_FETCH_SUB(var, val)     __atomic_fetch_sub(&(var), (val), MOR_RMW)
     #define ALLOC_(type, var, count)    \
             (var) = (type*)calloc(count, sizeof(type))
     #define FREE_(var)                  free(var)
-- 
2.43.0


From f4bb964acf6bdb07b85e9c96f2c1d7a2a86aed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:32 +0000
Subject: [PATCH 22/94] fix: skiplist flags and layer counters were read
 without atomics

These plain reads race with the atomic updates of other threads.
---
 src/skiplist.cc | 51 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index a4a8823..ed8c83f 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -401,6 +401,18 @@ static inline void _sl_clr_flags(skiplist_node** node_arr,
     }
 }
 
+static inline void _sl_update_top_layer(skiplist_raw *slist) {
+    for (int ii=slist->max_layer-1; ii>=0; --ii) {
+        uint32_t num_entries = 0;
+        ATM_LOAD(slist->layer_entries[ii], num_entries);
+        if (num_entries > 0) {
+            uint8_t top_layer = ii;
+            ATM_STORE(slist->top_layer, top_layer);
+            break;
+        }
+    }
+}
+
 static inline bool _sl_valid_prev_next(skiplist_node *prev,
                                        skiplist_node *next) {
     return _sl_valid_node(prev) && _sl_valid_node(next);
@@ -439,7 +451,9 @@ insert_retry:
     __SLD_(size_t nh = 0);
     __SLD_(thread_local skiplist_node* history[1024]; (void)history);
 
-    int sl_top_layer = slist->top_layer;
+    uint8_t list_top_layer = 0;
+    ATM_LOAD(slist->top_layer, list_top_layer);
+    int sl_top_layer = list_top_layer;
     if (top_layer > sl_top_layer) sl_top_layer = top_layer;
     for (cur_layer = sl_top_layer; cur_layer >= 0; --cur_layer) {
         do {
@@ -568,12 +582,7 @@ insert_retry:
 
             ATM_FETCH_ADD(slist->num_entries, 1);
             ATM_FETCH_ADD(slist->layer_entries[node->top_layer], 1);
-            for (int ii=slist->max_layer-1; ii>=0; --ii) {
-                if (slist->layer_entries[ii] > 0) {
-                    slist->top_layer = ii;
-                    break;
-                }
-            }
+            _sl_update_top_layer(slist);
 
             // modification is done for all layers
             _sl_clr_flags(prevs, 0, top_layer);
@@ -627,7 +636,8 @@ find_retry:
     __SLD_(size_t nh = 0);
     __SLD_(thread_local skiplist_node* history[1024]; (void)history);
 
-    uint8_t sl_top_layer = slist->top_layer;
+    uint8_t sl_top_layer = 0;
+    ATM_LOAD(slist->top_layer, sl_top_layer);
     for (cur_layer = sl_top_layer; cur_layer >= 0; --cur_layer) {
         do {
             __SLD_(history[nh++] = cur_node);
@@ -762,7 +772,9 @@ erase_node_retry:
     __SLD_(thread_local skiplist_node* history[1024]; (void)history);
 
     // `slist->top_layer` may be temporarily lower than that of `node`.
-    int cur_layer = slist->top_layer;
+    uint8_t list_top_layer = 0;
+    ATM_LOAD(slist->top_layer, list_top_layer);
+    int cur_layer = list_top_layer;
     if (top_layer > cur_layer) cur_layer = top_layer;
     for (; cur_layer >= 0; --cur_layer) {
         do {
@@ -889,12 +901,7 @@ erase_node_retry:
 
     ATM_FETCH_SUB(slist->num_entries, 1);
     ATM_FETCH_SUB(slist->layer_entries[node->top_layer], 1);
-    for (int ii=slist->max_layer-1; ii>=0; --ii) {
-        if (slist->layer_entries[ii] > 0) {
-            slist->top_layer = ii;
-            break;
-        }
-    }
+    _sl_update_top_layer(slist);
 
     // modification is done for all layers
     _sl_clr_flags(prevs, 0, top_layer);
@@ -942,9 +949,17 @@ int skiplist_is_valid_node(skiplist_node* node) {
 }
 
 int skiplist_is_safe_to_free(skiplist_node* node) {
-    if (node->accessing_next) return 0;
-    if (node->being_modified) return 0;
-    if (!node->removed) return 0;
+    uint32_t accessing_next = 0;
+    ATM_LOAD(node->accessing_next, accessing_next);
+    if (accessing_next) return 0;
+
+    bool being_modified = false;
+    ATM_LOAD(node->being_modified, being_modified);
+    if (being_modified) return 0;
+
+    bool removed = false;
+    ATM_LOAD(node->removed, removed);
+    if (!removed) return 0;
 
     uint16_t ref_count = 0;
     ATM_LOAD(node->ref_count, ref_count);
-- 
2.43.0


From f3113af8cf36cf6ec28e478192e644ce481e76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:54 +0000
Subject: [PATCH 23/94] fix: thread pool shutdown did not wait for busy threads

A busy thread went on using the freed pool, and a task assigned right
before the shutdown was neither executed nor cancelled.
---
 src/simple_thread_pool.h | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/simple_thread_pool.h b/src/simple_thread_pool.h
index f5a3f9c..2fbc787 100644
--- a/src/simple_thread_pool.h
+++ b/src/simple_thread_pool.h
@@ -310,9 +310,13 @@ public:
         if (tHandle && tHandle->joinable()) {
             tHandle->join();
         }
-        myself.reset();
         tHandle.reset();
-        assignedTask.reset();
+        if (assignedTask) {
+            // Assigned, but the pool has been stopped before executing it.
+            assignedTask->cancel();
+            assignedTask.reset();
+        }
+        myself.reset();
     }
 
     void loop() {
@@ -411,6 +415,7 @@ public:
         {   std::lock_guard<std::mutex> l(idleThreadsLock);
             for (size_t ii = 0; ii < myOpt.numInitialThreads; ++ii) {
                 std::shared_ptr<ThreadHandle> t_handle( new ThreadHandle(this, ii) );
+                allThreads.push_back(t_handle);
                 idleThreads.push_back(t_handle);
                 t_handle->init(t_handle);
             }
@@ -428,16 +433,15 @@ public:
         }
         loopThread.reset();
 
-        do {
-            std::shared_ptr<ThreadHandle> t_handle_to_free = nullptr;
-            {   std::lock_guard<std::mutex> l(idleThreadsLock);
-                auto entry = idleThreads.begin();
-                if (entry == idleThreads.end()) break;
-                t_handle_to_free = *entry;
-                idleThreads.erase(entry);
-            }
-            t_handle_to_free->shutdown();
-        } while (true);
+        // Should wait for busy threads as well as idle ones.
+        std::list< std::shared_ptr<ThreadHandle> > threads_to_free;
+        {   std::lock_guard<std::mutex> l(idleThreadsLock);
+            threads_to_free.swap(allThreads);
+        }
+        for (auto& entry: threads_to_free) entry->shutdown();
+        {   std::lock_guard<std::mutex> l(idleThreadsLock);
+            idleThreads.clear();
+        }
 
         std::list< std::shared_ptr<TaskHandle> > tasks_to_cancel;
         {   std::lock_guard<std::mutex> l(timedTasksLock);
@@ -625,6 +629,9 @@ private:
     std::list< std::shared_ptr<TaskHandle> > normalTasks;
     std::mutex normalTasksLock;
 
+    // List of all threads, both idle and busy.
+    std::list< std::shared_ptr<ThreadHandle> > allThreads;
+
     // List of idle threads.
     std::list< std::shared_ptr<ThreadHandle> > idleThreads;
     std::mutex idleThreadsLock;
-- 
2.43.0


From e7a50584c6658a4ffe2a5cde8a49e233b0732836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:20 +0000
Subject: [PATCH 24/94] fix: thread pool skipped a timer task next to a
 cancelled one

The iterator was advanced twice, beyond the end of the list if the
cancelled task was the last one.
---
 src/simple_thread_pool.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/simple_thread_pool.h b/src/simple_thread_pool.h
index 2fbc787..3f183a6 100644
--- a/src/simple_thread_pool.h
+++ b/src/simple_thread_pool.h
@@ -562,10 +562,11 @@ private:
                             task_to_run->reschedule();
                         }
 
-                        if (task_to_run->isDone()) task_to_run.reset();
-                        else break;
-                    }
-                    if (!task_to_run) {
+                        if (!task_to_run->isDone()) break;
+                        // Already done, it was just erased
+                        // (`entry` points to the next one).
+                        task_to_run.reset();
+                    } else {
                         entry++;
                         // Adjust next sleep time.
                         next_sleep_us = std::min(next_sleep_us, remaining_us);
-- 
2.43.0


From bcf415e74aa27c5b237df2c5b0b245b3e92761f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:55 +0000
Subject: [PATCH 25/94] fix: thread pool delayed due timer tasks by up to a
 second

After picking a timer task the coordinator slept without looking for other
tasks to fire.
---
 src/simple_thread_pool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simple_thread_pool.h b/src/simple_thread_pool.h
index 3f183a6..1bfa574 100644
--- a/src/simple_thread_pool.h
+++ b/src/simple_thread_pool.h
@@ -575,7 +575,11 @@ private:
                 }
             }
 
-            if (!task_to_run) {
+            if (task_to_run) {
+                // There may be other task(s) to fire. Do not sleep.
+                next_sleep_us = 0;
+
+            } else {
                 // If there is no timer task to be fired for now,
                 // pick a normal task.
                 std::lock_guard<std::mutex> l(normalTasksLock);
-- 
2.43.0


From 0f836345929271a30386f6d10a37d2f9e765b91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:13 +0000
Subject: [PATCH 26/94] fix: assigning ashared_ptr to itself or crosswise
 deadlocked

The source was locked while holding the destination's lock.
---
 src/ashared_ptr.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ashared_ptr.h b/src/ashared_ptr.h
index 40ae0db..92b344a 100644
--- a/src/ashared_ptr.h
+++ b/src/ashared_ptr.h
@@ -61,11 +61,14 @@ public:
     }
 
     void operator=(const ashared_ptr<T>& src) {
-        std::lock_guard<std::mutex> l(lock);
-
+        // Note: `src` locks itself, so should be done before grabbing our lock.
+        //       Otherwise, `a = a`, or `a = b` along with `b = a` by other
+        //       thread, will cause a deadlock.
         ashared_ptr<T>& writable_src = const_cast<ashared_ptr<T>&>(src);
         PtrWrapper<T>* src_object = writable_src.shareCurObject();
 
+        std::lock_guard<std::mutex> l(lock);
+
         // Replace object.
         PtrWrapper<T>* old = object.load(MO);
         object.store(src_object, MO);
-- 
2.43.0


From 6e18ad40aa9c4e7efac8acdb2bd88e56c2b0db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:13 +0000
Subject: [PATCH 27/94] fix: ashared_ptr counted references with relaxed
 ordering

The last owner could destroy the object before other owners' accesses.
---
 src/ashared_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ashared_ptr.h b/src/ashared_ptr.h
index 92b344a..67467b0 100644
--- a/src/ashared_ptr.h
+++ b/src/ashared_ptr.h
@@ -150,7 +150,7 @@ private:
         }
     }
 
-    const static std::memory_order MO = std::memory_order_relaxed;
+    const static std::memory_order MO = std::memory_order_seq_cst;
 
     std::atomic<PtrWrapper<T>*> object;
     std::mutex lock;
-- 
2.43.0


From 17b37c62e9ee6eaee77143b291364aa74bf3f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:13 +0000
Subject: [PATCH 28/94] fix: latency collector read a map that could be freed
 already

getNumItems() did not share the map before using it.
---
 src/latency_collector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/latency_collector.h b/src/latency_collector.h
index 5759ea3..7bf0ef4 100644
--- a/src/latency_collector.h
+++ b/src/latency_collector.h
@@ -256,7 +256,8 @@ public:
     }
 
     size_t getNumItems() const {
-        return latestMap->getSize();
+        MapWrapperSP cur_map = latestMap;
+        return cur_map->getSize();
     }
 
     void addStatName(const std::string& lat_name) {
-- 
2.43.0


From f8d0e5213c2be0e4d9cff381951160c0169537d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:13 +0000
Subject: [PATCH 29/94] fix: latency tracker wrote past its stack name buffer

The terminating null was not counted.
---
 src/latency_collector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/latency_collector.h b/src/latency_collector.h
index 7bf0ef4..9590f53 100644
--- a/src/latency_collector.h
+++ b/src/latency_collector.h
@@ -408,7 +408,7 @@ struct ThreadTrackerItem {
 
     void pushStackName(const std::string& cur_stack_name) {
         size_t cur_stack_name_len = cur_stack_name.size();
-        while (lenName + 4 + cur_stack_name_len > aggrStackNameRaw.size()) {
+        while (lenName + 4 + cur_stack_name_len >= aggrStackNameRaw.size()) {
             // Double the string buffer.
             aggrStackNameRaw.resize(aggrStackNameRaw.size() * 2);
         }
-- 
2.43.0


From bd6028ef33eec51ce7d0b544d4e42904bd470d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:13 +0000
Subject: [PATCH 30/94] fix: decrementing a histogram iterator jumped to the
 end

---
 src/histogram.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/histogram.h b/src/histogram.h
index 927ba5a..94be9c2 100644
--- a/src/histogram.h
+++ b/src/histogram.h
@@ -54,7 +54,7 @@ public:
 
     // --A
     HistItr& operator--() {
-        if (idx || idx == maxBins) {
+        if (!idx || idx == maxBins) {
             // end()
             idx = maxBins;
         } else {
@@ -65,7 +65,7 @@ public:
 
     // A--
     HistItr operator--(int) {
-        if (idx || idx == maxBins) {
+        if (!idx || idx == maxBins) {
             // end()
             idx = maxBins;
         } else {
-- 
2.43.0


From 4e0157e6b39a48620fa83e989d95fe15fcb76720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:13 +0000
Subject: [PATCH 31/94] fix: dumping latencies crashed while an outer function
 was running

The outer function has no item yet, and the dump went out of bounds.
---
 src/latency_dump.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/latency_dump.h b/src/latency_dump.h
index 0f614c3..ea91c43 100644
--- a/src/latency_dump.h
+++ b/src/latency_dump.h
@@ -149,14 +149,22 @@ public:
                 return dump(map_w, opt);
             }
 
-            DumpItem* parent = last_ptr[level-1];
-            assert(parent); // Must exist
-
-            DumpItemP dump_item(new DumpItem(level, item, parent->itself));
             if (level >= last_ptr.size()) {
                 last_ptr.resize(level*2);
             }
+
+            // The direct parent does not exist if its first call is
+            // still running: find the closest ancestor.
+            size_t parent_level = level-1;
+            while (!last_ptr[parent_level]) parent_level--;
+            DumpItem* parent = last_ptr[parent_level];
+
+            DumpItemP dump_item(new DumpItem(level, item, parent->itself));
             last_ptr[level] = dump_item.get();
+            // The others below belong to previous item.
+            for (size_t ii = level+1; ii < last_ptr.size(); ++ii) {
+                last_ptr[ii] = nullptr;
+            }
             parent->child.push_back(std::move(dump_item));
 
             size_t actual_name_len = getActualFunction(item_name).size();
-- 
2.43.0


From d9429efbbd0948d0b646b1186b5d231c352907ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:05 +0000
Subject: [PATCH 32/94] fix: log callback got a length beyond the truncated
 message

---
 src/logger.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger.cc b/src/logger.cc
index d0c241d..b7dc68a 100644
--- a/src/logger.cc
+++ b/src/logger.cc
@@ -1115,6 +1115,8 @@ void SimpleLogger::put(int level,
         va_start(args, format);
         _vsnprintf(cb_msg, cb_avail_len, cb_cur_len, cb_msg_len, format, args);
         va_end(args);
+        // The message may have been truncated.
+        cb_msg_len = std::min(cb_msg_len, (size_t)MSG_SIZE - 1);
 
         // Call global callback first.
         bool ret = true;
-- 
2.43.0


From c6b459464e4d4c1986e50c03270c9dafb3fabd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:05 +0000
Subject: [PATCH 33/94] fix: a log message was dropped if two threads met at
 one buffer element

---
 src/logger.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/logger.cc b/src/logger.cc
index b7dc68a..e9d794b 100644
--- a/src/logger.cc
+++ b/src/logger.cc
@@ -1194,16 +1194,19 @@ void SimpleLogger::put(int level,
         cursor_val = (cursor_exp + 1) % num;
         ll = &logs[cursor_exp];
     } while ( !cursor.compare_exchange_strong(cursor_exp, cursor_val, MOR) );
-    while ( !ll->available() ) std::this_thread::yield();
+    do {
+        while ( !ll->available() ) std::this_thread::yield();
 
-    if (ll->needToFlush()) {
-        // Allow only one thread to flush.
-        if (!flush(cursor_exp)) {
-            // Other threads: wait.
-            while (ll->needToFlush()) std::this_thread::yield();
+        if (ll->needToFlush()) {
+            // Allow only one thread to flush.
+            if (!flush(cursor_exp)) {
+                // Other threads: wait.
+                while (ll->needToFlush()) std::this_thread::yield();
+            }
         }
-    }
-    ll->write(cur_len, msg);
+        // Another thread that wrapped around the ring buffer may have
+        // taken the same element in the meantime, try again.
+    } while (ll->write(cur_len, msg) != 0);
 
     if (level > curDispLevel) return;
 
-- 
2.43.0


From 3bde7e40e5979d4526abfc814aa68dbf53b83691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:08 +0000
Subject: [PATCH 34/94] fix: logger stop was skipped if it met a file rotation

---
 src/logger.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/logger.cc b/src/logger.cc
index e9d794b..7978e6a 100644
--- a/src/logger.cc
+++ b/src/logger.cc
@@ -1000,7 +1000,12 @@ int SimpleLogger::start() {
 }
 
 int SimpleLogger::stop() {
-    if (fs.is_open()) {
+    bool is_open = false;
+    {   // The background flusher closes and re-opens the file on rotation.
+        std::lock_guard<std::mutex> l(flushingLogs);
+        is_open = fs.is_open();
+    }
+    if (is_open) {
         SimpleLoggerMgr* mgr = SimpleLoggerMgr::getWithoutInit();
         if (mgr) {
             SimpleLogger* ll = this;
-- 
2.43.0


From 9cf71e16e8a1dff6331253eba92eb0aef03a50b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:20 +0000
Subject: [PATCH 35/94] fix: destroying a worker with waiting did not wake it
 up

---
 src/worker_mgr.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker_mgr.cc b/src/worker_mgr.cc
index 4169deb..0019ca5 100644
--- a/src/worker_mgr.cc
+++ b/src/worker_mgr.cc
@@ -110,6 +110,8 @@ void WorkerBase::destroy(const DestroyOptions& options) {
     status = TERMINATING;
     if (handle.joinable()) {
         if (options.wait) {
+            // Wake it up, otherwise it will sleep until timeout.
+            ea.invoke();
             handle.join();
         } else {
             ea.invoke();
-- 
2.43.0


From 73f2ef552e23fda6f010206c1288f02aae78c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:20 +0000
Subject: [PATCH 36/94] fix: worker manager hung on a worker without a thread

---
 src/worker_mgr.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/worker_mgr.cc b/src/worker_mgr.cc
index 0019ca5..b65b8ab 100644
--- a/src/worker_mgr.cc
+++ b/src/worker_mgr.cc
@@ -116,6 +116,9 @@ void WorkerBase::destroy(const DestroyOptions& options) {
         } else {
             ea.invoke();
         }
+    } else {
+        // There is no thread that will change the status.
+        status = NO_INSTANCE;
     }
 }
 
-- 
2.43.0


From bf76cca3e70a09ec8a992e33a64f5513916c2417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:06:51 +0000
Subject: [PATCH 37/94] fix: snapshot of a checkpoint whose log files are gone
 had no log list

---
 src/log_mgr.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index b881730..3d50b4e 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -404,8 +404,13 @@ Status LogMgr::openSnapshot(DB* snap_handle,
     }
 
     // Get log file numbers.
-    EP( mani->getMinLogFileNum(l_num_min) );
-    EP( mani->getLogFileNumBySeq(checkpoint, l_num_max) );
+    s = mani->getMinLogFileNum(l_num_min);
+    if (s) s = mani->getLogFileNumBySeq(checkpoint, l_num_max);
+    if (!s) {
+        // The log files of the checkpoint are already flushed and removed,
+        // all records of the snapshot are in tables. Let the list empty.
+        break;
+    }
 
     bool log_store_mode = getDbConfig()->logSectionOnly;
     bool retry_init = false;
-- 
2.43.0


From 793e19290ed0a16d05c8552ec77063c8360efd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:06:51 +0000
Subject: [PATCH 38/94] fix: retried snapshot opening kept log files it had
 released

---
 src/log_mgr.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 3d50b4e..19fdd4b 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -441,6 +441,7 @@ Status LogMgr::openSnapshot(DB* snap_handle,
                 }
             }
 
+            l_list->clear();
             retry_init = true;
             break;
         }
-- 
2.43.0


From 8a2406b28df384b8d7f985a1d126ab6ab00f1f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:11:50 +0000
Subject: [PATCH 39/94] fix: bloom filter of a table hid the tombstones in it

---
 src/table_file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 4742da0..1920a81 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -919,8 +919,10 @@ Status TableFile::setSingle(uint32_t key_hash_val,
 
     offset_out = doc.offset;
 
-    if (rec.isIns()) {
+    if (!deletion_executed) {
         // Set bloom filter if exists.
+        // NOTE: Tombstones should be visible as well. Otherwise, point
+        //       queries skip them and return older data in lower levels.
         if (bfByKey) {
             uint64_t hash_pair[2];
             get_hash_pair(db_config, rec.kv.key, false, hash_pair);
-- 
2.43.0


From b0c524b6f2ab529f4ae2f6fdcad7c7127cd18cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:13:59 +0000
Subject: [PATCH 40/94] fix: flush up to a sequence number could drop unsynced
 or later logs

---
 src/log_mgr.cc | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 19fdd4b..d5bb696 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1449,9 +1449,28 @@ Status LogMgr::flush(const FlushOptions& options,
 
     } else {
         // Not all logs, need to adjust `ln_to`.
-        seq_num_local = seq_num;
         // If in purge only mode, don't need to load mem table.
-        mani->getLogFileNumBySeq(seq_num_local, ln_to, options.purgeOnly);
+        uint64_t ln_by_seq = NOT_INITIALIZED;
+        Status ls = mani->getLogFileNumBySeq( seq_num_local, ln_by_seq,
+                                              options.purgeOnly );
+        if (ls) {
+            // WARNING:
+            //   Should not go beyond the last synced log (or the number of
+            //   files limit). Otherwise, unsynced logs will be removed
+            //   without being flushed.
+            ln_to = options.purgeOnly ? ln_by_seq : std::min(ln_to, ln_by_seq);
+        } else {
+            // The sequence number does not belong to any log file (gap, or
+            // bigger than the last one). Should not remove log files whose
+            // records are beyond the given sequence number.
+            while (ln_to > ln_from) {
+                LogFileInfoGuard ll(mani->getLogFileInfoP(ln_to, true));
+                if ( !ll.empty() &&
+                     valid_number(ll->file->getMinSeqNum()) &&
+                     ll->file->getMinSeqNum() <= seq_num_local ) break;
+                ln_to--;
+            }
+        }
     }
     _log_debug(myLog, "Given seq upto %s, actual seq upto %ld",
                _seq_str(seq_num).c_str(), seq_num_local);
@@ -1459,7 +1478,9 @@ Status LogMgr::flush(const FlushOptions& options,
     {   // Compare given seq with the last flushed seq.
         LogFileInfoGuard ll(mani->getLogFileInfoP(ln_from, true));
         uint64_t last_flushed_seq = ll->file->getFlushedSeqNum();
-        if (valid_number(last_flushed_seq) && last_flushed_seq >= seq_num) {
+        uint64_t seq_limit = seq_num;
+        if (seq_barrier && seq_barrier < seq_limit) seq_limit = seq_barrier;
+        if (valid_number(last_flushed_seq) && last_flushed_seq >= seq_limit) {
             // Already flushed. Do nothing.
             return Status::ALREADY_FLUSHED;
         }
@@ -1549,7 +1570,7 @@ Status LogMgr::flush(const FlushOptions& options,
               "log from %lu to %lu",
               _seq_str(seq_num).c_str(), seq_num_local, ln_from, ln_to);
 
-    if (options.beyondLastSync) {
+    if (options.beyondLastSync || options.purgeOnly) {
         // WARNING:
         //   Update last synced log only if it is beyond the last sync.
         //   Due to `FlushOptions::numFilesLimit`, `ln_to` could be
-- 
2.43.0


From 250307bf611218f319d29267fdba97385701c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:16:25 +0000
Subject: [PATCH 41/94] fix: tables were ordered by bytes even with a custom
 comparator

---
 src/table_compaction.cc | 26 ++++++++++++++++++++------
 src/table_file.cc       |  4 ++--
 src/table_manifest.cc   | 23 ++++++++++++++++-------
 src/table_manifest.h    |  8 ++------
 src/table_mgr.cc        |  9 +++++++++
 src/table_mgr.h         | 11 +++++------
 src/table_split.cc      |  6 +++++-
 7 files changed, 59 insertions(+), 28 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 3f16ab5..519d0a2 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -128,7 +128,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
 
     uint64_t acc_size = 0;
     uint64_t acc_records = 0;
-    if ( !min_table || min_key_victim < min_table->minKey ) {
+    if ( !min_table || cmpKeys(min_key_victim, min_table->minKey) < 0 ) {
         // Should create a new table for min key.
         cur_group = new RecGroupItr(SizedBuf(), 0, nullptr);
         new_tables.push_back(cur_group);
@@ -140,7 +140,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
         new_tables.push_back(cur_group);
         while (t_itr != tables.end()) {
             TableInfo* tt = *t_itr;
-            if (tt->minKey <= min_key_victim) {
+            if (cmpKeys(tt->minKey, min_key_victim) <= 0) {
                 cur_group->table = tt;
             } else {
                 break;
@@ -230,7 +230,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
         uint64_t cur_index = offsets.size() - 1;
 
         if ( next_table &&
-             cur_rec.kv.key >= next_table->minKey ) {
+             cmpKeys(cur_rec.kv.key, next_table->minKey) >= 0 ) {
             // New table.
             cur_group = new RecGroupItr( next_table->minKey,
                                          cur_index,
@@ -242,7 +242,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             // Skip tables whose range is not overlapping.
             while (t_itr != tables.end()) {
                 TableInfo* tt = *t_itr;
-                if (tt->minKey <= cur_rec.kv.key) {
+                if (cmpKeys(tt->minKey, cur_rec.kv.key) <= 0) {
                     cur_group->table = tt;
                 } else {
                     break;
@@ -279,7 +279,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             // move to a new table that is not in `tables`.
             //
             // BUT, ONLY WHEN THE KEY IS BIGGER THAN THE LAST TABLE'S MAX KEY.
-            if (cur_rec.kv.key > max_key_table) {
+            if (cmpKeys(cur_rec.kv.key, max_key_table) > 0) {
                 _log_info( myLog, "rec key %s is greater than max table key %s, "
                            "urgent split at level %zu, acc size %zu, "
                            "acc records %zu, limit %zu",
@@ -336,6 +336,16 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
         GcFunc gc{[&](){ if (need_to_free) cur_rec.free(); }};
         cur_rec.kv.key = params.key;
 
+        if (db_config->cmpFunc) {
+            // Custom comparison is not applicable to a part of the key,
+            // should read the whole record.
+            local_victim->file->getByOffset(nullptr, params.offset, cur_rec);
+            value_size = cur_rec.kv.value.size;
+            need_to_free = true;
+            update_next_table_info(cur_rec, params.offset, value_size);
+            return TableFile::IndexTraversalDecision::NEXT;
+        }
+
         // Remove trailing NULL chars,
         // as it may contain padding bytes at the end.
         // `cur_rec.kv.key.size` should be non-zero.
@@ -497,7 +507,11 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
         //   Otherwise, if there is a point query in the middle,
         //   it may go to wrong (newly created) table which
         //   causes false "key not found".
-        results.sort( LsmFlushResult::cmp );
+        results.sort( [this]( const LsmFlushResult& ll,
+                              const LsmFlushResult& rr ) -> bool {
+            // Descending `minKey` order.
+            return cmpKeys(ll.minKey, rr.minKey) > 0;
+        } );
         for (LsmFlushResult& rr: results) {
             TC( mani->addTableFile( level + 1, 0, rr.minKey, rr.tFile ) );
             rr.tFile = nullptr;
diff --git a/src/table_file.cc b/src/table_file.cc
index 1920a81..94a8030 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -968,9 +968,9 @@ Status TableFile::setBatch(std::list<Record*>& batch,
         // If range is given, check range:
         //  [min_key, min_key_next_table)
         if ( !min_key.empty() &&
-             rec->kv.key < min_key) continue;
+             tableMgr->cmpKeys(rec->kv.key, min_key) < 0 ) continue;
         if ( !min_key_next_table.empty() &&
-             rec->kv.key >= min_key_next_table ) continue;
+             tableMgr->cmpKeys(rec->kv.key, min_key_next_table) >= 0 ) continue;
 
         // Append all checkpoints that
         //  `record[n-1] seqnum <= chk < record[n] seqnum`
diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index e52cc1b..5d96a0c 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -28,12 +28,21 @@ static uint8_t TABMANI_FOOTER[8] = {0xaa, 0xbb, 0xcc, 0xdd, 0xee, 0xff, 0xab, 0x
 static uint32_t TABMANI_VERSION = 0x1;
 
 
+int TableInfo::cmp(skiplist_node *a, skiplist_node *b, void *aux) {
+    TableInfo *aa, *bb;
+    aa = _get_entry(a, TableInfo, snode);
+    bb = _get_entry(b, TableInfo, snode);
+    return static_cast<const TableMgr*>(aux)->cmpKeys(aa->minKey, bb->minKey);
+}
+
+
 struct TableManifest::LevelInfo {
-    LevelInfo()
+    LevelInfo(const TableMgr* table_mgr)
         : numTables(0)
     {
         tables = new skiplist_raw();
         skiplist_init(tables, TableInfo::cmp);
+        tables->aux = const_cast<TableMgr*>(table_mgr);
     }
 
     ~LevelInfo() {
@@ -104,7 +113,7 @@ Status TableManifest::create(const std::string& path,
 
     // Initially there is only one level (level-0).
     levels.resize(1);
-    levels[0] = new LevelInfo();
+    levels[0] = new LevelInfo(tableMgr);
 
     // Store initial data.
     EP( store(false) );
@@ -164,7 +173,7 @@ Status TableManifest::load(const std::string& path,
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         // For each level
-        LevelInfo* l_info = new LevelInfo();
+        LevelInfo* l_info = new LevelInfo(tableMgr);
         levels[ii] = l_info;
 
         uint32_t num_tables = ss.getU32(s);
@@ -223,7 +232,7 @@ Status TableManifest::load(const std::string& path,
                 s = t_file->getMinKey(table_min_key);
                 if ( s &&
                      !t_info->minKey.empty() &&
-                     table_min_key < t_info->minKey ) {
+                     tableMgr->cmpKeys(table_min_key, t_info->minKey) < 0 ) {
                     _log_warn( myLog, "detected min key mismatch, table %zu, manifest %s, "
                                "table %s",
                                table_number,
@@ -236,7 +245,7 @@ Status TableManifest::load(const std::string& path,
                 // Current table's min key should be bigger than `last_max_key`.
                 // Otherwise, set the flag.
                 if ( !t_info->minKey.empty() &&
-                     last_max_key >= t_info->minKey ) {
+                     tableMgr->cmpKeys(last_max_key, t_info->minKey) >= 0 ) {
                     _log_warn( myLog, "detected key order inversion. prev table %zu max key %s, "
                                "table %zu min key %s, set prevTableSearchRequired flag",
                                prev_table_number,
@@ -427,7 +436,7 @@ Status TableManifest::extendLevel() {
     {   std::lock_guard<std::mutex> l(levelsLock);
         new_level = levels.size();
         levels.resize(new_level + 1);
-        levels[new_level] = new LevelInfo();
+        levels[new_level] = new LevelInfo(tableMgr);
     }
     uint64_t level_limit = tableMgr->getLevelSizeLimit(new_level);
     uint64_t table_limit = tableMgr->getDbConfig()->getMaxTableSize(new_level);
@@ -712,7 +721,7 @@ Status TableManifest::getTablesRange(const size_t level,
             }
 
             if ( max_key.empty() ||
-                 t_info->minKey <= max_key ) {
+                 tableMgr->cmpKeys(t_info->minKey, max_key) <= 0 ) {
                 t_info->grab();
                 pushTablesInStack(t_info, tables_out);
                 tables_out.push_back(t_info);
diff --git a/src/table_manifest.h b/src/table_manifest.h
index 0606f57..fe46749 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -79,12 +79,8 @@ struct TableInfo {
         assert(refCount.load() == 0);
     }
 
-    static int cmp(skiplist_node *a, skiplist_node *b, void *aux) {
-        TableInfo *aa, *bb;
-        aa = _get_entry(a, TableInfo, snode);
-        bb = _get_entry(b, TableInfo, snode);
-        return SizedBuf::cmp(aa->minKey, bb->minKey);
-    }
+    // `aux` is the pointer to `TableMgr`.
+    static int cmp(skiplist_node *a, skiplist_node *b, void *aux);
 
     void grab() { refCount.fetch_add(1); }
     void done() {
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 22e0f59..d3ffa34 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -57,6 +57,15 @@ TableMgr::~TableMgr() {
     shutdown();
 }
 
+int TableMgr::cmpKeys(const SizedBuf& l, const SizedBuf& r) const {
+    const DBConfig* db_config = getDbConfig();
+    if (db_config->cmpFunc && !l.empty() && !r.empty()) {
+        return db_config->cmpFunc( l.data, l.size, r.data, r.size,
+                                   db_config->cmpFuncParam );
+    }
+    return SizedBuf::cmp(l, r);
+}
+
 uint32_t TableMgr::getKeyHash(const SizedBuf& key) const {
     SizedBuf data_to_hash = get_data_to_hash(opt.dbConfig, key, false);
     return get_murmur_hash_32(data_to_hash);
diff --git a/src/table_mgr.h b/src/table_mgr.h
index e951111..3c84d3c 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -116,12 +116,6 @@ private:
         LsmFlushResult(TableFile* _file, const SizedBuf& _key)
             : tFile(_file), minKey(_key) {}
 
-        // Less function, descending `minKey` order:
-        // `true` if `ll.minKey > rr.minKey`.
-        static bool cmp(const LsmFlushResult& ll, const LsmFlushResult& rr) {
-            return (ll.minKey > rr.minKey);
-        }
-
         TableFile* tFile;
         SizedBuf minKey;
     };
@@ -331,6 +325,11 @@ public:
 
     uint32_t getKeyHash(const SizedBuf& key) const;
 
+    // Compare two keys, based on the custom comparison function if given.
+    // Note that an empty key (the min key of the first table) is always
+    // the smallest one.
+    int cmpKeys(const SizedBuf& l, const SizedBuf& r) const;
+
     struct Iterator {
     public:
         Iterator();
diff --git a/src/table_split.cc b/src/table_split.cc
index 903bb87..2b12376 100644
--- a/src/table_split.cc
+++ b/src/table_split.cc
@@ -323,7 +323,11 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
         //   Otherwise, if there is a point query in the middle,
         //   it may go to wrong (newly created) table which
         //   causes false "key not found".
-        results.sort( LsmFlushResult::cmp );
+        results.sort( [this]( const LsmFlushResult& ll,
+                              const LsmFlushResult& rr ) -> bool {
+            // Descending `minKey` order.
+            return cmpKeys(ll.minKey, rr.minKey) > 0;
+        } );
         for (LsmFlushResult& rr: results) {
             TC( mani->addTableFile( level, 0, rr.minKey, rr.tFile ) );
             rr.tFile = nullptr;
-- 
2.43.0


From c131d429c521491a74818b11e65feae8f451c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:18:30 +0000
Subject: [PATCH 42/94] fix: point queries on a snapshot used tables that are
 not in the snapshot

---
 src/table_mgr.cc | 70 ++++++++++++++++++++++++++++++++++++++++++------
 src/table_mgr.h  | 13 +++++++++
 2 files changed, 75 insertions(+), 8 deletions(-)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index d3ffa34..07d543b 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -580,14 +580,20 @@ Status TableMgr::get(DB* snap_handle,
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesPoint(ii, rec_inout.kv.key, tables);
-        if (!s) continue;
+        if (snap_handle) {
+            // WARNING: Current tables may be different from
+            //          the tables in the snapshot.
+            getSnapTables(snap_handle, ii, &rec_inout.kv.key, tables);
+        } else {
+            s = mani->getTablesPoint(ii, rec_inout.kv.key, tables);
+            if (!s) continue;
+        }
 
         TableInfo* sm_table = nullptr;
         // [Only for L0]
         // Search smallest normal table first and then the others,
         // as it always has the newest data for the same key.
-        if (ii == 0) {
+        if (ii == 0 && !snap_handle) {
             sm_table = getSmallestNormalTable(tables);
             if (sm_table) {
                 Record new_rec;
@@ -638,7 +644,7 @@ Status TableMgr::get(DB* snap_handle,
                 new_rec.kv.key.clear();
                 new_rec.free();
 
-                if (s != Status::KEY_NOT_FOUND) {
+                if (!s.ok() && s != Status::KEY_NOT_FOUND) {
                     // This is intolerable error.
                     found_intolerable_error = true;
                 }
@@ -720,8 +726,12 @@ Status TableMgr::getNearest(DB* snap_handle,
     //   as closer key may exist in lower levels.
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesNearest(ii, key, tables, s_opt);
-        if (!s) continue;
+        if (snap_handle) {
+            getSnapTables(snap_handle, ii, nullptr, tables);
+        } else {
+            s = mani->getTablesNearest(ii, key, tables, s_opt);
+            if (!s) continue;
+        }
 
         bool found_intolerable_error = false;
         for (TableInfo* table: tables) {
@@ -770,8 +780,12 @@ Status TableMgr::getPrefix(DB* snap_handle,
 
     for (size_t ii=0; ii<num_levels; ++ii) {
         std::list<TableInfo*> tables;
-        s = mani->getTablesPrefix(ii, prefix, tables);
-        if (!s) continue;
+        if (snap_handle) {
+            getSnapTables(snap_handle, ii, nullptr, tables);
+        } else {
+            s = mani->getTablesPrefix(ii, prefix, tables);
+            if (!s) continue;
+        }
 
         bool stopped = false;
         bool found_intolerable_error = false;
@@ -793,6 +807,46 @@ Status TableMgr::getPrefix(DB* snap_handle,
     return s;
 }
 
+void TableMgr::getSnapTables(DB* snap_handle,
+                             size_t level,
+                             const SizedBuf* point_key,
+                             std::list<TableInfo*>& tables_out)
+{
+    mGuard l(sMapLock);
+    auto entry = sMap.find(snap_handle);
+    if (entry == sMap.end()) return;
+
+    if (point_key && level) {
+        // Tables (L1+) are in a key order. Find the last table whose min key
+        // is smaller than or equal to the given key.
+        TableInfo* prev = nullptr;
+        TableInfo* cur = nullptr;
+        for (TableInfo* tt: *entry->second) {
+            if (tt->level != level) continue;
+            if (cmpKeys(tt->minKey, *point_key) > 0) break;
+            prev = cur;
+            cur = tt;
+        }
+        if (cur) {
+            cur->grab();
+            tables_out.push_back(cur);
+            if (prev && cur->prevTableSearchRequired) {
+                prev->grab();
+                tables_out.push_back(prev);
+            }
+        }
+        return;
+    }
+
+    uint32_t target_hash = point_key ? getKeyHash(*point_key) % getNumL0Partitions() : 0;
+    for (TableInfo* tt: *entry->second) {
+        if ( tt->level != level ||
+             (point_key && tt->hashNum != target_hash) ) continue;
+        tt->grab();
+        tables_out.push_back(tt);
+    }
+}
+
 TableInfo* TableMgr::getSmallestSrcTable(const std::list<TableInfo*>& tables,
                                          uint32_t target_hash_num)
 {
diff --git a/src/table_mgr.h b/src/table_mgr.h
index 3c84d3c..b6710ea 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -496,6 +496,19 @@ protected:
                               TableFile*& table_file_out,
                               const TableFileOptions& t_opt);
 
+    /**
+     * Get the tables in the given level, that belong to the given snapshot.
+     *
+     * @param snap_handle Snapshot handle.
+     * @param level Level.
+     * @param point_key If given, only the tables that may contain this key.
+     * @param[out] tables_out Tables, the caller should call `done()`.
+     */
+    void getSnapTables(DB* snap_handle,
+                       size_t level,
+                       const SizedBuf* point_key,
+                       std::list<TableInfo*>& tables_out);
+
     TableInfo* getSmallestSrcTable(const std::list<TableInfo*>& tables,
                                    uint32_t target_hash_num = _SCU32(-1));
 
-- 
2.43.0


From 7d4ca86a3759602871e2457c3ef40d7c8e85db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:21:21 +0000
Subject: [PATCH 43/94] fix: migrated table was destroyed while a snapshot was
 using it

---
 src/table_compaction.cc |  2 +-
 src/table_manifest.h    | 24 +++++++++++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 519d0a2..45f7976 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -639,8 +639,8 @@ Status TableMgr::migrateLevel(const CompactOptions& options,
         auto eer = tables.rbegin();
         while (eer != tables.rend()) {
             TableInfo* ti = *eer;
-            ti->setMigration();
             TC( mani->addTableFile( level + 1, 0, ti->minKey, ti->file ) );
+            ti->setMigration( ti->file->getTableInfo() );
             eer++;
         }
 
diff --git a/src/table_manifest.h b/src/table_manifest.h
index fe46749..a447757 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -58,7 +58,7 @@ struct TableInfo {
         , file(nullptr)
         , refCount(0)
         , removed(false)
-        , migration(false)
+        , migratedTo(nullptr)
         , status( query_purpose ? QUERY_PURPOSE : NORMAL )
         , stack(nullptr)
         , baseTable(true)
@@ -92,16 +92,18 @@ struct TableInfo {
             _log_info(temp, "removed level %zu file %zu "
                       "ref count %zu -> %zu status %d mflag %s",
                       level, number, count, count-1, status.load(),
-                      get_on_off_str(migration) );
+                      get_on_off_str(migratedTo) );
             if (count == 1) {
                 // NOTE: We should not remove file object if this
                 //       table is being migrated to next level, as
                 //       next level's table info will reuse it.
-                if (!migration) {
+                TableInfo* next_info = migratedTo;
+                if (!next_info) {
                     file->destroySelf();
                     delete file;
                 }
                 delete this;
+                if (next_info) next_info->done();
             }
             return;
         }
@@ -113,8 +115,15 @@ struct TableInfo {
     void setRemoved()   { removed.store(true, MOR); }
     bool isRemoved()    { return removed.load(MOR); }
 
-    void setMigration()   { migration.store(true, MOR); }
-    bool isMigrating()    { return migration.load(MOR); }
+    // WARNING:
+    //   This table info can be alive (e.g., by a snapshot) even after the
+    //   table is removed from the next level. It should hold the table info
+    //   of the next level, not to make the file destroyed in the meantime.
+    void setMigration(TableInfo* next_info) {
+        next_info->grab();
+        migratedTo.store(next_info, MOR);
+    }
+    bool isMigrating()    { return migratedTo.load(MOR); }
 
     void setCompactSrc()    { return status.store(COMPACT_SRC, MOR); }
     void setNormal()        { return status.store(NORMAL, MOR); }
@@ -146,8 +155,9 @@ struct TableInfo {
     // Flag indicating whether or not this file is removed.
     std::atomic<bool> removed;
 
-    // Flag indicating that this table is being migrated.
-    std::atomic<bool> migration;
+    // If this table is migrated, the table info of the next level,
+    // which shares the same file.
+    std::atomic<TableInfo*> migratedTo;
 
     // Current table status.
     std::atomic<Status> status;
-- 
2.43.0


From 2834b6645b5d67d686fe6ae5f06c2e069ce9a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:23:44 +0000
Subject: [PATCH 44/94] fix: snapshot query failed on a hash partition that was
 empty at the checkpoint

---
 src/table_file.cc |  7 +++++++
 src/table_mgr.cc  | 14 +++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 94a8030..4a1904b 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -548,6 +548,7 @@ Status TableFile::openSnapshot(DB* snap_handle,
     Status s;
     uint64_t snap_seqnum = 0;
     bool clone_from_latest = false;
+    bool chk_found = false;
 
     {   mGuard l(chkMapLock);
         auto entry = chkMap.find(checkpoint);
@@ -566,6 +567,7 @@ Status TableFile::openSnapshot(DB* snap_handle,
                 while (entry != chkMap.end()) {
                     if (entry->first <= checkpoint) {
                         snap_seqnum = entry->second;
+                        chk_found = true;
                     }
                     entry++;
                 }
@@ -573,8 +575,13 @@ Status TableFile::openSnapshot(DB* snap_handle,
         } else {
             // Exact match exists.
             snap_seqnum = entry->second;
+            chk_found = true;
         }
     }
+    if (chk_found && !snap_seqnum) {
+        // This table did not contain anything at the moment of the checkpoint.
+        return Status::TABLE_NOT_FOUND;
+    }
     if (!clone_from_latest && !snap_seqnum) return Status::INVALID_CHECKPOINT;
 
     fdb_status fs;
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 07d543b..dafb995 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -530,9 +530,17 @@ Status TableMgr::openSnapshot(DB* snap_handle,
     }
 
     // If `checkpoint == 0`, take the latest one.
-    for (auto& entry: *t_list) {
-        TableInfo* info = entry;
-        info->file->openSnapshot(snap_handle, checkpoint);
+    auto entry = t_list->begin();
+    while (entry != t_list->end()) {
+        TableInfo* info = *entry;
+        s = info->file->openSnapshot(snap_handle, checkpoint);
+        if (s == Status::TABLE_NOT_FOUND) {
+            // Empty table at that moment, not a part of the snapshot.
+            info->done();
+            entry = t_list->erase(entry);
+        } else {
+            entry++;
+        }
     }
 
     table_list_out = t_list;
-- 
2.43.0


From e610549bf9b6688c2f9ae43c2111b1f749f737c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:26:19 +0000
Subject: [PATCH 45/94] fix: range of a log iterator was compared by bytes even
 with a custom comparator

---
 src/memtable.cc          | 16 +++++++++++-----
 src/memtable.h           |  2 ++
 src/memtable_iterator.cc | 12 ++++++------
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 10c2195..f3ef328 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -315,16 +315,22 @@ int MemTable::cmpKey(skiplist_node *a, skiplist_node *b, void *aux) {
     if (aux) {
         // Custom cmp
         MemTable* mt = reinterpret_cast<MemTable*>(aux);
-        CustomCmpFunc func = mt->logFile->logMgr->getDbConfig()->cmpFunc;
-        void* param = mt->logFile->logMgr->getDbConfig()->cmpFuncParam;
-        return func(aa->key.data, aa->key.size,
-                    bb->key.data, bb->key.size,
-                    param);
+        return mt->cmpKeys(aa->key, bb->key);
     }
 
     return SizedBuf::cmp(aa->key, bb->key);
 }
 
+int MemTable::cmpKeys(const SizedBuf& l, const SizedBuf& r) const {
+    CMP_NULL_CHK(l.data, r.data);
+    const DBConfig* db_config = logFile->logMgr->getDbConfig();
+    if (db_config->cmpFunc) {
+        return db_config->cmpFunc(l.data, l.size, r.data, r.size,
+                                  db_config->cmpFuncParam);
+    }
+    return SizedBuf::cmp(l, r);
+}
+
 Status MemTable::getReady() {
     // Set custom cmp function if given.
     if (logFile->logMgr->getDbConfig()->cmpFunc) {
diff --git a/src/memtable.h b/src/memtable.h
index bf975f4..50234c0 100644
--- a/src/memtable.h
+++ b/src/memtable.h
@@ -43,6 +43,8 @@ public:
 
     static int cmpKey(skiplist_node *a, skiplist_node *b, void *aux);
 
+    int cmpKeys(const SizedBuf& l, const SizedBuf& r) const;
+
     Status init(const uint64_t start_seq_num = 0);
 
     Status assignSeqNum(Record& rec_local);
diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index e2aee3d..4c9fa6b 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -45,7 +45,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     if (!cursor) return Status::ITERATOR_INIT_FAIL;
 
     RecNode* rn = _get_entry(cursor, RecNode, snode);
-    if (!end_key.empty() && SizedBuf::cmp(rn->key, end_key) > 0) {
+    if (!end_key.empty() && mTable->cmpKeys(rn->key, end_key) > 0) {
         skiplist_release_node(cursor);
         cursor = nullptr;
         return Status::OUT_OF_RANGE;
@@ -59,7 +59,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     // Skip invalid keys.
     for (; cursor ;) {
         RecNode* rn = _get_entry(cursor, RecNode, snode);
-        if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+        if (!endKey.empty() && mTable->cmpKeys(rn->key, endKey) > 0) {
             // Greater than end key.
             skiplist_release_node(cursor);
             cursor = nullptr;
@@ -160,7 +160,7 @@ Status MemTable::Iterator::prev(bool allow_tombstone) {
             if (!prev_node) return Status::OUT_OF_RANGE;
 
             RecNode* rn = _get_entry(prev_node, RecNode, snode);
-            if (!startKey.empty() && SizedBuf::cmp(rn->key, startKey) < 0) {
+            if (!startKey.empty() && mTable->cmpKeys(rn->key, startKey) < 0) {
                 // Smaller than start key.
                 skiplist_release_node(prev_node);
                 return Status::OUT_OF_RANGE;
@@ -206,7 +206,7 @@ Status MemTable::Iterator::next(bool allow_tombstone) {
             if (!next_node) return Status::OUT_OF_RANGE;
 
             RecNode* rn = _get_entry(next_node, RecNode, snode);
-            if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+            if (!endKey.empty() && mTable->cmpKeys(rn->key, endKey) > 0) {
                 // Greater than end key.
                 skiplist_release_node(next_node);
                 return Status::OUT_OF_RANGE;
@@ -317,7 +317,7 @@ skiplist_node* MemTable::Iterator::findFirstValidNode(skiplist_node* seek_node,
         // Go forward if no record belongs to the snapshot.
         for (; seek_node ;) {
             RecNode* rn = _get_entry(seek_node, RecNode, snode);
-            if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+            if (!endKey.empty() && mTable->cmpKeys(rn->key, endKey) > 0) {
                 // Greater than end key.
                 skiplist_release_node(seek_node);
                 return nullptr;
@@ -337,7 +337,7 @@ skiplist_node* MemTable::Iterator::findFirstValidNode(skiplist_node* seek_node,
         // Go backward if no record belongs to the snapshot.
         for (; seek_node ;) {
             RecNode* rn = _get_entry(seek_node, RecNode, snode);
-            if (!startKey.empty() && SizedBuf::cmp(rn->key, startKey) < 0) {
+            if (!startKey.empty() && mTable->cmpKeys(rn->key, startKey) < 0) {
                 // Smaller than start key.
                 skiplist_release_node(seek_node);
                 return nullptr;
-- 
2.43.0


From 27d9e2fb41bdb900770817c8f535b42fd73edd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:26:47 +0000
Subject: [PATCH 46/94] fix: seek of a log iterator missed its own records if
 the target was out of them

---
 src/memtable_iterator.cc | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index 4c9fa6b..4ff7772 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -252,20 +252,23 @@ Status MemTable::Iterator::seek
     skiplist_node* node_to_release = cursor;
     skiplist_node* seek_node = nullptr;
 
+    // Both search directions should stay in the range of this iterator.
     const SizedBuf* query_key_ptr = &key;
-    if (opt == GREATER && key.empty() && !startKey.empty()) {
-        // gotoBegin, and start key is given.
+    if ( opt == GREATER && !startKey.empty() &&
+         mTable->cmpKeys(key, startKey) < 0 ) {
         query_key_ptr = &startKey;
+    } else if ( opt == SMALLER && !endKey.empty() &&
+                mTable->cmpKeys(key, endKey) > 0 ) {
+        query_key_ptr = &endKey;
     }
     RecNode query(query_key_ptr);
 
-    bool fwd_search = true;
-
     if (opt == GREATER) {
-        fwd_search = true; // Foward search.
         seek_node = skiplist_find_greater_or_equal
                     ( mTable->idxByKey, &query.snode );
+        seek_node = findFirstValidNode(seek_node, true);
         if (!seek_node) {
+            // If not found, backward search from the end.
             if (endKey.empty()) {
                 // End key is not given.
                 seek_node = skiplist_end(mTable->idxByKey);
@@ -275,33 +278,31 @@ Status MemTable::Iterator::seek
                 seek_node = skiplist_find_smaller_or_equal
                             ( mTable->idxByKey, &end_query.snode );
             }
-            // If not found, backward search from the end.
-            fwd_search = false;
+            seek_node = findFirstValidNode(seek_node, false);
         }
 
     } else if (opt == SMALLER) {
-        fwd_search = false;
         seek_node = skiplist_find_smaller_or_equal
                     ( mTable->idxByKey, &query.snode );
+        seek_node = findFirstValidNode(seek_node, false);
         if (!seek_node) {
+            // If not found, forward search from the beginning.
             if (startKey.empty()) {
                 // Start key is not given.
                 seek_node = skiplist_begin(mTable->idxByKey);
             } else {
-                // End key is given.
+                // Start key is given.
                 RecNode start_query(&startKey);
                 seek_node = skiplist_find_greater_or_equal
                             ( mTable->idxByKey, &start_query.snode );
             }
-            // If not found, forward search from the beginning.
-            fwd_search = true;
+            seek_node = findFirstValidNode(seek_node, true);
         }
 
     } else {
         assert(0);
     }
 
-    seek_node = findFirstValidNode(seek_node, fwd_search);
     if (!seek_node) return Status::OUT_OF_RANGE;
 
     cursor = seek_node;
-- 
2.43.0


From 2f91b0d0308ae0d7fd8d42a83925ede4f91d01e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:26:47 +0000
Subject: [PATCH 47/94] fix: range and seek of a log iterator by sequence
 number were not honoured

---
 src/memtable_iterator.cc | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index 4ff7772..906f4a2 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -102,13 +102,12 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
          min_local < mTable->flushedSeqNum )
         min_local = mTable->flushedSeqNum;
 
-    if (min_local > mTable->maxSeqNum)
-        min_local = mTable->maxSeqNum;
-
     minSeq = min_local;
 
     // Need to filter out iterator request beyond the range.
-    if (minSeq > max_seq) return Status::OUT_OF_RANGE;
+    if (minSeq > max_seq || minSeq > mTable->maxSeqNum) {
+        return Status::OUT_OF_RANGE;
+    }
 
     Record query_rec;
     RecNodeSeq query(&query_rec);
@@ -118,15 +117,18 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
 
     // Doesn't allow to access logs beyond max seqnum.
     uint64_t max_local = max_seq;
-    if (mTable->minSeqNum != NOT_INITIALIZED &&
-        max_local < mTable->minSeqNum)
-        max_local = mTable->minSeqNum;
-
     if (max_local > mTable->maxSeqNum)
         max_local = mTable->maxSeqNum;
 
     maxSeq = max_local;
 
+    if (_get_entry(cursor, RecNodeSeq, snode)->rec->seqNum > maxSeq) {
+        // No record in the range.
+        skiplist_release_node(cursor);
+        cursor = nullptr;
+        return Status::OUT_OF_RANGE;
+    }
+
     return Status();
 }
 
@@ -375,16 +377,26 @@ Status MemTable::Iterator::seekSN
 
         seek_node = skiplist_find_greater_or_equal
                     ( mTable->idxBySeq, &query.snode );
+        if ( seek_node &&
+             _get_entry(seek_node, RecNodeSeq, snode)->rec->seqNum > maxSeq ) {
+            skiplist_release_node(seek_node);
+            seek_node = nullptr;
+        }
         if (!seek_node) {
             query.rec->seqNum = maxSeq;
             seek_node = skiplist_find_smaller_or_equal
                         ( mTable->idxBySeq, &query.snode );
         }
     } else if (opt == SMALLER) {
-        if (seqnum < maxSeq) query.rec->seqNum = maxSeq;
+        if (seqnum > maxSeq) query.rec->seqNum = maxSeq;
 
         seek_node = skiplist_find_smaller_or_equal
                     ( mTable->idxBySeq, &query.snode );
+        if ( seek_node &&
+             _get_entry(seek_node, RecNodeSeq, snode)->rec->seqNum < minSeq ) {
+            skiplist_release_node(seek_node);
+            seek_node = nullptr;
+        }
         if (!seek_node) {
             query.rec->seqNum = minSeq;
             seek_node = skiplist_find_greater_or_equal
-- 
2.43.0


From 3c15a9441a70e43888fbfe7acaff74b1f3e49063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:26:54 +0000
Subject: [PATCH 48/94] fix: iterator seek to the smaller could stop at a
 greater record

---
 src/db_internal.h     |  2 +-
 src/iterator.cc       | 13 ++++++++++---
 src/log_iterator.cc   | 13 ++++++++++---
 src/log_mgr.h         |  2 +-
 src/table_iterator.cc | 13 ++++++++++---
 src/table_mgr.h       |  2 +-
 6 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/db_internal.h b/src/db_internal.h
index 70742da..2be2a6b 100644
--- a/src/db_internal.h
+++ b/src/db_internal.h
@@ -264,7 +264,7 @@ public:
         Record lastRec;
     };
 
-    Status moveToLastValid();
+    Status moveToLastValid(bool exclude_no_more_prev = false);
 
     Status seekInternal(const SizedBuf& key,
                         const uint64_t seqnum,
diff --git a/src/iterator.cc b/src/iterator.cc
index d54a883..2b41620 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -401,7 +401,7 @@ Status Iterator::gotoEnd() {
     return p->seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status Iterator::IteratorInternal::moveToLastValid() {
+Status Iterator::IteratorInternal::moveToLastValid(bool exclude_no_more_prev) {
     windowCursor = avl_last(&curWindow);
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
@@ -411,6 +411,13 @@ Status Iterator::IteratorInternal::moveToLastValid() {
         //  We should pick up `Del K9`.
         ItrInt::ItrItem* item = _get_entry(windowCursor, ItrInt::ItrItem, an);
 
+        if ( exclude_no_more_prev &&
+             (item->flags & ItrInt::ItrItem::no_more_prev) ) {
+            // Greater than the key (or seq number) to seek, skip.
+            windowCursor = avl_prev(windowCursor);
+            continue;
+        }
+
         if (type == ItrInt::BY_KEY) {
             ItrInt::ItrItem* prev_item = nullptr;
             avl_node* prev_cursor = avl_prev(windowCursor);
@@ -534,12 +541,12 @@ Status Iterator::IteratorInternal::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
 
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 0a65b40..93363df 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -409,7 +409,7 @@ Status LogMgr::Iterator::gotoEnd() {
     return seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status LogMgr::Iterator::moveToLastValid() {
+Status LogMgr::Iterator::moveToLastValid(bool exclude_no_more_prev) {
     windowCursor = avl_last(&curWindow);
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
@@ -419,6 +419,13 @@ Status LogMgr::Iterator::moveToLastValid() {
         //  We should pick up `Del K9`.
         ItrItem* item = _get_entry(windowCursor, ItrItem, an);
 
+        if ( exclude_no_more_prev &&
+             (item->flags & ItrItem::no_more_prev) ) {
+            // Greater than the key (or seq number) to seek, skip.
+            windowCursor = avl_prev(windowCursor);
+            continue;
+        }
+
         if (type == BY_KEY) {
             ItrItem* prev_item = nullptr;
             avl_node* prev_cursor = avl_prev(windowCursor);
@@ -524,12 +531,12 @@ Status LogMgr::Iterator::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
 
diff --git a/src/log_mgr.h b/src/log_mgr.h
index b08a888..00fba40 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -356,7 +356,7 @@ public:
                             const uint64_t seqnum,
                             SeekOption opt,
                             bool goto_end = false);
-        Status moveToLastValid();
+        Status moveToLastValid(bool exclude_no_more_prev = false);
 
         void addLogFileItr(LogFileInfo* l_info, bool is_log_store_snapshot);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index f6d2ebe..b6b64a1 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -369,7 +369,7 @@ Status TableMgr::Iterator::gotoEnd() {
     return seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status TableMgr::Iterator::moveToLastValid() {
+Status TableMgr::Iterator::moveToLastValid(bool exclude_no_more_prev) {
     windowCursor = avl_last(&curWindow);
     while (windowCursor) {
         // Find *LAST* valid item (only for BY_KEY).
@@ -379,6 +379,13 @@ Status TableMgr::Iterator::moveToLastValid() {
         //  We should pick up `Del K9`.
         ItrItem* item = _get_entry(windowCursor, ItrItem, an);
 
+        if ( exclude_no_more_prev &&
+             (item->flags & ItrItem::no_more_prev) ) {
+            // Greater than the key (or seq number) to seek, skip.
+            windowCursor = avl_prev(windowCursor);
+            continue;
+        }
+
         if (type == BY_KEY) {
             ItrItem* prev_item = nullptr;
             avl_node* prev_cursor = avl_prev(windowCursor);
@@ -487,12 +494,12 @@ Status TableMgr::Iterator::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        moveToLastValid(true);
     }
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
     return Status();
diff --git a/src/table_mgr.h b/src/table_mgr.h
index b6710ea..7f0f967 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -426,7 +426,7 @@ public:
                             const uint64_t seqnum,
                             SeekOption opt,
                             bool goto_end = false);
-        Status moveToLastValid();
+        Status moveToLastValid(bool exclude_no_more_prev = false);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
         bool checkValidBySeq(ItrItem* item,
                              const uint64_t cur_seq,
-- 
2.43.0


From 93eb733be7e22dc48d307fb24451350d1ef7a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:29:55 +0000
Subject: [PATCH 49/94] fix: iterator that changed direction could show an
 older version or skip a record

---
 src/iterator.cc       | 12 ++++++++++--
 src/log_iterator.cc   | 12 ++++++++++--
 src/table_iterator.cc | 12 ++++++++++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/iterator.cc b/src/iterator.cc
index 2b41620..83cb5f8 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -230,7 +230,11 @@ Status Iterator::prev() {
             (void)avl_ret;
             cursor = avl_last(&p->curWindow);
         } else {
-            item->flags |= ItrInt::ItrItem::no_more_prev;
+            if (!(item->flags & ItrInt::ItrItem::no_more_prev)) {
+                // This item is now greater than the new cursor,
+                // so that it is valid for the opposite direction.
+                item->flags = ItrInt::ItrItem::no_more_prev;
+            }
             cursor = avl_prev(&item->an);
         }
     }
@@ -338,7 +342,11 @@ Status Iterator::next() {
             (void)avl_ret;
             cursor = avl_first(&p->curWindow);
         } else {
-            item->flags |= ItrInt::ItrItem::no_more_next;
+            if (!(item->flags & ItrInt::ItrItem::no_more_next)) {
+                // This item is now smaller than the new cursor,
+                // so that it is valid for the opposite direction.
+                item->flags = ItrInt::ItrItem::no_more_next;
+            }
             cursor = avl_next(&item->an);
         }
     }
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 93363df..743a4e0 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -278,7 +278,11 @@ Status LogMgr::Iterator::prev() {
             assert(avl_ret == &item->an);  (void)avl_ret;
             cursor = avl_last(&curWindow);
         } else {
-            item->flags |= ItrItem::no_more_prev;
+            if (!(item->flags & ItrItem::no_more_prev)) {
+                // This item is now greater than the new cursor,
+                // so that it is valid for the opposite direction.
+                item->flags = ItrItem::no_more_prev;
+            }
             cursor = avl_prev(&item->an);
         }
     }
@@ -354,7 +358,11 @@ Status LogMgr::Iterator::next() {
             assert(avl_ret == &item->an);  (void)avl_ret;
             cursor = avl_first(&curWindow);
         } else {
-            item->flags |= ItrItem::no_more_next;
+            if (!(item->flags & ItrItem::no_more_next)) {
+                // This item is now smaller than the new cursor,
+                // so that it is valid for the opposite direction.
+                item->flags = ItrItem::no_more_next;
+            }
             cursor = avl_next(&item->an);
         }
     }
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index b6b64a1..7166c13 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -232,7 +232,11 @@ Status TableMgr::Iterator::prev() {
             }
 
         } else {
-            item->flags |= ItrItem::no_more_prev;
+            if (!(item->flags & ItrItem::no_more_prev)) {
+                // This item is now greater than the new cursor,
+                // so that it is valid for the opposite direction.
+                item->flags = ItrItem::no_more_prev;
+            }
             cursor = avl_prev(&item->an);
         }
     }
@@ -317,7 +321,11 @@ Status TableMgr::Iterator::next() {
             }
 
         } else {
-            item->flags |= ItrItem::no_more_next;
+            if (!(item->flags & ItrItem::no_more_next)) {
+                // This item is now smaller than the new cursor,
+                // so that it is valid for the opposite direction.
+                item->flags = ItrItem::no_more_next;
+            }
             cursor = avl_next(&item->an);
         }
     }
-- 
2.43.0


From 38fb4a5ec4e51059895e0aa2e9185354c8eadff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:30:07 +0000
Subject: [PATCH 50/94] fix: sequence iterator on a snapshot skipped the logs
 flushed after its opening

---
 src/log_iterator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 743a4e0..133c68e 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -143,7 +143,9 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
                 }
                 l_info->grab(true);
             }
-            addLogFileItr(l_info, lMgr->getDbConfig()->logSectionOnly);
+            // NOTE: Logs flushed after opening the snapshot are still visible
+            //       through the snapshot, in the same way as log store mode.
+            addLogFileItr(l_info, true);
         }
         snapLogList = snap_handle->sn->logList;
     }
-- 
2.43.0


From efa01f3873292d77d114dbcbdb5a533436da99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:30:42 +0000
Subject: [PATCH 51/94] fix: sequence iterator up to 0 was not empty

---
 src/table_file_iterator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/table_file_iterator.cc b/src/table_file_iterator.cc
index 1fc9799..e75fca7 100644
--- a/src/table_file_iterator.cc
+++ b/src/table_file_iterator.cc
@@ -103,6 +103,10 @@ Status TableFile::Iterator::initSN(DB* snap_handle,
     fdb_status fs;
     Status s;
 
+    // No record can be in the range.
+    // WARNING: 0 means `unlimited` for the iterator of table file below.
+    if (max_seq == 0) return Status::OUT_OF_RANGE;
+
     // Get last snap marker.
     fdb_seqnum_t snap_seqnum = 0;
     fdb_kvs_handle* fdb_snap = nullptr;
-- 
2.43.0


From f078065865640c75318d53ee321a821d086e7595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:33:37 +0000
Subject: [PATCH 52/94] fix: sequence numbers flushed beyond the last sync were
 issued again after reopening

---
 src/memtable.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/memtable.cc b/src/memtable.cc
index f3ef328..07a5ae5 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1034,6 +1034,17 @@ Status MemTable::load(RwSerializer& rws,
         syncedSeqNum = last_seq;
     }
 
+    if ( valid_number(flushed_seq) &&
+         valid_number(last_seq) &&
+         last_seq < flushed_seq ) {
+        // Logs were flushed to tables without being written to this file
+        // (e.g., beyond last sync). Their sequence numbers are already taken,
+        // and should not be issued again.
+        maxSeqNum = flushed_seq;
+        seqNumAlloc = flushed_seq;
+        syncedSeqNum = flushed_seq;
+    }
+
     if (NOT_INITIALIZED != last_seq && last_seq < synced_seq) {
         _log_err( myLog,
                   "failed to load memTable for log file %s %ld "
-- 
2.43.0


From 8fc1c7d36128a4fa2c25523765acb135fbcb0ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:11 +0000
Subject: [PATCH 53/94] fix: snapshot after reopening could show an older
 version from a log file than the tables

---
 src/memtable.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/memtable.cc b/src/memtable.cc
index 07a5ae5..768a390 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -909,6 +909,16 @@ Status MemTable::loadRecord(RwSerializer& rws,
         throw Status(Status::CHECKSUM_ERROR);
     }
 
+    if ( valid_number(flushedSeqNum) &&
+         rec->seqNum <= flushedSeqNum ) {
+        // Already in tables, and the file may not contain newer records of the
+        // same key if they were flushed without being written to this file
+        // (e.g., beyond last sync). Should not be visible to snapshots.
+        rec->free();
+        delete rec;
+        return Status();
+    }
+
     Record* prev_rec = nullptr;
     addToBySeqIndex(rec, prev_rec);
     if (prev_rec) {
-- 
2.43.0


From 8d6c7a1d206b8321dbbd8ef0647fa77769baea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:55:29 +0000
Subject: [PATCH 54/94] fix: flush beyond the last sync could move the synced
 sequence number backward

---
 src/log_mgr.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index d5bb696..9c023e0 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1553,7 +1553,12 @@ Status LogMgr::flush(const FlushOptions& options,
         for (uint64_t ii = ln_from; ii <= ln_to; ++ii) {
             LogFileInfoGuard ll(mani->getLogFileInfoP(ii));
             if (options.beyondLastSync) {
-                ll->file->setSyncedSeqNum(seq_num_local);
+                // WARNING: Should not be moved backward, otherwise the same
+                //          logs will be written to the file again.
+                uint64_t synced_seq = ll->file->getSyncedSeqNum();
+                if (!valid_number(synced_seq) || synced_seq < seq_num_local) {
+                    ll->file->setSyncedSeqNum(seq_num_local);
+                }
             }
             EP( ll->file->setFlushedSeqNum(seq_num_local) );
         }
-- 
2.43.0


From 08eb588372530281c33ab459a02cb4563790673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:56:37 +0000
Subject: [PATCH 55/94] fix: merge without a given victim could pick the first
 table of the level

---
 src/table_compact_condition.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/table_compact_condition.cc b/src/table_compact_condition.cc
index 9049a54..ef4ba82 100644
--- a/src/table_compact_condition.cc
+++ b/src/table_compact_condition.cc
@@ -177,7 +177,10 @@ Status TableMgr::pickVictimTable(size_t level,
 
             // The first (smallest key) and the last (greatest key)
             // table cannot be merged.
-            if ( !t_info->minKey.empty() &&
+            // NOTE: The min key of the first table may not be empty, if the
+            //       table before it has been moved to the next level.
+            if ( cur_idx > 1 &&
+                 !t_info->minKey.empty() &&
                  cur_idx < tables.size() &&
                  w_size < min_wss ) {
                 min_wss = w_size;
-- 
2.43.0


From eca51db8c1f553a8b8857fdfcbec9d402137100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:29:17 +0000
Subject: [PATCH 56/94] fix: first batch after reopening an empty log was lost

Loading a log file without any record and synced sequence number set its
start sequence number to NOT_INITIALIZED, so that the first write appended
to the file got it as its sequence number.
---
 src/memtable.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 768a390..545a581 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -987,7 +987,8 @@ Status MemTable::load(RwSerializer& rws,
 
     flushedSeqNum = flushed_seq;
     minSeqNum = min_seq;
-    startSeqNum = min_seq;
+    // If the file is empty, start from the beginning.
+    startSeqNum = valid_number(min_seq) ? min_seq : 0;
     seqNumAlloc = synced_seq;
     maxSeqNum = synced_seq;
     uint64_t padding_start_pos = NOT_INITIALIZED;
-- 
2.43.0


From ee807a3c8a9a1b9b08805e67f388330f7b033f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:30:36 +0000
Subject: [PATCH 57/94] fix: fast index scan could put a record into the table
 before its own

A part of the key returned by the index traversal was compared only with the
min key of the next table, while the cursor may skip several tables and then
stop before the table whose min key begins with that part.
---
 src/table_compaction.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 45f7976..444ac09 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -354,15 +354,21 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             cur_rec.kv.key.size--;
         }
 
-        // Check if `params.key` is prefix of `next_table->minKey`.
-        if ( next_table &&
-             cur_rec.kv.key.size < next_table->minKey.size ) {
-            SizedBuf tmp(cur_rec.kv.key.size, next_table->minKey.data);
-            if (SizedBuf::cmp(cur_rec.kv.key, tmp) == 0) {
+        // Check if `params.key` is prefix of the min key of the next table,
+        // or of the tables after it, as we may skip tables.
+        for ( auto entry = t_itr;
+              next_table && entry != tables.end(); entry++ ) {
+            const SizedBuf& min_key = (*entry)->minKey;
+            SizedBuf tmp( std::min(cur_rec.kv.key.size, min_key.size),
+                          min_key.data );
+            int cmp_res = SizedBuf::cmp(cur_rec.kv.key, tmp);
+            if (cmp_res < 0) break;
+            if (cmp_res == 0 && cur_rec.kv.key.size < min_key.size) {
                 // It is prefix, should read the whole record.
                 local_victim->file->getByOffset(nullptr, params.offset, cur_rec);
                 value_size = cur_rec.kv.value.size;
                 need_to_free = true;
+                break;
             }
         }
         update_next_table_info(cur_rec, params.offset, value_size);
-- 
2.43.0


From 08d2478d561cad0ddc6492b690230a12033b21f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:51:29 +0000
Subject: [PATCH 58/94] fix: nearest search in logs gave up at an invisible key

If the closest key of a log file had no record visible to the caller (newer
than the snapshot, or flushed to tables already), keys next to it were not
searched. The same key was skipped by bytes even with a custom comparator.
---
 src/memtable.cc | 72 +++++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 39 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 545a581..43905fd 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -646,48 +646,42 @@ Status MemTable::getRecordByKeyInternal(const uint64_t chk,
         cursor = skiplist_find_smaller_or_equal(idxByKey, &query.snode);
         break;
     }
-    if (!cursor) return Status::KEY_NOT_FOUND;
-
-    RecNode* node = _get_entry(cursor, RecNode, snode);
-    if (!s_opt.isExactMatchAllowed()) {
-        // Exact match is not allowed. Move the cursor if the current
-        // cursor is pointing to the same key.
-        while (SizedBuf::cmp(key, node->key) == 0) {
-            skiplist_node* prev_cursor = cursor;
-            if (s_opt == SearchOptions::GREATER) {
-                cursor = skiplist_next(idxByKey, prev_cursor);
-            } else {
-                cursor = skiplist_prev(idxByKey, prev_cursor);
-            }
-            skiplist_release_node(prev_cursor);
-            if (!cursor) return Status::KEY_NOT_FOUND;
-
-            node = _get_entry(cursor, RecNode, snode);
+    while (cursor) {
+        RecNode* node = _get_entry(cursor, RecNode, snode);
+        Record* rec_ret = nullptr;
+        // Skip the same key if exact match is not allowed.
+        if ( s_opt.isExactMatchAllowed() || cmpKeys(key, node->key) != 0 ) {
+            rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
+        }
+        if ( rec_ret &&
+             !allow_flushed_log &&
+             valid_number(flushedSeqNum) &&
+             rec_ret->seqNum <= flushedSeqNum ) {
+            // Already purged KV pair, go to table. Tolerate if this is snapshot.
+            rec_ret = nullptr;
+        }
+        if ( rec_ret && !allow_tombstone && rec_ret->isDel() ) {
+            // Last operation is deletion.
+            rec_ret = nullptr;
+        }
+        if (rec_ret) {
+            rec_out = *rec_ret;
+            skiplist_release_node(cursor);
+            return Status();
         }
-    }
-
-    Record* rec_ret = node->getLatestRecord(NOT_INITIALIZED, chk);
-    if (!rec_ret) {
-        skiplist_release_node(&node->snode);
-        return Status::KEY_NOT_FOUND;
-    }
-    if ( valid_number(flushedSeqNum) &&
-         rec_ret->seqNum <= flushedSeqNum ) {
-        // Already purged KV pair, go to table.
-        if (!allow_flushed_log) {
-            skiplist_release_node(&node->snode);
-            return Status::KEY_NOT_FOUND;
-        } // Tolerate if this is snapshot.
-    }
 
-    if ( !allow_tombstone && rec_ret->isDel() ) {
-        // Last operation is deletion.
-        skiplist_release_node(&node->snode);
-        return Status::KEY_NOT_FOUND;
+        // This key is not visible, move to the next closest key (if allowed).
+        skiplist_node* prev_cursor = cursor;
+        if (s_opt.isGreater()) {
+            cursor = skiplist_next(idxByKey, prev_cursor);
+        } else if (s_opt.isSmaller()) {
+            cursor = skiplist_prev(idxByKey, prev_cursor);
+        } else {
+            cursor = nullptr;
+        }
+        skiplist_release_node(prev_cursor);
     }
-    rec_out = *rec_ret;
-    skiplist_release_node(&node->snode);
-    return Status();
+    return Status::KEY_NOT_FOUND;
 }
 
 Status MemTable::getRecordsByPrefix(const uint64_t chk,
-- 
2.43.0


From 48af931e0202b932f440c13c68d9ee90cd9d2ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:51:29 +0000
Subject: [PATCH 59/94] fix: nearest search missed keys beyond two tables of a
 level

Only the table of the key and one table next to it were searched, both can be
empty or have nothing in the direction of the search.
---
 src/table_mgr.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index dafb995..f93154b 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -732,13 +732,29 @@ Status TableMgr::getNearest(DB* snap_handle,
     // NOTE:
     //   Unlike point query, nearest search should check the all level,
     //   as closer key may exist in lower levels.
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    SizedBuf next_key;
+    SizedBuf::Holder h_next_key(next_key);
+    bool search_next = false;
+    for (size_t ii=0; ii<num_levels; ii += (search_next) ? 0 : 1) {
         std::list<TableInfo*> tables;
         if (snap_handle) {
             getSnapTables(snap_handle, ii, nullptr, tables);
         } else {
-            s = mani->getTablesNearest(ii, key, tables, s_opt);
+            s = mani->getTablesNearest( ii, (search_next) ? next_key : key,
+                                        tables, s_opt );
+            search_next = false;
             if (!s) continue;
+
+            // NOTE: Tables can be empty or have nothing in the direction of
+            //       the search. If so, we should go on from the table that
+            //       is the farthest so far, at the same level.
+            if (ii && tables.size() > 1) {
+                TableInfo* farthest = (s_opt.isGreater())
+                                      ? tables.back() : tables.front();
+                next_key.free();
+                next_key.alloc(farthest->minKey);
+                search_next = true;
+            }
         }
 
         bool found_intolerable_error = false;
@@ -758,6 +774,7 @@ Status TableMgr::getNearest(DB* snap_handle,
                                          meta_only );
             if (s) {
                 update_cur_nearest(returned_rec);
+                search_next = false;
             } else if (s != Status::KEY_NOT_FOUND) {
                 // This is intolerable error.
                 found_intolerable_error = true;
-- 
2.43.0


From 0a8732d169737a2dfcbdbe8ad188ec81b9deefa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:51:29 +0000
Subject: [PATCH 60/94] fix: prefix search skipped tables

All tables of a level whose min key has the prefix should be searched, not
only the first two of them, and not found in the last table is not an error.
---
 src/table_manifest.cc | 42 ++++++++++++++++++------------------------
 src/table_mgr.cc      | 10 ++++++----
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index 5d96a0c..ecef494 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -810,7 +810,7 @@ Status TableManifest::getTablesPrefix(const size_t level,
         return getTablesByHash(l_info, target_hash, tables_out);
 
     } else {
-        // Other levels: return 1 or 2 tables
+        // Other levels: return 1 or more tables
         //   If next table's min key has matched prefix,
         //   return the next table as well.
         TableInfo query(level, 0, 0, true);
@@ -819,32 +819,26 @@ Status TableManifest::getTablesPrefix(const size_t level,
                                 ( l_info->tables, &query.snode );
         if (!cursor) cursor = skiplist_begin(l_info->tables);
 
-        if (cursor) {
-            skiplist_node* cur_next = skiplist_next(l_info->tables, cursor);
-            if (cur_next) {
-                TableInfo* t_info = _get_entry(cur_next, TableInfo, snode);
-                // Check if prefix matches.
-                if ( t_info->minKey.size < prefix.size ||
-                     SizedBuf::cmp( SizedBuf(prefix.size, t_info->minKey.data),
-                                    prefix ) != 0 ) {
-                    // Prefix doesn't match, don't need to search next table.
-                    // SHOULD RELEASE SKIPLIST NODE.
-                    skiplist_release_node(cur_next);
-                    cur_next = nullptr;
-                }
+        bool is_first_table = true;
+        while (cursor) {
+            TableInfo* t_info = _get_entry(cursor, TableInfo, snode);
+            // Check if prefix matches (except for the first table).
+            if ( !is_first_table &&
+                 ( t_info->minKey.size < prefix.size ||
+                   SizedBuf::cmp( SizedBuf(prefix.size, t_info->minKey.data),
+                                  prefix ) != 0 ) ) {
+                // Prefix doesn't match, don't need to search further tables.
+                break;
             }
+            t_info->grab();
+            pushTablesInStack(t_info, tables_out);
+            tables_out.push_back(t_info);
 
-            for (skiplist_node* cc: {cursor, cur_next}) {
-                if (!cc) continue;
-
-                TableInfo* t_info = _get_entry(cc, TableInfo, snode);
-                t_info->grab();
-                pushTablesInStack(t_info, tables_out);
-                tables_out.push_back(t_info);
-
-                skiplist_release_node(cc);
-            }
+            cursor = skiplist_next(l_info->tables, cursor);
+            skiplist_release_node(&t_info->snode);
+            is_first_table = false;
         }
+        if (cursor) skiplist_release_node(cursor);
     }
 
     return Status();
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index f93154b..a493ea5 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -819,17 +819,19 @@ Status TableMgr::getPrefix(DB* snap_handle,
                 s = table->file->getPrefix(snap_handle, prefix, cb_func);
             }
             table->done();
-            if (s == Status::OPERATION_STOPPED) stopped = true;
-            if (!s.ok() && s != Status::KEY_NOT_FOUND) {
+            if (s == Status::OPERATION_STOPPED) {
+                stopped = true;
+            } else if (!s.ok() && s != Status::KEY_NOT_FOUND) {
                 found_intolerable_error = true;
             }
         }
         if (found_intolerable_error) {
             return s;
         }
-        if (stopped) break;
+        if (stopped) return Status::OPERATION_STOPPED;
     }
-    return s;
+    // NOTE: Not found in some tables is not an error.
+    return Status::OK;
 }
 
 void TableMgr::getSnapTables(DB* snap_handle,
-- 
2.43.0


From 3c531e20309df3f508d6f0b96c29d81be6afdeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:51:43 +0000
Subject: [PATCH 61/94] fix: prefix search on a snapshot used the current logs

It returned records written after the snapshot, and missed those of log files
removed since.
---
 src/jungle.cc  | 7 ++-----
 src/log_mgr.cc | 5 ++---
 src/log_mgr.h  | 3 +--
 3 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/jungle.cc b/src/jungle.cc
index 36427be..37fdc43 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -845,10 +845,8 @@ Status DB::getRecordsByPrefix(const SizedBuf& prefix,
         return cb_func(params);
     };
 
-    Record rec_local;
-    uint64_t chknum = (sn)?(sn->chkNum):(NOT_INITIALIZED);
-    std::list<LogFileInfo*>* l_list = (sn)?(sn->logList):(nullptr);
-    s = p->logMgr->getPrefix(chknum, l_list, prefix, cb_wrapper);
+    DB* snap_handle = (this->sn)?(this):(nullptr);
+    s = p->logMgr->getPrefix(snap_handle, prefix, cb_wrapper);
     if (s == Status::OPERATION_STOPPED) {
         // User wants to stop, return OK.
         return Status::OK;
@@ -858,7 +856,6 @@ Status DB::getRecordsByPrefix(const SizedBuf& prefix,
     }
 
     // Key not found or user wants to continue, search tables.
-    DB* snap_handle = (this->sn)?(this):(nullptr);
     s = p->tableMgr->getPrefix(snap_handle, prefix, cb_wrapper);
     if ( !s.ok() &&
          s != Status::OPERATION_STOPPED &&
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 9c023e0..d6c0597 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1160,8 +1160,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
 
 #else
 // Iterator based implementation, which provides snapshot and key ordering.
-Status LogMgr::getPrefix(const uint64_t chk,
-                         std::list<LogFileInfo*>* l_list,
+Status LogMgr::getPrefix(DB* snap_handle,
                          const SizedBuf& prefix,
                          SearchCbFunc cb_func)
 {
@@ -1176,7 +1175,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
     };
 
     // Create an iterator, starting from prefix.
-    s = itr.init(nullptr, this, prefix, dummy);
+    s = itr.init(snap_handle, this, prefix, dummy);
     do {
         Record rec;
         s = itr.get(rec);
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 00fba40..ae142bf 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -196,8 +196,7 @@ public:
                       Record& rec_out,
                       SearchOptions s_opt);
 
-    Status getPrefix(const uint64_t chk,
-                     std::list<LogFileInfo*>* l_list,
+    Status getPrefix(DB* snap_handle,
                      const SizedBuf& prefix,
                      SearchCbFunc cb_func);
 
-- 
2.43.0


From 02d9a4cb0596278937c095ffcd188372b1d51c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:51:43 +0000
Subject: [PATCH 62/94] fix: prefix search looped forever on a value that
 cannot be decompressed

---
 src/table_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 4a1904b..3d1ff57 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -1432,7 +1432,7 @@ Status TableFile::getPrefix(DB* snap_handle,
         if (!s) {
             _log_err(myLog, "decompression failed: %d, key %s",
                      s, rec_out.kv.key.toReadableString().c_str());
-            continue;
+            return s;
         }
 
         rec_out.seqNum = doc->seqnum;
-- 
2.43.0


From d459a0d0f905262c96edfb8ff6fcbb414bdc214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:14:56 +0000
Subject: [PATCH 63/94] fix: failed open of a table manager without tables read
 past its list

---
 src/table_mgr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index a493ea5..b0d4854 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -1037,7 +1037,7 @@ Status TableMgr::close() {
     do {
         wait_more = false;
         // non-LSM mode compaction.
-        for (size_t ii=0; ii<numL0Partitions; ++ii) {
+        for (size_t ii=0; ii<compactStatus.size(); ++ii) {
             if (compactStatus[ii]->load()) {
                 wait_more = true;
                 break;
-- 
2.43.0


From 89af445023e1cee661410db59cfe53383607b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:17:05 +0000
Subject: [PATCH 64/94] fix: log file emptied by a crash took its sequence
 numbers from a stale manifest

---
 src/log_manifest.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 2d0708e..2872545 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -453,6 +453,14 @@ Status LogManifest::load(const std::string& path,
                    _seq_str(purged_seq).c_str(),
                    _seq_str(synced_seq).c_str() );
 
+        // The manifest can be older than the log file (crash in the middle of
+        // sync). The next log file should continue from what was loaded.
+        uint64_t loaded_seq = l_file->getMaxSeqNum();
+        if ( valid_number(loaded_seq) &&
+             ( !valid_number(last_synced_seq) || loaded_seq > last_synced_seq ) ) {
+            last_synced_seq = loaded_seq;
+        }
+
         addNewLogFile(l_file_num, l_file, min_seq);
         if ( !valid_number(lastSyncedLog) ||
              lastSyncedLog < l_file_num ) {
-- 
2.43.0


From 2815cf3150557863b69501cb56cef7c56111d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:17:57 +0000
Subject: [PATCH 65/94] fix: flush up to a sequence number wrote records beyond
 the last sync to tables

---
 src/log_mgr.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index d6c0597..b451c8c 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1470,6 +1470,22 @@ Status LogMgr::flush(const FlushOptions& options,
                 ln_to--;
             }
         }
+
+        if (!options.beyondLastSync && !options.purgeOnly) {
+            // Should not go beyond the last synced sequence number either.
+            // Otherwise, tables will have records that do not survive in
+            // logs, in case of crash.
+            uint64_t synced_seq = NOT_INITIALIZED;
+            for (;;) {
+                LogFileInfoGuard ll(mani->getLogFileInfoP(ln_to, true));
+                synced_seq = ll.empty() ? NOT_INITIALIZED
+                                        : ll->file->getSyncedSeqNum();
+                if (valid_number(synced_seq)) break;
+                if (ln_to <= ln_from) return Status::LOG_NOT_SYNCED;
+                ln_to--;
+            }
+            if (synced_seq < seq_num_local) seq_num_local = synced_seq;
+        }
     }
     _log_debug(myLog, "Given seq upto %s, actual seq upto %ld",
                _seq_str(seq_num).c_str(), seq_num_local);
-- 
2.43.0


From 692d0fd6250e6c8a998299764bfdbc18730ce098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:19:22 +0000
Subject: [PATCH 66/94] fix: backup of a manifest torn by a crash was left
 broken under the next write of the manifest

---
 src/log_mgr.cc   | 7 +++++++
 src/table_mgr.cc | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index b451c8c..23e49b0 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -115,6 +115,13 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
         }
         if (!s) throw s;
 
+        if ( !opt.dbConfig->readOnly &&
+             opt.dbConfig->customManifestPath.empty() ) {
+            // Backup file may be broken if the previous crash happened while
+            // writing it. Should be valid before overwriting manifest file.
+            TC(BackupRestore::backup(opt.fOps, m_filename, true));
+        }
+
     } else {
         // Not exist, initial setup phase.
 
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index b0d4854..870b02d 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -218,6 +218,13 @@ Status TableMgr::init(const TableMgrOptions& _options) {
         }
         if (!s) throw s;
 
+        if ( !db_config->readOnly &&
+             db_config->customManifestPath.empty() ) {
+            // Backup file may be broken if the previous crash happened while
+            // writing it. Should be valid before overwriting manifest file.
+            TC(BackupRestore::backup(opt.fOps, m_filename, true));
+        }
+
         // Check & adjust num level-0 partitions.
         size_t ii = 0;
         size_t num_tables = 0;
-- 
2.43.0


From c477c4ccccc1d3437a1d8b4abaef079b7ef6c928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:20:58 +0000
Subject: [PATCH 67/94] fix: records recovered from a log file that the
 manifest knew as empty were never flushed to tables

---
 src/memtable.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/memtable.cc b/src/memtable.cc
index 43905fd..0bb6632 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -991,6 +991,7 @@ Status MemTable::load(RwSerializer& rws,
     size_t filesize = rws.size();
     size_t last_valid_size = rws.pos();
     uint64_t num_record = 0, num_flush = 0, num_chk = 0;
+    uint64_t first_seq = NOT_INITIALIZED;
     uint64_t last_seq = NOT_INITIALIZED;
     std::string m;
 
@@ -1007,6 +1008,7 @@ Status MemTable::load(RwSerializer& rws,
         if (type == FlagType::RECORD) {
             uint64_t seq = 0;
             EB( loadRecord(rws, flags, seq),  "failed to load record" )
+            if (!valid_number(first_seq)) first_seq = seq;
             last_seq = seq;
             num_record++;
             last_valid_size = rws.pos();
@@ -1033,6 +1035,12 @@ Status MemTable::load(RwSerializer& rws,
         }
     }
 
+    if (valid_number(first_seq) && !valid_number(minSeqNum)) {
+        // Manifest file was not updated after the first write to this file
+        // (e.g., crash). Without it, records will not be flushed to tables.
+        minSeqNum = first_seq;
+    }
+
     if (NOT_INITIALIZED != last_seq) {
         maxSeqNum = last_seq;
         seqNumAlloc = last_seq;
-- 
2.43.0


From 05225602b7d475be457342b652a52ba586b3e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:22:40 +0000
Subject: [PATCH 68/94] fix: log file that the manifest knew as empty could not
 be found by sequence number after a crash

---
 src/log_manifest.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 2872545..8d1f459 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -461,7 +461,13 @@ Status LogManifest::load(const std::string& path,
             last_synced_seq = loaded_seq;
         }
 
-        addNewLogFile(l_file_num, l_file, min_seq);
+        // If the manifest does not know the first sequence number of the file,
+        // follow what was loaded. Otherwise, the file cannot be found by
+        // sequence number.
+        uint64_t start_seq = min_seq;
+        if (!valid_number(start_seq)) start_seq = l_file->getMinSeqNum();
+        if (!valid_number(start_seq)) start_seq = 0;
+        addNewLogFile(l_file_num, l_file, start_seq);
         if ( !valid_number(lastSyncedLog) ||
              lastSyncedLog < l_file_num ) {
             lastSyncedLog.store(l_file_num);
@@ -759,6 +765,21 @@ Status LogManifest::getLogFileInfoBySeq(const uint64_t seq_num,
     if (!cursor) return Status::LOG_FILE_NOT_FOUND;
 
     LogFileInfo* info = _get_entry(cursor, LogFileInfo, snodeBySeq);
+
+    // Skip empty log files left by a crash: they may have the same start
+    // sequence number as that of the following log file.
+    while (!valid_number(info->file->getMaxSeqNum())) {
+        skiplist_node* next_cursor = skiplist_next(&logFilesBySeq, cursor);
+        if (!next_cursor) break;
+        LogFileInfo* next_info = _get_entry(next_cursor, LogFileInfo, snodeBySeq);
+        if (next_info->startSeq > seq_num) {
+            skiplist_release_node(next_cursor);
+            break;
+        }
+        skiplist_release_node(cursor);
+        cursor = next_cursor;
+        info = next_info;
+    }
     LogFile* file = info->file;
 
     DBMgr* mgr = DBMgr::getWithoutInit();
-- 
2.43.0


From ddac754e2b1ead327329caf5a7c97216270455fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:24:30 +0000
Subject: [PATCH 69/94] fix: log file emptied by a crash kept the first
 sequence number that the manifest knew

---
 src/log_manifest.cc | 9 ++++-----
 src/memtable.cc     | 9 +++++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 8d1f459..2ebc303 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -461,11 +461,10 @@ Status LogManifest::load(const std::string& path,
             last_synced_seq = loaded_seq;
         }
 
-        // If the manifest does not know the first sequence number of the file,
-        // follow what was loaded. Otherwise, the file cannot be found by
-        // sequence number.
-        uint64_t start_seq = min_seq;
-        if (!valid_number(start_seq)) start_seq = l_file->getMinSeqNum();
+        // Follow what was loaded, as the manifest may not know the records in the
+        // file, or may know those lost by crash. Otherwise, the file cannot be
+        // found by sequence number.
+        uint64_t start_seq = l_file->getMinSeqNum();
         if (!valid_number(start_seq)) start_seq = 0;
         addNewLogFile(l_file_num, l_file, start_seq);
         if ( !valid_number(lastSyncedLog) ||
diff --git a/src/memtable.cc b/src/memtable.cc
index 0bb6632..88d08aa 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1041,6 +1041,15 @@ Status MemTable::load(RwSerializer& rws,
         minSeqNum = first_seq;
     }
 
+    if ( !valid_number(first_seq) &&
+         !valid_number(flushed_seq) &&
+         ( !valid_number(synced_seq) || min_seq > synced_seq ) ) {
+        // The records that the manifest knows were not written to this file,
+        // their sequence numbers will be issued again.
+        minSeqNum = valid_number(synced_seq) ? synced_seq + 1 : NOT_INITIALIZED;
+        startSeqNum = valid_number(synced_seq) ? synced_seq + 1 : 0;
+    }
+
     if (NOT_INITIALIZED != last_seq) {
         maxSeqNum = last_seq;
         seqNumAlloc = last_seq;
-- 
2.43.0


From e779598f9885d37930079d00cf304f8179eae434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:26:08 +0000
Subject: [PATCH 70/94] fix: batch was appended to a log file that is not
 writable, and lost if the file was broken by a crash

---
 src/log_mgr.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 23e49b0..ed4a52b 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -824,6 +824,12 @@ Status LogMgr::setMultiInternal(const std::list<Record>& batch,
     } while (!lf_info || lf_info->isRemoved());
     LogFileInfoGuard g_li(lf_info);
 
+    // Same as a single write: should not append the batch to the file which is
+    // not writable (e.g., the file loaded on DB open, it may be broken).
+    if (!g_li->file->isValidToWrite()) {
+        addNewLogFile(g_li, g_li);
+    }
+
     for (auto& entry: batch) {
         const Record& rr = entry;
         EP( g_li->file->setSN(rr) );
-- 
2.43.0


From 4450cee83fb53e012715de0a265315d810ec0cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:27:10 +0000
Subject: [PATCH 71/94] fix: log manifest not yet truncated by a crash was
 replaced with an old backup

---
 src/log_manifest.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 2ebc303..990be03 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -260,6 +260,15 @@ Status LogManifest::load(const std::string& path,
     size_t file_size = fOps->eof(mFile);
     if (file_size < 16) throw Status(Status::FILE_CORRUPTION);
 
+    // Crash can happen before the tail of the previous manifest is truncated.
+    // In such a case, contents after the actual length should be ignored.
+    if (file_size >= 28 + 16) {
+        RwSerializer len_ss(fOps, mFile);
+        len_ss.pos(24);
+        uint64_t actual_size = 28 + (uint64_t)len_ss.getU32(s) * 32 + 16;
+        if (actual_size < file_size) file_size = actual_size;
+    }
+
     // Footer check
     RwSerializer ss(fOps, mFile);
     uint8_t chk_footer[8];
-- 
2.43.0


From 887a1c1a97831ddcb141465ba5c922101175ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:27:24 +0000
Subject: [PATCH 72/94] fix: log file without records forgot its synced
 sequence number when the DB was opened again

---
 src/memtable.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/memtable.cc b/src/memtable.cc
index 88d08aa..6aca5df 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1057,8 +1057,7 @@ Status MemTable::load(RwSerializer& rws,
     }
 
     if ( valid_number(flushed_seq) &&
-         valid_number(last_seq) &&
-         last_seq < flushed_seq ) {
+         ( !valid_number(last_seq) || last_seq < flushed_seq ) ) {
         // Logs were flushed to tables without being written to this file
         // (e.g., beyond last sync). Their sequence numbers are already taken,
         // and should not be issued again.
-- 
2.43.0


From 9f36c84aa8bc4160e88290fa801d7297b96999c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:38:46 +0000
Subject: [PATCH 73/94] fix: table with the same min key as that of a
 compaction victim was never released

---
 src/table_compact_condition.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/table_compact_condition.cc b/src/table_compact_condition.cc
index ef4ba82..ccb8b64 100644
--- a/src/table_compact_condition.cc
+++ b/src/table_compact_condition.cc
@@ -277,17 +277,13 @@ Status TableMgr::pickVictimTable(size_t level,
         }
     }
 
-    // Remove other tables except for victim family.
+    // Release other tables except for the victim.
+    // NOTE: There can be another table whose min key is the same (e.g., in the
+    //       middle of split). Nobody will release it if we keep it here.
     auto entry = tables.begin();
     while (entry != tables.end()) {
         TableInfo* tt = *entry;
-        if ( tt == victim_table ||
-             ( victim_table &&
-               tt->minKey == victim_table->minKey ) ) {
-            // Keep it.
-        } else {
-            tt->done();
-        }
+        if (tt != victim_table) tt->done();
         entry++;
     }
 
-- 
2.43.0


From 76e7164707900efc0d134ea7f17d7ec376197191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:38:46 +0000
Subject: [PATCH 74/94] fix: concurrent compaction of the same hash never
 released tables

---
 src/table_compaction.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 444ac09..a2d2fe4 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -799,6 +799,7 @@ Status TableMgr::compactL0(const CompactOptions& options,
     if (!compactStatus[hash_num]->compare_exchange_strong(exp, val)) {
         // Compaction is already in progress.
         _log_warn(myLog, "compaction hash %zu is in progress", hash_num);
+        for (TableInfo*& table: tables) table->done();
         return Status::OPERATION_IN_PROGRESS;
     }
 
-- 
2.43.0


From f8013f254d1e1c03ab7bab9897d33097947de1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:40:48 +0000
Subject: [PATCH 75/94] fix: removed table was never destroyed if its last
 reference was released at the same time

---
 src/table_manifest.cc |  4 +--
 src/table_manifest.h  | 62 ++++++++++++++++++++++---------------------
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index ecef494..e03ed07 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -519,7 +519,7 @@ Status TableManifest::removeTableFile(size_t level,
                   level,
                   tableMgr->getTableMgrOptions()->prefixNum,
                   table_to_remove->number,
-                  table_to_remove->refCount.load(),
+                  table_to_remove->getRefCount(),
                   cur_level->numTables.load());
 
         return Status();
@@ -545,7 +545,7 @@ Status TableManifest::removeTableFile(size_t level,
                        tableMgr->getTableMgrOptions()->prefixNum,
                        table_num,
                        t_info->minKey.toReadableString().c_str(),
-                       t_info->refCount.load(),
+                       t_info->getRefCount(),
                        cur_level->numTables.load() );
             return Status();
         }
diff --git a/src/table_manifest.h b/src/table_manifest.h
index a447757..afe8572 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -57,7 +57,6 @@ struct TableInfo {
         , hashNum(_hash_num)
         , file(nullptr)
         , refCount(0)
-        , removed(false)
         , migratedTo(nullptr)
         , status( query_purpose ? QUERY_PURPOSE : NORMAL )
         , stack(nullptr)
@@ -73,10 +72,7 @@ struct TableInfo {
         minKey.free();
         delete stack.load();
         stack = nullptr;
-        if (refCount.load()) {
-            assert(refCount.load() == 0);
-        }
-        assert(refCount.load() == 0);
+        assert(getRefCount() == 0);
     }
 
     // `aux` is the pointer to `TableMgr`.
@@ -84,36 +80,42 @@ struct TableInfo {
 
     void grab() { refCount.fetch_add(1); }
     void done() {
-        assert(refCount);
-        // WARNING: Refer to the comment in `LogFileInfo::done()`.
-        if (removed) {
-            uint64_t count = refCount.fetch_sub(1);
+        // WARNING:
+        //   Removed flag should be checked by the same atomic operation that
+        //   decreases the reference counter. If they are separate, the last
+        //   `done()` can miss the flag so that nobody destroys this table.
+        uint64_t prev = refCount.fetch_sub(1);
+        assert(prev & ~REMOVED_FLAG);
+        if (!(prev & REMOVED_FLAG)) {
+            // Normal case.
+            return;
+        }
+
+        uint64_t count = prev & ~REMOVED_FLAG;
+        if (count == 1) {
             SimpleLogger* temp = file->getLogger();
             _log_info(temp, "removed level %zu file %zu "
                       "ref count %zu -> %zu status %d mflag %s",
                       level, number, count, count-1, status.load(),
                       get_on_off_str(migratedTo) );
-            if (count == 1) {
-                // NOTE: We should not remove file object if this
-                //       table is being migrated to next level, as
-                //       next level's table info will reuse it.
-                TableInfo* next_info = migratedTo;
-                if (!next_info) {
-                    file->destroySelf();
-                    delete file;
-                }
-                delete this;
-                if (next_info) next_info->done();
+            // NOTE: We should not remove file object if this
+            //       table is being migrated to next level, as
+            //       next level's table info will reuse it.
+            TableInfo* next_info = migratedTo;
+            if (!next_info) {
+                file->destroySelf();
+                delete file;
             }
-            return;
+            delete this;
+            if (next_info) next_info->done();
         }
-
-        // Normal case.
-        refCount.fetch_sub(1);
     }
-    uint64_t getRefCount() const { return refCount.load(MOR); }
-    void setRemoved()   { removed.store(true, MOR); }
-    bool isRemoved()    { return removed.load(MOR); }
+    uint64_t getRefCount() const { return refCount.load(MOR) & ~REMOVED_FLAG; }
+
+    // WARNING: The caller should hold a reference (i.e., `grab()`), as the
+    //          last `done()` destroys this table.
+    void setRemoved()   { refCount.fetch_or(REMOVED_FLAG); }
+    bool isRemoved()    { return refCount.load(MOR) & REMOVED_FLAG; }
 
     // WARNING:
     //   This table info can be alive (e.g., by a snapshot) even after the
@@ -149,12 +151,12 @@ struct TableInfo {
     // Table file instance.
     TableFile* file;
 
+    // Flag (in `refCount`) indicating whether or not this file is removed.
+    static const uint64_t REMOVED_FLAG = (uint64_t)1 << 63;
+
     // Reference counter.
     std::atomic<uint64_t> refCount;
 
-    // Flag indicating whether or not this file is removed.
-    std::atomic<bool> removed;
-
     // If this table is migrated, the table info of the next level,
     // which shares the same file.
     std::atomic<TableInfo*> migratedTo;
-- 
2.43.0


From cc0ec9bb394f0c7c7384c1170eb4fc9ceb4e0079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:41:54 +0000
Subject: [PATCH 76/94] fix: compaction used tables that other thread changed
 before locking them

---
 src/table_compaction.cc | 14 ++++++++++++++
 src/table_helper.cc     | 30 ++++++++++++++++++++++++++++++
 src/table_mgr.h         |  9 +++++++++
 src/table_split.cc      | 16 ++++++++++++++++
 4 files changed, 69 insertions(+)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index a2d2fe4..27410d5 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -77,6 +77,10 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     TableLockHolder tl_src_holder(this, {local_victim->number});
     if (!tl_src_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
 
+    // WARNING:
+    //   Other thread may have removed the victim before we lock it.
+    if (local_victim->isRemoved()) throw Status(Status::OPERATION_IN_PROGRESS);
+
     // Get overlapping tables.
     SizedBuf min_key_victim = local_victim->minKey;
     SizedBuf max_key_victim;
@@ -104,6 +108,12 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     TableLockHolder tl_dst_holder( this, table_list_to_number(tables) );
     if (!tl_dst_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
 
+    // WARNING:
+    //   Other thread may have changed the tables before we lock them.
+    if (!isSameTables(level+1, min_key_victim, max_key_victim, tables)) {
+        throw Status(Status::OPERATION_IN_PROGRESS);
+    }
+
     TableStats victim_stats;
     local_victim->file->getStats(victim_stats);
 
@@ -705,6 +715,10 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
     TableLockHolder tl_holder(this, {local_victim->number});
     if (!tl_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
 
+    // WARNING:
+    //   Other thread may have removed the victim before we lock it.
+    if (local_victim->isRemoved()) throw Status(Status::OPERATION_IN_PROGRESS);
+
     uint64_t dst_table_num = 0;
     std::string dst_filename;
     EP( mani->issueTableNumber(dst_table_num) );
diff --git a/src/table_helper.cc b/src/table_helper.cc
index 0e2c506..f63f813 100644
--- a/src/table_helper.cc
+++ b/src/table_helper.cc
@@ -91,6 +91,36 @@ bool TableMgr::isTableLocked(uint64_t t_number) {
     return (found != lockedTables.end());
 }
 
+bool TableMgr::isSameTables(size_t level,
+                            const SizedBuf& min_key,
+                            const SizedBuf& max_key,
+                            const std::list<TableInfo*>& tables)
+{
+    std::list<TableInfo*> cur_tables;
+    {   std::lock_guard<std::mutex> l(mani->getLock());
+        mani->getTablesRange(level, min_key, max_key, cur_tables);
+    }
+    bool ret = (cur_tables == tables);
+    for (TableInfo* tt: cur_tables) tt->done();
+    return ret;
+}
+
+bool TableMgr::isAdjacentTable(size_t level, TableInfo* prev, TableInfo* cur) {
+    std::list<TableInfo*> cur_tables;
+    SizedBuf empty_key;
+    {   std::lock_guard<std::mutex> l(mani->getLock());
+        mani->getTablesRange(level, empty_key, empty_key, cur_tables);
+    }
+    bool ret = false;
+    TableInfo* last_table = nullptr;
+    for (TableInfo* tt: cur_tables) {
+        if (last_table && tt == cur) ret = (last_table == prev);
+        last_table = tt;
+    }
+    for (TableInfo* tt: cur_tables) tt->done();
+    return ret;
+}
+
 bool TableMgr::isLevelLocked(uint64_t l_number) {
     std::lock_guard<std::mutex> l(lockedLevelsLock);
     auto found = lockedLevels.find( l_number );
diff --git a/src/table_mgr.h b/src/table_mgr.h
index 7f0f967..dbe8e3e 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -531,6 +531,15 @@ protected:
 
     bool isTableLocked(uint64_t t_number);
 
+    // `true` if the list of tables in the given range is the same as `tables`.
+    bool isSameTables(size_t level,
+                      const SizedBuf& min_key,
+                      const SizedBuf& max_key,
+                      const std::list<TableInfo*>& tables);
+
+    // `true` if both tables are valid and `prev` is right before `cur`.
+    bool isAdjacentTable(size_t level, TableInfo* prev, TableInfo* cur);
+
     bool isLevelLocked(uint64_t l_number);
 
 // === VARIABLES
diff --git a/src/table_split.cc b/src/table_split.cc
index 2b12376..aea410e 100644
--- a/src/table_split.cc
+++ b/src/table_split.cc
@@ -78,6 +78,10 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
     TableLockHolder tl_holder(this, {victim_table->number});
     if (!tl_holder.ownsLock()) return Status::OPERATION_IN_PROGRESS;
 
+    // WARNING:
+    //   Other thread may have removed the victim before we lock it.
+    if (victim_table->isRemoved()) return Status::OPERATION_IN_PROGRESS;
+
     _log_info( myLog, "split table %zu_%zu, level %zu, min key %s begins",
                opt.prefixNum, victim_table->number, level,
                victim_table->minKey.toReadableString().c_str() );
@@ -445,6 +449,12 @@ Status TableMgr::mergeLevel(const CompactOptions& options,
     TableLockHolder tl_gt_holder(this, {num_gt});
     if (!tl_gt_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
 
+    // WARNING:
+    //   Other thread may have changed the tables before we lock them.
+    if (!isAdjacentTable(level, target_table, local_victim)) {
+        throw Status(Status::OPERATION_IN_PROGRESS);
+    }
+
     // Read all records from the victim table.
     itr = new TableFile::Iterator();
     TC( itr->init(nullptr, local_victim->file, empty_key, empty_key) );
@@ -595,6 +605,12 @@ Status TableMgr::fixTable(const CompactOptions& options,
     TableLockHolder tl_gt_holder( this, {num_gt} );
     if (!tl_gt_holder.ownsLock()) throw Status(Status::OPERATION_IN_PROGRESS);
 
+    // WARNING:
+    //   Other thread may have changed the tables before we lock them.
+    if (!isAdjacentTable(level, target_table, local_victim)) {
+        throw Status(Status::OPERATION_IN_PROGRESS);
+    }
+
     // Read records in target table, starting from min-key of victim table.
     itr = new TableFile::Iterator();
     TC( itr->init(nullptr, target_table->file, local_victim->minKey, empty_key) );
-- 
2.43.0


From 29a7eca1951ebfaf3b0c78456cb1dac820aa34f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:42:15 +0000
Subject: [PATCH 77/94] fix: in-place compaction used the new table after other
 thread could remove it

---
 src/table_compaction.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 27410d5..a15b6bd 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -751,13 +751,15 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
         delete newly_compacted_file;
         throw s;
     }
-    mani->addTableFile(level, 0, local_victim->minKey, newly_compacted_file);
 
     // Add special checkpoint 0, for base snapshot.
+    // WARNING: Once it is added to manifest, other thread can remove it.
     uint64_t new_file_last_seqnum = 0;
     newly_compacted_file->getLatestSnapMarker(new_file_last_seqnum);
     newly_compacted_file->addCheckpoint(0, new_file_last_seqnum);
 
+    mani->addTableFile(level, 0, local_victim->minKey, newly_compacted_file);
+
     // Close the destination handle.
     local_victim->file->releaseDstHandle(dst_handle);
 
@@ -996,13 +998,15 @@ Status TableMgr::compactL0(const CompactOptions& options,
         TableFile* newly_compacted_file = new TableFile(this);
         newly_compacted_file->setLogger(myLog);
         newly_compacted_file->load(0, dst_table_num, dst_filename, opt.fOps, t_opt);
-        mani->addTableFile(0, hash_num, SizedBuf(), newly_compacted_file);
 
         // Add special checkpoint 0, for base snapshot.
+        // WARNING: Once it is added to manifest, other thread can remove it.
         uint64_t new_file_last_seqnum = 0;
         newly_compacted_file->getLatestSnapMarker(new_file_last_seqnum);
         newly_compacted_file->addCheckpoint(0, new_file_last_seqnum);
 
+        mani->addTableFile(0, hash_num, SizedBuf(), newly_compacted_file);
+
         // Remove old file from manifest, and delete it.
         mani->removeTableFile(0, origin_table);
         if (merge_table) mani->removeTableFile(0, merge_table);
-- 
2.43.0


From c55e0a73d11cee296bd20b9ad6ec2ca986284482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:53:10 +0000
Subject: [PATCH 78/94] fix: empty log file hid records in the next log file
 with the same start sequence number

---
 src/log_manifest.cc | 24 ++++++++----------------
 src/log_manifest.h  |  5 +++++
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 990be03..7df8d1e 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -766,28 +766,15 @@ Status LogManifest::getLogFileInfoBySeq(const uint64_t seq_num,
                                         bool force_not_load_memtable,
                                         bool allow_non_exact_match)
 {
-    LogFileInfo query(0);
+    // NOTE: Among the log files starting with the same sequence number,
+    //       only the last one can have records.
+    LogFileInfo query(NOT_INITIALIZED);
     query.startSeq = seq_num;
     skiplist_node* cursor = skiplist_find_smaller_or_equal
                             ( &logFilesBySeq, &query.snodeBySeq );
     if (!cursor) return Status::LOG_FILE_NOT_FOUND;
 
     LogFileInfo* info = _get_entry(cursor, LogFileInfo, snodeBySeq);
-
-    // Skip empty log files left by a crash: they may have the same start
-    // sequence number as that of the following log file.
-    while (!valid_number(info->file->getMaxSeqNum())) {
-        skiplist_node* next_cursor = skiplist_next(&logFilesBySeq, cursor);
-        if (!next_cursor) break;
-        LogFileInfo* next_info = _get_entry(next_cursor, LogFileInfo, snodeBySeq);
-        if (next_info->startSeq > seq_num) {
-            skiplist_release_node(next_cursor);
-            break;
-        }
-        skiplist_release_node(cursor);
-        cursor = next_cursor;
-        info = next_info;
-    }
     LogFile* file = info->file;
 
     DBMgr* mgr = DBMgr::getWithoutInit();
@@ -800,6 +787,11 @@ Status LogManifest::getLogFileInfoBySeq(const uint64_t seq_num,
     }
 
     uint64_t file_min_seq = file->getMinSeqNum();
+    if (!valid_number(file->getMaxSeqNum())) {
+        // Empty log file.
+        skiplist_release_node(cursor);
+        return Status::LOG_FILE_NOT_FOUND;
+    }
     if (valid_number(file_min_seq) && file_min_seq > seq_num) {
         // WARNING: This can happen for the first log file,
         //          if user uses custom seqnum which is bigger than
diff --git a/src/log_manifest.h b/src/log_manifest.h
index 82a247b..26bd9ef 100644
--- a/src/log_manifest.h
+++ b/src/log_manifest.h
@@ -71,6 +71,11 @@ struct LogFileInfo {
 
         if (aa->startSeq < bb->startSeq) return -1;
         if (aa->startSeq > bb->startSeq) return 1;
+
+        // Empty log files have the same start sequence number as
+        // that of the next log file.
+        if (aa->logFileNum < bb->logFileNum) return -1;
+        if (aa->logFileNum > bb->logFileNum) return 1;
         return 0;
     }
 
-- 
2.43.0


From 18713008b8143abad71188f796ba79aecef4a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:18:30 +0000
Subject: [PATCH 79/94] fix: records appended while the first sync of a log
 file was running were never written to the file

---
 src/log_mgr.cc  |  8 +++++++-
 src/memtable.cc | 11 ++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index ed4a52b..beeb050 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1296,7 +1296,13 @@ Status LogMgr::syncInternal(bool call_fsync) {
         //   risk that the manifest might write an incorrect syncedSeqNum in
         //   another call stack (e.g., addNewLogFile()). This could lead to
         //   data loss in the event of a crash.
-        li->file->setSyncedSeqNum(after_sync);
+        //
+        //   If nothing was written to the file, the synced sequence number
+        //   should remain the same: otherwise, records appended after that
+        //   will be regarded as synced.
+        if (valid_number(after_sync)) {
+            li->file->setSyncedSeqNum(after_sync);
+        }
         _log_( log_level, myLog, "synced log file %zu, min seq %s, "
                "flush seq %s, sync seq %s -> %s, max seq %s",
                ii,
diff --git a/src/memtable.cc b/src/memtable.cc
index 6aca5df..86b2240 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1273,15 +1273,16 @@ Status MemTable::findOffsetOfSeq(SimpleLogger* logger,
 // MemTable flush: skiplist (memory) -> log file. (disk)
 Status MemTable::flush(RwSerializer& rws, uint64_t upto, uint64_t& flushed_seq_out)
 {
-    if (minSeqNum == NOT_INITIALIZED) {
-        // No log in this file. Just do nothing and return OK.
-        return Status();
-    }
-
     // Write logs in a mutation order.
     // From `synced seq num` to `max seq num`
     uint64_t seqnum_upto = maxSeqNum;
 
+    if (minSeqNum == NOT_INITIALIZED || !valid_number(seqnum_upto)) {
+        // No log in this file (or the first one is being appended).
+        // Just do nothing and return OK.
+        return Status();
+    }
+
     // Manually given sequence number limit.
     if (valid_number(upto) && upto < seqnum_upto) {
         seqnum_upto = upto;
-- 
2.43.0


From 81ebb94fc660639130fae76823c6a82143d58b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:34:00 +0000
Subject: [PATCH 80/94] fix: log file was leaked or destroyed twice if removed
 while its last user was leaving

---
 src/log_manifest.h | 118 +++++++++++++++------------------------------
 1 file changed, 40 insertions(+), 78 deletions(-)

diff --git a/src/log_manifest.h b/src/log_manifest.h
index 26bd9ef..2d93482 100644
--- a/src/log_manifest.h
+++ b/src/log_manifest.h
@@ -42,8 +42,6 @@ struct LogFileInfo {
         , startSeq(0)
         , file(nullptr)
         , refCount(0)
-        , snapCount(0)
-        , removed(false)
         , evicted(false) {
         skiplist_init_node(&snodeBySeq);
         skiplist_init_node(&snode);
@@ -51,7 +49,7 @@ struct LogFileInfo {
     ~LogFileInfo() {
         skiplist_free_node(&snodeBySeq);
         skiplist_free_node(&snode);
-        assert(refCount == 0);
+        assert((refCount & ~REMOVED_FLAG) == 0);
     }
 
     static int cmp(skiplist_node *a, skiplist_node *b, void *aux) {
@@ -114,7 +112,7 @@ struct LogFileInfo {
     }
 
     void grabForSnapshot() {
-        snapCount.fetch_add(1);
+        refCount.fetch_add(SNAP_UNIT);
     }
 
     void done() {
@@ -127,85 +125,49 @@ struct LogFileInfo {
 
     void doneInternal(bool snapshot = false) {
         if (snapshot) {
-            assert(snapCount);
+            assert(refCount & SNAP_MASK);
         } else {
-            assert(refCount);
-        }
-        // WARNING: MONSTOR-11561
-        //   We should check `removed` or `evicted` flag first
-        //   and then decrease `refCount`.
-        //
-        //   e.g.)
-        //     T1: done(), decrease refCount to 0, count = 1.
-        //       --- context switch ---
-        //     T2: Increase ref count to 1.
-        //     T2: Do flush, remove file, removed = true.
-        //     T2: done(), decrease refCount to 0, count = 1.
-        //     T2: removed == true && count == 1, destroy the file.
-        //       --- context switch ---
-        //     T1: removed == true && count == 1, destroy the file.
-        if (removed) {
-            uint64_t snap_count = 0;
-            uint64_t ref_count = 0;
-            bool destroy_file = false;
-            if (snapshot) {
-                snap_count = snapCount.fetch_sub(1);
-                ref_count = refCount;
-                destroy_file = (snap_count == 1 && ref_count == 0);
-            } else {
-                snap_count = snapCount;
-                ref_count = refCount.fetch_sub(1);
-                destroy_file = (snap_count == 0 && ref_count == 1);
-            }
-
-            if (destroy_file) {
-                // WARNING:
-                //   While reclaimer is evicting memtable below (in that case
-                //   refCount == 0 already), LogMgr::flush() may grab a file,
-                //   remove it, and then release, which will get into here.
-                //   In this case this file will not be protected and causes crash.
-                //   We should do busy-waiting for eviction here.
-                //
-                // * Note that opposite CANNOT happen, because
-                //   1) This node is already detached from skiplist, and
-                //   2) once `removed` flag is set, reclaimer cannot handle this file.
-                //
-                if (evicted) {
-                    while (!file->isMemTablePurged()) std::this_thread::yield();
-                    // Wait for other job done.
-                }
-                file->destroySelf();
-                delete file;
-                delete this;
-            }
-            return;
+            assert(refCount & REF_MASK);
         }
 
-        if (snapshot == false && evicted) {
-            uint64_t count = refCount.fetch_sub(1);
-            if (count == 1) {
+        // WARNING: MONSTOR-11561
+        //   Both counters and the removed flag are in the same variable, to
+        //   check them and decrease the counter atomically. Otherwise, either
+        //   two threads destroy the file, or nobody does it.
+        const uint64_t unit = snapshot ? SNAP_UNIT : 1;
+        uint64_t prev = refCount;
+        while (true) {
+            if ( !snapshot &&
+                 evicted &&
+                 !(prev & REMOVED_FLAG) &&
+                 (prev & REF_MASK) == 1 ) {
+                // This is the last user of the evicted memtable, purge it.
+                // NOTE: Should be done before decreasing the counter, so that
+                //       other thread cannot destroy this in the meantime.
                 std::lock_guard<std::mutex> l(evictionLock);
-                // WARNING:
-                //   There shouldn't be another thread that called grab() before this.
-                uint64_t count_protected = refCount.load();
-                if (count_protected == 0 && !file->isMemTablePurged()) {
+                if ( evicted &&
+                     getRefCount() == 1 &&
+                     !file->isMemTablePurged() ) {
                     file->purgeMemTable();
                 }
             }
-            return;
+            if (refCount.compare_exchange_strong(prev, prev - unit)) break;
         }
 
-        // Normal case.
-        if (snapshot) {
-            snapCount.fetch_sub(1);
-        } else {
-            refCount.fetch_sub(1);
+        if (prev - unit == REMOVED_FLAG) {
+            // Removed, and this was the last user.
+            file->destroySelf();
+            delete file;
+            delete this;
         }
     }
 
-    uint64_t getRefCount() const { return refCount.load(); }
-    void setRemoved() { removed.store(true); }
-    bool isRemoved() { return removed.load(); }
+    uint64_t getRefCount() const { return refCount.load() & REF_MASK; }
+
+    // WARNING: The caller should hold a reference (i.e., `grab()`), as the
+    //          last `done()` destroys this file.
+    void setRemoved() { refCount.fetch_or(REMOVED_FLAG); }
+    bool isRemoved() { return refCount.load() & REMOVED_FLAG; }
     void setEvicted() {
         std::lock_guard<std::mutex> l(evictionLock);
         evicted.store(true);
@@ -221,15 +183,15 @@ struct LogFileInfo {
 
     LogFile* file;
 
-    // Reference counter (accessing MemTable).
+    // Lower 32 bits: reference counter (accessing MemTable).
+    // Next 31 bits: snapshot counter (blocking file removal).
+    // The highest bit: flag indicating whether or not this file is removed.
+    static const uint64_t REF_MASK = 0xffffffffULL;
+    static const uint64_t SNAP_UNIT = (uint64_t)1 << 32;
+    static const uint64_t SNAP_MASK = 0x7fffffffULL << 32;
+    static const uint64_t REMOVED_FLAG = (uint64_t)1 << 63;
     std::atomic<uint64_t> refCount;
 
-    // Snapshot counter (blocking file removal).
-    std::atomic<uint64_t> snapCount;
-
-    // Flag indicating whether or not this file is removed.
-    std::atomic<bool> removed;
-
     // Flag indicating whether or not this file is evicted from LRU.
     std::atomic<bool> evicted;
 
-- 
2.43.0


From 97e492275b2bef6807b0d1c5aea4e3afd05b03c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:40:09 +0000
Subject: [PATCH 81/94] fix: point queries missed level-0 tables while one of
 them was being replaced

---
 src/table_manifest.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index e03ed07..b4b50f6 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -32,7 +32,17 @@ int TableInfo::cmp(skiplist_node *a, skiplist_node *b, void *aux) {
     TableInfo *aa, *bb;
     aa = _get_entry(a, TableInfo, snode);
     bb = _get_entry(b, TableInfo, snode);
-    return static_cast<const TableMgr*>(aux)->cmpKeys(aa->minKey, bb->minKey);
+    int cmp = static_cast<const TableMgr*>(aux)->cmpKeys(aa->minKey, bb->minKey);
+    if (cmp == 0 && aa->level == 0 && bb->level == 0) {
+        // WARNING:
+        //   All tables in level-0 have the same (empty) min key. They should
+        //   be sorted by number, so that a reader traversing them meets the
+        //   new table after the old one that is being replaced, and does not
+        //   lose its position even though the current table is removed.
+        if (aa->number < bb->number) return -1;
+        if (aa->number > bb->number) return 1;
+    }
+    return cmp;
 }
 
 
-- 
2.43.0


From 4f252b70c2178e67a76afd2a43d951132de77874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:40:09 +0000
Subject: [PATCH 82/94] fix: queries missed records moved to a level that was
 added during the query

---
 src/table_iterator.cc |  6 +++++-
 src/table_mgr.cc      | 25 ++++++++++++++++---------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index 7166c13..56011fd 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -141,7 +141,11 @@ Status TableMgr::Iterator::initInternal(DB* snap_handle,
 
     } else {
         // Normal
-        for (size_t ii=0; ii<n_levels; ++ii) {
+        // WARNING:
+        //   The number of levels should be checked every time, as compaction
+        //   can add a new level and move records to it in the meantime.
+        for (size_t ii=0; ii<tMgr->mani->getNumLevels(); ++ii) {
+            if (tables.size() <= ii) tables.resize(ii + 1);
             std::list<TableInfo*> t_info_ret;
             SizedBuf empty_key;
             if (ii == 0) {
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 870b02d..68611a8 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -529,9 +529,10 @@ Status TableMgr::openSnapshot(DB* snap_handle,
     }
 
     SizedBuf empty_key;
-    size_t num_levels = mani->getNumLevels();
-
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // WARNING:
+    //   The number of levels should be checked every time, as compaction can
+    //   add a new level and move records to it in the meantime.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         s = mani->getTablesRange(ii, empty_key, empty_key, *t_list);
         if (!s) continue;
     }
@@ -591,9 +592,11 @@ Status TableMgr::get(DB* snap_handle,
 
     Status s;
     Record latest_rec;
-    size_t num_levels = mani->getNumLevels();
 
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // WARNING:
+    //   The number of levels should be checked every time, as compaction can
+    //   add a new level and move records to it in the meantime.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         std::list<TableInfo*> tables;
         if (snap_handle) {
             // WARNING: Current tables may be different from
@@ -734,7 +737,6 @@ Status TableMgr::getNearest(DB* snap_handle,
     };
 
     Status s;
-    size_t num_levels = mani->getNumLevels();
 
     // NOTE:
     //   Unlike point query, nearest search should check the all level,
@@ -742,7 +744,10 @@ Status TableMgr::getNearest(DB* snap_handle,
     SizedBuf next_key;
     SizedBuf::Holder h_next_key(next_key);
     bool search_next = false;
-    for (size_t ii=0; ii<num_levels; ii += (search_next) ? 0 : 1) {
+    // WARNING:
+    //   The number of levels should be checked every time, as compaction can
+    //   add a new level and move records to it in the meantime.
+    for (size_t ii=0; ii<mani->getNumLevels(); ii += (search_next) ? 0 : 1) {
         std::list<TableInfo*> tables;
         if (snap_handle) {
             getSnapTables(snap_handle, ii, nullptr, tables);
@@ -808,9 +813,11 @@ Status TableMgr::getPrefix(DB* snap_handle,
     if (db_config->logSectionOnly) return Status::KEY_NOT_FOUND;
 
     Status s;
-    size_t num_levels = mani->getNumLevels();
 
-    for (size_t ii=0; ii<num_levels; ++ii) {
+    // WARNING:
+    //   The number of levels should be checked every time, as compaction can
+    //   add a new level and move records to it in the meantime.
+    for (size_t ii=0; ii<mani->getNumLevels(); ++ii) {
         std::list<TableInfo*> tables;
         if (snap_handle) {
             getSnapTables(snap_handle, ii, nullptr, tables);
-- 
2.43.0


From b8faca727617751f00e6e5e50eeb607191de3c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:52:22 +0000
Subject: [PATCH 83/94] fix: record written while a flush up to its sequence
 number was running was lost

---
 src/log_mgr.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index beeb050..519bd64 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1490,20 +1490,26 @@ Status LogMgr::flush(const FlushOptions& options,
             }
         }
 
-        if (!options.beyondLastSync && !options.purgeOnly) {
+        if (!options.purgeOnly) {
             // Should not go beyond the last synced sequence number either.
             // Otherwise, tables will have records that do not survive in
             // logs, in case of crash.
-            uint64_t synced_seq = NOT_INITIALIZED;
+            // Even when we are allowed to go beyond that, should not go
+            // beyond the last record. Otherwise, a record written after we
+            // gather records will be treated as flushed.
+            uint64_t seq_limit = NOT_INITIALIZED;
             for (;;) {
                 LogFileInfoGuard ll(mani->getLogFileInfoP(ln_to, true));
-                synced_seq = ll.empty() ? NOT_INITIALIZED
-                                        : ll->file->getSyncedSeqNum();
-                if (valid_number(synced_seq)) break;
+                if (!ll.empty()) {
+                    seq_limit = (options.beyondLastSync)
+                                ? ll->file->getMaxSeqNum()
+                                : ll->file->getSyncedSeqNum();
+                }
+                if (valid_number(seq_limit)) break;
                 if (ln_to <= ln_from) return Status::LOG_NOT_SYNCED;
                 ln_to--;
             }
-            if (synced_seq < seq_num_local) seq_num_local = synced_seq;
+            if (seq_limit < seq_num_local) seq_num_local = seq_limit;
         }
     }
     _log_debug(myLog, "Given seq upto %s, actual seq upto %ld",
-- 
2.43.0


From 337902bb4ba09765683dd966d2ac2c208ca62c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:11:39 +0000
Subject: [PATCH 84/94] fix: iterators and snapshots showed records being
 written, or a part of a batch

---
 src/global_batch.cc |   2 +-
 src/log_iterator.cc |   3 +-
 src/log_mgr.cc      | 108 +++++++++++++++++++++-----------------------
 src/log_mgr.h       |   9 +++-
 4 files changed, 61 insertions(+), 61 deletions(-)

diff --git a/src/global_batch.cc b/src/global_batch.cc
index ba8492f..e9201cb 100644
--- a/src/global_batch.cc
+++ b/src/global_batch.cc
@@ -86,7 +86,7 @@ Status GlobalBatchExecutor::execute(const GlobalBatch& g_batch) {
             const GlobalBatch::BatchPair& pair = entry;
             // WARNING:
             //   Should clean-up visible seq barrier first.
-            pair.db->p->logMgr->setVisibleSeqBarrier(0);
+            pair.db->p->logMgr->setVisibleSeqBarrier(NOT_INITIALIZED);
             pair.db->p->logMgr->setGlobalBatch(0, nullptr);
             // Unlock should be done at the end.
             pair.db->p->logMgr->unlockWriteMutex();
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 133c68e..5cf32fc 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -110,8 +110,7 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
     //   fetching `visibleSeqBarrier` should be done AFTER
     //   fetching max seq number (`getAvailSeqRange` above).
     uint64_t visible_seq_barrier = log_mgr->getVisibleSeqBarrier();
-    if ( visible_seq_barrier &&
-         maxSeqSnap > visible_seq_barrier ) {
+    if (maxSeqSnap > visible_seq_barrier) {
         maxSeqSnap = visible_seq_barrier;
     }
 
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 519bd64..625829f 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -39,7 +39,8 @@ LogMgr::LogMgr(DB* parent_db, const LogMgrOptions& lm_opt)
     , throttlingRate(0)
     , lastFlushIntervalMs(0)
     , numSetRecords(0)
-    , visibleSeqBarrier(0)
+    , visibleSeqBarrier(NOT_INITIALIZED)
+    , visibleSeqEpoch(0)
     , fwdVisibleSeqBarrier(0)
     , globalBatchStatus(nullptr)
     , numMemtables(0)
@@ -721,7 +722,7 @@ Status LogMgr::setMulti(const std::list<Record>& batch) {
     getMaxSeqNum(max_seq); // empty log should be tolerated.
     setVisibleSeqBarrier(max_seq);
     GcFunc gc_vs( [&]{
-        setVisibleSeqBarrier(0);
+        setVisibleSeqBarrier(NOT_INITIALIZED);
     } );
 
     EP( checkBatchValidity(batch) );
@@ -737,7 +738,8 @@ Status LogMgr::setMulti(const std::list<Record>& batch) {
 }
 
 void LogMgr::setVisibleSeqBarrier(uint64_t to) {
-    visibleSeqBarrier.store(to, MOR);
+    visibleSeqBarrier.store(to);
+    visibleSeqEpoch.fetch_add(1);
 }
 
 void LogMgr::setGlobalBatch(uint64_t fwd_barrier,
@@ -769,7 +771,7 @@ uint64_t LogMgr::getVisibleSeqBarrier() {
         // 2) The entire process of global batch is done,
         // then the same as the normal case.
     }
-    return visibleSeqBarrier.load(MOR);
+    return visibleSeqBarrier.load();
 }
 
 Status LogMgr::checkBatchValidity(const std::list<Record>& batch)
@@ -864,8 +866,7 @@ Status LogMgr::getSN(const uint64_t seq_num, Record& rec_out) {
     uint64_t max_seq = gg->file->getMaxSeqNum();
     uint64_t visible_seq_barrier = getVisibleSeqBarrier();
     if ( seq_num > max_seq ||
-         ( visible_seq_barrier &&
-           seq_num > visible_seq_barrier ) ) {
+         seq_num > visible_seq_barrier ) {
         return Status::KEY_NOT_FOUND;
     }
 
@@ -937,9 +938,7 @@ Status LogMgr::get(const uint64_t chk,
                 // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
                 //          fetching max seq number.
                 uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                chk_local = std::min(chk_local, visible_seq_barrier);
 
                 s = l_info->file->get(chk_local, key, rec_out_local, false, true);
                 if (s) {
@@ -1056,9 +1055,7 @@ Status LogMgr::getNearest(const uint64_t chk,
                 // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
                 //          fetching max seq number.
                 uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                chk_local = std::min(chk_local, visible_seq_barrier);
 
                 s = l_info->file->getNearest(chk_local, key, rec_out_local,
                                              false, true, s_opt);
@@ -1152,9 +1149,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
                 // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
                 //          fetching max seq number.
                 uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
-                    chk_local = std::min(chk_local, visible_seq_barrier);
-                }
+                chk_local = std::min(chk_local, visible_seq_barrier);
 
                 s = l_info->file->getPrefix(chk_local, prefix, cb_func, false, true);
                 if (s == Status::OPERATION_STOPPED) {
@@ -1277,6 +1272,10 @@ Status LogMgr::syncInternal(bool call_fsync) {
 
     uint64_t last_synced_log = ln_from;
     uint64_t seq_barrier = getVisibleSeqBarrier();
+    if (!seq_barrier) {
+        // The very first batch is in progress, nothing to be synced yet.
+        return Status();
+    }
     for (uint64_t ii=ln_from; ii<=ln_to; ++ii) {
         // Write log file first
         LogFileInfoGuard li(mani->getLogFileInfoP(ii));
@@ -1284,8 +1283,7 @@ Status LogMgr::syncInternal(bool call_fsync) {
 
         uint64_t before_sync = li->file->getSyncedSeqNum();
         uint64_t after_sync = NOT_INITIALIZED;
-        EP( li->file->flushMemTable( (seq_barrier ? seq_barrier : NOT_INITIALIZED),
-                                     after_sync ) );
+        EP( li->file->flushMemTable(seq_barrier, after_sync) );
         if (call_fsync) {
             EP( li->file->sync() );
         }
@@ -1432,7 +1430,7 @@ Status LogMgr::flush(const FlushOptions& options,
 
     uint64_t seq_num_local = seq_num;
     uint64_t seq_barrier = getVisibleSeqBarrier();
-    if (seq_barrier && seq_barrier < seq_num_local) {
+    if (seq_barrier < seq_num_local) {
         seq_num_local = seq_barrier;
     }
 
@@ -1519,7 +1517,7 @@ Status LogMgr::flush(const FlushOptions& options,
         LogFileInfoGuard ll(mani->getLogFileInfoP(ln_from, true));
         uint64_t last_flushed_seq = ll->file->getFlushedSeqNum();
         uint64_t seq_limit = seq_num;
-        if (seq_barrier && seq_barrier < seq_limit) seq_limit = seq_barrier;
+        if (seq_barrier < seq_limit) seq_limit = seq_barrier;
         if (valid_number(last_flushed_seq) && last_flushed_seq >= seq_limit) {
             // Already flushed. Do nothing.
             return Status::ALREADY_FLUSHED;
@@ -1893,53 +1891,51 @@ Status LogMgr::getAvailSeqRange(uint64_t& min_seq,
 
     // Note: if max file doesn't exist, it means there is no log.
     //       Return failure in that case.
-    uint64_t ln_max = NOT_INITIALIZED;
-   for (;;) {
-    EP( mani->getMaxLogFileNum(ln_max) );
-    LogFileInfoGuard li_max(mani->getLogFileInfoP(ln_max, true));
-    if (li_max.empty() || li_max.ptr->isRemoved()) continue;
-    max_seq = li_max->file->getMaxSeqNum();
-    break;
-   }
-
-    return Status();
+    return getMaxSeqNum(max_seq);
 }
 
 Status LogMgr::getMaxSeqNum(uint64_t& seq_num_out) {
     Status s;
-    uint64_t ln_max = 0;
-    uint64_t max_seq = NOT_INITIALIZED;
     const size_t MAX_TRY = 16;
 
-    uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-    if (visible_seq_barrier) {
-        seq_num_out = visible_seq_barrier;
-        return Status();
-    }
-
-   for (size_t num_tries = 0; num_tries < MAX_TRY; num_tries++) {
-    EP( mani->getMaxLogFileNum(ln_max) );
+    // WARNING:
+    //   If a batch starts or finishes in the middle of this function, the max
+    //   sequence number may point to the middle of the batch while the barrier
+    //   is not there. Should read them again in such a case, otherwise
+    //   iterators and snapshots will see a part of the batch.
+    for (;;) {
+        uint64_t epoch = visibleSeqEpoch.load();
+        uint64_t barrier = getVisibleSeqBarrier();
+
+        uint64_t ln_max = 0;
+        uint64_t max_seq = NOT_INITIALIZED;
+        for (size_t num_tries = 0; num_tries < MAX_TRY; num_tries++) {
+            EP( mani->getMaxLogFileNum(ln_max) );
 
-    bool succ = false;
-    for (int64_t cur_idx = ln_max; cur_idx >= 0; --cur_idx) {
-        LogFileInfoGuard li(mani->getLogFileInfoP(cur_idx, true));
-        if (li.empty() || li.ptr->isRemoved()) {
-            break;
-        }
-        max_seq = li->file->getMaxSeqNum();
-        if (max_seq != NOT_INITIALIZED) {
-            succ = true;
-            break;
+            bool succ = false;
+            for (int64_t cur_idx = ln_max; cur_idx >= 0; --cur_idx) {
+                LogFileInfoGuard li(mani->getLogFileInfoP(cur_idx, true));
+                if (li.empty() || li.ptr->isRemoved()) {
+                    break;
+                }
+                max_seq = li->file->getMaxSeqNum();
+                if (max_seq != NOT_INITIALIZED) {
+                    succ = true;
+                    break;
+                }
+            }
+            if (succ) break;
         }
-    }
-    if (succ) break;
-   }
 
-    if (max_seq == NOT_INITIALIZED) {
-        return Status::LOG_NOT_EXIST;
+        if ( barrier != getVisibleSeqBarrier() ||
+             epoch != visibleSeqEpoch.load() ) continue;
+
+        if (max_seq == NOT_INITIALIZED || !barrier) {
+            return Status::LOG_NOT_EXIST;
+        }
+        seq_num_out = std::min(max_seq, barrier);
+        return Status();
     }
-    seq_num_out = max_seq;
-    return Status();
 }
 
 Status LogMgr::getMinSeqNum(uint64_t& seq_num_out) {
diff --git a/src/log_mgr.h b/src/log_mgr.h
index ae142bf..a491ada 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -433,11 +433,16 @@ protected:
     std::atomic<int64_t> numSetRecords;
 
     /**
-     * If non-zero, records up to this number (inclusive) will be
-     * visible to user.
+     * If it is not `NOT_INITIALIZED`, records up to this number (inclusive)
+     * will be visible to user.
      */
     std::atomic<uint64_t> visibleSeqBarrier;
 
+    /**
+     * Increased whenever `visibleSeqBarrier` changes.
+     */
+    std::atomic<uint64_t> visibleSeqEpoch;
+
     /**
      * Global batch.
      */
-- 
2.43.0


From 1e84c4f564a8c831bdde5d438d442b5383e40475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:15:21 +0000
Subject: [PATCH 85/94] fix: iterators missed or mixed records if a flush
 finished while they were being opened

---
 src/iterator.cc | 86 ++++++++++++++++++++++++++++++++-----------------
 src/log_mgr.cc  |  3 ++
 src/log_mgr.h   | 11 +++++++
 3 files changed, 70 insertions(+), 30 deletions(-)

diff --git a/src/iterator.cc b/src/iterator.cc
index 83cb5f8..eb43641 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -40,21 +40,13 @@ Status Iterator::init(DB* dd,
         avl_set_aux(&p->curWindow, (void*)p->db);
     }
 
-    // LogMgr iterator
-    ItrInt::ItrItem* ctx_log = new ItrInt::ItrItem();
-    ctx_log->logItr = new LogMgr::Iterator();
-    s = ctx_log->logItr->init( (dd->sn) ? dd : nullptr,
-                               p->db->p->logMgr,
-                               start_key,
-                               end_key );
-    if (s) s = ctx_log->logItr->get(ctx_log->lastRec);
-    if (s) {
-        avl_node* avl_ret =
-            avl_insert(&p->curWindow, &ctx_log->an, ItrInt::ItrItem::cmpKey);
-        assert(avl_ret == &ctx_log->an);
-        (void)avl_ret;
-    }
-    p->itrs.push_back(ctx_log);
+    // WARNING:
+    //   If a flush finishes in the middle of the initialization, this iterator
+    //   may miss the records moved from logs to tables, or may have records
+    //   newer than the others. Tables should be opened first, and we should
+    //   start over in such a case.
+   for (;;) {
+    const uint64_t flush_epoch = p->db->p->logMgr->getFlushEpoch();
 
     // TableMgr iterator
     ItrInt::ItrItem* ctx_table = new ItrInt::ItrItem();
@@ -80,6 +72,27 @@ Status Iterator::init(DB* dd,
     }
     p->itrs.push_back(ctx_table);
 
+    // LogMgr iterator
+    ItrInt::ItrItem* ctx_log = new ItrInt::ItrItem();
+    ctx_log->logItr = new LogMgr::Iterator();
+    s = ctx_log->logItr->init( (dd->sn) ? dd : nullptr,
+                               p->db->p->logMgr,
+                               start_key,
+                               end_key );
+    if (s) s = ctx_log->logItr->get(ctx_log->lastRec);
+    if (s) {
+        avl_node* avl_ret =
+            avl_insert(&p->curWindow, &ctx_log->an, ItrInt::ItrItem::cmpKey);
+        assert(avl_ret == &ctx_log->an);
+        (void)avl_ret;
+    }
+    p->itrs.push_back(ctx_log);
+
+    if (dd->sn || flush_epoch == p->db->p->logMgr->getFlushEpoch()) break;
+    close();
+    p->db = dd;
+   }
+
     p->windowCursor = avl_first(&p->curWindow);
 
     // NOTE:
@@ -116,21 +129,13 @@ Status Iterator::initSN(DB* db,
         avl_set_aux(&p->curWindow, (void*)p->db);
     }
 
-    // LogMgr iterator
-    ItrInt::ItrItem* ctx_log = new ItrInt::ItrItem();
-    ctx_log->logItr = new LogMgr::Iterator();
-    s = ctx_log->logItr->initSN( (db->sn) ? db : nullptr,
-                                 p->db->p->logMgr,
-                                 min_seq,
-                                 max_seq );
-    if (s) s = ctx_log->logItr->get(ctx_log->lastRec);
-    if (s) {
-        avl_node* ret =
-            avl_insert(&p->curWindow, &ctx_log->an, ItrInt::ItrItem::cmpSeq);
-        assert(ret == &ctx_log->an);
-        (void)ret;
-    }
-    p->itrs.push_back(ctx_log);
+    // WARNING:
+    //   If a flush finishes in the middle of the initialization, this iterator
+    //   may miss the records moved from logs to tables, or may have records
+    //   newer than the others. Tables should be opened first, and we should
+    //   start over in such a case.
+   for (;;) {
+    const uint64_t flush_epoch = p->db->p->logMgr->getFlushEpoch();
 
     // TableMgr iterator
     ItrInt::ItrItem* ctx_table = new ItrInt::ItrItem();
@@ -148,6 +153,27 @@ Status Iterator::initSN(DB* db,
     }
     p->itrs.push_back(ctx_table);
 
+    // LogMgr iterator
+    ItrInt::ItrItem* ctx_log = new ItrInt::ItrItem();
+    ctx_log->logItr = new LogMgr::Iterator();
+    s = ctx_log->logItr->initSN( (db->sn) ? db : nullptr,
+                                 p->db->p->logMgr,
+                                 min_seq,
+                                 max_seq );
+    if (s) s = ctx_log->logItr->get(ctx_log->lastRec);
+    if (s) {
+        avl_node* ret =
+            avl_insert(&p->curWindow, &ctx_log->an, ItrInt::ItrItem::cmpSeq);
+        assert(ret == &ctx_log->an);
+        (void)ret;
+    }
+    p->itrs.push_back(ctx_log);
+
+    if (db->sn || flush_epoch == p->db->p->logMgr->getFlushEpoch()) break;
+    close();
+    p->db = db;
+   }
+
     p->windowCursor = avl_first(&p->curWindow);
 
     // NOTE:
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 625829f..9d6a36b 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -41,6 +41,7 @@ LogMgr::LogMgr(DB* parent_db, const LogMgrOptions& lm_opt)
     , numSetRecords(0)
     , visibleSeqBarrier(NOT_INITIALIZED)
     , visibleSeqEpoch(0)
+    , flushEpoch(0)
     , fwdVisibleSeqBarrier(0)
     , globalBatchStatus(nullptr)
     , numMemtables(0)
@@ -1588,6 +1589,7 @@ Status LogMgr::flush(const FlushOptions& options,
         }
 
         // Set flush log & seq number.
+        flushEpoch.fetch_add(1);
         for (uint64_t ii = ln_from; ii <= ln_to; ++ii) {
             LogFileInfoGuard ll(mani->getLogFileInfoP(ii));
             if (options.beyondLastSync) {
@@ -1605,6 +1607,7 @@ Status LogMgr::flush(const FlushOptions& options,
         // Purge only mode: set flush seq number of the last file.
         // WARNING: Should avoid loading memtable because of this call.
         LogFileInfoGuard ll(mani->getLogFileInfoP(ln_to, true));
+        flushEpoch.fetch_add(1);
         EP( ll->file->setFlushedSeqNum(seq_num_local) );
     }
 
diff --git a/src/log_mgr.h b/src/log_mgr.h
index a491ada..82dfff0 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -174,6 +174,12 @@ public:
 
     uint64_t getVisibleSeqBarrier();
 
+    /**
+     * Get the number that changes whenever logs become flushed,
+     * before they disappear from the log section.
+     */
+    uint64_t getFlushEpoch() const { return flushEpoch.load(); }
+
     Status checkBatchValidity(const std::list<Record>& batch);
 
     Status setMultiInternal(const std::list<Record>& batch,
@@ -443,6 +449,11 @@ protected:
      */
     std::atomic<uint64_t> visibleSeqEpoch;
 
+    /**
+     * Increased whenever logs become flushed.
+     */
+    std::atomic<uint64_t> flushEpoch;
+
     /**
      * Global batch.
      */
-- 
2.43.0


From ded8cdf4b58c833c99deba23ba33ed09e192d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:15:21 +0000
Subject: [PATCH 86/94] fix: crash in storing the table manifest while a new
 level is being added

---
 src/table_manifest.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index b4b50f6..8f354e5 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -314,7 +314,7 @@ Status TableManifest::store(bool call_fsync) {
     // | Level entry,                   ...
     // +--- N times
     ss.putU64(maxTableNum.load(MOR));
-    uint32_t num_levels = levels.size();
+    uint32_t num_levels = getNumLevels();
     ss.putU32(num_levels);
 
     for (size_t ii=0; ii<num_levels; ++ii) {
@@ -445,8 +445,11 @@ Status TableManifest::extendLevel() {
     size_t new_level = 0;
     {   std::lock_guard<std::mutex> l(levelsLock);
         new_level = levels.size();
-        levels.resize(new_level + 1);
-        levels[new_level] = new LevelInfo(tableMgr);
+        // WARNING:
+        //   The new level is visible to others as soon as the size of the
+        //   list changes (note that the space is reserved in advance).
+        LevelInfo* l_info = new LevelInfo(tableMgr);
+        levels.push_back(l_info);
     }
     uint64_t level_limit = tableMgr->getLevelSizeLimit(new_level);
     uint64_t table_limit = tableMgr->getDbConfig()->getMaxTableSize(new_level);
-- 
2.43.0


From a080d69da0cc095cb6a829ebbfb91fe47e374df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:15:35 +0000
Subject: [PATCH 87/94] fix: last synced log file number was moved backward by
 sync after flush beyond it

---
 src/log_mgr.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 9d6a36b..c570ddb 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1321,7 +1321,12 @@ Status LogMgr::syncInternal(bool call_fsync) {
     }
 
     // Sync up manifest file next
-    mani->setLastSyncedLog(last_synced_log);
+    // NOTE: Flush beyond the last sync may have moved it forward already.
+    uint64_t cur_synced_log = NOT_INITIALIZED;
+    s = mani->getLastSyncedLog(cur_synced_log);
+    if (!s || cur_synced_log < last_synced_log) {
+        mani->setLastSyncedLog(last_synced_log);
+    }
 
     const DBConfig* db_config = getDbConfig();
     if (!db_config->skipManifestSync || needSkippedManiSync) {
-- 
2.43.0


From 2b1c881fe67257a9cae9b639ea889dbf9467a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:30:24 +0000
Subject: [PATCH 88/94] fix: snapshots missed or mixed records if a flush or
 migration was running while they were being opened

---
 src/jungle.cc    | 46 ++++++++++++++++++++++++++++++++--------------
 src/table_mgr.cc | 11 ++++++++++-
 2 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/jungle.cc b/src/jungle.cc
index 37fdc43..e2e55db 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -284,7 +284,6 @@ Status DB::openSnapshot(DB** snap_out,
     Status s;
     EP( p->checkHandleValidity() );
 
-    uint64_t chk_local = checkpoint;
     if (checkpoint) {
         // If checkpoint is given, find exact match.
         std::list<uint64_t> chk_nums;
@@ -298,22 +297,41 @@ Status DB::openSnapshot(DB** snap_out,
             }
         }
         if (!found) return Status::INVALID_CHECKPOINT;
-    } else {
-        // If 0, take the latest snapshot.
-        // NOTE: Should tolerate error for empty DB.
-        p->logMgr->getMaxSeqNum(chk_local);
     }
-    uint64_t last_flush_seq = 0;
-    p->logMgr->getLastFlushedSeqNum(last_flush_seq);
 
-    DB* snap = new DB(this, last_flush_seq, chk_local);
-
-    p->logMgr->openSnapshot(snap, chk_local, snap->sn->logList);
-    // Maybe need same parameter to logList above.
-    p->tableMgr->openSnapshot(snap, chk_local, snap->sn->tableList);
-    *snap_out = snap;
+    // WARNING:
+    //   If a flush finishes in the middle of the snapshot creation, the
+    //   snapshot may miss the records moved from logs to tables, or may have
+    //   records newer than the others. Tables should be opened first, and we
+    //   should start over in such a case.
+    for (;;) {
+        const uint64_t flush_epoch = p->logMgr->getFlushEpoch();
+
+        DB* snap = new DB(this, 0, 0);
+        p->tableMgr->openSnapshot( snap,
+                                   checkpoint ? checkpoint : NOT_INITIALIZED,
+                                   snap->sn->tableList );
+
+        uint64_t last_flush_seq = 0;
+        p->logMgr->getLastFlushedSeqNum(last_flush_seq);
+
+        uint64_t chk_local = checkpoint;
+        if (!checkpoint) {
+            // If 0, take the latest snapshot.
+            // NOTE: Should tolerate error for empty DB (or empty log).
+            s = p->logMgr->getMaxSeqNum(chk_local);
+            if (!s) chk_local = last_flush_seq;
+        }
+        snap->sn->chkNum = chk_local;
+        snap->sn->lastFlush = last_flush_seq;
+        p->logMgr->openSnapshot(snap, chk_local, snap->sn->logList);
 
-    return Status();
+        if (flush_epoch == p->logMgr->getFlushEpoch()) {
+            *snap_out = snap;
+            return Status();
+        }
+        DB::close(snap);
+    }
 }
 
 Status DB::cloneManifest(const std::string& target_path,
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 68611a8..5e5e6ee 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -537,10 +537,19 @@ Status TableMgr::openSnapshot(DB* snap_handle,
         if (!s) continue;
     }
 
-    // If `checkpoint == 0`, take the latest one.
+    // If `checkpoint` is beyond the last one (`NOT_INITIALIZED`),
+    // take the latest one.
+    std::set<TableFile*> opened_files;
     auto entry = t_list->begin();
     while (entry != t_list->end()) {
         TableInfo* info = *entry;
+        if (!opened_files.insert(info->file).second) {
+            // The same file has been migrated to the next level in the
+            // meantime, should not open it twice.
+            info->done();
+            entry = t_list->erase(entry);
+            continue;
+        }
         s = info->file->openSnapshot(snap_handle, checkpoint);
         if (s == Status::TABLE_NOT_FOUND) {
             // Empty table at that moment, not a part of the snapshot.
-- 
2.43.0


From 8fc0be8c0db747ac5569c6dbcb35e9291298520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:10:38 +0000
Subject: [PATCH 89/94] fix: point queries showed a record being written to an
 empty log file, which disappeared afterwards

---
 src/log_mgr.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index c570ddb..cddf183 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -935,6 +935,8 @@ Status LogMgr::get(const uint64_t chk,
 
                 // Reserve max seq number as a temporary snapshot.
                 chk_local = l_info->file->getMaxSeqNum();
+                // Nothing is visible in this file yet.
+                if (!valid_number(chk_local)) continue;
 
                 // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
                 //          fetching max seq number.
@@ -1052,6 +1054,8 @@ Status LogMgr::getNearest(const uint64_t chk,
 
                 // Reserve max seq number as a temporary snapshot.
                 chk_local = l_info->file->getMaxSeqNum();
+                // Nothing is visible in this file yet.
+                if (!valid_number(chk_local)) continue;
 
                 // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
                 //          fetching max seq number.
@@ -1146,6 +1150,8 @@ Status LogMgr::getPrefix(const uint64_t chk,
 
                 // Reserve max seq number as a temporary snapshot.
                 chk_local = l_info->file->getMaxSeqNum();
+                // Nothing is visible in this file yet.
+                if (!valid_number(chk_local)) continue;
 
                 // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
                 //          fetching max seq number.
-- 
2.43.0


From e315e2d49e629e156c97a6cce13b15ddd4dddcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:27:09 +0000
Subject: [PATCH 90/94] fix: merge aborted if other thread removed the table
 right before the victim

---
 src/table_split.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table_split.cc b/src/table_split.cc
index aea410e..e555a9a 100644
--- a/src/table_split.cc
+++ b/src/table_split.cc
@@ -415,9 +415,9 @@ Status TableMgr::mergeLevel(const CompactOptions& options,
 
     TableFile::Iterator* itr = nullptr;
    try {
-    assert(target_table);
     if (!target_table) {
-        // It should not happen anyway.
+        // Other thread has changed the tables after the victim was chosen,
+        // and the victim is now the first table of the level.
         throw Status( Status::TABLE_NOT_FOUND );
     }
 
-- 
2.43.0


From 4b221631bcae7298545654acf4b1077842b4658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:23 +0000
Subject: [PATCH 91/94] fix: table added by compaction was used after other
 thread could remove it

---
 src/table_manifest.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index 8f354e5..600b1cb 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -505,6 +505,9 @@ Status TableManifest::addTableFile(size_t level,
 
     // Non-tiering mode:
     //   Duplicate min-key SHOULD NOT exist.
+    // WARNING:
+    //   Once it is inserted, other thread can remove it.
+    t_info->grab();
     skiplist_insert(cur_level->tables, &t_info->snode);
     cur_level->numTables.fetch_add(1);
     _log_info( myLog, "level %zu: added table %zu_%zu (hash %zu) to manifest, "
@@ -514,6 +517,7 @@ Status TableManifest::addTableFile(size_t level,
                t_file->getNumber(), hash_num,
                t_info->minKey.toReadableString().c_str(),
                cur_level->numTables.load() );
+    t_info->done();
     return Status();
 }
 
-- 
2.43.0


From c5f5a0338f146a7beef25f87c78577e8ee2cceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:58 +0000
Subject: [PATCH 92/94] fix: compaction crashed if other compaction of the same
 hash finished at the same time

---
 src/table_compaction.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index a15b6bd..e3b059e 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -803,22 +803,26 @@ Status TableMgr::compactL0(const CompactOptions& options,
     Status s;
     const DBConfig* db_config = getDbConfig();
 
-    std::list<TableInfo*> tables;
-    s = mani->getL0Tables(hash_num, tables);
-    if (!s) {
-        _log_warn(myLog, "tables of hash %zu not found", hash_num);
-        return s;
-    }
-
     bool exp = false;
     bool val = true;
     if (!compactStatus[hash_num]->compare_exchange_strong(exp, val)) {
         // Compaction is already in progress.
         _log_warn(myLog, "compaction hash %zu is in progress", hash_num);
-        for (TableInfo*& table: tables) table->done();
         return Status::OPERATION_IN_PROGRESS;
     }
 
+    // WARNING:
+    //   Should get the tables after the above status is set, otherwise
+    //   the list may not have the tables that the previous compaction
+    //   of the same hash added.
+    std::list<TableInfo*> tables;
+    s = mani->getL0Tables(hash_num, tables);
+    if (!s) {
+        _log_warn(myLog, "tables of hash %zu not found", hash_num);
+        compactStatus[hash_num]->store(false);
+        return s;
+    }
+
     std::stringstream s_log_msg_prefix;
     DBMgr* db_mgr = DBMgr::getWithoutInit();
     SimpleLogger* global_log = db_mgr->getLogger();
-- 
2.43.0


From 609a009dde828d67c03bb741dc3feb4269ba38f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:58 +0000
Subject: [PATCH 93/94] fix: flush crashed if the log file was removed right
 before it

---
 src/log_mgr.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index cddf183..5cff803 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1455,7 +1455,10 @@ Status LogMgr::flush(const FlushOptions& options,
         //   incorrect sequence number.
         while (true) {
             LogFileInfoGuard ll(mani->getLogFileInfoP(ln_to, true));
-            if (options.beyondLastSync) {
+            if (ll.empty()) {
+                // Log file does not exist (anymore), nothing to be flushed.
+                seq_num_local = NOT_INITIALIZED;
+            } else if (options.beyondLastSync) {
                 seq_num_local = ll->file->getMaxSeqNum();
             } else {
                 seq_num_local = ll->file->getSyncedSeqNum();
-- 
2.43.0


From 14e18aa8018753c1360f6fade523828b47874ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 94/94] fix: deleted record appeared again if tombstone was
 purged after crash during merge

---
 src/table_file.cc            | 5 +++++
 src/table_file_compaction.cc | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/table_file.cc b/src/table_file.cc
index 3d1ff57..c6c5623 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -903,9 +903,14 @@ Status TableFile::setSingle(uint32_t key_hash_val,
     doc.flags = FDB_CUSTOM_SEQNUM;
 
     bool deletion_executed = false;
+    // WARNING:
+    //   If the previous table may have older records of this table's range
+    //   (crash happened during merge), should keep tombstones. Otherwise,
+    //   older records in the previous table will be visible again.
     if ( ( db_config->purgeDeletedDocImmediately &&
            tableInfo &&
            tableInfo->level &&
+           !tableInfo->prevTableSearchRequired &&
            is_last_level ) ||
          force_delete ) {
         // Immediate purging option,
diff --git a/src/table_file_compaction.cc b/src/table_file_compaction.cc
index d204cc0..e1edb27 100644
--- a/src/table_file_compaction.cc
+++ b/src/table_file_compaction.cc
@@ -195,6 +195,10 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
              !is_last_level ) {
             check_tombstone = false;
         }
+        if (tableInfo->prevTableSearchRequired) {
+            // The previous table may have older records of this table's range.
+            check_tombstone = false;
+        }
         if (check_tombstone) {
             is_tombstone_out = isFdbDocTombstone(min_key, max_key, ret_doc);
         }
-- 
2.43.0

