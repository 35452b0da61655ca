From f8544887b48e2069114d592f1aa1dfddb3f1bc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 01/62] fix: SkippingBufferedStream: do not step back over
 skipped data, allow reset to the end of the last read

---
 lib/skippingbufferedstream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/skippingbufferedstream.h b/lib/skippingbufferedstream.h
index c22e12a..fa63f00 100644
--- a/lib/skippingbufferedstream.h
+++ b/lib/skippingbufferedstream.h
@@ -169,7 +169,7 @@ SkippingBufferedStream<T>::reset(int64_t newpos) {
     if (StreamBase<T>::m_status == Error) return -2;
     // check to see if we have this position
     int64_t d = StreamBase<T>::m_position - newpos;
-    if (buffer.readPos - d >= buffer.start && -d < buffer.avail) {
+    if (buffer.readPos >= buffer.start + d && -d <= buffer.avail) {
         StreamBase<T>::m_position -= d;
         buffer.avail += (int32_t)d;
         buffer.readPos -= d;
@@ -191,6 +191,8 @@ SkippingBufferedStream<T>::skip(int64_t ntoskip) {
     int32_t frombuffer = buffer.avail;
     StreamBase<T>::m_position += frombuffer;
     int64_t oldpos = StreamBase<T>::m_position;
+    // what is in the buffer is not adjacent to the position after the skip
+    buffer.readPos = buffer.start;
     buffer.avail = 0;
     ntoskip -= frombuffer;
     int64_t n = (ntoskip) ?advanceInput(ntoskip) :0;
-- 
2.43.0


From b9821225df57a9163f890917b7776c6506bf08ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 02/62] fix: StringStream: max smaller than min means no limit,
 do not truncate large skips

---
 include/strigi/stringstream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strigi/stringstream.h b/include/strigi/stringstream.h
index 64440d0..608b20f 100644
--- a/include/strigi/stringstream.h
+++ b/include/strigi/stringstream.h
@@ -111,7 +111,7 @@ StringStream<T>::read(const T*& start, int32_t min, int32_t max) {
         return -1;
     }
     if (min < 0) min = 0;
-    int32_t nread = (max > left || max < 1) ?(int32_t)left :max;
+    int32_t nread = (max > left || max < 1 || max < min) ?(int32_t)left :max;
     start = data + StreamBase<T>::m_position;
     StreamBase<T>::m_position += nread;
     if (StreamBase<T>::m_position == StreamBase<T>::m_size) {
@@ -123,6 +123,8 @@ template <class T>
 int64_t
 StringStream<T>::skip(int64_t ntoskip) {
     if (ntoskip == 0) return 0;
+    const int64_t left = StreamBase<T>::m_size - StreamBase<T>::m_position;
+    if (ntoskip > left) ntoskip = left;
     const T* start;
     return read(start, (int32_t)ntoskip, (int32_t)ntoskip);
 }
-- 
2.43.0


From 226def0a6c81deae2b8d2312f481c8148d034260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 03/62] fix: MMapFileInputStream: report the end of an empty or
 skipped file, keep errors

---
 lib/mmapfileinputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mmapfileinputstream.cpp b/lib/mmapfileinputstream.cpp
index 8552f60..3af0de7 100644
--- a/lib/mmapfileinputstream.cpp
+++ b/lib/mmapfileinputstream.cpp
@@ -71,6 +71,10 @@ int32_t
 MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     if (m_status == Error) return -2;
     if (m_status == Eof) return -1;
+    if (m_position >= m_size) {
+        m_status = Eof;
+        return -1;
+    }
     int32_t n = max(_min, _max);
     if (n >= m_size - m_position) {
         m_status = Eof;
@@ -82,6 +86,7 @@ MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
 }
 int64_t
 MMapFileInputStream::skip(int64_t ntoskip) {
+    if (m_status == Error) return -2;
     if (ntoskip >= m_size - m_position) {
         ntoskip = m_size - m_position;
         m_status = Eof;
-- 
2.43.0


From 593cecabe8a22d5e77e1be46e38cfbf08f3dfb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 04/62] fix: SkippingFileInputStream: return -1 at the end and
 -2 on errors, do not pass an unknown end

---
 lib/skippingfileinputstream.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index 9759c54..c2e1c72 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -109,13 +109,15 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     m_position = ftell(file);
     if (nr != n) {
         if (ferror(file)) {
+            m_error = "Could not read from file '" + filepath + "'.";
             m_status = Error;
-        } else {
-            m_status = Eof;
-            if (m_size == -1) {
-                m_size = m_position;
-            }
+            return -2;
         }
+        m_status = Eof;
+        if (m_size == -1) {
+            m_size = m_position;
+        }
+        if (nr == 0) return -1;
     }
     start = buffer;
     return nr;
@@ -132,6 +134,24 @@ SkippingFileInputStream::reset(int64_t pos) {
          m_status = Error;
          return -2; // error
     }
+    if (m_size == -1) {
+        // the end of the file is not known, so it must not be passed
+        char dummy[1024];
+        while (m_position < pos) {
+            const size_t n = (size_t)min(pos - m_position, (int64_t)sizeof(dummy));
+            const size_t nr = fread(dummy, 1, n, file);
+            m_position += nr;
+            if (nr != n) {
+                if (ferror(file)) {
+                    m_error = "Could not read from file '" + filepath + "'.";
+                    m_status = Error;
+                    return -2;
+                }
+                m_size = m_position;
+                break;
+            }
+        }
+    }
     if (m_size >= 0 && pos > m_size) pos = m_size;
     if (fseek(file, pos, SEEK_SET)) {
         m_status = Error;
-- 
2.43.0


From bb56cd8790f904df2b6e44c2d2f4d832e501ce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 05/62] fix: SkippingFileInputStream2: do not skip past the end
 of the file

---
 lib/skippingfileinputstream2.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/skippingfileinputstream2.cpp b/lib/skippingfileinputstream2.cpp
index dcfcef2..e934457 100644
--- a/lib/skippingfileinputstream2.cpp
+++ b/lib/skippingfileinputstream2.cpp
@@ -116,6 +116,12 @@ int64_t
 SkippingFileInputStream2::advanceInput(int64_t ntoskip) {
     if (m_status == Error) return -1;
     if (file == 0) return 0;
+    if (m_size == -1) {
+        // the end of the file is not known, so it is only found by reading
+        return SkippingBufferedInputStream::advanceInput(ntoskip);
+    }
+    const int64_t left = m_size - ftello(file);
+    if (ntoskip > left) ntoskip = left;
     if (fseeko(file, ntoskip, SEEK_CUR)) {
         m_error = "Could not skip in file '" + filepath + "'.";
         fclose(file);
-- 
2.43.0


From 259c06a9646ec8472e83fd00cf688425ae9dac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 06/62] fix: StringTerminatedSubStream: honour max, report end,
 size and errors, keep resets inside the stream

---
 lib/stringterminatedsubstream.cpp | 35 ++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index a0c3484..501a98a 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -20,7 +20,7 @@
 #include <strigi/stringterminatedsubstream.h>
 #include <strigi/strigiconfig.h>
 #include <strigi/kmpsearcher.h>
-#include <cassert>
+#include <algorithm>
 #include <iostream>
 
 using namespace std;
@@ -61,12 +61,16 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     // check if we already read enough
     const int64_t pos = p->m_input->position();
     nread = (int32_t)(p->furthest - pos);
-    if (min <= nread) {
-        if (max <= 0 || max > nread) {
+    if (min <= nread && nread > 0) {
+        if (max <= 0 || max < min || max > nread) {
             max = nread;
         }
         nread = p->m_input->read(start, min, max);
-        assert(nread >= -1);
+        if (nread < -1) {
+            m_status = Error;
+            m_error = p->m_input->error();
+            return nread;
+        }
         if (nread > 0) {
             m_position += nread;
             if (m_position == m_size) {
@@ -92,6 +96,7 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     nread = p->m_input->read(start, tlmin, tlmax);
     if (nread == -1) {
         m_status = Eof;
+        m_size = m_position;
         return nread;
     }
     if (nread < -1) {
@@ -116,7 +121,7 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
         p->furthest = pos + nread;
         // we rewind, but the pointer 'start' will stay valid nontheless
         p->m_input->reset(pos + nread);
-    } else if (max != 0 && nread > max) {
+    } else if (max > 0 && max >= min && nread > max) {
         // we are near the end of the stream but cannot pass all data
         // at once because the amount read is larger than the amount to pass
         p->furthest = pos + nread;
@@ -130,18 +135,28 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     if (nread > 0) m_position += nread;
     if (m_status == Eof) {
         m_size = m_position;
+        if (nread == 0) nread = -1;
     }
     return nread;
 }
 int64_t
 StringTerminatedSubStream::reset(int64_t newpos) {
-    m_position = p->m_input->reset(newpos + p->m_offset);
-    if (m_position >= p->m_offset) {
-        m_position -= p->m_offset;
-        if (m_position != m_size) m_status = Ok;
-    } else {
+    if (m_status == Error) return -2;
+    // only go to positions that are known to be part of this stream
+    const int64_t known = (m_size != -1) ?m_size
+        :std::max(p->furthest - p->m_offset, m_position);
+    if (newpos > known) newpos = known;
+    // when the end has been reached, m_input is already past the terminator
+    if (newpos == m_position) return m_position;
+    const int64_t inputpos = p->m_input->position();
+    const int64_t pos = p->m_input->reset(newpos + p->m_offset);
+    if (pos == newpos + p->m_offset) {
+        m_position = newpos;
+        m_status = Ok;
+    } else if (pos != inputpos) {
         // the stream is not positioned at a valid m_position
         m_status = Error;
+        m_error = "Could not reset the stream.";
         m_position = -1;
     }
     return m_position;
-- 
2.43.0


From ebe0a29423c82046385390f599438dc4b9acfec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 07/62] fix: SubInputStream: set the size at the end of an
 unlimited stream, stay inside the window on reset, report short skips

---
 lib/subinputstream.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index ca81173..71754ef 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -56,8 +56,8 @@ SubInputStream::read(const char*& start, int32_t min, int32_t max) {
             m_status = Eof;
             if (nread > 0) {
                 m_position += nread;
-                m_size = m_position;
             }
+            m_size = m_position;
         } else {
 //            fprintf(stderr, "!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!! nread %i min %i max %i m_size %li\n", nread, min, max, m_size);
 //            fprintf(stderr, "pos %li parentpos %li\n", m_position, m_input->position());
@@ -80,6 +80,7 @@ SubInputStream::reset(int64_t newpos) {
     assert(newpos >= 0);
 //    fprintf(stderr, "subreset pos: %li newpos: %li m_offset: %li m_size: %li\n",
 //         m_position, newpos, m_offset, m_size);
+    if (m_size != -1 && newpos > m_size) newpos = m_size;
     m_position = m_input->reset(newpos + m_offset);
     if (m_position < m_offset) {
         cerr << "########### m_position " << m_position << " newpos " << newpos
@@ -89,6 +90,12 @@ SubInputStream::reset(int64_t newpos) {
     } else {
         m_position -= m_offset;
         m_status = m_input->status();
+        if (m_status == Eof && m_size == -1) {
+            m_size = m_position;
+        } else if (m_status == Eof && m_position != m_size) {
+            // the input is too short, reading will tell
+            m_status = Ok;
+        }
     }
     return m_position;
 }
@@ -112,10 +119,14 @@ SubInputStream::skip(int64_t ntoskip) {
         m_status = Error;
         m_error = m_input->error();
     } else {
-        m_position += skipped;
+        if (skipped > 0) m_position += skipped;
         if (m_position == m_size) {
             m_status = Eof;
-        } else if (skipped <= 0) {
+        } else if (m_size == -1 && skipped < ntoskip) {
+            // the end of the input is the end of this stream
+            m_status = Eof;
+            m_size = m_position;
+        } else if (skipped < ntoskip) {
             m_status = Error;
             m_error = "Premature end of stream\n";
             skipped = -2;
-- 
2.43.0


From 8f3fe6b6e04cae80bc69ceeeaa5e6bc02635a4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 08/62] fix: KmpSearcher: do not write outside the table for an
 empty query

---
 include/strigi/kmpsearcher.h | 2 +-
 lib/kmpsearcher.cpp          | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strigi/kmpsearcher.h b/include/strigi/kmpsearcher.h
index 28d049b..36386dd 100644
--- a/include/strigi/kmpsearcher.h
+++ b/include/strigi/kmpsearcher.h
@@ -38,7 +38,7 @@ private:
     int32_t len;
     int32_t maxlen;
 public:
-    KmpSearcher() :table(0) { }
+    KmpSearcher() :table(0), len(0), maxlen(0) { }
     explicit KmpSearcher(const std::string& query);
     ~KmpSearcher() {
         if (table) {
diff --git a/lib/kmpsearcher.cpp b/lib/kmpsearcher.cpp
index f3e9983..72d846b 100644
--- a/lib/kmpsearcher.cpp
+++ b/lib/kmpsearcher.cpp
@@ -109,12 +109,14 @@ KmpSearcher::setQuery(const string& query) {
         maxlen = len;
     }
 
+    if (len == 0) return; // there is nothing to prepare
     preBmGs(p, len, table+256);
     preBmBc(p, len, table);
 }
 const char*
 KmpSearcher::search(const char* haystack, int32_t haylen) const {
     if (table == 0) return 0;
+    if (len == 0) return haystack;
     const char* needle = m_query.c_str();
 
     int32_t i = 0;
-- 
2.43.0


From b8cf3ebba09090787fa7cd3b02bb487534440c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 09/62] fix: DataEventInputStream: no end without handleEnd on
 reset, keep pointers valid, pass error messages on

---
 lib/dataeventinputstream.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/dataeventinputstream.cpp b/lib/dataeventinputstream.cpp
index 91da8ee..1d81208 100644
--- a/lib/dataeventinputstream.cpp
+++ b/lib/dataeventinputstream.cpp
@@ -89,6 +89,7 @@ DataEventInputStream::skip(int64_t ntoskip) {
     if (totalread == -1) { // done reporting, we can use fast skipping
         skipped = input->skip(ntoskip);
         m_status = input->status();
+        if (m_status == Error) m_error = input->error();
         m_position = input->position();
         m_size = input->size();
     } else {
@@ -101,7 +102,8 @@ DataEventInputStream::skip(int64_t ntoskip) {
 int64_t
 DataEventInputStream::reset(int64_t np) {
 //    fprintf(stderr, "DataEventInputStream::reset from %lli to %lli.\n", m_position, np);
-    if (np > m_position) {
+    const int64_t oldpos = m_position;
+    if (np > m_position && totalread != -1 && np > totalread) {
         // advance to the new position, using skip ensure we actually read
         // the files
         skip(np - m_position);
@@ -113,11 +115,16 @@ DataEventInputStream::reset(int64_t np) {
         m_status = Error;
         m_error = input->error();
     } else {
-        m_status = (newpos == m_size) ?Eof :Ok;
+        // the end is only reported after the handler knows about it
+        m_status = (newpos == m_size && finished) ?Eof :Ok;
     }
 //    fprintf(stderr, "np %lli newpos %lli status %i\n", np, newpos, m_status);
     m_position = newpos;
-    return newpos;
+    if (newpos >= 0 && newpos < np && np > oldpos) {
+        // the input cannot jump ahead
+        skip(np - newpos);
+    }
+    return m_position;
 }
 void
 DataEventInputStream::finish() {
-- 
2.43.0


From ca838b9009767998f40fc3cc7a8a2d10633a3b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 10/62] fix: BZ2InputStream: no use of an uninitialised
 decoder, accept an empty file, report a truncated file with a message

---
 lib/bz2inputstream.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/bz2inputstream.cpp b/lib/bz2inputstream.cpp
index d4ec6b4..52cb517 100644
--- a/lib/bz2inputstream.cpp
+++ b/lib/bz2inputstream.cpp
@@ -29,6 +29,7 @@ public:
     BZ2InputStream* const p;
     InputStream *input;
     bz_stream bzstream;
+    bool started; // bzstream has been initialized
 
     Private(BZ2InputStream* p, InputStream* i);
     ~Private();
@@ -40,17 +41,18 @@ bool
 BZ2InputStream::checkHeader(const char* data, int32_t datasize) {
     static const char magic[] = {0x42, 0x5a};
     static const char compressed_magic[] = {0x31, 0x41, 0x59, 0x26, 0x53, 0x59};
+    // an empty file has no blocks: the end of the stream follows immediately
+    static const char end_magic[] = {0x17, 0x72, 0x45, 0x38, 0x50, (char)0x90};
     if (datasize < 10) return false;
     return (std::memcmp(data, magic, 2) == 0
             && (data[2] == 0x68 || data[2] == 0x30)
-            && std::memcmp(data + 4, compressed_magic, 6) == 0);
+            && (std::memcmp(data + 4, compressed_magic, 6) == 0
+                || std::memcmp(data + 4, end_magic, 6) == 0));
 }
 BZ2InputStream::BZ2InputStream(InputStream* input) :p(new Private(this, input)){
 }
 BZ2InputStream::Private::Private(BZ2InputStream* bis, InputStream* i)
-        :p(bis), input(i) {
-    // initialize values that signal state
-    this->input = input;
+        :p(bis), input(i), started(false) {
 
     // check first bytes of stream before allocating buffer
     if (!checkMagic()) {
@@ -74,6 +76,7 @@ BZ2InputStream::Private::Private(BZ2InputStream* bis, InputStream* i)
         p->m_status = Error;
         return;
     }
+    started = true;
     // signal that we need to read into the buffer
     bzstream.avail_out = 1;
 
@@ -88,7 +91,10 @@ BZ2InputStream::Private::~Private() {
 }
 void
 BZ2InputStream::Private::dealloc() {
-    BZ2_bzDecompressEnd(&bzstream);
+    if (started) {
+        BZ2_bzDecompressEnd(&bzstream);
+        started = false;
+    }
     input = NULL;
 }
 bool
@@ -111,7 +117,7 @@ BZ2InputStream::Private::readFromStream() {
     const char* inStart;
     int32_t nread;
     nread = input->read(inStart, 1, 0);
-    if (nread <= -1) {
+    if (nread < -1) {
         p->m_status = Error;
         p->m_error = input->error();
     } else if (nread < 1) {
-- 
2.43.0


From 6da8246afa485864ca1f71b81f131f3ade0cc1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 11/62] fix: LZMAInputStream: report a truncated file with a
 message

---
 lib/lzmainputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index bfec55a..594f42c 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -107,7 +107,7 @@ void
 LZMAInputStream::Private::readFromStream() {
     // read data from the input stream
     avail_in = input->read(next_in, 1, 0);
-    if (avail_in <= -1) {
+    if (avail_in < -1) {
         p->m_status = Error;
         p->m_error = input->error();
     } else if (avail_in < 1) {
-- 
2.43.0


From 6cdf455cb2663c16456dfba3ec5a15e77c2ac853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 12/62] fix: Base64InputStream::decode: do not read before an
 empty text

---
 lib/base64inputstream.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/base64inputstream.cpp b/lib/base64inputstream.cpp
index 1b344a5..d9dfbc2 100644
--- a/lib/base64inputstream.cpp
+++ b/lib/base64inputstream.cpp
@@ -186,8 +186,7 @@ string
 Base64InputStream::decode(const char* in, string::size_type length) {
     initialize();
     string d;
-    if (length%4) return d;
-    initialize();
+    if (length == 0 || length%4) return d;
     string::size_type words = length/4;
     d.reserve(words*3);
     const unsigned char* c = (const unsigned char*)in;
-- 
2.43.0


From 8f26bbe31646a4295d1be9f2b803b68f80ba2ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:46 +0000
Subject: [PATCH 13/62] fix: character set conversion: do not lose the last
 character, do not show unwritten space, do not overflow on small reads

---
 lib/encodinginputstream.cpp | 56 +++++++++++++++++++++++++++++++------
 lib/inputstreamreader.cpp   | 20 +++++++++----
 2 files changed, 62 insertions(+), 14 deletions(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index 7aca985..884cbf8 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -24,6 +24,8 @@
 #include <strigi/encodinginputstream.h>
 #include <iconv.h>
 #include <cerrno>
+#include <cstdio>
+#include <cstring>
 using namespace Strigi;
 
 #ifdef ICONV_SECOND_ARGUMENT_IS_CONST
@@ -40,14 +42,20 @@ public:
     iconv_t converter;
     int32_t charsLeft;
     bool finishedEncoding;
+    // output that did not fit in the buffer it should be written to
+    char pending[64];
+    int32_t pendingPos, pendingEnd;
 
     Private(EncodingInputStream* eis, InputStream* i, const char* inenc,
             const char* outenc) :p(eis), input(i),
-            converter((iconv_t)-1), charsLeft(0), finishedEncoding(false) {
+            converter((iconv_t)-1), charsLeft(0), finishedEncoding(false),
+            pendingPos(0), pendingEnd(0) {
         if (outenc == 0) {
             outenc = "UTF-8";
         }
-        converter = iconv_open(outenc, inenc);
+        if (inenc) {
+            converter = iconv_open(outenc, inenc);
+        }
     }
     ~Private() {
         if (converter != (iconv_t) -1) {
@@ -55,6 +63,8 @@ public:
         }
     }
     int32_t decode(char* start, int32_t space);
+    int32_t finish(char* start, int32_t space);
+    int32_t readPending(char* start, int32_t space);
 };
 
 EncodingInputStream::EncodingInputStream(InputStream* s, const char* inenc,
@@ -84,6 +94,25 @@ EncodingInputStream::~EncodingInputStream() {
     delete p;
 }
 int32_t
+EncodingInputStream::Private::readPending(char* start, int32_t space) {
+    int32_t n = pendingEnd - pendingPos;
+    if (n > space) n = space;
+    std::memcpy(start, pending + pendingPos, n);
+    pendingPos += n;
+    return n;
+}
+int32_t
+EncodingInputStream::Private::finish(char* start, int32_t space) {
+    // write what the converter kept back and return to the initial shift state
+    char *outbuf = pending;
+    size_t outbytesleft = sizeof(pending);
+    finishedEncoding = true;
+    iconv(converter, 0, 0, &outbuf, &outbytesleft);
+    pendingPos = 0;
+    pendingEnd = (int32_t)(outbuf - pending);
+    return (pendingEnd) ?readPending(start, space) :-1;
+}
+int32_t
 EncodingInputStream::Private::decode(char* start, int32_t space) {
     // decode from charbuf
     ICONV_CONST char *inbuf = charbuf.readPos;
@@ -92,6 +121,7 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
     char *outbuf = start;
     size_t r = iconv(converter, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     int32_t nwritten;
+    charsLeft = 0;
     if (r == (size_t)-1) {
         switch (errno) {
         case EILSEQ: //invalid multibyte sequence
@@ -109,7 +139,9 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            charsLeft = charbuf.avail;
+            if (charsLeft == 0) charbuf.readPos = charbuf.start;
+            nwritten = (int32_t)(outbuf - start);
             break;
         default:
             char tmp[10];
@@ -124,16 +156,15 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
         charbuf.readPos = charbuf.start;
         charbuf.avail = 0;
         nwritten = (int32_t)(outbuf - start);
-        if (input == 0) {
-            finishedEncoding = true;
-        }
     }
     return nwritten;
 }
 int32_t
 EncodingInputStream::fillBuffer(char* start, int32_t space) {
+    if (p->pendingPos < p->pendingEnd) return p->readPending(start, space);
+    if (p->finishedEncoding) return -1;
     // fill up charbuf
-    if (p->input && p->charbuf.readPos == p->charbuf.start) {
+    if (p->input && p->charsLeft == 0) {
         const char *begin;
         int32_t numRead;
         numRead = p->input->read(begin, 1, p->charbuf.size - p->charbuf.avail);
@@ -150,14 +181,23 @@ EncodingInputStream::fillBuffer(char* start, int32_t space) {
             if (p->charbuf.avail) {
                 m_error = "stream ends on incomplete character";
                 m_status = Error;
+                return -1;
             }
-            return -1;
+            return p->finish(start, space);
         }
         // copy data into other buffer
         std::memmove(p->charbuf.start + p->charbuf.avail, begin, numRead);
         p->charbuf.avail = numRead + p->charbuf.avail;
     }
     // decode
+    if (space < (int32_t)sizeof(p->pending)) {
+        // a character might not fit
+        int32_t n = p->decode(p->pending, (int32_t)sizeof(p->pending));
+        if (n <= 0) return n;
+        p->pendingPos = 0;
+        p->pendingEnd = n;
+        return p->readPending(start, space);
+    }
     int32_t n = p->decode(start, space);
     //printf("decoded %i\n", n);
     return n;
diff --git a/lib/inputstreamreader.cpp b/lib/inputstreamreader.cpp
index 43e471e..9038372 100644
--- a/lib/inputstreamreader.cpp
+++ b/lib/inputstreamreader.cpp
@@ -79,6 +79,7 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
     char *outbuf = (char*)start;
     size_t r = iconv(converter, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     int32_t nwritten;
+    charsLeft = 0;
     if (r == (size_t)-1) {
         switch (errno) {
         case EILSEQ: //invalid multibyte sequence
@@ -96,7 +97,9 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            charsLeft = charbuf.avail;
+            if (charsLeft == 0) charbuf.readPos = charbuf.start;
+            nwritten = (int32_t)(((wchar_t*)outbuf) - start);
             break;
         default:
             char tmp[10];
@@ -111,16 +114,14 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
         charbuf.readPos = charbuf.start;
         charbuf.avail = 0;
         nwritten = (int32_t)(((wchar_t*)outbuf) - start);
-        if (input == 0) {
-            finishedDecoding = true;
-        }
     }
     return nwritten;
 }
 int32_t
 InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
+    if (finishedDecoding) return -1;
     // fill up charbuf
-    if (input && charbuf.readPos == charbuf.start) {
+    if (input && charsLeft == 0) {
         const char *begin;
         int32_t numRead;
         numRead = input->read(begin, 1, charbuf.size - charbuf.avail);
@@ -137,8 +138,15 @@ InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
             if (charbuf.avail) {
                 m_error = "stream ends on incomplete character";
                 m_status = Error;
+                return -1;
             }
-            return -1;
+            // the converter may have kept back the last character
+            finishedDecoding = true;
+            char *outbuf = (char*)start;
+            size_t outbytesleft = sizeof(wchar_t)*space;
+            iconv(converter, 0, 0, &outbuf, &outbytesleft);
+            int32_t n = (int32_t)(((wchar_t*)outbuf) - start);
+            return (n) ?n :-1;
         }
         // copy data into other buffer
         std::memmove(charbuf.start + charbuf.avail, begin, numRead);
-- 
2.43.0


From d22003044e495e742e738dd14c8bd268c7507353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 14/62] fix: textutils: reject overlong and too large UTF-8

---
 lib/textutils.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/textutils.cpp b/lib/textutils.cpp
index ae11316..4ec08a9 100644
--- a/lib/textutils.cpp
+++ b/lib/textutils.cpp
@@ -34,6 +34,7 @@ Strigi::checkUtf8(const char* p, int32_t length) {
     // check if the text is valid UTF-8
     char nb = 0;
     uint64_t val = 0;
+    uint64_t min = 0;
     while (p < end) {
         unsigned char c = *p;
         if (nb) {
@@ -43,7 +44,8 @@ Strigi::checkUtf8(const char* p, int32_t length) {
             val = (val << 6) + (c & 0x3F);
             if (--nb == 0) {
                 // check the range of the utf 8 value
-                if (val == 0xFFFE || val == 0xFFFF // Noncharacters
+                if (val < min || val > 0x10FFFF // overlong or too large
+                        || val == 0xFFFE || val == 0xFFFF // Noncharacters
                         // surrogate values not allowed in UTF-8
                         || (val >= 0xD800 && val <= 0xDFFF)) {
                     return false;
@@ -51,12 +53,15 @@ Strigi::checkUtf8(const char* p, int32_t length) {
             }
         } else if (c >= 0xC2 && c <= 0xDF) {
             nb = 1;
+            min = 0x80;
             val = c & 0x1F;
         } else if ((0xF0 & c) == 0xE0) {
             nb = 2;
+            min = 0x800;
             val = c & 0x0F;
         } else if (c >= 0xF0 && c <= 0xF4) {
             nb = 3;
+            min = 0x10000;
             val = c & 0x07;
         } else if (c > 0x7F
                 || (c < 0x20 && !(c == 0x9 || c == 0xA || c == 0xD))) {
@@ -86,6 +91,7 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
     const char* end = p + length;
     const char* cs = p;
     uint64_t val = 0;
+    uint64_t min = 0;
     // check if the text is valid UTF-8
     nb = 0;
     while (p < end) {
@@ -99,7 +105,8 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
             val = (val << 6) + (c & 0x3F);
             if (--nb == 0) {
                 // check the range of the utf 8 value
-                if (val == 0xFFFE || val == 0xFFFF // Noncharacters
+                if (val < min || val > 0x10FFFF // overlong or too large
+                        || val == 0xFFFE || val == 0xFFFF // Noncharacters
                         // surrogate values not allowed in UTF-8
                         || (val >= 0xD800 && val <= 0xDFFF)) {
                     // nb is 0 to signal an error
@@ -109,14 +116,17 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
         } else if (c >= 0xC2 && c <= 0xDF) {
             cs = p;
             val = c & 0x1F;
+            min = 0x80;
             nb = 1;
         } else if ((0xF0 & c) == 0xE0) {
             cs = p;
             val = c & 0x0F;
+            min = 0x800;
             nb = 2;
         } else if (c >= 0xF0 && c <= 0xF4) {
             cs = p;
             val = c & 0x07;
+            min = 0x10000;
             nb = 3;
         } else if (c > 0x7F
                 || (c < 0x20 && !(c == 0x9 || c == 0xA || c == 0xD))) {
-- 
2.43.0


From f48149fbce7790de95acc8b7b738dabe557d041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 15/62] fix: textutils: read 64 bit numbers from unsigned bytes

---
 include/strigi/textutils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strigi/textutils.h b/include/strigi/textutils.h
index d69d4d0..dc6bc91 100644
--- a/include/strigi/textutils.h
+++ b/include/strigi/textutils.h
@@ -107,7 +107,7 @@ inline STREAMS_INLINE_EXPORT uint32_t readLittleEndianUInt32(const unsigned char
     return readLittleEndianUInt32(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT int64_t  readLittleEndianInt64(const unsigned char* c) {
-    return readLittleEndianInt16(reinterpret_cast<const char*>(c));
+    return readLittleEndianInt64(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT uint64_t readLittleEndianUInt64(const unsigned char* c) {
     return readLittleEndianUInt64(reinterpret_cast<const char*>(c));
@@ -125,7 +125,7 @@ inline STREAMS_INLINE_EXPORT uint32_t readBigEndianUInt32(const unsigned char* c
     return readBigEndianUInt32(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT int64_t  readBigEndianInt64(const unsigned char* c) {
-    return readBigEndianInt16(reinterpret_cast<const char*>(c));
+    return readBigEndianInt64(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT uint64_t readBigEndianUInt64(const unsigned char* c) {
     return readBigEndianUInt64(reinterpret_cast<const char*>(c));
-- 
2.43.0


From 6af173c86349273eab3ca98323051ebabec49567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 16/62] fix: dos2unixtime: keep hours after 15

---
 lib/dostime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/dostime.cpp b/lib/dostime.cpp
index 8076068..373e294 100644
--- a/lib/dostime.cpp
+++ b/lib/dostime.cpp
@@ -50,7 +50,7 @@ dos2unixtime (unsigned long dostime)
   ltime.tm_year = (int)(dostime >> 25) + 80;
   ltime.tm_mon = ((int)(dostime >> 21) & 0x0f) - 1;
   ltime.tm_mday = (int)(dostime >> 16) & 0x1f;
-  ltime.tm_hour = (int)(dostime >> 11) & 0x0f;
+  ltime.tm_hour = (int)(dostime >> 11) & 0x1f;
   ltime.tm_min = (int)(dostime >> 5) & 0x3f;
   ltime.tm_sec = (int)(dostime & 0x1f) << 1;
 
-- 
2.43.0


From e2c23d2cba306acaa8a2833d16ab761c5aa413cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 17/62] fix: TarInputStream: read long names, prefixes, link
 targets and large sizes, accept the end of the input with the last block

---
 include/strigi/tarinputstream.h |   2 +-
 lib/tarinputstream.cpp          | 178 ++++++++++++++++++++------------
 2 files changed, 112 insertions(+), 68 deletions(-)

diff --git a/include/strigi/tarinputstream.h b/include/strigi/tarinputstream.h
index 41692a7..2cef99d 100644
--- a/include/strigi/tarinputstream.h
+++ b/include/strigi/tarinputstream.h
@@ -46,7 +46,7 @@ private:
     void readFileName(int32_t len);
     const char* readHeader();
     void parseHeader();
-    int32_t readOctalField(const char *b, int32_t offset);
+    int64_t readOctalField(const char *b, int32_t offset);
     void readLongLink(const char *b);
 public:
     explicit TarInputStream(InputStream *input);
diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index ecda8d7..2d1ecab 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -51,12 +51,14 @@ TarInputStream::nextEntry() {
 const char*
 TarInputStream::readHeader() {
     // read the first 512 characters
-    const char *begin;
+    const char *begin = 0;
     int32_t nread = m_input->read(begin, 512, 512);
-    if (nread == 0 || m_input->status() == Eof) {
-        m_status = Eof;
-    } else if (nread != 512) {
+    if (nread < -1) {
         m_status = Error;
+        m_error = "Error reading tar header: ";
+        m_error += m_input->error();
+    } else if (nread != 512) {
+        m_status = Eof;
     }
     return begin;
 }
@@ -86,73 +88,95 @@ TarInputStream::checkHeader(const char* h, int32_t hsize) {
 
     // check for field values that should be '\0' for the header to be a
     // tar header. Two positions are also accepted if they are ' ' because they
-    return !(h[107] || h[115] || h[123] || (h[135]&&h[135]!=' ')
+    return !(h[107] || h[115] || h[123] || (h[135] && h[135]!=' ' && !(h[124] & 0x80))
             || (h[147] && h[147] != ' ') || h[256]);
 }
 void
 TarInputStream::parseHeader() {
     const char *hb;
+    size_t len;
+    bool longName = false;
 
-    hb = readHeader();
-    if (m_status) {
-        m_status = Error;
-        m_error = "Premature end of file.";
-        return;
-    }
-    // a tar file should end with at least 2 blocks of '\0' bytes
-    bool justZeroes = true;
-    int i, numZeroBlocks = 0;
-    for (i = 0; i < 512 && justZeroes; ++i) {
-        justZeroes = hb[i] == 0;
-    }
-    while (justZeroes) {
-        numZeroBlocks++;
+    m_entryinfo.filename.resize(0);
+    for (;;) {
         hb = readHeader();
-        if (numZeroBlocks == 1 && m_status == Eof) {
+        if (m_status) {
+            if (m_status == Eof) {
+                m_error = "Premature end of file.";
+            }
             m_status = Error;
-            m_error = "Premature end of file.";
-            return;
-        } else if (m_status == Error || m_status == Eof) {
             return;
         }
+        // a tar file should end with at least 2 blocks of '\0' bytes
+        bool justZeroes = true;
+        int i, numZeroBlocks = 0;
         for (i = 0; i < 512 && justZeroes; ++i) {
             justZeroes = hb[i] == 0;
         }
-        if (!justZeroes) {
-           m_status = Error;
-           m_error = "Invalid tar file.";
-           return;
+        while (justZeroes) {
+            numZeroBlocks++;
+            hb = readHeader();
+            if (m_status == Eof && (numZeroBlocks == 1 || longName)) {
+                m_status = Error;
+                m_error = "Premature end of file.";
+                return;
+            } else if (m_status == Error || m_status == Eof) {
+                return;
+            }
+            for (i = 0; i < 512 && justZeroes; ++i) {
+                justZeroes = hb[i] == 0;
+            }
+            if (!justZeroes) {
+               m_status = Error;
+               m_error = "Invalid tar file.";
+               return;
+            }
         }
-    }
 
-    // check for terminators ('\0') on the first couple of fields
-    if (!checkHeader(hb, 257)) {
-        m_error = "Invalid tar header.\n";
-        m_status = Error;
-        return;
-    }
+        // check for terminators ('\0') on the first couple of fields
+        if (!checkHeader(hb, 257)) {
+            m_error = "Invalid tar header.\n";
+            m_status = Error;
+            return;
+        }
 
-    size_t len = std::strlen(hb);
-    if (len == 0) {
-        // ready
-        m_status = Eof;
-        return;
+        len = 0;
+        while (len < 100 && hb[len]) ++len;
+        if (len == 0) {
+            // ready
+            m_status = Eof;
+            return;
+        }
+        if (len == 13 && strncmp(hb, "././@LongLink", 13) == 0) {
+            if (hb[156] == 'K') {
+                // the target of a link is not used
+                string name(m_entryinfo.filename);
+                readLongLink(hb);
+                m_entryinfo.filename = name;
+            } else {
+                m_entryinfo.filename.resize(0);
+                readLongLink(hb);
+                longName = true;
+            }
+            if (m_status) return;
+        } else if (len != 2 || longName || hb[0] != '.' || hb[1] != '/') {
+            break;
+        } // else: skip entry './'
     }
-    if (len > 100) len = 100;
-    m_entryinfo.filename.resize(0);
-    if (len == 13 && strncmp(hb, "././@LongLink", 13) == 0) {
-        readLongLink(hb);
-        if (m_status) return;
-        hb = readHeader();
-        if (m_status) return;
-    } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
-        // skip initial './' part of filename
-        if (len == 2) { // skip entry './'
-            return parseHeader();
+    if (!longName) {
+        // posix archives may have the first part of the name in a prefix
+        if (memcmp(hb + 257, "ustar\0", 6) == 0 && hb[345]) {
+            size_t plen = 0;
+            while (plen < 155 && hb[345 + plen]) ++plen;
+            m_entryinfo.filename.append(hb + 345, plen);
+            m_entryinfo.filename.append(1, '/');
         }
-        m_entryinfo.filename.append(hb, 2, len-2);
-    } else {
-        m_entryinfo.filename.append(hb, 0, len);
+        m_entryinfo.filename.append(hb, len);
+    }
+    // skip initial './' part of filename
+    len = m_entryinfo.filename.length();
+    if (len > 2 && m_entryinfo.filename.compare(0, 2, "./") == 0) {
+        m_entryinfo.filename.erase(0, 2);
     }
 
     // read the file size which is in octal format
@@ -167,7 +191,7 @@ TarInputStream::parseHeader() {
     }
 
     len = m_entryinfo.filename.length();
-    if (m_entryinfo.filename[len-1] == '/') {
+    if (len > 0 && m_entryinfo.filename[len-1] == '/') {
         m_entryinfo.filename.resize(len-1);
     }
     // read file type
@@ -180,41 +204,61 @@ TarInputStream::parseHeader() {
     }
 //    printf("!%s %i\n", m_entryinfo.filename.c_str(), hb[156]);
 }
-int32_t
+int64_t
 TarInputStream::readOctalField(const char *b, int32_t offset) {
-    int32_t val;
-    int r = sscanf(b+offset, "%o", &val);
-    if (r != 1) {
-        m_status = Error;
-        m_error = "Error reading header: octal field is not a valid integer.";
-        return 0;
+    const char* p = b + offset;
+    const char* e = p + 12;
+    int64_t val = 0;
+    if (*p & 0x80) {
+        // numbers that do not fit are written in binary
+        for (val = *p++ & 0x7f; p < e && val < (1LL << 47); ++p) {
+            val = (val << 8) + (unsigned char)*p;
+        }
+        if (p == e) return val;
+    } else {
+        while (p < e && *p == ' ') ++p;
+        const char* digits = p;
+        while (p < e && *p >= '0' && *p <= '7') {
+            val = (val << 3) + *p++ - '0';
+        }
+        if (p > digits) return val;
     }
-    return val;
+    m_status = Error;
+    m_error = "Error reading header: octal field is not a valid integer.";
+    return 0;
 }
 void
 TarInputStream::readLongLink(const char *b) {
-    int32_t toread = readOctalField(b, 124);
+    int64_t size = readOctalField(b, 124);
+    if (m_status) return;
+    if (size < 1 || size > 1048576) {
+        m_status = Error;
+        m_error = "Error reading LongLink: invalid length.";
+        return;
+    }
+    int32_t toread = (int32_t)size;
     int32_t left = toread%512;
     if (left) {
         left = 512 - left;
     }
     const char *begin;
-    if (m_status) return;
     int32_t nread = m_input->read(begin, toread, toread);
     if (nread != toread) {
             m_status = Error;
             m_error = "Error reading LongLink: ";
-            if (nread == -1) {
+            if (nread < -1) {
                 m_error += m_input->error();
             } else {
                 m_error += " premature end of file.";
             }
             return;
     }
-    m_entryinfo.filename.append(begin, nread);
+    // the name ends at the first '\0'
+    const void* nul = memchr(begin, 0, nread);
+    m_entryinfo.filename.assign(begin, (nul) ?(const char*)nul-begin :nread);
 
     int64_t skipped = m_input->skip(left);
-    if (skipped != left) {
+    if (left && skipped != left) {
         m_status = Error;
         m_error = "Error reading LongLink: ";
         if (m_input->status() == Error) {
-- 
2.43.0


From 9be1be86eee0ae468079f0543b1eb0c7bca60c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 18/62] fix: ZipInputStream: no wrong content for unsupported
 entries, no normal end of truncated files, entries above 2 GB

---
 include/strigi/zipinputstream.h |  2 +-
 lib/zipinputstream.cpp          | 62 ++++++++++++++++++++++++---------
 2 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/include/strigi/zipinputstream.h b/include/strigi/zipinputstream.h
index ef0c964..e4fddb1 100644
--- a/include/strigi/zipinputstream.h
+++ b/include/strigi/zipinputstream.h
@@ -40,7 +40,7 @@ private:
     // information relating to the current entry
     InputStream* compressedEntryStream;
     GZipInputStream *uncompressionStream;
-    int32_t entryCompressedSize;
+    int64_t entryCompressedSize;
     int32_t compressionMethod;
 
     void readFileName(int32_t len);
diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index bd2a20c..160d363 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -41,6 +41,8 @@ ZipInputStream::ZipInputStream(InputStream* input)
         : SubStreamProvider(input) {
     compressedEntryStream = 0;
     uncompressionStream = 0;
+    entryCompressedSize = 0;
+    compressionMethod = 0;
 }
 ZipInputStream::~ZipInputStream() {
     if (compressedEntryStream) {
@@ -59,6 +61,12 @@ ZipInputStream::nextEntry() {
 	// the end by skipping in the compressed stream, without decompressing
         if (compressedEntryStream) {
             compressedEntryStream->skip(compressedEntryStream->size());
+            if (compressedEntryStream->status() == Error) {
+                m_status = Error;
+                m_error = "Premature end of the data of an entry: ";
+                m_error += compressedEntryStream->error();
+                return 0;
+            }
             delete compressedEntryStream;
             compressedEntryStream = 0;
             delete uncompressionStream;
@@ -73,6 +81,10 @@ ZipInputStream::nextEntry() {
                 if (n != 0x08074b50) {
                     m_input->reset(p);
                 }
+            } else {
+                m_status = Error;
+                m_error = "Premature end of the zip file.";
+                return 0;
             }
         } else {
             int64_t size = m_entrystream->size();
@@ -82,6 +94,12 @@ ZipInputStream::nextEntry() {
             while (m_entrystream->status() == Ok) {
                 m_entrystream->skip(size);
             }
+            if (m_entrystream->status() == Error) {
+                m_status = Error;
+                m_error = "Error in the data of an entry: ";
+                m_error += m_entrystream->error();
+                return 0;
+            }
             if (m_entryinfo.size < 0) {
                 // skip the data descriptor that occurs after the data
                 const char* c;
@@ -106,9 +124,10 @@ ZipInputStream::nextEntry() {
         delete m_entrystream;
         m_entrystream = 0;
     }
-    // are we at the end of the zip file?
+    // a zip file does not end without a central directory
     if (m_input->status() == Eof) {
-        m_status = Eof;
+        m_status = Error;
+        m_error = "Premature end of the zip file.";
         return NULL;
     }
     readHeader();
@@ -150,13 +169,12 @@ ZipInputStream::readHeader() {
     nread = m_input->read(b, toread, toread);
     if (nread != toread) {
         m_error = "Error reading zip header: ";
-        if (nread == -1) {
+        if (nread < 0) {
             m_error += m_input->error();
         } else {
             m_error += " premature end of file.";
         }
         m_status = Error;
-        fprintf(stderr, "%s\n", m_error.c_str());
         return;
     }
     hb = (const unsigned char*)b;
@@ -171,11 +189,15 @@ ZipInputStream::readHeader() {
     // check the second half of the signature
     if (hb[2] != 0x03 || hb[3] != 0x04) {
         // this may be the start of the central file header
-        if (hb[2] != 0x01 || hb[3] != 0x02) {
-            fprintf(stderr, "This code in a zip file is strange: %x %x %x %x\n",
-                hb[0], hb[1], hb[2], hb[3]);
+        // or the start of one of the other records after the entries
+        if ((hb[2] == 0x01 && hb[3] == 0x02) || (hb[2] == 0x05 && hb[3] == 0x06)
+                || (hb[2] == 0x06 && hb[3] == 0x06)
+                || (hb[2] == 0x06 && hb[3] == 0x08)) {
+            m_status = Eof;
+            return;
         }
-        m_status = Eof;
+        m_status = Error;
+        m_error = "Error: unknown zip signature.";
         return;
     }
     // read 2 bytes into the filename size
@@ -185,13 +207,15 @@ ZipInputStream::readHeader() {
     m_entryinfo.size = readLittleEndianUInt32(hb + 22);
     // read 4 bytes into the length of the compressed size
     entryCompressedSize = readLittleEndianUInt32(hb + 18);
-    if (entryCompressedSize < 0) {
+    compressionMethod = readLittleEndianUInt16(hb + 8);
+    int32_t generalBitFlags = readLittleEndianUInt16(hb+6);
+    if ((generalBitFlags & 1)
+            || (compressionMethod != 0 && compressionMethod != 8)) {
         m_status = Error;
-        m_error = "Corrupt zip file with negative compressed size.";
+        m_error = (generalBitFlags & 1) ?"Encrypted zip entries are not supported."
+            :"This zip compression method is not supported.";
         return;
     }
-    compressionMethod = readLittleEndianUInt16(hb + 8);
-    int32_t generalBitFlags = readLittleEndianUInt16(hb+6);
     if (generalBitFlags & 8) { // is bit 3 set?
         // ohoh, the file size and compressed file size are unknown at this
         // point
@@ -205,15 +229,17 @@ ZipInputStream::readHeader() {
         }
         m_entryinfo.size = -1;
         entryCompressedSize = -1;
+    } else if (compressionMethod == 0
+            && entryCompressedSize != m_entryinfo.size) {
+        m_status = Error;
+        m_error = "Corrupt zip file with a stored entry of two sizes.";
+        return;
     }
     unsigned long dost = readLittleEndianUInt32(hb+10);
     m_entryinfo.mtime = dos2unixtime(dost);
 
     readFileName(filenamelen);
     if (m_status) {
-        m_status = Error;
-        m_error = "Error reading file name: ";
-        m_error += m_input->error();
         return;
     }
     // read 2 bytes into the length of the extra field
@@ -229,15 +255,19 @@ ZipInputStream::readHeader() {
 void
 ZipInputStream::readFileName(int32_t len) {
     m_entryinfo.filename.resize(0);
+    if (len <= 0) {
+        return;
+    }
     const char *begin;
     int32_t nread = m_input->read(begin, len, len);
     if (nread != len) {
         m_error = "Error reading filename: ";
-        if (nread == -1) {
+        if (nread < 0) {
             m_error += m_input->error();
         } else {
             m_error += " premature end of file.";
         }
+        m_status = Error;
         return;
     }
     m_entryinfo.filename.assign(begin, nread);
-- 
2.43.0


From 8439e405a34cd4cd4c4de4b991dbd7a211dbd635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 19/62] fix: ArInputStream: names with spaces, large sizes,
 several symbol tables, invalid headers, truncated last member

---
 include/strigi/arinputstream.h |   2 +-
 lib/arinputstream.cpp          | 153 ++++++++++++++++++++++-----------
 2 files changed, 106 insertions(+), 49 deletions(-)

diff --git a/include/strigi/arinputstream.h b/include/strigi/arinputstream.h
index 6a110fa..3834cbe 100644
--- a/include/strigi/arinputstream.h
+++ b/include/strigi/arinputstream.h
@@ -29,7 +29,7 @@ private:
     // information relating to the current entry
     std::string gnufilenames;
 
-    void readHeader();
+    bool readHeader();
 public:
     explicit ArInputStream(InputStream* input);
     ~ArInputStream();
diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 65c3fda..2a6cfeb 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -20,7 +20,6 @@
 #include <strigi/arinputstream.h>
 #include <strigi/subinputstream.h>
 
-#include <stdlib.h>
 #include <cstring>
 
 using namespace Strigi;
@@ -38,6 +37,8 @@ ArInputStream::ArInputStream(InputStream* input)
     const char*b;
     if (input->read(b, 8, 8) != 8 || !checkHeader(b, 8)) {
         m_status = Error;
+        m_error = "This is not an ar archive. ";
+        m_error += input->error();
     }
 }
 ArInputStream::~ArInputStream() {
@@ -47,15 +48,41 @@ ArInputStream::nextEntry() {
     if (m_status) return 0;
     if (m_entrystream) {
         m_entrystream->skip(m_entrystream->size());
+        if (m_entrystream->status() == Error) {
+            m_status = Error;
+            m_error = "Error in the data of an entry: ";
+            m_error += m_entrystream->error();
+        }
         delete m_entrystream;
         m_entrystream = 0;
+        if (m_status) return 0;
     }
-    readHeader();
+    // the members with the symbols and with the long names are no entries
+    while (readHeader()) {}
     if (m_status) return 0;
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
     return m_entrystream;
 }
-void
+namespace {
+    // read a decimal number that is followed by spaces
+    int64_t
+    readNumber(const char* b, int len) {
+        int64_t n = 0;
+        int i = 0;
+        for (; i < len && b[i] >= '0' && b[i] <= '9'; ++i) {
+            n = 10*n + (b[i] - '0');
+        }
+        for (; i < len; ++i) {
+            if (b[i] != ' ' && b[i] != '\0') return -1;
+        }
+        return n;
+    }
+}
+/**
+ * Read the header of the next member. Members that describe the archive are
+ * read too and reported by returning true.
+ **/
+bool
 ArInputStream::readHeader() {
     const char *b;
     int32_t toread;
@@ -73,67 +100,97 @@ ArInputStream::readHeader() {
         m_error = "Error reading ar header: ";
         m_error += m_input->error();
         m_status = Error;
-        return;
+        return false;
     }
     if (nread <= 1) { // allow for a closing byte
         m_status = Eof;
-        return;
+        return false;
     }
     if (nread != toread) {
         m_error = "Error reading ar header: premature end of file.";
         m_status = Error;
-        return;
+        return false;
     }
-    int len;
-    for (len=0; len<16; len++) {
-        char c = b[len];
-        if (c == ' ' || c == '/' || c == '\0') {
-            break;
-        }
+    if (b[58] != '`' || b[59] != '\n') {
+        m_error = "Error reading ar header: invalid header.";
+        m_status = Error;
+        return false;
     }
-
-    // we must copy this string to safely call atoi
-    char bc[61];
-    std::memcpy(bc, b, 60);
-    bc[60] = '\0';
-    m_entryinfo.size = atoi(bc+48);
+    m_entryinfo.size = readNumber(b+48, 10);
     if (m_entryinfo.size < 0) {
-        m_error = "Error: negative file size.";
+        m_error = "Error: invalid file size.";
         m_status = Error;
-        return;
+        return false;
     }
-    m_entryinfo.mtime = atoi(bc+16);
-    if (len == 0) {
-        if (b[1] == '/') {
-            // fprintf(stderr, "SIZE: %lli\n", m_entryinfo.size);
-            nread = m_input->read(b, (int32_t)m_entryinfo.size, (int32_t)m_entryinfo.size);
-            if (nread != m_entryinfo.size) {
-                m_error = "premature end of stream";
-                m_status = Error;
-                return;
+    m_entryinfo.mtime = readNumber(b+16, 12);
+    if (m_entryinfo.mtime < 0) {
+        m_entryinfo.mtime = 0;
+    }
+    m_entryinfo.type = Strigi::EntryInfo::File;
+    if (b[0] != '/') {
+        // a slash ends the name, without slash the spaces after it do not
+        // belong to the name
+        int len;
+        for (len=0; len<16; len++) {
+            if (b[len] == '/' || b[len] == '\0') {
+                break;
             }
-            gnufilenames.assign(b, (unsigned int)m_entryinfo.size);
-            readHeader();
-        } else if (b[1] == ' ') {
-            m_input->skip(m_entryinfo.size);
-            readHeader();
-        } else {
-            uint p = atoi(bc+1);
-            if (gnufilenames.length() <= p) {
-                m_error = "Invalid name field.";
-                m_status = Error;
-                return;
+        }
+        if (len == 16 || b[len] == '\0') {
+            while (len > 0 && b[len-1] == ' ') {
+                len--;
             }
-            const char* c = gnufilenames.c_str() + p;
-            const char* e = std::strchr(c, '/');
-            if (e) {
-                m_entryinfo.filename = std::string(c, e-c);
-            } else {
-                m_entryinfo.filename = c;
+        }
+        if (len == 0) {
+            m_error = "Invalid name field.";
+            m_status = Error;
+            return false;
+        }
+        m_entryinfo.filename = std::string(b, len);
+    } else if (b[1] == '/') {
+        // the member with the long names
+        if (m_entryinfo.size > 0x7fffffff) {
+            m_error = "Error: invalid file size.";
+            m_status = Error;
+            return false;
+        }
+        gnufilenames.resize(0);
+        if (m_entryinfo.size > 0) {
+            toread = (int32_t)m_entryinfo.size;
+            nread = m_input->read(b, toread, toread);
+            if (nread != toread) {
+                m_error = "premature end of stream";
+                m_status = Error;
+                return false;
             }
+            gnufilenames.assign(b, (unsigned int)toread);
         }
+        return true;
+    } else if (b[1] == ' ' || std::strncmp(b, "/SYM64/", 7) == 0) {
+        // a member with symbols
+        if (m_entryinfo.size > 0
+                && m_input->skip(m_entryinfo.size) != m_entryinfo.size) {
+            m_error = "premature end of stream";
+            m_status = Error;
+            return false;
+        }
+        return true;
     } else {
-        m_entryinfo.filename = std::string(b, len);
+        int64_t p = readNumber(b+1, 15);
+        if (p < 0 || (int64_t)gnufilenames.length() <= p) {
+            m_error = "Invalid name field.";
+            m_status = Error;
+            return false;
+        }
+        const char* c = gnufilenames.c_str() + p;
+        const char* e = c;
+        while (*e != '\n' && *e != '\0') {
+            ++e;
+        }
+        if (e != c && e[-1] == '/') {
+            --e;
+        }
+        m_entryinfo.filename = std::string(c, e-c);
     }
-    m_entryinfo.type = Strigi::EntryInfo::File;
+    return false;
 }
-- 
2.43.0


From 7db320be7bb81c2c9ea721cb47289b1b916cfd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 20/62] fix: CpioInputStream, RpmInputStream: sizes above 2 GB,
 directories, invalid fields, no normal end without trailer

---
 include/strigi/cpioinputstream.h |  2 +-
 lib/cpioinputstream.cpp          | 50 +++++++++++++++++++++-----------
 lib/rpminputstream.cpp           | 20 +++++++++++--
 3 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/include/strigi/cpioinputstream.h b/include/strigi/cpioinputstream.h
index ec44ea7..afd1db7 100644
--- a/include/strigi/cpioinputstream.h
+++ b/include/strigi/cpioinputstream.h
@@ -31,7 +31,7 @@ private:
     char padding;
 
     void readHeader();
-    int32_t readHexField(const char *b);
+    uint32_t readHexField(const char *b);
 public:
     explicit CpioInputStream(InputStream* input);
     ~CpioInputStream();
diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 5ae2f13..f49aae7 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -39,6 +39,7 @@ CpioInputStream::checkHeader(const char* data, int32_t datasize) {
 CpioInputStream::CpioInputStream(InputStream* input)
         : SubStreamProvider(input) {
     m_entryinfo.type = EntryInfo::File;
+    padding = 0;
 }
 CpioInputStream::~CpioInputStream() {
 }
@@ -53,18 +54,23 @@ CpioInputStream::nextEntry() {
         while (m_entrystream->status() == Ok) {
             m_entrystream->skip(m_entrystream->size());
         }
+        if (m_entrystream->status() == Error) {
+            m_status = Error;
+            m_error = "Error in the data of a cpio entry: ";
+            m_error += m_entrystream->error();
+        }
         delete m_entrystream;
         m_entrystream = 0;
-        if (padding) {
-            m_input->skip(padding);
+        if (m_status) return 0;
+        if (padding && m_input->skip(padding) != padding) {
+            m_status = Error;
+            m_error = "Premature end of the cpio archive.";
+            return 0;
         }
     }
     readHeader();
+    if (m_status) return 0;
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
-    if (m_status) {
-        delete m_entrystream;
-        m_entrystream = 0;
-    }
     return m_entrystream;
 }
 void
@@ -78,12 +84,10 @@ CpioInputStream::readHeader() {
     toread = 110;
     nread = m_input->read(b, toread, toread);
     if (nread != toread) {
-        m_status = m_input->status();
-        if (m_status == Eof) {
-            return;
-        }
+        // a cpio archive does not end before the entry 'TRAILER!!!'
+        m_status = Error;
         m_error = "Error reading cpio entry: ";
-        if (nread == -1) {
+        if (m_input->status() == Error) {
             m_error += m_input->error();
         } else {
             m_error += " premature end of file.";
@@ -99,11 +103,20 @@ CpioInputStream::readHeader() {
     }
     m_entryinfo.size = readHexField(b+54);
     m_entryinfo.mtime = readHexField(b+46);
-    int32_t filenamesize = readHexField(b+94);
+    const uint32_t mode = readHexField(b+14);
+    m_entryinfo.type = ((mode & 0170000) == 0040000)
+        ?EntryInfo::Dir :EntryInfo::File;
+    const uint32_t namesize = readHexField(b+94);
     if (m_status) {
         m_error = "Error parsing entry field.";
         return;
     }
+    if (namesize < 1 || namesize > 0x10000) {
+        m_status = Error;
+        m_error = "Invalid size of a cpio entry name.";
+        return;
+    }
+    int32_t filenamesize = (int32_t)namesize;
     char namepadding = (char)((filenamesize+2) % 4);
     if (namepadding) namepadding = (char)(4 - namepadding);
     padding = (char)(m_entryinfo.size % 4);
@@ -120,6 +133,7 @@ CpioInputStream::readHeader() {
     int32_t len = filenamesize - 1;
     if (len > 2 && b[0] == '.' && b[1] == '/') {
         b += 2;
+        filenamesize -= 2;
     }
     // check if the name is not shorter than specified
     len = 0;
@@ -131,19 +145,21 @@ CpioInputStream::readHeader() {
         m_status = Eof;
     }
 }
-int32_t
+uint32_t
 CpioInputStream::readHexField(const char *b) {
-    int32_t val = 0;
+    uint32_t val = 0;
     char c;
     for (unsigned char i=0; i<8; ++i) {
         val <<= 4;
         c = b[i];
-        if (c > 'F') {
+        if (c >= 'a' && c <= 'f') {
             val += c - 87;
-        } else if (c > '9') {
+        } else if (c >= 'A' && c <= 'F') {
             val += c - 55;
-        } else {
+        } else if (c >= '0' && c <= '9') {
             val += c - 48;
+        } else {
+            m_status = Error;
         }
     }
     return val;
diff --git a/lib/rpminputstream.cpp b/lib/rpminputstream.cpp
index 9673284..916ec56 100644
--- a/lib/rpminputstream.cpp
+++ b/lib/rpminputstream.cpp
@@ -46,6 +46,14 @@ RpmInputStream::checkHeader(const char* data, int32_t datasize) {
     bool ok = memcmp(data, magic, 6) == 0;
     return ok;
 }
+namespace {
+    // the limits are the ones that rpm has
+    bool
+    validSizes(int32_t nindex, int32_t hsize) {
+        return nindex >= 0 && nindex <= 0xffff
+            && hsize >= 0 && hsize <= 256*1024*1024;
+    }
+}
 RpmInputStream::RpmInputStream(InputStream* input)
         : SubStreamProvider(input), headerinfo(0) {
     uncompressionStream = NULL;
@@ -68,11 +76,15 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     int32_t nindex = readBigEndianInt32(b+8);
     int32_t hsize = readBigEndianInt32(b+12);
+    if (!validSizes(nindex, hsize)) {
+        m_error = "Invalid size of the signature.";
+        return;
+    }
     int32_t sz = nindex*16+hsize;
     if (sz%8) {
         sz+=8-sz%8;
     }
-    if (m_input->read(b, sz, sz) != sz) {
+    if (sz > 0 && m_input->read(b, sz, sz) != sz) {
         m_error = "RPM seems to be truncated or corrupted.";
         return;
     }
@@ -84,8 +96,12 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     nindex = readBigEndianInt32(b+8);
     hsize = readBigEndianInt32(b+12);
+    if (!validSizes(nindex, hsize)) {
+        m_error = "Invalid size of the header.";
+        return;
+    }
     int32_t size = nindex*16+hsize;
-    if (m_input->read(b, size, size) != size) {
+    if (size > 0 && m_input->read(b, size, size) != size) {
         m_error = "could not read header\n";
         return;
     }
-- 
2.43.0


From 32713e2dcfe0c1db385e0b7bac0fb03ea60e870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 21/62] fix: OleInputStream: errors do not look like the end,
 no reads outside the file, no second delete, no limit on small blocks

---
 lib/oleinputstream.cpp | 146 +++++++++++++++++++++++++----------------
 1 file changed, 90 insertions(+), 56 deletions(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 343e1d5..2689842 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -55,7 +55,7 @@ public:
     int32_t nextSmallBlock(int32_t);
     const char* getCurrentSmallBlock();
     InputStream* nextEntry();
-    bool readInt32(int32_t pos, int32_t& val);
+    bool readInt32(int64_t pos, int32_t& val);
 };
 
 namespace {
@@ -69,8 +69,8 @@ public:
     OleEntryStream(OleInputStream::Private* f) :parent(f), blockoffset(0) {
         setMinBufSize(512);
         done = 0;
-        blockoffset = 0;
-        m_size = parent->currentStreamSize;
+        blocksize = 512;
+        m_size = 0;
     }
     void reset() {
         resetBuffer();
@@ -114,17 +114,15 @@ OleEntryStream::fillBuffer(char* start, int32_t space) {
         d = parent->getCurrentSmallBlock();
         if (d == 0) {
             m_status = Error;
-            fprintf(stderr, "error in small blocks\n");
-	    return -1;
+            m_error = "Invalid OLE stream.";
+            return -1;
         }
     } else {
-        d = parent->data+(1+parent->currentDataBlock)*512;
+        d = parent->data+(1+(int64_t)parent->currentDataBlock)*512;
     }
-    if (d < parent->data || parent->data + parent->size < d + n) {
+    if (parent->data + parent->size - d < blockoffset + n) {
         m_status = Error;
         m_error = "Invalid OLE stream.";
-        cerr << "not 0 < " << d-parent->data << " < " << m_size << " "
-            << blocksize << endl;
         return -1;
     }
     memcpy(start, d+blockoffset, n);
@@ -141,8 +139,8 @@ OleEntryStream::fillBuffer(char* start, int32_t space) {
         blockoffset = 0;
         if (parent->currentDataBlock < 0) {
             if (parent->currentDataBlock != -2 || done != m_size) {
-                fprintf(stderr, "error: %i\n", parent->currentDataBlock);
                 m_status = Error;
+                m_error = "Invalid chain of blocks in OLE stream.";
                 n = -1;
             }
         }
@@ -154,8 +152,8 @@ OleInputStream::OleInputStream(InputStream* input) :SubStreamProvider(input),
     p(new Private(this, input)) {
 }
 bool
-OleInputStream::Private::readInt32(int32_t offset, int32_t& val) {
-    if (offset < 0 || offset + 4 >= size) {
+OleInputStream::Private::readInt32(int64_t offset, int32_t& val) {
+    if (offset < 0 || offset + 4 > size) {
         stream->m_status = Error;
         stream->m_error = string("pointer out of range.");
         return false;
@@ -166,6 +164,10 @@ OleInputStream::Private::readInt32(int32_t offset, int32_t& val) {
 OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         :entrystream(new OleEntryStream(this)), stream(s) {
     currentTableBlock = -1;
+    currentTableIndex = 0;
+    currentDataBlock = -1;
+    currentStreamSize = 0;
+    maxindex = maxsindex = 0;
     // read start
     size = input->read(data, 512, 512);
     if (size != 512) {
@@ -180,31 +182,39 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     int32_t sBatOffset = readLittleEndianInt32(data+0x3c);
     int32_t xBatOffset = readLittleEndianInt32(data+0x44);
     int32_t nXBat = readLittleEndianInt32(data+0x48);
-    if (!checkHeader(data, size) || nBat < 0 || nBat > 128*nXBat+109
-            || nXBat < 0) {
+    if (!checkHeader(data, size) || nBat < 0
+            || nBat > 128*(int64_t)nXBat+109 || nXBat < 0 || ptOffset < 0) {
         stream->m_status = Error;
         stream->m_error = "Invalid OLE file.";
         return;
     }
-    int32_t max = 0;
-    batIndex.reserve(nBat);
-    data += 76;
+    // the size of the blocks is 2^9, that of the small ones 2^6
+    if (data[0x1e] != 9 || data[0x1f] != 0 || data[0x20] != 6
+            || data[0x21] != 0) {
+        stream->m_status = Error;
+        stream->m_error = "OLE files with this block size are not supported.";
+        return;
+    }
+    int64_t max = 0;
     for (int i = 0; i < ::min(109, nBat); ++i) {
         int32_t p;
-        if (!readInt32(4*i, p)) { return; }
+        if (!readInt32(76 + 4*i, p)) { return; }
         batIndex.push_back(p);
         if (p > max) max = p;
     }
     if (ptOffset > max) max = ptOffset;
-    if (128*(nBat-1) > max) max = 128*(nBat-1);
+    // the last block of the table covers at least one block of the file
+    if (128*((int64_t)nBat-1) > max) max = 128*((int64_t)nBat-1);
 
-    int32_t toread = (max+2)*512;
-    if (input->size() >= 0 && input->size() < toread) {
+    int32_t toread = 10000000;
+    if (input->size() > 0x7fffffff) {
         stream->m_status = Error;
-        stream->m_error = "File is incomplete.";
+        stream->m_error = "OLE files of this size are not supported.";
         return;
     }
-    toread = (input->size() > 0) ?(int32_t)input->size() :10000000;
+    if (input->size() > 0) {
+        toread = (int32_t)input->size();
+    }
     size = input->read(data, toread, toread);
     input->reset(0);
     if (size != input->size()) {
@@ -213,18 +223,28 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
             = string("File cannot be read completely: ")+input->error();
         return;
     }
-    maxindex = size/512-2;
+    // the last block may be incomplete
+    if (size <= (max+1)*512) {
+        stream->m_status = Error;
+        stream->m_error = "File is incomplete.";
+        return;
+    }
+    maxindex = (int32_t)(((int64_t)size+511)/512-2);
 
     // read any remaining BAT entries from XBAT blocks
-    xBatOffset = 512 + 512 * xBatOffset;
-    for (int j = 0; j < nXBat; ++j) {
+    while ((int)batIndex.size() < nBat) {
+        if (xBatOffset < 0) {
+            stream->m_status = Error;
+            stream->m_error = "Invalid OLE file.";
+            return;
+        }
+        const int64_t offset = 512 + 512 * (int64_t)xBatOffset;
         for (int i = 0; i<127 && (int)batIndex.size() < nBat; ++i) {
             int32_t p;
-            if (!readInt32(4*i + xBatOffset, p)) { return; }
+            if (!readInt32(4*i + offset, p)) { return; }
             batIndex.push_back(p);
         }
-        if (!readInt32(508 + xBatOffset, xBatOffset)) { return; }
-        xBatOffset = 512 + 512 * xBatOffset;
+        if (!readInt32(508 + offset, xBatOffset)) { return; }
     }
 
     // print all bat blocks
@@ -240,7 +260,7 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
 
     // collect all sbat blocks
 //    fprintf(stderr, "sbat blocks\n");
-    while (sBatOffset >= 0 && sbatIndex.size() < 1000) {
+    while (sBatOffset >= 0) {
         sbatIndex.push_back(sBatOffset);
 /*        const char* b = data+(1+sBatOffset)*512;
         fprintf(stderr, "%4.i\n", sBatOffset);
@@ -254,9 +274,9 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
 
     sbatbIndex.reserve(sbatIndex.size()*16);
     // read the info for the root entry
-    currentDataBlock = (1+ptOffset)*512 + 0x74;
-    if (!readInt32(currentDataBlock, currentDataBlock)) { return; }
-    while (currentDataBlock >= 0 && sbatbIndex.size() < 16000) {
+    const int64_t root = (1+(int64_t)ptOffset)*512 + 0x74;
+    if (!readInt32(root, currentDataBlock)) { return; }
+    while (currentDataBlock >= 0) {
         sbatbIndex.push_back(currentDataBlock);
         currentDataBlock = nextBlock(currentDataBlock);
     }
@@ -266,6 +286,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     currentTableIndex = 0;
 }
 OleInputStream::~OleInputStream() {
+    // the stream of the entry belongs to p
+    m_entrystream = 0;
     delete p;
 }
 OleInputStream::Private::~Private() {
@@ -276,22 +298,17 @@ OleInputStream::Private::nextBlock(int32_t in) {
     // get the number of the bat block we need
     int32_t bid = in/128;
     if (bid < 0 || bid >= (int32_t)batIndex.size()) {
-        fprintf(stderr, "error 5: input block out of range %i\n", in);
         return -4;
     }
-    bid = batIndex[bid]+1;
-    int32_t next = in%128*4;
-    next += 512*bid;
-    if (next < 0 || size - 4 < next) {
-        fprintf(stderr, "error 3: output block out of range %i\n", next);
+    bid = batIndex[bid];
+    const int64_t offset = 512*((int64_t)bid+1) + in%128*4;
+    if (bid < 0 || size - 4 < offset) {
         return -4;
     }
-    bid = next;
-    next = readLittleEndianInt32(data+bid);
+    int32_t next = readLittleEndianInt32(data+offset);
     bool error = next < -2 || next == -1 || next > maxindex
         || usedBlocks.count(next) > 0;
     if (error) {
-        fprintf(stderr, "error 4: output block out of range %i\n", next);
         next = -4;
     } else if (next >= 0) {
         // mark block as read
@@ -304,21 +321,16 @@ OleInputStream::Private::nextSmallBlock(int32_t in) {
     // get the number of the sbat block we need
     int32_t bid = in/128;
     if (bid < 0 || bid >= (int32_t)sbatIndex.size()) {
-        fprintf(stderr, "error 6: input block out of range %i\n", in);
         return -4;
     }
-    bid = sbatIndex[bid]+1;
-    int32_t next = in%128*4;
-    next += 512*bid;
-    if (next < 0 || size - 4 < next) {
-        fprintf(stderr, "error 1: output block out of range %i\n", next);
+    const int64_t offset = 512*((int64_t)sbatIndex[bid]+1) + in%128*4;
+    if (size - 4 < offset) {
         return -4;
     }
-    next = readLittleEndianInt32(data+next);
+    int32_t next = readLittleEndianInt32(data+offset);
     bool error = next < -2 || next == -1 || next > maxsindex
         || usedSBlocks.count(next) > 0;
     if (error) {
-        fprintf(stderr, "error 2: output block out of range %i\n", next);
         next = -4;
     } else if (next >= 0) {
         // mark block as read
@@ -334,19 +346,29 @@ OleInputStream::Private::getCurrentSmallBlock() {
     if (i < 0 || i >= (int32_t)sbatbIndex.size()) {
         return 0;
     }
-    i = 512*(1+sbatbIndex[i]) + (currentDataBlock%8)*64;
-    return (i > size-64) ?0 :d+i;
+    const int64_t offset = 512*(1+(int64_t)sbatbIndex[i])
+        + (currentDataBlock%8)*64;
+    return (offset >= size) ?0 :d+offset;
 }
 void
 OleInputStream::Private::readEntryInfo() {
-    const char* d = data + (1+currentTableBlock)*512 + 128*currentTableIndex;
+    const int64_t offset = (1+(int64_t)currentTableBlock)*512
+        + 128*currentTableIndex;
+    if (offset + 128 > size) {
+        // the rest of the table is missing
+        stream->m_status = Error;
+        stream->m_error = "The table of entries is incomplete.";
+        currentDataBlock = -1;
+        return;
+    }
+    const char* d = data + offset;
     char entryType = d[0x42];
     if (entryType != 2) {
         currentDataBlock = -1;
         return;
     }
     string name;
-    int32_t namesize = d[0x40];
+    int32_t namesize = (unsigned char)d[0x40];
     if (namesize < 2) namesize = 2;
     if (namesize > 0x40) namesize = 0x40;
     namesize = namesize/2 - 1;
@@ -369,17 +391,24 @@ OleInputStream::Private::readEntryInfo() {
     }*/
     
     stream->m_entryinfo.filename.assign(name);
+    stream->m_entryinfo.type = EntryInfo::File;
     currentDataBlock = readLittleEndianInt32(d+0x74);
     currentStreamSize = readLittleEndianInt32(d+0x78);
     stream->m_entryinfo.size = currentStreamSize;
-    if (currentDataBlock > maxindex || currentStreamSize <= 0) {
+    if (currentStreamSize == 0) {
+        // empty streams are not listed
         currentDataBlock = -1;
+    } else if (currentDataBlock < 0 || currentStreamSize < 0
+            || (currentStreamSize >= 4096 && currentDataBlock > maxindex)) {
+        stream->m_status = Error;
+        stream->m_error = "An entry is corrupt.";
     }
 }
 InputStream*
 OleInputStream::nextEntry() {
+    if (m_status) return 0;
     m_entrystream = p->nextEntry();
-    if (!m_entrystream) m_status = Eof;
+    if (!m_entrystream && m_status == Ok) m_status = Eof;
     return m_entrystream;
 }
 InputStream*
@@ -389,11 +418,16 @@ OleInputStream::Private::nextEntry() {
         if (++currentTableIndex == 4) {
             currentTableBlock = nextBlock(currentTableBlock);
             if (currentTableBlock < 0) {
+                if (currentTableBlock != -2) {
+                    stream->m_status = Error;
+                    stream->m_error = "The table of entries is corrupt.";
+                }
                 return 0;
             }
             currentTableIndex = 0;
         }
         readEntryInfo();
+        if (stream->m_status == Error) return 0;
     } while (currentDataBlock < 0);
     //printEntry(data+(currentTableBlock+1)*512+128*currentTableIndex);
 
-- 
2.43.0


From 379545eba4df37d3eb0e814c8d4784a6a1fe5891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 22/62] fix: SdfInputStream: keep the first character of each
 record, find delimiters across reads, report incomplete records

---
 include/strigi/sdfinputstream.h |   2 -
 lib/sdfinputstream.cpp          | 114 +++++++++++++++++---------------
 2 files changed, 60 insertions(+), 56 deletions(-)

diff --git a/include/strigi/sdfinputstream.h b/include/strigi/sdfinputstream.h
index e4af8d6..27c10e3 100644
--- a/include/strigi/sdfinputstream.h
+++ b/include/strigi/sdfinputstream.h
@@ -31,9 +31,7 @@ namespace Strigi {
 
 class STREAMS_EXPORT SdfInputStream : public SubStreamProvider {
 private:
-    SubInputStream* substream;
     int32_t entrynumber;
-    int64_t previousStartOfDelimiter;
     KmpSearcher m_searcher;
     static const std::string delimiter;
     static const std::string label;
diff --git a/lib/sdfinputstream.cpp b/lib/sdfinputstream.cpp
index 16e41d7..3cfa35f 100644
--- a/lib/sdfinputstream.cpp
+++ b/lib/sdfinputstream.cpp
@@ -21,7 +21,7 @@
 #include <strigi/subinputstream.h>
 #include <iostream>
 #include <sstream>
-#include <cstring>
+#include <cctype>
 #include <algorithm> 
 
 using namespace std;
@@ -31,14 +31,10 @@ const string SdfInputStream::delimiter("$$$$");
 const string SdfInputStream::label("V2000");
 
 SdfInputStream::SdfInputStream(InputStream* input)
-        : SubStreamProvider(input), substream(0), entrynumber(0),
-        previousStartOfDelimiter(0) {
+        : SubStreamProvider(input), entrynumber(0) {
     m_searcher.setQuery(delimiter);
 }
 SdfInputStream::~SdfInputStream() {
-    if (substream && substream != m_entrystream) {
-        delete substream;
-    }
 }
 /**
  * Return a pointer that points past the current line. The line can end on
@@ -82,38 +78,39 @@ InputStream*
 SdfInputStream::nextEntry() {
     if (m_status != Ok) return 0;
 
-    m_input->reset(previousStartOfDelimiter);
+    const char* start;
+    const char* end = 0;
     int32_t nread = 0;
 
-    // read anything that's left over in the previous substream
-    if (substream) {
-        substream->reset(0);
-        const char* dummy;
-        while (substream->status() == Ok) {
-            substream->read(dummy, 1, 0);
+    if (m_entrystream) {
+        // skip anything that's left over in the previous substream
+        const int64_t left = m_entrystream->size() - m_entrystream->position();
+        if (left > 0) {
+            m_entrystream->skip(left);
         }
-        if (substream->status() == Error) {
+        if (m_entrystream->status() == Error) {
             m_status = Error;
+            m_error = m_entrystream->error();
         }
-        if (substream && substream != m_entrystream) {
-            delete substream;
-        }
-        substream = 0;
         delete m_entrystream;
         m_entrystream = 0;
-    
-        m_input->reset(previousStartOfDelimiter);
-    
-        // eat delimiter and following newlines
-        if (m_input->status() == Ok) {
-            nread = m_input->read(dummy, 4, 4);
-            if (nread == 4 && strncmp(dummy, delimiter.c_str(), 4) == 0) {
-                m_input->read(dummy, 1, 1);
-                while (m_input->status() == Ok && (
-                        strncmp(dummy, "\n", 1) == 0
-                        || strncmp(dummy, "\r", 1) == 0)) {
-                    m_input->read(dummy, 1, 1);
-                }
+        if (m_status != Ok) return 0;
+
+        // skip the delimiter and the end of its line
+        const int32_t length = (int32_t)delimiter.length();
+        if (m_input->read(start, length, length) != length) {
+            m_status = Error;
+            m_error = "Error reading delimiter: ";
+            m_error += m_input->error();
+            return 0;
+        }
+        for (int i = 0; i < 2 && m_input->status() == Ok; ++i) {
+            const int64_t p = m_input->position();
+            if (m_input->read(start, 1, 1) != 1) break;
+            if (*start == '\n') break;
+            if (*start != '\r' || i > 0) {
+                m_input->reset(p);
+                break;
             }
         }
     }
@@ -121,35 +118,42 @@ SdfInputStream::nextEntry() {
     // we can not check it in checkHeader due to low header size limit
     // There is only one way to destinguish between MOL and SD:
     // MOL does not have $$$$ delimiter. Return no entries if it is a MOL.
-    const char* start;
-    const char* end;
-    int32_t total = 0;
+    // only the data from one read can be stepped back over, so read more and
+    // more at once
     const int64_t pos = m_input->position();
-    int64_t len=0;
-    
-    while (m_input->status() == Ok) {
-        nread = m_input->read(start, 1024, 0);
+    int64_t len = 0;
+    int32_t toread = 1024;
+    bool onlySpace = true;
+    while (m_input->status() == Ok && end == 0) {
+        nread = m_input->read(start, toread, 0);
         if (nread > 0) {
             end = m_searcher.search(start, nread);
-            if (end) {
-                len = end - start + total;
-                break;
+            if (end) len = end - start;
+            for (int32_t i = 0; i < nread && onlySpace; ++i) {
+                onlySpace = isspace((unsigned char)start[i]) || start[i] == '\0';
             }
-            total += nread;
-        }    
-    }    
+        }
+        if (m_input->status() == Error) break;
+        if (end || nread < toread) {
+            m_input->reset(pos);
+            break;
+        }
+        m_input->reset(pos);
+        if (toread > 0x3fffffff) {
+            m_status = Error;
+            m_error = "The record is too long.";
+            return 0;
+        }
+        toread = 2*((nread > toread) ?nread :toread);
+    }
     if (m_input->status() == Error) {
         m_status = Error;
-        m_entrystream = 0;
+        m_error = m_input->error();
         return 0;
     }
-    
-    m_input->reset(pos);
-    
-    if (len > 0) {
+
+    if (end) {
         // this stream is an SD
-        substream = new SubInputStream(m_input, len);
-        previousStartOfDelimiter = m_input->position() + len;
         m_entryinfo.type = EntryInfo::File;
         m_entryinfo.size = len;
 
@@ -159,12 +163,14 @@ SdfInputStream::nextEntry() {
         o << entrynumber;
         m_entryinfo.filename.append(o.str());
 
-        m_entrystream = substream;
+        m_entrystream = new SubInputStream(m_input, len);
         return m_entrystream;
+    } else if (entrynumber > 0 && !onlySpace) {
+        m_status = Error;
+        m_error = "The last record is incomplete.";
     } else {
         // this stream is a MOL itself, not an SD
         m_status = Eof;
-        m_entrystream = 0;
-        return 0;
     }
+    return 0;
 }
-- 
2.43.0


From 3cf11cf6e97bb077e08c3590b1a6e14d23e4f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 23/62] fix: MailInputStream: keep the start of bodies, names
 with special characters, folded and short headers, unknown encodings, report
 errors

---
 lib/mailinputstream.cpp | 172 +++++++++++++++++++++++++++++-----------
 1 file changed, 125 insertions(+), 47 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index de95840..4d4e5a5 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -87,7 +87,12 @@ Decoder::decode(const string& enc, string& data) {
     if (olen > 0) {
         char* out = buffer;
         char* mem = out;
+        // start in the initial state
+        iconv(conv, 0, 0, 0, 0);
         size_t r = iconv(conv, &in, &ilen, &out, &olen);
+        if (r != (size_t)-1) {
+            r = iconv(conv, 0, 0, &out, &olen);
+        }
         if (r != (size_t)-1) {
             data.assign(mem, out-mem);
         }
@@ -144,9 +149,19 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
         decoded.reserve(len*2);
     }
     decoded.resize(0);
-    const char* s = v;
-    const char* p = v;
-    const char* e = s + len;
+    // undo the folding of the header lines
+    string unfolded;
+    unfolded.reserve(len);
+    for (uint32_t i = 0; i < len; ++i) {
+        if (v[i] != '\r' && v[i] != '\n') {
+            unfolded.append(1, v[i]);
+        }
+    }
+    const char* s = unfolded.c_str();
+    const char* p = s;
+    const char* e = s + unfolded.length();
+    // the end of the previous encoded word
+    const char* previous = 0;
     while (s < e) {
         if (e-s > 8 && *s == '=' && s[1] == '?') {
             // start of encoded data, find the next position of '?','?' and '?='
@@ -157,12 +172,18 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
             while (q2 < e && *q2 != '?') q2++;
             end = q2+1;
             while (end < e && *end != '?') end++;
-            if (e - end < 1 || end[1] != '=') {
+            if (e - end < 2 || end[1] != '=' || q2 != q1 + 2
+                    || strchr("bBqQ", q1[1]) == 0) {
                 s++;
                 continue;
             }
-            // save the stuff from before the encoding
-            decoded.append(p, s-p);
+            // save the stuff from before the encoding, except for the space
+            // between two encoded words
+            const char* text = p;
+            while (text < s && (*text == ' ' || *text == '\t')) text++;
+            if (p != previous || text < s) {
+                decoded.append(p, s-p);
+            }
             s += 2;
             q1++;
             q2++;
@@ -174,24 +195,17 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
                     decode(encoding, str);
                 }
                 decoded.append(str);
-            } else if (*q1 == 'q' || *q1 =='Q') {
+            } else {
                 string& str(decodeQuotedPrintable(q2, end-q2));
                 if (strncasecmp("utf-8", s, 5) != 0) {
                     string encoding(s, q1-s-1);
                     decode(encoding, str);
                 }
                 decoded.append(str);
-            } else {
-                s -= 1;
             }
 
             // continue after the quoted data
-            s = p = end + 2;
-        } else if (e-s > 3 && s[0] == 13 && s[1] == 10
-                && (s[2] == 9 || s[2] == 32)) {
-            // skip the CRLF WSP used for folding the header lines
-            decoded.append(p, s-p);
-            s = p = s + 4;
+            s = p = previous = end + 2;
         } else {
             s++;
         }
@@ -326,7 +340,7 @@ public:
 
     HeaderDecoder decoder;
 
-    void readHeaderLine();
+    void readHeaderLine(bool folded = true);
     void readHeader();
     void scanBody();
     void handleHeaderLine();
@@ -335,6 +349,7 @@ public:
     bool checkHeaderLine() const;
     void clearHeaders();
     void ensureFileName();
+    void goTo(int64_t position);
     std::string value(const char* n, const std::string& headerline) const;
 
     Private(MailInputStream* mail);
@@ -344,6 +359,8 @@ MailInputStream::Private::Private(MailInputStream* mail) :m(mail) {
     substream = 0;
     entrynumber = 0;
     nextLineStartPosition = 0;
+    maxlinesize = 1024*1024;
+    linestart = lineend = 0;
 }
 MailInputStream::Private::~Private() {
     if (substream && substream != m->m_entrystream) {
@@ -369,9 +386,10 @@ MailInputStream::~MailInputStream() {
  * This means a header line is ended by on of these patterns (where \S is
  *  a non-whitespace character).
  *   '\r\S', '\n\S', '\r\n\S', '\r\r', '\n\n', '\r\n\r'
+ * An empty line is not continued. If folded is false, no line is continued.
  **/
 void
-MailInputStream::Private::readHeaderLine() {
+MailInputStream::Private::readHeaderLine(bool folded) {
     // state: 0 -> ok, 1 -> '\r', 2 -> '\n', 3 -> '\r\n'
     char state = 0;
     int32_t nread;
@@ -379,12 +397,26 @@ MailInputStream::Private::readHeaderLine() {
     bool completeLine = false;
     char c = 0;
 
-    m->m_input->reset(nextLineStartPosition);
+    goTo(nextLineStartPosition);
+    if (m->m_status != Ok) {
+        linestart = lineend = 0;
+        return;
+    }
     do {
         nread = m->m_input->read(linestart, linepos+1, maxlinesize);
+        if (nread < -1 || m->m_input->status() == Error) {
+            linestart = lineend = 0;
+            m->m_status = Error;
+            m->m_error = m->m_input->error();
+            return;
+        }
         if (nread < linepos+1) {
             completeLine = true;
-            lineend = linestart + nread;
+            if (nread < 0) {
+                linestart = lineend = 0;
+            } else {
+                lineend = linestart + nread;
+            }
             m->m_status = Eof;
             return;
         }
@@ -413,7 +445,8 @@ MailInputStream::Private::readHeaderLine() {
                 } else if (state == 1) { // '\r'
                     if (c == '\n') {
                         state = 3;
-                    } else if (c == '\r' || !isspace(c)) { // end
+                    } else if (c == '\r' || linepos == 1 || !folded
+                            || !isspace((unsigned char)c)) { // end
                         completeLine = true;
                         lineend = linestart + linepos - 1;
                         break;
@@ -421,7 +454,8 @@ MailInputStream::Private::readHeaderLine() {
                         state = 0;
                     }
                 } else if (state == 2) { // '\n'
-                    if (c == '\n' || !isspace(c)) { // end
+                    if (c == '\n' || linepos == 1 || !folded
+                            || !isspace((unsigned char)c)) { // end
                         completeLine = true;
                         lineend = linestart + linepos - 1;
                         break;
@@ -429,7 +463,8 @@ MailInputStream::Private::readHeaderLine() {
                         state = 0;
                     }
                 } else { // state == 3   '\r\n'
-                    if (c == '\r' || linepos == 2 || !isspace(c)) { // end
+                    if (c == '\r' || linepos == 2 || !folded
+                            || !isspace((unsigned char)c)) { // end
                         completeLine = true;
                         lineend = linestart + linepos - 2;
                         break;
@@ -443,34 +478,68 @@ MailInputStream::Private::readHeaderLine() {
     } while (!completeLine);
     nextLineStartPosition += linepos;
 }
+/**
+ * Go to a position in the data that was read last or right after it.
+ **/
+void
+MailInputStream::Private::goTo(int64_t position) {
+    const int64_t toskip = position - m->m_input->position();
+    if (toskip > 0) {
+        m->m_input->skip(toskip);
+    } else if (toskip < 0) {
+        m->m_input->reset(position);
+    }
+    if (m->m_input->position() != position) {
+        m->m_status = Error;
+        m->m_error = "Error positioning in mail: ";
+        m->m_error += m->m_input->error();
+    }
+}
 string
 MailInputStream::Private::value(const char* n, const string& headerline) const {
-    size_t nl = strlen(n);
+    const size_t nl = strlen(n);
     string value;
-    // get the value
-    const char* hl = headerline.c_str();
-    const char* v = strcasestr(hl, n);
-    if (v == 0) {
-        // so far we just scan for a value attribute
-        return value;
-    }
-    v += nl;
-    v += strspn(v, "= \n\r");
-    const char* vend = strchr(v, ';');
-    if (vend == 0) {
-        vend = hl + headerline.length();
-    }
-    if (*v == '"' && vend-v > 2) {
-        value.assign(v+1, vend-v-2);
+    // find the attribute: it comes after a ';' and before a '='
+    const char* v = headerline.c_str();
+    for (;;) {
+        bool quoted = false;
+        while (*v && (quoted || *v != ';')) {
+            if (*v == '"') {
+                quoted = !quoted;
+            } else if (quoted && *v == '\\' && v[1]) {
+                v++;
+            }
+            v++;
+        }
+        if (*v == 0) return value;
+        v++;
+        v += strspn(v, " \t\r\n");
+        if (strncasecmp(v, n, nl) == 0) {
+            const char* equals = v + nl;
+            equals += strspn(equals, " \t\r\n");
+            if (*equals == '=') {
+                v = equals + 1;
+                break;
+            }
+        }
+    }
+    v += strspn(v, " \t\r\n");
+    if (*v == '"') {
+        for (++v; *v && *v != '"'; ++v) {
+            if (*v == '\\' && v[1]) {
+                v++;
+            }
+            if (*v != '\r' && *v != '\n') {
+                value.append(1, *v);
+            }
+        }
     } else {
-        value.assign(v, vend-v);
+        value.assign(v, strcspn(v, "; \t\r\n"));
     }
     return value;
 }
 void
 MailInputStream::Private::readHeader() {
-    maxlinesize = 1024*1024;
-
     readHeaderLine();
     while (m->m_status == Ok && linestart != lineend) {
         handleHeaderLine();
@@ -484,9 +553,9 @@ MailInputStream::Private::readHeader() {
 void
 MailInputStream::Private::scanBody() {
     while (m->m_status == Ok) {
-        readHeaderLine();
+        readHeaderLine(false);
         int32_t len = (int32_t)(lineend - linestart);
-        if (len > 2 && strncmp("--", linestart, 2) == 0) {
+        if (m->m_status != Error && len > 2 && boundary.size() > 0 && strncmp("--", linestart, 2) == 0) {
             int32_t blen = (int32_t)boundary.top().length();
             if (len == blen + 4 && strncmp(linestart + 2 + blen, "--", 2) == 0
                     && strncmp(linestart + 2, boundary.top().c_str(), blen)
@@ -520,8 +589,7 @@ MailInputStream::Private::handleHeaderLine() {
     static const char* contenttransferencoding = "Content-Transfer-Encoding:";
     static const char* contentdisposition = "Content-Disposition:";
     int32_t len = (int32_t)(lineend - linestart);
-    if (len < 2) return;
-    if (len < 8) {
+    if (len < 3) {
         return;
     } else if (strncasecmp(linestart, subject, 8) == 0) {
         int32_t offset = 8;
@@ -603,7 +671,10 @@ MailInputStream::Private::handleBodyLine() {
     if (boundary.size() > n) {
         return false;
     }
-    readHeaderLine();
+    if (m->m_status != Ok) {
+        return false;
+    }
+    goTo(nextLineStartPosition);
     if (m->m_status != Ok) {
         return false;
     }
@@ -646,8 +717,13 @@ MailInputStream::nextEntry() {
     // the input stream
     if (p->boundary.size() == 0) {
         // signal eof because we only return eof once
+        p->goTo(p->nextLineStartPosition);
+        if (m_status != Ok) {
+            return 0;
+        }
         m_status = Eof;
         m_entrystream = new SubInputStream(m_input);
+        m_entryinfo.type = EntryInfo::File;
         m_entryinfo.filename = "body";
         return m_entrystream;
     }
@@ -659,6 +735,7 @@ MailInputStream::nextEntry() {
         }
         if (p->substream->status() == Error) {
             m_status = Error;
+            m_error = p->substream->error();
         } else {
             p->nextLineStartPosition = p->substream->offset()
                 + p->substream->size();
@@ -677,7 +754,8 @@ MailInputStream::nextEntry() {
     p->scanBody();
 
     if (m_entrystream == 0) {
-        m_status = Eof;
+        if (m_status == Ok) m_status = Eof;
+        return 0;
     }
     p->ensureFileName();
     return m_entrystream;
-- 
2.43.0


From fcb63bd91e8137a213e2c3d4b8545aaa7348d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 24/62] fix: SubStreamProviderProvider: no debugging output, no
 reads behind a short header

---
 lib/substreamproviderprovider.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lib/substreamproviderprovider.cpp b/lib/substreamproviderprovider.cpp
index b6b3ec8..c8d0b34 100644
--- a/lib/substreamproviderprovider.cpp
+++ b/lib/substreamproviderprovider.cpp
@@ -38,18 +38,14 @@ SubStreamProviderProvider::subStreamProvider(InputStream* input) {
     if (headersize <= 0) {
         return 0;
     }
-    fprintf(stderr, "%x%x%x%x\n", header[0], header[1], header[2], header[3]);
     if (MailInputStream::checkHeader(header, headersize)) {
         return new MailInputStream(input);
     }
     if (ZipInputStream::checkHeader(header, headersize)) {
-        fprintf(stderr, "zip!\n");
         return new ZipInputStream(input);
     }
     if (SdfInputStream::checkHeader(header, headersize)) {
-        fprintf(stderr, "sdf!\n");
         return new SdfInputStream(input);
     }
-    fprintf(stderr, "no match %i\n", headersize);
     return 0;
 }
-- 
2.43.0


From 5d77a28c6aeb0e19eb5e8bd1f57d65c00982671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 25/62] fix: ArchiveReader: openStream does not give a file
 whose name is only a part of the requested name

---
 lib/archivereader.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index c5d1340..0dc6eb6 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -252,20 +252,22 @@ ArchiveReader::ArchiveReaderPrivate::positionedProvider(const string& url) {
         }
         // let sn point to the trailing part of the url
         const char* sn = url.c_str() + *i;
-        size_t len = url.length();
+        size_t len = url.length() - *i;
         bool nextstream = false;
         // try to open the first substream of the current SubStreamProvider
         substream = provider->currentEntry();
         do {
             const EntryInfo& e = provider->entryInfo();
             // check that the filename matches at least one entry
+            // the filename must match complete parts of the url
+            size_t flen = e.filename.length();
             if (e.type == EntryInfo::File
-                    && e.filename.length() < len
-                    && strncmp(e.filename.c_str(), sn,
-                           e.filename.length()) == 0) {
+                    && flen <= len
+                    && strncmp(e.filename.c_str(), sn, flen) == 0
+                    && (flen == len || sn[flen] == '/')) {
                 nextstream = true;
                 // skip the number of entries that are matched
-                size_t end = *i + e.filename.length();
+                size_t end = *i + flen;
                 do {
                     ++i;
                 } while (i != partpos.rend() && *i < end);
-- 
2.43.0


From aa1dfcfb3c1228550bffff95bef86f3f6accf967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 26/62] fix: ArchiveReader: isArchive is not true for any file

---
 lib/archivereader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 0dc6eb6..235517e 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -421,7 +421,7 @@ ArchiveReader::isArchive(const std::string& url) {
     if (p->localStat(url, e) != 0) {
         return false;
     }
-    return ((e.type & (EntryInfo::File | EntryInfo::Dir)) != 0);
+    return (e.type & EntryInfo::File) && (e.type & EntryInfo::Dir);
 }
 std::vector<EntryInfo>
 convert(const ArchiveEntryCache::SubEntry* entry) {
-- 
2.43.0


From a501041de6d6e04aea0aa74911c50608c7892522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 27/62] fix: ArchiveReader::DirLister: copies share the
 listing, assignment takes the url

---
 lib/archivereader.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 235517e..9314255 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -39,8 +39,8 @@ private:
     ListingInProgress* listing;
     const ArchiveEntryCache::SubEntry* entry;
     set<std::string> done;
+    std::string url;
 public:
-    const std::string url;
     explicit Private(const vector<EntryInfo>& v, int p = 0)
         :pos(p), entries(v), listing(NULL), entry(NULL) {
     }
@@ -48,17 +48,23 @@ public:
             :pos(0), listing(l), entry(NULL), url(u) {
         listing->ref();
     }
+    Private(const Private& a)
+            :pos(a.pos), entries(a.entries), listing(a.listing),
+             entry(a.entry), done(a.done), url(a.url) {
+        if (listing) listing->ref();
+    }
     ~Private() {
         if (listing && listing->unref()) delete listing;
     }
     void operator=(const Private& a) {
         pos = a.pos;
         entries = a.entries;
+        if (a.listing) a.listing->ref();
         if (listing && listing->unref()) delete listing;
         listing = a.listing;
-        if (listing) listing->ref();
         entry = a.entry;
         done = a.done;
+        url = a.url;
     }
     bool
     nextEntry(EntryInfo& e) {
-- 
2.43.0


From afd7aa52c68ee209720226acc3def77a22b2e6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 28/62] fix: ArchiveReader: keep the entries of a finished
 listing as long as a DirLister shows them

---
 lib/archivereader.cpp   | 3 ++-
 lib/listinginprogress.h | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 9314255..460c80d 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -473,7 +473,8 @@ ArchiveReader::dirEntries(const std::string& url) {
     }
 
     if (lip) {
-        if (lip->isDone()) {
+        // a finished listing can move to the cache when nobody uses it anymore
+        if (lip->isDone() && !lip->isShared()) {
             p->cache.cache[lip->url] = lip->root;
             lip->root = 0;
             p->listingsInProgress.erase(lip->url);
diff --git a/lib/listinginprogress.h b/lib/listinginprogress.h
index a7070fe..355792b 100644
--- a/lib/listinginprogress.h
+++ b/lib/listinginprogress.h
@@ -91,6 +91,7 @@ public:
     bool nextEntry(const ArchiveEntryCache::SubEntry* entry);
     void ref() { refcount++; }
     bool unref() { return --refcount == 0; }
+    bool isShared() const { return refcount > 1; }
 };
 
 
-- 
2.43.0


From f87c4324612e154c7cc782af44831b79744d626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 29/62] fix: subStreamProvider: read the complete header of
 lzma streams

---
 lib/listinginprogress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index d813d03..1a30415 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -115,7 +115,7 @@ subStreamProvider(const Subs& subs, InputStream* input,
                 s->reset(0);
             }
         }
-        n = s->read(c, 2, 0);
+        n = s->read(c, 16, 0);
         s->reset(0);
         if (LZMAInputStream::checkHeader(c, n)) {
             InputStream* ns = new LZMAInputStream(s);
-- 
2.43.0


From 8be0513ad3b9d01c92fc9a373a7b51b153bd12d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:28 +0000
Subject: [PATCH 30/62] fix: ListingInProgress: no write behind the stack at
 ten levels of nesting

---
 lib/listinginprogress.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 1a30415..44aeaf1 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -199,8 +199,8 @@ ListingInProgress::fillEntry(InputStream* s) {
 }
 int
 ListingInProgress::nextEntry(int depth) {
-    if (stack.size() < (size_t)(depth+1)) {
-        stack.resize(depth+1);
+    if (stack.size() < (size_t)(depth+2)) {
+        stack.resize(depth+2);
     }
     StackEntry* e = &stack[depth];
     StackEntry* ce = &stack[depth+1];
-- 
2.43.0


From fed6984afbe45e9983ae37e36bf124db6b6c627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 31/62] fix: ListingInProgress: keep what was found in a
 directory that is listed after its contents

---
 lib/listinginprogress.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 44aeaf1..75ffc31 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -64,7 +64,24 @@ addEntry(ArchiveEntryCache::SubEntry* parent,
         parent = child;
     }
     // this is what we came for: add the entry to the parent
-    parent->entries[name] = se;
+    child = parent->entries[name];
+    if (child == NULL) {
+        parent->entries[name] = se;
+        return;
+    }
+    // there is an entry with this name already: it keeps its address and
+    // its children, and gets the information if it has none yet
+    if (!(child->entry.type & EntryInfo::File)) {
+        child->entry = se->entry;
+    }
+    ArchiveEntryCache::SubEntryMap::iterator i;
+    for (i = se->entries.begin(); i != se->entries.end(); ++i) {
+        ArchiveEntryCache::SubEntry*& c = child->entries[i->first];
+        if (c == NULL) {
+            std::swap(c, i->second);
+        }
+    }
+    delete se;
 }
 }
 
-- 
2.43.0


From 9643fb3a821b01f36a0989a0e35812e0184a9ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 32/62] fix: ListingInProgress: release unfinished entries,
 close files that are no archives

---
 lib/listinginprogress.cpp | 7 +++++++
 lib/listinginprogress.h   | 1 +
 2 files changed, 8 insertions(+)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 75ffc31..485a356 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -190,11 +190,17 @@ ListingInProgress::ListingInProgress(const Subs& sbs,
         currentdepth = 0;
     } else {
         currentdepth = -1;
+        delete stream;
+        stream = 0;
     }
 }
 ListingInProgress::~ListingInProgress() {
     for (size_t i=0; i<stack.size(); ++i) {
         free(stack[i].streams);
+        // entries of which the listing was not finished
+        if (i > 0) {
+            delete stack[i].entry;
+        }
     }
     delete root;
     delete stream;
@@ -245,6 +251,7 @@ ListingInProgress::nextEntry(int depth) {
             ce->entry->entry.size = max(es->size(), (int64_t)0);
         }
         addEntry(e->entry, ce->entry);
+        ce->entry = 0;
         if (!e->p->nextEntry()) {
             free(e->streams);
             e->p = 0;
diff --git a/lib/listinginprogress.h b/lib/listinginprogress.h
index 355792b..78d043a 100644
--- a/lib/listinginprogress.h
+++ b/lib/listinginprogress.h
@@ -56,6 +56,7 @@ public:
     std::list<StreamPtr> streams; // stream stack that lead to this SubStreamProvider
     Strigi::SubStreamProvider* p;
     ArchiveEntryCache::SubEntry* entry; // the current entry
+    StackEntry() :p(0), entry(0) {}
 };
 
 /*
-- 
2.43.0


From 3a01b5cce2cd90726a340d6c082bb151d755d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:21 +0000
Subject: [PATCH 33/62] fix: ArchiveReader: do not list and leak a listed file
 again for each entry that it does not have

---
 lib/archivereader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 460c80d..ebf97bd 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -450,6 +450,11 @@ ArchiveReader::dirEntries(const std::string& url) {
         lip = p->findListingInProgress(url);
     }
     std::vector<EntryInfo> v;
+    if (subentry == NULL && lip == NULL
+            && p->cache.findRootEntry(url) != p->cache.cache.end()) {
+        // the file has been listed completely: there is no such entry
+        return DirLister(new DirLister::Private(v));
+    }
     if (subentry == NULL && lip == NULL) {
         // this entry is not in the cache, we try to open it
         InputStream* s = 0;
-- 
2.43.0


From 558303f4428a38ba6be2fd37ae045d4c0f5ef68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 34/62] fix: ArchiveReader: see changed and removed files, do
 not delete cached entries that stay in the map

---
 lib/archivereader.cpp | 49 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index ebf97bd..00f0331 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -176,6 +176,12 @@ public:
     ArchiveReaderPrivate();
     ~ArchiveReaderPrivate();
     ListingInProgress* findListingInProgress(const string& url) const;
+    /**
+     * @brief Forget the entries of a file that has changed.
+     *
+     * @param url the URL of a file or of an entry in that file
+     */
+    void forgetIfChanged(const std::string& url);
 };
 ArchiveReader::ArchiveReaderPrivate::ArchiveReaderPrivate() {
     typedef std::pair<bool (*)(const char*, int32_t),
@@ -308,9 +314,40 @@ ArchiveReader::ArchiveReaderPrivate::open(const string& url) const {
     }
     return stream;
 }
+void
+ArchiveReader::ArchiveReaderPrivate::forgetIfChanged(const std::string& url) {
+    // find what is known about the file
+    ListingInProgress* lip = findListingInProgress(url);
+    map<string, ArchiveEntryCache::RootSubEntry*>::const_iterator ci
+        = cache.findRootEntry(url);
+    if (lip == NULL && ci == cache.cache.end()) return;
+    const string file(lip ? lip->url : ci->first);
+    const EntryInfo& known = lip ? lip->root->entry : ci->second->entry;
+
+    // compare it with the current properties of the file
+    list<StreamOpener*>::const_iterator i;
+    for (i = openers.begin(); i != openers.end(); ++i) {
+        EntryInfo e;
+        if ((*i)->stat(file, e) == 0) {
+            if (e.mtime == known.mtime && e.size == known.size) return;
+            break;
+        }
+    }
+
+    // the file has changed or is gone
+    if (lip) {
+        listingsInProgress.erase(file);
+        if (lip->unref()) delete lip;
+    } else {
+        delete ci->second;
+        cache.cache.erase(file);
+    }
+}
 int
 ArchiveReader::ArchiveReaderPrivate::localStat(const std::string& url,
         EntryInfo& e) {
+    forgetIfChanged(url);
+
     // try with the supplied streamOpeners
     list<StreamOpener*>::const_iterator i;
     for (i = openers.begin(); i != openers.end(); ++i) {
@@ -332,14 +369,8 @@ ArchiveReader::ArchiveReaderPrivate::localStat(const std::string& url,
             map<string, ArchiveEntryCache::RootSubEntry*>::const_iterator se
                 = cache.cache.find(url);
             if (se != cache.cache.end()) {
-                if (se->second->entry.mtime == e.mtime) {
-                    e.type = se->second->entry.type;
-                    return 0;
-                }
-                // the file has changed: it is removed from the cache
-                ArchiveEntryCache::RootSubEntry* rse = se->second;
-                cache.cache.erase(se->second->entry.filename);
-                delete rse;
+                e.type = se->second->entry.type;
+                return 0;
             }
 
             // The file exists, but is it an archive?
@@ -441,6 +472,8 @@ convert(const ArchiveEntryCache::SubEntry* entry) {
 }
 ArchiveReader::DirLister
 ArchiveReader::dirEntries(const std::string& url) {
+    p->forgetIfChanged(url);
+
     // find the entry in the cache
     const ArchiveEntryCache::SubEntry* subentry = p->cache.findEntry(url);
 
-- 
2.43.0


From 8e0b6d52190c92a199ef06aadef4c3dbb2fe92a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 35/62] fix: ListingInProgress: limit the nesting of archives,
 which takes quadratic time and overflows the stack

---
 lib/listinginprogress.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 485a356..8c31e79 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -231,7 +231,10 @@ ListingInProgress::nextEntry(int depth) {
         // create a child entry
         ce->entry = new ArchiveEntryCache::SubEntry();
         ce->entry->entry = e->p->entryInfo();
-        ce->p = subStreamProvider(subs, e->p->currentEntry(), ce->streams);
+        // archives that are nested deeper than this are listed as files
+        if (depth < 32) {
+            ce->p = subStreamProvider(subs, e->p->currentEntry(), ce->streams);
+        }
         if (ce->p) {
             // the child has substreams too
             ce->entry->entry.type
-- 
2.43.0


From 4bb16995505d3d393da49fc591e67bce395b57ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 36/62] fix: ArchiveReader: find entries with a NUL in their
 name

---
 lib/archivereader.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 00f0331..70c41b1 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -262,8 +262,7 @@ ArchiveReader::ArchiveReaderPrivate::positionedProvider(const string& url) {
             free(streams);
             return 0;
         }
-        // let sn point to the trailing part of the url
-        const char* sn = url.c_str() + *i;
+        // len is the length of the trailing part of the url
         size_t len = url.length() - *i;
         bool nextstream = false;
         // try to open the first substream of the current SubStreamProvider
@@ -275,8 +274,8 @@ ArchiveReader::ArchiveReaderPrivate::positionedProvider(const string& url) {
             size_t flen = e.filename.length();
             if (e.type == EntryInfo::File
                     && flen <= len
-                    && strncmp(e.filename.c_str(), sn, flen) == 0
-                    && (flen == len || sn[flen] == '/')) {
+                    && url.compare(*i, flen, e.filename) == 0
+                    && (flen == len || url[*i+flen] == '/')) {
                 nextstream = true;
                 // skip the number of entries that are matched
                 size_t end = *i + flen;
@@ -419,7 +418,7 @@ ArchiveReader::stat(const std::string& url, EntryInfo& e) {
     std::string parenturl(url, 0, pos);
     ArchiveReader::DirLister dirlister(dirEntries(parenturl));
     while (dirlister.nextEntry(e)) {
-        if (e.filename == url.c_str()+pos+1) {
+        if (url.compare(pos+1, string::npos, e.filename) == 0) {
             return 0;
         }
     }
-- 
2.43.0


From 74dd986b7d500e3fa4fb851e538a6227b2d91db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 37/62] fix: ArchiveReader: looking for a file in a directory
 does not hide the archives in that directory

---
 lib/archivereader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 70c41b1..88a53e7 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -503,7 +503,11 @@ ArchiveReader::dirEntries(const std::string& url) {
         }
         EntryInfo e;
         // get the properties of the physical file
-        p->localStat(name, e);
+        if (p->localStat(name, e) != 0 || !(e.type & EntryInfo::File)) {
+            // a stream can be opened for a directory, but it has no entries
+            delete s;
+            return DirLister(new DirLister::Private(v));
+        }
         lip = new ListingInProgress(p->subs, e, name, s);
         lip->ref();
         p->listingsInProgress[name] = lip;
-- 
2.43.0


From d12d09940f0c4157ae8b943a90fe35f5c647263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 38/62] fix: ProcessInputStream: the signal goes to the
 program, not to the process with the number of the signal

---
 lib/processinputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 73dde00..da52ae0 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -63,7 +63,7 @@ ProcessInputStream::~ProcessInputStream() {
         close(fdout);
     }
     if (pid != -1) {
-        kill(SIGTERM, pid);
+        kill(pid, SIGTERM);
         int status;
         waitpid(pid, &status , 0);
     }
-- 
2.43.0


From b8c3e4d502a4894e9e22475aa39bbdafd1744e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 39/62] fix: ProcessInputStream: a program that cannot be
 started is an error, not an empty output

---
 lib/processinputstream.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index da52ae0..bf6ff24 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -123,13 +123,15 @@ void
 ProcessInputStream::runCmd() {
     int p[2];
     if (pipe(p) == -1) {
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         return;
     }
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         close (p[0]);
         close (p[1]);
         return;
@@ -154,14 +156,23 @@ void
 ProcessInputStream::runCmdWithInput() {
     int pin[2];
     int pout[2];
-    if (pipe(pin) == -1 || pipe(pout) == -1) {
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+    if (pipe(pin) == -1) {
+        m_error = strerror(errno);
+        m_status = Error;
+        return;
+    }
+    if (pipe(pout) == -1) {
+        m_error = strerror(errno);
+        m_status = Error;
+        close (pin[0]);
+        close (pin[1]);
         return;
     }
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
-        fprintf(stderr,"ProcessInputStream::runCmdWithInput: fork error\n");
+        m_error = strerror(errno);
+        m_status = Error;
         close (pin[0]);
         close (pin[1]);
         close (pout[0]);
-- 
2.43.0


From 8922cd9c5e43b93533fbca59de05d43958e56d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 40/62] fix: ProcessInputStream: programs get their input and
 output and no other pipes, whichever descriptors are in use

---
 lib/processinputstream.cpp | 67 ++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index bf6ff24..7cf43a8 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -20,6 +20,7 @@
 #include <strigi/processinputstream.h>
 #include <strigi/strigiconfig.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
@@ -35,6 +36,43 @@ using namespace Strigi;
 extern char **environ;
 #endif
 
+namespace {
+// no other program that is started gets this descriptor
+void
+closeOnExec(int fd) {
+    fcntl(fd, F_SETFD, FD_CLOEXEC);
+}
+// a copy of the descriptor that is not one of the standard descriptors
+int
+aboveStandard(int fd) {
+    fd = fcntl(fd, F_DUPFD, 3);
+    if (fd == -1) {
+        _exit(EXIT_FAILURE);
+    }
+    closeOnExec(fd);
+    return fd;
+}
+/**
+ * In the new process: replace this process by the program @p args with @p in
+ * as input, none if it is -1, and @p out as output.
+ **/
+void
+runProgram(const char* const* args, int in, int out) {
+    // the pipes may have the numbers of the standard descriptors
+    out = aboveStandard(out);
+    if (in == -1) {
+        close(0);
+    } else {
+        dup2(aboveStandard(in), 0);
+    }
+    dup2(out, 1);
+    close(2);
+    execve(args[0], (char *const *) args, environ);
+    // no exit(): what the parent has not written yet must not be written here
+    _exit(EXIT_FAILURE);
+}
+}
+
 ProcessInputStream::ProcessInputStream(const vector<string>& a,
         InputStream* input) {
     this->input = input;
@@ -127,6 +165,8 @@ ProcessInputStream::runCmd() {
         m_status = Error;
         return;
     }
+    closeOnExec(p[0]);
+    closeOnExec(p[1]);
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
@@ -138,16 +178,7 @@ ProcessInputStream::runCmd() {
     }
     
     if (pid == 0) {
-        // define the output to be written into p[1]
-        dup2(p[1], 1);
-        // close p[0], because this process will not read from it
-        close(0);
-        close(p[0]);
-        close(2);
-        char *const *unconstargs = (char *const *) (args);
-        execve(args[0], unconstargs, environ);
-        fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        runProgram(args, -1, p[1]);
     }
     close(p[1]);
     fdout = p[0];
@@ -168,6 +199,10 @@ ProcessInputStream::runCmdWithInput() {
         close (pin[1]);
         return;
     }
+    closeOnExec(pin[0]);
+    closeOnExec(pin[1]);
+    closeOnExec(pout[0]);
+    closeOnExec(pout[1]);
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
@@ -181,17 +216,7 @@ ProcessInputStream::runCmdWithInput() {
     }
  
     if (pid == 0) {
-        // define the output to be written into p[1]
-        dup2(pin[0], 0);
-        dup2(pout[1], 1);
-        // close p[0], because this process will not read from it
-        close(pin[1]);
-        close(pout[0]);
-        close(2);
-        char *const *unconstargs = (char *const *) (args);
-        execve(args[0], unconstargs, environ);
-        fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        runProgram(args, pin[0], pout[1]);
     }
     close(pin[0]);
     close(pout[1]);
-- 
2.43.0


From 987a0a94e6bedeee900cbf78d2b831159684f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 41/62] fix: ProcessInputStream: 0 is a valid descriptor

---
 lib/processinputstream.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 7cf43a8..013bc88 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -94,10 +94,10 @@ ProcessInputStream::ProcessInputStream(const vector<string>& a,
     }
 }
 ProcessInputStream::~ProcessInputStream() {
-    if (fdin > 0) {
+    if (fdin != -1) {
         close(fdin);
     }
-    if (fdout > 0) {
+    if (fdout != -1) {
         close(fdout);
     }
     if (pid != -1) {
@@ -141,7 +141,7 @@ ProcessInputStream::writeToPipe() {
 }
 int32_t
 ProcessInputStream::fillBuffer(char* start, int32_t space) {
-    if (fdout <= 0) return -1;
+    if (fdout == -1) return -1;
     if (input && input->status() == Ok) {
         writeToPipe();
     }
@@ -153,7 +153,7 @@ ProcessInputStream::fillBuffer(char* start, int32_t space) {
     }
     if (n <= 0) {
         close(fdout);
-        fdout = 0;
+        fdout = -1;
     }
     return (int32_t)n;
 }
-- 
2.43.0


From 505479a2d5e864d90e95db230a5de40f59995990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 42/62] fix: ProcessInputStream: write all of the input and do
 not wait for a program that waits for its output to be read

---
 lib/processinputstream.cpp | 59 +++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 013bc88..ea691cc 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -21,6 +21,7 @@
 #include <strigi/strigiconfig.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
@@ -117,33 +118,57 @@ ProcessInputStream::writeToPipe() {
     int64_t pos = input->position();
     const char* b;
     int32_t n = input->read(b, 1, 0);
-    if (n <= 0 || input->status() == Eof) {
-        if (input->status() == Error) {
-            m_status = Error;
-            m_error = input->error();
-            n = 0;
-        }
-        // close the pipe if no more output is available
-        input = 0;
-        close(fdin);
-        fdin = -1;
-    } else {
+    if (n > 0) {
         // write into the pipe
         ssize_t m = write(fdin, b, n);
+        if (m < 0 && errno == EAGAIN) {
+            m = 0;
+        }
+        if (m == n) {
+            return;
+        }
         if (m < 0) {
             m_error = strerror(errno);
             m_status = Error;
-            input = 0;
-        } else if (m != n) {
-            input->reset(pos+n);
+        } else if (input->reset(pos+m) != pos+m) {
+            m_error = "cannot go back in the input";
+            m_status = Error;
+        } else {
+            return;
         }
+    } else if (input->status() == Error) {
+        m_error = input->error();
+        m_status = Error;
     }
+    // close the pipe if there is nothing more to write
+    input = 0;
+    close(fdin);
+    fdin = -1;
 }
 int32_t
 ProcessInputStream::fillBuffer(char* start, int32_t space) {
     if (fdout == -1) return -1;
-    if (input && input->status() == Ok) {
-        writeToPipe();
+    // the program may want to write before it reads and read before it writes
+    while (fdin != -1) {
+        struct pollfd p[2];
+        p[0].fd = fdout;
+        p[0].events = POLLIN;
+        p[0].revents = 0;
+        p[1].fd = fdin;
+        p[1].events = POLLOUT;
+        p[1].revents = 0;
+        if (poll(p, 2, -1) == -1) {
+            m_error = strerror(errno);
+            m_status = Error;
+        } else if (p[1].revents) {
+            writeToPipe();
+        }
+        if (m_status == Error) {
+            return -2;
+        }
+        if (p[0].revents) {
+            break;
+        }
     }
     ssize_t n = ::read(fdout, start, space);
     if (n < 0) {
@@ -222,4 +247,6 @@ ProcessInputStream::runCmdWithInput() {
     close(pout[1]);
     fdout = pout[0];
     fdin = pin[1];
+    // the program is not waited for if it does not read
+    fcntl(fdin, F_SETFL, fcntl(fdin, F_GETFL) | O_NONBLOCK);
 }
-- 
2.43.0


From cd68cf4c6e2eb1acf77360cd550cdf7c1ee3a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 43/62] fix: ProcessInputStream: a program that does not read
 all of its input is no error and does not kill the reader

---
 lib/processinputstream.cpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index ea691cc..5c63e21 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -72,6 +72,29 @@ runProgram(const char* const* args, int in, int out) {
     // no exit(): what the parent has not written yet must not be written here
     _exit(EXIT_FAILURE);
 }
+// write() without the signal that is sent if the program does not read any more
+ssize_t
+writeWithoutSignal(int fd, const char* b, size_t n) {
+    sigset_t sigpipe, pending, old;
+    sigemptyset(&sigpipe);
+    sigaddset(&sigpipe, SIGPIPE);
+    sigemptyset(&pending);
+    sigpending(&pending);
+    bool wasPending = sigismember(&pending, SIGPIPE) == 1;
+    pthread_sigmask(SIG_BLOCK, &sigpipe, &old);
+    ssize_t m = write(fd, b, n);
+    int error = errno;
+    if (m < 0 && error == EPIPE && !wasPending) {
+        sigpending(&pending);
+        if (sigismember(&pending, SIGPIPE) == 1) {
+            int sig;
+            sigwait(&sigpipe, &sig);
+        }
+    }
+    pthread_sigmask(SIG_SETMASK, &old, 0);
+    errno = error;
+    return m;
+}
 }
 
 ProcessInputStream::ProcessInputStream(const vector<string>& a,
@@ -120,7 +143,7 @@ ProcessInputStream::writeToPipe() {
     int32_t n = input->read(b, 1, 0);
     if (n > 0) {
         // write into the pipe
-        ssize_t m = write(fdin, b, n);
+        ssize_t m = writeWithoutSignal(fdin, b, n);
         if (m < 0 && errno == EAGAIN) {
             m = 0;
         }
@@ -128,8 +151,11 @@ ProcessInputStream::writeToPipe() {
             return;
         }
         if (m < 0) {
-            m_error = strerror(errno);
-            m_status = Error;
+            // a program does not have to read all of its input
+            if (errno != EPIPE) {
+                m_error = strerror(errno);
+                m_status = Error;
+            }
         } else if (input->reset(pos+m) != pos+m) {
             m_error = "cannot go back in the input";
             m_status = Error;
-- 
2.43.0


From fd77d25a8a67481b1e379afd255f888fe544bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 44/62] fix: ProcessInputStream: a signal does not interrupt
 the reading, the writing or the waiting

---
 lib/processinputstream.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 5c63e21..14cf810 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -127,7 +127,7 @@ ProcessInputStream::~ProcessInputStream() {
     if (pid != -1) {
         kill(pid, SIGTERM);
         int status;
-        waitpid(pid, &status , 0);
+        while (waitpid(pid, &status , 0) == -1 && errno == EINTR) {}
     }
     const char* const* p = args;
     while (*p) {
@@ -144,7 +144,7 @@ ProcessInputStream::writeToPipe() {
     if (n > 0) {
         // write into the pipe
         ssize_t m = writeWithoutSignal(fdin, b, n);
-        if (m < 0 && errno == EAGAIN) {
+        if (m < 0 && (errno == EAGAIN || errno == EINTR)) {
             m = 0;
         }
         if (m == n) {
@@ -184,6 +184,9 @@ ProcessInputStream::fillBuffer(char* start, int32_t space) {
         p[1].events = POLLOUT;
         p[1].revents = 0;
         if (poll(p, 2, -1) == -1) {
+            if (errno == EINTR) {
+                continue;
+            }
             m_error = strerror(errno);
             m_status = Error;
         } else if (p[1].revents) {
@@ -196,7 +199,10 @@ ProcessInputStream::fillBuffer(char* start, int32_t space) {
             break;
         }
     }
-    ssize_t n = ::read(fdout, start, space);
+    ssize_t n;
+    do {
+        n = ::read(fdout, start, space);
+    } while (n < 0 && errno == EINTR);
     if (n < 0) {
         m_error = strerror(errno);
         m_status = Error;
-- 
2.43.0


From c5e4c15f4636eace22e5270ad66f068555ff77e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 45/62] fix: Base64InputStream: initialise the tables once,
 also when several threads start to decode

---
 lib/base64inputstream.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/base64inputstream.cpp b/lib/base64inputstream.cpp
index d9dfbc2..81866ba 100644
--- a/lib/base64inputstream.cpp
+++ b/lib/base64inputstream.cpp
@@ -48,15 +48,12 @@ const unsigned char alphabet[]
     = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
 bool inalphabet[256];
 unsigned char decoder[133];
-bool initializedAlphabet = false;
 void initialize();
 string decode(const char* in, string::size_type length);
 
-
-void
-initialize() {
-    if (!initializedAlphabet) {
-        initializedAlphabet = true;
+namespace {
+struct Initializer {
+    Initializer() {
         // initialize the translation arrays
         for (int i=64; i<256; ++i) {
             inalphabet[i] = 0;
@@ -66,6 +63,13 @@ initialize() {
             decoder[alphabet[i]] = i;
         }
     }
+};
+}
+
+void
+initialize() {
+    // a static variable, because several threads may come here at once
+    static const Initializer initializer;
 }
 
 Base64InputStream::Base64InputStream(InputStream* i) 
-- 
2.43.0


From 6f71fd025a6d5ba62d081e0d638b746bfb2ea12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 46/62] fix: dos2unixtime: do not use the result of
 localtime(), which threads share

---
 lib/dostime.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/dostime.cpp b/lib/dostime.cpp
index 373e294..988cac3 100644
--- a/lib/dostime.cpp
+++ b/lib/dostime.cpp
@@ -41,11 +41,8 @@
 time_t
 dos2unixtime (unsigned long dostime)
 {
-  struct tm ltime;
-  time_t now = time (NULL);
-
-  /* Call localtime to initialize timezone in TIME.  */
-  ltime = *localtime (&now);
+  /* No localtime() here: its result is shared by all threads.  */
+  struct tm ltime = tm();
 
   ltime.tm_year = (int)(dostime >> 25) + 80;
   ltime.tm_mon = ((int)(dostime >> 21) & 0x0f) - 1;
-- 
2.43.0


From 0cff8c3ed622e61bb43b4d53e3ba5f6c0a5892fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:14 +0000
Subject: [PATCH 47/62] fix: ArchiveReader: try the formats in a fixed order,
 mail last, so that a tar or sdf file whose first line has a colon is not
 taken for a mail

---
 lib/archivereader.cpp             | 22 +++++++++++-----------
 lib/listinginprogress.cpp         |  9 +++++----
 lib/listinginprogress.h           |  5 +++--
 lib/substreamproviderprovider.cpp |  7 ++++---
 4 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 88a53e7..079112b 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -149,10 +149,9 @@ public:
     std::list<StreamOpener*> openers;
     /** Cache of EntryInfo object to files that have been read. **/
     ArchiveEntryCache cache;
-    /** Map with pointers to a headerCheck function as key and a factory
-     *  function as value. */
-    std::map<bool (*)(const char*, int32_t),
-        SubStreamProvider* (*)(InputStream*)> subs;
+    /** Pairs of a headerCheck function and a factory function, the most
+     *  specific formats first. */
+    Subs subs;
     /**
      * A list of dir listings in progress. Each ListingInProgress has a physical
      * file in common. The url of the physical file is the key.
@@ -187,18 +186,19 @@ ArchiveReader::ArchiveReaderPrivate::ArchiveReaderPrivate() {
     typedef std::pair<bool (*)(const char*, int32_t),
         SubStreamProvider* (*)(InputStream*)> SubsPair;
 
-    subs.insert(SubsPair(MailInputStream::checkHeader,
-        MailInputStream::factory));
-    subs.insert(SubsPair(RpmInputStream::checkHeader,
+    subs.push_back(SubsPair(RpmInputStream::checkHeader,
         RpmInputStream::factory));
-    subs.insert(SubsPair(ArInputStream::checkHeader,
+    subs.push_back(SubsPair(ArInputStream::checkHeader,
         ArInputStream::factory));
-    subs.insert(SubsPair(ZipInputStream::checkHeader,
+    subs.push_back(SubsPair(ZipInputStream::checkHeader,
         ZipInputStream::factory));
-    subs.insert(SubsPair(TarInputStream::checkHeader,
+    subs.push_back(SubsPair(TarInputStream::checkHeader,
         TarInputStream::factory));
-    subs.insert(SubsPair(SdfInputStream::checkHeader,
+    subs.push_back(SubsPair(SdfInputStream::checkHeader,
         SdfInputStream::factory));
+    // nearly every text that starts with a word and a colon looks like a mail
+    subs.push_back(SubsPair(MailInputStream::checkHeader,
+        MailInputStream::factory));
 }
 ArchiveReader::ArchiveReaderPrivate::~ArchiveReaderPrivate() {
     if (openstreams.size() > 0) {
diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 8c31e79..4881abc 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -151,8 +151,7 @@ subStreamProvider(const Subs& subs, InputStream* input,
     int32_t n = s->read(c, 1024, 0);
     s->reset(0);
     SubStreamProvider* ss;
-    map<bool (*)(const char*, int32_t),
-        SubStreamProvider* (*)(InputStream*)>::const_iterator i;
+    Subs::const_iterator i;
     for (i = subs.begin(); i != subs.end(); ++i) {
         // check if the header matches for each substreamprovider
         if (i->first(c, n)) {
@@ -165,8 +164,10 @@ subStreamProvider(const Subs& subs, InputStream* input,
             }
             // even though the header was good, this stream has no substream
             delete ss;
-            s->reset(0);
-            n = s->read(c, 1, 0);
+            if (s->reset(0) != 0) {
+                break;
+            }
+            n = s->read(c, 1024, 0);
             s->reset(0);
         }
     }
diff --git a/lib/listinginprogress.h b/lib/listinginprogress.h
index 78d043a..4847e2f 100644
--- a/lib/listinginprogress.h
+++ b/lib/listinginprogress.h
@@ -25,8 +25,9 @@
 #include <list>
 #include <vector>
 
-typedef std::map<bool (*)(const char*, int32_t),
-    Strigi::SubStreamProvider* (*)(Strigi::InputStream*)> Subs;
+// the formats in the order in which they are tried
+typedef std::vector<std::pair<bool (*)(const char*, int32_t),
+    Strigi::SubStreamProvider* (*)(Strigi::InputStream*)> > Subs;
 
 /** Convenience class that holds a pointer to either a stream or a
  *  SubStreamProvider. It ensures proper destruction of the objects pointed
diff --git a/lib/substreamproviderprovider.cpp b/lib/substreamproviderprovider.cpp
index c8d0b34..b721715 100644
--- a/lib/substreamproviderprovider.cpp
+++ b/lib/substreamproviderprovider.cpp
@@ -38,14 +38,15 @@ SubStreamProviderProvider::subStreamProvider(InputStream* input) {
     if (headersize <= 0) {
         return 0;
     }
-    if (MailInputStream::checkHeader(header, headersize)) {
-        return new MailInputStream(input);
-    }
     if (ZipInputStream::checkHeader(header, headersize)) {
         return new ZipInputStream(input);
     }
     if (SdfInputStream::checkHeader(header, headersize)) {
         return new SdfInputStream(input);
     }
+    // nearly every text that starts with a word and a colon looks like a mail
+    if (MailInputStream::checkHeader(header, headersize)) {
+        return new MailInputStream(input);
+    }
     return 0;
 }
-- 
2.43.0


From 8e9fa7cc215b23f08b7e65632970641878244cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 48/62] fix: MailInputStream: list a mail that does not start
 at position 0 of its input

---
 lib/mailinputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 4d4e5a5..e14ef6b 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -358,7 +358,7 @@ public:
 MailInputStream::Private::Private(MailInputStream* mail) :m(mail) {
     substream = 0;
     entrynumber = 0;
-    nextLineStartPosition = 0;
+    nextLineStartPosition = m->m_input->position();
     maxlinesize = 1024*1024;
     linestart = lineend = 0;
 }
-- 
2.43.0


From cea8affc8ade7ce4e5a1a96f83859810680687f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:17 +0000
Subject: [PATCH 49/62] fix: ArInputStream: the padding follows a member of odd
 size, also when the archive starts at an odd position

---
 lib/arinputstream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 2a6cfeb..32d0267 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -88,8 +88,8 @@ ArInputStream::readHeader() {
     int32_t toread;
     int32_t nread;
 
-    int64_t pos = m_input->position();
-    if (pos%2) {
+    // a member of odd size is followed by a byte of padding
+    if (m_entryinfo.size > 0 && m_entryinfo.size%2) {
         m_input->skip(1);
     }
 
-- 
2.43.0


From 265da65deb489f6c96a58ddc828ccb27d7c3e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 50/62] fix: OleInputStream: list a document that does not
 start at position 0 of its input

---
 lib/oleinputstream.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 2689842..c30814b 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -169,13 +169,14 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     currentStreamSize = 0;
     maxindex = maxsindex = 0;
     // read start
+    const int64_t start = input->position();
     size = input->read(data, 512, 512);
     if (size != 512) {
         stream->m_status = Error;
         stream->m_error = "File is too small.";
         return;
     }
-    input->reset(0);
+    input->reset(start);
 
     int32_t nBat = readLittleEndianInt32(data+0x2c);
     int32_t ptOffset = readLittleEndianInt32(data+0x30);
@@ -207,17 +208,17 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     if (128*((int64_t)nBat-1) > max) max = 128*((int64_t)nBat-1);
 
     int32_t toread = 10000000;
-    if (input->size() > 0x7fffffff) {
+    if (input->size() - start > 0x7fffffff) {
         stream->m_status = Error;
         stream->m_error = "OLE files of this size are not supported.";
         return;
     }
     if (input->size() > 0) {
-        toread = (int32_t)input->size();
+        toread = (int32_t)(input->size() - start);
     }
     size = input->read(data, toread, toread);
-    input->reset(0);
-    if (size != input->size()) {
+    input->reset(start);
+    if (size != input->size() - start) {
         stream->m_status = Error;
         stream->m_error
             = string("File cannot be read completely: ")+input->error();
-- 
2.43.0


From 4b93b6f7362acd0bd08cc342d99e654b5f5a2065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 51/62] fix: StringTerminatedSubStream: do not overflow when
 the requested minimum is very large

---
 lib/stringterminatedsubstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index 501a98a..a58147e 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -88,6 +88,8 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     int32_t tlmax = max;
     if (tlmin == 0) {
         tlmin = 1 + tl;
+    } else if (tlmin > 0x7fffffff - tl) {
+        tlmin = 0x7fffffff;
     } else {
         tlmin += tl;
     }
-- 
2.43.0


From 3a459ed1d67da21d7581db751f0424c44bca7e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:21 +0000
Subject: [PATCH 52/62] fix: SkippingFileInputStream: do not overflow when a
 very large number of bytes is skipped

---
 lib/skippingfileinputstream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index c2e1c72..ca57a62 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -125,7 +125,10 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
 int64_t
 SkippingFileInputStream::skip(int64_t ntoskip) {
     int64_t oldpos = m_position;
-    if (reset(m_position + ntoskip) == -2) return -2;
+    // a number of bytes that is too large for the position leads to the end
+    const int64_t max = 0x7fffffffffffffffLL;
+    int64_t pos = (ntoskip > max - oldpos) ?max :oldpos + ntoskip;
+    if (reset(pos) == -2) return -2;
     return m_position - oldpos;
 }
 int64_t
-- 
2.43.0


From 8c7578e5be14502b32865767e2eeb540750a5666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 53/62] fix: SubInputStream: do not overflow when reset to a
 very large position

---
 lib/subinputstream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index 71754ef..292ae1c 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -81,6 +81,9 @@ SubInputStream::reset(int64_t newpos) {
 //    fprintf(stderr, "subreset pos: %li newpos: %li m_offset: %li m_size: %li\n",
 //         m_position, newpos, m_offset, m_size);
     if (m_size != -1 && newpos > m_size) newpos = m_size;
+    // the position in the input can not be larger than the largest number
+    const int64_t max = 0x7fffffffffffffffLL - m_offset;
+    if (newpos > max) newpos = max;
     m_position = m_input->reset(newpos + m_offset);
     if (m_position < m_offset) {
         cerr << "########### m_position " << m_position << " newpos " << newpos
-- 
2.43.0


From 072da3ac4807b53c4e47768a9cb957bc9e00c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:50 +0000
Subject: [PATCH 54/62] fix: SkippingFileInputStream: go to the start, like
 other streams, when asked for a negative position

---
 lib/skippingfileinputstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index ca57a62..f3cfe07 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -156,7 +156,9 @@ SkippingFileInputStream::reset(int64_t pos) {
         }
     }
     if (m_size >= 0 && pos > m_size) pos = m_size;
+    if (pos < 0) pos = 0;
     if (fseek(file, pos, SEEK_SET)) {
+        m_error = "Could not seek in file '" + filepath + "'.";
         m_status = Error;
         return -2;
     }
-- 
2.43.0


From df1d7e691941045304ce12f44a6f3fa6ad5c8ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:20 +0000
Subject: [PATCH 55/62] fix: TarInputStream: accept large user and group
 numbers and times before 1970

---
 lib/tarinputstream.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index 2d1ecab..02391e2 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -88,8 +88,10 @@ TarInputStream::checkHeader(const char* h, int32_t hsize) {
 
     // check for field values that should be '\0' for the header to be a
     // tar header. Two positions are also accepted if they are ' ' because they
-    return !(h[107] || h[115] || h[123] || (h[135] && h[135]!=' ' && !(h[124] & 0x80))
-            || (h[147] && h[147] != ' ') || h[256]);
+    // are the end of a number. Numbers that do not fit are written in binary.
+    return !(h[107] || (h[115] && !(h[108] & 0x80)) || (h[123] && !(h[116] & 0x80))
+            || (h[135] && h[135]!=' ' && !(h[124] & 0x80))
+            || (h[147] && h[147] != ' ' && !(h[136] & 0x80)) || h[256]);
 }
 void
 TarInputStream::parseHeader() {
@@ -182,6 +184,11 @@ TarInputStream::parseHeader() {
     // read the file size which is in octal format
     m_entryinfo.size = readOctalField(hb, 124);
     if (m_status) return;
+    if (m_entryinfo.size < 0) {
+        m_status = Error;
+        m_error = "Error reading header: negative size.";
+        return;
+    }
     m_entryinfo.mtime = readOctalField(hb, 136);
     if (m_status) return;
 
@@ -211,8 +218,9 @@ TarInputStream::readOctalField(const char *b, int32_t offset) {
     int64_t val = 0;
     if (*p & 0x80) {
         // numbers that do not fit are written in binary
-        for (val = *p++ & 0x7f; p < e && val < (1LL << 47); ++p) {
-            val = (val << 8) + (unsigned char)*p;
+        val = ((unsigned char)*p == 0xff) ?-1 :*p & 0x7f;
+        for (++p; p < e && val < (1LL << 47) && val >= -(1LL << 47); ++p) {
+            val = val * 256 + (unsigned char)*p;
         }
         if (p == e) return val;
     } else {
-- 
2.43.0


From 666986eddb48fa017fedd18011f32805a0c63513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:23 +0000
Subject: [PATCH 56/62] fix: TarInputStream: accept links with a target of 100
 or more characters

---
 lib/tarinputstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index 02391e2..3a1cfac 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -89,9 +89,11 @@ TarInputStream::checkHeader(const char* h, int32_t hsize) {
     // check for field values that should be '\0' for the header to be a
     // tar header. Two positions are also accepted if they are ' ' because they
     // are the end of a number. Numbers that do not fit are written in binary.
+    // The target of a link may fill its field.
     return !(h[107] || (h[115] && !(h[108] & 0x80)) || (h[123] && !(h[116] & 0x80))
             || (h[135] && h[135]!=' ' && !(h[124] & 0x80))
-            || (h[147] && h[147] != ' ' && !(h[136] & 0x80)) || h[256]);
+            || (h[147] && h[147] != ' ' && !(h[136] & 0x80))
+            || (h[256] && h[156] != '1' && h[156] != '2'));
 }
 void
 TarInputStream::parseHeader() {
-- 
2.43.0


From 41b4a0ff5cd757acd2b9fc2b04571c0d37c638d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 57/62] fix: ZipInputStream: read the sizes of entries that
 have 64 bit sizes

---
 include/strigi/zipinputstream.h |  1 +
 lib/zipinputstream.cpp          | 80 +++++++++++++++++++++++++--------
 2 files changed, 63 insertions(+), 18 deletions(-)

diff --git a/include/strigi/zipinputstream.h b/include/strigi/zipinputstream.h
index e4fddb1..d4eeae0 100644
--- a/include/strigi/zipinputstream.h
+++ b/include/strigi/zipinputstream.h
@@ -45,6 +45,7 @@ private:
 
     void readFileName(int32_t len);
     void readHeader();
+    bool readExtraField(int32_t len);
 public:
     explicit ZipInputStream(InputStream* input);
     ~ZipInputStream();
diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index 160d363..66ce68c 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -102,19 +102,19 @@ ZipInputStream::nextEntry() {
             }
             if (m_entryinfo.size < 0) {
                 // skip the data descriptor that occurs after the data
+                const int32_t sizes = (entryCompressedSize == -2) ?16 :8;
                 const char* c;
                 int32_t n = m_input->read(c, 4, 4);
                 if (n == 4) {
                     n = readLittleEndianUInt32((const unsigned char*)c);
                     if (n == 0x08074b50) { // sometimes this signature appears
-                        n = m_input->read(c, 12, 12);
-                        n -= 8;
-                    } else {
-                        n = m_input->read(c, 8, 8);
+                        n = m_input->read(c, 4 + sizes, 4 + sizes);
                         n -= 4;
+                    } else {
+                        n = m_input->read(c, sizes, sizes);
                     }
                 }
-                if (n != 4) {
+                if (n != sizes) {
                     m_status = Error;
                     m_error = "No valid data descriptor after entry data.";
                     return 0;
@@ -202,7 +202,8 @@ ZipInputStream::readHeader() {
     }
     // read 2 bytes into the filename size
     int32_t filenamelen = readLittleEndianUInt16(hb + 26);
-    int64_t extralen = readLittleEndianUInt16(hb + 28);
+    // read 2 bytes into the length of the extra field
+    int32_t extralen = readLittleEndianUInt16(hb + 28);
     // read 4 bytes into the length of the uncompressed size
     m_entryinfo.size = readLittleEndianUInt32(hb + 22);
     // read 4 bytes into the length of the compressed size
@@ -229,11 +230,6 @@ ZipInputStream::readHeader() {
         }
         m_entryinfo.size = -1;
         entryCompressedSize = -1;
-    } else if (compressionMethod == 0
-            && entryCompressedSize != m_entryinfo.size) {
-        m_status = Error;
-        m_error = "Corrupt zip file with a stored entry of two sizes.";
-        return;
     }
     unsigned long dost = readLittleEndianUInt32(hb+10);
     m_entryinfo.mtime = dos2unixtime(dost);
@@ -242,15 +238,63 @@ ZipInputStream::readHeader() {
     if (m_status) {
         return;
     }
-    // read 2 bytes into the length of the extra field
-    int64_t skipped = m_input->skip(extralen);
-    if (skipped != extralen) {
-        m_status = Error;
-//	printf("skipped %li extralen %li position: %li size: %li\n", skipped, extralen, m_input->position(), m_input->size());
-        m_error = "Error skipping extra field: ";
-        m_error += m_input->error();
+    if (!readExtraField(extralen)) {
         return;
     }
+    if (compressionMethod == 0 && entryCompressedSize != m_entryinfo.size) {
+        m_status = Error;
+        m_error = "Corrupt zip file with a stored entry of two sizes.";
+    }
+}
+/**
+ * Read the extra field of a local header. Entries with sizes that do not fit
+ * into 32 bits have their sizes in there.
+ **/
+bool
+ZipInputStream::readExtraField(int32_t len) {
+    if (len == 0) return true;
+    const char* b;
+    int32_t nread = m_input->read(b, len, len);
+    if (nread != len) {
+        m_status = Error;
+        m_error = "Error reading extra field: ";
+        if (nread < -1) {
+            m_error += m_input->error();
+        } else {
+            m_error += " premature end of file.";
+        }
+        return false;
+    }
+    const unsigned char* p = (const unsigned char*)b;
+    const unsigned char* end = p + len;
+    while (end - p >= 4) {
+        const int32_t id = readLittleEndianUInt16(p);
+        const int32_t n = readLittleEndianUInt16(p + 2);
+        p += 4;
+        if (n > end - p) break;
+        if (id == 1) {
+            if (m_entryinfo.size == -1) {
+                // the data descriptor has 64 bit numbers
+                entryCompressedSize = -2;
+                return true;
+            }
+            const unsigned char* e = p + n;
+            int64_t* sizes[2] = { &m_entryinfo.size, &entryCompressedSize };
+            for (int i = 0; i < 2; ++i) {
+                if (*sizes[i] != 0xffffffffLL || e - p < 8) continue;
+                *sizes[i] = readLittleEndianInt64(p);
+                p += 8;
+                if (*sizes[i] < 0) {
+                    m_status = Error;
+                    m_error = "Invalid size of a zip entry.";
+                    return false;
+                }
+            }
+            return true;
+        }
+        p += n;
+    }
+    return true;
 }
 void
 ZipInputStream::readFileName(int32_t len) {
-- 
2.43.0


From 3172f0e5a29b1ed188c0918decf338f8ad0a1115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:37 +0000
Subject: [PATCH 58/62] fix: MailInputStream: contentType() returns the
 unfolded header

---
 lib/mailinputstream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index e14ef6b..ec32554 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -627,7 +627,13 @@ MailInputStream::Private::handleHeaderLine() {
     } else if (strncasecmp(linestart, contenttype, 13) == 0) {
         int32_t offset = 13;
         while (offset < len && isspace(linestart[offset])) offset++;
-        m->m_contenttype = std::string(linestart+offset, len-offset);
+        m->m_contenttype.resize(0);
+        // undo the folding of the header lines
+        for (; offset < len; ++offset) {
+            if (linestart[offset] != '\r' && linestart[offset] != '\n') {
+                m->m_contenttype.append(1, linestart[offset]);
+            }
+        }
         // get the boundary
         string b = value("boundary", m->m_contenttype);
         if (b.size()) {
-- 
2.43.0


From 04e8ed7584c7239fe8a636ee707e03d2088fcc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:06 +0000
Subject: [PATCH 59/62] fix: LZMAInputStream: an end mark before the announced
 size is an error

---
 lib/lzmainputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index 594f42c..4d352df 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -165,6 +165,11 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
         }
         p->m_size = bytesDecompressed;
     } else if (status == LZMA_STATUS_FINISHED_WITH_MARK) {
+        if (p->m_size != -1 && p->m_size != bytesDecompressed) {
+            p->m_error = "unexpected end";
+            p->m_status = Error;
+            return -1;
+        }
         p->m_size = bytesDecompressed;
     }
     return (int32_t)outProcessed;
-- 
2.43.0


From 3205f785a23ef3a2d5c29e262468e3a499291985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:15 +0000
Subject: [PATCH 60/62] fix: LZMAInputStream: deliver what the decoder holds
 back when the input has been read

---
 lib/lzmainputstream.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index 4d352df..dfdb6d7 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -36,6 +36,7 @@ public:
     InputStream *input;
     const char* next_in;
     int32_t avail_in;
+    bool outputPending;
     int64_t bytesDecompressed;
 
     Private(LZMAInputStream* p, InputStream* i);
@@ -93,6 +94,7 @@ LZMAInputStream::Private::Private(LZMAInputStream* bis, InputStream* i)
 
     // signal that we need to read into the buffer
     avail_in = 0;
+    outputPending = false;
 
     // set the minimum size for the output buffer
     p->setMinBufSize(262144);
@@ -126,7 +128,8 @@ LZMAInputStream::fillBuffer(char* start, int32_t space) {
 int32_t
 LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
     // make sure there is data to decompress
-    if (avail_in == 0) {
+    // the decoder may also hold back data for which there was no space yet
+    if (avail_in == 0 && !outputPending) {
         readFromStream();
         if (p->m_status != Ok) {
             // no data was read
@@ -148,6 +151,8 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
     avail_in -= (int32_t)inProcessed;
     next_in += (int32_t)inProcessed;
     bytesDecompressed += outProcessed;
+    const bool wasPending = outputPending;
+    outputPending = outProcessed == (SizeT)space;
     if (res != SZ_OK) {
         ostringstream str;
         str << "error decompressing dicsize: " << props.dicSize
@@ -158,6 +163,10 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
         return -1;
     }
     if (inProcessed == 0 && outProcessed == 0) {
+        if (wasPending && avail_in == 0) {
+            // nothing was held back: continue with more input
+            return 0;
+        }
         if (p->m_size != -1 || status != LZMA_STATUS_FINISHED_WITH_MARK) {
             p->m_error = "unexpected end";
             p->m_status = Error;
-- 
2.43.0


From 98259c7b8fa67e5df46f7a6b3e9f303f435bb9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:02 +0000
Subject: [PATCH 61/62] fix: LZMAInputStream: the compressed data has to end
 where the announced size says

---
 lib/lzmainputstream.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index dfdb6d7..3749e0e 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -37,6 +37,7 @@ public:
     const char* next_in;
     int32_t avail_in;
     bool outputPending;
+    bool finished;
     int64_t bytesDecompressed;
 
     Private(LZMAInputStream* p, InputStream* i);
@@ -95,6 +96,7 @@ LZMAInputStream::Private::Private(LZMAInputStream* bis, InputStream* i)
     // signal that we need to read into the buffer
     avail_in = 0;
     outputPending = false;
+    finished = false;
 
     // set the minimum size for the output buffer
     p->setMinBufSize(262144);
@@ -120,7 +122,7 @@ LZMAInputStream::Private::readFromStream() {
 int32_t
 LZMAInputStream::fillBuffer(char* start, int32_t space) {
     if (m_status != Ok) return -1;
-    if (m_size == p->bytesDecompressed) {
+    if (p->finished) {
         return -1;
     }
     return p->fillBuffer(start, space);
@@ -141,8 +143,9 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
     SizeT inProcessed = avail_in;
     ELzmaFinishMode finishMode = LZMA_FINISH_ANY;
     int64_t bytesTodo = p->m_size - bytesDecompressed;
-    if (p->m_size != -1 && outProcessed > (SizeT)bytesTodo) {
+    if (p->m_size != -1 && outProcessed >= (SizeT)bytesTodo) {
         outProcessed = (SizeT)bytesTodo;
+        // also check that the compressed data ends here
         finishMode = LZMA_FINISH_END;
     }
     ELzmaStatus status;
@@ -181,5 +184,8 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
         }
         p->m_size = bytesDecompressed;
     }
+    finished = status == LZMA_STATUS_FINISHED_WITH_MARK
+        || (status == LZMA_STATUS_MAYBE_FINISHED_WITHOUT_MARK
+            && p->m_size == bytesDecompressed);
     return (int32_t)outProcessed;
 }
-- 
2.43.0


From 277349fdfa858f67773edea9d3aa728df17a65f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:50 +0000
Subject: [PATCH 62/62] fix: the entries of an archive that cannot be opened,
 because a file with the same name comes first, are not listed

---
 lib/listinginprogress.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 4881abc..39f1e13 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -60,6 +60,10 @@ addEntry(ArchiveEntryCache::SubEntry* parent,
             child->entry.type = EntryInfo::Dir;
             child->entry.size = 0;
             parent->entries[names[i]] = child;
+        } else if (child->entry.type & EntryInfo::File) {
+            // a stream inside of a file can only be opened via that file
+            delete se;
+            return;
         }
         parent = child;
     }
@@ -69,11 +73,14 @@ addEntry(ArchiveEntryCache::SubEntry* parent,
         parent->entries[name] = se;
         return;
     }
-    // there is an entry with this name already: it keeps its address and
-    // its children, and gets the information if it has none yet
-    if (!(child->entry.type & EntryInfo::File)) {
-        child->entry = se->entry;
+    // of files with the same name, only the first one can be opened
+    if (child->entry.type & EntryInfo::File) {
+        delete se;
+        return;
     }
+    // there is a directory with this name already: it keeps its address and
+    // its children, and gets the information
+    child->entry = se->entry;
     ArchiveEntryCache::SubEntryMap::iterator i;
     for (i = se->entries.begin(); i != se->entries.end(); ++i) {
         ArchiveEntryCache::SubEntry*& c = child->entries[i->first];
-- 
2.43.0

