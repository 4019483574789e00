From e319bd95ca52ced8d67a694a0aab80f0e4fcf6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:51 +0000
Subject: [PATCH 01/20] fix: report a statistic of minus infinity as the most
 negative float, not as a tiny positive number

---
 lib/Bucket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Bucket.cpp b/lib/Bucket.cpp
index 4bfc8de..ce99bff 100644
--- a/lib/Bucket.cpp
+++ b/lib/Bucket.cpp
@@ -10,7 +10,7 @@
 
 float stabilizeFloat(float f) {
     return -std::numeric_limits<float>::infinity() == f
-      ? std::numeric_limits<float>::min()
+      ? -std::numeric_limits<float>::max()
       : std::numeric_limits<float>::infinity() == f
       ? std::numeric_limits<float>::max()
       : f;
-- 
2.43.0


From 352910e29ea104f56cf98189bbc7c02f1498de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 02/20] fix: correct an interval below one second before
 dividing by it in StatFile::writeNewHeader

---
 lib/StatFile.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 1012f11..a533d39 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -224,6 +224,10 @@ namespace istat
         {
             istat::istattime(&lTime);
         }
+        if (hdr.cfg_interval < 1)
+        {
+            hdr.cfg_interval = 1;
+        }
         lTime -= lTime % hdr.cfg_interval;
         hdr.file_create_time = lTime;
         hdr.last_cumulative_clear_time = lTime;
@@ -235,10 +239,6 @@ namespace istat
         {
             throw std::runtime_error("Bad file flags in writeNewHeader()");
         }
-        if (hdr.cfg_interval < 1)
-        {
-            hdr.cfg_interval = 1;
-        }
         strncpy(hdr.unit, init.unit, sizeof(hdr.unit));
         strncpy(hdr.name, path.c_str(), sizeof(hdr.name));
         hdr.name[sizeof(hdr.name) - 1] = 0;
-- 
2.43.0


From d9aba1b7a57d4756389d7a0c4cfe0b12caeed00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 03/20] fix: StatFile::open no longer cuts a longer file, nor
 changes the size of a file it refuses

---
 lib/StatFile.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index a533d39..ae77b25 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -125,20 +125,6 @@ namespace istat
             closefd();
             throw std::runtime_error(std::string("Could not map header: ") + path);
         }
-        size_t wantFileSize = fileHeader_->page_size * (fileHeader_->page_count + 1);
-        if (0 < wantFileSize - off)
-        {
-            Log(LL_Warning, "istat") << "File" << path << "is too short; extending from"
-                << off << "to" << wantFileSize;
-            int r = mm_->truncate(fd_, wantFileSize);
-            if (r < 0)
-            {
-                closefd();
-                throw std::runtime_error(std::string("Could not extend ") + path + " to "
-                    + boost::lexical_cast<std::string>(wantFileSize) + " bytes");
-            }
-            off = mm_->seek(fd_, 0, 2);
-        }
         Header &hdr = *(Header *)fileHeader_;
         if (memcmp(file_magic, hdr.magic, sizeof(file_magic)))
         {
@@ -163,6 +149,20 @@ namespace istat
                 "size" + boost::lexical_cast<std::string>(hdr.hdr_size) + 
                 "expected" + boost::lexical_cast<std::string>(sizeof(Header)));
         }
+        int64_t wantFileSize = fileHeader_->page_size * (fileHeader_->page_count + 1);
+        if (off < wantFileSize)
+        {
+            Log(LL_Warning, "istat") << "File" << path << "is too short; extending from"
+                << off << "to" << wantFileSize;
+            int r = mm_->truncate(fd_, wantFileSize);
+            if (r < 0)
+            {
+                closefd();
+                throw std::runtime_error(std::string("Could not extend ") + path + " to "
+                    + boost::lexical_cast<std::string>(wantFileSize) + " bytes");
+            }
+            off = mm_->seek(fd_, 0, 2);
+        }
         if (hdr.cr_version < CUR_HDR_VERSION)
         {
             refreshHeader(hdr);
-- 
2.43.0


From f84ace9e235d5b04dcd0e88304b038a2dccc30a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 04/20] fix: do not keep a released page in the StatFile page
 cache when mapping the next one fails

---
 lib/StatFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index ae77b25..6b5159b 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -437,6 +437,7 @@ namespace istat
         if (pages[cacheIndex].ptr != 0)
         {
             mm_->unmap(pages[cacheIndex].ptr, fileHeader_->page_size);
+            pages[cacheIndex].ptr = 0;
         }
         recordPageMiss();
         void *mapped = mm_->map(fd_, pageIndex * fileHeader_->page_size, fileHeader_->page_size, toWrite);
-- 
2.43.0


From 1c0de173f17a5cd55c45d500cda9b6d04fe1faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 05/20] fix: trailing files blend only intervals the file
 holds, and never through an evicted page

---
 lib/StatFile.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 6b5159b..4a67cb2 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -591,16 +591,21 @@ namespace istat
         {
             int64_t ix = mapTimeToBucketIndex(eb0.time());
             int64_t oix = mapTimeToBucketIndex(eb0.time() - fileHeader_->season);
-            Bucket *wb = writableBucket(ix);
-            Bucket const &o = bucket(oix);
-            if (o.time() > 0)
+            if (isBucketIndexInFile(ix))
             {
-                *wb = o;
-                wb->expUpdate(eb0, fileHeader_->lambda);
-            }
-            else
-            {
-                *wb = eb0;
+                Bucket blended(eb0, eb0.time());
+                if (isBucketIndexInFile(oix))
+                {
+                    //  the slot may still hold some older interval
+                    Bucket const &o = bucket(oix);
+                    if (o.time() > 0 && mapTimeToBucketIndex(o.time()) == oix)
+                    {
+                        blended = o;
+                        blended.expUpdate(eb0, fileHeader_->lambda);
+                    }
+                }
+                //  mapping this page may evict the page of the older bucket
+                *writableBucket(ix) = blended;
             }
         }
         //  must move one over
-- 
2.43.0


From 73eb214cb7faf558a2c4b8d0652b4e90bf6f1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 06/20] fix: a range read that starts outside the held
 intervals no longer returns unrelated slots

---
 lib/StatFile.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 4a67cb2..456a158 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -307,16 +307,21 @@ namespace istat
 
     int64_t StatFile::readBuckets(Bucket *out_bucket_buf, int cnt, int64_t first_bucket) const
     {
-        int64_t first_bucket_file_index = StatFile::mapBucketIndexToFileIndex(first_bucket);
-
-        if (first_bucket_file_index < 0)
+        //  intervals older than the file's capacity are gone: start at the oldest one
+        int64_t oldest_bucket = fileHeader_->last_bucket - settings_.numSamples + 1;
+        if (first_bucket < oldest_bucket)
         {
-            if (cnt+first_bucket_file_index < 0)
+            if (oldest_bucket - first_bucket >= cnt)
             {
                 return 0;
             }
-            cnt += first_bucket_file_index;   //  first_bucket_file_index is negative
-            first_bucket_file_index = 0;
+            cnt -= oldest_bucket - first_bucket;
+            first_bucket = oldest_bucket;
+        }
+        int64_t first_bucket_file_index = StatFile::mapBucketIndexToFileIndex(first_bucket);
+        if (first_bucket_file_index < 0)
+        {
+            return 0;
         }
         if (cnt > bucketCount_)
         {
-- 
2.43.0


From cad439e715f872f935c859ac57f5bde9f44b2e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 07/20] fix: initialise the allocation strategy of MmapImpl

---
 lib/Mmap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Mmap.cpp b/lib/Mmap.cpp
index 0ed8744..dadcc31 100644
--- a/lib/Mmap.cpp
+++ b/lib/Mmap.cpp
@@ -42,7 +42,8 @@ namespace istat
             nUnmaps_(0),
             nOpens_(0),
             nCloses_(0),
-            hint_(0)
+            hint_(0),
+            allocationStrategy_(allocateSparse)
         {
         }
         int64_t nMaps_;
-- 
2.43.0


From 0152f3cdc7f44327914eba5ec80e7a9e31bd0020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 08/20] fix: a mapping of a short file reads zeroes beyond its
 end instead of stale memory

---
 lib/Mmap.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/Mmap.cpp b/lib/Mmap.cpp
index dadcc31..74eb109 100644
--- a/lib/Mmap.cpp
+++ b/lib/Mmap.cpp
@@ -122,7 +122,16 @@ namespace istat
             ptr->size = size;
             ptr->fd = fd;
             this->seek(fd, offset, SEEK_SET);
-            this->read(fd, ptr + 1, size);
+            ssize_t got = this->read(fd, ptr + 1, size);
+            if (got < (ssize_t)size)
+            {
+                //  beyond the end of the file there are zeroes, not whatever the heap held
+                if (got < 0)
+                {
+                    got = 0;
+                }
+                memset((char *)(ptr + 1) + got, 0, size - got);
+            }
             __sync_add_and_fetch(&nMaps_, (int64_t)1);
             return ptr + 1;
 #else
-- 
2.43.0


From 4f06026e82fb26ae22dff992f2dcfb1f1e23a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 09/20] fix: a trailing file with a NaN blend is refused like
 any other outside (0,1]

---
 lib/StatFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 456a158..5cf68c9 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -210,7 +210,7 @@ namespace istat
         hdr.fixed_count = init.fixed_count;
         if (hdr.flags & FILE_FLAG_IS_TRAILING)
         {
-            if (hdr.lambda <= 0 || hdr.lambda > 1)
+            if (!(hdr.lambda > 0 && hdr.lambda <= 1))
             {
                 throw std::runtime_error("header lambda must be in (0,1] for trailing history files");
             }
-- 
2.43.0


From 4319b9de7cc918f32bdb87da9e92354ce31b0a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 10/20] fix: a retention blend of NaN is refused like any other
 outside (0,1)

---
 daemon/Retention.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/Retention.cpp b/daemon/Retention.cpp
index 5c906c9..fda36b0 100644
--- a/daemon/Retention.cpp
+++ b/daemon/Retention.cpp
@@ -80,7 +80,7 @@ void RetentionPolicy::addInterval(std::string const &str)
     {
         char *end;
         ri.lambda = strtod(lambda.c_str(), &end);
-        if (ri.lambda <= 0 || ri.lambda >= 1)
+        if (!(ri.lambda > 0 && ri.lambda < 1))
         {
             throw std::runtime_error("lambda must be > 0 and < 1 if specified: '" + lambda + "'");
         }
-- 
2.43.0


From bf9b52d44b07edc1641f7befa461a6a617a12bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:30 +0000
Subject: [PATCH 11/20] fix: a one-sample query of an empty range divides by
 zero

---
 daemon/StatCounter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 2e6ff2c..3532075 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -580,7 +580,8 @@ boost::shared_ptr<istat::StatFile> StatCounter::pickTrailingStatFile(time_t seas
 //  samples desired.
 void StatCounter::normalizeRange(time_t &start, time_t &end, time_t &interval, size_t maxSamples)
 {
-    if (maxSamples == 1)
+    //  (an empty range has no length to make into an interval; it is normalized below)
+    if (maxSamples == 1 && end > start)
     {
         //  do a single bucket!
         interval = end - start;
-- 
2.43.0


From 3d25164265c0a85623744ee7078ed72e008ab59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:14 +0000
Subject: [PATCH 12/20] fix: reducing data that starts late reports an empty
 bucket at time 0

---
 daemon/StatCounter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 3532075..e6e31aa 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -746,7 +746,11 @@ void StatCounter::reduce(std::vector<istat::Bucket> &buckets, time_t startTime,
         istat::Bucket &bucket(buckets[i]);
         if (bucket.time() >= nextTime)
         {
-            appendReduced(result, reduction, currentTime, collatedBucketCount);
+            //  nothing to append when the data starts after the first interval
+            if (reduction.time() > 0)
+            {
+                appendReduced(result, reduction, currentTime, collatedBucketCount);
+            }
 
             reduction = istat::Bucket(true);
             //  death detection counter -- paranoia if bTime == MAX_INT or something!
-- 
2.43.0


From da0d1bd0fc90ba4656227f8fcf89184a898281c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:35 +0000
Subject: [PATCH 13/20] fix: samples billions of seconds ahead must not wrap
 into the forwarding window

---
 daemon/Bucketizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/Bucketizer.cpp b/daemon/Bucketizer.cpp
index ed8e6e2..77c6a43 100644
--- a/daemon/Bucketizer.cpp
+++ b/daemon/Bucketizer.cpp
@@ -28,7 +28,7 @@ void Bucketizer::update(istat::Bucket const &o) {
     time = time - (time % 10); // make a 10 second offset bucket
 
     // this will be 0 for furthest back in time
-    int offset = ((time - now) / 10) + (BUCKET_COUNT-2);
+    int64_t offset = ((time - now) / 10) + (BUCKET_COUNT-2);
     // assume now is between 50 and 59, time is cast to "50", BUCKET_COUNT is 5
     // time
     // 20 --> 0 <--- now - 30
-- 
2.43.0


From 90947551948f711d79caac12852cb477be721a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:35 +0000
Subject: [PATCH 14/20] fix: a short line of a datagram must not be glued to
 the next command

---
 daemon/StatServer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index a7195e3..a4af436 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -857,9 +857,9 @@ void StatServer::on_udp_recv(boost::system::error_code const &err, size_t bytes)
                     if (off > base + 1)
                     {
                         std::string cmd(&udpBuffer_[base], &udpBuffer_[off]);
-                        base = off + 1;
                         handleCmd(cmd, udpEndpoint_);
                     }
+                    base = off + 1;
                 }
                 ++off;
             }
-- 
2.43.0


From 583b8e856d8cad1de5f2f89d625031ba44812166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:35 +0000
Subject: [PATCH 15/20] fix: pending flush bytes belong to the connection they
 were written on

---
 daemon/StatServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index a4af436..bf830b1 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -672,6 +672,7 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
 {
     std::tr1::unordered_map<std::string, Bucketizer> buckets;
     ForwardList conns;
+    std::vector<size_t> connIndices;
     {
         grab aholdof(forwardMutex_);
         buckets.swap(forwardBuckets_);
@@ -690,6 +691,7 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
                 }
                 if (connIndex >= noConnSize || noConnectionCounts_[connIndex] <= MAX_AGENT_CONN_TRIES) {
                     conns.push_back(*i);
+                    connIndices.push_back(connIndex);
                 }
             }
             ++connIndex;
@@ -734,7 +736,7 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
             if (!str.empty()) {
                 size_t pending = conns[i]->writeOut(str);
                 if (agentFlushRequest != NULL) {
-                    agentFlushRequest->add(i, pending);
+                    agentFlushRequest->add(connIndices[i], pending);
                 }
             }
         }
-- 
2.43.0


From db73b3b2adcb1ce1df5e219cc859bd5ddc4a2d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:23 +0000
Subject: [PATCH 16/20] fix: an empty part between two carets must not hang the
 expansion of a counter name

---
 lib/strfunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index fe210a5..e18c9d2 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -405,8 +405,8 @@ namespace istat
             {
                 //  don't allow empty substrings
                 osubs.push_back(base + istr.substr(pos+1, next-(pos+1)));
-                pos = next;
             }
+            pos = next;
         }
     }
 
-- 
2.43.0


From 8da1e0adf0a83f8467e2236a9412de3d2939ce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:23 +0000
Subject: [PATCH 17/20] fix: splitn into six parts reports five when there are
 five

---
 lib/strfunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index e18c9d2..e51387b 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -824,7 +824,7 @@ namespace istat
         {
             return n;
         }
-        if (splitn(o5, ch, o5, o6) == 5)
+        if (splitn(o5, ch, o5, o6) == 1)
         {
             return 5;
         }
-- 
2.43.0


From c34299f0218cc3fefa3c1cdd92d620812c7ccfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:23 +0000
Subject: [PATCH 18/20] fix: seconds_to_interval subtracts what it has written

---
 lib/strfunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index e51387b..ad293f6 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -708,7 +708,7 @@ namespace istat
             {
                 size_t n = secs / size;
                 ret << n << itp->str;
-                secs -= n;
+                secs -= n * size;
             }
         }
         std::string rstr = ret.str();
-- 
2.43.0


From 33ffbee727d18af10337056a0e2cc1ae5f2068a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:23 +0000
Subject: [PATCH 19/20] fix: unquoting keeps NUL characters

---
 lib/strfunc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index ad293f6..18c1e74 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -494,7 +494,7 @@ namespace istat
                     tmp[0] = *ptr;
                     break;
                 }
-                ss << tmp;
+                ss << tmp[0];
                 quote = false;
             }
             else if (*ptr == '\\')
@@ -504,7 +504,7 @@ namespace istat
             else
             {
                 tmp[0] = *ptr;
-                ss << tmp;
+                ss << tmp[0];
             }
         }
         return ss.str();
@@ -582,7 +582,7 @@ namespace istat
                     tmp[0] = *ptr;
                     break;
                 }
-                ss << tmp;
+                ss << tmp[0];
                 quote = false;
             }
             else if (*ptr == '\\')
@@ -592,7 +592,7 @@ namespace istat
             else
             {
                 tmp[0] = *ptr;
-                ss << tmp;
+                ss << tmp[0];
             }
         }
         return ss.str();
-- 
2.43.0


From 49041bdf4e9bcae1ff3a3ef11d7fc37f5d110e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:23 +0000
Subject: [PATCH 20/20] fix: a question mark after an asterisk is skipped when
 matching

---
 lib/strfunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index 18c1e74..2e1016b 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -298,7 +298,7 @@ namespace istat
                         }
                         S.pstr = pos+1;
                         backup.push_back(S);
-                        S.ppat += 2;
+                        S.ppat = npos + 1;
                     }
                 }
                 break;
-- 
2.43.0

