From c69da96411ba4f484784a2616c80bd27762d8f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:31 +0000
Subject: [PATCH 01/51] fix: bucket index of times before the creation of a
 stat file

Integer division truncates towards zero, so the interval before the creation
time of a file shared an index with the interval of the creation time: the
second of them to be written wiped the first one.
---
 lib/StatFile.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 1012f11..57f85c1 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -479,6 +479,13 @@ namespace istat
         int64_t latestBucketIndex  = fileHeader_->last_bucket;
         Bucket *bp = 0;
 
+        if ((fileHeader_->flags & FILE_FLAG_IS_COUNTER_AGGREGATE) && data.count() == 0 &&
+            targetBucketIndex < fileHeader_->first_bucket)
+        {
+            //  an empty interval ahead of the first one adds nothing
+            return true;
+        }
+
         if (targetBucketIndex > latestBucketIndex)
         {
             //  Note: I don't clear the bucket here. It will contain
@@ -648,9 +655,16 @@ namespace istat
         time_t create_time = fileHeader_->file_create_time;
 
         int round_delta = (round_up && (timestamp % interval)) ? 1 : 0;
-        int64_t bucket_index = ((timestamp - create_time) / interval + round_delta);
+        int64_t delta = timestamp - create_time;
+        int64_t bucket_index = delta / interval;
+        if (delta % interval < 0)
+        {
+            //  Division truncates towards zero; times before the creation of the
+            //  file must not share an index with the bucket of the creation time.
+            --bucket_index;
+        }
 
-        return bucket_index;
+        return bucket_index + round_delta;
     }
 
     time_t StatFile::mapBucketIndexToTime(int64_t bucket_index) const
-- 
2.43.0


From e60075877c6d9b9ad917934d380a4409485e5dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:36 +0000
Subject: [PATCH 02/51] fix: copy HttpServerInfo member by member

The copy constructor and the assignment copied the LoopbackCounter members with
memcpy, so that the gauge records they own were freed twice by the first admin
'stats' command.
---
 daemon/HttpServer.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/daemon/HttpServer.h b/daemon/HttpServer.h
index b9c8308..cbf7f3a 100644
--- a/daemon/HttpServer.h
+++ b/daemon/HttpServer.h
@@ -102,18 +102,26 @@ struct HttpServerInfo
     {
     }
     HttpServerInfo(HttpServerInfo const &o) :
-        port(0),
-        current(0),
-        currentGauge("http.current", TypeGauge),
-        numRequests("http.requests", TypeEvent),
-        numErrors("http.errors.server", TypeEvent),
-        httpErrors("http.errors.http", TypeEvent)
+        port(o.port),
+        current((long)o.current),
+        currentGauge(o.currentGauge),
+        numRequests(o.numRequests),
+        numErrors(o.numErrors),
+        httpErrors(o.httpErrors)
     {
-        memcpy((char*)this, &o, sizeof(*this));
     }
     HttpServerInfo &operator=(HttpServerInfo const &o)
     {
-        memcpy((char*)this, &o, sizeof(*this));
+        if (this != &o)
+        {
+            //  copy the counters as objects: each of them owns its gauge record
+            port = o.port;
+            new (&current) boost::detail::atomic_count((long)o.current);
+            currentGauge = o.currentGauge;
+            numRequests = o.numRequests;
+            numErrors = o.numErrors;
+            httpErrors = o.httpErrors;
+        }
         return *this;
     }
     unsigned int port;
-- 
2.43.0


From e247cacbdec5db23a1a176b3227c71c0d3b00e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:31 +0000
Subject: [PATCH 03/51] fix: endless loop on a counter name with consecutive
 carets

extract_ctrs() did not advance past an empty piece, so that one line such as
'a^^b 1' made a worker loop forever while allocating nothing.
---
 lib/strfunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index fe210a5..e18c9d2 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -405,8 +405,8 @@ namespace istat
             {
                 //  don't allow empty substrings
                 osubs.push_back(base + istr.substr(pos+1, next-(pos+1)));
-                pos = next;
             }
+            pos = next;
         }
     }
 
-- 
2.43.0


From 425d1bf9d8c49e9189fa5cc367fef9b47f180c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 04/51] fix: a forced flush of an event counter closed future
 intervals

fullyShiftCollated() moved the collation window beyond its newest interval even
when that had received nothing, so that after an administrative flush all events
of up to the following four intervals were rejected as coming from the past.
---
 daemon/StatCounter.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 2e6ff2c..03c6718 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -377,7 +377,20 @@ bool StatCounter::shiftCollated(time_t t)
 
 void StatCounter::fullyShiftCollated()
 {
-    maybeShiftCollated(collations_[BUCKETS_PER_COLLATION_WINDOW - 1].time + collationInterval_ * BUCKETS_PER_COLLATION_WINDOW);
+    //  Shift out the intervals that have received events, but no more: events
+    //  of an interval that has been shifted out are rejected.
+    size_t n = 0;
+    for(size_t i = 0; i != BUCKETS_PER_COLLATION_WINDOW; ++i)
+    {
+        if(collations_[i].writes > 0)
+        {
+            n = i + 1;
+        }
+    }
+    for(; n > 0; --n)
+    {
+        shiftCollated(0);
+    }
 }
 
 void StatCounter::purge(std::string rootPath)
-- 
2.43.0


From 114cb9fee2f75d29784b052f6dccecf492b51214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 05/51] fix: query ranges that begin before the first bucket of
 a counter file

normalizeRange() rounds the start of a range down, possibly ahead of the
first bucket that the file can hold. Index -1 then made readBuckets() read
from the beginning of the ring instead of from the first bucket.
---
 daemon/StatCounter.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 03c6718..4640692 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -692,7 +692,16 @@ namespace
 void StatCounter::readBucketsFromFile(boost::shared_ptr<istat::StatFile> sf, time_t start_time, time_t end_time, std::vector<istat::Bucket> &oBuckets)
 {
     int64_t start_index = sf->mapTimeToBucketIndex(start_time, /* round up */ false);
-    int count = sf->numBucketsBetween(start_time, end_time, /* round up */ false);
+    int64_t count = sf->numBucketsBetween(start_time, end_time, /* round up */ false);
+
+    //  Normalizing the range may have moved the start ahead of the first bucket that the file can hold.
+    int64_t first_index = sf->lastBucket() - sf->settings().numSamples + 1;
+    if (start_index < first_index)
+    {
+        count -= first_index - start_index;
+        start_index = first_index;
+        start_time = sf->mapBucketIndexToTime(first_index);
+    }
 
     if (count > 0)
     {
-- 
2.43.0


From fd1bdfd2b972bcba44fc27ff01ffb3542ebacf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 06/51] fix: division by zero when one sample of an empty range
 is asked for

---
 daemon/StatCounter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 4640692..0288274 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -593,7 +593,7 @@ boost::shared_ptr<istat::StatFile> StatCounter::pickTrailingStatFile(time_t seas
 //  samples desired.
 void StatCounter::normalizeRange(time_t &start, time_t &end, time_t &interval, size_t maxSamples)
 {
-    if (maxSamples == 1)
+    if (maxSamples == 1 && end > start)
     {
         //  do a single bucket!
         interval = end - start;
-- 
2.43.0


From ecbbc6b1ede5f7e253db12dcc17e88550866e3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 07/51] fix: limit the buffer of a query to the size of the
 counter file

The length of the range is the client's choice; a range of many years asked
for more memory than there is.
---
 daemon/StatCounter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 0288274..a1f7a49 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -702,6 +702,11 @@ void StatCounter::readBucketsFromFile(boost::shared_ptr<istat::StatFile> sf, tim
         start_index = first_index;
         start_time = sf->mapBucketIndexToTime(first_index);
     }
+    //  There is no point in making room for more than the file can hold.
+    if (count > sf->settings().numSamples)
+    {
+        count = sf->settings().numSamples;
+    }
 
     if (count > 0)
     {
-- 
2.43.0


From 6b3643c4468bc847dc3e03783eade749f888eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:12 +0000
Subject: [PATCH 08/51] fix: count counters that are accessed only once when
 pacing flushes

ShardedMap notes the size of a shard when the shard is looked up, before the
new counter is inserted. Until a counter was accessed again it was missing from
the number of counters that decides the time between flushes: with many
counters of just one sample a flush round took far longer than the flush
interval.
---
 daemon/StatStore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index f1bd066..e8bfb0f 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -238,6 +238,8 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
             return asyncCounter;
         }
         counters[xform] = asyncCounter;
+        //  map() notes the size of the shard, which decides how often counters are flushed
+        counterShards_.map(xform);
         keys_.add(xform, asyncCounter->statCounter_->isCollated());
     }
 
-- 
2.43.0


From dd931f04a17137ccf0cfe2a78d46bbc772af013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:09 +0000
Subject: [PATCH 09/51] fix: initialise a counter file that was left without a
 header

A crash, or an error, between making room for a new file and writing its
header left a file that nobody could open any more: opening the counter threw,
and the exception aborted for example a flush command. Write a new header if
there is none, and do not leave such a file behind on a short write.
---
 include/istat/StatFile.h |  1 +
 lib/StatFile.cpp         | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/istat/StatFile.h b/include/istat/StatFile.h
index 7508fa0..ad33709 100644
--- a/include/istat/StatFile.h
+++ b/include/istat/StatFile.h
@@ -100,6 +100,7 @@ namespace istat
 
         void closefd();
         void open(std::string const &path, Settings const *init, bool forUpdate, bool forceCreate);
+        bool hasHeader() const;
         void writeNewHeader(Settings const &init, std::string const &path);
         void refreshHeader(Header &hdr);
         void flushOneExpBucket();
diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 57f85c1..ea221f5 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -114,7 +114,7 @@ namespace istat
                 ": " + strerror(errno));
         }
         ptrdiff_t off = mm_->seek(fd_, 0, 2);
-        if ((off == 0 || forceCreate) && (init != 0))
+        if ((off == 0 || forceCreate || !hasHeader()) && (init != 0))
         {
             writeNewHeader(*init, path);
             off = mm_->seek(fd_, 0, 2);
@@ -181,6 +181,17 @@ namespace istat
         fileHeader_->name[sizeof(fileHeader_->name)-1] = 0;
     }
 
+    //  A crash or an error between making room for a new file and writing its
+    //  header leaves a file of the right size without a header.
+    bool StatFile::hasHeader() const
+    {
+        Header hdr;
+        memset(&hdr, 0, sizeof(hdr));
+        mm_->seek(fd_, 0, SEEK_SET);
+        mm_->read(fd_, &hdr, sizeof(hdr));
+        return hdr.magic[0] != 0 || hdr.page_count != 0;
+    }
+
     void StatFile::refreshHeader(Header &hdr)
     {
         if (hdr.cr_version < 5)
@@ -278,6 +289,7 @@ namespace istat
         mm_->seek(fd_, 0, 0);
         if (sizeof(Header) != mm_->write(fd_, &hdr, sizeof(hdr)))
         {
+            mm_->truncate(fd_, 0);
             throw std::runtime_error(std::string("Could not prepare header for: ") + path);
         }
     }
-- 
2.43.0


From 489b92ea37bade15b1234d232292faaf2e8007da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:09 +0000
Subject: [PATCH 10/51] fix: event counter buckets of the previous process were
 overwritten

The first event after a restart starts collation windows that include up to
four intervals in the past; their empty buckets were then written over what
the file already stored for these intervals. Start each interval with what is
stored.
---
 daemon/StatCounter.cpp | 35 +++++++++++++++++++++++++++++++----
 daemon/StatCounter.h   |  2 ++
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index a1f7a49..3a334fa 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -31,6 +31,7 @@ DebugOption debugRejectedCounters("rejectedCounters");
 
 StatCounter::CollationInfo::CollationInfo()
     : bucket(true),
+    stored(true),
     writes(0),
     time(0)
 {
@@ -38,11 +39,30 @@ StatCounter::CollationInfo::CollationInfo()
 
 StatCounter::CollationInfo::CollationInfo(time_t t)
     : bucket(istat::Bucket(0, 0, 0, 0, 0, t)),
+    stored(true),
     writes(0),
     time(t)
 {
 }
 
+//  A previous process may already have stored events of the interval: new
+//  events of it add to those.
+StatCounter::CollationInfo StatCounter::startCollation(time_t t)
+{
+    CollationInfo ret(t);
+    boost::shared_ptr<istat::StatFile> const &file(counters_.begin()->file);
+    int64_t ix = file->mapTimeToBucketIndex(t);
+    if(ix >= file->firstBucket() && file->isBucketIndexInFile(ix))
+    {
+        istat::Bucket const &b = file->bucket(ix);
+        if(b.time() == t && b.count() > 0)
+        {
+            ret.bucket = ret.stored = b;
+        }
+    }
+    return ret;
+}
+
 time_t StatCounter::lastFromPastLog_ = 0;
 uint32_t StatCounter::fromPastLogsPerSec_ = 0;
 
@@ -219,7 +239,7 @@ void StatCounter::record(time_t time, double value, double valueSq, double min,
             {
                 for(size_t i = 0; i != BUCKETS_PER_COLLATION_WINDOW; ++i)
                 {
-                    collations_[(BUCKETS_PER_COLLATION_WINDOW - 1) - i] = CollationInfo(time - (i * collationInterval_));
+                    collations_[(BUCKETS_PER_COLLATION_WINDOW - 1) - i] = startCollation(time - (i * collationInterval_));
                 }
             }
             else
@@ -350,7 +370,14 @@ bool StatCounter::shiftCollated(time_t t)
             istat::Bucket &bucket(collations_[i].bucket);
             counters_.begin()->file->updateBucket(bucket);
         }
-        // Aggregate oldest bucket into coarser statfiles.
+        // Aggregate oldest bucket into coarser statfiles, less what they already have.
+        istat::Bucket oldest(collations_[0].bucket);
+        istat::Bucket const &stored(collations_[0].stored);
+        if(stored.count() > 0)
+        {
+            oldest = istat::Bucket(oldest.sum() - stored.sum(), oldest.sumSq() - stored.sumSq(),
+                oldest.min(), oldest.max(), collations_[0].writes ? 1 : 0, oldest.time());
+        }
         for(std::vector<OneCounter>::iterator
             ptr(counters_.begin()),
             end(counters_.end());
@@ -359,7 +386,7 @@ bool StatCounter::shiftCollated(time_t t)
         {
             if(ptr != counters_.begin())
             {
-                ptr->file->updateBucket(collations_[0].bucket);
+                ptr->file->updateBucket(oldest);
             }
         }
         // Shift collations by one interval.
@@ -370,7 +397,7 @@ bool StatCounter::shiftCollated(time_t t)
         // Start a fresh collation entry on top.
         CollationInfo &top(collations_[BUCKETS_PER_COLLATION_WINDOW - 1]);
         CollationInfo &oldTop(collations_[BUCKETS_PER_COLLATION_WINDOW - 2]);
-        top = CollationInfo(oldTop.time + collationInterval_);
+        top = startCollation(oldTop.time + collationInterval_);
         return true;
     }
 }
diff --git a/daemon/StatCounter.h b/daemon/StatCounter.h
index 85d5847..26b4a71 100644
--- a/daemon/StatCounter.h
+++ b/daemon/StatCounter.h
@@ -54,6 +54,7 @@ private:
     struct CollationInfo
     {
         istat::Bucket bucket;
+        istat::Bucket stored;
         uint64_t writes;
         time_t time;
 
@@ -70,6 +71,7 @@ private:
     lock mutex_;
     bool shouldLog(const time_t& t);
 
+    CollationInfo startCollation(time_t t);
     size_t findCollationIndex(time_t t);
     void readBucketsFromFile(boost::shared_ptr<istat::StatFile> sf, time_t start_time, time_t end_time, std::vector<istat::Bucket> &oBuckets);
     void reduce(std::vector<istat::Bucket> &buckets, time_t startTime, time_t endTime, time_t interval, int collatedBucketSize);
-- 
2.43.0


From 5d5660876ecbe001b1771fecbbbe03c7e45fe8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:01 +0000
Subject: [PATCH 11/51] fix: agents forwarded sums with only six digits

---
 daemon/StatServer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index a7195e3..ab845cf 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -701,6 +701,11 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
         size_t forwardIndex = 0;
         //  if not opened, then we lose this bucket
         std::stringstream ss[count];
+        for (size_t i = 0; i < count; ++i)
+        {
+            //  enough digits to give the other side the exact double
+            ss[i].precision(17);
+        }
         for (std::tr1::unordered_map<std::string, Bucketizer>::iterator
             ptr(buckets.begin()), end (buckets.end());
             ptr != end;
-- 
2.43.0


From 907ac229e6f204cc9cf761b9c6ec6a8c032b54cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:01 +0000
Subject: [PATCH 12/51] fix: data race on the outgoing buffer when a connection
 is established

---
 daemon/EagerConnection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index bac2560..a25d781 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -362,6 +362,7 @@ void EagerConnection::on_connect(boost::system::error_code const &err, tcp::endp
         hasErrorConnect_ = false;
         if (initialData_.size())
         {
+            grab aholdof(mutex_);
             outgoing_.insert(outgoing_.begin(), initialData_.begin(), initialData_.end());
         }
         onConnect_();
-- 
2.43.0


From a981421210a9c736e3643bfb2d0b86599196d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 13/51] fix: Bucket::sum() rounded sums to a float

---
 lib/Bucket.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/Bucket.cpp b/lib/Bucket.cpp
index 4bfc8de..713f596 100644
--- a/lib/Bucket.cpp
+++ b/lib/Bucket.cpp
@@ -16,6 +16,14 @@ float stabilizeFloat(float f) {
       : f;
 }
 
+double stabilizeDouble(double d) {
+    return -std::numeric_limits<double>::infinity() == d
+      ? std::numeric_limits<double>::min()
+      : std::numeric_limits<double>::infinity() == d
+      ? std::numeric_limits<double>::max()
+      : d;
+}
+
 namespace istat
 {
 
@@ -51,7 +59,7 @@ namespace istat
 
     double Bucket::sum() const
     {
-        return stabilizeFloat(sum_);
+        return stabilizeDouble(sum_);
     }
 
     float Bucket::sumSq() const
-- 
2.43.0


From 7288da490501ebc56a44ec8d863dd6eb2acb8b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 14/51] fix: agents answered a flush before its data was
 written, or not at all

---
 daemon/EagerConnection.cpp | 15 +++++++++
 daemon/EagerConnection.h   |  7 +++++
 daemon/StatServer.cpp      | 63 ++++++++++++++++++++------------------
 daemon/StatServer.h        | 17 ++++++----
 4 files changed, 66 insertions(+), 36 deletions(-)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index a25d781..ef8fe6c 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -55,6 +55,7 @@ void EagerConnection::init()
     writePending_ = false;
     readPending_ = false;
     hasErrorConnect_ = false;
+    queuedTotal_ = 0;
 }
 
 EagerConnection::~EagerConnection()
@@ -228,10 +229,23 @@ size_t EagerConnection::writeOut(void const *data, size_t size)
         }
     }
     outgoing_.insert(outgoing_.end(), (char const *)data, (char const *)data + size);
+    queuedTotal_ += size;
     startWrite();
     return outgoing_.size();
 }
 
+size_t EagerConnection::queuedTotal()
+{
+    grab aholdof(mutex_);
+    return queuedTotal_;
+}
+
+size_t EagerConnection::doneTotal()
+{
+    grab aholdof(mutex_);
+    return queuedTotal_ - outgoing_.size() - (writePending_ ? writeBuf_.size() : 0);
+}
+
 void EagerConnection::abort()
 {
     LogSpam << "EagerConnection::abort()";
@@ -364,6 +378,7 @@ void EagerConnection::on_connect(boost::system::error_code const &err, tcp::endp
         {
             grab aholdof(mutex_);
             outgoing_.insert(outgoing_.begin(), initialData_.begin(), initialData_.end());
+            queuedTotal_ += initialData_.size();
         }
         onConnect_();
         startWrite();
diff --git a/daemon/EagerConnection.h b/daemon/EagerConnection.h
index 6db0fb6..b9c58f8 100644
--- a/daemon/EagerConnection.h
+++ b/daemon/EagerConnection.h
@@ -36,6 +36,10 @@ public:
     virtual void consume(size_t n) = 0;
     virtual size_t writeOut(void const *data, size_t size) = 0;
     virtual size_t writeOut(std::string const &str) = 0;
+    //  How many bytes have been given to writeOut(), ever, and how many
+    //  of those are not waiting any more (were written, or were lost.)
+    virtual size_t queuedTotal() { return 0; }
+    virtual size_t doneTotal() { return 0; }
 
     virtual ~ConnectionInfo() {}
     boost::signals2::signal<void ()> onConnect_;
@@ -64,6 +68,8 @@ public:
     void consume(size_t n);
     size_t writeOut(void const *data, size_t size);
     size_t writeOut(std::string const &str);
+    size_t queuedTotal();
+    size_t doneTotal();
     void abort();
     boost::asio::ip::tcp::endpoint endpoint() const;
     //  if there's some data, call onData_
@@ -113,6 +119,7 @@ private:
     buffer outgoing_;
     buffer inBuf_;
     buffer incoming_;
+    size_t queuedTotal_;
     std::string resolveHost_;
     std::string resolvePort_;
     std::string endpointName_;
diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index ab845cf..04bcca0 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -310,15 +310,19 @@ void StatServer::startResolveAgents()
 
     for (size_t i = 0; i < agentCount_; ++i) {
         forward_[i]->onData_.connect(boost::bind(&StatServer::on_forwardData, this, i));
-        forward_[i]->onWrite_.connect(boost::bind(&StatServer::on_forwardWrite, this, i, boost::placeholders::_1));
+        forward_[i]->onWrite_.connect(boost::bind(&StatServer::on_forwardWrite, this, i));
+        forward_[i]->onDisconnect_.connect(boost::bind(&StatServer::on_forwardWrite, this, i));
         forward_[i]->open(agent_, info.str());
         forward_[i]->asEagerConnection()->startRead();
     }
 }
 
-void StatServer::on_forwardWrite(size_t forwardIndex, size_t n)
+void StatServer::on_forwardWrite(size_t forwardIndex)
 {
+    //  the requests complete when this list goes away, outside of agentMutex_
     FlushRequestList afrs;
+    //  may hold the mutex of this connection, so don't ask any other one
+    size_t done = forward_[forwardIndex]->doneTotal();
     {
         grab aholdof(agentMutex_);
         if (agentFlushRequests_.empty())
@@ -330,7 +334,7 @@ void StatServer::on_forwardWrite(size_t forwardIndex, size_t n)
         {
             FlushRequestList::iterator x = ptr;
             ++ptr;
-            if ((*x)->completed(forwardIndex, n))
+            if ((*x)->completed(forwardIndex, done))
             {
                 afrs.push_back(*x);
                 agentFlushRequests_.erase(x);
@@ -668,8 +672,9 @@ void StatServer::handle_forward_prom(std::string const & ctr, std::string const
     promExporter_->storeMetrics(ctr, basename, cnames, time, val);
 }
 
-void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
+void StatServer::clearForward()
 {
+    grab aholdofClear(clearForwardMutex_);
     std::tr1::unordered_map<std::string, Bucketizer> buckets;
     ForwardList conns;
     {
@@ -737,10 +742,7 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
         for (size_t i = 0; i < count; ++i) {
             std::string str(ss[i].str());
             if (!str.empty()) {
-                size_t pending = conns[i]->writeOut(str);
-                if (agentFlushRequest != NULL) {
-                    agentFlushRequest->add(i, pending);
-                }
+                conns[i]->writeOut(str);
             }
         }
     }
@@ -752,7 +754,7 @@ void StatServer::clearForward(AgentFlushRequest * agentFlushRequest)
 
 void StatServer::on_forwardTimer()
 {
-    clearForward(NULL);
+    clearForward();
     forwardTimer_.expires_from_now(boost::posix_time::seconds(forwardInterval_));
     forwardTimer_.async_wait(boost::bind(&StatServer::on_forwardTimer, this));
 }
@@ -771,11 +773,22 @@ void StatServer::getConnected(std::vector<MetaInfo> &agents)
 void StatServer::syncAgent(IComplete *complete)
 {
     boost::shared_ptr<AgentFlushRequest> agentFlushRequest(new AgentFlushRequest(complete));
-    clearForward(agentFlushRequest.get());
+    clearForward();
+    for (size_t i = 0; i < forward_.size(); ++i)
+    {
+        agentFlushRequest->add(i, forward_[i]->queuedTotal());
+    }
     if (!agentFlushRequest->completed())
     {
-        grab aholdof(agentMutex_);
-        agentFlushRequests_.push_back(agentFlushRequest);
+        {
+            grab aholdof(agentMutex_);
+            agentFlushRequests_.push_back(agentFlushRequest);
+        }
+        //  see to writes that completed before the request was in the list
+        for (size_t i = 0; i < forward_.size(); ++i)
+        {
+            on_forwardWrite(i);
+        }
     }
 }
 
@@ -884,32 +897,22 @@ AgentFlushRequest::~AgentFlushRequest()
     comp_->on_complete();
 }
 
-void AgentFlushRequest::add(size_t index, size_t n)
+void AgentFlushRequest::add(size_t index, size_t target)
 {
-    if ((index + 1) > sizes_.size()) {
-        sizes_.resize(index + 1, 0);
-    }
-    sizes_[index] = n;
+    targets_[index] = target;
 }
 
 bool AgentFlushRequest::completed() const
 {
-    for (SizeList::const_iterator i = sizes_.begin(); i != sizes_.end(); ++i) {
-        if (*i > 0) {
-            return false;
-        }
-    }
-    return true;
+    return targets_.empty();
 }
 
-bool AgentFlushRequest::completed(size_t index, size_t n)
+bool AgentFlushRequest::completed(size_t index, size_t done)
 {
-    if (index < sizes_.size()) {
-        if (n >= sizes_[index]) {
-            sizes_[index] = 0;
-        } else {
-            sizes_[index] -= n;
-        }
+    TargetMap::iterator ptr(targets_.find(index));
+    if (ptr != targets_.end() && done >= (*ptr).second)
+    {
+        targets_.erase(ptr);
     }
     return completed();
 }
diff --git a/daemon/StatServer.h b/daemon/StatServer.h
index d559c01..8772c12 100755
--- a/daemon/StatServer.h
+++ b/daemon/StatServer.h
@@ -5,6 +5,7 @@
 #include <istat/Mmap.h>
 #include <istat/Bucket.h>
 
+#include <map>
 #include <string>
 #include <tr1/unordered_map>
 
@@ -43,12 +44,14 @@ class AgentFlushRequest : public boost::noncopyable
 public:
     explicit AgentFlushRequest(IComplete *comp);
     ~AgentFlushRequest();
-    void add(size_t index, size_t n);
+    //  wait for the connection to get to the given position
+    void add(size_t index, size_t target);
     bool completed() const;
-    bool completed(size_t index, size_t n);
+    //  the connection has got to the given position
+    bool completed(size_t index, size_t done);
 private:
-    typedef std::vector<size_t> SizeList;
-    SizeList sizes_;
+    typedef std::map<size_t, size_t> TargetMap;
+    TargetMap targets_;
     IComplete *comp_;
 };
 
@@ -138,7 +141,7 @@ private:
     void startResolveAgents();
     void on_forwardData(size_t forwardIndex);
     void on_connection();
-    void on_forwardWrite(size_t forwardIndex, size_t n);
+    void on_forwardWrite(size_t forwardIndex);
     void on_inputData(boost::shared_ptr<ConnectionInfo> ec);
     void on_inputLost(boost::shared_ptr<ConnectionInfo> ec);
     void recvOneUdp();
@@ -164,7 +167,7 @@ private:
     void handle_forward(std::string const &ctr, time_t time, double val, double sumSq, double min, double max, size_t n);
     void handle_forward_prom(std::string const & ctr, std::string const & base, std::vector<std::string> const & cnames, time_t time, double val);
     void on_forwardTimer();
-    void clearForward(AgentFlushRequest * agentFlushRequest);
+    void clearForward();
 
     boost::shared_ptr<MetaInfo> metaInfo(boost::shared_ptr<ConnectionInfo> const &ec);
 
@@ -203,6 +206,8 @@ private:
     ::lock metaMutex_;
     InfoHashMap metaInfo_;
     time_t metaInterval_;
+    //  held while forwarding; locked before forwardMutex_
+    ::lock clearForwardMutex_;
     ::lock forwardMutex_;
     std::tr1::unordered_map<std::string, Bucketizer> forwardBuckets_;
     boost::asio::deadline_timer forwardTimer_;
-- 
2.43.0


From 76989657c87151b577077c5f43c9413acfa5cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:46 +0000
Subject: [PATCH 15/51] fix: keep clamping sums beyond the range of a float

---
 lib/Bucket.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/Bucket.cpp b/lib/Bucket.cpp
index 713f596..a47c321 100644
--- a/lib/Bucket.cpp
+++ b/lib/Bucket.cpp
@@ -16,12 +16,10 @@ float stabilizeFloat(float f) {
       : f;
 }
 
+//  Sums outside the range of a float get the same treatment, others are exact.
 double stabilizeDouble(double d) {
-    return -std::numeric_limits<double>::infinity() == d
-      ? std::numeric_limits<double>::min()
-      : std::numeric_limits<double>::infinity() == d
-      ? std::numeric_limits<double>::max()
-      : d;
+    float f = (float)d;
+    return std::isinf(f) ? stabilizeFloat(f) : d;
 }
 
 namespace istat
-- 
2.43.0


From c90ea749ed6f42fadcb3737668baee73d5aa66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:24 +0000
Subject: [PATCH 16/51] fix: samples were lost when two threads created the
 same counter directory

---
 daemon/StatCounter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 3a334fa..35565a1 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -83,7 +83,8 @@ StatCounter::StatCounter(std::string const &pathName, bool isCollated, time_t ze
     if(!boost::filesystem::exists(pathName))
     {
         LogNotice << "Creating new StatCounter:" << pathName;
-        if(!boost::filesystem::create_directories(pathName))
+        //  another thread may be creating it, for a counter below this one
+        if(!boost::filesystem::create_directories(pathName) && !boost::filesystem::exists(pathName))
         {
             throw std::runtime_error("Could not create counter directory: " + pathName);
         }
-- 
2.43.0


From 4a31bc9e4ba678e082861b66b7d08ba1090ca59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:09 +0000
Subject: [PATCH 17/51] fix: a counter of events became a gauge when its
 creation was interrupted

When the daemon died between creating the directory of a counter and writing the
header of its first file, the restarted daemon finished the job for it, but as a
gauge. Load only counters that have been set up, and let the next record create
the others. Parents of loaded counters of events are counters of events.
---
 daemon/IStatCounterFactory.h  |  2 ++
 daemon/StatCounterFactory.cpp | 20 ++++++++++++++++++++
 daemon/StatCounterFactory.h   |  1 +
 daemon/StatStore.cpp          | 14 ++++++++++++++
 4 files changed, 37 insertions(+)

diff --git a/daemon/IStatCounterFactory.h b/daemon/IStatCounterFactory.h
index 632296b..bf12f14 100644
--- a/daemon/IStatCounterFactory.h
+++ b/daemon/IStatCounterFactory.h
@@ -13,6 +13,8 @@ public:
 
     virtual boost::shared_ptr<IStatCounter> create(std::string const &name, bool isCollated, time_t zeroTime, bool onlyExisting) = 0;
     virtual bool statCounterFilesExist(std::string const &pathName) = 0;
+    //  whether the files of the counter have been set up, as far as its finest interval
+    virtual bool statCounterIsSetUp(std::string const &name) { return true; }
     virtual std::string &rootPath() = 0;
 };
 
diff --git a/daemon/StatCounterFactory.cpp b/daemon/StatCounterFactory.cpp
index 1cf1a62..55ef8fb 100644
--- a/daemon/StatCounterFactory.cpp
+++ b/daemon/StatCounterFactory.cpp
@@ -2,9 +2,13 @@
 #include "StatCounter.h"
 #include "Logs.h"
 #include "istat/strfunc.h"
+#include "istat/Header.h"
 
 #include <boost/make_shared.hpp>
 #include <string>
+#include <errno.h>
+#include <fcntl.h>
+#include <string.h>
 
 
 StatCounterFactory::StatCounterFactory(std::string const &root_path, istat::Mmap *mm, RetentionPolicy &rp) :
@@ -28,6 +32,22 @@ bool StatCounterFactory::statCounterFilesExist(std::string const &pathName)
 }
 
 
+bool StatCounterFactory::statCounterIsSetUp(std::string const &name)
+{
+    //  The header of the finest file says whether the counter counts events.
+    std::string path(rootPath_ + "/" + istat::counter_filename(name) + "/" + policy_.getInterval(0).name);
+    istat::Header hdr;
+    memset(&hdr, 0, sizeof(hdr));
+    int fd = mm_->open(path.c_str(), O_RDONLY);
+    if (fd < 0)
+    {
+        return errno != ENOENT;
+    }
+    ssize_t r = mm_->read(fd, &hdr, sizeof(hdr));
+    mm_->close(fd);
+    return r < 0 || hdr.magic[0] != 0;
+}
+
 boost::shared_ptr<IStatCounter> StatCounterFactory::create(std::string const &name, bool isCollated, time_t zeroTime, bool onlyExisting)
 {
     std::string fullpath = rootPath_ + "/" + istat::counter_filename(name);
diff --git a/daemon/StatCounterFactory.h b/daemon/StatCounterFactory.h
index 0ab2eee..0b9c4d8 100644
--- a/daemon/StatCounterFactory.h
+++ b/daemon/StatCounterFactory.h
@@ -15,6 +15,7 @@ public:
 
     virtual boost::shared_ptr<IStatCounter> create(std::string const &name, bool isCollated, time_t zeroTime, bool onlyExisting);
     virtual bool statCounterFilesExist(std::string const &pathName);
+    virtual bool statCounterIsSetUp(std::string const &name);
 
     std::string& rootPath()
     {
diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index e8bfb0f..ca459e2 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -250,6 +250,11 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
         stripext(sex);
         if (sex != name)
         {
+            //  counters that are loaded come without the mark of a counter of events
+            if (name[0] != '*' && asyncCounter->statCounter_->isCollated())
+            {
+                sex = "*" + sex;
+            }
             //  recursively create counters up the chain
             openCounter(sex, create, onlyExisting, zeroTime);
         }
@@ -447,6 +452,15 @@ void StatStore::loadCtr(std::string const &file)
     std::replace(cname.begin(), cname.end(), '/', '.');
     try
     {
+        //  A counter that was being created when the daemon died may be a counter
+        //  of events. The next record will tell.
+        std::string xform(cname);
+        munge(xform);
+        if (!factory_->statCounterIsSetUp(xform))
+        {
+            LogNotice << "Not loading" << file << ": it has not been set up.";
+            return;
+        }
         openCounter(cname, true, !recursivelyCreateCounters_);
     }
     catch (std::exception const &x)
-- 
2.43.0


From f3fc09c596392a09e58bfd6821678b1d1475f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:02 +0000
Subject: [PATCH 18/51] fix: a too short line in a datagram does not swallow
 the next line

---
 daemon/StatServer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index 04bcca0..09802db 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -872,10 +872,11 @@ void StatServer::on_udp_recv(boost::system::error_code const &err, size_t bytes)
             {
                 if (udpBuffer_[off] == 10)
                 {
-                    if (off > base + 1)
+                    //  skip lines that are too short, too
+                    std::string cmd(&udpBuffer_[base], &udpBuffer_[off]);
+                    base = off + 1;
+                    if (cmd.size() > 1)
                     {
-                        std::string cmd(&udpBuffer_[base], &udpBuffer_[off]);
-                        base = off + 1;
                         handleCmd(cmd, udpEndpoint_);
                     }
                 }
-- 
2.43.0


From 0ef935d4de9d16e3cec43914fb4df2959962500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:02 +0000
Subject: [PATCH 19/51] fix: listings and multi-counter answers are valid JSON
 whatever the names contain

---
 daemon/RequestInFlight.cpp | 12 ++++++------
 include/istat/strfunc.h    |  2 ++
 lib/strfunc.cpp            | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 645e71d..1ca91fa 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -380,7 +380,7 @@ public:
             {
                 delim = ",";
             }
-            req_->strm_buffer_ << "\"" << name << "\":{"
+            req_->strm_buffer_ << "\"" << json_quote(name) << "\":{"
                         << "\"start\":" << normalized_start
                         << ",\"end\":" << normalized_end
                         << ",\"interval\":" << interval
@@ -508,7 +508,7 @@ void RequestInFlight::on_multigetBody()
                 {
                     delim = ",";
                 }
-                strm_buffer_ << "\"" << name << "\":\"Not found.\"";
+                strm_buffer_ << "\"" << json_quote(name) << "\":\"Not found.\"";
             }
             else
             {
@@ -663,10 +663,10 @@ void RequestInFlight::createCountersMatchingResponse(std::string const &pattern,
         {
             comma = true;
         }
-        strm_buffer_ << "\"" << (*it).first << "\":\"" << js_quote((*it).second) << "\"";
+        strm_buffer_ << "\"" << (*it).first << "\":\"" << json_quote((*it).second) << "\"";
     }
     strm_buffer_ << "}";
-    strm_buffer_ << ",\"pattern\":\"" << js_quote(pattern) << "\",\"matching_names\":[";
+    strm_buffer_ << ",\"pattern\":\"" << json_quote(pattern) << "\",\"matching_names\":[";
     comma = false;
     for (std::list<std::pair<std::string, CounterResponse> >::iterator
         ptr(results.begin()), end(results.end());
@@ -684,7 +684,7 @@ void RequestInFlight::createCountersMatchingResponse(std::string const &pattern,
         strm_buffer_ << 
             "{\"is_leaf\":" << ((*ptr).second.isLeaf ? "true" : "false") <<
             ",\"type\":" << ((*ptr).second.counterType ) <<
-            ",\"name\":\"" << js_quote((*ptr).first) << "\"}";
+            ",\"name\":\"" << json_quote((*ptr).first) << "\"}";
     }
     strm_buffer_ << "]}";
 }
@@ -718,7 +718,7 @@ void RequestInFlight::listAgentsMatching(std::string const &pattern)
             iptr != iend;
             ++iptr)
         {
-            strm_buffer_ << "\"" << js_quote((*iptr).first) << "\":\"" << js_quote((*iptr).second) << "\",";
+            strm_buffer_ << "\"" << json_quote((*iptr).first) << "\":\"" << json_quote((*iptr).second) << "\",";
         }
         strm_buffer_ << "\"_online\":" << ((*ptr).online_ ? "true" : "false") << ",";
         strm_buffer_ << "\"_connected\":\"" << iso_8601_datetime((*ptr).connected_) << "\",";
diff --git a/include/istat/strfunc.h b/include/istat/strfunc.h
index 07b7e30..3361bfc 100755
--- a/include/istat/strfunc.h
+++ b/include/istat/strfunc.h
@@ -42,6 +42,8 @@ namespace istat
     std::string sql_quote(std::string const &str);
     std::string sql_unquote(std::string const &str);
     std::string js_quote(std::string const &str);
+    //  quote for a JSON string, which does not allow all of what javascript allows
+    std::string json_quote(std::string const &str);
     std::string js_unquote(std::string const &str);
 
     int querystring(std::string const &in, std::map<std::string, std::string> &oQuery);
diff --git a/lib/strfunc.cpp b/lib/strfunc.cpp
index e18c9d2..353b742 100755
--- a/lib/strfunc.cpp
+++ b/lib/strfunc.cpp
@@ -6,6 +6,7 @@
 #include <list>
 #include <sys/stat.h>
 #include <unistd.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <boost/lexical_cast.hpp>
 #include <boost/date_time/c_time.hpp>
@@ -550,6 +551,37 @@ namespace istat
         return ss.str();
     }
 
+    std::string json_quote(std::string const &str)
+    {
+        std::string ret;
+        char hex[8];
+        for (std::string::const_iterator ptr(str.begin()), end(str.end());
+                ptr != end; ++ptr)
+        {
+            switch (*ptr)
+            {
+            case '\\':
+                ret += "\\\\";
+                break;
+            case '\"':
+                ret += "\\\"";
+                break;
+            default:
+                if ((unsigned char)*ptr < 32)
+                {
+                    sprintf(hex, "\\u%04x", (unsigned)(unsigned char)*ptr);
+                    ret += hex;
+                }
+                else
+                {
+                    ret += *ptr;
+                }
+                break;
+            }
+        }
+        return ret;
+    }
+
     std::string js_unquote(std::string const &str)
     {
         std::stringstream ss;
-- 
2.43.0


From bd0a5a177f1fa19b22413510979681041b6de5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:02 +0000
Subject: [PATCH 20/51] fix: event counters survive times near zero and do not
 walk across huge gaps

---
 daemon/StatCounter.cpp | 29 ++++++++++++++++++++++++-----
 daemon/StatCounter.h   |  1 +
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 35565a1..19d5123 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -63,6 +63,14 @@ StatCounter::CollationInfo StatCounter::startCollation(time_t t)
     return ret;
 }
 
+void StatCounter::startCollationWindow(time_t newest)
+{
+    for(size_t i = 0; i != BUCKETS_PER_COLLATION_WINDOW; ++i)
+    {
+        collations_[(BUCKETS_PER_COLLATION_WINDOW - 1) - i] = startCollation(newest - (i * collationInterval_));
+    }
+}
+
 time_t StatCounter::lastFromPastLog_ = 0;
 uint32_t StatCounter::fromPastLogsPerSec_ = 0;
 
@@ -200,7 +208,8 @@ void StatCounter::record(time_t time, double value, double valueSq, double min,
             }
             return;
         }
-        if(time < collations_[0].time)
+        //  (a window that starts at time 0 is a window that's not yet set)
+        if(time < collations_[0].time || time < collationInterval_ * time_t(BUCKETS_PER_COLLATION_WINDOW))
         {
             ++recordsFromThePast_;
             if (debugRejectedCounters && shouldLog(time))
@@ -238,10 +247,7 @@ void StatCounter::record(time_t time, double value, double valueSq, double min,
         {
             if(collations_[0].time == 0)
             {
-                for(size_t i = 0; i != BUCKETS_PER_COLLATION_WINDOW; ++i)
-                {
-                    collations_[(BUCKETS_PER_COLLATION_WINDOW - 1) - i] = startCollation(time - (i * collationInterval_));
-                }
+                startCollationWindow(time);
             }
             else
             {
@@ -342,6 +348,19 @@ void StatCounter::maybeShiftCollated(time_t t)
     }
 
     LogSpam << "StatCounter::maybeShiftCollated(" << t << ")";
+    if(collations_[0].time != 0)
+    {
+        //  Do not take forever to walk a gap that leaves nothing in the finest file.
+        istat::StatFile::Settings const &set(counters_.begin()->file->settings());
+        if((t - collations_[BUCKETS_PER_COLLATION_WINDOW - 1].time) / collationInterval_ > time_t(set.numSamples) + time_t(BUCKETS_PER_COLLATION_WINDOW))
+        {
+            for(size_t i = 0; i != BUCKETS_PER_COLLATION_WINDOW; ++i)
+            {
+                shiftCollated(t);
+            }
+            startCollationWindow(t - t % collationInterval_);
+        }
+    }
     while(t >= collations_[BUCKETS_PER_COLLATION_WINDOW - 1].time + collationInterval_)
     {
         if(!shiftCollated(t))
diff --git a/daemon/StatCounter.h b/daemon/StatCounter.h
index 26b4a71..1e94363 100644
--- a/daemon/StatCounter.h
+++ b/daemon/StatCounter.h
@@ -72,6 +72,7 @@ private:
     bool shouldLog(const time_t& t);
 
     CollationInfo startCollation(time_t t);
+    void startCollationWindow(time_t newest);
     size_t findCollationIndex(time_t t);
     void readBucketsFromFile(boost::shared_ptr<istat::StatFile> sf, time_t start_time, time_t end_time, std::vector<istat::Bucket> &oBuckets);
     void reduce(std::vector<istat::Bucket> &buckets, time_t startTime, time_t endTime, time_t interval, int collatedBucketSize);
-- 
2.43.0


From 797a85f58cba66b0c07f2f9d3ca7e9d34f68510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:02 +0000
Subject: [PATCH 21/51] fix: limit nesting of JSON values and do not read past
 the end of the document

---
 lib/jsoncpp.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/jsoncpp.cpp b/lib/jsoncpp.cpp
index b016b92..287a27f 100644
--- a/lib/jsoncpp.cpp
+++ b/lib/jsoncpp.cpp
@@ -352,13 +352,19 @@ Reader::parse( const char *beginDoc, const char *endDoc,
 }
 
 
-bool
+static const size_t maxNesting = 1000;
+
+bool 
 Reader::readValue()
 {
    Token token;
    skipCommentTokens( token );
    bool successful = true;
 
+   //  each level of nesting uses some of the stack
+   if ( nodes_.size() > maxNesting )
+      return addError( "Syntax error: value is nested too deep.", token );
+
    if ( collectComments_  &&  !commentsBefore_.empty() )
    {
       currentValue().setComment( commentsBefore_, commentBefore );
@@ -701,7 +707,7 @@ Reader::readArray( Token &/*tokenStart*/ )
 {
    currentValue() = Value( arrayValue );
    skipSpaces();
-   if ( *current_ == ']' ) // empty array
+   if ( current_ != end_  &&  *current_ == ']' ) // empty array
    {
       Token endArray;
       readToken( endArray );
-- 
2.43.0


From c941c784299de1ead08d65e5737e42875d4d4e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:02 +0000
Subject: [PATCH 22/51] fix: replica connections go away when closed, and short
 PDUs are protocol errors

---
 daemon/EagerConnection.cpp |  9 +++++++++
 daemon/EagerConnection.h   |  3 +++
 daemon/PduProtocol.h       |  6 ++++++
 daemon/ReplicaPdus.cpp     | 15 +++++++++------
 daemon/ReplicaServer.cpp   | 24 ++++++++++++++++++++----
 5 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index ef8fe6c..038d32d 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -508,6 +508,15 @@ void EagerConnection::on_read(boost::system::error_code const &err, size_t xfer)
     }
 }
 
+void EagerConnection::defer(boost::function<void ()> const &what)
+{
+#if BOOST_VERSION >= 106700
+    boost::asio::post(strand_, what);
+#else
+    strand_.post(what);
+#endif
+}
+
 std::string const &EagerConnection::endpointName()
 {
     return endpointName_;
diff --git a/daemon/EagerConnection.h b/daemon/EagerConnection.h
index b9c58f8..5e6eae9 100644
--- a/daemon/EagerConnection.h
+++ b/daemon/EagerConnection.h
@@ -7,6 +7,7 @@
 #include <string>
 #include <vector>
 #include <boost/asio.hpp>
+#include <boost/function.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/shared_ptr.hpp>
 #include <boost/enable_shared_from_this.hpp>
@@ -74,6 +75,8 @@ public:
     boost::asio::ip::tcp::endpoint endpoint() const;
     //  if there's some data, call onData_
     void startRead();
+    //  call something after what's running in my callbacks now
+    void defer(boost::function<void ()> const &what);
 
     static boost::shared_ptr<ConnectionInfo> create(boost::asio::io_service &svc);
 
diff --git a/daemon/PduProtocol.h b/daemon/PduProtocol.h
index 818d766..ecdf5e4 100644
--- a/daemon/PduProtocol.h
+++ b/daemon/PduProtocol.h
@@ -3,6 +3,7 @@
 #define daemon_PduProtocol_h
 
 #include <boost/noncopyable.hpp>
+#include <boost/lexical_cast.hpp>
 #include <stdexcept>
 #include <map>
 #include <string>
@@ -56,6 +57,11 @@ public:
     void onPdu(uint32_t type, size_t size, void const *data)
     {
         assert(type == PduType::Id);
+        if (size < sizeof(PduType))
+        {
+            throw PduProtocolException("Too short PDU id " + boost::lexical_cast<std::string>(type) +
+                ": " + boost::lexical_cast<std::string>(size) + " bytes");
+        }
         (*call_)(*(PduType const *)data);
     }
     template<typename Arg> static inline PduCallable<PduType> *make(Arg const &arg)
diff --git a/daemon/ReplicaPdus.cpp b/daemon/ReplicaPdus.cpp
index 70ac881..f72481d 100644
--- a/daemon/ReplicaPdus.cpp
+++ b/daemon/ReplicaPdus.cpp
@@ -64,7 +64,7 @@ again:
     //  fill an existing PDU
     {
         //  scope to show that this reference dies when going back to the beginning
-        PduHeader &i = pending_.front();
+        PduHeader &i = pending_.back();
         size_t got = i.payload.size();
         size_t needed = i.size - got;
         size_t avail = conn_->pendingIn();
@@ -72,11 +72,14 @@ again:
         {
             avail = needed;
         }
-        i.payload.resize(got + avail);
-        //  read what's available, up to as much as we need
-        size_t nn = conn_->readIn(&i.payload[got], avail);
-        //  it should already be there!
-        assert(nn == avail);
+        if (avail > 0)
+        {
+            i.payload.resize(got + avail);
+            //  read what's available, up to as much as we need
+            size_t nn = conn_->readIn(&i.payload[got], avail);
+            //  it should already be there!
+            assert(nn == avail);
+        }
         if (i.payload.size() == i.size)
         {
             //  if we completed, mark it complete, and check for another one
diff --git a/daemon/ReplicaServer.cpp b/daemon/ReplicaServer.cpp
index 3f06671..dfa68be 100644
--- a/daemon/ReplicaServer.cpp
+++ b/daemon/ReplicaServer.cpp
@@ -31,7 +31,9 @@ public:
     void go()
     {
         pduSrc_->onPdu_.connect(boost::bind(&ReplicaConnection::on_pdu, this));
-        conn_->onDisconnect_.connect(boost::bind(&ReplicaConnection::on_disconnect, this));
+        //  the reader closes the connection when it's disconnected, and that
+        //  disconnects all other slots of the connection, too
+        pduSrc_->onDeleted_.connect(boost::bind(&ReplicaConnection::on_disconnect, this));
         conn_->asEagerConnection()->startRead();
     }
 
@@ -55,6 +57,7 @@ public:
         {
             LogError << "Protocol Exception from" << conn_->endpointName() << ":" << x.what();
             conn_->close();
+            on_disconnect();
         }
     }
 
@@ -92,7 +95,8 @@ public:
             emit(buf, sz);
             return;
         }
-        iterate_ = rs_->ss_->iterateSignal.connect(boost::bind(&ReplicaConnection::on_iterate, this, boost::placeholders::_1));
+        iterate_ = rs_->ss_->iterateSignal.connect(boost::signals2::signal<void (istat::Header const &)>::slot_type(
+            boost::bind(&ReplicaConnection::on_iterate, this, boost::placeholders::_1)).track(self_));
     }
 
     void on_request(PduRequest const &req)
@@ -111,7 +115,19 @@ public:
 
     void on_disconnect()
     {
-        self_ = boost::shared_ptr<ReplicaConnection>((ReplicaConnection *)0);
+        //  Called from signals of objects I own, so don't delete those right now
+        //  (if self_ is not already gone.)
+        boost::shared_ptr<ReplicaConnection> self;
+        self.swap(self_);
+        if (!!self)
+        {
+            conn_->asEagerConnection()->defer(boost::bind(&ReplicaConnection::release, self));
+        }
+    }
+
+    //  the bound argument is what's released
+    static void release(boost::shared_ptr<ReplicaConnection> const &)
+    {
     }
 
     boost::shared_ptr<ReplicaConnection> self_;
@@ -119,7 +135,7 @@ public:
     PduReaderActor *pduSrc_;
     ReplicaServer *rs_;
     PduProtocol proto_;
-    boost::signals2::connection iterate_;
+    boost::signals2::scoped_connection iterate_;
 };
 
 
-- 
2.43.0


From 3fedb12d44d41b0dcdaae8872b3850b42c94fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:02 +0000
Subject: [PATCH 23/51] fix: listing keys while keys are refreshed does not use
 freed keys or lose new ones

---
 daemon/AllKeys.cpp   | 85 +++++++++++++++++++++-----------------------
 daemon/AllKeys.h     | 40 +++++++--------------
 daemon/StatStore.cpp |  7 ++--
 daemon/StatStore.h   |  1 -
 4 files changed, 57 insertions(+), 76 deletions(-)

diff --git a/daemon/AllKeys.cpp b/daemon/AllKeys.cpp
index a015a6b..b84e6c1 100644
--- a/daemon/AllKeys.cpp
+++ b/daemon/AllKeys.cpp
@@ -4,7 +4,6 @@
 #include "Debug.h"
 #include "Logs.h"
 
-#include <istat/Atomic.h>
 #include <boost/assign/list_of.hpp>
 
 
@@ -15,75 +14,71 @@ DebugOption allKeys("allKeys");
 
 CounterResponse::CounterDisplayTypeToStringMap CounterResponse::DisplayTypeToString = map_list_of(DisplayTypeGauge, "gauge")(DisplayTypeEvent, "counter")(DisplayTypeAggregate, "aggregate");
 AllKeys::AllKeys() :
-    head_(0)
+    replacing_(false)
 {
 }
 
 AllKeys::~AllKeys()
 {
-    Rec *r = head_;
-    head_ = 0;
-    while (r)
-    {
-        Rec *d = r;
-        r = r->next;
-        delete d;
-    }
-}
-
-void AllKeys::exchange(AllKeys &ak)
-{
-    Rec* old_head = head_;
-    dirty_ = true;
-    while (true)
-    {
-        if(istat::atomic_compare_exchange((void * volatile *)&head_, (void *)old_head, (void *)ak.head_))
-        {
-            break;
-        }
-
-    }
-    ak.head_ = old_head;
-    toMatch_.clear();
-
 }
 
 void AllKeys::add(std::string const &str, bool isCollated)
 {
-    dirty_ = true;
     if (allKeys.enabled())
     {
         LogSpam << "AllKeys::add(" << str << ")";
     }
-    Rec *r = new Rec(str, isCollated);
-    //  Spin, in case we race with some other winner.
-    //  Note that it will never livelock, because someone
-    //  will write to the head_ each cycle and thus make
-    //  progress.
-    while (true)
+    grab aholdof(addLock_);
+    added_.push_back(KeyMatch::CounterData(str, isCollated));
+    if (replacing_)
     {
-        r->next = head_;
-        if (istat::atomic_compare_exchange((void * volatile *)&head_, (void *)r->next, (void *)r))
-        {
-            return;
-        }
+        replacement_.push_back(KeyMatch::CounterData(str, isCollated));
     }
 }
 
 void AllKeys::delete_all()
 {
-    AllKeys ak;
-    exchange(ak);
+    grab aholdofMatch(matchLock_);
+    grab aholdof(addLock_);
+    added_.clear();
+    toMatch_.clear();
+}
+
+void AllKeys::start_replace()
+{
+    grab aholdof(addLock_);
+    replacement_.clear();
+    replacing_ = true;
+}
+
+void AllKeys::keep(std::string const &str, bool isCollated)
+{
+    grab aholdof(addLock_);
+    replacement_.push_back(KeyMatch::CounterData(str, isCollated));
+}
+
+void AllKeys::finish_replace()
+{
+    grab aholdofMatch(matchLock_);
+    grab aholdof(addLock_);
+    added_.swap(replacement_);
+    replacement_.clear();
+    replacing_ = false;
+    toMatch_.clear();
 }
 
 void AllKeys::match(std::string const &path, std::list<std::pair<std::string, CounterResponse> > &oList)
 {
     //  Only one match() can run at once. That should not be a real problem.
-    grab aholdof(lock_);
-    if (dirty_)
+    grab aholdofMatch(matchLock_);
+    Added added;
+    {
+        grab aholdof(addLock_);
+        added.swap(added_);
+    }
+    for (Added::iterator ptr(added.begin()), end(added.end()); ptr != end; ++ptr)
     {
-        dirty_ = false;
-        foreach(toMatch_);
+        toMatch_(*ptr);
     }
     toMatch_.extract(path, oList);
 }
diff --git a/daemon/AllKeys.h b/daemon/AllKeys.h
index 30e1de8..d74dd5a 100644
--- a/daemon/AllKeys.h
+++ b/daemon/AllKeys.h
@@ -2,9 +2,6 @@
 #if !defined(daemon_AllKeys_h)
 #define daemon_AllKeys_h
 
-//  We never remove keys once added!
-//  This allows us to do lockless linked lists.
-
 #include "threadfunc.h"
 #include <boost/noncopyable.hpp>
 #include <map>
@@ -59,33 +56,22 @@ public:
     //  add() does *not* check for duplicates! It happily adds them.
     void add(std::string const &str, bool isCollated);
     void delete_all();
-    void exchange(AllKeys &ak);
-
-    //  T is callable(std::string const &str)
-    template<typename T> void foreach(T &t) const
-    {
-        Rec const *r = head_;
-        while (r)
-        {
-            t(r->data);
-            r = r->next;
-        }
-    }
+    //  Replace all keys by a new set: start, then add all keys that should stay,
+    //  then finish. Keys that are added by others meanwhile stay, too.
+    void start_replace();
+    void keep(std::string const &str, bool isCollated);
+    void finish_replace();
     void match(std::string const &path, std::list<std::pair<std::string, CounterResponse> > &oList);
 private:
-    //  Once created, one of these records never go away, unless 
-    //  ALL records go away. This makes iteration thread safe (at 
-    //  the risk of missing any new record created while iterating).
-    struct Rec
-    {
-        inline Rec(std::string const &init, bool isCollated) : next(0), data(init, isCollated) {}
-        struct Rec *next;
-        KeyMatch::CounterData data;
-    };
-    Rec *head_;
-    bool dirty_;
+    typedef std::list<KeyMatch::CounterData> Added;
+    //  Adding a key should not wait for match(), so keys wait in added_ until
+    //  there is a match(). To take both locks, take matchLock_ first.
+    lock addLock_;
+    Added added_;
+    bool replacing_;
+    Added replacement_;
+    lock matchLock_;
     KeyMatch toMatch_;
-    lock lock_;
 };
 
 #endif  //  daemon_AllKeys_h
diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index ca459e2..a9c4508 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -605,6 +605,7 @@ void StatStore::refreshAllKeys()
     boost::shared_ptr<AsyncCounter> value;
 
     LogSpam << "StatStore::refreshAllKeys()";
+    keys_.start_replace();
     for (int i = 0; i < counterShards_.dimension(); ++i)
     {
         std::pair<CounterMap&, ::lock&> mapAndLock = counterShards_.get_from_index(i);
@@ -621,7 +622,7 @@ void StatStore::refreshAllKeys()
             value = (*it).second;
             if(!(value->statCounter_ == theDeletedCounter))
             {
-                keysWA_.add(key, value->statCounter_->isCollated());
+                keys_.keep(key, value->statCounter_->isCollated());
                 ++it;
             }
             else
@@ -631,8 +632,7 @@ void StatStore::refreshAllKeys()
             }
         }
     }
-    keys_.exchange(keysWA_);
-    keysWA_.delete_all();
+    keys_.finish_replace();
     __sync_fetch_and_sub(&queuedRefreshes_, 1);
 }
 
@@ -651,6 +651,7 @@ void StatStore::scheduleRefresh()
     }
     else
     {
+        __sync_fetch_and_sub(&queuedRefreshes_, 1);
         LogNotice << "StatStore::scheduleRefresh() - Did not schedule a refresh. There are already " << queuedRefreshes_ << "/" << MAX_QUEUED_KEY_REFRESHES << " scheduled.";
     }
 }
diff --git a/daemon/StatStore.h b/daemon/StatStore.h
index 64aa396..6f8017d 100644
--- a/daemon/StatStore.h
+++ b/daemon/StatStore.h
@@ -115,7 +115,6 @@ private:
     long minimumRequiredSpace_;
     UniqueId myId_;
     AllKeys keys_;
-    AllKeys keysWA_;
     int64_t numLoaded_;
     int aggregateCount_;
     int pruneEmptyDirsMs_;
-- 
2.43.0


From b5b763c0ef5f69d1d8553dcec6dda8f81a81ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:05 +0000
Subject: [PATCH 24/51] fix: malformed, aborted and failing HTTP requests are
 answered or dropped, and not counted for ever

---
 daemon/HttpServer.cpp      | 47 ++++++++++++++++++++++++++++++--------
 daemon/HttpServer.h        |  9 ++++++++
 daemon/RequestInFlight.cpp | 19 +++++++++++----
 3 files changed, 62 insertions(+), 13 deletions(-)

diff --git a/daemon/HttpServer.cpp b/daemon/HttpServer.cpp
index 5009933..19e2e1c 100644
--- a/daemon/HttpServer.cpp
+++ b/daemon/HttpServer.cpp
@@ -71,8 +71,7 @@ void HttpServer::handleAccept(boost::system::error_code const &e, HttpRequestHol
         {
             LogDebug << "http request";
         }
-        ++sInfo_.current;
-        sInfo_.currentGauge.value((int32_t)sInfo_.current);
+        req->start();
         onRequest_(req);
         req->readHeaders();
         acceptOne();
@@ -86,12 +85,32 @@ void HttpServer::handleAccept(boost::system::error_code const &e, HttpRequestHol
 
 HttpRequest::HttpRequest(boost::asio::io_service &svc, HttpServer *hs) :
     socket_(svc),
-    hs_(hs)
+    header_(MaxHeaderSize),
+    hs_(hs),
+    current_(false)
 {
 }
 
 HttpRequest::~HttpRequest()
 {
+    done();
+}
+
+void HttpRequest::start()
+{
+    current_ = true;
+    hs_->sInfo_.currentGauge.value((int32_t)++hs_->sInfo_.current);
+}
+
+//  Not all requests get a reply.
+void HttpRequest::done()
+{
+    if (current_)
+    {
+        current_ = false;
+        assert(hs_->sInfo_.current > 0);
+        hs_->sInfo_.currentGauge.value((int32_t)--hs_->sInfo_.current);
+    }
 }
 
 void HttpRequest::readHeaders()
@@ -114,7 +133,19 @@ void HttpRequest::readBody()
     {
         throw std::runtime_error("Can't read body without content-length");
     }
-    size_t len = boost::lexical_cast<size_t>(*cl);
+    size_t len = 0;
+    try
+    {
+        len = boost::lexical_cast<size_t>(*cl);
+    }
+    catch (boost::bad_lexical_cast const &)
+    {
+        throw std::runtime_error("Bad content-length: " + *cl);
+    }
+    if (len > MaxBodySize)
+    {
+        throw std::runtime_error("Too large content-length: " + *cl);
+    }
     bodyData_.resize(len);
     bodyRead_ = 0;
     if (headerSize_ < headerData_.size() && len > 0)
@@ -161,7 +192,7 @@ void HttpRequest::readBody()
     catch (std::exception const &x)
     {
         LogWarning << "exception calling async_read() in readBody():" << x.what();
-        throw x;
+        throw;
     }
 }
 
@@ -181,7 +212,7 @@ void HttpRequest::on_header(boost::system::error_code const &err, size_t xfer)
     //  parse header
     bool first = true;
     size_t b = 0;
-    for (size_t p = 3, n = headerData_.size(); p != n-2; ++p)
+    for (size_t p = 3, n = headerData_.size(); p + 2 < n; ++p)
     {
         if (headerData_[p] == '\n' && headerData_[p-1] == '\r' && headerData_[p+1] != ' ')
         {
@@ -391,9 +422,7 @@ void HttpRequest::on_reply(boost::system::error_code const &err, size_t xfer)
     {
         ++hs_->sInfo_.numErrors;
     }
-    assert(hs_->sInfo_.current > 0);
-    --hs_->sInfo_.current;
-    hs_->sInfo_.currentGauge.value((int32_t)hs_->sInfo_.current);
+    done();
     //  this should soon go away, as the stack reference will go away!
     socket_.close();
     disconnect_all_slots(onError_);
diff --git a/daemon/HttpServer.h b/daemon/HttpServer.h
index cbf7f3a..5e8bf8b 100644
--- a/daemon/HttpServer.h
+++ b/daemon/HttpServer.h
@@ -48,6 +48,8 @@ public:
     HttpRequest(boost::asio::io_service &svc, HttpServer *hs);
     ~HttpRequest();
     inline boost::asio::ip::tcp::socket &socket() { return socket_; }
+    //  Count this request as being current, until it is done.
+    void start();
     void readHeaders();
     void readBody();
     boost::signals2::signal<void ()> onHeader_;
@@ -68,6 +70,12 @@ private:
     virtual void appendReply(char const *data, size_t size);
     virtual void doReply(int code, std::string const &ctype, std::string const &xheaders);
     void error();
+    void done();
+    enum
+    {
+        MaxHeaderSize = 1024 * 1024,
+        MaxBodySize = 64 * 1024 * 1024
+    };
     boost::asio::ip::tcp::socket socket_;
     std::map<std::string, std::string> headers_;
     std::string method_;
@@ -80,6 +88,7 @@ private:
     std::vector<char> bodyData_;
     std::vector<char> reply_;
     HttpServer *hs_;
+    bool current_;
 };
 
 class HttpRequestHolder
diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 1ca91fa..338bc3a 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -146,7 +146,7 @@ void RequestInFlight::go()
             do_UNKNOWN(req_->method());
         }
     }
-    catch (std::runtime_error const &re) {
+    catch (std::exception const &re) {
         LogError << std::string("HTTP exception: ") + re.what();
         reportError(std::string("HTTP exception: ") + re.what());
     }
@@ -263,7 +263,7 @@ void RequestInFlight::goProm()
             do_UNKNOWN(req_->method());
         }
     }
-    catch (std::runtime_error const &re) {
+    catch (std::exception const &re) {
         LogError << std::string("HTTP exception: ") + re.what();
         reportError(std::string("HTTP exception: ") + re.what());
     }
@@ -360,6 +360,7 @@ public:
 
     void workOne(boost::shared_ptr<IStatCounter> &counter, std::string const &name)
     {
+        try
         {
             grab aholdOf(strmLock);
             std::vector<istat::Bucket> buckets;
@@ -423,6 +424,16 @@ public:
             }
             req_->strm_buffer_ << "]}";
         }
+        catch (std::exception const &x)
+        {
+            //  the request has to complete
+            grab aholdOf(strmLock);
+            LogError << "HTTP exception for" << name << ":" << x.what();
+            req_->strm_buffer_ << delim << "\"" << json_quote(name) << "\":\"" <<
+                json_quote(std::string("exception: ") + x.what()) << "\"";
+            delim = ",";
+            wrote_ = true;
+        }
         if (0 == istat::atomic_add(&num, -1))
         {
             if (wrote_)
@@ -877,7 +888,7 @@ void RequestInFlight::generateCounterJson(boost::shared_ptr<IStatCounter> statCo
 
         strm_buffer_ << Json::FastWriter().write(jsonRoot);
         complete(200, "application/json");
-    } catch (std::runtime_error &re) {
+    } catch (std::exception const &re) {
         reportError(std::string("HTTP JSON exception:") + re.what());
     }
 }
@@ -909,7 +920,7 @@ void RequestInFlight::generateCounterCSV(boost::shared_ptr<IStatCounter> statCou
                 << "\r\n";
         }
         complete(200, "text/csv");
-    } catch (std::runtime_error &re) {
+    } catch (std::exception const &re) {
         reportError(std::string("HTTP CSV exception:") + re.what());
     }
 }
-- 
2.43.0


From 370c5b5ed8bd27c2a1464a9d77f5706e6da5f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:05 +0000
Subject: [PATCH 25/51] fix: admin commands that are long, pipelined or have
 bad arguments are answered

---
 daemon/AdminServer.cpp | 48 ++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/daemon/AdminServer.cpp b/daemon/AdminServer.cpp
index b287116..dc08bba 100644
--- a/daemon/AdminServer.cpp
+++ b/daemon/AdminServer.cpp
@@ -30,6 +30,7 @@ public:
     void go();
     void on_disconnect();
     void on_data();
+    static void destroy(AdminConnection *self) { delete self; }
 
     void doCmd(std::string const &cmd);
     void huh();
@@ -156,27 +157,33 @@ void AdminConnection::on_disconnect()
 
 void AdminConnection::on_data()
 {
-    char buf[1026];
+    size_t const maxCmd = 64 * 1024;
+    std::vector<char> buf(1024);
 again:
-    size_t sz = ec_->peekIn(buf, 1024);
-    if (sz == 1024)
-    {
-        buf[1024] = '\n';
-        buf[0] = 0;
-    }
-    else
-    {
-        buf[sz] = 0;
-    }
+    size_t sz = ec_->peekIn(&buf[0], buf.size());
     for (size_t i = 0; i != sz; ++i)
     {
         if (buf[i] == '\n')
         {
             ec_->consume(i + 1);
-            doCmd(std::string(&buf[0], &buf[i]));
+            doCmd(std::string(buf.begin(), buf.begin() + i));
             goto again;
         }
     }
+    if (sz == buf.size())
+    {
+        if (sz < maxCmd)
+        {
+            buf.resize(maxCmd);
+        }
+        else
+        {
+            //  no command is that long
+            ec_->consume(sz);
+            huh();
+        }
+        goto again;
+    }
 }
 
 void AdminConnection::doCmd(std::string const &cmd)
@@ -329,7 +336,7 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
                         }
                         else
                         {
-                            throw std::runtime_error("Should be 'on' or 'off': " + args[2]);
+                            throw std::runtime_error("Should be 'on' or 'off': " + args[1]);
                         }
                     }
                     ec_->writeOut(opt->name() + ": " + (opt->enabled() ? "on" : "off") + "\r\n");
@@ -357,7 +364,16 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
             ec_->writeOut("huh? requires one argument (timestamp)\r\n");
             return;
         }
-        time_t t = boost::lexical_cast<time_t>(args[0]);
+        time_t t;
+        try
+        {
+            t = boost::lexical_cast<time_t>(args[0]);
+        }
+        catch (std::exception const &x)
+        {
+            ec_->writeOut(std::string("huh? ") + x.what() + "\r\n");
+            return;
+        }
         istat::Env::get<istat::FakeTime>().set(t);
         ec_->writeOut("ok\r\n");
         return;
@@ -442,6 +458,7 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
         }
         ISettingsFactory &sfac = istat::Env::get<ISettingsFactory>();
         sfac.flush_one(args.front(), new GenericComplete(ec_));
+        return;
     }
     if (cmd == "load.setting")
     {
@@ -452,10 +469,13 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
         }
         ISettingsFactory &sfac = istat::Env::get<ISettingsFactory>();
         sfac.reloadSettings(args.front(), new GenericComplete(ec_));
+        return;
     }
     if (cmd == "quit")
     {
         ec_->close();
+        //  the connection will not tell about being disconnected any more
+        ec_->asEagerConnection()->defer(boost::bind(&AdminConnection::destroy, this));
         return;
     }
     ec_->writeOut("huh? ('help' for help) (received '" + cmd + "')\r\n");
-- 
2.43.0


From ba9295a336d00034f28d55cf0e27c7487eed8ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:56 +0000
Subject: [PATCH 26/51] fix: saving settings is atomic, is retried when it
 fails, and keeps all of the values

---
 daemon/Settings.cpp | 151 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 117 insertions(+), 34 deletions(-)

diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 7765c18..5327364 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -42,13 +42,18 @@ public:
     std::map<std::string, std::string> settings_;
     bool saveQueued_;
     bool dirty_;
+    //  the file on disk may have been edited since it was loaded or saved
+    bool stale_;
 
     void match(std::string const &pattern, std::vector<std::string> &oKeys);
     void get(std::string const &key, std::string &oValue, bool &wasSet, std::string const &dflt);
     void set(std::string const &key, std::string const &value);
 
     void queueSave();
-    void save(boost::shared_ptr<ISettings> const &me);
+    void on_saveTimer(boost::shared_ptr<ISettings> const &me);
+    //  returns false (and will try again) if the settings could not be saved
+    bool save(boost::shared_ptr<ISettings> const &me);
+    void writeFile();
 };
 
 
@@ -108,7 +113,15 @@ void RealSettingsFactory::scandir()
             char const *dot = strrchr(dent->d_name, '.');
             if (dot && !strcmp(dot, ".set"))
             {
-                loadSettingsPath(path_ + "/" + dent->d_name, std::string(dent->d_name, dot-dent->d_name));
+                try
+                {
+                    loadSettingsPath(path_ + "/" + dent->d_name, std::string(dent->d_name, dot-dent->d_name));
+                }
+                catch (std::exception const &x)
+                {
+                    //  one bad file is no reason not to start
+                    LogError << "settings: cannot load:" << dent->d_name << ":" << x.what();
+                }
             }
         }
     }
@@ -131,10 +144,10 @@ void RealSettingsFactory::flush(IComplete *complete)
         ptr != end;
         ++ptr)
     {
-        static_cast<RealSettings *>((*ptr).second.get())->save((*ptr).second);
+        //  this allows all settings to be re-loaded if edited
+        RealSettings *rs = static_cast<RealSettings *>((*ptr).second.get());
+        rs->stale_ = rs->save((*ptr).second);
     }
-    //  this allows all settings to be re-loaded if edited
-    files_.clear();
     svc_.post(boost::bind(&IComplete::on_complete, complete));
 }
 
@@ -146,8 +159,8 @@ void RealSettingsFactory::flush_one(std::string const &name, IComplete *complete
     grab aholdof(lock_);
     std::map<std::string, boost::shared_ptr<ISettings> >::iterator ptr(files_.find(name));
     if (ptr != files_.end()) {
-        static_cast<RealSettings *>((*ptr).second.get())->save((*ptr).second);
-        files_.erase(ptr);
+        RealSettings *rs = static_cast<RealSettings *>((*ptr).second.get());
+        rs->stale_ = rs->save((*ptr).second);
     }
     svc_.post(boost::bind(&IComplete::on_complete, complete));
 }
@@ -174,6 +187,42 @@ void RealSettingsFactory::reloadSettings(std::string const &domain, IComplete *c
     svc_.post(boost::bind(&IComplete::on_complete, complete));
 }
 
+//  Quoted whitespace is part of the value.
+static void trimQuoted(std::string &str)
+{
+    size_t first = str.find_first_not_of(" \t\r\n");
+    size_t last = str.find_last_not_of(" \t\r\n");
+    if (first == str.npos)
+    {
+        str.clear();
+        return;
+    }
+    size_t quotes = 0;
+    while (quotes <= last - first && str[last - quotes] == '\\')
+    {
+        ++quotes;
+    }
+    if ((quotes & 1) && last + 1 < str.size())
+    {
+        ++last;
+    }
+    str = str.substr(first, last + 1 - first);
+}
+
+static std::string quoteValue(std::string const &value)
+{
+    std::string ret(istat::sql_quote(value));
+    if (value.size() && value[0] == ' ')
+    {
+        ret = "\\" + ret;
+    }
+    if (value.size() > 1 && value[value.size() - 1] == ' ')
+    {
+        ret.insert(ret.size() - 1, "\\");
+    }
+    return ret;
+}
+
 void RealSettingsFactory::loadSettingsPath(std::string const &path, std::string const &name)
 {
     (debugSettings ? LogDebug : LogSpam) << "RealSettingsFactory::loadSettingsPath(" << path << "," << name << ")";
@@ -218,6 +267,16 @@ void RealSettingsFactory::loadSettingsPath(std::string const &path, std::string
     }
     RealSettings *rs = static_cast<RealSettings *>(set.get());
     grab aholdof(rs->lock_);
+    if (rs->stale_)
+    {
+        rs->stale_ = false;
+        if (rs->dirty_)
+        {
+            //  what's in memory has not been saved yet, and goes first
+            return;
+        }
+        rs->settings_.clear();
+    }
     for (char *cur = base; cur <= end; ++cur)
     {
         if (*cur == '\n')
@@ -230,8 +289,8 @@ void RealSettingsFactory::loadSettingsPath(std::string const &path, std::string
                 if (2 == istat::split(right, '=', left, right))
                 {
                     istat::trim(left);
+                    trimQuoted(right);
                     right = istat::sql_unquote(right);
-                    istat::trim(right);
                     (debugSettings ? LogDebug : LogSpam) << left << "=" << right;
                     rs->settings_[left] = right;
                 }
@@ -249,8 +308,9 @@ void RealSettingsFactory::get(std::string const &domain, boost::shared_ptr<ISett
 {
     (debugSettings ? LogDebug : LogSpam) << "RealSettingsFactory::get( " << domain << " )";
     settings = boost::shared_ptr<ISettings>((ISettings *)0);
+    grab aholdof(lock_);
     std::map<std::string, boost::shared_ptr<ISettings> >::iterator ptr(files_.find(domain));
-    if (ptr != files_.end())
+    if (ptr != files_.end() && !static_cast<RealSettings *>((*ptr).second.get())->stale_)
     {
         settings = (*ptr).second;
     }
@@ -266,7 +326,7 @@ void RealSettingsFactory::open(std::string const &domain, bool allowCreate, boos
         std::string fullPath(path_ + "/" + domain + ".set");
         grab aholdof(lock_);
         std::map<std::string, boost::shared_ptr<ISettings> >::iterator ptr(files_.find(domain));
-        if (ptr != files_.end())
+        if (ptr != files_.end() && !static_cast<RealSettings *>((*ptr).second.get())->stale_)
         {
             settings = (*ptr).second;
         }
@@ -309,7 +369,9 @@ RealSettings::RealSettings(RealSettingsFactory *rsf, std::string const &name) :
     fac_(rsf),
     name_(name),
     saveTimer_(rsf->svc_),
-    saveQueued_(false)
+    saveQueued_(false),
+    dirty_(false),
+    stale_(false)
 {
     LogSpam << "RealSettings::RealSettings(" << name << ")";
 }
@@ -379,41 +441,36 @@ void RealSettings::queueSave()
         saveQueued_ = true;
         //  possibly aggregate multiple updates into a single write
         saveTimer_.expires_from_now(boost::posix_time::seconds(10));
-        saveTimer_.async_wait(boost::bind(&RealSettings::save, this, shared_from_this()));
+        saveTimer_.async_wait(boost::bind(&RealSettings::on_saveTimer, this, shared_from_this()));
+    }
+}
+
+void RealSettings::on_saveTimer(boost::shared_ptr<ISettings> const &me)
+{
+    {
+        grab aholdof(lock_);
+        saveQueued_ = false;
     }
+    save(me);
 }
 
-void RealSettings::save(boost::shared_ptr<ISettings> const &me)
+bool RealSettings::save(boost::shared_ptr<ISettings> const &me)
 {
     (debugSettings ? LogDebug : LogSpam) << "RealSettings::save(" << name_ << ")";
     grab aholdof(lock_);
     if (dirty_) {
         //  Only re-write if dirty. This allows a settings file to be edited on disk and re-loaded
         //  with a flush on the admin interface.
-        std::string tmpName;
-        std::string fileName;
-        fileName = fac_->path_ + "/" + name_ + ".set";
-        tmpName = fileName + ".tmp";
+        try
         {
-            std::ofstream ostr(tmpName.c_str(), std::ios::binary | std::ios::out | std::ios::trunc);
-            ostr << "# istatd settings 1" << std::endl;
-            for (std::map<std::string, std::string>::iterator ptr(settings_.begin()), end(settings_.end());
-                ptr != end; ++ptr)
-            {
-                if ((*ptr).second.size())
-                {
-                    //  empty string values are not saved -- same as "delete"
-                    ostr << (*ptr).first << "=" << istat::sql_quote((*ptr).second) << std::endl;
-                }
-            }
+            writeFile();
         }
-        //  Now, move the new file in place of the old.
-        //  First, remove the old file, to generate an error if we don't have permission.
-        if (boost::filesystem::exists(fileName))
+        catch (std::exception const &x)
         {
-            boost::filesystem::remove(fileName);
+            LogError << "settings: cannot save:" << name_ << ":" << x.what();
+            queueSave();
+            return false;
         }
-        boost::filesystem::rename(tmpName, fileName);
     }
     else
     {
@@ -422,9 +479,35 @@ void RealSettings::save(boost::shared_ptr<ISettings> const &me)
             LogDebug << "settings not dirty";
         }
     }
-    saveQueued_ = false;
     dirty_ = false;
     ++countSaves;
+    return true;
+}
+
+void RealSettings::writeFile()
+{
+    std::string fileName = fac_->path_ + "/" + name_ + ".set";
+    std::string tmpName = fileName + ".tmp";
+    {
+        std::ofstream ostr(tmpName.c_str(), std::ios::binary | std::ios::out | std::ios::trunc);
+        ostr << "# istatd settings 1" << std::endl;
+        for (std::map<std::string, std::string>::iterator ptr(settings_.begin()), end(settings_.end());
+            ptr != end; ++ptr)
+        {
+            if ((*ptr).second.size())
+            {
+                //  empty string values are not saved -- same as "delete"
+                ostr << (*ptr).first << "=" << quoteValue((*ptr).second) << std::endl;
+            }
+        }
+        ostr.close();
+        if (!ostr)
+        {
+            throw std::runtime_error("cannot write file: " + tmpName);
+        }
+    }
+    //  Now, move the new file in place of the old. There is no time at which there is no file.
+    boost::filesystem::rename(tmpName, fileName);
 }
 
 
-- 
2.43.0


From d2591ecefda99838d2f45547baf1192fc895139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:52 +0000
Subject: [PATCH 27/51] fix: deleting counters neither uses freed memory nor
 loses the next samples

The counters that count events were shifted to files that were gone when
they were closed. A new counter of the name could open the files that
were about to be removed. The answer to a deletion did not wait for it,
so that samples sent after it could still get lost.
---
 daemon/StatCounter.cpp |   3 +-
 daemon/StatStore.cpp   | 127 ++++++++++++++++++++++++++++++++---------
 daemon/StatStore.h     |  17 +++++-
 3 files changed, 119 insertions(+), 28 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 19d5123..23250db 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -495,7 +495,8 @@ void StatCounter::purge(std::string rootPath)
             }
         }
     }
-    counters_.clear();
+    //  The files stay open for those who still use this counter. What is recorded
+    //  until the counter is closed goes to the backup.
 
     std::pair<bool, std::string> op_status = wrap_remove(parentPath);
 
diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index a9c4508..77ab4ac 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -141,9 +141,9 @@ void StatStore::record(std::string const &ctr, time_t time, double value, double
             ++IStatCounter::enqueueRecords_;
             ++IStatCounter::queueLenRecords_;
 #if BOOST_VERSION >= 106700
-            svc_.post(boost::asio::bind_executor(asyncCounter->strand_, boost::bind(&IStatCounter::record, asyncCounter->statCounter_, time, value, valueSq, min, max, cnt)));
+            svc_.post(boost::asio::bind_executor(asyncCounter->strand_, boost::bind(&IStatCounter::record, asyncCounter->counter(), time, value, valueSq, min, max, cnt)));
 #else
-            svc_.post(asyncCounter->strand_.wrap(boost::bind(&IStatCounter::record, asyncCounter->statCounter_, time, value, valueSq, min, max, cnt)));
+            svc_.post(asyncCounter->strand_.wrap(boost::bind(&IStatCounter::record, asyncCounter->counter(), time, value, valueSq, min, max, cnt)));
 #endif
         }
         if (!stripext(cname))
@@ -153,6 +153,17 @@ void StatStore::record(std::string const &ctr, time_t time, double value, double
     }
 }
 
+struct FoundCounter
+{
+    FoundCounter(boost::shared_ptr<StatStore::AsyncCounter> const &asyncCounter) :
+        asyncCounter_(asyncCounter),
+        counter_(asyncCounter->counter())
+    {
+    }
+    boost::shared_ptr<StatStore::AsyncCounter> asyncCounter_;
+    boost::shared_ptr<IStatCounter> counter_;
+};
+
 #if BOOST_VERSION >= 106700
 void StatStore::find(std::string const &ctr, boost::shared_ptr<IStatCounter> &statCounter, boost::asio::strand<boost::asio::io_service::executor_type> * &strand)
 #else
@@ -160,13 +171,15 @@ void StatStore::find(std::string const &ctr, boost::shared_ptr<IStatCounter> &st
 #endif
 {
     boost::shared_ptr<StatStore::AsyncCounter> asyncCounter = openCounter(ctr);
-    if (!asyncCounter) {
+    if (!asyncCounter || asyncCounter->isRemoved()) {
         statCounter = boost::shared_ptr<IStatCounter>((IStatCounter*)0);
         return;
     }
-    statCounter = asyncCounter->statCounter_;
+    //  The counter may be deleted while it is being used. The strand has to
+    //  stay for as long as the user of the counter has the counter.
+    boost::shared_ptr<FoundCounter> found = boost::make_shared<FoundCounter>(asyncCounter);
+    statCounter = boost::shared_ptr<IStatCounter>(found, found->counter_.get());
     strand = &asyncCounter->strand_;
-
 }
 
 //  this takes the name un-munged
@@ -240,7 +253,7 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
         counters[xform] = asyncCounter;
         //  map() notes the size of the shard, which decides how often counters are flushed
         counterShards_.map(xform);
-        keys_.add(xform, asyncCounter->statCounter_->isCollated());
+        keys_.add(xform, statCounter->isCollated());
     }
 
     if(recursivelyCreateCounters_ && create)
@@ -251,7 +264,7 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
         if (sex != name)
         {
             //  counters that are loaded come without the mark of a counter of events
-            if (name[0] != '*' && asyncCounter->statCounter_->isCollated())
+            if (name[0] != '*' && asyncCounter->counter()->isCollated())
             {
                 sex = "*" + sex;
             }
@@ -273,9 +286,9 @@ void StatStore::flushOne(Shards::iterator &iterator)
     }
     LogSpam << "StatStore::flushOne(" << key << ")";
 #if BOOST_VERSION >= 106700
-    svc_.post(boost::asio::bind_executor(value->strand_, boost::bind(&IStatCounter::flush, value->statCounter_, shared_from_this())));
+    svc_.post(boost::asio::bind_executor(value->strand_, boost::bind(&IStatCounter::flush, value->counter(), shared_from_this())));
 #else
-    svc_.post(value->strand_.wrap(boost::bind(&IStatCounter::flush, value->statCounter_, shared_from_this())));
+    svc_.post(value->strand_.wrap(boost::bind(&IStatCounter::flush, value->counter(), shared_from_this())));
 #endif
 }
 
@@ -491,10 +504,43 @@ public:
 };
 static boost::shared_ptr<DeletedCounter> theDeletedCounter = boost::make_shared<DeletedCounter>();
 
+boost::shared_ptr<IStatCounter> StatStore::AsyncCounter::counter()
+{
+    grab aholdof(lock_);
+    return statCounter_;
+}
+
+boost::shared_ptr<IStatCounter> StatStore::AsyncCounter::remove()
+{
+    grab aholdof(lock_);
+    boost::shared_ptr<IStatCounter> ret(theDeletedCounter);
+    ret.swap(statCounter_);
+    return ret;
+}
+
+bool StatStore::AsyncCounter::isRemoved()
+{
+    grab aholdof(lock_);
+    return statCounter_ == theDeletedCounter;
+}
+
+void StatStore::AsyncCounter::setPurged()
+{
+    grab aholdof(lock_);
+    isPurged_ = true;
+}
+
+bool StatStore::AsyncCounter::isPurged()
+{
+    grab aholdof(lock_);
+    return isPurged_;
+}
+
 class Deleter
 {
 public:
-    Deleter(boost::shared_ptr<IStatStore> const &ss, std::string rootPath) : ss_(ss), rootPath_(rootPath), rootCtrPath_("") {}
+    Deleter(boost::shared_ptr<StatStore> const &ss, std::string rootPath, IComplete *complete) :
+        ss_(ss), complete_(complete), rootPath_(rootPath), rootCtrPath_("") {}
 
     struct Work
     {
@@ -509,7 +555,7 @@ public:
         {
             LogSpam << "Deletion batch done";
             ss_->pruneEmptyDirsNow(rootPath_ + "/" + istat::counter_filename(rootCtrPath_));
-            ss_->refreshKeys();
+            ss_->refreshKeys(complete_);
             delete this;
             return;
         }
@@ -525,8 +571,20 @@ public:
     {
         Deleter::Work work(toDelete.front());
         toDelete.pop_front();
-        //counter purging needs to know the stores root path to properly relocate counters for backup
-        work.counter->purge(rootPath_);
+        if (work.counter != theDeletedCounter)
+        {
+            try
+            {
+                //counter purging needs to know the stores root path to properly relocate counters for backup
+                work.counter->purge(rootPath_);
+            }
+            catch (std::exception const &x)
+            {
+                //  there may be more counters to delete
+                LogError << "Exception deleting" << work.ctr << ":" << x.what();
+            }
+            work.aCount->setPurged();
+        }
         go();
     }
 
@@ -542,15 +600,17 @@ public:
     }
 
 private:
-    boost::shared_ptr<IStatStore> ss_;
+    boost::shared_ptr<StatStore> ss_;
+    IComplete *complete_;
     std::string rootPath_;
     std::list<Deleter::Work> toDelete;
     std::string rootCtrPath_;
 };
 void StatStore::deleteCounter(std::string const &ctr, IComplete *complete)
 {
-    Deleter *deleter = new Deleter(IStatStore::shared_from_this(), factory_->rootPath());
-    deleteCounter(ctr, deleter, complete);
+    //  the deletion is complete when the files and the key are gone
+    Deleter *deleter = new Deleter(boost::static_pointer_cast<StatStore>(shared_from_this()), factory_->rootPath(), complete);
+    deleteCounter(ctr, deleter, (IComplete*)0);
     deleter->go();
 }
 
@@ -559,8 +619,7 @@ void StatStore::deleteCounter(std::string const &ctr, Deleter* deleter, IComplet
     boost::shared_ptr<StatStore::AsyncCounter> aCount = openCounter(ctr, false, false, 0);
     if (!!aCount)
     {
-        boost::shared_ptr<IStatCounter> oldPtr = aCount->statCounter_;
-        aCount->statCounter_ = theDeletedCounter;
+        boost::shared_ptr<IStatCounter> oldPtr = aCount->remove();
         Deleter::Work w;
         w.aCount = aCount;
         w.counter = oldPtr;
@@ -581,16 +640,12 @@ void StatStore::deletePattern(std::string const &pattern, IComplete *complete)
     std::list<std::pair<std::string, CounterResponse> > results;
     listMatchingCounters(pattern, results);
 
-    Deleter *deleter = new Deleter(IStatStore::shared_from_this(), factory_->rootPath());
+    Deleter *deleter = new Deleter(boost::static_pointer_cast<StatStore>(shared_from_this()), factory_->rootPath(), complete);
     for (std::list<std::pair<std::string, CounterResponse> >::iterator ptr(results.begin()), end(results.end()); ptr != end; ptr++)
     {
         deleteCounter((*ptr).first, deleter, (IComplete*)0);
     }
     deleter->go();
-    if(complete)
-    {
-        svc_.post(CallComplete(complete));
-    }
 }
 
 void StatStore::refreshKeys()
@@ -599,6 +654,20 @@ void StatStore::refreshKeys()
     scheduleRefresh();
 }
 
+void StatStore::refreshKeys(IComplete *complete)
+{
+    refreshKeys();
+    if (complete)
+    {
+        //  after those that are queued
+#if BOOST_VERSION >= 106700
+        svc_.post(boost::asio::bind_executor(refreshStrand_, CallComplete(complete)));
+#else
+        svc_.post(refreshStrand_.wrap(CallComplete(complete)));
+#endif
+    }
+}
+
 void StatStore::refreshAllKeys()
 {
     std::string key;
@@ -620,9 +689,15 @@ void StatStore::refreshAllKeys()
         {
             key = (*it).first;
             value = (*it).second;
-            if(!(value->statCounter_ == theDeletedCounter))
+            boost::shared_ptr<IStatCounter> counter(value->counter());
+            if(!(counter == theDeletedCounter))
+            {
+                keys_.keep(key, counter->isCollated());
+                ++it;
+            }
+            else if(!value->isPurged())
             {
-                keys_.keep(key, value->statCounter_->isCollated());
+                //  a new counter of the name must not open the files that are going away
                 ++it;
             }
             else
@@ -681,7 +756,7 @@ public:
         boost::shared_ptr<StatStore::AsyncCounter> ptr(ptrs.front());
         ptrs.pop_front();
         // Force, so collations are fully shifted.
-        ptr->statCounter_->forceFlush(ss_);
+        ptr->counter()->forceFlush(ss_);
         go();
     }
     boost::shared_ptr<IStatStore> ss_;
diff --git a/daemon/StatStore.h b/daemon/StatStore.h
index 6f8017d..ce3c78e 100644
--- a/daemon/StatStore.h
+++ b/daemon/StatStore.h
@@ -66,19 +66,34 @@ public:
     virtual void pruneEmptyDirsNow(const std::string &purgePath);
 
     void refreshKeys();
+    //  tell when the keys have been refreshed
+    void refreshKeys(IComplete *complete);
 
     struct AsyncCounter
     {
         AsyncCounter(boost::asio::io_service &svc,
                      boost::shared_ptr<IStatCounter> statCounter)
-            : statCounter_(statCounter),
+            : isPurged_(false),
+            statCounter_(statCounter),
 #if BOOST_VERSION >= 106700
             strand_(svc.get_executor()) {
 #else
             strand_(svc) {
 #endif
         }
+        boost::shared_ptr<IStatCounter> counter();
+        //  from now on, there is no counter. Returns the previous counter.
+        boost::shared_ptr<IStatCounter> remove();
+        bool isRemoved();
+        //  The name may be used for a new counter when the files of the
+        //  previous counter are out of the way.
+        void setPurged();
+        bool isPurged();
+    private:
+        ::lock lock_;
+        bool isPurged_;
         boost::shared_ptr<IStatCounter> statCounter_;
+    public:
 #if BOOST_VERSION >= 106700
         boost::asio::strand<boost::asio::io_service::executor_type> strand_;
 #else
-- 
2.43.0


From 92f5d1415f8c9ed29d46a010b623cd5cff6954c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:56 +0000
Subject: [PATCH 28/51] fix: pruning empty directories does not race with new
 counters, stop or remove the store

---
 daemon/StatCounter.cpp | 21 ++++++++++++++++++++-
 daemon/StatCounter.h   |  7 +++++++
 daemon/StatStore.cpp   | 41 +++++++++++++++++++++--------------------
 3 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 23250db..13e9b47 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -1,4 +1,7 @@
 #include <iostream>
+#include <errno.h>
+#include <string.h>
+#include <unistd.h>
 #include <algorithm>
 #include <istat/istattime.h>
 #include <boost/foreach.hpp>
@@ -88,6 +91,7 @@ StatCounter::StatCounter(std::string const &pathName, bool isCollated, time_t ze
         set.flags |= istat::FILE_FLAG_IS_COLLATED;
     }
 
+    boost::shared_lock<boost::shared_mutex> dirLock(dirMutex_);
     if(!boost::filesystem::exists(pathName))
     {
         LogNotice << "Creating new StatCounter:" << pathName;
@@ -128,6 +132,9 @@ StatCounter::StatCounter(std::string const &pathName, bool isCollated, time_t ze
         counters_.push_back(oc);
         if(i == 0)
         {
+            // From now on, the directory is not empty.
+            dirLock.unlock();
+
             // Remember the first bucket's interval.
             collationInterval_ = oc.file->settings().intervalTime;
 
@@ -498,7 +505,7 @@ void StatCounter::purge(std::string rootPath)
     //  The files stay open for those who still use this counter. What is recorded
     //  until the counter is closed goes to the backup.
 
-    std::pair<bool, std::string> op_status = wrap_remove(parentPath);
+    std::pair<bool, std::string> op_status = removeEmptyDir(parentPath);
 
     if(boost::filesystem::exists(parentPath))
     {
@@ -522,6 +529,18 @@ std::pair<bool, std::string> StatCounter::wrap_remove(const boost::filesystem::p
     return std::pair<bool, std::string>(true, "");
 }
 
+boost::shared_mutex StatCounter::dirMutex_;
+
+std::pair<bool, std::string> StatCounter::removeEmptyDir(const boost::filesystem::path& p)
+{
+    boost::unique_lock<boost::shared_mutex> dirLock(dirMutex_);
+    if (::rmdir(p.string().c_str()) < 0)
+    {
+        return std::pair<bool, std::string>(false, strerror(errno));
+    }
+    return std::pair<bool, std::string>(true, "");
+}
+
 std::pair<bool, std::string> StatCounter::wrap_copy_file(const boost::filesystem::path& from, const boost::filesystem::path& to)
 {
     try
diff --git a/daemon/StatCounter.h b/daemon/StatCounter.h
index 1e94363..2970b81 100644
--- a/daemon/StatCounter.h
+++ b/daemon/StatCounter.h
@@ -11,6 +11,7 @@
 
 #include <boost/noncopyable.hpp>
 #include <boost/shared_ptr.hpp>
+#include <boost/thread/shared_mutex.hpp>
 #include <boost/asio/strand.hpp>
 #include <boost/filesystem.hpp>
 #include <boost/filesystem/operations.hpp>
@@ -40,9 +41,15 @@ public:
     boost::shared_ptr<istat::StatFile> pickTrailingStatFile(time_t season, time_t &o_interval, time_t &o_season);
     virtual void normalizeRange(time_t &start, time_t &end, time_t &interval, size_t maxSamples);
     
+    //  Remove a directory if it is empty, and if no counter is about to put its
+    //  files there.
+    static std::pair<bool, std::string> removeEmptyDir(const boost::filesystem::path& p);
+
     friend void run_tests(void);
 
 private:
+    //  shared by those who create directories and the first file in them
+    static boost::shared_mutex dirMutex_;
     struct OneCounter
     {
         std::string suffix;
diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 77ab4ac..6ff72e6 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -344,37 +344,38 @@ void StatStore::pruneEmptyDirs(const std::string& purgePath)
 {
     LogSpam << "StatStore::pruneEmptyDirs(" << purgePath << ")";
     grab aholdof(pruneEmptyDirsMutex_);
-    boost::filesystem::directory_iterator it(purgePath);
+    boost::system::error_code ec;
+    boost::filesystem::directory_iterator it(purgePath, ec);
     boost::filesystem::directory_iterator end = boost::filesystem::directory_iterator();
+    if (ec)
+    {
+        LogNotice << "Could not look for empty directories in" << purgePath << ":" << ec.message();
+        return;
+    }
 
     while(it != end)
     {
-        const boost::filesystem::path& path = it->path();
-
-        if (boost::filesystem::is_directory(path))
+        const boost::filesystem::path path = it->path();
+        it.increment(ec);
+        if (ec)
         {
-            const boost::filesystem::path del = path;
-            ++it;
-
-            pruneEmptyDirs(del.string());
+            it = end;
         }
-        else
+
+        if (boost::filesystem::is_directory(path, ec))
         {
-            ++it;
+            pruneEmptyDirs(path.string());
         }
     }
-    if (boost::filesystem::is_directory(purgePath) && boost::filesystem::is_empty(purgePath))
+    //  the store itself stays
+    if (boost::filesystem::is_directory(purgePath, ec) && boost::filesystem::is_empty(purgePath, ec) && !ec &&
+        !boost::filesystem::equivalent(purgePath, factory_->rootPath(), ec) && !ec)
     {
-        const boost::filesystem::path del = purgePath;
-
-        try
-        {
-            LogNotice << "Pruning an empty directory: " << del;
-            boost::filesystem::remove(del);
-        }
-        catch (const boost::filesystem::filesystem_error & ex)
+        LogNotice << "Pruning an empty directory: " << purgePath;
+        std::pair<bool, std::string> status = StatCounter::removeEmptyDir(purgePath);
+        if (!status.first)
         {
-            LogWarning << "Couldnt delete empty directory " << del << " because " << ex.what();
+            LogWarning << "Couldnt delete empty directory " << purgePath << " because " << status.second;
         }
     }
 }
-- 
2.43.0


From ff8e883048e3c398d9be8478daa11557fc004b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:15 +0000
Subject: [PATCH 29/51] fix: failing disk operations do not corrupt counters,
 and flushing goes on after them

A page that could not be read was made up of uninitialized memory, and
was written to the file later. A file whose header could not be read was
truncated. A page that could not be written was forgotten. A flush with
an error was never answered, and the other counters were not flushed.
Events could be counted twice when a coarser file failed.
---
 daemon/StatCounter.cpp   | 49 +++++++++++++++++++---
 daemon/StatCounter.h     |  1 +
 daemon/StatStore.cpp     | 27 ++++++++++--
 include/istat/StatFile.h |  1 +
 lib/Mmap.cpp             | 78 ++++++++++++++++++++++++++++------
 lib/StatFile.cpp         | 91 ++++++++++++++++++++++++----------------
 6 files changed, 190 insertions(+), 57 deletions(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 13e9b47..4368029 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -68,10 +68,13 @@ StatCounter::CollationInfo StatCounter::startCollation(time_t t)
 
 void StatCounter::startCollationWindow(time_t newest)
 {
+    CollationInfo window[BUCKETS_PER_COLLATION_WINDOW];
     for(size_t i = 0; i != BUCKETS_PER_COLLATION_WINDOW; ++i)
     {
-        collations_[(BUCKETS_PER_COLLATION_WINDOW - 1) - i] = startCollation(newest - (i * collationInterval_));
+        window[(BUCKETS_PER_COLLATION_WINDOW - 1) - i] = startCollation(newest - (i * collationInterval_));
     }
+    // (If that failed, the window is still the previous window.)
+    std::copy(&window[0], &window[BUCKETS_PER_COLLATION_WINDOW], &collations_[0]);
 }
 
 time_t StatCounter::lastFromPastLog_ = 0;
@@ -166,6 +169,18 @@ StatCounter::StatCounter(boost::shared_ptr<istat::StatFile> file, time_t interva
 StatCounter::~StatCounter()
 {
     ++countersClosed_;
+    try
+    {
+        shiftBeforeClose();
+    }
+    catch (std::exception const &x)
+    {
+        LogError << "Exception closing a counter:" << x.what();
+    }
+}
+
+void StatCounter::shiftBeforeClose()
+{
     if(isCollated_)
     {
         time_t t = istat::istattime(0);
@@ -397,6 +412,8 @@ bool StatCounter::shiftCollated(time_t t)
             istat::Bucket &bucket(collations_[i].bucket);
             counters_.begin()->file->updateBucket(bucket);
         }
+        // (If that failed, nothing has changed, and the next shift tries again.)
+        CollationInfo newTop(startCollation(collations_[BUCKETS_PER_COLLATION_WINDOW - 1].time + collationInterval_));
         // Aggregate oldest bucket into coarser statfiles, less what they already have.
         istat::Bucket oldest(collations_[0].bucket);
         istat::Bucket const &stored(collations_[0].stored);
@@ -413,7 +430,15 @@ bool StatCounter::shiftCollated(time_t t)
         {
             if(ptr != counters_.begin())
             {
-                ptr->file->updateBucket(oldest);
+                try
+                {
+                    ptr->file->updateBucket(oldest);
+                }
+                catch (std::exception const &x)
+                {
+                    // The other files must not get the events again.
+                    LogError << "Exception shifting events:" << x.what();
+                }
             }
         }
         // Shift collations by one interval.
@@ -422,9 +447,7 @@ bool StatCounter::shiftCollated(time_t t)
             collations_[i] = collations_[i + 1];
         }
         // Start a fresh collation entry on top.
-        CollationInfo &top(collations_[BUCKETS_PER_COLLATION_WINDOW - 1]);
-        CollationInfo &oldTop(collations_[BUCKETS_PER_COLLATION_WINDOW - 2]);
-        top = startCollation(oldTop.time + collationInterval_);
+        collations_[BUCKETS_PER_COLLATION_WINDOW - 1] = newTop;
         return true;
     }
 }
@@ -558,6 +581,7 @@ std::pair<bool, std::string> StatCounter::wrap_copy_file(const boost::filesystem
 void StatCounter::flush(boost::shared_ptr<IStatStore> const &store)
 {
     LogSpam << "StatCounter::flush()";
+    std::string failed;
     if(isCollated_)
     {
         maybeShiftCollated(istat::istattime(0) + (collationInterval_ * (BUCKETS_PER_COLLATION_WINDOW / 2)));
@@ -568,10 +592,23 @@ void StatCounter::flush(boost::shared_ptr<IStatStore> const &store)
         ptr != end;
         ++ptr)
     {
-        ptr->file->flush();
+        try
+        {
+            ptr->file->flush();
+        }
+        catch (std::exception const &x)
+        {
+            //  there may be more luck with the other files
+            failed = x.what();
+            continue;
+        }
         store->iterateSignal(ptr->file->header());
         ++countersFlushed_;
     }
+    if(!failed.empty())
+    {
+        throw std::runtime_error(failed);
+    }
 }
 
 void StatCounter::forceFlush(boost::shared_ptr<IStatStore> const &store)
diff --git a/daemon/StatCounter.h b/daemon/StatCounter.h
index 2970b81..8578816 100644
--- a/daemon/StatCounter.h
+++ b/daemon/StatCounter.h
@@ -85,6 +85,7 @@ private:
     void reduce(std::vector<istat::Bucket> &buckets, time_t startTime, time_t endTime, time_t interval, int collatedBucketSize);
     bool shiftCollated(time_t t);
     void fullyShiftCollated();
+    void shiftBeforeClose();
     std::pair<bool, std::string> wrap_remove(const boost::filesystem::path& p);
     std::pair<bool, std::string> wrap_copy_file(const boost::filesystem::path& from, const boost::filesystem::path& to);
     std::string getSampleStatFilePath();
diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 6ff72e6..599d334 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -25,6 +25,8 @@ using namespace istat;
 #define FLUSH_INTERVAL_MS 300000
 //  Don't wait more than this to flush at least one counter (if there are few counters)
 #define FLUSH_INTERVAL_MS_MAX 3000
+//  If a counter could not be flushed on request, try again after this time
+#define FLUSH_RETRY_MS 1000
 // The second key refresh queued will catch all changes made so there is no need to queue any more.
 #define MAX_QUEUED_KEY_REFRESHES 2
 
@@ -735,9 +737,18 @@ void StatStore::scheduleRefresh()
 class Flusher
 {
 public:
-    Flusher(boost::shared_ptr<IStatStore> const &ss, IComplete *cmp) : ss_(ss), cmp_(cmp) {}
+    Flusher(boost::shared_ptr<IStatStore> const &ss, boost::asio::io_service &svc, IComplete *cmp) :
+        ss_(ss), cmp_(cmp), retryTimer_(svc) {}
     void go()
     {
+        if (!ptrs.size() && failed_.size())
+        {
+            //  It is not complete before everything is written.
+            ptrs.swap(failed_);
+            retryTimer_.expires_from_now(boost::posix_time::milliseconds(FLUSH_RETRY_MS));
+            retryTimer_.async_wait(boost::bind(&Flusher::go, this));
+            return;
+        }
         if (!ptrs.size())
         {
             LogDebug << "all flush complete";
@@ -757,11 +768,21 @@ public:
         boost::shared_ptr<StatStore::AsyncCounter> ptr(ptrs.front());
         ptrs.pop_front();
         // Force, so collations are fully shifted.
-        ptr->counter()->forceFlush(ss_);
+        try
+        {
+            ptr->counter()->forceFlush(ss_);
+        }
+        catch (std::exception const &x)
+        {
+            LogError << "Exception flushing a counter:" << x.what();
+            failed_.push_back(ptr);
+        }
         go();
     }
     boost::shared_ptr<IStatStore> ss_;
     IComplete *cmp_;
+    boost::asio::deadline_timer retryTimer_;
+    std::list<boost::shared_ptr<StatStore::AsyncCounter> > failed_;
     std::list<boost::shared_ptr<StatStore::AsyncCounter> > ptrs;
 };
 
@@ -773,7 +794,7 @@ void StatStore::flushAll(IComplete *cmp)
     CounterMap::mapped_type data;
     //  Each one needs to be flushed on its own strand.
     //  Do this serially, and then return to the caller.
-    Flusher *f = new Flusher(IStatStore::shared_from_this(), cmp);
+    Flusher *f = new Flusher(IStatStore::shared_from_this(), svc_, cmp);
     while (ptr.move_next(key, data))
     {
         LogSpam << "Scheduling flush for" << key;
diff --git a/include/istat/StatFile.h b/include/istat/StatFile.h
index ad33709..6f757cc 100644
--- a/include/istat/StatFile.h
+++ b/include/istat/StatFile.h
@@ -100,6 +100,7 @@ namespace istat
 
         void closefd();
         void open(std::string const &path, Settings const *init, bool forUpdate, bool forceCreate);
+        void openHeader(std::string const &path, Settings const *init, bool forUpdate, bool forceCreate);
         bool hasHeader() const;
         void writeNewHeader(Settings const &init, std::string const &path);
         void refreshHeader(Header &hdr);
diff --git a/lib/Mmap.cpp b/lib/Mmap.cpp
index 0ed8744..e176a73 100644
--- a/lib/Mmap.cpp
+++ b/lib/Mmap.cpp
@@ -32,6 +32,7 @@ namespace istat
         int64_t offset;
         size_t size;
         int fd;
+        bool writable;
     };
 
     class MmapImpl : public Mmap
@@ -42,7 +43,8 @@ namespace istat
             nUnmaps_(0),
             nOpens_(0),
             nCloses_(0),
-            hint_(0)
+            hint_(0),
+            allocationStrategy_(allocateAll)
         {
         }
         int64_t nMaps_;
@@ -95,7 +97,12 @@ namespace istat
             {
                 if (allocationStrategy_ == allocateAll)
                 {
-                    ret = ::posix_fallocate(i, 0, size);
+                    int err = ::posix_fallocate(i, 0, size);
+                    if (err != 0 && err != EINVAL && err != EOPNOTSUPP)
+                    {
+                        errno = err;
+                        ret = -1;
+                    }
                 }
             }
             return ret;
@@ -117,11 +124,36 @@ namespace istat
 #if BLOCKING
             verify(fd);
             MmapInfo *ptr = (MmapInfo *)malloc(sizeof(MmapInfo) + size);
+            if (!ptr)
+            {
+                return 0;
+            }
             ptr->offset = offset;
             ptr->size = size;
             ptr->fd = fd;
-            this->seek(fd, offset, SEEK_SET);
-            this->read(fd, ptr + 1, size);
+            ptr->writable = writable;
+            size_t done = 0;
+            if (this->seek(fd, offset, SEEK_SET) >= 0)
+            {
+                ssize_t r = 0;
+                while (done < size && (r = this->read(fd, (char *)(ptr + 1) + done, size - done)) > 0)
+                {
+                    done += r;
+                }
+                if (r == 0)
+                {
+                    //  there is nothing past the end of the file
+                    memset((char *)(ptr + 1) + done, 0, size - done);
+                    done = size;
+                }
+            }
+            if (done < size)
+            {
+                int err = errno;
+                free(ptr);
+                errno = err;
+                return 0;
+            }
             __sync_add_and_fetch(&nMaps_, (int64_t)1);
             return ptr + 1;
 #else
@@ -141,13 +173,39 @@ namespace istat
             return (ptr == MAP_FAILED) ? 0 : ptr;
 #endif
         }
+#if BLOCKING
+        bool writeBack(MmapInfo *mmi)
+        {
+            verify(mmi->fd);
+            if (!mmi->writable)
+            {
+                return true;
+            }
+            if (this->seek(mmi->fd, mmi->offset, SEEK_SET) < 0)
+            {
+                return false;
+            }
+            for (size_t done = 0; done < mmi->size;)
+            {
+                ssize_t w = this->write(mmi->fd, (char *)(mmi + 1) + done, mmi->size - done);
+                if (w <= 0)
+                {
+                    return false;
+                }
+                done += w;
+            }
+            return true;
+        }
+#endif
+        //  If the data can not be written, it stays mapped.
         virtual bool unmap(void const *ptr, size_t size)
         {
 #if BLOCKING
             MmapInfo *mmi = (MmapInfo *)ptr - 1;
-            verify(mmi->fd);
-            this->seek(mmi->fd, mmi->offset, SEEK_SET);
-            this->write(mmi->fd, mmi + 1, mmi->size);
+            if (!writeBack(mmi))
+            {
+                return false;
+            }
             free(mmi);
             __sync_add_and_fetch(&nUnmaps_, (int64_t)1);
             return true;
@@ -163,11 +221,7 @@ namespace istat
         virtual bool flush(void const *ptr, size_t size, bool immediate)
         {
 #if BLOCKING
-            MmapInfo *mmi = (MmapInfo *)ptr - 1;
-            verify(mmi->fd);
-            this->seek(mmi->fd, mmi->offset, SEEK_SET);
-            this->write(mmi->fd, mmi + 1, mmi->size);
-            return true;
+            return writeBack((MmapInfo *)ptr - 1);
 #else
             // int flags = (immediate ? MS_SYNC : MS_ASYNC);
             int res = msync(const_cast<void *>(ptr), size, MS_SYNC);
diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index ea221f5..aa30feb 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -113,6 +113,32 @@ namespace istat
             throw std::runtime_error(std::string("Could not open: ") + path +
                 ": " + strerror(errno));
         }
+        try
+        {
+            openHeader(path, init, forUpdate, forceCreate);
+        }
+        catch (...)
+        {
+            closefd();
+            throw;
+        }
+        Header &hdr = *fileHeader_;
+        bucketsPerPage_ = hdr.page_size / sizeof(Bucket);
+        bucketCount_ = hdr.page_count * bucketsPerPage_;
+        settings_.intervalTime = fileHeader_->cfg_interval;
+        settings_.numSamples = bucketCount_;
+        strncpy(settings_.unit, fileHeader_->unit, sizeof(settings_.unit));
+        settings_.unit[sizeof(settings_.unit)-1] = 0;
+        settings_.flags = fileHeader_->flags;
+        settings_.lambda = fileHeader_->lambda;
+        settings_.season = fileHeader_->season;
+        settings_.fixed_count = fileHeader_->fixed_count;
+        strncpy(fileHeader_->name, path.c_str(), sizeof(fileHeader_->name) - 1);
+        fileHeader_->name[sizeof(fileHeader_->name)-1] = 0;
+    }
+
+    void StatFile::openHeader(std::string const &path, Settings const *init, bool forUpdate, bool forceCreate)
+    {
         ptrdiff_t off = mm_->seek(fd_, 0, 2);
         if ((off == 0 || forceCreate || !hasHeader()) && (init != 0))
         {
@@ -122,42 +148,23 @@ namespace istat
         fileHeader_ = (Header *)mm_->map(fd_, 0, sizeof(Header), forUpdate || forceCreate);
         if (!fileHeader_)
         {
-            closefd();
             throw std::runtime_error(std::string("Could not map header: ") + path);
         }
-        size_t wantFileSize = fileHeader_->page_size * (fileHeader_->page_count + 1);
-        if (0 < wantFileSize - off)
-        {
-            Log(LL_Warning, "istat") << "File" << path << "is too short; extending from"
-                << off << "to" << wantFileSize;
-            int r = mm_->truncate(fd_, wantFileSize);
-            if (r < 0)
-            {
-                closefd();
-                throw std::runtime_error(std::string("Could not extend ") + path + " to "
-                    + boost::lexical_cast<std::string>(wantFileSize) + " bytes");
-            }
-            off = mm_->seek(fd_, 0, 2);
-        }
         Header &hdr = *(Header *)fileHeader_;
         if (memcmp(file_magic, hdr.magic, sizeof(file_magic)))
         {
-            closefd();
             throw std::runtime_error(std::string("Not an istat file: ") + path);
         }
         if (hdr.rd_version > CUR_HDR_VERSION)
         {
-            closefd();
             throw std::runtime_error(std::string("File version is too new: ") + path);
         }
         if (hdr.page_size < sysconf(_SC_PAGE_SIZE))
         {
-            closefd();
             throw std::runtime_error(std::string("Page size inconsistent: ") + path);
         }
         if (hdr.hdr_size != sizeof(Header) && hdr.cr_version == CUR_HDR_VERSION)
         {
-            closefd();
             throw std::runtime_error(std::string("Header size changed within the current version! ") + path +
                 "header version" + boost::lexical_cast<std::string>((int)CUR_HDR_VERSION) + 
                 "size" + boost::lexical_cast<std::string>(hdr.hdr_size) + 
@@ -167,18 +174,18 @@ namespace istat
         {
             refreshHeader(hdr);
         }
-        bucketsPerPage_ = hdr.page_size / sizeof(Bucket);
-        bucketCount_ = hdr.page_count * bucketsPerPage_;
-        settings_.intervalTime = fileHeader_->cfg_interval;
-        settings_.numSamples = bucketCount_;
-        strncpy(settings_.unit, fileHeader_->unit, sizeof(settings_.unit));
-        settings_.unit[sizeof(settings_.unit)-1] = 0;
-        settings_.flags = fileHeader_->flags;
-        settings_.lambda = fileHeader_->lambda;
-        settings_.season = fileHeader_->season;
-        settings_.fixed_count = fileHeader_->fixed_count;
-        strncpy(fileHeader_->name, path.c_str(), sizeof(fileHeader_->name) - 1);
-        fileHeader_->name[sizeof(fileHeader_->name)-1] = 0;
+        ptrdiff_t wantFileSize = hdr.page_size * (hdr.page_count + 1);
+        if (off < wantFileSize)
+        {
+            Log(LL_Warning, "istat") << "File" << path << "is too short; extending from"
+                << off << "to" << wantFileSize;
+            int r = mm_->truncate(fd_, wantFileSize);
+            if (r < 0)
+            {
+                throw std::runtime_error(std::string("Could not extend ") + path + " to "
+                    + boost::lexical_cast<std::string>(wantFileSize) + " bytes");
+            }
+        }
     }
 
     //  A crash or an error between making room for a new file and writing its
@@ -187,8 +194,10 @@ namespace istat
     {
         Header hdr;
         memset(&hdr, 0, sizeof(hdr));
-        mm_->seek(fd_, 0, SEEK_SET);
-        mm_->read(fd_, &hdr, sizeof(hdr));
+        if (mm_->seek(fd_, 0, SEEK_SET) < 0 || mm_->read(fd_, &hdr, sizeof(hdr)) < 0)
+        {
+            throw std::runtime_error(std::string("Could not read header: ") + strerror(errno));
+        }
         return hdr.magic[0] != 0 || hdr.page_count != 0;
     }
 
@@ -448,7 +457,13 @@ namespace istat
     {
         if (pages[cacheIndex].ptr != 0)
         {
-            mm_->unmap(pages[cacheIndex].ptr, fileHeader_->page_size);
+            if (!mm_->unmap(pages[cacheIndex].ptr, fileHeader_->page_size))
+            {
+                //  keep what is in the page until it can be written
+                throw std::runtime_error(std::string("Could not write ") + fileHeader_->name + ": " + strerror(errno));
+            }
+            pages[cacheIndex].ptr = 0;
+            pages[cacheIndex].page = 0;
         }
         recordPageMiss();
         void *mapped = mm_->map(fd_, pageIndex * fileHeader_->page_size, fileHeader_->page_size, toWrite);
@@ -634,14 +649,18 @@ namespace istat
         {
             flushOneExpBucket();
         }
-        mm_->flush(fileHeader_, sizeof(Header), false);
+        bool ok = mm_->flush(fileHeader_, sizeof(Header), false);
         for (size_t i = 0; i != sizeof(pages) / sizeof(pages[0]); ++i)
         {
             if (pages[i].ptr != 0)
             {
-                mm_->flush(pages[i].ptr, fileHeader_->page_size, false);
+                ok = mm_->flush(pages[i].ptr, fileHeader_->page_size, false) && ok;
             }
         }
+        if (!ok)
+        {
+            throw std::runtime_error(std::string("Could not write ") + fileHeader_->name);
+        }
     }
 
     void StatFile::resetCumulative(time_t lTime)
-- 
2.43.0


From 449e45e0c14e7d82fc53257eb069b483398be46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:32 +0000
Subject: [PATCH 30/51] fix: a sample that can not be stored is still forwarded
 and exported

---
 daemon/StatServer.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/daemon/StatServer.cpp b/daemon/StatServer.cpp
index 09802db..797f2c0 100755
--- a/daemon/StatServer.cpp
+++ b/daemon/StatServer.cpp
@@ -607,7 +607,15 @@ bool StatServer::handle_reserved_cmd(std::string const &cmd, boost::shared_ptr<C
 
 void StatServer::handle_record(std::string const &ctr, double val)
 {
-    statStore_->record(ctr, val);
+    try
+    {
+        statStore_->record(ctr, val);
+    }
+    catch (std::exception const &x)
+    {
+        //  others may still get it
+        LogError << "Caught exception recording" << ctr << ":" << x.what();
+    }
     if (hasAgent())
     {
         handle_forward(ctr, 0, val, val*val, val, val, 1);
@@ -616,7 +624,15 @@ void StatServer::handle_record(std::string const &ctr, double val)
 
 void StatServer::handle_record(std::string const &ctr, time_t time, double val)
 {
-    statStore_->record(ctr, time, val);
+    try
+    {
+        statStore_->record(ctr, time, val);
+    }
+    catch (std::exception const &x)
+    {
+        //  others may still get it
+        LogError << "Caught exception recording" << ctr << ":" << x.what();
+    }
     if (hasAgent())
     {
         handle_forward(ctr, time, val, val*val, val, val, 1);
@@ -625,7 +641,15 @@ void StatServer::handle_record(std::string const &ctr, time_t time, double val)
 
 void StatServer::handle_record(std::string const &ctr, time_t time, double val, double sumSq, double min, double max, size_t n)
 {
-    statStore_->record(ctr, time, val, sumSq, min, max, n);
+    try
+    {
+        statStore_->record(ctr, time, val, sumSq, min, max, n);
+    }
+    catch (std::exception const &x)
+    {
+        //  others may still get it
+        LogError << "Caught exception recording" << ctr << ":" << x.what();
+    }
     if (hasAgent())
     {
         handle_forward(ctr, time, val, sumSq, min, max, n);
-- 
2.43.0


From ee82bbcafc0388c53d7e3c9e5af87414b91530db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:32 +0000
Subject: [PATCH 31/51] fix: names with empty parts are the same counter, and
 creating counters neither deadlocks nor depends on the parents

---
 daemon/StatStore.cpp | 82 ++++++++++++++++++++++++++++++++++----------
 daemon/StatStore.h   |  2 ++
 2 files changed, 65 insertions(+), 19 deletions(-)

diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index 599d334..e349ac8 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -184,6 +184,50 @@ void StatStore::find(std::string const &ctr, boost::shared_ptr<IStatCounter> &st
     strand = &asyncCounter->strand_;
 }
 
+//  Empty parts of a name name no directory: "a..b" and "a.b" have the same files,
+//  and must be the same counter.
+static void removeEmptyParts(std::string &name)
+{
+    std::string ret;
+    for (std::string::iterator ptr(name.begin()), end(name.end()); ptr != end; ++ptr)
+    {
+        if (*ptr != '.' || (ret.size() && ret[ret.size() - 1] != '.'))
+        {
+            ret.push_back(*ptr);
+        }
+    }
+    if (ret.size() && ret[ret.size() - 1] == '.')
+    {
+        ret.resize(ret.size() - 1);
+    }
+    name.swap(ret);
+}
+
+//  A new counter can not be below an existing counter (unless counters are created
+//  recursively.) There is one lock at a time, because names share locks.
+bool StatStore::conflictsWithPrefix(std::string const &xform)
+{
+    {
+        grab aholdof(counterShards_.lock(xform));
+        CounterMap &counters(counterShards_.map(xform));
+        if (counters.find(xform) != counters.end())
+        {
+            return false;
+        }
+    }
+    std::string prefix(xform);
+    while (stripext(prefix))
+    {
+        grab aholdof(counterShards_.lock(prefix));
+        CounterMap &counters(counterShards_.map(prefix));
+        if (counters.find(prefix) != counters.end())
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
 //  this takes the name un-munged
 boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string const &name, bool create, bool onlyExisting, time_t zeroTime)
 {
@@ -204,7 +248,17 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
         isCollated = true;
     }
     munge(xform);
+    removeEmptyParts(xform);
+    if (xform.empty())
+    {
+        return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
+    }
     boost::shared_ptr<StatStore::AsyncCounter> asyncCounter;
+    if (create && !recursivelyCreateCounters_ && conflictsWithPrefix(xform))
+    {
+        LogSpam << "StatStore::openCounter(" << name << ") ... conflicting with a prefix";
+        return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
+    }
     {
         grab aholdof(counterShards_.lock(xform));
         CounterMap &counters(counterShards_.map(xform));
@@ -220,24 +274,6 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
             LogSpam << "StatStore::openCounter(" << name << ") ... skipping creation";
             return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
         }
-        if (!recursivelyCreateCounters_) {
-            // Check if name conflicts with an existing counter
-            std::string xform_prefix(xform);
-            while(stripext(xform_prefix)) {
-                if (xform_prefix != xform) {
-                    grab aholdof(counterShards_.lock(xform_prefix));
-                    CounterMap &cnts(counterShards_.map(xform_prefix));
-                    if (cnts.find(xform_prefix) != cnts.end()) {
-                        LogSpam << "StatStore::openCounter(" << name << ") ... conflicting with " << xform_prefix;
-                        return boost::shared_ptr<StatStore::AsyncCounter>((StatStore::AsyncCounter *)0);
-                    }
-                }
-                // This should never happend, but in case of an infinite loop
-                else {
-                    break;
-                }
-            }
-        }
         //  I hold the lock while creating the file, which is sub-optimal
         //  but avoids racing.
         LogSpam << "StatStore::openCounter(" << name << ") ... creating";
@@ -271,7 +307,15 @@ boost::shared_ptr<StatStore::AsyncCounter> StatStore::openCounter(std::string co
                 sex = "*" + sex;
             }
             //  recursively create counters up the chain
-            openCounter(sex, create, onlyExisting, zeroTime);
+            try
+            {
+                openCounter(sex, create, onlyExisting, zeroTime);
+            }
+            catch (std::exception const &x)
+            {
+                //  which does not keep this counter from recording
+                LogError << "Could not create the parent" << sex << "of" << name << ":" << x.what();
+            }
         }
     }
     return asyncCounter;
diff --git a/daemon/StatStore.h b/daemon/StatStore.h
index ce3c78e..b96d679 100644
--- a/daemon/StatStore.h
+++ b/daemon/StatStore.h
@@ -139,6 +139,8 @@ private:
     //  openCounter() takes an un-munged name!
     boost::shared_ptr<AsyncCounter> openCounter(std::string const &name, bool create=false, bool onlyExisting=false, time_t zeroTime=0);
 
+    bool conflictsWithPrefix(std::string const &xform);
+
     void scheduleRefresh();
     void refreshAllKeys();
 
-- 
2.43.0


From edb900d798c2bff6e6d915697b5ec0448727a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:32 +0000
Subject: [PATCH 32/51] fix: a clock that is set back does not make a counter
 use memory in front of a page

Whether a bucket past the last one is in the file of a counter of events
depends on the clock, and was looked at twice.
---
 daemon/StatCounter.cpp | 2 +-
 lib/StatFile.cpp       | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index 4368029..d93b8be 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -55,7 +55,7 @@ StatCounter::CollationInfo StatCounter::startCollation(time_t t)
     CollationInfo ret(t);
     boost::shared_ptr<istat::StatFile> const &file(counters_.begin()->file);
     int64_t ix = file->mapTimeToBucketIndex(t);
-    if(ix >= file->firstBucket() && file->isBucketIndexInFile(ix))
+    if(ix >= file->firstBucket() && ix <= file->lastBucket() && file->isBucketIndexInFile(ix))
     {
         istat::Bucket const &b = file->bucket(ix);
         if(b.time() == t && b.count() > 0)
diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index aa30feb..9a118fe 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -592,6 +592,10 @@ namespace istat
     {
         Log(LL_Debug, "istat") << "StatFile::writableBucket(" << bucket_index << ")";
         int64_t file_index = StatFile::mapBucketIndexToFileIndex(bucket_index);
+        if (file_index < 0)
+        {
+            throw std::range_error(std::string("Bucket is not in the file: ") + fileHeader_->name);
+        }
         int64_t page_index = file_index / bucketsPerPage_;
         int64_t off = file_index - (page_index * bucketsPerPage_);
         Bucket *bp = mapBucketPage(page_index, true);
-- 
2.43.0


From 64267a9603563e78cac4825536188676d29b598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:45 +0000
Subject: [PATCH 33/51] fix: an agent without a store answers commands that
 delete counters

---
 daemon/AdminServer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daemon/AdminServer.cpp b/daemon/AdminServer.cpp
index dc08bba..200443b 100644
--- a/daemon/AdminServer.cpp
+++ b/daemon/AdminServer.cpp
@@ -426,7 +426,7 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
             ec_->writeOut(std::string("huh? delete.ctr requires one or more counter names.\r\n"));
             return;
         }
-        if (!as_->ssp_)
+        if (!as_->ssp_ || !as_->ssp_->hasStore())
         {
             ec_->writeOut("huh? no statstore to delete.ctr from.\r\n");
             return;
@@ -441,7 +441,7 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
             ec_->writeOut(std::string("huh? delete.pattern requires one or more patterns.\r\n"));
             return;
         }
-        if (!as_->ssp_)
+        if (!as_->ssp_ || !as_->ssp_->hasStore())
         {
             ec_->writeOut("huh? no statstore to delete.pattern from.\r\n");
             return;
-- 
2.43.0


From bd38887859e99872fd9f3ec8b20ed816e114949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:45 +0000
Subject: [PATCH 34/51] fix: counters are deleted even when the admin who asked
 for it hangs up

---
 daemon/DeleteCountersWorker.cpp | 10 ++++++++--
 daemon/DeletePatternsWorker.cpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/daemon/DeleteCountersWorker.cpp b/daemon/DeleteCountersWorker.cpp
index 2366cd0..86ef28d 100644
--- a/daemon/DeleteCountersWorker.cpp
+++ b/daemon/DeleteCountersWorker.cpp
@@ -7,7 +7,10 @@ void DeleteCountersWorker::go()
     LogNotice << "DeleteCountersWorker::go() deleting a counter: T-" << counters_.size();
     if (counters_.empty())
     {
-        conn_->writeOut(std::string("ok\r\n"));
+        if (conn_->opened())
+        {
+            conn_->writeOut(std::string("ok\r\n"));
+        }
         delete this;
         return;
     }
@@ -24,7 +27,10 @@ void DeleteCountersWorker::on_complete()
 
 void DeleteCountersWorker::delete_one_counter(std::string const &ctr)
 {
-    conn_->writeOut(ctr + "\r\n");
+    if (conn_->opened())
+    {
+        conn_->writeOut(ctr + "\r\n");
+    }
     statServer_->deleteCounter(ctr, this);
 }
 
diff --git a/daemon/DeletePatternsWorker.cpp b/daemon/DeletePatternsWorker.cpp
index d9a2006..59443db 100644
--- a/daemon/DeletePatternsWorker.cpp
+++ b/daemon/DeletePatternsWorker.cpp
@@ -7,7 +7,10 @@ void DeletePatternsWorker::go()
     LogNotice << "DeletePatternsWorker::go() deleting a pattern: T-" << patterns_.size();
     if (patterns_.empty())
     {
-        conn_->writeOut(std::string("ok\r\n"));
+        if (conn_->opened())
+        {
+            conn_->writeOut(std::string("ok\r\n"));
+        }
         delete this;
         return;
     }
@@ -24,7 +27,10 @@ void DeletePatternsWorker::on_complete()
 
 void DeletePatternsWorker::delete_one_pattern(std::string const &pattern)
 {
-    conn_->writeOut(pattern + "\r\n");
+    if (conn_->opened())
+    {
+        conn_->writeOut(pattern + "\r\n");
+    }
     statServer_->deletePattern(pattern, this);
 }
 
-- 
2.43.0


From bcf9e326de2742e3d56cb1e8341c617d7af21a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:18 +0000
Subject: [PATCH 35/51] fix: quit does not drop the answers to the commands
 before it

---
 daemon/AdminServer.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/daemon/AdminServer.cpp b/daemon/AdminServer.cpp
index 200443b..48c3aeb 100644
--- a/daemon/AdminServer.cpp
+++ b/daemon/AdminServer.cpp
@@ -30,6 +30,7 @@ public:
     void go();
     void on_disconnect();
     void on_data();
+    void on_write();
     static void destroy(AdminConnection *self) { delete self; }
 
     void doCmd(std::string const &cmd);
@@ -38,6 +39,7 @@ public:
 
     boost::shared_ptr<ConnectionInfo> ec_;
     AdminServer *as_;
+    bool quitting_;
 
 private:
     class GenericComplete : public IComplete
@@ -135,7 +137,8 @@ void AdminServer::on_connection()
 
 AdminConnection::AdminConnection(boost::shared_ptr<ConnectionInfo> const &ec, AdminServer *as) :
     ec_(ec),
-    as_(as)
+    as_(as),
+    quitting_(false)
 {
     LogSpam << "AdminConnection::AdminConnection()";
 }
@@ -145,6 +148,7 @@ void AdminConnection::go()
     LogSpam << "AdminConnection::go()";
     ec_->onDisconnect_.connect(boost::bind(&AdminConnection::on_disconnect, this));
     ec_->onData_.connect(boost::bind(&AdminConnection::on_data, this));
+    ec_->onWrite_.connect(boost::bind(&AdminConnection::on_write, this));
     ec_->asEagerConnection()->startRead();
 }
 
@@ -160,6 +164,10 @@ void AdminConnection::on_data()
     size_t const maxCmd = 64 * 1024;
     std::vector<char> buf(1024);
 again:
+    if (quitting_)
+    {
+        return;
+    }
     size_t sz = ec_->peekIn(&buf[0], buf.size());
     for (size_t i = 0; i != sz; ++i)
     {
@@ -186,6 +194,17 @@ again:
     }
 }
 
+void AdminConnection::on_write()
+{
+    //  answers to earlier commands are written before the connection is closed
+    if (quitting_ && ec_->opened() && ec_->doneTotal() == ec_->queuedTotal())
+    {
+        ec_->close();
+        //  the connection will not tell about being disconnected any more
+        ec_->asEagerConnection()->defer(boost::bind(&AdminConnection::destroy, this));
+    }
+}
+
 void AdminConnection::doCmd(std::string const &cmd)
 {
     (debugAdmin.enabled() ? LogNotice : LogSpam) << "AdminConnection::doCmd(" << istat::sql_quote(cmd) << ")";
@@ -473,9 +492,8 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
     }
     if (cmd == "quit")
     {
-        ec_->close();
-        //  the connection will not tell about being disconnected any more
-        ec_->asEagerConnection()->defer(boost::bind(&AdminConnection::destroy, this));
+        quitting_ = true;
+        on_write();
         return;
     }
     ec_->writeOut("huh? ('help' for help) (received '" + cmd + "')\r\n");
-- 
2.43.0


From a0acd0f060084b9ddf1ddd73bfe12fc49a160106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:32 +0000
Subject: [PATCH 36/51] fix: answers to admin commands come in one piece

---
 daemon/AdminServer.cpp | 47 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/daemon/AdminServer.cpp b/daemon/AdminServer.cpp
index 48c3aeb..4fba6b5 100644
--- a/daemon/AdminServer.cpp
+++ b/daemon/AdminServer.cpp
@@ -239,19 +239,21 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
     LogSpam << "AdminConnection::cmdArgs(" << cmd << ", ...)";
     if (cmd == "help")
     {
-        ec_->writeOut("Commands:\r\n");
-        ec_->writeOut("help - display this help\r\n");
-        ec_->writeOut("stats - display stats\r\n");
-        ec_->writeOut("flush - flush all counters\r\n");
-        ec_->writeOut("faketime value - update faked time (for testing)\r\n");
-        ec_->writeOut("purge [maxOld[,maxAge]] - purge old connection info records\r\n");
-        ec_->writeOut("debug [option[,on|off]] - display or toggle debug options\r\n");
-        ec_->writeOut("loglevel [level[,stderrLevel]] - display or change logging verbosity\r\n");
-        ec_->writeOut("delete.ctr ctr.name ...- stop accepting data for a particular counter; close its files\r\n");
-        ec_->writeOut("flush.setting name - flush (and later reload) settings file\r\n");
-        ec_->writeOut("load.setting name - (re)load settings file\r\n");
-        ec_->writeOut("quit - disconnect from stat server\r\n");
-        ec_->writeOut("ok\r\n");
+        //  one piece, so that the answer to a slow command does not end up inside
+        std::string out("Commands:\r\n");
+        out += "help - display this help\r\n";
+        out += "stats - display stats\r\n";
+        out += "flush - flush all counters\r\n";
+        out += "faketime value - update faked time (for testing)\r\n";
+        out += "purge [maxOld[,maxAge]] - purge old connection info records\r\n";
+        out += "debug [option[,on|off]] - display or toggle debug options\r\n";
+        out += "loglevel [level[,stderrLevel]] - display or change logging verbosity\r\n";
+        out += "delete.ctr ctr.name ...- stop accepting data for a particular counter; close its files\r\n";
+        out += "flush.setting name - flush (and later reload) settings file\r\n";
+        out += "load.setting name - (re)load settings file\r\n";
+        out += "quit - disconnect from stat server\r\n";
+        out += "ok\r\n";
+        ec_->writeOut(out);
         return;
     }
     if (cmd == "stats")
@@ -285,8 +287,7 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
             istat::istattime(&t);
             ss << "fakeTime.value=" << t << "\r\n";
         }
-        ec_->writeOut(ss.str());
-        ec_->writeOut("ok\r\n");
+        ec_->writeOut(ss.str() + "ok\r\n");
         return;
     }
     if (cmd == "flush")
@@ -318,13 +319,13 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
         }
         catch (std::exception const &x)
         {
+            std::string out;
             for (std::vector<std::string>::const_iterator ptr(args.begin()), end(args.end());
                 ptr != end; ++ptr)
             {
-                ec_->writeOut(*ptr + ", ");
+                out += *ptr + ", ";
             }
-            ec_->writeOut("\r\n");
-            ec_->writeOut(std::string("huh? ") + x.what() + "\r\n");
+            ec_->writeOut(out + "\r\nhuh? " + x.what() + "\r\n");
             return;
         }
         ec_->writeOut("ok\r\n");
@@ -332,6 +333,7 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
     }
     if (cmd == "debug")
     {
+        std::string out;
         try
         {
             if (args.size() >= 3)
@@ -358,17 +360,17 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
                             throw std::runtime_error("Should be 'on' or 'off': " + args[1]);
                         }
                     }
-                    ec_->writeOut(opt->name() + ": " + (opt->enabled() ? "on" : "off") + "\r\n");
+                    out += opt->name() + ": " + (opt->enabled() ? "on" : "off") + "\r\n";
                 }
                 opt = DebugOption::next(opt);
             }
         }
         catch (std::exception const &x)
         {
-            ec_->writeOut(std::string("huh? ") + x.what() + "\r\n");
+            ec_->writeOut(out + "huh? " + x.what() + "\r\n");
             return;
         }
-        ec_->writeOut("ok\r\n");
+        ec_->writeOut(out + "ok\r\n");
         return;
     }
     if (cmd == "faketime")
@@ -429,8 +431,7 @@ void AdminConnection::cmdArgs(std::string const &cmd, std::vector<std::string> c
             istat::LogLevel a = istat::LL_Error, b = istat::LL_Error;
             istat::LogConfig::getLogLevels(a, b);
             ec_->writeOut("loglevel " + boost::lexical_cast<std::string>((int)a) + " " + 
-                boost::lexical_cast<std::string>((int)b) + "\r\n");
-            ec_->writeOut("ok\r\n");
+                boost::lexical_cast<std::string>((int)b) + "\r\nok\r\n");
         }
         catch (std::exception const &x)
         {
-- 
2.43.0


From d270cc8ad6c43da72cd75af583ac7d8d96e2bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:47 +0000
Subject: [PATCH 37/51] fix: requests for metrics are counted as done when they
 are

---
 daemon/PromServer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/daemon/PromServer.cpp b/daemon/PromServer.cpp
index 152e863..e77203c 100755
--- a/daemon/PromServer.cpp
+++ b/daemon/PromServer.cpp
@@ -48,8 +48,7 @@ void PromServer::handleAccept(boost::system::error_code const &e, HttpRequestHol
         {
             LogDebug << "Prometheus http request";
         }
-        ++sInfo_.current;
-        sInfo_.currentGauge.value((int32_t)sInfo_.current);
+        req->start();
         onRequest_(req);
         req->readHeaders();
         acceptOne();
-- 
2.43.0


From bce509587711b689b705f2d2419764460ada9139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:37 +0000
Subject: [PATCH 38/51] fix: a request for several counters that is not an
 object does not stop the daemon

---
 daemon/RequestInFlight.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/RequestInFlight.cpp b/daemon/RequestInFlight.cpp
index 338bc3a..42e0187 100755
--- a/daemon/RequestInFlight.cpp
+++ b/daemon/RequestInFlight.cpp
@@ -459,6 +459,11 @@ void RequestInFlight::on_multigetBody()
         reportError(reader.getFormattedErrorMessages(), 400);
         return;
     }
+    if (!root.isObject())
+    {
+        reportError("Not a JSON object", 400);
+        return;
+    }
     try
     {
         time_t start = root["start"].asInt64();
-- 
2.43.0


From b3040cc3ca9f17203c23b4bb7bb11d2f66b66975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:42 +0000
Subject: [PATCH 39/51] fix: a request whose connection breaks is not kept for
 ever

---
 daemon/HttpServer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/HttpServer.cpp b/daemon/HttpServer.cpp
index 19e2e1c..ecf5349 100644
--- a/daemon/HttpServer.cpp
+++ b/daemon/HttpServer.cpp
@@ -258,7 +258,10 @@ void HttpRequest::on_body(boost::system::error_code const &err, size_t xfer)
             (err.category() != boost::asio::error::get_misc_category() ||
                 err.value() != boost::asio::error::eof))
         {
-            error();
+            //  there is nobody to reply to any more
+            ++hs_->sInfo_.numErrors;
+            disconnect_all_slots(onError_);
+            disconnect_all_slots(onBody_);
             return;
         }
     }
-- 
2.43.0


From 1aba92c30adfbf0f770c7b2f0fbb093d5691d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:00 +0000
Subject: [PATCH 40/51] fix: the reply to a request whose body is not read is
 not destroyed by closing the connection

---
 daemon/HttpServer.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 daemon/HttpServer.h   |  2 ++
 2 files changed, 40 insertions(+)

diff --git a/daemon/HttpServer.cpp b/daemon/HttpServer.cpp
index ecf5349..500c9d8 100644
--- a/daemon/HttpServer.cpp
+++ b/daemon/HttpServer.cpp
@@ -426,11 +426,49 @@ void HttpRequest::on_reply(boost::system::error_code const &err, size_t xfer)
         ++hs_->sInfo_.numErrors;
     }
     done();
+    if (!err && discardBody())
+    {
+        return;
+    }
     //  this should soon go away, as the stack reference will go away!
     socket_.close();
     disconnect_all_slots(onError_);
 }
 
+//  Closing a socket that has data to read destroys a reply that is still on its way.
+bool HttpRequest::discardBody()
+{
+    std::string const *cl = header("Content-Length");
+    if (!cl || bodyData_.size())
+    {
+        return false;
+    }
+    size_t len = 0;
+    try
+    {
+        len = boost::lexical_cast<size_t>(*cl);
+    }
+    catch (boost::bad_lexical_cast const &)
+    {
+        return false;
+    }
+    size_t have = headerData_.size() - headerSize_;
+    if (len <= have || len > MaxBodySize)
+    {
+        return false;
+    }
+    bodyData_.resize(len - have);
+    boost::asio::async_read(socket_, boost::asio::buffer(bodyData_),
+        boost::bind(&HttpRequest::on_discard, HttpRequestHolder(shared_from_this())));
+    return true;
+}
+
+void HttpRequest::on_discard()
+{
+    socket_.close();
+    disconnect_all_slots(onError_);
+}
+
 bool AcceptEncodingHeader::disallow_compressed_responses = false;
 
 AcceptEncodingHeader::AcceptEncodingHeader(EncodingSet &ae, std::string const *header) :
diff --git a/daemon/HttpServer.h b/daemon/HttpServer.h
index 5e8bf8b..0dc850a 100644
--- a/daemon/HttpServer.h
+++ b/daemon/HttpServer.h
@@ -65,6 +65,8 @@ private:
     void on_header(boost::system::error_code const &err, size_t xfer);
     void on_body(boost::system::error_code const &err, size_t xfer);
     void on_reply(boost::system::error_code const &err, size_t xfer);
+    bool discardBody();
+    void on_discard();
     void parseHeader(std::string const &data);
     void parseMethod(std::string const &data);
     virtual void appendReply(char const *data, size_t size);
-- 
2.43.0


From ea55ebf21ead4e71c690157913bd325276f8ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:34 +0000
Subject: [PATCH 41/51] fix: edits of the blacklist are noticed even within a
 second, or if the file gets older

---
 daemon/Blacklist.cpp | 16 +++++++++-------
 daemon/Blacklist.h   |  9 ++++++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/daemon/Blacklist.cpp b/daemon/Blacklist.cpp
index ad55c3f..968fd33 100644
--- a/daemon/Blacklist.cpp
+++ b/daemon/Blacklist.cpp
@@ -17,7 +17,8 @@ Blacklist::Blacklist(boost::asio::io_service &svc, Configuration &cfg) :
     svc_(svc),
     tryReadBlacklistTimer_(svc),
     blacklistPath_(cfg.path),
-    lastModifiedTime_(0),
+    lastModifiedTime_(),
+    lastSize_(-1),
     period_(cfg.period)
 {
     LogSpam << "Blacklist::Blacklist being created ( " << cfg.path << " )";
@@ -55,11 +56,11 @@ void Blacklist::load()
             throw std::runtime_error("blacklist: could not find file");
         }
 
-        time_t modifiedTime = st.st_mtime;
-
-        if (modifiedTime <= lastModifiedTime_)
+        //  it may be edited twice in a second, or replaced by an older file
+        if (st.st_size == lastSize_ &&
+            st.st_mtim.tv_sec == lastModifiedTime_.tv_sec && st.st_mtim.tv_nsec == lastModifiedTime_.tv_nsec)
         {
-            LogDebug << "Blacklist::load modified time is not new enough ( " << modifiedTime << ", " << lastModifiedTime_ << " )";
+            LogDebug << "Blacklist::load file has not changed since" << lastModifiedTime_.tv_sec;
             return;
         }
 
@@ -106,8 +107,9 @@ void Blacklist::load()
             }
         }
 
-        lastModifiedTime_ = modifiedTime;
-        LogNotice << "Blacklist::load new mod time! ( " << lastModifiedTime_ << " ).";
+        lastModifiedTime_ = st.st_mtim;
+        lastSize_ = st.st_size;
+        LogNotice << "Blacklist::load new mod time! ( " << lastModifiedTime_.tv_sec << " ).";
     }
     catch (std::exception const &x)
     {
diff --git a/daemon/Blacklist.h b/daemon/Blacklist.h
index 4bf692b..86f118a 100644
--- a/daemon/Blacklist.h
+++ b/daemon/Blacklist.h
@@ -2,6 +2,8 @@
 #define daemon_Blacklist_h
 
 #include <string>
+#include <time.h>
+#include <sys/types.h>
 #include <tr1/unordered_set>
 
 #include <boost/asio.hpp>
@@ -17,7 +19,7 @@ public:
     struct Configuration
     {
         std::string path;
-        int16_t period;
+        int period;
 
         bool use() { return !path.empty() && period > 0; }
     };
@@ -40,8 +42,9 @@ private:
     BlacklistSet blacklistSet_;
     lock lock_;
     std::string blacklistPath_;
-    std::time_t lastModifiedTime_;
-    int16_t period_;
+    struct timespec lastModifiedTime_;
+    off_t lastSize_;
+    int period_;
 
 };
 
-- 
2.43.0


From f8e23dec50c341d3160f6a27a8ba70e6d7280da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:05 +0000
Subject: [PATCH 42/51] fix: a connection is not written to while another
 thread closes it

---
 daemon/EagerConnection.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/daemon/EagerConnection.cpp b/daemon/EagerConnection.cpp
index 038d32d..500f9ab 100644
--- a/daemon/EagerConnection.cpp
+++ b/daemon/EagerConnection.cpp
@@ -103,9 +103,10 @@ void EagerConnection::close()
         return;
     }
     opened_ = false;
+    //  others may be in writeOut()
+    grab aholdof(mutex_);
     socket_.close();
     timer_.cancel();
-    grab aholdof(mutex_);
     writeBuf_.clear();
     inBuf_.clear();
     outgoing_.clear();
@@ -249,9 +250,9 @@ size_t EagerConnection::doneTotal()
 void EagerConnection::abort()
 {
     LogSpam << "EagerConnection::abort()";
-    socket_.close();
     {
         grab aholdof(mutex_);
+        socket_.close();
         writeBuf_.clear();
         inBuf_.clear();
         outgoing_.clear();
@@ -359,6 +360,7 @@ void EagerConnection::tryLater()
 void EagerConnection::startConnect(tcp::endpoint endpoint)
 {
     LogNotice << "Connecting to " << endpoint;
+    grab aholdof(mutex_);
     socket_.async_connect(endpoint,
 #if BOOST_VERSION >= 106700
         boost::asio::bind_executor(strand_, boost::bind(&EagerConnection::on_connect, Tramp(shared_from_this()),
@@ -396,9 +398,9 @@ void EagerConnection::on_connect(boost::system::error_code const &err, tcp::endp
 void EagerConnection::startWrite()
 {
     LogSpam << "EagerConnection::startWrite()";
+    grab aholdof(mutex_);
     if (socket_.is_open())
     {
-        grab aholdof(mutex_);
         if (outgoing_.size() && !writePending_ && !tryingLater_)
         {
             writeBuf_.swap(outgoing_);
@@ -497,7 +499,11 @@ void EagerConnection::on_read(boost::system::error_code const &err, size_t xfer)
         {
             LogError << "Socket error for endpoint" << endpoint_ << ";" << err;
         }
-        socket_.close();
+        {
+            //  others may be in writeOut()
+            grab aholdof(mutex_);
+            socket_.close();
+        }
         onDisconnect_();
         readPending_ = false;
         if (opened_)
-- 
2.43.0


From 049fdf058e9b4b892949b59d03262aab9ffc9faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:27 +0000
Subject: [PATCH 43/51] fix: seasonal averages neither read nor write outside
 of the file's pages

The season before, or the bucket itself after a long gap, may not be in the
file any more, and the page of the one may be replaced by that of the other.
What is left from another season is not averaged.
---
 lib/StatFile.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/StatFile.cpp b/lib/StatFile.cpp
index 9a118fe..0b151b9 100644
--- a/lib/StatFile.cpp
+++ b/lib/StatFile.cpp
@@ -628,16 +628,22 @@ namespace istat
         {
             int64_t ix = mapTimeToBucketIndex(eb0.time());
             int64_t oix = mapTimeToBucketIndex(eb0.time() - fileHeader_->season);
-            Bucket *wb = writableBucket(ix);
-            Bucket const &o = bucket(oix);
-            if (o.time() > 0)
+            //  What is in the file for the season before; this bucket may have
+            //  the same place. After a long gap, this bucket is too old.
+            int64_t slot = ((oix % settings_.numSamples) + settings_.numSamples) % settings_.numSamples;
+            Bucket o(mapBucketPage(slot / bucketsPerPage_, true)[slot % bucketsPerPage_]);
+            if (isBucketIndexInFile(ix))
             {
-                *wb = o;
-                wb->expUpdate(eb0, fileHeader_->lambda);
-            }
-            else
-            {
-                *wb = eb0;
+                Bucket *wb = writableBucket(ix);
+                if (o.time() == eb0.time() - (time_t)fileHeader_->season)
+                {
+                    *wb = o;
+                    wb->expUpdate(eb0, fileHeader_->lambda);
+                }
+                else
+                {
+                    *wb = eb0;
+                }
             }
         }
         //  must move one over
-- 
2.43.0


From 8c751470186d38248f04c15a581c4b6e8e2944bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:50 +0000
Subject: [PATCH 44/51] fix: exported metrics have more than six digits

---
 daemon/PromExporter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daemon/PromExporter.cpp b/daemon/PromExporter.cpp
index 39354ab..210c571 100755
--- a/daemon/PromExporter.cpp
+++ b/daemon/PromExporter.cpp
@@ -53,6 +53,8 @@ void PromMetric::init(std::string const& ctr)
 std::string PromMetric::toString() const
 {
     std::stringstream ss;
+    //  large sums are exact
+    ss.precision(15);
     if (tags_.empty())
     {
         if (type_ == PromMetric::PromTypeCounter) {
-- 
2.43.0


From 91d5af91fff902bf750dc5bc6b1509385d36f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:50 +0000
Subject: [PATCH 45/51] fix: quotes and backslashes in the labels of exported
 metrics are quoted

---
 daemon/PromExporter.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/daemon/PromExporter.cpp b/daemon/PromExporter.cpp
index 210c571..e7d9f88 100755
--- a/daemon/PromExporter.cpp
+++ b/daemon/PromExporter.cpp
@@ -50,6 +50,21 @@ void PromMetric::init(std::string const& ctr)
     istat::prom_munge(name_);
 }
 
+//  what would end the label or the line does not
+static std::string quoteLabel(std::string const &value)
+{
+    std::string ret;
+    for (std::string::const_iterator ptr(value.begin()), end(value.end()); ptr != end; ++ptr)
+    {
+        if (*ptr == '\\' || *ptr == '"')
+        {
+            ret.push_back('\\');
+        }
+        ret.push_back(*ptr);
+    }
+    return ret;
+}
+
 std::string PromMetric::toString() const
 {
     std::stringstream ss;
@@ -70,11 +85,11 @@ std::string PromMetric::toString() const
         {
             ss << name_;
             std::tr1::unordered_map<std::string, std::string>::const_iterator mit = (*tit).begin();
-            ss << "{" << mit->first << "=\"" << mit->second << "\"";
+            ss << "{" << mit->first << "=\"" << quoteLabel(mit->second) << "\"";
             ++mit;
             while (mit != (*tit).end())
             {
-                ss << "," << mit->first << "=\"" << mit->second << "\"";
+                ss << "," << mit->first << "=\"" << quoteLabel(mit->second) << "\"";
                 ++mit;;
             }
             if (type_ == PromMetric::PromTypeCounter) {
-- 
2.43.0


From aae3c2733393d95002f7cd089f7abf591db0203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:50 +0000
Subject: [PATCH 46/51] fix: a metric without a name is not exported

---
 daemon/PromExporter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/daemon/PromExporter.cpp b/daemon/PromExporter.cpp
index e7d9f88..360a5d2 100755
--- a/daemon/PromExporter.cpp
+++ b/daemon/PromExporter.cpp
@@ -283,7 +283,11 @@ void PromExporter::extract_tags(
 
 void PromExporter::storeAmetric(std::string const & ctr, PromMetric const & prom_metric)
 {
-
+    if (prom_metric.getName().empty())
+    {
+        //  the line of a metric starts with its name
+        return;
+    }
     if (PromMetric::PromTypeCounter == prom_metric.getType()) {
         CumulativeCountsMap::iterator cit = data_counters_.find(ctr);
         if (cit == data_counters_.end())
-- 
2.43.0


From d00feae70ac1e3aae3e72b76d7fa85488629c20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:45 +0000
Subject: [PATCH 47/51] fix: timers do not depend on the time of day

Flushing, pruning, self counters, settings and forwarding all stopped for as
long as the clock was set back.
---
 daemon/Blacklist.h              |  3 ++-
 daemon/EagerConnection.h        |  3 ++-
 daemon/EagerConnectionFactory.h |  3 ++-
 daemon/HttpServer.h             |  3 ++-
 daemon/LoopbackCounter.cpp      |  4 +--
 daemon/LoopbackCounter.h        |  5 ++--
 daemon/MonotonicTimer.h         | 45 +++++++++++++++++++++++++++++++++
 daemon/PromExporter.h           |  5 ++--
 daemon/ReplicaOf.h              |  3 ++-
 daemon/Settings.cpp             |  3 ++-
 daemon/StatServer.h             |  7 ++---
 daemon/StatStore.cpp            |  2 +-
 daemon/StatStore.h              |  8 +++---
 daemon/main.cpp                 |  9 ++++---
 14 files changed, 79 insertions(+), 24 deletions(-)
 create mode 100644 daemon/MonotonicTimer.h

diff --git a/daemon/Blacklist.h b/daemon/Blacklist.h
index 86f118a..a6153c8 100644
--- a/daemon/Blacklist.h
+++ b/daemon/Blacklist.h
@@ -11,6 +11,7 @@
 
 
 #include "threadfunc.h"
+#include "MonotonicTimer.h"
 
 
 class Blacklist : public boost::noncopyable
@@ -37,7 +38,7 @@ private:
     void load();
 
     boost::asio::io_service &svc_;
-    boost::asio::deadline_timer tryReadBlacklistTimer_;
+    MonotonicTimer tryReadBlacklistTimer_;
 
     BlacklistSet blacklistSet_;
     lock lock_;
diff --git a/daemon/EagerConnection.h b/daemon/EagerConnection.h
index 5e6eae9..1464469 100644
--- a/daemon/EagerConnection.h
+++ b/daemon/EagerConnection.h
@@ -3,6 +3,7 @@
 #define daemon_EagerConnection_h
 
 #include "threadfunc.h"
+#include "MonotonicTimer.h"
 
 #include <string>
 #include <vector>
@@ -111,7 +112,7 @@ private:
     boost::detail::atomic_count interlock_;
     boost::asio::ip::tcp::socket socket_;
     boost::asio::ip::tcp::resolver resolver_;
-    boost::asio::deadline_timer timer_;
+    MonotonicTimer timer_;
 #if BOOST_VERSION >= 106700
     boost::asio::strand<boost::asio::io_service::executor_type> strand_;
 #else
diff --git a/daemon/EagerConnectionFactory.h b/daemon/EagerConnectionFactory.h
index a6d5672..2f2e65f 100644
--- a/daemon/EagerConnectionFactory.h
+++ b/daemon/EagerConnectionFactory.h
@@ -6,6 +6,7 @@
 #include <boost/shared_ptr.hpp>
 
 #include "Signal.h"
+#include "MonotonicTimer.h"
 
 class EagerConnection;
 class ConnectionInfo;
@@ -25,7 +26,7 @@ private:
 
     boost::asio::io_service &svc_;
     boost::asio::ip::tcp::acceptor acceptor_;
-    boost::asio::deadline_timer timer_;
+    MonotonicTimer timer_;
     boost::shared_ptr<ConnectionInfo> pending_;
 };
 
diff --git a/daemon/HttpServer.h b/daemon/HttpServer.h
index 0dc850a..33391f1 100644
--- a/daemon/HttpServer.h
+++ b/daemon/HttpServer.h
@@ -9,6 +9,7 @@
 #include <boost/detail/atomic_count.hpp>
 #include <set>
 #include "LoopbackCounter.h"
+#include "MonotonicTimer.h"
 #include "Signal.h"
 
 class HttpServer;
@@ -168,7 +169,7 @@ protected:
     int listenOverflowBacklog_;
     boost::asio::io_service &svc_;
     boost::asio::ip::tcp::acceptor acceptor_;
-    boost::asio::deadline_timer timer_;
+    MonotonicTimer timer_;
 };
 
 class AcceptEncodingHeader
diff --git a/daemon/LoopbackCounter.cpp b/daemon/LoopbackCounter.cpp
index 285059c..869f32b 100644
--- a/daemon/LoopbackCounter.cpp
+++ b/daemon/LoopbackCounter.cpp
@@ -11,7 +11,7 @@ LoopbackCounterRecord *LoopbackCounterRecord::first_;
 
 IStatStore *LoopbackCounter::ss_;
 boost::asio::io_service *LoopbackCounter::svc_;
-boost::asio::deadline_timer *LoopbackCounter::timer_;
+MonotonicTimer *LoopbackCounter::timer_;
 
 DebugOption debugLoopback("loopback");
 
@@ -112,7 +112,7 @@ void LoopbackCounter::setup(IStatStore *ss, boost::asio::io_service &svc)
     }
     ss_ = ss;
     svc_ = &svc;
-    timer_ = new boost::asio::deadline_timer(*svc_);
+    timer_ = new MonotonicTimer(*svc_);
     reschedule();
 }
 
diff --git a/daemon/LoopbackCounter.h b/daemon/LoopbackCounter.h
index 5394211..ff455c7 100644
--- a/daemon/LoopbackCounter.h
+++ b/daemon/LoopbackCounter.h
@@ -4,7 +4,8 @@
 
 #include <string>
 #include <boost/asio/io_service.hpp>
-#include <boost/asio/deadline_timer.hpp>
+
+#include "MonotonicTimer.h"
 
 /*
  * Use istatd to monitor itself. All declared counters will be put in a 
@@ -72,7 +73,7 @@ private:
     LoopbackCounterRecord *me_;
     static IStatStore *ss_;
     static boost::asio::io_service *svc_;
-    static boost::asio::deadline_timer *timer_;
+    static MonotonicTimer *timer_;
     static void reschedule();
     static void updateAggregates(boost::system::error_code const &err);
 };
diff --git a/daemon/MonotonicTimer.h b/daemon/MonotonicTimer.h
new file mode 100644
index 0000000..cfc6f48
--- /dev/null
+++ b/daemon/MonotonicTimer.h
@@ -0,0 +1,45 @@
+
+#if !defined(daemon_MonotonicTimer_h)
+#define daemon_MonotonicTimer_h
+
+#include <boost/version.hpp>
+#include <boost/asio/deadline_timer.hpp>
+#include <boost/date_time/posix_time/posix_time.hpp>
+
+#include <time.h>
+
+/* Time for timers that wait for some interval. Unlike the time of day, this
+ * clock is never set, so a timer is neither late nor early when that happens.
+ */
+struct MonotonicTimeTraits
+{
+    typedef boost::posix_time::ptime time_type;
+    typedef boost::posix_time::time_duration duration_type;
+
+    static time_type now()
+    {
+        struct timespec ts;
+        ::clock_gettime(CLOCK_MONOTONIC, &ts);
+        return boost::posix_time::from_time_t(ts.tv_sec) + boost::posix_time::microseconds(ts.tv_nsec / 1000);
+    }
+    static time_type add(time_type const &t, duration_type const &d)
+    {
+        return t + d;
+    }
+    static duration_type subtract(time_type const &a, time_type const &b)
+    {
+        return a - b;
+    }
+    static bool less_than(time_type const &a, time_type const &b)
+    {
+        return a < b;
+    }
+    static boost::posix_time::time_duration to_posix_duration(duration_type const &d)
+    {
+        return d;
+    }
+};
+
+typedef boost::asio::basic_deadline_timer<boost::posix_time::ptime, MonotonicTimeTraits> MonotonicTimer;
+
+#endif  //  daemon_MonotonicTimer_h
diff --git a/daemon/PromExporter.h b/daemon/PromExporter.h
index e194ca3..aec1993 100755
--- a/daemon/PromExporter.h
+++ b/daemon/PromExporter.h
@@ -13,6 +13,7 @@
 #include <boost/shared_ptr.hpp>
 
 #include "threadfunc.h"
+#include "MonotonicTimer.h"
 
 #define COUNT_MAX 0xffffffff
 
@@ -88,8 +89,8 @@ private:
     CumulativeCountsMap data_counters_;
     lock mutex_;
     bool enabled_;
-    boost::asio::deadline_timer cleanup_timer_;
-    boost::asio::deadline_timer staleness_timer_;
+    MonotonicTimer cleanup_timer_;
+    MonotonicTimer staleness_timer_;
     static const std::tr1::unordered_set<std::string> allowed_tags_;
 
     void extract_tags(
diff --git a/daemon/ReplicaOf.h b/daemon/ReplicaOf.h
index 967fd0d..fff708f 100644
--- a/daemon/ReplicaOf.h
+++ b/daemon/ReplicaOf.h
@@ -3,6 +3,7 @@
 #define daemon_ReplicaOf_h
 
 #include "EagerConnection.h"
+#include "MonotonicTimer.h"
 #include "PduProtocol.h"
 #include "ReplicaPdus.h"
 
@@ -34,7 +35,7 @@ private:
     std::string name_;
     boost::shared_ptr<ConnectionInfo> conn_;
     boost::shared_ptr<IStatStore> ss_;
-    boost::asio::deadline_timer timer_;
+    MonotonicTimer timer_;
     PduReaderActor *pduSrc_;
     PduProtocol proto_;
 };
diff --git a/daemon/Settings.cpp b/daemon/Settings.cpp
index 5327364..0893689 100644
--- a/daemon/Settings.cpp
+++ b/daemon/Settings.cpp
@@ -2,6 +2,7 @@
 #include "Settings.h"
 #include "IComplete.h"
 #include "LoopbackCounter.h"
+#include "MonotonicTimer.h"
 #include "Logs.h"
 #include "threadfunc.h"
 #include "istat/strfunc.h"
@@ -38,7 +39,7 @@ public:
     RealSettingsFactory *fac_;
     std::string name_;
     lock lock_;
-    boost::asio::deadline_timer saveTimer_;
+    MonotonicTimer saveTimer_;
     std::map<std::string, std::string> settings_;
     bool saveQueued_;
     bool dirty_;
diff --git a/daemon/StatServer.h b/daemon/StatServer.h
index 8772c12..30f534b 100755
--- a/daemon/StatServer.h
+++ b/daemon/StatServer.h
@@ -16,6 +16,7 @@
 #include <boost/make_shared.hpp>
 
 #include "Bucketizer.h"
+#include "MonotonicTimer.h"
 #include "EagerConnection.h"
 #include "EagerConnectionFactory.h"
 #include "LoopbackCounter.h"
@@ -186,10 +187,10 @@ private:
     boost::asio::io_service &svc_;
     boost::asio::ip::udp::socket udpSocket_;
     boost::shared_ptr<UdpConnectionInfo> udpEndpoint_;
-    boost::asio::deadline_timer udpTimer_;
+    MonotonicTimer udpTimer_;
     int udpBufferSize_;
     int listenOverflowBacklog_;
-    boost::asio::deadline_timer reportTimer_;
+    MonotonicTimer reportTimer_;
     char udpBuffer_[65536];
     int udpBackoffMs_;
     LoopbackCounter nConnects_;
@@ -210,7 +211,7 @@ private:
     ::lock clearForwardMutex_;
     ::lock forwardMutex_;
     std::tr1::unordered_map<std::string, Bucketizer> forwardBuckets_;
-    boost::asio::deadline_timer forwardTimer_;
+    MonotonicTimer forwardTimer_;
     boost::shared_ptr<Blacklist> blacklist_;
 };
 
diff --git a/daemon/StatStore.cpp b/daemon/StatStore.cpp
index e349ac8..95f341a 100644
--- a/daemon/StatStore.cpp
+++ b/daemon/StatStore.cpp
@@ -825,7 +825,7 @@ public:
     }
     boost::shared_ptr<IStatStore> ss_;
     IComplete *cmp_;
-    boost::asio::deadline_timer retryTimer_;
+    MonotonicTimer retryTimer_;
     std::list<boost::shared_ptr<StatStore::AsyncCounter> > failed_;
     std::list<boost::shared_ptr<StatStore::AsyncCounter> > ptrs;
 };
diff --git a/daemon/StatStore.h b/daemon/StatStore.h
index b96d679..8e67f3f 100644
--- a/daemon/StatStore.h
+++ b/daemon/StatStore.h
@@ -3,6 +3,7 @@
 #define daemon_StatStore_h
 
 #include "ShardedMap.h"
+#include "MonotonicTimer.h"
 #include "threadfunc.h"
 #include "IStatCounterFactory.h"
 #include "IStatStore.h"
@@ -18,7 +19,6 @@
 #include <boost/shared_ptr.hpp>
 #include <boost/asio/io_service.hpp>
 #include <boost/asio/strand.hpp>
-#include <boost/asio/deadline_timer.hpp>
 #include <istat/StatFile.h>
 
 
@@ -112,14 +112,14 @@ private:
     void pruneEmptyDirs(const std::string &purgePath);
     std::string path_;
     boost::asio::io_service &svc_;
-    boost::asio::deadline_timer pruneEmptyDirsTimer_;
+    MonotonicTimer pruneEmptyDirsTimer_;
 #if BOOST_VERSION >= 106700
     boost::asio::strand<boost::asio::io_service::executor_type> refreshStrand_;
 #else
     boost::asio::strand refreshStrand_;
 #endif
-    boost::asio::deadline_timer syncTimer_;
-    boost::asio::deadline_timer availCheckTimer_;
+    MonotonicTimer syncTimer_;
+    MonotonicTimer availCheckTimer_;
     Shards::iterator syncIterator_;
     boost::shared_ptr<IStatCounterFactory> factory_;
     std::list< boost::shared_ptr<AsyncCounter> > pendedDeletes_;
diff --git a/daemon/main.cpp b/daemon/main.cpp
index a0c17c8..cd14c76 100644
--- a/daemon/main.cpp
+++ b/daemon/main.cpp
@@ -26,6 +26,7 @@
 #include <boost/version.hpp>
 
 #include "config.h"
+#include "MonotonicTimer.h"
 #include "HttpServer.h"
 #include "StatServer.h"
 #include "StatStore.h"
@@ -68,7 +69,7 @@ LoopbackCounter countExceptions("exceptions", TypeEvent);
 
 
 #include <statgrab.h>
-boost::asio::deadline_timer statsTimer_(g_service);
+MonotonicTimer statsTimer_(g_service);
 time_t nextStatsTime_;
 enum { STATS_INTERVAL = 5 };
 #if BOOST_VERSION >= 106700
@@ -306,7 +307,7 @@ public:
         timer_.cancel();
     }
 private:
-    boost::asio::deadline_timer timer_;
+    MonotonicTimer timer_;
     boost::asio::io_service &svc_;
     Mmap *mm_;
     StatServer *ss_;
@@ -363,7 +364,7 @@ public:
     }
 private:
     boost::asio::io_service &svc_;
-    boost::asio::deadline_timer timer_;
+    MonotonicTimer timer_;
     int interval_;
     void timerFunc(const boost::system::error_code &err)
     {
@@ -1050,7 +1051,7 @@ int main(int argc, char const *argv[])
             istat::istattime(&nextStatsTime_);
             nextStatsTime_ += STATS_INTERVAL;
             nextStatsTime_ -= (nextStatsTime_ % STATS_INTERVAL);
-            statsTimer_.expires_at(boost::posix_time::from_time_t(nextStatsTime_));
+            statsTimer_.expires_from_now(boost::posix_time::seconds(nextStatsTime_ - istat::istattime(0)));
 #if BOOST_VERSION >= 106700
             statsTimer_.async_wait(boost::asio::bind_executor(statsStrand_, boost::bind(&collectLocalStats, &ss)));
 #else
-- 
2.43.0


From 55c634b0905cef9a4b8a88b1656ea054ed40cdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:01 +0000
Subject: [PATCH 48/51] fix: events are accepted after the clock has been set
 back

The collation window stayed ahead of the clock, so that all events were
rejected as from the past until the clock reached it again.
---
 daemon/StatCounter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/daemon/StatCounter.cpp b/daemon/StatCounter.cpp
index d93b8be..dfd346b 100644
--- a/daemon/StatCounter.cpp
+++ b/daemon/StatCounter.cpp
@@ -230,6 +230,13 @@ void StatCounter::record(time_t time, double value, double valueSq, double min,
             }
             return;
         }
+        //  The clock has been set back: all events would be from the past until
+        //  it reaches the window again.
+        if(collations_[0].time > nowTime)
+        {
+            fullyShiftCollated();
+            startCollationWindow(nowTime - nowTime % collationInterval_);
+        }
         //  (a window that starts at time 0 is a window that's not yet set)
         if(time < collations_[0].time || time < collationInterval_ * time_t(BUCKETS_PER_COLLATION_WINDOW))
         {
-- 
2.43.0


From e435d1f51dffd87c7ffa79b7b2f6b1eb42618e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:18 +0000
Subject: [PATCH 49/51] fix: a self counter that cannot be recorded does not
 stop anything

Events that happen while the store cannot take them are counted later. An
exception from there ended the timer that updates the self counters for good,
or the daemon when thrown from a destructor.
---
 daemon/LoopbackCounter.cpp | 23 +++++++++++++++++++++--
 daemon/LoopbackCounter.h   |  1 +
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/daemon/LoopbackCounter.cpp b/daemon/LoopbackCounter.cpp
index 869f32b..a9bf793 100644
--- a/daemon/LoopbackCounter.cpp
+++ b/daemon/LoopbackCounter.cpp
@@ -92,7 +92,22 @@ void LoopbackCounter::value(double value)
     }
     else if (ss_)
     {
-        ss_->record(me_->name_, value);
+        record(me_->name_, value);
+    }
+}
+
+//  Whoever counts, goes on also when that cannot be recorded.
+bool LoopbackCounter::record(std::string const &name, double value)
+{
+    try
+    {
+        ss_->record(name, value);
+        return true;
+    }
+    catch (std::exception const &x)
+    {
+        LogError << "Caught exception recording" << name << ":" << x.what();
+        return false;
     }
 }
 
@@ -133,7 +148,11 @@ void LoopbackCounter::forceUpdates()
             if (TypeEvent == r->type_) {
                 __sync_add_and_fetch(&r->aggregate_, -v);
             }
-            LoopbackCounter::ss_->record(r->name_, (int64_t)v);
+            if (!record(r->name_, (int64_t)v) && TypeEvent == r->type_)
+            {
+                //  those events are recorded later
+                __sync_add_and_fetch(&r->aggregate_, v);
+            }
         }
     }
 }
diff --git a/daemon/LoopbackCounter.h b/daemon/LoopbackCounter.h
index ff455c7..87cd43d 100644
--- a/daemon/LoopbackCounter.h
+++ b/daemon/LoopbackCounter.h
@@ -74,6 +74,7 @@ private:
     static IStatStore *ss_;
     static boost::asio::io_service *svc_;
     static MonotonicTimer *timer_;
+    static bool record(std::string const &name, double value);
     static void reschedule();
     static void updateAggregates(boost::system::error_code const &err);
 };
-- 
2.43.0


From 30a6dab89f6566ede579ef7c6188eff02e01f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:35 +0000
Subject: [PATCH 50/51] fix: a log file that cannot be opened does not stop
 anything

Whoever logged got an exception, the daemon ended when that was a destructor
or the catch block of a worker thread. After a failed roll over nothing was
logged to the file any more.
---
 lib/Log.cpp             | 12 ++++++++++--
 lib/LogInstanceFile.cpp | 10 ++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/Log.cpp b/lib/Log.cpp
index 53ed5f6..cd7e5c7 100644
--- a/lib/Log.cpp
+++ b/lib/Log.cpp
@@ -172,8 +172,16 @@ namespace istat
             ++sameCount_;
             return;
         }
-        remember_for_duplicate(data, size);
-        getOrMakeLogFile()->output(data, size);
+        try
+        {
+            remember_for_duplicate(data, size);
+            getOrMakeLogFile()->output(data, size);
+        }
+        catch (std::exception const &x)
+        {
+            //  whoever has something to log, goes on when that is not possible
+            cerrLog_->output(x.what(), strlen(x.what()));
+        }
     }
 
     void LogConfig::rollOver()
diff --git a/lib/LogInstanceFile.cpp b/lib/LogInstanceFile.cpp
index 1ddbea7..8c9528f 100644
--- a/lib/LogInstanceFile.cpp
+++ b/lib/LogInstanceFile.cpp
@@ -46,12 +46,18 @@ namespace istat
     void LogInstanceFile::reopen()
     {
         grab aholdof(lock_);
+        int fd = open(path_.c_str(), O_CREAT | O_APPEND | O_RDWR, 0666);
+        if (fd < 0 && fd_ != -1)
+        {
+            //  rather the old file than none
+            std::cerr << "Could not roll over log file: " << path_ << std::endl;
+            return;
+        }
         if (fd_ != -1)
         {
             close(fd_);
-            fd_ = -1;
         }
-        fd_ = open(path_.c_str(), O_CREAT | O_APPEND | O_RDWR, 0666);
+        fd_ = fd;
         if (fd_ < 0)
         {
             std::ostringstream os;
-- 
2.43.0


From 35cd295e68323a91b1125ffd50fc08ff28943e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:31 +0000
Subject: [PATCH 51/51] fix: a blacklist path that is not a file does not use
 up descriptors

---
 daemon/Blacklist.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daemon/Blacklist.cpp b/daemon/Blacklist.cpp
index 968fd33..c78d742 100644
--- a/daemon/Blacklist.cpp
+++ b/daemon/Blacklist.cpp
@@ -70,6 +70,12 @@ void Blacklist::load()
             throw std::runtime_error("blacklist: could not open file");
         }
         int64_t size = ::lseek(i, 0, 2);
+        //  a directory, say, can have any size
+        if (size < 0 || size > 0x10000000)
+        {
+            ::close(i);
+            throw std::runtime_error("blacklist: not a file that can be read");
+        }
 
         ::lseek(i, 0, 0);
         std::vector<char> buf;
-- 
2.43.0

