From dae8d7e029ec6086173c568b2354640d7a404537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:55 +0000
Subject: [PATCH 01/81] fix: keep the latest value when a closed series is
 written again

Once a series had no in-memory page, a new data point was compared only with
in-order pages of the target database, and not compared at all when the series
moved to a database that already had newer data. The point was then stored as
in-order and lost to an older out-of-order value of the same timestamp, or
overlapped an existing in-order page.
---
 include/ts.h      |  2 ++
 include/tsdb.h    |  2 +-
 src/core/page.cpp |  2 +-
 src/core/ts.cpp   | 42 +++++++++++++++++++++++++++++++++---------
 src/core/tsdb.cpp | 17 +++++++++++------
 5 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/include/ts.h b/include/ts.h
index 337a8f1..9e71c76 100644
--- a/include/ts.h
+++ b/include/ts.h
@@ -87,6 +87,8 @@ public:
     TimeSeries *m_next;
 
 private:
+    bool is_out_of_order(Tsdb *tsdb, MetricId mid, Timestamp tstamp);
+
     RollupManager m_rollup;
     PageInMemory *m_buff;   // in-memory buffer; if m_id is 0, it's contents are
                             // not on disk; otherwise it's contents are at least
diff --git a/include/tsdb.h b/include/tsdb.h
index 8cf6ace..8c395a7 100644
--- a/include/tsdb.h
+++ b/include/tsdb.h
@@ -264,7 +264,7 @@ public:
     bool has_daily_rollup();
     bool can_use_rollup(bool level2);
     bool can_use_rollup(TimeSeriesId tid);
-    Timestamp get_last_tstamp(MetricId mid, TimeSeriesId tid);
+    Timestamp get_last_tstamp(MetricId mid, TimeSeriesId tid, bool include_ooo = true);
     bool get_out_of_order(TimeSeriesId tid);
     void set_out_of_order(TimeSeriesId tid, bool ooo);
     bool get_out_of_order2(TimeSeriesId tid);
diff --git a/src/core/page.cpp b/src/core/page.cpp
index ea77459..1c73f06 100644
--- a/src/core/page.cpp
+++ b/src/core/page.cpp
@@ -340,7 +340,7 @@ PageInMemory::restore(Timestamp tstamp, uint8_t *buff, PageSize offset, uint8_t
         }
         else
         {
-            Timestamp last_ts_on_disk = m_tsdb->get_last_tstamp(mid, tid);
+            Timestamp last_ts_on_disk = m_tsdb->get_last_tstamp(mid, tid, false);
             Timestamp last_ts_in_buff = m_compressor->get_last_tstamp();
             out_of_date = (last_ts_in_buff <= last_ts_on_disk);
         }
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index b5004b2..9aaff26 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -269,6 +269,20 @@ TimeSeries::append(MetricId mid, FILE *file)
     if (m_ooo_buff != nullptr) m_ooo_buff->append(mid, m_id, file);
 }
 
+// Return true if this TimeSeries already has data in 'tsdb' that's not older
+// than 'tstamp'. Used when there's no in-order page (m_buff) in that 'tsdb'.
+bool
+TimeSeries::is_out_of_order(Tsdb *tsdb, MetricId mid, Timestamp tstamp)
+{
+    tstamp = validate_resolution(tstamp, tsdb->is_tstamp_ms());
+
+    if (tstamp <= tsdb->get_last_tstamp(mid, m_id))
+        return true;
+
+    return (m_ooo_buff != nullptr) && (m_ooo_buff->get_tsdb() == tsdb) &&
+           (! m_ooo_buff->is_empty()) && (tstamp < m_ooo_buff->get_time_range().get_to());
+}
+
 /* The special values of 'NaN' and 'Inf' should be treated as out-of-order,
  * because our compression algorithms (except v0) can't handle them.
  */
@@ -293,13 +307,14 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
     {
         Tsdb *tsdb = Tsdb::inst(tstamp, true);
         ASSERT(tsdb != nullptr);
-        Timestamp last_tstamp = tsdb->get_last_tstamp(mid, m_id);
-        is_ooo = is_ooo || (tstamp <= last_tstamp);
+        is_ooo = is_ooo || is_out_of_order(tsdb, mid, tstamp);
         if (! is_ooo)
         {
             update_rollup = true;
             m_buff = new PageInMemory(mid, m_id, tsdb, false);
         }
+        else
+            tsdb->dec_ref_count();
     }
     else if ((in_range = m_buff->in_range_strictly(tstamp)) != 0)
     {
@@ -307,15 +322,24 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
 
         if (! is_ooo)
         {
-            m_buff->flush(mid, m_id);
+            Tsdb *tsdb = Tsdb::inst(tstamp, true);
 
-            if (m_ooo_buff != nullptr)
-                m_ooo_buff->update_indices(m_buff);
+            // this Tsdb may already have newer data than this dp
+            is_ooo = is_out_of_order(tsdb, mid, tstamp);
 
-            // reset the m_buff
-            Tsdb *tsdb = Tsdb::inst(tstamp, true);
-            m_buff->init(mid, m_id, tsdb, false);
-            update_rollup = true;
+            if (! is_ooo)
+            {
+                m_buff->flush(mid, m_id);
+
+                if (m_ooo_buff != nullptr)
+                    m_ooo_buff->update_indices(m_buff);
+
+                // reset the m_buff
+                m_buff->init(mid, m_id, tsdb, false);
+                update_rollup = true;
+            }
+            else
+                tsdb->dec_ref_count();
         }
     }
     else
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 6b0ebe4..7e2a594 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1845,11 +1845,13 @@ Tsdb::shutdown()
     Logger::info("Tsdb::shutdown complete");
 }
 
-// get timestamp of last data-point in this Tsdb, for the given TimeSeries
+// get timestamp of last data-point in this Tsdb, for the given TimeSeries;
+// out-of-order pages are ignored if 'include_ooo' is false;
 Timestamp
-Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid)
+Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid, bool include_ooo)
 {
     Timestamp tstamp = 0;
+    Timestamp last_ooo = 0;
     FileIndex fidx, file_idx;
     HeaderIndex hidx, header_idx;
     struct page_info_on_disk *page_header = nullptr;
@@ -1867,9 +1869,7 @@ Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid)
         return TT_INVALID_TIMESTAMP;
 
     m_index_file.ensure_open(false);
-    m_index_file.get_indices2(tid, fidx, hidx);
-    if (fidx == TT_INVALID_FILE_INDEX)
-        m_index_file.get_indices(tid, fidx, hidx);
+    m_index_file.get_indices(tid, fidx, hidx);
 
     while (fidx != TT_INVALID_FILE_INDEX)
     {
@@ -1889,6 +1889,11 @@ Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid)
             page_header = header;
             tsdb_header = header_file->get_tsdb_header();
         }
+        else if (header->m_tstamp_to > 0)
+        {
+            // m_tstamp_to is exclusive
+            last_ooo = std::max(last_ooo, m_time_range.get_from() + header->m_tstamp_to - 1);
+        }
 
         ASSERT((fidx < header->m_next_file) || (fidx == header->m_next_file && hidx < header->m_next_header));
 
@@ -1932,7 +1937,7 @@ Tsdb::get_last_tstamp(MetricId mid, TimeSeriesId tid)
         MemoryManager::free_recyclable(container);
     }
 
-    return tstamp;
+    return include_ooo ? std::max(tstamp, last_ooo) : tstamp;
 }
 
 bool
-- 
2.43.0


From e9a8ee1447aa17006391d24fb363fca4e725db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:00 +0000
Subject: [PATCH 02/81] fix: do not miss a page that is flushed while a query
 is running

A query read the pages on disk first and the in-memory pages afterwards. A page
flushed between the two steps was seen by neither, so acknowledged data points
were missing from the answer. Collect the in-memory pages first, and ignore
pages appended on disk after that. Also release the containers of a failed
query instead of leaking them into the next one.
---
 include/query.h    | 13 +++++++++++++
 include/ts.h       |  2 +-
 src/core/query.cpp | 38 +++++++++++++++++++++++++++++++++---
 src/core/ts.cpp    | 48 ++++++++++++++--------------------------------
 src/core/tsdb.cpp  |  5 ++++-
 5 files changed, 67 insertions(+), 39 deletions(-)

diff --git a/include/query.h b/include/query.h
index b76eda0..9ebb1b7 100644
--- a/include/query.h
+++ b/include/query.h
@@ -237,6 +237,14 @@ public:
         header_idx = m_header_index;
     }
 
+    // pages flushed after in-memory data was collected should be ignored
+    inline bool is_after_tail(FileIndex file_idx, HeaderIndex header_idx) const
+    {
+        if (! m_has_tail) return false;
+        if (m_tail_file == TT_INVALID_FILE_INDEX) return true;
+        return (file_idx > m_tail_file) || ((file_idx == m_tail_file) && (header_idx > m_tail_header));
+    }
+
     uint32_t get_tstamp_from() const
     {
         return m_tstamp_from;
@@ -287,6 +295,7 @@ private:
     friend class QueryExecutor;
     friend class QuerySuperTask;
 
+    void add_mem_data();
     void query_with_ooo(const TimeRange& range);
     void query_without_ooo(const TimeRange& range);
 
@@ -297,6 +306,10 @@ private:
     DataPointVector m_dps;  // results before aggregation
     QueryResults m_results; // results after aggregation
     std::vector<DataPointContainer*> m_data;
+    std::vector<DataPointContainer*> m_mem_data;    // from in-memory pages
+    bool m_has_tail;            // is m_tail_* set?
+    FileIndex m_tail_file;      // last page on disk, when in-memory
+    HeaderIndex m_tail_header;  // data was collected
     uint32_t m_file_index;  // used for both rollup-idx and file-idx
     HeaderIndex m_header_index;
     uint32_t m_tstamp_from;
diff --git a/include/ts.h b/include/ts.h
index 9e71c76..1198dfa 100644
--- a/include/ts.h
+++ b/include/ts.h
@@ -78,7 +78,7 @@ public:
     void get_keys(std::set<std::string>& keys) const { m_tags.get_keys(keys); }
     void get_values(std::set<std::string>& values) const { m_tags.get_values(values); }
 
-    bool query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataPointContainer*>& data);
+    bool query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataPointContainer*>& data, bool& has_tail, FileIndex& tail_file, HeaderIndex& tail_header);
     void query_for_rollup(const TimeRange& range, QueryTask *qt, RollupType rollup, bool ms);
 
     inline bool is_type(int type) const override
diff --git a/src/core/query.cpp b/src/core/query.cpp
index 2ff9177..bb7d0cc 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -607,10 +607,26 @@ QueryTask::query_ts_data(Tsdb *tsdb, const TimeRange& range)
 {
     ASSERT(m_ts != nullptr);
 
-    if (m_ts->query_for_data(tsdb, range, m_data))
+    m_has_tail = false;
+
+    if (m_ts->query_for_data(tsdb, range, m_mem_data, m_has_tail, m_tail_file, m_tail_header))
         m_has_ooo = true;
 }
 
+// in-memory data is newer than what's on disk
+void
+QueryTask::add_mem_data()
+{
+    for (DataPointContainer *container: m_mem_data)
+    {
+        container->set_page_index(m_data.empty() ? 0 : (m_data.back()->get_page_index() + 1));
+        m_data.push_back(container);
+    }
+
+    m_mem_data.clear();
+    m_has_tail = false;
+}
+
 void
 QueryTask::query_ts_data(const TimeRange& range, RollupType rollup, bool ms)
 {
@@ -917,7 +933,11 @@ QueryTask::init()
     m_parent = nullptr;
     m_tstamp_from = 0;
     m_last_tstamp = TT_INVALID_TIMESTAMP;
+    m_has_tail = false;
+    m_tail_file = TT_INVALID_FILE_INDEX;
+    m_tail_header = TT_INVALID_HEADER_INDEX;
     ASSERT(m_data.empty());
+    ASSERT(m_mem_data.empty());
 }
 
 bool
@@ -926,7 +946,14 @@ QueryTask::recycle()
     m_dps.clear();
     m_dps.shrink_to_fit();
     m_results.recycle();
-    ASSERT(m_data.empty());
+
+    // not empty if the query failed
+    for (DataPointContainer *container: m_data)
+        MemoryManager::free_recyclable(container);
+    m_data.clear();
+    for (DataPointContainer *container: m_mem_data)
+        MemoryManager::free_recyclable(container);
+    m_mem_data.clear();
 
     m_ts = nullptr;
 
@@ -1096,11 +1123,16 @@ QuerySuperTask::query_raw(Tsdb *tsdb, const TimeRange& range, std::vector<QueryT
     ASSERT(tsdb != nullptr);
     if (tasks.empty()) return;
 
+    // collect in-memory data before reading from disk; otherwise a page being
+    // flushed by someone else after we've read from disk will be missed.
+    for (QueryTask *task : tasks)
+        task->query_ts_data(tsdb, range);
+
     tsdb->query_for_data(m_metric_id, range, tasks, m_compact);
 
     for (QueryTask *task : tasks)
     {
-        task->query_ts_data(tsdb, range);
+        task->add_mem_data();
         task->merge_data(range);
         task->set_tstamp_from(0);
     }
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index 9aaff26..7975997 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -444,57 +444,37 @@ TimeSeries::add_ooo_data_point(MetricId mid, DataPoint& dp)
     return ok;
 }
 
+// Collect in-memory data of this TimeSeries in the given 'tsdb'. If there's an
+// in-memory page, also return the indices of the last page on disk at this time.
 bool
-TimeSeries::query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataPointContainer*>& data)
+TimeSeries::query_for_data(Tsdb *tsdb, const TimeRange& range, std::vector<DataPointContainer*>& data, bool& has_tail, FileIndex& tail_file, HeaderIndex& tail_header)
 {
     bool has_ooo = false;
     //std::lock_guard<std::mutex> guard(m_lock);
     std::lock_guard<std::mutex> guard(m_locks[m_id % m_lock_count]);
 
-    if ((m_buff != nullptr) && (! m_buff->is_empty()) && (m_buff->get_tsdb() == tsdb))
+    for (PageInMemory *page: { m_buff, m_ooo_buff })
     {
-        TimeRange r = m_buff->get_time_range();
+        if ((page == nullptr) || (page->get_tsdb() != tsdb))
+            continue;
 
-        if (range.has_intersection(r))
-        {
-            PageIndex page_idx = 0;
-
-            if (! data.empty())
-            {
-                DataPointContainer *last = data.back();
-                page_idx = last->get_page_index() + 1;
-            }
+        has_tail = true;
+        tail_file = page->get_page_header()->get_next_file();
+        tail_header = page->get_page_header()->get_next_header();
 
-            DataPointContainer *container = (DataPointContainer*)
-                MemoryManager::alloc_recyclable(RecyclableType::RT_DATA_POINT_CONTAINER);
-            container->collect_data(m_buff);
-            container->set_page_index(page_idx);
-            ASSERT(container->size() > 0);
-            data.push_back(container);
-        }
-    }
+        if (page->is_empty())
+            continue;
 
-    if ((m_ooo_buff != nullptr) && (! m_ooo_buff->is_empty()) && (m_ooo_buff->get_tsdb() == tsdb))
-    {
-        TimeRange r = m_ooo_buff->get_time_range();
+        TimeRange r = page->get_time_range();
 
         if (range.has_intersection(r))
         {
-            PageIndex page_idx = 0;
-
-            if (! data.empty())
-            {
-                DataPointContainer *last = data.back();
-                page_idx = last->get_page_index() + 1;
-            }
-
             DataPointContainer *container = (DataPointContainer*)
                 MemoryManager::alloc_recyclable(RecyclableType::RT_DATA_POINT_CONTAINER);
-            container->collect_data(m_ooo_buff);
-            container->set_page_index(page_idx);
+            container->collect_data(page);
             ASSERT(container->size() > 0);
             data.push_back(container);
-            has_ooo = true;
+            if (page == m_ooo_buff) has_ooo = true;
         }
     }
 
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 7e2a594..477fb68 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1728,6 +1728,8 @@ Tsdb::query_for_data(MetricId mid, const TimeRange& range, std::vector<QueryTask
             m_index_file.get_indices(task->get_ts_id(), file_idx, header_idx);
         if (file_idx == TT_INVALID_FILE_INDEX || header_idx == TT_INVALID_HEADER_INDEX)
             continue;
+        if (task->is_after_tail(file_idx, header_idx))
+            continue;
         task->set_indices(file_idx, header_idx);
         pq.push(task);
     }
@@ -1760,7 +1762,8 @@ Tsdb::query_for_data(MetricId mid, const TimeRange& range, std::vector<QueryTask
         if (! get_out_of_order(task->get_ts_id()))
             task->merge_data(range);
 
-        if (file_or_rollup_idx != TT_INVALID_ROLLUP_INDEX && header_idx != TT_INVALID_HEADER_INDEX)
+        if (file_or_rollup_idx != TT_INVALID_ROLLUP_INDEX && header_idx != TT_INVALID_HEADER_INDEX &&
+            ! task->is_after_tail(file_or_rollup_idx, header_idx))
             pq.push(task);
     }
 
-- 
2.43.0


From a1848831fabcea9a82685aa43e98c49e7850806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:13 +0000
Subject: [PATCH 03/81] fix: answer 413 when a response body does not fit the
 network buffer

The response size was taken from snprintf(), which returns the length that
would have been written, so bytes past the end of the buffer were sent.
---
 src/core/http.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 7b0a52c..263d4a4 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -1040,6 +1040,13 @@ HttpResponse::init(uint16_t code, HttpContentType type, size_t length, const cha
             (body == nullptr) ? "" : body);
     }
 
+    // body does not fit?
+    if (response_size >= buffer_size)
+    {
+        init(413, HttpContentType::PLAIN);
+        return;
+    }
+
 #ifdef _DEBUG
     if (content_length > 0)
     {
-- 
2.43.0


From 5a1ff5939c9d795f8e6fc08178f450eb91153303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:46 +0000
Subject: [PATCH 04/81] fix: hold back SIGINT and SIGTERM until their handlers
 are installed

A signal that arrived after the ports were opened but before the handlers
were installed ended the process without a shutdown, and acknowledged writes
were lost.
---
 src/main.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 9e0871b..eef949e 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -364,6 +364,14 @@ main(int argc, char *argv[])
     std::signal(SIGSEGV, intr_handler);
 #endif
 
+    // Hold these back until the handlers are installed. A signal that arrives
+    // after clients are served but before that would lose their data.
+    sigset_t sigs;
+    sigemptyset(&sigs);
+    sigaddset(&sigs, SIGINT);
+    sigaddset(&sigs, SIGTERM);
+    pthread_sigmask(SIG_BLOCK, &sigs, nullptr);
+
     if (process_cmdline_opts(argc, argv) != 0) return 1;
 
     try
@@ -419,6 +427,7 @@ main(int argc, char *argv[])
     std::signal(SIGABRT, intr_handler);
     std::signal(SIGBUS, intr_handler);
     std::set_terminate(terminate_handler);
+    pthread_sigmask(SIG_UNBLOCK, &sigs, nullptr);
 
     if (! g_run_as_daemon && ! g_quiet)
         printf("TickTockDB is ready...\n");
-- 
2.43.0


From ebc94952d9fae29aad4cae93f7d37f002f846287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:45 +0000
Subject: [PATCH 05/81] fix: reallocate the in-memory page when the page size
 changes

A time series keeps its in-memory page when it moves on to the next day.
If that day was created with a different page size, the old page was too
small (or too large) and memory behind it was overwritten.
---
 src/core/page.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/page.cpp b/src/core/page.cpp
index 1c73f06..99044f5 100644
--- a/src/core/page.cpp
+++ b/src/core/page.cpp
@@ -208,7 +208,16 @@ PageInMemory::init(MetricId mid, TimeSeriesId tid, Tsdb *tsdb, bool is_ooo, Page
     else
     {
         if (m_tsdb != nullptr)
+        {
+            // page size could be different in the new tsdb
+            if (m_tsdb->get_page_size() != tsdb->get_page_size())
+            {
+                std::free(m_page);
+                m_page = nullptr;
+            }
+
             m_tsdb->dec_ref_count();
+        }
 
         m_tsdb = tsdb;
         m_start = from;
-- 
2.43.0


From 941814c328cc38444bb5fcfa28ecb205aa0baf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:46:37 +0000
Subject: [PATCH 06/81] fix: do not read past the end of a malformed put line

The parser for plain put lines looked for the next space wherever it was,
so a line with missing fields ran on into the following lines or into
other buffers, and stored points nobody sent. Lines with missing fields or
non-numeric time or value are now rejected one by one, and the lines after
them are still stored. A UDP datagram longer than the longest line is
dropped instead of being stored with its end cut off.
---
 include/dp.h      |  1 +
 src/core/dp.cpp   | 32 +++++++++++++++++++++++++++-----
 src/core/tsdb.cpp |  2 +-
 src/core/udp.cpp  |  4 +++-
 4 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/include/dp.h b/include/dp.h
index 5ebc65c..49ec16c 100644
--- a/include/dp.h
+++ b/include/dp.h
@@ -70,6 +70,7 @@ public:
     char* from_http(char* http);
     char* from_json(char* json);
     bool from_plain(char* &text);
+    static bool skip_line(char* &text);
     bool parse_raw_tags();  // convert raw tags (string) into KeyValuePair(s)
 
     inline const char *get_metric() { return m_metric; }
diff --git a/src/core/dp.cpp b/src/core/dp.cpp
index d9ea571..fc0493a 100644
--- a/src/core/dp.cpp
+++ b/src/core/dp.cpp
@@ -173,20 +173,32 @@ DataPoint::from_plain(char* &text)
         do
         {
             if (*++text == ' ') *text = '_';
-        } while ((*text != '"') && (*text != '\n'));
+        } while ((*text != '"') && (*text != '\n') && (*text != 0));
+        if (UNLIKELY(*text != '"')) return skip_line(text);
         *text++ = 0;
+        if (UNLIKELY(*text != ' ')) return skip_line(text);
     }
     else
-        text = (char*)rawmemchr((void*)text, ' ');
+    {
+        while ((*text != ' ') && (*text != '\n') && (*text != 0)) text++;
+        if (UNLIKELY(*text != ' ')) return skip_line(text);
+    }
     *text++ = 0;
+    if (UNLIKELY(*m_metric == 0)) return skip_line(text);
+    if (UNLIKELY(! std::isdigit((unsigned char)*text))) return skip_line(text);
     m_timestamp = (Timestamp)std::atoll(text);
     //ASSERT(g_tstamp_resolution_ms ? is_ms(m_timestamp) : is_sec(m_timestamp));
-    text = (char*)rawmemchr((void*)text, ' ');
+    while ((*text != ' ') && (*text != '\n') && (*text != 0)) text++;
+    if (UNLIKELY(*text != ' ')) return skip_line(text);
     text++;
     if (*text == '"') text++;
-    m_value = std::atof(text);
-    while ((*text != ' ') && (*text != '\n')) text++;
+    if (UNLIKELY(std::isspace((unsigned char)*text))) return skip_line(text);
+    char *end;
+    m_value = std::strtod(text, &end);
+    if (UNLIKELY(end == text)) return skip_line(text);
+    while ((*text != ' ') && (*text != '\n') && (*text != 0)) text++;
     if (*text == '\n') { text++; return true; }
+    if (*text == 0) return true;
     m_raw_tags = ++text;
     // Converting <tag1>=<val1> <tag2=<val2> ... into
     // <tag1>=<val1>,<tag2>=<val2>,..., to match the InfluxDB line protocol
@@ -195,11 +207,21 @@ DataPoint::from_plain(char* &text)
         if (*text == ' ') *text = ',';
         text++;
     }
+    if (UNLIKELY(*text == 0)) return true;
     *text++ = 0;
     if (UNLIKELY(*(text-2) == '\r')) *(text-2) = 0;
     return true;
 }
 
+// move to the beginning of the next line; always return false
+bool
+DataPoint::skip_line(char* &text)
+{
+    while ((*text != '\n') && (*text != 0)) text++;
+    if (*text == '\n') text++;
+    return false;
+}
+
 char *
 DataPoint::next_word(char* json, char* &word)
 {
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 477fb68..d8a64c5 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2475,7 +2475,7 @@ Tsdb::http_api_put_handler_plain(HttpRequest& request, HttpResponse& response)
 
         curr += 4;
         bool ok = dp.from_plain(curr);
-        if (! ok) { success = false; break; }
+        if (! ok) { success = false; continue; }    // ignore this line only
 
         success = add_data_point(dp, forward) && success;
     }
diff --git a/src/core/udp.cpp b/src/core/udp.cpp
index 2a582d5..97ae527 100644
--- a/src/core/udp.cpp
+++ b/src/core/udp.cpp
@@ -123,7 +123,9 @@ UdpListener::receiver()
             buffs[i][len] = '\n';
             buffs[i][len+1] = 0;
 
-            process_one_line(buffs[i]);
+            // ignore datagrams that are too long
+            if ((msgs[i].msg_hdr.msg_flags & MSG_TRUNC) == 0)
+                process_one_line(buffs[i]);
 
             msgs[i].msg_len = 0;
             msgs[i].msg_hdr.msg_flags = 0;
-- 
2.43.0


From e2d47943a830c7bb0cf0b616897eb3323f4a7fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:49:45 +0000
Subject: [PATCH 07/81] fix: keep a malformed line-protocol line from affecting
 other lines

Only the first line of a request was checked. In later lines the parser
looked for the next separator wherever it was, even past the end of the
request. A backslash before a line break hid the line break, a comment or
checkpoint line without a line break ended in a null pointer, and a bad
or empty line made the server drop all lines after it. Each line is now
checked on its own, a bad line is skipped and reported with status 400,
and the lines around it are stored.
---
 src/core/tsdb.cpp | 84 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 63 insertions(+), 21 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index d8a64c5..2e985ff 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2513,7 +2513,7 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
     // parse 1st line with more checks
     while (*curr == '#')
     {
-        while ((*(++curr) != '\n') && (*curr != 0))
+        while ((*curr != '\n') && (*curr != 0))
             curr++;
         if (*curr == 0)
             break;
@@ -2543,21 +2543,28 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
             success = false;
     }
 
-    if (*curr != 0 && *curr != '\n')
-        success = success && parse_line_safe(curr, measurement, tags, ts, dps);
-
-    if (ts == 0) ts = now;
-    if (success && measurement != nullptr)
-        success = add_data_points(measurement, tags, ts, dps);
+    if (curr != nullptr && *curr != 0 && *curr != '\n')
+    {
+        if (! parse_line_safe(curr, measurement, tags, ts, dps))
+        {
+            DataPoint::skip_line(curr);     // ignore this line only
+            success = false;
+        }
+        else
+        {
+            if (ts == 0) ts = now;
+            success = add_data_points(measurement, tags, ts, dps) && success;
+        }
+    }
     dps.clear();
 
     // parse the rest of the lines
-    while ((curr != nullptr) && (*curr != 0) && success)
+    while ((curr != nullptr) && (*curr != 0))
     {
         if (UNLIKELY(*curr == '#'))
         {
             curr = strchr(curr, '\n');
-            curr++;
+            if (curr != nullptr) curr++;
             continue;
         }
 
@@ -2576,22 +2583,27 @@ Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
             else
                 success = false;
 
-            if (curr == nullptr || *curr == 0)
-                break;
+            continue;
         }
-        else if (UNLIKELY(curr[0] == 0 || curr[0] == '\n' || curr[0] == '\r'))
+        else if (UNLIKELY(curr[0] == '\n' || curr[0] == '\r'))
         {
-            break;
+            curr++;     // ignore empty lines
+            continue;
         }
 
         tags = nullptr;
         ts = 0;
 
-        bool ok = parse_line(curr, measurement, tags, ts, dps);
-        if (! ok) { success = false; break; }
-
-        if (ts == 0) ts = now;
-        success = add_data_points(measurement, tags, ts, dps) && success;
+        if (! parse_line(curr, measurement, tags, ts, dps))
+        {
+            DataPoint::skip_line(curr);     // ignore this line only
+            success = false;
+        }
+        else
+        {
+            if (ts == 0) ts = now;
+            success = add_data_points(measurement, tags, ts, dps) && success;
+        }
 
         dps.clear();
     }
@@ -2738,16 +2750,21 @@ Tsdb::parse_line(char* &line, const char* &measurement, char* &tags, Timestamp&
                 case ',':   *line = 'C'; break;
                 case '=':   *line = 'E'; break;
                 case ' ':   *line = 'S'; break;
+                case '\n':
+                case 0:     continue;   // end of line
                 default:    *line = '_'; break;
             }
             line++;
         }
-        else if ((*line == ',') || (*line == ' '))
+        else if ((*line == ',') || (*line == ' ') || (*line == '\n') || (*line == 0))
             break;
         else
             line++;
     }
 
+    if (((*line != ',') && (*line != ' ')) || (line == measurement))
+        return false;
+
     if (*line == ',')
     {
         *line = 0;  // end of measurement
@@ -2763,17 +2780,22 @@ Tsdb::parse_line(char* &line, const char* &measurement, char* &tags, Timestamp&
                     case ',':   *line = 'C'; break;
                     case '=':   *line = 'E'; break;
                     case ' ':   *line = 'S'; break;
+                    case '\n':
+                    case 0:     continue;   // end of line
                     default:    *line = '_'; break;
                 }
                 line++;
             }
-            else if (*line == ' ')
+            else if ((*line == ' ') || (*line == '\n') || (*line == 0))
                 break;
             else
                 line++;
         }
     }
 
+    if (*line != ' ')
+        return false;
+
     *line = 0;
 
     // ' <field_key>=<field_value>[,<field_key>=<field_value>] [<timestamp>]'
@@ -2795,16 +2817,28 @@ Tsdb::parse_line(char* &line, const char* &measurement, char* &tags, Timestamp&
                     case ',':   *line = 'C'; break;
                     case '=':   *line = 'E'; break;
                     case ' ':   *line = 'S'; break;
+                    case '\n':
+                    case 0:     continue;   // end of line
                     default:    *line = '_'; break;
                 }
                 line++;
             }
-            else if (*line == '=')
+            else if ((*line == '=') || (*line == '\n') || (*line == 0))
                 break;
             else
                 line++;
         }
+
+        if (*line != '=')
+            return false;
+
         *line++ = 0;  // end of field name
+
+        // the next one has to be a number
+        if ((!std::isdigit(*line)) && (*line != '+') && (*line != '-') && (*line != '.') &&
+            !((std::strncmp(line, "inf", 3) == 0 || std::strncmp(line, "nan", 3) == 0)))
+            return false;
+
         dp.set_raw_tags(field);    // use raw_tags to remember field name
         dp.set_value(std::atof(line));
 
@@ -2817,6 +2851,8 @@ Tsdb::parse_line(char* &line, const char* &measurement, char* &tags, Timestamp&
         line++;
     else if (*line != 0)
     {
+        if (! std::isdigit(*line))
+            return false;
         ts = std::atoll(line);
         while (*line != '\n' && *line != 0) line++;
         if (*line == '\n') line++;
@@ -2851,6 +2887,8 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
                 case ',':   *line = 'C'; break;
                 case '=':   *line = 'E'; break;
                 case ' ':   *line = 'S'; break;
+                case '\n':
+                case 0:     continue;   // end of line
                 default:    *line = '_'; break;
             }
             line++;
@@ -2880,6 +2918,8 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
                     case ',':   *line = 'C'; break;
                     case '=':   *line = 'E'; break;
                     case ' ':   *line = 'S'; break;
+                    case '\n':
+                    case 0:     continue;   // end of line
                     default:    *line = '_'; break;
                 }
                 line++;
@@ -2915,6 +2955,8 @@ Tsdb::parse_line_safe(char* &line, const char* &measurement, char* &tags, Timest
                     case ',':   *line = 'C'; break;
                     case '=':   *line = 'E'; break;
                     case ' ':   *line = 'S'; break;
+                    case '\n':
+                    case 0:     continue;   // end of line
                     default:    *line = '_'; break;
                 }
                 line++;
-- 
2.43.0


From 64f6cb91eca74ffaf03cf1dded0fc58185b3890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:47 +0000
Subject: [PATCH 08/81] fix: reject incomplete data points in JSON put requests

The JSON parser for put requests ran past the end of the request when a
brace, a colon or a number was missing, stored points without a time or a
value as zero, and read everything after a numeric tag value as part of
the tags. A bad element of an array was not counted as failed. Incomplete
data points are now rejected and counted.
---
 src/core/dp.cpp   | 35 +++++++++++++++++++++++++++--------
 src/core/tsdb.cpp | 10 ++++++++--
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/core/dp.cpp b/src/core/dp.cpp
index fc0493a..dd45e55 100644
--- a/src/core/dp.cpp
+++ b/src/core/dp.cpp
@@ -115,7 +115,11 @@ char *
 DataPoint::from_json(char* json)
 {
     if (json == nullptr) return nullptr;
-    while (*json != '{') json++;
+    while ((*json != '{') && (*json != 0)) json++;
+    if (*json == 0) return nullptr;
+
+    bool has_timestamp = false;
+    bool has_value = false;
 
     for (json++; *json != '}' && *json != 0; )
     {
@@ -141,10 +145,14 @@ DataPoint::from_json(char* json)
         {
             json = next_long(json, m_timestamp);
             //ASSERT(g_tstamp_resolution_ms ? is_ms(m_timestamp) : is_sec(m_timestamp));
+            if (json == nullptr) return nullptr;
+            has_timestamp = true;
         }
         else if (strcmp(key, "value") == 0)
         {
             json = next_double(json, m_value);
+            if (json == nullptr) return nullptr;
+            has_value = true;
         }
         else
         {
@@ -154,6 +162,10 @@ DataPoint::from_json(char* json)
         while (isspace(*json)) json++;
     }
 
+    // make sure the object is complete
+    if ((*json != '}') || (m_metric == nullptr) || (*m_metric == 0) || !has_timestamp || !has_value)
+        return nullptr;
+
     return json + 1;
 }
 
@@ -259,8 +271,8 @@ DataPoint::next_value(char* json, char* &value, bool& quote)
     else if (std::isdigit(*curr))
     {
         value = curr;
-        double dbl;
-        curr = next_double(curr, dbl);
+        while ((*curr != ',') && (*curr != '}') && (*curr != 0)) curr++;
+        if (*curr == 0) return nullptr;
         if (*curr == '}') quote = true;
         *curr = 0;
         return curr+1;
@@ -269,6 +281,7 @@ DataPoint::next_value(char* json, char* &value, bool& quote)
     {
         value = curr;
         for (curr; std::isalpha(*curr); curr++) /* do nothing */;
+        if (*curr == 0) return nullptr;
         if (*curr == '}') quote = true;
         *curr = 0;
         for (curr++; std::isspace(*curr); curr++) /* do nothing */;
@@ -279,7 +292,8 @@ DataPoint::next_value(char* json, char* &value, bool& quote)
 char *
 DataPoint::next_long(char* json, Timestamp &number)
 {
-    while (! std::isdigit(*json) && (*json != 0) && (*json != '\n')) json++;
+    while (! std::isdigit(*json) && (*json != ',') && (*json != '}') && (*json != 0)) json++;
+    if (! std::isdigit(*json)) return nullptr;
     number = (Timestamp)std::atoll(json);
     //number = (g_tstamp_resolution_ms ? to_ms(number) : to_sec(number));
     while (std::isdigit(*json)) json++;
@@ -291,12 +305,14 @@ char *
 DataPoint::next_double(char* json, double &number)
 {
     //while (! std::isdigit(*json) && (*json != '.') && (*json != '+') && (*json != '-') && (*json != '\n')) json++;
-    while ((*json != ':') && (*json != '\n')) json++;
+    while ((*json != ':') && (*json != '\n') && (*json != 0)) json++;
     if (*json == ':') json++;
     while ((*json == '"') || std::isspace(*json)) json++;
-    number = std::atof(json);
+    char *end;
+    number = std::strtod(json, &end);
+    if (end == json) return nullptr;
     //while (std::isdigit(*json) || (*json == '.') || (*json == '+') || (*json == '-') || (*json == 'e') || (*json == 'n') || (*json == 'a') || (*json == 'N') || (*json == 'A')) json++;
-    while ((*json != ',') && (*json != '}')) json++;
+    while ((*json != ',') && (*json != '}') && (*json != 0)) json++;
     //if (*json == '"') json++;   // in case the number is quoted
     return json;
 }
@@ -306,6 +322,8 @@ DataPoint::next_tags(char* json)
 {
     bool quote = false;
 
+    if (*json == 0) return nullptr;
+
     for (json++; (*json != '}') && (*json != 0); )
     {
         char *name, *value;
@@ -319,9 +337,10 @@ DataPoint::next_tags(char* json)
         ASSERT(*value != ':');
         add_tag(name, value);
         while (std::isspace(*json)) json++;
+        if (quote) return json;     // already went past the closing '}'
     }
 
-    if ((*json == '}') && !quote) json++;
+    if (*json == '}') json++;
 
     return json;
 }
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 2e985ff..87b527f 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2371,11 +2371,17 @@ Tsdb::http_api_put_handler_json(HttpRequest& request, HttpResponse& response)
     else
     {
         // multiple data point
+        if (*curr != 0) curr++;
+        while (isspace(*curr)) curr++;
         while ((*curr != ']') && (*curr != 0))
         {
             DataPoint dp;
-            curr = dp.from_json(curr+1);
-            if (curr == nullptr) break;
+            curr = dp.from_json(curr);
+            if (curr == nullptr)
+            {
+                failed++;
+                break;
+            }
 
             if (add_data_point(dp, false))
                 success++;
-- 
2.43.0


From 2e43cb17da495809e209d306cd78d5ea7cb84848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:51:26 +0000
Subject: [PATCH 09/81] fix: keep large lookup answers inside the response
 buffer

The lookup handler wrote past the end of the buffer when many series
matched, and produced broken JSON when the limit or start index left no
result. It now answers 413 when the result does not fit.
---
 src/core/query.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index bb7d0cc..0b4b71d 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1586,6 +1586,7 @@ QueryExecutor::http_get_api_search_lookup_handler(HttpRequest& request, HttpResp
         int n = 0;  // resp_buff position
         int i = 0;  // starting index tracker
         int l = 0;  // limit tracker
+        bool found = false;
 
         // meta
         n += snprintf(resp_buff+n, size-n,
@@ -1593,24 +1594,26 @@ QueryExecutor::http_get_api_search_lookup_handler(HttpRequest& request, HttpResp
             limit, index, (unsigned int)tsv.size(), metric);
 
         // tags
-        for (auto tag = tags.get_tags(); tag != nullptr; tag = tag->next())
+        for (auto tag = tags.get_tags(); tag != nullptr && n < size; tag = tag->next())
             n += snprintf(resp_buff+n, size-n, "{\"key\":\"%s\",\"value\":\"%s\"},", tag->m_key, tag->m_value);
 
         // remove last comma
         if (tags.get_tags() != nullptr) n--;
-        n += snprintf(resp_buff+n, size-n, "],\"results\":[");
+        if (n < size)
+            n += snprintf(resp_buff+n, size-n, "],\"results\":[");
 
         // results
         for (auto ts: tsv)
         {
             if (i++ < index) continue;
-            if (l++ >= limit) break;
+            if (l++ >= limit || n >= size) break;
+            found = true;
 
             n += snprintf(resp_buff+n, size-n, "{\"tsuid\":\"%09X\",\"metric\":\"%s\",\"tags\":{",
                 ts->get_id(), metric);
 
             Tag *tags = ts->get_tags();
-            for (auto tag = tags; tag != nullptr; tag = tag->next())
+            for (auto tag = tags; tag != nullptr && n < size; tag = tag->next())
                 n += snprintf(resp_buff+n, size-n, "\"%s\":\"%s\",", tag->m_key, tag->m_value);
 
             if (tags != nullptr)
@@ -1619,15 +1622,22 @@ QueryExecutor::http_get_api_search_lookup_handler(HttpRequest& request, HttpResp
                 Tag::free_list(tags, false);
             }
 
-            n += snprintf(resp_buff+n, size-n, "}},");
+            if (n < size)
+                n += snprintf(resp_buff+n, size-n, "}},");
         }
 
         // remove last comma
-        if (! tsv.empty()) n--;
-        n += snprintf(resp_buff+n, size-n, "]}");
-        ASSERT((n+1) < size);
+        if (found) n--;
+        if (n < size)
+            n += snprintf(resp_buff+n, size-n, "]}");
 
-        response.init(200, HttpContentType::JSON, n);
+        if (n < size)
+            response.init(200, HttpContentType::JSON, n);
+        else
+        {
+            Logger::error("response too large, %d >= %d", n, size);
+            response.init(413, HttpContentType::PLAIN, 0, nullptr);
+        }
     }
 
     return true;
-- 
2.43.0


From 25a4e2678380436d0ea989f556e562fff3931327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:33 +0000
Subject: [PATCH 10/81] fix: do not die when a client disconnects before
 reading its response

Writing to a closed connection raises SIGPIPE, which ended the server.
---
 src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index eef949e..7f2e888 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -364,6 +364,9 @@ main(int argc, char *argv[])
     std::signal(SIGSEGV, intr_handler);
 #endif
 
+    // a client that disconnects before reading its response must not kill us
+    std::signal(SIGPIPE, SIG_IGN);
+
     // Hold these back until the handlers are installed. A signal that arrives
     // after clients are served but before that would lose their data.
     sigset_t sigs;
-- 
2.43.0


From 8cfcaadb343f1a961e6416074afe60e1e9828b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:16 +0000
Subject: [PATCH 11/81] fix: do not skip over unexpected characters in JSON put
 requests

The parser took the next quoted word or digit wherever it was, so a data
point with a missing brace was stored with fields of the one after it.
---
 src/core/dp.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/dp.cpp b/src/core/dp.cpp
index dd45e55..aa9a2b2 100644
--- a/src/core/dp.cpp
+++ b/src/core/dp.cpp
@@ -137,7 +137,8 @@ DataPoint::from_json(char* json)
         }
         else if (strcmp(key, "tags") == 0)
         {
-            while ((*json != '{') && (*json != 0)) json++;
+            while (std::isspace(*json) || (*json == ':')) json++;
+            if (*json != '{') return nullptr;
             json = next_tags(json);
             if (json == nullptr) return nullptr;
         }
@@ -237,8 +238,9 @@ DataPoint::skip_line(char* &text)
 char *
 DataPoint::next_word(char* json, char* &word)
 {
-    char *curr = strchr(json, '"');
-    if (curr == nullptr) return nullptr;
+    char *curr = json;
+    while (std::isspace(*curr) || (*curr == ',') || (*curr == ':')) curr++;
+    if (*curr != '"') return nullptr;
     curr++;
     word = curr;
     curr = strchr(curr, '"');
@@ -292,7 +294,7 @@ DataPoint::next_value(char* json, char* &value, bool& quote)
 char *
 DataPoint::next_long(char* json, Timestamp &number)
 {
-    while (! std::isdigit(*json) && (*json != ',') && (*json != '}') && (*json != 0)) json++;
+    while (std::isspace(*json) || (*json == ':') || (*json == '"')) json++;
     if (! std::isdigit(*json)) return nullptr;
     number = (Timestamp)std::atoll(json);
     //number = (g_tstamp_resolution_ms ? to_ms(number) : to_sec(number));
@@ -322,8 +324,6 @@ DataPoint::next_tags(char* json)
 {
     bool quote = false;
 
-    if (*json == 0) return nullptr;
-
     for (json++; (*json != '}') && (*json != 0); )
     {
         char *name, *value;
-- 
2.43.0


From 6587987ac606c64cf113bfa1c25099b5bd85389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:34 +0000
Subject: [PATCH 12/81] fix: process every line of a telnet chunk

A blank line made the rest of the received chunk to be dropped, and
only the first of several commands in a chunk was handled. Skip blank
lines and process commands that send a response one at a time.
---
 include/tcp.h     |  1 +
 src/core/tcp.cpp  | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 src/core/tsdb.cpp |  2 +-
 3 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/include/tcp.h b/include/tcp.h
index 350f840..a4940c5 100644
--- a/include/tcp.h
+++ b/include/tcp.h
@@ -304,6 +304,7 @@ private:
     friend class TcpListener;
     static bool set_flags(int fd, int flags);
     static bool process_data(TcpConnection *conn, char *data, int len);
+    static void process_lines(TcpConnection *conn, char *data, int len);
     static void send_response(int fd, char *content, int len);
 
     int listen(int port, int listener_count);   // return fd
diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index b1a32a3..014d355 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -472,7 +472,7 @@ TcpServer::recv_tcp_data(TaskData& data)
             char tmp[len+1];
 
             memcpy((void*)tmp, last+1, len);
-            process_data(conn, buff, l);
+            process_lines(conn, buff, l);
             if (len > 0) memcpy((void*)buff, tmp, len);
         }
     }
@@ -511,6 +511,49 @@ TcpServer::recv_tcp_data(TaskData& data)
     return false;
 }
 
+static bool
+is_command(const char *line, size_t len)
+{
+    switch (len)
+    {
+        case 5:     return std::strncmp(line, "help\n", 5) == 0;
+        case 6:     return std::strncmp(line, "stats\n", 6) == 0;
+        case 8:     return std::strncmp(line, "version\n", 8) == 0;
+        case 10:    return std::strncmp(line, "diediedie\n", 10) == 0;
+        default:    return false;
+    }
+}
+
+// Commands that send back a response have to be processed one at a time,
+// because there's only one response per call to process_data().
+void
+TcpServer::process_lines(TcpConnection *conn, char *data, int len)
+{
+    char *end = data + len;
+
+    if (! (conn->state.load(std::memory_order_relaxed) & TCS_SECOND))
+    {
+        for (char *line = data, *next; line < end; line = next)
+        {
+            next = (char*)std::memchr(line, '\n', end-line) + 1;
+
+            if (! is_command(line, next-line)) continue;
+
+            // process_data() will overwrite what comes after the line(s)
+            char saved[4];
+            std::memcpy(saved, line, sizeof(saved));
+            if (line > data) process_data(conn, data, line-data);
+            std::memcpy(line, saved, sizeof(saved));
+            std::memcpy(saved, next, sizeof(saved));
+            process_data(conn, line, next-line);
+            std::memcpy(next, saved, sizeof(saved));
+            data = next;
+        }
+    }
+
+    if (data < end) process_data(conn, data, end-data);
+}
+
 bool
 TcpServer::process_data(TcpConnection *conn, char *data, int len)
 {
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 87b527f..5b39edc 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2443,7 +2443,7 @@ Tsdb::http_api_put_handler_plain(HttpRequest& request, HttpResponse& response)
     {
         DataPoint dp;
 
-        if (std::isspace(*curr)) break;
+        if (UNLIKELY(std::isspace(*curr))) { curr++; continue; }    // ignore empty lines
         if (UNLIKELY(std::strncmp(curr, "put ", 4) != 0))
         {
             if (std::strncmp(curr, "version\n", 8) == 0)
-- 
2.43.0


From 284a97d5f29fdcd02281a1caff69a9f4229bfcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:11:32 +0000
Subject: [PATCH 13/81] fix: do not run past the end of malformed JSON in
 queries

A query body that ended inside a map, a string or a number made the
parser read memory behind the request, or loop forever. Reject it.
---
 src/utils/json.cpp | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/utils/json.cpp b/src/utils/json.cpp
index c740cff..ccf1e03 100644
--- a/src/utils/json.cpp
+++ b/src/utils/json.cpp
@@ -18,6 +18,8 @@
 
 #include <cassert>
 #include <cctype>
+#include <cstring>
+#include <stdexcept>
 #include "json.h"
 #include "memmgr.h"
 #include "utils.h"
@@ -27,6 +29,26 @@ namespace tt
 {
 
 
+// return position of the closing double-quote
+static char *
+find_end_quote(char *json)
+{
+    char *quote = std::strchr(json, '"');
+    if (quote == nullptr)
+        throw std::runtime_error(std::string("Unterminated JSON string: ") + json);
+    return quote;
+}
+
+// return position of the character that ends the number
+static char *
+find_end_number(char *json)
+{
+    char *end = (*json == 0) ? nullptr : std::strpbrk(json+1, ",]}");
+    if (end == nullptr)
+        throw std::runtime_error(std::string("Unterminated JSON value: ") + json);
+    return end;
+}
+
 char *
 JsonParser::parse_map(char *json, JsonMap& map, char delim)
 {
@@ -74,7 +96,7 @@ JsonParser::parse_array(char *json, JsonArray& array)
         if (*json == '"')
         {
             char *str = ++json;
-            while (*json != '"') json++;
+            json = find_end_quote(json);
             *json = 0;
             json++;
             value->set_value(str);
@@ -103,7 +125,7 @@ JsonParser::parse_array(char *json, JsonArray& array)
         {
             double dbl = atof(json);
             value->set_value(dbl);
-            do { json++; } while ((*json != ',') && (*json != ']') && (*json != '}'));
+            json = find_end_number(json);
         }
 
         array.push_back(value);
@@ -118,12 +140,14 @@ JsonParser::parse_key_value(char *json, std::pair<const char*,JsonValue*>& pair,
     ASSERT(json != nullptr);
 
     while (std::isspace(*json)) json++;
-    ASSERT(*json == '"');
+    if (UNLIKELY(*json != '"'))
+        throw std::runtime_error(std::string("Malformatted JSON key: ") + json);
     char *key = ++json;
-    while (*json != '"') json++;
+    json = find_end_quote(json);
     *json = 0;
     do { json++; } while (std::isspace(*json));
-    ASSERT(*json == delim);
+    if (UNLIKELY(*json != delim))
+        throw std::runtime_error(std::string("Malformatted JSON kv: ") + key);
     do { json++; } while (std::isspace(*json));
 
     JsonValue *value =
@@ -132,7 +156,7 @@ JsonParser::parse_key_value(char *json, std::pair<const char*,JsonValue*>& pair,
     if (*json == '"')
     {
         value->set_value(++json);
-        while (*json != '"') json++;
+        json = find_end_quote(json);
         *json = 0;
         json++;
     }
@@ -160,7 +184,7 @@ JsonParser::parse_key_value(char *json, std::pair<const char*,JsonValue*>& pair,
     {
         double dbl = atof(json);
         value->set_value(dbl);
-        do { json++; } while ((*json != ',') && (*json != ']') && (*json != '}'));
+        json = find_end_number(json);
     }
 
     pair.first = key;
@@ -198,7 +222,7 @@ JsonParser::parse_key_value_unquoted(char *json, std::pair<const char*,JsonValue
     ASSERT(json != nullptr);
 
     while (std::isspace(*json)) json++;
-    char *key = json++;
+    char *key = json;
     while ((*json != delim) && !std::isspace(*json) && (*json != 0)) json++;
     if (UNLIKELY(*json == 0))
         throw std::runtime_error(std::string("Malformatted JSON kv: ") + key);
@@ -232,7 +256,9 @@ JsonParser::parse_key_value_unquoted(char *json, std::pair<const char*,JsonValue
     else
     {
         value->set_value(json);
-        while ((*json != delim) && !std::isspace(*json) && (*json != ',') && (*json != ']') && (*json != '}')) json++;
+        while ((*json != delim) && !std::isspace(*json) && (*json != ',') && (*json != ']') && (*json != '}') && (*json != 0)) json++;
+        if (UNLIKELY(*json == 0))
+            throw std::runtime_error(std::string("Malformatted JSON kv: ") + key);
         if ((*json != ',') && (*json != ']') && (*json != '}'))
         {
             *json = 0;
-- 
2.43.0


From 7ff5c4f90b51e7095c2a54246764b3729cfbea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:13 +0000
Subject: [PATCH 14/81] fix: ignore an incomplete last line in the meta files
 after a crash

A process killed while writing the metrics or ts file leaves half a line behind.
The ID at its end cannot be trusted, and the next entry would be appended to it.
Remove such a line before the files are read. Write the version line whenever
the file is empty, and write a metric before any of its time series.
---
 src/utils/meta.cpp | 52 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/utils/meta.cpp b/src/utils/meta.cpp
index 3e8addb..13d70ed 100644
--- a/src/utils/meta.cpp
+++ b/src/utils/meta.cpp
@@ -20,6 +20,7 @@
 #include <fstream>
 #include <limits.h>
 #include <sys/stat.h>
+#include <unistd.h>
 #include "append.h"
 #include "config.h"
 #include "fd.h"
@@ -39,6 +40,41 @@ namespace tt
 MetaFile * MetaFile::m_instance;    // Singleton instance
 
 
+// If we were killed in the middle of a write, the last line is incomplete.
+// Its ID can't be trusted, and nothing should be appended to it.
+static void
+remove_incomplete_line(const std::string& name)
+{
+    int fd = ::open(name.c_str(), O_RDWR);
+    if (fd < 0) return;
+
+    char ch;
+    off_t length = ::lseek(fd, 0, SEEK_END);
+    off_t pos = length;
+
+    while (pos > 0)
+    {
+        if ((::lseek(fd, pos-1, SEEK_SET) < 0) || (::read(fd, &ch, 1) != 1))
+        {
+            Logger::error("Failed to read %s: %d", name.c_str(), errno);
+            pos = length;
+            break;
+        }
+
+        if (ch == '\n') break;
+        pos--;
+    }
+
+    if (pos < length)
+    {
+        Logger::warn("Removing incomplete line from %s", name.c_str());
+        if (::ftruncate(fd, pos) != 0)
+            Logger::error("Failed to truncate %s: %d", name.c_str(), errno);
+    }
+
+    ::close(fd);
+}
+
 void
 MetaFile::init(void (*restore_metrics)(MetricId, std::string& name), TimeSeries* (*restore_ts)(std::string& metric, std::string& key, TimeSeriesId id),
                void (*restore_measurement)(std::string& measurement, std::string& tags, std::vector<std::pair<std::string,TimeSeriesId>>& fields, std::vector<TimeSeries*>& tsv))
@@ -63,6 +99,7 @@ MetaFile::restore_metrics(void (*restore_metrics)(MetricId, std::string& name))
     snprintf(buff, sizeof(buff), "%s/metrics", Config::get_data_dir().c_str());
     m_metrics_name.assign(buff);
     m_metrics_file = nullptr;
+    remove_incomplete_line(m_metrics_name);
 
     //bool restore_needed = AppendLog::restore_needed();
     std::vector<TimeSeries*> tsv;
@@ -104,6 +141,7 @@ MetaFile::restore_ts(TimeSeries* (*restore_ts)(std::string& metric, std::string&
     snprintf(buff, sizeof(buff), "%s/ts", Config::get_data_dir().c_str());
     m_ts_name.assign(buff);
     m_ts_file = nullptr;
+    remove_incomplete_line(m_ts_name);
 
     bool restore_needed = AppendLog::restore_needed();
     std::vector<TimeSeries*> tsv;
@@ -184,7 +222,7 @@ MetaFile::open()
     ASSERT(m_metrics_file == nullptr);
 
     // open ts file
-    bool is_new = ! file_exists(m_ts_name);
+    struct stat sb;
     int fd = ::open(m_ts_name.c_str(), O_WRONLY|O_CREAT|O_APPEND|O_NONBLOCK, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
     fd = FileDescriptorManager::dup_fd(fd, FileDescriptorType::FD_FILE);
 
@@ -197,12 +235,11 @@ MetaFile::open()
         m_ts_file = fdopen(fd, "a");
         if (m_ts_file == nullptr)
             Logger::error("Failed to convert fd %d to FILE: %d", fd, errno);
-        else if (is_new)    // 1st line: ticktock version
+        else if ((fstat(fd, &sb) == 0) && (sb.st_size == 0))    // 1st line: ticktock version
             fprintf(m_ts_file, "# ticktockdb.%d.%d.%d\n", TT_MAJOR_VERSION, TT_MINOR_VERSION, TT_PATCH_VERSION);
     }
 
     // open metrics file
-    is_new = ! file_exists(m_metrics_name);
     fd = ::open(m_metrics_name.c_str(), O_WRONLY|O_CREAT|O_APPEND|O_NONBLOCK, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
     fd = FileDescriptorManager::dup_fd(fd, FileDescriptorType::FD_FILE);
 
@@ -215,7 +252,7 @@ MetaFile::open()
         m_metrics_file = fdopen(fd, "a");
         if (m_metrics_file == nullptr)
             Logger::error("Failed to convert fd %d to FILE: %d", fd, errno);
-        else if (is_new)    // 1st line: ticktock version
+        else if ((fstat(fd, &sb) == 0) && (sb.st_size == 0))    // 1st line: ticktock version
             fprintf(m_metrics_file, "# ticktockdb.%d.%d.%d\n", TT_MAJOR_VERSION, TT_MINOR_VERSION, TT_PATCH_VERSION);
     }
 }
@@ -245,11 +282,11 @@ MetaFile::flush()
 {
     std::lock_guard<std::mutex> guard(m_lock);
 
-    if (m_ts_file != nullptr)
-        std::fflush(m_ts_file);
-
     if (m_metrics_file != nullptr)
         std::fflush(m_metrics_file);
+
+    if (m_ts_file != nullptr)
+        std::fflush(m_ts_file);
 }
 
 void
@@ -271,6 +308,7 @@ MetaFile::add_metric(MetricId id, const char *name)
     ASSERT(m_metrics_file != nullptr);
     std::lock_guard<std::mutex> guard(m_lock);
     fprintf(m_metrics_file, "%d %s\n", id, name);
+    std::fflush(m_metrics_file);    // has to be there before any of its time series
 }
 
 void
-- 
2.43.0


From 982984575208412e77a6478e946c5b2b7f716416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:13 +0000
Subject: [PATCH 15/81] fix: do not lose the config file when killed while it
 is written

The file was truncated and then rewritten. Write a new file and rename it.
---
 src/utils/config.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utils/config.cpp b/src/utils/config.cpp
index 4ed6f38..5ee7b0c 100644
--- a/src/utils/config.cpp
+++ b/src/utils/config.cpp
@@ -311,13 +311,20 @@ Config::persist()
 {
     bool version_exists = exists("ticktockdb.version");
     std::lock_guard<std::mutex> guard(m_lock);
-    std::fstream file(m_file_name, std::ios::out | std::ios::trunc);
+    std::string tmp_name = m_file_name + ".tmp";
+    std::fstream file(tmp_name, std::ios::out | std::ios::trunc);
 
     if (! version_exists)
         file << "ticktockdb.version = " << TT_MAJOR_VERSION << "." << TT_MINOR_VERSION << "." << TT_PATCH_VERSION << std::endl;
 
     for (const auto& prop: m_properties)
         file << prop.second->get_name() << " = " << prop.second->as_str() << std::endl;
+
+    file.close();
+
+    // keep the old one if we failed to write the new one
+    if (file.fail() || (std::rename(tmp_name.c_str(), m_file_name.c_str()) != 0))
+        Logger::error("Failed to write config file %s: %d", m_file_name.c_str(), errno);
 }
 
 void
-- 
2.43.0


From 29ae33bb4c9650d0c12709c402fb13d6c7dfe007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:13 +0000
Subject: [PATCH 16/81] fix: keep the append log valid when it cannot be
 written or is restored twice

The old log was removed before the new one was in place, and replaced even if
writing the new one failed. After restoring from append.tmp the only copy was
deleted. Entries of unknown time series were skipped without their data, so
everything after them was misread. Entries could refer to time series that were
not in the meta file yet.
---
 src/utils/append.cpp | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/utils/append.cpp b/src/utils/append.cpp
index 65c91ad..da6ae5d 100644
--- a/src/utils/append.cpp
+++ b/src/utils/append.cpp
@@ -79,18 +79,24 @@ AppendLog::flush_all(TaskData& data)
     {
         std::vector<TimeSeries*> tsv;
         mapping->get_all_ts(tsv);
+        MetaFile::instance()->flush();  // they have to be known after a restart
         for (auto ts: tsv) ts->append(mapping->get_id(), file);
     }
 
-    fflush(file);
-    fclose(file);
+    bool success = (std::ferror(file) == 0);
+
+    if ((fclose(file) != 0) || ! success)
+    {
+        // what we have in append.log is better than this
+        Logger::error("Failed to write %s", tmp_name.c_str());
+        rm_file(tmp_name);
+        return false;
+    }
 
     // append.tmp => append.log
-    rm_file(log_name);
     if (std::rename(tmp_name.c_str(), log_name.c_str()) != 0)
         Logger::error("Failed to rename %s to %s", tmp_name.c_str(), log_name.c_str());
 
-    MetaFile::instance()->flush();
     return false;
 }
 
@@ -139,7 +145,10 @@ AppendLog::restore(std::vector<TimeSeries*>& tsv)
     FILE *file = fopen(name.c_str(), "rb");
     Tsdb *oldest_tsdb = nullptr;
 
-    for ( ; ; )
+    if (file == nullptr)
+        Logger::error("Failed to open %s for reading: %d", name.c_str(), errno);
+
+    while (file != nullptr)
     {
         size_t size = ::fread(buff, header_size, 1, file);
         if (size < 1) break;
@@ -165,15 +174,6 @@ AppendLog::restore(std::vector<TimeSeries*>& tsv)
         //if (! is_ooo)
             //bytes += sizeof(struct rollup_append_entry);
 
-        if (tsv.size() <= tid)
-        {
-            Logger::error("Time series %u in append log, but not present in meta file", tid);
-            continue;
-        }
-
-        TimeSeries *ts = tsv[tid];
-        ASSERT(ts != nullptr);
-
         size = ::fread(buff, bytes, 1, file);
 
         if (size < 1)
@@ -182,6 +182,14 @@ AppendLog::restore(std::vector<TimeSeries*>& tsv)
             break;
         }
 
+        if ((tsv.size() <= tid) || (tsv[tid] == nullptr))
+        {
+            Logger::error("Time series %u in append log, but not present in meta file", tid);
+            continue;
+        }
+
+        TimeSeries *ts = tsv[tid];
+
         Tsdb *tsdb = Tsdb::inst(tstamp, false);
 
         if (tsdb == nullptr)
@@ -199,7 +207,12 @@ AppendLog::restore(std::vector<TimeSeries*>& tsv)
     if (file != nullptr)
         fclose(file);
 
-    rm_file(tmp_name);
+    // keep it until the next flush, in case we crash again before that
+    if (name == tmp_name)
+        std::rename(tmp_name.c_str(), log_name.c_str());
+    else
+        rm_file(tmp_name);
+
     MemoryManager::free_network_buffer(buff);
 
     if (oldest_tsdb != nullptr)
-- 
2.43.0


From c30e2f45a14b87c817c266bb203b25596d79f1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:13 +0000
Subject: [PATCH 17/81] fix: write the bucket map atomically

---
 src/core/tsdb.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 5b39edc..d36e592 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -4146,7 +4146,8 @@ Tsdb::BucketBalancer::do_balance(Tsdb *prev_tsdb, Tsdb *curr_tsdb)
     {
         std::string file_name =
             Tsdb::get_tsdb_dir_name(curr_tsdb->get_time_range()) + "/bucket_map";
-        std::ofstream os(file_name, std::ios::trunc);
+        std::string tmp_name = file_name + ".tmp";
+        std::ofstream os(tmp_name, std::ios::trunc);
 
         os << "ticktockdb.version = " << TT_MAJOR_VERSION << "."
                                       << TT_MINOR_VERSION << "."
@@ -4156,6 +4157,9 @@ Tsdb::BucketBalancer::do_balance(Tsdb *prev_tsdb, Tsdb *curr_tsdb)
             os << entry.first << " " << entry.second << std::endl;
 
         os.close();
+
+        if (std::rename(tmp_name.c_str(), file_name.c_str()) != 0)
+            Logger::error("Failed to rename %s to %s", tmp_name.c_str(), file_name.c_str());
     }
 
     clear_page_count();
-- 
2.43.0


From 641b321454e9c9a3a17eae2415923e7cc66ee373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:13 +0000
Subject: [PATCH 18/81] fix: make a time series known on disk before any of its
 data

A page could be on disk before the meta file mentioned its time series. After a
crash the ID was then given to another time series, which got the data.
---
 src/core/tsdb.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index d36e592..8f0059d 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -665,13 +665,16 @@ Mapping::init_measurement(Measurement *mm, const char *measurement, char *tags,
     {
         builder.update_last(TT_FIELD_TAG_ID, dp.get_raw_tags());
         TimeSeries *ts = new TimeSeries(builder);
-        add_ts(ts);
         mm->add_ts(i++, ts);
         fields.emplace_back(dp.get_raw_tags(), ts->get_id());
     }
 
     // write meta-file
     MetaFile::instance()->add_measurement(measurement, tags, fields);
+
+    std::vector<TimeSeries*> tsv;
+    mm->get_all_ts(tsv);
+    for (auto ts: tsv) add_ts(ts);
 }
 
 // 'tsv' does NOT have to be empty when calling this function
@@ -2175,6 +2178,9 @@ Tsdb::append_page(MetricId mid, TimeSeriesId tid, FileIndex prev_file_idx, Heade
     ASSERT(! header_file->is_full());
     ASSERT(header_file->get_id() == data_file->get_id());
 
+    // the time series has to be known after a restart
+    MetaFile::instance()->flush();
+
     header->m_page_index = data_file->append(page, get_page_size());
     ASSERT(header->m_page_index != TT_INVALID_HEADER_INDEX);
 
-- 
2.43.0


From f843662ada6bce117894892e79e7ea6214301947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:13 +0000
Subject: [PATCH 19/81] fix: do not restore append log entries that are already
 on disk

Data flushed to a page after the append log was written was restored a second
time, and the page chain was continued from a page that was no longer its tail.
---
 include/tsdb.h    |  1 +
 src/core/ts.cpp   | 20 ++++++++++++++++++++
 src/core/tsdb.cpp | 37 +++++++++++++++++++++++++++++++++++++
 3 files changed, 58 insertions(+)

diff --git a/include/tsdb.h b/include/tsdb.h
index 8c395a7..c784c08 100644
--- a/include/tsdb.h
+++ b/include/tsdb.h
@@ -269,6 +269,7 @@ public:
     void set_out_of_order(TimeSeriesId tid, bool ooo);
     bool get_out_of_order2(TimeSeriesId tid);
     void set_out_of_order2(TimeSeriesId tid, bool ooo);
+    bool has_page_after(MetricId mid, TimeSeriesId tid, FileIndex file_idx, HeaderIndex header_idx, bool is_ooo);
     void get_last_header_indices(MetricId mid, TimeSeriesId tid, FileIndex& file_idx, HeaderIndex& header_idx);
     void set_indices(MetricId mid, TimeSeriesId tid, FileIndex prev_file_idx, HeaderIndex prev_header_idx,
                      FileIndex this_file_idx, HeaderIndex this_header_idx, bool crossed);
diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index 7975997..c102a4d 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -161,6 +161,18 @@ TimeSeries::restore(Tsdb *tsdb, MetricId mid, Timestamp tstamp, PageSize offset,
     ASSERT(tsdb != nullptr);
     bool out_of_date;
 
+    // [file_idx, header_idx] was the last page of this TS when the log was
+    // written; if another page of the same kind has been added since, then
+    // the data we are restoring is already on disk.
+    if (tsdb->has_page_after(mid, m_id, file_idx, header_idx, is_ooo))
+    {
+        tsdb->dec_ref_count();
+        return;
+    }
+
+    // pages of the other kind could have been added since
+    tsdb->get_last_header_indices(mid, m_id, file_idx, header_idx);
+
     if (is_ooo)
     {
         ASSERT(m_ooo_buff == nullptr);
@@ -181,6 +193,14 @@ TimeSeries::restore(Tsdb *tsdb, MetricId mid, Timestamp tstamp, PageSize offset,
             delete m_buff;
             m_buff = nullptr;
         }
+        else if (m_buff->get_last_tstamp(mid, m_id) < tsdb->get_last_tstamp(mid, m_id))
+        {
+            // There are newer out-of-order data on disk. Let new data be
+            // compared against those, instead of m_buff.
+            m_buff->flush(mid, m_id);
+            delete m_buff;
+            m_buff = nullptr;
+        }
     }
 }
 
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 8f0059d..d6ca279 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2054,6 +2054,43 @@ Tsdb::get_last_header_indices(MetricId mid, TimeSeriesId tid, FileIndex& file_id
     }
 }
 
+/* Return true if the given TimeSeries has a page of the given kind (in-order or
+ * out-of-order) after the page indicated by [file_idx, header_idx], or if that
+ * page is no longer there.
+ */
+bool
+Tsdb::has_page_after(MetricId mid, TimeSeriesId tid, FileIndex file_idx, HeaderIndex header_idx, bool is_ooo)
+{
+    FileIndex fidx;
+    HeaderIndex hidx;
+    bool found = (file_idx == TT_INVALID_FILE_INDEX);   // the very first page?
+
+    std::lock_guard<std::mutex> guard(m_lock);
+
+    m_mode = m_mode.load() | TSDB_MODE_READ;
+    m_index_file.ensure_open(true);
+    m_index_file.get_indices(tid, fidx, hidx);
+
+    while (fidx != TT_INVALID_FILE_INDEX)
+    {
+        HeaderFile *header_file = get_header_file(mid, fidx);
+        if (header_file == nullptr) break;
+
+        header_file->ensure_open(true);
+        struct page_info_on_disk *header = header_file->get_page_header(hidx);
+
+        if (found && (header->is_out_of_order() == is_ooo))
+            return true;
+        if ((fidx == file_idx) && (hidx == header_idx))
+            found = true;
+
+        fidx = header->m_next_file;
+        hidx = header->m_next_header;
+    }
+
+    return ! found;
+}
+
 /* @params  crossed  True if the second index needs to be set.
  */
 void
-- 
2.43.0


From e07c087f999c7c77c5bf1fb096ae4ca1dfaab416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:24 +0000
Subject: [PATCH 20/81] fix: repair a missing second index after a crash

A process killed between linking a page and recording it in the second index
left that index empty, and queries for the second half of the day found nothing.
---
 src/core/tsdb.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index d6ca279..9b51396 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1725,9 +1725,10 @@ Tsdb::query_for_data(MetricId mid, const TimeRange& range, std::vector<QueryTask
     for (auto task : tasks)
     {
         // figure out first page location before pushing to pq
+        file_idx = TT_INVALID_FILE_INDEX;
         if (middle < range.get_from())
             m_index_file.get_indices2(task->get_ts_id(), file_idx, header_idx);
-        else
+        if (file_idx == TT_INVALID_FILE_INDEX)
             m_index_file.get_indices(task->get_ts_id(), file_idx, header_idx);
         if (file_idx == TT_INVALID_FILE_INDEX || header_idx == TT_INVALID_HEADER_INDEX)
             continue;
@@ -2116,8 +2117,24 @@ Tsdb::set_indices(MetricId mid, TimeSeriesId tid, FileIndex prev_file_idx, Heade
         FileIndex file_idx = TT_INVALID_FILE_INDEX;
         HeaderIndex header_idx TT_INVALID_HEADER_INDEX;
         m_index_file.get_indices2(tid, file_idx, header_idx);
+
         if (file_idx == TT_INVALID_FILE_INDEX)
+        {
+            // we could have been killed before we could do this for previous page
+            if (prev_file_idx != TT_INVALID_FILE_INDEX)
+            {
+                HeaderFile *header_file = get_header_file_no_lock(mid, prev_file_idx);
+                struct page_info_on_disk *header = header_file->get_page_header(prev_header_idx);
+
+                if (m_time_range.get_middle() < (m_time_range.get_from() + header->m_tstamp_to))
+                {
+                    this_file_idx = prev_file_idx;
+                    this_header_idx = prev_header_idx;
+                }
+            }
+
             m_index_file.set_indices2(tid, this_file_idx, this_header_idx);
+        }
     }
 }
 
-- 
2.43.0


From 499903e90f7242b26e759658272c9b7b2fd4bfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:24 +0000
Subject: [PATCH 21/81] fix: restart after being killed while a tsdb directory
 is being created

Data files are created after their header files, and the config after the
directory. Accept a directory where the later ones are missing.
---
 src/core/tsdb.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 9b51396..6064dfa 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -840,6 +840,19 @@ Metric::Metric(const std::string& dir, PageSize page_size, PageCount page_cnt)
     files.clear();
     get_all_files(dir + "/data.*", files);
     for (auto file: files) restore_data(file, page_size, page_cnt);
+
+    // data files are created after header files; we could have been killed in between
+    for (auto header: m_header_files)
+    {
+        FileIndex id = header->get_id();
+        if (get_data_file_no_lock(id) == nullptr)
+        {
+            std::ostringstream oss;
+            oss << dir << "/data." << std::setfill('0') << std::setw(5) << id;
+            m_data_files.push_back(new DataFile(oss.str(), id, page_size, page_cnt));
+        }
+    }
+
     std::sort(m_data_files.begin(), m_data_files.end(), data_less());
 }
 
@@ -1213,7 +1226,9 @@ Tsdb::restore_tsdb(const std::string& dir)
     }
 
     TimeRange range(start, end);
-    Tsdb *tsdb = Tsdb::create(range, true);
+    // without config, we were killed while creating it; there's nothing in it
+    bool existing = file_exists(dir + "/config");
+    Tsdb *tsdb = Tsdb::create(range, existing);
 }
 
 /* Caller should acquire m_tsdb_lock!
-- 
2.43.0


From c170efd066f11aa25ba3886ce38b5f90ca5fd4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:24 +0000
Subject: [PATCH 22/81] fix: remove an incomplete page from the end of a data
 file

Pages appended after it would be read from the wrong place.
---
 src/core/mmap.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 38beaea..5badb55 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -905,6 +905,16 @@ DataFile::open(bool for_read)
 **/
 
             m_page_index = length / m_page_size;
+
+            // If we were killed in the middle of a write, the last page is
+            // incomplete. Pages appended after it would be in the wrong place.
+            if ((length % m_page_size) != 0)
+            {
+                Logger::warn("Removing incomplete page from %s", m_name.c_str());
+                if (ftruncate(fd, (off_t)m_page_index * m_page_size) != 0)
+                    Logger::error("Failed to truncate file %s, errno = %d", m_name.c_str(), errno);
+            }
+
             Logger::debug("opening %s for write", m_name.c_str());
 
             m_file = fdopen(fd, "ab");
-- 
2.43.0


From 08f0ecf0e55e13ab803b737ebb29a6d7f95ee52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:24 +0000
Subject: [PATCH 23/81] fix: do not reject the last entry of an index file

---
 src/core/mmap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 5badb55..1e06d1c 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -472,7 +472,7 @@ IndexFile::get_indices(TimeSeriesId id, FileIndex& file_index, HeaderIndex& head
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         file_index = TT_INVALID_FILE_INDEX;
         header_index = TT_INVALID_HEADER_INDEX;
@@ -495,7 +495,7 @@ IndexFile::get_indices2(TimeSeriesId id, FileIndex& file_index, HeaderIndex& hea
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         file_index = TT_INVALID_FILE_INDEX;
         header_index = TT_INVALID_HEADER_INDEX;
@@ -518,7 +518,7 @@ IndexFile::get_out_of_order(TimeSeriesId id)
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         return false;
     }
@@ -568,7 +568,7 @@ IndexFile::get_out_of_order2(TimeSeriesId id)
     size_t idx = (id+1) * TT_INDEX_SIZE;
     size_t len = get_length();
 
-    if ((len <= idx) || (pages == nullptr))
+    if ((len < idx) || (pages == nullptr))
     {
         return false;
     }
-- 
2.43.0


From d6d075d0f7e99463b5505dee6999ed392a71f268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:26:24 +0000
Subject: [PATCH 24/81] fix: never expose uninitialized index and header files

A process killed while creating or extending these files left entries of zeros,
which are valid. Initialize them before they can be seen, and set the field
that makes an entry or a link valid after the others.
---
 include/mmap.h    |  2 +-
 src/core/mmap.cpp | 72 ++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 59 insertions(+), 15 deletions(-)

diff --git a/include/mmap.h b/include/mmap.h
index e31c501..314d45d 100644
--- a/include/mmap.h
+++ b/include/mmap.h
@@ -68,11 +68,11 @@ protected:
     std::mutex m_lock;
     std::string m_name;
     bool m_read_only;
+    int m_fd;
 
 private:
     int64_t m_length;
     void *m_pages;
-    int m_fd;
 };
 
 
diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 1e06d1c..2558702 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -16,6 +16,7 @@
     along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <atomic>
 #include <fcntl.h>
 #include <iomanip>
 #include <sys/mman.h>
@@ -333,6 +334,9 @@ IndexFile::open(bool for_read)
 
     if (is_new)
     {
+        // don't let it be seen under its real name until it's initialized
+        std::string name = m_name;
+        m_name = name + ".tmp";
         MmapFile::open(TT_SIZE_INCREMENT, for_read, false, true);
         struct index_entry *entries = (struct index_entry*)get_pages();
         ASSERT(entries != nullptr);
@@ -344,6 +348,10 @@ IndexFile::open(bool for_read)
             entries[i].file_index = TT_INVALID_FILE_INDEX;
             entries[i].file_index2 = TT_INVALID_FILE_INDEX;
         }
+
+        if (std::rename(m_name.c_str(), name.c_str()) != 0)
+            Logger::error("Failed to rename %s to %s, errno = %d", m_name.c_str(), name.c_str(), errno);
+        m_name = name;
     }
     else
     {
@@ -387,23 +395,45 @@ IndexFile::expand(int64_t new_len)
     ASSERT((old_len % TT_INDEX_SIZE) == 0);
     ASSERT((new_len % TT_INDEX_SIZE) == 0);
 
-    if (! this->resize(new_len))
-        return false;
-
     uint64_t old_idx = old_len / TT_INDEX_SIZE;
     uint64_t new_idx = new_len / TT_INDEX_SIZE;
-    struct index_entry *entries = (struct index_entry*)get_pages();
+    struct index_entry entry;
+
+    entry.flags = 0;
+    entry.file_index = TT_INVALID_FILE_INDEX;
+    entry.header_index = TT_INVALID_HEADER_INDEX;
+    entry.file_index2 = TT_INVALID_FILE_INDEX;
+    entry.header_index2 = TT_INVALID_HEADER_INDEX;
+
+    // Write these out, instead of filling them in after resizing the file;
+    // otherwise, if we get killed in between, they would be left as all 0's,
+    // which is a valid index.
+    std::vector<struct index_entry> entries(new_idx - old_idx, entry);
+    const char *buff = (const char*)entries.data();
+    size_t size = entries.size() * TT_INDEX_SIZE;
+    off_t offset = old_idx * TT_INDEX_SIZE;
 
-    // TODO: memcpy()?
-    for ( ; old_idx < new_idx; old_idx++)
+    while (size > 0)
     {
-        entries[old_idx].flags = 0;
-        entries[old_idx].file_index = TT_INVALID_FILE_INDEX;
-        entries[old_idx].header_index = TT_INVALID_HEADER_INDEX;
-        entries[old_idx].file_index2 = TT_INVALID_FILE_INDEX;
-        entries[old_idx].header_index2 = TT_INVALID_HEADER_INDEX;
+        ssize_t len = ::pwrite(m_fd, buff, size, offset);
+
+        if ((len < 0) && (errno == EINTR))
+            continue;
+
+        if (len <= 0)
+        {
+            Logger::error("Failed to expand file %s, errno = %d", m_name.c_str(), errno);
+            return false;
+        }
+
+        buff += len;
+        size -= len;
+        offset += len;
     }
 
+    if (! this->resize(new_len))
+        return false;
+
     Logger::debug("index file %s length: %" PRIu64, m_name.c_str(), get_length());
 
     return true;
@@ -429,9 +459,11 @@ IndexFile::set_indices(TimeSeriesId id, FileIndex file_index, HeaderIndex header
         pages = get_pages();
     }
 
+    // file_index makes the entry valid; so it has to be the last one to be set
     struct index_entry *entries = (struct index_entry*)pages;
-    entries[id].file_index = file_index;
     entries[id].header_index = header_index;
+    std::atomic_thread_fence(std::memory_order_release);
+    entries[id].file_index = file_index;
 
     return true;
 }
@@ -456,9 +488,11 @@ IndexFile::set_indices2(TimeSeriesId id, FileIndex file_index, HeaderIndex heade
         pages = get_pages();
     }
 
+    // file_index2 makes the entry valid; so it has to be the last one to be set
     struct index_entry *entries = (struct index_entry*)pages;
-    entries[id].file_index2 = file_index;
     entries[id].header_index2 = header_index;
+    std::atomic_thread_fence(std::memory_order_release);
+    entries[id].file_index2 = file_index;
 
     return true;
 }
@@ -617,8 +651,16 @@ HeaderFile::HeaderFile(const std::string& file_name, FileIndex id, PageCount pag
 {
     ASSERT(page_count > 0);
     ASSERT(page_size > 0);
+
+    // don't let it be seen under its real name until it's initialized
+    auto const pos = file_name.find_last_of('/') + 1;
+    m_name = file_name.substr(0, pos) + "new." + file_name.substr(pos);
+    rm_file(m_name);
     open(false);    // open for write
     init_tsdb_header(page_size);
+    if (std::rename(m_name.c_str(), file_name.c_str()) != 0)
+        Logger::error("Failed to rename %s to %s, errno = %d", m_name.c_str(), file_name.c_str(), errno);
+    m_name = file_name;
 }
 
 HeaderFile::HeaderFile(FileIndex id, const std::string& file_name) :
@@ -796,8 +838,10 @@ HeaderFile::update_next(HeaderIndex prev_header_idx, FileIndex this_file_idx, He
 {
     struct page_info_on_disk *header = get_page_header(prev_header_idx);
     ASSERT(header != nullptr);
-    header->m_next_file = this_file_idx;
+    // m_next_file makes the link valid; so it has to be the last one to be set
     header->m_next_header = this_header_idx;
+    std::atomic_thread_fence(std::memory_order_release);
+    header->m_next_file = this_file_idx;
     m_last_access = ts_now_sec();   // to prevent it from being closed
 }
 
-- 
2.43.0


From efbf7a5978edc6fa880c51e2851eecf8bd15d5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:27:04 +0000
Subject: [PATCH 25/81] fix: do not close a new connection that reuses a closed
 descriptor

A responder asks its listener to close a connection by file descriptor. If the
listener has closed that connection already, the descriptor may belong to a new
connection by then, and that one was closed instead.
---
 include/tcp.h    |  1 +
 src/core/tcp.cpp | 48 +++++++++++++++++++++++++++++-------------------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/include/tcp.h b/include/tcp.h
index a4940c5..90cd6ec 100644
--- a/include/tcp.h
+++ b/include/tcp.h
@@ -219,6 +219,7 @@ private:
     void new_conn2(int fd);
 
     void close_conn(int fd);
+    void close_conn2(int fd);
     void resubmit(char c, int fd);
 
     TcpConnection *get_conn(int fd);
diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index 014d355..29628b3 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -1183,7 +1183,7 @@ TcpListener::listener1()
                     {
                         case PIPE_CMD_REBALANCE_CONN[0]:    rebalance1(); break;
                         case PIPE_CMD_NEW_CONN[0]:          new_conn2(std::atoi(cmd+2)); break;
-                        case PIPE_CMD_CLOSE_CONN[0]:        close_conn(std::atoi(cmd+2)); break;
+                        case PIPE_CMD_CLOSE_CONN[0]:        close_conn2(std::atoi(cmd+2)); break;
                         case PIPE_CMD_DISCONNECT_CONN[0]:   disconnect(); break;
                         case PIPE_CMD_RESUBMIT[0]:          resubmit(cmd[2], std::atoi(cmd+4)); break; // r [h|t] <fd>
                         case PIPE_CMD_SET_STOPPED[0]:       set_stopped(); break;
@@ -1370,34 +1370,44 @@ TcpListener::close_conn(int fd)
 {
     auto search = m_conn_map.find(fd);
     bool pending_task = false;
-    bool deregister = true;
 
-    if (search != m_conn_map.end())
-    {
-        TcpConnection *conn = search->second;
-        ASSERT(conn != nullptr);
+    // already closed; by now the fd could belong to someone else
+    if (search == m_conn_map.end()) return;
 
-        deregister = ((conn->state & TCS_REGISTERED) != 0);
+    TcpConnection *conn = search->second;
+    ASSERT(conn != nullptr);
 
-        // do not close the connection if there are pending tasks
-        conn->state |= TCS_CLOSED;
-        conn->state &= ~TCS_REGISTERED;
+    bool deregister = ((conn->state & TCS_REGISTERED) != 0);
 
-        if (conn->pending_tasks <= 0)
-        {
-            Logger::debug("close_conn: conn=%p fd=%d", conn, conn->fd);
-            m_conn_map.erase(search);
-            del_conn_from_all_map(fd);
-            MemoryManager::free_recyclable(conn);
-        }
-        else
-            pending_task = true;
+    // do not close the connection if there are pending tasks
+    conn->state |= TCS_CLOSED;
+    conn->state &= ~TCS_REGISTERED;
+
+    if (conn->pending_tasks <= 0)
+    {
+        Logger::debug("close_conn: conn=%p fd=%d", conn, conn->fd);
+        m_conn_map.erase(search);
+        del_conn_from_all_map(fd);
+        MemoryManager::free_recyclable(conn);
     }
+    else
+        pending_task = true;
 
     if (deregister) deregister_with_epoll(fd);
     if (! pending_task) close(fd);
 }
 
+// requested by responders; the connection could have been closed in the
+// meantime, and the fd reused by a new one, which must be left alone
+void
+TcpListener::close_conn2(int fd)
+{
+    auto search = m_conn_map.find(fd);
+
+    if ((search != m_conn_map.end()) && (search->second->state & TCS_CLOSED))
+        close_conn(fd);
+}
+
 // accept just one connection at a time
 void
 TcpListener::rebalance1()
-- 
2.43.0


From 94b37ad830bcca75d223bb2dd30f01c7f8b83d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:27:04 +0000
Subject: [PATCH 26/81] fix: do not use connections that are closed, nor close
 those in use

A resubmitted request could find its connection gone. An idle connection was
closed and freed even if a responder was still working on it.
---
 src/core/tcp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index 29628b3..ee506e6 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -1265,6 +1265,7 @@ TcpListener::resubmit(char c, int fd)
     }
 
     TcpConnection *conn = get_conn(fd);
+    if (UNLIKELY(conn == nullptr)) return;  // already closed
     task.data.pointer = conn;
 
     if (1 == ++conn->pending_tasks)
@@ -1472,7 +1473,8 @@ TcpListener::disconnect()
         int timeout = Config::inst()->get_time(CFG_TCP_CONNECTION_IDLE_TIMEOUT,
             TimeUnit::SEC, CFG_TCP_CONNECTION_IDLE_TIMEOUT_DEF);
 
-        if (secs > timeout)
+        // do not close the connection if there are pending tasks
+        if ((secs > timeout) && (conn->pending_tasks <= 0))
         {
             Logger::trace("closing connection: conn=%p fd=%d", conn, conn->fd);
 
-- 
2.43.0


From efdd1141ad049657770cb4dd700785263fb12096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:01:09 +0000
Subject: [PATCH 27/81] fix: refuse a query answer that does not fit instead of
 cutting it short

When fewer than 8 bytes of the response buffer were left, the rest of the
data points of that time series was silently dropped and the answer was
sent with status 200. Report it as too large (413), like other answers
that do not fit.
---
 src/core/query.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 0b4b71d..637bd8e 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1818,7 +1818,7 @@ QueryResults::to_json(char *buff, int size) const
 
     for (const DataPointPair& dp: m_dps)
     {
-        if ((n+8) >= size) break;
+        if ((n+8) >= size) return size; // no room; let caller know
         if (buff[n-1] != '{')
             n += snprintf(buff+n, size-n, ",");
         if (UNLIKELY(isinf(dp.second)))
-- 
2.43.0


From fae6c8472419ff8b18e03191f65f7c5a7c6acdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:07:00 +0000
Subject: [PATCH 28/81] fix: answer a request that is too large with its own id

The id of the previous request was used, whose memory had been
overwritten by the new one. It was no longer terminated where it used to
be, so a whole request could be copied into the small response buffer.
---
 src/core/http.cpp | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 263d4a4..829af42 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -293,22 +293,25 @@ HttpServer::recv_http_data(TaskData& data)
         }
     }
 
+    // buff_size leaves room for these
+    buff[len] = 0;
+    buff[len+1] = ' ';
+    buff[len+2] = 0;
+    buff[len+3] = '\r';
+    buff[len+4] = 0;
+    buff[len+5] = ';';
+    buff[len+6] = 0;
+
     if (len >= buff_size)
     {
+        conn->request.init();   // forget about previous request
+        parse_header(buff, len, conn->request);
         HttpServer::send_response(conn, 413);
         conn_error = true;
         Logger::debug("received request of size %d, returning 413", len);
     }
     else if (len > 0)
     {
-        buff[len] = 0;
-        buff[len+1] = ' ';
-        buff[len+2] = 0;
-        buff[len+3] = '\r';
-        buff[len+4] = 0;
-        buff[len+5] = ';';
-        buff[len+6] = 0;
-
         Logger::http("Recved request on %p: len=%d\n%s", fd, conn, len, buff);
 
         conn->request.init();
@@ -425,23 +428,28 @@ HttpServer::recv_http_data_cont(HttpConnection *conn)
         }
     }
 
+    // now do something about buff
+    buff[len] = 0;
+    buff[len+1] = ' ';
+    buff[len+2] = 0;
+    buff[len+3] = '\r';
+    buff[len+4] = 0;
+    buff[len+5] = ';';
+    buff[len+6] = 0;
+
     if (len >= buff_size)
     {
+        if (! conn->request.header_ok)
+        {
+            undo_header(conn->request);
+            parse_header(buff, len, conn->request);
+        }
         HttpServer::send_response(conn, 413);
         conn_error = true;
         Logger::debug("received request of size %d, returning 413", len);
     }
     else if (len > conn->offset)
     {
-        // now do something about buff
-        buff[len] = 0;
-        buff[len+1] = ' ';
-        buff[len+2] = 0;
-        buff[len+3] = '\r';
-        buff[len+4] = 0;
-        buff[len+5] = ';';
-        buff[len+6] = 0;
-
         Logger::http("recv-cont'ed: offset=%d, len=%d\n%s", fd,
             conn->offset, len, &buff[conn->offset]);
 
-- 
2.43.0


From 6b7e531805af16bbc0bfb69f9d3fc05890a935e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:07:00 +0000
Subject: [PATCH 29/81] fix: do not refuse a response because of the buffer of
 the previous one

A small buffer kept from the previous response was reused for any body
smaller than the buffer, without leaving room for the header. The response
was then refused as too large (413).
---
 src/core/http.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 829af42..ac4d4b4 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -1091,7 +1091,7 @@ HttpResponse::get_buffer()
 char *
 HttpResponse::get_buffer(std::size_t length)
 {
-    if ((buffer != nullptr) && (buffer_size <= length))
+    if ((buffer != nullptr) && (get_buffer_size() < length))
         recycle();
 
     if (buffer == nullptr)
-- 
2.43.0


From 0917b7bdfe998c90a9094258d99484debd28284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:07:00 +0000
Subject: [PATCH 30/81] fix: do not write past the end of the response buffer

A query answer that filled the buffer up to the last byte had its closing
bracket and terminator written beyond it.
---
 src/core/query.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 637bd8e..9e24119 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -1680,7 +1680,7 @@ QueryExecutor::prepare_response(std::vector<QueryResults*>& results, HttpRespons
 
         status = false;
     }
-    else if (n >= size)
+    else if ((n+1) >= size) // leave room for ']'
     {
         Logger::error("response too large, %d >= %d", n, size);
         response.init(413, HttpContentType::PLAIN, 0, nullptr);
-- 
2.43.0


From 6239bab04a6ad973424241d00d530f587148563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:18:56 +0000
Subject: [PATCH 31/81] fix: a write request without a body crashed the server

POST /api/put and /api/write dereferenced a null pointer when the request
had no Content-Length, or one of zero. They now answer 400, like the query
handler does.
---
 src/core/tsdb.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 6064dfa..b6d47d4 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2407,7 +2407,12 @@ Tsdb::insts(const TimeRange& range, std::vector<Tsdb*>& tsdbs)
 bool
 Tsdb::http_api_put_handler(HttpRequest& request, HttpResponse& response)
 {
-    ASSERT(request.content != nullptr);
+    if (request.content == nullptr)
+    {
+        response.init(400, HttpContentType::PLAIN);
+        return false;
+    }
+
     char *curr = request.content;
 
     while (std::isspace(*curr))
@@ -2423,7 +2428,12 @@ Tsdb::http_api_put_handler(HttpRequest& request, HttpResponse& response)
 bool
 Tsdb::http_api_put_handler_json(HttpRequest& request, HttpResponse& response)
 {
-    ASSERT(request.content != nullptr);
+    if (request.content == nullptr)
+    {
+        response.init(400, HttpContentType::PLAIN);
+        return false;
+    }
+
     char *curr = request.content;
 
     while (std::isspace(*curr))
@@ -2475,7 +2485,12 @@ Tsdb::http_api_put_handler_json(HttpRequest& request, HttpResponse& response)
 bool
 Tsdb::http_api_put_handler_plain(HttpRequest& request, HttpResponse& response)
 {
-    ASSERT(request.content != nullptr);
+    if (request.content == nullptr)
+    {
+        response.init(400, HttpContentType::PLAIN);
+        return false;
+    }
+
     Logger::trace("Entered http_api_put_handler_plain()...");
 
     char *curr = request.content;
@@ -2576,7 +2591,12 @@ Tsdb::http_api_put_handler_plain(HttpRequest& request, HttpResponse& response)
 bool
 Tsdb::http_api_write_handler(HttpRequest& request, HttpResponse& response)
 {
-    ASSERT(request.content != nullptr);
+    if (request.content == nullptr)
+    {
+        response.init(400, HttpContentType::PLAIN);
+        return false;
+    }
+
     Logger::trace("Entered http_api_put_handler_influx()...");
 
     char *curr = request.content;
-- 
2.43.0


From ff3449aa9319a3731f1da236f33fc507acdd453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:19:32 +0000
Subject: [PATCH 32/81] fix: filling gaps of a sub-second downsample never
 ended

With millisecond timestamps and an answer in seconds, an interval below one
second became zero, and filling the gaps looped until memory ran out.
---
 src/agg/down.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/agg/down.cpp b/src/agg/down.cpp
index 0a88f4f..977bc8d 100644
--- a/src/agg/down.cpp
+++ b/src/agg/down.cpp
@@ -279,6 +279,7 @@ Downsampler::fill_if_needed(DataPointVector& dps)
         Timestamp ts = validate_resolution(m_time_range.get_from(), m_ms);
         Timestamp interval =
             (m_ms == g_tstamp_resolution_ms) ? m_interval : (m_ms ? (m_interval * 1000) : m_interval / 1000);
+        if (interval == 0) interval = 1;    // less than one second
 
         // scan dps, filling any gaps
         for (auto dp: dps)
-- 
2.43.0


From 282e149c420996f6d5e3ceaa190c178ad2773088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:20:44 +0000
Subject: [PATCH 33/81] fix: query parameters without a value or of another
 type crashed the server

A query such as /api/query with no parameters, msResolution without a
value, or a JSON number where a string or boolean is expected, followed a
null or dangling pointer. These now get an error answer.
---
 include/json.h    | 7 +++++--
 src/core/http.cpp | 2 ++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/json.h b/include/json.h
index 7b0d6fd..8664b45 100644
--- a/include/json.h
+++ b/include/json.h
@@ -21,6 +21,7 @@
 #include <map>
 #include <memory>
 #include <set>
+#include <stdexcept>
 #include <vector>
 #include "recycle.h"
 #include "utils.h"
@@ -116,7 +117,8 @@ public:
         }
         else
         {
-            ASSERT(type == JsonValueType::JVT_STRING);
+            if (type != JsonValueType::JVT_STRING)
+                throw std::runtime_error("expected a boolean value");
             ASSERT(str != nullptr);
             return ((*str == 't') || (*str == 'T'));
         }
@@ -141,7 +143,8 @@ public:
         }
         else
         {
-            ASSERT(type == JsonValueType::JVT_STRING);
+            if (type != JsonValueType::JVT_STRING)
+                throw std::runtime_error("expected a string value");
             ASSERT(str != nullptr);
             return str;
         }
diff --git a/src/core/http.cpp b/src/core/http.cpp
index ac4d4b4..8b5d4fd 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -1178,6 +1178,8 @@ HttpRequest::init()
 void
 HttpRequest::parse_params(JsonMap& pairs)
 {
+    if (params == nullptr) return;
+
     std::vector<char*> tokens;
     tokenize(params, '&', tokens);
 
-- 
2.43.0


From b7696afc536ec1a3a682048e5774ef439b826358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:44 +0000
Subject: [PATCH 34/81] fix: a data point with several _field tags overran a
 buffer on the stack

The buffer has room for the tags other than _field, plus one. Only the
first _field tag had been removed from the list copied into it.
---
 src/utils/tag.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/tag.cpp b/src/utils/tag.cpp
index 1881861..cb10fd9 100644
--- a/src/utils/tag.cpp
+++ b/src/utils/tag.cpp
@@ -648,6 +648,9 @@ TagBuilder::init(Tag *tags)
 
         for (Tag *tag = tags; tag != nullptr; tag = tag->next())
         {
+            // not counted as a tag, and will be added by update_last()
+            if ((tag->m_key[0] == '_') && (std::strcmp(tag->m_key, TT_FIELD_TAG_NAME) == 0))
+                continue;
             ASSERT((i + 1) < (2 * m_capacity));
             m_tags[i++] = Tag_v2::get_or_set_id(tag->m_key);
             m_tags[i++] = Tag_v2::get_or_set_id(tag->m_value);
-- 
2.43.0


From 4b77a3815f48f4eacc52c42fcb6588d47121d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:56 +0000
Subject: [PATCH 35/81] fix: tags longer than the limit overran a buffer or
 were cut

Tags that do not fit into MAX_TOTAL_TAG_LENGTH were cut at a tag boundary,
so that the point went to another series. A single tag that long made the
server write in front of a buffer on the stack. Such points are now
rejected.
---
 src/core/query.cpp |  4 ++--
 src/core/tsdb.cpp  | 21 +++++++++++++++------
 src/utils/tag.cpp  |  2 +-
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index 9e24119..a8c41e8 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -429,8 +429,8 @@ Query::get_query_tasks(QuerySuperTask& super_task)
 {
     std::unordered_set<TimeSeries*> tsv;
     char buff[MAX_TOTAL_TAG_LENGTH];
-    get_ordered_tags(buff, sizeof(buff));
-    MetricId mid = Tsdb::query_for_ts(m_metric, m_tags, tsv, buff, m_explicit_tags);
+    char *key = get_ordered_tags(buff, sizeof(buff));
+    MetricId mid = Tsdb::query_for_ts(m_metric, m_tags, tsv, key, m_explicit_tags);
 
     for (TimeSeries *ts: tsv)
         super_task.add_task(ts);
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index b6d47d4..f2bed97 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -428,6 +428,9 @@ Mapping::get_ts(DataPoint& dp)
 
         if (raw_tags != nullptr)
         {
+            if (UNLIKELY(std::strlen(raw_tags) >= MAX_TOTAL_TAG_LENGTH))
+                return nullptr;     // tags too long
+
             std::strncpy(raw_tags_copy, raw_tags, MAX_TOTAL_TAG_LENGTH);
             raw_tags_copy[MAX_TOTAL_TAG_LENGTH-1] = 0;
 
@@ -447,7 +450,8 @@ Mapping::get_ts(DataPoint& dp)
         }
 
         char buff[MAX_TOTAL_TAG_LENGTH];
-        dp.get_ordered_tags(buff, MAX_TOTAL_TAG_LENGTH);
+        if (UNLIKELY(dp.get_ordered_tags(buff, MAX_TOTAL_TAG_LENGTH) == nullptr))
+            return nullptr;     // tags too long
 
         PThread_WriteLock guard(&m_lock);
 
@@ -492,12 +496,13 @@ Mapping::get_ts_in_measurement(DataPoint& dp, Tag *field)
     dps.emplace_back(dp.get_timestamp(), dp.get_value());
     dps.back().set_raw_tags((char*)field->m_value);
     char buff[MAX_TOTAL_TAG_LENGTH];
-    dp.get_ordered_tags(buff, MAX_TOTAL_TAG_LENGTH);
+    if (UNLIKELY(dp.get_ordered_tags(buff, MAX_TOTAL_TAG_LENGTH) == nullptr))
+        return nullptr;     // tags too long
     Measurement *mm = get_measurement(buff, dp, dp.get_metric(), dps);
-    ASSERT(mm != nullptr);
+    if (UNLIKELY(mm == nullptr))
+        return nullptr;
 
-    if (mm != nullptr)
-        ts = mm->get_ts(0, field->m_value);
+    ts = mm->get_ts(0, field->m_value);
 
     if (ts == nullptr)
         ts = mm->add_ts(field->m_value, this);
@@ -530,6 +535,9 @@ Mapping::get_measurement(char *raw_tags, TagOwner& owner, const char *measuremen
         char ordered[MAX_TOTAL_TAG_LENGTH];
         char original[MAX_TOTAL_TAG_LENGTH+1];
 
+        if (UNLIKELY(std::strlen(raw_tags) >= MAX_TOTAL_TAG_LENGTH))
+            return nullptr;     // tags too long
+
         std::strncpy(original, raw_tags, MAX_TOTAL_TAG_LENGTH);
 
         if (raw_tags[1] == 0)   // no tags
@@ -545,7 +553,8 @@ Mapping::get_measurement(char *raw_tags, TagOwner& owner, const char *measuremen
                 if (! owner.parse(raw_tags))
                     return nullptr;
             }
-            owner.get_ordered_tags(ordered, MAX_TOTAL_TAG_LENGTH);
+            if (owner.get_ordered_tags(ordered, MAX_TOTAL_TAG_LENGTH) == nullptr)
+                return nullptr; // tags too long
         }
 
         PThread_WriteLock guard(&m_lock);
diff --git a/src/utils/tag.cpp b/src/utils/tag.cpp
index cb10fd9..191a0a5 100644
--- a/src/utils/tag.cpp
+++ b/src/utils/tag.cpp
@@ -171,7 +171,7 @@ TagOwner::get_ordered_tags(char *buff, size_t size) const
             continue;
         ASSERT(strcmp(tag->m_key, METRIC_TAG_NAME) != 0);
         n = std::snprintf(curr, size, "%s=%s,", tag->m_key, tag->m_value);
-        if (size <= n) break;
+        if (size <= n) return nullptr;  // does not fit
         size -= n;
         curr += n;
     }
-- 
2.43.0


From a2edeabc034d567d870a442319bfcadb5907879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:04 +0000
Subject: [PATCH 36/81] fix: a field name with an equal sign stopped the server
 from starting

The time series file holds field=id, and a field given as _field=a=b was
split at the first equal sign.
---
 src/utils/meta.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils/meta.cpp b/src/utils/meta.cpp
index 13d70ed..7336657 100644
--- a/src/utils/meta.cpp
+++ b/src/utils/meta.cpp
@@ -187,9 +187,10 @@ MetaFile::restore_ts(TimeSeries* (*restore_ts)(std::string& metric, std::string&
 
                 for (int i = 2; i < tokens.size(); i++)
                 {
-                    std::tuple<std::string,std::string> kv;
-                    if (tokenize(tokens[i], kv, '='))
-                        fields.emplace_back(std::get<0>(kv), std::stoi(std::get<1>(kv)));
+                    // name of field may contain '='
+                    auto idx = tokens[i].find_last_of('=');
+                    if (idx != std::string::npos)
+                        fields.emplace_back(tokens[i].substr(0, idx), std::stoi(tokens[i].substr(idx+1)));
                 }
 
                 (*restore_measurement)(measurement, tags, fields, tsv2);
-- 
2.43.0


From b6011fb595fb56f0708a5d936ae0686e3b42064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:25:04 +0000
Subject: [PATCH 37/81] fix: names with spaces or newlines damaged the files
 listing the series

A metric or tag of a JSON put may contain any character but a quote, and
was written as is into files in which spaces, newlines, commas and
semicolons are separators. After a restart the series was missing, or the
server crashed while reading the file. Replace those characters with an
underscore, as is done for a quoted metric name of a plain put.
---
 src/core/dp.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/dp.cpp b/src/core/dp.cpp
index aa9a2b2..a0e5ca1 100644
--- a/src/core/dp.cpp
+++ b/src/core/dp.cpp
@@ -109,6 +109,14 @@ DataPoint::from_http(char *http)
     return curr1;
 }
 
+// replace characters that are separators in meta files
+static void
+replace_separators(char *name, const char *separators)
+{
+    while ((name = std::strpbrk(name, separators)) != nullptr)
+        *name++ = '_';
+}
+
 /* @param json format: {"metric":<metric>,"timestamp":<ts>,"value":<val>,"tags":{"key1":"val1","key2":"val2",...}}
  */
 char *
@@ -133,6 +141,7 @@ DataPoint::from_json(char* json)
             json = next_word(json, value);
             if (json == nullptr) return nullptr;
             //add_tag(key, value);
+            replace_separators(value, " \n");
             set_metric(value);
         }
         else if (strcmp(key, "tags") == 0)
@@ -335,6 +344,8 @@ DataPoint::next_tags(char* json)
         if (json == nullptr) return nullptr;
         ASSERT(value != nullptr);
         ASSERT(*value != ':');
+        replace_separators(name, " \n,;=");
+        replace_separators(value, " \n,;");
         add_tag(name, value);
         while (std::isspace(*json)) json++;
         if (quote) return json;     // already went past the closing '}'
-- 
2.43.0


From e4e5bee774f1458f52dc16c966d1f3fb7bd75a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:30:46 +0000
Subject: [PATCH 38/81] fix: the rollup log could not be read once 1970/01 had
 been rolled up

The file that keeps unfinished rollups across restarts has no month of
its own, and borrowed the settings of January 1970. When the rollup files
of that month had been re-compressed, the file was opened as if it had
been re-compressed too, and reading it crashed the server at startup.
---
 src/agg/rollup.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/agg/rollup.cpp b/src/agg/rollup.cpp
index f195988..3d361a8 100644
--- a/src/agg/rollup.cpp
+++ b/src/agg/rollup.cpp
@@ -121,7 +121,8 @@ RollupManager::init()
     {
         std::unordered_map<TimeSeriesId,struct rollup_entry_ext> map;
 
-        m_wal_data_file->open(true);
+        // this file is never re-compressed, even if those of its month (1970/01) are
+        m_wal_data_file->open(false);
         m_wal_data_file->query_from_wal(TimeRange::MAX, map);
 
         Tsdb::restore_rollup_mgr(map);
-- 
2.43.0


From 04a0f4bd48c4926d81cf544422b6285153e11e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:30:46 +0000
Subject: [PATCH 39/81] fix: timestamps of early 1970 damaged other days when
 using milliseconds

With millisecond resolution, times before 1970-04-26 are smaller than
10^10 and are taken for seconds when looking for the day they belong to.
A second partition was created for a day that may exist already, hiding
the data of that day or crashing the server. Such data points are
rejected now.
---
 src/core/ts.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/ts.cpp b/src/core/ts.cpp
index c102a4d..83c0df2 100644
--- a/src/core/ts.cpp
+++ b/src/core/ts.cpp
@@ -320,6 +320,10 @@ TimeSeries::add_data_point(MetricId mid, DataPoint& dp)
     if (MAX_MS_SINCE_EPOCH <= tstamp)
         return false;
 
+    // these milliseconds would be taken for seconds everywhere else
+    if (g_tstamp_resolution_ms && (validate_resolution(tstamp) < MAX_SEC_SINCE_EPOCH))
+        return false;
+
     std::lock_guard<std::mutex> guard(m_locks[m_id % m_lock_count]);
 
     // Make sure we have a valid m_buff (PageInMemory)
-- 
2.43.0


From a42548cbad97f28ef3b7f0541182d7cdf0c1bf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:31:44 +0000
Subject: [PATCH 40/81] fix: a request still being answered was overwritten by
 the next one

When a response could not be sent completely before shutting down, data
arriving on the same connection was received into the buffer of the
request being answered. The request was then answered a second time, from
its damaged header, which wrote in front of the response buffer.
---
 src/core/http.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 8b5d4fd..1a7883c 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -254,6 +254,13 @@ HttpServer::recv_http_data(TaskData& data)
             conn->buff = nullptr;
             conn->state &= ~TCS_NEW;
         }
+        else if (conn->request.is_complete())
+        {
+            // response not sent yet; buffer still in use
+            if ((--conn->pending_tasks <= 0) && (conn->state & TCS_CLOSED))
+                conn->close();
+            return false;
+        }
         else
             return HttpServer::recv_http_data_cont(conn);
     }
-- 
2.43.0


From df69d17006673d883b81f5d5eba90c2f106b9491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:32:46 +0000
Subject: [PATCH 41/81] fix: a request of negative length was answered twice

It was answered with 411 and then processed as well, which sent a second
response for the same request.
---
 src/core/http.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 1a7883c..27d831b 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -328,7 +328,6 @@ HttpServer::recv_http_data(TaskData& data)
         {
             if (UNLIKELY(conn->request.length < 0))
             {
-                HttpServer::send_response(conn, 411);
                 conn_error = true;
                 Logger::http("request length negative, will close connection", fd);
             }
@@ -345,7 +344,11 @@ HttpServer::recv_http_data(TaskData& data)
         // If not, we need to stop right here, and inform
         // the listener to forward the rest of the request
         // our way.
-        if (conn->request.is_complete())
+        if (conn->request.header_ok && (conn->request.length < 0))
+        {
+            free_buff = HttpServer::send_response(conn, 411);
+        }
+        else if (conn->request.is_complete())
         {
             if (! process_request(conn->request, conn->response))
                 conn_error = true;
-- 
2.43.0


From f7c0fc5e4f21fda56d5a14ebe0679d9367602775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:41:04 +0000
Subject: [PATCH 42/81] fix: rates were wrong by a factor of 1000 when the
 answer's resolution differs from the stored one

---
 include/rate.h     | 2 +-
 src/agg/rate.cpp   | 4 ++--
 src/core/query.cpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/rate.h b/include/rate.h
index 66b73d5..4cf9d09 100644
--- a/include/rate.h
+++ b/include/rate.h
@@ -31,7 +31,7 @@ class RateCalculator : public Recyclable
 {
 public:
     void init(bool counter, bool drop_resets, uint64_t counter_max = UINT64_MAX, uint64_t reset_value = 0);
-    void calculate(DataPointVector& dps);   // calc in-place
+    void calculate(DataPointVector& dps, bool ms);   // calc in-place; are timestamps in milli-seconds?
 
 private:
     bool m_counter;
diff --git a/src/agg/rate.cpp b/src/agg/rate.cpp
index 358dd99..020df42 100644
--- a/src/agg/rate.cpp
+++ b/src/agg/rate.cpp
@@ -36,7 +36,7 @@ RateCalculator::init(bool counter, bool drop_resets, uint64_t counter_max, uint6
 }
 
 void
-RateCalculator::calculate(DataPointVector& dps)
+RateCalculator::calculate(DataPointVector& dps, bool ms)
 {
     if (dps.empty()) return;
 
@@ -55,7 +55,7 @@ RateCalculator::calculate(DataPointVector& dps)
         double ts_delta_secs = (double)(t1 - t0);
         double val_delta = v1 - v0;
 
-        if (g_tstamp_resolution_ms) ts_delta_secs /= 1000.0;
+        if (ms) ts_delta_secs /= 1000.0;
 
         if (m_counter && (val_delta < 0))
         {
diff --git a/src/core/query.cpp b/src/core/query.cpp
index a8c41e8..c8796a4 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -477,7 +477,7 @@ Query::calculate_rate(std::vector<QueryResults*>& results)
             auto result = *it;
 
             if (result->empty()) continue;
-            m_rate_calculator->calculate(result->get_dps());
+            m_rate_calculator->calculate(result->get_dps(), m_ms);
 
             if (result->empty())
             {
-- 
2.43.0


From 41a27589adbab9a64c61fd4a112a714628bf827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:43:47 +0000
Subject: [PATCH 43/81] fix: timed tasks stopped running after the system clock
 was set back

---
 include/timer.h     | 10 +++++++++-
 src/utils/timer.cpp |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/timer.h b/include/timer.h
index 95346ac..62f07fc 100644
--- a/include/timer.h
+++ b/include/timer.h
@@ -18,6 +18,7 @@
 
 #pragma once
 
+#include <chrono>
 #include <mutex>
 #include <random>
 #include <thread>
@@ -36,10 +37,17 @@ public:
         m_freq_sec(freq_sec),
         m_task(task),
         m_name(name),
-        m_next_run(ts_now_sec() + random(0,freq_sec))
+        m_next_run(now_sec() + random(0,freq_sec))
     {
     }
 
+    // not affected by changes of the system clock
+    static inline long now_sec()
+    {
+        return std::chrono::duration_cast<std::chrono::seconds>(
+            std::chrono::steady_clock::now().time_since_epoch()).count();
+    }
+
     TimedTask(const TimedTask& copy);               // copy constructor
     TimedTask& operator=(const TimedTask& copy);    // assignment constructor
 
diff --git a/src/utils/timer.cpp b/src/utils/timer.cpp
index c3e8fe9..90b2e51 100644
--- a/src/utils/timer.cpp
+++ b/src/utils/timer.cpp
@@ -67,7 +67,7 @@ Timer::run()
 
     while (! is_shutdown_requested())
     {
-        long now = ts_now_sec();
+        long now = TimedTask::now_sec();
 
         // check for new tasks
         if (m_has_new)
-- 
2.43.0


From 2eb13f98f0ddc311e4a2e116bc2195d6ed86d6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:13 +0000
Subject: [PATCH 44/81] fix: rolling up a month again crashed the server

The rollup data of a month that was rolled up is in another format. When
a new day of such a month was created afterwards, rolling it up read the
old format from a file that was not open, and data still in memory was
appended with an undefined length. Leave such files alone. Also release
the data of the month when rolling it up failed.
---
 src/core/mmap.cpp |  2 +-
 src/core/tsdb.cpp | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 2558702..b2cea6c 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -1483,7 +1483,7 @@ RollupDataFile::add_data_point(TimeSeriesId tid, uint32_t cnt, double min, doubl
     else if (m_compressor_version == 2)
         size = RollupCompressor_v1::compress2(buff, tid, cnt, min, max, sum, m_compressor_precision);
     else
-        ASSERT(false);
+        return;     // already re-compressed; nothing can be added to it
 
     write(buff, size);
 }
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index f2bed97..4271163 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3916,6 +3916,7 @@ Tsdb::rollup(TaskData& data)
         int pause = interactive ? 0 :
             Config::inst()->get_time(CFG_TSDB_ROLLUP_PAUSE,TimeUnit::SEC,CFG_TSDB_ROLLUP_PAUSE_DEF);
         bool recompress_success = true;
+        bool already_recompressed = false;
         std::vector<RollupDataFile*> data_files_level1;
 
         for (int bucket = 0; bucket < bucket_count; bucket++)
@@ -3926,6 +3927,14 @@ Tsdb::rollup(TaskData& data)
             if (data_file_level1 == nullptr)
                 continue;
 
+            if (3 <= data_file_level1->get_compressor_version())
+            {
+                // already re-compressed, before these Tsdbs were created
+                data_file_level1->dec_ref_count();
+                already_recompressed = true;
+                continue;
+            }
+
             std::unordered_map<TimeSeriesId,std::vector<struct rollup_entry_ext>> data;
             data_file_level1->query_for_level2_rollup(data);
             recompress_success = recompress_success && data_file_level1->recompress(data);
@@ -3942,7 +3951,7 @@ Tsdb::rollup(TaskData& data)
                 std::this_thread::sleep_for(std::chrono::seconds(pause));
         }
 
-        if (recompress_success)
+        if (recompress_success && !(already_recompressed && data_files_level1.empty()))
         {
             // switch to newly compressed rollup files
             recompress_success = RollupManager::swap_recompressed_files(data_files_level1);
@@ -3964,7 +3973,11 @@ Tsdb::rollup(TaskData& data)
             Logger::info("[rollup] rolled up %d Tsdbs.", data.integer);
         }
         else
+        {
+            for (auto tsdb: tsdbs)
+                tsdb->dec_ref_count();
             Logger::warn("[rollup] rollup failed.");
+        }
     }
     else
     {
-- 
2.43.0


From 53a47c7bf54898b48ebfde9f4b1b197a2f001315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:13 +0000
Subject: [PATCH 45/81] fix: adding fields of a measurement at the same time
 crashed the server

A put with a _field tag added a field without locking the measurement,
while another request was looking for a field or adding one.
---
 src/core/tsdb.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 4271163..87256a6 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -490,7 +490,6 @@ Mapping::get_ts_in_measurement(DataPoint& dp, Tag *field)
 {
     ASSERT(field != nullptr);
 
-    TimeSeries *ts = nullptr;
     std::vector<DataPoint> dps;
 
     dps.emplace_back(dp.get_timestamp(), dp.get_value());
@@ -502,12 +501,7 @@ Mapping::get_ts_in_measurement(DataPoint& dp, Tag *field)
     if (UNLIKELY(mm == nullptr))
         return nullptr;
 
-    ts = mm->get_ts(0, field->m_value);
-
-    if (ts == nullptr)
-        ts = mm->add_ts(field->m_value, this);
-
-    return ts;
+    return mm->get_or_add_ts(0, field->m_value, this);
 }
 
 Measurement *
-- 
2.43.0


From 2f479d9f0120b1b8fa6239c8fd70ab3e6cf32cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:51:33 +0000
Subject: [PATCH 46/81] fix: a tag ending in a backslash stopped the server
 from starting

A put with a _field tag may have such tags, but the file listing the
series takes the character following a backslash as escaped. The server
crashed when reading it. Reject such data points.
---
 src/core/tsdb.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 87256a6..01d5027 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -492,6 +492,13 @@ Mapping::get_ts_in_measurement(DataPoint& dp, Tag *field)
 
     std::vector<DataPoint> dps;
 
+    // these would escape the separator following them in the meta file
+    for (Tag *tag = dp.get_tags(); tag != nullptr; tag = tag->next())
+    {
+        if (UNLIKELY(ends_with(tag->m_key, '\\') || ends_with(tag->m_value, '\\')))
+            return nullptr;
+    }
+
     dps.emplace_back(dp.get_timestamp(), dp.get_value());
     dps.back().set_raw_tags((char*)field->m_value);
     char buff[MAX_TOTAL_TAG_LENGTH];
-- 
2.43.0


From b7248f601dcebb682804722d7c7f953a6a89cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:52:14 +0000
Subject: [PATCH 47/81] fix: calculating the rate of an empty result never
 ended

The result was looked at again and again. Drop it, as is done when there
is nothing left after calculating the rate.
---
 src/core/query.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/query.cpp b/src/core/query.cpp
index c8796a4..b8eca94 100644
--- a/src/core/query.cpp
+++ b/src/core/query.cpp
@@ -476,7 +476,6 @@ Query::calculate_rate(std::vector<QueryResults*>& results)
         {
             auto result = *it;
 
-            if (result->empty()) continue;
             m_rate_calculator->calculate(result->get_dps(), m_ms);
 
             if (result->empty())
-- 
2.43.0


From 18eb14901d7d41e580551bf24678686267c18db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:01:19 +0000
Subject: [PATCH 48/81] fix: downsampling into one interval sometimes used data
 after the end of the query

---
 include/down.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/down.h b/include/down.h
index c67a5ba..5a5187e 100644
--- a/include/down.h
+++ b/include/down.h
@@ -76,7 +76,7 @@ public:
     inline const TimeRange get_expanded_range() const
     {
         TimeRange range(m_time_range);
-        if (range.get_to() % m_interval == 0)
+        if (! m_all && (range.get_to() % m_interval == 0))
             range.set_to(range.get_to() + m_interval - 1);
         return range;
     }
-- 
2.43.0


From d80d9dc67e508769e767cba0fff48d88048a7016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:10:28 +0000
Subject: [PATCH 49/81] fix: rotation closed files that were being used

---
 src/core/mmap.cpp | 8 ++++++++
 src/core/tsdb.cpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index b2cea6c..e20920f 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -443,6 +443,7 @@ bool
 IndexFile::set_indices(TimeSeriesId id, FileIndex file_index, HeaderIndex header_index)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(false);     // could have been closed by rotation
     void *pages = get_pages();
     ASSERT(pages != nullptr);
     ASSERT(! is_read_only());
@@ -472,6 +473,7 @@ bool
 IndexFile::set_indices2(TimeSeriesId id, FileIndex file_index, HeaderIndex header_index)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(false);     // could have been closed by rotation
     void *pages = get_pages();
     ASSERT(pages != nullptr);
     ASSERT(! is_read_only());
@@ -501,6 +503,7 @@ void
 IndexFile::get_indices(TimeSeriesId id, FileIndex& file_index, HeaderIndex& header_index)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(true);      // could have been closed by rotation
     void *pages = get_pages();
 
     size_t idx = (id+1) * TT_INDEX_SIZE;
@@ -524,6 +527,7 @@ void
 IndexFile::get_indices2(TimeSeriesId id, FileIndex& file_index, HeaderIndex& header_index)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(true);      // could have been closed by rotation
     void *pages = get_pages();
 
     size_t idx = (id+1) * TT_INDEX_SIZE;
@@ -547,6 +551,7 @@ bool
 IndexFile::get_out_of_order(TimeSeriesId id)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(true);      // could have been closed by rotation
     void *pages = get_pages();
 
     size_t idx = (id+1) * TT_INDEX_SIZE;
@@ -568,6 +573,7 @@ void
 IndexFile::set_out_of_order(TimeSeriesId id, bool ooo)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(false);     // could have been closed by rotation
     void *pages = get_pages();
     ASSERT(pages != nullptr);
     ASSERT(! is_read_only());
@@ -597,6 +603,7 @@ bool
 IndexFile::get_out_of_order2(TimeSeriesId id)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(true);      // could have been closed by rotation
     void *pages = get_pages();
 
     size_t idx = (id+1) * TT_INDEX_SIZE;
@@ -619,6 +626,7 @@ void
 IndexFile::set_out_of_order2(TimeSeriesId id, bool ooo)
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    ensure_open_no_lock(false);     // could have been closed by rotation
     void *pages = get_pages();
     ASSERT(pages != nullptr);
     ASSERT(! is_read_only());
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 01d5027..8169c08 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3482,7 +3482,13 @@ Tsdb::rotate(TaskData& data)
         for (auto metric: metrics)
         {
             if (metric == nullptr) continue;
-            all_closed = metric->rotate(now_sec, thrashing_threshold) && all_closed;
+
+            {
+                // don't close files being used by others
+                std::lock_guard<std::mutex> guard(tsdb->m_lock);
+                all_closed = metric->rotate(now_sec, thrashing_threshold) && all_closed;
+            }
+
             metric->flush(true);
         }
 
@@ -3493,6 +3499,7 @@ Tsdb::rotate(TaskData& data)
         if (all_closed)
         {
             Logger::info("[rotate] Archiving %T", tsdb);
+            std::lock_guard<std::mutex> guard(tsdb->m_lock);
             tsdb->unload_if_idle(thrashing_threshold, now_sec);
         }
 
-- 
2.43.0


From aac4cd78db5eaef7fffb6c360642e730d3f54d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:10:50 +0000
Subject: [PATCH 50/81] fix: reads and writes interrupted by a signal were
 taken as errors

---
 src/core/http.cpp | 8 +++++---
 src/core/tcp.cpp  | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 27d831b..090d1aa 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -291,8 +291,8 @@ HttpServer::recv_http_data(TaskData& data)
         }
         else //if (cnt == -1)
         {
-            // TODO: what about EINTR???
-            //       maybe we should delete conn???
+            if (errno == EINTR) continue;
+            // TODO: maybe we should delete conn???
             if ((errno == EAGAIN) || (errno == EWOULDBLOCK)) break;
             Logger::warn("recv(%d) failed, errno = %d", fd, errno);
             conn_error = true;
@@ -430,7 +430,7 @@ HttpServer::recv_http_data_cont(HttpConnection *conn)
         }
         else //if (cnt == -1)
         {
-            // TODO: what about EINTR???
+            if (errno == EINTR) continue;
             if ((errno == EAGAIN) || (errno == EWOULDBLOCK)) break;
             Logger::warn("recv_cont(%d) failed, errno = %d", fd, errno);
             conn_error = true;
@@ -648,6 +648,8 @@ HttpServer::send_response(HttpConnection *conn)
 
         if (n < 0)
         {
+            if (errno == EINTR) continue;
+
             if (errno != EAGAIN)
             {
                 conn->state |= TCS_ERROR;
diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index ee506e6..fcce20a 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -430,8 +430,8 @@ TcpServer::recv_tcp_data(TaskData& data)
 
         if (UNLIKELY(cnt < 0))
         {
-            // TODO: what about EINTR???
-            //       maybe we should delete conn???
+            if (errno == EINTR) continue;
+            // TODO: maybe we should delete conn???
             if ((errno != EAGAIN) && (errno != EWOULDBLOCK))
             {
                 conn_error = true;
@@ -619,6 +619,8 @@ TcpServer::send_response(int fd, char *content, int len)
 
         if (sent == -1)
         {
+            if (errno == EINTR) continue;
+
             if ((errno == EAGAIN) || (errno == EWOULDBLOCK))
             {
                 spin_yield(++retry);
-- 
2.43.0


From 733b529ff2f7799a792663899fa01be1e327cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:11:09 +0000
Subject: [PATCH 51/81] fix: running out of file descriptors leaked connections
 and never recovered

---
 src/utils/fd.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/utils/fd.cpp b/src/utils/fd.cpp
index 612000a..10b03b6 100644
--- a/src/utils/fd.cpp
+++ b/src/utils/fd.cpp
@@ -116,6 +116,8 @@ FileDescriptorManager::dup_fd(int fd, FileDescriptorType type)
         int max_tcp = m_max_tcp.load(std::memory_order_relaxed);
         int min_http = m_min_http.load(std::memory_order_relaxed);
         Logger::error("Run out of file descriptors, max_tcp=%d, min_http=%d", max_tcp, min_http);
+        close(fd);  // or it will never be used nor closed
+        errno = EMFILE;
     }
 
     return new_fd;
@@ -138,10 +140,7 @@ FileDescriptorManager::reduce_min_http(int fd)
     if (min_http < fd) return min_http;
     int max_tcp = m_max_tcp.load(std::memory_order_relaxed);
     if (min_http <= (max_tcp+1))
-    {
-        m_min_http.store(-1, std::memory_order_relaxed);
-        return -1; // out-of-fds
-    }
+        return -1; // out-of-fds, for now
     min_http -= m_min_step;
     if (min_http <= max_tcp) min_http = max_tcp + 1;
     m_min_http.store(min_http, std::memory_order_relaxed);
-- 
2.43.0


From 21a524e3eda7b023eaa01ad282ff5d67adb5dabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:11:09 +0000
Subject: [PATCH 52/81] fix: connections that could not be registered with
 epoll were never closed

---
 src/core/tcp.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index fcce20a..114a54a 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -1349,8 +1349,12 @@ TcpListener::new_conn2(int fd)
         else
             conn->state |= TCS_SECOND;
 
-        if ((conn->state & TCS_REGISTERED) == 0)
-            register_with_epoll(fd);
+        if (((conn->state & TCS_REGISTERED) == 0) && ! register_with_epoll(fd))
+        {
+            close_conn(fd);     // we will never hear from it
+            return;
+        }
+
         conn->state |= TCS_REGISTERED;
         Logger::trace("new connection: %d", fd);
     }
-- 
2.43.0


From f4da1c590771fe5f36adc67aad7c55da5c9c6572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:35:00 +0000
Subject: [PATCH 53/81] fix: days restored from disk were sometimes never
 archived

The time of the last access to an index or header file was not initialized.
If it happened to be large, the day was taken to be in use for ever.
---
 src/core/mmap.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index e20920f..cfeed00 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -322,7 +322,8 @@ MmapFile::is_open(bool for_read) const
 
 
 IndexFile::IndexFile(const std::string& file_name) :
-    MmapFile(file_name)
+    MmapFile(file_name),
+    m_last_access(0)
 {
 }
 
@@ -655,6 +656,7 @@ IndexFile::set_out_of_order2(TimeSeriesId id, bool ooo)
 HeaderFile::HeaderFile(const std::string& file_name, FileIndex id, PageCount page_count, PageSize page_size) :
     MmapFile(file_name),
     m_id(id),
+    m_last_access(0),
     m_page_count(page_count)
 {
     ASSERT(page_count > 0);
@@ -674,6 +676,7 @@ HeaderFile::HeaderFile(const std::string& file_name, FileIndex id, PageCount pag
 HeaderFile::HeaderFile(FileIndex id, const std::string& file_name) :
     MmapFile(file_name),
     m_id(id),
+    m_last_access(0),
     m_page_count(g_page_count)
 {
     ASSERT(file_exists(file_name));
-- 
2.43.0


From 7ff6f5bafbf09c91821a39dfa506f69b51605075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:33 +0000
Subject: [PATCH 54/81] fix: retention removed days that were in use

A day was removed while series still had pages of it in memory, or while a
query was reading it. The same day could also be created again while its
files were being removed. Remove it only when it is not referenced, and keep
the lock until it is gone.
---
 src/core/tsdb.cpp | 52 ++++++++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 32 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 8169c08..67a1e3b 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2326,6 +2326,8 @@ Tsdb::inst(Timestamp tstamp, bool create)
     {
         PThread_ReadLock guard(&m_tsdb_lock);
         tsdb = Tsdb::search(tstamp);
+        if (tsdb != nullptr)
+            tsdb->inc_ref_count();  // before releasing the lock, or it could be purged
     }
 
     if ((tsdb == nullptr) && create)
@@ -2340,10 +2342,8 @@ Tsdb::inst(Timestamp tstamp, bool create)
             Logger::info("Created %T, tstamp = %" PRIu64, tsdb, tstamp);
             ASSERT(Tsdb::search(tstamp) == tsdb);
         }
-    }
-
-    if (tsdb != nullptr)
         tsdb->inc_ref_count();
+    }
 
     return tsdb;
 }
@@ -3556,43 +3556,31 @@ Tsdb::validate(Tsdb *tsdb)
 void
 Tsdb::purge_oldest(Timestamp threshold_in_days)
 {
-    Tsdb *tsdb = nullptr;
-
-    {
-        PThread_WriteLock guard(&m_tsdb_lock);
-
-        if (m_tsdbs.size() <= threshold_in_days) return;
+    // Keep the lock until the files are gone, or the same day could be
+    // created again while we are removing it.
+    PThread_WriteLock guard(&m_tsdb_lock);
 
-        if (! m_tsdbs.empty())
-        {
-            tsdb = m_tsdbs.front();
+    if (m_tsdbs.empty() || (m_tsdbs.size() <= threshold_in_days)) return;
 
-            if (tsdb->is_archived())
-                m_tsdbs.erase(m_tsdbs.begin());
-            else
-            {
-                Logger::info("[rotate] Tsdb %T not archived yet. Purging postponed.", tsdb);
-                tsdb = nullptr;
-            }
-        }
-    }
+    Tsdb *tsdb = m_tsdbs.front();
 
-    if (tsdb != nullptr)
+    if (! tsdb->is_archived() || (tsdb->m_ref_count.load() > 0))
     {
-        Logger::info("[rotate] Purging %T permenantly", tsdb);
+        Logger::info("[rotate] Tsdb %T not archived yet, or in use. Purging postponed.", tsdb);
+        return;
+    }
 
-        std::lock_guard<std::mutex> guard(tsdb->m_lock);
-        //WriteLock guard(tsdb->m_lock);
+    m_tsdbs.erase(m_tsdbs.begin());
+    Logger::info("[rotate] Purging %T permenantly", tsdb);
 
-        tsdb->flush(true);
-        tsdb->unload_no_lock();
+    tsdb->flush(true);
+    tsdb->unload();
 
-        // purge files on disk
-        std::string tsdb_dir = Tsdb::get_tsdb_dir_name(tsdb->m_time_range);
-        rm_dir2(tsdb_dir);
+    // purge files on disk
+    std::string tsdb_dir = Tsdb::get_tsdb_dir_name(tsdb->m_time_range);
+    rm_dir2(tsdb_dir);
 
-        delete tsdb;
-    }
+    delete tsdb;
 }
 
 bool
-- 
2.43.0


From c566a94eb0f5d15bd930bfda52b8d2e8ea1ba929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:56 +0000
Subject: [PATCH 55/81] fix: a day left half removed by a kill damaged the next
 start

The index was still there while the files it points to were gone. Rename the
directory before removing it, and finish the removal when starting.
---
 src/core/tsdb.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 67a1e3b..869b5fd 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1218,6 +1218,12 @@ Tsdb::restore_tsdb(const std::string& dir)
     tokens.clear();
     tokenize(last, tokens, '.');
 
+    if ((tokens.size() == 3) && (tokens[2] == "purge"))
+    {
+        rm_dir2(dir);   // we were killed while purging it
+        return;
+    }
+
     if ((tokens.size() != 2) || (! is_timestamp(tokens[0])) || (! is_timestamp(tokens[1])))
     {
         // not necessarily an error; could be artifacts of compaction
@@ -3576,8 +3582,11 @@ Tsdb::purge_oldest(Timestamp threshold_in_days)
     tsdb->flush(true);
     tsdb->unload();
 
-    // purge files on disk
+    // purge files on disk; if we are killed half way, restore_tsdb() will do the rest
     std::string tsdb_dir = Tsdb::get_tsdb_dir_name(tsdb->m_time_range);
+    std::string purge_dir = tsdb_dir + ".purge";
+    if (std::rename(tsdb_dir.c_str(), purge_dir.c_str()) == 0)
+        tsdb_dir = purge_dir;
     rm_dir2(tsdb_dir);
 
     delete tsdb;
-- 
2.43.0


From e556777ba0c107d5ec5b732558d94959654f41ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:53:07 +0000
Subject: [PATCH 56/81] fix: reporting many check-points wrote past the buffer

---
 src/core/cp.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/core/cp.cpp b/src/core/cp.cpp
index 55ebf40..d95ee7f 100644
--- a/src/core/cp.cpp
+++ b/src/core/cp.cpp
@@ -124,18 +124,13 @@ CheckPointManager::get_persisted(const char *leader, char *buff, int size)
     {
         for (auto it = m_persisted.begin(); it != m_persisted.end(); it++)
         {
-            if (idx > 1)
-            {
-                buff[idx++] = ',';
-                size--;
-            }
-
-            int len;
-            len = get_persisted_of(it->first, it->second, &buff[idx], size);
-            ASSERT(len < size);
-            idx += len;
-            size -= len;
-            if (size <= 1) break;
+            int sep = (idx > 1) ? 1 : 0;
+            if (size <= sep) break;
+            int len = get_persisted_of(it->first, it->second, &buff[idx+sep], size-sep);
+            if (len <= 0) continue;     // does not fit
+            if (sep) buff[idx] = ',';
+            idx += sep + len;
+            size -= sep + len;
         }
     }
     else
@@ -160,14 +155,15 @@ CheckPointManager::get_persisted_of(const char *leader, cp_map& map, char *buff,
     int len = 0;
 
     len = snprintf(buff, size, "{\"leader\":\"%s\",\"channels\":[", leader);
-    size -= len;
-    ASSERT(size >= 0);
+    if (len+2 >= size) return 0;    // does not fit
+
+    size -= len + 2;    // leave room for the closing brackets
 
     for (auto it = map.begin(); it != map.end(); it++)
     {
-        if (size <= 1) break;
         int n = snprintf(&buff[len], size, "{\"channel\":\"%s\",\"checkpoint\":\"%s\"},",
             it->first, it->second.c_str());
+        if (n >= size) break;       // does not fit
         len += n;
         size -= n;
     }
@@ -179,6 +175,7 @@ CheckPointManager::get_persisted_of(const char *leader, cp_map& map, char *buff,
         size++;
     }
 
+    size += 2;
     len += snprintf(&buff[len], size, "]}");
     return len;
 }
-- 
2.43.0


From d85542fe9d8e3661830be5fbbc04ab88c8dfbb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:53:07 +0000
Subject: [PATCH 57/81] fix: check-points were damaged by a kill and forgotten
 after a restart

The file is now written under a temporary name first, its name never goes
back when the clock does, and what was loaded at startup is reported.
---
 include/cp.h    |  1 +
 src/core/cp.cpp | 33 ++++++++++++++++++++++++---------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/cp.h b/include/cp.h
index e5110dc..9d5a285 100644
--- a/include/cp.h
+++ b/include/cp.h
@@ -64,6 +64,7 @@ private:
     static cps_map m_cps;
     static cps_map m_snapshot;
     static cps_map m_persisted;
+    static Timestamp m_last_ts;     // name of the latest file on disk
 };
 
 
diff --git a/src/core/cp.cpp b/src/core/cp.cpp
index d95ee7f..c5d86ad 100644
--- a/src/core/cp.cpp
+++ b/src/core/cp.cpp
@@ -34,6 +34,7 @@ std::mutex CheckPointManager::m_lock;
 cps_map CheckPointManager::m_cps;
 cps_map CheckPointManager::m_snapshot;
 cps_map CheckPointManager::m_persisted;
+Timestamp CheckPointManager::m_last_ts = 0;
 
 
 void
@@ -43,6 +44,10 @@ CheckPointManager::init()
     std::string pattern = Config::get_data_dir() + "/*.cp";
     std::string file_name = last_file(pattern);
     if (file_name.empty()) return;
+
+    // never use names that are older than this, even if the clock was set back
+    m_last_ts = std::strtoull(file_name.c_str()+file_name.find_last_of('/')+1, nullptr, 10);
+
     std::ifstream is(file_name);
 
     if (! is)
@@ -57,12 +62,14 @@ CheckPointManager::init()
 
     while (std::getline(is, line))
     {
-        char buff[1024];
-        std::strncpy(buff, line.c_str(), sizeof(buff));
-        CheckPointManager::add(buff);
+        CheckPointManager::add(&line[0]);
     }
 
     is.close();
+
+    // these are on disk
+    std::lock_guard<std::mutex> guard(m_lock);
+    m_persisted = m_cps;
 }
 
 // format of cp: <leader>:<channel>:<check-point>
@@ -197,14 +204,16 @@ CheckPointManager::persist_to_file()
     if (m_snapshot.empty())
         return true;
 
-    Timestamp ts = ts_now_sec();
-    std::string file_name = Config::get_data_dir() + "/" + std::to_string(ts) + ".cp";
-    int fd = ::open(file_name.c_str(), O_CREAT|O_WRONLY|O_TRUNC|O_NONBLOCK, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
+    // if we get killed while writing, the previous file has to stay the latest
+    m_last_ts = std::max(m_last_ts, (Timestamp)ts_now_sec());
+    std::string file_name = Config::get_data_dir() + "/" + std::to_string(m_last_ts) + ".cp";
+    std::string tmp_name = Config::get_data_dir() + "/cp.tmp";
+    int fd = ::open(tmp_name.c_str(), O_CREAT|O_WRONLY|O_TRUNC|O_NONBLOCK, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
 
     fd = FileDescriptorManager::dup_fd(fd, FileDescriptorType::FD_FILE);
     if (fd == -1)
     {
-        Logger::error("Failed to open file %s for write: %d", file_name.c_str(), errno);
+        Logger::error("Failed to open file %s for write: %d", tmp_name.c_str(), errno);
         return false;
     }
 
@@ -225,8 +234,14 @@ CheckPointManager::persist_to_file()
             fprintf(fp, "%s:%s:%s\n", leader, it2->first, it2->second.c_str());
     }
 
-    std::fflush(fp);
-    std::fclose(fp);
+    bool success = (std::ferror(fp) == 0);
+
+    if ((std::fclose(fp) != 0) || ! success || (std::rename(tmp_name.c_str(), file_name.c_str()) != 0))
+    {
+        Logger::error("Failed to write file %s: %d", file_name.c_str(), errno);
+        std::remove(tmp_name.c_str());
+        return false;
+    }
 
     std::string pattern = Config::get_data_dir() + "/*.cp";
     rotate_files(pattern, 10);
-- 
2.43.0


From f6d5787d986f3332b18652a7e04d5f48d1019b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:53:07 +0000
Subject: [PATCH 58/81] fix: two runs of the flush task could mix up their
 check-points

---
 src/core/tsdb.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 869b5fd..af75139 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3434,6 +3434,11 @@ Tsdb::rotate(TaskData& data)
 {
     if (g_shutdown_requested) return false;
 
+    // the previous one may still be running, if there are many timer threads
+    static std::mutex s_rotate_lock;
+    std::unique_lock<std::mutex> rotate_guard(s_rotate_lock, std::try_to_lock);
+    if (! rotate_guard.owns_lock()) return false;
+
     Meter meter(METRIC_TICKTOCK_TSDB_ROTATE_MS);
     Timestamp now = ts_now();
     std::vector<Tsdb*> tsdbs;
-- 
2.43.0


From 4159227aff377a4103d4e959d78d4ff00f3499e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:53:07 +0000
Subject: [PATCH 59/81] fix: check-points claimed writes that a kill could
 still lose

Flush the append log before new check-points are persisted.
---
 include/append.h     |  3 +++
 include/cp.h         |  3 +++
 src/core/cp.cpp      |  7 +++++++
 src/core/tsdb.cpp    |  5 ++++-
 src/utils/append.cpp | 12 +++++++++++-
 5 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/append.h b/include/append.h
index 5dd228e..54e3560 100644
--- a/include/append.h
+++ b/include/append.h
@@ -41,6 +41,9 @@ public:
     static void init();
     static FILE *open(std::string& name);
 
+    static bool is_enabled() { return m_enabled; }
+    static bool flush();        // generate append log (WAL); returns false if that's not possible
+
     // This will be called from Timer periodically to generate append log (WAL).
     static bool flush_all(TaskData& data);  // generate a new WAL to replace the existing one
     static void shutdown();     // called during normal shutdown
diff --git a/include/cp.h b/include/cp.h
index 9d5a285..d44cf05 100644
--- a/include/cp.h
+++ b/include/cp.h
@@ -46,6 +46,9 @@ public:
     // take a snapshot of all check-points before flushing database
     static void take_snapshot();
 
+    // is there anything in the snapshot that's not yet persisted?
+    static bool has_new();
+
     // persist the snapshot (from last take_snapshot() call) to disk
     static void persist();
 
diff --git a/src/core/cp.cpp b/src/core/cp.cpp
index c5d86ad..be0f873 100644
--- a/src/core/cp.cpp
+++ b/src/core/cp.cpp
@@ -187,6 +187,13 @@ CheckPointManager::get_persisted_of(const char *leader, cp_map& map, char *buff,
     return len;
 }
 
+bool
+CheckPointManager::has_new()
+{
+    std::lock_guard<std::mutex> guard(m_lock);
+    return (m_snapshot != m_persisted);
+}
+
 void
 CheckPointManager::persist()
 {
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index af75139..4f632a7 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -30,6 +30,7 @@
 #include <regex>
 #include <sstream>
 #include "admin.h"
+#include "append.h"
 #include "config.h"
 #include "cp.h"
 #include "limit.h"
@@ -3517,7 +3518,9 @@ Tsdb::rotate(TaskData& data)
         tsdb->dec_ref_count();
     }
 
-    CheckPointManager::persist();
+    // what the check-points stand for may still be in memory only
+    if (! AppendLog::is_enabled() || ! CheckPointManager::has_new() || AppendLog::flush())
+        CheckPointManager::persist();
     MetaFile::instance()->flush();
 
     if (Config::inst()->exists(CFG_TSDB_RETENTION_THRESHOLD))
diff --git a/src/utils/append.cpp b/src/utils/append.cpp
index da6ae5d..b39a482 100644
--- a/src/utils/append.cpp
+++ b/src/utils/append.cpp
@@ -56,6 +56,13 @@ AppendLog::init()
 
 bool
 AppendLog::flush_all(TaskData& data)
+{
+    flush();
+    return false;
+}
+
+bool
+AppendLog::flush()
 {
     if (g_shutdown_requested)
         return false;
@@ -95,9 +102,12 @@ AppendLog::flush_all(TaskData& data)
 
     // append.tmp => append.log
     if (std::rename(tmp_name.c_str(), log_name.c_str()) != 0)
+    {
         Logger::error("Failed to rename %s to %s", tmp_name.c_str(), log_name.c_str());
+        return false;
+    }
 
-    return false;
+    return true;
 }
 
 FILE *
-- 
2.43.0


From 471e7b84b79706b81e2c576168044fb0330efec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:09:41 +0000
Subject: [PATCH 60/81] fix: index and header files were lost when renaming
 them failed

---
 include/mmap.h    |  1 +
 src/core/mmap.cpp | 41 ++++++++++++++++++++++++++++++-----------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/include/mmap.h b/include/mmap.h
index 314d45d..6bef62e 100644
--- a/include/mmap.h
+++ b/include/mmap.h
@@ -113,6 +113,7 @@ public:
 
 private:
     bool expand(int64_t new_len);
+    void open_new(bool for_read);
 
 #if (__x86_64__ == 1) || (__ARM_64BIT_STATE == 1)
     std::atomic<Timestamp> m_last_access;
diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index cfeed00..544a352 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -327,6 +327,22 @@ IndexFile::IndexFile(const std::string& file_name) :
 {
 }
 
+void
+IndexFile::open_new(bool for_read)
+{
+    MmapFile::open(TT_SIZE_INCREMENT, for_read, false, true);
+    struct index_entry *entries = (struct index_entry*)get_pages();
+    ASSERT(entries != nullptr);
+    uint64_t max_idx = get_length() / TT_INDEX_SIZE;
+
+    // TODO: memcpy()?
+    for (uint64_t i = 0; i < max_idx; i++)
+    {
+        entries[i].file_index = TT_INVALID_FILE_INDEX;
+        entries[i].file_index2 = TT_INVALID_FILE_INDEX;
+    }
+}
+
 void
 IndexFile::open(bool for_read)
 {
@@ -338,20 +354,16 @@ IndexFile::open(bool for_read)
         // don't let it be seen under its real name until it's initialized
         std::string name = m_name;
         m_name = name + ".tmp";
-        MmapFile::open(TT_SIZE_INCREMENT, for_read, false, true);
-        struct index_entry *entries = (struct index_entry*)get_pages();
-        ASSERT(entries != nullptr);
-        uint64_t max_idx = get_length() / TT_INDEX_SIZE;
-
-        // TODO: memcpy()?
-        for (uint64_t i = 0; i < max_idx; i++)
-        {
-            entries[i].file_index = TT_INVALID_FILE_INDEX;
-            entries[i].file_index2 = TT_INVALID_FILE_INDEX;
-        }
+        open_new(for_read);
 
         if (std::rename(m_name.c_str(), name.c_str()) != 0)
+        {
             Logger::error("Failed to rename %s to %s, errno = %d", m_name.c_str(), name.c_str(), errno);
+            close_no_lock();
+            rm_file(m_name);
+            m_name = name;
+            open_new(for_read);     // do it in place
+        }
         m_name = name;
     }
     else
@@ -669,7 +681,14 @@ HeaderFile::HeaderFile(const std::string& file_name, FileIndex id, PageCount pag
     open(false);    // open for write
     init_tsdb_header(page_size);
     if (std::rename(m_name.c_str(), file_name.c_str()) != 0)
+    {
         Logger::error("Failed to rename %s to %s, errno = %d", m_name.c_str(), file_name.c_str(), errno);
+        close();
+        rm_file(m_name);
+        m_name = file_name;
+        open(false);    // do it in place
+        init_tsdb_header(page_size);
+    }
     m_name = file_name;
 }
 
-- 
2.43.0


From 9c9897db6cbe344a6dac619e6959c30dd54f5773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:09:50 +0000
Subject: [PATCH 61/81] fix: pages that could not be written completely damaged
 the data

---
 src/core/mmap.cpp | 16 +++++++++++++---
 src/core/tsdb.cpp |  9 ++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/core/mmap.cpp b/src/core/mmap.cpp
index 544a352..bf0f6cd 100644
--- a/src/core/mmap.cpp
+++ b/src/core/mmap.cpp
@@ -1109,9 +1109,19 @@ DataFile::append(const void *page, PageSize size)
     }
 
     if (m_file == nullptr) open(false);
-    ASSERT(m_file != nullptr);
-    std::fwrite(page, size, 1, m_file);
-    std::fflush(m_file);
+    if (m_file == nullptr) return TT_INVALID_PAGE_INDEX;
+
+    if ((std::fwrite(page, size, 1, m_file) != 1) || (std::fflush(m_file) != 0))
+    {
+        Logger::error("Failed to write to data file %s, errno = %d", m_name.c_str(), errno);
+
+        // remove what was written of this page; see also open()
+        close(2);
+        if (::truncate(m_name.c_str(), (off_t)idx * m_page_size + m_offset) != 0)
+            Logger::error("Failed to truncate file %s, errno = %d", m_name.c_str(), errno);
+        return TT_INVALID_PAGE_INDEX;
+    }
+
     m_last_write = ts_now_sec();
 
     if (sum >= m_page_size)
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 4f632a7..5e7425d 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2268,7 +2268,14 @@ Tsdb::append_page(MetricId mid, TimeSeriesId tid, FileIndex prev_file_idx, Heade
     MetaFile::instance()->flush();
 
     header->m_page_index = data_file->append(page, get_page_size());
-    ASSERT(header->m_page_index != TT_INVALID_HEADER_INDEX);
+
+    if (header->m_page_index == TT_INVALID_PAGE_INDEX)
+    {
+        // the page is lost, but what's already on disk must stay intact
+        header->m_next_file = prev_file_idx;
+        header->m_next_header = prev_header_idx;
+        return data_file->get_next_page_size();
+    }
 
     struct tsdb_header *tsdb_header = header_file->get_tsdb_header();
     ASSERT(tsdb_header != nullptr);
-- 
2.43.0


From 487bd90511d197ef71763450afe10ab995bf95e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:09:56 +0000
Subject: [PATCH 62/81] fix: time series were forgotten when the meta files
 could not be written

---
 include/meta.h       |  7 +++-
 src/core/tsdb.cpp    |  7 ++--
 src/utils/append.cpp |  6 ++--
 src/utils/meta.cpp   | 77 +++++++++++++++++++++++++++++++++-----------
 4 files changed, 72 insertions(+), 25 deletions(-)

diff --git a/include/meta.h b/include/meta.h
index a6fdf62..9f438d7 100644
--- a/include/meta.h
+++ b/include/meta.h
@@ -39,7 +39,7 @@ public:
 
     void open();    // for append
     void close();
-    void flush();
+    bool flush();   // return false if some time series couldn't be saved
 
     inline bool is_open() const { return (m_ts_file != nullptr); }
     void add_metric(MetricId id, const char *name);
@@ -52,11 +52,16 @@ private:
                  void (*restore_measurement)(std::string& measurement, std::string& tags, std::vector<std::pair<std::string,TimeSeriesId>>& fields, std::vector<TimeSeries*>& tsv));
     void restore_metrics(void (*restore_metrics)(MetricId, std::string& name));
 
+    bool flush_no_lock();
+    static bool flush(std::FILE *file, std::string& unsaved);
+
     std::mutex m_lock;
     std::string m_ts_name;
     std::string m_metrics_name;
     std::FILE *m_ts_file;
     std::FILE *m_metrics_file;
+    std::string m_ts_unsaved;       // lines not yet written to m_ts_file
+    std::string m_metrics_unsaved;  // lines not yet written to m_metrics_file
 
     static MetaFile *m_instance;
 };
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 5e7425d..dd4ee72 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -2265,9 +2265,10 @@ Tsdb::append_page(MetricId mid, TimeSeriesId tid, FileIndex prev_file_idx, Heade
     ASSERT(header_file->get_id() == data_file->get_id());
 
     // the time series has to be known after a restart
-    MetaFile::instance()->flush();
-
-    header->m_page_index = data_file->append(page, get_page_size());
+    if (MetaFile::instance()->flush())
+        header->m_page_index = data_file->append(page, get_page_size());
+    else
+        header->m_page_index = TT_INVALID_PAGE_INDEX;
 
     if (header->m_page_index == TT_INVALID_PAGE_INDEX)
     {
diff --git a/src/utils/append.cpp b/src/utils/append.cpp
index b39a482..8dc40ba 100644
--- a/src/utils/append.cpp
+++ b/src/utils/append.cpp
@@ -79,6 +79,7 @@ AppendLog::flush()
         return false;
     }
 
+    bool success = true;
     std::vector<Mapping*> mappings;
     Tsdb::get_all_mappings(mappings);
 
@@ -86,11 +87,12 @@ AppendLog::flush()
     {
         std::vector<TimeSeries*> tsv;
         mapping->get_all_ts(tsv);
-        MetaFile::instance()->flush();  // they have to be known after a restart
+        success = MetaFile::instance()->flush();    // they have to be known after a restart
+        if (! success) break;
         for (auto ts: tsv) ts->append(mapping->get_id(), file);
     }
 
-    bool success = (std::ferror(file) == 0);
+    success = success && (std::ferror(file) == 0);
 
     if ((fclose(file) != 0) || ! success)
     {
diff --git a/src/utils/meta.cpp b/src/utils/meta.cpp
index 7336657..156f127 100644
--- a/src/utils/meta.cpp
+++ b/src/utils/meta.cpp
@@ -222,6 +222,9 @@ MetaFile::open()
     ASSERT(m_ts_file == nullptr);
     ASSERT(m_metrics_file == nullptr);
 
+    std::string version = "# ticktockdb." + std::to_string(TT_MAJOR_VERSION) + "." +
+        std::to_string(TT_MINOR_VERSION) + "." + std::to_string(TT_PATCH_VERSION) + "\n";
+
     // open ts file
     struct stat sb;
     int fd = ::open(m_ts_name.c_str(), O_WRONLY|O_CREAT|O_APPEND|O_NONBLOCK, S_IRUSR|S_IWUSR|S_IRGRP|S_IROTH);
@@ -236,8 +239,12 @@ MetaFile::open()
         m_ts_file = fdopen(fd, "a");
         if (m_ts_file == nullptr)
             Logger::error("Failed to convert fd %d to FILE: %d", fd, errno);
-        else if ((fstat(fd, &sb) == 0) && (sb.st_size == 0))    // 1st line: ticktock version
-            fprintf(m_ts_file, "# ticktockdb.%d.%d.%d\n", TT_MAJOR_VERSION, TT_MINOR_VERSION, TT_PATCH_VERSION);
+        else
+        {
+            setvbuf(m_ts_file, nullptr, _IONBF, 0);    // see flush()
+            if ((fstat(fd, &sb) == 0) && (sb.st_size == 0))    // 1st line: ticktock version
+                m_ts_unsaved = version;
+        }
     }
 
     // open metrics file
@@ -253,8 +260,12 @@ MetaFile::open()
         m_metrics_file = fdopen(fd, "a");
         if (m_metrics_file == nullptr)
             Logger::error("Failed to convert fd %d to FILE: %d", fd, errno);
-        else if ((fstat(fd, &sb) == 0) && (sb.st_size == 0))    // 1st line: ticktock version
-            fprintf(m_metrics_file, "# ticktockdb.%d.%d.%d\n", TT_MAJOR_VERSION, TT_MINOR_VERSION, TT_PATCH_VERSION);
+        else
+        {
+            setvbuf(m_metrics_file, nullptr, _IONBF, 0);    // see flush()
+            if ((fstat(fd, &sb) == 0) && (sb.st_size == 0))    // 1st line: ticktock version
+                m_metrics_unsaved = version;
+        }
     }
 }
 
@@ -263,31 +274,57 @@ MetaFile::close()
 {
     std::lock_guard<std::mutex> guard(m_lock);
 
+    flush_no_lock();
+
     if (m_ts_file != nullptr)
     {
-        std::fflush(m_ts_file);
         std::fclose(m_ts_file);
         m_ts_file = nullptr;
     }
 
     if (m_metrics_file != nullptr)
     {
-        std::fflush(m_metrics_file);
         std::fclose(m_metrics_file);
         m_metrics_file = nullptr;
     }
 }
 
-void
+bool
 MetaFile::flush()
 {
     std::lock_guard<std::mutex> guard(m_lock);
+    return flush_no_lock();
+}
 
-    if (m_metrics_file != nullptr)
-        std::fflush(m_metrics_file);
+bool
+MetaFile::flush_no_lock()
+{
+    // metrics have to be there before any of their time series
+    return flush(m_metrics_file, m_metrics_unsaved) && flush(m_ts_file, m_ts_unsaved);
+}
 
-    if (m_ts_file != nullptr)
-        std::fflush(m_ts_file);
+// Write everything or nothing. In the latter case we will try again next time.
+bool
+MetaFile::flush(std::FILE *file, std::string& unsaved)
+{
+    if (unsaved.empty()) return true;
+    if (file == nullptr) return false;
+
+    struct stat sb;
+    int fd = fileno(file);
+    if (fstat(fd, &sb) != 0) return false;
+
+    if (std::fwrite(unsaved.data(), unsaved.size(), 1, file) != 1)
+    {
+        Logger::error("Failed to write to meta file: %d", errno);
+        std::clearerr(file);
+        if (ftruncate(fd, sb.st_size) != 0)
+            Logger::error("Failed to truncate meta file: %d", errno);
+        return false;
+    }
+
+    unsaved.clear();
+    return true;
 }
 
 void
@@ -299,7 +336,8 @@ MetaFile::add_ts(const char *metric, const char *key, TimeSeriesId id)
     ASSERT(m_ts_file != nullptr);
 
     std::lock_guard<std::mutex> guard(m_lock);
-    fprintf(m_ts_file, "%s %s %u\n", metric, key, id);
+    m_ts_unsaved.append(metric).append(" ").append(key).append(" ").append(std::to_string(id)).append("\n");
+    if (m_ts_unsaved.size() >= BUFSIZ) flush_no_lock();
 }
 
 void
@@ -308,8 +346,7 @@ MetaFile::add_metric(MetricId id, const char *name)
     ASSERT(name != nullptr);
     ASSERT(m_metrics_file != nullptr);
     std::lock_guard<std::mutex> guard(m_lock);
-    fprintf(m_metrics_file, "%d %s\n", id, name);
-    std::fflush(m_metrics_file);    // has to be there before any of its time series
+    m_metrics_unsaved.append(std::to_string(id)).append(" ").append(name).append("\n");
 }
 
 void
@@ -332,10 +369,11 @@ MetaFile::add_ts(const char *metric, Tag_v2& tags_v2, TimeSeriesId id)
     {
         std::lock_guard<std::mutex> guard(m_lock);
 
-        if (field == nullptr)
-            fprintf(m_ts_file, "%s %s %u\n", metric, (n>0) ? &buff[1] : ";", id);
-        else
-            fprintf(m_ts_file, "%s %s %s=%u\n", metric, (n>0) ? &buff[1] : ";", field->m_value, id);
+        m_ts_unsaved.append(metric).append(" ").append((n>0) ? &buff[1] : ";").append(" ");
+        if (field != nullptr)
+            m_ts_unsaved.append(field->m_value).append("=");
+        m_ts_unsaved.append(std::to_string(id)).append("\n");
+        if (m_ts_unsaved.size() >= BUFSIZ) flush_no_lock();
     }
 
     if (field != nullptr)
@@ -378,7 +416,8 @@ MetaFile::add_measurement(const char *measurement, char *tags, std::vector<std::
 
     {
         std::lock_guard<std::mutex> guard(m_lock);
-        fprintf(m_ts_file, "%s\n", buff);
+        m_ts_unsaved.append(buff).append("\n");
+        if (m_ts_unsaved.size() >= BUFSIZ) flush_no_lock();
     }
 
     MemoryManager::free_network_buffer(buff);
-- 
2.43.0


From f002b21f914d174276bb7e10b89552ab8e5059f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:09:56 +0000
Subject: [PATCH 63/81] fix: a day became unreadable when its config could not
 be written

---
 include/config.h     |  2 +-
 include/tsdb.h       |  4 +++-
 src/core/tsdb.cpp    | 20 ++++++++++++++++----
 src/utils/config.cpp |  7 ++++++-
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/config.h b/include/config.h
index 08b35ad..40c294e 100644
--- a/include/config.h
+++ b/include/config.h
@@ -272,7 +272,7 @@ public:
     void set_value(const std::string& name, const std::string& value);
 
     void load(bool override);   // read
-    void persist();             // write
+    bool persist();             // write
     void append(const std::string& name, const std::string& value);
     void verify();              // make sure all configs are valid
 
diff --git a/include/tsdb.h b/include/tsdb.h
index c784c08..934d353 100644
--- a/include/tsdb.h
+++ b/include/tsdb.h
@@ -408,7 +408,8 @@ private:
     static PageCount adjust_page_count();
 
     void add_config(const std::string& name, const std::string& value);
-    void write_config(const std::string& dir);
+    bool write_config(const std::string& dir);
+    bool ensure_config(const std::string& dir);
     void restore_config(const std::string& dir);
     void reload_header_data_files(const std::string& dir);
 
@@ -428,6 +429,7 @@ private:
     IndexFile m_index_file;
     std::mutex m_metrics_lock;
     uint32_t m_mbucket_count;   // max size of m_metrics[]
+    std::atomic<bool> m_config_saved;   // our config is on disk?
     std::vector<Metric*> m_metrics; // indexed by MetricId
 
     BucketBalancer m_bucket_balancer;
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index dd4ee72..d93599b 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1118,6 +1118,7 @@ Tsdb::Tsdb(TimeRange& range, bool existing, const char *suffix) :
     m_index_file(Tsdb::get_index_file_name(range, suffix)),
     m_page_size(g_page_size),
     m_page_count(g_page_count),
+    m_config_saved(existing),
     m_tstamp_ms(g_tstamp_resolution_ms)
 {
     ASSERT(g_tstamp_resolution_ms ? is_ms(range.get_from()) : is_sec(range.get_from()));
@@ -1191,7 +1192,7 @@ Tsdb::create(TimeRange& range, bool existing, const char *suffix)
         create_dir(dir);
 
         // write config
-        tsdb->write_config(dir);
+        tsdb->m_config_saved = tsdb->write_config(dir);
 
         if (suffix == nullptr)
         {
@@ -1324,7 +1325,7 @@ Tsdb::restore_config(const std::string& dir)
         m_tstamp_ms = starts_with(cfg.get_str(CFG_TSDB_TIMESTAMP_RESOLUTION), 'm');
 }
 
-void
+bool
 Tsdb::write_config(const std::string& dir)
 {
     Config cfg(dir + "/config");
@@ -1352,7 +1353,18 @@ Tsdb::write_config(const std::string& dir)
     if (m_mode.load() & TSDB_MODE_CRASHED)
         cfg.set_value("crashed", "true");
 
-    cfg.persist();
+    return cfg.persist();
+}
+
+// Pages can't be read back if we failed to write the config
+bool
+Tsdb::ensure_config(const std::string& dir)
+{
+    static std::mutex s_lock;
+    if (m_config_saved) return true;
+    std::lock_guard<std::mutex> guard(s_lock);
+    if (! m_config_saved) m_config_saved = write_config(dir);
+    return m_config_saved;
 }
 
 // Not thread safe. Caller should acquire m_lock before calling!
@@ -2265,7 +2277,7 @@ Tsdb::append_page(MetricId mid, TimeSeriesId tid, FileIndex prev_file_idx, Heade
     ASSERT(header_file->get_id() == data_file->get_id());
 
     // the time series has to be known after a restart
-    if (MetaFile::instance()->flush())
+    if (ensure_config(tsdb_dir) && MetaFile::instance()->flush())
         header->m_page_index = data_file->append(page, get_page_size());
     else
         header->m_page_index = TT_INVALID_PAGE_INDEX;
diff --git a/src/utils/config.cpp b/src/utils/config.cpp
index 5ee7b0c..acb5ea4 100644
--- a/src/utils/config.cpp
+++ b/src/utils/config.cpp
@@ -306,7 +306,7 @@ Config::verify(std::map<std::string, std::shared_ptr<Property>>& props,
     }
 }
 
-void
+bool
 Config::persist()
 {
     bool version_exists = exists("ticktockdb.version");
@@ -324,7 +324,12 @@ Config::persist()
 
     // keep the old one if we failed to write the new one
     if (file.fail() || (std::rename(tmp_name.c_str(), m_file_name.c_str()) != 0))
+    {
         Logger::error("Failed to write config file %s: %d", m_file_name.c_str(), errno);
+        return false;
+    }
+
+    return true;
 }
 
 void
-- 
2.43.0


From bc2a1b6edcbae06586c611a5ed18476e1c939f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:19:45 +0000
Subject: [PATCH 64/81] fix: series with long tags could be written but not
 queried

---
 include/strbuf.h     |  1 +
 src/utils/strbuf.cpp | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/strbuf.h b/include/strbuf.h
index f430ba2..828c7e7 100644
--- a/include/strbuf.h
+++ b/include/strbuf.h
@@ -39,6 +39,7 @@ public:
 private:
     int m_cursor;
     std::vector<char*> m_buffs;
+    std::vector<char*> m_long_strs; // those too long for m_buffs
 };
 
 
diff --git a/src/utils/strbuf.cpp b/src/utils/strbuf.cpp
index 80e0ca7..990ee77 100644
--- a/src/utils/strbuf.cpp
+++ b/src/utils/strbuf.cpp
@@ -37,6 +37,8 @@ StringBuffer::~StringBuffer()
 {
     for (char *buff: m_buffs)
         MemoryManager::free_network_buffer_small(buff);
+    for (char *str: m_long_strs)
+        free(str);
 }
 
 char *
@@ -45,14 +47,17 @@ StringBuffer::strdup(const char *str)
     size_t buff_size = MemoryManager::get_network_buffer_small_size() - 1;
 
     ASSERT(str != nullptr);
-    ASSERT(std::strlen(str) < buff_size);
 
     size_t len = std::strlen(str);
 
     if (UNLIKELY(len > buff_size))
     {
-        Logger::error("Can't fit str into StringBuffer: '%s'", str);
-        throw std::out_of_range("string too long to fit into StringBuffer");
+        // too long to fit, give it its own buffer
+        char *buff = static_cast<char*>(malloc(len+1));
+        if (buff == nullptr) throw std::bad_alloc();
+        std::memcpy(buff, str, len+1);
+        m_long_strs.push_back(buff);
+        return buff;
     }
 
     if ((m_cursor + len) >= buff_size)
-- 
2.43.0


From d38d8416971063d9769493a4564b4ae316bdbc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:19:45 +0000
Subject: [PATCH 65/81] fix: the request buffer was lost when its response
 could not be sent

---
 src/core/http.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 090d1aa..72619ff 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -674,15 +674,15 @@ HttpServer::send_response(HttpConnection *conn)
     {
         Logger::http("Sent %d(%d) bytes:\n%s", fd,
             response.response_size, sent, response.response);
-        return true;
     }
     else if ((conn->state & TCS_ERROR) == 0)
     {
         // re-queue it to try later
         conn->listener->resubmit_by_responder('h', conn);
+        return false;
     }
 
-    return false;
+    return true;    // nothing more to send
 }
 
 // parse raw request sitting in the buff into an HttpRequest
-- 
2.43.0


From f17c1f31fa9284a2db2d38e78e6a69a1c11e3382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:19:45 +0000
Subject: [PATCH 66/81] fix: keys already in the map of time series were leaked

---
 src/core/tsdb.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index d93599b..3bc049d 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -474,7 +474,13 @@ Mapping::get_ts(DataPoint& dp)
         if (raw_tags != nullptr)
         {
             if (std::strcmp(raw_tags_copy, buff) != 0)
-                m_map[strdup(raw_tags_copy)] = bt;
+            {
+                // someone else could have added it in the meantime
+                if (m_map.find(raw_tags_copy) == m_map.end())
+                    m_map[strdup(raw_tags_copy)] = bt;
+                else
+                    m_map[raw_tags_copy] = bt;
+            }
         }
     }
 
@@ -580,7 +586,10 @@ Mapping::get_measurement(char *raw_tags, TagOwner& owner, const char *measuremen
             mm = new Measurement();
             init_measurement(mm, measurement, ordered, owner, dps);
             bt = static_cast<BaseType*>(mm);
-            m_map[strdup(ordered)] = bt;
+            if (m_map.find(ordered) == m_map.end())
+                m_map[strdup(ordered)] = bt;
+            else
+                m_map[ordered] = bt;
         }
 
         if (m_map.find(original) == m_map.end())
-- 
2.43.0


From e69aca8fdb12936aae027224f5ddaf466ba5652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:19:45 +0000
Subject: [PATCH 67/81] fix: connections with unread data after an error were
 never closed

---
 include/tcp.h    |  2 +-
 src/core/tcp.cpp | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/tcp.h b/include/tcp.h
index 90cd6ec..361d296 100644
--- a/include/tcp.h
+++ b/include/tcp.h
@@ -202,7 +202,7 @@ public:
     }
 
     // these are called by responder threads
-    void close_conn_by_responder(int fd);
+    void close_conn_by_responder(int fd, bool error);
     void resubmit_by_responder(char c, TcpConnection *conn);
 
 private:
diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index 114a54a..94359df 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -45,7 +45,7 @@ void
 TcpConnection::close()
 {
     if (listener != nullptr)
-        listener->close_conn_by_responder(fd);
+        listener->close_conn_by_responder(fd, (state & TCS_ERROR) != 0);
 }
 
 
@@ -1361,12 +1361,17 @@ TcpListener::new_conn2(int fd)
 }
 
 void
-TcpListener::close_conn_by_responder(int fd)
+TcpListener::close_conn_by_responder(int fd, bool error)
 {
-    // make sure no data is in OS buffer before closing
     char buff[32];
-    int cnt = recv(fd, buff, 1, MSG_DONTWAIT|MSG_PEEK);
-    if (cnt > 0) return;
+
+    // make sure no data is in OS buffer before closing,
+    // unless there was an error, and nobody will read it
+    if (! error)
+    {
+        int cnt = recv(fd, buff, 1, MSG_DONTWAIT|MSG_PEEK);
+        if (cnt > 0) return;
+    }
 
     std::snprintf(buff, sizeof(buff), "%c %d\n", PIPE_CMD_CLOSE_CONN[0], fd);
     write_pipe(m_pipe_fds[1], buff);
-- 
2.43.0


From effda4ccc96da64d0ba17b8412c932f33bab4c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:19:45 +0000
Subject: [PATCH 68/81] fix: a line longer than the buffer kept a worker busy
 forever

---
 src/core/tcp.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index 94359df..7e5b296 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -477,6 +477,14 @@ TcpServer::recv_tcp_data(TaskData& data)
         }
     }
 
+    if (UNLIKELY(len >= buff_size))
+    {
+        // this line will never fit; turn it into a comment
+        Logger::warn("line too long on conn %d, ignored", fd);
+        buff[0] = '#';
+        len = 1;
+    }
+
     if (again && (conn->pending_tasks <= 1))
         conn->listener->resubmit_by_responder('t', conn);
 
-- 
2.43.0


From e81c059232410014bddb03e243f7a12e25b6bb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:39:43 +0000
Subject: [PATCH 69/81] fix: find series by a tag value of 512 characters or
 more

A query that names such a value matched nothing, although the series was
stored and is returned when the tag is not named.  Only patterns are
copied into the buffer the limit protects, so only they are limited.
---
 src/utils/tag.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/tag.cpp b/src/utils/tag.cpp
index 191a0a5..d1b6fa3 100644
--- a/src/utils/tag.cpp
+++ b/src/utils/tag.cpp
@@ -705,7 +705,8 @@ TagMatcher::init(Tag *tags)
     const char *value = tags->m_value;
     size_t last = std::strlen(value);
 
-    if (UNLIKELY(last == 0 || MAX_TOTAL_TAG_LENGTH/2 <= last))
+    // only patterns need to be copied into buff[]
+    if (UNLIKELY(last == 0 || (MAX_TOTAL_TAG_LENGTH/2 <= last && std::strpbrk(value, "(*|") != nullptr)))
     {
         Logger::error("Tag value invalid: %s=%s", tags->m_key, value);
         return;
-- 
2.43.0


From 0b35b1a1c34981f0c0dc8273cf3053a1162f4a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:56:35 +0000
Subject: [PATCH 70/81] fix: a stop signal right after the start could hang the
 server

The signal handler writes to the log.  If the signal arrived while the
main thread was writing its first debug message after the signals were
let in, the handler waited forever for the lock its own thread held.
Write that message before the signals are let in.
---
 src/core/tcp.cpp | 1 -
 src/main.cpp     | 6 +++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index 7e5b296..1e8d43d 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -1007,7 +1007,6 @@ TcpListener::shutdown(ShutdownRequest request)
 void
 TcpListener::wait(size_t timeout_secs)
 {
-    Logger::debug("Waiting for listener to stop...");
     if (m_listener.joinable()) m_listener.join();
     Logger::debug("Waiting for responders to stop...");
     m_responders.wait(timeout_secs);
diff --git a/src/main.cpp b/src/main.cpp
index 7f2e888..4db4767 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -430,11 +430,15 @@ main(int argc, char *argv[])
     std::signal(SIGABRT, intr_handler);
     std::signal(SIGBUS, intr_handler);
     std::set_terminate(terminate_handler);
-    pthread_sigmask(SIG_UNBLOCK, &sigs, nullptr);
 
     if (! g_run_as_daemon && ! g_quiet)
         printf("TickTockDB is ready...\n");
 
+    // From here on, until shutdown is requested, this thread must not log:
+    // the handler does, and would wait forever for a lock we hold.
+    Logger::debug("Waiting for listeners to stop...");
+    pthread_sigmask(SIG_UNBLOCK, &sigs, nullptr);
+
     // wait for HTTP server to stop
     http_server.wait(0);
     http_server.close_conns();
-- 
2.43.0


From 0849a76238f24cf77b01f2baf402cdd398732b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:56:52 +0000
Subject: [PATCH 71/81] fix: don't garble HTTP requests that arrive in pieces

Restore the header before more data is received. Doing it afterwards wrote
into the body that had just arrived, which broke compressed bodies.
---
 src/core/http.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 72619ff..20558ca 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -414,6 +414,10 @@ HttpServer::recv_http_data_cont(HttpConnection *conn)
     bool conn_error = conn->request.close;
     bool free_buff = true;
 
+    // before what parse_header() left behind gets overwritten
+    if (! conn->request.header_ok)
+        undo_header(conn->request);
+
     while (len < buff_size)
     {
         // the MSG_DONTWAIT is not really needed, since
@@ -450,10 +454,7 @@ HttpServer::recv_http_data_cont(HttpConnection *conn)
     if (len >= buff_size)
     {
         if (! conn->request.header_ok)
-        {
-            undo_header(conn->request);
             parse_header(buff, len, conn->request);
-        }
         HttpServer::send_response(conn, 413);
         conn_error = true;
         Logger::debug("received request of size %d, returning 413", len);
@@ -481,7 +482,6 @@ HttpServer::recv_http_data_cont(HttpConnection *conn)
 
         if (! conn->request.header_ok)
         {
-            undo_header(conn->request);
             Logger::http("Re-parse request: %s", fd, buff);
             parse_header(buff, len, conn->request);
         }
-- 
2.43.0


From 9cf0b79d29aef643d85ad729431ac739f95cc82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:56:52 +0000
Subject: [PATCH 72/81] fix: answer requests with negative length that arrive
 in pieces

---
 src/core/http.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 20558ca..35126e2 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -498,7 +498,12 @@ HttpServer::recv_http_data_cont(HttpConnection *conn)
         // If not, we need to stop right here, and inform
         // the listener to forward the rest of the request
         // our way.
-        if (UNLIKELY(! conn->request.is_complete()))
+        if (conn->request.header_ok && (conn->request.length < 0))
+        {
+            conn_error = true;
+            free_buff = HttpServer::send_response(conn, 411);
+        }
+        else if (UNLIKELY(! conn->request.is_complete()))
         {
             free_buff = false;
             conn->offset = len;
-- 
2.43.0


From 72f5e5f83c49e79b4f15f19a289018610a0e965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:56:52 +0000
Subject: [PATCH 73/81] fix: leave room after uncompressed content

The parsers may look at, or terminate, a few bytes past the end.
---
 src/core/http.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 35126e2..28559b6 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -849,7 +849,8 @@ HttpServer::process_request(HttpRequest& request, HttpResponse& response)
             if (request.encoding != 0)
             {
                 buff = MemoryManager::alloc_network_buffer();
-                if (! request.uncompress(buff, MemoryManager::get_network_buffer_size()))
+                // leave some room, like we do when receiving
+                if (! request.uncompress(buff, MemoryManager::get_network_buffer_size() - 8))
                     throw std::runtime_error("failed to uncompress content");
                 Logger::http("%s", 0, request.content);
             }
-- 
2.43.0


From 9a2426716293e072e877041ca179fc24b3139ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:56:52 +0000
Subject: [PATCH 74/81] fix: release zlib state when compressed content is
 damaged

---
 src/core/http.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index 28559b6..6e41cf3 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -1263,7 +1263,10 @@ HttpRequest::uncompress(char *buff, size_t size)
         }
 
         if (strm.avail_in != 0)
+        {
+            inflateEnd(&strm);
             return false;
+        }
 
         length = size - strm.avail_out;
         content = buff;
-- 
2.43.0


From 58f0462b6fa253887a3da500165a4f20880c1242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:56:52 +0000
Subject: [PATCH 75/81] fix: don't use a bucket map that could not be saved

After a restart the pages of the moved metrics would be looked up in the
wrong buckets.
---
 src/core/tsdb.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index 3bc049d..f2b6997 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -4317,8 +4317,12 @@ Tsdb::BucketBalancer::do_balance(Tsdb *prev_tsdb, Tsdb *curr_tsdb)
 
         os.close();
 
-        if (std::rename(tmp_name.c_str(), file_name.c_str()) != 0)
-            Logger::error("Failed to rename %s to %s", tmp_name.c_str(), file_name.c_str());
+        if (! os || (std::rename(tmp_name.c_str(), file_name.c_str()) != 0))
+        {
+            Logger::error("Failed to write %s: %d", file_name.c_str(), errno);
+            rm_file(tmp_name);
+            m_bucket_map.clear();   // or pages can't be found after a restart
+        }
     }
 
     clear_page_count();
-- 
2.43.0


From e256eff9bd14b0f8fc675f588ab019a59600a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:13:58 +0000
Subject: [PATCH 76/81] fix: don't let append.log bring back days removed by
 retention

It may still have pages of a day that is being removed. If that day was
written again before a crash, they were mixed with the new ones.
---
 src/core/tsdb.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index f2b6997..f4803cf 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -3553,7 +3553,19 @@ Tsdb::rotate(TaskData& data)
     MetaFile::instance()->flush();
 
     if (Config::inst()->exists(CFG_TSDB_RETENTION_THRESHOLD))
-        purge_oldest(Config::inst()->get_time(CFG_TSDB_RETENTION_THRESHOLD, TimeUnit::DAY));
+    {
+        Timestamp threshold = Config::inst()->get_time(CFG_TSDB_RETENTION_THRESHOLD, TimeUnit::DAY);
+        size_t count;
+
+        {
+            PThread_ReadLock guard(&m_tsdb_lock);
+            count = m_tsdbs.size();
+        }
+
+        // append.log should not bring back what we are about to remove
+        if ((count > threshold) && (! AppendLog::is_enabled() || AppendLog::flush()))
+            purge_oldest(threshold);
+    }
 
     RollupManager::rotate();
 
-- 
2.43.0


From 84a06ccd65a69b926feb80a66c8566e6ac0f7076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:27:54 +0000
Subject: [PATCH 77/81] fix: don't include trailing spaces in unquoted tag
 values of JSON

---
 src/core/dp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/dp.cpp b/src/core/dp.cpp
index a0e5ca1..f73c21b 100644
--- a/src/core/dp.cpp
+++ b/src/core/dp.cpp
@@ -285,7 +285,9 @@ DataPoint::next_value(char* json, char* &value, bool& quote)
         while ((*curr != ',') && (*curr != '}') && (*curr != 0)) curr++;
         if (*curr == 0) return nullptr;
         if (*curr == '}') quote = true;
-        *curr = 0;
+        json = curr;
+        while (std::isspace(*(json-1))) json--;     // trailing spaces
+        *json = 0;
         return curr+1;
     }
     else    // boolean
-- 
2.43.0


From e887a0ef84c81dd2fd39b81c1f075354b2978743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:27:54 +0000
Subject: [PATCH 78/81] fix: tag values starting with true or false in unquoted
 tag filters

---
 src/utils/json.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils/json.cpp b/src/utils/json.cpp
index ccf1e03..67acaee 100644
--- a/src/utils/json.cpp
+++ b/src/utils/json.cpp
@@ -49,6 +49,15 @@ find_end_number(char *json)
     return end;
 }
 
+// return true if the unquoted value is exactly the given word
+static bool
+is_word(const char *json, const char *word)
+{
+    size_t len = std::strlen(word);
+    if (std::strncmp(json, word, len) != 0) return false;
+    return std::isspace(json[len]) || (json[len] == ',') || (json[len] == ']') || (json[len] == '}');
+}
+
 char *
 JsonParser::parse_map(char *json, JsonMap& map, char delim)
 {
@@ -243,12 +252,12 @@ JsonParser::parse_key_value_unquoted(char *json, std::pair<const char*,JsonValue
         json = parse_array(json, value->arr);
         value->set_type(JsonValueType::JVT_ARRAY);
     }
-    else if (std::strncmp(json, "true", 4) == 0)
+    else if (is_word(json, "true"))
     {
         value->set_value(true);
         json += 4;
     }
-    else if (std::strncmp(json, "false", 5) == 0)
+    else if (is_word(json, "false"))
     {
         value->set_value(false);
         json += 5;
-- 
2.43.0


From b16d3e124417267961df3592739aee6416873815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:27:54 +0000
Subject: [PATCH 79/81] fix: close connections that are no longer registered
 with epoll

A connection closed because of a socket error is deregistered first. If
data was still waiting in its socket, the last responder left the closing
to an event that could not come any more.
---
 src/core/tcp.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/tcp.cpp b/src/core/tcp.cpp
index 1e8d43d..26697e4 100644
--- a/src/core/tcp.cpp
+++ b/src/core/tcp.cpp
@@ -45,7 +45,12 @@ void
 TcpConnection::close()
 {
     if (listener != nullptr)
-        listener->close_conn_by_responder(fd, (state & TCS_ERROR) != 0);
+    {
+        // once deregistered there will be no more events to make us read it
+        uint32_t flags = state;
+        bool error = (flags & TCS_ERROR) || ! (flags & TCS_REGISTERED);
+        listener->close_conn_by_responder(fd, error);
+    }
 }
 
 
-- 
2.43.0


From f0917a03cbae49014edc76478436bb041681c1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:28:04 +0000
Subject: [PATCH 80/81] fix: don't overrun a data file that has more pages than
 headers

If the server is killed after a page was written, but before it was
recorded in the header file, the data file becomes full before the header
file does. The next page then got an invalid header index.
---
 include/mmap.h    | 2 ++
 src/core/tsdb.cpp | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/mmap.h b/include/mmap.h
index 6bef62e..c01ae78 100644
--- a/include/mmap.h
+++ b/include/mmap.h
@@ -174,6 +174,8 @@ public:
     PageCount append(const void *page, PageSize size);
     inline FileIndex get_id() const { return m_id; }
     inline PageSize get_offset() const { return m_offset; }
+    inline bool is_full(PageCount page_count) const
+    { return (m_page_index != TT_INVALID_PAGE_INDEX) && (m_page_index >= page_count); }
     inline PageSize get_next_page_size() const
     { return m_offset?(m_page_size-m_offset):m_page_size; }
     void *get_page(PageIndex page_idx);
diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index f4803cf..f762b28 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1025,7 +1025,9 @@ Metric::get_last_files(std::string& tsdb_dir, PageCount page_cnt, PageSize page_
         data_file = m_data_files.back();
         data_file->ensure_open(false);
 
-        if (header_file->is_full())
+        // if we were killed after a page was written, but before it was
+        // recorded in the header file, the data file will be full first
+        if (header_file->is_full() || data_file->is_full(header_file->get_page_count()))
         {
             FileIndex id = m_header_files.size();
             header_file = new HeaderFile(get_header_file_name(tsdb_dir, id), id, page_cnt, page_size);
-- 
2.43.0


From f059068a4cc6d0d0b0fbb765f3c7006ebaf8ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:28:04 +0000
Subject: [PATCH 81/81] fix: detect the end of a page chain cut short by a kill

The 16-bit file index was compared with the invalid rollup index, which
is 32-bit, so that queries looked for a file that does not exist.
---
 src/core/tsdb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tsdb.cpp b/src/core/tsdb.cpp
index f762b28..aa4822f 100644
--- a/src/core/tsdb.cpp
+++ b/src/core/tsdb.cpp
@@ -1821,7 +1821,7 @@ Tsdb::query_for_data(MetricId mid, const TimeRange& range, std::vector<QueryTask
         if (! get_out_of_order(task->get_ts_id()))
             task->merge_data(range);
 
-        if (file_or_rollup_idx != TT_INVALID_ROLLUP_INDEX && header_idx != TT_INVALID_HEADER_INDEX &&
+        if (file_or_rollup_idx != TT_INVALID_FILE_INDEX && header_idx != TT_INVALID_HEADER_INDEX &&
             ! task->is_after_tail(file_or_rollup_idx, header_idx))
             pq.push(task);
     }
-- 
2.43.0

