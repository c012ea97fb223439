From 0e3052b97038126d10f9fb1ffe516b23a7e69804 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 01/34] fix: release the file handle when dumping a metric
 fails

---
 database/files/metric.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/database/files/metric.go b/database/files/metric.go
index 562a5dd..6f945bb 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -529,6 +529,7 @@ func (m *metric) dump(ctx context.Context, w io.Writer) (err error) {
 
 		meta, err := f.Metadata(ctx)
 		if err != nil {
+			m.opts.fch.releaseFile(path, f)
 			return err
 		}
 		fmt.Fprintln(w, path, fmt.Sprintf("%+v", meta))
@@ -537,6 +538,7 @@ func (m *metric) dump(ctx context.Context, w io.Writer) (err error) {
 			if f.HasRecord(ctx, n) {
 				rec, err := f.Record(ctx, n)
 				if err != nil {
+					m.opts.fch.releaseFile(path, f)
 					return err
 				}
 				rec.data = nil
-- 
2.43.0


From 7126ed5575af14592d9e9516f1e219b2d0493e18 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 02/34] fix: report munmap and msync failures

---
 database/files/internal/system/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/files/internal/system/mmap.go b/database/files/internal/system/mmap.go
index 4cf98ac..04c8984 100644
--- a/database/files/internal/system/mmap.go
+++ b/database/files/internal/system/mmap.go
@@ -24,7 +24,7 @@ func Mmap(fd int, length int, prot int, flags int) (data uintptr, err error) {
 func Munmap(data uintptr, length int) (err error) {
 	_, _, ec := syscall.Syscall(syscall.SYS_MUNMAP, data, uintptr(length), 0)
 	if ec != 0 {
-		return Error.Wrap(err)
+		return Error.Wrap(ec)
 	}
 	return nil
 }
@@ -33,7 +33,7 @@ func Msync(data uintptr, length int, flags int) (err error) {
 	_, _, ec := syscall.Syscall(syscall.SYS_MSYNC, data, uintptr(length),
 		uintptr(flags))
 	if ec != 0 {
-		return Error.Wrap(err)
+		return Error.Wrap(ec)
 	}
 	return nil
 }
-- 
2.43.0


From a7caacfcff554bdcde1abaab5a8dba04b471ccd9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 03/34] fix: unmap a file whose metadata cannot be read or
 written

---
 database/files/file.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database/files/file.go b/database/files/file.go
index 88f3395..1c010f1 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -68,6 +68,7 @@ func createFile(ctx context.Context, path string, size, cap int) (
 		Head:  cap - 1,
 	})
 	if err != nil {
+		system.Munmap(data, len)
 		return file{}, err
 	}
 
@@ -110,10 +111,12 @@ func openFile(ctx context.Context, path string) (f file, err error) {
 	// file.
 	meta, err := readMetadata(slice(data, len))
 	if err != nil {
+		system.Munmap(data, len)
 		return f, err
 	}
 
 	if meta.Size_ < recordHeaderSize {
+		system.Munmap(data, len)
 		return f, Error.New("possible corruption: invalid size")
 	}
 
-- 
2.43.0


From bc14f79ae5420e3038f0a8a568a73cf725f130b9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 04/34] fix: refuse to create files without room for a record

---
 database/files/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database/files/file.go b/database/files/file.go
index 1c010f1..9f5ee95 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -32,6 +32,11 @@ type file struct {
 func createFile(ctx context.Context, path string, size, cap int) (
 	f file, err error) {
 
+	// there is no way to store anything without room for a record.
+	if size < recordHeaderSize || cap < 1 {
+		return file{}, Error.New("invalid size or capacity")
+	}
+
 	fh, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return file{}, Error.Wrap(err)
-- 
2.43.0


From e0c63fd3bc1d7021fcd4c66c49510865b243d80c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 05/34] fix: do not trust the size and head pointer of a
 damaged file

---
 database/files/file.go     | 2 +-
 database/files/file_ops.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/database/files/file.go b/database/files/file.go
index 9f5ee95..63f8399 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -120,7 +120,7 @@ func openFile(ctx context.Context, path string) (f file, err error) {
 		return f, err
 	}
 
-	if meta.Size_ < recordHeaderSize {
+	if meta.Size_ < recordHeaderSize || meta.Size_ > len {
 		system.Munmap(data, len)
 		return f, Error.New("possible corruption: invalid size")
 	}
diff --git a/database/files/file_ops.go b/database/files/file_ops.go
index 310e880..1cbc10f 100644
--- a/database/files/file_ops.go
+++ b/database/files/file_ops.go
@@ -14,7 +14,12 @@ func getHeadPointer(ctx context.Context, f file) (n int, err error) {
 
 	head := m.Head
 	if head < 0 {
-		return head, nil
+		return -1, nil
+	}
+
+	// the hint must point into the file, or we would walk out of bounds.
+	if head >= f.Capacity() {
+		head = f.Capacity() - 1
 	}
 
 	// figure out if head has a record. typically, it won't.
-- 
2.43.0


From df81dfdefc4db5cd5e5dd4c925efe8047064a6c2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 06/34] fix: evict an empty file's handle before removing the
 file

---
 database/files/metric.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/database/files/metric.go b/database/files/metric.go
index 6f945bb..f295a6d 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -198,6 +198,7 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 			// since this file is empty and there is an earlier file, we should
 			// remove it.
 			m.opts.fch.releaseFile(path, f)
+			m.opts.fch.evictFile(path)
 			os.Remove(path)
 			m.last--
 
-- 
2.43.0


From 4dc45266df64737a65518f6c4e3d158e348a5e85 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:25 +0000
Subject: [PATCH 07/34] fix: check that a value fits before rolling files over
 for it

---
 database/files/metric.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index f295a6d..13fda71 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -247,11 +247,13 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		return false, Error.New("unable to compute number of records")
 	}
 	if head-nr < 0 {
-		last_rec := f.Capacity() - 1
-
-		// if this is the first write to an empty file, then we will not be
-		// able to write it.
-		if m.last == 1 && head == last_rec {
+		// if it would not fit in a newly allocated file, then we will not be
+		// able to write it, and must not remove any files for it.
+		nr = numRecords(len(data), m.opts.fch.opts.Size)
+		if nr == 0 {
+			return false, Error.New("unable to compute number of records")
+		}
+		if nr > m.opts.fch.opts.Cap {
 			return false, Error.New("value too large for empty file")
 		}
 
-- 
2.43.0


From 6098c73848e7293d609322556824afcd7934c9be Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 08/34] fix: keep reading older files after one that is too new

---
 database/files/metric.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 13fda71..baf564a 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -363,7 +363,7 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 				return false, err
 			}
 			if meta.SmallestEnd >= end {
-				return false, nil
+				return true, nil
 			}
 
 			capacity := f.Capacity()
-- 
2.43.0


From 19f004273b9a93970c735a2edb19526292013a3b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 09/34] fix: do not skip the value following a torn one

---
 database/files/metric.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/database/files/metric.go b/database/files/metric.go
index baf564a..1cd27a8 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -462,6 +462,8 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 							"kind", rec.kind,
 							"expected", recordKind_end,
 						)
+						// it may start the next value, so look at it again.
+						head--
 						continue new_record
 					}
 
-- 
2.43.0


From 2df79e75e6684ec315759b7ada3cba0ed325d841 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 10/34] fix: reject record sizes without room for data

---
 database/files/record.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/files/record.go b/database/files/record.go
index f0e5537..a7cb0a8 100644
--- a/database/files/record.go
+++ b/database/files/record.go
@@ -130,7 +130,7 @@ func parse(buf []byte) (out record, err error) {
 // size is not in a range that is valid.
 func numRecords(len, size int) int {
 	chunk := size - recordHeaderSize
-	if chunk < 0 || int(uint16(chunk)) != chunk {
+	if chunk <= 0 || int(uint16(chunk)) != chunk {
 		return 0
 	}
 	if len == 0 {
@@ -147,7 +147,7 @@ func iterateRecords(start, end int64, data []byte, size int,
 	fn func(rec record) error) error {
 
 	chunk := size - recordHeaderSize
-	if chunk < 0 || int(uint16(chunk)) != chunk {
+	if chunk <= 0 || int(uint16(chunk)) != chunk {
 		return Error.New("invalid size value")
 	}
 
-- 
2.43.0


From 5112c7ad2fb94aa59b21f59337df226660fc8d8f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 11/34] fix: do not lose or race on metric names while listing
 and rescanning

---
 database/files/db_read.go | 91 ++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 48 deletions(-)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index e0b248c..ae57988 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -53,62 +53,44 @@ func (db *DB) QueryLatest(ctx context.Context, metric string, buf []byte) (
 func (db *DB) Metrics(ctx context.Context,
 	cb func(name string) (bool, error)) (err error) {
 
-	// load up the readonly names value
-	names, ok := db.names.Load().(*sset.Set)
-	if !ok {
-		names = sset.New(0)
-	}
-
-	// merge the worker sets in if we have a flag for it
-	copied := false
-	locked := false
-	for i, names_w := range db.names_w {
+	// check if any worker has names that are not published yet.
+	pending := false
+	for i := range db.names_w {
 		db.names_w_mu[i].Lock()
-		len_names_w := names_w.Len()
+		if db.names_w[i].Len() > 0 {
+			pending = true
+		}
 		db.names_w_mu[i].Unlock()
+	}
 
-		// skip if we don't need to merge it in
-		if len_names_w == 0 {
-			continue
-		}
+	// publish them if so. the published set is readonly, so it is copied. the
+	// worker mutexes are all held until the names are published so that every
+	// name is always in either the published set or a worker set.
+	if pending {
+		db.names_mu.Lock()
 
-		// lock the populating mutex if required
-		if !locked {
-			db.names_mu.Lock()
-			locked = true
+		merged := sset.New(0)
+		if names, ok := db.names.Load().(*sset.Set); ok {
+			merged = names.Copy()
 		}
-
-		// lock the worker map again. we drop the worker mutex to avoid
-		// deadlocks while taking the db.names_mu.
-		db.names_w_mu[i].Lock()
-
-		// lazily copy the names map to ensure it is readonly
-		// we reload the names map here after we have the mutex in case
-		// some concurrent Metrics call has updated the atomic.Value
-		if !copied {
-			new_names, ok := db.names.Load().(*sset.Set)
-			if ok && new_names.Len() > 0 {
-				names = new_names.Copy()
-			}
-			copied = true
+		for i := range db.names_w {
+			db.names_w_mu[i].Lock()
+			merged.Merge(db.names_w[i])
+		}
+		db.names.Store(merged)
+		for i := range db.names_w {
+			db.names_w[i] = sset.New(0)
+			db.names_w_mu[i].Unlock()
 		}
 
-		// merge the worker map in
-		names.Merge(names_w)
-
-		// clear out the worker map
-		db.names_w[i] = sset.New(0)
-		db.names_w_mu[i].Unlock()
-	}
-
-	// if we copied, we need to store the value now
-	if copied {
-		db.names.Store(names)
+		db.names_mu.Unlock()
 	}
 
-	// if we locked, we can unlock now as we're done populating and storing
-	if locked {
-		db.names_mu.Unlock()
+	// load up the readonly names value. it must happen after the check above
+	// so that it includes any names that were published concurrently.
+	names, ok := db.names.Load().(*sset.Set)
+	if !ok {
+		names = sset.New(0)
 	}
 
 	// yay do callbacks
@@ -122,6 +104,8 @@ func (db *DB) Metrics(ctx context.Context,
 // PopulateMetrics walks the directory tree of the metrics recreating the
 // in-memory cache of metric names. It should be called periodically.
 func (db *DB) PopulateMetrics(ctx context.Context) (err error) {
+	before, _ := db.names.Load().(*sset.Set)
+
 	dp := newDBPopulator(db.dir)
 	switch err := dp.populate(ctx); {
 	case err == context.Canceled:
@@ -132,8 +116,19 @@ func (db *DB) PopulateMetrics(ctx context.Context) (err error) {
 
 	// all stores to the names map have to be done under the names_mu mutex.
 	db.names_mu.Lock()
+	defer db.names_mu.Unlock()
+
+	// keep any names that were published during the walk, since the walk may
+	// have missed them.
+	if now, ok := db.names.Load().(*sset.Set); ok {
+		now.Iter(func(name string) bool {
+			if before == nil || !before.Has(name) {
+				dp.out.Add(name)
+			}
+			return true
+		})
+	}
 	db.names.Store(dp.out)
-	db.names_mu.Unlock()
 
 	return nil
 }
-- 
2.43.0


From f5bb087472b2620e46b585c4d4f51e5cb65da0b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 12/34] fix: do not panic on negative database settings

---
 database/files/db.go       | 7 ++++++-
 database/files/register.go | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/database/files/db.go b/database/files/db.go
index c438587..546e851 100644
--- a/database/files/db.go
+++ b/database/files/db.go
@@ -116,7 +116,7 @@ type queuedValue struct {
 // options.
 func New(dir string, opts Options) *DB {
 	// set up the number of workers
-	if opts.Tuning.Workers == 0 {
+	if opts.Tuning.Workers <= 0 {
 		opts.Tuning.Workers = runtime.GOMAXPROCS(-1) - 1
 
 		// in the worst case, run one worker anyway
@@ -138,6 +138,11 @@ func New(dir string, opts Options) *DB {
 		opts.Tuning.Handles = 0
 	}
 
+	// a negative buffer is no buffer
+	if opts.Tuning.Buffer < 0 {
+		opts.Tuning.Buffer = 0
+	}
+
 	var queue atomic.Value
 	queue.Store(make(chan queuedValue, opts.Tuning.Buffer))
 
diff --git a/database/files/register.go b/database/files/register.go
index 9861c25..0ca701b 100644
--- a/database/files/register.go
+++ b/database/files/register.go
@@ -30,6 +30,10 @@ func init() {
 				return nil, err
 			}
 
+			if opts.Size < 1 || opts.Cap < 1 {
+				return nil, Error.New("size and cap must be positive")
+			}
+
 			return New(dir, opts), nil
 		}))
 }
-- 
2.43.0


From 8b83a57856e7415b64934e220be403280bd2a439 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 13/34] fix: aggregate observations in one critical section and
 skip empty aggregations

---
 data/agg.go    | 52 ++++++++++++++++++--------------------------------
 data/writer.go |  6 ++++++
 2 files changed, 25 insertions(+), 33 deletions(-)

diff --git a/data/agg.go b/data/agg.go
index 9a3a1a8..653d9a7 100644
--- a/data/agg.go
+++ b/data/agg.go
@@ -33,58 +33,44 @@ func newAgg(params dist.Params, now time.Time) *agg {
 // if it used.
 func (a *agg) Observe(val float64, id []byte) {
 	a.mu.Lock()
+	defer a.mu.Unlock()
 
 	// add the value into the digest, initializing it if necessary
 	if a.dist == nil {
 		dist, err := a.params.New()
-		if err == nil {
-			a.dist = dist
-		} else {
+		if err != nil {
 			return
 		}
+		a.dist = dist
 	}
 	a.dist.Observe(val)
 
-	// keep track of min, max and obs to update them after dropping the mutex
-	// and bump observations.
-	min, max, obs := a.rec.Min, a.rec.Max, a.rec.Observations
+	// keep track of the extremes. the id is only copied if it is stored.
+	first := a.rec.Observations == 0
 	a.rec.Observations++
 
-	a.mu.Unlock()
-
-	// in the common case we don't need to bump min and max, so we do a double
-	// check pattern to avoid as much critical section as possible.
-	if obs == 0 || val < min || val > max {
-
-		// we only make the copy if there's a good chance we'll be storing it.
-		// once again, we do this outside of the mutex to avoid as much
-		// critical section as possible.
-		var id_copy []byte
-		if id != nil {
-			id_copy = append(id_copy, id...)
-		}
-
-		a.mu.Lock()
-		if obs == 0 || val < a.rec.Min {
-			a.rec.Min = val
-			a.rec.MinId = id_copy
-		}
-		if obs == 0 || val > a.rec.Max {
-			a.rec.Max = val
-			a.rec.MaxId = id_copy
-		}
-		a.mu.Unlock()
+	if first || val < a.rec.Min {
+		a.rec.Min = val
+		a.rec.MinId = append([]byte(nil), id...)
+	}
+	if first || val > a.rec.Max {
+		a.rec.Max = val
+		a.rec.MaxId = append([]byte(nil), id...)
 	}
 }
 
 // Finish returns the aggregated record, using the buf to marshal the data
-// and returning the buf. Mutating the returned buf invalidates the record.
+// and returning the buf. Mutating the returned buf invalidates the record. The
+// record has no observations if nothing was observed.
 func (a *agg) Finish(buf []byte, now time.Time) ([]byte, Record) {
 	a.mu.Lock()
-	out := a.rec
-	a.mu.Unlock()
+	defer a.mu.Unlock()
 
+	out := a.rec
 	out.EndTime = now.In(time.UTC).UnixNano()
+	if a.dist == nil {
+		return buf, out
+	}
 	out.Kind = a.dist.Kind()
 	buf = a.dist.Marshal(buf[:0])
 	out.Distribution = buf
diff --git a/data/writer.go b/data/writer.go
index 180cd4d..f16d02f 100644
--- a/data/writer.go
+++ b/data/writer.go
@@ -115,6 +115,9 @@ func (s *Writer) Capture(ctx context.Context,
 	p.m.Range(func(key, ai interface{}) (ok bool) {
 		var rec Record
 		buf, rec = ai.(*agg).Finish(buf, now)
+		if rec.Observations == 0 {
+			return true
+		}
 		return fn(ctx, key.(string), rec)
 	})
 }
@@ -138,6 +141,9 @@ func (s *Writer) Iterate(ctx context.Context,
 	p.m.Range(func(key, ai interface{}) (ok bool) {
 		var rec Record
 		buf, rec = ai.(*agg).Finish(buf, now)
+		if rec.Observations == 0 {
+			return true
+		}
 		return fn(ctx, key.(string), rec)
 	})
 }
-- 
2.43.0


From 33372a74c784845fd97cf2aa4eda39a362bbca90 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 14/34] fix: keep the ids of the first record's extremes when
 merging

---
 merge/merge.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/merge/merge.go b/merge/merge.go
index 5a0e8c9..0d66a7d 100644
--- a/merge/merge.go
+++ b/merge/merge.go
@@ -70,7 +70,8 @@ func Merge(ctx context.Context, opts MergeOptions) (
 	}
 
 	// merge the max and min values
-	out.Min, out.Max = opts.Records[0].Min, opts.Records[0].Max
+	out.Min, out.MinId = opts.Records[0].Min, opts.Records[0].MinId
+	out.Max, out.MaxId = opts.Records[0].Max, opts.Records[0].MaxId
 	for _, r := range opts.Records[1:] {
 		if r.Min < out.Min {
 			out.Min = r.Min
-- 
2.43.0


From 053389e1b32c11595ff6df9d9a5872ed07f149a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 15/34] fix: do not divide by zero when computing the
 observation rate

---
 merge/merger.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/merge/merger.go b/merge/merger.go
index e2d264d..211a6a6 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -201,7 +201,16 @@ func (m *Merger) emit(ctx context.Context, start, end int64,
 	recs := make([]data.Record, 0, len(mrecs))
 	for _, mrec := range mrecs {
 		recs = append(recs, mrec.rec)
-		obs_sec += float64(mrec.rec.Observations) / float64(mrec.rec.Merged) /
+		// back compat: if merged is 0, that means it actually is 1. a record
+		// that took no time has no rate.
+		merged := mrec.rec.Merged
+		if merged == 0 {
+			merged = 1
+		}
+		if mrec.rec.EndTime <= mrec.rec.StartTime {
+			continue
+		}
+		obs_sec += float64(mrec.rec.Observations) / float64(merged) /
 			time.Duration(mrec.rec.EndTime-mrec.rec.StartTime).Seconds()
 	}
 	obs_sec /= float64(len(mrecs))
-- 
2.43.0


From 80876d598611d59b445681f7dd44efe734206919 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 16/34] fix: drop memoized quantiles when observing a value

---
 dist/tdigest/wrapper.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index 80f4c68..7bbb1e3 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -61,8 +61,9 @@ func (Wrapper) Kind() string {
 }
 
 // Observe adds the value to the t-digest.
-func (w Wrapper) Observe(val float64) {
+func (w *Wrapper) Observe(val float64) {
 	w.td.Add(val)
+	w.cache = nil // the memoized quantiles are out of date
 }
 
 // Marshal appends a byte form of the t-digest to the provided buffer.
-- 
2.43.0


From 39b6931de873cfa93934530bb6eb115bacec6382 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 17/34] fix: report negative indexes in typeassert

---
 internal/typeassert/asserter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/typeassert/asserter.go b/internal/typeassert/asserter.go
index 439eefe..cd3a389 100644
--- a/internal/typeassert/asserter.go
+++ b/internal/typeassert/asserter.go
@@ -83,7 +83,7 @@ func (a *Asserter) N(index int) *Asserter {
 			a.x, a.path)
 		return a
 	}
-	if index >= len(m) {
+	if index < 0 || index >= len(m) {
 		*a.err = errs.New("array out of bounds")
 		return a
 	}
-- 
2.43.0


From 289036139eefa872b71f103fe5668b8b059edde9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 18/34] fix: stop signal delivery when the context is done

---
 internal/junk/signal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/junk/signal.go b/internal/junk/signal.go
index fe769e5..9cf3b55 100644
--- a/internal/junk/signal.go
+++ b/internal/junk/signal.go
@@ -19,6 +19,8 @@ func WithSignal(ctx context.Context, sigs ...os.Signal) (
 	signal.Notify(ch, sigs...)
 
 	go func() {
+		defer signal.Stop(ch)
+
 		select {
 		case <-ctx.Done():
 		case sig := <-ch:
@@ -26,7 +28,6 @@ func WithSignal(ctx context.Context, sigs ...os.Signal) (
 				"signal", sig.String(),
 			)
 			cancel()
-			signal.Stop(ch)
 		}
 	}()
 
-- 
2.43.0


From 1e50802baab098eb26fecee5886afa55d3a8195e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 19/34] fix: do not hold the registry mutex while calling
 makers

---
 registry/registry.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/registry/registry.go b/registry/registry.go
index d29ef21..dd1c9d5 100644
--- a/registry/registry.go
+++ b/registry/registry.go
@@ -37,10 +37,10 @@ func (r *Registry) RegisterListener(name string, maker ListenerMaker) {
 func (r *Registry) NewListener(ctx context.Context, name string,
 	config interface{}) (listener.Listener, error) {
 
+	// the maker is called without the mutex so that it may use the registry.
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.listeners[name]
+	r.mu.Unlock()
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
@@ -64,10 +64,10 @@ func (r *Registry) RegisterDatabase(name string, maker DatabaseMaker) {
 func (r *Registry) NewDatabase(ctx context.Context, name string,
 	config interface{}) (database.DB, error) {
 
+	// the maker is called without the mutex so that it may use the registry.
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.databases[name]
+	r.mu.Unlock()
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
@@ -92,10 +92,10 @@ func (r *Registry) RegisterDistribution(name string, maker DistributionMaker) {
 func (r *Registry) NewDistribution(ctx context.Context, name string,
 	config interface{}) (dist.Params, error) {
 
+	// the maker is called without the mutex so that it may use the registry.
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.distributions[name]
+	r.mu.Unlock()
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
-- 
2.43.0


From 07658535f47c4002431171f70dd24cb4f426b4ff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 20/34] fix: report a main.duration that is not positive
 instead of panicking

---
 config/load.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/load.go b/config/load.go
index 8c5aacc..921fc44 100644
--- a/config/load.go
+++ b/config/load.go
@@ -37,6 +37,10 @@ func Load(data []byte) (*Config, error) {
 		return nil, ParseError.Wrap(err)
 	}
 
+	if tomlConfig.Main.Duration.Duration <= 0 {
+		return nil, ParseError.New("main.duration must be positive")
+	}
+
 	if len(tomlConfig.Database) != 1 {
 		return nil, ParseError.New("exactly one database must be specified")
 	}
-- 
2.43.0


From 613a566673e9fa805638cde111c3ed0ac4d59284 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 21/34] fix: create the initial config exclusively

---
 init.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/init.go b/init.go
index 2992a9b..bbd928a 100644
--- a/init.go
+++ b/init.go
@@ -4,7 +4,6 @@ package rothko
 
 import (
 	"fmt"
-	"io/ioutil"
 	"os"
 
 	"github.com/urfave/cli"
@@ -30,10 +29,10 @@ edited, but contains useful defaults.
 			return err
 		}
 
-		_, err := os.Stat(configPath)
+		fh, err := os.OpenFile(configPath,
+			os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
 		switch {
-		case os.IsNotExist(err):
-		case err == nil:
+		case os.IsExist(err):
 			fmt.Printf("config file already exists. remove %q first\n",
 				configPath)
 			return handled.New("")
@@ -41,8 +40,10 @@ edited, but contains useful defaults.
 			return errs.Wrap(err)
 		}
 
-		err = ioutil.WriteFile(
-			configPath, []byte(config.InitialConfig), 0644)
+		_, err = fh.WriteString(config.InitialConfig)
+		if cerr := fh.Close(); err == nil {
+			err = cerr
+		}
 		if err != nil {
 			return errs.Wrap(err)
 		}
-- 
2.43.0


From 2e72412bc60d5573f45fc31514fc8b1061cfef72 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 22/34] fix: require auth when only a password is configured

---
 api/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/server.go b/api/server.go
index 29c63b1..2ab1ca3 100644
--- a/api/server.go
+++ b/api/server.go
@@ -115,7 +115,7 @@ func (s *Server) validAuth(ctx context.Context,
 func (s *Server) serveHTTP(ctx context.Context, w http.ResponseWriter,
 	req *http.Request) (err error) {
 
-	if s.opts.Username != "" {
+	if s.opts.Username != "" || s.opts.Password != "" {
 		username, password, ok := req.BasicAuth()
 		if !ok || !s.validAuth(ctx, username, password) {
 			w.Header().Set("WWW-Authenticate", `Basic realm="rothko"`)
-- 
2.43.0


From c47f3435a150e5b61e39393caab5c85f8793820a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 23/34] fix: record the status of failed requests

---
 api/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/server.go b/api/server.go
index 2ab1ca3..8d9b4bf 100644
--- a/api/server.go
+++ b/api/server.go
@@ -78,8 +78,8 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 	tracker := &respTracker{ResponseWriter: w, wrote: false, code: 0}
 	if err := s.serveHTTP(req.Context(), tracker, req); err != nil {
 		if !tracker.wrote {
-			w.WriteHeader(getStatusCode(err))
-			fmt.Fprintf(w, "%+v\n", err)
+			tracker.WriteHeader(getStatusCode(err))
+			fmt.Fprintf(tracker, "%+v\n", err)
 		}
 	}
 
-- 
2.43.0


From d7fe6e79d5f32e862e91d7db7d5e732930df4b41 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 24/34] fix: do not put columns past the end of the graph or
 divide by zero

---
 merge/merger.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/merge/merger.go b/merge/merger.go
index 211a6a6..0a4acfc 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -63,6 +63,9 @@ func NewMerger(opts MergerOptions) *Merger {
 func (m *Merger) SetWidth(width int) {
 	m.width = width
 	m.pixel_size = m.opts.Duration.Nanoseconds() / int64(width)
+	if m.pixel_size < 1 {
+		m.pixel_size = 1
+	}
 	m.completed_px = int64(width)
 }
 
@@ -73,6 +76,10 @@ func (m *Merger) timeToPixel(time int64) int64 {
 	if px < 0 {
 		px = 0
 	}
+	// a record can extend past now, but there is nowhere to put the rest.
+	if px > int64(m.width) {
+		px = int64(m.width)
+	}
 	return px
 }
 
-- 
2.43.0


From e546122d5f4bc5b6031ff22457d274d88d018677 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 25/34] fix: render metrics that have no records

---
 api/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/api/server.go b/api/server.go
index 8d9b4bf..2d317ff 100644
--- a/api/server.go
+++ b/api/server.go
@@ -223,8 +223,8 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 	if err != nil {
 		return errs.Wrap(err)
 	}
-	if !ok {
-		return errs.New("too small")
+	if measure_opts.Earliest != nil && !ok {
+		return errBadRequest.New("too small")
 	}
 
 	// grab the columns
@@ -254,7 +254,7 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 	if measure_opts.Earliest == nil {
 		measured, ok = graph.Measure(ctx, measure_opts)
 		if !ok {
-			return errs.New("too small")
+			return errBadRequest.New("too small")
 		}
 	}
 
-- 
2.43.0


From 59e92a96229917cc70dbea81472ad3876aac0ca0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 26/34] fix: reject renders and queries with unreasonable
 parameters

---
 api/server.go       | 34 ++++++++++++++++++++++++++++++++++
 draw/graph/graph.go | 10 ++++++++--
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/api/server.go b/api/server.go
index 2d317ff..038796b 100644
--- a/api/server.go
+++ b/api/server.go
@@ -27,6 +27,13 @@ import (
 	"github.com/zeebo/errs"
 )
 
+const (
+	maxPixels  = 8192  // largest width or height of a render
+	maxPadding = 1024  // largest padding around a render
+	maxSamples = 10000 // largest number of samples in a column
+	maxResults = 10000 // largest number of results for a query
+)
+
 // Options for the server.
 type Options struct {
 	// Origin is sent back in Access-Control-Allow-Origin. If not set, sends
@@ -164,6 +171,29 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 	dur := getDuration(req.FormValue("duration"), 24*time.Hour)
 	samples := getInt(req.FormValue("samples"), 30)
 	compression := getFloat64(req.FormValue("compression"), 5)
+
+	// check that they are sane before doing any work based on them
+	if width < 1 || width > maxPixels {
+		return errBadRequest.New("invalid width: %d", width)
+	}
+	if height < 1 || height > maxPixels {
+		return errBadRequest.New("invalid height: %d", height)
+	}
+	if padding < 0 || padding > maxPadding {
+		return errBadRequest.New("invalid padding: %d", padding)
+	}
+	if samples < 1 || samples > maxSamples {
+		return errBadRequest.New("invalid samples: %d", samples)
+	}
+	if !(compression >= 1 && compression <= 1000) {
+		return errBadRequest.New("invalid compression: %v", compression)
+	}
+	if now < 0 {
+		return errBadRequest.New("invalid now: %d", now)
+	}
+	if dur <= 0 || dur.Nanoseconds() > now {
+		return errBadRequest.New("invalid duration: %v", dur)
+	}
 	stop_before := now - dur.Nanoseconds()
 
 	// set up some state for the query
@@ -278,6 +308,10 @@ func (s *Server) serveQuery(ctx context.Context, w http.ResponseWriter,
 	_query := req.FormValue("query")
 	results := getInt(req.FormValue("results"), 10)
 
+	if results < 0 || results > maxResults {
+		return errBadRequest.New("invalid results: %d", results)
+	}
+
 	search := query.New(_query, results)
 	if err := s.db.Metrics(ctx, search.Add); err != nil {
 		return errs.Wrap(err)
diff --git a/draw/graph/graph.go b/draw/graph/graph.go
index 283f859..b89b8ab 100644
--- a/draw/graph/graph.go
+++ b/draw/graph/graph.go
@@ -93,7 +93,7 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// calculate the heatmap height and leave a gap for the bottom/obs axis
 	height := opts.Height - vert_guess
-	if height < 0 {
+	if height < 2 {
 		return Measured{}, false
 	}
 
@@ -157,6 +157,9 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 	// for the left and right axis
 	heatmapWidth := opts.Width -
 		(left.Width + keyPadding + keyWidth + right.Width)
+	if heatmapWidth < 1 {
+		return Measured{}, false
+	}
 
 	obs := observations.Measure(ctx, observations.Options{
 		Face:   iosevka.Iosevka,
@@ -169,7 +172,10 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// determine the "natural" duration unit for 100 px. this is going to
 	// be the largest "natural" unit smaller than the chunk.
-	chunk := opts.Duration / time.Duration(opts.Width/100)
+	chunk := opts.Duration
+	if opts.Width >= 200 {
+		chunk /= time.Duration(opts.Width / 100)
+	}
 	natural := naturalUnits[0]
 	for _, unit := range naturalUnits[1:] {
 		if unit < chunk {
-- 
2.43.0


From 7317956e475e3020d78e13ad07102ce95419fd04 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 27/34] fix: follow the Readdir contract in tgzfs

---
 internal/tgzfs/file.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/tgzfs/file.go b/internal/tgzfs/file.go
index e3d3be4..3360511 100644
--- a/internal/tgzfs/file.go
+++ b/internal/tgzfs/file.go
@@ -64,14 +64,16 @@ func (h *fileHandle) Read(p []byte) (int, error) {
 
 // Readdir reads up to count entries from the listing and returns them.
 func (h *fileHandle) Readdir(count int) (entries []os.FileInfo, err error) {
-	if len(h.listing) == 0 {
+	if count <= 0 {
+		count = len(h.listing)
+	} else if len(h.listing) == 0 {
 		return nil, io.EOF
 	}
 	if len(h.listing) < count {
 		count = len(h.listing)
 	}
-	listing := h.listing[:count]
-	h.listing = h.listing[:len(h.listing)-len(listing)]
+	listing := h.listing[:count:count]
+	h.listing = h.listing[count:]
 	return listing, nil
 }
 
-- 
2.43.0


From 9d52e604f7fa6b8fbcb4703979622f09c333367f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 28/34] fix: do not deadlock the demo when the database
 completes synchronously

---
 demo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo.go b/demo.go
index c1ddc16..7a90629 100644
--- a/demo.go
+++ b/demo.go
@@ -145,7 +145,7 @@ func addDemoData(ctx context.Context, params dist.Params, db database.DB) (
 		observations = 300            // number of observations per record
 	)
 
-	errors := make(chan error)
+	errors := make(chan error, 1)
 	now := time.Now()
 	start := now.Add(-duration)
 	tdelta := now.Sub(start) / records
-- 
2.43.0


From 83644da656ccf6c9d642a751590014b6e779eda4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 29/34] fix: give implied directories in tgzfs a file info

---
 internal/tgzfs/fs.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/tgzfs/fs.go b/internal/tgzfs/fs.go
index b7b3267..9b81b3c 100644
--- a/internal/tgzfs/fs.go
+++ b/internal/tgzfs/fs.go
@@ -30,6 +30,15 @@ func (r rootFileInfo) ModTime() time.Time { return rootMtime }
 func (r rootFileInfo) IsDir() bool        { return true }
 func (r rootFileInfo) Sys() interface{}   { return nil }
 
+// dirFileInfo is a fake file info for a directory that is only known from the
+// names of the entries below it.
+type dirFileInfo struct {
+	rootFileInfo
+	name string
+}
+
+func (d dirFileInfo) Name() string { return d.name }
+
 // FS is an http.FileServer for a tarball.
 type FS struct {
 	root *file
@@ -96,6 +105,7 @@ func (fs *FS) getFile(path string, alloc bool) *file {
 				return fs.def
 			}
 			child = newFile()
+			child.setFileInfo(dirFileInfo{name: part})
 			children[part] = child
 		}
 	}
-- 
2.43.0


From 48c3c3d526e37b743deaa86a1bf01328c636a6bb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:20 +0000
Subject: [PATCH 30/34] fix: refuse compression that no distribution can be
 made with

---
 dist/tdigest/register.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dist/tdigest/register.go b/dist/tdigest/register.go
index 25d823b..9a13bd0 100644
--- a/dist/tdigest/register.go
+++ b/dist/tdigest/register.go
@@ -8,8 +8,12 @@ import (
 	"github.com/vivint/rothko/dist"
 	"github.com/vivint/rothko/internal/typeassert"
 	"github.com/vivint/rothko/registry"
+	"github.com/zeebo/errs"
 )
 
+// maxCompression is the largest compression that can be configured.
+const maxCompression = 1 << 16
+
 func init() {
 	registry.RegisterDistribution("tdigest", registry.DistributionMakerFunc(
 		func(ctx context.Context, config interface{}) (dist.Params, error) {
@@ -25,6 +29,13 @@ func init() {
 				return nil, err
 			}
 
+			// the compression determines how much memory each distribution
+			// sets aside.
+			if !(params.Compression > 0 && params.Compression <= maxCompression) {
+				return nil, errs.New("compression out of range: %v",
+					params.Compression)
+			}
+
 			return params, nil
 		}))
 }
-- 
2.43.0


From 1ec25e915382c944bc627b7f1664c8de05fed8f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:23 +0000
Subject: [PATCH 31/34] fix: bound the handles that are cached by default

---
 database/files/db.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/database/files/db.go b/database/files/db.go
index 546e851..caa4c85 100644
--- a/database/files/db.go
+++ b/database/files/db.go
@@ -112,6 +112,9 @@ type queuedValue struct {
 	done   func(bool, error)
 }
 
+// maxHandles bounds the number of handles used by default.
+const maxHandles = 1 << 20
+
 // New constructs a database with directory rooted at dir and the provided
 // options.
 func New(dir string, opts Options) *DB {
@@ -133,6 +136,11 @@ func New(dir string, opts Options) *DB {
 				opts.Tuning.Handles = int(lim.Cur) - 512
 			}
 		}
+
+		// the cache is allocated up front, and the limit can be huge
+		if opts.Tuning.Handles > maxHandles {
+			opts.Tuning.Handles = maxHandles
+		}
 	}
 	if opts.Tuning.Handles < 0 {
 		opts.Tuning.Handles = 0
-- 
2.43.0


From 106b5a61a7d4548cf26fcd749a8a62a83cceffa6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 32/34] fix: refuse settings that would exhaust memory

---
 database/files/register.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/database/files/register.go b/database/files/register.go
index 0ca701b..c097d6a 100644
--- a/database/files/register.go
+++ b/database/files/register.go
@@ -10,6 +10,9 @@ import (
 	"github.com/vivint/rothko/registry"
 )
 
+// maxSetting bounds the settings that determine how much memory is used.
+const maxSetting = 1 << 20
+
 func init() {
 	registry.RegisterDatabase("files", registry.DatabaseMakerFunc(
 		func(ctx context.Context, config interface{}) (database.DB, error) {
@@ -34,6 +37,14 @@ func init() {
 				return nil, Error.New("size and cap must be positive")
 			}
 
+			// each of these determines how much memory is set aside.
+			if opts.Size > maxSetting ||
+				opts.Tuning.Buffer > maxSetting ||
+				opts.Tuning.Handles > maxSetting ||
+				opts.Tuning.Workers > maxSetting {
+				return nil, Error.New("size or tuning too large")
+			}
+
 			return New(dir, opts), nil
 		}))
 }
-- 
2.43.0


From 7a1c5ca90b5158c104e27957ec5481a8855b841d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:33 +0000
Subject: [PATCH 33/34] fix: close the file when its template cannot be
 executed

---
 internal/tmplfs/fs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tmplfs/fs.go b/internal/tmplfs/fs.go
index da37a27..b688909 100644
--- a/internal/tmplfs/fs.go
+++ b/internal/tmplfs/fs.go
@@ -39,8 +39,8 @@ type wrapper struct {
 }
 
 // Open implements http.FileSystem and processes any html files as a template.
-func (w *wrapper) Open(name string) (f http.File, err error) {
-	f, err = w.fs.Open(name)
+func (w *wrapper) Open(name string) (_ http.File, err error) {
+	f, err := w.fs.Open(name)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 097c655cc9ab86350d48ba33264b1fa042e21d8d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:45 +0000
Subject: [PATCH 34/34] fix: render the default page as a template for names
 that are not in the bundle

---
 internal/tmplfs/fs.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/tmplfs/fs.go b/internal/tmplfs/fs.go
index b688909..fa3e29e 100644
--- a/internal/tmplfs/fs.go
+++ b/internal/tmplfs/fs.go
@@ -45,10 +45,6 @@ func (w *wrapper) Open(name string) (_ http.File, err error) {
 		return nil, err
 	}
 
-	if !strings.HasSuffix(name, ".html") {
-		return f, nil
-	}
-
 	// close only if we have any errors
 	defer func() {
 		if err != nil {
@@ -56,6 +52,17 @@ func (w *wrapper) Open(name string) (_ http.File, err error) {
 		}
 	}()
 
+	// the name of the opened file decides if it is html: the file system may
+	// provide a default file for names it does not have.
+	info, err := f.Stat()
+	if err != nil {
+		return nil, err
+	}
+
+	if !strings.HasSuffix(info.Name(), ".html") {
+		return f, nil
+	}
+
 	// TODO(jeff): caching of the parsed template?
 
 	data, err := ioutil.ReadAll(f)
-- 
2.43.0

