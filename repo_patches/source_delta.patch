From 4c8ca795ef5f2aa5f81128726d1f3a319393edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:54 +0000
Subject: [PATCH 01/38] fix: MultiGet panicked on any non-empty key list

---
 store/multiget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/multiget.go b/store/multiget.go
index 635bcd4..b2ad0a3 100644
--- a/store/multiget.go
+++ b/store/multiget.go
@@ -18,7 +18,7 @@ package store
 // KVReader, and might be used by KVStore implementations that don't
 // have a native multi-get facility.
 func MultiGet(kvreader KVReader, keys [][]byte) ([][]byte, error) {
-	vals := make([][]byte, 0, len(keys))
+	vals := make([][]byte, len(keys))
 
 	for i, key := range keys {
 		val, err := kvreader.Get(key)
-- 
2.43.0


From dc04cd8b96b79bc3002813b4f2fe2e8e5ff6e99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:22 +0000
Subject: [PATCH 02/38] fix: badger Get reported empty values and read errors
 as absent keys

---
 store/badger/reader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/store/badger/reader.go b/store/badger/reader.go
index e90fd76..f00b089 100644
--- a/store/badger/reader.go
+++ b/store/badger/reader.go
@@ -15,10 +15,13 @@ type Reader struct {
 // Get fetch the value of the specified key from the store
 func (r *Reader) Get(k []byte) ([]byte, error) {
 	item, err := r.txn.Get(k)
-	if err != nil {
+	if err == badger.ErrKeyNotFound || err == badger.ErrEmptyKey {
 		return nil, nil
 	}
-	return item.ValueCopy(nil)
+	if err != nil {
+		return nil, err
+	}
+	return item.ValueCopy([]byte{})
 }
 
 // MultiGet returns multiple values for the specified keys
-- 
2.43.0


From 165bfea4c985d1d75aa822013a9c1fc5e206ed4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 03/38] fix: badger iterators panicked on Next past the last
 key

---
 store/badger/prefix_iterator.go | 4 +++-
 store/badger/range_iterator.go  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/store/badger/prefix_iterator.go b/store/badger/prefix_iterator.go
index cbd2f61..7b709fd 100644
--- a/store/badger/prefix_iterator.go
+++ b/store/badger/prefix_iterator.go
@@ -23,7 +23,9 @@ func (i *PrefixIterator) Seek(key []byte) {
 
 // Next advance the iterator to the next step
 func (i *PrefixIterator) Next() {
-	i.iterator.Next()
+	if i.iterator.Valid() {
+		i.iterator.Next()
+	}
 }
 
 // Current returns the key & value of the current step
diff --git a/store/badger/range_iterator.go b/store/badger/range_iterator.go
index c3eb153..69ba3d2 100644
--- a/store/badger/range_iterator.go
+++ b/store/badger/range_iterator.go
@@ -24,7 +24,9 @@ func (i *RangeIterator) Seek(key []byte) {
 
 // Next advance the iterator to the next step
 func (i *RangeIterator) Next() {
-	i.iterator.Next()
+	if i.iterator.Valid() {
+		i.iterator.Next()
+	}
 }
 
 // Current returns the key & value of the current step
-- 
2.43.0


From 58fe2635653c3a1aaa01cd03608f040e6f97fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:24 +0000
Subject: [PATCH 04/38] fix: badger committed failed batches, ignored commit
 errors and merged absent keys as empty values

---
 store/badger/writer.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/store/badger/writer.go b/store/badger/writer.go
index 8a36173..d7908b9 100644
--- a/store/badger/writer.go
+++ b/store/badger/writer.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 
 	"github.com/akhenakh/oureadb/store"
+	"github.com/dgraph-io/badger"
 )
 
 // Writer bleve.search/store/Writer implementation
@@ -31,16 +32,25 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 
 	txn := w.s.db.NewTransaction(true)
 
+	// commit only if everything went well, the caller should see
+	// the error of the commit
 	defer (func() {
-		txn.Commit()
+		if err != nil {
+			txn.Discard()
+			return
+		}
+		err = txn.Commit()
 	})()
 
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
 		item, err := txn.Get(kb)
-		existingVal := []byte{}
+		var existingVal []byte
 		if err == nil {
-			existingVal, _ = item.ValueCopy(nil)
+			existingVal, err = item.ValueCopy([]byte{})
+		}
+		if err != nil && err != badger.ErrKeyNotFound {
+			return err
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
-- 
2.43.0


From 311e9875bc8d34b57947b32df0ad9d0c9e3b6e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 05/38] fix: gtreap kept its lock and part of the batch when a
 merge failed

---
 store/gtreap/writer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/store/gtreap/writer.go b/store/gtreap/writer.go
index 022fec5..48fa676 100644
--- a/store/gtreap/writer.go
+++ b/store/gtreap/writer.go
@@ -44,6 +44,10 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 	}
 
 	w.s.m.Lock()
+	defer w.s.m.Unlock()
+
+	// restored if the batch fails
+	prev := w.s.t
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
 		var existingVal []byte
@@ -53,6 +57,7 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
+			w.s.t = prev
 			return fmt.Errorf("merge operator returned failure")
 		}
 		w.s.t = w.s.t.Upsert(&Item{k: kb, v: mergedVal}, rand.Int())
@@ -65,8 +70,6 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 			w.s.t = w.s.t.Delete(&Item{k: op.K})
 		}
 	}
-	w.s.m.Unlock()
-
 	return nil
 }
 
-- 
2.43.0


From 9475de86e875c0da25ff4a8c71a569eb5bb47ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 06/38] fix: batches retained the caller's merge operand

---
 store/batch.go           | 2 +-
 store/goleveldb/batch.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/store/batch.go b/store/batch.go
index 7110526..9b1fc4c 100644
--- a/store/batch.go
+++ b/store/batch.go
@@ -50,7 +50,7 @@ func (b *EmulatedBatch) Merge(key, val []byte) {
 	copy(ck, key)
 	cv := make([]byte, len(val))
 	copy(cv, val)
-	b.Merger.Merge(key, val)
+	b.Merger.Merge(ck, cv)
 }
 
 func (b *EmulatedBatch) Reset() {
diff --git a/store/goleveldb/batch.go b/store/goleveldb/batch.go
index b2221cb..4458b1c 100644
--- a/store/goleveldb/batch.go
+++ b/store/goleveldb/batch.go
@@ -34,7 +34,9 @@ func (b *Batch) Delete(key []byte) {
 }
 
 func (b *Batch) Merge(key, val []byte) {
-	b.merge.Merge(key, val)
+	cv := make([]byte, len(val))
+	copy(cv, val)
+	b.merge.Merge(key, cv)
 }
 
 func (b *Batch) Reset() {
-- 
2.43.0


From d52b44ad3a7d875ce0ee01f09ca7ae0ee561784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 07/38] fix: EmulatedBatch.Reset kept the pending merges

---
 store/batch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store/batch.go b/store/batch.go
index 9b1fc4c..f9f66a7 100644
--- a/store/batch.go
+++ b/store/batch.go
@@ -55,6 +55,7 @@ func (b *EmulatedBatch) Merge(key, val []byte) {
 
 func (b *EmulatedBatch) Reset() {
 	b.Ops = b.Ops[:0]
+	b.Merger = NewEmulatedMerge(b.Merger.mo)
 }
 
 func (b *EmulatedBatch) Close() error {
-- 
2.43.0


From 3c632bb9315a5dbe614a106e43a40efacaffcae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 08/38] fix: boltdb iterator came back to life on Next after
 seeking beyond its prefix

---
 store/boltdb/iterator.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/store/boltdb/iterator.go b/store/boltdb/iterator.go
index 82ab946..ba4fee8 100644
--- a/store/boltdb/iterator.go
+++ b/store/boltdb/iterator.go
@@ -50,9 +50,6 @@ func (i *Iterator) Seek(k []byte) {
 	if i.prefix != nil && !bytes.HasPrefix(k, i.prefix) {
 		if bytes.Compare(k, i.prefix) < 0 {
 			k = i.prefix
-		} else {
-			i.valid = false
-			return
 		}
 	}
 	i.key, i.val = i.cursor.Seek(k)
-- 
2.43.0


From 51bb73ee45114a0cf5530adc687e0670a3421547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 09/38] fix: goleveldb merges lost concurrent updates

---
 store/goleveldb/store.go  | 4 ++++
 store/goleveldb/writer.go | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index f971b97..3af323b 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"fmt"
 	"os"
+	"sync"
 
 	"github.com/akhenakh/oureadb/store"
 	"github.com/syndtr/goleveldb/leveldb"
@@ -36,6 +37,9 @@ type Store struct {
 	db   *leveldb.DB
 	mo   store.MergeOperator
 
+	// m makes the read-modify-write of the merges atomic
+	m sync.RWMutex
+
 	defaultWriteOptions *opt.WriteOptions
 	defaultReadOptions  *opt.ReadOptions
 }
diff --git a/store/goleveldb/writer.go b/store/goleveldb/writer.go
index 701f86b..f51cdb4 100644
--- a/store/goleveldb/writer.go
+++ b/store/goleveldb/writer.go
@@ -44,6 +44,15 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 		return fmt.Errorf("wrong type of batch")
 	}
 
+	// a batch with merges excludes every other batch
+	if len(batch.merge.Merges) > 0 {
+		w.store.m.Lock()
+		defer w.store.m.Unlock()
+	} else {
+		w.store.m.RLock()
+		defer w.store.m.RUnlock()
+	}
+
 	// first process merges
 	for k, mergeOps := range batch.merge.Merges {
 		kb := []byte(k)
-- 
2.43.0


From 3fd642eadf25e2248079cf46fb894d07ccc17f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 10/38] fix: goleveldb Reader ignored the snapshot error

---
 store/goleveldb/store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index 3af323b..eccd4d1 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -81,7 +81,10 @@ func (ldbs *Store) Close() error {
 }
 
 func (ldbs *Store) Reader() (store.KVReader, error) {
-	snapshot, _ := ldbs.db.GetSnapshot()
+	snapshot, err := ldbs.db.GetSnapshot()
+	if err != nil {
+		return nil, err
+	}
 	return &Reader{
 		store:    ldbs,
 		snapshot: snapshot,
-- 
2.43.0


From 41303ac2237804f5ad145a981515e62029c51b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 11/38] fix: goleveldb compaction with a batch size of zero
 stopped at the first kept row

---
 store/goleveldb/store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/store/goleveldb/store.go b/store/goleveldb/store.go
index eccd4d1..69fb764 100644
--- a/store/goleveldb/store.go
+++ b/store/goleveldb/store.go
@@ -113,9 +113,9 @@ func (ldbs *Store) CompactWithBatchSize(batchSize int) error {
 			if bytes.Equal(iter.Value(), []byte{0}) {
 				k := append([]byte{}, iter.Key()...)
 				batch.Delete(k)
-			}
-			if batch.Len() == batchSize {
-				break
+				if batch.Len() == batchSize {
+					break
+				}
 			}
 		}
 		iter.Release()
-- 
2.43.0


From 02b4faf84898baf24979ab9768d91e798dccbd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 12/38] fix: boltdb kept the file locked when the bucket could
 not be created

---
 store/boltdb/store.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/store/boltdb/store.go b/store/boltdb/store.go
index 87cd9d8..8b6ab3f 100644
--- a/store/boltdb/store.go
+++ b/store/boltdb/store.go
@@ -86,6 +86,7 @@ func New(mo store.MergeOperator, config map[string]interface{}) (store.KVStore,
 			return err
 		})
 		if err != nil {
+			db.Close()
 			return nil, err
 		}
 	}
-- 
2.43.0


From d4d93ec7fa7a19e0fee2e0d76fe43e6560c82225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:06 +0000
Subject: [PATCH 13/38] fix: boltdb read-only reader panicked on a missing
 bucket

---
 store/boltdb/store.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/store/boltdb/store.go b/store/boltdb/store.go
index 8b6ab3f..45f2bf0 100644
--- a/store/boltdb/store.go
+++ b/store/boltdb/store.go
@@ -111,10 +111,16 @@ func (bs *Store) Reader() (store.KVReader, error) {
 	if err != nil {
 		return nil, err
 	}
+	bucket := tx.Bucket([]byte(bs.bucket))
+	if bucket == nil {
+		// only possible on a read-only store
+		_ = tx.Rollback()
+		return nil, fmt.Errorf("bucket %s not found", bs.bucket)
+	}
 	return &Reader{
 		store:  bs,
 		tx:     tx,
-		bucket: tx.Bucket([]byte(bs.bucket)),
+		bucket: bucket,
 	}, nil
 }
 
-- 
2.43.0


From a35c24dbbb81ee1c66948115cf1406ea942c6fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:33 +0000
Subject: [PATCH 14/38] fix: index queries returned ids aliasing the iterator's
 buffer

---
 index/s2idx.go      | 2 ++
 index/s2pointidx.go | 2 ++
 index/s2timeidx.go  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/index/s2idx.go b/index/s2idx.go
index 5ccc696..3a790f8 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -92,6 +92,8 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 		if !ok {
 			break
 		}
+		// the key is only valid until the next iteration
+		kid = append([]byte(nil), kid...)
 		_, id, err := idx.keyToValues(kid)
 		if err != nil {
 			return nil, errors.Wrap(err, "read back failed key from db")
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 6ebac0b..06c992c 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -104,6 +104,8 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 		if !ok {
 			break
 		}
+		// the key is only valid until the next iteration
+		kid = append([]byte(nil), kid...)
 		_, id, err := idx.keyToValues(kid)
 		if err != nil {
 			return nil, errors.Wrap(err, "read back failed key from db")
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 512b1b3..6b12533 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -136,6 +136,8 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.
 		if !ok {
 			break
 		}
+		// the key is only valid until the next iteration
+		kid = append([]byte(nil), kid...)
 		_, _, id, err := idx.keyToValues(kid)
 		if err != nil {
 			return nil, errors.Wrap(err, "read back failed key from db")
-- 
2.43.0


From 39dccdd716ef9f17da06616bdca877865781e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:34 +0000
Subject: [PATCH 15/38] fix: point index queries missed the last leaf of a cell

---
 index/s2pointidx.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 06c992c..4680ae9 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -87,7 +87,7 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	start = append(start, itob(uint64(c.RangeMin()))...)
 	stop := make([]byte, len(idx.prefix))
 	copy(stop, idx.prefix)
-	stop = append(stop, itob(uint64(c.RangeMax()))...)
+	stop = append(stop, itob(uint64(c.RangeMax())+1)...)
 
 	var res []GeoID
 
@@ -164,7 +164,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 		start = append(start, itob(uint64(coverCell.RangeMin()))...)
 		stop := make([]byte, len(idx.prefix))
 		copy(stop, idx.prefix)
-		stop = append(stop, itob(uint64(coverCell.RangeMax()))...)
+		stop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)
 
 		// iterate entries with cell's prefix
 		iter := kv.RangeIterator(start, stop)
@@ -216,7 +216,7 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 		start = append(start, itob(uint64(coverCell.RangeMin()))...)
 		stop := make([]byte, len(idx.prefix))
 		copy(stop, idx.prefix)
-		stop = append(stop, itob(uint64(coverCell.RangeMax()))...)
+		stop = append(stop, itob(uint64(coverCell.RangeMax())+1)...)
 
 		// iterate entries with cell's prefix
 		iter := kv.RangeIterator(start, stop)
-- 
2.43.0


From 72c626a8f026958b21bab6a08f150d7dfc1e8e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 16/38] fix: rect queries wider than half the globe covered the
 other side

---
 index/s2pointidx.go | 4 ++++
 index/s2timeidx.go  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 4680ae9..5ec34f5 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -3,9 +3,11 @@ package index
 import (
 	"bytes"
 	"encoding/binary"
+	"math"
 
 	"github.com/akhenakh/oureadb/index/geodata"
 	"github.com/akhenakh/oureadb/store"
+	"github.com/golang/geo/s1"
 	"github.com/golang/geo/s2"
 	"github.com/pkg/errors"
 )
@@ -198,6 +200,8 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]GeoID, error) {
 	rect := s2.RectFromLatLng(s2.LatLngFromDegrees(bllat, bllng))
 	rect = rect.AddPoint(s2.LatLngFromDegrees(urlat, urlng))
+	// AddPoint goes the shortest way round, the rect goes east from left to right
+	rect.Lng = s1.IntervalFromEndpoints(bllng*math.Pi/180, urlng*math.Pi/180)
 	coverer := &s2.RegionCoverer{MaxLevel: 14, MaxCells: 8}
 	cu := coverer.Covering(rect)
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 6b12533..95ab700 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/akhenakh/oureadb/index/geodata"
 	"github.com/akhenakh/oureadb/store"
+	"github.com/golang/geo/s1"
 	"github.com/golang/geo/s2"
 	"github.com/pkg/errors"
 )
@@ -84,6 +85,8 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsRadiusQuery(from time.Time, to time.Time, la
 func (idx *S2FlatTimeIdx) GeoTimeIdsRectQuery(from time.Time, to time.Time, urlat, urlng, bllat, bllng float64) ([]GeoID, error) {
 	rect := s2.RectFromLatLng(s2.LatLngFromDegrees(bllat, bllng))
 	rect = rect.AddPoint(s2.LatLngFromDegrees(urlat, urlng))
+	// AddPoint goes the shortest way round, the rect goes east from left to right
+	rect.Lng = s1.IntervalFromEndpoints(bllng*math.Pi/180, urlng*math.Pi/180)
 	coverer := &s2.RegionCoverer{MinLevel: idx.level, MaxLevel: idx.level}
 	cu := coverer.Covering(rect)
 	return idx.GeoTimeIdsAtCells(cu, from, to)
-- 
2.43.0


From 73fa357e1466d6eaa59410d1a6f4f7b888ea6b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 17/38] fix: radius queries used the area of a flat disk,
 returning points far outside

---
 index/tools.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/index/tools.go b/index/tools.go
index a47c087..6048dc8 100644
--- a/index/tools.go
+++ b/index/tools.go
@@ -33,5 +33,7 @@ func int64tob(v int64) []byte {
 
 func s2RadialAreaMeters(radius float64) float64 {
 	r := (radius / earthCircumferenceMeter) * math.Pi * 2
-	return math.Pi * r * r
+	// area of the spherical cap of angular radius r
+	s := math.Sin(math.Min(r, math.Pi) / 2)
+	return 4 * math.Pi * s * s
 }
-- 
2.43.0


From d77eaee8207999409da97a0b12745796e8fe80c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:36 +0000
Subject: [PATCH 18/38] fix: index queries panicked when no reader could be
 obtained

---
 index/s2idx.go      | 2 +-
 index/s2pointidx.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index 3a790f8..3fb9b79 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -79,10 +79,10 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	var res []GeoID
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.PrefixIterator(k)
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 5ec34f5..9bd9cfc 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -152,10 +152,10 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 	cu := coverer.Covering(cap)
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	var res []GeoID
 
@@ -208,10 +208,10 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 	var res []GeoID
 
 	kv, err := idx.Reader()
-	defer kv.Close()
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// we range over cover to lookup for points (cell l30) and filter them in place
 	for _, coverCell := range cu {
-- 
2.43.0


From 97ace388843075bfb789b962ffa408f375f93cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 19/38] fix: index queries leaked readers and iterators

---
 index/s2pointidx.go | 3 +++
 index/s2timeidx.go  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 9bd9cfc..c3afa64 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -97,6 +97,7 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(start, stop)
@@ -181,6 +182,7 @@ func (idx *S2PointIdx) GeoIdsRadiusQuery(lat, lng, radius float64) ([]GeoID, err
 
 			c, id, err := idx.keyToValues(kid)
 			if err != nil {
+				iter.Close()
 				return nil, errors.Wrap(err, "read back failed key from db")
 			}
 
@@ -233,6 +235,7 @@ func (idx *S2PointIdx) GeoIdsRectQuery(urlat, urlng, bllat, bllng float64) ([]Ge
 
 			c, id, err := idx.keyToValues(kid)
 			if err != nil {
+				iter.Close()
 				return nil, errors.Wrap(err, "read back failed key from db")
 			}
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 95ab700..a66131a 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -131,9 +131,11 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.
 	if err != nil {
 		return nil, err
 	}
+	defer kv.Close()
 
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(startKey, stopKey)
+	defer iter.Close()
 	for {
 		kid, _, ok := iter.Current()
 		if !ok {
-- 
2.43.0


From 8176e498a229eb3cf86bdc99e6b9a85004413c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:37 +0000
Subject: [PATCH 20/38] fix: an empty id was stored as an entry no query can
 read back

---
 index/s2idx.go      | 4 ++++
 index/s2pointidx.go | 4 ++++
 index/s2timeidx.go  | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/index/s2idx.go b/index/s2idx.go
index 3fb9b79..d6e40f0 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -34,6 +34,10 @@ func NewS2FlatIdx(s store.KVStore, prefix []byte, level int) *S2FlatIdx {
 // it's not storing GeoData itself but only the geo index of the cover
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2FlatIdx) GeoIndex(gd *geodata.GeoData, id GeoID) error {
+	if len(id) == 0 {
+		return errors.New("empty id")
+	}
+
 	cu, err := idx.Covering(gd)
 	if err != nil {
 		return errors.Wrap(err, "generating cover failed")
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index c3afa64..7286f17 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -32,6 +32,10 @@ func NewS2PointIdx(s store.KVStore, prefix []byte) *S2PointIdx {
 // it's not storing GeoData itself but only the geo cell l30 of the point
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2PointIdx) PointIndex(lat, lng float64, id GeoID) ([]byte, error) {
+	if len(id) == 0 {
+		return nil, errors.New("empty id")
+	}
+
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
 		return nil, err
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index a66131a..ecf36ee 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -40,6 +40,10 @@ func NewS2FlatTimeIdx(s store.KVStore, prefix []byte, level int) *S2FlatTimeIdx
 // could be a user position or an effect zone
 // t is the time when the event end (can be in the future)
 func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoID) error {
+	if len(id) == 0 {
+		return errors.New("empty id")
+	}
+
 	cu, err := idx.Covering(gd)
 	if err != nil {
 		return errors.Wrap(err, "generating cover failed")
-- 
2.43.0


From 2df589273b1218e59bbbea444c9a227567d1227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 21/38] fix: the time index accepted geometries without any
 cover

---
 index/s2timeidx.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index ecf36ee..96f41db 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -49,6 +49,11 @@ func (idx *S2FlatTimeIdx) GeoTimeIndex(gd *geodata.GeoData, t time.Time, id GeoI
 		return errors.Wrap(err, "generating cover failed")
 	}
 
+	// no cover for this geo object this is probably an error
+	if len(cu) == 0 {
+		return errors.New("geo object can't be indexed, empty cover")
+	}
+
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
 		return err
-- 
2.43.0


From 38a76bb474074b9c36a8222560977317465cb72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 22/38] fix: concave polygons were covered inside out and
 covering corrupted the caller's coordinates

---
 index/geodata/loop.go  | 13 +++++++------
 index/geodata/tools.go |  9 ---------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index 5806590..462b983 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -19,7 +19,13 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 		points[i/2] = s2.PointFromLatLng(s2.LatLngFromDegrees(c[i+1], c[i]))
 	}
 
-	if checkCCW && s2.RobustSign(points[0], points[1], points[2]) != s2.CounterClockwise {
+	if points[0] == points[len(points)-1] {
+		// remove last item if same as 1st
+		points = append(points[:len(points)-1], points[len(points)-1+1:]...)
+	}
+
+	// the first vertices of a concave ring do not tell its orientation
+	if checkCCW && !s2.LoopFromPoints(points).IsNormalized() {
 		// reversing the slice
 		for i := len(points)/2 - 1; i >= 0; i-- {
 			opp := len(points) - 1 - i
@@ -27,11 +33,6 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 		}
 	}
 
-	if points[0] == points[len(points)-1] {
-		// remove last item if same as 1st
-		points = append(points[:len(points)-1], points[len(points)-1+1:]...)
-	}
-
 	loop := s2.LoopFromPoints(points)
 	return loop
 }
diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 3af1031..5e77d98 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -217,15 +217,6 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 		return nil, errors.New("invalid polygons")
 	}
 
-	// super hacky try reverse if ContainsOrigin
-	if l.ContainsOrigin() {
-		// reversing the slice
-		for i := len(c)/2 - 1; i >= 0; i-- {
-			opp := len(c) - 1 - i
-			c[i], c[opp] = c[opp], c[i]
-		}
-	}
-
 	if interior {
 		return coverer.InteriorCovering(l), nil
 	}
-- 
2.43.0


From 1699fc2f71bb478c4f0d97d93949dec632a165c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 23/38] fix: covers of lines contained cells above the minimum
 level

---
 index/geodata/tools.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 5e77d98..265ffe6 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -174,9 +174,9 @@ func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool
 
 		var cupl s2.CellUnion
 		if interior {
-			cupl = coverer.InteriorCellUnion(&pl)
+			cupl = coverer.InteriorCovering(&pl)
 		} else {
-			cupl = coverer.CellUnion(&pl)
+			cupl = coverer.Covering(&pl)
 		}
 		cu = append(cu, cupl...)
 
-- 
2.43.0


From 316dfecce16f0716d38fbf86646c4ae400fa49ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:39 +0000
Subject: [PATCH 24/38] fix: the bounding rectangle of a clockwise polygon was
 that of its complement

---
 index/geodata/tools.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 265ffe6..c775053 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -106,7 +106,7 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 		return s2.Rect{}, errors.New("point can't be rect bounded")
 
 	case Geometry_POLYGON:
-		l := LoopFromCoordinates(gd.Geometry.Coordinates)
+		l := LoopFromCoordinatesAndCCW(gd.Geometry.Coordinates, true)
 		if l.IsEmpty() || l.IsFull() || l.ContainsOrigin() {
 			return s2.Rect{}, errors.New("invalid polygon")
 		}
-- 
2.43.0


From 888937e290f6dc5db97b7c0c046f782f4e8304f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 25/38] fix: altitudes and inner rings were mixed into the
 coordinates of the outer ring

---
 index/geodata/tools.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index c775053..8cb10eb 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -16,7 +16,7 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 
 	switch g := g.(type) {
 	case *geom.Point:
-		geo.Coordinates = g.Coords()
+		geo.Coordinates = xyCoords(g.FlatCoords(), g.Stride())
 		geo.Type = Geometry_POINT
 		//case *geom.MultiPolygon:
 		//	geo.Type = geodata.Geometry_MULTIPOLYGON
@@ -24,11 +24,14 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 	case *geom.Polygon:
 		// only supports outer ring
 		geo.Type = Geometry_POLYGON
-		geo.Coordinates = g.FlatCoords()
+		if g.NumLinearRings() == 0 {
+			return errors.New("empty polygon")
+		}
+		geo.Coordinates = xyCoords(g.LinearRing(0).FlatCoords(), g.Stride())
 
 	case *geom.LineString:
 		geo.Type = Geometry_LINESTRING
-		geo.Coordinates = g.FlatCoords()
+		geo.Coordinates = xyCoords(g.FlatCoords(), g.Stride())
 
 	default:
 		return errors.Errorf("unsupported geo type %T", g)
@@ -38,6 +41,18 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 	return nil
 }
 
+// xyCoords returns the lng lat pairs of flat coordinates having stride values per position
+func xyCoords(flat []float64, stride int) []float64 {
+	if stride <= 2 {
+		return flat
+	}
+	res := make([]float64, 0, len(flat)/stride*2)
+	for i := 0; i+1 < len(flat); i += stride {
+		res = append(res, flat[i], flat[i+1])
+	}
+	return res
+}
+
 // GeoDataToGeom converts GeoData to a geom.T representation
 func GeoDataToGeom(gd *GeoData) (geom.T, error) {
 	switch gd.Geometry.Type {
-- 
2.43.0


From 9dd30f07c4a06ac8ef2feb9df9d2350f1fa27843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 26/38] fix: malformed geometries panicked or were silently
 accepted

---
 index/geodata/loop.go  |  8 ++++++
 index/geodata/tools.go | 58 +++++++++++++++++++++++++++++++++++++++---
 index/s2pointidx.go    |  4 +--
 3 files changed, 64 insertions(+), 6 deletions(-)

diff --git a/index/geodata/loop.go b/index/geodata/loop.go
index 462b983..c70ab68 100644
--- a/index/geodata/loop.go
+++ b/index/geodata/loop.go
@@ -24,6 +24,14 @@ func LoopFromCoordinatesAndCCW(c []float64, checkCCW bool) *s2.Loop {
 		points = append(points[:len(points)-1], points[len(points)-1+1:]...)
 	}
 
+	distinct := make(map[s2.Point]struct{})
+	for _, p := range points {
+		distinct[p] = struct{}{}
+	}
+	if len(distinct) < 3 {
+		return nil
+	}
+
 	// the first vertices of a concave ring do not tell its orientation
 	if checkCCW && !s2.LoopFromPoints(points).IsNormalized() {
 		// reversing the slice
diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index 8cb10eb..ae62271 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -37,6 +37,10 @@ func GeomToGeoData(g geom.T, gd *GeoData) error {
 		return errors.Errorf("unsupported geo type %T", g)
 	}
 
+	if err := checkGeometry(geo); err != nil {
+		return err
+	}
+
 	gd.Geometry = geo
 	return nil
 }
@@ -53,8 +57,44 @@ func xyCoords(flat []float64, stride int) []float64 {
 	return res
 }
 
+// checkGeometry returns an error if geo is not a complete geometry
+func checkGeometry(geo *Geometry) error {
+	if geo == nil {
+		return errors.New("invalid geometry")
+	}
+	switch geo.Type {
+	case Geometry_POINT:
+		if len(geo.Coordinates) != 2 {
+			return errors.New("invalid coordinates count for point")
+		}
+	case Geometry_POLYGON:
+		if LoopFromCoordinates(geo.Coordinates) == nil {
+			return errors.New("invalid coordinates for polygon")
+		}
+	case Geometry_MULTIPOLYGON:
+		if len(geo.Geometries) == 0 {
+			return errors.New("empty multipolygon")
+		}
+		for _, g := range geo.Geometries {
+			if g == nil || LoopFromCoordinates(g.Coordinates) == nil {
+				return errors.New("invalid coordinates for multipolygon")
+			}
+		}
+	case Geometry_LINESTRING:
+		if len(geo.Coordinates)%2 != 0 || len(geo.Coordinates) < 2*2 {
+			return errors.New("invalid coordinates count for line")
+		}
+	default:
+		return errors.New("unsupported data type")
+	}
+	return nil
+}
+
 // GeoDataToGeom converts GeoData to a geom.T representation
 func GeoDataToGeom(gd *GeoData) (geom.T, error) {
+	if err := checkGeometry(gd.GetGeometry()); err != nil {
+		return nil, err
+	}
 	switch gd.Geometry.Type {
 	case Geometry_POINT:
 		return geom.NewPointFlat(geom.XY, gd.Geometry.Coordinates), nil
@@ -69,6 +109,10 @@ func GeoDataToGeom(gd *GeoData) (geom.T, error) {
 
 // GeoJSONFeatureToGeoData fill gd with the GeoJSON data f
 func GeoJSONFeatureToGeoData(f *geojson.Feature, gd *GeoData) error {
+	if f == nil {
+		return errors.New("missing feature")
+	}
+
 	err := PropertiesToGeoData(f, gd)
 	if err != nil {
 		return errors.Wrap(err, "while converting feature properties to GeoData")
@@ -113,8 +157,8 @@ func PropertiesToGeoData(f *geojson.Feature, gd *GeoData) error {
 // GeoDataToRect generate a RectBound for GeoData gd
 // only works with Polygons & LineString
 func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
-	if gd.Geometry == nil {
-		return s2.Rect{}, errors.New("invalid geometry")
+	if err := checkGeometry(gd.GetGeometry()); err != nil {
+		return s2.Rect{}, err
 	}
 	switch gd.Geometry.Type {
 	case Geometry_POINT:
@@ -150,8 +194,8 @@ func GeoDataToRect(gd *GeoData) (s2.Rect, error) {
 
 // geoDataToCoverCellUnion generate an s2 cover normalized for GeoData gd
 func geoDataCoverCellUnion(gd *GeoData, coverer *s2.RegionCoverer, interior bool) (s2.CellUnion, error) {
-	if gd.Geometry == nil {
-		return nil, errors.New("invalid geometry")
+	if err := checkGeometry(gd.GetGeometry()); err != nil {
+		return nil, err
 	}
 	var cu s2.CellUnion
 	switch gd.Geometry.Type {
@@ -242,6 +286,9 @@ func coverPolygon(c []float64, coverer *s2.RegionCoverer, interior bool) (s2.Cel
 func ToGeoJSONFeatureCollection(geos []*GeoData) ([]byte, error) {
 	fc := geojson.FeatureCollection{}
 	for _, g := range geos {
+		if err := checkGeometry(g.GetGeometry()); err != nil {
+			return nil, err
+		}
 		f := &geojson.Feature{}
 		switch g.Geometry.Type {
 		case Geometry_POINT:
@@ -278,6 +325,9 @@ func PointsToGeoJSONPolyLines(geos []*GeoData) ([]byte, error) {
 	}
 
 	for _, g := range geos {
+		if err := checkGeometry(g.GetGeometry()); err != nil {
+			return nil, err
+		}
 		switch g.Geometry.Type {
 		case Geometry_POINT:
 			flatCoords = append(flatCoords, g.Geometry.Coordinates...)
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 7286f17..2eae57b 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -67,7 +67,7 @@ func (idx *S2PointIdx) PointKey(lat, lng float64, id GeoID) []byte {
 
 // GeoPointKey is returning the key generated for a geopoint + id
 func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error) {
-	if gd.Geometry.Type != geodata.Geometry_POINT {
+	if gd.GetGeometry() == nil || gd.Geometry.Type != geodata.Geometry_POINT || len(gd.Geometry.Coordinates) != 2 {
 		return nil, errors.New("only points are supported")
 	}
 
@@ -78,7 +78,7 @@ func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error
 // it's not storing GeoData itself but only the geo cell l30 of the point
 // id is the key referring to the GeoData stored somewhere else
 func (idx *S2PointIdx) GeoPointIndex(gd *geodata.GeoData, id GeoID) ([]byte, error) {
-	if gd.Geometry.Type != geodata.Geometry_POINT {
+	if gd.GetGeometry() == nil || gd.Geometry.Type != geodata.Geometry_POINT || len(gd.Geometry.Coordinates) != 2 {
 		return nil, errors.New("only points are supported")
 	}
 
-- 
2.43.0


From 627b0b533139d69e15aa0d8594b8b4d6f66a54ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 27/38] fix: ParseCellID returned invalid cells

---
 s2tools/parse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/s2tools/parse.go b/s2tools/parse.go
index d3c14a5..fc0ade3 100644
--- a/s2tools/parse.go
+++ b/s2tools/parse.go
@@ -20,6 +20,9 @@ func ParseCellID(cs string) *s2.CellID {
 			if err != nil || child < 0 || child > 3 {
 				return nil
 			}
+			if c.IsLeaf() {
+				return nil
+			}
 
 			c = c.Children()[child]
 		}
@@ -27,7 +30,7 @@ func ParseCellID(cs string) *s2.CellID {
 	}
 
 	c := s2.CellIDFromToken(cs)
-	if c != s2.CellID(0) {
+	if c.IsValid() {
 		return &c
 	}
 
@@ -36,5 +39,8 @@ func ParseCellID(cs string) *s2.CellID {
 		return nil
 	}
 	c = s2.CellID(id)
+	if !c.IsValid() {
+		return nil
+	}
 	return &c
 }
-- 
2.43.0


From 68c40404bd7e4e102acc8aef6c7dc0cae5ff8046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 28/38] fix: the debug endpoints answered malformed requests
 with garbage cells

---
 s2tools/handlers.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/s2tools/handlers.go b/s2tools/handlers.go
index fb033e8..3031b76 100644
--- a/s2tools/handlers.go
+++ b/s2tools/handlers.go
@@ -28,6 +28,10 @@ func S2CellQueryHandler(w http.ResponseWriter, r *http.Request) {
 
 	for i, cs := range cells {
 		c := s2.CellIDFromToken(cs)
+		if !c.IsValid() {
+			http.Error(w, "invalid cell "+cs, 400)
+			return
+		}
 		cu[i] = c
 	}
 
@@ -70,6 +74,11 @@ func GeoJSONToCellHandler(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if vals[0] > 30 || vals[1] > 30 {
+		http.Error(w, "invalid level", 400)
+		return
+	}
+
 	err = dec.Decode(&fc)
 	if err != nil {
 		http.Error(w, err.Error()+" can't unmasrhal JSON", 400)
-- 
2.43.0


From 4b5f6e900495b61777cf0bfe17956e5c5d3c1441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 29/38] fix: badger range iterator treated an empty end as
 unbounded

---
 store/badger/range_iterator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/badger/range_iterator.go b/store/badger/range_iterator.go
index 69ba3d2..6d36dd8 100644
--- a/store/badger/range_iterator.go
+++ b/store/badger/range_iterator.go
@@ -55,7 +55,7 @@ func (i *RangeIterator) Valid() bool {
 		return false
 	}
 
-	if i.stop == nil || len(i.stop) == 0 {
+	if i.stop == nil {
 		return true
 	}
 
-- 
2.43.0


From 8d834affd31c006cd5a78ebce54e8b17d49fdad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:27 +0000
Subject: [PATCH 30/38] fix: goleveldb range iterator panicked when start is
 after end

---
 store/goleveldb/reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/store/goleveldb/reader.go b/store/goleveldb/reader.go
index 4265bb2..852ba81 100644
--- a/store/goleveldb/reader.go
+++ b/store/goleveldb/reader.go
@@ -15,6 +15,8 @@
 package goleveldb
 
 import (
+	"bytes"
+
 	"github.com/akhenakh/oureadb/store"
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/util"
@@ -49,6 +51,10 @@ func (r *Reader) PrefixIterator(prefix []byte) store.KVIterator {
 }
 
 func (r *Reader) RangeIterator(start, end []byte) store.KVIterator {
+	// goleveldb panics on inverted ranges
+	if end != nil && bytes.Compare(start, end) > 0 {
+		end = start
+	}
 	byteRange := &util.Range{
 		Start: start,
 		Limit: end,
-- 
2.43.0


From 4995f1161a3fca4bac679084e7645b1da4cfc8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:39 +0000
Subject: [PATCH 31/38] fix: goleveldb merged deleted keys as empty values

---
 store/goleveldb/writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/store/goleveldb/writer.go b/store/goleveldb/writer.go
index f51cdb4..1e9eaa0 100644
--- a/store/goleveldb/writer.go
+++ b/store/goleveldb/writer.go
@@ -60,6 +60,10 @@ func (w *Writer) ExecuteBatch(b store.KVBatch) error {
 		if err != nil && err != leveldb.ErrNotFound {
 			return err
 		}
+		if err == leveldb.ErrNotFound {
+			// deleted keys come with an empty, non nil value
+			existingVal = nil
+		}
 		mergedVal, fullMergeOk := w.store.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
 			return fmt.Errorf("merge operator returned failure")
-- 
2.43.0


From 5e513d748ca723e66737b0862e1a9e79ffcd790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:06 +0000
Subject: [PATCH 32/38] fix: gtreap merged keys holding a nil merge result as
 absent keys

---
 store/gtreap/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/store/gtreap/writer.go b/store/gtreap/writer.go
index 48fa676..5db3769 100644
--- a/store/gtreap/writer.go
+++ b/store/gtreap/writer.go
@@ -60,7 +60,8 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 			w.s.t = prev
 			return fmt.Errorf("merge operator returned failure")
 		}
-		w.s.t = w.s.t.Upsert(&Item{k: kb, v: mergedVal}, rand.Int())
+		// a nil value would look like an absent key to the next merge
+		w.s.t = w.s.t.Upsert(&Item{k: kb, v: append([]byte{}, mergedVal...)}, rand.Int())
 	}
 
 	for _, op := range emulatedBatch.Ops {
-- 
2.43.0


From 147072ebef5ecfac01523866b2653fa92842ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 33/38] fix: indexes kept the caller's prefix slice

---
 index/s2idx.go      | 2 +-
 index/s2pointidx.go | 2 +-
 index/s2timeidx.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index d6e40f0..0ce4981 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -25,7 +25,7 @@ type S2FlatIdx struct {
 func NewS2FlatIdx(s store.KVStore, prefix []byte, level int) *S2FlatIdx {
 	return &S2FlatIdx{
 		KVStore: s,
-		prefix:  prefix,
+		prefix:  append([]byte(nil), prefix...),
 		level:   level,
 	}
 }
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index 2eae57b..c0284db 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -24,7 +24,7 @@ type S2PointIdx struct {
 func NewS2PointIdx(s store.KVStore, prefix []byte) *S2PointIdx {
 	return &S2PointIdx{
 		KVStore: s,
-		prefix:  prefix,
+		prefix:  append([]byte(nil), prefix...),
 	}
 }
 
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index 96f41db..b906dad 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -28,7 +28,7 @@ type S2FlatTimeIdx struct {
 func NewS2FlatTimeIdx(s store.KVStore, prefix []byte, level int) *S2FlatTimeIdx {
 	return &S2FlatTimeIdx{
 		KVStore: s,
-		prefix:  prefix,
+		prefix:  append([]byte(nil), prefix...),
 		level:   level,
 	}
 }
-- 
2.43.0


From 2d11f65d8c235474db69bd40295237f62f8e4fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 34/38] fix: queries over several cells mixed several snapshots

---
 index/s2idx.go      | 25 ++++++++++++++++++-------
 index/s2pointidx.go | 25 ++++++++++++++++++-------
 index/s2timeidx.go  | 25 ++++++++++++++++++-------
 3 files changed, 54 insertions(+), 21 deletions(-)

diff --git a/index/s2idx.go b/index/s2idx.go
index 0ce4981..18beba0 100644
--- a/index/s2idx.go
+++ b/index/s2idx.go
@@ -71,6 +71,16 @@ func (idx *S2FlatIdx) GeoIndex(gd *geodata.GeoData, id GeoID) error {
 
 // GeoIdsAtCell returns all GeoData keys contained in the cell
 func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
+	kv, err := idx.Reader()
+	if err != nil {
+		return nil, err
+	}
+	defer kv.Close()
+
+	return idx.geoIdsAtCell(kv, c)
+}
+
+func (idx *S2FlatIdx) geoIdsAtCell(kv store.KVReader, c s2.CellID) ([]GeoID, error) {
 	if c.Level() != idx.level {
 		return nil, errors.New("requested a cellID with a different level than the index")
 	}
@@ -82,12 +92,6 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 
 	var res []GeoID
 
-	kv, err := idx.Reader()
-	if err != nil {
-		return nil, err
-	}
-	defer kv.Close()
-
 	// iterate entries with cell's prefix
 	iter := kv.PrefixIterator(k)
 	defer iter.Close()
@@ -114,8 +118,15 @@ func (idx *S2FlatIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 func (idx *S2FlatIdx) GeoIdsAtCells(cells []s2.CellID) ([]GeoID, error) {
 	m := make(map[string]struct{})
 
+	// one reader, all the cells are from the same snapshot
+	kv, err := idx.Reader()
+	if err != nil {
+		return nil, err
+	}
+	defer kv.Close()
+
 	for _, c := range cells {
-		ids, err := idx.GeoIdsAtCell(c)
+		ids, err := idx.geoIdsAtCell(kv, c)
 		if err != nil {
 			return nil, errors.Wrap(err, "fetching geo ids from cells failed")
 		}
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index c0284db..d05ee77 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -87,6 +87,16 @@ func (idx *S2PointIdx) GeoPointIndex(gd *geodata.GeoData, id GeoID) ([]byte, err
 
 // GeoIdsAtCell returns all GeoData keys contained in the cell
 func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
+	kv, err := idx.Reader()
+	if err != nil {
+		return nil, err
+	}
+	defer kv.Close()
+
+	return idx.geoIdsAtCell(kv, c)
+}
+
+func (idx *S2PointIdx) geoIdsAtCell(kv store.KVReader, c s2.CellID) ([]GeoID, error) {
 	// add the prefix to the queried key
 	start := make([]byte, len(idx.prefix))
 	copy(start, idx.prefix)
@@ -97,12 +107,6 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 
 	var res []GeoID
 
-	kv, err := idx.Reader()
-	if err != nil {
-		return nil, err
-	}
-	defer kv.Close()
-
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(start, stop)
 	defer iter.Close()
@@ -129,8 +133,15 @@ func (idx *S2PointIdx) GeoIdsAtCell(c s2.CellID) ([]GeoID, error) {
 func (idx *S2PointIdx) GeoIdsAtCells(cells []s2.CellID) ([]GeoID, error) {
 	m := make(map[string]struct{})
 
+	// one reader, all the cells are from the same snapshot
+	kv, err := idx.Reader()
+	if err != nil {
+		return nil, err
+	}
+	defer kv.Close()
+
 	for _, c := range cells {
-		ids, err := idx.GeoIdsAtCell(c)
+		ids, err := idx.geoIdsAtCell(kv, c)
 		if err != nil {
 			return nil, errors.Wrap(err, "fetching geo ids from cells failed")
 		}
diff --git a/index/s2timeidx.go b/index/s2timeidx.go
index b906dad..0b622ec 100644
--- a/index/s2timeidx.go
+++ b/index/s2timeidx.go
@@ -105,8 +105,15 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsRectQuery(from time.Time, to time.Time, urla
 func (idx *S2FlatTimeIdx) GeoTimeIdsAtCells(cells []s2.CellID, from time.Time, to time.Time) ([]GeoID, error) {
 	m := make(map[string]struct{})
 
+	// one reader, all the cells are from the same snapshot
+	kv, err := idx.Reader()
+	if err != nil {
+		return nil, err
+	}
+	defer kv.Close()
+
 	for _, c := range cells {
-		ids, err := idx.GeoTimeIdsAtCell(c, from, to)
+		ids, err := idx.geoTimeIdsAtCell(kv, c, from, to)
 		if err != nil {
 			return nil, errors.Wrap(err, "fetching geo ids from cells failed")
 		}
@@ -127,6 +134,16 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCells(cells []s2.CellID, from time.Time, t
 
 // GeoTimeIdsAtCell returns all GeoData keys contained in the cell from time from  to time to
 func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.Time) ([]GeoID, error) {
+	kv, err := idx.Reader()
+	if err != nil {
+		return nil, err
+	}
+	defer kv.Close()
+
+	return idx.geoTimeIdsAtCell(kv, c, from, to)
+}
+
+func (idx *S2FlatTimeIdx) geoTimeIdsAtCell(kv store.KVReader, c s2.CellID, from time.Time, to time.Time) ([]GeoID, error) {
 	if c.Level() != idx.level {
 		return nil, errors.New("requested a cellID with a different level than the index")
 	}
@@ -136,12 +153,6 @@ func (idx *S2FlatTimeIdx) GeoTimeIdsAtCell(c s2.CellID, from time.Time, to time.
 
 	var res []GeoID
 
-	kv, err := idx.Reader()
-	if err != nil {
-		return nil, err
-	}
-	defer kv.Close()
-
 	// iterate entries with cell's prefix
 	iter := kv.RangeIterator(startKey, stopKey)
 	defer iter.Close()
-- 
2.43.0


From a48095bd016f0974ea4f37d8f8cae17c42d4dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:49 +0000
Subject: [PATCH 35/38] fix: infinite or NaN coordinates panicked or were
 indexed (G05)

---
 index/geodata/tools.go | 16 +++++++++++++++-
 index/s2pointidx.go    |  6 ++++++
 index/tools.go         |  5 +++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/index/geodata/tools.go b/index/geodata/tools.go
index ae62271..34adf7d 100644
--- a/index/geodata/tools.go
+++ b/index/geodata/tools.go
@@ -2,6 +2,7 @@ package geodata
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/golang/geo/s2"
 	spb "github.com/golang/protobuf/ptypes/struct"
@@ -62,6 +63,9 @@ func checkGeometry(geo *Geometry) error {
 	if geo == nil {
 		return errors.New("invalid geometry")
 	}
+	if !finite(geo.Coordinates) {
+		return errors.New("invalid coordinates value")
+	}
 	switch geo.Type {
 	case Geometry_POINT:
 		if len(geo.Coordinates) != 2 {
@@ -76,7 +80,7 @@ func checkGeometry(geo *Geometry) error {
 			return errors.New("empty multipolygon")
 		}
 		for _, g := range geo.Geometries {
-			if g == nil || LoopFromCoordinates(g.Coordinates) == nil {
+			if g == nil || !finite(g.Coordinates) || LoopFromCoordinates(g.Coordinates) == nil {
 				return errors.New("invalid coordinates for multipolygon")
 			}
 		}
@@ -90,6 +94,16 @@ func checkGeometry(geo *Geometry) error {
 	return nil
 }
 
+// finite tells if no coordinate is infinite or not a number
+func finite(c []float64) bool {
+	for _, v := range c {
+		if math.IsNaN(v) || math.IsInf(v, 0) {
+			return false
+		}
+	}
+	return true
+}
+
 // GeoDataToGeom converts GeoData to a geom.T representation
 func GeoDataToGeom(gd *GeoData) (geom.T, error) {
 	if err := checkGeometry(gd.GetGeometry()); err != nil {
diff --git a/index/s2pointidx.go b/index/s2pointidx.go
index d05ee77..775a79c 100644
--- a/index/s2pointidx.go
+++ b/index/s2pointidx.go
@@ -35,6 +35,9 @@ func (idx *S2PointIdx) PointIndex(lat, lng float64, id GeoID) ([]byte, error) {
 	if len(id) == 0 {
 		return nil, errors.New("empty id")
 	}
+	if !finite(lat) || !finite(lng) {
+		return nil, errors.New("invalid coordinates value")
+	}
 
 	kv, err := idx.KVStore.Writer()
 	if err != nil {
@@ -70,6 +73,9 @@ func (idx *S2PointIdx) GeoPointKey(gd *geodata.GeoData, id GeoID) ([]byte, error
 	if gd.GetGeometry() == nil || gd.Geometry.Type != geodata.Geometry_POINT || len(gd.Geometry.Coordinates) != 2 {
 		return nil, errors.New("only points are supported")
 	}
+	if !finite(gd.Geometry.Coordinates[0]) || !finite(gd.Geometry.Coordinates[1]) {
+		return nil, errors.New("invalid coordinates value")
+	}
 
 	return idx.PointKey(gd.Geometry.Coordinates[1], gd.Geometry.Coordinates[0], id), nil
 }
diff --git a/index/tools.go b/index/tools.go
index 6048dc8..de97da6 100644
--- a/index/tools.go
+++ b/index/tools.go
@@ -31,6 +31,11 @@ func int64tob(v int64) []byte {
 	return b
 }
 
+// finite tells if v is neither infinite nor not a number
+func finite(v float64) bool {
+	return !math.IsNaN(v) && !math.IsInf(v, 0)
+}
+
 func s2RadialAreaMeters(radius float64) float64 {
 	r := (radius / earthCircumferenceMeter) * math.Pi * 2
 	// area of the spherical cap of angular radius r
-- 
2.43.0


From dbb62f93270cb0d2db01dd62aa4069845ea467aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:51 +0000
Subject: [PATCH 36/38] fix: boltdb commits nothing when the merge operator
 panics

---
 store/boltdb/writer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/store/boltdb/writer.go b/store/boltdb/writer.go
index e43e3d2..be0521b 100644
--- a/store/boltdb/writer.go
+++ b/store/boltdb/writer.go
@@ -43,11 +43,13 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 	if err != nil {
 		return
 	}
+	// the merge operator may panic, nothing is committed then
+	done := false
 	// defer function to ensure that once started,
 	// we either Commit tx or Rollback
 	defer func() {
 		// if nothing went wrong, commit
-		if err == nil {
+		if err == nil && done {
 			// careful to catch error here too
 			err = tx.Commit()
 		} else {
@@ -87,6 +89,7 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 			}
 		}
 	}
+	done = true
 	return
 }
 
-- 
2.43.0


From 735097d1e52f0e24ab1cacbca84ab10ac2aad493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:51 +0000
Subject: [PATCH 37/38] fix: badger commits nothing when the merge operator
 panics

---
 store/badger/writer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/store/badger/writer.go b/store/badger/writer.go
index d7908b9..8c21f04 100644
--- a/store/badger/writer.go
+++ b/store/badger/writer.go
@@ -33,9 +33,10 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 	txn := w.s.db.NewTransaction(true)
 
 	// commit only if everything went well, the caller should see
-	// the error of the commit
+	// the error of the commit; the merge operator may panic
+	done := false
 	defer (func() {
-		if err != nil {
+		if err != nil || !done {
 			txn.Discard()
 			return
 		}
@@ -76,6 +77,7 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) (err error) {
 		}
 	}
 
+	done = true
 	return nil
 }
 
-- 
2.43.0


From e6c7bd35efc3b73711848a833a78d6c943b7731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:51 +0000
Subject: [PATCH 38/38] fix: gtreap restores the contents when the merge
 operator panics

---
 store/gtreap/writer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/store/gtreap/writer.go b/store/gtreap/writer.go
index 5db3769..843024b 100644
--- a/store/gtreap/writer.go
+++ b/store/gtreap/writer.go
@@ -46,8 +46,14 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 	w.s.m.Lock()
 	defer w.s.m.Unlock()
 
-	// restored if the batch fails
+	// restored if the batch fails, or the merge operator panics
 	prev := w.s.t
+	done := false
+	defer func() {
+		if !done {
+			w.s.t = prev
+		}
+	}()
 	for k, mergeOps := range emulatedBatch.Merger.Merges {
 		kb := []byte(k)
 		var existingVal []byte
@@ -57,7 +63,6 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 		}
 		mergedVal, fullMergeOk := w.s.mo.FullMerge(kb, existingVal, mergeOps)
 		if !fullMergeOk {
-			w.s.t = prev
 			return fmt.Errorf("merge operator returned failure")
 		}
 		// a nil value would look like an absent key to the next merge
@@ -71,6 +76,7 @@ func (w *Writer) ExecuteBatch(batch store.KVBatch) error {
 			w.s.t = w.s.t.Delete(&Item{k: op.K})
 		}
 	}
+	done = true
 	return nil
 }
 
-- 
2.43.0

