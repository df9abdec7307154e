#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

ENG = ["store/gtreap", "store/boltdb", "store/goleveldb", "store/badger"]
def eng(*names): return [f"{e}/{n}" for e in ENG for n in names]

p("S01", "Every engine refines a sorted map over any batch history",
  """After any history of successfully executed batches, on every storage engine, a newly opened reader's Get, MultiGet
  and full scan return exactly what a sorted byte-string map returns after applying the batches' sets and deletes in
  program order; the last operation on a key inside a batch wins, deleting an absent key is a no-op, and a present but
  empty value is never reported as an absent (nil) key. A batch that was reset carries nothing over from its earlier
  use, one that is executed again without a reset applies its operations again, and the null engine accepts everything
  and always reads as empty. The MultiGet helper answers each key with what the reader's Get says, and fails when any of
  those reads fails.""",
  ["histories", "inputs"], "all batch sequences up to a depth over a small adversarial key/value alphabet, on every engine, from empty and non-empty states",
  "The shared CRUD test runs one fixed sequence of nine sets per engine, never calls MultiGet, never stores an empty value, never reads a deleted key.",
  ["store/batch.go", "store/multiget.go", "store/null/null.go"] + eng("reader.go", "writer.go"),
  [("batch recording and in-order application", "store/batch.go, */writer.go ExecuteBatch"), ("value copy-out", "*/reader.go Get"), ("MultiGet helper", "store/multiget.go")],
  ["KVReader.Get", "KVReader.MultiGet", "KVReader.RangeIterator(nil,nil)"])
p("S02", "Iterators visit exactly the requested keys, in order",
  """On every engine a prefix iterator visits exactly the keys having the prefix and a range iterator exactly the keys
  with start <= key < end (a nil bound is unbounded), each once, in ascending byte order, with the value stored for
  that key. Seek positions on the first in-bounds key at or after the target (a target before the lower bound means the
  lower bound; seeking backwards is allowed), and an iterator that has run past its last key stays invalid under Next
  until it is repositioned by Seek.""",
  ["inputs", "histories"], "all contents over a small adversarial key universe (nested prefixes, NUL and 0xff bytes) x all bounds x all Next/Seek sequences up to a depth",
  "The iterator tests use one data set of ASCII words, never a key that is a prefix of another, never 0xff, never Next after the end.",
  ["store/kvstore.go", "store/gtreap/iterator.go", "store/boltdb/iterator.go", "store/goleveldb/iterator.go", "store/badger/prefix_iterator.go", "store/badger/range_iterator.go"] + eng("reader.go"),
  [("Seek clamping and validity", "*/iterator.go, badger/*_iterator.go"), ("initial positioning", "*/reader.go PrefixIterator, RangeIterator")],
  ["KVIterator.Valid/Current/Key/Value after every Next/Seek"])
p("S03", "A reader is an isolated snapshot",
  """Everything a reader returns (gets, multi-gets, and iterators created on it at any later time) reflects exactly the
  store's contents at the moment the reader was opened, whatever batches, deletions or compactions run afterwards and
  however many other readers are open. A reader opened after a batch returned sees that whole batch.""",
  ["histories", "schedules"], "all interleavings, at operation granularity, of writer batches, compactions, reader opens, reads, iterator steps and closes up to a bounded length",
  "One test opens one reader, writes one key and looks again; it never deletes or overwrites under a reader, never steps an iterator across a write, never has two snapshots of different ages.",
  ["store/kvstore.go"] + eng("store.go", "reader.go"),
  [("treap root captured at open", "store/gtreap/store.go Reader"), ("engine snapshot / read transaction", "store/*/store.go Reader")],
  ["all reads of a long-lived reader after each later write"])
p("S04", "A failing batch changes nothing and leaves the store usable",
  """If executing a batch reports an error - a merge operator refuses (or panics), an operation is invalid for the engine, the engine
  rejects or aborts the transaction, or the batch belongs to another engine - then no operation of that batch is
  visible, now or after reopening. If it reports success every operation is applied; after a failure the store keeps
  serving reads and further batches, without blocking.""",
  ["fault_sequences", "histories"], "every position at which a merge, a set or a delete of a batch can fail, for all small batches, followed by any further operation",
  "No test executes a batch that fails.",
  ["store/kvstore.go"] + eng("writer.go"),
  [("transaction rollback", "store/boltdb/writer.go, store/badger/writer.go"), ("lock release on error", "store/gtreap/writer.go")],
  ["ExecuteBatch error", "full scan after the failure", "a follow-up batch completes"])
p("S05", "Merges fold every operand exactly once, in order",
  """For every key with merge operations in a batch, the stored result is the merge operator's full merge of the key's
  current value (nil exactly when the key is absent) with that batch's operands in the order given, each contributing
  exactly once, whether or not the operator is able to merge operands partially. Keys do not affect each other,
  successive batches accumulate, and resetting a batch discards its pending merges; what a batch means that merges a
  key and also sets or deletes that same key is left open.""",
  ["inputs", "histories", "fault_sequences"], "all merge sequences up to a length over several keys, all answer patterns of the operator's partial merge, all prior contents, on every engine",
  "The merge test adds the number one twice with a commutative operator that always merges partially, on an absent key.",
  ["store/merge.go", "store/batch.go", "store/goleveldb/batch.go"] + eng("writer.go"),
  [("operand accumulation", "store/merge.go EmulatedMerge.Merge"), ("full merge at execution", "*/writer.go ExecuteBatch"), ("reset", "store/batch.go, store/goleveldb/batch.go")],
  ["value read after the batch", "arguments seen by the merge operator"])
p("S06", "Byte slices are never shared between caller and store",
  """The caller may overwrite any key or value buffer as soon as the batch Set, Delete or Merge call that took it has
  returned, without any effect on what is stored; the caller owns the bytes Get and MultiGet return and may scribble on
  or append to them without affecting the store or any other read. A batch created with a requested buffer size comes
  with a buffer of that size that can be used for its keys and values.""",
  ["inputs", "histories"], "every buffer handed to or returned by the store in all short histories is overwritten at the earliest moment the contract allows",
  "Two tests overwrite one key/value pair; merge operands, deletes, multi-get results and shared backing arrays are never tried.",
  ["store/batch.go", "store/merge.go", "store/goleveldb/batch.go"] + eng("reader.go", "writer.go"),
  [("copy on Set/Delete/Merge", "store/batch.go"), ("copy on Get", "*/reader.go")],
  ["contents after caller-side mutation"])
p("S07", "Concurrent batches and readers are linearizable",
  """When several goroutines execute batches (sets, deletes and merges) and open readers on one store at the same time,
  the outcome is that of some sequential order of the calls consistent with real time: no acknowledged operation is
  lost, a merge never overwrites a concurrent update it did not see, no reader observes part of a batch, and no
  interleaving blocks forever. A batch that loses a conflict reports an error instead of being silently dropped.
  No two calls touch the same memory without synchronising.""",
  ["schedules"], "all interleavings, at statement granularity inside the store packages, of 2-3 threads with 1-2 operations on shared keys, up to a preemption bound, on every engine",
  "Every test is single threaded.",
  ["store/gtreap/store.go"] + eng("writer.go"),
  [("store mutex", "store/gtreap/store.go, writer.go"), ("single writer transaction", "store/boltdb/writer.go"), ("optimistic transaction commit", "store/badger/writer.go"), ("read-modify-write of merges", "store/goleveldb/writer.go")],
  ["call/return history with results", "final contents"], hook="none in /repo: checks instrument a scratch copy of the source")
p("S08", "Acknowledged batches survive any crash, whole",
  """On the persistent engines, once a batch has been acknowledged (under the default, syncing configuration) its effects
  are present after a crash at any later point, whatever subset of writes not yet synced reaches the disk; a batch cut
  off by the crash is recovered entirely or not at all, and a store that had been opened once opens again. The same
  holds when the disk fails a write or a sync: a batch is acknowledged only if it is safely stored.""",
  ["crash_points", "histories", "fault_sequences"], "every prefix of the recorded file-operation log of short histories, combined with every subset (up to a stated cap) and torn tail of the writes not yet synced at that point, and every failing write or sync of a batch",
  "No test crashes, or even reopens, a database.",
  ["store/boltdb/store.go", "store/boltdb/writer.go", "store/goleveldb/store.go", "store/goleveldb/writer.go", "store/badger/store.go", "store/badger/writer.go"],
  [("one engine transaction per batch", "*/writer.go ExecuteBatch"), ("sync options", "store/boltdb/store.go nosync, store/goleveldb/store.go defaultWriteOptions, store/badger/store.go options")],
  ["contents after recovery"], hook="none in /repo: the check builds against engine copies whose file operations are recorded")
p("S09", "Contents survive close and reopen under any configuration",
  """Closing a persistent store and opening the same path again yields the same contents, for any number of rounds and
  any accepted configuration; two stores' data in different buckets of one file never mix, and a store opened read-only
  serves reads but accepts no change. A configuration without a usable path, or one that forbids creating or reusing
  the database, is refused with an error.""",
  ["configurations", "histories"], "all histories of open(config)/batch/close up to a bounded length over the documented configuration options",
  "One test opens boltdb with configurations; nothing is ever reopened.",
  ["store/boltdb/store.go", "store/goleveldb/store.go", "store/goleveldb/config.go", "store/badger/store.go", "store/gtreap/store.go"],
  [("config parsing", "*/store.go New, store/goleveldb/config.go"), ("bucket selection", "store/boltdb/store.go")],
  ["New error", "full scan after reopen"])
p("S10", "Compaction removes only zero-count dictionary rows",
  """Compacting a store, with any batch size, removes exactly the entries whose key starts with the dictionary prefix
  ("d") and whose value is the single byte zero; every other entry keeps its value, open readers keep their snapshot,
  and compaction terminates.""",
  ["inputs", "histories"], "all contents over a small key/value alphabet around the prefix x batch sizes, plus content sizes around the default batch sizes",
  "Compaction is never called by any test.",
  ["store/boltdb/store.go", "store/goleveldb/store.go"],
  [("CompactWithBatchSize", "store/boltdb/store.go, store/goleveldb/store.go")],
  ["full scan after compaction"])

p("S11", "Closed handles leave nothing behind",
  """On every engine, once every iterator, reader, batch and writer obtained from a store has been closed (iterators before
  their reader, otherwise in any order), whatever was done with them and whether it succeeded, was refused or ended in a panic of the caller's merge operator,
  the store keeps nothing for them: no transaction, snapshot, iterator or background task of theirs remains. Closing the store then
  neither blocks nor panics nor fails, and leaves no background task, open file or lock, so that the same path can be
  opened again at once; a refused opening leaves nothing either.""",
  ["histories", "fault_sequences"], "all feasible sequences of opening, using and closing handles up to a depth on every engine, and all sets of many handles in several closing orders",
  "Tests open one handle at a time, never look at what is left, and exit.",
  ["store/boltdb/reader.go", "store/boltdb/iterator.go", "store/goleveldb/reader.go", "store/goleveldb/iterator.go", "store/goleveldb/writer.go", "store/badger/store.go", "store/gtreap/iterator.go"],
  [("reader and iterator Close", "store/*/reader.go, store/*/iterator.go, store/badger/*.go"), ("failed batch paths", "*/writer.go ExecuteBatch"), ("store New and Close", "*/store.go")],
  ["engine accounts of open transactions, iterators and snapshots", "goroutines", "open files", "result of opening again"])

p("I01", "Cover index cell queries are exact over any history",
  """After any history of indexing operations on a cover index, asking for a cell at the index's level returns exactly
  the ids of the geometries whose cover includes that cell, each once, and asking for several cells returns their union
  without duplicates; a cell of another level is refused. Indexing the same geometry and id again changes nothing, and
  ids are arbitrary non-empty byte strings returned unchanged.""",
  ["histories", "inputs", "configurations"], "all short indexing histories over a set of geometries, ids, prefixes and levels, on every engine and on a contract-minimal store, queried at every covered cell and its neighbours",
  "The tests index one geometry with one id and query one cell on the in-memory engine.",
  ["index/s2idx.go", "index/tools.go"],
  [("key layout prefix+cell+id", "index/s2idx.go GeoIndex, keyToValues"), ("prefix scan", "index/s2idx.go GeoIdsAtCell")],
  ["GeoIdsAtCell", "GeoIdsAtCells"])
p("I02", "Point index cell queries are exact at every level",
  """After any history of point insertions, asking the point index for a cell of any level, from a whole cube face down
  to a leaf, returns exactly the ids of the indexed points lying in that cell - including points in the cell's first and
  last leaf - once per indexed position and id; several cells give the union without duplicates. The key returned on
  insertion equals the key computed for that position and id.""",
  ["inputs", "histories", "configurations"], "all cells of all levels around all points of an adversarial set (cell corners, poles, face edges, antimeridian), all short histories, every engine",
  "One point queried at one level-10 ancestor.",
  ["index/s2pointidx.go"],
  [("range over leaf ids", "index/s2pointidx.go GeoIdsAtCell"), ("key layout", "index/s2pointidx.go PointKey")],
  ["GeoIdsAtCell", "GeoIdsAtCells", "PointKey", "GeoPointKey"])
p("I03", "Point radius and rectangle queries return exactly the points inside",
  """A radius query on the point index returns exactly the indexed points whose great-circle distance to the centre is at
  most the radius in meters, and a rectangle query exactly those between the bottom-left and upper-right corners, going
  east from left to right (also across the antimeridian and for rectangles wider than half the globe); points within
  rounding distance of the boundary may fall either way. Each matching position and id is reported once.""",
  ["inputs"], "all points x centres x radii (meters to half the globe) and all points x rectangles of an adversarial grid",
  "One point, one 5 km radius and one small rectangle.",
  ["index/s2pointidx.go", "index/tools.go"],
  [("cover then filter", "index/s2pointidx.go GeoIdsRadiusQuery, GeoIdsRectQuery"), ("radius to cap area", "index/tools.go s2RadialAreaMeters")],
  ["GeoIdsRadiusQuery", "GeoIdsRectQuery"])
p("I04", "Time index queries are exact in cell and time",
  """After any history of timed indexing, asking for a cell with a later bound and an earlier bound returns exactly the
  ids indexed in that cell with an event time after the earlier bound and up to and including the later bound, for
  every representable time including instants before 1970 and the helper extremes, listed from the latest event to the
  earliest; the several-cells form is the union without duplicates (in any order) and a cell of another level is refused.""",
  ["inputs", "histories", "configurations"], "all triples event/from/to over an adversarial set of instants x ids x cells x engines, all short histories",
  "One event queried with the widest range and one range that excludes it by two hours.",
  ["index/s2timeidx.go", "index/tools.go"],
  [("reverse timestamp key", "index/s2timeidx.go timePrefixKey, keyToValues"), ("range scan", "index/s2timeidx.go GeoTimeIdsAtCell")],
  ["GeoTimeIdsAtCell", "GeoTimeIdsAtCells"])
p("I05", "Region queries on cover indexes never miss a geometry",
  """Every indexed point, line or polygon that has any part within a query's radius or rectangle is returned by the
  radius query of the cover index and by the radius and rectangle queries of the time index (for events in the time
  range), exactly once; and every id returned belongs to a geometry whose cover meets the cells of the queried
  region.""",
  ["inputs", "histories"], "all pairs geometry x query region over a grid of placements (including poles, antimeridian, cube-face edges) and index levels",
  "One point and one 5 km radius.",
  ["index/s2idx.go", "index/s2timeidx.go", "index/geodata/tools.go"],
  [("covers at a fixed level on both sides", "index/s2idx.go GeoIdsRadiusQuery, index/s2timeidx.go")],
  ["GeoIdsRadiusQuery", "GeoTimeIdsRadiusQuery", "GeoTimeIdsRectQuery"])
p("I06", "Indexes sharing one store never see each other",
  """Indexes of any kind living in the same store under different prefixes, neither of which is a prefix of the other,
  return only what was indexed through them, never fail because of each other's entries, and never alter any other
  entry of the store. The caller's prefix, id and coordinates are not modified and may be reused after the call, even
  when the slices have spare capacity.""",
  ["histories", "configurations", "inputs"], "all interleaved histories of two or three indexes of all kinds over pairs of prefixes (adjacent bytes, 0xff, shared backing arrays)",
  "Every test has a single index in a fresh store.",
  ["index/s2idx.go", "index/s2pointidx.go", "index/s2timeidx.go"],
  [("prefix copy before append", "index/*.go key construction")],
  ["query results of every index", "full scan of the store", "caller's slices"])
p("I07", "Store faults surface as errors, without leaks or partial writes",
  """If the store refuses a reader, a writer or a batch to an index operation, the operation returns an error instead of
  panicking or claiming success, an indexing operation leaves either all of its entries or none, and a query never returns a partial result
  as complete. On every path each operation closes every reader and iterator it opened, iterators before their reader,
  and uses nothing it has closed.""",
  ["fault_sequences", "histories"], "every single failing store call (and pairs) in every index operation, over a strict store that tracks resources",
  "No test has a failing store or counts open readers.",
  ["index/s2idx.go", "index/s2pointidx.go", "index/s2timeidx.go"],
  [("error propagation", "index/*.go"), ("deferred closes", "index/*.go"), ("one batch per geometry", "index/*.go GeoIndex, GeoTimeIndex, PointIndex")],
  ["returned error", "open handle count", "contents after the call"])
p("I08", "Concurrent use of one index gives sequentially explainable results",
  """When several goroutines index and query through the same index objects on one store, every acknowledged insertion is
  stored under its own cell, time and id, and every query returns exactly what some sequential order of the calls would
  return; ids already returned to a caller never change afterwards. No two calls touch the same memory without
  synchronising.""",
  ["schedules"], "all interleavings, at statement granularity inside the index and store packages, of 2-3 threads with 1-2 index operations each, up to a preemption bound",
  "Every test is single threaded.",
  ["index/s2idx.go", "index/s2pointidx.go", "index/s2timeidx.go", "index/geodata/tools.go"],
  [("per-call key buffers", "index/*.go"), ("store isolation", "store/gtreap")],
  ["query results", "final contents"], hook="none in /repo: checks instrument a scratch copy of the source")

p("I09", "The answers of an index depend on its store's contents alone",
  """What was indexed through one index object is found by every index object of the same kind, prefix and level over the
  same contents: another object created before or after, one created after the store was closed and reopened, and one
  over a store of another engine holding a copy of the entries. When the contents are changed from outside - all entries
  deleted, or an earlier copy of the entries restored - every query, also through the old objects, answers from the
  contents as they now are, and indexing anew what had disappeared stores it again. Index objects keep nothing of their
  own between calls.""",
  ["histories", "configurations"], "all sequences up to a depth of insertions and queries through two objects, reopening, wiping, copying, restoring and moving to another engine, for every kind of index",
  "Every test makes one index object per store, inserts through it and queries through it.",
  ["index/s2idx.go", "index/s2pointidx.go", "index/s2timeidx.go", "index/tools.go"],
  [("stateless index objects", "index/s2*.go New*"), ("self-describing keys", "index/s2*.go keyToValues, valuesToKey")],
  ["all cell, radius and rectangle queries", "full scan"])
p("I10", "An acknowledged indexing call survives any crash, whole",
  """On the persistent engines (default, syncing configuration), once an indexing call has returned without an error all
  entries of the geometry are there after a crash at any later point; a call cut off by the crash, or answered with an
  error because the disk failed, leaves all of its entries or none, and everything indexed before stays. The store opens
  again and the indexes in it answer.""",
  ["crash points", "histories"], "all histories up to a depth of indexing calls of every kind, batches and reopenings; every crash point, subset of unsynced writes, torn write and failing disk operation in the last of them",
  "No test indexes into a persistent engine and reopens it, let alone after a crash.",
  ["index/s2idx.go", "index/s2pointidx.go", "index/s2timeidx.go", "store/boltdb/writer.go", "store/goleveldb/writer.go", "store/badger/writer.go"],
  [("one batch per indexing call", "index/s2*.go GeoIndex, GeoPointIndex, PointIndex, GeoTimeIndex"), ("synced batches", "*/writer.go ExecuteBatch")],
  ["contents after recovery"], hook="none in /repo: checks instrument scratch copies of the store packages and the engines")
p("G01", "A cover contains the whole geometry at the allowed levels",
  """The cover of a supported geometry contains every point of it - each vertex, each edge, and the interior of polygons,
  taken as the smaller side of the ring - uses only cells at levels the coverer allows, and does not balloon: for
  a fixed level every cell of the cover meets the geometry. This holds for any ring orientation, starting vertex,
  convexity, position on the globe, and for every part of a multi-polygon.""",
  ["inputs"], "all polygons/lines of a bounded grid at several scales and placements x coverer settings, judged by an independent geometric oracle",
  "Tests count the cells of three shapes.",
  ["index/geodata/tools.go", "index/geodata/loop.go"],
  [("ring orientation repair", "index/geodata/loop.go, tools.go coverPolygon"), ("coverer invocation", "index/geodata/tools.go")],
  ["GeoData.Cover", "GeoDataToCoverCellUnion"])
p("G02", "An interior cover lies inside the geometry",
  """Every cell of a polygon's interior cover lies completely inside the polygon (the smaller side of the ring), at the
  allowed levels, and the interior cover is contained in the ordinary cover; a line has no interior cells.""",
  ["inputs"], "the same bounded family of shapes and coverer settings as for covers",
  "Interior covers are never computed by a test.",
  ["index/geodata/tools.go"],
  [("interior flag", "index/geodata/tools.go geoDataCoverCellUnion, coverPolygon")],
  ["GeoData.InteriorCover"])
p("G03", "Covering is a pure function of the shape",
  """Computing a cover or a bounding rectangle never modifies the geometry it is given, gives the same answer every time,
  and gives the same cover for the same ring written in the other direction, from another starting vertex, or with the
  closing vertex repeated or omitted.""",
  ["inputs", "histories"], "all rotations, reversals and closings of every ring of the bounded family, covered repeatedly",
  "Tests compute each cover once and do not look at the input afterwards.",
  ["index/geodata/tools.go", "index/geodata/loop.go"],
  [("orientation normalisation on a copy", "index/geodata/loop.go, tools.go coverPolygon")],
  ["coordinates after the call", "cover equality"])
p("G04", "GeoJSON to GeoData conversions lose nothing",
  """Converting a supported GeoJSON feature to GeoData and back, with or without protobuf serialisation in between,
  preserves the geometry type, every longitude/latitude in order (outer ring for polygons; altitudes are dropped, never
  mistaken for coordinates), and every boolean, number and string property. What is unsupported is refused with an
  error and leaves the target's geometry untouched; a list of points becomes one line through them in order.""",
  ["inputs"], "all features over a bounded family of geometries, layouts (XY, XYZ, XYM, XYZM), ring counts and property values",
  "Three XY features are converted and compared; exports are only logged.",
  ["index/geodata/tools.go", "index/geodata/geodata.proto"],
  [("type mapping", "index/geodata/tools.go GeomToGeoData, GeoDataToGeom, PropertiesToGeoData, ToGeoJSONFeatureCollection, PointsToGeoJSONPolyLines")],
  ["GeoData fields", "re-exported GeoJSON"])
p("G05", "Malformed geometry is an error, never a panic or a silent insertion",
  """A missing geometry, an unknown type, too few or an odd number of coordinates, a coordinate that is not a finite
  number, or a ring with fewer than three distinct vertices given to covering, bounding, conversion, point-key or indexing functions yields an error - no panic, no endless loop, and
  nothing is stored.""",
  ["inputs"], "all geometry types x coordinate counts 0..9 x degenerate values x every entry point",
  "No test passes a malformed geometry.",
  ["index/geodata/tools.go", "index/geodata/loop.go", "index/s2idx.go", "index/s2pointidx.go", "index/s2timeidx.go"],
  [("input validation", "index/geodata/tools.go")],
  ["returned error", "store contents"])
p("G06", "Bounding rectangles contain their geometry",
  """Whenever a bounding rectangle is produced for a line or polygon it contains every vertex and every point of every
  edge (and for a polygon its interior) and is not larger than the geometry's own extent beyond rounding; geometries
  it cannot bound (such as a polygon over a pole) are refused with an error.""",
  ["inputs"], "the bounded family of shapes, judged by an independent computation of the extent",
  "Never tested.",
  ["index/geodata/tools.go", "index/geodata/loop.go"],
  [("GeoDataToRect", "index/geodata/tools.go")],
  ["GeoDataToRect"])

p("T01", "Every cell id notation parses to exactly that cell",
  """For every cell, its face/path notation, its token and its decimal id (when the text is not itself a token) all parse
  back to that cell; text that denotes no valid cell - wrong digits, a face or child out of range, a path deeper than
  the leaf level, an id that is not a cell - is rejected, never mapped to some other or invalid id, and never panics.""",
  ["inputs"], "all cells down to a depth and along deep paths, in all notations, and all short strings over the relevant characters",
  "Five strings.",
  ["s2tools/parse.go"], [("ParseCellID", "s2tools/parse.go")], ["ParseCellID"])
p("T02", "Cell set helpers compute exact set algebra",
  """The union helper returns every cell present in any input exactly once in ascending id order without merging or
  splitting cells, and the missing helper returns, in order, exactly the cells of the first set (given without repeats)
  that are not in the second; neither modifies its inputs.""",
  ["inputs"], "all tuples of small subsets (in any order) of a cell universe with parents, siblings and face cells",
  "Two fixed sets.",
  ["s2tools/cellunion.go"], [("CellUnionUnion, CellUnionMissing", "s2tools/cellunion.go")], ["returned unions", "inputs after the call"])
p("T03", "Cells are rendered to GeoJSON and tokens faithfully",
  """The GeoJSON for a list of cells has one polygon feature per cell, in order, whose closed ring is that cell's four
  corners in longitude/latitude and whose properties name the cell (token, decimal id, path, level); the token list
  names each cell in order.""",
  ["inputs"], "all cells down to a depth plus deep cells at corners, and all short lists",
  "One handler test looks at four ids.",
  ["s2tools/geojsoncells.go"], [("CellUnionToGeoJSON, CellUnionToTokens", "s2tools/geojsoncells.go")], ["decoded GeoJSON"])
p("T04", "The debug endpoints answer every request correctly or with 400",
  """The cell endpoint returns exactly the requested cells, in order, and the covering endpoint exactly the cover of the
  single posted feature at the requested levels (the minimum not above the maximum); every malformed request (unknown tokens, missing or out-of-range
  parameters, bad JSON, no or several features, unsupported or degenerate geometry) is answered with status 400, no
  request panics the server, and what is answered as JSON says so in its content type.""",
  ["inputs"], "all requests over a bounded alphabet of parameters and bodies",
  "One good request.",
  ["s2tools/handlers.go", "cmd/mapdebugger/main.go"], [("S2CellQueryHandler, GeoJSONToCellHandler", "s2tools/handlers.go")], ["HTTP status, content type and body"])

p("T05", "Conversions, covers and requests never affect one another",
  """Covers, interior covers, bounding rectangles, conversions, parsers, cell helpers and the debug endpoints answer every
  call with what they answer to it alone, whatever calls ran before and whatever calls - also on the same geometry,
  coverer or cells - run at the same time; an answer once given does not change under later calls, no call
  changes what it is given, and no two calls touch the same memory without synchronising.""",
  ["schedules", "histories"], "all interleavings, at statement granularity, of every two calls of an alphabet up to a preemption bound, and all short sequences of calls",
  "Every test makes one call at a time, and never two of a kind with different arguments.",
  ["index/geodata/tools.go", "index/geodata/loop.go", "s2tools/handlers.go", "s2tools/geojsoncells.go", "s2tools/parse.go", "s2tools/cellunion.go"],
  [("functions without state of their own", "index/geodata/tools.go, s2tools/*.go"), ("one coverer per request", "s2tools/handlers.go GeoJSONToCellHandler")],
  ["answers, when given and at the end", "answers given in a process of their own", "data race reports"], hook="none in /repo: checks instrument a scratch copy of the source")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        n = x["statement"].count(". ") + 1
        assert n <= 3, (x["id"], n)
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
