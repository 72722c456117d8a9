#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Search returns exactly the documents that contain a query term",
  "For every indexed corpus and every query, the result contains each document that has at least one of the query's terms in a queried field exactly once, and no other document. This holds on the in-memory and on the disk-backed store, for any cache capacity, for unknown fields and terms, for repeated terms, for several sub-queries, and for queries with many more terms or hits than the engine works on in parallel.",
  ["inputs", "histories", "configurations"],
  "Every indexing history up to the stated depth over small documents, fields and terms, every query of a fixed small family, both backends, cache capacities 0..3",
  "No test of the project calls search or index at all; the space of corpora x queries x backends is not sampled anywhere.",
  ["index/InvertedIndex.go", "search/Standard.go", "storage/Memory.go", "storage/DiskStorage.go"],
  [("union of the postings of all query terms, deduplicated", "index/InvertedIndex.go Search"),
   ("score map keyed by document id, merged over sub-queries", "search/Standard.go Search")],
  [("postings", "term -> set of document ids per field", "storage/*.go index")],
  ["search.Standard.Search", "index.InvertedIndex.Search"])

p("C02", "Scores are the BM25 of the corpus and results are ranked by them",
  "Each returned score equals the sum, over the sub-queries and their terms (with multiplicity), of boost x BM25 with k1=1.2 and b=0.75, computed from the number of documents that have the field, their mean field length, the number of them containing the term, and the document's own term frequency and field length; a boost of 0 counts as 1 and boosts are not negative. Scores are finite and never negative, and results come in non-increasing score order.",
  ["inputs", "histories", "configurations"],
  "Every indexing history up to the stated depth, every query of a fixed family with boosts 0, 1, 2 and 0.5, both backends",
  "The scoring, ranking and metric code has no test; agreement with a formula over all corpora is a for-all statement.",
  ["similarity/BM25.go", "metric/IDF.go", "metric/TF.go", "search/Standard.go", "index/InvertedIndex.go"],
  [("BM25 with corpus statistics taken from the store", "similarity/BM25.go"), ("sort by descending score", "search/Standard.go")],
  [], ["search.Standard.Search", "similarity.BM25", "metric.IdfBM25", "metric.TermFrequency"])

p("C03", "A search ends with the same result under every goroutine schedule",
  "Whatever order the engine's internal goroutines run in, a search over an unchanging corpus always terminates, never fails, never touches shared memory without synchronisation, and returns the same documents with the same scores (up to floating-point rounding). This includes queries with no terms, with more terms than the engine's concurrency limit, and with several sub-queries, and several searches running at once, also when the document cache is too small for the hits.",
  ["schedules"],
  "All interleavings, up to a stated deviation bound, of the goroutines started by one or two searches on small corpora, on both backends",
  "Tests see one schedule per run, and none runs a search.",
  ["index/InvertedIndex.go", "search/Standard.go", "storage/DiskStorage.go", "cache/LRU.go"],
  [("semaphore and result channels, wait groups that close them", "index/InvertedIndex.go Search"), ("per-query goroutines joined by a wait group", "search/Standard.go Search"), ("LRU lock", "cache/LRU.go")],
  [], ["search.Standard.Search"])

p("C04", "Saving a document's field again replaces its earlier version",
  "After a document's field has been saved again with new content, both stores behave as if only the latest version had ever been saved: field statistics, per-term document counts, term postings and stored fields count the document once and reflect only the latest content, other fields and documents are untouched, and a search for a term that only the old version contained no longer returns the document. On the disk store this also holds across reopening.",
  ["histories", "configurations"],
  "Every history, up to the stated depth, of saves with repeated document and field, on both backends, with and without a reopen between the saves",
  "Tests save every document exactly once.",
  ["storage/Memory.go", "storage/DiskStorage.go", "index/InvertedIndex.go"],
  [("SaveOrUpdate", "storage/Memory.go, storage/DiskStorage.go")],
  [("per-field size and length, per-term counts", "absolute counters", "storage/*.go")],
  ["Storage.GetFieldSize", "Storage.GetFieldLength", "Storage.GetNumberFieldTerm", "Storage.GetDocuments", "Storage.GetFields", "search.Standard.Search"])

p("C05", "Both stores answer every query as the saved documents define it",
  "After any sequence of saves of distinct document fields, each store reports for every field the number of documents having it, the sum of their lengths, the number of documents per term, for every term exactly the ids of the documents whose field contains it, and for any id list exactly the stored fields of the known ids, with the values that were saved; unknown fields, terms and ids yield zero or nothing. The in-memory and the disk-backed store give identical answers at every moment, and what a caller does with a returned collection (the maps, sets and field records it gets; term-frequency maps inside returned field records are the store's own and are for reading only) or with a value it passed in does not change later answers.",
  ["histories", "inputs", "configurations"],
  "Every save sequence up to the stated depth over small ids, fields and term-frequency maps; every getter after every step; both backends; cache capacities 0..3",
  "Tests check three fixed documents and a handful of terms on each backend; they never compare the backends nor vary history.",
  ["storage/Memory.go", "storage/DiskStorage.go", "storage/Storage.go", "model/Set.go"],
  [("counter, posting and field-document updates in one save", "storage/Memory.go SaveOrUpdate, storage/DiskStorage.go SaveOrUpdate")],
  [], ["Storage interface"])

p("C06", "Concurrent use of a store is race-free and loses no save",
  "When several goroutines save into and read from one store at the same time, no access is a data race, nothing panics or deadlocks, every read returns values that some sequential order of the operations explains, and afterwards the store reports exactly what the completed saves, applied one after the other, define. This holds for both stores, including saves of different fields of one document, additions of postings alone (UpdateIndex), and readers that iterate over what they were given.",
  ["schedules"],
  "All interleavings, up to a stated deviation bound, of two or three goroutines with one or two operations each, that share fields, terms and documents, including the disk store's background goroutines",
  "Tests use one goroutine; go test -race samples single schedules.",
  ["storage/Memory.go", "storage/DiskStorage.go", "cache/LRU.go", "model/Set.go"],
  [("store mutex and copies of returned collections", "storage/*.go"), ("LRU lock", "cache/LRU.go")],
  [], ["Storage interface"])

p("C07", "A search sees a whole-document snapshot of concurrent indexing",
  "When documents are indexed while single-field searches run, every search result (documents and scores) equals the result on a corpus that holds every document whose indexing had returned before the search began, none whose indexing began after the search ended, and each overlapping one either completely or not at all; in particular scores are finite and non-negative. A document is found by every search that starts after its indexing has returned.",
  ["schedules"],
  "All interleavings, up to a stated deviation bound, of one or two IndexDocument calls with one or two searches, on both backends, starting from empty and from non-empty indexes",
  "No test indexes and searches concurrently (none searches at all).",
  ["index/InvertedIndex.go", "search/Standard.go", "storage/Memory.go", "storage/DiskStorage.go"],
  [("index-level reader/writer lock around IndexDocument and Search", "index/InvertedIndex.go")],
  [], ["index.Index.Search", "index.Index.IndexDocument", "search.Standard.Search"])

p("C08", "The document cache's capacity never changes an answer",
  "For every history of saves, pauses, reads and reopenings, a disk store with any cache capacity, including zero and capacities smaller than the number of live documents, gives the same answers as one with an unlimited cache: a document's stored fields stay complete and current whether it is cached, evicted before it was written, or only on disk. Adding a field to a document that is no longer cached keeps its other fields.",
  ["histories", "configurations"],
  "Every history up to the stated depth of saves to 2-3 documents and 2 fields, reads, flush pauses and reopens, for cache capacities 0, 1, 2 and unlimited",
  "The tests use capacity 5 or more with three documents, so nothing is ever evicted before it is written.",
  ["storage/DiskStorage.go", "storage/DiskIO.go", "cache/LRU.go"],
  [("cache lookup, then unwritten documents, then disk", "storage/DiskStorage.go GetFields, UpdateFieldDocument")],
  [("fieldDocumentCache", "LRU of documents' field maps", "storage/DiskStorage.go")],
  ["Storage.GetFields", "search.Standard.Search"])

p("C09", "What has been saved and flushed survives reopening, unchanged",
  "After any sequence of saves and pauses spread over any number of sessions, a disk store that is left idle for one flush-and-merge period (20 s) and then opened again from its folder gives the same answers to every getter and search as before closing: postings, stored fields, sizes, lengths and per-term counts. It makes no difference how saves are distributed over flush periods and sessions, or whether background merging ran in between.",
  ["histories"],
  "Every history up to the stated depth of saves, pauses that straddle the flush and merge periods differently, and reopenings",
  "Tests index everything within one flush period, then reopen once.",
  ["storage/DiskIO.go", "storage/DiskStorage.go", "storage/Serialize.go", "file/File.go"],
  [("periodic flush of each structure", "storage/DiskIO.go Save*OnDis*"), ("fragment merge", "storage/DiskIO.go LoadIndexOnHD"), ("load on open", "storage/DiskStorage.go NewDiskStore")],
  [("fragment files", "postings since the last flush", "<root>/<field>/temp"), ("nfterm, metrics, index, docs/metrics/<id>", "durable state", "<root>")],
  ["storage.NewDiskStore", "Storage interface"])

p("C10", "A crash never makes the store unopenable or loses flushed data",
  "If the process dies at any moment, including in the middle of writing any file, of merging, or of opening the store again, the next open succeeds and everything that was saved at least 20 idle seconds before the crash is still there: postings, stored fields and statistics. What the reopened store reports was really saved: no posting, field or term is invented, each stored field is one saved version, and each statistic has a value it held at some moment between the last completed flush and the crash; the store is fully usable afterwards, and the scores of searches stay finite and non-negative.",
  ["crash_points", "histories"],
  "Every crash point (before and after each file-system mutation, and torn versions of each file write) of short histories of saves, flushes and merges, and every second crash point during recovery",
  "Tests never crash the process; a crash needs a specific instruction to hit.",
  ["file/File.go", "storage/DiskIO.go", "storage/DiskStorage.go"],
  [("write to temporary name, then rename", "file/File.go SecureSaveFile"), ("fragments deleted only after the merged index is in place", "storage/DiskIO.go LoadIndexOnHD")],
  [], ["storage.NewDiskStore", "Storage interface"])

p("C11", "Background flush and merge never break or disturb a running store",
  "While the disk store flushes, writes posting fragments and merges them in the background, in any relative timing among these tasks and with saves and reads going on, no background task fails or stops the process, no memory is shared without synchronisation, readers of the store keep getting the current answers, and no posting, stored field or statistic is missing from disk once everything has been flushed and merged. Merging any number of times, with any number of fragments, is idempotent.",
  ["schedules", "histories"],
  "All interleavings, up to a stated deviation bound, of the five background goroutines, their file operations and timers with short save/read histories",
  "Timers of 5, 7, 10, 13 and 15 s coincide only after minutes; tests sleep 20-30 s and see one timing.",
  ["storage/DiskIO.go", "storage/DiskStorage.go", "file/File.go"],
  [("fragments become visible to the merge only when complete", "storage/DiskIO.go SaveIndexOnDisk"), ("per-flusher buffers", "storage/DiskIO.go")],
  [], ["Storage interface", "storage.LoadTermDocumentsFromIndex", "storage.NewDiskStore"])

p("C12", "Replacing a file is all-or-nothing at every instant",
  "While a file is being replaced through the safe-save routine, a reader at any moment finds under its name either the complete previous content (or no file, if there was none) or the complete new content; the same is found after the process dies at any point of the replacement, and a later save still succeeds and leaves exactly the new content. Saving a file never disturbs any other file of the folder, and a save that has completed leaves no file of its own behind besides the one saved.",
  ["crash_points", "schedules", "histories"],
  "Every crash point and torn write of every sequence of up to three saves (including leftovers of earlier crashes), and every interleaving of a save with a reader, for contents from empty to several blocks",
  "Tests cannot stop between two renames, and never read during a save.",
  ["file/File.go"],
  [("temporary file and rename", "file/File.go SecureSaveFile")],
  [], ["file.SecureSaveFile", "file.ReadFileOnDisk", "file.Exists"])

p("C13", "Every stored structure decodes to exactly what was encoded",
  "For every index, field map, per-term count table and field metric, decoding the encoding gives back an equal structure, also through compression: no entry is lost, duplicated, mixed up or truncated, for empty maps, empty strings, arbitrary byte strings, zero and large 32-bit counts, and any number of entries. Encoding does not change its input, and decoded structures share nothing with each other.",
  ["inputs"],
  "Every structure up to the stated number of entries over an alphabet of boundary keys and values",
  "Tests round-trip three documents with short ASCII terms.",
  ["storage/Serialize.go", "file/File.go", "storage/buffers"],
  [("flatbuffers encoders and decoders", "storage/Serialize.go"), ("gzip", "file/File.go CompressData, DecompressData")],
  [], ["storage.Serialize*", "storage.Deserialize*", "file.CompressData", "file.DecompressData"])

p("C14", "Ids and field names are opaque: no collisions, nothing outside the root",
  "Documents and fields stored on disk under distinct names never overwrite, hide or mix with each other and survive reopening, whatever bytes the names contain: path separators, dot names, spaces, percent signs, the empty name, the store's own file and folder names and their temporary-file suffixes, and document ids longer than a file name may be (field names need only work as long as they fit a file name once escaped: up to 80 arbitrary bytes). The store never creates, changes, reads or removes anything outside its root folder because of a name, and never fails because of one.",
  ["inputs", "histories"],
  "Every ordered pair of names from an alphabet of hostile document ids and field names (field names up to 80 bytes), saved, flushed, updated and reopened",
  "Tests use ids 1..5 and three plain field names.",
  ["storage/DiskIO.go", "file/File.go"],
  [("mapping of names to file names", "storage/DiskIO.go, file/File.go")],
  [], ["storage.NewDiskStore", "Storage interface", "file system"])

p("C15", "The LRU cache is an atomic map that keeps the most recently used keys",
  "For every sequence of puts and gets, the cache holds at most its capacity of entries, and these are exactly the most recently used keys (a get or put of a key is a use); a get returns the last value put for a held key and reports a miss otherwise, and a value it returned never changes afterwards. Under concurrent use it behaves as if each operation took place atomically at one instant, without data races, corruption or panics.",
  ["histories", "schedules", "configurations"],
  "Every operation sequence up to the stated depth over 3-4 keys and capacities 0..3, and every interleaving of 2-3 goroutines with 1-2 operations each",
  "The LRU cache has no test of its own, and Get mutates the recency list.",
  ["cache/LRU.go"],
  [("lock, recency list and map kept in step", "cache/LRU.go")],
  [("pages", "recency list", "cache/LRU.go")], ["cache.LRUCache.Get", "cache.LRUCache.Put"])

p("C16", "Buffered maps (RCU, SyncMap) publish every put, in order, never torn",
  "In the RCU and SyncMap caches, a value that was put is visible to every reader after the next refresh (at most 3 s after the writer took it), the last put of a key wins, keys that are not put again keep their value, and puts never block forever. A reader only ever sees values that were put, never goes back from a newer to an older value of a key, and reads are free of data races.",
  ["schedules", "histories"],
  "Every sequence of puts and refreshes up to the stated depth, and every interleaving, up to a deviation bound, of two writers, a reader and the refresh",
  "TestRcu checks two refreshes of one writer; SyncMap has no test and schedules are not explored.",
  ["cache/RCU.go", "cache/Map.go"],
  [("copy of the map published atomically by a single writer goroutine", "cache/RCU.go writer, cache/Map.go writer")],
  [("buffer", "puts since the last refresh", "cache/*.go writer")], ["cache.RCU", "cache.SyncMap"])

p("C17", "Sharded map: every key has one fixed shard and atomic entries",
  "For every number of shards from one up and every key, the same key always leads to the same shard, and looking up never fails or yields a missing shard; entries set under one key are never visible under another, a get returns the last value set and a previously returned value does not change. Concurrent sets and gets behave atomically and without data races.",
  ["inputs", "histories", "schedules", "configurations"],
  "Every key of a boundary alphabet for 1..64 shards, every operation sequence up to the stated depth, every interleaving of 2-3 goroutines with 1-2 operations each",
  "TestShard uses three shards and four one-letter keys from one goroutine.",
  ["cache/Shard.go", "cache/LocalMap.go"],
  [("hash modulo number of shards", "cache/Shard.go getShardId"), ("RWMutex around the map", "cache/LocalMap.go")],
  [], ["cache.Shard.Get", "cache.LocalMap.Set", "cache.LocalMap.Get"])

p("C18", "Text analysis yields the right terms for every text and every schedule",
  "For every text, the analysis (split at every character that is not a letter, number or apostrophe; lower-case; drop the language's stop words; English stemming; strip accents) never fails and yields exactly the non-empty terms these steps define, in text order, whatever order its goroutines run in; each filter maps the list it is given term by term without depending on neighbours or on earlier or concurrent calls. Term counting gives every distinct term its number of occurrences.",
  ["inputs", "schedules"],
  "Every text up to the stated length over an alphabet of letters, accents, digits, apostrophes, separators and stop words; every interleaving of the stemming goroutines for up to three words, and of two concurrent analyses",
  "Tests analyse three short English sentences.",
  ["tokenizer/Standard.go", "filter/Lowercase.go", "filter/StopWords.go", "filter/Stemmer.go", "filter/ASCII.go", "language/Language.go", "metric/TF.go", "main.go"],
  [("pipeline of filters", "main.go Preprocessing"), ("one goroutine per word writing its own slot", "filter/Stemmer.go")],
  [], ["tokenizer.Standard.Tokenize", "filter.Filter.Process", "metric.TermFrequency", "Preprocessing"])

p("C19", "Flattening a JSON document keeps every value under its dotted path",
  "For every JSON object, parsing and flattening yields exactly one entry per leaf value (scalar, null or array), keyed by the dot-joined path of its object keys and holding the unchanged value, provided no two leaves have the same dotted path; the input is not modified and the result does not depend on map order. The document id is the top-level Id: a string verbatim, a number in plain decimal form (for numbers that double precision represents exactly), and empty if absent or null.",
  ["inputs"],
  "Every JSON object up to the stated depth and width over a small alphabet of keys and leaf values, under different map iteration orders",
  "Tests flatten three flat documents with string ids.",
  ["field/FieldProcess.go"],
  [("recursive flattening with path prefix", "field/FieldProcess.go recFlatten"), ("id lookup", "field/FieldProcess.go GetID")],
  [], ["field.StringToObject", "field.Flatten", "field.GetID"])

p("C20", "The HTTP service indexes what it accepts and answers every search",
  "Every well-formed document with an id that is posted is answered 201 and is found, under that id, by every later search for a word of its title or text; malformed or id-less posts are answered 400 and change nothing. Every search is answered 200 with the best hits in rank order, at most ten of them, with their BM25 similarity, and with the number of hits it returns, for any number of matching documents from none up; requests running at the same time never fail, race or lose a document. A service that died at any moment answers in this way again once it is started, with finite, non-negative similarities, and finds the documents accepted at least 20 idle seconds before.",
  ["histories", "inputs", "schedules"],
  "Every request sequence up to the stated depth over small documents and queries, hit counts 0..12, and all interleavings, up to a deviation bound, of two or three concurrent requests",
  "main has no test at all.",
  ["main.go"],
  [("handlers", "main.go main"), ("analysis shared by both handlers", "main.go Preprocessing")],
  [], ["POST /nir", "GET /nir"])

p("C21", "A failing file operation destroys nothing and is never ignored",
  "When a file operation fails (disk full, I/O error; a failing write may have been half done), nothing that was durable is lost. Replacing a file safely reports an error unless the new content is completely there; the name holds the complete old or the complete new content, other files keep theirs, and a later replacement succeeds. A disk store one of whose file operations fails either refuses to open, stops, or goes on with answers that are still those of the saved documents; whatever it does, the store opens again once the disk works, with everything that was flushed before the failure and nothing invented, and if the process went on through a later idle period with a working disk, with everything that was saved.",
  ["fault_sequences", "crash_points", "histories"],
  "Every single file operation, and every pair (quick: of changing operations), of the replacement routine and of a set of store histories failing in turn, combined with a crash at every later point for the shorter histories",
  "Tests run on a disk that never fails; which of the hundreds of file operations fails decides what can be lost.",
  ["file/File.go", "storage/DiskIO.go", "storage/DiskStorage.go"],
  [("errors of file operations end the process or are returned", "storage/DiskIO.go"), ("write to a new file, then rename", "file/File.go")],
  [("on-disk folder", "fragments, index, nfterm, metrics and document files", "the store's root folder")],
  ["file.SecureSaveFile", "storage.NewDiskStore", "Storage interface"])

p("C22", "Work leaves nothing behind: goroutines, files and memory do not pile up",
  "However often it is repeated and however its goroutines are scheduled, a search, an analysis, a cache operation, a save, a safe file replacement or an HTTP request leaves no goroutine behind once it is over. A disk store that has been idle for 31 s has no more files than one in which its current documents were saved just once (and at most half as many bytes again), whatever saves, pauses and reopenings led there; saving the same documents again and again lets neither files nor goroutines nor the memory held by the store, the caches and the engine grow, and a cache of capacity c holds no more than c entries' memory.",
  ["histories", "schedules", "configurations"],
  "Every schedule within a deviation bound of the listed operations on both backends; every history of saves, pauses and reopenings up to the stated depth; up to hundreds of rounds",
  "Leaks need a particular interleaving or many rounds to show; no test counts goroutines, files or memory.",
  ["index/InvertedIndex.go", "search/Standard.go", "storage/DiskIO.go", "storage/DiskStorage.go", "cache/LRU.go", "cache/Map.go", "cache/RCU.go", "filter/Stemmer.go", "file/File.go", "main.go"],
  [("channels closed after the wait group", "index/InvertedIndex.go Search, search/Standard.go Search"), ("fragments deleted once merged", "storage/DiskIO.go LoadIndexOnHD"), ("eviction", "cache/LRU.go"), ("pending documents released after their flush", "storage/DiskStorage.go")],
  [("goroutines of the process", "live goroutines", "runtime"), ("on-disk folder", "fragments, index, nfterm, metrics and document files", "the store's root folder")],
  ["search.Standard.Search", "Storage interface", "cache package", "POST /nir", "GET /nir"])

p("C23", "Stores, engines, caches and analyses are independent of one another",
  "Two stores in one process (both in memory, one on disk, both on disk in different folders, whatever the names of the folders and ids) each answer exactly as their own history defines, running and after reopening in any order; so do two engines over different stores, two caches of any kind, two sets and two analyses. Using two instances at the same time needs no synchronisation by the caller: it never races, fails or mixes their data.",
  ["histories", "schedules", "configurations"],
  "Every sequence of operations up to the stated depth over two instances holding different content under the same names; every interleaving within a deviation bound of concurrent work on two instances",
  "Tests never have two instances of anything; shared state shows only when both are used in a particular order.",
  ["storage/Memory.go", "storage/DiskStorage.go", "storage/DiskIO.go", "index/InvertedIndex.go", "search/Standard.go", "cache/LRU.go", "cache/Map.go", "cache/RCU.go", "cache/LocalMap.go", "cache/Shard.go", "model/Set.go"],
  [("all state in the instance", "constructors New*")],
  [], ["Storage interface", "search.Standard.Search", "cache package", "model.Set"])

p("C24", "Steady load does not delay durability: what is 20 s old is on disk",
  "However densely and in whatever pattern documents are saved, without any idle period: at every moment, everything saved at least 20 s ago is on disk. If the process ends or dies at any moment, the next opening finds each document field in the version that was current 20 s before the end or a newer one, the postings of all terms these have in common, statistics each with a value held within those 20 s, and nothing that was never saved.",
  ["histories", "crash_points"],
  "Every pattern x spacing of a list of save streams; the process ends at every half second over several flush and merge periods, or dies before every file operation and within every write; repeated in a second session",
  "Tests save once and wait; starvation or postponement of a flush needs a particular rhythm of saves, and shows only after a restart.",
  ["storage/DiskIO.go", "storage/DiskStorage.go"],
  [("periodic flush loops that keep receiving", "storage/DiskIO.go Save*OnDisk")],
  [("buffers of the flush tasks", "what is not on disk yet", "storage/DiskIO.go")],
  ["storage.NewDiskStore", "Storage interface"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
