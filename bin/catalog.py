#!/usr/bin/env python3
"""The properties, in one place; writes properties.jsonl and MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe)))


TV = "TLA+ specification model-checked with TLC; traces recorded from the real code validated against it by TLC"
NOTE = ("The design is checked exhaustively for the small constants of the .cfg; the code is bound to it by validating every event of the "
        "recorded traces, so what is claimed of the code is what these executions covered. ")

p("C01", "Page allocation: distinct pages, exact free list, contents kept",
  "At every moment no two live pages share storage: an allocated page is whole, page-aligned, distinct from every live page and from the first page, and a freed page is handed out again before the file grows. Writing or allocating a page changes no other live page, and the set of free pages and all contents survive reopening the file. A page number that is not a live page can't be freed, and a file that is not made of whole pages is refused untouched.",
  ["histories", "configurations"], "every sequence of allocations, writes, frees (including more than the directory holds), reopenings; every file length when opening",
  "The tests free one or two pages and never go around the ring of free pages, nor combine frees with reopening.",
  ["pkg/pagefile/pagefile.go"], [("free page directory kept as a ring and written through on each change", "pkg/pagefile/pagefile.go: NewPage, FreePage, writeFreePageIndices")],
  TV + " (PageFile, refinement PageRing)", NOTE + "Trusts an in-memory file for the storage.")
p("C02", "The memory mapped file behaves like a plain file",
  "Reads, writes, seeks and positioned accesses through the memory mapped file return what the same calls on a byte array of the file's content return: the same bytes and counts, an error or end-of-file exactly where the request leaves the file, growth exactly when a write goes past the end. The bytes visible in the mapping and in the file on disk are the array's after every call. A file opened for reading only refuses every write and stays as it is; a closed file is not read or written anymore; what cannot be mapped (a directory, a missing file) is refused when opening. No argument makes a call panic or crash.",
  ["inputs", "histories"], "every sequence of calls with every offset, whence and length, on empty and non-empty files, open for writing, for reading only, or closed",
  "The tests append and read back a few fixed buffers.",
  ["pkg/mmap/mmap.go"], [("mapping moved on growth, position kept in the struct", "pkg/mmap/mmap.go: Read, ReadAt, Write, WriteAt, Seek, Truncate")],
  "TLA+ specification explored exhaustively with TLC; every transition replayed on the real mmap file (model-generated tests) plus random traces validated by TLC",
  NOTE + "Every transition of the model (files up to a few bytes) is performed on a real mapped file.")
p("C03", "The B+ tree is a persistent ordered map",
  "After any sequence of insertions the tree holds exactly the inserted keys with the pointers given, in value order and then by position in the data, each exactly once; inserting a key that is present is refused and changes nothing. A lookup finds the first entry not less than what is asked for, and membership is reported exactly for stored values. The stored pages form a balanced search tree, none larger than a page, sharing none, and reopening the file gives the same tree.",
  ["histories", "inputs", "configurations"], "every insertion order, duplicates, value sizes, inline and referenced values, tree depths, reopen points",
  "The tests insert in a few orders and check single lookups; leaf boundaries, equal values, splits of inner nodes and reopening are sampled thinly.",
  ["pkg/bptree/bptree.go", "pkg/bptree/node.go", "pkg/pointer/referenced_value.go"], [("split in the middle, both halves to new pages, separator to the parent", "pkg/bptree/bptree.go: Insert"), ("binary search by value then pointer", "pkg/bptree/bptree.go: traverse; pkg/pointer/referenced_value.go")],
  TV + " (BPTree, page-level algorithm BPTreeImpl)", NOTE)
p("C04", "Iterating the tree visits exactly the entries, in order, both ways",
  "An iterator started at any key yields, moving forward, every entry not less than it in order and each once, and moving backward every smaller entry in reverse; at either end it reports the end and stays there without an error. Any interleaving of forward and backward steps is a walk over the same sequence: turning around gives the neighbour of the last position. A step at which the storage fails reports an error and leaves the iterator where it was: made again, it goes on from there.",
  ["histories", "inputs"], "every tree shape, start key and sequence of forward and backward steps",
  "The tests walk forward or backward over small trees only from fixed starts and never turn around at the ends or leaf boundaries.",
  ["pkg/bptree/bptree.go"], [("path of (node, index) records with rollover into the parent", "pkg/bptree/bptree.go: TraversalIterator, increment")],
  TV + " (IterImpl refines the plain walk)", NOTE)
p("C05", "A failing storage access is reported, never silently absorbed",
  "When any single read, write or seek of the storage fails during an operation of the index or the vector store (opening, allocating, inserting, looking up, iterating, changing metadata, synchronising, storing a vector with its friends), the operation returns an error: it neither panics, nor reports success, nor answers from missing data. A failed read-only operation leaves the stored bytes untouched and the same operation succeeds once the storage works again. A failed insertion into a B+ tree or the vector tree leaves the tree as it was or with the new key in addition, and the tree then takes that and other insertions as if nothing had failed; after a failed synchronisation the next one completes the index.",
  ["fault_sequences"], "every storage access of every operation as the failing one",
  "The tests have no fault injection: a swallowed error looks like an empty tree or the end of a list.",
  ["pkg/bptree/bptree.go", "pkg/pagefile/pagefile.go", "pkg/linkedpage/linkedpage.go", "pkg/appendable/index_file.go"], [("errors passed up from every access", "all callers of Read/Write/Seek")],
  "TLA+ fault model (Faults) checked with TLC; exhaustive single-fault injection traces validated by TLC", NOTE + "Faults are injected at the pager and file interfaces.")
p("C06", "The vector store is a map from ids to vectors",
  "After any sequence of insertions every stored id gives back exactly the vector and pointer stored with it, bit for bit, an id that was not stored gives no vector, and inserting a stored id again, or a vector of another dimensionality, is refused and changes nothing. The stored pages form a search tree in numeric order of ids, none larger than a page, every page is in the tree or free, and reopening gives the same content.",
  ["histories", "inputs", "configurations"], "every insertion order and id range, vector widths, float values, reopen points",
  "The tests store a handful of ascending ids and read back almost none.",
  ["pkg/btree/btree.go", "pkg/btree/node.go"], [("B-tree insertion with inlined vectors", "pkg/btree/btree.go: Insert, Find")],
  TV + " (BPTree/BPTreeImpl over numeric ids)", NOTE)
p("C07", "Metadata slots: growing a list never disturbs what is stored",
  "The slots of a meta list keep, across growth over any number of pages and reopening, exactly the metadata and root pointer last stored in each; writing one slot changes no other. Walking from the head visits every slot once in the order of creation, the list is extended only at its end, and metadata that doesn't fit is refused without a change.",
  ["histories", "inputs"], "every sequence of adding slots, setting and reading metadata and roots, walking and reopening, metadata lengths from 0 to beyond the limit",
  "The tests add a few slots in one page and use short metadata.",
  ["pkg/linkedpage/linkedpage.go"], [("fixed slots per page, next pointer", "pkg/linkedpage/linkedpage.go: Next, AddNext, SetMetadata, SetRoot")],
  TV + " (MetaList, page-level MetaListImpl)", NOTE)
p("C08", "The index catalogue: one index per field and type, stable on reopening",
  "Every (field name, type) has at most one index; asking for one that exists finds it, with its metadata and tree, and asking for a new one appends it, so that order, names, types, widths, totals and roots survive any later operation and reopening. The list of field names is the distinct names in order of creation. A file is opened only with the version and format it was created with, and any stored bytes that are not a valid record are refused with an error and without a change.",
  ["histories", "inputs", "configurations"], "every sequence of lookups and creations over names and types, updates and reopenings, name lengths, damaged metadata",
  "The tests create single indexes; collisions of names across types, page overflow and invalid metadata are not reached.",
  ["pkg/appendable/index_file.go", "pkg/appendable/appendable.go"], [("linear search over the slots, appended at the end", "pkg/appendable/index_file.go: FindOrCreateIndex"), ("versioned file record", "pkg/appendable/index_file.go: NewIndexFile")],
  TV + " (Catalogue)", NOTE)
p("C09", "A JSONL index holds exactly the fields of the data",
  "After synchronising, the index of every (dotted field path, type) holds exactly one entry for each occurrence of that field in the complete lines of the data file, with the decoded value and the line it is in, and nothing else; a search field has in addition exactly the unigram, bigram and trigram entries of its strings. The list of indexes is exactly the (path, type) pairs in order of appearance, with their totals. Looking a value up returns exactly the records that contain it.",
  ["inputs", "configurations"], "every JSON object per line: nesting, repeated and dotted keys, all value types, escapes, white space, arrays to any depth, mixed types, any search field list",
  "The tests index a few hand-written lines and mostly check counts of indexes.",
  ["pkg/handlers/jsonl.go", "pkg/appendable/index_file.go", "pkg/ngram/tokenizer.go"], [("token stream walk", "pkg/handlers/jsonl.go: handleJSONLObject")],
  "TLA+ specification of the index content as a function of the records (JSONLIndex, NGram), protocol model Sync checked with TLC; recorded index contents validated by TLC",
  NOTE + "The generator writes the JSON itself, so expected values don't come from a parser.")
p("C10", "Synchronising in steps equals indexing at once",
  "However an append-only data file is split over successive synchronisations, with whatever torn last line each of them sees and whether or not the index was reopened between them, the index holds the same content as one made at once from the same complete lines; the recorded offset is the end of the last complete line and the entry count the number of lines. A line that is not yet terminated is not indexed, and synchronising with nothing new leaves the index file unchanged.",
  ["histories", "inputs"], "every data file and every sequence of points at which it is synchronised, reopening or not, in memory and memory mapped",
  "The tests synchronise once, or twice at line boundaries.",
  ["pkg/handlers/jsonl.go", "pkg/appendable/index_file.go"], [("watermark persisted in the file record", "pkg/handlers/jsonl.go: Synchronize")],
  TV + " (Sync)", NOTE + "Compared with indexes made at once by the same code, which C09 checks absolutely.")
p("C11", "A record that cannot be indexed is refused whole",
  "When synchronisation meets a line that cannot be indexed (not an object, malformed at any point, anything behind the object, a number out of range, a field name too long), it returns an error without panicking and the index holds exactly the lines before it, with the offset at that line. Once the line is repaired the next synchronisation goes on and completes. A data file shorter than what is indexed is refused and changes nothing.",
  ["inputs", "histories"], "every kind of fault at every line and position, repairs, repeated attempts, truncated data",
  "The tests check that an error is returned for one or two malformed lines, not what is left behind.",
  ["pkg/handlers/jsonl.go"], [("record validated before its fields are inserted; progress persisted on error", "pkg/handlers/jsonl.go: Synchronize, validateJSONLObject")],
  TV + " (Sync: RefusedAtBad)", NOTE)
p("C12", "A killed synchronisation loses nothing and is completed by the next",
  "If a synchronisation is killed between any two writes to the index file, the file can still be opened and read: it holds all entries indexed before, no entry that is not in the data and none twice, and its recorded offset is the old or, only if everything is indexed, the new one. The next synchronisation succeeds and completes the index, also when it is itself killed and repeated, and when in between the data grew, ends in a torn line, or holds a line that is refused and later repaired. So it is for JSON Lines and for CSV data.",
  ["crash_points", "histories"], "every write of a synchronisation as the last one, from an empty or existing index, repeated kills",
  "The tests never interrupt a synchronisation.",
  ["pkg/handlers/jsonl.go", "pkg/bptree/bptree.go", "pkg/appendable/index_file.go", "pkg/linkedpage/linkedpage.go"], [("file record written last; keys already present are passed over; unnamed slots reused", "pkg/handlers/jsonl.go, pkg/appendable/index_file.go: FindOrCreateIndex, NewIndexFile")],
  TV + " (Sync with crashes); crash points at every write boundary", NOTE + "A write call is taken to be atomic and writes to reach the file in order (process kill, not power loss).")
p("C13", "Every entry points at the text of its value",
  "The place an index entry records for its value lies inside the entry's record and is exactly the text of that field's value: read on its own it decodes to the indexed value, and no two entries of an index share a place.",
  ["inputs"], "every JSON layout: white space around colons, commas and braces, escapes, nesting, offsets of any size",
  "The tests use compact JSON only, where the value starts right after the colon.",
  ["pkg/handlers/jsonl.go"], [("value offset from the decoder's position", "pkg/handlers/jsonl.go: handleJSONLObject"), ("values read back from the data file", "pkg/bptree/node.go: UnmarshalBinary; Parse")],
  TV + " (LocTrace over JSONLIndex)", NOTE)
p("C17", "The distance heap is a double-ended priority queue by id",
  "After any sequence of operations the heap holds exactly the ids inserted and not taken out, each with the distance last given to it: looking at or taking the minimum (maximum) yields an id whose distance none is smaller (larger) than, on an empty heap an error. Inserting an id that is present changes its distance, whichever way, and the order is right again. A clone has the same content and from then on neither heap is affected by operations on the other.",
  ["histories", "inputs"], "every sequence of insertions, updates up or down, removals at both ends and clones, with equal distances",
  "The tests fill a heap once in order and empty it; updates in place and use of a clone beside its original are not tested.",
  ["pkg/hnsw/heap.go"], [("min-max heap in an array with an id to position map", "pkg/hnsw/heap.go: up, down, Fix, Swap, Clone")],
  "TLA+ specification of the map and of the array algorithm (DistHeap, DistHeapImpl) checked with TLC; every transition of the small model replayed on the real heap, random traces validated by TLC", NOTE)
p("C18", "The vector graph stays well formed as vectors are added",
  "After every insertion into the vector graph each node's friends at each level are stored vectors that exist at that level, never the node itself, recorded with their true distance (in single precision), at most M of them (M at least 2) (2M at the lowest level). An insertion only adds the new node to existing friend lists, drops only the furthest for want of room, and always connects the new node at every level on which there was a node before. A node's flushed record lists its nearest friends in order, each with the highest level it is a friend on; a friend entered at a level is a friend on all levels below. A vector of another dimensionality is refused and changes nothing.",
  ["histories", "inputs", "configurations"], "every sequence of vectors, duplicates included, every choice of random levels, M, construction breadth and dimension",
  "The tests only bound the number of friends after one fixed sequence of insertions and random levels.",
  ["pkg/hnsw/hnsw.go", "pkg/hnsw/friends.go"], [("level by level search, connection and pruning", "pkg/hnsw/hnsw.go: InsertVector, searchLevel, selectNeighbors"), ("friends per level", "pkg/hnsw/friends.go")],
  TV + " (Hnsw, algorithm HnswImpl)", NOTE + "Points have whole coordinates so that distances are compared exactly.")
p("C19", "Nearest neighbour search returns true, locally complete answers",
  "A search for k neighbours returns stored vectors, each once and with its true distance, at most k (and at most the search breadth), at least one. No answer has a friend (at the lowest level) that is left out although it is nearer than an answer or there was room for it. When M and the search breadth have room for all vectors, the answer is exactly the k nearest. A search changes nothing in the graph, and a query of another dimensionality is refused with an error.",
  ["inputs", "histories", "configurations"], "every graph built by insertions, every query point, k, M and breadth",
  "The tests search three fixed clusters.",
  ["pkg/hnsw/hnsw.go"], [("best-first search with a bounded result heap", "pkg/hnsw/hnsw.go: KnnSearch, searchLevel")],
  TV + " (Hnsw, algorithm HnswImpl)", NOTE)
p("C20", "Every vector added to the page manager is stored with its friends",
  "After any sequence of additions the vector store holds, under the id the graph gave it, exactly the vector of every node added, and the friends store holds one record for every node added, equal to the graph's own record of its friends when it was added, whether or not other nodes have equal friends. A vector of another dimensionality is refused and nothing is stored for it.",
  ["histories", "inputs"], "every sequence of vectors, equal ones and refused ones included",
  "The existing test doesn't use the manager at all.",
  ["pkg/vectorpage/manager.go", "pkg/hnsw/friends.go"], [("graph insertion, then vector and friends stored", "pkg/vectorpage/manager.go: AddNode")],
  TV + " (VPageTrace over Hnsw)", NOTE)
p("C21", "A client query returns exactly the matching records, in order",
  "Against any index file the indexer wrote, a where query of the client returns exactly the records whose named field has a value of the given value's type that meets the comparison (and every further condition on the same field), each once, in ascending or descending order of value as asked (records of equal value as they stand in the file, reversed when descending; an equality ignores the direction), cut to the limit and to the selected fields. The client lists every field of the file with all its types. A query naming an unknown field, a type the field never has, a second field, an unknown comparison, a comparison with NaN, an order on another field (also behind the first) or an unknown selected field is refused with an error. A query built step by step, its parts in any order, is neither changed by running it nor by queries derived from it, and a query object is left as it is given.",
  ["inputs", "configurations"], "every data file, number of leaves, value at, between and beyond the stored ones, comparison, direction, limit, selection and combination of conditions; strings by UTF-8 bytes, numbers by value",
  "The client's tests never run a query end to end; they look at single pages and at the query objects.",
  ["src/db/database.ts", "src/db/query-builder.ts", "src/bptree/bptree.ts", "src/bptree/traversal.ts", "src/bptree/node.ts", "src/file/index-file.ts", "src/db/query-validation.ts", "src/db/query-lang.ts"],
  [("scan plan per comparison and direction", "src/db/database.ts: run"), ("iterator over the leaves", "src/bptree/traversal.ts: increment"), ("validation", "src/db/query-validation.ts: validateQuery")],
  "TLA+ specification of the answer and of the scan (Query, QueryImpl) checked with TLC; every query of the small model asked of the real client, random queries validated by TLC",
  NOTE + "Negative numbers in range queries are a known finding. Runs the client in node with in-memory range resolvers.")
p("C22", "A client text search finds every record with a query n-gram, once, best first",
  "A text search of the client on a search field splits the query into n-grams exactly as the indexer splits a value (compatibility decomposition, ASCII letters and digits, words separated by white space, lower case, windows of the asked lengths), and returns every record whose value of that field holds one of them, each record once, with the score sum over the query's n-grams of ln((N - n + 0.5) / (n + 0.5)) * 2.2 tf / (tf + 1.2), where N is the number of records, n the number of records holding the n-gram and tf how often the record holds it, in descending order of score, cut to the limit. Neither the order in which n-grams are looked up nor earlier searches change it; n-grams nothing is indexed under contribute nothing. The object that describes the search, frozen or not, is left as it is given. A field that is not searchable or a gram range outside 1..3 is refused with an error.",
  ["inputs", "histories"], "every data file, query text (Unicode, punctuation, repeated words), n-gram range and limit, for trees of any number of leaves",
  "The client's tests tokenize a few ASCII phrases and fill a score table; no test searches.",
  ["src/db/database.ts", "src/ngram/tokenizer.ts", "src/ngram/table.ts", "src/bptree/bptree.ts", "pkg/ngram/tokenizer.go"],
  [("search loop and scores", "src/db/database.ts: run"), ("tokens of the query", "src/ngram/tokenizer.ts: tokens"), ("term frequency", "src/bptree/bptree.ts: termFrequency")],
  "TLA+ specification of the answer and of the search loop (Search, SearchImpl, NGram) checked with TLC; every search of the small model asked of the real client, random searches validated by TLC",
  NOTE + "Scores are compared to about a millionth. Runs the client in node with in-memory range resolvers.")
p("C23", "Range requests yield exactly the requested bytes or an error",
  "For every list of byte ranges (inclusive ends, one byte or more, in any order, overlapping or repeated) the client's range requests resolve to one chunk per requested range, in the order asked, each holding exactly those bytes of the file (cut at the end of the file) and the file's length, or they reject. They resolve whenever the server behaves within HTTP: a multipart/byteranges body in any order, coalesced or not, with any boundary (quoted or not), names of headers, media type, parameters and unit in any case, further headers, leading line break or epilogue, delivered in chunks of any size; a single 206; a 200 to a multi-range request when single ranges work; with multipart requests on or off. They reject and never hang or return wrong or missing bytes when a range is invalid or beyond the file, the status is an error, the body ends or breaks early, parts are missing, misplaced, too short or unreadable, the network fails, or the expected length differs.",
  ["inputs", "schedules", "faults"], "every list of ranges, file, multipart layout, chunking of the stream and place it ends or breaks, and server behaviour",
  "One test parses one two-part body that arrives whole; requests for ranges are not tested at all.",
  ["src/resolver/range-request.ts", "src/resolver/multipart.ts", "src/resolver/resolver.ts", "src/file/data-file.ts"],
  [("requests and fallbacks", "src/resolver/range-request.ts: requestRanges"), ("body parser", "src/resolver/multipart.ts: parseMultipartBody")],
  "TLA+ model of the chunked parser (MultipartImpl) and specification of the answers (Multipart), checked with TLC; every small body, chunking and truncation of the model replayed into the real parser, requests to simulated servers validated by TLC",
  NOTE + "fetch is replaced by a simulated server in the process; no sockets.")
p("C24", "The client reads what the indexer wrote",
  "From every index file the indexer wrote for JSONL data, finished or left behind by a killed indexer, the client reads the same content as the Go code does: the file record (version, format, number of bytes and of records covered), the fields in order with all their types whatever characters their names have, every index's width, total and entries with their places in the data file, skipping slots that were never named; in every stored tree of any depth and key width its iterator starts at the lower bound of any key and steps and turns around in key order over the whole tree, and lookups, the first and the last key agree with it; offsets, lengths and counts are exact up to 2^53.",
  ["inputs", "crash points", "histories"], "every tree shape up to depth three, key width 0 to 200, offset and count up to 2^53, field name, catalogue of any number of pages, and prefix of the writes of a synchronisation",
  "The client's tests read a few small files recorded once; no test compares both sides on fresh files, large numbers or deep trees.",
  ["src/file/index-file.ts", "src/file/multi.ts", "src/file/meta.ts", "src/bptree/node.ts", "src/bptree/bptree.ts", "src/bptree/traversal.ts", "src/util/uvarint.ts", "pkg/bptree/node.go", "pkg/linkedpage/linkedpage.go", "pkg/appendable/appendable.go"],
  [("catalogue", "src/file/index-file.ts: seek, indexHeaders"), ("meta pages", "src/file/multi.ts: LinkedMetaPage"), ("nodes", "src/bptree/node.ts: unmarshalBinary"), ("varints", "src/util/uvarint.ts: decodeUvarint"), ("iterator", "src/bptree/traversal.ts: increment")],
  "TLA+ models of the iterator and of the varints checked with TLC; traces of the client reading freshly written files validated by TLC against what Go reads from the same bytes",
  NOTE + "What the file should hold is checked by other properties; this one compares the two readers.")
p("C25", "A client survives failed requests and serves overlapping calls",
  "Calls on one client object (queries, searches, lists of fields, walks over one tree, byte ranges through the range cache) may overlap, and the requests they lead to may be answered in any order or fail. Every call that completes has exactly the answer it has on an undisturbed client. A call fails only if a request failed while the call was running, and the rows it returned before are the beginning of its answer (for a search: some of its hits). Once requests succeed again so does every new call on the same client: no failure is remembered, no partly read list is taken for the whole, and a step of an iterator that failed can be made again. No call waits when nothing is left to be answered. The range cache answers every list of ranges as the resolver it wraps.",
  ["schedules", "faults", "histories"], "every order of answers and failures of the requests of any number of overlapping calls, a failure at any request, resolvers given directly, by URL with and without multipart requests, or wrapped in the range cache",
  "The client's tests run one call at a time against resolvers that never fail; the range cache is not tested.",
  ["src/db/database.ts", "src/file/index-file.ts", "src/file/multi.ts", "src/bptree/bptree.ts", "src/bptree/node.ts", "src/resolver/cache.ts", "src/resolver/range-request.ts"],
  [("shared promises", "src/db/database.ts: fields; src/file/multi.ts: getMetaPage; src/bptree/bptree.ts: root; src/bptree/node.ts: child"), ("list of indexes", "src/file/index-file.ts: fetchMetaPages, indexHeaders"), ("range cache", "src/resolver/cache.ts: cache")],
  "TLA+ model of the client's shared promises (ClientImpl) checked with TLC over all schedules of answers and failures; the schedules replayed against the real client, faults placed at every request of a call, histories validated by TLC (ClientTrace)",
  NOTE + "The file does not change while a client reads it.")
p("C15", "The indexing program: exit status, data untouched, failures repaired",
  "Run on a data file and an index file, the program exits with 0 exactly if the index then covers every complete line of the data, and otherwise with a failure status; in both cases the index file holds what its offset and count say: the lines before the first bad one, exactly as after a run on those lines alone. It never changes the data file, nor any file other than the index and the reports it is asked to write; -t, -debug, -b and -pprof change nothing of the index. Wrong use (no format, another format than the index's, no or two data files, no index, a data file that does not exist, one file as index and data) is refused with a failure status and leaves an existing index as it is. The data file may grow while the program runs. When there is no room for the whole index the program fails, entries indexed before are kept, and the next run with room completes the index.",
  ["histories", "faults", "schedules"], "every sequence of runs with any flags over a data file that grows (also during a run), is repaired or cut; every page of the index at which the room ends",
  "No test runs the program.",
  ["cmd/main.go", "pkg/appendable/index_file.go", "pkg/handlers/jsonl.go", "pkg/bptree/bptree.go", "pkg/mmap/mmap.go"],
  [("flags, exit status", "cmd/main.go: main"), ("offset and count written last, once", "pkg/handlers/jsonl.go: Synchronize"), ("both halves of a split go to new pages", "pkg/bptree/bptree.go: Insert")],
  "TLA+ model of synchronisation (Sync) and of insertion under interruption (BPTreeImpl) checked with TLC; runs of the built program as a process, recorded and validated against the specification by TLC (CliTrace, FullTrace)",
  NOTE + "Room for the index ends at page boundaries (file size limit of the process).")
p("C16", "The indexer and the client split text into the same n-grams",
  "For every text and every n-gram length the indexer's tokenizer yields exactly the n-grams of the text's words, in order: the text is decomposed (NFKD), ASCII letters and digits are kept and lowercased, ASCII white space separates words, every other character vanishes without separating, and each window of the given number of characters within a word is one n-gram. Each comes with its place: the index of its first character among the characters of the decomposed text, and the number of those it spans. The client's tokenizer yields, for every range of lengths, the same n-grams, the shorter ones first, each with the field type of its length. Shuffling n-grams yields the same n-grams, each as often, and leaves the list given as it is.",
  ["inputs"], "every text (any characters, white space, control characters, combining marks, ligatures, astral characters) and every n-gram length and range",
  "The tests split a handful of short phrases.",
  ["pkg/ngram/tokenizer.go", "src/ngram/tokenizer.ts"],
  [("places of the kept characters", "pkg/ngram/tokenizer.go: cleanPhrase, BuildNgram"), ("tokens of a query", "src/ngram/tokenizer.ts: tokens"), ("shuffle", "pkg/ngram/tokenizer.go: Shuffle; src/ngram/tokenizer.ts: shuffle")],
  "TLA+ definition of the n-grams of a text (NGram) and model of the tokenizer's passes (NGramImpl) checked with TLC for every text over a small alphabet; the same texts and random ones split by both real tokenizers and validated by TLC",
  NOTE + "Unicode decomposition itself is trusted (golang.org/x/text, compared with node's).")
p("C14", "A CSV index holds every cell under its column's name",
  "After a successful synchronisation of CSV data the index holds, for every complete line after the first (the header), each cell exactly once, under the name its column has in the header and the type of its text (empty: null; a number as Go writes floating-point literals, decimal or hexadecimal with exponent, underscores between digits, or infinite or not a number; a boolean word; otherwise, also a number no double can hold, a string), leading to the line's byte range; the key's place in the data is the cell as written, quotes included, and decodes to its value; columns of one name share their indexes, a line may have fewer cells than the header. Looking a value up yields exactly the records that have it. The index is a function of the complete lines alone, however often the file was synchronised while it grew (also with nothing but the header, or part of it) and whatever storage failures lie between. A line that is no record (misplaced quotes, no cells, more cells than names, a name too long) is refused with an error: the index then holds the lines before it, its offset and count say so, and a later synchronisation of repaired data goes on from there. Data shorter than what is indexed is refused and changes nothing.",
  ["inputs", "histories", "faults"], "every CSV text with one record per line (quotes, commas and carriage returns anywhere, any types and number of columns), every way to split it into synchronisations, every failing write",
  "The tests index four lines without quotes; no test has an error, a header alone, or several columns in several steps.",
  ["pkg/handlers/csv.go", "pkg/appendable/index_file.go", "pkg/bptree/bptree.go"],
  [("header, offset, count", "pkg/handlers/csv.go: Synchronize"), ("places of the cells", "pkg/handlers/csv.go: handleCSVLine"), ("types", "pkg/handlers/csv.go: InferCSVField, Parse")],
  "TLA+ definition of a CSV index (CSV), model of the line reader (CSVImpl) checked with TLC for every line over a small alphabet and of synchronisation (Sync); the same lines and random histories run through the real handler, every resulting index validated by TLC",
  NOTE + "Not covered: hexadecimal, infinite, NaN and overflowing numbers, -0, cells with line breaks, n-grams, reading CSV indexes with the client.")
p("C26", "The converter writes exactly the lines' values, next to its input",
  "jsonl2json -f F, for a file whose name contains .jsonl and whose every line is one JSON value, exits with 0 and leaves next to F, under F's name with .json in place of .jsonl, a JSON array of exactly the lines' values in order (strings and integers of 64 bits exactly, other numbers to the last place of a double, of equal keys in an object the last one); F and every other file are as before. When a line is no JSON value (a blank line and a number beyond the range of a double included), the file cannot be read, or its name does not contain .jsonl, it exits with a failure status and every file is as before.",
  ["inputs", "histories"], "every JSONL file (any values, escapes, line ends, last line open or not, any place of a bad line), every path, runs one after the other in one folder",
  "The converter has no tests.",
  ["scripts/jsonl2json/src/main.rs"],
  [("reads, converts, writes at the end", "scripts/jsonl2json/src/main.rs: main"), ("name of the output", "scripts/jsonl2json/src/main.rs: main")],
  "TLA+ specification of the converter's effect on a folder (J2J) and model of its runs (J2JImpl) checked with TLC; every run of the model and random files converted by the built program in a scratch folder, the folder and the parsed array validated by TLC",
  NOTE + "Numbers are compared to one unit in the last place: serde_json is built without float_roundtrip.")
p("C27", "An index file is laid out byte for byte as version 1 says",
  "After every synchronise of a JSON Lines file that succeeds, the index file is a sequence of pages of 4096 bytes, each used for exactly one thing. Page 0 holds the offsets of the free pages (8 bytes each, up to a first 0). Page 1 is the first meta page: the offset of the next one (8 bytes; all 255: none), its number of slots (1 byte; 15 on all but the last), then slots of 265 bytes: the root's offset (8), its length (4; 0: no tree), the length of the metadata (1), the metadata. The first slot's metadata: version 1, format (1 byte each), bytes indexed (8), number of records (varint). The others': type, width, length of the name (2 each), name, total (varint). A tree node: number of keys (4, negative in a leaf); the keys, each offset and length of the value in the data (varints) and, if the width is not 0, width - 1 bytes of value; in a leaf the records' offsets and lengths, in an inner node the offsets of its children, one more than keys (varints). A node of vectors: number of ids (4, negative in a leaf); the ids, each offset and length of the record and the id; an inner node's children; the dimension (all varints); the vectors (4 bytes a component). Numbers are little endian. Read so, the trees hold exactly the occurrences in the indexed lines, in order. Conversely, a file laid out so, whatever its pages' order and its trees' shapes, is read and continued.",
  ["inputs", "histories"], "every JSON Lines file (any values, growing over several synchronises, vectors of any dimension), and every layout of the pages and shape of the trees",
  "The tests write with the code that reads: a change on both sides passes them and makes every published index file unreadable to the clients that are out there.",
  ["pkg/pagefile/pagefile.go", "pkg/metapage/metapage.go", "pkg/linkedpage/linkedpage.go", "pkg/bptree/node.go", "pkg/btree/node.go", "pkg/appendable/index_file.go", "pkg/appendable/appendable.go", "pkg/encoding/sizeVarint.go"],
  [("pages and free pages", "pkg/pagefile/pagefile.go: PageFile"), ("meta pages and slots", "pkg/linkedpage/linkedpage.go"), ("nodes", "pkg/bptree/node.go, pkg/btree/node.go: MarshalBinary, UnmarshalBinary"), ("records' metadata", "pkg/appendable/appendable.go: FileMeta, IndexMeta")],
  "TLA+ specification of the bytes (Format, FormatFile) validated by TLC on every page of files the indexer and the vector store wrote; TLC generates all small files in every tree shape and page order (FormatGen), which the indexer reads and continues",
  NOTE + "Files of up to some dozens of pages; generated files of up to 4 (thorough: 5) records.")
p("C28", "Numbers, keys and nodes of any size have one encoding and one order",
  "Both sides agree on how numbers become bytes and how keys are ordered, whatever their size. A number of up to 64 bits is written in groups of 7 bits, the lowest first, one a byte, bit 7 set on all but the last, and its size is computed as exactly the number of those bytes; read back, whatever bytes follow, it is the same number and the bytes read are counted right (the client: exactly, if a double can hold it), a cut or over-long one is not taken for a number. Keys are ordered by the bytes of their values (unsigned, a prefix before what it begins), then by offset, then by length, both as unsigned numbers; ids of vectors as unsigned numbers; searching an ordered list of keys yields how many come before the one sought and whether it is there. Every tree node and vector node (offsets and lengths of any size, any width, leaf or inner) is written as the bytes the layout says, as many as computed, and read from a page, whatever follows it there, is the same node; so are the metadata of the file and of an index. Metadata cut short, or of a format there is none of, is refused.",
  ["inputs"], "all 64-bit numbers, all keys, every node and every piece of metadata",
  "The tests try random numbers (nearly all of 64 bits in Go, one by one below 2^21 in the client) and three nodes with one key.",
  ["pkg/encoding/sizeVarint.go", "pkg/pointer/referenced_value.go", "pkg/bptree/node.go", "pkg/btree/node.go", "pkg/appendable/appendable.go", "src/util/uvarint.ts", "src/bptree/bptree.ts", "src/bptree/node.ts", "src/file/meta.ts"],
  [("sizes of numbers", "pkg/encoding/sizeVarint.go: SizeVarint"), ("numbers in the client", "src/util/uvarint.ts: encodeUvarint, decodeUvarint"), ("order of keys", "pkg/pointer/referenced_value.go: CompareReferencedValues, CompareReferencedIds; src/bptree/bptree.ts: compareBytes, binarySearchReferencedValues"), ("nodes", "pkg/bptree/node.go, pkg/btree/node.go: Size, MarshalBinary, UnmarshalBinary; src/bptree/node.ts: unmarshalBinary"), ("metadata", "pkg/appendable/appendable.go: FileMeta, IndexMeta; src/file/meta.ts")],
  "TLA+ specification of numbers as bit strings, of their encoding, the order of keys and the bytes of nodes (Codec), whose laws (decoding inverts, prefix-free, total order) TLC checks over runs of ones at every position and small keys (CodecMC); the same numbers and keys, and random ones, go through both sides' real functions, validated by TLC",
  NOTE + "Numbers of the client beyond 2^53 only where a double holds them exactly.")
# -- more properties are added above this line --


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                                "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                                "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                                            **({"observe_at": x["observe"]} if x["observe"] else {}), "hook_needed": None}}) + "\n")
    checks = [{"property": x["id"], "quick_cmd": f"bin/check {x['id']}", "thorough_cmd": f"bin/check {x['id']} --thorough",
               "technique": x["technique"], "level": "model_checking", "level_note": x["note"].strip()} for x in P if x["id"] in props.PROPS]
    na = [{"property": x["id"], "reason": "no check yet"} for x in P if x["id"] not in props.PROPS]
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
         "notes": "TLA+ with TLC (see DESIGN.md). No hooks in /repo: the drivers use exported interfaces, the storage interfaces and the built binaries. Genuine defects: known_findings.json."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
