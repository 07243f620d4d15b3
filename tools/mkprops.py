#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in state],
      mechanism=[dict(name=m[0],where=m[1]) for m in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","What is saved is what an eager load returns",
"Any value of any supported type (primitives, strings, vectors, maps, and structs combining inline, chunkable, map and compressed fields at any nesting) that is written successfully reads back eagerly as an equal value. This holds whichever write entry point (save, write, serialize, save_sync, write_sync), option (compression on or off) and read entry point (load, load_bytes, open + load, from a file or from memory) are used, and whatever number of worker threads run.",
["inputs","programs","configurations"],
"for all struct definitions the derive accepts, all their values (all sizes from empty to many shards, all field contents), all write modes x read modes x thread counts",
"The tests round-trip about a dozen fixed structs with one or two values each; they never vary the struct definition, hit shard-size boundaries, mix nested containers with empty ones, or compare entry points.",
["src/api.rs","src/visitor_impls.rs","src/visitor.rs","src/reader.rs","src/executor.rs","parcode-derive/src/lib.rs"],
[("adaptive sharding of vectors","src/visitor_impls.rs Vec::visit"),("derive-generated split into local payload and child chunks","parcode-derive/src/lib.rs generate_visitor / generate_native_reader / generate_parcode_item"),("parallel stitching of shards into one buffer","src/reader.rs decode_parallel_collection, decode_shard_into_buffer, read_into_slice"),("entry points","src/api.rs")],
[("RLE shard table","how many items each shard chunk holds","src/visitor_impls.rs VecContainerJob / src/reader.rs ShardRun")],
["Parcode::load / load_bytes / ParcodeFile::load"])

p("C02","The lazy mirror shows exactly the saved object",
"For any saved struct, the lazy root exposes every inline field with its saved value immediately, and every chunkable or map field as a handle which, when loaded, returns exactly the saved value of that field, at every nesting depth and regardless of field order, number of fields, compression or emptiness. The lazy view and the eager load always agree.",
["inputs","programs"],
"for all struct definitions (any order and mix of inline/chunkable/map fields, nesting, zero remote or zero local fields) and all values",
"Tests use three or four hand-written structs whose fields come in one order; a mirror that mixes up fields, children or offsets for another definition would pass.",
["parcode-derive/src/lib.rs","src/rt.rs","src/reader.rs"],
[("generated mirror type reading locals then binding one child per remote field in order","parcode-derive/src/lib.rs generate_lazy_mirror"),("promises","src/rt.rs ParcodePromise, ParcodeCollectionPromise, ParcodeMapPromise"),("root()/load_lazy()/read_lazy()","src/reader.rs ParcodeFile")],
(),["ParcodeFile::root::<T>() and .load() of every handle"])

p("C03","Random access and iteration over a saved vector agree with the vector",
"For a saved vector of n items, len is n, is_empty is n==0, get(i) and get_lazy(i) return item i for every i < n and an error (never another item, never a panic) for every i >= n, first and last are the first and last item or None when empty. Iterating (eagerly or lazily) yields exactly the n items in order and then ends, with the reported remaining count always exact, no matter how the items were distributed over shards.",
["inputs","histories"],
"for all item types, all vector lengths and item sizes (so all shard layouts), all indices, and interleavings of accesses on one handle",
"Tests access a few indices of vectors of 4 or 50-ish items, which mostly occupy one shard; the run-length arithmetic across several runs, the last short shard and index bounds are not reached.",
["src/reader.rs","src/rt.rs"],
[("index to (shard, position) arithmetic over run lengths","src/reader.rs resolve_rle_index, ChunkNode::get, locate_shard_item"),("streaming iterators","src/reader.rs ChunkIterator, src/rt.rs ParcodeLazyIterator")],
[("iterator cursor","current shard, position and children of the item being read","src/rt.rs ParcodeLazyIterator")],
["ParcodeCollectionPromise::{len,is_empty,get,get_lazy,first,last,iter,iter_lazy}, ChunkNode::{len,get,iter}"])

p("C04","Map lookups agree with the saved map",
"For a saved map, looking up a key (get or get_lazy) returns exactly the value stored under that key if the key is present, and none if it is absent, never a value of another key and never a panic, including for the empty map, keys whose hashes collide, and any number of entries or buckets. Loading the whole map returns exactly the saved entries.",
["inputs"],
"for all key and value types, all map sizes (empty, one bucket, many buckets up to and past the bucket cap), all present and absent keys, including keys crafted to collide in 64-bit hash or bucket",
"Tests look up a handful of integer or string keys in one or two maps; hash collisions, bucket boundaries, absent keys in populated buckets and values with their own chunks are not exercised systematically.",
["src/map.rs","src/rt.rs","src/visitor_impls.rs","src/reader.rs","parcode-derive/src/lib.rs"],
[("bucket selection by hash modulo, on write and on read","src/visitor_impls.rs HashMap::visit, src/rt.rs ParcodeMapPromise::get / get_lazy"),("hash table with key verification","src/map.rs MapShardJob, src/rt.rs"),("children of the entries before the target are skipped","src/rt.rs get_lazy")],
[("bucket payload","count, hashes, offsets, entries","src/map.rs")],
["ParcodeMapPromise::{get,get_lazy,load}"])

p("C05","Every written file follows the documented layout",
"Every file a successful write produces obeys the format description: chunks lie back to back from offset 0 with children before their parent and the root chunk last, followed by the 26-byte header that names the root; every child reference names one whole chunk in the order of fields or shards; and an independent reader that knows only the format description recovers the exact saved value. Vector shard tables add up to the vector, and each map entry lies in the bucket its hash selects.",
["inputs","schedules","configurations"],
"for all struct definitions and values, all write modes and thread schedules",
"No test looks at the bytes of a file beyond a magic number; writer and reader are only tested against each other, so a matching error in both (or unreachable and duplicated chunks) goes unnoticed.",
["src/format.rs","src/executor.rs","src/io.rs","src/visitor_impls.rs","src/map.rs","src/api.rs"],
[("chunk assembly: payload, child table, meta byte","src/executor.rs process_node / execute_graph_serial"),("offset accounting","src/io.rs SeqWriter::write_all"),("global header","src/format.rs GlobalHeader, src/api.rs")],
(),["bytes given to the writer"])

p("C06","Every file that follows the format is read correctly",
"A file that follows the documented format but was laid out by another writer (any split of vectors into shards and runs, any number of map buckets, any chunk placement that keeps children before parents, any mix of compressed and plain chunks, offsets past 4 GiB) is read, eagerly, lazily and by random access, as exactly the value it encodes.",
["inputs"],
"for all values and all conforming layouts of them",
"Tests only read files the same build just wrote on the same machine, where shard sizes depend on the core count; other shard tables, bucket counts and chunk orders never reach the reader.",
["src/reader.rs","src/rt.rs","src/format.rs"],
[("reader driven by the shard table and child references in the file","src/reader.rs decode_parallel_collection, resolve_rle_index, get_child_by_index; src/rt.rs"),("per-chunk compression flag","src/reader.rs read_raw")],
(),["Parcode::load, ParcodeFile::root and the promises on files from an independent encoder"])

p("C07","Torn files and foreign bytes are rejected on open",
"A file is accepted only if it ends in a complete valid header: cutting a saved file at any point short of its full length, or overwriting any byte of its magic or version, makes every open or load entry point return an error instead of data or a panic. Files shorter than a header, empty files and non-Parcode bytes are rejected the same way, and a header whose root lies outside the file never yields data.",
["crash_points","inputs"],
"for all saved files and every cut point; all byte strings that do not end in a valid header; all corruptions of the header fields",
"One test feeds a too-short and a wrong-magic file; the cut points of a crash during save, wrong versions and root references past the end are not enumerated.",
["src/reader.rs","src/format.rs","src/api.rs"],
[("header is written last and validated on open","src/api.rs write, src/reader.rs ParcodeFile::init"),("chunk bounds check","src/reader.rs get_chunk")],
(),["Parcode::{open,open_bytes,load,load_bytes,inspect,inspect_bytes}"])

p("C08","Corrupt bytes never crash the reader",
"Reading any byte string, however corrupted, through any read API (eager, lazy, random access, iteration, inspection) returns a value or an error: it never panics, never accesses memory out of bounds, and never recurses or loops without end.",
["inputs"],
"for all byte strings, in particular all mutations of valid files (flipped, overwritten, inserted, swapped bytes; rewritten counts, lengths, offsets, child references and shard tables)",
"TODO.md lists fuzzing of corrupt files as future work; the tests contain two malformed inputs.",
["src/reader.rs","src/rt.rs","src/inspector.rs","src/compression.rs"],
[("checked slicing and conversions returning Format errors","src/reader.rs get_chunk, read_raw, get_child_by_index, decode_parallel_collection, read_into_slice"),("map bucket parsing","src/rt.rs, src/reader.rs")],
(),["process survives; no panic"])

p("C09","A write reports success only if every byte was delivered",
"When the destination fails at any point (an error on any write or flush, a sink that accepts no more bytes), or a value refuses to serialize, the write call returns an error, an I/O failure being reported as an I/O error of its kind, and never panics or hangs; short writes and interrupted writes lose nothing. A panic of the value's own code or of the destination is not turned into success and spoils no later write. When it returns success, the destination has received exactly one complete, flushed, loadable file.",
["fault_sequences","crash_points","inputs"],
"for all values, all byte positions and call numbers at which the sink fails, all error kinds, short-write patterns, flush failures, and failing values, in parallel and synchronous mode",
"Tests always write to a healthy in-memory buffer or temp file; no test injects a failing writer or a failing value.",
["src/io.rs","src/executor.rs","src/api.rs","src/error.rs"],
[("error capture and abort flag","src/executor.rs ExecutionContext::signal_error / should_abort"),("flush before returning","src/api.rs write / write_sync, src/io.rs flush")],
[("abort_flag / error_capture","first error of any worker","src/executor.rs")],
["return value of write entry points and bytes received by the sink"])

p("C10","An access depends only on the data it asks for",
"Opening a file, taking the lazy root, and reading one field, one vector item, or one map entry succeed with the right result even when every chunk outside the path to that data (its ancestors, its own chunks, and the shard or bucket holding it) is unreadable garbage. Lazily reading an item's inline fields never needs the chunks of its vector, map or primitive fields.",
["inputs","fault_sequences"],
"for all values and access paths, and all damage confined to the content of chunks outside the accessed path",
"Tests check the values lazy access returns, not what it touches; an implementation that silently loaded everything would pass all of them.",
["src/rt.rs","src/reader.rs","parcode-derive/src/lib.rs"],
[("handles hold only a chunk reference until loaded","src/rt.rs promises, parcode-derive generate_lazy_mirror"),("get loads one shard, map get loads one bucket","src/reader.rs ChunkNode::get, src/rt.rs ParcodeMapPromise::get")],
(),["results of lazy reads on selectively damaged files"])

p("C11","Parallel execution runs each task once, children first, and keeps order",
"For any task tree, any number of worker threads and any timing of the tasks, a parallel write runs every task exactly once and only after all its children have been written, hands each task the references of its children in link order, writes every chunk exactly once, and reports the true root. If any task fails the write fails with a task's error, and no schedule deadlocks or succeeds partially.",
["schedules","inputs","fault_sequences"],
"for all task trees (depth, fan-out, size), thread counts, task durations, and sets of failing tasks",
"Tests run the executor only through small values on the default pool with uniform, fast tasks; races between siblings finishing together are left to luck.",
["src/executor.rs","src/graph/core.rs","src/io.rs"],
[("dependency counter releasing the parent","src/executor.rs process_node fetch_sub"),("result slots by link order","src/graph/core.rs link_parent_child / register_child_result"),("single locked writer assigning offsets","src/io.rs")],
[("atomic_deps","children not yet written","src/graph/core.rs Node"),("completed_children","slot per child","src/graph/core.rs Node")],
["order of task executions, references given to tasks, bytes written"])

p("C12","The inspector reports the true structure of a file",
"For any valid file, inspecting it (by path, by bytes, or an open file) succeeds without deserializing user types and reports the file size, root position, and for every chunk its true offset, total and payload length, child count, compression algorithm and children in order. Containers of vectors and maps are described with their true item, shard and bucket counts, and the printed report shows every chunk.",
["inputs"],
"for all valid files, written by the library or by another conforming writer",
"One test checks one report of one file for a few fields.",
["src/inspector.rs","src/reader.rs"],
[("recursive walk over chunks","src/inspector.rs inspect_node"),("payload classification","src/inspector.rs analyze_payload")],
(),["DebugReport and its Display"])

p("C13","Compression is applied where asked and never changes the data",
"Compressed chunks decompress to exactly the bytes that were compressed, for every input, through every compressor entry point, and malformed compressed data is an error. Enabling compression globally compresses every data chunk, a field's compression attribute compresses the chunks of that field and no others, each chunk's flag names the algorithm really used, and no setting changes the value read back or the chunk structure.",
["inputs","configurations"],
"for all byte strings for the codecs; for all struct definitions, values and combinations of global and per-field settings",
"Tests compress a few repetitive payloads and check the file became smaller; they do not check which chunks are compressed or incompressible and boundary-size payloads.",
["src/compression.rs","src/executor.rs","src/visitor_impls.rs","src/rt.rs","src/reader.rs","parcode-derive/src/lib.rs"],
[("Lz4Compressor::compress_append / compress / decompress","src/compression.rs"),("config propagation to container and shards","src/visitor_impls.rs, src/rt.rs ConfiguredJob"),("effective algorithm choice and meta byte","src/executor.rs")],
(),["chunk flags in the file, decompressed payloads, loaded values"])

p("C14","Concurrent use is equivalent to sequential use",
"Any number of threads reading one open file at the same time, or tasks of one thread pool, through any mix of eager, lazy, random-access and inspection calls, each get the same results as when alone. Threads or tasks writing different values at the same time, on shared or separate thread pools, each produce a file equal in content to the one they would produce alone. Nothing deadlocks.",
["schedules","histories"],
"for all mixes of concurrent read and write operations on shared open files and independent outputs, all thread counts",
"No test uses a file from more than one thread or runs two writes at once.",
["src/reader.rs","src/rt.rs","src/executor.rs","src/io.rs"],
[("immutable shared source, no interior mutability in readers","src/reader.rs ParcodeFile"),("all write state is per call","src/api.rs, src/executor.rs ExecutionContext")],
(),["results of each thread's operations"])

p("C15","A path always holds the last successful save",
"After any sequence of saves (any entry point, any types and sizes, overwriting longer or shorter files), loads, lazy reads and inspections on any set of paths, each path reads back as the value of the last successful save to it and contains nothing of earlier saves. A failed save to one path, or any read, never changes what other paths hold, reads change no file, and no other files appear. A file that is open keeps showing its value when its path is removed, moved or taken by another file.",
["histories"],
"for all sequences of save/load/open/inspect/failed-save operations over several paths and value types",
"Each test writes one fresh temp file once and reads it.",
["src/api.rs","src/io.rs","src/reader.rs"],
[("file is created/truncated and written whole","src/api.rs save / save_sync"),("open maps or reads the whole current file","src/reader.rs ParcodeFile::open")],
(),["load/inspect per path, directory contents"])

p("C16","Files are portable between feature configurations",
"A file written by a build with any combination of the parallel, mmap and lz4 features reads back as the same value in a build with any other combination, except that a build without lz4 returns an error (not data, not a panic) for data in compressed chunks. A build without lz4 asked to compress writes a valid uncompressed file instead.",
["configurations","inputs"],
"for all pairs of feature sets (writer, reader), all values, compression on and off",
"The test suite is built and run in one configuration at a time and always reads its own files.",
["src/executor.rs","src/reader.rs","src/compression.rs","src/api.rs","Cargo.toml"],
[("serial/parallel executors selected by feature","src/executor.rs execute_graph"),("mmap or RAM source","src/reader.rs ParcodeFile::open"),("registry fallback","src/executor.rs, src/compression.rs")],
(),["cross-reading files between builds"])

p("C17","Parallel and synchronous writing produce the same chunks",
"For any value, the parallel and the synchronous writer produce files of the same length with the same set of chunks and the same tree (payloads, flags, child order), whatever the thread count, differing at most in the order chunks are placed. Synchronous writing of the same value object twice gives identical bytes.",
["schedules","inputs","configurations"],
"for all values, thread counts and schedules",
"Tests of the synchronous writer check only that its output loads.",
["src/executor.rs","src/api.rs"],
[("two implementations of one pipeline","src/executor.rs execute_graph_parallel / execute_graph_serial")],
(),["chunk trees of the two outputs"])

p("C18","Lazy access and streaming use memory for the data touched only",
"Opening a file from disk, taking the lazy root, reading one item, field or map entry, and streaming through a vector need memory bounded by the shards being read (a small multiple of the largest shard plus the chunk tables), not by the size of the file. Dropping an item, a shard or a handle releases its memory.",
["inputs","histories"],
"for all large files and access patterns: peak additional heap during open/root/get/get_lazy/iter/iter_lazy/map get against total data size",
"No test measures memory.",
["src/reader.rs","src/rt.rs"],
[("memory mapping","src/reader.rs DataSource::Mmap"),("iterators buffer one shard","src/reader.rs ChunkIterator, src/rt.rs ParcodeLazyIterator")],
(),["allocator high-water mark"])

p("C19","No load, failed or not, double-drops or invents items",
"Whether a load succeeds, or fails or panics midway because a shard is missing, short, over-long or holds an item that does not decode, every item value that was created is dropped at most once, no value that was never created is dropped or returned, and after success each returned item is dropped exactly once. Counts in the file that disagree with each other are reported as errors, never as vectors of another length.",
["inputs","fault_sequences"],
"for all vectors of items with destructors, all inconsistencies between container counts, shard counts and shard contents, and all positions of the failing item",
"One miri test covers two successful decodes; failing reconstruction of uninitialized buffers is not tested.",
["src/reader.rs"],
[("MaybeUninit buffer only converted after every shard reported its full count","src/reader.rs decode_parallel_collection, read_slice_from_shard, read_into_slice")],
[("uninitialized result buffer","items not yet decoded","src/reader.rs decode_parallel_collection")],
["registry of live item instances"])

p("C20","Large containers are cut into pieces of bounded size",
"A saved vector of equally sized items is cut into shards of at most 128 KiB of items (or one item, when a single item is larger), so an access never costs more than that; shards other than the last hold at least 4 KiB less one item; and there are enough of them to occupy every core (at least four per core) as long as that leaves 4 KiB each. A map field of n entries is spread over a number of buckets that grows with n (one up to a few thousand entries, then about one per 2000 entries, at most 4000 on average until there are 256 buckets), and keys are spread evenly over them.",
["inputs","configurations"],
"for all item sizes (from one byte to more than a shard), all vector lengths and map sizes, key patterns, compression settings and core counts",
"Tests never look at the number or size of shards and buckets; a container kept in one piece, or in one piece per item, would load just as well.",
["src/visitor_impls.rs","src/map.rs"],
[("adaptive shard size: sample, I/O target, core target, minimum","src/visitor_impls.rs Vec::visit"),("bucket count and distribution","src/visitor_impls.rs HashMap::visit")],
(),["number of children and payload sizes of the container chunks"])

p("C21","The public building blocks of the format and of custom pipelines are exact",
"Child references, global headers and meta bytes convert to and from their documented bytes without loss for every field value, and too short buffers are errors. A compressor registry returns exactly the compressor last registered for an algorithm number, the built-in ones by default, and an error for any other number. A task graph run with a registry of the user's own compressors stores every chunk with the algorithm it asks for, flagged as such (uncompressed when nobody provides it), in parallel and synchronously; when a compressor fails, the write fails with its error. A value with a hand-written visitor is stored as exactly the chunks it describes, by every write entry point. The sequential writer delivers every buffer given by any thread in one piece at the offset it returns.",
["inputs","histories","schedules"],
"for all field values, all sequences of registrations and lookups of the 256 algorithm numbers, all graphs and registries, all buffer sizes and threads",
"Tests never register a compressor, never use an algorithm other than 0 and 1, and write from several threads only through whole saves.",
["src/format.rs","src/compression.rs","src/executor.rs","src/io.rs","src/graph/core.rs"],
[("fixed layouts","src/format.rs MetaByte, ChildRef, GlobalHeader"),("slots by algorithm number","src/compression.rs CompressorRegistry"),("choice of algorithm per chunk","src/executor.rs"),("offset accounting under a lock","src/io.rs SeqWriter")],
[("current_offset","bytes written so far","src/io.rs")],
["the public items of parcode::format, compression, executor, graph and io"])

p("C22","Failures are reported as what they are and leave nothing behind",
"When the operating system refuses a path, open, load, inspect and save return an I/O error of the same kind the system reports; a torn or foreign file is a format error, unknown or malformed compression a compression error, undecodable content a serialization error. Every error keeps its category and message when displayed, cloned or asked for its source (which I/O errors have). A failing call, and any read, neither creates nor changes a file or directory, and once its handles are gone keeps no file open or mapped.",
["inputs","fault_sequences"],
"for all kinds of refused paths, all entry points, all damages of a known kind, all messages and error numbers",
"Tests check that two or three failures are errors of some kind, not which, and never look at what a failing call leaves on disk.",
["src/error.rs","src/api.rs","src/reader.rs","src/compression.rs","src/io.rs"],
[("conversion of io::Error","src/error.rs From<io::Error>"),("category chosen where the failure is found","src/reader.rs, src/compression.rs, src/rt.rs")],
(),["the returned ParcodeError; the directory before and after"])

p("C23","The derive honours every supported definition and refuses the others",
"Every struct with named fields compiles with the derive whatever its fields are called (also raw identifiers and the names of the generated code's own variables) and however its parcode attributes are spelled (order, grouping, algorithm case, string form); its unmarked fields are stored inline in declaration order, each marked field in a chunk of its own, compressed as asked, and values round-trip, eagerly and lazily, also next to serde attributes. A definition with an unknown key, an unknown or malformed algorithm, a key with a value it does not take, an attribute without keys, or one that is no struct with named fields is refused by the compiler instead of being accepted and stored otherwise than asked.",
["programs","inputs"],
"for all field names, field types, orders and spellings of attributes, nestings of definitions, and all misspelled keys and algorithms",
"The tests contain about a dozen fixed definitions with ordinary field names and one spelling of each attribute, and cannot contain definitions that must not compile.",
["parcode-derive/src/lib.rs","src/rt.rs"],
[("attribute parsing","parcode-derive/src/lib.rs parse_attributes"),("variables of generated code kept apart from field names","parcode-derive/src/lib.rs variable"),("lazy reading of whole values","parcode-derive/src/lib.rs generate_lazy_mirror (read_lazy_from_whole)")],
(),["the compiler's verdict; the written file; loaded values"])

p("C24","Navigating an open file shows exactly its chunks",
"For any file that follows the format, whatever its chunks mean, an open file (from disk or from memory) gives its true size and root node, and from there every chunk can be reached with get_child_by_index or children, in the order of the references; an index that is no child is an error. Each node reports the true offset, length, payload length, child count, flags and algorithm, read_raw returns exactly the decompressed payload (without copying one that is not compressed), and decode returns exactly the value encoded in it; a chunk of an unknown algorithm can be navigated, its payload is an error. Bytes given to open_bytes are shared, not copied.",
["inputs","histories"],
"for all trees of chunks, all orders of navigation, all indices",
"Tests look at the child count of one or two root nodes.",
["src/reader.rs","src/format.rs","src/compression.rs"],
[("footer arithmetic","src/reader.rs get_chunk / get_child_by_index"),("zero-copy payload access","src/reader.rs read_raw")],
(),["ChunkNode accessors, read_raw, decode"])

d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(d,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
