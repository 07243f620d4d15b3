#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks (one place to edit)."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="Property-based testing with proptest: "
checks=[
("C01",T+"generated struct definitions and values, round trip through every write/read entry point pair","Random search over 60+ generated and hand-picked schema types and their values; the canonical form of the loaded value is compared with that of the saved one. Trusts the harness's canonical encoding."),
("C02",T+"generated values probed through generated lazy mirrors, compared field by field with the saved value","Random search; every handle of a sampled path is loaded and compared. Trusts the harness's canonical encoding."),
("C03",T+"stateful histories of get/get_lazy/iter/iter_lazy/first/last against the vector as model, over library-written and foreign shard tables","Random histories of 10-40 operations per vector; vectors up to 5 million items."),
("C04",T+"generated maps and keys (present, absent, neighbouring, colliding) against HashMap as model","Random search over key types, value types, sizes up to 2.4 million entries and forced full-hash collisions; foreign bucket counts included."),
("C05",T+"differential: an independent strict reader of the documented format decides every written file","Random search; the oracle is a second implementation of the format (harness/src/layout.rs, model.rs)."),
("C06",T+"differential: an independent writer produces conforming files in layouts the library never chooses","Random search over shard splits, run tables, bucket counts, chunk placement, compression mixes, sparse files past 4 GiB."),
("C07",T+"generated files cut at every byte and with damaged headers; fault enumeration inside each case","Every cut of small files, sampled cuts of larger ones, header bytes, versions, root references; all entry points."),
("C08",T+"mutation fuzzing of generated files (structural and byte-level) through every read API, with an allocation guard and AddressSanitizer","Random search over damaged files; nesting below a few hundred levels; one known finding (F10) is recognised and reported."),
("C09",T+"fault injection into sinks and values: every call and byte position may fail","Random fault plans over generated values; the delivered bytes are parsed and compared."),
("C10",T+"fault injection: all chunks outside the access path destroyed, result compared with the model","Random accesses over generated values; the set of needed chunks comes from the independent parser."),
("C11",T+"generated task trees with delays and failures, checked against the tree's own history","Random trees, thread counts, delays and failing tasks; schedules are sampled, not enumerated."),
("C12",T+"differential: inspection report against the independent parse","Random search over library-written and foreign files."),
("C13",T+"codec round trips against an independent LZ4 decoder, metamorphic comparison of compressed and plain files","Random payloads and attribute combinations; flags of every chunk checked against the schema."),
("C14",T+"concurrent operation mixes compared with the same operations run alone","Random mixes on 2-8 threads; schedules are sampled."),
("C15",T+"stateful: histories of saves and reads over several paths against a map from path to last saved value","Random histories of 6-30 operations over up to 5 paths."),
("C16",T+"differential: eight feature builds write and read each other's files","All 64 pairs of configurations over random values."),
("C17",T+"metamorphic: parallel and synchronous output compared as chunk trees and bytes","Random values on 1-16 threads."),
("C18",T+"counting allocator: heap high-water mark of random accesses against a bound computed from the independent parse","Random large values and layouts; the bound is 4 times the largest shard involved."),
("C19",T+"items with a drop registry in vectors of inconsistent counts and failing items, also under AddressSanitizer","Random inconsistencies, failing and panicking items; every creation and drop is recorded."),
("C20",T+"generated containers; number and size of their shards and buckets against documented bounds","Random item sizes, lengths, key patterns; the bounds leave room for the documented heuristics."),
("C21",T+"byte-level models of the format records, a map as model of the registry, random graphs with custom compressors, concurrent writers","Random values and histories."),
("C22",T+"generated failing calls; error kinds against those of the operating system, directory contents before and after","14 kinds of refused paths on all entry points, five kinds of damage; no permission failures (root)."),
("C23",T+"struct definitions generated with hostile field names and attribute spellings, compiled, run and inspected; misspelled definitions must not compile","Batches of definitions compiled by the installed rustc against the crate; the file of each is read by the independent parser. Definitions have no generics and at most three structs."),
("C24",T+"random trees of chunks and files of values, navigated in random orders; every node compared with the independent parser","Trees without meaning, foreign and own files; depth up to 250, at most 3000 chunks entered."),
]
m={"version":1,"setup_cmd":"./build.sh && ./build.sh asan && ./build.sh portable && ./build.sh derived",
"hooks":{"guard":"none (no hooks: the public API reaches everything the checks need)","enable":"nothing to enable","source_commits":[]},
"checks":[dict(property=i,quick_cmd="./check.sh "+i,thorough_cmd="VERIF_TIER=thorough ./check.sh "+i,technique=t,level="exploration",level_note=n) for i,t,n in checks],
"not_applicable":[]}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
