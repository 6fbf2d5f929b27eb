import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],
                 "mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}})
p("C01","Stored objects round-trip under their git identity",
 "Storing an object of any type and content, in whatever pieces its stream supplies it, in a loose or composite database assigns it the SHA-1 of its type, decimal size, a NUL and its content; from then on existence test, info and stream for that id, through the same or a newly opened database, report exactly that type, size and content. Storing it again, or copying it in as an already encoded object with its id preset, changes nothing observable. Every stored id is enumerated exactly once, and ids never stored are reported missing with the library's missing-object error.",
 ["inputs","histories"],"every type, every content of every size and entropy, every history of stores, re-stores, encoded copies, reopenings and queries",
 "The tests store 4-byte and one 16-byte blob through fixed sequences; sizes near the internal header and copy-chunk boundaries, empty content, non-blob types and interleavings of stores and queries are never tried.",
 ["gitdb/db/loose.py","gitdb/fun.py","gitdb/stream.py","gitdb/db/git.py","gitdb/base.py"],
 [("object header + streaming copy","gitdb/fun.py:write_object, stream_copy, loose_object_header"),("hashing, compressing writer","gitdb/stream.py:FDCompressedSha1Writer"),("path by id","gitdb/db/loose.py:object_path, sha_iter")],
 ["LooseObjectDB / GitDB .store .has_object .info .stream .sha_iter .size"])
p("C02","Loose writes are all-or-nothing under crash, fault and concurrency",
 "Whatever processes or threads are storing objects in the same directory, and at whatever step any of them crashes or hits an I/O error (including short writes), every object visible under an id is complete and correct at every instant and stays there unmodified. A store that returns has its object visible and read-only; a store that raises has exposed no incomplete object and left no temporary file and no open descriptor. Concurrent stores of the same object all succeed.",
 ["crash_points","fault_sequences","schedules","histories"],"every crash point, every failing or short file-system call, and every interleaving of the file-system steps of concurrent writers and readers",
 "No test crashes, fails or interleaves a store; all run a single process to completion on a healthy file system.",
 ["gitdb/db/loose.py","gitdb/stream.py"],
 [("temporary file then rename","gitdb/db/loose.py:store"),("error clean-up","gitdb/db/loose.py:store except branch"),("short write check","gitdb/stream.py:FDCompressedSha1Writer.write/close, FDStream.write")],
 ["file-system calls below the database root (LD_PRELOAD shim)","directory contents after every call"])
p("C03","Object streams deliver exactly the content, however they are read",
 "For an object stream over any compressed or delta-resolved content, and any sequence of reads and rewinds, read(n) with n>0 returns exactly the next min(n, remaining) bytes, a read without size returns all remaining bytes, and nothing is returned only at the end; a rewind restarts at the first byte. Once fully read, a compressed stream reports exactly the number of compressed bytes the object occupies, whatever follows it in memory. Reading and that report always terminate.",
 ["inputs","histories"],"every content, compression level/strategy/flush structure, with and without a header, every trailing data, every sequence of read sizes, rewinds and length queries",
 "Tests read three compressible sizes in ten equal steps; small reads, incompressible data, empty content, partial reads before a rewind and data following the stream never occur.",
 ["gitdb/stream.py","gitdb/db/loose.py","gitdb/pack.py","gitdb/base.py"],
 [("windowed decompression","gitdb/stream.py:DecompressMemMapReader.read"),("header parsing and rewind","gitdb/stream.py:DecompressMemMapReader._parse_header_info, seek"),("length scrubbing","gitdb/stream.py:compressed_bytes_read"),("delta reader","gitdb/stream.py:DeltaApplyReader.read, seek")],
 ["DecompressMemMapReader.read/seek/compressed_bytes_read, DeltaApplyReader.read/seek, OStream.read"],
 state=[("position","uncompressed bytes delivered since the last rewind","gitdb/stream.py")])
p("C04","Delta chains resolve to the bytes their commands describe",
 "An object stored as a chain of deltas of any length over a base resolves to the bytes obtained by applying each delta's copy and insert commands in order, oldest first, with the base's type and the final delta's declared size. This holds for every valid encoding of the commands, offsets and lengths, including the implicit 64 KiB copy length and multi-byte offsets and sizes.",
 ["inputs","programs"],"every base, every chain of delta programs and every valid encoding of their commands",
 "Only the deltas that happen to be in three fixture packs (tiny objects, minimal encodings) are resolved, and only lengths are checked for most of them.",
 ["gitdb/stream.py","gitdb/fun.py","gitdb/pack.py"],
 [("sequential application with swapped buffers","gitdb/stream.py:DeltaApplyReader"),("command interpreter","gitdb/fun.py:apply_delta_data"),("variable length sizes","gitdb/fun.py:msb_size")],
 ["DeltaApplyReader.new(streams).read/size/type, apply_delta_data, PackEntity.stream/info"])
p("C05","Malformed deltas are rejected, never resolved to wrong bytes",
 "Resolving a delta that copies from outside its base, uses the reserved command, ends inside a command, or produces more or fewer bytes than it declares, or whose declared base size differs from its base, raises an error. No byte of a wrong result is ever returned to the caller.",
 ["inputs","programs"],"every delta program with any of these defects at any position, in any delta of a chain",
 "No test feeds a malformed delta.",
 ["gitdb/fun.py","gitdb/stream.py"],
 [("bounds check per command","gitdb/fun.py:apply_delta_data"),("declared size checks","gitdb/stream.py:DeltaApplyReader")],
 ["DeltaApplyReader.new(streams).read, apply_delta_data"])
p("C06","Merging a delta chain into one delta preserves its meaning",
 "Merging any chain of well-formed deltas into a single list of copy and insert chunks and applying it once to the base yields exactly the bytes of applying the deltas one after the other. The merged chunks tile the result without gap or overlap and their total equals the declared result size.",
 ["inputs","programs"],"every base and every chain of well-formed delta programs, including chains whose newest delta consists of inserts only",
 "No test calls the merging routines; they are only documented.",
 ["gitdb/fun.py"],
 [("top-down merge","gitdb/fun.py:connect_deltas, TopdownDeltaChunkList.connect_with_next_base"),("slicing","gitdb/fun.py:delta_list_slice"),("insert concatenation","gitdb/fun.py:DeltaChunkList.compress")],
 ["connect_deltas(streams), DeltaChunkList.apply/size/rbound/check_integrity"])
p("C07","Written packs and indices are faithful and self-consistent",
 "Writing any finite collection of objects produces a version 2 pack that declares exactly their number and holds each object whole with its type, size and content, ending in the SHA-1 of everything before it; the index written with it lists every object in id order with its true offset and the checksum of its stored bytes, cumulative fan-out counts, and both trailing checksums, which are also what the call returns. If fewer objects arrive than announced, or an object's stream ends before its announced size, the call raises; a stream may supply its content in pieces of any size.",
 ["inputs","configurations"],"every collection (empty, large, equal ids, any sizes), every compression level, with or without announced count and index",
 "One test writes the fixture objects twice and compares sizes and checksums with what the same library reads back.",
 ["gitdb/pack.py","gitdb/fun.py","gitdb/stream.py"],
 [("pack writer","gitdb/pack.py:PackEntity.write_pack, write_stream_to_pack"),("index writer","gitdb/pack.py:IndexWriter"),("entry header","gitdb/fun.py:create_pack_object_header")],
 ["bytes passed to the write callbacks of PackEntity.write_pack and IndexWriter.write, and returned checksums"])
p("C08","Pack index lookups are exact in both versions and for large offsets",
 "For every index of either version, the number of entries, each entry's id, offset and checksum, and the list of all offsets are exactly what the file records, including offsets beyond 31 bits; an index of any other version is refused, however often it is asked. Looking up an id returns the position of that id if it is present and nothing otherwise, whatever the distribution of ids.",
 ["inputs","configurations"],"every set of ids (any distribution over the fan-out), both index versions, every offset below 2^63, every queried id",
 "Two fixture indices with 30 and 67 scattered ids and small offsets; the 64-bit test is skipped and absent ids are not looked up.",
 ["gitdb/pack.py"],
 [("fan-out bisection","gitdb/pack.py:PackIndexFile.sha_to_index"),("entry accessors","gitdb/pack.py:_entry_v1/_offset_v1/_sha_v1, _entry_v2/_offset_v2/_sha_v2/_crc_v2"),("offset list","gitdb/pack.py:offsets")],
 ["PackIndexFile.size/sha/offset/crc/entry/offsets/sha_to_index/version"])
p("C09","Abbreviated ids resolve to the unique match or fail explicitly",
 "Given an abbreviated hexadecimal id of at least four digits, upper or lower case, every database that resolves abbreviations returns the full id if exactly one distinct stored id starts with it, raises the ambiguity error if several do, and the missing-object error if none does. This holds for odd and even lengths and whether the matches lie in one loose directory, in one pack, in several packs, or in several parts of a composite database, also when one object is stored in more than one place.",
 ["inputs","configurations"],"every set of ids distributed over loose, packed and alternate storage and every abbreviation length from four digits up",
 "Test data contains no two ids sharing a prefix, as a comment in the tests notes; the ambiguity error is never observed.",
 ["gitdb/pack.py","gitdb/db/loose.py","gitdb/db/pack.py","gitdb/db/base.py","gitdb/fun.py"],
 [("lowest match bisection","gitdb/pack.py:partial_sha_to_index"),("nibble comparison","gitdb/fun.py:is_equal_canonical_sha"),("merging candidates","gitdb/db/base.py:CompoundDB.partial_to_complete_sha_hex, gitdb/db/pack.py:partial_to_complete_sha")],
 ["GitDB/LooseObjectDB.partial_to_complete_sha_hex, PackedDB.partial_to_complete_sha, PackIndexFile.partial_sha_to_index"])
p("C10","Every pack entry is readable by id and by walking the pack",
 "For every pack and index, each listed object, stored whole or as offset or reference deltas in any order and mixture, is retrieved by id or by position with the type, size and content it denotes, and info and stream agree. Walking the pack from its start, or from any entry, yields each following entry exactly once at its true offset with its stored type, size and data, and stops at the trailer. A file which does not start like a pack is never read. A delta whose base is not in the pack is reported as an unresolvable object instead of yielding data.",
 ["inputs","configurations"],"every sequence of entries (types, sizes incl. empty, delta kinds, base distances and directions, chain depths) and every index order",
 "Three fixture packs without empty objects, without reference deltas to later entries or into offset chains, and with short distances.",
 ["gitdb/pack.py","gitdb/stream.py","gitdb/fun.py"],
 [("entry parsing","gitdb/pack.py:pack_object_at, gitdb/fun.py:pack_object_header_info"),("chain collection","gitdb/pack.py:PackFile.collect_streams, PackEntity.collect_streams_at_offset"),("sequential walk","gitdb/pack.py:PackFile._iter_objects")],
 ["PackEntity.info/stream/info_iter/stream_iter/info_at_index/stream_at_index/collect_streams, PackFile.stream_iter/info/stream/collect_streams"])
p("C11","Pack verification accepts intact entries and never damaged ones",
 "Verification of an object by stored checksum reports valid exactly when the stored bytes of its entry are those the index checksum was computed from, for every entry including the last one and with large offsets; verification by id reports valid exactly when the object obtained hashes to its id. Damage is reported as invalid, or as an error when the object cannot be decoded, never as valid.",
 ["inputs","fault_sequences"],"every pack layout, every entry, every damaged byte of the pack or index",
 "Tests verify undamaged fixture objects only.",
 ["gitdb/pack.py"],
 [("entry bounds","gitdb/pack.py:PackEntity offset map"),("checksum and id verification","gitdb/pack.py:PackEntity.is_valid_stream")],
 ["PackEntity.is_valid_stream(sha, use_crc)"])
p("C12","Creating a pack on disk is all-or-nothing, also for readers",
 "At whatever step pack creation crashes or hits an I/O error (including short writes), and at every step while it is running, a database on the same directory that is opened or refreshed finds all objects it had before without any error and finds either none or all of the new pack's objects, intact. A creation that returns has installed the pack and its index under the name of the pack's checksum; one that raises has left no file and no open descriptor behind.",
 ["crash_points","fault_sequences","schedules"],"every crash point, failing or short file-system call of a creation, and every reader step between them",
 "One test creates one pack without faults, crashes or readers.",
 ["gitdb/pack.py","gitdb/db/pack.py"],
 [("temporary files then two renames","gitdb/pack.py:PackEntity.create"),("pack discovery","gitdb/db/pack.py:PackedDB.update_cache")],
 ["file-system calls below the pack directory (LD_PRELOAD shim)","PackedDB opened on the directory after every call"])
p("C13","A packed database reflects the pack directory after refresh",
 "After a forced refresh, or a plain one once the directory's timestamp has advanced, a packed database answers from exactly the complete packs in its directory: objects of added packs are found with their content, objects only in removed packs are missing, all others stay found, and enumeration and size are the sums over those packs. The refresh reports whether it looked; without an advance it changes nothing, and neither the number nor the order of earlier queries ever influences an answer.",
 ["histories"],"every history of pack additions, removals, plain and forced refreshes and queries, including more queries than the internal reordering interval",
 "One test removes and re-adds one pack with forced refreshes and never crosses the reordering interval with mixed packs.",
 ["gitdb/db/pack.py"],
 [("refresh","gitdb/db/pack.py:PackedDB.update_cache"),("hit-count ordering","gitdb/db/pack.py:_pack_info, _sort_entities")],
 ["PackedDB.update_cache/has_object/info/stream/sha_iter/size/entities"],
 state=[("known packs","packs found by the last effective refresh","gitdb/db/pack.py")])
p("C14","A composite database is the union of its parts",
 "A composite database finds an object exactly when at least one of its parts holds it; membership operator, existence test, info and stream agree, and type, size and content do not depend on which part answers. Size and enumeration are the sums over its parts. After a refresh its answers reflect objects that were packed, unpacked, added, moved to or from alternates or deleted by others, including storage that did not exist when the database was opened.",
 ["histories","configurations"],"every distribution of objects over loose, packed and alternate storage and every history of stores, repacks, prunes, refreshes and queries on a long-lived instance",
 "Tests read one static repository and write 250 blobs to an empty one; nothing moves while an instance lives.",
 ["gitdb/db/base.py","gitdb/db/git.py","gitdb/db/loose.py","gitdb/db/pack.py","gitdb/db/ref.py"],
 [("lookup order and cache","gitdb/db/base.py:CompoundDB._db_query, update_cache"),("parts discovery","gitdb/db/git.py:GitDB._set_cache_"),("loose path cache","gitdb/db/loose.py:readable_db_object_path")],
 ["GitDB.has_object/__contains__/info/stream/size/sha_iter/store/update_cache"],
 state=[("location cache","part that answered for an id","gitdb/db/base.py")])
p("C15","Alternates follow the alternates file",
 "After a refresh, a database of alternates consults exactly the object directories listed in its file that can currently be opened, in file order for newly listed ones: objects of added directories become visible, those of removed ones vanish, and missing, invalid, blank or duplicate lines are ignored without error. A directory that was unavailable is picked up by a later refresh, alternates of alternates are followed, and every lookup terminates.",
 ["histories","configurations"],"every history of edits of the alternates file and of directories appearing or disappearing, and every finite graph of alternates",
 "One test edits the file three times with at most one valid entry.",
 ["gitdb/db/ref.py","gitdb/db/base.py","gitdb/db/git.py"],
 [("re-reading the file","gitdb/db/ref.py:_update_dbs_from_ref_file"),("delegation","gitdb/db/base.py:CompoundDB")],
 ["ReferenceDB.databases/update_cache/has_object/sha_iter, GitDB with info/alternates"])
p("C16","Lock files exclude each other and change files only by commit",
 "Of all processes using lock files on one path at most one holds the lock at a time, and the file's content changes only by a holder's commit, at once, to exactly what the holder wrote. A rollback, a dropped holder, a crash, an I/O error or a failed attempt to obtain the lock leaves the content and anyone else's lock untouched; commit, rollback and drop always release the holder's lock and descriptor, also when they fail. Reading under the lock returns the committed content.",
 ["schedules","crash_points","fault_sequences","histories"],"every interleaving of file-system steps of several processes, every crash point and failing call, every call sequence on a holder",
 "One test runs a fixed sequence in one process; no crash, fault or interleaving.",
 ["gitdb/util.py","gitdb/stream.py"],
 [("exclusive creation","gitdb/util.py:LockedFD.open"),("rename on commit","gitdb/util.py:LockedFD._end_writing"),("drop","gitdb/util.py:LockedFD.__del__"),("stream wrapper","gitdb/stream.py:FDStream")],
 ["LockedFD.open/commit/rollback/del and file-system calls on the file and its .lock (LD_PRELOAD shim)"])
p("C17","The memory database behaves like storage and copies faithfully",
 "An in-memory database assigns the same ids and returns the same types, sizes and contents as a loose database for every stored object, including objects supplied already encoded with their id preset, and every stream request starts at the first byte whatever was read before. Copying objects to another database of any kind transfers exactly those not present there, returns their number, and leaves them readable there with identical id, type, size and content.",
 ["inputs","histories"],"every history of stores, partial reads, queries and copies between memory and loose databases",
 "One test stores 250 4-byte blobs, reads each fully and copies them once into an empty loose database.",
 ["gitdb/db/mem.py","gitdb/stream.py","gitdb/db/loose.py"],
 [("in-memory compressing store","gitdb/db/mem.py:store, gitdb/stream.py:ZippedStoreShaWriter"),("shared rewound stream","gitdb/db/mem.py:stream"),("direct copy","gitdb/db/mem.py:stream_copy")],
 ["MemoryDB.store/has_object/info/stream/size/sha_iter/stream_copy"])
p("C18","Redirected stores compute the same id and touch nothing",
 "While an output stream is installed, storing an object assigns it the same id as a real store and sends exactly the object's encoded form to that stream, and neither creates, changes nor deletes anything in the database, nor makes the object visible. Installing a stream returns the one installed before, an unsuitable stream is refused leaving the installed one in place, and removing it restores normal storing.",
 ["inputs","histories"],"every history of installing, removing and refusing output streams interleaved with stores of any objects, one fresh stream per store",
 "One test redirects one 16-byte blob; the directory is not inspected.",
 ["gitdb/db/loose.py","gitdb/db/base.py","gitdb/db/git.py","gitdb/stream.py"],
 [("redirect","gitdb/db/base.py:ObjectDBW.set_ostream, gitdb/db/loose.py:set_ostream, store")],
 ["LooseObjectDB/GitDB.set_ostream/ostream/store, directory contents"])
p("C19","Concurrent lookups never miss a present object",
 "Once a packed database has loaded its list of packs, lookups made concurrently by several threads give every thread the same answers as if made alone: a present object is never reported missing nor an absent one present, whatever the interleaving with the internal reordering of packs and however often it happens.",
 ["schedules"],"every interleaving of the steps of concurrent lookups, at and around the internal reordering interval",
 "All tests are single-threaded; the interval is never hit by two threads.",
 ["gitdb/db/pack.py"],
 [("priority reordering during lookups","gitdb/db/pack.py:_pack_info, _sort_entities")],
 ["PackedDB.has_object/info from several threads under a controlled scheduler"],
 state=[("pack order","list of packs sorted by hits","gitdb/db/pack.py")])
p("C20","Descriptors are released with the streams that use them",
 "A loose database holds open descriptors only for object streams that are still referenced: storing, querying and failing operations leave none behind, and a dropped or closed stream releases its own. A packed database holds a bounded number per known pack, independent of how many objects are read.",
 ["histories","fault_sequences"],"every history of stores, infos, streams held, closed and dropped, missing-object and corrupt-object errors",
 "The suite runs with a low descriptor limit, which only notices leaks of dozens of handles on the paths it happens to take.",
 ["gitdb/db/loose.py","gitdb/stream.py","gitdb/util.py","gitdb/pack.py"],
 [("map closing","gitdb/stream.py:DecompressMemMapReader.close/__del__"),("file closing","gitdb/util.py:file_contents_ro_filepath"),("info","gitdb/db/loose.py:info")],
 ["/proc/self/fd around each operation"])
p("C21","Packs of any size are read correctly",
 "Objects are found and read with their exact size and content wherever they lie in a pack, also beyond 1, 2 and 4 GiB and across any internal mapping boundary, and verification and the end of the pack are right for packs larger than what is mapped at once.",
 ["inputs","configurations"],"every position of an entry in packs of up to many GiB, every order of accesses",
 "All test packs are a few hundred KiB, well inside one mapping window.",
 ["gitdb/util.py","gitdb/pack.py"],
 [("memory manager","gitdb/util.py:mman"),("entry access through a window","gitdb/pack.py:pack_object_at, PackFile.data, PackFile.checksum")],
 ["PackEntity.info/stream/is_valid_stream, PackFile.stream/checksum on sparse packs"])
p("C22","Write streams hash, hand on and report exactly what is written",
 "Every write stream hashes exactly the bytes written to it, in whatever pieces, and tells their digest at any moment in both notations. It hands exactly those bytes on, in order: to its function, to its descriptor, or compressed such that what was stored decompresses to them once it is closed. A write returns the number of bytes it was given or raises; bytes that a descriptor doesn't take are never lost without an error, also in closing, and closing releases the descriptor even if it fails. Positions told and bytes read back from a descriptor are true.",
 ["inputs","fault_sequences","histories"],"every split of data into writes, every moment a descriptor or function stops taking data, every sequence of calls",
 "The suite writes one or two chunks to each stream and never to one that refuses data.",
 ["gitdb/stream.py"],
 [("hashing and compressing writers","gitdb/stream.py:Sha1Writer, FlexibleSha1Writer, ZippedStoreShaWriter, FDCompressedSha1Writer"),("descriptor stream","gitdb/stream.py:FDStream")],
 ["the writers on memory, functions, files with a size limit and full devices"],
 state=[("held","bytes kept by the compressor until it is flushed","gitdb/stream.py:FDCompressedSha1Writer.zip")])
p("C23","Types, sizes and ids survive their encodings",
 "For every object type and every size from 0 to far beyond 64 bits, the header written for a pack entry or a loose object is, byte by byte, the one git defines, and is read back as the same type, size and header length from any kind of memory, whatever follows it; so is the size in front of a delta at any position. A size that does not end is refused. Ids convert to 40 digits and back without loss, in upper and lower case.",
 ["inputs"],"all types, sizes of any number of bits, paddings, positions and following bytes",
 "Tests only meet the headers of their few small fixtures.",
 ["gitdb/fun.py","gitdb/util.py"],
 [("entry header","gitdb/fun.py:create_pack_object_header, pack_object_header_info"),("loose header","gitdb/fun.py:loose_object_header, loose_object_header_info"),("delta size","gitdb/fun.py:msb_size"),("ids","gitdb/util.py:to_hex_sha, to_bin_sha")],
 ["headers as bytes and the values read from them"])
p("C24","Failures while reading pass without a trace",
 "Whatever system calls fail while a database is opened, queried or refreshed, or whether its directory is gone for a while: nothing wrong is ever told about an object, a stream never ends early without an error, and no descriptor is left behind. An access which raised has not been taken for an answer: the next one tries again. Once nothing fails any more, a plain refresh is enough for the same database to find exactly what is there, also what was added, moved or removed during the failure; a refresh that failed is not taken as done.",
 ["faults","histories"],"every sequence of queries, refreshes and outside changes with any system call of any of them failing once or from there on",
 "No test lets a call fail while reading.",
 ["gitdb/db/pack.py","gitdb/db/git.py","gitdb/db/ref.py","gitdb/db/loose.py","gitdb/db/base.py","gitdb/pack.py","gitdb/util.py"],
 [("list of packs","gitdb/db/pack.py:PackedDB._set_cache_, update_cache"),("parts","gitdb/db/git.py:GitDB._set_cache_, _update_dbs"),("alternates","gitdb/db/ref.py:_update_dbs_from_ref_file"),("reading a loose object","gitdb/db/loose.py:_map_loose_object, gitdb/util.py:file_contents_ro_filepath")],
 ["PackedDB, LooseObjectDB, GitDB, ReferenceDB: has_object, in, info, stream, sha_iter, partial_to_complete_sha[_hex], update_cache; /proc/self/fd"])
p("C25","Damaged storage is reported, never delivered cut short",
 "Whatever bytes the file of a loose object or of a pack holds - cut off or overwritten anywhere, with a header that does not end, has no valid size or a reserved type, declaring more or less than is there, or at a place the index gets wrong: information and stream are told with the type and size the header declares, or an error is raised. However such a stream is read, it delivers exactly the declared number of bytes the stored data decodes to, or raises; it never ends early without an error. Copying such an object into a database or pack raises and leaves nothing behind, unless all of it was there. Undamaged objects beside it are answered as ever, all ids are still enumerated, nothing hangs, and no descriptor is left behind.",
 ["inputs","histories"],"every damage at every place of loose objects and packs, every sequence of queries, reads, rewinds and copies",
 "The suite reads intact objects only.",
 ["gitdb/stream.py","gitdb/fun.py","gitdb/pack.py","gitdb/db/loose.py"],
 [("reader of compressed objects","gitdb/stream.py:DecompressMemMapReader.read, _parse_header_info"),("headers","gitdb/fun.py:loose_object_header_info, pack_object_header_info"),("entries of packs","gitdb/pack.py:pack_object_at, PackEntity._object"),("applying deltas","gitdb/stream.py:DeltaApplyReader"),("storing","gitdb/db/loose.py:LooseObjectDB.store, gitdb/pack.py:PackEntity.write_pack")],
 ["LooseObjectDB, PackedDB, GitDB, PackEntity: info, stream, read, seek, sha_iter; store and PackEntity.create of their streams; /proc/self/fd"])
p("C26","File contents, allocated memory and copies of streams are exact",
 "The contents asked for from a file - by path or by descriptor, mapped or read, as memory or as a stream, of any size including none, however little one system call provides and whether mapping works or not - are exactly its bytes: the length, every slice, index and read of them, in any order and interleaving, none of which but reads and seeks moves the position. The descriptor opened for a path is closed, also on errors; one handed in stays open; no failure is swallowed. Allocated memory gives back what was written to it. Copying up to a number of bytes of a stream passes on exactly the first of them, in order and nothing else, whatever pieces its source provides; it asks for no more than a chunk at a time, never for bytes beyond that number (nor for 0, which means everything to most streams), and returns how many it passed on; writing an object puts its header in front and counts it.",
 ["inputs","histories","faults"],"every content, size, sequence of slices, reads and seeks, every way in which reads come short or fail, every chunk size",
 "The suite reads one small file and copies whole streams.",
 ["gitdb/util.py","gitdb/fun.py"],
 [("contents of files","gitdb/util.py:file_contents_ro, file_contents_ro_filepath, _RandomAccessBytesIO"),("memory","gitdb/util.py:allocate_memory"),("copies","gitdb/fun.py:stream_copy, write_object")],
 ["file_contents_ro, file_contents_ro_filepath, allocate_memory and what they return; stream_copy and write_object with recording sources and sinks; system calls failing or short"])
p("C27","A repository is shared with git: each side reads what the other wrote",
 "Git and gitdb may use the same object directory, also one with alternates, in any order. Whatever git writes - loose objects at any compression level, packs with deltas referring to their bases by offset or by id, of any depth, with indices of version 1 or 2 or with 64 bit offsets, repacked, pruned, fetched - gitdb answers after a refresh exactly: presence, type, size, content, enumeration and abbreviations are those of the objects git has, and git's packs verify. Before a refresh nothing wrong is told, and what was there stays to be found as long as packs were only added. Whatever gitdb stores or packs, git reads with the same ids, types and contents, accepts the pack when verifying it, and would write the same index for it.",
 ["histories","inputs"],"every history of writes, packs, maintenance, refreshes and queries by both sides, every set of objects, every way git may lay them out",
 "The suite reads fixtures written once; nothing gitdb writes is given to git.",
 ["gitdb/db/git.py","gitdb/db/pack.py","gitdb/db/loose.py","gitdb/pack.py","gitdb/stream.py","gitdb/fun.py"],
 [("packs of the database","gitdb/db/pack.py:PackedDB.update_cache"),("reading packs and indices","gitdb/pack.py:PackIndexFile, PackFile, PackEntity"),("writing packs","gitdb/pack.py:PackEntity.write_pack, IndexWriter"),("loose objects","gitdb/db/loose.py:LooseObjectDB"),("deltas","gitdb/stream.py:DeltaApplyReader, gitdb/fun.py:apply_delta_data")],
 ["GitDB on directories of bare repositories; PackEntity on git's packs; git cat-file, rev-parse --disambiguate, verify-pack, index-pack on gitdb's files"])
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+'\n')
print(len(P))
