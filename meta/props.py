SOUND = "Sound for the stated rule over every path of the compiled program, up to the listed effects of code outside the workspace, which are taken from its documentation; "
PROPS = [
 dict(id="C01", title="Reading operations never modify the file system",
  statement="Opening, listing, reading, inspecting and verifying an archive never creates, changes, truncates, renames or deletes any file, through the library, the C API or the command-line tool. Only building an archive, extracting a file to a path the caller gives, and saving the tool's own configuration write to disk.",
  over=["inputs", "histories", "configurations"], forall="every archive, every sequence of read operations, every option",
  tests="Tests compare contents, not the state of the file system after each call, and sample a few archives; a write on one rarely taken branch is invisible to them.",
  files=["mopaq/src/archive.rs", "storm-ffi/src/lib.rs", "storm-cli/src/commands"], mech=[("archives are opened with File::open", "mopaq/src/archive.rs Archive::open_with_options"), ("writes only in build / extract / config save", "mopaq/src/builder.rs, storm-ffi/src/lib.rs SFileExtractFile, storm-cli/src/commands")],
  technique="interprocedural effect analysis over the MIR call graph", note=SOUND + "trait-object calls are resolved to every implementation in the workspace."),
 dict(id="C02", title="Building publishes the destination file atomically",
  statement="Building an archive never leaves a partial or damaged file at the destination: the archive is written completely to a new temporary file in the destination's directory, and only then moved onto the destination in one step. If any step fails, whatever was at the destination before is untouched.",
  over=["crash_points", "fault_sequences", "inputs"], forall="every failure of any read, write, seek, flush or compression during a build, and every crash point before publication",
  tests="No test injects I/O failures or crashes; they only build successfully.",
  files=["mopaq/src/builder.rs"], mech=[("NamedTempFile::new_in(parent) and persist(path)", "mopaq/src/builder.rs ArchiveBuilder::build")],
  technique="effect, value-flow and typestate analysis over MIR", note=SOUND + "rename(2) on one file system is assumed atomic; durability across power loss (fsync) is not claimed."),
 dict(id="C03", title="A failing step makes the build fail",
  statement="If anything fails while an archive is being built (reading a source file, compressing, encrypting, creating an internal table, writing, seeking or flushing), the build returns an error; it never reports success for an archive that was not written as requested.",
  over=["fault_sequences", "inputs"], forall="every fallible operation on every path of a build",
  tests="Tests exercise successful builds and two or three specific errors; I/O and codec failures are not injected.",
  files=["mopaq/src/builder.rs", "mopaq/src/tables", "mopaq/src/compression"], mech=[("errors are propagated with ?", "mopaq/src/builder.rs")],
  technique="failure-flow analysis (path-sensitive dataflow over MIR)", note=SOUND + "a failure means a Result that is Err; conditions the code never turns into a Result are outside the rule."),
 dict(id="C04", title="Read failures surface as errors, never as content",
  statement="When opening an archive, looking up, listing, reading or decompressing a file, an I/O error, a truncated archive, an undecodable sector or an unreadable table is reported as an error; it is never replaced by empty, partial or default content. Only the documented optional parts (extended tables, missing attributes, listfile text encoding) may be skipped.",
  over=["inputs", "fault_sequences"], forall="every fallible call on every path of the read side, for every archive",
  tests="A handful of malformed archives are tried; each fallible call has its own failure path that no test takes.",
  files=["mopaq/src/archive.rs", "mopaq/src/tables", "mopaq/src/compression", "mopaq/src/header.rs"], mech=[("errors are propagated with ?, read_exact instead of read", "mopaq/src/archive.rs")],
  technique="failure-flow analysis (path-sensitive dataflow over MIR)", note=SOUND + "tolerated failures are listed by callee in props/c04.py and quoted in the evidence."),
 dict(id="C08", title="The C API never dereferences a NULL argument",
  statement="No exported C function dereferences a pointer argument that is NULL, whatever the other arguments are: optional outputs are skipped and missing required arguments make the call fail.",
  over=["inputs"], forall="every combination of NULL and non-NULL arguments of every exported function",
  tests="Tests pass NULL for a few arguments of a few functions; the combinations are not enumerated and most would crash the test process.",
  files=["storm-ffi/src/lib.rs"], mech=[("is_null checks before use", "storm-ffi/src/lib.rs")],
  technique="path-sensitive nullness analysis with callees inlined", note=SOUND + "pointers other than NULL are assumed valid for the documented size."),
 dict(id="C09", title="The C API writes only inside caller buffers, counts exactly",
  statement="An exported C function never writes more bytes through a buffer argument than the size the caller passed with it, copies strings with their terminating NUL, and never copies beyond the end of its own data. A read copies from the current position, reports exactly the number of bytes copied and advances the position by exactly that number.",
  over=["inputs", "histories"], forall="every buffer size, file length, position and information class",
  tests="Tests pass generous buffers; a one-byte overflow at an exact boundary neither crashes nor changes the compared bytes.",
  files=["storm-ffi/src/lib.rs"], mech=[("size checks and min() before copies", "storm-ffi/src/lib.rs SFileReadFile, SFileGetFileInfo, SFileGetArchiveName")],
  technique="symbolic bounds analysis over path facts (intervals and term equality)", note=SOUND + "buffers of functions that take no size are assumed large enough, as documented."),
 dict(id="C10", title="Last error always tells why a C call failed, or that it succeeded",
  statement="Every exported C function that reports success or failure leaves a non-zero last-error code exactly when it reports failure, set by that very call, and leaves the success code when it reports success, on every path.",
  over=["inputs", "histories"], forall="every path of every exported function, after any history of earlier calls",
  tests="Tests look at the last error after a few failing calls; a path that leaves a stale code from an earlier call looks the same as a correct one.",
  files=["storm-ffi/src/lib.rs"], mech=[("set_last_error before each return", "storm-ffi/src/lib.rs")],
  technique="path-sensitive typestate analysis over MIR", note=SOUND + "which code is set on failure is not judged, only that it is a failure code."),
 dict(id="C11", title="The C API cannot deadlock, also not from callbacks",
  statement="No exported C function can block forever on the library's own locks: no call requests a lock its thread already holds, no two calls on different threads can wait for each other, and caller-supplied callbacks run with no lock held, so they may call back into the API.",
  over=["schedules", "histories", "programs"], forall="every interleaving of calls from any threads, every callback behaviour",
  tests="Tests are single-threaded and their callbacks do not call the API.",
  files=["storm-ffi/src/lib.rs"], mech=[("lock scopes and their order", "storm-ffi/src/lib.rs")],
  technique="lockset and lock-order analysis, path-sensitive", note=SOUND + "locks inside std and dependencies are assumed not to call back."),
 dict(id="C12", title="C handles are unique, and dead once closed",
  statement="Every handle the C API gives out is different from all others and never NULL, whatever its kind. A call on a handle that was never given out or is closed fails; closing an archive also closes every file handle opened from it and no other, even if another thread opens a file of it at the same moment.",
  over=["schedules", "histories"], forall="every history of open and close calls on any threads",
  tests="Tests open and close a few handles on one thread; a race between opening a file and closing its archive never happens in them.",
  files=["storm-ffi/src/lib.rs"], mech=[("handle tables and the id counter", "storm-ffi/src/lib.rs ARCHIVES, FILES, NEXT_HANDLE"), ("purge of file handles", "storm-ffi/src/lib.rs SFileCloseArchive")],
  technique="typestate and value-flow analysis of the handle tables under locksets", note=SOUND + "the 64-bit counter is assumed not to wrap around."),
 dict(id="C23", title="Building the same archive twice gives identical bytes",
  statement="The bytes of a built archive are a function of the builder's settings and the added files only: two builds from the same inputs, in any process, at any time, give byte-identical archives.",
  over=["inputs", "configurations", "histories"], forall="every set of files and options, every run",
  tests="Tests build each archive once; hash-map iteration order, clocks and random values vary between processes.",
  files=["mopaq/src/builder.rs", "mopaq/src/tables", "mopaq/src/compression"], mech=[("no clock, randomness or unordered iteration on the build path", "mopaq/src/builder.rs")],
  technique="effect and value-flow (nondeterminism taint) analysis", note=SOUND + "external codecs are assumed deterministic."),
 dict(id="C26", title="Archives are independent and the library is memory-safe by construction",
  statement="Operations on one archive or builder can never affect another one, in the same or another thread: the library has no mutable global or thread-local state, changes no process-wide setting, and contains no unsafe code.",
  over=["schedules", "programs", "histories"], forall="every program using the library from any number of threads",
  tests="Tests use one archive at a time and cannot observe hidden sharing.",
  files=["mopaq/src"], mech=[("plain owned data, no statics with interior mutability", "mopaq/src")],
  technique="whole-crate query over types, statics and effects", note=SOUND + "dependencies' internal caches are not analysed."),
 dict(id="C18", title="Encrypted files and tables are keyed the same way on both sides",
  statement="Whatever is stored encrypted can be decrypted by its reader: for every encrypted file, with or without the position-adjusted (FIX_KEY) key, single unit or sectored, in a stand-alone or embedded archive, the builder and the reader derive the same key for every sector and for the sector offset table from the file's name, position and size; the hash and block tables are encrypted with the very keys the reader uses.",
  over=["inputs", "configurations"], forall="every file name, position, size, sector count, encryption option and archive version",
  tests="Tests encrypt a few small files in archives at offset 0; a key that differs only for the second sector, for a shifted archive or for one option combination is not among them.",
  files=["mopaq/src/builder.rs", "mopaq/src/archive.rs", "mopaq/src/tables"], mech=[("key derivation of the writer", "mopaq/src/builder.rs calculate_file_key, write_file"), ("key derivation of the reader", "mopaq/src/archive.rs read_file, read_sectored_file"), ("table keys", "mopaq/src/tables/hash.rs, block.rs")],
  technique="symbolic value-flow of every cipher key plus path-sensitive typestate", note=SOUND + "that the block cipher inverts itself for equal keys is C31."),
 dict(id="C30", title="A file's flags describe exactly how its bytes are stored",
  statement="For every file the builder stores, the flags, sizes and position recorded in its block entry describe the stored layout exactly: single unit or sector table, compressed or plain, encrypted or plain, with or without checksums; and the reader interprets every flag combination as that same layout, so that what was added is what read_file returns.",
  over=["inputs", "configurations"], forall="every file content and size (empty, incompressible, one or many sectors), compression, encryption and checksum option, archive version",
  tests="Tests sample some option combinations with compressible data; files whose sectors all stay uncompressed, empty files or odd flag combinations are read back in few of them.",
  files=["mopaq/src/builder.rs", "mopaq/src/archive.rs", "mopaq/src/tables/block.rs"], mech=[("writer layout and flags", "mopaq/src/builder.rs write_file"), ("reader dispatch on flags", "mopaq/src/archive.rs read_file, read_sectored_file")],
  technique="path-sensitive typestate analysis of writer and reader with branch facts, compared path set against path set", note=SOUND + "the codecs and the cipher are treated as opaque; see C18, C19, C31."),
 dict(id="C19", title="Every compression method is undone by its own decompressor",
  statement="For every method byte: whatever compress produces, decompress with the same byte undoes, applying the inverse codecs in reverse order; bytes that could not be undone are refused by compress. Compressed data is used only when it is shorter than the input including its method byte, and starts with that byte; otherwise the input itself is returned. Runs written by the sparse codec are read back as runs of the same kind and length.",
  over=["inputs", "configurations"], forall="every method byte (all 255), every input length and content",
  tests="Tests compress a few inputs with the single methods; combinations, boundary lengths (compressed exactly as long as the input, runs of exactly 127) are not sampled.",
  files=["mopaq/src/compression"], mech=[("dispatch by method byte", "mopaq/src/compression/compress.rs, decompress.rs, methods.rs"), ("sparse codec", "mopaq/src/compression/algorithms/sparse.rs")],
  technique="abstract interpretation specialised to each method byte; linear facts; interval analysis of run lengths", note=SOUND + "the external codecs (zlib, bzip2, lzma, pklib) and the lossy ADPCM arithmetic are opaque."),
 dict(id="C29", title="A C call reports success only if the work behind it succeeded",
  statement="Whenever an archive operation, file-system operation or conversion performed by an exported C function fails, or the named file does not exist, the function reports failure; success is never reported for work that was not done. Verification treats attributes that cannot be loaded as absent, and enumeration skips names C cannot express; nothing else is ignored.",
  over=["inputs", "faults", "histories"], forall="every failing operation at every call site of every exported function",
  tests="Tests exercise successful calls and missing files; damaged listfiles, unreadable tables and failing writes are not simulated.",
  files=["storm-ffi/src/lib.rs"], mech=[("error branches of each exported function", "storm-ffi/src/lib.rs")],
  technique="path-sensitive failure-flow analysis with callees inlined", note=SOUND + "which error code is used is not judged."),
 dict(id="C05", title="Recorded checksums guard the data: mismatches are never accepted",
  statement="Reading a file stored as a single unit with a checksum succeeds only if the stored checksum equals that of exactly the content returned; the checksum the builder records is the one the reader computes, for single units (content) and for each sector (bytes as stored, before encryption). SFileVerifyFile returns true only if every CRC-32 and MD5 that was requested (no flags: all) and is recorded in the attributes equals that of the file's whole content. A mismatching sector of a multi-sector file is logged and tolerated, by design.",
  over=["inputs", "configurations", "faults"], forall="every content, flag combination (compressed, encrypted, FIX_KEY), stored checksum and verification flag",
  tests="Tests verify intact files; a comparison skipped for one flag combination, or a digest of the wrong bytes on both sides of one code path, passes them.",
  files=["mopaq/src/archive.rs", "mopaq/src/builder.rs", "storm-ffi/src/lib.rs"], mech=[("checksum comparison on reading", "mopaq/src/archive.rs read_file, read_sectored_file"), ("checksum generation", "mopaq/src/builder.rs write_file"), ("explicit verification", "storm-ffi/src/lib.rs SFileVerifyFile")],
  technique="path-sensitive provenance analysis of digests and their comparisons", note=SOUND + "the digest functions themselves (adler, crc32fast, md-5) are trusted; attributes that cannot be loaded count as absent."),
 dict(id="C24", title="Extraction writes only below the directory the user chose",
  statement="No name stored in an archive can make the command line tools write outside of the chosen output directory: every path written by extracting is either chosen by the user alone or the output directory joined with path components that cannot climb out of it (no parent references, no absolute path, no drive prefix).",
  over=["inputs"], forall="every archive and every name in its listfile or tables",
  tests="Tests extract archives with well-behaved names.",
  files=["storm-cli/src/commands", "storm-ffi/src/lib.rs"], mech=[("target path of extraction", "storm-cli/src/commands/file.rs extract, extraction_path")],
  technique="taint analysis of archive names to file-system writes, with path-component sanitisers", note=SOUND + "symbolic links already present below the output directory are outside the claim; the C API extracts to the path its caller names."),
 dict(id="C25", title="A failing command exits with an error",
  statement="Whenever an operation a command line subcommand performs fails, also for just one file of many, or a verification finds damage, the process exits with a non-zero status; success is never reported for work that was not done.",
  over=["inputs", "faults"], forall="every subcommand, option and failing operation at every call site",
  tests="The tests hardly run the binary; no test damages an archive and looks at the exit status.",
  files=["storm-cli/src"], mech=[("error propagation to main", "storm-cli/src/main.rs, storm-cli/src/commands"), ("verify findings", "storm-cli/src/commands/archive.rs verify")],
  technique="path-sensitive failure-flow analysis with counters and collections of failures", note=SOUND + "a panic counts as a failing exit (Rust exits with 101); attributes that are simply absent are not failures."),
 dict(id="C06", title="A signature is reported valid only if it covers the whole archive",
  statement="A weak or strong signature is reported as valid only if the complete decrypted signature block (padding included) is well-formed and equals the digest of every byte of the archive, with exactly the (signature) file's bytes taken as zero; an invalid signature, or one that could not be checked, is never accepted by SFileVerifyArchive, by archive information, or by `archive verify`.",
  over=["inputs", "faults"], forall="every archive content, signature file content, and position of the (signature) file relative to the hashed chunks",
  tests="Tests parse headers of signatures and check one wrong signature; no valid signature exists in the test data, and no test flips single bytes of archive or padding.",
  files=["mopaq/src/crypto/signature.rs", "mopaq/src/archive.rs", "storm-ffi/src/lib.rs", "storm-cli/src/commands/archive.rs"], mech=[("padding and digest comparison", "mopaq/src/crypto/signature.rs verify_weak_signature, verify_strong_signature"), ("hashed ranges", "mopaq/src/crypto/signature.rs calculate_mpq_hash_md5, calculate_mpq_hash_sha1"), ("status decision", "mopaq/src/archive.rs verify_signature")],
  technique="symbolic dataflow of compared byte ranges with linear entailment of range coverage; must-check analysis of the status users", note=SOUND + "RSA arithmetic (num-bigint) and digests (md-5, sha1) are trusted; a strong signature whose check fails with an I/O error counts as absent, never as valid."),
 dict(id="C16", title="The archive header says where everything is, in every format version",
  statement="In every archive built, each header field of its format version holds, at the offset and width the MPQ format gives it, the true value: each table's position is where that table's first byte was written (split into low and high parts where the format does), each count is the number of entries written, each V4 size the number of bytes written, the archive size is the end of the archive. The reader takes each field from that same place, in exactly the versions that have it, and loads each table from archive offset + recorded position with the recorded count.",
  over=["inputs", "configurations"], forall="every format version, table size, archive size (also beyond 4 GB) and embedding offset",
  tests="Tests build small archives at offset 0: high parts of positions are all zero there, and a field both sides misplace in the same way still round-trips.",
  files=["mopaq/src/header.rs", "mopaq/src/builder.rs", "mopaq/src/archive.rs"], mech=[("header reading", "mopaq/src/header.rs MpqHeader::read and accessors"), ("header writing", "mopaq/src/builder.rs build, write_header"), ("table loading", "mopaq/src/archive.rs load_tables")],
  technique="path-sensitive symbolic trace of the stream (positions, widths, values) in writer and reader, compared with the format table", note=SOUND + "values beyond what a field can represent (32-bit sizes) are not judged here."),
 dict(id="C07", title="V4 table checksums cover the real bytes and a mismatch is always reported",
  statement="In every version 4 archive built, each MD5 in the header is the digest of exactly the bytes stored for its table, and the header's MD5 that of the 192 header bytes before it. A checksum is reported as valid only if the digest of the bytes at the recorded position and size equals the recorded one, or the table is absent; the archive information always carries the result of that comparison.",
  over=["inputs", "configurations", "faults"], forall="every version 4 archive, intact or damaged in any byte of a table or header, stand-alone or embedded",
  tests="Tests verify intact archives; damage to a single table, a table hashed in the wrong form (before compression or encryption) or a forgotten comparison are not sampled.",
  files=["mopaq/src/archive.rs", "mopaq/src/builder.rs"], mech=[("checksum validation", "mopaq/src/archive.rs validate_v4_md5_checksums, get_info"), ("checksum generation", "mopaq/src/builder.rs")],
  technique="path-sensitive provenance analysis of digests over the symbolic stream trace", note=SOUND + "MD5 itself (md-5) is trusted."),
 dict(id="C17", title="A name finds exactly the file that was stored under it",
  statement="Every file added to a build gets a hash entry with the two name hashes, locale and block index of that file, in an unused slot along the probe sequence of its name, and a block entry (with its high position part) at that index; the tables are written and read back with the same layout. Looking a name up follows the same probe sequence, skips deleted entries, stops only at an unused slot or after a full round, returns an entry only if both name hashes match, and the data then read come from the position recorded in that entry. A HET/BET hit counts only if the full name hash agrees.",
  over=["inputs", "histories"], forall="every set of names, locales, table sizes and collisions, every format version, every archive read",
  tests="Tests store a few names whose hashes rarely collide; wrap-around, deleted slots, locale variants, positions above 4 GB and false HET matches are not met.",
  files=["mopaq/src/builder.rs", "mopaq/src/tables/hash.rs", "mopaq/src/tables/block.rs", "mopaq/src/archive.rs"], mech=[("add_to_hash_table and the block entry of each pending file", "mopaq/src/builder.rs"), ("HashTable::find_file probes from hash_string(name, TABLE_OFFSET)", "mopaq/src/tables/hash.rs"), ("find_file computes position and sizes", "mopaq/src/archive.rs")],
  technique="symbolic value-flow over MIR, compared between writer and reader; path-sensitive typestate for loops and lookups", note=SOUND + "that two different names never share all three hashes is assumed, as by the format; HashTable probing when the table is full is not claimed."),
 dict(id="C20", title="What does not fit the format is refused, not truncated",
  statement="A build never records a size or position that was cut to fit its field: files of 4 GB and more and version 1 archives beyond 4 GB make the build fail, and in later versions positions above 4 GB are recorded with their high part.",
  over=["inputs"], forall="every number and size of files, every format version",
  tests="No test builds archives of several gigabytes.",
  files=["mopaq/src/builder.rs", "mopaq/src/tables/block.rs"], mech=[("block entry of each stored file", "mopaq/src/builder.rs"), ("size check at the end of write_archive", "mopaq/src/builder.rs")],
  technique="symbolic value-flow over MIR (narrowing conversions) and path-sensitive branch facts", note=SOUND + "counts of files and tables beyond 2^32 are not considered."),
 dict(id="C27", title="Listing shows every file, each with its own data",
  statement="Listing an archive reports every name of its (listfile) that the archive holds, or, without names, every existing BET or block table entry; nothing that exists is left out and nothing is removed again. Each entry reported carries the size, stored size, flags and name hashes of that very file. The (listfile) a build generates names every file added, one per line, and is itself part of the archive; parsing a (listfile) drops only empty lines and comments.",
  over=["inputs", "configurations"], forall="every archive and (listfile), every set of files built, all listing functions",
  tests="Tests list small archives of ordinary files; empty or encrypted files, other locales, entries above some index, deleted entries or unusual names are not listed in any of them.",
  files=["mopaq/src/archive.rs", "mopaq/src/builder.rs", "mopaq/src/special_files/listfile.rs"], mech=[("list, list_all and the variants with hashes", "mopaq/src/archive.rs"), ("prepare_listfile", "mopaq/src/builder.rs"), ("parse_listfile", "mopaq/src/special_files/listfile.rs")],
  technique="symbolic value-flow over MIR for the entries reported; path-sensitive round analysis of the listing loops", note=SOUND + "decoding of single BET entries is opaque; names holding ';' or line ends cannot be represented in a (listfile)."),
 dict(id="C32", title="Every file is stored the way it was added",
  statement="Every file added to a builder is stored with its own content, name, locale and compression method: encrypted if and only if encryption was asked for, with the position-adjusted key if and only if that was asked for, and with checksums if and only if the builder was told to generate them. Each setter of the builder changes its own setting to the value given and nothing else; the functions that take fewer options use the documented defaults.",
  over=["inputs", "configurations"], forall="every sequence of builder calls, every content and size, every option combination, every format version",
  tests="Tests use a few option combinations and mostly check that contents read back; a file stored unencrypted, with another file's options or without its checksum reads back just as well.",
  files=["mopaq/src/builder.rs"], mech=[("add_* functions and setters", "mopaq/src/builder.rs"), ("the calls of write_file in both archive writers", "mopaq/src/builder.rs"), ("write_file sets the flags", "mopaq/src/builder.rs")],
  technique="symbolic value-flow over MIR from the builder's arguments to each store call; path-sensitive flags against branch facts", note=SOUND + "that flags and bytes agree is C30, that the named entry is found again C17."),
 dict(id="C33", title="Attribute files are read and written in the standard layout",
  statement="Parsing an (attributes) file yields, for every block of the block table, exactly the attributes the file stores for that block: after the version and flags come, in this order and each only if its flag is set, the CRC32 (4 bytes), file time (8), MD5 (16) arrays with one little-endian element per block, and the patch bits, one per block with the lowest bit first. Writing produces that same layout, with zeros for missing values, so parsing it again gives the same attributes. A file long enough for the arrays it announces is not refused for its size.",
  over=["inputs", "configurations"], forall="every flag combination, every number of blocks, every stored value",
  tests="Tests parse a handful of files with one or two blocks; element order, bit positions beyond the first byte and unusual flag combinations are not reached.",
  files=["mopaq/src/special_files/attributes.rs"], mech=[("Attributes::parse, to_bytes, get_file_attributes", "mopaq/src/special_files/attributes.rs")],
  technique="path-sensitive typestate of the array order against the flag tests; symbolic value-flow over MIR for element indices and widths", note=SOUND + "that the attribute of the right block is used when verifying is C05."),
 dict(id="C34", title="Names are hashed in full, without regard to case and slash direction only",
  statement="The hashes by which files are found and keyed (bucket, name A and B, file key, HET) are the same for two names that differ only in ASCII case or in '/' against '\\', and every byte of a name enters them: no byte is passed over, none ends the name, and no other two byte values are taken for each other. The cipher table behind them is the published one.",
  over=["inputs"], forall="every name, every byte value including control characters and bytes above 127",
  tests="Tests hash a few ASCII names; bytes above 127, control characters and long names are not reached.",
  files=["mopaq/src/crypto/hash.rs", "mopaq/src/crypto/keys.rs"], mech=[("hash_string and jenkins_hash", "mopaq/src/crypto/hash.rs"), ("folding tables and cipher table", "mopaq/src/crypto/keys.rs")],
  technique="constant propagation of each of the 256 byte values through one round of the hashing loops over MIR, with the running hash symbolic; comparison of compile-time constants", note=SOUND + "that each lookup hashes the name it was given is C17."),
 dict(id="C35", title="C calls act on the archive and file they are given",
  statement="Every C call works on exactly the archive or file its handle stands for and the name it is given, unchanged. An opened file has that file's whole content, size and name and starts at position 0; seeking counts from the beginning, the current position or the end as asked; sizes, positions, names and info classes reported are the handle's own. Extraction writes the named file's content to the path given; enumeration hands out every listed name the mask does not exclude. SFileCreateArchive replaces an existing file only for the dispositions create-always and truncate-existing.",
  over=["inputs", "histories"], forall="every handle, name, offset, info class, disposition and prior sequence of calls",
  tests="The C API has a few tests on one archive; other files, big sizes, unusual dispositions and info classes are not reached.",
  files=["storm-ffi/src/lib.rs"], mech=[("SFileOpenArchive, SFileOpenFileEx, SFileExtractFile, SFileHasFile, SFileVerifyFile", "storm-ffi/src/lib.rs"), ("SFileSetFilePointer, SFileGetFileSize, SFileGetFileInfo", "storm-ffi/src/lib.rs"), ("SFileCreateArchive, SFileEnumFiles", "storm-ffi/src/lib.rs")],
  technique="symbolic value-flow over MIR from each C argument and handle to the archive call, stored handle or output; path-sensitive disposition analysis", note=SOUND + "memory bounds and counts of the outputs are C09, failures C29."),
 dict(id="C36", title="The command line does what was asked, for every file",
  statement="Creating an archive from the command line stores every file below the source directory (all levels unless recursion is switched off) under its path relative to the source, leaving out only directories and what an ignore pattern matches, with the format version, compression, sector size and listfile that were asked for. Each command works on the archive it names. Extraction writes, for every listed file or the one named, its own unchanged content to a path made from its own name. Listing and finding print every file the archive lists except those the given pattern, read as a glob or regular expression and with or without regard to case as asked, does not match. Hash values shown are those of the name and type asked for.",
  over=["inputs", "histories"], forall="every combination of options, every source tree and every archive",
  tests="The tests of the tool cover a few option values on small trees; other options, deeper trees and unusual names are not reached.",
  files=["storm-cli/src/main.rs", "storm-cli/src/commands/archive.rs", "storm-cli/src/commands/file.rs", "storm-cli/src/output.rs"], mech=[("options of archive create", "storm-cli/src/main.rs"), ("create, add_directory_to_archive", "storm-cli/src/commands/archive.rs"), ("list, extract, find", "storm-cli/src/commands/file.rs"), ("print_file_list and friends", "storm-cli/src/output.rs")],
  technique="symbolic value-flow over MIR of the whole tool from main, with the branch facts each value is chosen under; path-sensitive loop analysis", note=SOUND + "paths outside the target are C24, failures C25; the text formats themselves are not judged."),
 dict(id="C31", title="Cipher and codecs are exact inverses on all data",
  statement="Decrypting with the key used for encrypting gives back every block of bytes, and for each codec decompress(compress(x)) = x for every x.",
  over=["inputs"], forall="every byte sequence, key and codec",
  tests="Round trips are tested on samples; the claim is about every content.",
  files=["mopaq/src/crypto/encryption.rs", "mopaq/src/compression/algorithms/adpcm.rs"], mech=[("encrypt_block, decrypt_block", "mopaq/src/crypto"), ("codec implementations and the flate2, bzip2, lzma-rs, pklib crates", "mopaq/src/compression")],
  na="The claim is about values computed by data-dependent loops (a running key, Huffman trees, third-party codecs); a sound static argument would be a proof of the algorithms, and no dataflow or type-level abstraction in reach relates the output to the input. What is structural (same keys on both sides, inverse codec dispatch, tail bytes, method byte) is claimed as C18 and C19."),
 dict(id="C14", title="No archive makes the library panic, hang or exhaust memory",
  statement="Opening, listing and reading any byte sequence as an archive ends with a result or an error, without panicking, looping forever or allocating far more than the file's size.",
  over=["inputs"], forall="every byte sequence",
  tests="Tests use a handful of damaged archives.",
  files=["mopaq/src/archive.rs", "mopaq/src/tables/het.rs", "mopaq/src/tables/bet.rs", "mopaq/src/header.rs"], mech=[("parsing of headers, tables and sectors", "mopaq/src")],
  na="Deciding it needs bounds on run-time quantities (offsets, counts and shift widths read from the file) at every index, arithmetic operation, loop and allocation; the code bounds few of them, so an interval analysis reports hundreds of sites, among them genuine ones (listed in the section on limits) and many that are unreachable for reasons it cannot see."),
 dict(id="C15", title="Archives are interchangeable with StormLib and the games",
  statement="Archives written here are read correctly by other MPQ implementations and the other way round.",
  over=["inputs", "environments"], forall="every archive of every implementation",
  tests="Compatibility is sampled with a few archives.",
  files=["mopaq/src/lib.rs"], mech=[("file format as a whole", "mopaq/src")],
  na="The oracle is software outside of this repository; its source cannot be analysed here. The layout facts that follow from the published format (header fields, table entries, flags, sector tables) are claimed as C16, C17 and C30."),
]
