"""Single source of the property texts. `python3 tools/mkmanifest.py` regenerates
properties.jsonl and MANIFEST.json from it."""

def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                anchors=dict(files=list(files),
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=list(observe), hook_needed=None))

FS = "src/store/filesystem.rs"; ST = "src/storage.rs"; CH = "src/chunk.rs"; LIB = "src/lib.rs"
ND = "src/ndarray.rs"; DT = "src/data_type.rs"; CM = "src/compression/mod.rs"

PROPS = [
P("C01", "Store operations never leave the base directory",
  "Whatever node path or key it is given, no operation of a filesystem hierarchy opens, creates, truncates, removes, lists, tests or returns the location of a path other than its base directory joined with a relative key whose `..` components never step above the base directory at any point along the key; every other key is rejected with an error. "
  "(Creating a missing base directory or missing parent directories of the file to be written is part of this.) Removing a group, array or prefix deletes symbolic links themselves and never follows them into what they point at.",
  ["inputs"], "every node path, prefix and chunk key string (including ones mixing `..`, `.` and normal components in any order)",
  "the one unit test samples eight keys; whether every filesystem call goes through the key check, and whether the check holds for every order of components, is a statement about all inputs and all call sites",
  [FS, ST, LIB], [("key to path translation", FS + " get_path"), ("per-operation path computation", FS + " impl ReadableStore/ListableStore/WriteableStore")],
  [("base directory", "root of everything the hierarchy may touch", FS + " FilesystemHierarchy.base_path")],
  ["every std::fs / File / WalkDir call"]),
P("C02", "Stored files are only accessed under the matching lock",
  "A stored file's bytes (values and the hierarchy's entry point document) are only read while a shared or exclusive advisory lock on that open file is held, and a stored file is only truncated, written or removed while an exclusive one is held. "
  "The lock is taken by a blocking call whose failure is returned as an error, and it stays held until the reader or writer is finished with the file.",
  ["schedules"], "every interleaving of readers, writers and removers in one or several processes",
  "the tests are single-threaded, so a missing, late, wrong-kind or prematurely released lock changes nothing they observe",
  [FS], [("lock_shared on get", FS + " get"), ("lock_exclusive on set/erase/erase_prefix/open_or_create", FS)],
  [], ["File::open, OpenOptions::open, lock calls, set_len, reads, writes, remove_file"]),
P("C03", "A write replaces the whole stored value",
  "Storing a value under a key creates missing parent directories, discards the previous content completely before the first new byte is written but never before the exclusive lock is held (opening alone does not truncate), and writes from the start of the file, so that after success the stored value is exactly the bytes written.",
  ["histories", "schedules"], "every earlier content (shorter, longer, absent) and every concurrent reader",
  "one test shortens one chunk once; it cannot show that truncation happens on every path, nor that it never happens before the lock",
  [FS], [("open without truncate, lock, set_len(0)", FS + " set")], [], ["OpenOptions flags, File::set_len, writer construction"]),
P("C04", "A write reports success only when every byte was accepted",
  "An operation that stores something (a chunk, array or group metadata, attributes, the entry point document) returns success only if every byte of the value, including bytes still buffered and the trailing bytes a compressor emits when it is finished, was handed to the operating system without an error. "
  "An I/O error at any of these steps is returned to the caller: it is neither dropped nor turned into a panic.",
  ["fault_sequences"], "every write, flush and compressor-finish call failing (disk full, quota, I/O error)",
  "no test injects a write error; with small values all the I/O happens in destructors, whose errors are silent",
  [FS, ST, CH, "src/compression/"], [("writer hand-off and flush", FS + " set, open_or_create; " + ST + " set_attributes/create_group/create_array"), ("compressor finish", CH + " write_chunk; src/compression/*.rs encoder")],
  [], ["the value returned by the storing operation versus the results of write/flush/finish"]),
P("C05", "A rejected chunk write leaves the stored chunk unchanged",
  "A chunk write that is refused because the chunk's element type does not match the array or its element count differs from the array's chunk size returns an error and leaves the store exactly as it was: an existing chunk keeps its content and no file is created. "
  "Every chunk write with a wrong type or a wrong element count is refused.",
  ["inputs", "histories"], "every chunk (type, number of elements) and every earlier content of the store",
  "the tests check that a short write errs, not what the failed write did to the chunk already stored",
  [ST, CH], [("type and size validation", CH + " check_array_type, write_chunk"), ("store mutation", ST + " write_chunk -> WriteableStore::set")], [], ["WriteableStore::set relative to the validation results"]),
P("C06", "Element type mismatches are always rejected",
  "Decoding or encoding a chunk as a Rust element type whose kind (bool, signed, unsigned, float, raw) or size differs from the array's data type fails with an error on every chunk read and write path, before any stored byte is interpreted; a type that matches up to byte order is always accepted. "
  "The data type each supported Rust element type stands for has that type's own kind and size.",
  ["inputs", "configurations"], "every pair of array data type and Rust element type, on every read and write entry point",
  "tests only use matching types, for 12 of the pairs",
  [CH, DT], [("check_array_type", CH), ("eq_modulo_endian and ReflectedType::ZARR_TYPE", DT)], [], ["chunk decode/encode entry points"]),
P("C07", "Chunk bytes follow the array's declared byte order",
  "For every multi-byte element type, both encoding and decoding use exactly the byte order the array's data type declares (big-endian data types big-endian, little-endian ones little-endian), independent of the machine's own byte order, and encode and decode the same number of bytes per element. "
  "Single-byte types are stored byte for byte, with booleans written as 0 or 1 and any non-zero byte read as true.",
  ["inputs", "configurations"], "all element types times both byte orders times all element values",
  "round-trip tests use the native order on both sides, so an order that is wrong the same way on both sides, or only for one type, passes",
  [CH, DT], [("vec_data_chunk_impl! and the hand-written bool/u8/f16 impls", CH), ("DataType::endian", DT)], [], ["read_data / write_data of each element type"]),
P("C08", "A chunk is transferred completely or the operation fails",
  "A chunk read that succeeds has filled every element of the chunk from stored bytes: if the stored stream ends early, or reading it fails, the read returns an error and never leaves leftover or default elements behind. "
  "A chunk write hands every element of the chunk, once and in order, to the compressor, and passes on any error.",
  ["inputs", "fault_sequences"], "every stored stream length and every chunk size, including sizes that are not a multiple of internal buffer sizes, and short reads and writes",
  "tests use in-memory or local files that never return short counts, and at most a few sizes",
  [CH], [("read_exact / read_*_into / write_all on the whole buffer", CH)], [], ["calls on the source and target streams in read_data / write_data"]),
P("C09", "Every compression scheme decodes what it encodes",
  "In every feature configuration, each compiled-in compression scheme pairs an encoder and a decoder of the same codec and stream format, for values written in one or many pieces; the scheme read back from stored metadata is the scheme that was stored. "
  "Each scheme's displayed name parses back (case-insensitively) to the same scheme, and no two schemes share a name or stored identifier.",
  ["configurations", "inputs"], "all schemes under all feature combinations, and all write granularities",
  "the default-feature test matrix builds one configuration and writes at most a few hundred elements per chunk; parsing of names is not tested",
  [CM, "src/compression/"], [("CompressionType encoder/decoder/Display/FromStr/serde tables", CM)], [], ["encoder/decoder constructors, name tables"]),
P("C10", "Codec parameters from metadata never abort the program",
  "Whatever compression parameters (level, preset, block size) array metadata carries, building an encoder or decoder for it never panics: parameters outside the codec library's accepted range are replaced by accepted ones before they reach it, and accepted ones are passed on unchanged. "
  "A parameter that is absent from the metadata takes its documented default.",
  ["inputs"], "all values of every codec parameter's integer type",
  "tests only use default parameters",
  ["src/compression/"], [("get_effective_level / get_effective_block_size and siblings", "src/compression/*.rs")], [], ["arguments of the codec libraries' constructors"]),
P("C11", "Data type names round-trip and malformed names are errors",
  "Every data type (each kind, size, byte order, and raw sizes in whole bytes) is written to metadata under the name the specification gives it and reading that name back yields the same data type, up to the byte order of single-byte types. "
  "A string that is not such a name is rejected with an error, never a panic.",
  ["inputs"], "all data type values and all strings",
  "three doc examples are deserialized; serialization of most values and rejection of malformed names are not tested",
  [DT], [("Serialize/Deserialize for DataType and the *_char tables", DT)], [], ["serialize / visit_str"]),
P("C12", "Metadata documents round-trip under the specified field names",
  "Array, group, entry point, chunk grid and extension metadata written by the library read back as the same value: every field is written and read under the same, specified key (including the row-major `C` / column-major `F` tags), and no field is dropped, except a default compressor and absent optional values, which read back as that default.",
  ["inputs"], "all metadata values",
  "two documents are deserialized in tests; there is no test that what is serialized carries every field",
  [LIB, DT, CM], [("serde derives and attributes", LIB)], [], ["serialized field tables versus deserialized field tables"]),
P("C13", "Unsupported hierarchies and extensions are always refused",
  "Opening a hierarchy, by every constructor, fails if its entry point document declares a protocol version this library does not support or any extension marked must-understand; loading array metadata fails if any of its extensions is marked must-understand. "
  "Hierarchies and arrays without such declarations are not refused on these grounds.",
  ["inputs"], "all entry point and array documents, any position of the offending extension",
  "no test opens an incompatible hierarchy or a document with extensions",
  [FS, ST], [("read_entry_point_metadata, open, open_or_create", FS), ("get_array_metadata", ST)], [], ["returned hierarchy or metadata values"]),
P("C14", "Loaded array metadata is well formed",
  "Array metadata obtained from a hierarchy always has as many chunk dimensions as array dimensions, no zero-length chunk dimension, and a regular chunk grid; a stored document that violates any of these is reported as an error when it is loaded, and well-formed documents are accepted.",
  ["inputs"], "all stored array documents",
  "tests load one well-formed document; the constructor's assertion does not apply to deserialized documents",
  [ST, LIB], [("ArrayMetadata::new assertion", LIB), ("get_array_metadata", ST)], [], ["values returned by get_array_metadata"]),
P("C15", "Chunk keys are specified, distinct and shared by all operations",
  "The storage key of a chunk is the data root, the node path without surrounding slashes, and `c` followed by all grid coordinates in decimal, in order, separated by the array's own separator with none leading or trailing; so distinct grid positions of an array have distinct keys. "
  "Reading, reading into a buffer, writing, deleting and locating a chunk all use exactly this key for the position they were given.",
  ["inputs"], "all node paths, separators and grid positions, and all chunk operations",
  "one doc test checks three positions; agreement between the five operations is only sampled at a few positions",
  [ST, LIB], [("get_chunk_key, canonicalize_path", ST)], [], ["keys passed to the store by each chunk operation"]),
P("C16", "Grid extents and bounds are exact",
  "Along each dimension the chunk grid has exactly ceil(array size / chunk size) positions, without overflow for any array size; the number of chunks is their product (for arrays whose number of chunks fits the integer type). "
  "A grid position is in bounds exactly when it has the array's number of dimensions and each coordinate is smaller than the grid extent.",
  ["inputs"], "all array shapes and chunk shapes (including 1, non-dividing, larger than the array, and sizes near the integer maximum)",
  "two doc examples; off-by-one errors at chunk size 1 or chunk size > array size go unnoticed",
  [LIB, ND], [("u64_ceil_div, get_grid_extent, get_num_chunks, in_bounds", LIB), ("coord_iter", ND)], [], ["returned extents"]),
P("C17", "Out-of-bounds chunk reads are errors and never reach storage",
  "Reading a chunk (by either read operation) at a grid position outside the array's grid, or with the wrong number of dimensions, returns an error without panicking and without accessing the store; every in-bounds position is looked up. This holds for all well-formed array metadata (as many non-zero chunk dimensions as array dimensions).",
  ["inputs"], "all grid positions",
  "no test reads out of bounds",
  [ST], [("in_bounds checks in read_chunk and read_chunk_into", ST)], [], ["store reads relative to the bounds check"]),
P("C18", "Chunk iteration visits exactly the intersecting chunks",
  "Iterating the chunks of an array, or those of a bounding box, yields exactly the grid positions inside the grid whose chunk intersects the box (all of them, each once, none for an empty intersection), and the reported remaining length is exact and never panics. "
  "Box intersection, union, end points, translation and chunk bounds are exact coordinate-wise, for boxes whose end points fit the integer type; an empty intersection has a zero extent, wherever it is placed.",
  ["inputs"], "all boxes, array shapes and chunk shapes",
  "one array shape and a few boxes are tested",
  [ND], [("BoundingBox, bounded_coord_iter, coord_iter, CoordIterator, get_chunk_bounds", ND)], [], ["iterator arguments and box fields"]),
P("C19", "Region reads place stored elements correctly and fill the rest",
  "Reading a bounding box yields, at each position covered by an existing chunk, that chunk's element for the position, and at every position whose chunk is missing the array's fill value (or, when reading into a caller's array, what the caller's array held); data left in a reused buffer by another chunk is never used. (For positions inside the array, and boxes and chunks whose end points fit the integer type.) "
  "A box or destination with the wrong dimensionality or shape is an error.",
  ["inputs", "histories"], "all boxes, offsets, array shapes, patterns of missing chunks and reused buffers",
  "one dense region and one all-zero region are tested",
  [ND], [("read_ndarray, read_ndarray_into_with_buffer", ND)], [], ["slice bounds and assignments into the output array"]),
P("C20", "Region writes change exactly the region",
  "Writing an array at an offset stores each element at its position and preserves all other elements of partially covered chunks: the existing chunk is read and merged, or, if it is missing, completed with the array's fill value. "
  "Only a chunk entirely covered by the region is written without reading it first, and a failure to read or write a chunk is returned. An offset or array with the wrong number of dimensions is an error.",
  ["inputs", "histories"], "all offsets, shapes, existing chunk patterns and fill values",
  "one write into an empty array is tested",
  [ND], [("write_ndarray", ND)], [], ["chunks passed to write_chunk"]),
P("C21", "Creating a node never overwrites one that exists",
  "Creating an array fails, changing nothing, if an array or an explicit group already exists at its path; creating a group fails, changing nothing, if an array exists there and succeeds without changing anything if the group already exists. "
  "An error while testing for existence is returned and never treated as absence.",
  ["histories", "fault_sequences"], "all earlier histories of creations at a path",
  "the tests create each node once",
  [ST], [("create_group, create_array", ST)], [], ["store writes relative to existence checks"]),
P("C22", "Removal covers the node and everything below it, nothing else",
  "Removing a group or array erases its own metadata document, the metadata of every node below it and all chunk data below it, so that none of them exists afterwards; nothing outside that node is erased, and any failure is returned. "
  "Erasing a key that is absent succeeds, and erase operations report true exactly when the key is gone on return.",
  ["histories", "inputs"], "all hierarchies and node paths, including the root",
  "removal is called once in tests and its effect on child nodes is never examined",
  [ST, FS], [("remove, delete_chunk", ST), ("erase, erase_prefix", FS)], [], ["keys and prefixes erased"]),
P("C23", "Attribute updates preserve everything else",
  "Setting attributes changes, in the node's stored metadata document, only the top-level attribute keys given, each replaced by the given value; all other attributes, metadata fields and unrecognised fields are kept. "
  "Attributes of an array are kept in its array document and those of an explicit group in its group document, for reading and for writing, and a node that does not exist is an error.",
  ["histories", "inputs"], "all stored documents and attribute maps",
  "a few attribute maps on library-written documents are tested; preservation of other fields is not observed",
  [ST], [("set_attributes, list_attributes, merge_top_level", ST)], [], ["document written versus document read"]),
P("C24", "Reading and listing never modify the store",
  "No read-only operation (opening an existing hierarchy, existence tests, metadata, attribute and chunk reads, region reads, listing, locating a chunk) ever creates, truncates, writes, renames or removes a file or directory, nor takes an exclusive lock.",
  ["inputs", "histories"], "every read-only operation on every store state",
  "tests do not compare the store before and after reads",
  [FS, ST, ND], [("HierarchyReader/HierarchyLister/ReadableStore/ListableStore implementations", FS + ", " + ST)], [], ["filesystem effects reachable from read-only operations"]),
P("C25", "Listings name every entry once, under usable keys",
  "Listing a prefix returns each file below it as the key under which the store can read it and each directory as the prefix under which the store can list it, so that recursive listing reaches every key; a failure to inspect an entry is returned. "
  "Listing the nodes of a group returns the name, relative to the group, of every array, explicit group and implicit group directly below it, each once, and nothing else.",
  ["inputs", "histories"], "all hierarchies and prefixes",
  "one test lists a root with a single symlinked directory and no metadata",
  [ST, FS], [("list_dir", FS), ("list_nodes, list_prefix", ST)], [], ["returned key strings"]),
P("C26", "Malformed stored data is an error, never a panic",
  "Opening a hierarchy, loading array metadata, attributes and versions, and decoding chunks return an error for malformed, truncated or unsupported stored content; none of them panics on any stored bytes.",
  ["inputs"], "all contents of the entry point, metadata and chunk files",
  "tests only read well-formed documents",
  [DT, ST, FS, CH, "src/compression/"], [("DataTypeVisitor, effective_type, decoders", DT)], [], ["panic sites reachable with values read from storage"]),
P("C27", "No operation waits for a lock while holding one",
  "No operation acquires a file lock, or calls back into the store, while it still holds a lock on another (or the same) stored file, so that no set of concurrent operations can deadlock and no operation can block itself.",
  ["schedules"], "all interleavings of concurrent operations",
  "single-threaded tests cannot deadlock except on the very same file",
  [FS, ST, ND], [("reader and writer lifetimes", FS + ", " + ST)], [], ["lock acquisitions with live locked files"]),
P("C28", "Memory layout is applied consistently",
  "Chunk elements are laid out in storage row-major when the array declares C order and column-major when it declares F order, in region reads and in region writes alike, for full, partial and newly created chunks.",
  ["inputs", "configurations"], "both orders, all shapes and all kinds of chunk write",
  "tests use one layout per direction and mostly compare the library with itself",
  [ND], [("shape_ndarray_shape, extend_from_array", ND)], [], ["shape constructions and element iteration order"]),
P("C29", "Concurrent metadata changes are not lost",
  "When several threads or processes create nodes or set attributes at the same path at once, the outcome is that of some sequential order: no attribute update is lost and no creation silently overwrites another.",
  ["schedules"], "all interleavings of two or more metadata operations",
  "tests are single-threaded",
  [ST], [("read-modify-write in set_attributes; check-then-create in create_group/create_array", ST)], [], ["store reads and writes of one key within one operation"]),
P("C30", "Interrupted writes leave the old or the new value",
  "If the process dies in the middle of storing a value, a later read of that key yields the complete old value or the complete new one.",
  ["crash_points"], "every point at which a write may be interrupted",
  "no test kills a writer",
  [FS], [("in-place overwrite in set", FS)], [], ["file content after a crash"]),
P("C31", "Compressed streams decode to identical bytes",
  "For every codec, parameter and byte sequence, decompressing the compressed sequence yields that sequence.",
  ["inputs"], "all byte sequences and parameters",
  "tests compress a few sequences",
  ["src/compression/"], [("third-party codec libraries", "src/compression/*.rs")], [], ["decoded bytes"]),
]
