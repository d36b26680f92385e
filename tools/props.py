# Properties of DLite and how each is decided; executed by mkmanifest.py.
SIM = ("Seeded search: each run is a deterministic simulation of processes using the real library; a clean batch is evidence, "
       "not proof. ")

prop("S01", "An acknowledged save is durable and exact",
     "When saving an instance to a JSON or HDF5 file has been reported as successful (and the storage closed), every later process that "
     "loads it by UUID or URI gets an equal instance: same metadata, dimension sizes and property values, bit for bit. Other instances "
     "saved to the same file in the same or an earlier session, unless truncation was requested, are still there and unchanged, and "
     "listing the file shows each saved instance exactly once.",
     ["histories", "inputs", "schedules"],
     "All sequences of create, change, save (any entry point, mode, format option, driver), open/close, load, list and process restart by "
     "several clients, over all metadata shapes and property values, under any split of reads and writes into short ones.",
     "Tests save and load a few fixed instances in one process; option combinations, restarts in between, values needing escapes or all "
     "digits, and repeated appends are never combined.",
     ["src/dlite-storage.c", "src/dlite-entity.c", "src/dlite-json.c", "src/utils/jstore.c", "storages/json/dlite-json-storage.c", "storages/hdf5/dh5lite.c"],
     [("save and load through the storage plugin API", "src/dlite-entity.c: dlite_instance_save*(), dlite_instance_load*()"),
      ("JSON store written when the storage is closed", "storages/json/dlite-json-storage.c: json_close(), src/utils/jstore.c"),
      ("HDF5 groups per instance", "storages/hdf5/dh5lite.c")],
     ["return value of save and close", "instance returned by load in a later process", "UUIDs listed from a storage"],
     [("file content", "the durable state that survives the process")],
     note=SIM + "Real json and hdf5 drivers and libhdf5 on simulated files; the reference model recomputes every value from the seed. "
          "A crash keeps what the kernel accepted (no power-loss model). The HDF5 format does not store the URI of an instance, so only its UUID is compared there.")

prop("S02", "A failed or interrupted save is reported and never corrupts other data",
     "If writing, flushing or closing a file fails (disk full, I/O error, no file descriptor) while saving to JSON or HDF5, the save or "
     "the close that completes it reports failure; it never claims success for data that cannot be loaded afterwards. A failed or "
     "interrupted save (also by a crash at any point) leaves the instances in memory unchanged and the process able to save again, other "
     "files keep their content, and in a JSON file each instance afterwards loads as its old or its attempted new value or is reported as an error, never as anything else.",
     ["fault_sequences", "crash_points", "histories"],
     "All placements of one failing system call or crash inside any save, open or close, in any history of saves to several files, "
     "followed by any further operations and process restarts.",
     "The tests never make a system call fail and never kill a process inside a save.",
     ["src/dlite-storage.c", "src/dlite-entity.c", "src/dlite-json.c", "src/utils/jstore.c", "storages/json/dlite-json-storage.c", "storages/hdf5/dh5lite.c"],
     [("checking results of write and close", "src/utils/jstore.c: jstore_to_file(), src/dlite-json.c: dlite_json_printfile(), storages/hdf5/dh5lite.c: set_data(), dh5_close()"),
      ("propagating close failures", "src/dlite-storage.c: dlite_storage_close(), src/dlite-entity.c: dlite_instance_save_loc()")],
     ["return value of save and close", "instance returned by load in a later process", "instances in memory after the failure"],
     note=SIM + "Nothing is promised about an HDF5 file whose writer failed or died (libhdf5 has no journal); after a fault inside libhdf5 the simulated process is replaced.")

prop("S03", "Reading a damaged or failing file never yields wrong data or a crash",
     "If reading a JSON or HDF5 file fails (I/O error, no file descriptor, truncated or corrupted file), a load either returns the saved "
     "value or reports an error; it never crashes, hangs, leaks a reference or returns a value that was never saved when the file itself is "
     "intact. After the fault is over the same load works again, and instances already in memory are unaffected.",
     ["fault_sequences", "inputs", "histories"],
     "All placements of a failing read, open or close inside loads and listings, and all truncations and (for JSON) byte changes of the "
     "stored files, in any history of saves and loads.",
     "The tests only read intact files with no failing system call.",
     ["src/dlite-json.c", "src/utils/jstore.c", "src/utils/jsmnx.c", "src/utils/fileutils.c", "storages/json/dlite-json-storage.c", "storages/hdf5/dh5lite.c", "src/dlite-entity.c"],
     [("validation while parsing", "src/dlite-json.c: parse_instance(), src/utils/jsmnx.c, src/dlite-type.c"),
      ("shape and type checks before reading into memory", "storages/hdf5/dh5lite.c: get_data()")],
     ["instance or error returned by load", "UUIDs listed from a storage", "memory errors (AddressSanitizer)"],
     note=SIM + "A file whose bytes were changed may load as any well-formed instance (there is no checksum): only memory safety and termination are checked then. "
          "HDF5 files are only truncated, since libhdf5 itself does not survive flipped bits.")

prop("S04", "One live object per identity, alive exactly as long as it is referenced",
     "An id (UUID in either case, URI, name, or URL ending with a UUID) maps to a UUID by the documented rule, and at any time at most one "
     "live object has that UUID: creating, getting, loading or parsing it again gives the same object and one more reference, a request with other "
     "metadata or dimensions is refused, and instances without id get a fresh version 4 UUID. An instance lives exactly as long as references to it are held "
     "(metadata also while the store or instances refer to it), is then found no more and its memory is released. "
     "An operation that fails (out of memory, no entropy, unreadable file) leaves counts, identities and the store as they were.",
     ["histories", "fault_sequences", "schedules"],
     "All interleavings of create, get, has, incref, decref, copy, load, parse and metadata creation by several clients over identities that "
     "alias or clash, with any single failure inside any of them.",
     "Tests create a handful of instances in one fixed order, look at few reference counts and never let an allocation fail.",
     ["src/dlite-entity.c", "src/dlite-misc.c", "src/dlite-json.c", "src/utils/uuid.c", "src/utils/map.c", "src/utils/session.c"],
     [("instance store keyed by UUID", "src/dlite-entity.c: _instance_store_*(), _instance_create()"),
      ("id to UUID", "src/dlite-misc.c: dlite_get_uuid()"),
      ("reference counts", "src/dlite-entity.c: dlite_instance_incref(), dlite_instance_decref(), dlite_instance_free()")],
     ["pointer, uuid, uri and reference count of every instance", "UUIDs listed from the store", "allocated bytes over repeated histories"],
     [("instance store", "the in-memory store of the session")],
     note=SIM + "The id to UUID rule is recomputed by an independent implementation. Searching the storage paths is not run out of memory here. "
          "Single-threaded: the API is documented as not thread-safe, clients are interleaved per call.")

prop("S05", "Property values and dimensions follow every accepted change exactly",
     "After any history of creating, setting, resizing, copying, freezing, scanning and reordering, every array has the size its dimension expressions give and every property "
     "the value last assigned; a resize keeps the leading elements and zeroes new ones, a copy shares nothing, what is printed scans back, and equal instances have equal hashes. "
     "A request that is invalid (unknown name, negative or absurd size, bad expression, frozen instance) or runs out of memory is refused and changes nothing. "
     "Strings and instances referred to are owned exactly once and released.",
     ["histories", "fault_sequences", "inputs"],
     "All sequences of value and dimension changes over generated metadata (all types, up to three dimensions given by expressions), with a failing "
     "allocation at any point of any of them.",
     "Tests use one or two metadata with constant shapes, never resize back and forth with strings or references inside, and never let an allocation fail.",
     ["src/dlite-entity.c", "src/dlite-type.c", "src/dlite-type-cast.c", "src/dlite-arrays.c", "src/utils/infixcalc.c", "src/utils/strutils.c"],
     [("dimension expressions", "src/dlite-entity.c: _instance_propdims_eval(), src/utils/infixcalc.c"),
      ("resizing", "src/dlite-entity.c: dlite_instance_set_dimension_sizes()"),
      ("setting and copying", "src/dlite-entity.c: dlite_instance_set_property*(), dlite_instance_copy(), src/dlite-type.c: dlite_type_copy(), dlite_type_ndcast()"),
      ("text form", "src/dlite-entity.c: dlite_property_print(), dlite_property_scan(), src/dlite-type.c: dlite_type_print(), dlite_type_scan()")],
     ["dimension sizes, array shapes, values and hashes of every instance after every operation", "reference counts of instances referred to", "allocated bytes over repeated histories"],
     note=SIM + "A resize that changes an inner dimension is only checked for shape, memory safety and that the next value set is right (the order of elements is not documented). "
          "References are not scanned back from text. The hash concatenates strings without separators, so such pairs are not compared.")

prop("S06", "Collections hold, save, load and release exactly their members",
     "After any history a collection reports exactly the labelled instances and relations that were added and not removed, and owns exactly one reference to each member it has access to: "
     "no instance is freed while a collection or user refers to it, and it is freed when the last of them lets go. "
     "Saving a collection and loading it in the same or another process (also with failing I/O or allocations, or after a crash) gives the same members and relations, shares instances that are "
     "already in memory, and reports missing members; a failing operation changes nothing. Collections have equal hashes exactly if their contents are equal.",
     ["histories", "fault_sequences", "crash_points"],
     "All histories of creating, nesting, adding, removing, getting, iterating, copying, hashing, saving and loading collections, with restarts and a failing call inside any of them.",
     "Tests add and remove a few instances in one fixed order, and never fail a call, nest collections over files or count references after a failure.",
     ["src/dlite-collection.c", "src/dlite-collection.h", "src/dlite-entity.c", "src/dlite-json.c", "storages/json/dlite-json-storage.c"],
     [("references owned by a collection", "src/dlite-collection.c: refs_get(), dlite_collection_add_new(), dlite_collection_remove(), dlite_collection_deinit()"),
      ("relations and properties in step", "src/dlite-collection.c: dlite_collection_loadprop(), dlite_collection_saveprop()"),
      ("look-up of members", "src/dlite-entity.c: dlite_instance_get()")],
     ["reference counts of all live instances", "relations, members and dimension of live collections", "what a later process loads", "hashes", "allocated bytes over repeated histories"],
     note=SIM + "Collections never contain themselves; the HDF5 plugin cannot store relations, so files are JSON.")
prop("S07", "Snapshots form a hash-protected history that survives crashes",
     "A snapshot is an immutable copy of an instance with a name no other snapshot has; freezing cannot be undone and every attempt to change a frozen instance or collection is refused. "
     "Each instance keeps the uuid and hash of its parent: snapshot n is the n-th ancestor whether it is in memory or is loaded or pulled back from a storage, in the same or a later process, "
     "and verification succeeds if and only if no verified ancestor was changed or is missing. Pushing stores the ancestors starting at the root, so that the parent of a stored snapshot is "
     "stored after a failure or crash at any point, and the failing snapshot is reported; a failing snapshot, set_parent or pull changes nothing it is not asked to.",
     ["histories", "fault_sequences", "crash_points"],
     "All histories of changing, freezing, snapshotting, pushing, pulling, continuing from, tampering with and verifying instances and collections over several processes, with a failing allocation, "
     "a failing storage driver or a crash of the process inside any of them.",
     "No storage that is shipped supports transactions, so tests never push, pull or verify anything that was stored, and never restart or fail in the middle of a history.",
     ["src/dlite-entity.c", "src/dlite-collection.c", "src/dlite-type.c", "src/utils/rng.c"],
     [("snapshots and parents", "src/dlite-entity.c: dlite_instance_snapshot(), dlite_instance_set_parent()"),
      ("walking and storing the history", "src/dlite-entity.c: dlite_instance_get_snapshot(), dlite_instance_pull_snapshot(), dlite_instance_push_snapshot()"),
      ("hash chain", "src/dlite-entity.c: dlite_instance_get_hash(), dlite_instance_verify_hash()")],
     ["values, flags, parents and reference counts of live instances", "records in the simulated storage after every operation and crash", "verdicts of verification"],
     note=SIM + "The storage driver is part of the simulator (durable records, transactions); everything above it is real code.")
prop("S08", "Triplestores behave as sets of relations under searches and changes",
     "After any history of adding, removing, clearing and searching, both triplestores (redland and the built-in one) hold exactly the set of (s, p, o, d) triples that were added and "
     "not removed: length, iteration, pattern searches, first match, unique value and look-up by id agree with that set, and a removal reports how many triples it removed. "
     "An iterator visits each triple that stays in the store exactly once and never one that was removed; a built-in store tolerates changes, clearing and freeing while iterators are open. "
     "A call that runs out of memory reports it and changes nothing but a leading part of what it should add, and all memory is released.",
     ["histories", "fault_sequences", "schedules"],
     "All sequences of operations on several stores, interleaved with up to three open iterators per store, with a failing allocation inside any of them.",
     "Tests run one short fixed sequence on one store, never change a store that is being searched, and never build or let fail the built-in store in the same configuration.",
     ["src/triplestore-redland.c", "src/triplestore-builtin.c", "src/triplestore.c", "src/triple.c"],
     [("matching of s, p, o and datatype", "src/triplestore-redland.c: find(), stream_map(), src/triplestore-builtin.c: match()"),
      ("deferred removal while iterating", "src/triplestore-builtin.c: _remove_by_index(), triplestore_deinit_state()"),
      ("id to index map", "src/triplestore-builtin.c: triplestore_add_triples(), fill_hole()")],
     ["triples given by every search and iterator", "length and return values", "allocated bytes over repeated histories"],
     note=SIM + "Both implementations are linked into one process (the built-in one under renamed symbols). A redland store is not changed while it is searched, as documented; "
          "allocations inside librdf itself never fail.")
prop("S09", "Lookup finds what is reachable, in order, and only that",
     "Getting an instance or metadata by URI or UUID returns the object already in memory, otherwise the version held by the first readable source in the documented order - hotlisted "
     "open storages, then the storage path in its current order - and fails cleanly, without side effects or leaks, if no source holds it; "
     "foreign, damaged or unreadable entries on the path never hide sources after them and never make other content appear. "
     "Storage path operations keep exactly the listed entries in order; iterating over or listing a storage with a pattern gives each matching instance exactly once, or fails - it is never silently incomplete.",
     ["histories", "fault_sequences", "crash_points"],
     "All sequences of storing, looking up, changing the path, opening, iterating and closing storages, with failing drivers, directories, files and allocations inside any of them, and restarts in between.",
     "Tests look up ids that exist in one good file; order, shadowing, bad entries on the path, failures half-way and iteration while storages close are never exercised.",
     ["src/dlite-entity.c", "src/dlite-storage.c", "src/dlite-json.c", "src/utils/fileutils.c", "storages/json/dlite-json-storage.c", "storages/hdf5/dh5lite.c"],
     [("lookup order", "src/dlite-entity.c: dlite_instance_get()"),
      ("storage path, hotlist, listing", "src/dlite-storage.c: dlite_storage_paths_*(), dlite_storage_hotlist_*(), dlite_storage_uuids()"),
      ("directory and glob iteration", "src/utils/fileutils.c: fu_pathsiter_next(), fu_glob()"),
      ("iteration with pattern", "src/dlite-json.c: dlite_jstore_iter_next()")],
     ["object returned and its version", "reference counts", "what is in memory afterwards", "content of the path", "ids listed"],
     note=SIM + "Storages are JSON and HDF5 files and two storages of the simulated driver; the network fallback (http) has no driver in the simulated process.")
prop("S10", "Mappings give the cheapest valid result and leave nothing behind",
     "Asking for an instance of other metadata (mapping, casting, getting from a collection, loading) succeeds exactly if the mapping plugins available on the current search path can derive it from the "
     "given instances, then along a cheapest path, each mapping being applied once to inputs of the metadata it declares; otherwise, and if a mapping fails or returns other metadata, it is refused with an error. "
     "The given instances keep their values and references, intermediate instances are released, and the caller owns exactly the result. "
     "Plugins that are broken, duplicated, unloaded or unreadable never hide the others, and a failing call (out of memory, directory error) changes nothing and leaks nothing.",
     ["histories", "fault_sequences", "inputs"],
     "All sequences of mapping, casting, planning, applying, and of installing, loading and unloading plugins, over generated graphs of mappings (cyclic, with ties, several inputs, failing mappers), with a failing "
     "allocation, mapper or directory inside any of them.",
     "Tests run one mapping plugin with one path, never compare costs, never let a mapper fail and never count references or reload plugins.",
     ["src/dlite-mapping.c", "src/dlite-mapping-plugins.c", "src/utils/plugin.c", "src/dlite-entity.c", "src/dlite-collection.c", "src/utils/dsl.c"],
     [("choice of path", "src/dlite-mapping.c: dlite_mapping_create_base()"),
      ("application and ownership of intermediates", "src/dlite-mapping.c: dlite_mapping_map()"),
      ("plugin search and registration", "src/utils/plugin.c: plugin_get_api(), plugin_load_all(), plugin_unload()")],
     ["metadata and value of the result", "log of the calls made to every mapper", "reference counts and the instance store", "registered plugins", "allocated bytes over repeated histories"],
     note=SIM + "The mappings are real shared libraries loaded by the real plugin code; what a mapper does is decided by the simulator. Mappers written in Python are not run.")


prop("S11", "JSON text and JSON stores lose, invent and damage nothing",
     "Every way to write an instance or metadata as JSON (buffer of any size or position, appended to other text, memory, stream, file; any format and indentation) and every way to read it gives an equal instance or, "
     "if one with that id is in memory, that one; the lengths and formats reported are exact and bytes outside the result are untouched. "
     "A JSON store is a map: whatever sequence of additions, removals, updates and transfers to and from strings and files, it holds exactly the last value of each key. "
     "Text that is truncated or malformed, ids that are missing, and operations that run out of memory or fail on I/O are reported, without changing or leaking anything.",
     ["histories", "fault_sequences", "inputs"],
     "All sequences of writing, appending, reading, checking and iterating over texts that a channel drops, repeats, reorders, truncates or garbles, and of store operations, with a failing allocation, read, write, open or close inside any of them.",
     "Tests print a handful of instances to one sufficiently large buffer, append once, and never read damaged text or let an allocation or write fail.",
     ["src/dlite-json.c", "src/utils/jstore.c", "src/utils/jsmnx.c", "src/utils/strutils.c", "src/dlite-type.c", "src/dlite-entity.c", "storages/json/dlite-json-storage.c"],
     [("printing", "src/dlite-json.c: dlite_json_sprint(), dlite_json_asprint(), dlite_json_append()"),
      ("scanning", "src/dlite-json.c: dlite_json_sscan(), parse_instance()"),
      ("format check", "src/dlite-json.c: dlite_json_check()"),
      ("store", "src/utils/jstore.c: jstore_addn(), jstore_update_from_jsmn(), jstore_update_file(), jstore_to_string()")],
     ["the text, parsed by an independent JSON reader", "values, metadata and references of the instance that is read", "guard bytes around buffers", "content of store and file against a map", "allocated bytes over repeated histories"],
     note=SIM + "Single process; the text between writer and reader goes through a simulated channel. Keys and URIs that need escaping in JSON are not generated.")

prop("S12", "Every error reaches the code that should handle it, once and complete",
     "An error, exception or warning-made-error raised in an ErrTry block, directly or inside any library call, is handled by the first clause of the innermost enclosing block of the same thread that accepts it, and by nothing else; "
     "if there is none it becomes the current error of that thread and is passed to the error handler exactly once. ErrElse runs exactly if there was no error, ErrFinally always; errors in a clause are never swallowed. "
     "The message holds the texts of all pending errors in order, up to the size of its buffer and never beyond. "
     "No warning, other thread, nested block or library call that succeeds (or whose failure is suppressed) clears, hides or changes a pending error, and a failing call only adds to it; "
     "ignoring or hiding some codes or warnings affects the printing of no others.",
     ["schedules", "histories", "fault_sequences"],
     "All nestings of blocks and clauses, sequences of errors with messages of any length, changes of modes, library calls and plugin loading in between, any interleaving of threads, with a failing allocation or file call inside library calls.",
     "The test has two fixed blocks in one thread, without nesting, warnings, long messages or library calls in between.",
     ["src/utils/err.c", "src/utils/err.h", "src/dlite-misc.c", "src/dlite-misc.h", "src/utils/plugin.c", "src/dlite-entity.c", "src/dlite-storage-plugins.c", "src/utils/fileutils.c"],
     [("reporting", "src/utils/err.c: _err_vformat()"),
      ("leaving a block", "src/utils/err.c: _err_unlink_record()"),
      ("clauses", "src/utils/err.h: ErrTry, ErrCatch, ErrOther, ErrElse, ErrFinally, ErrEnd"),
      ("what is printed", "src/dlite-misc.c: dlite_err_handler(), dlite_err_ignored_set(), dlite_set_warnings_hide()")],
     ["clauses entered, in order", "current error, level and message of every thread", "calls to the error handler", "text printed to the error stream or file"],
     note=SIM + "Threads take turns as the seed decides (one runs at a time, switching between operations, also inside blocks); the library is not meant for truly parallel calls. "
          "Exceptions that would end the process, the abort modes and the override modes that print to stderr are not generated.")

prop("S13", "Python cannot corrupt, leak or misread instances",
     "Through the Python bindings every property, dimension, relation and member of an instance or collection reads back as the value it was last assigned, by whatever of the equivalent ways it is written or read, "
     "and arrays, proxies, iterators and storages stay valid for as long as Python holds them and no longer: when the last reference goes, exactly the instances nobody refers to leave memory. "
     "An assignment, conversion or call that fails, because of a wrong type, a value out of range, a Python exception raised half way or an allocation failure, raises an exception, changes nothing and leaks nothing. "
     "A frozen instance cannot be changed. No call with any arguments ends the process.",
     ["histories", "inputs", "fault_sequences"],
     "All sequences of calls on several instances and collections with shared arrays, aliases, iterators, files and references between instances, any property type and shape, any arguments, garbage collection at any point, an allocation failure or Python exception anywhere in a call.",
     "The tests exercise each feature once with valid values and in one order; they do not count references, inject failures or pass arguments of wrong types.",
     ["bindings/python/dlite-python.i", "bindings/python/dlite-entity.i", "bindings/python/dlite-entity-python.i", "bindings/python/dlite-collection.i", "bindings/python/dlite-collection-python.i",
      "bindings/python/dlite-storage.i", "bindings/python/dlite-storage-python.i", "bindings/python/dlite-jstore.i", "bindings/python/utils.py", "src/dlite-entity.c", "src/dlite-json.c"],
     [("values to and from Python", "bindings/python/dlite-python.i: dlite_swig_get_array(), dlite_swig_set_array(), dlite_swig_get_scalar(), dlite_swig_set_scalar()"),
      ("instances", "bindings/python/dlite-entity.i: _DLiteInstance"),
      ("collections", "bindings/python/dlite-collection.i: _CollectionIter"),
      ("storages", "bindings/python/dlite-storage.i: StorageIterator")],
     ["values of properties through all ways of reading", "reference counts and the set of instances in memory", "exceptions", "allocated bytes over repeated calls", "files after a storage is closed"],
     note=SIM + "The interpreter is embedded and single-threaded. Scalars of dimensions, properties and relations that point into an instance are used only while it lives; arrays read before an instance is frozen and the array of dimensions stay writable; "
          "BSON, plugins written in Python and replacing a member of a collection under failure are not covered.")
