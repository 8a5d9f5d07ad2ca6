import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None,hook=None):
    a={"files":["src/checkpoint/"+f for f in files],"mechanism":[{"name":n,"where":"src/checkpoint/"+w} for n,w in mech],"hook_needed":hook}
    if obs: a["observe_at"]=obs
    if state: a["state"]=state
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Serialize then deserialize reproduces an equivalent value",
"For every supported type (arithmetic and byte-copyable types, enums, strings, standard containers, optionals, variants, tuples, pairs, smart pointers, durations, and user classes with member or free serialize functions, in any nesting) and every value of it, deserializing the buffer produced by serialize yields a new, separately owned object equal to the original: same elements in the same order, same active alternative, same null/engaged state, bit-identical arithmetic values. A restored vector has at least the original's capacity (elements inside a queue or stack, which can only be copied out, aside). The same holds with serialization error checking compiled in or out.",
["inputs","programs","configurations"],"All supported types and their compositions, all values (including empty, null, huge, boundary sizes, NaN payloads, embedded NULs, duplicate keys), both error-checking configurations.",
"Existing tests sample a handful of types with one or two small values each, and only build with error checking on; the space of type compositions and values is unbounded.",
["checkpoint_api.impl.h","dispatch/dispatch.impl.h","dispatch/dispatch_serializer_nonbyte.h","container/vector_serialize.h","container/list_serialize.h","container/map_serialize.h","container/queue_serialize.h","container/optional_serialize.h","container/variant_serialize.h","container/tuple_serialize.h","container/string_serialize.h","container/unique_ptr_serialize.h","container/enum_serialize.h","container/chrono_serialize.h","container/array_serialize.h"],
[("one serialize function drives size, pack and unpack symmetrically","dispatch/dispatch.impl.h"),("per-container serialize overloads","container/")],["checkpoint::serialize","checkpoint::deserialize"])

p("C02","The reported size is exactly what every medium produces",
"For every value, the size query equals the size reported for the serialized buffer, the size requested from a caller's buffer callback, the length of the file written and the number of bytes put on a stream, and all four media hold the identical byte sequence. Packing writes every one of those bytes and never a byte outside them.",
["inputs","programs","configurations"],"All supported types, all values, all four media, both error-checking configurations.",
"Tests compare sizes for a few fixed objects on one medium; agreement must hold for every value of every composed type and off-by-some errors appear only for particular shapes.",
["checkpoint_api.impl.h","dispatch/dispatch.impl.h","serializers/sizer.cc","serializers/packer.impl.h","serializers/stream_serializer.h","buffer/io_buffer.cc"],
[("sizing pass before packing","serializers/sizer.cc"),("pack cursor","serializers/memory_serializer.h"),("packed size validation","dispatch/dispatch.impl.h")],["checkpoint::getSize","SerializedInfo::getSize","file length","stream position"])

p("C03","Serializing observes without changing; results are deterministic",
"Sizing, serializing to any medium and footprinting leave the source object semantically unchanged, including element order and container contents, also when the operation fails because user code throws; a constant object, in memory that cannot be written, can be observed like any other. Serializing the same unmodified object again, at any later point of a process and after any other use of the library, yields the identical bytes; deserializing never modifies the input buffer, so the same buffer can be restored any number of times with equal, independent results.",
["inputs","histories"],"All supported types and values; any interleaving of repeated size/serialize/footprint/deserialize operations over several objects.",
"Tests serialize each object once; repeated and interleaved use of several objects in one process is never checked.",
["dispatch/dispatch.impl.h","container/queue_serialize.h","container/vector_serialize.h","container/string_serialize.h","serializers/memory_serializer.h"],
[("non-unpacking branches of container serializers do not mutate","container/")],["source object","bytes"])

p("C04","File checkpoints restore exactly and fully replace older contents",
"An object written to a file and read back (as a new object or in place) equals the original, for every supported type and size. Writing to an existing path leaves exactly the new checkpoint's bytes there whatever was in the file before, shorter or longer, and reading does not change the file.",
["inputs","histories"],"All supported types and values including files of many pages and page-boundary lengths; any sequence of writes of different sizes to the same path.",
"Tests write three small objects to fresh files; no test overwrites a longer file or crosses page or size boundaries.",
["buffer/io_buffer.cc","buffer/io_buffer.h","checkpoint_api.impl.h"],
[("create/truncate, size and map the file","buffer/io_buffer.cc")],["checkpoint::serializeToFile","checkpoint::deserializeFromFile","checkpoint::deserializeInPlaceFromFile","file bytes"])

p("C05","Stream checkpoints concatenate and consume exactly their own bytes",
"Any sequence of objects of any supported types, polymorphic ones included, written one after another to one stream (surrounded by foreign bytes, at any start offset, for any standard stream class) is restored by the same sequence of stream reads, in order, as equal values. Each read consumes exactly the bytes that object's write produced and each write emits exactly the size reported, leaving everything else in the stream untouched, whatever formatting flags are set. A write the stream cannot take in full leaves the stream failed (or throws).",
["inputs","histories"],"All sequences of typed values, stream classes (string, file, custom unbuffered/short-read stream buffers), offsets and foreign bytes.",
"Tests write exactly one object per stream and read it back with the stream at position zero.",
["serializers/stream_serializer.h","checkpoint_api.impl.h"],
[("stream packer and unpacker","serializers/stream_serializer.h")],["checkpoint::serializeToStream","checkpoint::deserializeFromStream","checkpoint::deserializeInPlaceFromStream"])

p("C06","In-place restore replaces whatever the target held",
"Restoring a checkpoint in place (from a buffer, a file or a stream) into an existing object of the same type leaves it equal to the checkpointed value whatever value the target held before: nothing of the previous contents of containers, strings, optionals, variants or pointers survives or is mixed in (a smart pointer to a polymorphic base must already hold the checkpointed dynamic type or null, as documented). The same holds for containers a class's own constructor fills before restoring.",
["inputs","histories"],"All pairs (previous value, checkpointed value) of all supported types; chains of restores into the same object.",
"Tests restore in place into freshly constructed, mostly empty objects; a stale element shows only for particular previous contents.",
["checkpoint_api.impl.h","container/map_serialize.h","container/list_serialize.h","container/queue_serialize.h","container/vector_serialize.h","container/optional_serialize.h","container/variant_serialize.h","container/unique_ptr_serialize.h","container/string_serialize.h"],
[("container resize/clear on unpack","container/")],["checkpoint::deserializeInPlace","checkpoint::deserializeInPlaceFromFile","checkpoint::deserializeInPlaceFromStream"])

p("C07","Polymorphic objects keep their dynamic type and every layer's state",
"An object of any class in a registered single-inheritance hierarchy, held by a base (or intermediate) pointer, a smart pointer, a container of such pointers, or by value in a container, is restored with its dynamic type and the state of each layer; each layer is visited exactly once, base before derived, in every pass. This holds for both declaration styles, any depth, any mix of types in one checkpoint, every medium, and nested polymorphic members. A new object at top level is requested through a pointer, container or its own type, not as its base class.",
["inputs","programs"],"All hierarchies (depth, breadth, declaration style), all heterogeneous collections of their objects including nulls, all media.",
"Tests use a couple of fixed hierarchies with one object each; registry order, depth and mixtures are not varied, and no test sends polymorphic data through a file or stream.",
["dispatch/vrt/base.h","dispatch/vrt/derived.h","dispatch/vrt/virtual_serialize.h","dispatch/vrt/object_registry.h","dispatch/vrt/serializer_registry.h","dispatch/vrt/serialize_instantiator.h","dispatch/dispatch_serializer_nonbyte.h"],
[("object and serializer registries","dispatch/vrt/object_registry.h"),("recursive base-first virtual serialize","dispatch/vrt/derived.h")],["dynamic type","per-layer visit log"])

p("C08","Restored objects are constructed by the documented strategy",
"When deserialization has to create an object it uses the tagged constructor if the class has one, otherwise the class's reconstruct facility (member, free function or trait specialization), otherwise the default constructor. This one order applies wherever a new object is needed: top level, pointees, tuple members, optional and variant values, and elements of sequence and associative containers; every element is its own construction and shares no state with its siblings. (Members of a pair, keys and mapped values of a map and elements of an array come into being with it and must be default constructible, as must a variant's first alternative.)",
["programs","inputs"],"All combinations of available constructors/reconstruct facilities x copyability x serialize style x position in a containing type.",
"Tests exercise single features in one position each; precedence between features and position-dependence are not covered.",
["dispatch/reconstructor.h","traits/serializable_traits.h","traits/reconstructor_traits.h","container/vector_serialize.h","container/list_serialize.h","container/map_serialize.h","container/optional_serialize.h","container/variant_serialize.h","container/tuple_serialize.h","container/queue_serialize.h"],
[("reconstruction precedence chain","dispatch/reconstructor.h")],["which constructor ran for each restored object"])

p("C09","Reading a checkpoint as a different type is rejected",
"Deserializing a checkpoint of one type as any other type fails with a serialization error, from a buffer, a file or a stream, with error checking compiled in or out, without crashing, reading outside the data or leaking; as the same type it never fails. With error checking on, a nested field whose type differs from what was written is rejected the same way.",
["inputs","programs","configurations"],"All ordered pairs of distinct supported types, all values, all media, both configurations; all nested positions of the first differing field.",
"Tests check two fixed pairs of types, from memory, in one configuration.",
["dispatch/dispatch.impl.h","dispatch/type_registry.h"],
[("type index header and check","dispatch/dispatch.impl.h"),("type index registry","dispatch/type_registry.h")],["checkpoint::dispatch::serialization_error"])

p("C10","Inconsistent serialize functions are reported, not corrupting",
"If a class's serialize function emits a different number of bytes when packing than when sizing, serializing it to memory or to a file fails with a serialization error and nothing outside the allocated or provided buffer is written. With error checking on, a class that unpacks a different sequence of fields than it packed fails with a serialization error, at any nesting depth; a consistent class never fails.",
["programs","inputs","configurations"],"All field sequences per pass (size, pack, unpack), nesting depths and values.",
"Tests cover four fixed classes, only with fewer packed/unpacked bytes, never more.",
["dispatch/dispatch.impl.h","serializers/packer.impl.h","checkpoint_api.impl.h"],
[("packed size validation","dispatch/dispatch.impl.h"),("per-field type and memory check","dispatch/dispatch.impl.h")],["checkpoint::dispatch::serialization_error","bytes around the buffer"])

p("C11","Object lifetimes balance on every path",
"Across any use of the library every object it constructs is destroyed exactly once and all memory it allocates is released, whether the operation succeeds or fails (wrong type, truncated stream, an exception thrown by user code, memory that cannot be allocated, a file that cannot be opened). Objects owned by the caller, buffers provided by the caller and the source object are never destroyed or freed by the library.",
["inputs","fault_sequences","programs"],"All supported types and values, all API entry points, every failure point inside a traversal.",
"Tests run without leak or lifetime tracking, and almost no test takes a failure path.",
["dispatch/dispatch.impl.h","dispatch/allocator.h","checkpoint_api.impl.h","container/map_serialize.h","container/list_serialize.h","container/queue_serialize.h","container/optional_serialize.h","container/variant_serialize.h","dispatch/vrt/virtual_serialize.h"],
[("scoped temporary storage for reconstruction","dispatch/allocator.h"),("ownership transfer of the new object","dispatch/dispatch.impl.h")],["live instances","live allocations"])

p("C12","File I/O failures are reported as exceptions and release resources",
"If any system call made while writing or reading a checkpoint file fails (open, status, sizing, sync, map, flush, unmap, close), the caller gets a runtime-error exception or a complete correct result, never process termination or silent loss: a failed open, sizing, map, synchronous flush or close while writing is always reported when the checkpoint may be incomplete. Afterwards no file descriptor or mapping is left behind and a retry without the fault succeeds; filesystems without preallocation support are tolerated (there, running out of space is only noticed by the kernel when a page is written).",
["fault_sequences","inputs"],"Every call position x every errno class x both directions x all values; plus real faults (missing directory, directory path, empty file, file size limits).",
"No test injects any I/O failure.",
["buffer/io_buffer.cc","buffer/io_buffer.h","checkpoint_api.impl.h"],
[("errno checks in setup and close","buffer/io_buffer.cc")],["exception type","open descriptors","live mappings"])

p("C13","Memory footprint accounts for everything reachable once",
"The memory footprint of an object is the size of the object plus the heap storage it owns as defined per type (vector slack capacity, string capacity, element and pointee storage, recursively), plus the caller's offset, and is never below the object's own size. It needs no serializability: non-serializable classes, atomics, functions, threads and opaque pointers count as their own size; computing it changes nothing.",
["inputs","programs"],"All supported types and compositions, all values including slack capacity and null pointers, all offsets.",
"Tests pin the footprint for a few fixed objects per container; nested compositions and varying slack are not covered.",
["serializers/footprinter.h","checkpoint_api.impl.h","container/vector_serialize.h","container/string_serialize.h","container/raw_ptr_serialize.h","container/shared_ptr_serialize.h","container/queue_serialize.h","container/optional_serialize.h","container/container_serialize.h","container/tuple_serialize.h","dispatch/dispatch_serializer_nonbyte.h"],
[("footprinting mode of container serializers","container/")],["checkpoint::getMemoryFootprint"])

p("C14","Custom traversals visit every leaf exactly once, in order",
"A user-defined traverser applied to any object sees each byte-copyable leaf or contiguous run of leaves exactly once, in serialize order, with its element size and count and, for data members and contiguous containers, its real address in the object (elements of queues and stacks are visited as copies). A user-defined dispatcher intercepts exactly the objects of the types it specializes that are dispatched, at any depth (a class's own parent and own parts, and enums, do not go through a dispatcher), and everything else is traversed as usual.",
["inputs","programs"],"All supported types and values x all sets of intercepted types.",
"Tests traverse one object with two fixed traversers.",
["dispatch/dispatch.impl.h","dispatch/dispatch_serializer_byte.h","dispatch/dispatch_serializer_nonbyte.h","serializers/base_serializer.h"],
[("traverser dispatch","dispatch/dispatch_serializer_byte.h")],["callbacks on the traverser and dispatcher"])

p("C15","Checkpoints are restartable by another process of the same program",
"A checkpoint written to a file by one run of a program is restored to an equal value by any other run of the same program, whatever either run did before, in whatever order types were first used, and wherever the two were loaded in memory. The bytes depend only on the value and the program: two runs holding equal values with equal capacities write identical files (padding bytes of byte-copied types aside).",
["histories","inputs","programs"],"All values; all differing prior histories of the writing and the reading process; address-space randomization.",
"All tests write and read inside one process, so state that differs between processes cannot show.",
["dispatch/type_registry.h","dispatch/vrt/object_registry.h","dispatch/vrt/serializer_registry.h","buffer/io_buffer.cc"],
[("type and object indices assigned during static initialization","dispatch/type_registry.h")],["files exchanged between processes"])

p("C16","Restoring depends only on the bytes, wherever they are",
"A serialized buffer copied to any other address, at any alignment, restores to an equal value; the read touches only the reported number of bytes and never writes to them. The restored object does not refer to the buffer or to the original: it stays intact after the buffer is overwritten and freed and the original destroyed or changed.",
["inputs"],"All supported types and values x all alignments of the copy.",
"Tests always restore from the very buffer that serialize returned while the original is still alive.",
["serializers/unpacker.impl.h","serializers/memory_serializer.h","dispatch/dispatch.impl.h"],
[("memcpy based unpacking","serializers/unpacker.impl.h")],["guard zones around the buffer","restored object"])

p("C17","Caller-supplied buffers are honoured exactly",
"When the caller supplies a buffer callback it is invoked exactly once with the exact size, the data is packed into the memory it returns and reported back with that address and size, and that memory is never freed; if it returns null the library provides a buffer itself. When the caller supplies storage for the restored object, the object is built in that storage, the returned pointer is that storage, nothing beyond the object's size is touched, and the storage is never freed.",
["inputs","fault_sequences"],"All supported types and values, buffers at any alignment, callbacks returning memory or null or throwing; successful and failing restores.",
"Tests supply a callback for one type, and object storage in one test; failing restores into caller storage are never tried.",
["dispatch/dispatch.impl.h","buffer/user_buffer.h","buffer/managed_buffer.h","checkpoint_api.impl.h"],
[("user buffer adoption","dispatch/dispatch.impl.h")],["callback calls","addresses","guard zones"])

p("C18","Truncated checkpoints are rejected",
"Reading a checkpoint that has been cut off at any byte, from a stream or from a file, as a new object or in place, fails with a runtime-error exception; it never crashes, reads past the available data or returns an object as if it were complete. After the failure an in-place target can still be destroyed or restored again from an intact checkpoint.",
["inputs","crash_points"],"All supported types and values x every truncation point.",
"No test reads a truncated stream or file.",
["serializers/stream_serializer.h","serializers/unpacker.impl.h","buffer/io_buffer.cc"],
[("stream state check after each read","serializers/stream_serializer.h"),("mapping length","buffer/io_buffer.h")],["exception type"])

p("C19","Independent objects can be checkpointed from different threads",
"Threads that size, serialize, footprint and restore objects not shared between them obtain exactly the results they would obtain alone, for all supported types, polymorphic ones included.",
["schedules","inputs"],"All interleavings of several threads each running its own sequence of operations on its own objects.",
"All tests are single-threaded.",
["dispatch/dispatch.impl.h","dispatch/type_registry.h","dispatch/vrt/serializer_registry.h","dispatch/vrt/object_registry.h"],
[("registries filled during static initialization, read-only afterwards","dispatch/vrt/serializer_registry.h")],["per-thread results"])

p("C20","A finished file checkpoint has been flushed and closed",
"When writing a checkpoint file returns normally, every byte of it has been flushed synchronously to the file before the mapping and descriptor were released, so a crash of the process or machine after that point cannot lose or tear it. Both writing and reading leave no descriptor or mapping open.",
["crash_points","inputs"],"All values (sizes across page boundaries); every crash point after the call returns.",
"Tests read the file back through the page cache of the same process, where a missing flush is invisible.",
["buffer/io_buffer.cc"],
[("synchronous flush of the mapping before unmap and close","buffer/io_buffer.cc")],["sequence of system calls"])

p("C21","Any history of checkpoints and restores behaves as a snapshot store",
"For any interleaving of mutations, checkpoints and restores (new or in place) of several objects over several memory, file and stream slots, every restore from a slot yields the value of the last checkpoint written to that slot, unaffected by later mutations, other slots, failed operations or repeated restores.",
["histories","inputs","fault_sequences"],"All operation sequences over a pool of objects of various types and slots of each medium, including rejected operations in between.",
"Tests are single-shot; no test performs a sequence of checkpoints and restores.",
["checkpoint_api.impl.h","dispatch/dispatch.impl.h","buffer/io_buffer.cc","serializers/stream_serializer.h"],
[("no state is carried between API calls","checkpoint_api.impl.h")],["restored values against a model"])

p("C22","Each class is traversed by exactly the functions it provides",
"A class is serialized by its own facility and no other: declared byte-copyable means its bytes are transferred verbatim, a member or free serialize function is called exactly once per object and pass in the matching mode (sizing, packing, unpacking, footprinting), parent and own parts of split classes are both visited in that order, and array helpers visit each element once. The published trait queries report serializability accordingly.",
["programs"],"All combinations of serialization facilities (member/free/split/byte-copy declarations of each kind, templates, inheritance) x constructor facilities x positions.",
"Tests cover a fixed handful of classes; combinations and call counts are not checked.",
["traits/serializable_traits.h","dispatch/dispatch_serializer_byte.h","dispatch/dispatch_serializer_nonbyte.h","dispatch/dispatch_byte_macro.h","dispatch/dispatch.impl.h"],
[("trait detection and dispatch","traits/serializable_traits.h")],["call log per class and mode"])

p("C23","Kokkos containers round-trip with layout, extents and labels",
"Every Kokkos view, dynamic view, dual structure, unordered map, pair, complex and array restores with equal extents, layout, label and element values, contiguous or strided, uninitialized or not.",
["inputs","programs"],"All view ranks, layouts, element types and values.",
"Kokkos tests sample a few ranks; in this sandbox Kokkos is not available at all.",
["container/view_serialize.h","container/view_traverse_manual.h","container/view_traverse_ndim.h","container/view_equality.h"],
[("view serialization","container/view_serialize.h")],["view contents"])
p("C24","Mistakes with polymorphic classes are stopped, correct use never is",
"When a class in a polymorphic hierarchy lacks its declaration and a declared class below it is sized, serialized or footprinted, when a checkpoint is restored in place over a pointee of another dynamic type, and when an object is to be restored whose class offers no way of being created, the operation ends with a diagnostic (assertion or exception) instead of returning an incomplete object or writing an incomplete checkpoint. Hierarchies that are declared throughout, pointees of the recorded type and empty pointers are never stopped and restore equal values.",
["programs","inputs"],"All hierarchies with and without declarations (macro or CRTP) at each level; all pairs of recorded and present dynamic types; all holders, media and histories of other objects of the same hierarchy before.",
"Tests use correctly declared hierarchies of fixed shape; a check that stopped reporting would not be noticed.",
["dispatch/vrt/derived.h","dispatch/vrt/base.h","dispatch/vrt/inheritance_assert_helpers.h","dispatch/vrt/virtual_serialize.h","dispatch/vrt/object_registry.h","dispatch/reconstructor.h"],
[("expected type index compared at every level","dispatch/vrt/inheritance_assert_helpers.h"),("recorded and present dynamic type compared","dispatch/vrt/virtual_serialize.h")],["termination status and diagnostic per operation"])

p("C25","What cannot be checkpointed is refused by the compiler, everything else compiles",
"A program that sizes, serializes or restores a type with a part the library cannot restore, at any depth (raw and shared pointers, atomics, threads, functions, stacks, classes without a serialize function or byte-copy declaration that applies), does not compile, and neither does restoring a class without default or tagged constructor or reconstruct function: no data is silently left out. The same program with supported parts compiles for every operation, constant sources included, and footprints can be taken of both.",
["programs"],"All compositions of supported containers and class shapes around a supported or an unsupported part; every operation of the interface.",
"A test program that must not compile cannot be part of the test suite; no negative test exists.",
["traits/serializable_traits.h","dispatch/dispatch_serializer_nonbyte.h","dispatch/dispatch_serializer_byte.h","dispatch/reconstructor.h","container/raw_ptr_serialize.h","container/shared_ptr_serialize.h","container/atomic_serialize.h","container/function_serialize.h","container/queue_serialize.h","container/thread_serialize.h"],
[("overloads restricted to the footprinter","container/"),("static assertion on constructibility","dispatch/reconstructor.h")],["acceptance by the compiler"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
