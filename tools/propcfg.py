"""Per-property configuration of the harness."""
ALL = ["IN", "OBJ", "FOOT", "FILE", "STREAM"]
GEN = ("Values are drawn by a choice-sequence generator per type of the list (curated types plus random compositions of the seed): lengths 0, small and "
       "boundary sizes (powers of two, page sizes, constants harvested from the code under test, each +-1), special arithmetic bit patterns, slack capacities, "
       "duplicates, null/engaged/alternative states. ")
NT = "A case is non-trivial when the canonical text of the value has at least 6 characters (some dynamic state exists); distinct by hash of unit and choices."

WRAP = ["-Wl," + ",".join("--wrap=" + f for f in "open open64 openat openat64 creat creat64 close fstat fstat64 stat stat64 lseek lseek64 fallocate fallocate64 posix_fallocate posix_fallocate64 ftruncate ftruncate64 fsync fdatasync msync mmap mmap64 munmap write pwrite pwrite64 read pread pread64 rename".split())]

PROPS = {
    "C01": dict(src=["props/c01.cc", "props/c01_valueless.cc"], wide=["props/c01_wide.cc#0"], flags=["-fbracket-depth=2048"], heavy=dict(src="props/c01_huge.cc", quick=2, thorough=10), ops=["OBJ"], quick=dict(rounds=160), thorough=dict(rounds=4000), compile_is_violation=True,
                rule=GEN + "Each case serializes, restores (three ways), checks equality, capacity and ownership. " + NT),
    "C02": dict(src=["props/c02.cc"], heavy=dict(src="props/c02_huge.cc", quick=2, thorough=10), ops=["FILE", "STREAM"], quick=dict(rounds=100), thorough=dict(rounds=3000),
                rule=GEN + "Each case compares the size query, buffer, caller's buffer (two fill patterns), file and stream. " + NT),
    "C03": dict(src=["props/c03.cc", "props/c03_throw.cc"], ops=["FOOT", "FILE", "STREAM"], quick=dict(rounds=70), thorough=dict(rounds=2500),
                rule=GEN + "Each case runs a random sequence of observing operations, with other objects' operations in between; a second family lets user code throw at drawn events of each operation. " + NT + " For the second family: an operation failed."),
    "C04": dict(src=["props/c04.cc"], heavy=dict(src="props/c04_huge.cc", quick=1, thorough=6), ops=["FILE", "IN"], quick=dict(rounds=60), thorough=dict(rounds=1500),
                rule=GEN + "Each case writes 1-3 checkpoints over a file with arbitrary previous contents and reads each back twice. " + NT),
    "C05": dict(src=["props/c05.cc"], heavy=dict(src="props/c05_huge.cc", quick=2, thorough=10), ops=["STREAM", "IN"], quick=dict(rounds=60), thorough=dict(rounds=1500),
                rule=GEN + "Each case writes 1-5 objects of random types with foreign bytes around them to one stream of a standard class or a custom stream buffer, and reads them back. " + NT),
    "C06": dict(src=["props/c06.cc"], ops=["FILE", "STREAM", "IN"], quick=dict(rounds=120), thorough=dict(rounds=3000),
                rule=GEN + "Each case restores 1-3 checkpoints in place over arbitrary earlier values; non-trivial when the target differed from the checkpoint and held dynamic state."),
    "C07": dict(src=["props/c07.cc", "gen:poly0.cc", "gen:poly1.cc", "gen:poly2.cc"], wide=["props/c07_wide.cc"] + ["props/c07_wide_part.cc#%d" % k for k in range(4)], generate="tools/genpoly.py", quick=dict(rounds=300), thorough=dict(rounds=4000),
                rule="Per configuration three class hierarchies are generated from the seed (macro, CRTP and free-function style; depth, breadth, abstract classes, templates, constructors, fields and holders drawn), each case a random graph of their objects. Non-trivial: three or more layers visited; distinct by hash of unit and choices."),
    "C08": dict(src=["props/c08.cc"] + ["gen:class%d.cc" % k for k in range(4)], generate="tools/genclass.py", flags=["-DPROP=8"], quick=dict(rounds=500), thorough=dict(rounds=8000),
                rule="Per configuration 20 classes (thorough 36) are generated from the seed: construction facilities x serialization facility x copyability x polymorphic x template, each in 5 drawn positions; each case restores a random number of objects from memory, a stream and in place. Non-trivial: at least one object; distinct by hash of unit and choices."),
    "C19": dict(src=["props/c19.cc"], ops=ALL, configs=["tsan", "chk"], parts_in={"chk": [0, 4, 6, 8, 10, 11]}, rand=1, ub=False, quick=dict(rounds=1500, seconds=60), thorough=dict(rounds=30000),
                rule=GEN + "Each case runs drawn scripts of operations on 2-8 sets of objects, first one after the other in one process and then from as many threads in another, first uses included, under ThreadSanitizer or AddressSanitizer. Non-trivial: two or more threads with two or more operations; distinct by hash of unit and choices.",
                assumptions=["Schedules are those the operating system chooses; data races that do not show in a result are found by ThreadSanitizer's happens-before analysis of the executed operations."]),
    "C21": dict(src=["props/c21.cc"], ops=ALL, quick=dict(rounds=12000, seconds=35), thorough=dict(rounds=60000),
                rule=GEN + "Each case is a history of 4-40 (thorough 120) operations over up to 4 objects and 6 slots (returned buffers, caller's buffers, files, streams, a journal stream), rejected operations included; after each one the objects touched, at the end every object and slot are compared with the model. Non-trivial: at least one checkpoint that was restored after another operation; distinct by hash of unit and choices."),
    "C22": dict(src=["props/c08.cc"] + ["gen:class%d.cc" % k for k in range(4)], generate="tools/genclass.py", flags=["-DPROP=22"], quick=dict(rounds=500), thorough=dict(rounds=8000),
                rule="Per configuration 20 classes (thorough 36) are generated from the seed: serialization facility x construction facilities x copyability x polymorphic x template, each in 5 drawn positions; each case checks the calls of every pass. Non-trivial: at least one object; distinct by hash of unit and choices."),
    "C09": dict(src=["props/c09.cc", "props/c09_wide.cc"] + ["props/c09_wide_part.cc#%d" % k for k in range(4)], ops=ALL, quick=dict(rounds=60), thorough=dict(rounds=1500),
                rule=GEN + "Each case reads one checkpoint as 1-7 random types through random media; with error checking also field programs with one field replaced. Non-trivial: at least one reader of another type (a program of two or more fields); distinct by hash of unit and choices."),
    "C10": dict(src=["props/c10.cc"], ops=["MEM"], parts=[], rand=0, quick=dict(rounds=2500), thorough=dict(rounds=60000),
                rule="Each case draws a program of fields nested up to four levels and a changed copy, and lets the sizing, packing and unpacking passes follow different ones; or one of several objects drift between passes. Non-trivial: the byte counts differ (two or more fields for the unpacking unit); distinct by hash of unit and choices."),
    "C11": dict(flags=["-fsized-deallocation"], link=["-Wl,--wrap=_Znwm,--wrap=_Znam"], src=["props/c11.cc"] + ["props/c11_%d.cc" % k for k in range(4)], ops=["FILE", "STREAM", "IN", "OBJ"], parts=[1, 2, 3, 4, 6, 8, 10, 11], rand=1, ub=False, configs=["chk", "nochk"],
                quick=dict(rounds=60), thorough=dict(rounds=1200),
                rule="Two families. Lifetimes: holders of classes that register every instance; each case runs one operation fault-free, then lets user code (constructor, copy, serialize function) throw at up to 14 (thorough 40) of its events and up to 9 (thorough 31) of its allocations fail, and compares the live instances. Types: 1-5 operations, failing ones included, on values of the type list, each case repeated and the number of live allocations compared. Non-trivial: a failure point was taken, or the value's text has 6 or more characters; distinct by hash of unit and choices."),
    "C12": dict(src=["props/c12.cc", "props/sysfault.cc"], ops=["FILE", "IN"], parts=[0, 1, 3, 4, 5, 9, 10], rand=1, flags=["-DPROP=12"], configs=["chk", "nochk", "plain"], parts_in={"plain": [0, 1, 10]}, link=WRAP, level="fault_enumeration",
                quick=dict(rounds=20), thorough=dict(rounds=200),
                rule=GEN + "Each case runs one operation (write over older contents, read, read in place) once without faults, then once for every system call it made, failing with errnos of its class (all of them in every third case; thorough: always), plus lasting failures of one kind, missing preallocation with another fault, and pairs of faults; each followed by a retry without faults. Further cases use real failures (missing directory, limits, full filesystem). Non-trivial: at least one system call was seen; distinct by hash of unit and choices.",
                assumptions=["An injected failure of close or munmap releases the resource and reports the error, as Linux does for close.", "System calls are intercepted at link time; calls made inside shared libraries are not failed, but their effects are still judged."]),
    "C20": dict(src=["props/c12.cc", "props/sysfault.cc"], ops=["FILE", "IN"], parts=[0, 1, 3, 4, 5, 9, 10], rand=1, flags=["-DPROP=20"], configs=["chk", "nochk", "plain"], parts_in={"plain": [0, 1, 10]}, link=WRAP, level="fault_enumeration",
                quick=dict(rounds=30), thorough=dict(rounds=600),
                rule=GEN + "Each case writes 1-3 checkpoints to one path, sizes around page boundaries preferred, and compares the image of what was flushed (msync with MS_SYNC of a shared mapping, fsync, fdatasync, O_SYNC) with the checkpoint, also when a flushing call fails. Non-trivial: the value's text has 6 or more characters; distinct by hash of unit and choices.",
                assumptions=["What reaches stable storage is modelled from the arguments of the flushing calls, not from a device."]),
    "C13": dict(src=["props/c13.cc", "props/c13_foot.cc"], ops=["FOOT", "MODEL"], ub=True, quick=dict(rounds=64), thorough=dict(rounds=3000),
                rule=GEN + "Each case compares the footprint with a model computed from the standard containers' sizes and capacities, with several offsets, repeated, and with other objects in between. " + NT,
                assumptions=["The definition per type: classes and variants count what their serialize function visits, optionals the size of the held value, queues and stacks the size of their elements, pairs their own size and their members', vector<bool> its own size; the result is never below the size of the top object."]),
    "C14": dict(src=["props/c14.cc"], ops=["TRAV"], quick=dict(rounds=90), thorough=dict(rounds=3000),
                rule=GEN + "Each case compares the event logs of two user traversers (one with its own dispatcher, intercepting up to three drawn sets of the types present) with a model of the recursion, and user sizing and packing traversers with the library's. Non-trivial: three or more events; distinct by hash of unit and choices."),
    "C15": dict(src=["props/c15.cc"], ops=ALL, quick=dict(rounds=1200, seconds=30), thorough=dict(rounds=60000), ub=False,
                rule=GEN + "Each case draws 1-11 (thorough 17) values of random types; two writing processes and a reading process, each newly executed with a drawn history of other operations, order of items and media, exchange them. Non-trivial: two or more items and some history; distinct by hash of unit and choices.",
                assumptions=["Padding bytes of byte-copied types are not compared between processes."]),
    "C16": dict(src=["props/c16.cc"], ops=["OBJ", "IN"], quick=dict(rounds=120), thorough=dict(rounds=3000),
                rule=GEN + "Each case restores from bytes at a drawn address (end or start of a guarded read-only page, heap at any of 65 offsets), then destroys buffer and original. " + NT),
    "C17": dict(src=["props/c17.cc"], ops=["OBJ"], quick=dict(rounds=50), thorough=dict(rounds=1500),
                rule=GEN + "Each case supplies a callback (providing, declining, throwing) or storage reused 1-4 times, failed restores included. " + NT),
    "C24": dict(src=["props/c24.cc"], ub=False, quick=dict(rounds=60, seconds=60), thorough=dict(rounds=1500),
                rule="Hierarchies of up to four layers below a macro or CRTP root, every layer undeclared, macro-declared or CRTP-declared (160 classes); each case runs one drawn operation on drawn objects in a process of its own and compares stopped / completed with the prediction. Non-trivial: two or more layers below the root, or an in-place target or a creation is involved; distinct by hash of unit and choices.",
                assumptions=["The library's diagnostics end the process through assert, which the build type Debug (the default of a check) keeps enabled."]),
    "C25": dict(driver="c25", src=[], quick=dict(rounds=700, seconds=110), thorough=dict(rounds=20000, seconds=700),
                rule="Each case draws a composition of containers, class shapes (members, arrays, bases, nested, templates, free functions, polymorphic layers, pointees) around one part that cannot be checkpointed, and a supported twin; programs applying drawn operations to either are compiled. Non-trivial: the twin compiled and the program with the part was refused; distinct by configuration, part, composition and operations.",
                assumptions=["The compiler of the check (clang, C++17) decides acceptance."]),
    "C18": dict(src=["props/c18.cc"], ops=["FILE", "STREAM", "IN"], quick=dict(rounds=40), thorough=dict(rounds=600),
                rule=GEN + "Each case cuts one checkpoint at up to 6 (thorough 24) positions, every position when it is that short. Non-trivial: a cut behind the type header; distinct by hash of unit and choices."),
}

_SMP = " Sampled, not exhaustive; sanitizers (ASan, UBSan) are part of the oracle; both error-checking configurations are built."
TECH = {
    "C01": ("property-based testing: round-trip over generated types and values", "Round-trip oracle on canonical text, capacity and ownership over generated values of curated and randomly composed types." + _SMP),
    "C02": ("property-based testing: differential comparison of four media", "Differential oracle: size query, buffer, callback, file and stream must agree byte for byte." + _SMP),
    "C03": ("property-based testing: metamorphic repeat/interleave of observing operations", "Source object and bytes must not change over generated sequences of operations." + _SMP),
    "C04": ("stateful property-based testing: overwrite histories of checkpoint files", "Round-trip and exact file contents over generated overwrite histories." + _SMP),
    "C05": ("stateful property-based testing: model of stream contents", "Sequences of typed values on one stream compared with a byte model, over every standard stream class and custom short-read buffers." + _SMP),
    "C06": ("stateful property-based testing: chains of in-place restores", "Value equality after in-place restore over arbitrary earlier values." + _SMP),
    "C07": ("property-based testing: generated class hierarchies and object graphs, visit-log oracle", "Generated hierarchies; the dynamic types, layer states and the order and number of layer visits of every pass are compared with the object graph." + _SMP),
    "C08": ("property-based testing: generated classes x positions, construction log oracle", "Classes are generated by combining facilities; every construction the library performs is logged and compared with the documented precedence, and shared state between siblings is detected." + _SMP),
    "C22": ("property-based testing: generated classes x positions, call log oracle", "Classes are generated by combining facilities; every call of a serialize function in every pass is compared with the number of objects; trait queries are compared with the class." + _SMP),
    "C09": ("property-based testing: ordered pairs of types, generated field programs", "Every other reader type must be rejected with a serialization error, the own type accepted." + _SMP),
    "C10": ("property-based testing: generated field programs per pass", "A program-driven class follows different field sequences per pass; byte and type models predict accept or error; guarded buffers detect writes outside." + _SMP),
    "C11": ("property-based testing with injected exceptions: instance registry and allocation balance", "Every instance of tracked classes and every heap allocation must balance after each generated operation, with exceptions injected at enumerated events of user code, wrong types, truncation and file errors." + _SMP),
    "C12": ("property-based testing with fault injection: every system call of generated file operations fails", "Link-time interception of file system calls; fault plans are enumerated per generated operation; outcome, contents, descriptors, mappings and retry are judged." + _SMP),
    "C19": ("property-based testing: generated concurrent scripts against a sequential oracle, under ThreadSanitizer", "Differential oracle between sequential and concurrent execution of generated scripts, each in a fresh process; ThreadSanitizer reports on the executed operations decide races. Schedules are sampled."),
    "C21": ("stateful property-based testing: model of a snapshot store", "Generated histories of mutations, checkpoints, restores and rejected operations over objects and slots of each medium, compared with a map from slot to value." + _SMP),
    "C20": ("property-based testing: durable-image model of the flushing calls", "A shadow image of flushed bytes, built from the intercepted calls, must equal the checkpoint whenever writing returns." + _SMP),
    "C13": ("property-based testing: footprint compared with an independent model", "Model oracle: the footprint is recomputed from sizes and capacities for generated values of all types, including types that can only be footprinted." + _SMP),
    "C14": ("property-based testing: event log of user traversers compared with a recursion model", "Model oracle: an independent recursion over generated values predicts every leaf run (address, element size, count, value, type) and every dispatched object; interception sets are drawn." + _SMP),
    "C15": ("stateful property-based testing: re-executed writer and reader processes with drawn histories", "Round-trip and byte equality across processes of the same program, each with its own generated history, order and address space." + _SMP),
    "C16": ("property-based testing: relocated copies on guard pages", "Restores from copies at drawn addresses ending at a guard page, then destroys source and buffer." + _SMP),
    "C17": ("property-based testing: generated callbacks and reused storage", "Callback protocol, addresses and guard bytes checked for providing, declining and throwing callbacks, and storage reuse after failures." + _SMP),
    "C24": ("property-based testing: generated misuse of polymorphic hierarchies, one process per operation", "Prediction oracle: for drawn hierarchies with and without declarations, in-place targets of other dynamic types and classes that cannot be created, each operation must end in a diagnostic or complete correctly, exactly as predicted." + _SMP),
    "C25": ("property-based testing: generated programs, compiler acceptance against a model", "Prediction oracle over generated programs: a composition with a part that cannot be checkpointed must be refused by the compiler in every operation, its supported twin accepted in all, footprints accepted for both. Sampled, not exhaustive; both error-checking configurations."),
    "C18": ("fuzzing by truncation: generated values cut at generated positions", "Every cut must end in a runtime-error exception without out-of-bounds reads (ASan)." + _SMP),
}
NA = {"C23": "Kokkos is not installed in this sandbox and nothing can be fetched, so the code of this property cannot even be compiled, let alone run on generated inputs."}
