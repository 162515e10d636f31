"""What each check is built from and how much it explores."""
WRAPS = """open open64 openat creat pread pread64 pwrite pwrite64 read write readv writev preadv pwritev lseek fsync fdatasync
ftruncate ftruncate64 truncate fallocate posix_fallocate fstat stat lstat access unlink unlinkat remove rename close posix_fadvise
nanosleep clock_nanosleep""".split()
SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-fno-sanitize=vptr,object-size"]
CORE = ["engine.cpp", "simfs.cpp", "refdb.cpp", "db.cpp"]
CONC = CORE + ["dsched.cpp", "p_conc.cpp"]
CHECKS = {
 "C01": dict(src=CORE + ["p_store.cpp"], flags=SAN, quick=20000, thorough=400000,
   rule="generated geometry and history of inserts/duplicates/fetches/commits/reopens against an in-memory map; non-trivial: at least two commits, more items than one bucket holds, and at least one split or spill"),
 "C02": dict(src=CORE + ["p_store.cpp"], flags=SAN, quick=12000, thorough=250000,
   rule="histories of open/insert/commit/close or destroy cycles; after every close the image without unsynced data is reopened and compared with the model; non-trivial: items committed over several cycles or beyond one bucket, and at least one power-loss image"),
 "C09": dict(src=CONC + ["p_store.cpp"], flags=SAN, plain=["dsched.cpp"], quick=6000, thorough=120000,
   rule="1..5 stores on one context, random open/insert/context-flush/close orders; after each flush the unsynced-lost image of every store is reopened; one case in five runs context threads under the deterministic scheduler and flush must then do nothing; non-trivial: a flush with several dirty stores"),
 "C10": dict(src=CORE + ["p_store.cpp"], flags=SAN, quick=5000, thorough=100000,
   rule="histories with commits, closes and rekeys, files parsed after every step by a parser written from the documentation; non-trivial: splits or spills present"),
 "C11": dict(src=CORE + ["p_store.cpp"], flags=SAN, quick=16000, thorough=300000,
   rule="every write/truncate on the data file monitored over histories with commits, crashes, recoveries and rekeys; non-trivial: several commits and writes"),
 "C23": dict(src=CORE + ["p_store.cpp"], flags=SAN, quick=8000, thorough=150000,
   rule="bucket count after every commit against the load factor, reads per fetch against the reference chain; non-trivial: at least three buckets"),
 "C03": dict(src=CORE + ["p_crash.cpp"], flags=SAN, quick=5000, thorough=30000,
   rule="a generated database and batch; a crash image is taken before every mutating file operation of the commit or close, in four loss modes, and each chosen image is recovered or opened and compared with the states before and after; non-trivial: batch of more than one item with more than six crash points"),
 "C04": dict(src=CORE + ["p_crash.cpp"], flags=SAN, quick=4500, thorough=30000,
   rule="crash image of a commit, then crashes and I/O errors inside recovery up to three deep, compared with an uninterrupted recovery; non-trivial: a log was present and recovery had mutating operations"),
 "C05": dict(src=CORE + ["p_crash.cpp"], flags=SAN, quick=30000, thorough=200000,
   rule="histories in which one chosen file operation (any kind, any file) fails once or from then on, after a partial transfer or not; non-trivial: the fault was delivered"),
 "C16": dict(src=CORE + ["p_crash.cpp"], flags=SAN, quick=6000, thorough=30000,
   rule="rekey of a generated database, crash images before every mutating operation and faults at every operation, then an (interrupted) recovery and a new rekey; non-trivial: more than eight crash points and more than two items"),
 "C17": dict(src=CORE + ["p_crash.cpp"], flags=SAN, quick=60000, thorough=1500000,
   rule="valid, boundary and invalid parameters, pre-existing files, one failing operation; non-trivial: created and reopened, or rejected for a stated reason"),
 "C20": dict(src=CORE + ["p_crash.cpp"], flags=SAN, quick=20000, thorough=150000,
   rule="the same history with and without short transfers and EINTR compared byte by byte, and native_file against a byte array; non-trivial: at least ten interruptions and a commit"),
 "C25": dict(src=CORE + ["p_crash.cpp"], flags=SAN, quick=24000, thorough=150000,
   rule="one call per evaluation with a failing operation, damaged files, or an aborting callback; descriptors counted after it; non-trivial: the fault was delivered or the files were damaged"),
 "C12": dict(src=CORE + ["p_verify.cpp"], flags=SAN, quick=6000, thorough=60000,
   rule="databases grown over sessions, crashes and rekeys, verified with six buffer sizes that select both algorithms, all statistics recounted from the bytes; non-trivial: more than one bucket and a spill record"),
 "C13": dict(src=CORE + ["p_verify.cpp"], flags=SAN + ["-DNDEBUG"], quick=8000, thorough=60000,
   rule="one inconsistency of a known kind planted in a valid database (26 kinds), four buffer sizes; non-trivial: planted in a database of more than one value, and the independent reader finds the files inconsistent"),
 "C14": dict(src=CORE + ["p_verify.cpp"], flags=SAN + ["-DNDEBUG"], quick=6000, thorough=60000,
   rule="library-made and reference-made data files with spill records of any size, read boundaries, callback stops, truncations; non-trivial: more than one value and at least one spill record"),
 "C15": dict(src=CORE + ["p_verify.cpp"], flags=SAN, quick=7000, thorough=60000,
   rule="library-made and reference-made data files rekeyed up to three times with generated block size, load factor, item count and buffer; non-trivial: more than one value and more than one bucket"),
 "C18": dict(src=CORE + ["p_misc.cpp"], flags=SAN + ["-DNDEBUG"], quick=60000, thorough=600000,
   rule="databases at rest, inside a commit, or inside a rekey, with altered header fields, files of another database or another hash function, given to open, recover, verify, visit, rekey; non-trivial: exactly one error is the documented one"),
 "C21": dict(src=CORE + ["p_misc.cpp"], flags=SAN, quick=120000, thorough=2000000,
   rule="generated length, seed, content and address against XXH64 written from its specification, inputs in exact-size heap blocks; non-trivial: at least one stripe and a tail"),
 "C22": dict(src=CORE + ["p_misc.cpp"], flags=SAN, fallback=["-DC22_NOARGS"], quick=60000, thorough=150000,
   rule="create, sessions, recover, rekey, erase with an in-memory File type built from arguments, with and without a failing operation; system calls trapped; non-trivial: more than five items or a refused create"),
 "C19": dict(src=CORE + ["p_fuzz.cpp"], flags=SAN + ["-DNDEBUG"], quick=80000, thorough=1500000, case_cpu=20,
   technique="structured mutation fuzzing under AddressSanitizer and UBSan",
   rule="library-made files (at rest, inside a commit, inside a rekey) or valid headers over random bytes, up to 8 structure-aware mutations (sizes, counts, spill offsets, entries, log records, headers, truncation, splicing), up to 8 calls; non-trivial: a call got past the headers"),
 "C24": dict(src=CORE + ["p_tool.cpp"], flags=SAN, quick=4000, thorough=20000,
   tool=dict(src="tools/nudb.cpp", flags="-O1 -fsanitize=address,undefined -fno-sanitize-recover=all -lboost_program_options -lboost_filesystem -lboost_thread -lboost_system".split()),
   technique="differential property-based testing of the tool against library calls and the reference reader",
   rule="databases at rest, inside a commit or a rekey, one third damaged or with missing files, up to four tool runs with positional or named arguments, each compared with the library call on a copy and with the reference reader; non-trivial: database with several values"),
 "C06": dict(src=CONC, flags=SAN, plain=["dsched.cpp"], quick=50000, thorough=1500000, case_cpu=40,
   technique="stateful property-based testing under a deterministic scheduler with a per-key linearizability oracle, with shrinking",
   rule="2..4 client threads with generated scripts over a shared key set, background commits from 1..3 context threads or a flushing thread, every lock, condition, file operation, hash and callback a scheduling point; non-trivial: a commit happened, a key was used by several calls, over 20 thread switches"),
 "C07": dict(src=CONC, flags=["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"], plain=["dsched.cpp", "engine.cpp", "simfs.cpp"], quick=60000, thorough=1500000, case_cpu=40,
   technique="property-based testing of generated concurrent programs under a deterministic scheduler, judged by ThreadSanitizer",
   rule="programs of C06 and C08, one quarter with failing file operations, each access judged by the happens-before relation of the program's own locks; non-trivial: as in C06 and C08"),
 "C08": dict(src=CONC, flags=SAN, plain=["dsched.cpp"], quick=50000, thorough=1500000, case_cpu=40,
   technique="property-based testing of generated programs under a deterministic scheduler with virtual time: deadlock detection and a durability deadline",
   rule="up to 8 stores on 1..2 contexts, 1..4 threads opening, inserting, closing and destroying them while the main thread starts, extends, flushes and stops the contexts; non-trivial: inserts, thread switches and commits or closes"),
 "C27": dict(src=CORE + ["p_mem.cpp"], flags=SAN, quick=20000, thorough=150000,
   technique="stateful property-based testing with allocation accounting against bounds that name only uncommitted data, block and record sizes",
   rule="every allocation of the library is counted: store histories with commits, inserts during commits, idle periods and failing file operations; offline calls on small and sparse large data files with failing operations; insert delays against the commit rate of a device of known speed. Non-trivial: at least two commits and items, or a call that failed or worked on more than ten records, or an insert that was delayed"),
 "C28": dict(src=CONC, flags=SAN, plain=["dsched.cpp"], quick=40000, thorough=600000, case_cpu=40,
   technique="stateful property-based testing under a deterministic scheduler with stalled file operations: whoever waits for one deadlocks",
   rule="a commit is stopped in a generated file operation (any kind of the manual flush or of a context thread) while 1..3 clients fetch and insert, another store of the context is opened, used and closed, and possibly a reader is stopped too; non-trivial: at least one stall reached with calls made during it"),
 "C29": dict(src=CORE + ["p_huge.cpp"], flags=SAN, quick=4000, thorough=60000, case_cpu=120, stall=300,
   rule="sparse files with data offsets to 2^47 and up to 2^32 buckets under histories, commits, crash images and recovery; sequential scans past 4 GiB; values of 2 GiB and more. Non-trivial: two commits, six items and a file larger than 2 GiB, or a completed scan or large value"),
 "C30": dict(src=CORE + ["p_cost.cpp"], flags=SAN, quick=6000, thorough=80000,
   technique="stateful property-based testing with every system call accounted against bounds computed from an independent parse of the files",
   rule="histories of inserts, fetches, commits, idle flushes, closes, crashes with recovery, and visit, verify, rekey; reads, writes, bytes, device flushes and other system calls of each call against what it works on; non-trivial: two commits with items and more items than one bucket holds"),
 "C26": dict(src=CORE + ["p_misc.cpp"], flags=["-O2"], case_cpu=120, quick=16, thorough=200,
   rule="each case draws over 240000 values, tests bits, bytes, repetition, three further processes, 200 created and rekeyed databases; non-trivial: always"),
}
