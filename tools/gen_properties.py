#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P=[]
I='include/nudb/'
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

BS=I+'impl/basic_store.ipp'; BK=I+'detail/bucket.hpp'; BU=I+'detail/bulkio.hpp'; FM=I+'detail/format.hpp'
PO=I+'detail/pool.hpp'; CA=I+'detail/cache.hpp'; AR=I+'detail/arena.hpp'; CX=I+'impl/context.ipp'; RC=I+'impl/recover.ipp'
VE=I+'impl/verify.ipp'; VI=I+'impl/visit.ipp'; RK=I+'impl/rekey.ipp'; CR=I+'impl/create.ipp'; PX=I+'impl/posix_file.ipp'
GX=I+'detail/gentex.hpp'; XX=I+'detail/xxhash.hpp'

p("C01","The store behaves as an insert-only map, whatever its shape and history",
  "For every database geometry (key size, block size, load factor, salt, hash function) and every sequence of inserts, fetches, commits, closes and reopens, the store answers exactly like an in-memory map: a fetch of an inserted key calls the callback exactly once with exactly the inserted bytes, a fetch of any other key reports key_not_found and never calls the callback, and the answer is the same before, during and after a commit, a bucket split or a bucket spill. Inserting a key that is present, whether still buffered or already on disk, reports key_exists and leaves its value unchanged; inserting any other key succeeds.",
  ["inputs","histories","configurations"],
  "All key sizes, block sizes (104..65535), load factors, salts, hash functions including heavily colliding ones, value sizes from 1 byte to many megabytes, data file offsets beyond 2^32, and all interleavings of insert, fetch, duplicate insert, commit, close and reopen.",
  "The unit tests insert sequentially generated keys with one good hash, a few block sizes and default commits; long spill chains, splits of spilled buckets, hash collisions, duplicates sitting in spill records and boundary value sizes are only sampled by luck.",
  [BS,BK,BU,FM,PO,CA,AR],
  [("pool/cache/key file/spill lookup order in fetch and insert",BS+" fetch, insert, exists"),("linear hashing split and spill",BS+" commit, split; "+BK+" maybe_spill, bucket_index"),("sorted buckets",BK+" lower_bound, insert, erase")],
  ["basic_store::insert","basic_store::fetch","error_code results"])

p("C02","A successful close is durable and reopening gives back the same database",
  "After close reports success, or the store object is destroyed without error, every acknowledged insert is found with its exact value after reopening, even if all data not explicitly synced to the device is lost at that moment; nothing else appears, and appnum, uid, salt, key size, block size and load factor are unchanged. The log file is gone after a successful close, present while the store is open, and open, close and reopen cycles without inserts change neither the data file nor the key file.",
  ["histories","configurations","crash_points"],
  "All histories of inserts, commits and close/reopen cycles for any geometry, with loss of all unsynced data after close.",
  "Tests close and reopen a store only on a real file system that never loses unsynced data, and do not compare the files of idle cycles.",
  [BS,RC,CX],
  [("final commit in close, then log erase",BS+" close"),("sync order at the end of commit",BS+" commit"),("destructor calls close",BS+" ~basic_store")],
  ["files after close","reopened store contents"])

p("C03","A crash at any point of a commit leaves exactly the old or the new state",
  "If the process or machine stops at any point while inserted data is being committed, then opening or recovering the database afterwards succeeds and yields exactly the set of key/value pairs of either the previous completed commit or the interrupted one, never a mixture, never a lost earlier insert, and never a wrong value. The recovered database passes verification, has no log file, has the data file of exactly that state, and accepts further inserts.",
  ["crash_points","histories","configurations"],
  "Every file operation of every commit (including the one in close) as the crash point, with unsynced writes surviving completely, not at all, partly, reordered or torn (log appends survive as a possibly torn prefix), for all batch shapes with splits and spills.",
  "The repository's crash test replaces the file class by one that throws at operation N and never loses, tears or reorders unsynced writes, so sync ordering is not tested at all.",
  [BS,RC,BU,PX],
  [("log of clean buckets synced before any key file write",BS+" commit"),("data and key file sync before the log is truncated",BS+" commit"),("rollback",RC+" recover")],
  ["files after crash","recover","open","verify"],
  state=[("log file","clean buckets and file sizes before the commit","lf")])

p("C04","Recovery is idempotent: it can be interrupted and repeated at will",
  "If recovery itself is interrupted by a crash or an I/O error at any point, a later recovery still reaches the same consistent state that an uninterrupted recovery would have reached. An error met during recovery is reported, recovering an already consistent database changes nothing, and recovery without a log file leaves the data and key file untouched.",
  ["crash_points","fault_sequences","histories"],
  "Every operation of recovery after every crash point of a commit as a second (and third) crash or fault point.",
  "No test interrupts recover.",
  [RC],
  [("rollback only rewrites clean buckets and truncates; the log is emptied last, after syncs",RC+" recover")],
  ["files after recover","error_code of recover"])

p("C05","An I/O error is reported, never loses or corrupts acknowledged durable data",
  "When any file operation fails at any moment (open, read, write, short write followed by an error, sync, truncate, size, erase), the call that needed it or, for background commits, every later fetch and insert and the close report an error; no call ever returns a wrong value, a false key_not_found or a false success. After the failed store is closed or destroyed and the fault is gone, the database opens and holds exactly the state of the last completed commit or of the interrupted one, and inserts work again; the same store object can be reopened.",
  ["fault_sequences","histories","configurations"],
  "Every file operation in every history as the failing one, transient or persistent, with each error code and with partial transfers.",
  "The fail_file test checks that some error appears at step N, not which calls report it nor what fetch answers afterwards.",
  [BS,RC,PX,CX],
  [("sticky error",BS+" flush, fetch, insert, close"),("error_code propagation in commit",BS+" commit"),("rollback on next open",RC)],
  ["error_code of each call","callback data","files after reopen"])

p("C06","Concurrent fetches and inserts are linearizable under every schedule",
  "For any number of threads fetching and inserting on one open store while commits run in the background, every result is one that some sequential order of the calls consistent with real time would give: an inserted key is visible to every later fetch with its exact value, never disappears, and exactly one of several concurrent inserts of the same key succeeds while the others report key_exists.",
  ["schedules","histories","configurations"],
  "All interleavings of client threads, commit phases and file operations, for geometries that split and spill in the commit.",
  "Tests run threads freely on the real scheduler and never steer a fetch between the phases of a commit.",
  [BS,GX,PO,CA,CX],
  [("shared/unique locking of the two pools and the bucket cache",BS+" fetch, insert, commit"),("generation lock keeps readers of old buckets out of key file writes",GX),("insert mutex",BS+" insert")],
  ["results of fetch and insert with invocation/response order"])

p("C07","Concurrent use as documented is free of data races and memory errors",
  "Any program that uses stores and contexts as documented (concurrent fetch, insert, set_burst and accessors with background commits, several stores on one context, several context threads, open and close of other stores meanwhile) executes without data races, use of freed memory, or other undefined behaviour.",
  ["schedules","programs"],
  "All programs of concurrent documented calls and all schedules, as observed by a happens-before race detector over generated programs and perturbed schedules.",
  "The tests are not run under a race detector and their concurrency is a single fixed workload.",
  [BS,GX,PO,CA,CX],
  [("mutex, shared mutex and generation lock discipline",BS+"; "+GX),("context lists guarded by the context mutex",CX)],
  ["ThreadSanitizer / AddressSanitizer reports"])

p("C08","Background commits always make progress; no call or shutdown deadlocks",
  "While a context runs (any number of threads, any number of stores), every acknowledged insert is committed to disk within a bounded time of a few seconds as long as I/O progresses, without any further call by the application. Open, insert (even when throttled), fetch, close, store destruction, context stop and context destruction always return, under every schedule and in every permitted order.",
  ["schedules","histories","programs"],
  "All schedules of 1..n context threads, stores opening and closing at any time, throttled inserts, shutdown at any time.",
  "Timing is the real clock and the OS scheduler; the context test is not among the stable tests.",
  [CX,BS,GX],
  [("waiting/flushing hand-over and condition variables",CX+" run, flush_one, erase, stop_all"),("commit releases locks and generation lock",BS+" commit; "+GX)],
  ["on-disk contents as virtual time advances","blocked threads at quiescence"])

p("C09","Manual context flush commits everything acknowledged, on every store",
  "With a context that was not started, a call to its flush commits all inserts acknowledged before the call on every store open on that context, so that they survive loss of power immediately afterwards, and does so no matter in which order stores were opened and closed; when context threads are running the call does nothing. Nothing is committed before a flush or close.",
  ["histories","configurations"],
  "All sequences of open, close, insert and flush over several stores sharing a context.",
  "The context test opens a few stores in one fixed order.",
  [CX,BS],
  [("waiting/flushing lists",CX+" flush, insert, erase, list"),("store flush",BS+" flush")],
  ["durable files after context::flush"])

p("C10","The files always conform to the documented on-disk format",
  "After every completed create, commit, close, recovery and rekey, the data and key files are exactly what the published format describes: big-endian headers with all fields and zero padding, every data record with size, key and value, full spilled buckets, buckets with sorted entries, zero fill and correct offset, size and 48-bit hash, each key in the bucket that linear hashing assigns, no reachable duplicate, no unreferenced value, and a key file length that is a whole number of blocks.",
  ["inputs","histories","configurations"],
  "All geometries and histories; judged by a parser written from the documentation only.",
  "The tests only read files back with the same code that wrote them, so a symmetric change of format goes unnoticed.",
  [FM,BK,BU,BS,CR,RK],
  [("field and stream encoders",FM+"; "+I+"detail/field.hpp"),("bucket layout",BK)],
  ["bytes of the three files"])

p("C11","The data file is append-only: a written byte never changes",
  "No operation on an open store ever modifies, moves or removes a byte of the data file that a previous completed commit wrote, and no write to it ever lands below the end of the previously committed data; rekey also only appends. Only recovery may shorten it, and then exactly to its length before the interrupted operation.",
  ["histories","configurations","crash_points"],
  "Every write and truncate issued in every history, including recovery and rekey.",
  "Tests never look at the file operations, only at results.",
  [BS,BU,RC,RK],
  [("bulk writer starting at the file size",BU+"; "+BS+" commit"),("truncate to logged size",RC)],
  ["sequence of file operations on the data file","data file prefix"])

p("C12","Verify accepts every database NuDB produces and reports true statistics",
  "For every database produced by create, inserts, commits, recovery and rekey, and for every buffer size, verification succeeds and its report (header fields, file sizes, key, value, byte and spill counts, spill histogram, load, waste, overhead) equals what an independent count over the files gives, whichever of its algorithms runs. It modifies no file, and its progress reports start at 0, keep their total and never go backwards; in the buffered algorithm they also end in the last pass and not beyond it.",
  ["inputs","histories","configurations"],
  "All valid databases including tiny blocks, deep spill chains, no items, rekeyed and recovered ones; all buffer sizes from 0 up.",
  "verify.cpp checks a handful of generated databases with two buffer sizes and never compares the statistics with an independent count.",
  [VE,FM,BK],
  [("normal and fast algorithm",VE+" verify_normal, verify_fast"),("algorithm selection",VE+" verify")],
  ["error_code and verify_info"])

p("C13","Verify detects every documented kind of inconsistency",
  "If a value of the data file is missing from its bucket chain, a bucket entry refers to no value or to one with another size or hash, two values have the same key, a record or spill record is malformed or truncated, or a header is invalid or does not match, then verification with any buffer size reports an error and never success.",
  ["inputs","configurations"],
  "All single corruptions of those classes in any position of any valid database, all buffer sizes.",
  "verify.cpp flips bytes at fixed offsets of one database and only checks some of the error codes.",
  [VE,FM],
  [("per value lookup, per entry check",VE)],
  ["error_code of verify"])

p("C14","Visit enumerates exactly the values of the data file, once each",
  "Visiting a data file calls the callback exactly once for each value, in data file order, with its exact key and bytes, skipping all spill records, for every geometry and value size; an error set by the callback stops the iteration at once and is returned, and a truncated or malformed file gives an error instead of an invented value. Re-inserting everything visited into a new database reproduces the same contents, and progress runs monotonically from 0 to the file size.",
  ["inputs","histories","configurations"],
  "All databases incl. those with spill records at any place, values around the read buffer size, truncation at every byte.",
  "visit.cpp visits one small database.",
  [VI,BU],
  [("bulk reader over records",VI+"; "+BU)],
  ["callback arguments","progress arguments","error_code"])

p("C15","Rekey rebuilds an equivalent key file for any parameters",
  "Given only a data file, rekey with any valid block size, load factor, item count estimate (zero, exact, low or high) and buffer size produces a key file with which the database opens, holds exactly the same key/value pairs, verifies, keeps appnum and uid, uses the requested block size, and accepts further inserts; the values in the data file are unchanged and no log file is left; progress runs monotonically from 0 into the last pass over the data. The new key file has as many buckets as the item count needs at that load factor. Block sizes and load factors that open would not accept, and an existing key or log file, are refused without changing any file.",
  ["inputs","histories","configurations"],
  "All valid data files (including empty, spilled, previously rekeyed) and all parameter combinations.",
  "rekey.cpp rebuilds one database with one set of parameters and a correct item count.",
  [RK,BK,BU],
  [("multi-pass bucket construction",RK)],
  ["rekeyed files","open, fetch, insert, verify"])

p("C16","Interrupting rekey at any point never loses the data",
  "If rekey stops at any point because of a crash (with any loss of unsynced writes) or an I/O error, the values in the data file are intact, and either the new key file is complete and the database opens normally, or recovery removes the unusable key file (it may then report that there is none), restores the data file to its original length, and a new rekey then succeeds and reproduces all key/value pairs. A rekey that reported success is durable.",
  ["crash_points","fault_sequences","configurations"],
  "Every file operation of rekey and of the following recovery as crash or fault point.",
  "The rekey test injects an exception per step but never loses unsynced data and never interrupts the recovery.",
  [RK,RC],
  [("log with zero key file size marks an unfinished rekey",RK+"; "+RC)],
  ["files after crash","recover, rekey, open results"])

p("C17","Create is validated, all-or-nothing and faithful",
  "Create with parameters that a later open would have to reject reports an error and leaves no file behind; with valid parameters it makes a durable empty database that opens with exactly those parameters; if any of the three files exists or any file operation fails it reports an error, changes no pre-existing file, and removes the files it made.",
  ["inputs","configurations","fault_sequences"],
  "All parameter values including boundary and out-of-range ones, every pre-existing file combination, every failing operation.",
  "create.cpp checks a few invalid arguments and one pre-existing file.",
  [CR,FM,I+'native_file.hpp'],
  [("argument checks and cleanup",CR)],
  ["error_code","directory contents","reopened parameters"])

p("C18","Files that do not belong together are refused and left untouched",
  "Opening, recovering or verifying with a data, key or log file of another database, another version or type, another hash function, or with any header field that does not match (uid, appnum, key size, salt, pepper, block size) reports the error documented for that mismatch and modifies none of the files. A log file with a record for a bucket that the key file does not have, or with a spill record outside the data file, is refused with its documented error, and the data and log files stay as they are.",
  ["inputs","configurations"],
  "All pairs of databases and all single header-field alterations of each of the three files.",
  "Tests alter a few fields of one header and do not check that files are unmodified.",
  [FM,RC,BS,VE],
  [("header verification",FM+" verify; "+RC+"; "+BS+" open")],
  ["error_code","file bytes"])

p("C19","Arbitrary or damaged files are handled without memory errors",
  "Whatever bytes the data, key and log files contain, opening, recovering, fetching, inserting, verifying, visiting and rekeying terminate with success or an error code; they never read or write outside their buffers and never crash.",
  ["inputs"],
  "All byte contents of the three files (excluding sizes whose mere allocation is impossible).",
  "No test feeds damaged spill records or logs.",
  [BK,BU,FM,RC,VE,VI,RK,BS,I+'detail/stream.hpp'],
  [("bounds checks when reading buckets and records",BK+"; "+BU)],
  ["AddressSanitizer/UBSan reports, exceptions, signals"])

p("C20","Short transfers and interrupted system calls are transparent",
  "When the operating system transfers fewer bytes than asked for or interrupts calls with EINTR, in any pattern, every operation gives the same results and the same file contents as without; reading past the end reports short_read, and every other failing call reports exactly the system's error.",
  ["fault_sequences","histories"],
  "All patterns of short reads, short writes and EINTR on every call; all offsets and sizes.",
  "Local file systems practically never give short transfers or EINTR.",
  [PX],
  [("retry loops",PX+" read, write, sync, trunc")],
  ["file contents","error_code"])

p("C21","xxhasher computes XXH64 for every input, length, seed and alignment",
  "For every byte string, every length from 0 up, every seed and every buffer alignment, the default hash function returns the value of the published XXH64 algorithm, reads no byte outside its input, and has no undefined behaviour.",
  ["inputs"],
  "All lengths, contents, seeds and alignments.",
  "There is no test of the hash function; any change that is self-consistent passes and silently makes existing databases unreadable.",
  [XX,I+'xxhasher.hpp'],
  [("XXH64 implementation",XX)],
  ["hash value"])

p("C22","All file access goes through the File type the caller supplies",
  "When a database is created, opened, recovered, rekeyed, committed, closed or cleaned up with a caller-supplied file type and constructor arguments, every file that is created, opened, read, written, synced, truncated, sized or erased is accessed only through objects of that type constructed with those arguments, in the modes the File concept defines, no file is erased while an object has it open, and no operating system file is touched.",
  ["programs","histories","fault_sequences"],
  "All histories and all fault outcomes with a custom, purely in-memory file type.",
  "Test file types wrap the native file, so a bypass is invisible.",
  [CR,RC,RK,BS,I+'native_file.hpp',I+'concepts.hpp'],
  [("File template parameter passed through",CR+"; "+RC+"; "+RK+"; "+BS)],
  ["calls on the custom file type","operating system file calls"])

p("C23","The table grows with the data and fetch I/O stays constant",
  "As values are inserted the number of buckets follows the target load factor, so that the average bucket occupancy stays close to it for any insertion pattern and commit batching, independent of database size; a fetch reads one bucket plus one record per matching hash plus one more read per spill record in its chain, and never the rest of the file.",
  ["histories","configurations"],
  "All geometries, numbers of items and batchings, with open/close cycles.",
  "No test measures bucket growth or counts I/O per fetch.",
  [BS,FM,BK],
  [("frac_/thresh_ accumulation and split",BS+" commit, open"),("one bucket read per fetch",BS+" fetch")],
  ["key file size vs. item count","read calls per fetch"])

p("C24","The command line tool agrees with the library",
  "The nudb command line tool reports the true header fields, counts and verification outcome of the database files it is given, its visit and rekey and recover commands do what the library calls do, and wrong arguments, missing files and damaged databases lead to a message, and never to modified files or a success reported for a command that failed.",
  ["inputs","programs"],
  "All commands with generated databases and argument combinations.",
  "The tool has no test at all.",
  ["tools/nudb.cpp"],
  [("command dispatch",'tools/nudb.cpp')],
  ["exit status, output and files of the tool"])

p("C25","Every file handle is released, whatever the outcome",
  "After close, after a failed open, create, recover, rekey, verify or visit, and after destruction of a store, no file handle of the database remains open, no matter which operation failed or at which point; while a store is open it holds at most its three handles.",
  ["fault_sequences","histories"],
  "Every failing operation in every call.",
  "Tests never count handles.",
  [BS,PX,RC,CR,RK],
  [("RAII of File, state reset in close",BS+" close; "+PX)],
  ["open handle count"])

p("C26","Generated uids and salts are uniform 64-bit values",
  "Values returned by make_uid and make_salt behave as independent uniform 64-bit values drawn from the system's random device: they do not repeat in practice, every bit position varies evenly, and databases created without an explicit uid get distinct uids, as does the salt of every rekeyed file.",
  ["inputs"],
  "Long sequences of generated values.",
  "No test calls these functions more than a few times.",
  [CR,RK],
  [("random_device seeding",CR+" make_uid, make_salt")],
  ["returned values"])

p("C27","Memory is bounded by uncommitted data, not database size, and given back in full",
  "The memory a store holds is bounded by the data inserted and not yet committed plus a constant number of blocks, whatever the size of the database; it shrinks back after a commit and when the store is idle, and is returned in full by close, destruction, a failed open and every offline call, also after errors. The memory one fetch, insert, commit, open, recover, visit, verify or rekey needs is bounded by the record, block and caller's buffer sizes (and the batch, for a commit), not by the database. An insert is delayed only while more than the burst size is buffered and data arrives faster than commits have written it, and then it is, for a bounded time.",
  ["histories","configurations","fault_sequences"],
  "All histories, database sizes, batch sizes, buffer sizes and failing operations.",
  "No test measures memory; a leak or a cache that is never cleared passes every functional test.",
  [I+'detail/arena.hpp',I+'detail/pool.hpp',I+'detail/cache.hpp',BS,RK,RC],
  [("pools and caches cleared after a commit",BS+" commit"),("arena block recycling",I+"detail/arena.hpp"),("insert throttling",BS+" insert")],
  ["bytes allocated by the library","virtual time an insert takes"])

p("C28","A commit never blocks fetches or inserts, however slow the device",
  "While a commit is in progress, and however long any one of its file operations takes, fetches and inserts of the same store by other threads, and every call on other stores of the same context, complete without waiting for it and with correct results; a fetch or insert whose own read of the files is slow holds up no fetch, and a slow fetch holds up no insert.",
  ["schedules","histories"],
  "All file operations of all commits as the place where the device stalls, all schedules of the other threads.",
  "Tests use fast local files, where a lock held across I/O only costs microseconds.",
  [BS,I+'detail/gentex.hpp',CX],
  [("locks released around file I/O",BS+" commit, flush, fetch")],
  ["which calls return while a file operation is stopped"])

p("C29","Databases and values of every documented size work",
  "Data and key file offsets up to the documented limit (48 bits) and bucket counts up to 2^32, and values up to 2^32-1 bytes, behave exactly like small ones: inserted values are fetched, commits, crash recovery, reopening and table growth keep every value, and visit, verify and rekey process data and key files larger than 4 GiB completely.",
  ["configurations","histories","crash_points"],
  "All offsets, bucket counts and value sizes inside the documented limits.",
  "Tests use files of a few megabytes; truncation of an offset to 32 bits passes them all.",
  [BS,BK,FM,RC,RK,BU,VE,VI],
  [("48-bit offsets and sizes",FM+"; "+BK),("bucket index arithmetic",BK+" bucket_index")],
  ["values fetched","files at huge offsets"])

p("C30","I/O of every call is bounded by what it works on, not by the database size",
  "A fetch or insert never writes; it reads at most one block of the key file, the spill records of that bucket, and the records whose stored hash equals the key's (an insert only their keys), and nothing when the key is buffered. A flush with nothing buffered makes no I/O. A commit appends each new byte once, in large writes; reads and writes each affected bucket at most once and reads only the spill records of buckets it splits; logs only those buckets without their unused entries; and makes a constant number of device flushes. Open and close cost the same for every size. Recovery reads the log once or twice and rewrites the logged buckets only. visit and verify scan the data file in large reads; rekey and verify make as many passes as the buffer given requires.",
  ["histories","inputs","configurations","crash_points"],
  "Databases on which no operation fails and no other call runs at the same time; counts are system calls of native_file.",
  "Every test passes when a commit rewrites the whole key file, flushes the device per bucket, or a lookup reads values that do not match: only time is lost.",
  [BS,BU,RK,VE,VI,RC,BK],
  [("bulk writes and the two bucket caches of a commit",BS+" commit, load, split"),("sequential reads",BU+" bulk_reader"),("passes per buffer",RK+"; "+VE)],
  ["reads, writes and device flushes per call and their sizes"])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
