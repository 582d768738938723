TRUST = (" Seeded sampling: evidence, not proof. Trusts the simulated kernel (files, mmap, locks, clock, pthreads, jemalloc arena"
         " placement) and assumes sequentially consistent memory.")

prop("C01", "The database behaves as a map, in every configuration and across reopens",
 "After any sequence of adds, overwrites, removes, remove-all and resource collections through the single writer, looking up any key (1 to 255 bytes) returns exactly the value (1 to 32767 bytes) of the last successful add and NOT_EXIST otherwise; an add without overwrite on a present key reports that and changes nothing. This holds for every combination of memory caps, block sizes, file rolling, memory-only and allocator options, and after closing and reopening the database cleanly in the same or another process.",
 ["histories", "inputs", "configurations"], "every operation history, key/value shape, configuration and placement of clean reopens",
 "The unit tests run fixed key sequences under a few configurations and check each mostly right after it was written; structural cases (node splits at every edge length, buffer reuse after removes, file rolling, growth of the mapping) are sampled only by accident.",
 ["src/db.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/free_list.cpp", "src/rollable_file.cpp", "src/mmap_file.cpp", "src/detail/search_engine.cpp"],
 [("edge split / node growth", "src/dict_mem.cpp DictMem::AddEdge, InsertNode, UpdateNode"), ("free lists", "src/free_list.cpp"), ("file rolling and sliding map", "src/rollable_file.cpp")],
 "Every operation's result is compared with a std::map; full sweeps of all keys after reopens and at the end." + TRUST,
 observe=["DB::Add/Find/Remove/RemoveAll/CollectResource return codes and values", "DB::Count", "a fresh reader's view after reopen"])

prop("C05", "A lookup concurrent with the writer returns the key's value",
 "While one writer adds, overwrites, removes, collects resources and clears the database, an exact lookup in any reader thread or process returns a value the key had at some moment between the lookup's start and end, or NOT_EXIST only if the key was absent at such a moment. A lookup never returns a mixture of values, another key's value, a value older than one already observed, or an error other than the documented retry indication.",
 ["schedules", "histories", "inputs"], "every interleaving of the writer's and readers' memory accesses, for every history",
 "The lock-free protocol is tested with one or two real-time stress programs whose interleavings are whatever the machine produces; windows of a few instructions between linking, unlinking and releasing buffers are practically never hit.",
 ["src/lock_free.cpp", "src/lock_free.h", "src/detail/search_engine.cpp", "src/detail/lf_guard.h", "src/dict.cpp", "src/dict_mem.cpp"],
 [("writer announces the edge it modifies; readers validate all edges they followed", "src/lock_free.cpp, src/detail/lf_guard.h"), ("buffers are released only after they are unlinked", "src/dict_mem.cpp, src/dict.cpp")],
 "Interleavings are chosen by the simulator at every shared-memory access of the library; each key's history is checked for per-key linearizability." + TRUST,
 observe=["DB::Find, DB::InDB return code and value"])

prop("C06", "A concurrent longest-prefix lookup returns a correct prefix match",
 "While one writer adds, overwrites, removes and collects resources, a longest-prefix lookup in any reader returns a stored key that is a prefix of the query together with a value this key had during the lookup, and no longer prefix of the query was present during the whole lookup. It reports NOT_EXIST only if no prefix of the query was present during the whole lookup, and never any other error except the documented retry indication.",
 ["schedules", "histories", "inputs"], "every interleaving of writer and readers",
 "No test runs longest-prefix lookups against a concurrent writer with an oracle that knows which prefixes were present.",
 ["src/detail/search_engine.cpp", "src/detail/lf_guard.h", "src/lock_free.cpp", "src/dict_mem.cpp"],
 [("path validation", "src/detail/lf_guard.h"), ("last matching node is remembered on the way down", "src/detail/search_engine.cpp traversePrefixFromEdge")],
 "Interval semantics over the recorded version history of every key." + TRUST,
 observe=["DB::FindLongestPrefix return code, match length and value"])

prop("C07", "Iteration concurrent with the writer misses nothing that stays",
 "An iteration over all keys, or over all keys with a given prefix, in any reader running concurrently with one writer returns every matching key that was present during the whole iteration, returns no key that was absent during the whole iteration or does not start with the prefix, returns no key twice unless it was removed and added again meanwhile, and every value returned with a key is one that key had during the iteration.",
 ["schedules", "histories", "inputs"], "every interleaving of an iteration with the writer's operations",
 "Iterators are tested on a quiescent database, plus one stress test that only counts entries.",
 ["src/iterator.cpp", "src/dict.cpp", "src/lock_free.cpp"],
 [("a node is loaded from one consistent state or loaded again", "src/iterator.cpp load_kv_for_node")],
 "Interval semantics over the recorded version history of every key." + TRUST,
 observe=["DB::begin(), DB::begin(prefix), key and value at each step"])

prop("C09", "Resource collection keeps the content, also for concurrent readers",
 "Garbage collection of the index and data (defragmentation) in the writer never changes what is stored: every key keeps its value, nothing appears or disappears, and readers looking up, prefix-searching or iterating in other threads and processes while it runs observe exactly the stored content.",
 ["schedules", "histories", "configurations"], "every content, fragmentation and interleaving with readers",
 "The RC tests collect a quiescent database and re-read it; with readers only a crash or a counter mismatch would be noticed.",
 ["src/mb_rc.cpp", "src/mbt_base.cpp", "src/dict.cpp", "src/lock_free.cpp"],
 [("move one buffer at a time, relink in a lock-free section", "src/mb_rc.cpp"), ("traversal order", "src/mbt_base.cpp")],
 "Same oracles as C05-C07 with resource collection dominating the writer's operations." + TRUST,
 observe=["all lookups and iterations during and after DB::CollectResource"])

prop("C02", "Longest-prefix match and prefix iteration return exactly what is stored",
 "On a database at rest, a longest-prefix lookup returns the longest stored key that is a prefix of the query, with its value and length, and NOT_EXIST only if no stored key is a prefix; iterating over a prefix returns every stored key that starts with it exactly once with its value, and no other key; iterating without a prefix returns every key exactly once.",
 ["histories", "inputs", "configurations"], "every key set, query and operation history that shaped the tree",
 "Tests use a few hand-picked key families; the shape of the radix tree, which decides the code path, depends on the whole history of adds and removes.",
 ["src/detail/search_engine.cpp", "src/iterator.cpp", "src/dict.cpp", "src/dict_mem.cpp"],
 [("last matching node is remembered on the way down", "src/detail/search_engine.cpp"), ("prefix iteration starts at the node covering the prefix", "src/iterator.cpp")],
 "Operation histories of C01 with prefix-heavy queries, compared with a std::map." + TRUST,
 observe=["DB::FindLongestPrefix code, value and match length", "DB::begin(prefix) entries"])

prop("C24", "The lower bound search returns the largest entry not greater than the key",
 "On a database at rest, FindLowerBound returns the value and the key of the largest stored entry that is not greater than the given key in byte order, and NOT_EXIST if there is none.",
 ["histories", "inputs"], "every key set, query and operation history that shaped the tree",
 "No unit test covers it; a benchmark samples random keys of equal length.",
 ["src/detail/search_engine.cpp", "src/dict_mem.cpp"],
 [("candidates are recorded on the way down", "src/detail/search_engine.cpp SearchEngine::lowerBound")],
 "Operation histories of C01 with queries near stored keys, compared with a std::map." + TRUST,
 observe=["DB::FindLowerBound code, value and bound key"])

prop("C03", "Killing the writer at any point loses nothing that was committed",
 "If the writer process is killed at any point - in an update, while opening, creating, closing or recovering the database, even repeatedly - the next writer opens the database without clearing it; afterwards every key has the value of the last completed operation on it, the operation interrupted by the kill has either taken full effect or none, all other keys are untouched, and the database accepts further updates and survives further restarts. (Process kill: the kernel keeps the mapped files. Allocator mode (jemalloc), which documents that it clears the database, is excluded.)",
 ["crash_points", "histories", "configurations"], "every kill point at every memory store and system call of the writer, repeated kills included",
 "A test cannot kill the writer between two particular stores; the one recovery test writes garbage into the header by hand and calls the recovery function directly.",
 ["src/db.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/lock_free.cpp", "src/free_list.cpp", "src/drm_base.cpp"],
 [("updates are saved in the header before they are applied", "src/dict_mem.cpp excep_updating_status, src/dict.cpp Dict::ExceptionRecovery"), ("new buffers are linked only when complete", "src/dict_mem.cpp"), ("the free lists do not survive a kill", "src/free_list.cpp LoadListFromDisk")],
 "The simulator kills the process at a chosen store or system call; the recovered database is compared with the reference map and exercised further." + TRUST,
 observe=["status of DB open after the kill", "all keys and values after recovery", "later updates, clean restarts"])

prop("C04", "Killing the writer during resource collection or remove-all keeps the content",
 "If the writer process is killed at any point of a resource collection (index or data, any phase) or while the next writer completes it, the next writer recovers the database with every key and value intact. If it is killed in RemoveAll, every key is either intact or removed and the database is fully usable.",
 ["crash_points", "histories"], "every kill point in resource collection, its recovery, and RemoveAll",
 "The resource-collection recovery test prepares one header state by hand; it never stops a real collection half-way.",
 ["src/mb_rc.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/db.cpp"],
 [("collection is restarted on the next open", "src/mb_rc.cpp ResourceCollection::ExceptionRecovery"), ("root edges are cleared before the space is reused", "src/dict.cpp Dict::RemoveAll")],
 "As C03 with resource collections and RemoveAll dominating." + TRUST,
 observe=["status of DB open after the kill", "all keys and values after recovery"])

prop("C18", "Readers keep working while the writer is stalled or dead",
 "While the writer is stalled or has been killed at any point, including in the middle of an update, readers in other processes complete every lookup in a bounded number of steps: a lookup of a key not affected by the interrupted operation returns its committed value, and a lookup of an affected key returns the old or the new state or the documented retry indication, never another value or error. They keep working across the restart and recovery of the writer, without seeing a state older than one already observed.",
 ["crash_points", "schedules", "histories"], "every point where the writer can stop, and every interleaving of its restart with readers",
 "Needs a writer stopped between two stores of one update while readers run; wall-clock tests cannot place it there.",
 ["src/lock_free.cpp", "src/detail/lf_guard.h", "src/detail/search_engine.cpp", "src/dict.cpp", "src/db.cpp"],
 [("readers use the edge saved in the header while an update is pending", "src/lock_free.cpp"), ("retries are bounded", "src/detail/search_engine.cpp LOCK_FREE_RETRY_LIMIT")],
 "Crash scenario with readers running all the time; per-key history check and a step bound." + TRUST,
 observe=["DB::Find, FindLongestPrefix results of readers while no writer lives"])

prop("C19", "The entry count matches the content",
 "DB::Count returns the number of stored entries after any completed history of adds, overwrites, removes, RemoveAll, resource collections and clean reopens, from the writer and from readers. Each kill of the writer may leave the count off by at most one (a kill within RemoveAll leaves it undefined) until the next RemoveAll or complete collection.",
 ["histories", "crash_points"], "every operation history and kill point",
 "Tests check the count after a handful of fixed sequences.",
 ["src/dict.cpp", "src/mb_rc.cpp", "src/db.cpp"],
 [("count is maintained by every update path", "src/dict.cpp"), ("collection recounts", "src/mb_rc.cpp ResourceCollection::Finish")],
 "Compared with the reference map in the crash scenario, half of the runs without kills." + TRUST,
 observe=["DB::Count"])

prop("C08", "Every accepted asynchronous update is applied exactly once, in order",
 "With an asynchronous writer, every Add, Remove and RemoveAll that a client process reported as accepted is applied to the database exactly once, and updates of one client are applied in the order it issued them, while clients in several processes and threads fill the shared queue concurrently, the queue wraps around and overflows, the writer's own updates and asynchronous resource collections run in between, readers look up, and client processes are killed at any point. Once clients stop, the queue drains in bounded time, and an update that a client did not get accepted is not applied. (A client that stalls for more than 5 seconds inside one queue operation may lose that one update.)",
 ["schedules", "histories", "crash_points", "fault_sequences"], "every interleaving of clients, writer and collection, queue occupancy, and client kill point",
 "The async tests run one client after the other and compare at the end; slot reuse, a client stopped between taking and filling a slot, and updates arriving in the middle of a collection need interleavings of a few instructions.",
 ["src/async_writer.cpp", "src/shmq_update.cpp", "src/shm_queue_mgr.cpp", "src/mb_rc.cpp", "src/mb_pipe.cpp", "src/db.cpp"],
 [("slots are taken, filled and released through their in_use state", "src/shmq_update.cpp MBShmQueue / DB::SHMQ_*, src/async_writer.cpp AsyncWriter::ProcessTask"), ("updates during a collection go to a second tree that is merged afterwards", "src/async_writer.cpp, src/mb_rc.cpp ResourceCollection::ProcessRCTree")],
 "Clients, writer thread and readers under the simulated scheduler; every accepted update is checked against per-key histories and the final content." + TRUST,
 observe=["DB::Add/Remove/RemoveAll return codes through the queue", "DB::AsyncWriterBusy", "content after the queue drained"])

prop("C10", "At most one writer at a time, and a freed database can be opened again",
 "However threads and processes open and close writers (synchronous, asynchronous, in-memory) of one database concurrently and however they are killed, at most one writer is open at any moment; an attempt to open a second one is refused with WRITER_EXIST, disturbs neither the open writer nor any reader, and is refused only if another writer or attempt overlaps it. As soon as the writer is closed or its process is killed, a new writer can be opened. Everything the successive writers committed is kept.",
 ["schedules", "histories", "crash_points"], "every interleaving of opens, closes, updates and process kills of several threads and processes",
 "The tests open a second writer once, sequentially, and never with a kill or with a competing attempt in between.",
 ["src/db.cpp", "src/mb_data.h", "src/util/mb_lsq.h", "src/resource_pool.cpp", "src/file_io.cpp"],
 [("writer lock", "src/db.cpp DBConstructor, writer lock on the files of the directory"), ("release on close", "src/db.cpp DB::Close")],
 "Ownership intervals recorded by the scenario; all reads and updates checked against the reference history." + TRUST,
 observe=["DB::Status after open", "all reads and updates of the open writer and readers", "success of later opens"])

prop("C17", "The database lock is exclusive and survives the death of its owner",
 "DB::Lock ... DB::UnLock is mutually exclusive among all threads and processes that have the database open, whatever their mode; it is granted within bounded time once it is free; and if a process is killed while holding it, the lock becomes available to the others again.",
 ["schedules", "crash_points"], "every interleaving of lock, unlock, opens, closes and process kills",
 "The lock is not tested with more than one process, and never with a dying owner.",
 ["src/db.cpp", "src/util/shm_mutex.cpp", "src/lock.cpp"],
 [("robust process-shared mutex in the index header", "src/util/shm_mutex.cpp, src/db.cpp DB::Lock")],
 "The simulated pthread mutex implements process-shared and robust attributes, a mutex without them does not work across processes or deaths." + TRUST,
 observe=["DB::Lock, DB::UnLock return codes", "holders at any moment"])

prop("C15", "The prefix cache never changes an answer",
 "With the prefix cache enabled in the writer and in readers, on disk or in memory, every lookup, longest-prefix lookup and iteration on a database at rest returns exactly what it returns without the cache, after any history of adds, overwrites, removes, RemoveAll, resource collections and reopens.",
 ["histories", "inputs", "configurations"], "every operation history, key family and cache option",
 "The cache is filled by lookups and invalidated by updates deep inside the library; tests with the cache enabled hardly mix lookups with structural updates of the cached nodes.",
 ["src/util/prefix_cache.cpp", "src/detail/search_engine.cpp", "src/dict.cpp", "src/dict_mem.cpp"],
 [("seed a lookup at a cached node", "src/detail/search_engine.cpp"), ("invalidation on structural changes", "src/dict.cpp, src/dict_mem.cpp")],
 "Operation histories of C01 and C02 with the cache options always on and key families sharing prefixes, compared with a std::map." + TRUST,
 observe=["all lookups and iterations of the writer and readers with the cache enabled"])

prop("C12", "A backup is a complete database of its own, or it fails and says so",
 "When DB::Backup reports success, the target directory holds a database that opens with exactly the content of the source at some moment during the call (for an asynchronous writer: when the request is processed, before the backup opens), whatever the file layout, and the source is unchanged and fully usable. Disk errors, short writes, a full disk, or a kill during the backup leave the source intact, are reported, and never leave a target that opens with wrong content. Afterwards the two databases are independent.",
 ["histories", "crash_points", "configurations"], "every content, file layout, fault and kill point during the backup, with updates running concurrently",
 "The backup test copies one small database and compares a few keys; it injects no failure and never updates either database afterwards.",
 ["src/mb_backup.cpp", "src/db.cpp", "src/async_writer.cpp", "src/shm_queue_mgr.cpp"],
 [("copy the used part of every file, header last", "src/mb_backup.cpp"), ("the asynchronous writer makes requested backups between updates", "src/async_writer.cpp")],
 "Backups are opened and compared with snapshots of a std::map; both databases are then updated further." + TRUST,
 observe=["DB::Backup return code", "content of the backup and of the source", "status of opening the target"])

prop("C23", "Databases used by the same processes do not affect each other",
 "Whatever is done to one database - updates, asynchronous writers and their queues, backups, closing, removing and recreating its files, repairing a corrupt header, releasing its cached resources - no other database in the same or another process, in the same, a sibling or a nested directory, loses or gains an entry, an update or its queue, and every handle keeps operating on the database it was opened for.",
 ["histories", "schedules", "configurations"], "every interleaving of operations on several databases by two processes",
 "The tests use one database directory at a time.",
 ["src/resource_pool.cpp", "src/shm_queue_mgr.cpp", "src/db.cpp", "src/async_writer.cpp", "src/mabain_consts.cpp"],
 [("file handle pool keyed by path", "src/resource_pool.cpp"), ("shared memory queue per database", "src/shm_queue_mgr.cpp"), ("process-wide async writer", "src/async_writer.cpp")],
 "Each database is compared with its own std::map." + TRUST,
 observe=["all reads and updates of every database", "existence of queue files"])

prop("C13", "Failing calls, full disks and exhausted limits are reported and harmless",
 "When an operation cannot be completed - a system call fails or transfers less than asked, the disk is full, the configured number of blocks or the memory limit is reached - it reports an error instead of success, throws nothing and does not terminate the process. The key concerned then has its old or its new value, every other key is unaffected, reads stay correct, and when the cause is gone (or RemoveAll has freed the space) the same handle or a new one works normally.",
 ["histories", "configurations"], "every placement of failing calls, of disk space and of capacity limits in operation histories",
 "No test makes a system call fail or runs out of disk space, and capacity limits are reached by one fixed sequence.",
 ["src/file_io.cpp", "src/mmap_file.cpp", "src/rollable_file.cpp", "src/resource_pool.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/mb_rc.cpp"],
 [("error propagation of reservations and writes", "src/rollable_file.cpp, src/dict_mem.cpp, src/dict.cpp"), ("space allocation", "src/file_io.cpp FileIO::AllocateFile")],
 "Operation histories with failing and short calls, a disk of limited size and small block limits, compared with a std::map in which a failed update is resolved by reading the key." + TRUST,
 observe=["return codes and exceptions", "full sweeps of all keys and iterations", "reopened handles in the same and in new processes", "stores to mapped pages without disk space"])

prop("C16", "Opening a database never destroys it",
 "Opening a database - for reading or writing, with any options and sizes, in any process, while system calls fail - either succeeds with the complete content or reports an error and leaves content, files and locks so that the next proper open succeeds with the complete content. Only a writer that finds no database of this version (missing, truncated or invalid header) starts a new, empty one; a reader refuses it.",
 ["histories", "configurations"], "every sequence of opens with matching and other configurations, failing calls at every point of an open, damaged headers",
 "The tests open with one configuration per test and corrupt the header in a few fixed ways; they never open with a failing call and look at the content afterwards.",
 ["src/db.cpp", "src/drm_base.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/resource_pool.cpp", "src/shm_queue_mgr.cpp"],
 [("decision to erase and start anew", "src/db.cpp DB::InitDB, DB::ReInit"), ("header validation", "src/drm_base.cpp DRMBase::ValidateHeaderFile"), ("configuration checks", "src/db.cpp DB::ValidateConfig, src/dict.cpp, src/dict_mem.cpp")],
 "Every open is followed by a comparison of the whole content with a std::map." + TRUST,
 observe=["DB::Status", "content after every open", "locks: the next open succeeds"])

prop("C11", "Size and count limits evict the least recently updated entries first",
 "When a resource collection is given a limit on the data size or on the number of entries and the limit is exceeded, the entries evicted are those whose last successful add or overwrite is oldest, in units of the configured entries per bucket: no entry is evicted while one of an older bucket stays, and no entry of the current bucket is evicted. Nothing is evicted while the limits are met; repeated collections bring the count down to the limit's order of magnitude; kept entries keep their values. This holds for any history of adds, overwrites, removes, RemoveAll, reopens and wrap-arounds of the bucket number, and for updates an asynchronous writer accepts while the eviction runs.",
 ["histories", "configurations", "schedules"], "every operation history, bucket size, limit and position of the bucket counter, and every interleaving of asynchronous updates with the eviction",
 "The eviction tests add keys in order, evict once and check the count; wrap-around of the bucket number takes 65535 buckets of updates, and no test overwrites old entries, clears the database or updates it during an eviction.",
 ["src/mb_rc.cpp", "src/db.cpp", "src/dict.cpp", "src/async_writer.cpp"],
 [("bucket index of every entry", "src/dict.cpp, header eviction_bucket_index / num_update"), ("entries of the oldest buckets are removed", "src/mb_rc.cpp ResourceCollection::LRUEviction")],
 "A model numbers the updates; the survivors of every collection are compared with it. For one lap (65535 buckets) the update counter is moved forward through the header." + TRUST,
 observe=["which keys survive DB::CollectResource", "DB::Count", "the bucket number and value returned by DB::Find"])

prop("C14", "Allocator mode keeps content over restarts and never hands out wrong data",
 "With the jemalloc allocation option and the option to keep the database, a clean restart of the writer in the same or another process keeps every key and value, however often it is repeated and while readers go on reading; updates afterwards work as before. After a kill of the writer the next open either keeps the database with the interrupted operation applied or not, or finds it cleared, never changed in another way. Readers before, during and after every restart, rebuild or clearing get for each key a value it had, or NOT_EXIST once it may have been removed or cleared, and nothing else.",
 ["histories", "crash_points", "schedules", "configurations"], "every operation history, kill point (repeated kills included) and interleaving of readers with updates, restarts and clearing",
 "The jemalloc tests restart a quiescent database once, with no readers and no kill; which buffer a freed block is handed to next depends on the allocator's history.",
 ["src/db.cpp", "src/dict.cpp", "src/dict_mem.cpp", "src/rollable_file.cpp", "src/util/mb_mm.h", "src/mb_rc.cpp", "src/lock_free.cpp"],
 [("startup rebuild moves all buffers into new blocks", "src/db.cpp, src/mb_rc.cpp"), ("blocks are released when no buffer is left in them", "src/rollable_file.cpp, src/util/mb_mm.h"), ("clearing after a crash", "src/db.cpp")],
 "The real jemalloc library runs against simulated memory; contents compared with a reference map, readers checked per key." + TRUST,
 observe=["status of DB open", "all keys, values, iterations and DB::Count after every restart", "lookups of readers at any time"])
