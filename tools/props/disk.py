DD = 'src/storage/disk/async_disk/'
DF = DD + 'manager.rs ' + DD + 'io/io_impl.rs ' + DD + 'memory/write_manager.rs ' + DD + 'cache/cache_manager.rs'
add('P05', 'A disk read returns the last page version written',
    'Reading a page through the disk manager returns exactly the bytes of the last completed write of that page, whether it is still staged, cached or on disk, for every configuration of buffering, caching, compression and direct I/O, and with concurrent readers, writers and flushes.',
    'histories schedules configurations', 'All operation sequences up to the length bound over 2 pages; symbolic contents where nothing is hashed; schedules of two threads with one departure from round robin.',
    'tests write and read a page in order under the default configuration; a stale version shows only for particular orders of flush, eviction and rewrite', DF, 'staged, cached and stored versions of a page',
    quick=[H('disk_plain', 'write-through without cache: every sequence of 2 operations of 7 kinds, write, batch write, read, flush, sync'), H('disk_cache', 'default caches and buffers, 2 operations', 120), H('disk_steal', 'work stealing and scheduled operations', 120), H('disk_small', 'caches and buffers of one page', 120), H('disk_comp', 'LZ4 compression', 90), H('disk_direct', 'direct I/O', 120), H('disk_conc', 'a writer against a flush and a reader, 1 preemption', 150), H('disk_conc3', 'two writers, 1 preemption', 90), H('disk_conc4', 'reader against writer and flush, 1 preemption', 150)],
    thorough=[H('disk_plain3', 'as disk_plain, 3 operations', 800)])
add('P06', 'Synced pages survive crashes; failed I/O loses nothing',
    'After a successful flush and sync, a crash at any later point leaves every synced page readable with the synced or a later version, and a page never mixes versions of another page. A disk operation that fails reports it, and the page is kept, so that later flushes write it and reads see it.',
    'crash_points fault_sequences histories', 'Crash after any operation with every subset of the unsynced writes kept; the n-th write, read or sync failing.',
    'no test crashes the process or makes a disk call fail', DF, 'flush and sync; error paths of the write manager',
    quick=[H('disk_crash', '2 operations, then a crash keeping any subset of unsynced writes; 3 configurations', 120), H('disk_faults', '2 operations, a failing call at any point', 120), H('disk_faults1', 'failing sync or short write', 120), H('disk_faultcrash', 'a failing call, then a crash', 90)],
    thorough=[H('disk_crash3', '3 operations', 300), H('disk_faults3', '3 operations', 800)])
CA = 'src/storage/disk/async_disk/cache/'
add('P07', 'A page cache never returns a stale or foreign page',
    'Every cache (FIFO, LRU, concurrent LRU, LFU, heap LFU, LRU-K and the three-tier cache manager) returns for a key only the value last stored under it, never exceeds its capacity, evicts the entry its policy names, and keeps its counts exact, after any sequence of operations. A capacity of zero holds nothing.',
    'histories schedules', 'All sequences of 4 operations over 3 keys, capacity 2; the cache manager with every sequence of 3 to 5 operations, page temperatures and 2 preemptions.',
    'tests replay fixed orders; a stale tier or a wrong victim needs a particular order of promotions and evictions', CA + 'cache_manager.rs ' + ' '.join(CA + f for f in ('fifo.rs', 'lru.rs', 'lfu.rs', 'heap_lfu.rs', 'lru_k.rs')), 'cache tiers; eviction policies',
    quick=[H(n, b) for n, b in [('cache_fifo', 'FIFO: capacity 2, 3 keys, 4 operations'), ('cache_lru', 'LRU: as above'), ('cache_lru_conc', 'concurrent LRU: 3 operations'), ('cache_lfu', 'LFU: 4 operations'), ('cache_heap', 'heap LFU: 4 operations'), ('cache_lruk', 'LRU-K, k = 2: 4 operations'), ('cache_lruk3', 'LRU-K, k = 3'), ('cache_zero', 'capacity 0'), ('cachemgr_ops', 'cache manager: 4 operations'), ('cachemgr_small', 'tiers of one page')]] + [H('cachemgr_temps', 'stores at every temperature, reads promoting', covers=('done', 'hit')), H('cachemgr_conc', 'two threads, 2 preemptions')],
    thorough=[H(n, b, t) for n, b, t in [('cachemgr_ops5', '5 operations', 200), ('cache_fifo5', '5 operations', 300), ('cache_lru5', '5 operations', 300), ('cache_lru3x5', 'capacity 3, 5 operations', 700), ('cache_lfu5', '5 operations', 300), ('cache_heap5', '5 operations', 300), ('cache_lruk5', '5 operations', 300), ('cache_lruk35', 'k = 3, 5 operations', 300)]] + [H('cachemgr_temps3', '3 operations at every temperature', 300, covers=('done', 'hit'))])
