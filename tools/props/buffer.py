LK = 'src/buffer/lru_k_replacer.rs'
add('P04', 'The LRU-K replacer evicts the right frame after any history',
    'After any sequence of accesses, evictability changes, removals and evictions, the replacer picks a victim exactly when some frame is evictable, never a pinned one, and it is the evictable frame with the fewest accesses below k (earliest first access among equals), else the one whose k-th most recent access is oldest. Counts of tracked and evictable frames are exact.',
    'histories', 'All operation sequences up to the length bound over 2 or 3 frames, k from 1 to 3.',
    'tests replay a handful of fixed access orders; a wrong comparison shows only for particular interleavings of accesses among frames', LK, 'access histories; victim selection',
    quick=[H('lruk_order1', 'k = 1: 3 frames, all 4-access orders, all evictable sets, 2 evictions'), H('lruk_order2', 'k = 2, as above'), H('lruk_order3', 'k = 3: 3 frames, all 5-access orders', 100), H('lruk_ops', 'k = 2: 2 frames, every sequence of 3 operations of 5 kinds, then eviction until empty')],
    thorough=[H('lruk_order2l', 'k = 2: 3 frames, all 6-access orders', 800), H('lruk_ops4', 'as lruk_ops with 4 operations', 300), H('lruk_ops3f', '3 frames, 4 operations', 800)])
BP = 'src/buffer/buffer_pool_manager_async.rs'
add('P03', 'The buffer pool never loses, mixes up or gives away a page',
    'Every fetch of a page yields exactly the bytes last written to it, whatever was created, fetched, flushed, evicted or deleted in between, and by however many threads. A pinned page is never evicted or deleted, pin counts equal the guards held, no two pages share a frame, page ids are not reused, no frame is ever lost, a page is created or fetched whenever a frame can be had, and threads never block each other for good.',
    'histories schedules fault_sequences', 'All operation sequences up to the length bound over a pool of 1 to 3 frames and up to 4 pages with symbolic contents; all schedules of two threads with up to 2 departures from round robin, at lock acquisitions; the n-th disk read or write failing.',
    'tests never fail a disk access and rarely fill the pool; the races need a thread to be stopped between two lock acquisitions', BP + ' src/storage/page/page_guard.rs', 'eviction; pinning; flushing; concurrent fetches',
    quick=[H('bpm_ops2', '2 frames, 3 pages, every sequence of 2 operations of 8 kinds'), H('bpm_ops3', '2 frames, 3 pages, every sequence of 3 of create, fetch (and write), drop, delete', 60), H('bpm_fetch3', '3 fetches and unpins'), H('bpm_untouched', 'one page never written to'), H('bpm_batch', 'batch loads of 1 to 3 of 4 pages, 3 frames'), H('bpm_fault', '3 operations with the first to third disk access failing'),
           H('bpm_conc_same', 'two threads, one page, 1 preemption'), H('bpm_conc_evict', 'two threads, two pages, 1 frame, 1 preemption'), H('bpm_conc_pool2', 'two threads, 3 pages, 2 frames, 1 preemption'), H('bpm_conc_new', 'fetch against creation, 1 frame, 1 preemption'), H('bpm_conc_flush', 'write against flush of three kinds, 2 preemptions', 120), H('bpm_conc_hold', 'a page locked by its user while another is unpinned, 1 preemption')],
    thorough=[H('bpm_ops', '3 operations of all 8 kinds', 300), H('bpm_ops4', '4 operations of 6 kinds', 850), H('bpm_fetch', '4 fetches and unpins', 300), H('bpm_conc_evict2', 'as bpm_conc_evict, 2 preemptions', 300), H('bpm_conc_pool2x', 'as bpm_conc_pool2, 2 preemptions', 850)],
    assume='Preemptions happen at lock acquisitions and other acquiring atomic operations of the engine itself (not inside tokio or std); data-race freedom outside them is what Rust guarantees for its safe parts.')
