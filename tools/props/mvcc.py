TM, TH = 'src/concurrency/transaction_manager.rs', 'src/storage/table/transactional_table_heap.rs'
add('P20', 'Each transaction sees exactly the versions of its isolation level',
    'A read returns the own change of the transaction if there is one; otherwise, under repeatable read, serializable and snapshot the version committed last before the transaction began, under read committed the version committed last, and under read uncommitted the newest. Rows without such a version are absent.',
    'histories', 'All histories of 3 (thorough: 4 and 5) begins, inserts, updates, deletes, commits and rollbacks of two or three transactions on up to three rows with arbitrary contents, every row read by every transaction after every step.',
    'tests follow a few fixed histories', TH + ' ' + TM + ' src/storage/table/tuple.rs', 'get_tuple and the walk of the version chain',
    quick=[H('mvcc_row3', '3 steps, one row, three levels', 120), H('mvcc_ins3', '3 steps with inserts', 120), H('mvcc_two3', '3 steps, two rows', 150)],
    thorough=[H('mvcc_row4', '4 steps, one row, two levels', 600), H('mvcc_ins4', '4 steps with inserts', 600), H('mvcc_three4', '4 steps, three transactions', 600), H('mvcc_row5', '5 steps', 900)])
add('P21', 'Transactions take effect whole or not at all',
    'The changes of a commit become visible together, a rollback leaves no trace of the transaction even on full pages, a transaction ends once and as it was first told, and its locks end with it. A commit reported as done is in the log when a crash follows, and one that could not be logged is rolled back.',
    'histories schedules fault_sequences crash_points', 'Histories of 3 steps with tuples that fill pages; a commit or rollback of two rows beside a reading thread (1 preemption, thorough 2); ends of two transactions, the log failing at its n-th write or sync, and every loss of unsynced writes.',
    'tests neither interleave readers with commits nor fail the log', TM + ' src/concurrency/transaction_manager_factory.rs ' + TH + ' src/storage/page/page_types/table_page.rs', 'commit, abort and the commit protocol of the factory',
    quick=[H('mvcc_full3', '3 steps, sizes 1, 1300 and 1500 on one page', 250), H('mvcc_atomic1', '1 preemption'), H('mvcc_ends3', '3 ends of two transactions, crash'), H('mvcc_ends2f', '2 ends under a failing log, crash')],
    thorough=[H('mvcc_atomic2', '2 preemptions', 400), H('mvcc_full4', '4 steps', 900)])
add('P22', 'Old versions live as long as someone may read them',
    'Garbage collection and pruning at any time change no read and no rollback. The watermark is the oldest running snapshot and never falls; ids and timestamps are given once and grow; a running transaction stays known until it ends or the manager shuts down.',
    'histories', 'All histories of 4 (thorough: 5) steps of two transactions on a row, with a collection after each; all histories of 5 (thorough: 7) begins and ends.',
    'tests collect once in a fixed history', TM + ' src/concurrency/watermark.rs', 'garbage_collection, prune_completed_transactions and Watermark',
    quick=[H('mvcc_gc4', '4 steps, a collection after each', 120), H('mvcc_marks5', '5 begins and ends')],
    thorough=[H('mvcc_gc5', '5 steps', 600), H('mvcc_marks7', '7 begins and ends', 200)])
add('P23', 'No update is lost',
    'A row that another running transaction changed is not overwritten, and under repeatable read, serializable and snapshot neither is one changed by a commit since the transaction began; any other row the transaction sees can be changed by it.',
    'histories schedules', 'The histories of P20, and two threads changing one row with 1 (thorough: 2) preemptions.',
    'tests race updates a few times', TH, 'the check and the write of update_tuple and delete_tuple',
    quick=[H('mvcc_row3', '3 steps, one row', 120), H('mvcc_race1', 'two threads, 1 preemption')],
    thorough=[H('mvcc_race2', '2 preemptions', 900), H('mvcc_row4', '4 steps', 600)])
add('P24', 'A table heap returns exactly the tuples inserted',
    'Every inserted tuple that fits a page is stored under an id of its own, under which it is found; a scan returns the visible tuples once each, in order of id and with their ids, over any number of pages, also after the table is opened again.',
    'inputs histories', '2 (thorough: 3) inserts of sizes from 1 byte to more than a page, single or two rows at once, with arbitrary contents; committed or rolled back; reopened or not.',
    'tests insert small tuples', 'src/storage/table/table_heap.rs src/storage/table/table_iterator.rs', 'insert paths, page links and TableIterator',
    quick=[H('heap_pages2', '2 inserts of 6 sizes, single or two rows together'), H('mvcc_ins3', '3 steps with inserts, scans', 120)], thorough=[H('heap_pages3', '3 inserts', 500)])
