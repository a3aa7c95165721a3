BT, BM, BI = 'src/storage/index/b_plus_tree_index.rs', 'src/storage/index/b_plus_tree.rs', 'src/storage/index/index_iterator_mem.rs'
add('P25', 'The paged B+ tree index is a sorted map, whatever was inserted and deleted',
    'After any history of inserts and deletes, with and without latch crabbing, a lookup returns the value inserted last for the key or nothing, a range scan returns exactly the entries of the range in order, a delete tells whether the key was there, the size is the number of keys, and the tree passes its own validation.',
    'histories inputs', 'Trees of order 3 and 4 (thorough: 5) of 1 to 13 (thorough: 24) keys built in three orders, then an insert or delete of an arbitrary key (thorough: two), then an arbitrary lookup, range scan, or emptying in four orders with everything checked after each step.',
    'tests build a few trees', BT + ' src/storage/page/page_types/b_plus_tree_internal_page.rs src/storage/page/page_types/b_plus_tree_leaf_page.rs', 'split, merge, redistribute and the search paths',
    quick=[H('tree_disk0', 'order 4, up to 11 keys', 150), H('tree_disk03', 'order 3, up to 12 keys', 150), H('tree_disk3', 'order 3, 8 keys and 1 operation', 150), H('tree_disk4', 'order 4, 13 keys and 1 operation', 250)],
    thorough=[H('tree_disk0_more', 'order 4, 12 to 17 keys', 600), H('tree_disk3_1', 'order 3, 6 to 10 keys and 1 operation', 600), H('tree_disk3_2', 'order 3, 6 to 8 keys and 2 operations', 900), H('tree_disk4_1', 'order 4, 8 to 14 keys and 1 operation', 900), H('tree_disk5', 'order 5, up to 24 keys', 900)],
    note='One thread: the index states no isolation of concurrent structural changes. The pages of an index are not written to disk by the repository, so its index lives as long as its pages stay in the pool.')
add('P26', 'The in-memory index is a set of entries, whatever was inserted and deleted',
    'After any history of inserts and deletes, also of entries with equal keys, a lookup of a key returns all entries of the key, scans return exactly the entries of the range in order of the keys, and inserts and deletes tell whether they changed the index.',
    'histories inputs', 'Trees of order 4 of 1 to 11 (thorough: 17) entries built in four orders, one with equal keys, then an insert or delete of an arbitrary entry (thorough: two), then an arbitrary lookup, range scan, or emptying in four orders with everything checked after each step.',
    'tests build a few trees', BM, 'insert_entry, delete_entry, the rebalancing and scan_range',
    quick=[H('tree_mem0', 'up to 11 entries'), H('tree_mem1', '8 to 11 entries and 1 operation', 120)],
    thorough=[H('tree_mem0_more', '12 to 17 entries', 400), H('tree_mem2', '5 to 8 entries and 2 operations', 900)])
add('P27', 'An index iterator returns each entry of its range once',
    'Forwards or backwards, an iterator returns exactly the entries of its range in order, once each, over any number of batches, and then ends; reset starts again; after a seek it goes on with the entries from the sought key.',
    'inputs histories', 'Trees of 1 to 11 (thorough: 17) entries in four orders, arbitrary range, seeks between any two entries.',
    'tests iterate over a few ranges', BI + ' ' + BM, 'next, next_back, seek and reset',
    quick=[H('tree_mem0', 'up to 11 entries')], thorough=[H('tree_mem0_more', '12 to 17 entries', 400)])
