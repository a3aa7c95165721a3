add('P28', 'The extendible hash table and its index follow a map over any history',
    'After any history of inserts and deletes, also of repeated keys, a lookup returns the value of the key inserted first that is still there or nothing, a delete tells whether the key was there, and an insert is refused only when the directory has its greatest depth and the bucket is full; the index over it holds one entry per key.',
    'histories inputs', 'Tables of greatest depth 2 and 3, buckets of 1 and 2 entries, keys whose hashes collide in all, some or none of the bits: 3 inserts and 2 (thorough: 3) arbitrary inserts or deletes, all keys looked up after each step.',
    'tests insert and remove a few keys', 'src/container/disk_extendable_hash_table.rs src/storage/page/page_types/extendable_hash_table_directory_page.rs src/storage/page/page_types/extendable_hash_table_bucket_page.rs src/storage/index/extendable_hash_table_index.rs', 'insert, split, remove, merge and get_value',
    quick=[H('hash_hist5', 'depth 3, buckets of 1', 100), H('hash_dup5', 'depth 2, buckets of 2, equal keys'), H('hash_index4', 'the index, 4 operations')],
    thorough=[H('hash_hist6', 'depth 3, buckets of 1, 3 operations', 900), H('hash_dup6', 'depth 2, buckets of 2, 3 operations', 900), H('hash_two', 'depth 3, buckets of 2, 4 inserts', 900)])
