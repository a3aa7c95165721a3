L = 'src/concurrency/lock_manager.rs'
add('P16', 'Locks are granted exactly when compatible',
    'A table or row lock is granted when no other transaction holds a conflicting mode on the same object, and is never granted beside one that does. An upgrade keeps the lock already held until it is granted.',
    'histories', 'All pairs of the five modes; all histories of 3 (thorough: 4 and 5) requests, releases and ends of up to three transactions on one table, or on rows of it.',
    'tests try a few pairs of modes', L, 'LockCompatibilityChecker, LockRequestQueue and grant paths',
    quick=[H('lock_matrix', '5 by 5 modes'), H('lock_ops', '3 operations, two transactions'), H('lock_ops3t', '3 operations, three transactions'), H('lock_rows', '4 operations on rows')],
    thorough=[H('lock_ops4', '4 operations, three transactions', 400), H('lock_rows5', '5 operations on rows', 400)])
add('P17', 'Released locks are gone and locks of rows stay within locks of tables',
    'After a transaction releases a lock or ends, it holds no trace of it and requests it blocked can be granted. A row is locked only under a table lock that covers it, a table is not unlocked before its rows, and a lock not held cannot be released; a transaction that breaks this is aborted.',
    'histories', 'Each table mode with each row mode; each final state of the histories of 3 requests of three transactions.',
    'tests release locks nobody waits for', L, 'unlock, force_release_txn and row/table checks',
    quick=[H('lock_levels', 'each table mode (or none) and row mode'), H('lock_ops3t', '3 operations, three transactions, then every lock released')], thorough=[H('lock_ops4', '4 operations, three transactions', 400)])
add('P18', 'Deadlocks, and only deadlocks, are broken, at their youngest transaction',
    'A cycle of the waits-for graph is found exactly when there is one, its youngest member is the victim; a deadlock of lock requests ends with one transaction aborted, and waiting without a cycle aborts nobody.',
    'histories', 'All waits-for graphs of 3 and of 4 transactions; five scenarios of lock requests with two and three transactions.',
    'tests build one or two fixed cycles', L, 'DeadlockDetector::has_cycle and the waits-for edges',
    quick=[H('lock_cycles', 'all graphs of 3 transactions', covers=('deadlock', 'none')), H('lock_cycles4', 'all graphs of 4 transactions', 120, covers=('deadlock', 'none')), H('lock_deadlock', '5 scenarios')], thorough=[])
add('P19', 'Lock requests obey isolation level and phase',
    'Each isolation level allows exactly the lock modes documented for its growing and its shrinking phase; a release moves a transaction to its shrinking phase as its level says, after which it gets no lock the level forbids, and a transaction that ended gets none.',
    'histories', 'All states, isolation levels and modes; all sequences of lock, release and lock.',
    'tests cover a few combinations', L, 'LockValidator and unlock transitions',
    quick=[H('lock_rules', '5 states, 4 levels, 5 modes'), H('lock_phases', 'lock, release, lock', covers=('done', 'refused'))], thorough=[])
