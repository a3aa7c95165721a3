RD = 'src/recovery/'
add('P12', 'Log records survive encoding unchanged',
    'Every log record encodes to bytes that begin with their total length and decode to a record equal in type, ids, LSNs, page ids, record ids and tuples.',
    'inputs', 'All nine record kinds; each number over all 64-bit values; arbitrary tuple contents, short and long.',
    'tests encode records with small numbers', RD + 'log_record.rs', 'serialization of log records',
    quick=[H('wal_codec', 'nine kinds, each number arbitrary'), H('wal_codec_long', 'tuples of 130 bytes, arbitrary first and last')], thorough=[])
add('P13', 'A commit that returned is durable, in LSN order',
    'LSNs grow in order of append and are never given twice; when the append of a commit record returns, a crash leaves it and every earlier record in the log, in order. When the log fails to write or sync, no record that could be lost is reported as persistent.',
    'crash_points fault_sequences schedules', 'Up to 3 records of 3 kinds, every subset of unsynced writes lost, the n-th write or sync failing or cut short; two threads with one departure from round robin.',
    'no test crashes or fails the log', RD + 'log_manager.rs src/storage/disk/async_disk/manager.rs', 'the flush task and append_log_record',
    quick=[H('wal_append', '3 records, shutdown or not, crash'), H('wal_append_fault', '3 records, a failing write or sync, crash', covers=('done',)), H('wal_together', 'two transactions appending, 1 preemption')],
    thorough=[H('wal_append4', '4 records', 200), H('wal_append_fault4', '4 records, a fault', 300), H('wal_together2', '2 preemptions', 300)])
add('P14', 'A torn log yields exactly its complete records',
    'Reading a log that was cut anywhere yields the records written completely before the cut, in order and unchanged, and nothing else.',
    'crash_points inputs', 'Three records of several kinds with arbitrary tuples, cut after every byte; the last one also followed by zeros.',
    'tests read whole logs', RD + 'log_iterator.rs ' + RD + 'log_record.rs', 'resynchronisation in LogIterator::next',
    quick=[H('wal_torn', 'Begin, Insert and a third record, cut at every byte', covers=('whole', 'cut')), H('wal_torn_zeros', 'a record cut at every byte, zeros after it', covers=('whole', 'cut'))], thorough=[])
add('P15', 'Recovery restores exactly the committed changes',
    'After a crash at any point, recovery leaves every tuple with the value of the last committed change, committed, and nothing of transactions that did not commit, whatever part of the pages and of the unsynced log reached the disk. Recovering again changes nothing, and transactions after recovery are as durable as those before it.',
    'histories crash_points', 'Two tuples and all histories of 2 (thorough: 3) steps of two transactions: insert, update, delete, commit, rollback, page flush; 4 and 5 steps on one tuple; every loss of a suffix of the unsynced log, and torn records.',
    'tests recover a few fixed histories without losing writes', RD + 'log_recovery.rs ' + RD + 'log_iterator.rs ' + RD + 'log_manager.rs', 'analysis, redo and undo passes',
    quick=[H('recov_ops2', '2 steps, pages not flushed before'), H('recov_ops2f', '2 steps, base page flushed'), H('recov_slot4', '4 steps on one tuple'), H('recov_torn', '1 step, a record torn, another transaction and crash', 120), H('recov_twice', '2 steps, two crashes and recoveries', 120), H('recov_then', '2 steps, recovery, another transaction, crash, recovery', 150)],
    thorough=[H('recov_slot5', '5 steps on one tuple', 120), H('recov_twice_n', 'as recov_twice, pages not flushed', 150), H('recov_then_n', 'as recov_then, pages not flushed', 150), H('recov_ops3', '3 steps', 600), H('recov_ops3f', '3 steps, base page flushed', 600), H('recov_torn2', '2 steps, torn record', 700)])
