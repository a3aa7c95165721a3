add('P08', 'Direct I/O is aligned and transparent',
    'Every request that direct I/O sends to the device is aligned in memory, offset and size; requests that cannot be are refused; and reads and writes return and store exactly the bytes asked for, whatever the alignment of the caller\'s buffer. Padding is zero.',
    'inputs configurations', 'Alignments 0, 1, 3, 8, 512, 520, 1024, 4096; sizes below 2^40 for the arithmetic (2^12 for alignments that are no power of two); all offset, size and buffer combinations of the harness for the file operations.',
    'tests use aligned buffers of one size on a file system that may ignore O_DIRECT', 'src/storage/disk/direct_io.rs', 'bounce buffers and validation',
    quick=[H('dio_round', 'all sizes below 2^40', 90), H('dio_buf', '5 sizes, 4 alignments'), H('dio_rw', 'a write and a read at 5 offsets, 5 sizes, 2 buffer offsets, 4 alignments')])
IO = 'src/storage/disk/async_disk/io/'
add('P09', 'Every queued I/O operation is executed and answered once',
    'Operations leave the queue by priority, then in order of submission, and none is lost. Each is resolved exactly once, by completion, failure, time-out or cancellation; its submitter and every waiter learn of that outcome, whenever it happens; counts are exact; and log appends get disjoint ranges of the log.',
    'histories schedules fault_sequences', 'Queues of up to 5 (6) operations with symbolic priorities; 2 operations and 2 (3) events; two threads with up to 2 preemptions; one failing write.',
    'a completion that falls between a waiter\'s check and its wait does not occur in a test run', IO + 'completion.rs ' + IO + 'queue.rs ' + IO + 'io_impl.rs ' + IO + 'worker.rs ' + IO + 'executor.rs', 'completion tracking; priority queue; log appends',
    quick=[H('io_queue', '5 operations'), H('io_track', '2 operations, 2 events of 6 kinds'), H('io_wait', 'a waiter against a completion or cancellation, 1 preemption'), H('io_wait2', '2 preemptions'), H('io_engine', 'two appends, 1 preemption'), H('io_engine_fault', 'the n-th write failing'), H('io_cancel', 'an append against cancellation, 1 preemption'), H('io_cancel2', '2 preemptions')],
    thorough=[H('io_queue6', '6 operations', 300), H('io_track3', '3 events'), H('io_engine2', 'two appends, 2 preemptions', 300)])
add('P10', 'Decompression restores what was compressed',
    'For the LZ4 and uncompressed formats, decompressing what the engine compressed yields the original bytes, for every input, and the sizes it reports are those of input and output.',
    'inputs', 'All contents up to 4 (7) bytes; sequences of 2 (3) runs of 1 to 300 bytes of three shapes.',
    'tests compress text; the uncompressed format misreads only particular byte values', 'src/storage/disk/async_disk/compression.rs', 'format markers',
    quick=[H('comp_small', 'all data up to 4 bytes'), H('comp_runs', '2 runs')], thorough=[H('comp_small8', 'all data up to 7 bytes', 200), H('comp_runs3', '3 runs', 200)],
    note='Zstd is a C library without IR and is not covered.')
ME = 'src/storage/disk/async_disk/memory/'
add('P11', 'Write staging keeps the newest version and exact sizes',
    'The staging buffer holds the newest version of each staged page, refuses a write exactly when it would exceed its limit, and counts pages and bytes exactly. The coalescing engine hands on each page as written, never keeps an older version pending, finds exactly the pending neighbours, and its page ranges cover exactly the given pages.',
    'histories inputs', 'All sequences of 3 (4) writes and drains over 2 pages with 5 sizes; page numbers over the whole 64-bit range (neighbours of one page) or below 64 or 2^16.',
    'tests stage pages of one size and neighbours in the middle of the number range', ME + 'write_staging_buffer.rs ' + ME + 'coalescing/engine.rs ' + ME + 'coalescing/size_analyzer.rs', 'staged sizes; neighbours; ranges',
    quick=[H('staging', '3 operations'), H('adjacent', '1 or 2 pending pages'), H('ranges', 'up to 3 pages below 2^16'), H('coalesce', '3 writes of 4 pages', 90)], thorough=[H('staging4', '4 operations', 200)])
