TP = 'src/storage/page/page_types/table_page.rs'
add('P01', 'A table page keeps every tuple intact under any sequence of operations',
    'After any sequence of insertions, updates (growing, shrinking or refused) and metadata changes, every tuple of a table page reads back exactly as last written, other tuples are untouched, and the tuple and deleted counts are exact. A deleted tuple is hidden from ordinary reads, slots never filled and foreign record ids are errors, and insertion succeeds exactly when the page reports room.',
    'histories inputs', 'All operation sequences up to the length bound, all tuple contents, sizes from the stated set.',
    'page tests insert and update a few tuples of one shape; overlap appears only for particular orders of growing updates and insertions', TP + ' src/storage/table/tuple.rs', 'slot directory with offsets; insert and update placement',
    quick=[H('page_ops', 'two seeded tuples, then every sequence of 2 operations (insert, update, metadata update), payloads of 2, 40 and 3400 bytes, arbitrary contents and flags', 100), H('page_big', 'one insertion or update with payloads of 3470..65600 bytes')],
    thorough=[H('page_ops3', 'as page_ops with 3 operations, image round trip at the end', 800)])
add('P02', 'A table page survives being written out and loaded again',
    'The image a table page hands to the buffer pool, loaded into a fresh page, yields the same tuples, metadata, counts and page links, after any sequence of operations and however full the page is.',
    'histories inputs', 'All operation sequences up to the bound; pages filled to the last byte; all link values.',
    'tests serialize pages with one or two tuples right after insertion; stale images and metadata growth on a full page need particular histories', TP, 'serialize and deserialize; page data image',
    quick=[H('page_image', 'two seeded tuples, 2 operations, payloads of 2, 40 and 3400 bytes, image checked after each', 100), H('page_full', 'pages filled with tuples of 190..213 bytes, then every tuple given the largest metadata'), H('page_links', 'all 64-bit links')])
add('P36', 'Record ids and tuple metadata round-trip through every encoding',
    'Every record id survives its byte and integer encodings, distinct ids have distinct encodings, and only ids that do not fit are refused. Tuple metadata survives its encoding for every value; short buffers are rejected.',
    'inputs', 'All page ids, slots, transaction ids, timestamps and undo positions.', 'tests encode a few small ids; packing is about 32-bit and 64-bit boundaries', 'src/common/rid.rs src/storage/table/tuple.rs', 'fixed width and packed codecs',
    quick=[H('rid_codec', 'all ids; buffers up to 15 bytes'), H('meta_codec', 'all metadata values')])
add('P37', 'Tuples round-trip through their encoding',
    'A tuple decodes to itself from exactly the bytes it reports as its length; truncated bytes and too small buffers are errors and arbitrary bytes never abort. Key projection and concatenation keep column values and order, and a tuple whose width differs from its schema is refused.',
    'inputs', 'All values of a three-column tuple (integer or NULL, text up to 3 bytes, big integer); all byte strings up to 6 bytes.', 'tests round-trip sample tuples', 'src/storage/table/tuple.rs src/types_db/value.rs', 'serde codec; schema width check',
    quick=[H('tuple_codec', 'INTEGER or NULL, VARCHAR up to 3 bytes, BIGINT'), H('tuple_any', 'all byte strings up to 6 bytes', 100)])
