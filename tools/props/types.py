W = 'unit tests compare a handful of constants; the guarantee is over every pair of values, so boundary values and mixed types decide it'
VT = 'src/types_db/value.rs'
INTS = 'all values of TINYINT, SMALLINT, INTEGER and BIGINT (full width)'
add('P31', 'SQL comparisons are a consistent total order on comparable values',
    'Comparing two non-null values of comparable types agrees with their mathematical (numbers) or byte-wise (text) order, across every mix of numeric types. The six operators are mutually consistent: = and <> are complementary, <= is < or =, >= is > or =, and swapping the operands mirrors the operator. A comparison with NULL is unknown.',
    'inputs', 'All pairs of values of the numeric, boolean, date/time and text types.', W, VT + ' src/types_db/types.rs', 'comparison operators of Value; three-valued result type',
    quick=[H('val_cmp_int', INTS + ', every mix'), H('val_cmp_num', 'all mixes of the integer types, DECIMAL and FLOAT with at least one floating operand, full width', 100), H('val_cmp_same', 'BOOLEAN, TIMESTAMP, DATE, TIME, INTERVAL, full width'),
           H('val_cmp_text', 'VARCHAR, CHAR, BINARY, JSON, UUID of up to 3 ASCII bytes'), H('val_cmp_null', 'every fixed-size type against typed and untyped NULL')])
add('P32', 'Arithmetic is exact or reports an error',
    'Adding, subtracting, multiplying or dividing two integers or intervals yields the exact mathematical result in the result type, or an error; it never wraps around and never aborts. Division by zero is an error, modulo by zero is NULL.',
    'inputs', 'All pairs of integer values of every width, and of intervals.', W, VT + ' src/types_db/types.rs', 'checked arithmetic on Value; division-by-zero test',
    quick=[H('val_arith_int', INTS + ', both operands of one type, + - * /'), H('val_arith_mixed', INTS + ', mixed types, + and -'), H('val_arith_interval', 'all intervals'), H('val_modulo', 'all pairs of INTEGER')])
add('P33', 'Casts keep the value or report an error',
    'Casting an integer to another integer type keeps its value or fails exactly when it does not fit. Integer to decimal and back, and integer to text and back, is the identity; a decimal within range loses only its fraction; NULL casts to a NULL of the target type.',
    'inputs', 'All integer values, all in-range decimals, all target types.', W, VT, 'cast_to',
    quick=[H('val_cast_int', INTS + ', every source and target'), H('val_cast_float', 'all TINYINT, SMALLINT, INTEGER'), H('val_cast_null', '20 target types'), H('val_cast_text', 'all TINYINT through VARCHAR and CHAR'), H('val_cast_trunc', 'all decimals within the range of each integer type (2^53 for BIGINT)')],
    thorough=[H('val_cast_text16', 'all SMALLINT through VARCHAR and CHAR', 300)])
add('P34', 'Stored values read back unchanged',
    'Serializing any value and deserializing it yields an equal value of the same type, in both the tuple encoding and the raw column encoding. Decoding arbitrary bytes of any type never aborts.',
    'inputs', 'All values of the fixed-size types, text up to the length bound, arbitrary byte strings up to the length bound.', W, VT, 'serde encoding of Value; as_bytes and deserialize_from',
    quick=[H('val_serde', '12 fixed-size types, full width, and their NULLs'), H('val_serde_text', '5 text types up to 5 bytes'), H('val_bytes', '12 fixed-size types, full width'), H('val_bytes_text', '5 text types up to 4 bytes'), H('val_bytes_any', 'every byte string of up to 4 bytes for 20 types')])
add('P35', 'Equality, order and hash of values agree',
    'Values that are equal feed a hasher identically, equality is reflexive and symmetric and implies equal types, and the sort order is antisymmetric, transitive and agrees with equality. This holds for every value including NaN and signed zero.',
    'inputs', 'All pairs and triples of values of the fixed-size types, text up to the length bound.', W, VT, 'Eq, Hash and PartialOrd of Value',
    quick=[H('val_eq_hash', '12 fixed-size types, full width, every pair'), H('val_eq_hash_text', '5 text types up to 3 bytes'), H('val_ord_trans', '11 fixed-size types, every triple of one type', 100)])
