X = 'src/sql/execution/expressions/'
def x(*n): return ' '.join(X + i + '_expression.rs' for i in n)
J = ' On a joined row, given as its two halves, every expression has the value it has on the whole row.'
ONE = 'tests evaluate a few constants, mostly without NULL and without joins'
add('P38', 'Predicates follow three-valued logic, on rows and on joined rows',
    'AND, OR, NOT, comparisons, BETWEEN, IN, IS [NOT] TRUE/FALSE/UNKNOWN/NULL and IS [NOT] DISTINCT FROM give true, false or unknown as SQL defines it: a NULL operand is unknown unless the other operands decide, numbers compare by value whatever their types, BETWEEN is two comparisons and IN is an OR of equalities.' + J,
    'inputs', 'All truth values with typed and untyped NULL in 12 forms; all numbers of the six numeric types and NULL as operands; lists of up to 2 items.', ONE, x('abstract', 'logic', 'binary_op', 'unary_op', 'comparison', 'between', 'in', 'is_check', 'is_distinct', 'column_value'), 'evaluate and evaluate_join',
    quick=[H('expr_logic3', '12 forms over all truth values'), H('expr_cmp5', 'all mixes of integers and DECIMAL, full width, six operators', 120), H('expr_between3', 'TINYINT to INTEGER and NULL, full width'), H('expr_between5', 'integers and DECIMAL and NULL', 100), H('expr_in2', 'lists of 1 to 2 numbers', 150)],
    thorough=[H('expr_cmp6', 'all mixes of the six numeric types, full width', 300)])
add('P39', 'Arithmetic and casts in expressions are exact or an error',
    'Integer arithmetic in an expression is exact or fails because the result does not fit its type or a divisor is 0, whatever mix of types; decimal arithmetic keeps the order of its operands; negation fails only for the smallest integer; a NULL operand never yields a number; a cast keeps the value or drops only a fraction.' + J,
    'inputs', 'All pairs of integers for + and - and of TINYINT for * and /; wider * and / with the second operand one of ten; every numeric type and NULL mixed; DECIMAL with each integer type on small operands.', ONE, x('arithmetic', 'binary_op', 'unary_op', 'cast', 'abstract'), 'evaluate and evaluate_join',
    quick=[H('expr_arith_int1', 'TINYINT and INTEGER', 150), H('expr_arith_mix', '+ and - over every mix of types, full width', 120), H('expr_arith_small', 'DECIMAL with integers, 4 operators'), H('expr_negate', 'all integers'), H('expr_cast1', 'all numbers, 5 target types', 100)],
    thorough=[H('expr_arith_int2', 'SMALLINT and BIGINT', 400)])
add('P40', 'CASE and COALESCE choose by their definition',
    'CASE takes the first branch whose condition is true or whose value equals the base, an unknown condition is not true, and without a branch the result is ELSE or NULL; COALESCE is its first value that is not NULL.' + J,
    'inputs', 'Two branches with every combination of true, false, NULL, equal and different values, with and without base and ELSE; three arguments of COALESCE.', ONE, x('case', 'coalesce', 'abstract'), 'evaluate and evaluate_join',
    quick=[H('expr_case2', 'two branches'), H('expr_coalesce3', 'three arguments, all integers')])
add('P41', 'LIKE matches by its definition',
    'A text matches a pattern if and only if the definition of %, _ and the escape character says so, counting characters and not bytes, with and without regard to case; the result is unknown if either is NULL, and no text or pattern aborts.' + J,
    'inputs', 'All texts and patterns up to the length bound over an alphabet with both wildcards, the escape character, letters of both cases and a letter of two bytes.', ONE, x('like', 'abstract'), 'matches_pattern, evaluate and evaluate_join',
    quick=[H('expr_like3', 'texts and patterns of up to 2 characters', 100), H('expr_like_null', 'NULL operands')], thorough=[H('expr_like4', 'texts of up to 2 and patterns of up to 3 characters', 400)])
add('P42', 'Text functions count characters',
    'SUBSTRING, OVERLAY and POSITION count characters, whatever their width in bytes, TRIM removes exactly the given characters at the chosen ends, LOWER and UPPER change each character; positions outside the text and 64-bit positions are meant as they are, and nothing aborts.' + J,
    'inputs', 'All texts up to the length bound over letters of one and two bytes; positions from -3 to 4 and those plus 2^32, lengths from -1 to 4.', ONE, x('substring', 'overlay', 'position', 'trim', 'string', 'abstract'), 'evaluate and evaluate_join',
    quick=[H('expr_substring3', 'texts of up to 3 characters'), H('expr_overlay3', 'texts of up to 3, replacements of up to 2'), H('expr_position3', 'texts of up to 4, parts of up to 2'), H('expr_trim3', 'texts of up to 3, sets of up to 2, and LOWER and UPPER', 100)])
add('P43', 'CEIL and FLOOR round numbers and times to the nearest on their side',
    'CEIL and FLOOR of a number is the whole number on its side at most one away, integers stay; of a time it is the nearest start of a minute, hour, day, month or year on its side by the calendar, and a time that is such a start stays.' + J,
    'inputs', 'All decimals and integers; times at, after and before 48 boundaries of minutes, hours and days from 1970 and after 2038; 512 days up to the 2040s for months and years.', ONE, x('ceil_floor', 'abstract'), 'evaluate and evaluate_join',
    quick=[H('expr_ceil', 'all finite decimals, all integers', 150), H('expr_time', 'minutes, hours, days'), H('expr_date', 'months, years')])
add('P61', 'ANY, ALL and array elements follow SQL',
    'x op ANY (list or subquery) is true if a comparison is true, else unknown if one is, else false; ALL is false if a comparison is false, else unknown if one is, else true. A subscript is the element at that position, counted from 0 or with a negative index from the end, and an error outside the array; a range is the elements from its start to before its end, none if it ends outside or before its start. All of this for every index of every integer type.' + J,
    'inputs', 'Lists of up to 2 (3) comparison results that are true, false or unknown in every order; indexes of all integer types at full width over arrays of up to 3 elements; ranges with both bounds of all integer types, open or not.', ONE, x('any', 'all', 'subscript', 'abstract'), 'AnyExpression, AllExpression, SubscriptExpression',
    quick=[H('quant2', 'lists of up to 2'), H('quant3', 'lists of up to 3'), H('quant_subscript', 'all integer indexes'), H('quant_range', 'arrays of up to 3, all integer bounds', 120)])
add('P62', 'Date functions follow the calendar',
    'DATE_PART and EXTRACT of a timestamp give its year, month, day, quarter, day of the year and of the week, hour, minute, second and epoch, and an error if that does not fit; DATE_TRUNC gives the first instant of the period it lies in; MAKE_DATE, MAKE_TIMESTAMP and MAKE_TIME give the date or time of their components and an error for components that are none; a timestamp plus or minus an interval is exactly that much later or earlier, and an error if it is out of range.' + J,
    'inputs', 'Every day of the years named by the harness and every second of a day, each part and period; months 0 to 13 with days 0 to 63; hours, minutes and seconds up to 31 and 63; intervals of days, hours, minutes, seconds, months and years around the ends of days, months and years.',
    'tests take parts of one or two dates; ends of months, leap days and years after 2038 are not among them', x('datetime', 'extract', 'abstract'), 'DateTimeExpression, ExtractExpression',
    quick=[H('date_part_day', '5 years', 100), H('date_part_week', 'one year'), H('date_part_time', '3 years'), H('date_trunc_day', 'one year', 120), H('date_trunc_time', 'one year', 150), H('extract_day', '3 years', 100), H('extract_time', '3 years'), H('make_date', '2 years'), H('make_stamp', 'one year'), H('make_time', 'all'), H('date_plus', '3 dates, 8 intervals', 200), H('date_minus', '2 dates, 2 intervals', 150)],
    thorough=[H('date_trunc_years', '5 years', 600), H('date_plus5', '5 dates', 600)],
    note='The difference of two timestamps and truncation to weeks are not covered.')
add('P63', 'Regular expressions and SIMILAR TO match by their definition',
    'A text is SIMILAR TO a pattern if and only if the definition says so: the whole text matches, % is any characters and _ any one, line breaks included, lists and ranges in brackets mean their characters or with ^ all others, the escape character makes the next one ordinary and an empty one means there is none, and a dot is only itself. ~ finds its pattern anywhere, ~* and RLIKE do so without regard to case, the NOT forms are their exact opposite, and with a NULL operand the result is unknown.' + J,
    'inputs', 'All texts of up to 2 (3) printable characters or line breaks against 14 patterns with every kind of element; the six other operators; NULL on either side for all eight.', 'tests match a few constants; line breaks, ranges and NULL are not among them', x('regex', 'abstract'), 'RegexExpression',
    quick=[H('similar_parts', 'texts of up to 2, 7 patterns'), H('similar_class', 'texts of up to 2, 7 patterns with lists and escapes'), H('similar3', 'texts of up to 3, 14 patterns', 120), H('regex_ops', 'texts of up to 2, 6 operators'), H('regex_null', '8 operators')],
    note='Alternation, repetition and groups of SIMILAR TO are not covered.')
add('P64', 'Constructed and converted values are exactly what was written',
    'An array, row or struct has exactly its parts in their order; an interval has the units it was given, whatever the integer type, and is refused for NULL; an element of a collection by number is that element or an error; CONVERT keeps a value that fits and fails for one that does not, TRY_CONVERT is NULL then; DATE and TIMESTAMP texts, and casts of texts to timestamps, give the instant they denote or an error, never another one; AT TIME ZONE gives the same instant in that zone.' + J,
    'inputs', 'All integers and NULL as parts and units; all keys over up to 3 elements; all INTEGER values to BIGINT and SMALLINT; all two-digit days of three months in 1969, 1970 and 2024, in three forms and a cast; every second of four minutes around hours and midnight in two zones.', ONE, x('array', 'tuple', 'struct', 'interval', 'map_access', 'convert', 'typed_string', 'at_timezone', 'abstract') + ' src/types_db/value.rs', 'the expressions named, Value::cast_to',
    quick=[H('build_parts', '2 parts, 3 kinds'), H('build_interval', 'all integers, 6 units'), H('build_access', 'all keys'), H('build_convert', 'all INTEGER values'), H('text_stamp', '3 years, all two-digit days', 200), H('time_zone', '2 zones, 256 instants')])
