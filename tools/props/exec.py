X = 'src/sql/execution/executors/'
def ex(*n): return ' '.join(X + i + '_executor.rs' for i in n)
def pl(*n): return ' '.join('src/sql/execution/plans/' + i + '_plan.rs' for i in n)
CH = ' An error of the input is an error of the query and never a shorter result.'
ROWS = 'tests run each executor on a few hand-written rows, without NULL, ties or failing inputs'
A = 'Rows are handed to the executor by a child of the harness or a VALUES plan; the SQL front end is not compiled in this tree.'
add('P44', 'ORDER BY returns all rows in the requested order',
    'Sorting returns every row of its input exactly once, ordered by the sort keys in turn, each ascending (NULL first) or descending (NULL last), rows with equal keys in the order of the input, and NaN after all other numbers.' + CH,
    'inputs', 'All inputs up to the row bound: keys of every integer or NULL, decimals, floats and mixes; both directions; failing or not.', ROWS,
    ex('sort') + ' ' + pl('sort') + ' src/types_db/value.rs', 'SortExecutor, OrderDirection and Value::sort_cmp',
    quick=[H('exec_sort3', 'up to 3 rows, one key'), H('exec_sort3k', 'up to 3 rows, two keys'), H('exec_sort_numbers', '3 decimals, floats or mixed numbers', 100)],
    thorough=[H('exec_sort4', 'up to 4 rows, two keys', 300)], assume=A)
add('P45', 'Top-N returns the first N rows of the requested order',
    'Top-N returns the same rows in the same order as sorting followed by LIMIT N; top-N per group returns them for each group, NULL being a group.' + CH,
    'inputs', 'All inputs up to the row bound with keys of every integer or NULL, every N up to it, both directions; groups NULL, 0 and 1.', ROWS,
    ex('topn', 'topn_per_group') + ' ' + pl('topn', 'topn_per_group', 'sort'), 'TopNExecutor and TopNPerGroupExecutor',
    quick=[H('exec_topn3', 'up to 3 rows, one key'), H('exec_topgroup3', 'up to 3 rows in 3 groups', 100)],
    thorough=[H('exec_topn3k', 'up to 3 rows, two keys', 300)], assume=A)
add('P46', 'WHERE, projections, LIMIT and OFFSET return exactly the rows they name',
    'The filter passes exactly the rows whose condition is true, the projection computes one row for each, OFFSET drops the first rows and LIMIT passes the next, for every count. A row that cannot be projected is an error, not a missing row.' + CH,
    'inputs', 'All rows up to the bound with every integer or NULL, every bound of the condition; every 64-bit LIMIT and OFFSET; failing or not.', ROWS,
    ex('filter', 'projection', 'limit', 'offset'), 'FilterExecutor, ProjectionExecutor, LimitExecutor, OffsetExecutor',
    quick=[H('exec_filter', 'up to 3 rows'), H('exec_limit', 'up to 4 rows, all LIMIT and OFFSET'), H('exec_project_error', 'up to 2 rows')], assume=A)
add('P47', 'DISTINCT returns each different row once',
    'DISTINCT returns the first of each class of equal rows in the order of the input; rows are equal exactly if all their values are, NULL being equal to NULL.' + CH,
    'inputs', 'All inputs up to the bound of two columns of every integer or NULL, or of texts and NULL.', ROWS,
    ex('distinct'), 'DistinctExecutor',
    quick=[H('exec_distinct3', 'up to 3 rows of two integers'), H('exec_distinct_text', 'up to 2 rows of two texts of up to 1 character')], assume=A)
add('P48', 'Aggregates are computed over exactly the rows of their group',
    'GROUP BY returns one row for each different value of the group, NULL being one; COUNT(*) is the number of its rows, COUNT(x), SUM, MIN, MAX and AVG are over the values that are not NULL, and the last four are NULL if there are none. A SUM that does not fit its type is an error.' + CH,
    'inputs', 'All inputs up to the row bound with every integer or NULL in groups NULL, 0 and 1, grouped or not; AVG over the four integer types.', ROWS,
    ex('aggregation') + ' src/sql/execution/expressions/aggregate_expression.rs', 'AggregationExecutor',
    quick=[H('exec_aggregate3', 'up to 3 rows in 3 groups', 100), H('exec_aggregate_all', 'up to 3 rows, no GROUP BY', 100), H('exec_average', 'up to 2 rows, four integer types', 120)], assume=A,
    note='SUM over no rows at all without GROUP BY is 0 in this code and is not judged.')
add('P49', 'A nested loop join returns exactly the matching pairs',
    'The join returns each pair of rows whose condition is true exactly once, a left, right or full join also each row of its side without a match exactly once with NULLs, a cross join all pairs; equal rows are rows of their own.' + CH,
    'inputs', 'All inputs of up to 2 rows a side with keys of every integer or NULL; inner, cross, left, right and full; failing sides.', ROWS,
    ex('nested_loop_join'), 'NestedLoopJoinExecutor',
    quick=[H('exec_nested_inner', 'up to 2 by 2 rows, inner and cross'), H('exec_nested_outer', 'up to 2 by 2 rows, left, right and full'), H('exec_nested_duplicates', 'up to 2 by 3 rows with equal ones on the right')], assume=A)
add('P50', 'A hash join returns exactly the matching pairs',
    'The hash join returns each pair of rows whose keys are equal exactly once, however many rows share a key; NULL keys match nothing.' + CH,
    'inputs', 'All inputs up to the row bound with keys of every integer or NULL; one and two key columns; failing sides.', ROWS,
    ex('hash_join'), 'HashJoinExecutor',
    quick=[H('exec_hash_join', 'up to 2 by 2 rows'), H('exec_hash_join_keys', 'up to 2 by 2 rows, two keys'), H('exec_hash_join3', 'up to 3 by 3 rows', 100)], assume=A)
DML = ex('insert', 'update', 'delete', 'seq_scan', 'values') + ' src/storage/table/transactional_table_heap.rs src/storage/table/table_heap.rs src/storage/table/table_iterator.rs'
add('P51', 'INSERT, UPDATE and DELETE change exactly the rows they name',
    'A table holds exactly the rows that its INSERT, UPDATE and DELETE statements leave: an insert adds each of its rows, an update or delete changes each row of its condition once, with all assignments computed from the row before, and says how many; no other row changes. A row that cannot be computed is an error of the statement.',
    'inputs', 'All tables up to the row bound and statements up to the bound, in their own or a later transaction of each isolation level; every condition bound.',
    'tests run single statements on fixed rows', DML, 'InsertExecutor, UpdateExecutor, DeleteExecutor, SeqScanExecutor, ValuesExecutor',
    quick=[H('dml_rows2', 'up to 2 rows, 1 statement', 100), H('dml_wide', '2 rows of up to the largest size', 60), H('dml_wide3', '3 rows of up to the largest size', 100)],
    thorough=[H('dml_hist2', '1 row, 2 statements', 400), H('dml_rows3', '2 rows, 2 statements', 900), H('dml_wide_hist', '2 large rows, 2 statements', 500)],
    assume=A + ' Integers on pages are between -30 and 30.', note='UNIQUE, PRIMARY KEY and CHECK constraints are not enforced by this code and are not judged.')
add('P52', 'Statements see only what their isolation level shows them',
    'Rows inserted, updated or deleted by statements of a transaction are seen by its own scans at once, by other transactions only after it commits (or if they read uncommitted rows), by a snapshot taken before never, and by nobody after it aborts.',
    'schedules', 'A writer with any of the three statements and a reader of each of the 5 isolation levels that starts before or after; commit or abort.',
    'tests of the executors run in a single transaction', DML, 'SeqScanExecutor and TransactionalTableHeap under statements of two transactions',
    quick=[H('dml_isolation', 'two transactions, one statement', 100)], assume=A)
add('P53', 'INSERT refuses rows without the row they refer to',
    'A row with a foreign key is inserted exactly if its key is NULL or equal to a value of the column it refers to, however the rows are given; a refused row is an error of the statement.',
    'inputs', 'All references of up to 2 rows to tables of up to 2 rows, given directly or by VALUES.',
    'tests insert a few fixed keys, all of them by VALUES', ex('insert'), 'InsertExecutor::validate_foreign_key_constraints_with_context',
    quick=[H('dml_references2', 'up to 2 rows that refer to up to 2 rows', 100)], assume=A, note='Foreign keys are checked by INSERT only.')
add('P54', 'ROW_NUMBER numbers the rows of each window in order',
    'ROW_NUMBER returns every row of the input once with its position in the requested order among the rows with the same partition, NULL being a partition.' + CH,
    'inputs', 'All inputs up to the row bound with keys of every integer or NULL; partitioned or not; failing inputs.', ROWS,
    ex('window') + ' ' + pl('window'), 'WindowExecutor',
    quick=[H('exec_window2', 'up to 2 rows'), H('exec_window3', 'up to 3 rows', 100)], assume=A)
IX = ' src/catalog/database.rs src/storage/index/b_plus_tree.rs src/storage/index/index_iterator_mem.rs'
add('P55', 'An index never changes the result of a query',
    'A scan through an index returns exactly the rows that a scan of the table with the same condition returns, each once: whenever the index was made, whatever statements changed the rows since, in the transaction that did, after it committed or rolled back, and for a snapshot from before.',
    'histories', 'All tables up to the row bound with integer or NULL keys, all conditions of up to two comparisons under AND, OR and NOT with every constant or NULL, and histories up to the statement bound; indexes on each column or both, made before or after the rows; plans as the optimizer makes them of a table scan.',
    'tests scan an index over rows that were there when it was made', ex('index_scan', 'insert', 'update', 'delete') + ' src/sql/optimizer/optimizer_impl.rs' + IX,
    'IndexScanExecutor, Database::index_row and create_index, Optimizer::apply_index_scan_optimization',
    quick=[H('index_predicates2', 'up to 2 rows, one condition', 200), H('index_hist1', 'up to 2 rows, 1 statement', 200), H('index_many5', '5 rows with keys NULL, 3 and 5: a tree of levels'), H('index_planned', 'up to 2 rows, optimized scans')],
    thorough=[H('index_predicates3', 'up to 3 rows, six comparisons', 900), H('index_predicates_deep', '2 rows, two conditions', 900), H('index_hist2', 'up to 2 rows, 2 statements', 900), H('index_many6', '6 rows', 200)],
    assume=A + ' An index is made while no transaction has changed rows of the table.', note='Indexes of several columns are made by the code and never used.')
add('P56', 'An index join returns exactly the matching pairs',
    'The index join returns each pair of rows whose keys are equal exactly once, whichever indexes the right table has and whenever they were made; NULL keys match nothing.' + CH,
    'inputs', 'All tables up to the row bound with integer or NULL keys; an index on the joined column, another, both, or none.',
    'tests join fixed rows', ex('nested_index_join', 'index_scan') + IX, 'NestedIndexJoinExecutor',
    quick=[H('index_join2', 'up to 2 by 2 rows', 100)], thorough=[H('index_join3', 'up to 2 by 3 rows', 300)], assume=A)
CAT = 'src/catalog/catalog_impl.rs src/catalog/database.rs src/catalog/system_catalog.rs src/catalog/schema.rs src/catalog/column.rs src/storage/table/table_heap.rs'
add('P57', 'A reopened database has its tables, rows and indexes',
    'A table is created exactly if its name is new and the table its foreign keys name exists, and gets an id of its own. After the database is closed (its pages written) and opened again, the catalog has exactly the tables and indexes that were made, under the same names, ids and columns with all their attributes, each table exactly the rows of committed transactions, and all of them can be used further: new names and ids, further rows, updates that roll back, scans through the indexes.',
    'histories', 'All histories up to the bound of creating tables of four schemas (every column attribute) under two names, inserting rows that commit or abort, and reopening once or twice; tables of up to 2 (thorough 3) rows that fill up to as many pages, indexed or not.',
    'tests reopen a catalog with a table or two and look at their names', CAT, 'Catalog::rebuild_from_system_catalog, Database, TableHeap::reopen',
    quick=[H('catalog_tables1', 'up to 2 tables, not reopened'), H('catalog_reopen1', 'up to 2 tables, reopened once', 150), H('catalog_grown1', '2 rows of up to a page each'), H('catalog_grown2', '3 rows of up to a page each')],
    thorough=[H('catalog_grown3', '4 rows of up to a page each', 100), H('catalog_reopen2', 'up to 5 tables, reopened once', 900), H('catalog_reopen_twice', 'up to 4 tables, reopened twice', 900)],
    assume='All pages are written before the database is closed. The tables belong to the default database and their schemas fit in a row of the system tables.', note='The system tables do not record which database a table is in; tables of further databases are not judged.')
add('P58', 'Planning and optimizing never change what a query returns',
    'The physical plan of a query, with and without the optimizer and with each of its options, returns exactly the rows that the logical plan stands for, in the same order where the query gives one: every stack of scans, WHERE, projections, ORDER BY, LIMIT, OFFSET, DISTINCT, GROUP BY with COUNT(*), and inner or left joins on equalities of any columns of the joined row, written either way round; and an INSERT of a query inserts exactly these rows. A plan with a part that cannot be planned is an error, and planning ends, also while tables are made.',
    'inputs', 'All stacks of up to the bound of operators over tables up to the row bound (values NULL, 0 and 1, or any integer or NULL in the stacks of one operator), with every filter constant, sort direction and projection; with an index or none; no option, push-down, and all options of the optimizer.',
    'tests look at the shape of single plan nodes; none runs an optimized plan', 'src/sql/optimizer/optimizer_impl.rs src/sql/planner/logical_plan.rs src/sql/execution/plans/abstract_plan.rs src/sql/execution/check_option.rs ' + ex('filter', 'projection', 'sort', 'limit', 'offset', 'distinct', 'nested_loop_join', 'aggregation'),
    'Optimizer::optimize and its rewrite rules, PlanConverter and extract_join_keys',
    quick=[H('plan_one', 'up to 2 rows, 1 operator'), H('plan_two', 'up to 2 rows, 2 operators', 200), H('plan_insert2', '2 rows, INSERT of 2 operators', 100), H('plan_join', '2 by up to 2 rows, inner and left', 120), H('plan_group', '3 rows, GROUP BY and 1 operator'), H('plan_meanwhile', 'two threads, 1 preemption'), H('plan_refused', 'a join that cannot be planned below 1 operator')],
    thorough=[H('plan_three', 'up to 2 rows, 3 operators', 900), H('plan_merge', 'filters and projections, 3 operators', 900), H('plan_join_then', 'a join and 1 operator', 200), H('plan_group2', '3 rows, 1 operator, GROUP BY and 1 operator', 400)],
    assume=A + ' The columns of a join condition are numbered over the joined row, as the SQL front end does.')
add('P59', 'Statements of concurrent transactions do not lose changes or hang',
    'Statements that run at the same time in two transactions, and tables being made meanwhile, end without deadlock or panic. An update or delete fails only if the other transaction changed its row; every change of a statement that succeeded is there afterwards (two updates that both succeed both count), others are not; a scan, through an index or not, sees each row once in a version that was committed.',
    'schedules', 'All pairs of INSERT, UPDATE, DELETE, scan and CREATE TABLE on two threads at ReadCommitted and Snapshot, every schedule of their synchronisation operations up to the preemption bound.',
    'tests of executors run on one thread', DML + ' src/catalog/catalog_impl.rs ' + ex('index_scan'), 'UpdateExecutor, DeleteExecutor, TransactionalTableHeap and the locks of the catalog',
    quick=[H('conc_insert', 'two threads, 1 preemption'), H('conc_update', 'two threads, 1 preemption'), H('conc_all', 'two threads, 1 preemption, with an index', 200)],
    thorough=[H('conc_mixed', 'two threads, 1 preemption, no index', 300), H('conc_all2', 'two threads, 2 preemptions, with an index', 900)], assume=A)
add('P60', 'CREATE, USE and START TRANSACTION do exactly what they say',
    'CREATE TABLE adds one empty table with the given columns to the current database and succeeds exactly if the name is new there and its foreign keys refer to columns that exist; with IF NOT EXISTS an existing table is left as it is; CREATE INDEX adds one index that finds all rows already there, under a new name only; USE changes to a database that exists. Tables and indexes have numbers of their own and no statement changes another table, of this or another database. START TRANSACTION begins a transaction of its own at the level asked for, and the statements after it are part of it and of nothing else.',
    'histories', 'All histories of up to the bound of CREATE TABLE (plain, or with references to tables and columns that exist or not), CREATE DATABASE, USE, UPDATE with commit or abort, CREATE INDEX, and START TRANSACTION at each level over an open transaction.',
    'tests create single tables and look at their names', 'src/catalog/catalog_impl.rs src/catalog/database.rs ' + ex('create_table', 'create_index', 'command', 'start_transaction', 'commit_transaction', 'rollback_transaction') + ' src/sql/planner/logical_plan.rs',
    'Catalog, Database, CreateTableExecutor, CreateIndexExecutor, CommandExecutor, StartTransactionExecutor',
    quick=[H('ddl_tables2', '2 CREATE TABLE'), H('ddl_databases3', '3 statements'), H('ddl_both3', 'two databases with a table of the same name, 3 statements', 100), H('ddl_indexes', 'up to 2 rows, 2 CREATE INDEX', 80), H('ddl_start', 'two transactions')],
    thorough=[H('ddl_tables3', '3 CREATE TABLE', 600), H('ddl_databases5', '5 statements', 900), H('ddl_both4', 'two databases, 4 statements', 900)], assume=A,
    note='COMMIT and ROLLBACK are carried out by the execution engine, which is not compiled in this tree; their executors only note AND CHAIN.')
