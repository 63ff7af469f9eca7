#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Kept so that the file can be edited as readable text.
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

p("C01","Migrations already applied successfully are never executed again",
  "A migrate run executes a regular script only if the history table holds no successful record for it, and executes a repeatable script only if it has no successful record or its contents changed since that record. If the history cannot be read to the end, no script is executed and the command fails.",
  ["histories","fault_sequences","configurations"],"every content of the history table, every dialect, every point at which reading the history can fail",
  "The tests run a handful of SQLite histories to completion; a history read that breaks off half way, and most combinations of recorded/failed/repeatable, are never produced.",
  ["ddl/migrate_cmd.go","ddl/touch_cmd.go"],
  [("history query and skip rule","ddl/migrate_cmd.go Run"),("rows iteration","ddl/migrate_cmd.go Run")],
  [("history record","filename, checksum, success flag of each script that was run","the history table")],
  ["statements sent to the database by migrate"])
p("C02","A migration and its history record commit together or not at all",
  "When migrate runs scripts in a transaction, every script and every success record of that unit go through that one transaction, which is committed only if all of them succeeded. After any failure nothing more is written through the transaction, it is rolled back, and the run is reported as failed. A success record is written only after the script itself succeeded.",
  ["fault_sequences","crash_points","configurations"],"every statement of the unit may fail, for every dialect and script kind",
  "Tests only see SQLite scripts that succeed or have a syntax error; they cannot make the history write or the commit fail and never observe which connection a record was written on.",
  ["ddl/migrate_cmd.go","ddl/batch_insert.go"],
  [("transaction handling","ddl/migrate_cmd.go run"),("history upsert","ddl/migrate_cmd.go run")],None,["statements sent to the database, in order, with the connection or transaction used"])
p("C03","Failed migrations are retried and undone only when that is safe",
  "A failed unit is executed again only if the failure is a lock timeout and the unit is all-or-nothing, and never more often than the configured maximum number of attempts. An undo script is executed only for the script that failed, only when that failure was not rolled back by a transaction, and at most once. Whatever the retry or undo does, the run still reports the original failure.",
  ["fault_sequences","configurations","histories"],"every sequence of failures and lock timeouts, every script kind and dialect",
  "Lock timeouts need a second session of a server database; the suite has none and never executes the retry loop.",
  ["ddl/migrate_cmd.go"],[("retry loop","ddl/migrate_cmd.go runWithRetry"),("undo","ddl/migrate_cmd.go undo")],None,["statements sent to the database","returned error"])
p("C04","Session settings are restored however a command ends",
  "Every session-level setting that migrate or load changes (lock timeout, foreign-key enforcement, time zone) is put back to its previous value on the same session before that session is released, on success and on every failure path. A setting is changed only on a connection the command holds for itself, and nothing is executed on that session if changing it failed.",
  ["fault_sequences","configurations"],"every exit of migrate and load under every failure, for every dialect",
  "Only failure-free SQLite runs are tested and none looks at the session afterwards.",
  ["ddl/migrate_cmd.go","ddl/load_cmd.go"],[("set/restore pair","ddl/load_cmd.go setSessionValue and its callers")],None,["statements sent per session, in order"])
p("C05","A dry run changes nothing",
  "With dry-run requested, wipe, automigrate and generate execute no data-modifying or schema-modifying statement and create, truncate or write no file, whatever else is configured. The generated statements only go to the configured output.",
  ["configurations","inputs"],"every combination of the other options, every dialect and every schema",
  "The tests run a few dry runs and compare the printed text; a side effect on another dialect or option combination is not observed.",
  ["ddl/wipe_cmd.go","ddl/automigrate_cmd.go","ddl/generate_cmd.go"],[("dry-run branches","Run of the three commands")],None,["statements executed","files opened for writing"])
p("C06","Unaccepted warnings stop generate and automigrate before any effect",
  "If the computed migration carries warnings and neither warnings were accepted nor a dry run was requested, generate writes no file and automigrate executes no migration statement; the command fails. Warnings are never dropped: when the command goes on they are printed.",
  ["configurations","inputs"],"every migration with warnings, every dialect and option combination",
  "Tests exercise the accepted and rejected branch for one schema only.",
  ["ddl/automigrate_cmd.go","ddl/generate_cmd.go"],[("warning gate","Run of both commands")],None,["files written","statements executed","returned error"])
p("C07","Nothing is dropped unless dropping was requested",
  "Without the drop-objects option, generated and automatic migrations contain no statement that drops a table, column or schema-level object of the source database; the only removals are those that replace a definition in place (replacing a primary key, re-creating objects that depend on an altered column) and the undo files of objects the same migration creates.",
  ["inputs","configurations"],"every pair of source and destination schemas, every dialect",
  "Golden files cover a dozen schema pairs; the space of schema differences is unbounded.",
  ["ddl/sqlite_migration.go","ddl/postgres_migration.go","ddl/mysql_migration.go","ddl/sqlserver_migration.go"],[("drop gating","construction of each dialect's migration")],None,["generated SQL text"])
p("C08","A command that reports success had no failed operation",
  "If any database statement, transaction commit, file read or write, archive or CSV/JSON encoding or decoding step that a command performs fails, the command returns an error (and the CLI exits non-zero). Only clean-up steps taken after the outcome is already decided, and probing for files that may legitimately be absent, are exempt.",
  ["fault_sequences","configurations"],"every fallible operation reachable from every command, each failing at every point",
  "Fault injection is absent from the suite; almost every error branch is unexecuted.",
  ["ddl/*_cmd.go","ddl/batch_insert.go","ddl/database_introspector.go","ddl/subsetter.go","main.go"],[("error propagation","all commands")],None,["value returned by the command"])
p("C09","A result set or stream cut short is never taken as complete",
  "If reading a query result stops because of an error rather than because it is exhausted, the command that was reading it fails: no dump, listing, introspection or migration decision is made from the truncated data. The same holds for buffered output that could not be flushed.",
  ["fault_sequences","inputs"],"every loop over a query result or stream, broken off after any number of rows",
  "A connection lost in mid-result cannot be produced with in-process SQLite; no test reaches these paths.",
  ["ddl/database_introspector.go","ddl/dump_cmd.go","ddl/migrate_cmd.go","ddl/ls_cmd.go","ddl/subsetter.go","ddl/load_cmd.go"],[("iteration error check","every row loop")],None,["value returned by the command"])
p("C10","Everything a command opens is released however it ends",
  "Every result set, prepared statement, dedicated connection, transaction, file and database handle opened by a command is closed (or committed/rolled back) by the time the command returns, on success and on every failure path. Nothing released is used afterwards.",
  ["fault_sequences","configurations"],"every opening site, every path to a return",
  "Leaks on error paths produce no visible test failure.",
  ["ddl/*.go"],[("close/defer discipline","all commands")],None,["open handles after the command returned"])
p("C11","Commands close the database handle exactly when they opened it",
  "A command run on a handle supplied by the caller never closes that handle; a command built from a connection URL closes the handle it opened on every exit of its run.",
  ["configurations","fault_sequences"],"every command, both ways of constructing it, every exit",
  "Tests close their own handles and never look whether the URL-built one is closed on failures.",
  ["ddl/*_cmd.go"],[("conditional close","Run of every command")],None,["Close calls on the handle"])
p("C12","Names and values cannot break out of the SQL they are put into",
  "Every table, column, schema, constraint, index, type-object or file name and every text value that a command places in SQL text is quoted as an identifier or escaped as a literal for the dialect in use, or bound as a parameter. Quoting is faithful: for every name, the quoted form denotes exactly that name.",
  ["inputs","configurations"],"every name and value, every dialect, every statement built",
  "Tests use tame names; quote characters, keywords and mixed case reach only a few of several hundred places where SQL is assembled.",
  ["ddl/*.go"],[("identifier quoting and literal escaping","ddl/sq.go and every caller")],None,["SQL text sent or written"])
p("C13","The migration history table is invisible to schema commands",
  "dump, tables, generate and automigrate never include the configured history table (by default sqddl_history, also when the option is left empty) in what they introspect, so it is never dumped, turned into structs, altered or dropped. Other exclusions requested by the user stay in force.",
  ["configurations","inputs"],"every command, every option combination and dialect",
  "Tests check the default table name for some commands only.",
  ["ddl/dump_cmd.go","ddl/tables_cmd.go","ddl/generate_cmd.go","ddl/automigrate_cmd.go"],[("exclusion filter","construction of the introspection filter")],None,["introspection queries"])
p("C14","Bookkeeping commands only touch the history table",
  "ls, touch, rm and mv never execute the contents of a migration script. ls modifies nothing; rm and mv modify rows of the history table only and never create it; touch creates it if needed and modifies its rows only.",
  ["inputs","configurations","histories"],"every set of files and histories, every dialect",
  "Tests compare the history rows afterwards but not what else was executed.",
  ["ddl/ls_cmd.go","ddl/touch_cmd.go","ddl/rm_cmd.go","ddl/mv_cmd.go"],[("statement construction","Run of the four commands")],None,["statements executed"])
p("C15","Dumps restore in dependency order",
  "load applies a dump as schema, then all data, then indexes, then constraints, each stage starting only after the previous one finished without error, for directories, zip and tar archives alike. In the constraints a dump writes, every foreign key of every schema comes after all primary-key, unique and other constraints of all schemas.",
  ["inputs","schedules","configurations"],"every dump layout, every dialect, every interleaving of the parallel data loaders",
  "Tests load one sample database per format, with one schema, on SQLite, where data is loaded sequentially.",
  ["ddl/load_cmd.go","ddl/dump_cmd.go"],[("stage sequencing","loaders of load, constraint writer of dump")],None,["order of statements executed / written"])
p("C16","Copying a catalog is complete and shares nothing",
  "Writing one catalog into another transfers every attribute of every schema, table, column, constraint, index, view, trigger, routine, enum and domain. Afterwards the two catalogs share no mutable memory, so changing one never changes the other.",
  ["inputs"],"every catalog value, every field of every object kind",
  "The tests compare a few sample catalogs for equality and never mutate a copy.",
  ["ddl/catalog_cache.go","ddl/ddl.go"],[("deep copy","ddl/catalog_cache.go WriteCatalog")],None,["fields of the destination catalog"])
p("C17","Parallel workers never share a session or mutable state",
  "When files are dumped or loaded in parallel, no two workers use the same database session or transaction, and no worker writes memory that another worker or the coordinator can access at the same time without synchronisation. The process-wide driver registry can be used from any goroutine.",
  ["schedules"],"every interleaving of the workers",
  "The suite runs without the race detector, and parallel loading is never exercised because SQLite loads sequentially.",
  ["ddl/load_cmd.go","ddl/dump_cmd.go","ddl/ddl.go","ddl/database_introspector.go"],[("worker closures","load and dump"),("registry lock","ddl/ddl.go")],None,["memory and sessions touched by workers"])
p("C18","Introspection applies the caller's filters to every kind of object",
  "Every introspection query honours the schema and object inclusion/exclusion filters that apply to its object kind, in every dialect, and leaves out system objects unless they were asked for, without losing any other object. Each query is well-formed for every supported server version and yields exactly the columns its reader expects, which are never NULL where the reader cannot take NULL.",
  ["configurations","inputs"],"every dialect, object kind and filter combination",
  "Only SQLite's queries are executed by the runnable tests; the other dialects need servers.",
  ["ddl/introspection_scripts/*.sql","ddl/database_introspector.go"],[("query templates","ddl/introspection_scripts"),("row readers","ddl/database_introspector.go")],None,["text of the introspection queries"])
p("C19","The CLI runs the named subcommand and exits non-zero on any failure",
  "Each documented subcommand name runs that command exactly once with all arguments forwarded. If building or running the command fails, or the subcommand does not exist, the process exits with a non-zero status after printing the error, except when only help was requested.",
  ["inputs","fault_sequences"],"every subcommand and argument list, every failure",
  "main is not tested at all.",
  ["main.go"],[("dispatch","main.go main")],None,["exit status"])
p("C20","Pooled buffers are never used after being given back",
  "No text produced by a command is read from a shared reusable buffer after that buffer has been returned to the pool, no buffer is returned twice, and a buffer taken from the pool is emptied before it is used. Statements and files therefore never contain text of another operation.",
  ["schedules","inputs"],"every use of the pool, every interleaving of operations that share it",
  "A stale or doubly-returned buffer only shows under concurrent use with unlucky timing.",
  ["ddl/*.go"],[("buffer pool","ddl/ddl.go and all users")],None,["contents of statements and files"])
p("C21","Generated Postgres migrations keep blocking and non-transactional work apart",
  "A generated file that contains a statement which cannot run in a transaction (concurrent index creation) is marked to run outside a transaction and comes with an undo file that removes what it may leave half done. Indexes, also those of keys, on existing Postgres tables are built that way. Foreign keys added to existing Postgres tables are added unvalidated and validated in a later, separate file; a column becomes NOT NULL only under a check validated apart from its addition. Every emitted script has exactly one file name.",
  ["inputs"],"every pair of source and destination schemas",
  "Golden files cover few schema pairs.",
  ["ddl/postgres_migration.go","ddl/generate_cmd.go"],[("file partitioning","Postgres generator")],None,["generated files"])
p("C22","A cancelled run starts no further database work",
  "The context given to migrate, load, dump, wipe and automigrate governs every statement and transaction the command issues for its own work: a statement is never started under a different, uncancellable context. Parallel workers use a context that is cancelled as soon as one of them fails.",
  ["schedules","fault_sequences"],"every statement issued, every moment of cancellation",
  "No test cancels a context.",
  ["ddl/migrate_cmd.go","ddl/load_cmd.go","ddl/dump_cmd.go","ddl/wipe_cmd.go","ddl/automigrate_cmd.go"],[("context plumbing","all commands")],None,["context of each statement"])
p("C23","Malformed input is rejected with an error, never a crash",
  "Struct tags, column types, subset queries, SQL parameter lists, CSV files and schema descriptions of any content either work or yield an error or diagnostic; no such input makes a command or a library call panic by an out-of-range access or nil dereference.",
  ["inputs"],"every string given as tag, type, query or file content",
  "Tests feed well-formed inputs and a few chosen malformed ones.",
  ["ddl/modifier.go","ddl/struct_parser.go","ddl/subsetter.go","ddl/sq.go","ddl/ddl.go","ddl/database_introspector.go"],[("bounds and nil checks","parsers")],None,["panics"])
p("C24","An unsupported dialect is refused before any effect",
  "A command whose dialect has no implementation for the requested work fails with an error without executing or writing anything, and no dialect is silently handled by another dialect's generator.",
  ["configurations"],"every dialect string, every command",
  "Tests use supported dialects.",
  ["ddl/*_cmd.go","ddl/database_introspector.go"],[("dialect dispatch","all commands")],None,["returned error","statements executed"])
p("C25","Objects marked as ignored never appear in generated SQL",
  "A schema, table, column, constraint or index marked as ignored is treated as if it did not exist: a generated or automatic migration neither creates, alters nor drops it, it does not appear in created tables, and the rest of the migration is what it would be without it.",
  ["inputs","configurations"],"every schema with ignored objects, every dialect",
  "Golden files contain few ignored objects.",
  ["ddl/sqlite_migration.go","ddl/postgres_migration.go","ddl/mysql_migration.go","ddl/sqlserver_migration.go","ddl/dump_cmd.go"],[("ignore checks","generators")],None,["generated SQL text"])
p("C26","Each data file, touch and wipe takes effect entirely or not at all",
  "The rows of one CSV file are inserted in one transaction that is committed only if the whole file was read and inserted without error, and rolled back otherwise. touch writes all its records in one transaction, and wipe drops everything in one transaction on every dialect with transactional DDL.",
  ["fault_sequences","crash_points","inputs"],"every failure while loading, touching or wiping",
  "Tests do not fail in mid-file and cannot fail the commit.",
  ["ddl/load_cmd.go","ddl/touch_cmd.go","ddl/wipe_cmd.go"],[("transaction per unit","load, touch, wipe")],None,["statements sent, with their transaction"])
p("C27","Schema-only and data-only dumps contain only that part",
  "A schema-only dump writes schema, indexes and constraints and no row data (and runs no data query); a data-only dump writes row data and no schema files; otherwise all of them are written, identically for directory, zip and tar output. Generated columns are never part of dumped data.",
  ["configurations","inputs"],"every option combination, every output format",
  "Tests dump one database with default options.",
  ["ddl/dump_cmd.go"],[("part selection","dump writers")],None,["files written"])
p("C28","ls and migrate agree about what is pending",
  "For every recorded history, ls reports a script in the migration directory as applied exactly when migrate would not execute it, as failed when its last recorded run failed, and as pending otherwise.",
  ["histories","inputs"],"every history content and directory content",
  "Both commands are tested on separate fixtures; nothing compares them.",
  ["ddl/ls_cmd.go","ddl/migrate_cmd.go"],[("status rule","ls"),("skip rule","migrate")],None,["lines printed by ls","scripts executed by migrate"])
p("C29","A generated migration turns the source schema into the destination",
  "Applied to a database with the source schema, the files of a generated or automatic migration run without a statement the database must refuse (a missing or already existing object, an object still in use, a key that can't be added that way) and end with the destination schema: every table, column (type, default, NOT NULL, collation, identity), key, foreign key and index of the destination as described there, the data of kept columns in place, and, if dropping was requested, nothing that the destination lacks. Equal schemas generate nothing.",
  ["inputs","configurations"],"every pair of source and destination schemas, every dialect, with and without dropping",
  "Golden files cover a dozen schema pairs and are compared as text, never run, for three of the four dialects; a wrong order or a missing statement is only noticed on a server.",
  ["ddl/sqlite_migration.go","ddl/postgres_migration.go","ddl/mysql_migration.go","ddl/sqlserver_migration.go","ddl/dump_cmd.go","ddl/catalog_cache.go","ddl/automigrate_cmd.go","ddl/generate_cmd.go"],[("difference computation","new*Migration"),("statement order and text","*Migration.sql"),("handover","AutomigrateCmd.Run")],None,["generated files"])
p("C30","Wipe leaves nothing behind",
  "After a successful wipe the database holds none of the views, tables, routines, enums, domains and extensions it held before, in whatever schema they were; and the statements wipe sends are ones the database accepts in that order: no table is dropped while another one refers to it, functions that share a name are told apart, views are dropped as the kind they are, and objects outside the current schema are named with their schema.",
  ["inputs","configurations"],"every set of objects, schemas and references between them, every dialect",
  "Wipe is tested against SQLite only, with one schema; the statements for the server databases are never run.",
  ["ddl/wipe_cmd.go"],[("list of drops","WipeCmd.Run")],None,["statements sent"])
p("C31","A dumped schema recreates the database it came from",
  "The schema, index and constraint files of a dump, run in the order load runs them on an empty database, contain no statement the database must refuse and yield the dumped schema: every table with its columns (type, default, NOT NULL, collation, identity, generation), keys, foreign keys, checks and indexes, and the extensions, enums and domains of Postgres, for directory, zip and tar output alike.",
  ["inputs","configurations"],"every catalog, every dialect, every output format",
  "Tests dump one SQLite schema and compare file texts; dumps of the server databases are not loaded anywhere.",
  ["ddl/dump_cmd.go","ddl/catalog_cache.go"],[("definitions","dumpSchema, dumpIndexes, dumpConstraints, write*")],None,["files written"])
p("C32","A batch insert puts every row into the table once",
  "BatchInsert.ExecContext, when it reports success, has asked for every row and the statements it sent leave the table with exactly the rows handed to it, each once and every value in its column, next to the rows that were there before; with key columns, a row whose key is already there is updated instead (all columns that can be) and no other row changes. This holds for every batch size, including ones that are zero, negative, divide the number of rows or would need more arguments than the database accepts. Afterwards sequences of identity columns are set (Postgres) and IDENTITY_INSERT is off (SQL Server).",
  ["inputs","configurations"],"every table, every set of key and identity columns, every number of rows, every batch size, every dialect",
  "Tests insert through loads of fixed CSV files with one batch size; the statements for the server databases are only run where a server is available.",
  ["ddl/batch_insert.go"],[("statements","BatchInsert.ExecContext")],None,["statements sent","rows in the table"])
p("C33","Table structs mean what is documented",
  "The catalog made from table structs has, for every dialect, the tables, columns, constraints and indexes that the documentation of field types and ddl struct tags prescribes: default and explicit types, lengths, attributes, defaults, keys, references with rules and deferrability, indexes, names, dialect prefixes and dialect modifiers, names and schemas from tags; modifiers that do not apply to a dialect have no effect. Declarations documented as errors are reported and nothing else is; no declaration makes the parser panic.",
  ["inputs","configurations"],"every set of table structs, every modifier at column and table level, every dialect",
  "One test compares the catalog of one file, without a dialect; the commands' tests use a few modifiers on SQLite.",
  ["ddl/struct_parser.go","ddl/modifier.go","ddl/ddl.go","ddl/catalog_cache.go"],[("catalog","StructParser.VisitStruct, StructParser.WriteCatalog, parse*Modifier")],None,["catalog","error reported"])
p("C34","Written table structs declare the database they were made from",
  "The table structs written for a catalog are Go source, and reading them gives the catalog again: the same tables with schema and name, columns in order with type, attributes, default and collation, primary keys, unique constraints, foreign keys with rules and deferrability, and simple indexes, for every dialect. Fields have the type that matches the column, in table and in view structs, and the name of the column. Indexes that structs can't declare and objects that are marked ignored are left out.",
  ["inputs","configurations"],"every catalog a database can have, every dialect",
  "The tests compare the structs of one SQLite database, whose names, types and references are simple, with a file.",
  ["ddl/table_structs.go","ddl/view_structs.go","ddl/modifier.go","ddl/struct_parser.go","ddl/ddl.go"],[("structs","TableStructs.ReadCatalog, TableStructs.MarshalText, ViewStructs.ReadCatalog, Modifiers.String")],None,["written structs","catalog"])
p("C35","Unsafe changes come with a warning, safe ones without",
  "A generated migration that changes an existing table in a way documented as unsafe (changing the type of a column other than in the documented safe ways; on old Postgres versions adding a column with default or identity, or NOT NULL; adding a NOT NULL column without default; an identity SQL Server can't add) comes with a warning that names the table and the column. Changes documented as safe come with none.",
  ["inputs","configurations"],"every change of a column, every dialect and version with such rules",
  "The tests compare the warnings of one altered table per dialect, in the current schema and for an unknown version.",
  ["ddl/postgres_migration.go","ddl/mysql_migration.go","ddl/sqlserver_migration.go","ddl/generate_cmd.go","ddl/ddl.go"],[("warnings","GenerateCmd.Results, postgresMigration.sql, mysqlMigration.sql, sqlserverMigration.sql, normalizeColumnType, VersionNums.LowerThan")],None,["warnings"])
with open((__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))+"/properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
