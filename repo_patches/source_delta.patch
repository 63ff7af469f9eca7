From 5af40a6829029370ed1dacca13ba60c61c696a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:30 +0000
Subject: [PATCH 01/73] fix: mv reports a failed update of the history table

The errors of the UPDATE statement and of counting its rows were replaced
by nil, so a rename that never happened looked successful.
---
 ddl/mv_cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddl/mv_cmd.go b/ddl/mv_cmd.go
index 29cde10..25af152 100644
--- a/ddl/mv_cmd.go
+++ b/ddl/mv_cmd.go
@@ -123,11 +123,11 @@ func (cmd *MvCmd) Run() error {
 	b.WriteString(" WHERE filename = '" + EscapeQuote(cmd.SrcFilename, '\'') + "'")
 	result, err := cmd.DB.Exec(b.String())
 	if err != nil {
-		return nil
+		return err
 	}
 	rowsAffected, err := result.RowsAffected()
 	if err != nil {
-		return nil
+		return err
 	}
 	fmt.Fprintln(cmd.Stderr, strconv.FormatInt(rowsAffected, 10)+" rows affected")
 	if err != nil {
-- 
2.43.0


From 42a5d05a5981547e89f5edf5a78716c0e1957b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:30 +0000
Subject: [PATCH 02/73] fix: migrate fails if the history table cannot be read
 to the end

An error while iterating over the history was ignored. Scripts recorded in
the unread part were taken as pending and executed a second time.
---
 ddl/migrate_cmd.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index bb9f16e..2bbd6c7 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -252,6 +252,10 @@ func (cmd *MigrateCmd) Run() error {
 				}
 			}
 		}
+		err = closeRows(rows)
+		if err != nil {
+			return err
+		}
 	}
 
 	conn, err := cmd.DB.Conn(cmd.Ctx)
-- 
2.43.0


From 041365d2579e65512efe5844163adcd4a3b6dfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:30 +0000
Subject: [PATCH 03/73] fix: ls fails if the history table cannot be read to
 the end

An error while iterating over the history was ignored, so applied scripts
were listed as pending and missing scripts were left out.
---
 ddl/ls_cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddl/ls_cmd.go b/ddl/ls_cmd.go
index 69f8b4a..9ad4981 100644
--- a/ddl/ls_cmd.go
+++ b/ddl/ls_cmd.go
@@ -185,7 +185,7 @@ func (cmd *LsCmd) Run() error {
 				}
 			}
 		}
-		err = rows.Close()
+		err = closeRows(rows)
 		if err != nil {
 			return err
 		}
@@ -270,7 +270,7 @@ func (cmd *LsCmd) Run() error {
 				return err
 			}
 		}
-		err = rows.Close()
+		err = closeRows(rows)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From edb1be4c6b8dfbeff463221f3c9e55c4d12f1b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:30 +0000
Subject: [PATCH 04/73] fix: dump fails if the rows of a table cannot be read
 to the end

An error while iterating over a table was ignored and the truncated CSV
file was presented as a complete dump.
---
 ddl/dump_cmd.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 8bbcbd5..218e545 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -992,6 +992,10 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 			return err
 		}
 	}
+	err = closeRows(rows)
+	if err != nil {
+		return err
+	}
 	csvWriter.Flush()
 	err = csvWriter.Error()
 	if err != nil {
-- 
2.43.0


From e29f4280e9a03ea782f008c952eb7ba611ad1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:30 +0000
Subject: [PATCH 05/73] fix: introspection fails if version or triggers cannot
 be read

Errors while iterating over the result of the version and the trigger query
were ignored; the other introspection queries already report them.
---
 ddl/database_introspector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 984ac5d..05a9750 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -300,7 +300,7 @@ func (dbi *DatabaseIntrospector) GetVersion() (version string, err error) {
 			return "", fmt.Errorf("scanning version: %w", err)
 		}
 	}
-	return version, nil
+	return version, closeRows(rows)
 }
 
 // GetVersionNums returns the version numbers of the database.
@@ -1385,7 +1385,7 @@ func (dbi *DatabaseIntrospector) GetTriggers() ([]Trigger, error) {
 		trigger.SQL = strings.ReplaceAll(trigger.SQL, "\r\n", "\n")
 		triggers = append(triggers, trigger)
 	}
-	return triggers, nil
+	return triggers, closeRows(rows)
 }
 
 // GetViews returns the views in the database.
-- 
2.43.0


From a3a18c5995cc7dcdb3a8b6e94f287e13c54b9966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:44 +0000
Subject: [PATCH 06/73] fix: a subset dump fails if a subset query cannot be
 read to the end

An error while iterating over the rows of a subset query was ignored and
the dump silently contained fewer rows than the query selects.
---
 ddl/subsetter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index d7f5f5a..cd0d5be 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -300,6 +300,10 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 		}
 		result.records = append(result.records, record)
 	}
+	err = closeRows(rows)
+	if err != nil {
+		return err
+	}
 	tableID := [2]string{baseTable.TableSchema, baseTable.TableName}
 	ss.results = append(ss.results, result)
 	baseFkey := &Constraint{
-- 
2.43.0


From 251bcba26239d6c5762969e4c82557b9934de3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:44 +0000
Subject: [PATCH 07/73] fix: tables and views report a failed close of the
 output file

The generated file was only closed by a deferred call whose error was
dropped, so a file that could not be written out completely looked fine.
---
 ddl/tables_cmd.go | 6 +++++-
 ddl/views_cmd.go  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ddl/tables_cmd.go b/ddl/tables_cmd.go
index 3d54064..5810e2f 100644
--- a/ddl/tables_cmd.go
+++ b/ddl/tables_cmd.go
@@ -193,8 +193,9 @@ func (cmd *TablesCmd) Run() error {
 	}
 
 	out := cmd.Stdout
+	var file *os.File
 	if cmd.Filename != "" {
-		file, err := os.OpenFile(cmd.Filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+		file, err = os.OpenFile(cmd.Filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
 			return err
 		}
@@ -209,5 +210,8 @@ func (cmd *TablesCmd) Run() error {
 	if err != nil {
 		return err
 	}
+	if file != nil {
+		return file.Close()
+	}
 	return nil
 }
diff --git a/ddl/views_cmd.go b/ddl/views_cmd.go
index 1439345..4405ab4 100644
--- a/ddl/views_cmd.go
+++ b/ddl/views_cmd.go
@@ -148,8 +148,9 @@ func (cmd *ViewsCmd) Run() error {
 	}
 
 	out := cmd.Stdout
+	var file *os.File
 	if cmd.Filename != "" {
-		file, err := os.OpenFile(cmd.Filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+		file, err = os.OpenFile(cmd.Filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
 			return err
 		}
@@ -164,5 +165,8 @@ func (cmd *ViewsCmd) Run() error {
 	if err != nil {
 		return err
 	}
+	if file != nil {
+		return file.Close()
+	}
 	return nil
 }
-- 
2.43.0


From e4035e99c171b0ad1bb69510ea356a232bc5b6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:22 +0000
Subject: [PATCH 08/73] fix: close the database opened to introspect a catalog
 source

generate and automigrate open a database handle for every -src/-dest that is
a database URL but never closed it.
---
 ddl/generate_cmd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ddl/generate_cmd.go b/ddl/generate_cmd.go
index 30029d5..a135c6d 100644
--- a/ddl/generate_cmd.go
+++ b/ddl/generate_cmd.go
@@ -376,6 +376,7 @@ func writeCatalog(catalog *Catalog, fsys fs.FS, historyTable, s string) error {
 	if err != nil {
 		return err
 	}
+	defer db.Close()
 	dbi := NewDatabaseIntrospector(dialect, db)
 	dbi.ObjectTypes = []string{"TABLES"}
 	dbi.ExcludeTables = []string{historyTable}
-- 
2.43.0


From 6a07709c2ce96bdb6f2929298862b3820b23561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:22 +0000
Subject: [PATCH 09/73] fix: close output files when writing them fails

dump and generate left the file they were writing open on error paths.
---
 ddl/dump_cmd.go     | 5 +++++
 ddl/generate_cmd.go | 1 +
 2 files changed, 6 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 218e545..c83f676 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -538,6 +538,7 @@ func (cmd *DumpCmd) dumpDir() error {
 		encoder.SetIndent("", "  ")
 		err = encoder.Encode(cmd.catalog)
 		if err != nil {
+			file.Close()
 			return err
 		}
 		fmt.Fprintln(cmd.Stderr, filename)
@@ -553,6 +554,7 @@ func (cmd *DumpCmd) dumpDir() error {
 		}
 		err = cmd.dumpSchema(file)
 		if err != nil {
+			file.Close()
 			return err
 		}
 		fmt.Fprintln(cmd.Stderr, filename)
@@ -568,6 +570,7 @@ func (cmd *DumpCmd) dumpDir() error {
 		}
 		err = cmd.dumpIndexes(file)
 		if err != nil {
+			file.Close()
 			return err
 		}
 		fmt.Fprintln(cmd.Stderr, filename)
@@ -583,6 +586,7 @@ func (cmd *DumpCmd) dumpDir() error {
 		}
 		err = cmd.dumpConstraints(file)
 		if err != nil {
+			file.Close()
 			return err
 		}
 		fmt.Fprintln(cmd.Stderr, filename)
@@ -606,6 +610,7 @@ func (cmd *DumpCmd) dumpDir() error {
 				}
 				err = cmd.dumpCSV(ctx, file, q.table, q.query)
 				if err != nil {
+					file.Close()
 					return err
 				}
 				fmt.Fprintln(cmd.Stderr, filename)
diff --git a/ddl/generate_cmd.go b/ddl/generate_cmd.go
index a135c6d..aad9329 100644
--- a/ddl/generate_cmd.go
+++ b/ddl/generate_cmd.go
@@ -205,6 +205,7 @@ func (cmd *GenerateCmd) Run() error {
 		}
 		_, err = outputfile.ReadFrom(file)
 		if err != nil {
+			outputfile.Close()
 			return err
 		}
 		err = outputfile.Close()
-- 
2.43.0


From cd70e323632ce335882fba44afbeb6a7e8acdfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:22 +0000
Subject: [PATCH 10/73] fix: close input files when load cannot begin a
 transaction

load opens each CSV file before beginning its transaction and left it open if
that failed; it also kept a file open that could not be stat-ed.
---
 ddl/load_cmd.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index fed2f8e..f08cc84 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -221,6 +221,7 @@ func (cmd *LoadCmd) Run() error {
 			}
 			tx, err := conn.BeginTx(cmd.Ctx, nil)
 			if err != nil {
+				contents.Close()
 				return err
 			}
 			err = cmd.loadCSV(cmd.Ctx, tx, filename, contents)
@@ -251,10 +252,10 @@ func (cmd *LoadCmd) Run() error {
 			return err
 		}
 		fileinfo, err := file.Stat()
+		file.Close()
 		if err != nil {
 			return err
 		}
-		file.Close()
 		if fileinfo.IsDir() {
 			err = cmd.loadDir(conn, filename)
 			if err != nil {
@@ -656,6 +657,7 @@ func (cmd *LoadCmd) loadZip(conn *sql.Conn, zipName string) error {
 				}
 				tx, err := conn.BeginTx(ctx, nil)
 				if err != nil {
+					contents.Close()
 					return err
 				}
 				filename := filepath.ToSlash(filepath.Join(zipName, f.Name))
@@ -672,6 +674,7 @@ func (cmd *LoadCmd) loadZip(conn *sql.Conn, zipName string) error {
 			}
 			tx, err := conn.BeginTx(cmd.Ctx, nil)
 			if err != nil {
+				contents.Close()
 				return err
 			}
 			filename := filepath.ToSlash(filepath.Join(zipName, f.Name))
@@ -936,6 +939,7 @@ func (cmd *LoadCmd) loadDir(conn *sql.Conn, dirname string) error {
 				}
 				tx, err := cmd.DB.BeginTx(ctx, nil)
 				if err != nil {
+					contents.Close()
 					return err
 				}
 				err = cmd.loadCSV(ctx, tx, filename, contents)
@@ -951,6 +955,7 @@ func (cmd *LoadCmd) loadDir(conn *sql.Conn, dirname string) error {
 			}
 			tx, err := conn.BeginTx(cmd.Ctx, nil)
 			if err != nil {
+				contents.Close()
 				return err
 			}
 			err = cmd.loadCSV(cmd.Ctx, tx, filename, contents)
-- 
2.43.0


From 98cde5981b12a8436bebd40d86014188a9f33b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:22 +0000
Subject: [PATCH 11/73] fix: close the database when building migrate or
 automigrate fails

MigrateCommand and AutomigrateCommand opened the database and then returned
an error for later invalid flags without closing it.
---
 ddl/automigrate_cmd.go | 5 +++++
 ddl/migrate_cmd.go     | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/ddl/automigrate_cmd.go b/ddl/automigrate_cmd.go
index 5991c70..abade19 100644
--- a/ddl/automigrate_cmd.go
+++ b/ddl/automigrate_cmd.go
@@ -126,11 +126,13 @@ Flags:
 		cmd.DestCatalog = &Catalog{Dialect: cmd.Dialect}
 		cmd.DestCatalog.CurrentSchema, err = dbi.GetCurrentSchema()
 		if err != nil {
+			cmd.DB.Close()
 			return nil, err
 		}
 		for _, s := range strings.Split(dest, ",") {
 			err = writeCatalog(cmd.DestCatalog, cmd.DirFS, cmd.HistoryTable, s)
 			if err != nil {
+				cmd.DB.Close()
 				return nil, err
 			}
 		}
@@ -138,18 +140,21 @@ Flags:
 	if lockTimeout != "" {
 		cmd.LockTimeout, err = time.ParseDuration(lockTimeout)
 		if err != nil {
+			cmd.DB.Close()
 			return nil, err
 		}
 	}
 	if maxDelay != "" {
 		cmd.MaxDelay, err = time.ParseDuration(maxDelay)
 		if err != nil {
+			cmd.DB.Close()
 			return nil, err
 		}
 	}
 	if baseDelay != "" {
 		cmd.BaseDelay, err = time.ParseDuration(baseDelay)
 		if err != nil {
+			cmd.DB.Close()
 			return nil, err
 		}
 	}
diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index 2bbd6c7..0efa815 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -129,18 +129,21 @@ Flags:
 	if lockTimeout != "" {
 		cmd.LockTimeout, err = time.ParseDuration(lockTimeout)
 		if err != nil {
+			cmd.DB.Close()
 			return nil, err
 		}
 	}
 	if maxDelay != "" {
 		cmd.MaxDelay, err = time.ParseDuration(maxDelay)
 		if err != nil {
+			cmd.DB.Close()
 			return nil, err
 		}
 	}
 	if baseDelay != "" {
 		cmd.BaseDelay, err = time.ParseDuration(baseDelay)
 		if err != nil {
+			cmd.DB.Close()
 			return nil, err
 		}
 	}
-- 
2.43.0


From 529e0cfaa2b9f078a18be0767805bded32baedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:50 +0000
Subject: [PATCH 12/73] fix: close the database opened by mv when a filename is
 missing

mv returned for a missing source or destination filename before arranging for
the handle it opened to be closed.
---
 ddl/mv_cmd.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ddl/mv_cmd.go b/ddl/mv_cmd.go
index 25af152..b6d5168 100644
--- a/ddl/mv_cmd.go
+++ b/ddl/mv_cmd.go
@@ -90,6 +90,9 @@ func (cmd *MvCmd) Run() error {
 	if cmd.DB == nil {
 		return fmt.Errorf("nil DB")
 	}
+	if cmd.db != "" {
+		defer cmd.DB.Close()
+	}
 	if cmd.Dialect == "" {
 		return fmt.Errorf("empty Dialect")
 	}
@@ -105,9 +108,6 @@ func (cmd *MvCmd) Run() error {
 	if cmd.HistoryTable == "" {
 		cmd.HistoryTable = "sqddl_history"
 	}
-	if cmd.db != "" {
-		defer cmd.DB.Close()
-	}
 
 	exists, err := historyTableExists(cmd.Dialect, cmd.DB, cmd.HistoryTable)
 	if err != nil {
-- 
2.43.0


From 5db13fe2fe60e4c27732a84f7b495bbbe2882a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:49 +0000
Subject: [PATCH 13/73] fix: restore session settings after the context is
 cancelled

migrate and load restored the lock timeout and foreign key settings of their
connection under the context of the command. Once that was cancelled the
connection went back to the pool with the changed setting.
---
 ddl/load_cmd.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index f08cc84..047f129 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -1117,7 +1117,8 @@ func setSessionValue(ctx context.Context, db DB, getter, setter, value string) (
 		if !atomic.CompareAndSwapInt32(&done, 0, 1) {
 			return nil
 		}
-		_, err = db.ExecContext(ctx, strings.ReplaceAll(setter, "%s", EscapeQuote(oldValue, '\'')))
+		// The session must be restored even if ctx has been cancelled.
+		_, err = db.ExecContext(context.Background(), strings.ReplaceAll(setter, "%s", EscapeQuote(oldValue, '\'')))
 		return err
 	}, nil
 }
-- 
2.43.0


From 1ba534d8b21fc9f95bb39cc6b5b62523d3b9068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:49 +0000
Subject: [PATCH 14/73] fix: restore a Postgres lock timeout that has a unit

SHOW lock_timeout reports values such as 5s, which must be quoted to be set
again. Migrate failed at the end if the lock timeout had been configured.
---
 ddl/migrate_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index 0efa815..b1afacd 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -271,7 +271,7 @@ func (cmd *MigrateCmd) Run() error {
 	milliseconds := strconv.FormatInt(cmd.LockTimeout.Milliseconds(), 10)
 	switch cmd.Dialect {
 	case DialectPostgres:
-		restoreSessionValue, err = setSessionValue(cmd.Ctx, conn, "SHOW lock_timeout", "SET lock_timeout = %s", milliseconds)
+		restoreSessionValue, err = setSessionValue(cmd.Ctx, conn, "SHOW lock_timeout", "SET lock_timeout = '%s'", milliseconds)
 	case DialectMySQL:
 		restoreSessionValue, err = setSessionValue(cmd.Ctx, conn, "SELECT @@lock_wait_timeout", "SET lock_wait_timeout = %s", seconds)
 	case DialectSQLServer:
-- 
2.43.0


From a6efc892492b6cbf8c92a33988b7979f85e4b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:18 +0000
Subject: [PATCH 15/73] fix: do not run an applied script again when recording
 it times out

A single-statement script outside a transaction was retried when the history
table could not be updated because of a lock timeout, although the script
itself had already been applied.
---
 ddl/migrate_cmd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index b1afacd..d50badf 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -395,6 +395,9 @@ func (cmd *MigrateCmd) runWithRetry(conn *sql.Conn, queue []migration) error {
 	for {
 		attempts++
 		stoppedAt, migrationErr := cmd.run(conn, queue)
+		if migrationErr != nil && !isTx && queue[0].success {
+			isRetryable = false // It was applied, running it again would apply it twice.
+		}
 		if migrationErr != nil && isRetryable && cmd.driver.IsLockTimeout != nil && cmd.driver.IsLockTimeout(migrationErr) {
 			if attempts >= cmd.MaxAttempts {
 				fmt.Fprintf(cmd.Stderr, queue[stoppedAt].filename+": attempt %d/%d timed out\n", attempts, cmd.MaxAttempts)
-- 
2.43.0


From 245254b84bc790a320b61a16cb188c54c56acf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:18 +0000
Subject: [PATCH 16/73] fix: handle a lock timeout when beginning the migration
 transaction

run returns -1 when the transaction cannot be started, which made the retry
code index the queue with -1.
---
 ddl/migrate_cmd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index d50badf..ac9235a 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -399,6 +399,9 @@ func (cmd *MigrateCmd) runWithRetry(conn *sql.Conn, queue []migration) error {
 			isRetryable = false // It was applied, running it again would apply it twice.
 		}
 		if migrationErr != nil && isRetryable && cmd.driver.IsLockTimeout != nil && cmd.driver.IsLockTimeout(migrationErr) {
+			if stoppedAt < 0 {
+				stoppedAt = 0 // The transaction could not be started.
+			}
 			if attempts >= cmd.MaxAttempts {
 				fmt.Fprintf(cmd.Stderr, queue[stoppedAt].filename+": attempt %d/%d timed out\n", attempts, cmd.MaxAttempts)
 				return fmt.Errorf("%s: %w", queue[stoppedAt].filename, migrationErr)
-- 
2.43.0


From e7c7b031fa8b8796130ac2e2d0d73eb3dbfec03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:20:18 +0000
Subject: [PATCH 17/73] fix: do not panic when the retry delay is shorter than
 a second

rand.Intn panics for arguments that are not positive: a base delay below half
a second, or one that overflows after many attempts.
---
 ddl/migrate_cmd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index ac9235a..ff6fe38 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -407,7 +407,10 @@ func (cmd *MigrateCmd) runWithRetry(conn *sql.Conn, queue []migration) error {
 				return fmt.Errorf("%s: %w", queue[stoppedAt].filename, migrationErr)
 			}
 			multiplier := int(math.Exp2(float64(attempts)))
-			delay := time.Duration(rng.Intn(int(cmd.BaseDelay*time.Duration(multiplier)/time.Second))) * time.Second
+			delay := cmd.BaseDelay
+			if n := int(cmd.BaseDelay * time.Duration(multiplier) / time.Second); n > 0 {
+				delay = time.Duration(rng.Intn(n)) * time.Second
+			}
 			if delay < cmd.BaseDelay {
 				delay = cmd.BaseDelay
 			} else if delay > cmd.MaxDelay {
-- 
2.43.0


From bca0b37a1e20dd1d7616597432107f3d466b47c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:28:47 +0000
Subject: [PATCH 18/73] fix: report warnings of an automatic migration that has
 no statements

---
 ddl/automigrate_cmd.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ddl/automigrate_cmd.go b/ddl/automigrate_cmd.go
index abade19..528da92 100644
--- a/ddl/automigrate_cmd.go
+++ b/ddl/automigrate_cmd.go
@@ -238,9 +238,6 @@ func (cmd *AutomigrateCmd) Run() error {
 			bufpool.Put(buf)
 		}
 	}()
-	if len(filenames) == 0 {
-		return nil
-	}
 	if len(warnings) > 0 {
 		if !cmd.AcceptWarnings && !cmd.DryRun {
 			return fmt.Errorf("warnings present (to proceed despite the warnings, use the -accept-warnings flag):\n" + strings.Join(warnings, "\n"))
@@ -249,6 +246,9 @@ func (cmd *AutomigrateCmd) Run() error {
 			fmt.Fprintln(cmd.Stderr, warning)
 		}
 	}
+	if len(filenames) == 0 {
+		return nil
+	}
 	if cmd.DryRun {
 		for i, filename := range filenames {
 			if strings.HasSuffix(filename, ".undo.sql") {
-- 
2.43.0


From 2fea67cbcc7a13a4140aaf67fd9c4248a5ae6ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:15 +0000
Subject: [PATCH 19/73] fix: exclude the default history table when generating
 without a history table name

---
 ddl/generate_cmd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/generate_cmd.go b/ddl/generate_cmd.go
index aad9329..6c24d5d 100644
--- a/ddl/generate_cmd.go
+++ b/ddl/generate_cmd.go
@@ -242,6 +242,9 @@ func (cmd *GenerateCmd) Results() (files []fs.File, warnings []string, err error
 	if cmd.Stderr == nil {
 		cmd.Stderr = os.Stderr
 	}
+	if cmd.HistoryTable == "" {
+		cmd.HistoryTable = "sqddl_history"
+	}
 	if cmd.SrcCatalog == nil {
 		cmd.SrcCatalog = &Catalog{}
 	}
-- 
2.43.0


From 056477efa3cbe2595156f772d5abd0e803a02574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:15 +0000
Subject: [PATCH 20/73] fix: run the data queries of dump under the command's
 context

---
 ddl/dump_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index c83f676..6f42dc0 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -906,7 +906,7 @@ func (cmd *DumpCmd) dumpCSV(ctx context.Context, w io.Writer, table *Table, quer
 			scanDest = append(scanDest, &sql.NullString{})
 		}
 	}
-	rows, err := cmd.DB.Query(query)
+	rows, err := cmd.DB.QueryContext(ctx, query)
 	if err != nil {
 		return fmt.Errorf("%w\n"+query, err)
 	}
-- 
2.43.0


From f0d83c184f8548572016f84ff7aad05fe5f4a49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:15 +0000
Subject: [PATCH 21/73] fix: read the migration history under the command's
 context

---
 ddl/migrate_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index ff6fe38..59825e3 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -230,7 +230,7 @@ func (cmd *MigrateCmd) Run() error {
 			b.WriteString("'" + EscapeQuote(filename, '\'') + "'")
 		}
 		b.WriteString(")")
-		rows, err := cmd.DB.Query(b.String())
+		rows, err := cmd.DB.QueryContext(cmd.Ctx, b.String())
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From b6ae940de05845dde738f09f3d8ff2bb6fdb74e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:28 +0000
Subject: [PATCH 22/73] fix: look for and create the history table under
 migrate's context

---
 ddl/ls_cmd.go      |  3 ++-
 ddl/migrate_cmd.go |  2 +-
 ddl/mv_cmd.go      |  3 ++-
 ddl/rm_cmd.go      |  3 ++-
 ddl/touch_cmd.go   | 18 +++++++++---------
 5 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/ddl/ls_cmd.go b/ddl/ls_cmd.go
index 9ad4981..5e614e8 100644
--- a/ddl/ls_cmd.go
+++ b/ddl/ls_cmd.go
@@ -2,6 +2,7 @@ package ddl
 
 import (
 	"bytes"
+	"context"
 	"crypto/sha256"
 	"database/sql"
 	"encoding/hex"
@@ -144,7 +145,7 @@ func (cmd *LsCmd) Run() error {
 		migrations[i].filename = filename
 		cache[filename] = i
 	}
-	exists, err := historyTableExists(cmd.Dialect, cmd.DB, cmd.HistoryTable)
+	exists, err := historyTableExists(context.Background(), cmd.Dialect, cmd.DB, cmd.HistoryTable)
 	if err != nil {
 		return err
 	}
diff --git a/ddl/migrate_cmd.go b/ddl/migrate_cmd.go
index 59825e3..3daae79 100644
--- a/ddl/migrate_cmd.go
+++ b/ddl/migrate_cmd.go
@@ -215,7 +215,7 @@ func (cmd *MigrateCmd) Run() error {
 	}
 
 	if !cmd.SkipHistoryTable {
-		err = ensureHistoryTableExists(cmd.Dialect, cmd.DB, cmd.HistoryTable)
+		err = ensureHistoryTableExists(cmd.Ctx, cmd.Dialect, cmd.DB, cmd.HistoryTable)
 		if err != nil {
 			return err
 		}
diff --git a/ddl/mv_cmd.go b/ddl/mv_cmd.go
index b6d5168..2953bb0 100644
--- a/ddl/mv_cmd.go
+++ b/ddl/mv_cmd.go
@@ -1,6 +1,7 @@
 package ddl
 
 import (
+	"context"
 	"database/sql"
 	"flag"
 	"fmt"
@@ -109,7 +110,7 @@ func (cmd *MvCmd) Run() error {
 		cmd.HistoryTable = "sqddl_history"
 	}
 
-	exists, err := historyTableExists(cmd.Dialect, cmd.DB, cmd.HistoryTable)
+	exists, err := historyTableExists(context.Background(), cmd.Dialect, cmd.DB, cmd.HistoryTable)
 	if err != nil {
 		return err
 	}
diff --git a/ddl/rm_cmd.go b/ddl/rm_cmd.go
index f049026..519aee0 100644
--- a/ddl/rm_cmd.go
+++ b/ddl/rm_cmd.go
@@ -1,6 +1,7 @@
 package ddl
 
 import (
+	"context"
 	"database/sql"
 	"flag"
 	"fmt"
@@ -103,7 +104,7 @@ func (cmd *RmCmd) Run() error {
 		fmt.Fprintln(cmd.Stderr, "no filenames specified")
 		return nil
 	}
-	exists, err := historyTableExists(cmd.Dialect, cmd.DB, cmd.HistoryTable)
+	exists, err := historyTableExists(context.Background(), cmd.Dialect, cmd.DB, cmd.HistoryTable)
 	if err != nil {
 		return err
 	}
diff --git a/ddl/touch_cmd.go b/ddl/touch_cmd.go
index 5e521ce..89dd81a 100644
--- a/ddl/touch_cmd.go
+++ b/ddl/touch_cmd.go
@@ -119,7 +119,7 @@ func (cmd *TouchCmd) Run() error {
 	cmd.buf.Reset()
 	defer bufpool.Put(cmd.buf)
 
-	err := ensureHistoryTableExists(cmd.Dialect, cmd.DB, cmd.HistoryTable)
+	err := ensureHistoryTableExists(context.Background(), cmd.Dialect, cmd.DB, cmd.HistoryTable)
 	if err != nil {
 		return err
 	}
@@ -191,11 +191,11 @@ func (cmd *TouchCmd) Run() error {
 	return nil
 }
 
-func historyTableExists(dialect string, db *sql.DB, tableName string) (bool, error) {
+func historyTableExists(ctx context.Context, dialect string, db *sql.DB, tableName string) (bool, error) {
 	var exists bool
 	switch dialect {
 	case DialectSQLite:
-		err := db.QueryRow(`SELECT EXISTS`+
+		err := db.QueryRowContext(ctx, `SELECT EXISTS`+
 			` (SELECT 1`+
 			` FROM sqlite_schema`+
 			` WHERE type = 'table'`+
@@ -205,7 +205,7 @@ func historyTableExists(dialect string, db *sql.DB, tableName string) (bool, err
 			return false, err
 		}
 	case DialectPostgres:
-		err := db.QueryRow(`SELECT EXISTS`+
+		err := db.QueryRowContext(ctx, `SELECT EXISTS`+
 			` (SELECT 1`+
 			` FROM pg_class AS tables`+
 			` JOIN pg_namespace AS schemas ON schemas.oid = tables.relnamespace`+
@@ -217,7 +217,7 @@ func historyTableExists(dialect string, db *sql.DB, tableName string) (bool, err
 			return false, err
 		}
 	case DialectMySQL:
-		err := db.QueryRow(`SELECT EXISTS`+
+		err := db.QueryRowContext(ctx, `SELECT EXISTS`+
 			` (SELECT 1`+
 			` FROM information_schema.tables`+
 			` WHERE table_type = 'BASE TABLE'`+
@@ -228,7 +228,7 @@ func historyTableExists(dialect string, db *sql.DB, tableName string) (bool, err
 			return false, err
 		}
 	case DialectSQLServer:
-		err := db.QueryRow(`IF EXISTS`+
+		err := db.QueryRowContext(ctx, `IF EXISTS`+
 			` (SELECT 1`+
 			` FROM sys.tables`+
 			` WHERE SCHEMA_NAME(schema_id) = SCHEMA_NAME()`+
@@ -243,8 +243,8 @@ func historyTableExists(dialect string, db *sql.DB, tableName string) (bool, err
 	return exists, nil
 }
 
-func ensureHistoryTableExists(dialect string, db *sql.DB, historyTable string) error {
-	exists, err := historyTableExists(dialect, db, historyTable)
+func ensureHistoryTableExists(ctx context.Context, dialect string, db *sql.DB, historyTable string) error {
+	exists, err := historyTableExists(ctx, dialect, db, historyTable)
 	if err != nil {
 		return err
 	}
@@ -272,7 +272,7 @@ func ensureHistoryTableExists(dialect string, db *sql.DB, historyTable string) e
 		"\n" +
 		"\n    ," + pkeyDefinition +
 		"\n)"
-	_, err = db.Exec(query)
+	_, err = db.ExecContext(ctx, query)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b0d7de6619b0501d2dae0a54f12f3854f328da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:23 +0000
Subject: [PATCH 23/73] fix: introspect under the context of dump, load, wipe
 and automigrate

---
 ddl/automigrate_cmd.go       |  4 ++--
 ddl/database_introspector.go | 21 +++++++++++++++++++++
 ddl/dump_cmd.go              |  4 ++--
 ddl/generate_cmd.go          |  7 ++++++-
 ddl/load_cmd.go              |  2 +-
 ddl/wipe_cmd.go              |  2 +-
 6 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/ddl/automigrate_cmd.go b/ddl/automigrate_cmd.go
index 528da92..9601d6e 100644
--- a/ddl/automigrate_cmd.go
+++ b/ddl/automigrate_cmd.go
@@ -188,7 +188,7 @@ func (cmd *AutomigrateCmd) Run() error {
 		cmd.Ctx = context.Background()
 	}
 	srcCatalog := &Catalog{}
-	dbi := NewDatabaseIntrospector(cmd.Dialect, cmd.DB)
+	dbi := NewDatabaseIntrospector(cmd.Dialect, contextDB{cmd.Ctx, cmd.DB})
 	dbi.ObjectTypes = []string{"TABLES"}
 	dbi.ExcludeTables = []string{cmd.HistoryTable}
 	err := dbi.WriteCatalog(srcCatalog)
@@ -201,7 +201,7 @@ func (cmd *AutomigrateCmd) Run() error {
 			CurrentSchema: srcCatalog.CurrentSchema,
 		}
 		for _, filename := range cmd.Filenames {
-			err = writeCatalog(cmd.DestCatalog, cmd.DirFS, cmd.HistoryTable, filename)
+			err = writeCatalogContext(cmd.Ctx, cmd.DestCatalog, cmd.DirFS, cmd.HistoryTable, filename)
 			if err != nil {
 				return err
 			}
diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 05a9750..9d166cb 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -1666,3 +1666,24 @@ func mklist(strs []string) string {
 	}
 	return b.String()
 }
+
+// contextDB is a DB where everything runs under one context.
+type contextDB struct {
+	ctx context.Context
+	db  DB
+}
+
+// QueryContext implements the DB interface.
+func (c contextDB) QueryContext(_ context.Context, query string, args ...any) (*sql.Rows, error) {
+	return c.db.QueryContext(c.ctx, query, args...)
+}
+
+// ExecContext implements the DB interface.
+func (c contextDB) ExecContext(_ context.Context, query string, args ...any) (sql.Result, error) {
+	return c.db.ExecContext(c.ctx, query, args...)
+}
+
+// PrepareContext implements the DB interface.
+func (c contextDB) PrepareContext(_ context.Context, query string) (*sql.Stmt, error) {
+	return c.db.PrepareContext(c.ctx, query)
+}
diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index 6f42dc0..df66a7c 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -205,7 +205,7 @@ func (cmd *DumpCmd) Run() error {
 	buf.Reset()
 	defer bufpool.Put(buf)
 
-	dbi := NewDatabaseIntrospector(cmd.Dialect, cmd.DB)
+	dbi := NewDatabaseIntrospector(cmd.Dialect, contextDB{cmd.Ctx, cmd.DB})
 	dbi.Schemas = cmd.Schemas
 	dbi.ExcludeSchemas = cmd.ExcludeSchemas
 	dbi.Tables = cmd.Tables
@@ -225,7 +225,7 @@ func (cmd *DumpCmd) Run() error {
 
 	if !cmd.SchemaOnly {
 		if len(cmd.SubsetQueries) > 0 || len(cmd.ExtendedSubsetQueries) > 0 {
-			subsetter, err := NewInMemorySubsetter(cmd.Dialect, cmd.DB, dbi.Filter)
+			subsetter, err := NewInMemorySubsetter(cmd.Dialect, dbi.DB, dbi.Filter)
 			if err != nil {
 				return err
 			}
diff --git a/ddl/generate_cmd.go b/ddl/generate_cmd.go
index 6c24d5d..f261723 100644
--- a/ddl/generate_cmd.go
+++ b/ddl/generate_cmd.go
@@ -5,6 +5,7 @@ import (
 	"archive/zip"
 	"bytes"
 	"compress/gzip"
+	"context"
 	"database/sql"
 	"encoding/json"
 	"flag"
@@ -324,6 +325,10 @@ func (bf *bufferFile) Close() error {
 }
 
 func writeCatalog(catalog *Catalog, fsys fs.FS, historyTable, s string) error {
+	return writeCatalogContext(context.Background(), catalog, fsys, historyTable, s)
+}
+
+func writeCatalogContext(ctx context.Context, catalog *Catalog, fsys fs.FS, historyTable, s string) error {
 	s = filepath.ToSlash(s)
 	if strings.HasSuffix(s, ".json") {
 		file, err := fsys.Open(s)
@@ -381,7 +386,7 @@ func writeCatalog(catalog *Catalog, fsys fs.FS, historyTable, s string) error {
 		return err
 	}
 	defer db.Close()
-	dbi := NewDatabaseIntrospector(dialect, db)
+	dbi := NewDatabaseIntrospector(dialect, contextDB{ctx, db})
 	dbi.ObjectTypes = []string{"TABLES"}
 	dbi.ExcludeTables = []string{historyTable}
 	catalog.Dialect = dialect
diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index 047f129..a11f387 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -364,7 +364,7 @@ func (cmd *LoadCmd) loadCSV(ctx context.Context, tx *sql.Tx, filename string, r
 		bi.TableSchema, bi.TableName = bi.TableName[:i], bi.TableName[i+1:]
 	}
 	if bi.TableSchema == "" {
-		bi.TableSchema, err = NewDatabaseIntrospector(cmd.Dialect, tx).GetCurrentSchema()
+		bi.TableSchema, err = NewDatabaseIntrospector(cmd.Dialect, contextDB{ctx, tx}).GetCurrentSchema()
 		if err != nil {
 			return err
 		}
diff --git a/ddl/wipe_cmd.go b/ddl/wipe_cmd.go
index 7d71401..64bc583 100644
--- a/ddl/wipe_cmd.go
+++ b/ddl/wipe_cmd.go
@@ -93,7 +93,7 @@ func (cmd *WipeCmd) Run() error {
 	cmd.buf.Reset()
 	defer bufpool.Put(cmd.buf)
 
-	dbi := NewDatabaseIntrospector(cmd.Dialect, cmd.DB)
+	dbi := NewDatabaseIntrospector(cmd.Dialect, contextDB{cmd.Ctx, cmd.DB})
 	currentSchema, err := dbi.GetCurrentSchema()
 	if err != nil {
 		return err
-- 
2.43.0


From c931b36d909c4e5dd66b668644907a9d54d1e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:53:10 +0000
Subject: [PATCH 24/73] fix: exit with a non-zero status for an unknown
 subcommand

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index ca15e53..80d745b 100644
--- a/main.go
+++ b/main.go
@@ -192,6 +192,6 @@ func main() {
 		}
 	default:
 		fmt.Fprintf(os.Stderr, "unrecognized subcommand %q\n", subcmd)
-		return
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 8b478b6ce6e8dd33ce1804e7e7ec9ff3d205c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:02:06 +0000
Subject: [PATCH 25/73] fix: give each parallel zip load worker its own
 connection

The workers shared one connection, so at most one transaction could be open
and the others failed or waited for it.
---
 ddl/load_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/load_cmd.go b/ddl/load_cmd.go
index a11f387..18c5bf0 100644
--- a/ddl/load_cmd.go
+++ b/ddl/load_cmd.go
@@ -655,7 +655,7 @@ func (cmd *LoadCmd) loadZip(conn *sql.Conn, zipName string) error {
 				if err != nil {
 					return err
 				}
-				tx, err := conn.BeginTx(ctx, nil)
+				tx, err := cmd.DB.BeginTx(ctx, nil)
 				if err != nil {
 					contents.Close()
 					return err
-- 
2.43.0


From d1d9e92288f3d15c7249c006d0bb92e560c1a3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:17:21 +0000
Subject: [PATCH 26/73] fix: write the foreign keys of all schemas after all
 other constraints

A dump wrote the foreign keys schema by schema, so one referring to a table of
a later schema came before the key it needs.
---
 ddl/dump_cmd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index df66a7c..a98790a 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -809,6 +809,9 @@ func (cmd *DumpCmd) dumpConstraints(w io.Writer) error {
 				buf.WriteString(";\n")
 			}
 		}
+	}
+	for i := range cmd.catalog.Schemas {
+		schema := &cmd.catalog.Schemas[i]
 		// FOREIGN KEY
 		// Foreign keys are added at the very end in order to avoid problems
 		// with circular references.
-- 
2.43.0


From a570cdac1835e71a83d15afa75ac5aed02440da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:33:52 +0000
Subject: [PATCH 27/73] fix: report scripts recorded as successful without a
 start time as applied in ls

migrate skips a script whose history record says success, whether or not the
record has a start time. ls reported such a script as pending.
---
 ddl/ls_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/ls_cmd.go b/ddl/ls_cmd.go
index 5e614e8..2bd5e7c 100644
--- a/ddl/ls_cmd.go
+++ b/ddl/ls_cmd.go
@@ -195,7 +195,7 @@ func (cmd *LsCmd) Run() error {
 	// The main loop.
 	for _, script := range migrations {
 		status := "[applied]"
-		if !script.valid || !script.startedAt.Valid {
+		if !script.valid || (!script.success && !script.startedAt.Valid) {
 			status = "[pending]"
 		} else if !script.success {
 			status = "[failed]"
-- 
2.43.0


From 14a562cba81d7b2593696b49a977b8c14291b331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:01:50 +0000
Subject: [PATCH 28/73] fix: generate a migration when the only difference is a
 dropped column

---
 ddl/mysql_migration.go     | 1 +
 ddl/postgres_migration.go  | 1 +
 ddl/sqlite_migration.go    | 1 +
 ddl/sqlserver_migration.go | 1 +
 4 files changed, 4 insertions(+)

diff --git a/ddl/mysql_migration.go b/ddl/mysql_migration.go
index cdf9584..9f191ca 100644
--- a/ddl/mysql_migration.go
+++ b/ddl/mysql_migration.go
@@ -256,6 +256,7 @@ func newMySQLMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) mysql
 			}
 			if len(alterTable.dropConstraints) > 0 ||
 				len(alterTable.dropIndexes) > 0 ||
+				len(alterTable.dropColumns) > 0 ||
 				len(alterTable.addColumns) > 0 ||
 				len(alterTable.alterColumns) > 0 ||
 				len(alterTable.createIndexes) > 0 ||
diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 75da68c..b433258 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -353,6 +353,7 @@ func newPostgresMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) po
 			}
 			if len(alterTable.dropConstraints) > 0 ||
 				len(alterTable.dropIndexes) > 0 ||
+				len(alterTable.dropColumns) > 0 ||
 				len(alterTable.addColumns) > 0 ||
 				len(alterTable.alterColumns) > 0 ||
 				len(alterTable.alterConstraints) > 0 ||
diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index 19175b1..318d015 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -218,6 +218,7 @@ func newSQLiteMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) sqli
 		}
 		if len(alterTable.dropConstraints) > 0 ||
 			len(alterTable.dropIndexes) > 0 ||
+			len(alterTable.dropColumns) > 0 ||
 			len(alterTable.addColumns) > 0 ||
 			len(alterTable.alterColumns) > 0 ||
 			len(alterTable.createIndexes) > 0 ||
diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 5d0b1e6..2987692 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -433,6 +433,7 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 
 			if len(alterTable.dropConstraints) > 0 ||
 				len(alterTable.dropIndexes) > 0 ||
+				len(alterTable.dropColumns) > 0 ||
 				len(alterTable.addColumns) > 0 ||
 				len(alterTable.alterColumns) > 0 ||
 				len(alterTable.createIndexes) > 0 ||
-- 
2.43.0


From f1cdc5a5a1ad756c01d7c961c9edb5b294008ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:02:25 +0000
Subject: [PATCH 29/73] fix: add, drop and validate Postgres foreign keys on
 the table they belong to

---
 ddl/postgres_migration.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index b433258..138d84a 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -369,6 +369,15 @@ func newPostgresMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) po
 func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*bytes.Buffer, warnings []string) {
 	const dialect = DialectPostgres
 	n := 0
+	// fkeyTableName returns the name of the table that a foreign key is on:
+	// foreign keys in either direction between two tables share a file.
+	fkeyTableName := func(fkey *Constraint) string {
+		tableName := QuoteIdentifier(dialect, fkey.TableName)
+		if fkey.TableSchema != "" && fkey.TableSchema != m.currentSchema {
+			tableName = QuoteIdentifier(dialect, fkey.TableSchema) + "." + tableName
+		}
+		return tableName
+	}
 
 	// DROP FOREIGN KEY.
 	for _, fkeys := range m.dropFkeys {
@@ -393,6 +402,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
+			tableName = fkeyTableName(fkey)
 			constraintName := QuoteIdentifier(dialect, fkey.ConstraintName)
 			buf.WriteString("ALTER TABLE " + tableName + " DROP CONSTRAINT IF EXISTS " + constraintName + ";\n")
 		}
@@ -745,6 +755,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
+			tableName = fkeyTableName(fkey)
 			buf.WriteString("ALTER TABLE " + tableName + " ADD ")
 			writeConstraintDefinition(dialect, buf, m.currentSchema, fkey)
 			buf.WriteString(";\n")
@@ -774,6 +785,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
+			tableName = fkeyTableName(fkey)
 			buf.WriteString("ALTER TABLE " + tableName + " ADD ")
 			writeConstraintDefinition(dialect, buf, m.currentSchema, fkey)
 			buf.WriteString(" NOT VALID;\n")
@@ -788,6 +800,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
+			tableName = fkeyTableName(fkey)
 			constraintName := QuoteIdentifier(dialect, fkey.ConstraintName)
 			buf.WriteString("ALTER TABLE " + tableName + " VALIDATE CONSTRAINT " + constraintName + ";\n")
 		}
-- 
2.43.0


From 5b639dcf637a3302d848203112eb03951e1b1ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:02:47 +0000
Subject: [PATCH 30/73] fix: drop and recreate an index or constraint once when
 several of its columns are altered in SQL Server

---
 ddl/sqlserver_migration.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 2987692..daf3036 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -404,6 +404,7 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 					}
 					alterTable.dropIndexes = append(alterTable.dropIndexes, index)
 					alterTable.createIndexes = append(alterTable.createIndexes, index)
+					droppedIndex[index] = true
 				}
 				for _, constraint := range columnConstraintDependencies[columnName] {
 					if droppedConstraint[constraint] {
@@ -428,6 +429,7 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 							m.addFkeys = append(m.addFkeys, []*Constraint{constraint})
 						}
 					}
+					droppedConstraint[constraint] = true
 				}
 			}
 
-- 
2.43.0


From f734cc3ad187436fa1ee2154cc99dc013085ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:02:47 +0000
Subject: [PATCH 31/73] fix: keep the foreign keys being added when recreating
 one between the same tables in SQL Server

---
 ddl/sqlserver_migration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index daf3036..028747b 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -424,7 +424,7 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 							m.dropFkeys = append(m.dropFkeys, []*Constraint{constraint})
 						}
 						if ok2 {
-							m.addFkeys[n2] = append(m.addFastFkeys[n2], constraint)
+							m.addFkeys[n2] = append(m.addFkeys[n2], constraint)
 						} else {
 							m.addFkeys = append(m.addFkeys, []*Constraint{constraint})
 						}
-- 
2.43.0


From f7224086c5c0efa94d9231683d03b6045e2ed993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:03:48 +0000
Subject: [PATCH 32/73] fix: keep NOT NULL when changing the type or collation
 of a SQL Server column

---
 ddl/sqlserver_migration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 028747b..c523be7 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -664,7 +664,7 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 			nullability := ""
 			if isPkeyColumn[destColumn.ColumnName] || destColumn.ColumnIdentity != "" {
 				nullability = "NOT NULL"
-			} else if srcColumn.IsNotNull && !destColumn.IsNotNull {
+			} else if srcColumn.IsNotNull && (!destColumn.IsNotNull || alterType || collation != "") {
 				if destColumn.IsNotNull {
 					nullability = "NOT NULL"
 				} else {
-- 
2.43.0


From 70998322d04eeac0fde033b41f52da66c72c2f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:38 +0000
Subject: [PATCH 33/73] fix: leave out ignored indexes when creating or
 rebuilding a table

---
 ddl/mysql_migration.go     | 3 +++
 ddl/postgres_migration.go  | 3 +++
 ddl/sqlite_migration.go    | 6 ++++++
 ddl/sqlserver_migration.go | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/ddl/mysql_migration.go b/ddl/mysql_migration.go
index 9f191ca..5c62ff9 100644
--- a/ddl/mysql_migration.go
+++ b/ddl/mysql_migration.go
@@ -352,6 +352,9 @@ func (m *mysqlMigration) sql(prefix string) (filenames []string, bufs []*bytes.B
 				}
 				writeCreateTable(dialect, buf, m.currentSchema, m.defaultCollation, table, true)
 				for _, index := range table.Indexes {
+					if index.Ignore {
+						continue
+					}
 					if buf.Len() > 0 {
 						buf.WriteString("\n")
 					}
diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 138d84a..09ccfe7 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -454,6 +454,9 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			}
 			writeCreateTable(dialect, buf, m.currentSchema, m.defaultCollation, table, true)
 			for _, index := range table.Indexes {
+				if index.Ignore {
+					continue
+				}
 				if buf.Len() > 0 {
 					buf.WriteString("\n")
 				}
diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index 318d015..24bfc68 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -310,6 +310,9 @@ func (m *sqliteMigration) sql(prefix string) (filenames []string, bufs []*bytes.
 		}
 		writeCreateTable(dialect, buf, currentSchema, defaultCollation, table, true)
 		for _, index := range table.Indexes {
+			if index.Ignore {
+				continue
+			}
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
@@ -430,6 +433,9 @@ func (alterTable *sqliteAlterTable) copyTable(buf *bytes.Buffer) {
 	// CREATE INDEX.
 	for i := range alterTable.destTable.Indexes {
 		destIndex := &alterTable.destTable.Indexes[i]
+		if destIndex.Ignore {
+			continue
+		}
 		if buf.Len() > 0 {
 			buf.WriteString("\n")
 		}
diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index c523be7..b2bc9f7 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -571,6 +571,9 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 			}
 			writeCreateTable(dialect, buf, m.currentSchema, m.defaultCollation, table, true)
 			for _, index := range table.Indexes {
+				if index.Ignore {
+					continue
+				}
 				if buf.Len() > 0 {
 					buf.WriteString("\n")
 				}
-- 
2.43.0


From 180f985a38887ef91d64414afbf0db5ed0218dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:38 +0000
Subject: [PATCH 34/73] fix: leave out ignored columns when copying the rows of
 a SQLite table

---
 ddl/sqlite_migration.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index 24bfc68..0b04b29 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -396,6 +396,9 @@ func (alterTable *sqliteAlterTable) copyTable(buf *bytes.Buffer) {
 	// INSERT INTO "${TableName}_new" SELECT ... FROM "$TableName".
 	isDestColumn := make(map[string]bool)
 	for _, destColumn := range alterTable.destTable.Columns {
+		if destColumn.Ignore {
+			continue
+		}
 		if destColumn.IsGenerated || destColumn.GeneratedExpr != "" {
 			continue
 		}
-- 
2.43.0


From a55d76defb01a98ec9dde6f8817be2970237a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:38 +0000
Subject: [PATCH 35/73] fix: skip ignored SQLite tables when one of the
 catalogs is empty

---
 ddl/sqlite_migration.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index 0b04b29..76d3f5e 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -35,6 +35,9 @@ func newSQLiteMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) sqli
 		if dropObjects {
 			for i := range srcCatalog.Schemas[0].Tables {
 				srcTable := &srcCatalog.Schemas[0].Tables[i]
+				if srcTable.Ignore {
+					continue
+				}
 				if isVirtualTable(srcTable) {
 					continue
 				}
@@ -46,6 +49,9 @@ func newSQLiteMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) sqli
 	if len(srcCatalog.Schemas) == 0 {
 		for i := range destCatalog.Schemas[0].Tables {
 			destTable := &destCatalog.Schemas[0].Tables[i]
+			if destTable.Ignore {
+				continue
+			}
 			if isVirtualTable(destTable) {
 				continue
 			}
-- 
2.43.0


From 8f3049c577aa17a32b6854d0c9c6cd826eaf9d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:14:38 +0000
Subject: [PATCH 36/73] fix: keep ignored objects when dropping a SQL Server
 schema

---
 ddl/sqlserver_migration.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index b2bc9f7..05c064f 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -501,6 +501,9 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 		}
 		// DROP VIEW.
 		for _, view := range schema.Views {
+			if view.Ignore {
+				continue
+			}
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
@@ -508,6 +511,9 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 		}
 		// DROP TABLE.
 		for _, table := range schema.Tables {
+			if table.Ignore {
+				continue
+			}
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
@@ -515,6 +521,9 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 		}
 		// DROP PROCEDURE and DROP FUNCTION.
 		for _, routine := range schema.Routines {
+			if routine.Ignore {
+				continue
+			}
 			if buf.Len() > 0 {
 				buf.WriteString("\n")
 			}
-- 
2.43.0


From 5ef2298ddc675e3b26c310225315deca9d1936bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:20:38 +0000
Subject: [PATCH 37/73] fix: quote the column name when altering a Postgres
 column

---
 ddl/postgres_migration.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 09ccfe7..6fedbe7 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -525,6 +525,7 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 		for _, columns := range alterTable.alterColumns {
 			srcColumn, destColumn := columns[0], columns[1]
 			columnName := destColumn.ColumnName
+			columnName = QuoteIdentifier(dialect, columnName)
 			srcType, srcArg1, srcArg2 := normalizeColumnType(dialect, srcColumn.ColumnType)
 			destType, destArg1, destArg2 := normalizeColumnType(dialect, destColumn.ColumnType)
 			// Do we need to ALTER TYPE?
-- 
2.43.0


From dd392327c11679fb620619d27f78999453628824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:20:38 +0000
Subject: [PATCH 38/73] fix: create unique Postgres indexes concurrently when
 they are given as SQL

---
 ddl/dump_cmd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index a98790a..b007c4b 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -1110,6 +1110,7 @@ func writeCreateIndex(dialect string, buf *bytes.Buffer, currentSchema string, i
 		if createConcurrently && dialect == DialectPostgres {
 			indexName := QuoteIdentifier(dialect, index.IndexName)
 			sql = strings.Replace(sql, "CREATE INDEX "+indexName, "CREATE INDEX CONCURRENTLY "+indexName, 1)
+			sql = strings.Replace(sql, "CREATE UNIQUE INDEX "+indexName, "CREATE UNIQUE INDEX CONCURRENTLY "+indexName, 1)
 		}
 		buf.WriteString(sql + "\n")
 		return
-- 
2.43.0


From 4af8b1187371e009ea188b8edd46410583934dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:20:38 +0000
Subject: [PATCH 39/73] fix: keep a Postgres key deferrable when adding it to
 an existing table

---
 ddl/postgres_migration.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 6fedbe7..bad0422 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -732,7 +732,14 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 			buf = bufpool.Get().(*bytes.Buffer)
 			buf.Reset()
 			bufs = append(bufs, buf)
-			buf.WriteString("ALTER TABLE " + tableName + " ADD CONSTRAINT " + constraintName + " " + addKeyConstraint.ConstraintType + " USING INDEX " + constraintName + ";\n")
+			deferrability := ""
+			if addKeyConstraint.IsDeferrable {
+				deferrability = " DEFERRABLE"
+				if addKeyConstraint.IsInitiallyDeferred {
+					deferrability += " INITIALLY DEFERRED"
+				}
+			}
+			buf.WriteString("ALTER TABLE " + tableName + " ADD CONSTRAINT " + constraintName + " " + addKeyConstraint.ConstraintType + " USING INDEX " + constraintName + deferrability + ";\n")
 		}
 	}
 
-- 
2.43.0


From b6b4371894eebdfdb5ae6956964c35799a80c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:20:38 +0000
Subject: [PATCH 40/73] fix: rename the table in its SQL however it is quoted
 when rebuilding a SQLite table

---
 ddl/sqlite_migration.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ddl/sqlite_migration.go b/ddl/sqlite_migration.go
index 76d3f5e..3df54f5 100644
--- a/ddl/sqlite_migration.go
+++ b/ddl/sqlite_migration.go
@@ -397,6 +397,16 @@ func (alterTable *sqliteAlterTable) copyTable(buf *bytes.Buffer) {
 	tableNew := *alterTable.destTable
 	tableNew.TableName = alterTable.destTable.TableName + "_new"
 	tableNew.SQL = strings.Replace(alterTable.destTable.SQL, "CREATE TABLE "+tableName, "CREATE TABLE "+tableNameNew, 1)
+	if tableNew.SQL == alterTable.destTable.SQL {
+		// The table name may have been quoted differently in the SQL.
+		name := alterTable.destTable.TableName
+		for _, quotedName := range []string{`"` + EscapeQuote(name, '"') + `"`, "`" + EscapeQuote(name, '`') + "`", "[" + name + "]", "'" + EscapeQuote(name, '\'') + "'", name} {
+			if strings.HasPrefix(alterTable.destTable.SQL, "CREATE TABLE "+quotedName) {
+				tableNew.SQL = strings.Replace(alterTable.destTable.SQL, "CREATE TABLE "+quotedName, "CREATE TABLE "+tableNameNew, 1)
+				break
+			}
+		}
+	}
 	writeCreateTable(dialect, buf, currentSchema, defaultCollation, &tableNew, true)
 
 	// INSERT INTO "${TableName}_new" SELECT ... FROM "$TableName".
-- 
2.43.0


From 838eb0fb9c72ea8951e775bbd47e32499f12960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:07 +0000
Subject: [PATCH 41/73] fix: keep the virtual table flag when copying a catalog

---
 ddl/catalog_cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ddl/catalog_cache.go b/ddl/catalog_cache.go
index 8f947c2..3f877b4 100644
--- a/ddl/catalog_cache.go
+++ b/ddl/catalog_cache.go
@@ -888,6 +888,7 @@ func (src *Catalog) WriteCatalog(dest *Catalog) error {
 			destTable.TableSchema = srcTable.TableSchema
 			destTable.TableName = srcTable.TableName
 			destTable.SQL = srcTable.SQL
+			destTable.IsVirtual = srcTable.IsVirtual
 			destTable.Comment = srcTable.Comment
 			destTable.Ignore = srcTable.Ignore
 			for _, srcColumn := range srcTable.Columns {
-- 
2.43.0


From a0240c6e80f3eb9723dd25beebc21d6a92c2e9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:07 +0000
Subject: [PATCH 42/73] fix: don't share view index slices between a catalog
 and its copy

---
 ddl/catalog_cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ddl/catalog_cache.go b/ddl/catalog_cache.go
index 3f877b4..57f7c47 100644
--- a/ddl/catalog_cache.go
+++ b/ddl/catalog_cache.go
@@ -874,6 +874,8 @@ func (src *Catalog) WriteCatalog(dest *Catalog) error {
 				destIndex := cache.GetOrCreateViewIndex(destView, srcIndex.IndexName, srcIndex.Columns)
 				*destIndex = srcIndex
 				destIndex.Columns = cloneSlice(srcIndex.Columns)
+				destIndex.Descending = cloneSlice(srcIndex.Descending)
+				destIndex.Opclasses = cloneSlice(srcIndex.Opclasses)
 				destIndex.IncludeColumns = cloneSlice(srcIndex.IncludeColumns)
 			}
 			for _, srcTrigger := range srcView.Triggers {
-- 
2.43.0


From df09b9634e405d5feae8c19756fa2b0895cd3c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:07 +0000
Subject: [PATCH 43/73] fix: don't merge unnamed constraints of a table when
 copying a catalog

---
 ddl/catalog_cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/catalog_cache.go b/ddl/catalog_cache.go
index 57f7c47..3ccbef2 100644
--- a/ddl/catalog_cache.go
+++ b/ddl/catalog_cache.go
@@ -525,6 +525,9 @@ func (c *CatalogCache) GetOrCreateConstraint(table *Table, constraintName, const
 	case FOREIGN_KEY:
 		c.fkeys[tableID] = append(c.fkeys[tableID], i)
 	}
+	if constraintName == "" { // SQLite constraints will have no name, skip
+		return &table.Constraints[i]
+	}
 	c.constraints[[3]string{table.TableSchema, table.TableName, constraintName}] = i
 	return &table.Constraints[i]
 }
-- 
2.43.0


From 61f51b44ff910e5d7849927d9bc1d0d43c12f67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:48:44 +0000
Subject: [PATCH 44/73] fix: escape every quote of a name or value, also
 doubled ones

---
 ddl/sq.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ddl/sq.go b/ddl/sq.go
index dcfe810..008ec0b 100644
--- a/ddl/sq.go
+++ b/ddl/sq.go
@@ -90,11 +90,7 @@ func EscapeQuote(str string, quote byte) string {
 		b.WriteString(str[:i])
 		b.WriteByte(quote)
 		b.WriteByte(quote)
-		if len(str[i:]) > 2 && str[i] == quote && str[i+1] == quote {
-			str = str[i+2:]
-		} else {
-			str = str[i+1:]
-		}
+		str = str[i+1:]
 		i = strings.IndexByte(str, quote)
 	}
 	b.WriteString(str)
-- 
2.43.0


From 2e85aa50e27a7de4c4052e1ae01b19daaaa323a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:58:03 +0000
Subject: [PATCH 45/73] fix: wipe tells Postgres functions of the same name
 apart

---
 ddl/wipe_cmd.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ddl/wipe_cmd.go b/ddl/wipe_cmd.go
index 64bc583..6e89d27 100644
--- a/ddl/wipe_cmd.go
+++ b/ddl/wipe_cmd.go
@@ -195,6 +195,10 @@ func (cmd *WipeCmd) Run() error {
 				cmd.buf.WriteString(QuoteIdentifier(cmd.Dialect, routine.RoutineSchema) + ".")
 			}
 			cmd.buf.WriteString(QuoteIdentifier(cmd.Dialect, routine.RoutineName))
+			if cmd.Dialect == DialectPostgres {
+				// Several functions may share a name.
+				cmd.buf.WriteString("(" + routine.IdentityArguments + ")")
+			}
 			if cmd.Dialect == DialectPostgres {
 				cmd.buf.WriteString(" CASCADE")
 			}
-- 
2.43.0


From 3d50eca738c411a95cf0b0701b7af98861d54867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:14:32 +0000
Subject: [PATCH 46/73] fix: names with line breaks no longer end the comments
 of a dump

---
 ddl/dump_cmd.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ddl/dump_cmd.go b/ddl/dump_cmd.go
index b007c4b..3636ab7 100644
--- a/ddl/dump_cmd.go
+++ b/ddl/dump_cmd.go
@@ -733,6 +733,11 @@ func (cmd *DumpCmd) dumpSchema(w io.Writer) error {
 	return nil
 }
 
+// oneLine keeps a name from ending the comment it is put into.
+func oneLine(name string) string {
+	return strings.ReplaceAll(strings.ReplaceAll(name, "\n", " "), "\r", " ")
+}
+
 func (cmd *DumpCmd) dumpIndexes(w io.Writer) error {
 	buf, isBuffer := w.(*bytes.Buffer)
 	if !isBuffer {
@@ -749,9 +754,9 @@ func (cmd *DumpCmd) dumpIndexes(w io.Writer) error {
 			}
 			buf.WriteString("-- ")
 			if table.TableSchema != "" && table.TableSchema != cmd.catalog.CurrentSchema {
-				buf.WriteString(table.TableSchema + ".")
+				buf.WriteString(oneLine(table.TableSchema) + ".")
 			}
-			buf.WriteString(table.TableName + "\n")
+			buf.WriteString(oneLine(table.TableName) + "\n")
 			for k := range table.Indexes {
 				index := &table.Indexes[k]
 				writeCreateIndex(cmd.Dialect, buf, cmd.catalog.CurrentSchema, index, false)
@@ -789,9 +794,9 @@ func (cmd *DumpCmd) dumpConstraints(w io.Writer) error {
 			}
 			buf.WriteString("-- ")
 			if table.TableSchema != "" && table.TableSchema != cmd.catalog.CurrentSchema {
-				buf.WriteString(table.TableSchema + ".")
+				buf.WriteString(oneLine(table.TableSchema) + ".")
 			}
-			buf.WriteString(table.TableName + "\n")
+			buf.WriteString(oneLine(table.TableName) + "\n")
 			for k := range table.Constraints {
 				constraint := &table.Constraints[k]
 				if constraint.ConstraintType == PRIMARY_KEY && (cmd.Dialect == DialectMySQL || cmd.Dialect == DialectSQLServer) {
@@ -822,9 +827,9 @@ func (cmd *DumpCmd) dumpConstraints(w io.Writer) error {
 			}
 			buf.WriteString("-- ")
 			if table.TableSchema != "" && table.TableSchema != cmd.catalog.CurrentSchema {
-				buf.WriteString(table.TableSchema + ".")
+				buf.WriteString(oneLine(table.TableSchema) + ".")
 			}
-			buf.WriteString(table.TableName + "\n")
+			buf.WriteString(oneLine(table.TableName) + "\n")
 			fkeys := cmd.cache.GetForeignKeys(table)
 			for _, fkey := range fkeys {
 				tableName := QuoteIdentifier(cmd.Dialect, fkey.TableName)
-- 
2.43.0


From 1fc5ad392a2bc81b6108ad37956a4fc89fa09e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:32:15 +0000
Subject: [PATCH 47/73] fix: recognise stored generated columns of SQLite
 tables

---
 ddl/introspection_scripts/sqlite_columns.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/introspection_scripts/sqlite_columns.sql b/ddl/introspection_scripts/sqlite_columns.sql
index 30ed9e5..87bb7d9 100644
--- a/ddl/introspection_scripts/sqlite_columns.sql
+++ b/ddl/introspection_scripts/sqlite_columns.sql
@@ -3,7 +3,7 @@ SELECT
     ,columns.name AS column_name
     ,columns.type AS column_type
     ,columns."notnull" AS is_notnull
-    ,columns.hidden = 2 AS is_generated
+    ,columns.hidden IN (2, 3) AS is_generated
     ,COALESCE(columns.dflt_value, '') AS column_default
 FROM (
     SELECT
-- 
2.43.0


From 8c8da8a2f6332c8c8fa41f6354fb281f83c3842d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:49:40 +0000
Subject: [PATCH 48/73] fix: generate a valid Postgres statement for a column
 that loses its collation

The destination column has no collation of its own, so the generated
statement ended in COLLATE "", which Postgres refuses. Leaving COLLATE out
gives the column the default collation.
---
 ddl/postgres_migration.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index bad0422..040b314 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -588,7 +588,12 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 					if buf.Len() > 0 {
 						buf.WriteString("\n")
 					}
-					buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " TYPE " + destColumn.ColumnType + ` COLLATE "` + EscapeQuote(destColumn.CollationName, '"') + `"` + ";\n")
+					if destColumn.CollationName == "" {
+						// Without COLLATE the column gets the default collation.
+						buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " TYPE " + destColumn.ColumnType + ";\n")
+					} else {
+						buf.WriteString("ALTER TABLE " + tableName + " ALTER COLUMN " + columnName + " TYPE " + destColumn.ColumnType + ` COLLATE "` + EscapeQuote(destColumn.CollationName, '"') + `"` + ";\n")
+					}
 				}
 			}
 			srcDefault := normalizeColumnDefault(dialect, srcColumn.ColumnDefault)
-- 
2.43.0


From c5d4b8780c440279431e5cbb051750524e690d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:49:40 +0000
Subject: [PATCH 49/73] fix: reset the collation of SQL Server columns that
 lose theirs

The column was found to differ but no statement was generated for it, so it
kept its old collation.
---
 ddl/sqlserver_migration.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 05c064f..74e6c5e 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -672,6 +672,9 @@ func (m *sqlserverMigration) sql(prefix string) (filenames []string, bufs []*byt
 			if destColumn.CollationName != "" && destColumn.CollationName != m.defaultCollation {
 				collation = EscapeQuote(destColumn.CollationName, '[')
 			}
+			if !alterType && collation == "" && srcColumn.CollationName != "" && srcColumn.CollationName != m.defaultCollation {
+				collation = "DATABASE_DEFAULT"
+			}
 			// NULL | NOT NULL
 			nullability := ""
 			if isPkeyColumn[destColumn.ColumnName] || destColumn.ColumnIdentity != "" {
-- 
2.43.0


From c1ace5d729f6d88a06f86755a59664cb4d1c96e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:12 +0000
Subject: [PATCH 50/73] fix: make the domain filters of Postgres a valid query

The conditions on the domain name lacked the AND before them, so looking
for domains with Domains or ExcludeDomains set was a syntax error.
---
 ddl/introspection_scripts/postgres_domains.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddl/introspection_scripts/postgres_domains.sql b/ddl/introspection_scripts/postgres_domains.sql
index b9de9f3..333e289 100644
--- a/ddl/introspection_scripts/postgres_domains.sql
+++ b/ddl/introspection_scripts/postgres_domains.sql
@@ -25,9 +25,9 @@ WHERE
     AND schemas.nspname NOT IN ({{ mklist .ExcludeSchemas }})
     {{- end }}
     {{- if .Domains }}
-    pg_type.typname IN ({{ mklist .Domains }})
+    AND pg_type.typname IN ({{ mklist .Domains }})
     {{- else if .ExcludeDomains }}
-    pg_type.typname NOT IN ({{ mklist .ExcludeDomains }})
+    AND pg_type.typname NOT IN ({{ mklist .ExcludeDomains }})
     {{- end }}
 GROUP BY
     schemas.nspname
-- 
2.43.0


From 79b48759e9cefa447a7a7f74738ae994fc0ca131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:12 +0000
Subject: [PATCH 51/73] fix: refer to the right table in the enum filters of
 Postgres

Looking for enums with Enums or ExcludeEnums set failed because the query
referred to a table that isn't part of it.
---
 ddl/introspection_scripts/postgres_enums.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddl/introspection_scripts/postgres_enums.sql b/ddl/introspection_scripts/postgres_enums.sql
index 9e8e00b..21cabfb 100644
--- a/ddl/introspection_scripts/postgres_enums.sql
+++ b/ddl/introspection_scripts/postgres_enums.sql
@@ -18,9 +18,9 @@ WHERE
     AND schemas.nspname NOT IN ({{ mklist .ExcludeSchemas }})
     {{- end }}
     {{- if .Enums }}
-    AND pg_typ.typname IN ({{ mklist .Enums }})
+    AND pg_type.typname IN ({{ mklist .Enums }})
     {{- else if .ExcludeEnums }}
-    AND pg_typ.typname NOT IN ({{ mklist .ExcludeEnums }})
+    AND pg_type.typname NOT IN ({{ mklist .ExcludeEnums }})
     {{- end }}
 GROUP BY
     schemas.nspname
-- 
2.43.0


From c6abc41b8b20c235922ea22cdd2660b0ec94f017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:12 +0000
Subject: [PATCH 52/73] fix: keep the triggers of SQL Server tables when views
 are filtered

The names of both tables and views were required of every trigger, so the
triggers of tables were left out as soon as Views was set, and those of views
as soon as Tables was. As for indexes, Tables now concerns tables and Views
views.
---
 ddl/introspection_scripts/sqlserver_triggers.sql | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ddl/introspection_scripts/sqlserver_triggers.sql b/ddl/introspection_scripts/sqlserver_triggers.sql
index 810909a..88ee228 100644
--- a/ddl/introspection_scripts/sqlserver_triggers.sql
+++ b/ddl/introspection_scripts/sqlserver_triggers.sql
@@ -20,14 +20,14 @@ WHERE
     AND schemas.name NOT IN ({{ mklist .ExcludeSchemas }})
     {{- end }}
     {{- if .Tables }}
-    AND tables.name IN ({{ mklist .Tables }})
+    AND (tables.type = 'V' OR tables.name IN ({{ mklist .Tables }}))
     {{- else if .ExcludeTables }}
-    AND tables.name NOT IN ({{ mklist .ExcludeTables }})
+    AND (tables.type = 'V' OR tables.name NOT IN ({{ mklist .ExcludeTables }}))
     {{- end }}
     {{- if .Views }}
-    AND tables.name IN ({{ mklist .Views }})
+    AND (tables.type <> 'V' OR tables.name IN ({{ mklist .Views }}))
     {{- else if .ExcludeViews }}
-    AND tables.name NOT IN ({{ mklist .ExcludeViews }})
+    AND (tables.type <> 'V' OR tables.name NOT IN ({{ mklist .ExcludeViews }}))
     {{- end }}
 ORDER BY
     schemas.name
-- 
2.43.0


From 27c4a3ea724d17b2dd32e4b781cd2f0db6936e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:29:12 +0000
Subject: [PATCH 53/73] fix: find MySQL routines without parameters

Procedures without parameters were left out by the join with their
parameters. For functions without parameters the list of parameters was NULL,
which can't be read into a string.
---
 ddl/introspection_scripts/mysql_routines.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddl/introspection_scripts/mysql_routines.sql b/ddl/introspection_scripts/mysql_routines.sql
index 695be11..714c8ec 100644
--- a/ddl/introspection_scripts/mysql_routines.sql
+++ b/ddl/introspection_scripts/mysql_routines.sql
@@ -3,7 +3,7 @@ SELECT
     ,routines.routine_name
     ,routines.routine_type
     ,COALESCE(routines.dtd_identifier, '') AS return_type
-    ,parameters.parameters
+    ,COALESCE(parameters.parameters, '') AS parameters
     ,routines.routine_definition AS `sql`
     ,routines.routine_comment
     ,routines.routine_body
@@ -12,7 +12,7 @@ SELECT
     ,routines.security_type
 FROM
     information_schema.routines
-    JOIN (
+    LEFT JOIN (
         SELECT
             specific_schema
             ,specific_name
-- 
2.43.0


From f125b6351f40f8aa8adcbf5f62d4640e4ea18746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:53 +0000
Subject: [PATCH 54/73] fix: do not panic on a column type with only a closing
 bracket

---
 ddl/ddl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index 8a07751..846643d 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -761,7 +761,7 @@ func normalizeColumnType(dialect string, columnType string) (normalizedType, arg
 	var args, suffix string
 	i := strings.Index(columnType, "(")
 	j := strings.LastIndex(columnType, ")")
-	if j > i {
+	if i >= 0 && j > i {
 		normalizedType = strings.TrimSpace(columnType[:i])
 		args = strings.TrimSpace(columnType[i+1 : j])
 		suffix = strings.TrimSpace(columnType[j+1:])
-- 
2.43.0


From 929d7f033a38ba59dfec38ef261e2b8b89de4f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:53 +0000
Subject: [PATCH 55/73] fix: do not panic when a SQLite query has more ?
 parameters than args

---
 ddl/sq.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/sq.go b/ddl/sq.go
index 008ec0b..c52b9f1 100644
--- a/ddl/sq.go
+++ b/ddl/sq.go
@@ -687,6 +687,9 @@ func lookupParam(dialect string, args []any, paramName []rune, namedIndices map[
 		if paramName[0] != '?' {
 			return "", fmt.Errorf("parameter name missing")
 		}
+		if runningArgsIndex >= len(args) {
+			return "", fmt.Errorf("too few args provided, expected more than %d", runningArgsIndex)
+		}
 		paramValue, err = Sprint(dialect, args[runningArgsIndex])
 		if err != nil {
 			return "", err
-- 
2.43.0


From c7df01ab2bbce5c2c3dcd99a7b0833f19c745cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:53 +0000
Subject: [PATCH 56/73] fix: reject malformed subset queries with an error

Queries without {*} or {tableName}, with the two in the wrong order or ending
in an opening brace made the subsetter panic, as did a primary key column that
is missing from the catalog.
---
 ddl/subsetter.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ddl/subsetter.go b/ddl/subsetter.go
index cd0d5be..33cec7d 100644
--- a/ddl/subsetter.go
+++ b/ddl/subsetter.go
@@ -104,7 +104,7 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 	var result queryResult
 	str := query
 	for i := strings.IndexByte(str, OPEN_BRACE); i >= 0; i = strings.IndexByte(str, OPEN_BRACE) {
-		if i+1 <= len(str) && str[i+1] == OPEN_BRACE {
+		if i+1 < len(str) && str[i+1] == OPEN_BRACE {
 			str = str[i+2:]
 			continue
 		}
@@ -129,6 +129,15 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 		tableEnd = tableStart + j + 1
 		str = str[j+1:]
 	}
+	if starStart < 0 {
+		return fmt.Errorf("no {*} found")
+	}
+	if tableStart < 0 {
+		return fmt.Errorf("no {tableName} found")
+	}
+	if starStart > tableStart {
+		return fmt.Errorf("{*} must come before {tableName}")
+	}
 	var tableSchema string
 	tableName := query[tableStart+1 : tableEnd-1]
 	if i := strings.Index(tableName, "."); i >= 0 {
@@ -156,6 +165,9 @@ func (ss *Subsetter) subset(query string, extended bool) error {
 			b.WriteString(", ")
 		}
 		column := ss.cache.GetColumn(baseTable, columnName)
+		if column == nil {
+			return fmt.Errorf("no column found for %s in table %q", columnName, tableName)
+		}
 		if baseTable.TableSchema != "" {
 			b.WriteString(QuoteIdentifier(ss.dialect, baseTable.TableSchema) + ".")
 		}
-- 
2.43.0


From 10530b5af02f9dd75b633a97e186ba37694b7a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:53 +0000
Subject: [PATCH 57/73] fix: do not panic on a constraint whose column is not
 in the catalog

---
 ddl/database_introspector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 9d166cb..a88f7fb 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -246,6 +246,9 @@ func (dbi *DatabaseIntrospector) WriteCatalog(catalog *Catalog) error {
 					continue
 				}
 				column := cache.GetColumn(&table, constraint.Columns[0])
+				if column == nil {
+					continue
+				}
 				switch constraint.ConstraintType {
 				case PRIMARY_KEY:
 					column.IsPrimaryKey = true
-- 
2.43.0


From 184ae16c740ca3d60eebab02dd7101ad5ee48a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:51:53 +0000
Subject: [PATCH 58/73] fix: accept MySQL versions with a suffix

A version like "8.0.32-0ubuntu0.22.04.2" or "8.0.33-log" could not be
converted to numbers, so nothing worked with such a server.
---
 ddl/database_introspector.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index a88f7fb..6547a05 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -321,6 +321,8 @@ func (dbi *DatabaseIntrospector) GetVersionNums() (versionNums VersionNums, err
 			// Example: "10.11.2-MariaDB-1:10.11.2+maria~ubu2204"
 			version, _, _ = strings.Cut(version, "-")
 		}
+		// Example: "8.0.32-0ubuntu0.22.04.2"
+		version, _, _ = strings.Cut(version, "-")
 	}
 	strs := strings.Split(version, ".")
 	versionNums = make([]int, len(strs))
-- 
2.43.0


From b43197b4f3f74efa0c002671a48f373c02a3b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:52:40 +0000
Subject: [PATCH 59/73] fix: do not panic on a foreign key that names no
 columns

In SQLite a foreign key may refer to the primary key of a table without naming
its columns. Reading the schema of a database with such a key made every
command panic.
---
 ddl/database_introspector.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index 6547a05..e1e07f2 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -257,7 +257,9 @@ func (dbi *DatabaseIntrospector) WriteCatalog(catalog *Catalog) error {
 				case FOREIGN_KEY:
 					column.ReferencesSchema = constraint.ReferencesSchema
 					column.ReferencesTable = constraint.ReferencesTable
-					column.ReferencesColumn = constraint.ReferencesColumns[0]
+					if len(constraint.ReferencesColumns) > 0 {
+						column.ReferencesColumn = constraint.ReferencesColumns[0]
+					}
 					column.UpdateRule = constraint.UpdateRule
 					column.DeleteRule = constraint.DeleteRule
 					column.IsDeferrable = constraint.IsDeferrable
-- 
2.43.0


From 2bb0c2f241177366dd37dfdf0f9df12027a3a465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:53:29 +0000
Subject: [PATCH 60/73] fix: resolve SQLite foreign keys that name no columns

Such a key refers to the primary key of the other table. Its referenced
columns were left empty, so generated and dumped statements contained an empty
column list.
---
 ddl/database_introspector.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/ddl/database_introspector.go b/ddl/database_introspector.go
index e1e07f2..0a4fc8a 100644
--- a/ddl/database_introspector.go
+++ b/ddl/database_introspector.go
@@ -237,6 +237,29 @@ func (dbi *DatabaseIntrospector) WriteCatalog(catalog *Catalog) error {
 		}
 	}
 
+	// A foreign key that names no columns refers to the primary key (SQLite).
+	for _, schema := range catalog.Schemas {
+		for _, table := range schema.Tables {
+			for i := range table.Constraints {
+				constraint := &table.Constraints[i]
+				if constraint.ConstraintType != FOREIGN_KEY || len(constraint.ReferencesColumns) > 0 {
+					continue
+				}
+				referencesSchema := cache.GetSchema(catalog, constraint.ReferencesSchema)
+				if referencesSchema == nil {
+					continue
+				}
+				referencesTable := cache.GetTable(referencesSchema, constraint.ReferencesTable)
+				if referencesTable == nil {
+					continue
+				}
+				if pkey := cache.GetPrimaryKey(referencesTable); pkey != nil {
+					constraint.ReferencesColumns = append([]string(nil), pkey.Columns...)
+				}
+			}
+		}
+	}
+
 	// Set IsPrimaryKey and IsUnique fields for each primary key or unique
 	// column.
 	for _, schema := range catalog.Schemas {
-- 
2.43.0


From 55ba88b44dcef3668501dab9bf40a9a71224f3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:44:11 +0000
Subject: [PATCH 61/73] fix: negative Batchsize makes BatchInsert panic

The argument slice was allocated from the configured batch size instead of
the effective one, so a negative value panicked in make.
---
 ddl/batch_insert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/batch_insert.go b/ddl/batch_insert.go
index c01acc7..08281e6 100644
--- a/ddl/batch_insert.go
+++ b/ddl/batch_insert.go
@@ -316,7 +316,7 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 
 	// insert values using insertStmt (and updateStmt), batch by batch
 	var batchcounter int
-	args := make([]any, 0, bi.Batchsize*len(bi.Columns))
+	args := make([]any, 0, batchsize*len(bi.Columns))
 	rowvalue := make([]any, len(bi.Columns))
 	for {
 		err = next(rowvalue)
-- 
2.43.0


From bee0dfb8f9bf2e86da2f51291abe6e25ae52c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:44:11 +0000
Subject: [PATCH 62/73] fix: sequences of identity columns with quoted names
 are not reset

pg_get_serial_sequence takes the column name literally, so passing the
quoted identifier failed for columns whose names need quoting.
---
 ddl/batch_insert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/batch_insert.go b/ddl/batch_insert.go
index 08281e6..c7385af 100644
--- a/ddl/batch_insert.go
+++ b/ddl/batch_insert.go
@@ -414,7 +414,7 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 			columnName := QuoteIdentifier(bi.Dialect, column)
 			_, err = db.ExecContext(ctx,
 				"SELECT setval(pg_get_serial_sequence($1, $2), MAX("+columnName+")) FROM "+tableName,
-				tableName, columnName,
+				tableName, column,
 			)
 			if err != nil {
 				return rowsAffected, err
-- 
2.43.0


From 27d961e884b906cd26ba6ce890d4a881cabadd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:44:11 +0000
Subject: [PATCH 63/73] fix: BatchInsert sends an UPDATE without assignments on
 SQL Server

If the only columns beside the keys are identity columns there is nothing
to update, and the statement had an empty SET list.
---
 ddl/batch_insert.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ddl/batch_insert.go b/ddl/batch_insert.go
index c7385af..61a68eb 100644
--- a/ddl/batch_insert.go
+++ b/ddl/batch_insert.go
@@ -274,7 +274,14 @@ func (bi *BatchInsert) ExecContext(ctx context.Context, db DB, next func([]any)
 	// updateStart, updateEnd (SQLServer only)
 	var updateStart, updateEnd string
 	var updateStmt *sql.Stmt
-	if len(keyColumns) > 0 && len(nonKeyColumns) > 0 && bi.Dialect == DialectSQLServer {
+	// identity columns cannot be updated
+	hasUpdateColumn := false
+	for _, column := range nonKeyColumns {
+		if _, ok := isIdentityColumn[column]; !ok {
+			hasUpdateColumn = true
+		}
+	}
+	if len(keyColumns) > 0 && hasUpdateColumn && bi.Dialect == DialectSQLServer {
 		buf.Reset()
 		buf.WriteString("UPDATE " + tableName + " WITH (UPDLOCK, SERIALIZABLE) SET ")
 		written := false
-- 
2.43.0


From 4ce7a8ea16b2bc98a40d8b9f2289e236c2175a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:44:53 +0000
Subject: [PATCH 64/73] fix: only the first of several fields declared together
 becomes a column

A declaration like "A, B sq.NumberField" in a table struct silently lost
column b.
---
 ddl/struct_parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ddl/struct_parser.go b/ddl/struct_parser.go
index a0a5e42..2c49ef9 100644
--- a/ddl/struct_parser.go
+++ b/ddl/struct_parser.go
@@ -125,6 +125,11 @@ func (p *StructParser) VisitStruct(node ast.Node) {
 			}
 		}
 		tableStruct.Fields = append(tableStruct.Fields, structField)
+		// Several fields may share a declaration e.g. A, B sq.NumberField.
+		for j := 1; j < len(astField.Names); j++ {
+			structField.Name = astField.Names[j].Name
+			tableStruct.Fields = append(tableStruct.Fields, structField)
+		}
 	}
 	p.TableStructs = append(p.TableStructs, tableStruct)
 }
-- 
2.43.0


From 83b08f321ab3df3cfcb6e520b0ef8c612bf36e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:44:53 +0000
Subject: [PATCH 65/73] fix: foreignkey modifier without references makes the
 struct parser panic

If a single-column foreignkey had submodifiers but none of them was
references, the missing referenced column was indexed.
---
 ddl/struct_parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ddl/struct_parser.go b/ddl/struct_parser.go
index 2c49ef9..85e0faa 100644
--- a/ddl/struct_parser.go
+++ b/ddl/struct_parser.go
@@ -315,6 +315,11 @@ func (p *StructParser) WriteCatalog(catalog *Catalog) error {
 			case UNIQUE:
 				column.IsUnique = true
 			case FOREIGN_KEY:
+				if len(constraint.ReferencesColumns) == 0 {
+					loc := p.locations[[2]string{table.TableSchema, constraint.ConstraintName}]
+					p.report(loc, "no referenced column(s) provided")
+					continue
+				}
 				column.ReferencesSchema = constraint.ReferencesSchema
 				column.ReferencesTable = constraint.ReferencesTable
 				column.ReferencesColumn = constraint.ReferencesColumns[0]
-- 
2.43.0


From b26f92c7511b81cb948cd9c0998c0619ef3032ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:44:53 +0000
Subject: [PATCH 66/73] fix: deferrable primary keys and unique constraints on
 SQLite

SQLite only knows deferrable foreign keys, so CREATE TABLE failed with a
syntax error. The submodifiers are documented to be ignored there.
---
 ddl/struct_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ddl/struct_parser.go b/ddl/struct_parser.go
index 85e0faa..b3c3f82 100644
--- a/ddl/struct_parser.go
+++ b/ddl/struct_parser.go
@@ -491,6 +491,10 @@ func (p *StructParser) parsePrimaryKeyUniqueModifier(table *Table, columnNames [
 			p.report(loc, "unknown modifier "+strconv.Quote(submodifier.Name))
 		}
 	}
+	// SQLite rejects DEFERRABLE on anything other than foreign keys.
+	if p.dialect == DialectSQLite {
+		constraint.IsDeferrable, constraint.IsInitiallyDeferred = false, false
+	}
 }
 
 func (p *StructParser) parseForeignKeyModifier(table *Table, loc location, m *Modifier) {
-- 
2.43.0


From 8c13bbe71469dacd074e29d33abc2e04b35f9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:45:05 +0000
Subject: [PATCH 67/73] fix: keep the type of TIMESTAMP columns in table
 structs

The tables command left out the type of TIMESTAMP columns on SQLite and
MySQL. Time fields without a type are DATETIME there, so the structs
declared another column.
---
 ddl/table_structs.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index a4d4a62..4b4b59e 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -247,6 +247,8 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 					}
 				case "sq.TimeField":
 					switch catalog.Dialect {
+					case DialectSQLite, DialectMySQL:
+						defaultColumnType = "" // always spelt out
 					case DialectPostgres:
 						defaultColumnType = "TIMESTAMPTZ"
 					case DialectSQLServer:
-- 
2.43.0


From 414407a3281fb7088e752d92332bb83a50666ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:45:05 +0000
Subject: [PATCH 68/73] fix: keep the type of INT primary keys in SQLite table
 structs

A primary key without a type is INTEGER on SQLite, an alias of the rowid.
The tables command left out the type of INT primary keys, so the structs
declared another column.
---
 ddl/table_structs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index 4b4b59e..cee4c13 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -236,6 +236,10 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 					}
 				case "sq.NumberField":
 					defaultColumnType = "INT"
+					// A single SQLite primary key is INTEGER unless it has a type.
+					if catalog.Dialect == DialectSQLite && primarykeyModifier != nil && primarykeyModifier.Value == column.ColumnName {
+						defaultColumnType = "INTEGER"
+					}
 				case "sq.StringField":
 					switch catalog.Dialect {
 					case DialectSQLite, DialectPostgres:
-- 
2.43.0


From 4da76f19debb493a0d868542fe8b62ed1fee9ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:45:05 +0000
Subject: [PATCH 69/73] fix: write the column of references to tables in other
 schemas

The tables command left out the referenced column when it has the name of
the referencing one. Together with a schema the result was read as a table
and a column, which do not exist.
---
 ddl/table_structs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index cee4c13..b7e47a4 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -126,6 +126,9 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 							break
 						}
 					}
+					if constraint.ReferencesSchema != "" && constraint.ReferencesSchema != catalog.CurrentSchema {
+						columnsEqual = false // <schema>.<table> would be read as <table>.<column>
+					}
 					if !columnsEqual {
 						buf.WriteString("." + strings.Join(constraint.ReferencesColumns, ","))
 					}
-- 
2.43.0


From 96a7cf949b08e27207691d397e57ba9a280203be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:45:05 +0000
Subject: [PATCH 70/73] fix: leave ignored tables and views out of structs

Columns, constraints and indexes that are marked ignored were left out,
but tables, views and schemas were not.
---
 ddl/table_structs.go | 6 ++++++
 ddl/view_structs.go  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/ddl/table_structs.go b/ddl/table_structs.go
index b7e47a4..ddd7b70 100644
--- a/ddl/table_structs.go
+++ b/ddl/table_structs.go
@@ -70,7 +70,13 @@ func (s *TableStructs) ReadCatalog(catalog *Catalog) error {
 	buf.Reset()
 	defer bufpool.Put(buf)
 	for _, schema := range catalog.Schemas {
+		if schema.Ignore {
+			continue
+		}
 		for _, table := range schema.Tables {
+			if table.Ignore {
+				continue
+			}
 			tableStruct := TableStruct{
 				Name:   strings.ToUpper(strings.ReplaceAll(table.TableName, " ", "_")),
 				Fields: make([]StructField, 0, len(table.Columns)+1),
diff --git a/ddl/view_structs.go b/ddl/view_structs.go
index 86fb9dc..9ac606d 100644
--- a/ddl/view_structs.go
+++ b/ddl/view_structs.go
@@ -42,7 +42,13 @@ func NewViewStructs(dialect string, db *sql.DB, filter Filter) (ViewStructs, err
 // ReadCatalog reads from a catalog and populates the ViewStructs accordingly.
 func (s *ViewStructs) ReadCatalog(catalog *Catalog) error {
 	for _, schema := range catalog.Schemas {
+		if schema.Ignore {
+			continue
+		}
 		for _, view := range schema.Views {
+			if view.Ignore {
+				continue
+			}
 			viewStruct := ViewStruct{
 				Name:   strings.ToUpper(strings.ReplaceAll(view.ViewName, " ", "_")),
 				Fields: make([]StructField, 0, len(view.Columns)+1),
-- 
2.43.0


From cc2ef7f0b0fe7f3259a932ea5890c62c9c77bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:45:05 +0000
Subject: [PATCH 71/73] fix: only unwrap brackets that belong together

The brackets of defaults like (1) + (2) were taken for a pair, so the
tables command and the introspection of SQL Server defaults cut them into
1) + (2, and migrations did not wrap them.
---
 ddl/ddl.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ddl/ddl.go b/ddl/ddl.go
index 846643d..f23d248 100644
--- a/ddl/ddl.go
+++ b/ddl/ddl.go
@@ -643,6 +643,9 @@ func wrapBrackets(s string) string {
 	if s == "" {
 		return ""
 	}
+	if unwrapBrackets(s) == s {
+		return "(" + s + ")"
+	}
 	if s[0] == '(' && s[len(s)-1] == ')' {
 		return s
 	}
@@ -654,6 +657,19 @@ func unwrapBrackets(s string) string {
 		return ""
 	}
 	last := len(s) - 1
+	level, insideString := 0, false
+	for i := 0; i < last && s[0] == '('; i++ {
+		if s[i] == '\'' {
+			insideString = !insideString
+		} else if s[i] == '(' && !insideString {
+			level++
+		} else if s[i] == ')' && !insideString {
+			level--
+		}
+		if level == 0 {
+			return s // the first bracket is closed before the end
+		}
+	}
 	if s[0] == '(' && s[last] == ')' {
 		return s[1:last]
 	}
@@ -661,6 +677,9 @@ func unwrapBrackets(s string) string {
 }
 
 func wrappedInBrackets(s string) bool {
+	if unwrapBrackets(s) == s {
+		return false
+	}
 	return s != "" && s[0] == '(' && s[len(s)-1] == ')'
 }
 
-- 
2.43.0


From ef9911dd9d3db0108ecb9ee7121ca0554bc5d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:58:53 +0000
Subject: [PATCH 72/73] fix: name the table in SQL Server identity warnings

The warning for a table outside the current schema only named the schema.
---
 ddl/sqlserver_migration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddl/sqlserver_migration.go b/ddl/sqlserver_migration.go
index 74e6c5e..22f3bdc 100644
--- a/ddl/sqlserver_migration.go
+++ b/ddl/sqlserver_migration.go
@@ -284,7 +284,7 @@ func newSQLServerMigration(srcCatalog, destCatalog *Catalog, dropObjects bool) s
 				if srcColumn.ColumnIdentity == "" && destColumn.ColumnIdentity != "" {
 					tableName := QuoteIdentifier(dialect, destTable.TableName)
 					if destSchema.SchemaName != "" && destSchema.SchemaName != m.currentSchema {
-						tableName = QuoteIdentifier(dialect, destSchema.SchemaName) + "."
+						tableName = QuoteIdentifier(dialect, destSchema.SchemaName) + "." + tableName
 					}
 					columnName := QuoteIdentifier(dialect, destColumn.ColumnName)
 					m.warnings = append(m.warnings, fmt.Sprintf("%s: column %s: identity cannot be added to an existing column, skipping", tableName, columnName))
-- 
2.43.0


From 3b1aae39ff16cdc8769e55f96a4c0aea171e26bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:58:53 +0000
Subject: [PATCH 73/73] fix: warn when a Postgres column gets a limit or loses
 its scale

VARCHAR to VARCHAR(n), NUMERIC to NUMERIC(n) and NUMERIC(n,m) to NUMERIC(n)
rewrite the table and can lose data or fail, but no warning was given.
---
 ddl/postgres_migration.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ddl/postgres_migration.go b/ddl/postgres_migration.go
index 040b314..1447b92 100644
--- a/ddl/postgres_migration.go
+++ b/ddl/postgres_migration.go
@@ -552,6 +552,9 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 					if srcLimit > 0 && destLimit > 0 && destLimit < srcLimit {
 						warnings = append(warnings, fmt.Sprintf("%s: column %q decreasing limit from %q to %q is unsafe", tableName, columnName, srcColumn.ColumnType, destColumn.ColumnType))
 					}
+					if srcLimit == 0 && destLimit > 0 {
+						warnings = append(warnings, fmt.Sprintf("%s: column %q adding limit from %q to %q is unsafe", tableName, columnName, srcColumn.ColumnType, destColumn.ColumnType))
+					}
 				case [2]string{"NUMERIC", "NUMERIC"}:
 					srcScale, _ := strconv.Atoi(srcArg2)
 					destScale, _ := strconv.Atoi(destArg2)
@@ -563,6 +566,10 @@ func (m *postgresMigration) sql(prefix string) (filenames []string, bufs []*byte
 					if srcPrecision > 0 && destPrecision > 0 && destPrecision < srcPrecision {
 						warnings = append(warnings, fmt.Sprintf("%s: column %q decreasing precision from %q to %q is unsafe", tableName, columnName, srcColumn.ColumnType, destColumn.ColumnType))
 					}
+					if destPrecision > 0 && destScale == 0 && (srcPrecision == 0 || srcScale != 0) {
+						// NUMERIC(5) has scale 0, NUMERIC has any scale.
+						warnings = append(warnings, fmt.Sprintf("%s: column %q dropping scale from %q to %q is unsafe", tableName, columnName, srcColumn.ColumnType, destColumn.ColumnType))
+					}
 				default:
 					warnings = append(warnings, fmt.Sprintf("%s: column %q changing type from %q to %q may be unsafe", tableName, columnName, srcColumn.ColumnType, destColumn.ColumnType))
 				}
-- 
2.43.0

