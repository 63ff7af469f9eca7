package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"sqverif/internal/absint"
)

// genScene is a pair of catalogs a migration is generated between.
type genScene struct {
	name      string
	only      string // dialects it is for; all if empty
	src, dest func(d string) rec
}

func (s genScene) for_(d string) bool { return s.only == "" || strings.Contains(s.only, d) }

func one(tables ...any) func(string) rec {
	return func(string) rec { return sceneOf("", schemaOf("", tables...)) }
}

// coll is one with a default collation.
func coll(tables ...any) func(string) rec {
	return func(d string) rec { return also(one(tables...)(d), rec{"DefaultCollation": "cd"}) }
}

func (r rec) notNull() rec             { return also(r, rec{"IsNotNull": true}) }
func (r rec) def(x string) rec         { return also(r, rec{"ColumnDefault": x}) }
func (r rec) with(f string, v any) rec { return also(r, rec{f: v}) }

func tab(name string, parts ...rec) rec { return tableOf("", name, parts...) }

var genScenes = []genScene{
	{"nothing to do", "", one(fullTable("t1"), tab("t2", colOf("x", "INT"), fkOf("t2_fk", "x", "", "t1", "a"))),
		one(fullTable("t1"), tab("t2", colOf("x", "INT"), fkOf("t2_fk", "x", "", "t1", "a")))},
	{"from nothing", "", func(string) rec { return sceneOf("") },
		one(fullTable("t1"), tab("t2", colOf("x", "INT"), fkOf("t2_fk", "x", "", "t1", "a").with("DeleteRule", "CASCADE").with("UpdateRule", "SET NULL")))},
	{"to nothing", "", one(fullTable("t1"), tab("t2", colOf("x", "INT"), fkOf("t2_fk", "x", "", "t1", "a"))), one()},
	{"new tables that refer to each other", "", one(tab("t0", colOf("a", "INT"), pkOf("t0_pk", "a"))),
		one(tab("t0", colOf("a", "INT"), pkOf("t0_pk", "a")),
			tab("t1", colOf("a", "INT"), colOf("b", "INT"), pkOf("t1_pk", "a"), fkOf("t1_fk", "b", "", "t2", "a"), fkOf("t1_fk0", "b", "", "t0", "a")),
			tab("t2", colOf("a", "INT"), colOf("b", "INT"), pkOf("t2_pk", "a"), fkOf("t2_fk", "b", "", "t1", "a"), fkOf("t2_self", "b", "", "t2", "a")))},
	{"dropped tables that refer to each other and are referred to", "",
		one(tab("t0", colOf("a", "INT"), colOf("b", "INT"), pkOf("t0_pk", "a"), fkOf("t0_fk", "b", "", "t1", "a")),
			tab("t1", colOf("a", "INT"), colOf("b", "INT"), pkOf("t1_pk", "a"), fkOf("t1_fk", "b", "", "t2", "a"), fkOf("t1_fk0", "b", "", "t0", "a")),
			tab("t2", colOf("a", "INT"), colOf("b", "INT"), pkOf("t2_pk", "a"), fkOf("t2_fk", "b", "", "t1", "a"), fkOf("t2_self", "b", "", "t2", "a"))),
		one(tab("t0", colOf("a", "INT"), colOf("b", "INT"), pkOf("t0_pk", "a")))},
	{"one column more", "", one(tab("t1", colOf("a", "INT"))), one(tab("t1", colOf("a", "INT"), colOf("b", "INT").def("5"), colOf("c", "INT")))},
	{"one column less", "", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"))), one(tab("t1", colOf("a", "INT")))},
	{"one indexed column less", "", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), idxOf("t1_i", "b"))), one(tab("t1", colOf("a", "INT")))},
	{"columns more and less", "", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), colOf("c", "INT"))), one(tab("t1", colOf("a", "INT"), colOf("d", "INT")))},
	{"one index more", "", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"))), one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), idxOf("t1_i", "b", "a")))},
	{"one index less", "", one(tab("t1", colOf("a", "INT"), idxOf("t1_i", "a"))), one(tab("t1", colOf("a", "INT")))},
	{"kinds of indexes", "", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"))),
		one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), idxOf("t1_u", "a").with("IsUnique", true), idxOf("t1_d", "a", "b").with("Descending", list{true, false}), idxOf("t1_e", "a", "b").with("Descending", list{false, true})),
			tab("t2", colOf("a", "INT"), colOf("b", "INT"), idxOf("t2_u", "a").with("IsUnique", true), idxOf("t2_d", "a", "b").with("Descending", list{false, true})))},
	{"partial and covering indexes", "postgres sqlserver", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"))),
		one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), idxOf("t1_p", "a").with("Predicate", "b > 5"), idxOf("t1_c", "a").with("IncludeColumns", list{"b"}), idxOf("t1_pc", "a").with("Predicate", "b > 5").with("IncludeColumns", list{"b"}).with("IsUnique", true)),
			tab("t2", colOf("a", "INT"), colOf("b", "INT"), idxOf("t2_p", "a").with("Predicate", "b > 5"), idxOf("t2_c", "a").with("IncludeColumns", list{"b"})))},
	{"partial indexes", "sqlite", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"))),
		one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), idxOf("t1_p", "a").with("Predicate", "b > 5")), tab("t2", colOf("a", "INT"), colOf("b", "INT"), idxOf("t2_p", "a").with("Predicate", "b > 5")))},
	{"index methods", "postgres", one(tab("t1", colOf("a", "INT"))), one(tab("t1", colOf("a", "INT"), idxOf("t1_h", "a").with("IndexType", "HASH"), idxOf("t1_b", "a").with("IndexType", "BTREE")))},
	{"index methods", "mysql", one(tab("t1", colOf("a", "TEXT"))), one(tab("t1", colOf("a", "TEXT"), idxOf("t1_f", "a").with("IndexType", "FULLTEXT"), idxOf("t1_b", "a").with("IndexType", "BTREE")),
		tab("t2", colOf("a", "TEXT"), idxOf("t2_f", "a").with("IndexType", "FULLTEXT")))},
	{"constraints more", "postgres mysql sqlserver", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"))),
		one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), pkOf("t1_pk", "a", "b"), uniqOf("t1_u", "b", "a"), uniqOf("t1_u2", "b")))},
	{"constraints less", "postgres mysql sqlserver", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), pkOf("t1_pk", "a", "b"), uniqOf("t1_u", "b", "a"), uniqOf("t1_u2", "b"))),
		one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), uniqOf("t1_u2", "b")))},
	{"one unique constraint less", "", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), pkOf("t1_pk", "a"), uniqOf("t1_u", "b"))), one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), pkOf("t1_pk", "a")))},
	{"another primary key", "", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), pkOf("t1_pk", "a"), uniqOf("t1_u", "b"))),
		one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), pkOf("t1_pk2", "b"), uniqOf("t1_u", "b")))},
	{"one foreign key more", "", one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a")), tab("t2", colOf("x", "INT"))),
		one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a")), tab("t2", colOf("x", "INT"), fkOf("t2_fk", "x", "", "t1", "a").with("DeleteRule", "CASCADE").with("UpdateRule", "NO ACTION")))},
	{"one foreign key less", "", one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a")), tab("t2", colOf("x", "INT"), fkOf("t2_fk", "x", "", "t1", "a"))),
		one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a")), tab("t2", colOf("x", "INT")))},
	{"foreign keys both ways more", "", one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a")), tab("t2", colOf("a", "INT"), pkOf("t2_pk", "a"))),
		one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a"), fkOf("t1_fk", "a", "", "t2", "a")), tab("t2", colOf("a", "INT"), pkOf("t2_pk", "a"), fkOf("t2_fk", "a", "", "t1", "a"), fkOf("t2_fk2", "a", "", "t1", "a")))},
	{"foreign keys both ways on new columns", "postgres mysql sqlserver", one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a")), tab("t2", colOf("a", "INT"), pkOf("t2_pk", "a"))),
		one(tab("t1", colOf("a", "INT"), colOf("n", "INT"), pkOf("t1_pk", "a"), fkOf("t1_fk", "n", "", "t2", "a")), tab("t2", colOf("a", "INT"), colOf("n", "INT"), pkOf("t2_pk", "a"), fkOf("t2_fk", "n", "", "t1", "a"), fkOf("t2_fk2", "n", "", "t1", "a")))},
	{"foreign keys both ways less", "", one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a"), fkOf("t1_fk", "a", "", "t2", "a")), tab("t2", colOf("a", "INT"), pkOf("t2_pk", "a"), fkOf("t2_fk", "a", "", "t1", "a"), fkOf("t2_fk2", "a", "", "t1", "a"))),
		one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a")), tab("t2", colOf("a", "INT"), pkOf("t2_pk", "a")))},
	{"existing table refers to a new one and back", "", one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a"))),
		one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a"), fkOf("t1_fk", "a", "", "t2", "a")), tab("t2", colOf("a", "INT"), pkOf("t2_pk", "a"), fkOf("t2_fk", "a", "", "t1", "a")))},
	{"foreign key on a new column", "postgres mysql sqlserver", one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a")), tab("t2", colOf("x", "INT"))),
		one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a")), tab("t2", colOf("x", "INT"), colOf("y", "INT"), fkOf("t2_fk", "y", "", "t1", "a"), fkOf("t2_fkx", "x", "", "t1", "a")))},
	{"foreign key on a new column", "sqlite", one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a")), tab("t2", colOf("x", "INT"))),
		one(tab("t1", colOf("a", "INT"), pkOf("t1_pk", "a")), tab("t2", colOf("x", "INT"), colOf("y", "INT"), fkOf("t2_fk", "y", "", "t1", "a")))},
	{"constraints on new columns", "postgres mysql sqlserver", one(tab("t1", colOf("a", "INT"))),
		one(tab("t1", colOf("a", "INT"), colOf("b", "INT").notNull(), pkOf("t1_pk", "b"), uniqOf("t1_u", "a", "b"), idxOf("t1_i", "b")))},
	{"not null dropped", "", one(tab("t1", colOf("a", "INT"), colOf("b", "INT").notNull())), one(tab("t1", colOf("a", "INT"), colOf("b", "INT")))},
	{"not null set", "", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"))), one(tab("t1", colOf("a", "INT").notNull(), colOf("b", "INT")))},
	{"defaults", "", one(tab("t1", colOf("a", "INT"), colOf("b", "INT").def("1"), colOf("c", "INT").def("1"))), one(tab("t1", colOf("a", "INT").def("2"), colOf("b", "INT"), colOf("c", "INT").def("3")))},
	{"type", "", one(tab("t1", colOf("a", "INT"), colOf("b", "INT").notNull(), colOf("c", "INT").def("1"))), one(tab("t1", colOf("a", "BIGINT"), colOf("b", "BIGINT").notNull(), colOf("c", "BIGINT").def("2")))},
	{"type, not null dropped", "", one(tab("t1", colOf("b", "INT").notNull())), one(tab("t1", colOf("b", "BIGINT")))},
	{"type, not null set", "sqlite postgres mysql", one(tab("t1", colOf("b", "INT"))), one(tab("t1", colOf("b", "BIGINT").notNull()))},
	{"foreign key on an altered column, another added", "", one(tab("t1", colOf("a", "INT").notNull(), pkOf("t1_pk", "a")), tab("t2", colOf("x", "INT").notNull(), colOf("y", "INT"), fkOf("t2_fk", "x", "", "t1", "a"))),
		one(tab("t1", colOf("a", "INT").notNull(), pkOf("t1_pk", "a"), colOf("z", "INT"), fkOf("t1_fkz", "z", "", "t2", "x")), tab("t2", colOf("x", "INT"), colOf("y", "INT"), fkOf("t2_fk", "x", "", "t1", "a"), fkOf("t2_fky", "y", "", "t1", "a")))},
	{"foreign key on an altered column, another dropped", "", one(tab("t1", colOf("a", "INT").notNull(), pkOf("t1_pk", "a")), tab("t2", colOf("x", "INT").notNull(), colOf("y", "INT"), fkOf("t2_fk", "x", "", "t1", "a"), fkOf("t2_fky", "y", "", "t1", "a"))),
		one(tab("t1", colOf("a", "INT").notNull(), pkOf("t1_pk", "a")), tab("t2", colOf("x", "INT"), colOf("y", "INT"), fkOf("t2_fk", "x", "", "t1", "a")))},
	{"longer text", "", one(tab("t1", colOf("a", "VARCHAR(50)"), colOf("b", "NUMERIC(5,2)"))), one(tab("t1", colOf("a", "VARCHAR(60)"), colOf("b", "NUMERIC(7,2)")))},
	{"collation", "postgres mysql sqlserver", one(tab("t1", colOf("a", "VARCHAR(50)").with("CollationName", "c1").notNull(), colOf("b", "VARCHAR(50)"))), one(tab("t1", colOf("a", "VARCHAR(50)").with("CollationName", "c2").notNull(), colOf("b", "VARCHAR(50)").with("CollationName", "c2")))},
	{"collation given up", "postgres mysql sqlserver",
		coll(tab("t1", colOf("a", "VARCHAR(50)").with("CollationName", "c1").notNull(), colOf("b", "VARCHAR(50)").with("CollationName", "c1"), colOf("c", "VARCHAR(50)").with("CollationName", "c1").notNull(), colOf("d", "VARCHAR(50)").with("CollationName", "cd"))),
		coll(tab("t1", colOf("a", "VARCHAR(50)").notNull(), colOf("b", "VARCHAR(50)").with("CollationName", "cd"), colOf("c", "VARCHAR(50)"), colOf("d", "VARCHAR(50)")))},
	{"collation with type", "postgres mysql sqlserver",
		coll(tab("t1", colOf("a", "VARCHAR(50)").with("CollationName", "c1"), colOf("b", "VARCHAR(50)").with("CollationName", "c1"), colOf("c", "VARCHAR(50)").with("CollationName", "c1").notNull())),
		coll(tab("t1", colOf("a", "INT"), colOf("b", "VARCHAR(60)").with("CollationName", "c1"), colOf("c", "VARCHAR(60)").notNull()))},
	{"identity", "postgres", one(tab("t1", colOf("a", "INT").notNull(), colOf("b", "INT").notNull().with("ColumnIdentity", "GENERATED BY DEFAULT AS IDENTITY"))), one(tab("t1", colOf("a", "INT").notNull().with("ColumnIdentity", "GENERATED BY DEFAULT AS IDENTITY"), colOf("b", "INT").notNull()))},
	{"altered columns in use", "", one(tab("t1", colOf("a", "INT").notNull(), colOf("b", "INT").notNull(), colOf("c", "INT").notNull(), pkOf("t1_pk", "a"), uniqOf("t1_u", "b"), idxOf("t1_i", "c"), idxOf("t1_j", "b", "c"))),
		one(tab("t1", colOf("a", "BIGINT").notNull(), colOf("b", "BIGINT").notNull(), colOf("c", "BIGINT").notNull(), pkOf("t1_pk", "a"), uniqOf("t1_u", "b"), idxOf("t1_i", "c"), idxOf("t1_j", "b", "c")))},
	{"altered columns in shared use", "", one(tab("t1", colOf("a", "INT").notNull(), colOf("b", "INT").notNull(), pkOf("t1_pk", "a", "b"), uniqOf("t1_u", "b", "a"))),
		one(tab("t1", colOf("a", "BIGINT").notNull(), colOf("b", "BIGINT").notNull(), pkOf("t1_pk", "a", "b"), uniqOf("t1_u", "b", "a")))},
	{"altered columns of a foreign key", "", one(tab("t1", colOf("a", "INT").notNull(), pkOf("t1_pk", "a")), tab("t2", colOf("x", "INT").notNull(), fkOf("t2_fk", "x", "", "t1", "a"))),
		one(tab("t1", colOf("a", "INT").notNull(), pkOf("t1_pk", "a")), tab("t2", colOf("x", "INT"), fkOf("t2_fk", "x", "", "t1", "a")))},
	{"altered column, changed index", "", one(tab("t1", colOf("a", "INT").notNull(), idxOf("t1_i", "a"), uniqOf("t1_u", "a"))), one(tab("t1", colOf("a", "BIGINT").notNull(), idxOf("t1_i2", "a"), uniqOf("t1_u2", "a")))},
	{"new schema", "postgres mysql sqlserver", func(string) rec {
		return sceneOf("s1", schemaOf("s1", tableOf("s1", "t1", colOf("a", "INT"), pkOf("t1_pk", "a"))))
	},
		func(string) rec {
			return sceneOf("s1", schemaOf("s1", tableOf("s1", "t1", colOf("a", "INT"), pkOf("t1_pk", "a"))),
				schemaOf("s2", tableOf("s2", "t1", colOf("a", "INT"), pkOf("t1_pk", "a"), fkOf("t1_fk", "a", "s1", "t1", "a")), tableOf("s2", "t2", colOf("a", "INT"), fkOf("t2_fk", "a", "s2", "t1", "a"), idxOf("t2_i", "a"))))
		}},
	{"dropped schema", "postgres mysql sqlserver", func(string) rec {
		return sceneOf("s1", schemaOf("s1", tableOf("s1", "t1", colOf("a", "INT"), pkOf("t1_pk", "a"), fkOf("t1_fk", "a", "s2", "t1", "a"))),
			schemaOf("s2", tableOf("s2", "t1", colOf("a", "INT"), pkOf("t1_pk", "a"), fkOf("t1_fk", "a", "s1", "t1", "a")), tableOf("s2", "t2", colOf("a", "INT"), fkOf("t2_fk", "a", "s2", "t1", "a"))))
	}, func(string) rec {
		return sceneOf("s1", schemaOf("s1", tableOf("s1", "t1", colOf("a", "INT"), pkOf("t1_pk", "a"))))
	}},
	{"changes in another schema", "postgres mysql sqlserver", func(string) rec {
		return sceneOf("s1", schemaOf("s1", tableOf("s1", "t1", colOf("a", "INT").notNull(), pkOf("t1_pk", "a"))),
			schemaOf("s2", tableOf("s2", "t1", colOf("a", "INT").notNull(), colOf("b", "INT"), pkOf("t1_pk", "a"), idxOf("t1_i", "b"), uniqOf("t1_u", "b")), tableOf("s2", "t2", colOf("a", "INT"), fkOf("t2_fk", "a", "s2", "t1", "a"))))
	}, func(string) rec {
		return sceneOf("s1", schemaOf("s1", tableOf("s1", "t1", colOf("a", "INT").notNull(), pkOf("t1_pk", "a"))),
			schemaOf("s2", tableOf("s2", "t1", colOf("a", "INT").notNull(), colOf("b", "BIGINT").def("1"), colOf("c", "INT").notNull(), pkOf("t1_pk2", "c"), idxOf("t1_i2", "b"), uniqOf("t1_u2", "b")), tableOf("s2", "t2", colOf("a", "INT"), fkOf("t2_fk2", "a", "s1", "t1", "a"))))
	}},
	{"deferrable", "postgres", one(tab("t1", colOf("a", "INT"), uniqOf("t1_u", "a"), uniqOf("t1_v", "a").with("IsDeferrable", true)), tab("t2", colOf("a", "INT"))),
		one(tab("t1", colOf("a", "INT"), uniqOf("t1_u", "a"), uniqOf("t1_v", "a").with("IsDeferrable", true)),
			tab("t2", colOf("a", "INT"), fkOf("t2_f1", "a", "", "t1", "a").with("IsDeferrable", true), fkOf("t2_f2", "a", "", "t1", "a").with("IsDeferrable", true).with("IsInitiallyDeferred", true)),
			tab("t3", colOf("a", "INT"), uniqOf("t3_u", "a").with("IsDeferrable", true), fkOf("t3_f1", "a", "", "t1", "a").with("IsDeferrable", true).with("IsInitiallyDeferred", true)))},
	{"deferrability changed", "postgres", one(tab("t1", colOf("a", "INT"), uniqOf("t1_u", "a")),
		tab("t2", colOf("a", "INT"), fkOf("t2_f1", "a", "", "t1", "a"), fkOf("t2_f2", "a", "", "t1", "a").with("IsDeferrable", true).with("IsInitiallyDeferred", true), fkOf("t2_f3", "a", "", "t1", "a").with("IsDeferrable", true))),
		one(tab("t1", colOf("a", "INT"), uniqOf("t1_u", "a")),
			tab("t2", colOf("a", "INT"), fkOf("t2_f1", "a", "", "t1", "a").with("IsDeferrable", true), fkOf("t2_f2", "a", "", "t1", "a"), fkOf("t2_f3", "a", "", "t1", "a").with("IsDeferrable", true).with("IsInitiallyDeferred", true)))},
	{"check constraints", "postgres sqlserver", one(tab("t1", colOf("a", "INT"))),
		one(tab("t1", colOf("a", "INT")), tab("t2", colOf("a", "INT"), rec{"ConstraintName": "t2_c", "ConstraintType": "CHECK", "CheckExpr": "a > 5"}))},
	{"generated column", "postgres mysql sqlite", one(tab("t1", colOf("a", "INT"))), one(tab("t1", colOf("a", "INT")), tab("t2", colOf("a", "INT"), colOf("g", "INT").with("GeneratedExpr", "a + 1").with("GeneratedExprStored", true)))},
	{"autoincrement", "mysql", one(), one(tab("t2", colOf("a", "INT").notNull().with("IsAutoincrement", true), pkOf("t2_pk", "a")))},
	{"autoincrement", "sqlite", one(), one(tab("t2", colOf("a", "INT").with("IsAutoincrement", true).with("IsPrimaryKey", true), pkOf("t2_pk", "a")))},
	{"much at once", "postgres mysql sqlserver", one(tab("t1", colOf("a", "INT").notNull(), colOf("b", "INT"), colOf("c", "INT").notNull(), pkOf("t1_pk", "a"), uniqOf("t1_u", "b"), idxOf("t1_i", "b")), tab("t2", colOf("a", "INT"), fkOf("t2_fk", "a", "", "t1", "a")), tab("t4", colOf("a", "INT"))),
		one(tab("t1", colOf("a", "BIGINT").notNull(), colOf("c", "INT").notNull(), colOf("d", "INT").notNull().def("0"), pkOf("t1_pk2", "d"), uniqOf("t1_u2", "c"), idxOf("t1_i2", "c")),
			tab("t3", colOf("a", "INT"), fkOf("t3_fk", "a", "", "t1", "d"), pkOf("t3_pk", "a")), tab("t4", colOf("a", "INT"), fkOf("t4_fk", "a", "", "t3", "a")))},
	{"much at once", "sqlite", one(tab("t1", colOf("a", "INT").notNull(), colOf("b", "INT"), colOf("c", "INT").notNull(), pkOf("t1_pk", "a"), uniqOf("t1_u", "b"), idxOf("t1_i", "b")), tab("t2", colOf("a", "INT"), fkOf("t2_fk", "a", "", "t1", "a")), tab("t4", colOf("a", "INT"))),
		one(tab("t1", colOf("a", "BIGINT").notNull(), colOf("c", "INT").notNull(), colOf("d", "INT").notNull().def("0"), pkOf("t1_pk2", "c"), uniqOf("t1_u2", "c"), idxOf("t1_i2", "c")),
			tab("t3", colOf("a", "INT"), fkOf("t3_fk", "a", "", "t1", "c"), pkOf("t3_pk", "a")), tab("t4", colOf("a", "INT"), fkOf("t4_fk", "a", "", "t3", "a")))},
	{"deferrable keys more", "postgres", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"))),
		one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), uniqOf("t1_u", "a").with("IsDeferrable", true), uniqOf("t1_v", "b").with("IsDeferrable", true).with("IsInitiallyDeferred", true), pkOf("t1_pk", "a", "b").with("IsDeferrable", true)))},
	{"indexes given as SQL", "postgres", one(tab("t1", colOf("a", "INT"))),
		one(tab("t1", colOf("a", "INT"), idxOf("t1_i", "a").with("SQL", `CREATE INDEX "t1_i" ON "t1" USING btree ("a");`), idxOf("t1_u", "a").with("IsUnique", true).with("SQL", `CREATE UNIQUE INDEX "t1_u" ON "t1" USING btree ("a");`)),
			tab("t2", colOf("a", "INT"), idxOf("t2_i", "a").with("SQL", `CREATE INDEX "t2_i" ON "t2" USING btree ("a");`)))},
	{"tables given as SQL", "sqlite", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"))),
		one(tab("t1", colOf("a", "BIGINT"), colOf("b", "INT")).with("SQL", `CREATE TABLE "t1" ("a" BIGINT, b INT);`),
			tab("t2", colOf("a", "INT")).with("SQL", `CREATE TABLE t2 (a INT);`))},
	{"table given as SQL, not quoted", "sqlite", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"))),
		one(tab("t1", colOf("a", "BIGINT"), colOf("b", "INT")).with("SQL", `CREATE TABLE t1(a BIGINT, b INT);`))},
	{"table given as SQL, quoted with brackets", "sqlite", one(tab("t1", colOf("a", "INT"), colOf("b", "INT"))),
		one(tab("t1", colOf("a", "BIGINT"), colOf("b", "INT")).with("SQL", `CREATE TABLE [t1] (a BIGINT, b INT);`))},
	{"a key column more", "sqlite", one(tab("t1", colOf("a", "INT"))), one(tab("t1", colOf("a", "INT"), colOf("b", "INT"), uniqOf("t1_u", "b")))},
}

func fullTable(n string) rec {
	return tab(n, colOf("a", "INT").notNull(), colOf("b", "VARCHAR(20)").def("'x;y'"), colOf("c", "INT").def("5").notNull(), pkOf(n+"_pk", "a"), uniqOf(n+"_u", "b"), uniqOf(n+"_u2", "b", "c"), idxOf(n+"_i", "c", "b"))
}

// applyAll runs the generated scripts, undo scripts aside, in the order
// migrate takes them.
func (g genOut) applyAll(db *simDB) *simFail {
	files := append([]genFile{}, g.files...)
	sort.SliceStable(files, func(i, j int) bool { return files[i].name < files[j].name })
	for _, f := range files {
		if strings.HasSuffix(f.name, ".undo.sql") {
			continue
		}
		if x := db.apply(f.name, f.text); x != nil {
			return x
		}
	}
	return nil
}

// madeAt is where the texts of a statement are in the source: the analysed
// function with the longest string constants that occur in it.
func madeAt(e *absint.Engine, stmt string) (*ssa.Function, token.Pos) {
	var best *ssa.Function
	var at token.Pos
	score := 0
	norm := func(s string) string { return strings.Join(strings.Fields(strings.ToUpper(s)), " ") }
	stmt = norm(stmt)
	for fn := range e.Funcs {
		n, p := 0, token.NoPos
		seen := map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					s := norm(constText(c))
					if len(s) > 3 && !seen[s] && strings.Contains(stmt, s) {
						seen[s] = true
						n += len(s)
						if q := absint.InstrPos(in); q.IsValid() && !p.IsValid() {
							p = q
						}
					}
				}
			}
		}
		if n > score || n == score && best != nil && fn.String() < best.String() {
			best, at, score = fn, p, n
		}
	}
	return best, at
}

func dropName(drop bool) string {
	if drop {
		return "with drops"
	}
	return "without drops"
}

func sceneName(d string, s genScene, drop bool) string {
	return fmt.Sprintf("%s: %s, %s", d, s.name, dropName(drop))
}

func constText(c *ssa.Const) string {
	if c.Value.Kind() != constant.String {
		return ""
	}
	return constant.StringVal(c.Value)
}

// violateAt reports a statement, or the generator as a whole if there is none.
func (r *Result) violateAt(env *Env, e *absint.Engine, rule, stmt, msg string) {
	fn, pos := madeAt(e, stmt)
	if stmt == "" || fn == nil {
		fn = env.P.Method(ddlPkg, "GenerateCmd", "Results")
		pos = fn.Pos()
	}
	r.Violations = append(r.Violations, absint.Violation{Rule: rule, Pos: e.Pos(pos), Func: fn.String(), Msg: msg})
}
