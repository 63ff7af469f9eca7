package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"sqverif/internal/absint"
)

func init() {
	register(&Check{ID: "C33", Technique: "abstract interpretation of the struct parser over the syntax of described table structs, comparing the catalogs with the documented meaning of the declarations", Run: runC33,
		Explain: "Table structs are written as Go source for every documented field type, modifier and submodifier: alone, with values and with braces, at column and table level, with dialect prefixes and after a dialect modifier, with names from tags, with schemas, with several structs referring to each other, and malformed in the documented ways. Their syntax trees are handed to VisitStruct and the catalog that WriteCatalog leaves for each dialect is compared with what the documentation says: tables, columns in order with type, length and attributes, constraints and indexes with names, columns, rules and flags; objects that are marked ignored count as absent. Declarations that are documented as errors (unknown modifiers and values, columns, tables and schemas that don't exist, missing columns) must make WriteCatalog return an error, others must not. Indexing and dereferencing on the way is judged as in C23. " +
			"Not covered: parsing Go files into syntax trees, the texts of the messages, catalogs that aren't empty before, combinations of modifiers other than the described ones."})
}

// declScene is the source of table structs and what they mean: a line per
// column, constraint and index, possibly for some dialects only, or "error".
type declScene struct {
	name, current, src, want string
}

var declScenes = []declScene{
	{"field types", "", `type T struct {
		sq.TableStruct
		A sq.NumberField
		B sq.StringField
		C sq.TimeField
		D sq.BooleanField
		E sq.BinaryField
		F sq.ArrayField
		G sq.EnumField
		H sq.JSONField
		I sq.UUIDField
		J sq.AnyField ` + "`ddl:\"type=TSVECTOR\"`" + `
	}`, `
		t.a INT
		sqlite,postgres: t.b TEXT
		mysql: t.b VARCHAR(255) len=255
		sqlserver: t.b NVARCHAR(255) len=255
		sqlite,mysql: t.c DATETIME
		postgres: t.c TIMESTAMPTZ
		sqlserver: t.c DATETIMEOFFSET
		sqlite,postgres,mysql: t.d BOOLEAN
		sqlserver: t.d BIT
		sqlite: t.e BLOB
		postgres: t.e BYTEA
		mysql: t.e MEDIUMBLOB
		sqlserver: t.e VARBINARY(MAX) len=MAX
		sqlite,mysql: t.f JSON
		postgres: t.f TEXT[]
		sqlserver: t.f NVARCHAR(MAX) len=MAX
		sqlite,postgres: t.g TEXT
		mysql: t.g VARCHAR(255) len=255
		sqlserver: t.g NVARCHAR(255) len=255
		sqlite,mysql: t.h JSON
		postgres: t.h JSONB
		sqlserver: t.h NVARCHAR(MAX) len=MAX
		sqlite,postgres: t.i UUID
		mysql,sqlserver: t.i BINARY(16)
		t.j TSVECTOR`},
	{"names", "", `type FILM_ACTOR struct {
		sq.TableStruct ~sq:"Film Actor"~
		FIRST_NAME sq.NumberField
		LAST_NAME sq.NumberField ~sq:"lastName" ddl:"notnull"~
		_ struct{} ~ddl:"unique=lastName"~
	}`, `
		Film Actor.first_name INT
		Film Actor.lastName INT notnull unique
		Film Actor UNIQUE Film_Actor_lastName_key (lastName)`},
	{"several names in a field", "", `type T struct {
		sq.TableStruct
		A, B sq.NumberField ~ddl:"notnull"~
		C sq.NumberField
	}`, `
		t.a INT notnull
		t.b INT notnull
		t.c INT`},
	{"other structs and fields", "", `type Options struct {
		Name string
		Flag bool ~json:"flag"~
	}
	type T struct {
		sq.TableStruct
		A sq.NumberField ~json:"x"~
		note string
		mu sync.Mutex
	}
	type Wrapper struct {
		io.Reader
		A sq.NumberField
	}
	type Number int
	type EMPTY struct{}`, `
		t.a INT`},
	{"schema from the name", "main", `type T struct {
		sq.TableStruct ~sq:"s1.t"~
		A sq.NumberField ~ddl:"primarykey references=u.a"~
	}
	type U struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"unique index"~
	}`, `
		sqlite: s1.t.a INTEGER pk ref=u.a
		postgres,mysql,sqlserver: s1.t.a INT notnull pk ref=u.a
		s1.t FOREIGN KEY t_a_fkey (a) ref=u.a
		sqlite,postgres,sqlserver: s1.t PRIMARY KEY t_a_pkey (a)
		mysql: s1.t PRIMARY KEY PRIMARY (a)
		main.u.a INT unique
		main.u UNIQUE u_a_key (a)
		main.u INDEX u_a_idx (a)`},
	{"types", "", `type T struct {
		sq.TableStruct
		A sq.StringField ~ddl:"type=VARCHAR(50)"~
		B sq.TimeField ~ddl:"type={TIMESTAMP WITH TIME ZONE}"~
		C sq.NumberField ~ddl:"type=DECIMAL(4,2) default=4.99"~
		D sq.StringField ~ddl:"type={ENUM('G', 'PG')} default='G'"~
		E sq.StringField ~ddl:"mysql,sqlserver:type=VARCHAR(20)"~
		F sq.ArrayField ~ddl:"type=JSON postgres:type=TEXT[] sqlserver:type=NVARCHAR(90)"~
		G sq.ArrayField ~ddl:"postgres:type=TEXT[] type=JSON"~
		H sq.BinaryField ~ddl:"type=BLOB"~
		I sq.StringField ~ddl:"type=VARCHAR(30) type=TEXT"~
	}`, `
		t.a VARCHAR(50) len=50
		t.b TIMESTAMP WITH TIME ZONE
		sqlite: t.c DECIMAL(4,2) default=4.99
		postgres,mysql,sqlserver: t.c DECIMAL(4,2) digits=4,2 default=4.99
		t.d ENUM('G', 'PG') default='G'
		mysql,sqlserver: t.e VARCHAR(20) len=20
		sqlite,postgres: t.e TEXT
		sqlite,mysql: t.f JSON
		postgres: t.f TEXT[]
		sqlserver: t.f NVARCHAR(90) len=90
		t.g JSON
		t.h BLOB
		t.i TEXT`},
	{"len", "", `type T struct {
		sq.TableStruct
		A sq.StringField ~ddl:"len=50"~
		B sq.StringField ~ddl:"postgres:len=5000"~
		C sq.EnumField ~ddl:"notnull len=7"~
	}`, `
		sqlite: t.a TEXT
		postgres,mysql: t.a VARCHAR(50) len=50
		sqlserver: t.a NVARCHAR(50) len=50
		postgres: t.b VARCHAR(5000) len=5000
		sqlite: t.b TEXT
		mysql: t.b VARCHAR(255) len=255
		sqlserver: t.b NVARCHAR(255) len=255
		sqlite: t.c TEXT notnull
		postgres,mysql: t.c VARCHAR(7) len=7 notnull
		sqlserver: t.c NVARCHAR(7) len=7 notnull`},
	{"numbering", "", `type T struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"auto_increment"~
		B sq.NumberField ~ddl:"identity"~
		C sq.NumberField ~ddl:"alwaysidentity"~
		D sq.NumberField ~ddl:"autoincrement"~
		E sq.NumberField ~ddl:"type=BIGINT identity auto_increment"~
	}`, `
		sqlite,postgres,sqlserver: t.a INT
		mysql: t.a INT autoincrement
		sqlite,mysql: t.b INT
		postgres: t.b INT identity=GENERATED BY DEFAULT AS IDENTITY
		sqlserver: t.b INT identity=IDENTITY
		sqlite,mysql: t.c INT
		postgres: t.c INT identity=GENERATED ALWAYS AS IDENTITY
		sqlserver: t.c INT identity=IDENTITY
		sqlite: t.d INTEGER autoincrement
		postgres,mysql,sqlserver: t.d INT
		sqlite: t.e BIGINT
		postgres: t.e BIGINT identity=GENERATED BY DEFAULT AS IDENTITY
		mysql: t.e BIGINT autoincrement
		sqlserver: t.e BIGINT identity=IDENTITY`},
	{"numbered key", "", `type FILM struct {
		sq.TableStruct
		FILM_ID sq.NumberField ~ddl:"sqlite:type=INTEGER primarykey auto_increment identity"~
		TITLE sq.NumberField
	}`, `
		sqlite: film.film_id INTEGER pk
		postgres: film.film_id INT notnull pk identity=GENERATED BY DEFAULT AS IDENTITY
		mysql: film.film_id INT notnull pk autoincrement
		sqlserver: film.film_id INT notnull pk identity=IDENTITY
		film.title INT
		mysql: film PRIMARY KEY PRIMARY (film_id)
		sqlite,postgres,sqlserver: film PRIMARY KEY film_film_id_pkey (film_id)`},
	{"attributes", "", `type T struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"notnull"~
		B sq.TimeField ~ddl:"type=TIMESTAMP onupdatecurrenttimestamp default=CURRENT_TIMESTAMP"~
		C sq.AnyField ~ddl:"type=TEXT collate=C"~
		D sq.NumberField ~ddl:"generated"~
		E sq.NumberField ~ddl:"sqlite:notnull postgres,mysql:collate=x sqlserver:default=1"~
		F sq.AnyField ~ddl:"type=TEXT collate={a b}"~
	}`, `
		t.a INT notnull
		sqlite,postgres,sqlserver: t.b TIMESTAMP default=CURRENT_TIMESTAMP
		mysql: t.b TIMESTAMP default=CURRENT_TIMESTAMP onupdate
		t.c TEXT collate=C
		t.d INT generated
		sqlite: t.e INT notnull
		postgres,mysql: t.e INT collate=x
		sqlserver: t.e INT default=1
		t.f TEXT collate=a b`},
	{"defaults", "", `type T struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"default=''"~
		B sq.NumberField ~ddl:"default=-4.99"~
		C sq.NumberField ~ddl:"default={'it''s a b'}"~
		D sq.NumberField ~ddl:"default=DATETIME('now')"~
		E sq.NumberField ~ddl:"default=TRUE"~
		F sq.NumberField ~ddl:"default=false"~
		G sq.NumberField ~ddl:"default=CURRENT_DATE"~
		H sq.NumberField ~ddl:"default={1 + 2}"~
		I sq.NumberField ~ddl:"default=(uuid())"~
		J sq.NumberField ~ddl:"sqlite:default=1 postgres:default=2 mysql,sqlserver:default=3"~
	}`, `
		t.a INT default=''
		t.b INT default=-4.99
		t.c INT default='it''s a b'
		sqlite,mysql,sqlserver: t.d INT default=(DATETIME('now'))
		postgres: t.d INT default=DATETIME('now')
		sqlite,postgres,mysql: t.e INT default=TRUE
		sqlserver: t.e INT default=1
		sqlite,postgres,mysql: t.f INT default=false
		sqlserver: t.f INT default=0
		t.g INT default=CURRENT_DATE
		sqlite,mysql,sqlserver: t.h INT default=(1 + 2)
		postgres: t.h INT default=1 + 2
		t.i INT default=(uuid())
		sqlite: t.j INT default=1
		postgres: t.j INT default=2
		mysql,sqlserver: t.j INT default=3`},
	{"columns of some dialects", "", `type FILM struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"notnull dialect=postgres unique"~
		B sq.AnyField ~ddl:"type=TEXT dialect=mysql,sqlite index={b unique} default=1"~
		C sq.AnyField ~ddl:"type=TEXT index"~
	}`, `
		postgres: film.a INT notnull unique
		postgres: film UNIQUE film_a_key (a)
		sqlite,mysql: film.b TEXT default=1
		sqlite,mysql: film INDEX film_b_idx (b) unique
		film.c TEXT
		film INDEX film_c_idx (c)`},
	{"tables of some dialects", "", `type T struct {
		sq.TableStruct ~ddl:"dialect=mysql,sqlserver"~
		A sq.NumberField ~ddl:"notnull"~
	}
	type U struct {
		sq.TableStruct
		A sq.NumberField
	}`, `
		mysql,sqlserver: t.a INT notnull
		u.a INT`},
	{"virtual table", "", `type T struct {
		sq.TableStruct ~ddl:"virtual"~
		A sq.NumberField
	}`, `
		sqlite: t virtual
		t.a INT`},
	{"indexes", "", `type T struct {
		sq.TableStruct ~ddl:"index=a,b index={c,a unique} mysql:index={a,c using=FULLTEXT}"~
		A sq.NumberField ~ddl:"index"~
		B sq.NumberField ~ddl:"index=c"~
		C sq.NumberField ~ddl:"index={. unique}"~
		D sq.NumberField ~ddl:"index={d using=HASH} sqlite,sqlserver:index=d,a"~
		E sq.NumberField ~ddl:"index={. sqlserver:unique}"~
		_ struct{} ~ddl:"index=e,d"~
	}`, `
		t.a INT
		t.b INT
		t.c INT
		t.d INT
		t.e INT
		t INDEX t_a_b_idx (a,b)
		t INDEX t_c_a_idx (c,a) unique
		mysql: t INDEX t_a_c_idx (a,c) using=FULLTEXT
		t INDEX t_a_idx (a)
		t INDEX t_c_idx (c) unique
		postgres,mysql: t INDEX t_d_idx (d) using=HASH
		sqlite,sqlserver: t INDEX t_d_idx (d)
		sqlite,sqlserver: t INDEX t_d_a_idx (d,a)
		sqlserver: t INDEX t_e_idx (e) unique
		sqlite,postgres,mysql: t INDEX t_e_idx (e)
		t INDEX t_e_d_idx (e,d)`},
	{"key of two columns", "", `type T struct {
		sq.TableStruct ~ddl:"primarykey=a,b unique={b,c}"~
		A sq.NumberField
		B sq.AnyField ~ddl:"type=INTEGER"~
		C sq.NumberField
	}`, `
		t.a INT notnull
		t.b INTEGER notnull
		t.c INT
		sqlite,postgres,sqlserver: t PRIMARY KEY t_a_b_pkey (a,b)
		mysql: t PRIMARY KEY PRIMARY (a,b)
		t UNIQUE t_b_c_key (b,c)`},
	{"keys of single columns", "", `type T struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"primarykey=b unique"~
		B sq.AnyField ~ddl:"type=TEXT"~
		C sq.NumberField ~ddl:"unique={. deferrable}"~
		D sq.NumberField ~ddl:"unique={d deferred}"~
		E sq.NumberField ~ddl:"mysql:unique"~
	}
	type U struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"primarykey={. deferred}"~
	}`, `
		t.a INT unique
		t.b TEXT notnull pk
		t.c INT unique
		t.d INT unique
		mysql: t.e INT unique
		sqlite,postgres,sqlserver: t.e INT
		sqlite: u.a INTEGER pk
		postgres,mysql,sqlserver: u.a INT notnull pk
		mysql: t PRIMARY KEY PRIMARY (b)
		sqlite,postgres,sqlserver: t PRIMARY KEY t_b_pkey (b)
		t UNIQUE t_a_key (a)
		postgres: t UNIQUE t_c_key (c) deferrable
		sqlite,mysql,sqlserver: t UNIQUE t_c_key (c)
		postgres: t UNIQUE t_d_key (d) deferrable deferred
		sqlite,mysql,sqlserver: t UNIQUE t_d_key (d)
		mysql: t UNIQUE t_e_key (e)
		mysql: u PRIMARY KEY PRIMARY (a)
		postgres: u PRIMARY KEY u_a_pkey (a) deferrable deferred
		sqlite,sqlserver: u PRIMARY KEY u_a_pkey (a)`},
	{"constraints of some dialects", "", `type T struct {
		sq.TableStruct ~ddl:"mysql:primarykey=a sqlite,postgres:unique=b"~
		A sq.NumberField ~ddl:"type=INTEGER"~
		B sq.NumberField
		C sq.NumberField
		_ struct{} ~ddl:"sqlserver:foreignkey={c references=u.a}"~
	}
	type U struct {
		sq.TableStruct
		A sq.NumberField
	}`, `
		sqlite,postgres,sqlserver: t.a INTEGER
		mysql: t.a INTEGER notnull pk
		sqlite,postgres: t.b INT unique
		mysql,sqlserver: t.b INT
		sqlite,postgres,mysql: t.c INT
		sqlserver: t.c INT ref=u.a
		u.a INT
		mysql: t PRIMARY KEY PRIMARY (a)
		sqlite,postgres: t UNIQUE t_b_key (b)
		sqlserver: t FOREIGN KEY t_c_fkey (c) ref=u.a`},
	{"errors of one dialect", "", `type T struct {
		sq.TableStruct ~ddl:"mysql:unique=x mysql:index=x"~
		A sq.NumberField
		_ struct{} ~ddl:"mysql:foreignkey={a references=v.x}"~
	}`, `
		sqlite,postgres,sqlserver: t.a INT
		mysql: error`},
	{"prefixes after a dialect modifier", "", `type T struct {
		sq.TableStruct ~ddl:"dialect=mysql,sqlite mysql:index=a index=c"~
		A sq.NumberField ~ddl:"dialect=mysql,sqlite mysql:default=1 sqlite:default=2 notnull"~
		B sq.NumberField ~ddl:"postgres,sqlite:default=3 dialect=sqlite,sqlserver sqlserver:unique"~
		C sq.NumberField
	}`, `
		mysql: t.a INT notnull default=1
		sqlite: t.a INT notnull default=2
		sqlite: t.b INT default=3
		sqlite,mysql: t.c INT
		sqlite,mysql: t INDEX t_c_idx (c)
		mysql: t INDEX t_a_idx (a)`},
	{"explicit type of one of two keys", "", `type A struct {
		sq.TableStruct
		ID sq.NumberField ~ddl:"type=INT primarykey"~
	}
	type B struct {
		sq.TableStruct
		ID sq.NumberField ~ddl:"primarykey"~
	}`, `
		a.id INT notnull pk
		sqlite: b.id INTEGER pk
		postgres,mysql,sqlserver: b.id INT notnull pk
		mysql: a PRIMARY KEY PRIMARY (id)
		sqlite,postgres,sqlserver: a PRIMARY KEY a_id_pkey (id)
		mysql: b PRIMARY KEY PRIMARY (id)
		sqlite,postgres,sqlserver: b PRIMARY KEY b_id_pkey (id)`},
	{"explicit type of a key", "", `type T struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"type=INT primarykey"~
	}`, `
		t.a INT notnull pk
		mysql: t PRIMARY KEY PRIMARY (a)
		sqlite,postgres,sqlserver: t PRIMARY KEY t_a_pkey (a)`},
	{"references", "", `type FILM struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"references=u"~
		B sq.NumberField ~ddl:"references=u.a"~
		C sq.NumberField ~ddl:"references=s1.v.x"~
		D sq.NumberField ~ddl:"references={u.a index onupdate=cascade ondelete=setnull}"~
		E sq.NumberField ~ddl:"references={u.a deferrable ondelete=restrict onupdate=noaction}"~
		F sq.NumberField ~ddl:"references={u.a deferred index={. unique} onupdate=setdefault}"~
		G sq.NumberField ~ddl:"references={u.a mysql:onupdate=cascade postgres:index onupdate=restrict ondelete=setdefault}"~
		H sq.NumberField ~ddl:"sqlite:references={u.a onupdate=setnull ondelete=cascade}"~
	}
	type U struct {
		sq.TableStruct
		A sq.NumberField
	}
	type V struct {
		sq.TableStruct ~sq:"s1.v"~
		X sq.NumberField
	}`, `
		film.a INT ref=u.a
		film.b INT ref=u.a
		film.c INT ref=s1.v.x
		film.d INT ref=u.a onupdate=CASCADE ondelete=SET NULL
		sqlite,postgres: film.e INT ref=u.a onupdate=NO ACTION ondelete=RESTRICT deferrable
		mysql: film.e INT ref=u.a onupdate=NO ACTION ondelete=RESTRICT
		sqlserver: film.e INT ref=u.a onupdate=NO ACTION ondelete=NO ACTION
		sqlite,postgres: film.f INT ref=u.a onupdate=SET DEFAULT deferrable deferred
		mysql,sqlserver: film.f INT ref=u.a onupdate=SET DEFAULT
		sqlite,postgres,mysql: film.g INT ref=u.a onupdate=RESTRICT ondelete=SET DEFAULT
		sqlserver: film.g INT ref=u.a onupdate=NO ACTION ondelete=SET DEFAULT
		sqlite: film.h INT ref=u.a onupdate=SET NULL ondelete=CASCADE
		postgres,mysql,sqlserver: film.h INT
		u.a INT
		s1.v.x INT
		film FOREIGN KEY film_a_fkey (a) ref=u.a
		film FOREIGN KEY film_b_fkey (b) ref=u.a
		film FOREIGN KEY film_c_fkey (c) ref=s1.v.x
		film FOREIGN KEY film_d_fkey (d) ref=u.a onupdate=CASCADE ondelete=SET NULL
		film INDEX film_d_idx (d)
		sqlite,postgres: film FOREIGN KEY film_e_fkey (e) ref=u.a onupdate=NO ACTION ondelete=RESTRICT deferrable
		mysql: film FOREIGN KEY film_e_fkey (e) ref=u.a onupdate=NO ACTION ondelete=RESTRICT
		sqlserver: film FOREIGN KEY film_e_fkey (e) ref=u.a onupdate=NO ACTION ondelete=NO ACTION
		sqlite,postgres: film FOREIGN KEY film_f_fkey (f) ref=u.a onupdate=SET DEFAULT deferrable deferred
		mysql,sqlserver: film FOREIGN KEY film_f_fkey (f) ref=u.a onupdate=SET DEFAULT
		film INDEX film_f_idx (f) unique
		sqlite,postgres,mysql: film FOREIGN KEY film_g_fkey (g) ref=u.a onupdate=RESTRICT ondelete=SET DEFAULT
		sqlserver: film FOREIGN KEY film_g_fkey (g) ref=u.a onupdate=NO ACTION ondelete=SET DEFAULT
		postgres: film INDEX film_g_idx (g)
		sqlite: film FOREIGN KEY film_h_fkey (h) ref=u.a onupdate=SET NULL ondelete=CASCADE`},
	{"foreign keys", "", `type TASK struct {
		sq.TableStruct
		A sq.NumberField ~ddl:"foreignkey={a references=u}"~
		B sq.NumberField ~ddl:"foreignkey={b references=u.a deferrable}"~
		C sq.NumberField ~ddl:"foreignkey={c references=s1.v.x index}"~
		D sq.NumberField
		_ struct{} ~ddl:"foreignkey={a,b references=u.a,b onupdate=cascade ondelete=noaction}"~
		_ struct{} ~ddl:"foreignkey={b,a references=u deferred ondelete=setdefault onupdate=setnull index}"~
		_ struct{} ~ddl:"mysql,postgres:foreignkey={d,a references=s1.v.x,y ondelete=restrict}"~
	}
	type U struct {
		sq.TableStruct
		A sq.NumberField
		B sq.NumberField
	}
	type V struct {
		sq.TableStruct ~sq:"s1.v"~
		X sq.NumberField
		Y sq.NumberField
	}`, `
		task.a INT ref=u.a
		sqlite,postgres: task.b INT ref=u.a deferrable
		mysql,sqlserver: task.b INT ref=u.a
		task.c INT ref=s1.v.x
		task.d INT
		u.a INT
		u.b INT
		s1.v.x INT
		s1.v.y INT
		task FOREIGN KEY task_a_fkey (a) ref=u.a
		sqlite,postgres: task FOREIGN KEY task_b_fkey (b) ref=u.a deferrable
		mysql,sqlserver: task FOREIGN KEY task_b_fkey (b) ref=u.a
		task FOREIGN KEY task_c_fkey (c) ref=s1.v.x
		task INDEX task_c_idx (c)
		task FOREIGN KEY task_a_b_fkey (a,b) ref=u.a,b onupdate=CASCADE ondelete=NO ACTION
		sqlite,postgres: task FOREIGN KEY task_b_a_fkey (b,a) ref=u.b,a onupdate=SET NULL ondelete=SET DEFAULT deferrable deferred
		mysql,sqlserver: task FOREIGN KEY task_b_a_fkey (b,a) ref=u.b,a onupdate=SET NULL ondelete=SET DEFAULT
		task INDEX task_b_a_idx (b,a)
		postgres,mysql: task FOREIGN KEY task_d_a_fkey (d,a) ref=s1.v.x,y ondelete=RESTRICT`},
	{"rules of foreign keys", "", `type T struct {
		sq.TableStruct
		A sq.NumberField
		B sq.NumberField
		C sq.NumberField
		D sq.NumberField
		_ struct{} ~ddl:"foreignkey={a references=u.x onupdate=restrict ondelete=cascade}"~
		_ struct{} ~ddl:"foreignkey={b references=u.x onupdate=noaction ondelete=setnull}"~
		_ struct{} ~ddl:"foreignkey={c references=u.x onupdate=setdefault ondelete=noaction}"~
		_ struct{} ~ddl:"foreignkey={d references=u.x ondelete=restrict onupdate=setnull}"~
	}
	type U struct {
		sq.TableStruct
		X sq.NumberField ~ddl:"references={u.x ondelete=noaction}"~
	}`, `
		sqlite,postgres,mysql: t.a INT ref=u.x onupdate=RESTRICT ondelete=CASCADE
		sqlserver: t.a INT ref=u.x onupdate=NO ACTION ondelete=CASCADE
		t.b INT ref=u.x onupdate=NO ACTION ondelete=SET NULL
		t.c INT ref=u.x onupdate=SET DEFAULT ondelete=NO ACTION
		sqlite,postgres,mysql: t.d INT ref=u.x onupdate=SET NULL ondelete=RESTRICT
		sqlserver: t.d INT ref=u.x onupdate=SET NULL ondelete=NO ACTION
		u.x INT ref=u.x ondelete=NO ACTION
		sqlite,postgres,mysql: t FOREIGN KEY t_a_fkey (a) ref=u.x onupdate=RESTRICT ondelete=CASCADE
		sqlserver: t FOREIGN KEY t_a_fkey (a) ref=u.x onupdate=NO ACTION ondelete=CASCADE
		t FOREIGN KEY t_b_fkey (b) ref=u.x onupdate=NO ACTION ondelete=SET NULL
		t FOREIGN KEY t_c_fkey (c) ref=u.x onupdate=SET DEFAULT ondelete=NO ACTION
		sqlite,postgres,mysql: t FOREIGN KEY t_d_fkey (d) ref=u.x onupdate=SET NULL ondelete=RESTRICT
		sqlserver: t FOREIGN KEY t_d_fkey (d) ref=u.x onupdate=SET NULL ondelete=NO ACTION
		u FOREIGN KEY u_x_fkey (x) ref=u.x ondelete=NO ACTION`},
	{"reference to itself and ahead", "", `type A struct {
		sq.TableStruct
		ID sq.NumberField ~ddl:"unique"~
		UP sq.NumberField ~ddl:"references=a.id"~
		B_ID sq.NumberField ~ddl:"references=b.id"~
	}
	type B struct {
		sq.TableStruct
		ID sq.NumberField ~ddl:"unique"~
		A_ID sq.NumberField ~ddl:"references=a.id"~
	}`, `
		a.id INT unique
		a.up INT ref=a.id
		a.b_id INT ref=b.id
		b.id INT unique
		b.a_id INT ref=a.id
		a UNIQUE a_id_key (id)
		a FOREIGN KEY a_up_fkey (up) ref=a.id
		a FOREIGN KEY a_b_id_fkey (b_id) ref=b.id
		b UNIQUE b_id_key (id)
		b FOREIGN KEY b_a_id_fkey (a_id) ref=a.id`},
	{"same table in two schemas", "s1", `type T1 struct {
		sq.TableStruct ~sq:"t"~
		A sq.NumberField ~ddl:"unique index"~
	}
	type T2 struct {
		sq.TableStruct ~sq:"s2.t"~
		A sq.NumberField ~ddl:"notnull unique index"~
	}`, `
		s1.t.a INT unique
		s2.t.a INT notnull unique
		s1.t UNIQUE t_a_key (a)
		s1.t INDEX t_a_idx (a)
		s2.t UNIQUE t_a_key (a)
		s2.t INDEX t_a_idx (a)`},
}

// declErrors are declarations that are documented to be errors.
func declErrors() []declScene {
	one := func(name, tag, tabtag string) declScene {
		q := func(t string) string {
			if t == "" {
				return ""
			}
			return "~ddl:" + strconv.Quote(t) + "~"
		}
		return declScene{name, "", "type T struct {\nsq.TableStruct " + q(tabtag) + "\nA sq.NumberField " + q(tag) + "\nB sq.NumberField\n}\ntype U struct {\nsq.TableStruct\nA sq.NumberField\n}", "error"}
	}
	return []declScene{
		one("unknown modifier", "nonnull", ""),
		one("unknown table modifier", "", "notnull"),
		one("unknown index submodifier", "index={a uniq}", ""),
		one("unknown key submodifier", "primarykey={a unique}", ""),
		one("unknown unique submodifier", "unique={a onupdate=cascade}", ""),
		one("unknown references submodifier", "references={u.a unique}", ""),
		one("unknown foreignkey submodifier", "foreignkey={a references=u.a unique}", ""),
		one("unknown update rule", "references={u.a onupdate=casc}", ""),
		one("unknown delete rule", "references={u.a ondelete=CASCADE}", ""),
		one("unknown update rule of a foreignkey", "foreignkey={a references=u.a onupdate=null}", ""),
		one("unknown delete rule of a foreignkey", "foreignkey={a references=u.a ondelete=drop}", ""),
		one("index of a column that doesn't exist", "index={unique}", ""),
		one("key of a column that doesn't exist", "primarykey={deferrable}", ""),
		one("unique column that doesn't exist", "unique=a,x", ""),
		one("foreign key column that doesn't exist", "", "foreignkey={x references=u.a}"),
		one("no key column", "", "primarykey"),
		one("no unique column", "", "unique"),
		one("no index column", "", "index"),
		one("no foreign key column", "", "foreignkey"),
		one("no referenced column", "foreignkey=a", ""),
		one("rules but no referenced column", "foreignkey={a onupdate=cascade}", ""),
		one("rules but no referenced columns", "", "foreignkey={a,b onupdate=cascade}"),
		one("no referenced table", "references", ""),
		one("referenced table doesn't exist", "references=x.a", ""),
		one("referenced column doesn't exist", "references=u.x", ""),
		one("referenced schema doesn't exist", "references=s1.u.a", ""),
		one("second referenced column doesn't exist", "", "foreignkey={a,b references=u}"),
		one("blank dialect", "dialect", ""),
		one("blank dialect of a table", "", "dialect="),
		one("unclosed brace", "type={a", ""),
		one("unclosed brace in a submodifier", "references={u.a index={a }", ""),
		{"no table struct", "", "type TABLE struct {\nA sq.NumberField\n}", "error"},
	}
}

var forDialects = regexp.MustCompile(`^((?:sqlite|postgres|mysql|sqlserver)(?:,(?:sqlite|postgres|mysql|sqlserver))*): (.*)$`)

// wanted are the lines for a dialect: columns in order, others sorted.
func (sc declScene) wanted(d string) []string {
	var ls []string
	for _, l := range strings.Split(sc.want, "\n") {
		l = strings.TrimSpace(l)
		if m := forDialects.FindStringSubmatch(l); m != nil {
			if !strings.Contains(","+m[1]+",", ","+d+",") {
				continue
			}
			l = m[2]
		}
		if l != "" {
			ls = append(ls, l)
		}
	}
	return ls
}

func runC33(env *Env) *Result {
	var jobs []job
	for _, d := range dialects {
		for _, sc := range append(append([]declScene{}, declScenes...), declErrors()...) {
			jobs = append(jobs, job{d + ": " + sc.name, func(res *Result) { env.judgeDecls(res, d, sc) }})
		}
	}
	res := env.runJobs(jobs)
	res.need("scenes_confirmed", 1)
	return res
}

func (env *Env) judgeDecls(res *Result, d string, sc declScene) {
	visit := env.P.Method(ddlPkg, "StructParser", "VisitStruct")
	write := env.P.Method(ddlPkg, "StructParser", "WriteCatalog")
	mk := env.P.Func(ddlPkg, "NewStructParser")
	cat := env.P.Type(ddlPkg, "Catalog")
	name := d + ": " + sc.name
	if visit == nil || write == nil || mk == nil || cat == nil || len(visit.Params) != 2 || len(write.Params) != 2 || len(mk.Params) != 1 {
		res.note("undetermined", "no struct parser")
		return
	}
	res.note("scenes", name)
	e := env.declEngine(res, "C33", name)
	p, runs := env.declare(e, res, name, sc.src, "decl", nil, "")
	if p == nil {
		return
	}
	want := sc.wanted(d)
	wantErr := len(want) == 1 && want[0] == "error"
	judged := len(runs) > 0
	for _, r := range runs {
		s := &absint.State{Heap: r.heap}
		c := env.build(e, s, types.NewPointer(cat), rec{"Dialect": d, "CurrentSchema": sc.current}, "catalog")
		outs := e.RunFn(write, []*AV{p, c}, nil, r.q, s.Heap, e.RootCtx.Child(nil, write))
		for _, o := range outs {
			s := &absint.State{Heap: o.Heap}
			failed := !o.Ret.MayBeNil()
			switch {
			case o.Q != "":
				res.note("undetermined", name+": a branch isn't determined")
				debugf("undetermined branch %s\n", name)
				judged = false
			case wantErr && o.Ret.MustNil():
				res.violate(e, "C33", write, name+": no error is reported")
			case wantErr:
				judged = judged && failed
			case failed:
				res.violate(e, "C33", write, name+": an error is reported")
			default:
				r := &declReader{env: env, e: e, s: s, d: d}
				got := r.catalog(e.Load(s, c, cat))
				if r.inexact != "" {
					res.note("undetermined", name+": "+r.inexact)
					debugf("undetermined %s: %s\n", name, r.inexact)
					judged = false
					break
				}
				for _, m := range diffDecls(want, got) {
					res.violate(e, "C33", write, name+": "+m)
				}
			}
		}
		judged = judged && len(outs) > 0
	}
	res.noteEngine(e)
	if judged {
		res.note("scenes_confirmed", name)
	}
}

// declRun is a way a call can end.
type declRun struct {
	heap map[absint.ObjID]*absint.Obj
	q    string
}

// declEngine is an engine for syntax trees.
func (env *Env) declEngine(res *Result, rule, name string) *absint.Engine {
	e := env.newEngine()
	e.Few, e.PerIter, e.EveryLoop = 400, true, true
	mon := &panicMon{what: "for the declarations of " + name, res: res, hits: map[string]bool{}, rule: rule}
	e.Mon = mon
	e.Models = map[string]absint.Model{
		"strconv.Unquote": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			if t, ok := c.Args[0].One(); ok {
				if u, err := strconv.Unquote(t); err == nil {
					return []absint.Outcome{{Ret: absint.TupleV(absint.StrV(u), absint.NilErr())}}
				}
			}
			return []absint.Outcome{{Ret: absint.TupleV(absint.AnyStr(), absint.NilErr())}}
		},
		"(reflect.StructTag).Get": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			t, ok1 := c.Args[0].One()
			k, ok2 := c.Args[1].One()
			if ok1 && ok2 {
				return []absint.Outcome{{Ret: absint.StrV(reflect.StructTag(t).Get(k))}}
			}
			return []absint.Outcome{{Ret: absint.AnyStr()}}
		},
		"(reflect.StructTag).Lookup": func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
			t, ok1 := c.Args[0].One()
			k, ok2 := c.Args[1].One()
			if ok1 && ok2 {
				v, ok := reflect.StructTag(t).Lookup(k)
				b := absint.False()
				if ok {
					b = absint.True()
				}
				return []absint.Outcome{{Ret: absint.TupleV(absint.StrV(v), b)}}
			}
			return []absint.Outcome{{Ret: absint.TupleV(absint.AnyStr(), e.Unknown(types.Typ[types.Bool]))}}
		},
	}
	for _, n := range []string{"BasicLit", "Ident", "Field", "FieldList", "TypeSpec", "StructType", "SelectorExpr"} {
		for _, m := range []string{"Pos", "End"} {
			e.Models["(*go/ast."+n+")."+m] = func(e *absint.Engine, c *absint.Call, s *absint.State) []absint.Outcome {
				return []absint.Outcome{{Ret: e.Unknown(types.Typ[types.Int])}}
			}
		}
	}
	return e
}

// declare hands the declarations of a source to a new parser.
func (env *Env) declare(e *absint.Engine, res *Result, name, src, label string, heap map[absint.ObjID]*absint.Obj, q string) (*AV, []declRun) {
	visit := env.P.Method(ddlPkg, "StructParser", "VisitStruct")
	mk := env.P.Func(ddlPkg, "NewStructParser")
	file, err := parser.ParseFile(token.NewFileSet(), "t.go", "package p\n"+strings.ReplaceAll(src, "~", "`"), 0)
	if err != nil {
		res.Err = fmt.Errorf("%s: %w", name, err)
		return nil, nil
	}
	if heap == nil {
		heap = map[absint.ObjID]*absint.Obj{}
	}
	ctx := e.RootCtx // one for each call, to tell apart what they allocate
	if label != "decl" {
		ctx = ctx.Child(nil, mk)
	}
	ctx = ctx.Child(nil, mk)
	runs := []declRun{}
	var p *AV
	for _, o := range e.RunFn(mk, []*AV{e.Zero(mk.Params[0].Type())}, nil, q, heap, ctx) {
		p = o.Ret
		runs = append(runs, declRun{o.Heap, o.Q})
	}
	if len(runs) != 1 {
		res.note("undetermined", name+": no parser")
		return nil, nil
	}
	for i, decl := range file.Decls {
		ctx = ctx.Child(nil, visit)
		spec := decl.(*ast.GenDecl).Specs[0].(*ast.TypeSpec)
		var next []declRun
		for _, r := range runs {
			s := &absint.State{Heap: r.heap}
			node := env.syntax(e, s, visit.Params[1].Type(), reflect.ValueOf(spec), fmt.Sprintf("%s%d", label, i))
			for _, o := range e.RunFn(visit, []*AV{p, node}, nil, r.q, s.Heap, ctx) {
				next = append(next, declRun{o.Heap, o.Q})
			}
		}
		runs = next
	}
	return p, runs
}

// diffDecls compares descriptions of catalogs. The order of columns counts.
func diffDecls(want, got []string) []string {
	var out []string
	for _, l := range minus(want, got) {
		out = append(out, "there should be "+strconv.Quote(l))
	}
	for _, l := range minus(got, want) {
		out = append(out, "there is "+strconv.Quote(l))
	}
	if len(out) > 0 {
		return out
	}
	cols := func(ls []string) string {
		by := map[string][]string{}
		for _, l := range ls {
			if n, _, _ := strings.Cut(strings.TrimPrefix(l, "Film Actor"), " "); strings.Contains(n, ".") {
				i := strings.LastIndexByte(n, '.')
				by[n[:i]] = append(by[n[:i]], n[i+1:])
			}
		}
		var ks []string
		for k := range by {
			ks = append(ks, k+": "+strings.Join(by[k], ", "))
		}
		sort.Strings(ks)
		return strings.Join(ks, "; ")
	}
	if a, b := cols(want), cols(got); a != b {
		return []string{"the columns are " + b + " instead of " + a}
	}
	return nil
}

// syntax makes an abstract value of a syntax tree.
func (env *Env) syntax(e *absint.Engine, s *absint.State, t types.Type, v reflect.Value, name string) *AV {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		for v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		if !v.IsValid() || v.Kind() == reflect.Pointer && v.IsNil() {
			return e.Zero(t)
		}
		astPkg := env.imported("go/ast")
		if v.Kind() != reflect.Pointer || astPkg == nil || astPkg.Scope().Lookup(v.Elem().Type().Name()) == nil {
			return e.Unknown(t)
		}
		pt := types.NewPointer(astPkg.Scope().Lookup(v.Elem().Type().Name()).Type())
		return &AV{K: absint.Iface, Nil: absint.MayNonNil, Dyn: []absint.Dyn{{T: pt, V: env.syntax(e, s, pt, v, name)}}}
	case *types.Pointer:
		if v.IsNil() {
			return e.Zero(t)
		}
		named, ok := u.Elem().(*types.Named)
		if !ok || named.Obj().Name() == "Object" || named.Obj().Name() == "CommentGroup" {
			return e.Unknown(t)
		}
		id := e.Obj("syntax:"+name, nil, "", u.Elem(), 0)
		s.Heap[id] = &absint.Obj{V: env.syntax(e, s, u.Elem(), v.Elem(), name)}
		return absint.PtrV(absint.Ref{O: id})
	case *types.Struct:
		out := &AV{K: absint.Struct}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if w := v.FieldByName(f.Name()); w.IsValid() {
				out.Elems = append(out.Elems, env.syntax(e, s, f.Type(), w, name+"."+f.Name()))
			} else {
				out.Elems = append(out.Elems, e.Unknown(f.Type()))
			}
		}
		return out
	case *types.Slice:
		if v.Len() == 0 {
			return e.Zero(t)
		}
		var vs []*AV
		for i := 0; i < v.Len(); i++ {
			vs = append(vs, env.syntax(e, s, u.Elem(), v.Index(i), fmt.Sprintf("%s[%d]", name, i)))
		}
		return valSlice(e, s, "syntax:"+name, t, vs)
	case *types.Basic:
		switch v.Kind() {
		case reflect.String:
			return absint.StrV(v.String())
		case reflect.Bool:
			if v.Bool() {
				return absint.True()
			}
			return absint.False()
		case reflect.Int:
			return absint.IntV(v.Int())
		}
	}
	return e.Unknown(t)
}

// imported is a package the analysed one uses.
func (env *Env) imported(path string) *types.Package {
	p := env.P.Pkg(ddlPkg)
	if p == nil {
		return nil
	}
	for _, i := range p.Pkg.Imports() {
		if i.Path() == path {
			return i
		}
	}
	return nil
}

// declReader describes an abstract catalog with lines.
type declReader struct {
	env     *Env
	e       *absint.Engine
	s       *absint.State
	d       string
	inexact string
}

func (r *declReader) field(typ string, v *AV, f string) *AV {
	i := fieldIndex(r.env.P.Type(ddlPkg, typ), f)
	if i < 0 || v.K != absint.Struct || i >= len(v.Elems) {
		r.inexact = typ + "." + f + " isn't known"
		return absint.Top()
	}
	return v.Elems[i]
}

func (r *declReader) text(typ string, v *AV, f string) string {
	x := r.field(typ, v, f)
	t, ok := x.One()
	if !ok {
		r.inexact = typ + "." + f + " isn't known"
	}
	return t
}

func (r *declReader) flag(typ string, v *AV, f string) bool {
	x := r.field(typ, v, f)
	if x.K != absint.Bool || x.B != absint.MayTrue && x.B != absint.MayFalse {
		r.inexact = typ + "." + f + " isn't known"
	}
	return x.B == absint.MayTrue
}

func (r *declReader) elems(typ string, v *AV, f string) []*AV {
	vs, exact := r.e.SliceElems(r.s, r.field(typ, v, f))
	if !exact {
		r.inexact = typ + "." + f + " isn't known"
	}
	return vs
}

func (r *declReader) names(typ string, v *AV, f string) string {
	var out []string
	for _, x := range r.elems(typ, v, f) {
		t, ok := x.One()
		if !ok {
			r.inexact = typ + "." + f + " isn't known"
		}
		out = append(out, t)
	}
	return strings.Join(out, ",")
}

func (r *declReader) attr(l *string, name, value string) {
	if value != "" {
		*l += " " + name + "=" + value
	}
}

func (r *declReader) mark(l *string, name string, set bool) {
	if set {
		*l += " " + name
	}
}

// owner tells if an object says it belongs to another table.
func (r *declReader) owner(l *string, typ string, v, t *AV) {
	for _, f := range []string{"TableSchema", "TableName"} {
		if a, b := r.text(typ, v, f), r.text("Table", t, f); a != b {
			*l += " with " + f + " " + strconv.Quote(a)
		}
	}
}

func (r *declReader) rules(l *string, typ string, v *AV, refs string) {
	if t := r.text(typ, v, "ReferencesTable"); t != "" {
		if s := r.text(typ, v, "ReferencesSchema"); s != "" {
			t = s + "." + t
		}
		*l += " ref=" + t + "." + refs
	}
	r.attr(l, "onupdate", r.text(typ, v, "UpdateRule"))
	r.attr(l, "ondelete", r.text(typ, v, "DeleteRule"))
	r.mark(l, "deferrable", r.flag(typ, v, "IsDeferrable"))
	r.mark(l, "deferred", r.flag(typ, v, "IsInitiallyDeferred"))
}

func (r *declReader) catalog(c *AV) []string {
	var ls []string
	for _, sch := range r.elems("Catalog", c, "Schemas") {
		if r.flag("Schema", sch, "Ignore") {
			continue
		}
		schema := r.text("Schema", sch, "SchemaName")
		for _, t := range r.elems("Schema", sch, "Tables") {
			if r.flag("Table", t, "Ignore") {
				continue
			}
			name := r.text("Table", t, "TableName")
			if schema != "" {
				name = schema + "." + name
			}
			if r.flag("Table", t, "IsVirtual") {
				ls = append(ls, name+" virtual")
			}
			for _, x := range r.elems("Table", t, "Columns") {
				if !r.flag("Column", x, "Ignore") {
					l := r.column(name, x)
					r.owner(&l, "Column", x, t)
					ls = append(ls, l)
				}
			}
			for _, x := range r.elems("Table", t, "Constraints") {
				if r.flag("Constraint", x, "Ignore") {
					continue
				}
				l := name + " " + r.text("Constraint", x, "ConstraintType") + " " + r.text("Constraint", x, "ConstraintName") + " (" + r.names("Constraint", x, "Columns") + ")"
				r.rules(&l, "Constraint", x, r.names("Constraint", x, "ReferencesColumns"))
				r.owner(&l, "Constraint", x, t)
				ls = append(ls, l)
			}
			for _, x := range r.elems("Table", t, "Indexes") {
				if r.flag("Index", x, "Ignore") {
					continue
				}
				l := name + " INDEX " + r.text("Index", x, "IndexName") + " (" + r.names("Index", x, "Columns") + ")"
				r.mark(&l, "unique", r.flag("Index", x, "IsUnique"))
				r.attr(&l, "using", r.text("Index", x, "IndexType"))
				r.owner(&l, "Index", x, t)
				ls = append(ls, l)
			}
		}
	}
	return ls
}

func (r *declReader) column(table string, c *AV) string {
	typ := r.text("Column", c, "ColumnType")
	l := table + "." + r.text("Column", c, "ColumnName") + " " + typ
	if n := r.text("Column", c, "CharacterLength"); n != "" && r.d != "sqlite" || strings.Contains(typ, "("+n+")") {
		r.attr(&l, "len", n) // SQLite has none
	}
	if n := r.text("Column", c, "NumericPrecision"); n != "" && r.d != "sqlite" {
		r.attr(&l, "digits", n+","+r.text("Column", c, "NumericScale"))
	}
	pk := r.flag("Column", c, "IsPrimaryKey")
	// the one is never null, with or without the other
	r.mark(&l, "notnull", r.flag("Column", c, "IsNotNull") && !(pk && r.d == "sqlite" && typ == "INTEGER"))
	r.mark(&l, "pk", pk)
	r.mark(&l, "unique", r.flag("Column", c, "IsUnique"))
	r.mark(&l, "autoincrement", r.flag("Column", c, "IsAutoincrement"))
	r.attr(&l, "identity", r.text("Column", c, "ColumnIdentity"))
	r.attr(&l, "default", r.text("Column", c, "ColumnDefault"))
	r.mark(&l, "onupdate", r.flag("Column", c, "OnUpdateCurrentTimestamp"))
	r.attr(&l, "collate", r.text("Column", c, "CollationName"))
	r.mark(&l, "generated", r.flag("Column", c, "IsGenerated"))
	r.rules(&l, "Column", c, r.text("Column", c, "ReferencesColumn"))
	return l
}
