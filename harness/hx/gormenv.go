package hx

import (
	"context"
	"strings"
	"time"

	"github.com/wenerme/go-miniquery/gormq"
	"gorm.io/gorm"
	"gorm.io/gorm/callbacks"
	"gorm.io/gorm/clause"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/schema"
)

// ---- models

type GBase struct {
	CreatedAt string
	Note      string `gorm:"column:remark"`
}

type GAddr struct {
	City string
}

type gUser struct {
	ID       int `gorm:"primaryKey"`
	A        int
	B        int
	C        string
	FullName string
	Renamed  int    `gorm:"column:x_y"`
	Hidden   string `gorm:"-"`
	GBase
	Addr    GAddr `gorm:"embedded;embeddedPrefix:p_"`
	OrgID   int
	Org     *gOrg
	Profile *gProfile `gorm:"foreignKey:UserID"`
	BossID  int
	Boss    *gUser
	Items   []gItem `gorm:"foreignKey:OwnerID"`
}

func (gUser) TableName() string { return "users" }

type gOrg struct {
	ID      int `gorm:"primaryKey"`
	A       int
	OrgName string
	Code    int    `gorm:"column:org_code"`
	Secret  string `gorm:"-"`
	TopID   int
	Top     *gOrg
}

func (gOrg) TableName() string { return "orgs" }

type gProfile struct {
	ID     int `gorm:"primaryKey"`
	UserID int
	Age    int
	B      int
}

func (gProfile) TableName() string { return "profiles" }

type gItem struct {
	ID      int `gorm:"primaryKey"`
	OwnerID int
	B       int
}

func (gItem) TableName() string { return "items" }

// The columns as a user of the models knows them: database name, Go field.
var gCols = map[string][][2]string{
	"users": {{"id", "ID"}, {"a", "A"}, {"b", "B"}, {"c", "C"}, {"full_name", "FullName"}, {"x_y", "Renamed"}, {"created_at", "CreatedAt"}, {"remark", "Note"},
		{"p_city", "City"}, {"org_id", "OrgID"}, {"boss_id", "BossID"}},
	"orgs":     {{"id", "ID"}, {"a", "A"}, {"org_name", "OrgName"}, {"org_code", "Code"}, {"top_id", "TopID"}},
	"profiles": {{"id", "ID"}, {"user_id", "UserID"}, {"age", "Age"}, {"b", "B"}},
	"items":    {{"id", "ID"}, {"owner_id", "OwnerID"}, {"b", "B"}},
}

var gRels = map[string]string{"Org": "orgs", "Profile": "profiles", "Boss": "users", "Items": "items"}

// gCol resolves a name to a column of a table: database name, or Go field name
// in any letter case.
func gCol(table, name string) string {
	for _, c := range gCols[table] {
		if c[0] == name {
			return c[0]
		}
	}
	for _, c := range gCols[table] {
		if upper(c[1]) == upper(name) {
			return c[0]
		}
	}
	return ""
}

func isCol(table, col string) bool {
	for _, c := range gCols[table] {
		if c[0] == col {
			return true
		}
	}
	return false
}

// ---- a database that is never asked

type gDialect struct{}

func (gDialect) Name() string { return "dummy" }
func (gDialect) Initialize(db *gorm.DB) error {
	callbacks.RegisterDefaultCallbacks(db, &callbacks.Config{})
	return nil
}
func (gDialect) Migrator(db *gorm.DB) gorm.Migrator                  { return nil }
func (gDialect) DataTypeOf(*schema.Field) string                     { return "text" }
func (gDialect) DefaultValueOf(*schema.Field) clause.Expression      { return clause.Expr{SQL: "DEFAULT"} }
func (gDialect) BindVarTo(w clause.Writer, s *gorm.Statement, v any) { w.WriteByte('?') }
func (gDialect) Explain(sql string, vars ...any) string              { return sql }
func (gDialect) QuoteTo(w clause.Writer, s string) {
	w.WriteByte('`')
	w.WriteString(strings.ReplaceAll(s, ".", "`.`"))
	w.WriteByte('`')
}

type quiet struct{}

func (q quiet) LogMode(logger.LogLevel) logger.Interface                      { return q }
func (quiet) Info(context.Context, string, ...any)                            {}
func (quiet) Warn(context.Context, string, ...any)                            {}
func (quiet) Error(context.Context, string, ...any)                           {}
func (quiet) Trace(context.Context, time.Time, func() (string, int64), error) {}

func openGorm() *gorm.DB {
	db, err := gorm.Open(gDialect{}, &gorm.Config{Logger: quiet{}, DryRun: true, SkipDefaultTransaction: true, DisableAutomaticPing: true})
	if err != nil {
		panic(err)
	}
	for _, m := range []any{&gUser{}, &gOrg{}, &gProfile{}, &gItem{}} {
		if err := (&gorm.Statement{DB: db}).Parse(m); err != nil {
			panic(err)
		}
	}
	return db
}

var gdb = openGorm()

func applyOne(db *gorm.DB, q string) *gorm.DB { return gormq.ApplyMiniQuery(q)(db) }
