package fault

import (
	"context"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/types"
	"github.com/leftmike/maho/zzverif/sym"
)

var ctx = context.Background()

// Reported tells whether err reports the failure of the store.
func Reported(err error) bool {
	return err != nil && strings.Contains(err.Error(), Err.Error())
}

var (
	DB    = types.ID("f", true)
	Table = types.TableName{Database: types.MAHO, Schema: types.ID("s", true), Table: types.ID("t", true)}
	Cols  = []types.Identifier{types.ID("c", true)}
	Types = []types.ColumnType{{Type: types.BoolType}}
)

// Catalog describes everything a user can see of the databases and schemas and
// the tables used here.
func Catalog(eng engine.Engine) string {
	dbs, err := eng.ListDatabases()
	sym.Assert(err == nil, "databases are listed once the store works again")
	out := ""
	tx := eng.Begin()
	for _, d := range dbs {
		out += d.String() + "("
		l, err := tx.ListSchemas(ctx, d)
		sym.Assert(err == nil, "schemas are listed once the store works again")
		for _, s := range l {
			out += s.String()
			for _, n := range []types.Identifier{types.ID("t", true), types.ID("u", true)} {
				if _, err := tx.OpenTable(ctx, types.TableName{Database: d, Schema: s, Table: n}); err == nil {
					out += "." + n.String()
				}
			}
			out += " "
		}
		out += ")"
	}
	sym.Assert(tx.Rollback() == nil, "a transaction ends once the store works again")
	return out
}

// Pick returns a symbolic value below n.
func Pick(nm string, n int) int {
	b := sym.Byte(nm)
	sym.Assume(int(b) < n)
	return int(b)
}

func Name(nm string) types.Identifier {
	name := sym.String(nm, 1)
	sym.Assume(sym.Or(name[0] < 0x80, name[0] >= 0xC0))
	return types.ID(name, true)
}

func Engine() (*Store, engine.Engine) {
	st := New()
	sym.Assert(engine.Init(st) == nil, "init")
	eng := engine.NewEngine(st)
	sym.Assert(eng.CreateDatabase(DB, nil) == nil, "create database")
	tx := eng.Begin()
	sym.Assert(tx.CreateSchema(ctx, types.SchemaName{Database: DB, Schema: types.PUBLIC}) == nil, "create schema")
	sym.Assert(tx.CreateSchema(ctx, Table.SchemaName()) == nil, "create schema")
	for _, tn := range []types.TableName{Table, {Database: DB, Schema: types.PUBLIC, Table: types.ID("t", true)}} {
		sym.Assert(tx.CreateTable(ctx, tn, Cols, Types, nil) == nil, "create table")
	}
	sym.Assert(tx.Commit(ctx) == nil, "commit")
	return st, eng
}
