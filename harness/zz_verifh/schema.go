// props: *

package zz_verifh

import (
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/infra/postgres"
)

// Col is one column of the catalog; the order of a table's columns is the order of the list.
type Col struct {
	Schema, Table, Name string
	PK                  bool
}

func colRows(cs []Col) []Row {
	n := map[string]int{}
	var out []Row
	for _, c := range cs {
		k := c.Schema + "." + c.Table
		n[k]++
		pos := fmt.Sprint(n[k])
		pk, key := "f", []string{"", "MUL", "UNI"}[n[k]%3]
		if c.PK {
			pk, key = "t", "PRI"
		}
		out = append(out, Row{
			"TABLE_SCHEMA": c.Schema, "TABLE_NAME": c.Table, "COLUMN_NAME": c.Name, "ORDINAL_POSITION": pos, "COLUMN_KEY": key,
			"PG_NAMESPACE.NSPNAME": c.Schema, "PG_CLASS.RELNAME": c.Table, "PG_ATTRIBUTE.ATTNAME": c.Name, "PG_ATTRIBUTE.ATTNUM": pos, "PK": pk,
			"PG_CLASS.RELKIND": "r",
		})
	}
	return out
}

// Catalogs serves the columns in *cur through the three dialects.
func Catalogs(r *rand.Rand, cur *[]Col) (*mysql.DB, *postgres.DB, *FakeHasura) {
	my := &FakeDB{Reply: func(q string, a []driver.Value) (*Rows, error) {
		res := &Rows{Cols: []string{"COLUMN_NAME", "COLUMN_KEY", "TABLE_NAME"}}
		for _, x := range EvalCatalog(r, q, a, colRows(*cur)) {
			res.Data = append(res.Data, []driver.Value{x["COLUMN_NAME"], x["COLUMN_KEY"], x["TABLE_NAME"]})
		}
		return res, nil
	}}
	pg := &FakeDB{Reply: func(q string, a []driver.Value) (*Rows, error) {
		res := &Rows{Cols: []string{"table_name", "column_name", "is_pk"}}
		for _, x := range EvalCatalog(r, q, a, colRows(*cur)) {
			res.Data = append(res.Data, []driver.Value{x["PG_CLASS.RELNAME"], x["PG_ATTRIBUTE.ATTNAME"], x["PK"] == "t"})
		}
		return res, nil
	}}
	ha := NewFakeHasura(func(c HasuraCall) (int, string) {
		res := [][]string{{"table_name", "column_name", "is_pk"}}
		for _, x := range EvalCatalog(r, c.SQL(), nil, colRows(*cur)) {
			res = append(res, []string{x["PG_CLASS.RELNAME"], x["PG_ATTRIBUTE.ATTNAME"], x["PK"]})
		}
		b, _ := json.Marshal(map[string]interface{}{"result_type": "TuplesOk", "result": res})
		return 200, string(b)
	})
	return mysql.NewDB(my.Sqlx("mysql")), postgres.NewDB(pg.Sqlx("postgres")), ha
}
