// props: *

package zz_verifh

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sync"

	"github.com/jmoiron/sqlx"
	"github.com/mrasu/GravityR/infra/hasura"
)

// Rows is a canned result of the fake database.
type Rows struct {
	Cols []string
	Data [][]driver.Value
	Err  error // ends the rows instead of io.EOF
}

// FakeDB is a database/sql driver that records every statement.
type FakeDB struct {
	mu    sync.Mutex
	Log   []string
	Args  [][]driver.Value
	Reply func(query string, args []driver.Value) (*Rows, error)
}

func (f *FakeDB) record(q string, args []driver.NamedValue) (*Rows, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	var as []driver.Value
	for _, a := range args {
		as = append(as, a.Value)
	}
	f.Log = append(f.Log, q)
	f.Args = append(f.Args, as)
	if f.Reply == nil {
		return &Rows{}, nil
	}
	return f.Reply(q, as)
}

func (f *FakeDB) Connect(context.Context) (driver.Conn, error) { return &fakeConn{f}, nil }
func (f *FakeDB) Driver() driver.Driver                        { return nil }

// Sqlx opens a sqlx handle that binds in the style of the named driver.
func (f *FakeDB) Sqlx(name string) *sqlx.DB { return sqlx.NewDb(sql.OpenDB(f), name) }

type fakeConn struct{ f *FakeDB }

func (c *fakeConn) Prepare(string) (driver.Stmt, error) { return nil, fmt.Errorf("fake: prepare") }
func (c *fakeConn) Close() error                        { return nil }
func (c *fakeConn) Begin() (driver.Tx, error)           { return nil, fmt.Errorf("fake: begin") }
func (c *fakeConn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	_, err := c.f.record(q, args)
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(0), nil
}
func (c *fakeConn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	r, err := c.f.record(q, args)
	if err != nil {
		return nil, err
	}
	return &fakeRows{r: r}, nil
}

type fakeRows struct {
	r *Rows
	i int
}

func (r *fakeRows) Columns() []string { return r.r.Cols }
func (r *fakeRows) Close() error      { return nil }
func (r *fakeRows) Next(dst []driver.Value) error {
	if r.i >= len(r.r.Data) {
		if r.r.Err != nil {
			return r.r.Err
		}
		return io.EOF
	}
	copy(dst, r.r.Data[r.i])
	r.i++
	return nil
}

// HasuraCall is one request received by the fake Hasura.
type HasuraCall struct {
	Path string
	Body map[string]interface{}
}

// SQL returns the text of a run_sql request.
func (c HasuraCall) SQL() string {
	a, _ := c.Body["args"].(map[string]interface{})
	s, _ := a["sql"].(string)
	return s
}

// FakeHasura is an HTTP server standing in for Hasura.
type FakeHasura struct {
	mu    sync.Mutex
	Calls []HasuraCall
	Reply func(c HasuraCall) (int, string)
	srv   *httptest.Server
}

func NewFakeHasura(reply func(c HasuraCall) (int, string)) *FakeHasura {
	f := &FakeHasura{Reply: reply}
	f.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		c := HasuraCall{Path: r.URL.Path}
		_ = json.Unmarshal(b, &c.Body)
		f.mu.Lock()
		f.Calls = append(f.Calls, c)
		st, body := f.Reply(c)
		f.mu.Unlock()
		if st < 0 { // broken connection
			panic(http.ErrAbortHandler)
		}
		w.WriteHeader(st)
		_, _ = io.WriteString(w, body)
	}))
	return f
}

func (f *FakeHasura) Close() { f.srv.Close() }
func (f *FakeHasura) Client() *hasura.Client {
	u, _ := url.Parse(f.srv.URL)
	return hasura.NewClient(&hasura.Config{Url: u, AdminSecret: "s"})
}
func (f *FakeHasura) Reset() { f.mu.Lock(); f.Calls = nil; f.mu.Unlock() }
