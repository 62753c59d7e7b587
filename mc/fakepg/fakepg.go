// Package fakepg is a model of a PostgreSQL server, behind its real wire
// protocol, for clients in the same process: transactions with read committed
// or snapshot isolation, table and row locks, deadlock detection. It knows the
// few statements that a key-value store on tables (key, value) needs.
package fakepg

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"

	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/jackc/pgx/v5/pgproto3"
	"github.com/jackc/pgx/v5/pgxpool"

	"verifmc/vs"
)

// Fault is what happens instead of a statement.
type Fault int

// Faults.
const (
	None Fault = iota
	FailStatement
	DropBefore // the connection breaks and the statement is not done
	DropAfter  // the statement is done, and the connection breaks before the answer
)

// DB is a database. It outlives its connections.
type DB struct {
	mu       sync.Mutex
	version  int
	tables   map[string]*table
	sessions []*Session
	// OnStatement is asked about every statement.
	OnStatement func(sql string) Fault
	// Statements counts them.
	Statements int
}

type table struct {
	// versions of each row, oldest first; nil value: deleted
	rows map[string][]version
}

type version struct {
	at    int
	value []byte
	del   bool
}

// New makes an empty database.
func New() *DB { return &DB{tables: map[string]*table{}} }

// Dump gives the committed contents.
func (db *DB) Dump() string {
	db.mu.Lock()
	defer db.mu.Unlock()
	var l []string
	for n, t := range db.tables {
		for k, vs := range t.rows {
			v := vs[len(vs)-1]
			if !v.del {
				l = append(l, fmt.Sprintf("%s %x=%x", n, k, v.value))
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

type write struct {
	table, key string
	value      []byte
	del        bool
}

type lock struct {
	table string
	mode  int
}

// Session is one connection.
type Session struct {
	db         *DB
	in, out    bytes.Buffer
	started    bool
	closed     bool
	scheduled  bool // the last write came from a goroutine under the scheduler
	prepared   map[string]*statement
	portal     *portal
	inTx       bool
	failed     bool
	skip       bool // until Sync
	snapshot   int  // sees versions below it; 0: a new one for each statement
	snapWanted bool
	readOnly   bool
	created    map[string]bool
	writes     []write
	locks      []lock
	blocked    func() bool // whether the pending statement still cannot run
	waitFor    *Session
	pending    func()
}

type portal struct {
	st      *statement
	args    [][]byte
	formats []int16
}

// Pool makes a pool of one connection to the database, and takes it.
func (db *DB) Pool() (*pgxpool.Pool, *pgxpool.Conn, error) {
	conf, err := pgxpool.ParseConfig("postgres://user:pw@localhost:5432/db?sslmode=disable&pool_max_conns=1")
	if err != nil {
		return nil, nil, err
	}
	conf.ConnConfig.DialFunc = func(context.Context, string, string) (net.Conn, error) { return db.Connect(), nil }
	conf.ConnConfig.LookupFunc = func(context.Context, string) ([]string, error) { return []string{"127.0.0.1"}, nil }
	p, err := pgxpool.NewWithConfig(context.Background(), conf)
	if err != nil {
		return nil, nil, err
	}
	c, err := p.Acquire(context.Background())
	if err != nil {
		p.Close()
		return nil, nil, err
	}
	return p, c, nil
}

// Connect opens a connection.
func (db *DB) Connect() net.Conn {
	db.mu.Lock()
	defer db.mu.Unlock()
	s := &Session{db: db, prepared: map[string]*statement{}}
	db.sessions = append(db.sessions, s)
	return s
}

// ---- net.Conn

type addr struct{}

func (addr) Network() string { return "fake" }
func (addr) String() string  { return "fake" }

// LocalAddr is as in net.Conn.
func (s *Session) LocalAddr() net.Addr { return addr{} }

// RemoteAddr is as in net.Conn.
func (s *Session) RemoteAddr() net.Addr { return addr{} }

// SetDeadline is as in net.Conn.
func (s *Session) SetDeadline(time.Time) error { return nil }

// SetReadDeadline is as in net.Conn.
func (s *Session) SetReadDeadline(time.Time) error { return nil }

// SetWriteDeadline is as in net.Conn.
func (s *Session) SetWriteDeadline(time.Time) error { return nil }

// Close is as in net.Conn.
func (s *Session) Close() error {
	s.db.mu.Lock()
	defer s.db.mu.Unlock()
	s.drop()
	return nil
}

func (s *Session) drop() {
	s.closed = true
	s.blocked, s.pending = nil, nil
	s.end(false)
}

// Write is as in net.Conn.
func (s *Session) Write(b []byte) (int, error) {
	s.db.mu.Lock()
	defer s.db.mu.Unlock()
	if s.closed {
		return 0, net.ErrClosed
	}
	s.scheduled = vs.Current() != nil
	s.in.Write(b)
	s.process()
	return len(b), nil
}

type canGo struct{ s *Session }

// Ready says whether the session's statement can run now.
func (c canGo) Ready() bool {
	c.s.db.mu.Lock()
	defer c.s.db.mu.Unlock()
	return c.s.closed || c.s.blocked == nil || !c.s.blocked()
}

// Read is as in net.Conn.
func (s *Session) Read(b []byte) (int, error) {
	for {
		s.db.mu.Lock()
		if s.scheduled && vs.Current() == nil {
			// pgx reads in the background when a write took long
			s.db.mu.Unlock()
			time.Sleep(100 * time.Microsecond)
			return 0, nil
		}
		if s.blocked != nil && !s.blocked() {
			s.process()
		}
		if s.out.Len() > 0 {
			n, err := s.out.Read(b)
			s.db.mu.Unlock()
			return n, err
		}
		if s.closed {
			s.db.mu.Unlock()
			return 0, io.EOF
		}
		blocked := s.blocked != nil
		s.db.mu.Unlock()
		if !blocked {
			// nothing has been asked: only a background reader does this
			time.Sleep(time.Millisecond)
			continue
		}
		vs.Wait(canGo{s}, "waiting for a lock in the database")
	}
}

// ---- protocol

func (s *Session) send(m pgproto3.BackendMessage) {
	b, err := m.Encode(nil)
	if err != nil {
		panic("mck: " + err.Error())
	}
	s.out.Write(b)
}

func (s *Session) fail(code, msg string) {
	s.send(&pgproto3.ErrorResponse{Severity: "ERROR", Code: code, Message: msg})
	if s.inTx {
		s.failed = true
	}
}

func (s *Session) ready() {
	st := byte('I')
	if s.inTx {
		st = 'T'
		if s.failed {
			st = 'E'
		}
	}
	s.send(&pgproto3.ReadyForQuery{TxStatus: st})
}

// process handles the messages that are complete.
func (s *Session) process() {
	if s.pending != nil {
		if s.blocked != nil && s.blocked() {
			return
		}
		p := s.pending
		s.pending, s.blocked, s.waitFor = nil, nil, nil
		p()
	}
	for s.pending == nil && !s.closed {
		b := s.in.Bytes()
		if !s.started {
			if len(b) < 4 {
				return
			}
			n := int(binary.BigEndian.Uint32(b))
			if len(b) < n {
				return
			}
			s.in.Next(n)
			s.started = true
			s.send(&pgproto3.AuthenticationOk{})
			s.send(&pgproto3.ParameterStatus{Name: "client_encoding", Value: "UTF8"})
			s.send(&pgproto3.ParameterStatus{Name: "standard_conforming_strings", Value: "on"})
			s.send(&pgproto3.BackendKeyData{ProcessID: 1, SecretKey: 1})
			s.ready()
			continue
		}
		if len(b) < 5 {
			return
		}
		n := int(binary.BigEndian.Uint32(b[1:]))
		if len(b) < n+1 {
			return
		}
		t := b[0]
		body := append([]byte{}, b[5:n+1]...)
		s.in.Next(n + 1)
		if s.skip && t != 'S' {
			continue
		}
		s.message(t, body)
	}
}

func dec(m pgproto3.FrontendMessage, b []byte) {
	if err := m.Decode(b); err != nil {
		panic("mck: " + err.Error())
	}
}

func (s *Session) message(t byte, b []byte) {
	ext := func(code, msg string) {
		s.fail(code, msg)
		s.skip = true
	}
	switch t {
	case 'Q':
		var m pgproto3.Query
		dec(&m, b)
		st, err := parse(m.String)
		if err != nil {
			s.fail("0A000", err.Error())
			s.ready()
			return
		}
		s.run(st, nil, nil, true, s.ready)
	case 'P':
		var m pgproto3.Parse
		dec(&m, b)
		st, err := parse(m.Query)
		if err != nil {
			ext("0A000", err.Error())
			return
		}
		if s.failed && !st.ends() {
			ext("25P02", "current transaction is aborted")
			return
		}
		if st.table != "" && st.kind != "create" && !s.exists(st.table) {
			ext("42P01", "relation "+st.table+" does not exist")
			return
		}
		s.prepared[m.Name] = st
		s.send(&pgproto3.ParseComplete{})
	case 'D':
		var m pgproto3.Describe
		dec(&m, b)
		var st *statement
		var formats []int16
		if m.ObjectType == 'S' {
			st = s.prepared[m.Name]
		} else if s.portal != nil {
			st = s.portal.st
			formats = s.portal.formats
		}
		if st == nil {
			ext("26000", "no such statement")
			return
		}
		if m.ObjectType == 'S' {
			oids := make([]uint32, st.nargs)
			for i := range oids {
				oids[i] = 17
			}
			s.send(&pgproto3.ParameterDescription{ParameterOIDs: oids})
		}
		if st.kind == "select" {
			s.rowDescription(st, formats)
		} else {
			s.send(&pgproto3.NoData{})
		}
	case 'B':
		var m pgproto3.Bind
		dec(&m, b)
		st := s.prepared[m.PreparedStatement]
		if st == nil {
			ext("26000", "no such statement")
			return
		}
		p := &portal{st: st, formats: m.ResultFormatCodes}
		for i, a := range m.Parameters {
			f := int16(0)
			if len(m.ParameterFormatCodes) == 1 {
				f = m.ParameterFormatCodes[0]
			} else if i < len(m.ParameterFormatCodes) {
				f = m.ParameterFormatCodes[i]
			}
			if a != nil && f == 0 {
				if !bytes.HasPrefix(a, []byte(`\x`)) {
					ext("22P02", "bad bytea")
					return
				}
				var v []byte
				fmt.Sscanf(string(a[2:]), "%x", &v)
				a = v
			}
			if a != nil {
				a = append([]byte{}, a...)
			}
			p.args = append(p.args, a)
		}
		s.portal = p
		s.send(&pgproto3.BindComplete{})
	case 'E':
		if s.portal == nil {
			ext("34000", "no portal")
			return
		}
		p := s.portal
		s.run(p.st, p.args, p.formats, false, func() {})
	case 'C':
		var m pgproto3.Close
		dec(&m, b)
		if m.ObjectType == 'S' {
			delete(s.prepared, m.Name)
		}
		s.send(&pgproto3.CloseComplete{})
	case 'S':
		s.skip = false
		s.portal = nil
		s.ready()
	case 'H':
	case 'X':
		s.drop()
	default:
		panic(fmt.Sprintf("mck: message %q", t))
	}
}

func (s *Session) rowDescription(st *statement, formats []int16) {
	rd := &pgproto3.RowDescription{}
	for i, c := range st.cols {
		f := int16(0)
		if len(formats) == 1 {
			f = formats[0]
		} else if i < len(formats) {
			f = formats[i]
		}
		rd.Fields = append(rd.Fields, pgproto3.FieldDescription{Name: []byte(c), DataTypeOID: 17, DataTypeSize: -1, TypeModifier: -1, Format: f})
	}
	s.send(rd)
}

// ---- statements

type statement struct {
	kind     string
	sql      string
	table    string
	cols     []string
	key, val int // parameters
	nargs    int
	conflict string // of an insert: "", "update", "nothing"
	mode     int
	snapshot bool
	readOnly bool
	forUpd   bool
}

func (st *statement) ends() bool { return st.kind == "commit" || st.kind == "rollback" }

var modes = []string{"access share", "row share", "row exclusive", "share update exclusive", "share", "share row exclusive", "exclusive", "access exclusive"}

// conflicts[m] are the modes that conflict with mode m.
var conflicts = []string{"7", "67", "4567", "34567", "23567", "234567", "1234567", "01234567"}

func conflict(a, b int) bool { return strings.Contains(conflicts[a], fmt.Sprint(b)) }

var spaces = regexp.MustCompile(`\s+`)

const ident = `(?:"([^"]+)"|([a-z_][a-z0-9_]*))`

var (
	reSelect = regexp.MustCompile(`^select ([a-z*, 0-9]+) from ` + ident + ` where key ?= ?\$1( for update| for share)?( limit 1)?$`)
	reInsert = regexp.MustCompile(`^insert into ` + ident + ` ?\( ?key ?, ?value ?\) values ?\( ?\$(\d) ?, ?\$(\d) ?\)( on conflict ?(?:\( ?key ?\))? do (nothing|update set value ?= ?(?:\$\d|excluded\.value)))?$`)
	reUpdate = regexp.MustCompile(`^update ` + ident + ` set value ?= ?\$(\d) where key ?= ?\$(\d)$`)
	reDelete = regexp.MustCompile(`^delete from ` + ident + ` where key ?= ?\$1$`)
	reCreate = regexp.MustCompile(`^create table( if not exists)? ` + ident + ` ?\(.*\)$`)
	reLock   = regexp.MustCompile(`^lock (?:table )?` + ident + `(?: in ([a-z ]+) mode)?$`)
	reBegin  = regexp.MustCompile(`^(?:begin|start transaction)( transaction| work)?(.*)$`)
)

func parse(sql string) (*statement, error) {
	q := strings.TrimSuffix(strings.TrimSpace(spaces.ReplaceAllString(sql, " ")), ";")
	// lower case outside quotes
	parts := strings.Split(q, `"`)
	for i := 0; i < len(parts); i += 2 {
		parts[i] = strings.ToLower(parts[i])
	}
	q = strings.TrimSpace(strings.Join(parts, `"`))
	st := &statement{sql: q}
	pick := func(a, b string) string {
		if a == "" {
			a = b
		}
		if len(a) > 63 { // the longest identifier; what is beyond is dropped
			a = a[:63]
		}
		return a
	}
	num := func(a string) int { return int(a[0]-'0') - 1 }
	if m := reSelect.FindStringSubmatch(q); m != nil {
		st.kind, st.table, st.nargs, st.forUpd = "select", pick(m[2], m[3]), 1, m[4] != ""
		for _, c := range strings.Split(m[1], ",") {
			c = strings.TrimSpace(c)
			if c == "*" {
				st.cols = append(st.cols, "key", "value")
				continue
			}
			if c != "key" && c != "value" {
				return nil, fmt.Errorf("unknown column %s", c)
			}
			st.cols = append(st.cols, c)
		}
		return st, nil
	}
	if m := reInsert.FindStringSubmatch(q); m != nil {
		st.kind, st.table, st.key, st.val, st.nargs = "insert", pick(m[1], m[2]), num(m[3]), num(m[4]), 2
		if m[5] != "" {
			st.conflict = strings.SplitN(m[6], " ", 2)[0]
			if i := strings.Index(m[6], "$"); i >= 0 && num(m[6][i+1:]) != st.val {
				return nil, errors.New("unsupported update of another value")
			}
		}
		return st, nil
	}
	if m := reUpdate.FindStringSubmatch(q); m != nil {
		st.kind, st.table, st.val, st.key, st.nargs = "update", pick(m[1], m[2]), num(m[3]), num(m[4]), 2
		return st, nil
	}
	if m := reDelete.FindStringSubmatch(q); m != nil {
		st.kind, st.table, st.nargs = "delete", pick(m[1], m[2]), 1
		return st, nil
	}
	if m := reCreate.FindStringSubmatch(q); m != nil {
		st.kind, st.table = "create", pick(m[2], m[3])
		if m[1] != "" {
			st.conflict = "nothing"
		}
		return st, nil
	}
	if m := reLock.FindStringSubmatch(q); m != nil {
		st.kind, st.table, st.mode = "lock", pick(m[1], m[2]), 7
		if m[3] != "" {
			st.mode = -1
			for i, n := range modes {
				if n == m[3] {
					st.mode = i
				}
			}
			if st.mode < 0 {
				return nil, errors.New("bad lock mode")
			}
		}
		return st, nil
	}
	if m := reBegin.FindStringSubmatch(q); m != nil {
		st.kind = "begin"
		st.snapshot = strings.Contains(m[2], "repeatable read") || strings.Contains(m[2], "serializable")
		st.readOnly = strings.Contains(m[2], "read only")
		return st, nil
	}
	switch {
	case q == "commit" || q == "end" || q == "commit transaction":
		st.kind = "commit"
	case q == "rollback" || q == "abort":
		st.kind = "rollback"
	case q == "" || strings.HasPrefix(q, "--") || strings.HasPrefix(q, "deallocate") || strings.HasPrefix(q, "discard"):
		st.kind = "empty"
	default:
		return nil, fmt.Errorf("fakepg does not know the statement %q", q)
	}
	return st, nil
}

func (s *Session) exists(t string) bool { return s.db.tables[t] != nil || s.created[t] }

// run runs a statement, now or when it is no longer blocked.
func (s *Session) run(st *statement, args [][]byte, formats []int16, simple bool, then func()) {
	db := s.db
	db.Statements++
	f := None
	if db.OnStatement != nil {
		f = db.OnStatement(st.sql)
	}
	switch f {
	case DropBefore:
		s.drop()
		return
	case FailStatement:
		if st.ends() {
			s.end(false)
		}
		s.fail("XX000", "injected failure")
		s.skip = !simple
		then()
		return
	}
	s.attempt(st, args, formats, simple, then)
	if f == DropAfter {
		s.out.Reset()
		s.drop()
	}
}

func (s *Session) attempt(st *statement, args [][]byte, formats []int16, simple bool, then func()) {
	bad := func(code, msg string) {
		s.fail(code, msg)
		s.skip = !simple
		then()
	}
	if s.failed && !st.ends() {
		bad("25P02", "current transaction is aborted")
		return
	}
	if st.table != "" && st.kind != "create" && !s.exists(st.table) {
		bad("42P01", "relation does not exist")
		return
	}
	var key string
	if st.nargs > 0 {
		if st.key >= len(args) || args[st.key] == nil {
			if st.kind == "insert" {
				bad("23502", "null key")
				return
			}
		} else {
			key = string(args[st.key])
		}
	}
	writes := st.kind == "insert" || st.kind == "update" || st.kind == "delete"
	if s.readOnly && (writes || st.kind == "create" || (st.kind == "lock" && st.mode > 1)) {
		bad("25006", "cannot execute in a read-only transaction")
		return
	}
	mode := map[string]int{"select": 0, "insert": 2, "update": 2, "delete": 2, "lock": st.mode}
	blocker := func() *Session {
		for _, o := range s.db.sessions {
			if o == s || o.closed {
				continue
			}
			if m, ok := mode[st.kind]; ok {
				for _, l := range o.locks {
					if l.table == st.table && conflict(m, l.mode) {
						return o
					}
				}
			}
			if writes || st.forUpd {
				for _, w := range o.writes {
					if w.table == st.table && w.key == key {
						return o
					}
				}
			}
			if st.kind == "create" && o.created[st.table] {
				return o
			}
		}
		return nil
	}
	if b := blocker(); b != nil {
		for o := b; o != nil; o = o.waitFor {
			if o == s {
				bad("40P01", "deadlock detected")
				return
			}
		}
		s.waitFor = b
		s.blocked = func() bool { return blocker() != nil }
		s.pending = func() { s.attempt(st, args, formats, simple, then) }
		return
	}
	auto := false
	if !s.inTx && st.kind != "begin" && !st.ends() && st.kind != "empty" {
		if st.kind == "lock" {
			bad("25P01", "LOCK TABLE can only be used in transaction blocks")
			return
		}
		auto = true
	}
	if m, ok := mode[st.kind]; ok {
		s.locks = append(s.locks, lock{st.table, m})
	}
	if s.snapshot == 0 && s.snapWanted && !auto && st.kind != "begin" && !st.ends() {
		s.snapshot = s.db.version + 1
	}
	tag := ""
	switch st.kind {
	case "begin":
		s.inTx, s.failed = true, false
		s.snapWanted, s.readOnly = st.snapshot, st.readOnly
		s.snapshot = 0
		tag = "BEGIN"
	case "commit":
		tag = "COMMIT"
		if s.failed || !s.inTx {
			tag = "ROLLBACK"
		}
		s.end(!s.failed)
	case "rollback":
		tag = "ROLLBACK"
		s.end(false)
	case "empty":
		if simple {
			s.send(&pgproto3.EmptyQueryResponse{})
			then()
			return
		}
		tag = "EMPTY"
	case "create":
		if s.exists(st.table) {
			if st.conflict == "" {
				bad("42P07", "relation exists")
				return
			}
		} else {
			if s.created == nil {
				s.created = map[string]bool{}
			}
			s.created[st.table] = true
		}
		tag = "CREATE TABLE"
	case "lock":
		tag = "LOCK TABLE"
	case "select":
		v, ok := s.read(st.table, key)
		if simple {
			s.rowDescription(st, nil)
		}
		n := 0
		if ok && st.key < len(args) && args[st.key] != nil {
			n = 1
			row := &pgproto3.DataRow{}
			for i, c := range st.cols {
				val := v
				if c == "key" {
					val = []byte(key)
				}
				f := int16(0)
				if len(formats) == 1 {
					f = formats[0]
				} else if i < len(formats) {
					f = formats[i]
				}
				if f == 0 && val != nil {
					val = []byte(fmt.Sprintf(`\x%x`, val))
				}
				row.Values = append(row.Values, val)
			}
			s.send(row)
		}
		tag = fmt.Sprint("SELECT ", n)
	case "insert", "update", "delete":
		if s.snapshot > 0 && s.latest(st.table, key) >= s.snapshot {
			bad("40001", "could not serialize access")
			return
		}
		_, ok := s.read(st.table, key)
		n := 1
		w := write{table: st.table, key: key}
		switch st.kind {
		case "insert":
			if ok && st.conflict == "" {
				bad("23505", "duplicate key")
				return
			}
			if ok && st.conflict == "nothing" {
				n = 0
			}
			w.value = args[st.val]
		case "update":
			w.value = args[st.val]
			if !ok {
				n = 0
			}
		case "delete":
			w.del = true
			if !ok {
				n = 0
			}
		}
		if n > 0 {
			s.writes = append(s.writes, w)
		}
		tag = fmt.Sprint(strings.ToUpper(st.kind), " ", n)
		if st.kind == "insert" {
			tag = fmt.Sprint("INSERT 0 ", n)
		}
	}
	if auto {
		s.end(true)
	}
	s.send(&pgproto3.CommandComplete{CommandTag: []byte(tag)})
	then()
}

func (s *Session) latest(t, k string) int {
	tb := s.db.tables[t]
	if tb == nil || len(tb.rows[k]) == 0 {
		return 0
	}
	l := tb.rows[k]
	return l[len(l)-1].at
}

func (s *Session) read(t, k string) ([]byte, bool) {
	for i := len(s.writes) - 1; i >= 0; i-- {
		if w := s.writes[i]; w.table == t && w.key == k {
			return w.value, !w.del
		}
	}
	tb := s.db.tables[t]
	if tb == nil {
		return nil, false
	}
	l := tb.rows[k]
	for i := len(l) - 1; i >= 0; i-- {
		if s.snapshot > 0 && l[i].at >= s.snapshot {
			continue
		}
		return l[i].value, !l[i].del
	}
	return nil, false
}

// end ends the transaction.
func (s *Session) end(commit bool) {
	if commit {
		for t := range s.created {
			s.db.tables[t] = &table{rows: map[string][]version{}}
		}
		if len(s.writes) > 0 {
			s.db.version++
			for _, w := range s.writes {
				tb := s.db.tables[w.table]
				tb.rows[w.key] = append(tb.rows[w.key], version{at: s.db.version, value: w.value, del: w.del})
			}
		}
	}
	s.created, s.writes, s.locks = nil, nil, nil
	s.inTx, s.failed, s.readOnly, s.snapWanted, s.snapshot = false, false, false, false, 0
}

// Crash breaks all connections, rolling their transactions back.
func (db *DB) Crash() {
	db.mu.Lock()
	defer db.mu.Unlock()
	for _, s := range db.sessions {
		if !s.closed {
			s.drop()
		}
	}
	db.sessions = nil
}
