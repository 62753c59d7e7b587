package world

import (
	"bytes"
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/emptypb"
)

// Store is a transactional store of the simplest kind: an update works on a
// copy, which replaces the namespace when it ends without error. Every storage
// operation can be made to fail.
type Store struct {
	mu sync.Mutex
	m  map[string]map[string][]byte

	// Fault, if set, is asked before every operation (begin, get, set, commit),
	// and its error becomes the operation's.
	Fault func(op string) error
	// Ops counts operations.
	Ops int
	// Version counts committed updates that changed something.
	Version int
	// Rough makes it a store without transactions: what a failed update wrote stays.
	Rough bool
}

func (s *Store) op(op string) error {
	s.Ops++
	if s.Fault != nil {
		return s.Fault(op)
	}
	return nil
}

// Clone is a copy, without faults.
func (s *Store) Clone() *Store {
	rv := &Store{m: map[string]map[string][]byte{}}
	for ns, m := range s.m {
		rv.m[ns] = copyNS(m)
	}
	return rv
}

func copyNS(m map[string][]byte) map[string][]byte {
	rv := make(map[string][]byte, len(m)+8)
	for k, v := range m {
		rv[k] = v
	}
	return rv
}

// Dump is everything stored.
func (s *Store) Dump() string {
	var l []string
	for ns, m := range s.m {
		for k, v := range m {
			l = append(l, fmt.Sprintf("%x/%x=%x", ns, k, v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

type tx struct {
	s     *Store
	m     map[string][]byte
	write bool
	done  bool
	dirty bool
}

func (t *tx) Get(ctx context.Context, key []byte, value proto.Message) error {
	if t.done {
		panic("the storage was read after its transaction ended")
	}
	if err := t.s.op("get"); err != nil {
		return err
	}
	v, ok := t.m[string(key)]
	if !ok {
		return verifiable.ErrNoSuchKey
	}
	return proto.Unmarshal(v, value)
}

func (t *tx) Set(ctx context.Context, key []byte, value proto.Message) error {
	if t.done || !t.write {
		panic("the storage was written outside of an update")
	}
	if err := t.s.op("set"); err != nil {
		return err
	}
	if value == nil {
		if _, ok := t.m[string(key)]; ok {
			t.dirty = true
		}
		delete(t.m, string(key))
		return nil
	}
	b, err := proto.Marshal(value)
	if err != nil {
		return err
	}
	if old, ok := t.m[string(key)]; !ok || !bytes.Equal(old, b) {
		t.dirty = true
	}
	t.m[string(key)] = b
	return nil
}

// ExecuteReadOnly implements verifiable.StorageReader.
func (s *Store) ExecuteReadOnly(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.op("begin"); err != nil {
		return err
	}
	t := &tx{s: s, m: s.m[string(ns)]}
	defer func() { t.done = true }()
	return f(ctx, t)
}

// ExecuteUpdate implements verifiable.StorageWriter.
func (s *Store) ExecuteUpdate(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.op("begin"); err != nil {
		return err
	}
	t := &tx{s: s, m: copyNS(s.m[string(ns)]), write: true}
	if s.Rough {
		if s.m == nil {
			s.m = map[string]map[string][]byte{}
		}
		s.m[string(ns)] = t.m
	}
	defer func() { t.done = true }()
	if err := f(ctx, t); err != nil {
		return err
	}
	if err := s.op("commit"); err != nil {
		return err
	}
	if t.dirty {
		s.Version++
	}
	if s.m == nil {
		s.m = map[string]map[string][]byte{}
	}
	s.m[string(ns)] = t.m
	return nil
}

// Frozen reads what a store holds now, which does not change any more; At, if
// set, is called before every operation, and may read too.
type Frozen struct {
	s  *Store
	At func(op string)
}

// Freeze is what s holds.
func Freeze(s *Store) *Frozen { return &Frozen{s: s.Clone()} }

// ExecuteReadOnly implements verifiable.StorageReader.
func (f *Frozen) ExecuteReadOnly(ctx context.Context, ns []byte, do func(ctx context.Context, db verifiable.KeyReader) error) error {
	at := func(op string) error {
		if f.At != nil {
			f.At(op)
		}
		return nil
	}
	at("begin")
	t := &tx{s: &Store{Fault: at}, m: f.s.m[string(ns)]}
	defer func() { t.done = true }()
	err := do(ctx, t)
	at("end")
	return err
}

// Beside runs do while its caller stays where it is; if do has not come to an
// end after some seconds, it may be waiting for the caller, which goes on. The
// channel is closed when do has ended.
func Beside(do func()) <-chan struct{} {
	done := make(chan struct{})
	go func() {
		defer close(done)
		do()
	}()
	wait := 5 * time.Second
	if waits.Load() {
		wait = time.Millisecond
	}
	t := time.NewTimer(wait)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		waits.Store(true)
	}
	return done
}

var waits atomic.Bool

// Versions is a store whose readers see what was committed when they began,
// whatever is committed meanwhile; updates take turns.
type Versions struct {
	turn sync.Mutex
	mu   sync.Mutex
	s    *Store
	// At, if set, is called before every operation.
	At func(op string)
}

// NewVersions begins with what s holds.
func NewVersions(s *Store) *Versions { return &Versions{s: s.Clone()} }

func (v *Versions) at(op string) error {
	if v.At != nil {
		v.At(op)
	}
	return nil
}

func (v *Versions) get(ns []byte) map[string][]byte {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.s.m[string(ns)]
}

// Dump is everything stored.
func (v *Versions) Dump() string {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.s.Dump()
}

// ExecuteReadOnly implements verifiable.StorageReader.
func (v *Versions) ExecuteReadOnly(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
	v.at("begin")
	t := &tx{s: &Store{Fault: v.at}, m: v.get(ns)}
	defer func() { t.done = true }()
	err := f(ctx, t)
	v.at("end")
	return err
}

// ExecuteUpdate implements verifiable.StorageWriter.
func (v *Versions) ExecuteUpdate(ctx context.Context, ns []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
	v.at("begin update")
	v.turn.Lock()
	defer v.turn.Unlock()
	t := &tx{s: &Store{Fault: v.at}, m: copyNS(v.get(ns)), write: true}
	defer func() { t.done = true }()
	if err := f(ctx, t); err != nil {
		return err
	}
	v.at("commit")
	v.mu.Lock()
	v.s.m[string(ns)] = t.m
	v.mu.Unlock()
	v.at("committed")
	return nil
}

// CopyTo writes everything stored to another storage, byte for byte.
func (s *Store) CopyTo(db Storage) error {
	for ns, m := range s.m {
		err := db.ExecuteUpdate(Ctx, []byte(ns), func(ctx context.Context, w verifiable.KeyWriter) error {
			for k, v := range m {
				raw := &emptypb.Empty{}
				raw.ProtoReflect().SetUnknown(v)
				if err := w.Set(ctx, []byte(k), raw); err != nil {
					return err
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	return nil
}

// Clone is another store holding the same.
func (v *Versions) Clone() *Store {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.s.Clone()
}
