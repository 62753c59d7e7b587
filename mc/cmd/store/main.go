// Command store checks properties of the storage backends.
package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/mck"
	"verifmc/world"
)

func main() { mck.Main() }

var ctx = context.Background()

// kv is what a namespace holds.
type kv map[string]string

func (m kv) clone() kv {
	n := kv{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (m kv) String() string {
	var l []string
	for k, v := range m {
		if len(v) > 40 {
			v = fmt.Sprintf("%s... (%d bytes)", v[:20], len(v))
		}
		l = append(l, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

// value makes the message stored for v; that for "" takes no bytes.
func value(v string) *pb.LeafData {
	if v == "" {
		return &pb.LeafData{}
	}
	return &pb.LeafData{LeafInput: []byte(v)}
}

// get reads a key, telling a missing one from an empty one.
func get(r verifiable.KeyReader, k string) (v string, ok bool, err error) {
	d := pb.LeafData{LeafInput: []byte("was not overwritten")}
	err = r.Get(ctx, []byte(k), &d)
	if err == verifiable.ErrNoSuchKey {
		return "", false, nil
	}
	if err != nil {
		return "", false, err
	}
	return string(d.LeafInput), true, nil
}

// compare reads keys and compares them with the model.
func compare(r verifiable.KeyReader, keys []string, m kv) error {
	for _, k := range keys {
		v, ok, err := get(r, k)
		if err != nil {
			return fmt.Errorf("reading %q: %v", k, err)
		}
		want, has := m[k]
		if ok != has || v != want {
			return fmt.Errorf("key %q: present %v, value %.40q (%d bytes) instead of %v", k, ok, v, len(v), m)
		}
	}
	return nil
}

// readBack compares all of a namespace in a transaction of its own.
func readBack(db world.Storage, ns string, keys []string, m kv) error {
	return db.ExecuteReadOnly(ctx, []byte(ns), func(_ context.Context, r verifiable.KeyReader) error {
		return compare(r, keys, m)
	})
}
