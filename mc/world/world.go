// Package world builds services from the code under test for the checks.
package world

import (
	"bytes"
	"context"
	"fmt"
	"strings"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
)

// Ctx is the context used throughout.
var Ctx = context.Background()

// Storage is a reader and writer.
type Storage interface {
	verifiable.StorageReader
	verifiable.StorageWriter
}

// Service is the low-level API.
type Service = pb.VerifiableDataStructuresServiceServer

// Instant is an in-memory service with synchronous mutations.
func Instant() Service { return On(&memory.TransientStorage{}, policy.Open) }

// On is a service with synchronous mutations over db.
func On(db Storage, p verifiable.AuthorizationOracle) Service {
	s, err := (&verifiable.Service{AccessPolicy: p, Reader: db, Mutator: &instant.Mutator{Writer: db}}).Create()
	if err != nil {
		panic(err)
	}
	return s
}

// Log is a client's log.
func Log(s Service, name string) *verifiable.Log {
	return (&verifiable.Client{Service: s}).Account("0", "").VerifiableLog(name)
}

// Map is a client's map.
func Map(s Service, name string) *verifiable.Map {
	return (&verifiable.Client{Service: s}).Account("0", "").VerifiableMap(name)
}

// Code is the status code of err.
func Code(err error) codes.Code { return status.Code(err) }

// SameLeaf compares leaf data; nil and empty are the same.
func SameLeaf(a, b *pb.LeafData) bool {
	return bytes.Equal(a.GetLeafInput(), b.GetLeafInput()) && bytes.Equal(a.GetExtraData(), b.GetExtraData()) && a.GetFormat() == b.GetFormat()
}

// Leaf makes leaf data.
func Leaf(in, extra string) *pb.LeafData {
	return &pb.LeafData{LeafInput: []byte(in), ExtraData: []byte(extra)}
}

// Str prints leaf data.
func Str(l *pb.LeafData) string {
	if l == nil {
		return "nil"
	}
	return fmt.Sprintf("{%q %q %v}", l.LeafInput, l.ExtraData, l.Format)
}

// Call sends any request.
func Call(s Service, req proto.Message) (proto.Message, error) { return CallWith(Ctx, s, req) }

// CallWith sends any request.
func CallWith(Ctx context.Context, s Service, req proto.Message) (proto.Message, error) {
	switch r := req.(type) {
	case *pb.LogAddEntryRequest:
		return wrap(s.LogAddEntry(Ctx, r))
	case *pb.LogFetchEntriesRequest:
		return wrap(s.LogFetchEntries(Ctx, r))
	case *pb.LogTreeHashRequest:
		return wrap(s.LogTreeHash(Ctx, r))
	case *pb.LogInclusionProofRequest:
		return wrap(s.LogInclusionProof(Ctx, r))
	case *pb.LogConsistencyProofRequest:
		return wrap(s.LogConsistencyProof(Ctx, r))
	case *pb.MapSetValueRequest:
		return wrap(s.MapSetValue(Ctx, r))
	case *pb.MapGetValueRequest:
		return wrap(s.MapGetValue(Ctx, r))
	case *pb.MapTreeHashRequest:
		return wrap(s.MapTreeHash(Ctx, r))
	}
	panic(fmt.Sprintf("mck: what is a %T", req))
}

func wrap[T any, P interface {
	*T
	proto.Message
}](p P, err error) (proto.Message, error) {
	if p == nil {
		return nil, err
	}
	return p, err
}

// IsWrite says whether a request is one that adds or sets something.
func IsWrite(req proto.Message) bool {
	switch req.(type) {
	case *pb.LogAddEntryRequest, *pb.MapSetValueRequest:
		return true
	}
	return false
}

// Text prints a message when asked to.
func Text(m proto.Message) fmt.Stringer { return text{m} }

type text struct{ m proto.Message }

func (t text) String() string {
	m := t.m
	if m == nil || !m.ProtoReflect().IsValid() {
		return "nil"
	}
	b, err := prototext.MarshalOptions{AllowPartial: true}.Marshal(m)
	if err != nil {
		return fmt.Sprintf("%v", err)
	}
	return strings.Join(strings.Fields(string(b)), " ")
}

// Equal compares messages, taking nil and empty bytes to be the same.
func Equal(a, b proto.Message) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return proto.Equal(a, b)
}
