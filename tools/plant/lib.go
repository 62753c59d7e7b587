package main

import (
	"context"
	"fmt"
	"os"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/pb"
	"github.com/continusec/verifiabledatastructures/storage/memory"
	"github.com/continusec/verifiabledatastructures/verifiable"
)

var ctx = context.Background()

type store interface {
	verifiable.StorageReader
	verifiable.StorageWriter
}

// service is a service over db (or memory, if nil) with synchronous mutations.
func service(db store, pol verifiable.AuthorizationOracle) pb.VerifiableDataStructuresServiceServer {
	if db == nil {
		db = &memory.TransientStorage{}
	}
	if pol == nil {
		pol = policy.Open
	}
	return (&verifiable.Service{AccessPolicy: pol, Reader: db, Mutator: &instant.Mutator{Writer: db}}).MustCreate()
}

func account(s pb.VerifiableDataStructuresServiceServer) *verifiable.Account {
	return (&verifiable.Client{Service: s}).Account("0", "")
}

func leaf(in string) *pb.LeafData { return &pb.LeafData{LeafInput: []byte(in)} }

// check ends the demonstration unless ok.
func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf("WRONG: "+format+"\n", args...)
		os.Exit(1)
	}
}

func must(err error) { check(err == nil, "unexpected error: %v", err) }
