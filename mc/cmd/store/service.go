package main

import (
	"strings"

	"github.com/continusec/verifiabledatastructures/mutator/instant"
	"github.com/continusec/verifiabledatastructures/oracle/policy"
	"github.com/continusec/verifiabledatastructures/storage/badger"
	"github.com/continusec/verifiabledatastructures/storage/bolt"
	"github.com/continusec/verifiabledatastructures/verifiable"

	"verifmc/rig"
	"verifmc/world"
)

// fileStore is a backend that keeps files in a directory.
type fileStore struct {
	name string
	open func(dir string) (world.Storage, func())
}

var fileStores = []fileStore{
	{"bolt", func(dir string) (world.Storage, func()) {
		s := &bolt.Storage{Path: dir}
		return s, s.Close
	}},
	{"badger", func(dir string) (world.Storage, func()) {
		s := &badger.Storage{Path: dir}
		return s, s.Close
	}},
}

// service is a synchronous service that remembers its mutations.
func service(db world.Storage) (world.Service, *rig.Recorder) {
	r := &rig.Recorder{Inner: &instant.Mutator{Writer: db}}
	s, err := (&verifiable.Service{AccessPolicy: policy.Open, Reader: db, Mutator: r}).Create()
	if err != nil {
		panic(err)
	}
	return s, r
}

var largeAct = rig.AddAct("Y", strings.Repeat("large ", 3000))

var fullMenu = append(append([]rig.Act{}, rig.Menu...), largeAct)

func names(acts []rig.Act) string {
	var l []string
	for _, a := range acts {
		n := a.Name
		if len(n) > 20 {
			n = n[:20] + "..."
		}
		l = append(l, n)
	}
	return strings.Join(l, ", ")
}

// differ says where two observations differ.
func differ(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := range w {
		if i >= len(g) || g[i] != w[i] {
			s := "(missing)"
			if i < len(g) {
				s = g[i]
			}
			return cut(s) + " instead of " + cut(w[i])
		}
	}
	return "nothing, but it is longer"
}

func cut(s string) string {
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}
