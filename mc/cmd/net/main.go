// net: checks of the REST and gRPC transports, and of clients against servers
// that answer nonsense.
package main

import (
	"context"

	"github.com/continusec/verifiabledatastructures/pb"

	"verifmc/mck"
)

var ctx = context.Background()

const (
	ltLog  = pb.LogType_STRUCT_TYPE_LOG
	ltMut  = pb.LogType_STRUCT_TYPE_MUTATION_LOG
	ltHead = pb.LogType_STRUCT_TYPE_TREEHEAD_LOG
)

func must(err error) {
	if err != nil {
		panic("mck: " + err.Error())
	}
}

func main() { mck.Main() }
