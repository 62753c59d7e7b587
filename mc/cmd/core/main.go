// core: checks of logs, maps, proofs, verifiers, clients and the service over
// in-process services.
package main

import (
	"sort"

	"verifmc/mck"
)

func main() { mck.Main() }

func sortStrings(s []string) { sort.Strings(s) }
