// Command conc checks properties about concurrency: the code under test runs
// under a controlled scheduler, and every schedule within a bound is explored.
package main

import (
	"fmt"
	"strings"

	"verifmc/mck"
	"verifmc/vs"
)

func main() { mck.Main() }

// run runs f under the scheduler, with at most pre preemptions.
func run(x *mck.X, pre int, f func()) *vs.Result { return runTimed(x, pre, false, f) }

// runTimed can have timers fire in the order of their deadlines only.
func runTimed(x *mck.X, pre int, timely bool, f func()) *vs.Result {
	r := vs.Run(vs.Options{Preemptions: pre, Timely: timely, MaxSteps: 20000, Choose: x.Choose, Trace: func(s string) { x.Logf("%s", s) }}, f)
	x.C.Transition(r.Steps)
	if r.Panic != nil {
		if strings.HasPrefix(fmt.Sprint(r.Panic), "mck:") {
			panic(r.Panic)
		}
		x.Logf("%s", r.PanicStack)
		x.Failf("panic: %v", r.Panic)
	}
	x.Assert(!r.Stuck, "no end after %d steps", r.Steps)
	return r
}

// group runs functions concurrently and waits for them.
func group(fs ...func()) {
	var wg vs.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		vs.GoNamed(fmt.Sprintf("client %d", i+1), func() {
			defer wg.Done()
			f()
		})
	}
	wg.Wait()
}
