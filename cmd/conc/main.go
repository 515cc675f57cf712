// Command conc decides that scanners are safe for concurrent use, by running
// the real code under a deterministic scheduler in all schedules.
package main

import (
	"github.com/google/licensecheck/verif/conc"
	"github.com/google/licensecheck/verif/eng"
)

func main() {
	eng.Main([]*eng.Check{{ID: "C13", Level: "model_checking",
		Rule: "An evaluation is one execution of the real code in a fresh process under one schedule: threads of calls, interleaved as the plan says; its results are compared with those of each call made alone. Synchronization-level executions run under the race detector. Each is a different schedule. Non-trivial are those with a switch between threads inside a call. States are scheduling decision points reached (distinct schedule prefixes), transitions the choices taken there; every one was executed on the implementation.",
		Assumptions: []string{
			"sync, sync/atomic and go statements of the code are replaced by stand-ins that ask the scheduler; they order the threads for the race detector as the real ones do.",
			"If no execution of any synchronization-level schedule has a data race (as the race detector sees it), then finer interleavings give nothing new; the statement-level schedules support this without relying on the detector.",
			"The built-in list is cut to a few licenses in the copies that are run.",
		},
		Run: conc.Scanners}})
}
