//vf:pkg cmd/aggregate-known
//vf:use ../C32/c32.go
//vf:opt race=1
package main

import (
	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// The export with two or three workers.
func VF_C37_known() {
	vfWorld(vf.Choose("threads", 2)+2, 0, 1, 2)
	for i := range vfIDs {
		for j, d := range []string{"2030-01-01-05", "2031-06-30"} {
			vfPut(vfIDs[i], d, []byte{byte(i), byte(j), 1}, []byte{byte(i), byte(j), 2})
		}
	}
	var err error
	vf.Delays(vf.Bound("departures from the default schedule", 1, 2))
	how := env.Run(func() { err = work() })
	vf.Delays(-1)
	vf.Assert(how == "done" && err == nil, "an export without faults succeeds")
}
