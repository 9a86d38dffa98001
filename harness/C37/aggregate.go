//vf:pkg cmd/aggregate-crls
//vf:use aggr.go
//vf:opt race=1
package main

import (
	"context"

	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// The aggregator with two workers of each kind.
func VF_C37_aggregate() {
	a := vfNewAgg(2)
	for i := 0; i < 2; i++ {
		c := string(rune('a' + i))
		x := a.addIssuer(c, i == 1)
		kinds := []int{kOK, kGarbage}
		a.addCRL(x, "http://"+c+".example/1.crl", kinds[vf.Choose("kind", len(kinds))], vfRev{c + "1", 3})
		a.addCRL(x, "http://"+c+".example/2.crl", kOK, vfRev{c + "2", 5})
	}
	a.ready()
	vf.Delays(vf.Bound("departures from the default schedule", 1, 2))
	how := env.Run(func() { a.run(context.Background()) })
	vf.Delays(-1)
	vf.Assert(how == "done", "the run ends normally")
}
