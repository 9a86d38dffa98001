//vf:pkg rootprogram
//vf:use ../C29/c29.go
//vf:opt race=1
package rootprogram

import (
	"os"

	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// Two goroutines ask for issuers at once.
func VF_C37_issuers() {
	env.Reset()
	os.VFMkdir("/work")
	mi := NewMozillaIssuers()
	es := vfEnrol(mi, 2, false)
	do := func(k int) {
		iss := es[0].iss
		switch k {
		case 0:
			mi.GetIssuers()
		case 1:
			mi.SaveIssuersList(vfList)
		case 2:
			mi.IsIssuerInProgram(iss)
		case 3:
			mi.GetCertificateForIssuer(iss)
		case 4:
			mi.GetSubjectForIssuer(iss)
		case 5:
			mi.GetUsesPartitionedCrlsForIssuer(iss)
		case 6:
			mi.DatasetAge()
		}
	}
	k, l := vf.Choose("method", 7), vf.Choose("other method", 7)
	vf.Sched(vf.Bound("preemptions", 1, 2))
	done := make(chan bool, 2)
	go func() { do(k); done <- true }()
	go func() { do(l); done <- true }()
	<-done
	<-done
	vf.Sched(-1)
	vf.Assert(mi.IsIssuerInProgram(es[0].iss) && mi.IsIssuerInProgram(es[1].iss), "the issuers are still enrolled")
}
