//vf:pkg storage
//vf:note Runs the real RedisCache against a model of the Redis commands it sends (sets, expiry in whole seconds, pipelines that stop at a broken connection, OOM refusals of single commands).
package storage

import (
	"fmt"
	"time"

	"github.com/go-redis/redis"

	"github.com/mozilla/crlite/go"
	"github.com/mozilla/crlite/go/zzvf/env"
	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

func vfNewCache() *RedisCache {
	redis.VFServer = redis.NewServer()
	env.Reset()
	rc, err := NewRedisCache("x", time.Second)
	if err != nil {
		panic(err)
	}
	return rc
}

func vfHas(l []string, m string) bool {
	r := false
	for _, x := range l {
		r = vf.Or(r, x == m)
	}
	return r
}

// Inserting a batch: every member in the set of its own key, nothing else anywhere, unless an error is reported.
func VF_C18_insert() {
	rc := vfNewCache()
	srv := redis.VFServer
	n := vf.Choose("items", vf.Bound("batch items", 3, 4)+1)
	nkeys := 2
	var items []SetMemberWithExpiry
	var exp [2]int64
	for k := 0; k < nkeys; k++ {
		exp[k] = env.Now().Unix() + 1 + int64(vf.U32("expiry"))
	}
	pre := vf.Str("existing", 2)
	srv.VFAdd("key0", pre)
	var key []int
	for i := 0; i < n; i++ {
		k := vf.Choose("key", nkeys)
		key = append(key, k)
		items = append(items, SetMemberWithExpiry{Key: fmt.Sprintf("key%d", k), Value: vf.Str("value", 2), Expiry: time.Unix(exp[k], 0)})
	}
	fault := vf.Choose("fault", 2*n+1) - 1
	oom := -1
	if fault < 0 {
		oom = vf.Choose("oom", n+1) - 1
	}
	srv.OOMAt = oom
	var err error
	env.Run(func() {
		env.FaultAt = fault
		err = rc.SetInsertMany(items)
	})
	env.Reset()
	vf.Observe("err", err != nil)
	vf.Assert((err == nil) == (fault < 0 && oom < 0), "a failed command is reported, and only then")
	for k := 0; k < nkeys; k++ {
		name := fmt.Sprintf("key%d", k)
		mem := srv.VFMembers(name)
		used := false
		for i := range items {
			if key[i] == k {
				used = true
				if err == nil {
					vf.Assert(vfHas(mem, items[i].Value), "every inserted member is in its own set")
				}
			}
		}
		if k == 0 {
			vf.Assert(vfHas(mem, pre), "existing members stay")
		}
		for _, m := range mem {
			ok := vf.And(k == 0, m == pre)
			for i := range items {
				if key[i] == k {
					ok = vf.Or(ok, m == items[i].Value)
				}
			}
			vf.Assert(ok, "no other member appears in a set")
		}
		if used && err == nil {
			e := srv.VFExpiryNs(name)
			vf.Assert(e == exp[k]*1000000000, "a set expires exactly when its certificates do")
		}
	}
	vf.Assert(len(srv.VFKeys()) <= 2, "no other key is written")
}

// The key, member and expiry computed for a certificate agree with each other.
func VF_C18_member() {
	db := CertDatabase{}
	_ = db
	sec := int64(vf.U32("notAfter")) // until 2106
	exp := types.NewExpDateFromTime(time.Unix(sec, 0).UTC())
	iss := types.NewIssuerFromString("issuer")
	k := NewSerialCacheKey(exp, iss)
	var id [32]byte
	copy(id[:], vf.Bytes("log", 32))
	ser := types.NewSerialFromBytes(vf.Bytes("serial", 4))
	m := k.NewMember(vf.U64("ts"), id, ser)
	vf.Assert(m.Key == k.ID(), "a member goes to the key of its issuer and expiry")
	vf.Assert(m.Expiry.Unix() <= sec, "the set expires no later than the certificate")
	vf.Assert(m.Expiry.Unix() > sec-3600, "the set does not expire before the hour the certificate expires in")
}

func vfRemove(total, lo, hi int, sym bool) {
	rc := vfNewCache()
	srv := redis.VFServer
	var all []string
	for i := 0; i < total; i++ {
		all = append(all, fmt.Sprintf("m%d", i))
	}
	_ = sym
	for _, m := range all {
		srv.VFAdd("k", m)
	}
	srv.VFAdd("other", "m0")
	fault := vf.Choose("fault", 3) - 1
	var err error
	env.Run(func() {
		env.FaultAt = fault
		err = rc.SetRemove("k", all[lo:hi])
	})
	env.Reset()
	faulted := env.Faulted
	vf.Assert(vf.Or(err != nil, !faulted), "a failed removal is reported")
	got := srv.VFMembers("k")
	in := map[string]bool{}
	for _, m := range got {
		in[m] = true
	}
	for i, m := range all {
		if i < lo || i >= hi {
			vf.Assert(in[m], "members not listed stay")
		} else if err == nil {
			vf.Assert(!in[m], "listed members are removed")
		}
	}
	vf.Assert(len(srv.VFMembers("other")) == 1, "other sets are untouched")
}

// Removal of lists around the batching boundaries.
func VF_C18_remove_long() {
	sizes := []int{0, 1, 2, 3, 1023, 1024, 1025, 2047, 2048, 2049, 2500}
	hi := sizes[vf.Choose("size", len(sizes))]
	vfRemove(hi+2, 1, hi+1, false)
}

// Removal with symbolic members: exactly the named ones go.
func VF_C18_remove_sym() {
	rc := vfNewCache()
	srv := redis.VFServer
	n := vf.Bound("set size", 3, 4)
	var all []string
	for i := 0; i < n; i++ {
		s := vf.Str("member", 2)
		all = append(all, s)
		srv.VFAdd("k", s)
	}
	m := vf.Choose("removals", n+1)
	var rem []string
	for i := 0; i < m; i++ {
		rem = append(rem, vf.Str("removed", 2))
	}
	err := rc.SetRemove("k", rem)
	vf.Assert(err == nil, "removal works")
	got := srv.VFMembers("k")
	for _, a := range all {
		vf.Assert(vfHas(got, a) == !vfHas(rem, a), "exactly the named members are removed")
	}
	c, err := rc.SetCardinality("k")
	vf.Assert(err == nil && c == len(got), "the cardinality is the number of members left")
}
