//vf:pkg .
//vf:note Dates are decided in blocks of 32 consecutive days (all days, hours, seconds and nanoseconds in a block symbolic); the bound is the number of blocks, from 2024. Text labels: a fixed year and arbitrary bytes after it.
package types

import (
	"time"

	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

// checkExpiry compares IsExpiredAt with the interval [.., end of the label) at an arbitrary instant.
func vfCheckExpiry(e ExpDate, startSec int64, length int64) {
	off := int64(vf.U32("offset")) - (1 << 31) // seconds around the label
	ns := int64(vf.Below("nanos", 1000000000))
	at := time.Unix(startSec+off, ns).UTC()
	exp := e.IsExpiredAt(at)
	if off < length-1 {
		vf.Assert(!exp, "unexpired at every instant before the end of the hour or day it names")
	} else if off >= length {
		vf.Assert(exp, "expired at every instant after the hour or day it names")
	} else if ns > 999000000 {
		vf.Assert(exp, "expired after the last millisecond of the hour or day it names")
	} else {
		vf.Assert(!exp, "unexpired until the last millisecond of the hour or day it names")
	}
}

// A day: one of 32 symbolic days in a block of 32 starting in 2024 (a leap year).
func vfDays() int64 {
	b := vf.Choose("block", vf.Bound("blocks of 32 days from 2024", 24, 240))
	return 19712 + int64(b)*32 + int64(vf.U8("day")&31)
}

// Every instant of an hour has the same label.
func VF_C16_instant() {
	h := int64(vf.Below("hour", 1200000)) // until 2106
	in := int64(vf.Below("second", 3600))
	ns := int64(vf.Below("nanos", 1000000000))
	e := NewExpDateFromTime(time.Unix(h*3600+in, ns).UTC())
	o := NewExpDateFromTime(time.Unix(h*3600, 0).UTC())
	vf.Assert(o.ExpireTime().Unix() == h*3600, "a label starts at the hour of the certificate's expiry")
	vf.Assert(e.ExpireTime().Equal(o.ExpireTime()), "every instant of an hour has the label of that hour")
	vf.Assert(e.Unix() == h*3600, "the expiry instant of a label is the hour it names")
}

// Label of an hour, parsed back.
func VF_C16_hour() {
	h := vfDays()*24 + int64(vf.Choose("hours", 3)*8) + int64(vf.U8("hour")&7)
	e := NewExpDateFromTime(time.Unix(h*3600, 0).UTC())
	vf.Assert(e.ExpireTime().Unix() == h*3600, "a label starts at the hour of the certificate's expiry")
	id := e.ID()
	vf.Observe("id", id)
	p, err := NewExpDate(id)
	vf.Assert(err == nil, "every label parses")
	vf.Assert(p.ID() == id, "a label parses back to itself")
	vf.Assert(p.ExpireTime().Equal(e.ExpireTime()), "a parsed label names the hour it was derived from")
	vfCheckExpiry(p, h*3600, 3600)
}

// Day labels.
func VF_C16_day() {
	d := vfDays()
	t := time.Unix(d*86400, 0).UTC()
	id := t.Format("2006-01-02")
	p, err := NewExpDate(id)
	vf.Assert(err == nil, "every day label parses")
	vf.Assert(p.ID() == id, "a day label parses back to itself")
	vf.Assert(p.ExpireTime().Equal(t), "a day label names its own day")
	vfCheckExpiry(p, d*86400, 86400)
}

// Any text after a year and month: either refused or a label that prints as itself.
func VF_C16_text() {
	y := []string{"2024-02-", "2025-02-", "2100-12-", "2024-04-"}[vf.Choose("month", vf.Bound("months", 1, 4))]
	s := y + vf.Str("text", []int{2, 3, 1, 4, 5, 6}[vf.Choose("len", vf.Bound("lengths", 2, 4))])
	p, err := NewExpDate(s)
	if err != nil {
		return
	}
	vf.Reached("accepted")
	vf.Assert(p.ID() == s, "text accepted as a label prints as itself")
}
