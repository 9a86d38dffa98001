// Code generated by vfcheck -gen. DO NOT EDIT.

package httptrace

import real "net/http/httptrace"

type ClientTrace = real.ClientTrace
type DNSDoneInfo = real.DNSDoneInfo
type DNSStartInfo = real.DNSStartInfo
type GotConnInfo = real.GotConnInfo
type WroteRequestInfo = real.WroteRequestInfo
