// Code generated by vfcheck -gen. DO NOT EDIT.

package signal

import real "os/signal"

var Ignored = real.Ignored
