// Code generated by vfcheck -gen. DO NOT EDIT.

package client

import real "github.com/google/certificate-transparency-go/client"

type AddLogClient = real.AddLogClient
type CheckLogClient = real.CheckLogClient
var NewTemporalLogClient = real.NewTemporalLogClient
type RspError = real.RspError
type TemporalLogClient = real.TemporalLogClient
var TemporalLogConfigFromFile = real.TemporalLogConfigFromFile
