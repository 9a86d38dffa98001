// Code generated by vfcheck -gen. DO NOT EDIT.

package rand

import real "math/rand"

var Float32 = real.Float32
var Int31 = real.Int31
var New = real.New
var NewSource = real.NewSource
var NewZipf = real.NewZipf
type Rand = real.Rand
var Read = real.Read
type Source = real.Source
type Source64 = real.Source64
type Zipf = real.Zipf
