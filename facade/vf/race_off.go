//go:build !race

package vf

import "sync"

func lock(m *sync.Mutex)   { m.Lock() }
func unlock(m *sync.Mutex) { m.Unlock() }
