//go:build race

package vf

import (
	"runtime"
	"sync"
)

// The locks of the models do not order the program's own accesses.

func lock(m *sync.Mutex) {
	runtime.RaceDisable()
	m.Lock()
	runtime.RaceEnable()
}

func unlock(m *sync.Mutex) {
	runtime.RaceDisable()
	m.Unlock()
	runtime.RaceEnable()
}
