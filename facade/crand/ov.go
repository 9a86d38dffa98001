package rand

import (
	"errors"
	"io"
)

// VFNext numbers the random strings: every read yields a different one.
var VFNext byte
var VFFail bool

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	if VFFail {
		return 0, errors.New("no randomness")
	}
	VFNext++
	for i := range b {
		b[i] = VFNext ^ byte(i*7)
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }
