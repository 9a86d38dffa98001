package vf

import (
	"crypto"
	"encoding/base64"
	"encoding/json"
	"errors"
	"hash"
	"io"
	"sync"
)

// The functions below replace library functions the engine does not execute directly. They are never
// called natively.

func RTSha256(b []byte) [32]byte { panic("engine only") }

func RTSum256(b []byte) [32]byte { return RTSha256(b) }

type rtHash struct{ b []byte }

func (h *rtHash) Write(p []byte) (int, error) {
	h.b = append(h.b, p...)
	return len(p), nil
}
func (h *rtHash) Sum(in []byte) []byte {
	s := RTSha256(h.b)
	return append(in, s[:]...)
}
func (h *rtHash) Reset()         { h.b = nil }
func (h *rtHash) Size() int      { return 32 }
func (h *rtHash) BlockSize() int { return 64 }

func RTSha256New() hash.Hash { return &rtHash{} }

func RTHashNew(h crypto.Hash) hash.Hash {
	if h != crypto.SHA256 {
		panic("hash function outside the model")
	}
	return &rtHash{}
}

func RTHashAvailable(h crypto.Hash) bool { return true }

func RTErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if RTErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func rtEncWriter(e *json.Encoder) io.Writer { panic("engine only") }
func rtDecReader(d *json.Decoder) io.Reader { panic("engine only") }
func rtSideBytes(p *json.Decoder) *[]byte   { panic("engine only") }
func rtJSONScan(b []byte) int               { panic("engine only") }
func rtPoolNew(p *sync.Pool) func() any     { panic("engine only") }

func RTJSONEncode(e *json.Encoder, v any) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	_, err = rtEncWriter(e).Write(append(b, '\n'))
	return err
}

func RTJSONMarshalIndent(v any, prefix, indent string) ([]byte, error) { return json.Marshal(v) }

var errJSONSyntax = errors.New("json: syntax error")

func rtAllSpace(b []byte) bool {
	for _, c := range b {
		if c != ' ' && c != '\n' && c != '\t' && c != '\r' {
			return false
		}
	}
	return true
}

func RTJSONDecode(d *json.Decoder, v any) error {
	buf := rtSideBytes(d)
	r := rtDecReader(d)
	for {
		n := rtJSONScan(*buf)
		if n == -2 {
			return errJSONSyntax
		}
		if n >= 0 {
			b := (*buf)[:n]
			*buf = (*buf)[n:]
			return json.Unmarshal(b, v)
		}
		tmp := make([]byte, 4096)
		k, err := r.Read(tmp)
		*buf = append(*buf, tmp[:k]...)
		if err == io.EOF {
			if n = rtJSONScan(*buf); n >= 0 || n == -2 {
				continue
			}
			if rtAllSpace(*buf) {
				return io.EOF
			}
			return io.ErrUnexpectedEOF
		}
		if err != nil {
			return err
		}
	}
}

func RTPoolGet(p *sync.Pool) any {
	if f := rtPoolNew(p); f != nil {
		return f()
	}
	return nil
}

func RTPoolPut(p *sync.Pool, x any) {}

func RTBase64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func RTUnbase64(s string) ([]byte, error) { return base64.StdEncoding.DecodeString(s) }
