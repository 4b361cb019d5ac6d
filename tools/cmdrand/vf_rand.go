package main

// added to the key generation command by check.sh: with VF_RAND set, the first random bytes of the
// process are these (hexadecimal), in every read of at least their size until one has been made

import (
	"crypto/rand"
	"encoding/hex"
	"io"
	"os"
)

type vfRand struct {
	first []byte
	rest  io.Reader
}

func (r *vfRand) Read(p []byte) (int, error) {
	if r.first != nil && len(p) >= len(r.first) {
		for i := range p {
			p[i] = r.first[i%len(r.first)]
		}
		r.first = nil
		return len(p), nil
	}
	if r.first != nil && len(p) == 1 { // the library reads and drops a byte now and then
		p[0] = 0x5a
		return 1, nil
	}
	return r.rest.Read(p)
}

func init() {
	if b, err := hex.DecodeString(os.Getenv("VF_RAND")); err == nil && len(b) > 0 {
		rand.Reader = &vfRand{b, rand.Reader}
	}
}
