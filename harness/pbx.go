package main

import (
	"github.com/golang/protobuf/proto"
)

func marshal(m proto.Message) ([]byte, error) { return proto.Marshal(m) }

// stored (not deflated) chunks of any data
func rawChunks(b []byte) ([]byte, error) {
	var out []byte
	for len(b) > 0 {
		n := len(b)
		if n > 1<<15 {
			n = 1 << 15
		}
		h := n<<1 | 1
		out = append(out, byte(h), byte(h>>8), byte(h>>16))
		out = append(out, b[:n]...)
		b = b[n:]
	}
	return out, nil
}
