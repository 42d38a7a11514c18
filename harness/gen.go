package main

import (
	"io"
	"math"
)

// integers of a random width, with boundary values
func (r *R) u64() uint64 {
	switch r.Intn(10) {
	case 0:
		return []uint64{0, 1, 2, 127, 128, 255, 256, 1<<31 - 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 1, math.MaxUint64, math.MaxUint64 - 1}[r.Intn(15)]
	default:
		return r.Uint64() >> uint(r.Intn(64))
	}
}

// n bit wide integer
func (r *R) bits(n int) uint64 {
	if n <= 0 {
		return 0
	}
	return r.Uint64() >> uint(64-n)
}

// a sequence of integers made of segments of different character
func (r *R) ints(max int) []uint64 {
	var out []uint64
	var target int
	switch r.Intn(8) {
	case 0:
		target = r.Intn(5)
	case 1:
		target = []int{9, 10, 11, 12, 13, 255, 256, 257, 511, 512, 513, 514, 515, 1023, 1024, 1025}[r.Intn(16)]
	case 2, 3, 4:
		target = r.Intn(60)
	case 5, 6:
		target = r.Intn(700)
	default:
		target = r.Intn(max)
	}
	whole := r.pick(2) // a single segment
	zz := func(x int64) uint64 { return uint64(x<<1) ^ uint64(x>>63) }
	signedSeg := r.pick(2)
	for len(out) < target {
		n := 1 + r.Intn(40)
		if r.pick(4) {
			n = 1 + r.Intn(600)
		}
		if r.pick(6) {
			n = 1 + r.Intn(4)
		}
		if whole {
			n = target
		}
		if len(out)+n > target {
			n = target - len(out)
		}
		w := r.Intn(65)
		switch r.Intn(9) {
		case 0: // repeats
			v := r.u64()
			for i := 0; i < n; i++ {
				out = append(out, v)
			}
		case 1: // random of a width
			for i := 0; i < n; i++ {
				out = append(out, r.bits(w))
			}
		case 2: // increasing
			v := r.u64()
			for i := 0; i < n; i++ {
				if signedSeg {
					out = append(out, zz(int64(v)))
				} else {
					out = append(out, v)
				}
				v += r.bits(w / 2)
			}
		case 3: // decreasing
			v := r.u64()
			for i := 0; i < n; i++ {
				if signedSeg {
					out = append(out, zz(int64(v)))
				} else {
					out = append(out, v)
				}
				v -= r.bits(w/2) + uint64(r.Intn(2))
			}
		case 4: // fixed delta
			v, d := r.u64(), r.u64()
			for i := 0; i < n; i++ {
				if signedSeg {
					out = append(out, zz(int64(v)))
				} else {
					out = append(out, v)
				}
				v += d
			}
		case 5, 6: // narrow with outliers: patched base
			base := int64(r.u64())
			if r.pick(2) {
				base = int64(r.bits(r.Intn(40))) - int64(r.bits(r.Intn(40)))
			}
			nw := r.Intn(20)
			if r.pick(5) {
				nw = r.Intn(60)
			}
			ow := nw + 1 + r.Intn(64-nw)
			rate := 11 + r.Intn(60)
			if r.pick(3) {
				rate = 300
			}
			for i := 0; i < n; i++ {
				d := r.bits(nw)
				if r.pick(rate) || (i == 0 && r.pick(8)) {
					d = r.bits(ow)
				}
				out = append(out, zz(base+int64(d)))
			}
		case 7: // few distinct values
			vs := []uint64{r.u64(), r.u64(), r.u64()}
			for i := 0; i < n; i++ {
				out = append(out, vs[r.Intn(3)])
			}
		case 8: // zeros and ones
			for i := 0; i < n; i++ {
				out = append(out, uint64(r.Intn(2)))
			}
		}
	}
	return out
}

func (r *R) flushes(n int) []int {
	var f []int
	if r.pick(2) {
		return f
	}
	for i := 0; i < n; i++ {
		if r.pick(1 + n/3) {
			f = append(f, i)
		}
	}
	return f
}

// bytes with runs
func (r *R) bytesRuns(max int) []byte {
	var out []byte
	n := r.Intn(max)
	switch r.Intn(4) {
	case 0:
		n = r.Intn(10)
	case 1:
		n = []int{127, 128, 129, 130, 131, 132, 133, 255, 256, 257, 260}[r.Intn(11)]
	}
	for len(out) < n {
		switch r.Intn(3) {
		case 0:
			v := byte(r.Intn(256))
			k := 1 + r.Intn(5)
			if r.pick(3) {
				k = []int{126, 127, 128, 129, 130, 131, 132, 133, 140, 258, 260, 300}[r.Intn(12)]
			}
			for i := 0; i < k; i++ {
				out = append(out, v)
			}
		case 1:
			k := 1 + r.Intn(10)
			if r.pick(4) {
				k = 120 + r.Intn(20)
			}
			for i := 0; i < k; i++ {
				out = append(out, byte(r.Intn(256)))
			}
		case 2:
			k := 1 + r.Intn(10)
			for i := 0; i < k; i++ {
				out = append(out, byte(r.Intn(2)))
			}
		}
	}
	return out[:min(n, len(out))]
}

// rdr reads like a compressed stream does: reads come back short at seemingly
// arbitrary places
type rdr struct {
	b []byte
	k int
}

func short(b []byte) *rdr { return &rdr{b: append([]byte{}, b...)} }

func (c *rdr) Len() int      { return len(c.b) }
func (c *rdr) Bytes() []byte { return c.b }

func (c *rdr) ReadByte() (byte, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	v := c.b[0]
	c.b = c.b[1:]
	return v, nil
}

func (c *rdr) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	c.k = c.k*5 + 3
	if n := 1 + c.k&7; len(p) > n {
		p = p[:n]
	}
	n := copy(p, c.b)
	c.b = c.b[n:]
	return n, nil
}
