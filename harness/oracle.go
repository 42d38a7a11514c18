package main

import (
	"errors"
	"fmt"
)

// Independent reading of the ORC specification (v1), "Integer Run Length
// Encoding, version 2" and "Byte Run Length Encoding".

type src struct {
	b []byte
	p int
}

var errShort = errors.New("truncated")

func (s *src) u8() (byte, error) {
	if s.p >= len(s.b) {
		return 0, errShort
	}
	s.p++
	return s.b[s.p-1], nil
}

func (s *src) uvarint() (v uint64, err error) {
	for i := 0; i < 10; i++ {
		b, err := s.u8()
		if err != nil {
			return 0, err
		}
		v |= uint64(b&0x7f) << (7 * uint(i))
		if b < 0x80 {
			if i == 9 && b > 1 {
				return 0, errors.New("varint overflow")
			}
			return v, nil
		}
	}
	return 0, errors.New("varint overflow")
}

func unzz(u uint64) int64 {
	if u&1 == 1 {
		return -int64(u>>1) - 1
	}
	return int64(u >> 1)
}

// bit k of the stream, most significant first, starting at byte from
func bitField(b []byte, start, w int) (v uint64, err error) {
	for k := 0; k < w; k++ {
		i := start + k
		if i/8 >= len(b) {
			return 0, errShort
		}
		v = v<<1 | uint64(b[i/8]>>(7-uint(i%8))&1)
	}
	return v, nil
}

var widthTable = func() (t [32]int) {
	for i := 0; i <= 23; i++ {
		t[i] = i + 1
	}
	copy(t[24:], []int{26, 28, 30, 32, 40, 48, 56, 64})
	return
}()

// decode one run; values as uint64 (signed ones as their two's complement)
func refIntRun(s *src, signed bool) (vs []uint64, err error) {
	h, err := s.u8()
	if err != nil {
		return nil, err
	}
	cv := func(u uint64) uint64 {
		if signed {
			return uint64(unzz(u))
		}
		return u
	}
	switch h >> 6 {
	case 0:
		w := int(h>>3&7) + 1
		n := int(h&7) + 3
		var v uint64
		for i := 0; i < w; i++ {
			b, err := s.u8()
			if err != nil {
				return nil, err
			}
			v = v<<8 | uint64(b)
		}
		for i := 0; i < n; i++ {
			vs = append(vs, cv(v))
		}
		return vs, nil
	case 1:
		h2, err := s.u8()
		if err != nil {
			return nil, err
		}
		w := widthTable[h>>1&31]
		n := (int(h&1)<<8 | int(h2)) + 1
		for i := 0; i < n; i++ {
			v, err := bitField(s.b[s.p:], i*w, w)
			if err != nil {
				return nil, err
			}
			vs = append(vs, cv(v))
		}
		s.p += (n*w + 7) / 8
		return vs, nil
	case 2:
		h2, err := s.u8()
		if err != nil {
			return nil, err
		}
		h3, err := s.u8()
		if err != nil {
			return nil, err
		}
		h4, err := s.u8()
		if err != nil {
			return nil, err
		}
		w := widthTable[h>>1&31]
		n := (int(h&1)<<8 | int(h2)) + 1
		bw := int(h3>>5) + 1
		pw := widthTable[h3&31]
		pgw := int(h4>>5) + 1
		pl := int(h4 & 31)
		if pw+pgw > 64 {
			return nil, errors.New("patch too wide")
		}
		var base uint64
		for i := 0; i < bw; i++ {
			b, err := s.u8()
			if err != nil {
				return nil, err
			}
			base = base<<8 | uint64(b)
		}
		sign := uint64(1) << uint(bw*8-1)
		if base&sign != 0 {
			base = -(base &^ sign)
		}
		for i := 0; i < n; i++ {
			v, err := bitField(s.b[s.p:], i*w, w)
			if err != nil {
				return nil, err
			}
			vs = append(vs, v)
		}
		s.p += (n*w + 7) / 8
		at := 0
		for i := 0; i < pl; i++ {
			e, err := bitField(s.b[s.p:], i*(pgw+pw), pgw+pw)
			if err != nil {
				return nil, err
			}
			gap := int(e >> uint(pw))
			patch := e
			if pw < 64 {
				patch = e & (1<<uint(pw) - 1)
			}
			at += gap
			if at >= n {
				return nil, errors.New("patch outside the run")
			}
			if w < 64 {
				vs[at] |= patch << uint(w)
			}
		}
		s.p += (pl*(pgw+pw) + 7) / 8
		for i := range vs {
			vs[i] += base
		}
		return vs, nil
	}
	h2, err := s.u8()
	if err != nil {
		return nil, err
	}
	w := 0
	if c := h >> 1 & 31; c != 0 {
		w = widthTable[c]
	}
	n := (int(h&1)<<8 | int(h2)) + 1
	b, err := s.uvarint()
	if err != nil {
		return nil, err
	}
	base := cv(b)
	d, err := s.uvarint()
	if err != nil {
		return nil, err
	}
	delta := unzz(d)
	vs = append(vs, base)
	if n >= 2 {
		vs = append(vs, base+uint64(delta))
	}
	for i := 2; i < n; i++ {
		prev := vs[i-1]
		if w == 0 {
			vs = append(vs, prev+uint64(delta))
			continue
		}
		v, err := bitField(s.b[s.p:], (i-2)*w, w)
		if err != nil {
			return nil, err
		}
		if delta < 0 {
			vs = append(vs, prev-v)
		} else {
			vs = append(vs, prev+v)
		}
	}
	if n > 2 {
		s.p += ((n-2)*w + 7) / 8
	}
	return vs, nil
}

func refInts(b []byte, signed bool) (vs []uint64, err error) {
	s := &src{b: b}
	for s.p < len(b) {
		v, err := refIntRun(s, signed)
		if err != nil {
			return vs, fmt.Errorf("at byte %d: %v", s.p, err)
		}
		vs = append(vs, v...)
	}
	return vs, nil
}

func refBytes(b []byte) (vs []byte, err error) {
	for len(b) > 0 {
		if b[0] < 0x80 {
			if len(b) < 2 {
				return vs, errShort
			}
			for i := 0; i < int(b[0])+3; i++ {
				vs = append(vs, b[1])
			}
			b = b[2:]
		} else {
			n := 256 - int(b[0])
			if len(b) < 1+n {
				return vs, errShort
			}
			vs = append(vs, b[1:1+n]...)
			b = b[1+n:]
		}
	}
	return vs, nil
}

// most significant first bit writer
type bitw struct {
	b []byte
	n int
}

func (w *bitw) put(v uint64, bits int) {
	for k := bits - 1; k >= 0; k-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(v>>uint(k)&1) << (7 - uint(w.n%8))
		w.n++
	}
}

func putUvarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func putVarint(b []byte, v int64) []byte { return putUvarint(b, uint64(v<<1)^uint64(v>>63)) }

// a random well-formed run
func (r *R) intRun(signed bool) []byte {
	code := r.Intn(32)
	w := widthTable[code]
	n := 1 + r.Intn(30)
	switch r.Intn(6) {
	case 0:
		n = 1 + r.Intn(512)
	case 1:
		n = []int{1, 2, 3, 255, 256, 257, 511, 512}[r.Intn(8)]
	}
	switch r.Intn(5) {
	case 0:
		bw := 1 + r.Intn(8)
		out := []byte{byte((bw-1)<<3 | r.Intn(8))}
		v := r.bits(8 * bw)
		if r.pick(4) {
			v &= r.Uint64()
			v &= r.Uint64()
		}
		for i := bw - 1; i >= 0; i-- {
			out = append(out, byte(v>>uint(8*i)))
		}
		return out
	case 1:
		out := []byte{0x40 | byte(code<<1) | byte((n-1)>>8), byte(n - 1)}
		var bw bitw
		for i := 0; i < n; i++ {
			v := r.bits(w)
			bw.put(v, w)
		}
		return append(out, bw.b...)
	case 2:
		// patched base
		bb := 1 + r.Intn(8)
		pcode := r.Intn(32)
		pgw := 1 + r.Intn(8)
		for widthTable[pcode]+pgw > 64 {
			pcode = r.Intn(32)
		}
		pw := widthTable[pcode]
		pl := r.Intn(32)
		out := []byte{0x80 | byte(code<<1) | byte((n-1)>>8), byte(n - 1), byte((bb-1)<<5) | byte(pcode), 0}
		var base bitw
		base.put(r.bits(8*bb), 8*bb)
		// the base of an unsigned run is not negative
		if !signed {
			base.b[0] &= 0x7f
		}
		out = append(out, base.b...)
		var vw, pb bitw
		for i := 0; i < n; i++ {
			vw.put(r.bits(w), w)
		}
		at, k := 0, 0
		for k < pl {
			g := r.Intn(1 << uint(pgw))
			if k > 0 && g == 0 && r.pick(2) {
				g = 1
			}
			if at+g >= n {
				break
			}
			at += g
			pb.put(uint64(g), pgw)
			pb.put(r.bits(pw), pw)
			k++
		}
		out[3] = byte((pgw-1)<<5) | byte(k)
		out = append(out, vw.b...)
		return append(out, pb.b...)
	case 3:
		// delta, variable
		if code == 0 {
			code, w = 1, 2
		}
		if n < 2 {
			n = 2
		}
		out := []byte{0xc0 | byte(code<<1) | byte((n-1)>>8), byte(n - 1)}
		out = putUvarint(out, r.u64())
		d := int64(r.u64())
		out = putVarint(out, d)
		var bw bitw
		for i := 2; i < n; i++ {
			bw.put(r.bits(w), w)
		}
		return append(out, bw.b...)
	default:
		// delta, fixed
		if n < 2 {
			n = 2
		}
		out := []byte{0xc0 | byte((n-1)>>8), byte(n - 1)}
		out = putUvarint(out, r.u64())
		d := int64(r.u64())
		if r.pick(3) {
			d = 0
		}
		return putVarint(out, d)
	}
}
