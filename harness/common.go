package main

import (
	"bytes"
	"compress/flate"
	"fmt"
	"io"

	"github.com/patrickhuang888/goorc/orc/common"
	"github.com/patrickhuang888/goorc/pb/pb"
)

// well-formed chunks made with the standard library
func (r *R) chunks(raw bool) []byte {
	var out []byte
	for n := 1 + r.Intn(3); n > 0; n-- {
		d := r.text(r.Intn(200))
		var z bytes.Buffer
		w, _ := flate.NewWriter(&z, -1)
		w.Write(d)
		w.Close()
		if raw {
			return z.Bytes()
		}
		body, orig := z.Bytes(), 0
		if r.pick(3) {
			body, orig = d, 1
		}
		l := len(body)<<1 | orig
		out = append(out, byte(l), byte(l>>8), byte(l>>16))
		out = append(out, body...)
	}
	return out
}

// data of varying compressibility
func (r *R) text(n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
		r.Read(b)
	case 1:
		c := byte(r.Intn(256))
		for i := range b {
			b[i] = c
		}
	case 2:
		for i := range b {
			b[i] = byte('a' + r.Intn(3))
		}
	case 3: // changing character
		for i := 0; i < n; {
			k := min(n-i, 1+r.Intn(200))
			if r.pick(2) {
				r.Read(b[i : i+k])
			}
			i += k
		}
	}
	return b
}

type Chunking struct {
	Chunk int
	Kind  int32
	How   string
	Parts [][]byte
}

// independent chunk reader: the original bytes of every chunk
func refChunks(b []byte) (out [][]byte, err error) {
	for len(b) > 0 {
		if len(b) < 3 {
			return nil, fmt.Errorf("truncated chunk header")
		}
		h := int(b[0]) | int(b[1])<<8 | int(b[2])<<16
		n, orig := h>>1, h&1 == 1
		if len(b) < 3+n {
			return nil, fmt.Errorf("chunk of %d bytes, %d stored", n, len(b)-3)
		}
		body := b[3 : 3+n]
		b = b[3+n:]
		if orig {
			out = append(out, body)
			continue
		}
		rd := bytes.NewReader(body)
		z := flate.NewReader(rd)
		d, err := io.ReadAll(z)
		if err != nil {
			return nil, fmt.Errorf("chunk does not inflate: %v", err)
		}
		if rd.Len() != 0 {
			return nil, fmt.Errorf("%d extra bytes in a chunk", rd.Len())
		}
		out = append(out, d)
	}
	return out, nil
}

func runC06(in Chunking) error {
	kind := pb.CompressionKind(in.Kind)
	var src, dst bytes.Buffer
	var all []byte
	for i, p := range in.Parts {
		src.Write(p)
		all = append(all, p...)
		if in.How == "chunks" && i < len(in.Parts)-1 {
			if err := common.CompressingChunks(kind, in.Chunk, &dst, &src); err != nil {
				return fmt.Errorf("CompressingChunks: %v", err)
			}
			if src.Len() > in.Chunk {
				return fmt.Errorf("%d bytes left in the source, chunk size %d", src.Len(), in.Chunk)
			}
		}
	}
	if err := common.CompressingAllInChunks(kind, in.Chunk, &dst, &src); err != nil {
		return fmt.Errorf("CompressingAllInChunks: %v", err)
	}
	if src.Len() != 0 {
		return fmt.Errorf("%d bytes left in the source", src.Len())
	}
	if kind == pb.CompressionKind_NONE {
		if !bytes.Equal(dst.Bytes(), all) {
			return fmt.Errorf("bytes changed without compression")
		}
		return nil
	}
	cs, err := refChunks(dst.Bytes())
	if err != nil {
		return err
	}
	var back []byte
	for i, c := range cs {
		if len(c) > in.Chunk {
			return fmt.Errorf("chunk %d holds %d bytes, chunk size %d", i, len(c), in.Chunk)
		}
		back = append(back, c...)
	}
	if !bytes.Equal(back, all) {
		return fmt.Errorf("chunks hold %d bytes that differ from the %d compressed", len(back), len(all))
	}
	var out bytes.Buffer
	out.WriteString("x")
	if err := common.DecompressChunks(kind, &out, &dst); err != nil {
		return fmt.Errorf("DecompressChunks: %v", err)
	}
	if !bytes.Equal(out.Bytes()[1:], all) {
		return fmt.Errorf("decompressed %d bytes that differ from the %d compressed", out.Len()-1, len(all))
	}
	return nil
}

func init() {
	reg("C06", "chunks", 3, func(r *R) Chunking {
		in := Chunking{Chunk: 1 + r.Intn(400), Kind: int32(pb.CompressionKind_ZLIB), How: "all"}
		if r.pick(6) {
			in.Kind = int32(pb.CompressionKind_NONE)
		}
		if r.pick(2) {
			in.How = "chunks"
		}
		if r.pick(40) {
			in.Chunk = 30000 + r.Intn(100000)
		}
		for n := 1 + r.Intn(4); n > 0; n-- {
			k := r.Intn(3 * in.Chunk)
			switch r.Intn(4) {
			case 0:
				k = in.Chunk * r.Intn(3)
			case 1:
				k = in.Chunk + r.Intn(3)
			}
			in.Parts = append(in.Parts, r.text(k))
		}
		return in
	}, runC06, func(in Chunking) (out []Chunking) {
		for _, p := range chunksOff(in.Parts) {
			o := in
			o.Parts = p
			if len(p) > 0 {
				out = append(out, o)
			}
		}
		for i := range in.Parts {
			for _, p := range chunksOff(in.Parts[i]) {
				o := in
				o.Parts = append([][]byte{}, in.Parts...)
				o.Parts[i] = p
				out = append(out, o)
			}
		}
		return
	})
	reg("C06", "foreign_chunks", 1, func(r *R) []byte { return r.chunks(false) }, func(b []byte) error {
		cs, err := refChunks(b)
		if err != nil {
			return nil
		}
		var out bytes.Buffer
		if err := common.DecompressChunks(pb.CompressionKind_ZLIB, &out, bytes.NewBuffer(append([]byte{}, b...))); err != nil {
			return err
		}
		if !bytes.Equal(out.Bytes(), bytes.Join(cs, nil)) {
			return fmt.Errorf("decompressed data differ")
		}
		return nil
	}, nil)
	reg("C06", "header", 1, func(r *R) int { return r.Intn(1 << 24) }, func(h int) error {
		n, orig := common.DecChunkHeader([]byte{byte(h), byte(h >> 8), byte(h >> 16)})
		if n != h>>1 || orig != (h&1 == 1) {
			return fmt.Errorf("header %06x read as %d %v", h, n, orig)
		}
		return nil
	}, nil)
}
