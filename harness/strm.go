package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"time"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	orcio "github.com/patrickhuang888/goorc/orc/io"
	"github.com/patrickhuang888/goorc/orc/stream"
	"github.com/patrickhuang888/goorc/pb/pb"
)

// an in-memory file; Short makes reads return fewer bytes than asked for
type memFile struct {
	b     *[]byte
	off   int64
	short int
}

func (f *memFile) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(*f.b)) {
		return 0, io.EOF
	}
	if f.short > 0 && len(p) > f.short {
		p = p[:f.short]
	}
	n := copy(p, (*f.b)[f.off:])
	f.off += int64(n)
	return n, nil
}
func (f *memFile) Seek(o int64, wh int) (int64, error) {
	switch wh {
	case io.SeekStart:
	case io.SeekCurrent:
		o += f.off
	case io.SeekEnd:
		o += int64(len(*f.b))
	}
	if o < 0 {
		return 0, errors.New("negative offset")
	}
	f.off = o
	return o, nil
}
func (f *memFile) Close() error                { return nil }
func (f *memFile) Write(p []byte) (int, error) { *f.b = append(*f.b, p...); return len(p), nil }
func (f *memFile) Size() (int64, error)        { return int64(len(*f.b)), nil }
func (f *memFile) Clone() (orcio.File, error)  { return &memFile{f.b, f.off, f.short}, nil }

type StreamSeq struct {
	Kind     string
	Chunk    int
	Zlib     bool
	Short    int
	Prefix   int
	Sessions [][]uint64 // value seeds
	Records  []int      // record a position before these values
}

type strmKind struct {
	mk    func(opts *config.WriterOptions) stream.Writer
	val   func(u uint64) interface{}
	open  func(o *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) (next func(want interface{}) (interface{}, error), fin func() bool, seek func(p []uint64) error)
	extra int // positions of the encoder
	same  func(a, b interface{}) bool
}

func strBytes(u uint64) []byte {
	n := int(u % 23)
	if u%7 == 0 {
		n = 0
	}
	if u%97 == 1 {
		n = 300
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(u >> uint(8*(i%8)))
		if i > 8 {
			b[i] ^= byte(i * int(u%5))
		}
	}
	return b
}

func intKind(signed bool) strmKind {
	return strmKind{
		mk: func(o *config.WriterOptions) stream.Writer {
			return stream.NewIntRLV2Writer(3, pb.Stream_DATA, o, signed)
		},
		val: func(u uint64) interface{} {
			if signed {
				return unzz(u)
			}
			return u
		},
		open: func(o *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) (func(interface{}) (interface{}, error), func() bool, func(p []uint64) error) {
			r := stream.NewIntRLV2Reader(o, info, start, signed, f)
			return func(interface{}) (interface{}, error) {
				if signed {
					v, err := r.NextInt64()
					return v, err
				}
				v, err := r.NextUInt64()
				return v, err
			}, r.Finished, func(p []uint64) error { return r.Seek(p[0], p[1], p[2]) }
		},
		extra: 1,
	}
}

func floatKind(is64 bool) strmKind {
	return strmKind{
		mk: func(o *config.WriterOptions) stream.Writer {
			return stream.NewFloatWriter(3, pb.Stream_DATA, o, is64)
		},
		val: func(u uint64) interface{} {
			if is64 {
				return math.Float64frombits(u)
			}
			return math.Float32frombits(uint32(u))
		},
		open: func(o *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) (func(interface{}) (interface{}, error), func() bool, func(p []uint64) error) {
			r := stream.NewFloatReader(o, info, start, f, is64)
			return func(interface{}) (interface{}, error) {
				if is64 {
					v, err := r.NextDouble()
					return v, err
				}
				v, err := r.NextFloat()
				return v, err
			}, r.Finished, func(p []uint64) error { return r.Seek(p[0], p[1]) }
		},
		same: func(a, b interface{}) bool {
			if is64 {
				return math.Float64bits(a.(float64)) == math.Float64bits(b.(float64))
			}
			return math.Float32bits(a.(float32)) == math.Float32bits(b.(float32))
		},
	}
}

var strmKinds = map[string]strmKind{
	"int":    intKind(true),
	"uint":   intKind(false),
	"float":  floatKind(false),
	"double": floatKind(true),
	"byte": {
		mk:  func(o *config.WriterOptions) stream.Writer { return stream.NewByteWriter(3, pb.Stream_DATA, o) },
		val: func(u uint64) interface{} { return byte(u) },
		open: func(o *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) (func(interface{}) (interface{}, error), func() bool, func(p []uint64) error) {
			r := stream.NewByteReader(o, info, start, f)
			return func(interface{}) (interface{}, error) { v, err := r.Next(); return v, err }, r.Finished,
				func(p []uint64) error { return r.Seek(p[0], p[1], p[2]) }
		},
		extra: 1,
	},
	"bool": {
		mk:  func(o *config.WriterOptions) stream.Writer { return stream.NewBoolWriter(3, pb.Stream_PRESENT, o) },
		val: func(u uint64) interface{} { return u&1 == 1 },
		open: func(o *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) (func(interface{}) (interface{}, error), func() bool, func(p []uint64) error) {
			r := stream.NewBoolReader(o, info, start, f)
			return func(interface{}) (interface{}, error) { v, err := r.Next(); return v, err }, r.Finished,
				func(p []uint64) error { return r.Seek(p[0], p[1], p[2], p[3]) }
		},
		extra: 2,
	},
	"varint": {
		mk:  func(o *config.WriterOptions) stream.Writer { return stream.NewVarint64V2Writer(3, pb.Stream_DATA, o) },
		val: func(u uint64) interface{} { return int64(u) },
		open: func(o *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) (func(interface{}) (interface{}, error), func() bool, func(p []uint64) error) {
			r := stream.NewVarIntReader(o, info, start, f)
			return func(interface{}) (interface{}, error) { v, err := r.NextInt64(); return v, err }, r.Finished,
				func(p []uint64) error { return r.Seek(p[0], p[1], p[2]) }
		},
		extra: 1,
	},
	"date": {
		mk: func(o *config.WriterOptions) stream.Writer {
			return stream.NewIntRLV2Writer(3, pb.Stream_DATA, o, true)
		},
		val: func(u uint64) interface{} { return int64(int32(u)) },
		open: func(o *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) (func(interface{}) (interface{}, error), func() bool, func(p []uint64) error) {
			r := stream.NewDateV2Reader(o, info, start, f)
			return func(interface{}) (interface{}, error) { v, err := r.Next(); return v, err }, r.Finished,
				func(p []uint64) error { return r.Seek(p[0], p[1], p[2]) }
		},
		extra: 1,
		same: func(a, b interface{}) bool {
			return time.Time(a.(api.Date)).Equal(time.Unix(b.(int64)*86400, 0))
		},
	},
	"string": {
		mk: func(o *config.WriterOptions) stream.Writer {
			return stream.NewStringContentsWriter(3, pb.Stream_DATA, o)
		},
		val: func(u uint64) interface{} { return strBytes(u) },
		open: func(o *config.ReaderOptions, info *pb.Stream, start uint64, f orcio.File) (func(interface{}) (interface{}, error), func() bool, func(p []uint64) error) {
			r := stream.NewStringContentsReader(o, info, start, f)
			return func(w interface{}) (interface{}, error) {
				v, err := r.NextBytes(uint64(len(w.([]byte))))
				return v, err
			}, r.Finished, func(p []uint64) error { return r.Seek(p[0], p[1]) }
		},
		same: func(a, b interface{}) bool { return bytes.Equal(a.([]byte), b.([]byte)) },
	},
}

func runStream(in StreamSeq, seeks bool) error {
	k := strmKinds[in.Kind]
	same := k.same
	if same == nil {
		same = func(a, b interface{}) bool { return a == b }
	}
	comp := pb.CompressionKind_NONE
	if in.Zlib {
		comp = pb.CompressionKind_ZLIB
	}
	wo := &config.WriterOptions{ChunkSize: in.Chunk, CompressionKind: comp, WriteIndex: seeks}
	w := k.mk(wo)
	rec := map[int]bool{}
	for _, i := range in.Records {
		rec[i] = true
	}
	ro := &config.ReaderOptions{ChunkSize: uint64(in.Chunk), CompressionKind: comp}
	for si, vals := range in.Sessions {
		var want []interface{}
		type mark struct {
			at  int
			pos []uint64
		}
		var marks []mark
		for i, u := range vals {
			if seeks && rec[i] {
				p := append([]uint64{}, w.GetPosition()...)
				if !in.Zlib {
					p = append([]uint64{p[0], 0}, p[1:]...)
				}
				if len(p) != 2+k.extra {
					return fmt.Errorf("session %d: position %v has %d components", si, p, len(p))
				}
				marks = append(marks, mark{i, p})
			}
			v := k.val(u)
			want = append(want, v)
			if err := w.Write(v); err != nil {
				return fmt.Errorf("session %d: write value %d: %v", si, i, err)
			}
		}
		if err := w.Flush(); err != nil {
			return fmt.Errorf("session %d: flush: %v", si, err)
		}
		info := w.Info()
		data := bytes.Repeat([]byte{0xee}, in.Prefix)
		f := &memFile{b: &data, short: in.Short}
		n, err := w.WriteOut(f)
		if err != nil {
			return fmt.Errorf("session %d: write out: %v", si, err)
		}
		if int(n) != len(data)-in.Prefix || info.GetLength() != uint64(n) {
			return fmt.Errorf("session %d: recorded length %d, returned %d, written %d", si, info.GetLength(), n, len(data)-in.Prefix)
		}
		if info.GetColumn() != 3 {
			return fmt.Errorf("session %d: column %d", si, info.GetColumn())
		}
		data = append(data, 0x05, 0x00, 0x00, 1, 2, 0x42, 0x42, 0x42)
		kind, col, ln := info.GetKind(), info.GetColumn(), info.GetLength()
		ri := &pb.Stream{Kind: &kind, Column: &col, Length: &ln}
		f.Seek(int64(in.Prefix), 0)
		next, fin, seek := k.open(ro, ri, uint64(in.Prefix), f)
		readTo := func(from int, what string) error {
			for i := from; i < len(want); i++ {
				if fin() && in.Kind != "string" {
					return fmt.Errorf("session %d %s: finished before value %d of %d", si, what, i, len(want))
				}
				v, err := next(want[i])
				if err != nil {
					return fmt.Errorf("session %d %s: value %d of %d: %v", si, what, i, len(want), err)
				}
				if !same(v, want[i]) {
					return fmt.Errorf("session %d %s: value %d of %d is %v, want %v", si, what, i, len(want), v, want[i])
				}
			}
			if in.Kind == "bool" { // padding of the last byte
				for i := len(want); i%8 != 0; i++ {
					v, err := next(nil)
					if err != nil || v != false {
						return fmt.Errorf("session %d %s: padding %v %v", si, what, v, err)
					}
				}
			}
			if !fin() {
				return fmt.Errorf("session %d %s: not finished after all %d values", si, what, len(want))
			}
			return nil
		}
		if err := readTo(0, "reading"); err != nil {
			return err
		}
		if seeks {
			// from the last to the first, then again from the first
			for i := 0; i < 2*len(marks); i++ {
				m := marks[len(marks)-1-i%len(marks)]
				if i >= len(marks) {
					m = marks[i-len(marks)]
				}
				if err := seek(m.pos); err != nil {
					return fmt.Errorf("session %d: seek to value %d of %d at %v: %v", si, m.at, len(want), m.pos, err)
				}
				to := fmt.Sprintf("after a seek to value %d at %v", m.at, m.pos)
				if i%3 == 2 && m.at+1 < len(want) { // leave off in the middle
					for j := m.at; j < m.at+1; j++ {
						v, err := next(want[j])
						if err != nil || !same(v, want[j]) {
							return fmt.Errorf("session %d %s: value %d is %v %v, want %v", si, to, j, v, err, want[j])
						}
					}
					continue
				}
				if err := readTo(m.at, to); err != nil {
					return err
				}
			}
		}
		w.Reset()
	}
	return nil
}

var strmNames = []string{"int", "uint", "float", "double", "byte", "bool", "varint", "date", "string"}

func (r *R) strm(seeks bool) StreamSeq {
	in := StreamSeq{Kind: strmNames[r.Intn(len(strmNames))], Zlib: r.pick(2), Prefix: r.Intn(4), Chunk: 1 + r.Intn(100)}
	switch r.Intn(4) {
	case 0:
		in.Chunk = 1 + r.Intn(6000)
	case 1:
		in.Chunk = 1 + r.Intn(1000)
	}
	if r.pick(3) {
		in.Short = 1 + r.Intn(9)
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		var vs []uint64
		switch in.Kind {
		case "int", "uint", "date":
			vs = r.ints(1500)
		case "byte":
			for _, b := range r.bytesRuns(1500) {
				vs = append(vs, uint64(b))
			}
		case "bool":
			for _, b := range r.bools(r.Intn(3000)) {
				if b {
					vs = append(vs, 1)
				} else {
					vs = append(vs, 0)
				}
			}
		case "float":
			for n := r.Intn(300); n > 0; n-- {
				vs = append(vs, uint64(r.f32()))
			}
		case "double":
			for n := r.Intn(300); n > 0; n-- {
				vs = append(vs, r.f64())
			}
		default:
			for n := r.Intn(300); n > 0; n-- {
				vs = append(vs, r.u64())
			}
		}
		in.Sessions = append(in.Sessions, vs)
	}
	if seeks {
		if r.pick(2) {
			in.Records = append(in.Records, 0)
		}
		for n := r.Intn(6); n > 0; n-- {
			in.Records = append(in.Records, r.Intn(1+r.Intn(1500)))
		}
	}
	return in
}

func shrinkStream(in StreamSeq) (out []StreamSeq) {
	for _, v := range chunksOff(in.Sessions) {
		o := in
		o.Sessions = v
		out = append(out, o)
	}
	for _, v := range chunksOff(in.Records) {
		o := in
		o.Records = v
		out = append(out, o)
	}
	for i := range in.Sessions {
		for _, v := range chunksOff(in.Sessions[i]) {
			o := in
			o.Sessions = append([][]uint64{}, in.Sessions...)
			o.Sessions[i] = v
			out = append(out, o)
		}
	}
	return
}

func init() {
	reg("C07", "stream_roundtrip", 1, func(r *R) StreamSeq { return r.strm(false) }, func(in StreamSeq) error { return runStream(in, false) }, shrinkStream)
	reg("C08", "stream_seek", 1, func(r *R) StreamSeq { return r.strm(true) }, func(in StreamSeq) error { return runStream(in, true) }, shrinkStream)
}
