package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"time"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/column"
	"github.com/patrickhuang888/goorc/orc/common"
	"github.com/patrickhuang888/goorc/orc/encoding"
	orcio "github.com/patrickhuang888/goorc/orc/io"
	"github.com/patrickhuang888/goorc/orc/stream"
	"github.com/patrickhuang888/goorc/pb/pb"
	log "github.com/sirupsen/logrus"
)

func quiet() {
	for _, f := range []func(log.Level){encoding.SetLogLevel, common.SetLogLevel, stream.SetLogLevel, column.SetLogLevel, orcio.SetLogLevel, orc.SetLogLevel} {
		f(log.PanicLevel)
	}
}

// ---------------------------------------------------------------- C01

type IntSeq struct {
	Signed  bool
	Values  []uint64 // signed values as zigzag
	Flushes []int
}

func eqU(what string, got, want []uint64) error {
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i] != want[i] {
			return fmt.Errorf("%s: value %d is %d, want %d", what, i, got[i], want[i])
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d values, want %d", what, len(got), len(want))
	}
	return nil
}

func encInts(in IntSeq, pos bool) (*bytes.Buffer, error) {
	enc := encoding.NewIntRLV2(in.Signed, pos)
	buf := &bytes.Buffer{}
	fl := map[int]bool{}
	for _, f := range in.Flushes {
		fl[f] = true
	}
	for i, v := range in.Values {
		var x interface{} = v
		if in.Signed {
			x = unzz(v)
		}
		if err := enc.Encode(x, buf); err != nil {
			return nil, fmt.Errorf("encode value %d: %v", i, err)
		}
		if fl[i] {
			if err := enc.Flush(buf); err != nil {
				return nil, fmt.Errorf("flush after value %d: %v", i, err)
			}
		}
	}
	if err := enc.Flush(buf); err != nil {
		return nil, fmt.Errorf("flush: %v", err)
	}
	return buf, nil
}

func decInts(signed bool, buf encoding.BufferedReader, left func() int) (got []uint64, err error) {
	dec := encoding.NewIntDecoder(signed)
	for left() > 0 {
		if signed {
			vs, err := dec.DecodeInt(buf)
			if err != nil {
				return got, fmt.Errorf("decode: %v", err)
			}
			for _, v := range vs {
				got = append(got, uint64(v))
			}
		} else {
			vs, err := dec.DecodeUInt(buf)
			if err != nil {
				return got, fmt.Errorf("decode: %v", err)
			}
			got = append(got, vs...)
		}
	}
	return got, nil
}

func wants(in IntSeq) (want []uint64) {
	for _, v := range in.Values {
		if in.Signed {
			want = append(want, uint64(unzz(v)))
		} else {
			want = append(want, v)
		}
	}
	return
}

func runC01(in IntSeq) error {
	buf, err := encInts(in, false)
	if err != nil {
		return err
	}
	enc := append([]byte{}, buf.Bytes()...)
	rd := short(enc)
	got, err := decInts(in.Signed, rd, rd.Len)
	if err != nil {
		return err
	}
	if err := eqU("round trip", got, wants(in)); err != nil {
		return err
	}
	ref, err := refInts(enc, in.Signed)
	if err != nil {
		return fmt.Errorf("reference decoder: %v", err)
	}
	return eqU("by the reference decoder", ref, wants(in))
}

func init() {
	reg("C01", "int_roundtrip", 1, func(r *R) IntSeq {
		vs := r.ints(2500)
		return IntSeq{r.pick(2), vs, r.flushes(len(vs))}
	}, runC01, func(in IntSeq) (out []IntSeq) {
		for _, v := range chunksOff(in.Values) {
			out = append(out, IntSeq{in.Signed, v, in.Flushes})
		}
		if len(in.Flushes) > 0 {
			out = append(out, IntSeq{in.Signed, in.Values, nil})
		}
		return
	})
}

// ---------------------------------------------------------------- C05

type IntRuns struct {
	Signed bool
	Runs   [][]byte
}

func runC05(in IntRuns) error {
	var all []byte
	for _, x := range in.Runs {
		all = append(all, x...)
	}
	tail := []byte{0xa5, 0x5a, 0xff}
	buf := short(append(append([]byte{}, all...), tail...))
	dec := encoding.NewIntDecoder(in.Signed)
	for i, x := range in.Runs {
		want, err := refIntRun(&src{b: x}, in.Signed)
		if err != nil {
			return nil
		}
		before := buf.Len()
		var got []uint64
		if in.Signed {
			vs, err := dec.DecodeInt(buf)
			if err != nil {
				return fmt.Errorf("run %d (% x): %v", i, x[:min(len(x), 16)], err)
			}
			for _, v := range vs {
				got = append(got, uint64(v))
			}
		} else {
			vs, err := dec.DecodeUInt(buf)
			if err != nil {
				return fmt.Errorf("run %d (% x): %v", i, x[:min(len(x), 16)], err)
			}
			got = append(got, vs...)
		}
		if err := eqU(fmt.Sprintf("run %d (% x)", i, x[:min(len(x), 16)]), got, want); err != nil {
			return err
		}
		if before-buf.Len() != len(x) {
			return fmt.Errorf("run %d (% x): consumed %d bytes of %d", i, x[:min(len(x), 16)], before-buf.Len(), len(x))
		}
	}
	return nil
}

func init() {
	reg("C05", "spec_runs", 1, func(r *R) IntRuns {
		in := IntRuns{Signed: r.pick(2)}
		for n := 1 + r.Intn(4); n > 0; n-- {
			in.Runs = append(in.Runs, r.intRun(in.Signed))
		}
		return in
	}, runC05, func(in IntRuns) (out []IntRuns) {
		for _, v := range chunksOff(in.Runs) {
			out = append(out, IntRuns{in.Signed, v})
		}
		return
	})
}

// ---------------------------------------------------------------- C02

type ByteSeq struct {
	Values  []byte
	Flushes []int
}

func runC02(in ByteSeq) error {
	enc := encoding.NewByteEncoder(false)
	buf := &bytes.Buffer{}
	fl := map[int]bool{}
	for _, f := range in.Flushes {
		fl[f] = true
	}
	for i, v := range in.Values {
		if err := enc.Encode(v, buf); err != nil {
			return fmt.Errorf("encode value %d: %v", i, err)
		}
		if fl[i] {
			if err := enc.Flush(buf); err != nil {
				return fmt.Errorf("flush after value %d: %v", i, err)
			}
		}
	}
	if err := enc.Flush(buf); err != nil {
		return fmt.Errorf("flush: %v", err)
	}
	ref, err := refBytes(buf.Bytes())
	if err != nil {
		return fmt.Errorf("malformed output: %v", err)
	}
	if !bytes.Equal(ref, in.Values) {
		return fmt.Errorf("reference decoder yields % x, want % x", ref, in.Values)
	}
	var got []byte
	rd := short(buf.Bytes())
	for rd.Len() > 0 {
		if got, err = encoding.DecodeByteRL(rd, got); err != nil {
			return fmt.Errorf("decode: %v", err)
		}
	}
	if !bytes.Equal(got, in.Values) {
		return fmt.Errorf("decoded % x, want % x", got, in.Values)
	}
	return nil
}

func init() {
	reg("C02", "byte_roundtrip", 1, func(r *R) ByteSeq {
		vs := r.bytesRuns(1500)
		return ByteSeq{vs, r.flushes(len(vs))}
	}, runC02, func(in ByteSeq) (out []ByteSeq) {
		for _, v := range chunksOff(in.Values) {
			out = append(out, ByteSeq{v, in.Flushes})
		}
		return
	})
	reg("C02", "byte_spec_runs", 1, func(r *R) []byte { return r.byteRuns() }, func(b []byte) error {
		want, err := refBytes(b)
		if err != nil {
			return nil
		}
		buf := short(append(append([]byte{}, b...), 0x7f))
		got := []byte{}
		for buf.Len() > 1 {
			if got, err = encoding.DecodeByteRL(buf, got); err != nil {
				return fmt.Errorf("decode: %v", err)
			}
		}
		if buf.Len() != 1 || !bytes.Equal(got, want) {
			return fmt.Errorf("decoded % x, want % x (%d bytes left over, want 1)", got, want, buf.Len())
		}
		return nil
	}, nil)
}

func (r *R) byteRuns() []byte {
	var b []byte
	for n := 1 + r.Intn(5); n > 0; n-- {
		c := byte(r.Intn(256))
		if r.pick(3) {
			c = []byte{0, 1, 127, 128, 129, 255}[r.Intn(6)]
		}
		b = append(b, c)
		k := 1
		if c >= 0x80 {
			k = 256 - int(c)
		}
		for ; k > 0; k-- {
			b = append(b, byte(r.Intn(256)))
		}
	}
	return b
}

// ---------------------------------------------------------------- C03

type BoolSeq struct {
	Parts [][]bool // each part is flushed
}

func runC03(in BoolSeq) error {
	enc := encoding.NewBoolEncoder(false)
	for pi, part := range in.Parts {
		buf := &bytes.Buffer{}
		for i, v := range part {
			if err := enc.Encode(v, buf); err != nil {
				return fmt.Errorf("part %d encode value %d: %v", pi, i, err)
			}
		}
		if err := enc.Flush(buf); err != nil {
			return fmt.Errorf("part %d flush: %v", pi, err)
		}
		ref, err := refBytes(buf.Bytes())
		if err != nil {
			return fmt.Errorf("part %d malformed output: %v", pi, err)
		}
		var refv []bool
		for _, b := range ref {
			for k := 7; k >= 0; k-- {
				refv = append(refv, b>>uint(k)&1 == 1)
			}
		}
		var got []bool
		rd := short(buf.Bytes())
		for rd.Len() > 0 {
			if got, err = encoding.DecodeBools(rd, got); err != nil {
				return fmt.Errorf("part %d decode: %v", pi, err)
			}
		}
		for n, g := range map[string][]bool{"decoded": got, "reference decoder": refv} {
			if len(g) < len(part) || len(g) > len(part)+7 {
				return fmt.Errorf("part %d %s: %d values, want %d and at most 7 more", pi, n, len(g), len(part))
			}
			for i := range g {
				w := i < len(part) && part[i]
				if g[i] != w {
					return fmt.Errorf("part %d %s: value %d of %d is %v, want %v", pi, n, i, len(part), g[i], w)
				}
			}
		}
	}
	return nil
}

func (r *R) bools(n int) []bool {
	vs := make([]bool, n)
	m := r.Intn(5)
	for i := range vs {
		switch m {
		case 0:
			vs[i] = r.pick(2)
		case 1:
			vs[i] = true
		case 2:
			vs[i] = r.pick(20)
		case 3:
			vs[i] = i%8 == 0
		case 4:
			vs[i] = !r.pick(20)
		}
	}
	return vs
}

func init() {
	reg("C03", "bool_roundtrip", 1, func(r *R) BoolSeq {
		var in BoolSeq
		for n := 1 + r.Intn(3); n > 0; n-- {
			k := r.Intn(40)
			if r.pick(4) {
				k = r.Intn(4000)
			}
			in.Parts = append(in.Parts, r.bools(k))
		}
		return in
	}, runC03, func(in BoolSeq) (out []BoolSeq) {
		for _, p := range chunksOff(in.Parts) {
			out = append(out, BoolSeq{p})
		}
		for i := range in.Parts {
			for _, p := range chunksOff(in.Parts[i]) {
				q := append([][]bool{}, in.Parts...)
				q[i] = p
				out = append(out, BoolSeq{q})
			}
		}
		return
	})
}

// ---------------------------------------------------------------- C04

type Scalars struct {
	F32   []uint32
	F64   []uint64
	I64   []int64
	Days  []int32
	Bytes [][]byte
}

func encAll(enc encoding.Encoder, n int, v func(i int) interface{}) (*bytes.Buffer, []int, error) {
	buf := &bytes.Buffer{}
	var ends []int
	for i := 0; i < n; i++ {
		if err := enc.Encode(v(i), buf); err != nil {
			return nil, nil, fmt.Errorf("encode value %d: %v", i, err)
		}
		ends = append(ends, buf.Len())
	}
	if err := enc.Flush(buf); err != nil {
		return nil, nil, err
	}
	return buf, ends, nil
}

func runC04(in Scalars) error {
	{
		enc, ends, err := encAll(encoding.NewFloatEncoder(), len(in.F32), func(i int) interface{} { return math.Float32frombits(in.F32[i]) })
		if err != nil {
			return fmt.Errorf("float: %v", err)
		}
		buf := short(enc.Bytes())
		total := buf.Len()
		for i, w := range in.F32 {
			v, err := encoding.DecodeFloat(buf)
			if err != nil {
				return fmt.Errorf("float %d: %v", i, err)
			}
			// a conversion through the value may quieten a NaN in the test itself, not here
			if math.Float32bits(v) != w {
				return fmt.Errorf("float %08x reads back as %08x", w, math.Float32bits(v))
			}
			if total-buf.Len() != ends[i] || ends[i] != 4*(i+1) {
				return fmt.Errorf("float %d: consumed %d bytes of %d", i, total-buf.Len(), ends[i])
			}
		}
	}
	{
		enc, ends, err := encAll(encoding.NewDoubleEncoder(), len(in.F64), func(i int) interface{} { return math.Float64frombits(in.F64[i]) })
		if err != nil {
			return fmt.Errorf("double: %v", err)
		}
		buf := short(enc.Bytes())
		total := buf.Len()
		for i, w := range in.F64 {
			v, err := encoding.DecodeDouble(buf)
			if err != nil {
				return fmt.Errorf("double %d: %v", i, err)
			}
			if math.Float64bits(v) != w {
				return fmt.Errorf("double %016x reads back as %016x", w, math.Float64bits(v))
			}
			if total-buf.Len() != ends[i] || ends[i] != 8*(i+1) {
				return fmt.Errorf("double %d: consumed %d bytes of %d", i, total-buf.Len(), ends[i])
			}
		}
	}
	{
		enc, ends, err := encAll(encoding.NewVarint64Encoder(), len(in.I64), func(i int) interface{} { return in.I64[i] })
		if err != nil {
			return fmt.Errorf("varint: %v", err)
		}
		buf := short(enc.Bytes())
		total := buf.Len()
		var want []byte
		for i, w := range in.I64 {
			want = putVarint(want, w)
			if !bytes.HasPrefix(buf.Bytes(), want[total-buf.Len():]) {
				return fmt.Errorf("varint %d is not encoded as base 128 zigzag", w)
			}
			v, err := encoding.DecodeVarInt64(buf)
			if err != nil {
				return fmt.Errorf("varint %d: %v", w, err)
			}
			if v != w {
				return fmt.Errorf("varint %d reads back as %d", w, v)
			}
			if total-buf.Len() != ends[i] {
				return fmt.Errorf("varint %d: consumed %d bytes of %d", i, total-buf.Len(), ends[i])
			}
		}
	}
	for _, w := range in.I64 {
		if encoding.UnZigzag(encoding.Zigzag(w)) != w || encoding.Zigzag(encoding.UnZigzag(uint64(w))) != uint64(w) {
			return fmt.Errorf("zigzag of %d", w)
		}
		if encoding.Zigzag(w) != uint64(w<<1)^uint64(w>>63) {
			return fmt.Errorf("zigzag of %d is %d", w, encoding.Zigzag(w))
		}
		// unsigned varints
		b := putUvarint(nil, uint64(w))
		buf := short(append(b, 0x55))
		if v, err := encoding.ReadVUint(buf); err != nil || v != uint64(w) || buf.Len() != 1 {
			return fmt.Errorf("ReadVUint of %d yields %d, %v", uint64(w), v, err)
		}
		if encoding.Convert(encoding.Zigzag(w)) != w {
			return fmt.Errorf("Convert of zigzag %d", w)
		}
	}
	{
		enc, _, err := encAll(encoding.NewDateV2Encoder(false), len(in.Days), func(i int) interface{} { return api.FromDays(in.Days[i]) })
		if err != nil {
			return fmt.Errorf("date: %v", err)
		}
		buf := short(enc.Bytes())
		var want []uint64
		for _, d := range in.Days {
			want = append(want, uint64(int64(d)))
		}
		ref, err := refInts(buf.Bytes(), true)
		if err != nil {
			return fmt.Errorf("date: %v", err)
		}
		if err := eqU("date days", ref, want); err != nil {
			return err
		}
		dec := encoding.NewDateV2DeCoder()
		var got []api.Date
		for buf.Len() > 0 {
			ds, err := dec.Decode(buf)
			if err != nil {
				return fmt.Errorf("date: %v", err)
			}
			got = append(got, ds...)
		}
		if len(got) != len(in.Days) {
			return fmt.Errorf("%d dates, want %d", len(got), len(in.Days))
		}
		for i, d := range got {
			w := time.Unix(int64(in.Days[i])*86400, 0).UTC()
			if !time.Time(d).Equal(w) {
				return fmt.Errorf("day %d reads back as %v, want %v", in.Days[i], time.Time(d), w)
			}
		}
	}
	{
		enc, _, err := encAll(encoding.NewStringContentsEncoder(), len(in.Bytes), func(i int) interface{} { return in.Bytes[i] })
		if err != nil {
			return fmt.Errorf("bytes: %v", err)
		}
		buf := short(enc.Bytes())
		n := buf.Len()
		for i, w := range in.Bytes {
			v, err := encoding.DecodeBytes(buf, len(w))
			if err != nil {
				return fmt.Errorf("bytes %d: %v", i, err)
			}
			if !bytes.Equal(v, w) {
				return fmt.Errorf("bytes %d: % x, want % x", i, v, w)
			}
			n -= len(w)
			if buf.Len() != n {
				return fmt.Errorf("bytes %d: %d bytes left, want %d", i, buf.Len(), n)
			}
		}
	}
	return nil
}

func (r *R) day() int32 {
	switch r.Intn(5) {
	case 0:
		return int32(r.Uint32()) >> uint(r.Intn(32))
	case 1:
		return []int32{0, 1, -1, math.MaxInt32, math.MinInt32, 106751, 106752, -106751, -106752, 2932896, -719162}[r.Intn(11)]
	default:
		return int32(r.Intn(60000)) - 20000
	}
}

func (r *R) f64() uint64 {
	switch r.Intn(4) {
	case 0:
		return []uint64{0, 1 << 63, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8<<48 | 1, 0x7ff0<<48 | 1, 0xfff4<<48 | 77, 1, math.MaxUint64}[r.Intn(9)]
	case 1:
		return math.Float64bits(float64(r.Intn(1000)))
	}
	return r.Uint64()
}

func (r *R) f32() uint32 {
	switch r.Intn(4) {
	case 0:
		return []uint32{0, 1 << 31, 0x7f80 << 16, 0xff80 << 16, 0x7fc0<<16 | 1, 0x7fc0<<16 | 0x1234, 0xffc0<<16 | 77, 1, math.MaxUint32}[r.Intn(9)]
	case 1:
		return math.Float32bits(float32(r.Intn(1000)))
	}
	v := r.Uint32()
	return v
}

func init() {
	reg("C04", "scalars", 1, func(r *R) Scalars {
		var s Scalars
		for n := r.Intn(8); n > 0; n-- {
			s.F32 = append(s.F32, r.f32())
		}
		for n := r.Intn(8); n > 0; n-- {
			s.F64 = append(s.F64, r.f64())
		}
		for n := r.Intn(8); n > 0; n-- {
			s.I64 = append(s.I64, int64(r.u64()))
		}
		for n := r.Intn(30); n > 0; n-- {
			s.Days = append(s.Days, r.day())
		}
		for n := r.Intn(8); n > 0; n-- {
			b := make([]byte, r.Intn(20))
			r.Read(b)
			s.Bytes = append(s.Bytes, b)
		}
		return s
	}, runC04, func(in Scalars) (out []Scalars) {
		for k := 0; k < 5; k++ {
			o := Scalars{}
			switch k {
			case 0:
				o.F32 = in.F32
			case 1:
				o.F64 = in.F64
			case 2:
				o.I64 = in.I64
			case 3:
				o.Days = in.Days
			case 4:
				o.Bytes = in.Bytes
			}
			if len(in.F32)+len(in.F64)+len(in.I64)+len(in.Days)+len(in.Bytes) > len(o.F32)+len(o.F64)+len(o.I64)+len(o.Days)+len(o.Bytes) {
				out = append(out, o)
			}
		}
		for _, v := range chunksOff(in.Days) {
			o := in
			o.Days = v
			out = append(out, o)
		}
		for _, v := range chunksOff(in.I64) {
			o := in
			o.I64 = v
			out = append(out, o)
		}
		return
	})
}

// ---------------------------------------------------------------- C15

type Raw struct {
	What string
	B    []byte
}

func runC15(in Raw) error {
	buf := short(append([]byte{}, in.B...))
	var br encoding.BufferedReader = buf
	if len(in.B)%2 == 1 {
		br = bufio.NewReaderSize(buf, 16)
	}
	limit := len(in.B) + 16
	switch in.What {
	case "int", "uint":
		dec := encoding.NewIntDecoder(in.What == "int")
		for n := 0; ; n++ {
			if n > limit {
				return fmt.Errorf("no progress")
			}
			var err error
			k := 0
			if in.What == "int" {
				var vs []int64
				vs, err = dec.DecodeInt(br)
				k = len(vs)
			} else {
				var vs []uint64
				vs, err = dec.DecodeUInt(br)
				k = len(vs)
			}
			if err != nil {
				break
			}
			if k > 512 {
				return fmt.Errorf("a run of %d values", k)
			}
		}
	case "byte":
		var vs []byte
		var err error
		for n := 0; err == nil; n++ {
			if n > limit {
				return fmt.Errorf("no progress")
			}
			vs, err = encoding.DecodeByteRL(br, vs)
		}
	case "bool":
		var vs []bool
		var err error
		for n := 0; err == nil; n++ {
			if n > limit {
				return fmt.Errorf("no progress")
			}
			vs, err = encoding.DecodeBools(br, vs)
		}
	case "float":
		var err error
		for n := 0; err == nil; n++ {
			if n > limit {
				return fmt.Errorf("no progress")
			}
			_, err = encoding.DecodeFloat(br)
		}
	case "double":
		var err error
		for n := 0; err == nil; n++ {
			if n > limit {
				return fmt.Errorf("no progress")
			}
			_, err = encoding.DecodeDouble(br)
		}
	case "varint":
		var err error
		for n := 0; err == nil; n++ {
			if n > limit {
				return fmt.Errorf("no progress")
			}
			_, err = encoding.DecodeVarInt64(br)
		}
	case "vuint":
		var err error
		for n := 0; err == nil; n++ {
			if n > limit {
				return fmt.Errorf("no progress")
			}
			_, err = encoding.ReadVUint(br)
		}
	case "date":
		dec := encoding.NewDateV2DeCoder()
		var err error
		for n := 0; err == nil; n++ {
			if n > limit {
				return fmt.Errorf("no progress")
			}
			_, err = dec.Decode(br)
		}
	case "chunks":
		var dst bytes.Buffer
		common.DecompressChunks(pb.CompressionKind_ZLIB, &dst, bytes.NewBuffer(append([]byte{}, in.B...)))
	case "flate":
		var dst bytes.Buffer
		common.Decompress(pb.CompressionKind_ZLIB, &dst, bytes.NewBuffer(append([]byte{}, in.B...)))
	case "bytes":
		common.DecChunkHeader(append(in.B, 0, 0, 0))
		encoding.DecodeBytes(br, len(in.B)/2)
		encoding.DecodeBytes(br, len(in.B))
	}
	_ = io.EOF
	return nil
}

var rawKinds = []string{"int", "uint", "int", "uint", "byte", "bool", "float", "double", "varint", "vuint", "date", "chunks", "flate", "bytes", "int", "chunks"}

func init() {
	reg("C15", "malformed", 1, func(r *R) Raw {
		w := rawKinds[r.Intn(len(rawKinds))]
		var b []byte
		switch r.Intn(4) {
		case 0:
			b = make([]byte, r.Intn(40))
			r.Read(b)
		case 1:
			b = make([]byte, r.Intn(40))
			for i := range b {
				b[i] = []byte{0, 1, 0x7f, 0x80, 0x8e, 0xff, 0xc0, 0xc1, byte(r.Intn(256))}[r.Intn(9)]
			}
		default:
			switch w {
			case "int", "uint", "date":
				for n := 1 + r.Intn(3); n > 0; n-- {
					b = append(b, r.intRun(w != "uint")...)
				}
			case "byte", "bool":
				b = r.byteRuns()
			case "chunks", "flate":
				b = r.chunks(w == "flate")
			default:
				b = make([]byte, r.Intn(40))
				r.Read(b)
			}
			for n := r.Intn(4); n > 0 && len(b) > 0; n-- {
				i := r.Intn(len(b))
				if r.pick(2) {
					i = r.Intn(min(6, len(b)))
				}
				b[i] = []byte{0, 0xff, b[i] ^ 1<<uint(r.Intn(8)), byte(r.Intn(256))}[r.Intn(4)]
			}
			if r.pick(3) && len(b) > 0 {
				b = b[:r.Intn(len(b))]
			}
		}
		return Raw{w, b}
	}, runC15, func(in Raw) (out []Raw) {
		for _, v := range chunksOff(in.B) {
			out = append(out, Raw{in.What, v})
		}
		return
	})
}
