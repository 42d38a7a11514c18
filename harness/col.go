package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"sync"
	"time"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/column"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"
)

var _ = sync.Mutex{}

type colKind struct {
	kind pb.Type_Kind
	enc  pb.ColumnEncoding_Kind
	val  func(u uint64) interface{}
	// value of kind is what was written (a location is not stored)
	same func(got, want interface{}) bool
}

func strVal(u uint64) interface{} {
	if u%1024 == 77 { // a long string
		return strings.Repeat(string(rune('a'+u>>10%26)), 1000+int(u>>20%60))
	}
	return string(strBytes(u))
}

var secRange = int64(9_000_000_000_000)

var colKinds = map[string]colKind{
	"short":   {kind: pb.Type_SHORT, enc: pb.ColumnEncoding_DIRECT_V2, val: func(u uint64) interface{} { return int16(unzz(u)) }},
	"int":     {kind: pb.Type_INT, enc: pb.ColumnEncoding_DIRECT_V2, val: func(u uint64) interface{} { return int32(unzz(u)) }},
	"long":    {kind: pb.Type_LONG, enc: pb.ColumnEncoding_DIRECT_V2, val: func(u uint64) interface{} { return unzz(u) }},
	"float":   {kind: pb.Type_FLOAT, enc: pb.ColumnEncoding_DIRECT, val: func(u uint64) interface{} { return math.Float32frombits(uint32(u)) }, same: func(a, b interface{}) bool { return math.Float32bits(a.(float32)) == math.Float32bits(b.(float32)) }},
	"double":  {kind: pb.Type_DOUBLE, enc: pb.ColumnEncoding_DIRECT, val: func(u uint64) interface{} { return math.Float64frombits(u) }, same: func(a, b interface{}) bool { return math.Float64bits(a.(float64)) == math.Float64bits(b.(float64)) }},
	"string":  {kind: pb.Type_STRING, enc: pb.ColumnEncoding_DIRECT_V2, val: strVal},
	"dict":    {kind: pb.Type_STRING, enc: pb.ColumnEncoding_DICTIONARY_V2, val: strVal},
	"char":    {kind: pb.Type_CHAR, enc: pb.ColumnEncoding_DIRECT_V2, val: strVal},
	"varchar": {kind: pb.Type_VARCHAR, enc: pb.ColumnEncoding_DICTIONARY_V2, val: strVal},
	"bool":    {kind: pb.Type_BOOLEAN, enc: pb.ColumnEncoding_DIRECT, val: func(u uint64) interface{} { return u&1 == 1 }},
	"byte":    {kind: pb.Type_BYTE, enc: pb.ColumnEncoding_DIRECT, val: func(u uint64) interface{} { return byte(u) }},
	"binary":  {kind: pb.Type_BINARY, enc: pb.ColumnEncoding_DIRECT_V2, val: func(u uint64) interface{} { return strBytes(u) }, same: func(a, b interface{}) bool { return bytes.Equal(a.([]byte), b.([]byte)) }},
	"decimal": {kind: pb.Type_DECIMAL, enc: pb.ColumnEncoding_DIRECT_V2, val: func(u uint64) interface{} {
		if u%5 == 0 { // any scale, the format does not limit it
			return api.Decimal64{Precision: unzz(u), Scale: int(unzz(u / 5 * 2654435761))}
		}
		return api.Decimal64{Precision: unzz(u), Scale: int(int8(u >> 3))}
	}},
	"date": {kind: pb.Type_DATE, enc: pb.ColumnEncoding_DIRECT_V2, val: func(u uint64) interface{} { return api.FromDays(int32(unzz(u))) }, same: func(a, b interface{}) bool { return time.Time(a.(api.Date)).Equal(time.Time(b.(api.Date))) }},
	"timestamp": {kind: pb.Type_TIMESTAMP, enc: pb.ColumnEncoding_DIRECT_V2, val: func(u uint64) interface{} {
		loc := time.UTC
		if u%3 == 1 {
			loc = time.FixedZone("x", 3600*int(u%23)-11*3600+int(u%7)*600)
		}
		n := u * 2654435761 % 1_000_000_000
		if u%2 == 0 {
			for _, p := range []uint64{1_000_000_000, 100_000_000, 1000, 100, 10} {
				if u/2%11 == p%11 {
					n = n / p * p % 1_000_000_000
				}
			}
		}
		return api.Timestamp{Loc: loc, Seconds: unzz(u) % secRange, Nanos: n}
	}, same: func(a, b interface{}) bool {
		x, y := a.(api.Timestamp), b.(api.Timestamp)
		return x.Seconds == y.Seconds && x.Nanos == y.Nanos
	}},
}

var colNames = []string{"short", "int", "long", "float", "double", "string", "dict", "char", "varchar", "bool", "byte", "binary", "decimal", "date", "timestamp"}

func (k colKind) equal(got, want interface{}) bool {
	if got == nil {
		return false
	}
	if k.same != nil {
		if fmt.Sprintf("%T", got) != fmt.Sprintf("%T", want) {
			return false
		}
		return k.same(got, want)
	}
	return got == want
}

type Row struct {
	N bool   `json:"n,omitempty"`
	U uint64 `json:"u,omitempty"`
}

type ColSeq struct {
	Kind    string
	Nulls   bool
	Zlib    bool
	Chunk   int
	Stride  int // of the index, 0: no index
	Short   int
	Prefix  int
	Stripes [][]Row
	Splits  []int // batch sizes, negative: skip so many rows
	Reuse   bool
}

func (in ColSeq) schema() *api.TypeDescription {
	k := colKinds[in.Kind]
	return &api.TypeDescription{Id: 2, Kind: k.kind, Encoding: k.enc, HasNulls: in.Nulls}
}

func compKind(z bool) pb.CompressionKind {
	if z {
		return pb.CompressionKind_ZLIB
	}
	return pb.CompressionKind_NONE
}

func cloneStream(i *pb.Stream) *pb.Stream {
	kind, col, ln := i.GetKind(), i.GetColumn(), i.GetLength()
	return &pb.Stream{Kind: &kind, Column: &col, Length: &ln}
}

// the rows written to a column are the rows read, whatever the batches
func runColumn(in ColSeq, strides bool) error {
	k := colKinds[in.Kind]
	comp := compKind(in.Zlib)
	wo := &config.WriterOptions{ChunkSize: in.Chunk, CompressionKind: comp, WriteIndex: in.Stride > 0, IndexStride: in.Stride}
	w, err := column.NewWriter(in.schema(), wo)
	if err != nil {
		return err
	}
	ro := &config.ReaderOptions{ChunkSize: uint64(in.Chunk), CompressionKind: comp, IndexStride: in.Stride}
	for si, rows := range in.Stripes {
		for i, r := range rows {
			v := api.Value{Null: r.N}
			if !r.N {
				v.V = k.val(r.U)
			}
			if err := w.Write(v); err != nil {
				return fmt.Errorf("stripe %d: write row %d: %v", si, i, err)
			}
		}
		if err := w.Flush(); err != nil {
			return fmt.Errorf("stripe %d: flush: %v", si, err)
		}
		data := bytes.Repeat([]byte{0xee}, in.Prefix)
		f := &memFile{b: &data, short: in.Short}
		var infos []*pb.Stream
		var total uint64
		for _, s := range w.GetStreamInfos() {
			infos = append(infos, cloneStream(s))
			total += s.GetLength()
			if s.GetColumn() != 2 {
				return fmt.Errorf("stripe %d: stream %v of column %d", si, s.GetKind(), s.GetColumn())
			}
		}
		var index []byte
		if strides {
			if index, err = marshal(w.GetIndex()); err != nil {
				return err
			}
		}
		n, err := w.WriteOut(f)
		if err != nil {
			return fmt.Errorf("stripe %d: write out: %v", si, err)
		}
		if int(n) != len(data)-in.Prefix || total != uint64(n) {
			return fmt.Errorf("stripe %d: stream lengths add up to %d, returned %d, written %d", si, total, n, len(data)-in.Prefix)
		}
		w.Reset()
		end := len(data)
		data = append(data, 0x05, 0x00, 0x00, 1, 2, 0x42, 0x42, 0x42)
		istart := len(data)
		if strides && in.Zlib {
			if index, err = rawChunks(index); err != nil {
				return err
			}
		}
		data = append(data, index...)

		open := func() (column.Reader, error) {
			rd, err := column.NewReader(in.schema(), ro, f)
			if err != nil {
				return nil, err
			}
			off := uint64(in.Prefix)
			for _, s := range infos {
				if err := rd.InitStream(s, off); err != nil {
					return nil, fmt.Errorf("stripe %d: init stream %v: %v", si, s, err)
				}
				off += s.GetLength()
			}
			if off != uint64(end) {
				return nil, fmt.Errorf("stripe %d: streams end at %d, data at %d", si, off, end)
			}
			return rd, nil
		}
		rd, err := open()
		if err != nil {
			return err
		}
		if !strides {
			if err := readRows(rd, k, in, rows, 0, fmt.Sprintf("stripe %d", si)); err != nil {
				return err
			}
			// again, after a rewind in the middle of the stripe
			if rd, err = open(); err != nil {
				return err
			}
			if err := rd.Skip(uint64(len(rows) / 2)); err != nil {
				return fmt.Errorf("stripe %d: skip: %v", si, err)
			}
			if err := rd.SeekStride(0); err != nil {
				return fmt.Errorf("stripe %d: seek to start: %v", si, err)
			}
			if err := readRows(rd, k, in, rows, 0, fmt.Sprintf("stripe %d after a rewind", si)); err != nil {
				return err
			}
			rd.Close()
		} else {
			if err := rd.InitIndex(uint64(istart), uint64(len(index))); err != nil {
				return fmt.Errorf("stripe %d: index: %v", si, err)
			}
			for s := len(rows) / in.Stride; s >= 0; s-- {
				if err := rd.SeekStride(s); err != nil {
					return fmt.Errorf("stripe %d: seek to stride %d: %v", si, s, err)
				}
				if err := readRows(rd, k, in, rows, s*in.Stride, fmt.Sprintf("stripe %d after a seek to stride %d", si, s)); err != nil {
					return err
				}
			}
			if err := rd.SeekStride(len(rows)/in.Stride + 1); err == nil {
				return fmt.Errorf("stripe %d: no error for a stride that does not exist", si)
			}
		}
	}
	return nil
}

func readRows(rd column.Reader, k colKind, in ColSeq, rows []Row, at int, what string) error {
	buf := make([]api.Value, 0, 64)
	for bi := 0; at < len(rows); bi++ {
		n := 7
		if len(in.Splits) > 0 {
			n = in.Splits[bi%len(in.Splits)]
		}
		if n < 0 {
			n = -n
			if n > len(rows)-at {
				n = len(rows) - at
			}
			if err := rd.Skip(uint64(n)); err != nil {
				return fmt.Errorf("%s: skip %d rows at row %d: %v", what, n, at, err)
			}
			at += n
			continue
		}
		if n == 0 {
			n = 1
		}
		if n > len(rows)-at {
			n = len(rows) - at
		}
		vec := &api.ColumnVector{Id: 2, Kind: k.kind}
		if in.Reuse {
			if cap(buf) < n {
				buf = make([]api.Value, n)
			}
			vec.Vector = buf[:n]
		} else {
			vec.Vector = make([]api.Value, n)
		}
		if err := rd.NextBatch(vec); err != nil {
			return fmt.Errorf("%s: batch of %d rows at row %d of %d: %v", what, n, at, len(rows), err)
		}
		if len(vec.Vector) != n {
			return fmt.Errorf("%s: batch of %d rows at row %d has %d rows", what, n, at, len(vec.Vector))
		}
		for i := 0; i < n; i++ {
			if err := sameRow(k, vec.Vector[i], rows[at+i]); err != nil {
				return fmt.Errorf("%s: row %d: %v", what, at+i, err)
			}
		}
		at += n
	}
	return nil
}

func sameRow(k colKind, got api.Value, want Row) error {
	if got.Null != want.N {
		return fmt.Errorf("null is %v, want %v", got.Null, want.N)
	}
	if want.N {
		return nil
	}
	if w := k.val(want.U); !k.equal(got.V, w) {
		return fmt.Errorf("value %.200s (%T), want %.200s", fmt.Sprint(got.V), got.V, fmt.Sprint(w))
	}
	return nil
}

// statistics describe all stripes
func checkStats(st *pb.ColumnStatistics, name string, nulls bool, rows []Row) error {
	k := colKinds[name]
	n := uint64(0)
	var sum int64
	for _, r := range rows {
		if r.N {
			continue
		}
		n++
		v := k.val(r.U)
		bad := func(f string, a ...interface{}) error {
			return fmt.Errorf("value %.100s: "+f, append([]interface{}{fmt.Sprint(v)}, a...)...)
		}
		switch x := v.(type) {
		case int16, int32, int64:
			var y int64
			switch z := x.(type) {
			case int16:
				y = int64(z)
			case int32:
				y = int64(z)
			case int64:
				y = z
			}
			sum += y
			if s := st.GetIntStatistics(); s == nil || s.Minimum == nil || s.Maximum == nil || y < s.GetMinimum() || y > s.GetMaximum() {
				return bad("not within %v", s)
			}
		case float32, float64:
			var y float64
			switch z := x.(type) {
			case float32:
				y = float64(z)
			case float64:
				y = z
			}
			if s := st.GetDoubleStatistics(); s == nil || s.Minimum == nil || s.Maximum == nil || y < s.GetMinimum() || y > s.GetMaximum() {
				return bad("not within %v", s)
			}
		case string:
			s := st.GetStringStatistics()
			if s == nil || (s.Minimum == nil && s.LowerBound == nil) || (s.Maximum == nil && s.UpperBound == nil) {
				return bad("no bounds")
			}
			if s.Minimum != nil && x < s.GetMinimum() || s.Maximum != nil && x > s.GetMaximum() {
				return bad("not within minimum %.60q and maximum %.60q", s.GetMinimum(), s.GetMaximum())
			}
			if s.LowerBound != nil && x < s.GetLowerBound() || s.UpperBound != nil && x > s.GetUpperBound() {
				return bad("not within bounds %.60q and %.60q", s.GetLowerBound(), s.GetUpperBound())
			}
		case api.Date:
			d := floorDiv(time.Time(x).Unix(), 86400)
			if s := st.GetDateStatistics(); s == nil || s.Minimum == nil || s.Maximum == nil || d < int64(s.GetMinimum()) || d > int64(s.GetMaximum()) {
				return bad("day %d not within %v", d, s)
			}
		case api.Timestamp:
			base := time.Date(2015, 1, 1, 0, 0, 0, 0, x.Loc).Unix()
			ms := (base+x.Seconds)*1000 + int64(x.Nanos)/1000000
			if s := st.GetTimestampStatistics(); s == nil || s.Minimum == nil || s.Maximum == nil || ms < s.GetMinimum() || ms > s.GetMaximum() {
				return bad("%d ms not within %v", ms, s)
			}
		}
	}
	if st.GetNumberOfValues() != n {
		return fmt.Errorf("number of values is %d, want %d", st.GetNumberOfValues(), n)
	}
	if st.GetHasNull() != nulls {
		return fmt.Errorf("has null is %v, want %v", st.GetHasNull(), nulls)
	}
	switch name {
	case "short", "int", "long":
		if s := st.GetIntStatistics(); s == nil || s.GetSum() != sum {
			return fmt.Errorf("sum is %v, want %d", s, sum)
		}
	}
	return nil
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func runColStats(in ColSeq) error {
	k := colKinds[in.Kind]
	wo := &config.WriterOptions{ChunkSize: in.Chunk, CompressionKind: compKind(in.Zlib), WriteIndex: in.Stride > 0, IndexStride: in.Stride}
	w, err := column.NewWriter(in.schema(), wo)
	if err != nil {
		return err
	}
	var all []Row
	st := w.GetStats()
	for si, rows := range in.Stripes {
		for i, r := range rows {
			v := api.Value{Null: r.N}
			if !r.N {
				v.V = k.val(r.U)
			}
			if err := w.Write(v); err != nil {
				return fmt.Errorf("stripe %d: write row %d: %v", si, i, err)
			}
			all = append(all, r)
		}
		if err := w.Flush(); err != nil {
			return err
		}
		if _, err := w.WriteOut(&bytes.Buffer{}); err != nil {
			return err
		}
		// the statistics taken at the start and now are those of the file
		if err := checkStats(st, in.Kind, in.Nulls, all); err != nil {
			return fmt.Errorf("after stripe %d: %v", si, err)
		}
		if err := checkStats(w.GetStats(), in.Kind, in.Nulls, all); err != nil {
			return fmt.Errorf("after stripe %d: %v", si, err)
		}
		w.Reset()
	}
	return nil
}

type DecStats struct{ V []int64 }

func runDecStats(in DecStats) error {
	w, err := column.NewWriter(&api.TypeDescription{Kind: pb.Type_DECIMAL, Encoding: pb.ColumnEncoding_DIRECT_V2}, &config.WriterOptions{ChunkSize: 100})
	if err != nil {
		return err
	}
	for _, v := range in.V {
		if err := w.Write(api.Value{V: api.Decimal64{Precision: v}}); err != nil {
			return err
		}
	}
	s := w.GetStats().GetDecimalStatistics()
	for _, v := range in.V {
		var lo, hi float64
		if _, err := fmt.Sscanf(s.GetMinimum(), "%g", &lo); err != nil && s.GetMinimum() != "" {
			return fmt.Errorf("decimal minimum %q is not a number", s.GetMinimum())
		}
		if _, err := fmt.Sscanf(s.GetMaximum(), "%g", &hi); err != nil {
			return fmt.Errorf("decimal maximum %q is not a number", s.GetMaximum())
		}
		if float64(v) < lo || float64(v) > hi {
			return fmt.Errorf("decimal %d not within %s and %s", v, s.GetMinimum(), s.GetMaximum())
		}
	}
	return nil
}

func (r *R) colVals(kind string, max int, nan bool) []uint64 {
	var vs []uint64
	switch kind {
	case "short", "int", "long", "date", "timestamp", "decimal":
		vs = r.ints(max)
	case "byte":
		for _, b := range r.bytesRuns(max) {
			vs = append(vs, uint64(b))
		}
	case "bool":
		for _, b := range r.bools(r.Intn(max)) {
			if b {
				vs = append(vs, 1)
			} else {
				vs = append(vs, 0)
			}
		}
	case "float":
		for n := r.Intn(max/3 + 1); n > 0; n-- {
			u := uint64(r.f32())
			if !nan && math.IsNaN(float64(math.Float32frombits(uint32(u)))) {
				u = 0x3f800000
			}
			vs = append(vs, u)
		}
	case "double":
		for n := r.Intn(max/3 + 1); n > 0; n-- {
			u := r.f64()
			if !nan && math.IsNaN(math.Float64frombits(u)) {
				u = 0x3ff0000000000000
			}
			vs = append(vs, u)
		}
	default:
		m := uint64(1 + r.Intn(40))
		few := r.pick(2)
		for n := r.Intn(max/3 + 1); n > 0; n-- {
			u := r.u64()
			if few {
				u %= m
			}
			if r.pick(60) {
				u = u>>10<<10 | 77
			}
			vs = append(vs, u)
		}
	}
	return vs
}

func (r *R) rows(kind string, nulls bool, max int, nan bool) []Row {
	var rows []Row
	mode := r.Intn(4)
	in := false
	for _, u := range r.colVals(kind, max, nan) {
		n := false
		if nulls {
			switch mode {
			case 0:
				n = r.pick(2)
			case 1:
				n = r.pick(20)
			case 2:
				n = !r.pick(10)
			case 3:
				if r.pick(9) {
					in = !in
				}
				n = in
			}
		}
		if n {
			u = 0
		}
		rows = append(rows, Row{n, u})
	}
	return rows
}

func (r *R) col(index bool, nan bool) ColSeq {
	in := ColSeq{Kind: colNames[r.Intn(len(colNames))], Nulls: r.pick(2), Zlib: r.pick(2), Prefix: r.Intn(4), Chunk: 1 + r.Intn(100), Reuse: r.pick(2)}
	switch r.Intn(4) {
	case 0:
		in.Chunk = 1 + r.Intn(6000)
	case 1:
		in.Chunk = 1 + r.Intn(1000)
	}
	if r.pick(3) {
		in.Short = 1 + r.Intn(9)
	}
	if index || r.pick(3) {
		in.Stride = 1 + r.Intn(1+r.Intn(300))
	}
	if index { // the dictionary writer writes no index
		for in.Kind == "dict" || in.Kind == "varchar" {
			in.Kind = colNames[r.Intn(len(colNames))]
		}
	}
	max := 1000
	if r.i < 60 {
		max = 40
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		in.Stripes = append(in.Stripes, r.rows(in.Kind, in.Nulls, max, nan))
	}
	for n := 1 + r.Intn(5); n > 0; n-- {
		s := 1 + r.Intn(1+r.Intn(200))
		if r.pick(4) {
			s = -s
		}
		in.Splits = append(in.Splits, s)
	}
	return in
}

func shrinkCol(in ColSeq) (out []ColSeq) {
	for _, v := range chunksOff(in.Stripes) {
		o := in
		o.Stripes = v
		out = append(out, o)
	}
	for i := range in.Stripes {
		for _, v := range chunksOff(in.Stripes[i]) {
			o := in
			o.Stripes = append([][]Row{}, in.Stripes...)
			o.Stripes[i] = v
			out = append(out, o)
		}
	}
	for _, v := range chunksOff(in.Splits) {
		o := in
		o.Splits = v
		out = append(out, o)
	}
	if in.Stride > 0 {
		o := in
		o.Stride = 0
		out = append(out, o)
	}
	return
}

func init() {
	reg("C10", "column_roundtrip", 4, func(r *R) ColSeq { return r.col(false, true) }, func(in ColSeq) error { return runColumn(in, false) }, shrinkCol)
	reg("C08", "column_stride", 1, func(r *R) ColSeq { return r.col(true, true) }, func(in ColSeq) error {
		if in.Stride == 0 {
			return nil
		}
		return runColumn(in, true)
	}, shrinkCol)
	reg("C11", "column_stats", 4, func(r *R) ColSeq { return r.col(false, false) }, runColStats, shrinkCol)
	reg("C11", "decimal_stats", 1, func(r *R) DecStats {
		var d DecStats
		for n := 1 + r.Intn(5); n > 0; n-- {
			d.V = append(d.V, unzz(r.u64()>>16))
		}
		return d
	}, runDecStats, func(in DecStats) (out []DecStats) {
		for _, v := range chunksOff(in.V) {
			out = append(out, DecStats{v})
		}
		return
	})
}
