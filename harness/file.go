package main

import (
	"bytes"
	"compress/flate"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sync"

	"github.com/golang/protobuf/proto"
	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/config"
	"github.com/patrickhuang888/goorc/pb/pb"
)

// numbering and flattening a schema use package variables
var schemaMu sync.Mutex

// a column: a primitive kind, or a struct with children
type Node struct {
	Kind  string
	Name  string
	Nulls bool
	Kids  []*Node `json:",omitempty"`
}

func (n *Node) build() *api.TypeDescription {
	if n.Kind == "struct" {
		t := &api.TypeDescription{Kind: pb.Type_STRUCT, Encoding: pb.ColumnEncoding_DIRECT, HasNulls: n.Nulls}
		for _, c := range n.Kids {
			t.AddChild(c.Name, c.build())
		}
		return t
	}
	k := colKinds[n.Kind]
	return &api.TypeDescription{Kind: k.kind, Encoding: k.enc, HasNulls: n.Nulls}
}

func (n *Node) flat(out []*Node) []*Node {
	out = append(out, n)
	for _, c := range n.Kids {
		out = c.flat(out)
	}
	return out
}

type FileSeq struct {
	Root   *Node
	Cols   [][]Row // per column in pre-order; for a struct only N counts
	Zlib   bool
	Chunk  int
	Stripe int
	Stride int
	Writes []int // rows per Write call
	Batch  int
	Ops    []int // >=0: seek to this row (modulo rows+2), <0: read so many batches
	Again  int
}

func (in *FileSeq) rows() int {
	n := len(in.Cols[0])
	for _, c := range in.Cols {
		if len(c) < n {
			n = len(c)
		}
	}
	return n
}

type wrow struct {
	null bool
	u    uint64
}

// what each column holds: null where the column is null or an ancestor is
func (in *FileSeq) effective() map[*Node][]Row {
	eff := map[*Node][]Row{}
	i := 0
	n := in.rows()
	var walk func(nd *Node, parent []Row)
	walk = func(nd *Node, parent []Row) {
		rows := append([]Row{}, in.Cols[i][:n]...)
		i++
		for j := range rows {
			if !nd.Nulls {
				rows[j].N = false
			}
			if parent != nil && parent[j].N {
				rows[j].N = true
			}
		}
		eff[nd] = rows
		for _, c := range nd.Kids {
			walk(c, rows)
		}
	}
	walk(in.Root, nil)
	return eff
}

func (in *FileSeq) vector(nd *Node, td *api.TypeDescription, own map[*Node][]Row, from, to int, loose bool) *api.ColumnVector {
	v := &api.ColumnVector{Id: td.Id, Kind: td.Kind}
	rows := own[nd][from:to]
	if nd.Kind == "struct" {
		if nd.Nulls {
			for _, r := range rows {
				v.Vector = append(v.Vector, api.Value{Null: r.N})
			}
			if v.Vector == nil {
				v.Vector = []api.Value{}
			}
		}
		for i, c := range nd.Kids {
			v.Children = append(v.Children, in.vector(c, td.Children[i], own, from, to, loose))
		}
		return v
	}
	v.Vector = []api.Value{}
	k := colKinds[nd.Kind]
	for _, r := range rows {
		x := api.Value{Null: r.N}
		if !r.N {
			x.V = k.val(r.U)
		} else if loose && r.U%2 == 0 {
			x.Null = nd.Nulls // only the parent says that it is null
			if !nd.Nulls {
				x.V = k.val(r.U)
			}
		}
		v.Vector = append(v.Vector, x)
	}
	return v
}

// a scratch directory, made when the first file is written
var scratch string
var fileNo int
var fileMu sync.Mutex

func tempName() string {
	fileMu.Lock()
	defer fileMu.Unlock()
	if scratch == "" {
		for _, d := range []string{"/dev/shm", ""} {
			if s, err := os.MkdirTemp(d, "goorc-vh"); err == nil {
				scratch = s
				break
			}
		}
	}
	fileNo++
	return filepath.Join(scratch, fmt.Sprintf("f%d.orc", fileNo))
}

func cleanup() {
	fileMu.Lock()
	defer fileMu.Unlock()
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

func (in *FileSeq) opts() config.WriterOptions {
	return config.WriterOptions{ChunkSize: in.Chunk, CompressionKind: compKind(in.Zlib), StripeSize: in.Stripe, WriteIndex: in.Stride > 0, IndexStride: in.Stride}
}

func (in *FileSeq) write(path string, eff map[*Node][]Row, loose bool) (*api.TypeDescription, error) {
	td := in.Root.build()
	schemaMu.Lock()
	err := api.NormalizeSchema(td)
	var w orc.Writer
	if err == nil {
		w, err = orc.NewOSFileWriter(path, td, in.opts())
	}
	schemaMu.Unlock()
	if err != nil {
		return nil, err
	}
	n := in.rows()
	for at, i := 0, 0; at < n; i++ {
		c := n
		if len(in.Writes) > 0 {
			c = in.Writes[i%len(in.Writes)]
		}
		if c < 1 {
			c = 1
		}
		if at+c > n {
			c = n - at
		}
		if err := w.Write(in.vector(in.Root, td, eff, at, at+c, loose)); err != nil {
			return nil, fmt.Errorf("write of rows %d to %d: %v", at, at+c, err)
		}
		at += c
	}
	return td, w.Close()
}

func (in *FileSeq) checkBatch(vec *api.ColumnVector, nd *Node, eff map[*Node][]Row, at, n int, path string) error {
	rows := eff[nd][at : at+n]
	if nd.Kind == "struct" {
		if nd.Nulls {
			if len(vec.Vector) != n {
				return fmt.Errorf("column %s has %d rows, want %d", path, len(vec.Vector), n)
			}
			for i, r := range rows {
				if vec.Vector[i].Null != r.N {
					return fmt.Errorf("column %s row %d: null is %v, want %v", path, at+i, vec.Vector[i].Null, r.N)
				}
			}
		}
		if len(vec.Children) != len(nd.Kids) {
			return fmt.Errorf("column %s has %d children", path, len(vec.Children))
		}
		for i, c := range nd.Kids {
			if err := in.checkBatch(vec.Children[i], c, eff, at, n, path+"."+c.Name); err != nil {
				return err
			}
		}
		return nil
	}
	if len(vec.Vector) != n {
		return fmt.Errorf("column %s has %d rows at %d, want %d", path, len(vec.Vector), at, n)
	}
	k := colKinds[nd.Kind]
	for i, r := range rows {
		if err := sameRow(k, vec.Vector[i], r); err != nil {
			return fmt.Errorf("column %s row %d: %v", path, at+i, err)
		}
	}
	return nil
}

// rows of the batch: those of its first primitive column
func (in *FileSeq) batchRows(vec *api.ColumnVector, nd *Node) int {
	if nd.Kind != "struct" || nd.Nulls {
		return len(vec.Vector)
	}
	for i, c := range nd.Kids {
		return in.batchRows(vec.Children[i], c)
	}
	return 0
}

func runFile(in FileSeq, seeks bool) error {
	n := in.rows()
	if n == 0 {
		return nil
	}
	eff := in.effective()
	path := tempName()
	defer os.Remove(path)
	if _, err := in.write(path, eff, in.Again%2 == 1); err != nil {
		return err
	}
	rd, err := orc.NewOSFileReader(path)
	if err != nil {
		return fmt.Errorf("open: %v", err)
	}
	defer rd.Close()
	if int(rd.NumberOfRows()) != n {
		return fmt.Errorf("number of rows is %d, want %d", rd.NumberOfRows(), n)
	}
	bo := &api.BatchOption{RowSize: in.Batch}
	br, err := rd.CreateBatchReader(bo)
	if err != nil {
		return fmt.Errorf("batch reader: %v", err)
	}
	defer br.Close()
	vec, err := rd.GetSchema().CreateVector(bo)
	if err != nil {
		return fmt.Errorf("vector: %v", err)
	}
	at := 0
	// one batch
	next := func(what string) (bool, error) {
		end, err := br.Next(vec)
		if err != nil {
			return false, fmt.Errorf("%s: batch at row %d of %d: %v", what, at, n, err)
		}
		c := in.batchRows(vec, in.Root)
		if at == n {
			if !end || c != 0 {
				return false, fmt.Errorf("%s: after the last row: end %v, %d rows", what, end, c)
			}
			return true, nil
		}
		if c == 0 || c > in.Batch || at+c > n {
			return false, fmt.Errorf("%s: batch of %d rows at row %d of %d, batch size %d", what, c, at, n, in.Batch)
		}
		if err := in.checkBatch(vec, in.Root, eff, at, c, "root"); err != nil {
			return false, fmt.Errorf("%s: %v", what, err)
		}
		at += c
		if end != (at == n) {
			return false, fmt.Errorf("%s: end is %v after row %d of %d", what, end, at, n)
		}
		return end, nil
	}
	all := func(what string) error {
		for i := 0; ; i++ {
			end, err := next(what)
			if err != nil {
				return err
			}
			if end {
				break
			}
			if i > n+5 {
				return fmt.Errorf("%s: no end", what)
			}
		}
		if _, err := next(what); err != nil {
			return err
		}
		return nil
	}
	if !seeks {
		if err := all("reading"); err != nil {
			return err
		}
		return in.checkFileStats(rd, eff)
	}
	for i, op := range in.Ops {
		if op < 0 {
			for ; op < 0; op++ {
				if _, err := next(fmt.Sprintf("operation %d", i)); err != nil {
					return err
				}
			}
			continue
		}
		row := op % (n + 3)
		err := br.Seek(uint64(row))
		if row >= n {
			if err == nil {
				return fmt.Errorf("operation %d: no error for a seek to row %d of %d", i, row, n)
			}
			continue // and the position is as before
		}
		if err != nil {
			return fmt.Errorf("operation %d: seek to row %d of %d: %v", i, row, n, err)
		}
		at = row
	}
	return all("at the end")
}

func (in *FileSeq) checkFileStats(rd orc.Reader, eff map[*Node][]Row) error {
	st := rd.GetStatistics()
	nodes := in.Root.flat(nil)
	if len(st) != len(nodes) {
		return fmt.Errorf("%d statistics for %d columns", len(st), len(nodes))
	}
	for i, nd := range nodes {
		rows := eff[nd]
		for j := range rows { // leave NaN out
			if nan(nd.Kind, rows[j].U) && !rows[j].N {
				rows = nil
				break
			}
		}
		if rows == nil {
			continue
		}
		if nd.Kind == "struct" {
			v := uint64(0)
			for _, r := range rows {
				if !r.N {
					v++
				}
			}
			if st[i].GetNumberOfValues() != v || st[i].GetHasNull() != nd.Nulls {
				return fmt.Errorf("statistics of struct column %d: %v, want %d values, nulls %v", i, st[i], v, nd.Nulls)
			}
			continue
		}
		if err := checkStats(st[i], nd.Kind, nd.Nulls, rows); err != nil {
			return fmt.Errorf("statistics of column %d: %v", i, err)
		}
	}
	return nil
}

func nan(kind string, u uint64) bool {
	return kind == "float" && math.IsNaN(float64(math.Float32frombits(uint32(u)))) || kind == "double" && math.IsNaN(math.Float64frombits(u))
}

// independent reader of the compression chunks
func inflate(b []byte, zlib bool) ([]byte, error) {
	if !zlib {
		return b, nil
	}
	var out []byte
	for len(b) > 0 {
		if len(b) < 3 {
			return nil, fmt.Errorf("%d bytes left for a chunk header", len(b))
		}
		h := int(b[0]) | int(b[1])<<8 | int(b[2])<<16
		n := h >> 1
		if len(b) < 3+n {
			return nil, fmt.Errorf("chunk of %d bytes, %d left", n, len(b)-3)
		}
		if h&1 == 1 {
			out = append(out, b[3:3+n]...)
		} else {
			d, err := io.ReadAll(flate.NewReader(bytes.NewReader(b[3 : 3+n])))
			if err != nil {
				return nil, err
			}
			out = append(out, d...)
		}
		b = b[3+n:]
	}
	return out, nil
}

// the layout of the file, read independently
func runLayout(in FileSeq) error {
	n := in.rows()
	eff := in.effective()
	path := tempName()
	defer os.Remove(path)
	td, err := in.write(path, eff, false)
	if err != nil {
		return err
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	if len(b) < 4 || string(b[:3]) != "ORC" {
		return fmt.Errorf("no header")
	}
	psl := int(b[len(b)-1])
	pso := len(b) - 1 - psl
	if pso < 3 {
		return fmt.Errorf("postscript length %d, file length %d", psl, len(b))
	}
	ps := &pb.PostScript{}
	if err := proto.Unmarshal(b[pso:pso+psl], ps); err != nil {
		return fmt.Errorf("postscript: %v", err)
	}
	if ps.GetCompression() != compKind(in.Zlib) || ps.GetCompressionBlockSize() != uint64(in.Chunk) || ps.GetMagic() != "ORC" {
		return fmt.Errorf("postscript %v", ps)
	}
	fl := int(ps.GetFooterLength())
	fo := pso - fl - int(ps.GetMetadataLength())
	if fo < 3 {
		return fmt.Errorf("footer length %d, postscript at %d", fl, pso)
	}
	fb, err := inflate(b[fo:fo+fl], in.Zlib)
	if err != nil {
		return fmt.Errorf("footer: %v", err)
	}
	ft := &pb.Footer{}
	if err := proto.Unmarshal(fb, ft); err != nil {
		return fmt.Errorf("footer: %v", err)
	}
	nodes := in.Root.flat(nil)
	if ft.GetHeaderLength() != 3 || len(ft.GetTypes()) != len(nodes) || len(ft.GetStatistics()) != len(nodes) {
		return fmt.Errorf("footer: header length %d, %d types, %d statistics for %d columns", ft.GetHeaderLength(), len(ft.GetTypes()), len(ft.GetStatistics()), len(nodes))
	}
	at := uint64(3)
	var content, rows uint64
	for i, s := range ft.GetStripes() {
		if s.GetOffset() != at {
			return fmt.Errorf("stripe %d at %d, want %d", i, s.GetOffset(), at)
		}
		l := s.GetIndexLength() + s.GetDataLength() + s.GetFooterLength()
		if at+l > uint64(fo) {
			return fmt.Errorf("stripe %d ends at %d, footer at %d", i, at+l, fo)
		}
		sf := &pb.StripeFooter{}
		so := at + s.GetIndexLength() + s.GetDataLength()
		sb, err := inflate(b[so:so+s.GetFooterLength()], in.Zlib)
		if err != nil {
			return fmt.Errorf("footer of stripe %d: %v", i, err)
		}
		if err := proto.Unmarshal(sb, sf); err != nil {
			return fmt.Errorf("footer of stripe %d: %v", i, err)
		}
		var data uint64
		for _, st := range sf.GetStreams() {
			if k := st.GetKind(); k == pb.Stream_ROW_INDEX || k == pb.Stream_BLOOM_FILTER || k == pb.Stream_BLOOM_FILTER_UTF8 {
				continue
			}
			if int(st.GetColumn()) >= len(nodes) {
				return fmt.Errorf("stripe %d: stream of column %d", i, st.GetColumn())
			}
			if _, err := inflate(b[at+s.GetIndexLength()+data:at+s.GetIndexLength()+data+st.GetLength()], in.Zlib); err != nil {
				return fmt.Errorf("stripe %d: stream %v: %v", i, st, err)
			}
			data += st.GetLength()
		}
		if data != s.GetDataLength() {
			return fmt.Errorf("stripe %d: streams add up to %d, data length %d", i, data, s.GetDataLength())
		}
		if len(sf.GetColumns()) != len(nodes) {
			return fmt.Errorf("stripe %d: %d encodings for %d columns", i, len(sf.GetColumns()), len(nodes))
		}
		schemaMu.Lock()
		flat, err := td.Flat()
		schemaMu.Unlock()
		if err != nil {
			return err
		}
		for j, c := range sf.GetColumns() {
			if c.GetKind() != flat[j].Encoding {
				return fmt.Errorf("stripe %d: encoding of column %d is %v", i, j, c.GetKind())
			}
		}
		if s.GetNumberOfRows() == 0 {
			return fmt.Errorf("stripe %d has no rows", i)
		}
		at += l
		content += l
		rows += s.GetNumberOfRows()
	}
	if at != uint64(fo) {
		return fmt.Errorf("stripes end at %d, footer at %d", at, fo)
	}
	if ft.GetContentLength() != content {
		return fmt.Errorf("content length %d, stripes add up to %d", ft.GetContentLength(), content)
	}
	if ft.GetNumberOfRows() != rows || rows != uint64(n) {
		return fmt.Errorf("number of rows %d, stripes add up to %d, want %d", ft.GetNumberOfRows(), rows, n)
	}
	if n == 0 {
		return nil
	}
	rd, err := orc.NewOSFileReader(path)
	if err != nil {
		return fmt.Errorf("open (footer of %d bytes): %v", fl, err)
	}
	defer rd.Close()
	if int(rd.NumberOfRows()) != n {
		return fmt.Errorf("reader: %d rows, want %d", rd.NumberOfRows(), n)
	}
	if o := rd.GetReaderOptions(); o.CompressionKind != compKind(in.Zlib) || in.Zlib && o.ChunkSize != uint64(in.Chunk) {
		return fmt.Errorf("reader options %v", o)
	}
	return sameTree(rd.GetSchema(), td, "root")
}

// the stored schema: kinds, numbers, names of struct fields, children, nullability
func sameTree(got, want *api.TypeDescription, path string) error {
	if got == nil {
		return fmt.Errorf("schema: no node %s", path)
	}
	if got.Kind != want.Kind || got.Id != want.Id || len(got.Children) != len(want.Children) || got.HasNulls != want.HasNulls {
		return fmt.Errorf("schema: node %s is kind %v id %d with %d children, nulls %v, want kind %v id %d with %d children, nulls %v", path,
			got.Kind, got.Id, len(got.Children), got.HasNulls, want.Kind, want.Id, len(want.Children), want.HasNulls)
	}
	for i := range want.Children {
		if want.Kind == pb.Type_STRUCT && (len(got.ChildrenNames) <= i || got.ChildrenNames[i] != want.ChildrenNames[i]) {
			return fmt.Errorf("schema: child %d of %s has names %q, want %q", i, path, got.ChildrenNames, want.ChildrenNames)
		}
		if err := sameTree(got.Children[i], want.Children[i], fmt.Sprintf("%s/%d", path, i)); err != nil {
			return err
		}
	}
	return nil
}

// a struct of depth at most d; a nullable struct has no nullable child
func (r *R) node(d int, nullOK bool, size *int, names int) *Node {
	*size--
	nd := &Node{Kind: colNames[r.Intn(len(colNames))], Nulls: nullOK && r.pick(2)}
	nd.Name = fmt.Sprintf("c%d", *size)
	for names > 0 {
		nd.Name += nd.Name
		names -= len(nd.Name)
	}
	if d > 0 && r.pick(3) {
		nd.Kind = "struct"
		r.kids(nd, d, size, names)
	}
	return nd
}

func (r *R) kids(nd *Node, d int, size *int, names int) {
	n := 1 + r.Intn(4)
	for i := 0; i < n && (i == 0 || *size > 0); i++ {
		nd.Kids = append(nd.Kids, r.node(d-1, !nd.Nulls, size, names))
	}
}

func (r *R) file() FileSeq {
	in := FileSeq{Zlib: r.pick(2), Chunk: 50 + r.Intn(500), Batch: 1 + r.Intn(1+r.Intn(300)), Again: r.Intn(2)}
	size := 1 + r.Intn(8)
	in.Root = &Node{Kind: "struct", Nulls: r.pick(5)}
	if r.pick(12) {
		in.Root = &Node{Kind: colNames[r.Intn(len(colNames))], Nulls: r.pick(2)}
	} else {
		r.kids(in.Root, 3, &size, 0)
	}
	switch r.Intn(3) {
	case 0:
		in.Chunk = 4000 + r.Intn(100000)
	case 1:
		in.Chunk = 300 + r.Intn(3000)
	}
	in.Stripe = []int{1, 100, 1000, 10000, 1000000}[r.Intn(5)]
	if r.pick(4) {
		in.Stride = 1 + r.Intn(100)
	}
	max := 1 + r.Intn(600)
	if r.i < 60 {
		max = 1 + r.Intn(30)
	}
	nodes := in.Root.flat(nil)
	m := -1
	for _, nd := range nodes {
		k := nd.Kind
		if k == "struct" {
			continue
		}
		c := r.rows(k, nd.Nulls, 3*max, true)
		for len(c) < max {
			c = append(c, r.rows(k, nd.Nulls, 3*max, true)...)
			c = append(c, Row{nd.Nulls && r.pick(3), r.u64() & 0xffff})
		}
		in.Cols = append(in.Cols, c)
		_ = m
	}
	// put the columns of structs between
	var cols [][]Row
	i := 0
	for _, nd := range nodes {
		if nd.Kind == "struct" {
			cols = append(cols, nil)
			continue
		}
		cols = append(cols, in.Cols[i])
		i++
	}
	for i, nd := range nodes {
		if nd.Kind == "struct" {
			p := 2 + r.Intn(9)
			run := r.pick(2)
			st := false
			for j := 0; j < max; j++ {
				x := r.pick(p)
				if run {
					if x {
						st = !st
					}
					x = st
				}
				cols[i] = append(cols[i], Row{nd.Nulls && x, 0})
			}
		} else {
			cols[i] = cols[i][:max]
		}
	}
	in.Cols = cols
	for n := 1 + r.Intn(3); n > 0; n-- {
		in.Writes = append(in.Writes, 1+r.Intn(1+r.Intn(400)))
	}
	if in.Zlib && in.Stripe < 1000 { // a deflater for each stripe and stream is expensive
		w := 0
		for _, n := range in.Writes {
			w += n
		}
		for w/len(in.Writes) < max/4 {
			in.Writes[0] += max / 2
			w += max / 2
		}
	}
	for n := r.Intn(8); n > 0; n-- {
		if r.pick(3) {
			in.Ops = append(in.Ops, -1-r.Intn(4))
		} else if r.pick(5) {
			in.Ops = append(in.Ops, max-1+r.Intn(4))
		} else {
			in.Ops = append(in.Ops, r.Intn(max+3))
		}
	}
	return in
}

// files with a footer around and above the size that the reader guesses
func (r *R) wide() FileSeq {
	in := r.file()
	if r.pick(2) {
		return in
	}
	in.Zlib = r.pick(4)
	in.Root = &Node{Kind: "struct"}
	cols := 2 + r.Intn(40)
	per := 1 + r.Intn(1+r.Intn(1500))
	if r.pick(3) {
		per = 16384/cols - 30 - r.Intn(20)
	}
	name := make([]byte, per)
	for i := 0; i < cols; i++ {
		for j := range name {
			name[j] = byte('a' + r.Intn(26))
		}
		in.Root.Kids = append(in.Root.Kids, &Node{Kind: "long", Name: fmt.Sprintf("%d%s", i, name)})
	}
	in.Cols = nil
	n := 1 + r.Intn(5)
	for i := 0; i <= cols; i++ {
		var c []Row
		for j := 0; j < n; j++ {
			c = append(c, Row{U: r.u64()})
		}
		in.Cols = append(in.Cols, c)
	}
	in.Stripe = []int{1, 100000}[r.Intn(2)]
	return in
}

func shrinkFile(in FileSeq) (out []FileSeq) {
	n := in.rows()
	for k := n / 2; k >= 1; k /= 2 {
		for i := 0; i+k <= n && n-k > 0; i += k {
			o := in
			o.Cols = nil
			for _, c := range in.Cols {
				o.Cols = append(o.Cols, append(append([]Row{}, c[:i]...), c[i+k:n]...))
			}
			out = append(out, o)
			if len(out) > 60 {
				break
			}
		}
	}
	for _, v := range chunksOff(in.Ops) {
		o := in
		o.Ops = v
		out = append(out, o)
	}
	for _, v := range chunksOff(in.Writes) {
		o := in
		o.Writes = v
		out = append(out, o)
	}
	// drop a child of the root
	if in.Root.Kind == "struct" && len(in.Root.Kids) > 1 {
		at := 1
		for i, c := range in.Root.Kids {
			l := len(c.flat(nil))
			o := in
			root := *in.Root
			root.Kids = append(append([]*Node{}, in.Root.Kids[:i]...), in.Root.Kids[i+1:]...)
			o.Root = &root
			o.Cols = append(append([][]Row{}, in.Cols[:at]...), in.Cols[at+l:]...)
			out = append(out, o)
			at += l
		}
	}
	return
}

func init() {
	reg("C12", "file_roundtrip", 1, func(r *R) FileSeq { return r.file() }, func(in FileSeq) error { return runFile(in, false) }, shrinkFile)
	reg("C11", "file_stats", 3, func(r *R) FileSeq { return r.file() }, func(in FileSeq) error { return runFile(in, false) }, shrinkFile)
	reg("C16", "file_seek", 1, func(r *R) FileSeq { return r.file() }, func(in FileSeq) error { return runFile(in, true) }, shrinkFile)
	reg("C13", "file_layout", 1, func(r *R) FileSeq { return r.wide() }, runLayout, shrinkFile)
}
