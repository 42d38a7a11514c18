// The layout of a file: stripes one after the other, their lengths, the tail and where it is found.
package orc

// the bytes a column is to write out, and its stream entries (what the writers of package column are proved to do, C10)
ghost field outbytes []byte
ghost field sinfos []*pb.Stream
extern func (c column.Writer) Flush()
  modifies c.outbytes, c.sinfos
extern func (c column.Writer) WriteOut(out)
  modifies out.content
  ensures err == nil ==> out.content == old(out.content) ++ c.outbytes && ret0 == len(c.outbytes)
extern func (c column.Writer) GetIndex() pure
extern func (c column.Writer) GetStreamInfos() pure
  ensures ret0 == c.sinfos
extern func (c column.Writer) Reset()
  modifies c.outbytes, c.sinfos
extern func (c column.Writer) Size() pure
extern func proto.Marshal(m) pure
func (s *pb.StripeInformation) GetOffset() pure
  property C12, C13, C15, C16
  ensures ret0 == (s == nil || s.Offset == nil ? 0 : *s.Offset)
func (s *pb.StripeInformation) GetIndexLength() pure
  property C12, C13, C15, C16
  ensures ret0 == (s == nil || s.IndexLength == nil ? 0 : *s.IndexLength)
func (s *pb.StripeInformation) GetDataLength() pure
  property C12, C13, C15, C16
  ensures ret0 == (s == nil || s.DataLength == nil ? 0 : *s.DataLength)
func (s *pb.StripeInformation) GetFooterLength() pure
  property C12, C13, C15, C16
  ensures ret0 == (s == nil || s.FooterLength == nil ? 0 : *s.FooterLength)
func (s *pb.StripeInformation) GetNumberOfRows() pure
  property C12, C13, C15, C16
  ensures ret0 == (s == nil || s.NumberOfRows == nil ? 0 : *s.NumberOfRows)
extern func (s *pb.StripeFooter) String() pure
extern func (s *pb.Footer) String() pure
extern func (w io.Writer) Write(p)
  modifies w.content
  ensures err == nil ==> w.content == old(w.content) ++ p && ret0 == len(p)
extern func (w orcio.File) Write(p)
  modifies w.content
  ensures err == nil ==> w.content == old(w.content) ++ p && ret0 == len(p)

fn isum(S []int) int rec decreases len(S) = len(S) == 0 ? 0 : isum(S[:len(S)-1]) + S[len(S)-1]
fn nonneg(S []int) bool = forall k int {S[k]} :: 0 <= k < len(S) ==> S[k] >= 0
lemma isum_pos(S []int)
  property C13
  decreases len(S)
  requires nonneg(S)
  ensures isum(S) >= 0
  reveal isum
{ if len(S) > 0 { isum_pos(S[:len(S)-1]) } }
lemma isum_nil()
  property C13
  auto
  ensures isum(empty([]int)) == 0
  reveal isum
lemma isum_snoc(S []int, x int)
  property C13
  ensures isum(snoc(S, x)) == isum(S) + x
  reveal isum
{ assert snoc(S, x)[:len(snoc(S, x))-1] == S }

lemma isum_mono(S []int, n int)
  property C13
  decreases len(S) - n
  requires nonneg(S) && 0 <= n <= len(S)
  ensures isum(S[:n]) <= isum(S)
{
  if n < len(S) {
    isum_mono(S, n + 1)
    isum_snoc(S[:n], S[n])
    assert snoc(S[:n], S[n]) == S[:n+1]
  } else { assert S[:n] == S }
}

// the counters of a stripe lie in places of their own
ghost field owner *pb.StripeInformation
ghost field slot int
fn infook(i *pb.StripeInformation) bool = i != nil && i.Offset != nil && i.IndexLength != nil && i.DataLength != nil && i.FooterLength != nil && i.NumberOfRows != nil &&
  alloced(i) && alloced(i.Offset) && alloced(i.IndexLength) && alloced(i.DataLength) && alloced(i.FooterLength) && alloced(i.NumberOfRows) &&
  i.Offset.owner == i && i.IndexLength.owner == i && i.DataLength.owner == i && i.FooterLength.owner == i && i.NumberOfRows.owner == i &&
  i.Offset.slot == 1 && i.IndexLength.slot == 2 && i.DataLength.slot == 3 && i.FooterLength.slot == 4 && i.NumberOfRows.slot == 5
fn freshinfo(i *pb.StripeInformation) bool = fresh(i) && fresh(i.Offset) && fresh(i.IndexLength) && fresh(i.DataLength) && fresh(i.FooterLength) && fresh(i.NumberOfRows)
fn bytesof(i *pb.StripeInformation) int = *i.IndexLength + *i.DataLength + *i.FooterLength
fn swopts(o *config.WriterOptions) bool = o != nil && 0 < o.ChunkSize <= 8388607 && (o.CompressionKind == pb.CompressionKind_NONE || o.CompressionKind == pb.CompressionKind_ZLIB)
fn swok(s *stripeWriter) bool = s != nil && s.out != nil && alloced(s.out) && swopts(s.opts) && infook(s.info) && ref(s.out) != ref(s) && (forall k int {s.columnWriters[k]} :: 0 <= k < len(s.columnWriters) ==> s.columnWriters[k] != nil) &&
  (forall k int {s.schemas[k]} :: 0 <= k < len(s.schemas) ==> s.schemas[k] != nil)

// the stripe footer lists the streams of the columns in order
ghost field listed []*pb.Stream
func (s *stripeWriter) writeFooter()
  property C13
  requires swok(s)
  modifies s.out.content, *s.info.FooterLength
  ensures footer: err == nil ==> grew(old(s.out.content), s.out.content) && len(s.out.content) == len(old(s.out.content)) + *s.info.FooterLength
  // where the streams of each column start in the list
  var P []int = empty([]int)
  loop 1
    invariant len(P) == $n && (forall k int {P[k]} :: 0 <= k < $n ==> 0 <= P[k] && P[k] + len(s.columnWriters[k].sinfos) == (k + 1 < $n ? P[k+1] : len(footer.Streams)) && P[k] + len(s.columnWriters[k].sinfos) <= len(footer.Streams) && footer.Streams[P[k]:][:len(s.columnWriters[k].sinfos)] == s.columnWriters[k].sinfos)
    invariant $n == 0 ? len(footer.Streams) == 0 : P[0] == 0
  loop 2
    invariant len(footer.Columns) == $n
  at before call GetStreamInfos { P = snoc(P, len(footer.Streams)) }

func (s *stripeWriter) flushOut()
  property C13
  requires swok(s) && *s.info.IndexLength == 0 && *s.info.DataLength == 0
  modifies s.out.content, *s.info.IndexLength, *s.info.DataLength, *s.info.FooterLength, each(column.Writer).outbytes, each(column.Writer).sinfos
  ensures lengths: err == nil ==> grew(old(s.out.content), s.out.content) && len(s.out.content) == len(old(s.out.content)) + bytesof(s.info)
  loop 1
    invariant s.out.content == old(s.out.content)
  loop 2
    invariant grew(old(s.out.content), s.out.content) && len(s.out.content) == len(old(s.out.content)) + *s.info.IndexLength && *s.info.DataLength == 0
  loop 3
    invariant grew(old(s.out.content), s.out.content) && len(s.out.content) == len(old(s.out.content)) + *s.info.IndexLength + *s.info.DataLength

// the stripes so far: how many bytes and rows each has; they lie one after the other behind the header
ghost field sizes []int
ghost field counts []int
fn laid(s *stripeWriter) bool = recordedin(s) && (forall k int {s.infos[k]} :: 0 <= k < len(s.infos) ==> s.infos[k] != s.info) && *s.info.Offset == 3 + isum(s.sizes)
fn recordedin(s *stripeWriter) bool = len(s.sizes) == len(s.infos) && len(s.counts) == len(s.infos) &&
  (forall k int {s.infos[k]} :: 0 <= k < len(s.infos) ==> infook(s.infos[k]) && alloced(s.infos[k]) && bytesof(s.infos[k]) == s.sizes[k] && *s.infos[k].NumberOfRows == s.counts[k] && *s.infos[k].Offset == 3 + isum(s.sizes[:k]))
fn between(s *stripeWriter) bool = laid(s) && len(s.out.content) == *s.info.Offset && *s.info.IndexLength == 0 && *s.info.DataLength == 0 && *s.info.FooterLength == 0
fn after(s *stripeWriter) bool = laid(s) && len(s.out.content) == *s.info.Offset + bytesof(s.info)

func (s *stripeWriter) forward()
  property C13
  requires swok(s) && after(s) && len(s.out.content) <= 4611686018427387904
  modifies s.infos, s.info, s.sizes, s.counts, each(column.Writer).outbytes, each(column.Writer).sinfos
  ensures listed: s.infos == snoc(old(s.infos), old(s.info)) && s.sizes == snoc(old(s.sizes), old(bytesof(s.info))) && s.counts == snoc(old(s.counts), old(*s.info.NumberOfRows))
  ensures next: swok(s) && between(s) && freshinfo(s.info) && *s.info.NumberOfRows == 0
  at entry {
    s.sizes = snoc(s.sizes, bytesof(s.info))
    s.counts = snoc(s.counts, *s.info.NumberOfRows)
    isum_snoc(old(s.sizes), bytesof(s.info))
  }
  at exit {
    s.info.Offset.owner = s.info
    s.info.IndexLength.owner = s.info
    s.info.DataLength.owner = s.info
    s.info.FooterLength.owner = s.info
    s.info.NumberOfRows.owner = s.info
    s.info.Offset.slot = 1
    s.info.IndexLength.slot = 2
    s.info.DataLength.slot = 3
    s.info.FooterLength.slot = 4
    s.info.NumberOfRows.slot = 5
    assert forall k int {old(s.sizes)[:k]} {s.sizes[:k]} :: 0 <= k <= len(old(s.sizes)) ==> s.sizes[:k] == old(s.sizes)[:k]
  }

// one row: what it does to the columns is not seen here
extern func (s *stripeWriter) writeValue(index, vec, parentNull)
  modifies each(column.Writer).outbytes, each(column.Writer).sinfos
extern func (s stripeWriter) size() pure

// rows given so far
fn total(s *stripeWriter) int = isum(s.counts) + *s.info.NumberOfRows

func (s *stripeWriter) write(vec)
  property C12, C13
  requires swok(s) && between(s) && vec != nil && 0 <= vec.nrows && total(s) + vec.nrows <= 4611686018427387904 && 0 <= *s.info.NumberOfRows && nonneg(s.counts)
  modifies s.infos, s.info, s.sizes, s.counts, s.out.content, *s.info.NumberOfRows, *s.info.IndexLength, *s.info.DataLength, *s.info.FooterLength, each(column.Writer).outbytes, each(column.Writer).sinfos
  ensures rows: err == nil ==> total(s) == old(total(s)) + vec.nrows
  ensures laid: err == nil ==> swok(s) && between(s)
  loop 1
    invariant 0 <= i <= vec.nrows && 0 <= count <= i && swok(s) && between(s) && total(s) + count == old(total(s)) + i && nonneg(s.counts)
    invariant s.info == old(s.info) || freshinfo(s.info)
  var C []int = empty([]int)
  var N int = 0
  at entry { isum_pos(s.counts) }
  at loopbegin 1 { isum_pos(s.counts) }
  at before call forward { C = s.counts  N = *s.info.NumberOfRows  isum_pos(C) }
  at after call forward { isum_snoc(C, N) }
  at afterloop 1 { isum_pos(s.counts) }

func newStripeWriter(out, offset, schemas, opts)
  property C13
  requires out != nil && alloced(out) && swopts(opts) && (forall k int {schemas[k]} :: 0 <= k < len(schemas) ==> schemas[k] != nil) && offset == 3 && len(out.content) == 3
  ensures err == nil ==> fresh(ret0) && swok(ret0) && between(ret0) && *ret0.info.NumberOfRows == 0 && ret0.infos == empty([]*pb.StripeInformation) && ret0.counts == empty([]int) && ret0.out == out && ret0.schemas == schemas && ret0.opts == opts
  loop 1
    invariant forall k int {writers[k]} :: 0 <= k < len(writers) ==> writers[k] != nil
    invariant err == nil
  at exit {
    if err == nil {
      ret0.sizes = empty([]int)
      ret0.counts = empty([]int)
      ret0.info.Offset.owner = ret0.info
      ret0.info.IndexLength.owner = ret0.info
      ret0.info.DataLength.owner = ret0.info
      ret0.info.FooterLength.owner = ret0.info
      ret0.info.NumberOfRows.owner = ret0.info
      ret0.info.Offset.slot = 1
      ret0.info.IndexLength.slot = 2
      ret0.info.DataLength.slot = 3
      ret0.info.FooterLength.slot = 4
      ret0.info.NumberOfRows.slot = 5
    }
  }

// the bytes of the footer and of the postscript in the file
ghost field ftail []byte
ghost field pstail []byte
fn wrok(w *writer) bool = w != nil && w.f != nil && w.stripe != nil && swok(w.stripe) && w.opts == w.stripe.opts && w.f == w.stripe.out && ref(w.f) != ref(w) && ref(w.f) != ref(w.stripe) && alloced(w.f)

// the schemas of a writer are nodes of a schema
fn wschemas(w *writer) bool = tree() && forall k int {w.schemas[k]} :: 0 <= k < len(w.schemas) ==> w.schemas[k] != nil && w.schemas[k].intree
func (w *writer) writeFileTail()
  property C13, C14
  requires wschemas(w)
  requires wrok(w) && recordedin(w.stripe) && nonneg(w.stripe.counts) && nonneg(w.stripe.sizes) && isum(w.stripe.counts) <= 4611686018427387904 && isum(w.stripe.sizes) <= 4611686018427387904
  modifies w.f.content, w.ftail, w.pstail
  ensures tail: err == nil ==> w.f.content == snoc(old(w.f.content) ++ w.ftail ++ w.pstail, len(w.pstail) % 256)
  var n int = 0
  loop 1
    invariant *ft.ContentLength == isum(w.stripe.sizes[:$n]) && *ft.NumberOfRows == isum(w.stripe.counts[:$n])
  at step 1 {
    isum_snoc(w.stripe.sizes[:$n], w.stripe.sizes[$n])
    isum_snoc(w.stripe.counts[:$n], w.stripe.counts[$n])
    assert snoc(w.stripe.sizes[:$n], w.stripe.sizes[$n]) == w.stripe.sizes[:$n+1]
    assert snoc(w.stripe.counts[:$n], w.stripe.counts[$n]) == w.stripe.counts[:$n+1]
    isum_mono(w.stripe.sizes, $n + 1)
    isum_mono(w.stripe.counts, $n + 1)
    isum_pos(w.stripe.sizes[:$n])
    isum_pos(w.stripe.counts[:$n])
  }
  at afterloop 1 {
    assert *ft.ContentLength == isum(w.stripe.sizes) && *ft.NumberOfRows == isum(w.stripe.counts)
  }
  at before call Marshal {
    assert n == 0 ==> is(arg0, *pb.Footer) && as(arg0, *pb.Footer).Stripes == w.stripe.infos && *as(arg0, *pb.Footer).ContentLength == isum(w.stripe.sizes) && *as(arg0, *pb.Footer).NumberOfRows == isum(w.stripe.counts) && as(arg0, *pb.Footer).Statistics == w.columnStats
    assert n == 0 ==> (let T = as(arg0, *pb.Footer).Types in len(T) == len(w.schemas) && forall i int {T[i]} :: 0 <= i < len(w.schemas) ==> typed(T[i], w.schemas[i]))
    assert n == 1 ==> is(arg0, *pb.PostScript) && *as(arg0, *pb.PostScript).FooterLength == len(w.ftail) && *as(arg0, *pb.PostScript).Compression == w.opts.CompressionKind && *as(arg0, *pb.PostScript).CompressionBlockSize == w.opts.ChunkSize
  }
  at after call Marshal {
    if n == 0 { w.ftail = res0 } else { w.pstail = res0 }
    n = n + 1
  }
  at after call CompressingAllInChunks { w.ftail = arg2.content }

func (w *writer) Write(vec)
  property C12, C13
  requires wrok(w) && between(w.stripe) && vec != nil && 0 <= vec.nrows && total(w.stripe) + vec.nrows <= 4611686018427387904 && nonneg(w.stripe.counts)
  modifies w.stripe.infos, w.stripe.info, w.stripe.sizes, w.stripe.counts, w.f.content, *w.stripe.info.NumberOfRows, *w.stripe.info.IndexLength, *w.stripe.info.DataLength, *w.stripe.info.FooterLength, each(column.Writer).outbytes, each(column.Writer).sinfos
  ensures rows: err == nil ==> total(w.stripe) == old(total(w.stripe)) + vec.nrows
  ensures laid: err == nil ==> wrok(w) && between(w.stripe)

func (w *writer) Close()
  property C12, C13, C14
  requires wschemas(w)
  requires wrok(w) && between(w.stripe) && total(w.stripe) <= 4611686018427387904 && nonneg(w.stripe.counts) && nonneg(w.stripe.sizes) && len(w.f.content) <= 2305843009213693952
  modifies w.stripe.infos, w.stripe.sizes, w.stripe.counts, w.f.content, w.ftail, w.pstail, *w.stripe.info.IndexLength, *w.stripe.info.DataLength, *w.stripe.info.FooterLength, each(column.Writer).outbytes, each(column.Writer).sinfos
  ensures rows: err == nil ==> isum(w.stripe.counts) == old(total(w.stripe))
  ensures recorded: err == nil ==> recordedin(w.stripe)
  ensures tail: err == nil ==> len(w.f.content) == 3 + isum(w.stripe.sizes) + len(w.ftail) + len(w.pstail) + 1
  at after call flushOut {
    if res0 == nil {
      w.stripe.sizes = snoc(w.stripe.sizes, bytesof(w.stripe.info))
      w.stripe.counts = snoc(w.stripe.counts, *w.stripe.info.NumberOfRows)
      isum_snoc(old(w.stripe.sizes), bytesof(w.stripe.info))
      isum_snoc(old(w.stripe.counts), *w.stripe.info.NumberOfRows)
      assert forall k int {old(w.stripe.sizes)[:k]} {w.stripe.sizes[:k]} :: 0 <= k <= len(old(w.stripe.sizes)) ==> w.stripe.sizes[:k] == old(w.stripe.sizes)[:k]
    }
  }

extern func (c column.Writer) GetStats() pure

func newWriter(schema, opts, f)
  property C13, C14
  requires schema != nil && schema.intree && tree() && f != nil && alloced(f) && swopts(opts) && f.content == empty([]byte)
  modifies f.content, api._schemas
  ensures ready: err == nil ==> fresh(ret0) && wrok(ret0) && between(ret0.stripe) && total(ret0.stripe) == 0 && ret0.stripe.counts == empty([]int) && ret0.f == f
  ensures schemas: err == nil ==> isflat(ret0.schemas, schema) && wschemas(ret0)

// ---- reading the tail
ghost field wire []byte
extern func (f orcio.File) Size() pure
  ensures err == nil ==> ret0 == len(f.data)
// a message remembers the bytes it was read from
extern func proto.Unmarshal(b, m)
  modifies m.wire, *as(m, *pb.PostScript) when is(m, *pb.PostScript), *as(m, *pb.Footer) when is(m, *pb.Footer), *as(m, *pb.StripeFooter) when is(m, *pb.StripeFooter), *as(m, *pb.RowIndex) when is(m, *pb.RowIndex)
  ensures m.wire == b
  ensures is(m, *pb.Footer) ==> (let f = as(m, *pb.Footer) in (forall i int {f.Stripes[i]} :: 0 <= i < len(f.Stripes) ==> f.Stripes[i] != nil) &&
    (forall i int {f.Types[i]} :: 0 <= i < len(f.Types) ==> f.Types[i] != nil) && (forall i int {f.Statistics[i]} :: 0 <= i < len(f.Statistics) ==> f.Statistics[i] != nil))
extern func (m *pb.PostScript) String() pure
extern func (m *pb.StripeInformation) String() pure
extern func (m *pb.Type) String() pure
extern func (m *pb.ColumnStatistics) String() pure
fn psfooter(p *pb.PostScript) int = p.FooterLength == nil ? 0 : *p.FooterLength
fn psmeta(p *pb.PostScript) int = p.MetadataLength == nil ? 0 : *p.MetadataLength
fn pscomp(p *pb.PostScript) int = p.Compression == nil ? pb.CompressionKind_NONE : *p.Compression
fn psblock(p *pb.PostScript) int = p.CompressionBlockSize == nil ? 0 : *p.CompressionBlockSize
func (p *pb.PostScript) GetFooterLength() pure
  property C13, C15
  ensures ret0 == (p == nil ? 0 : psfooter(p))
func (p *pb.PostScript) GetMetadataLength() pure
  property C13, C15
  ensures ret0 == (p == nil ? 0 : psmeta(p))
func (p *pb.PostScript) GetCompression() pure
  property C13, C15
  ensures ret0 == (p == nil ? pb.CompressionKind_NONE : pscomp(p))
func (p *pb.PostScript) GetCompressionBlockSize() pure
  property C13, C15
  ensures ret0 == (p == nil ? 0 : psblock(p))
extern func (m *pb.Footer) GetHeaderLength() pure
extern func (m *pb.Footer) GetContentLength() pure

func extractFileTail(f)
  property C13, C15
  requires f != nil && alloced(f) && len(f.data) <= 4611686018427387904
  modifies f.content
  ensures there: err == nil ==> ret0 != nil && ret0.Footer != nil && ret0.Postscript != nil && (forall i int {ret0.Footer.Statistics[i]} :: 0 <= i < len(ret0.Footer.Statistics) ==> ret0.Footer.Statistics[i] != nil) && (forall i int {ret0.Footer.Types[i]} :: 0 <= i < len(ret0.Footer.Types) ==> ret0.Footer.Types[i] != nil)
  ensures postscript: err == nil ==> len(f.data) > 3 && 1 + f.data[len(f.data)-1] <= len(f.data) && ret0.Postscript.wire == f.data[len(f.data)-1-f.data[len(f.data)-1]:][:f.data[len(f.data)-1]]
  ensures footer: err == nil ==> (let p = f.data[len(f.data)-1] in 1 + p + psfooter(ret0.Postscript) <= len(f.data) && (let c = f.data[len(f.data)-1-p-psfooter(ret0.Postscript):][:psfooter(ret0.Postscript)] in
     pscomp(ret0.Postscript) == pb.CompressionKind_NONE ? ret0.Footer.wire == c : chsok(c) && ret0.Footer.wire == chsraw(c)))
  var Q *pb.PostScript = nil
  var c []byte = empty([]byte)
  at after call Unmarshal {
    if is(arg1, *pb.PostScript) { Q = as(arg1, *pb.PostScript) }
  }
  at after call GetMetadataLength {
    if Q != nil && 1 + f.data[len(f.data)-1] + psfooter(Q) <= len(f.data) { c = f.data[len(f.data)-1-f.data[len(f.data)-1]-psfooter(Q):][:psfooter(Q)] }
  }
  at before call DecompressChunks { assert arg2.content == c }
  at before call Unmarshal {
    if Q != nil { assert pscomp(Q) == pb.CompressionKind_NONE ? arg0 == c : chsok(c) && arg0 == chsraw(c) }
  }

fn sinfook(i *pb.StripeInformation, n int) bool = i != nil && i.Offset != nil && i.IndexLength != nil && i.DataLength != nil && i.FooterLength != nil && *i.Offset + *i.IndexLength + *i.DataLength + *i.FooterLength <= n && n <= 4611686018427387904
func (s *stripeReader) readFooter(info)
  property C13
  requires s.f != nil && s.ropts != nil && alloced(s.f) && sinfook(info, len(s.f.data))
  modifies s.f.content
  ensures footer: err == nil ==> (let c = s.f.data[*info.Offset + *info.IndexLength + *info.DataLength:][:*info.FooterLength] in s.ropts.CompressionKind == pb.CompressionKind_NONE ? ret0.wire == c : chsok(c) && ret0.wire == chsraw(c))
