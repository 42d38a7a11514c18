// Column writers: present flags, values in their streams, statistics.  Written by tools/gen_colw.py.
package column

func (s *pb.StringStatistics) GetMinimum() pure
  property C10, C11
  ensures ret0 == (s == nil || s.Minimum == nil ? empty(string) : *s.Minimum)
func (s *pb.DecimalStatistics) GetMinimum() pure
  property C10, C11
  ensures ret0 == (s == nil || s.Minimum == nil ? empty(string) : *s.Minimum)
func (s *pb.DecimalStatistics) GetMaximum() pure
  property C10, C11
  ensures ret0 == (s == nil || s.Maximum == nil ? empty(string) : *s.Maximum)
func (s *pb.DecimalStatistics) GetSum() pure
  property C10, C11
  ensures ret0 == (s == nil || s.Sum == nil ? empty(string) : *s.Sum)
func (s *pb.DateStatistics) GetMinimum() pure
  property C10, C11
  ensures ret0 == (s == nil || s.Minimum == nil ? 0 : *s.Minimum)
func (s *pb.DateStatistics) GetMaximum() pure
  property C10, C11
  ensures ret0 == (s == nil || s.Maximum == nil ? 0 : *s.Maximum)
func (s *pb.TimestampStatistics) GetMinimum() pure
  property C10, C11
  ensures ret0 == (s == nil || s.Minimum == nil ? 0 : *s.Minimum)
func (s *pb.TimestampStatistics) GetMaximum() pure
  property C10, C11
  ensures ret0 == (s == nil || s.Maximum == nil ? 0 : *s.Maximum)
func (s *pb.TimestampStatistics) GetMinimumUtc() pure
  property C10, C11
  ensures ret0 == (s == nil || s.MinimumUtc == nil ? 0 : *s.MinimumUtc)
func (s *pb.TimestampStatistics) GetMaximumUtc() pure
  property C10, C11
  ensures ret0 == (s == nil || s.MaximumUtc == nil ? 0 : *s.MaximumUtc)
// seconds by which a location's clocks are ahead of UTC
fn ahead(u int, loc int) int opaque
extern func (t time.Time) Zone() pure
  ensures ret1 == ahead(unix(t), zone(t))
extern func strconv.ParseFloat(s, bits) pure
  ensures floattext(s) ==> err == nil
extern func (r *pb.RowIndex) Reset()
  modifies r.Entry
  ensures r.Entry == empty([]*pb.RowIndexEntry)

fn ws(s any) *stream.writer = as(s, *stream.writer)
// a stream being written, a finished one, one without values held back
fn wlive(s any) bool = is(s, *stream.writer) && ws(s) != nil && wok(ws(s)) && wsync(ws(s)) && encj(ws(s).encoder) && (ws(s).opts.WriteIndex ==> posok(ws(s).encoder))
fn wfinished(s any) bool = is(s, *stream.writer) && ws(s) != nil && wok(ws(s)) && wdone(ws(s)) && encdone(ws(s).encoder) && encclean(ws(s).encoder) && (ws(s).opts.WriteIndex ==> posok(ws(s).encoder))
fn wclean(s any) bool = is(s, *stream.writer) && ws(s) != nil && wok(ws(s)) && encclean(ws(s).encoder) && (ws(s).opts.WriteIndex ==> posok(ws(s).encoder))
fn wblank(s any) bool = wlive(s) && encnew(ws(s).encoder) && wout(ws(s)) == empty([]byte)
// bytes of a stream
fn sbytes(s any) []byte = wout(ws(s))
fn slength(s any) int = *ws(s).info.Length
// where a stream stands
fn wpos(s any) []uint64 = snoc(wnone(ws(s)) ? empty([]uint64) : one(len(ws(s).compressedBuf.content)), len(ws(s).buf.content)) ++ encpos(ws(s).encoder)
fn wboolenc(s any) bool = is(ws(s).encoder, *encoding.boolRunLength)
fn wintenc(s any, signed bool) bool = is(ws(s).encoder, *encoding.intRLV2Encoder) && as(ws(s).encoder, *encoding.intRLV2Encoder).signed == signed
fn wfloatenc(s any, is64 bool) bool = is64 ? is(ws(s).encoder, *encoding.double) : is(ws(s).encoder, *encoding.float)
fn wvarenc(s any, x bool) bool = is(ws(s).encoder, *encoding.varint64Encoder)
fn wcontenc(s any, x bool) bool = is(ws(s).encoder, *encoding.stringContents)
fn wbytes8(s any, x bool) bool = is(ws(s).encoder, *encoding.byteRunLength)
fn wbools(s any, x bool) bool = wboolenc(s)
// what writing, finishing and emptying a stream changes
locs wl(s stream.Writer) = encst(ws(s).encoder), ws(s).count, ws(s).buf.content, ws(s).compressedBuf.content when !wnone(ws(s))
locs wf(s stream.Writer) = encst(ws(s).encoder), ws(s).buf.content, ws(s).compressedBuf.content when !wnone(ws(s)), *ws(s).info.Length
locs wd(s stream.Writer) = ws(s).buf.content when wnone(ws(s)), ws(s).compressedBuf.content when !wnone(ws(s))
locs wr(s stream.Writer) = *ws(s).info.Length, ws(s).buf.content, ws(s).compressedBuf.content when ws(s).compressedBuf != nil, ws(s).positions, ws(s).encoder.emitted, ws(s).encoder.given, ws(s).encoder.givenb, ws(s).encoder.given8

// streams that share nothing
fn wapart(a *stream.writer, b *stream.writer) bool = a != b && a.buf != b.buf && a.buf != b.compressedBuf && b.buf != a.compressedBuf && (a.compressedBuf == nil || a.compressedBuf != b.compressedBuf) &&
  ref(a.encoder) != ref(b.encoder) && a.info != b.info && a.info.Length != b.info.Length &&
  (is(a.encoder, *encoding.boolRunLength) ==> ref(as(a.encoder, *encoding.boolRunLength).brl) != ref(b.encoder)) && (is(b.encoder, *encoding.boolRunLength) ==> ref(as(b.encoder, *encoding.boolRunLength).brl) != ref(a.encoder)) &&
  (is(a.encoder, *encoding.boolRunLength) && is(b.encoder, *encoding.boolRunLength) ==> as(a.encoder, *encoding.boolRunLength).brl != as(b.encoder, *encoding.boolRunLength).brl)

fn statsbase(s *pb.ColumnStatistics) bool = s != nil && s.NumberOfValues != nil && s.HasNull != nil
fn statsapart(s *pb.ColumnStatistics, t *pb.ColumnStatistics) bool = s != t && s.NumberOfValues != t.NumberOfValues && s.HasNull != t.HasNull && s.BytesOnDisk != t.NumberOfValues
fn base(w *writer) bool = w != nil && w.schema != nil && w.opts != nil && statsbase(w.stats) && w.stats.BytesOnDisk != nil && w.stats.BytesOnDisk != w.stats.NumberOfValues && *w.stats.HasNull == w.schema.HasNulls &&
  (w.schema.HasNulls ==> is(w.present, *stream.writer) && ws(w.present) != nil && wboolenc(w.present) && onto(w, w.present)) &&
  (w.opts.WriteIndex ==> w.index != nil && statsbase(w.indexStats) && statsapart(w.stats, w.indexStats))
// a stream of w
fn onto(w *writer, s any) bool = ws(s).opts == w.opts && ws(s).info != nil && ws(s).info.Length != nil && ws(s).info.Length != w.stats.NumberOfValues && ws(s).info.Length != w.stats.BytesOnDisk

// order of strings
fn strless(a string, b string) bool rec decreases len(a) = len(b) == 0 ? false : len(a) == 0 ? true : a[0] != b[0] ? a[0] < b[0] : strless(a[1:], b[1:])
lemma strless_irrefl(a string)
  property C11
  decreases len(a)
  trigger {strless(a, a)}
  ensures !strless(a, a)
  reveal strless
{ if len(a) > 0 { strless_irrefl(a[1:]) } }
lemma strless_asym(a string, b string)
  property C11
  decreases len(a)
  trigger {strless(a, b)}
  requires strless(a, b)
  ensures !strless(b, a)
  reveal strless
{ if len(a) > 0 && len(b) > 0 { if a[0] == b[0] { strless_asym(a[1:], b[1:]) } } }
// a string that is not below one that is not below another is not below the other
lemma strless_trans(a string, b string, c string)
  property C11
  decreases len(a)
  requires !strless(b, a) && !strless(c, b)
  ensures !strless(c, a)
  reveal strless
{ if len(a) > 0 && len(b) > 0 && len(c) > 0 { if a[0] == b[0] && b[0] == c[0] { strless_trans(a[1:], b[1:], c[1:]) } } }

// floats by their bits: numbers, and their order
fn fmag(b int) int = b < 9223372036854775808 ? b : b - 9223372036854775808
fn fnum(b int) bool = fmag(b) <= 9218868437227405312
fn fkey(b int) int = b < 9223372036854775808 ? b : 9223372036854775808 - b

// bounds of the n values before still bound them, and the value written
fn lower(n int, m0 int, m1 int, has bool, v int) bool = (n > 0 ==> m1 <= m0) && (has ==> m1 <= v)
fn upper(n int, m0 int, m1 int, has bool, v int) bool = (n > 0 ==> m1 >= m0) && (has ==> m1 >= v)
fn flower(n int, m0 int, m1 int, has bool, v int) bool = fnum(m0) ==> fnum(m1) && lower(n, fkey(m0), fkey(m1), has && fnum(v), fkey(v))
fn fupper(n int, m0 int, m1 int, has bool, v int) bool = fnum(m0) ==> fnum(m1) && upper(n, fkey(m0), fkey(m1), has && fnum(v), fkey(v))
fn slower(n int, m0 string, m1 string, has bool, v string) bool = (n > 0 ==> !strless(m0, m1)) && (has ==> !strless(v, m1))
fn supper(n int, m0 string, m1 string, has bool, v string) bool = (n > 0 ==> !strless(m1, m0)) && (has ==> !strless(m1, v))

lemma lower_mono(has []bool, vs []int64, ms []int64, k int)
  property C11
  decreases len(vs) - k
  requires len(has) == len(vs) && len(ms) == len(vs) + 1 && 0 <= k <= len(vs) && tcount(has[:k]) > 0
  requires forall i int {ms[i]} {vs[i]} {has[:i]} :: 0 <= i < len(vs) ==> lower(tcount(has[:i]), ms[i], ms[i + 1], has[i], vs[i])
  ensures ms[len(vs)] <= ms[k]
{ if k < len(vs) { tcount_snoc(has, k)  lower_mono(has, vs, ms, k + 1)  assert lower(tcount(has[:k]), ms[k], ms[k + 1], has[k], vs[k]) } }
lemma upper_mono(has []bool, vs []int64, ms []int64, k int)
  property C11
  decreases len(vs) - k
  requires len(has) == len(vs) && len(ms) == len(vs) + 1 && 0 <= k <= len(vs) && tcount(has[:k]) > 0
  requires forall i int {ms[i]} {vs[i]} {has[:i]} :: 0 <= i < len(vs) ==> upper(tcount(has[:i]), ms[i], ms[i + 1], has[i], vs[i])
  ensures ms[len(vs)] >= ms[k]
{ if k < len(vs) { tcount_snoc(has, k)  upper_mono(has, vs, ms, k + 1)  assert upper(tcount(has[:k]), ms[k], ms[k + 1], has[k], vs[k]) } }
// the bounds after a history of rows bound each of its values
lemma lower_all(has []bool, vs []int64, ms []int64, k int)
  property C11
  decreases len(vs) - k
  requires len(has) == len(vs) && len(ms) == len(vs) + 1 && 0 <= k < len(vs) && has[k]
  requires forall i int {ms[i]} {vs[i]} {has[:i]} :: 0 <= i < len(vs) ==> lower(tcount(has[:i]), ms[i], ms[i + 1], has[i], vs[i])
  ensures ms[len(vs)] <= vs[k]
{ tcount_snoc(has, k)  lower_mono(has, vs, ms, k + 1)  assert lower(tcount(has[:k]), ms[k], ms[k + 1], has[k], vs[k]) }
lemma upper_all(has []bool, vs []int64, ms []int64, k int)
  property C11
  decreases len(vs) - k
  requires len(has) == len(vs) && len(ms) == len(vs) + 1 && 0 <= k < len(vs) && has[k]
  requires forall i int {ms[i]} {vs[i]} {has[:i]} :: 0 <= i < len(vs) ==> upper(tcount(has[:i]), ms[i], ms[i + 1], has[i], vs[i])
  ensures ms[len(vs)] >= vs[k]
{ tcount_snoc(has, k)  upper_mono(has, vs, ms, k + 1)  assert upper(tcount(has[:k]), ms[k], ms[k + 1], has[k], vs[k]) }

fn smin(s *pb.StringStatistics) *string = s.LowerBound != nil ? s.LowerBound : s.Minimum
fn smax(s *pb.StringStatistics) *string = s.LowerBound != nil ? s.UpperBound : s.Maximum
fn has_int(s *pb.ColumnStatistics) bool = s.IntStatistics != nil && s.DoubleStatistics == nil && s.StringStatistics == nil && s.BucketStatistics == nil && s.DecimalStatistics == nil && s.DateStatistics == nil && s.BinaryStatistics == nil && s.TimestampStatistics == nil && s.IntStatistics.Sum != nil && s.IntStatistics.Minimum != nil && s.IntStatistics.Maximum != nil && s.IntStatistics.Sum != s.IntStatistics.Minimum && s.IntStatistics.Sum != s.IntStatistics.Maximum && s.IntStatistics.Minimum != s.IntStatistics.Maximum
fn apart_int(s *pb.ColumnStatistics, t *pb.ColumnStatistics) bool = s.IntStatistics != t.IntStatistics && s.IntStatistics.Sum != t.IntStatistics.Sum && s.IntStatistics.Sum != t.IntStatistics.Minimum && s.IntStatistics.Sum != t.IntStatistics.Maximum && s.IntStatistics.Minimum != t.IntStatistics.Sum && s.IntStatistics.Minimum != t.IntStatistics.Minimum && s.IntStatistics.Minimum != t.IntStatistics.Maximum && s.IntStatistics.Maximum != t.IntStatistics.Sum && s.IntStatistics.Maximum != t.IntStatistics.Minimum && s.IntStatistics.Maximum != t.IntStatistics.Maximum
fn has_count(s *pb.ColumnStatistics) bool = s.BinaryStatistics != nil && s.IntStatistics == nil && s.DoubleStatistics == nil && s.StringStatistics == nil && s.BucketStatistics == nil && s.DecimalStatistics == nil && s.DateStatistics == nil && s.TimestampStatistics == nil && s.BinaryStatistics.Sum != nil
fn apart_count(s *pb.ColumnStatistics, t *pb.ColumnStatistics) bool = s.BinaryStatistics != t.BinaryStatistics && s.BinaryStatistics.Sum != t.BinaryStatistics.Sum
fn has_date(s *pb.ColumnStatistics) bool = s.DateStatistics != nil && s.IntStatistics == nil && s.DoubleStatistics == nil && s.StringStatistics == nil && s.BucketStatistics == nil && s.DecimalStatistics == nil && s.BinaryStatistics == nil && s.TimestampStatistics == nil && s.DateStatistics.Minimum != nil && s.DateStatistics.Maximum != nil && s.DateStatistics.Minimum != s.DateStatistics.Maximum
fn apart_date(s *pb.ColumnStatistics, t *pb.ColumnStatistics) bool = s.DateStatistics != t.DateStatistics && s.DateStatistics.Minimum != t.DateStatistics.Minimum && s.DateStatistics.Minimum != t.DateStatistics.Maximum && s.DateStatistics.Maximum != t.DateStatistics.Minimum && s.DateStatistics.Maximum != t.DateStatistics.Maximum
fn has_double(s *pb.ColumnStatistics) bool = s.DoubleStatistics != nil && s.IntStatistics == nil && s.StringStatistics == nil && s.BucketStatistics == nil && s.DecimalStatistics == nil && s.DateStatistics == nil && s.BinaryStatistics == nil && s.TimestampStatistics == nil && s.DoubleStatistics.Sum != nil && s.DoubleStatistics.Minimum != nil && s.DoubleStatistics.Maximum != nil && s.DoubleStatistics.Sum != s.DoubleStatistics.Minimum && s.DoubleStatistics.Sum != s.DoubleStatistics.Maximum && s.DoubleStatistics.Minimum != s.DoubleStatistics.Maximum
fn apart_double(s *pb.ColumnStatistics, t *pb.ColumnStatistics) bool = s.DoubleStatistics != t.DoubleStatistics && s.DoubleStatistics.Sum != t.DoubleStatistics.Sum && s.DoubleStatistics.Sum != t.DoubleStatistics.Minimum && s.DoubleStatistics.Sum != t.DoubleStatistics.Maximum && s.DoubleStatistics.Minimum != t.DoubleStatistics.Sum && s.DoubleStatistics.Minimum != t.DoubleStatistics.Minimum && s.DoubleStatistics.Minimum != t.DoubleStatistics.Maximum && s.DoubleStatistics.Maximum != t.DoubleStatistics.Sum && s.DoubleStatistics.Maximum != t.DoubleStatistics.Minimum && s.DoubleStatistics.Maximum != t.DoubleStatistics.Maximum
fn has_ts(s *pb.ColumnStatistics) bool = s.TimestampStatistics != nil && s.IntStatistics == nil && s.DoubleStatistics == nil && s.StringStatistics == nil && s.BucketStatistics == nil && s.DecimalStatistics == nil && s.DateStatistics == nil && s.BinaryStatistics == nil && s.TimestampStatistics.Minimum != nil && s.TimestampStatistics.Maximum != nil && s.TimestampStatistics.MinimumUtc != nil && s.TimestampStatistics.MaximumUtc != nil && s.TimestampStatistics.Minimum != s.TimestampStatistics.Maximum && s.TimestampStatistics.Minimum != s.TimestampStatistics.MinimumUtc && s.TimestampStatistics.Minimum != s.TimestampStatistics.MaximumUtc && s.TimestampStatistics.Maximum != s.TimestampStatistics.MinimumUtc && s.TimestampStatistics.Maximum != s.TimestampStatistics.MaximumUtc && s.TimestampStatistics.MinimumUtc != s.TimestampStatistics.MaximumUtc
fn apart_ts(s *pb.ColumnStatistics, t *pb.ColumnStatistics) bool = s.TimestampStatistics != t.TimestampStatistics && s.TimestampStatistics.Minimum != t.TimestampStatistics.Minimum && s.TimestampStatistics.Minimum != t.TimestampStatistics.Maximum && s.TimestampStatistics.Minimum != t.TimestampStatistics.MinimumUtc && s.TimestampStatistics.Minimum != t.TimestampStatistics.MaximumUtc && s.TimestampStatistics.Maximum != t.TimestampStatistics.Minimum && s.TimestampStatistics.Maximum != t.TimestampStatistics.Maximum && s.TimestampStatistics.Maximum != t.TimestampStatistics.MinimumUtc && s.TimestampStatistics.Maximum != t.TimestampStatistics.MaximumUtc && s.TimestampStatistics.MinimumUtc != t.TimestampStatistics.Minimum && s.TimestampStatistics.MinimumUtc != t.TimestampStatistics.Maximum && s.TimestampStatistics.MinimumUtc != t.TimestampStatistics.MinimumUtc && s.TimestampStatistics.MinimumUtc != t.TimestampStatistics.MaximumUtc && s.TimestampStatistics.MaximumUtc != t.TimestampStatistics.Minimum && s.TimestampStatistics.MaximumUtc != t.TimestampStatistics.Maximum && s.TimestampStatistics.MaximumUtc != t.TimestampStatistics.MinimumUtc && s.TimestampStatistics.MaximumUtc != t.TimestampStatistics.MaximumUtc
fn has_decimal(s *pb.ColumnStatistics) bool = s.DecimalStatistics != nil && s.IntStatistics == nil && s.DoubleStatistics == nil && s.StringStatistics == nil && s.BucketStatistics == nil && s.DateStatistics == nil && s.BinaryStatistics == nil && s.TimestampStatistics == nil && s.DecimalStatistics.Minimum != nil && s.DecimalStatistics.Maximum != nil && s.DecimalStatistics.Sum != nil && s.DecimalStatistics.Minimum != s.DecimalStatistics.Maximum && s.DecimalStatistics.Minimum != s.DecimalStatistics.Sum && s.DecimalStatistics.Maximum != s.DecimalStatistics.Sum && (len(*s.DecimalStatistics.Sum) == 0 || floattext(*s.DecimalStatistics.Sum))
fn apart_decimal(s *pb.ColumnStatistics, t *pb.ColumnStatistics) bool = s.DecimalStatistics != t.DecimalStatistics && s.DecimalStatistics.Minimum != t.DecimalStatistics.Minimum && s.DecimalStatistics.Minimum != t.DecimalStatistics.Maximum && s.DecimalStatistics.Minimum != t.DecimalStatistics.Sum && s.DecimalStatistics.Maximum != t.DecimalStatistics.Minimum && s.DecimalStatistics.Maximum != t.DecimalStatistics.Maximum && s.DecimalStatistics.Maximum != t.DecimalStatistics.Sum && s.DecimalStatistics.Sum != t.DecimalStatistics.Minimum && s.DecimalStatistics.Sum != t.DecimalStatistics.Maximum && s.DecimalStatistics.Sum != t.DecimalStatistics.Sum
fn has_bucket(s *pb.ColumnStatistics) bool = s.BucketStatistics != nil && s.IntStatistics == nil && s.DoubleStatistics == nil && s.StringStatistics == nil && s.DecimalStatistics == nil && s.DateStatistics == nil && s.BinaryStatistics == nil && s.TimestampStatistics == nil && len(s.BucketStatistics.Count) == 1
fn apart_bucket(s *pb.ColumnStatistics, t *pb.ColumnStatistics) bool = s.BucketStatistics != t.BucketStatistics
fn has_string(s *pb.ColumnStatistics) bool = s.StringStatistics != nil && s.IntStatistics == nil && s.DoubleStatistics == nil && s.BucketStatistics == nil && s.DecimalStatistics == nil && s.DateStatistics == nil && s.BinaryStatistics == nil && s.TimestampStatistics == nil && s.StringStatistics.Sum != nil && smin(s.StringStatistics) != nil && smax(s.StringStatistics) != nil && smin(s.StringStatistics) != smax(s.StringStatistics)
fn apart_string(s *pb.ColumnStatistics, t *pb.ColumnStatistics) bool = s.StringStatistics != t.StringStatistics && s.StringStatistics.Sum != t.StringStatistics.Sum && smin(s.StringStatistics) != smin(t.StringStatistics) && smin(s.StringStatistics) != smax(t.StringStatistics) && smax(s.StringStatistics) != smin(t.StringStatistics) && smax(s.StringStatistics) != smax(t.StringStatistics)

// ---- intWriter
fn wshape_intWriter(b *writer, data stream.Writer, bits int) bool = base(b) && has_int(b.stats) && (b.opts.WriteIndex ==> has_int(b.indexStats) && apart_int(b.stats, b.indexStats)) && is(data, *stream.writer) && ws(data) != nil && wintenc(data, true) && onto(b, data) && (b.schema.HasNulls ==> wapart(ws(b.present), ws(data))) && (bits == 16 || bits == 32 || bits == 64)
fn wopen_intWriter(b *writer, data stream.Writer, bits int) bool = (b.schema.HasNulls ==> wlive(b.present)) && wlive(data)
fn wclosed_intWriter(b *writer, data stream.Writer, bits int) bool = (b.schema.HasNulls ==> wfinished(b.present)) && wfinished(data)
fn wreset_intWriter(b *writer, data stream.Writer, bits int) bool = (b.schema.HasNulls ==> wclean(b.present)) && wclean(data)
fn wnew_intWriter(b *writer, data stream.Writer, bits int) bool = (b.schema.HasNulls ==> wblank(b.present)) && wblank(data)
func newIntV2Writer(schema, opts, bits)
  property C10, C11
  nocands
  requires schema != nil && optsok(opts)
  requires bits == 16 || bits == 32 || bits == 64
  ensures made: is(ret0, *intWriter) && as(ret0, *intWriter) != nil && as(ret0, *intWriter).writer != nil && as(ret0, *intWriter).writer.schema == schema && as(ret0, *intWriter).writer.opts == opts
  ensures state: let w = as(ret0, *intWriter) in wshape_intWriter(w.writer, w.data, w.bits) && wnew_intWriter(w.writer, w.data, w.bits)
  ensures kind: as(ret0, *intWriter).bits == bits
  ensures C11none: *as(ret0, *intWriter).writer.stats.NumberOfValues == 0 && *as(ret0, *intWriter).writer.stats.BytesOnDisk == 0

func (w *intWriter) Write(value)
  property C10, C11, C16
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_intWriter(w.writer, w.data, w.bits) && wopen_intWriter(w.writer, w.data, w.bits)
  requires typed: !value.Null ==> (w.bits == 16 ? is(value.V, int16) : w.bits == 32 ? is(value.V, int32) : w.bits == 64 && is(value.V, int64)) && 0 - 9223372036854775808 <= (w.bits == 16 ? as(value.V, int16) : w.bits == 32 ? as(value.V, int32) : as(value.V, int64)) <= 9223372036854775807
  modifies wl(w.writer.present) when w.writer.schema.HasNulls, wl(w.data)
  modifies *w.writer.stats.IntStatistics.Sum, *w.writer.stats.IntStatistics.Minimum, *w.writer.stats.IntStatistics.Maximum, *w.writer.stats.NumberOfValues
  modifies *w.writer.indexStats.IntStatistics.Sum when w.writer.opts.WriteIndex, *w.writer.indexStats.IntStatistics.Minimum when w.writer.opts.WriteIndex, *w.writer.indexStats.IntStatistics.Maximum when w.writer.opts.WriteIndex, *w.writer.indexStats.NumberOfValues when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures accepted: err == nil
  ensures state: wshape_intWriter(w.writer, w.data, w.bits) && wopen_intWriter(w.writer, w.data, w.bits)
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == snoc(old(ws(w.writer.present).encoder.givenb), !value.Null)
  ensures gives: ws(w.data).encoder.given == (value.Null ? old(ws(w.data).encoder.given) : snoc(old(ws(w.data).encoder.given), zz((w.bits == 16 ? as(value.V, int16) : w.bits == 32 ? as(value.V, int32) : as(value.V, int64)))))
  ensures C11count: *w.writer.stats.NumberOfValues == (value.Null ? old(*w.writer.stats.NumberOfValues) : u64(old(*w.writer.stats.NumberOfValues) + 1))
  ensures C11null: *w.writer.stats.HasNull == w.writer.schema.HasNulls
  ensures C11sum: *w.writer.stats.IntStatistics.Sum == (value.Null ? old(*w.writer.stats.IntStatistics.Sum) : i64(old(*w.writer.stats.IntStatistics.Sum) + (w.bits == 16 ? as(value.V, int16) : w.bits == 32 ? as(value.V, int32) : as(value.V, int64))))
  ensures C11min: lower(old(*w.writer.stats.NumberOfValues), old(*w.writer.stats.IntStatistics.Minimum), *w.writer.stats.IntStatistics.Minimum, !value.Null, (w.bits == 16 ? as(value.V, int16) : w.bits == 32 ? as(value.V, int32) : as(value.V, int64)))
  ensures C11max: upper(old(*w.writer.stats.NumberOfValues), old(*w.writer.stats.IntStatistics.Maximum), *w.writer.stats.IntStatistics.Maximum, !value.Null, (w.bits == 16 ? as(value.V, int16) : w.bits == 32 ? as(value.V, int32) : as(value.V, int64)))
  ensures C16rows: w.writer.opts.WriteIndex ==> w.writer.indexInRows == (i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ? 0 : i64(old(w.writer.indexInRows) + 1))
  ensures C16none: w.writer.opts.WriteIndex && !(i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride) ==> w.writer.index.Entry == old(w.writer.index.Entry)
  ensures C16entry: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> len(w.writer.index.Entry) == len(old(w.writer.index.Entry)) + 1 && w.writer.index.Entry[:len(old(w.writer.index.Entry))] == old(w.writer.index.Entry)
  ensures C16position: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> w.writer.index.Entry[len(old(w.writer.index.Entry))].Positions == (w.writer.schema.HasNulls ? wpos(w.writer.present) : empty([]uint64)) ++ wpos(w.data)

func (w intWriter) Flush()
  property C10, C11, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_intWriter(w.writer, w.data, w.bits) && wopen_intWriter(w.writer, w.data, w.bits)
  modifies wf(w.writer.present) when w.writer.schema.HasNulls, wf(w.data), *w.writer.stats.BytesOnDisk, w.writer.flushed
  ensures accepted: err == nil
  ensures state: wshape_intWriter(w.writer, w.data, w.bits) && wclosed_intWriter(w.writer, w.data, w.bits) && w.writer.flushed
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == old(ws(w.writer.present).encoder.givenb)
  ensures gives: ws(w.data).encoder.given == old(ws(w.data).encoder.given)
  ensures length: (w.writer.schema.HasNulls ==> slength(w.writer.present) == len(sbytes(w.writer.present))) && slength(w.data) == len(sbytes(w.data))
  ensures C11disk: let n = old(*w.writer.stats.BytesOnDisk) + (w.writer.schema.HasNulls ? slength(w.writer.present) : 0) + slength(w.data) in n <= 18446744073709551615 ==> *w.writer.stats.BytesOnDisk == n

func (w *intWriter) WriteOut(out)
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_intWriter(w.writer, w.data, w.bits) && wclosed_intWriter(w.writer, w.data, w.bits) && w.writer.flushed
  requires out != nil && (w.writer.schema.HasNulls ==> ref(out) != ws(w.writer.present).buf && ref(out) != ws(w.writer.present).compressedBuf)
  requires out != nil && (ref(out) != ws(w.data).buf && ref(out) != ws(w.data).compressedBuf)
  modifies out.content, wd(w.writer.present) when w.writer.schema.HasNulls, wd(w.data)
  ensures state: err == nil ==> wshape_intWriter(w.writer, w.data, w.bits) && wreset_intWriter(w.writer, w.data, w.bits)
  ensures exact: err == nil ==> out.content == old(out.content) ++ (w.writer.schema.HasNulls ? old(sbytes(w.writer.present)) : empty([]byte)) ++ old(sbytes(w.data))
  ensures total: err == nil ==> ret0 == (w.writer.schema.HasNulls ? len(old(sbytes(w.writer.present))) : 0) + len(old(sbytes(w.data)))

func (w intWriter) GetStreamInfos()
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_intWriter(w.writer, w.data, w.bits)
  ensures order: ret0 == (w.writer.schema.HasNulls ? snoc(snoc(empty([]*pb.Stream), ws(w.writer.present).info), ws(w.data).info) : snoc(empty([]*pb.Stream), ws(w.data).info))

func (w *intWriter) Reset()
  property C10, C11
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_intWriter(w.writer, w.data, w.bits) && wreset_intWriter(w.writer, w.data, w.bits)
  modifies wr(w.writer.present) when w.writer.schema.HasNulls, wr(w.data), w.writer.flushed, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures state: wshape_intWriter(w.writer, w.data, w.bits) && wnew_intWriter(w.writer, w.data, w.bits)
  ensures C16restart: w.writer.opts.WriteIndex ==> w.writer.indexInRows == 0 && w.writer.index.Entry == empty([]*pb.RowIndexEntry)

// ---- byteWriter
fn wshape_byteWriter(b *writer, data stream.Writer) bool = base(b) && has_count(b.stats) && (b.opts.WriteIndex ==> has_count(b.indexStats) && apart_count(b.stats, b.indexStats)) && is(data, *stream.writer) && ws(data) != nil && wbytes8(data, true) && onto(b, data) && (b.schema.HasNulls ==> wapart(ws(b.present), ws(data)))
fn wopen_byteWriter(b *writer, data stream.Writer) bool = (b.schema.HasNulls ==> wlive(b.present)) && wlive(data)
fn wclosed_byteWriter(b *writer, data stream.Writer) bool = (b.schema.HasNulls ==> wfinished(b.present)) && wfinished(data)
fn wreset_byteWriter(b *writer, data stream.Writer) bool = (b.schema.HasNulls ==> wclean(b.present)) && wclean(data)
fn wnew_byteWriter(b *writer, data stream.Writer) bool = (b.schema.HasNulls ==> wblank(b.present)) && wblank(data)
func newByteWriter(schema, opts)
  property C10, C11
  nocands
  requires schema != nil && optsok(opts)
  ensures made: is(ret0, *byteWriter) && as(ret0, *byteWriter) != nil && as(ret0, *byteWriter).writer != nil && as(ret0, *byteWriter).writer.schema == schema && as(ret0, *byteWriter).writer.opts == opts
  ensures state: let w = as(ret0, *byteWriter) in wshape_byteWriter(w.writer, w.data) && wnew_byteWriter(w.writer, w.data)
  ensures C11none: *as(ret0, *byteWriter).writer.stats.NumberOfValues == 0 && *as(ret0, *byteWriter).writer.stats.BytesOnDisk == 0

func (w *byteWriter) Write(value)
  property C10, C11, C16
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_byteWriter(w.writer, w.data) && wopen_byteWriter(w.writer, w.data)
  requires typed: !value.Null ==> is(value.V, byte)
  modifies wl(w.writer.present) when w.writer.schema.HasNulls, wl(w.data)
  modifies *w.writer.stats.BinaryStatistics.Sum, *w.writer.stats.NumberOfValues
  modifies *w.writer.indexStats.BinaryStatistics.Sum when w.writer.opts.WriteIndex, *w.writer.indexStats.NumberOfValues when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures accepted: err == nil
  ensures state: wshape_byteWriter(w.writer, w.data) && wopen_byteWriter(w.writer, w.data)
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == snoc(old(ws(w.writer.present).encoder.givenb), !value.Null)
  ensures gives: ws(w.data).encoder.given8 == (value.Null ? old(ws(w.data).encoder.given8) : snoc(old(ws(w.data).encoder.given8), as(value.V, byte)))
  ensures C11count: *w.writer.stats.NumberOfValues == (value.Null ? old(*w.writer.stats.NumberOfValues) : u64(old(*w.writer.stats.NumberOfValues) + 1))
  ensures C11null: *w.writer.stats.HasNull == w.writer.schema.HasNulls
  ensures C11sum: *w.writer.stats.BinaryStatistics.Sum == (value.Null ? old(*w.writer.stats.BinaryStatistics.Sum) : i64(old(*w.writer.stats.BinaryStatistics.Sum) + 1))
  ensures C16rows: w.writer.opts.WriteIndex ==> w.writer.indexInRows == (i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ? 0 : i64(old(w.writer.indexInRows) + 1))
  ensures C16none: w.writer.opts.WriteIndex && !(i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride) ==> w.writer.index.Entry == old(w.writer.index.Entry)
  ensures C16entry: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> len(w.writer.index.Entry) == len(old(w.writer.index.Entry)) + 1 && w.writer.index.Entry[:len(old(w.writer.index.Entry))] == old(w.writer.index.Entry)
  ensures C16position: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> w.writer.index.Entry[len(old(w.writer.index.Entry))].Positions == (w.writer.schema.HasNulls ? wpos(w.writer.present) : empty([]uint64)) ++ wpos(w.data)

func (w *byteWriter) Flush()
  property C10, C11, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_byteWriter(w.writer, w.data) && wopen_byteWriter(w.writer, w.data)
  modifies wf(w.writer.present) when w.writer.schema.HasNulls, wf(w.data), *w.writer.stats.BytesOnDisk, w.writer.flushed
  ensures accepted: err == nil
  ensures state: wshape_byteWriter(w.writer, w.data) && wclosed_byteWriter(w.writer, w.data) && w.writer.flushed
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == old(ws(w.writer.present).encoder.givenb)
  ensures gives: ws(w.data).encoder.given8 == old(ws(w.data).encoder.given8)
  ensures length: (w.writer.schema.HasNulls ==> slength(w.writer.present) == len(sbytes(w.writer.present))) && slength(w.data) == len(sbytes(w.data))
  ensures C11disk: let n = old(*w.writer.stats.BytesOnDisk) + (w.writer.schema.HasNulls ? slength(w.writer.present) : 0) + slength(w.data) in n <= 18446744073709551615 ==> *w.writer.stats.BytesOnDisk == n

func (w *byteWriter) WriteOut(out)
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_byteWriter(w.writer, w.data) && wclosed_byteWriter(w.writer, w.data) && w.writer.flushed
  requires out != nil && (w.writer.schema.HasNulls ==> ref(out) != ws(w.writer.present).buf && ref(out) != ws(w.writer.present).compressedBuf)
  requires out != nil && (ref(out) != ws(w.data).buf && ref(out) != ws(w.data).compressedBuf)
  modifies out.content, wd(w.writer.present) when w.writer.schema.HasNulls, wd(w.data)
  ensures state: err == nil ==> wshape_byteWriter(w.writer, w.data) && wreset_byteWriter(w.writer, w.data)
  ensures exact: err == nil ==> out.content == old(out.content) ++ (w.writer.schema.HasNulls ? old(sbytes(w.writer.present)) : empty([]byte)) ++ old(sbytes(w.data))
  ensures total: err == nil ==> ret0 == (w.writer.schema.HasNulls ? len(old(sbytes(w.writer.present))) : 0) + len(old(sbytes(w.data)))

func (w *byteWriter) GetStreamInfos()
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_byteWriter(w.writer, w.data)
  ensures order: ret0 == (w.writer.schema.HasNulls ? snoc(snoc(empty([]*pb.Stream), ws(w.writer.present).info), ws(w.data).info) : snoc(empty([]*pb.Stream), ws(w.data).info))

func (w *byteWriter) Reset()
  property C10, C11
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_byteWriter(w.writer, w.data) && wreset_byteWriter(w.writer, w.data)
  modifies wr(w.writer.present) when w.writer.schema.HasNulls, wr(w.data), w.writer.flushed, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures state: wshape_byteWriter(w.writer, w.data) && wnew_byteWriter(w.writer, w.data)
  ensures C16restart: w.writer.opts.WriteIndex ==> w.writer.indexInRows == 0 && w.writer.index.Entry == empty([]*pb.RowIndexEntry)

// ---- boolWriter
fn wshape_boolWriter(b *writer, data stream.Writer) bool = base(b) && has_bucket(b.stats) && (b.opts.WriteIndex ==> has_bucket(b.indexStats) && apart_bucket(b.stats, b.indexStats)) && is(data, *stream.writer) && ws(data) != nil && wbools(data, true) && onto(b, data) && (b.schema.HasNulls ==> wapart(ws(b.present), ws(data)))
fn wopen_boolWriter(b *writer, data stream.Writer) bool = (b.schema.HasNulls ==> wlive(b.present)) && wlive(data)
fn wclosed_boolWriter(b *writer, data stream.Writer) bool = (b.schema.HasNulls ==> wfinished(b.present)) && wfinished(data)
fn wreset_boolWriter(b *writer, data stream.Writer) bool = (b.schema.HasNulls ==> wclean(b.present)) && wclean(data)
fn wnew_boolWriter(b *writer, data stream.Writer) bool = (b.schema.HasNulls ==> wblank(b.present)) && wblank(data)
func newBoolWriter(schema, opts)
  property C10, C11
  nocands
  requires schema != nil && optsok(opts)
  ensures made: is(ret0, *boolWriter) && as(ret0, *boolWriter) != nil && as(ret0, *boolWriter).writer != nil && as(ret0, *boolWriter).writer.schema == schema && as(ret0, *boolWriter).writer.opts == opts
  ensures state: let w = as(ret0, *boolWriter) in wshape_boolWriter(w.writer, w.data) && wnew_boolWriter(w.writer, w.data)
  ensures C11none: *as(ret0, *boolWriter).writer.stats.NumberOfValues == 0 && *as(ret0, *boolWriter).writer.stats.BytesOnDisk == 0

func (w *boolWriter) Write(value)
  property C10, C11, C16
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_boolWriter(w.writer, w.data) && wopen_boolWriter(w.writer, w.data)
  requires typed: !value.Null ==> is(value.V, bool)
  modifies wl(w.writer.present) when w.writer.schema.HasNulls, wl(w.data)
  modifies *w.writer.stats.NumberOfValues, w.writer.stats.BucketStatistics.Count
  modifies *w.writer.indexStats.NumberOfValues when w.writer.opts.WriteIndex, w.writer.indexStats.BucketStatistics.Count when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures accepted: err == nil
  ensures state: wshape_boolWriter(w.writer, w.data) && wopen_boolWriter(w.writer, w.data)
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == snoc(old(ws(w.writer.present).encoder.givenb), !value.Null)
  ensures gives: ws(w.data).encoder.givenb == (value.Null ? old(ws(w.data).encoder.givenb) : snoc(old(ws(w.data).encoder.givenb), as(value.V, bool)))
  ensures C11count: *w.writer.stats.NumberOfValues == (value.Null ? old(*w.writer.stats.NumberOfValues) : u64(old(*w.writer.stats.NumberOfValues) + 1))
  ensures C11null: *w.writer.stats.HasNull == w.writer.schema.HasNulls
  ensures C11sum: len(w.writer.stats.BucketStatistics.Count) == 1 && w.writer.stats.BucketStatistics.Count[0] == (!value.Null && as(value.V, bool) ? u64(old(w.writer.stats.BucketStatistics.Count)[0] + 1) : old(w.writer.stats.BucketStatistics.Count)[0])
  ensures C16rows: w.writer.opts.WriteIndex ==> w.writer.indexInRows == (i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ? 0 : i64(old(w.writer.indexInRows) + 1))
  ensures C16none: w.writer.opts.WriteIndex && !(i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride) ==> w.writer.index.Entry == old(w.writer.index.Entry)
  ensures C16entry: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> len(w.writer.index.Entry) == len(old(w.writer.index.Entry)) + 1 && w.writer.index.Entry[:len(old(w.writer.index.Entry))] == old(w.writer.index.Entry)
  ensures C16position: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> w.writer.index.Entry[len(old(w.writer.index.Entry))].Positions == (w.writer.schema.HasNulls ? wpos(w.writer.present) : empty([]uint64)) ++ wpos(w.data)

func (w *boolWriter) Flush()
  property C10, C11, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_boolWriter(w.writer, w.data) && wopen_boolWriter(w.writer, w.data)
  modifies wf(w.writer.present) when w.writer.schema.HasNulls, wf(w.data), *w.writer.stats.BytesOnDisk, w.writer.flushed
  ensures accepted: err == nil
  ensures state: wshape_boolWriter(w.writer, w.data) && wclosed_boolWriter(w.writer, w.data) && w.writer.flushed
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == old(ws(w.writer.present).encoder.givenb)
  ensures gives: ws(w.data).encoder.givenb == old(ws(w.data).encoder.givenb)
  ensures length: (w.writer.schema.HasNulls ==> slength(w.writer.present) == len(sbytes(w.writer.present))) && slength(w.data) == len(sbytes(w.data))
  ensures C11disk: let n = old(*w.writer.stats.BytesOnDisk) + (w.writer.schema.HasNulls ? slength(w.writer.present) : 0) + slength(w.data) in n <= 18446744073709551615 ==> *w.writer.stats.BytesOnDisk == n

func (w *boolWriter) WriteOut(out)
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_boolWriter(w.writer, w.data) && wclosed_boolWriter(w.writer, w.data) && w.writer.flushed
  requires out != nil && (w.writer.schema.HasNulls ==> ref(out) != ws(w.writer.present).buf && ref(out) != ws(w.writer.present).compressedBuf)
  requires out != nil && (ref(out) != ws(w.data).buf && ref(out) != ws(w.data).compressedBuf)
  modifies out.content, wd(w.writer.present) when w.writer.schema.HasNulls, wd(w.data)
  ensures state: err == nil ==> wshape_boolWriter(w.writer, w.data) && wreset_boolWriter(w.writer, w.data)
  ensures exact: err == nil ==> out.content == old(out.content) ++ (w.writer.schema.HasNulls ? old(sbytes(w.writer.present)) : empty([]byte)) ++ old(sbytes(w.data))
  ensures total: err == nil ==> ret0 == (w.writer.schema.HasNulls ? len(old(sbytes(w.writer.present))) : 0) + len(old(sbytes(w.data)))

func (w *boolWriter) GetStreamInfos()
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_boolWriter(w.writer, w.data)
  ensures order: ret0 == (w.writer.schema.HasNulls ? snoc(snoc(empty([]*pb.Stream), ws(w.writer.present).info), ws(w.data).info) : snoc(empty([]*pb.Stream), ws(w.data).info))

func (w *boolWriter) Reset()
  property C10, C11
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_boolWriter(w.writer, w.data) && wreset_boolWriter(w.writer, w.data)
  modifies wr(w.writer.present) when w.writer.schema.HasNulls, wr(w.data), w.writer.flushed, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures state: wshape_boolWriter(w.writer, w.data) && wnew_boolWriter(w.writer, w.data)
  ensures C16restart: w.writer.opts.WriteIndex ==> w.writer.indexInRows == 0 && w.writer.index.Entry == empty([]*pb.RowIndexEntry)

// ---- floatWriter
fn wshape_floatWriter(b *writer, data stream.Writer, is64 bool) bool = base(b) && has_double(b.stats) && (b.opts.WriteIndex ==> has_double(b.indexStats) && apart_double(b.stats, b.indexStats)) && is(data, *stream.writer) && ws(data) != nil && wfloatenc(data, is64) && onto(b, data) && (b.schema.HasNulls ==> wapart(ws(b.present), ws(data)))
fn wopen_floatWriter(b *writer, data stream.Writer, is64 bool) bool = (b.schema.HasNulls ==> wlive(b.present)) && wlive(data)
fn wclosed_floatWriter(b *writer, data stream.Writer, is64 bool) bool = (b.schema.HasNulls ==> wfinished(b.present)) && wfinished(data)
fn wreset_floatWriter(b *writer, data stream.Writer, is64 bool) bool = (b.schema.HasNulls ==> wclean(b.present)) && wclean(data)
fn wnew_floatWriter(b *writer, data stream.Writer, is64 bool) bool = (b.schema.HasNulls ==> wblank(b.present)) && wblank(data)
func newFloatWriter(schema, opts, is64)
  property C10, C11
  nocands
  requires schema != nil && optsok(opts)
  ensures made: is(ret0, *floatWriter) && as(ret0, *floatWriter) != nil && as(ret0, *floatWriter).writer != nil && as(ret0, *floatWriter).writer.schema == schema && as(ret0, *floatWriter).writer.opts == opts
  ensures state: let w = as(ret0, *floatWriter) in wshape_floatWriter(w.writer, w.data, w.is64) && wnew_floatWriter(w.writer, w.data, w.is64)
  ensures kind: as(ret0, *floatWriter).is64 == is64
  ensures C11none: *as(ret0, *floatWriter).writer.stats.NumberOfValues == 0 && *as(ret0, *floatWriter).writer.stats.BytesOnDisk == 0

func (w *floatWriter) Write(value)
  property C10, C11, C16
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_floatWriter(w.writer, w.data, w.is64) && wopen_floatWriter(w.writer, w.data, w.is64)
  requires typed: !value.Null ==> (w.is64 ? is(value.V, float64) : is(value.V, float32))
  modifies wl(w.writer.present) when w.writer.schema.HasNulls, wl(w.data)
  modifies *w.writer.stats.DoubleStatistics.Sum, *w.writer.stats.DoubleStatistics.Minimum, *w.writer.stats.DoubleStatistics.Maximum, *w.writer.stats.NumberOfValues
  modifies *w.writer.indexStats.DoubleStatistics.Sum when w.writer.opts.WriteIndex, *w.writer.indexStats.DoubleStatistics.Minimum when w.writer.opts.WriteIndex, *w.writer.indexStats.DoubleStatistics.Maximum when w.writer.opts.WriteIndex, *w.writer.indexStats.NumberOfValues when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures accepted: err == nil
  ensures state: wshape_floatWriter(w.writer, w.data, w.is64) && wopen_floatWriter(w.writer, w.data, w.is64)
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == snoc(old(ws(w.writer.present).encoder.givenb), !value.Null)
  ensures gives: ws(w.data).encoder.given == (value.Null ? old(ws(w.data).encoder.given) : snoc(old(ws(w.data).encoder.given), (w.is64 ? bits(as(value.V, float64)) : bits(as(value.V, float32)))))
  ensures C11count: *w.writer.stats.NumberOfValues == (value.Null ? old(*w.writer.stats.NumberOfValues) : u64(old(*w.writer.stats.NumberOfValues) + 1))
  ensures C11null: *w.writer.stats.HasNull == w.writer.schema.HasNulls
  ensures C11min: flower(old(*w.writer.stats.NumberOfValues), old(bits(*w.writer.stats.DoubleStatistics.Minimum)), bits(*w.writer.stats.DoubleStatistics.Minimum), !value.Null, (w.is64 ? bits(as(value.V, float64)) : widen(as(value.V, float32))))
  ensures C11max: fupper(old(*w.writer.stats.NumberOfValues), old(bits(*w.writer.stats.DoubleStatistics.Maximum)), bits(*w.writer.stats.DoubleStatistics.Maximum), !value.Null, (w.is64 ? bits(as(value.V, float64)) : widen(as(value.V, float32))))
  ensures C16rows: w.writer.opts.WriteIndex ==> w.writer.indexInRows == (i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ? 0 : i64(old(w.writer.indexInRows) + 1))
  ensures C16none: w.writer.opts.WriteIndex && !(i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride) ==> w.writer.index.Entry == old(w.writer.index.Entry)
  ensures C16entry: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> len(w.writer.index.Entry) == len(old(w.writer.index.Entry)) + 1 && w.writer.index.Entry[:len(old(w.writer.index.Entry))] == old(w.writer.index.Entry)
  ensures C16position: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> w.writer.index.Entry[len(old(w.writer.index.Entry))].Positions == (w.writer.schema.HasNulls ? wpos(w.writer.present) : empty([]uint64)) ++ wpos(w.data)

func (w *floatWriter) Flush()
  property C10, C11, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_floatWriter(w.writer, w.data, w.is64) && wopen_floatWriter(w.writer, w.data, w.is64)
  modifies wf(w.writer.present) when w.writer.schema.HasNulls, wf(w.data), *w.writer.stats.BytesOnDisk, w.writer.flushed
  ensures accepted: err == nil
  ensures state: wshape_floatWriter(w.writer, w.data, w.is64) && wclosed_floatWriter(w.writer, w.data, w.is64) && w.writer.flushed
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == old(ws(w.writer.present).encoder.givenb)
  ensures gives: ws(w.data).encoder.given == old(ws(w.data).encoder.given)
  ensures length: (w.writer.schema.HasNulls ==> slength(w.writer.present) == len(sbytes(w.writer.present))) && slength(w.data) == len(sbytes(w.data))
  ensures C11disk: let n = old(*w.writer.stats.BytesOnDisk) + (w.writer.schema.HasNulls ? slength(w.writer.present) : 0) + slength(w.data) in n <= 18446744073709551615 ==> *w.writer.stats.BytesOnDisk == n

func (w *floatWriter) WriteOut(out)
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_floatWriter(w.writer, w.data, w.is64) && wclosed_floatWriter(w.writer, w.data, w.is64) && w.writer.flushed
  requires out != nil && (w.writer.schema.HasNulls ==> ref(out) != ws(w.writer.present).buf && ref(out) != ws(w.writer.present).compressedBuf)
  requires out != nil && (ref(out) != ws(w.data).buf && ref(out) != ws(w.data).compressedBuf)
  modifies out.content, wd(w.writer.present) when w.writer.schema.HasNulls, wd(w.data)
  ensures state: err == nil ==> wshape_floatWriter(w.writer, w.data, w.is64) && wreset_floatWriter(w.writer, w.data, w.is64)
  ensures exact: err == nil ==> out.content == old(out.content) ++ (w.writer.schema.HasNulls ? old(sbytes(w.writer.present)) : empty([]byte)) ++ old(sbytes(w.data))
  ensures total: err == nil ==> ret0 == (w.writer.schema.HasNulls ? len(old(sbytes(w.writer.present))) : 0) + len(old(sbytes(w.data)))

func (w *floatWriter) GetStreamInfos()
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_floatWriter(w.writer, w.data, w.is64)
  ensures order: ret0 == (w.writer.schema.HasNulls ? snoc(snoc(empty([]*pb.Stream), ws(w.writer.present).info), ws(w.data).info) : snoc(empty([]*pb.Stream), ws(w.data).info))

func (w *floatWriter) Reset()
  property C10, C11
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_floatWriter(w.writer, w.data, w.is64) && wreset_floatWriter(w.writer, w.data, w.is64)
  modifies wr(w.writer.present) when w.writer.schema.HasNulls, wr(w.data), w.writer.flushed, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures state: wshape_floatWriter(w.writer, w.data, w.is64) && wnew_floatWriter(w.writer, w.data, w.is64)
  ensures C16restart: w.writer.opts.WriteIndex ==> w.writer.indexInRows == 0 && w.writer.index.Entry == empty([]*pb.RowIndexEntry)

// ---- dateV2Writer
fn wshape_dateV2Writer(b *writer, data stream.Writer) bool = base(b) && has_date(b.stats) && (b.opts.WriteIndex ==> has_date(b.indexStats) && apart_date(b.stats, b.indexStats)) && is(data, *stream.writer) && ws(data) != nil && wintenc(data, true) && onto(b, data) && (b.schema.HasNulls ==> wapart(ws(b.present), ws(data)))
fn wopen_dateV2Writer(b *writer, data stream.Writer) bool = (b.schema.HasNulls ==> wlive(b.present)) && wlive(data)
fn wclosed_dateV2Writer(b *writer, data stream.Writer) bool = (b.schema.HasNulls ==> wfinished(b.present)) && wfinished(data)
fn wreset_dateV2Writer(b *writer, data stream.Writer) bool = (b.schema.HasNulls ==> wclean(b.present)) && wclean(data)
fn wnew_dateV2Writer(b *writer, data stream.Writer) bool = (b.schema.HasNulls ==> wblank(b.present)) && wblank(data)
func NewDateV2Writer(schema, opts)
  property C10, C11
  nocands
  requires schema != nil && optsok(opts)
  ensures made: is(ret0, *dateV2Writer) && as(ret0, *dateV2Writer) != nil && as(ret0, *dateV2Writer).writer != nil && as(ret0, *dateV2Writer).writer.schema == schema && as(ret0, *dateV2Writer).writer.opts == opts
  ensures state: let w = as(ret0, *dateV2Writer) in wshape_dateV2Writer(w.writer, w.data) && wnew_dateV2Writer(w.writer, w.data)
  ensures C11none: *as(ret0, *dateV2Writer).writer.stats.NumberOfValues == 0 && *as(ret0, *dateV2Writer).writer.stats.BytesOnDisk == 0

func (w *dateV2Writer) Write(value)
  property C10, C11, C16
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_dateV2Writer(w.writer, w.data) && wopen_dateV2Writer(w.writer, w.data)
  requires typed: !value.Null ==> is(value.V, api.Date)
  modifies wl(w.writer.present) when w.writer.schema.HasNulls, wl(w.data)
  modifies *w.writer.stats.DateStatistics.Minimum, *w.writer.stats.DateStatistics.Maximum, *w.writer.stats.NumberOfValues
  modifies *w.writer.indexStats.DateStatistics.Minimum when w.writer.opts.WriteIndex, *w.writer.indexStats.DateStatistics.Maximum when w.writer.opts.WriteIndex, *w.writer.indexStats.NumberOfValues when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures accepted: err == nil
  ensures state: wshape_dateV2Writer(w.writer, w.data) && wopen_dateV2Writer(w.writer, w.data)
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == snoc(old(ws(w.writer.present).encoder.givenb), !value.Null)
  ensures gives: ws(w.data).encoder.given == (value.Null ? old(ws(w.data).encoder.given) : snoc(old(ws(w.data).encoder.given), zz(i32(floordiv(unix(as(value.V, api.Date)), 86400)))))
  ensures C11count: *w.writer.stats.NumberOfValues == (value.Null ? old(*w.writer.stats.NumberOfValues) : u64(old(*w.writer.stats.NumberOfValues) + 1))
  ensures C11null: *w.writer.stats.HasNull == w.writer.schema.HasNulls
  ensures C11min: lower(old(*w.writer.stats.NumberOfValues), old(*w.writer.stats.DateStatistics.Minimum), *w.writer.stats.DateStatistics.Minimum, !value.Null, i32(floordiv(unix(as(value.V, api.Date)), 86400)))
  ensures C11max: upper(old(*w.writer.stats.NumberOfValues), old(*w.writer.stats.DateStatistics.Maximum), *w.writer.stats.DateStatistics.Maximum, !value.Null, i32(floordiv(unix(as(value.V, api.Date)), 86400)))
  ensures C16rows: w.writer.opts.WriteIndex ==> w.writer.indexInRows == (i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ? 0 : i64(old(w.writer.indexInRows) + 1))
  ensures C16none: w.writer.opts.WriteIndex && !(i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride) ==> w.writer.index.Entry == old(w.writer.index.Entry)
  ensures C16entry: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> len(w.writer.index.Entry) == len(old(w.writer.index.Entry)) + 1 && w.writer.index.Entry[:len(old(w.writer.index.Entry))] == old(w.writer.index.Entry)
  ensures C16position: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> w.writer.index.Entry[len(old(w.writer.index.Entry))].Positions == (w.writer.schema.HasNulls ? wpos(w.writer.present) : empty([]uint64)) ++ wpos(w.data)

func (w *dateV2Writer) Flush()
  property C10, C11, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_dateV2Writer(w.writer, w.data) && wopen_dateV2Writer(w.writer, w.data)
  modifies wf(w.writer.present) when w.writer.schema.HasNulls, wf(w.data), *w.writer.stats.BytesOnDisk, w.writer.flushed
  ensures accepted: err == nil
  ensures state: wshape_dateV2Writer(w.writer, w.data) && wclosed_dateV2Writer(w.writer, w.data) && w.writer.flushed
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == old(ws(w.writer.present).encoder.givenb)
  ensures gives: ws(w.data).encoder.given == old(ws(w.data).encoder.given)
  ensures length: (w.writer.schema.HasNulls ==> slength(w.writer.present) == len(sbytes(w.writer.present))) && slength(w.data) == len(sbytes(w.data))
  ensures C11disk: let n = old(*w.writer.stats.BytesOnDisk) + (w.writer.schema.HasNulls ? slength(w.writer.present) : 0) + slength(w.data) in n <= 18446744073709551615 ==> *w.writer.stats.BytesOnDisk == n

func (w *dateV2Writer) WriteOut(out)
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_dateV2Writer(w.writer, w.data) && wclosed_dateV2Writer(w.writer, w.data) && w.writer.flushed
  requires out != nil && (w.writer.schema.HasNulls ==> ref(out) != ws(w.writer.present).buf && ref(out) != ws(w.writer.present).compressedBuf)
  requires out != nil && (ref(out) != ws(w.data).buf && ref(out) != ws(w.data).compressedBuf)
  modifies out.content, wd(w.writer.present) when w.writer.schema.HasNulls, wd(w.data)
  ensures state: err == nil ==> wshape_dateV2Writer(w.writer, w.data) && wreset_dateV2Writer(w.writer, w.data)
  ensures exact: err == nil ==> out.content == old(out.content) ++ (w.writer.schema.HasNulls ? old(sbytes(w.writer.present)) : empty([]byte)) ++ old(sbytes(w.data))
  ensures total: err == nil ==> ret0 == (w.writer.schema.HasNulls ? len(old(sbytes(w.writer.present))) : 0) + len(old(sbytes(w.data)))

func (w *dateV2Writer) GetStreamInfos()
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_dateV2Writer(w.writer, w.data)
  ensures order: ret0 == (w.writer.schema.HasNulls ? snoc(snoc(empty([]*pb.Stream), ws(w.writer.present).info), ws(w.data).info) : snoc(empty([]*pb.Stream), ws(w.data).info))

func (w *dateV2Writer) Reset()
  property C10, C11
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_dateV2Writer(w.writer, w.data) && wreset_dateV2Writer(w.writer, w.data)
  modifies wr(w.writer.present) when w.writer.schema.HasNulls, wr(w.data), w.writer.flushed, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures state: wshape_dateV2Writer(w.writer, w.data) && wnew_dateV2Writer(w.writer, w.data)
  ensures C16restart: w.writer.opts.WriteIndex ==> w.writer.indexInRows == 0 && w.writer.index.Entry == empty([]*pb.RowIndexEntry)

// ---- timestampWriter
fn wshape_timestampWriter(b *writer, data stream.Writer, secondary stream.Writer) bool = base(b) && has_ts(b.stats) && (b.opts.WriteIndex ==> has_ts(b.indexStats) && apart_ts(b.stats, b.indexStats)) && is(data, *stream.writer) && ws(data) != nil && wintenc(data, true) && onto(b, data) && (b.schema.HasNulls ==> wapart(ws(b.present), ws(data))) && is(secondary, *stream.writer) && ws(secondary) != nil && wintenc(secondary, false) && onto(b, secondary) && (b.schema.HasNulls ==> wapart(ws(b.present), ws(secondary))) && wapart(ws(data), ws(secondary))
fn wopen_timestampWriter(b *writer, data stream.Writer, secondary stream.Writer) bool = (b.schema.HasNulls ==> wlive(b.present)) && wlive(data) && wlive(secondary)
fn wclosed_timestampWriter(b *writer, data stream.Writer, secondary stream.Writer) bool = (b.schema.HasNulls ==> wfinished(b.present)) && wfinished(data) && wfinished(secondary)
fn wreset_timestampWriter(b *writer, data stream.Writer, secondary stream.Writer) bool = (b.schema.HasNulls ==> wclean(b.present)) && wclean(data) && wclean(secondary)
fn wnew_timestampWriter(b *writer, data stream.Writer, secondary stream.Writer) bool = (b.schema.HasNulls ==> wblank(b.present)) && wblank(data) && wblank(secondary)
func NewTimestampV2Writer(schema, opts)
  property C10, C11
  nocands
  requires schema != nil && optsok(opts)
  ensures made: is(ret0, *timestampWriter) && as(ret0, *timestampWriter) != nil && as(ret0, *timestampWriter).writer != nil && as(ret0, *timestampWriter).writer.schema == schema && as(ret0, *timestampWriter).writer.opts == opts
  ensures state: let w = as(ret0, *timestampWriter) in wshape_timestampWriter(w.writer, w.data, w.secondary) && wnew_timestampWriter(w.writer, w.data, w.secondary)
  ensures C11none: *as(ret0, *timestampWriter).writer.stats.NumberOfValues == 0 && *as(ret0, *timestampWriter).writer.stats.BytesOnDisk == 0

func (w *timestampWriter) Write(value)
  property C10, C11, C16
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_timestampWriter(w.writer, w.data, w.secondary) && wopen_timestampWriter(w.writer, w.data, w.secondary)
  requires typed: !value.Null ==> is(value.V, api.Timestamp) && as(value.V, api.Timestamp).Nanos <= 999999999 && 0 - 9223372036854775808 <= as(value.V, api.Timestamp).Seconds <= 9223372036854775807
  modifies wl(w.writer.present) when w.writer.schema.HasNulls, wl(w.data), wl(w.secondary)
  modifies *w.writer.stats.TimestampStatistics.Minimum, *w.writer.stats.TimestampStatistics.Maximum, *w.writer.stats.TimestampStatistics.MinimumUtc, *w.writer.stats.TimestampStatistics.MaximumUtc, *w.writer.stats.NumberOfValues
  modifies *w.writer.indexStats.TimestampStatistics.Minimum when w.writer.opts.WriteIndex, *w.writer.indexStats.TimestampStatistics.Maximum when w.writer.opts.WriteIndex, *w.writer.indexStats.TimestampStatistics.MinimumUtc when w.writer.opts.WriteIndex, *w.writer.indexStats.TimestampStatistics.MaximumUtc when w.writer.opts.WriteIndex, *w.writer.indexStats.NumberOfValues when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures accepted: err == nil
  ensures state: wshape_timestampWriter(w.writer, w.data, w.secondary) && wopen_timestampWriter(w.writer, w.data, w.secondary)
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == snoc(old(ws(w.writer.present).encoder.givenb), !value.Null)
  ensures gives: ws(w.data).encoder.given == (value.Null ? old(ws(w.data).encoder.given) : snoc(old(ws(w.data).encoder.given), zz(as(value.V, api.Timestamp).Seconds)))
  ensures gives: value.Null ? ws(w.secondary).encoder.given == old(ws(w.secondary).encoder.given) : len(ws(w.secondary).encoder.given) == len(old(ws(w.secondary).encoder.given)) + 1 && ws(w.secondary).encoder.given[:len(old(ws(w.secondary).encoder.given))] == old(ws(w.secondary).encoder.given) && nanodec(ws(w.secondary).encoder.given[len(old(ws(w.secondary).encoder.given))]) == as(value.V, api.Timestamp).Nanos
  ensures C11count: *w.writer.stats.NumberOfValues == (value.Null ? old(*w.writer.stats.NumberOfValues) : u64(old(*w.writer.stats.NumberOfValues) + 1))
  ensures C11null: *w.writer.stats.HasNull == w.writer.schema.HasNulls
  ensures C11min: lower(old(*w.writer.stats.NumberOfValues), old(*w.writer.stats.TimestampStatistics.Minimum), *w.writer.stats.TimestampStatistics.Minimum, !value.Null, i64(i64(i64(epoch((as(value.V, api.Timestamp).Loc == nil ? ref(time.UTC) : ref(as(value.V, api.Timestamp).Loc))) + as(value.V, api.Timestamp).Seconds) * 1000) + as(value.V, api.Timestamp).Nanos / 1000000))
  ensures C11max: upper(old(*w.writer.stats.NumberOfValues), old(*w.writer.stats.TimestampStatistics.Maximum), *w.writer.stats.TimestampStatistics.Maximum, !value.Null, i64(i64(i64(epoch((as(value.V, api.Timestamp).Loc == nil ? ref(time.UTC) : ref(as(value.V, api.Timestamp).Loc))) + as(value.V, api.Timestamp).Seconds) * 1000) + as(value.V, api.Timestamp).Nanos / 1000000))
  ensures C11minutc: lower(old(*w.writer.stats.NumberOfValues), old(*w.writer.stats.TimestampStatistics.MinimumUtc), *w.writer.stats.TimestampStatistics.MinimumUtc, !value.Null, i64(i64(i64(i64(epoch((as(value.V, api.Timestamp).Loc == nil ? ref(time.UTC) : ref(as(value.V, api.Timestamp).Loc))) + as(value.V, api.Timestamp).Seconds) * 1000) + as(value.V, api.Timestamp).Nanos / 1000000) + i64(ahead(i64(epoch((as(value.V, api.Timestamp).Loc == nil ? ref(time.UTC) : ref(as(value.V, api.Timestamp).Loc))) + as(value.V, api.Timestamp).Seconds), (as(value.V, api.Timestamp).Loc == nil ? ref(time.UTC) : ref(as(value.V, api.Timestamp).Loc))) * 1000)))
  ensures C11maxutc: upper(old(*w.writer.stats.NumberOfValues), old(*w.writer.stats.TimestampStatistics.MaximumUtc), *w.writer.stats.TimestampStatistics.MaximumUtc, !value.Null, i64(i64(i64(i64(epoch((as(value.V, api.Timestamp).Loc == nil ? ref(time.UTC) : ref(as(value.V, api.Timestamp).Loc))) + as(value.V, api.Timestamp).Seconds) * 1000) + as(value.V, api.Timestamp).Nanos / 1000000) + i64(ahead(i64(epoch((as(value.V, api.Timestamp).Loc == nil ? ref(time.UTC) : ref(as(value.V, api.Timestamp).Loc))) + as(value.V, api.Timestamp).Seconds), (as(value.V, api.Timestamp).Loc == nil ? ref(time.UTC) : ref(as(value.V, api.Timestamp).Loc))) * 1000)))
  ensures C16rows: w.writer.opts.WriteIndex ==> w.writer.indexInRows == (i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ? 0 : i64(old(w.writer.indexInRows) + 1))
  ensures C16none: w.writer.opts.WriteIndex && !(i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride) ==> w.writer.index.Entry == old(w.writer.index.Entry)
  ensures C16entry: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> len(w.writer.index.Entry) == len(old(w.writer.index.Entry)) + 1 && w.writer.index.Entry[:len(old(w.writer.index.Entry))] == old(w.writer.index.Entry)
  ensures C16position: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> w.writer.index.Entry[len(old(w.writer.index.Entry))].Positions == (w.writer.schema.HasNulls ? wpos(w.writer.present) : empty([]uint64)) ++ wpos(w.data) ++ wpos(w.secondary)

func (w *timestampWriter) Flush()
  property C10, C11, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_timestampWriter(w.writer, w.data, w.secondary) && wopen_timestampWriter(w.writer, w.data, w.secondary)
  modifies wf(w.writer.present) when w.writer.schema.HasNulls, wf(w.data), wf(w.secondary), *w.writer.stats.BytesOnDisk, w.writer.flushed
  ensures accepted: err == nil
  ensures state: wshape_timestampWriter(w.writer, w.data, w.secondary) && wclosed_timestampWriter(w.writer, w.data, w.secondary) && w.writer.flushed
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == old(ws(w.writer.present).encoder.givenb)
  ensures gives: ws(w.data).encoder.given == old(ws(w.data).encoder.given)
  ensures gives: ws(w.secondary).encoder.given == old(ws(w.secondary).encoder.given)
  ensures length: (w.writer.schema.HasNulls ==> slength(w.writer.present) == len(sbytes(w.writer.present))) && slength(w.data) == len(sbytes(w.data)) && slength(w.secondary) == len(sbytes(w.secondary))
  ensures C11disk: let n = old(*w.writer.stats.BytesOnDisk) + (w.writer.schema.HasNulls ? slength(w.writer.present) : 0) + slength(w.data) + slength(w.secondary) in n <= 18446744073709551615 ==> *w.writer.stats.BytesOnDisk == n

func (w *timestampWriter) WriteOut(out)
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_timestampWriter(w.writer, w.data, w.secondary) && wclosed_timestampWriter(w.writer, w.data, w.secondary) && w.writer.flushed
  requires out != nil && (w.writer.schema.HasNulls ==> ref(out) != ws(w.writer.present).buf && ref(out) != ws(w.writer.present).compressedBuf)
  requires out != nil && (ref(out) != ws(w.data).buf && ref(out) != ws(w.data).compressedBuf)
  requires out != nil && (ref(out) != ws(w.secondary).buf && ref(out) != ws(w.secondary).compressedBuf)
  modifies out.content, wd(w.writer.present) when w.writer.schema.HasNulls, wd(w.data), wd(w.secondary)
  ensures state: err == nil ==> wshape_timestampWriter(w.writer, w.data, w.secondary) && wreset_timestampWriter(w.writer, w.data, w.secondary)
  ensures exact: err == nil ==> out.content == old(out.content) ++ (w.writer.schema.HasNulls ? old(sbytes(w.writer.present)) : empty([]byte)) ++ old(sbytes(w.data)) ++ old(sbytes(w.secondary))
  ensures total: err == nil ==> ret0 == (w.writer.schema.HasNulls ? len(old(sbytes(w.writer.present))) : 0) + len(old(sbytes(w.data))) + len(old(sbytes(w.secondary)))

func (w *timestampWriter) GetStreamInfos()
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_timestampWriter(w.writer, w.data, w.secondary)
  ensures order: ret0 == (w.writer.schema.HasNulls ? snoc(snoc(snoc(empty([]*pb.Stream), ws(w.writer.present).info), ws(w.data).info), ws(w.secondary).info) : snoc(snoc(empty([]*pb.Stream), ws(w.data).info), ws(w.secondary).info))

func (w *timestampWriter) Reset()
  property C10, C11
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_timestampWriter(w.writer, w.data, w.secondary) && wreset_timestampWriter(w.writer, w.data, w.secondary)
  modifies wr(w.writer.present) when w.writer.schema.HasNulls, wr(w.data), wr(w.secondary), w.writer.flushed, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures state: wshape_timestampWriter(w.writer, w.data, w.secondary) && wnew_timestampWriter(w.writer, w.data, w.secondary)
  ensures C16restart: w.writer.opts.WriteIndex ==> w.writer.indexInRows == 0 && w.writer.index.Entry == empty([]*pb.RowIndexEntry)

// ---- decimalV2Writer
fn wshape_decimalV2Writer(b *writer, data stream.Writer, secondary stream.Writer) bool = base(b) && has_decimal(b.stats) && (b.opts.WriteIndex ==> has_decimal(b.indexStats) && apart_decimal(b.stats, b.indexStats)) && is(data, *stream.writer) && ws(data) != nil && wvarenc(data, true) && onto(b, data) && (b.schema.HasNulls ==> wapart(ws(b.present), ws(data))) && is(secondary, *stream.writer) && ws(secondary) != nil && wintenc(secondary, true) && onto(b, secondary) && (b.schema.HasNulls ==> wapart(ws(b.present), ws(secondary))) && wapart(ws(data), ws(secondary))
fn wopen_decimalV2Writer(b *writer, data stream.Writer, secondary stream.Writer) bool = (b.schema.HasNulls ==> wlive(b.present)) && wlive(data) && wlive(secondary)
fn wclosed_decimalV2Writer(b *writer, data stream.Writer, secondary stream.Writer) bool = (b.schema.HasNulls ==> wfinished(b.present)) && wfinished(data) && wfinished(secondary)
fn wreset_decimalV2Writer(b *writer, data stream.Writer, secondary stream.Writer) bool = (b.schema.HasNulls ==> wclean(b.present)) && wclean(data) && wclean(secondary)
fn wnew_decimalV2Writer(b *writer, data stream.Writer, secondary stream.Writer) bool = (b.schema.HasNulls ==> wblank(b.present)) && wblank(data) && wblank(secondary)
func NewDecimal64V2Writer(schema, opts)
  property C10, C11
  nocands
  requires schema != nil && optsok(opts)
  ensures made: is(ret0, *decimalV2Writer) && as(ret0, *decimalV2Writer) != nil && as(ret0, *decimalV2Writer).writer != nil && as(ret0, *decimalV2Writer).writer.schema == schema && as(ret0, *decimalV2Writer).writer.opts == opts
  ensures state: let w = as(ret0, *decimalV2Writer) in wshape_decimalV2Writer(w.writer, w.data, w.secondary) && wnew_decimalV2Writer(w.writer, w.data, w.secondary)
  ensures C11none: *as(ret0, *decimalV2Writer).writer.stats.NumberOfValues == 0 && *as(ret0, *decimalV2Writer).writer.stats.BytesOnDisk == 0

func (w *decimalV2Writer) Write(value)
  property C10, C11, C16
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_decimalV2Writer(w.writer, w.data, w.secondary) && wopen_decimalV2Writer(w.writer, w.data, w.secondary)
  requires typed: !value.Null ==> is(value.V, api.Decimal64) && 0 - 9223372036854775808 <= as(value.V, api.Decimal64).Precision <= 9223372036854775807
  modifies wl(w.writer.present) when w.writer.schema.HasNulls, wl(w.data), wl(w.secondary)
  modifies *w.writer.stats.DecimalStatistics.Minimum, *w.writer.stats.DecimalStatistics.Maximum, *w.writer.stats.DecimalStatistics.Sum, *w.writer.stats.NumberOfValues
  modifies *w.writer.indexStats.DecimalStatistics.Minimum when w.writer.opts.WriteIndex, *w.writer.indexStats.DecimalStatistics.Maximum when w.writer.opts.WriteIndex, *w.writer.indexStats.DecimalStatistics.Sum when w.writer.opts.WriteIndex, *w.writer.indexStats.NumberOfValues when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures accepted: err == nil
  ensures state: wshape_decimalV2Writer(w.writer, w.data, w.secondary) && wopen_decimalV2Writer(w.writer, w.data, w.secondary)
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == snoc(old(ws(w.writer.present).encoder.givenb), !value.Null)
  ensures gives: ws(w.data).encoder.given == (value.Null ? old(ws(w.data).encoder.given) : snoc(old(ws(w.data).encoder.given), zz(as(value.V, api.Decimal64).Precision)))
  ensures gives: ws(w.secondary).encoder.given == (value.Null ? old(ws(w.secondary).encoder.given) : snoc(old(ws(w.secondary).encoder.given), zz(as(value.V, api.Decimal64).Scale)))
  ensures C11count: *w.writer.stats.NumberOfValues == (value.Null ? old(*w.writer.stats.NumberOfValues) : u64(old(*w.writer.stats.NumberOfValues) + 1))
  ensures C11null: *w.writer.stats.HasNull == w.writer.schema.HasNulls
  ensures C16rows: w.writer.opts.WriteIndex ==> w.writer.indexInRows == (i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ? 0 : i64(old(w.writer.indexInRows) + 1))
  ensures C16none: w.writer.opts.WriteIndex && !(i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride) ==> w.writer.index.Entry == old(w.writer.index.Entry)
  ensures C16entry: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> len(w.writer.index.Entry) == len(old(w.writer.index.Entry)) + 1 && w.writer.index.Entry[:len(old(w.writer.index.Entry))] == old(w.writer.index.Entry)
  ensures C16position: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> w.writer.index.Entry[len(old(w.writer.index.Entry))].Positions == (w.writer.schema.HasNulls ? wpos(w.writer.present) : empty([]uint64)) ++ wpos(w.data) ++ wpos(w.secondary)

func (w *decimalV2Writer) Flush()
  property C10, C11, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_decimalV2Writer(w.writer, w.data, w.secondary) && wopen_decimalV2Writer(w.writer, w.data, w.secondary)
  modifies wf(w.writer.present) when w.writer.schema.HasNulls, wf(w.data), wf(w.secondary), *w.writer.stats.BytesOnDisk, w.writer.flushed
  ensures accepted: err == nil
  ensures state: wshape_decimalV2Writer(w.writer, w.data, w.secondary) && wclosed_decimalV2Writer(w.writer, w.data, w.secondary) && w.writer.flushed
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == old(ws(w.writer.present).encoder.givenb)
  ensures gives: ws(w.data).encoder.given == old(ws(w.data).encoder.given)
  ensures gives: ws(w.secondary).encoder.given == old(ws(w.secondary).encoder.given)
  ensures length: (w.writer.schema.HasNulls ==> slength(w.writer.present) == len(sbytes(w.writer.present))) && slength(w.data) == len(sbytes(w.data)) && slength(w.secondary) == len(sbytes(w.secondary))
  ensures C11disk: let n = old(*w.writer.stats.BytesOnDisk) + (w.writer.schema.HasNulls ? slength(w.writer.present) : 0) + slength(w.data) + slength(w.secondary) in n <= 18446744073709551615 ==> *w.writer.stats.BytesOnDisk == n

func (w *decimalV2Writer) WriteOut(out)
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_decimalV2Writer(w.writer, w.data, w.secondary) && wclosed_decimalV2Writer(w.writer, w.data, w.secondary) && w.writer.flushed
  requires out != nil && (w.writer.schema.HasNulls ==> ref(out) != ws(w.writer.present).buf && ref(out) != ws(w.writer.present).compressedBuf)
  requires out != nil && (ref(out) != ws(w.data).buf && ref(out) != ws(w.data).compressedBuf)
  requires out != nil && (ref(out) != ws(w.secondary).buf && ref(out) != ws(w.secondary).compressedBuf)
  modifies out.content, wd(w.writer.present) when w.writer.schema.HasNulls, wd(w.data), wd(w.secondary)
  ensures state: err == nil ==> wshape_decimalV2Writer(w.writer, w.data, w.secondary) && wreset_decimalV2Writer(w.writer, w.data, w.secondary)
  ensures exact: err == nil ==> out.content == old(out.content) ++ (w.writer.schema.HasNulls ? old(sbytes(w.writer.present)) : empty([]byte)) ++ old(sbytes(w.data)) ++ old(sbytes(w.secondary))
  ensures total: err == nil ==> ret0 == (w.writer.schema.HasNulls ? len(old(sbytes(w.writer.present))) : 0) + len(old(sbytes(w.data))) + len(old(sbytes(w.secondary)))

func (w *decimalV2Writer) GetStreamInfos()
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_decimalV2Writer(w.writer, w.data, w.secondary)
  ensures order: ret0 == (w.writer.schema.HasNulls ? snoc(snoc(snoc(empty([]*pb.Stream), ws(w.writer.present).info), ws(w.data).info), ws(w.secondary).info) : snoc(snoc(empty([]*pb.Stream), ws(w.data).info), ws(w.secondary).info))

func (w decimalV2Writer) Reset()
  property C10, C11
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_decimalV2Writer(w.writer, w.data, w.secondary) && wreset_decimalV2Writer(w.writer, w.data, w.secondary)
  modifies wr(w.writer.present) when w.writer.schema.HasNulls, wr(w.data), wr(w.secondary), w.writer.flushed, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures state: wshape_decimalV2Writer(w.writer, w.data, w.secondary) && wnew_decimalV2Writer(w.writer, w.data, w.secondary)
  ensures C16restart: w.writer.opts.WriteIndex ==> w.writer.indexInRows == 0 && w.writer.index.Entry == empty([]*pb.RowIndexEntry)

// ---- binaryV2Writer
fn wshape_binaryV2Writer(b *writer, data stream.Writer, length stream.Writer) bool = base(b) && has_count(b.stats) && (b.opts.WriteIndex ==> has_count(b.indexStats) && apart_count(b.stats, b.indexStats)) && is(data, *stream.writer) && ws(data) != nil && wcontenc(data, true) && onto(b, data) && (b.schema.HasNulls ==> wapart(ws(b.present), ws(data))) && is(length, *stream.writer) && ws(length) != nil && wintenc(length, false) && onto(b, length) && (b.schema.HasNulls ==> wapart(ws(b.present), ws(length))) && wapart(ws(data), ws(length))
fn wopen_binaryV2Writer(b *writer, data stream.Writer, length stream.Writer) bool = (b.schema.HasNulls ==> wlive(b.present)) && wlive(data) && wlive(length)
fn wclosed_binaryV2Writer(b *writer, data stream.Writer, length stream.Writer) bool = (b.schema.HasNulls ==> wfinished(b.present)) && wfinished(data) && wfinished(length)
fn wreset_binaryV2Writer(b *writer, data stream.Writer, length stream.Writer) bool = (b.schema.HasNulls ==> wclean(b.present)) && wclean(data) && wclean(length)
fn wnew_binaryV2Writer(b *writer, data stream.Writer, length stream.Writer) bool = (b.schema.HasNulls ==> wblank(b.present)) && wblank(data) && wblank(length)
func NewBinaryV2Writer(schema, opts)
  property C10, C11
  nocands
  requires schema != nil && optsok(opts)
  ensures made: is(ret0, *binaryV2Writer) && as(ret0, *binaryV2Writer) != nil && as(ret0, *binaryV2Writer).writer != nil && as(ret0, *binaryV2Writer).writer.schema == schema && as(ret0, *binaryV2Writer).writer.opts == opts
  ensures state: let w = as(ret0, *binaryV2Writer) in wshape_binaryV2Writer(w.writer, w.data, w.length) && wnew_binaryV2Writer(w.writer, w.data, w.length)
  ensures C11none: *as(ret0, *binaryV2Writer).writer.stats.NumberOfValues == 0 && *as(ret0, *binaryV2Writer).writer.stats.BytesOnDisk == 0

func (w *binaryV2Writer) Write(value)
  property C10, C11, C16
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_binaryV2Writer(w.writer, w.data, w.length) && wopen_binaryV2Writer(w.writer, w.data, w.length)
  requires typed: !value.Null ==> is(value.V, []byte)
  modifies wl(w.writer.present) when w.writer.schema.HasNulls, wl(w.data), wl(w.length)
  modifies *w.writer.stats.BinaryStatistics.Sum, *w.writer.stats.NumberOfValues
  modifies *w.writer.indexStats.BinaryStatistics.Sum when w.writer.opts.WriteIndex, *w.writer.indexStats.NumberOfValues when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures accepted: err == nil
  ensures state: wshape_binaryV2Writer(w.writer, w.data, w.length) && wopen_binaryV2Writer(w.writer, w.data, w.length)
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == snoc(old(ws(w.writer.present).encoder.givenb), !value.Null)
  ensures gives: ws(w.data).encoder.emitted == (value.Null ? old(ws(w.data).encoder.emitted) : old(ws(w.data).encoder.emitted) ++ as(value.V, []byte))
  ensures gives: ws(w.length).encoder.given == (value.Null ? old(ws(w.length).encoder.given) : snoc(old(ws(w.length).encoder.given), len(as(value.V, []byte))))
  ensures C11count: *w.writer.stats.NumberOfValues == (value.Null ? old(*w.writer.stats.NumberOfValues) : u64(old(*w.writer.stats.NumberOfValues) + 1))
  ensures C11null: *w.writer.stats.HasNull == w.writer.schema.HasNulls
  ensures C11sum: *w.writer.stats.BinaryStatistics.Sum == (value.Null ? old(*w.writer.stats.BinaryStatistics.Sum) : i64(old(*w.writer.stats.BinaryStatistics.Sum) + len(as(value.V, []byte))))
  ensures C16rows: w.writer.opts.WriteIndex ==> w.writer.indexInRows == (i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ? 0 : i64(old(w.writer.indexInRows) + 1))
  ensures C16none: w.writer.opts.WriteIndex && !(i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride) ==> w.writer.index.Entry == old(w.writer.index.Entry)
  ensures C16entry: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> len(w.writer.index.Entry) == len(old(w.writer.index.Entry)) + 1 && w.writer.index.Entry[:len(old(w.writer.index.Entry))] == old(w.writer.index.Entry)
  ensures C16position: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> w.writer.index.Entry[len(old(w.writer.index.Entry))].Positions == (w.writer.schema.HasNulls ? wpos(w.writer.present) : empty([]uint64)) ++ wpos(w.data) ++ wpos(w.length)

func (w *binaryV2Writer) Flush()
  property C10, C11, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_binaryV2Writer(w.writer, w.data, w.length) && wopen_binaryV2Writer(w.writer, w.data, w.length)
  modifies wf(w.writer.present) when w.writer.schema.HasNulls, wf(w.data), wf(w.length), *w.writer.stats.BytesOnDisk, w.writer.flushed
  ensures accepted: err == nil
  ensures state: wshape_binaryV2Writer(w.writer, w.data, w.length) && wclosed_binaryV2Writer(w.writer, w.data, w.length) && w.writer.flushed
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == old(ws(w.writer.present).encoder.givenb)
  ensures gives: ws(w.data).encoder.emitted == old(ws(w.data).encoder.emitted)
  ensures gives: ws(w.length).encoder.given == old(ws(w.length).encoder.given)
  ensures length: (w.writer.schema.HasNulls ==> slength(w.writer.present) == len(sbytes(w.writer.present))) && slength(w.data) == len(sbytes(w.data)) && slength(w.length) == len(sbytes(w.length))
  ensures C11disk: let n = old(*w.writer.stats.BytesOnDisk) + (w.writer.schema.HasNulls ? slength(w.writer.present) : 0) + slength(w.data) + slength(w.length) in n <= 18446744073709551615 ==> *w.writer.stats.BytesOnDisk == n

func (w *binaryV2Writer) WriteOut(out)
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_binaryV2Writer(w.writer, w.data, w.length) && wclosed_binaryV2Writer(w.writer, w.data, w.length) && w.writer.flushed
  requires out != nil && (w.writer.schema.HasNulls ==> ref(out) != ws(w.writer.present).buf && ref(out) != ws(w.writer.present).compressedBuf)
  requires out != nil && (ref(out) != ws(w.data).buf && ref(out) != ws(w.data).compressedBuf)
  requires out != nil && (ref(out) != ws(w.length).buf && ref(out) != ws(w.length).compressedBuf)
  modifies out.content, wd(w.writer.present) when w.writer.schema.HasNulls, wd(w.data), wd(w.length)
  ensures state: err == nil ==> wshape_binaryV2Writer(w.writer, w.data, w.length) && wreset_binaryV2Writer(w.writer, w.data, w.length)
  ensures exact: err == nil ==> out.content == old(out.content) ++ (w.writer.schema.HasNulls ? old(sbytes(w.writer.present)) : empty([]byte)) ++ old(sbytes(w.data)) ++ old(sbytes(w.length))
  ensures total: err == nil ==> ret0 == (w.writer.schema.HasNulls ? len(old(sbytes(w.writer.present))) : 0) + len(old(sbytes(w.data))) + len(old(sbytes(w.length)))

func (w *binaryV2Writer) GetStreamInfos()
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_binaryV2Writer(w.writer, w.data, w.length)
  ensures order: ret0 == (w.writer.schema.HasNulls ? snoc(snoc(snoc(empty([]*pb.Stream), ws(w.writer.present).info), ws(w.data).info), ws(w.length).info) : snoc(snoc(empty([]*pb.Stream), ws(w.data).info), ws(w.length).info))

func (w *binaryV2Writer) Reset()
  property C10, C11
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_binaryV2Writer(w.writer, w.data, w.length) && wreset_binaryV2Writer(w.writer, w.data, w.length)
  modifies wr(w.writer.present) when w.writer.schema.HasNulls, wr(w.data), wr(w.length), w.writer.flushed, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures state: wshape_binaryV2Writer(w.writer, w.data, w.length) && wnew_binaryV2Writer(w.writer, w.data, w.length)
  ensures C16restart: w.writer.opts.WriteIndex ==> w.writer.indexInRows == 0 && w.writer.index.Entry == empty([]*pb.RowIndexEntry)

// ---- stringDirectV2Writer
fn wshape_stringDirectV2Writer(b *writer, data stream.Writer, length stream.Writer) bool = base(b) && has_string(b.stats) && (b.opts.WriteIndex ==> has_string(b.indexStats) && apart_string(b.stats, b.indexStats)) && is(data, *stream.writer) && ws(data) != nil && wcontenc(data, true) && onto(b, data) && (b.schema.HasNulls ==> wapart(ws(b.present), ws(data))) && is(length, *stream.writer) && ws(length) != nil && wintenc(length, false) && onto(b, length) && (b.schema.HasNulls ==> wapart(ws(b.present), ws(length))) && wapart(ws(data), ws(length))
fn wopen_stringDirectV2Writer(b *writer, data stream.Writer, length stream.Writer) bool = (b.schema.HasNulls ==> wlive(b.present)) && wlive(data) && wlive(length)
fn wclosed_stringDirectV2Writer(b *writer, data stream.Writer, length stream.Writer) bool = (b.schema.HasNulls ==> wfinished(b.present)) && wfinished(data) && wfinished(length)
fn wreset_stringDirectV2Writer(b *writer, data stream.Writer, length stream.Writer) bool = (b.schema.HasNulls ==> wclean(b.present)) && wclean(data) && wclean(length)
fn wnew_stringDirectV2Writer(b *writer, data stream.Writer, length stream.Writer) bool = (b.schema.HasNulls ==> wblank(b.present)) && wblank(data) && wblank(length)
func newStringDirectV2Writer(schema, opts)
  property C10, C11
  nocands
  requires schema != nil && optsok(opts)
  ensures made: is(ret0, *stringDirectV2Writer) && as(ret0, *stringDirectV2Writer) != nil && as(ret0, *stringDirectV2Writer).writer != nil && as(ret0, *stringDirectV2Writer).writer.schema == schema && as(ret0, *stringDirectV2Writer).writer.opts == opts
  ensures state: let w = as(ret0, *stringDirectV2Writer) in wshape_stringDirectV2Writer(w.writer, w.data, w.length) && wnew_stringDirectV2Writer(w.writer, w.data, w.length)
  ensures C11none: *as(ret0, *stringDirectV2Writer).writer.stats.NumberOfValues == 0 && *as(ret0, *stringDirectV2Writer).writer.stats.BytesOnDisk == 0

func (w *stringDirectV2Writer) Write(value)
  property C10, C11, C16
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_stringDirectV2Writer(w.writer, w.data, w.length) && wopen_stringDirectV2Writer(w.writer, w.data, w.length)
  requires typed: !value.Null ==> is(value.V, string)
  modifies wl(w.writer.present) when w.writer.schema.HasNulls, wl(w.data), wl(w.length)
  modifies *w.writer.stats.StringStatistics.Sum, *w.writer.stats.NumberOfValues, *w.writer.stats.StringStatistics.Minimum when w.writer.stats.StringStatistics.LowerBound == nil, *w.writer.stats.StringStatistics.Maximum when w.writer.stats.StringStatistics.LowerBound == nil, *w.writer.stats.StringStatistics.LowerBound when w.writer.stats.StringStatistics.LowerBound != nil, *w.writer.stats.StringStatistics.UpperBound when w.writer.stats.StringStatistics.LowerBound != nil, w.writer.stats.StringStatistics.Minimum, w.writer.stats.StringStatistics.Maximum, w.writer.stats.StringStatistics.LowerBound, w.writer.stats.StringStatistics.UpperBound
  modifies *w.writer.indexStats.StringStatistics.Sum when w.writer.opts.WriteIndex, *w.writer.indexStats.NumberOfValues when w.writer.opts.WriteIndex, *w.writer.indexStats.StringStatistics.Minimum when w.writer.opts.WriteIndex && w.writer.indexStats.StringStatistics.LowerBound == nil, *w.writer.indexStats.StringStatistics.Maximum when w.writer.opts.WriteIndex && w.writer.indexStats.StringStatistics.LowerBound == nil, *w.writer.indexStats.StringStatistics.LowerBound when w.writer.opts.WriteIndex && w.writer.indexStats.StringStatistics.LowerBound != nil, *w.writer.indexStats.StringStatistics.UpperBound when w.writer.opts.WriteIndex && w.writer.indexStats.StringStatistics.LowerBound != nil, w.writer.indexStats.StringStatistics.Minimum when w.writer.opts.WriteIndex, w.writer.indexStats.StringStatistics.Maximum when w.writer.opts.WriteIndex, w.writer.indexStats.StringStatistics.LowerBound when w.writer.opts.WriteIndex, w.writer.indexStats.StringStatistics.UpperBound when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures accepted: err == nil
  ensures state: wshape_stringDirectV2Writer(w.writer, w.data, w.length) && wopen_stringDirectV2Writer(w.writer, w.data, w.length)
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == snoc(old(ws(w.writer.present).encoder.givenb), !value.Null)
  ensures gives: ws(w.data).encoder.emitted == (value.Null ? old(ws(w.data).encoder.emitted) : old(ws(w.data).encoder.emitted) ++ as(value.V, string))
  ensures gives: ws(w.length).encoder.given == (value.Null ? old(ws(w.length).encoder.given) : snoc(old(ws(w.length).encoder.given), len(as(value.V, string))))
  ensures C11count: *w.writer.stats.NumberOfValues == (value.Null ? old(*w.writer.stats.NumberOfValues) : u64(old(*w.writer.stats.NumberOfValues) + 1))
  ensures C11null: *w.writer.stats.HasNull == w.writer.schema.HasNulls
  ensures C11sum: *w.writer.stats.StringStatistics.Sum == (value.Null ? old(*w.writer.stats.StringStatistics.Sum) : i64(old(*w.writer.stats.StringStatistics.Sum) + len(as(value.V, string))))
  ensures C11min: slower(old(*w.writer.stats.NumberOfValues), old(*smin(w.writer.stats.StringStatistics)), *smin(w.writer.stats.StringStatistics), !value.Null, as(value.V, string))
  ensures C11max: supper(old(*w.writer.stats.NumberOfValues), old(*smax(w.writer.stats.StringStatistics)), *smax(w.writer.stats.StringStatistics), !value.Null, as(value.V, string))
  ensures C16rows: w.writer.opts.WriteIndex ==> w.writer.indexInRows == (i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ? 0 : i64(old(w.writer.indexInRows) + 1))
  ensures C16none: w.writer.opts.WriteIndex && !(i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride) ==> w.writer.index.Entry == old(w.writer.index.Entry)
  ensures C16entry: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> len(w.writer.index.Entry) == len(old(w.writer.index.Entry)) + 1 && w.writer.index.Entry[:len(old(w.writer.index.Entry))] == old(w.writer.index.Entry)
  ensures C16position: w.writer.opts.WriteIndex && i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride ==> w.writer.index.Entry[len(old(w.writer.index.Entry))].Positions == (w.writer.schema.HasNulls ? wpos(w.writer.present) : empty([]uint64)) ++ wpos(w.data) ++ wpos(w.length)

func (w *stringDirectV2Writer) Flush()
  property C10, C11, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_stringDirectV2Writer(w.writer, w.data, w.length) && wopen_stringDirectV2Writer(w.writer, w.data, w.length)
  modifies wf(w.writer.present) when w.writer.schema.HasNulls, wf(w.data), wf(w.length), *w.writer.stats.BytesOnDisk, w.writer.flushed
  ensures accepted: err == nil
  ensures state: wshape_stringDirectV2Writer(w.writer, w.data, w.length) && wclosed_stringDirectV2Writer(w.writer, w.data, w.length) && w.writer.flushed
  ensures flags: w.writer.schema.HasNulls ==> ws(w.writer.present).encoder.givenb == old(ws(w.writer.present).encoder.givenb)
  ensures gives: ws(w.data).encoder.emitted == old(ws(w.data).encoder.emitted)
  ensures gives: ws(w.length).encoder.given == old(ws(w.length).encoder.given)
  ensures length: (w.writer.schema.HasNulls ==> slength(w.writer.present) == len(sbytes(w.writer.present))) && slength(w.data) == len(sbytes(w.data)) && slength(w.length) == len(sbytes(w.length))
  ensures C11disk: let n = old(*w.writer.stats.BytesOnDisk) + (w.writer.schema.HasNulls ? slength(w.writer.present) : 0) + slength(w.data) + slength(w.length) in n <= 18446744073709551615 ==> *w.writer.stats.BytesOnDisk == n

func (w *stringDirectV2Writer) WriteOut(out)
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_stringDirectV2Writer(w.writer, w.data, w.length) && wclosed_stringDirectV2Writer(w.writer, w.data, w.length) && w.writer.flushed
  requires out != nil && (w.writer.schema.HasNulls ==> ref(out) != ws(w.writer.present).buf && ref(out) != ws(w.writer.present).compressedBuf)
  requires out != nil && (ref(out) != ws(w.data).buf && ref(out) != ws(w.data).compressedBuf)
  requires out != nil && (ref(out) != ws(w.length).buf && ref(out) != ws(w.length).compressedBuf)
  modifies out.content, wd(w.writer.present) when w.writer.schema.HasNulls, wd(w.data), wd(w.length)
  ensures state: err == nil ==> wshape_stringDirectV2Writer(w.writer, w.data, w.length) && wreset_stringDirectV2Writer(w.writer, w.data, w.length)
  ensures exact: err == nil ==> out.content == old(out.content) ++ (w.writer.schema.HasNulls ? old(sbytes(w.writer.present)) : empty([]byte)) ++ old(sbytes(w.data)) ++ old(sbytes(w.length))
  ensures total: err == nil ==> ret0 == (w.writer.schema.HasNulls ? len(old(sbytes(w.writer.present))) : 0) + len(old(sbytes(w.data))) + len(old(sbytes(w.length)))

func (w *stringDirectV2Writer) GetStreamInfos()
  property C10, C13
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_stringDirectV2Writer(w.writer, w.data, w.length)
  ensures order: ret0 == (w.writer.schema.HasNulls ? snoc(snoc(snoc(empty([]*pb.Stream), ws(w.writer.present).info), ws(w.data).info), ws(w.length).info) : snoc(snoc(empty([]*pb.Stream), ws(w.data).info), ws(w.length).info))

func (w *stringDirectV2Writer) Reset()
  property C10, C11
  nocands
  dispatch stream.Writer as stream.writer
  requires wshape_stringDirectV2Writer(w.writer, w.data, w.length) && wreset_stringDirectV2Writer(w.writer, w.data, w.length)
  modifies wr(w.writer.present) when w.writer.schema.HasNulls, wr(w.data), wr(w.length), w.writer.flushed, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex
  ensures state: wshape_stringDirectV2Writer(w.writer, w.data, w.length) && wnew_stringDirectV2Writer(w.writer, w.data, w.length)
  ensures C16restart: w.writer.opts.WriteIndex ==> w.writer.indexInRows == 0 && w.writer.index.Entry == empty([]*pb.RowIndexEntry)
