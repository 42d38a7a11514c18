// The streams of a stripe: which reader gets which stream, where it starts.
package column

func NewReader(schema, opts, in)
  property C12, C10
  requires schema != nil
  ensures there: err == nil ==> ret0 != nil
  ensures shorts: err == nil && schema.Kind == pb.Type_SHORT ==> is(ret0, *column.IntV2Reader) && (let r = as(ret0, *column.IntV2Reader) in fresh(r) && r.schema == schema && r.opts == opts && r.f == in && r.bits == 16)
  ensures ints: err == nil && schema.Kind == pb.Type_INT ==> is(ret0, *column.IntV2Reader) && (let r = as(ret0, *column.IntV2Reader) in fresh(r) && r.schema == schema && r.opts == opts && r.f == in && r.bits == 32)
  ensures longs: err == nil && schema.Kind == pb.Type_LONG ==> is(ret0, *column.IntV2Reader) && (let r = as(ret0, *column.IntV2Reader) in fresh(r) && r.schema == schema && r.opts == opts && r.f == in && r.bits == 64)
  ensures floats: err == nil && schema.Kind == pb.Type_FLOAT ==> is(ret0, *column.FloatReader) && (let r = as(ret0, *column.FloatReader) in fresh(r) && r.schema == schema && r.opts == opts && r.f == in && !r.is64)
  ensures doubles: err == nil && schema.Kind == pb.Type_DOUBLE ==> is(ret0, *column.FloatReader) && (let r = as(ret0, *column.FloatReader) in fresh(r) && r.schema == schema && r.opts == opts && r.f == in && r.is64)
  ensures booleans: err == nil && schema.Kind == pb.Type_BOOLEAN ==> is(ret0, *column.BoolReader) && (let r = as(ret0, *column.BoolReader) in fresh(r) && r.schema == schema && r.opts == opts && r.f == in)
  ensures bytes: err == nil && schema.Kind == pb.Type_BYTE ==> is(ret0, *column.ByteReader) && (let r = as(ret0, *column.ByteReader) in fresh(r) && r.schema == schema && r.opts == opts && r.f == in)
  ensures binarys: err == nil && schema.Kind == pb.Type_BINARY ==> is(ret0, *column.BinaryV2Reader) && (let r = as(ret0, *column.BinaryV2Reader) in fresh(r) && r.schema == schema && r.opts == opts && r.f == in)
  ensures decimals: err == nil && schema.Kind == pb.Type_DECIMAL ==> is(ret0, *column.DecimalV2Reader) && (let r = as(ret0, *column.DecimalV2Reader) in fresh(r) && r.schema == schema && r.opts == opts && r.f == in)
  ensures dates: err == nil && schema.Kind == pb.Type_DATE ==> is(ret0, *column.DateV2Reader) && (let r = as(ret0, *column.DateV2Reader) in fresh(r) && r.schema == schema && r.opts == opts && r.f == in)
  ensures timestamps: err == nil && schema.Kind == pb.Type_TIMESTAMP ==> is(ret0, *column.TimestampV2Reader) && (let r = as(ret0, *column.TimestampV2Reader) in fresh(r) && r.schema == schema && r.opts == opts && r.f == in)
  ensures structs: err == nil && schema.Kind == pb.Type_STRUCT ==> is(ret0, *column.StructReader) && (let r = as(ret0, *column.StructReader) in fresh(r) && r.schema == schema && r.opts == opts && r.f == in)
  ensures lists: err == nil && schema.Kind == pb.Type_LIST ==> is(ret0, *column.ListV2Reader) && (let r = as(ret0, *column.ListV2Reader) in fresh(r) && r.schema == schema && r.opts == opts && r.f == in)
  ensures maps: err == nil && schema.Kind == pb.Type_MAP ==> is(ret0, *column.MapV2Reader) && (let r = as(ret0, *column.MapV2Reader) in fresh(r) && r.schema == schema && r.opts == opts && r.f == in)
  ensures strings: err == nil && (schema.Kind == pb.Type_STRING || schema.Kind == pb.Type_CHAR || schema.Kind == pb.Type_VARCHAR) ==> (schema.Encoding == pb.ColumnEncoding_DIRECT_V2 ? is(ret0, *column.StringDirectV2Reader) : is(ret0, *column.StringDictionaryV2Reader))

extern func column.NewStringDictionaryV2Writer(schema, opts)
  ensures ret0 != nil
func NewWriter(schema, opts)
  property C12, C10, C11
  requires schema != nil && optsok(opts)
  ensures there: err == nil ==> ret0 != nil
  ensures shorts: err == nil && schema.Kind == pb.Type_SHORT ==> is(ret0, *column.intWriter) && (let w = as(ret0, *column.intWriter) in w != nil && w.writer.schema == schema && w.writer.opts == opts && w.bits == 16)
  ensures ints: err == nil && schema.Kind == pb.Type_INT ==> is(ret0, *column.intWriter) && (let w = as(ret0, *column.intWriter) in w != nil && w.writer.schema == schema && w.writer.opts == opts && w.bits == 32)
  ensures longs: err == nil && schema.Kind == pb.Type_LONG ==> is(ret0, *column.intWriter) && (let w = as(ret0, *column.intWriter) in w != nil && w.writer.schema == schema && w.writer.opts == opts && w.bits == 64)
  ensures floats: err == nil && schema.Kind == pb.Type_FLOAT ==> is(ret0, *column.floatWriter) && (let w = as(ret0, *column.floatWriter) in w != nil && w.writer.schema == schema && w.writer.opts == opts && !w.is64)
  ensures doubles: err == nil && schema.Kind == pb.Type_DOUBLE ==> is(ret0, *column.floatWriter) && (let w = as(ret0, *column.floatWriter) in w != nil && w.writer.schema == schema && w.writer.opts == opts && w.is64)
  ensures booleans: err == nil && schema.Kind == pb.Type_BOOLEAN ==> is(ret0, *column.boolWriter) && (let w = as(ret0, *column.boolWriter) in w != nil && w.writer.schema == schema && w.writer.opts == opts)
  ensures bytes: err == nil && schema.Kind == pb.Type_BYTE ==> is(ret0, *column.byteWriter) && (let w = as(ret0, *column.byteWriter) in w != nil && w.writer.schema == schema && w.writer.opts == opts)
  ensures binarys: err == nil && schema.Kind == pb.Type_BINARY ==> is(ret0, *column.binaryV2Writer) && (let w = as(ret0, *column.binaryV2Writer) in w != nil && w.writer.schema == schema && w.writer.opts == opts)
  ensures decimals: err == nil && schema.Kind == pb.Type_DECIMAL ==> is(ret0, *column.decimalV2Writer) && (let w = as(ret0, *column.decimalV2Writer) in w != nil && w.writer.schema == schema && w.writer.opts == opts)
  ensures dates: err == nil && schema.Kind == pb.Type_DATE ==> is(ret0, *column.dateV2Writer) && (let w = as(ret0, *column.dateV2Writer) in w != nil && w.writer.schema == schema && w.writer.opts == opts)
  ensures timestamps: err == nil && schema.Kind == pb.Type_TIMESTAMP ==> is(ret0, *column.timestampWriter) && (let w = as(ret0, *column.timestampWriter) in w != nil && w.writer.schema == schema && w.writer.opts == opts)
  ensures structs: err == nil && schema.Kind == pb.Type_STRUCT ==> is(ret0, *column.structWriter) && (let w = as(ret0, *column.structWriter) in w != nil && w.writer.schema == schema && w.writer.opts == opts)

package orc
// what a stripe footer says: one encoding per column, streams of existing columns
func (f *pb.StripeFooter) GetColumns() pure
  property C12
  ensures ret0 == (f == nil ? empty([]*pb.ColumnEncoding) : f.Columns)
func (f *pb.StripeFooter) GetStreams() pure
  property C12
  ensures ret0 == (f == nil ? empty([]*pb.Stream) : f.Streams)
func (f *pb.ColumnEncoding) GetKind() pure
  property C12
  ensures ret0 == (f == nil || f.Kind == nil ? 0 : *f.Kind)
fn scol(s *pb.Stream) int = s.Column == nil ? 0 : *s.Column
fn skind(s *pb.Stream) int = s.Kind == nil ? 0 : *s.Kind
fn streamlen(s *pb.Stream) int = s.Length == nil ? 0 : *s.Length
fn footerfits(f *pb.StripeFooter, n int) bool = f != nil && len(f.Columns) == n && (forall i int {f.Columns[i]} :: 0 <= i < n ==> f.Columns[i] != nil) && (forall i int {f.Streams[i]} :: 0 <= i < len(f.Streams) ==> f.Streams[i] != nil && scol(f.Streams[i]) < n && streamlen(f.Streams[i]) <= 4611686018427387904)
// the columns: numbered, children exist and are included with their parents
fn colsok(s *stripeReader) bool = s.bopt != nil && s.ropts != nil && (forall i int {s.schemas[i]} :: 0 <= i < len(s.schemas) ==> s.schemas[i] != nil && s.schemas[i].Id == i) &&
  (forall i int, j int {s.schemas[i], s.schemas[i].Children[j]} :: 0 <= i < len(s.schemas) && 0 <= j < len(s.schemas[i].Children) ==> s.schemas[i].Children[j] != nil && s.schemas[i].Children[j].Id < len(s.schemas))
fn incl(I []uint32, id int) bool = len(I) == 0 || !(forall k int {I[k]} :: 0 <= k < len(I) ==> I[k] != id)
func (bo api.BatchOption) IsInclude(id)
  property C12
  ensures ret0 <==> incl(bo.Includes, id)
  loop 1
    invariant forall k int {bo.Includes[k]} :: 0 <= k < $n ==> bo.Includes[k] != id
// what is included is included with its parent; composites have the children they should
fn upward(s *stripeReader) bool = forall i int, j int {s.schemas[i], s.schemas[i].Children[j]} :: 0 <= i < len(s.schemas) && 0 <= j < len(s.schemas[i].Children) && incl(s.bopt.Includes, s.schemas[i].Children[j].Id) ==> incl(s.bopt.Includes, i)
// a column reader takes its streams one by one; its fields are not seen here
extern func (r column.Reader) InitStream(info, startOffset)
extern func (r column.Reader) InitIndex(startOffset, length)
  modifies each(orcio.File).content
fn composedof(r column.Reader, kind int) bool = r != nil && (kind == pb.Type_STRUCT ==> is(r, *column.StructReader) && as(r, *column.StructReader) != nil) && (kind == pb.Type_LIST ==> is(r, *column.ListV2Reader) && as(r, *column.ListV2Reader) != nil) && (kind == pb.Type_MAP ==> is(r, *column.MapV2Reader) && as(r, *column.MapV2Reader) != nil)

func (s *stripeReader) init(info, footer)
  property C12
  requires colsok(s) && upward(s) && footerfits(footer, len(s.schemas)) && sinfook(info, 4611686018427387904) && s.columnReader == nil
  modifies s.columnReader, each(*api.TypeDescription).Encoding, each(orcio.File).content, each(*column.StructReader).children, each(*column.ListV2Reader).child, each(*column.MapV2Reader).key, each(*column.MapV2Reader).value
  ensures root: err == nil && len(s.bopt.Includes) == 0 && len(s.schemas) > 0 ==> composedof(s.columnReader, s.schemas[0].Kind)
  var SI int = 0
  var SD int = 0
  var S *pb.Stream = nil
  loop 1
    invariant len(readers) == len(s.schemas)
    invariant forall i int {readers[i]} :: 0 <= i < $n ==> (incl(s.bopt.Includes, i) ? composedof(readers[i], s.schemas[i].Kind) : readers[i] == nil)
    invariant forall i int {readers[i]} :: $n <= i < len(readers) ==> readers[i] == nil
    invariant len(s.bopt.Includes) == 0 && $n > 0 ==> s.columnReader == readers[0]
    invariant len(s.bopt.Includes) == 0 && $n == 0 ==> s.columnReader == nil
  // the index streams follow the start of the stripe, the others the index
  loop 2
    invariant indexStart == u64(*info.Offset + SI) && dataStart == u64(*info.Offset + *info.IndexLength + SD)
  at loopbegin 2 { S = footer.Streams[$n] }
  at before call InitIndex { assert skind(S) == pb.Stream_ROW_INDEX && argr == readers[scol(S)] && arg0 == u64(*info.Offset + SI) && arg1 == streamlen(S) }
  at before call InitStream { assert skind(S) != pb.Stream_ROW_INDEX && argr == readers[scol(S)] && arg0 == S && arg1 == u64(*info.Offset + *info.IndexLength + SD) }
  at step 2 {
    if skind(S) == pb.Stream_ROW_INDEX { SI = SI + streamlen(S) } else { SD = SD + streamlen(S) }
  }
  // children in order
  at before call AddChild { assert arg0 == readers[c.Id] && argr == as(readers[schema.Id], *column.StructReader) }
