// Stream writers: an encoder, the bytes it emitted since the last chunk, and
// the chunks made of the bytes before
package stream

func (s *pb.Stream) GetLength() pure
  property C07, C08, C10, C12, C13, C16
  ensures ret0 == (s == nil || s.Length == nil ? 0 : *s.Length)
func (s *pb.Stream) GetColumn() pure
  property C12
  ensures ret0 == (s == nil || s.Column == nil ? 0 : *s.Column)
func (s *pb.Stream) GetKind() pure
  property C12
  ensures ret0 == (s == nil || s.Kind == nil ? 0 : *s.Kind)
extern func (s *pb.Stream) String() pure
extern func (s *pb.Stream_Kind) String() pure
extern func (s *pb.CompressionKind) String() pure

fn wnone(w *writer) bool = w.opts.CompressionKind == pb.CompressionKind_NONE
fn wraw(w *writer) []byte = wnone(w) ? w.buf.content : chsraw(w.compressedBuf.content) ++ w.buf.content
fn wout(w *writer) []byte = wnone(w) ? w.buf.content : w.compressedBuf.content
fn wok(w *writer) bool = w.opts != nil && w.info != nil && w.info.Length != nil && w.buf != nil && 0 < w.opts.ChunkSize <= 8388607 && encok(w.encoder) &&
  (wnone(w) || w.opts.CompressionKind == pb.CompressionKind_ZLIB && w.compressedBuf != nil && w.compressedBuf != w.buf)
// the stream so far is what the encoder emitted, in full chunks and a rest
fn wsync(w *writer) bool = wraw(w) == w.encoder.emitted && (!wnone(w) ==> chsexact(w.compressedBuf.content, w.opts.ChunkSize) && len(w.buf.content) <= w.opts.ChunkSize)
// a finished stream
fn wdone(w *writer) bool = wraw(w) == w.encoder.emitted && (!wnone(w) ==> chsfull(w.compressedBuf.content, w.opts.ChunkSize) && len(w.buf.content) == 0)

func (w *writer) Write(v)
  property C07, C08
  requires wok(w) && wsync(w) && encj(w.encoder) && accepts(w.encoder, v)
  requires boxed: is(v, int64) ==> 0 - 9223372036854775808 <= as(v, int64) <= 9223372036854775807
  modifies encst(w.encoder), w.count, w.buf.content, w.compressedBuf.content when !wnone(w)
  ensures accepted: err == nil
  ensures state: wok(w) && wsync(w)
  ensures session: encj(w.encoder)
  ensures gives: w.encoder.given == (is(v, bool) || is(v, byte) || is(v, []byte) ? old(w.encoder.given) : snoc(old(w.encoder.given), ival(v)))
  ensures givesb: w.encoder.givenb == (is(v, bool) ? snoc(old(w.encoder.givenb), as(v, bool)) : old(w.encoder.givenb))
  ensures gives8: w.encoder.given8 == (is(v, byte) ? snoc(old(w.encoder.given8), as(v, byte)) : old(w.encoder.given8))
  ensures bytes: is(v, []byte) ==> w.encoder.emitted == old(w.encoder.emitted) ++ as(v, []byte)
  ensures grows: grew(old(w.encoder.emitted), w.encoder.emitted) && (!wnone(w) ==> grew(old(w.compressedBuf.content), w.compressedBuf.content))
  ensures position: old(posok(w.encoder)) ==> posok(w.encoder)
  at after call CompressingChunks {
    exact_concat(old(w.compressedBuf.content), w.compressedBuf.content[len(old(w.compressedBuf.content)):], w.opts.ChunkSize)
  }

func (w *writer) Flush()
  property C07, C08
  requires wok(w) && wsync(w) && encj(w.encoder)
  modifies encst(w.encoder), w.buf.content, w.compressedBuf.content when !wnone(w), *w.info.Length
  ensures accepted: err == nil
  ensures state: wok(w) && wdone(w)
  ensures done: encdone(w.encoder) && encclean(w.encoder)
  ensures length: *w.info.Length == len(wout(w))
  ensures gives: w.encoder.given == old(w.encoder.given) && w.encoder.givenb == old(w.encoder.givenb) && w.encoder.given8 == old(w.encoder.given8)
  ensures raw: is(w.encoder, *encoding.stringContents) ==> w.encoder.emitted == old(w.encoder.emitted)
  ensures grows: grew(old(w.encoder.emitted), w.encoder.emitted) && (!wnone(w) ==> grew(old(w.compressedBuf.content), w.compressedBuf.content))
  ensures position: old(posok(w.encoder)) ==> posok(w.encoder)
  at after call CompressingAllInChunks {
    exact_concat(old(w.compressedBuf.content), w.compressedBuf.content[len(old(w.compressedBuf.content)):], w.opts.ChunkSize)
  }
  at exit {
    if !wnone(w) { exact_full(old(w.compressedBuf.content), w.opts.ChunkSize) }
  }

func (w *writer) WriteOut(out)
  property C07, C13
  requires wok(w) && out != nil && ref(out) != w.buf && ref(out) != w.compressedBuf
  modifies out.content, w.buf.content when wnone(w), w.compressedBuf.content when !wnone(w)
  ensures exact: err == nil ==> out.content == old(out.content) ++ old(wout(w)) && ret0 == len(old(wout(w)))
  ensures drained: err == nil ==> wout(w) == empty([]byte)

func (w *writer) Reset()
  property C07
  requires wok(w)
  modifies *w.info.Length, w.buf.content, w.compressedBuf.content when w.compressedBuf != nil, w.positions, w.encoder.emitted, w.encoder.given, w.encoder.givenb, w.encoder.given8
  ensures wok(w) && *w.info.Length == 0 && encnew(w.encoder)
  ensures clean: old(encclean(w.encoder)) ==> encj(w.encoder)
  ensures position: old(posok(w.encoder)) ==> posok(w.encoder)
  ensures empty: wsync(w) && wout(w) == empty([]byte)
  at exit {
    w.encoder.emitted = empty([]byte)
    w.encoder.given = empty([]uint64)
    w.encoder.givenb = empty([]bool)
    w.encoder.given8 = empty([]byte)
    icat_nil(true)
    icat_nil(false)
  }

func (w writer) GetPosition()
  property C08
  requires w.opts != nil && w.buf != nil && encok(w.encoder) && (w.opts.CompressionKind == pb.CompressionKind_NONE || w.compressedBuf != nil)
  ensures none: !w.opts.WriteIndex ==> ret0 == empty([]uint64)
  ensures position: w.opts.WriteIndex && posok(w.encoder) ==> ret0 == snoc(w.opts.CompressionKind == pb.CompressionKind_NONE ? empty([]uint64) : one(len(w.compressedBuf.content)), len(w.buf.content)) ++ encpos(w.encoder)

func (w writer) Info()
  property C07
  ensures ret0 == w.info

func (w writer) Size()
  property C13
  requires w.opts != nil && w.buf != nil && (w.opts.CompressionKind == pb.CompressionKind_NONE || w.compressedBuf != nil)
  ensures ret0 == (w.opts.CompressionKind == pb.CompressionKind_NONE ? len(w.buf.content) : len(w.compressedBuf.content) + len(w.buf.content))

fn optsok(o *config.WriterOptions) bool = o != nil && 0 < o.ChunkSize <= 8388607 && (o.CompressionKind == pb.CompressionKind_NONE || o.CompressionKind == pb.CompressionKind_ZLIB)
fn newstream(w *writer, o *config.WriterOptions) bool = w.opts == o && wok(w) && wsync(w) && encj(w.encoder) && encnew(w.encoder) && encclean(w.encoder) && wout(w) == empty([]byte) && *w.info.Length == 0 && (o.WriteIndex ==> posok(w.encoder))

func NewByteWriter(id, kind, opts)
  property C07
  requires optsok(opts)
  ensures is(ret0, *writer) && fresh(ret0) && newstream(as(ret0, *writer), opts)
  ensures owned: fresh(as(ret0, *writer).buf) && fresh(as(ret0, *writer).info) && fresh(as(ret0, *writer).info.Length) && fresh(ref(as(ret0, *writer).encoder)) && (as(ret0, *writer).compressedBuf == nil || fresh(as(ret0, *writer).compressedBuf)) && (is(as(ret0, *writer).encoder, *encoding.boolRunLength) ==> fresh(as(as(ret0, *writer).encoder, *encoding.boolRunLength).brl))
  ensures is(as(ret0, *writer).encoder, *encoding.byteRunLength)

func NewBoolWriter(id, kind, opts)
  property C07
  requires optsok(opts)
  ensures is(ret0, *writer) && fresh(ret0) && newstream(as(ret0, *writer), opts)
  ensures owned: fresh(as(ret0, *writer).buf) && fresh(as(ret0, *writer).info) && fresh(as(ret0, *writer).info.Length) && fresh(ref(as(ret0, *writer).encoder)) && (as(ret0, *writer).compressedBuf == nil || fresh(as(ret0, *writer).compressedBuf)) && (is(as(ret0, *writer).encoder, *encoding.boolRunLength) ==> fresh(as(as(ret0, *writer).encoder, *encoding.boolRunLength).brl))
  ensures is(as(ret0, *writer).encoder, *encoding.boolRunLength)

func NewStringContentsWriter(id, kind, opts)
  property C07
  requires optsok(opts)
  ensures is(ret0, *writer) && fresh(ret0) && newstream(as(ret0, *writer), opts)
  ensures owned: fresh(as(ret0, *writer).buf) && fresh(as(ret0, *writer).info) && fresh(as(ret0, *writer).info.Length) && fresh(ref(as(ret0, *writer).encoder)) && (as(ret0, *writer).compressedBuf == nil || fresh(as(ret0, *writer).compressedBuf)) && (is(as(ret0, *writer).encoder, *encoding.boolRunLength) ==> fresh(as(as(ret0, *writer).encoder, *encoding.boolRunLength).brl))
  ensures is(as(ret0, *writer).encoder, *encoding.stringContents)

func NewIntRLV2Writer(id, kind, opts, signed)
  property C07
  requires optsok(opts)
  ensures is(ret0, *writer) && fresh(ret0) && newstream(as(ret0, *writer), opts)
  ensures owned: fresh(as(ret0, *writer).buf) && fresh(as(ret0, *writer).info) && fresh(as(ret0, *writer).info.Length) && fresh(ref(as(ret0, *writer).encoder)) && (as(ret0, *writer).compressedBuf == nil || fresh(as(ret0, *writer).compressedBuf)) && (is(as(ret0, *writer).encoder, *encoding.boolRunLength) ==> fresh(as(as(ret0, *writer).encoder, *encoding.boolRunLength).brl))
  ensures is(as(ret0, *writer).encoder, *encoding.intRLV2Encoder) && as(as(ret0, *writer).encoder, *encoding.intRLV2Encoder).signed == signed
  at exit { icat_nil(signed) }

func NewFloatWriter(id, kind, opts, is64)
  property C07
  requires optsok(opts)
  ensures is(ret0, *writer) && fresh(ret0) && newstream(as(ret0, *writer), opts)
  ensures owned: fresh(as(ret0, *writer).buf) && fresh(as(ret0, *writer).info) && fresh(as(ret0, *writer).info.Length) && fresh(ref(as(ret0, *writer).encoder)) && (as(ret0, *writer).compressedBuf == nil || fresh(as(ret0, *writer).compressedBuf)) && (is(as(ret0, *writer).encoder, *encoding.boolRunLength) ==> fresh(as(as(ret0, *writer).encoder, *encoding.boolRunLength).brl))
  ensures (is64 ? is(as(ret0, *writer).encoder, *encoding.double) : is(as(ret0, *writer).encoder, *encoding.float))

func NewVarint64V2Writer(id, kind, opts)
  property C07
  requires optsok(opts)
  ensures is(ret0, *writer) && fresh(ret0) && newstream(as(ret0, *writer), opts)
  ensures owned: fresh(as(ret0, *writer).buf) && fresh(as(ret0, *writer).info) && fresh(as(ret0, *writer).info.Length) && fresh(ref(as(ret0, *writer).encoder)) && (as(ret0, *writer).compressedBuf == nil || fresh(as(ret0, *writer).compressedBuf)) && (is(as(ret0, *writer).encoder, *encoding.boolRunLength) ==> fresh(as(as(ret0, *writer).encoder, *encoding.boolRunLength).brl))
  ensures is(as(ret0, *writer).encoder, *encoding.varint64Encoder)

