// From the values written to the values read back
package stream

// what a reader makes of the bytes of a finished stream, wherever they lie in a file
lemma stream_readback(E []byte, O []byte, F []byte, none bool, cs int)
  property C07
  requires none ? O == E : 0 < cs && chsfull(O, cs) && chsraw(O) == E
  requires len(O) <= len(F) && F[:len(O)] == O
  ensures none ==> upto(F, len(O)) == E
  ensures !none ==> chsrd(F, len(O)) == E && chsgood(F[:len(O)], cs)
{
  if !none { full_good(O, cs)  chsrd_raw(F, len(O), cs) }
}

// w holds a finished stream whose bytes are what the new reader r finds at its start
fn written(w *writer, r *reader) bool = w != nil && r != nil && wok(w) && wdone(w) && encdone(w.encoder) && srep(r) && r.content == unread(r) && (r.good <==> sgood(r)) && len(r.buf.content) == 0 && r.readLength == 0 &&
  slen(r) == len(wout(w)) && len(r.f.content) >= len(wout(w)) && r.f.content[:len(wout(w))] == wout(w) && healthy(r.f) && r.opts.CompressionKind == w.opts.CompressionKind && r.opts.ChunkSize == w.opts.ChunkSize

lemma readback_raw(w *writer, r *reader)
  property C07
  heap
  requires written(w, r)
  ensures r.good && r.content == w.encoder.emitted
{ stream_readback(w.encoder.emitted, wout(w), r.f.content, wnone(w), w.opts.ChunkSize) }

lemma readback_bytes(w *writer, r *ByteReader)
  property C07
  heap
  requires bshape(r) && written(w, r.stream) && is(w.encoder, *encoding.byteRunLength) && len(r.values) == 0
  ensures bgood(r) && bleft(r) == w.encoder.given8
{ readback_raw(w, r.stream) }

lemma readback_bools(w *writer, r *BoolReader)
  property C07
  heap
  requires boshape(r) && written(w, r.reader.stream) && is(w.encoder, *encoding.boolRunLength) && len(r.reader.values) == 0 && len(r.values) == 0
  ensures bgood(r.reader) && len(w.encoder.givenb) <= len(boleft(r)) <= len(w.encoder.givenb) + 7 && boleft(r)[:len(w.encoder.givenb)] == w.encoder.givenb
{ readback_raw(w, r.reader.stream) }

lemma unzzs_zz(U []uint64, S []int64)
  property C07
  requires len(U) == len(S) && forall k int {S[k]} :: 0 <= k < len(S) ==> U[k] == zz(S[k])
  ensures unzzs(U) == S
{ 
  unzzs_at(U)
  assert forall k int {S[k]} :: 0 <= k < len(S) ==> unzz(zz(S[k])) == S[k]
}

lemma readback_uints(w *writer, r *IntRLV2Reader)
  property C07
  heap
  requires ishape(r) && written(w, r.stream) && is(w.encoder, *encoding.intRLV2Encoder) && !as(w.encoder, *encoding.intRLV2Encoder).signed && !r.signed && len(r.uvalues) == 0
  ensures igood(r) && uleft(r) == w.encoder.given
{ readback_raw(w, r.stream) }

// signed integers are given as zigzag codes
lemma readback_ints(w *writer, r *IntRLV2Reader, S []int64)
  property C07
  heap
  requires ishape(r) && written(w, r.stream) && is(w.encoder, *encoding.intRLV2Encoder) && as(w.encoder, *encoding.intRLV2Encoder).signed && r.signed && len(r.values) == 0
  requires len(w.encoder.given) == len(S) && forall k int {S[k]} :: 0 <= k < len(S) ==> w.encoder.given[k] == zz(S[k])
  ensures igood(r) && ileft(r) == S
{ readback_raw(w, r.stream)  unzzs_zz(w.encoder.given, S) }

lemma readback_floats(w *writer, r *FloatReader)
  property C07
  heap
  requires r.stream != nil && written(w, r.stream) && (r.is64 ? is(w.encoder, *encoding.double) : is(w.encoder, *encoding.float))
  ensures fgood(r) && fleft(r) == w.encoder.given
{ readback_raw(w, r.stream) }

lemma readback_varints(w *writer, r *Varint64Reader, S []int64)
  property C07
  heap
  requires r.stream != nil && written(w, r.stream) && is(w.encoder, *encoding.varint64Encoder)
  requires len(w.encoder.given) == len(S) && forall k int {S[k]} :: 0 <= k < len(S) ==> w.encoder.given[k] == zz(S[k])
  ensures vgood(r) && vleft(r) == S
{ readback_raw(w, r.stream)  unzzs_zz(w.encoder.given, S) }

lemma readback_contents(w *writer, r *StringContentsReader)
  property C07
  heap
  requires r.stream != nil && written(w, r.stream) && is(w.encoder, *encoding.stringContents)
  ensures r.stream.good && r.stream.content == w.encoder.emitted
{ readback_raw(w, r.stream) }

lemma readback_dates(w *writer, r *dateV2Reader)
  property C07
  heap
  requires dshape(r) && written(w, r.stream) && is(w.encoder, *encoding.intRLV2Encoder) && as(w.encoder, *encoding.intRLV2Encoder).signed && len(r.values) == 0
  ensures dgood(r) && dleft(r) == w.encoder.given
{ readback_raw(w, r.stream) }
