// From a position recorded while writing to the values read after seeking to it
package stream

// the stream when the position was recorded: E1 emitted, C1 in chunks, B1 not yet; X the chunks that came after, R what was emitted after
lemma position_stream(none bool, cs int, E1 []byte, C1 []byte, B1 []byte, X []byte, R []byte)
  property C08
  requires !none && 0 < cs && chsexact(C1, cs) && chsraw(C1) ++ B1 == E1 && len(B1) <= cs
  requires chsfull(C1 ++ X, cs) && chsraw(C1 ++ X) == E1 ++ R
  ensures chsgood(X, cs) && chsraw(X)[len(B1):] == R
  ensures len(X) == 0 ? len(B1) == 0 : len(B1) <= len(chraw(X))
{
  exact_concat(C1, X, cs)
  full_good(X, cs)
  assert chsraw(C1) ++ chsraw(X) == chsraw(C1) ++ (B1 ++ R)
  assert chsraw(X) == (chsraw(C1) ++ chsraw(X))[len(chsraw(C1)):]
  assert chsraw(X) == B1 ++ R
  full_first(X, cs, len(B1))
  chs_nil(cs)
}

lemma icat_split(A []byte, B []byte, s bool)
  property C08
  decreases len(A)
  requires iall(A, s) && iall(A ++ B, s)
  ensures iall(B, s) && icat(A ++ B, s) == icat(A, s) ++ icat(B, s)
  reveal iall, icat
{
  if len(A) > 0 {
    run_prefix(A, s, B)
    icat_split(A[ilen(A, s):], B, s)
    assert (A ++ B)[ilen(A, s):] == A[ilen(A, s):] ++ B
  } else { assert A ++ B == B }
}

lemma uvs_split(A []byte, B []byte)
  property C08
  decreases len(A)
  requires uvsok(A) && uvsok(A ++ B)
  ensures uvsok(B) && uvs(A ++ B) == uvs(A) ++ uvs(B)
  reveal uvs, uvsok
{
  if len(A) > 0 {
    uv_prefix2(A, B)
    uvs_split(A[uvlen(A):], B)
    assert (A ++ B)[uvlen(A):] == A[uvlen(A):] ++ B
  } else { assert A ++ B == B }
}

lemma f4_split(A []byte, B []byte)
  property C08
  decreases len(A)
  requires len(A) % 4 == 0
  ensures f4(A ++ B) == f4(A) ++ f4(B)
  reveal f4
{
  if len(A) > 0 {
    f4_split(A[4:], B)
    assert (A ++ B)[4:] == A[4:] ++ B
    assert (A ++ B)[:4] == A[:4]
  } else { assert A ++ B == B }
}
lemma f8_split(A []byte, B []byte)
  property C08
  decreases len(A)
  requires len(A) % 8 == 0
  ensures f8(A ++ B) == f8(A) ++ f8(B)
  reveal f8
{
  if len(A) > 0 {
    f8_split(A[8:], B)
    assert (A ++ B)[8:] == A[8:] ++ B
    assert (A ++ B)[:8] == A[:8]
  } else { assert A ++ B == B }
}

// C1, B1, E1: the chunks, the buffer and the emitted bytes of w when the position was recorded; r reads the finished stream
fn recorded(w *writer, r *reader, C1 []byte, B1 []byte, E1 []byte) bool =
  (wnone(w) ? B1 == E1 && C1 == empty([]byte) : chsexact(C1, w.opts.ChunkSize) && chsraw(C1) ++ B1 == E1 && len(B1) <= w.opts.ChunkSize && grew(C1, w.compressedBuf.content)) &&
  grew(E1, w.encoder.emitted) && w != nil && wok(w) && wdone(w) && encdone(w.encoder) &&
  sshape(r) && swhole(r) && slen(r) == len(wout(w)) && sdata(r) == wout(w) && r.opts.CompressionKind == w.opts.CompressionKind && r.opts.ChunkSize == w.opts.ChunkSize

lemma position_raw(w *writer, r *reader, C1 []byte, B1 []byte, E1 []byte)
  property C08
  heap
  requires recorded(w, r, C1, B1, E1)
  ensures spos(r, len(C1), len(B1)) && sat(r, len(C1), len(B1)) == w.encoder.emitted[len(E1):]
{
  if !wnone(w) { position_stream(wnone(w), w.opts.ChunkSize, E1, C1, B1, w.compressedBuf.content[len(C1):], w.encoder.emitted[len(E1):]) }
}

// values given before (H) and held back (V) when the position was recorded, values given after (T)
lemma position_bytes(w *writer, r *ByteReader, C1 []byte, B1 []byte, E1 []byte, V []byte, H []byte, T []byte)
  property C08
  heap
  requires bshape(r) && recorded(w, r.stream, C1, B1, E1) && is(w.encoder, *encoding.byteRunLength)
  requires brlok(E1) && brldec(E1) ++ V == H && w.encoder.given8 == H ++ T && len(V) < 128
  ensures bseek(r, len(C1), len(B1), len(V)) && brldec(sat(r.stream, len(C1), len(B1)))[len(V):] == T
{
  position_raw(w, r.stream, C1, B1, E1)
  var R = w.encoder.emitted[len(E1):]
  brl_concat(E1, R)
  assert brldec(E1) ++ brldec(R) == brldec(E1) ++ (V ++ T)
  assert brldec(R) == (brldec(E1) ++ brldec(R))[len(brldec(E1)):]
  assert brldec(R) == V ++ T
}

lemma position_bools(w *writer, r *BoolReader, C1 []byte, B1 []byte, E1 []byte, V []byte, K []bool, H []bool, T []bool)
  property C08
  heap
  requires boshape(r) && recorded(w, r.reader.stream, C1, B1, E1) && is(w.encoder, *encoding.boolRunLength)
  requires brlok(E1) && unpack(brldec(E1) ++ V) ++ K == H && w.encoder.givenb == H ++ T && len(V) < 128 && len(K) < 8
  ensures boseek(r, len(C1), len(B1), len(V), len(K))
  ensures let L = unpack(brldec(sat(r.reader.stream, len(C1), len(B1)))[len(V):])[len(K):] in len(T) <= len(L) <= len(T) + 7 && L[:len(T)] == T
{
  position_raw(w, r.reader.stream, C1, B1, E1)
  var R = w.encoder.emitted[len(E1):]
  var D = unpack(brldec(w.encoder.emitted))
  brl_concat(E1, R)
  unpack_concat(brldec(E1), brldec(R))
  unpack_concat(brldec(E1), V)
  assert D == unpack(brldec(E1)) ++ unpack(brldec(R))
  assert D[:len(H ++ T)] == H ++ T
  unpack_len(brldec(R))
  unpack_len(V)
  assert len(D) >= len(unpack(brldec(E1))) + len(unpack(V)) + len(K) + len(T)
  assert 8 * len(brldec(R)) >= 8 * len(V) + len(K) + len(T)
  assert brldec(R) == brldec(R)[:len(V)] ++ brldec(R)[len(V):]
  unpack_concat(brldec(R)[:len(V)], brldec(R)[len(V):])
  unpack_len(brldec(R)[:len(V)])
  unpack_len(brldec(R)[len(V):])
  assert unpack(brldec(R)[len(V):]) == D[len(unpack(brldec(E1))) + 8 * len(V):]
  assert unpack(brldec(R)[len(V):])[len(K):] == D[len(H):]
  assert D[len(H):][:len(T)] == (H ++ T)[len(H):]
}

lemma position_ints(w *writer, r *IntRLV2Reader, C1 []byte, B1 []byte, E1 []byte, V []uint64, H []uint64, T []uint64)
  property C08
  heap
  requires ishape(r) && recorded(w, r.stream, C1, B1, E1) && is(w.encoder, *encoding.intRLV2Encoder) && as(w.encoder, *encoding.intRLV2Encoder).signed == r.signed
  requires iall(E1, r.signed) && icat(E1, r.signed) ++ V == H && w.encoder.given == H ++ T && len(V) < 512
  ensures iseek(r, len(C1), len(B1), len(V)) && icat(sat(r.stream, len(C1), len(B1)), r.signed)[len(V):] == T
{
  position_raw(w, r.stream, C1, B1, E1)
  var R = w.encoder.emitted[len(E1):]
  icat_split(E1, R, r.signed)
  assert icat(R, r.signed) == (icat(E1, r.signed) ++ icat(R, r.signed))[len(icat(E1, r.signed)):]
  assert icat(R, r.signed) == V ++ T
}

lemma position_dates(w *writer, r *dateV2Reader, C1 []byte, B1 []byte, E1 []byte, V []uint64, H []uint64, T []uint64)
  property C08
  heap
  requires dshape(r) && recorded(w, r.stream, C1, B1, E1) && is(w.encoder, *encoding.intRLV2Encoder) && as(w.encoder, *encoding.intRLV2Encoder).signed
  requires iall(E1, true) && icat(E1, true) ++ V == H && w.encoder.given == H ++ T && len(V) < 512
  ensures dseek(r, len(C1), len(B1), len(V)) && icat(sat(r.stream, len(C1), len(B1)), true)[len(V):] == T
{
  position_raw(w, r.stream, C1, B1, E1)
  var R = w.encoder.emitted[len(E1):]
  icat_split(E1, R, true)
  assert icat(R, true) == (icat(E1, true) ++ icat(R, true))[len(icat(E1, true)):]
  assert icat(R, true) == V ++ T
}

lemma position_varints(w *writer, r *Varint64Reader, C1 []byte, B1 []byte, E1 []byte, H []uint64, T []uint64)
  property C08
  heap
  requires recorded(w, r.stream, C1, B1, E1) && is(w.encoder, *encoding.varint64Encoder)
  requires uvsok(E1) && uvs(E1) == H && w.encoder.given == H ++ T
  ensures spos(r.stream, len(C1), len(B1)) && uvsok(sat(r.stream, len(C1), len(B1))) && uvs(sat(r.stream, len(C1), len(B1))) == T
{
  position_raw(w, r.stream, C1, B1, E1)
  uvs_split(E1, w.encoder.emitted[len(E1):])
}

lemma position_floats(w *writer, r *FloatReader, C1 []byte, B1 []byte, E1 []byte, H []uint64, T []uint64)
  property C08
  heap
  requires recorded(w, r.stream, C1, B1, E1) && (r.is64 ? is(w.encoder, *encoding.double) : is(w.encoder, *encoding.float))
  requires len(E1) % (r.is64 ? 8 : 4) == 0 && (r.is64 ? f8(E1) : f4(E1)) == H && w.encoder.given == H ++ T
  ensures spos(r.stream, len(C1), len(B1))
  ensures let L = sat(r.stream, len(C1), len(B1)) in len(L) % (r.is64 ? 8 : 4) == 0 && (r.is64 ? f8(L) : f4(L)) == T
{
  position_raw(w, r.stream, C1, B1, E1)
  if r.is64 { f8_split(E1, w.encoder.emitted[len(E1):]) } else { f4_split(E1, w.encoder.emitted[len(E1):]) }
}

// a writer in mid stream satisfies what the lemmas above ask of the moment of recording, and the position it reports is the one they use
lemma position_moment(w *writer)
  property C08
  heap
  requires wok(w) && wsync(w) && encj(w.encoder)
  ensures wnone(w) ? w.buf.content == w.encoder.emitted : chsexact(w.compressedBuf.content, w.opts.ChunkSize) && chsraw(w.compressedBuf.content) ++ w.buf.content == w.encoder.emitted && len(w.buf.content) <= w.opts.ChunkSize
  ensures is(w.encoder, *encoding.byteRunLength) ==> brlok(w.encoder.emitted) && brldec(w.encoder.emitted) ++ as(w.encoder, *encoding.byteRunLength).values == w.encoder.given8
  ensures is(w.encoder, *encoding.boolRunLength) ==> brlok(w.encoder.emitted) && unpack(brldec(w.encoder.emitted) ++ as(w.encoder, *encoding.boolRunLength).brl.values) ++ partial(as(w.encoder, *encoding.boolRunLength)) == w.encoder.givenb && len(partial(as(w.encoder, *encoding.boolRunLength))) == as(w.encoder, *encoding.boolRunLength).index + 1 < 8
  ensures is(w.encoder, *encoding.intRLV2Encoder) ==> iall(w.encoder.emitted, as(w.encoder, *encoding.intRLV2Encoder).signed) && icat(w.encoder.emitted, as(w.encoder, *encoding.intRLV2Encoder).signed) ++ as(w.encoder, *encoding.intRLV2Encoder).values == w.encoder.given
  ensures is(w.encoder, *encoding.varint64Encoder) ==> uvsok(w.encoder.emitted) && uvs(w.encoder.emitted) == w.encoder.given
{ if is(w.encoder, *encoding.boolRunLength) { unpack1_len(as(w.encoder, *encoding.boolRunLength).value) } }
