// Value readers over a stream: the values that are left to read
package stream

// ---- bytes
fn bleft(r *ByteReader) []byte = r.values[r.consumed:] ++ brldec(r.stream.content)
fn bshape(r *ByteReader) bool = r != nil && r.stream != nil && srep(r.stream) && 0 <= r.consumed <= len(r.values)
// the stream can be read to its end
fn bgood(r *ByteReader) bool = r.stream.good && brlok(r.stream.content)
locs sst(r *reader) = r.content, r.readLength, r.buf.content, r.cmpBuf.content when !snone(r), r.f.content

func NewByteReader(opts, info, start, in)
  property C07
  requires opts != nil && info != nil && in != nil && alloced(in) && 0 < opts.ChunkSize <= 4611686018427387904 && (info.Length == nil ? 0 : *info.Length) <= 4611686018427387904
  ensures fresh(ret0) && bshape(ret0) && len(ret0.values) == 0
  ensures sfrom(ret0.stream, opts, info, start, in)

// a stream reader at the start of its stream
fn sfrom(r *reader, opts *config.ReaderOptions, info *pb.Stream, start int, f any) bool = fresh(r) && srep(r) && r.opts == opts && r.info == info && r.start == start && r.f == f && r.readLength == 0 && len(r.buf.content) == 0 && r.content == unread(r) && (r.good <==> sgood(r))

func (r *ByteReader) Next()
  property C07, C15
  requires bshape(r)
  modifies r.values, r.consumed, sst(r.stream)
  ensures value: err == nil ==> len(old(bleft(r))) > 0 && ret0 == old(bleft(r))[0] && bleft(r) == old(bleft(r))[1:]
  ensures complete: old(bgood(r)) && len(old(bleft(r))) > 0 ==> err == nil
  ensures state: bshape(r) && (err == nil && old(bgood(r)) ==> bgood(r))
  at before call DecodeByteRL { if runok(r.stream.content) { brl_step(r.stream.content) } }
  reveal brldec, brlok

// a good stream has a value left exactly when it has not been read to its end
lemma good_left(F []byte, n int, cs int)
  property C07
  requires 0 < n <= len(F) && chsgood(F[:n], cs)
  ensures len(chsrd(F, n)) > 0
{ good_first(F, n, cs) }

lemma brl_left(E []byte)
  property C07
  requires brlok(E) && len(E) > 0
  ensures len(brldec(E)) > 0
  reveal brlok, brldec
{ if E[0] < 128 { rep_shape(E[1], E[0] + 3) } }

func (r *ByteReader) Finished()
  property C07
  requires bshape(r)
  ensures end: bgood(r) ==> (ret0 <==> len(bleft(r)) == 0)
  at entry {
    if bgood(r) { 
      if r.stream.readLength < slen(r.stream) && !snone(r.stream) { good_left(r.stream.f.content, slen(r.stream) - r.stream.readLength, r.stream.opts.ChunkSize) }
      if r.stream.readLength >= slen(r.stream) && !snone(r.stream) { chsrd_nil(r.stream.f.content, slen(r.stream) - r.stream.readLength) }
      if len(r.stream.content) > 0 { brl_left(r.stream.content) }
    }
  }

fn bseek(r *ByteReader, c int, o int, n int) bool = swhole(r.stream) && spos(r.stream, c, o) && brlok(sat(r.stream, c, o)) && n <= len(brldec(sat(r.stream, c, o))) && n <= 4611686018427387904

func (r *ByteReader) Seek(chunkOffset, offset, valueOffset)
  property C08
  requires bshape(r)
  modifies r.values, r.consumed, r.stream.good, sst(r.stream)
  ensures state: bshape(r)
  ensures found: old(bseek(r, chunkOffset, offset, valueOffset)) ==> err == nil && bgood(r) && bleft(r) == old(brldec(sat(r.stream, chunkOffset, offset)))[valueOffset:]
  var B []byte = empty([]byte)
  var ok bool = false
  at entry { ok = bseek(r, chunkOffset, offset, valueOffset)  B = brldec(sat(r.stream, chunkOffset, offset)) }
  loop 1
    invariant bshape(r)
    invariant ok ==> 0 <= i <= valueOffset && bgood(r) && bleft(r) == B[i:]
  at before call Next { if ok { assert i < valueOffset  assert len(B[i:]) > 0  assert len(bleft(r)) > 0 } }
  at after call Next { if ok { assert res1 == nil } }

// ---- booleans
fn boleft(r *BoolReader) []bool = r.values[r.pos:] ++ unpack(bleft(r.reader))
fn boshape(r *BoolReader) bool = r != nil && r.reader != nil && bshape(r.reader) && 0 <= r.pos <= len(r.values)
locs bst(r *BoolReader) = r.values, r.pos, r.reader.values, r.reader.consumed, sst(r.reader.stream)

lemma unpack_front(B []byte)
  property C07
  requires len(B) > 0
  ensures unpack(B) == unpack1(B[0]) ++ unpack(B[1:])
  reveal unpack
{
  assert B == B[:1] ++ B[1:]
  assert B[:1] == snoc(empty([]byte), B[0])
  assert unpack(B[:1]) == unpack1(B[0])
  unpack_concat(B[:1], B[1:])
}

func NewBoolReader(opts, info, start, in)
  property C07
  requires opts != nil && info != nil && in != nil && alloced(in) && 0 < opts.ChunkSize <= 4611686018427387904 && (info.Length == nil ? 0 : *info.Length) <= 4611686018427387904
  ensures fresh(ret0) && boshape(ret0) && len(ret0.values) == 0 && len(ret0.reader.values) == 0
  ensures sfrom(ret0.reader.stream, opts, info, start, in)

func (r *BoolReader) Next()
  property C07, C15
  requires boshape(r)
  modifies bst(r)
  ensures value: err == nil ==> len(old(boleft(r))) > 0 && ret0 == old(boleft(r))[0] && boleft(r) == old(boleft(r))[1:]
  ensures complete: old(bgood(r.reader)) && len(old(boleft(r))) > 0 ==> err == nil
  ensures state: boshape(r) && (err == nil && old(bgood(r.reader)) ==> bgood(r.reader))
  at before call Next { if len(bleft(r.reader)) > 0 { unpack_front(bleft(r.reader)) } }

// whole bytes: up to seven values follow the last one written
func (r *BoolReader) Finished()
  property C07
  requires boshape(r)
  ensures end: bgood(r.reader) ==> (ret0 <==> len(boleft(r)) == 0)

fn boseek(r *BoolReader, c int, o int, n int, k int) bool = bseek(r.reader, c, o, n) && n + k <= 4611686018427387904 && k <= 8 * len(brldec(sat(r.reader.stream, c, o))[n:])
func (r *BoolReader) Seek(chunkOffset, offset, byteRLOffset, valueOffset)
  property C08
  requires boshape(r)
  modifies r.reader.stream.good, bst(r)
  ensures state: boshape(r)
  ensures found: old(boseek(r, chunkOffset, offset, byteRLOffset, valueOffset)) ==> err == nil && bgood(r.reader) && boleft(r) == unpack(old(brldec(sat(r.reader.stream, chunkOffset, offset)))[byteRLOffset:])[valueOffset:]
  var B []bool = empty([]bool)
  var ok bool = false
  at entry { ok = boseek(r, chunkOffset, offset, byteRLOffset, valueOffset)  B = unpack(brldec(sat(r.reader.stream, chunkOffset, offset))[byteRLOffset:]) }
  loop 1
    invariant boshape(r)
    invariant ok ==> 0 <= i <= valueOffset && bgood(r.reader) && boleft(r) == B[i:]

// ---- integers
fn ileft(r *IntRLV2Reader) []int64 = r.values[r.pos:] ++ unzzs(icat(r.stream.content, true))
fn uleft(r *IntRLV2Reader) []uint64 = r.uvalues[r.pos:] ++ icat(r.stream.content, false)
fn idec(r *IntRLV2Reader) *encoding.intRLV2Decoder = as(r.decoder, *encoding.intRLV2Decoder)
fn ishape(r *IntRLV2Reader) bool = r != nil && r.stream != nil && srep(r.stream) && is(r.decoder, *encoding.intRLV2Decoder) && idec(r) != nil && idec(r).signed == r.signed && 0 <= r.pos <= (r.signed ? len(r.values) : len(r.uvalues))
fn igood(r *IntRLV2Reader) bool = r.stream.good && iall(r.stream.content, r.signed)
locs ist(r *IntRLV2Reader) = r.values, r.uvalues, r.pos, idec(r).uvs, idec(r).vs, idec(r).bitsLeft, idec(r).lastByte, sst(r.stream)

lemma unzzs_concat(A []uint64, B []uint64)
  property C07
  decreases len(B)
  ensures unzzs(A ++ B) == unzzs(A) ++ unzzs(B)
  reveal unzzs
{
  if len(B) > 0 {
    unzzs_concat(A, B[:len(B)-1])
    assert (A ++ B)[:len(A ++ B)-1] == A ++ B[:len(B)-1]
  }
}

lemma unzzs_len(U []uint64)
  property C07
  decreases len(U)
  trigger {unzzs(U)}
  ensures len(unzzs(U)) == len(U)
  reveal unzzs
{ if len(U) > 0 { unzzs_len(U[:len(U)-1]) } }

lemma pvals0_some(B []bool, s bool, base int, w int, n int)
  property C07
  requires n > 0
  ensures len(pvals0(B, s, base, w, n)) > 0
  reveal pvals0

lemma patched_len(V []uint64, mark int, B []bool, s bool, base int, w int, g int, p int, n int)
  property C07
  decreases n
  ensures len(patched(V, mark, B, s, base, w, g, p, n)) == len(V)
  reveal patched
{
  if n > 0 { patched_len(upd(V, ppos(numb(B[:g + p]), mark, p), patchv(s, V[ppos(numb(B[:g + p]), mark, p)], base, band(numb(B[:g + p]), pow2(p) - 1), w)), ppos(numb(B[:g + p]), mark, p), B[g + p:], s, base, w, g, p, n - 1) }
}

// no run is empty
lemma ivals_some(E []byte, s bool)
  property C07, C15
  requires iok(E, s)
  ensures len(ivals(E, s)) > 0
  reveal urep, unb
{
  iok_nonempty(E, s)
  run_def(E, s)
  head_def(E)
  devals_def(E, s)
  if kind(E) == 2 {
    pvals0_some(unpack(pe1(E)), s, pbase(E), pw(E), hlen(E))
    patched_len(pvals0(unpack(pe1(E)), s, pbase(E), pw(E), hlen(E)), 0, unpack(pe2(E)), s, pbase(E), pw(E), pgw(E), ppw(E), pll(E))
  }
}

lemma icat_left(E []byte, s bool)
  property C07
  requires iall(E, s) && len(E) > 0
  ensures len(icat(E, s)) > 0
  reveal iall, icat
{ ivals_some(E, s) }

func NewIntRLV2Reader(opts, info, start, signed, in)
  property C07
  requires opts != nil && info != nil && in != nil && alloced(in) && 0 < opts.ChunkSize <= 4611686018427387904 && (info.Length == nil ? 0 : *info.Length) <= 4611686018427387904
  ensures fresh(ret0) && ishape(ret0) && ret0.signed == signed && len(ret0.values) == 0 && len(ret0.uvalues) == 0
  ensures sfrom(ret0.stream, opts, info, start, in)

func (r *IntRLV2Reader) NextInt64()
  property C07, C15
  dispatch encoding.IntDecoder as encoding.intRLV2Decoder
  requires ishape(r)
  modifies r.values, r.pos, idec(r).uvs, idec(r).vs, idec(r).bitsLeft, idec(r).lastByte, sst(r.stream)
  ensures value: err == nil ==> r.signed && len(old(ileft(r))) > 0 && ret0 == old(ileft(r))[0] && ileft(r) == old(ileft(r))[1:]
  ensures complete: r.signed && old(igood(r)) && len(old(ileft(r))) > 0 ==> err == nil
  ensures state: ishape(r) && (err == nil && old(igood(r)) ==> igood(r))
  at before call DecodeInt {
    if iok(r.stream.content, true) { icat_step(r.stream.content, true)  ivals_some(r.stream.content, true)  unzzs_concat(ivals(r.stream.content, true), icat(r.stream.content[ilen(r.stream.content, true):], true)) }
    if iall(r.stream.content, true) && len(r.stream.content) == 0 { icat_nil(true) }
    if iall(r.stream.content, true) && len(r.stream.content) > 0 { iall_first(r.stream.content, true) }
  }
  reveal unzzs

lemma iall_first(E []byte, s bool)
  property C07
  requires iall(E, s) && len(E) > 0
  ensures iok(E, s)
  reveal iall

func (r *IntRLV2Reader) NextUInt64()
  property C07, C15
  dispatch encoding.IntDecoder as encoding.intRLV2Decoder
  requires ishape(r)
  modifies r.uvalues, r.pos, idec(r).uvs, idec(r).bitsLeft, idec(r).lastByte, sst(r.stream)
  ensures value: err == nil ==> !r.signed && len(old(uleft(r))) > 0 && ret0 == old(uleft(r))[0] && uleft(r) == old(uleft(r))[1:]
  ensures complete: !r.signed && old(igood(r)) && len(old(uleft(r))) > 0 ==> err == nil
  ensures state: ishape(r) && (err == nil && old(igood(r)) ==> igood(r))
  at before call DecodeUInt {
    if iok(r.stream.content, false) { icat_step(r.stream.content, false)  ivals_some(r.stream.content, false) }
    if iall(r.stream.content, false) && len(r.stream.content) == 0 { icat_nil(false) }
    if iall(r.stream.content, false) && len(r.stream.content) > 0 { iall_first(r.stream.content, false) }
  }

func (r *IntRLV2Reader) GetAllUInts()
  property C07, C15
  dispatch encoding.IntDecoder as encoding.intRLV2Decoder
  requires ishape(r) && (r.signed ? 0 : r.pos) == 0
  modifies r.uvalues, idec(r).uvs, idec(r).bitsLeft, idec(r).lastByte, sst(r.stream)
  ensures all: err == nil && old(igood(r)) ==> ret0 == old(uleft(r))
  ensures complete: !r.signed && old(igood(r)) ==> err == nil
  ensures state: ishape(r) && (err == nil && old(igood(r)) ==> igood(r))
  loop 1
    invariant ishape(r) && r.pos == 0 && !r.signed
    invariant old(igood(r)) ==> igood(r) && uleft(r) == old(uleft(r))
    decreases len(r.stream.content)
  at before call DecodeUInt {
    if r.stream.good && r.stream.readLength < slen(r.stream) && !snone(r.stream) { good_left(r.stream.f.content, slen(r.stream) - r.stream.readLength, r.stream.opts.ChunkSize) }
    if iok(r.stream.content, false) { icat_step(r.stream.content, false)  run_prefix(r.stream.content, false, empty([]byte)) }
    if iall(r.stream.content, false) && len(r.stream.content) > 0 { iall_first(r.stream.content, false) }
    assert r.stream.good ==> len(r.stream.content) > 0
  }
  at afterloop 1 {
    icat_nil(false)
    if r.stream.readLength >= slen(r.stream) && !snone(r.stream) { chsrd_nil(r.stream.f.content, slen(r.stream) - r.stream.readLength) }
  }

func (r *IntRLV2Reader) Finished()
  property C07
  requires ishape(r)
  ensures end: igood(r) ==> (ret0 <==> (r.signed ? len(ileft(r)) : len(uleft(r))) == 0)
  at entry {
    icat_nil(r.signed)
    if igood(r) { 
      if r.stream.readLength < slen(r.stream) && !snone(r.stream) { good_left(r.stream.f.content, slen(r.stream) - r.stream.readLength, r.stream.opts.ChunkSize) }
      if r.stream.readLength >= slen(r.stream) && !snone(r.stream) { chsrd_nil(r.stream.f.content, slen(r.stream) - r.stream.readLength) }
      if len(r.stream.content) > 0 { icat_left(r.stream.content, r.signed) }
    }
  }
  reveal unzzs

fn iseek(r *IntRLV2Reader, c int, o int, n int) bool = swhole(r.stream) && spos(r.stream, c, o) && iall(sat(r.stream, c, o), r.signed) && n <= len(icat(sat(r.stream, c, o), r.signed)) && n <= 4611686018427387904
func (r *IntRLV2Reader) Seek(chunkOffset, offset, pos)
  property C08
  requires ishape(r)
  modifies r.stream.good, ist(r)
  ensures state: ishape(r)
  ensures found: old(iseek(r, chunkOffset, offset, pos)) ==> err == nil && igood(r)
  ensures signed: r.signed && old(iseek(r, chunkOffset, offset, pos)) ==> ileft(r) == unzzs(old(icat(sat(r.stream, chunkOffset, offset), true)))[pos:]
  ensures unsigned: !r.signed && old(iseek(r, chunkOffset, offset, pos)) ==> uleft(r) == old(icat(sat(r.stream, chunkOffset, offset), false))[pos:]
  var B []uint64 = empty([]uint64)
  var S []int64 = empty([]int64)
  var ok bool = false
  at entry { ok = iseek(r, chunkOffset, offset, pos)  B = icat(sat(r.stream, chunkOffset, offset), r.signed)  S = unzzs(B) }
  loop 1
    invariant ishape(r)
    invariant ok ==> 0 <= i <= pos && igood(r) && (r.signed ? ileft(r) == S[i:] : uleft(r) == B[i:])

// ---- varints
fn vleft(r *Varint64Reader) []int64 = unzzs(uvs(r.stream.content))
fn vgood(r *Varint64Reader) bool = r.stream.good && uvsok(r.stream.content)

lemma uvs_step(E []byte)
  property C07
  requires varok1(E)
  ensures uvs(E) == snoc(empty([]uint64), uvval(E)) ++ uvs(E[uvlen(E):])
  ensures uvsok(E) <==> uvsok(E[uvlen(E):])
  reveal uvs, uvsok, uvok

lemma uvs_first(E []byte)
  property C07
  requires uvsok(E) && len(E) > 0
  ensures varok1(E) && len(uvs(E)) > 0
  reveal uvs, uvsok

lemma uv_facts(E []byte)
  property C07
  requires uvok(E)
  ensures 0 < uvlen(E) <= len(E)

func NewVarIntReader(opts, info, start, in)
  property C07
  requires opts != nil && info != nil && in != nil && alloced(in) && 0 < opts.ChunkSize <= 4611686018427387904 && (info.Length == nil ? 0 : *info.Length) <= 4611686018427387904
  ensures fresh(ret0) && sfrom(ret0.stream, opts, info, start, in)

func (r *Varint64Reader) NextInt64()
  property C07, C15
  requires r.stream != nil && srep(r.stream)
  modifies sst(r.stream)
  ensures value: err == nil ==> len(old(vleft(r))) > 0 && ret0 == old(vleft(r))[0] && vleft(r) == old(vleft(r))[1:]
  ensures complete: old(vgood(r)) && len(old(vleft(r))) > 0 ==> err == nil
  ensures state: srep(r.stream) && (err == nil && old(vgood(r)) ==> vgood(r))
  at before call DecodeVarInt64 {
    if uvok(r.stream.content) && varok1(r.stream.content) {
      uvs_step(r.stream.content)
      unzzs_concat(snoc(empty([]uint64), uvval(r.stream.content)), uvs(r.stream.content[uvlen(r.stream.content):]))
    }
    if uvok(r.stream.content) { uv_facts(r.stream.content) }
    if uvsok(r.stream.content) && len(r.stream.content) > 0 { uvs_first(r.stream.content) }
    f4_nil()
  }
  reveal unzzs

func (r *Varint64Reader) Finished()
  property C07
  requires r.stream != nil && srep(r.stream)
  ensures end: vgood(r) ==> (ret0 <==> len(vleft(r)) == 0)
  at entry {
    if vgood(r) { 
      if r.stream.readLength < slen(r.stream) && !snone(r.stream) { good_left(r.stream.f.content, slen(r.stream) - r.stream.readLength, r.stream.opts.ChunkSize) }
      if r.stream.readLength >= slen(r.stream) && !snone(r.stream) { chsrd_nil(r.stream.f.content, slen(r.stream) - r.stream.readLength) }
      if len(r.stream.content) > 0 { uvs_first(r.stream.content) }
      f4_nil()
    }
  }
  reveal unzzs

func (r *Varint64Reader) Seek(offset, uncompressedOffset, pos)
  property C08
  requires r.stream != nil && srep(r.stream)
  modifies r.stream.good, sst(r.stream)
  ensures state: srep(r.stream)
  ensures found: old(swhole(r.stream) && spos(r.stream, offset, uncompressedOffset)) ==> err == nil && r.stream.good && r.stream.content == old(sat(r.stream, offset, uncompressedOffset))

// ---- floating point numbers, as bit patterns
fn fleft(r *FloatReader) []uint64 = r.is64 ? f8(r.stream.content) : f4(r.stream.content)
fn fgood(r *FloatReader) bool = r.stream.good && len(r.stream.content) % (r.is64 ? 8 : 4) == 0

lemma f4_step(E []byte)
  property C07
  requires len(E) >= 4
  ensures f4(E) == snoc(empty([]uint64), be4(E[:4])) ++ f4(E[4:])
  reveal f4
lemma f8_step(E []byte)
  property C07
  requires len(E) >= 8
  ensures f8(E) == snoc(empty([]uint64), le8(E[:8])) ++ f8(E[8:])
  reveal f8
lemma f_short(E []byte)
  property C07
  ensures len(E) < 4 ==> f4(E) == empty([]uint64)
  ensures len(E) < 8 ==> f8(E) == empty([]uint64)
  reveal f4, f8

func NewFloatReader(opts, info, start, in, is64)
  property C07
  requires opts != nil && info != nil && in != nil && alloced(in) && 0 < opts.ChunkSize <= 4611686018427387904 && (info.Length == nil ? 0 : *info.Length) <= 4611686018427387904
  ensures fresh(ret0) && ret0.is64 == is64 && sfrom(ret0.stream, opts, info, start, in)

func (r *FloatReader) NextFloat()
  property C07, C15
  requires r.stream != nil && srep(r.stream)
  modifies sst(r.stream)
  ensures value: err == nil ==> !r.is64 && len(old(fleft(r))) > 0 && bits(ret0) == old(fleft(r))[0] && fleft(r) == old(fleft(r))[1:]
  ensures complete: !r.is64 && old(fgood(r)) && len(old(fleft(r))) > 0 ==> err == nil
  ensures state: srep(r.stream) && (err == nil && old(fgood(r)) ==> fgood(r))
  at entry { f_short(r.stream.content)  if len(r.stream.content) >= 4 { f4_step(r.stream.content) } }

func (r *FloatReader) NextDouble()
  property C07, C15
  requires r.stream != nil && srep(r.stream)
  modifies sst(r.stream)
  ensures value: err == nil ==> r.is64 && len(old(fleft(r))) > 0 && bits(ret0) == old(fleft(r))[0] && fleft(r) == old(fleft(r))[1:]
  ensures complete: r.is64 && old(fgood(r)) && len(old(fleft(r))) > 0 ==> err == nil
  ensures state: srep(r.stream) && (err == nil && old(fgood(r)) ==> fgood(r))
  at entry { f_short(r.stream.content)  if len(r.stream.content) >= 8 { f8_step(r.stream.content) } }

func (r FloatReader) Finished()
  property C07
  requires r.stream != nil && srep(r.stream)
  ensures end: r.stream.good && len(r.stream.content) % (r.is64 ? 8 : 4) == 0 ==> (ret0 <==> len(r.is64 ? f8(r.stream.content) : f4(r.stream.content)) == 0)
  at entry {
    if r.stream.good { 
      if r.stream.readLength < slen(r.stream) && !snone(r.stream) { good_left(r.stream.f.content, slen(r.stream) - r.stream.readLength, r.stream.opts.ChunkSize) }
      if r.stream.readLength >= slen(r.stream) && !snone(r.stream) { chsrd_nil(r.stream.f.content, slen(r.stream) - r.stream.readLength) }
    }
    f_short(r.stream.content)
    if len(r.stream.content) >= 4 { f4_step(r.stream.content) }
    if len(r.stream.content) >= 8 { f8_step(r.stream.content) }
  }

func (r *FloatReader) Seek(chunk, chunkOffset)
  property C08
  requires r.stream != nil && srep(r.stream)
  modifies r.stream.good, sst(r.stream)
  ensures state: srep(r.stream)
  ensures found: old(swhole(r.stream) && spos(r.stream, chunk, chunkOffset)) ==> err == nil && r.stream.good && r.stream.content == old(sat(r.stream, chunk, chunkOffset))

// ---- raw bytes
func NewStringContentsReader(opts, info, start, in)
  property C07
  requires opts != nil && info != nil && in != nil && alloced(in) && 0 < opts.ChunkSize <= 4611686018427387904 && (info.Length == nil ? 0 : *info.Length) <= 4611686018427387904
  ensures fresh(ret0) && sfrom(ret0.stream, opts, info, start, in)

func (r *StringContentsReader) NextBytes(n)
  property C07
  requires r.stream != nil && srep(r.stream) && n <= 4611686018427387904
  modifies sst(r.stream)
  ensures value: err == nil ==> n <= len(old(r.stream.content)) && ret0 == old(r.stream.content)[:n] && r.stream.content == old(r.stream.content)[n:]
  ensures complete: r.stream.good && n <= len(old(r.stream.content)) ==> err == nil
  ensures state: srep(r.stream)

func (r *StringContentsReader) NextString(n)
  property C07
  requires r.stream != nil && srep(r.stream) && n <= 4611686018427387904
  modifies sst(r.stream)
  ensures value: err == nil ==> n <= len(old(r.stream.content)) && ret0 == old(r.stream.content)[:n] && r.stream.content == old(r.stream.content)[n:]
  ensures complete: r.stream.good && n <= len(old(r.stream.content)) ==> err == nil
  ensures state: srep(r.stream)

func (r *StringContentsReader) Finished()
  property C07
  requires r.stream != nil && srep(r.stream)
  ensures end: r.stream.good ==> (ret0 <==> len(r.stream.content) == 0)
  at entry {
    if r.stream.good { 
      if r.stream.readLength < slen(r.stream) && !snone(r.stream) { good_left(r.stream.f.content, slen(r.stream) - r.stream.readLength, r.stream.opts.ChunkSize) }
      if r.stream.readLength >= slen(r.stream) && !snone(r.stream) { chsrd_nil(r.stream.f.content, slen(r.stream) - r.stream.readLength) }
    }
  }

func (r *StringContentsReader) Seek(chunk, chunkOffset)
  property C08
  requires r.stream != nil && srep(r.stream)
  modifies r.stream.good, sst(r.stream)
  ensures state: srep(r.stream)
  ensures found: old(swhole(r.stream) && spos(r.stream, chunk, chunkOffset)) ==> err == nil && r.stream.good && r.stream.content == old(sat(r.stream, chunk, chunkOffset))
