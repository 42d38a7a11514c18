// Dates: days since 1970, coded as signed integers
package encoding

fn day(u int) int = i32(unzz(u))
// d is midnight UTC of the day coded by u
fn dateof(d api.Date, u int) bool = unix(d) == day(u) * 86400 && nsec(d) == 0
fn datesof(D []api.Date, U []uint64) bool = len(D) == len(U) && (forall k int {D[k]} :: 0 <= k < len(D) ==> dateof(D[k], U[k]))

func (d *dateV2Decoder) Decode(in)
  property C04, C15
  dispatch encoding.IntDecoder as encoding.intRLV2Decoder
  requires in != nil && is(d.intDecoder, *intRLV2Decoder) && as(d.intDecoder, *intRLV2Decoder) != nil && as(d.intDecoder, *intRLV2Decoder).signed
  modifies as(d.intDecoder, *intRLV2Decoder).uvs, as(d.intDecoder, *intRLV2Decoder).vs, as(d.intDecoder, *intRLV2Decoder).bitsLeft, as(d.intDecoder, *intRLV2Decoder).lastByte, in.content
  ensures wellformed: err == nil ==> iok(old(in.content), true)
  ensures values: err == nil ==> datesof(ret0, ivals(old(in.content), true))
  ensures none: err != nil ==> len(ret0) == 0
  ensures consumed: err == nil ==> in.content == old(in.content)[ilen(old(in.content), true):]
  ensures complete: healthy(in) && iok(old(in.content), true) ==> err == nil
  loop 1
    invariant len(dates) == $n
    invariant forall k int {dates[k]} :: 0 <= k < len(dates) ==> unix(dates[k]) == i32(days[k]) * 86400 && nsec(dates[k]) == 0
  at exit {
    if err == nil { 
      assert len(ret0) == len(ivals(old(in.content), true))
      unzzs_at(ivals(old(in.content), true))
    }
  }

func NewDateV2DeCoder()
  property C04, C15
  ensures is(ret0, *dateV2Decoder) && fresh(ret0)
  ensures is(as(ret0, *dateV2Decoder).intDecoder, *intRLV2Decoder) && as(as(ret0, *dateV2Decoder).intDecoder, *intRLV2Decoder) != nil && as(as(ret0, *dateV2Decoder).intDecoder, *intRLV2Decoder).signed && alloced(as(ret0, *dateV2Decoder).intDecoder)

package stream

ghost field codes []uint64
fn ddec(r *dateV2Reader) *encoding.intRLV2Decoder = as(as(r.decoder, *encoding.dateV2Decoder).intDecoder, *encoding.intRLV2Decoder)
fn dleft(r *dateV2Reader) []uint64 = r.codes[r.consumed:] ++ icat(r.stream.content, true)
fn dshape(r *dateV2Reader) bool = r != nil && r.stream != nil && srep(r.stream) && is(r.decoder, *encoding.dateV2Decoder) && ref(r.decoder) != 0 && 
  is(as(r.decoder, *encoding.dateV2Decoder).intDecoder, *encoding.intRLV2Decoder) && ddec(r) != nil && ddec(r).signed && 0 <= r.consumed <= len(r.values) && datesof(r.values, r.codes)
fn dgood(r *dateV2Reader) bool = r.stream.good && iall(r.stream.content, true)
locs dst(r *dateV2Reader) = r.values, r.codes, r.consumed, ddec(r).uvs, ddec(r).vs, ddec(r).bitsLeft, ddec(r).lastByte, sst(r.stream)

func NewDateV2Reader(opts, info, start, in)
  property C07
  requires opts != nil && info != nil && in != nil && alloced(in) && 0 < opts.ChunkSize <= 4611686018427387904 && (info.Length == nil ? 0 : *info.Length) <= 4611686018427387904
  ensures is(ret0, *dateV2Reader) && fresh(ret0) && dshape(as(ret0, *dateV2Reader)) && len(as(ret0, *dateV2Reader).values) == 0
  ensures sfrom(as(ret0, *dateV2Reader).stream, opts, info, start, in)
  at exit { ret0.codes = empty([]uint64) }

func (r *dateV2Reader) Next()
  property C07, C15
  dispatch encoding.DateDecoder as encoding.dateV2Decoder
  requires dshape(r)
  modifies dst(r)
  ensures value: err == nil ==> len(old(dleft(r))) > 0 && dateof(ret0, old(dleft(r))[0]) && dleft(r) == old(dleft(r))[1:]
  ensures complete: old(dgood(r)) && len(old(dleft(r))) > 0 ==> err == nil
  ensures state: dshape(r) && (err == nil && old(dgood(r)) ==> dgood(r))
  at before call Decode {
    if iok(r.stream.content, true) { icat_step(r.stream.content, true)  ivals_some(r.stream.content, true) }
    if iall(r.stream.content, true) && len(r.stream.content) == 0 { icat_nil(true) }
    if iall(r.stream.content, true) && len(r.stream.content) > 0 { iall_first(r.stream.content, true) }
  }
  at after call Decode { r.codes = res1 == nil ? ivals(old(r.stream.content), true) : empty([]uint64) }

func (r dateV2Reader) Finished()
  property C07
  requires r.stream != nil && srep(r.stream) && 0 <= r.consumed <= len(r.values)
  ensures end: r.stream.good && iall(r.stream.content, true) ==> (ret0 <==> r.consumed == len(r.values) && len(icat(r.stream.content, true)) == 0)
  at entry {
    icat_nil(true)
    if r.stream.good && iall(r.stream.content, true) { 
      if r.stream.readLength < slen(r.stream) && !snone(r.stream) { good_left(r.stream.f.content, slen(r.stream) - r.stream.readLength, r.stream.opts.ChunkSize) }
      if r.stream.readLength >= slen(r.stream) && !snone(r.stream) { chsrd_nil(r.stream.f.content, slen(r.stream) - r.stream.readLength) }
      if len(r.stream.content) > 0 { icat_left(r.stream.content, true) }
    }
  }

fn dseek(r *dateV2Reader, c int, o int, n int) bool = swhole(r.stream) && spos(r.stream, c, o) && iall(sat(r.stream, c, o), true) && n <= len(icat(sat(r.stream, c, o), true)) && n <= 4611686018427387904
func (r *dateV2Reader) Seek(chunk, chunkOffset, offset)
  property C08
  requires dshape(r)
  modifies r.stream.good, dst(r)
  ensures state: dshape(r)
  ensures found: old(dseek(r, chunk, chunkOffset, offset)) ==> err == nil && dgood(r) && dleft(r) == old(icat(sat(r.stream, chunk, chunkOffset), true))[offset:]
  var B []uint64 = empty([]uint64)
  var ok bool = false
  at entry { ok = dseek(r, chunk, chunkOffset, offset)  B = icat(sat(r.stream, chunk, chunkOffset), true) }
  at beforeloop 1 { r.codes = empty([]uint64) }
  loop 1
    invariant dshape(r)
    invariant ok ==> 0 <= i <= offset && dgood(r) && dleft(r) == B[i:]
