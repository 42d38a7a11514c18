// Encoders behind the Encoder interface: the bytes an encoder emitted since it
// was created or last reset, and the values it was given (zigzag codes of
// signed integers, bit patterns of floats).  These ghost fields are maintained
// where the interface method is called.
package encoding

// fixed width and varint streams
fn f4(E []byte) []uint64 rec decreases len(E) = len(E) < 4 ? empty([]uint64) : snoc(empty([]uint64), be4(E[:4])) ++ f4(E[4:])
fn f8(E []byte) []uint64 rec decreases len(E) = len(E) < 8 ? empty([]uint64) : snoc(empty([]uint64), le8(E[:8])) ++ f8(E[8:])
fn varok1(E []byte) bool = uvok(E) && 0 < uvlen(E) <= len(E) && uvlen(E) <= 10 && uvval(E) <= 18446744073709551615
fn uvsok(E []byte) bool rec decreases len(E) = len(E) == 0 || varok1(E) && uvsok(E[uvlen(E):])
fn uvs(E []byte) []uint64 rec decreases len(E) = len(E) == 0 || !varok1(E) ? empty([]uint64) : snoc(empty([]uint64), uvval(E)) ++ uvs(E[uvlen(E):])

lemma f4_append(A []byte, R []byte)
  property C07
  decreases len(A)
  requires len(A) % 4 == 0 && len(R) == 4
  ensures f4(A ++ R) == snoc(f4(A), be4(R))
  reveal f4
{
  if len(A) > 0 {
    f4_append(A[4:], R)
    assert (A ++ R)[4:] == A[4:] ++ R
    assert (A ++ R)[:4] == A[:4]
  } else {
    assert A ++ R == R && R[:4] == R && f4(R[4:]) == empty([]uint64)
  }
}

lemma f8_append(A []byte, R []byte)
  property C07
  decreases len(A)
  requires len(A) % 8 == 0 && len(R) == 8
  ensures f8(A ++ R) == snoc(f8(A), le8(R))
  reveal f8
{
  if len(A) > 0 {
    f8_append(A[8:], R)
    assert (A ++ R)[8:] == A[8:] ++ R
    assert (A ++ R)[:8] == A[:8]
  } else {
    assert A ++ R == R && R[:8] == R && f8(R[8:]) == empty([]uint64)
  }
}

lemma f4_nil()
  property C07
  auto
  ensures f4(empty([]byte)) == empty([]uint64) && f8(empty([]byte)) == empty([]uint64) && uvs(empty([]byte)) == empty([]uint64) && uvsok(empty([]byte))
  reveal f4, f8, uvs, uvsok

lemma uvs_append(A []byte, R []byte, u u64)
  property C07
  decreases len(A)
  requires uvsok(A) && isuv(R, u) && len(R) <= 10 && len(R) > 0
  ensures uvsok(A ++ R) && uvs(A ++ R) == snoc(uvs(A), u)
  reveal uvs, uvsok
{
  if len(A) > 0 {
    uvs_append(A[uvlen(A):], R, u)
    uv_prefix2(A, R)
    assert (A ++ R)[uvlen(A):] == A[uvlen(A):] ++ R
  } else {
    assert A ++ R == R
    assert R[uvlen(R):] == empty([]byte)
    f4_nil()
    assert uvsok(R)
    assert uvs(R) == snoc(empty([]uint64), u)
  }
}

// ---- dates: day numbers, as signed integers
fn ienc(e *dateV2Encoder) *intRLV2Encoder = as(e.intEncoder, *intRLV2Encoder)
fn dateok(e *dateV2Encoder) bool = is(e.intEncoder, *intRLV2Encoder) && ienc(e) != nil && ienc(e).signed && len(ienc(e).values) < 512
fn daynum(d api.Date) int = i32(floordiv(unix(d), 86400))

func (e *dateV2Encoder) Encode(v, out)
  property C04
  dispatch encoding.Encoder as encoding.intRLV2Encoder
  requires out != nil && is(v, api.Date) && dateok(e)
  modifies ienc(e).values, ienc(e).bitsLeft, ienc(e).lastByte, ienc(e).position, out.content
  ensures err == nil
  ensures appended: grew(old(out.content), out.content)
  ensures state: dateok(e)
  ensures wellformed: iall(out.content[len(old(out.content)):], true)
  ensures decodes: icat(out.content[len(old(out.content)):], true) ++ ienc(e).values == snoc(old(ienc(e).values), zz(daynum(as(v, api.Date))))
  ensures C08: ienc(e).position == (old(ienc(e).position) == -1 ? -1 : len(ienc(e).values))

func (e *dateV2Encoder) Flush(out)
  property C04
  dispatch encoding.Encoder as encoding.intRLV2Encoder
  requires out != nil && dateok(e)
  modifies ienc(e).values, ienc(e).bitsLeft, ienc(e).lastByte, ienc(e).position, out.content
  ensures err == nil
  ensures appended: grew(old(out.content), out.content)
  ensures state: dateok(e)
  ensures wellformed: iall(out.content[len(old(out.content)):], true)
  ensures decodes: icat(out.content[len(old(out.content)):], true) == old(ienc(e).values)
  ensures drained: len(ienc(e).values) == 0
  ensures C08: ienc(e).position == (old(ienc(e).position) == -1 ? -1 : 0)

func (e dateV2Encoder) GetPosition()
  property C04, C08
  dispatch encoding.Encoder as encoding.intRLV2Encoder
  requires is(e.intEncoder, *intRLV2Encoder) && as(e.intEncoder, *intRLV2Encoder) != nil
  ensures len(ret0) == 1 && (as(e.intEncoder, *intRLV2Encoder).position >= 0 ==> ret0[0] == as(e.intEncoder, *intRLV2Encoder).position)

func NewDateV2Encoder(doPositioning)
  property C04
  ensures is(ret0, *dateV2Encoder) && dateok(as(ret0, *dateV2Encoder)) && ienc(as(ret0, *dateV2Encoder)).values == empty([]uint64)
  ensures ienc(as(ret0, *dateV2Encoder)).position == (doPositioning ? 0 : -1)
  ensures encnew(ret0)
  at exit { ret0.emitted = empty([]byte) ret0.given = empty([]uint64) ret0.givenb = empty([]bool) ret0.given8 = empty([]byte) }

// ---- what an encoder of each kind holds
fn bytej(e *byteRunLength, E []byte, G []byte) bool = brlok(E) && brldec(E) ++ e.values == G
fn boolj(e *boolRunLength, E []byte, G []bool) bool = brlok(E) && unpack(brldec(E) ++ e.brl.values) ++ partial(e) == G
fn intj(e *intRLV2Encoder, E []byte, G []uint64) bool = iall(E, e.signed) && icat(E, e.signed) ++ e.values == G
fn boolpadded(E []byte, G []bool) bool = let D = unpack(brldec(E)) in brlok(E) && len(G) <= len(D) <= len(G) + 7 && D[:len(G)] == G && (forall k int {D[k]} :: len(G) <= k < len(D) ==> !D[k])

fn accepts(e any, v any) bool = is(e, *byteRunLength) ? is(v, byte) : is(e, *boolRunLength) ? is(v, bool) :
  is(e, *intRLV2Encoder) ? (as(e, *intRLV2Encoder).signed ? is(v, int64) : is(v, uint64)) :
  is(e, *float) ? is(v, float32) : is(e, *double) ? is(v, float64) : is(e, *varint64Encoder) ? is(v, int64) : is(e, *dateV2Encoder) ? is(v, api.Date) : is(e, *stringContents) && is(v, []byte)

fn ival(v any) int = is(v, int64) ? zz(as(v, int64)) : is(v, uint64) ? as(v, uint64) : is(v, float32) ? bits(as(v, float32)) : is(v, float64) ? bits(as(v, float64)) : is(v, api.Date) ? zz(daynum(as(v, api.Date))) : 0

// well formed
fn encok(e any) bool = 
  (is(e, *byteRunLength) ==> ref(e) != 0 && len(as(e, *byteRunLength).values) < 128) &&
  (is(e, *boolRunLength) ==> ref(e) != 0 && boolinv(as(e, *boolRunLength))) &&
  (is(e, *intRLV2Encoder) ==> ref(e) != 0 && len(as(e, *intRLV2Encoder).values) < 512) &&
  (is(e, *dateV2Encoder) ==> ref(e) != 0 && dateok(as(e, *dateV2Encoder))) &&
  (is(e, *float) || is(e, *double) || is(e, *varint64Encoder) || is(e, *stringContents) ==> ref(e) != 0) &&
  (is(e, *byteRunLength) || is(e, *boolRunLength) || is(e, *intRLV2Encoder) || is(e, *float) || is(e, *double) || is(e, *varint64Encoder) || is(e, *stringContents) || is(e, *dateV2Encoder))

// what was emitted and what is held back are the values given
fn encj(e any) bool =
  (is(e, *byteRunLength) ==> bytej(as(e, *byteRunLength), e.emitted, e.given8)) &&
  (is(e, *boolRunLength) ==> boolj(as(e, *boolRunLength), e.emitted, e.givenb)) &&
  (is(e, *intRLV2Encoder) ==> intj(as(e, *intRLV2Encoder), e.emitted, e.given)) &&
  (is(e, *dateV2Encoder) ==> intj(ienc(as(e, *dateV2Encoder)), e.emitted, e.given)) &&
  (is(e, *float) ==> len(e.emitted) % 4 == 0 && f4(e.emitted) == e.given) &&
  (is(e, *double) ==> len(e.emitted) % 8 == 0 && f8(e.emitted) == e.given) &&
  (is(e, *varint64Encoder) ==> uvsok(e.emitted) && uvs(e.emitted) == e.given)

// nothing is held back
fn encclean(e any) bool =
  (is(e, *byteRunLength) ==> len(as(e, *byteRunLength).values) == 0) &&
  (is(e, *boolRunLength) ==> as(e, *boolRunLength).index == 0 - 1 && as(e, *boolRunLength).value == 0 && len(as(e, *boolRunLength).brl.values) == 0) &&
  (is(e, *intRLV2Encoder) ==> len(as(e, *intRLV2Encoder).values) == 0) &&
  (is(e, *dateV2Encoder) ==> len(ienc(as(e, *dateV2Encoder)).values) == 0)

// what was emitted decodes to the values given
fn encdone(e any) bool =
  (is(e, *byteRunLength) ==> brlok(e.emitted) && brldec(e.emitted) == e.given8) &&
  (is(e, *boolRunLength) ==> boolpadded(e.emitted, e.givenb)) &&
  (is(e, *intRLV2Encoder) ==> iall(e.emitted, as(e, *intRLV2Encoder).signed) && icat(e.emitted, as(e, *intRLV2Encoder).signed) == e.given) &&
  (is(e, *dateV2Encoder) ==> iall(e.emitted, true) && icat(e.emitted, true) == e.given) &&
  (is(e, *float) ==> len(e.emitted) % 4 == 0 && f4(e.emitted) == e.given) &&
  (is(e, *double) ==> len(e.emitted) % 8 == 0 && f8(e.emitted) == e.given) &&
  (is(e, *varint64Encoder) ==> uvsok(e.emitted) && uvs(e.emitted) == e.given)

// the recorded position is the number of values held back
fn posok(e any) bool =
  (is(e, *byteRunLength) ==> as(e, *byteRunLength).position == len(as(e, *byteRunLength).values)) &&
  (is(e, *boolRunLength) ==> as(e, *boolRunLength).brl.position == len(as(e, *boolRunLength).brl.values) && as(e, *boolRunLength).position == as(e, *boolRunLength).index + 1) &&
  (is(e, *intRLV2Encoder) ==> as(e, *intRLV2Encoder).position == len(as(e, *intRLV2Encoder).values)) &&
  (is(e, *dateV2Encoder) ==> ienc(as(e, *dateV2Encoder)).position == len(ienc(as(e, *dateV2Encoder)).values))

fn one(x u64) []uint64 = snoc(empty([]uint64), x)
fn encpos(e any) []uint64 = 
  is(e, *byteRunLength) ? one(len(as(e, *byteRunLength).values)) :
  is(e, *boolRunLength) ? snoc(one(len(as(e, *boolRunLength).brl.values)), as(e, *boolRunLength).index + 1) :
  is(e, *intRLV2Encoder) ? one(len(as(e, *intRLV2Encoder).values)) :
  is(e, *dateV2Encoder) ? one(len(ienc(as(e, *dateV2Encoder)).values)) :
  is(e, *varint64Encoder) ? one(1) : empty([]uint64)

locs encst(e encoding.Encoder) = e.emitted, e.given, e.givenb, e.given8,
  as(e, *byteRunLength).values when is(e, *byteRunLength), as(e, *byteRunLength).position when is(e, *byteRunLength),
  as(e, *boolRunLength).index when is(e, *boolRunLength), as(e, *boolRunLength).value when is(e, *boolRunLength), as(e, *boolRunLength).position when is(e, *boolRunLength),
  as(e, *boolRunLength).brl.values when is(e, *boolRunLength), as(e, *boolRunLength).brl.position when is(e, *boolRunLength),
  as(e, *intRLV2Encoder).values when is(e, *intRLV2Encoder), as(e, *intRLV2Encoder).bitsLeft when is(e, *intRLV2Encoder), as(e, *intRLV2Encoder).lastByte when is(e, *intRLV2Encoder), as(e, *intRLV2Encoder).position when is(e, *intRLV2Encoder),
  as(as(e, *dateV2Encoder).intEncoder, *intRLV2Encoder).values when is(e, *dateV2Encoder), as(as(e, *dateV2Encoder).intEncoder, *intRLV2Encoder).bitsLeft when is(e, *dateV2Encoder), as(as(e, *dateV2Encoder).intEncoder, *intRLV2Encoder).lastByte when is(e, *dateV2Encoder), as(as(e, *dateV2Encoder).intEncoder, *intRLV2Encoder).position when is(e, *dateV2Encoder)

fn encsame(e any) bool = is(e, *intRLV2Encoder) ==> as(e, *intRLV2Encoder).signed == old(as(e, *intRLV2Encoder).signed)

func NewFloatEncoder()
  property C07
  ensures is(ret0, *float) && fresh(ret0) && encnew(ret0)
  at exit { ret0.emitted = empty([]byte) ret0.given = empty([]uint64) ret0.givenb = empty([]bool) ret0.given8 = empty([]byte) }

func NewDoubleEncoder()
  property C07
  ensures is(ret0, *double) && fresh(ret0) && encnew(ret0)
  at exit { ret0.emitted = empty([]byte) ret0.given = empty([]uint64) ret0.givenb = empty([]bool) ret0.given8 = empty([]byte) }

func NewStringContentsEncoder()
  property C07
  ensures is(ret0, *stringContents) && fresh(ret0) && encnew(ret0)
  at exit { ret0.emitted = empty([]byte) ret0.given = empty([]uint64) ret0.givenb = empty([]bool) ret0.given8 = empty([]byte) }

func NewVarint64Encoder()
  property C07
  ensures is(ret0, *varint64Encoder) && fresh(ret0) && encnew(ret0)
  at exit { ret0.emitted = empty([]byte) ret0.given = empty([]uint64) ret0.givenb = empty([]bool) ret0.given8 = empty([]byte) }

extern func (e encoding.Encoder) Encode(v, out)
  property C07, C08
  requires out != nil && encok(e) && encj(e) && accepts(e, v)
  requires boxed: is(v, int64) ==> 0 - 9223372036854775808 <= as(v, int64) <= 9223372036854775807
  modifies encst(e), out.content
  ensures accepted: err == nil
  ensures appended: grew(old(out.content), out.content)
  ensures emits: e.emitted == old(e.emitted) ++ out.content[len(old(out.content)):]
  ensures gives: e.given == (is(v, bool) || is(v, byte) || is(v, []byte) ? old(e.given) : snoc(old(e.given), ival(v)))
  ensures givesb: e.givenb == (is(v, bool) ? snoc(old(e.givenb), as(v, bool)) : old(e.givenb))
  ensures gives8: e.given8 == (is(v, byte) ? snoc(old(e.given8), as(v, byte)) : old(e.given8))
  ensures bytes: is(v, []byte) ==> out.content == old(out.content) ++ as(v, []byte)
  ensures state: encok(e)
  ensures session: encj(e)
  ensures position: old(posok(e)) ==> posok(e)
  at exit {
    var c0 = old(out.content)
    var R = out.content[len(c0):]
    e.emitted = e.emitted ++ R
    if is(v, bool) { e.givenb = snoc(e.givenb, as(v, bool)) }
    if is(v, byte) { e.given8 = snoc(e.given8, as(v, byte)) }
    if !is(v, bool) && !is(v, byte) && !is(v, []byte) { e.given = snoc(e.given, ival(v)) }
    if is(e, *byteRunLength) { brl_session(old(e.emitted), old(as(e, *byteRunLength).values), old(e.given8), R, as(e, *byteRunLength).values, snoc(empty([]byte), as(v, byte))) }
    if is(e, *boolRunLength) {
      unpack_concat(brldec(R), as(e, *boolRunLength).brl.values)
      bool_session(old(e.emitted), old(as(e, *boolRunLength).brl.values), old(partial(as(e, *boolRunLength))), old(e.givenb), R, as(e, *boolRunLength).brl.values, partial(as(e, *boolRunLength)), snoc(empty([]bool), as(v, bool)))
    }
    if is(e, *intRLV2Encoder) { int_session(old(e.emitted), as(e, *intRLV2Encoder).signed, old(as(e, *intRLV2Encoder).values), old(e.given), R, as(e, *intRLV2Encoder).values, one(ival(v))) }
    if is(e, *dateV2Encoder) { int_session(old(e.emitted), true, old(ienc(as(e, *dateV2Encoder)).values), old(e.given), R, ienc(as(e, *dateV2Encoder)).values, one(ival(v))) }
    if is(e, *float) { f4_append(old(e.emitted), R) }
    if is(e, *double) { f8_append(old(e.emitted), R) }
    if is(e, *varint64Encoder) { uvs_append(old(e.emitted), R, zz(as(v, int64))) }
  }

extern func (e encoding.Encoder) Flush(out)
  property C07, C08
  requires out != nil && encok(e) && encj(e)
  modifies encst(e), out.content
  ensures accepted: err == nil
  ensures appended: grew(old(out.content), out.content)
  ensures emits: e.emitted == old(e.emitted) ++ out.content[len(old(out.content)):]
  ensures gives: e.given == old(e.given) && e.givenb == old(e.givenb) && e.given8 == old(e.given8)
  ensures raw: is(e, *stringContents) ==> out.content == old(out.content)
  ensures state: encok(e)
  ensures done: encdone(e) && encclean(e)
  ensures position: old(posok(e)) ==> posok(e)
  at exit {
    var c0 = old(out.content)
    var R = out.content[len(c0):]
    e.emitted = e.emitted ++ R
    if is(e, *byteRunLength) { brl_concat(old(e.emitted), R) }
    if is(e, *boolRunLength) {
      brl_concat(old(e.emitted), R)
      unpack_concat(brldec(old(e.emitted)), brldec(R))
      unpack_concat(brldec(old(e.emitted)), old(as(e, *boolRunLength).brl.values))
    }
    if is(e, *dateV2Encoder) { icat_concat(old(e.emitted), R, true) }
    if is(e, *intRLV2Encoder) { icat_concat(old(e.emitted), R, as(e, *intRLV2Encoder).signed) }
  }

extern func (e encoding.Encoder) GetPosition() pure
  property C08
  requires encok(e)
  ensures posok(e) ==> ret0 == encpos(e)

refine encoding.Encoder by encoding.byteRunLength, encoding.boolRunLength, encoding.intRLV2Encoder, encoding.float, encoding.double, encoding.varint64Encoder, encoding.stringContents, encoding.dateV2Encoder
