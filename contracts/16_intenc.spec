// Integer run-length encoding version 2: the encoder
package encoding

lemma band_full(x u64, m u64, k i64)
  mode bv
  property C01
  requires 0 <= k <= 64
  requires x < pow2(k)
  ensures band(x, pow2(k) - 1) == x

lemma byte_split(x u64, t i64)
  mode bv
  property C01
  requires 0 <= t <= 56
  ensures band(x, pow2(t + 8) - 1) == shl(band(shr(x, t), 255), t) + band(x, pow2(t) - 1)
  ensures band(x, pow2(t) - 1) < pow2(t)
  ensures u8(shr(x, t)) == band(shr(x, t), 255)

lemma band_byte(x u64, l i64)
  mode bv
  property C01
  requires 0 <= l <= 7
  ensures band(u8(x), pow2(l) - 1) == band(x, pow2(l) - 1)
  ensures band(x, pow2(l) - 1) < pow2(l)

lemma or_disjoint(h u64, l u64, a i64, k i64)
  mode bv
  property C01
  requires 0 <= k <= 64
  requires 0 <= a <= 7
  requires a + k <= 64
  requires l < pow2(k)
  requires h < pow2(a)
  ensures bor(u64(shl(h, k)), l) == shl(h, k) + l
  ensures u64(shl(h, k)) == shl(h, k)
  ensures shl(h, k) + l < pow2(a + k)

// bits written so far, including those not yet in the output
fn emitted(e *intRLV2Encoder, c []byte) []bool = unpack(c) ++ tobits(e.lastByte, e.bitsLeft)

func (e *intRLV2Encoder) writeBits(value, bits, out)
  property C01
  requires out != nil && 0 <= bits <= 64 && value < pow2(bits) && bitstate(e.bitsLeft, e.lastByte)
  modifies e.lastByte, e.bitsLeft, out.content
  ensures err == nil
  ensures written: emitted(e, out.content) == old(emitted(e, out.content)) ++ tobits(value, bits)
  ensures appended: grew(old(out.content), out.content)
  ensures state: bitstate(e.bitsLeft, e.lastByte)
  var v0 int = 0
  var b0 int = 0
  var c1 []byte = empty([]byte)
  at entry {
    if e.bitsLeft + bits > 64 {
      v0 = band(value, 4294967295)  b0 = 32
      pow2_table(bits - 32)  pow2_table(32)  shift_split(value, 32)
      assert v0 < pow2(b0)  pow2_add32(bits - 32)
      shl_mul(pow2(bits - 32), 32)
      shr_lt(value, pow2(bits - 32), 32)
      shift_split(value, 32)
      shl_mul(shr(value, 32), 32)
      tb_append(shr(value, 32), v0, bits - 32, 32, shl(shr(value, 32), 32))
    } else { v0 = value  b0 = bits  assert v0 < pow2(b0) }
  }
  at beforeloop 1 {
    assert 0 <= e.bitsLeft <= 7
    assert b0 <= 64 && e.bitsLeft + b0 <= 64 && bits == b0
    pow2_table(b0)
    or_disjoint(e.lastByte, v0, e.bitsLeft, b0)
    shl_mul(e.lastByte, b0)
    tb_append(e.lastByte, v0, e.bitsLeft, b0, shl(e.lastByte, b0))
    assert value == shl(e.lastByte, b0) + v0
    assert tobits(value, totalBits + 8) == tobits(e.lastByte, e.bitsLeft) ++ tobits(v0, b0)
    band_full(value, 0, totalBits + 8)
    assert emitted(e, out.content) ++ tobits(v0, b0) == old(emitted(e, out.content)) ++ tobits(old(value), old(bits))
  }
  loop 1
    invariant err == nil
    invariant -8 <= totalBits <= 56 && 0 <= e.bitsLeft <= 7
    invariant grew(old(out.content), out.content)
    invariant unpack(out.content) ++ tobits(band(value, pow2(totalBits + 8) - 1), totalBits + 8) == old(emitted(e, out.content)) ++ tobits(old(value), old(bits))
    decreases totalBits + 8
  at loopbegin 1 { c1 = out.content }
  at step 1 {
    byte_split(value, totalBits)
    shl_mul(b, totalBits)
    tb_append(b, band(value, pow2(totalBits) - 1), 8, totalBits, shl(b, totalBits))
    unpack_build(c1, b)
    unpack1_bits(b)
    assert unpack(out.content) == unpack(c1) ++ tobits(b, 8)
    assert tobits(band(value, pow2(totalBits + 8) - 1), totalBits + 8) == tobits(b, 8) ++ tobits(band(value, pow2(totalBits) - 1), totalBits)
  }
  at exit { if err == nil { pow2_table(e.bitsLeft)  band_byte(value, e.bitsLeft) } }

lemma width_step(x u64, w i64)
  mode bv
  property C01
  requires 0 <= w <= 64
  ensures shr(shr(x, w), 1) == shr(x, w + 1)
  ensures shr(x, w) == 0 ==> x < pow2(w)
  ensures shr(x, w) != 0 ==> w <= 63 && x >= pow2(w)
  ensures shr(x, 0) == x

lemma pow2_mono(a i64, b i64)
  mode bv
  property C01
  requires 0 <= a <= 64
  requires 0 <= b <= 64
  requires a <= b
  ensures pow2(a) <= pow2(b)

func getBitsWidth(x)
  property C01
  ensures 0 <= ret0 <= 64 && x < pow2(ret0)
  ensures least: ret0 > 0 ==> x >= pow2(ret0 - 1)
  loop 1
    invariant 0 <= w <= 64 && x == shr(old(x), w)
    invariant w > 0 ==> old(x) >= pow2(w - 1)
    decreases 64 - w
  at beforeloop 1 { width_step(x, 0) }
  at loopbegin 1 { width_step(old(x), w) }
  at step 1 { width_step(old(x), w - 1) }
  at afterloop 1 { width_step(old(x), w) }

// widths that getAlignedWidth gives, and that the width table has a code for
fn alignedw(w int) bool = w == 0 || w == 1 || w == 2 || w == 4 || w == 8 || w == 12 || w == 16 || w == 24 || w == 32 || w == 40 || w == 48 || w == 56 || w == 64
fn codedw(w int) bool = (1 <= w && w <= 21) || w == 24 || w == 26 || w == 28 || w == 30 || w == 32 || w == 40 || w == 48 || w == 56 || w == 64

func getAlignedWidth(x)
  property C01
  ensures alignedw(ret0) && x < pow2(ret0)
  loop 1
    invariant 0 <= n <= 64 && x == shr(old(x), n)
    decreases 64 - n
  at beforeloop 1 { width_step(x, 0) }
  at loopbegin 1 { width_step(old(x), n) }
  at step 1 { width_step(old(x), n - 1) }
  var n0 int = 0
  at afterloop 1 { width_step(old(x), n)  n0 = n }
  at exit { pow2_mono(n0, ret0) }

func getEncodableWidth(width)
  property C01
  requires width <= 64
  ensures codedw(ret0) && width <= ret0 && ret0 <= 64
  ensures width <= 56 ==> ret0 <= 56

func widthEncoding(width)
  property C01
  requires width == 0 || codedw(width)
  ensures err == nil && ret0 <= 31
  ensures width != 0 ==> iwidth(ret0, false) == width
  ensures width != 1 ==> iwidth(ret0, true) == width
  reveal iwidth

func getRepeats(values)
  property C01
  requires len(values) > 0
  ensures 1 <= ret0 <= len(values)
  ensures values[:ret0] == urep(values[0], ret0)
  at entry { assert values[:1] == snoc(empty([]uint64), values[0])  assert urep(values[0], 0) == empty([]uint64)  assert urep(values[0], 1) == snoc(urep(values[0], 0), values[0]) }
  loop 1
    invariant 1 <= i <= len(values)
    invariant values[:i] == urep(values[0], i)
    decreases len(values) - i
  at step 1 { if values[i] == values[0] { assert values[:i + 1] == snoc(values[:i], values[i]) assert values[:i + 1] == urep(values[0], i + 1) } }
  reveal urep

// bits of a list of values of w bits each
fn flat(V []uint64, w int) []bool rec decreases len(V) = len(V) == 0 ? empty([]bool) : flat(V[:len(V)-1], w) ++ tobits(V[len(V)-1], w)
fn fits(V []uint64, w int) bool opaque = forall i int {V[i]} :: 0 <= i < len(V) ==> V[i] < pow2(w)

lemma flat_snoc(V []uint64, v u64, w int)
  property C01
  ensures flat(snoc(V, v), w) == flat(V, w) ++ tobits(v, w)
  reveal flat
{ assert snoc(V, v)[:len(V)] == V }

lemma flat_nil(w int)
  property C01
  trigger {flat(empty([]uint64), w)}
  ensures flat(empty([]uint64), w) == empty([]bool)
  reveal flat

lemma flat_len(V []uint64, w int)
  property C01
  decreases len(V)
  requires 0 <= w
  ensures len(flat(V, w)) == mul(w, len(V))
  reveal flat
{ if len(V) > 0 { flat_len(V[:len(V)-1], w)  mul_step(w, len(V) - 1) } }

lemma flat_front(V []uint64, w int)
  property C01
  decreases len(V)
  requires len(V) > 0
  ensures flat(V, w) == tobits(V[0], w) ++ flat(V[1:], w)
  reveal flat
{
  if len(V) > 1 {
    flat_front(V[:len(V)-1], w)
    assert V[1:][:len(V)-2] == V[:len(V)-1][1:]
    assert flat(V[1:], w) == flat(V[1:][:len(V)-2], w) ++ tobits(V[len(V)-1], w)
  } else {
    assert V[1:] == empty([]uint64)
    assert V[:0] == empty([]uint64)
  }
}

lemma fits_grow(V []uint64, v u64, w int, w2 int)
  property C01
  requires fits(V, w) && v < pow2(w2) && 0 <= w <= w2 <= 64
  ensures fits(snoc(V, v), w2)
  reveal fits
{ pow2_mono(w, w2) }

lemma fits_nil(w int)
  property C01
  trigger {fits(empty([]uint64), w)}
  ensures fits(empty([]uint64), w)
  reveal fits

lemma fits_at(V []uint64, w int, i int)
  property C01
  requires fits(V, w) && 0 <= i < len(V)
  ensures V[i] < pow2(w) && fits(V[i + 1:], w)
  reveal fits

lemma flat_unb(V []uint64, w int, T []bool)
  property C01
  decreases len(V)
  requires fits(V, w) && 0 <= w <= 64
  ensures unb(flat(V, w) ++ T, w, len(V)) == V
  reveal unb
{
  if len(V) > 0 {
    flat_front(V, w)
    fits_at(V, w, 0)
    flat_unb(V[1:], w, T)
    unb_step(flat(V, w) ++ T, V[0], w, flat(V[1:], w) ++ T, len(V))
    assert V == snoc(empty([]uint64), V[0]) ++ V[1:]
  }
}

// bits that fill the last byte
fn padn(left int) int = left == 0 ? 0 : 8 - left

lemma left_byte(b byte, l i64)
  mode bv
  property C01
  requires 1 <= l <= 7
  requires b < pow2(l)
  ensures u8(shl(b, 8 - l)) == shl(b, 8 - l)

func (e *intRLV2Encoder) forgetBits()
  property C01
  modifies e.bitsLeft, e.lastByte
  ensures e.bitsLeft == 0 && e.lastByte == 0
  ensures bitstate(e.bitsLeft, e.lastByte)

func (e *intRLV2Encoder) writeLeftBits(out)
  property C01
  requires out != nil && bitstate(e.bitsLeft, e.lastByte)
  modifies out.content
  ensures err == nil
  ensures grew(old(out.content), out.content)
  ensures padded: unpack(out.content) == emitted(e, old(out.content)) ++ tobits(0, padn(e.bitsLeft))
  at entry {
    if e.bitsLeft != 0 {
      left_byte(e.lastByte, e.bitsLeft)
      shl_mul(e.lastByte, 8 - e.bitsLeft)
      pow2_table(8 - e.bitsLeft)
      tb_append(e.lastByte, 0, e.bitsLeft, 8 - e.bitsLeft, shl(e.lastByte, 8 - e.bitsLeft))
      unpack_build(out.content, u8(shl(e.lastByte, 8 - e.bitsLeft)))
      unpack1_bits(u8(shl(e.lastByte, 8 - e.bitsLeft)))
    }
  }

// R is one run that stands for the values V
fn irun(R []byte, s bool, V []uint64) bool opaque = len(R) > 0 && iok(R, s) && ilen(R, s) == len(R) && ivals(R, s) == V

lemma head_enc(t byte, ew byte, l i64)
  mode bv
  property C01
  requires 0 <= l <= 511
  requires 0 <= ew <= 31
  requires t <= 3
  ensures bor(bor(u8(shl(t, 6)), u8(shl(band(ew, 31), 1))), band(u8(shr(l, 8)), 1)) == 64 * t + 2 * ew + shr(l, 8)
  ensures shr(l, 8) <= 1
  ensures 256 * shr(l, 8) + u8(l) == l

lemma irun_direct(R []byte, s bool, V []uint64, w int, p int)
  property C01
  requires 1 <= len(V) <= 512 && fits(V, w) && 1 <= w <= 64
  requires len(R) >= 2 && kind(R) == 1 && iwidth(hcode(R), false) == w && hlen(R) == len(V)
  requires 0 <= p <= 7 && unpack(R[2:]) == flat(V, w) ++ tobits(0, p)
  ensures irun(R, s, V)
  reveal irun
{
  run_def(R, s)
  flat_unb(V, w, tobits(0, p))
  flat_len(V, w)
  assert len(unpack(R[2:])) == 8 * (len(R) - 2)
  nb_exact(w, len(V), len(R) - 2, p)
}

func (e *intRLV2Encoder) writeDirect(out, widthAlign)
  property C01
  requires out != nil && widthAlign && 1 <= len(e.values) <= 512
  modifies e.values, e.bitsLeft, e.lastByte, out.content
  ensures err == nil
  ensures grew(old(out.content), out.content)
  ensures run: irun(out.content[len(old(out.content)):], e.signed, old(e.values))
  ensures e.values == empty([]uint64)
  var c1 []byte = empty([]byte)
  var D []byte = empty([]byte)
  var w0 int = 0
  var W int = 0
  var pad int = 0
  var F []bool = empty([]bool)
  loop 1
    invariant 1 <= width <= 64 && codedw(width)
    invariant fits(e.values[:$n], width)
  at beforeloop 1 { assert e.values[:0] == empty([]uint64) }
  at loopbegin 1 { w0 = width }
  at step 1 { pow2_mono(w, width)  fits_grow(e.values[:$n], v, w0, width) assert snoc(e.values[:$n], v) == e.values[:$n + 1] }
  at afterloop 1 { assert e.values[:len(e.values)] == e.values }
  at before call forgetBits {
    W = width
    c1 = out.content
    head_enc(1, encodedWidth, len(e.values) - 1)
    assert c1 == old(out.content) ++ snoc(snoc(empty([]byte), header[0]), header[1])
    assert header[0] == bor(bor(64, u8(shl(band(encodedWidth, 31), 1))), band(u8(shr(len(e.values) - 1, 8)), 1))
    assert header[0] == 64 + 2 * encodedWidth + shr(len(e.values) - 1, 8)
  }
  loop 2
    invariant bitstate(e.bitsLeft, e.lastByte)
    invariant grew(c1, out.content)
    invariant emitted(e, out.content) == unpack(c1) ++ flat(e.values[:$n], width)
  at beforeloop 2 { assert e.values[:0] == empty([]uint64)  assert tobits(0, 0) == empty([]bool) }
  at loopbegin 2 { fits_at(e.values, width, $n) }
  at step 2 { flat_snoc(e.values[:$n], v, width)  assert snoc(e.values[:$n], v) == e.values[:$n + 1] }
  at afterloop 2 { assert e.values[:len(e.values)] == e.values  F = flat(e.values, width) }
  at after call writeLeftBits {
    pad = padn(e.bitsLeft)
    D = out.content[len(c1):]
    assert out.content == c1 ++ D
    unpack_concat(c1, D)
    assert unpack(c1) ++ unpack(D) == unpack(c1) ++ (F ++ tobits(0, pad))
    assert (unpack(c1) ++ unpack(D))[len(unpack(c1)):] == unpack(D)
    assert unpack(D) == F ++ tobits(0, pad)
    assert out.content[len(old(out.content)):] == snoc(snoc(empty([]byte), header[0]), header[1]) ++ D
    head_def(out.content[len(old(out.content)):])
    assert out.content[len(old(out.content)):][2:] == D
    irun_direct(out.content[len(old(out.content)):], e.signed, e.values, W, pad)
  }
  reveal tobits

lemma irun_short(R []byte, s bool, x u64, n int)
  property C01
  requires len(R) > 0 && kind(R) == 0 && len(R) == 1 + srw(R) && be(R[1:]) == x && n == R[0] % 8 + 3
  ensures irun(R, s, urep(x, n))
  reveal irun
{
  run_def(R, s)
  assert R[1:1 + srw(R)] == R[1:]
}

lemma be_snoc(S []byte, b byte)
  property C01
  ensures be(snoc(S, b)) == 256 * be(S) + b
  reveal be
{ assert snoc(S, b)[:len(S)] == S }

lemma top_byte(x u64, j i64)
  mode bv
  property C01
  requires 0 <= j <= 7
  ensures shr(x, 8 * j) == 256 * shr(x, 8 * j + 8) + u8(shr(x, 8 * j))
  ensures x < pow2(8 * j + 8) ==> shr(x, 8 * j + 8) == 0
  ensures x < pow2(8 * j + 8) && u8(shr(x, 8 * j)) == 0 ==> x < pow2(8 * j)
  ensures shr(x, 0) == x
  ensures x < pow2(64)

lemma shr_zero(x u64, k i64)
  mode bv
  property C01
  requires k == 0
  ensures shr(x, k) == x

func writeShortRepeat(count, x, out)
  property C01
  requires out != nil && 0 <= count <= 7
  modifies out.content
  ensures err == nil
  ensures grew(old(out.content), out.content)
  ensures run: irun(out.content[len(old(out.content)):], true, urep(x, count + 3)) && irun(out.content[len(old(out.content)):], false, urep(x, count + 3))
  var c1 []byte = empty([]byte)
  var S []byte = empty([]byte)
  loop 1
    invariant 0 <= j <= 7 && w == 0
    invariant x < pow2(8 * j + 8)
    decreases j
  at beforeloop 1 { top_byte(x, 7) }
  at step 1 { top_byte(x, j) assert 8 * (j - 1) + 8 == 8 * j }
  at afterloop 1 { assert 0 <= w <= 7 && x < pow2(8 * w + 8) }
  loop 2
    invariant -1 <= j <= w && 0 <= w <= 7
    invariant grew(c1, out.content) && len(out.content) == len(c1) + w - j
    invariant be(out.content[len(c1):]) == shr(x, 8 * j + 8)
    decreases j + 1
  at beforeloop 2 { c1 = out.content  top_byte(x, w)  assert out.content[len(c1):] == empty([]byte)  assert be(empty([]byte)) == 0 }
  at loopbegin 2 { S = out.content[len(c1):] }
  at step 2 { top_byte(x, j)  be_snoc(S, u8(shr(x, 8 * j)))  assert out.content[len(c1):] == snoc(S, u8(shr(x, 8 * j)))  assert 8 * (j - 1) + 8 == 8 * j }
  at afterloop 2 {
    assert 8 * j + 8 == 0
    shr_zero(x, 8 * j + 8)
    S = out.content[len(old(out.content)):]
    assert S == snoc(empty([]byte), header) ++ out.content[len(c1):]
    assert S[1:] == out.content[len(c1):]
    irun_short(S, true, x, count + 3)
    irun_short(S, false, x, count + 3)
  }
  reveal be

lemma fits_up(V []uint64, w int, w2 int)
  property C01
  requires fits(V, w) && 0 <= w <= w2 <= 64
  ensures fits(V, w2)
  reveal fits
{ pow2_mono(w, w2) }

lemma flat_concat(A []uint64, B []uint64, w int)
  property C01
  decreases len(B)
  ensures flat(A ++ B, w) == flat(A, w) ++ flat(B, w)
  reveal flat
{
  if len(B) > 0 {
    flat_concat(A, B[:len(B)-1], w)
    assert (A ++ B)[:len(A) + len(B) - 1] == A ++ B[:len(B)-1]
  } else { assert A ++ B == A }
}

// values that follow prev, by their differences
fn lseq(s bool, neg bool, prev int, D []uint64) []uint64 rec decreases len(D) = len(D) == 0 ? empty([]uint64) : snoc(empty([]uint64), nextv(s, neg, prev, D[0])) ++ lseq(s, neg, nextv(s, neg, prev, D[0]), D[1:])

lemma lseq_vseq(s bool, neg bool, prev int, D []uint64, w int, T []bool)
  property C01
  decreases len(D)
  requires fits(D, w) && 0 <= w <= 64
  ensures vseq(s, neg, prev, flat(D, w) ++ T, w, len(D)) == lseq(s, neg, prev, D)
  reveal lseq
{
  if len(D) > 0 {
    flat_front(D, w)
    fits_at(D, w, 0)
    lseq_vseq(s, neg, nextv(s, neg, prev, D[0]), D[1:], w, T)
    vseq_step(s, neg, prev, flat(D, w) ++ T, D[0], w, flat(D[1:], w) ++ T, len(D))
  } else { vseq_nil(s, neg, prev, flat(D, w) ++ T, w, len(D)) }
}

// values of a delta run of n values
fn dvals(s bool, u int, db int, n int, D []uint64) []uint64 opaque = snoc(snoc(empty([]uint64), u), nextv(s, db < 0, u, abs(db))) ++ (len(D) == 0 ? fseq(s, db < 0, nextv(s, db < 0, u, abs(db)), abs(db), n - 2) : lseq(s, db < 0, nextv(s, db < 0, u, abs(db)), D))

lemma nb_w0(w int, n int)
  property C01
  requires w == 0
  ensures nbytes(w, n) == 0
  reveal nbytes, mul

lemma irun_delta(R []byte, s bool, F []byte, B []byte, X []byte, u u64, db i64, n int, D []uint64, w int, p int)
  property C01
  requires isuv(F, u) && len(F) <= 10 && isuv(B, zz(db)) && len(B) <= 10
  requires len(R) >= 2 && R[2:] == F ++ B ++ X
  requires kind(R) == 3 && iwidth(hcode(R), true) == w && hlen(R) == n && 2 <= n <= 512
  requires len(D) == 0 && w == 0 && len(X) == 0 || len(D) > 0 && len(D) == n - 2 && 2 <= w <= 64 && fits(D, w)
  requires 0 <= p <= 7 && unpack(X) == flat(D, w) ++ tobits(0, p)
  ensures irun(R, s, dvals(s, u, db, n, D))
  reveal irun, dvals
{
  run_def(R, s)
  delta_def(R, s)
  devals_def(R, s)
  zz_bijection(db, 0)
  assert R[2:] == F ++ (B ++ X)
  uv_prefix(F, B ++ X)
  uv_prefix(B, X)
  assert de1(R) == B ++ X
  assert de2(R) == X
  assert ddelta(R) == db
  if len(D) > 0 {
    flat_len(D, w)
    assert len(unpack(X)) == 8 * len(X)
    nb_exact(w, len(D), len(X), p)
    lseq_vseq(s, db < 0, nextv(s, db < 0, u, abs(db)), D, w, tobits(0, p))
  } else { nb_w0(w, max(n - 2, 0)) }
}

lemma pack2(hi byte, d byte, j i64)
  mode bv
  property C01
  requires 0 <= j <= 3
  requires hi < pow2(6 - 2 * j)
  requires d <= 3
  ensures bor(u8(shl(hi, 2 * j + 2)), u8(shl(d, 2 * j))) == shl(4 * hi + d, 2 * j)
  ensures shl(4 * hi + d, 2 * j) <= 255
  ensures 4 * hi + d < pow2(8 - 2 * j)
  ensures shl(hi, 2 * j + 2) <= 255

func writeDelta(out, first, deltaBase, length, deltas)
  property C01
  requires out != nil && isuv(first, uvval(first)) && len(first) <= 10 && 0 <= uvval(first) <= 18446744073709551615
  requires 2 <= length <= 512
  requires len(deltas) == 0 || len(deltas) == length - 2
  modifies out.content
  ensures err == nil
  ensures grew(old(out.content), out.content)
  ensures run: irun(out.content[len(old(out.content)):], true, dvals(true, uvval(first), deltaBase, length, deltas)) && irun(out.content[len(old(out.content)):], false, dvals(false, uvval(first), deltaBase, length, deltas))
  var w0 int = 0
  var c1 []byte = empty([]byte)
  var cc []byte = empty([]byte)
  var S []byte = empty([]byte)
  var X []byte = empty([]byte)
  var R []byte = empty([]byte)
  var c0 int = 0
  var pp int = 0
  var hi int = 0
  var d int = 0
  loop 1
    invariant alignedw(width) && ($n == 0 ==> width == 0)
    invariant fits(deltas[:$n], width)
  at beforeloop 1 { assert deltas[:0] == empty([]uint64) }
  at loopbegin 1 { w0 = width }
  at step 1 { pow2_mono(bits, max(bits, width))  fits_grow(deltas[:$n], v, w0, width)  assert snoc(deltas[:$n], v) == deltas[:$n + 1] }
  at afterloop 1 { assert deltas[:len(deltas)] == deltas  w0 = width  fits_up(deltas, width, max(width, 2))  if width == 12 { fits_up(deltas, width, 16) } }
  at before call PutVarint { assert len(deltas) == 0 ==> width == 0  assert (width == 0 && len(deltas) == 0 || width >= 2 && alignedw(width) && width != 12) && fits(deltas, width) }
  loop 2
    invariant 0 <= c <= len(deltas) && grew(c1, out.content)
    invariant 0 <= pp <= 7 && (c < len(deltas) ==> pp == 0)
    invariant unpack(out.content) == unpack(c1) ++ flat(deltas[:c], width) ++ tobits(0, pp)
    decreases len(deltas) - c
  at beforeloop 2 { c1 = out.content  assert deltas[:0] == empty([]uint64)  assert tobits(0, 0) == empty([]bool) }
  at loopbegin 2 { cc = out.content  c0 = c  d = deltas[c]  fits_at(deltas, width, c)  assert tobits(0, 0) == empty([]bool)  assert unpack(cc) == unpack(c1) ++ flat(deltas[:c], width) }
  loop 3
    invariant -1 <= j <= 3 && c - c0 == 3 - j && c <= len(deltas) && 0 <= hi && hi < pow2(6 - 2 * j) && hi <= 255
    invariant v == shl(hi, 2 * j + 2) && v <= 255
    invariant tobits(hi, 6 - 2 * j) == flat(deltas[c0:c], 2)
    decreases j + 1
  at beforeloop 3 { hi = 0  assert deltas[c0:c] == empty([]uint64)  shl_mul(0, 8)  pow2_table(6 - 2 * j) }
  at loopbegin 3 { fits_at(deltas, 2, c)  pow2_table(2) }
  at step 3 {
    pack2(hi, deltas[c - 1], j)
    pow2_table(8 - 2 * j)
    tb_append(hi, deltas[c - 1], 6 - 2 * j, 2, 4 * hi)
    flat_snoc(deltas[c0:c - 1], deltas[c - 1], 2)
    assert snoc(deltas[c0:c - 1], deltas[c - 1]) == deltas[c0:c]
    hi = 4 * hi + deltas[c - 1]
  }
  at afterloop 3 {
    shl_mul(hi, 2 * j + 2)
    pow2_table(2 * j + 2)
    tb_append(hi, 0, 6 - 2 * j, 2 * j + 2, shl(hi, 2 * j + 2))
    pp = 2 * j + 2
    assert tobits(v, 8) == flat(deltas[c0:c], 2) ++ tobits(0, pp)
    flat_concat(deltas[:c0], deltas[c0:c], 2)
    assert deltas[:c0] ++ deltas[c0:c] == deltas[:c]
  }
  loop 4
    invariant -1 <= j <= 1 && grew(cc, out.content) && c == c0
    invariant unpack(out.content) == unpack(cc) ++ tobits(shr(d, 8 * j + 8), 8 - 8 * j)
    decreases j + 1
  at beforeloop 4 { assert tobits(shr(d, 8 * j + 8), 0) == empty([]bool) }
  at loopbegin 4 { S = out.content }
  at step 4 {
    top_byte(d, j)
    tb_append(shr(d, 8 * j + 8), u8(shr(d, 8 * j)), 8 - 8 * j, 8, 256 * shr(d, 8 * j + 8))
    pow2_table(8)
    unpack_build(S, u8(shr(d, 8 * j)))
    unpack1_bits(u8(shr(d, 8 * j)))
    assert out.content == snoc(S, u8(shr(d, 8 * j)))
    assert 8 * (j - 1) + 8 == 8 * j
  }
  at afterloop 4 { assert 8 * j + 8 == 0  shr_zero(d, 8 * j + 8)  assert unpack(out.content) == unpack(cc) ++ tobits(d, 16) }
  loop 5
    invariant -1 <= j <= 2 && grew(cc, out.content) && c == c0
    invariant unpack(out.content) == unpack(cc) ++ tobits(shr(d, 8 * j + 8), 16 - 8 * j)
    decreases j + 1
  at beforeloop 5 { assert tobits(shr(d, 8 * j + 8), 0) == empty([]bool) }
  at loopbegin 5 { S = out.content }
  at step 5 {
    top_byte(d, j)
    tb_append(shr(d, 8 * j + 8), u8(shr(d, 8 * j)), 16 - 8 * j, 8, 256 * shr(d, 8 * j + 8))
    pow2_table(8)
    unpack_build(S, u8(shr(d, 8 * j)))
    unpack1_bits(u8(shr(d, 8 * j)))
    assert out.content == snoc(S, u8(shr(d, 8 * j)))
    assert 8 * (j - 1) + 8 == 8 * j
  }
  at afterloop 5 { assert 8 * j + 8 == 0  shr_zero(d, 8 * j + 8)  assert unpack(out.content) == unpack(cc) ++ tobits(d, 24) }
  loop 6
    invariant -1 <= j <= 3 && grew(cc, out.content) && c == c0
    invariant unpack(out.content) == unpack(cc) ++ tobits(shr(d, 8 * j + 8), 24 - 8 * j)
    decreases j + 1
  at beforeloop 6 { assert tobits(shr(d, 8 * j + 8), 0) == empty([]bool) }
  at loopbegin 6 { S = out.content }
  at step 6 {
    top_byte(d, j)
    tb_append(shr(d, 8 * j + 8), u8(shr(d, 8 * j)), 24 - 8 * j, 8, 256 * shr(d, 8 * j + 8))
    pow2_table(8)
    unpack_build(S, u8(shr(d, 8 * j)))
    unpack1_bits(u8(shr(d, 8 * j)))
    assert out.content == snoc(S, u8(shr(d, 8 * j)))
    assert 8 * (j - 1) + 8 == 8 * j
  }
  at afterloop 6 { assert 8 * j + 8 == 0  shr_zero(d, 8 * j + 8)  assert unpack(out.content) == unpack(cc) ++ tobits(d, 32) }
  loop 7
    invariant -1 <= j <= 4 && grew(cc, out.content) && c == c0
    invariant unpack(out.content) == unpack(cc) ++ tobits(shr(d, 8 * j + 8), 32 - 8 * j)
    decreases j + 1
  at beforeloop 7 { assert tobits(shr(d, 8 * j + 8), 0) == empty([]bool) }
  at loopbegin 7 { S = out.content }
  at step 7 {
    top_byte(d, j)
    tb_append(shr(d, 8 * j + 8), u8(shr(d, 8 * j)), 32 - 8 * j, 8, 256 * shr(d, 8 * j + 8))
    pow2_table(8)
    unpack_build(S, u8(shr(d, 8 * j)))
    unpack1_bits(u8(shr(d, 8 * j)))
    assert out.content == snoc(S, u8(shr(d, 8 * j)))
    assert 8 * (j - 1) + 8 == 8 * j
  }
  at afterloop 7 { assert 8 * j + 8 == 0  shr_zero(d, 8 * j + 8)  assert unpack(out.content) == unpack(cc) ++ tobits(d, 40) }
  loop 8
    invariant -1 <= j <= 5 && grew(cc, out.content) && c == c0
    invariant unpack(out.content) == unpack(cc) ++ tobits(shr(d, 8 * j + 8), 40 - 8 * j)
    decreases j + 1
  at beforeloop 8 { assert tobits(shr(d, 8 * j + 8), 0) == empty([]bool) }
  at loopbegin 8 { S = out.content }
  at step 8 {
    top_byte(d, j)
    tb_append(shr(d, 8 * j + 8), u8(shr(d, 8 * j)), 40 - 8 * j, 8, 256 * shr(d, 8 * j + 8))
    pow2_table(8)
    unpack_build(S, u8(shr(d, 8 * j)))
    unpack1_bits(u8(shr(d, 8 * j)))
    assert out.content == snoc(S, u8(shr(d, 8 * j)))
    assert 8 * (j - 1) + 8 == 8 * j
  }
  at afterloop 8 { assert 8 * j + 8 == 0  shr_zero(d, 8 * j + 8)  assert unpack(out.content) == unpack(cc) ++ tobits(d, 48) }
  loop 9
    invariant -1 <= j <= 6 && grew(cc, out.content) && c == c0
    invariant unpack(out.content) == unpack(cc) ++ tobits(shr(d, 8 * j + 8), 48 - 8 * j)
    decreases j + 1
  at beforeloop 9 { assert tobits(shr(d, 8 * j + 8), 0) == empty([]bool) }
  at loopbegin 9 { S = out.content }
  at step 9 {
    top_byte(d, j)
    tb_append(shr(d, 8 * j + 8), u8(shr(d, 8 * j)), 48 - 8 * j, 8, 256 * shr(d, 8 * j + 8))
    pow2_table(8)
    unpack_build(S, u8(shr(d, 8 * j)))
    unpack1_bits(u8(shr(d, 8 * j)))
    assert out.content == snoc(S, u8(shr(d, 8 * j)))
    assert 8 * (j - 1) + 8 == 8 * j
  }
  at afterloop 9 { assert 8 * j + 8 == 0  shr_zero(d, 8 * j + 8)  assert unpack(out.content) == unpack(cc) ++ tobits(d, 56) }
  loop 10
    invariant -1 <= j <= 7 && grew(cc, out.content) && c == c0
    invariant unpack(out.content) == unpack(cc) ++ tobits(shr(d, 8 * j + 8), 56 - 8 * j)
    decreases j + 1
  at beforeloop 10 { assert tobits(shr(d, 8 * j + 8), 0) == empty([]bool) }
  at loopbegin 10 { S = out.content }
  at step 10 {
    top_byte(d, j)
    tb_append(shr(d, 8 * j + 8), u8(shr(d, 8 * j)), 56 - 8 * j, 8, 256 * shr(d, 8 * j + 8))
    pow2_table(8)
    unpack_build(S, u8(shr(d, 8 * j)))
    unpack1_bits(u8(shr(d, 8 * j)))
    assert out.content == snoc(S, u8(shr(d, 8 * j)))
    assert 8 * (j - 1) + 8 == 8 * j
  }
  at afterloop 10 { assert 8 * j + 8 == 0  shr_zero(d, 8 * j + 8)  assert unpack(out.content) == unpack(cc) ++ tobits(d, 64) }
  at step 2 {
    pow2_table(width)
    if width == 2 {
      unpack_build(cc, v)
      unpack1_bits(v)
      assert out.content == snoc(cc, v)
      assert unpack(out.content) == unpack(c1) ++ flat(deltas[:c], width) ++ tobits(0, pp)
    } else { if width == 4 {
      unpack_build(cc, v)
      unpack1_bits(v)
      assert out.content == snoc(cc, v)
      pow2_table(4)
      flat_snoc(deltas[:c0], d, 4)
      assert snoc(deltas[:c0], d) == deltas[:c0 + 1]
      if c == c0 + 2 {
        fits_at(deltas, width, c0 + 1)
        tb_append(d, deltas[c0 + 1], 4, 4, 16 * d)
        flat_snoc(deltas[:c0 + 1], deltas[c0 + 1], 4)
        assert snoc(deltas[:c0 + 1], deltas[c0 + 1]) == deltas[:c0 + 2]
        assert v == 16 * d + deltas[c0 + 1]
        assert unpack(out.content) == unpack(c1) ++ flat(deltas[:c], width) ++ tobits(0, pp)
      } else {
        tb_append(d, 0, 4, 4, 16 * d)
        assert v == 16 * d
        pp = 4
        assert unpack(out.content) == unpack(c1) ++ flat(deltas[:c], width) ++ tobits(0, pp)
      }
    } else {
      if width == 8 {
        unpack_build(cc, v)
        unpack1_bits(v)
        assert v == d
        assert out.content == snoc(cc, v)
      }
      flat_snoc(deltas[:c0], d, width)
      assert snoc(deltas[:c0], d) == deltas[:c0 + 1]
      assert unpack(out.content) == unpack(cc) ++ tobits(d, width)
      assert pp == 0 && c == c0 + 1
      assert unpack(out.content) == unpack(c1) ++ flat(deltas[:c], width) ++ tobits(0, pp)
    } }
  }
  at afterloop 2 {
    assert deltas[:len(deltas)] == deltas
    X = out.content[len(c1):]
    R = out.content[len(old(out.content)):]
    unpack_concat(c1, X)
    assert out.content == c1 ++ X
    assert unpack(c1) ++ unpack(X) == unpack(c1) ++ (flat(deltas, width) ++ tobits(0, pp))
    assert (unpack(c1) ++ unpack(X))[len(unpack(c1)):] == unpack(X)
    assert unpack(X) == flat(deltas, width) ++ tobits(0, pp)
    head_enc(3, w, length)
    assert R == snoc(snoc(empty([]byte), h1), h2) ++ first ++ db[:n] ++ X
    head_def(R)
    assert R[2:] == first ++ db[:n] ++ X
    irun_delta(R, true, first, db[:n], X, uvval(first), deltaBase, length + 1, deltas, width, pp)
    irun_delta(R, false, first, db[:n], X, uvval(first), deltaBase, length + 1, deltas, width, pp)
  }
  reveal tobits

lemma lseq_snoc0(s bool, neg bool, prev int, d u64)
  property C01
  ensures lseq(s, neg, prev, snoc(empty([]uint64), d)) == snoc(empty([]uint64), nextv(s, neg, prev, d))
  reveal lseq
{
  assert snoc(empty([]uint64), d)[1:] == empty([]uint64)
  assert lseq(s, neg, nextv(s, neg, prev, d), empty([]uint64)) == empty([]uint64)
}

lemma lseq_len(s bool, neg bool, prev int, D []uint64)
  property C01
  decreases len(D)
  ensures len(lseq(s, neg, prev, D)) == len(D)
  reveal lseq
{
  if len(D) > 0 { lseq_len(s, neg, nextv(s, neg, prev, D[0]), D[1:]) }
}

lemma lseq_snoc1(s bool, neg bool, prev int, D []uint64, d u64)
  property C01
  decreases len(D)
  requires len(D) > 0
  ensures lseq(s, neg, prev, snoc(D, d)) == snoc(lseq(s, neg, prev, D), nextv(s, neg, lseq(s, neg, prev, D)[len(D)-1], d))
  reveal lseq
{
  var p1 = nextv(s, neg, prev, D[0])
  lseq_len(s, neg, prev, D)
  lseq_len(s, neg, p1, D[1:])
  assert snoc(D, d)[1:] == snoc(D[1:], d)
  assert snoc(D, d)[0] == D[0]
  assert lseq(s, neg, prev, snoc(D, d)) == snoc(empty([]uint64), p1) ++ lseq(s, neg, p1, snoc(D[1:], d))
  assert lseq(s, neg, prev, D) == snoc(empty([]uint64), p1) ++ lseq(s, neg, p1, D[1:])
  if len(D) > 1 {
    lseq_snoc1(s, neg, p1, D[1:], d)
    assert lseq(s, neg, prev, D)[len(D)-1] == lseq(s, neg, p1, D[1:])[len(D)-2]
  } else {
    assert D[1:] == empty([]uint64)
    lseq_snoc0(s, neg, p1, d)
    assert lseq(s, neg, prev, D) == snoc(empty([]uint64), p1)
    assert lseq(s, neg, prev, D)[0] == p1
  }
}

// the difference that leads from a to b
lemma next_up_s(a u64, b u64)
  property C01
  ensures unzz(b) >= unzz(a) ==> nextv(true, false, a, u64(i64(unzz(b) - unzz(a)))) == b
  ensures unzz(b) < unzz(a) ==> nextv(true, true, a, u64(i64(unzz(a) - unzz(b)))) == b
  reveal repr, valu
{ zz_bijection(0, a)  zz_bijection(0, b) }

lemma next_up_u(a u64, b u64)
  property C01
  ensures b >= a ==> nextv(false, false, a, b - a) == b
  ensures b < a ==> nextv(false, true, a, a - b) == b
  reveal repr, valu

lemma next_base_s(a u64, b u64, d i64)
  property C01
  requires d == i64(unzz(b) - unzz(a))
  ensures nextv(true, d < 0, a, abs(d)) == b
  ensures a != b ==> d != 0
  reveal repr, valu
{ zz_bijection(0, a)  zz_bijection(0, b) }

lemma next_base_u(a u64, b u64, d i64)
  property C01
  requires a < b && d == i64(b - a) || b < a && d == i64(0 - i64(a - b))
  ensures nextv(false, d < 0, a, abs(d)) == b
  ensures d != 0
  reveal repr, valu

lemma dvals_def(s bool, u u64, db i64, n int, D []uint64)
  property C01
  ensures len(D) > 0 ==> dvals(s, u, db, n, D) == snoc(snoc(empty([]uint64), u), nextv(s, db < 0, u, abs(db))) ++ lseq(s, db < 0, nextv(s, db < 0, u, abs(db)), D)
  ensures len(D) == 0 ==> dvals(s, u, db, n, D) == snoc(snoc(empty([]uint64), u), nextv(s, db < 0, u, abs(db))) ++ fseq(s, db < 0, nextv(s, db < 0, u, abs(db)), abs(db), n - 2)
  reveal dvals

func tryDeltaEncoding(signed, values, dv)
  property C01
  requires dv != nil && len(dv.deltas) == 0 && len(values) <= 512
  modifies dv.base, dv.length, dv.deltas
  ensures ret0 ==> 3 <= dv.length <= len(values) && len(dv.deltas) == dv.length - 2
  ensures run: ret0 ==> dvals(signed, values[0], dv.base, dv.length, dv.deltas) == values[:dv.length]
  var neg bool = false
  var D []uint64 = empty([]uint64)
  loop 1
    invariant 3 <= i <= len(values) && dv.length == i && len(dv.deltas) == i - 2 && dv.base != 0
    invariant nextv(signed, dv.base < 0, values[0], abs(dv.base)) == values[1]
    invariant lseq(signed, dv.base < 0, values[1], dv.deltas) == values[2:i]
    decreases len(values) - i
  at entry {
    if len(values) > 2 && values[0] != values[1] {
      if signed {
        next_base_s(values[0], values[1], i64(unzz(values[1]) - unzz(values[0])))
        next_up_s(values[1], values[2])
      } else {
        if values[0] < values[1] { next_base_u(values[0], values[1], i64(values[1] - values[0])) } else { next_base_u(values[0], values[1], i64(0 - i64(values[0] - values[1]))) }
        next_up_u(values[1], values[2])
      }
    }
  }
  at beforeloop 1 {
    assert dv.base != 0
    assert len(dv.deltas) == 1
    lseq_snoc0(signed, dv.base < 0, values[1], dv.deltas[0])
    assert dv.deltas == snoc(empty([]uint64), dv.deltas[0])
    assert lseq(signed, dv.base < 0, values[1], empty([]uint64)) == empty([]uint64)
    assert nextv(signed, dv.base < 0, values[1], dv.deltas[0]) == values[2]
    assert values[2:3] == snoc(empty([]uint64), values[2])
  }
  at loopbegin 1 {
    D = dv.deltas
    if signed { next_up_s(values[i - 1], values[i]) } else { next_up_u(values[i - 1], values[i]) }
  }
  at loopend 1 {
    lseq_len(signed, dv.base < 0, values[1], D)
    lseq_snoc1(signed, dv.base < 0, values[1], D, dv.deltas[len(dv.deltas) - 1])
    assert dv.deltas == snoc(D, dv.deltas[len(dv.deltas) - 1])
    assert lseq(signed, dv.base < 0, values[1], D)[len(D) - 1] == values[i - 1]
    assert nextv(signed, dv.base < 0, values[i - 1], dv.deltas[len(dv.deltas) - 1]) == values[i]
    assert values[2:i + 1] == snoc(values[2:i], values[i])
  }
  at afterloop 1 {
    dvals_def(signed, values[0], dv.base, dv.length, dv.deltas)
    assert values[:dv.length] == snoc(snoc(empty([]uint64), values[0]), values[1]) ++ values[2:dv.length]
  }
  reveal lseq
