// Integer run-length encoding version 2: the format, and the decoder
package encoding

fn iwidth(code int, delta bool) int opaque = code == 0 ? (delta ? 0 : 1) : code <= 23 ? code + 1 : code == 24 ? 26 : code == 25 ? 28 : code == 26 ? 30 : code == 27 ? 32 : code == 28 ? 40 : code == 29 ? 48 : code == 30 ? 56 : 64

lemma iwidth_range(code int, delta bool)
  property C05
  trigger {iwidth(code, delta)}
  requires 0 <= code <= 31
  ensures 0 <= iwidth(code, delta) <= 64
  ensures iwidth(code, delta) == 0 <==> code == 0 && delta
  reveal iwidth

func widthDecoding(encodedWidth, delta)
  property C05, C15
  requires encodedWidth <= 31
  ensures err == nil && ret0 == iwidth(encodedWidth, delta)
  reveal iwidth

// n values of w bits each
fn unb(B []bool, w int, n int) []uint64 rec decreases n = n <= 0 ? empty([]uint64) : snoc(empty([]uint64), numb(B[:w])) ++ unb(B[w:], w, n - 1)

// big endian number
fn be(S []byte) int rec decreases len(S) = len(S) == 0 ? 0 : 256 * be(S[:len(S)-1]) + S[len(S)-1]

// same value n times
fn urep(v u64, n int) []uint64 rec decreases n = n <= 0 ? empty([]uint64) : snoc(urep(v, n - 1), v)

// value of a run as kept by the coder: zigzag code if signed
fn repr(s bool, x int) int opaque = s ? zz(i64(x)) : u64(x)
fn valu(s bool, u int) int opaque = s ? unzz(u) : u

// next value of a delta run
fn nextv(s bool, neg bool, prev int, m int) int = repr(s, neg ? valu(s, prev) - m : valu(s, prev) + m)
fn fseq(s bool, neg bool, prev int, m int, n int) []uint64 rec decreases n = n <= 0 ? empty([]uint64) : snoc(empty([]uint64), nextv(s, neg, prev, m)) ++ fseq(s, neg, nextv(s, neg, prev, m), m, n - 1)
fn vseq(s bool, neg bool, prev int, B []bool, w int, n int) []uint64 rec decreases n = n <= 0 ? empty([]uint64) : snoc(empty([]uint64), nextv(s, neg, prev, numb(B[:w]))) ++ vseq(s, neg, nextv(s, neg, prev, numb(B[:w])), B[w:], w, n - 1)

// bits and bytes taken by n values of w bits
fn mul(w int, n int) int opaque = w * n
fn nbytes(w int, n int) int opaque = (mul(w, n) + 7) / 8

lemma mul_step(w int, n int)
  property C05
  ensures mul(w, n + 1) == mul(w, n) + w
  reveal mul

lemma mul_zero(w int)
  property C05
  trigger {mul(w, 0)}
  ensures mul(w, 0) == 0
  reveal mul

// short repeat
fn srw(E []byte) int = E[0] / 8 % 8 + 1
fn srok(E []byte) bool = len(E) > srw(E)
fn srlen(E []byte) int = 1 + srw(E)
fn srvals(E []byte) []uint64 = urep(be(E[1:1 + srw(E)]), 3 + E[0] % 8)

// direct
fn hcode(E []byte) int opaque = E[0] / 2 % 32
fn hlen(E []byte) int opaque = E[0] % 2 * 256 + E[1] + 1
fn dilen(E []byte) int = 2 + nbytes(iwidth(hcode(E), false), hlen(E))
fn diok(E []byte) bool = len(E) >= 2 && dilen(E) <= len(E)
fn divals(E []byte) []uint64 = unb(unpack(E[2:]), iwidth(hcode(E), false), hlen(E))

// delta
fn varok(E []byte) bool = uvok(E) && uvlen(E) <= 10 && uvval(E) <= 18446744073709551615
fn de1(E []byte) []byte opaque = E[2:][uvlen(E[2:]):]
fn de2(E []byte) []byte opaque = de1(E)[uvlen(de1(E)):]
fn dbase(E []byte, s bool) int = uvval(E[2:])
fn ddelta(E []byte) int opaque = unzz(uvval(de1(E)))
fn dneg(E []byte) bool = ddelta(E) < 0
fn dsec(E []byte, s bool) int opaque = nextv(s, dneg(E), uvval(E[2:]), abs(ddelta(E)))
fn deok(E []byte) bool = len(E) >= 2 && varok(E[2:]) && varok(de1(E)) && nbytes(iwidth(hcode(E), true), max(hlen(E) - 2, 0)) <= len(de2(E))
fn delen(E []byte) int = len(E) - len(de2(E)) + nbytes(iwidth(hcode(E), true), max(hlen(E) - 2, 0))
fn detail(E []byte, s bool) []uint64 = iwidth(hcode(E), true) == 0 ? fseq(s, dneg(E), dsec(E, s), abs(ddelta(E)), hlen(E) - 2) : vseq(s, dneg(E), dsec(E, s), unpack(de2(E)), iwidth(hcode(E), true), hlen(E) - 2)
fn devals(E []byte, s bool) []uint64 opaque = hlen(E) == 1 ? snoc(empty([]uint64), uvval(E[2:])) : snoc(snoc(empty([]uint64), uvval(E[2:])), dsec(E, s)) ++ detail(E, s)

// patched base
fn pbw(E []byte) int opaque = E[2] / 32 + 1
fn ppw(E []byte) int opaque = iwidth(E[2] % 32, false)
fn pgw(E []byte) int opaque = E[3] / 32 + 1
fn pll(E []byte) int opaque = E[3] % 32
fn pw(E []byte) int opaque = iwidth(hcode(E), false)
fn pmag(E []byte) int = be(upd(E[4:4 + pbw(E)], 0, E[4] % 128))
fn pbase(E []byte) int opaque = E[4] >= 128 ? 0 - pmag(E) : pmag(E)
fn pe1(E []byte) []byte opaque = E[4 + pbw(E):]
fn pe2(E []byte) []byte opaque = pe1(E)[nbytes(pw(E), hlen(E)):]
fn plen(E []byte) int = 4 + pbw(E) + nbytes(pw(E), hlen(E)) + nbytes(pgw(E) + ppw(E), pll(E))
fn pvals0(B []bool, s bool, base int, w int, n int) []uint64 rec decreases n = n <= 0 ? empty([]uint64) : snoc(empty([]uint64), repr(s, base + numb(B[:w]))) ++ pvals0(B[w:], s, base, w, n - 1)
// value with its patch
fn patchv(s bool, u int, base int, p int, w int) int = repr(s, base + bor(i64(i64(valu(s, u)) - base), i64(shl(p, w))))
fn ppos(pp int, mark int, w int) int = mark + shr(pp, w)
fn patched(V []uint64, mark int, B []bool, s bool, base int, w int, g int, p int, n int) []uint64 rec decreases n = n <= 0 ? V : patched(upd(V, ppos(numb(B[:g + p]), mark, p), patchv(s, V[ppos(numb(B[:g + p]), mark, p)], base, band(numb(B[:g + p]), pow2(p) - 1), w)), ppos(numb(B[:g + p]), mark, p), B[g + p:], s, base, w, g, p, n - 1)
fn pinside(B []bool, mark int, L int, g int, p int, n int) bool rec decreases n = n <= 0 || (ppos(numb(B[:g + p]), mark, p) < L && pinside(B[g + p:], ppos(numb(B[:g + p]), mark, p), L, g, p, n - 1))
fn pok(E []byte) bool = len(E) >= 4 && pgw(E) + ppw(E) <= 64 && plen(E) <= len(E) && pinside(unpack(pe2(E)), 0, hlen(E), pgw(E), ppw(E), pll(E))
fn pvals(E []byte, s bool) []uint64 = patched(pvals0(unpack(pe1(E)), s, pbase(E), pw(E), hlen(E)), 0, unpack(pe2(E)), s, pbase(E), pw(E), pgw(E), ppw(E), pll(E))

// a run of any kind
fn kind(E []byte) int = E[0] / 64
fn iok(E []byte, s bool) bool opaque = len(E) > 0 && (kind(E) == 0 ? srok(E) : kind(E) == 1 ? diok(E) : kind(E) == 3 ? deok(E) : pok(E))
fn ilen(E []byte, s bool) int opaque = kind(E) == 0 ? srlen(E) : kind(E) == 1 ? dilen(E) : kind(E) == 3 ? delen(E) : plen(E)
fn ivals(E []byte, s bool) []uint64 opaque = kind(E) == 0 ? srvals(E) : kind(E) == 1 ? divals(E) : kind(E) == 3 ? devals(E, s) : pvals(E, s)

lemma run_def(E []byte, s bool)
  property C05
  requires len(E) > 0
  ensures kind(E) == 0 ==> (iok(E, s) <==> srok(E)) && ilen(E, s) == srlen(E) && ivals(E, s) == srvals(E)
  ensures kind(E) == 1 ==> (iok(E, s) <==> diok(E)) && ilen(E, s) == dilen(E) && ivals(E, s) == divals(E)
  ensures kind(E) == 3 ==> (iok(E, s) <==> deok(E)) && ilen(E, s) == delen(E) && ivals(E, s) == devals(E, s)
  ensures kind(E) == 2 ==> (iok(E, s) <==> pok(E)) && ilen(E, s) == plen(E) && ivals(E, s) == pvals(E, s)
  reveal iok, ilen, ivals

lemma iok_nonempty(E []byte, s bool)
  property C05
  requires iok(E, s)
  ensures len(E) > 0
  reveal iok

lemma head_def(E []byte)
  property C05
  ensures hcode(E) == E[0] / 2 % 32 && hlen(E) == E[0] % 2 * 256 + E[1] + 1
  ensures 0 <= hcode(E) <= 31 && 1 <= hlen(E) <= 512
  reveal hcode, hlen

lemma delta_def(E []byte, s bool)
  property C05
  ensures de1(E) == E[2:][uvlen(E[2:]):] && de2(E) == de1(E)[uvlen(de1(E)):] && ddelta(E) == unzz(uvval(de1(E)))
  ensures dsec(E, s) == nextv(s, dneg(E), uvval(E[2:]), abs(ddelta(E)))
  reveal de1, de2, ddelta, dsec

lemma patch_def(E []byte)
  property C05
  ensures pbw(E) == E[2] / 32 + 1 && pgw(E) == E[3] / 32 + 1 && pll(E) == E[3] % 32
  ensures ppw(E) == iwidth(E[2] % 32, false) && pw(E) == iwidth(hcode(E), false)
  ensures 1 <= pbw(E) <= 8 && 1 <= pgw(E) <= 8 && 0 <= pll(E) <= 31 && 1 <= ppw(E) <= 64 && 1 <= pw(E) <= 64
  ensures pe1(E) == E[4 + pbw(E):] && pe2(E) == pe1(E)[nbytes(pw(E), hlen(E)):]
  ensures pbase(E) == (E[4] >= 128 ? 0 - pmag(E) : pmag(E))
  reveal pbw, pgw, pll, ppw, pw, pe1, pe2, pbase, hcode

lemma nb_zero(w int)
  property C05
  ensures nbytes(w, 0) == 0
  reveal nbytes, mul

lemma devals_def(E []byte, s bool)
  property C05
  ensures hlen(E) == 1 ==> devals(E, s) == snoc(empty([]uint64), uvval(E[2:]))
  ensures hlen(E) != 1 ==> devals(E, s) == snoc(snoc(empty([]uint64), uvval(E[2:])), dsec(E, s)) ++ detail(E, s)
  reveal devals

lemma de2_suffix(E []byte)
  property C05
  requires len(E) >= 2 && uvok(E[2:]) && uvok(de1(E))
  ensures len(de2(E)) <= len(E) - 2 && de2(E) == E[len(E) - len(de2(E)):]
  reveal de1, de2

lemma nb_nonneg(w int, n int)
  property C05
  trigger {nbytes(w, n)}
  requires 0 <= w && 0 <= n
  ensures 0 <= nbytes(w, n)
  reveal nbytes, mul
{ assert w * n >= 0 }

lemma be_range(S []byte)
  property C05
  requires len(S) <= 8
  decreases len(S)
  trigger {be(S)}
  ensures 0 <= be(S) < pow2(8 * len(S))
  reveal be
{
  if len(S) > 0 { be_range(S[:len(S)-1]) pow2_add8(8 * len(S) - 8) } else { pow2_table(8 * len(S)) }
}

lemma be_top(S []byte)
  property C05
  requires 1 <= len(S) <= 8 && S[0] < 128
  decreases len(S)
  ensures be(S) < pow2(8 * len(S) - 1)
  reveal be
{
  pow2_table(8 * len(S) - 1)
  if len(S) > 1 { be_top(S[:len(S)-1]) pow2_add8(8 * len(S) - 9) } else { assert S[:len(S)-1] == empty([]byte)  assert be(S[:len(S)-1]) == 0  assert be(S) == S[0] }
}

lemma or_byte(m u64, b byte, i i64)
  mode bv
  property C05
  requires 0 <= i <= 7
  requires shl(m, 8 * i + 8) <= 18446744073709551615
  ensures bor(u64(shl(m, 8 * i + 8)), u64(shl(b, 8 * i))) == shl(256 * m + b, 8 * i)
  ensures shl(m, 8 * i + 8) == u64(shl(m, 8 * i + 8))

func (d *intRLV2Decoder) forgetBits()
  property C05, C15
  modifies d.bitsLeft, d.lastByte
  ensures d.bitsLeft == 0 && d.lastByte == 0
  ensures bitstate(d.bitsLeft, d.lastByte)

lemma nb_enough(w int, n int, i int, k int)
  property C05
  requires 0 <= i < n && 0 <= w && nbytes(w, n) <= k
  ensures mul(w, i) + w <= 8 * k
  reveal nbytes, mul
{ assert w * n == w * i + w + w * (n - i - 1)  assert w * (n - i - 1) >= 0 }

lemma nb_exact(w int, n int, c int, left int)
  property C05
  requires 8 * c - mul(w, n) == left && 0 <= left <= 7
  ensures c == nbytes(w, n)
  reveal nbytes

// one value taken from the front
lemma unb_step(B []bool, v u64, w int, T []bool, n int)
  property C05
  requires n > 0 && 0 <= w <= 64 && v < pow2(w) && B == tobits(v, w) ++ T
  ensures unb(B, w, n) == snoc(empty([]uint64), v) ++ unb(T, w, n - 1)
  reveal unb
{
  tb_numb(v, w)
  assert B[:w] == tobits(v, w) && B[w:] == T
}

// one step of a delta run
lemma vseq_step(s bool, neg bool, prev int, B []bool, v u64, w int, T []bool, n int)
  property C05
  requires n > 0 && 0 <= w <= 64 && v < pow2(w) && B == tobits(v, w) ++ T
  ensures vseq(s, neg, prev, B, w, n) == snoc(empty([]uint64), nextv(s, neg, prev, v)) ++ vseq(s, neg, nextv(s, neg, prev, v), T, w, n - 1)
  reveal vseq
{
  tb_numb(v, w)
  assert B[:w] == tobits(v, w) && B[w:] == T
}

lemma vseq_nil(s bool, neg bool, prev int, B []bool, w int, n int)
  property C05
  requires n <= 0
  ensures vseq(s, neg, prev, B, w, n) == empty([]uint64)
  reveal vseq

lemma pvals0_step(s bool, base int, B []bool, v u64, w int, T []bool, n int)
  property C05
  requires n > 0 && 0 <= w <= 64 && v < pow2(w) && B == tobits(v, w) ++ T
  ensures pvals0(B, s, base, w, n) == snoc(empty([]uint64), repr(s, base + v)) ++ pvals0(T, s, base, w, n - 1)
  reveal pvals0
{
  tb_numb(v, w)
  assert B[:w] == tobits(v, w) && B[w:] == T
}

func (d *intRLV2Decoder) fromSigned(v)
  property C05, C15
  ensures ret0 == repr(d.signed, v)
  reveal repr

func (d *intRLV2Decoder) toSigned(u)
  property C05, C15
  ensures ret0 == (d.signed ? unzz(u) : i64(u))

lemma patched_step(V []uint64, mark int, B []bool, pp u64, T []bool, s bool, base int, w int, g int, p int, n int)
  property C05
  requires n > 0 && 0 <= g && 0 <= p && g + p <= 64 && pp < pow2(g + p) && B == tobits(pp, g + p) ++ T
  ensures patched(V, mark, B, s, base, w, g, p, n) == patched(upd(V, ppos(pp, mark, p), patchv(s, V[ppos(pp, mark, p)], base, band(pp, pow2(p) - 1), w)), ppos(pp, mark, p), T, s, base, w, g, p, n - 1)
  reveal patched
{
  tb_numb(pp, g + p)
  assert B[:g + p] == tobits(pp, g + p) && B[g + p:] == T
}

lemma pinside_step(mark int, L int, B []bool, pp u64, T []bool, g int, p int, n int)
  property C05
  requires n > 0 && 0 <= g && 0 <= p && g + p <= 64 && pp < pow2(g + p) && B == tobits(pp, g + p) ++ T
  ensures pinside(B, mark, L, g, p, n) <==> ppos(pp, mark, p) < L && pinside(T, ppos(pp, mark, p), L, g, p, n - 1)
  reveal pinside
{
  tb_numb(pp, g + p)
  assert B[:g + p] == tobits(pp, g + p) && B[g + p:] == T
}

lemma patch_nil(V []uint64, mark int, B []bool, s bool, base int, w int, g int, p int, L int, n int)
  property C05
  requires n <= 0
  ensures patched(V, mark, B, s, base, w, g, p, n) == V && pvals0(B, s, base, w, n) == empty([]uint64) && pinside(B, mark, L, g, p, n)
  reveal patched, pvals0, pinside

lemma repr_wrap(s bool, a i64, b u64)
  property C05
  ensures repr(s, i64(a + i64(b))) == repr(s, a + b)
  ensures repr(s, i64(a - i64(b))) == repr(s, a - b)
  reveal repr

fn cons(b byte, R []byte) []byte = snoc(empty([]byte), b) ++ R

func (d *intRLV2Decoder) readPatched(in, firstByte)
  property C05, C15
  requires in != nil && firstByte / 64 == 2 && len(d.uvs) == 0
  modifies d.uvs, d.bitsLeft, d.lastByte, in.content
  ensures wellformed: err == nil ==> pok(cons(firstByte, old(in.content)))
  ensures values: err == nil ==> d.uvs == pvals(cons(firstByte, old(in.content)), d.signed)
  ensures consumed: err == nil ==> in.content == cons(firstByte, old(in.content))[plen(cons(firstByte, old(in.content))):]
  ensures complete: healthy(in) && pok(cons(firstByte, old(in.content))) ==> err == nil
  var E []byte = empty([]byte)
  var av []bool = empty([]bool)
  var m int = 0
  at entry { E = cons(firstByte, in.content)  head_def(E)  patch_def(E)  shl_mul(0, 8 * pbw(E))  mul_zero(pgw(E) + ppw(E)) }
  loop 1
    invariant 0 <= i <= bw && len(baseBytes) == bw && bw == pbw(E)
    invariant ubase == shl(be(baseBytes[:i]), 8 * (bw - i))
  at loopbegin 1 { m = be(baseBytes[:i])  pow2_table(8 * i)  shl_mul(m, 8 * (bw - i))  pow2_sum(8 * i, 8 * (bw - i))  pow2_table(8 * bw) }
  at step 1 {
    or_byte(m, baseBytes[i], bw - i - 1)
    assert baseBytes[:i + 1][:i] == baseBytes[:i]
    assert be(baseBytes[:i + 1]) == 256 * m + baseBytes[i]
  }
  at afterloop 1 { be_top(baseBytes)  pow2_table(8 * bw - 1)  pow2_table(8 * bw)  shl_zero(be(baseBytes[:i]), bw - i) assert baseBytes[:i] == baseBytes  assert baseBytes == upd(E[4:4 + pbw(E)], 0, E[4] % 128) }
  loop 2
    invariant 0 <= i <= length && bitstate(d.bitsLeft, d.lastByte)
    invariant len(in.content) <= len(pe1(E)) && in.content == E[len(E) - len(in.content):]
    invariant d.uvs ++ pvals0(avail(d, in.content), d.signed, pbase(E), width, length - i) == pvals0(unpack(pe1(E)), d.signed, pbase(E), pw(E), hlen(E))
    invariant d.bitsLeft + 8 * len(in.content) + mul(width, i) == 8 * len(pe1(E))
    invariant len(d.uvs) == i && base == pbase(E)
  at loopbegin 2 {
    av = avail(d, in.content)
    V0 = d.uvs
    if pok(E) { nb_enough(width, length, i, len(pe1(E))) }
  }
  at step 2 {
    pvals0_step(d.signed, pbase(E), av, delta, width, avail(d, in.content), length - i)
    repr_wrap(d.signed, pbase(E), delta)
    mul_step(width, i)
    assert i64(base + i64(delta)) == i64(pbase(E) + i64(delta))
    assert d.uvs == snoc(V0, repr(d.signed, pbase(E) + delta))
    assert d.uvs ++ pvals0(avail(d, in.content), d.signed, pbase(E), width, length - i - 1) == V0 ++ pvals0(av, d.signed, pbase(E), width, length - i)
  }
  at afterloop 2 { nb_exact(width, length, len(pe1(E)) - len(in.content), d.bitsLeft) assert in.content == pe2(E)  phase = 1
    patch_nil(d.uvs, 0, avail(d, in.content), d.signed, pbase(E), width, pgw(E), ppw(E), hlen(E), length - i) }
  loop 3
    invariant 0 <= i <= pll && bitstate(d.bitsLeft, d.lastByte)
    invariant len(in.content) <= len(pe2(E)) && in.content == E[len(E) - len(in.content):]
    invariant patched(d.uvs, mark, avail(d, in.content), d.signed, pbase(E), pw(E), pgw(E), ppw(E), pll - i) == pvals(E, d.signed)
    invariant pinside(avail(d, in.content), mark, hlen(E), pgw(E), ppw(E), pll - i) <==> pinside(unpack(pe2(E)), 0, hlen(E), pgw(E), ppw(E), pll(E))
    invariant d.bitsLeft + 8 * len(in.content) + mul(pgw(E) + ppw(E), i) == 8 * len(pe2(E))
    invariant len(d.uvs) == hlen(E) && 0 <= mark && mark <= hlen(E)
  at loopbegin 3 {
    av = avail(d, in.content)
    if pok(E) { nb_enough(pgw(E) + ppw(E), pll, i, len(pe2(E))) }
  }
  var phase int = 0
  var mark0 int = 0
  var tv int = 0
  var V0 []uint64 = empty([]uint64)
  at after call readBits {
    if res1 == nil && phase == 1 {
      V0 = d.uvs
      mark0 = mark
      assert len(av) == d.bitsLeft + 8 * len(in.content) + pgw(E) + ppw(E)
      patched_step(d.uvs, mark, av, res0, avail(d, in.content), d.signed, pbase(E), pw(E), pgw(E), ppw(E), pll - i)
      pinside_step(mark, hlen(E), av, res0, avail(d, in.content), pgw(E), ppw(E), pll - i)
      pow2_table(pgw)  pow2_table(pw)
      pow2_sum(pgw, pw)
      shl_mul(pow2(pgw), pw)
      shr_lt(res0, pow2(pgw), pw)
      mul_step(pgw(E) + ppw(E), i)
      assert 0 <= shr(res0, ppw(E)) && shr(res0, ppw(E)) < 256
    }
  }
  at after call toSigned {
    tv = res0
    assert res0 == i64(valu(d.signed, V0[mark]))
    assert i64(res0 - base) == i64(i64(valu(d.signed, V0[mark])) - pbase(E))
  }
  at step 3 {
    assert patch == band(pp, pow2(ppw(E)) - 1)
    assert patchGap == shr(pp, ppw(E))
    assert i64(u64(shl(patch, width))) == i64(shl(patch, pw(E)))
    assert v == i64(pbase(E) + bor(i64(tv - base), i64(shl(patch, pw(E)))))
    assert d.uvs == upd(V0, mark, patchv(d.signed, V0[mark], pbase(E), band(pp, pow2(ppw(E)) - 1), pw(E)))
    assert mark == ppos(pp, mark0, ppw(E))
    assert patched(d.uvs, mark, avail(d, in.content), d.signed, pbase(E), pw(E), pgw(E), ppw(E), pll - i - 1) == patched(V0, mark0, av, d.signed, pbase(E), pw(E), pgw(E), ppw(E), pll - i)
  }
  at afterloop 3 { patch_nil(d.uvs, mark, avail(d, in.content), d.signed, pbase(E), pw(E), pgw(E), ppw(E), hlen(E), pll - i)  nb_exact(pgw(E) + ppw(E), pll, len(pe2(E)) - len(in.content), d.bitsLeft) }
  reveal repr, be, valu

func (d *intRLV2Decoder) decode(in)
  property C05, C15
  requires in != nil && len(d.uvs) == 0
  modifies d.uvs, d.bitsLeft, d.lastByte, in.content
  ensures wellformed: err == nil ==> iok(old(in.content), d.signed)
  ensures values: err == nil ==> d.uvs == old(d.uvs) ++ ivals(old(in.content), d.signed)
  ensures consumed: err == nil ==> in.content == old(in.content)[ilen(old(in.content), d.signed):]
  ensures complete: healthy(in) && iok(old(in.content), d.signed) ==> err == nil
  var E []byte = empty([]byte)
  var av []bool = empty([]bool)
  var u0 []uint64 = empty([]uint64)
  var dd int = 0
  at entry { E = in.content  head_def(E)  delta_def(E, d.signed)  devals_def(E, d.signed)  if len(E) > 0 { run_def(E, d.signed) } shl_mul(0, 8 * srw(E)) }
  loop 1
    invariant 0 <= i <= width && width == srw(E) && len(E) > width - i
    invariant in.content == E[1 + width - i:]
    invariant v == shl(be(E[1:1 + width - i]), 8 * i)
    decreases i
  var m int = 0
  at loopbegin 1 { m = be(E[1:1 + width - i])  pow2_table(8 * (width - i))  shl_mul(m, 8 * i)  pow2_sum(8 * (width - i), 8 * i)  pow2_table(8 * width) }
  at step 1 {
    assert 8 * (i + 1) == 8 * i + 8
    or_byte(m, b, i)
    assert E[1:1 + width - i][:width - i - 1] == E[1:width - i]
    assert be(E[1:1 + width - i]) == 256 * m + b
  }
  at afterloop 1 { assert i == 0  pow2_table(8 * width)  shl_zero(be(E[1:1 + width - i]), i) }
  loop 2
    invariant 0 <= i <= repeatCount
    invariant d.uvs == old(d.uvs) ++ urep(v, i)
  loop 3
    invariant 0 <= i <= length && bitstate(d.bitsLeft, d.lastByte) && len(E) >= 2
    invariant len(in.content) <= len(E) - 2 && in.content == E[len(E) - len(in.content):]
    invariant d.uvs ++ unb(avail(d, in.content), width, length - i) == divals(E)
    invariant d.bitsLeft + 8 * len(in.content) + mul(width, i) == 8 * (len(E) - 2)
  at loopbegin 3 {
    av = avail(d, in.content)
    if diok(E) { nb_enough(width, length, i, len(E) - 2) }
  }
  at step 3 {
    unb_step(av, v, width, avail(d, in.content), length - i)
    mul_step(width, i)
  }
  at afterloop 2 { assert iok(E, d.signed)  assert d.uvs == ivals(E, d.signed)  assert in.content == E[ilen(E, d.signed):] }
  at afterloop 3 { nb_exact(width, length, len(E) - 2 - len(in.content), d.bitsLeft)  assert iok(E, d.signed)  assert d.uvs == ivals(E, d.signed)  assert in.content == E[ilen(E, d.signed):] }
  loop 4
    invariant 2 <= i <= max(length, 2) && bitstate(d.bitsLeft, d.lastByte) && len(E) >= 2
    invariant len(in.content) <= len(de2(E)) && in.content == E[len(E) - len(in.content):]
    invariant len(d.uvs) > 0
    invariant d.uvs ++ (width == 0 ? fseq(d.signed, dneg(E), d.uvs[len(d.uvs)-1], abs(ddelta(E)), length - i) : vseq(d.signed, dneg(E), d.uvs[len(d.uvs)-1], avail(d, in.content), width, length - i)) == devals(E, d.signed)
    invariant d.bitsLeft + 8 * len(in.content) + mul(width, i - 2) == 8 * len(de2(E))
  at loopbegin 4 {
    av = avail(d, in.content)
    u0 = d.uvs
    dd = abs(ddelta(E))
    if deok(E) { nb_enough(width, length - 2, i - 2, len(de2(E))) }
  }
  at after call readBits { if res1 == nil { dd = res0  vseq_step(d.signed, dneg(E), u0[len(u0)-1], av, res0, width, avail(d, in.content), length - i) } }
  at step 4 {
    mul_step(width, i - 2)
    repr_wrap(d.signed, unzz(u0[len(u0)-1]), dd)
    assert d.uvs == snoc(u0, nextv(d.signed, dneg(E), u0[len(u0)-1], dd))
    if width == 0 {
      assert d.uvs ++ fseq(d.signed, dneg(E), d.uvs[len(d.uvs)-1], abs(ddelta(E)), length - i - 1) == u0 ++ fseq(d.signed, dneg(E), u0[len(u0)-1], abs(ddelta(E)), length - i)
    } else {
      assert d.uvs ++ vseq(d.signed, dneg(E), d.uvs[len(d.uvs)-1], avail(d, in.content), width, length - i - 1) == u0 ++ vseq(d.signed, dneg(E), u0[len(u0)-1], av, width, length - i)
    }
  }
  at exit {
    if iok(E, d.signed) { iok_nonempty(E, d.signed) }
    if len(E) >= 2 && uvok(E[2:]) && uvok(de1(E)) { de2_suffix(E)  nb_zero(iwidth(hcode(E), true)) }
  }
  at after call forgetBits {
    if kind(E) == 3 { assert in.content == de2(E)  de2_suffix(E) }
  }
  at after call readPatched { assert cons(E[0], E[1:]) == E  assert res0 == nil ==> iok(E, d.signed)  assert res0 == nil ==> d.uvs == ivals(E, d.signed) }
  at afterloop 4 { vseq_nil(d.signed, dneg(E), d.uvs[len(d.uvs)-1], avail(d, in.content), width, length - i)  nb_exact(width, max(length - 2, 0), len(de2(E)) - len(in.content), d.bitsLeft)  assert iok(E, d.signed)  assert d.uvs == ivals(E, d.signed)  assert in.content == E[ilen(E, d.signed):] }
  reveal urep, unb, be, repr, valu, fseq

// the signed values of zigzag codes
fn unzzs(U []uint64) []int64 rec decreases len(U) = len(U) == 0 ? empty([]int64) : snoc(unzzs(U[:len(U)-1]), unzz(U[len(U)-1]))

lemma unzzs_snoc(U []uint64, n int)
  property C05
  requires 0 <= n < len(U)
  ensures unzzs(U[:n+1]) == snoc(unzzs(U[:n]), unzz(U[n]))
  reveal unzzs
{ assert U[:n+1][:n] == U[:n] }

lemma unzzs_at(U []uint64)
  property C05
  decreases len(U)
  ensures len(unzzs(U)) == len(U)
  ensures forall k int {unzzs(U)[k]} :: 0 <= k < len(U) ==> unzzs(U)[k] == unzz(U[k])
  reveal unzzs
{ if len(U) > 0 { unzzs_at(U[:len(U)-1]) } }

func (d *intRLV2Decoder) DecodeInt(in)
  property C05, C15
  requires in != nil
  modifies d.uvs, d.vs, d.bitsLeft, d.lastByte, in.content
  ensures wellformed: err == nil ==> d.signed && iok(old(in.content), true)
  ensures values: err == nil ==> ret0 == unzzs(ivals(old(in.content), true))
  ensures consumed: err == nil ==> in.content == old(in.content)[ilen(old(in.content), true):]
  ensures complete: d.signed && healthy(in) && iok(old(in.content), true) ==> err == nil
  loop 1
    invariant d.vs == unzzs(d.uvs[:$n])
  at step 1 { unzzs_snoc(d.uvs, $n) }
  reveal unzzs

func (d *intRLV2Decoder) DecodeUInt(in)
  property C05, C15
  requires in != nil
  modifies d.uvs, d.bitsLeft, d.lastByte, in.content
  ensures wellformed: err == nil ==> !d.signed && iok(old(in.content), false)
  ensures values: err == nil ==> ret0 == ivals(old(in.content), false)
  ensures consumed: err == nil ==> in.content == old(in.content)[ilen(old(in.content), false):]
  ensures complete: !d.signed && healthy(in) && iok(old(in.content), false) ==> err == nil

func NewIntDecoder(signed)
  property C05, C15
  ensures is(ret0, *intRLV2Decoder) && fresh(ret0) && as(ret0, *intRLV2Decoder).signed == signed
