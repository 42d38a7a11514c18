// Integer run-length encoding version 2: patched base runs of the encoder
package encoding

// values as offsets from a base
fn rlist(D []uint64, s bool, base int) []uint64 rec decreases len(D) = len(D) == 0 ? empty([]uint64) : snoc(empty([]uint64), repr(s, base + D[0])) ++ rlist(D[1:], s, base)

lemma rlist_len(D []uint64, s bool, base int)
  property C01
  decreases len(D)
  ensures len(rlist(D, s, base)) == len(D)
  reveal rlist
{ if len(D) > 0 { rlist_len(D[1:], s, base) } }

lemma rlist_snoc(D []uint64, d u64, s bool, base int)
  property C01
  decreases len(D)
  ensures rlist(snoc(D, d), s, base) == snoc(rlist(D, s, base), repr(s, base + d))
  reveal rlist
{
  assert snoc(D, d)[0] == (len(D) == 0 ? d : D[0])
  if len(D) > 0 {
    rlist_snoc(D[1:], d, s, base)
    assert snoc(D, d)[1:] == snoc(D[1:], d)
  } else {
    assert snoc(D, d)[1:] == empty([]uint64)
    assert rlist(empty([]uint64), s, base) == empty([]uint64)
  }
}

lemma rlist_pvals0(D []uint64, s bool, base int, w int, T []bool)
  property C01
  decreases len(D)
  requires fits(D, w) && 0 <= w <= 64
  ensures pvals0(flat(D, w) ++ T, s, base, w, len(D)) == rlist(D, s, base)
  reveal rlist
{
  if len(D) > 0 {
    flat_front(D, w)
    fits_at(D, w, 0)
    rlist_pvals0(D[1:], s, base, w, T)
    pvals0_step(s, base, flat(D, w) ++ T, D[0], w, flat(D[1:], w) ++ T, len(D))
  } else { patch_nil(empty([]uint64), 0, flat(D, w) ++ T, s, base, w, 1, 1, 0, 0) }
}

// the patches of a run: gaps and high parts
fn psum(G []goint) int rec decreases len(G) = len(G) == 0 ? 0 : G[0] + psum(G[1:])
fn papply(V []uint64, mark int, G []goint, P []uint64, s bool, base int, w int) []uint64 rec decreases len(G) = len(G) == 0 ? V : papply(upd(V, mark + G[0], patchv(s, V[mark + G[0]], base, P[0], w)), mark + G[0], G[1:], P[1:], s, base, w)
fn gfits(G []goint, w int) bool opaque = forall i int {G[i]} :: 0 <= i < len(G) ==> 0 <= G[i] < pow2(w)

lemma psum_snoc(G []goint, g goint)
  property C01
  decreases len(G)
  ensures psum(snoc(G, g)) == psum(G) + g
  reveal psum
{
  assert snoc(G, g)[0] == (len(G) == 0 ? g : G[0])
  if len(G) > 0 {
    psum_snoc(G[1:], g)
    assert snoc(G, g)[1:] == snoc(G[1:], g)
  } else {
    assert snoc(G, g)[1:] == empty([]goint)
    assert psum(empty([]goint)) == 0
  }
}

lemma gfits_at(G []goint, w int)
  property C01
  requires gfits(G, w) && len(G) > 0
  ensures 0 <= G[0] < pow2(w) && gfits(G[1:], w)
  reveal gfits

lemma gfits_nil(w int)
  property C01
  ensures gfits(empty([]goint), w)
  reveal gfits

lemma gfits_grow(G []goint, g goint, w int, w2 int)
  property C01
  requires gfits(G, w) && 0 <= g < pow2(w2) && 0 <= w <= w2 <= 64
  ensures gfits(snoc(G, g), w2)
  reveal gfits
{ pow2_mono(w, w2) }

lemma psum_nonneg(G []goint, w int)
  property C01
  decreases len(G)
  requires gfits(G, w)
  ensures psum(G) >= 0
  reveal psum
{ if len(G) > 0 { gfits_at(G, w)  psum_nonneg(G[1:], w) } }

lemma papply_len(V []uint64, mark int, G []goint, P []uint64, s bool, base int, w int)
  property C01
  decreases len(G)
  ensures len(papply(V, mark, G, P, s, base, w)) == len(V)
  reveal papply
{ if len(G) > 0 { papply_len(upd(V, mark + G[0], patchv(s, V[mark + G[0]], base, P[0], w)), mark + G[0], G[1:], P[1:], s, base, w) } }

// one more patch
lemma papply_snoc(V []uint64, mark int, G []goint, P []uint64, g goint, p u64, s bool, base int, w int)
  property C01
  decreases len(G)
  requires len(P) == len(G)
  ensures papply(V, mark, snoc(G, g), snoc(P, p), s, base, w) == upd(papply(V, mark, G, P, s, base, w), mark + psum(G) + g, patchv(s, papply(V, mark, G, P, s, base, w)[mark + psum(G) + g], base, p, w))
  reveal papply, psum
{
  if len(G) > 0 {
    papply_snoc(upd(V, mark + G[0], patchv(s, V[mark + G[0]], base, P[0], w)), mark + G[0], G[1:], P[1:], g, p, s, base, w)
    assert snoc(G, g)[1:] == snoc(G[1:], g)
    assert snoc(P, p)[1:] == snoc(P[1:], p)
    assert snoc(G, g)[0] == G[0] && snoc(P, p)[0] == P[0]
  } else {
    assert snoc(G, g)[1:] == empty([]goint)
    assert snoc(P, p)[1:] == empty([]uint64)
    assert G == empty([]goint)
    assert psum(G) == 0
    assert papply(V, mark, G, P, s, base, w) == V
    assert snoc(G, g)[0] == g && snoc(P, p)[0] == p
    assert papply(V, mark, snoc(G, g), snoc(P, p), s, base, w) == papply(upd(V, mark + g, patchv(s, V[mark + g], base, p, w)), mark + g, empty([]goint), empty([]uint64), s, base, w)
  }
}

// one more value behind the patched ones
lemma papply_ext(V []uint64, x u64, mark int, G []goint, P []uint64, s bool, base int, w int)
  property C01
  decreases len(G)
  requires len(P) == len(G) && 0 <= mark && gfits(G, 8) && (len(G) > 0 ==> mark + psum(G) < len(V))
  ensures papply(snoc(V, x), mark, G, P, s, base, w) == snoc(papply(V, mark, G, P, s, base, w), x)
  reveal papply, psum
{
  if len(G) > 0 {
    gfits_at(G, 8)
    psum_nonneg(G[1:], 8)
    assert mark + G[0] < len(V)
    papply_ext(upd(V, mark + G[0], patchv(s, V[mark + G[0]], base, P[0], w)), x, mark + G[0], G[1:], P[1:], s, base, w)
    assert snoc(V, x)[mark + G[0]] == V[mark + G[0]]
    assert upd(snoc(V, x), mark + G[0], patchv(s, V[mark + G[0]], base, P[0], w)) == snoc(upd(V, mark + G[0], patchv(s, V[mark + G[0]], base, P[0], w)), x)
  }
}

// the patch list as written
fn plist(G []goint, P []uint64, p int) []uint64 rec decreases len(G) = len(G) == 0 ? empty([]uint64) : snoc(empty([]uint64), shl(G[0], p) + P[0]) ++ plist(G[1:], P[1:], p)

lemma plist_snoc(G []goint, P []uint64, g goint, x u64, p int)
  property C01
  decreases len(G)
  requires len(P) == len(G)
  ensures plist(snoc(G, g), snoc(P, x), p) == snoc(plist(G, P, p), shl(g, p) + x)
  reveal plist
{
  if len(G) > 0 {
    plist_snoc(G[1:], P[1:], g, x, p)
    assert snoc(G, g)[1:] == snoc(G[1:], g)
    assert snoc(P, x)[1:] == snoc(P[1:], x)
    assert snoc(G, g)[0] == G[0] && snoc(P, x)[0] == P[0]
  } else {
    assert snoc(G, g)[1:] == empty([]goint)
    assert snoc(P, x)[1:] == empty([]uint64)
    assert snoc(G, g)[0] == g && snoc(P, x)[0] == x
    assert plist(empty([]goint), empty([]uint64), p) == empty([]uint64)
    assert plist(G, P, p) == empty([]uint64)
  }
}

lemma patch_word(g u64, x u64, k i64)
  mode bv
  property C01
  requires 0 <= k <= 56
  requires g <= 255
  requires x < pow2(k)
  ensures shr(u64(shl(g, k) + x), k) == g
  ensures band(u64(shl(g, k) + x), pow2(k) - 1) == x
  ensures u64(shl(g, k) + x) == shl(g, k) + x
  ensures bor(u64(shl(g, k)), x) == shl(g, k) + x
  ensures u64(shl(g, k)) == shl(g, k)

lemma patch_word_lt(g goint, x u64, a int, k int)
  property C01
  requires 0 <= a <= 8 && 0 <= k <= 56 && 0 <= g < pow2(a) && 0 <= x < pow2(k)
  ensures shl(g, k) + x < pow2(a + k) && g <= 255
{
  pow2_table(a)
  shl_mul(g, k)
  pow2_sum(a, k)
  assert (g + 1) * pow2(k) <= pow2(a) * pow2(k)
}

lemma plist_facts(G []goint, P []uint64, g int, p int)
  property C01
  decreases len(G)
  requires len(P) == len(G) && gfits(G, g) && fits(P, p) && 0 <= g <= 8 && 0 <= p <= 56
  ensures len(plist(G, P, p)) == len(G)
  ensures fits(plist(G, P, p), g + p)
  reveal plist, fits
{
  if len(G) > 0 {
    gfits_at(G, g)  fits_at(P, p, 0)
    plist_facts(G[1:], P[1:], g, p)
    patch_word_lt(G[0], P[0], g, p)
  }
}

lemma plist_patched(V []uint64, mark int, G []goint, P []uint64, s bool, base int, w int, g int, p int, L int, T []bool)
  property C01
  decreases len(G)
  requires len(P) == len(G) && gfits(G, g) && fits(P, p) && 0 <= g <= 8 && 0 <= p <= 56
  ensures patched(V, mark, flat(plist(G, P, p), g + p) ++ T, s, base, w, g, p, len(G)) == papply(V, mark, G, P, s, base, w)
  ensures (len(G) > 0 ==> mark + psum(G) < L) ==> pinside(flat(plist(G, P, p), g + p) ++ T, mark, L, g, p, len(G))
  reveal plist, papply, psum
{
  if len(G) > 0 {
    gfits_at(G, g)  fits_at(P, p, 0)
    plist_facts(G, P, g, p)
    flat_front(plist(G, P, p), g + p)
    assert plist(G, P, p)[0] == shl(G[0], p) + P[0]
    assert plist(G, P, p)[1:] == plist(G[1:], P[1:], p)
    patch_word_lt(G[0], P[0], g, p)
    patch_word(G[0], P[0], p)
    psum_nonneg(G[1:], g)
    plist_patched(upd(V, mark + G[0], patchv(s, V[mark + G[0]], base, P[0], w)), mark + G[0], G[1:], P[1:], s, base, w, g, p, L, T)
    patched_step(V, mark, flat(plist(G, P, p), g + p) ++ T, shl(G[0], p) + P[0], flat(plist(G[1:], P[1:], p), g + p) ++ T, s, base, w, g, p, len(G))
    pinside_step(mark, L, flat(plist(G, P, p), g + p) ++ T, shl(G[0], p) + P[0], flat(plist(G[1:], P[1:], p), g + p) ++ T, g, p, len(G))
    assert ppos(shl(G[0], p) + P[0], mark, p) == mark + G[0]
  } else { patch_nil(V, mark, flat(plist(G, P, p), g + p) ++ T, s, base, w, g, p, L, 0) }
}

// the byte with the sign of the base in front
lemma be_front(S []byte)
  property C01
  decreases len(S)
  requires 1 <= len(S) <= 8
  ensures be(S) == S[0] * pow2(8 * len(S) - 8) + be(S[1:])
  reveal be
{
  if len(S) > 1 {
    be_front(S[:len(S)-1])
    pow2_add8(8 * len(S) - 16)
    assert S[:len(S)-1][1:] == S[1:][:len(S)-2]
    assert be(S[1:]) == 256 * be(S[1:][:len(S)-2]) + S[len(S)-1]
    assert be(S) == 256 * be(S[:len(S)-1]) + S[len(S)-1]
    assert S[0] * (256 * pow2(8 * len(S) - 16)) == 256 * (S[0] * pow2(8 * len(S) - 16))
  } else {
    pow2_table(8 * len(S) - 8)
    assert S[1:] == empty([]byte)
    assert S[:0] == empty([]byte)
    assert be(S[:0]) == 0
    assert be(S) == 256 * be(S[:0]) + S[0]
  }
}

lemma be_sign(S []byte, m int, neg bool)
  property C01
  requires 1 <= len(S) <= 8 && 0 <= m < pow2(8 * len(S) - 1) && be(S) == m + (neg ? pow2(8 * len(S) - 1) : 0)
  ensures S[0] >= 128 <==> neg
  ensures be(upd(S, 0, S[0] % 128)) == m
{
  var X = pow2(8 * len(S) - 8)
  be_front(S)
  be_range(S[1:])
  pow2_step(8 * len(S) - 8)  pow2_step(8 * len(S) - 7)  pow2_step(8 * len(S) - 6)  pow2_step(8 * len(S) - 5)
  pow2_step(8 * len(S) - 4)  pow2_step(8 * len(S) - 3)  pow2_step(8 * len(S) - 2)
  assert pow2(8 * len(S) - 1) == 128 * X
  assert be(S[1:]) < X
  if S[0] >= 128 {
    assert S[0] * X >= 128 * X
    assert neg
  } else {
    assert S[0] * X <= 127 * X
    assert !neg
  }
  be_front(upd(S, 0, S[0] % 128))
  assert upd(S, 0, S[0] % 128)[1:] == S[1:]
  assert upd(S, 0, S[0] % 128)[0] == S[0] % 128
  if S[0] >= 128 {
    assert S[0] % 128 == S[0] - 128
    assert (S[0] - 128) * X == S[0] * X - 128 * X
  }
}

lemma irun_patch(R []byte, base int, D []uint64, w int, X []byte, p1 int, G []goint, P []uint64, g int, p int, Y []byte, p2 int)
  property C01
  requires len(R) >= 4 && kind(R) == 2 && hlen(R) == len(D) && pw(R) == w && pgw(R) == g && ppw(R) == p && pll(R) == len(G) && pbase(R) == base
  requires 1 <= len(D) <= 512 && 1 <= w <= 64 && 1 <= g <= 8 && 1 <= p <= 56 && len(P) == len(G)
  requires fits(D, w) && gfits(G, g) && fits(P, p) && (len(G) > 0 ==> psum(G) < len(D))
  requires len(R) == 4 + pbw(R) + len(X) + len(Y) && R[4 + pbw(R):] == X ++ Y
  requires 0 <= p1 <= 7 && unpack(X) == flat(D, w) ++ tobits(0, p1)
  requires 0 <= p2 <= 7 && unpack(Y) == flat(plist(G, P, p), g + p) ++ tobits(0, p2)
  ensures irun(R, true, papply(rlist(D, true, base), 0, G, P, true, base, w))
  reveal irun
{
  run_def(R, true)
  patch_def(R)
  plist_facts(G, P, g, p)
  flat_len(D, w)
  flat_len(plist(G, P, p), g + p)
  assert len(unpack(X)) == 8 * len(X)
  assert len(unpack(Y)) == 8 * len(Y)
  nb_exact(w, len(D), len(X), p1)
  nb_exact(g + p, len(G), len(Y), p2)
  assert pe1(R) == X ++ Y
  assert pe2(R) == Y
  unpack_concat(X, Y)
  rlist_pvals0(D, true, base, w, tobits(0, p1) ++ unpack(Y))
  assert unpack(pe1(R)) == flat(D, w) ++ (tobits(0, p1) ++ unpack(Y))
  plist_patched(rlist(D, true, base), 0, G, P, true, base, w, g, p, len(D), tobits(0, p2))
}

lemma gfits_idx(G []goint, w int, i int)
  property C01
  requires gfits(G, w) && 0 <= i < len(G)
  ensures 0 <= G[i] < pow2(w)
  reveal gfits

lemma prefix4(C []byte, T []byte, R []byte)
  property C01
  requires len(C) == 4 && R == C ++ T
  ensures R[0] == C[0] && R[1] == C[1] && R[2] == C[2] && R[3] == C[3] && R[4:] == T

lemma plist_nil(p int)
  property C01
  ensures plist(empty([]goint), empty([]uint64), p) == empty([]uint64)
  reveal plist

lemma width_of(x u64, k i64, r i64)
  property C01
  requires 0 <= k <= 64 && 0 <= r <= 64 && x < pow2(k) && (r > 0 ==> x >= pow2(r - 1))
  ensures r <= k
{ if r > k { pow2_mono(k, r - 1) } }

lemma patch_head(ew byte, l i64, bw byte, pc byte, g i64, n i64)
  mode bv
  property C01
  requires 0 <= l <= 511
  requires ew <= 31
  requires 1 <= bw <= 8
  requires pc <= 31
  requires 1 <= g <= 8
  requires 0 <= n <= 31
  ensures bor(bor(128, u8(shl(ew, 1))), u8(band(shr(l, 8), 1))) == 128 + 2 * ew + shr(l, 8)
  ensures shr(l, 8) <= 1
  ensures 256 * shr(l, 8) + u8(band(l, 255)) == l
  ensures bor(u8(shl(u8(bw - 1), 5)), band(pc, 31)) == 32 * (bw - 1) + pc
  ensures bor(u8(shl(band(u8(g - 1), 7), 5)), band(u8(n), 31)) == 32 * (g - 1) + n

lemma or_sign(x u64, k i64)
  mode bv
  property C01
  requires 0 <= k <= 63
  requires x < pow2(k)
  ensures bor(x, u64(shl(1, k))) == x + pow2(k)

func (e *intRLV2Encoder) writePatch(pvs, out)
  property C01
  requires out != nil && pvs != nil && 1 <= len(pvs.values) <= 512 && codedw(pvs.width) && fits(pvs.values, pvs.width)
  requires len(pvs.gaps) == len(pvs.patches) && len(pvs.patches) <= 31 && gfits(pvs.gaps, 8) && fits(pvs.patches, 56)
  requires len(pvs.gaps) > 0 ==> psum(pvs.gaps) < len(pvs.values)
  requires pvs.base != -9223372036854775808
  modifies e.bitsLeft, e.lastByte, out.content
  ensures err == nil
  ensures grew(old(out.content), out.content)
  ensures run: irun(out.content[len(old(out.content)):], true, papply(rlist(pvs.values, true, pvs.base), 0, pvs.gaps, pvs.patches, true, pvs.base, pvs.width))
  var pw0 int = 0
  var c1 []byte = empty([]byte)
  var c2 []byte = empty([]byte)
  var c3 []byte = empty([]byte)
  var S []byte = empty([]byte)
  var X []byte = empty([]byte)
  var Y []byte = empty([]byte)
  var R []byte = empty([]byte)
  var m int = 0
  var q1 int = 0
  var q2 int = 0
  loop 1
    invariant 0 <= patchWidth <= 56 && fits(pvs.patches[:$n], patchWidth)
  at beforeloop 1 { assert pvs.patches[:0] == empty([]uint64)  fits_nil(0) }
  at loopbegin 1 { pw0 = patchWidth  fits_at(pvs.patches, 56, $n) }
  at step 1 { width_of(p, 56, patchWidth_)  pow2_mono(patchWidth_, patchWidth)  fits_grow(pvs.patches[:$n], p, pw0, patchWidth)  assert snoc(pvs.patches[:$n], p) == pvs.patches[:$n + 1] }
  at afterloop 1 { assert pvs.patches[:len(pvs.patches)] == pvs.patches  pw0 = patchWidth }
  loop 2
    invariant 1 <= pgw <= 8 && gfits(pvs.gaps[:$n], pgw)
    invariant fits(pvs.patches, patchWidth) && codedw(patchWidth) && patchWidth <= 56
  at beforeloop 2 { assert pvs.gaps[:0] == empty([]goint)  gfits_nil(1)  fits_up(pvs.patches, pw0, patchWidth) }
  at loopbegin 2 { pw0 = pgw  gfits_idx(pvs.gaps, 8, $n)  pow2_table(8) }
  at step 2 { width_of(g, 8, pgw_)  pow2_mono(pgw_, pgw)  gfits_grow(pvs.gaps[:$n], g, pw0, pgw)  assert snoc(pvs.gaps[:$n], g) == pvs.gaps[:$n + 1] }
  at afterloop 2 { assert pvs.gaps[:len(pvs.gaps)] == pvs.gaps }
  loop 3
    invariant -1 <= i < bw && 1 <= bw <= 8
    invariant grew(c1, out.content) && len(out.content) == len(c1) + bw - 1 - i
    invariant be(out.content[len(c1):]) == shr(base, 8 * i + 8)
    decreases i + 1
  at beforeloop 3 {
    c1 = out.content
    m = pvs.base < 0 ? 0 - pvs.base : pvs.base
    c3 = header
    patch_head(w, length, bw, pw, pgw, len(pvs.patches))
    assert m < 9223372036854775808
    pow2_table(63)
    pow2_mono(getbits, 8 * bw - 1)
    assert m < pow2(8 * bw - 1)
    or_sign(m, 8 * bw - 1)
    pow2_step(8 * bw - 1)
    top_byte(base, bw - 1)
    assert base == m + (pvs.base < 0 ? pow2(8 * bw - 1) : 0)
    assert out.content[len(c1):] == empty([]byte)
    assert be(empty([]byte)) == 0
  }
  var getbits int = 0
  at after call getBitsWidth { if phase == 0 { getbits = res0  phase = 1  width_of(arg0, 63, res0)  pow2_table(63) } }
  var phase int = 0
  at loopbegin 3 { S = out.content[len(c1):] }
  at step 3 { top_byte(base, i)  be_snoc(S, u8(shr(base, 8 * i)))  assert out.content[len(c1):] == snoc(S, u8(shr(base, 8 * i)))  assert 8 * (i - 1) + 8 == 8 * i }
  at afterloop 3 {
    assert 8 * i + 8 == 0
    shr_zero(base, 8 * i + 8)
    S = out.content[len(c1):]
    be_sign(S, m, pvs.base < 0)
    c1 = out.content
    assert c1 == old(out.content) ++ c3 ++ S
  }
  loop 4
    invariant bitstate(e.bitsLeft, e.lastByte)
    invariant grew(c1, out.content)
    invariant emitted(e, out.content) == unpack(c1) ++ flat(pvs.values[:$n], pvs.width)
  at beforeloop 4 { assert pvs.values[:0] == empty([]uint64)  assert tobits(0, 0) == empty([]bool) }
  at loopbegin 4 { fits_at(pvs.values, pvs.width, $n) }
  at step 4 { flat_snoc(pvs.values[:$n], v, pvs.width)  assert snoc(pvs.values[:$n], v) == pvs.values[:$n + 1] }
  at afterloop 4 { assert pvs.values[:len(pvs.values)] == pvs.values }
  at after call writeLeftBits {
    if phase == 1 {
      phase = 2
      q1 = padn(e.bitsLeft)
      X = out.content[len(c1):]
      assert out.content == c1 ++ X
      unpack_concat(c1, X)
      assert unpack(c1) ++ unpack(X) == unpack(c1) ++ (flat(pvs.values, pvs.width) ++ tobits(0, q1))
      assert (unpack(c1) ++ unpack(X))[len(unpack(c1)):] == unpack(X)
      assert unpack(X) == flat(pvs.values, pvs.width) ++ tobits(0, q1)
      c2 = out.content
    } else {
      q2 = padn(e.bitsLeft)
      Y = out.content[len(c2):]
      assert out.content == c2 ++ Y
      unpack_concat(c2, Y)
      assert unpack(c2) ++ unpack(Y) == unpack(c2) ++ (flat(plist(pvs.gaps, pvs.patches, patchWidth), pgw + patchWidth) ++ tobits(0, q2))
      assert (unpack(c2) ++ unpack(Y))[len(unpack(c2)):] == unpack(Y)
      assert unpack(Y) == flat(plist(pvs.gaps, pvs.patches, patchWidth), pgw + patchWidth) ++ tobits(0, q2)
      R = out.content[len(old(out.content)):]
      assert R == c3 ++ (S ++ X ++ Y)
      assert len(c3) == 4
      prefix4(c3, S ++ X ++ Y, R)
      head_def(R)
      patch_def(R)
      assert hcode(R) == w && hlen(R) == len(pvs.values)
      assert pbw(R) == bw && len(S) == bw
      assert ppw(R) == patchWidth && pgw(R) == pgw && pll(R) == len(pvs.patches)
      assert R[4:4 + bw] == S
      assert R[4] == S[0]
      assert pbase(R) == pvs.base
      assert R[4 + pbw(R):] == X ++ Y
      irun_patch(R, pvs.base, pvs.values, pvs.width, X, q1, pvs.gaps, pvs.patches, pgw, patchWidth, Y, q2)
    }
  }
  loop 5
    invariant bitstate(e.bitsLeft, e.lastByte)
    invariant grew(c2, out.content)
    invariant emitted(e, out.content) == unpack(c2) ++ flat(plist(pvs.gaps[:$n], pvs.patches[:$n], patchWidth), pgw + patchWidth)
  at beforeloop 5 { assert pvs.gaps[:0] == empty([]goint)  assert pvs.patches[:0] == empty([]uint64)  assert tobits(0, 0) == empty([]bool)  plist_nil(patchWidth) }
  at loopbegin 5 {
    fits_at(pvs.patches, patchWidth, $n)
    gfits_idx(pvs.gaps, pgw, $n)
    patch_word_lt(pvs.gaps[$n], pvs.patches[$n], pgw, patchWidth)
    patch_word(pvs.gaps[$n], pvs.patches[$n], patchWidth)
  }
  at step 5 {
    plist_snoc(pvs.gaps[:$n], pvs.patches[:$n], pvs.gaps[$n], pvs.patches[$n], patchWidth)
    flat_snoc(plist(pvs.gaps[:$n], pvs.patches[:$n], patchWidth), shl(pvs.gaps[$n], patchWidth) + pvs.patches[$n], pgw + patchWidth)
    assert snoc(pvs.gaps[:$n], pvs.gaps[$n]) == pvs.gaps[:$n + 1]
    assert snoc(pvs.patches[:$n], pvs.patches[$n]) == pvs.patches[:$n + 1]
  }
  at afterloop 5 { assert pvs.gaps[:len(pvs.gaps)] == pvs.gaps  assert pvs.patches[:len(pvs.gaps)] == pvs.patches }
  reveal be, tobits

// offsets of the values from the base
fn dlist(V []uint64, base int) []uint64 rec decreases len(V) = len(V) == 0 ? empty([]uint64) : snoc(dlist(V[:len(V)-1], base), u64(unzz(V[len(V)-1]) - base))
// the widths cover the values
fn dwok(D []uint64, W []byte, width int) bool opaque = len(D) == len(W) && (forall k int {D[k]} {W[k]} :: 0 <= k < len(D) ==> D[k] < pow2(W[k]) && W[k] <= width)

lemma dlist_len(V []uint64, base int)
  property C01
  decreases len(V)
  ensures len(dlist(V, base)) == len(V)
  reveal dlist
{ if len(V) > 0 { dlist_len(V[:len(V)-1], base) } }

lemma dlist_nil(base int)
  property C01
  ensures dlist(empty([]uint64), base) == empty([]uint64)
  reveal dlist

lemma dlist_snoc(V []uint64, n int, base int)
  property C01
  requires 0 <= n < len(V)
  ensures dlist(V[:n + 1], base) == snoc(dlist(V[:n], base), u64(unzz(V[n]) - base))
  reveal dlist
{ assert V[:n + 1][:n] == V[:n] }

lemma dlist_at(V []uint64, n int, base int)
  property C01
  decreases len(V)
  requires 0 <= n < len(V)
  ensures dlist(V, base)[n] == u64(unzz(V[n]) - base)
  reveal dlist
{
  dlist_len(V[:len(V)-1], base)
  if n < len(V) - 1 { dlist_at(V[:len(V)-1], n, base)  assert dlist(V, base)[n] == dlist(V[:len(V)-1], base)[n] }
}

lemma dwok_nil(width int)
  property C01
  ensures dwok(empty([]uint64), empty([]byte), width)
  reveal dwok

lemma dwok_grow(D []uint64, W []byte, d u64, w byte, m int, m2 int)
  property C01
  requires dwok(D, W, m) && d < pow2(w) && w <= m2 && m <= m2
  ensures dwok(snoc(D, d), snoc(W, w), m2)
  reveal dwok

lemma dwok_at(D []uint64, W []byte, m int, k int)
  property C01
  requires dwok(D, W, m) && 0 <= k < len(D)
  ensures len(D) == len(W) && D[k] < pow2(W[k]) && W[k] <= m
  reveal dwok

lemma patch_split(x u64, k i64, w i64)
  mode bv
  property C01
  requires 0 <= w <= 63
  requires 0 <= k <= 64
  requires k - w <= 56
  requires x < pow2(k)
  ensures shr(x, w) < pow2(56)
  ensures band(x, pow2(w) - 1) < pow2(w)
  ensures u64(pow2(w) - 1) == pow2(w) - 1

lemma patch_join(x u64, w i64)
  mode bv
  property C01
  requires 0 <= w <= 62
  ensures bor(i64(band(x, pow2(w) - 1)), i64(shl(shr(x, w), w))) == i64(x)

lemma patch_zero(x i64)
  mode bv
  property C01
  ensures bor(x, 0) == x

// the value comes back from its two parts
lemma patchv_whole(v u64, base i64, x u64, w i64)
  property C01
  requires 0 <= w <= 62 && x == u64(unzz(v) - base)
  ensures patchv(true, repr(true, base + band(x, pow2(w) - 1)), base, shr(x, w), w) == v
  reveal repr, valu
{
  var lo = band(x, pow2(w) - 1)
  shift_split(x, w)
  patch_join(x, w)
  pow2_mono(w, 62)
  zz_bijection(i64(base + lo), 0)
  zz_bijection(0, v)
  assert i64(i64(base + lo) - base) == i64(lo)
  assert i64(base + i64(x)) == unzz(v)
}

lemma patchv_none(v u64, base i64, w i64)
  property C01
  requires 0 <= w <= 64
  ensures patchv(true, v, base, 0, w) == v
  reveal repr, valu
{
  zz_bijection(0, v)
  shl_mul(0, w)
  patch_zero(i64(unzz(v) - base))
}

lemma repr_whole(v u64, base i64, x u64)
  property C01
  requires x == u64(unzz(v) - base)
  ensures repr(true, base + x) == v
  reveal repr
{ zz_bijection(0, v)  assert i64(base + x) == unzz(v) }

func tryPatch(values, pvs)
  property C01
  requires pvs != nil && 1 <= len(values) <= 512 && len(pvs.gaps) == 0 && len(pvs.patches) == 0
  modifies pvs.base, pvs.values, pvs.width, pvs.count, pvs.gaps, pvs.patches
  ensures ret0 ==> pvs.count == len(values) && len(pvs.values) == len(values) && codedw(pvs.width) && fits(pvs.values, pvs.width)
  ensures ret0 ==> len(pvs.gaps) == len(pvs.patches) && len(pvs.patches) <= 31 && gfits(pvs.gaps, 8) && fits(pvs.patches, 56)
  ensures ret0 ==> (len(pvs.gaps) > 0 ==> psum(pvs.gaps) < len(pvs.values)) && pvs.base != -9223372036854775808
  ensures run: ret0 ==> papply(rlist(pvs.values, true, pvs.base), 0, pvs.gaps, pvs.patches, true, pvs.base, pvs.width) == values
  var D []uint64 = empty([]uint64)
  var L []uint64 = empty([]uint64)
  var w0 int = 0
  var x int = 0
  loop 1
    invariant 1 <= i <= max(len(values), 1) && count == (i > 1 ? i : 0)
    decreases len(values) - i
  loop 2
    invariant 0 <= i <= count && len(deltaValues) == count && len(deltaValuesWidths) == count && 0 <= width <= 64
    invariant i == 0 ==> width == 0
    invariant deltaValues[:i] == dlist(values[:i], base)
    invariant dwok(deltaValues[:i], deltaValuesWidths[:i], width)
    decreases count - i
  at beforeloop 2 { assert deltaValues[:0] == empty([]uint64)  assert deltaValuesWidths[:0] == empty([]byte)  assert values[:0] == empty([]uint64)  dwok_nil(0)  dlist_nil(base) }
  at loopbegin 2 { w0 = width  W0 = deltaValuesWidths[:i] }
  var W0 []byte = empty([]byte)
  at step 2 {
    assert deltaValuesWidths[:i] == W0
    dlist_snoc(values, i, base)
    dwok_grow(dlist(values[:i], base), deltaValuesWidths[:i], deltaValues[i], width_, w0, width)
    assert deltaValues[:i + 1] == snoc(deltaValues[:i], deltaValues[i])
    assert deltaValuesWidths[:i + 1] == snoc(deltaValuesWidths[:i], deltaValuesWidths[i])
  }
  at afterloop 2 {
    if count == len(values) {
      assert deltaValues[:count] == deltaValues && deltaValuesWidths[:count] == deltaValuesWidths && values[:count] == values
    }
  }
  loop 3
    invariant 0 <= i <= count && len(deltaValuesWidthHist) == 65
    decreases count - i
  at loopbegin 3 { dwok_at(deltaValues, deltaValuesWidths, width, i) }
  loop 4
    invariant 0 <= i <= 65 && w == 0
    decreases 65 - i
  loop 5
    invariant 0 <= i <= count && pvs.width == w && pvs.base == base && pvs.count == count && count == len(values) && len(pvs.values) == count
    invariant pvs.values[i:] == D[i:]
    invariant fits(pvs.values[:i], w)
    invariant len(pvs.gaps) == len(pvs.patches) && gfits(pvs.gaps, 8) && fits(pvs.patches, 56)
    invariant previousGap == psum(pvs.gaps) && 0 <= previousGap && (len(pvs.gaps) == 0 && previousGap == 0 || previousGap < i)
    invariant papply(rlist(pvs.values[:i], true, base), 0, pvs.gaps, pvs.patches, true, base, w) == values[:i]
    decreases count - i
  at beforeloop 5 {
    D = pvs.values
    assert pvs.values[:0] == empty([]uint64) && values[:0] == empty([]uint64)
    gfits_nil(8)  fits_nil(56)  fits_nil(w)
  }
  at loopbegin 5 { L = pvs.values[:i]  x = D[i]  assert pvs.values[i:][0] == D[i:][0]  dwok_at(D, deltaValuesWidths, width, i)  dlist_at(values, i, base) }
  loop 6
    invariant pvs.values[:i] == L && pvs.values[i:] == D[i:] && len(pvs.values) == count
    invariant len(pvs.gaps) == len(pvs.patches) && gfits(pvs.gaps, 8) && fits(pvs.patches, 56)
    invariant previousGap == psum(pvs.gaps) && 0 <= previousGap && (len(pvs.gaps) == 0 && previousGap == 0 || previousGap < i)
    invariant papply(rlist(L, true, base), 0, pvs.gaps, pvs.patches, true, base, w) == values[:i]
    decreases i - previousGap
  var G0 []goint = empty([]goint)
  var P0 []uint64 = empty([]uint64)
  at loopbegin 6 { G0 = pvs.gaps  P0 = pvs.patches }
  at step 6 {
    papply_snoc(rlist(L, true, base), 0, G0, P0, 255, 0, true, base, w)
    psum_snoc(G0, 255)
    pow2_table(8)  pow2_table(56)
    gfits_grow(G0, 255, 8, 8)
    fits_grow(P0, 0, 56, 56)
    patchv_none(values[:i][previousGap], base, w)
    assert upd(values[:i], previousGap, values[:i][previousGap]) == values[:i]
  }
  at afterloop 6 {
    G0 = pvs.gaps  P0 = pvs.patches
    patch_split(x, deltaValuesWidths[i], w)
    rlist_len(L, true, base)
    rlist_snoc(L, band(x, pow2(w) - 1), true, base)
    papply_ext(rlist(L, true, base), repr(true, base + band(x, pow2(w) - 1)), 0, G0, P0, true, base, w)
    papply_snoc(rlist(snoc(L, band(x, pow2(w) - 1)), true, base), 0, G0, P0, i - previousGap, shr(x, w), true, base, w)
    psum_snoc(G0, i - previousGap)
    gfits_grow(G0, i - previousGap, 8, 8)
    pow2_table(8)  pow2_table(56)
    fits_grow(P0, shr(x, w), 56, 56)
    fits_grow(L, band(x, pow2(w) - 1), w, w)
    patchv_whole(values[i], base, x, w)
  }
  at step 5 {
    if deltaValuesWidths[i] > w {
      assert pvs.values[:i + 1] == snoc(L, band(x, pow2(w) - 1))
      assert upd(snoc(values[:i], repr(true, base + band(x, pow2(w) - 1))), i, values[i]) == values[:i + 1]
    } else {
      pow2_mono(deltaValuesWidths[i], w)
      fits_grow(L, x, w, w)
      rlist_snoc(L, x, true, base)
      rlist_len(L, true, base)
      repr_whole(values[i], base, x)
      papply_ext(rlist(L, true, base), repr(true, base + x), 0, pvs.gaps, pvs.patches, true, base, w)
      assert pvs.values[:i + 1] == snoc(L, x)
      assert snoc(values[:i], values[i]) == values[:i + 1]
    }
  }
  at afterloop 5 { assert pvs.values[:count] == pvs.values && values[:count] == values }
  reveal papply, psum, rlist
