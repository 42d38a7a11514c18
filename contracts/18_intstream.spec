// Integer run-length encoding version 2: streams of runs, and the encoder as a whole
package encoding

// what follows a run does not change it
lemma uv_prefix2(E []byte, T []byte)
  property C01
  decreases len(E)
  requires uvok(E)
  ensures uvok(E ++ T) && uvlen(E ++ T) == uvlen(E) && uvval(E ++ T) == uvval(E)
  reveal uvok, uvlen, uvval
{
  assert (E ++ T)[1:] == E[1:] ++ T
  assert (E ++ T)[0] == E[0]
  if E[0] >= 128 { uv_prefix2(E[1:], T) }
}

lemma mul_nonneg(w int, n int)
  property C01
  requires 0 <= w && 0 <= n
  ensures mul(w, n) >= 0
  reveal mul
{ assert w * n >= 0 }

lemma unb_prefix(B []bool, T []bool, w int, n int)
  property C01
  decreases n
  requires 0 <= w && mul(w, n) <= len(B)
  ensures unb(B ++ T, w, n) == unb(B, w, n)
  reveal unb
{
  if n > 0 {
    mul_step(w, n - 1)
    mul_nonneg(w, n - 1)
    assert (B ++ T)[:w] == B[:w]
    assert (B ++ T)[w:] == B[w:] ++ T
    unb_prefix(B[w:], T, w, n - 1)
  }
}

lemma vseq_prefix(s bool, neg bool, prev int, B []bool, T []bool, w int, n int)
  property C01
  decreases n
  requires 0 <= w && mul(w, n) <= len(B)
  ensures vseq(s, neg, prev, B ++ T, w, n) == vseq(s, neg, prev, B, w, n)
  reveal vseq
{
  if n > 0 {
    mul_step(w, n - 1)
    mul_nonneg(w, n - 1)
    assert (B ++ T)[:w] == B[:w]
    assert (B ++ T)[w:] == B[w:] ++ T
    vseq_prefix(s, neg, nextv(s, neg, prev, numb(B[:w])), B[w:], T, w, n - 1)
  }
}

lemma pvals0_prefix(B []bool, T []bool, s bool, base int, w int, n int)
  property C01
  decreases n
  requires 0 <= w && mul(w, n) <= len(B)
  ensures pvals0(B ++ T, s, base, w, n) == pvals0(B, s, base, w, n)
  reveal pvals0
{
  if n > 0 {
    mul_step(w, n - 1)
    mul_nonneg(w, n - 1)
    assert (B ++ T)[:w] == B[:w]
    assert (B ++ T)[w:] == B[w:] ++ T
    pvals0_prefix(B[w:], T, s, base, w, n - 1)
  }
}

lemma patched_prefix(V []uint64, mark int, B []bool, T []bool, s bool, base int, w int, g int, p int, n int, L int)
  property C01
  decreases n
  requires 0 <= g && 0 <= p && mul(g + p, n) <= len(B)
  ensures patched(V, mark, B ++ T, s, base, w, g, p, n) == patched(V, mark, B, s, base, w, g, p, n)
  ensures pinside(B ++ T, mark, L, g, p, n) <==> pinside(B, mark, L, g, p, n)
  reveal patched, pinside
{
  if n > 0 {
    mul_step(g + p, n - 1)
    mul_nonneg(g + p, n - 1)
    assert (B ++ T)[:g + p] == B[:g + p]
    assert (B ++ T)[g + p:] == B[g + p:] ++ T
    patched_prefix(upd(V, ppos(numb(B[:g + p]), mark, p), patchv(s, V[ppos(numb(B[:g + p]), mark, p)], base, band(numb(B[:g + p]), pow2(p) - 1), w)), ppos(numb(B[:g + p]), mark, p), B[g + p:], T, s, base, w, g, p, n - 1, L)
  }
}

lemma nb_covers(w int, n int, k int)
  property C01
  requires nbytes(w, n) <= k
  ensures mul(w, n) <= 8 * k
  reveal nbytes

lemma short_prefix(E []byte, s bool, T []byte)
  property C01
  requires len(E) > 0 && kind(E) == 0 && iok(E, s)
  ensures iok(E ++ T, s) && 0 < ilen(E, s) <= len(E) && ilen(E ++ T, s) == ilen(E, s) && ivals(E ++ T, s) == ivals(E, s)
{
  run_def(E, s)
  run_def(E ++ T, s)
  assert (E ++ T)[0] == E[0]
  assert (E ++ T)[1:1 + srw(E)] == E[1:1 + srw(E)]
}

lemma direct_prefix(E []byte, s bool, T []byte)
  property C01
  requires len(E) > 0 && kind(E) == 1 && iok(E, s)
  ensures iok(E ++ T, s) && 0 < ilen(E, s) <= len(E) && ilen(E ++ T, s) == ilen(E, s) && ivals(E ++ T, s) == ivals(E, s)
{
  run_def(E, s)
  run_def(E ++ T, s)
  head_def(E)
  head_def(E ++ T)
  assert (E ++ T)[0] == E[0] && (E ++ T)[1] == E[1]
  assert (E ++ T)[2:] == E[2:] ++ T
  unpack_concat(E[2:], T)
  nb_covers(iwidth(hcode(E), false), hlen(E), len(E) - 2)
  unb_prefix(unpack(E[2:]), unpack(T), iwidth(hcode(E), false), hlen(E))
}

lemma delta_prefix(E []byte, s bool, T []byte)
  property C01
  requires len(E) > 0 && kind(E) == 3 && iok(E, s)
  ensures iok(E ++ T, s) && 0 < ilen(E, s) <= len(E) && ilen(E ++ T, s) == ilen(E, s) && ivals(E ++ T, s) == ivals(E, s)
{
  run_def(E, s)
  run_def(E ++ T, s)
  head_def(E)
  head_def(E ++ T)
  delta_def(E, s)
  delta_def(E ++ T, s)
  devals_def(E, s)
  devals_def(E ++ T, s)
  assert (E ++ T)[0] == E[0] && (E ++ T)[1] == E[1]
  assert (E ++ T)[2:] == E[2:] ++ T
  uv_prefix2(E[2:], T)
  assert de1(E ++ T) == de1(E) ++ T
  uv_prefix2(de1(E), T)
  assert de2(E ++ T) == de2(E) ++ T
  unpack_concat(de2(E), T)
  de2_suffix(E)
  if hlen(E) >= 2 {
    nb_covers(iwidth(hcode(E), true), hlen(E) - 2, len(de2(E)))
    vseq_prefix(s, dneg(E), dsec(E, s), unpack(de2(E)), unpack(T), iwidth(hcode(E), true), hlen(E) - 2)
  }
  assert ddelta(E ++ T) == ddelta(E) && dsec(E ++ T, s) == dsec(E, s)
}

lemma patch_prefix(E []byte, s bool, T []byte)
  property C01
  requires len(E) > 0 && kind(E) == 2 && iok(E, s)
  ensures iok(E ++ T, s) && 0 < ilen(E, s) <= len(E) && ilen(E ++ T, s) == ilen(E, s) && ivals(E ++ T, s) == ivals(E, s)
{
  run_def(E, s)
  run_def(E ++ T, s)
  head_def(E)
  head_def(E ++ T)
  patch_def(E)
  patch_def(E ++ T)
  assert (E ++ T)[0] == E[0] && (E ++ T)[1] == E[1] && (E ++ T)[2] == E[2] && (E ++ T)[3] == E[3]
  assert (E ++ T)[4:4 + pbw(E)] == E[4:4 + pbw(E)]
  assert (E ++ T)[4] == E[4]
  assert pbase(E ++ T) == pbase(E)
  assert pe1(E ++ T) == pe1(E) ++ T
  assert pe2(E ++ T) == pe2(E) ++ T
  unpack_concat(pe1(E), T)
  unpack_concat(pe2(E), T)
  nb_covers(pw(E), hlen(E), len(pe1(E)))
  nb_covers(pgw(E) + ppw(E), pll(E), len(pe2(E)))
  pvals0_prefix(unpack(pe1(E)), unpack(T), s, pbase(E), pw(E), hlen(E))
  patched_prefix(pvals0(unpack(pe1(E)), s, pbase(E), pw(E), hlen(E)), 0, unpack(pe2(E)), unpack(T), s, pbase(E), pw(E), pgw(E), ppw(E), pll(E), hlen(E))
}

lemma run_prefix(E []byte, s bool, T []byte)
  property C01
  requires iok(E, s)
  ensures iok(E ++ T, s) && 0 < ilen(E, s) <= len(E) && ilen(E ++ T, s) == ilen(E, s) && ivals(E ++ T, s) == ivals(E, s)
{
  iok_nonempty(E, s)
  assert kind(E) == 0 || kind(E) == 1 || kind(E) == 2 || kind(E) == 3
  if kind(E) == 0 { short_prefix(E, s, T) }
  if kind(E) == 1 { direct_prefix(E, s, T) }
  if kind(E) == 2 { patch_prefix(E, s, T) }
  if kind(E) == 3 { delta_prefix(E, s, T) }
}

// a stream: runs behind each other, and the values they stand for
fn iall(E []byte, s bool) bool rec decreases len(E) = len(E) == 0 || iok(E, s) && 0 < ilen(E, s) <= len(E) && iall(E[ilen(E, s):], s)
fn icat(E []byte, s bool) []uint64 rec decreases len(E) = len(E) == 0 || ilen(E, s) <= 0 || ilen(E, s) > len(E) ? empty([]uint64) : ivals(E, s) ++ icat(E[ilen(E, s):], s)

lemma icat_concat(A []byte, B []byte, s bool)
  property C01
  decreases len(A)
  requires iall(A, s) && iall(B, s)
  ensures iall(A ++ B, s) && icat(A ++ B, s) == icat(A, s) ++ icat(B, s)
  reveal iall, icat
{
  if len(A) > 0 {
    run_prefix(A, s, B)
    assert (A ++ B)[ilen(A, s):] == A[ilen(A, s):] ++ B
    icat_concat(A[ilen(A, s):], B, s)
  } else { assert A ++ B == B }
}

lemma icat_nil(s bool)
  property C01
  ensures iall(empty([]byte), s) && icat(empty([]byte), s) == empty([]uint64)
  reveal iall, icat

lemma icat_run(R []byte, s bool, V []uint64)
  property C01
  requires irun(R, s, V)
  ensures iall(R, s) && icat(R, s) == V
  reveal iall, icat, irun
{
  icat_nil(s)
  assert R[ilen(R, s):] == empty([]byte)
  assert icat(R, s) == V ++ icat(R[ilen(R, s):], s)
}

// decoding a stream run by run gives icat of the stream: one step
lemma icat_step(E []byte, s bool)
  property C01
  requires iok(E, s)
  ensures icat(E, s) == ivals(E, s) ++ icat(E[ilen(E, s):], s) && (iall(E, s) <==> iall(E[ilen(E, s):], s))
  reveal iall, icat
{ run_prefix(E, s, empty([]byte)) }

// a whole session: after every call the bytes produced so far decode to all
// values given so far except the pending ones
lemma int_session(S []byte, s bool, pending []uint64, H []uint64, E []byte, pending1 []uint64, vs []uint64)
  property C01
  requires iall(S, s) && icat(S, s) ++ pending == H
  requires iall(E, s) && icat(E, s) ++ pending1 == pending ++ vs
  ensures iall(S ++ E, s) && icat(S ++ E, s) ++ pending1 == H ++ vs
{ icat_concat(S, E, s) }

lemma urep_front(u u64, n int)
  property C01
  decreases n
  requires n > 0
  ensures urep(u, n) == snoc(empty([]uint64), u) ++ urep(u, n - 1)
  reveal urep
{ if n > 1 { urep_front(u, n - 1) } }

lemma fseq_zero(s bool, neg bool, u u64, n int)
  property C01
  decreases n
  ensures fseq(s, neg, u, 0, n) == urep(u, n)
  reveal fseq, urep, repr, valu
{
  zz_bijection(0, u)
  assert nextv(s, neg, u, 0) == u
  if n > 0 {
    fseq_zero(s, neg, u, n - 1)
    urep_front(u, n)
  }
}

// a delta run of equal values
lemma dvals_fixed(s bool, u u64, n int)
  property C01
  requires n >= 2
  ensures dvals(s, u, 0, n, empty([]uint64)) == urep(u, n)
  reveal repr, valu
{
  zz_bijection(0, u)
  dvals_def(s, u, 0, n, empty([]uint64))
  assert nextv(s, false, u, 0) == u
  fseq_zero(s, false, u, n - 2)
  urep_front(u, n)
  urep_front(u, n - 1)
}

func (e *intRLV2Encoder) write(out, toEnd)
  property C01
  requires out != nil && 1 <= len(e.values) <= 512
  modifies e.values, e.bitsLeft, e.lastByte, out.content
  ensures err == nil
  ensures appended: grew(old(out.content), out.content)
  ensures wellformed: iall(out.content[len(old(out.content)):], e.signed)
  ensures decodes: icat(out.content[len(old(out.content)):], e.signed) ++ e.values == old(e.values)
  ensures drained: toEnd ==> len(e.values) == 0
  ensures progress: len(e.values) < len(old(e.values))
  var E []byte = empty([]byte)
  var c0 []byte = empty([]byte)
  var V0 []uint64 = empty([]uint64)
  var V []uint64 = empty([]uint64)
  var R []byte = empty([]byte)
  at entry { icat_nil(e.signed) }
  loop 1
    invariant out.content == old(out.content) ++ E && iall(E, e.signed)
    invariant icat(E, e.signed) ++ e.values == old(e.values)
    invariant len(e.values) <= 512
    decreases len(e.values)
  at loopbegin 1 { c0 = out.content  V0 = e.values  zz_bijection(0, V0[0]) }
  at after call writeShortRepeat {
    R = out.content[len(c0):]
    icat_run(R, e.signed, urep(V0[0], repeat))
    icat_concat(E, R, e.signed)
    assert out.content == c0 ++ R
    E = E ++ R
    c0 = out.content
    assert V0 == V0[:repeat] ++ V0[repeat:]
  }
  var fixed bool = false
  at after call writeDelta {
    R = out.content[len(c0):]
    if arg2 == 0 {
      dvals_fixed(e.signed, V0[0], arg3)
    }
    V = V0[:arg3]
    assert dvals(e.signed, V0[0], arg2, arg3, arg4) == V
    icat_run(R, e.signed, V)
    icat_concat(E, R, e.signed)
    assert out.content == c0 ++ R
    E = E ++ R
    c0 = out.content
    assert V0 == V0[:arg3] ++ V0[arg3:]
  }
  at after call writePatch {
    R = out.content[len(c0):]
    icat_run(R, e.signed, V0)
    icat_concat(E, R, e.signed)
    assert out.content == c0 ++ R
    E = E ++ R
    c0 = out.content
    assert V0[len(V0):] == empty([]uint64)
  }
  at exit { assert out.content[len(old(out.content)):] == E  assert icat(E, e.signed) ++ e.values == old(e.values) }
  at before call writeDirect { V = e.values  c0 = out.content }
  at after call writeDirect {
    R = out.content[len(c0):]
    icat_run(R, e.signed, V)
    icat_concat(E, R, e.signed)
    assert out.content == c0 ++ R
    E = E ++ R
    c0 = out.content
  }

func (e *intRLV2Encoder) Flush(out)
  property C01
  requires out != nil && len(e.values) <= 512
  modifies e.values, e.bitsLeft, e.lastByte, e.position, out.content
  ensures err == nil
  ensures appended: grew(old(out.content), out.content)
  ensures wellformed: iall(out.content[len(old(out.content)):], e.signed)
  ensures decodes: icat(out.content[len(old(out.content)):], e.signed) == old(e.values)
  ensures drained: len(e.values) == 0
  ensures C08: e.position == (old(e.position) == -1 ? -1 : 0)
  at entry { icat_nil(e.signed) }

func (e *intRLV2Encoder) Encode(v, out)
  property C01
  requires out != nil && len(e.values) < 512
  modifies e.values, e.bitsLeft, e.lastByte, e.position, out.content
  ensures accepted: err == nil <==> (e.signed ? is(v, int64) : is(v, uint64))
  ensures refused: err != nil ==> e.values == old(e.values) && out.content == old(out.content) && e.position == old(e.position)
  ensures appended: grew(old(out.content), out.content)
  ensures bounded: len(e.values) < 512
  ensures wellformed: iall(out.content[len(old(out.content)):], e.signed)
  ensures signed: err == nil && e.signed ==> icat(out.content[len(old(out.content)):], true) ++ e.values == snoc(old(e.values), zz(as(v, int64)))
  ensures unsigned: err == nil && !e.signed ==> icat(out.content[len(old(out.content)):], false) ++ e.values == snoc(old(e.values), as(v, uint64))
  ensures C08: err == nil ==> e.position == (old(e.position) == -1 ? -1 : len(e.values))
  at entry { icat_nil(e.signed) }

func (e *intRLV2Encoder) GetPosition()
  property C01, C08
  ensures len(ret0) == 1 && (e.position >= 0 ==> ret0[0] == e.position)

func NewIntRLV2(signed, doPosition)
  property C01
  ensures is(ret0, *intRLV2Encoder) && fresh(ret0) && as(ret0, *intRLV2Encoder).signed == signed
  ensures as(ret0, *intRLV2Encoder).values == empty([]uint64)
  ensures as(ret0, *intRLV2Encoder).position == (doPosition ? 0 : -1)
  ensures encnew(ret0)
  at exit { ret0.emitted = empty([]byte) ret0.given = empty([]uint64) ret0.givenb = empty([]bool) ret0.given8 = empty([]byte) }
