// Boolean run-length encoding: bits packed most significant first, the bytes
// run-length encoded
package encoding

fn bitat(b byte, k int) bool = shr(b, 7 - k) % 2 == 1

// the booleans packed in a sequence of bytes, and their number
fn unpack1(b byte) []bool opaque = snoc(snoc(snoc(snoc(snoc(snoc(snoc(snoc(empty([]bool), bitat(b,0)), bitat(b,1)), bitat(b,2)), bitat(b,3)), bitat(b,4)), bitat(b,5)), bitat(b,6)), bitat(b,7))
fn unpack(B []byte) []bool rec decreases len(B) = len(B) == 0 ? empty([]bool) : unpack(B[:len(B)-1]) ++ unpack1(B[len(B)-1])

lemma unpack_empty()
  property C03
  auto
  ensures unpack(empty([]byte)) == empty([]bool)
  reveal unpack

lemma unpack1_zero()
  property C03
  auto
  ensures forall k int {unpack1(0)[k]} :: 0 <= k < 8 ==> !unpack1(0)[k]
  reveal unpack1

lemma unpack_len(B []byte)
  property C03
  decreases len(B)
  trigger {unpack(B)}
  ensures len(unpack(B)) == 8 * len(B)
  reveal unpack, unpack1
{ if len(B) > 0 { unpack_len(B[:len(B)-1]) } }

lemma unpack_concat(A []byte, B []byte)
  property C03
  decreases len(B)
  trigger {unpack(A ++ B)}
  ensures unpack(A ++ B) == unpack(A) ++ unpack(B)
  reveal unpack
{
  if len(B) > 0 {
    unpack_concat(A, B[:len(B)-1])
    assert (A ++ B)[:len(A ++ B)-1] == A ++ B[:len(B)-1]
  }
}

lemma unpack_snoc(B []byte, n int)
  requires 0 <= n < len(B)
  ensures unpack(B[:n+1]) == unpack(B[:n]) ++ unpack1(B[n])
  reveal unpack
{ assert B[:n+1][:n] == B[:n] }

func DecodeBoolsFromByte(b)
  property C03
  ensures ret0 == unpack1(b)
  reveal unpack1
  loop 1
    unroll 8

func DecodeBools(in, vs)
  property C03, C15
  requires in != nil
  modifies in.content
  ensures decodes: err == nil ==> runok(old(in.content)) && ret0 == vs ++ unpack(rundec(old(in.content))) && in.content == old(in.content)[runlen(old(in.content)):]
  ensures complete: healthy(in) && runok(old(in.content)) ==> err == nil
  loop 1
    invariant vs == old(vs) ++ unpack($s[:$n])
  at step 1 {
    unpack_snoc($s, $n)
  }
  loop 2
    unroll 8
  reveal unpack1

lemma setbit(b byte, k i64, j i64)
  property C03
  mode bv
  requires 0 <= k <= 7 && 0 <= j <= 7
  ensures bitat(bor(b, u8(shl(1, u8(i64(7 - k))))), j) <==> (j == k || bitat(b, j))

lemma setbits(b byte, k i64)
  property C03
  requires 0 <= k <= 7
  ensures unpack1(bor(b, u8(shl(1, u8(i64(7 - k)))))) == upd(unpack1(b), k, true)
  reveal unpack1
{ setbit(b, k, 0) setbit(b, k, 1) setbit(b, k, 2) setbit(b, k, 3) setbit(b, k, 4) setbit(b, k, 5) setbit(b, k, 6) setbit(b, k, 7) }

lemma unpack_build(A []byte, b byte)
  property C03
  trigger {unpack(snoc(A, b))}
  ensures unpack(snoc(A, b)) == unpack(A) ++ unpack1(b)
  reveal unpack

lemma unpack1_len(b byte)
  property C03
  trigger {unpack1(b)}
  ensures len(unpack1(b)) == 8
  reveal unpack1

func NewBoolEncoder(resetPosition)
  property C03
  ensures is(ret0, *boolRunLength) && fresh(ret0)
  ensures let e = as(ret0, *boolRunLength) in e.brl != nil && fresh(e.brl) && e.index == -1 && e.value == 0 && len(e.brl.values) == 0 && e.position == (resetPosition ? 0 : -1) && e.brl.position == (resetPosition ? 0 : -1)
  ensures encnew(ret0)
  at exit { ret0.emitted = empty([]byte) ret0.given = empty([]uint64) ret0.givenb = empty([]bool) ret0.given8 = empty([]byte) }

// the booleans held back by the encoder: whole bytes and a partial byte
fn partial(e *boolRunLength) []bool = unpack1(e.value)[:e.index+1]
// unused bits of the partial byte are clear
fn boolinv(e *boolRunLength) bool = e.brl != nil && -1 <= e.index <= 6 && len(e.brl.values) < 128 && (forall k int {unpack1(e.value)[k]} :: e.index < k < 8 ==> !unpack1(e.value)[k])

func (e *boolRunLength) Encode(v, out)
  property C03
  requires is(v, bool) && out != nil && boolinv(e)
  modifies e.index, e.value, e.position, e.brl.values, e.brl.position, out.content
  ensures err == nil
  ensures appended: grew(old(out.content), out.content)
  ensures wellformed: brlok(out.content[len(old(out.content)):])
  ensures decodes: unpack(brldec(out.content[len(old(out.content)):]) ++ e.brl.values) ++ partial(e) == snoc(old(unpack(e.brl.values) ++ partial(e)), as(v, bool))
  ensures state: boolinv(e)
  ensures C08: old(e.position == e.index + 1 && e.brl.position == len(e.brl.values)) ==> e.position == e.index + 1 && e.brl.position == len(e.brl.values)
  split
  at entry {
    setbits(e.value, e.index + 1)
  }

// bits of the partial byte, then padding
func (e *boolRunLength) Flush(out)
  property C03
  requires out != nil && boolinv(e)
  modifies e.index, e.value, e.position, e.brl.values, e.brl.position, out.content
  ensures err == nil
  ensures appended: grew(old(out.content), out.content)
  ensures wellformed: brlok(out.content[len(old(out.content)):])
  ensures decodes: let D = unpack(brldec(out.content[len(old(out.content)):])) in let V = old(unpack(e.brl.values) ++ partial(e)) in
    len(V) <= len(D) <= len(V) + 7 && D[:len(V)] == V && (forall k int {D[k]} :: len(V) <= k < len(D) ==> !D[k])
  ensures C08: old(e.position == e.index + 1 && e.brl.position == len(e.brl.values)) ==> e.position == e.index + 1 && e.brl.position == len(e.brl.values)
  ensures state: boolinv(e) && e.index == -1 && e.value == 0 && len(e.brl.values) == 0
  split
  var c1 []byte = empty([]byte)
  at before call Flush { c1 = out.content }
  at exit {
    var c0 = old(out.content)
    var E1 = c1[len(c0):]
    var E2 = out.content[len(c1):]
    assert out.content[len(c0):] == E1 ++ E2
    brl_concat(E1, E2)
  }
func (e *boolRunLength) GetPosition()
  property C08
  requires e.brl != nil
  ensures len(ret0) == 2 && (e.brl.position >= 0 ==> ret0[0] == e.brl.position) && (e.position >= 0 ==> ret0[1] == e.position)

// a session of Encode calls, from any state
lemma bool_session(S []byte, held []byte, part []bool, H []bool, E []byte, held1 []byte, part1 []bool, vs []bool)
  property C03
  requires brlok(S) && unpack(brldec(S) ++ held) ++ part == H
  requires brlok(E) && unpack(brldec(E) ++ held1) ++ part1 == (unpack(held) ++ part) ++ vs
  ensures brlok(S ++ E) && unpack(brldec(S ++ E) ++ held1) ++ part1 == H ++ vs
{
  brl_concat(S, E)
  unpack_concat(brldec(S), held)
  assert brldec(S ++ E) ++ held1 == brldec(S) ++ (brldec(E) ++ held1)
  unpack_concat(brldec(S), brldec(E) ++ held1)
}
