// Byte run-length encoding
package encoding

fn rep(v byte, n int) []byte rec decreases n = n <= 0 ? empty([]byte) : snoc(rep(v, n-1), v)

lemma rep_shape(v byte, n int)
  requires n >= 0
  decreases n
  trigger {rep(v, n)}
  ensures len(rep(v, n)) == n
  ensures forall i int {rep(v,n)[i]} :: 0 <= i < n ==> rep(v,n)[i] == v
  reveal rep
{
  if n > 0 { rep_shape(v, n-1) }
}

// length in bytes and values of the first run
fn runlen(E []byte) int = E[0] < 128 ? 2 : 257 - E[0]
fn rundec(E []byte) []byte = E[0] < 128 ? rep(E[1], E[0] + 3) : E[1:257 - E[0]]
fn runok(E []byte) bool = len(E) > 0 && runlen(E) <= len(E)

fn brlok(E []byte) bool rec decreases len(E) = len(E) == 0 || (runok(E) && brlok(E[runlen(E):]))
fn brldec(E []byte) []byte rec decreases len(E) = len(E) == 0 || !runok(E) ? empty([]byte) : rundec(E) ++ brldec(E[runlen(E):])

lemma brl_empty()
  property C02
  auto
  ensures brlok(empty([]byte)) && brldec(empty([]byte)) == empty([]byte)
  reveal brlok, brldec

lemma brl_concat(A []byte, B []byte)
  property C02
  requires brlok(A)
  decreases len(A)
  ensures brldec(A ++ B) == brldec(A) ++ brldec(B)
  ensures brlok(A ++ B) <==> brlok(B)
  reveal brlok, brldec
{
  if len(A) > 0 {
    brl_concat(A[runlen(A):], B)
    assert (A ++ B)[runlen(A):] == A[runlen(A):] ++ B
    assert rundec(A ++ B) == rundec(A)
  }
}

lemma brl_one(E []byte)
  property C02
  requires runok(E) && runlen(E) == len(E)
  ensures brlok(E) && brldec(E) == rundec(E)
  reveal brlok, brldec
{
  assert E[runlen(E):] == empty([]byte)
}

func findRepeats(values, minRepeats)
  property C02
  requires minRepeats >= 2
  ensures 0 <= ret0 <= len(values)
  ensures ret0 < len(values) ==> ret0 + minRepeats <= len(values)
  ensures ret0 < len(values) ==> forall k int {values[k]} :: ret0 <= k < ret0 + minRepeats ==> values[k] == values[ret0]
  loop 1
    invariant 0 <= i <= len(values)
  loop 2
    invariant 0 <= i < len(values)
    invariant i + 1 <= j <= len(values)
    invariant count == j - i
    invariant count < minRepeats
    invariant forall k int {values[k]} :: i <= k < j ==> values[k] == values[i]

func (e *byteRunLength) encodeBytes(out, toEnd)
  property C02
  requires 0 < len(e.values) <= 128 && out != nil
  modifies e.values, out.content
  ensures appended: out.content == old(out.content) ++ out.content[len(old(out.content)):]
  ensures wellformed: brlok(out.content[len(old(out.content)):])
  ensures decodes: brldec(out.content[len(old(out.content)):]) ++ e.values == old(e.values)
  ensures drained: toEnd ==> len(e.values) == 0
  ensures progress: len(e.values) < len(old(e.values))
  var E []byte = empty([]byte)
  var c0 []byte = empty([]byte)
  loop 1
    invariant out.content == old(out.content) ++ E && brlok(E)
    invariant brldec(E) ++ e.values == old(e.values)
    invariant 0 < len(e.values) && len(e.values) <= len(old(e.values))
    decreases len(e.values)
  loop 2
    invariant 3 <= j <= len(e.values)
    invariant forall k int {e.values[k]} :: 0 <= k < j ==> e.values[k] == e.values[0]
  var v0 []byte = empty([]byte)
  at loopbegin 1 { c0 = out.content  v0 = e.values }
  at step 1 {
    var R = out.content[len(c0):]
    assert out.content == c0 ++ R
    assert runok(R) && runlen(R) == len(R)
    assert rundec(R) ++ e.values == v0
    brl_one(R)
    brl_concat(E, R)
    assert brldec(E ++ R) ++ e.values == old(e.values)
    E = E ++ R
    assert out.content == old(out.content) ++ E
  }
  reveal brldec, brlok

func NewByteEncoder(resetPosition)
  property C02
  ensures is(ret0, *byteRunLength) && fresh(ret0)
  ensures len(as(ret0, *byteRunLength).values) == 0
  ensures as(ret0, *byteRunLength).position == (resetPosition ? 0 : -1)
  ensures encnew(ret0)
  at exit { ret0.emitted = empty([]byte) ret0.given = empty([]uint64) ret0.givenb = empty([]bool) ret0.given8 = empty([]byte) }

func (e *byteRunLength) GetPosition()
  property C08
  ensures len(ret0) == 1 && (e.position >= 0 ==> ret0[0] == e.position)

// what a call appended to the output
fn grew(o []byte, n []byte) bool = n == o ++ n[len(o):]

func (e *byteRunLength) Encode(v, out)
  property C02
  requires is(v, byte) && out != nil && len(e.values) < 128
  modifies e.values, e.position, out.content
  ensures err == nil
  ensures appended: grew(old(out.content), out.content)
  ensures wellformed: brlok(out.content[len(old(out.content)):])
  ensures decodes: brldec(out.content[len(old(out.content)):]) ++ e.values == snoc(old(e.values), as(v, byte))
  ensures pending: len(e.values) < 128
  ensures C08: e.position == (old(e.position) == -1 ? -1 : len(e.values))

func (e *byteRunLength) Flush(out)
  property C02
  requires out != nil && len(e.values) <= 128
  modifies e.values, e.position, out.content
  ensures err == nil
  ensures appended: grew(old(out.content), out.content)
  ensures wellformed: brlok(out.content[len(old(out.content)):])
  ensures decodes: brldec(out.content[len(old(out.content)):]) == old(e.values)
  ensures drained: len(e.values) == 0
  ensures C08: e.position == (old(e.position) == -1 ? -1 : 0)
  reveal brlok, brldec
  var E []byte = empty([]byte)
  var c0 []byte = empty([]byte)
  loop 1
    invariant out.content == old(out.content) ++ E && brlok(E)
    invariant brldec(E) ++ e.values == old(e.values)
    invariant len(e.values) <= 128
    decreases len(e.values)
  at loopbegin 1 { c0 = out.content }
  at step 1 {
    var R = out.content[len(c0):]
    brl_concat(E, R)
    assert out.content == c0 ++ R
    E = E ++ R
  }

func DecodeByteRL(in, values)
  property C02, C15
  requires in != nil
  modifies in.content
  ensures decodes: err == nil ==> runok(old(in.content)) && ret0 == values ++ rundec(old(in.content)) && in.content == old(in.content)[runlen(old(in.content)):]
  ensures complete: healthy(in) && runok(old(in.content)) ==> err == nil
  ensures prefix: ret0 == values ++ ret0[len(values):]
  loop 1
    invariant values == old(values) ++ rep(v, i)
    invariant 0 <= i <= l
  loop 2
    invariant 0 <= i <= l
    invariant values == old(values) ++ old(in.content)[1:1+i] && i + 1 <= len(old(in.content))
    invariant in.content == old(in.content)[1+i:]
  reveal rep

// decoding a stream run by run gives brldec of the stream: one step
lemma brl_step(E []byte)
  property C02
  requires runok(E)
  ensures brldec(E) == rundec(E) ++ brldec(E[runlen(E):])
  ensures brlok(E) <==> brlok(E[runlen(E):])
  reveal brlok, brldec

// a whole session: after every call the bytes produced so far decode to all
// values given so far except the pending ones
lemma brl_session(S []byte, pending []byte, H []byte, E []byte, pending1 []byte, vs []byte)
  property C02
  requires brlok(S) && brldec(S) ++ pending == H
  requires brlok(E) && brldec(E) ++ pending1 == pending ++ vs
  ensures brlok(S ++ E) && brldec(S ++ E) ++ pending1 == H ++ vs
{
  brl_concat(S, E)
}
