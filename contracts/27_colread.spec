// Column readers: rows made of present flags and values.  Written by tools/gen_cols.py.
package column

// rows that carry a value
fn vcount(V []api.Value) int rec decreases len(V) = len(V) == 0 ? 0 : vcount(V[:len(V)-1]) + (V[len(V)-1].Null ? 0 : 1)
// flags that are set
fn tcount(F []bool) int rec decreases len(F) = len(F) == 0 ? 0 : tcount(F[:len(F)-1]) + (F[len(F)-1] ? 1 : 0)
fn usum(U []uint64) int rec decreases len(U) = len(U) == 0 ? 0 : usum(U[:len(U)-1]) + U[len(U)-1]

lemma vcount_range(V []api.Value)
  property C10
  decreases len(V)
  trigger {vcount(V)}
  ensures 0 <= vcount(V) <= len(V)
  reveal vcount
{ if len(V) > 0 { vcount_range(V[:len(V)-1]) } }

lemma vcount_snoc(V []api.Value, i int)
  property C10
  requires 0 <= i < len(V)
  ensures vcount(V[:i+1]) == vcount(V[:i]) + (V[i].Null ? 0 : 1)
  reveal vcount
{ assert V[:i+1][:len(V[:i+1])-1] == V[:i] }

lemma vcount_nil()
  property C10
  auto
  ensures vcount(empty([]api.Value)) == 0 && tcount(empty([]bool)) == 0 && usum(empty([]uint64)) == 0
  reveal vcount, tcount, usum

lemma tcount_range(F []bool)
  property C10
  decreases len(F)
  trigger {tcount(F)}
  ensures 0 <= tcount(F) <= len(F)
  reveal tcount
{ if len(F) > 0 { tcount_range(F[:len(F)-1]) } }

lemma tcount_snoc(F []bool, i int)
  property C10
  requires 0 <= i < len(F)
  ensures tcount(F[:i+1]) == tcount(F[:i]) + (F[i] ? 1 : 0)
  reveal tcount
{ assert F[:i+1][:len(F[:i+1])-1] == F[:i] }

lemma tcount_mono(F []bool, i int, n int)
  property C10
  decreases n - i
  requires 0 <= i <= n && n <= len(F)
  ensures tcount(F[:i]) <= tcount(F[:n])
{ if i < n { tcount_mono(F, i + 1, n)  tcount_snoc(F, i) } }

lemma vcount_mono(V []api.Value, i int, n int)
  property C10
  decreases n - i
  requires 0 <= i <= n && n <= len(V)
  ensures vcount(V[:i]) <= vcount(V[:n])
{ if i < n { vcount_mono(V, i + 1, n)  vcount_snoc(V, i) } }

// rows as their flags say
lemma vcount_flags(V []api.Value, F []bool)
  property C10
  decreases len(V)
  requires len(F) == len(V) && forall k int {V[k]} :: 0 <= k < len(V) ==> V[k].Null == !F[k]
  ensures vcount(V) == tcount(F)
  reveal vcount, tcount
{ if len(V) > 0 { vcount_flags(V[:len(V)-1], F[:len(F)-1]) } }

lemma usum_snoc(U []uint64, i int)
  property C10
  requires 0 <= i < len(U)
  ensures usum(U[:i+1]) == usum(U[:i]) + U[i]
  reveal usum
{ assert U[:i+1][:len(U[:i+1])-1] == U[:i] }

lemma usum_range(U []uint64)
  property C10
  decreases len(U)
  trigger {usum(U)}
  ensures usum(U) >= 0
  reveal usum
{ if len(U) > 0 { usum_range(U[:len(U)-1]) } }

lemma usum_mono(U []uint64, i int, n int)
  property C10
  decreases n - i
  requires 0 <= i <= n && n <= len(U)
  ensures usum(U[:i]) <= usum(U[:n])
{ if i < n { usum_mono(U, i + 1, n)  usum_snoc(U, i) } }

// the j-th piece of C, cut into pieces of the lengths U
fn piece(C []byte, U []uint64, j int) []byte = C[usum(U[:j]):][:U[j]]
fn small(U []uint64) bool = forall k int {U[k]} :: 0 <= k < len(U) ==> U[k] <= 4611686018427387904

// two streams that share nothing
fn sapart(a *stream.reader, b *stream.reader) bool = a != b && a.buf != b.buf && ref(a.f) != ref(b.f) && ref(a) != ref(b.f) && ref(b) != ref(a.f) && ref(a) != ref(b.buf) && ref(b) != ref(a.buf) &&
  ref(a) != ref(b.cmpBuf) && ref(b) != ref(a.cmpBuf) && ref(a.buf) != ref(b.f) && ref(a.f) != ref(b.buf) &&
  a.buf != b.cmpBuf && a.cmpBuf != b.buf && (a.cmpBuf != b.cmpBuf || a.cmpBuf == nil) && ref(a.cmpBuf) != ref(b.f) && ref(a.f) != ref(b.cmpBuf)

// ---- IntV2Reader
fn shape_IntV2Reader(r *IntV2Reader) bool = r != nil && (r.present != nil ==> boshape(r.present)) && r.data != nil && ishape(r.data) && r.data.signed && (r.present != nil ==> sapart(r.present.reader.stream, r.data.stream)) && (r.bits == 16 || r.bits == 32 || r.bits == 64)
fn good_IntV2Reader(r *IntV2Reader) bool = igood(r.data) && (r.present != nil ==> bgood(r.present.reader))
locs st_IntV2Reader(r *IntV2Reader) = bst(r.present) when r.present != nil, ist(r.data)

func (r *IntV2Reader) NextBatch(vec)
  property C10
  nocands
  requires shape_IntV2Reader(r) && vec != nil
  modifies vec.Vector, st_IntV2Reader(r)
  ensures state: shape_IntV2Reader(r) && (err == nil && old(good_IntV2Reader(r)) ==> good_IntV2Reader(r))
  ensures size: len(vec.Vector) == len(old(vec.Vector))
  ensures flags: err == nil && r.present != nil ==> len(old(boleft(r.present))) >= len(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
  ensures preset: err == nil && r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
  ensures values: err == nil ==> len(old(ileft(r.data))) >= vcount(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) && !vec.Vector[k].Null ==> (r.bits == 16 ? is(vec.Vector[k].V, int16) && as(vec.Vector[k].V, int16) == i16(old(ileft(r.data))[vcount(vec.Vector[:k])]) : r.bits == 32 ? is(vec.Vector[k].V, int32) && as(vec.Vector[k].V, int32) == i32(old(ileft(r.data))[vcount(vec.Vector[:k])]) : is(vec.Vector[k].V, int64) && as(vec.Vector[k].V, int64) == old(ileft(r.data))[vcount(vec.Vector[:k])])
  ensures left: err == nil ==> (r.present != nil ==> boleft(r.present) == old(boleft(r.present))[len(vec.Vector):]) && ileft(r.data) == old(ileft(r.data))[vcount(vec.Vector):]
  ensures complete: old(good_IntV2Reader(r)) && r.present != nil && len(old(boleft(r.present))) >= len(vec.Vector) && (let c = tcount(old(boleft(r.present))[:len(vec.Vector)]) in len(old(ileft(r.data))) >= c) ==> err == nil
  ensures complete2: old(good_IntV2Reader(r)) && r.present == nil && (let c = vcount(old(vec.Vector)) in len(old(ileft(r.data))) >= c) ==> err == nil
  loop 1
    invariant shape_IntV2Reader(r) && 0 <= i <= len(vec.Vector) && len(vec.Vector) == len(old(vec.Vector)) && (old(good_IntV2Reader(r)) ==> good_IntV2Reader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant r.present != nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
    invariant forall k int {vec.Vector[k]} :: i <= k < len(vec.Vector) ==> vec.Vector[k] == old(vec.Vector)[k]
    invariant r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
    invariant r.present != nil ==> vcount(vec.Vector[:i]) == tcount(old(boleft(r.present))[:i])
    invariant r.present == nil ==> vcount(vec.Vector[:i]) == vcount(old(vec.Vector)[:i])
    invariant len(old(ileft(r.data))) >= vcount(vec.Vector[:i]) && ileft(r.data) == old(ileft(r.data))[vcount(vec.Vector[:i]):]
    invariant forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> (r.bits == 16 ? is(vec.Vector[k].V, int16) && as(vec.Vector[k].V, int16) == i16(old(ileft(r.data))[vcount(vec.Vector[:k])]) : r.bits == 32 ? is(vec.Vector[k].V, int32) && as(vec.Vector[k].V, int32) == i32(old(ileft(r.data))[vcount(vec.Vector[:k])]) : is(vec.Vector[k].V, int64) && as(vec.Vector[k].V, int64) == old(ileft(r.data))[vcount(vec.Vector[:k])])
  var W []api.Value = empty([]api.Value)
  var c int = 0
  at loopbegin 1 {
    W = vec.Vector[:i]
    c = vcount(W)
    assert forall k int {W[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert forall k int {W[k]} :: 0 <= k < i && !W[k].Null ==> (r.bits == 16 ? is(W[k].V, int16) && as(W[k].V, int16) == i16(old(ileft(r.data))[vcount(W[:k])]) : r.bits == 32 ? is(W[k].V, int32) && as(W[k].V, int32) == i32(old(ileft(r.data))[vcount(W[:k])]) : is(W[k].V, int64) && as(W[k].V, int64) == old(ileft(r.data))[vcount(W[:k])])
    vcount_snoc(old(vec.Vector), i)
    vcount_mono(old(vec.Vector), i + 1, len(vec.Vector))
    assert old(vec.Vector)[:len(old(vec.Vector))] == old(vec.Vector)
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if len(vec.Vector) <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, len(vec.Vector)) } }
  }
  at loopend 1 {
    vcount_snoc(vec.Vector, i)
    assert vec.Vector[:i] == W
    assert vec.Vector[i].Null ==> ileft(r.data) == old(ileft(r.data))[c:]
    assert !vec.Vector[i].Null ==> len(old(ileft(r.data))) >= (c + 1) && ileft(r.data) == old(ileft(r.data))[(c + 1):]
    assert forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert !vec.Vector[i].Null ==> (r.bits == 16 ? is(vec.Vector[i].V, int16) && as(vec.Vector[i].V, int16) == i16(old(ileft(r.data))[vcount(vec.Vector[:i])]) : r.bits == 32 ? is(vec.Vector[i].V, int32) && as(vec.Vector[i].V, int32) == i32(old(ileft(r.data))[vcount(vec.Vector[:i])]) : is(vec.Vector[i].V, int64) && as(vec.Vector[i].V, int64) == old(ileft(r.data))[vcount(vec.Vector[:i])])
    assert forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> (r.bits == 16 ? is(vec.Vector[k].V, int16) && as(vec.Vector[k].V, int16) == i16(old(ileft(r.data))[vcount(vec.Vector[:k])]) : r.bits == 32 ? is(vec.Vector[k].V, int32) && as(vec.Vector[k].V, int32) == i32(old(ileft(r.data))[vcount(vec.Vector[:k])]) : is(vec.Vector[k].V, int64) && as(vec.Vector[k].V, int64) == old(ileft(r.data))[vcount(vec.Vector[:k])])
  }

func (r *IntV2Reader) Skip(rows)
  property C16
  nocands
  requires shape_IntV2Reader(r) && rows <= 4611686018427387904
  modifies st_IntV2Reader(r)
  ensures state: shape_IntV2Reader(r) && (err == nil && old(good_IntV2Reader(r)) ==> good_IntV2Reader(r))
  ensures left: err == nil ==> (r.present != nil ==> len(old(boleft(r.present))) >= rows && boleft(r.present) == old(boleft(r.present))[rows:]) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(ileft(r.data))) >= c && ileft(r.data) == old(ileft(r.data))[c:])
  ensures complete: old(good_IntV2Reader(r)) && (r.present != nil ==> len(old(boleft(r.present))) >= rows) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(ileft(r.data))) >= c) ==> err == nil
  var c int = 0
  var p0 bool = r.present != nil
  loop 1
    invariant shape_IntV2Reader(r) && 0 <= i <= rows && (old(good_IntV2Reader(r)) ==> good_IntV2Reader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant c == (r.present != nil ? tcount(old(boleft(r.present))[:i]) : i)
    invariant len(old(ileft(r.data))) >= c && ileft(r.data) == old(ileft(r.data))[c:]
    invariant r.present == nil ==> p
  at loopbegin 1 {
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if rows <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, rows) } }
  }
  at loopend 1 {
    assert !p ==> ileft(r.data) == old(ileft(r.data))[c:]
    c = c + (p ? 1 : 0)
    assert ileft(r.data) == old(ileft(r.data))[c:]
  }

// ---- ByteReader
fn shape_ByteReader(r *ByteReader) bool = r != nil && (r.present != nil ==> boshape(r.present)) && r.data != nil && bshape(r.data) && (r.present != nil ==> sapart(r.present.reader.stream, r.data.stream) && r.present.reader != r.data)
fn good_ByteReader(r *ByteReader) bool = bgood(r.data) && (r.present != nil ==> bgood(r.present.reader))
locs st_ByteReader(r *ByteReader) = bst(r.present) when r.present != nil, r.data.values, r.data.consumed, sst(r.data.stream)

func (r *ByteReader) NextBatch(vec)
  property C10
  nocands
  requires shape_ByteReader(r) && vec != nil
  modifies vec.Vector, st_ByteReader(r)
  ensures state: shape_ByteReader(r) && (err == nil && old(good_ByteReader(r)) ==> good_ByteReader(r))
  ensures size: len(vec.Vector) == len(old(vec.Vector))
  ensures flags: err == nil && r.present != nil ==> len(old(boleft(r.present))) >= len(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
  ensures preset: err == nil && r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
  ensures values: err == nil ==> len(old(bleft(r.data))) >= vcount(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) && !vec.Vector[k].Null ==> is(vec.Vector[k].V, byte) && as(vec.Vector[k].V, byte) == old(bleft(r.data))[vcount(vec.Vector[:k])]
  ensures left: err == nil ==> (r.present != nil ==> boleft(r.present) == old(boleft(r.present))[len(vec.Vector):]) && bleft(r.data) == old(bleft(r.data))[vcount(vec.Vector):]
  ensures complete: old(good_ByteReader(r)) && r.present != nil && len(old(boleft(r.present))) >= len(vec.Vector) && (let c = tcount(old(boleft(r.present))[:len(vec.Vector)]) in len(old(bleft(r.data))) >= c) ==> err == nil
  ensures complete2: old(good_ByteReader(r)) && r.present == nil && (let c = vcount(old(vec.Vector)) in len(old(bleft(r.data))) >= c) ==> err == nil
  loop 1
    invariant shape_ByteReader(r) && 0 <= i <= len(vec.Vector) && len(vec.Vector) == len(old(vec.Vector)) && (old(good_ByteReader(r)) ==> good_ByteReader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant r.present != nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
    invariant forall k int {vec.Vector[k]} :: i <= k < len(vec.Vector) ==> vec.Vector[k] == old(vec.Vector)[k]
    invariant r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
    invariant r.present != nil ==> vcount(vec.Vector[:i]) == tcount(old(boleft(r.present))[:i])
    invariant r.present == nil ==> vcount(vec.Vector[:i]) == vcount(old(vec.Vector)[:i])
    invariant len(old(bleft(r.data))) >= vcount(vec.Vector[:i]) && bleft(r.data) == old(bleft(r.data))[vcount(vec.Vector[:i]):]
    invariant forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> is(vec.Vector[k].V, byte) && as(vec.Vector[k].V, byte) == old(bleft(r.data))[vcount(vec.Vector[:k])]
  var W []api.Value = empty([]api.Value)
  var c int = 0
  at loopbegin 1 {
    W = vec.Vector[:i]
    c = vcount(W)
    assert forall k int {W[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert forall k int {W[k]} :: 0 <= k < i && !W[k].Null ==> is(W[k].V, byte) && as(W[k].V, byte) == old(bleft(r.data))[vcount(W[:k])]
    vcount_snoc(old(vec.Vector), i)
    vcount_mono(old(vec.Vector), i + 1, len(vec.Vector))
    assert old(vec.Vector)[:len(old(vec.Vector))] == old(vec.Vector)
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if len(vec.Vector) <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, len(vec.Vector)) } }
  }
  at loopend 1 {
    vcount_snoc(vec.Vector, i)
    assert vec.Vector[:i] == W
    assert vec.Vector[i].Null ==> bleft(r.data) == old(bleft(r.data))[c:]
    assert !vec.Vector[i].Null ==> len(old(bleft(r.data))) >= (c + 1) && bleft(r.data) == old(bleft(r.data))[(c + 1):]
    assert forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert !vec.Vector[i].Null ==> is(vec.Vector[i].V, byte) && as(vec.Vector[i].V, byte) == old(bleft(r.data))[vcount(vec.Vector[:i])]
    assert forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> is(vec.Vector[k].V, byte) && as(vec.Vector[k].V, byte) == old(bleft(r.data))[vcount(vec.Vector[:k])]
  }

func (r *ByteReader) Skip(rows)
  property C16
  nocands
  requires shape_ByteReader(r) && rows <= 4611686018427387904
  modifies st_ByteReader(r)
  ensures state: shape_ByteReader(r) && (err == nil && old(good_ByteReader(r)) ==> good_ByteReader(r))
  ensures left: err == nil ==> (r.present != nil ==> len(old(boleft(r.present))) >= rows && boleft(r.present) == old(boleft(r.present))[rows:]) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(bleft(r.data))) >= c && bleft(r.data) == old(bleft(r.data))[c:])
  ensures complete: old(good_ByteReader(r)) && (r.present != nil ==> len(old(boleft(r.present))) >= rows) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(bleft(r.data))) >= c) ==> err == nil
  var c int = 0
  var p0 bool = r.present != nil
  loop 1
    invariant shape_ByteReader(r) && 0 <= i <= rows && (old(good_ByteReader(r)) ==> good_ByteReader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant c == (r.present != nil ? tcount(old(boleft(r.present))[:i]) : i)
    invariant len(old(bleft(r.data))) >= c && bleft(r.data) == old(bleft(r.data))[c:]
    invariant r.present == nil ==> p
  at loopbegin 1 {
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if rows <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, rows) } }
  }
  at loopend 1 {
    assert !p ==> bleft(r.data) == old(bleft(r.data))[c:]
    c = c + (p ? 1 : 0)
    assert bleft(r.data) == old(bleft(r.data))[c:]
  }

// ---- BoolReader
fn shape_BoolReader(r *BoolReader) bool = r != nil && (r.present != nil ==> boshape(r.present)) && r.data != nil && boshape(r.data) && (r.present != nil ==> sapart(r.present.reader.stream, r.data.reader.stream) && r.present != r.data && r.present.reader != r.data.reader)
fn good_BoolReader(r *BoolReader) bool = bgood(r.data.reader) && (r.present != nil ==> bgood(r.present.reader))
locs st_BoolReader(r *BoolReader) = bst(r.present) when r.present != nil, bst(r.data)

func (r *BoolReader) NextBatch(vec)
  property C10
  nocands
  requires shape_BoolReader(r) && vec != nil
  modifies vec.Vector, st_BoolReader(r)
  ensures state: shape_BoolReader(r) && (err == nil && old(good_BoolReader(r)) ==> good_BoolReader(r))
  ensures size: len(vec.Vector) == len(old(vec.Vector))
  ensures flags: err == nil && r.present != nil ==> len(old(boleft(r.present))) >= len(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
  ensures preset: err == nil && r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
  ensures values: err == nil ==> len(old(boleft(r.data))) >= vcount(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) && !vec.Vector[k].Null ==> is(vec.Vector[k].V, bool) && as(vec.Vector[k].V, bool) == old(boleft(r.data))[vcount(vec.Vector[:k])]
  ensures left: err == nil ==> (r.present != nil ==> boleft(r.present) == old(boleft(r.present))[len(vec.Vector):]) && boleft(r.data) == old(boleft(r.data))[vcount(vec.Vector):]
  ensures complete: old(good_BoolReader(r)) && r.present != nil && len(old(boleft(r.present))) >= len(vec.Vector) && (let c = tcount(old(boleft(r.present))[:len(vec.Vector)]) in len(old(boleft(r.data))) >= c) ==> err == nil
  ensures complete2: old(good_BoolReader(r)) && r.present == nil && (let c = vcount(old(vec.Vector)) in len(old(boleft(r.data))) >= c) ==> err == nil
  loop 1
    invariant shape_BoolReader(r) && 0 <= i <= len(vec.Vector) && len(vec.Vector) == len(old(vec.Vector)) && (old(good_BoolReader(r)) ==> good_BoolReader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant r.present != nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
    invariant forall k int {vec.Vector[k]} :: i <= k < len(vec.Vector) ==> vec.Vector[k] == old(vec.Vector)[k]
    invariant r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
    invariant r.present != nil ==> vcount(vec.Vector[:i]) == tcount(old(boleft(r.present))[:i])
    invariant r.present == nil ==> vcount(vec.Vector[:i]) == vcount(old(vec.Vector)[:i])
    invariant len(old(boleft(r.data))) >= vcount(vec.Vector[:i]) && boleft(r.data) == old(boleft(r.data))[vcount(vec.Vector[:i]):]
    invariant forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> is(vec.Vector[k].V, bool) && as(vec.Vector[k].V, bool) == old(boleft(r.data))[vcount(vec.Vector[:k])]
  var W []api.Value = empty([]api.Value)
  var c int = 0
  at loopbegin 1 {
    W = vec.Vector[:i]
    c = vcount(W)
    assert forall k int {W[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert forall k int {W[k]} :: 0 <= k < i && !W[k].Null ==> is(W[k].V, bool) && as(W[k].V, bool) == old(boleft(r.data))[vcount(W[:k])]
    vcount_snoc(old(vec.Vector), i)
    vcount_mono(old(vec.Vector), i + 1, len(vec.Vector))
    assert old(vec.Vector)[:len(old(vec.Vector))] == old(vec.Vector)
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if len(vec.Vector) <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, len(vec.Vector)) } }
  }
  at loopend 1 {
    vcount_snoc(vec.Vector, i)
    assert vec.Vector[:i] == W
    assert vec.Vector[i].Null ==> boleft(r.data) == old(boleft(r.data))[c:]
    assert !vec.Vector[i].Null ==> len(old(boleft(r.data))) >= (c + 1) && boleft(r.data) == old(boleft(r.data))[(c + 1):]
    assert forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert !vec.Vector[i].Null ==> is(vec.Vector[i].V, bool) && as(vec.Vector[i].V, bool) == old(boleft(r.data))[vcount(vec.Vector[:i])]
    assert forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> is(vec.Vector[k].V, bool) && as(vec.Vector[k].V, bool) == old(boleft(r.data))[vcount(vec.Vector[:k])]
  }

func (r *BoolReader) Skip(rows)
  property C16
  nocands
  requires shape_BoolReader(r) && rows <= 4611686018427387904
  modifies st_BoolReader(r)
  ensures state: shape_BoolReader(r) && (err == nil && old(good_BoolReader(r)) ==> good_BoolReader(r))
  ensures left: err == nil ==> (r.present != nil ==> len(old(boleft(r.present))) >= rows && boleft(r.present) == old(boleft(r.present))[rows:]) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(boleft(r.data))) >= c && boleft(r.data) == old(boleft(r.data))[c:])
  ensures complete: old(good_BoolReader(r)) && (r.present != nil ==> len(old(boleft(r.present))) >= rows) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(boleft(r.data))) >= c) ==> err == nil
  var c int = 0
  var p0 bool = r.present != nil
  loop 1
    invariant shape_BoolReader(r) && 0 <= i <= rows && (old(good_BoolReader(r)) ==> good_BoolReader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant c == (r.present != nil ? tcount(old(boleft(r.present))[:i]) : i)
    invariant len(old(boleft(r.data))) >= c && boleft(r.data) == old(boleft(r.data))[c:]
    invariant r.present == nil ==> p
  at loopbegin 1 {
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if rows <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, rows) } }
  }
  at loopend 1 {
    assert !p ==> boleft(r.data) == old(boleft(r.data))[c:]
    c = c + (p ? 1 : 0)
    assert boleft(r.data) == old(boleft(r.data))[c:]
  }

// ---- FloatReader
fn shape_FloatReader(r *FloatReader) bool = r != nil && (r.present != nil ==> boshape(r.present)) && r.data != nil && r.data.stream != nil && srep(r.data.stream) && (r.present != nil ==> sapart(r.present.reader.stream, r.data.stream)) && r.is64 == r.data.is64
fn good_FloatReader(r *FloatReader) bool = fgood(r.data) && (r.present != nil ==> bgood(r.present.reader))
locs st_FloatReader(r *FloatReader) = bst(r.present) when r.present != nil, sst(r.data.stream)

func (r *FloatReader) NextBatch(vec)
  property C10
  nocands
  requires shape_FloatReader(r) && vec != nil
  modifies vec.Vector, st_FloatReader(r)
  ensures state: shape_FloatReader(r) && (err == nil && old(good_FloatReader(r)) ==> good_FloatReader(r))
  ensures size: len(vec.Vector) == len(old(vec.Vector))
  ensures flags: err == nil && r.present != nil ==> len(old(boleft(r.present))) >= len(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
  ensures preset: err == nil && r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
  ensures values: err == nil ==> len(old(fleft(r.data))) >= vcount(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) && !vec.Vector[k].Null ==> (r.is64 ? is(vec.Vector[k].V, float64) && bits(as(vec.Vector[k].V, float64)) == old(fleft(r.data))[vcount(vec.Vector[:k])] : is(vec.Vector[k].V, float32) && bits(as(vec.Vector[k].V, float32)) == old(fleft(r.data))[vcount(vec.Vector[:k])])
  ensures left: err == nil ==> (r.present != nil ==> boleft(r.present) == old(boleft(r.present))[len(vec.Vector):]) && fleft(r.data) == old(fleft(r.data))[vcount(vec.Vector):]
  ensures complete: old(good_FloatReader(r)) && r.present != nil && len(old(boleft(r.present))) >= len(vec.Vector) && (let c = tcount(old(boleft(r.present))[:len(vec.Vector)]) in len(old(fleft(r.data))) >= c) ==> err == nil
  ensures complete2: old(good_FloatReader(r)) && r.present == nil && (let c = vcount(old(vec.Vector)) in len(old(fleft(r.data))) >= c) ==> err == nil
  loop 1
    invariant shape_FloatReader(r) && 0 <= i <= len(vec.Vector) && len(vec.Vector) == len(old(vec.Vector)) && (old(good_FloatReader(r)) ==> good_FloatReader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant r.present != nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
    invariant forall k int {vec.Vector[k]} :: i <= k < len(vec.Vector) ==> vec.Vector[k] == old(vec.Vector)[k]
    invariant r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
    invariant r.present != nil ==> vcount(vec.Vector[:i]) == tcount(old(boleft(r.present))[:i])
    invariant r.present == nil ==> vcount(vec.Vector[:i]) == vcount(old(vec.Vector)[:i])
    invariant len(old(fleft(r.data))) >= vcount(vec.Vector[:i]) && fleft(r.data) == old(fleft(r.data))[vcount(vec.Vector[:i]):]
    invariant forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> (r.is64 ? is(vec.Vector[k].V, float64) && bits(as(vec.Vector[k].V, float64)) == old(fleft(r.data))[vcount(vec.Vector[:k])] : is(vec.Vector[k].V, float32) && bits(as(vec.Vector[k].V, float32)) == old(fleft(r.data))[vcount(vec.Vector[:k])])
    invariant err == nil
  var W []api.Value = empty([]api.Value)
  var c int = 0
  at loopbegin 1 {
    W = vec.Vector[:i]
    c = vcount(W)
    assert forall k int {W[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert forall k int {W[k]} :: 0 <= k < i && !W[k].Null ==> (r.is64 ? is(W[k].V, float64) && bits(as(W[k].V, float64)) == old(fleft(r.data))[vcount(W[:k])] : is(W[k].V, float32) && bits(as(W[k].V, float32)) == old(fleft(r.data))[vcount(W[:k])])
    vcount_snoc(old(vec.Vector), i)
    vcount_mono(old(vec.Vector), i + 1, len(vec.Vector))
    assert old(vec.Vector)[:len(old(vec.Vector))] == old(vec.Vector)
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if len(vec.Vector) <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, len(vec.Vector)) } }
  }
  at loopend 1 {
    vcount_snoc(vec.Vector, i)
    assert vec.Vector[:i] == W
    assert vec.Vector[i].Null ==> fleft(r.data) == old(fleft(r.data))[c:]
    assert !vec.Vector[i].Null ==> len(old(fleft(r.data))) >= (c + 1) && fleft(r.data) == old(fleft(r.data))[(c + 1):]
    assert forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert !vec.Vector[i].Null ==> (r.is64 ? is(vec.Vector[i].V, float64) && bits(as(vec.Vector[i].V, float64)) == old(fleft(r.data))[vcount(vec.Vector[:i])] : is(vec.Vector[i].V, float32) && bits(as(vec.Vector[i].V, float32)) == old(fleft(r.data))[vcount(vec.Vector[:i])])
    assert forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> (r.is64 ? is(vec.Vector[k].V, float64) && bits(as(vec.Vector[k].V, float64)) == old(fleft(r.data))[vcount(vec.Vector[:k])] : is(vec.Vector[k].V, float32) && bits(as(vec.Vector[k].V, float32)) == old(fleft(r.data))[vcount(vec.Vector[:k])])
  }

func (r *FloatReader) Skip(rows)
  property C16
  nocands
  requires shape_FloatReader(r) && rows <= 4611686018427387904
  modifies st_FloatReader(r)
  ensures state: shape_FloatReader(r) && (err == nil && old(good_FloatReader(r)) ==> good_FloatReader(r))
  ensures left: err == nil ==> (r.present != nil ==> len(old(boleft(r.present))) >= rows && boleft(r.present) == old(boleft(r.present))[rows:]) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(fleft(r.data))) >= c && fleft(r.data) == old(fleft(r.data))[c:])
  ensures complete: old(good_FloatReader(r)) && (r.present != nil ==> len(old(boleft(r.present))) >= rows) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(fleft(r.data))) >= c) ==> err == nil
  var c int = 0
  var p0 bool = r.present != nil
  loop 1
    invariant shape_FloatReader(r) && 0 <= i <= rows && (old(good_FloatReader(r)) ==> good_FloatReader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant c == (r.present != nil ? tcount(old(boleft(r.present))[:i]) : i)
    invariant len(old(fleft(r.data))) >= c && fleft(r.data) == old(fleft(r.data))[c:]
    invariant r.present == nil ==> p
  at loopbegin 1 {
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if rows <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, rows) } }
  }
  at loopend 1 {
    assert !p ==> fleft(r.data) == old(fleft(r.data))[c:]
    c = c + (p ? 1 : 0)
    assert fleft(r.data) == old(fleft(r.data))[c:]
  }

// ---- DateV2Reader
fn shape_DateV2Reader(r *DateV2Reader) bool = r != nil && (r.present != nil ==> boshape(r.present)) && is(r.data, *stream.dateV2Reader) && as(r.data, *stream.dateV2Reader) != nil && dshape(as(r.data, *stream.dateV2Reader)) && (r.present != nil ==> sapart(r.present.reader.stream, as(r.data, *stream.dateV2Reader).stream))
fn good_DateV2Reader(r *DateV2Reader) bool = dgood(as(r.data, *stream.dateV2Reader)) && (r.present != nil ==> bgood(r.present.reader))
locs st_DateV2Reader(r *DateV2Reader) = bst(r.present) when r.present != nil, dst(as(r.data, *stream.dateV2Reader))

func (r *DateV2Reader) NextBatch(vec)
  property C10
  nocands
  dispatch stream.DateReader as stream.dateV2Reader
  requires shape_DateV2Reader(r) && vec != nil
  modifies vec.Vector, st_DateV2Reader(r)
  ensures state: shape_DateV2Reader(r) && (err == nil && old(good_DateV2Reader(r)) ==> good_DateV2Reader(r))
  ensures size: len(vec.Vector) == len(old(vec.Vector))
  ensures flags: err == nil && r.present != nil ==> len(old(boleft(r.present))) >= len(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
  ensures preset: err == nil && r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
  ensures values: err == nil ==> len(old(dleft(as(r.data, *stream.dateV2Reader)))) >= vcount(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) && !vec.Vector[k].Null ==> is(vec.Vector[k].V, api.Date) && dateof(as(vec.Vector[k].V, api.Date), old(dleft(as(r.data, *stream.dateV2Reader)))[vcount(vec.Vector[:k])])
  ensures left: err == nil ==> (r.present != nil ==> boleft(r.present) == old(boleft(r.present))[len(vec.Vector):]) && dleft(as(r.data, *stream.dateV2Reader)) == old(dleft(as(r.data, *stream.dateV2Reader)))[vcount(vec.Vector):]
  ensures complete: old(good_DateV2Reader(r)) && r.present != nil && len(old(boleft(r.present))) >= len(vec.Vector) && (let c = tcount(old(boleft(r.present))[:len(vec.Vector)]) in len(old(dleft(as(r.data, *stream.dateV2Reader)))) >= c) ==> err == nil
  ensures complete2: old(good_DateV2Reader(r)) && r.present == nil && (let c = vcount(old(vec.Vector)) in len(old(dleft(as(r.data, *stream.dateV2Reader)))) >= c) ==> err == nil
  loop 1
    invariant shape_DateV2Reader(r) && 0 <= i <= len(vec.Vector) && len(vec.Vector) == len(old(vec.Vector)) && (old(good_DateV2Reader(r)) ==> good_DateV2Reader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant r.present != nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
    invariant forall k int {vec.Vector[k]} :: i <= k < len(vec.Vector) ==> vec.Vector[k] == old(vec.Vector)[k]
    invariant r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
    invariant r.present != nil ==> vcount(vec.Vector[:i]) == tcount(old(boleft(r.present))[:i])
    invariant r.present == nil ==> vcount(vec.Vector[:i]) == vcount(old(vec.Vector)[:i])
    invariant len(old(dleft(as(r.data, *stream.dateV2Reader)))) >= vcount(vec.Vector[:i]) && dleft(as(r.data, *stream.dateV2Reader)) == old(dleft(as(r.data, *stream.dateV2Reader)))[vcount(vec.Vector[:i]):]
    invariant forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> is(vec.Vector[k].V, api.Date) && dateof(as(vec.Vector[k].V, api.Date), old(dleft(as(r.data, *stream.dateV2Reader)))[vcount(vec.Vector[:k])])
  var W []api.Value = empty([]api.Value)
  var c int = 0
  at loopbegin 1 {
    W = vec.Vector[:i]
    c = vcount(W)
    assert forall k int {W[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert forall k int {W[k]} :: 0 <= k < i && !W[k].Null ==> is(W[k].V, api.Date) && dateof(as(W[k].V, api.Date), old(dleft(as(r.data, *stream.dateV2Reader)))[vcount(W[:k])])
    vcount_snoc(old(vec.Vector), i)
    vcount_mono(old(vec.Vector), i + 1, len(vec.Vector))
    assert old(vec.Vector)[:len(old(vec.Vector))] == old(vec.Vector)
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if len(vec.Vector) <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, len(vec.Vector)) } }
  }
  at loopend 1 {
    vcount_snoc(vec.Vector, i)
    assert vec.Vector[:i] == W
    assert vec.Vector[i].Null ==> dleft(as(r.data, *stream.dateV2Reader)) == old(dleft(as(r.data, *stream.dateV2Reader)))[c:]
    assert !vec.Vector[i].Null ==> len(old(dleft(as(r.data, *stream.dateV2Reader)))) >= (c + 1) && dleft(as(r.data, *stream.dateV2Reader)) == old(dleft(as(r.data, *stream.dateV2Reader)))[(c + 1):]
    assert forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert !vec.Vector[i].Null ==> is(vec.Vector[i].V, api.Date) && dateof(as(vec.Vector[i].V, api.Date), old(dleft(as(r.data, *stream.dateV2Reader)))[vcount(vec.Vector[:i])])
    assert forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> is(vec.Vector[k].V, api.Date) && dateof(as(vec.Vector[k].V, api.Date), old(dleft(as(r.data, *stream.dateV2Reader)))[vcount(vec.Vector[:k])])
  }

func (r *DateV2Reader) Skip(rows)
  property C16
  nocands
  dispatch stream.DateReader as stream.dateV2Reader
  requires shape_DateV2Reader(r) && rows <= 4611686018427387904
  modifies st_DateV2Reader(r)
  ensures state: shape_DateV2Reader(r) && (err == nil && old(good_DateV2Reader(r)) ==> good_DateV2Reader(r))
  ensures left: err == nil ==> (r.present != nil ==> len(old(boleft(r.present))) >= rows && boleft(r.present) == old(boleft(r.present))[rows:]) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(dleft(as(r.data, *stream.dateV2Reader)))) >= c && dleft(as(r.data, *stream.dateV2Reader)) == old(dleft(as(r.data, *stream.dateV2Reader)))[c:])
  ensures complete: old(good_DateV2Reader(r)) && (r.present != nil ==> len(old(boleft(r.present))) >= rows) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(dleft(as(r.data, *stream.dateV2Reader)))) >= c) ==> err == nil
  var c int = 0
  var p0 bool = r.present != nil
  loop 1
    invariant shape_DateV2Reader(r) && 0 <= i <= rows && (old(good_DateV2Reader(r)) ==> good_DateV2Reader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant c == (r.present != nil ? tcount(old(boleft(r.present))[:i]) : i)
    invariant len(old(dleft(as(r.data, *stream.dateV2Reader)))) >= c && dleft(as(r.data, *stream.dateV2Reader)) == old(dleft(as(r.data, *stream.dateV2Reader)))[c:]
    invariant r.present == nil ==> p
  at loopbegin 1 {
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if rows <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, rows) } }
  }
  at loopend 1 {
    assert !p ==> dleft(as(r.data, *stream.dateV2Reader)) == old(dleft(as(r.data, *stream.dateV2Reader)))[c:]
    c = c + (p ? 1 : 0)
    assert dleft(as(r.data, *stream.dateV2Reader)) == old(dleft(as(r.data, *stream.dateV2Reader)))[c:]
  }

// ---- TimestampV2Reader
fn shape_TimestampV2Reader(r *TimestampV2Reader) bool = r != nil && (r.present != nil ==> boshape(r.present)) && r.data != nil && ishape(r.data) && r.data.signed && r.secondary != nil && ishape(r.secondary) && !r.secondary.signed && sapart(r.data.stream, r.secondary.stream) && r.data != r.secondary && idec(r.data) != idec(r.secondary) && (r.present != nil ==> sapart(r.present.reader.stream, r.data.stream)) && (r.present != nil ==> sapart(r.present.reader.stream, r.secondary.stream))
fn good_TimestampV2Reader(r *TimestampV2Reader) bool = igood(r.data) && igood(r.secondary) && (r.present != nil ==> bgood(r.present.reader))
locs st_TimestampV2Reader(r *TimestampV2Reader) = bst(r.present) when r.present != nil, ist(r.data), ist(r.secondary)

func (r *TimestampV2Reader) NextBatch(vec)
  property C10
  nocands
  requires shape_TimestampV2Reader(r) && vec != nil
  modifies vec.Vector, st_TimestampV2Reader(r)
  ensures state: shape_TimestampV2Reader(r) && (err == nil && old(good_TimestampV2Reader(r)) ==> good_TimestampV2Reader(r))
  ensures size: len(vec.Vector) == len(old(vec.Vector))
  ensures flags: err == nil && r.present != nil ==> len(old(boleft(r.present))) >= len(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
  ensures preset: err == nil && r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
  ensures values: err == nil ==> len(old(ileft(r.data))) >= vcount(vec.Vector) && len(old(uleft(r.secondary))) >= vcount(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) && !vec.Vector[k].Null ==> is(vec.Vector[k].V, api.Timestamp) && as(vec.Vector[k].V, api.Timestamp).Seconds == old(ileft(r.data))[vcount(vec.Vector[:k])] && (nanodec(old(uleft(r.secondary))[vcount(vec.Vector[:k])]) <= 18446744073709551615 ==> as(vec.Vector[k].V, api.Timestamp).Nanos == nanodec(old(uleft(r.secondary))[vcount(vec.Vector[:k])]))
  ensures left: err == nil ==> (r.present != nil ==> boleft(r.present) == old(boleft(r.present))[len(vec.Vector):]) && ileft(r.data) == old(ileft(r.data))[vcount(vec.Vector):] && uleft(r.secondary) == old(uleft(r.secondary))[vcount(vec.Vector):]
  ensures complete: old(good_TimestampV2Reader(r)) && r.present != nil && len(old(boleft(r.present))) >= len(vec.Vector) && (let c = tcount(old(boleft(r.present))[:len(vec.Vector)]) in len(old(ileft(r.data))) >= c && len(old(uleft(r.secondary))) >= c) ==> err == nil
  ensures complete2: old(good_TimestampV2Reader(r)) && r.present == nil && (let c = vcount(old(vec.Vector)) in len(old(ileft(r.data))) >= c && len(old(uleft(r.secondary))) >= c) ==> err == nil
  loop 1
    invariant shape_TimestampV2Reader(r) && 0 <= i <= len(vec.Vector) && len(vec.Vector) == len(old(vec.Vector)) && (old(good_TimestampV2Reader(r)) ==> good_TimestampV2Reader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant r.present != nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
    invariant forall k int {vec.Vector[k]} :: i <= k < len(vec.Vector) ==> vec.Vector[k] == old(vec.Vector)[k]
    invariant r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
    invariant r.present != nil ==> vcount(vec.Vector[:i]) == tcount(old(boleft(r.present))[:i])
    invariant r.present == nil ==> vcount(vec.Vector[:i]) == vcount(old(vec.Vector)[:i])
    invariant len(old(ileft(r.data))) >= vcount(vec.Vector[:i]) && len(old(uleft(r.secondary))) >= vcount(vec.Vector[:i]) && ileft(r.data) == old(ileft(r.data))[vcount(vec.Vector[:i]):] && uleft(r.secondary) == old(uleft(r.secondary))[vcount(vec.Vector[:i]):]
    invariant forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> is(vec.Vector[k].V, api.Timestamp) && as(vec.Vector[k].V, api.Timestamp).Seconds == old(ileft(r.data))[vcount(vec.Vector[:k])] && (nanodec(old(uleft(r.secondary))[vcount(vec.Vector[:k])]) <= 18446744073709551615 ==> as(vec.Vector[k].V, api.Timestamp).Nanos == nanodec(old(uleft(r.secondary))[vcount(vec.Vector[:k])]))
  var W []api.Value = empty([]api.Value)
  var c int = 0
  at loopbegin 1 {
    W = vec.Vector[:i]
    c = vcount(W)
    assert forall k int {W[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert forall k int {W[k]} :: 0 <= k < i && !W[k].Null ==> is(W[k].V, api.Timestamp) && as(W[k].V, api.Timestamp).Seconds == old(ileft(r.data))[vcount(W[:k])] && (nanodec(old(uleft(r.secondary))[vcount(W[:k])]) <= 18446744073709551615 ==> as(W[k].V, api.Timestamp).Nanos == nanodec(old(uleft(r.secondary))[vcount(W[:k])]))
    vcount_snoc(old(vec.Vector), i)
    vcount_mono(old(vec.Vector), i + 1, len(vec.Vector))
    assert old(vec.Vector)[:len(old(vec.Vector))] == old(vec.Vector)
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if len(vec.Vector) <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, len(vec.Vector)) } }
  }
  at loopend 1 {
    vcount_snoc(vec.Vector, i)
    assert vec.Vector[:i] == W
    assert vec.Vector[i].Null ==> ileft(r.data) == old(ileft(r.data))[c:] && uleft(r.secondary) == old(uleft(r.secondary))[c:]
    assert !vec.Vector[i].Null ==> len(old(ileft(r.data))) >= (c + 1) && len(old(uleft(r.secondary))) >= (c + 1) && ileft(r.data) == old(ileft(r.data))[(c + 1):] && uleft(r.secondary) == old(uleft(r.secondary))[(c + 1):]
    assert forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert !vec.Vector[i].Null ==> is(vec.Vector[i].V, api.Timestamp) && as(vec.Vector[i].V, api.Timestamp).Seconds == old(ileft(r.data))[vcount(vec.Vector[:i])] && (nanodec(old(uleft(r.secondary))[vcount(vec.Vector[:i])]) <= 18446744073709551615 ==> as(vec.Vector[i].V, api.Timestamp).Nanos == nanodec(old(uleft(r.secondary))[vcount(vec.Vector[:i])]))
    assert forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> is(vec.Vector[k].V, api.Timestamp) && as(vec.Vector[k].V, api.Timestamp).Seconds == old(ileft(r.data))[vcount(vec.Vector[:k])] && (nanodec(old(uleft(r.secondary))[vcount(vec.Vector[:k])]) <= 18446744073709551615 ==> as(vec.Vector[k].V, api.Timestamp).Nanos == nanodec(old(uleft(r.secondary))[vcount(vec.Vector[:k])]))
  }

func (r *TimestampV2Reader) Skip(rows)
  property C16
  nocands
  requires shape_TimestampV2Reader(r) && rows <= 4611686018427387904
  modifies st_TimestampV2Reader(r)
  ensures state: shape_TimestampV2Reader(r) && (err == nil && old(good_TimestampV2Reader(r)) ==> good_TimestampV2Reader(r))
  ensures left: err == nil ==> (r.present != nil ==> len(old(boleft(r.present))) >= rows && boleft(r.present) == old(boleft(r.present))[rows:]) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(ileft(r.data))) >= c && len(old(uleft(r.secondary))) >= c && ileft(r.data) == old(ileft(r.data))[c:] && uleft(r.secondary) == old(uleft(r.secondary))[c:])
  ensures complete: old(good_TimestampV2Reader(r)) && (r.present != nil ==> len(old(boleft(r.present))) >= rows) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(ileft(r.data))) >= c && len(old(uleft(r.secondary))) >= c) ==> err == nil
  var c int = 0
  var p0 bool = r.present != nil
  loop 1
    invariant shape_TimestampV2Reader(r) && 0 <= i <= rows && (old(good_TimestampV2Reader(r)) ==> good_TimestampV2Reader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant c == (r.present != nil ? tcount(old(boleft(r.present))[:i]) : i)
    invariant len(old(ileft(r.data))) >= c && len(old(uleft(r.secondary))) >= c && ileft(r.data) == old(ileft(r.data))[c:] && uleft(r.secondary) == old(uleft(r.secondary))[c:]
    invariant r.present == nil ==> p
  at loopbegin 1 {
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if rows <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, rows) } }
  }
  at loopend 1 {
    assert !p ==> ileft(r.data) == old(ileft(r.data))[c:] && uleft(r.secondary) == old(uleft(r.secondary))[c:]
    c = c + (p ? 1 : 0)
    assert ileft(r.data) == old(ileft(r.data))[c:] && uleft(r.secondary) == old(uleft(r.secondary))[c:]
  }

// ---- DecimalV2Reader
fn shape_DecimalV2Reader(r *DecimalV2Reader) bool = r != nil && (r.present != nil ==> boshape(r.present)) && r.data != nil && r.data.stream != nil && srep(r.data.stream) && r.secondary != nil && ishape(r.secondary) && r.secondary.signed && sapart(r.data.stream, r.secondary.stream) && (r.present != nil ==> sapart(r.present.reader.stream, r.data.stream)) && (r.present != nil ==> sapart(r.present.reader.stream, r.secondary.stream))
fn good_DecimalV2Reader(r *DecimalV2Reader) bool = vgood(r.data) && igood(r.secondary) && (r.present != nil ==> bgood(r.present.reader))
locs st_DecimalV2Reader(r *DecimalV2Reader) = bst(r.present) when r.present != nil, sst(r.data.stream), ist(r.secondary)

func (r *DecimalV2Reader) NextBatch(vec)
  property C10
  nocands
  requires shape_DecimalV2Reader(r) && vec != nil
  modifies vec.Vector, st_DecimalV2Reader(r)
  ensures state: shape_DecimalV2Reader(r) && (err == nil && old(good_DecimalV2Reader(r)) ==> good_DecimalV2Reader(r))
  ensures size: len(vec.Vector) == len(old(vec.Vector))
  ensures flags: err == nil && r.present != nil ==> len(old(boleft(r.present))) >= len(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
  ensures preset: err == nil && r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
  ensures values: err == nil ==> len(old(vleft(r.data))) >= vcount(vec.Vector) && len(old(ileft(r.secondary))) >= vcount(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) && !vec.Vector[k].Null ==> is(vec.Vector[k].V, api.Decimal64) && as(vec.Vector[k].V, api.Decimal64).Precision == old(vleft(r.data))[vcount(vec.Vector[:k])] && as(vec.Vector[k].V, api.Decimal64).Scale == old(ileft(r.secondary))[vcount(vec.Vector[:k])]
  ensures left: err == nil ==> (r.present != nil ==> boleft(r.present) == old(boleft(r.present))[len(vec.Vector):]) && vleft(r.data) == old(vleft(r.data))[vcount(vec.Vector):] && ileft(r.secondary) == old(ileft(r.secondary))[vcount(vec.Vector):]
  ensures complete: old(good_DecimalV2Reader(r)) && r.present != nil && len(old(boleft(r.present))) >= len(vec.Vector) && (let c = tcount(old(boleft(r.present))[:len(vec.Vector)]) in len(old(vleft(r.data))) >= c && len(old(ileft(r.secondary))) >= c) ==> err == nil
  ensures complete2: old(good_DecimalV2Reader(r)) && r.present == nil && (let c = vcount(old(vec.Vector)) in len(old(vleft(r.data))) >= c && len(old(ileft(r.secondary))) >= c) ==> err == nil
  loop 1
    invariant shape_DecimalV2Reader(r) && 0 <= i <= len(vec.Vector) && len(vec.Vector) == len(old(vec.Vector)) && (old(good_DecimalV2Reader(r)) ==> good_DecimalV2Reader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant r.present != nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
    invariant forall k int {vec.Vector[k]} :: i <= k < len(vec.Vector) ==> vec.Vector[k] == old(vec.Vector)[k]
    invariant r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
    invariant r.present != nil ==> vcount(vec.Vector[:i]) == tcount(old(boleft(r.present))[:i])
    invariant r.present == nil ==> vcount(vec.Vector[:i]) == vcount(old(vec.Vector)[:i])
    invariant len(old(vleft(r.data))) >= vcount(vec.Vector[:i]) && len(old(ileft(r.secondary))) >= vcount(vec.Vector[:i]) && vleft(r.data) == old(vleft(r.data))[vcount(vec.Vector[:i]):] && ileft(r.secondary) == old(ileft(r.secondary))[vcount(vec.Vector[:i]):]
    invariant forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> is(vec.Vector[k].V, api.Decimal64) && as(vec.Vector[k].V, api.Decimal64).Precision == old(vleft(r.data))[vcount(vec.Vector[:k])] && as(vec.Vector[k].V, api.Decimal64).Scale == old(ileft(r.secondary))[vcount(vec.Vector[:k])]
  var W []api.Value = empty([]api.Value)
  var c int = 0
  at loopbegin 1 {
    W = vec.Vector[:i]
    c = vcount(W)
    assert forall k int {W[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert forall k int {W[k]} :: 0 <= k < i && !W[k].Null ==> is(W[k].V, api.Decimal64) && as(W[k].V, api.Decimal64).Precision == old(vleft(r.data))[vcount(W[:k])] && as(W[k].V, api.Decimal64).Scale == old(ileft(r.secondary))[vcount(W[:k])]
    vcount_snoc(old(vec.Vector), i)
    vcount_mono(old(vec.Vector), i + 1, len(vec.Vector))
    assert old(vec.Vector)[:len(old(vec.Vector))] == old(vec.Vector)
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if len(vec.Vector) <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, len(vec.Vector)) } }
  }
  at loopend 1 {
    vcount_snoc(vec.Vector, i)
    assert vec.Vector[:i] == W
    assert vec.Vector[i].Null ==> vleft(r.data) == old(vleft(r.data))[c:] && ileft(r.secondary) == old(ileft(r.secondary))[c:]
    assert !vec.Vector[i].Null ==> len(old(vleft(r.data))) >= (c + 1) && len(old(ileft(r.secondary))) >= (c + 1) && vleft(r.data) == old(vleft(r.data))[(c + 1):] && ileft(r.secondary) == old(ileft(r.secondary))[(c + 1):]
    assert forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert !vec.Vector[i].Null ==> is(vec.Vector[i].V, api.Decimal64) && as(vec.Vector[i].V, api.Decimal64).Precision == old(vleft(r.data))[vcount(vec.Vector[:i])] && as(vec.Vector[i].V, api.Decimal64).Scale == old(ileft(r.secondary))[vcount(vec.Vector[:i])]
    assert forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> is(vec.Vector[k].V, api.Decimal64) && as(vec.Vector[k].V, api.Decimal64).Precision == old(vleft(r.data))[vcount(vec.Vector[:k])] && as(vec.Vector[k].V, api.Decimal64).Scale == old(ileft(r.secondary))[vcount(vec.Vector[:k])]
  }

func (r *DecimalV2Reader) Skip(rows)
  property C16
  nocands
  requires shape_DecimalV2Reader(r) && rows <= 4611686018427387904
  modifies st_DecimalV2Reader(r)
  ensures state: shape_DecimalV2Reader(r) && (err == nil && old(good_DecimalV2Reader(r)) ==> good_DecimalV2Reader(r))
  ensures left: err == nil ==> (r.present != nil ==> len(old(boleft(r.present))) >= rows && boleft(r.present) == old(boleft(r.present))[rows:]) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(vleft(r.data))) >= c && len(old(ileft(r.secondary))) >= c && vleft(r.data) == old(vleft(r.data))[c:] && ileft(r.secondary) == old(ileft(r.secondary))[c:])
  ensures complete: old(good_DecimalV2Reader(r)) && (r.present != nil ==> len(old(boleft(r.present))) >= rows) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(vleft(r.data))) >= c && len(old(ileft(r.secondary))) >= c) ==> err == nil
  var c int = 0
  var p0 bool = r.present != nil
  loop 1
    invariant shape_DecimalV2Reader(r) && 0 <= i <= rows && (old(good_DecimalV2Reader(r)) ==> good_DecimalV2Reader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant c == (r.present != nil ? tcount(old(boleft(r.present))[:i]) : i)
    invariant len(old(vleft(r.data))) >= c && len(old(ileft(r.secondary))) >= c && vleft(r.data) == old(vleft(r.data))[c:] && ileft(r.secondary) == old(ileft(r.secondary))[c:]
    invariant r.present == nil ==> p
  at loopbegin 1 {
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if rows <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, rows) } }
  }
  at loopend 1 {
    assert !p ==> vleft(r.data) == old(vleft(r.data))[c:] && ileft(r.secondary) == old(ileft(r.secondary))[c:]
    c = c + (p ? 1 : 0)
    assert vleft(r.data) == old(vleft(r.data))[c:] && ileft(r.secondary) == old(ileft(r.secondary))[c:]
  }

// ---- BinaryV2Reader
fn shape_BinaryV2Reader(r *BinaryV2Reader) bool = r != nil && (r.present != nil ==> boshape(r.present)) && r.length != nil && ishape(r.length) && !r.length.signed && r.data != nil && r.data.stream != nil && srep(r.data.stream) && sapart(r.length.stream, r.data.stream) && (r.present != nil ==> sapart(r.present.reader.stream, r.length.stream)) && (r.present != nil ==> sapart(r.present.reader.stream, r.data.stream))
fn good_BinaryV2Reader(r *BinaryV2Reader) bool = igood(r.length) && r.data.stream.good && (r.present != nil ==> bgood(r.present.reader))
locs st_BinaryV2Reader(r *BinaryV2Reader) = bst(r.present) when r.present != nil, ist(r.length), sst(r.data.stream)

func (r *BinaryV2Reader) NextBatch(vec)
  property C10
  nocands
  requires shape_BinaryV2Reader(r) && vec != nil
  requires small(uleft(r.length))
  modifies vec.Vector, st_BinaryV2Reader(r)
  ensures state: shape_BinaryV2Reader(r) && (err == nil && old(good_BinaryV2Reader(r)) ==> good_BinaryV2Reader(r))
  ensures size: len(vec.Vector) == len(old(vec.Vector))
  ensures flags: err == nil && r.present != nil ==> len(old(boleft(r.present))) >= len(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
  ensures preset: err == nil && r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
  ensures values: err == nil ==> len(old(uleft(r.length))) >= vcount(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) && !vec.Vector[k].Null ==> is(vec.Vector[k].V, []byte) && as(vec.Vector[k].V, []byte) == piece(old(r.data.stream.content), old(uleft(r.length)), vcount(vec.Vector[:k]))
  ensures left: err == nil ==> (r.present != nil ==> boleft(r.present) == old(boleft(r.present))[len(vec.Vector):]) && uleft(r.length) == old(uleft(r.length))[vcount(vec.Vector):] && usum(old(uleft(r.length))[:vcount(vec.Vector)]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:vcount(vec.Vector)]):]
  ensures complete: old(good_BinaryV2Reader(r)) && r.present != nil && len(old(boleft(r.present))) >= len(vec.Vector) && (let c = tcount(old(boleft(r.present))[:len(vec.Vector)]) in len(old(uleft(r.length))) >= c && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content))) ==> err == nil
  ensures complete2: old(good_BinaryV2Reader(r)) && r.present == nil && (let c = vcount(old(vec.Vector)) in len(old(uleft(r.length))) >= c && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content))) ==> err == nil
  loop 1
    invariant shape_BinaryV2Reader(r) && 0 <= i <= len(vec.Vector) && len(vec.Vector) == len(old(vec.Vector)) && (old(good_BinaryV2Reader(r)) ==> good_BinaryV2Reader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant r.present != nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
    invariant forall k int {vec.Vector[k]} :: i <= k < len(vec.Vector) ==> vec.Vector[k] == old(vec.Vector)[k]
    invariant r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
    invariant r.present != nil ==> vcount(vec.Vector[:i]) == tcount(old(boleft(r.present))[:i])
    invariant r.present == nil ==> vcount(vec.Vector[:i]) == vcount(old(vec.Vector)[:i])
    invariant len(old(uleft(r.length))) >= vcount(vec.Vector[:i]) && uleft(r.length) == old(uleft(r.length))[vcount(vec.Vector[:i]):] && usum(old(uleft(r.length))[:vcount(vec.Vector[:i])]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:vcount(vec.Vector[:i])]):]
    invariant forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> is(vec.Vector[k].V, []byte) && as(vec.Vector[k].V, []byte) == piece(old(r.data.stream.content), old(uleft(r.length)), vcount(vec.Vector[:k]))
    invariant err == nil
  var W []api.Value = empty([]api.Value)
  var c int = 0
  at loopbegin 1 {
    W = vec.Vector[:i]
    c = vcount(W)
    assert forall k int {W[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert forall k int {W[k]} :: 0 <= k < i && !W[k].Null ==> is(W[k].V, []byte) && as(W[k].V, []byte) == piece(old(r.data.stream.content), old(uleft(r.length)), vcount(W[:k]))
    vcount_snoc(old(vec.Vector), i)
    vcount_mono(old(vec.Vector), i + 1, len(vec.Vector))
    assert old(vec.Vector)[:len(old(vec.Vector))] == old(vec.Vector)
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if len(vec.Vector) <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, len(vec.Vector)) } }
    if c < len(old(uleft(r.length))) {
      usum_snoc(old(uleft(r.length)), c)
      if r.present != nil && len(vec.Vector) <= len(old(boleft(r.present))) && tcount(old(boleft(r.present))[:len(vec.Vector)]) <= len(old(uleft(r.length))) && c + 1 <= tcount(old(boleft(r.present))[:len(vec.Vector)]) { usum_mono(old(uleft(r.length)), c + 1, tcount(old(boleft(r.present))[:len(vec.Vector)])) }
      if r.present == nil && vcount(old(vec.Vector)) <= len(old(uleft(r.length))) && c + 1 <= vcount(old(vec.Vector)) { usum_mono(old(uleft(r.length)), c + 1, vcount(old(vec.Vector))) }
    }
  }
  at loopend 1 {
    vcount_snoc(vec.Vector, i)
    assert vec.Vector[:i] == W
    assert vec.Vector[i].Null ==> uleft(r.length) == old(uleft(r.length))[c:] && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:c]):]
    assert !vec.Vector[i].Null ==> len(old(uleft(r.length))) >= (c + 1) && uleft(r.length) == old(uleft(r.length))[(c + 1):] && usum(old(uleft(r.length))[:(c + 1)]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:(c + 1)]):]
    assert forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert !vec.Vector[i].Null ==> is(vec.Vector[i].V, []byte) && as(vec.Vector[i].V, []byte) == piece(old(r.data.stream.content), old(uleft(r.length)), vcount(vec.Vector[:i]))
    assert forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> is(vec.Vector[k].V, []byte) && as(vec.Vector[k].V, []byte) == piece(old(r.data.stream.content), old(uleft(r.length)), vcount(vec.Vector[:k]))
  }

func (r *BinaryV2Reader) Skip(rows)
  property C16
  nocands
  requires shape_BinaryV2Reader(r) && rows <= 4611686018427387904
  requires small(uleft(r.length))
  modifies st_BinaryV2Reader(r)
  ensures state: shape_BinaryV2Reader(r) && (err == nil && old(good_BinaryV2Reader(r)) ==> good_BinaryV2Reader(r))
  ensures left: err == nil ==> (r.present != nil ==> len(old(boleft(r.present))) >= rows && boleft(r.present) == old(boleft(r.present))[rows:]) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(uleft(r.length))) >= c && uleft(r.length) == old(uleft(r.length))[c:] && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:c]):])
  ensures complete: old(good_BinaryV2Reader(r)) && (r.present != nil ==> len(old(boleft(r.present))) >= rows) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(uleft(r.length))) >= c && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content))) ==> err == nil
  var c int = 0
  var p0 bool = r.present != nil
  loop 1
    invariant shape_BinaryV2Reader(r) && 0 <= i <= rows && (old(good_BinaryV2Reader(r)) ==> good_BinaryV2Reader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant c == (r.present != nil ? tcount(old(boleft(r.present))[:i]) : i)
    invariant len(old(uleft(r.length))) >= c && uleft(r.length) == old(uleft(r.length))[c:] && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:c]):]
    invariant r.present == nil ==> p
  at loopbegin 1 {
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if rows <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, rows) } }
    if c < len(old(uleft(r.length))) {
      usum_snoc(old(uleft(r.length)), c)
      if r.present != nil && rows <= len(old(boleft(r.present))) && tcount(old(boleft(r.present))[:rows]) <= len(old(uleft(r.length))) && c + 1 <= tcount(old(boleft(r.present))[:rows]) { usum_mono(old(uleft(r.length)), c + 1, tcount(old(boleft(r.present))[:rows])) }
      if r.present == nil && rows <= len(old(uleft(r.length))) { usum_mono(old(uleft(r.length)), c + 1, rows) }
    }
  }
  at loopend 1 {
    assert !p ==> uleft(r.length) == old(uleft(r.length))[c:] && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:c]):]
    assert p ==> uleft(r.length) == old(uleft(r.length))[c+1:] && c < len(old(uleft(r.length)))
    if p { usum_snoc(old(uleft(r.length)), c)  assert r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:c]):][old(uleft(r.length))[c]:]  assert r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:c+1]):] }
    c = c + (p ? 1 : 0)
    assert uleft(r.length) == old(uleft(r.length))[c:] && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:c]):]
  }

// ---- StringDirectV2Reader
fn shape_StringDirectV2Reader(r *StringDirectV2Reader) bool = r != nil && (r.present != nil ==> boshape(r.present)) && r.length != nil && ishape(r.length) && !r.length.signed && r.data != nil && r.data.stream != nil && srep(r.data.stream) && sapart(r.length.stream, r.data.stream) && (r.present != nil ==> sapart(r.present.reader.stream, r.length.stream)) && (r.present != nil ==> sapart(r.present.reader.stream, r.data.stream))
fn good_StringDirectV2Reader(r *StringDirectV2Reader) bool = igood(r.length) && r.data.stream.good && (r.present != nil ==> bgood(r.present.reader))
locs st_StringDirectV2Reader(r *StringDirectV2Reader) = bst(r.present) when r.present != nil, ist(r.length), sst(r.data.stream)

func (r *StringDirectV2Reader) NextBatch(vec)
  property C10
  nocands
  requires shape_StringDirectV2Reader(r) && vec != nil
  requires small(uleft(r.length))
  modifies vec.Vector, st_StringDirectV2Reader(r)
  ensures state: shape_StringDirectV2Reader(r) && (err == nil && old(good_StringDirectV2Reader(r)) ==> good_StringDirectV2Reader(r))
  ensures size: len(vec.Vector) == len(old(vec.Vector))
  ensures flags: err == nil && r.present != nil ==> len(old(boleft(r.present))) >= len(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
  ensures preset: err == nil && r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
  ensures values: err == nil ==> len(old(uleft(r.length))) >= vcount(vec.Vector) && forall k int {vec.Vector[k]} :: 0 <= k < len(vec.Vector) && !vec.Vector[k].Null ==> is(vec.Vector[k].V, string) && as(vec.Vector[k].V, string) == piece(old(r.data.stream.content), old(uleft(r.length)), vcount(vec.Vector[:k]))
  ensures left: err == nil ==> (r.present != nil ==> boleft(r.present) == old(boleft(r.present))[len(vec.Vector):]) && uleft(r.length) == old(uleft(r.length))[vcount(vec.Vector):] && usum(old(uleft(r.length))[:vcount(vec.Vector)]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:vcount(vec.Vector)]):]
  ensures complete: old(good_StringDirectV2Reader(r)) && r.present != nil && len(old(boleft(r.present))) >= len(vec.Vector) && (let c = tcount(old(boleft(r.present))[:len(vec.Vector)]) in len(old(uleft(r.length))) >= c && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content))) ==> err == nil
  ensures complete2: old(good_StringDirectV2Reader(r)) && r.present == nil && (let c = vcount(old(vec.Vector)) in len(old(uleft(r.length))) >= c && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content))) ==> err == nil
  loop 1
    invariant shape_StringDirectV2Reader(r) && 0 <= i <= len(vec.Vector) && len(vec.Vector) == len(old(vec.Vector)) && (old(good_StringDirectV2Reader(r)) ==> good_StringDirectV2Reader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant r.present != nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == !old(boleft(r.present))[k]
    invariant forall k int {vec.Vector[k]} :: i <= k < len(vec.Vector) ==> vec.Vector[k] == old(vec.Vector)[k]
    invariant r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == old(vec.Vector)[k].Null
    invariant r.present != nil ==> vcount(vec.Vector[:i]) == tcount(old(boleft(r.present))[:i])
    invariant r.present == nil ==> vcount(vec.Vector[:i]) == vcount(old(vec.Vector)[:i])
    invariant len(old(uleft(r.length))) >= vcount(vec.Vector[:i]) && uleft(r.length) == old(uleft(r.length))[vcount(vec.Vector[:i]):] && usum(old(uleft(r.length))[:vcount(vec.Vector[:i])]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:vcount(vec.Vector[:i])]):]
    invariant forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> is(vec.Vector[k].V, string) && as(vec.Vector[k].V, string) == piece(old(r.data.stream.content), old(uleft(r.length)), vcount(vec.Vector[:k]))
  var W []api.Value = empty([]api.Value)
  var c int = 0
  at loopbegin 1 {
    W = vec.Vector[:i]
    c = vcount(W)
    assert forall k int {W[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert forall k int {W[k]} :: 0 <= k < i && !W[k].Null ==> is(W[k].V, string) && as(W[k].V, string) == piece(old(r.data.stream.content), old(uleft(r.length)), vcount(W[:k]))
    vcount_snoc(old(vec.Vector), i)
    vcount_mono(old(vec.Vector), i + 1, len(vec.Vector))
    assert old(vec.Vector)[:len(old(vec.Vector))] == old(vec.Vector)
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if len(vec.Vector) <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, len(vec.Vector)) } }
    if c < len(old(uleft(r.length))) {
      usum_snoc(old(uleft(r.length)), c)
      if r.present != nil && len(vec.Vector) <= len(old(boleft(r.present))) && tcount(old(boleft(r.present))[:len(vec.Vector)]) <= len(old(uleft(r.length))) && c + 1 <= tcount(old(boleft(r.present))[:len(vec.Vector)]) { usum_mono(old(uleft(r.length)), c + 1, tcount(old(boleft(r.present))[:len(vec.Vector)])) }
      if r.present == nil && vcount(old(vec.Vector)) <= len(old(uleft(r.length))) && c + 1 <= vcount(old(vec.Vector)) { usum_mono(old(uleft(r.length)), c + 1, vcount(old(vec.Vector))) }
    }
  }
  at loopend 1 {
    vcount_snoc(vec.Vector, i)
    assert vec.Vector[:i] == W
    assert vec.Vector[i].Null ==> uleft(r.length) == old(uleft(r.length))[c:] && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:c]):]
    assert !vec.Vector[i].Null ==> len(old(uleft(r.length))) >= (c + 1) && uleft(r.length) == old(uleft(r.length))[(c + 1):] && usum(old(uleft(r.length))[:(c + 1)]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:(c + 1)]):]
    assert forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert !vec.Vector[i].Null ==> is(vec.Vector[i].V, string) && as(vec.Vector[i].V, string) == piece(old(r.data.stream.content), old(uleft(r.length)), vcount(vec.Vector[:i]))
    assert forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> is(vec.Vector[k].V, string) && as(vec.Vector[k].V, string) == piece(old(r.data.stream.content), old(uleft(r.length)), vcount(vec.Vector[:k]))
  }

func (r *StringDirectV2Reader) Skip(rows)
  property C16
  nocands
  requires shape_StringDirectV2Reader(r) && rows <= 4611686018427387904
  requires small(uleft(r.length))
  modifies st_StringDirectV2Reader(r)
  ensures state: shape_StringDirectV2Reader(r) && (err == nil && old(good_StringDirectV2Reader(r)) ==> good_StringDirectV2Reader(r))
  ensures left: err == nil ==> (r.present != nil ==> len(old(boleft(r.present))) >= rows && boleft(r.present) == old(boleft(r.present))[rows:]) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(uleft(r.length))) >= c && uleft(r.length) == old(uleft(r.length))[c:] && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:c]):])
  ensures complete: old(good_StringDirectV2Reader(r)) && (r.present != nil ==> len(old(boleft(r.present))) >= rows) && (let c = (r.present != nil ? tcount(old(boleft(r.present))[:rows]) : rows) in len(old(uleft(r.length))) >= c && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content))) ==> err == nil
  var c int = 0
  var p0 bool = r.present != nil
  loop 1
    invariant shape_StringDirectV2Reader(r) && 0 <= i <= rows && (old(good_StringDirectV2Reader(r)) ==> good_StringDirectV2Reader(r))
    invariant r.present != nil ==> len(old(boleft(r.present))) >= i && boleft(r.present) == old(boleft(r.present))[i:]
    invariant c == (r.present != nil ? tcount(old(boleft(r.present))[:i]) : i)
    invariant len(old(uleft(r.length))) >= c && uleft(r.length) == old(uleft(r.length))[c:] && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:c]):]
    invariant r.present == nil ==> p
  at loopbegin 1 {
    if r.present != nil && i < len(old(boleft(r.present))) { tcount_snoc(old(boleft(r.present)), i)  if rows <= len(old(boleft(r.present))) { tcount_mono(old(boleft(r.present)), i + 1, rows) } }
    if c < len(old(uleft(r.length))) {
      usum_snoc(old(uleft(r.length)), c)
      if r.present != nil && rows <= len(old(boleft(r.present))) && tcount(old(boleft(r.present))[:rows]) <= len(old(uleft(r.length))) && c + 1 <= tcount(old(boleft(r.present))[:rows]) { usum_mono(old(uleft(r.length)), c + 1, tcount(old(boleft(r.present))[:rows])) }
      if r.present == nil && rows <= len(old(uleft(r.length))) { usum_mono(old(uleft(r.length)), c + 1, rows) }
    }
  }
  at loopend 1 {
    assert !p ==> uleft(r.length) == old(uleft(r.length))[c:] && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:c]):]
    assert p ==> uleft(r.length) == old(uleft(r.length))[c+1:] && c < len(old(uleft(r.length)))
    if p { usum_snoc(old(uleft(r.length)), c)  assert r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:c]):][old(uleft(r.length))[c]:]  assert r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:c+1]):] }
    c = c + (p ? 1 : 0)
    assert uleft(r.length) == old(uleft(r.length))[c:] && usum(old(uleft(r.length))[:c]) <= len(old(r.data.stream.content)) && r.data.stream.content == old(r.data.stream.content)[usum(old(uleft(r.length))[:c]):]
  }
