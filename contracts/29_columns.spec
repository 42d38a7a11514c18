// Columns: what was written is what is read.  Written by tools/gen_colrt.py.
package column

// the flags of the rows V, as far as the schema has nulls
fn rowflags(has bool, B []bool, V []api.Value) bool = has ? len(B) == len(V) && (forall k int {B[k]} {V[k]} :: 0 <= k < len(V) ==> B[k] == !V[k].Null) : (forall k int {V[k]} :: 0 <= k < len(V) ==> !V[k].Null)
// flags F (and what pads them) that say which rows of V are null
fn restflags(has bool, F []bool, V []api.Value) bool = has ? len(F) >= len(V) && (forall k int {F[k]} {V[k]} :: 0 <= k < len(V) ==> F[k] == !V[k].Null) : (forall k int {V[k]} :: 0 <= k < len(V) ==> !V[k].Null)
// rows made by reading have the flags F, or none
fn readflags(has bool, F []bool, W []api.Value) bool = has ? len(F) >= len(W) && (forall k int {W[k]} :: 0 <= k < len(W) ==> W[k].Null == !F[k]) : (forall k int {W[k]} :: 0 <= k < len(W) ==> !W[k].Null)

lemma vcount_same(V []api.Value, W []api.Value, n int)
  property C10
  decreases n
  requires 0 <= n <= len(V) && n <= len(W) && forall k int {V[k]} {W[k]} :: 0 <= k < n ==> V[k].Null == W[k].Null
  ensures vcount(V[:n]) == vcount(W[:n])
{ if n > 0 { vcount_same(V, W, n - 1)  vcount_snoc(V, n - 1)  vcount_snoc(W, n - 1) } }

lemma vcount_drop(V []api.Value, m int, k int)
  property C10
  decreases k
  requires 0 <= m && 0 <= k && m + k <= len(V)
  ensures vcount(V[m:][:k]) == vcount(V[:m+k]) - vcount(V[:m])
{ if k > 0 { vcount_drop(V, m, k - 1)  vcount_snoc(V, m + k - 1)  vcount_snoc(V[m:], k - 1) } }

lemma usum_drop(U []uint64, m int, k int)
  property C10
  decreases k
  requires 0 <= m && 0 <= k && m + k <= len(U)
  ensures usum(U[m:][:k]) == usum(U[:m+k]) - usum(U[:m])
{ if k > 0 { usum_drop(U, m, k - 1)  usum_snoc(U, m + k - 1)  usum_snoc(U[m:], k - 1) } }

lemma vcount_below(V []api.Value, k int)
  property C10
  requires 0 <= k < len(V) && !V[k].Null
  ensures vcount(V[:k]) < vcount(V)
{ vcount_snoc(V, k)  vcount_mono(V, k + 1, len(V)) }

lemma unzzs_code(U []uint64)
  property C10
  ensures len(unzzs(U)) == len(U)
  ensures forall k int {unzzs(U)[k]} {U[k]} :: 0 <= k < len(U) ==> unzzs(U)[k] == unzz(U[k]) && U[k] == zz(unzzs(U)[k]) && 0 - 9223372036854775808 <= unzzs(U)[k] <= 9223372036854775807
{
  unzzs_at(U)
  assert forall k int {U[k]} :: 0 <= k < len(U) ==> zz(unzz(U[k])) == U[k] && 0 - 9223372036854775808 <= unzz(U[k]) <= 9223372036854775807
}

lemma tflags(has bool, F []bool, V []api.Value, m int)
  property C10
  requires restflags(has, F, V) && 0 <= m <= len(V)
  ensures has ==> tcount(F[:m]) == vcount(V[:m])
{ if has { vcount_flags(V[:m], F[:m]) } }

// ---- intWriter
fn rel_intWriter_data(bits int, g u64, v api.Value) bool = (bits == 16 ? is(v.V, int16) && 0 - 32768 <= as(v.V, int16) <= 32767 && g == zz(as(v.V, int16)) : bits == 32 ? is(v.V, int32) && 0 - 2147483648 <= as(v.V, int32) <= 2147483647 && g == zz(as(v.V, int32)) : is(v.V, int64) && 0 - 9223372036854775808 <= as(v.V, int64) <= 9223372036854775807 && g == zz(as(v.V, int64)))
fn lrel_intWriter_data(bits int, l i64, v api.Value) bool = (bits == 16 ? is(v.V, int16) && 0 - 32768 <= as(v.V, int16) <= 32767 && l == as(v.V, int16) : bits == 32 ? is(v.V, int32) && 0 - 2147483648 <= as(v.V, int32) <= 2147483647 && l == as(v.V, int32) : is(v.V, int64) && 0 - 9223372036854775808 <= as(v.V, int64) <= 9223372036854775807 && l == as(v.V, int64))
fn same_intWriter(bits int, a api.Value, b api.Value) bool = a.Null == b.Null && (!a.Null ==> (bits == 16 ? is(a.V, int16) && as(a.V, int16) == as(b.V, int16) : bits == 32 ? is(a.V, int32) && as(a.V, int32) == as(b.V, int32) : is(a.V, int64) && as(a.V, int64) == as(b.V, int64)))
// the rows V are what the column was given, are what is left to read
fn wrote_intWriter(bits int, has bool, B []bool, G_data []u64, V []api.Value) bool = rowflags(has, B, V) && len(G_data) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> rel_intWriter_data(bits, G_data[vcount(V[:k])], V[k]))
fn rest_intWriter(bits int, has bool, F []bool, L_data []i64, V []api.Value) bool = restflags(has, F, V) && len(L_data) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> lrel_intWriter_data(bits, L_data[vcount(V[:k])], V[k]))
lemma wrote_intWriter_step(bits int, has bool, B []bool, G_data []u64, B1 []bool, G1_data []u64, V []api.Value, v api.Value)
  property C10
  requires wrote_intWriter(bits, has, B, G_data, V) && (has ? B1 == snoc(B, !v.Null) : !v.Null)
  requires v.Null ? G1_data == G_data : len(G1_data) == len(G_data) + 1 && G1_data[:len(G_data)] == G_data && rel_intWriter_data(bits, G1_data[len(G_data)], v)
  ensures wrote_intWriter(bits, has, B1, G1_data, snoc(V, v))
{
  vcount_snoc(snoc(V, v), len(V))
  assert snoc(V, v)[:len(V)] == V
  assert forall k int {snoc(V, v)[k]} :: 0 <= k < len(V) ==> snoc(V, v)[:k] == V[:k]
  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> vcount(V[:k]) < len(G_data) && G1_data[vcount(V[:k])] == G_data[vcount(V[:k])] by { vcount_below(V, k) }
}
lemma back_intWriter(w *intWriter, r *IntV2Reader, V []api.Value)
  property C10
  heap
  requires w != nil && shape_IntV2Reader(r) && wshape_intWriter(w.writer, w.data, w.bits) && wclosed_intWriter(w.writer, w.data, w.bits) && r.bits == w.bits
  requires (r.present != nil <==> w.writer.schema.HasNulls) && (r.present != nil ==> written(ws(w.writer.present), r.present.reader.stream) && len(r.present.reader.values) == 0 && len(r.present.values) == 0)
  requires written(ws(w.data), r.data.stream) && len(r.data.values) == 0
  requires wrote_intWriter(w.bits, w.writer.schema.HasNulls, ws(w.writer.present).encoder.givenb, ws(w.data).encoder.given, V)
  ensures good_IntV2Reader(r) && (let F = (r.present != nil ? boleft(r.present) : empty([]bool)) in rest_intWriter(w.bits, r.present != nil, F, ileft(r.data), V))
{
  if w.writer.schema.HasNulls { readback_bools(ws(w.writer.present), r.present) }
  unzzs_code(ws(w.data).encoder.given)
  readback_ints(ws(w.data), r.data, unzzs(ws(w.data).encoder.given))
  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> lrel_intWriter_data(w.bits, unzzs(ws(w.data).encoder.given)[vcount(V[:k])], V[k]) by { vcount_below(V, k)  assert rel_intWriter_data(w.bits, ws(w.data).encoder.given[vcount(V[:k])], V[k]) }
}
lemma batch_intWriter(bits int, has bool, F []bool, L_data []i64, V []api.Value, W []api.Value)
  property C10
  requires rest_intWriter(bits, has, F, L_data, V) && len(W) <= len(V) && readflags(has, F, W)
  ensures enough: (has ==> tcount(F[:len(W)]) <= vcount(V)) && len(W) <= len(V)
  requires forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> (bits == 16 ? is(W[k].V, int16) && as(W[k].V, int16) == i16(L_data[vcount(W[:k])]) : bits == 32 ? is(W[k].V, int32) && as(W[k].V, int32) == i32(L_data[vcount(W[:k])]) : is(W[k].V, int64) && as(W[k].V, int64) == L_data[vcount(W[:k])])
  ensures rows: forall k int {W[k]} :: 0 <= k < len(W) ==> same_intWriter(bits, W[k], V[k])
  ensures rest: rest_intWriter(bits, has, F[len(W):], L_data[vcount(W):], V[len(W):])
{
  assert forall k int {V[k]} {W[k]} :: 0 <= k < len(W) ==> V[k].Null == W[k].Null
  tflags(has, F, V, len(W))
  vcount_mono(V, len(W), len(V))
  vcount_same(V, W, len(W))
  vcount_drop(V, len(W), len(V) - len(W))
  assert V[len(W):][:len(V) - len(W)] == V[len(W):]
  assert W[:len(W)] == W && V[:len(W) + (len(V) - len(W))] == V
  assert forall k int {W[k]} :: 0 <= k < len(W) ==> vcount(V[:k]) == vcount(W[:k]) by { vcount_same(V, W, k) }
  assert forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> vcount(V[:k]) < vcount(V) by { vcount_below(V, k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) ==> vcount(V[len(W):][:k]) == vcount(V[:len(W) + k]) - vcount(V[:len(W)]) by { vcount_drop(V, len(W), k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) && !V[len(W) + k].Null ==> L_data[vcount(W):][vcount(V[len(W):][:k])] == L_data[vcount(V[:len(W) + k])] && lrel_intWriter_data(bits, L_data[vcount(V[:len(W) + k])], V[len(W) + k]) by { vcount_drop(V, len(W), k)  vcount_below(V, len(W) + k)  vcount_mono(V, len(W), len(W) + k) }
}

// ---- byteWriter
fn rel_byteWriter_data(g byte, v api.Value) bool = is(v.V, byte) && g == as(v.V, byte)
fn lrel_byteWriter_data(l byte, v api.Value) bool = is(v.V, byte) && l == as(v.V, byte)
fn same_byteWriter(a api.Value, b api.Value) bool = a.Null == b.Null && (!a.Null ==> is(a.V, byte) && as(a.V, byte) == as(b.V, byte))
// the rows V are what the column was given, are what is left to read
fn wrote_byteWriter(has bool, B []bool, G_data []byte, V []api.Value) bool = rowflags(has, B, V) && len(G_data) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> rel_byteWriter_data(G_data[vcount(V[:k])], V[k]))
fn rest_byteWriter(has bool, F []bool, L_data []byte, V []api.Value) bool = restflags(has, F, V) && len(L_data) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> lrel_byteWriter_data(L_data[vcount(V[:k])], V[k]))
lemma wrote_byteWriter_step(has bool, B []bool, G_data []byte, B1 []bool, G1_data []byte, V []api.Value, v api.Value)
  property C10
  requires wrote_byteWriter(has, B, G_data, V) && (has ? B1 == snoc(B, !v.Null) : !v.Null)
  requires v.Null ? G1_data == G_data : len(G1_data) == len(G_data) + 1 && G1_data[:len(G_data)] == G_data && rel_byteWriter_data(G1_data[len(G_data)], v)
  ensures wrote_byteWriter(has, B1, G1_data, snoc(V, v))
{
  vcount_snoc(snoc(V, v), len(V))
  assert snoc(V, v)[:len(V)] == V
  assert forall k int {snoc(V, v)[k]} :: 0 <= k < len(V) ==> snoc(V, v)[:k] == V[:k]
  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> vcount(V[:k]) < len(G_data) && G1_data[vcount(V[:k])] == G_data[vcount(V[:k])] by { vcount_below(V, k) }
}
lemma back_byteWriter(w *byteWriter, r *ByteReader, V []api.Value)
  property C10
  heap
  requires w != nil && shape_ByteReader(r) && wshape_byteWriter(w.writer, w.data) && wclosed_byteWriter(w.writer, w.data)
  requires (r.present != nil <==> w.writer.schema.HasNulls) && (r.present != nil ==> written(ws(w.writer.present), r.present.reader.stream) && len(r.present.reader.values) == 0 && len(r.present.values) == 0)
  requires written(ws(w.data), r.data.stream) && len(r.data.values) == 0
  requires wrote_byteWriter(w.writer.schema.HasNulls, ws(w.writer.present).encoder.givenb, ws(w.data).encoder.given8, V)
  ensures good_ByteReader(r) && (let F = (r.present != nil ? boleft(r.present) : empty([]bool)) in rest_byteWriter(r.present != nil, F, bleft(r.data), V))
{
  if w.writer.schema.HasNulls { readback_bools(ws(w.writer.present), r.present) }
  readback_bytes(ws(w.data), r.data)
}
lemma batch_byteWriter(has bool, F []bool, L_data []byte, V []api.Value, W []api.Value)
  property C10
  requires rest_byteWriter(has, F, L_data, V) && len(W) <= len(V) && readflags(has, F, W)
  ensures enough: (has ==> tcount(F[:len(W)]) <= vcount(V)) && len(W) <= len(V)
  requires forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> is(W[k].V, byte) && as(W[k].V, byte) == L_data[vcount(W[:k])]
  ensures rows: forall k int {W[k]} :: 0 <= k < len(W) ==> same_byteWriter(W[k], V[k])
  ensures rest: rest_byteWriter(has, F[len(W):], L_data[vcount(W):], V[len(W):])
{
  assert forall k int {V[k]} {W[k]} :: 0 <= k < len(W) ==> V[k].Null == W[k].Null
  tflags(has, F, V, len(W))
  vcount_mono(V, len(W), len(V))
  vcount_same(V, W, len(W))
  vcount_drop(V, len(W), len(V) - len(W))
  assert V[len(W):][:len(V) - len(W)] == V[len(W):]
  assert W[:len(W)] == W && V[:len(W) + (len(V) - len(W))] == V
  assert forall k int {W[k]} :: 0 <= k < len(W) ==> vcount(V[:k]) == vcount(W[:k]) by { vcount_same(V, W, k) }
  assert forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> vcount(V[:k]) < vcount(V) by { vcount_below(V, k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) ==> vcount(V[len(W):][:k]) == vcount(V[:len(W) + k]) - vcount(V[:len(W)]) by { vcount_drop(V, len(W), k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) && !V[len(W) + k].Null ==> L_data[vcount(W):][vcount(V[len(W):][:k])] == L_data[vcount(V[:len(W) + k])] && lrel_byteWriter_data(L_data[vcount(V[:len(W) + k])], V[len(W) + k]) by { vcount_drop(V, len(W), k)  vcount_below(V, len(W) + k)  vcount_mono(V, len(W), len(W) + k) }
}

// ---- boolWriter
fn rel_boolWriter_data(g bool, v api.Value) bool = is(v.V, bool) && g == as(v.V, bool)
fn lrel_boolWriter_data(l bool, v api.Value) bool = is(v.V, bool) && l == as(v.V, bool)
fn same_boolWriter(a api.Value, b api.Value) bool = a.Null == b.Null && (!a.Null ==> is(a.V, bool) && as(a.V, bool) == as(b.V, bool))
// the rows V are what the column was given, are what is left to read
fn wrote_boolWriter(has bool, B []bool, G_data []bool, V []api.Value) bool = rowflags(has, B, V) && len(G_data) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> rel_boolWriter_data(G_data[vcount(V[:k])], V[k]))
fn rest_boolWriter(has bool, F []bool, L_data []bool, V []api.Value) bool = restflags(has, F, V) && len(L_data) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> lrel_boolWriter_data(L_data[vcount(V[:k])], V[k]))
lemma wrote_boolWriter_step(has bool, B []bool, G_data []bool, B1 []bool, G1_data []bool, V []api.Value, v api.Value)
  property C10
  requires wrote_boolWriter(has, B, G_data, V) && (has ? B1 == snoc(B, !v.Null) : !v.Null)
  requires v.Null ? G1_data == G_data : len(G1_data) == len(G_data) + 1 && G1_data[:len(G_data)] == G_data && rel_boolWriter_data(G1_data[len(G_data)], v)
  ensures wrote_boolWriter(has, B1, G1_data, snoc(V, v))
{
  vcount_snoc(snoc(V, v), len(V))
  assert snoc(V, v)[:len(V)] == V
  assert forall k int {snoc(V, v)[k]} :: 0 <= k < len(V) ==> snoc(V, v)[:k] == V[:k]
  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> vcount(V[:k]) < len(G_data) && G1_data[vcount(V[:k])] == G_data[vcount(V[:k])] by { vcount_below(V, k) }
}
lemma back_boolWriter(w *boolWriter, r *BoolReader, V []api.Value)
  property C10
  heap
  requires w != nil && shape_BoolReader(r) && wshape_boolWriter(w.writer, w.data) && wclosed_boolWriter(w.writer, w.data)
  requires (r.present != nil <==> w.writer.schema.HasNulls) && (r.present != nil ==> written(ws(w.writer.present), r.present.reader.stream) && len(r.present.reader.values) == 0 && len(r.present.values) == 0)
  requires written(ws(w.data), r.data.reader.stream) && len(r.data.reader.values) == 0 && len(r.data.values) == 0
  requires wrote_boolWriter(w.writer.schema.HasNulls, ws(w.writer.present).encoder.givenb, ws(w.data).encoder.givenb, V)
  ensures len(boleft(r.data)) >= vcount(V)
  ensures good_BoolReader(r) && (let F = (r.present != nil ? boleft(r.present) : empty([]bool)) in rest_boolWriter(r.present != nil, F, boleft(r.data)[:vcount(V)], V))
{
  if w.writer.schema.HasNulls { readback_bools(ws(w.writer.present), r.present) }
  readback_bools(ws(w.data), r.data)
}
lemma batch_boolWriter(has bool, F []bool, L_data []bool, V []api.Value, W []api.Value)
  property C10
  requires rest_boolWriter(has, F, L_data, V) && len(W) <= len(V) && readflags(has, F, W)
  ensures enough: (has ==> tcount(F[:len(W)]) <= vcount(V)) && len(W) <= len(V)
  requires forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> is(W[k].V, bool) && as(W[k].V, bool) == L_data[vcount(W[:k])]
  ensures rows: forall k int {W[k]} :: 0 <= k < len(W) ==> same_boolWriter(W[k], V[k])
  ensures rest: rest_boolWriter(has, F[len(W):], L_data[vcount(W):], V[len(W):])
{
  assert forall k int {V[k]} {W[k]} :: 0 <= k < len(W) ==> V[k].Null == W[k].Null
  tflags(has, F, V, len(W))
  vcount_mono(V, len(W), len(V))
  vcount_same(V, W, len(W))
  vcount_drop(V, len(W), len(V) - len(W))
  assert V[len(W):][:len(V) - len(W)] == V[len(W):]
  assert W[:len(W)] == W && V[:len(W) + (len(V) - len(W))] == V
  assert forall k int {W[k]} :: 0 <= k < len(W) ==> vcount(V[:k]) == vcount(W[:k]) by { vcount_same(V, W, k) }
  assert forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> vcount(V[:k]) < vcount(V) by { vcount_below(V, k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) ==> vcount(V[len(W):][:k]) == vcount(V[:len(W) + k]) - vcount(V[:len(W)]) by { vcount_drop(V, len(W), k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) && !V[len(W) + k].Null ==> L_data[vcount(W):][vcount(V[len(W):][:k])] == L_data[vcount(V[:len(W) + k])] && lrel_boolWriter_data(L_data[vcount(V[:len(W) + k])], V[len(W) + k]) by { vcount_drop(V, len(W), k)  vcount_below(V, len(W) + k)  vcount_mono(V, len(W), len(W) + k) }
}

// ---- floatWriter
fn rel_floatWriter_data(is64 bool, g u64, v api.Value) bool = (is64 ? is(v.V, float64) && g == bits(as(v.V, float64)) : is(v.V, float32) && g == bits(as(v.V, float32)))
fn lrel_floatWriter_data(is64 bool, l u64, v api.Value) bool = (is64 ? is(v.V, float64) && l == bits(as(v.V, float64)) : is(v.V, float32) && l == bits(as(v.V, float32)))
fn same_floatWriter(is64 bool, a api.Value, b api.Value) bool = a.Null == b.Null && (!a.Null ==> (is64 ? is(a.V, float64) && bits(as(a.V, float64)) == bits(as(b.V, float64)) : is(a.V, float32) && bits(as(a.V, float32)) == bits(as(b.V, float32))))
// the rows V are what the column was given, are what is left to read
fn wrote_floatWriter(is64 bool, has bool, B []bool, G_data []u64, V []api.Value) bool = rowflags(has, B, V) && len(G_data) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> rel_floatWriter_data(is64, G_data[vcount(V[:k])], V[k]))
fn rest_floatWriter(is64 bool, has bool, F []bool, L_data []u64, V []api.Value) bool = restflags(has, F, V) && len(L_data) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> lrel_floatWriter_data(is64, L_data[vcount(V[:k])], V[k]))
lemma wrote_floatWriter_step(is64 bool, has bool, B []bool, G_data []u64, B1 []bool, G1_data []u64, V []api.Value, v api.Value)
  property C10
  requires wrote_floatWriter(is64, has, B, G_data, V) && (has ? B1 == snoc(B, !v.Null) : !v.Null)
  requires v.Null ? G1_data == G_data : len(G1_data) == len(G_data) + 1 && G1_data[:len(G_data)] == G_data && rel_floatWriter_data(is64, G1_data[len(G_data)], v)
  ensures wrote_floatWriter(is64, has, B1, G1_data, snoc(V, v))
{
  vcount_snoc(snoc(V, v), len(V))
  assert snoc(V, v)[:len(V)] == V
  assert forall k int {snoc(V, v)[k]} :: 0 <= k < len(V) ==> snoc(V, v)[:k] == V[:k]
  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> vcount(V[:k]) < len(G_data) && G1_data[vcount(V[:k])] == G_data[vcount(V[:k])] by { vcount_below(V, k) }
}
lemma back_floatWriter(w *floatWriter, r *FloatReader, V []api.Value)
  property C10
  heap
  requires w != nil && shape_FloatReader(r) && wshape_floatWriter(w.writer, w.data, w.is64) && wclosed_floatWriter(w.writer, w.data, w.is64) && r.is64 == w.is64
  requires (r.present != nil <==> w.writer.schema.HasNulls) && (r.present != nil ==> written(ws(w.writer.present), r.present.reader.stream) && len(r.present.reader.values) == 0 && len(r.present.values) == 0)
  requires written(ws(w.data), r.data.stream)
  requires wrote_floatWriter(w.is64, w.writer.schema.HasNulls, ws(w.writer.present).encoder.givenb, ws(w.data).encoder.given, V)
  ensures good_FloatReader(r) && (let F = (r.present != nil ? boleft(r.present) : empty([]bool)) in rest_floatWriter(w.is64, r.present != nil, F, fleft(r.data), V))
{
  if w.writer.schema.HasNulls { readback_bools(ws(w.writer.present), r.present) }
  readback_floats(ws(w.data), r.data)
}
lemma batch_floatWriter(is64 bool, has bool, F []bool, L_data []u64, V []api.Value, W []api.Value)
  property C10
  requires rest_floatWriter(is64, has, F, L_data, V) && len(W) <= len(V) && readflags(has, F, W)
  ensures enough: (has ==> tcount(F[:len(W)]) <= vcount(V)) && len(W) <= len(V)
  requires forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> (is64 ? is(W[k].V, float64) && bits(as(W[k].V, float64)) == L_data[vcount(W[:k])] : is(W[k].V, float32) && bits(as(W[k].V, float32)) == L_data[vcount(W[:k])])
  ensures rows: forall k int {W[k]} :: 0 <= k < len(W) ==> same_floatWriter(is64, W[k], V[k])
  ensures rest: rest_floatWriter(is64, has, F[len(W):], L_data[vcount(W):], V[len(W):])
{
  assert forall k int {V[k]} {W[k]} :: 0 <= k < len(W) ==> V[k].Null == W[k].Null
  tflags(has, F, V, len(W))
  vcount_mono(V, len(W), len(V))
  vcount_same(V, W, len(W))
  vcount_drop(V, len(W), len(V) - len(W))
  assert V[len(W):][:len(V) - len(W)] == V[len(W):]
  assert W[:len(W)] == W && V[:len(W) + (len(V) - len(W))] == V
  assert forall k int {W[k]} :: 0 <= k < len(W) ==> vcount(V[:k]) == vcount(W[:k]) by { vcount_same(V, W, k) }
  assert forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> vcount(V[:k]) < vcount(V) by { vcount_below(V, k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) ==> vcount(V[len(W):][:k]) == vcount(V[:len(W) + k]) - vcount(V[:len(W)]) by { vcount_drop(V, len(W), k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) && !V[len(W) + k].Null ==> L_data[vcount(W):][vcount(V[len(W):][:k])] == L_data[vcount(V[:len(W) + k])] && lrel_floatWriter_data(is64, L_data[vcount(V[:len(W) + k])], V[len(W) + k]) by { vcount_drop(V, len(W), k)  vcount_below(V, len(W) + k)  vcount_mono(V, len(W), len(W) + k) }
}

// ---- dateV2Writer
fn rel_dateV2Writer_data(g u64, v api.Value) bool = is(v.V, api.Date) && g == zz(daynum(as(v.V, api.Date)))
fn lrel_dateV2Writer_data(l u64, v api.Value) bool = is(v.V, api.Date) && l == zz(daynum(as(v.V, api.Date)))
fn same_dateV2Writer(a api.Value, b api.Value) bool = a.Null == b.Null && (!a.Null ==> is(a.V, api.Date) && dateof(as(a.V, api.Date), zz(daynum(as(b.V, api.Date)))))
// the rows V are what the column was given, are what is left to read
fn wrote_dateV2Writer(has bool, B []bool, G_data []u64, V []api.Value) bool = rowflags(has, B, V) && len(G_data) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> rel_dateV2Writer_data(G_data[vcount(V[:k])], V[k]))
fn rest_dateV2Writer(has bool, F []bool, L_data []u64, V []api.Value) bool = restflags(has, F, V) && len(L_data) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> lrel_dateV2Writer_data(L_data[vcount(V[:k])], V[k]))
lemma wrote_dateV2Writer_step(has bool, B []bool, G_data []u64, B1 []bool, G1_data []u64, V []api.Value, v api.Value)
  property C10
  requires wrote_dateV2Writer(has, B, G_data, V) && (has ? B1 == snoc(B, !v.Null) : !v.Null)
  requires v.Null ? G1_data == G_data : len(G1_data) == len(G_data) + 1 && G1_data[:len(G_data)] == G_data && rel_dateV2Writer_data(G1_data[len(G_data)], v)
  ensures wrote_dateV2Writer(has, B1, G1_data, snoc(V, v))
{
  vcount_snoc(snoc(V, v), len(V))
  assert snoc(V, v)[:len(V)] == V
  assert forall k int {snoc(V, v)[k]} :: 0 <= k < len(V) ==> snoc(V, v)[:k] == V[:k]
  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> vcount(V[:k]) < len(G_data) && G1_data[vcount(V[:k])] == G_data[vcount(V[:k])] by { vcount_below(V, k) }
}
lemma back_dateV2Writer(w *dateV2Writer, r *DateV2Reader, V []api.Value)
  property C10
  heap
  requires w != nil && shape_DateV2Reader(r) && wshape_dateV2Writer(w.writer, w.data) && wclosed_dateV2Writer(w.writer, w.data)
  requires (r.present != nil <==> w.writer.schema.HasNulls) && (r.present != nil ==> written(ws(w.writer.present), r.present.reader.stream) && len(r.present.reader.values) == 0 && len(r.present.values) == 0)
  requires written(ws(w.data), as(r.data, *stream.dateV2Reader).stream) && len(as(r.data, *stream.dateV2Reader).values) == 0
  requires wrote_dateV2Writer(w.writer.schema.HasNulls, ws(w.writer.present).encoder.givenb, ws(w.data).encoder.given, V)
  ensures good_DateV2Reader(r) && (let F = (r.present != nil ? boleft(r.present) : empty([]bool)) in rest_dateV2Writer(r.present != nil, F, dleft(as(r.data, *stream.dateV2Reader)), V))
{
  if w.writer.schema.HasNulls { readback_bools(ws(w.writer.present), r.present) }
  readback_dates(ws(w.data), as(r.data, *stream.dateV2Reader))
}
lemma batch_dateV2Writer(has bool, F []bool, L_data []u64, V []api.Value, W []api.Value)
  property C10
  requires rest_dateV2Writer(has, F, L_data, V) && len(W) <= len(V) && readflags(has, F, W)
  ensures enough: (has ==> tcount(F[:len(W)]) <= vcount(V)) && len(W) <= len(V)
  requires forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> is(W[k].V, api.Date) && dateof(as(W[k].V, api.Date), L_data[vcount(W[:k])])
  ensures rows: forall k int {W[k]} :: 0 <= k < len(W) ==> same_dateV2Writer(W[k], V[k])
  ensures rest: rest_dateV2Writer(has, F[len(W):], L_data[vcount(W):], V[len(W):])
{
  assert forall k int {V[k]} {W[k]} :: 0 <= k < len(W) ==> V[k].Null == W[k].Null
  tflags(has, F, V, len(W))
  vcount_mono(V, len(W), len(V))
  vcount_same(V, W, len(W))
  vcount_drop(V, len(W), len(V) - len(W))
  assert V[len(W):][:len(V) - len(W)] == V[len(W):]
  assert W[:len(W)] == W && V[:len(W) + (len(V) - len(W))] == V
  assert forall k int {W[k]} :: 0 <= k < len(W) ==> vcount(V[:k]) == vcount(W[:k]) by { vcount_same(V, W, k) }
  assert forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> vcount(V[:k]) < vcount(V) by { vcount_below(V, k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) ==> vcount(V[len(W):][:k]) == vcount(V[:len(W) + k]) - vcount(V[:len(W)]) by { vcount_drop(V, len(W), k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) && !V[len(W) + k].Null ==> L_data[vcount(W):][vcount(V[len(W):][:k])] == L_data[vcount(V[:len(W) + k])] && lrel_dateV2Writer_data(L_data[vcount(V[:len(W) + k])], V[len(W) + k]) by { vcount_drop(V, len(W), k)  vcount_below(V, len(W) + k)  vcount_mono(V, len(W), len(W) + k) }
}

// ---- timestampWriter
fn rel_timestampWriter_data(g u64, v api.Value) bool = is(v.V, api.Timestamp) && 0 - 9223372036854775808 <= as(v.V, api.Timestamp).Seconds <= 9223372036854775807 && g == zz(as(v.V, api.Timestamp).Seconds)
fn lrel_timestampWriter_data(l i64, v api.Value) bool = is(v.V, api.Timestamp) && l == as(v.V, api.Timestamp).Seconds
fn rel_timestampWriter_secondary(g u64, v api.Value) bool = is(v.V, api.Timestamp) && as(v.V, api.Timestamp).Nanos <= 999999999 && nanodec(g) == as(v.V, api.Timestamp).Nanos
fn lrel_timestampWriter_secondary(l u64, v api.Value) bool = is(v.V, api.Timestamp) && as(v.V, api.Timestamp).Nanos <= 999999999 && nanodec(l) == as(v.V, api.Timestamp).Nanos
fn same_timestampWriter(a api.Value, b api.Value) bool = a.Null == b.Null && (!a.Null ==> is(a.V, api.Timestamp) && as(a.V, api.Timestamp).Seconds == as(b.V, api.Timestamp).Seconds && as(a.V, api.Timestamp).Nanos == as(b.V, api.Timestamp).Nanos)
// the rows V are what the column was given, are what is left to read
fn wrote_timestampWriter(has bool, B []bool, G_data []u64, G_secondary []u64, V []api.Value) bool = rowflags(has, B, V) && len(G_data) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> rel_timestampWriter_data(G_data[vcount(V[:k])], V[k])) && len(G_secondary) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> rel_timestampWriter_secondary(G_secondary[vcount(V[:k])], V[k]))
fn rest_timestampWriter(has bool, F []bool, L_data []i64, L_secondary []u64, V []api.Value) bool = restflags(has, F, V) && len(L_data) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> lrel_timestampWriter_data(L_data[vcount(V[:k])], V[k])) && len(L_secondary) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> lrel_timestampWriter_secondary(L_secondary[vcount(V[:k])], V[k]))
lemma wrote_timestampWriter_step(has bool, B []bool, G_data []u64, G_secondary []u64, B1 []bool, G1_data []u64, G1_secondary []u64, V []api.Value, v api.Value)
  property C10
  requires wrote_timestampWriter(has, B, G_data, G_secondary, V) && (has ? B1 == snoc(B, !v.Null) : !v.Null)
  requires v.Null ? G1_data == G_data : len(G1_data) == len(G_data) + 1 && G1_data[:len(G_data)] == G_data && rel_timestampWriter_data(G1_data[len(G_data)], v)
  requires v.Null ? G1_secondary == G_secondary : len(G1_secondary) == len(G_secondary) + 1 && G1_secondary[:len(G_secondary)] == G_secondary && rel_timestampWriter_secondary(G1_secondary[len(G_secondary)], v)
  ensures wrote_timestampWriter(has, B1, G1_data, G1_secondary, snoc(V, v))
{
  vcount_snoc(snoc(V, v), len(V))
  assert snoc(V, v)[:len(V)] == V
  assert forall k int {snoc(V, v)[k]} :: 0 <= k < len(V) ==> snoc(V, v)[:k] == V[:k]
  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> vcount(V[:k]) < len(G_data) && G1_data[vcount(V[:k])] == G_data[vcount(V[:k])] by { vcount_below(V, k) }
  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> vcount(V[:k]) < len(G_secondary) && G1_secondary[vcount(V[:k])] == G_secondary[vcount(V[:k])] by { vcount_below(V, k) }
}
lemma back_timestampWriter(w *timestampWriter, r *TimestampV2Reader, V []api.Value)
  property C10
  heap
  requires w != nil && shape_TimestampV2Reader(r) && wshape_timestampWriter(w.writer, w.data, w.secondary) && wclosed_timestampWriter(w.writer, w.data, w.secondary)
  requires (r.present != nil <==> w.writer.schema.HasNulls) && (r.present != nil ==> written(ws(w.writer.present), r.present.reader.stream) && len(r.present.reader.values) == 0 && len(r.present.values) == 0)
  requires written(ws(w.data), r.data.stream) && len(r.data.values) == 0
  requires written(ws(w.secondary), r.secondary.stream) && len(r.secondary.uvalues) == 0
  requires wrote_timestampWriter(w.writer.schema.HasNulls, ws(w.writer.present).encoder.givenb, ws(w.data).encoder.given, ws(w.secondary).encoder.given, V)
  ensures good_TimestampV2Reader(r) && (let F = (r.present != nil ? boleft(r.present) : empty([]bool)) in rest_timestampWriter(r.present != nil, F, ileft(r.data), uleft(r.secondary), V))
{
  if w.writer.schema.HasNulls { readback_bools(ws(w.writer.present), r.present) }
  unzzs_code(ws(w.data).encoder.given)
  readback_ints(ws(w.data), r.data, unzzs(ws(w.data).encoder.given))
  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> lrel_timestampWriter_data(unzzs(ws(w.data).encoder.given)[vcount(V[:k])], V[k]) by { vcount_below(V, k)  assert rel_timestampWriter_data(ws(w.data).encoder.given[vcount(V[:k])], V[k]) }
  readback_uints(ws(w.secondary), r.secondary)
}
lemma batch_timestampWriter(has bool, F []bool, L_data []i64, L_secondary []u64, V []api.Value, W []api.Value)
  property C10
  requires rest_timestampWriter(has, F, L_data, L_secondary, V) && len(W) <= len(V) && readflags(has, F, W)
  ensures enough: (has ==> tcount(F[:len(W)]) <= vcount(V)) && len(W) <= len(V)
  requires forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> is(W[k].V, api.Timestamp) && as(W[k].V, api.Timestamp).Seconds == L_data[vcount(W[:k])] && (nanodec(L_secondary[vcount(W[:k])]) <= 18446744073709551615 ==> as(W[k].V, api.Timestamp).Nanos == nanodec(L_secondary[vcount(W[:k])]))
  ensures rows: forall k int {W[k]} :: 0 <= k < len(W) ==> same_timestampWriter(W[k], V[k])
  ensures rest: rest_timestampWriter(has, F[len(W):], L_data[vcount(W):], L_secondary[vcount(W):], V[len(W):])
{
  assert forall k int {V[k]} {W[k]} :: 0 <= k < len(W) ==> V[k].Null == W[k].Null
  tflags(has, F, V, len(W))
  vcount_mono(V, len(W), len(V))
  vcount_same(V, W, len(W))
  vcount_drop(V, len(W), len(V) - len(W))
  assert V[len(W):][:len(V) - len(W)] == V[len(W):]
  assert W[:len(W)] == W && V[:len(W) + (len(V) - len(W))] == V
  assert forall k int {W[k]} :: 0 <= k < len(W) ==> vcount(V[:k]) == vcount(W[:k]) by { vcount_same(V, W, k) }
  assert forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> vcount(V[:k]) < vcount(V) by { vcount_below(V, k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) ==> vcount(V[len(W):][:k]) == vcount(V[:len(W) + k]) - vcount(V[:len(W)]) by { vcount_drop(V, len(W), k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) && !V[len(W) + k].Null ==> L_data[vcount(W):][vcount(V[len(W):][:k])] == L_data[vcount(V[:len(W) + k])] && lrel_timestampWriter_data(L_data[vcount(V[:len(W) + k])], V[len(W) + k]) by { vcount_drop(V, len(W), k)  vcount_below(V, len(W) + k)  vcount_mono(V, len(W), len(W) + k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) && !V[len(W) + k].Null ==> L_secondary[vcount(W):][vcount(V[len(W):][:k])] == L_secondary[vcount(V[:len(W) + k])] && lrel_timestampWriter_secondary(L_secondary[vcount(V[:len(W) + k])], V[len(W) + k]) by { vcount_drop(V, len(W), k)  vcount_below(V, len(W) + k)  vcount_mono(V, len(W), len(W) + k) }
}

// ---- decimalV2Writer
fn rel_decimalV2Writer_data(g u64, v api.Value) bool = is(v.V, api.Decimal64) && 0 - 9223372036854775808 <= as(v.V, api.Decimal64).Precision <= 9223372036854775807 && g == zz(as(v.V, api.Decimal64).Precision)
fn lrel_decimalV2Writer_data(l i64, v api.Value) bool = is(v.V, api.Decimal64) && l == as(v.V, api.Decimal64).Precision
fn rel_decimalV2Writer_secondary(g u64, v api.Value) bool = is(v.V, api.Decimal64) && 0 - 9223372036854775808 <= as(v.V, api.Decimal64).Scale <= 9223372036854775807 && g == zz(as(v.V, api.Decimal64).Scale)
fn lrel_decimalV2Writer_secondary(l i64, v api.Value) bool = is(v.V, api.Decimal64) && l == as(v.V, api.Decimal64).Scale
fn same_decimalV2Writer(a api.Value, b api.Value) bool = a.Null == b.Null && (!a.Null ==> is(a.V, api.Decimal64) && as(a.V, api.Decimal64).Precision == as(b.V, api.Decimal64).Precision && as(a.V, api.Decimal64).Scale == as(b.V, api.Decimal64).Scale)
// the rows V are what the column was given, are what is left to read
fn wrote_decimalV2Writer(has bool, B []bool, G_data []u64, G_secondary []u64, V []api.Value) bool = rowflags(has, B, V) && len(G_data) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> rel_decimalV2Writer_data(G_data[vcount(V[:k])], V[k])) && len(G_secondary) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> rel_decimalV2Writer_secondary(G_secondary[vcount(V[:k])], V[k]))
fn rest_decimalV2Writer(has bool, F []bool, L_data []i64, L_secondary []i64, V []api.Value) bool = restflags(has, F, V) && len(L_data) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> lrel_decimalV2Writer_data(L_data[vcount(V[:k])], V[k])) && len(L_secondary) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> lrel_decimalV2Writer_secondary(L_secondary[vcount(V[:k])], V[k]))
lemma wrote_decimalV2Writer_step(has bool, B []bool, G_data []u64, G_secondary []u64, B1 []bool, G1_data []u64, G1_secondary []u64, V []api.Value, v api.Value)
  property C10
  requires wrote_decimalV2Writer(has, B, G_data, G_secondary, V) && (has ? B1 == snoc(B, !v.Null) : !v.Null)
  requires v.Null ? G1_data == G_data : len(G1_data) == len(G_data) + 1 && G1_data[:len(G_data)] == G_data && rel_decimalV2Writer_data(G1_data[len(G_data)], v)
  requires v.Null ? G1_secondary == G_secondary : len(G1_secondary) == len(G_secondary) + 1 && G1_secondary[:len(G_secondary)] == G_secondary && rel_decimalV2Writer_secondary(G1_secondary[len(G_secondary)], v)
  ensures wrote_decimalV2Writer(has, B1, G1_data, G1_secondary, snoc(V, v))
{
  vcount_snoc(snoc(V, v), len(V))
  assert snoc(V, v)[:len(V)] == V
  assert forall k int {snoc(V, v)[k]} :: 0 <= k < len(V) ==> snoc(V, v)[:k] == V[:k]
  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> vcount(V[:k]) < len(G_data) && G1_data[vcount(V[:k])] == G_data[vcount(V[:k])] by { vcount_below(V, k) }
  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> vcount(V[:k]) < len(G_secondary) && G1_secondary[vcount(V[:k])] == G_secondary[vcount(V[:k])] by { vcount_below(V, k) }
}
lemma back_decimalV2Writer(w *decimalV2Writer, r *DecimalV2Reader, V []api.Value)
  property C10
  heap
  requires w != nil && shape_DecimalV2Reader(r) && wshape_decimalV2Writer(w.writer, w.data, w.secondary) && wclosed_decimalV2Writer(w.writer, w.data, w.secondary)
  requires (r.present != nil <==> w.writer.schema.HasNulls) && (r.present != nil ==> written(ws(w.writer.present), r.present.reader.stream) && len(r.present.reader.values) == 0 && len(r.present.values) == 0)
  requires written(ws(w.data), r.data.stream)
  requires written(ws(w.secondary), r.secondary.stream) && len(r.secondary.values) == 0
  requires wrote_decimalV2Writer(w.writer.schema.HasNulls, ws(w.writer.present).encoder.givenb, ws(w.data).encoder.given, ws(w.secondary).encoder.given, V)
  ensures good_DecimalV2Reader(r) && (let F = (r.present != nil ? boleft(r.present) : empty([]bool)) in rest_decimalV2Writer(r.present != nil, F, vleft(r.data), ileft(r.secondary), V))
{
  if w.writer.schema.HasNulls { readback_bools(ws(w.writer.present), r.present) }
  unzzs_code(ws(w.data).encoder.given)
  readback_varints(ws(w.data), r.data, unzzs(ws(w.data).encoder.given))
  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> lrel_decimalV2Writer_data(unzzs(ws(w.data).encoder.given)[vcount(V[:k])], V[k]) by { vcount_below(V, k)  assert rel_decimalV2Writer_data(ws(w.data).encoder.given[vcount(V[:k])], V[k]) }
  unzzs_code(ws(w.secondary).encoder.given)
  readback_ints(ws(w.secondary), r.secondary, unzzs(ws(w.secondary).encoder.given))
  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> lrel_decimalV2Writer_secondary(unzzs(ws(w.secondary).encoder.given)[vcount(V[:k])], V[k]) by { vcount_below(V, k)  assert rel_decimalV2Writer_secondary(ws(w.secondary).encoder.given[vcount(V[:k])], V[k]) }
}
lemma batch_decimalV2Writer(has bool, F []bool, L_data []i64, L_secondary []i64, V []api.Value, W []api.Value)
  property C10
  requires rest_decimalV2Writer(has, F, L_data, L_secondary, V) && len(W) <= len(V) && readflags(has, F, W)
  ensures enough: (has ==> tcount(F[:len(W)]) <= vcount(V)) && len(W) <= len(V)
  requires forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> is(W[k].V, api.Decimal64) && as(W[k].V, api.Decimal64).Precision == L_data[vcount(W[:k])] && as(W[k].V, api.Decimal64).Scale == L_secondary[vcount(W[:k])]
  ensures rows: forall k int {W[k]} :: 0 <= k < len(W) ==> same_decimalV2Writer(W[k], V[k])
  ensures rest: rest_decimalV2Writer(has, F[len(W):], L_data[vcount(W):], L_secondary[vcount(W):], V[len(W):])
{
  assert forall k int {V[k]} {W[k]} :: 0 <= k < len(W) ==> V[k].Null == W[k].Null
  tflags(has, F, V, len(W))
  vcount_mono(V, len(W), len(V))
  vcount_same(V, W, len(W))
  vcount_drop(V, len(W), len(V) - len(W))
  assert V[len(W):][:len(V) - len(W)] == V[len(W):]
  assert W[:len(W)] == W && V[:len(W) + (len(V) - len(W))] == V
  assert forall k int {W[k]} :: 0 <= k < len(W) ==> vcount(V[:k]) == vcount(W[:k]) by { vcount_same(V, W, k) }
  assert forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> vcount(V[:k]) < vcount(V) by { vcount_below(V, k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) ==> vcount(V[len(W):][:k]) == vcount(V[:len(W) + k]) - vcount(V[:len(W)]) by { vcount_drop(V, len(W), k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) && !V[len(W) + k].Null ==> L_data[vcount(W):][vcount(V[len(W):][:k])] == L_data[vcount(V[:len(W) + k])] && lrel_decimalV2Writer_data(L_data[vcount(V[:len(W) + k])], V[len(W) + k]) by { vcount_drop(V, len(W), k)  vcount_below(V, len(W) + k)  vcount_mono(V, len(W), len(W) + k) }
  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) && !V[len(W) + k].Null ==> L_secondary[vcount(W):][vcount(V[len(W):][:k])] == L_secondary[vcount(V[:len(W) + k])] && lrel_decimalV2Writer_secondary(L_secondary[vcount(V[:len(W) + k])], V[len(W) + k]) by { vcount_drop(V, len(W), k)  vcount_below(V, len(W) + k)  vcount_mono(V, len(W), len(W) + k) }
}
