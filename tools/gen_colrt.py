#!/usr/bin/env python3
"""Writes contracts/29_columns.spec: what was written to a column is what is read from it."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
out = []
w = out.append
w('''// Columns: what was written is what is read.  Written by tools/gen_colrt.py.
package column

// the flags of the rows V, as far as the schema has nulls
fn rowflags(has bool, B []bool, V []api.Value) bool = has ? len(B) == len(V) && (forall k int {B[k]} {V[k]} :: 0 <= k < len(V) ==> B[k] == !V[k].Null) : (forall k int {V[k]} :: 0 <= k < len(V) ==> !V[k].Null)
// flags F (and what pads them) that say which rows of V are null
fn restflags(has bool, F []bool, V []api.Value) bool = has ? len(F) >= len(V) && (forall k int {F[k]} {V[k]} :: 0 <= k < len(V) ==> F[k] == !V[k].Null) : (forall k int {V[k]} :: 0 <= k < len(V) ==> !V[k].Null)
// rows made by reading have the flags F, or none
fn readflags(has bool, F []bool, W []api.Value) bool = has ? len(F) >= len(W) && (forall k int {W[k]} :: 0 <= k < len(W) ==> W[k].Null == !F[k]) : (forall k int {W[k]} :: 0 <= k < len(W) ==> !W[k].Null)

lemma vcount_same(V []api.Value, W []api.Value, n int)
  property C10
  decreases n
  requires 0 <= n <= len(V) && n <= len(W) && forall k int {V[k]} {W[k]} :: 0 <= k < n ==> V[k].Null == W[k].Null
  ensures vcount(V[:n]) == vcount(W[:n])
{ if n > 0 { vcount_same(V, W, n - 1)  vcount_snoc(V, n - 1)  vcount_snoc(W, n - 1) } }

lemma vcount_drop(V []api.Value, m int, k int)
  property C10
  decreases k
  requires 0 <= m && 0 <= k && m + k <= len(V)
  ensures vcount(V[m:][:k]) == vcount(V[:m+k]) - vcount(V[:m])
{ if k > 0 { vcount_drop(V, m, k - 1)  vcount_snoc(V, m + k - 1)  vcount_snoc(V[m:], k - 1) } }

lemma usum_drop(U []uint64, m int, k int)
  property C10
  decreases k
  requires 0 <= m && 0 <= k && m + k <= len(U)
  ensures usum(U[m:][:k]) == usum(U[:m+k]) - usum(U[:m])
{ if k > 0 { usum_drop(U, m, k - 1)  usum_snoc(U, m + k - 1)  usum_snoc(U[m:], k - 1) } }

lemma vcount_below(V []api.Value, k int)
  property C10
  requires 0 <= k < len(V) && !V[k].Null
  ensures vcount(V[:k]) < vcount(V)
{ vcount_snoc(V, k)  vcount_mono(V, k + 1, len(V)) }

lemma unzzs_code(U []uint64)
  property C10
  ensures len(unzzs(U)) == len(U)
  ensures forall k int {unzzs(U)[k]} {U[k]} :: 0 <= k < len(U) ==> unzzs(U)[k] == unzz(U[k]) && U[k] == zz(unzzs(U)[k]) && 0 - 9223372036854775808 <= unzzs(U)[k] <= 9223372036854775807
{
  unzzs_at(U)
  assert forall k int {U[k]} :: 0 <= k < len(U) ==> zz(unzz(U[k])) == U[k] && 0 - 9223372036854775808 <= unzz(U[k]) <= 9223372036854775807
}

lemma tflags(has bool, F []bool, V []api.Value, m int)
  property C10
  requires restflags(has, F, V) && 0 <= m <= len(V)
  ensures has ==> tcount(F[:m]) == vcount(V[:m])
{ if has { vcount_flags(V[:m], F[:m]) } }
''')


class C:
    def __init__(self, typ, reader, par, streams, same, step=None):
        self.__dict__.update(locals())


# streams: (field, ghost field of the writer, its element type, relation code-value, reader's rest, its element type, relation left-value, bridge lemma)
I64 = '0 - 9223372036854775808 <= %s <= 9223372036854775807'
R = 'as(%s.V, api.%s)'


class S:
    def __init__(self, field, g, gt, rel, left, lt, lrel, bridge):
        self.__dict__.update(locals())


INT = '(bits == 16 ? is(v.V, int16) && 0 - 32768 <= as(v.V, int16) <= 32767 && $(as(v.V, int16)) : bits == 32 ? is(v.V, int32) && 0 - 2147483648 <= as(v.V, int32) <= 2147483647 && $(as(v.V, int32)) : is(v.V, int64) && %s && $(as(v.V, int64)))' % (I64 % 'as(v.V, int64)')
import re


def intrel(f):
    return re.sub(r'\$\((as\(v\.V, int\d+\))\)', lambda m: f % m.group(1), INT)


TS = 'as(v.V, api.Timestamp)'
DEC = 'as(v.V, api.Decimal64)'
COLS = [
    C('intWriter', 'IntV2Reader', ('bits int', 'bits', 'w.bits', 'r.bits == w.bits'),
      [S('data', 'given', 'u64', intrel('g == zz(%s)'), 'ileft(r.data)', 'i64', intrel('l == %s'), 'ints')],
      '(bits == 16 ? is(a.V, int16) && as(a.V, int16) == as(b.V, int16) : bits == 32 ? is(a.V, int32) && as(a.V, int32) == as(b.V, int32) : is(a.V, int64) && as(a.V, int64) == as(b.V, int64))'),
    C('byteWriter', 'ByteReader', None, [S('data', 'given8', 'byte', 'is(v.V, byte) && g == as(v.V, byte)', 'bleft(r.data)', 'byte', 'is(v.V, byte) && l == as(v.V, byte)', 'bytes')],
      'is(a.V, byte) && as(a.V, byte) == as(b.V, byte)'),
    C('boolWriter', 'BoolReader', None, [S('data', 'givenb', 'bool', 'is(v.V, bool) && g == as(v.V, bool)', 'boleft(r.data)', 'bool', 'is(v.V, bool) && l == as(v.V, bool)', 'bools')],
      'is(a.V, bool) && as(a.V, bool) == as(b.V, bool)'),
    C('floatWriter', 'FloatReader', ('is64 bool', 'is64', 'w.is64', 'r.is64 == w.is64'), [S('data', 'given', 'u64', '(is64 ? is(v.V, float64) && g == bits(as(v.V, float64)) : is(v.V, float32) && g == bits(as(v.V, float32)))', 'fleft(r.data)', 'u64', '(is64 ? is(v.V, float64) && l == bits(as(v.V, float64)) : is(v.V, float32) && l == bits(as(v.V, float32)))', 'floats')],
      '(is64 ? is(a.V, float64) && bits(as(a.V, float64)) == bits(as(b.V, float64)) : is(a.V, float32) && bits(as(a.V, float32)) == bits(as(b.V, float32)))'),
    C('dateV2Writer', 'DateV2Reader', None, [S('data', 'given', 'u64', 'is(v.V, api.Date) && g == zz(daynum(as(v.V, api.Date)))', 'dleft(as(r.data, *stream.dateV2Reader))', 'u64', 'is(v.V, api.Date) && l == zz(daynum(as(v.V, api.Date)))', 'dates')],
      'is(a.V, api.Date) && dateof(as(a.V, api.Date), zz(daynum(as(b.V, api.Date))))'),
    C('timestampWriter', 'TimestampV2Reader', None, [
        S('data', 'given', 'u64', 'is(v.V, api.Timestamp) && %s && g == zz(%s.Seconds)' % (I64 % (TS + '.Seconds'), TS), 'ileft(r.data)', 'i64', 'is(v.V, api.Timestamp) && l == %s.Seconds' % TS, 'ints'),
        S('secondary', 'given', 'u64', 'is(v.V, api.Timestamp) && %s.Nanos <= 999999999 && nanodec(g) == %s.Nanos' % (TS, TS), 'uleft(r.secondary)', 'u64', 'is(v.V, api.Timestamp) && %s.Nanos <= 999999999 && nanodec(l) == %s.Nanos' % (TS, TS), 'uints')],
      'is(a.V, api.Timestamp) && as(a.V, api.Timestamp).Seconds == as(b.V, api.Timestamp).Seconds && as(a.V, api.Timestamp).Nanos == as(b.V, api.Timestamp).Nanos'),
    C('decimalV2Writer', 'DecimalV2Reader', None, [
        S('data', 'given', 'u64', 'is(v.V, api.Decimal64) && %s && g == zz(%s.Precision)' % (I64 % (DEC + '.Precision'), DEC), 'vleft(r.data)', 'i64', 'is(v.V, api.Decimal64) && l == %s.Precision' % DEC, 'varints'),
        S('secondary', 'given', 'u64', 'is(v.V, api.Decimal64) && %s && g == zz(%s.Scale)' % (I64 % (DEC + '.Scale'), DEC), 'ileft(r.secondary)', 'i64', 'is(v.V, api.Decimal64) && l == %s.Scale' % DEC, 'ints')],
      'is(a.V, api.Decimal64) && as(a.V, api.Decimal64).Precision == as(b.V, api.Decimal64).Precision && as(a.V, api.Decimal64).Scale == as(b.V, api.Decimal64).Scale'),
]
for c in COLS:
    T = c.typ
    P, A, AW, REQ = c.par or ('', '', '', '')
    pc = P + ', ' if P else ''
    ac = A + ', ' if A else ''
    awc = AW + ', ' if AW else ''
    w('// ---- %s' % T)
    for s in c.streams:
        w('fn rel_%s_%s(%sg %s, v api.Value) bool = %s' % (T, s.field, pc, s.gt, s.rel))
        w('fn lrel_%s_%s(%sl %s, v api.Value) bool = %s' % (T, s.field, pc, s.lt, s.lrel))
    w('fn same_%s(%sa api.Value, b api.Value) bool = a.Null == b.Null && (!a.Null ==> %s)' % (T, pc, c.same))
    gpar = ', '.join('G_%s []%s' % (s.field, s.gt) for s in c.streams)
    garg = ', '.join('G_%s' % s.field for s in c.streams)
    lpar = ', '.join('L_%s []%s' % (s.field, s.lt) for s in c.streams)
    larg = ', '.join('L_%s' % s.field for s in c.streams)

    def rows(pre, X):
        return ' && '.join('len(%s_%s) == vcount(V) && (forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> %s_%s_%s(%s%s_%s[vcount(V[:k])], V[k]))' % (X, s.field, pre, T, s.field, ac, X, s.field) for s in c.streams)
    w('// the rows V are what the column was given, are what is left to read')
    w('fn wrote_%s(%shas bool, B []bool, %s, V []api.Value) bool = rowflags(has, B, V) && %s' % (T, pc, gpar, rows('rel', 'G')))
    w('fn rest_%s(%shas bool, F []bool, %s, V []api.Value) bool = restflags(has, F, V) && %s' % (T, pc, lpar, rows('lrel', 'L')))
    # a step of writing
    w('lemma wrote_%s_step(%shas bool, B []bool, %s, B1 []bool, %s, V []api.Value, v api.Value)' % (T, pc, gpar, gpar.replace('G_', 'G1_')))
    w('  property C10')
    w('  requires wrote_%s(%shas, B, %s, V) && (has ? B1 == snoc(B, !v.Null) : !v.Null)' % (T, ac, garg))
    for s in c.streams:
        f = s.field
        w('  requires v.Null ? G1_%s == G_%s : len(G1_%s) == len(G_%s) + 1 && G1_%s[:len(G_%s)] == G_%s && rel_%s_%s(%sG1_%s[len(G_%s)], v)' % (f, f, f, f, f, f, f, T, f, ac, f, f))
    w('  ensures wrote_%s(%shas, B1, %s, snoc(V, v))' % (T, ac, garg.replace('G_', 'G1_')))
    w('{')
    w('  vcount_snoc(snoc(V, v), len(V))')
    w('  assert snoc(V, v)[:len(V)] == V')
    w('  assert forall k int {snoc(V, v)[k]} :: 0 <= k < len(V) ==> snoc(V, v)[:k] == V[:k]')
    for s in c.streams:
        f = s.field
        w('  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> vcount(V[:k]) < len(G_%s) && G1_%s[vcount(V[:k])] == G_%s[vcount(V[:k])] by { vcount_below(V, k) }' % (f, f, f))
    w('}')
    # a finished column and the readers opened on its streams
    w('lemma back_%s(w *%s, r *%s, V []api.Value)' % (T, T, c.reader))
    w('  property C10')
    w('  heap')
    args = ', '.join(['w.writer'] + ['w.%s' % s.field for s in c.streams] + ([AW] if AW else []))
    w('  requires w != nil && shape_%s(r) && wshape_%s(%s) && wclosed_%s(%s)%s' % (c.reader, T, args, T, args, ' && ' + REQ if REQ else ''))
    w('  requires (r.present != nil <==> w.writer.schema.HasNulls) && (r.present != nil ==> written(ws(w.writer.present), r.present.reader.stream) && len(r.present.reader.values) == 0 && len(r.present.values) == 0)')
    for s in c.streams:
        rr = {'bools': 'r.%s.reader.stream' % s.field, 'dates': 'as(r.%s, *stream.dateV2Reader).stream' % s.field}.get(s.bridge, 'r.%s.stream' % s.field)
        e = {'bools': ' && len(r.%s.reader.values) == 0 && len(r.%s.values) == 0' % (s.field, s.field), 'bytes': ' && len(r.%s.values) == 0' % s.field, 'ints': ' && len(r.%s.values) == 0' % s.field, 'uints': ' && len(r.%s.uvalues) == 0' % s.field,
             'dates': ' && len(as(r.%s, *stream.dateV2Reader).values) == 0' % s.field}.get(s.bridge, '')
        w('  requires written(ws(w.%s), %s)%s' % (s.field, rr, e))
    g = ', '.join('ws(w.%s).encoder.%s' % (s.field, s.g) for s in c.streams)
    w('  requires wrote_%s(%sw.writer.schema.HasNulls, ws(w.writer.present).encoder.givenb, %s, V)' % (T, awc, g))
    # boolean data is padded: what is left starts with what was given
    left = ', '.join('%s[:vcount(V)]' % s.left if s.bridge == 'bools' else s.left for s in c.streams)
    for s in c.streams:
        if s.bridge == 'bools':
            w('  ensures len(%s) >= vcount(V)' % s.left)
    w('  ensures good_%s(r) && (let F = (r.present != nil ? boleft(r.present) : empty([]bool)) in rest_%s(%sr.present != nil, F, %s, V))' % (c.reader, T, awc, left))
    w('{')
    w('  if w.writer.schema.HasNulls { readback_bools(ws(w.writer.present), r.present) }')
    for s in c.streams:
        rr = 'as(r.%s, *stream.dateV2Reader)' % s.field if s.bridge == 'dates' else 'r.%s' % s.field
        if s.bridge in ('ints', 'varints'):
            w('  unzzs_code(ws(w.%s).encoder.given)' % s.field)
            w('  readback_%s(ws(w.%s), %s, unzzs(ws(w.%s).encoder.given))' % (s.bridge, s.field, rr, s.field))
            w('  assert forall k int {V[k]} :: 0 <= k < len(V) && !V[k].Null ==> lrel_%s_%s(%sunzzs(ws(w.%s).encoder.given)[vcount(V[:k])], V[k]) by { vcount_below(V, k)  assert rel_%s_%s(%sws(w.%s).encoder.given[vcount(V[:k])], V[k]) }' % (T, s.field, awc, s.field, T, s.field, awc, s.field))
        else:
            w('  readback_%s(ws(w.%s), %s)' % (s.bridge, s.field, rr))
    w('}')
    # a batch
    w('lemma batch_%s(%shas bool, F []bool, %s, V []api.Value, W []api.Value)' % (T, pc, lpar))
    w('  property C10')
    w('  requires rest_%s(%shas, F, %s, V) && len(W) <= len(V) && readflags(has, F, W)' % (T, ac, larg))
    w('  ensures enough: (has ==> tcount(F[:len(W)]) <= vcount(V)) && len(W) <= len(V)')
    cl = []
    for s in c.streams:
        l = 'L_%s[vcount(W[:k])]' % s.field
        if T == 'intWriter':
            cl.append('(bits == 16 ? is(W[k].V, int16) && as(W[k].V, int16) == i16(%s) : bits == 32 ? is(W[k].V, int32) && as(W[k].V, int32) == i32(%s) : is(W[k].V, int64) && as(W[k].V, int64) == %s)' % (l, l, l))
        elif T == 'floatWriter':
            cl.append('(is64 ? is(W[k].V, float64) && bits(as(W[k].V, float64)) == %s : is(W[k].V, float32) && bits(as(W[k].V, float32)) == %s)' % (l, l))
        elif T in ('byteWriter', 'boolWriter'):
            t = 'byte' if T == 'byteWriter' else 'bool'
            cl.append('is(W[k].V, %s) && as(W[k].V, %s) == %s' % (t, t, l))
        elif T == 'dateV2Writer':
            cl.append('is(W[k].V, api.Date) && dateof(as(W[k].V, api.Date), %s)' % l)
        elif T == 'timestampWriter':
            cl.append('is(W[k].V, api.Timestamp) && as(W[k].V, api.Timestamp).Seconds == %s' % l if s.field == 'data' else '(nanodec(%s) <= 18446744073709551615 ==> as(W[k].V, api.Timestamp).Nanos == nanodec(%s))' % (l, l))
        else:
            cl.append('is(W[k].V, api.Decimal64) && as(W[k].V, api.Decimal64).Precision == %s' % l if s.field == 'data' else 'as(W[k].V, api.Decimal64).Scale == %s' % l)
    w('  requires forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> %s' % ' && '.join(cl))
    w('  ensures rows: forall k int {W[k]} :: 0 <= k < len(W) ==> same_%s(%sW[k], V[k])' % (T, ac))
    w('  ensures rest: rest_%s(%shas, F[len(W):], %s, V[len(W):])' % (T, ac, ', '.join('L_%s[vcount(W):]' % s.field for s in c.streams)))
    w('{')
    w('  assert forall k int {V[k]} {W[k]} :: 0 <= k < len(W) ==> V[k].Null == W[k].Null')
    w('  tflags(has, F, V, len(W))')
    w('  vcount_mono(V, len(W), len(V))')
    w('  vcount_same(V, W, len(W))')
    w('  vcount_drop(V, len(W), len(V) - len(W))')
    w('  assert V[len(W):][:len(V) - len(W)] == V[len(W):]')
    w('  assert W[:len(W)] == W && V[:len(W) + (len(V) - len(W))] == V')
    w('  assert forall k int {W[k]} :: 0 <= k < len(W) ==> vcount(V[:k]) == vcount(W[:k]) by { vcount_same(V, W, k) }')
    w('  assert forall k int {W[k]} :: 0 <= k < len(W) && !W[k].Null ==> vcount(V[:k]) < vcount(V) by { vcount_below(V, k) }')
    w('  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) ==> vcount(V[len(W):][:k]) == vcount(V[:len(W) + k]) - vcount(V[:len(W)]) by { vcount_drop(V, len(W), k) }')
    for s in c.streams:
        f = s.field
        w('  assert forall k int {V[len(W):][k]} :: 0 <= k < len(V) - len(W) && !V[len(W) + k].Null ==> L_%s[vcount(W):][vcount(V[len(W):][:k])] == L_%s[vcount(V[:len(W) + k])] && lrel_%s_%s(%sL_%s[vcount(V[:len(W) + k])], V[len(W) + k]) by { vcount_drop(V, len(W), k)  vcount_below(V, len(W) + k)  vcount_mono(V, len(W), len(W) + k) }' % (f, f, T, f, ac, f))
    w('}')
    w('')
open(os.path.join(HERE, '..', 'contracts', '29_columns.spec'), 'w').write('\n'.join(out))
