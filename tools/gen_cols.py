#!/usr/bin/env python3
"""Writes contracts/27_colread.spec: the contracts of the column readers, which differ only in their value streams."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
out = []
w = out.append
w('''// Column readers: rows made of present flags and values.  Written by tools/gen_cols.py.
package column

// rows that carry a value
fn vcount(V []api.Value) int rec decreases len(V) = len(V) == 0 ? 0 : vcount(V[:len(V)-1]) + (V[len(V)-1].Null ? 0 : 1)
// flags that are set
fn tcount(F []bool) int rec decreases len(F) = len(F) == 0 ? 0 : tcount(F[:len(F)-1]) + (F[len(F)-1] ? 1 : 0)
fn usum(U []uint64) int rec decreases len(U) = len(U) == 0 ? 0 : usum(U[:len(U)-1]) + U[len(U)-1]

lemma vcount_range(V []api.Value)
  property C10
  decreases len(V)
  trigger {vcount(V)}
  ensures 0 <= vcount(V) <= len(V)
  reveal vcount
{ if len(V) > 0 { vcount_range(V[:len(V)-1]) } }

lemma vcount_snoc(V []api.Value, i int)
  property C10
  requires 0 <= i < len(V)
  ensures vcount(V[:i+1]) == vcount(V[:i]) + (V[i].Null ? 0 : 1)
  reveal vcount
{ assert V[:i+1][:len(V[:i+1])-1] == V[:i] }

lemma vcount_nil()
  property C10
  auto
  ensures vcount(empty([]api.Value)) == 0 && tcount(empty([]bool)) == 0 && usum(empty([]uint64)) == 0
  reveal vcount, tcount, usum

lemma tcount_range(F []bool)
  property C10
  decreases len(F)
  trigger {tcount(F)}
  ensures 0 <= tcount(F) <= len(F)
  reveal tcount
{ if len(F) > 0 { tcount_range(F[:len(F)-1]) } }

lemma tcount_snoc(F []bool, i int)
  property C10
  requires 0 <= i < len(F)
  ensures tcount(F[:i+1]) == tcount(F[:i]) + (F[i] ? 1 : 0)
  reveal tcount
{ assert F[:i+1][:len(F[:i+1])-1] == F[:i] }

lemma tcount_mono(F []bool, i int, n int)
  property C10
  decreases n - i
  requires 0 <= i <= n && n <= len(F)
  ensures tcount(F[:i]) <= tcount(F[:n])
{ if i < n { tcount_mono(F, i + 1, n)  tcount_snoc(F, i) } }

lemma vcount_mono(V []api.Value, i int, n int)
  property C10
  decreases n - i
  requires 0 <= i <= n && n <= len(V)
  ensures vcount(V[:i]) <= vcount(V[:n])
{ if i < n { vcount_mono(V, i + 1, n)  vcount_snoc(V, i) } }

// rows as their flags say
lemma vcount_flags(V []api.Value, F []bool)
  property C10
  decreases len(V)
  requires len(F) == len(V) && forall k int {V[k]} :: 0 <= k < len(V) ==> V[k].Null == !F[k]
  ensures vcount(V) == tcount(F)
  reveal vcount, tcount
{ if len(V) > 0 { vcount_flags(V[:len(V)-1], F[:len(F)-1]) } }

lemma usum_snoc(U []uint64, i int)
  property C10
  requires 0 <= i < len(U)
  ensures usum(U[:i+1]) == usum(U[:i]) + U[i]
  reveal usum
{ assert U[:i+1][:len(U[:i+1])-1] == U[:i] }

lemma usum_range(U []uint64)
  property C10
  decreases len(U)
  trigger {usum(U)}
  ensures usum(U) >= 0
  reveal usum
{ if len(U) > 0 { usum_range(U[:len(U)-1]) } }

lemma usum_mono(U []uint64, i int, n int)
  property C10
  decreases n - i
  requires 0 <= i <= n && n <= len(U)
  ensures usum(U[:i]) <= usum(U[:n])
{ if i < n { usum_mono(U, i + 1, n)  usum_snoc(U, i) } }

// the j-th piece of C, cut into pieces of the lengths U
fn piece(C []byte, U []uint64, j int) []byte = C[usum(U[:j]):][:U[j]]
fn small(U []uint64) bool = forall k int {U[k]} :: 0 <= k < len(U) ==> U[k] <= 4611686018427387904

// two streams that share nothing
fn sapart(a *stream.reader, b *stream.reader) bool = a != b && a.buf != b.buf && ref(a.f) != ref(b.f) && ref(a) != ref(b.f) && ref(b) != ref(a.f) && ref(a) != ref(b.buf) && ref(b) != ref(a.buf) &&
  ref(a) != ref(b.cmpBuf) && ref(b) != ref(a.cmpBuf) && ref(a.buf) != ref(b.f) && ref(a.f) != ref(b.buf) &&
  a.buf != b.cmpBuf && a.cmpBuf != b.buf && (a.cmpBuf != b.cmpBuf || a.cmpBuf == nil) && ref(a.cmpBuf) != ref(b.f) && ref(a.f) != ref(b.cmpBuf)
''')

# kind: (shape, good, left, locs, stream, element) with %s the reader
KIND = {
    'int': ('ishape(%s) && %s.signed', 'igood(%s)', 'ileft(%s)', 'ist(%s)', '%s.stream'),
    'uint': ('ishape(%s) && !%s.signed', 'igood(%s)', 'uleft(%s)', 'ist(%s)', '%s.stream'),
    'byte': ('bshape(%s)', 'bgood(%s)', 'bleft(%s)', '%s.values, %s.consumed, sst(%s.stream)', '%s.stream'),
    'bool': ('boshape(%s)', 'bgood(%s.reader)', 'boleft(%s)', 'bst(%s)', '%s.reader.stream'),
    'float': ('%s.stream != nil && srep(%s.stream)', 'fgood(%s)', 'fleft(%s)', 'sst(%s.stream)', '%s.stream'),
    'varint': ('%s.stream != nil && srep(%s.stream)', 'vgood(%s)', 'vleft(%s)', 'sst(%s.stream)', '%s.stream'),
    'contents': ('%s.stream != nil && srep(%s.stream)', '%s.stream.good', '%s.stream.content', 'sst(%s.stream)', '%s.stream'),
    'date': ('dshape(%s)', 'dgood(%s)', 'dleft(%s)', 'dst(%s)', '%s.stream'),
}
DATE = 'as(r.data, *stream.dateV2Reader)'


def sub(t, e):
    return t.replace('%s', e)


class Col:
    def __init__(self, typ, fields, value, extra='', dispatch='', pre=''):
        self.typ, self.fields, self.value, self.extra, self.dispatch, self.pre = typ, fields, value, extra, dispatch, pre


COLS = [
    Col('IntV2Reader', [('r.data', 'int')], '(r.bits == 16 ? is($x, int16) && as($x, int16) == i16($0) : r.bits == 32 ? is($x, int32) && as($x, int32) == i32($0) : is($x, int64) && as($x, int64) == $0)', '(r.bits == 16 || r.bits == 32 || r.bits == 64)'),
    Col('ByteReader', [('r.data', 'byte')], 'is($x, byte) && as($x, byte) == $0'),
    Col('BoolReader', [('r.data', 'bool')], 'is($x, bool) && as($x, bool) == $0'),
    Col('FloatReader', [('r.data', 'float')], '(r.is64 ? is($x, float64) && bits(as($x, float64)) == $0 : is($x, float32) && bits(as($x, float32)) == $0)', 'r.is64 == r.data.is64'),
    Col('DateV2Reader', [(DATE, 'date')], 'is($x, api.Date) && dateof(as($x, api.Date), $0)', 'is(r.data, *stream.dateV2Reader)', 'stream.DateReader as stream.dateV2Reader'),
    Col('TimestampV2Reader', [('r.data', 'int'), ('r.secondary', 'uint')], 'is($x, api.Timestamp) && as($x, api.Timestamp).Seconds == $0 && (nanodec($1) <= 18446744073709551615 ==> as($x, api.Timestamp).Nanos == nanodec($1))'),
    Col('DecimalV2Reader', [('r.data', 'varint'), ('r.secondary', 'int')], 'is($x, api.Decimal64) && as($x, api.Decimal64).Precision == $0 && as($x, api.Decimal64).Scale == $1'),
    Col('BinaryV2Reader', [('r.length', 'uint'), ('r.data', 'contents')], 'is($x, []byte) && as($x, []byte) == piece($C, $U, $j)'),
    Col('StringDirectV2Reader', [('r.length', 'uint'), ('r.data', 'contents')], 'is($x, string) && as($x, string) == piece($C, $U, $j)'),
]


def distinct(c):
    """typed readers that share nothing"""
    o = []
    fs = c.fields
    for i, (f, k) in enumerate(fs):
        for g, k2 in fs[i + 1:]:
            o.append('sapart(%s, %s)' % (sub(KIND[k][4], f), sub(KIND[k2][4], g)))
            if k in ('int', 'uint') and k2 in ('int', 'uint'):
                o.append('%s != %s && idec(%s) != idec(%s)' % (f, g, f, g))
    for f, k in fs:
        p = ['sapart(r.present.reader.stream, %s)' % sub(KIND[k][4], f)]
        if k == 'byte':
            p.append('r.present.reader != %s' % f)
        if k == 'bool':
            p.append('r.present != %s && r.present.reader != %s.reader' % (f, f))
        o.append('(r.present != nil ==> %s)' % ' && '.join(p))
    return o


def left(f, k):
    return sub(KIND[k][2], f)


for c in COLS:
    T = c.typ
    n = T
    pieces = any(k == 'contents' for _, k in c.fields)
    shape = ['r != nil', '(r.present != nil ==> boshape(r.present))']
    if c.extra and c.typ == 'DateV2Reader':
        shape.append(c.extra)
    for f, k in c.fields:
        shape.append('%s != nil' % f)
        shape.append(sub(KIND[k][0], f))
    shape += distinct(c)
    if c.extra and c.typ != 'DateV2Reader':
        shape.append(c.extra)
    good = [sub(KIND[k][1], f) for f, k in c.fields] + ['(r.present != nil ==> bgood(r.present.reader))']
    w('// ---- %s' % T)
    w('fn shape_%s(r *%s) bool = %s' % (n, T, ' && '.join(shape)))
    w('fn good_%s(r *%s) bool = %s' % (n, T, ' && '.join(good)))
    w('locs st_%s(r *%s) = bst(r.present) when r.present != nil, %s' % (n, T, ', '.join(sub(KIND[k][3], f) for f, k in c.fields)))
    w('')
    U = left(*c.fields[0]) if pieces else ''
    C = left(*c.fields[1]) if pieces else ''

    def val(x, j, old=True):
        s = c.value
        o = (lambda e: 'old(%s)' % e)
        for i, (f, k) in enumerate(c.fields):
            s = s.replace('$%d' % i, '%s[%s]' % (o(left(f, k)), j))
        if pieces:
            s = s.replace('$C', o(C)).replace('$U', o(U)).replace('$j', j)
        return s.replace('$x', x)

    def leftafter(cnt):
        """what is left after cnt values"""
        o = []
        if pieces:
            o.append('%s == old(%s)[%s:]' % (U, U, cnt))
            o.append('usum(old(%s)[:%s]) <= len(old(%s)) && %s == old(%s)[usum(old(%s)[:%s]):]' % (U, cnt, C, C, C, U, cnt))
        else:
            for f, k in c.fields:
                o.append('%s == old(%s)[%s:]' % (left(f, k), left(f, k), cnt))
        return ' && '.join(o)

    def enough(cnt):
        if pieces:
            return 'len(old(%s)) >= %s' % (U, cnt)
        return ' && '.join('len(old(%s)) >= %s' % (left(f, k), cnt) for f, k in c.fields)

    def supply(cnt):
        return enough(cnt) + (' && usum(old(%s)[:%s]) <= len(old(%s))' % (U, cnt, C) if pieces else '')

    F = 'boleft(r.present)'
    N = 'len(vec.Vector)'
    w('func (r *%s) NextBatch(vec)' % T)
    w('  property C10')
    w('  nocands')
    if c.dispatch:
        w('  dispatch ' + c.dispatch)
    w('  requires shape_%s(r) && vec != nil' % n)
    if pieces:
        w('  requires small(%s)' % U)
    w('  modifies vec.Vector, st_%s(r)' % n)
    w('  ensures state: shape_%s(r) && (err == nil && old(good_%s(r)) ==> good_%s(r))' % (n, n, n))
    w('  ensures size: %s == len(old(vec.Vector))' % N)
    w('  ensures flags: err == nil && r.present != nil ==> len(old(%s)) >= %s && forall k int {vec.Vector[k]} :: 0 <= k < %s ==> vec.Vector[k].Null == !old(%s)[k]' % (F, N, N, F))
    w('  ensures preset: err == nil && r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < %s ==> vec.Vector[k].Null == old(vec.Vector)[k].Null' % N)
    w('  ensures values: err == nil ==> %s && forall k int {vec.Vector[k]} :: 0 <= k < %s && !vec.Vector[k].Null ==> %s' % (enough('vcount(vec.Vector)'), N, val('vec.Vector[k].V', 'vcount(vec.Vector[:k])')))
    w('  ensures left: err == nil ==> (r.present != nil ==> %s == old(%s)[%s:]) && %s' % (F, F, N, leftafter('vcount(vec.Vector)')))
    w('  ensures complete: old(good_%s(r)) && r.present != nil && len(old(%s)) >= %s && (let c = tcount(old(%s)[:%s]) in %s) ==> err == nil' % (n, F, N, F, N, supply('c')))
    w('  ensures complete2: old(good_%s(r)) && r.present == nil && (let c = vcount(old(vec.Vector)) in %s) ==> err == nil' % (n, supply('c')))
    w('  loop 1')
    w('    invariant shape_%s(r) && 0 <= i <= %s && %s == len(old(vec.Vector)) && (old(good_%s(r)) ==> good_%s(r))' % (n, N, N, n, n))
    w('    invariant r.present != nil ==> len(old(%s)) >= i && %s == old(%s)[i:]' % (F, F, F))
    w('    invariant r.present != nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == !old(%s)[k]' % F)
    w('    invariant forall k int {vec.Vector[k]} :: i <= k < %s ==> vec.Vector[k] == old(vec.Vector)[k]' % N)
    w('    invariant r.present == nil ==> forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k].Null == old(vec.Vector)[k].Null')
    w('    invariant r.present != nil ==> vcount(vec.Vector[:i]) == tcount(old(%s)[:i])' % F)
    w('    invariant r.present == nil ==> vcount(vec.Vector[:i]) == vcount(old(vec.Vector)[:i])')
    w('    invariant %s && %s' % (enough('vcount(vec.Vector[:i])'), leftafter('vcount(vec.Vector[:i])')))
    w('    invariant forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> %s' % val('vec.Vector[k].V', 'vcount(vec.Vector[:k])'))
    if T in ('FloatReader', 'BinaryV2Reader'):
        w('    invariant err == nil')
    w('  var W []api.Value = empty([]api.Value)')
    w('  var c int = 0')
    w('''  at loopbegin 1 {
    W = vec.Vector[:i]
    c = vcount(W)
    assert forall k int {W[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert forall k int {W[k]} :: 0 <= k < i && !W[k].Null ==> %s
    vcount_snoc(old(vec.Vector), i)
    vcount_mono(old(vec.Vector), i + 1, %s)
    assert old(vec.Vector)[:len(old(vec.Vector))] == old(vec.Vector)
    if r.present != nil && i < len(old(%s)) { tcount_snoc(old(%s), i)  if %s <= len(old(%s)) { tcount_mono(old(%s), i + 1, %s) } }''' % (val('W[k].V', 'vcount(W[:k])'), N, F, F, N, F, F, N))
    if pieces:
        w('    if c < len(old(%s)) {' % U)
        w('      usum_snoc(old(%s), c)' % U)
        w('      if r.present != nil && %s <= len(old(%s)) && tcount(old(%s)[:%s]) <= len(old(%s)) && c + 1 <= tcount(old(%s)[:%s]) { usum_mono(old(%s), c + 1, tcount(old(%s)[:%s])) }' % (N, F, F, N, U, F, N, U, F, N))
        w('      if r.present == nil && vcount(old(vec.Vector)) <= len(old(%s)) && c + 1 <= vcount(old(vec.Vector)) { usum_mono(old(%s), c + 1, vcount(old(vec.Vector))) }' % (U, U))
        w('    }')
    w('  }')
    w('''  at loopend 1 {
    vcount_snoc(vec.Vector, i)
    assert vec.Vector[:i] == W
    assert vec.Vector[i].Null ==> %s
    assert !vec.Vector[i].Null ==> %s && %s
    assert forall k int {vec.Vector[k]} :: 0 <= k < i ==> vec.Vector[k] == W[k] && vec.Vector[:k] == W[:k]
    assert !vec.Vector[i].Null ==> %s
    assert forall k int {vec.Vector[k]} :: 0 <= k < i && !vec.Vector[k].Null ==> %s
  }''' % (leftafter('c'), enough('(c + 1)'), leftafter('(c + 1)'), val('vec.Vector[i].V', 'vcount(vec.Vector[:i])'), val('vec.Vector[k].V', 'vcount(vec.Vector[:k])')))
    w('')
    # ---- Skip
    cnt = '(r.present != nil ? tcount(old(%s)[:%%s]) : %%s)' % F
    w('func (r *%s) Skip(rows)' % T)
    w('  property C16')
    w('  nocands')
    if c.dispatch:
        w('  dispatch ' + c.dispatch)
    w('  requires shape_%s(r) && rows <= 4611686018427387904' % n)
    if pieces:
        w('  requires small(%s)' % U)
    w('  modifies st_%s(r)' % n)
    w('  ensures state: shape_%s(r) && (err == nil && old(good_%s(r)) ==> good_%s(r))' % (n, n, n))
    w('  ensures left: err == nil ==> (r.present != nil ==> len(old(%s)) >= rows && %s == old(%s)[rows:]) && (let c = %s in %s && %s)' % (F, F, F, cnt.replace('%s', 'rows'), enough('c'), leftafter('c')))
    w('  ensures complete: old(good_%s(r)) && (r.present != nil ==> len(old(%s)) >= rows) && (let c = %s in %s) ==> err == nil' % (n, F, cnt.replace('%s', 'rows'), supply('c')))
    w('  var c int = 0')
    w('  var p0 bool = r.present != nil')
    w('  loop 1')
    w('    invariant shape_%s(r) && 0 <= i <= rows && (old(good_%s(r)) ==> good_%s(r))' % (n, n, n))
    w('    invariant r.present != nil ==> len(old(%s)) >= i && %s == old(%s)[i:]' % (F, F, F))
    w('    invariant c == %s' % cnt.replace('%s', 'i'))
    w('    invariant %s && %s' % (enough('c'), leftafter('c')))
    w('    invariant r.present == nil ==> p')
    w('  at loopbegin 1 {')
    w('    if r.present != nil && i < len(old(%s)) { tcount_snoc(old(%s), i)  if rows <= len(old(%s)) { tcount_mono(old(%s), i + 1, rows) } }' % (F, F, F, F))
    if pieces:
        w('    if c < len(old(%s)) {' % U)
        w('      usum_snoc(old(%s), c)' % U)
        w('      if r.present != nil && rows <= len(old(%s)) && tcount(old(%s)[:rows]) <= len(old(%s)) && c + 1 <= tcount(old(%s)[:rows]) { usum_mono(old(%s), c + 1, tcount(old(%s)[:rows])) }' % (F, F, U, F, U, F))
        w('      if r.present == nil && rows <= len(old(%s)) { usum_mono(old(%s), c + 1, rows) }' % (U, U))
        w('    }')
    w('  }')
    w('  at loopend 1 {')
    w('    assert !p ==> %s' % leftafter('c'))
    if pieces:
        w('    assert p ==> %s == old(%s)[c+1:] && c < len(old(%s))' % (U, U, U))
        w('    if p { usum_snoc(old(%s), c)  assert %s == old(%s)[usum(old(%s)[:c]):][old(%s)[c]:]  assert %s == old(%s)[usum(old(%s)[:c+1]):] }' % (U, C, C, U, U, C, C, U))
    w('    c = c + (p ? 1 : 0)')
    w('    assert %s' % leftafter('c'))
    w('  }')
    w('')
open(os.path.join(HERE, '..', 'contracts', '27_colread.spec'), 'w').write('\n'.join(out))
