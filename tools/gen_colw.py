#!/usr/bin/env python3
"""Writes contracts/28_colwrite.spec: the contracts of the column writers, which differ in their streams and statistics."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
out = []
w = out.append
STATS = ['IntStatistics', 'DoubleStatistics', 'StringStatistics', 'BucketStatistics', 'DecimalStatistics', 'DateStatistics', 'BinaryStatistics', 'TimestampStatistics']

w('''// Column writers: present flags, values in their streams, statistics.  Written by tools/gen_colw.py.
package column

extern func (s *pb.StringStatistics) GetMinimum() pure
  ensures ret0 == (s == nil || s.Minimum == nil ? empty(string) : *s.Minimum)
extern func (s *pb.DecimalStatistics) GetMinimum() pure
  ensures ret0 == (s == nil || s.Minimum == nil ? empty(string) : *s.Minimum)
extern func (s *pb.DecimalStatistics) GetMaximum() pure
  ensures ret0 == (s == nil || s.Maximum == nil ? empty(string) : *s.Maximum)
extern func (s *pb.DecimalStatistics) GetSum() pure
  ensures ret0 == (s == nil || s.Sum == nil ? empty(string) : *s.Sum)
extern func (s *pb.DateStatistics) GetMinimum() pure
  ensures ret0 == (s == nil || s.Minimum == nil ? 0 : *s.Minimum)
extern func (s *pb.DateStatistics) GetMaximum() pure
  ensures ret0 == (s == nil || s.Maximum == nil ? 0 : *s.Maximum)
extern func (s *pb.TimestampStatistics) GetMinimum() pure
  ensures ret0 == (s == nil || s.Minimum == nil ? 0 : *s.Minimum)
extern func (s *pb.TimestampStatistics) GetMaximum() pure
  ensures ret0 == (s == nil || s.Maximum == nil ? 0 : *s.Maximum)
extern func (s *pb.TimestampStatistics) GetMinimumUtc() pure
  ensures ret0 == (s == nil || s.MinimumUtc == nil ? 0 : *s.MinimumUtc)
extern func (s *pb.TimestampStatistics) GetMaximumUtc() pure
  ensures ret0 == (s == nil || s.MaximumUtc == nil ? 0 : *s.MaximumUtc)
// seconds by which a location's clocks are ahead of UTC
fn ahead(u int, loc int) int opaque
extern func (t time.Time) Zone() pure
  ensures ret1 == ahead(unix(t), zone(t))
extern func strconv.ParseFloat(s, bits) pure
  ensures floattext(s) ==> err == nil
extern func (r *pb.RowIndex) Reset()
  modifies r.Entry
  ensures r.Entry == empty([]*pb.RowIndexEntry)

fn ws(s any) *stream.writer = as(s, *stream.writer)
// a stream being written, a finished one, one without values held back
fn wlive(s any) bool = is(s, *stream.writer) && ws(s) != nil && wok(ws(s)) && wsync(ws(s)) && encj(ws(s).encoder) && (ws(s).opts.WriteIndex ==> posok(ws(s).encoder))
fn wfinished(s any) bool = is(s, *stream.writer) && ws(s) != nil && wok(ws(s)) && wdone(ws(s)) && encdone(ws(s).encoder) && encclean(ws(s).encoder) && (ws(s).opts.WriteIndex ==> posok(ws(s).encoder))
fn wclean(s any) bool = is(s, *stream.writer) && ws(s) != nil && wok(ws(s)) && encclean(ws(s).encoder) && (ws(s).opts.WriteIndex ==> posok(ws(s).encoder))
fn wblank(s any) bool = wlive(s) && encnew(ws(s).encoder) && wout(ws(s)) == empty([]byte)
// bytes of a stream
fn sbytes(s any) []byte = wout(ws(s))
fn slength(s any) int = *ws(s).info.Length
// where a stream stands
fn wpos(s any) []uint64 = snoc(wnone(ws(s)) ? empty([]uint64) : one(len(ws(s).compressedBuf.content)), len(ws(s).buf.content)) ++ encpos(ws(s).encoder)
fn wboolenc(s any) bool = is(ws(s).encoder, *encoding.boolRunLength)
fn wintenc(s any, signed bool) bool = is(ws(s).encoder, *encoding.intRLV2Encoder) && as(ws(s).encoder, *encoding.intRLV2Encoder).signed == signed
fn wfloatenc(s any, is64 bool) bool = is64 ? is(ws(s).encoder, *encoding.double) : is(ws(s).encoder, *encoding.float)
fn wvarenc(s any, x bool) bool = is(ws(s).encoder, *encoding.varint64Encoder)
fn wcontenc(s any, x bool) bool = is(ws(s).encoder, *encoding.stringContents)
fn wbytes8(s any, x bool) bool = is(ws(s).encoder, *encoding.byteRunLength)
fn wbools(s any, x bool) bool = wboolenc(s)
// what writing, finishing and emptying a stream changes
locs wl(s stream.Writer) = encst(ws(s).encoder), ws(s).count, ws(s).buf.content, ws(s).compressedBuf.content when !wnone(ws(s))
locs wf(s stream.Writer) = encst(ws(s).encoder), ws(s).buf.content, ws(s).compressedBuf.content when !wnone(ws(s)), *ws(s).info.Length
locs wd(s stream.Writer) = ws(s).buf.content when wnone(ws(s)), ws(s).compressedBuf.content when !wnone(ws(s))
locs wr(s stream.Writer) = *ws(s).info.Length, ws(s).buf.content, ws(s).compressedBuf.content when ws(s).compressedBuf != nil, ws(s).positions, ws(s).encoder.emitted, ws(s).encoder.given, ws(s).encoder.givenb, ws(s).encoder.given8

// streams that share nothing
fn wapart(a *stream.writer, b *stream.writer) bool = a != b && a.buf != b.buf && a.buf != b.compressedBuf && b.buf != a.compressedBuf && (a.compressedBuf == nil || a.compressedBuf != b.compressedBuf) &&
  ref(a.encoder) != ref(b.encoder) && a.info != b.info && a.info.Length != b.info.Length &&
  (is(a.encoder, *encoding.boolRunLength) ==> ref(as(a.encoder, *encoding.boolRunLength).brl) != ref(b.encoder)) && (is(b.encoder, *encoding.boolRunLength) ==> ref(as(b.encoder, *encoding.boolRunLength).brl) != ref(a.encoder)) &&
  (is(a.encoder, *encoding.boolRunLength) && is(b.encoder, *encoding.boolRunLength) ==> as(a.encoder, *encoding.boolRunLength).brl != as(b.encoder, *encoding.boolRunLength).brl)

fn statsbase(s *pb.ColumnStatistics) bool = s != nil && s.NumberOfValues != nil && s.HasNull != nil
fn statsapart(s *pb.ColumnStatistics, t *pb.ColumnStatistics) bool = s != t && s.NumberOfValues != t.NumberOfValues && s.HasNull != t.HasNull && s.BytesOnDisk != t.NumberOfValues
fn base(w *writer) bool = w != nil && w.schema != nil && w.opts != nil && statsbase(w.stats) && w.stats.BytesOnDisk != nil && w.stats.BytesOnDisk != w.stats.NumberOfValues && *w.stats.HasNull == w.schema.HasNulls &&
  (w.schema.HasNulls ==> is(w.present, *stream.writer) && ws(w.present) != nil && wboolenc(w.present) && onto(w, w.present)) &&
  (w.opts.WriteIndex ==> w.index != nil && statsbase(w.indexStats) && statsapart(w.stats, w.indexStats))
// a stream of w
fn onto(w *writer, s any) bool = ws(s).opts == w.opts && ws(s).info != nil && ws(s).info.Length != nil && ws(s).info.Length != w.stats.NumberOfValues && ws(s).info.Length != w.stats.BytesOnDisk

// order of strings
fn strless(a string, b string) bool rec decreases len(a) = len(b) == 0 ? false : len(a) == 0 ? true : a[0] != b[0] ? a[0] < b[0] : strless(a[1:], b[1:])
lemma strless_irrefl(a string)
  property C11
  decreases len(a)
  trigger {strless(a, a)}
  ensures !strless(a, a)
  reveal strless
{ if len(a) > 0 { strless_irrefl(a[1:]) } }
lemma strless_asym(a string, b string)
  property C11
  decreases len(a)
  trigger {strless(a, b)}
  requires strless(a, b)
  ensures !strless(b, a)
  reveal strless
{ if len(a) > 0 && len(b) > 0 { if a[0] == b[0] { strless_asym(a[1:], b[1:]) } } }
// a string that is not below one that is not below another is not below the other
lemma strless_trans(a string, b string, c string)
  property C11
  decreases len(a)
  requires !strless(b, a) && !strless(c, b)
  ensures !strless(c, a)
  reveal strless
{ if len(a) > 0 && len(b) > 0 && len(c) > 0 { if a[0] == b[0] && b[0] == c[0] { strless_trans(a[1:], b[1:], c[1:]) } } }

// floats by their bits: numbers, and their order
fn fmag(b int) int = b < 9223372036854775808 ? b : b - 9223372036854775808
fn fnum(b int) bool = fmag(b) <= 9218868437227405312
fn fkey(b int) int = b < 9223372036854775808 ? b : 9223372036854775808 - b

// bounds of the n values before still bound them, and the value written
fn lower(n int, m0 int, m1 int, has bool, v int) bool = (n > 0 ==> m1 <= m0) && (has ==> m1 <= v)
fn upper(n int, m0 int, m1 int, has bool, v int) bool = (n > 0 ==> m1 >= m0) && (has ==> m1 >= v)
fn flower(n int, m0 int, m1 int, has bool, v int) bool = fnum(m0) ==> fnum(m1) && lower(n, fkey(m0), fkey(m1), has && fnum(v), fkey(v))
fn fupper(n int, m0 int, m1 int, has bool, v int) bool = fnum(m0) ==> fnum(m1) && upper(n, fkey(m0), fkey(m1), has && fnum(v), fkey(v))
fn slower(n int, m0 string, m1 string, has bool, v string) bool = (n > 0 ==> !strless(m0, m1)) && (has ==> !strless(v, m1))
fn supper(n int, m0 string, m1 string, has bool, v string) bool = (n > 0 ==> !strless(m1, m0)) && (has ==> !strless(m1, v))

// the bounds after a history of rows bound each of its values
lemma lower_all(has []bool, vs []int64, ms []int64, k int)
  property C11
  decreases len(vs) - k
  requires len(has) == len(vs) && len(ms) == len(vs) + 1 && 0 <= k < len(vs) && has[k]
  requires forall i int {ms[i]} {vs[i]} {has[:i]} :: 0 <= i < len(vs) ==> lower(tcount(has[:i]), ms[i], ms[i + 1], has[i], vs[i])
  ensures ms[len(vs)] <= vs[k]
{ tcount_snoc(has, k)  lower_mono(has, vs, ms, k + 1)  assert lower(tcount(has[:k]), ms[k], ms[k + 1], has[k], vs[k]) }
lemma upper_all(has []bool, vs []int64, ms []int64, k int)
  property C11
  decreases len(vs) - k
  requires len(has) == len(vs) && len(ms) == len(vs) + 1 && 0 <= k < len(vs) && has[k]
  requires forall i int {ms[i]} {vs[i]} {has[:i]} :: 0 <= i < len(vs) ==> upper(tcount(has[:i]), ms[i], ms[i + 1], has[i], vs[i])
  ensures ms[len(vs)] >= vs[k]
{ tcount_snoc(has, k)  upper_mono(has, vs, ms, k + 1)  assert upper(tcount(has[:k]), ms[k], ms[k + 1], has[k], vs[k]) }
''')
# the mono lemmas must precede their use
i = out[0].index('// the bounds after a history')
mono = ''
for n, op in (('lower', '<='), ('upper', '>=')):
    mono += '''lemma %s_mono(has []bool, vs []int64, ms []int64, k int)
  property C11
  decreases len(vs) - k
  requires len(has) == len(vs) && len(ms) == len(vs) + 1 && 0 <= k <= len(vs) && tcount(has[:k]) > 0
  requires forall i int {ms[i]} {vs[i]} {has[:i]} :: 0 <= i < len(vs) ==> %s(tcount(has[:i]), ms[i], ms[i + 1], has[i], vs[i])
  ensures ms[len(vs)] %s ms[k]
{ if k < len(vs) { tcount_snoc(has, k)  %s_mono(has, vs, ms, k + 1)  assert %s(tcount(has[:k]), ms[k], ms[k + 1], has[k], vs[k]) } }
''' % (n, n, op, n, n)
out[0] = out[0][:i] + mono + out[0][i:]


class K:
    """statistics of a kind: field of ColumnStatistics, cells (pointers), more about its shape"""
    def __init__(self, field, cells):
        self.field, self.cells = field, cells


KINDS = {
    'int': K('IntStatistics', ['Sum', 'Minimum', 'Maximum']),
    'count': K('BinaryStatistics', ['Sum']),
    'date': K('DateStatistics', ['Minimum', 'Maximum']),
    'double': K('DoubleStatistics', ['Sum', 'Minimum', 'Maximum']),
    'ts': K('TimestampStatistics', ['Minimum', 'Maximum', 'MinimumUtc', 'MaximumUtc']),
    'decimal': K('DecimalStatistics', ['Minimum', 'Maximum', 'Sum']),
    'bucket': K('BucketStatistics', []),
    'string': K('StringStatistics', ['Sum']),
}
w('fn smin(s *pb.StringStatistics) *string = s.LowerBound != nil ? s.LowerBound : s.Minimum')
w('fn smax(s *pb.StringStatistics) *string = s.LowerBound != nil ? s.UpperBound : s.Maximum')
for n, k in KINDS.items():
    s = ['s.%s != nil' % k.field] + ['s.%s == nil' % f for f in STATS if f != k.field] + ['s.%s.%s != nil' % (k.field, c) for c in k.cells]
    for i, c in enumerate(k.cells):
        for d in k.cells[i + 1:]:
            s.append('s.%s.%s != s.%s.%s' % (k.field, c, k.field, d))
    if n == 'bucket':
        s.append('len(s.BucketStatistics.Count) == 1')
    if n == 'string':
        s.append('smin(s.StringStatistics) != nil && smax(s.StringStatistics) != nil && smin(s.StringStatistics) != smax(s.StringStatistics)')
    if n == 'decimal':
        s.append('(len(*s.DecimalStatistics.Sum) == 0 || floattext(*s.DecimalStatistics.Sum))')
    w('fn has_%s(s *pb.ColumnStatistics) bool = %s' % (n, ' && '.join(s)))
    a = ['s.%s != t.%s' % (k.field, k.field)]
    for c in k.cells:
        for d in k.cells:
            a.append('s.%s.%s != t.%s.%s' % (k.field, c, k.field, d))
    if n == 'string':
        for f in ('smin', 'smax'):
            for g in ('smin', 'smax'):
                a.append('%s(s.StringStatistics) != %s(t.StringStatistics)' % (f, g))
    w('fn apart_%s(s *pb.ColumnStatistics, t *pb.ColumnStatistics) bool = %s' % (n, ' && '.join(a)))
w('')


class Col:
    def __init__(self, typ, ctor, kind, streams, typed, gives, stats, let='', extra='', field='', recv={}, pre=''):
        self.__dict__.update(locals())


def bounds(pre, f, lo='Minimum', hi='Maximum', tag='', v='$v'):
    return ['min%s: %slower(old(*w.writer.stats.NumberOfValues), old(%s), %s, !value.Null, %s)' % (tag, pre, f % lo, f % lo, v),
            'max%s: %supper(old(*w.writer.stats.NumberOfValues), old(%s), %s, !value.Null, %s)' % (tag, pre, f % hi, f % hi, v)]


I64 = '0 - 9223372036854775808 <= %s <= 9223372036854775807'
TS = 'as(value.V, api.Timestamp)'
LOC = '(%s.Loc == nil ? ref(time.UTC) : ref(%s.Loc))' % (TS, TS)
SECS = 'i64(epoch(%s) + %s.Seconds)' % (LOC, TS)
MS = 'i64(i64(%s * 1000) + %s.Nanos / 1000000)' % (SECS, TS)
MSU = 'i64(%s + i64(ahead(%s, %s) * 1000))' % (MS, SECS, LOC)
DEC = 'as(value.V, api.Decimal64)'
# streams: (field, encoder predicate, its argument); the order is that of the stripe
# gives: (stream field, ghost field, value appended)
COLS = [
    Col('intWriter', ('newIntV2Writer(schema, opts, bits)', 'bits == 16 || bits == 32 || bits == 64', 'as(ret0, *intWriter).bits == bits'), 'int', [('data', 'wintenc', 'true')],
        '(w.bits == 16 ? is(value.V, int16) : w.bits == 32 ? is(value.V, int32) : w.bits == 64 && is(value.V, int64)) && ' + I64 % '$v',
        [('data', 'given', 'zz($v)')],
        ['sum: *$s.Sum == (value.Null ? old(*$s.Sum) : i64(old(*$s.Sum) + $v))'] + bounds('', '*$s.%s'),
        let='(w.bits == 16 ? as(value.V, int16) : w.bits == 32 ? as(value.V, int32) : as(value.V, int64))', extra='(bits == 16 || bits == 32 || bits == 64)', field='bits int',
        recv={'Flush': '', 'GetStreamInfos': '', 'Size': ''}),
    Col('byteWriter', ('newByteWriter(schema, opts)', '', ''), 'count', [('data', 'wbytes8', 'true')], 'is(value.V, byte)', [('data', 'given8', 'as(value.V, byte)')],
        ['sum: *$s.Sum == (value.Null ? old(*$s.Sum) : i64(old(*$s.Sum) + 1))']),
    Col('boolWriter', ('newBoolWriter(schema, opts)', '', ''), 'bucket', [('data', 'wbools', 'true')], 'is(value.V, bool)', [('data', 'givenb', 'as(value.V, bool)')],
        ['sum: len($s.Count) == 1 && $s.Count[0] == (!value.Null && as(value.V, bool) ? u64(old($s.Count)[0] + 1) : old($s.Count)[0])']),
    Col('floatWriter', ('newFloatWriter(schema, opts, is64)', '', 'as(ret0, *floatWriter).is64 == is64'), 'double', [('data', 'wfloatenc', 'is64')], '(w.is64 ? is(value.V, float64) : is(value.V, float32))', [('data', 'given', '(w.is64 ? bits(as(value.V, float64)) : bits(as(value.V, float32)))')],
        bounds('f', 'bits(*$s.%s)'), let='(w.is64 ? bits(as(value.V, float64)) : widen(as(value.V, float32)))', field='is64 bool'),
    Col('dateV2Writer', ('NewDateV2Writer(schema, opts)', '', ''), 'date', [('data', 'wintenc', 'true')], 'is(value.V, api.Date)', [('data', 'given', 'zz($v)')],
        bounds('', '*$s.%s'), let='i32(floordiv(unix(as(value.V, api.Date)), 86400))'),
    Col('timestampWriter', ('NewTimestampV2Writer(schema, opts)', '', ''), 'ts', [('data', 'wintenc', 'true'), ('secondary', 'wintenc', 'false')], 'is(value.V, api.Timestamp) && %s.Nanos <= 999999999 && %s' % (TS, I64 % (TS + '.Seconds')),
        [('data', 'given', 'zz(%s.Seconds)' % TS), ('secondary', 'given', None)],
        bounds('', '*$s.%s', v=MS) + bounds('', '*$s.%s', 'MinimumUtc', 'MaximumUtc', 'utc', MSU)),
    Col('decimalV2Writer', ('NewDecimal64V2Writer(schema, opts)', '', ''), 'decimal', [('data', 'wvarenc', 'true'), ('secondary', 'wintenc', 'true')], 'is(value.V, api.Decimal64) && %s' % (I64 % (DEC + '.Precision')),
        [('data', 'given', 'zz(%s.Precision)' % DEC), ('secondary', 'given', 'zz(%s.Scale)' % DEC)], [], recv={'Reset': ''}),
    Col('binaryV2Writer', ('NewBinaryV2Writer(schema, opts)', '', ''), 'count', [('data', 'wcontenc', 'true'), ('length', 'wintenc', 'false')], 'is(value.V, []byte)',
        [('data', 'emitted', 'as(value.V, []byte)'), ('length', 'given', 'len(as(value.V, []byte))')],
        ['sum: *$s.Sum == (value.Null ? old(*$s.Sum) : i64(old(*$s.Sum) + len(as(value.V, []byte))))']),
    Col('stringDirectV2Writer', ('newStringDirectV2Writer(schema, opts)', '', ''), 'string', [('data', 'wcontenc', 'true'), ('length', 'wintenc', 'false')], 'is(value.V, string)',
        [('data', 'emitted', 'as(value.V, string)'), ('length', 'given', 'len(as(value.V, string))')],
        ['sum: *$s.Sum == (value.Null ? old(*$s.Sum) : i64(old(*$s.Sum) + len(as(value.V, string))))'] +
        ['min: slower(old(*w.writer.stats.NumberOfValues), old(*smin($s)), *smin($s), !value.Null, as(value.V, string))',
         'max: supper(old(*w.writer.stats.NumberOfValues), old(*smax($s)), *smax($s), !value.Null, as(value.V, string))']),
]


def rc(c, m):
    return 'w %s%s' % (c.recv.get(m, '*'), c.typ)


for c in COLS:
    T = c.typ
    k = KINDS[c.kind]
    S = [f for f, _, _ in c.streams]
    pars = ', '.join(['b *writer'] + ['%s stream.Writer' % f for f in S] + ([c.field] if c.field else []))
    args = ', '.join(['w.writer'] + ['w.%s' % f for f in S] + (['w.' + c.field.split()[0]] if c.field else []))
    s = ['base(b)', 'has_%s(b.stats)' % c.kind]
    s.append('(b.opts.WriteIndex ==> has_%s(b.indexStats) && apart_%s(b.stats, b.indexStats))' % (c.kind, c.kind))
    for f, e, a in c.streams:
        s.append('is(%s, *stream.writer) && ws(%s) != nil && %s(%s, %s) && onto(b, %s)' % (f, f, e, f, a, f))
        s.append('(b.schema.HasNulls ==> wapart(ws(b.present), ws(%s)))' % f)
    for i, f in enumerate(S):
        for g in S[i + 1:]:
            s.append('wapart(ws(%s), ws(%s))' % (f, g))
    if c.extra:
        s.append(c.extra)
    w('// ---- %s' % T)
    w('fn wshape_%s(%s) bool = %s' % (T, pars, ' && '.join(s)))
    for n, p in (('wopen', 'wlive'), ('wclosed', 'wfinished'), ('wreset', 'wclean'), ('wnew', 'wblank')):
        w('fn %s_%s(%s) bool = (b.schema.HasNulls ==> %s(b.present)) && %s' % (n, T, pars, p, ' && '.join('%s(%s)' % (p, f) for f in S)))
    shape, opened, closed, reset, new = ['%s_%s(%s)' % (n, T, args) for n in ('wshape', 'wopen', 'wclosed', 'wreset', 'wnew')]
    HN = 'w.writer.schema.HasNulls'

    def locs(n):
        return '%s(w.writer.present) when %s, %s' % (n, HN, ', '.join('%s(w.%s)' % (n, f) for f in S))

    def each(e, sep=' && '):
        return sep.join(e.replace('$', 'w.' + f) for f in S)

    def cells(s):
        r = ['*%s.%s.%s' % (s, k.field, x) for x in k.cells] + ['*%s.NumberOfValues' % s]
        if c.kind == 'bucket':
            r.append('%s.BucketStatistics.Count' % s)
        return r
    st = cells('w.writer.stats')
    ix = [x + ' when w.writer.opts.WriteIndex' for x in cells('w.writer.indexStats')]
    if c.kind == 'string':
        for q, o in (('w.writer.stats.StringStatistics', []), ('w.writer.indexStats.StringStatistics', ['w.writer.opts.WriteIndex'])):
            for x, cond in (('*$.Minimum', '$.LowerBound == nil'), ('*$.Maximum', '$.LowerBound == nil'), ('*$.LowerBound', '$.LowerBound != nil'), ('*$.UpperBound', '$.LowerBound != nil'),
                            ('$.Minimum', ''), ('$.Maximum', ''), ('$.LowerBound', ''), ('$.UpperBound', '')):
                cs = ' && '.join(o + ([cond] if cond else []))
                (ix if o else st).append((x + (' when ' + cs if cs else '')).replace('$', q))
    sub = lambda e: e.replace('$v', c.let).replace('$s', 'w.writer.stats.' + k.field)
    # ---- constructor
    sig, req, ens = c.ctor
    w('func %s' % sig)
    w('  property C10, C11')
    w('  nocands')
    w('  requires schema != nil && optsok(opts)')
    if req:
        w('  requires ' + req)
    R = 'as(ret0, *%s)' % T
    w('  ensures made: is(ret0, *%s) && %s != nil && %s.writer != nil && %s.writer.schema == schema && %s.writer.opts == opts' % (T, R, R, R, R))
    w('  ensures state: let w = %s in %s && %s' % (R, shape, new))
    if ens:
        w('  ensures kind: ' + ens)
    w('  ensures C11none: *%s.writer.stats.NumberOfValues == 0 && *%s.writer.stats.BytesOnDisk == 0' % (R, R))
    w('')
    # ---- Write
    w('func (%s) Write(value)' % rc(c, 'Write'))
    w('  property C10, C11, C16')
    w('  nocands')
    w('  dispatch stream.Writer as stream.writer')
    w('  requires %s && %s' % (shape, opened))
    w('  requires typed: !value.Null ==> %s' % sub(c.typed))
    w('  modifies %s' % locs('wl'))
    w('  modifies %s' % ', '.join(st))
    w('  modifies %s, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex' % ', '.join(ix))
    w('  ensures accepted: err == nil')
    w('  ensures state: %s && %s' % (shape, opened))
    w('  ensures flags: %s ==> ws(w.writer.present).encoder.givenb == snoc(old(ws(w.writer.present).encoder.givenb), !value.Null)' % HN)
    for f, g, v in c.gives:
        o = 'ws(w.%s).encoder.%s' % (f, g)
        if v is None:
            w('  ensures gives: value.Null ? %s == old(%s) : len(%s) == len(old(%s)) + 1 && %s[:len(old(%s))] == old(%s) && nanodec(%s[len(old(%s))]) == %s.Nanos' % (o, o, o, o, o, o, o, o, o, TS))
        elif g == 'emitted':
            w('  ensures gives: %s == (value.Null ? old(%s) : old(%s) ++ %s)' % (o, o, o, sub(v)))
        else:
            w('  ensures gives: %s == (value.Null ? old(%s) : snoc(old(%s), %s))' % (o, o, o, sub(v)))
    w('  ensures C11count: *w.writer.stats.NumberOfValues == (value.Null ? old(*w.writer.stats.NumberOfValues) : u64(old(*w.writer.stats.NumberOfValues) + 1))')
    w('  ensures C11null: *w.writer.stats.HasNull == w.writer.schema.HasNulls')
    for x in c.stats:
        w('  ensures C11' + sub(x))
    rot = 'i64(old(w.writer.indexInRows) + 1) >= w.writer.opts.IndexStride'
    w('  ensures C16rows: w.writer.opts.WriteIndex ==> w.writer.indexInRows == (%s ? 0 : i64(old(w.writer.indexInRows) + 1))' % rot)
    w('  ensures C16none: w.writer.opts.WriteIndex && !(%s) ==> w.writer.index.Entry == old(w.writer.index.Entry)' % rot)
    w('  ensures C16entry: w.writer.opts.WriteIndex && %s ==> len(w.writer.index.Entry) == len(old(w.writer.index.Entry)) + 1 && w.writer.index.Entry[:len(old(w.writer.index.Entry))] == old(w.writer.index.Entry)' % rot)
    p = '(%s ? wpos(w.writer.present) : empty([]uint64)) ++ %s' % (HN, each('wpos($)', ' ++ '))
    w('  ensures C16position: w.writer.opts.WriteIndex && %s ==> w.writer.index.Entry[len(old(w.writer.index.Entry))].Positions == %s' % (rot, p))
    w('')
    # ---- Flush
    w('func (%s) Flush()' % rc(c, 'Flush'))
    w('  property C10, C11, C13')
    w('  nocands')
    w('  dispatch stream.Writer as stream.writer')
    w('  requires %s && %s' % (shape, opened))
    w('  modifies %s, *w.writer.stats.BytesOnDisk, w.writer.flushed' % locs('wf'))
    w('  ensures accepted: err == nil')
    w('  ensures state: %s && %s && w.writer.flushed' % (shape, closed))
    w('  ensures flags: %s ==> ws(w.writer.present).encoder.givenb == old(ws(w.writer.present).encoder.givenb)' % HN)
    for f, g, v in c.gives:
        o = 'ws(w.%s).encoder.%s' % (f, g)
        w('  ensures gives: %s == old(%s)' % (o, o))
    w('  ensures length: (%s ==> slength(w.writer.present) == len(sbytes(w.writer.present))) && %s' % (HN, each('slength($) == len(sbytes($))')))
    t = '(%s ? slength(w.writer.present) : 0) + %s' % (HN, each('slength($)', ' + '))
    w('  ensures C11disk: let n = old(*w.writer.stats.BytesOnDisk) + %s in n <= 18446744073709551615 ==> *w.writer.stats.BytesOnDisk == n' % t)
    w('')
    # ---- WriteOut
    w('func (%s) WriteOut(out)' % rc(c, 'WriteOut'))
    w('  property C10, C13')
    w('  nocands')
    w('  dispatch stream.Writer as stream.writer')
    w('  requires %s && %s && w.writer.flushed' % (shape, closed))
    for f in ['writer.present'] + S:
        g = '%s ==> ' % HN if f == 'writer.present' else ''
        w('  requires out != nil && (%sref(out) != ws(w.%s).buf && ref(out) != ws(w.%s).compressedBuf)' % (g, f, f))
    w('  modifies out.content, %s' % locs('wd'))
    w('  ensures state: err == nil ==> %s && %s' % (shape, reset))
    w('  ensures exact: err == nil ==> out.content == old(out.content) ++ (%s ? old(sbytes(w.writer.present)) : empty([]byte)) ++ %s' % (HN, each('old(sbytes($))', ' ++ ')))
    w('  ensures total: err == nil ==> ret0 == (%s ? len(old(sbytes(w.writer.present))) : 0) + %s' % (HN, each('len(old(sbytes($)))', ' + ')))
    w('')
    # ---- GetStreamInfos
    w('func (%s) GetStreamInfos()' % rc(c, 'GetStreamInfos'))
    w('  property C10, C13')
    w('  nocands')
    w('  dispatch stream.Writer as stream.writer')
    w('  requires %s' % shape)
    inf = 'empty([]*pb.Stream)'
    for f in S:
        inf = 'snoc(%s, ws(w.%s).info)' % (inf, f)
    infp = 'snoc(empty([]*pb.Stream), ws(w.writer.present).info)'
    for f in S:
        infp = 'snoc(%s, ws(w.%s).info)' % (infp, f)
    w('  ensures order: ret0 == (%s ? %s : %s)' % (HN, infp, inf))
    w('')
    # ---- Reset
    w('func (%s) Reset()' % rc(c, 'Reset'))
    w('  property C10, C11')
    w('  nocands')
    w('  dispatch stream.Writer as stream.writer')
    w('  requires %s && %s' % (shape, reset))
    w('  modifies %s, w.writer.flushed, w.writer.indexInRows when w.writer.opts.WriteIndex, w.writer.indexStats when w.writer.opts.WriteIndex, w.writer.index.Entry when w.writer.opts.WriteIndex' % locs('wr'))
    w('  ensures state: %s && %s' % (shape, new))
    w('  ensures C16restart: w.writer.opts.WriteIndex ==> w.writer.indexInRows == 0 && w.writer.index.Entry == empty([]*pb.RowIndexEntry)')
    w('')
open(os.path.join(HERE, '..', 'contracts', '28_colwrite.spec'), 'w').write('\n'.join(out))
