// Compression chunks.  deflate is abstract: inflate(Z) is what the inflater makes of Z, okz(Z) holds
// when Z starts with a complete deflate stream.
package common

fn inflate(Z []byte) []byte opaque
fn okz(Z []byte) bool opaque

// A compressor: where it writes to, whether its stream is open; content is what was written to it.
// It is taken to write to its sink when closed: nobody looks at the sink between Write and Close.
ghost field sink int
ghost field opened bool

extern func bytes.NewBuffer(b)
  ensures ret0 != nil && fresh(ret0) && ret0.content == b
extern func (b *bytes.Buffer) WriteTo(w)
  requires w != nil && ref(w) != b
  modifies b.content, w.content
  ensures is(w, *bytes.Buffer) ==> err == nil
  ensures is(w, *kflate.Writer) && w.opened ==> err == nil
  ensures err == nil ==> w.content == old(w.content) ++ old(b.content) && b.content == empty([]byte) && ret0 == len(old(b.content))

extern func kflate.NewWriter(w, level)
  ensures fresh(ret0) && ret0 != nil
  ensures level == 0 - 1 ==> err == nil
  ensures ret0.sink == ref(w) && ret0.opened && ret0.content == empty([]byte)
extern func (c *kflate.Writer) Reset(w)
  modifies c.sink, c.opened, c.content
  ensures c.sink == ref(w) && c.opened && c.content == empty([]byte)
extern func (c *kflate.Writer) Write(p)
  modifies c.content
  ensures old(c.opened) ==> err == nil
  ensures err == nil ==> ret0 == len(p) && c.content == old(c.content) ++ p
extern func (c *kflate.Writer) Close()
  modifies c.opened, c.sink.content
  ensures old(c.opened) ==> err == nil
  ensures !c.opened
  ensures c.sink.content == old(c.sink.content) ++ c.sink.content[len(old(c.sink.content)):]
  ensures old(c.opened) ==> okz(c.sink.content[len(old(c.sink.content)):]) && inflate(c.sink.content[len(old(c.sink.content)):]) == c.content

extern func kflate.NewReader(r)
  modifies r.content
  ensures ret0 != nil && fresh(ret0) && (okz(old(r.content)) ==> healthy(ret0) && ret0.content == inflate(old(r.content)))
  ensures !okz(old(r.content)) ==> !healthy(ret0)
extern func (r io.Closer) Close()
  ensures healthy(r) ==> err == nil

extern func io.CopyN(dst, src, n)
  requires n >= 0
  modifies dst.content, src.content
  ensures err == nil ==> len(old(src.content)) >= n && dst.content == old(dst.content) ++ old(src.content)[:n] && src.content == old(src.content)[n:]
  ensures is(dst, *bytes.Buffer) && (is(src, *bytes.Buffer) || healthy(src)) && len(old(src.content)) >= n ==> err == nil
  ensures is(src, *bytes.Buffer) ==> len(src.content) <= len(old(src.content))
extern func io.Copy(dst, src)
  modifies dst.content, src.content
  ensures healthy(src) && is(dst, *bytes.Buffer) ==> err == nil
  ensures err == nil ==> healthy(src) && dst.content == old(dst.content) ++ old(src.content)
extern func (b *bytes.Buffer) ReadFrom(r)
  modifies b.content, r.content
  ensures healthy(r) ==> err == nil
  ensures err == nil ==> healthy(r) && b.content == old(b.content) ++ old(r.content) && ret0 == len(old(r.content))

// ---- the format: header of three bytes, little endian, length * 2 + original
fn hdr(E []byte) int = E[0] + E[1] * 256 + E[2] * 65536
fn chlen(E []byte) int = hdr(E) / 2
fn chorig(E []byte) bool = hdr(E) % 2 == 1
fn chin(E []byte) bool = len(E) >= 3 && 3 + chlen(E) <= len(E)
fn chraw(E []byte) []byte = chorig(E) ? E[3:3+chlen(E)] : inflate(E[3:3+chlen(E)])
fn chok(E []byte) bool = chin(E) && (chorig(E) || okz(E[3:3+chlen(E)]))
// a chunk as the writer has to produce it, cs the configured chunk size
fn chfit(E []byte, cs int) bool = chok(E) && len(chraw(E)) <= cs && chlen(E) <= cs

fn chsok(E []byte) bool rec decreases len(E) = len(E) == 0 || (chok(E) && chsok(E[3+chlen(E):]))
fn chsfit(E []byte, cs int) bool rec decreases len(E) = len(E) == 0 || (chfit(E, cs) && chsfit(E[3+chlen(E):], cs))
fn chsraw(E []byte) []byte rec decreases len(E) = len(E) == 0 || !chok(E) ? empty([]byte) : chraw(E) ++ chsraw(E[3+chlen(E):])

// every chunk but the last is full, none is empty: what a stream is made of
fn chsfull(E []byte, cs int) bool rec decreases len(E) = len(E) == 0 || (chfit(E, cs) && 0 < len(chraw(E)) && (len(chraw(E)) == cs || 3 + chlen(E) == len(E)) && chsfull(E[3+chlen(E):], cs))
// every chunk is full
fn chsexact(E []byte, cs int) bool rec decreases len(E) = len(E) == 0 || (chfit(E, cs) && len(chraw(E)) == cs && chsexact(E[3+chlen(E):], cs))
// no chunk is empty or too large: what a reader takes
fn chsgood(E []byte, cs int) bool rec decreases len(E) = len(E) == 0 || (chfit(E, cs) && 0 < len(chraw(E)) && chsgood(E[3+chlen(E):], cs))

lemma chs_nil(cs int)
  property C06
  auto
  ensures chsok(empty([]byte)) && chsfit(empty([]byte), cs) && chsraw(empty([]byte)) == empty([]byte)
  ensures chsfull(empty([]byte), cs) && chsexact(empty([]byte), cs) && chsgood(empty([]byte), cs)
  reveal chsok, chsfit, chsraw, chsfull, chsexact, chsgood

lemma chs_one(E []byte, cs int)
  property C06
  requires chfit(E, cs)
  requires 3 + chlen(E) == len(E)
  ensures chsfit(E, cs) && chsraw(E) == chraw(E)
  ensures len(chraw(E)) == cs ==> chsexact(E, cs)
  ensures len(chraw(E)) > 0 ==> chsfull(E, cs)
  reveal chsfit, chsraw, chsexact, chsfull
{ chs_nil(cs) assert E[3+chlen(E):] == empty([]byte) assert chsfit(E[3+chlen(E):], cs)}

lemma chs_concat(A []byte, B []byte, cs int)
  property C06
  requires chsfit(A, cs)
  decreases len(A)
  ensures chsraw(A ++ B) == chsraw(A) ++ chsraw(B)
  ensures chsfit(A ++ B, cs) <==> chsfit(B, cs)
  reveal chsfit, chsraw
{
  if len(A) > 0 {
    chs_concat(A[3+chlen(A):], B, cs)
    assert (A ++ B)[3+chlen(A):] == A[3+chlen(A):] ++ B
    assert (A ++ B)[3:3+chlen(A)] == A[3:3+chlen(A)]
    assert hdr(A ++ B) == hdr(A)
    assert chraw(A ++ B) == chraw(A)
  }
}

lemma exact_fit(A []byte, cs int)
  property C06
  decreases len(A)
  requires chsexact(A, cs)
  ensures chsfit(A, cs)
  reveal chsexact, chsfit
{ if len(A) > 0 { exact_fit(A[3+chlen(A):], cs) } }

lemma full_good(A []byte, cs int)
  property C07
  decreases len(A)
  requires chsfull(A, cs)
  ensures chsgood(A, cs) && chsfit(A, cs)
  reveal chsfull, chsgood, chsfit
{ if len(A) > 0 { full_good(A[3+chlen(A):], cs) } }

lemma good_fit(A []byte, cs int)
  property C07
  decreases len(A)
  requires chsgood(A, cs)
  ensures chsfit(A, cs)
  reveal chsgood, chsfit
{ if len(A) > 0 { good_fit(A[3+chlen(A):], cs) } }

lemma exact_concat(A []byte, B []byte, cs int)
  property C06
  requires cs > 0 && chsexact(A, cs)
  decreases len(A)
  ensures chsexact(A ++ B, cs) <==> chsexact(B, cs)
  ensures chsfull(A ++ B, cs) <==> chsfull(B, cs)
  ensures chsraw(A ++ B) == chsraw(A) ++ chsraw(B)
  reveal chsexact, chsfull, chsraw
{
  if len(A) > 0 {
    exact_concat(A[3+chlen(A):], B, cs)
    assert (A ++ B)[3+chlen(A):] == A[3+chlen(A):] ++ B
    assert (A ++ B)[3:3+chlen(A)] == A[3:3+chlen(A)]
    assert hdr(A ++ B) == hdr(A)
    assert chraw(A ++ B) == chraw(A)
    assert chfit(A ++ B, cs)
  } else { assert A ++ B == B }
}

lemma exact_full(A []byte, cs int)
  property C07
  requires cs > 0 && chsexact(A, cs)
  decreases len(A)
  ensures chsfull(A, cs)
  reveal chsexact, chsfull
{ if len(A) > 0 { exact_full(A[3+chlen(A):], cs) } }

// a position inside the raw data of the chunks that follow lies in the first of them
lemma full_first(B []byte, cs int, o int)
  property C08
  requires chsfull(B, cs) && 0 <= o <= cs && o <= len(chsraw(B))
  ensures len(B) == 0 ==> o == 0
  ensures len(B) > 0 ==> o <= len(chraw(B)) && chsraw(B) == chraw(B) ++ chsraw(B[3+chlen(B):])
  reveal chsfull, chsraw
{
  if len(B) > 0 && 3 + chlen(B) == len(B) { assert B[3+chlen(B):] == empty([]byte)  chs_nil(cs) }
}

lemma chsfit_ok(E []byte, cs int)
  property C06
  requires chsfit(E, cs)
  decreases len(E)
  ensures chsok(E)
  reveal chsfit, chsok
{ if len(E) > 0 { chsfit_ok(E[3+chlen(E):], cs) } }

lemma chs_step(E []byte)
  property C06
  requires len(E) > 0
  ensures chsok(E) <==> chok(E) && chsok(E[3+chlen(E):])
  ensures chok(E) ==> chsraw(E) == chraw(E) ++ chsraw(E[3+chlen(E):])
  reveal chsok, chsraw

func encChunkHeader(l, orig)
  property C06
  requires 0 <= l <= 8388607
  ensures len(ret0) == 3 && chlen(ret0) == l && (chorig(ret0) <==> orig)

func DecChunkHeader(h)
  property C06, C15
  requires len(h) >= 3
  ensures ret0 == chlen(h) && (ret1 <==> chorig(h))
  ensures 0 <= ret0 <= 8388607

func CompressingChunks(kind, chunkSize, dst, src)
  property C06
  requires dst != nil && src != nil && dst != src && 0 < chunkSize <= 8388607
  modifies dst.content, src.content
  ensures accepted: kind == pb.CompressionKind_NONE || kind == pb.CompressionKind_ZLIB ==> err == nil
  ensures rejected: err == nil ==> kind == pb.CompressionKind_NONE || kind == pb.CompressionKind_ZLIB
  ensures none: kind == pb.CompressionKind_NONE ==> dst.content == old(dst.content) ++ old(src.content) && src.content == empty([]byte)
  ensures appended: kind == pb.CompressionKind_ZLIB ==> grew(old(dst.content), dst.content)
  ensures chunked: kind == pb.CompressionKind_ZLIB ==> chsfit(dst.content[len(old(dst.content)):], chunkSize)
  ensures exact: kind == pb.CompressionKind_ZLIB ==> chsexact(dst.content[len(old(dst.content)):], chunkSize)
  ensures lossless: kind == pb.CompressionKind_ZLIB ==> chsraw(dst.content[len(old(dst.content)):]) ++ src.content == old(src.content)
  ensures left: kind == pb.CompressionKind_ZLIB ==> len(src.content) <= chunkSize
  ensures some: kind == pb.CompressionKind_ZLIB && len(old(src.content)) > 0 ==> len(src.content) > 0

func CompressingLeft(kind, chunkSize, dst, src)
  property C06
  requires dst != nil && src != nil && dst != src && 0 < chunkSize <= 8388607
  modifies dst.content, src.content
  ensures accepted: kind == pb.CompressionKind_ZLIB && len(old(src.content)) <= chunkSize ==> err == nil
  ensures appended: err == nil ==> grew(old(dst.content), dst.content)
  ensures chunked: err == nil ==> chsfit(dst.content[len(old(dst.content)):], chunkSize)
  ensures full: err == nil && len(old(src.content)) > 0 ==> chsfull(dst.content[len(old(dst.content)):], chunkSize)
  ensures lossless: err == nil ==> chsraw(dst.content[len(old(dst.content)):]) == old(src.content)
  ensures drained: err == nil ==> src.content == empty([]byte)

func CompressingAllInChunks(kind, chunkSize, dst, src)
  property C06
  requires dst != nil && src != nil && dst != src && 0 < chunkSize <= 8388607
  modifies dst.content, src.content
  ensures accepted: kind == pb.CompressionKind_NONE || kind == pb.CompressionKind_ZLIB ==> err == nil
  ensures none: kind == pb.CompressionKind_NONE ==> dst.content == old(dst.content) ++ old(src.content)
  ensures appended: err == nil ==> grew(old(dst.content), dst.content)
  ensures chunked: kind == pb.CompressionKind_ZLIB ==> chsfit(dst.content[len(old(dst.content)):], chunkSize)
  ensures full: kind == pb.CompressionKind_ZLIB && len(old(src.content)) > 0 ==> chsfull(dst.content[len(old(dst.content)):], chunkSize)
  ensures lossless: kind == pb.CompressionKind_ZLIB ==> chsraw(dst.content[len(old(dst.content)):]) == old(src.content)
  ensures drained: err == nil ==> src.content == empty([]byte)
  var D1 []byte = empty([]byte)
  at after call CompressingChunks {
    D1 = dst.content
  }
  at after call CompressingLeft {
    if kind == pb.CompressionKind_ZLIB {
      assert dst.content == D1 ++ dst.content[len(D1):]
      assert D1 == old(dst.content) ++ D1[len(old(dst.content)):]
      assert dst.content[len(old(dst.content)):] == D1[len(old(dst.content)):] ++ dst.content[len(D1):]
      chs_concat(D1[len(old(dst.content)):], dst.content[len(D1):], chunkSize)
      exact_concat(D1[len(old(dst.content)):], dst.content[len(D1):], chunkSize)
      assert grew(old(dst.content), dst.content)
    }
  }

func zlibCompressingToChunks(chunkSize, dst, src)
  property C06
  requires dst != nil && src != nil && dst != src && 0 < chunkSize <= 8388607
  modifies dst.content, src.content
  ensures accepted: err == nil
  ensures appended: grew(old(dst.content), dst.content)
  ensures chunked: chsfit(dst.content[len(old(dst.content)):], chunkSize)
  ensures exact: chsexact(dst.content[len(old(dst.content)):], chunkSize)
  ensures some: len(old(src.content)) > 0 ==> len(src.content) > 0
  ensures lossless: chsraw(dst.content[len(old(dst.content)):]) ++ src.content == old(src.content)
  ensures left: len(src.content) <= chunkSize
  var E []byte = empty([]byte)
  var d0 []byte = empty([]byte)
  var s0 []byte = empty([]byte)
  loop 1
    invariant dst.content == old(dst.content) ++ E && chsfit(E, chunkSize) && chsexact(E, chunkSize)
    invariant len(old(src.content)) > 0 ==> len(src.content) > 0
    invariant chsraw(E) ++ src.content == old(src.content)
    invariant len(buf) == chunkSize
    decreases len(src.content)
  at loopbegin 1 { d0 = dst.content  s0 = src.content }
  at step 1 {
    var R = dst.content[len(d0):]
    assert dst.content == d0 ++ R
    assert chin(R) && 3 + chlen(R) == len(R)
    assert chraw(R) == s0[:chunkSize]
    assert chfit(R, chunkSize)
    chs_one(R, chunkSize)
    chs_concat(E, R, chunkSize)
    exact_concat(E, R, chunkSize)
    E = E ++ R
    assert dst.content == old(dst.content) ++ E
  }

func zlibCompressingLeft(chunkSize, dst, src)
  property C06
  requires dst != nil && src != nil && dst != src && 0 < chunkSize <= 8388607
  modifies dst.content, src.content
  ensures accepted: len(old(src.content)) <= chunkSize <==> err == nil
  ensures appended: grew(old(dst.content), dst.content)
  ensures chunked: err == nil ==> chsfit(dst.content[len(old(dst.content)):], chunkSize)
  ensures full: err == nil && len(old(src.content)) > 0 ==> chsfull(dst.content[len(old(dst.content)):], chunkSize)
  ensures lossless: err == nil ==> chsraw(dst.content[len(old(dst.content)):]) == old(src.content)
  ensures drained: err == nil ==> src.content == empty([]byte)
  at exit {
    if err == nil {
      var R = dst.content[len(old(dst.content)):]
      assert chin(R) && 3 + chlen(R) == len(R)
      assert chraw(R) == old(src.content)
      assert chfit(R, chunkSize)
      chs_one(R, chunkSize)
    }
  }

func DecompressChunks(kind, dst, src)
  property C06, C15
  requires dst != nil && src != nil && dst != src
  modifies dst.content, src.content
  ensures complete: kind == pb.CompressionKind_ZLIB && chsok(old(src.content)) ==> err == nil
  ensures inverse: err == nil ==> chsok(old(src.content)) && dst.content == old(dst.content) ++ chsraw(old(src.content)) && src.content == empty([]byte)
  var s0 []byte = empty([]byte)
  var d0 []byte = empty([]byte)
  loop 1
    invariant chsok(old(src.content)) <==> chsok(src.content)
    invariant err == nil
    invariant old(dst.content) ++ chsraw(old(src.content)) == dst.content ++ chsraw(src.content)
    decreases len(src.content)
  at loopbegin 1 { s0 = src.content  d0 = dst.content chs_step(s0) }
  at before call DecChunkHeader { assert hdr(s0) == hdr(header) }
  at before call NewReader { assert buf.content == s0[3:3+chlen(s0)] assert !chorig(s0) }
  at step 1 {
    assert chok(s0)
    assert src.content == s0[3+chlen(s0):]
    assert dst.content == d0 ++ chraw(s0)
  }

func Decompress(kind, dst, src)
  property C06, C15
  requires dst != nil && src != nil && dst != src
  modifies dst.content, src.content
  ensures complete: kind == pb.CompressionKind_ZLIB && okz(old(src.content)) ==> err == nil
  ensures inverse: err == nil ==> okz(old(src.content)) && dst.content == old(dst.content) ++ inflate(old(src.content))

// splitting and putting together again is the identity, whatever precedes or follows
lemma chunks_roundtrip(src []byte, E []byte, cs int)
  property C06
  requires chsfit(E, cs) && chsraw(E) == src
  ensures chsok(E) && chsraw(E) == src
{ chsfit_ok(E, cs) }
