// Stream readers.  content is what is left to read, good says that reading it succeeds.
package stream

// the bytes of a file; content is what follows the read position
ghost field data []byte

extern func (f io.Seeker) Seek(offset, whence)
  modifies f.content
  ensures whence == 0 && healthy(f) && 0 <= offset <= len(f.data) ==> err == nil
  ensures whence == 0 && err == nil ==> offset >= 0 && f.content == (offset <= len(f.data) ? f.data[offset:] : empty([]byte))
extern func (b *bytes.Buffer) Next(n)
  requires n >= 0
  modifies b.content
  ensures b.content == (n <= len(old(b.content)) ? old(b.content)[n:] : empty([]byte))
extern func (b *bytes.Buffer) Read(inout p)
  modifies b.content
  ensures len(p) == len(old(p)) && 0 <= ret0 <= len(p) && ret0 <= len(old(b.content))
  ensures len(old(b.content)) >= len(p) ==> ret0 == len(p) && err == nil
  ensures len(old(b.content)) < len(p) ==> ret0 == len(old(b.content)) && (err == nil <==> ret0 > 0)
  ensures p[:ret0] == old(b.content)[:ret0] && b.content == old(b.content)[ret0:]

fn slen(r *reader) int = r.info.Length == nil ? 0 : *r.info.Length
fn snone(r *reader) bool = r.opts.CompressionKind == pb.CompressionKind_NONE

// the chunks that start in the first n bytes of E
fn chsrd(E []byte, n int) []byte rec decreases n = n <= 0 || !chok(E) ? empty([]byte) : chraw(E) ++ chsrd(E[3+chlen(E):], n - 3 - chlen(E))
fn upto(E []byte, n int) []byte = n <= 0 ? empty([]byte) : n <= len(E) ? E[:n] : E
fn unread(r *reader) []byte = snone(r) ? upto(r.f.content, slen(r) - r.readLength) : chsrd(r.f.content, slen(r) - r.readLength)
fn rest(r *reader) []byte = r.buf.content ++ unread(r)

fn sshape(r *reader) bool = r != nil && r.info != nil && r.opts != nil && r.buf != nil && r.f != nil && 0 < r.opts.ChunkSize <= 4611686018427387904 && slen(r) <= 4611686018427387904 &&
  (!snone(r) ==> r.cmpBuf != nil && r.cmpBuf != r.buf && ref(r.cmpBuf) != ref(r) && ref(r.cmpBuf) != ref(r.f)) &&
  ref(r.buf) != ref(r) && ref(r.buf) != ref(r.f) && ref(r) != ref(r.f)
fn sgood(r *reader) bool = healthy(r.f) && r.readLength <= slen(r) && slen(r) - r.readLength <= len(r.f.content) &&
  (snone(r) || r.opts.CompressionKind == pb.CompressionKind_ZLIB && chsgood(r.f.content[:slen(r) - r.readLength], r.opts.ChunkSize))
fn srep(r *reader) bool = sshape(r) && r.content == rest(r) && (r.good ==> sgood(r))

group (r *stream.reader) content modifies r.readLength, r.buf.content, r.cmpBuf.content when !snone(r), r.f.content keeps srep(r)

lemma chsrd_raw(E []byte, n int, cs int)
  property C07
  decreases n
  requires 0 <= n <= len(E) && chsfit(E[:n], cs)
  ensures chsrd(E, n) == chsraw(E[:n])
  reveal chsrd, chsraw, chsfit
{
  if n > 0 {
    assert hdr(E[:n]) == hdr(E)
    assert chraw(E[:n]) == chraw(E)
    assert E[:n][3:3+chlen(E)] == E[3:3+chlen(E)]
    assert E[:n][3+chlen(E):] == E[3+chlen(E):][:n - 3 - chlen(E)]
    chsrd_raw(E[3+chlen(E):], n - 3 - chlen(E), cs)
  }
}

lemma good_first(E []byte, n int, cs int)
  property C07
  requires 0 < n <= len(E) && chsgood(E[:n], cs)
  ensures chok(E) && 0 < len(chraw(E)) <= cs && chlen(E) <= cs && 3 + chlen(E) <= n && chsgood(E[3+chlen(E):][:n - 3 - chlen(E)], cs)
  ensures chsrd(E, n) == chraw(E) ++ chsrd(E[3+chlen(E):], n - 3 - chlen(E))
  ensures len(chsrd(E, n)) > 0 && chraw(E[:n]) == chraw(E)
  reveal chsgood, chsrd
{
  assert hdr(E[:n]) == hdr(E)
  assert chraw(E[:n]) == chraw(E)
  assert E[:n][3:3+chlen(E)] == E[3:3+chlen(E)]
  assert E[:n][3+chlen(E):] == E[3+chlen(E):][:n - 3 - chlen(E)]
}

lemma chsrd_nil(E []byte, n int)
  property C07
  requires n <= 0
  ensures chsrd(E, n) == empty([]byte)
  reveal chsrd

lemma chsrd_step(E []byte, n int)
  property C07
  requires n > 0 && chok(E)
  ensures chsrd(E, n) == chraw(E) ++ chsrd(E[3+chlen(E):], n - 3 - chlen(E))
  reveal chsrd

func (r *reader) readAChunk()
  property C07, C15
  requires sshape(r) && r.readLength < slen(r)
  modifies r.readLength, r.buf.content, r.cmpBuf.content when !snone(r), r.f.content
  ensures same: err == nil ==> rest(r) == old(rest(r)) && grew(old(r.buf.content), r.buf.content)
  ensures chunk: err == nil && !snone(r) ==> r.buf.content == old(r.buf.content) ++ chraw(old(r.f.content))
  ensures moves: err == nil ==> r.readLength > old(r.readLength)
  ensures good: old(sgood(r)) ==> err == nil && sgood(r)
  ensures progress: old(sgood(r)) ==> len(r.buf.content) > len(old(r.buf.content))
  var F []byte = empty([]byte)
  at entry {
    F = r.f.content
    if !snone(r) && sgood(r) { good_first(F, slen(r) - r.readLength, r.opts.ChunkSize) }
  }
  at before call DecChunkHeader { assert hdr(F) == hdr(head) }
  at before call Decompress { assert r.cmpBuf.content == F[3:3+chlen(F)] }
  at exit {
    if err == nil && !snone(r) {
      assert chin(F)
      assert !chorig(F) ==> okz(F[3:3+chlen(F)])
      assert chok(F)
      chsrd_step(F, slen(r) - old(r.readLength))
      assert r.f.content == F[3+chlen(F):]
      assert r.buf.content == old(r.buf.content) ++ chraw(F)
      assert slen(r) - r.readLength == slen(r) - old(r.readLength) - 3 - chlen(F)
    }
  }

func newReader(opts, info, start, f)
  property C07
  requires opts != nil && info != nil && f != nil && alloced(f) && 0 < opts.ChunkSize <= 4611686018427387904 && (info.Length == nil ? 0 : *info.Length) <= 4611686018427387904
  ensures shape: fresh(ret0) && srep(ret0) && ret0.opts == opts && ret0.info == info && ret0.start == start && ret0.f == f && ret0.readLength == 0 && len(ret0.buf.content) == 0
  ensures good: ret0.good <==> sgood(ret0)
  ensures content: ret0.content == unread(ret0)
  at exit { ret0.content = rest(ret0)  ret0.good = sgood(ret0) }

func (r *reader) ReadByte()
  property C07, C15
  requires srep(r)
  modifies r.content, r.readLength, r.buf.content, r.cmpBuf.content when !snone(r), r.f.content
  ensures err == nil ==> len(old(r.content)) > 0 && ret0 == old(r.content)[0] && r.content == old(r.content)[1:]
  ensures r.good && len(old(r.content)) > 0 ==> err == nil
  ensures srep(r)
  at entry { if r.readLength >= slen(r) && !snone(r) { chsrd_nil(r.f.content, slen(r) - r.readLength) } }
  at exit { r.content = rest(r) }

func (r *reader) Read(inout p)
  property C07, C15
  requires srep(r)
  modifies r.content, r.readLength, r.buf.content, r.cmpBuf.content when !snone(r), r.f.content
  ensures len(p) == len(old(p)) && 0 <= ret0 <= len(p)
  ensures err == nil ==> ret0 <= len(old(r.content)) && p[:ret0] == old(r.content)[:ret0] && r.content == old(r.content)[ret0:]
  ensures r.good && len(old(r.content)) >= len(p) ==> err == nil && ret0 == len(p)
  ensures srep(r)
  at entry { if r.readLength >= slen(r) && !snone(r) { chsrd_nil(r.f.content, slen(r) - r.readLength) } }
  at exit { r.content = rest(r) }
  loop 1
    invariant sshape(r) && rest(r) == old(r.content) && (r.good ==> sgood(r))
    invariant len(p) == len(old(p))
    decreases slen(r) - r.readLength
  at afterloop 1 { if r.readLength >= slen(r) && !snone(r) { chsrd_nil(r.f.content, slen(r) - r.readLength) } }

func (r reader) finished()
  property C07
  requires r.info != nil && r.buf != nil
  ensures ret0 <==> r.readLength >= (r.info.Length == nil ? 0 : *r.info.Length) && len(r.buf.content) == 0

// what is left to read after seeking to a recorded position: c bytes of the stream, then o bytes of the values there
fn sdata(r *reader) []byte = r.f.data[r.start:r.start + slen(r)]
fn swhole(r *reader) bool = healthy(r.f) && 0 <= r.start && r.start + slen(r) <= len(r.f.data) && len(r.f.data) <= 4611686018427387904
fn spos(r *reader, c int, o int) bool = 0 <= c && 0 <= o && (snone(r) ? c + o <= slen(r) : r.opts.CompressionKind == pb.CompressionKind_ZLIB && c <= slen(r) && chsgood(sdata(r)[c:], r.opts.ChunkSize) && (c == slen(r) ? o == 0 : o <= len(chraw(sdata(r)[c:]))))
fn sat(r *reader, c int, o int) []byte = snone(r) ? sdata(r)[c + o:] : chsraw(sdata(r)[c:])[o:]

func (r *reader) seek(chunk, chunkOffset)
  property C08, C15
  requires srep(r)
  modifies r.content, r.good, r.readLength, r.buf.content, r.cmpBuf.content when !snone(r), r.f.content
  ensures srep(r)
  ensures found: swhole(r) && spos(r, chunk, chunkOffset) ==> err == nil && r.good && r.content == sat(r, chunk, chunkOffset)
  var c0 int = 0
  var o0 int = 0
  var ok bool = false
  var F []byte = empty([]byte)
  at entry { c0 = chunk  o0 = chunkOffset  ok = swhole(r) && spos(r, chunk, chunkOffset) }
  at after call Seek {
    F = r.f.content
    if ok {
      assert res1 == nil
      assert chunk == (snone(r) ? c0 + o0 : c0)
      assert F == r.f.data[r.start + chunk:]
      assert F[:slen(r) - chunk] == sdata(r)[chunk:]
      if !snone(r) { 
        good_fit(sdata(r)[c0:], r.opts.ChunkSize)
        assert F[:slen(r) - chunk] == sdata(r)[c0:]
        chsrd_raw(F, slen(r) - chunk, r.opts.ChunkSize)
        if chunk < slen(r) { good_first(F, slen(r) - chunk, r.opts.ChunkSize)  assert chraw(F) == chraw(sdata(r)[c0:]) }
      }
    }
  }
  at exit {
    if r.readLength >= slen(r) && !snone(r) { chsrd_nil(r.f.content, slen(r) - r.readLength) }
    r.content = rest(r)
    r.good = err == nil && sgood(r)
  }

refine io.ByteReader by stream.reader
refine io.Reader by stream.reader, orcio.osFile except orcio.MockFile
refine io.Seeker by orcio.osFile except orcio.MockFile

// files of the operating system: a handle and what it reads
group (f *orcio.osFile) content modifies f.f.content keeps f != nil && f.f != nil && f.content == f.f.content && f.data == f.f.data && f.good == f.f.good && ref(f) != ref(f.f)

extern func (f *os.File) Read(inout p)
  modifies f.content
  ensures len(p) == len(old(p)) && 0 <= ret0 <= len(p) && ret0 <= len(old(f.content))
  ensures err == nil ==> p[:ret0] == old(f.content)[:ret0] && f.content == old(f.content)[ret0:]
  ensures f.good && len(old(f.content)) >= len(p) ==> err == nil && (len(p) > 0 ==> ret0 > 0)
extern func (f *os.File) Seek(offset, whence)
  modifies f.content
  ensures whence == 0 && f.good && 0 <= offset <= len(f.data) ==> err == nil
  ensures whence == 0 && err == nil ==> offset >= 0 && f.content == (offset <= len(f.data) ? f.data[offset:] : empty([]byte))

func (f *orcio.osFile) Read(inout p)
  property C07
  requires f.f != nil && f.content == f.f.content && f.good == f.f.good && f.data == f.f.data && ref(f) != ref(f.f)
  modifies f.content, f.f.content
  ensures len(p) == len(old(p)) && 0 <= ret0 <= len(p)
  ensures err == nil ==> ret0 <= len(old(f.content)) && p[:ret0] == old(f.content)[:ret0] && f.content == old(f.content)[ret0:]
  ensures f.good && len(old(f.content)) >= len(p) ==> err == nil && (len(p) > 0 ==> ret0 > 0)
  ensures f.content == f.f.content
  at exit { f.content = f.f.content }

func (f *orcio.osFile) Seek(offset, whence)
  property C07, C08
  requires f.f != nil && f.content == f.f.content && f.good == f.f.good && f.data == f.f.data && ref(f) != ref(f.f)
  modifies f.content, f.f.content
  ensures whence == 0 && f.good && 0 <= offset <= len(f.data) ==> err == nil
  ensures whence == 0 && err == nil ==> offset >= 0 && f.content == (offset <= len(f.data) ? f.data[offset:] : empty([]byte))
  ensures f.content == f.f.content
  at exit { f.content = f.f.content }
