// Fixed width, varint and raw encodings
package encoding

fn be4(S []byte) int = S[0]*16777216 + S[1]*65536 + S[2]*256 + S[3]
fn le8(S []byte) int = S[0] + S[1]*256 + S[2]*65536 + S[3]*16777216 + S[4]*4294967296 + S[5]*1099511627776 + S[6]*281474976710656 + S[7]*72057594037927936

extern func binary.bigEndian.PutUint32(inout b, v)
  requires len(b) >= 4
  ensures len(b) == len(old(b)) && be4(b) == v && b[4:] == old(b)[4:]
extern func binary.bigEndian.Uint32(b) pure
  requires len(b) >= 4
  ensures ret0 == be4(b)
extern func binary.littleEndian.PutUint64(inout b, v)
  requires len(b) >= 8
  ensures len(b) == len(old(b)) && le8(b) == v && b[8:] == old(b)[8:]
extern func binary.littleEndian.Uint64(b) pure
  requires len(b) >= 8
  ensures ret0 == le8(b)

// floating point values are their bit patterns
extern func math.Float32bits(f) pure
  ensures ret0 == bits(f)
extern func math.Float32frombits(b) pure
  ensures bits(ret0) == b
extern func math.Float64bits(f) pure
  ensures ret0 == bits(f)
extern func math.Float64frombits(b) pure
  ensures bits(ret0) == b

// ReadFull calls Read
extern func (r io.Reader) Read(inout p)
  property C07, C08
  modifies r.content
  ensures len(p) == len(old(p)) && 0 <= ret0 <= len(p)
  ensures err == nil ==> ret0 <= len(old(r.content)) && p[:ret0] == old(r.content)[:ret0] && r.content == old(r.content)[ret0:]
  ensures healthy(r) && len(old(r.content)) >= len(p) ==> err == nil && (len(p) > 0 ==> ret0 > 0)

extern func io.ReadFull(r, inout buf)
  modifies r.content
  ensures len(buf) == len(old(buf))
  ensures err == nil ==> len(old(r.content)) >= len(buf) && buf == old(r.content)[:len(buf)] && r.content == old(r.content)[len(buf):]
  ensures (healthy(r) || is(r, *bytes.Buffer)) && len(old(r.content)) >= len(buf) ==> err == nil
  ensures is(r, *bytes.Buffer) ==> len(r.content) <= len(old(r.content))
  ensures 0 <= ret0 <= len(buf)

func (f float) Encode(v, out)
  property C04
  requires out != nil && is(v, float32)
  modifies out.content
  ensures err == nil
  ensures appended: grew(old(out.content), out.content)
  ensures size: len(out.content) == len(old(out.content)) + 4
  ensures exact: be4(out.content[len(old(out.content)):]) == bits(as(v, float32))

func (f float) Flush(out)
  property C07
  ensures err == nil

func (f *float) GetPosition()
  property C08
  ensures ret0 == empty([]uint64)

func DecodeFloat(in)
  property C04, C15
  requires in != nil
  modifies in.content
  ensures decodes: err == nil ==> len(old(in.content)) >= 4 && bits(ret0) == be4(old(in.content)[:4]) && in.content == old(in.content)[4:]
  ensures complete: healthy(in) && len(old(in.content)) >= 4 ==> err == nil

func (f double) Encode(v, out)
  property C04
  requires out != nil && is(v, float64)
  modifies out.content
  ensures err == nil
  ensures appended: grew(old(out.content), out.content)
  ensures size: len(out.content) == len(old(out.content)) + 8
  ensures exact: le8(out.content[len(old(out.content)):]) == bits(as(v, float64))

func (f double) Flush(out)
  property C07
  ensures err == nil

func (f *double) GetPosition()
  property C08
  ensures ret0 == empty([]uint64)

func DecodeDouble(in)
  property C04, C15
  requires in != nil
  modifies in.content
  ensures decodes: err == nil ==> len(old(in.content)) >= 8 && bits(ret0) == le8(old(in.content)[:8]) && in.content == old(in.content)[8:]
  ensures complete: healthy(in) && len(old(in.content)) >= 8 ==> err == nil

func (e *stringContents) Encode(v, out)
  property C04
  requires out != nil && is(v, []byte)
  modifies out.content
  ensures err == nil
  ensures exact: out.content == old(out.content) ++ as(v, []byte)

func (e *stringContents) Flush(out)
  property C07
  ensures err == nil

func (e *stringContents) GetPosition()
  property C08
  ensures ret0 == empty([]uint64)

func DecodeBytes(in, length)
  property C04, C15
  requires in != nil && length >= 0
  modifies in.content
  ensures decodes: err == nil ==> len(old(in.content)) >= length && ret0 == old(in.content)[:length] && in.content == old(in.content)[length:]
  ensures complete: healthy(in) && len(old(in.content)) >= length ==> err == nil

func Zigzag(x)
  property C04, C01, C05
  mode bv
  ensures ret0 == zz(x)

func UnZigzag(x)
  property C04, C01, C05
  mode bv
  ensures ret0 == unzz(x)
  ensures zz(ret0) == x

fn zz(x int) int = x >= 0 ? 2 * x : 0 - 2 * x - 1
fn unzz(u int) int = u % 2 == 0 ? u / 2 : 0 - (u / 2) - 1

lemma zz_bijection(x i64, u u64)
  property C04
  ensures unzz(zz(x)) == x && 0 <= zz(x) <= 18446744073709551615
  ensures zz(unzz(u)) == u && 0 - 9223372036854775808 <= unzz(u) <= 9223372036854775807

// base 128 varints, least significant group first
fn uvok(E []byte) bool rec decreases len(E) = len(E) > 0 && (E[0] < 128 || uvok(E[1:]))
fn uvlen(E []byte) int rec decreases len(E) = len(E) == 0 ? 0 : (E[0] < 128 ? 1 : 1 + uvlen(E[1:]))
fn uvval(E []byte) int rec decreases len(E) = len(E) == 0 ? 0 : (E[0] < 128 ? E[0] : E[0] - 128 + 128 * uvval(E[1:]))

lemma uv_len(E []byte)
  property C04
  decreases len(E)
  requires uvok(E)
  trigger {uvlen(E)}
  ensures 1 <= uvlen(E) <= len(E)
  reveal uvok, uvlen
{ if E[0] >= 128 { uv_len(E[1:]) } }

// a varint at the start of a stream is read as such
lemma uv_prefix(E []byte, T []byte)
  property C04
  decreases len(E)
  requires uvok(E) && uvlen(E) == len(E)
  ensures uvok(E ++ T) && uvlen(E ++ T) == len(E) && uvval(E ++ T) == uvval(E)
  reveal uvok, uvlen, uvval
{
  assert (E ++ T)[1:] == E[1:] ++ T
  if E[0] >= 128 { uv_prefix(E[1:], T) }
}

// the sequence ends with its first varint: what an encoder appends
fn isuv(E []byte, u int) bool = uvok(E) && uvlen(E) == len(E) && uvval(E) == u

extern func binary.PutUvarint(inout buf, x)
  requires len(buf) >= 10
  ensures len(buf) == len(old(buf)) && 1 <= ret0 <= 10 && isuv(buf[:ret0], x)
extern func binary.PutVarint(inout buf, x)
  requires len(buf) >= 10
  ensures len(buf) == len(old(buf)) && 1 <= ret0 <= 10 && isuv(buf[:ret0], zz(x))
extern func binary.ReadUvarint(r)
  modifies r.content
  ensures err == nil ==> uvok(old(r.content)) && ret0 == uvval(old(r.content)) && r.content == old(r.content)[uvlen(old(r.content)):] && uvlen(old(r.content)) <= 10 && uvval(old(r.content)) <= 18446744073709551615
  ensures healthy(r) && uvok(old(r.content)) && uvlen(old(r.content)) <= 10 && uvval(old(r.content)) <= 18446744073709551615 ==> err == nil
extern func binary.ReadVarint(r)
  modifies r.content
  ensures err == nil ==> uvok(old(r.content)) && ret0 == unzz(uvval(old(r.content))) && r.content == old(r.content)[uvlen(old(r.content)):] && uvlen(old(r.content)) <= 10 && uvval(old(r.content)) <= 18446744073709551615
  ensures healthy(r) && uvok(old(r.content)) && uvlen(old(r.content)) <= 10 && uvval(old(r.content)) <= 18446744073709551615 ==> err == nil

func (e *varint64Encoder) Encode(v, out)
  property C04
  requires out != nil && is(v, int64)
  modifies out.content
  ensures err == nil
  ensures appended: grew(old(out.content), out.content)
  ensures exact: isuv(out.content[len(old(out.content)):], zz(as(v, int64)))
  ensures bounded: len(out.content) <= len(old(out.content)) + 10

func (e *varint64Encoder) Flush(out)
  property C07
  ensures err == nil

func (e *varint64Encoder) GetPosition()
  property C08
  ensures ret0 == snoc(empty([]uint64), 1)

func DecodeVarInt64(in)
  property C04, C15
  requires in != nil
  modifies in.content
  ensures bounded: err == nil ==> uvlen(old(in.content)) <= 10 && uvval(old(in.content)) <= 18446744073709551615
  ensures decodes: err == nil ==> uvok(old(in.content)) && ret0 == unzz(uvval(old(in.content))) && in.content == old(in.content)[uvlen(old(in.content)):]
  ensures complete: healthy(in) && uvok(old(in.content)) && uvlen(old(in.content)) <= 10 && uvval(old(in.content)) <= 18446744073709551615 ==> err == nil

// encode then decode, whatever follows
lemma varint_roundtrip(E []byte, T []byte, x i64)
  property C04
  requires isuv(E, zz(x)) && len(E) <= 10
  ensures uvok(E ++ T) && uvlen(E ++ T) <= 10 && uvval(E ++ T) <= 18446744073709551615
  ensures unzz(uvval(E ++ T)) == x && (E ++ T)[uvlen(E ++ T):] == T
{ uv_prefix(E, T) zz_bijection(x, 0) }
