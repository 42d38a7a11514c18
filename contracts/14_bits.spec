// Bit fields, most significant bit first
package encoding

// powers of two and shifts (proved on machine words, used as integers)
lemma pow2_step(k i64)
  mode bv
  property C05
  requires 0 <= k <= 64
  ensures pow2(k + 1) == 2 * pow2(k)
  ensures 1 <= pow2(k)

lemma pow2_table(k i64)
  mode bv
  property C05
  requires 0 <= k <= 64
  ensures k == 0 ==> pow2(k) == 1
  ensures k == 1 ==> pow2(k) == 2
  ensures k == 2 ==> pow2(k) == 4
  ensures k == 3 ==> pow2(k) == 8
  ensures k == 4 ==> pow2(k) == 16
  ensures k == 5 ==> pow2(k) == 32
  ensures k == 6 ==> pow2(k) == 64
  ensures k == 7 ==> pow2(k) == 128
  ensures k == 8 ==> pow2(k) == 256
  ensures k == 32 ==> pow2(k) == 4294967296
  ensures k == 64 ==> pow2(k) == 18446744073709551616
  ensures k <= 63 ==> pow2(k) <= 9223372036854775808
  ensures k <= 7 ==> pow2(k) <= 128
  ensures k <= 32 ==> pow2(k) <= 4294967296
  ensures k <= 8 ==> pow2(k) <= 256
  ensures k <= 56 ==> pow2(k) <= 72057594037927936
  ensures pow2(k) <= 18446744073709551616

lemma shift_split(x u64, k i64)
  mode bv
  property C05
  requires 0 <= k <= 63
  ensures x - band(x, pow2(k) - 1) == shl(shr(x, k), k)
  ensures band(x, pow2(k) - 1) < pow2(k)

// the low n bits of v
fn tobits(v int, n int) []bool rec decreases n = n <= 0 ? empty([]bool) : snoc(tobits(v / 2, n - 1), v % 2 == 1)
fn numb(B []bool) int rec decreases len(B) = len(B) == 0 ? 0 : 2 * numb(B[:len(B)-1]) + (B[len(B)-1] ? 1 : 0)

lemma tb_len(v int, n int)
  property C05
  decreases n
  trigger {tobits(v, n)}
  ensures len(tobits(v, n)) == max(n, 0)
  reveal tobits
{ if n > 0 { tb_len(v / 2, n - 1) } }

lemma tb_numb(v int, n int)
  property C05
  decreases n
  requires 0 <= n <= 64 && 0 <= v < pow2(n)
  ensures numb(tobits(v, n)) == v
  reveal tobits, numb
{
  if n > 0 { pow2_step(n - 1) tb_numb(v / 2, n - 1) assert tobits(v, n)[:n-1] == tobits(v / 2, n - 1) } else { pow2_table(n) }
}

lemma numb_tb(B []bool)
  property C05
  decreases len(B)
  requires len(B) <= 64
  ensures tobits(numb(B), len(B)) == B && 0 <= numb(B) < pow2(len(B))
  reveal tobits, numb
{
  if len(B) > 0 { pow2_step(len(B) - 1) numb_tb(B[:len(B)-1]) assert snoc(B[:len(B)-1], B[len(B)-1]) == B } else { pow2_table(len(B)) }
}

lemma tb_append(a int, b int, n int, k int, c int)
  property C05
  decreases k
  requires 0 <= n && 0 <= k <= 64 && 0 <= b < pow2(k) && c == a * pow2(k)
  ensures tobits(c + b, n + k) == tobits(a, n) ++ tobits(b, k)
  reveal tobits
{
  if k > 0 {
    pow2_step(k - 1)
    tb_append(a, b / 2, n, k - 1, a * pow2(k - 1))
    assert c == 2 * (a * pow2(k - 1))
    assert (c + b) / 2 == a * pow2(k - 1) + b / 2
    assert (c + b) % 2 == b % 2
    assert tobits(c + b, n + k) == snoc(tobits((c + b) / 2, n + k - 1), (c + b) % 2 == 1)
    assert tobits(b, k) == snoc(tobits(b / 2, k - 1), b % 2 == 1)
  } else { pow2_table(k) assert c == a }
}

lemma tb_unfold8(b byte)
  property C05
  ensures tobits(b, 8) == snoc(snoc(snoc(snoc(snoc(snoc(snoc(snoc(empty([]bool), b / 128 % 2 == 1), b / 64 % 2 == 1), b / 32 % 2 == 1), b / 16 % 2 == 1), b / 8 % 2 == 1), b / 4 % 2 == 1), b / 2 % 2 == 1), b % 2 == 1)
  reveal tobits
{
  assert tobits(b / 128, 1) == snoc(tobits(b / 256, 0), b / 128 % 2 == 1)
  assert tobits(b / 64, 2) == snoc(tobits(b / 128, 1), b / 64 % 2 == 1)
  assert tobits(b / 32, 3) == snoc(tobits(b / 64, 2), b / 32 % 2 == 1)
  assert tobits(b / 16, 4) == snoc(tobits(b / 32, 3), b / 16 % 2 == 1)
  assert tobits(b / 8, 5) == snoc(tobits(b / 16, 4), b / 8 % 2 == 1)
  assert tobits(b / 4, 6) == snoc(tobits(b / 8, 5), b / 4 % 2 == 1)
  assert tobits(b / 2, 7) == snoc(tobits(b / 4, 6), b / 2 % 2 == 1)
}

lemma unpack1_bits(b byte)
  property C05
  ensures unpack1(b) == tobits(b, 8)
  reveal unpack1, tobits
{
  tb_unfold8(b)
}

lemma unpack_cons(b byte, R []byte)
  property C05
  ensures unpack(snoc(empty([]byte), b) ++ R) == tobits(b, 8) ++ unpack(R)
{
  unpack_build(empty([]byte), b)
  unpack_concat(snoc(empty([]byte), b), R)
  unpack1_bits(b)
}

lemma shl_step(x u64, k i64)
  mode bv
  property C05
  requires 0 <= k <= 63
  ensures shl(x, k + 1) == 2 * shl(x, k) && shl(x, 0) == x

lemma shl_zero(x u64, k i64)
  mode bv
  property C05
  requires k == 0
  ensures shl(x, k) == x

lemma pow2_add8(k i64)
  mode bv
  property C05
  requires 0 <= k <= 64
  ensures pow2(k + 8) == 256 * pow2(k)

lemma pow2_add32(k i64)
  mode bv
  property C05
  requires 0 <= k <= 32
  ensures pow2(k + 32) == 4294967296 * pow2(k)

lemma shr_lt(x u64, m u64, k i64)
  mode bv
  property C05
  requires 0 <= k <= 63
  requires x < shl(m, k)
  ensures shr(x, k) < m

lemma pow2_sum(a int, k int)
  property C05
  requires 0 <= a && 0 <= k && a + k <= 64
  decreases k
  ensures pow2(a + k) == pow2(a) * pow2(k)
{
  if k > 0 { pow2_sum(a, k - 1) pow2_step(k - 1) pow2_step(a + k - 1) assert pow2(a) * (2 * pow2(k - 1)) == 2 * (pow2(a) * pow2(k - 1)) } else { pow2_table(k) }
}

lemma shl_mul(x u64, k i64)
  property C05
  requires 0 <= k <= 64
  decreases k
  ensures shl(x, k) == x * pow2(k)
{
  if k > 0 { shl_step(x, k - 1) shl_mul(x, k - 1) pow2_step(k - 1) assert shl(x, k) == 2 * (x * pow2(k - 1)) } else { shl_zero(x, k) pow2_table(k) }
}

lemma or_high(h u64, l u64)
  mode bv
  property C05
  requires 0 <= l <= 4294967295
  ensures bor(u64(shl(h, 32)), l) == u64(shl(h, 32)) + l

// what remains to be read: bits of the current byte, then whole bytes
fn avail(d *intRLV2Decoder, c []byte) []bool = tobits(d.lastByte, d.bitsLeft) ++ unpack(c)
fn bitstate(left int, last int) bool = 0 <= left <= 7 && 0 <= last < pow2(left)

func (d *intRLV2Decoder) readBits(in, bits)
  property C05, C15
  requires in != nil && 0 <= bits <= 64 && bitstate(d.bitsLeft, d.lastByte)
  modifies d.lastByte, d.bitsLeft, in.content
  ensures value: err == nil ==> old(avail(d, in.content)) == tobits(ret0, bits) ++ avail(d, in.content) && ret0 < pow2(bits)
  ensures suffix: err == nil ==> len(in.content) <= len(old(in.content)) && in.content == old(in.content)[len(old(in.content)) - len(in.content):]
  ensures state: err == nil ==> bitstate(d.bitsLeft, d.lastByte)
  ensures complete: healthy(in) && bits <= len(old(avail(d, in.content))) ==> err == nil
  var D int = 0
  var c1 []byte = empty([]byte)
  var high int = 0
  var calls int = 0
  var X int = 0
  var H int = 0
  loop 1
    invariant 0 <= hasBits <= 63 && 0 <= data < pow2(hasBits)
    invariant old(avail(d, in.content)) == tobits(data, hasBits) ++ unpack(in.content)
    invariant len(in.content) <= len(old(in.content)) && in.content == old(in.content)[len(old(in.content)) - len(in.content):]
    invariant hasBits < bits + 8 || hasBits == old(d.bitsLeft)
    invariant hasBits - old(d.bitsLeft) == 8 * (len(old(in.content)) - len(in.content))
  at entry { pow2_table(d.bitsLeft) pow2_table(bits) }
  at loopbegin 1 { D = data  c1 = in.content }
  at step 1 {
    pow2_table(hasBits)
    pow2_add8(hasBits)
    pow2_table(8)
    unpack_cons(c1[0], in.content)
    tb_append(D, c1[0], hasBits, 8, D * 256)
    assert c1 == snoc(empty([]byte), c1[0]) ++ in.content
    assert data == D * 256 + c1[0]
  }
  at after call readBits {
    if res1 == nil {
      if calls == 0 {
        high = res0  calls = 1
        pow2_table(bits - 32)
      } else {
        pow2_table(32)
        or_high(high, res0)
        pow2_add32(bits - 32)
        tb_append(high, res0, bits - 32, 32, high * 4294967296)
        assert high < 4294967296 && u64(shl(high, 32)) == high * 4294967296
        assert bor(u64(shl(high, 32)), res0) == high * 4294967296 + res0
        assert tobits(bor(u64(shl(high, 32)), res0), bits) == tobits(high, bits - 32) ++ tobits(res0, 32)
      }
    }
  }
  at afterloop 1 { X = data  H = hasBits }
  at exit {
    if err == nil && bits <= 56 {
      pow2_table(d.bitsLeft)
      pow2_table(bits)
      pow2_sum(bits, d.bitsLeft)
      shift_split(X, d.bitsLeft)
      shl_mul(shr(X, d.bitsLeft), d.bitsLeft)
      shl_mul(pow2(bits), d.bitsLeft)
      shr_lt(X, pow2(bits), d.bitsLeft)
      tb_append(shr(X, d.bitsLeft), band(X, pow2(d.bitsLeft) - 1), bits, d.bitsLeft, shl(shr(X, d.bitsLeft), d.bitsLeft))
    }
  }
