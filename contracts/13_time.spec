// Dates, timestamps and nanoseconds.  A time is an instant: seconds since 1970
// (unix) and nanoseconds below one second (nsec), seen in a location.
package api

fn unix(t time.Time) int opaque
fn nsec(t time.Time) int opaque
fn zone(t time.Time) int opaque
// 2015-01-01 00:00:00 of a location
fn epoch(loc int) int opaque

extern func (t time.Time) Unix() pure
  ensures ret0 == unix(t)
extern func (t time.Time) Nanosecond() pure
  ensures ret0 == nsec(t) && 0 <= nsec(t) <= 999999999
extern func (t time.Time) Location() pure
  ensures ret0 != nil && ref(ret0) == zone(t)
extern func (t time.Time) UTC() pure
  ensures unix(ret0) == unix(t) && nsec(ret0) == nsec(t) && zone(ret0) == ref(time.UTC)
extern func (t time.Time) In(loc) pure
  requires loc != nil
  ensures unix(ret0) == unix(t) && nsec(ret0) == nsec(t) && zone(ret0) == ref(loc)
extern func time.Unix(sec, ns) pure
  ensures 0 <= ns <= 999999999 ==> unix(ret0) == sec && nsec(ret0) == ns
extern func time.Date(year, month, day, hour, min, sec, ns, loc) pure
  requires loc != nil
  ensures year == 2015 && month == 1 && day == 1 && hour == 0 && min == 0 && sec == 0 && ns == 0 ==> unix(ret0) == epoch(ref(loc)) && nsec(ret0) == 0
  ensures 0 - 4611686018427387904 <= unix(ret0) <= 4611686018427387904

fn floordiv(a int, b int) int = a >= 0 ? a / b : 0 - ((b - 1 - a) / b)

func FromDays(days)
  property C09, C04
  ensures unix(ret0) == days * 86400 && nsec(ret0) == 0

func ToDays(d)
  property C09, C04
  ensures ret0 == i32(floordiv(unix(d), 86400))

lemma days_roundtrip(days i32)
  property C09
  ensures i32(floordiv(days * 86400, 86400)) == days

func (t Timestamp) Time()
  property C09
  requires t.Nanos <= 999999999
  ensures unix(ret0) == i64(epoch(t.Loc == nil ? ref(time.UTC) : ref(t.Loc)) + t.Seconds) && nsec(ret0) == t.Nanos
  ensures zone(ret0) == (t.Loc == nil ? ref(time.UTC) : ref(t.Loc))

func GetTimestamp(t)
  property C09
  ensures ret0.Loc != nil && ref(ret0.Loc) == zone(t)
  ensures ret0.Seconds == i64(unix(t) - epoch(zone(t))) && ret0.Nanos == nsec(t) && ret0.Nanos <= 999999999

// a time, its timestamp, and back
lemma timestamp_roundtrip(u i64, e i64)
  property C09
  ensures i64(e + i64(u - e)) == u

fn p10(k int) int = k == 0 ? 1 : (k == 1 ? 10 : (k == 2 ? 100 : (k == 3 ? 1000 : (k == 4 ? 10000 : (k == 5 ? 100000 : (k == 6 ? 1000000 : (k == 7 ? 10000000 : (k == 8 ? 100000000 : 1000000000))))))))
// nanoseconds without trailing zeros, their number less one in the low 3 bits
fn nanodec(e int) int = e % 8 == 0 ? e / 8 : (e / 8) * p10(e % 8 + 1)

func EncodingTimestampNanos(nanos)
  property C09
  requires nanos <= 999999999
  ensures nanodec(ret0) == nanos && ret0 <= 8 * 999999999
  loop 1
    invariant 1 <= trailingZeros <= 7
    invariant nanos * p10(trailingZeros + 1) == old(nanos)

func DecodingTimestampNanos(encoded)
  property C09
  ensures nanodec(encoded) <= 18446744073709551615 ==> ret0 == nanodec(encoded)
  loop 1
    unroll 8

package encoding

func EncodingNano(nanos)
  property C09
  requires nanos <= 999999999
  ensures nanodec(ret0) == nanos && ret0 <= 8 * 999999999
  loop 1
    invariant 1 <= trailingZeros <= 7
    invariant nanos * p10(trailingZeros + 1) == old(nanos)

func DecodingNano(encoded)
  property C09
  ensures nanodec(encoded) <= 18446744073709551615 ==> ret0 == nanodec(encoded)
  loop 1
    unroll 8
