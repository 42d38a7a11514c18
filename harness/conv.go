package main

import (
	"fmt"
	"time"

	"github.com/patrickhuang888/goorc/orc/api"
	"github.com/patrickhuang888/goorc/orc/encoding"
)

type Instant struct {
	Sec  int64
	Nano uint64
	Zone int
	Days int32
}

var zones = func() []*time.Location {
	z := []*time.Location{time.UTC, time.FixedZone("a", 8*3600), time.FixedZone("b", -11*3600-1800), time.FixedZone("c", 1)}
	for _, n := range []string{"America/New_York", "Asia/Shanghai", "Europe/London"} {
		if l, err := time.LoadLocation(n); err == nil {
			z = append(z, l)
		}
	}
	return z
}()

func (r *R) nano() uint64 {
	switch r.Intn(4) {
	case 0:
		return uint64(r.Intn(1000000000))
	case 1:
		return []uint64{0, 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 999999999, 900000000, 990000000, 123456789, 100000001}[r.Intn(15)]
	}
	n := uint64(r.Intn(1000000000))
	for k := r.Intn(9); k > 0; k-- {
		n = n / 10
	}
	m := n
	for n != 0 && m*10 < 1000000000 && r.Intn(5) != 0 {
		m *= 10
	}
	return m
}

func runC09(in Instant) error {
	for _, e := range []func(uint64) uint64{encoding.EncodingNano, api.EncodingTimestampNanos} {
		c := e(in.Nano)
		// the format: low three bits z, rest v, value v or v*10^(z+1)
		v := c >> 3
		if z := c & 7; z != 0 {
			for i := uint64(0); i < z+1; i++ {
				v *= 10
			}
		}
		if v != in.Nano {
			return fmt.Errorf("nanos %d encoded as %d, which stands for %d", in.Nano, c, v)
		}
		if d := uint64(encoding.DecodingNano(c)); d != in.Nano {
			return fmt.Errorf("nanos %d decoded as %d", in.Nano, d)
		}
		if d := api.DecodingTimestampNanos(c); d != in.Nano {
			return fmt.Errorf("timestamp nanos %d decoded as %d", in.Nano, d)
		}
	}
	loc := zones[in.Zone%len(zones)]
	t := time.Unix(in.Sec, int64(in.Nano)).In(loc)
	ts := api.GetTimestamp(t)
	if b := ts.Time(); !b.Equal(t) {
		return fmt.Errorf("time %v came back as %v", t, b)
	}
	if want := time.Date(2015, 1, 1, 0, 0, 0, 0, loc).Unix() + ts.Seconds; want != in.Sec || ts.Nanos != in.Nano {
		return fmt.Errorf("time %v has timestamp %d.%d", t, ts.Seconds, ts.Nanos)
	}
	d := api.FromDays(in.Days)
	if u := time.Time(d).Unix(); u != int64(in.Days)*86400 {
		return fmt.Errorf("day %d is %d seconds", in.Days, u)
	}
	if b := api.ToDays(d); b != in.Days {
		return fmt.Errorf("day %d came back as %d", in.Days, b)
	}
	y, m, dd := time.Time(d).Date()
	if y > -200000 && y < 200000 {
		if b := api.ToDays(api.NewDate(y, m, dd)); b != in.Days {
			return fmt.Errorf("date %d-%d-%d is day %d, want %d", y, m, dd, b, in.Days)
		}
	}
	return nil
}

func init() {
	reg("C09", "conversions", 1, func(r *R) Instant {
		in := Instant{Nano: r.nano(), Zone: r.Intn(len(zones)), Days: int32(r.Uint32()) >> uint(r.Intn(32)), Sec: int64(r.Uint64()) >> uint(26+r.Intn(38))}
		if r.Intn(3) == 0 { // around 1970 and 2015
			in.Sec = []int64{0, 1420070400}[r.Intn(2)] + int64(r.Intn(200001)) - 100000
			in.Days = int32(r.Intn(7) - 3)
		}
		if r.Intn(10) == 0 {
			in.Days = []int32{-1 << 31, 1<<31 - 1, 106751, 106752, -106752, -106753}[r.Intn(6)]
		}
		return in
	}, runC09, func(in Instant) (out []Instant) {
		for _, o := range []Instant{{0, in.Nano, 0, 0}, {in.Sec, 0, in.Zone, 0}, {0, 0, 0, in.Days}} {
			if o != in {
				out = append(out, o)
			}
		}
		return
	})
}
