package main

import (
	"math/big"
)

var bvMode bool // set per function

func trailingZeros(t *Term) int {
	switch t.op {
	case "num":
		if t.num.Sign() == 0 {
			return 1000
		}
		return int(t.num.TrailingZeroBits())
	case "*":
		return trailingZeros(t.args[0]) + trailingZeros(t.args[1])
	case "+":
		a, b := trailingZeros(t.args[0]), trailingZeros(t.args[1])
		if a < b {
			return a
		}
		return b
	case "ite":
		a, b := trailingZeros(t.args[1]), trailingZeros(t.args[2])
		if a < b {
			return a
		}
		return b
	case "mod":
		a, b := trailingZeros(t.args[0]), trailingZeros(t.args[1])
		if a < b {
			return a
		}
		return b
	}
	return 0
}

func bitLen(t *Term) int { // number of bits of a value known non-negative, -1 unknown
	if t.lo == nil || t.hi == nil || t.lo.Sign() < 0 {
		return -1
	}
	return t.hi.BitLen()
}

func BitShl(x, k *Term) *Term {
	if k.op == "num" && k.num.Sign() >= 0 {
		n := int(k.num.Int64())
		if n > 200 {
			n = 200
		}
		return Mul(x, Num(pow2(n)))
	}
	t := P.mk("bit.shl", "Int", x, k)
	if t.lo == nil && x.lo != nil && x.lo.Sign() >= 0 {
		t.lo = big.NewInt(0)
		if x.hi != nil && k.hi != nil && k.hi.Sign() >= 0 && k.hi.Cmp(big.NewInt(200)) < 0 {
			t.hi = new(big.Int).Lsh(x.hi, uint(k.hi.Int64()))
		}
	}
	return t
}

func BitShr(x, k *Term) *Term {
	if k.op == "num" && k.num.Sign() >= 0 {
		n := int(k.num.Int64())
		if n > 200 {
			n = 200
		}
		return Div(x, Num(pow2(n)))
	}
	t := P.mk("bit.shr", "Int", x, k)
	if t.lo == nil && x.lo != nil && x.hi != nil {
		if x.lo.Sign() >= 0 {
			t.lo = big.NewInt(0)
		} else {
			t.lo = x.lo
		}
		if x.hi.Sign() >= 0 {
			t.hi = x.hi
		} else {
			t.hi = big.NewInt(0)
		}
	}
	return t
}

// contiguous mask: returns (i, n) with c == (2^n-1)<<i
func contiguous(c *big.Int) (int, int, bool) {
	if c.Sign() <= 0 {
		return 0, 0, false
	}
	i := int(c.TrailingZeroBits())
	d := new(big.Int).Rsh(c, uint(i))
	d.Add(d, big.NewInt(1))
	if d.BitLen()-1 == int(d.TrailingZeroBits()) {
		return i, d.BitLen() - 1, true
	}
	return 0, 0, false
}

func BitAnd(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" {
		return Num(new(big.Int).And(a.num, b.num))
	}
	if a.op == "num" {
		a, b = b, a
	}
	if b.op == "num" {
		if b.num.Sign() == 0 {
			return NumI(0)
		}
		if i, n, ok := contiguous(b.num); ok && !bvMode {
			return Mul(Mod(Div(a, Num(pow2(i))), Num(pow2(n))), Num(pow2(i)))
		}
	}
	t := P.mk("bit.and", "Int", a, b)
	if t.lo == nil && a.lo != nil && b.lo != nil && (a.lo.Sign() >= 0 || b.lo.Sign() >= 0) {
		t.lo = big.NewInt(0)
		if a.lo.Sign() >= 0 && a.hi != nil {
			t.hi = a.hi
		}
		if b.lo.Sign() >= 0 && b.hi != nil && (t.hi == nil || b.hi.Cmp(t.hi) < 0) {
			t.hi = b.hi
		}
	}
	setSigned(t, a, b)
	return t
}

func setSigned(t, a, b *Term) {
	if t.lo != nil && t.hi != nil {
		return
	}
	if a.lo == nil || b.lo == nil || a.hi == nil || b.hi == nil {
		return
	}
	n := 0
	for _, x := range []*big.Int{a.lo, a.hi, b.lo, b.hi} {
		if x.Sign() < 0 {
			x = new(big.Int).Not(x)
		}
		if l := x.BitLen(); l > n {
			n = l
		}
	}
	// both operands, hence the result, lie in [-2^n, 2^n-1]
	t.lo = new(big.Int).Neg(pow2(n))
	t.hi = new(big.Int).Sub(pow2(n), big.NewInt(1))
}

func BitOr(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" {
		return Num(new(big.Int).Or(a.num, b.num))
	}
	if a.op == "num" && a.num.Sign() == 0 {
		return b
	}
	if b.op == "num" && b.num.Sign() == 0 {
		return a
	}
	if !bvMode {
		for k := 0; k < 2; k++ {
			if bl := bitLen(b); bl >= 0 && trailingZeros(a) >= bl {
				return Add(a, b)
			}
			a, b = b, a
		}
	}
	t := P.mk("bit.or", "Int", a, b)
	bitIval(t, a, b)
	return t
}

func bitIval(t, a, b *Term) {
	if t.lo == nil {
		x, y := bitLen(a), bitLen(b)
		if x >= 0 && y >= 0 {
			if y > x {
				x = y
			}
			t.lo = big.NewInt(0)
			t.hi = new(big.Int).Sub(pow2(x), big.NewInt(1))
		}
	}
	setSigned(t, a, b)
}

func BitXor(a, b *Term) *Term {
	if a.op == "num" && b.op == "num" {
		return Num(new(big.Int).Xor(a.num, b.num))
	}
	if a.op == "num" && a.num.Sign() == 0 {
		return b
	}
	if b.op == "num" && b.num.Sign() == 0 {
		return a
	}
	t := P.mk("bit.xor", "Int", a, b)
	bitIval(t, a, b)
	return t
}
