//go:build go1.22

package main

import (
	"crypto/sha512"
	"math/big"
)

// Independent curve arithmetic (math/big, Jacobian / extended coordinates).

type wCurve struct {
	p, a, b, n, gx, gy *big.Int
	size               int
}

func bi(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad constant " + s)
	}
	return v
}

var (
	cK1 = &wCurve{p: bi("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F"), a: bi("0"), b: bi("7"),
		n:  bi("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141"),
		gx: bi("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"), gy: bi("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8"), size: 32}
	cR1 = &wCurve{p: bi("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF"), a: bi("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC"),
		b: bi("5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B"), n: bi("FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551"),
		gx: bi("6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296"), gy: bi("4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5"), size: 32}
	cSM2 = &wCurve{p: bi("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF"), a: bi("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC"),
		b: bi("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93"), n: bi("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123"),
		gx: bi("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7"), gy: bi("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0"), size: 32}
	cBLS = &wCurve{p: bi("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab"), a: bi("0"), b: bi("4"),
		n:  bi("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"),
		gx: bi("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"),
		gy: bi("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1"), size: 48}
	cPallas = func() *wCurve {
		p := bi("40000000000000000000000000000000224698fc094cf91b992d30ed00000001")
		c := &wCurve{p: p, a: bi("0"), b: bi("5"), n: bi("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001"), gx: bi("1"), size: 32}
		// the library's base point, given in Montgomery form
		m := bi("08e00f71ba43dd6b270c412f2c9a5d66b443b9b74b8255d92f474795455d409d")
		r := new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), 256), p)
		c.gy = m.Mul(m, r).Mod(m, p)
		return c
	}()
)

type jac struct{ x, y, z *big.Int }

func (c *wCurve) inf() jac { return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)} }

func (c *wCurve) m(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, c.p) }
func (c *wCurve) sub(a, b *big.Int) *big.Int {
	r := new(big.Int).Sub(a, b)
	return r.Mod(r, c.p)
}
func (c *wCurve) mk(a *big.Int, k int64) *big.Int {
	r := new(big.Int).Mul(a, big.NewInt(k))
	return r.Mod(r, c.p)
}

func (c *wCurve) dbl(q jac) jac {
	if q.z.Sign() == 0 || q.y.Sign() == 0 {
		return c.inf()
	}
	yy := c.m(q.y, q.y)
	s := c.mk(c.m(q.x, yy), 4)
	zz := c.m(q.z, q.z)
	m := c.mk(c.m(q.x, q.x), 3)
	m.Add(m, c.m(c.a, c.m(zz, zz))).Mod(m, c.p)
	x := c.sub(c.m(m, m), c.mk(s, 2))
	y := c.sub(c.m(m, c.sub(s, x)), c.mk(c.m(yy, yy), 8))
	return jac{x, y, c.mk(c.m(q.y, q.z), 2)}
}

func (c *wCurve) add(p, q jac) jac {
	if p.z.Sign() == 0 {
		return q
	}
	if q.z.Sign() == 0 {
		return p
	}
	z1z1, z2z2 := c.m(p.z, p.z), c.m(q.z, q.z)
	u1, u2 := c.m(p.x, z2z2), c.m(q.x, z1z1)
	s1, s2 := c.m(p.y, c.m(q.z, z2z2)), c.m(q.y, c.m(p.z, z1z1))
	h, r := c.sub(u2, u1), c.sub(s2, s1)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return c.dbl(p)
		}
		return c.inf()
	}
	hh := c.m(h, h)
	hhh := c.m(h, hh)
	v := c.m(u1, hh)
	x := c.sub(c.sub(c.m(r, r), hhh), c.mk(v, 2))
	y := c.sub(c.m(r, c.sub(v, x)), c.m(s1, hhh))
	return jac{x, y, c.m(h, c.m(p.z, q.z))}
}

func (c *wCurve) mul(p jac, k *big.Int) jac {
	r := c.inf()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.dbl(r)
		if k.Bit(i) == 1 {
			r = c.add(r, p)
		}
	}
	return r
}

func (c *wCurve) g() jac { return jac{c.gx, c.gy, big.NewInt(1)} }

// affine returns nil,nil for the point at infinity.
func (c *wCurve) affine(p jac) (x, y *big.Int) {
	if p.z.Sign() == 0 {
		return nil, nil
	}
	zi := new(big.Int).ModInverse(p.z, c.p)
	zz := c.m(zi, zi)
	return c.m(p.x, zz), c.m(p.y, c.m(zz, zi))
}

func (c *wCurve) base(k *big.Int) (x, y *big.Int) {
	return c.affine(c.mul(c.g(), new(big.Int).Mod(k, c.n)))
}

func (c *wCurve) fb(v *big.Int) []byte { return v.FillBytes(make([]byte, c.size)) }

// comp is SEC1 compression (zcash form for BLS G1).
func (c *wCurve) comp(x, y *big.Int) []byte {
	if c == cBLS {
		b := c.fb(x)
		b[0] |= 0x80
		if new(big.Int).Lsh(y, 1).Cmp(c.p) > 0 {
			b[0] |= 0x20
		}
		return b
	}
	return append([]byte{2 + byte(y.Bit(0))}, c.fb(x)...)
}

func (c *wCurve) raw(x, y *big.Int) []byte { return append(c.fb(x), c.fb(y)...) }

// decomp decompresses a SEC1 or zcash compressed point; ok=false if it is not one.
func (c *wCurve) decomp(b []byte) (x, y *big.Int, ok bool) {
	var want uint
	big2 := false
	if c == cBLS {
		if len(b) != 48 || b[0]&0x80 == 0 || b[0]&0x40 != 0 {
			return nil, nil, false
		}
		bb := append([]byte{}, b...)
		big2 = bb[0]&0x20 != 0
		bb[0] &= 0x1f
		x = new(big.Int).SetBytes(bb)
	} else {
		if len(b) != 33 || (b[0] != 2 && b[0] != 3) {
			return nil, nil, false
		}
		want = uint(b[0] & 1)
		x = new(big.Int).SetBytes(b[1:])
	}
	if x.Cmp(c.p) >= 0 {
		return nil, nil, false
	}
	r := c.m(x, c.m(x, x))
	r.Add(r, c.m(c.a, x)).Add(r, c.b).Mod(r, c.p)
	y = new(big.Int).ModSqrt(r, c.p)
	if y == nil {
		return nil, nil, false
	}
	if c == cBLS {
		if (new(big.Int).Lsh(y, 1).Cmp(c.p) > 0) != big2 {
			y = c.sub(new(big.Int), y)
		}
	} else if y.Bit(0) != want {
		y = c.sub(new(big.Int), y)
	}
	return x, y, true
}

func (c *wCurve) onCurve(x, y *big.Int) bool {
	if x.Cmp(c.p) >= 0 || y.Cmp(c.p) >= 0 {
		return false
	}
	r := c.m(x, c.m(x, x))
	r.Add(r, c.m(c.a, x)).Add(r, c.b).Mod(r, c.p)
	return c.m(y, y).Cmp(r) == 0
}

// ecdsaVerify judges r‖s over a digest against an affine key.
func (c *wCurve) ecdsaVerify(x, y *big.Int, digest, sig []byte) bool {
	if len(sig) != 64 || !c.onCurve(x, y) {
		return false
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(c.n) >= 0 || s.Cmp(c.n) >= 0 {
		return false
	}
	e := new(big.Int).SetBytes(digest)
	w := new(big.Int).ModInverse(s, c.n)
	u1 := new(big.Int).Mul(e, w)
	u1.Mod(u1, c.n)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, c.n)
	q := jac{x, y, big.NewInt(1)}
	px, _ := c.affine(c.add(c.mul(c.g(), u1), c.mul(q, u2)))
	if px == nil {
		return false
	}
	return px.Mod(px, c.n).Cmp(r) == 0
}

// ecdsaSign signs with a chosen nonce and normalises to low S.
func (c *wCurve) ecdsaSign(d *big.Int, digest []byte, k *big.Int) []byte {
	x, _ := c.base(k)
	r := new(big.Int).Mod(x, c.n)
	e := new(big.Int).SetBytes(digest)
	s := new(big.Int).Mul(r, d)
	s.Add(s, e).Mul(s, new(big.Int).ModInverse(k, c.n)).Mod(s, c.n)
	if new(big.Int).Lsh(s, 1).Cmp(c.n) > 0 {
		s.Sub(c.n, s)
	}
	return append(r.FillBytes(make([]byte, 32)), s.FillBytes(make([]byte, 32))...)
}

// ---------------------------------------------------------------- edwards25519

var (
	edP = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	edN = bi("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
	edD = func() *big.Int {
		d := new(big.Int).ModInverse(big.NewInt(121666), edP)
		d.Mul(d, big.NewInt(-121665))
		return d.Mod(d, edP)
	}()
	edG edPt
)

func init() {
	y := new(big.Int).ModInverse(big.NewInt(5), edP)
	y.Mul(y, big.NewInt(4)).Mod(y, edP)
	b := y.FillBytes(make([]byte, 32))
	edG, _ = edDecode(rev(b))
}

type edPt struct{ x, y, z, t *big.Int }

func edm(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, edP) }

func edAdd(p, q edPt) edPt {
	a, b := edm(p.x, q.x), edm(p.y, q.y)
	c, d := edm(edm(p.t, edD), q.t), edm(p.z, q.z)
	e := edm(new(big.Int).Add(p.x, p.y), new(big.Int).Add(q.x, q.y))
	e.Sub(e, a).Sub(e, b).Mod(e, edP)
	f, g := new(big.Int).Sub(d, c), new(big.Int).Add(d, c)
	h := new(big.Int).Add(b, a)
	return edPt{edm(e, f), edm(g, h), edm(f, g), edm(e, h)}
}

func edMul(p edPt, k *big.Int) edPt {
	r := edPt{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = edAdd(r, r)
		if k.Bit(i) == 1 {
			r = edAdd(r, p)
		}
	}
	return r
}

func edEncode(p edPt) []byte {
	zi := new(big.Int).ModInverse(p.z, edP)
	x, y := edm(p.x, zi), edm(p.y, zi)
	b := rev(y.FillBytes(make([]byte, 32)))
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

func edDecode(b []byte) (edPt, bool) {
	bb := rev(b)
	sign := uint(bb[0] >> 7)
	bb[0] &= 0x7f
	y := new(big.Int).SetBytes(bb)
	if y.Cmp(edP) >= 0 {
		return edPt{}, false
	}
	yy := edm(y, y)
	u := new(big.Int).Sub(yy, big.NewInt(1))
	v := edm(edD, yy)
	v.Add(v, big.NewInt(1))
	u.Mul(u, v.ModInverse(v, edP)).Mod(u, edP)
	x := new(big.Int).ModSqrt(u, edP)
	if x == nil {
		return edPt{}, false
	}
	if x.Bit(0) != sign {
		x.Sub(edP, x).Mod(x, edP)
	}
	return edPt{x, y, big.NewInt(1), edm(x, y)}, true
}

func edScalar(le []byte) *big.Int { return new(big.Int).SetBytes(rev(le)) }

// edVerify checks [s]B = R + [h]A with h = SHA512(R‖A‖M).
func edVerify(pub, msg, sig []byte) bool {
	if len(pub) != 32 || len(sig) != 64 {
		return false
	}
	a, ok := edDecode(pub)
	if !ok {
		return false
	}
	s := edScalar(sig[32:])
	if s.Cmp(edN) >= 0 {
		return false
	}
	h := sha512.Sum512(cat(sig[:32], pub, msg))
	k := edScalar(h[:])
	k.Mod(k, edN)
	// R = sB - kA
	na := edPt{new(big.Int).Sub(edP, a.x), a.y, a.z, new(big.Int).Sub(edP, a.t)}
	r := edAdd(edMul(edG, s), edMul(na, k))
	return string(edEncode(r)) == string(sig[:32])
}
