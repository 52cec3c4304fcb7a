//go:build go1.22

package main

// Independent reference implementations of codecs, checksums and hashes.

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"math/big"
	"math/bits"
	"strings"

	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"
)

func rSha256(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
func rSha512(b []byte) []byte { h := sha512.Sum512(b); return h[:] }
func rDsha(b []byte) []byte   { return rSha256(rSha256(b)) }
func rRmd(b []byte) []byte    { h := ripemd160.New(); h.Write(b); return h.Sum(nil) }
func rH160(b []byte) []byte   { return rRmd(rSha256(b)) }
func rKeccak(b []byte) []byte { h := sha3.NewLegacyKeccak256(); h.Write(b); return h.Sum(nil) }
func rSha3(b []byte) []byte   { h := sha3.Sum256(b); return h[:] }
func rBlake2b(n int, b []byte) []byte {
	h, err := blake2b.New(n, nil)
	if err != nil {
		panic(err)
	}
	h.Write(b)
	return h.Sum(nil)
}

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

func rev(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

func le16(v uint16) []byte { b := make([]byte, 2); binary.LittleEndian.PutUint16(b, v); return b }
func le32(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }
func le64(v uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, v); return b }
func be16(v uint16) []byte { b := make([]byte, 2); binary.BigEndian.PutUint16(b, v); return b }
func be32(v uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, v); return b }
func be64(v uint64) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, v); return b }

const b58btc = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
const b58xrp = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
const bechAlpha = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func rB58(b []byte, alpha string) string {
	z := 0
	for z < len(b) && b[z] == 0 {
		z++
	}
	n := new(big.Int).SetBytes(b)
	m := new(big.Int)
	var o []byte
	k := big.NewInt(58)
	for n.Sign() > 0 {
		n.DivMod(n, k, m)
		o = append(o, alpha[m.Int64()])
	}
	for i := 0; i < z; i++ {
		o = append(o, alpha[0])
	}
	return string(rev(o))
}

func rUnB58(s, alpha string) ([]byte, bool) {
	n := new(big.Int)
	k := big.NewInt(58)
	z := 0
	lead := true
	for _, c := range []byte(s) {
		i := strings.IndexByte(alpha, c)
		if i < 0 {
			return nil, false
		}
		if lead && i == 0 {
			z++
		} else {
			lead = false
		}
		n.Mul(n, k)
		n.Add(n, big.NewInt(int64(i)))
	}
	return append(make([]byte, z), n.Bytes()...), true
}

func rB58Check(prefix, payload []byte) string {
	d := cat(prefix, payload)
	return rB58(cat(d, rDsha(d)[:4]), b58btc)
}

// to 5-bit groups, zero padded
func rTo5(b []byte) []byte {
	var out []byte
	acc, n := 0, 0
	for _, x := range b {
		acc = acc<<8 | int(x)
		n += 8
		for n >= 5 {
			n -= 5
			out = append(out, byte(acc>>n)&31)
			acc &= 1<<n - 1
		}
	}
	if n > 0 {
		out = append(out, byte(acc<<(5-n))&31)
	}
	return out
}

// from 5-bit groups, strict padding
func rFrom5(b []byte) ([]byte, bool) {
	var out []byte
	acc, n := 0, 0
	for _, x := range b {
		acc = acc<<5 | int(x)
		n += 5
		if n >= 8 {
			n -= 8
			out = append(out, byte(acc>>n))
			acc &= 1<<n - 1
		}
	}
	return out, n < 5 && acc == 0
}

func rBechPoly(v []byte) uint32 {
	gen := []uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	c := uint32(1)
	for _, x := range v {
		t := c >> 25
		c = (c&0x1ffffff)<<5 ^ uint32(x)
		for i := 0; i < 5; i++ {
			if t>>i&1 == 1 {
				c ^= gen[i]
			}
		}
	}
	return c
}

func rHrp(h string) []byte {
	var o []byte
	for _, c := range []byte(h) {
		o = append(o, c>>5)
	}
	o = append(o, 0)
	for _, c := range []byte(h) {
		o = append(o, c&31)
	}
	return o
}

// rBech encodes 5-bit groups under the bech32 (k=1) or bech32m constant.
func rBech(hrp string, five []byte, k uint32) string {
	m := rBechPoly(cat(rHrp(hrp), five, make([]byte, 6))) ^ k
	s := hrp + "1"
	for _, x := range five {
		s += bechAlpha[x : x+1]
	}
	for i := 0; i < 6; i++ {
		x := m >> (5 * (5 - i)) & 31
		s += bechAlpha[x : x+1]
	}
	return s
}

// rUnBech splits a bech32/bech32m text. It follows BIP173.
func rUnBech(s string, k uint32) (hrp string, five []byte, ok bool) {
	for _, c := range []byte(s) {
		if c < 33 || c > 126 {
			return
		}
	}
	if strings.ToLower(s) != s && strings.ToUpper(s) != s {
		return
	}
	s = strings.ToLower(s)
	p := strings.LastIndexByte(s, '1')
	if p < 1 || len(s)-p-1 < 6 {
		return
	}
	hrp = s[:p]
	for _, c := range []byte(hrp) {
		if c < 33 || c > 126 {
			return
		}
	}
	for _, c := range []byte(s[p+1:]) {
		i := strings.IndexByte(bechAlpha, c)
		if i < 0 {
			return
		}
		five = append(five, byte(i))
	}
	if rBechPoly(cat(rHrp(hrp), five)) != k {
		return
	}
	return hrp, five[:len(five)-6], true
}

const kBech32, kBech32m = uint32(1), uint32(0x2bc830a3)

// rSegwit is the native witness address.
func rSegwit(hrp string, ver byte, prog []byte) string {
	return rBech(hrp, cat([]byte{ver}, rTo5(prog)), kBech32)
}

func rCashPoly(v []byte) uint64 {
	c := uint64(1)
	for _, d := range v {
		c0 := byte(c >> 35)
		c = (c&0x07ffffffff)<<5 ^ uint64(d)
		for i, g := range []uint64{0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470} {
			if c0>>i&1 == 1 {
				c ^= g
			}
		}
	}
	return c ^ 1
}

// rCash is the cashaddr of a version byte and hash.
func rCash(prefix string, payload []byte) string {
	var pre []byte
	for _, c := range []byte(prefix) {
		pre = append(pre, c&31)
	}
	pre = append(pre, 0)
	five := rTo5(payload)
	m := rCashPoly(cat(pre, five, make([]byte, 8)))
	s := prefix + ":"
	for _, x := range five {
		s += bechAlpha[x : x+1]
	}
	for i := 0; i < 8; i++ {
		x := m >> (5 * (7 - i)) & 31
		s += bechAlpha[x : x+1]
	}
	return s
}

// ---------------------------------------------------------------- BLAKE-256 (BLAKE submission document, 14 rounds)

var rBlakeSigma = [10][16]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}}

var rBlakeU = [16]uint32{0x243F6A88, 0x85A308D3, 0x13198A2E, 0x03707344, 0xA4093822, 0x299F31D0, 0x082EFA98, 0xEC4E6C89,
	0x452821E6, 0x38D01377, 0xBE5466CF, 0x34E90C6C, 0xC0AC29B7, 0xC97C50DD, 0x3F84D5B5, 0xB5470917}

func rBlakeX(msg, salt []byte, is224 bool) []byte {
	h := [8]uint32{0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19}
	if is224 {
		h = [8]uint32{0xC1059ED8, 0x367CD507, 0x3070DD17, 0xF70E5939, 0xFFC00B31, 0x68581511, 0x64F98FA7, 0xBEFA4FA4}
	}
	var s [4]uint32
	for i := range s {
		if salt != nil {
			s[i] = binary.BigEndian.Uint32(salt[4*i:])
		}
	}
	total := uint64(len(msg)) * 8
	p := append([]byte{}, msg...)
	p = append(p, 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	if !is224 {
		p[len(p)-1] |= 1
	}
	p = append(p, be64(total)...)
	for off := 0; off < len(p); off += 64 {
		// message bits up to and including this block, or 0 when the block has none
		var t uint64
		if uint64(off)*8 < total {
			t = min(total, uint64(off+64)*8)
		}
		var m [16]uint32
		for i := range m {
			m[i] = binary.BigEndian.Uint32(p[off+4*i:])
		}
		var v [16]uint32
		copy(v[:8], h[:])
		for i := 0; i < 4; i++ {
			v[8+i] = s[i] ^ rBlakeU[i]
		}
		v[12] = uint32(t) ^ rBlakeU[4]
		v[13] = uint32(t) ^ rBlakeU[5]
		v[14] = uint32(t>>32) ^ rBlakeU[6]
		v[15] = uint32(t>>32) ^ rBlakeU[7]
		for r := 0; r < 14; r++ {
			sg := rBlakeSigma[r%10]
			g := func(a, b, c, d, i int) {
				v[a] += v[b] + (m[sg[2*i]] ^ rBlakeU[sg[2*i+1]])
				v[d] = bits.RotateLeft32(v[d]^v[a], -16)
				v[c] += v[d]
				v[b] = bits.RotateLeft32(v[b]^v[c], -12)
				v[a] += v[b] + (m[sg[2*i+1]] ^ rBlakeU[sg[2*i]])
				v[d] = bits.RotateLeft32(v[d]^v[a], -8)
				v[c] += v[d]
				v[b] = bits.RotateLeft32(v[b]^v[c], -7)
			}
			g(0, 4, 8, 12, 0)
			g(1, 5, 9, 13, 1)
			g(2, 6, 10, 14, 2)
			g(3, 7, 11, 15, 3)
			g(0, 5, 10, 15, 4)
			g(1, 6, 11, 12, 5)
			g(2, 7, 8, 13, 6)
			g(3, 4, 9, 14, 7)
		}
		for i := 0; i < 8; i++ {
			h[i] ^= s[i%4] ^ v[i] ^ v[i+8]
		}
	}
	var o []byte
	for _, x := range h {
		o = append(o, be32(x)...)
	}
	if is224 {
		o = o[:28]
	}
	return o
}

func rBlake256(b []byte) []byte  { return rBlakeX(b, nil, false) }
func rDBlake256(b []byte) []byte { return rBlake256(rBlake256(b)) }

func rChecksum(kind string, d []byte) []byte {
	switch kind {
	case "doubleSHA256":
		return rDsha(d)[:4]
	case "doubleBlake256":
		return rDBlake256(d)[:4]
	case "keccak256":
		return rKeccak(d)[:4]
	case "sha3_256":
		return rSha3(d)[:4]
	case "blake2b_and_keccak256_first_twenty":
		return rKeccak(rBlake2b(32, d))[:4]
	case "ripemd160":
		return rRmd(d)[:4]
	}
	return nil
}

func rHashOf(kind string, d []byte) []byte {
	switch kind {
	case "h160":
		return rH160(d)
	case "blake2b160":
		return rBlake2b(20, d)
	case "ripemd160":
		return rRmd(d)
	case "sha3_256_ripemd160":
		return rRmd(rSha3(d))
	case "keccak256_ripemd160":
		return rRmd(rKeccak(d))
	case "keccak256":
		return rKeccak(d)
	case "sha3_256_last_twenty":
		return rSha3(d)[12:]
	case "keccak256_last_twenty":
		return rKeccak(d)[12:]
	case "blake2b_and_keccak256_first_twenty":
		return rKeccak(rBlake2b(32, d))[:20]
	}
	return nil
}

// rXmrB58 is the block-wise base58 of Monero.
func rXmrB58(b []byte) string {
	width := []int{0, 2, 3, 5, 6, 7, 9, 10, 11}
	s := ""
	for len(b) > 0 {
		n := min(8, len(b))
		v := new(big.Int).SetBytes(b[:n])
		var o []byte
		m := new(big.Int)
		for i := 0; i < width[n]; i++ {
			v.DivMod(v, big.NewInt(58), m)
			o = append(o, b58btc[m.Int64()])
		}
		s += string(rev(o))
		b = b[n:]
	}
	return s
}

var _ = hex.EncodeToString
