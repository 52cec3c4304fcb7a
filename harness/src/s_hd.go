//go:build go1.22

package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math/big"
	"strings"

	owk "github.com/blocktree/go-owcdrivers/owkeychain"
	"github.com/blocktree/go-owcrypt"
)

// ---------------------------------------------------------------- reference

type hdCurve struct {
	name string
	id   uint32
	kind string // w, bls, pasta, ed
	c    *wCurve
}

var hdCurves = []*hdCurve{
	{"secp256k1", owcrypt.ECC_CURVE_SECP256K1, "w", cK1},
	{"secp256r1", owcrypt.ECC_CURVE_SECP256R1, "w", cR1},
	{"sm2", owcrypt.ECC_CURVE_SM2_STANDARD, "w", cSM2},
	{"ed25519", owcrypt.ECC_CURVE_ED25519, "ed", nil},
	{"x25519", owcrypt.ECC_CURVE_X25519, "ed", nil},
	{"curve25519sha256", owcrypt.ECC_CURVE_CURVE25519_SHA256, "ed", nil},
	{"bls-nul", owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL, "bls", cBLS},
	{"bls-aug", owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG, "bls", cBLS},
	{"pasta", owcrypt.ECC_CURVE_PASTA, "pasta", cPallas},
}

func hdByID(id uint32) *hdCurve {
	for _, c := range hdCurves {
		if c.id == id {
			return c
		}
	}
	return nil
}

// rKey is the reference extended key.
type rKey struct {
	cv    *hdCurve
	depth byte
	fp    []byte
	ser   uint32
	chain []byte
	key   []byte
	priv  bool
}

func (k *rKey) String() string {
	return fmt.Sprintf("{%s depth=%d fp=%x index=%d chain=%x key=%x private=%v}", k.cv.name, k.depth, k.fp, k.ser, k.chain, k.key, k.priv)
}

func (c *hdCurve) pub(key []byte) []byte {
	if c.kind == "ed" {
		return edEncode(edMul(edG, edScalar(key)))
	}
	x, y := c.c.base(new(big.Int).SetBytes(key))
	if x == nil {
		return nil
	}
	return c.c.comp(x, y)
}

func rRoot(seed []byte, c *hdCurve) *rKey {
	i := rSha512(seed)
	switch c.kind {
	case "ed":
		i[0] &= 248
		i[31] &= 63
		i[31] |= 64
	case "bls":
		if i[0] > 0x72 {
			i[0] = 0x72
		}
	case "pasta":
		i[0] &= 3
	}
	return &rKey{cv: c, fp: make([]byte, 4), chain: i[32:], key: i[:32], priv: true}
}

func (k *rKey) neuter() *rKey {
	if !k.priv {
		return k
	}
	n := *k
	n.priv = false
	n.key = k.cv.pub(k.key)
	return &n
}

func (k *rKey) i(ser uint32, pub []byte) []byte {
	data := pub
	if ser >= 1<<31 {
		data = k.key
	}
	h := hmac.New(sha512.New, k.chain)
	if len(data) == 32 {
		h.Write([]byte{0})
	}
	h.Write(data)
	h.Write(be32(ser))
	i := h.Sum(nil)
	switch k.cv.kind {
	case "bls":
		if i[0] > 0x72 {
			i[0] = 0x72
		}
	case "pasta":
		i[0], i[1], i[2] = 0, 0, 0
	}
	return i
}

// childKey combines il with a private key.
func (c *hdCurve) childKey(il, key []byte) []byte {
	if c.kind == "ed" {
		v := new(big.Int).SetBytes(rev(il[:28]))
		v.Lsh(v, 3).Add(v, edScalar(key))
		return rev(v.FillBytes(make([]byte, 32)))
	}
	v := new(big.Int).SetBytes(il)
	if v.Cmp(c.c.n) >= 0 || v.Sign() == 0 {
		return nil
	}
	v.Add(v, new(big.Int).SetBytes(key)).Mod(v, c.c.n)
	if v.Sign() == 0 {
		return nil
	}
	return v.FillBytes(make([]byte, 32))
}

func (k *rKey) child(ser uint32) *rKey {
	pub := k.neuter().key
	i := k.i(ser, pub)
	n := &rKey{cv: k.cv, depth: k.depth + 1, fp: rH160(pub)[:4], ser: ser, chain: i[32:], priv: k.priv}
	if k.priv {
		n.key = k.cv.childKey(i[:32], k.key)
		if n.key == nil {
			return nil
		}
		return n
	}
	if k.cv.kind == "ed" {
		v := new(big.Int).SetBytes(rev(i[:28]))
		v.Lsh(v, 3)
		p, ok := edDecode(k.key)
		if !ok {
			return nil
		}
		n.key = edEncode(edAdd(edMul(edG, v), p))
		return n
	}
	c := k.cv.c
	x, y, ok := c.decomp(k.key)
	if !ok {
		return nil
	}
	px, py := c.affine(c.add(c.mul(c.g(), new(big.Int).SetBytes(i[:32])), jac{x, y, big.NewInt(1)}))
	if px == nil {
		return nil
	}
	n.key = c.comp(px, py)
	return n
}

var (
	owprv    = []byte{0x07, 0xa8, 0x10, 0x0c, 0x28}
	owpub    = []byte{0x07, 0xa8, 0x10, 0x31, 0xa2}
	owpubBLS = []byte{0x3e, 0x00, 0xfa, 0xea, 0x69}
)

func (k *rKey) payload() []byte {
	d := cat(be32(k.cv.id), []byte{k.depth}, k.fp, be32(k.ser), k.chain)
	if k.priv || k.cv.kind == "ed" {
		d = append(d, 0)
	}
	return append(d, k.key...)
}

func (k *rKey) prefix() []byte {
	if k.priv {
		return owprv
	}
	if k.cv.kind == "bls" {
		return owpubBLS
	}
	return owpub
}

func (k *rKey) text() string { return rB58Check(k.prefix(), k.payload()) }

// parseKey reads the text form with the reference codec.
func parseKey(s string) (*rKey, error) {
	b, ok := rUnB58(s, b58btc)
	if !ok || len(b) < 5+45+4 {
		return nil, fmt.Errorf("not base58 or too short: %q", s)
	}
	if !bytes.Equal(rDsha(b[:len(b)-4])[:4], b[len(b)-4:]) {
		return nil, fmt.Errorf("bad checksum")
	}
	d := b[5 : len(b)-4]
	k := &rKey{cv: hdByID(binary.BigEndian.Uint32(d)), depth: d[4], fp: d[5:9], ser: binary.BigEndian.Uint32(d[9:]), chain: d[13:45]}
	if k.cv == nil {
		return nil, fmt.Errorf("unknown curve %x", d[:4])
	}
	k.priv = bytes.Equal(b[:5], owprv)
	if !k.priv && !bytes.Equal(b[:5], owpub) && !bytes.Equal(b[:5], owpubBLS) {
		return nil, fmt.Errorf("prefix %x", b[:5])
	}
	rest := d[45:]
	if k.priv || k.cv.kind == "ed" {
		if len(rest) < 1 || rest[0] != 0 {
			return nil, fmt.Errorf("key pad")
		}
		rest = rest[1:]
	}
	k.key = rest
	return k, nil
}

func (t *T) obs(k *owk.ExtendedKey) *rKey {
	if k == nil {
		t.Failf("nil key without error")
	}
	var s string
	t.Do("OWEncode", func() { s = k.OWEncode() })
	r, err := parseKey(s)
	if err != nil {
		t.Failf("text form of a key not readable: %s: %v", s, err)
	}
	return r
}

func (a *rKey) eq(b *rKey) bool {
	return a.cv == b.cv && a.depth == b.depth && bytes.Equal(a.fp, b.fp) && a.ser == b.ser && bytes.Equal(a.chain, b.chain) && bytes.Equal(a.key, b.key) && a.priv == b.priv
}

func (k *rKey) real() *owk.ExtendedKey {
	return owk.NewExtendedKey(append([]byte{}, k.key...), append([]byte{}, k.chain...), append([]byte{}, k.fp...), k.depth, k.ser, k.priv, k.cv.id)
}

// ---------------------------------------------------------------- generation

func (t *T) hdCurve() *hdCurve { return hdCurves[(t.idx+t.Intn(2)*t.Intn(9))%len(hdCurves)] }

func (t *T) seed() []byte {
	n := []int{16, 17, 20, 24, 32, 33, 48, 63, 64}[t.Intn(9)]
	if t.Bool() {
		n = 16 + t.Intn(49)
	}
	return t.B(n)
}

func (t *T) hdIndex() uint32 {
	switch t.Intn(5) {
	case 0:
		return uint32(t.Intn(4))
	case 1:
		return 1<<31 - 1 - uint32(t.Intn(3))
	case 2:
		return t.U32() & (1<<31 - 1)
	}
	return t.Uint32() & (1<<31 - 1)
}

// privScalar is a valid private key of the curve, including short values and
// values next to the order.
func (t *T) privScalar(c *hdCurve) []byte {
	if c.kind == "ed" {
		b := t.Raw(32)
		if t.P(20) {
			n := t.Intn(20)
			for i := 31 - n; i < 32; i++ {
				b[i] = 0
			}
			b[0] |= 8
		} else if t.P(20) { // a scalar that was never clamped
			b[31] &= 127
		} else {
			b[31] = b[31]&63 | 64
		}
		b[0] &= 248
		return b
	}
	n := c.c.n
	v := new(big.Int)
	switch t.Intn(5) {
	case 0:
		v.SetInt64(int64(1 + t.Intn(300)))
	case 1:
		v.Sub(n, big.NewInt(int64(1+t.Intn(300))))
	case 2:
		v.SetBytes(t.B(1 + t.Intn(32)))
	default:
		v.SetBytes(t.Raw(32))
	}
	if c.kind == "pasta" {
		// the driver adds without reduction: stay where the sum is in range
		v.SetBit(v.Rsh(v, 4), 0, 1)
	}
	v.Mod(v, n)
	if v.Sign() == 0 {
		v.SetInt64(1)
	}
	return v.FillBytes(make([]byte, 32))
}

func (t *T) privKey(c *hdCurve) *rKey {
	if t.P(40) {
		return rRoot(t.seed(), c)
	}
	k := &rKey{cv: c, key: t.privScalar(c), chain: t.B(32), fp: t.B(4), priv: true, ser: t.U32()}
	k.depth = byte(t.Intn(256))
	if t.P(50) {
		k.depth = byte(t.Intn(6))
	}
	return k
}

// zeroIndex looks for an index whose private child starts with zero bytes.
func (t *T) zeroIndex(k *rKey, hardened bool) (uint32, bool) {
	if k.cv.kind == "ed" || k.cv.kind == "pasta" {
		return 0, false
	}
	pub := k.neuter().key
	start := t.Uint32() & (1<<31 - 1)
	for n := uint32(0); n < 140000; n++ {
		ser := (start + n) & (1<<31 - 1)
		if hardened {
			ser |= 1 << 31
		}
		i := k.i(ser, pub)
		ck := k.cv.childKey(i[:32], k.key)
		if ck != nil && ck[0] == 0 && ck[1] == 0 {
			return ser, true
		}
	}
	return 0, false
}

func (t *T) mustChild(api string, want *rKey, f func() (*owk.ExtendedKey, error)) *owk.ExtendedKey {
	var k *owk.ExtendedKey
	var err error
	t.Do(api, func() { k, err = f() })
	if err != nil {
		t.Failf("%s refused a derivation that is defined: %v (want %v)", api, err, want)
	}
	got := t.obs(k)
	if !got.eq(want) {
		t.Failf("%s gave %v, want %v", api, got, want)
	}
	return k
}

func pathOf(ix []uint32, spaces bool) string {
	var s []string
	for _, v := range ix {
		if v >= 1<<31 {
			s = append(s, fmt.Sprintf("%d'", v-1<<31))
		} else {
			s = append(s, fmt.Sprintf("%d", v))
		}
	}
	p := strings.Join(s, "/")
	if spaces {
		p = strings.Replace(p, "/", " / ", -1)
	}
	return p
}

// pathText writes an element with leading zeros now and then.
func (t *T) pathText(p string) string {
	if !t.P(15) {
		return p
	}
	el := strings.Split(p, "/")
	i := 1 + t.Intn(len(el)-1)
	el[i] = strings.TrimLeft(el[i], " ")
	el[i] = strings.Repeat("0", 1+t.Intn(3)) + el[i]
	return strings.Join(el, "/")
}

func init() {
	propInfo["C03"] = PropInfo{
		Rule:        "Every case picks a curve (all nine), an extended private key (from a seed, or constructed with small, near-order and random scalars at any depth) and a sequence of indices; the private chain, the public chain and the mixed chain are walked step by step through the real API, optionally through the text form between steps, and all fields of the three keys seen at each step are compared. One suite searches indices until a child key starts with two zero bytes.",
		Assumptions: []string{"index search for short keys stops at two leading zero bytes", "text form is readable by the reference codec"},
	}
	propInfo["C04"] = PropInfo{
		Rule:        "Each observed key (root, hardened and normal private child, public child of private and public parents, path, coin root, derived key bytes) is compared field by field with an independent math/big implementation of the derivation.",
		Assumptions: []string{"children whose key material falls outside the group order (probability below 2^-31) are not reached", "ED25519_NORMAL is not an HD curve of this package (its base multiplication is undefined) and is not driven"},
	}
	propInfo["C05"] = PropInfo{
		Rule:        "Requests that the derivation cannot satisfy are made on random keys of every curve: hardened from public, private from public, depth 255, seeds of every refused length, path texts with bad syntax, signs, letters and out-of-range indices; each must give an error and no key.",
		Assumptions: []string{"un-hardened path elements from 2^31 to 2^32-1 are not judged (the code reads them as hardened indices)"},
	}
	propInfo["C06"] = PropInfo{
		Rule:        "Random extended keys of every curve and kind are written by the real encoder, compared with the reference text, read back and compared; altered texts (every single character position over the cases, length changes, other checksummed lengths, prefix swaps) must be refused.",
		Assumptions: []string{"a 4-byte checksum collides with probability 2^-32 per altered text", "owchain share text has no checksum: only its round trip, length and prefix are judged"},
	}

	reg(&Suite{Prop: "C03", Name: "hd-agree", Pkg: "owkeychain", Quick: 1600, Run: func(t *T) { hdAgree(t, nil) }})
	reg(&Suite{Prop: "C03", Name: "hd-agree-short", Pkg: "owkeychain", Quick: 150, Deep: 1500, Run: func(t *T) {
		c := hdCurves[[]int{0, 1, 2, 6}[t.idx%4]]
		k := t.privKey(c)
		if k.depth > 250 {
			k.depth = 3
		}
		ser, ok := t.zeroIndex(k, false)
		if !ok {
			t.trivial = true
			return
		}
		t.Shape("%s short child found", c.name)
		hdAgreeFrom(t, k, []uint32{ser, t.hdIndex()})
	}})
	reg(&Suite{Prop: "C04", Name: "hd-reference", Pkg: "owkeychain", Quick: 2400, Run: hdReference})
	reg(&Suite{Prop: "C04", Name: "hd-reference-short", Pkg: "owkeychain", Quick: 150, Deep: 1500, Run: func(t *T) {
		c := hdCurves[[]int{0, 1, 2, 6}[t.idx%4]]
		k := t.privKey(c)
		if k.depth > 250 {
			k.depth = 3
		}
		ser, ok := t.zeroIndex(k, t.Bool())
		if !ok {
			t.trivial = true
			return
		}
		t.Shape("%s short child hardened=%v", c.name, ser >= 1<<31)
		t.Fp(c.name, k.key, ser)
		want := k.child(ser)
		ch := t.mustChild("GenPrivateChild", want, func() (*owk.ExtendedKey, error) { return k.real().GenPrivateChild(ser) })
		var b []byte
		t.Do("GetPrivateKeyBytes", func() { b, _ = ch.GetPrivateKeyBytes() })
		t.Check(bytes.Equal(b, want.key), "private key bytes %x, want %x", b, want.key)
		next := uint32(1<<31) + uint32(t.Intn(3))
		t.mustChild("GenPrivateChild", want.child(next), func() (*owk.ExtendedKey, error) { return ch.GenPrivateChild(next) })
	}})
	reg(&Suite{Prop: "C04", Name: "hd-coin-root", Pkg: "owkeychain", Quick: 500, Run: hdCoin})
	reg(&Suite{Prop: "C05", Name: "hd-refuse-kind", Pkg: "owkeychain", Quick: 3000, Run: hdRefuseKind})
	reg(&Suite{Prop: "C05", Name: "hd-refuse-seed", Pkg: "owkeychain", Quick: 4000, Run: hdRefuseSeed})
	reg(&Suite{Prop: "C05", Name: "hd-refuse-path", Pkg: "owkeychain", Quick: 4000, Run: hdRefusePath})
	reg(&Suite{Prop: "C06", Name: "key-text", Pkg: "owkeychain", Quick: 20000, Run: keyText})
	reg(&Suite{Prop: "C06", Name: "key-tamper", Pkg: "owkeychain", Quick: 20000, Run: keyTamper})
	reg(&Suite{Prop: "C06", Name: "share-text", Pkg: "owkeychain", Quick: 8000, Run: shareText})
}

func hdAgree(t *T, c *hdCurve) {
	if c == nil {
		c = t.hdCurve()
	}
	n := 1 + t.Intn(4)
	ix := make([]uint32, n)
	for i := range ix {
		ix[i] = t.hdIndex()
	}
	k := t.privKey(c)
	if int(k.depth)+n > 255 {
		k.depth = byte(255 - n)
	}
	hdAgreeFrom(t, k, ix)
}

func hdAgreeFrom(t *T, k *rKey, ix []uint32) {
	t.Logf("start %v indices %v", k, ix)
	t.Fp(k.cv.name, k.key, k.chain, ix)
	t.Shape("%s steps=%d", k.cv.name, len(ix))
	priv := k.real()
	var pub *owk.ExtendedKey
	t.Do("GetPublicKey", func() { pub = priv.GetPublicKey() })
	same := func(what string, a, b *owk.ExtendedKey) {
		ka, kb := t.obs(a), t.obs(b)
		if !ka.eq(kb) {
			t.Failf("%s disagree at index path %v: %v vs %v", what, ix, ka, kb)
		}
	}
	// path based
	last := priv
	lastPub := pub
	for si, i := range ix {
		if t.P(30) {
			var e1, e2 error
			t.Do("OWDecode", func() { priv, e1 = owk.OWDecode(last.OWEncode()) })
			t.Do("OWDecode", func() { pub, e2 = owk.OWDecode(lastPub.OWEncode()) })
			if e1 != nil || e2 != nil {
				t.Failf("re-reading the key after step %d: %v %v", si, e1, e2)
			}
			t.Shape("%s reread", k.cv.name)
		} else {
			priv, pub = last, lastPub
		}
		var a, b, c, d *owk.ExtendedKey
		var ea, eb, ec error
		t.Do("GenPrivateChild", func() { a, ea = priv.GenPrivateChild(i) })
		t.Do("GenPublicChild", func() { b, eb = pub.GenPublicChild(i) })
		if ea != nil || eb != nil {
			t.Failf("child %d at step %d: private %v public %v", i, si, ea, eb)
		}
		t.Do("GetPublicKey", func() { d = a.GetPublicKey() })
		same("public of private child and child of public", d, b)
		if t.P(40) {
			t.Do("GenPublicChild/priv", func() { c, ec = priv.GenPublicChild(i) })
			t.Check(ec == nil, "public child of a private key: %v", ec)
			same("public child of private key and child of public key", c, b)
		}
		ka, kb := t.obs(a), t.obs(b)
		t.Check(ka.priv && !kb.priv, "kinds of the children: %v %v", ka.priv, kb.priv)
		t.Check(ka.depth == kb.depth && ka.ser == kb.ser && bytes.Equal(ka.fp, kb.fp) && bytes.Equal(ka.chain, kb.chain), "fields of the two children differ: %v vs %v", ka, kb)
		var pa, pb []byte
		t.Do("GetPublicKeyBytes", func() { pa, pb = a.GetPublicKeyBytes(), b.GetPublicKeyBytes() })
		t.Check(bytes.Equal(pa, pb), "GetPublicKeyBytes of the two children: %x vs %x", pa, pb)
		t.Check(bytes.Equal(pb, kb.key), "GetPublicKeyBytes %x is not the key %x", pb, kb.key)
		if k.cv.kind == "w" || k.cv.kind == "pasta" {
			var ua, ub []byte
			t.Do("GetUncompressedPublicKeyBytes", func() { ua, ub = a.GetUncompressedPublicKeyBytes(), b.GetUncompressedPublicKeyBytes() })
			t.Check(bytes.Equal(ua, ub), "uncompressed public keys differ: %x vs %x", ua, ub)
			t.Check(len(ua) == 64, "uncompressed public key has %d bytes", len(ua))
			if len(pb) == 33 {
				t.Check(bytes.Equal(ua[:32], pb[1:]) && ua[63]&1 == pb[0]&1, "uncompressed key %x does not compress to %x", ua, pb)
				x, y := new(big.Int).SetBytes(ua[:32]), new(big.Int).SetBytes(ua[32:])
				t.Check(k.cv.c.onCurve(x, y), "uncompressed key is not on the curve: %x", ua)
			}
		}
		last, lastPub = a, b
	}
	p := t.pathText("/" + pathOf(ix, t.P(20)))
	var x, y *owk.ExtendedKey
	var ex, ey error
	t.Do("DerivedPublicKeyFromPath", func() { x, ex = k.neuter().real().DerivedPublicKeyFromPath(p) })
	t.Check(ex == nil, "path %q from public: %v", p, ex)
	same("path and step by step (public)", x, lastPub)
	if t.P(30) && len(ix) == 1 {
		t.Do("DerivedPublicKeyFromPath/priv", func() { y, ey = k.real().DerivedPublicKeyFromPath(p) })
		t.Check(ey == nil, "path %q from private: %v", p, ey)
		same("path from private and public", y, lastPub)
		t.Do("DerivedPublicKeyFromSerializes", func() { y, ey = k.neuter().real().DerivedPublicKeyFromSerializes(ix[0]) })
		t.Check(ey == nil, "index %d: %v", ix[0], ey)
		same("by index and by path", y, lastPub)
	}
}

func hdReference(t *T) {
	c := t.hdCurve()
	switch t.Intn(4) {
	case 0: // root
		seed := t.seed()
		t.Fp("root", c.name, seed)
		t.Shape("root %s len=%d", c.name, len(seed))
		t.Logf("seed %x curve %s", seed, c.name)
		t.mustChild("InitRootKeyFromSeed", rRoot(seed, c), func() (*owk.ExtendedKey, error) { return owk.InitRootKeyFromSeed(seed, c.id) })
	case 1: // full path
		seed := t.seed()
		n := t.Intn(4)
		var ix []uint32
		for i := 0; i < n; i++ {
			v := t.hdIndex()
			if t.Bool() {
				v |= 1 << 31
			}
			ix = append(ix, v)
		}
		p := "m"
		if n > 0 {
			p = t.pathText("m/" + pathOf(ix, t.P(20)))
		} else {
			p = t.Str("m", "/", "", " m ")
		}
		if t.P(20) && n > 0 {
			p = strings.Replace(p, "/", " / ", -1)
		}
		want := rRoot(seed, c)
		for _, v := range ix {
			want = want.child(v)
		}
		t.Fp("path", c.name, seed, p)
		t.Shape("path %s n=%d", c.name, n)
		t.Logf("seed %x curve %s path %q", seed, c.name, p)
		k := t.mustChild("DerivedPrivateKeyWithPath", want, func() (*owk.ExtendedKey, error) { return owk.DerivedPrivateKeyWithPath(seed, p, c.id) })
		var b []byte
		var err error
		t.Do("GetPrivateKeyBytes", func() { b, err = k.GetPrivateKeyBytes() })
		t.Check(err == nil && bytes.Equal(b, want.key), "private bytes %x err %v", b, err)
	case 2: // private child
		k := t.privKey(c)
		if k.depth == 255 {
			k.depth = 254
		}
		ser := t.hdIndex()
		if t.Bool() {
			ser |= 1 << 31
		}
		t.Fp("priv", c.name, k.key, ser)
		t.Shape("private child %s hardened=%v", c.name, ser >= 1<<31)
		t.Logf("parent %v index %d", k, ser)
		want := k.child(ser)
		t.mustChild("GenPrivateChild", want, func() (*owk.ExtendedKey, error) { return k.real().GenPrivateChild(ser) })
		t.mustChild("GenPublicChild", want.neuter(), func() (*owk.ExtendedKey, error) { return k.real().GenPublicChild(ser) })
	case 3: // public child
		k := t.privKey(c).neuter()
		if k.depth == 255 {
			k.depth = 254
		}
		ser := t.hdIndex()
		t.Fp("pub", c.name, k.key, ser)
		t.Shape("public child %s", c.name)
		t.Logf("parent %v index %d", k, ser)
		t.mustChild("GenPublicChild", k.child(ser), func() (*owk.ExtendedKey, error) { return k.real().GenPublicChild(ser) })
	}
}

func hdCoin(t *T) {
	seed := t.seed()
	c := hdCurves[0]
	coin, hd := owk.Bitcoin, uint32(0)
	if t.Bool() {
		coin, hd = owk.Ethereum, 1
	}
	t.Fp(seed, hd)
	t.Shape("coin %d", hd)
	t.Logf("seed %x coin index %d", seed, hd)
	root := rRoot(seed, c).child(1<<31 + 44).child(1<<31 + 88).child(hd)
	t.mustChild("GetCoinRootPublicKey", root.neuter(), func() (*owk.ExtendedKey, error) { return owk.GetCoinRootPublicKey(seed, coin) })
	ser := t.hdIndex()
	if t.P(40) {
		ser |= 1 << 31
	}
	want := root.child(ser)
	var b []byte
	var err error
	t.Do("DerivedPrivateKeyBytes", func() { b, err = owk.DerivedPrivateKeyBytes(seed, coin, ser) })
	t.Check(err == nil, "DerivedPrivateKeyBytes index %d: %v", ser, err)
	t.Check(bytes.Equal(b, want.key), "DerivedPrivateKeyBytes index %d gave %x want %x", ser, b, want.key)
	if ser < 1<<31 {
		// the coin root public key must lead to the same address key
		var p *owk.ExtendedKey
		t.Do("GenPublicChild", func() {
			r, e := owk.GetCoinRootPublicKey(seed, coin)
			if e == nil {
				p, err = r.GenPublicChild(ser)
			}
		})
		t.Check(p != nil && err == nil, "child %d of the coin root: %v", ser, err)
		t.Check(bytes.Equal(t.obs(p).key, want.neuter().key), "coin root child %d: %v want %v", ser, t.obs(p), want.neuter())
	}
}

func (t *T) refused(what string, k *owk.ExtendedKey, err error) {
	if err == nil {
		d := ""
		if k != nil {
			d = k.OWEncode()
		}
		t.Failf("%s was answered with a key %s", what, d)
	}
	if k != nil {
		t.Failf("%s gave an error (%v) and a key", what, err)
	}
}

func hdRefuseKind(t *T) {
	c := t.hdCurve()
	k := t.privKey(c)
	var r *owk.ExtendedKey
	var err error
	hard := uint32(1<<31) | uint32(t.hdIndex())
	op := t.Intn(6)
	t.Shape("%s op=%d", c.name, op)
	t.Fp(c.name, op, k.key, hard, k.depth)
	t.Logf("key %v op %d index %d", k, op, hard)
	switch op {
	case 0:
		k = k.neuter()
		t.Do("GenPublicChild", func() { r, err = k.real().GenPublicChild(hard) })
		t.refused("hardened child of a public key", r, err)
	case 1:
		k = k.neuter()
		ser := t.hdIndex()
		if t.Bool() {
			ser = hard
		}
		t.Do("GenPrivateChild", func() { r, err = k.real().GenPrivateChild(ser) })
		t.refused("private child of a public key", r, err)
	case 2:
		k.depth = 255
		ser := t.hdIndex()
		if t.Bool() {
			ser = hard
		}
		t.Do("GenPrivateChild", func() { r, err = k.real().GenPrivateChild(ser) })
		t.refused("private child at depth 255", r, err)
		t.Do("GenPublicChild", func() { r, err = k.real().GenPublicChild(ser) })
		t.refused("public child of a private key at depth 255", r, err)
	case 3:
		k = k.neuter()
		k.depth = 255
		ser := t.hdIndex()
		t.Do("GenPublicChild", func() { r, err = k.real().GenPublicChild(ser) })
		t.refused("public child at depth 255", r, err)
		t.Do("DerivedPublicKeyFromPath", func() { r, err = k.real().DerivedPublicKeyFromPath(fmt.Sprintf("/%d", ser)) })
		t.refused("public path at depth 255", r, err)
	case 4:
		k = k.neuter()
		var b []byte
		t.Do("GetPrivateKeyBytes", func() { b, err = k.real().GetPrivateKeyBytes() })
		t.Check(err != nil && len(b) == 0, "private bytes of a public key: %x, %v", b, err)
	case 5:
		// depth runs out on the way
		k.depth = byte(250 + t.Intn(5))
		n := 255 - int(k.depth)
		var ix []uint32
		for i := 0; i <= n; i++ {
			ix = append(ix, uint32(t.Intn(3)))
		}
		k = k.neuter()
		t.Do("DerivedPublicKeyFromPath", func() { r, err = k.real().DerivedPublicKeyFromPath("/" + pathOf(ix, false)) })
		t.refused("public path beyond the maximum depth", r, err)
	}
}

func hdRefuseSeed(t *T) {
	c := t.hdCurve()
	var r *owk.ExtendedKey
	var err error
	if t.Bool() {
		n := t.Intn(16)
		if t.Bool() {
			n = 65 + t.Intn(200)
		}
		s := t.B(n)
		t.Fp("seed", s, c.name)
		t.Shape("%s seed length %d", c.name, min(n, 80))
		t.Logf("seed %x", s)
		t.Do("InitRootKeyFromSeed", func() { r, err = owk.InitRootKeyFromSeed(s, c.id) })
		t.refused(fmt.Sprintf("a seed of %d bytes", n), r, err)
		t.Do("DerivedPrivateKeyWithPath", func() { r, err = owk.DerivedPrivateKeyWithPath(s, t.Str("m", "m/44'", "m/0"), c.id) })
		t.refused(fmt.Sprintf("a seed of %d bytes", n), r, err)
		t.Do("GetCoinRootPublicKey", func() { r, err = owk.GetCoinRootPublicKey(s, owk.Bitcoin) })
		t.refused(fmt.Sprintf("a seed of %d bytes", n), r, err)
		var b []byte
		t.Do("DerivedPrivateKeyBytes", func() { b, err = owk.DerivedPrivateKeyBytes(s, owk.Ethereum, 0) })
		t.Check(err != nil && len(b) == 0, "derived bytes from a seed of %d bytes: %x %v", n, b, err)
		return
	}
	id := t.Uint32()
	if t.Bool() {
		id = 0xECC00000 + uint32(t.Intn(64))
	}
	if hdByID(id) != nil || id == owcrypt.ECC_CURVE_ED25519_NORMAL {
		id = 0
	}
	s := t.seed()
	t.Fp("curve", id, s)
	t.Shape("unknown curve")
	t.Logf("curve %x seed %x", id, s)
	t.Do("InitRootKeyFromSeed", func() { r, err = owk.InitRootKeyFromSeed(s, id) })
	t.refused(fmt.Sprintf("unknown curve %x", id), r, err)
	t.Do("DerivedPrivateKeyWithPath", func() { r, err = owk.DerivedPrivateKeyWithPath(s, t.Str("m", "m/44'", "m/0"), id) })
	t.refused(fmt.Sprintf("unknown curve %x", id), r, err)
	k := owk.NewExtendedKey(t.B(32), t.B(32), t.B(4), byte(t.Intn(5)), 0, true, id)
	t.Do("GenPrivateChild", func() { r, err = k.GenPrivateChild(t.hdIndex()) })
	t.refused(fmt.Sprintf("child on unknown curve %x", id), r, err)
	t.Do("GenPublicChild", func() { r, err = k.GenPublicChild(t.hdIndex()) })
	t.refused(fmt.Sprintf("child on unknown curve %x", id), r, err)
}

// badElem is a path element that names no index.
func (t *T) badElem() string {
	switch t.Intn(12) {
	case 0:
		return ""
	case 1:
		return "'"
	case 2:
		return fmt.Sprintf("-%d", 1+t.Intn(100))
	case 3:
		return fmt.Sprintf("-%d'", t.Intn(100))
	case 4:
		return fmt.Sprintf("%d''", t.Intn(100))
	case 5:
		return fmt.Sprintf("%d", uint64(1)<<32+t.U64()>>1>>uint(t.Intn(30)))
	case 6:
		return fmt.Sprintf("%d'", uint64(1)<<31+uint64(t.Uint32()))
	case 7:
		return fmt.Sprintf("%s%x%s", t.Str("0x", "0X", "0b", "0o"), t.Intn(2), t.Str("", "'"))
	case 8:
		return fmt.Sprintf("%d%s", t.Intn(100), t.Str("h", "H", "a", ".", ".0", "e1", "\"", "’", "-"))
	case 9:
		return fmt.Sprintf("%s%d", t.Str("a", "m", "'", ".", "#"), t.Intn(100))
	case 10:
		return fmt.Sprintf("1%d'", uint64(18446744073709551615))
	default:
		return t.Str("abc", "m", "M", "*", "'0", "0'0", "\t1", "\n", "1_0", "１", "..", "%31")
	}
}

func hdRefusePath(t *T) {
	c := t.hdCurve()
	if t.P(70) {
		c = hdCurves[0]
	}
	n := 1 + t.Intn(3)
	bad := t.Intn(n)
	var el []string
	for i := 0; i < n; i++ {
		if i == bad {
			el = append(el, t.badElem())
		} else {
			el = append(el, fmt.Sprint(t.Intn(100)))
		}
	}
	body := strings.Join(el, "/")
	var r *owk.ExtendedKey
	var err error
	if t.Bool() {
		p := "m/" + body
		if t.P(25) {
			p = t.Str("M/0", "x/0", "mm/0", "m0", "0/1", "44'/88'", "./0", "m//", "m/0/", "m/0//1", "m'/0", "n", "M", "//", "/0", "/m/0", "n/0/1", "m\\0")
		}
		t.Fp("abs", p, c.name)
		t.Shape("absolute path refused")
		t.Logf("path %q curve %s", p, c.name)
		seed := t.seed()
		t.Do("DerivedPrivateKeyWithPath", func() { r, err = owk.DerivedPrivateKeyWithPath(seed, p, c.id) })
		t.refused(fmt.Sprintf("path %q", p), r, err)
		return
	}
	k := t.privKey(c)
	k.depth = byte(t.Intn(5))
	if t.Bool() {
		k = k.neuter()
	}
	p := "/" + body
	if t.P(25) {
		p = t.Str("", "m/0", "0/1", "/0/", "//0", "/0//1", "m", "/", "0", "./0", "\\0", "1")
	}
	if !k.priv && t.P(15) {
		p = "/" + t.Str("0'", "1'/0", "0/1'", "44'", "2147483647'")
	}
	t.Fp("rel", p, c.name)
	t.Shape("relative path refused")
	t.Logf("path %q key %v", p, k)
	t.Do("DerivedPublicKeyFromPath", func() { r, err = k.real().DerivedPublicKeyFromPath(p) })
	t.refused(fmt.Sprintf("relative path %q", p), r, err)
}

// anyKey is an extended key of any curve and kind with arbitrary fields.
func (t *T) anyKey() *rKey {
	c := t.hdCurve()
	k := &rKey{cv: c, depth: byte(t.Intn(256)), fp: t.B(4), ser: t.U32(), chain: t.B(32), priv: t.Bool()}
	n := 32
	if !k.priv && c.kind != "ed" {
		n = 33
		if c.kind == "bls" {
			n = 48
		}
	}
	k.key = t.B(n)
	if !k.priv {
		switch c.kind {
		case "w", "pasta":
			k.key[0] = byte(2 + t.Intn(2))
		case "bls":
			k.key[0] = k.key[0]&0x3f | 0x80
		}
	}
	return k
}

func keyText(t *T) {
	k := t.anyKey()
	t.Fp(k.String())
	t.Shape("%s private=%v", k.cv.name, k.priv)
	want := k.text()
	var got string
	r := k.real()
	t.Do("OWEncode", func() { got = r.OWEncode() })
	t.Logf("%v -> %s", k, got)
	t.Check(got == want, "text %s, want %s for %v", got, want, k)
	var back *owk.ExtendedKey
	var err error
	t.Do("OWDecode", func() { back, err = owk.OWDecode(got) })
	t.Check(err == nil && back != nil, "its own text %s refused: %v", got, err)
	o := t.obs(back)
	t.Check(o.eq(k), "decoded %v, want %v", o, k)
	var pk []byte
	if k.priv {
		t.Do("GetPrivateKeyBytes", func() { pk, err = back.GetPrivateKeyBytes() })
		t.Check(err == nil && bytes.Equal(pk, k.key), "private bytes after reading back: %x %v", pk, err)
	} else {
		t.Do("GetPublicKeyBytes", func() { pk = back.GetPublicKeyBytes() })
		t.Check(bytes.Equal(pk, k.key), "public bytes after reading back: %x", pk)
		t.Do("GetPrivateKeyBytes", func() { pk, err = back.GetPrivateKeyBytes() })
		t.Check(err != nil, "a public key read back gives private bytes %x", pk)
	}
	// base58check helpers with arbitrary prefix
	pre, data := t.B(t.Intn(8)), t.B(t.Len(0, 80))
	var s string
	var d []byte
	t.Do("Base58checkEncode", func() { s = owk.Base58checkEncode(data, pre) })
	t.Check(s == rB58Check(pre, data), "Base58checkEncode(%x,%x)=%s", data, pre, s)
	t.Do("Base58checkDecode", func() { d, err = owk.Base58checkDecode(s, pre) })
	t.Check(err == nil && bytes.Equal(d, data), "Base58checkDecode(%s,%x)=%x,%v want %x", s, pre, d, err, data)
}

func keyTamper(t *T) {
	k := t.anyKey()
	s := k.text()
	var bad string
	op := t.Intn(6)
	switch op {
	case 0, 1: // one character, all positions over the cases
		p := t.idx % len(s)
		for {
			c := b58btc[t.Intn(58)]
			if c != s[p] {
				bad = s[:p] + string(c) + s[p+1:]
				break
			}
		}
	case 2:
		bad = t.MutateText(s)
	case 3: // re-prefixed text
		pre := []string{"owpub", "owprv", "xprv", "owchain", ""}[t.Intn(5)]
		bad = pre + s[5:]
	case 4: // other lengths with a right checksum
		d := k.payload()
		if t.Bool() {
			n := t.Intn(len(d))
			d = d[:n]
		} else {
			d = append(d, t.Raw(1+t.Intn(40))...)
		}
		bad = rB58Check(k.prefix(), d)
	case 5: // checksummed under a foreign prefix, or a private key whose pad byte is not zero
		if k.priv || k.cv.kind == "ed" {
			d := k.payload()
			d[45] = byte(1 + t.Intn(255))
			bad = rB58Check(k.prefix(), d)
		} else {
			p := append([]byte{}, k.prefix()...)
			p[t.Intn(5)] ^= byte(1 << uint(t.Intn(8)))
			bad = rB58Check(p, k.payload())
		}
	}
	if bad == s {
		t.trivial = true
		return
	}
	t.Fp(bad)
	t.Shape("%s private=%v op=%d", k.cv.name, k.priv, op)
	t.Logf("original %s altered %s", s, bad)
	var r *owk.ExtendedKey
	var err error
	t.Do("OWDecode", func() { r, err = owk.OWDecode(bad) })
	t.refused(fmt.Sprintf("altered key text %q (from %q, op %d)", bad, s, op), r, err)
	if op == 0 {
		var m string
		t.Do("GetMultiSigShareData", func() { m, err = owk.GetMultiSigShareData(bad) })
		t.Check(err != nil && m == "", "share data from altered key text %q: %q %v", bad, m, err)
	}
	pre, data := t.B(t.Intn(8)), t.B(t.Len(0, 60))
	x := rB58Check(pre, data)
	y := t.MutateText(x)
	yb, ok := rUnB58(y, b58btc)
	valid := ok && len(yb) >= len(pre)+4 && bytes.HasPrefix(yb, pre) && bytes.Equal(rDsha(yb[:len(yb)-4])[:4], yb[len(yb)-4:])
	if !valid {
		var d []byte
		t.Do("Base58checkDecode", func() { d, err = owk.Base58checkDecode(y, pre) })
		t.Check(err != nil, "Base58checkDecode(%q,%x) gave %x, no error", y, pre, d)
	}
}

func shareText(t *T) {
	k := t.anyKey()
	for k.cv.kind == "bls" {
		t.idx++
		k = t.anyKey()
	}
	k.priv = false
	if k.cv.kind == "ed" {
		k.key = t.B(32)
	} else {
		k.key = t.B(33)
		k.key[0] = byte(2 + t.Intn(2))
	}
	ms := owk.MultiSigShare{Pubkey: k.key, ChainCode: k.chain, CurveType: k.cv.id}
	body := cat([]byte{0x08, 0x61, 0x24, 0x96, 0x12, 0xae, 0x5c})
	if len(k.key) == 32 {
		body = append(body, 0)
	}
	body = cat(body, k.key, k.chain, be32(k.cv.id))
	want := rB58(body, b58btc)
	var got string
	t.Fp(body)
	t.Shape("%s", k.cv.name)
	t.Do("ChianEncode", func() { got = ms.ChianEncode() })
	t.Logf("%x -> %s", body, got)
	t.Check(got == want, "share text %s want %s", got, want)
	var back *owk.MultiSigShare
	var err error
	t.Do("ChainDecode", func() { back, err = owk.ChainDecode(got) })
	t.Check(err == nil && back != nil, "share text %s refused: %v", got, err)
	t.Check(bytes.Equal(back.Pubkey, k.key) && bytes.Equal(back.ChainCode, k.chain) && back.CurveType == k.cv.id, "share decoded as %x %x %x", back.Pubkey, back.ChainCode, back.CurveType)
	var m string
	t.Do("GetMultiSigShareData", func() { m, err = owk.GetMultiSigShareData(k.text()) })
	t.Check(err == nil && m == want, "share of %s is %s (%v), want %s", k.text(), m, err, want)
	if t.P(30) {
		p := *k
		p.priv = true
		p.key = t.privScalar(k.cv)
		pb := cat(body[:7])
		pub := k.cv.pub(p.key)
		if len(pub) == 32 {
			pb = append(pb, 0)
		}
		pb = cat(pb, pub, k.chain, be32(k.cv.id))
		t.Do("GetMultiSigShareData/priv", func() { m, err = owk.GetMultiSigShareData(p.text()) })
		t.Check(err == nil && m == rB58(pb, b58btc), "share of private %s is %s (%v), want %s", p.text(), m, err, rB58(pb, b58btc))
	}
	// lengths and prefixes that are not a share
	bad := append([]byte{}, body...)
	switch t.Intn(3) {
	case 0:
		bad = bad[:len(bad)-1-t.Intn(60)]
	case 1:
		bad = append(bad, t.Raw(1+t.Intn(20))...)
	case 2:
		bad[t.Intn(7)] ^= byte(1 << uint(t.Intn(8)))
	}
	t.Do("ChainDecode", func() { back, err = owk.ChainDecode(rB58(bad, b58btc)) })
	t.Check(err != nil && back == nil, "share text of %d bytes prefix %x accepted", len(bad), bad[:7])
}
