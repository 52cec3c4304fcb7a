//go:build go1.22

package main

import (
	"crypto/elliptic"
	"math/big"
	"sort"
	"sync"

	"github.com/btcsuite/btcd/btcec"
)

func sortStrings(s []string) { sort.Strings(s) }

func tryHex(s string) (b []byte, ok bool) {
	if len(s)%2 != 0 {
		return nil, false
	}
	b = make([]byte, len(s)/2)
	for i := range b {
		v := 0
		for _, c := range []byte{s[2*i], s[2*i+1]} {
			switch {
			case c >= '0' && c <= '9':
				v = v*16 + int(c-'0')
			case c >= 'a' && c <= 'f':
				v = v*16 + int(c-'a') + 10
			case c >= 'A' && c <= 'F':
				v = v*16 + int(c-'A') + 10
			default:
				return nil, false
			}
		}
		b[i] = byte(v)
	}
	return b, true
}

// KP is an ECDSA key pair made by code independent of the repository.
type KP struct {
	d    *big.Int
	pri  []byte // 32 bytes
	pub  []byte // 33 bytes compressed
	raw  []byte // 64 bytes x|y
	x, y *big.Int
	c    *wCurve
}

func (c *wCurve) fastBase(k []byte) (x, y *big.Int) {
	if c == cR1 {
		return elliptic.P256().ScalarBaseMult(k)
	}
	if c == cK1 {
		return btcec.S256().ScalarBaseMult(k)
	}
	return c.base(new(big.Int).SetBytes(k))
}

func mkKP(c *wCurve, pri []byte) *KP {
	k := &KP{c: c, d: new(big.Int).SetBytes(pri), pri: pri}
	k.x, k.y = c.fastBase(pri)
	k.pub, k.raw = c.comp(k.x, k.y), c.raw(k.x, k.y)
	return k
}

// kp is a key pair on secp256k1 or secp256r1, edge scalars included.
func (t *T) kp(c *wCurve) *KP {
	for _, h := range hdCurves {
		if h.c == c {
			if t.usedKeys == nil {
				t.usedKeys = map[string]bool{}
			}
			for { // a key drawn later in a case is a foreign one
				kp := mkKP(c, t.privScalar(h))
				if !t.usedKeys[hx(kp.pub)] {
					t.usedKeys[hx(kp.pub)] = true
					return kp
				}
			}
		}
	}
	panic("curve")
}

// deadKey is a well formed public key that is no point of the curve: no one
// can sign for it.
func (t *T) deadKey() *KP {
	for {
		b := t.B(33)
		b[0] = 2 + b[0]&1
		if _, _, ok := cK1.decomp(b); !ok {
			return &KP{c: cK1, pub: b}
		}
	}
}

// kpIn is kp for the owner of another output: sometimes the same owner.
func (t *T) kpIn(c *wCurve, prev []*KP) *KP {
	if len(prev) > 0 && t.P(15) {
		if k := prev[t.Intn(len(prev))]; k.pri != nil {
			return k
		}
	}
	return t.kp(c)
}

// nonceTab holds nonces with their r so that signatures of every byte shape
// (short r, short s, top bits set) can be made at will.
type nonce struct{ k, kinv, r *big.Int }
type nonceTab struct {
	once sync.Once
	wide sync.Once
	many []nonce // enough of them that some give s of 30 bytes
	all  []nonce
	cls  [4][]int // r: 0 any, 1 top byte zero, 2 top bit set, 3 two or more zero bytes
}

var nonceTabs = map[*wCurve]*nonceTab{cK1: {}, cR1: {}}

func (c *wCurve) nonces() *nonceTab {
	nt := nonceTabs[c]
	nt.once.Do(func() {
		k := new(big.Int).SetBytes(rSha256([]byte("nonce table" + c.n.String())))
		half := new(big.Int).Rsh(new(big.Int).Add(c.n, big.NewInt(1)), 1)
		for i := 0; i < 3000; i++ {
			if i == 0 {
				k = half // r of 21 bytes on secp256k1
			} else {
				k = new(big.Int).SetBytes(rSha256(c.fb(k)))
				k.Mod(k, c.n)
			}
			x, _ := c.fastBase(c.fb(k))
			r := new(big.Int).Mod(x, c.n)
			nt.all = append(nt.all, nonce{k, new(big.Int).ModInverse(k, c.n), r})
			b := c.fb(r)
			nt.cls[0] = append(nt.cls[0], i)
			if b[0] == 0 {
				nt.cls[1] = append(nt.cls[1], i)
			}
			if b[0]&0x80 != 0 {
				nt.cls[2] = append(nt.cls[2], i)
			}
			if b[0] == 0 && b[1] == 0 {
				nt.cls[3] = append(nt.cls[3], i)
			}
		}
	})
	return nt
}

// lots are the nonces base, base+1, ... with their r, made by repeated
// addition with one inversion for all.
func (c *wCurve) lots() []nonce {
	nt := nonceTabs[c]
	nt.wide.Do(func() {
		const n = 1 << 16
		k := new(big.Int).SetBytes(rSha256([]byte("nonces" + c.n.String())))
		k.Mod(k, c.n)
		gx, gy := c.fastBase(c.fb(big.NewInt(1)))
		x, y := c.fastBase(c.fb(k))
		// affine additions in blocks: P+G, then the doubled stride would need
		// more tables; multiples of G are added to one base point instead.
		mx, my := make([]*big.Int, n), make([]*big.Int, n)
		mx[0], my[0] = gx, gy
		// multiples of G by doubling the table: (i+m)G = iG + mG
		for m := 1; m < n; m *= 2 {
			ax, ay := mx[m-1], my[m-1] // mG
			dx := make([]*big.Int, m)
			for i := 0; i < m; i++ {
				dx[i] = new(big.Int).Sub(ax, mx[i])
				if i == m-1 {
					dx[i].Lsh(ay, 1)
				}
				dx[i].Mod(dx[i], c.p)
			}
			inv := batchInv(dx, c.p)
			for i := 0; i < m; i++ {
				l := new(big.Int).Sub(ay, my[i])
				if i == m-1 {
					l.Mul(ax, ax).Mul(l, big.NewInt(3)).Add(l, c.a)
				}
				l.Mul(l, inv[i]).Mod(l, c.p)
				mx[m+i], my[m+i] = chord(l, ax, ay, mx[i], c.p)
			}
		}
		dx := make([]*big.Int, n)
		for i := range dx {
			dx[i] = new(big.Int).Sub(x, mx[i])
			dx[i].Mod(dx[i], c.p)
		}
		inv := batchInv(dx, c.p)
		ks := make([]*big.Int, n)
		for i := range ks {
			ks[i] = new(big.Int).Add(k, big.NewInt(int64(i+1)))
			ks[i].Mod(ks[i], c.n)
		}
		kinv := batchInv(ks, c.n)
		for i := 0; i < n; i++ {
			l := new(big.Int).Sub(y, my[i])
			l.Mul(l, inv[i]).Mod(l, c.p)
			rx, _ := chord(l, x, y, mx[i], c.p)
			nt.many = append(nt.many, nonce{ks[i], kinv[i], rx.Mod(rx, c.n)})
		}
	})
	return nt.many
}

func chord(l, ax, ay, bx, p *big.Int) (x, y *big.Int) {
	x = new(big.Int).Mul(l, l)
	x.Sub(x, ax).Sub(x, bx).Mod(x, p)
	y = new(big.Int).Sub(ax, x)
	y.Mul(y, l).Sub(y, ay).Mod(y, p)
	return
}

func batchInv(v []*big.Int, p *big.Int) []*big.Int {
	pre := make([]*big.Int, len(v)+1)
	pre[0] = big.NewInt(1)
	for i, x := range v {
		pre[i+1] = new(big.Int).Mul(pre[i], x)
		pre[i+1].Mod(pre[i+1], p)
	}
	acc := new(big.Int).ModInverse(pre[len(v)], p)
	out := make([]*big.Int, len(v))
	for i := len(v) - 1; i >= 0; i-- {
		out[i] = new(big.Int).Mul(acc, pre[i])
		out[i].Mod(out[i], p)
		acc.Mul(acc, v[i]).Mod(acc, p)
	}
	return out
}

// shortSig is a signature whose r or s has at least two leading zero bytes,
// nil if there is none in reach.
func (t *T) shortSig(k *KP, digest []byte) []byte {
	c := k.c
	lots := c.lots()
	z := new(big.Int).SetBytes(digest)
	short := t.P(75)
	at := t.Intn(len(lots))
	s, neg := new(big.Int), new(big.Int)
	for i := range lots {
		n := lots[(at+i)%len(lots)]
		if !short && n.r.BitLen() > 240 {
			continue
		}
		s.Mul(n.r, k.d)
		s.Add(s, z).Mul(s, n.kinv).Mod(s, c.n)
		if neg.Sub(c.n, s).Cmp(s) < 0 {
			s.Set(neg)
		}
		if s.Sign() != 0 && (!short || s.BitLen() <= 240) {
			t.ev["signatures with r or s of 30 bytes or less"]++
			return append(c.fb(n.r), c.fb(s)...)
		}
	}
	return nil
}

// foreign is a key pair that is not k: sometimes the one with the same x.
func (t *T) foreign(k *KP) *KP {
	if k == nil || k.pri == nil || !t.P(25) {
		c := cK1
		if k != nil {
			c = k.c
		}
		return t.kp(c)
	}
	f := mkKP(k.c, k.c.fb(new(big.Int).Sub(k.c.n, k.d)))
	if t.usedKeys[hx(f.pub)] {
		return t.kp(k.c)
	}
	t.usedKeys[hx(f.pub)] = true
	t.ev["negated keys"]++
	return f
}

// extSign is a signature made outside the repository: 64 bytes r|s, s low,
// with deliberately chosen byte shapes, and the recovery bit of (k*G).y.
func (t *T) extSign(k *KP, digest []byte) []byte {
	c := k.c
	nt := c.nonces()
	z := new(big.Int).SetBytes(digest)
	halfN := new(big.Int).Rsh(c.n, 1)
	if t.Intn(80) == 0 {
		if s := t.shortSig(k, digest); s != nil {
			return s
		}
	}
	want := t.Intn(8)
	var best []byte
	for try := 0; try < 400; try++ {
		cl := nt.cls[0]
		switch {
		case want == 1:
			cl = nt.cls[1]
		case want == 2:
			cl = nt.cls[2]
		case want == 3 && len(nt.cls[3]) > 0:
			cl = nt.cls[3]
		}
		n := nt.all[cl[t.Intn(len(cl))]]
		s := new(big.Int).Mul(n.r, k.d)
		s.Add(s, z).Mul(s, n.kinv).Mod(s, c.n)
		high := t.own("C11", "C12") && want == 7
		if s.Cmp(halfN) > 0 != high {
			s.Sub(c.n, s)
		}
		if s.Sign() == 0 {
			continue
		}
		best = append(c.fb(n.r), c.fb(s)...)
		sb := best[32:]
		ok := true
		switch want {
		case 4:
			ok = sb[0] == 0
		case 5:
			ok = sb[0] == 0 && sb[1]&0x80 != 0
		case 6:
			ok = sb[0] == 0 && sb[1]&0x80 == 0
		}
		if ok {
			break
		}
	}
	t.Shape("external signature r0=%v s0=%v", best[0] == 0, best[32] == 0)
	if new(big.Int).SetBytes(best[32:]).Cmp(halfN) > 0 {
		t.highS = true
	}
	if best[32]&0x80 != 0 {
		t.Shape("external signature with the top bit of s set")
	}
	return best
}

// sigOK checks r|s against the public key, with independent code.
func (k *KP) sigOK(digest, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if k.c == cK1 {
		return (&btcec.Signature{R: r, S: s}).Verify(digest, &btcec.PublicKey{Curve: btcec.S256(), X: k.x, Y: k.y})
	}
	return k.c.ecdsaVerify(k.x, k.y, digest, sig)
}

func (c *wCurve) lowS(sig []byte) bool {
	s := new(big.Int).SetBytes(sig[32:64])
	return s.Sign() > 0 && s.Cmp(new(big.Int).Rsh(c.n, 1)) <= 0
}

// checkSig is the C19 oracle for a 64-byte r|s signature.
func (t *T) checkSig(k *KP, digest, sig []byte, low bool, what string) {
	t.Check(len(sig) == 64, "%s: signature of %d bytes: %x", what, len(sig), sig)
	t.Check(k.sigOK(digest, sig), "%s: signature %x does not verify over %x with public key %x (private %x)", what, sig, digest, k.pub, k.pri)
	if low {
		t.Check(k.c.lowS(sig), "%s: s of signature %x is in the upper half", what, sig)
	}
	t.Shape("signature r0=%v s0=%v", sig[0] == 0, sig[32] == 0)
}

// rDER is the strict minimal DER encoding of r|s.
func rDER(sig []byte) []byte {
	enc := func(b []byte) []byte {
		for len(b) > 1 && b[0] == 0 {
			b = b[1:]
		}
		if b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return append([]byte{2, byte(len(b))}, b...)
	}
	body := append(enc(sig[:32]), enc(sig[32:])...)
	return append([]byte{0x30, byte(len(body))}, body...)
}

// spare returns b in memory that continues behind it, so that a callee that
// appends to its argument writes where the caller can see it.
func (t *T) spare(b []byte) []byte {
	m := make([]byte, len(b)+8+t.Intn(60))
	copy(m, b)
	for i := len(b); i < len(m); i++ {
		m[i] = byte(0xA0 + i)
	}
	return m[:len(b)]
}

// ---------------------------------------------------------------- flows

// Flow is a complete use of one driver. The property it runs under decides
// which observation is judged.
type Flow struct {
	Name, Pkg string
	Run       func(*T)
	Race      int // relative weight in the concurrency and purity checks
}

var flows []*Flow

// regFlow registers a flow for the given properties (cases at the quick tier).
func regFlow(name, pkg string, n map[string]int, run func(*T)) {
	for p, q := range n {
		reg(&Suite{Prop: p, Name: name, Pkg: pkg, Quick: q, Run: run})
	}
	flows = append(flows, &Flow{Name: name, Pkg: pkg, Run: run})
}

// own says whether the case is run for property p.
func (t *T) own(p ...string) bool {
	for _, x := range p {
		if t.suite.Prop == x {
			return true
		}
	}
	return false
}

// after says that the flow has gone beyond what property p observes.
func (t *T) until(p ...string) bool { return t.own(p...) }
