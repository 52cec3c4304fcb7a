//go:build go1.22

package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/json"
	"math/big"
	"strconv"
	"strings"

	"github.com/btcsuite/btcd/btcec"
)

// Account-chain drivers: one request, one message to sign, one signature.

// aKey is a signing key of one of the curves account chains use.
type aKey struct {
	curve    string // k1, r1, ed, x
	kp       *KP
	pri, pub []byte // pub: 33 bytes compressed, or 32 bytes
}

// edKey is a key of the twisted curve given as a clamped scalar.
func (t *T) acKey(curve string) *aKey {
	switch curve {
	case "k1", "r1":
		c := cK1
		if curve == "r1" {
			c = cR1
		}
		kp := t.kp(c)
		return &aKey{curve, kp, kp.pri, kp.pub}
	}
	b := t.Raw(32)
	b[0] &= 248
	b[31] = b[31]&63 | 64
	pub := edEncode(edMul(edG, edScalar(b)))
	if curve == "x" {
		pub = edToMont(pub)
	}
	return &aKey{curve, nil, b, pub}
}

func (t *T) acForeign(k *aKey) *aKey {
	if k.kp == nil {
		return t.acKey(k.curve)
	}
	kp := t.foreign(k.kp)
	return &aKey{k.curve, kp, kp.pri, kp.pub}
}

// edToMont is the Montgomery u of an encoded Edwards point.
func edToMont(pub []byte) []byte {
	y := new(big.Int).SetBytes(rev(pub))
	y.SetBit(y, 255, 0)
	one := big.NewInt(1)
	n := new(big.Int).Add(one, y)
	d := new(big.Int).Sub(one, y)
	d.Mod(d, edP).ModInverse(d, edP)
	n.Mul(n, d).Mod(n, edP)
	return rev(n.FillBytes(make([]byte, 32)))
}

func montToEd(u []byte, sign byte) []byte {
	x := new(big.Int).SetBytes(rev(u))
	one := big.NewInt(1)
	n := new(big.Int).Sub(x, one)
	d := new(big.Int).Add(x, one)
	d.Mod(d, edP)
	if d.Sign() == 0 {
		return nil
	}
	d.ModInverse(d, edP)
	n.Mul(n, d).Mod(n, edP)
	b := rev(n.FillBytes(make([]byte, 32)))
	b[31] |= sign & 0x80
	return b
}

// ext signs msg with independent code.
func (t *T) ext(k *aKey, msg []byte) []byte {
	if k.kp != nil {
		return t.extSign(k.kp, msg)
	}
	a := edScalar(k.pri)
	pub := edEncode(edMul(edG, a))
	r := edScalar(rSha512(cat(t.Raw(32), msg)))
	r.Mod(r, edN)
	R := edEncode(edMul(edG, r))
	h := sha512.Sum512(cat(R, pub, msg))
	s := new(big.Int).Mul(edScalar(h[:]), a)
	s.Add(s, r).Mod(s, edN)
	sig := append(R, rev(s.FillBytes(make([]byte, 32)))...)
	if k.curve == "x" {
		sig[63] |= pub[31] & 0x80
	}
	return sig
}

// sigOK checks a 64-byte signature with independent code.
func (k *aKey) sigOK(msg, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	switch k.curve {
	case "ed":
		return edVerify(k.pub, msg, sig)
	case "x":
		s := append([]byte{}, sig...)
		s[63] &= 0x7f
		p := montToEd(k.pub, sig[63])
		return p != nil && edVerify(p, msg, s)
	}
	return k.kp.sigOK(msg, sig)
}

func (k *aKey) recID(digest, sig []byte) byte {
	for v := byte(0); v < 4; v++ {
		p, _, err := btcec.RecoverCompact(btcec.S256(), cat([]byte{27 + 4 + v}, sig[:64]), digest)
		if err == nil && p.X.Cmp(k.kp.x) == 0 && p.Y.Cmp(k.kp.y) == 0 {
			return v
		}
	}
	return 0xff
}

// acPlan is one request together with what the chain defines for it.
type acPlan struct {
	name       string
	key        *aKey
	tx, msg    string // as the driver handed them out
	wantMsg    []byte
	wantMsgTxt string // text form of the message if it is not plain hex
	sign       func(msg string, pri []byte) ([]byte, error)
	combine    func(tx string, sig []byte, k *aKey) (bool, string)
	signed     func(sig []byte) string
	alter      func() string // an altered transaction text, "" if none
	bound      string        // "": anyone may sign; "yes": only the sender; else the key of a known finding
	recovery   bool          // the driver's signature has a recovery identifier behind it
	multi      func()        // extra forgeries
	decode     func(signed string)
	// restate judges an altered transaction that is signed anew: its digest and
	// what combining it must give, nil and "" where that is not a transaction.
	restate func(tx string) (digest []byte, want func(sig []byte) string)
}

type acPkg struct {
	name, dir string
	plan      func(*T) *acPlan
	refuse    func(*T) (what string, out []interface{})
	n         map[string]int
}

func (t *T) hexAlter(tx string) string {
	raw := unhex(tx)
	m := t.Mutate(raw)
	if bytes.Equal(m, raw) {
		return ""
	}
	return hx(m)
}

func acFlow(p *acPkg) func(*T) {
	return func(t *T) {
		pl := p.plan(t)
		pl.name = p.name
		t.Fp(pl.tx)
		if t.own("C08") {
			return
		}
		want := pl.wantMsgTxt
		if want == "" {
			want = hx(pl.wantMsg)
		}
		t.Check(pl.msg == want, "%s: message to sign is %s, want %s (tx %s)", p.name, pl.msg, want, pl.tx)
		if t.own("C10") {
			return
		}
		if t.own("C20") {
			sig := t.ext(pl.key, pl.wantMsg)
			if pl.recovery {
				sig = append(sig, pl.key.recID(pl.wantMsg, sig))
			}
			pl.decode(pl.signed(sig))
			return
		}
		var sig []byte
		if t.P(60) || t.own("C19") {
			s, err := pl.sign(pl.msg, t.spare(pl.key.pri))
			t.Check(err == nil, "%s: signing %s refused: %v", p.name, pl.msg, err)
			sig = s
			plain := s
			if pl.recovery {
				t.Check(len(s) == 65, "%s: signature of %d bytes", p.name, len(s))
				plain = s[:64]
				if t.own("C19") {
					v := pl.key.recID(pl.wantMsg, plain)
					t.Check(v == s[64], "%s: recovery identifier %d does not recover the signer, %d does (signature %x digest %x)", p.name, s[64], v, s, pl.wantMsg)
				}
			}
			if t.own("C19") {
				t.Check(len(plain) == 64, "%s: signature of %d bytes", p.name, len(plain))
				if pl.key.kp != nil {
					t.checkSig(pl.key.kp, pl.wantMsg, plain, true, p.name)
				} else {
					t.Check(pl.key.sigOK(pl.wantMsg, plain), "%s: signature %x does not verify over %x with public key %x (private %x)", p.name, plain, pl.wantMsg, pl.key.pub, pl.key.pri)
					t.ev["twisted-curve signatures checked"]++
				}
				t.acBadSign(pl)
			} else {
				t.Check(pl.key.sigOK(pl.wantMsg, plain), "%s: signature %x does not verify over %x with public key %x", p.name, plain, pl.wantMsg, pl.key.pub)
			}
		} else {
			sig = t.ext(pl.key, pl.wantMsg)
			if pl.recovery {
				sig = append(sig, pl.key.recID(pl.wantMsg, sig))
			}
			t.Shape("external signature")
		}
		ok, signed := pl.combine(pl.tx, sig, pl.key)
		t.Check(ok, "%s: a matching signature is refused: tx %s signature %x key %x", p.name, pl.tx, sig, pl.key.pub)
		ref := pl.signed(sig)
		t.Check(signed == ref, "%s: combined transaction\ngot  %s\nwant %s", p.name, signed, ref)
		if t.own("C14") {
			t.acForge(pl, sig)
		}
		if t.own("C19") && pl.key.kp != nil {
			sig := t.ext(pl.key, pl.wantMsg)
			if t.P(15) {
				if s := t.shortSig(pl.key.kp, pl.wantMsg); s != nil {
					sig = s
				}
			}
			if pl.recovery {
				sig = append(sig, pl.key.recID(pl.wantMsg, sig))
			}
			ok, signed := pl.combine(pl.tx, sig, pl.key)
			t.Check(ok, "%s: a matching signature is refused: tx %s signature %x key %x", p.name, pl.tx, sig, pl.key.pub)
			ref := pl.signed(sig)
			t.Check(signed == ref, "%s: wire form of signature %x\ngot  %s\nwant %s", p.name, sig, signed, ref)
			t.ev["wire forms of external signatures"]++
		}
	}
}

func (t *T) acBadSign(pl *acPlan) {
	key, msg := append([]byte{}, pl.key.pri...), pl.msg
	ec := pl.key.kp != nil
	switch t.Intn(5) {
	case 0:
		if !ec {
			return
		}
		key = make([]byte, 32)
	case 1:
		if !ec {
			return
		}
		key = pl.key.kp.c.fb(pl.key.kp.c.n)
	case 2:
		key = key[:t.Intn(32)]
	case 3:
		if !ec {
			return
		}
		msg = msg[:2*t.Intn(32)]
	case 4:
		msg = "zz" + msg[2:]
	}
	_, err := pl.sign(msg, key)
	t.Check(err != nil, "%s: signing %s with key %x is not refused", pl.name, msg, key)
}

// acForge presents altered transactions and signatures to the verification.
func (t *T) acForge(pl *acPlan, sig []byte) {
	for n := 0; n < 3; n++ {
		tx, s, k := pl.tx, append([]byte{}, sig...), pl.key
		what, fk := "", ""
		withRec := func(b []byte, k *aKey, d []byte) []byte {
			if pl.recovery {
				return append(b, k.recID(d, b))
			}
			return b
		}
		switch c := t.Intn(10); c {
		case 0, 1, 2, 3:
			what = "an altered transaction"
			if tx = pl.alter(); tx == "" || tx == pl.tx {
				continue
			}
		case 4:
			if pl.bound == "" {
				continue
			}
			what = "a signature by a foreign key with its public key"
			k = t.acForeign(pl.key)
			if bytes.Equal(k.pub, pl.key.pub) {
				continue
			}
			s = withRec(t.ext(k, pl.wantMsg), k, pl.wantMsg)
			if pl.bound != "yes" {
				fk = pl.bound
			}
		case 5:
			what = "a signature by a foreign key"
			f := t.acForeign(pl.key)
			if bytes.Equal(f.pub, pl.key.pub) {
				continue
			}
			s = withRec(t.ext(f, pl.wantMsg), f, pl.wantMsg)
		case 6:
			what = "a signature over something else"
			d := t.Mutate(pl.wantMsg)
			if k.kp != nil {
				d = t.B(32)
			}
			if bytes.Equal(d, pl.wantMsg) {
				continue
			}
			s = withRec(t.ext(k, d), k, d)
		case 7:
			what = "an altered signature"
			i := t.Intn(len(s) * 8)
			s[i/8] ^= 1 << (i % 8)
		case 8:
			what = "a missing or cut signature"
			s = s[:t.Intn(len(s))]
		case 9:
			what = "an altered public key"
			f := *k
			f.pub = append([]byte{}, k.pub...)
			i := t.Intn(len(f.pub))
			f.pub[i] ^= byte(1 + t.Intn(255))
			if k.curve == "x" {
				f.pub[31] &= 0x7f // the top bit of u is ignored
			}
			if bytes.Equal(f.pub, k.pub) {
				continue
			}
			if k.kp != nil {
				x, y, ok := k.kp.c.decomp(f.pub)
				f.kp = &KP{c: k.kp.c, pub: f.pub, raw: t.B(64)}
				if ok {
					f.kp.raw = k.kp.c.raw(x, y)
				}
			}
			k = &f
		}
		t.Shape("forged: %s", what)
		t.ev["forgeries presented"]++
		ok, got := pl.combine(tx, s, k)
		if ok {
			t.FailKey(fk, "%s: verification accepts %s\ntx       %s\noriginal %s\nsignature %x key %x\ncombined %s", pl.name, what, tx, pl.tx, s, k.pub, got)
		}
		t.Check(got == "", "%s: a refused transaction is handed out: %s", pl.name, got)
	}
	if pl.restate != nil {
		t.acResign(pl, pl.alter())
	}
	if pl.multi != nil {
		pl.multi()
	}
}

// acResign signs an altered transaction anew: whatever of it is accepted has to
// come out as the very transaction that was signed.
func (t *T) acResign(pl *acPlan, tx string) {
	if tx == "" {
		return
	}
	digest, want := pl.restate(tx)
	if digest == nil {
		return
	}
	sig := t.ext(pl.key, digest)
	if pl.recovery {
		sig = append(sig, pl.key.recID(digest, sig))
	}
	ok, got := pl.combine(tx, sig, pl.key)
	t.ev["altered transactions signed anew"]++
	t.Shape("signed anew, accepted %v", ok)
	if ok && want != nil {
		w := want(sig)
		t.Check(got == w, "%s: an altered transaction, signed anew, is combined into another one\ntx   %s\ngot  %s\nwant %s", pl.name, tx, got, w)
	}
	t.Check(ok || got == "", "%s: a refused transaction is handed out: %s", pl.name, got)
}

// acHostile lets malformed transactions get past the signature check.
func acHostile(p *acPkg) func(*T) {
	return func(t *T) {
		pl := p.plan(t)
		pl.name = p.name
		t.Fp(pl.tx)
		if pl.restate == nil {
			return
		}
		for n := 0; n < 6; n++ {
			tx := pl.alter()
			if t.P(40) {
				tx = pl.tx[:t.Intn(len(pl.tx))&^1]
			}
			digest, _ := pl.restate(tx)
			if digest == nil {
				continue
			}
			sig := t.ext(pl.key, digest)
			if pl.recovery {
				sig = append(sig, pl.key.recID(digest, sig))
			}
			t.ev["malformed transactions with a valid signature"]++
			pl.combine(tx, sig, pl.key)
		}
	}
}

func acRefuse(p *acPkg) func(*T) {
	return func(t *T) {
		what, out := p.refuse(t)
		if what == "" {
			return
		}
		t.Shape("refused: %s", what)
		t.ev["unfaithful requests made"]++
		t.Fp(what, dumpOf(out))
		t.Check(errOf(out) != nil, "%s: a request with %s is not refused: %s", p.name, what, dumpOf(out))
	}
}

// ---------------------------------------------------------------- helpers

func jstr(s string) string { b, _ := json.Marshal(s); return string(b) }

// utext is valid text, odd characters included.
func (t *T) utext(max int) string {
	if t.P(25) {
		return ""
	}
	if t.P(50) {
		return t.Text(t.Len(1, max))
	}
	var sb strings.Builder
	for i := t.Len(1, max); sb.Len() < i; {
		sb.WriteString(t.Str("a", "Z", "0", " ", "\"", "\\", "<", ">", "&", "/", "\n", "\t", "\x00", "\x1f", "\x7f", "é", "中", "\u2028", "\u2029", "😀", "{", "}", ":", ",", "s"))
	}
	return sb.String()
}

// badText is not valid UTF-8.
func (t *T) badText() string {
	return t.Text(3) + t.Str("\xff", "\xc3", "\xed\xa0\x80", "\xf8\x88\x80\x80\x80") + t.Text(2)
}

func uvarint(v uint64) []byte {
	var b []byte
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func dec(v uint64) string { return strconv.FormatUint(v, 10) }

func (t *T) caseHex(b []byte) string {
	if t.P(15) {
		return strings.ToUpper(hx(b))
	}
	return hx(b)
}

// breakAddr changes one character of an address.
func (t *T) breakAddr(s string) string {
	for {
		if m := t.MutateText(s); m != s {
			return m
		}
	}
}
