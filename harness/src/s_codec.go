//go:build go1.22

package main

import (
	"bytes"
	"encoding/base64"
	bytom "github.com/blocktree/go-owcdrivers/bytomTransaction"
	"hash"
	"hash/crc32"
	"reflect"
	"strings"

	ae "github.com/blocktree/go-owcdrivers/addressEncoder"
	"github.com/blocktree/go-owcdrivers/addressEncoder/base32PolyMod"
	"github.com/blocktree/go-owcdrivers/addressEncoder/bech32"
	"github.com/blocktree/go-owcdrivers/addressEncoder/bech32m"
	"github.com/blocktree/go-owcdrivers/addressEncoder/blake256"
	"github.com/blocktree/go-owcdrivers/addressEncoder/eip55"
	alien "github.com/blocktree/go-owcdrivers/aliencoinTransaction"
	bch "github.com/blocktree/go-owcdrivers/bitcoincashTransaction"
	bsv "github.com/blocktree/go-owcdrivers/bitcoinsvTransaction"
	btclike "github.com/blocktree/go-owcdrivers/btcLikeTxDriver"
	btc "github.com/blocktree/go-owcdrivers/btcTransaction"
	cosmos "github.com/blocktree/go-owcdrivers/cosmosTransaction"
	cxc "github.com/blocktree/go-owcdrivers/cxcTransaction"
	elastos "github.com/blocktree/go-owcdrivers/elastosTransaction"
	evaio "github.com/blocktree/go-owcdrivers/evaioTransaction"
	fiii "github.com/blocktree/go-owcdrivers/fiiiTransaction"
	filenet "github.com/blocktree/go-owcdrivers/filenetTransaction"
	hc "github.com/blocktree/go-owcdrivers/hcTransaction"
	hyper "github.com/blocktree/go-owcdrivers/hypercashTransaction"
	omni "github.com/blocktree/go-owcdrivers/omniTransaction"
	ont "github.com/blocktree/go-owcdrivers/ontologyTransaction"
	owk "github.com/blocktree/go-owcdrivers/owkeychain"
	polka "github.com/blocktree/go-owcdrivers/polkadotTransaction"
	ripple "github.com/blocktree/go-owcdrivers/rippleTransaction"
	verge "github.com/blocktree/go-owcdrivers/vergeTransaction"
	vsys "github.com/blocktree/go-owcdrivers/virtualeconomyTransaction"
	vollar "github.com/blocktree/go-owcdrivers/vollarTransaction"
	wayki "github.com/blocktree/go-owcdrivers/waykichainTransaction"
	zen "github.com/blocktree/go-owcdrivers/zencashTransaction"
)

// ---------------------------------------------------------------- base58

type b58pkg struct {
	name               string
	newAlpha, enc, dec interface{}
	encCheck, decCheck interface{}
	kind               string // checksum kind
}

var b58pkgs = []b58pkg{
	{"addressEncoder", ae.NewBase58Alphabet, ae.Base58Encode, ae.Base58Decode, nil, nil, ""},
	{"owkeychain", owk.NewAlphabet, owk.Encode, owk.Decode, nil, nil, ""},
	{"ripple", ripple.NewAlphabet, ripple.Encode, ripple.Decode, nil, nil, ""},
	{"filenet", filenet.NewAlphabet, filenet.Encode, filenet.Decode, nil, nil, ""},
	{"btc", btc.NewAlphabet, btc.Encode, btc.Decode, btc.EncodeCheck, btc.DecodeCheck, "doubleSHA256"},
	{"bch", bch.NewAlphabet, bch.Encode, bch.Decode, bch.EncodeCheck, bch.DecodeCheck, "doubleSHA256"},
	{"bsv", bsv.NewAlphabet, bsv.Encode, bsv.Decode, bsv.EncodeCheck, bsv.DecodeCheck, "doubleSHA256"},
	{"omni", omni.NewAlphabet, omni.Encode, omni.Decode, omni.EncodeCheck, omni.DecodeCheck, "doubleSHA256"},
	{"hc", hc.NewAlphabet, hc.Encode, hc.Decode, hc.EncodeCheck, hc.DecodeCheck, "doubleSHA256"},
	{"zencash", zen.NewAlphabet, zen.Encode, zen.Decode, zen.EncodeCheck, zen.DecodeCheck, "doubleSHA256"},
	{"cxc", cxc.NewAlphabet, cxc.Encode, cxc.Decode, cxc.EncodeCheck, cxc.DecodeCheck, "doubleSHA256"},
	{"btclike", btclike.NewAlphabet, btclike.Encode, btclike.Decode, btclike.EncodeCheck, btclike.DecodeCheck, "doubleSHA256"},
	{"aliencoin", alien.NewAlphabet, alien.Encode, alien.Decode, alien.EncodeCheck, alien.DecodeCheck, "doubleSHA256"},
	{"verge", verge.NewAlphabet, verge.Encode, verge.Decode, verge.EncodeCheck, verge.DecodeCheck, "doubleSHA256"},
	{"vollar", vollar.NewAlphabet, vollar.Encode, vollar.Decode, vollar.EncodeCheck, vollar.DecodeCheck, "doubleSHA256"},
	{"hypercash", hyper.NewAlphabet, hyper.Encode, hyper.Decode, hyper.EncodeCheck, hyper.DecodeCheck, "doubleBlake256"},
	{"elastos", elastos.NewAlphabet, elastos.Encode, elastos.Decode, elastos.EncodeCheck, elastos.DecodeCheck, "doubleSHA256"},
	{"fiii", fiii.NewAlphabet, fiii.Encode, fiii.Decode, fiii.EncodeCheck, fiii.DecodeCheck, "doubleSHA256"},
	{"waykichain", wayki.NewAlphabet, wayki.Encode, wayki.Decode, wayki.EncodeCheck, wayki.DecodeCheck, "doubleSHA256"},
	{"ontology", ont.NewAlphabet, ont.Encode, ont.Decode, ont.EncodeCheck, ont.DecodeCheck, "doubleSHA256"},
	{"virtualeconomy", vsys.NewAlphabet, vsys.Encode, vsys.Decode, vsys.EncodeCheck, vsys.DecodeCheck, "blake2b_and_keccak256_first_twenty"},
}

// translate maps a text of the bitcoin alphabet to another alphabet.
func translate(s string, from, to []rune) (string, bool) {
	m := map[rune]rune{}
	for i := range from {
		m[from[i]] = to[i]
	}
	var sb strings.Builder
	for _, r := range s {
		x, ok := m[r]
		if !ok {
			return "", false
		}
		sb.WriteRune(x)
	}
	return sb.String(), true
}

func (t *T) alphabet() []rune {
	a := []rune(b58btc)
	switch t.Intn(4) {
	case 0:
		a = []rune(b58xrp)
	case 1:
		t.Shuffle(58, func(i, j int) { a[i], a[j] = a[j], a[i] })
	case 2:
		for i := range a {
			a[i] = rune(0x4e00 + i*7)
		}
		if t.Bool() {
			a[t.Intn(58)] = 'x'
		}
	}
	return a
}

// longBytes is a byte string of any length, with leading zero bytes now and then.
func (t *T) longBytes(max int) []byte {
	b := t.B(t.Len(0, max))
	if t.P(30) {
		b = append(make([]byte, t.Small(1, 40)), b...)
	}
	return b
}

func base58Flow(p *b58pkg) func(*T) {
	return func(t *T) {
		max := 120
		if t.P(5) {
			max = 600
		}
		b := t.longBytes(max)
		al := t.alphabet()
		alpha := reflect.ValueOf(p.newAlpha).Call([]reflect.Value{reflect.ValueOf(string(al))})[0].Interface()
		want, _ := translate(rB58(b, b58btc), []rune(b58btc), al)
		got := str(t.Call(p.name+".Encode", p.enc, t.spare(b), alpha), 0)
		t.Fp(want)
		t.Shape("length %d zeros %v", min(len(b)/16, 10), len(b) > 0 && b[0] == 0)
		t.Check(got == want, "%s: base58 of %x with alphabet %s is %s, want %s", p.name, b, string(al), got, want)
		out := t.Call(p.name+".Decode", p.dec, got, alpha)
		t.Check(errOf(out) == nil && bytes.Equal(out[0].([]byte), b), "%s: base58 %s decodes to %x %v, want %x", p.name, got, out[0], errOf(out), b)
		m := t.MutateText(got)
		if plain, ok := translate(m, al, []rune(b58btc)); ok {
			w, _ := rUnB58(plain, b58btc)
			out = t.Call(p.name+".Decode", p.dec, m, alpha)
			t.Check(errOf(out) == nil && bytes.Equal(out[0].([]byte), w), "%s: base58 %q decodes to %x %v, want %x", p.name, m, out[0], errOf(out), w)
		} else {
			out = t.Call(p.name+".Decode", p.dec, m, alpha)
			t.Check(errOf(out) != nil, "%s: %q is not base58 of %s but decodes to %x", p.name, m, string(al), out[0])
		}
		if p.encCheck != nil {
			t.base58Check(p)
		}
	}
}

func (t *T) base58Check(p *b58pkg) {
	prefix := t.B(t.Small(0, 3))
	h := t.B(20)
	ft := reflect.TypeOf(p.encCheck)
	var text string
	if ft.In(0).Kind() == reflect.Uint8 {
		prefix = []byte{t.B(1)[0]}
		text = str(t.Call(p.name+".EncodeCheck", p.encCheck, prefix[0], t.spare(h)), 0)
	} else {
		text = str(t.Call(p.name+".EncodeCheck", p.encCheck, t.spare(prefix), t.spare(h)), 0)
	}
	d := cat(prefix, h)
	full := cat(d, rChecksum(p.kind, d))
	t.Check(text == rB58(full, b58btc), "%s: EncodeCheck of %x %x is %s, want %s", p.name, prefix, h, text, rB58(full, b58btc))
	for i := 0; i < 3; i++ {
		s := text
		switch {
		case i == 1:
			s = t.MutateText(text)
		case i == 2:
			s = rB58(t.Mutate(full), b58btc)
		}
		args := []interface{}{s}
		if p.name == "fiii" {
			args = append(args, t.spare(prefix))
		}
		out := t.Call(p.name+".DecodeCheck", p.decCheck, args...)
		raw, ok := rUnB58(s, b58btc)
		ok = ok && len(raw) >= 4 && bytes.Equal(rChecksum(p.kind, raw[:len(raw)-4]), raw[len(raw)-4:])
		if ok && bytes.Equal(raw, full) {
			t.Check(errOf(out) == nil, "%s: DecodeCheck refuses %s: %v", p.name, s, errOf(out))
			var r []byte
			for _, o := range out {
				switch x := o.(type) {
				case byte:
					r = append(r, x)
				case []byte:
					r = append(r, x...)
				}
			}
			w := d
			if p.name == "fiii" {
				w = h
			} else if p.name == "virtualeconomy" {
				w = full
			}
			t.Check(bytes.Equal(r, w), "%s: DecodeCheck of %s gives %x, want %x", p.name, s, r, w)
			if b, is := out[0].([]byte); is && len(out) == 3 {
				t.Check(bytes.Equal(b, prefix), "%s: DecodeCheck of %s gives prefix %x, want %x", p.name, s, b, prefix)
			}
		} else {
			t.Check(errOf(out) != nil || ok, "%s: DecodeCheck accepts %q, which carries no valid checksum: %v", p.name, s, out)
			t.ev["malformed texts judged"]++
		}
	}
}

// ---------------------------------------------------------------- bech32 family

type bechPkg struct {
	name     string
	enc, dec interface{}
	ver      bool // version 0 in front, programs of 20 or 32 bytes
}

var bechPkgs = []bechPkg{
	{"btc", btc.Bech32Encode, btc.Bech32Decode, true},
	{"omni", omni.Bech32Encode, omni.Bech32Decode, true},
	{"hc", hc.Bech32Encode, hc.Bech32Decode, true},
	{"zencash", zen.Bech32Encode, zen.Bech32Decode, true},
	{"cxc", cxc.Bech32Encode, cxc.Bech32Decode, true},
	{"btclike", btclike.Bech32Encode, btclike.Bech32Decode, true},
	{"cosmos", cosmos.Bech32Encode, cosmos.Bech32Decode, false},
	{"evaio", evaio.Bech32Encode, evaio.Bech32Decode, false},
}

// hrp is a human readable part of lower-case letters.
func (t *T) hrp() string {
	b := make([]byte, t.Small(1, 12))
	short := t.P(20)
	for n := 0; ; n++ {
		for i := range b {
			b[i] = byte('a' + t.Intn(26))
		}
		if !short || n > 100 || shortBech(string(b), kBech32) != "" || shortBech(string(b), kBech32m) != "" {
			return string(b)
		}
	}
}

// shortBech is the text whose whole data part is five symbols that satisfy the
// checksum equation; only every 32nd prefix has one.
func shortBech(hrp string, k uint32) string {
	m := rBechPoly(cat(rHrp(hrp), make([]byte, 5))) ^ k
	if m >= 1<<25 {
		return ""
	}
	s := hrp + "1"
	for i := 4; i >= 0; i-- {
		x := m >> (5 * i) & 31
		s += bechAlpha[x : x+1]
	}
	return s
}

// lookalike replaces letters by characters that fold to them.
func (t *T) lookalike(s string) string {
	u := strings.ToUpper(s)
	if t.Bool() {
		return strings.Replace(u, "K", "\u212a", 1)
	}
	return strings.Replace(strings.Replace(s, "s", "\u017f", 1), "k", "\u212a", 1)
}

// badBech is a text derived from a valid one that may or may not be valid.
func (t *T) badBech(text, hrp string, five []byte, k uint32) string {
	if s := shortBech(hrp, k); s != "" && t.P(50) {
		t.ev["texts with a short but true checksum"]++
		return s
	}
	switch t.Intn(7) {
	case 0:
		return t.lookalike(text)
	case 1:
		return strings.ToUpper(text)
	case 2: // another variant of the checksum
		return rBech(hrp, five, k^kBech32^kBech32m)
	case 3: // other padding
		f := append([]byte{}, five...)
		if len(f) > 0 {
			f[len(f)-1] ^= byte(1 + t.Intn(31))
		}
		return rBech(hrp, f, k)
	case 4: // groups added or missing
		f := append([]byte{}, five...)
		if t.Bool() {
			f = append(f, make([]byte, t.Small(1, 3))...)
		} else {
			f = f[:t.Intn(len(f)+1)]
		}
		return rBech(hrp, f, k)
	}
	return t.MutateText(text)
}

func bechFlow(p *bechPkg) func(*T) {
	return func(t *T) {
		hrp := t.hrp()
		n := t.Small(1, 60)
		if p.ver {
			n = []int{20, 32}[t.Intn(2)]
		}
		b := t.B(n)
		five := rTo5(b)
		if p.ver {
			five = append([]byte{0}, five...)
		}
		want := rBech(hrp, five, kBech32)
		got := str(t.Call(p.name+".Bech32Encode", p.enc, hrp, bechAlpha, t.spare(b)), 0)
		t.Fp(want)
		t.Check(got == want, "%s: bech32 of %x with prefix %s is %s, want %s", p.name, b, hrp, got, want)
		out := t.Call(p.name+".Bech32Decode", p.dec, got)
		t.Check(errOf(out) == nil && bytes.Equal(out[0].([]byte), b), "%s: %s decodes to %x %v, want %x", p.name, got, out[0], errOf(out), b)
		for i := 0; i < 3; i++ {
			m := t.badBech(got, hrp, five, kBech32)
			out := t.Call(p.name+".Bech32Decode", p.dec, m)
			t.ev["malformed texts judged"]++
			if errOf(out) != nil {
				continue
			}
			_, f, ok := rUnBech(m, kBech32)
			t.Check(ok, "%s: %q is not bech32 but decodes to %x", p.name, m, out[0])
			if p.ver {
				ok = len(f) > 0 && f[0] == 0
				if ok {
					f = f[1:]
				}
			}
			w, ok2 := rFrom5(f)
			if p.ver {
				ok = ok && (len(w) == 20 || len(w) == 32)
			}
			t.Check(ok && ok2 && bytes.Equal(w, out[0].([]byte)), "%s: %q decodes to %x, want %x (%v)", p.name, m, out[0], w, ok && ok2)
		}
	}
}

func bech32Flow(t *T) {
	hrp := t.hrp()
	n := t.Small(1, 60)
	var pre []byte
	if t.P(40) {
		n = []int{20, 32}[t.Intn(2)]
		pre = []byte{byte(t.Intn(17))}
	} else if n == 33 {
		n = 34 // as long as a version and 32 bytes
	}
	if pre == nil && n < 2 {
		n = 2
	}
	b := t.B(n)
	five := cat(pre, rTo5(b))
	want := rBech(hrp, five, kBech32)
	var arg interface{}
	if pre != nil {
		arg = t.spare(pre)
	}
	got := str(t.Call("bech32.Encode", bech32.Encode, hrp, bechAlpha, t.spare(b), arg), 0)
	t.Fp(want)
	t.Check(got == want, "bech32: %x with prefix %s %x is %s, want %s", b, hrp, pre, got, want)
	out := t.Call("bech32.Decode", bech32.Decode, got, bechAlpha)
	t.Check(errOf(out) == nil && bytes.Equal(out[0].([]byte), b), "bech32: %s decodes to %x %v, want %x", got, out[0], errOf(out), b)
	for i := 0; i < 3; i++ {
		m := t.badBech(got, hrp, five, kBech32)
		out := t.Call("bech32.Decode", bech32.Decode, m, bechAlpha)
		t.ev["malformed texts judged"]++
		if errOf(out) != nil {
			continue
		}
		_, f, ok := rUnBech(m, kBech32)
		t.Check(ok, "bech32: %q is not bech32 but decodes to %x", m, out[0])
		if len(f) == 33 || len(f) == 53 {
			f = f[1:]
		}
		w, ok := rFrom5(f)
		t.Check(ok && bytes.Equal(w, out[0].([]byte)), "bech32: %q decodes to %x, want %x (%v)", m, out[0], w, ok)
	}
}

func bech32mFlow(t *T) {
	hrp := t.hrp()
	b := t.B(t.Small(0, 40))
	if len(hrp)+7+(len(b)*8+4)/5 > 90 {
		hrp = hrp[:1]
	}
	five := rTo5(b)
	want := rBech(hrp, five, kBech32m)
	out := t.Call("bech32m.Bech32mEncode", bech32m.Bech32mEncode, hrp, t.spare(b), bechAlpha)
	t.Fp(want)
	t.Check(errOf(out) == nil && str(out, 0) == want, "bech32m: %x with prefix %s is %s %v, want %s", b, hrp, out[0], errOf(out), want)
	out = t.Call("bech32m.Bech32mDecode", bech32m.Bech32mDecode, want, hrp, bechAlpha)
	t.Check(errOf(out) == nil && bytes.Equal(out[0].([]byte), b), "bech32m: %s decodes to %x %v, want %x", want, out[0], errOf(out), b)
	for _, k := range []uint32{kBech32, kBech32m} {
		spec := bech32m.Bech32
		if k == kBech32m {
			spec = bech32m.Bech32m
		}
		w := rBech(hrp, five, k)
		out := t.Call("bech32m.Encode", bech32m.Encode, hrp, t.spare(five), spec, bechAlpha)
		t.Check(str(out, 0) == w, "bech32m.Encode of %x with prefix %s, variant %d is %s, want %s", five, hrp, spec, out[0], w)
		out = t.Call("bech32m.Decode", bech32m.Decode, w, bechAlpha)
		t.Check(errOf(out) == nil && str(out, 0) == hrp && bytes.Equal(out[1].([]byte), five) && out[2].(int) == spec, "bech32m.Decode of %s gives %v, want %s %x %d", w, out, hrp, five, spec)
	}
	out = t.Call("bech32m.Convertbits", bech32m.Convertbits, t.spare(b), uint(8), uint(5), true)
	t.Check(errOf(out) == nil && bytes.Equal(out[0].([]byte), five), "bech32m: %x in groups of five is %x %v, want %x", b, out[0], errOf(out), five)
	g := t.Mutate(five)
	if t.Bool() {
		for i := range g {
			g[i] &= 31
		}
	}
	w, ok := rFrom5(g)
	for _, x := range g {
		ok = ok && x < 32
	}
	out = t.Call("bech32m.Convertbits", bech32m.Convertbits, t.spare(g), uint(5), uint(8), false)
	t.Check((errOf(out) == nil) == ok, "bech32m: groups %x regroup to %x %v, want %x (%v)", g, out[0], errOf(out), w, ok)
	t.Check(!ok || bytes.Equal(out[0].([]byte), w), "bech32m: groups %x regroup to %x, want %x", g, out[0], w)
	for i := 0; i < 3; i++ {
		m := t.badBech(want, hrp, five, kBech32m)
		out := t.Call("bech32m.Bech32mDecode", bech32m.Bech32mDecode, m, hrp, bechAlpha)
		t.ev["malformed texts judged"]++
		h, f, ok := rUnBech(m, kBech32m)
		var w []byte
		if ok {
			w, ok = rFrom5(f)
		}
		ok = ok && h == hrp
		if ok && len(m) > 90 {
			continue
		}
		t.Check((errOf(out) == nil) == ok, "bech32m: %q with prefix %s decodes to %x %v, want %x (%v)", m, hrp, out[0], errOf(out), w, ok)
		t.Check(!ok || bytes.Equal(out[0].([]byte), w), "bech32m: %q decodes to %x, want %x", m, out[0], w)
	}
}

// bytomBechFlow is bytom's pair, which leaves the grouping to the caller.
func bytomBechFlow(t *T) {
	hrp := t.hrp()
	b := t.B(t.Small(0, 40))
	if len(hrp)+7+(len(b)*8+4)/5 > 90 {
		hrp = hrp[:1]
	}
	five := rTo5(b)
	want := rBech(hrp, five, kBech32)
	t.Fp(want)
	out := t.Call("bytom.ConvertBits", bytom.ConvertBits, t.spare(b), uint8(8), uint8(5), true)
	t.Check(errOf(out) == nil && bytes.Equal(out[0].([]byte), five), "bytom: %x in groups of five is %x %v, want %x", b, out[0], errOf(out), five)
	out = t.Call("bytom.Bech32Encode", bytom.Bech32Encode, hrp, t.spare(five))
	t.Check(errOf(out) == nil && str(out, 0) == want, "bytom: groups %x with prefix %s are %s %v, want %s", five, hrp, out[0], errOf(out), want)
	out = t.Call("bytom.Bech32Decode", bytom.Bech32Decode, want)
	t.Check(errOf(out) == nil && str(out, 0) == hrp && bytes.Equal(out[1].([]byte), five), "bytom: %s decodes to %v, want %s %x", want, out, hrp, five)
	// groups of any width, against a plain bit string
	from, to := uint8(1+t.Intn(8)), uint8(1+t.Intn(8))
	pad := t.Bool()
	g := t.B(t.Small(0, 20))
	if t.P(30) {
		from, to, pad, g = 5, 8, false, t.Mutate(five)
	}
	acc, bits := []byte{}, 0
	cur := byte(0)
	for i := range g {
		g[i] &= byte(1<<from - 1)
		for k := int(from) - 1; k >= 0; k-- {
			cur = cur<<1 | g[i]>>k&1
			if bits++; bits == int(to) {
				acc, cur, bits = append(acc, cur), 0, 0
			}
		}
	}
	ok := true
	if pad && bits > 0 {
		acc = append(acc, cur<<(int(to)-bits))
	} else if !pad {
		ok = bits == 0 || bits <= 4 && cur == 0
	}
	t.Shape("regroup %d to %d pad %v fits %v", from, to, pad, ok)
	out = t.Call("bytom.ConvertBits", bytom.ConvertBits, t.spare(g), from, to, pad)
	t.Check((errOf(out) == nil) == ok && (!ok || bytes.Equal(out[0].([]byte), acc)), "bytom: %x regrouped from %d to %d bits (pad %v) is %x %v, want %x (%v)", g, from, to, pad, out[0], errOf(out), acc, ok)
	f := t.Mutate(five)
	fits := true
	for _, x := range f {
		fits = fits && x < 32
	}
	if out := t.Call("bytom.Bech32Encode", bytom.Bech32Encode, hrp, t.spare(f)); fits {
		w := rBech(hrp, f, kBech32)
		t.Check(errOf(out) == nil && str(out, 0) == w, "bytom: groups %x with prefix %s are %s %v, want %s", f, hrp, out[0], errOf(out), w)
	} else {
		t.Check(errOf(out) != nil, "bytom: groups %x, one of them above 31, are encoded as %s", f, out[0])
	}
	for i := 0; i < 3; i++ {
		m := t.badBech(want, hrp, five, kBech32)
		out := t.Call("bytom.Bech32Decode", bytom.Bech32Decode, m)
		t.ev["malformed texts judged"]++
		h, f, ok := rUnBech(m, kBech32)
		ok = ok && len(m) <= 90
		t.Check((errOf(out) == nil) == ok, "bytom: %q decodes to %v, want %s %x (%v)", m, out, h, f, ok)
		t.Check(!ok || str(out, 0) == h && bytes.Equal(out[1].([]byte), f), "bytom: %q decodes to %v, want %s %x", m, out, h, f)
	}
}

func cashFlow(t *T) {
	b := append([]byte{byte(t.Intn(16))}, t.B(20)...)
	if t.P(60) {
		b[0] = byte(t.Intn(2))
	}
	raw := append([]byte{b[0] << 3}, b[1:]...)
	want := rCash("bitcoincash", raw)
	got := str(t.Call("base32PolyMod.Encode", base32PolyMod.Encode, "bitcoincash", bechAlpha, t.spare(b)), 0)
	t.Fp(want)
	t.Check(got == want, "cash address of %x is %s, want %s", b, got, want)
	out := t.Call("base32PolyMod.Decode", base32PolyMod.Decode, got, bechAlpha)
	t.Check(errOf(out) == nil && bytes.Equal(out[0].([]byte), b), "cash address %s decodes to %x %v, want %x", got, out[0], errOf(out), b)
	for i := 0; i < 3; i++ {
		m := t.MutateText(got)
		switch t.Intn(5) {
		case 0:
			m = t.lookalike(got)
		case 1:
			m = strings.ToUpper(got)
			if t.Bool() { // another network
				net := t.Str("bchtest", "bchreg", "bitcoincasg", "b", "bitcoincashx", t.hrp())
				m = net + ":" + strings.SplitN(got, ":", 2)[1]
				if t.Bool() {
					m = rCash(net, raw)
				}
			}
		case 2: // other bits in the version byte or the padding
			f := rTo5(raw)
			if t.Bool() {
				f[len(f)-1] ^= byte(1 + t.Intn(3))
			} else {
				f[t.Intn(2)] ^= byte(1 << uint(t.Intn(5)))
			}
			m = cashText("bitcoincash", f)
		}
		out := t.Call("base32PolyMod.Decode", base32PolyMod.Decode, m, bechAlpha)
		t.ev["malformed texts judged"]++
		if errOf(out) == nil {
			p := out[0].([]byte)
			t.Check(len(p) > 0 && p[0] < 16 && cashText("bitcoincash", rTo5(append([]byte{p[0] << 3}, p[1:]...))) == strings.ToLower(m) && m[0] < 128 && (strings.ToLower(m) == m || strings.ToUpper(m) == m),
				"cash address text %q decodes to %x, which is not its content", m, p)
		}
	}
}

// cashText is the cash address text of the given five-bit groups.
func cashText(prefix string, five []byte) string {
	v := []byte{}
	for i := 0; i < len(prefix); i++ {
		v = append(v, prefix[i]&31)
	}
	v = append(v, 0)
	v = append(v, five...)
	c := rCashPoly(append(append([]byte{}, v...), make([]byte, 8)...))
	s := prefix + ":"
	for _, x := range five {
		s += string(bechAlpha[x])
	}
	for i := 0; i < 8; i++ {
		s += string(bechAlpha[c>>(5*uint(7-i))&31])
	}
	return s
}

// ---------------------------------------------------------------- base64, hex, checksums

func base64Flow(t *T) {
	al := []byte("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
	switch t.Intn(3) {
	case 0:
		al[62], al[63] = '-', '_'
	case 1:
		t.Shuffle(64, func(i, j int) { al[i], al[j] = al[j], al[i] })
	}
	ref := base64.NewEncoding(string(al))
	enc := ae.NewEncoding(string(al))
	b := t.longBytes(200)
	got := str(t.Call("Encoding.Base64Encode", (*ae.Encoding).Base64Encode, enc, t.spare(b)), 0)
	want := ref.EncodeToString(b)
	t.Fp(want)
	t.Check(got == want, "base64 of %x with %s is %s, want %s", b, al, got, want)
	t.Check(t.Call("Encoding.EncodedLen", (*ae.Encoding).EncodedLen, enc, len(b))[0].(int) == len(want), "base64 length of %d bytes", len(b))
	for i := 0; i < 3; i++ {
		s := got
		if i > 0 {
			s = t.MutateText(got)
		}
		w, err := ref.DecodeString(s)
		out := t.Call("Encoding.Base64Decode", (*ae.Encoding).Base64Decode, enc, s)
		t.Check((errOf(out) == nil) == (err == nil), "base64 text %q decodes with error %v, want %v", s, errOf(out), err)
		t.Check(err != nil || bytes.Equal(w, out[0].([]byte)), "base64 text %q decodes to %x, want %x", s, out[0], w)
	}
}

var sumKinds = []string{"doubleSHA256", "doubleBlake256", "keccak256", "sha3_256", "blake2b_and_keccak256_first_twenty", "ripemd160"}

func checksumFlow(t *T) {
	b := t.longBytes(300)
	k := sumKinds[t.Intn(len(sumKinds))]
	t.Fp(hx(b), k)
	sum := rChecksum(k, b)
	out := t.Call("CalcChecksum", ae.CalcChecksum, t.spare(b), k)
	t.Check(bytes.Equal(out[0].([]byte), sum), "checksum %s of %x is %x, want %x", k, b, out[0], sum)
	full := cat(b, sum)
	t.Check(t.Call("VerifyChecksum", ae.VerifyChecksum, t.spare(full), k)[0].(bool), "checksum %s of %x is refused", k, full)
	m := t.Mutate(full)
	ok := len(m) >= 4 && bytes.Equal(rChecksum(k, m[:max(len(m)-4, 0)]), m[max(len(m)-4, 0):])
	t.Check(t.Call("VerifyChecksum", ae.VerifyChecksum, t.spare(m), k)[0].(bool) == ok, "checksum %s of %x is judged other than %v", k, m, ok)
	c := t.B(t.Small(0, 40))
	cc := t.Call("CatData", ae.CatData, t.spare(b), t.spare(c))[0].([]byte)
	t.Check(bytes.Equal(cc, cat(b, c)), "%x and %x joined are %x", b, c, cc)
	crc := t.Call("CRC32", ae.CRC32, t.spare(b))[0].([]byte)
	t.Check(bytes.Equal(crc, be32(crc32.ChecksumIEEE(b))), "CRC32 of %x is %x, want %x", b, crc, be32(crc32.ChecksumIEEE(b)))
	al := string(t.alphabet())
	e := str(t.Call("EncodeData", ae.EncodeData, t.spare(full), "base58", al), 0)
	w, _ := translate(rB58(full, b58btc), []rune(b58btc), []rune(al))
	t.Check(e == w, "EncodeData of %x with %s is %s, want %s", full, al, e, w)
	np, ns := t.Intn(min(len(b), 4)+1), 0
	if len(b)-np > 0 && t.P(30) {
		ns = t.Intn(min(len(b)-np, 3) + 1)
	}
	var suffix interface{}
	if ns > 0 {
		suffix = t.spare(b[len(b)-ns:])
	}
	d := t.Call("DecodeData", ae.DecodeData, e, "base58", al, k, t.spare(b[:np]), suffix)
	t.Check(errOf(d) == nil && bytes.Equal(d[0].([]byte), b[np:len(b)-ns]), "DecodeData of %s gives %x %v, want %x", e, d[0], errOf(d), b[np:len(b)-ns])
	a := t.B(32)
	x := str(t.Call("Eip55_encode", eip55.Eip55_encode, t.spare(a)), 0)
	t.Check(x == hx(a[12:]), "Eip55_encode of %x is %s", a, x)
	for _, s := range []string{x, "0x" + x, strings.ToUpper(x), t.MutateText(x)} {
		out := t.Call("Eip55_decode", eip55.Eip55_decode, s)
		w, ok := tryHex(strings.TrimPrefix(s, "0x"))
		t.Check((errOf(out) == nil) == ok && (!ok || bytes.Equal(w, out[0].([]byte))), "Eip55_decode of %q is %x %v, want %x (%v)", s, out[0], errOf(out), w, ok)
	}
}

// ---------------------------------------------------------------- BLAKE-256

func blakeFlow(t *T) {
	n := t.Len(0, 700)
	if t.P(20) {
		n = 64*t.Intn(6) + 50 + t.Intn(20)
	}
	b := t.B(n)
	var salt []byte
	is224 := t.Bool()
	var h hash.Hash
	api := "blake256.New"
	if t.Bool() {
		salt = t.B(16)
		t.Do(api+"Salt", func() {
			if is224 {
				h = blake256.New224Salt(t.spare(salt))
			} else {
				h = blake256.NewSalt(t.spare(salt))
			}
		})
	} else {
		t.Do(api, func() {
			if is224 {
				h = blake256.New224()
			} else {
				h = blake256.New()
			}
		})
	}
	want := rBlakeX(b, salt, is224)
	t.Fp(hx(want))
	t.Check(h.Size() == len(want) && h.BlockSize() == 64, "blake256: size %d block %d, want %d 64", h.Size(), h.BlockSize(), len(want))
	if t.P(40) { // earlier use
		h.Write(t.B(t.Len(0, 200)))
		if t.Bool() {
			h.Sum(nil)
		}
		h.Reset()
	}
	var cuts []int
	for at := 0; at < len(b); {
		k := t.Len(0, 130)
		if t.P(30) {
			k = 64 - at%64 + t.Intn(3) - 1
		}
		k = min(max(k, 0), len(b)-at)
		cuts = append(cuts, k)
		w, err := 0, error(nil)
		t.Do("blake256.Write", func() { w, err = h.Write(t.spare(b[at : at+k])) })
		t.Check(w == k && err == nil, "blake256: Write of %d bytes says %d %v", k, w, err)
		at += k
		if t.P(20) {
			mid := rBlakeX(b[:at], salt, is224)
			pre := t.B(t.Small(0, 5))
			var s []byte
			t.Do("blake256.Sum", func() { s = h.Sum(t.spare(pre)) })
			t.Check(bytes.Equal(s, cat(pre, mid)), "blake256: interim sum of %x (writes %v) is %x, want %x%x", b[:at], cuts, s, pre, mid)
		}
		if len(cuts) > 60 {
			h.Write(b[at:])
			break
		}
	}
	var s []byte
	t.Do("blake256.Sum", func() { s = h.Sum(nil) })
	t.Check(bytes.Equal(s, want), "blake256: salt %x, 224 %v, writes %v of %x give %x, want %x", salt, is224, cuts, b, s, want)
	t.Shape("writes %d tail %d", min(len(cuts), 8), len(b)%64)
	d := t.Call("blake256.DoubleBlake256", blake256.DoubleBlake256, t.spare(b))[0].([]byte)
	t.Check(bytes.Equal(d, rDBlake256(b)), "DoubleBlake256 of %x is %x", b, d)
}

// ---------------------------------------------------------------- SCALE

func rScale(v uint64) []byte {
	switch {
	case v < 1<<6:
		return []byte{byte(v << 2)}
	case v < 1<<14:
		return le16(uint16(v<<2 | 1))
	case v < 1<<30:
		return le32(uint32(v<<2 | 2))
	}
	b := le64(v)
	for b[len(b)-1] == 0 {
		b = b[:len(b)-1]
	}
	return append([]byte{byte(len(b)-4)<<2 | 3}, b...)
}

func scaleFlow(t *T) {
	v := t.U64()
	if t.P(40) {
		v = uint64(1)<<uint(t.Intn(64)) + uint64(int64(t.Intn(5)-2))
	}
	t.Fp(v)
	got := str(t.Call("polkadot.Encode", polka.Encode, v), 0)
	t.Check(got == hx(rScale(v)), "SCALE compact of %d is %s, want %x", v, got, rScale(v))
	w := len(rScale(uint64(uint32(v))))
	l := t.Call("polkadot.CompactLength", polka.CompactLength, uint32(v))[0].(int)
	t.Check(l == w, "SCALE length of %d is %d, want %d", uint32(v), l, w)
	b := le64(v)
	for len(b) > 1 && b[len(b)-1] == 0 {
		b = b[:len(b)-1]
	}
	out := t.Call("polkadot.BytesToCompactBytes", polka.BytesToCompactBytes, t.spare(b))[0].([]byte)
	t.Check(bytes.Equal(out, rScale(v)), "SCALE compact of bytes %x is %x, want %x", b, out, rScale(v))
	n := len(b) + t.Intn(6)
	out = t.Call("polkadot.ExtendLEBytes", polka.ExtendLEBytes, t.spare(b), n)[0].([]byte)
	t.Check(bytes.Equal(out, append(append([]byte{}, b...), make([]byte, n-len(b))...)), "%x extended to %d bytes is %x", b, n, out)
	era := t.Call("polkadot.GetEra", polka.GetEra, v)[0].([]byte)
	e := uint16(5 + (v%64)<<4)
	t.Check(bytes.Equal(era, le16(e)), "mortal era at height %d is %x, want %x", v, era, le16(e))
}

func init() {
	propInfo["C21"] = PropInfo{
		Rule:        "A case is a random input (all lengths, leading zeros, edge patterns) to one exported codec or hash; the text or digest is compared with independent code, the text is decoded again, and mutated, re-checksummed, case-folded and look-alike texts are decoded: acceptance and content must be those of the specification. Hashes are fed in random splits with interim sums, salts and re-use. Distinct = distinct outputs.",
		Assumptions: []string{"the reference codecs in harness/src/ref_codec.go and the standard library are right"},
	}
	for i := range b58pkgs {
		p := &b58pkgs[i]
		regFlow("base58-"+p.name, "addressEncoder", map[string]int{"C21": 4500}, base58Flow(p))
	}
	for i := range bechPkgs {
		p := &bechPkgs[i]
		regFlow("bech32-"+p.name, "addressEncoder/bech32", map[string]int{"C21": 4500}, bechFlow(p))
	}
	regFlow("bech32", "addressEncoder/bech32", map[string]int{"C21": 18000}, bech32Flow)
	regFlow("bech32m", "addressEncoder/bech32m", map[string]int{"C21": 15000}, bech32mFlow)
	regFlow("bytombech", "bytomTransaction", map[string]int{"C21": 15000}, bytomBechFlow)
	regFlow("cashaddr", "addressEncoder/base32PolyMod", map[string]int{"C21": 12000}, cashFlow)
	regFlow("base64", "addressEncoder", map[string]int{"C21": 24000}, base64Flow)
	regFlow("checksums", "addressEncoder", map[string]int{"C21": 12000}, checksumFlow)
	regFlow("blake256", "addressEncoder/blake256", map[string]int{"C21": 24000}, blakeFlow)
	regFlow("scale", "polkadotTransaction", map[string]int{"C21": 60000}, scaleFlow)
}
