//go:build go1.22

package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	ae "github.com/blocktree/go-owcdrivers/addressEncoder"
)

// ---- the specification of addresses

func (s *addrSpec) lens() []int {
	if s.enc == "bech32" && s.prefix != nil {
		return []int{20, 32}
	}
	return []int{s.n}
}

// text is the network's address of a payload of the type's own length.
func (s *addrSpec) text(p []byte) string {
	switch s.enc {
	case "base58":
		d := cat(s.prefix, p, s.suffix)
		return rB58(cat(d, rChecksum(s.chk, d)), s.alpha)
	case "bech32":
		return rBech(s.chk, cat(s.prefix, rTo5(p)), kBech32)
	case "bech32m":
		return rBech(s.chk, rTo5(p), kBech32m)
	case "base32PolyMod":
		return rCash(s.chk, cat([]byte{p[0] << 3}, p[1:]))
	case "eip55":
		return hex.EncodeToString(p[12:])
	case "ICX":
		return "hx" + hex.EncodeToString(p)
	case "XMR":
		d := cat(s.prefix, p)
		return rXmrB58(cat(d, rChecksum(s.chk, d)))
	case "eos", "aeternity":
		return string(s.prefix) + rB58(cat(p, rChecksum(s.chk, p)), s.alpha)
	}
	panic("spec")
}

// fromKey is the payload that a public key stands for.
func (s *addrSpec) fromKey(k []byte) []byte {
	h := rHashOf(s.hash, k)
	if s.enc == "base32PolyMod" {
		return cat([]byte{0}, h)
	}
	return h
}

// payloadOf judges any text: the payload, if it is an address of the type.
func (s *addrSpec) payloadOf(a string) ([]byte, bool) {
	has := func(l int) bool {
		for _, x := range s.lens() {
			if x == l {
				return true
			}
		}
		return false
	}
	switch s.enc {
	case "base58":
		b, ok := rUnB58(a, s.alpha)
		if !ok || len(b) < 4 {
			return nil, false
		}
		d := b[:len(b)-4]
		if !bytes.Equal(rChecksum(s.chk, d), b[len(b)-4:]) || !bytes.HasPrefix(d, s.prefix) || !bytes.HasSuffix(d, s.suffix) {
			return nil, false
		}
		if !has(len(d) - len(s.prefix) - len(s.suffix)) {
			return nil, false
		}
		return d[len(s.prefix) : len(d)-len(s.suffix)], true
	case "bech32":
		hrp, five, ok := rUnBech(a, kBech32)
		if !ok || hrp != s.chk || !bytes.HasPrefix(five, s.prefix) {
			return nil, false
		}
		p, ok := rFrom5(five[len(s.prefix):])
		return p, ok && (len(p) == 20 || len(p) == 32)
	case "bech32m":
		hrp, five, ok := rUnBech(a, kBech32m)
		if !ok || hrp != s.chk {
			return nil, false
		}
		p, ok := rFrom5(five)
		return p, ok && has(len(p))
	case "base32PolyMod":
		l := strings.ToLower(a)
		if l != a && strings.ToUpper(a) != a {
			return nil, false
		}
		i := strings.IndexByte(l, ':')
		if i < 0 || l[:i] != s.chk {
			return nil, false
		}
		var five []byte
		for _, c := range []byte(l[i+1:]) {
			x := strings.IndexByte(bechAlpha, c)
			if x < 0 {
				return nil, false
			}
			five = append(five, byte(x))
		}
		if len(five) < 8 {
			return nil, false
		}
		p, ok := rFrom5(five[:len(five)-8])
		if !ok || len(p) != s.n || p[0]&0x87 != 0 || rCash(s.chk, p) != l {
			return nil, false
		}
		p[0] >>= 3
		return p, true
	case "eip55":
		a = strings.TrimPrefix(a, "0x")
		b, err := hex.DecodeString(a)
		return b, err == nil && len(b) == 20
	case "ICX":
		if !strings.HasPrefix(a, "hx") {
			return nil, false
		}
		b, err := hex.DecodeString(a[2:])
		return b, err == nil && len(b) == 20
	case "XMR":
		b, ok := rUnXmr(a)
		if !ok || len(b) != 1+s.n+4 || b[0] != s.prefix[0] || !bytes.Equal(rKeccak(b[:1+s.n])[:4], b[1+s.n:]) {
			return nil, false
		}
		return b[1 : 1+s.n], true
	case "eos", "aeternity":
		suffix := ""
		m := ""
		switch {
		case s.enc == "eos" && strings.HasPrefix(a, "PUB_K1_"):
			m, suffix = a[7:], "K1"
		case s.enc == "eos" && strings.HasPrefix(a, "PUB_R1_"):
			m, suffix = a[7:], "R1"
		case strings.HasPrefix(a, string(s.prefix)):
			m = a[len(s.prefix):]
		default:
			return nil, false
		}
		b, ok := rUnB58(m, s.alpha)
		if !ok || len(b) != s.n+4 || !bytes.Equal(rChecksum(s.chk, cat(b[:s.n], []byte(suffix))), b[s.n:]) {
			return nil, false
		}
		return b[:s.n], true
	}
	panic("spec")
}

func rUnXmr(a string) ([]byte, bool) {
	var out []byte
	size := map[int]int{2: 1, 3: 2, 5: 3, 6: 4, 7: 5, 9: 6, 10: 7, 11: 8}
	for len(a) > 0 {
		n := min(11, len(a))
		k, ok := size[n]
		if !ok {
			return nil, false
		}
		b, ok := rUnB58(a[:n], b58btc)
		if !ok {
			return nil, false
		}
		for len(b) > 0 && b[0] == 0 {
			b = b[1:]
		}
		if len(b) > k {
			return nil, false
		}
		out = append(out, make([]byte, k-len(b))...)
		out = append(out, b...)
		a = a[n:]
	}
	return out, true
}

// decoded is what decoding returns for a payload.
func (s *addrSpec) decoded(p []byte) []byte {
	if s.enc == "eip55" {
		return p[12:]
	}
	return p
}

func (t *T) pickAddr() *addrSpec {
	return &addrSpecs[(t.idx+t.Intn(3)*45)%len(addrSpecs)]
}

func (t *T) payload(s *addrSpec) []byte {
	ls := s.lens()
	p := t.B(ls[t.Intn(len(ls))])
	if s.enc == "base32PolyMod" {
		p[0] = byte(t.Intn(2)) // key hash or script hash
		if t.P(5) {
			p[0] = byte(t.Intn(16))
		}
	}
	return p
}

// addrChecks: the symbols the validation call knows.
var addrChecks = map[string][]string{
	"BTC":  {"BTC_mainnetAddressP2PKH", "BTC_mainnetAddressP2SH", "BTC_mainnetAddressBech32V0", "BTC_testnetAddressP2PKH", "BTC_testnetAddressP2SH", "BTC_testnetAddressBech32V0"},
	"ZEC":  {"ZEC_mainnet_t_AddressP2PKH", "ZEC_mainnet_t_AddressP2SH", "ZEC_testnet_t_AddressP2PKH", "ZEC_testnet_t_AddressP2SH"},
	"LTC":  {"LTC_mainnetAddressP2PKH", "LTC_mainnetAddressP2SH", "LTC_mainnetAddressP2SH2", "LTC_mainnetAddressBech32V0", "LTC_testnetAddressP2PKH", "LTC_testnetAddressP2SH", "LTC_testnetAddressBech32V0"},
	"BCH":  {"BCH_mainnetAddressLegacy", "BCH_mainnetAddressCash"},
	"XTZ":  {"XTZ_mainnetAddress_tz1", "XTZ_mainnetAddress_tz2", "XTZ_mainnetAddress_tz3"},
	"HC":   {"HC_mainnetPublicAddress"},
	"ETH":  {"ETH_mainnetPublicAddress"},
	"QTUM": {"QTUM_mainnetAddressP2PKH", "QTUM_mainnetAddressP2SH", "QTUM_testnetAddressP2PKH", "QTUM_testnetAddressP2SH"},
	"DCRD": {"DCRD_mainnetAddressP2PKH", "DCRD_mainnetAddressP2PK", "DCRD_mainnetAddressPKHEdwards", "DCRD_mainnetAddressPKHSchnorr", "DCRD_mainnetAddressP2SH", "DCRD_mainnetAddressPrivate",
		"DCRD_testnetAddressP2PKH", "DCRD_testnetAddressP2PK", "DCRD_testnetAddressPKHEdwards", "DCRD_testnetAddressP2PKHSchnorr", "DCRD_testnetAddressP2SH", "DCRD_testnetAddressPrivate",
		"DCRD_simnetAddressP2PKH", "DCRD_simnetAddressP2PK", "DCRD_simnetAddressPKHEdwards", "DCRD_simnetAddressPKHSchnorr", "DCRD_simnetAddressP2SH", "DCRD_simnetAddressPrivate"},
	"NAS":  {"NAS_AccountAddress", "NAS_SmartContractAddress"},
	"TRX":  {"TRON_mainnetAddress"},
	"ICX":  {"ICX_walletAddress"},
	"VSYS": {"VSYS_mainnetAddress"},
}

var addrByName = map[string]*addrSpec{}
var addrSymbols []string

func init() {
	for i := range addrSpecs {
		addrByName[addrSpecs[i].name] = &addrSpecs[i]
	}
	for _, s := range []string{"BTC", "ZEC", "LTC", "BCH", "XTZ", "HC", "ETH", "QTUM", "DCRD", "NAS", "TRX", "ICX", "VSYS"} {
		addrSymbols = append(addrSymbols, s)
		for _, n := range addrChecks[s] {
			if addrByName[n] == nil {
				panic(n)
			}
		}
	}
	propInfo["C01"] = PropInfo{
		Rule:        "a case is one (address type, payload or key) pair; payloads are PRNG bytes with forced zero, ff and literal-dictionary bytes; non-trivial = the library was asked to encode and decode it and both results were compared with an independent encoder; distinct = distinct (type, payload)",
		Assumptions: []string{"hash primitives of golang.org/x/crypto and the reference codecs in harness/src/ref_codec.go are right", "the network constants in harness/src/addr_table.go are the specification"},
	}
	propInfo["C02"] = PropInfo{
		Rule:        "a case takes a valid address of one type and decodes several corruptions (edits, truncations, foreign prefixes, wrong lengths with right checksum, other types' addresses); non-trivial = the text differs from the valid one; distinct = distinct texts",
		Assumptions: []string{"upper-case bech32/cashaddr/hex forms may be accepted or refused; when accepted the payload must be right"},
	}
	reg(&Suite{Prop: "C01", Name: "addr-roundtrip", Pkg: "addressEncoder", Quick: 40000, Deep: 1200000, Run: func(t *T) {
		s := t.pickAddr()
		p := t.payload(s)
		want := s.text(p)
		t.Logf("type %s payload %x expected %s", s.name, p, want)
		t.Fp(s.name, p)
		t.Shape("%s/%d", s.name, len(p))
		var got string
		t.Do("AddressEncode", func() { got = ae.AddressEncode(append([]byte{}, p...), s.typ) })
		t.Check(got == want, "%s: encoding payload %x gave %q, the network's address is %q", s.name, p, got, want)
		var d []byte
		var err error
		t.Do("AddressDecode", func() { d, err = ae.AddressDecode(want, s.typ) })
		t.Check(err == nil, "%s: valid address %q refused: %v", s.name, want, err)
		t.Check(bytes.Equal(d, s.decoded(p)), "%s: address %q of payload %x decoded to %x", s.name, want, p, d)
	}})
	reg(&Suite{Prop: "C01", Name: "addr-from-key", Pkg: "addressEncoder", Quick: 20000, Deep: 500000, Run: func(t *T) {
		s := t.pickAddr()
		for s.hash == "" || s.hash == "payID" || s.enc == "bech32" || s.enc == "bech32m" {
			s = &addrSpecs[t.Intn(len(addrSpecs))]
		}
		n := []int{33, 65, 64, 32}[t.Intn(4)]
		if n == s.n {
			n = 33
		}
		k := t.B(n)
		p := s.fromKey(k)
		want := s.text(p)
		t.Fp(s.name, k)
		t.Shape("%s/key%d", s.name, n)
		t.Logf("type %s key %x expected %s", s.name, k, want)
		var got string
		t.Do("AddressEncode(key)", func() { got = ae.AddressEncode(append([]byte{}, k...), s.typ) })
		t.Check(got == want, "%s: encoding key %x gave %q, the network's address is %q", s.name, k, got, want)
	}})
	// the same data under one type after another
	reg(&Suite{Prop: "C01", Name: "addr-many-types", Pkg: "addressEncoder", Quick: 2500, Deep: 60000, Serial: true, Run: func(t *T) {
		n := []int{33, 65, 64, 32, 20, 21, 33}[t.Intn(7)]
		k := t.B(n)
		t.Fp(k)
		var log []string
		for i := 0; i < 8; i++ {
			s := &addrSpecs[t.Intn(len(addrSpecs))]
			var p []byte
			for _, l := range s.lens() {
				if l == n {
					p = k
				}
			}
			if p == nil && (s.hash == "" || s.hash == "payID" || s.enc == "bech32" || s.enc == "bech32m" || n < 32) {
				continue
			}
			if p == nil {
				p = s.fromKey(k)
			} else if s.enc == "base32PolyMod" && p[0] > 1 {
				continue
			}
			want := s.text(p)
			log = append(log, s.name)
			var got string
			t.Do("AddressEncode", func() { got = ae.AddressEncode(append([]byte{}, k...), s.typ) })
			t.Check(got == want, "%s: after %v encoding %x gave %q, the network's address is %q", s.name, log, k, got, want)
			fits := false
			for _, l := range s.lens() {
				fits = fits || l == len(p)
			}
			if !fits {
				continue
			}
			var d []byte
			var err error
			t.Do("AddressDecode", func() { d, err = ae.AddressDecode(want, s.typ) })
			t.Check(err == nil && bytes.Equal(d, s.decoded(p)), "%s: after %v address %q of payload %x decoded to %x %v", s.name, log, want, p, d, err)
		}
		t.Shape("data of %d bytes under %d types", n, len(log))
		t.trivial = len(log) == 0
	}})
	reg(&Suite{Prop: "C01", Name: "addr-check", Pkg: "addressEncoder", Quick: 20000, Deep: 500000, Run: func(t *T) {
		sym := addrSymbols[t.idx%len(addrSymbols)]
		s := addrByName[addrChecks[sym][t.Intn(len(addrChecks[sym]))]]
		p := t.payload(s)
		a := s.text(p)
		t.Fp(sym, a)
		t.Shape("%s/%s", sym, s.name)
		var ok bool
		var err error
		t.Do("AddressCheck", func() { ok, err = ae.AddressCheck(a, sym) })
		if s.name == "DCRD_simnetAddressPrivate" || s.name == "DCRD_mainnetAddressPrivate" || s.name == "DCRD_testnetAddressPrivate" {
			return // private keys are not addresses; either answer is fine
		}
		t.Check(ok && err == nil, "%s address %q of type %s does not pass validation: %v", sym, a, s.name, err)
	}})
	// custom types: other prefixes, suffixes and checksums through the same entry points
	reg(&Suite{Prop: "C01", Name: "addr-custom-type", Pkg: "addressEncoder", Quick: 8000, Deep: 200000, Run: func(t *T) {
		s := t.customType()
		p := t.B(s.n)
		want := s.text(p)
		t.Fp(s.chk, s.prefix, s.suffix, p)
		t.Shape("%s/p%d/s%d", s.chk, len(s.prefix), len(s.suffix))
		var got string
		t.Do("AddressEncode", func() { got = ae.AddressEncode(append([]byte{}, p...), s.typ) })
		t.Check(got == want, "custom type %+v: encoding %x gave %q, want %q", s.typ, p, got, want)
		var d []byte
		var err error
		t.Do("AddressDecode", func() { d, err = ae.AddressDecode(want, s.typ) })
		t.Check(err == nil && bytes.Equal(d, p), "custom type %+v: %q decoded to %x, %v; want %x", s.typ, want, d, err, p)
	}})
	reg(&Suite{Prop: "C02", Name: "addr-corrupt", Pkg: "addressEncoder", Quick: 12000, Deep: 400000, Run: func(t *T) {
		s := t.pickAddr()
		a := s.text(t.payload(s))
		for i := 0; i < 8; i++ {
			t.judge(s, t.corrupt(s, a))
		}
	}})
	reg(&Suite{Prop: "C02", Name: "addr-every-position", Pkg: "addressEncoder", Quick: 270, Deep: 5000, Run: func(t *T) {
		s := &addrSpecs[t.idx%len(addrSpecs)]
		a := s.text(t.payload(s))
		pool := s.alpha
		if pool == "" {
			pool = "0123456789abcdefghx"
		}
		for i := range a {
			c := pool[t.Intn(len(pool))]
			if c != a[i] {
				t.judge(s, a[:i]+string(c)+a[i+1:])
			}
			t.judge(s, a[:i])
			t.judge(s, a[:i]+a[i+1:])
			if i+1 < len(a) && a[i] != a[i+1] {
				t.judge(s, a[:i]+string(a[i+1])+string(a[i])+a[i+2:])
			}
		}
	}})
	reg(&Suite{Prop: "C02", Name: "addr-cross-type", Pkg: "addressEncoder", Quick: 270, Deep: 5000, Run: func(t *T) {
		s := &addrSpecs[t.idx%len(addrSpecs)]
		for i := range addrSpecs {
			o := &addrSpecs[i]
			t.judge(s, o.text(t.payload(o)))
		}
	}})
	reg(&Suite{Prop: "C02", Name: "addr-check-corrupt", Pkg: "addressEncoder", Quick: 8000, Deep: 250000, Run: func(t *T) {
		sym := addrSymbols[t.idx%len(addrSymbols)]
		s := addrByName[addrChecks[sym][t.Intn(len(addrChecks[sym]))]]
		a := t.corrupt(s, s.text(t.payload(s)))
		if t.P(15) {
			o := &addrSpecs[t.Intn(len(addrSpecs))]
			a = o.text(t.payload(o))
		}
		t.Fp(sym, a)
		valid := false
		for _, n := range addrChecks[sym] {
			if _, ok := addrByName[n].payloadOf(a); ok {
				valid = true
			}
		}
		var ok bool
		t.Do("AddressCheck", func() { ok, _ = ae.AddressCheck(a, sym) })
		t.Shape("%s/accepted=%v", sym, ok)
		t.Check(!ok || valid, "validation for %s accepts %q, which is no address of that coin", sym, a)
	}})
	reg(&Suite{Prop: "C02", Name: "addr-custom-corrupt", Pkg: "addressEncoder", Quick: 8000, Deep: 200000, Run: func(t *T) {
		s := t.customType()
		a := s.text(t.B(s.n))
		for i := 0; i < 4; i++ {
			t.judge(s, t.corrupt(s, a))
		}
	}})
}

func (t *T) customType() *addrSpec {
	s := &addrSpec{enc: "base58", alpha: t.Str(b58btc, b58xrp), name: "custom"}
	s.chk = t.Str("doubleSHA256", "doubleBlake256", "keccak256", "sha3_256", "blake2b_and_keccak256_first_twenty", "ripemd160")
	s.n = 1 + t.Intn(80)
	s.prefix = t.B(t.Intn(6))
	if t.Bool() {
		s.suffix = t.B(1 + t.Intn(3))
	}
	s.typ = ae.AddressType{EncodeType: s.enc, Alphabet: s.alpha, ChecksumType: s.chk, HashType: "", HashLen: s.n, Prefix: append([]byte{}, s.prefix...), Suffix: s.suffix}
	return s
}

// judge decodes a text under a type: acceptance is right only for an address of the type.
func (t *T) judge(s *addrSpec, a string) {
	want, valid := s.payloadOf(a)
	t.Fp(a)
	var d []byte
	var err error
	t.Do("AddressDecode", func() { d, err = ae.AddressDecode(a, s.typ) })
	t.Shape("%s/valid=%v/accepted=%v", s.name, valid, err == nil)
	if err != nil {
		return
	}
	t.Check(valid, "%s: %q is no address of this type but decoded to %x", s.name, a, d)
	t.Check(bytes.Equal(d, want), "%s: %q decoded to %x, its payload is %x", s.name, a, d, want)
}

// corrupt makes a text that is usually no address of the type.
func (t *T) corrupt(s *addrSpec, a string) string {
	p := t.payload(s)
	switch t.Intn(14) {
	case 0: // wrong payload length, right checksum
		n := t.Intn(s.n + 8)
		q := t.B(n)
		switch s.enc {
		case "base58", "XMR":
			d := cat(s.prefix, q, s.suffix)
			if s.enc == "XMR" {
				return rXmrB58(cat(d, rChecksum(s.chk, d)))
			}
			return rB58(cat(d, rChecksum(s.chk, d)), s.alpha)
		case "bech32":
			return rBech(s.chk, cat(s.prefix, rTo5(q)), kBech32)
		case "bech32m":
			return rBech(s.chk, rTo5(q), kBech32m)
		case "base32PolyMod":
			if n > 0 {
				return rCash(s.chk, q)
			}
		case "eos", "aeternity":
			return string(s.prefix) + rB58(cat(q, rChecksum(s.chk, q)), s.alpha)
		case "eip55":
			return t.Str("", "0x") + hx(q)
		case "ICX":
			return "hx" + hx(q)
		}
	case 1: // wrong prefix, right checksum
		switch s.enc {
		case "base58", "XMR":
			pre := append([]byte{}, s.prefix...)
			if len(pre) > 0 {
				pre[t.Intn(len(pre))] ^= byte(1 + t.Intn(255))
			}
			d := cat(pre, p, s.suffix)
			if s.enc == "XMR" {
				return rXmrB58(cat(d, rChecksum(s.chk, d)))
			}
			return rB58(cat(d, rChecksum(s.chk, d)), s.alpha)
		case "bech32":
			if t.Bool() && s.prefix != nil {
				return rBech(s.chk, cat([]byte{byte(t.Intn(32))}, rTo5(p)), kBech32)
			}
			return rBech(t.Str("bc", "tb", "ltc", "cosmos", "bm", "bnb", s.chk+"a", "a"+s.chk, s.chk[:1], s.chk+"1"), cat(s.prefix, rTo5(p)), kBech32)
		case "bech32m":
			return rBech(t.Str("bc", "tb", "txch", "xc", "xchh", "xch1"), rTo5(p), kBech32m)
		case "base32PolyMod":
			return rCash(t.Str("bchtest", "bchreg", "bitcoincas", "bitcoincashh", "litecoincash"), cat([]byte{p[0] << 3}, p[1:]))
		case "eos", "aeternity":
			return t.Str("PUB_K1_", "PUB_R1_", "EO", "eos", "EOSS", "sk_", "ak", "", "ct_") + rB58(cat(p, rChecksum(s.chk, p)), s.alpha)
		case "ICX":
			return t.Str("cx", "Hx", "hX", "h", "") + hx(p)
		case "eip55":
			return t.Str("0X", "x", "00", "0x0x") + hx(p[12:])
		}
	case 2: // wrong suffix or surplus payload, right checksum
		if s.enc == "base58" {
			d := cat(s.prefix, p, t.B(1+t.Intn(3)))
			return rB58(cat(d, rChecksum(s.chk, d)), s.alpha)
		}
		if s.enc == "bech32" { // checksum of the other variant
			return rBech(s.chk, cat(s.prefix, rTo5(p)), kBech32m)
		}
		if s.enc == "bech32m" {
			return rBech(s.chk, rTo5(p), kBech32)
		}
		if s.enc == "eos" {
			k := t.Str("K1", "R1")
			return "PUB_" + k + "_" + rB58(cat(p, rChecksum(s.chk, cat(p, []byte(k)))), s.alpha)
		}
	case 3: // one checksum byte of another hash
		if s.enc == "base58" {
			d := cat(s.prefix, p, s.suffix)
			c := append([]byte{}, rChecksum(s.chk, d)...)
			c[t.Intn(4)] ^= 1 << t.Intn(8)
			return rB58(cat(d, c), s.alpha)
		}
		if s.enc == "eos" || s.enc == "aeternity" {
			c := append([]byte{}, rChecksum(s.chk, p)...)
			c[t.Intn(4)] ^= 1 << t.Intn(8)
			return string(s.prefix) + rB58(cat(p, c), s.alpha)
		}
		if s.enc == "XMR" {
			d := cat(s.prefix, p)
			c := append([]byte{}, rChecksum(s.chk, d)...)
			c[t.Intn(4)] ^= 1 << t.Intn(8)
			return rXmrB58(cat(d, c))
		}
	case 4: // checksum of another kind
		if s.enc == "base58" {
			d := cat(s.prefix, p, s.suffix)
			return rB58(cat(d, rChecksum(t.Str("doubleSHA256", "doubleBlake256", "keccak256", "sha3_256", "ripemd160"), d)), s.alpha)
		}
		if s.enc == "bech32" || s.enc == "bech32m" { // non-zero padding with right checksum
			k := kBech32
			if s.enc == "bech32m" {
				k = kBech32m
			}
			five := rTo5(p)
			five[len(five)-1] ^= byte(1 + t.Intn(31))
			if t.Bool() {
				five = append(rTo5(p), byte(t.Intn(2)))
			}
			return rBech(s.chk, cat(s.prefix, five), k)
		}
		if s.enc == "XMR" { // a block with 2^64 added
			return t.xmrOverflow(a)
		}
		if s.enc == "base32PolyMod" {
			return rCash(s.chk, cat([]byte{p[0]<<3 | byte(1+t.Intn(7))}, p[1:]))
		}
	case 5:
		return strings.ToUpper(a)
	case 6:
		return strings.ToLower(a)
	case 7: // leading/trailing white space or zero digit
		z := "1"
		if s.alpha != "" {
			z = s.alpha[:1]
		}
		return t.Str(" "+a, a+" ", a+"\n", z+a, a+z, a+a, "0x"+a)
	case 8:
		return t.Text(t.Intn(60))
	case 9:
		b := t.MutateText(a)
		return t.MutateText(b)
	}
	return t.MutateText(a)
}

func (t *T) xmrOverflow(a string) string {
	nb := len(a) / 11
	for try := 0; try < 10; try++ {
		i := t.Intn(nb)
		blk := a[i*11 : i*11+11]
		// add 2^64 in base 58 if it fits in eleven digits
		add, _ := rUnB58("1", b58btc)
		_ = add
		v := make([]int, 11)
		for j := range v {
			v[j] = strings.IndexByte(b58btc, blk[j])
		}
		w := []int{}
		s := rB58([]byte{1, 0, 0, 0, 0, 0, 0, 0, 0}, b58btc)
		for j := 0; j < 11-len(s); j++ {
			w = append(w, 0)
		}
		for _, c := range []byte(s) {
			w = append(w, strings.IndexByte(b58btc, c))
		}
		c := 0
		o := make([]byte, 11)
		for j := 10; j >= 0; j-- {
			x := v[j] + w[j] + c
			o[j] = b58btc[x%58]
			c = x / 58
		}
		if c == 0 {
			return a[:i*11] + string(o) + a[i*11+11:]
		}
	}
	return t.MutateText(a)
}

var _ = fmt.Sprint
