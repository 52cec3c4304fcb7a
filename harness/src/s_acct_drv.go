//go:build go1.22

package main

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	bigbang "github.com/blocktree/go-owcdrivers/bigbangTransaction"
	binance "github.com/blocktree/go-owcdrivers/binancechainTransaction"
	cosmos "github.com/blocktree/go-owcdrivers/cosmosTransaction"
	evaio "github.com/blocktree/go-owcdrivers/evaioTransaction"
	filenet "github.com/blocktree/go-owcdrivers/filenetTransaction"
	moac "github.com/blocktree/go-owcdrivers/moacchainTransaction"
	ontology "github.com/blocktree/go-owcdrivers/ontologyTransaction"
	polkadot "github.com/blocktree/go-owcdrivers/polkadotTransaction"
	ripple "github.com/blocktree/go-owcdrivers/rippleTransaction"
	vsys "github.com/blocktree/go-owcdrivers/virtualeconomyTransaction"
	wayki "github.com/blocktree/go-owcdrivers/waykichainTransaction"
	"github.com/tidwall/gjson"
)

// signHex adapts a signing call that answers with hex text.
func (t *T) signHex(api string, fn interface{}) func(string, []byte) ([]byte, error) {
	return func(msg string, pri []byte) ([]byte, error) {
		out := t.CallR(api, fn, msg, pri)
		if errOf(out) != nil {
			return nil, errOf(out)
		}
		b, ok := tryHex(str(out, 0))
		t.Check(ok && hx(b) == str(out, 0), "%s: signature %q is not hex", api, str(out, 0))
		return b, nil
	}
}

// signRaw adapts a signing call that answers with bytes.
func (t *T) signRaw(api string, fn interface{}) func(string, []byte) ([]byte, error) {
	return func(msg string, pri []byte) ([]byte, error) {
		out := t.CallR(api, fn, msg, pri)
		if errOf(out) != nil {
			return nil, errOf(out)
		}
		return out[0].([]byte), nil
	}
}

func (t *T) created(name string, out []interface{}) (string, string) {
	t.Check(errOf(out) == nil, "%s: a faithful request is refused: %v", name, errOf(out))
	return str(out, 0), str(out, 1)
}

// ---------------------------------------------------------------- ripple

func xrpAddr(h []byte) string {
	b := append([]byte{0}, h...)
	return rB58(append(b, rDsha(b)[:4]...), b58xrp)
}

func xrpVL(s string) []byte {
	l := len(s)
	switch {
	case l <= 192:
		return append([]byte{byte(l)}, s...)
	case l <= 12480:
		l -= 193
		return append([]byte{byte(193 + l/256), byte(l % 256)}, s...)
	}
	l -= 12481
	return append([]byte{byte(241 + l/65536), byte(l / 256 % 256), byte(l % 256)}, s...)
}

func (t *T) xrpMemo() string {
	switch t.Intn(12) {
	case 0:
		return strings.Repeat("m", t.Intn(3)+191)
	case 1:
		return strings.Repeat("n", t.Intn(800)+193)
	case 2:
		if t.P(20) {
			return strings.Repeat("p", t.Intn(3)+12479)
		}
		if t.P(10) {
			return strings.Repeat("q", 918742+t.Intn(3))
		}
	}
	return t.utext(40)
}

func ripplePlan(t *T) *acPlan {
	k := t.acKey("k1")
	h := rH160(k.pub)
	if t.P(20) {
		h = t.B(20)
	}
	to := t.B(20)
	tag := int64(-1)
	if t.P(60) {
		tag = int64(t.U32())
	}
	seq, lls := t.U32(), t.U32()
	amt, fee := t.U64In(1, 1<<62-1), t.U64In(1, 1<<62-1)
	mt, md, mf := t.xrpMemo(), t.xrpMemo(), t.xrpMemo()
	out := t.Call("ripple.Create", ripple.CreateEmptyRawTransactionAndHash, xrpAddr(h), t.caseHex(k.pub), tag, seq, xrpAddr(to), amt, fee, lls, mt, md, mf)
	tx, msg := t.created("ripple", out)
	a := cat([]byte{0x12, 0, 0, 0x22, 0x80, 0, 0, 0, 0x24}, be32(seq))
	if tag >= 0 {
		a = cat(a, []byte{0x2e}, be32(uint32(tag)))
	}
	a = cat(a, []byte{0x20, 0x1b}, be32(lls), []byte{0x61}, be64(amt|1<<62), []byte{0x68}, be64(fee|1<<62), []byte{0x73, 0x21}, k.pub)
	b := cat([]byte{0x81, 0x14}, h, []byte{0x83, 0x14}, to)
	if md != "" {
		b = cat(b, []byte{0xf9, 0xea})
		if mt != "" {
			b = cat(b, []byte{0x7c}, xrpVL(mt))
		}
		b = cat(b, []byte{0x7d}, xrpVL(md))
		if mf != "" {
			b = cat(b, []byte{0x7e}, xrpVL(mf))
		}
		b = append(b, 0xe1, 0xf1)
	}
	want := hx(a) + "s" + hx(b)
	t.Check(strings.EqualFold(tx, want), "ripple: unsigned transaction\ngot  %s\nwant %s", clip(tx, 900), clip(want, 900))
	t.Shape("tag %v memo %v type %v format %v", tag >= 0, min(len(md)/192, 2), mt != "", mf != "")
	return &acPlan{key: k, tx: tx, msg: msg, wantMsg: rSha512(cat([]byte("STX\x00"), a, b))[:32],
		sign: t.signHex("ripple.Sign", ripple.SignRawTransaction),
		combine: func(tx string, sig []byte, k *aKey) (bool, string) {
			out := t.Call("ripple.Combine", ripple.VerifyAndCombinRawTransaction, tx, t.caseHex(sig), t.caseHex(k.pub))
			return out[0].(bool), strings.ToLower(str(out, 1))
		},
		signed: func(sig []byte) string { return hx(cat(a, []byte{0x74}, vbytes(rDER(sig)), b)) },
		alter: func() string {
			p := strings.Split(tx, "s")
			i := t.Intn(2)
			if t.P(10) {
				return t.Str(p[0]+p[1], p[0]+"s"+p[1]+"s", "s"+p[0]+"s"+p[1], p[0]+p[1]+"s")
			}
			if p[i] = t.hexAlter(p[i]); p[i] == "" {
				return ""
			}
			return p[0] + "s" + p[1]
		}, bound: "yes",
		restate: func(tx string) ([]byte, func([]byte) string) {
			p := strings.Split(tx, "s")
			if len(p) != 2 {
				return rSha512(cat([]byte("STX\x00"), unhex(strings.ReplaceAll(tx, "s", ""))))[:32], nil
			}
			a, b := unhex(p[0]), unhex(p[1])
			return rSha512(cat([]byte("STX\x00"), a, b))[:32], func(sig []byte) string { return hx(cat(a, []byte{0x74}, vbytes(rDER(sig)), b)) }
		}}
}

func rippleRefuse(t *T) (string, []interface{}) {
	k := t.acKey("k1")
	from, to, pub := xrpAddr(rH160(k.pub)), xrpAddr(t.B(20)), hx(k.pub)
	tag, amt, fee := int64(-1), t.U64In(1, 1<<62-1), t.U64In(1, 1<<62-1)
	memo := ""
	what := ""
	switch t.Intn(9) {
	case 0:
		what, tag = "a tag above 32 bits", int64(t.U64In(1<<32, 1<<63-1))
	case 1:
		what, amt = "an amount above 62 bits", t.U64In(1<<62, 1<<64-1)
	case 2:
		what, fee = "a fee above 62 bits", t.U64In(1<<62, 1<<64-1)
	case 3:
		what, amt = "no amount", 0
	case 4:
		what, from = "a broken sender", t.breakAddr(from)
	case 5:
		what, to = "a broken recipient", t.breakAddr(to)
	case 6:
		what, pub = "a key of another length", hx(t.B(t.Str0(0, 32, 34, 65)))
	case 7:
		what, to = "an account of another kind", rB58(append(cat([]byte{35}, t.B(20)), t.B(4)...), b58xrp)
	case 8:
		if !t.P(5) {
			return "", nil
		}
		what, memo = "a memo no length can carry", strings.Repeat("x", 918745+t.Intn(100))
	}
	return what, t.Call("ripple.Create", ripple.CreateEmptyRawTransactionAndHash, from, pub, tag, t.U32(), to, amt, fee, t.U32(), "", memo, "")
}

// Str0 is one of the given numbers.
func (t *T) Str0(n ...int) int { return n[t.Intn(len(n))] }

// ---------------------------------------------------------------- polkadot

func rCompact(v uint64) []byte {
	switch {
	case v < 1<<6:
		return []byte{byte(v << 2)}
	case v < 1<<14:
		return le16(uint16(v<<2 | 1))
	case v < 1<<30:
		return le32(uint32(v<<2 | 2))
	}
	b := le64(v)
	for b[len(b)-1] == 0 {
		b = b[:len(b)-1]
	}
	return append([]byte{byte(len(b)-4)<<2 | 3}, b...)
}

type dotReq struct {
	SenderPubkey, RecipientPubkey string
	Amount, Nonce, Fee            uint64
	BlockHeight                   uint64
	BlockHash, GenesisHash        string
	SpecVersion, TxVersion        uint32
}

func (r *dotReq) json() string {
	return `{"sender_pubkey":` + jstr(r.SenderPubkey) + `,"recipient_pubkey":` + jstr(r.RecipientPubkey) + `,"amount":` + dec(r.Amount) + `,"nonce":` + dec(r.Nonce) +
		`,"fee":` + dec(r.Fee) + `,"block_height":` + dec(r.BlockHeight) + `,"block_hash":` + jstr(r.BlockHash) + `,"genesis_hash":` + jstr(r.GenesisHash) +
		`,"spec_version":` + dec(uint64(r.SpecVersion)) + `,"txVersion":` + dec(uint64(r.TxVersion)) + `}`
}

func (t *T) dotReq(k *aKey) (*dotReq, []byte) {
	code := t.Str("040000", "050000", "0503", "0400")
	if t.P(20) {
		code = hx(t.B(2 + t.Intn(2)))
	}
	r := &dotReq{t.caseHex(k.pub), t.caseHex(t.B(32)), t.U64In(1, 1<<64-1), t.U64(), t.U64(), t.U64In(1, 1<<64-1), hx(t.B(32)), hx(t.B(32)), t.U32(), t.U32()}
	if t.P(10) {
		r.Nonce, r.Fee = 0, 0
	}
	return r, unhex(code)
}

func polkadotPlan(t *T) *acPlan {
	k := t.acKey("ed")
	r, code := t.dotReq(k)
	out := t.Call("polkadot.Create", polkadot.TxStruct.CreateEmptyTransactionAndMessage, *r, hx(code))
	tx, msg := t.created("polkadot", out)
	t.Check(tx == r.json(), "polkadot: unsigned transaction\ngot  %s\nwant %s", tx, r.json())
	era := le16(uint16(r.BlockHeight%64)<<4 | 5)
	mid := cat(era, rCompact(r.Nonce), rCompact(r.Fee))
	method := cat(code, unhex(r.RecipientPubkey), rCompact(r.Amount))
	payload := cat(method, mid, le32(r.SpecVersion), le32(r.TxVersion), unhex(r.GenesisHash), unhex(r.BlockHash))
	t.Shape("amount %d nonce %d fee %d", len(rCompact(r.Amount)), len(rCompact(r.Nonce)), len(rCompact(r.Fee)))
	cur := hx(code)
	last := *r
	return &acPlan{key: k, tx: tx, msg: msg, wantMsg: payload,
		sign: t.signRaw("polkadot.Sign", polkadot.SignTransaction),
		combine: func(tx string, sig []byte, k *aKey) (bool, string) {
			if string(k.pub) != r.raw() {
				// the key is part of the transaction
				q := *r
				q.SenderPubkey = hx(k.pub)
				tx = q.json()
			}
			out := t.Call("polkadot.Combine", polkadot.VerifyAndCombineTransaction, cur, tx, hx(sig))
			return out[1].(bool), str(out, 0)
		},
		signed: func(sig []byte) string {
			b := cat([]byte{0x84, 0}, unhex(r.SenderPubkey), []byte{0}, sig, mid, method)
			return "0x" + hx(append(rCompact(uint64(len(b))), b...))
		},
		alter: func() string {
			q := *r
			switch t.Intn(10) {
			case 0:
				q.Amount ^= 1 << t.Intn(64)
			case 1:
				q.Nonce ^= 1 << t.Intn(64)
			case 2:
				q.Fee ^= 1 << t.Intn(64)
			case 3:
				q.BlockHeight += uint64(1 + t.Intn(63))
			case 4:
				q.SpecVersion ^= 1 << t.Intn(32)
			case 5:
				q.TxVersion ^= 1 << t.Intn(32)
			case 6:
				q.RecipientPubkey = t.hexAlter(q.RecipientPubkey)
			case 7:
				q.BlockHash = t.hexAlter(q.BlockHash)
			case 8:
				q.GenesisHash = t.hexAlter(q.GenesisHash)
			case 9:
				q.Amount = 0
			}
			if q.BlockHeight == 0 || strings.EqualFold(q.json(), r.json()) {
				return ""
			}
			last = q
			return q.json()
		},
		restate: func(tx string) ([]byte, func([]byte) string) {
			q := last
			if tx != q.json() {
				return payload, nil // cannot be parsed
			}
			mid := cat(le16(uint16(q.BlockHeight%64)<<4|5), rCompact(q.Nonce), rCompact(q.Fee))
			method := cat(code, unhex(q.RecipientPubkey), rCompact(q.Amount))
			return cat(method, mid, le32(q.SpecVersion), le32(q.TxVersion), unhex(q.GenesisHash), unhex(q.BlockHash)), func(sig []byte) string {
				b := cat([]byte{0x84, 0}, unhex(q.SenderPubkey), []byte{0}, sig, mid, method)
				return "0x" + hx(append(rCompact(uint64(len(b))), b...))
			}
		}}
}

func (r *dotReq) raw() string { return string(unhex(r.SenderPubkey)) }

func polkadotRefuse(t *T) (string, []interface{}) {
	r, code := t.dotReq(t.acKey("ed"))
	c := hx(code)
	bad := func() string {
		return t.Str("", hx(t.B(31)), hx(t.B(33)), hx(t.B(32))[1:], "0x"+hx(t.B(31)), "zz"+hx(t.B(31)))
	}
	what := ""
	switch t.Intn(7) {
	case 0:
		what, r.SenderPubkey = "a malformed sender", bad()
	case 1:
		what, r.RecipientPubkey = "a malformed recipient", bad()
	case 2:
		what, r.BlockHash = "a malformed block hash", bad()
	case 3:
		what, r.GenesisHash = "a malformed genesis hash", bad()
	case 4:
		what, r.Amount = "no amount", 0
	case 5:
		what, r.BlockHeight = "no block height", 0
	case 6:
		what, c = "a malformed call", t.Str("", "0", "zz00", "05000", "05")
	}
	return what, t.Call("polkadot.Create", polkadot.TxStruct.CreateEmptyTransactionAndMessage, *r, c)
}

// ---------------------------------------------------------------- bigbang

func crc24q(b []byte) []byte {
	c := uint32(0)
	for _, x := range b {
		c ^= uint32(x) << 16
		for i := 0; i < 8; i++ {
			c <<= 1
			if c&0x1000000 != 0 {
				c ^= 0x1864cfb
			}
		}
	}
	return be32(c)[1:]
}

func bbcAddr(pub []byte) string {
	const al = "0123456789abcdefghjkmnpqrstvwxyz"
	s := "1"
	for _, v := range rTo5(append(append([]byte{}, pub...), crc24q(pub)...)) {
		s += string(al[v])
	}
	return s
}

type bbcVin struct {
	TxID string
	Vout byte
}

func (t *T) bbcReq() (anchor string, anchorB []byte, vins []bbcVin, ids [][]byte, data []byte) {
	anchor, anchorB = t.txid()
	n := t.Small(1, 4)
	if t.P(4) {
		n = 1 + t.Intn(252)
	}
	for i := 0; i < n; i++ {
		s, b := t.txid()
		vins = append(vins, bbcVin{s, byte(t.U64())})
		ids = append(ids, b)
	}
	if t.P(50) {
		data = t.B(t.Len(0, 252))
	}
	return
}

func bigbangPlan(t *T) *acPlan {
	k := t.acKey("ed")
	anchor, ab, vins, ids, data := t.bbcReq()
	lock, amt, fee, to := t.U32(), t.U64In(1, 1<<64-1), t.U64In(1, 1<<64-1), t.B(32)
	t0 := uint32(time.Now().Unix())
	out := t.CallR("bigbang.Create", bigbang.CreateEmptyTransactionAndHash, lock, anchor, vins, bbcAddr(to), amt, fee, string(data))
	t1 := uint32(time.Now().Unix())
	tx, msg := t.created("bigbang", out)
	raw := unhex(tx)
	var ts uint32
	if len(raw) > 8 {
		ts = binary.LittleEndian.Uint32(raw[4:])
		t.Check(ts >= t0 && ts <= t1, "bigbang: time %d is not the current %d..%d", ts, t0, t1)
	}
	w := cat([]byte{1, 0, 0, 0}, le32(ts), le32(lock), ab, []byte{byte(len(vins))})
	for i := range vins {
		w = cat(w, ids[i], []byte{vins[i].Vout})
	}
	w = cat(w, []byte{1}, to, le64(amt), le64(fee), []byte{byte(len(data))}, data)
	t.Check(tx == hx(w), "bigbang: unsigned transaction\ngot  %s\nwant %x", tx, w)
	t.Shape("inputs %d data %v", min(len(vins), 5), len(data) > 0)
	return &acPlan{key: k, tx: tx, msg: msg, wantMsg: rBlake2b(32, w),
		sign: t.signHex("bigbang.Sign", bigbang.SignTransactionHash),
		combine: func(tx string, sig []byte, k *aKey) (bool, string) {
			out := t.Call("bigbang.Combine", bigbang.VerifyAndCombineTransaction, tx, hx(sig), t.spare(k.pub))
			return out[0].(bool), str(out, 1)
		},
		signed: func(sig []byte) string { return hx(cat(w, []byte{0x40}, sig)) },
		alter:  func() string { return t.hexAlter(tx) },
		restate: func(tx string) ([]byte, func([]byte) string) {
			return rBlake2b(32, unhex(tx)), func(sig []byte) string { return tx + "40" + hx(sig) }
		}}
}

func bigbangRefuse(t *T) (string, []interface{}) {
	anchor, _, vins, _, data := t.bbcReq()
	to, d := bbcAddr(t.B(32)), string(data)
	what := ""
	switch t.Intn(6) {
	case 0:
		what, anchor = "a malformed anchor", t.Str("", anchor[2:], anchor+"00", "zz"+anchor[2:])
	case 1:
		what, vins[t.Intn(len(vins))].TxID = "a malformed input", t.Str("", anchor[2:], anchor+"00", "zz"+anchor[2:])
	case 2:
		what = "too many inputs"
		for len(vins) <= 252 {
			vins = append(vins, vins[0])
		}
	case 3:
		what, to = "a broken recipient", t.breakAddr(to)
	case 4:
		what, d = "data no length can carry", string(t.Raw(253+t.Intn(300)))
	case 5:
		what, to = "a recipient of another kind", t.Str("2", "0", "")+to[1:]
	}
	return what, t.CallR("bigbang.Create", bigbang.CreateEmptyTransactionAndHash, t.U32(), anchor, vins, to, t.U64In(1, 1<<64-1), t.U64In(1, 1<<64-1), d)
}

// ---------------------------------------------------------------- cosmos, evaio

type cCoin struct{ Amount, Denom string }
type cFee struct {
	Amount []cCoin
	Gas    string
}
type cSend struct {
	Amount                 []cCoin
	FromAddress, ToAddress string
}
type cMsg struct {
	Type  string
	Value cSend
}

type cosmosPkg struct {
	name, hrp                                                               string
	coin, fee, send, msg, tx, create, sign, verify, forSend, b32enc, b32dec interface{}
}

var cosmosPkgs = map[string]*cosmosPkg{
	"cosmos": {"cosmos", "cosmos", cosmos.NewCoin, cosmos.NewStdFee, cosmos.NewMsgSend, cosmos.NewMessage, cosmos.NewTxStruct, cosmos.TxStruct.CreateEmptyTransactionAndHash,
		cosmos.SignTransactionHash, cosmos.VerifyTransactionSig, cosmos.TxStruct.CreateJsonForSend, cosmos.Bech32Encode, cosmos.Bech32Decode},
	"evaio": {"evaio", "eva", evaio.NewCoin, evaio.NewStdFee, evaio.NewMsgSend, evaio.NewMessage, evaio.NewTxStruct, evaio.TxStruct.CreateEmptyTransactionAndHash,
		evaio.SignTransactionHash, evaio.VerifyTransactionSig, evaio.TxStruct.CreateJsonForSend, evaio.Bech32Encode, evaio.Bech32Decode},
}

func coinsJSON(cs []cCoin) string {
	var p []string
	for _, c := range cs {
		p = append(p, `{"amount":`+jstr(c.Amount)+`,"denom":`+jstr(c.Denom)+`}`)
	}
	return "[" + strings.Join(p, ",") + "]"
}

func (t *T) cosmosCoins(n int) []cCoin {
	var cs []cCoin
	for i := 0; i < n; i++ {
		a := strconv.FormatInt(int64(t.U64In(1, 1<<63-1)), 10)
		if t.P(6) {
			a = t.Str("0", "00", "007", "18446744073709551616", a+"00000000000000000000")
		}
		cs = append(cs, cCoin{a, t.Str("uatom", "muon", "a"+t.utext(8), "<b>&\"")})
	}
	return cs
}

func (t *T) realCoins(p *cosmosPkg, cs []cCoin) []interface{} {
	r := []interface{}{}
	for _, c := range cs {
		v, err := strconv.ParseInt(c.Amount, 10, 64)
		if err != nil || strconv.FormatInt(v, 10) != c.Amount || v == 0 || t.P(20) {
			r = append(r, c) // not by way of NewCoin
			continue
		}
		r = append(r, t.Call(p.name+".NewCoin", p.coin, c.Denom, v)[0])
	}
	return r
}

func cosmosPlan(p *cosmosPkg) func(*T) *acPlan {
	return func(t *T) *acPlan {
		k := t.acKey("k1")
		from := rBech(p.hrp, rTo5(rH160(k.pub)), 1)
		chain, memo := t.utext(30), t.utext(80)
		acc, seq, gas := int(t.U64In(0, 1<<63-1)), int(t.U64In(0, 1<<63-1)), int64(t.U64In(0, 1<<63-1))
		nc := t.Intn(4)
		if t.P(10) {
			nc = t.Intn(12)
		}
		feeCoins := t.cosmosCoins(nc)
		given := t.realCoins(p, feeCoins)
		if t.P(30) { // coins of amount zero are dropped from fees
			i := t.Intn(len(given) + 1)
			z := t.Call(p.name+".NewCoin", p.coin, "zero", int64(0))[0]
			given = append(given[:i:i], append([]interface{}{z}, given[i:]...)...)
			t.Shape("zero fee coin")
		}
		fee := t.Call(p.name+".NewStdFee", p.fee, gas, given)[0]
		var msgs []cMsg
		var reals []interface{}
		var mj []string
		for i := t.Small(1, 4); i > 0; i-- {
			m := cMsg{t.Str("cosmos-sdk/MsgSend", "MsgSend", t.utext(12)), cSend{t.cosmosCoins(1 + t.Intn(3)), from, rBech(p.hrp, rTo5(t.B(20)), 1)}}
			msgs = append(msgs, m)
			v := t.Call(p.name+".NewMsgSend", p.send, from, m.Value.ToAddress, t.realCoins(p, m.Value.Amount))[0]
			reals = append(reals, t.Call(p.name+".NewMessage", p.msg, m.Type, v)[0])
			mj = append(mj, `{"type":`+jstr(m.Type)+`,"value":{"amount":`+coinsJSON(m.Value.Amount)+`,"from_address":`+jstr(from)+`,"to_address":`+jstr(m.Value.ToAddress)+`}}`)
		}
		ts := t.Call(p.name+".NewTxStruct", p.tx, chain, memo, acc, seq, fee, reals)[0]
		tx, msg := t.created(p.name, t.Call(p.name+".Create", p.create, ts))
		feeJ := `{"amount":` + coinsJSON(feeCoins) + `,"gas":"` + dec(uint64(gas)) + `"}`
		msgJ := "[" + strings.Join(mj, ",") + "]"
		want := `{"account_number":"` + dec(uint64(acc)) + `","chain_id":` + jstr(chain) + `,"fee":` + feeJ + `,"memo":` + jstr(memo) + `,"msgs":` + msgJ + `,"sequence":"` + dec(uint64(seq)) + `"}`
		t.Check(tx == want, "%s: unsigned transaction\ngot  %s\nwant %s", p.name, tx, want)
		t.Shape("fee coins %d messages %d", len(feeCoins), len(msgs))
		kt, mode := "tendermint/PubKeySecp256k1", t.Str("sync", "block", "async")
		return &acPlan{key: k, tx: tx, msg: msg, wantMsg: rSha256([]byte(want)),
			sign: t.signHex(p.name+".Sign", p.sign),
			combine: func(tx string, sig []byte, k *aKey) (bool, string) {
				out := t.Call(p.name+".Verify", p.verify, tx, hx(sig), t.spare(k.kp.raw))
				if !out[0].(bool) {
					return false, ""
				}
				out = t.Call(p.name+".CreateJsonForSend", p.forSend, ts, hx(sig), t.spare(k.pub), kt, mode)
				if errOf(out) != nil {
					return false, ""
				}
				return true, out[0].(*gjson.Result).Raw
			},
			signed: func(sig []byte) string {
				s := `{"signature":"` + base64.StdEncoding.EncodeToString(sig) + `","pub_key":{"type":` + jstr(kt) + `,"value":"` + base64.StdEncoding.EncodeToString(k.pub) + `"}`
				if p.name == "cosmos" {
					s += `,"account_number":"` + dec(uint64(acc)) + `","sequence":"` + dec(uint64(seq)) + `"`
				}
				body := `"tx":{"msg":` + msgJ + `,"fee":` + feeJ + `,"memo":` + jstr(memo) + `,"signatures":[` + s + `}]}`
				if p.name == "cosmos" {
					return `{` + body + `,"mode":` + jstr(mode) + `}`
				}
				return `{"mode":` + jstr(mode) + `,` + body + `}`
			},
			alter: func() string { return t.MutateText(tx) }, bound: "yes",
			restate: func(tx string) ([]byte, func([]byte) string) { return rSha256([]byte(tx)), nil },
			multi: func() { // one message is from another account
				other := t.Str(rBech(p.hrp, rTo5(t.B(20)), 1), msgs[t.Intn(len(msgs))].Value.ToAddress)
				if other == from {
					return
				}
				q := append([]string{}, mj...)
				for n := t.Intn(3); n > 0; n-- {
					q = append(q, mj[t.Intn(len(mj))])
				}
				j := t.Intn(len(q))
				q[j] = strings.Replace(q[j], `"from_address":`+jstr(from), `"from_address":`+jstr(other), 1)
				alt := strings.Replace(want, msgJ, "["+strings.Join(q, ",")+"]", 1)
				sig := t.ext(k, rSha256([]byte(alt)))
				out := t.Call(p.name+".Verify", p.verify, alt, hx(sig), t.spare(k.kp.raw))
				t.ev["transactions of two senders"]++
				t.Check(!out[0].(bool), "%s: verification accepts a transaction that spends from %s, signed by %s\ntx %s", p.name, other, from, alt)
			}}
	}
}

func cosmosRefuse(p *cosmosPkg) func(*T) (string, []interface{}) {
	return func(t *T) (string, []interface{}) {
		chain, memo, acc, seq, gas := "chain", "memo", int(t.U32()), int(t.U32()), int64(t.U32())
		fee := t.cosmosCoins(1)
		m := cMsg{"t", cSend{t.cosmosCoins(1), rBech(p.hrp, rTo5(t.B(20)), 1), rBech(p.hrp, rTo5(t.B(20)), 1)}}
		msgs := []cMsg{m, m}
		what := ""
		i := t.Intn(2)
		neg := -int(t.U64In(1, 1<<62))
		switch t.Intn(9) {
		case 0:
			what, acc = "a negative account number", neg
		case 1:
			what, seq = "a negative sequence", neg
		case 2:
			what, gas = "negative gas", int64(neg)
		case 3:
			what, msgs = "no messages", nil
		case 4:
			what, msgs[i].Value.Amount = "a message without amount", nil
		case 5:
			what, msgs[i].Value.Amount = "a malformed amount", append(t.cosmosCoins(1), cCoin{t.Str("", "-5", "1.5", "x", "0x10", " 1", strconv.Itoa(neg)), "uatom"})
		case 6:
			what, memo = "a memo that is not text", t.badText()
		case 7:
			what, chain = "a chain name that is not text", t.badText()
		case 8:
			what, fee = "a malformed fee", append(t.cosmosCoins(1), cCoin{t.Str("-5", "1.5", "x", "0x10", " 1"), "uatom"})
		}
		ts := t.Call(p.name+".NewTxStruct", p.tx, chain, memo, acc, seq, cFee{fee, strconv.FormatInt(gas, 10)}, msgs)[0]
		return what, t.Call(p.name+".Create", p.create, ts)
	}
}

// ---------------------------------------------------------------- binance

func pbBytes(tag byte, b []byte) []byte {
	if len(b) == 0 {
		return nil
	}
	return cat([]byte{tag}, uvarint(uint64(len(b))), b)
}
func pbNum(tag byte, v uint64) []byte {
	if v == 0 {
		return nil
	}
	return append([]byte{tag}, uvarint(v)...)
}

type bnbReq struct {
	from, to      []byte
	denom, memo   string
	amount        int64
	acc, seq, src int64
	data          []byte
}

func (t *T) bnbReq(k *aKey) *bnbReq {
	r := &bnbReq{rH160(k.pub), t.B(20), t.Str("BNB", "BTCB-1DE", t.utext(10)), t.utext(60), int64(t.U64In(1, 1<<53)), int64(t.U64In(0, 1<<63-1)), int64(t.U64In(0, 1<<63-1)), int64(t.U64In(0, 1<<63-1)), nil}
	if t.P(30) {
		r.acc, r.seq, r.src = 0, int64(t.Intn(2)), 0
	}
	return r
}

func (r *bnbReq) dataText() string {
	if r.data == nil {
		return "null"
	}
	return `"` + base64.StdEncoding.EncodeToString(r.data) + `"`
}

func (r *bnbReq) addr(h []byte) string { return rBech("bnb", rTo5(h), 1) }

func (r *bnbReq) json() string {
	io := func(h []byte) string {
		return `[{"address":"` + r.addr(h) + `","coins":[{"amount":` + strconv.FormatInt(r.amount, 10) + `,"denom":` + jstr(r.denom) + `}]}]`
	}
	return `{"account_number":"` + dec(uint64(r.acc)) + `","chain_id":"Binance-Chain-Tigris","data":` + r.dataText() + `,"memo":` + jstr(r.memo) + `,"msgs":[{"inputs":` + io(r.from) +
		`,"outputs":` + io(r.to) + `}],"sequence":"` + dec(uint64(r.seq)) + `","source":"` + dec(uint64(r.src)) + `"}`
}

func (r *bnbReq) signed(pub, sig []byte) []byte {
	coin := cat(pbBytes(0x0a, []byte(r.denom)), pbNum(0x10, uint64(r.amount)))
	io := func(h []byte) []byte {
		return cat(pbBytes(0x0a, h), cat([]byte{0x12}, uvarint(uint64(len(coin))), coin))
	}
	msg := cat(unhex("2a2c87fa"), pbBytes(0x0a, io(r.from)), pbBytes(0x12, io(r.to)))
	sg := cat(pbBytes(0x0a, cat(unhex("eb5ae98721"), pub)), pbBytes(0x12, sig), pbNum(0x18, uint64(r.acc)), pbNum(0x20, uint64(r.seq)))
	b := cat(unhex("f0625dee"), pbBytes(0x0a, msg), pbBytes(0x12, sg), pbBytes(0x1a, []byte(r.memo)), pbNum(0x20, uint64(r.src)), pbBytes(0x2a, r.data))
	return append(uvarint(uint64(len(b))), b...)
}

func (t *T) bnbCreate(r *bnbReq) []interface{} {
	return t.Call("binance.Create", binance.CreateEmptyTransactionAndHash, r.addr(r.from), r.addr(r.to), r.denom, r.amount, r.acc, r.seq, r.src, r.memo)
}

func binancePlan(t *T) *acPlan {
	k := t.acKey("k1")
	r := t.bnbReq(k)
	tx, msg := t.created("binance", t.bnbCreate(r))
	var last *bnbReq
	t.Check(tx == r.json(), "binance: unsigned transaction\ngot  %s\nwant %s", tx, r.json())
	return &acPlan{key: k, tx: tx, msg: msg, wantMsg: rSha256([]byte(r.json())),
		sign: t.signRaw("binance.Sign", binance.SignRawTransaction),
		combine: func(tx string, sig []byte, k *aKey) (bool, string) {
			out := t.Call("binance.Combine", binance.VerifyAndCombineRawTransaction, tx, hx(sig), hx(k.pub))
			return out[0].(bool), str(out, 1)
		},
		signed: func(sig []byte) string { return hx(r.signed(k.pub, sig)) },
		alter: func() string {
			q := *r
			switch t.Intn(9) {
			case 0:
				q.amount++
			case 1:
				q.acc ^= 1 << t.Intn(62)
			case 2:
				q.seq ^= 1 << t.Intn(62)
			case 3:
				q.src ^= 1 << t.Intn(62)
			case 4:
				q.memo += "x"
			case 5:
				q.to = t.B(20)
				if t.Bool() { // data no request can ask for
					q.data = t.B(1 + t.Intn(40))
				}
			case 6:
				return strings.Replace(tx, "Tigris", t.Str("Nile", "tigris", "Tigris2"), 1)
			default:
				return t.MutateText(tx)
			}
			last = &q
			return q.json()
		}, bound: "yes",
		restate: func(tx string) ([]byte, func([]byte) string) {
			if last == nil || tx != last.json() {
				return rSha256([]byte(tx)), nil
			}
			q := *last
			return rSha256([]byte(tx)), func(sig []byte) string { return hx(q.signed(k.pub, sig)) }
		},
		decode: func(signed string) {
			raw := unhex(signed)
			out := t.Call("binance.Decode", binance.DecodeRawTransaction, t.spare(raw))
			t.Check(errOf(out) == nil, "binance: decoding %s refused: %v", signed, errOf(out))
			var d struct {
				Msgs []struct {
					Inputs, Outputs []struct {
						Address []byte
						Coins   []struct {
							Denom  string
							Amount int64
						}
					}
				}
				Signatures []struct {
					Signature               []byte
					AccountNumber, Sequence int64
				}
				Memo   string
				Source int64
				Data   []byte
			}
			into(&d, out[0])
			ok := len(d.Msgs) == 1 && len(d.Signatures) == 1 && len(d.Msgs[0].Inputs) == 1 && len(d.Msgs[0].Outputs) == 1
			t.Check(ok, "binance: decoded %s", dumpOf(d))
			in, o, s := d.Msgs[0].Inputs[0], d.Msgs[0].Outputs[0], d.Signatures[0]
			ok = string(in.Address) == string(r.from) && string(o.Address) == string(r.to) && len(in.Coins) == 1 && len(o.Coins) == 1 && in.Coins[0] == o.Coins[0] &&
				in.Coins[0].Denom == r.denom && in.Coins[0].Amount == r.amount && d.Memo == r.memo && d.Source == r.src && s.AccountNumber == r.acc && s.Sequence == r.seq && len(d.Data) == 0
			t.Check(ok, "binance: decoded %s is not the request %s", dumpOf(d), r.json())
			cut := raw[:t.Intn(len(raw))]
			if t.Bool() {
				cut = append(append([]byte{}, raw...), t.B(t.Len(1, 8))...)
			}
			t.Check(errOf(t.Call("binance.Decode", binance.DecodeRawTransaction, cut)) != nil, "binance: decoding %x, with missing or surplus bytes, is not refused", cut)
		}}
}

func binanceRefuse(t *T) (string, []interface{}) {
	r := t.bnbReq(t.acKey("k1"))
	from, to := r.addr(r.from), r.addr(r.to)
	what := ""
	switch t.Intn(6) {
	case 0:
		r.amount = int64(t.U64In(1<<53+1, 1<<63-1))
		out := t.bnbCreate(r)
		if errOf(out) == nil {
			t.Check(str(out, 0) == r.json(), "binance: amount %d becomes %s", r.amount, str(out, 0))
			return "", nil
		}
		return "a large amount", out
	case 1:
		what, from = "a broken sender", t.breakAddr(from)
	case 2:
		what, to = "a broken recipient", t.breakAddr(to)
	case 3:
		what, to = "a recipient of another chain", rBech(t.Str("tbnb", "cosmos", "bnc"), rTo5(r.to), 1)
	case 4:
		what, to = "a recipient of another length", rBech("bnb", rTo5(t.B(t.Str0(19, 21, 32, 5))), 1)
	case 5:
		what = "text that is not text"
		if t.Bool() {
			r.memo = t.badText()
		} else {
			r.denom = t.badText()
		}
	}
	return what, t.Call("binance.Create", binance.CreateEmptyTransactionAndHash, from, to, r.denom, r.amount, r.acc, r.seq, r.src, r.memo)
}

// ---------------------------------------------------------------- ontology

func ontAddr(h []byte) string { return rB58Check([]byte{0x17}, h) }

func ontEmit(v *big.Int) []byte {
	if v.Sign() == 0 {
		return []byte{0}
	}
	if v.IsInt64() && v.Int64() < 16 {
		return []byte{0x50 + byte(v.Int64())}
	}
	b := rev(v.Bytes())
	if b[len(b)-1]&0x80 != 0 {
		b = append(b, 0)
	}
	if len(b) < 75 {
		return append([]byte{byte(len(b))}, b...)
	}
	return append([]byte{0x4c, byte(len(b))}, b...)
}

type ontState struct {
	AssetType       int
	Payer, From, To string
	Amount          uint64
}
type ontState2 struct {
	AssetType       int
	Payer, From, To string
	Amount          *big.Int
}
type ontSP struct{ Signature, PublicKey []byte }

func ontologyPlan(t *T) *acPlan {
	k := t.acKey("r1")
	from := rRmd(rSha256(cat([]byte{0x21}, k.pub, []byte{0xac})))
	to, payer := t.B(20), from
	payerTxt := ontAddr(from)
	if t.P(30) {
		payer = t.B(20)
		payerTxt = ontAddr(payer)
	} else if t.P(30) {
		payerTxt = ""
	}
	asset := t.Intn(3)
	gp, gl := t.U64(), t.U64()
	v2 := t.P(40)
	amt := new(big.Int).SetUint64(t.U64())
	var out []interface{}
	method := "transfer"
	if v2 {
		if t.P(50) {
			amt.SetBytes(t.B(t.Len(0, 40)))
		}
		if t.P(10) {
			amt.SetBytes(append([]byte{byte(1 + t.Intn(255))}, t.B(70+t.Intn(8))...))
		}
		out = t.CallR("ontology.CreateV2", ontology.CreateRawTransactionAndHashV2, gp, gl, ontState2{asset, payerTxt, ontAddr(from), ontAddr(to), amt})
		method = "transferV2"
	} else {
		out = t.CallR("ontology.Create", ontology.CreateRawTransactionAndHash, gp, gl, ontState{asset, payerTxt, ontAddr(from), ontAddr(to), amt.Uint64()})
	}
	t.Check(errOf(out) == nil, "ontology: a faithful request is refused: %v", errOf(out))
	tx := str(out, 0)
	var th struct {
		Hash      string
		Addresses []string
	}
	into(&th, out[1])
	raw := unhex(tx)
	nonce := make([]byte, 4)
	if len(raw) > 6 {
		nonce = raw[2:6]
	}
	ont := append(make([]byte, 19), 1)
	contract := append(make([]byte, 19), byte(1))
	if asset != 0 {
		contract[19] = 2
	}
	p := cat(unhex("00c66b6a14"), from, unhex("c86a"))
	if asset == 2 {
		p = cat(p, []byte{0x14}, ont, unhex("c86a"))
		method = "transferFrom"
	}
	p = cat(p, []byte{0x14}, to, unhex("c86a"), ontEmit(amt), unhex("c86c"))
	if asset != 2 {
		p = append(p, 0x51, 0xc1)
	}
	p = cat(p, vbytes([]byte(method)), vbytes(contract), []byte{0, 0x68}, vbytes([]byte("Ontology.Native.Invoke")))
	w := cat([]byte{0, 0xd1}, nonce, le64(gp), le64(gl), payer, vbytes(p), []byte{0})
	t.Check(tx == hx(append(w, 0)), "ontology: unsigned transaction\ngot  %s\nwant %x", tx, append(w, 0))
	signers := []string{ontAddr(payer)}
	if string(payer) != string(from) {
		signers = append(signers, ontAddr(from))
	}
	t.Check(strings.Join(th.Addresses, " ") == strings.Join(signers, " "), "ontology: signers %v, want %v", th.Addresses, signers)
	t.Shape("asset %d v2 %v payer %v", asset, v2, len(signers))
	one := func(sig, pub []byte) []byte {
		return cat([]byte{0x41, 0x40}, sig, []byte{0x23, 0x21}, pub, []byte{0xac})
	}
	digest := rSha256(rDsha(w))
	more := t.Intn(3)
	again := "-"
	var extra []ontSP
	for i := 0; i < more; i++ {
		f := t.acKey("r1")
		extra = append(extra, ontSP{t.ext(f, digest), f.pub})
	}
	comb := func(tx string, sp []ontSP) (bool, string) {
		out := t.Call("ontology.Combine", ontology.VerifyAndCombineRawTransaction, tx, sp)
		ok := out[0].(bool) && errOf(out) == nil
		return ok, str(out, 1)
	}
	pl := &acPlan{key: k, tx: tx, msg: th.Hash, wantMsg: digest,
		sign: func(msg string, pri []byte) ([]byte, error) {
			out := t.CallR("ontology.Sign", ontology.SignRawTransactionHash, msg, pri)
			if errOf(out) != nil {
				return nil, errOf(out)
			}
			var sp ontSP
			into(&sp, out[0])
			t.Check(string(sp.PublicKey) == string(k.pub), "ontology: public key %x with the signature, want %x", sp.PublicKey, k.pub)
			return sp.Signature, nil
		},
		combine: func(tx string, sig []byte, k *aKey) (bool, string) {
			if tx == again {
				return comb(tx, []ontSP{{t.spare(sig), t.spare(k.pub)}})
			}
			return comb(tx, append([]ontSP{{t.spare(sig), t.spare(k.pub)}}, extra...))
		},
		restate: func(tx string) ([]byte, func([]byte) string) {
			raw := unhex(tx)
			if len(raw) == 0 {
				return nil, nil
			}
			again = tx
			raw = raw[:len(raw)-1]
			return rSha256(rDsha(raw)), func(sig []byte) string { return hx(cat(raw, []byte{1}, one(sig, k.pub))) }
		},
		signed: func(sig []byte) string {
			b := append(append([]byte{}, w...), byte(1+len(extra)))
			b = append(b, one(sig, k.pub)...)
			for _, e := range extra {
				b = append(b, one(e.Signature, e.PublicKey)...)
			}
			return hx(b)
		},
		alter: func() string {
			if t.P(15) { // a transaction that has signatures already
				b := append(append([]byte{}, w...), byte(1+t.Intn(3)))
				for i := b[len(w)]; i > 0; i-- {
					b = append(b, one(t.B(64), k.pub)...)
				}
				return hx(b)
			}
			return t.hexAlter(tx)
		}, bound: "ontology-foreign-key",
		multi: func() {
			ok, got := comb(tx, nil)
			t.Check(!ok, "ontology: verification accepts no signature at all: %s", got)
			f := t.acKey("r1")
			n := 2 + t.Intn(5)
			bad := t.Intn(n)
			sp := make([]ontSP, n)
			for i := range sp {
				q := t.kpIn(cR1, []*KP{k.kp})
				sp[i] = ontSP{t.extSign(q, digest), q.pub}
				if i == bad {
					sp[i].Signature = t.ext(f, digest)
				}
			}
			ok, got = comb(tx, sp)
			t.Check(!ok, "ontology: verification accepts a false signature, %d of %d: %s", bad, n, got)
		}}
	pl.decode = func(signed string) {
		raw := unhex(t.Str(signed, tx))
		out := t.Call("ontology.Decode", ontology.DecodeRawTransaction, t.spare(raw))
		t.Check(errOf(out) == nil, "ontology: decoding %x refused: %v", raw, errOf(out))
		d := out[0].(*ontology.Transaction)
		ok := d.GetVersion() == 0 && d.GetTxType() == 0xd1 && d.GetNonce() == binary.LittleEndian.Uint32(nonce) && d.GetGasPrice() == gp && d.GetGasLimit() == gl &&
			d.GetPayer() == ontAddr(payer) && d.GetPayLoad() == hx(p)
		t.Check(ok, "ontology: decoded %s is not the transaction %x", dumpOf(d), raw)
		n := 0
		for _, s := range d.SigDatas {
			for _, sp := range s.SigPubs {
				at := len(w) + 1 + n*len(one(make([]byte, 64), k.pub))
				t.Check(at < len(raw) && hx(one(sp.Signature, sp.PublicKey)) == hx(raw[at:at+102]), "ontology: signature %d decoded as %s from %x", n, dumpOf(sp), raw)
				n++
			}
		}
		t.Check(n == int(raw[len(w)]), "ontology: %d signatures decoded from %x", n, raw)
		cut := raw[:t.Intn(len(raw))]
		if t.Bool() {
			cut = append(append([]byte{}, raw...), t.B(t.Len(1, 8))...)
		}
		t.Check(errOf(t.Call("ontology.Decode", ontology.DecodeRawTransaction, cut)) != nil, "ontology: decoding %x, with missing or surplus bytes, is not refused", cut)
	}
	return pl
}

func ontologyRefuse(t *T) (string, []interface{}) {
	s := ontState2{t.Intn(3), "", ontAddr(t.B(20)), ontAddr(t.B(20)), new(big.Int).SetUint64(t.U64())}
	what, v2 := "", t.Bool()
	switch t.Intn(7) {
	case 0:
		what, s.AssetType = "an unknown asset", t.Str0(-1, 3, 4, 255, 256)
	case 1:
		what, s.From = "a broken sender", t.breakAddr(s.From)
		s.Payer = ontAddr(t.B(20))
	case 2:
		what, s.To = "a broken recipient", t.breakAddr(s.To)
	case 3:
		what, s.Payer = "a broken payer", t.breakAddr(s.From)+"1"
	case 4:
		what, s.Payer = "a payer of another network", rB58Check([]byte{0}, t.B(20))
	case 5:
		what, s.To = "a recipient of another network", rB58Check([]byte{0x05}, t.B(20))
	case 6:
		v2 = true
		what = "an amount that cannot be carried"
		switch t.Intn(3) {
		case 0:
			s.Amount = nil
		case 1:
			s.Amount.SetUint64(t.U64() | 1)
			s.Amount.Neg(s.Amount)
		case 2:
			s.Amount.SetBytes(append([]byte{1}, t.B(200+t.Intn(200))...))
		}
	}
	if v2 {
		return what, t.CallR("ontology.CreateV2", ontology.CreateRawTransactionAndHashV2, t.U64(), t.U64(), s)
	}
	return what, t.CallR("ontology.Create", ontology.CreateRawTransactionAndHash, t.U64(), t.U64(), ontState{s.AssetType, s.Payer, s.From, s.To, s.Amount.Uint64()})
}

// ---------------------------------------------------------------- waykichain

// wVar is Bitcoin's CVarInt.
func wVar(n uint64) []byte {
	b := []byte{byte(n & 0x7f)}
	for n > 0x7f {
		n = n>>7 - 1
		b = append([]byte{byte(n&0x7f) | 0x80}, b...)
	}
	return b
}

func (t *T) regID() (string, []byte) {
	h, i := t.U32(), uint16(t.U64())
	b := append(wVar(uint64(h)), wVar(uint64(i))...)
	s := dec(uint64(h)) + "-" + dec(uint64(i))
	if t.P(10) {
		s = " " + s + " "
	}
	return s, append([]byte{byte(len(b))}, b...)
}

type waykiSP struct{ PublicKey, Signature []byte }

func waykiPlan(t *T) *acPlan {
	k := t.acKey("k1")
	id, idb := t.regID()
	amt, fee, h := t.U64In(0, 1<<63-1), t.U64In(0, 1<<63-1), t.U64In(0, 1<<63-1)
	typ := []byte{2, 3, 4, 0x0b}[t.Intn(4)]
	h20 := t.B(20)
	to := rB58Check([]byte{byte(t.Str0(0x49, 0x87))}, h20)
	app, bound := "", ""
	w := append([]byte{typ, 1}, wVar(h)...)
	switch typ {
	case 2:
		id, bound = t.caseHex(k.pub), "yes"
		w = cat(w, vbytes(k.pub), []byte{0}, wVar(fee))
	case 3:
		w = cat(w, idb, vbytes(h20), wVar(fee), wVar(amt), []byte{0})
	case 4:
		code := t.B(t.Len(0, 300))
		if t.P(4) {
			code = t.Raw(0xfffd + t.Intn(6))
		}
		var ab []byte
		app, ab = t.regID()
		to = hx(code)
		w = cat(w, idb, ab, wVar(fee), wVar(amt), vbytes(code))
	case 0x0b:
		app = t.Str("WICC", "WUSD", "c"+t.utext(20), strings.Repeat("n", 252+t.Intn(3)))
		w = cat(w, idb, vbytes([]byte("WICC")), wVar(fee), []byte{1}, vbytes(h20), vbytes([]byte(app)), wVar(amt), []byte{0})
	}
	out := t.Call("waykichain.Create", wayki.CreateEmptyRawTransactionAndHash, id, to, app, int64(amt), int64(fee), int64(h), typ)
	tx, msg := t.created("waykichain", out)
	t.Check(tx == hx(w), "waykichain: unsigned transaction\ngot  %s\nwant %x", tx, w)
	t.Shape("type %d", typ)
	sw := append([]byte{w[1], w[0]}, w[2:]...)
	return &acPlan{key: k, tx: tx, msg: msg, wantMsg: rDsha(sw),
		sign: t.signRaw("waykichain.Sign", wayki.SignRawTransaction),
		combine: func(tx string, sig []byte, k *aKey) (bool, string) {
			out := t.Call("waykichain.Combine", wayki.VerifyAndCombineRawTransaction, tx, waykiSP{t.spare(k.pub), t.spare(sig)})
			return out[0].(bool), str(out, 1)
		},
		signed: func(sig []byte) string { return hx(append(append([]byte{}, w...), vbytes(rDER(sig))...)) },
		alter:  func() string { return t.hexAlter(tx) }, bound: bound,
		restate: func(tx string) ([]byte, func([]byte) string) {
			raw := unhex(tx)
			if len(raw) < 2 {
				return rDsha(raw), nil
			}
			return rDsha(append([]byte{raw[1], raw[0]}, raw[2:]...)), func(sig []byte) string { return hx(append(append([]byte{}, raw...), vbytes(rDER(sig))...)) }
		}}
}

func waykiRefuse(t *T) (string, []interface{}) {
	k := t.acKey("k1")
	id, _ := t.regID()
	app, _ := t.regID()
	amt, fee, h := int64(t.U32()), int64(t.U32()), int64(t.U32())
	typ := []byte{2, 3, 4, 0x0b}[t.Intn(4)]
	to := rB58Check([]byte{0x49}, t.B(20))
	switch typ {
	case 2:
		id = hx(k.pub)
	case 4:
		to = hx(t.B(9))
	case 0x0b:
		app = "WICC"
	}
	badID := t.Str("", "-", "1", "1-", "-1", "a-1", "1-b", "4294967296-1", "1-65536", "99999999999999999999-1", "1-99999999999999999999", "1-2-3", "1 -2", "0x1-1")
	neg := -int64(t.U64In(1, 1<<62))
	what := ""
	switch t.Intn(7) {
	case 0:
		if typ == 2 {
			what, id = "a malformed key", t.Str("", hx(k.pub[1:]), hx(k.pub)+"00", "zz"+hx(k.pub)[2:])
		} else {
			what, id = "a malformed sender", badID
		}
	case 1:
		switch typ {
		case 2:
			return "", nil
		case 4:
			what, to = "a malformed contract call", t.Str("0", "zz", "0x00")
		default:
			what, to = "a broken recipient", t.breakAddr(to)
		}
	case 2:
		switch typ {
		case 4:
			what, app = "a malformed contract", badID
		case 0x0b:
			what, app = "no coin", ""
		default:
			return "", nil
		}
	case 3:
		if typ == 2 {
			return "", nil
		}
		what, amt = "a negative amount", neg
	case 4:
		what, fee = "a negative fee", neg
	case 5:
		what, h = "a negative height", neg
	case 6:
		what, typ = "an unknown type", byte(t.Str0(0, 1, 5, 6, 10, 12, 255))
	}
	return what, t.Call("waykichain.Create", wayki.CreateEmptyRawTransactionAndHash, id, to, app, amt, fee, h, typ)
}

// ---------------------------------------------------------------- virtualeconomy

type vsysTx struct {
	TxType      byte
	To          string
	Amount, Fee uint64
	FeeScale    uint16
	Attachment  string
}

func vsysAddr(net byte, h []byte) (string, []byte) {
	b := cat([]byte{5, net}, h)
	b = append(b, rChecksum("blake2b_and_keccak256_first_twenty", b)...)
	return rB58(b, b58btc), b
}

func vsysPlan(t *T) *acPlan {
	k := t.acKey("x")
	to, tb := vsysAddr(byte(t.Str0('M', 'T')), t.B(20))
	ts := vsysTx{2, to, t.U64(), t.U64(), uint16(t.U64()), ""}
	t0 := time.Now().UnixNano()
	out := t.CallR("virtualeconomy.Create", vsys.CreateEmptyTransaction, ts)
	t1 := time.Now().UnixNano()
	t.Check(errOf(out) == nil, "virtualeconomy: a faithful request is refused: %v", errOf(out))
	tx := str(out, 0)
	raw := unhex(tx)
	var tm uint64
	if len(raw) > 9 {
		tm = binary.BigEndian.Uint64(raw[1:])
		t.Check(int64(tm) >= t0-2000 && int64(tm) <= t1+1000, "virtualeconomy: time %d is not the current %d..%d", tm, t0, t1)
	}
	w := cat([]byte{2}, be64(tm), be64(ts.Amount), be64(ts.Fee), be16(ts.FeeScale), tb, []byte{0, 0})
	t.Check(tx == hx(w), "virtualeconomy: unsigned transaction\ngot  %s\nwant %x", tx, w)
	return &acPlan{key: k, tx: tx, msg: tx, wantMsg: w,
		sign: func(msg string, pri []byte) ([]byte, error) {
			out := t.CallR("virtualeconomy.Sign", vsys.SignTransaction, msg, pri)
			if errOf(out) != nil {
				return nil, errOf(out)
			}
			var sp ontSP
			into(&sp, out[0])
			t.Check(string(sp.PublicKey) == string(k.pub), "virtualeconomy: public key %x with the signature, want %x", sp.PublicKey, k.pub)
			return sp.Signature, nil
		},
		combine: func(tx string, sig []byte, k *aKey) (bool, string) {
			sp := &ontSP{t.spare(sig), t.spare(k.pub)}
			if out := t.Call("virtualeconomy.Verify", vsys.VerifyTransaction, tx, sp); !out[0].(bool) {
				return false, ""
			}
			out := t.Call("virtualeconomy.CreateJSON", vsys.CreateJSONRawForSendTransaction, tx, sp)
			if errOf(out) != nil {
				return false, ""
			}
			return true, out[0].(*gjson.Result).Raw
		},
		signed: func(sig []byte) string {
			return `{"amount":` + dec(ts.Amount) + `,"attachment":"","fee":` + dec(ts.Fee) + `,"feeScale":` + dec(uint64(ts.FeeScale)) + `,"recipient":"` + to +
				`","senderPublicKey":"` + rB58(k.pub, b58btc) + `","signature":"` + rB58(sig, b58btc) + `","timestamp":` + dec(tm) + `}`
		},
		alter: func() string { return t.hexAlter(tx) },
		restate: func(tx string) ([]byte, func([]byte) string) {
			raw := unhex(tx)
			return append([]byte{}, raw...), func(sig []byte) string {
				if len(raw) != len(w) {
					return "nothing: it has another length"
				}
				n := func(i int) string { return dec(binary.BigEndian.Uint64(raw[i:])) }
				return `{"amount":` + n(9) + `,"attachment":"","fee":` + n(17) + `,"feeScale":` + dec(uint64(binary.BigEndian.Uint16(raw[25:]))) + `,"recipient":"` + rB58(raw[27:53], b58btc) +
					`","senderPublicKey":"` + rB58(k.pub, b58btc) + `","signature":"` + rB58(sig, b58btc) + `","timestamp":` + n(1) + `}`
			}
		},
		multi: func() {
			sp := &ontSP{t.B(64), append([]byte{}, k.pub...)}
			if t.Bool() {
				sp.Signature = append(sp.Signature, 0)[:t.Str0(0, 1, 32, 63, 65)]
			} else {
				sp.PublicKey = append(sp.PublicKey, 0)[:t.Str0(0, 1, 31, 33)]
			}
			out := t.Call("virtualeconomy.CreateJSON", vsys.CreateJSONRawForSendTransaction, tx, sp)
			t.Check(errOf(out) != nil, "virtualeconomy: a transaction is made of a signature of %d bytes by a key of %d", len(sp.Signature), len(sp.PublicKey))
		},
		decode: func(string) {
			out := t.Call("virtualeconomy.Decode", vsys.TxStructDecode, t.spare(w))
			t.Check(errOf(out) == nil, "virtualeconomy: decoding %x refused: %v", w, errOf(out))
			var d vsysTx
			into(&d, out[0])
			t.Check(d == ts && out[1].(uint64) == tm, "virtualeconomy: decoded %v at %v, want %v at %d", d, out[1], ts, tm)
			cut := w[:t.Intn(len(w))]
			if t.Bool() {
				cut = append(append([]byte{}, w...), t.B(t.Len(1, 8))...)
			}
			t.Check(errOf(t.Call("virtualeconomy.Decode", vsys.TxStructDecode, cut)) != nil, "virtualeconomy: decoding %x, with missing or surplus bytes, is not refused", cut)
		}}
}

func vsysRefuse(t *T) (string, []interface{}) {
	to, _ := vsysAddr('M', t.B(20))
	ts := vsysTx{2, to, t.U64(), t.U64(), uint16(t.U64()), ""}
	what := ""
	switch t.Intn(4) {
	case 0:
		what, ts.To = "a broken recipient", t.breakAddr(to)
	case 1:
		what, ts.Attachment = "an attachment it cannot carry", "x"+t.Text(5)
	case 2:
		what, ts.TxType = "another type", byte(t.Str0(0, 1, 3, 4, 255))
	case 3:
		what = "a recipient of another network or length"
		ts.To, _ = vsysAddr(byte(t.Str0('X', 'm', 0)), t.B(20))
		if t.Bool() {
			ts.To, _ = vsysAddr('M', t.B(t.Str0(0, 19, 21, 32)))
		}
	}
	return what, t.CallR("virtualeconomy.Create", vsys.CreateEmptyTransaction, ts)
}

// ---------------------------------------------------------------- moac

func rlpStr(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return b
	}
	if len(b) < 56 {
		return append([]byte{0x80 + byte(len(b))}, b...)
	}
	panic("rlp")
}
func rlpNum(v *big.Int) []byte { return rlpStr(v.Bytes()) }
func rlpU(v uint64) []byte     { return rlpNum(new(big.Int).SetUint64(v)) }
func rlpList(items ...[]byte) []byte {
	b := cat(items...)
	if len(b) < 56 {
		return append([]byte{0xc0 + byte(len(b))}, b...)
	}
	l := new(big.Int).SetInt64(int64(len(b))).Bytes()
	return cat([]byte{0xf7 + byte(len(l))}, l, b)
}

func (t *T) bigNum() *big.Int {
	v := new(big.Int).SetUint64(t.U64())
	if t.P(30) {
		v.SetBytes(t.B(t.Len(0, 32)))
	}
	return v
}

// rlpItems splits a list of strings into its encoded items; only canonical forms.
func rlpItems(b []byte) ([][]byte, bool) {
	head := func(b []byte, base byte) (from, n int, ok bool) {
		switch {
		case len(b) == 0 || b[0] < base || base == 0x80 && b[0] >= 0xc0:
			return 0, 0, false
		case b[0] <= base+55:
			from, n = 1, int(b[0]-base)
		default:
			k := int(b[0] - base - 55)
			if k > 3 || len(b) < 1+k || b[1] == 0 {
				return 0, 0, false
			}
			for _, x := range b[1 : 1+k] {
				n = n<<8 | int(x)
			}
			if from = 1 + k; n < 56 {
				return 0, 0, false
			}
		}
		return from, n, from+n <= len(b)
	}
	f, n, ok := head(b, 0xc0)
	if !ok || f+n != len(b) {
		return nil, false
	}
	var out [][]byte
	for b = b[f:]; len(b) > 0; {
		f, n := 0, 1
		if b[0] >= 0x80 {
			if f, n, ok = head(b, 0x80); !ok || n == 1 && b[f] < 0x80 {
				return nil, false
			}
		}
		out = append(out, b[:f+n])
		b = b[f+n:]
	}
	return out, true
}

func moacPlan(t *T) *acPlan {
	k := t.acKey("k1")
	to, nonce := t.B(20), t.U64()
	amt, gl, gp := t.bigNum(), t.bigNum(), t.bigNum()
	test := t.Bool()
	chain := uint64(99)
	if test {
		chain = 101
	}
	out := t.Call("moac.Create", moac.CreateEmptyRawTransactionAndHash, "0x"+t.caseHex(to), nonce, amt, gl, gp, test)
	tx, msg := t.created("moac", out)
	list := func(v uint64, r, s []byte) []byte {
		return rlpList(rlpU(nonce), rlpU(0), rlpNum(gp), rlpNum(gl), rlpStr(to), rlpNum(amt), rlpU(0), rlpU(0), rlpU(0), rlpU(v), rlpNum(new(big.Int).SetBytes(r)), rlpNum(new(big.Int).SetBytes(s)))
	}
	w := list(chain, nil, nil)
	t.Check(tx == hx(w), "moac: unsigned transaction\ngot  %s\nwant %x", tx, w)
	t.Shape("test %v amount %d", test, len(amt.Bytes()))
	return &acPlan{key: k, tx: tx, msg: msg, wantMsg: rKeccak(w), recovery: true,
		sign: t.signRaw("moac.Sign", moac.SignRawTransaction),
		combine: func(tx string, sig []byte, k *aKey) (bool, string) {
			out := t.Call("moac.Combine", moac.VerifyAndCombineRawTransaction, tx, hx(sig), t.caseHex(k.pub), test)
			return out[0].(bool), str(out, 1)
		},
		signed: func(sig []byte) string {
			return "0x" + hx(list(35+2*chain+uint64(sig[64]), sig[:32], sig[32:64]))
		},
		alter: func() string {
			if t.P(50) {
				return t.hexAlter(tx)
			}
			it := [][]byte{rlpU(nonce), rlpU(0), rlpNum(gp), rlpNum(gl), rlpStr(to), rlpNum(amt), rlpU(0), rlpU(0), rlpU(0), rlpU(chain), rlpU(0), rlpU(0)}
			i := t.Intn(len(it))
			switch t.Intn(5) {
			case 0:
				it[i] = t.Mutate(it[i])
			case 1:
				it[i] = rlpStr(t.B(t.Len(0, 55)))
			case 2:
				it[i] = []byte{0x81, byte(t.Intn(256))}
			case 3:
				it[i], it[(i+1)%12] = it[(i+1)%12], it[i]
			case 4:
				it = append(it[:i:i], it[i+t.Intn(2):]...)
			}
			return hx(rlpList(it...))
		},
		restate: func(tx string) ([]byte, func([]byte) string) {
			raw := unhex(tx)
			return rKeccak(raw), func(sig []byte) string {
				it, ok := rlpItems(raw)
				if !ok || len(it) != 12 {
					return "nothing: it is not a list of twelve"
				}
				body := cat(it[:9]...)
				for _, x := range [][]byte{rlpU(35 + 2*chain + uint64(sig[64])), rlpNum(new(big.Int).SetBytes(sig[:32])), rlpNum(new(big.Int).SetBytes(sig[32:64]))} {
					body = append(body, x...)
				}
				return "0x" + hx(rlpList(body))
			}
		},
		multi: func() {
			d := rKeccak(w)
			sig := t.ext(k, d)
			sig = append(sig, k.recID(d, sig))
			out := t.Call("moac.Combine", moac.VerifyAndCombineRawTransaction, tx, hx(sig), hx(k.pub), !test)
			t.Check(!out[0].(bool), "moac: a transaction for one network is combined for the other: %s", str(out, 1))
		}}
}

func moacRefuse(t *T) (string, []interface{}) {
	to := "0x" + hx(t.B(20))
	n := []*big.Int{t.bigNum(), t.bigNum(), t.bigNum()}
	what := ""
	i := t.Intn(3)
	switch t.Intn(4) {
	case 0:
		what, n[i] = "no number", nil
	case 1:
		what = "a negative number"
		n[i].SetUint64(t.U64() | 1)
		n[i].Neg(n[i])
	case 2:
		what, n[i] = "a number above 256 bits", new(big.Int).SetBytes(append([]byte{1}, t.B(32+t.Intn(30))...))
	case 3:
		what, to = "a malformed recipient", t.Str("", "0x", to[2:], to+"00", to[:40], "0x0"+to[2:], "0xzz"+to[4:], "zz"+to[2:])
	}
	return what, t.Call("moac.Create", moac.CreateEmptyRawTransactionAndHash, to, t.U64(), n[0], n[1], n[2], t.Bool())
}

// ---------------------------------------------------------------- filenet

type fnVin struct{ Address string }
type fnVout struct {
	Address string
	Amount  uint64
}

func fnAddr(h []byte) string { return rB58([]byte(hx(h)), b58btc) }

func filenetPlan(t *T) *acPlan {
	k := t.acKey("k1")
	from := rKeccak(k.kp.raw)[12:]
	var outs []fnVout
	hs := map[string][]byte{}
	total, left := uint64(0), uint64(1<<64-1)
	n := t.Small(1, 6)
	if t.P(3) {
		n = 1 + t.Intn(300)
	}
	for i := 0; i < n; i++ {
		h := t.B(20)
		a := fnAddr(h)
		if len(outs) > 0 && t.P(15) {
			a = outs[t.Intn(len(outs))].Address
			h = hs[a]
		}
		hs[a] = h
		v := t.U64In(1, left-uint64(n-i-1))
		if v > left-uint64(n-i-1) {
			v = 1
		}
		left -= v
		total += v
		outs = append(outs, fnVout{a, v})
	}
	t0 := time.Now().Unix()
	out := t.CallR("filenet.Create", filenet.CreateEmptyTransactionAndHash, fnVin{fnAddr(from)}, outs)
	t1 := time.Now().Unix()
	tx, msg := t.created("filenet", out)
	raw := unhex(tx)
	var ts int64
	if len(raw) >= 44 {
		ts = int64(binary.LittleEndian.Uint64(raw[36:]))
		t.Check(ts >= t0 && ts <= t1, "filenet: time %d is not the current %d..%d", ts, t0, t1)
	}
	srt := append([]fnVout{}, outs...)
	sort.SliceStable(srt, func(i, j int) bool { return srt[i].Address < srt[j].Address })
	// recipients are in order; payments to the same one may be in any order
	t.Check(len(raw) == 44+28*len(outs), "filenet: transaction of %d bytes for %d outputs: %s", len(raw), len(outs), tx)
	for i := 0; i < len(srt); {
		j := i
		for j < len(srt) && srt[j].Address == srt[i].Address {
			j++
		}
		left := map[uint64]int{}
		for _, o := range srt[i:j] {
			left[o.Amount]++
		}
		for ; i < j; i++ {
			v := binary.LittleEndian.Uint64(raw[44+28*i+20:])
			t.Check(left[v] > 0, "filenet: amount %d of payment %d is not one requested for %s: %v in %s", v, i, srt[i].Address, outs, tx)
			left[v]--
			srt[i].Amount = v
		}
	}
	w := cat(from, le64(uint64(len(outs))), le64(total), le64(uint64(ts)))
	for _, o := range srt {
		w = cat(w, hs[o.Address], le64(o.Amount))
	}
	t.Check(tx == hx(w), "filenet: unsigned transaction\ngot  %s\nwant %x", tx, w)
	t.Shape("outputs %d", min(len(outs), 7))
	return &acPlan{key: k, tx: tx, msg: msg, wantMsg: rSha256(w),
		sign: t.signHex("filenet.Sign", filenet.SignTransaction),
		combine: func(tx string, sig []byte, k *aKey) (bool, string) {
			out := t.Call("filenet.Combine", filenet.VerifyAndCombineTransaction, tx, hx(sig), hx(k.pub))
			return out[1].(bool), str(out, 0)
		},
		signed: func(sig []byte) string {
			var d []string
			for _, o := range srt {
				d = append(d, `{"to":"`+o.Address+`","value":`+dec(o.Amount)+`}`)
			}
			return `{"txid":"` + hx(rSha256(w)) + `","from":"` + fnAddr(from) + `","tocount":` + dec(uint64(len(outs))) + `,"value":` + dec(total) + `,"timestamp":` + dec(uint64(ts)) +
				`,"transferdetails":[` + strings.Join(d, ",") + `],"sign":"` + hx(sig) + `"}`
		},
		alter: func() string {
			if t.P(50) {
				return t.hexAlter(tx)
			}
			b := append([]byte{}, raw...)
			switch t.Intn(4) {
			case 0:
				copy(b[20:], le64(t.U64()))
			case 1:
				copy(b[28:], le64(t.U64()))
			case 2:
				i := t.Intn(len(outs))
				copy(b[44+28*i+20:], le64(t.U64()))
			case 3:
				b = append(b, t.B(28*t.Intn(3))...)
			}
			return hx(b)
		}, bound: "yes",
		restate: func(tx string) ([]byte, func([]byte) string) {
			raw := unhex(tx)
			return rSha256(raw), func(sig []byte) string {
				if len(raw) < 44 || (len(raw)-44)%28 != 0 {
					return "nothing: it has a strange length"
				}
				n := func(i int) string { return dec(binary.LittleEndian.Uint64(raw[i:])) }
				var d []string
				for i := 44; i < len(raw); i += 28 {
					d = append(d, `{"to":"`+fnAddr(raw[i:i+20])+`","value":`+n(i+20)+`}`)
				}
				return `{"txid":"` + hx(rSha256(raw)) + `","from":"` + fnAddr(raw[:20]) + `","tocount":` + n(20) + `,"value":` + n(28) + `,"timestamp":` + strconv.FormatInt(int64(binary.LittleEndian.Uint64(raw[36:])), 10) +
					`,"transferdetails":[` + strings.Join(d, ",") + `],"sign":"` + hx(sig) + `"}`
			}
		}}
}

func filenetRefuse(t *T) (string, []interface{}) {
	from := fnAddr(t.B(20))
	outs := []fnVout{{fnAddr(t.B(20)), t.U64In(1, 1000)}, {fnAddr(t.B(20)), t.U64In(1, 1000)}}
	i := t.Intn(2)
	bad := t.Str("", from[:len(from)-2], from+"1", "0"+from[1:], rB58([]byte(hx(t.B(19))), b58btc), rB58([]byte(hx(t.B(21))), b58btc), rB58(t.B(20), b58btc), rB58([]byte("zz"+hx(t.B(19))), b58btc))
	for n := t.Intn(6); n > 0; n-- {
		outs = append(outs, fnVout{fnAddr(t.B(20)), t.U64In(1, 1000)})
	}
	t.Shuffle(len(outs), func(a, b int) { outs[a], outs[b] = outs[b], outs[a] })
	what := ""
	switch t.Intn(5) {
	case 0:
		what, from = "a malformed sender", bad
	case 1:
		what, outs[i].Address = "a malformed recipient", bad
	case 2:
		what, outs[i].Amount = "no amount", 0
	case 3:
		what, outs[i].Amount = "a total that does not fit", 1<<64-1-t.U64In(0, outs[1-i].Amount-1)
		t.Shuffle(len(outs), func(a, b int) { outs[a], outs[b] = outs[b], outs[a] })
	case 4:
		what, outs = "no recipients", nil
	}
	return what, t.CallR("filenet.Create", filenet.CreateEmptyTransactionAndHash, fnVin{from}, outs)
}

var _ = json.Marshal

var acPkgs = []*acPkg{
	{"ripple", "rippleTransaction", ripplePlan, rippleRefuse, nil},
	{"polkadot", "polkadotTransaction", polkadotPlan, polkadotRefuse, nil},
	{"bigbang", "bigbangTransaction", bigbangPlan, bigbangRefuse, nil},
	{"cosmos", "cosmosTransaction", cosmosPlan(cosmosPkgs["cosmos"]), cosmosRefuse(cosmosPkgs["cosmos"]), nil},
	{"evaio", "evaioTransaction", cosmosPlan(cosmosPkgs["evaio"]), cosmosRefuse(cosmosPkgs["evaio"]), nil},
	{"binance", "binancechainTransaction", binancePlan, binanceRefuse, map[string]int{"C20": 800}},
	{"ontology", "ontologyTransaction", ontologyPlan, ontologyRefuse, map[string]int{"C20": 800}},
	{"waykichain", "waykichainTransaction", waykiPlan, waykiRefuse, nil},
	{"virtualeconomy", "virtualeconomyTransaction", vsysPlan, vsysRefuse, map[string]int{"C20": 800}},
	{"moac", "moacchainTransaction", moacPlan, moacRefuse, nil},
	{"filenet", "filenetTransaction", filenetPlan, filenetRefuse, nil},
}

func init() {
	for _, p := range acPkgs {
		n := map[string]int{"C08": 3000, "C10": 1500, "C12": 300, "C14": 400, "C19": 160}
		for k, v := range p.n {
			n[k] = v
		}
		regFlow(p.name, p.dir, n, acFlow(p))
		reg(&Suite{Prop: "C16", Name: "signed-" + p.name, Pkg: p.dir, Quick: 60, Run: acHostile(p)})
		reg(&Suite{Prop: "C08", Name: p.name + "-refuse", Pkg: p.dir, Quick: 1500, Run: acRefuse(p)})
	}
}
