//go:build go1.22

package main

import (
	"bytes"
	"reflect"
	"strings"

	"github.com/btcsuite/btcd/txscript"
	"github.com/btcsuite/btcd/wire"

	bch "github.com/blocktree/go-owcdrivers/bitcoincashTransaction"
	bsv "github.com/blocktree/go-owcdrivers/bitcoinsvTransaction"
	btc "github.com/blocktree/go-owcdrivers/btcTransaction"
	cxc "github.com/blocktree/go-owcdrivers/cxcTransaction"
	hc "github.com/blocktree/go-owcdrivers/hcTransaction"
	omni "github.com/blocktree/go-owcdrivers/omniTransaction"
	zen "github.com/blocktree/go-owcdrivers/zencashTransaction"
)

// Seven drivers are variants of one Bitcoin driver: same calls, different
// versions, prefixes, digests and extra outputs.

type uIn struct {
	TxID string
	Vout uint32
}
type uOut struct {
	Address string
	Amount  uint64
}
type uUnlock struct {
	LockScript, RedeemScript string
	Amount                   uint64
	SigType                  byte
}
type uSP struct{ Signature, Pubkey []byte }
type uNormal struct {
	Address string
	SigType byte
	SigPub  uSP
}
type uMulti struct {
	Pubkey  string
	SigType byte
	SigPub  uSP
}
type uHash struct {
	Hash      string
	NRequired byte
	Normal    *uNormal
	Multi     []uMulti
}
type uOmni struct {
	TxType     int
	PropertyId uint32
	Amount     uint64
	Ecosystem  byte
	Memo       string
	Address    string
}
type uAsset struct {
	FirstSellTxID, Address string
	Amount                 uint64
}

type btcPfx struct {
	name        string
	arg         interface{}
	pkh, script []byte
	script2     []byte
	hrp         string
}

type btcPkg struct {
	name, dir                                   string
	ver                                         uint32
	ht                                          byte
	fork                                        bool // replay-protected digest for every input
	noSeg                                       bool // no SegwitON argument
	nested                                      bool // multisig always in a nested witness program, no other argument
	segwit                                      bool // segwit spending supported
	bech                                        bool // pays bech32 addresses
	create                                      interface{}
	createOmni                                  interface{}
	hashes, sign, insert, verify, multi, decode interface{}
	pfx                                         []btcPfx
}

func p(name string, arg interface{}, pkh, script, script2, hrp string) btcPfx {
	b := btcPfx{name: name, arg: arg, pkh: unhex(pkh), script: unhex(script), hrp: hrp}
	if script2 != "" {
		b.script2 = unhex(script2)
	}
	return b
}

var btcPkgs = []*btcPkg{
	{name: "btc", dir: "btcTransaction", ver: 2, ht: 1, segwit: true, bech: true,
		create: btc.CreateEmptyRawTransaction, hashes: btc.CreateRawTransactionHashForSig, sign: btc.SignRawTransactionHash,
		insert: btc.InsertSignatureIntoEmptyTransaction, verify: btc.VerifyRawTransaction, multi: btc.CreateMultiSig, decode: btc.DecodeRawTransaction,
		pfx: []btcPfx{
			p("BTC", btc.BTCMainnetAddressPrefix, "00", "05", "", "bc"), p("BTCt", btc.BTCTestnetAddressPrefix, "6f", "c4", "", "tb"),
			p("BCH", btc.BCHMainnetAddressPrefix, "00", "05", "", "bc"), p("BCHt", btc.BCHTestnetAddressPrefix, "6f", "c4", "", "tb"),
			p("LTC", btc.LTCMainnetAddressPrefix, "30", "05", "32", "ltc"), p("LTCt", btc.LTCTestnetAddressPrefix, "6f", "c4", "3a", "tltc"),
			p("ZEC", btc.ZECMainnetAddressPrefix, "1cb8", "1cbd", "", ""), p("ZECt", btc.ZECTestnetAddressPrefix, "1d25", "1cba", "", ""),
		}},
	{name: "hc", dir: "hcTransaction", ver: 2, ht: 1, segwit: true, bech: true,
		create: hc.CreateEmptyRawTransaction, hashes: hc.CreateRawTransactionHashForSig, sign: hc.SignRawTransactionHash,
		insert: hc.InsertSignatureIntoEmptyTransaction, verify: hc.VerifyRawTransaction, multi: hc.CreateMultiSig, decode: hc.DecodeRawTransaction,
		pfx: []btcPfx{p("HC", hc.HCMainnetAddressPrefix, "097f", "7f", "", "Hs"), p("HCt", hc.HCTestnetAddressPrefix, "0f21", "21", "", "Ts")}},
	{name: "omni", dir: "omniTransaction", ver: 2, ht: 1, noSeg: true, bech: true,
		createOmni: omni.CreateEmptyRawTransaction, hashes: omni.CreateRawTransactionHashForSig, sign: omni.SignRawTransactionHash,
		insert: omni.InsertSignatureIntoEmptyTransaction, verify: omni.VerifyRawTransaction, multi: omni.CreateMultiSig, decode: omni.DecodeRawTransaction,
		pfx: []btcPfx{p("BTC", omni.BTCMainnetAddressPrefix, "00", "05", "", "bc"), p("BTCt", omni.BTCTestnetAddressPrefix, "6f", "c4", "", "tb")}},
	{name: "zencash", dir: "zencashTransaction", ver: 1, ht: 1, bech: true,
		create: zen.CreateEmptyRawTransaction, hashes: zen.CreateRawTransactionHashForSig, sign: zen.SignRawTransactionHash,
		insert: zen.InsertSignatureIntoEmptyTransaction, verify: zen.VerifyRawTransaction, multi: zen.CreateMultiSig, decode: zen.DecodeRawTransaction,
		pfx: []btcPfx{p("ZEN", zen.ZENMainnetAddressPrefix, "2089", "2096", "", "bc")}},
	{name: "cxc", dir: "cxcTransaction", ver: 1, ht: 1, segwit: true, bech: true,
		create: cxc.CreateEmptyRawTransaction, hashes: cxc.CreateRawTransactionHashForSig, sign: cxc.SignRawTransactionHash,
		insert: cxc.InsertSignatureIntoEmptyTransaction, verify: cxc.VerifyRawTransaction, multi: cxc.CreateMultiSig, decode: cxc.DecodeRawTransaction,
		pfx: []btcPfx{
			p("BTC", cxc.BTCMainnetAddressPrefix, "00", "05", "", "bc"), p("BTCt", cxc.BTCTestnetAddressPrefix, "6f", "c4", "", "tb"),
			p("BCH", cxc.BCHMainnetAddressPrefix, "00", "05", "", "bc"), p("BCHt", cxc.BCHTestnetAddressPrefix, "6f", "c4", "", "tb"),
			p("LTC", cxc.LTCMainnetAddressPrefix, "30", "05", "", "ltc"), p("LTCt", cxc.LTCTestnetAddressPrefix, "6f", "c4", "", "tltc"),
			p("ZEC", cxc.ZECMainnetAddressPrefix, "1cb8", "1cbd", "", ""), p("ZECt", cxc.ZECTestnetAddressPrefix, "1d25", "1cba", "", ""),
		}},
	{name: "bch", dir: "bitcoincashTransaction", ver: 1, ht: 0x41, fork: true,
		create: bch.CreateEmptyRawTransaction, createOmni: bch.CreateEmptyOmniRawTransaction, hashes: bch.CreateRawTransactionHashForSig, sign: bch.SignRawTransactionHash,
		insert: bch.InsertSignatureIntoEmptyTransaction, verify: bch.VerifyRawTransaction, multi: bch.CreateMultiSig, decode: bch.DecodeRawTransaction,
		pfx: []btcPfx{
			p("BCH", bch.BCHMainnetAddressPrefix, "00", "05", "", ""), p("BCHt", bch.BCHTestnetAddressPrefix, "6f", "c4", "", ""),
			p("BTC", bch.BTCMainnetAddressPrefix, "00", "05", "", ""), p("BTCt", bch.BTCTestnetAddressPrefix, "6f", "c4", "", ""),
			p("LTC", bch.LTCMainnetAddressPrefix, "30", "05", "32", ""), p("LTCt", bch.LTCTestnetAddressPrefix, "6f", "c4", "3a", ""),
			p("ZEC", bch.ZECMainnetAddressPrefix, "1cb8", "1cbd", "", ""), p("ZECt", bch.ZECTestnetAddressPrefix, "1d25", "1cba", "", ""),
		}},
	{name: "bsv", dir: "bitcoinsvTransaction", ver: 1, ht: 0x41, fork: true,
		create: bsv.CreateEmptyRawTransaction, createOmni: bsv.CreateEmptyOmniRawTransaction, hashes: bsv.CreateRawTransactionHashForSig, sign: bsv.SignRawTransactionHash,
		insert: bsv.InsertSignatureIntoEmptyTransaction, verify: bsv.VerifyRawTransaction, multi: bsv.CreateMultiSig, decode: bsv.DecodeRawTransaction,
		pfx: []btcPfx{
			p("BCH", bsv.BCHMainnetAddressPrefix, "00", "05", "", ""), p("BCHt", bsv.BCHTestnetAddressPrefix, "6f", "c4", "", ""),
			p("BTC", bsv.BTCMainnetAddressPrefix, "00", "05", "", ""), p("BTCt", bsv.BTCTestnetAddressPrefix, "6f", "c4", "", ""),
			p("LTC", bsv.LTCMainnetAddressPrefix, "30", "05", "32", ""), p("LTCt", bsv.LTCTestnetAddressPrefix, "6f", "c4", "3a", ""),
			p("ZEC", bsv.ZECMainnetAddressPrefix, "1cb8", "1cbd", "", ""), p("ZECt", bsv.ZECTestnetAddressPrefix, "1d25", "1cba", "", ""),
		}},
}

// bIn is one planned input: the output it spends and who can sign.
type bIn struct {
	kind   string // p2pkh, nested, bech32, multi
	keys   []*KP  // one, or the keys of a multisig
	m      int
	lock   []byte
	redeem []byte
	code   []byte // script code of the digest
	wit    bool
	asset  bool // spends an asset output
	amount uint64
	digest []byte
	sigs   map[int][]byte // key index -> 64 bytes
}

// bPlan is a complete planned transaction.
type bPlan struct {
	k      *btcPkg
	pf     btcPfx
	segwit bool
	ins    []*bIn
	vins   []uIn
	vouts  []uOut
	lock   uint32
	repl   bool
	extra  []interface{} // chain-specific arguments
	omni   *uOmni
	asset  []uAsset
	change uOut
	tx     *rTx
	unlock []uUnlock
}

// addr is a random address of the network and its locking script.
func (t *T) btcAddr(k *btcPkg, pf btcPfx, omni bool) (string, []byte) {
	h := t.B(20)
	switch n := t.Intn(5); {
	case n == 0:
		return rB58Check(pf.script, h), sP2SH(h)
	case n == 1 && pf.script2 != nil && !omni:
		return rB58Check(pf.script2, h), sP2SH(h)
	case n == 2 && k.bech && pf.hrp != "" && pf.hrp == strings.ToLower(pf.hrp):
		if t.Bool() {
			h = t.B(32)
		}
		return rSegwit(pf.hrp, 0, h), sWit(h)
	}
	return rB58Check(pf.pkh, h), sP2PKH(h)
}

func (t *T) zenSuffix() (hash string, height uint64, suffix []byte) {
	b := t.B(32)
	height = t.U64In(0, 1<<33)
	if t.P(60) {
		height = t.U64In(17, 1<<23)
	}
	return hx(rev(b)), height, cat([]byte{0x20}, b, vbytes(scriptNum(height)), []byte{0xb4})
}

// scriptNum is the script encoding of a non-negative number.
func scriptNum(v uint64) []byte {
	var b []byte
	for ; v > 0; v >>= 8 {
		b = append(b, byte(v))
	}
	if len(b) > 0 && b[len(b)-1]&0x80 != 0 {
		b = append(b, 0)
	}
	return b
}

func (t *T) txid() (string, []byte) {
	b := t.B(32)
	return hx(rev(b)), b
}

// omniPayload is the reference OP_RETURN script, nil if it cannot be made.
func (o *uOmni) script(pf btcPfx, payload20 []byte, pre []byte) []byte {
	b := []byte{}
	id := cat(be32(o.PropertyId))
	amt := be64(o.Amount)
	switch o.TxType {
	case 0, 22:
		b = cat(id, amt)
	case 4, 28:
		b = []byte{o.Ecosystem}
	case 53, 70, 71, 72:
		b = id
	case 55, 56:
		m := []byte(o.Memo)
		if len(m) > 255 {
			m = m[:255]
		}
		b = cat(id, amt, m, []byte{0})
	case 185, 186:
		b = cat(id, amt, pre, payload20)
	default:
		return nil
	}
	b = cat([]byte("omni"), be16(0), be16(uint16(o.TxType)), b)
	if len(b) > 249 {
		return nil
	}
	return append([]byte{0x6a}, sPush(b)...)
}

func (t *T) btcPlan(k *btcPkg, maxIn int) *bPlan {
	pl := &bPlan{k: k, pf: k.pfx[t.Intn(len(k.pfx))]}
	pl.segwit = k.segwit && t.Bool()
	omni := k.createOmni != nil && (k.create == nil || t.P(30))
	nin := 1
	if t.P(50) {
		nin = t.Small(1, maxIn)
		if maxIn == 252 {
			nin = 253 - t.Small(1, 252)
		}
	}
	if t.P(30) {
		pl.lock = t.U32()
	}
	pl.repl = t.P(30)
	seq := uint32(0xffffffff)
	if pl.repl {
		seq = 0xfffffffd
	} else if pl.lock != 0 {
		seq = 0xfffffffe
	}
	pl.tx = &rTx{ver: k.ver, lock: pl.lock}
	for i := 0; i < nin; i++ {
		in := &bIn{kind: "p2pkh", amount: t.U64(), sigs: map[int][]byte{}}
		if in.amount == 0 {
			in.amount = 1
		}
		switch n := t.Intn(6); {
		case k.name == "zencash":
		case n == 0 || n == 1:
			in.kind = "multi"
		case n == 2 && pl.segwit:
			in.kind = "nested"
		case n == 3 && pl.segwit:
			in.kind = "bech32"
		}
		nk := 1
		if in.kind == "multi" {
			nk = t.Small(1, 4)
			if t.P(15) {
				nk = 1 + t.Intn(15)
			}
			in.m = 1 + t.Intn(nk)
			if in.m > 3 && t.P(70) {
				in.m = 1 + t.Intn(3)
			}
		}
		var pubs [][]byte
		for j := 0; j < nk; j++ {
			kp := t.kp(cK1)
			if nk > in.m && in.m > 0 && t.P(8) { // no one's key
				dead := 0
				for _, q := range in.keys {
					if q.pri == nil {
						dead++
					}
				}
				if nk-dead > in.m {
					kp = t.deadKey()
				}
			}
			if i > 0 && in.kind != "multi" {
				kp = t.kpIn(cK1, pl.ins[t.Intn(i)].keys)
			}
			in.keys = append(in.keys, kp)
			pubs = append(pubs, kp.pub)
		}
		h := rH160(pubs[0])
		switch in.kind {
		case "p2pkh":
			in.lock = sP2PKH(h)
			if k.name == "zencash" {
				_, _, suf := t.zenSuffix()
				if t.P(90) {
					in.lock = append(in.lock, suf...)
				}
			}
			in.code = in.lock
			if k.fork && t.P(20) {
				in.redeem = t.B(5) // ignored by these drivers
			}
		case "nested":
			in.redeem = sWit(h)
			in.lock = sP2SH(rH160(in.redeem))
			in.code = sP2PKH(h)
			in.wit = true
		case "bech32":
			in.lock = sWit(h)
			in.code = sP2PKH(h)
			in.wit = true
		case "multi":
			in.redeem = sMulti(in.m, pubs)
			in.code = in.redeem
			in.wit = pl.segwit
			if pl.segwit {
				in.lock = sP2SH(rH160(sWit(rSha256(in.redeem))))
			} else {
				in.lock = sP2SH(rH160(in.redeem))
			}
		}
		if k.name == "cxc" && (in.kind == "p2pkh" || in.kind == "multi") && t.P(30) {
			in.asset = true
			in.lock = cat(in.lock, []byte{28}, []byte("spkq"), t.B(24), []byte{0x75})
			if in.kind == "p2pkh" {
				in.code = in.lock
			}
		}
		id, idb := t.txid()
		v := t.U32()
		pl.vins = append(pl.vins, uIn{id, v})
		pl.tx.ins = append(pl.tx.ins, rIn{txid: idb, vout: v, seq: seq})
		pl.ins = append(pl.ins, in)
		red := ""
		if in.redeem != nil {
			red = hx(in.redeem)
		}
		pl.unlock = append(pl.unlock, uUnlock{hx(in.lock), red, in.amount, k.ht})
	}
	nout := t.Small(1, 4)
	if t.P(5) {
		nout = 1 + t.Intn(40)
	}
	if t.P(1) {
		nout = 250 + t.Intn(3)
		if omni {
			nout--
		}
	}
	var suffix []byte
	if k.name == "zencash" {
		h, n, s := t.zenSuffix()
		pl.extra = []interface{}{h, n}
		suffix = s
	}
	if k.name == "cxc" && t.P(25) {
		for i := 0; i < t.Small(1, 3); i++ {
			a, s := t.btcAddr(k, pl.pf, omni)
			ref := t.B(16)
			amt := t.U64()
			pl.asset = append(pl.asset, uAsset{hx(rev(ref)), a, amt})
			pl.tx.outs = append(pl.tx.outs, rOut{0, cat(s, vbytes(cat([]byte("spkq"), ref, le64(amt))), []byte{0x75})})
		}
		a, s := t.btcAddr(k, pl.pf, omni)
		pl.change = uOut{a, t.U64()}
		pl.tx.outs = append(pl.tx.outs, rOut{pl.change.Amount, s})
		return pl
	}
	for i := 0; i < nout; i++ {
		a, s := t.btcAddr(k, pl.pf, omni)
		amt := t.U64()
		if suffix != nil && s[0] != 0 {
			s = append(s, suffix...)
		}
		pl.vouts = append(pl.vouts, uOut{a, amt})
		pl.tx.outs = append(pl.tx.outs, rOut{amt, s})
	}
	if omni {
		pl.omni = &uOmni{TxType: []int{0, 4, 22, 28, 53, 55, 56, 70, 71, 72, 185, 186}[t.Intn(12)], PropertyId: t.U32(), Amount: t.U64(), Ecosystem: byte(t.Intn(256))}
		if t.P(50) {
			pl.omni.TxType = 0
		}
		pl.omni.Memo = t.Text(t.Len(0, 230))
		if len(pl.omni.Memo) > 225 {
			pl.omni.Memo = pl.omni.Memo[:225]
		}
		h := t.B(20)
		pre := pl.pf.pkh
		if t.Bool() {
			pre = pl.pf.script
		}
		pl.omni.Address = rB58Check(pre, h)
		pl.tx.outs = append(pl.tx.outs, rOut{0, pl.omni.script(pl.pf, h, pre)})
	}
	return pl
}

func (t *T) btcCreate(pl *bPlan) (string, error) {
	k := pl.k
	var out []interface{}
	switch {
	case pl.asset != nil:
		out = t.Call(k.name+".CreateEmptyAssetRawTransaction", cxc.CreateEmptyAssetRawTransaction, pl.vins, pl.asset, pl.change, pl.lock, pl.repl, pl.pf.arg)
	case pl.omni != nil:
		out = t.Call(k.name+".CreateEmptyOmniRawTransaction", k.createOmni, pl.vins, pl.vouts, *pl.omni, pl.lock, pl.repl, pl.pf.arg)
	default:
		args := append([]interface{}{pl.vins, pl.vouts, pl.lock, pl.repl, pl.pf.arg}, pl.extra...)
		out = t.Call(k.name+".CreateEmptyRawTransaction", k.create, args...)
	}
	return str(out, 0), errOf(out)
}

func (k *btcPkg) segArg(pl *bPlan, a []interface{}, pfx bool) []interface{} {
	if !k.noSeg {
		a = append(a, pl.segwit)
	}
	if pfx {
		a = append(a, pl.pf.arg)
	}
	return a
}

func (t *T) btcHashes(pl *bPlan, tx string, unlock []uUnlock) ([]uHash, error) {
	out := t.Call(pl.k.name+".CreateRawTransactionHashForSig", pl.k.hashes, pl.k.segArg(pl, []interface{}{tx, unlock}, true)...)
	var h []uHash
	into(&h, out[0])
	if errOf(out) == nil && t.own("C09") {
		for i := range h {
			addr, pubs := "", []string(nil)
			if h[i].Normal != nil {
				addr = h[i].Normal.Address
			}
			for _, m := range h[i].Multi {
				pubs = append(pubs, m.Pubkey)
			}
			got := t.gets(pl.k.name+".TxHash", reflect.ValueOf(out[0]).Index(i), "GetTxHashHex", "IsMultisig", "GetNormalTxAddress", "GetMultiTxPubkeys")
			want := []interface{}{h[i].Hash, h[i].NRequired != 0, addr, pubs}
			for j := range want {
				t.Check(got[j] == nil || dumpOf(got[j]) == dumpOf(want[j]), "%s: digest %d: accessor %d answers %s, the label is %s", pl, i, j, dumpOf(got[j]), dumpOf(want[j]))
			}
		}
	}
	return h, errOf(out)
}

func (t *T) btcInsert(pl *bPlan, tx string, h []uHash, unlock []uUnlock) (string, error) {
	out := t.Call(pl.k.name+".InsertSignatureIntoEmptyTransaction", pl.k.insert, pl.k.segArg(pl, []interface{}{tx, h, unlock}, false)...)
	return str(out, 0), errOf(out)
}

func (t *T) btcVerify(pl *bPlan, tx string, unlock []uUnlock) bool {
	out := t.Call(pl.k.name+".VerifyRawTransaction", pl.k.verify, pl.k.segArg(pl, []interface{}{tx, unlock}, true)...)
	return out[0].(bool)
}

// normalAddr is the address label of a single-key input.
func (pl *bPlan) normalAddr(in *bIn) string {
	switch in.kind {
	case "p2pkh":
		if pl.k.name == "bch" {
			return rCash("bitcoincash", append([]byte{0}, in.lock[3:23]...))
		}
		return rB58Check(pl.pf.pkh, in.lock[3:23])
	case "nested":
		return rB58Check(pl.pf.script, in.lock[2:22])
	}
	return rSegwit(pl.pf.hrp, 0, in.lock[2:])
}

// digestOf is the reference digest of input i.
func (pl *bPlan) digestOf(i int) []byte {
	in := pl.ins[i]
	if in.wit || pl.k.fork {
		return pl.tx.bip143(i, in.code, in.amount, uint32(pl.k.ht))
	}
	return pl.tx.legacy(i, in.code, uint32(pl.k.ht))
}

// signedTx is the reference signed transaction for the signatures in sigs
// (per input, in key order).
func (pl *bPlan) signedTx(sigs [][][]byte, pubs [][]byte) []byte {
	c := *pl.tx
	c.ins = append([]rIn{}, pl.tx.ins...)
	witness := false
	for i, in := range pl.ins {
		if in.wit {
			witness = true
		}
		var ds [][]byte
		for _, s := range sigs[i] {
			ds = append(ds, append(rDER(s), pl.k.ht))
		}
		r := &c.ins[i]
		switch in.kind {
		case "p2pkh":
			r.script = cat(sPush(ds[0]), sPush(pubs[i]))
		case "nested":
			r.script = sPush(in.redeem)
			r.wit = [][]byte{ds[0], pubs[i]}
		case "bech32":
			r.wit = [][]byte{ds[0], pubs[i]}
		case "multi":
			if in.wit {
				r.script = sPush(sWit(rSha256(in.redeem)))
				r.wit = [][]byte{{}}
				r.wit = append(r.wit, ds...)
				r.wit = append(r.wit, in.redeem)
			} else {
				r.script = []byte{0}
				for _, d := range ds {
					r.script = append(r.script, sPush(d)...)
				}
				r.script = append(r.script, sPush(in.redeem)...)
			}
		}
	}
	return c.ser(witness)
}

// engine runs the signed transaction through btcd's script interpreter.
func (t *T) btcEngine(pl *bPlan, signed []byte) {
	var m wire.MsgTx
	if err := m.Deserialize(bytes.NewReader(signed)); err != nil {
		t.Failf("%s: the combined transaction does not parse: %v: %x", pl.k.name, err, signed)
	}
	low := txscript.ScriptFlags(txscript.ScriptVerifyLowS)
	if t.highS { // made elsewhere: within consensus
		low = 0
	}
	flags := low | txscript.ScriptBip16 | txscript.ScriptVerifyWitness | txscript.ScriptVerifyDERSignatures | txscript.ScriptVerifyStrictEncoding | txscript.ScriptVerifyCleanStack | txscript.ScriptStrictMultiSig | txscript.ScriptVerifyMinimalData
	for i, in := range pl.ins {
		if in.kind == "multi" && in.asset {
			continue // a script hash with an asset appendix exists on this chain only
		}
		e, err := txscript.NewEngine(in.lock, &m, i, flags, nil, nil, int64(in.amount))
		if err == nil {
			err = e.Execute()
		}
		t.Check(err == nil, "%s: input %d (%s) of the combined transaction does not satisfy its output %x: %v\ntx %x", pl.k.name, i, in.kind, in.lock, err, signed)
		t.ev["script engine runs"]++
	}
}

func (pl *bPlan) String() string {
	ks := []string{}
	for _, in := range pl.ins {
		s := in.kind
		if in.kind == "multi" {
			s += " " + string(rune('0'+in.m)) + "/" + string(rune('0'+len(in.keys)))
		}
		ks = append(ks, s)
	}
	return pl.k.name + " " + pl.pf.name + " [" + strings.Join(ks, ",") + "]"
}

// btcForeign turns the plan into an unsigned transaction no driver call makes:
// sequence numbers of each input's own, other output scripts, any lock time.
func (t *T) btcForeign(pl *bPlan) string {
	for i := range pl.tx.ins {
		pl.tx.ins[i].seq = t.U32()
	}
	if t.Bool() {
		pl.lock = t.U32()
		pl.tx.lock = pl.lock
	}
	for i := range pl.tx.outs {
		if t.P(30) {
			n := 1 + t.Intn(60)
			if t.P(20) {
				n = 1 + t.Intn(252)
			}
			pl.tx.outs[i].script = t.B(n)
		}
	}
	t.Shape("made elsewhere")
	return hx(pl.tx.ser(false))
}

func btcFlow(k *btcPkg) func(*T) {
	return func(t *T) {
		maxIn := 4
		if t.own("C07", "C09") {
			maxIn = 12
			if t.P(2) {
				maxIn = 252
			}
		}
		pl := t.btcPlan(k, maxIn)
		t.Logf("%s segwit=%v lock=%d replaceable=%v vins=%v vouts=%v omni=%v", pl, pl.segwit, pl.lock, pl.repl, pl.vins, pl.vouts, pl.omni)
		empty, err := t.btcCreate(pl)
		t.Check(err == nil, "%s: a faithful request is refused: %v", pl, err)
		t.Fp(empty)
		want := hx(pl.tx.ser(false))
		if t.own("C07") {
			for _, in := range pl.ins {
				t.Shape("%s", in.kind)
			}
			for _, o := range pl.tx.outs {
				t.Shape("output script %x..%x len %d", o.script[:2], o.script[len(o.script)-1:], len(o.script))
			}
			t.Check(empty == want, "%s: unsigned transaction differs from the request\ngot  %s\nwant %s", pl, empty, want)
			return
		}
		t.Check(empty == want, "%s: unsigned transaction differs from the request\ngot  %s\nwant %s", pl, empty, want)
		made := true
		if t.P(35) { // a transaction made elsewhere
			made = false
			empty = t.btcForeign(pl)
			t.Fp(empty)
		}
		if t.own("C20") {
			t.btcDecode(pl, empty, false)
		}
		hashes, err := t.btcHashes(pl, empty, pl.unlock)
		if err != nil && !made {
			t.Shape("a transaction made elsewhere is refused")
			return
		}
		t.Check(err == nil && len(hashes) == len(pl.ins), "%s: no digests for %s: %v", pl, dumpOf(pl.unlock), err)
		for i, in := range pl.ins {
			in.digest = pl.digestOf(i)
			h := hashes[i]
			if t.own("C09") {
				t.Shape("%s segwit=%v", in.kind, pl.segwit)
			}
			t.Check(h.Hash == hx(in.digest), "%s: digest of input %d (%s) is %s, want %x\ntx %s unlock %s", pl, i, in.kind, h.Hash, in.digest, empty, dumpOf(pl.unlock))
			if in.kind == "multi" {
				t.Check(int(h.NRequired) == in.m && h.Normal == nil && len(h.Multi) == len(in.keys), "%s: input %d: label of a %d of %d multisig: %s", pl, i, in.m, len(in.keys), dumpOf(h))
				for j, kp := range in.keys {
					t.Check(h.Multi[j].Pubkey == hx(kp.pub) && h.Multi[j].SigType == k.ht, "%s: input %d key %d labelled %s, want %x", pl, i, j, h.Multi[j].Pubkey, kp.pub)
				}
			} else {
				t.Check(h.NRequired == 0 && h.Normal != nil && h.Multi == nil && h.Normal.Address == pl.normalAddr(in) && h.Normal.SigType == k.ht, "%s: input %d (%s) labelled %s, want address %s", pl, i, in.kind, dumpOf(h), pl.normalAddr(in))
			}
		}
		if t.own("C09") {
			return
		}
		// signatures, by the driver or from elsewhere
		sigs := make([][][]byte, len(pl.ins))
		pubs := make([][]byte, len(pl.ins))
		for i, in := range pl.ins {
			need := []int{0}
			if in.kind == "multi" {
				need = nil
				for _, j := range t.Perm(len(in.keys)) {
					if in.keys[j].pri != nil {
						need = append(need, j)
					}
				}
				if in.m < len(need) && t.P(15) {
					need = need[:in.m+1] // more than required
				} else {
					need = need[:in.m]
				}
			}
			for _, j := range need {
				kp := in.keys[j]
				var sp uSP
				if t.P(60) {
					out := t.CallR(k.name+".SignRawTransactionHash", k.sign, hashes[i].Hash, t.spare(kp.pri))
					t.Check(errOf(out) == nil, "%s: signing %s with %x refused: %v", pl, hashes[i].Hash, kp.pri, errOf(out))
					into(&sp, out[0])
					if t.own("C19") {
						t.checkSig(kp, in.digest, sp.Signature, true, pl.String())
						t.Check(bytes.Equal(sp.Pubkey, kp.pub), "%s: public key %x with the signature, want %x", pl, sp.Pubkey, kp.pub)
					}
				} else {
					sp = uSP{t.extSign(kp, in.digest), kp.pub}
				}
				in.sigs[j] = sp.Signature
				if in.kind == "multi" {
					hashes[i].Multi[j].SigPub = sp
				} else {
					hashes[i].Normal.SigPub = sp
					pubs[i] = kp.pub
				}
			}
			n := 0
			for j := range in.keys {
				if s, ok := in.sigs[j]; ok && (in.kind != "multi" || n < in.m) {
					sigs[i] = append(sigs[i], s)
					n++
				}
			}
		}
		signed, err := t.btcInsert(pl, empty, hashes, pl.unlock)
		t.Check(err == nil, "%s: combining is refused: %v", pl, err)
		ref := pl.signedTx(sigs, pubs)
		if t.own("C19") {
			for _, ss := range sigs {
				for _, s := range ss {
					t.Check(bytes.Contains(unhex(signed), sPush(append(rDER(s), k.ht))), "%s: the combined transaction does not carry the strict encoding of signature %x: %s", pl, s, signed)
				}
			}
			t.btcBadSign(k)
			return
		}
		t.Check(signed == hx(ref), "%s: combined transaction\ngot  %s\nwant %x", pl, signed, ref)
		if t.own("C20") {
			t.btcDecode(pl, signed, true)
			return
		}
		t.Check(t.btcVerify(pl, signed, pl.unlock), "%s: the combined transaction does not verify: %s unlock %s", pl, signed, dumpOf(pl.unlock))
		if t.own("C11") {
			for _, in := range pl.ins {
				t.Shape("%s segwit=%v keys=%d m=%d", in.kind, pl.segwit, len(in.keys), in.m)
			}
			if !k.fork && k.name != "zencash" {
				t.btcEngine(pl, ref)
			}
		}
		if t.own("C13") {
			t.btcForge(pl, ref, sigs, pubs)
		}
	}
}

func (t *T) btcBadSign(k *btcPkg) {
	key, hash := t.kp(cK1).pri, hx(t.B(32))
	switch t.Intn(5) {
	case 0:
		key = make([]byte, 32)
	case 1:
		key = cK1.fb(cK1.n)
	case 2:
		key = key[:31]
	case 3:
		hash = hash[:62]
	case 4:
		hash = "zz" + hash[2:]
	}
	out := t.CallR(k.name+".SignRawTransactionHash", k.sign, hash, key)
	t.Check(errOf(out) != nil, "%s: signing digest %s with key %x is not refused", k.name, hash, key)
}

// btcDecode checks what decoding yields and that missing or surplus bytes are refused.
func (t *T) btcDecode(pl *bPlan, txHex string, signed bool) {
	raw := unhex(txHex)
	k := pl.k
	name := k.name + ".DecodeRawTransaction"
	out := t.Call(name, k.decode, append([]byte{}, raw...), pl.segwit)
	t.Check(errOf(out) == nil, "%s: decoding %s: %v", pl, txHex, errOf(out))
	var d struct {
		Version, LockTime []byte
		Witness           bool
		Vins              []struct{ TxID, Vout []byte }
		Vouts             []struct{}
	}
	into(&d, out[0])
	wit := false
	if signed {
		for _, in := range pl.ins {
			wit = wit || in.wit
		}
	}
	t.Check(bytes.Equal(d.Version, le32(k.ver)) && bytes.Equal(d.LockTime, le32(pl.lock)) && d.Witness == wit && len(d.Vins) == len(pl.ins) && len(d.Vouts) == len(pl.tx.outs),
		"%s: decoding %s gives version %x lock time %x witness %v %d inputs %d outputs", pl, txHex, d.Version, d.LockTime, d.Witness, len(d.Vins), len(d.Vouts))
	for i, in := range d.Vins {
		t.Check(bytes.Equal(in.TxID, pl.tx.ins[i].txid) && bytes.Equal(in.Vout, le32(pl.tx.ins[i].vout)), "%s: decoded input %d is %x:%x", pl, i, in.TxID, in.Vout)
		ty := 0
		if signed {
			ty = map[string]int{"p2pkh": 1, "nested": 2, "bech32": 3, "multi": 4}[pl.ins[i].kind]
		}
		got := methods(out[0], i, "GetTxID", "GetVout", "GetUTXOType")
		t.Check(got[0].(string) == pl.vins[i].TxID && got[1].(uint32) == pl.vins[i].Vout && got[2].(int) == ty, "%s: decoded input %d reads %v, want %v type %d", pl, i, got, pl.vins[i], ty)
	}
	bad := append(append([]byte{}, raw...), t.Raw(1+t.Intn(4))...)
	if t.Bool() {
		bad = raw[:t.Intn(len(raw))]
	}
	out = t.Call(name, k.decode, bad, pl.segwit)
	t.Check(errOf(out) != nil, "%s: %x with missing or surplus bytes decodes (original %s)", pl, bad, txHex)
}

// btcForge presents altered transactions; none may verify.
func (t *T) btcForge(pl *bPlan, ref []byte, sigs [][][]byte, pubs [][]byte) {
	clone := func() ([][][]byte, [][]byte) {
		a := make([][][]byte, len(sigs))
		for i := range sigs {
			a[i] = append([][]byte{}, sigs[i]...)
		}
		return a, append([][]byte{}, pubs...)
	}
	for n := 0; n < 3; n++ {
		s, p := clone()
		i := t.Intn(len(pl.ins))
		in := pl.ins[i]
		unlock := append([]uUnlock{}, pl.unlock...)
		tx := append([]byte{}, ref...)
		what, key := "", ""
		switch t.Intn(13) {
		case 0, 1, 2:
			what = "a changed byte"
			tx = t.Mutate(ref)
			if bytes.Equal(tx, ref) {
				continue
			}
		case 3:
			what = "a signature by a foreign key with its public key"
			f := t.foreign(in.keys[t.Intn(len(in.keys))])
			if in.kind == "multi" {
				s[i][t.Intn(len(s[i]))] = t.extSign(f, in.digest)
			} else {
				s[i][0] = t.extSign(f, in.digest)
				p[i] = f.pub
				if pl.k.name == "zencash" {
					key = "zencash-foreign-key"
				}
			}
			tx = pl.signedTx(s, p)
		case 4:
			what = "a signature over another digest"
			j := t.Intn(len(s[i]))
			for q, kp := range in.keys {
				if bytes.Equal(in.sigs[q], s[i][j]) {
					s[i][j] = t.extSign(kp, t.B(32))
					break
				}
			}
			tx = pl.signedTx(s, p)
		case 5:
			what = "another amount of the spent output"
			if !in.wit && !pl.k.fork {
				continue
			}
			unlock[i].Amount += 1 + uint64(t.Intn(5))
		case 6:
			what = "another key hash in the spent output"
			if pl.k.name == "zencash" {
				key = "zencash-other-output"
				continue // the digest covers the script: see case 7
			}
			lk := append([]byte{}, in.lock...)
			lk[t.Intn(len(lk))] ^= byte(1 + t.Intn(255))
			if t.P(10) {
				lk = t.Mutate(in.lock)
			}
			if in.asset && in.kind == "multi" && bytes.Equal(lk[:min(23, len(lk))], in.lock[:23]) {
				continue // no digest covers the appendix of a script hash output
			}
			if in.kind == "multi" && in.wit && t.P(20) {
				what = "a legacy script hash of the redeem script"
				lk = sP2SH(rH160(in.redeem))
			}
			unlock[i].LockScript = hx(lk)
		case 7:
			what = "a changed output amount"
			c := *pl.tx
			c.outs = append([]rOut{}, pl.tx.outs...)
			c.outs[t.Intn(len(c.outs))].amount ^= 1 << uint(t.Intn(64))
			q := *pl
			q.tx = &c
			tx = q.signedTx(s, p)
		case 8:
			if in.kind != "multi" {
				continue
			}
			if in.m >= 2 && t.Bool() {
				what = "one signature twice"
				a := t.Intn(in.m - 1)
				s[i][a+1] = s[i][a]
			} else if in.m >= 2 && t.Bool() {
				what = "signatures out of order"
				s[i][0], s[i][1] = s[i][1], s[i][0]
			} else if in.m >= 2 {
				what = "a missing signature"
				s[i] = s[i][:in.m-1]
			} else {
				continue
			}
			tx = pl.signedTx(s, p)
		case 9:
			if in.kind != "multi" || len(in.keys) < 2 {
				continue
			}
			what = "a redeem script with a lower threshold or another key"
			var ps [][]byte
			for _, kp := range in.keys {
				ps = append(ps, kp.pub)
			}
			m := in.m
			if m > 1 && t.Bool() {
				m--
			} else {
				ps[t.Intn(len(ps))] = t.kp(cK1).pub
			}
			q := *pl
			q.ins = append([]*bIn{}, pl.ins...)
			x := *in
			x.redeem, x.m, x.code = sMulti(m, ps), m, sMulti(m, ps)
			q.ins[i] = &x
			d := q.digestOf(i)
			s[i] = nil
			for jj := 0; jj < m; jj++ {
				for _, kp := range in.keys {
					if kp.pri != nil && bytes.Equal(kp.pub, ps[jj]) {
						s[i] = append(s[i], t.extSign(kp, d))
					}
				}
			}
			if len(s[i]) < m {
				continue
			}
			tx = q.signedTx(s, p)
			unlock[i].RedeemScript = hx(x.redeem)
		case 10:
			what = "a foreign hash type"
			q := *pl
			kk := *pl.k
			kk.ht = []byte{0, 2, 3, 0x81, 0x41, 1, 0xc1}[t.Intn(7)]
			if kk.ht == pl.k.ht {
				continue
			}
			q.k = &kk
			tx = q.signedTx(s, p)
		case 11:
			if len(pl.ins) < 2 {
				continue
			}
			what = "signatures of two inputs swapped"
			j := (i + 1) % len(pl.ins)
			if pl.ins[i].kind == "multi" || pl.ins[j].kind == "multi" {
				continue
			}
			s[i], s[j] = s[j], s[i]
			if t.Bool() {
				p[i], p[j] = p[j], p[i]
			}
			tx = pl.signedTx(s, p)
		case 12:
			if in.kind == "multi" || pl.k.name == "zencash" {
				continue
			}
			what = "an output of a public key that is no point"
			q := *pl
			q.ins = append([]*bIn{}, pl.ins...)
			x := *in
			x.keys = []*KP{t.deadKey()}
			p[i] = x.keys[0].pub
			h := rH160(p[i])
			switch in.kind {
			case "p2pkh":
				x.lock = append(sP2PKH(h), in.lock[25:]...)
			case "nested":
				x.redeem = sWit(h)
				x.lock = sP2SH(rH160(x.redeem))
				unlock[i].RedeemScript = hx(x.redeem)
			case "bech32":
				x.lock = sWit(h)
			}
			unlock[i].LockScript = hx(x.lock)
			q.ins[i] = &x
			tx = q.signedTx(s, p)
		}
		if bytes.Equal(tx, ref) && dumpOf(unlock) == dumpOf(pl.unlock) {
			continue
		}
		t.Shape("forged: %s (%s)", what, in.kind)
		t.ev["forgeries presented"]++
		if t.btcVerify(pl, hx(tx), unlock) {
			t.FailKey(key, "%s: verification accepts %s\ntx       %x\noriginal %x\nunlock   %s\noriginal %s", pl, what, tx, ref, dumpOf(unlock), dumpOf(pl.unlock))
		}
	}
}

// btcRefuse: requests that cannot be encoded faithfully must be refused.
func btcRefuse(k *btcPkg) func(*T) {
	return func(t *T) {
		pl := t.btcPlan(k, 3)
		pl.asset, pl.omni = nil, nil
		if len(pl.vouts) == 0 {
			a, _ := t.btcAddr(k, pl.pf, false)
			pl.vouts = []uOut{{a, 5}}
		}
		if k.create == nil {
			pl.omni = &uOmni{PropertyId: 31, Amount: 5}
		}
		what := ""
		i, o := t.Intn(len(pl.vins)), t.Intn(len(pl.vouts))
		switch t.Intn(9) {
		case 0:
			what = "txid of a wrong length"
			pl.vins[i].TxID = hx(t.B([]int{0, 1, 16, 31, 33, 64}[t.Intn(6)]))
		case 1:
			what = "txid that is no hex"
			b := []byte(pl.vins[i].TxID)
			b[t.Intn(64)] = "xyzg -"[t.Intn(6)]
			pl.vins[i].TxID = string(b)
		case 2:
			what = "no inputs"
			pl.vins = nil
		case 3:
			what = "no outputs"
			pl.vouts = nil
		case 4:
			what = "253 or more inputs"
			for n := 253 + t.Intn(300); len(pl.vins) < n; {
				pl.vins = append(pl.vins, pl.vins[0])
			}
		case 5:
			what = "253 or more outputs"
			for n := 253 + t.Intn(300); len(pl.vouts) < n; {
				pl.vouts = append(pl.vouts, pl.vouts[0])
			}
		case 6:
			what = "a damaged address"
			a := pl.vouts[o].Address
			m := t.MutateText(a)
			if m == a || strings.EqualFold(m, a) {
				t.trivial = true
				return
			}
			pl.vouts[o].Address = m
		case 7:
			what = "an address of another network"
			h := t.B(20)
			for {
				pre := t.Raw(1 + t.Intn(2))
				if !bytes.Equal(pre, pl.pf.pkh) && !bytes.Equal(pre, pl.pf.script) && !bytes.Equal(pre, pl.pf.script2) {
					pl.vouts[o].Address = rB58Check(pre, h)
					break
				}
			}
			if t.Bool() {
				hrp := t.Str("bc", "tb", "ltc", "tltc", "bcrt", "bca", "tbx", "btg", "vtc")
				if hrp != pl.pf.hrp || !k.bech {
					pl.vouts[o].Address = rSegwit(hrp, 0, h)
				}
			}
		case 8:
			what = "a payload of a wrong length, or a witness program of another version or length"
			n := t.Intn(40)
			if n == 20 {
				n = 21
			}
			body := append(append([]byte{}, pl.pf.pkh...), t.B(n)...)
			if len(body) >= 20 {
				pre := body[:len(body)-20]
				if bytes.Equal(pre, pl.pf.pkh) || bytes.Equal(pre, pl.pf.script) || bytes.Equal(pre, pl.pf.script2) {
					t.trivial = true // reads as a proper address with a longer or shorter prefix
					return
				}
			}
			pl.vouts[o].Address = rB58Check(nil, body)
			if k.bech && pl.pf.hrp != "" && t.Bool() {
				if t.Bool() {
					pl.vouts[o].Address = rSegwit(pl.pf.hrp, byte(1+t.Intn(16)), t.B([]int{20, 32}[t.Intn(2)]))
				} else if n != 32 {
					pl.vouts[o].Address = rSegwit(pl.pf.hrp, 0, t.B(n))
				}
			}
		}
		t.Shape("%s", what)
		t.Fp(what, dumpOf(pl.vins), dumpOf(pl.vouts))
		t.Logf("%s: %s: %s %s", pl, what, dumpOf(pl.vins), dumpOf(pl.vouts))
		tx, err := t.btcCreate(pl)
		t.Check(err != nil && tx == "", "%s: a request with %s is not refused: %s (vins %s vouts %s)", pl, what, tx, dumpOf(pl.vins), clip(dumpOf(pl.vouts), 600))
	}
}

// btcScripts: an output whose script is not quite one of the known kinds gets
// no digest, so no label either.
func btcScripts(k *btcPkg) func(*T) {
	return func(t *T) {
		pl := t.btcPlan(k, 3)
		i := t.Intn(len(pl.ins))
		in := pl.ins[i]
		ops := map[string][]int{"p2pkh": {0, 1, 2, 23, 24}, "nested": {0, 1, 22}, "multi": {0, 1, 22}, "bech32": {0, 1}}[in.kind]
		lk := append([]byte{}, in.lock...)
		lk[ops[t.Intn(len(ops))]] ^= byte(1 << uint(t.Intn(8)))
		if t.P(20) {
			lk = lk[:t.Intn(len(lk))]
		}
		unlock := append([]uUnlock{}, pl.unlock...)
		unlock[i].LockScript = hx(lk)
		tx := hx(pl.tx.ser(false))
		t.Fp(tx, hx(lk))
		t.Shape("%s", in.kind)
		t.Logf("%s: input %d (%s) lock script %x for %x", pl, i, in.kind, lk, in.lock)
		h, err := t.btcHashes(pl, tx, unlock)
		t.Check(err != nil && len(h) == 0, "%s: input %d spends an output with the unknown script %x and gets %s (tx %s unlock %s)", pl, i, lk, dumpOf(h), tx, dumpOf(unlock))
	}
}

// btcMulti: multisig scripts and addresses.
func btcMulti(k *btcPkg) func(*T) {
	return func(t *T) {
		pl := &bPlan{k: k, pf: k.pfx[t.Intn(len(k.pfx))]}
		pl.segwit = !k.noSeg && t.Bool()
		n := t.Small(1, 16)
		if t.P(6) {
			n = 17 + t.Intn([]int{3, 300}[t.Intn(2)])
		}
		m := 1 + t.Intn(n)
		if t.P(15) {
			m = []int{0, n + 1, n + 2, 17, 255, 256 - n}[t.Intn(6)]
		}
		if m < 0 || m > 255 {
			m = 0
		}
		var keys [][]byte
		twice := t.P(15)
		size := 3
		bad := m < 1 || m > n || n > 16
		for i := 0; i < n; i++ {
			b := t.spare(append([]byte{2 + byte(t.Intn(2))}, t.B(32)...))
			if t.P(4) {
				b = append([]byte{4}, t.B(64)...)
			}
			if t.P(2) {
				b = t.B([]int{0, 1, 20, 32, 34, 64, 66}[t.Intn(7)])
				bad = true
			}
			if i > 0 && twice && !bad && t.P(25) { // the same key again is another key of the list
				b = keys[[]int{i - 1, 0, t.Intn(i)}[t.Intn(3)]]
			}
			size += 1 + len(b)
			keys = append(keys, b)
		}
		if size > 520 {
			bad = true
		}
		t.Shape("refused=%v n=%d", bad, n)
		t.Fp(m, dumpOf(keys))
		args := []interface{}{byte(m), keys}
		if k.nested {
			pl.segwit = true
		} else {
			args = k.segArg(pl, args, true)
		}
		out := t.Call(k.name+".CreateMultiSig", k.multi, args...)
		err := errOf(out)
		if bad {
			t.Check(err != nil && str(out, 0) == "" && str(out, 1) == "", "%s: %d of %d keys %x is not refused: %v", k.name, m, n, keys, out)
			return
		}
		t.Check(err == nil, "%s: %d of %d refused: %v (keys %x)", k.name, m, n, err, keys)
		red := sMulti(m, keys)
		t.Check(str(out, 1) == hx(red), "%s: %d of %d script %s, want %x", k.name, m, n, str(out, 1), red)
		h := rH160(red)
		if pl.segwit {
			h = rH160(sWit(rSha256(red)))
		}
		t.Check(str(out, 0) == rB58Check(pl.pf.script, h), "%s %s segwit=%v: multisig address %s, want %s", k.name, pl.pf.name, pl.segwit, str(out, 0), rB58Check(pl.pf.script, h))
	}
}

func init() {
	for _, k := range btcPkgs {
		regFlow(k.name, k.dir, map[string]int{"C07": 1500, "C09": 600, "C11": 240, "C13": 300, "C19": 120, "C20": 400}, btcFlow(k))
		reg(&Suite{Prop: "C07", Name: k.name + "-refuse", Pkg: k.dir, Quick: 1500, Run: btcRefuse(k)})
		reg(&Suite{Prop: "C09", Name: k.name + "-scripts", Pkg: k.dir, Quick: 400, Run: btcScripts(k)})
		reg(&Suite{Prop: "C15", Name: k.name, Pkg: k.dir, Quick: 8000, Run: btcMulti(k)})
	}
}
