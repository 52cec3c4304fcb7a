//go:build go1.22

package main

import (
	"bytes"
	"reflect"
	"strings"

	btclike "github.com/blocktree/go-owcdrivers/btcLikeTxDriver"
)

// btcLikeTxDriver: the test network of Bitcoin, one call signs all inputs, a
// multi-signature input stands alone.

type lIn struct {
	kind   string // p2pkh, nested, bech32, multi
	keys   []*KP
	pubs   [][]byte // keys of the multi-signature script
	m      int
	use    []int // which keys sign
	lock   []byte
	redeem []byte
	amount uint64
	digest []byte
	sigs   [][]byte
}
type lVin struct {
	TxID string
	Vout uint32
}
type lVout struct {
	Address string
	Amount  uint64
}
type lUnlock struct {
	PrivateKey   []byte
	LockScript   string
	RedeemScript string
	Amount       uint64
	Address      string
}
type lSP struct{ Signature, Pubkey []byte }

type lPlan struct {
	ins   []*lIn
	vins  []lVin
	vouts []lVout
	tx    *rTx
	lock  uint32
	rbf   bool
}

func (t *T) likeAddr() (string, []byte) {
	h := t.B(20)
	switch t.Intn(5) {
	case 0:
		return rB58Check([]byte{0xc4}, h), sP2SH(h)
	case 1:
		return rSegwit("tb", 0, h), sWit(h)
	case 2:
		h = t.B(32)
		return rSegwit("tb", 0, h), sWit(h)
	}
	return rB58Check([]byte{0x6f}, h), sP2PKH(h)
}

func (t *T) likePlan(maxIn int) *lPlan {
	pl := &lPlan{}
	if t.P(40) {
		pl.lock = t.U32()
	}
	pl.rbf = t.P(30)
	seq := uint32(0xffffffff)
	if pl.rbf {
		seq = 0xfffffffd
	} else if pl.lock != 0 {
		seq = 0xfffffffe
	}
	pl.tx = &rTx{ver: 2, lock: pl.lock}
	n := t.Small(1, maxIn)
	multi := t.P(25)
	if multi {
		n = 1
	}
	for i := 0; i < n; i++ {
		in := &lIn{kind: t.Str("p2pkh", "p2pkh", "nested", "bech32"), amount: t.U64()}
		if multi {
			in.kind = "multi"
			nk := t.Small(1, 4)
			if t.P(25) {
				nk = 1 + t.Intn(15)
			}
			in.m = 1 + t.Intn(nk)
			if in.m > 3 && t.P(70) {
				in.m = 1 + t.Intn(3)
			}
			for j := 0; j < nk; j++ {
				kp := t.kp(cK1)
				in.keys = append(in.keys, kp)
				p := kp.pub
				if nk < 6 && t.P(8) {
					p = cat([]byte{4}, kp.raw)
				}
				in.pubs = append(in.pubs, p)
			}
			in.use = append([]int{}, t.Perm(nk)[:in.m]...)
			for a := range in.use {
				for b := range in.use {
					if in.use[a] < in.use[b] {
						in.use[a], in.use[b] = in.use[b], in.use[a]
					}
				}
			}
			in.redeem = sMulti(in.m, in.pubs)
			in.lock = sP2SH(rH160(sWit(rSha256(in.redeem))))
		} else {
			kp := t.kp(cK1)
			if len(pl.ins) > 0 {
				kp = t.kpIn(cK1, pl.ins[t.Intn(len(pl.ins))].keys)
			}
			h := rH160(kp.pub)
			for (in.kind == "nested" || in.kind == "p2pkh") && n == 1 && t.idx%6 == 0 && h[19] != 0xae && kp.pub[32] != 0xae {
				kp = mkKP(cK1, rSha256(kp.pri)) // a last byte that is also the multi-signature opcode
				h = rH160(kp.pub)
			}
			in.keys, in.use, in.m = []*KP{kp}, []int{0}, 1
			switch in.kind {
			case "p2pkh":
				in.lock = sP2PKH(h)
			case "nested":
				in.redeem = sWit(h)
				in.lock = sP2SH(rH160(in.redeem))
			case "bech32":
				in.lock = sWit(h)
			}
		}
		id, idb := t.txid()
		pl.ins = append(pl.ins, in)
		pl.vins = append(pl.vins, lVin{id, t.U32()})
		pl.tx.ins = append(pl.tx.ins, rIn{txid: idb, vout: pl.vins[i].Vout, seq: seq})
	}
	no := t.Small(1, 5)
	if t.P(4) {
		no = 1 + t.Intn(252)
	}
	for i := 0; i < no; i++ {
		a, s := t.likeAddr()
		pl.vouts = append(pl.vouts, lVout{a, t.U64()})
		pl.tx.outs = append(pl.tx.outs, rOut{pl.vouts[i].Amount, s})
	}
	return pl
}

func (pl *lPlan) unlocks(pri bool) (u []lUnlock) {
	for _, in := range pl.ins {
		x := lUnlock{LockScript: hx(in.lock), RedeemScript: hx(in.redeem), Amount: in.amount}
		if pri {
			x.PrivateKey = in.keys[in.use[0]].pri
		}
		u = append(u, x)
	}
	return
}

func (in *lIn) code() []byte {
	if in.kind == "multi" {
		return in.redeem
	}
	return sP2PKH(rH160(in.keys[0].pub))
}

// signed is the network form with the signatures in in.sigs.
func (pl *lPlan) signed() []byte {
	c := *pl.tx
	c.ins = append([]rIn{}, pl.tx.ins...)
	wit := false
	for i, in := range pl.ins {
		switch in.kind {
		case "p2pkh":
			c.ins[i].script = scriptSig(in.keys[0], in.sigs[0])
			continue
		case "multi":
			c.ins[i].script = sPush(sWit(rSha256(in.redeem)))
			c.ins[i].wit = append(c.ins[i].wit, nil)
			for _, s := range in.sigs {
				c.ins[i].wit = append(c.ins[i].wit, append(rDER(s), 1))
			}
			c.ins[i].wit = append(c.ins[i].wit, in.redeem)
		case "nested":
			c.ins[i].script = sPush(in.redeem)
			c.ins[i].wit = [][]byte{append(rDER(in.sigs[0]), 1), in.keys[0].pub}
		case "bech32":
			c.ins[i].wit = [][]byte{append(rDER(in.sigs[0]), 1), in.keys[0].pub}
		}
		wit = true
	}
	return c.ser(wit)
}

func (t *T) likeCreate(pl *lPlan) (string, error) {
	out := t.Call("btclike.Create", btclike.CreateEmptyRawTransaction, pl.vins, pl.vouts, pl.lock, pl.rbf)
	return str(out, 0), errOf(out)
}

func (t *T) likeVerify(tx string, u []lUnlock) bool {
	return t.Call("btclike.Verify", btclike.VerifyRawTransaction, tx, u)[0].(bool)
}

func likeFlow(t *T) {
	maxIn := 4
	if t.own("C07", "C09") {
		maxIn = 10
		if t.P(2) {
			maxIn = 252
		}
	}
	pl := t.likePlan(maxIn)
	var kinds []string
	for _, in := range pl.ins {
		kinds = append(kinds, in.kind)
	}
	t.Logf("btclike vins=%v kinds=%v vouts=%v lock=%d rbf=%v", pl.vins, kinds, pl.vouts, pl.lock, pl.rbf)
	tx, err := t.likeCreate(pl)
	t.Check(err == nil, "btclike: a faithful request is refused: %v", err)
	t.Fp(tx)
	ref := hx(pl.tx.ser(false))
	t.Check(tx == ref, "btclike: unsigned transaction\ngot  %s\nwant %s", tx, ref)
	if len(kinds) > 4 {
		kinds = kinds[:4]
	}
	t.Shape("%v outputs %d lock %v", kinds, min(len(pl.vouts), 4), pl.lock != 0)
	if t.own("C07") {
		return
	}
	made := true
	if t.P(35) { // a transaction made elsewhere
		made = false
		q := &bPlan{tx: pl.tx, lock: pl.lock}
		tx = t.btcForeign(q)
		pl.lock = q.lock
		t.Fp(tx)
	}
	out := t.Call("btclike.HashForSig", btclike.CreateRawTransactionHashForSig, tx, pl.unlocks(false))
	if errOf(out) != nil && !made {
		t.Shape("a transaction made elsewhere is refused")
		return
	}
	t.Check(errOf(out) == nil, "btclike: digests of %s refused: %v", tx, errOf(out))
	var hs []string
	into(&hs, out[0])
	t.Check(len(hs) == len(pl.ins), "btclike: %d digests for %d inputs", len(hs), len(pl.ins))
	for i, in := range pl.ins {
		if in.kind == "p2pkh" {
			in.digest = pl.tx.legacy(i, in.lock, 1)
		} else {
			in.digest = pl.tx.bip143(i, in.code(), in.amount, 1)
		}
		t.Check(hs[i] == hx(in.digest), "btclike: digest of input %d (%s) is %s, want %x (tx %s lock %x redeem %x amount %d)", i, in.kind, hs[i], in.digest, tx, in.lock, in.redeem, in.amount)
	}
	if t.own("C09") {
		return
	}
	var sps []lSP
	own := t.Bool()
	for i, in := range pl.ins {
		for _, k := range in.use {
			kp := in.keys[k]
			sig := t.extSign(kp, in.digest)
			if own {
				out := t.CallR("btclike.Sign", btclike.SignRawTransactionHash, []string{hs[i]}, []lUnlock{{PrivateKey: t.spare(kp.pri)}})
				t.Check(errOf(out) == nil, "btclike: signing refused: %v", errOf(out))
				var sp []lSP
				into(&sp, out[0])
				t.Check(len(sp) == 1 && bytes.Equal(sp[0].Pubkey, kp.pub), "btclike: signing gives %s for key %x", dumpOf(sp), kp.pub)
				sig = sp[0].Signature
				t.checkSig(kp, in.digest, sig, true, "btclike")
			}
			in.sigs = append(in.sigs, sig)
			sps = append(sps, lSP{t.spare(sig), t.spare(kp.pub)})
		}
	}
	if t.own("C19") {
		u := lUnlock{PrivateKey: pl.ins[0].keys[0].pri}
		h := []string{hs[0]}
		us := []lUnlock{u}
		switch t.Intn(7) {
		case 0:
			us[0].PrivateKey = make([]byte, 32)
		case 1:
			us[0].PrivateKey = cK1.fb(cK1.n)
		case 2:
			us[0].PrivateKey = u.PrivateKey[:31]
		case 3:
			h[0] = h[0][:62]
		case 4:
			h[0] = "zz" + h[0][2:]
		case 5:
			us = append(us, u)
		case 6:
			us[0].PrivateKey = nil
		}
		out := t.CallR("btclike.Sign", btclike.SignRawTransactionHash, h, us)
		t.Check(errOf(out) != nil, "btclike: signing digests %v with keys %s is not refused", h, dumpOf(us))
	}
	out = t.Call("btclike.Insert", btclike.InsertSignatureIntoEmptyTransaction, tx, sps, pl.unlocks(t.Bool()))
	t.Check(errOf(out) == nil, "btclike: inserting matching signatures is refused: %v (%s %s)", errOf(out), tx, dumpOf(sps))
	want := hx(pl.signed())
	t.Check(str(out, 0) == want, "btclike: combined transaction\ngot  %s\nwant %s", str(out, 0), want)
	u := pl.unlocks(false)
	if t.Bool() { // the spending scripts are in the transaction
		for i := range u {
			u[i].RedeemScript = ""
		}
	}
	t.Check(t.likeVerify(want, u), "btclike: verification refuses %s (outputs %s)", want, dumpOf(u))
	if t.own("C11") && t.Bool() && pl.ins[0].m == 1 {
		out := t.CallR("btclike.SignEmpty", btclike.SignEmptyRawTransaction, tx, pl.unlocks(true))
		t.Check(errOf(out) == nil, "btclike: signing the transaction refused: %v", errOf(out))
		t.Check(t.likeVerify(str(out, 0), u), "btclike: signed transaction does not verify: %s", str(out, 0))
		t.likeJudge(pl, str(out, 0))
	}
	switch {
	case t.own("C20"):
		t.likeDecode(pl, tx, want)
	case t.own("C13"):
		t.likeForge(pl, want)
	}
}

// likeJudge reads the signatures of a signed transaction back and compares all else.
func (t *T) likeJudge(pl *lPlan, tx string) {
	out := t.Call("btclike.Decode", btclike.DecodeRawTransaction, unhex(tx))
	t.Check(errOf(out) == nil, "btclike: %s does not decode: %v", tx, errOf(out))
	var d lTx
	into(&d, out[0])
	q := *pl
	q.ins = nil
	for i, in := range pl.ins {
		c := *in
		var sig []byte
		if in.kind == "p2pkh" {
			if s := d.Vins[i].ScriptPubkeySignature; len(s) > 40 && int(s[0]) < len(s) {
				sig = derRS(s[1:s[0]])
			}
		} else if i < len(d.Witness) {
			sig = d.Witness[i].Signature
		}
		t.Check(len(sig) == 64, "btclike: input %d of %s carries no signature", i, tx)
		k := in.keys[in.use[0]]
		t.Check(k.sigOK(in.digest, sig), "btclike: signature %x of input %d of %s does not verify", sig, i, tx)
		c.sigs = [][]byte{sig}
		q.ins = append(q.ins, &c)
	}
	t.Check(tx == hx(q.signed()), "btclike: signed transaction\ngot  %s\nwant %x", tx, q.signed())
}

// derRS reads r|s of a DER signature (without hash type).
func derRS(b []byte) []byte {
	if len(b) < 8 || b[0] != 0x30 || int(b[3])+6 > len(b) {
		return nil
	}
	pad := func(x []byte) []byte {
		for len(x) > 32 {
			x = x[1:]
		}
		return append(make([]byte, 32-len(x)), x...)
	}
	rl := int(b[3])
	return append(pad(b[4:4+rl]), pad(b[6+rl:])...)
}

type lTx struct {
	Version, LockTime []byte
	Vins              []struct{ TxID, Vout, ScriptPubkeySignature, Sequence []byte }
	Vouts             []struct{}
	Witness           []struct{ Signature, Pubkey []byte }
}

func (t *T) likeDecode(pl *lPlan, tx, signed string) {
	for _, s := range []string{tx, signed} {
		raw := t.spare(unhex(s))
		out := t.Call("btclike.Decode", btclike.DecodeRawTransaction, raw)
		t.Check(errOf(out) == nil, "btclike: decoding %s: %v", s, errOf(out))
		t.Check(hx(raw) == s, "btclike: decoding changed the bytes %s to %x", s, raw)
		var d lTx
		into(&d, out[0])
		ok := bytes.Equal(d.Version, le32(2)) && bytes.Equal(d.LockTime, le32(pl.lock)) && len(d.Vins) == len(pl.ins) && len(d.Vouts) == len(pl.vouts)
		for i := 0; ok && i < len(d.Vins); i++ {
			in := d.Vins[i]
			ok = bytes.Equal(in.TxID, pl.tx.ins[i].txid) && bytes.Equal(in.Vout, le32(pl.vins[i].Vout)) && bytes.Equal(in.Sequence, le32(pl.tx.ins[i].seq))
			if ok {
				txid := append([]byte{}, pl.tx.ins[i].txid...)
				got := t.gets("btclike.TxIn", reflect.ValueOf(out[0]).Elem().FieldByName("Vins").Index(i), "GetTxID", "GetVout", "GetScriptPubkey", "GetSequence")
				want := []interface{}{hx(rev(txid)), pl.vins[i].Vout, hx(in.ScriptPubkeySignature), pl.tx.ins[i].seq}
				for j := range want {
					t.Check(got[j] == nil || got[j] == want[j], "btclike: input %d of %s: accessor %d answers %v, want %v", i, s, j, got[j], want[j])
				}
			}
			if !ok || s == tx {
				continue
			}
			q := pl.ins[i]
			switch q.kind {
			case "p2pkh":
				ok = bytes.Equal(in.ScriptPubkeySignature, scriptSig(q.keys[0], q.sigs[0]))
			case "multi":
				ok = len(d.Witness) == q.m
				for j := 0; ok && j < q.m; j++ {
					ok = bytes.Equal(d.Witness[j].Signature, q.sigs[j])
				}
			default:
				ok = i < len(d.Witness) && bytes.Equal(d.Witness[i].Signature, q.sigs[0]) && bytes.Equal(d.Witness[i].Pubkey, q.keys[0].pub)
			}
		}
		t.Check(ok, "btclike: decoding %s yields %s", s, dumpOf(out[0]))
		b := unhex(s)
		if t.Bool() {
			b = b[:t.Intn(len(b))]
		} else {
			b = append(b, t.Raw(1+t.Intn(4))...)
		}
		out = t.Call("btclike.Decode", btclike.DecodeRawTransaction, b)
		t.Check(errOf(out) != nil, "btclike: %x with missing or surplus bytes decodes (original %s)", b, s)
	}
}

func (t *T) likeForge(pl *lPlan, signed string) {
	for n := 0; n < 4; n++ {
		u := pl.unlocks(false)
		i := t.Intn(len(pl.ins))
		q := *pl
		q.ins = nil
		for _, in := range pl.ins {
			c := *in
			c.sigs = append([][]byte{}, in.sigs...)
			c.keys = append([]*KP{}, in.keys...)
			q.ins = append(q.ins, &c)
		}
		in := q.ins[i]
		j := t.Intn(len(in.sigs))
		f := t.foreign(in.keys[t.Intn(len(in.keys))])
		alt := ""
		what := ""
		switch t.Intn(10) {
		case 0, 1, 2:
			what = "a changed byte"
			raw := unhex(signed)
			m := t.Mutate(raw)
			if len(m) == 0 || bytes.Equal(m, raw) {
				continue
			}
			alt = hx(m)
		case 3:
			what = "another amount being spent"
			if in.kind == "p2pkh" {
				continue
			}
			u[i].Amount ^= 1 << t.Intn(64)
		case 4:
			what = "another output being spent"
			h := t.B(20)
			u[i].LockScript = []string{hx(sP2PKH(h)), hx(sP2SH(h)), hx(sWit(h)), hx(t.Mutate(in.lock)), ""}[t.Intn(5)]
			if u[i].LockScript == hx(in.lock) {
				continue
			}
		case 5:
			what = "a signature by a foreign key with its public key"
			in.sigs[j] = t.extSign(f, in.digest)
			if in.kind != "multi" {
				in.keys[0] = f
			}
		case 6:
			what = "a signature over another digest"
			in.sigs[j] = t.extSign(in.keys[in.use[j]], t.B(32))
		case 7:
			what = "signatures missing, repeated or in the wrong order"
			if in.kind != "multi" {
				u = append(u, u[0])
				if t.Bool() {
					u = u[:len(u)-2]
				}
				break
			}
			switch t.Intn(3) {
			case 0:
				in.sigs = in.sigs[:len(in.sigs)-1]
			case 1:
				in.sigs = append(in.sigs, in.sigs[j])
			case 2:
				if len(in.sigs) < 2 {
					continue
				}
				if t.Bool() {
					in.sigs[0] = in.sigs[1]
				} else {
					in.sigs[0], in.sigs[1] = in.sigs[1], in.sigs[0]
				}
				if in.keys[in.use[0]].d.Cmp(in.keys[in.use[1]].d) == 0 {
					continue
				}
			}
		case 8:
			what = "a spending script that is not the spent one's"
			switch in.kind {
			case "nested":
				in.redeem = sWit(rH160(f.pub))
				in.keys[0] = f
				in.sigs[0] = t.extSign(f, pl.tx.bip143(i, sP2PKH(rH160(f.pub)), in.amount, 1))
			case "multi":
				in.redeem = sMulti(1, [][]byte{f.pub})
				in.sigs = [][]byte{t.extSign(f, pl.tx.bip143(i, in.redeem, in.amount, 1))}
			default:
				continue
			}
		case 9:
			if len(q.ins) < 2 {
				continue
			}
			what = "signatures of two inputs swapped"
			o := q.ins[(i+1)%len(q.ins)]
			in.sigs, o.sigs = o.sigs, in.sigs
		}
		if alt == "" {
			alt = hx(q.signed())
		}
		t.Shape("forged: %s", what)
		t.ev["forgeries presented"]++
		t.Check(!t.likeVerify(alt, u), "btclike: verification accepts %s (input %d %s)\ntx       %s\noriginal %s\noutputs  %s", what, i, in.kind, alt, signed, dumpOf(u))
	}
}

func likeRefuse(t *T) {
	pl := t.likePlan(3)
	i, o := t.Intn(len(pl.vins)), t.Intn(len(pl.vouts))
	what := ""
	switch t.Intn(9) {
	case 0:
		what = "txid of a wrong length"
		pl.vins[i].TxID = hx(t.B([]int{0, 1, 16, 31, 33, 64}[t.Intn(6)]))
	case 1:
		what = "txid that is no hex"
		b := []byte(pl.vins[i].TxID)
		b[t.Intn(64)] = "xyzg -"[t.Intn(6)]
		pl.vins[i].TxID = string(b)
	case 2:
		what = "no inputs"
		pl.vins = nil
	case 3:
		what = "no outputs"
		pl.vouts = nil
	case 4:
		what = "253 or more inputs"
		for n := 253 + t.Intn(300); len(pl.vins) < n; {
			pl.vins, pl.tx.ins = append(pl.vins, pl.vins[0]), append(pl.tx.ins, pl.tx.ins[0])
		}
	case 5:
		what = "253 or more outputs"
		for n := 253 + t.Intn(300); len(pl.vouts) < n; {
			pl.vouts, pl.tx.outs = append(pl.vouts, pl.vouts[0]), append(pl.tx.outs, pl.tx.outs[0])
		}
	case 6:
		what = "a damaged address"
		m := t.MutateText(pl.vouts[o].Address)
		if strings.EqualFold(m, pl.vouts[o].Address) {
			t.trivial = true
			return
		}
		pl.vouts[o].Address = m
	case 7:
		what = "an address of another network"
		pl.vouts[o].Address = rB58Check([]byte{[]byte{0, 5, 0x6e, 0x70, 0xc3, 0xc5, 0x30}[t.Intn(7)]}, t.B(20))
		if t.Bool() {
			pl.vouts[o].Address = rSegwit(t.Str("bc", "ltc", "tltc", "bcrt", "tbx", "t"), 0, t.B(20))
		}
	case 8:
		what = "a payload of a wrong length or version"
		n := t.Intn(40)
		if n == 20 || n == 32 {
			n++
		}
		pl.vouts[o].Address = rB58Check([]byte{0x6f}, t.B(n))
		switch t.Intn(3) {
		case 0:
			pl.vouts[o].Address = rSegwit("tb", byte(1+t.Intn(16)), t.B([]int{20, 32}[t.Intn(2)]))
		case 1:
			pl.vouts[o].Address = rSegwit("tb", 0, t.B(n))
		}
	}
	t.Shape("%s", what)
	t.Fp(what, dumpOf(pl.vins), dumpOf(pl.vouts))
	tx, err := t.likeCreate(pl)
	if err == nil && strings.HasPrefix(what, "253") && tx == hx(pl.tx.ser(false)) {
		return
	}
	t.Check(err != nil && tx == "", "btclike: a request with %s is not refused: %s (vins %s vouts %s)", what, tx, clip(dumpOf(pl.vins), 600), clip(dumpOf(pl.vouts), 600))
}

func init() {
	regFlow("btclike", "btcLikeTxDriver", map[string]int{"C07": 1500, "C09": 600, "C11": 240, "C13": 300, "C19": 120, "C20": 400}, likeFlow)
	reg(&Suite{Prop: "C07", Name: "btclike-refuse", Pkg: "btcLikeTxDriver", Quick: 1500, Run: likeRefuse})
	k := &btcPkg{name: "btclike", multi: btclike.CreateMultiSig, nested: true, pfx: []btcPfx{{name: "test", script: []byte{0xc4}}}}
	reg(&Suite{Prop: "C15", Name: "btclike", Pkg: "btcLikeTxDriver", Quick: 8000, Run: btcMulti(k)})
}
