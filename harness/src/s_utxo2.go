//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"reflect"
	"strings"
	"time"

	elastos "github.com/blocktree/go-owcdrivers/elastosTransaction"
	fiii "github.com/blocktree/go-owcdrivers/fiiiTransaction"
	mv "github.com/blocktree/go-owcdrivers/mateverseTransaction"
)

// ---------------------------------------------------------------- fiii

type fVin struct {
	TxID string
	Vout int
}
type fVout struct {
	AddressPrefix []byte
	Address       string
	Amount        int64
}
type fSP struct{ Signature, Pubkey []byte }

type fIn struct {
	OutputTransactionHash string
	OutputIndex           int64
	Size                  int64
	UnlockScript          string
}
type fOut struct {
	Index, Amount, Size int64
	LockScript          string
}
type fTx struct {
	Version                          int64
	Hash                             string
	Timestamp, Locktime, ExpiredTime int64
	InputCount, OutputCount          int64
	Inputs                           []fIn
	Outputs                          []fOut
	Size                             int64
}

func (x *fTx) text() string {
	b, _ := json.Marshal(x)
	return string(b)
}

// readFiii reads the whole text, with no field missing, unknown or repeated.
func readFiii(s string) (*fTx, bool) {
	d := json.NewDecoder(strings.NewReader(s))
	d.DisallowUnknownFields()
	x := &fTx{}
	if d.Decode(x) != nil || d.More() {
		return nil, false
	}
	var m map[string]json.RawMessage
	json.Unmarshal([]byte(s), &m)
	return x, len(m) == 10
}

func (x *fTx) finish() {
	b := cat(be64(uint64(x.Timestamp)), be64(uint64(x.Locktime)), be64(uint64(x.ExpiredTime)), be32(uint32(len(x.Inputs))))
	for _, in := range x.Inputs {
		b = append(b, cat(unhex(in.OutputTransactionHash), be32(uint32(in.OutputIndex)), be32(uint32(in.Size)), []byte(in.UnlockScript))...)
	}
	b = append(b, be32(uint32(len(x.Outputs)))...)
	for _, o := range x.Outputs {
		b = append(b, cat(be32(uint32(o.Index)), be64(uint64(o.Amount)), be32(uint32(o.Size)), []byte(o.LockScript))...)
	}
	x.Hash = strings.ToUpper(hx(rSha256(b)))
	x.Size = int64(len(b) + 36)
}

func (t *T) fiiiPlan(maxIn int) ([]fVin, []fVout, *fTx, []*aKey) {
	var vins []fVin
	var vouts []fVout
	x := &fTx{Version: int64(int32(t.U32())), Locktime: int64(t.U64()), ExpiredTime: int64(t.U64())}
	if t.Bool() {
		x.Version, x.Locktime, x.ExpiredTime = 1, 0, 0
	}
	var keys []*aKey
	n := t.Small(1, maxIn)
	for i := 0; i < n; i++ {
		id, _ := t.txid()
		if t.Bool() {
			id = strings.ToUpper(id)
		}
		v := int(t.U32())
		vins = append(vins, fVin{id, v})
		x.Inputs = append(x.Inputs, fIn{OutputTransactionHash: id, OutputIndex: int64(v)})
		if i > 0 && i < 8 && t.P(15) { // one owner
			keys = append(keys, keys[i-1])
		} else if i < 8 {
			keys = append(keys, t.acKey("ed"))
		}
	}
	for i, n := 0, t.Small(1, 6); i < n; i++ {
		pre := []byte{0x40, 0xe7, 0xe9, 0x15}
		if t.P(40) {
			pre = t.B(4)
		}
		h := t.B(20)
		a := int64(t.U64In(1, 1<<63-1))
		vouts = append(vouts, fVout{t.spare(pre), rB58Check(pre, h), a})
		ls := "OP_DUP OP_HASH160 " + strings.ToUpper(hx(h)) + " OP_EQUALVERIFY OP_CHECKSIG"
		x.Outputs = append(x.Outputs, fOut{int64(i), a, int64(len(ls)), ls})
	}
	x.InputCount, x.OutputCount = int64(len(vins)), int64(len(vouts))
	return vins, vouts, x, keys
}

func (t *T) fiiiCreate(vins []fVin, vouts []fVout, x *fTx) (string, []string, error) {
	a := time.Now().UnixMilli()
	out := t.CallR("fiii.Create", fiii.CreateEmptyTransactionAndMessage, vins, vouts, int(x.Version), x.Locktime, x.ExpiredTime)
	b := time.Now().UnixMilli()
	var m []string
	into(&m, out[1])
	if errOf(out) == nil {
		g, ok := readFiii(str(out, 0))
		t.Check(ok, "fiii: unsigned transaction is not readable: %s", str(out, 0))
		t.Check(g.Timestamp >= a-5 && g.Timestamp <= b+5, "fiii: time stamp %d is not the current time %d..%d", g.Timestamp, a, b)
		x.Timestamp = g.Timestamp
	}
	return str(out, 0), m, errOf(out)
}

func (t *T) fiiiCombine(tx string, sp []fSP) (bool, string) {
	out := t.Call("fiii.VerifyAndCombine", fiii.VerifyAndCombineTransaction, tx, sp)
	ok := out[0].(bool) && errOf(out) == nil
	if !ok {
		t.Check(!out[0].(bool) && str(out, 1) == "", "fiii: a refused transaction is handed out: %v %s", out[0], str(out, 1))
	}
	return ok, str(out, 1)
}

func fiiiFlow(t *T) {
	maxIn := 4
	if t.own("C07", "C09") {
		maxIn = 12
		if t.P(3) {
			maxIn = 400
		}
	}
	vins, vouts, x, keys := t.fiiiPlan(maxIn)
	t.Logf("fiii vins=%v vouts=%v version=%d lock=%d expired=%d", vins, vouts, x.Version, x.Locktime, x.ExpiredTime)
	tx, msgs, err := t.fiiiCreate(vins, vouts, x)
	t.Check(err == nil, "fiii: a faithful request is refused: %v", err)
	t.Fp(tx)
	got, _ := readFiii(tx)
	t.Check(reflect.DeepEqual(got, x), "fiii: unsigned transaction differs from the request\ngot  %s\nwant %s", tx, x.text())
	t.Shape("inputs %d outputs %d lock %v", min(len(vins), 4), min(len(vouts), 4), x.Locktime != 0)
	if t.own("C07") {
		return
	}
	t.Check(len(msgs) == len(vins), "fiii: %d messages for %d inputs", len(msgs), len(vins))
	var dig [][]byte
	for i, in := range vins {
		d := cat(unhex(in.TxID), be32(uint32(in.Vout)))
		dig = append(dig, d)
		t.Check(strings.EqualFold(msgs[i], hx(d)), "fiii: message of input %d is %s, want %x", i, msgs[i], d)
	}
	if t.own("C09") {
		return
	}
	var sigs [][]byte
	for i := range vins {
		out := t.CallR("fiii.Sign", fiii.SignTransactionMessage, msgs[i], t.spare(keys[i].pri))
		t.Check(errOf(out) == nil, "fiii: signing %s refused: %v", msgs[i], errOf(out))
		sig := out[0].([]byte)
		t.Check(len(sig) == 64 && edVerify(keys[i].pub, dig[i], sig), "fiii: signature %x does not verify over %x under %x (private %x)", sig, dig[i], keys[i].pub, keys[i].pri)
		sigs = append(sigs, sig)
	}
	if t.own("C19") {
		key, msg := keys[0].pri, msgs[0]
		switch t.Intn(4) {
		case 0:
			key = key[:t.Intn(32)]
		case 1:
			key = cat(key, t.Raw(1+t.Intn(33)))
		case 2:
			msg = "zz" + msg[2:]
		case 3:
			msg = ""
		}
		out := t.CallR("fiii.Sign", fiii.SignTransactionMessage, msg, key)
		t.Check(errOf(out) != nil, "fiii: signing message %q with key %x is not refused", msg, key)
	}
	sps := func() (sp []fSP) {
		for i := range sigs {
			sp = append(sp, fSP{t.spare(sigs[i]), t.spare(keys[i].pub)})
		}
		return
	}
	ok, signed := t.fiiiCombine(tx, sps())
	t.Check(ok, "fiii: combining matching signatures is refused: %s sigs %x", tx, sigs)
	want := *x
	want.Inputs = append([]fIn{}, x.Inputs...)
	for i := range want.Inputs {
		want.Inputs[i].UnlockScript = strings.ToUpper(hx(sigs[i])) + "[ALL] 302A300506032B6570032100" + strings.ToUpper(hx(keys[i].pub))
		want.Inputs[i].Size = int64(len(want.Inputs[i].UnlockScript))
	}
	want.finish()
	g, readable := readFiii(signed)
	t.Check(readable && reflect.DeepEqual(*g, want), "fiii: combined transaction\ngot  %s\nwant %s", signed, want.text())
	if t.own("C20") { // a text with missing or surplus items
		b := *x
		b.Inputs = append([]fIn{}, x.Inputs...)
		sp := sps()
		switch t.Intn(5) {
		case 0:
			b.InputCount += int64(1 - 2*t.Intn(2))
		case 1:
			b.OutputCount += int64(1 - 2*t.Intn(2))
		case 2:
			b.Outputs = append(append([]fOut{}, x.Outputs...), x.Outputs[0])
		case 3:
			b.Inputs = append(b.Inputs, b.Inputs[0])
			sp = append(sp, sp[0])
		case 4:
			i := t.Intn(len(b.Inputs))
			h := b.Inputs[i].OutputTransactionHash
			b.Inputs[i].OutputTransactionHash = []string{h[2:], h + "00", h[1:], ""}[t.Intn(4)]
		}
		ok, s := t.fiiiCombine(b.text(), sp)
		t.Check(!ok, "fiii: a text with missing or surplus items is accepted: %s -> %s (original %s)", b.text(), s, x.text())
	}
	if t.own("C13") {
		for n := 0; n < 3; n++ {
			sp := sps()
			b := *x
			b.Inputs = append([]fIn{}, x.Inputs...)
			i := t.Intn(len(sp))
			f := t.acKey("ed")
			what := ""
			switch t.Intn(8) {
			case 0:
				what = "another spent transaction"
				b.Inputs[i].OutputTransactionHash = hx(t.flip(unhex(b.Inputs[i].OutputTransactionHash)))
			case 1:
				what = "another spent index"
				d := int64(1) << t.Intn(32)
				b.Inputs[i].OutputIndex ^= d
			case 2:
				what = "an index beyond the field"
				b.Inputs[i].OutputIndex += []int64{1 << 32, -1 << 32, 1 << 40}[t.Intn(3)]
			case 3:
				what = "a signature over another message"
				o := t.CallR("fiii.Sign", fiii.SignTransactionMessage, hx(t.flip(dig[i])), keys[i].pri)
				sp[i].Signature = o[0].([]byte)
			case 4:
				what = "a changed signature byte"
				sp[i].Signature = t.flip(sp[i].Signature)
			case 5:
				what = "another public key"
				sp[i].Pubkey = f.pub
			case 6:
				what = "missing or surplus signatures"
				if t.Bool() {
					sp = append(sp, sp[i])
				} else {
					sp = sp[:len(sp)-1]
				}
			case 7:
				if len(sp) < 2 || bytes.Equal(dig[0], dig[len(dig)-1]) {
					continue
				}
				what = "swapped signatures"
				i, j := 0, len(sp)-1
				sp[i], sp[j] = sp[j], sp[i]
			}
			t.Shape("forged: %s", what)
			t.ev["forgeries presented"]++
			ok, got := t.fiiiCombine(b.text(), sp)
			t.Check(!ok, "fiii: verification accepts %s\ntx       %s\noriginal %s\nsignatures %s\ncombined %s", what, b.text(), tx, dumpOf(sp), got)
		}
	}
}

// flip changes one or two bits.
func (t *T) flip(b []byte) []byte {
	c := append([]byte{}, b...)
	i := t.Intn(len(c))
	c[i] ^= 1 << t.Intn(8)
	if t.P(20) {
		c[(i+1)%len(c)] ^= byte(1 + t.Intn(255))
	}
	return c
}

func fiiiRefuse(t *T) {
	vins, vouts, x, _ := t.fiiiPlan(4)
	i, o := t.Intn(len(vins)), t.Intn(len(vouts))
	what := ""
	switch t.Intn(8) {
	case 0:
		what = "txid of a wrong length"
		vins[i].TxID = hx(t.B([]int{0, 1, 16, 31, 33, 64}[t.Intn(6)]))
	case 1:
		what = "txid that is no hex"
		b := []byte(vins[i].TxID)
		b[t.Intn(64)] = "xyzg -"[t.Intn(6)]
		vins[i].TxID = string(b)
	case 2:
		what = "no inputs"
		vins = nil
	case 3:
		what = "no outputs"
		vouts = nil
	case 4:
		what = "an index the field cannot hold"
		vins[i].Vout = []int{-1, -1 << 31, -1 << 32, 1 << 32, 1<<32 + 7, 1 << 62}[t.Intn(6)]
	case 5:
		what = "an amount that is not positive"
		vouts[o].Amount = []int64{0, -1, -1 << 63}[t.Intn(3)]
	case 6:
		what = "a damaged address"
		m := t.MutateText(vouts[o].Address)
		if m == vouts[o].Address {
			t.trivial = true
			return
		}
		vouts[o].Address = m
	case 7:
		what = "an address of another network or length"
		if t.Bool() {
			vouts[o].AddressPrefix = t.flip(vouts[o].AddressPrefix)
		} else {
			vouts[o].Address = rB58Check(vouts[o].AddressPrefix, t.B([]int{0, 1, 19, 21, 24, 32}[t.Intn(6)]))
		}
	}
	t.Shape("%s", what)
	t.Fp(what, dumpOf(vins), dumpOf(vouts))
	tx, m, err := t.fiiiCreate(vins, vouts, x)
	t.Check(err != nil && tx == "" && m == nil, "fiii: a request with %s is not refused: %s (vins %s vouts %s)", what, tx, dumpOf(vins), dumpOf(vouts))
}

// ---------------------------------------------------------------- elastos

type eVin struct {
	TxID    string
	Vout    uint16
	Address string
}
type eVout struct {
	AssetID string
	Amount  uint64
	Address string
}
type ePlan struct {
	vins  []eVin
	vouts []eVout
	keys  []*KP // one per distinct address, in order
	addrs []string
	raw   []byte
}

func elaAddr(pub []byte) string {
	return rB58Check([]byte{0x21}, rH160(cat([]byte{0x21}, pub, []byte{0xac})))
}

func (t *T) elaPlan(max int) *ePlan {
	pl := &ePlan{}
	n := t.Small(1, max)
	b := cat([]byte{2, 0, 0}, vint(n))
	for i := 0; i < n; i++ {
		id, idb := t.txid()
		if len(pl.keys) == 0 || (len(pl.keys) < 5 && t.P(50)) {
			kp := t.kp(cR1)
			for elaIn(pl.addrs, elaAddr(kp.pub)) {
				kp = mkKP(cR1, rSha256(kp.pri))
			}
			pl.keys = append(pl.keys, kp)
			pl.addrs = append(pl.addrs, elaAddr(kp.pub))
		}
		a := pl.addrs[len(pl.addrs)-1]
		if t.P(30) {
			a = pl.addrs[t.Intn(len(pl.addrs))]
		}
		pl.vins = append(pl.vins, eVin{id, uint16(t.U32()), a})
		b = append(b, cat(idb, le16(pl.vins[i].Vout), le32(0xffffffff))...)
	}
	var order []string
	for _, v := range pl.vins {
		if !elaIn(order, v.Address) {
			order = append(order, v.Address)
		}
	}
	var ks []*KP
	for _, a := range order {
		for i := range pl.addrs {
			if pl.addrs[i] == a {
				ks = append(ks, pl.keys[i])
			}
		}
	}
	pl.keys, pl.addrs = ks, order
	no := t.Small(1, 5)
	if t.P(4) {
		no = 1 + t.Intn(400)
	}
	b = append(b, vint(no)...)
	for i := 0; i < no; i++ {
		as, asb := elastos.AssetID_ELA, rev(unhex("a3d0eaa466df74983b5d7c543de6904f4c9418ead5ffd6d25814234a96db37b0"))
		if t.P(40) {
			as, asb = t.txid()
		}
		h := t.B(20)
		pl.vouts = append(pl.vouts, eVout{as, t.U64(), rB58Check([]byte{0x21}, h)})
		b = append(b, cat(asb, le64(pl.vouts[i].Amount), le32(0), []byte{0x21}, h)...)
	}
	pl.raw = append(b, le32(0)...)
	return pl
}

func elaIn(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func (t *T) elaCreate(pl *ePlan) (string, []elastos.TxHash, error) {
	out := t.Call("elastos.Create", elastos.CreateEmptyRawTransactionAndHash, pl.vins, pl.vouts)
	var h []elastos.TxHash
	into(&h, out[1])
	return str(out, 0), h, errOf(out)
}

func (t *T) elaCombine(tx string, sp []aSP) (bool, string) {
	out := t.Call("elastos.VerifyAndCombine", elastos.VerifyAndCombineRawTransaction, tx, sp)
	if !out[0].(bool) {
		t.Check(str(out, 1) == "", "elastos: a refused transaction is handed out: %s", str(out, 1))
	}
	return out[0].(bool), str(out, 1)
}

func elaFlow(t *T) {
	max := 5
	if t.own("C07", "C09") && t.P(5) {
		max = 400
	}
	pl := t.elaPlan(max)
	t.Logf("elastos vins=%v vouts=%v", pl.vins, pl.vouts)
	tx, hashes, err := t.elaCreate(pl)
	t.Check(err == nil, "elastos: a faithful request is refused: %v", err)
	t.Fp(tx)
	t.Check(tx == hx(pl.raw), "elastos: unsigned transaction\ngot  %s\nwant %x", tx, pl.raw)
	t.Shape("inputs %d outputs %d signers %d", min(len(pl.vins), 4), min(len(pl.vouts), 4), len(pl.keys))
	if t.own("C07") {
		return
	}
	dig := rSha256(pl.raw)
	t.Check(len(hashes) == len(pl.addrs), "elastos: %d digests for %d signers", len(hashes), len(pl.addrs))
	for i, h := range hashes {
		t.Check(h.Address == pl.addrs[i] && h.Hash == hx(dig), "elastos: digest %d is %v, want %s %x", i, h, pl.addrs[i], dig)
	}
	if t.own("C09") {
		return
	}
	made := true
	if t.P(35) { // made elsewhere: sequence numbers, output locks and lock time of its own
		made = false
		pos := 3 + len(vint(len(pl.vins)))
		for i := range pl.vins {
			copy(pl.raw[pos+34:], le32(t.U32()))
			pos += 38
			_ = i
		}
		pos += len(vint(len(pl.vouts)))
		for range pl.vouts {
			if t.Bool() {
				copy(pl.raw[pos+40:], le32(t.U32()))
			}
			pos += 65
		}
		copy(pl.raw[pos:], le32(t.U32()))
		t.Shape("made elsewhere")
		tx, dig = hx(pl.raw), rSha256(pl.raw)
	}
	var sigs [][]byte
	for _, kp := range pl.keys {
		if t.P(60) {
			out := t.CallR("elastos.Sign", elastos.SignRawTransaction, hx(dig), t.spare(kp.pri))
			t.Check(errOf(out) == nil, "elastos: signing refused: %v", errOf(out))
			sig := out[0].([]byte)
			t.checkSig(kp, dig, sig, false, "elastos")
			sigs = append(sigs, sig)
		} else {
			sigs = append(sigs, t.extSign(kp, dig))
		}
	}
	if t.own("C19") {
		key, hash := pl.keys[0].pri, hx(dig)
		switch t.Intn(5) {
		case 0:
			key = make([]byte, 32)
		case 1:
			key = cR1.fb(cR1.n)
		case 2:
			key = key[:31]
		case 3:
			hash = hash[:62]
		case 4:
			hash = "zz" + hash[2:]
		}
		out := t.CallR("elastos.Sign", elastos.SignRawTransaction, hash, key)
		t.Check(errOf(out) != nil, "elastos: signing digest %s with key %x is not refused", hash, key)
	}
	sps := func() (sp []aSP) {
		for i, kp := range pl.keys {
			sp = append(sp, aSP{nil, t.spare(kp.pub), t.spare(sigs[i])})
		}
		return
	}
	ok, signed := t.elaCombine(tx, sps())
	if !ok && !made {
		t.Shape("a transaction made elsewhere is refused")
		return
	}
	t.Check(ok, "elastos: combining matching signatures is refused: %s sigs %x", tx, sigs)
	ref := append(append([]byte{}, pl.raw...), vint(len(sigs))...)
	for i, kp := range pl.keys {
		ref = append(ref, cat([]byte{0x41, 0x40}, sigs[i], []byte{0x23, 0x21}, kp.pub, []byte{0xac})...)
	}
	t.Check(signed == hx(ref), "elastos: combined transaction\ngot  %s\nwant %x", signed, ref)
	if !t.own("C13") {
		return
	}
	for n := 0; n < 4; n++ {
		sp := sps()
		i := t.Intn(len(sp))
		alt := append([]byte{}, pl.raw...)
		what := ""
		switch t.Intn(7) {
		case 0, 1:
			what = "a changed transaction"
			if alt = t.Mutate(alt); bytes.Equal(alt, pl.raw) {
				continue
			}
		case 2:
			what = "a signature over another digest"
			sp[i].Signature = t.extSign(pl.keys[i], t.B(32))
		case 3:
			what = "a changed signature byte"
			sp[i].Signature = t.flip(sp[i].Signature)
		case 4:
			what = "another public key"
			sp[i].PublicKey = t.kp(cR1).pub
			if t.Bool() {
				sp[i].PublicKey = t.Mutate(pl.keys[i].pub)
			}
			if bytes.Equal(sp[i].PublicKey, pl.keys[i].pub) {
				continue
			}
		case 5:
			what = "no signatures"
			sp = nil
		case 6:
			what = "a repeated signature"
			sp = append(sp, sp[i])
		}
		t.Shape("forged: %s", what)
		t.ev["forgeries presented"]++
		ok, got := t.elaCombine(hx(alt), sp)
		t.Check(!ok, "elastos: verification accepts %s\ntx       %x\noriginal %x\nsignatures %s\ncombined %s", what, alt, pl.raw, dumpOf(sp), got)
	}
}

func elaRefuse(t *T) {
	pl := t.elaPlan(4)
	i, o := t.Intn(len(pl.vins)), t.Intn(len(pl.vouts))
	what := ""
	switch t.Intn(7) {
	case 0:
		what = "an identifier of a wrong length"
		bad := hx(t.B([]int{0, 1, 16, 31, 33, 64}[t.Intn(6)]))
		if t.Bool() {
			pl.vins[i].TxID = bad
		} else {
			pl.vouts[o].AssetID = bad
		}
	case 1:
		what = "an identifier that is no hex"
		b := []byte(pl.vins[i].TxID)
		b[t.Intn(64)] = "xyzg -"[t.Intn(6)]
		if t.Bool() {
			pl.vins[i].TxID = string(b)
		} else {
			pl.vouts[o].AssetID = string(b)
		}
	case 2:
		what = "no inputs"
		pl.vins = nil
	case 3:
		what = "no outputs"
		pl.vouts = nil
	case 4:
		what = "a damaged address"
		m := t.MutateText(pl.vouts[o].Address)
		if m == pl.vouts[o].Address {
			t.trivial = true
			return
		}
		pl.vouts[o].Address = m
	case 5:
		what = "an address of another network"
		pl.vouts[o].Address = rB58Check([]byte{[]byte{0, 5, 0x20, 0x22, 0x12, 0x4b, 0xa1}[t.Intn(7)]}, t.B(20))
	case 6:
		what = "an address of another length"
		pl.vouts[o].Address = rB58Check([]byte{0x21}, t.B([]int{0, 1, 19, 21, 24, 32}[t.Intn(6)]))
	}
	t.Shape("%s", what)
	t.Fp(what, dumpOf(pl.vins), dumpOf(pl.vouts))
	tx, h, err := t.elaCreate(pl)
	t.Check(err != nil && tx == "" && h == nil, "elastos: a request with %s is not refused: %s (vins %s vouts %s)", what, tx, clip(dumpOf(pl.vins), 600), clip(dumpOf(pl.vouts), 600))
}

// ---------------------------------------------------------------- mateverse

// The driver's inputs are opaque objects that its calls fill in; these two
// make, fill and use fresh ones.
func mvHashes(tx, from string, locks []string) ([]string, []string, error) {
	ins, err := mv.GetInputsFromEmptyRawTransaction(from)
	if err != nil {
		return nil, nil, err
	}
	var ids []string
	for i, in := range ins {
		ids = append(ids, in.GetTxID()+hx(be32(in.GetVout())))
		if i < len(locks) {
			in.SetLockScript(locks[i])
		}
	}
	if err := mv.GetSigHash(tx, &ins); err != nil {
		return ids, nil, err
	}
	var h []string
	for _, in := range ins {
		h = append(h, in.GetHash())
	}
	return ids, h, nil
}

type mvSP struct{ Lock, Sig, Pub string }

// mvCombine presents the inputs of from, with scripts, signatures and keys, as those of tx.
func mvCombine(tx, from string, locks []string, hash bool, sp []mvSP) (bool, string) {
	ins, err := mv.GetInputsFromEmptyRawTransaction(from)
	if err != nil {
		return false, ""
	}
	for i, in := range ins {
		if i < len(locks) {
			in.SetLockScript(locks[i])
		}
	}
	if hash {
		mv.GetSigHash(from, &ins)
	}
	for i := range sp {
		if i < len(ins) {
			ins[i].SetSignature(sp[i].Sig)
			ins[i].SetPubKey(sp[i].Pub)
			if sp[i].Lock != "" {
				ins[i].SetLockScript(sp[i].Lock)
			}
		}
	}
	if len(sp) < len(ins) {
		ins = ins[:len(sp)]
	}
	for len(sp) > len(ins) && len(ins) > 0 {
		ins = append(ins, ins[0])
	}
	return mv.VerifyAndCombineTransaction(tx, ins)
}

type mPlan struct {
	keys  []*KP
	txids [][]byte
	vouts []uint32
	seqs  []uint32
	locks []string
	scr   [][]byte
	rest  []byte
}

func (pl *mPlan) ser(scripts func(i int) []byte) []byte {
	b := cat(le32(4), vint(len(pl.txids)))
	for i := range pl.txids {
		b = append(b, cat(pl.txids[i], le32(pl.vouts[i]), vbytes(scripts(i)), le32(pl.seqs[i]))...)
	}
	return append(b, pl.rest...)
}

func (pl *mPlan) empty() []byte { return pl.ser(func(int) []byte { return nil }) }

func (pl *mPlan) digest(i int) []byte {
	return rDsha(append(pl.ser(func(j int) []byte {
		if j == i {
			return pl.scr[i]
		}
		return nil
	}), le32(1)...))
}

func (t *T) mvLock(h []byte) (string, []byte) {
	s := sP2PKH(h)
	switch t.Intn(4) {
	case 0:
		return hx(s), s
	case 1:
		n := t.Small(1, 120)
		if t.P(20) {
			n = 200 + t.Intn(120)
		}
		a, b := t.Raw(n), t.Raw(1+t.Intn(75))
		return "[ " + hx(a) + " ] [ " + hx(b) + " ] checkattenuationverify dup hash160 [ " + hx(h) + " ] equalverify checksig",
			cat([]byte{0x4d}, le16(uint16(n)), a, []byte{byte(len(b))}, b, []byte{0xb2}, s)
	}
	return "dup hash160 [ " + hx(h) + " ] equalverify checksig", s
}

func (t *T) mvPlan(max int) *mPlan {
	pl := &mPlan{}
	n := t.Small(1, max)
	for i := 0; i < n; i++ {
		_, id := t.txid()
		pl.txids = append(pl.txids, id)
		pl.vouts = append(pl.vouts, t.U32())
		sq := uint32(0xffffffff)
		if t.P(40) {
			sq = t.U32()
		}
		pl.seqs = append(pl.seqs, sq)
		kp := t.kpIn(cK1, pl.keys)
		l, s := t.mvLock(rH160(kp.pub))
		pl.keys = append(pl.keys, kp)
		pl.locks = append(pl.locks, l)
		pl.scr = append(pl.scr, s)
	}
	no := t.Small(1, 5)
	pl.rest = vint(no)
	for i := 0; i < no; i++ {
		pl.rest = append(pl.rest, cat(le64(t.U64()), vbytes(sP2PKH(t.B(20))), le32(1), le32(0))...)
	}
	pl.rest = append(pl.rest, le32(0)...)
	if t.P(10) {
		pl.rest = t.Raw(1 + t.Intn(60))
	}
	return pl
}

func (t *T) mvFrom(tx, from string, locks []string, hash bool, sp []mvSP) (bool, string) {
	out := t.Call("mateverse.VerifyAndCombine", mvCombine, tx, from, locks, hash, sp)
	if !out[0].(bool) {
		t.Check(str(out, 1) == "", "mateverse: a refused transaction is handed out: %s", str(out, 1))
	}
	return out[0].(bool), str(out, 1)
}

func mvFlow(t *T) {
	max := 4
	if t.own("C09", "C20") {
		max = 10
		if t.P(4) {
			max = 300
		}
	}
	pl := t.mvPlan(max)
	tx := hx(pl.empty())
	t.Logf("mateverse %s locks %q", tx, pl.locks)
	t.Fp(tx)
	out := t.Call("mateverse.GetSigHash", mvHashes, tx, tx, pl.locks)
	t.Check(errOf(out) == nil, "mateverse: %s with scripts %q is refused: %v", tx, pl.locks, errOf(out))
	var ids, hs []string
	into(&ids, out[0])
	into(&hs, out[1])
	t.Check(len(ids) == len(pl.txids), "mateverse: %d inputs read from %s", len(ids), tx)
	for i := range ids {
		w := hx(rev(pl.txids[i])) + hx(be32(pl.vouts[i]))
		t.Check(ids[i] == w, "mateverse: input %d of %s read as %s, want %s", i, tx, ids[i], w)
	}
	t.Shape("inputs %d", min(len(pl.txids), 4))
	if t.own("C20") {
		raw := pl.empty()
		end := len(raw) - len(pl.rest)
		bad := raw[:t.Intn(end+1)]
		if t.P(30) { // a script where none may be, another version, another count
			bad = append([]byte{}, raw...)
			switch t.Intn(3) {
			case 0:
				bad[end-5] = byte(1 + t.Intn(255))
			case 1:
				bad[t.Intn(4)] ^= byte(1 + t.Intn(255))
			case 2:
				bad[4] = []byte{0, 0xfe, 0xff}[t.Intn(3)]
			}
		}
		out := t.Call("mateverse.GetInputs", mvHashes, hx(bad), hx(bad), pl.locks)
		t.Check(errOf(out) != nil, "mateverse: %x is read (original %s)", bad, tx)
		return
	}
	var dig [][]byte
	for i := range hs {
		dig = append(dig, pl.digest(i))
		t.Check(hs[i] == hx(dig[i]), "mateverse: digest of input %d is %s, want %x (tx %s scripts %q)", i, hs[i], dig[i], tx, pl.locks)
	}
	if t.own("C09") {
		if t.P(30) {
			ls := append([]string{}, pl.locks...)
			i := t.Intn(len(ls))
			ls[i] = t.Str("[ "+hx(t.B(4))+" ] [ "+hx(t.B(76+t.Intn(200)))+" ] checkattenuationverify dup hash160 [ "+hx(t.B(20))+" ] equalverify checksig",
				"[ "+hx(t.B(4))+" ] checkattenuationverify dup hash160 [ "+hx(t.B(20))+" ] equalverify checksig",
				"[ "+hx(t.B(4))+" ] [ 01 ] [ 02 ] checkattenuationverify dup hash160 [ "+hx(t.B(20))+" ] equalverify checksig",
				"", "zz", "dup hash160", "dup hash160 [ 00 ] equalverify checksig", hx(sP2SH(t.B(20)))+hx(t.B(4)), ls[i]+"]", ls[i]+"zz", "return [ "+hx(t.B(60))+" ]")
			out := t.Call("mateverse.GetSigHash", mvHashes, tx, tx, ls)
			t.Check(errOf(out) != nil, "mateverse: a digest is given for the spent script %q", ls[i])
		}
		return
	}
	var sp0 []mvSP
	var sigs [][]byte
	for i, kp := range pl.keys {
		var sig []byte
		if t.P(60) {
			out := t.CallR("mateverse.Sign", mv.SignTransaction, hs[i], t.spare(kp.pri))
			t.Check(errOf(out) == nil, "mateverse: signing refused: %v", errOf(out))
			sig = unhex(str(out, 0))
			t.checkSig(kp, dig[i], sig, true, "mateverse")
		} else {
			sig = t.extSign(kp, dig[i])
		}
		sigs = append(sigs, sig)
		sp0 = append(sp0, mvSP{"", hx(sig), hx(kp.pub)})
	}
	if t.own("C19") {
		t.btcBadSign(&btcPkg{name: "mateverse", sign: mv.SignTransaction})
	}
	ok, signed := t.mvFrom(tx, tx, pl.locks, t.Bool(), sp0)
	t.Check(ok, "mateverse: combining matching signatures is refused: %s scripts %q signatures %v", tx, pl.locks, sp0)
	ref := pl.ser(func(i int) []byte { return scriptSig(pl.keys[i], sigs[i]) })
	t.Check(signed == hx(ref), "mateverse: combined transaction\ngot  %s\nwant %x", signed, ref)
	if !t.own("C13") {
		return
	}
	for n := 0; n < 4; n++ {
		sp := append([]mvSP{}, sp0...)
		locks := append([]string{}, pl.locks...)
		i := t.Intn(len(sp))
		alt, from := tx, tx
		what := ""
		switch t.Intn(10) {
		case 9:
			what = "inputs of another transaction"
			q := *pl
			q.txids, q.vouts, q.seqs = append([][]byte{}, q.txids...), append([]uint32{}, q.vouts...), append([]uint32{}, q.seqs...)
			switch t.Intn(3) {
			case 0:
				q.txids[i] = t.flip(q.txids[i])
			case 1:
				q.vouts[i] ^= 1 << t.Intn(32)
			case 2:
				q.seqs[i] ^= 1 << t.Intn(32)
			}
			from = hx(q.empty())
		case 0, 1:
			what = "a changed transaction"
			m := hx(t.Mutate(pl.empty()))
			if m == tx {
				continue
			}
			alt = m
			if t.Bool() {
				from = m
			}
		case 2:
			what = "another output being spent"
			f := t.kp(cK1)
			l, _ := t.mvLock(rH160(f.pub))
			if t.Bool() { // a script ahead of the same key's
				l = hx(cat([]byte{0x51}, pl.scr[i]))
			}
			if t.Bool() {
				locks[i] = l
			} else {
				sp[i].Lock = l
			}
		case 3:
			what = "a signature by a foreign key with its public key"
			f := t.foreign(pl.keys[i])
			sp[i] = mvSP{"", hx(t.extSign(f, dig[i])), hx(f.pub)}
		case 4:
			what = "a signature over another digest"
			sp[i].Sig = hx(t.extSign(pl.keys[i], t.B(32)))
		case 5:
			what = "a changed signature byte"
			sp[i].Sig = hx(t.flip(sigs[i]))
		case 6:
			what = "a changed public key"
			b := t.Mutate(pl.keys[i].pub)
			if bytes.Equal(b, pl.keys[i].pub) {
				continue
			}
			sp[i].Pub = hx(b)
		case 7:
			what = "missing or surplus signatures"
			if t.Bool() {
				sp = append(sp, sp[i])
			} else {
				sp = sp[:len(sp)-1]
			}
		case 8:
			if len(sp) < 2 {
				continue
			}
			what = "swapped signatures"
			j := (i + 1) % len(sp)
			sp[i], sp[j] = sp[j], sp[i]
		}
		t.Shape("forged: %s", what)
		t.ev["forgeries presented"]++
		ok, got := t.mvFrom(alt, from, locks, t.Bool(), sp)
		t.Check(!ok, "mateverse: verification accepts %s\ntx       %s (inputs of %s)\noriginal %s\nscripts %q\nsignatures %v\ncombined %s", what, alt, from, tx, locks, sp, got)
	}
}

func init() {
	regFlow("fiii", "fiiiTransaction", map[string]int{"C07": 1500, "C09": 800, "C11": 400, "C13": 400, "C19": 300, "C20": 400}, fiiiFlow)
	reg(&Suite{Prop: "C07", Name: "fiii-refuse", Pkg: "fiiiTransaction", Quick: 1500, Run: fiiiRefuse})
	regFlow("elastos", "elastosTransaction", map[string]int{"C07": 1500, "C09": 600, "C11": 240, "C13": 300, "C19": 120}, elaFlow)
	reg(&Suite{Prop: "C07", Name: "elastos-refuse", Pkg: "elastosTransaction", Quick: 1500, Run: elaRefuse})
	regFlow("mateverse", "mateverseTransaction", map[string]int{"C09": 800, "C11": 240, "C13": 300, "C19": 120, "C20": 800}, mvFlow)
}
