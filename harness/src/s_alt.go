//go:build go1.22

package main

import (
	"bytes"
	"strings"
	"time"

	alien "github.com/blocktree/go-owcdrivers/aliencoinTransaction"
	hyper "github.com/blocktree/go-owcdrivers/hypercashTransaction"
	verge "github.com/blocktree/go-owcdrivers/vergeTransaction"
	vollar "github.com/blocktree/go-owcdrivers/vollarTransaction"
)

// Drivers that hand out the unsigned transaction together with its digests
// and verify while combining.

type aVin struct {
	TxID        string
	Vout        uint32
	Tree        byte
	Amount      uint64
	LockScript  string
	BlockHeight uint32
	BlockIndex  uint32
}
type aVout struct {
	Address         string
	Amount          uint64
	PkScriptVersion uint16
}
type aSP struct{ Pubkey, PublicKey, Signature []byte }

type aPlan struct {
	k           *altPkg
	vins        []aVin
	vouts       []aVout
	txids       [][]byte
	locks       [][]byte
	scripts     [][]byte
	keys        []*KP
	lock, until uint32
	time        uint32
	expiry      uint32
	interval    uint32
	omni        bool
	omniID      uint32
	omniAmount  uint64
	digests     [][]byte
	seqs        []uint32 // nil: all final
}

func (pl *aPlan) seq(i int) []byte {
	if pl.seqs == nil {
		return le32(0xffffffff)
	}
	return le32(pl.seqs[i])
}

// altForeign turns the plan into one no driver call makes.
func (t *T) altForeign(pl *aPlan) {
	pl.seqs = make([]uint32, len(pl.vins))
	for i := range pl.seqs {
		pl.seqs[i] = 0xffffffff
		if t.P(70) {
			pl.seqs[i] = t.U32()
		}
	}
	if t.P(30) {
		pl.lock, pl.expiry, pl.time = t.U32(), t.U32(), t.U32()
	}
	for i := range pl.scripts {
		if t.P(30) {
			pl.scripts[i] = t.B(1 + t.Intn(80))
			if t.P(20) {
				pl.scripts[i] = t.B(1 + t.Intn(252))
			}
		}
		if t.P(30) {
			pl.vouts[i].Amount = t.U64()
		}
	}
	pl.digests = nil
	for i := range pl.vins {
		pl.digests = append(pl.digests, pl.k.digest(pl, i))
	}
	t.Shape("made elsewhere")
}

type altPkg struct {
	name, dir     string
	pkh, sh       []byte
	h160          func([]byte) []byte
	addr          func(prefix, h []byte) string
	create        interface{}
	sign, combine interface{}
	body          func(pl *aPlan, sigs [][]byte) []byte // wire form, scripts empty if sigs is nil
	digest        func(pl *aPlan, i int) []byte
	signed        func(pl *aPlan, sigs [][]byte) []byte
	free          int // leading bytes no digest commits to
}

func scriptSig(kp *KP, sig []byte) []byte {
	return cat(sPush(append(rDER(sig), 1)), sPush(kp.pub))
}

func (pl *aPlan) inSer(i int, script []byte) []byte {
	return cat(pl.txids[i], le32(pl.vins[i].Vout), vbytes(script), pl.seq(i))
}

func (pl *aPlan) outs(f func(i int) []byte) []byte {
	b := vint(len(pl.scripts))
	for i := range pl.scripts {
		b = append(b, f(i)...)
	}
	return b
}

func legacyBody(timed bool) func(pl *aPlan, scripts [][]byte) []byte {
	return func(pl *aPlan, scripts [][]byte) []byte {
		b := le32(1)
		if timed {
			b = append(b, le32(pl.time)...)
		}
		b = append(b, vint(len(pl.vins))...)
		for i := range pl.vins {
			var s []byte
			if scripts != nil {
				s = scripts[i]
			}
			b = append(b, pl.inSer(i, s)...)
		}
		b = append(b, pl.outs(func(i int) []byte { return cat(le64(pl.vouts[i].Amount), vbytes(pl.scripts[i])) })...)
		return append(b, le32(pl.lock)...)
	}
}

func legacyDigest(body func(pl *aPlan, scripts [][]byte) []byte) func(pl *aPlan, i int) []byte {
	return func(pl *aPlan, i int) []byte {
		s := make([][]byte, len(pl.vins))
		s[i] = pl.locks[i]
		return rDsha(append(body(pl, s), le32(1)...))
	}
}

func withSigs(body func(pl *aPlan, scripts [][]byte) []byte) func(pl *aPlan, sigs [][]byte) []byte {
	return func(pl *aPlan, sigs [][]byte) []byte {
		var s [][]byte
		for i := range sigs {
			s = append(s, scriptSig(pl.keys[i], sigs[i]))
		}
		return body(pl, s)
	}
}

func vollarOut(pl *aPlan) func(i int) []byte {
	return func(i int) []byte {
		return cat(le64(pl.vouts[i].Amount), []byte{0}, vbytes(pl.scripts[i]), make([]byte, 32))
	}
}

func vollarBody(pl *aPlan, scripts [][]byte) []byte {
	b := append(le32(1), 0)
	b = append(b, vint(len(pl.vins))...)
	for i := range pl.vins {
		var s []byte
		if scripts != nil {
			s = scripts[i]
		}
		b = append(b, pl.inSer(i, s)...)
	}
	return append(b, pl.outs(vollarOut(pl))...)
}

func vollarDigest(pl *aPlan, i int) []byte {
	var prev, seq, outs []byte
	for j := range pl.vins {
		prev = append(prev, cat(pl.txids[j], le32(pl.vins[j].Vout))...)
		seq = append(seq, pl.seq(j)...)
	}
	for j := range pl.scripts {
		outs = append(outs, vollarOut(pl)(j)...)
	}
	return rDsha(cat(rDsha(prev), rDsha(seq), rDsha(outs), make([]byte, 64), make([]byte, 16), le32(1),
		pl.txids[i], le32(pl.vins[i].Vout), vbytes(pl.locks[i]), pl.seq(i)))
}

func hyperOut(pl *aPlan) func(i int) []byte {
	return func(i int) []byte {
		return cat(le64(pl.vouts[i].Amount), le16(pl.vouts[i].PkScriptVersion), vbytes(pl.scripts[i]))
	}
}

func hyperPrefix(pl *aPlan, ser uint16) []byte {
	b := cat(le16(1), le16(ser), vint(len(pl.vins)))
	for i, in := range pl.vins {
		b = append(b, cat(pl.txids[i], le32(in.Vout), []byte{in.Tree}, pl.seq(i))...)
	}
	b = append(b, pl.outs(hyperOut(pl))...)
	return cat(b, le32(pl.lock), le32(pl.expiry))
}

func hyperDigest(pl *aPlan, i int) []byte {
	w := cat(le16(1), le16(3), vint(len(pl.vins)))
	for j := range pl.vins {
		if j == i {
			w = append(w, vbytes(pl.locks[i])...)
		} else {
			w = append(w, 0)
		}
	}
	return rBlake256(cat(le32(1), rBlake256(hyperPrefix(pl, 1)), rBlake256(w)))
}

var altPkgs = []*altPkg{
	{name: "aliencoin", dir: "aliencoinTransaction", pkh: []byte{0x17}, sh: []byte{0x30}, h160: rH160, addr: rB58Check,
		create: alien.CreateEmptyTransactionAndHash, sign: alien.SignTransaction, combine: alien.VerifyAndCombineTransaction,
		body: legacyBody(false), digest: legacyDigest(legacyBody(false)), signed: withSigs(legacyBody(false))},
	{name: "verge", dir: "vergeTransaction", pkh: []byte{0x1e}, sh: []byte{0x21}, h160: rH160, addr: rB58Check,
		create: verge.CreateEmptyTransactionAndHash, sign: verge.SignTransaction, combine: verge.VerifyAndCombineTransaction,
		body: legacyBody(true), digest: legacyDigest(legacyBody(true)), signed: withSigs(legacyBody(true))},
	{name: "vollar", dir: "vollarTransaction", pkh: []byte{0x10, 0x1c}, sh: []byte{0x10, 0x41}, h160: rH160, addr: rB58Check,
		create: vollar.CreateEmptyRawTransactionAndHash, sign: vollar.SignRawTransaction, combine: vollar.VerifyAndCombineRawTransaction,
		body: vollarBody, digest: vollarDigest, free: 5,
		signed: func(pl *aPlan, sigs [][]byte) []byte {
			return append(withSigs(vollarBody)(pl, sigs), make([]byte, 82+len(pl.vins))...)
		}},
	{name: "hypercash", dir: "hypercashTransaction", pkh: []byte{0x09, 0x7f}, h160: func(b []byte) []byte { return rRmd(rBlake256(b)) },
		addr: func(p, h []byte) string {
			b := cat(p, h)
			return rB58(append(b, rDBlake256(b)[:4]...), b58btc)
		},
		create: hyper.CreateEmptyTransactionAndHash, sign: hyper.SignTransaction, combine: hyper.VerifyAndCombineTransaction,
		body: func(pl *aPlan, _ [][]byte) []byte { return hyperPrefix(pl, 0) }, digest: hyperDigest,
		signed: func(pl *aPlan, sigs [][]byte) []byte {
			b := append(hyperPrefix(pl, 0), vint(len(sigs))...)
			for i, s := range sigs {
				in := pl.vins[i]
				b = append(b, cat(le64(in.Amount), le32(in.BlockHeight), le32(in.BlockIndex), vbytes(scriptSig(pl.keys[i], s)))...)
			}
			return b
		}},
}

// text is the form of the unsigned transaction the driver hands out.
func (pl *aPlan) text() string {
	s := hx(pl.k.body(pl, nil))
	for i, in := range pl.vins {
		s += ":"
		if pl.k.name == "hypercash" {
			s += hx(vbytes(pl.locks[i])) + "/" + hx(cat(le64(in.Amount), le32(in.BlockHeight), le32(in.BlockIndex)))
		} else {
			s += hx(pl.locks[i])
		}
	}
	return s
}

func (t *T) altPlan(k *altPkg, maxIn int) *aPlan {
	pl := &aPlan{k: k}
	n := 1
	if t.P(50) {
		n = t.Small(1, maxIn)
	}
	for i := 0; i < n; i++ {
		kp := t.kpIn(cK1, pl.keys)
		id, idb := t.txid()
		lk := sP2PKH(k.h160(kp.pub))
		pl.keys = append(pl.keys, kp)
		pl.txids = append(pl.txids, idb)
		pl.locks = append(pl.locks, lk)
		pl.vins = append(pl.vins, aVin{TxID: id, Vout: t.U32(), LockScript: hx(lk), Amount: t.U64(), BlockHeight: t.U32(), BlockIndex: t.U32(), Tree: byte(t.Intn(2))})
	}
	no := t.Small(1, 5)
	if t.P(4) {
		no = 1 + t.Intn(252)
	}
	if k.name == "hypercash" && t.P(30) {
		pl.omni, pl.omniID, pl.omniAmount = true, t.U32(), t.U64()
		no = 1 + t.Intn(2)
	}
	for i := 0; i < no; i++ {
		h := t.B(20)
		if k.sh != nil && t.P(35) {
			pl.vouts = append(pl.vouts, aVout{Address: k.addr(k.sh, h), Amount: t.U64()})
			pl.scripts = append(pl.scripts, sP2SH(h))
		} else {
			pl.vouts = append(pl.vouts, aVout{Address: k.addr(k.pkh, h), Amount: t.U64()})
			pl.scripts = append(pl.scripts, sP2PKH(h))
		}
		if k.name == "hypercash" && t.P(20) {
			pl.vouts[i].PkScriptVersion = uint16(t.U32())
		}
	}
	if t.P(40) {
		pl.lock = t.U32()
	}
	if t.P(40) {
		pl.expiry = t.U32()
	}
	pl.interval = uint32(t.U64In(0, 1<<30))
	return pl
}

func (t *T) altCreate(pl *aPlan) (string, []string, error) {
	k := pl.k
	var out []interface{}
	switch k.name {
	case "aliencoin":
		out = t.Call(k.name+".Create", k.create, pl.vins, pl.vouts, pl.lock)
	case "verge":
		a := uint32(time.Now().Unix())
		out = t.CallR(k.name+".Create", k.create, pl.vins, pl.vouts, pl.lock, pl.interval)
		b := uint32(time.Now().Unix())
		if raw := unhex(strings.Split(str(out, 0), ":")[0]); len(raw) > 8 {
			pl.time = uint32(raw[4]) | uint32(raw[5])<<8 | uint32(raw[6])<<16 | uint32(raw[7])<<24
			t.Check(pl.time >= a+pl.interval && pl.time <= b+pl.interval, "verge: time field %d is not the current time %d..%d plus %d", pl.time, a, b, pl.interval)
		}
	case "vollar":
		out = t.Call(k.name+".Create", k.create, pl.vins, pl.vouts)
	case "hypercash":
		if pl.omni {
			var change *aVout
			if len(pl.vouts) > 1 {
				change = &pl.vouts[1]
			}
			out = t.Call(k.name+".CreateOmni", hyper.CreateOmniEmptyTransactionAndHash, pl.vins, &pl.vouts[0], change, pl.omniAmount, pl.omniID, pl.lock, pl.expiry)
			p := cat([]byte("omni"), make([]byte, 4), be32(pl.omniID), be64(pl.omniAmount))
			sc := cat([]byte{0x6a}, sPush(p))
			q := *pl
			q.vouts = append([]aVout{pl.vouts[0], {PkScriptVersion: pl.vouts[0].PkScriptVersion}}, pl.vouts[1:]...)
			q.scripts = append([][]byte{pl.scripts[0], sc}, pl.scripts[1:]...)
			q.omni = false
			*pl = q
		} else {
			out = t.Call(k.name+".Create", k.create, pl.vins, pl.vouts, pl.lock, pl.expiry)
		}
	}
	var h []string
	into(&h, out[1])
	return str(out, 0), h, errOf(out)
}

func (t *T) altCombine(k *altPkg, tx string, sp []aSP) (bool, string) {
	out := t.Call(k.name+".VerifyAndCombine", k.combine, tx, sp)
	ok := out[0].(bool) && errOf(out) == nil
	if !ok {
		t.Check(!out[0].(bool) && str(out, 1) == "", "%s: a refused transaction is handed out: %v %s", k.name, out[0], str(out, 1))
	}
	return ok, str(out, 1)
}

func (t *T) altSPs(pl *aPlan, sigs [][]byte) []aSP {
	var sp []aSP
	for i := range sigs {
		sp = append(sp, aSP{t.spare(pl.keys[i].pub), t.spare(pl.keys[i].pub), t.spare(sigs[i])})
	}
	return sp
}

func altFlow(k *altPkg) func(*T) {
	return func(t *T) {
		maxIn := 4
		if t.own("C07", "C09") {
			maxIn = 12
			if t.P(2) {
				maxIn = 252
			}
		}
		pl := t.altPlan(k, maxIn)
		t.Logf("%s vins=%v vouts=%v lock=%d expiry=%d", k.name, pl.vins, pl.vouts, pl.lock, pl.expiry)
		tx, hashes, err := t.altCreate(pl)
		t.Check(err == nil, "%s: a faithful request is refused: %v", k.name, err)
		t.Fp(tx)
		t.Check(tx == pl.text(), "%s: unsigned transaction differs from the request\ngot  %s\nwant %s", k.name, tx, pl.text())
		t.Shape("inputs %d outputs %d lock %v", min(len(pl.vins), 4), min(len(pl.scripts), 4), pl.lock != 0)
		if t.own("C07") {
			return
		}
		t.Check(len(hashes) == len(pl.vins), "%s: %d digests for %d inputs", k.name, len(hashes), len(pl.vins))
		for i := range pl.vins {
			pl.digests = append(pl.digests, k.digest(pl, i))
			t.Check(hashes[i] == hx(pl.digests[i]), "%s: digest of input %d is %s, want %x (tx %s)", k.name, i, hashes[i], pl.digests[i], tx)
		}
		if t.own("C20") {
			t.altDecode(pl, tx)
			return
		}
		if t.own("C09") {
			return
		}
		made := true
		if t.P(35) && !t.own("C19") {
			made = false
			t.altForeign(pl)
			tx = pl.text()
			t.Fp(tx)
			hashes = make([]string, len(pl.digests)) // what Create returned stays as it was
			for i := range hashes {
				hashes[i] = hx(pl.digests[i])
			}
		}
		var sigs [][]byte
		for i := range pl.vins {
			kp := pl.keys[i]
			if t.P(60) {
				out := t.CallR(k.name+".Sign", k.sign, hashes[i], t.spare(kp.pri))
				t.Check(errOf(out) == nil, "%s: signing %s refused: %v", k.name, hashes[i], errOf(out))
				sig := out[0].([]byte)
				if t.own("C19") {
					t.checkSig(kp, pl.digests[i], sig, true, k.name)
				}
				sigs = append(sigs, sig)
			} else {
				sigs = append(sigs, t.extSign(kp, pl.digests[i]))
			}
		}
		if t.own("C19") {
			t.btcBadSign(&btcPkg{name: k.name, sign: k.sign})
		}
		ok, signed := t.altCombine(k, tx, t.altSPs(pl, sigs))
		if !ok && !made {
			t.Shape("a transaction made elsewhere is refused")
			return
		}
		t.Check(ok, "%s: combining matching signatures is refused: %s sigs %x", k.name, tx, sigs)
		ref := k.signed(pl, sigs)
		t.Check(signed == hx(ref), "%s: combined transaction\ngot  %s\nwant %x", k.name, signed, ref)
		if t.own("C13") {
			t.altForge(pl, tx, sigs)
		}
	}
}

// altForge presents altered transactions or signatures to the verification.
func (t *T) altForge(pl *aPlan, tx string, sigs [][]byte) {
	k := pl.k
	for n := 0; n < 3; n++ {
		sp := t.altSPs(pl, sigs)
		i := t.Intn(len(sp))
		f := t.foreign(pl.keys[i])
		alt := tx
		what := ""
		switch t.Intn(9) {
		case 0, 1, 2:
			what = "a changed byte of the transaction"
			parts := strings.Split(tx, ":")
			raw := unhex(parts[0])
			m := append(append([]byte{}, raw[:k.free]...), t.Mutate(raw[k.free:])...)
			if bytes.Equal(m, raw) {
				continue
			}
			parts[0] = hx(m)
			alt = strings.Join(parts, ":")
		case 3:
			what = "another output being spent"
			parts := strings.Split(tx, ":")
			j := 1 + t.Intn(len(parts)-1)
			lk := strings.Split(parts[j], "/")
			raw := unhex(lk[0])
			m := t.Mutate(raw)
			if bytes.Equal(m, raw) {
				continue
			}
			lk[0] = hx(m)
			parts[j] = strings.Join(lk, "/")
			alt = strings.Join(parts, ":")
		case 4:
			what = "a signature by a foreign key with its public key"
			sp[i] = aSP{f.pub, f.pub, t.extSign(f, pl.digests[i])}
		case 5:
			what = "a signature over another digest"
			sp[i].Signature = t.extSign(pl.keys[i], t.B(32))
		case 6:
			what = "a changed signature or key byte"
			if t.Bool() {
				sp[i].Signature = t.Mutate(sp[i].Signature)
				if bytes.Equal(sp[i].Signature, sigs[i]) {
					continue
				}
			} else {
				b := t.Mutate(pl.keys[i].pub)
				if bytes.Equal(b, pl.keys[i].pub) {
					continue
				}
				sp[i].Pubkey, sp[i].PublicKey = b, b
			}
		case 7:
			what = "missing or surplus signatures"
			if t.Bool() {
				sp = append(sp, sp[i])
			} else {
				sp = sp[:len(sp)-1]
			}
		case 8:
			if len(sp) < 2 {
				continue
			}
			what = "signatures of two inputs swapped"
			j := (i + 1) % len(sp)
			sp[i], sp[j] = sp[j], sp[i]
		}
		t.Shape("forged: %s", what)
		t.ev["forgeries presented"]++
		ok, got := t.altCombine(k, alt, sp)
		t.Check(!ok, "%s: verification accepts %s\ntx       %s\noriginal %s\nsignatures %s\ncombined %s", k.name, what, alt, tx, dumpOf(sp), got)
	}
}

func (t *T) altDecode(pl *aPlan, tx string) {
	k := pl.k
	var bad string
	parts := strings.Split(tx, ":")
	raw := unhex(parts[0])
	if t.Bool() {
		raw = raw[:t.Intn(len(raw))]
	} else {
		raw = append(raw, t.Raw(1+t.Intn(3))...)
	}
	parts[0] = hx(raw)
	if t.P(20) {
		parts = strings.Split(tx, ":")
		parts = append(parts, parts[1])
	} else if t.P(10) && len(parts) > 2 {
		parts = strings.Split(tx, ":")
		parts = parts[:len(parts)-1]
	}
	bad = strings.Join(parts, ":")
	if k.name == "hypercash" {
		out := t.Call("hypercash.GetVinList", hyper.GetVinList, tx)
		t.Check(errOf(out) == nil, "hypercash: reading the inputs of %s: %v", tx, errOf(out))
		var v []aVin
		into(&v, out[0])
		t.Check(len(v) == len(pl.vins), "hypercash: %d inputs read from %s", len(v), tx)
		for i := range v {
			t.Check(v[i].TxID == pl.vins[i].TxID && v[i].Vout == pl.vins[i].Vout, "hypercash: input %d read as %v, want %v", i, v[i], pl.vins[i])
		}
		out = t.Call("hypercash.GetVinList", hyper.GetVinList, bad)
		t.Check(errOf(out) != nil, "hypercash: inputs of a transaction with missing or surplus data are read: %s (original %s)", bad, tx)
		return
	}
	var fn interface{} = alien.DecodeTxStructRaw
	switch k.name {
	case "verge":
		fn = verge.DecodeTxStructRaw
	case "vollar":
		fn = vollar.DecodeTxStructRaw
	}
	out := t.Call(k.name+".DecodeTxStructRaw", fn, tx)
	t.Check(errOf(out) == nil, "%s: decoding %s: %v", k.name, tx, errOf(out))
	var d struct {
		Version, TimeInterval []byte
		Flag                  byte
		Vin                   []struct{ TxID, Vout, Sequence, LockScript []byte }
		Vout                  []struct {
			Amount, LockScript, HashData []byte
			Flag                         byte
		}
		LockTime []byte
	}
	into(&d, out[0])
	var locks []string
	into(&locks, out[1])
	ok := bytes.Equal(d.Version, le32(1)) && len(d.Vin) == len(pl.vins) && len(d.Vout) == len(pl.scripts) && len(locks) == len(pl.vins)
	if ok && k.name != "vollar" {
		ok = bytes.Equal(d.LockTime, le32(pl.lock))
	}
	if ok && k.name == "verge" {
		ok = bytes.Equal(d.TimeInterval, le32(pl.time))
	}
	for i := 0; ok && i < len(d.Vin); i++ {
		in := d.Vin[i]
		ok = bytes.Equal(in.TxID, pl.txids[i]) && bytes.Equal(in.Vout, le32(pl.vins[i].Vout)) && bytes.Equal(in.Sequence, le32(0xffffffff)) && locks[i] == hx(pl.locks[i])
		if ok && k.name != "vollar" {
			ok = bytes.Equal(in.LockScript, vbytes(pl.locks[i]))
		}
	}
	for i := 0; ok && i < len(d.Vout); i++ {
		o := d.Vout[i]
		ok = bytes.Equal(o.Amount, le64(pl.vouts[i].Amount)) && bytes.Equal(o.LockScript, vbytes(pl.scripts[i]))
		if ok && k.name == "vollar" {
			ok = bytes.Equal(o.HashData, make([]byte, 32)) && o.Flag == 0
		}
	}
	t.Check(ok, "%s: decoding %s yields %s", k.name, tx, dumpOf(out[0]))
	out = t.Call(k.name+".DecodeTxStructRaw", fn, bad)
	t.Check(errOf(out) != nil, "%s: %s with missing or surplus data decodes (original %s)", k.name, bad, tx)
}

func altRefuse(k *altPkg) func(*T) {
	return func(t *T) {
		pl := t.altPlan(k, 3)
		pl.omni = false
		i, o := t.Intn(len(pl.vins)), t.Intn(len(pl.vouts))
		what := ""
		switch t.Intn(9) {
		case 0:
			what = "txid of a wrong length"
			pl.vins[i].TxID = hx(t.B([]int{0, 1, 16, 31, 33, 64}[t.Intn(6)]))
		case 1:
			what = "txid that is no hex"
			b := []byte(pl.vins[i].TxID)
			b[t.Intn(64)] = "xyzg -"[t.Intn(6)]
			pl.vins[i].TxID = string(b)
		case 2:
			what = "no inputs"
			pl.vins = nil
		case 3:
			what = "no outputs"
			pl.vouts = nil
		case 4:
			what = "253 or more inputs"
			for n := 253 + t.Intn(300); len(pl.vins) < n; {
				pl.vins = append(pl.vins, pl.vins[0])
			}
		case 5:
			what = "253 or more outputs"
			for n := 253 + t.Intn(300); len(pl.vouts) < n; {
				pl.vouts = append(pl.vouts, pl.vouts[0])
			}
		case 6:
			what = "a damaged address"
			m := t.MutateText(pl.vouts[o].Address)
			if m == pl.vouts[o].Address {
				t.trivial = true
				return
			}
			pl.vouts[o].Address = m
		case 7:
			what = "an address of another network or length"
			pre := t.Raw(1 + t.Intn(2))
			n := 20
			if t.Bool() {
				pre, n = k.pkh, t.Intn(40)
			}
			body := cat(pre, t.B(n))
			if len(body) >= 20 {
				p := body[:len(body)-20]
				if bytes.Equal(p, k.pkh) || bytes.Equal(p, k.sh) {
					t.trivial = true
					return
				}
			}
			pl.vouts[o].Address = k.addr(nil, body)
		case 8:
			what = "a spent script that is no hex, empty or too long"
			pl.vins[i].LockScript = []string{"zz", "", hx(t.B(253 + t.Intn(300))), pl.vins[i].LockScript[1:]}[t.Intn(4)]
		}
		t.Shape("%s", what)
		t.Fp(what, dumpOf(pl.vins), dumpOf(pl.vouts))
		tx, h, err := t.altCreate(pl)
		t.Check(err != nil && tx == "" && h == nil, "%s: a request with %s is not refused: %s (vins %s vouts %s)", k.name, what, tx, clip(dumpOf(pl.vins), 600), clip(dumpOf(pl.vouts), 600))
	}
}

func init() {
	for _, k := range altPkgs {
		regFlow(k.name, k.dir, map[string]int{"C07": 1500, "C09": 600, "C11": 240, "C13": 300, "C19": 120, "C20": 600}, altFlow(k))
		reg(&Suite{Prop: "C07", Name: k.name + "-refuse", Pkg: k.dir, Quick: 1500, Run: altRefuse(k)})
	}
}
