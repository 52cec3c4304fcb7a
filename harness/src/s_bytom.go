//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"math"
	"reflect"
	"strings"

	bytom "github.com/blocktree/go-owcdrivers/bytomTransaction"
)

// bytomTransaction: entry identifiers instead of a hash over the serialised
// transaction, numbers of 63 bits, outputs of the BTM asset.

type yIn struct {
	keys   []*aKey // the keys of the script, or the one key
	use    []int   // which of them sign, in order
	script []byte
	prog   []byte
	id     []byte
	asset  []byte
	pos    uint64
	amount uint64
	sigs   [][]byte
}
type yVin struct {
	SourceID       string
	SourcePosition uint64
	AssetID        string
	Amount         uint64
	ControlProgram string
}
type ySP struct{ Signature, Pubkey []byte }
type yNormal struct {
	Address string
	SigPub  ySP
}
type yMulti struct {
	Pubkey string
	SigPub ySP
}
type yHash struct {
	Hash      string
	NRequired byte
	Normal    *yNormal
	Multi     []yMulti
}
type yPlan struct {
	test  bool
	ins   []*yIn
	vins  []yVin
	vouts []lVout
	progs [][]byte
	oas   [][]byte // assets of the outputs, nil: the native one
	time  uint64
}

func (pl *yPlan) oasset(i int) []byte {
	if pl.oas == nil {
		return bytes.Repeat([]byte{0xff}, 32)
	}
	return pl.oas[i]
}

// yForeign turns the plan into an unsigned transaction no driver call makes.
func (t *T) yForeign(pl *yPlan) string {
	for i := range pl.vouts {
		a := bytes.Repeat([]byte{0xff}, 32)
		if t.P(50) {
			a = t.B(32)
		}
		pl.oas = append(pl.oas, a)
		if t.P(30) {
			pl.progs[i] = t.B(1 + t.Intn(80))
			if t.P(20) {
				pl.progs[i] = t.B(100 + t.Intn(200))
			}
		}
	}
	t.Shape("made elsewhere")
	return hx(pl.ser())
}

func uv(x uint64) []byte               { return binary.AppendUvarint(nil, x) }
func vstr(b []byte) []byte             { return cat(uv(uint64(len(b))), b) }
func yEntry(k string, b []byte) []byte { return rSha3(cat([]byte("entryid:"+k+":"), rSha3(b))) }

func (t *T) u63() uint64 {
	if x := t.U64(); x <= math.MaxInt64 {
		return x
	}
	return math.MaxInt64 - uint64(t.Intn(3))
}

func yScript(m int, keys []*aKey) []byte {
	s := []byte{0xae}
	for _, k := range keys {
		s = cat(s, []byte{32}, k.pub)
	}
	return append(s, 0x50+byte(m), 0x50+byte(len(keys)), 0xad)
}

func (pl *yPlan) hrp() string {
	if pl.test {
		return "tm"
	}
	return "bm"
}

// yKey is a key; where nothing is signed only its public half matters.
func (t *T) yKey() *aKey {
	if t.own("C07", "C09") {
		return &aKey{curve: "ed", pub: t.B(32)}
	}
	return t.acKey("ed")
}

func (t *T) yPlan(maxIn int) *yPlan {
	pl := &yPlan{test: t.P(30)}
	if t.Bool() {
		pl.time = t.u63()
	}
	n := t.Small(1, maxIn)
	for i := 0; i < n; i++ {
		in := &yIn{id: t.B(32), asset: unhex(strings.Repeat("ff", 32)), pos: uint64(t.Intn(3)), amount: t.u63()}
		if t.P(40) {
			in.pos = t.u63()
		}
		if t.P(30) {
			in.asset = t.B(32)
		}
		if t.P(35) {
			nk := t.Small(1, 4)
			if t.P(20) {
				nk = 1 + t.Intn(16)
			}
			m := 1 + t.Intn(nk)
			for j := 0; j < nk; j++ {
				in.keys = append(in.keys, t.yKey())
			}
			use := map[int]bool{}
			for _, u := range t.Perm(nk)[:m] {
				use[u] = true
			}
			for j := 0; j < nk; j++ {
				if use[j] {
					in.use = append(in.use, j)
				}
			}
			in.script = yScript(m, in.keys)
			in.prog = cat([]byte{0, 32}, rSha3(in.script))
		} else {
			k := t.yKey()
			if i > 0 && t.P(20) && pl.ins[i-1].script == nil {
				k = pl.ins[i-1].keys[0]
			}
			in.keys, in.use = []*aKey{k}, []int{0}
			in.prog = cat([]byte{0, 20}, rH160(k.pub))
		}
		pl.ins = append(pl.ins, in)
		pl.vins = append(pl.vins, yVin{hx(in.id), in.pos, hx(in.asset), in.amount, hx(in.prog)})
	}
	no := t.Small(1, 5)
	if t.P(4) {
		no = 1 + t.Intn(140)
	}
	for i := 0; i < no; i++ {
		h := t.B([]int{20, 20, 32}[t.Intn(3)])
		pl.progs = append(pl.progs, cat([]byte{0, byte(len(h))}, h))
		pl.vouts = append(pl.vouts, lVout{rSegwit(pl.hrp(), 0, h), t.u63()})
	}
	return pl
}

// ser is the network form; an input without signatures has an empty argument list.
func (pl *yPlan) ser() []byte {
	b := cat([]byte{7, 1}, uv(pl.time), uv(uint64(len(pl.ins))))
	for _, in := range pl.ins {
		c := cat(in.id, in.asset, uv(in.amount), uv(in.pos), []byte{1}, vstr(in.prog))
		b = cat(b, []byte{1}, vstr(cat([]byte{1}, vstr(c))))
		w := []byte{0}
		if in.sigs != nil {
			var args [][]byte
			args = append(args, in.sigs...)
			if in.script != nil {
				args = append(args, in.script)
			} else {
				args = append(args, in.keys[0].pub)
			}
			w = uv(uint64(len(args)))
			for _, a := range args {
				w = cat(w, vstr(a))
			}
		}
		b = cat(b, vstr(w))
	}
	b = cat(b, uv(uint64(len(pl.vouts))))
	for i, o := range pl.vouts {
		c := cat(pl.oasset(i), uv(o.Amount), []byte{1}, vstr(pl.progs[i]))
		b = cat(b, []byte{1}, vstr(c), []byte{0})
	}
	return b
}

// digests are the messages the chain verifies the signatures over.
func (pl *yPlan) digests() (d [][]byte) {
	var spends [][]byte
	mux := uv(uint64(len(pl.ins)))
	for _, in := range pl.ins {
		out := yEntry("output1", cat(in.id, in.asset, le64(in.amount), le64(in.pos), le64(1), vstr(in.prog)))
		sp := yEntry("spend1", out)
		spends = append(spends, sp)
		mux = cat(mux, sp, in.asset, le64(in.amount), le64(0))
	}
	muxID := yEntry("mux1", cat(mux, le64(1), []byte{1, 0x51}))
	hd := cat(le64(1), le64(pl.time), uv(uint64(len(pl.vouts))))
	for i, o := range pl.vouts {
		hd = cat(hd, yEntry("output1", cat(muxID, pl.oasset(i), le64(o.Amount), le64(uint64(i)), le64(1), vstr(pl.progs[i]))))
	}
	tx := yEntry("txheader", hd)
	for _, s := range spends {
		d = append(d, rSha3(cat(s, tx)))
	}
	return
}

func (t *T) yCreate(pl *yPlan) (string, error) {
	out := t.Call("bytom.Create", bytom.CreateEmptyRawTransaction, pl.vins, pl.vouts, pl.time, pl.test)
	return str(out, 0), errOf(out)
}

func (t *T) yVerify(tx string) bool {
	return t.Call("bytom.Verify", bytom.VerifyRawTransaction, tx)[0].(bool)
}

func yFlow(t *T) {
	maxIn := 4
	if t.own("C07", "C09") && t.P(2) {
		maxIn = 150
	}
	pl := t.yPlan(maxIn)
	t.Logf("bytom vins=%s vouts=%s time=%d test=%v", clip(dumpOf(pl.vins), 2000), clip(dumpOf(pl.vouts), 2000), pl.time, pl.test)
	tx, err := t.yCreate(pl)
	t.Check(err == nil, "bytom: a faithful request is refused: %v", err)
	t.Fp(tx)
	ref := hx(pl.ser())
	t.Check(tx == ref, "bytom: unsigned transaction\ngot  %s\nwant %s", tx, ref)
	shape := ""
	for i, in := range pl.ins {
		if i < 3 {
			if in.script == nil {
				shape += "key "
			} else {
				shape += string(rune('0'+min(len(in.use), 5))) + "of" + string(rune('0'+min(len(in.keys), 5))) + " "
			}
		}
	}
	t.Shape("%s outputs %d time %d", shape, min(len(pl.vouts), 4), min(len(uv(pl.time)), 9))
	if t.own("C07") {
		return
	}
	made := true
	if t.P(35) {
		made = false
		tx = t.yForeign(pl)
		t.Fp(tx)
	}
	out := t.Call("bytom.HashForSig", bytom.CreateRawTransactionHashForSig, tx, pl.test)
	if errOf(out) != nil && !made {
		t.Shape("a transaction made elsewhere is refused")
		return
	}
	t.Check(errOf(out) == nil, "bytom: digests of %s refused: %v", tx, errOf(out))
	var hs []yHash
	into(&hs, out[0])
	t.Check(len(hs) == len(pl.ins), "bytom: %d digests for %d inputs", len(hs), len(pl.ins))
	ds := pl.digests()
	for i, in := range pl.ins {
		t.Check(hs[i].Hash == hx(ds[i]), "bytom: digest of input %d is %s, want %x (tx %s)", i, hs[i].Hash, ds[i], tx)
		if in.script == nil {
			t.Check(hs[i].NRequired == 0 && hs[i].Normal != nil && hs[i].Normal.Address == rSegwit(pl.hrp(), 0, in.prog[2:]), "bytom: input %d of %s to be signed for %s", i, tx, dumpOf(hs[i]))
		} else {
			t.Check(hs[i].NRequired != 0, "bytom: script input %d of %s to be signed with one key: %s", i, tx, dumpOf(hs[i]))
		}
	}
	if t.own("C09") {
		return
	}
	own := t.Bool()
	for i, in := range pl.ins {
		sps := make([]ySP, len(in.keys))
		for _, k := range in.use {
			key := in.keys[k]
			sig := t.ext(key, ds[i])
			if own || t.own("C19") {
				out := t.CallR("bytom.Sign", bytom.SignRawTransactionHash, hs[i].Hash, t.spare(key.pri))
				t.Check(errOf(out) == nil, "bytom: signing refused: %v", errOf(out))
				var sp *ySP
				into(&sp, out[0])
				t.Check(sp != nil && bytes.Equal(sp.Pubkey, key.pub), "bytom: signing gives %s for key %x", dumpOf(sp), key.pub)
				t.Check(key.sigOK(ds[i], sp.Signature), "bytom: signature %x does not verify over %x with public key %x (private %x)", sp.Signature, ds[i], key.pub, key.pri)
				t.ev["twisted-curve signatures checked"]++
				sig = sp.Signature
			}
			in.sigs = append(in.sigs, sig)
			sps[k] = ySP{t.spare(sig), t.spare(key.pub)}
		}
		if in.script == nil {
			hs[i].Normal.SigPub = sps[0]
			continue
		}
		hs[i].NRequired, hs[i].Multi = t.yPad(hs[i], hx(in.script))
		t.Check(int(hs[i].NRequired) == len(in.use) && len(hs[i].Multi) == len(in.keys), "bytom: script %x read as %s", in.script, dumpOf(hs[i]))
		for j, k := range in.keys {
			t.Check(hs[i].Multi[j].Pubkey == hx(k.pub), "bytom: key %d of script %x read as %s", j, in.script, hs[i].Multi[j].Pubkey)
			hs[i].Multi[j].SigPub = sps[j]
		}
	}
	if t.own("C19") {
		h, k := hs[0].Hash, pl.ins[0].keys[0].pri
		switch t.Intn(6) {
		case 0:
			k = k[:31]
		case 1:
			k = append(append([]byte{}, k...), 0)
		case 2:
			k = nil
		case 3:
			h = h[:62]
		case 4:
			h += "00"
		case 5:
			h = "zz" + h[2:]
		}
		out := t.CallR("bytom.Sign", bytom.SignRawTransactionHash, h, k)
		t.Check(errOf(out) != nil, "bytom: signing %q with key %x is not refused", h, k)
	}
	out = t.Call("bytom.Insert", bytom.InsertSignatureIntoEmptyTransaction, tx, hs)
	t.Check(errOf(out) == nil, "bytom: inserting matching signatures is refused: %v (%s %s)", errOf(out), tx, dumpOf(hs))
	want := hx(pl.ser())
	t.Check(str(out, 0) == want, "bytom: combined transaction\ngot  %s\nwant %s", str(out, 0), want)
	t.Check(t.yVerify(want), "bytom: verification refuses %s", want)
	switch {
	case t.own("C20"):
		t.yDecode(pl, tx, want)
	case t.own("C13"):
		t.yForge(pl, tx, want, hs, ds)
	}
}

// yPad reads a script through the exported method.
func (t *T) yPad(h yHash, script string) (byte, []yMulti) {
	var th bytom.TxHash
	into(&th, h)
	out := t.Call("bytom.PadMultiSig", func(h bytom.TxHash, s string) (bytom.TxHash, error) {
		err := h.PadMultiSig(s)
		return h, err
	}, th, script)
	t.Check(errOf(out) == nil, "bytom: script %s refused: %v", script, errOf(out))
	var r yHash
	into(&r, out[0])
	return r.NRequired, r.Multi
}

type yTx struct {
	Version, TimeRange []byte
	Inputs             []struct {
		SourceID, SourcePosition, AssetID, Amount, ControlProgram []byte
		SigPub                                                    *ySP
		MultiSig                                                  []byte
	}
	Outputs []struct{ AssetID, ControlProgram, Amount []byte }
}

func (t *T) yDecode(pl *yPlan, tx, signed string) {
	for _, s := range []string{tx, signed} {
		raw := t.spare(unhex(s))
		out := t.Call("bytom.Decode", bytom.DecodeRawTransaction, raw)
		t.Check(errOf(out) == nil, "bytom: decoding %s: %v", s, errOf(out))
		var d yTx
		into(&d, out[0])
		ok := bytes.Equal(d.Version, uv(1)) && bytes.Equal(d.TimeRange, uv(pl.time)) && len(d.Inputs) == len(pl.ins) && len(d.Outputs) == len(pl.vouts)
		for i := 0; ok && i < len(d.Inputs); i++ {
			a, b := d.Inputs[i], pl.ins[i]
			ok = bytes.Equal(a.SourceID, b.id) && bytes.Equal(a.SourcePosition, uv(b.pos)) && bytes.Equal(a.AssetID, b.asset) && bytes.Equal(a.Amount, uv(b.amount)) && bytes.Equal(a.ControlProgram, b.prog)
			if ok && s == signed && b.script == nil {
				ok = a.SigPub != nil && bytes.Equal(a.SigPub.Signature, b.sigs[0]) && bytes.Equal(a.SigPub.Pubkey, b.keys[0].pub)
			} else if ok && s == signed {
				ok = a.SigPub == nil && bytes.HasSuffix(a.MultiSig, b.script)
			} else if ok {
				ok = a.SigPub == nil && len(a.MultiSig) == 0
			}
			got := t.gets("bytom.TxIn", reflect.ValueOf(out[0]).Elem().FieldByName("Inputs").Index(i), "GetSourceID", "GetSourcePosition", "GetAssetID", "GetAmount", "GetControlProgram")
			want := []interface{}{hx(b.id), b.pos, hx(b.asset), b.amount, hx(b.prog)}
			for j := range want {
				t.Check(!ok || got[j] == nil || got[j] == want[j], "bytom: input %d of %s: accessor %d answers %v, want %v", i, s, j, got[j], want[j])
			}
		}
		if got := t.gets("bytom.Transaction", reflect.ValueOf(out[0]), "GetTimeRange")[0]; ok && got != nil {
			t.Check(got == pl.time, "bytom: time range of %s is %v, want %d", s, got, pl.time)
		}
		for i := 0; ok && i < len(d.Outputs); i++ {
			a := d.Outputs[i]
			ok = bytes.Equal(a.AssetID, pl.oasset(i)) && bytes.Equal(a.Amount, uv(pl.vouts[i].Amount)) && bytes.HasSuffix(a.ControlProgram, pl.progs[i])
			got := t.gets("bytom.TxOut", reflect.ValueOf(out[0]).Elem().FieldByName("Outputs").Index(i), "GetAmount")[0]
			t.Check(!ok || got == nil || got == pl.vouts[i].Amount, "bytom: output %d of %s: amount %v, want %d", i, s, got, pl.vouts[i].Amount)
		}
		t.Check(ok, "bytom: decoding %s yields %s", s, dumpOf(out[0]))
		b := unhex(s)
		if t.Bool() {
			b = b[:t.Intn(len(b))]
		} else {
			b = append(b, t.Raw(1+t.Intn(4))...)
		}
		out = t.Call("bytom.Decode", bytom.DecodeRawTransaction, b)
		t.Check(errOf(out) != nil, "bytom: %x with missing or surplus bytes decodes (original %s)", b, s)
	}
}

func (t *T) yForge(pl *yPlan, tx, signed string, hs []yHash, ds [][]byte) {
	for n := 0; n < 4; n++ {
		i := t.Intn(len(pl.ins))
		q := *pl
		q.ins = nil
		for _, in := range pl.ins {
			c := *in
			c.sigs = append([][]byte{}, in.sigs...)
			c.keys = append([]*aKey{}, in.keys...)
			q.ins = append(q.ins, &c)
		}
		q.vouts = append([]lVout{}, pl.vouts...)
		in := q.ins[i]
		j := t.Intn(len(in.sigs))
		f := t.acKey("ed")
		what, alt := "", ""
		switch t.Intn(9) {
		case 0, 1, 2:
			what = "a changed byte"
			raw := unhex(signed)
			m := t.Mutate(raw)
			if len(m) == 0 || bytes.Equal(m, raw) {
				continue
			}
			alt = hx(m)
		case 3:
			what = "a changed field"
			switch t.Intn(6) {
			case 0:
				in.amount ^= 1 << t.Intn(63)
			case 1:
				in.pos ^= 1 << t.Intn(63)
			case 2:
				q.time ^= 1 << t.Intn(63)
			case 3:
				q.vouts[t.Intn(len(q.vouts))].Amount ^= 1 << t.Intn(63)
			case 4:
				in.id = t.flip(in.id)
			case 5:
				in.asset = t.flip(in.asset)
			}
		case 4:
			what = "a signature by a foreign key with its public key"
			in.sigs[j] = t.ext(f, ds[i])
			if in.script == nil {
				in.keys[0] = f
			}
		case 5:
			what = "a signature over another digest"
			in.sigs[j] = t.ext(in.keys[in.use[j]], t.B(32))
		case 6:
			what = "signatures missing, repeated or in the wrong order"
			if in.script == nil {
				in.sigs = nil
				break
			}
			switch t.Intn(3) {
			case 0:
				in.sigs = in.sigs[:len(in.sigs)-1]
			case 1:
				in.sigs = append(in.sigs, in.sigs[j])
			case 2:
				if len(in.sigs) < 2 || bytes.Equal(in.keys[in.use[0]].pub, in.keys[in.use[1]].pub) {
					continue
				}
				if t.Bool() {
					in.sigs[0] = in.sigs[1]
				} else {
					in.sigs[0], in.sigs[1] = in.sigs[1], in.sigs[0]
				}
			}
		case 7:
			if in.script == nil {
				continue
			}
			what = "a script that is not the spent one's"
			in.script = yScript(1, []*aKey{f})
			in.sigs = [][]byte{t.ext(f, ds[i])}
		case 8:
			if len(q.ins) < 2 {
				continue
			}
			what = "signatures of two inputs swapped"
			o := q.ins[(i+1)%len(q.ins)]
			in.sigs, o.sigs = o.sigs, in.sigs
			in.keys, o.keys = o.keys, in.keys
			in.script, o.script = o.script, in.script
		}
		if alt == "" {
			alt = hx(q.ser())
		}
		t.Shape("forged: %s", what)
		t.ev["forgeries presented"]++
		t.Check(!t.yVerify(alt), "bytom: verification accepts %s (input %d)\ntx       %s\noriginal %s", what, i, alt, signed)
	}
	// signature data that does not fit the transaction is not combined
	bad := append([]yHash{}, hs...)
	i := t.Intn(len(bad))
	what := ""
	switch t.Intn(4) {
	case 0:
		what = "one entry too many"
		bad = append(bad, bad[0])
	case 1:
		what = "one entry too few"
		bad = bad[:len(bad)-1]
	case 2:
		what = "no signature"
		if pl.ins[i].script == nil {
			bad[i].Normal = nil
			if t.Bool() {
				bad[i].Normal = &yNormal{}
			}
		} else {
			bad[i].Multi = append([]yMulti{}, bad[i].Multi...)
			bad[i].Multi[pl.ins[i].use[0]].SigPub.Signature = nil
		}
	case 3:
		if pl.ins[i].script == nil {
			return
		}
		what = "a script that is not the input's"
		f := t.acKey("ed")
		bad[i].NRequired, bad[i].Multi = 1, []yMulti{{hx(f.pub), ySP{t.ext(f, ds[i]), f.pub}}}
	}
	out := t.Call("bytom.Insert", bytom.InsertSignatureIntoEmptyTransaction, tx, bad)
	t.Check(errOf(out) != nil, "bytom: %s is combined into %s (%s %s)", what, str(out, 0), tx, dumpOf(bad))
}

func yRefuse(t *T) {
	pl := t.yPlan(3)
	i, o := t.Intn(len(pl.vins)), t.Intn(len(pl.vouts))
	what := ""
	switch t.Intn(9) {
	case 0:
		what = "an identifier of a wrong length"
		s := hx(t.B([]int{0, 1, 16, 31, 33, 64}[t.Intn(6)]))
		if t.Bool() {
			pl.vins[i].SourceID = s
		} else {
			pl.vins[i].AssetID = s
		}
	case 1:
		what = "text that is no hex"
		f := []*string{&pl.vins[i].SourceID, &pl.vins[i].AssetID, &pl.vins[i].ControlProgram}[t.Intn(3)]
		b := []byte(*f)
		b[t.Intn(len(b))] = "xyzg -"[t.Intn(6)]
		*f = string(b)
	case 2:
		what = "no inputs"
		pl.vins = nil
	case 3:
		what = "no outputs"
		pl.vouts = nil
	case 4:
		what = "a number beyond 63 bits"
		x := uint64(1)<<63 + t.U64()>>1
		*[]*uint64{&pl.vins[i].Amount, &pl.vins[i].SourcePosition, &pl.vouts[o].Amount, &pl.time}[t.Intn(4)] = x
	case 5:
		what = "a damaged address"
		m := t.MutateText(pl.vouts[o].Address)
		if strings.EqualFold(m, pl.vouts[o].Address) {
			t.trivial = true
			return
		}
		pl.vouts[o].Address = m
	case 6:
		what = "an address of another network"
		hrp := t.Str("bc", "tm", "bm", "bmx", "b", "bmm", "bm1", "sm")
		if hrp == pl.hrp() {
			hrp += "1"
		}
		pl.vouts[o].Address = rSegwit(hrp, 0, t.B([]int{20, 32}[t.Intn(2)]))
	case 7:
		what = "a payload of a wrong length or version"
		n := t.Intn(41)
		if n == 20 || n == 32 {
			n++
		}
		pl.vouts[o].Address = rSegwit(pl.hrp(), 0, t.B(n))
		if t.Bool() {
			pl.vouts[o].Address = rSegwit(pl.hrp(), byte(1+t.Intn(31)), t.B([]int{20, 32}[t.Intn(2)]))
		}
	case 8:
		what = "a control program of a wrong form"
		p := unhex(pl.vins[i].ControlProgram)
		switch t.Intn(4) {
		case 0:
			p = t.B(t.Intn(60))
			if len(p) == 22 || len(p) == 34 {
				p = p[1:]
			}
		case 1:
			p[0] = byte(1 + t.Intn(255))
		case 2:
			p[1] ^= byte(1 + t.Intn(255))
		case 3:
			p = p[:t.Intn(len(p))]
		}
		pl.vins[i].ControlProgram = hx(p)
	}
	t.Shape("%s", what)
	t.Fp(what, dumpOf(pl.vins), dumpOf(pl.vouts), pl.time)
	tx, err := t.yCreate(pl)
	t.Check(err != nil && tx == "", "bytom: a request with %s is not refused: %s (vins %s vouts %s time %d test %v)", what, tx, clip(dumpOf(pl.vins), 600), clip(dumpOf(pl.vouts), 600), pl.time, pl.test)
}

func yMultiSig(t *T) {
	n := t.Small(1, 16)
	if t.P(6) {
		n = 17 + t.Intn([]int{3, 300}[t.Intn(2)])
	}
	m := 1 + t.Intn(n)
	if t.P(15) {
		m = []int{0, n + 1, n + 2, 17, 255, 256 - n}[t.Intn(6)]
	}
	if m < 0 || m > 255 {
		m = 0
	}
	bad := m < 1 || m > n || n > 16
	var keys [][]byte
	twice := t.P(15)
	red := []byte{0xae}
	for i := 0; i < n; i++ {
		b := t.spare(t.B(32))
		if t.P(2) {
			b = t.B([]int{0, 1, 20, 31, 33, 64}[t.Intn(6)])
			bad = true
		}
		if i > 0 && twice && !bad && t.P(25) {
			b = keys[[]int{i - 1, 0, t.Intn(i)}[t.Intn(3)]]
		}
		keys = append(keys, b)
		red = cat(red, []byte{32}, b)
	}
	red = append(red, byte(0x50+m), byte(0x50+n), 0xad)
	test := t.Bool()
	hrp := "bm"
	if test {
		hrp = "tm"
	}
	t.Shape("refused=%v n=%d", bad, n)
	t.Fp(m, dumpOf(keys), test)
	out := t.Call("bytom.CreateMultiSig", bytom.CreateMultiSig, byte(m), keys, test)
	if bad {
		t.Check(errOf(out) != nil && str(out, 0) == "" && str(out, 1) == "", "bytom: %d of %d keys %x is not refused: %v", m, n, keys, out)
		return
	}
	t.Check(errOf(out) == nil, "bytom: %d of %d refused: %v (keys %x)", m, n, errOf(out), keys)
	t.Check(str(out, 1) == hx(red), "bytom: %d of %d script %s, want %x", m, n, str(out, 1), red)
	t.Check(str(out, 0) == rSegwit(hrp, 0, rSha3(red)), "bytom: multisig address %s, want %s", str(out, 0), rSegwit(hrp, 0, rSha3(red)))
	// and the script reads back
	r, mt := t.yPad(yHash{NRequired: 1}, hx(red))
	ok := int(r) == m && len(mt) == n
	for i := 0; ok && i < n; i++ {
		ok = mt[i].Pubkey == hx(keys[i])
	}
	t.Check(ok, "bytom: script %x reads back as %d of %s", red, r, dumpOf(mt))
	cut := t.Mutate(red)
	if bytes.Equal(cut, red) {
		return
	}
	var th bytom.TxHash
	if err := t.Call("bytom.PadMultiSig", func(h bytom.TxHash, s string) error { return h.PadMultiSig(s) }, th, hx(cut)); errOf(err) == nil {
		// then it must still be a script of that form
		k := (len(cut) - 4) / 33
		ok := len(cut) == 4+33*k && k > 0 && k < 17 && cut[0] == 0xae && cut[len(cut)-1] == 0xad && int(cut[len(cut)-2]) == 0x50+k && cut[len(cut)-3] > 0x50 && int(cut[len(cut)-3]) <= 0x50+k
		for i := 0; ok && i < k; i++ {
			ok = cut[1+33*i] == 32
		}
		t.Check(ok, "bytom: %x is taken for a multi-signature script", cut)
	}
}

func init() {
	regFlow("bytom", "bytomTransaction", map[string]int{"C07": 1500, "C09": 600, "C11": 400, "C13": 400, "C19": 300, "C20": 400}, yFlow)
	reg(&Suite{Prop: "C07", Name: "bytom-refuse", Pkg: "bytomTransaction", Quick: 1500, Run: yRefuse})
	reg(&Suite{Prop: "C15", Name: "bytom", Pkg: "bytomTransaction", Quick: 8000, Run: yMultiSig})
}
