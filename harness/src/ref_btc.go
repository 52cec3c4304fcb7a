//go:build go1.22

package main

// Reference model of Bitcoin-style transactions.

type rIn struct {
	txid   []byte // wire order
	vout   uint32
	seq    uint32
	script []byte
	wit    [][]byte
}

type rOut struct {
	amount uint64
	script []byte
}

type rTx struct {
	ver, lock uint32
	ins       []rIn
	outs      []rOut
}

func vint(n int) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return append([]byte{0xfd}, le16(uint16(n))...)
	}
	return append([]byte{0xfe}, le32(uint32(n))...)
}

func vbytes(b []byte) []byte { return append(vint(len(b)), b...) }

func (o rOut) ser() []byte { return cat(le64(o.amount), vbytes(o.script)) }

func (tx *rTx) ser(witness bool) []byte {
	b := le32(tx.ver)
	if witness {
		b = append(b, 0, 1)
	}
	b = append(b, vint(len(tx.ins))...)
	for _, in := range tx.ins {
		b = append(b, cat(in.txid, le32(in.vout), vbytes(in.script), le32(in.seq))...)
	}
	b = append(b, vint(len(tx.outs))...)
	for _, o := range tx.outs {
		b = append(b, o.ser()...)
	}
	if witness {
		for _, in := range tx.ins {
			b = append(b, vint(len(in.wit))...)
			for _, w := range in.wit {
				b = append(b, vbytes(w)...)
			}
		}
	}
	return append(b, le32(tx.lock)...)
}

// legacy is the pre-segwit SIGHASH_ALL digest.
func (tx *rTx) legacy(i int, code []byte, ht uint32) []byte {
	c := *tx
	c.ins = append([]rIn{}, tx.ins...)
	for j := range c.ins {
		c.ins[j].script = nil
		if j == i {
			c.ins[j].script = code
		}
	}
	return rDsha(append(c.ser(false), le32(ht)...))
}

// bip143 is the segwit / replay-protected SIGHASH_ALL digest.
func (tx *rTx) bip143(i int, code []byte, amount uint64, ht uint32) []byte {
	var po, sq, ou []byte
	for _, in := range tx.ins {
		po = append(po, cat(in.txid, le32(in.vout))...)
		sq = append(sq, le32(in.seq)...)
	}
	for _, o := range tx.outs {
		ou = append(ou, o.ser()...)
	}
	in := tx.ins[i]
	return rDsha(cat(le32(tx.ver), rDsha(po), rDsha(sq), in.txid, le32(in.vout), vbytes(code), le64(amount), le32(in.seq), rDsha(ou), le32(tx.lock), le32(ht)))
}

func sP2PKH(h []byte) []byte { return cat([]byte{0x76, 0xa9, 0x14}, h, []byte{0x88, 0xac}) }
func sP2SH(h []byte) []byte  { return cat([]byte{0xa9, 0x14}, h, []byte{0x87}) }
func sWit(p []byte) []byte   { return cat([]byte{0, byte(len(p))}, p) }

// sPush is the minimal script push of data.
func sPush(b []byte) []byte {
	switch {
	case len(b) < 0x4c:
		return append([]byte{byte(len(b))}, b...)
	case len(b) <= 0xff:
		return append([]byte{0x4c, byte(len(b))}, b...)
	}
	return cat([]byte{0x4d}, le16(uint16(len(b))), b)
}

func sMulti(m int, pubs [][]byte) []byte {
	b := []byte{0x50 + byte(m)}
	for _, p := range pubs {
		b = append(b, byte(len(p)))
		b = append(b, p...)
	}
	return append(b, 0x50+byte(len(pubs)), 0xae)
}
