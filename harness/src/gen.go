//go:build go1.22

package main

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"math/rand"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// Gen is the value generator of one case: a PRNG plus a dictionary of the
// literals that occur in the source of the package under observation, so that
// branches keyed on a particular number, length or text are reached.
type Gen struct {
	*rand.Rand
	dict *dict
	idx  int
}

type dict struct {
	ints  []uint64
	small []int // 0..1000
	strs  []string
}

var (
	dictMu sync.Mutex
	dicts  = map[string]*dict{}
)

func newGen(seed int64, pkg string, idx int) *Gen {
	return &Gen{Rand: rand.New(rand.NewSource(seed)), dict: dictFor(pkg), idx: idx}
}

func dictFor(pkg string) *dict {
	dictMu.Lock()
	defer dictMu.Unlock()
	if d, ok := dicts[pkg]; ok {
		return d
	}
	d := &dict{}
	dicts[pkg] = d
	if pkg == "" {
		return d
	}
	ints := map[uint64]bool{}
	strs := map[string]bool{}
	for _, p := range strings.Split(pkg, ",") {
		files, _ := filepath.Glob(filepath.Join(*flagRepo, p, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			fs := token.NewFileSet()
			af, err := parser.ParseFile(fs, f, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(af, func(n ast.Node) bool {
				if be, ok := n.(*ast.BinaryExpr); ok { // 1<<30 - 1
					if tv, err := types.Eval(fs, nil, token.NoPos, types.ExprString(be)); err == nil && tv.Value != nil {
						if v, ok := constant.Uint64Val(constant.ToInt(tv.Value)); ok {
							ints[v] = true
						}
					}
				}
				bl, ok := n.(*ast.BasicLit)
				if !ok {
					return true
				}
				switch bl.Kind {
				case token.INT:
					if b, ok := new(big.Int).SetString(strings.ReplaceAll(bl.Value, "_", ""), 0); ok && b.IsUint64() {
						ints[b.Uint64()] = true
					}
				case token.STRING:
					if s, err := strconv.Unquote(bl.Value); err == nil && len(s) <= 64 {
						strs[s] = true
					}
				case token.CHAR:
					if s, err := strconv.Unquote(bl.Value); err == nil {
						for _, r := range s {
							ints[uint64(r)] = true
						}
					}
				}
				return true
			})
		}
	}
	for v := range ints {
		d.ints = append(d.ints, v)
		if v <= 1000 {
			d.small = append(d.small, int(v))
		}
	}
	for s := range strs {
		d.strs = append(d.strs, s)
	}
	sort.Slice(d.ints, func(a, b int) bool { return d.ints[a] < d.ints[b] })
	sort.Ints(d.small)
	sort.Strings(d.strs)
	return d
}

// U64 is a boundary-heavy 64-bit value.
func (g *Gen) U64() uint64 {
	switch g.Intn(10) {
	case 0, 1:
		return uint64(g.Intn(300))
	case 2, 3, 4:
		v := uint64(1) << uint(g.Intn(64))
		switch g.Intn(3) {
		case 0:
			return v - 1
		case 1:
			return v
		}
		return v + uint64(g.Intn(3))
	case 5, 6:
		if len(g.dict.ints) > 0 {
			return g.dict.ints[g.Intn(len(g.dict.ints))] + uint64(g.Intn(3)) - 1
		}
	}
	return g.Uint64() >> uint(g.Intn(64))
}

// U64Max is U64 clamped into [lo,hi].
func (g *Gen) U64In(lo, hi uint64) uint64 {
	for i := 0; i < 8; i++ {
		v := g.U64()
		if v >= lo && v <= hi {
			return v
		}
	}
	if g.Intn(4) == 0 {
		return []uint64{lo, hi, lo + (hi-lo)/2}[g.Intn(3)]
	}
	span := hi - lo
	if span == ^uint64(0) {
		return g.Uint64()
	}
	return lo + g.Uint64()%(span+1)
}

func (g *Gen) U32() uint32 { return uint32(g.U64In(0, 1<<32-1)) }

// Len is a length in [lo,hi] that favours the package's own literals.
func (g *Gen) Len(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	switch g.Intn(6) {
	case 0:
		return lo
	case 1:
		return hi
	case 2, 3:
		for i := 0; i < 6 && len(g.dict.small) > 0; i++ {
			v := g.dict.small[g.Intn(len(g.dict.small))] + g.Intn(3) - 1
			if v >= lo && v <= hi {
				return v
			}
		}
	}
	return lo + g.Intn(hi-lo+1)
}

// Small is a skewed small count in [lo,hi].
func (g *Gen) Small(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	n := hi - lo + 1
	a := g.Intn(n)
	if b := g.Intn(n); b < a {
		a = b
	}
	return lo + a
}

// B is n bytes: mostly random, sometimes with runs of special values.
func (g *Gen) B(n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	if n == 0 {
		return b
	}
	switch g.Intn(12) {
	case 0: // leading zeros
		for i := 0; i < 1+g.Intn(min(n, 4)); i++ {
			b[i] = 0
		}
	case 1: // trailing zeros
		for i := 0; i < 1+g.Intn(min(n, 4)); i++ {
			b[n-1-i] = 0
		}
	case 2: // leading ff
		for i := 0; i < 1+g.Intn(min(n, 4)); i++ {
			b[i] = 0xff
		}
	case 3: // a dictionary byte somewhere
		if len(g.dict.small) > 0 {
			b[g.Intn(n)] = byte(g.dict.small[g.Intn(len(g.dict.small))])
		}
	case 4: // a dictionary byte in front
		if len(g.dict.small) > 0 {
			b[0] = byte(g.dict.small[g.Intn(len(g.dict.small))])
		}
	case 5:
		if g.Intn(3) == 0 {
			v := byte(g.Intn(256))
			for i := range b {
				b[i] = v
			}
		}
	case 6: // the high bit pattern
		b[0] |= 0x80
		b[n-1] |= 0x80
	case 7, 8: // a run of zeros (or ff) anywhere, often on the border of a block
		v := byte(0)
		if g.Intn(4) == 0 {
			v = 0xff
		}
		at := g.Intn(n)
		if g.Intn(2) == 0 {
			at = at &^ 7
		}
		l := 1 + g.Intn(min(n-at, 9))
		if g.Intn(4) == 0 {
			l = 1 + g.Intn(n-at)
		}
		for i := at; i < at+l; i++ {
			b[i] = v
		}
	}
	return b
}

// Raw is n plain random bytes.
func (g *Gen) Raw(n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	return b
}

func (g *Gen) Bool() bool { return g.Intn(2) == 0 }

func (g *Gen) P(percent int) bool { return g.Intn(100) < percent }

func (g *Gen) Str(opts ...string) string { return opts[g.Intn(len(opts))] }

// ASCII text, sometimes a literal of the package.
func (g *Gen) Text(n int) string {
	if g.Intn(8) == 0 && len(g.dict.strs) > 0 {
		return g.dict.strs[g.Intn(len(g.dict.strs))]
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + g.Intn(95))
	}
	return string(b)
}

// Mutate changes a byte string in one small way.
func (g *Gen) Mutate(b []byte) []byte {
	o := append([]byte{}, b...)
	if len(o) == 0 {
		return g.Raw(1 + g.Intn(4))
	}
	switch g.Intn(12) {
	case 0, 1, 2, 3:
		o[g.Intn(len(o))] ^= 1 << uint(g.Intn(8))
	case 4:
		o[g.Intn(len(o))] = byte(g.Intn(256))
	case 5:
		o = o[:g.Intn(len(o))]
	case 6:
		o = append(o, g.Raw(1+g.Intn(4))...)
	case 7:
		i := g.Intn(len(o))
		o = append(o[:i], o[i+1:]...)
	case 8:
		i := g.Intn(len(o) + 1)
		o = append(o[:i], append([]byte{byte(g.Intn(256))}, o[i:]...)...)
	case 9:
		o[g.Intn(len(o))] = []byte{0, 1, 0x7f, 0x80, 0xff, 0xfd, 0xfe}[g.Intn(7)]
	case 10:
		i, j := g.Intn(len(o)), g.Intn(len(o))
		o[i], o[j] = o[j], o[i]
	case 11:
		if len(g.dict.small) > 0 {
			o[g.Intn(len(o))] = byte(g.dict.small[g.Intn(len(g.dict.small))])
		} else {
			o[0] ^= 0xff
		}
	}
	return o
}

// MutateText changes a text in one small way, mostly within its alphabet.
func (g *Gen) MutateText(s string) string {
	if len(s) == 0 {
		return g.Text(1 + g.Intn(8))
	}
	o := []byte(s)
	alpha := s
	pick := func() byte {
		if g.Intn(4) == 0 {
			return byte(g.Intn(256))
		}
		return alpha[g.Intn(len(alpha))]
	}
	if g.Intn(25) == 0 { // characters that fold to ASCII letters
		u := s
		if g.Intn(2) == 0 {
			u = strings.ToUpper(s)
		}
		for _, r := range [][2]string{{"K", "\u212a"}, {"k", "\u212a"}, {"s", "\u017f"}, {"S", "\u017f"}} {
			if v := strings.Replace(u, r[0], r[1], 1); v != u {
				return v
			}
		}
	}
	if g.Intn(25) == 0 { // characters whose low byte or low half is the right one
		i := g.Intn(len(o))
		r := rune(o[i])
		if r < 0x80 {
			if g.Intn(2) == 0 {
				r += rune(1+g.Intn(200)) << 8
			} else {
				r += rune(1+g.Intn(15)) << 16
			}
			if utf8.ValidRune(r) {
				return s[:i] + string(r) + s[i+1:]
			}
		}
	}
	switch g.Intn(11) {
	case 0, 1, 2:
		o[g.Intn(len(o))] = pick()
	case 3:
		o = o[:g.Intn(len(o))]
	case 4:
		o = append(o, pick())
	case 5:
		i := g.Intn(len(o))
		o = append(o[:i], o[i+1:]...)
	case 6:
		i := g.Intn(len(o) + 1)
		o = append(o[:i], append([]byte{pick()}, o[i:]...)...)
	case 7:
		i, j := g.Intn(len(o)), g.Intn(len(o))
		o[i], o[j] = o[j], o[i]
	case 8:
		i := g.Intn(len(o))
		c := o[i]
		if c >= 'a' && c <= 'z' {
			o[i] = c - 32
		} else if c >= 'A' && c <= 'Z' {
			o[i] = c + 32
		} else {
			o[i] = pick()
		}
	case 9:
		i := g.Intn(len(o))
		o = o[i:]
	case 10:
		i := g.Intn(len(o))
		j := i + g.Intn(len(o)-i)
		o = append(append([]byte{}, o[:i]...), o[j:]...)
	}
	return string(o)
}
