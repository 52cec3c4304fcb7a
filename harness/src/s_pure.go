//go:build go1.22

package main

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	ae "github.com/blocktree/go-owcdrivers/addressEncoder"
	owk "github.com/blocktree/go-owcdrivers/owkeychain"
)

// ---------------------------------------------------------------- flows of the parts that are no drivers

func addrFlow(t *T) {
	s := t.pickAddr()
	p := t.payload(s)
	a := str(t.Call("AddressEncode", ae.AddressEncode, t.spare(p), s.typ), 0)
	t.Fp(a)
	out := t.Call("AddressDecode", ae.AddressDecode, a, s.typ)
	t.Check(errOf(out) == nil, "address %s does not decode: %v", a, errOf(out))
	t.Call("AddressDecode", ae.AddressDecode, t.corrupt(s, a), s.typ)
	k := t.spare(t.B([]int{33, 65, 32, 20}[t.Intn(4)]))
	t.Call("AddressEncode", ae.AddressEncode, k, s.typ)
	for i := 0; i < 3; i++ { // the same data under other types
		o := &addrSpecs[t.Intn(len(addrSpecs))]
		t.Call("AddressEncode", ae.AddressEncode, k, o.typ)
		t.Call("AddressDecode", ae.AddressDecode, a, o.typ)
	}
	name, alt := a, t.corrupt(s, a)
	for _, sym := range addrSymbols {
		if t.P(6) {
			t.Call("AddressCheck", ae.AddressCheck, name, sym)
			t.Call("AddressCheck", ae.AddressCheck, alt, sym)
		}
	}
}

func hdFlow(t *T) {
	c := t.hdCurve()
	seed := t.B(32)
	root := t.Call("InitRootKeyFromSeed", owk.InitRootKeyFromSeed, t.spare(seed), c.id)
	t.Check(errOf(root) == nil, "seed %x refused on %s: %v", seed, c.name, errOf(root))
	t.Fp(hx(seed), c.name)
	ix := t.hdIndex()
	path := pathOf([]uint32{ix, t.hdIndex()}, false)
	t.Call("DerivedPrivateKeyWithPath", owk.DerivedPrivateKeyWithPath, t.spare(seed), path, c.id)
	coin := owk.Bitcoin
	if t.Bool() {
		coin = owk.Ethereum
	}
	t.Call("DerivedPrivateKeyBytes", owk.DerivedPrivateKeyBytes, t.spare(seed), coin, ix)
	t.Call("GetCoinRootPublicKey", owk.GetCoinRootPublicKey, t.spare(seed), coin)
	k := root[0]
	ch := t.Call("GenPrivateChild", (*owk.ExtendedKey).GenPrivateChild, k, ix)
	if errOf(ch) == nil {
		k = ch[0]
	}
	t.Call("GetPrivateKeyBytes", (*owk.ExtendedKey).GetPrivateKeyBytes, k)
	t.Call("GetPublicKeyBytes", (*owk.ExtendedKey).GetPublicKeyBytes, k)
	t.Call("GetUncompressedPublicKeyBytes", (*owk.ExtendedKey).GetUncompressedPublicKeyBytes, k)
	for _, x := range []interface{}{k, t.Call("GetPublicKey", (*owk.ExtendedKey).GetPublicKey, k)[0]} {
		txt := str(t.Call("OWEncode", (*owk.ExtendedKey).OWEncode, x), 0)
		back := t.Call("OWDecode", owk.OWDecode, txt)
		if !strings.HasPrefix(c.name, "bls") { // recorded in DESIGN.md: text of BLS public keys
			t.Check(errOf(back) == nil, "extended key text %s does not decode: %v", txt, errOf(back))
		}
		t.Call("GenPublicChild", (*owk.ExtendedKey).GenPublicChild, x, ix&0x7fffffff)
		t.Call("DerivedPublicKeyFromPath", (*owk.ExtendedKey).DerivedPublicKeyFromPath, x, "m/"+t.Str("0/1", "3", "1'/2", "7/x"))
		t.Call("DerivedPublicKeyFromSerializes", (*owk.ExtendedKey).DerivedPublicKeyFromSerializes, x, ix&0x7fffffff)
		t.Call("OWDecode", owk.OWDecode, t.MutateText(txt))
	}
	txt := str(t.Call("Base58checkEncode", owk.Base58checkEncode, t.spare(t.B(t.Small(0, 80))), t.spare(t.B(t.Small(0, 4)))), 0)
	t.Call("Base58checkDecode", owk.Base58checkDecode, txt, t.spare(t.B(t.Small(0, 4))))
}

// record runs a flow and returns the calls it made.
func (t *T) record(f *Flow) []*Rec {
	old := t.rec
	t.rec = &Recorder{}
	defer func() { t.rec = old }()
	g := t.Gen
	t.Gen = newGen(t.Int63(), f.Pkg, t.idx)
	f.Run(t)
	t.Gen = g
	return t.rec.recs
}

func (t *T) flow() *Flow { return flows[t.Intn(len(flows))] }

// ---------------------------------------------------------------- C17

func pureCase(f *Flow) func(*T) {
	return func(t *T) {
		recs := t.record(f)
		if t.P(35) { // another part of the library in between
			recs = append(recs, t.record(t.flow())...)
		}
		t.Logf("%d calls recorded: %s", len(recs), apis(recs))
		order := t.Perm(len(recs))
		n := 0
		for _, i := range order {
			r := recs[i]
			if r.nondet && !t.P(30) {
				continue
			}
			t.again(r, r.args)
			n++
		}
		for _, r := range recs {
			if d := dumpAll(r.held, false); d != r.out {
				t.Failf("a later call changed what %s had returned:\nbefore %s\nafter  %s", r.api, clip(r.out, 1500), clip(d, 1500))
			}
			if d := dumpAll(r.args, true); d != r.before {
				t.Failf("a later call changed what had been passed to %s:\nbefore %s\nafter  %s", r.api, clip(r.before, 1500), clip(d, 1500))
			}
		}
		t.ev["calls repeated in another order"] += int64(n)
		// The caller may do as he likes with what he was given.
		var copies [][]reflect.Value
		for _, r := range recs {
			var c []reflect.Value
			for _, a := range r.args {
				c = append(c, deepCopy(a))
			}
			copies = append(copies, c)
		}
		for _, r := range recs {
			if plainArgs(r.args) {
				for _, h := range r.held {
					scribble(h, 0)
				}
			}
		}
		for i, r := range recs {
			if !r.nondet && plainArgs(r.args) {
				t.again(r, copies[i])
			}
		}
		t.trivial = len(recs) == 0
	}
}

func (t *T) again(r *Rec, args []reflect.Value) {
	q := *r
	q.args = args
	t.ev[r.api]++
	out, p := q.replay()
	if p != "" {
		t.Failf("repeating %s with the same arguments panicked: %s (%s)", r.api, p, clip(r.before, 1500))
	}
	if !r.nondet && out != r.out {
		t.Failf("repeating %s with equal arguments gives another result:\nargs  %s\nfirst %s\nthen  %s", r.api, clip(r.before, 1500), clip(r.out, 1500), clip(out, 1500))
	}
}

// plainArgs says that all arguments can be copied completely from outside.
func plainArgs(vs []reflect.Value) bool {
	for _, v := range vs {
		if !plainType(v.Type(), 0) {
			return false
		}
	}
	return true
}

func plainType(ty reflect.Type, d int) bool {
	if d > 8 {
		return false
	}
	switch ty.Kind() {
	case reflect.Struct:
		for i := 0; i < ty.NumField(); i++ {
			if ty.Field(i).PkgPath != "" || !plainType(ty.Field(i).Type, d+1) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return plainType(ty.Elem(), d+1)
	case reflect.Map, reflect.Interface, reflect.Func, reflect.Chan:
		return false
	}
	return true
}

// scribble overwrites the bytes and lists a result consists of.
func scribble(v reflect.Value, d int) {
	if d > 6 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem(), d+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if e.CanSet() {
				switch e.Kind() {
				case reflect.Uint8:
					e.SetUint(e.Uint() ^ 0x5a)
				case reflect.String:
					e.SetString("overwritten")
				default:
					scribble(e, d+1)
				}
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() && v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i), d+1)
			}
		}
	}
}

func apis(recs []*Rec) string {
	var s []string
	for _, r := range recs {
		s = append(s, r.api)
	}
	return clip(strings.Join(s, " "), 600)
}

// ---------------------------------------------------------------- C16

// malformed repeats recorded calls with malformed arguments.
func hostileCase(f *Flow) func(*T) {
	return func(t *T) {
		recs := t.record(f)
		if len(recs) == 0 {
			return
		}
		seen := map[string]int{}
		for n := 0; n < 40; n++ {
			r := recs[t.Intn(len(recs))]
			if !entryPoint(r.api) || seen[r.api] > 12 {
				continue
			}
			seen[r.api]++
			args := make([]reflect.Value, len(r.args))
			for i, a := range r.args {
				args[i] = deepCopy(a)
			}
			what := ""
			for k := t.Small(1, 3); k > 0; k-- {
				i := t.Intn(len(args))
				if fixedArg[r.api] == i+1 {
					continue
				}
				c := reflect.New(args[i].Type()).Elem()
				c.Set(args[i])
				if c.Kind() == reflect.Ptr && !c.IsNil() { // the receiver or a required object itself is there
					what += fmt.Sprintf("%d*%s ", i, t.mutateValue(c.Elem()))
				} else {
					what += fmt.Sprintf("%d:%s ", i, t.mutateValue(c))
				}
				args[i] = c
			}
			if what == "" {
				continue
			}
			desc := dumpAll(args, false)
			t.Fp(r.api, desc)
			t.Shape("%s %s", r.api, what)
			t.ev[r.api]++
			t.ev["malformed calls"]++
			start := time.Now()
			if msg := catch(func() { r.fn.Call(args) }); msg != "" {
				t.Failf("%s panicked on malformed input (%s): %s\nargs %s", r.api, what, msg, clip(desc, 3000))
			}
			if el := time.Since(start); el > 20*time.Second {
				t.Failf("%s took %v on malformed input (%s)\nargs %s", r.api, el, what, clip(desc, 3000))
			}
		}
	}
}

func catch(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%v at %s", r, trimStack(debug.Stack()))
		}
	}()
	f()
	return ""
}

// entryPoint says whether the property covers the call: decoding, parsing,
// verification, signing and what builds transactions from given texts. Encoders
// of raw bytes and constructors take what the program itself made.
func entryPoint(api string) bool {
	for _, x := range notEntry {
		if strings.HasSuffix(api, x) {
			return false
		}
	}
	return true
}

// fixedArg names arguments (counted from 1) that are configuration of the
// program, like an alphabet or an address format, and not outside data.
var fixedArg = map[string]int{
	"AddressEncode": 2, "AddressDecode": 2, "base32PolyMod.Decode": 2, "bech32.Decode": 2, "bech32m.Decode": 2,
	"bech32m.Bech32mDecode": 3,
}

var notEntry = []string{".Encode", ".Bech32Encode", "Bech32mEncode", "Eip55_encode", "Base64Encode", "Convertbits", "EncodeData", "DecodeData", "ExtendLEBytes", "EncodedLen"}

// ---------------------------------------------------------------- C18

// concurrentReplay repeats recorded calls from many goroutines on the same
// argument values and compares every result with the sequential one.
func concurrentReplay(t *T) {
	var recs []*Rec
	for n := 0; n < 3; n++ {
		f := flows[(t.idx*3+n)%len(flows)]
		recs = append(recs, t.record(f)...)
	}
	var use []*Rec
	for _, r := range recs {
		if out, p := r.replay(); p == "" && (r.nondet || out == r.out) {
			use = append(use, r)
		}
	}
	if len(use) == 0 {
		t.trivial = true
		return
	}
	workers := 6 + t.Intn(6)
	per := 10
	plan := make([][]int, workers)
	for w := range plan {
		for k := 0; k < per; k++ {
			i := t.Intn(len(use))
			if k%2 == 0 {
				i = (k / 2 * 7) % len(use) // the same calls at the same time
			}
			plan[w] = append(plan[w], i)
		}
	}
	t.Fp(apis(use), plan[0])
	t.Logf("%d goroutines over %s", workers, apis(use))
	var bad atomic.Value
	var wg sync.WaitGroup
	gate := make(chan struct{})
	var inFlight, maxFlight int64
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-gate
			for k, i := range plan[w] {
				r := use[i]
				n := atomic.AddInt64(&inFlight, 1)
				for {
					m := atomic.LoadInt64(&maxFlight)
					if n <= m || atomic.CompareAndSwapInt64(&maxFlight, m, n) {
						break
					}
				}
				out, p := r.replay()
				atomic.AddInt64(&inFlight, -1)
				if p != "" {
					bad.Store(fmt.Sprintf("%s panicked when called concurrently: %s", r.api, p))
				} else if !r.nondet && out != r.out {
					bad.Store(fmt.Sprintf("%s returned another result when called concurrently:\nargs  %s\nalone %s\nthen  %s", r.api, clip(r.before, 1500), clip(r.out, 1500), clip(out, 1500)))
				}
				if (k+w)%3 == 0 {
					runtime.Gosched()
				}
			}
		}(w)
	}
	close(gate)
	wg.Wait()
	t.ev["concurrent calls"] += int64(workers * per)
	t.Shape("calls in flight at once %d", maxFlight)
	if b := bad.Load(); b != nil {
		t.Failf("%s", b)
	}
	for _, r := range use {
		if d := dumpAll(r.args, true); d != r.before {
			t.Failf("concurrent calls changed the shared arguments of %s:\nbefore %s\nafter  %s", r.api, clip(r.before, 1500), clip(d, 1500))
		}
		if d := dumpAll(r.held, false); d != r.out {
			t.Failf("concurrent calls changed what %s had returned:\nbefore %s\nafter  %s", r.api, clip(r.out, 1500), clip(d, 1500))
		}
	}
}

// coldStart runs complete flows from many goroutines, each with arguments of
// its own; the first cases of a process meet every part of the library unused.
func coldStart(t *T) {
	type one struct {
		f *Flow
		t *T
	}
	var all []one
	for k := 0; k < 4; k++ {
		f := flows[(t.idx*4+k)%len(flows)] // a whole round meets every flow unused
		if t.idx*4 >= len(flows)*2 {
			f = t.flow()
		}
		for j := 0; j < 3; j++ {
			c := &T{suite: t.suite, idx: t.idx, env: t.env, ev: map[string]int64{}, shapes: map[string]struct{}{}, fp: t.fp}
			c.Gen = newGen(t.Int63(), f.Pkg, t.idx)
			all = append(all, one{f, c})
		}
	}
	gate := make(chan struct{})
	errs := make([]*failure, len(all))
	var wg sync.WaitGroup
	for i := range all {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if a, ok := r.(abortCase); ok {
						errs[i] = a.f
					} else {
						errs[i] = &failure{Prop: "C18", Msg: fmt.Sprintf("%v (%s)", r, trimStackAll(debug.Stack()))}
					}
				}
			}()
			<-gate
			all[i].f.Run(all[i].t)
		}(i)
	}
	close(gate)
	wg.Wait()
	var names []string
	for i, o := range all {
		for k, v := range o.t.ev {
			t.ev[k] += v
		}
		t.Fp(o.t.fp)
		if i%3 == 0 {
			names = append(names, o.f.Name)
		}
	}
	t.Logf("three goroutines each for %v", names)
	t.Shape("together: %v", names)
	for i, e := range errs {
		if e != nil {
			t.FailKey(e.Key, "%s, run concurrently: %s", all[i].f.Name, e.Msg)
		}
	}
}

func init() { lateReg = append(lateReg, regPure) }

func regPure() {
	regFlow("address", "addressEncoder", nil, addrFlow)
	regFlow("keychain", "owkeychain", nil, hdFlow)
	for _, f := range flows {
		n := 60
		if strings.HasPrefix(f.Name, "base58") || strings.HasPrefix(f.Name, "bech32") {
			n = 80
		}
		reg(&Suite{Prop: "C17", Name: "pure-" + f.Name, Pkg: f.Pkg, Quick: n, Run: pureCase(f)})
		reg(&Suite{Prop: "C17", Name: "history-" + f.Name, Pkg: f.Pkg, Quick: 2, Deep: 25, Run: historyCase(f)})
		reg(&Suite{Prop: "C16", Name: "hostile-" + f.Name, Pkg: f.Pkg, Quick: n, Run: hostileCase(f)})
		reg(&Suite{Prop: "C16", Name: "sweep-" + f.Name, Pkg: f.Pkg, Quick: 12, Run: sweepCase(f)})
	}
	reg(&Suite{Prop: "C18", Name: "cold-start", Quick: 45, Deep: 600, Serial: true, Run: coldStart})
	reg(&Suite{Prop: "C18", Name: "shared-arguments", Quick: 130, Deep: 1500, Serial: true, Run: concurrentReplay})
}

// sweepCase takes one text or byte string of one recorded call and walks through
// the small edits of it position by position: cut there, one byte more or less,
// and the byte values that lengths, counts and markers are made of.
func sweepCase(f *Flow) func(*T) {
	return func(t *T) {
		recs := t.record(f)
		other := t.record(t.flow())
		var use []*Rec
		for _, r := range recs {
			if entryPoint(r.api) {
				use = append(use, r)
			}
		}
		if len(use) == 0 {
			t.trivial = true
			return
		}
		// the call: a later one is more likely to take composed data
		r := use[t.Intn(len(use))]
		if x := use[t.Intn(len(use))]; x != r && len(x.before) > len(r.before) && t.P(70) {
			r = x
		}
		fresh := func() ([]reflect.Value, []reflect.Value) {
			args := make([]reflect.Value, len(r.args))
			var leaves []reflect.Value
			for i, a := range r.args {
				c := reflect.New(a.Type()).Elem()
				c.Set(deepCopy(a))
				args[i] = c
				if fixedArg[r.api] == i+1 {
					continue
				}
				eachLeaf(c, 0, func(l reflect.Value) {
					if l.Kind() == reflect.String || l.Kind() == reflect.Slice {
						leaves = append(leaves, l)
					}
				})
			}
			return args, leaves
		}
		_, ls := fresh()
		if len(ls) == 0 {
			t.trivial = true
			return
		}
		pick := t.Intn(len(ls))
		for k := 0; k < 2; k++ { // prefer long ones
			if j := t.Intn(len(ls)); ls[j].Len() > ls[pick].Len() {
				pick = j
			}
		}
		var orig []byte
		hexed := false
		if ls[pick].Kind() == reflect.Slice {
			orig = append([]byte{}, ls[pick].Bytes()...)
		} else if b, ok := tryHex(ls[pick].String()); ok && len(b) > 1 {
			orig, hexed = b, true
		} else {
			orig = []byte(ls[pick].String())
		}
		set := func(l reflect.Value, b []byte) {
			switch {
			case l.Kind() == reflect.Slice:
				l.SetBytes(b)
			case hexed:
				l.SetString(hx(b))
			default:
				l.SetString(string(b))
			}
		}
		type edit struct{ p, op int }
		var edits []edit
		for p := 0; p <= len(orig); p++ {
			for op := 0; op < 15; op++ {
				if p < len(orig) || op < 2 {
					edits = append(edits, edit{p, op})
				}
			}
		}
		t.Shuffle(len(edits), func(a, b int) { edits[a], edits[b] = edits[b], edits[a] })
		if len(edits) > 1500 {
			edits = edits[:1500]
		}
		t.Fp(r.api, pick, hx(orig))
		t.Shape("%s leaf %d of %d", r.api, pick, len(ls))
		// what other parts of the library exchange
		var foreign [][]byte
		for _, o := range other {
			for _, a := range o.args {
				c := reflect.New(a.Type()).Elem()
				c.Set(deepCopy(a))
				eachLeaf(c, 0, func(l reflect.Value) {
					if l.Kind() == reflect.Slice && l.Type().Elem().Kind() == reflect.Uint8 {
						foreign = append(foreign, l.Bytes())
					} else if l.Kind() == reflect.String {
						if b, ok := tryHex(l.String()); ok && hexed {
							foreign = append(foreign, b)
						} else if !hexed {
							foreign = append(foreign, []byte(l.String()))
						}
					}
				})
			}
		}
		if len(foreign) > 30 {
			foreign = foreign[:30]
		}
		start := time.Now()
		try := func(what string, b []byte) {
			args, leaves := fresh()
			set(leaves[pick], b)
			t.ev[r.api]++
			t.ev["malformed calls"]++
			s := time.Now()
			if msg := catch(func() { r.fn.Call(args) }); msg != "" {
				t.Failf("%s panicked on malformed input (%s): %s\nargs %s", r.api, what, msg, clip(dumpAll(args, false), 3000))
			}
			if el := time.Since(s); el > 20*time.Second {
				t.Failf("%s took %v on malformed input (%s)\nargs %s", r.api, el, what, clip(dumpAll(args, false), 3000))
			}
		}
		for i, b := range foreign {
			if time.Since(start) > 300*time.Millisecond && i > 10 {
				break
			}
			try("data of another kind", b)
		}
		done := 0
		for _, e := range edits {
			if time.Since(start) > 700*time.Millisecond && done > 150 {
				break
			}
			done++
			b := append([]byte{}, orig...)
			p := e.p
			switch e.op {
			case 0:
				b = b[:p]
			case 1:
				b = append(append(append([]byte{}, orig[:p]...), byte(t.Intn(256))), orig[p:]...)
			case 2:
				b = append(append([]byte{}, orig[:p]...), orig[p+1:]...)
			case 3:
				b[p]++
			case 4:
				b[p]--
			case 5:
				b[p] = 0
			case 6:
				b[p] = 0xff
			case 7:
				b[p] = []byte{0xfd, 0xfe, 0x4c, 0x4d, 0x4e, 0x80, 0x7f}[t.Intn(7)]
			case 8:
				b[p] = byte(t.Intn(256))
			case 9:
				b[p] -= byte(t.Small(2, 40))
			case 10:
				b[p] += byte(t.Small(2, 40))
			case 11:
				b = append(append([]byte{}, b[:p]...), 0)
			case 12: // cut, and the byte before set to what is left
				b = b[:p+1]
				b[p] = byte(t.Intn(256))
			case 13:
				b[p] ^= 1 << uint(t.Intn(8))
			case 14: // two bytes at once
				b[p] = byte(t.Small(0, 80))
				b[t.Intn(len(b))] = byte(t.Small(0, 80))
			}
			try(fmt.Sprintf("edit %d at %d", e.op, p), b)
		}
		t.ev["edits in place"] += int64(done)
		t.Logf("%s: %d edits of %s", r.api, done, clip(hx(orig), 200))
	}
}
