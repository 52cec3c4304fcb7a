//go:build go1.22

package main

import (
	"context"
	"crypto/rand"
	"encoding/json"
	"flag"
	"fmt"
	owk "github.com/blocktree/go-owcdrivers/owkeychain"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

// History independence (C17): the same calls are made in two fresh processes in
// opposite orders, each call surrounded by near variants of itself, the one
// time after it and the other time before it. What a call answers must depend
// on its arguments alone, so the two event logs are compared call by call. A
// cache under a key that leaves something out, a counter, state left behind by
// a call that failed and lazily built tables that depend on their first user
// all show up as a call with two answers.

var (
	flagHist     = flag.String("hist", "", "internal: flow whose event log is wanted")
	flagHistMode = flag.String("histmode", "", "internal: after or before")
	flagHistN    = flag.Int("histn", 6, "internal: runs of the flow")
	flagHistSeed = flag.Int64("histseed", 1, "internal")
)

type histEvent struct {
	API, Args, Out string
	Hash           string
}

type histLog struct {
	before bool
	events map[string]histEvent
	twice  []string
	calls  int

	incomparable int
}

// entropy is what the drivers draw their random bytes from while a history is
// recorded: a stream that depends on the call alone.
type entropy struct {
	key string
	n   int
	buf []byte
}

func (e *entropy) Read(b []byte) (int, error) {
	for i := range b {
		if len(e.buf) == 0 {
			e.buf = rSha256([]byte(fmt.Sprintf("%s/%d", e.key, e.n)))
			e.n++
		}
		b[i] = e.buf[0]
		e.buf = e.buf[1:]
	}
	return len(b), nil
}

func setEntropy(key string) { rand.Reader = &entropy{key: key} }

func deepCopyAll(in []reflect.Value) []reflect.Value {
	c := make([]reflect.Value, len(in))
	for i, a := range in {
		c[i] = reflect.New(a.Type()).Elem()
		c[i].Set(deepCopy(a))
	}
	return c
}

// withClockStopped runs f where time stands still; it does not return.
func withClockStopped(f func()) {
	testing.Init()
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "history", F: func(t *testing.T) {
		synctest.Test(t, func(*testing.T) { f() })
	}}}, nil, nil)
}

func (h *histLog) put(key, api, args, out string) {
	e := histEvent{API: api, Hash: hx(rSha256([]byte(out)))[:24], Args: clip(args, 600), Out: clip(out, 600)}
	h.calls++
	if old, ok := h.events[key]; ok {
		if old.Hash != e.Hash && len(h.twice) < 3 {
			h.twice = append(h.twice, fmt.Sprintf("%s\nargs  %s\nfirst %s\nthen  %s", api, e.Args, old.Out, e.Out))
		}
		return
	}
	h.events[key] = e
}

func histKey(api, args string) string { return hx(rSha256([]byte(api + "\x00" + args)))[:24] }

// histCall is the observed call of the history monitor.
func (t *T) histCall(api string, fv reflect.Value, in []reflect.Value, nondet bool) []reflect.Value {
	h := t.hist
	args := dumpAll(in, false)
	key := histKey(api, args)
	seed := int64(0)
	for _, c := range []byte(key[:15]) {
		seed = seed*16 + int64(strings.IndexByte("0123456789abcdef", c))
	}
	type variant struct{ in []reflect.Value }
	var vs []variant
	if entryPoint(api) {
		g := newGen(seed, t.suite.Pkg, 0)
		n := 3
		if !strings.Contains(api, "Sign") && !strings.Contains(api, "Verify") && !strings.Contains(api, "Combine") && !strings.Contains(api, "Child") {
			n = 16 // the cheap ones
		}
		leaf := g.Intn(1 << 20)
		for k := 0; k < n; k++ {
			c := make([]reflect.Value, len(in))
			for i, a := range in {
				x := reflect.New(a.Type()).Elem()
				x.Set(deepCopy(a))
				c[i] = x
			}
			i := g.Intn(len(c))
			if fixedArg[api] == i+1 {
				i = 0
			}
			if x, ok := c[0].Interface().(*owk.ExtendedKey); ok && k == 0 && x != nil && g.P(60) {
				// the same key on another curve
				if r, err := parseKey(x.OWEncode()); err == nil {
					o := hdCurves[g.Intn(len(hdCurves))]
					if r.priv || o.kind == r.cv.kind {
						r.cv = o
						c[0].Set(reflect.ValueOf(r.real()))
					}
				}
			} else if k%8 != 7 {
				g.nudge(c, leaf+k)
			} else {
				tgt := c[i]
				if tgt.Kind() == reflect.Ptr && !tgt.IsNil() {
					tgt = tgt.Elem()
				}
				g.mutateValue(tgt)
			}
			vs = append(vs, variant{c})
		}
	}
	if len(vs) > 0 {
		// What a cache keeps is decided by the call that comes first, and nearly
		// every variant has nearly everything right: so the one that leads has
		// one field, wherever it occurs, different, another field in each run.
		c := make([]reflect.Value, len(in))
		for i, a := range in {
			c[i] = reflect.New(a.Type()).Elem()
			c[i].Set(deepCopy(a))
		}
		newGen(seed+1, t.suite.Pkg, 0).nudgeField(c, t.idx+int(*flagHistSeed&0xffff))
		vs = append(vs, variant{c})
	}
	runVariants := func() {
		for i := range vs {
			v := vs[i]
			if h.before {
				v = vs[len(vs)-1-i]
			}
			d := dumpAll(v.in, false)
			vk := histKey(api, d)
			var out string
			setEntropy(vk)
			if catch(func() { out = dumpAll(fv.Call(deepCopyAll(v.in)), false) }) != "" {
				continue // judged by C16
			}
			if nondet {
				var again string
				setEntropy(vk)
				if catch(func() { again = dumpAll(fv.Call(v.in), false) }) != "" || again != out {
					continue
				}
			}
			h.put(vk, api, d, out)
		}
	}
	if h.before {
		runVariants()
	}
	comparable := !nondet
	if nondet {
		// the clock stands still and the entropy is fixed (histMain): what is
		// left is the same from call to call, or cannot be compared
		var o1, o2 string
		setEntropy(key)
		p := catch(func() { o1 = dumpAll(fv.Call(deepCopyAll(in)), false) })
		setEntropy(key)
		if p != "" || catch(func() { o2 = dumpAll(fv.Call(deepCopyAll(in)), false) }) != "" || o1 != o2 {
			h.incomparable++
		} else {
			comparable = true
		}
	}
	setEntropy(key)
	res := fv.Call(in)
	if comparable {
		h.put(key, api, args, dumpAll(res, false))
	}
	if !h.before {
		runVariants()
	}
	return res
}

// nudge changes one leaf, the pick-th in some order, as little as possible: near the end, at the same length.
func (g *Gen) nudge(vs []reflect.Value, pick int) {
	var leaves []reflect.Value
	for _, v := range vs {
		eachLeaf(v, 0, func(l reflect.Value) { leaves = append(leaves, l) })
	}
	if len(leaves) == 0 {
		return
	}
	g.nudgeLeaf(leaves[pick%len(leaves)])
}

// nudgeField nudges every occurrence of the pick-th field; texts and byte strings have two turns each.
func (g *Gen) nudgeField(vs []reflect.Value, pick int) {
	var order []string
	at := map[string][]reflect.Value{}
	var walk func(v reflect.Value, path string, d int)
	walk = func(v reflect.Value, path string, d int) {
		if d > 8 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem(), path, d+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Type().Field(i); f.PkgPath == "" {
					walk(v.Field(i), path+"."+f.Name, d+1)
				}
			}
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Array || v.Type().Elem().Kind() != reflect.Uint8 {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i), path, d+1)
				}
				return
			}
			fallthrough
		default:
			eachLeaf(v, d, func(l reflect.Value) {
				if len(at[path]) == 0 {
					order = append(order, path)
					if l.Kind() == reflect.String || l.Kind() == reflect.Slice {
						order = append(order, path)
					}
				}
				at[path] = append(at[path], l)
			})
		}
	}
	for i, v := range vs {
		walk(v, fmt.Sprint(i), 0)
	}
	if len(order) > 0 {
		for _, l := range at[order[pick%len(order)]] {
			g.nudgeLeaf(l)
		}
	}
}

// nudgeAt picks the place to change among n: the last, one near the end, or any.
func (g *Gen) nudgeAt(n int) int {
	switch g.Intn(3) {
	case 0:
		return n - 1
	case 1:
		return n - 1 - g.Intn((n+3)/4)
	}
	return g.Intn(n)
}

func (g *Gen) nudgeLeaf(l reflect.Value) {
	switch l.Kind() {
	case reflect.Bool:
		l.SetBool(!l.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		l.SetInt(l.Int() + 1)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		l.SetUint(l.Uint() + 1)
	case reflect.String:
		s := []byte(l.String())
		if len(s) > 0 {
			p := g.nudgeAt(len(s))
			const dg = "0123456789abcdef"
			if i := strings.IndexByte(dg, s[p]); i >= 0 {
				s[p] = dg[i^1]
			} else {
				s[p] ^= 1
			}
			l.SetString(string(s))
		}
	case reflect.Slice:
		b := append([]byte{}, l.Bytes()...)
		if len(b) > 0 {
			p := g.nudgeAt(len(b))
			b[p] ^= 1 << uint(g.Intn(8))
			l.SetBytes(b)
		}
	}
}

// eachLeaf visits the settable texts, byte strings and numbers of a value.
func eachLeaf(v reflect.Value, d int, f func(reflect.Value)) {
	if d > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			eachLeaf(v.Elem(), d+1, f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				eachLeaf(v.Field(i), d+1, f)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.CanSet() {
				f(v)
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			eachLeaf(v.Index(i), d+1, f)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			eachLeaf(v.Index(i), d+1, f)
		}
	case reflect.Bool, reflect.String,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			f(v)
		}
	}
}

type histReport struct {
	Events map[string]histEvent
	Twice  []string
	Calls  int
	Flows  int
}

// histMain is the process that produces one event log.
func histMain() {
	var f *Flow
	for _, x := range flows {
		if x.Name == *flagHist {
			f = x
		}
	}
	if f == nil {
		os.Exit(4)
	}
	h := &histLog{before: *flagHistMode == "before", events: map[string]histEvent{}}
	rep := histReport{}
	out := os.Stdout
	if nul, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = nul // some of the drivers print
	}
	withClockStopped(func() {
		for k := 0; k < *flagHistN; k++ {
			i := k
			if h.before {
				i = *flagHistN - 1 - k
			}
			t := &T{suite: &Suite{Prop: "C17", Name: "history-" + f.Name, Pkg: f.Pkg}, idx: i, env: newEnv(), ev: map[string]int64{}, shapes: map[string]struct{}{}}
			t.Gen = newGen(seedFor(*flagHistSeed, "C17", "history-"+f.Name, i), f.Pkg, i)
			t.hist = h
			catch(func() { f.Run(t) })
			rep.Flows++
		}
		rep.Events, rep.Twice, rep.Calls = h.events, h.twice, h.calls
		json.NewEncoder(out).Encode(rep)
		os.Exit(0)
	})
}

func historyCase(f *Flow) func(*T) {
	return func(t *T) {
		exe, err := os.Executable()
		if err != nil {
			panic(err)
		}
		seed := t.Int63()
		n := 12 + t.Intn(5)
		run := func(mode string) (rep histReport) {
			ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, exe, "-hist", f.Name, "-histmode", mode, "-histn", fmt.Sprint(n), "-histseed", fmt.Sprint(seed))
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GODEBUG=asynctimerchan=0")
			var eb strings.Builder
			cmd.Stderr = &eb
			out, err := cmd.Output()
			if err != nil {
				t.Failf("the process that called %s with calls %s died: %v %s", f.Name, mode, err, clip(eb.String(), 3000))
			}
			if json.Unmarshal(out, &rep) != nil {
				t.Failf("no event log from the process that called %s: %s", f.Name, clip(string(out), 300))
			}
			return
		}
		a, b := run("after"), run("before")
		for _, r := range [][]string{a.Twice, b.Twice} {
			if len(r) > 0 {
				t.Failf("equal arguments, another answer within one process: %s", r[0])
			}
		}
		var keys []string
		for k := range a.Events {
			if _, ok := b.Events[k]; ok {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		t.Logf("%d and %d calls in two processes, %d with equal arguments", a.Calls, b.Calls, len(keys))
		for _, k := range keys {
			x, y := a.Events[k], b.Events[k]
			t.ev[x.API]++
			if x.Hash != y.Hash {
				t.Failf("%s answers according to what was called before it:\nargs %s\nafter other calls %s\nafter near variants of itself %s", x.API, x.Args, x.Out, y.Out)
			}
		}
		t.ev["calls compared between two histories"] += int64(len(keys))
		t.Fp(f.Name, seed, len(keys))
		t.trivial = len(keys) == 0
	}
}
