//go:build go1.22

// Command zzverif is the runtime-monitoring harness for blocktree/go-owcdrivers.
// It drives the real public API of every package with PRNG-determined
// workloads and lets oracles (independent reference models, trace checkers and
// the Go race detector) judge every observed call.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- registry

// Suite is one workload+oracle over one part of the repository.
type Suite struct {
	Prop  string
	Name  string
	Pkg   string // package directory whose literals feed the generators
	Quick int    // cases at the quick tier
	Deep  int    // cases at the thorough tier
	Once  func(*Env)
	Run   func(*T)
	// Serial suites run alone on one goroutine (the suite spawns its own).
	Serial bool
}

var suites []*Suite

func reg(s *Suite) {
	if s.Deep == 0 {
		s.Deep = s.Quick * 15
	}
	suites = append(suites, s)
}

// PropInfo describes a check for its evidence file.
type PropInfo struct {
	Rule        string
	Assumptions []string
}

var propInfo = map[string]PropInfo{}

// ---------------------------------------------------------------- per-case context

type Env struct {
	mu       sync.Mutex
	events   map[string]int64
	shapes   map[string]int64
	distinct map[uint64]struct{}
	samples  []interface{}
	cases    int64
	calls    int64
	perSuite map[string]int64
}

func newEnv() *Env {
	return &Env{events: map[string]int64{}, shapes: map[string]int64{}, distinct: map[uint64]struct{}{}, perSuite: map[string]int64{}}
}

// T is the context of one case.
type T struct {
	*Gen
	suite    *Suite
	idx      int
	env      *Env
	ev       map[string]int64
	shapes   map[string]struct{}
	fp       uint64
	trivial  bool
	logs     []string
	api      string // API call in progress
	rec      *Recorder
	hist     *histLog
	highS    bool
	usedKeys map[string]bool
}

type failure struct {
	Prop, Suite, Key, Msg string
	Idx                   int
	Logs                  []string
}

type abortCase struct{ f *failure }

// Failf records a violation and ends the case.
func (t *T) Failf(format string, a ...interface{}) { t.FailKey("", format, a...) }

// FailKey is Failf with a key that the known-findings file can name.
func (t *T) FailKey(key, format string, a ...interface{}) {
	f := &failure{Prop: t.suite.Prop, Suite: t.suite.Name, Key: key, Msg: fmt.Sprintf(format, a...), Idx: t.idx, Logs: t.logs}
	panic(abortCase{f})
}

// Check fails the case unless ok.
func (t *T) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		t.FailKey("", format, a...)
	}
}

// Logf adds a line to the witness.
func (t *T) Logf(format string, a ...interface{}) {
	if len(t.logs) < 60 {
		t.logs = append(t.logs, clip(fmt.Sprintf(format, a...), 4000))
	}
}

// Shape records a distinct observed state/class.
func (t *T) Shape(format string, a ...interface{}) { t.shapes[fmt.Sprintf(format, a...)] = struct{}{} }

// Fp folds data into the fingerprint of the case (distinctness count).
func (t *T) Fp(a ...interface{}) {
	h := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], t.fp)
	h.Write(b[:])
	fmt.Fprint(h, a...)
	t.fp = h.Sum64()
}

// Do performs one observed API call; a panic inside is a violation of any
// property whose workload made a legitimate call.
func (t *T) Do(api string, f func()) {
	t.ev[api]++
	prev := t.api
	t.api = api
	defer func() {
		t.api = prev
		if r := recover(); r != nil {
			if a, ok := r.(abortCase); ok {
				panic(a)
			}
			t.Logf("stack: %s", trimStack(debug.Stack()))
			t.FailKey("", "%s panicked: %v", api, r)
		}
	}()
	f()
}

// Panics performs a call and reports whether it panicked (no verdict).
func (t *T) Panics(api string, f func()) (msg string) {
	t.ev[api]++
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	f()
	return ""
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		if strings.Contains(lines[i+1], "go-owcdrivers") || strings.Contains(lines[i+1], "/repo/") {
			if !strings.Contains(lines[i+1], "zzverif") {
				out = append(out, strings.TrimSpace(lines[i+1]))
			}
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " | ")
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		return nil
	}
	return b
}

// ---------------------------------------------------------------- runner

var (
	flagProp   = flag.String("prop", "", "property to check")
	flagSuite  = flag.String("suite", "", "only this suite")
	flagPkg    = flag.String("pkg", "", "only suites of this package")
	flagFirst  = flag.Bool("first", false, "with -child: stop at the first failure")
	flagIdx    = flag.Int("idx", -1, "only this case")
	flagTier   = flag.String("tier", "", "quick or thorough")
	flagRepo   = flag.String("repo", "/repo", "tree the literals are read from")
	flagOut    = flag.String("out", "", "verif directory")
	flagChild  = flag.Bool("child", false, "internal")
	flagReplay = flag.String("replay", "", "replay a recorded violation")
	flagList   = flag.Bool("list", false, "list suites")
	flagScale  = flag.Float64("scale", 1, "scale case counts")
	flagNoKF   = flag.Bool("all", false, "report listed findings as violations too")
	flagShow   = flag.Int("show", 5, "failures to print per suite")
	flagMany   = flag.Int("many", 5, "failures to print per suite")
)

const caseWatchdog = 150 * time.Second

func seedFor(seed int64, prop, suite string, idx int) int64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%s/%d", seed, prop, suite, idx)))
	return int64(binary.LittleEndian.Uint64(h[:8]) >> 1)
}

func runCase(s *Suite, seed int64, idx int, env *Env) (f *failure) {
	t := &T{suite: s, idx: idx, env: env, ev: map[string]int64{}, shapes: map[string]struct{}{}}
	t.Gen = newGen(seedFor(seed, s.Prop, s.Name, idx), s.Pkg, idx)
	t.fp = 14695981039346656037
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abortCase); ok {
				f = a.f
			} else {
				f = &failure{Prop: s.Prop, Suite: s.Name, Idx: idx, Logs: t.logs,
					Msg: fmt.Sprintf("the observed results could not be interpreted: %v (%s)", r, trimStackAll(debug.Stack()))}
			}
			f.Logs = t.logs
		}
		env.mu.Lock()
		env.cases++
		env.perSuite[s.Name]++
		for k, v := range t.ev {
			env.events[k] += v
			env.calls += v
		}
		for k := range t.shapes {
			env.shapes[s.Name+":"+k]++
		}
		if !t.trivial && t.fp != 14695981039346656037 {
			env.distinct[t.fp] = struct{}{}
		}
		if idx < 2 && len(env.samples) < 12 && len(t.logs) > 0 {
			n := len(t.logs)
			if n > 4 {
				n = 4
			}
			l := []string{}
			for _, x := range t.logs[:n] {
				l = append(l, clip(x, 300))
			}
			env.samples = append(env.samples, map[string]interface{}{"suite": s.Name, "case": idx, "observed": l})
		}
		env.mu.Unlock()
	}()
	s.Run(t)
	return nil
}

func trimStackAll(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") {
			out = append(out, l)
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " | ")
}

// lateReg registers suites that need the list of all flows.
var lateReg []func()

func main() {
	flag.Parse()
	for _, f := range lateReg {
		f()
	}
	if *flagHist != "" {
		histMain()
		return
	}
	tier := *flagTier
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			seed = n
		}
	}
	if *flagList {
		for _, s := range suites {
			fmt.Printf("%s %-28s quick=%d thorough=%d\n", s.Prop, s.Name, s.Quick, s.Deep)
		}
		return
	}
	if *flagReplay != "" {
		os.Exit(replay(*flagReplay))
	}
	if *flagChild {
		child(tier, seed)
		return
	}
	os.Exit(parent(tier, seed))
}

func selected() []*Suite {
	var out []*Suite
	for _, s := range suites {
		if (*flagProp == "" || s.Prop == *flagProp) && (*flagSuite == "" || s.Name == *flagSuite) && (*flagPkg == "" || s.Prop != "C18" && (s.Pkg == *flagPkg || strings.HasPrefix(s.Pkg, *flagPkg+"/"))) {
			out = append(out, s)
		}
	}
	return out
}

type report struct {
	Cases    int64
	Calls    int64
	Distinct int64
	Events   map[string]int64
	Shapes   map[string]int64
	PerSuite map[string]int64
	Samples  []interface{}
	Failures []*failure
}

// child runs the cases and writes a report file. Fatal runtime errors (races
// with halt_on_error, concurrent map access, out of memory, stack overflow)
// kill only this process; the parent turns them into a violation.
func child(tier string, seed int64) {
	if os.Getenv("ZZ_NOLIMIT") == "" {
		lim := syscall.Rlimit{Cur: 24 << 30, Max: 24 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	prog, _ := os.Create(os.Getenv("ZZ_PROGRESS"))
	env := newEnv()
	type job struct {
		s   *Suite
		idx int
	}
	var jobs []job
	var serial []job
	sel := selected()
	max := 0
	counts := map[*Suite]int{}
	for _, s := range sel {
		n := s.Quick
		if f := quickScale[s.Prop]; f > 0 && n > 1 {
			n = int(float64(n) * f)
		}
		if tier == "thorough" && n < s.Deep {
			n = s.Deep
		}
		n = int(float64(n) * *flagScale)
		if n < 1 {
			n = 1
		}
		counts[s] = n
		if n > max {
			max = n
		}
	}
	// longest first within an interleaved order, deterministic
	for _, s := range sel {
		for i := 0; i < counts[s]; i++ {
			if *flagIdx >= 0 && i != *flagIdx {
				continue
			}
			if s.Serial {
				serial = append(serial, job{s, i})
			} else {
				jobs = append(jobs, job{s, i})
			}
		}
		if *flagIdx >= counts[s] {
			jobs = append(jobs, job{s, *flagIdx})
		}
	}
	sort.SliceStable(jobs, func(a, b int) bool {
		return float64(jobs[a].idx)/float64(counts[jobs[a].s]+1) < float64(jobs[b].idx)/float64(counts[jobs[b].s]+1)
	})
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	var fails []*failure
	var fmu sync.Mutex
	failCount := map[string]int{}
	keyCount := map[string]int{}
	type slot struct {
		start int64
		name  atomic.Value
	}
	slots := make([]slot, workers+1)
	var next int64 = -1
	var wg sync.WaitGroup
	runOne := func(w int, j job) {
		fmu.Lock()
		skip := failCount[j.s.Name] >= *flagMany
		fmu.Unlock()
		if skip {
			return
		}
		slots[w].name.Store(fmt.Sprintf("%s/%d", j.s.Name, j.idx))
		atomic.StoreInt64(&slots[w].start, time.Now().UnixNano())
		if prog != nil {
			prog.WriteAt([]byte(fmt.Sprintf("%-120s\n", fmt.Sprintf("%s %s %d", j.s.Prop, j.s.Name, j.idx))), int64(w)*121)
		}
		f := runCase(j.s, seed, j.idx, env)
		if prog != nil {
			prog.WriteAt([]byte(fmt.Sprintf("%-120s\n", "-")), int64(w)*121)
		}
		atomic.StoreInt64(&slots[w].start, 0)
		if f != nil {
			if *flagFirst && f.Key == "" {
				fmt.Printf("FIRST %s %s/%d %s\n", j.s.Prop, j.s.Name, j.idx, f.Msg)
				os.Exit(1)
			}
			fmu.Lock()
			if f.Key == "" || keyCount[f.Key] < 3 {
				fails = append(fails, f)
			}
			if f.Key == "" {
				failCount[f.Suite]++
			} else {
				keyCount[f.Key]++
			}
			fmu.Unlock()
		}
	}
	go func() { // watchdog: a call that takes 4 orders of magnitude longer than any observed one
		for {
			time.Sleep(2 * time.Second)
			for i := range slots {
				st := atomic.LoadInt64(&slots[i].start)
				if st != 0 && time.Since(time.Unix(0, st)) > caseWatchdog && os.Getenv("ZZ_NOWATCH") == "" {
					fmt.Fprintf(os.Stderr, "ZZ-HANG %v\n", slots[i].name.Load())
					os.Exit(77)
				}
			}
		}
	}()
	for _, j := range serial {
		runOne(workers, j)
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := atomic.AddInt64(&next, 1)
				if i >= int64(len(jobs)) {
					return
				}
				runOne(w, jobs[i])
			}
		}(w)
	}
	wg.Wait()
	sort.Slice(fails, func(a, b int) bool {
		if fails[a].Suite != fails[b].Suite {
			return fails[a].Suite < fails[b].Suite
		}
		return fails[a].Idx < fails[b].Idx
	})
	rep := report{env.cases, env.calls, int64(len(env.distinct)), env.events, env.shapes, env.perSuite, env.samples, fails}
	b, _ := json.Marshal(rep)
	os.WriteFile(os.Getenv("ZZ_REPORT"), b, 0o644)
}

type finding struct{ prop, key, text string }

func loadFindings(dir string) []finding {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) == 3 {
			out = append(out, finding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return out
}

func parent(tier string, seed int64) int {
	start := time.Now()
	dir := *flagOut
	if dir == "" {
		dir = "/verif"
	}
	evdir := filepath.Join(dir, "evidence")
	os.MkdirAll(evdir, 0o755)
	tmp, err := os.MkdirTemp("", "zzverif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(tmp)
	repf := filepath.Join(tmp, "report.json")
	progf := filepath.Join(tmp, "progress")
	args := append([]string{"-child"}, os.Args[1:]...)
	cmd := exec.Command(os.Args[0], args...)
	stderr, _ := os.Create(filepath.Join(tmp, "stderr"))
	cmd.Stdout = stderr
	cmd.Stderr = stderr
	cmd.Env = append(os.Environ(), "ZZ_REPORT="+repf, "ZZ_PROGRESS="+progf, "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed))
	raceLog := ""
	if raceEnabled {
		raceLog = filepath.Join(tmp, "race")
		cmd.Env = append(cmd.Env, "ZZ_NOLIMIT=1", "GORACE=halt_on_error=0 exitcode=0 log_path="+raceLog)
	}
	runErr := cmd.Run()
	stderr.Close()
	var rep report
	b, rerr := os.ReadFile(repf)
	if rerr == nil {
		rerr = json.Unmarshal(b, &rep)
	}
	if rerr != nil || runErr != nil {
		// The process under observation died. Its last words decide.
		se, _ := os.ReadFile(filepath.Join(tmp, "stderr"))
		pr, _ := os.ReadFile(progf)
		var active []string
		for _, l := range strings.Split(string(pr), "\n") {
			l = strings.Trim(l, " \x00")
			if l != "" && l != "-" {
				active = append(active, l)
			}
		}
		tail := string(se)
		cause := "died"
		switch {
		case strings.Contains(tail, "ZZ-HANG"):
			cause = "did not return within " + caseWatchdog.String()
		case strings.Contains(tail, "out of memory") || strings.Contains(tail, "cannot allocate"):
			cause = "exhausted memory"
		case strings.Contains(tail, "stack overflow") || strings.Contains(tail, "goroutine stack exceeds"):
			cause = "overflowed the stack"
		case strings.Contains(tail, "concurrent map"):
			cause = "concurrent map access"
		}
		f := &failure{Prop: *flagProp, Suite: "process", Idx: -1, Msg: "the process running the library " + cause + "; cases in flight: " + strings.Join(active, "; "),
			Logs: []string{clip(tail, 6000)}}
		for _, a := range active {
			w := strings.Fields(a)
			if len(w) == 3 {
				f.Suite = w[1]
				f.Idx, _ = strconv.Atoi(w[2])
				break
			}
		}
		rep.Failures = append(rep.Failures, f)
	}
	races := 0
	if raceLog != "" {
		ms, _ := filepath.Glob(raceLog + "*")
		seen := map[string]bool{}
		for _, m := range ms {
			b, _ := os.ReadFile(m)
			for _, blk := range strings.Split(string(b), "==================") {
				if !strings.Contains(blk, "DATA RACE") {
					continue
				}
				races++
				sig := raceSig(blk)
				if seen[sig] {
					continue
				}
				seen[sig] = true
				rep.Failures = append(rep.Failures, &failure{Prop: *flagProp, Suite: "race", Idx: -1, Msg: "data race: " + sig, Logs: []string{clip(blk, 6000)}})
			}
		}
	}
	known := loadFindings(dir)
	var viol []*failure
	hit := map[string]bool{}
	for _, f := range rep.Failures {
		isKnown := false
		if f.Key != "" && !*flagNoKF {
			for _, k := range known {
				if k.prop == f.Prop && k.key == f.Key {
					isKnown = true
					if !hit[k.key] {
						hit[k.key] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.prop, k.text)
					}
				}
			}
		}
		if !isKnown {
			viol = append(viol, f)
		}
	}
	prop := *flagProp
	// evidence
	evs := map[string]int64{}
	for k, v := range rep.Events {
		evs[k] = v
	}
	cov := map[string]interface{}{
		"evaluations":         rep.Cases,
		"distinct_nontrivial": rep.Distinct,
		"rule":                propInfo[prop].Rule,
		"samples":             rep.Samples,
		"observed_calls":      rep.Calls,
		"calls_by_api":        evs,
		"cases_by_suite":      rep.PerSuite,
		"distinct_shapes":     len(rep.Shapes),
		"shapes":              topShapes(rep.Shapes, 400),
		"race_reports":        races,
	}
	if rep.Samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": propInfo[prop].Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if prop != "" && *flagSuite == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(evdir, prop+".json"), b, 0o644)
	}
	if len(viol) == 0 {
		if rep.Calls == 0 {
			fmt.Fprintln(os.Stderr, "inconclusive: no API call was observed")
			return 3
		}
		fmt.Printf("property %s held on %d cases (%d distinct), %d observed calls over %d entry points, %d shapes, %.1fs\n", prop, rep.Cases, rep.Distinct, rep.Calls, len(rep.Events), len(rep.Shapes), time.Since(start).Seconds())
		return 0
	}
	perSuite := map[string]int{}
	for i, f := range viol {
		rp := filepath.Join(evdir, fmt.Sprintf("replay-%s-%d.json", f.Prop, i))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": f.Prop, "suite": f.Suite, "case": f.Idx, "seed": seed, "tier": tier, "message": f.Msg, "witness": f.Logs, "key": f.Key}, "", " ")
		if i < 60 {
			os.WriteFile(rp, b, 0o644)
		}
		perSuite[f.Suite]++
		if perSuite[f.Suite] <= *flagShow {
			fmt.Printf("  [%s #%d] %s\n", f.Suite, f.Idx, clip(f.Msg, 1500))
			if os.Getenv("ZZ_V") != "" {
				for _, l := range f.Logs {
					fmt.Println("      " + l)
				}
			}
		}
		if i == 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, rp)
		}
	}
	return 1
}

func raceSig(blk string) string {
	var fr []string
	for _, l := range strings.Split(blk, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "go-owcdrivers/") && strings.HasSuffix(l, ")") && !strings.Contains(l, "zzverif") {
			i := strings.LastIndex(l, "/")
			fr = append(fr, strings.TrimSuffix(l[i+1:], "()"))
		}
	}
	if len(fr) > 4 {
		fr = fr[:4]
	}
	return strings.Join(fr, " / ")
}

func topShapes(m map[string]int64, n int) map[string]int64 {
	if len(m) <= n {
		return m
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := map[string]int64{}
	for i := 0; i < n; i++ {
		k := ks[i*len(ks)/n]
		out[k] = m[k]
	}
	return out
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var r struct {
		Property, Suite string
		Case            int
		Seed            int64
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, s := range suites {
		if s.Prop == r.Property && s.Name == r.Suite {
			f := runCase(s, r.Seed, r.Case, newEnv())
			if f != nil {
				fmt.Println(f.Msg)
				for _, l := range f.Logs {
					fmt.Println("   ", l)
				}
				fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
				return 1
			}
			fmt.Println("held")
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "suite not found")
	return 3
}

var _ = rand.Int

// quickScale multiplies the case counts of the quick tier: what the time allows.
var quickScale = map[string]float64{
	"C01": 3, "C02": 3, "C03": 1.5, "C04": 1.5, "C05": 3, "C06": 3, "C07": 3, "C08": 3, "C09": 3, "C10": 3,
	"C11": 2, "C12": 3, "C13": 2, "C14": 2, "C15": 4, "C16": 1.5, "C19": 2, "C20": 3, "C21": 3,
}
