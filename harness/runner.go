package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"pgregory.net/rapid"
	"runtime"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

const (
	exitOK       = 0
	exitViol     = 1
	exitHarness  = 3
	exitHang     = 7
	exitMem      = 8
	caseCPULimit = 20 * time.Second // in a worker
	confirmCPU   = 75 * time.Second // in the fresh process that confirms
	memLimit     = 3 << 30
)

func setRapid(seed uint64, checks int, shrink time.Duration, noShrink bool) {
	if seed == 0 {
		seed = 0x9e3779b97f4a7c15
	}
	if noShrink {
		shrink = 0
	}
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.checks", strconv.Itoa(checks))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", shrink.String())
}

// ---------------------------------------------------------------------------
// Watchdog: CPU time, not wall-clock, so a busy machine cannot trip it.
// ---------------------------------------------------------------------------

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var cpuLimit = caseCPULimit

func armWatchdog() {
	watchMu.Lock()
	watchOn, watchCPU = true, cpuTime()
	watchMu.Unlock()
}

func disarmWatchdog() {
	watchMu.Lock()
	watchOn = false
	watchMu.Unlock()
}

func startWatchdog() {
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			watchMu.Lock()
			on, since := watchOn, watchCPU
			watchMu.Unlock()
			if !on {
				continue
			}
			if cpuTime()-since > cpuLimit {
				fmt.Fprintln(os.Stderr, "watchdog: CPU budget of one case exhausted")
				os.Exit(exitHang)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > memLimit {
				fmt.Fprintln(os.Stderr, "watchdog: memory budget of one case exhausted")
				os.Exit(exitMem)
			}
		}
	}()
}

// ---------------------------------------------------------------------------
// Known findings
// ---------------------------------------------------------------------------

type knownFinding struct {
	Property string
	Facet    string
	What     string
	Case     json.RawMessage
}

type knownSet struct {
	list []knownFinding
	hash map[string]bool
}

func (k *knownSet) has(p, f string, raw []byte) bool {
	return k.hash[p+"\x00"+f+"\x00"+string(raw)]
}

// loadKnown reads lines
//
//	finding: property=<id> facet=<name> what=<text> case=<json>
//	fixed: property=<id> <commit> <what failed>
//
// "fixed" lines are a record and suppress nothing.
func loadKnown(path string) (*knownSet, error) {
	k := &knownSet{hash: map[string]bool{}}
	fh, err := os.Open(path)
	if os.IsNotExist(err) {
		return k, nil
	} else if err != nil {
		return nil, err
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		i := strings.Index(line, " case=")
		if i < 0 {
			return nil, fmt.Errorf("bad finding line: %s", line)
		}
		head, cs := line[len("finding: "):i], line[i+len(" case="):]
		var f knownFinding
		j := strings.Index(head, " what=")
		if j < 0 {
			return nil, fmt.Errorf("bad finding line: %s", line)
		}
		f.What = head[j+len(" what="):]
		for _, w := range strings.Fields(head[:j]) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				f.Property = v
			}
			if v, ok := strings.CutPrefix(w, "facet="); ok {
				f.Facet = v
			}
		}
		f.Case = json.RawMessage(cs)
		if !json.Valid(f.Case) {
			return nil, fmt.Errorf("bad case in finding line: %s", line)
		}
		k.list = append(k.list, f)
		k.hash[f.Property+"\x00"+f.Facet+"\x00"+cs] = true
	}
	return k, sc.Err()
}

// ---------------------------------------------------------------------------
// Parent
// ---------------------------------------------------------------------------

type job struct {
	f       *facet
	shard   int
	seed    uint64
	checks  int
	dir     string
	attempt int
}

type jobResult struct {
	j     job
	rep   workerReport
	viols []replayFile
	errs  []string
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	z := x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func selfExe() string {
	e, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return e
}

// exeFor is this binary, or the one with the race detector in it.
func exeFor(f *facet) string {
	if e := os.Getenv("VERIF_RACE"); f != nil && f.race && e != "" {
		return e
	}
	return selfExe()
}

func exeForReplay(path string) string {
	var rf replayFile
	if b, err := os.ReadFile(path); err == nil {
		json.Unmarshal(b, &rf)
	}
	return exeFor(findFacet(rf.Property, rf.Facet))
}

// childEnv makes every child run the same way whatever the caller's
// environment is.
func childEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch strings.ToUpper(k) {
		case "GODEBUG", "GORACE", "GOTRACEBACK", "GOMAXPROCS", "GOMEMLIMIT", "GOGC", "TZ", "HTTP_PROXY", "HTTPS_PROXY", "NO_PROXY", "ALL_PROXY":
			continue
		}
		if strings.HasPrefix(k, "RAPID_") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOMAXPROCS=2", "GOGC=200", "TZ=UTC", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=2")
}

func runJob(p *property, j job, tmp string, shrink time.Duration) jobResult {
	res := jobResult{j: j}
	cur := filepath.Join(j.dir, "current.json")
	out := filepath.Join(j.dir, "out.json")
	os.Remove(cur)
	os.Remove(out)
	cmd := exec.Command(exeFor(j.f), "worker", p.id, j.f.name, strconv.FormatUint(j.seed, 10), strconv.Itoa(j.checks), cur, out, shrink.String())
	cmd.Env = childEnv()
	cmd.Dir = j.dir
	var stderr limitedBuf
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	runErr := cmd.Run()
	if b, err := os.ReadFile(out); err == nil {
		if err := json.Unmarshal(b, &res.rep); err != nil {
			res.errs = append(res.errs, "unreadable worker report: "+err.Error())
			return res
		}
	}
	if res.rep.HarnessErr != "" {
		res.errs = append(res.errs, res.rep.HarnessErr)
	}
	if res.rep.Violation != nil {
		res.viols = append(res.viols, *res.rep.Violation)
		return res
	}
	if res.rep.Done && runErr == nil {
		return res
	}
	if res.rep.HarnessErr != "" {
		return res
	}
	// The worker died. Attribute it to the case it had written down, but only
	// if a fresh process with a more generous budget dies on it too.
	raw, err := os.ReadFile(cur)
	if err != nil {
		res.errs = append(res.errs, fmt.Sprintf("worker died (%v) with no case recorded: %s", runErr, stderr.String()))
		return res
	}
	rf := replayFile{Property: p.id, Facet: j.f.name, Case: raw}
	rp := filepath.Join(j.dir, "crash.json")
	writeJSON(rp, rf)
	code, txt := replayChild(rp, j.dir)
	switch code {
	case exitOK:
		// A slow case, not an endless one: do the job over with other cases.
		if strings.Contains(stderr.String(), "watchdog:") && j.attempt < 3 {
			j.attempt++
			j.seed = splitmix(j.seed)
			again := runJob(p, j, tmp, shrink)
			again.rep.Inconclusive++
			if again.rep.InconWhy == nil {
				again.rep.InconWhy = map[string]int{}
			}
			again.rep.InconWhy["a case over the CPU or memory budget that finishes with a larger one; shard done over with another seed"]++
			return again
		}
		res.errs = append(res.errs, fmt.Sprintf("worker died (%v) but the case it was on passes in a fresh process (case %s): %s", runErr, raw, stderr.String()))
	case exitViol:
		rf.What = firstLine(txt, 400)
		res.viols = append(res.viols, rf)
	case exitHang:
		rf.What = fmt.Sprintf("does not terminate: more than %s of CPU time on this one case", confirmCPU)
		res.viols = append(res.viols, rf)
	case exitMem:
		rf.What = fmt.Sprintf("exhausts memory: more than %d bytes on this one case", memLimit)
		res.viols = append(res.viols, rf)
	case 2:
		rf.What = "process crash: " + firstLine(txt, 300)
		res.viols = append(res.viols, rf)
	default:
		res.errs = append(res.errs, fmt.Sprintf("worker died (%v); replay exit %d: %s", runErr, code, txt))
	}
	return res
}

type limitedBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.b) < 4000 {
		l.b = append(l.b, p[:min(len(p), 4000-len(l.b))]...)
	}
	return len(p), nil
}
func (l *limitedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return string(l.b) }

func replayChild(path, dir string) (int, string) {
	cmd := exec.Command(exeForReplay(path), "replay-inner", path)
	cmd.Env = childEnv()
	cmd.Dir = dir
	var o limitedBuf
	cmd.Stdout, cmd.Stderr = &o, &o
	err := cmd.Run()
	if err == nil {
		return 0, o.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), o.String()
	}
	return exitHarness, err.Error()
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(harnessError{err.Error()})
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		panic(harnessError{err.Error()})
	}
}

func findFacet(pid, name string) *facet {
	p := registryOrder[pid]
	if p == nil {
		return nil
	}
	for _, f := range p.facets {
		if f.name == name {
			return f
		}
	}
	return nil
}

// replayInner decides one saved case, bypassing the property library.
func replayInner(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	f := findFacet(rf.Property, rf.Facet)
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such facet", rf.Property, rf.Facet)
		return exitHarness
	}
	cpuLimit = confirmCPU
	startWatchdog()
	// compact: the case is decided byte for byte as the search decided it
	var compact json.RawMessage
	if c, err := compactJSON(rf.Case); err == nil {
		compact = c
	} else {
		compact = rf.Case
	}
	for i := 0; i < f.replayTries; i++ {
		armWatchdog()
		res := decideSafely(f, compact)
		disarmWatchdog()
		if res.Viol != "" {
			fmt.Println(res.Viol)
			return exitViol
		}
	}
	return exitOK
}

func compactJSON(b []byte) ([]byte, error) {
	var o bytes.Buffer
	if err := json.Compact(&o, b); err != nil {
		return nil, err
	}
	return o.Bytes(), nil
}

func runCheck(root, pid, tier string, seed int64) int {
	start := time.Now()
	p := registryOrder[pid]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", pid)
		return exitHarness
	}
	known, err := loadKnown(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	tmp, err := os.MkdirTemp("", "verif-"+pid+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	defer os.RemoveAll(tmp)
	if os.Geteuid() == 0 {
		os.Chmod(tmp, 0o755)
	}

	scale := 1.0
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		scale, _ = strconv.ParseFloat(s, 64)
	}
	shrink := 6 * time.Second
	if tier == "thorough" {
		shrink = 30 * time.Second
	}

	var viols []replayFile
	var errs []string
	knownN := 0
	// 1. listed findings: reported, not raised
	for i, k := range known.list {
		if k.Property != pid {
			continue
		}
		rp := filepath.Join(tmp, fmt.Sprintf("known%d.json", i))
		writeJSON(rp, replayFile{Property: k.Property, Facet: k.Facet, What: k.What, Case: k.Case})
		code, txt := replayChild(rp, tmp)
		switch code {
		case exitViol, exitHang, exitMem, 2:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", pid, k.What)
			knownN++
		case exitOK:
			fmt.Printf("note: listed finding no longer fails: property=%s %s\n", pid, k.What)
		default:
			errs = append(errs, "replaying a listed finding: "+txt)
		}
	}
	// 2. saved regressions: shrunk counterexamples of repaired defects and of
	// planted bugs, decided directly
	regN := 0
	regs, _ := filepath.Glob(filepath.Join(root, "regressions", pid, "*.json"))
	for _, r := range regs {
		b, err := os.ReadFile(r)
		if err != nil {
			errs = append(errs, err.Error())
			continue
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			errs = append(errs, r+": "+err.Error())
			continue
		}
		code, txt := replayChild(r, tmp)
		regN++
		switch code {
		case exitOK:
		case exitViol, exitHang, exitMem, 2:
			rf.What = firstLine(txt, 400)
			viols = append(viols, rf)
		default:
			errs = append(errs, fmt.Sprintf("replaying %s: exit %d %s", r, code, txt))
		}
	}

	// 3. search
	var jobs []job
	for fi, f := range p.facets {
		if only := os.Getenv("VERIF_FACET"); only != "" && only != f.name {
			continue
		}
		if f.quick == 0 && os.Getenv("VERIF_FACET") == "" {
			continue // replay only
		}
		n := f.quick
		if tier == "thorough" {
			n = f.thor
		}
		n = int(float64(n) * scale)
		if n < 1 {
			n = 1
		}
		sh := f.shards
		if sh < 1 {
			sh = 1
		}
		if tier == "thorough" && sh > 1 {
			sh = 8
		}
		for s := 0; s < sh; s++ {
			d := filepath.Join(tmp, fmt.Sprintf("f%d-%d", fi, s))
			os.MkdirAll(d, 0o755)
			per := (n + sh - 1) / sh
			sd := splitmix(splitmix(uint64(seed)) ^ splitmix(uint64(fi)*1000003+uint64(s)+fnv64([]byte(pid+"/"+f.name))))
			jobs = append(jobs, job{f: f, shard: s, seed: sd, checks: per, dir: d})
		}
	}
	results := make([]jobResult, len(jobs))
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			defer func() {
				if p := recover(); p != nil {
					results[i].errs = append(results[i].errs, fmt.Sprint(p))
				}
			}()
			results[i] = runJob(p, jobs[i], tmp, shrink)
		}(i)
	}
	wg.Wait()

	ev := map[string]any{}
	evals, cases, incon, excl := 0, 0, 0, 0
	labels := map[string]map[string]int{}
	why := map[string]int{}
	distinct := map[uint64]bool{}
	perFacet := map[string]map[string]int{}
	var samples []any
	nSamples := map[string]int{}
	for _, r := range results {
		if r.j.f == nil {
			errs = append(errs, r.errs...)
			continue
		}
		fn := r.j.f.name
		evals += r.rep.Evals
		cases += r.rep.Cases
		incon += r.rep.Inconclusive
		excl += r.rep.Excluded
		if perFacet[fn] == nil {
			perFacet[fn] = map[string]int{}
			labels[fn] = map[string]int{}
		}
		perFacet[fn]["cases"] += r.rep.Cases
		perFacet[fn]["evaluations"] += r.rep.Evals
		perFacet[fn]["nontrivial"] += r.rep.Nontrivial
		perFacet[fn]["inconclusive"] += r.rep.Inconclusive
		for k, v := range r.rep.InconWhy {
			why[fn+": "+k] += v
		}
		for _, h := range r.rep.Hashes {
			distinct[h^fnv64([]byte(fn))] = true
		}
		for k, v := range r.rep.Labels {
			labels[fn][k] += v
		}
		for _, s := range r.rep.Samples {
			if nSamples[fn] < 3 {
				nSamples[fn]++
				samples = append(samples, map[string]any{"facet": fn, "case": s})
			}
		}
		viols = append(viols, r.viols...)
		errs = append(errs, r.errs...)
	}
	rules := []string{}
	for _, f := range p.facets {
		rules = append(rules, f.name+": "+f.rule)
	}
	cov := map[string]any{
		"evaluations":              evals,
		"distinct_nontrivial":      len(distinct),
		"rule":                     strings.Join(rules, " | "),
		"samples":                  samples,
		"cases":                    cases,
		"inconclusive":             incon,
		"inconclusive_why":         why,
		"excluded_listed_findings": excl,
		"per_facet":                perFacet,
		"labels":                   labels,
		"regressions_replayed":     regN,
		"known_findings_replayed":  knownN,
	}
	if len(samples) == 0 {
		cov["samples"] = []any{"none: no case of this run was non-trivial"}
	}
	ev["property"] = pid
	ev["tier"] = tier
	ev["seed"] = seed
	ev["level"] = "exploration"
	ev["coverage"] = cov
	ev["assumptions"] = assumptions
	ev["wall_s"] = time.Since(start).Seconds()
	ev["violations"] = len(viols)
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	writeJSON(filepath.Join(root, "evidence", pid+".json"), ev)

	if len(viols) > 0 {
		rd := filepath.Join(root, "replays", pid)
		os.MkdirAll(rd, 0o755)
		seenV := map[string]bool{}
		for _, v := range viols {
			key := v.Facet
			if seenV[key] {
				continue
			}
			seenV[key] = true
			rp := filepath.Join(rd, fmt.Sprintf("%s-%016x.json", v.Facet, fnv64(v.Case)))
			writeJSON(rp, v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", pid, rp)
			fmt.Printf("  facet=%s %s\n  case=%s\n", v.Facet, firstLine(v.What, 600), firstLine(string(v.Case), 1500))
		}
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "note:", firstLine(e, 500))
		}
		return exitViol
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "harness error:", e)
		}
		return exitHarness
	}
	fmt.Printf("OK property=%s tier=%s cases=%d evaluations=%d distinct_nontrivial=%d inconclusive=%d wall=%.1fs\n", pid, tier, cases, evals, len(distinct), incon, time.Since(start).Seconds())
	return exitOK
}

var assumptions = []string{
	"santhosh-tekuri/jsonschema v6.0.2 (draft 2020-12) and the harness's own evaluator decide validity; a value is judged only when they agree",
	"Go's regexp package decides whether a string matches a pattern",
	"the Go runtime, standard library and go-faker are trusted; faker and math/rand's global source are pinned per case, Go's map iteration order cannot be",
}

func explore(f *facet, n int) {
	type seen struct {
		n    int
		what string
		c    []byte
	}
	by := map[string]*seen{}
	g := rapid.Custom(func(t *rapid.T) json.RawMessage {
		b, err := json.Marshal(f.gen(t))
		if err != nil {
			panic(err)
		}
		return b
	})
	for i := 0; i < n; i++ {
		c := g.Example(i)
		res := decideSafely(f, c)
		if res.Viol == "" {
			continue
		}
		key := firstLine(res.Viol, 60)
		if len(res.Labels) > 0 {
			key = res.Labels[0] + ": " + firstLine(res.Viol, 30)
		}
		x := by[key]
		if x == nil {
			x = &seen{what: res.Viol, c: c}
			by[key] = x
		}
		x.n++
		if len(c) < len(x.c) {
			x.what, x.c = res.Viol, c
		}
	}
	for _, k := range sortedKeys(by) {
		fmt.Printf("%d x %s\n   %s\n   %s\n", by[k].n, k, clip(by[k].what, 400), clip(string(by[k].c), clipLen()))
	}
}

func main() {
	testing.Init()
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: verif check|worker|replay|list ...")
		os.Exit(exitHarness)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	defer func() {
		if p := recover(); p != nil {
			fmt.Fprintln(os.Stderr, "harness panic:", p)
			os.Exit(exitHarness)
		}
	}()
	switch args[0] {
	case "check":
		seed := int64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			if v, err := strconv.ParseInt(s, 10, 64); err == nil {
				seed = v
			}
		}
		os.Exit(runCheck(root, args[1], args[2], seed))
	case "worker":
		known, err := loadKnown(filepath.Join(root, "known_findings.txt"))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitHarness)
		}
		seed, _ := strconv.ParseUint(args[3], 10, 64)
		checks, _ := strconv.Atoi(args[4])
		shrink, _ := time.ParseDuration(args[7])
		if pf := os.Getenv("VERIF_PROFILE"); pf != "" {
			f, _ := os.Create(pf)
			pprof.StartCPUProfile(f)
			runWorker(args[1], args[2], seed, checks, args[5], args[6], known, shrink)
			pprof.StopCPUProfile()
			f.Close()
			os.Exit(0)
		}
		os.Exit(runWorker(args[1], args[2], seed, checks, args[5], args[6], known, shrink))
	case "replay":
		code, txt := replayChild(args[1], ".")
		fmt.Println(txt)
		if code == exitOK {
			fmt.Println("the case passes")
		}
		os.Exit(code)
	case "replay-inner":
		os.Exit(replayInner(args[1]))
	case "explore":
		// for work on the generators: violations of n examples by their first tag and text, not shrunk
		n, _ := strconv.Atoi(args[3])
		explore(findFacet(args[1], args[2]), n)
	case "list":
		for _, p := range registry {
			fmt.Println(p.id)
			for _, f := range p.facets {
				fmt.Println("   ", f.name, f.quick, f.thor)
			}
		}
	default:
		os.Exit(exitHarness)
	}
}

func clipLen() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_CLIP")); err == nil {
		return n
	}
	return 700
}
