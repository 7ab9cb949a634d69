package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	mrand "math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------
// Verdicts
// ---------------------------------------------------------------------------

// Result is what deciding one case yields.
type Result struct {
	Viol         string   // non-empty: the property does not hold on this case
	Inconclusive string   // non-empty: a documented best-effort outcome; nothing decided
	Nontrivial   bool     // by the facet's rule
	Labels       []string // classification, for the distribution in the evidence
	Evals        int      // values judged (defaults to 1)
}

func viol(format string, a ...any) Result { return Result{Viol: fmt.Sprintf(format, a...)} }

func (r Result) label(l ...string) Result { r.Labels = append(r.Labels, l...); return r }

// facet is one generator+oracle pair of a property.
type facet struct {
	name   string
	rule   string // how cases are made and what makes one non-trivial
	quick  int    // rapid checks in the quick tier (per whole run, split over workers)
	thor   int    // same, thorough tier
	shards int    // worker processes to split over (default 1)
	gen    func(t *rapid.T) any
	decide func(raw []byte) Result
	// tries a replay needs when the outcome depends on something the harness
	// cannot pin (map iteration order in the code under test)
	replayTries int
	noShrink    bool
	race        bool // decided in the binary built with the race detector
}

// mkFacet ties a typed generator and a typed decision procedure together; a
// case travels as JSON, so that a replay file is exactly what was decided.
func mkFacet[C any](name, rule string, quick, thor, shards int, gen func(t *rapid.T) C, decide func(c C) Result) *facet {
	return &facet{
		name: name, rule: rule, quick: quick, thor: thor, shards: shards,
		gen: func(t *rapid.T) any { return gen(t) },
		decide: func(raw []byte) Result {
			var c C
			dec := json.NewDecoder(bytes.NewReader(raw))
			if err := dec.Decode(&c); err != nil {
				panic(harnessError{fmt.Sprintf("cannot decode case: %v", err)})
			}
			return decide(c)
		},
		replayTries: 5,
	}
}

type property struct {
	id     string
	facets []*facet
}

var (
	registry      []*property
	registryOrder = map[string]*property{}
)

func register(id string, facets ...*facet) {
	p := registryOrder[id]
	if p == nil {
		p = &property{id: id}
		registryOrder[id] = p
		registry = append(registry, p)
	}
	p.facets = append(p.facets, facets...)
}

// harnessError is a failure of this machinery, never a verdict about go-chaff.
type harnessError struct{ msg string }

func (h harnessError) Error() string { return h.msg }

// ---------------------------------------------------------------------------
// One decided case, with panics of the code under test turned into a verdict
// ---------------------------------------------------------------------------

func decideSafely(f *facet, raw []byte) (res Result) {
	defer func() {
		if p := recover(); p != nil {
			if he, ok := p.(harnessError); ok {
				panic(he)
			}
			st := string(debug.Stack())
			res = Result{Viol: fmt.Sprintf("panic: %v\n%s", p, trimStack(st)), Nontrivial: true}
		}
	}()
	return f.decide(raw)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	keep := []string{}
	for i, l := range lines {
		if strings.Contains(l, "go-chaff") || strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		_ = i
		if len(keep) > 12 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// ---------------------------------------------------------------------------
// Replay files
// ---------------------------------------------------------------------------

type replayFile struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	What     string          `json:"what"`
	Case     json.RawMessage `json:"case"`
}

// ---------------------------------------------------------------------------
// Worker: runs one facet with one rapid seed
// ---------------------------------------------------------------------------

type workerReport struct {
	Done         bool              `json:"done"`
	Evals        int               `json:"evals"`
	Cases        int               `json:"cases"`
	Nontrivial   int               `json:"nontrivial"`
	Hashes       []uint64          `json:"hashes"`
	Inconclusive int               `json:"inconclusive"`
	InconWhy     map[string]int    `json:"incon_why"`
	Labels       map[string]int    `json:"labels"`
	Samples      []json.RawMessage `json:"samples"`
	Violation    *replayFile       `json:"violation,omitempty"`
	HarnessErr   string            `json:"harness_err,omitempty"`
	Excluded     int               `json:"excluded"`
}

// quietTB is the minimal rapid.TB.
type quietTB struct {
	name   string
	failed bool
	log    []string
}

type tbStop struct{}

func (q *quietTB) Helper()                  {}
func (q *quietTB) Name() string             { return q.name }
func (q *quietTB) Logf(f string, a ...any)  {}
func (q *quietTB) Log(a ...any)             {}
func (q *quietTB) Skipf(f string, a ...any) { panic(tbStop{}) }
func (q *quietTB) Skip(a ...any)            { panic(tbStop{}) }
func (q *quietTB) SkipNow()                 { panic(tbStop{}) }
func (q *quietTB) Errorf(f string, a ...any) {
	q.failed = true
	q.log = append(q.log, fmt.Sprintf(f, a...))
}
func (q *quietTB) Error(a ...any)            { q.failed = true; q.log = append(q.log, fmt.Sprint(a...)) }
func (q *quietTB) Fatalf(f string, a ...any) { q.Errorf(f, a...); panic(tbStop{}) }
func (q *quietTB) Fatal(a ...any)            { q.Error(a...); panic(tbStop{}) }
func (q *quietTB) FailNow()                  { q.failed = true; panic(tbStop{}) }
func (q *quietTB) Fail()                     { q.failed = true }
func (q *quietTB) Failed() bool              { return q.failed }

func fnv64(b []byte) uint64 {
	h := uint64(1469598103934665603)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

var (
	watchMu    sync.Mutex
	watchStart time.Time
	watchCPU   time.Duration
	watchOn    bool
)

func runWorker(propID, facetName string, seed uint64, checks int, curPath, outPath string, known *knownSet, shrink time.Duration) int {
	p := registryOrder[propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", propID)
		return 3
	}
	var f *facet
	for _, c := range p.facets {
		if c.name == facetName {
			f = c
		}
	}
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown facet", facetName)
		return 3
	}
	rep := workerReport{Labels: map[string]int{}, InconWhy: map[string]int{}}
	seen := map[uint64]bool{}
	var best []byte
	var bestWhat string
	shrinking := false
	smallest, largest := -1, -1
	var smallSample, largeSample json.RawMessage

	startWatchdog()

	defer func() {
		// never reached on a fatal crash of the code under test; the parent
		// then attributes the crash to the case left in curPath.
		b, _ := json.Marshal(rep)
		os.WriteFile(outPath, b, 0o644)
	}()

	prop := func(t *rapid.T) {
		c := f.gen(t)
		raw, err := json.Marshal(c)
		if err != nil {
			panic(harnessError{fmt.Sprintf("cannot encode case: %v", err)})
		}
		if known.has(propID, facetName, raw) {
			rep.Excluded++
			return
		}
		if err := os.WriteFile(curPath, raw, 0o644); err != nil {
			panic(harnessError{err.Error()})
		}
		armWatchdog()
		res := decideSafely(f, raw)
		disarmWatchdog()
		if !shrinking {
			n := res.Evals
			if n == 0 {
				n = 1
			}
			rep.Evals += n
			rep.Cases++
			for _, l := range res.Labels {
				rep.Labels[l]++
			}
			if res.Inconclusive != "" {
				rep.Inconclusive++
				rep.InconWhy[firstLine(res.Inconclusive, 80)]++
			}
			if res.Nontrivial {
				h := fnv64(raw)
				if !seen[h] {
					seen[h] = true
					rep.Nontrivial++
					rep.Hashes = append(rep.Hashes, h)
					if len(rep.Samples) < 2 && rep.Nontrivial%7 == 3 && len(raw) < 3000 {
						rep.Samples = append(rep.Samples, append([]byte{}, raw...))
					}
					if len(raw) < 4000 && (largest < 0 || len(raw) > largest) {
						largest, largeSample = len(raw), append([]byte{}, raw...)
					}
					if smallest < 0 || len(raw) < smallest {
						smallest, smallSample = len(raw), append([]byte{}, raw...)
					}
				}
			}
		}
		if res.Viol != "" {
			shrinking = true
			if best == nil || len(raw) < len(best) || (len(raw) == len(best) && bytes.Compare(raw, best) < 0) {
				best, bestWhat = append([]byte{}, raw...), res.Viol
			}
			t.Fatalf("violation")
		}
	}

	tb := &quietTB{name: propID + "/" + facetName}
	setRapid(seed, checks, shrink, f.noShrink)
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tbStop); ok {
					return
				}
				rep.HarnessErr = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
		}()
		rapid.Check(tb, prop)
	}()
	if best != nil {
		rep.Violation = &replayFile{Property: propID, Facet: facetName, What: bestWhat, Case: best}
	} else if tb.failed && rep.HarnessErr == "" {
		rep.HarnessErr = strings.Join(tb.log, "\n")
	}
	if smallSample != nil {
		rep.Samples = append(rep.Samples, smallSample)
	}
	if largeSample != nil {
		rep.Samples = append(rep.Samples, largeSample)
	}
	if oracleDisagreements > 0 {
		rep.Labels["oracles disagreed (value not judged)"] = oracleDisagreements
	}
	rep.Done = true
	return 0
}

func firstLine(s string, n int) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > n {
		s = s[:n]
	}
	return s
}

var errNoCase = errors.New("no case")

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// seedGlobals pins the process-global random sources go-chaff draws from
// (math/rand top level, faker), so that a case is replayable up to Go's map
// iteration order.
func seedGlobals(seed int64) {
	mrand.Seed(seed) //nolint — effective through //go:debug randseednop=0
	seedFaker(seed)
}
