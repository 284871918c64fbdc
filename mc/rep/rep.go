// Package rep collects what a check covered and writes its evidence, its
// violations and its known findings.
package rep

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type R struct {
	ID, Tier, Verif string
	Level           string
	Seed            int
	start           time.Time
	mu              sync.Mutex
	States          int
	Trans           int
	Traces          int
	Evals           int
	distinct        map[uint64]bool
	Samples         []string
	Extra           map[string]any
	Assume          []string
	Exhaustive      bool
	known           map[string]string
	hit             map[string]int
	viol            int
	violPaths       []string
	seenViol        map[string]bool
	Deadline        time.Time
}

// New reads the environment and the known-findings file.
func New(id, level string) *R {
	r := &R{ID: id, Level: level, Tier: os.Getenv("VERIF_TIER"), Verif: os.Getenv("VERIF_DIR"), start: time.Now(),
		distinct: map[uint64]bool{}, Extra: map[string]any{}, known: map[string]string{}, hit: map[string]int{}, Exhaustive: true, seenViol: map[string]bool{}}
	if r.Tier == "" {
		r.Tier = "quick"
	}
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	budget := 600 * time.Second
	if r.Tier == "thorough" {
		budget = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			budget = d
		}
	}
	r.Deadline = r.start.Add(budget)
	b, _ := os.ReadFile(filepath.Join(r.Verif, "KNOWN_FINDINGS"))
	for _, line := range strings.Split(string(b), "\n") {
		// known: property=C05 key=<key> | what fails
		if !strings.HasPrefix(line, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: property="+id+" key=")
		k, what, _ := strings.Cut(rest, " | ")
		r.known[strings.TrimSpace(k)] = strings.TrimSpace(what)
	}
	return r
}

func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Out reports that the internal deadline passed; the run is then not exhaustive.
func (r *R) Out() bool {
	if time.Now().After(r.Deadline) {
		r.mu.Lock()
		r.Exhaustive = false
		r.mu.Unlock()
		return true
	}
	return false
}

func (r *R) Sample(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

// Count adds to the counters.
func (r *R) Count(states, trans, traces int) {
	r.mu.Lock()
	r.States += states
	r.Trans += trans
	r.Traces += traces
	r.mu.Unlock()
}

// Distinct records an observed outcome; the number of distinct ones is reported.
func (r *R) Distinct(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	k := h.Sum64()
	r.mu.Lock()
	if len(r.distinct) < 4000000 {
		r.distinct[k] = true
	}
	r.mu.Unlock()
}

func (r *R) Add(key string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	x, _ := r.Extra[key].(int)
	r.Extra[key] = x + n
}

// Fail reports a disagreement. key identifies the failing input or call site;
// a key listed in KNOWN_FINDINGS is a known finding, anything else a violation.
// Returns true when it is a (new) violation.
func (r *R) Fail(key, detail string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.known[key]; ok {
		r.hit[key]++
		return false
	}
	r.viol++
	if r.seenViol[key] || len(r.violPaths) >= maxViolations {
		return true
	}
	r.seenViol[key] = true
	dir := filepath.Join(r.Verif, "replays", r.ID)
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%03d.txt", len(r.violPaths)))
	os.WriteFile(p, []byte(fmt.Sprintf("property: %s\nkey: %s\ntier: %s seed: %d\n\n%s\n", r.ID, key, r.Tier, r.Seed, detail)), 0o644)
	r.violPaths = append(r.violPaths, p)
	first := detail
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	fmt.Printf("VIOLATION property=%s replay=%s key=%s %s\n", r.ID, p, key, first)
	return true
}

// maxViolations bounds how many violations are printed; VERIF_MAXV raises it for debugging.
var maxViolations = func() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_MAXV")); err == nil {
		return n
	}
	return 20
}()

func (r *R) Violations() int { return r.viol }

// Done writes the evidence and exits.
func (r *R) Done() {
	keys := make([]string, 0, len(r.hit))
	for k := range r.hit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.ID, k, r.known[k])
	}
	cov := map[string]any{}
	for k, v := range r.Extra {
		cov[k] = v
	}
	if r.Level == "model_checking" {
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"] = r.States, r.Trans, r.Traces
	} else {
		cov["evaluations"] = r.Evals + r.Traces
		cov["distinct_nontrivial"] = len(r.distinct)
	}
	cov["distinct_outcomes"] = len(r.distinct)
	cov["exhaustive"] = r.Exhaustive
	if r.Samples == nil {
		r.Samples = []string{}
	}
	cov["samples"] = r.Samples
	if len(keys) > 0 {
		cov["known_findings_hit"] = keys
	}
	ev := map[string]any{"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": cov,
		"wall_s": time.Since(r.start).Seconds(), "violations": r.viol}
	if r.Assume != nil {
		ev["assumptions"] = r.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.Verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(r.Verif, "evidence", r.ID+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: states=%d transitions=%d traces=%d outcomes=%d violations=%d exhaustive=%v wall=%.1fs\n", r.ID, r.States, r.Trans, r.Traces, len(r.distinct), r.viol, r.Exhaustive, time.Since(r.start).Seconds())
	if r.viol > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}
