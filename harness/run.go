package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Run collects what the monitors of one property observed.
type Run struct {
	Prop, Tier string
	Seed       int64
	Dir        string // /verif
	part       int    // only one part in so many of the random cases
	start      time.Time

	mu         sync.Mutex
	evals      int
	distinct   map[[12]byte]struct{}
	counters   map[string]int
	samples    []any
	viol       map[string]*Violation
	violOrder  []string
	violCount  int
	known      map[string]string // key -> text
	knownHit   map[string]int
	assume     []string
	rule       string
	technique  string
	required   map[string]int
	replayOnly []byte

	curFile *os.File
	caseSeq atomic.Int64
}

type Violation struct {
	Key, Msg string
	Replay   string
	N        int
}

func NewRun(prop, tier string, seed int64, dir string) *Run {
	r := &Run{Prop: prop, Tier: tier, Seed: seed, Dir: dir, start: time.Now(), part: 1,
		distinct: map[[12]byte]struct{}{}, counters: map[string]int{}, viol: map[string]*Violation{},
		known: map[string]string{}, knownHit: map[string]int{}, required: map[string]int{}}
	r.loadKnown()
	return r
}

func (r *Run) loadKnown() {
	b, err := os.ReadFile(filepath.Join(r.Dir, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) < 3 || f[0] != "property="+r.Prop || !strings.HasPrefix(f[1], "key=") {
			continue
		}
		r.known[strings.TrimPrefix(f[1], "key=")] = f[2]
	}
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N scales a case count by tier.
func (r *Run) N(quick, thorough int) int {
	n := quick
	if r.Thorough() {
		n = thorough
	}
	return (n + r.part - 1) / r.part
}

// mergeLeg adds what an earlier run of the same property observed on another kind of machine.
func (r *Run) mergeLeg(file string) {
	b, err := os.ReadFile(file)
	if file == "" || err != nil {
		return
	}
	var e struct {
		Coverage struct {
			Evaluations int `json:"evaluations"`
			Distinct    int `json:"distinct_nontrivial"`
		} `json:"coverage"`
	}
	if json.Unmarshal(b, &e) == nil {
		r.Count("32-bit build: evaluations", e.Coverage.Evaluations)
		r.Count("32-bit build: distinct non-trivial", e.Coverage.Distinct)
	}
}

func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

// Require makes the run fail (as inconclusive, not as a verdict) if a monitor observed less than min events.
func (r *Run) Require(name string, min int) { r.required[name] = min }

// Eval records one evaluated case; distinguishing bytes decide distinctness.
func (r *Run) Eval(nontrivial bool, parts ...[]byte) {
	h := sha256.New()
	for _, p := range parts {
		var l [4]byte
		l[0], l[1], l[2], l[3] = byte(len(p)), byte(len(p)>>8), byte(len(p)>>16), byte(len(p)>>24)
		h.Write(l[:])
		h.Write(p)
	}
	var k [12]byte
	copy(k[:], h.Sum(nil))
	r.mu.Lock()
	r.evals++
	if nontrivial {
		r.distinct[k] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

func hexs(b []byte) string {
	if len(b) > 96 {
		return hex.EncodeToString(b[:96]) + fmt.Sprintf("…(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

// Violate reports a broken property. key identifies the failing behaviour; replay data is saved.
func (r *Run) Violate(key, msg string, input []byte) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.known[key]; ok {
		r.knownHit[key]++
		return
	}
	r.violCount++
	if v, ok := r.viol[key]; ok {
		v.N++
		return
	}
	dir := filepath.Join(r.Dir, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	name := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.txt", r.Prop, sanitize(key), len(r.viol)))
	body := fmt.Sprintf("property: %s\nkey: %s\ntier: %s seed: %d\nmessage: %s\ninput (hex):\n%s\nreplay: cd /verif && VERIF_SEED=%d ./check.sh %s %s\n",
		r.Prop, key, r.Tier, r.Seed, msg, hex.EncodeToString(input), r.Seed, r.Prop, r.Tier)
	os.WriteFile(name, []byte(body), 0o644)
	r.viol[key] = &Violation{Key: key, Msg: msg, Replay: name, N: 1}
	r.violOrder = append(r.violOrder, key)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	o := b.String()
	if len(o) > 80 {
		o = o[:80]
	}
	return o
}

// Case saves the case about to run so that a process death is attributable, and feeds the hang watchdog.
func (r *Run) Case(label string, input []byte) {
	r.caseSeq.Add(1)
	if r.curFile != nil {
		b := []byte(fmt.Sprintf("property: %s\ncase: %s\ninput (hex):\n%s\n", r.Prop, label, hex.EncodeToString(input)))
		r.curFile.Truncate(0)
		r.curFile.WriteAt(b, 0)
	}
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 + float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

// watchdog aborts when one case consumes an absurd amount of CPU (a hang), measured in CPU time, not wall time.
func (r *Run) watchdog(limit float64) {
	go func() {
		last, at := int64(-1), cpuSeconds()
		for {
			time.Sleep(500 * time.Millisecond)
			s := r.caseSeq.Load()
			if s != last {
				last, at = s, cpuSeconds()
				continue
			}
			if cpuSeconds()-at > limit && s > 0 {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "HANG: one case used more than %.0f CPU seconds\n%s\n", limit, buf[:n])
				os.Exit(77)
			}
		}
	}()
}

// guard runs f and turns a panic into (panicked, text).
func guard(f func()) (p any, stack string) {
	defer func() {
		if e := recover(); e != nil {
			p = e
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

// panicSite returns the first repository frame of a stack, as a stable key.
func panicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if seenPanic && strings.Contains(l, "way-platform/tachograph-go") && !strings.Contains(l, "zverif") && !strings.HasPrefix(l, "\t") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			if i := strings.LastIndex(l, "/"); i > 0 {
				l = l[i+1:]
			}
			return l
		}
	}
	return "unknown"
}

func (r *Run) writeEvidence(path string) {
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.rule,
		"samples":             r.samples,
		"observed":            r.counters,
		"known_findings_hit":  r.knownHit,
	}
	if len(r.samples) == 0 {
		cov["samples"] = []any{}
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(),
		"assumptions": r.assume, "violations": r.violCount,
	}
	if r.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, append(b, '\n'), 0o644)
}

// finish prints the verdict and returns the exit code.
func (r *Run) finish(evidence string) int {
	r.writeEvidence(evidence)
	keys := make([]string, 0)
	for k := range r.knownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s key=%s %s (observed %d times)\n", r.Prop, k, r.known[k], r.knownHit[k])
	}
	for i, k := range r.violOrder {
		v := r.viol[k]
		m := v.Msg
		if len(m) > 600 {
			m = m[:600] + "…"
		}
		if i < 25 || os.Getenv("ZV_ALL") != "" {
			fmt.Printf("-- %s: %s (x%d)\n", v.Key, m, v.N)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, v.Replay)
		}
	}
	var cs []string
	for k := range r.counters {
		cs = append(cs, k)
	}
	sort.Strings(cs)
	var sb strings.Builder
	for _, k := range cs {
		fmt.Fprintf(&sb, " %s=%d", k, r.counters[k])
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1fs;%s\n", r.Prop, r.Tier, r.Seed, r.evals, len(r.distinct), r.violCount, time.Since(r.start).Seconds(), sb.String())
	if r.violCount > 0 {
		return 1
	}
	for k, min := range r.required {
		if r.part > 1 {
			break
		}
		if r.counters[k] < min {
			fmt.Printf("INCONCLUSIVE property=%s: monitor %q observed %d events, expected at least %d\n", r.Prop, k, r.counters[k], min)
			return 3
		}
	}
	if r.evals == 0 {
		fmt.Printf("INCONCLUSIVE property=%s: nothing evaluated\n", r.Prop)
		return 3
	}
	return 0
}
