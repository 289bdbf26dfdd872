// Command zverif runs the runtime monitors of one property against the tachograph-go working tree it was built from.
//
//	zverif -prop P02 -tier quick -seed 1 -dir /verif -evidence /verif/evidence/P02.json
//
// The parent process supervises a child that executes the workload, so that a fatal runtime error
// (race report, out of memory, deadlock, stack overflow) of the code under test is attributed and reported.
package main

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"
)

var props = map[string]func(*Run){}

func register(id string, f func(*Run)) { props[id] = f }

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	dir := flag.String("dir", "/verif", "verif directory")
	evidence := flag.String("evidence", "", "evidence file")
	part := flag.Int("part", 1, "run one part in this many of a tier's random cases")
	child := flag.Bool("child", false, "internal")
	flag.Parse()
	if *evidence == "" {
		*evidence = filepath.Join(*dir, "evidence", *prop+".json")
	}
	if *child {
		os.Exit(runChild(*prop, *tier, *seed, *part, *dir, *evidence))
	}
	os.Exit(supervise(*prop, *tier, *seed, *part, *dir, *evidence))
}

func runChild(prop, tier string, seed int64, part int, dir, evidence string) int {
	f, ok := props[prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", prop)
		return 2
	}
	debug.SetMemoryLimit(12 << 30)
	// nothing may depend on the zone of the machine, here or in a command that is run
	os.Setenv("TZ", []string{"Pacific/Chatham", "America/St_Johns", "Asia/Kathmandu"}[uint64(seed)%3])
	time.Local = time.FixedZone("zverif", []int{45900, -34200, 20700}[uint64(seed)%3])
	r := NewRun(prop, tier, seed, dir)
	r.part = part
	r.mergeLeg(os.Getenv("ZVERIF_LEG"))
	cur := os.Getenv("ZVERIF_CURRENT")
	if cur != "" {
		if fh, err := os.OpenFile(cur, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644); err == nil {
			r.curFile = fh
		}
	}
	r.watchdog(90)
	f(r)
	return r.finish(evidence)
}

// supervise runs the workload in a child process and turns its abnormal death into a violation.
func supervise(prop, tier string, seed int64, part int, dir, evidence string) int {
	os.MkdirAll(filepath.Join(dir, "evidence", "replays"), 0o755)
	old, _ := filepath.Glob(filepath.Join(dir, "evidence", "replays", prop+"-*"))
	for _, o := range old {
		os.Remove(o)
	}
	os.Remove(evidence)
	cur := filepath.Join(dir, "evidence", "replays", prop+"-current.txt")
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cmd := exec.Command(exe, "-child", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-part", fmt.Sprint(part), "-dir", dir, "-evidence", evidence)
	var errb bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.MultiWriter(&limited{w: os.Stderr, n: 20000}, &limited{w: &errb, n: 400000})
	cmd.Env = append(os.Environ(), "ZVERIF_CURRENT="+cur, "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=66 history_size=3")
	err = cmd.Run()
	if err == nil {
		os.Remove(cur)
		return 0
	}
	var ee *exec.ExitError
	if !errors.As(err, &ee) {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	code := ee.ExitCode()
	if code == 1 {
		os.Remove(cur)
		return 1
	}
	if code == 3 {
		os.Remove(cur)
		return 3
	}
	text := errb.String()
	if i := strings.Index(text, "panic:"); i >= 0 && code == 2 && !strings.Contains(text, "fatal error:") && !strings.Contains(text, "DATA RACE") {
		// the goroutine that panicked comes first; without a frame of the code under test it is the harness that is broken
		g := text[i:]
		if j := strings.Index(g, "\n\ngoroutine "); j >= 0 {
			if k := strings.Index(g[j+2:], "\n\ngoroutine "); k >= 0 {
				g = g[:j+2+k]
			}
		}
		if !strings.Contains(g, "way-platform/tachograph-go") {
			fmt.Println("-- the harness itself panicked: no verdict")
			return 2
		}
	}
	fatal := code == 77 || code == 66 || strings.Contains(text, "fatal error:") || strings.Contains(text, "WARNING: DATA RACE") || strings.Contains(text, "panic:") || code == -1
	if !fatal {
		return 2
	}
	rp := filepath.Join(dir, "evidence", "replays", prop+"-fatal.txt")
	c, _ := os.ReadFile(cur)
	os.WriteFile(rp, append(append(c, []byte("\nprocess output:\n")...), []byte(text)...), 0o644)
	os.Remove(cur)
	what := "process died"
	switch {
	case code == 77:
		what = "hang (CPU time bound exceeded on one case)"
	case strings.Contains(text, "DATA RACE"):
		what = "data race reported by the race detector"
	case strings.Contains(text, "out of memory") || code == -1:
		what = "process killed or out of memory"
	}
	fmt.Printf("-- fatal: %s\n", what)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	if _, err := os.Stat(evidence); err != nil {
		r := NewRun(prop, tier, seed, dir)
		r.evals, r.violCount, r.rule = 1, 1, "workload died: "+what
		r.writeEvidence(evidence)
	}
	return 1
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.w.Write(q)
		l.n -= len(q)
	}
	return len(p), nil
}
