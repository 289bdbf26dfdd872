package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

func init() { register("P19", runP19) }

// buildTool builds a command of the repository into a scratch directory.
func (r *Run) buildTool(module, pkg, out string, race bool) error {
	args := []string{"build", "-buildvcs=false", "-mod=readonly"}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "-o", out, pkg)...)
	cmd.Dir = module
	cmd.Env = append(os.Environ(), "GOFLAGS=")
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%v: %s", err, b)
	}
	return nil
}

// toolRun is what one run of a command showed.
type toolRun struct {
	out, err []byte
	status   int
	hung     bool
}

func execTool(dir string, env []string, stdout io.Writer, bin string, args ...string) (t toolRun) {
	return execToolIn(dir, env, nil, stdout, bin, args...)
}

func execToolIn(dir string, env []string, stdin io.Reader, stdout io.Writer, bin string, args ...string) (t toolRun) {
	cmd := exec.Command(bin, args...)
	cmd.Stdin = stdin
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if stdout != nil {
		cmd.Stdout = stdout
	}
	if err := cmd.Start(); err != nil {
		t.status = -1
		t.err = []byte(err.Error())
		return t
	}
	timer := time.AfterFunc(240*time.Second, func() { t.hung = true; cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		t.status = ee.ExitCode()
	} else if err != nil {
		t.status = -1
	}
	t.out, t.err = o.Bytes(), e.Bytes()
	return t
}

// documents splits a stream into JSON documents; ok is false if there is anything else in it.
func documents(b []byte) (docs []json.RawMessage, ok bool) {
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var raw json.RawMessage
		err := d.Decode(&raw)
		if err == io.EOF {
			return docs, true
		}
		if err != nil {
			return docs, false
		}
		docs = append(docs, raw)
	}
}

type cliFile struct {
	arg  string
	kind string
	want *File // nil: the command has to fail on it
	data []byte
}

// cliSource makes the files of one command line.
type cliSource struct {
	g   *G
	dir string
	n   int
}

func (s *cliSource) file() cliFile {
	g := s.g
	s.n++
	name := fmt.Sprintf("%s%d%s", pick(g.Rand, "card", "a b", "ünï", "C_2024", "x.y"), s.n, pick(g.Rand, ".ddd", ".DDD", "", ".tgd", ".json"))
	p := filepath.Join(s.dir, name)
	arg := p
	if g.P(1, 4) {
		arg = name // relative to the working directory
	}
	put := func(kind string, b []byte) cliFile {
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
		f := cliFile{arg: arg, kind: kind, data: b}
		if o := parse(cp(b)); o.err == nil && o.panic == nil {
			f.want = o.f
		} else {
			f.kind += " (rejected)"
		}
		return f
	}
	switch g.N(14) {
	case 0, 1, 2, 3, 4, 5, 6:
		l, b := anyFile(g)
		return put(l, b)
	case 7, 8:
		g.Hostile = false
		return put("driver card", genCard(g, cardOpts{gen1: true, gen2: g.Bool(), pInclude: 60}).bytes())
	case 9:
		if g.P(1, 4) { // larger than any buffer
			ts := []TLV{{0x0002, 0, g.Bytes(25)}}
			for i, m := 0, 35+g.N(50); i < m; i++ {
				ts = append(ts, TLV{nonDriverFids[g.N(6)], byte(g.N(4)), g.Bytes(20000 + g.N(40000))})
			}
			return put("large", joinTLV(ts))
		}
		return put("empty", nil)
	case 10:
		return put("noise", g.Bytes(1+g.N(400)))
	case 11:
		return cliFile{arg: arg, kind: "missing"}
	case 12:
		os.Mkdir(p, 0o755)
		return cliFile{arg: arg, kind: "directory"}
	}
	switch g.N(3) {
	case 0:
		os.Symlink(filepath.Join(s.dir, "nowhere"), p)
		return cliFile{arg: arg, kind: "dangling link"}
	case 1:
		os.WriteFile(p, []byte{1}, 0o644)
		return cliFile{arg: p + "/below", kind: "below a file"}
	}
	// a name that looks like an option, after the end of the options
	b := genCard(g, cardOpts{gen1: true, pInclude: 30}).bytes()
	name = "-" + name
	os.WriteFile(filepath.Join(s.dir, name), b, 0o644)
	return cliFile{arg: name, kind: "dashed", data: b, want: parse(cp(b)).f}
}

func runP19(r *Run) {
	r.rule = "one case = one run of the built command over a list of files; non-trivial = at least one file named; distinct by the kinds and contents of the files"
	dir, err := os.MkdirTemp("", "zverif-p19-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "tachograph")
	if err := r.buildTool("/repo/cmd/tachograph", ".", bin, false); err != nil {
		fmt.Println("cannot build the command:", err)
		return
	}
	n := r.N(400, 4000)
	type job struct {
		i     int
		files []cliFile
		dir   string
		args  []string
		t     toolRun
	}
	jobs := make(chan *job, 16)
	done := make(chan *job, 16)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				j.t = execTool(j.dir, nil, nil, bin, j.args...)
				done <- j
			}
		}()
	}
	go func() {
		g := &G{Rand: NewRand(r.Seed, "P19")}
		for i := 0; i < n; i++ {
			d := filepath.Join(dir, fmt.Sprint("w", i))
			os.Mkdir(d, 0o755)
			s := &cliSource{g: g, dir: d}
			j := &job{i: i, dir: d, args: []string{"parse", "--"}}
			for k := pick(g.Rand, 0, 1, 1, 1, 2, 2, 3, 4, 6, 9); k > 0; k-- {
				f := s.file()
				if len(j.files) > 0 && g.P(1, 8) {
					f = j.files[g.N(len(j.files))] // the same file again
				}
				j.files = append(j.files, f)
				j.args = append(j.args, f.arg)
			}
			jobs <- j
		}
		close(jobs)
		wg.Wait()
		close(done)
	}()
	for j := range done {
		r.judgeCLI(j.files, j.t)
		os.RemoveAll(j.dir)
	}
	r.cliOutput(bin, dir)
	r.Require("documents compared", n/2)
	r.Require("failing command lines", n/10)
	r.Require("succeeding command lines", n/10)
}

func (r *Run) judgeCLI(files []cliFile, t toolRun) {
	var parts [][]byte
	var kinds []string
	var in []byte
	for _, f := range files {
		parts = append(parts, []byte(f.kind), f.data)
		kinds = append(kinds, f.kind)
		r.Count("file: "+f.kind, 1)
	}
	line := strings.Join(kinds, ", ")
	if len(files) > 0 {
		in = files[0].data
	}
	r.Eval(len(files) > 0, parts...)
	if t.hung {
		r.Violate("hang", "the command did not end on: "+line, in)
		return
	}
	if bytes.Contains(t.err, []byte("panic:")) || bytes.Contains(t.err, []byte("goroutine ")) {
		r.Violate("crash", fmt.Sprintf("the command crashed on: %s: %.300s", line, t.err), in)
		return
	}
	first := -1
	for i, f := range files {
		if f.want == nil {
			first = i
			break
		}
	}
	fails := first >= 0 || len(files) == 0
	docs, ok := documents(t.out)
	if !ok {
		r.Violate("stdout", fmt.Sprintf("standard output is not a sequence of JSON documents for: %s", line), in)
		return
	}
	if !fails {
		r.Count("succeeding command lines", 1)
		if t.status != 0 {
			r.Violate("status", fmt.Sprintf("status %d although every file parses (%s): %.200s", t.status, line, t.err), in)
			return
		}
	} else {
		r.Count("failing command lines", 1)
		if t.status == 0 {
			r.Violate("status-0", fmt.Sprintf("status 0 although not every file parses: %s", line), in)
			return
		}
		if len(bytes.TrimSpace(t.err)) == 0 {
			r.Violate("silent", fmt.Sprintf("nothing on standard error although the command failed: %s", line), in)
		}
	}
	// the documents are those of the files that parse, in order; files before the first failing one are all there
	var want []cliFile
	for _, f := range files {
		if f.want != nil {
			want = append(want, f)
		}
	}
	must := len(want)
	if first >= 0 {
		must = first
	}
	if len(docs) < must || len(docs) > len(want) || (!fails && len(docs) != len(want)) {
		r.Violate("count", fmt.Sprintf("%d documents for %d files of which %d parse (first failing: %d): %s", len(docs), len(files), len(want), first, line), in)
		return
	}
	for i, d := range docs {
		got := &File{}
		if err := protojson.Unmarshal(d, got); err != nil {
			r.Violate("decode", fmt.Sprintf("document %d of %s does not decode: %v", i, want[i].kind, err), want[i].data)
			return
		}
		r.Count("documents compared", 1)
		if !proto.Equal(got, want[i].want) {
			_, text := firstDifference(want[i].want.ProtoReflect(), got.ProtoReflect())
			r.Violate("content", fmt.Sprintf("document %d (%s) is not the parsed file: %s", i, want[i].kind, text), want[i].data)
			return
		}
	}
}

// cliOutput runs the command where its output cannot be written: it must not claim success.
func (r *Run) cliOutput(bin, dir string) {
	g := &G{Rand: NewRand(r.Seed, "P19/output")}
	p := filepath.Join(dir, "out.ddd")
	for i := 0; i < r.N(4, 20); i++ {
		b := genCard(g, cardOpts{gen1: true, pInclude: 60}).bytes()
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return
		}
		t := execTool(dir, nil, full, bin, "parse", p)
		full.Close()
		r.Eval(true, b, []byte("full"))
		r.Count("runs without room for the output", 1)
		if t.status == 0 {
			r.Violate("lost-output", "status 0 although the document could not be written to standard output", b)
		}
	}
	// large files, and files that come through a pipe in pieces
	for i := 0; i < r.N(6, 24); i++ {
		var b []byte
		kind := "large vehicle unit"
		if i%3 == 2 {
			kind = "vehicle unit"
			b = joinTransfers(genVU(g, 1+g.N(3), 4))
		} else {
			ts := []Transfer{genTransfer(g, 1)}
			for k := 0; k < 40+g.N(40); k++ {
				ts = append(ts, vuActivitiesOf(g, g.N(200), g.N(1441), g.N(50), g.N(50)))
			}
			b = joinTransfers(ts)
		}
		o := parse(cp(b))
		if o.f == nil {
			continue
		}
		if err := os.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
		c := genCard(g, cardOpts{gen1: true, pInclude: 60}).bytes()
		q := filepath.Join(dir, "second.ddd")
		if err := os.WriteFile(q, c, 0o644); err != nil {
			panic(err)
		}
		second := cliFile{arg: q, kind: "driver card", want: parse(cp(c)).f, data: c}
		if i%2 == 0 {
			t := execTool(dir, nil, nil, bin, "parse", p, q, p)
			f := cliFile{arg: p, kind: kind, want: o.f, data: b}
			r.judgeCLI([]cliFile{f, second, f}, t)
			r.Count("large files", 1)
			continue
		}
		pieces := &pieceReader{b: cp(b), g: g}
		t := execToolIn(dir, nil, pieces, nil, bin, "parse", q, "/dev/stdin", q)
		r.judgeCLI([]cliFile{second, {arg: "/dev/stdin", kind: kind + " through a pipe", want: o.f, data: b}, second}, t)
		r.Count("piped files", 1)
	}
	r.Require("large files", 2)
	r.Require("piped files", 2)
	// without files
	for _, args := range [][]string{{"parse"}, {"parse", "--"}} {
		t := execTool(dir, nil, nil, bin, args...)
		r.Count("failing command lines", 1)
		if t.status == 0 || len(bytes.TrimSpace(t.err)) == 0 {
			r.Violate("no-files", fmt.Sprintf("without a file the command ends with status %d and says %q", t.status, t.err), nil)
		}
		if docs, ok := documents(t.out); !ok || len(docs) > 0 {
			r.Violate("no-files-output", fmt.Sprintf("without a file the command prints %.100q", t.out), nil)
		}
	}
}

// pieceReader hands out its bytes in pieces of odd sizes.
type pieceReader struct {
	b []byte
	g *G
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	n := copy(b[:min(len(b), 1+p.g.N(5000))], p.b)
	p.b = p.b[n:]
	return n, nil
}
