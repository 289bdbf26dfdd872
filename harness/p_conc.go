package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/cert"
	"github.com/way-platform/tachograph-go/internal/dd"
	"github.com/way-platform/tachograph-go/internal/security"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

func init() {
	register("P16", runP16)
	register("P16cold", func(r *Run) { coldProcess(r) })
}

// cacheResolver shares its certificates between all callers, as a caching resolver would.
type cacheResolver struct {
	root *securityv1.RootCertificate
	rsa  map[string]*securityv1.RsaCertificate
	ecc  map[string]*securityv1.EccCertificate
}

func (x *cacheResolver) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) {
	return x.root, nil
}
func (x *cacheResolver) GetRsaCertificate(_ context.Context, chr string) (*securityv1.RsaCertificate, error) {
	if c := x.rsa[chr]; c != nil {
		return c, nil
	}
	return nil, errors.New("no certificate " + chr)
}
func (x *cacheResolver) GetEccCertificate(_ context.Context, chr string) (*securityv1.EccCertificate, error) {
	if c := x.ecc[chr]; c != nil {
		return c, nil
	}
	return nil, errors.New("no certificate " + chr)
}

type coldReport struct {
	Ops, Compared, Overlaps int
	PairKinds               []string
	Schedule                string
	Violations              [][3]string // key, message, input
	Counts                  map[string]int
}

type concItem struct {
	label string
	in    []byte
	f     *File // shared, parsed in the first phase
	idx   int
}

type opResult struct {
	kind, item int
	start, end int64
	res        string
}

func sum(parts ...[]byte) string {
	h := sha256.New()
	for _, p := range parts {
		fmt.Fprintf(h, "%d:", len(p))
		h.Write(p)
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

func errS(err error) string {
	if err == nil {
		return "ok"
	}
	return "error: " + err.Error()
}

// coldProcess starts concurrent calls as the very first use of the library in this process, so that anything set up
// lazily is set up concurrently, and compares every result with the same call made alone afterwards.
func coldProcess(r *Run) {
	g := &G{Rand: NewRand(r.Seed, "P16 "+os.Getenv("ZVERIF_COLD"))}
	procs := pick(g.Rand, 2, 3, 4, 8, 8, 16)
	runtime.GOMAXPROCS(procs)
	ctx := context.Background()
	rep := coldReport{Counts: map[string]int{}}
	stub := &stubNet{answer: func(req *http.Request) (*http.Response, error) {
		return reply(req, 404, nil), nil
	}}
	http.DefaultTransport = stub
	w := newWorld(g.Rand)
	// inputs are generated without touching the library
	var items []*concItem
	nItems := r.N(24, 48)
	for i := 0; i < nItems; i++ {
		var label string
		var in []byte
		if i%3 == 0 {
			label, in = "certified card", signedCard(g, w)
		} else {
			label, in = anyFile(g)
		}
		items = append(items, &concItem{label: label, in: in, idx: i})
	}
	cache := &cacheResolver{root: rootMsg(w.root, w.rootRef), rsa: map[string]*securityv1.RsaCertificate{}, ecc: map[string]*securityv1.EccCertificate{}}
	for _, a := range w.rsaCAs {
		c := &securityv1.RsaCertificate{}
		c.SetCertificateAuthorityReference(dec8(a.raw[186:]))
		c.SetRawData(cp(a.raw))
		cache.rsa[dec8(a.ref)] = c
	}
	for _, a := range w.eccCAs {
		cache.ecc[dec8(a.ref)] = eccCA(dec8(a.ref), a.key.c, a.key.q)
	}
	ours := tachograph.VerifyOptions{CertificateResolver: cache}
	def := tachograph.DefaultCertificateResolver()
	defOpts := tachograph.VerifyOptions{CertificateResolver: cert.NewChainResolver(cache, def)}
	emb := cert.NewEmbeddedResolver()
	client := cert.NewClient(&http.Client{Transport: stub})
	opts := card.UnmarshalOptions{}
	dopts := &dd.UnmarshalOptions{}
	refs := []string{"1316820541096591105", "1316820541130145537", "234554709598273281", "1", ""}

	kinds := []string{"parse", "verify", "verify default", "lookup", "raw parse", "records", "certificate", "marshal", "digest", "json", "clone", "mutated copy"}
	const shared = 7 // operations from here on use files parsed before and shared by all goroutines
	do := func(kind int, it *concItem) string {
		switch kinds[kind] {
		case "parse":
			o := parse(it.in)
			if o.err != nil || o.panic != nil || o.f == nil {
				return fmt.Sprint(errS(o.err), o.panic)
			}
			return sum(digest(o.f))
		case "verify", "verify default":
			o := parse(it.in)
			if o.f == nil {
				return errS(o.err)
			}
			v := ours
			if kinds[kind] != "verify" {
				v = defOpts
			}
			var err error
			p, _ := guard(func() { err = v.VerifyFile(ctx, o.f) })
			return fmt.Sprint(errS(err), p, sum(digest(o.f)))
		case "lookup":
			var out []string
			for _, s := range []certSource{emb, def, client} {
				for gen := 1; gen <= 2; gen++ {
					l := lookupIn(ctx, s, gen, refs[(it.idx+gen)%len(refs)])
					out = append(out, fmt.Sprint(errS(l.err), l.panic, sum(l.raw)))
				}
			}
			rt, err := def.GetRootCertificate(ctx)
			out = append(out, fmt.Sprint(errS(err), sum(digest(rt))))
			return sum([]byte(strings.Join(out, "|")))
		case "raw parse":
			c, err := card.UnmarshalRawCardFile(it.in)
			if err != nil {
				return errS(err)
			}
			b, err := card.MarshalRawCardFile(c)
			return fmt.Sprint(errS(err), card.InferFileType(c), sum(b), sum(digest(c)))
		case "records":
			// single records with option values shared by everybody
			b := append(cp(it.in), make([]byte, 400)...)
			x, e1 := dopts.UnmarshalPlaceRecord(b[5:15])
			y, e2 := opts.UnmarshalCardVehicleRecord(b[5:36])
			var anon []byte
			if x != nil {
				anon = digest(dd.AnonymizePlaceRecord(x))
			}
			return fmt.Sprint(errS(e1), errS(e2), sum(digest(x), digest(y), anon))
		case "certificate":
			a := w.rsaCAs[it.idx%len(w.rsaCAs)]
			e := w.eccCAs[it.idx%len(w.eccCAs)]
			c, e1 := security.UnmarshalRsaCertificate(a.raw)
			var e2 error
			if e1 == nil {
				e2 = security.VerifyRsaCertificateWithRoot(c, cache.root)
			}
			d, e3 := security.UnmarshalEccCertificate(e.raw)
			return fmt.Sprint(errS(e1), errS(e2), errS(e3), sum(digest(c), digest(d)))
		case "marshal":
			if it.f == nil {
				return "-"
			}
			o := marshal(it.f)
			return fmt.Sprint(errS(o.err), o.panic, sum(o.b))
		case "digest":
			if it.f == nil {
				return "-"
			}
			return sum(digest(it.f))
		case "json":
			if it.f == nil {
				return "-"
			}
			b, err := protojson.Marshal(it.f)
			var buf bytes.Buffer
			if err == nil {
				json.Compact(&buf, b)
			}
			return fmt.Sprint(errS(err), sum(buf.Bytes()))
		case "clone":
			if it.f == nil {
				return "-"
			}
			return sum(digest(proto.Clone(it.f)))
		case "mutated copy":
			// the caller changes its own parse of the same bytes while others use theirs
			o := parse(it.in)
			if o.f == nil {
				return errS(o.err)
			}
			scribble(o.f.ProtoReflect())
			m := marshal(o.f)
			return fmt.Sprint(errS(m.err), m.panic, sum(m.b))
		}
		return "?"
	}
	// a clock without synchronisation: an atomic counter would order the operations for the race detector
	base := time.Now()
	clock := func() int64 { return int64(time.Since(base)) }
	phase := func(name string, from, to, workers, ops int) {
		inputs := make([][]byte, len(items))
		for i, it := range items {
			inputs[i] = cp(it.in)
		}
		results := make([][]opResult, workers)
		seeds := make([]*Rand, workers)
		for i := range seeds {
			seeds[i] = NewRand(int64(g.U64()>>1), name)
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for k := 0; k < workers; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				rg := seeds[k]
				<-start
				for n := 0; n < ops; n++ {
					x := opResult{kind: rg.Range(from, to), item: rg.N(len(items))}
					if n < 3 || rg.P(1, 3) { // everybody on the same one
						x.item = n % len(items)
					}
					x.start = clock()
					x.res = do(x.kind, items[x.item])
					x.end = clock()
					results[k] = append(results[k], x)
					if rg.P(1, 4) {
						runtime.Gosched()
					}
				}
			}(k)
		}
		close(start)
		wg.Wait()
		// how concurrent was it
		type ev struct {
			w, kind, item int
			s, e          int64
		}
		var evs []ev
		for k, rs := range results {
			for _, x := range rs {
				evs = append(evs, ev{k, x.kind, x.item, x.start, x.end})
			}
		}
		sort.Slice(evs, func(i, j int) bool { return evs[i].s < evs[j].s })
		pairs := map[string]bool{}
		var order []byte
		for i, a := range evs {
			order = append(order, byte(a.w), byte(a.kind))
			for j := i + 1; j < len(evs) && evs[j].s < a.e; j++ {
				rep.Overlaps++
				x, y := kinds[a.kind], kinds[evs[j].kind]
				if x > y {
					x, y = y, x
				}
				same := ""
				if a.item == evs[j].item {
					same = " (same input)"
				}
				pairs[x+" / "+y+same] = true
			}
		}
		rep.PairKinds = append(rep.PairKinds, sortedKeys(pairs)...)
		rep.Schedule += sum(order)
		for i, it := range items {
			if !bytes.Equal(it.in, inputs[i]) {
				rep.Violations = append(rep.Violations, [3]string{"input-modified", it.label + ": a shared input was modified", fmt.Sprintf("%x", inputs[i])})
			}
		}
		// the same calls alone
		alone := map[[2]int]string{}
		for k, rs := range results {
			for _, x := range rs {
				rep.Ops++
				rep.Counts["ops."+sanitize(kinds[x.kind])]++
				key := [2]int{x.kind, x.item}
				want, ok := alone[key]
				if !ok {
					want = do(x.kind, items[x.item])
					if again := do(x.kind, items[x.item]); again != want {
						rep.Violations = append(rep.Violations, [3]string{"nondeterministic:" + kinds[x.kind], fmt.Sprintf("%s of %s: two calls made alone differ: %s, %s", kinds[x.kind], items[x.item].label, want, again), fmt.Sprintf("%x", items[x.item].in)})
					}
					alone[key] = want
				}
				rep.Compared++
				if x.res != want {
					rep.Violations = append(rep.Violations, [3]string{"differs:" + kinds[x.kind], fmt.Sprintf("%s of %s by goroutine %d gave %s, alone %s", kinds[x.kind], items[x.item].label, k, x.res, want), fmt.Sprintf("%x", items[x.item].in)})
				}
			}
		}
	}
	phase("cold", 0, shared-1, 4+g.N(13), r.N(12, 30))
	for _, it := range items {
		if o := parse(it.in); o.f != nil {
			it.f = o.f
			rep.Counts["shared_files"]++
		}
	}
	phase("shared", shared, len(kinds)-1, 4+g.N(13), r.N(20, 50))
	phase("mixed", 0, len(kinds)-1, 4+g.N(13), r.N(20, 60))
	// first use of fresh objects by everybody: whatever an object keeps for later is filled in concurrently
	seen := map[string]string{} // results of calls made alone, on objects nobody else uses
	for round, rounds := 0, r.N(30, 200); round < rounds; round++ {
		kindsNow := 17 // verifying is slow under the race detector
		if round%8 == 0 {
			kindsNow = 18
		}
		it := items[g.N(len(items))]
		fresh := parse(it.in).f
		fe, fd := cert.NewEmbeddedResolver(), tachograph.DefaultCertificateResolver()
		fc := cert.NewChainResolver(cert.NewEmbeddedResolver(), cache)
		fv := tachograph.VerifyOptions{CertificateResolver: fc}
		workers := 4 + g.N(4)
		results := make([]map[string]string, workers)
		orders := make([][]int, workers)
		for k := range orders {
			orders[k] = g.Perm(kindsNow)
		}
		use := func(what int, e, d, c certSource, v tachograph.VerifyOptions, f *File) (string, string) {
			switch {
			case what < 15:
				s, name := e, "embedded"
				switch what / 5 {
				case 1:
					s, name = d, "default"
				case 2:
					s, name = c, "chain"
				}
				var out []string
				for gen := 1; gen <= 2; gen++ {
					if name == "default" && (what+round+gen)%4 > 0 { // reading the index is slow
						continue
					}
					l := lookupIn(ctx, s, gen, refs[what%5])
					out = append(out, errS(l.err), fmt.Sprint(l.panic), sum(l.raw))
				}
				return fmt.Sprint(name, " ", refs[what%5], " ", round%4), strings.Join(out, "|")
			case f == nil:
				return "none", "-"
			case what == 15:
				o := marshal(f)
				return "marshal " + fmt.Sprint(it.idx), fmt.Sprint(errS(o.err), o.panic, sum(o.b))
			case what == 16:
				return "digest " + fmt.Sprint(it.idx), sum(digest(f))
			default:
				mine := parse(it.in).f
				var err error
				p, _ := guard(func() { err = v.VerifyFile(ctx, mine) })
				return "verify " + fmt.Sprint(it.idx), fmt.Sprint(errS(err), p, sum(digest(mine)))
			}
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for k := 0; k < workers; k++ {
			results[k] = map[string]string{}
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-start
				for _, what := range orders[k] {
					n, x := use(what, fe, fd, fc, fv, fresh)
					results[k][n] = x
				}
			}(k)
		}
		close(start)
		wg.Wait()
		for what := 0; what < kindsNow; what++ {
			c := cert.NewChainResolver(cert.NewEmbeddedResolver(), cache)
			n, want := use(what, cert.NewEmbeddedResolver(), tachograph.DefaultCertificateResolver(), c, tachograph.VerifyOptions{CertificateResolver: c}, parse(it.in).f)
			if old, ok := seen[n]; ok && old != want {
				rep.Violations = append(rep.Violations, [3]string{"nondeterministic:fresh", fmt.Sprintf("%s (%s): two calls made alone differ: %s, %s", n, it.label, want, old), fmt.Sprintf("%x", it.in)})
			}
			seen[n] = want
			for k := range results {
				rep.Ops++
				rep.Compared++
				rep.Counts["ops.fresh_objects"]++
				if results[k][n] != want {
					rep.Violations = append(rep.Violations, [3]string{"differs:fresh", fmt.Sprintf("%s (%s) by goroutine %d gave %s, alone %s", n, it.label, k, results[k][n], want), fmt.Sprintf("%x", it.in)})
				}
			}
		}
	}
	b, _ := json.Marshal(rep)
	os.WriteFile(os.Getenv("ZVERIF_COLD_OUT"), b, 0o644)
	os.Exit(0) // exit status 66 if the race detector reported anything
}

func runP16(r *Run) {
	r.rule = "one case = one operation (parse, verify, look up, marshal, read, copy) made while others ran, in a process whose first use of the library was concurrent; non-trivial = its result was compared with the same call made alone; distinct by process schedule and operation count"
	r.assume = []string{"interleavings are those the Go scheduler produced with varying processor counts; the race detector reports unsynchronised accesses of the executions observed, also when they did no harm"}
	n := r.N(14, 120)
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp("", "zverif-p16-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	type done struct {
		text string
		err  error
	}
	dones := make([]chan done, n)
	slots := make(chan bool, 5)
	for i := range dones {
		dones[i] = make(chan done, 1)
	}
	go func() {
		for i := range dones {
			slots <- true
			go func(i int) {
				out := fmt.Sprintf("%s/%d.json", dir, i)
				cmd := exec.Command(exe, "-child", "-prop", "P16cold", "-tier", r.Tier, "-seed", fmt.Sprint(r.Seed), "-dir", r.Dir, "-evidence", out+".ev")
				cmd.Env = append(os.Environ(), "ZVERIF_COLD="+fmt.Sprint(i), "ZVERIF_COLD_OUT="+out, "ZVERIF_CURRENT=")
				var errb bytes.Buffer
				cmd.Stderr = &limited{w: &errb, n: 200000}
				err := cmd.Run()
				<-slots
				dones[i] <- done{errb.String(), err}
			}(i)
		}
	}()
	pairs, schedules := map[string]bool{}, map[string]bool{}
	for i := 0; i < n; i++ {
		out := fmt.Sprintf("%s/%d.json", dir, i)
		d := <-dones[i]
		err, text := d.err, d.text
		r.Count("processes", 1)
		var rep coldReport
		if b, e := os.ReadFile(out); e == nil {
			json.Unmarshal(b, &rep)
		}
		switch {
		case strings.Contains(text, "WARNING: DATA RACE"):
			r.Violate("race:"+raceSite(text), "the race detector reported a data race in process "+fmt.Sprint(i)+":\n"+firstRace(text), []byte(text))
		case strings.Contains(text, "fatal error:"):
			r.Violate("fatal", "process died: "+text[strings.Index(text, "fatal error:"):][:min(300, len(text)-strings.Index(text, "fatal error:"))], []byte(text))
		case err != nil && strings.Contains(text, "way-platform/tachograph-go/") || err != nil && strings.Contains(text, "HANG"):
			r.Violate("died", "process died: "+text[:min(600, len(text))], []byte(text))
		case err != nil || rep.Ops == 0:
			fmt.Fprintf(os.Stderr, "cold process %d: %v\n%s\n", i, err, text)
			r.Count("processes_without_report", 1)
		}
		for _, v := range rep.Violations {
			r.Violate(v[0], v[1], []byte(v[2]))
		}
		for k, c := range rep.Counts {
			r.Count(k, c)
		}
		r.Count("operations_compared", rep.Compared)
		r.Count("overlapping_operation_pairs", rep.Overlaps)
		for _, p := range rep.PairKinds {
			pairs[p] = true
		}
		for k := 0; k < rep.Ops; k++ {
			r.Eval(true, []byte(rep.Schedule), []byte{byte(k), byte(k >> 8)})
		}
		if !schedules[rep.Schedule] {
			schedules[rep.Schedule] = true
			r.Count("distinct_schedules", 1)
		}
		if i < 2 {
			r.Sample(map[string]any{"process": i, "operations": rep.Ops, "overlaps": rep.Overlaps, "schedule": rep.Schedule})
		}
	}
	r.Count("distinct_overlapping_kinds", len(pairs))
	if n := r.counters["processes_without_report"]; n > 0 {
		r.Require("every_process_reported", 1)
	}
	r.Require("operations_compared", 5000)
	r.Require("overlapping_operation_pairs", 2000)
	r.Require("distinct_overlapping_kinds", 40)
	r.Require("distinct_schedules", 10)
}

func firstRace(text string) string {
	i := strings.Index(text, "WARNING: DATA RACE")
	t := text[i:]
	if j := strings.Index(t, "=================="); j > 0 {
		t = t[:j]
	}
	return t[:min(2500, len(t))]
}

// raceSite is the first library frame of a race report.
func raceSite(text string) string {
	for _, l := range strings.Split(firstRace(text), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/way-platform/tachograph-go") && !strings.Contains(l, "zverif") {
			if i := strings.LastIndex(l, "/"); i >= 0 {
				l = l[i+1:]
			}
			return strings.TrimSuffix(l, "()")
		}
	}
	return "unknown"
}
