package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"time"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/cert"
	"github.com/way-platform/tachograph-go/internal/security"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
)

func init() { register("P24", runP24) }

// ---- monitors of contexts and of what a call opened ----

type ctxKey struct{}

// ctxTrial is one call made under a context of its own.
type ctxTrial struct {
	r        *Run
	label    string
	in       []byte
	ctx      context.Context
	cancel   context.CancelFunc
	token    *int
	deadline time.Time
	cause    error // what the call has to be recognisable as, once it was cut short
	causes   []error
	seen     int // sources or requests that were looked at
}

func newTrial(r *Run, g *Rand, label string, in []byte) *ctxTrial {
	t := &ctxTrial{r: r, label: label, in: in, token: new(int)}
	ctx := context.Context(context.WithValue(context.Background(), ctxKey{}, t.token))
	if g.Bool() {
		t.deadline = time.Now().Add(time.Hour).Add(time.Duration(g.N(1e9)))
		c, stop := context.WithDeadline(ctx, t.deadline)
		ctx = c
		t.ctx, t.cancel = context.WithCancel(ctx)
		inner := t.cancel
		t.cancel = func() { inner(); stop() }
		return t
	}
	t.ctx, t.cancel = context.WithCancel(ctx)
	return t
}

// look checks that a context handed on is the caller's or one made from it.
func (t *ctxTrial) look(where string, ctx context.Context) {
	t.seen++
	if ctx == nil {
		t.r.Violate("context-nil:"+where, t.label+": "+where+" got no context", t.in)
		return
	}
	if v, _ := ctx.Value(ctxKey{}).(*int); v != t.token {
		t.r.Violate("context-value:"+where, t.label+": "+where+" does not see the values of the caller's context", t.in)
	}
	if d, ok := ctx.Deadline(); !t.deadline.IsZero() && (!ok || d.After(t.deadline)) {
		t.r.Violate("context-deadline:"+where, fmt.Sprintf("%s: %s does not see the deadline of the caller's context (%v, %v)", t.label, where, d, ok), t.in)
	}
	t.r.Count("contexts looked at", 1)
}

// cut cancels the call's context and checks that the one handed on ends with it (contexts pass this on at once).
func (t *ctxTrial) cut(where string, ctx context.Context) error {
	t.cancel()
	t.cause = context.Canceled
	t.r.Count("calls cut short", 1)
	if ctx == nil {
		return context.Canceled
	}
	if ctx.Err() == nil {
		t.r.Violate("context-cancel:"+where, t.label+": "+where+" goes on after the caller's context was cancelled", t.in)
		return context.Canceled
	}
	return ctx.Err()
}

// ended judges the error of the call.
func (t *ctxTrial) ended(err error) {
	if t.cause != nil {
		if err == nil {
			t.r.Violate("cut-short-accepted", t.label+": cut short, but no error was returned", t.in)
			return
		}
		t.causes = append(t.causes, t.cause)
	}
	for _, c := range t.causes {
		if err != nil && !errors.Is(err, c) {
			t.r.Violate("cause-lost:"+sanitize(t.label), fmt.Sprintf("%s: the returned error %q does not identify its cause %q", t.label, err, c), t.in)
		} else if err != nil {
			t.r.Count("causes recognised", 1)
		}
	}
}

// body counts what is closed.
type trackedBody struct {
	r      io.Reader
	end    error
	atEnd  func() error
	closed int
	after  int // reads after it was closed
}

func (b *trackedBody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		b.after++
		return 0, errors.New("read after close")
	}
	n, err := b.r.Read(p)
	if err == io.EOF && b.atEnd != nil {
		if e := b.atEnd(); e != nil {
			return n, e
		}
	}
	if err == io.EOF && b.end != nil {
		err = b.end
	}
	return n, err
}
func (b *trackedBody) Close() error { b.closed++; return nil }

// trackedNet answers every request with a body it keeps an eye on.
type trackedNet struct {
	answer func(req *http.Request) (status int, header http.Header, body *trackedBody, err error)
	bodies []*trackedBody
	n      int
}

func (s *trackedNet) RoundTrip(req *http.Request) (*http.Response, error) {
	s.n++
	status, h, b, err := s.answer(req)
	if err != nil {
		return nil, err
	}
	if h == nil {
		h = http.Header{}
	}
	s.bodies = append(s.bodies, b)
	return &http.Response{StatusCode: status, Status: fmt.Sprintf("%d X", status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: b, ContentLength: -1, Request: req}, nil
}

// ctxResolver is a source that looks at the contexts it is called with and may cut the call short or fail.
type ctxResolver struct {
	t        *ctxTrial
	under    *recResolver
	cutAt    int // number of the call to cut, or none
	failAt   int
	failWith error
	n        int
}

func (x *ctxResolver) enter(where string, ctx context.Context) error {
	x.t.look(where, ctx)
	x.n++
	if x.n == x.cutAt {
		return x.t.cut(where, ctx)
	}
	if x.n == x.failAt {
		x.t.causes = append(x.t.causes, x.failWith)
		return x.failWith
	}
	return nil
}
func (x *ctxResolver) GetRootCertificate(ctx context.Context) (*securityv1.RootCertificate, error) {
	if err := x.enter("GetRootCertificate", ctx); err != nil {
		return nil, err
	}
	return x.under.GetRootCertificate(context.Background())
}
func (x *ctxResolver) GetRsaCertificate(ctx context.Context, chr string) (*securityv1.RsaCertificate, error) {
	if err := x.enter("GetRsaCertificate", ctx); err != nil {
		return nil, err
	}
	return x.under.GetRsaCertificate(context.Background(), chr)
}
func (x *ctxResolver) GetEccCertificate(ctx context.Context, chr string) (*securityv1.EccCertificate, error) {
	if err := x.enter("GetEccCertificate", ctx); err != nil {
		return nil, err
	}
	return x.under.GetEccCertificate(context.Background(), chr)
}

// ofWorld serves what the authorities of a world have.
func ofWorld(w *world, withKeys bool) *recResolver {
	x := &recResolver{root: rootMsg(w.root, w.rootRef), rsa: map[string]*securityv1.RsaCertificate{}, ecc: map[string]*securityv1.EccCertificate{}}
	for _, a := range w.rsaCAs {
		if c, err := security.UnmarshalRsaCertificate(cp(a.raw)); err == nil {
			if withKeys {
				c.SetCertificateHolderReference(dec8(a.ref))
				c.SetRsaModulus(fixed(a.key.n, 128))
				c.SetRsaExponent(fixed(a.key.e, 8))
			}
			x.rsa[dec8(a.ref)] = c
		}
	}
	for _, a := range w.eccCAs {
		if c, err := security.UnmarshalEccCertificate(cp(a.raw)); err == nil {
			x.ecc[dec8(a.ref)] = c
		}
	}
	return x
}

// certCard is a card with certificates that name the given authorities.
func certCard(g *G, w *world, car1, car2 []byte) []byte {
	c := &Card{}
	add := func(name string, gen int, data []byte) {
		c.efs = append(c.efs, CardEF{ef: efBy[name], gen: gen, data: data})
	}
	add("ICC", 0, iccC().gen(g))
	if car1 != nil {
		add("ApplicationIdentification", 1, appIDG1C().gen(g))
		raw := g.Bytes(194)
		copy(raw[186:], car1)
		add("CardCertificate", 1, raw)
	}
	if car2 != nil {
		add("ApplicationIdentificationG2", 2, appIDG2C().gen(g))
		for {
			e := genEccParts(g)
			e.car = car2
			if b := e.bytes(); len(b) >= 204 && len(b) <= 341 {
				add("CardSignCertificate", 2, b)
				break
			}
		}
	}
	return c.bytes()
}

func openFiles() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(l)
}

// settled waits until no more than want goroutines run (those that are on their way out need a moment).
func settled(want int) int {
	n := runtime.NumGoroutine()
	for i := 0; i < 200 && n > want; i++ {
		time.Sleep(50 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

func liveHeap() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func runP24(r *Run) {
	r.rule = "one case = one lookup or verification under a context of its own against a scripted source or network, or one round of calls on inputs never used before; non-trivial = a source, request or response was observed, or the round had at least 100 calls; distinct by input and scenario"
	r.assume = []string{"cancelling a context passes to the contexts made from it before the cancelling call returns (package context)",
		"live heap after three collections; a growth counts when every round after the first two adds to it and the sum passes 24 KiB and 4 bytes per call",
		"a goroutine that is on its way out ends within 10 s"}
	g := &G{Rand: NewRand(r.Seed, "P24")}
	w := newWorld(g.Rand)
	var idx certIndex
	if b, err := os.ReadFile(filepath.Join(certDir, "index.json")); err != nil || json.Unmarshal(b, &idx) != nil {
		panic("cannot read the certificate index of the working tree")
	}
	held := map[string]bool{}
	var heldList [3][]string
	for gen := 1; gen <= 2; gen++ {
		fs, _ := filepath.Glob(filepath.Join(certDir, fmt.Sprintf("g%d", gen), "*.bin"))
		sort.Strings(fs)
		for _, f := range fs {
			chr := filepath.Base(f)
			chr = chr[:len(chr)-4]
			held[fmt.Sprint(gen, chr)] = true
			heldList[gen] = append(heldList[gen], chr)
		}
	}
	entries := [3][]indexEntry{nil, idx.G1, idx.G2}
	net := &trackedNet{}
	old := http.DefaultTransport
	http.DefaultTransport = net
	defer func() { http.DefaultTransport = old }()
	client := cert.NewClient(&http.Client{Transport: net})
	def := tachograph.DefaultCertificateResolver()
	goroutines, files := settled(0), openFiles()

	closed := func(label string, in []byte) {
		for _, b := range net.bodies {
			if b.closed == 0 {
				r.Violate("body-open:"+sanitize(label), label+": the body of a response was never closed", in)
			}
			if b.after > 0 {
				r.Violate("body-used:"+sanitize(label), label+": the body of a response was read after it was closed", in)
			}
			r.Count("bodies watched", 1)
		}
		net.bodies = nil
	}
	left := func(label string) {
		if os.Getenv("ZV_HEAP") != "" {
			fmt.Println(label, cpuSeconds())
		}
		if n := settled(goroutines); n > goroutines+8 {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			r.Violate("goroutines", fmt.Sprintf("after %s %d goroutines run, %d ran before", label, n, goroutines), buf)
			goroutines = n
		}
		if n := openFiles(); n > files+8 {
			r.Violate("files", fmt.Sprintf("after %s %d files are open, %d were before", label, n, files), nil)
			files = n
		}
		r.Count("checks of goroutines and files", 1)
	}

	// ---- lookups over the network ----
	for i, n := 0, r.N(3000, 40000); i < n; i++ {
		gen := 1 + g.N(2)
		if len(entries[gen]) == 0 {
			continue
		}
		e := entries[gen][g.N(len(entries[gen]))]
		good := certFor(g, gen, e.CHR)
		kind := pick(g.Rand, "served", "served", "status", "redirect", "redirect nowhere", "garbage", "empty", "large", "body error", "cut at request", "cut in body", "cut before", "no connection", "status and cut")
		who := pick(g.Rand, "client", "client", "default resolver", "chain", "verify")
		if who != "client" && held[fmt.Sprint(gen, e.CHR)] {
			who = "client"
		}
		label := who + ", " + kind
		t := newTrial(r, g.Rand, label, []byte(e.CHR))
		r.Case(label, []byte(e.CHR))
		hops := 0
		sentinel := anError(g.Rand, "no route")
		net.answer = func(req *http.Request) (int, http.Header, *trackedBody, error) {
			ctx := req.Context()
			t.look("the request", ctx)
			b := &trackedBody{r: bytes.NewReader(good)}
			switch kind {
			case "status", "status and cut":
				b.r = bytes.NewReader(g.Bytes(g.N(3000)))
				if kind == "status and cut" {
					t.cancel() // the answer is refused anyway
				}
				return pick(g.Rand, 404, 500, 503, 403, 204, 206, 304, 410), nil, b, nil
			case "redirect", "redirect nowhere":
				if hops++; hops == 1 {
					h := http.Header{}
					if kind == "redirect" {
						h.Set("Location", "https://elsewhere.example/x")
					}
					return pick(g.Rand, 301, 302, 307, 308), h, b, nil
				}
			case "garbage":
				b.r = bytes.NewReader(g.Bytes(g.N(600)))
			case "empty":
				b.r = bytes.NewReader(nil)
			case "large":
				b.r = io.LimitReader(&endless{}, int64(g.N(300000)))
			case "body error":
				b.r, b.end = bytes.NewReader(good[:g.N(len(good)+1)]), sentinel
				if sentinel == io.EOF {
					b.end = io.ErrUnexpectedEOF
				}
				t.causes = append(t.causes, b.end)
			case "cut at request":
				return 0, nil, nil, t.cut("the request", ctx)
			case "cut in body":
				b.r = bytes.NewReader(good[:g.N(len(good))])
				b.atEnd = func() error { return t.cut("the body of the response", ctx) }
			case "cut before":
				if err := ctx.Err(); err != nil {
					return 0, nil, nil, err
				}
			case "no connection":
				t.causes = append(t.causes, sentinel)
				return 0, nil, nil, sentinel
			}
			return 200, nil, b, nil
		}
		if kind == "cut before" {
			t.cancel()
			t.cause = context.Canceled
		}
		var err error
		net.n = 0
		var p any
		var st string
		switch who {
		case "client":
			l := lookupIn(t.ctx, client, gen, e.CHR)
			err, p, st = l.err, l.panic, l.stack
		case "default resolver":
			l := lookupIn(t.ctx, def, gen, e.CHR)
			err, p, st = l.err, l.panic, l.stack
		case "chain":
			first := anError(g.Rand, "the first source has none")
			var log []string
			l := lookupIn(t.ctx, cert.NewChainResolver(&stubSource{log: &log, err: first}, client), gen, e.CHR)
			err, p, st = l.err, l.panic, l.stack
			if err != nil {
				t.causes = append(t.causes, first)
			}
		case "verify":
			var v uint64
			fmt.Sscan(e.CHR, &v)
			var in []byte
			if gen == 1 {
				in = certCard(g, w, be8(v), nil)
			} else {
				in = certCard(g, w, nil, be8(v))
			}
			f := parse(in).f
			if f == nil {
				r.Count("unparsed cards", 1)
				continue
			}
			p, st = guard(func() { err = tachograph.VerifyFile(t.ctx, f) })
			if p == nil && err == nil && kind != "served" {
				r.Count("verified against what was served", 1)
			}
		}
		if p != nil {
			r.Violate("panic:"+panicSite(st), fmt.Sprintf("%s: %v", label, p), []byte(e.CHR))
		} else {
			t.ended(err)
		}
		closed(label, []byte(e.CHR))
		r.Eval(t.seen > 0 || kind == "cut before", []byte(label), []byte(e.CHR), good)
		r.Count("lookups."+kind, 1)
		t.cancel()
	}
	left("lookups over the network")

	// ---- deadlines that pass while the network is silent ----
	for i, n := 0, r.N(40, 400); i < n; i++ {
		gen := 1 + g.N(2)
		if len(entries[gen]) == 0 {
			continue
		}
		e := entries[gen][g.N(len(entries[gen]))]
		stuck := false
		net.answer = func(req *http.Request) (int, http.Header, *trackedBody, error) {
			wait := func() error {
				select {
				case <-req.Context().Done():
					return req.Context().Err()
				case <-time.After(30 * time.Second):
					stuck = true
					return errors.New("given up")
				}
			}
			if i%2 == 0 {
				return 0, nil, nil, wait()
			}
			return 200, nil, &trackedBody{r: bytes.NewReader(g.Bytes(100)), atEnd: wait}, nil
		}
		r.Case("deadline", []byte(e.CHR))
		ctx, stop := context.WithTimeout(context.Background(), time.Duration(1+g.N(4))*time.Millisecond)
		l := lookupIn(ctx, client, gen, e.CHR)
		stop()
		switch {
		case stuck:
			r.Violate("deadline-ignored", "a request went on for 30 s after the deadline of its lookup", []byte(e.CHR))
			i = n
		case l.err == nil:
			r.Violate("deadline-accepted", "a lookup whose deadline passed returned no error", []byte(e.CHR))
		case !errors.Is(l.err, context.DeadlineExceeded):
			r.Violate("deadline-cause", fmt.Sprintf("a lookup whose deadline passed returned %q, which does not tell so", l.err), []byte(e.CHR))
		}
		closed("deadline", []byte(e.CHR))
		r.Eval(true, []byte("deadline"), []byte{byte(i)}, []byte(e.CHR))
		r.Count("deadlines passed", 1)
	}
	left("lookups that ran out of time")

	// ---- verification with a source of the caller's ----
	var cards [][]byte
	for i := 0; i < 60; i++ {
		cards = append(cards, signedCard(g, w))
	}
	for i, n := 0, r.N(2000, 20000); i < n; i++ {
		in := cards[g.N(len(cards))]
		f := parse(cp(in)).f
		if f == nil {
			r.Count("unparsed cards", 1)
			continue
		}
		t := newTrial(r, g.Rand, "verification", in)
		x := &ctxResolver{t: t, under: ofWorld(w, g.Bool())}
		switch g.N(3) {
		case 0:
			x.cutAt = 1 + g.N(3)
			t.label += " cut short in a lookup"
		case 1:
			x.failAt, x.failWith = 1+g.N(3), anError(g.Rand, "source down")
			t.label += " with a failing source"
		}
		r.Case(t.label, in)
		var res tachograph.CertificateResolver = x
		if g.P(1, 3) {
			var log []string
			res = cert.NewChainResolver(&stubSource{log: &log, err: errors.New("first source: none")}, x)
			t.label += " behind a chain"
		}
		var err error
		p, st := guard(func() { err = tachograph.VerifyOptions{CertificateResolver: res}.VerifyFile(t.ctx, f) })
		if p != nil {
			r.Violate("panic:"+panicSite(st), fmt.Sprintf("%s: %v", t.label, p), in)
		} else {
			if len(t.causes) > 0 && err == nil {
				r.Violate("failure-accepted", t.label+": a source failed, but no error was returned", in)
			}
			t.ended(err)
		}
		r.Eval(t.seen > 0, []byte(t.label), in, []byte{byte(i), byte(i >> 8)})
		r.Count("verifications", 1)
		t.cancel()
	}
	left("verifications")

	r.retention(g, w, net, client, def, entries, heldList, cards)
	left("all rounds")

	r.Require("contexts looked at", 2500)
	r.Require("bodies watched", 1200)
	r.Require("calls cut short", 400)
	r.Require("causes recognised", 800)
	r.Require("deadlines passed", 30)
	r.Require("rounds measured", 30)
	r.Require("calls in measured rounds", 30000)
}

type endless struct{}

func (endless) Read(p []byte) (int, error) { return len(p), nil }

// retention measures what is still held after rounds of calls on inputs never used before, whose results were dropped.
func (r *Run) retention(g *G, w *world, net *trackedNet, client *cert.Client, def tachograph.CertificateResolver, entries [3][]indexEntry, held [3][]string, cards [][]byte) {
	served := [3][]byte{nil, certFor(g, 1, "1"), certFor(g, 2, "1")}
	gen := 1
	mode := 0
	net.answer = func(req *http.Request) (int, http.Header, *trackedBody, error) {
		switch mode++; mode % 4 {
		case 0:
			return 0, nil, nil, errors.New("unreachable")
		case 1:
			return 404, nil, &trackedBody{r: bytes.NewReader(nil)}, nil
		}
		return 200, nil, &trackedBody{r: bytes.NewReader(served[gen])}, nil
	}
	ctx := context.Background()
	emb := cert.NewEmbeddedResolver()
	chain := cert.NewChainResolver(failResolver{}, emb, failResolver{})
	src := ofWorld(w, true)
	lookup := func(s certSource, random bool) func() {
		return func() {
			gen = 1 + g.N(2)
			chr := fmt.Sprint(g.U64())
			if !random && len(entries[gen]) > 0 {
				chr = entries[gen][g.N(len(entries[gen]))].CHR
			}
			lookupIn(ctx, s, gen, chr)
		}
	}
	// the pool of genuine cards with certificates altered makes inputs never used before at little cost
	fresh := func() *File {
		b := cp(cards[g.N(len(cards))])
		ts, ok := splitTLV(b)
		if !ok {
			return nil
		}
		for i, t := range ts {
			if t.FID == 0xC100 && len(t.Val) == 194 {
				copy(ts[i].Val, g.Bytes(8))
				if g.Bool() {
					copy(ts[i].Val[186:], g.Bytes(8))
				}
			}
		}
		return parse(joinTLV(ts)).f
	}
	for _, c := range []struct {
		name string
		n    int
		f    func()
	}{
		{"parsing", r.N(700, 3000), func() { _, b := anyFile(g); parse(b) }},
		{"parsing vehicle unit downloads", r.N(400, 2000), func() { parse(joinTransfers(genVU(g, 1+g.N(3), 3))) }},
		{"parsing refused input", r.N(3000, 20000), func() { parse(append([]byte{byte(g.N(2) * 0x76), byte(g.N(40))}, g.Bytes(g.N(200))...)) }},
		{"marshalling", r.N(500, 2500), func() {
			_, b := anyFile(g)
			if f := parse(b).f; f != nil {
				marshal(f)
			}
		}},
		{"verifying", r.N(800, 4000), func() {
			if f := fresh(); f != nil {
				guard(func() { tachograph.VerifyOptions{CertificateResolver: src}.VerifyFile(ctx, f) })
				src.calls = nil
			}
		}},
		{"verifying with the default resolver", r.N(240, 3000), func() {
			if f := fresh(); f != nil {
				guard(func() { tachograph.VerifyFile(ctx, f) })
			}
		}},
		{"embedded lookups", r.N(6000, 30000), lookup(emb, true)},
		{"embedded lookups of held certificates", r.N(4000, 20000), func() {
			gen = 1 + g.N(2)
			if len(held[gen]) > 0 {
				lookupIn(ctx, emb, gen, held[gen][g.N(len(held[gen]))])
			}
		}},
		{"chain lookups", r.N(6000, 30000), lookup(chain, true)},
		{"client lookups", r.N(240, 4000), lookup(client, false)},
		{"default resolver lookups", r.N(240, 4000), lookup(def, true)},
		{"certificates", r.N(6000, 30000), func() {
			var b []byte
			if gen = 1 + g.N(2); gen == 1 {
				b = genRsaCertBytes(g)
				guard(func() { security.UnmarshalRsaCertificate(b) })
				return
			}
			b = genEccParts(g).bytes()
			guard(func() {
				if c, err := security.UnmarshalEccCertificate(b); err == nil {
					security.VerifyEccCertificateWithCA(c, c)
				}
			})
		}},
	} {
		const rounds = 6
		var at [rounds]int64
		for k := 0; k < rounds; k++ {
			for j := 0; j < c.n; j++ {
				if j%50 == 0 {
					r.Case(c.name, nil)
				}
				c.f()
				net.bodies = nil
			}
			at[k] = liveHeap()
		}
		grows := true
		for k := 2; k < rounds; k++ {
			grows = grows && at[k] > at[k-1]
		}
		total, calls := at[rounds-1]-at[1], int64(c.n*(rounds-2))
		if os.Getenv("ZV_HEAP") != "" {
			fmt.Println("heap", c.name, at, total, calls, cpuSeconds())
		}
		if grows && total > 24<<10 && total > 4*calls {
			r.Violate("retained:"+sanitize(c.name), fmt.Sprintf("%s: %d calls on inputs never used before left %d bytes on the heap (live heap after each round: %d)", c.name, calls, total, at), nil)
		}
		r.Count("rounds measured", rounds)
		r.Count("calls in measured rounds", c.n*rounds)
		for k := range at {
			r.Eval(c.n >= 100, []byte(c.name), []byte{byte(k)})
		}
	}
}
