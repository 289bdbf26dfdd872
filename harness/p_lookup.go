package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/cert"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	"google.golang.org/protobuf/proto"
)

func init() { register("P15", runP15) }

const certDir = "/repo/internal/cert/certcache"

type indexEntry struct{ CHR, URL string }
type certIndex struct{ G1, G2 []indexEntry }

// stubSource is a resolver that succeeds or fails by plan and logs what it was asked.
type stubSource struct {
	id      int
	log     *[]string
	ok      bool
	litter  bool // it returns something along with its error
	err     error
	rootMsg *securityv1.RootCertificate
	rsa     *securityv1.RsaCertificate
	ecc     *securityv1.EccCertificate
}

func (s *stubSource) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) {
	*s.log = append(*s.log, fmt.Sprintf("%d root", s.id))
	if s.ok {
		return s.rootMsg, nil
	}
	if s.litter {
		return s.rootMsg, s.err
	}
	return nil, s.err
}
func (s *stubSource) GetRsaCertificate(_ context.Context, chr string) (*securityv1.RsaCertificate, error) {
	*s.log = append(*s.log, fmt.Sprintf("%d rsa %s", s.id, chr))
	if s.ok {
		return s.rsa, nil
	}
	if s.litter {
		return s.rsa, s.err
	}
	return nil, s.err
}
func (s *stubSource) GetEccCertificate(_ context.Context, chr string) (*securityv1.EccCertificate, error) {
	*s.log = append(*s.log, fmt.Sprintf("%d ecc %s", s.id, chr))
	if s.ok {
		return s.ecc, nil
	}
	if s.litter {
		return s.ecc, s.err
	}
	return nil, s.err
}

// stubNet answers HTTP requests in memory.
type stubNet struct {
	mu     sync.Mutex
	urls   []string
	answer func(req *http.Request) (*http.Response, error)
}

func (s *stubNet) RoundTrip(req *http.Request) (*http.Response, error) {
	s.mu.Lock()
	s.urls = append(s.urls, req.Method+" "+req.URL.String())
	s.mu.Unlock()
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	return s.answer(req)
}

func (s *stubNet) take() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	u := s.urls
	s.urls = nil
	return u
}

type badBody struct {
	r   io.Reader
	err error
}

func (b *badBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = b.err
	}
	return n, err
}
func (b *badBody) Close() error { return nil }

func reply(req *http.Request, status int, body []byte) *http.Response {
	return &http.Response{StatusCode: status, Status: fmt.Sprintf("%d X", status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
		Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Request: req}
}

// certFor makes the certificate a source would serve for a reference.
func certFor(g *G, gen int, chr string) []byte { return certBy(g, gen, chr, "") }

// certBy also names the authority, if one is given.
func certBy(g *G, gen int, chr, car string) []byte {
	if gen == 1 {
		return genRsaCertBytes(g)
	}
	var n uint64
	fmt.Sscan(chr, &n)
	for {
		e := genEccParts(g)
		e.chr = be8(n)
		if car != "" {
			var m uint64
			fmt.Sscan(car, &m)
			e.car = be8(m)
		}
		if b := e.bytes(); len(b) >= 204 && len(b) <= 341 {
			return b
		}
	}
}

type lookup struct {
	raw   []byte
	err   error
	msg   proto.Message
	panic any
	stack string
	some  bool
}

type certSource interface {
	GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error)
	GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error)
}

func lookupIn(ctx context.Context, s certSource, gen int, chr string) (l lookup) {
	l.panic, l.stack = guard(func() {
		if gen == 1 {
			c, err := s.GetRsaCertificate(ctx, chr)
			l.raw, l.err, l.msg, l.some = c.GetRawData(), err, c, c != nil
		} else {
			c, err := s.GetEccCertificate(ctx, chr)
			l.raw, l.err, l.msg, l.some = c.GetRawData(), err, c, c != nil
		}
	})
	return
}

func runP15(r *Run) {
	r.rule = "one case = one lookup: a chain of stub sources with one success/failure pattern, a reference in the embedded store, or a remote lookup with one scripted server response; non-trivial = every lookup; distinct by reference, source plan and response"
	r.assume = []string{"the index file and the certificate files of the working tree are the reference for what the embedded store lists and holds", "holder references of first generation certificates cannot be read without the root key, so a remote server's first generation answer is not checked against the reference"}
	g := &G{Rand: NewRand(r.Seed, "P15")}
	ctx := context.Background()
	expect := func(label string, in string, l lookup, want []byte) {
		r.Case(label, []byte(in))
		r.Eval(true, []byte(label), []byte(in), want)
		switch {
		case l.panic != nil:
			r.Violate("panic:"+panicSite(l.stack), fmt.Sprintf("%s %s: %v", label, in, l.panic), []byte(in))
		case want == nil && l.err == nil:
			r.Violate("no-error:"+sanitize(label), fmt.Sprintf("%s: looking up %q succeeded with %d bytes, an error was expected", label, in, len(l.raw)), []byte(in))
		case want == nil && l.some:
			r.Violate("error-and-certificate", fmt.Sprintf("%s: looking up %q returned both an error and a certificate", label, in), []byte(in))
		case want != nil && l.err != nil:
			r.Violate("not-found:"+sanitize(label), fmt.Sprintf("%s: looking up %q failed: %v", label, in, l.err), []byte(in))
		case want != nil && !bytes.Equal(l.raw, want):
			r.Violate("wrong-certificate:"+sanitize(label), fmt.Sprintf("%s: looking up %q returned other bytes (%s, want %s)", label, in, hexs(l.raw), hexs(want)), []byte(in))
		case want != nil:
			r.Count("found", 1)
			d := &differ{}
			if len(want) == 194 {
				d.compare("", decRsaCert(want), l.msg.ProtoReflect())
			} else {
				d.compare("", decEccCert(want), l.msg.ProtoReflect())
			}
			for _, x := range d.out {
				r.Violate("field:"+pathKey(x.Path), label+": "+x.String(), want)
			}
		default:
			r.Count("errors", 1)
		}
	}

	// ---- chains of sources, every pattern ----
	maxLen := r.N(6, 10)
	for n := 0; n <= maxLen; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			var log []string
			var src []cert.Resolver
			var stubs []*stubSource
			for i := 0; i < n; i++ {
				s := &stubSource{id: i, err: anError(g.Rand, fmt.Sprint("source ", i)), log: &log, ok: mask>>i&1 == 1, litter: g.P(1, 3), rootMsg: &securityv1.RootCertificate{}, rsa: &securityv1.RsaCertificate{}, ecc: &securityv1.EccCertificate{}}
				s.rootMsg.SetKeyId(fmt.Sprint(i))
				s.rsa.SetCertificateHolderReference(fmt.Sprint(i))
				s.ecc.SetCertificateHolderReference(fmt.Sprint(i))
				stubs = append(stubs, s)
				src = append(src, s)
			}
			ch := cert.NewChainResolver(src...)
			first := -1
			for i := n - 1; i >= 0; i-- {
				if mask>>i&1 == 1 {
					first = i
				}
			}
			asked := n
			if first >= 0 {
				asked = first + 1
			}
			for round := 0; round < 2; round++ { // a chain keeps no memory of earlier failures
				for kind, what := range []string{"root", "rsa", "ecc"} {
					log = nil
					chr := fmt.Sprint(g.U64())
					var got, want any
					var err error
					p, st := guard(func() {
						switch kind {
						case 0:
							c, e := ch.GetRootCertificate(ctx)
							err = e
							if c != nil {
								got = c
							}
							if first >= 0 {
								want = stubs[first].rootMsg
							}
						case 1:
							c, e := ch.GetRsaCertificate(ctx, chr)
							err = e
							if c != nil {
								got = c
							}
							if first >= 0 {
								want = stubs[first].rsa
							}
						case 2:
							c, e := ch.GetEccCertificate(ctx, chr)
							err = e
							if c != nil {
								got = c
							}
							if first >= 0 {
								want = stubs[first].ecc
							}
						}
					})
					desc := fmt.Sprintf("chain of %d sources, pattern %0*b, %s", n, n, mask, what)
					r.Eval(true, []byte(desc))
					r.Count("chain_lookups", 1)
					if p != nil {
						r.Violate("panic:"+panicSite(st), desc+": "+fmt.Sprint(p), nil)
						continue
					}
					if (err == nil) != (first >= 0) || got != nil && want == nil || want != nil && (got == nil || !proto.Equal(got.(proto.Message), want.(proto.Message))) {
						r.Violate("chain-result:"+what, fmt.Sprintf("%s: first working source is %d, got %v, error %v", desc, first, got, err), nil)
					}
					var wantLog []string
					for i := 0; i < asked; i++ {
						e := fmt.Sprintf("%d %s", i, what)
						if kind > 0 {
							e += " " + chr
						}
						wantLog = append(wantLog, e)
					}
					if strings.Join(log, "|") != strings.Join(wantLog, "|") {
						r.Violate("chain-order:"+what, fmt.Sprintf("%s: asked %v, want %v", desc, log, wantLog), nil)
					}
				}
			}
		}
	}

	// ---- the embedded store ----
	var idx certIndex
	if b, err := os.ReadFile(filepath.Join(certDir, "index.json")); err != nil || json.Unmarshal(b, &idx) != nil {
		panic("cannot read the certificate index of the working tree")
	}
	held := [3]map[string][]byte{}
	for gen := 1; gen <= 2; gen++ {
		held[gen] = map[string][]byte{}
		fs, _ := filepath.Glob(filepath.Join(certDir, fmt.Sprintf("g%d", gen), "*.bin"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err == nil {
				held[gen][strings.TrimSuffix(filepath.Base(f), ".bin")] = b
			}
		}
	}
	stub := &stubNet{}
	http.DefaultTransport = stub
	offline := func(*http.Request) (*http.Response, error) { return nil, errors.New("network unreachable") }
	stub.answer = offline
	emb := cert.NewEmbeddedResolver()
	def := tachograph.DefaultCertificateResolver()
	entries := [3][]indexEntry{nil, idx.G1, idx.G2}
	urls := [3]map[string][]string{nil, {}, {}}
	for gen := 1; gen <= 2; gen++ {
		for _, e := range entries[gen] {
			urls[gen][e.CHR] = append(urls[gen][e.CHR], e.URL)
		}
	}
	r.Count("listed", len(idx.G1)+len(idx.G2))
	r.Count("held", len(held[1])+len(held[2]))
	rootBytes, _ := os.ReadFile(filepath.Join(certDir, "root", "EC_PK.bin"))
	for round := 0; round < 3; round++ {
		for _, s := range []interface {
			certSource
			GetRootCertificate(context.Context) (*securityv1.RootCertificate, error)
		}{emb, def} {
			c, err := s.GetRootCertificate(ctx)
			r.Eval(true, []byte("root"), []byte{byte(round)})
			if err != nil || c.GetKeyId() != dec8(rootBytes[:8]) || !bytes.Equal(c.GetRsaModulus(), rootBytes[8:136]) || !bytes.Equal(c.GetRsaExponent(), rootBytes[136:144]) {
				r.Violate("root", fmt.Sprintf("round %d: root lookup gave %v, %v", round, c, err), rootBytes)
			} else {
				r.Count("found", 1)
				scribble(c.ProtoReflect()) // the caller may do what it likes with what it was given
			}
		}
		for gen := 1; gen <= 2; gen++ {
			for _, chr := range sortedKeys(held[gen]) {
				l := lookupIn(ctx, emb, gen, chr)
				expect(fmt.Sprintf("embedded gen%d", gen), chr, l, held[gen][chr])
				if l.msg != nil && l.err == nil {
					scribble(l.msg.ProtoReflect())
				}
				stub.take()
				l = lookupIn(ctx, def, gen, chr)
				expect(fmt.Sprintf("default resolver, embedded gen%d", gen), chr, l, held[gen][chr])
				if u := stub.take(); len(u) > 0 {
					r.Violate("network-used", fmt.Sprintf("looking up the embedded reference %s made requests %v", chr, u), nil)
				}
				if _, both := held[3-gen][chr]; !both {
					expect("other generation", chr, lookupIn(ctx, emb, 3-gen, chr), nil)
				}
			}
			for _, e := range entries[gen] {
				if _, ok := held[gen][e.CHR]; !ok {
					expect("listed but not held", e.CHR, lookupIn(ctx, emb, gen, e.CHR), nil)
				}
			}
			bad := []string{"", ".", "..", "/", "../root/EC_PK", "../g1/1316820541096591105", "../g2/1316820541130145537", "1316820541096591105.bin", " 1316820541096591105", "01316820541096591105", "*", "g1/1316820541096591105", "EC_PK", "-1", "131682054109659110", "18250066869723594497"}
			for i := 0; i < r.N(300, 3000); i++ {
				bad = append(bad, fmt.Sprint(g.U64()))
			}
			for _, chr := range bad {
				if _, ok := held[gen][chr]; ok || urls[gen][chr] != nil {
					continue
				}
				if gen == 2 && strings.HasPrefix(chr, "../g2/") || gen == 1 && strings.HasPrefix(chr, "../g1/") {
					continue
				}
				expect("unknown reference", chr, lookupIn(ctx, emb, gen, chr), nil)
				stub.take()
				expect("unknown reference, default resolver", chr, lookupIn(ctx, def, gen, chr), nil)
				expect("unknown reference, client", chr, lookupIn(ctx, cert.NewClient(&http.Client{Transport: stub}), gen, chr), nil)
				stub.take()
			}
		}
	}

	// ---- the remote source, every listed reference ----
	served := map[string][]byte{}
	answer := func(req *http.Request) (*http.Response, error) {
		if b, ok := served[req.URL.String()]; ok {
			return reply(req, 200, b), nil
		}
		return reply(req, 404, []byte("no")), nil
	}
	norm := func(s string) string {
		if u, err := url.Parse(s); err == nil {
			return u.String()
		}
		return s
	}
	client := cert.NewClient(&http.Client{Transport: stub})
	for gen := 1; gen <= 2; gen++ {
		for i, e := range entries[gen] {
			stub.answer = answer
			served = map[string][]byte{}
			want := certFor(g, gen, e.CHR)
			// every other listed address serves something else
			for q := 0; q < 8; q++ {
				o := entries[gen][g.N(len(entries[gen]))]
				served[norm(o.URL)] = certFor(g, gen, o.CHR)
			}
			for _, u := range urls[gen][e.CHR] {
				served[norm(u)] = want
			}
			stub.take()
			expect(fmt.Sprintf("remote gen%d", gen), e.CHR, lookupIn(ctx, client, gen, e.CHR), want)
			u := stub.take()
			okURL := false
			for _, x := range urls[gen][e.CHR] {
				okURL = okURL || len(u) == 1 && u[0] == "GET "+norm(x)
			}
			if !okURL {
				r.Violate("requests", fmt.Sprintf("looking up %s requested %v, its listed address is %v", e.CHR, u, urls[gen][e.CHR]), nil)
			}
			r.Count("http_requests", len(u))
			if _, ok := held[gen][e.CHR]; !ok && g.P(1, 4) {
				expect("default resolver, remote", e.CHR, lookupIn(ctx, def, gen, e.CHR), want)
				stub.answer = offline
				expect("default resolver, offline", e.CHR, lookupIn(ctx, def, gen, e.CHR), nil)
			}
			// one fault per reference
			kind, bodyErr := "", error(nil)
			body, status := want, 200
			switch i % 16 {
			case 0:
				kind, status = "status", pick(g.Rand, 400, 401, 403, 404, 410, 429)
			case 1:
				kind, status = "status", pick(g.Rand, 500, 501, 502, 503, 504, 599)
			case 2:
				kind, body = "empty", nil
			case 3:
				kind, body = "truncated", want[:g.N(len(want)-1)]
				if gen == 2 {
					body = want[:len(want)-1-g.N(len(want)-1)]
				}
			case 4:
				kind, body = "trailing", append(cp(want), g.Bytes(150+g.N(300))...)
			case 5:
				kind, body = "html", []byte("<html>"+strings.Repeat("x", 240)+"</html>")
				if gen == 1 {
					body = []byte("<html>" + strings.Repeat("x", 500) + "</html>")
				}
			case 6:
				kind, bodyErr = "body error", errors.New("connection reset")
			case 7:
				kind, bodyErr = "body cut", io.ErrUnexpectedEOF
			case 8:
				kind, status = "redirect without target", 302
			case 9:
				kind, status, body = "no content", 204, nil
			case 10:
				kind = "unreachable"
			case 11:
				kind = "other generation"
				body = certFor(g, 3-gen, e.CHR)
				if gen == 2 && len(body) != 194 || gen == 1 && len(body) == 194 {
					continue
				}
			case 12:
				if gen == 1 {
					continue
				}
				near, _ := strconv.ParseUint(e.CHR, 10, 64) // the same authority's next key, or anything else
				kind, body = "another holder", certFor(g, 2, fmt.Sprint(pick(g.Rand, g.U64(), near^1<<g.N(64), near^0x100, near+1, near-1)))
				if g.P(1, 3) { // one of those the holder has issued
					kind, body = "issued by the holder", certBy(g, 2, fmt.Sprint(g.U64()), e.CHR)
				}
			case 13:
				kind = "cancelled"
			case 14:
				kind, status = "server error with the certificate", pick(g.Rand, 500, 404, 503)
			default:
				kind, body = "wrong length", append(cp(want), make([]byte, 400)...)
			}
			if bytes.Equal(body, want) && status == 200 && bodyErr == nil && kind != "unreachable" && kind != "cancelled" {
				continue
			}
			c2 := ctx
			if kind == "cancelled" {
				q, cancel := context.WithCancel(ctx)
				cancel()
				c2 = q
			}
			stub.answer = func(req *http.Request) (*http.Response, error) {
				if kind == "unreachable" {
					return nil, &net.OpError{Op: "dial", Err: errors.New("unreachable")}
				}
				rs := reply(req, status, body)
				if bodyErr != nil {
					rs.Body = &badBody{bytes.NewReader(body[:g.N(len(body)+1)]), bodyErr}
				}
				return rs, nil
			}
			stub.take()
			expect("fault: "+kind, e.CHR, lookupIn(c2, client, gen, e.CHR), nil)
			r.Count("faults."+sanitize(kind), 1)
			if _, ok := held[gen][e.CHR]; !ok {
				expect("default resolver, fault: "+kind, e.CHR, lookupIn(c2, def, gen, e.CHR), nil)
			}
			// the source recovers
			stub.answer = answer
			expect("after a fault", e.CHR, lookupIn(ctx, client, gen, e.CHR), want)
		}
	}

	// ---- a real server on the loopback interface ----
	r.loopback(g, entries)
	r.Require("found", 1000)
	r.Require("errors", 1000)
	r.Require("chain_lookups", 300)
	r.Require("http_requests", 500)
	r.Require("loopback", 40)
}

// loopback drives the client through real connections that are cut, delayed or misdeclared.
func (r *Run) loopback(g *G, entries [3][]indexEntry) {
	var mode string
	var body []byte
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		hj := func(text string) {
			c, buf, err := w.(http.Hijacker).Hijack()
			if err != nil {
				return
			}
			buf.WriteString(text)
			buf.Flush()
			c.Close()
		}
		switch mode {
		case "whole":
			w.Write(body)
		case "chunked":
			for i := 0; i < len(body); i += 7 {
				w.Write(body[i:min(i+7, len(body))])
				w.(http.Flusher).Flush()
			}
		case "cut":
			hj(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(body), body[:len(body)/2]))
		case "cut chunk":
			hj(fmt.Sprintf("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n40\r\nabc", len(body), body))
		case "no response":
			hj("")
		case "garbage":
			hj("BOO\r\n\r\n")
		case "redirect loop":
			http.Redirect(w, req, req.URL.Path+"x", http.StatusFound)
		case "redirect":
			if strings.HasSuffix(req.URL.Path, "target") {
				w.Write(body)
				return
			}
			http.Redirect(w, req, "/target", http.StatusFound)
		}
	}))
	defer srv.Close()
	u, _ := url.Parse(srv.URL)
	tr := &http.Transport{}
	c := cert.NewClient(&http.Client{Transport: rewrite{tr, u.Host}})
	for i := 0; i < r.N(96, 600); i++ {
		gen := 1 + i%2
		e := entries[gen][g.N(len(entries[gen]))]
		body = certFor(g, gen, e.CHR)
		ms := []string{"whole", "chunked", "cut", "cut chunk", "no response", "garbage", "redirect loop", "redirect"}
		mode = ms[i/2%len(ms)]
		good := mode == "whole" || mode == "chunked" || mode == "redirect"
		r.Case("loopback "+mode, body)
		r.Eval(true, []byte(mode), body)
		l := lookupIn(context.Background(), c, gen, e.CHR)
		r.Count("loopback", 1)
		switch {
		case l.panic != nil:
			r.Violate("panic:"+panicSite(l.stack), fmt.Sprintf("loopback %s: %v", mode, l.panic), body)
		case good && (l.err != nil || !bytes.Equal(l.raw, body)):
			r.Violate("loopback:"+sanitize(mode), fmt.Sprintf("server answered (%s) with a certificate, lookup gave %d bytes, %v", mode, len(l.raw), l.err), body)
		case !good && (l.err == nil || l.some):
			r.Violate("loopback:"+sanitize(mode), fmt.Sprintf("server failed (%s), lookup gave %d bytes, %v", mode, len(l.raw), l.err), body)
		}
	}
	tr.CloseIdleConnections()
}

type rewrite struct {
	t    http.RoundTripper
	host string
}

func (x rewrite) RoundTrip(req *http.Request) (*http.Response, error) {
	q := req.Clone(req.Context())
	q.URL.Scheme, q.URL.Host, q.Host = "http", x.host, x.host
	return x.t.RoundTrip(q)
}
