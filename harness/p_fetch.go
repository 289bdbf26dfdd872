package main

import (
	"archive/zip"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha1"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"html"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() { register("P22", runP22) }

// The certificate tool talks to a web site; here the site is a local server that misbehaves on demand. The root key
// comes from a fixed https address, reached through a local proxy and a certificate authority of our own.

type served struct {
	status int
	body   []byte
	fault  string // "", "close", "short", "redirect-html", "chunked-cut"
	slow   time.Duration
	block  string // a folder of this name is made in the cache before the answer
}

type fetchSite struct {
	mu       sync.Mutex
	pages    map[string]served // by request URI
	requests map[string]int
	out      string // the cache directory of the current run
}

func (s *fetchSite) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	uri := req.RequestURI
	s.mu.Lock()
	p, ok := s.pages[uri]
	s.requests[uri]++
	if p.block != "" {
		os.MkdirAll(filepath.Join(s.out, p.block), 0o755)
	}
	s.mu.Unlock()
	if !ok {
		http.NotFound(w, req)
		return
	}
	time.Sleep(p.slow)
	hijack := func(f func(c net.Conn)) {
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		f(c)
		c.Close()
	}
	switch p.fault {
	case "close":
		hijack(func(c net.Conn) {})
	case "short":
		hijack(func(c net.Conn) {
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(p.body))
			c.Write(p.body[:len(p.body)*2/3])
		})
	case "chunked-cut":
		hijack(func(c net.Conn) {
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n", len(p.body))
			c.Write(p.body)
			c.Write([]byte("\r\n")) // and no last chunk
		})
	case "redirect":
		http.Redirect(w, req, uri+"/moved", http.StatusFound)
	case "drip":
		w.Header().Set("Content-Length", fmt.Sprint(len(p.body)))
		for i := 0; i < len(p.body); i += 40 {
			w.Write(p.body[i:min(i+40, len(p.body))])
			w.(http.Flusher).Flush()
			time.Sleep(time.Millisecond)
		}
	default:
		w.WriteHeader(p.status)
		w.Write(p.body)
	}
}

// fetchWorld is the local network of the tool.
type fetchWorld struct {
	site     *fetchSite
	root     *fetchSite
	base     string
	env      []string
	shutdown func()
}

func newFetchWorld(dir string) (*fetchWorld, error) {
	w := &fetchWorld{site: &fetchSite{requests: map[string]int{}}, root: &fetchSite{requests: map[string]int{}}}
	var closers []io.Closer
	listen := func() (net.Listener, error) {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err == nil {
			closers = append(closers, l)
		}
		return l, err
	}
	web, err := listen()
	if err != nil {
		return nil, err
	}
	go http.Serve(web, w.site)
	w.base = "http://" + web.Addr().String()

	// an authority and a certificate for the official name
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return nil, err
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "local"}, NotBefore: time.Now().Add(-time.Hour * 48), NotAfter: time.Now().Add(time.Hour * 480),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		DNSNames: []string{"dtc.jrc.ec.europa.eu"}}
	der, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		return nil, err
	}
	caFile := filepath.Join(dir, "ca.pem")
	if err := os.WriteFile(caFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644); err != nil {
		return nil, err
	}
	tl, err := listen()
	if err != nil {
		return nil, err
	}
	secure := tls.NewListener(tl, &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}})
	go http.Serve(secure, w.root)
	// the proxy connects the official name to that server, and nothing else
	px, err := listen()
	if err != nil {
		return nil, err
	}
	go http.Serve(px, http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		if req.Method != http.MethodConnect || req.Host != "dtc.jrc.ec.europa.eu:443" {
			http.Error(rw, "no", http.StatusForbidden)
			return
		}
		up, err := net.Dial("tcp", tl.Addr().String())
		if err != nil {
			http.Error(rw, "no", http.StatusBadGateway)
			return
		}
		c, _, err := rw.(http.Hijacker).Hijack()
		if err != nil {
			up.Close()
			return
		}
		io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
		go func() { io.Copy(up, c); up.Close() }()
		io.Copy(c, up)
		c.Close()
	}))
	proxy := "http://" + px.Addr().String()
	w.env = []string{"HTTPS_PROXY=" + proxy, "https_proxy=" + proxy, "HTTP_PROXY=", "http_proxy=", "NO_PROXY=", "no_proxy=", "SSL_CERT_FILE=" + caFile, "SSL_CERT_DIR=" + filepath.Join(dir, "none")}
	w.shutdown = func() {
		for _, c := range closers {
			c.Close()
		}
	}
	return w, nil
}

// fetchCert is a certificate the site may serve.
type fetchCert struct {
	raw      []byte
	chr, car string
	eov      uint32 // first generation
}

type fetchPool struct {
	rootKey  []byte
	g1, g2   []fetchCert
	html1    fetchCert   // a genuine first generation certificate that begins with '<'
	samechr1 []fetchCert // certificates of one holder
	samechr2 []fetchCert
	forged1  [][]byte // signed by the root key, but not over their content
	odd2     [][]byte // second generation certificates with references of a wrong size
	short2   [][]byte // well-formed ones of fewer bytes than a certificate can have
	decoy    []byte   // the key of another root
}

func newFetchPool(g *Rand, n1, n2 int) *fetchPool {
	p := &fetchPool{}
	root := newRSAKey(g, 65537)
	rootCHR := ref8(g)
	rootCHR[0] |= 0x80 // as the real one has
	p.rootKey = append(append(cp(rootCHR), fixed(root.n, 128)...), fixed(root.e, 8)...)
	var last uint32
	mk1 := func(chr []byte) fetchCert {
		c := genRsaContent(g, rootCHR, chr, nil)
		if last > 1<<20 && last < 1<<32-1<<20 && g.P(2, 3) { // within days, hours or seconds of another
			c.eov = last + uint32(g.N(2*864000)) - 864000
			if g.Bool() {
				c.eov = last + uint32(g.N(60)) - 30
			}
		}
		last = c.eov
		return fetchCert{root.cert(c, rootCHR), dec8(chr), dec8(rootCHR), c.eov}
	}
	for i := 0; i < n1; i++ {
		c := mk1(ref8(g))
		for c.raw[0] == '<' {
			c = mk1(ref8(g))
		}
		p.g1 = append(p.g1, c)
	}
	for {
		p.html1 = mk1(ref8(g))
		if p.html1.raw[0] == '<' {
			break
		}
	}
	chr := ref8(g)
	p.samechr1 = []fetchCert{mk1(chr), mk1(chr)}
	keys := map[*curve]*eccKey{}
	for _, c := range curves {
		keys[c] = newECCKey(g, c)
	}
	mk2 := func(chr []byte) fetchCert {
		for {
			sub := curves[g.N(len(curves))]
			iss := keys[curves[g.N(len(curves))]]
			car := ref8(g)
			c := iss.issue(g, car, chr, sub, keys[sub].q)
			if len(c.raw) >= 204 && len(c.raw) <= 341 {
				return fetchCert{c.raw, dec8(chr), dec8(car), 0}
			}
		}
	}
	body2 := func(car, chr []byte, flen, sig int) []byte {
		c := eccCurves[0]
		return eccCertWrap(eccCertBody(0, car, g.Bytes(7), c, g.Bytes(flen), g.Bytes(flen), chr, 1, 2), g.Bytes(sig))
	}
	for i := 0; i < n2; i++ {
		p.g2 = append(p.g2, mk2(ref8(g)))
	}
	for i := 0; i < 2; i++ { // of the least size
		for sig := 40; sig <= 84; sig++ {
			car, chr := ref8(g), ref8(g)
			if b := body2(car, chr, 32, sig); len(b) == 204 {
				p.g2[i*n2/2] = fetchCert{b, dec8(chr), dec8(car), 0}
			}
		}
	}
	chr = ref8(g)
	p.samechr2 = []fetchCert{mk2(chr), mk2(chr)}
	for i := 0; i < 12; i++ {
		m := genRsaContent(g, rootCHR, ref8(g), nil).bytes()
		h := sha1.Sum(m)
		rep := append(append(append([]byte{0x6A}, m[:106]...), h[:]...), 0xBC)
		cn := cp(m[106:])
		switch i % 4 {
		case 0:
			rep[107+g.N(20)] ^= byte(1 << g.N(8)) // one bit of the hash
		case 1:
			rep[126] ^= byte(1 + g.N(255)) // its last byte
		case 2:
			rep[[]int{0, 127}[i/4%2]] ^= byte(1 << g.N(5))
		case 3:
			cn[g.N(58)] ^= byte(1 << g.N(8)) // the part that is not in the signature
		}
		p.forged1 = append(p.forged1, root.signRaw(rep, cn, rootCHR))
	}
	for i := 0; i < 12; i++ {
		car, chr := ref8(g), ref8(g)
		odd := g.Bytes([]int{9, 12, 1, 4, 7, 16}[i/2])
		odd[0] |= 1
		if i%2 == 0 {
			chr = odd
		} else {
			car = odd
		}
		p.odd2 = append(p.odd2, body2(car, chr, 40, 72))
	}
	for n := 203; n >= 190; n-- { // every size down from the first that is too small
		for sig := 40; sig <= 64; sig++ {
			if b := body2(ref8(g), ref8(g), 32, sig); len(b) == n {
				p.short2 = append(p.short2, b)
				break
			}
		}
	}
	other := newRSAKey(g, 65537)
	p.decoy = append(append(ref8(g), fixed(other.n, 128)...), fixed(other.e, 8)...)
	return p
}

var fetchCountries = []string{"Andorra", "Austria", "Belgium", "Bosnia Herzegovina", "Czech Republic", "Türkiye", "United Kingdom", "Ukraine", "Sweden", "Spain", "Malta", "Côte d'Azur & Sons", "UAE", "Österreich"}

// fetchRow is one row of a list.
type fetchRow struct {
	uri, country, date string
	cert               *fetchCert // what a correct tool keeps of it, or nil
	what               string
}

// fetchScenario is the state of the site for one run.
type fetchScenario struct {
	pages map[string]served
	rows  [2][]fetchRow
	fails string // why the tool cannot succeed, if so
	root  map[string]served
}

func rootZip(files map[string][]byte) []byte {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	names := sortedKeys(files)
	for _, n := range names {
		w, _ := z.Create(n)
		w.Write(files[n])
	}
	z.Close()
	return b.Bytes()
}

const rootURI = "/erca_of_doc/EC_PK.zip"

var listURI = [2]string{"/dtc_public_key_certificates_dt.php.html", "/dtc_public_key_certificates_st.php.html"}

func (p *fetchPool) scenario(g *Rand, failing bool) *fetchScenario {
	s := &fetchScenario{pages: map[string]served{}, root: map[string]served{}}
	files := map[string][]byte{"EC_PK.bin": p.rootKey, "README.txt": []byte("x")}
	if g.Bool() {
		files[pick(g, "2009/EC_PK.bin", "ARCHIVE_EC_PK.bin", "0EC_PK.bin", "EC_PK.bin.sig", "EC_PK", "EC_PK.BIN")] = p.decoy
	}
	s.root[rootURI] = served{status: 200, body: rootZip(files)}
	for gen := 0; gen < 2; gen++ {
		pool := p.g1
		if gen == 1 {
			pool = p.g2
		}
		perm := g.Perm(len(pool))
		n := g.N(len(pool) + 1)
		if g.P(1, 10) {
			n = 0
		}
		next := 0
		dates := []string{"", "21/03/2031", "2031-03-21", "01/01/2024", "2024-02-30", "31/12/2029", fmt.Sprintf("%02d/%02d/%d", 1+g.N(28), 1+g.N(12), 2020+g.N(20)),
			fmt.Sprintf("%d-%02d-%02d", 2020+g.N(20), 1+g.N(12), 1+g.N(28)), pick(g, "29/02/2032", "2032-02-29", "2031-02-28", "28/02/2031"), fmt.Sprintf("%d-02-%02d", 2020+g.N(20), 1+g.N(28))}
		var rows []fetchRow
		blocked := map[string]bool{}
		add := func(name string, sv served, cert *fetchCert, what string) fetchRow {
			dirn := [2]string{"BIN_DT", "BIN_ST"}[gen]
			uri := fmt.Sprintf("%s/%s", dirn, name)
			switch g.N(5) {
			case 0:
				uri = "download.php?x=" + dirn + "&file=iot_doc/" + name
			case 1:
				uri = dirn + "/MSCA_Card(1-" + fmt.Sprint(g.N(50)) + ")_" + name
			case 2:
				uri = "files/" + name // found by its title
			}
			if sv.status == 0 {
				sv.status = 200
			}
			switch g.N(4) {
			case 0:
				sv.slow = time.Duration(g.N(30)) * time.Millisecond
			case 1:
				if sv.fault == "" && sv.status == 200 {
					sv.fault = "drip"
				}
			}
			s.pages["/"+uri] = sv
			row := fetchRow{uri, fetchCountries[g.N(len(fetchCountries))], dates[g.N(len(dates))], cert, what}
			rows = append(rows, row)
			return row
		}
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("C%d_%d.bin", gen, i)
			c := &pool[perm[next%len(pool)]]
			next++
			kind := g.N(22)
			switch {
			case kind < 9:
				add(name, served{body: c.raw}, c, "served")
			case kind == 9:
				add(name, served{status: pick(g, 404, 500, 503, 403, 202, 203, 206, 300, 410), body: c.raw}, nil, "refused")
			case kind == 10:
				add(name, served{body: c.raw, fault: pick(g, "close", "short", "chunked-cut")}, nil, "cut off")
			case kind == 11:
				add(name, served{body: []byte("<html><head><title>not here</title></head><body>" + strings.Repeat("x", g.N(200)) + "</body></html>")}, nil, "a page")
			case kind == 12:
				add(name, served{body: c.raw[:g.N(len(c.raw))]}, nil, "truncated")
			case kind == 13:
				add(name, served{body: append(cp(c.raw), g.Bytes(350-len(c.raw)+g.N(400))...)}, nil, "too long")
			case kind == 14:
				b := cp(c.raw)
				if gen == 0 {
					b[g.N(186)] ^= byte(1 + g.N(255)) // the signature no longer holds
				} else {
					b = g.Bytes(204 + g.N(137)) // no certificate at all
					b[0], b[1], b[2] = 0x7F, 0x21, 0xFF
				}
				add(name, served{body: b}, nil, "malformed")
			case kind == 20:
				if gen == 0 {
					add(name, served{body: p.forged1[g.N(len(p.forged1))]}, nil, "forged")
				} else {
					add(name, served{body: p.odd2[g.N(len(p.odd2))]}, nil, "odd references")
				}
			case kind == 21 && gen == 1:
				add(name, served{body: p.short2[g.N(len(p.short2))]}, nil, "too small")
			case kind == 21:
				// its place is taken when it is to be saved
				if blocked[c.chr] {
					break
				}
				blocked[c.chr] = true
				row := add(name, served{body: c.raw}, nil, "cannot be saved")
				sv := s.pages["/"+row.uri]
				sv.block = fmt.Sprintf("g%d/%s.bin", gen+1, c.chr)
				s.pages["/"+row.uri] = sv
			case kind == 15:
				row := add(name, served{body: c.raw}, c, "served")
				for k := 1 + g.N(3); k > 0; k-- { // the same link again
					rows = append(rows, row)
				}
			case kind == 16:
				add(name, served{body: c.raw}, c, "served")
				add("again_"+name, served{body: c.raw}, c, "served twice")
			case kind == 17 && gen == 0:
				add(name, served{body: p.html1.raw}, &p.html1, "served, begins with '<'")
			case kind == 18:
				same := p.samechr1
				if gen == 1 {
					same = p.samechr2
				}
				add(name, served{body: same[0].raw}, &same[0], "one holder")
				add("other_"+name, served{body: same[1].raw}, &same[1], "one holder")
			case kind == 19:
				row := add(name, served{body: c.raw}, c, "redirected")
				s.pages["/"+row.uri+"/moved"] = served{status: 200, body: c.raw}
				s.pages["/"+row.uri] = served{fault: "redirect"}
			default:
				row := add(name, served{body: c.raw}, nil, "unknown address")
				delete(s.pages, "/"+row.uri)
			}
		}
		s.rows[gen] = rows
		s.pages[listURI[gen]] = served{status: 200, body: []byte(fetchPage(g, rows))}
	}
	if failing {
		switch g.N(7) {
		case 0:
			s.fails = "root refused"
			s.root[rootURI] = served{status: pick(g, 404, 500)}
		case 1:
			s.fails = "root cut off"
			s.root[rootURI] = served{status: 200, body: s.root[rootURI].body, fault: "short"}
		case 2:
			s.fails = "no archive"
			s.root[rootURI] = served{status: 200, body: g.Bytes(300)}
		case 3:
			s.fails = "no root key in the archive"
			s.root[rootURI] = served{status: 200, body: rootZip(map[string][]byte{"OTHER.bin": p.rootKey})}
		case 4:
			s.fails = "root key of a wrong size"
			s.root[rootURI] = served{status: 200, body: rootZip(map[string][]byte{"EC_PK.bin": p.rootKey[:143]})}
		case 5, 6:
			gen := g.N(2)
			s.fails = fmt.Sprintf("list %d refused", gen+1)
			s.pages[listURI[gen]] = served{status: pick(g, 404, 500, 502)}
		}
	}
	return s
}

// fetchPage writes a list the way the site does.
func fetchPage(g *Rand, rows []fetchRow) string {
	var b strings.Builder
	b.WriteString("<!DOCTYPE html><html><head><title>DTC</title></head><body><h1>Public keys</h1><a href=\"index.html\">Home</a><table><thead><tr><th>Country</th><th>Certificate</th><th>Expiration date</th></tr></thead><tbody>\n")
	for _, r := range rows {
		if g.P(1, 10) {
			b.WriteString("<tr><td>" + html.EscapeString(r.country) + "</td><td>(none)</td><td></td></tr>\n")
		}
		link := fmt.Sprintf(`<a href="%s" title="%s">Download</a>`, html.EscapeString(r.uri), pick(g, "Download certificate file", "Download certificate file", "Download certificate file ("+html.EscapeString(r.country)+")", "PDF: Download certificate file"))
		if !strings.HasPrefix(r.uri, "files/") && g.Bool() {
			link = fmt.Sprintf(`<a class="x" href="%s"><img src="i.png"> Download</a>`, html.EscapeString(r.uri))
		}
		before, after := "", ""
		cell := pick(g, "td", "td", "td", "th")
		switch g.N(6) {
		case 0:
			before = pick(g, "<td>1</td>", "<td></td>", "<td>Certificate 12</td>", "<td>certificate</td>", "<td>EC CERTIFICATE</td>", "<td>Download all</td>")
		case 1:
			after = pick(g, "<td>MSCA_Card(1-22)</td>", "<td>valid</td>", "<td>Zypern</td>", "<td><a href=\"help.html\">Help</a></td>", "<td>Aarhus</td>")
		case 2: // the file is linked first
			link, before = "2048 bit", "<td>"+link+"</td>"
		}
		fmt.Fprintf(&b, "<tr>\n %s<%s> %s </%s><td><span>%s</span></td>%s<td>%s</td></tr>\n", before, cell, html.EscapeString(r.country), cell, link, after, r.date)
	}
	b.WriteString("</tbody></table></body></html>")
	return b.String()
}

type fetchEntry struct {
	CAR, CHR, Country, URL, ExpirationDate, Path string
}
type fetchIndex struct {
	CreateTime string
	Root       *fetchEntry
	G1, G2     []fetchEntry
}

func runP22(r *Run) {
	r.rule = "one case = one run of the certificate tool (built with the race detector) against a local site with a random mix of good, failing, slow, malformed and duplicate answers, at one concurrency, into a directory left by earlier runs; non-trivial = at least one certificate listed; distinct by site and concurrency"
	dir, err := os.MkdirTemp("", "zverif-p22-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "fetch-certs")
	if err := r.buildTool("/repo/tools", "./cmd/fetch-certs", bin, true); err != nil {
		fmt.Println("cannot build the tool:", err)
		return
	}
	g := NewRand(r.Seed, "P22")
	pool := newFetchPool(g, r.N(24, 80), r.N(24, 80))
	n := r.N(64, 640)
	// scenarios are drawn first, so that they do not depend on the schedule
	scs := make([]*fetchScenario, n)
	cons := make([][]int, n)
	stale := make([]*Rand, n)
	for i := range scs {
		scs[i] = pool.scenario(g, i%8 == 7)
		cons[i] = []int{1, pick(g, 2, 3, 5), pick(g, 10, 64, 500)}
		stale[i] = NewRand(r.Seed, fmt.Sprint("P22/", i))
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	hung := false // after a run that did not end, no other is started
	workers := 6
	for wk := 0; wk < workers; wk++ {
		wg.Add(1)
		go func(wk int) {
			defer wg.Done()
			wd := filepath.Join(dir, fmt.Sprint("w", wk))
			os.Mkdir(wd, 0o755)
			world, err := newFetchWorld(wd)
			if err != nil {
				fmt.Println("no local network:", err)
				return
			}
			defer world.shutdown()
			for i := wk; i < n; i += workers {
				sc := scs[i]
				world.site.mu.Lock()
				world.site.pages = sc.pages
				world.site.mu.Unlock()
				world.root.mu.Lock()
				world.root.pages = sc.root
				world.root.mu.Unlock()
				var first *fetchResult
				for _, c := range cons[i] {
					mu.Lock()
					stop := hung
					mu.Unlock()
					if stop {
						return
					}
					// the directory is used again and again, as a cache is
					name := pick(stale[i], "certs", "certs", "certs [old]", "sub/dir", "c*t?s")
					out := filepath.Join(wd, "out", name)
					fillStale(stale[i], out, pool)
					world.site.mu.Lock()
					world.site.requests = map[string]int{}
					world.site.out = out
					world.site.mu.Unlock()
					t := execTool(wd, append(world.env, "GORACE=halt_on_error=0 exitcode=66"), nil, bin, "-dir", out, "-base-url", world.base, "-concurrency", fmt.Sprint(c))
					res := readCache(out)
					res.tree = tree(filepath.Join(wd, "out"), out)
					mu.Lock()
					hung = hung || t.hung
					ok := r.judgeFetch(sc, pool, world.base, c, t, res, i)
					if ok && sc.fails == "" {
						if first == nil {
							first = res
						} else if a, b := first.text(), res.text(); a != b {
							r.Violate("concurrency", fmt.Sprintf("scenario %d: the result with concurrency %d is not the one with concurrency %d: %s", i, c, cons[i][0], lineDiff(a, b)), []byte(b))
						} else {
							r.Count("results compared across concurrencies", 1)
						}
					}
					world.site.mu.Lock()
					r.Count("requests served", len(world.site.requests))
					world.site.mu.Unlock()
					mu.Unlock()
				}
			}
		}(wk)
	}
	wg.Wait()
	r.Require("runs succeeded", n)
	r.Require("certificates found in the cache", 4*n)
	r.Require("results compared across concurrencies", n/2)
	r.Require("runs that had to fail", n/10)
}

// fillStale leaves files of an imaginary earlier run.
func fillStale(g *Rand, out string, p *fetchPool) {
	for _, d := range []string{"root", "g1", "g2"} {
		if g.P(1, 4) {
			continue
		}
		os.MkdirAll(filepath.Join(out, d), 0o755)
		for k := g.N(4); k > 0; k-- {
			name := fmt.Sprint(g.U64(), ".bin")
			switch g.N(4) {
			case 0:
				name = p.g1[g.N(len(p.g1))].chr + ".bin"
			case 1:
				name = p.g2[g.N(len(p.g2))].chr + ".bin"
			case 2:
				name = "MSCA " + name
			}
			os.WriteFile(filepath.Join(out, d, name), g.Bytes(pick(g, 0, 1, 194, 204, 1+g.N(500))), 0o644)
		}
	}
	if g.Bool() {
		os.MkdirAll(out, 0o755)
		os.WriteFile(filepath.Join(out, "index.json"), []byte(`{"createTime":"2001-01-01T00:00:00Z","g1":[{"chr":"1","path":"g1/1.bin"}],"g2":[]}`+strings.Repeat(" ", g.N(60000))), 0o644)
	}
}

type fetchResult struct {
	index *fetchIndex
	err   error
	files map[string][]byte // below root, g1 and g2
	tree  []string          // everything else
}

func readCache(out string) *fetchResult {
	res := &fetchResult{files: map[string][]byte{}}
	b, err := os.ReadFile(filepath.Join(out, "index.json"))
	if err != nil {
		res.err = err
	} else {
		res.index = &fetchIndex{}
		res.err = json.Unmarshal(b, res.index)
	}
	for _, d := range []string{"root", "g1", "g2"} {
		es, _ := os.ReadDir(filepath.Join(out, d))
		for _, e := range es {
			if e.IsDir() {
				continue
			}
			b, _ := os.ReadFile(filepath.Join(out, d, e.Name()))
			res.files[d+"/"+e.Name()] = b
		}
	}
	return res
}

// tree lists files outside of the three folders.
func tree(base, out string) []string {
	var l []string
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		if rel, err := filepath.Rel(out, p); err == nil && !strings.HasPrefix(rel, "..") {
			if rel == "index.json" || strings.Count(rel, "/") == 1 && (strings.HasPrefix(rel, "root/") || strings.HasPrefix(rel, "g1/") || strings.HasPrefix(rel, "g2/")) {
				return nil
			}
			l = append(l, rel)
		} else if fi.Name() != "index.json" && !strings.HasSuffix(fi.Name(), ".bin") {
			l = append(l, p)
		}
		return nil
	})
	return l
}

func (f *fetchResult) text() string {
	var b strings.Builder
	if f.index != nil {
		for i, l := range [][]fetchEntry{f.index.G1, f.index.G2} {
			for _, e := range l {
				fmt.Fprintf(&b, "g%d %+v\n", i+1, e)
			}
		}
	}
	for _, n := range sortedKeys(f.files) {
		fmt.Fprintf(&b, "%s %x\n", n, f.files[n])
	}
	return b.String()
}

func lineDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			w := "(end)"
			if i < len(y) {
				w = y[i]
			}
			return fmt.Sprintf("line %d: %.200s / %.200s", i, x[i], w)
		}
	}
	return "one is longer"
}

func (r *Run) judgeFetch(sc *fetchScenario, p *fetchPool, base string, conc int, t toolRun, res *fetchResult, i int) bool {
	at := fmt.Sprintf("scenario %d, concurrency %d", i, conc)
	var id bytes.Buffer
	for _, u := range sortedKeys(sc.pages) {
		fmt.Fprintf(&id, "%s %d %s %x\n", u, sc.pages[u].status, sc.pages[u].fault, sc.pages[u].body)
	}
	doc := id.Bytes()
	r.Eval(len(sc.rows[0])+len(sc.rows[1]) > 0, doc, []byte{byte(conc)})
	if bytes.Contains(t.err, []byte("DATA RACE")) {
		r.Violate("race", fmt.Sprintf("%s: data race: %.1500s", at, t.err[bytes.Index(t.err, []byte("DATA RACE")):]), doc)
		return false
	}
	if bytes.Contains(t.err, []byte("panic:")) || bytes.Contains(t.err, []byte("fatal error:")) {
		r.Violate("crash", fmt.Sprintf("%s: the tool crashed: %.600s", at, t.err), doc)
		return false
	}
	if t.hung {
		r.Violate("hang", at+": the tool does not end", doc)
		return false
	}
	if sc.fails != "" {
		r.Count("runs that had to fail", 1)
		if t.status == 0 {
			r.Violate("success", fmt.Sprintf("%s: the tool reports success although: %s", at, sc.fails), doc)
			return false
		}
		return true
	}
	if t.status != 0 {
		r.Violate("failure", fmt.Sprintf("%s: status %d: %.300s", at, t.status, lastLine(t.err)), doc)
		return false
	}
	r.Count("runs succeeded", 1)
	if res.err != nil || res.index == nil {
		r.Violate("index", fmt.Sprintf("%s: no readable index: %v", at, res.err), doc)
		return false
	}
	ok := true
	bad := func(key, f string, a ...any) {
		ok = false
		r.Violate(key, at+": "+fmt.Sprintf(f, a...), doc)
	}
	expect := map[string]bool{}
	if rt := res.index.Root; rt == nil {
		bad("root", "the index has no root")
	} else {
		id := fmt.Sprint(binary.BigEndian.Uint64(p.rootKey))
		if rt.CHR != id || rt.CAR != id {
			bad("root-id", "the root is listed as %s/%s, it is %s", rt.CAR, rt.CHR, id)
		}
		if !bytes.Equal(res.files[filepath.ToSlash(rt.Path)], p.rootKey) {
			bad("root-file", "the file of the root %q is not the root key", rt.Path)
		}
		expect[filepath.ToSlash(rt.Path)] = true
	}
	for gen, list := range [][]fetchEntry{res.index.G1, res.index.G2} {
		gname := fmt.Sprintf("g%d", gen+1)
		byURL := map[string][]fetchRow{}
		want := map[string][]fetchRow{} // by holder
		for _, row := range sc.rows[gen] {
			byURL[base+"/"+row.uri] = append(byURL[base+"/"+row.uri], row)
			if row.cert != nil {
				want[row.cert.chr] = append(want[row.cert.chr], row)
			}
			r.Count("listed: "+row.what, 1)
		}
		seen := map[string]int{}
		for k, e := range list {
			// by country, and the certificate that expires last comes first
			if k > 0 {
				if o := list[k-1]; o.Country > e.Country || o.Country == e.Country && validDate(e.ExpirationDate) && (!validDate(o.ExpirationDate) || o.ExpirationDate < e.ExpirationDate) {
					bad(gname+"-order", "%s (%s) is listed before %s (%s)", o.Country, o.ExpirationDate, e.Country, e.ExpirationDate)
				}
			}
			rows := byURL[e.URL]
			if len(rows) == 0 {
				bad(gname+"-url", "the index lists %q, which the site does not", e.URL)
				continue
			}
			row := rows[0]
			if row.cert == nil {
				bad(gname+"-left-out", "the index lists %q, which was %s", e.URL, row.what)
				continue
			}
			seen[row.cert.chr]++
			if e.CHR != row.cert.chr || e.CAR != row.cert.car {
				bad(gname+"-id", "%q is listed as holder %s authority %s, it is %s, %s", e.URL, e.CHR, e.CAR, row.cert.chr, row.cert.car)
			}
			countries := map[string]bool{}
			for _, x := range rows {
				countries[x.country] = true
			}
			if !countries[e.Country] {
				bad(gname+"-country", "%q is listed under %q instead of %q", e.URL, e.Country, row.country)
			}
			exp := map[string]bool{}
			for _, x := range rows {
				exp[isoDate(x.date)] = true
			}
			if row.cert.eov != 0 {
				exp = map[string]bool{time.Unix(int64(row.cert.eov), 0).UTC().Format(time.RFC3339): true}
			}
			if !exp[e.ExpirationDate] && (gen == 1 || row.cert.eov != 0) {
				bad(gname+"-expiration", "%q is listed as expiring %q, want %v (list says %q)", e.URL, e.ExpirationDate, exp, row.date)
			}
			path := filepath.ToSlash(e.Path)
			if path != gname+"/"+row.cert.chr+".bin" {
				bad(gname+"-path", "%q is kept in %q", e.URL, e.Path)
			}
			if b, there := res.files[path]; !there {
				bad(gname+"-file", "the index lists %q, which does not exist", e.Path)
			} else if !bytes.Equal(b, row.cert.raw) {
				bad(gname+"-bytes", "%q holds %d bytes that differ from the %d served at %q", e.Path, len(b), len(row.cert.raw), e.URL)
			}
			expect[path] = true
			r.Count("certificates found in the cache", 1)
		}
		for chr, rows := range want {
			switch {
			case seen[chr] == 0:
				bad(gname+"-missing", "certificate %s (%s) is not in the index", chr, rows[0].what)
			case seen[chr] > 1:
				bad(gname+"-twice", "certificate %s (%s) is listed %d times", chr, rows[len(rows)-1].what, seen[chr])
			}
		}
	}
	for f := range res.files {
		if !expect[f] {
			bad("stray", "file %q is not in the index", f)
		}
	}
	if len(res.tree) > 0 {
		sort.Strings(res.tree)
		bad("outside", "files outside the cache folders: %q", res.tree)
	}
	return ok
}

func validDate(s string) bool { return len(s) == 20 }

// isoDate is the expiration date a list gives, as the index writes it.
func isoDate(s string) string {
	var y, m, d int
	switch {
	case len(s) != 10:
		return ""
	case s[2] == '/':
		fmt.Sscanf(s, "%d/%d/%d", &d, &m, &y)
	default:
		fmt.Sscanf(s, "%d-%d-%d", &y, &m, &d)
	}
	t := time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)
	if t.Day() != d || int(t.Month()) != m {
		return "" // no such day
	}
	return t.Format(time.RFC3339)
}

func lastLine(b []byte) string {
	l := strings.Split(strings.TrimSpace(string(b)), "\n")
	return l[len(l)-1]
}
