package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/cert"
	"github.com/way-platform/tachograph-go/internal/security"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { register("P14", runP14) }

// world is a small public key infrastructure: a root, authorities below it, and impostors.
type world struct {
	root, otherRoot *rsaKey
	rootRef         []byte
	rsaCAs          []*rsaAuthority
	eccCAs          []*eccAuthority
}

type rsaAuthority struct {
	key   *rsaKey
	ref   []byte
	raw   []byte // its certificate
	byOur bool   // signed by the root
}

type eccAuthority struct {
	key *eccKey
	ref []byte
	raw []byte
}

func newWorld(g *Rand) *world {
	w := &world{root: newRSAKey(g, 65537), otherRoot: newRSAKey(g, 65537), rootRef: ref8(g)}
	for i := 0; i < 4; i++ {
		k := newRSAKey(g, 65537)
		ref := ref8(g)
		ref[1] = byte(i)
		a := &rsaAuthority{key: k, ref: ref, byOur: i < 3}
		r := w.root
		if !a.byOur {
			r = w.otherRoot
		}
		a.raw = r.cert(genRsaContent(g, w.rootRef, ref, k), w.rootRef)
		w.rsaCAs = append(w.rsaCAs, a)
	}
	for i, c := range curves {
		k := newECCKey(g, c)
		ref := ref8(g)
		ref[1] = byte(0x80 + i)
		rk := newECCKey(g, curves[0])
		w.eccCAs = append(w.eccCAs, &eccAuthority{k, ref, rk.issue(g, ref8(g), ref, c, k.q).raw})
	}
	return w
}

// recResolver serves certificates from maps and records what it was asked.
type recResolver struct {
	root    *securityv1.RootCertificate
	rootErr error
	rsa     map[string]*securityv1.RsaCertificate
	ecc     map[string]*securityv1.EccCertificate
	nilOK   bool // return nil certificate and nil error instead of an error
	calls   []string
	g       *Rand
}

func (x *recResolver) fail(text string) error {
	if x.g == nil {
		return errors.New(text)
	}
	return anError(x.g, text)
}

func (x *recResolver) GetRootCertificate(ctx context.Context) (*securityv1.RootCertificate, error) {
	x.calls = append(x.calls, "root")
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if x.rootErr != nil || x.root == nil && !x.nilOK {
		return nil, x.fail("no root")
	}
	return x.root, nil
}

func (x *recResolver) GetRsaCertificate(ctx context.Context, chr string) (*securityv1.RsaCertificate, error) {
	x.calls = append(x.calls, "rsa "+chr)
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if c := x.rsa[chr]; c != nil || x.nilOK {
		return c, nil
	}
	return nil, x.fail("no RSA certificate " + chr)
}

func (x *recResolver) GetEccCertificate(ctx context.Context, chr string) (*securityv1.EccCertificate, error) {
	x.calls = append(x.calls, "ecc "+chr)
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if c := x.ecc[chr]; c != nil || x.nilOK {
		return c, nil
	}
	return nil, x.fail("no ECC certificate " + chr)
}

func rootMsg(k *rsaKey, ref []byte) *securityv1.RootCertificate {
	c := &securityv1.RootCertificate{}
	c.SetKeyId(dec8(ref))
	c.SetRsaModulus(fixed(k.n, 128))
	c.SetRsaExponent(fixed(k.e, 8))
	return c
}

// gen1OK is the reference verdict of the first generation.
func gen1OK(c *securityv1.RsaCertificate, x *recResolver, cancelled bool) bool {
	if c == nil || cancelled {
		return false
	}
	ca := x.rsa[c.GetCertificateAuthorityReference()]
	if ca == nil {
		return false
	}
	n, e, chr := ca.GetRsaModulus(), ca.GetRsaExponent(), ca.GetCertificateHolderReference()
	if len(n) == 0 || len(e) == 0 {
		if x.root == nil || x.rootErr != nil {
			return false
		}
		m, ok := rsaVerify(ca.GetRawData(), x.root.GetRsaModulus(), x.root.GetRsaExponent(), x.root.GetKeyId())
		if !ok {
			return false
		}
		n, e, chr = m[28:156], m[156:164], dec8(m[20:28])
	}
	_, ok := rsaVerify(c.GetRawData(), n, e, chr)
	return ok
}

func gen1NilOK(c, ca *securityv1.RsaCertificate) bool {
	if c == nil || ca == nil {
		return false
	}
	_, ok := rsaVerify(c.GetRawData(), ca.GetRsaModulus(), ca.GetRsaExponent(), ca.GetCertificateHolderReference())
	return ok
}

func eccBodySig(raw []byte) (body, sig []byte) {
	_, outer, _ := berRead(raw)
	_, _, rest := berRead(outer)
	body = outer[:len(outer)-len(rest)]
	_, sig, _ = berRead(rest)
	return
}

func gen2OKWith(c, ca *securityv1.EccCertificate) bool {
	if c == nil || ca == nil {
		return false
	}
	body, sig := eccBodySig(c.GetRawData())
	return eccWant(c, &eccSigned{body: body, sig: sig, raw: c.GetRawData()}, ca)
}

// marks lists every certificate of a file with its mark.
func marks(f proto.Message) map[string]bool {
	out := map[string]bool{}
	walkMessages(f.ProtoReflect(), "", func(p string, m protoreflect.Message) {
		switch c := m.Interface().(type) {
		case *securityv1.RsaCertificate:
			out[p] = c.GetSignatureValid()
		case *securityv1.EccCertificate:
			out[p] = c.GetSignatureValid()
		}
	})
	return out
}

func runP14(r *Run) {
	r.rule = "one case = one verification of one parsed card (either generation, both, or none; genuine, forged, orphaned or missing certificates) with one resolver behaviour, in a history of several verifications of the same file; non-trivial = the card has at least one application; distinct by card bytes and resolver contents"
	r.assume = []string{"the policy model follows the documentation of VerifyFile: the resolver is the trust anchor for authority certificates whose key is already known, and authority certificates without a key are checked against the root the resolver returns"}
	g := NewRand(r.Seed, "P14")
	if err := pkiSelfCheck(g); err != nil {
		panic(err)
	}
	G0 := &G{Rand: g}
	w := newWorld(g)
	n := r.N(700, 8000)
	ctx := context.Background()
	for i := 0; i < n; i++ {
		if r.Thorough() && i%1000 == 999 {
			w = newWorld(g)
		}
		// ---- the card ----
		c := &Card{}
		add := func(name string, gen int, data []byte) {
			c.efs = append(c.efs, CardEF{ef: efBy[name], gen: gen, data: data})
		}
		add("ICC", 0, iccC().gen(G0))
		has1, has2 := g.P(3, 4), g.P(3, 4)
		a1 := w.rsaCAs[g.N(len(w.rsaCAs))]
		a2 := w.eccCAs[g.N(len(w.eccCAs))]
		kind1, kind2 := "genuine", "genuine"
		if has1 {
			add("ApplicationIdentification", 1, appIDG1C().gen(G0))
			raw := a1.key.cert(genRsaContent(g, a1.ref, ref8(g), nil), a1.ref)
			switch g.N(8) {
			case 0:
				kind1 = "forged"
				raw[g.N(186)] ^= 1 << g.N(8)
			case 1:
				kind1 = "signed by another authority"
				b := w.rsaCAs[g.N(len(w.rsaCAs))]
				raw = b.key.cert(genRsaContent(g, a1.ref, ref8(g), nil), a1.ref)
			case 2:
				kind1 = "orphaned"
				x := ref8(g)
				raw = a1.key.cert(genRsaContent(g, x, ref8(g), nil), x)
			case 3:
				kind1 = "missing"
				raw = nil
			}
			if raw != nil {
				add("CardCertificate", 1, raw)
			}
			if g.P(3, 4) {
				add("CaCertificate", 1, a1.raw)
			}
		}
		if has2 {
			add("ApplicationIdentificationG2", 2, appIDG2C().gen(G0))
			var raw []byte
			for {
				sub := curves[g.N(6)]
				signer, car := a2, a2.ref
				kind2 = "genuine"
				k := g.N(8)
				switch k {
				case 1:
					kind2 = "signed by another authority"
					signer = w.eccCAs[g.N(len(w.eccCAs))]
				case 2:
					kind2 = "orphaned"
					car = ref8(g)
				}
				pub := w.eccCAs[sub.index()].key.q
				s := signer.key.issue(g, car, ref8(g), sub, pub)
				raw = s.raw
				if k == 0 {
					kind2 = "forged"
					sig := cp(s.sig)
					sig[g.N(len(sig))] ^= 1 << g.N(8)
					if g.Bool() {
						p := *s.parts
						p.cha = g.Bytes(7)
						raw = eccCertWrap(eccCertBody(0, p.car, p.cha, p.p, p.x, p.y, p.chr, p.eff, p.exp), s.sig)
					} else {
						raw = eccCertWrap(s.body, sig)
					}
				}
				if k == 3 {
					kind2 = "missing"
					raw = nil
				}
				if len(raw) <= 341 {
					break
				}
			}
			if g.P(1, 2) {
				for {
					m := newECCKey(g, curves[0])
					ma := a2.key.issue(g, a2.ref, ref8(g), curves[0], m.q).raw
					if g.Bool() {
						ma[len(ma)-1] ^= 1
					}
					if len(ma) >= 204 && len(ma) <= 341 {
						add("CardMaCertificate", 2, ma)
						break
					}
				}
			}
			if raw != nil {
				add("CardSignCertificate", 2, raw)
			}
			if len(a2.raw) <= 341 && g.P(3, 4) {
				add("CaCertificateG2", 2, a2.raw)
			}
		}
		in := c.bytes()
		f := r.parseOK("card", cp(in))
		if f == nil {
			continue
		}
		if f.GetDriverCard() == nil {
			r.Violate("not-a-card", "card reported as "+f.GetType().String(), in)
			continue
		}
		label := fmt.Sprintf("gen1 %v %s, gen2 %v %s", has1, kind1, has2, kind2)
		t1, t2 := f.GetDriverCard().GetTachograph(), f.GetDriverCard().GetTachographG2()
		c1 := t1.GetCardCertificate().GetRsaCertificate()
		c2 := t2.GetCardSignCertificate().GetEccCertificate()
		// ---- a history of verifications with different resolvers ----
		steps := 1 + g.N(3)
		for st := 0; st < steps; st++ {
			x := &recResolver{root: rootMsg(w.root, w.rootRef), rsa: map[string]*securityv1.RsaCertificate{}, ecc: map[string]*securityv1.EccCertificate{}, nilOK: g.P(1, 12), g: g}
			mode := "serving"
			for _, a := range w.rsaCAs {
				ca := r.parseRsa(a.raw)
				if ca == nil {
					return
				}
				if g.P(1, 4) { // the resolver already knows the key
					ca.SetCertificateHolderReference(dec8(a.ref))
					ca.SetRsaModulus(fixed(a.key.n, 128))
					ca.SetRsaExponent(fixed(a.key.e, 8))
					if g.P(1, 3) {
						ca.SetRawData(nil)
					}
				}
				x.rsa[dec8(a.ref)] = ca
			}
			for _, a := range w.eccCAs {
				x.ecc[dec8(a.ref)] = eccCA(dec8(a.ref), a.key.c, a.key.q)
				if len(a.raw) <= 341 && g.Bool() {
					if m, err := security.UnmarshalEccCertificate(cp(a.raw)); err == nil {
						x.ecc[dec8(a.ref)] = m
					}
				}
			}
			k1, k2 := dec8(a1.ref), dec8(a2.ref)
			switch g.N(12) {
			case 0:
				mode = "authorities missing"
				delete(x.rsa, k1)
				if g.Bool() {
					delete(x.ecc, k2)
				}
			case 1:
				mode = "gen2 authority missing"
				delete(x.ecc, k2)
			case 2:
				mode = "no root"
				x.root = nil
			case 3:
				mode = "root error"
				x.rootErr = errors.New("x")
			case 4:
				mode = "another root"
				x.root = rootMsg(w.otherRoot, w.rootRef)
			case 5:
				mode = "root with another identity"
				x.root = rootMsg(w.root, ref8(g))
			case 6:
				mode = "another authority served"
				b := w.rsaCAs[g.N(len(w.rsaCAs))]
				x.rsa[k1] = r.parseRsa(b.raw)
				d := w.eccCAs[g.N(len(w.eccCAs))]
				x.ecc[k2] = eccCA(dec8(d.ref), d.key.c, d.key.q)
			case 7:
				mode = "right key under another name"
				ca := x.rsa[k1]
				ca.SetCertificateHolderReference(dec8(ref8(g)))
				ca.SetRsaModulus(fixed(a1.key.n, 128))
				ca.SetRsaExponent(fixed(a1.key.e, 8))
				x.ecc[k2] = eccCA(dec8(ref8(g)), a2.key.c, a2.key.q)
			case 8:
				mode = "authority with a malformed key"
				ca := x.rsa[k1]
				ca.SetCertificateHolderReference(k1)
				ca.SetRsaModulus(pick(g, []byte{0}, fixed(new(big.Int).Rsh(a1.key.n, 1), 128), make([]byte, 128), a1.key.n.Bytes()[:64]))
				ca.SetRsaExponent(pick(g, []byte{0}, []byte{1, 0, 1}, make([]byte, 8)))
				x.ecc[k2] = eccCA(k2, a2.key.c, point{a2.key.q.y, a2.key.q.x})
			case 9:
				mode = "half a key"
				ca := x.rsa[k1]
				ca.SetCertificateHolderReference(k1)
				ca.SetRsaModulus(fixed(a1.key.n, 128))
				ca.ClearRsaExponent()
			}
			cctx, cancelled := ctx, false
			if g.P(1, 20) {
				q, cancel := context.WithCancel(ctx)
				cancel()
				cctx, cancelled, mode = q, true, "cancelled"
			}
			if g.P(1, 3) { // the file was verified before, against the right authorities
				if c1 != nil {
					ca := &securityv1.RsaCertificate{}
					ca.SetRsaModulus(fixed(a1.key.n, 128))
					ca.SetRsaExponent(fixed(a1.key.e, 8))
					ca.SetCertificateHolderReference(k1)
					if security.VerifyRsaCertificateWithCA(c1, ca) == nil {
						r.Count("verified_before", 1)
					}
				}
				if c2 != nil {
					security.VerifyEccCertificateWithCA(c2, eccCA(k2, a2.key.c, a2.key.q))
				}
				for _, ca := range x.rsa {
					ca.SetSignatureValid(true)
				}
				for _, ca := range x.ecc {
					ca.SetSignatureValid(true)
				}
			}
			nilResolver := g.P(1, 8) && !cancelled
			ok1, ok2 := true, true
			if nilResolver {
				mode = "no resolver"
				ca1, ca2 := t1.GetCaCertificate().GetRsaCertificate(), t2.GetCaCertificate().GetEccCertificate()
				if ca1 != nil && g.Bool() {
					mode = "no resolver, card authority verified before"
					security.VerifyRsaCertificateWithRoot(ca1, rootMsg(w.root, w.rootRef))
				}
				ok1, ok2 = gen1NilOK(c1, ca1), gen2OKWith(c2, ca2)
			} else {
				ok1 = gen1OK(c1, x, cancelled)
				ok2 = c2 != nil && !cancelled && gen2OKWith(c2, x.ecc[c2.GetCertificateAuthorityReference()])
			}
			if t1 == nil {
				ok1 = true
			}
			if t2 == nil {
				ok2 = true
			}
			stale := g.P(1, 3)
			if stale { // whatever was marked before
				if c1 != nil {
					c1.SetSignatureValid(true)
				}
				if c2 != nil && ok1 {
					c2.SetSignatureValid(true)
				}
			}
			pre := marks(f)
			key := []byte(fmt.Sprint(mode, st, x.nilOK, nilResolver))
			r.Case(label+"; "+mode, in)
			r.Eval(t1 != nil || t2 != nil, in, key)
			before := digestButCerts(f)
			var err error
			var p any
			var stk string
			if nilResolver {
				p, stk = guard(func() { err = card.VerifyOptions{}.VerifyDriverCardFile(cctx, f.GetDriverCard()) })
			} else {
				p, stk = guard(func() { err = tachograph.VerifyOptions{CertificateResolver: x}.VerifyFile(cctx, f) })
			}
			desc := label + "; " + mode
			if p != nil {
				r.Violate("panic:"+panicSite(stk), fmt.Sprintf("%s: verification panicked: %v", desc, p), in)
				break
			}
			want := ok1 && ok2
			if want != (err == nil) {
				r.Violate("verdict:"+sanitize(mode), fmt.Sprintf("%s: reference verdict gen1=%v gen2=%v, VerifyFile returned %v (resolver calls %v)", desc, ok1, ok2, err, x.calls), in)
				break
			}
			if want {
				r.Count("verified", 1)
			} else {
				r.Count("refused", 1)
			}
			r.Count("mode."+sanitize(mode), 1)
			r.Count("resolver_calls", len(x.calls))
			if !bytes.Equal(before, digestButCerts(f)) {
				r.Violate("file-changed", desc+": verification changed the file outside its certificates", in)
			}
			// marks
			post := marks(f)
			for _, k := range sortedKeys(post) {
				r.Count("marks_checked", 1)
				isCard1 := strings.Contains(k, ".tachograph.card_certificate")
				isCard2 := strings.Contains(k, ".tachograph_g2.card_sign_certificate")
				switch {
				case isCard1 && post[k] != ok1:
					r.Violate("mark:gen1", fmt.Sprintf("%s: card certificate genuine=%v, marked %v", desc, ok1, post[k]), in)
				case isCard2 && post[k] && !ok2 && (ok1 || !pre[k]): // (not looked at once the first generation failed)
					r.Violate("mark:gen2", fmt.Sprintf("%s: card sign certificate is not genuine but marked valid", desc), in)
				case isCard2 && err == nil && !post[k]:
					r.Violate("mark:gen2", fmt.Sprintf("%s: verification succeeded but the card sign certificate is not marked valid", desc), in)
				case !isCard1 && !isCard2 && post[k] && !pre[k] && !w.genuine(f, k):
					r.Violate("mark:other", fmt.Sprintf("%s: %s became marked valid", desc, k), in)
				}
			}
			if i < 4 {
				r.Sample(map[string]any{"card": label, "resolver": mode, "verdict": fmt.Sprint(err), "calls": x.calls})
			}
		}
	}
	r.verifyDefault(g, w)
	// files whose verification is documented as not implemented
	gg := &G{Rand: g}
	for i := 0; i < r.N(200, 2000); i++ {
		var b []byte
		if i%2 == 0 {
			b = joinTransfers(genVU(gg, 1+g.N(3), 3))
		} else {
			b = joinTLV(genRawTLVs(g, g.N(6), 60))
		}
		f := r.parseOK("other file", cp(b))
		if f == nil {
			continue
		}
		r.Eval(true, b)
		d := digest(f)
		x := &recResolver{}
		p, st := guard(func() { _ = tachograph.VerifyOptions{CertificateResolver: x}.VerifyFile(ctx, f) })
		if p != nil {
			r.Violate("panic:"+panicSite(st), fmt.Sprint(p), b)
			continue
		}
		if !bytes.Equal(d, digest(f)) {
			r.Violate("other-changed", "verifying a "+f.GetType().String()+" file changed it", b)
		}
		for k, v := range marks(f) {
			if v {
				r.Violate("other-marked", k+" marked valid", b)
			}
		}
		r.Count("other_files", 1)
	}
	for name, fn := range map[string]func() error{
		"nil file": func() error {
			return tachograph.VerifyOptions{CertificateResolver: &recResolver{}}.VerifyFile(ctx, nil)
		},
		"empty file": func() error {
			return tachograph.VerifyOptions{CertificateResolver: &recResolver{}}.VerifyFile(ctx, &File{})
		},
		"driver card file without a card": func() error {
			f := &File{}
			f.SetType(2)
			return tachograph.VerifyOptions{CertificateResolver: &recResolver{}}.VerifyFile(ctx, f)
		},
		"nil card": func() error { return card.VerifyOptions{}.VerifyDriverCardFile(ctx, nil) },
		"application without certificates": func() error {
			d := &cardv1.DriverCardFile{}
			d.SetTachograph(&cardv1.DriverCardFile_Tachograph{})
			return card.VerifyOptions{CertificateResolver: &recResolver{}}.VerifyDriverCardFile(ctx, d)
		},
		"second application without certificates": func() error {
			d := &cardv1.DriverCardFile{}
			d.SetTachographG2(&cardv1.DriverCardFile_TachographG2{})
			return card.VerifyOptions{CertificateResolver: &recResolver{}}.VerifyDriverCardFile(ctx, d)
		},
	} {
		var err error
		r.Eval(true, []byte(name))
		if p, st := guard(func() { err = fn() }); p != nil {
			r.Violate("panic:"+panicSite(st), name+": "+fmt.Sprint(p), nil)
		} else if err == nil {
			r.Violate("accepted:"+sanitize(name), name+" verified", nil)
		}
	}
	r.Require("verified", n/6)
	r.Require("verified_before", n/10)
	r.Require("refused", n/6)
	r.Require("marks_checked", n)
	r.Require("resolver_calls", n)
	r.Require("other_files", 150)
	r.Require("default_resolver_refused", 150)
	r.Require("default_resolver_verified", 15)
}

// netFunc answers the requests of the default resolver in memory.
type netFunc func(req *http.Request) (*http.Response, error)

func (f netFunc) RoundTrip(req *http.Request) (*http.Response, error) { return f(req) }

// verifyDefault verifies cards signed by authorities of this world with the default resolver, which does not know them,
// whatever names they take and whatever the network (a stub) answers; only a second generation authority that the listed
// place of its reference serves is one the resolver knows.
func (r *Run) verifyDefault(g *Rand, w *world) {
	var idx struct {
		G1, G2 []struct{ CHR, URL string }
	}
	if b, err := os.ReadFile("/repo/internal/cert/certcache/index.json"); err != nil || json.Unmarshal(b, &idx) != nil {
		panic("cannot read the certificate index of the working tree")
	}
	held := [3][]uint64{}
	for gen := 1; gen <= 2; gen++ {
		fs, _ := filepath.Glob(fmt.Sprintf("/repo/internal/cert/certcache/g%d/*.bin", gen))
		for _, f := range fs {
			var n uint64
			if fmt.Sscan(strings.TrimSuffix(filepath.Base(f), ".bin"), &n); n != 0 {
				held[gen] = append(held[gen], n)
			}
		}
	}
	byURL := map[string]string{}
	twice := map[string]bool{}
	for _, e := range idx.G2 {
		if byURL[e.URL] != "" {
			twice[byURL[e.URL]], twice[e.CHR] = true, true
		}
		byURL[e.URL] = e.CHR
	}
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	G0 := &G{Rand: g}
	requests := 0
	for i, n := 0, r.N(400, 4000); i < n; i++ {
		gen := 1 + g.N(2)
		name := func() (uint64, string, string) {
			l, ix := held[gen], idx.G1
			if gen == 2 {
				ix = idx.G2
			}
			switch k := g.N(3); {
			case k == 0 && len(l) > 0:
				return l[g.N(len(l))], "held", ""
			case k == 1 && len(ix) > 0:
				e := ix[g.N(len(ix))]
				var v uint64
				fmt.Sscan(e.CHR, &v)
				for _, h := range l {
					if h == v {
						return v, "held", ""
					}
				}
				return v, "listed", e.CHR
			}
			return uint64(g.U64()), "unlisted", ""
		}
		v, how, listed := name()
		ref := be8(v)
		c := &Card{}
		add := func(name string, gen int, data []byte) {
			c.efs = append(c.efs, CardEF{ef: efBy[name], gen: gen, data: data})
		}
		add("ICC", 0, iccC().gen(G0))
		// the authority of this world that takes the name
		var served []byte
		want := false
		if gen == 1 {
			k := w.rsaCAs[g.N(len(w.rsaCAs))].key
			root, err := cert.Root()
			if err != nil {
				r.Violate("root", "no root: "+err.Error(), nil)
				return
			}
			var n uint64
			fmt.Sscan(root.GetKeyId(), &n)
			erca := be8(n)
			served = w.root.cert(genRsaContent(g, erca, ref, k), erca)
			add("ApplicationIdentification", 1, appIDG1C().gen(G0))
			add("CardCertificate", 1, k.cert(genRsaContent(g, ref, ref8(g), nil), ref))
			if g.P(3, 4) {
				add("CaCertificate", 1, served)
			}
		} else {
			a := w.eccCAs[g.N(2)]
			for {
				served = newECCKey(g, curves[0]).issue(g, ref8(g), ref, a.key.c, a.key.q).raw
				if len(served) >= 204 && len(served) <= 341 {
					break
				}
			}
			add("ApplicationIdentificationG2", 2, appIDG2C().gen(G0))
			for {
				raw := a.key.issue(g, ref, ref8(g), curves[0], newECCKey(g, curves[0]).q).raw
				if len(raw) >= 204 && len(raw) <= 341 {
					add("CardSignCertificate", 2, raw)
					break
				}
			}
			if g.P(3, 4) {
				add("CaCertificateG2", 2, served)
			}
		}
		net := pick(g, "unreachable", "not found", "served", "served")
		http.DefaultTransport = netFunc(func(req *http.Request) (*http.Response, error) {
			requests++
			switch net {
			case "unreachable":
				return nil, errors.New("unreachable")
			case "not found":
				return &http.Response{Status: "404 Not Found", StatusCode: 404, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(served)), Request: req}, nil
			}
			return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(served)), ContentLength: int64(len(served)), Request: req}, nil
		})
		want = gen == 2 && how == "listed" && net == "served" && !twice[listed]
		if gen == 2 && net == "served" && twice[listed] {
			continue
		}
		in := c.bytes()
		f := r.parseOK("card", cp(in))
		if f == nil {
			continue
		}
		how = fmt.Sprintf("generation %d, authority %s, network %s", gen, how, net)
		r.Case("default resolver; "+how, in)
		r.Eval(true, in, []byte(how))
		var err error
		p, st := guard(func() {
			if g.Bool() {
				err = tachograph.VerifyFile(context.Background(), f)
			} else {
				err = tachograph.VerifyOptions{}.VerifyFile(context.Background(), f)
			}
		})
		switch {
		case p != nil:
			r.Violate("panic:"+panicSite(st), fmt.Sprintf("%s: verification panicked: %v", how, p), in)
			continue
		case want != (err == nil):
			r.Violate("default:"+sanitize(how), fmt.Sprintf("default resolver; %s: the authority is known: %v, VerifyFile returned %v", how, want, err), in)
			continue
		}
		for _, k := range sortedKeys(marks(f)) {
			if m := marks(f)[k]; m && !(want && strings.HasSuffix(k, "card_sign_certificate.ecc_certificate")) {
				r.Violate("default-mark:"+pathKey(k), fmt.Sprintf("default resolver; %s: %s marked valid", how, k), in)
			}
		}
		if want {
			r.Count("default_resolver_verified", 1)
		} else {
			r.Count("default_resolver_refused", 1)
		}
	}
	r.Count("default_resolver_requests", requests)
}

// genuine reports whether a certificate of the file, other than the two that are verified, really is signed by an
// authority of this world.
func (w *world) genuine(f *File, path string) bool {
	ok := false
	walkMessages(f.ProtoReflect(), "", func(p string, m protoreflect.Message) {
		if p != path {
			return
		}
		switch c := m.Interface().(type) {
		case *securityv1.RsaCertificate:
			_, ok = rsaVerify(c.GetRawData(), fixed(w.root.n, 128), fixed(w.root.e, 8), dec8(w.rootRef))
		case *securityv1.EccCertificate:
			for _, a := range w.eccCAs {
				ok = ok || gen2OKWith(c, eccCA(dec8(a.ref), a.key.c, a.key.q))
			}
		}
	})
	return ok
}

func (c *curve) index() int {
	for i, x := range curves {
		if x == c {
			return i
		}
	}
	return 0
}

// signedCard is a card with genuine (mostly) certificates.
func signedCard(g *G, w *world) []byte {
	c := genCard(g, cardOpts{gen1: true, gen2: true, pInclude: 40, shuffle: false})
	var out []CardEF
	for _, e := range c.efs {
		if !e.ef.cert {
			out = append(out, e)
		}
	}
	a1 := w.rsaCAs[g.N(len(w.rsaCAs))]
	raw := a1.key.cert(genRsaContent(g.Rand, a1.ref, ref8(g.Rand), nil), a1.ref)
	if g.P(1, 5) {
		raw[g.N(128)] ^= 4
	}
	out = append(out, CardEF{ef: efBy["CardCertificate"], gen: 1, data: raw}, CardEF{ef: efBy["CaCertificate"], gen: 1, data: a1.raw})
	for {
		a2 := w.eccCAs[g.N(len(w.eccCAs))]
		s := a2.key.issue(g.Rand, a2.ref, ref8(g.Rand), curves[0], w.eccCAs[0].key.q)
		if len(s.raw) >= 204 && len(s.raw) <= 341 {
			out = append(out, CardEF{ef: efBy["CardSignCertificate"], gen: 2, data: s.raw})
			break
		}
	}
	return (&Card{out}).bytes()
}
