package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"math/big"
	"os"
	"path/filepath"

	"github.com/way-platform/tachograph-go/internal/cert"
	"github.com/way-platform/tachograph-go/internal/cert/certcache"
	"github.com/way-platform/tachograph-go/internal/security"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	"google.golang.org/protobuf/proto"
)

func init() { register("P13", runP13) }

func (r *Run) parseRsa(raw []byte) *securityv1.RsaCertificate {
	var c *securityv1.RsaCertificate
	var err error
	if p, st := guard(func() { c, err = security.UnmarshalRsaCertificate(cp(raw)) }); p != nil {
		r.Violate("panic:"+panicSite(st), fmt.Sprint(p), raw)
		return nil
	}
	if err != nil {
		r.Violate("rsa-parse", "well-formed RSA certificate rejected: "+err.Error(), raw)
		return nil
	}
	return c
}

// rsaCase runs one RSA verification and compares it with the reference verdict.
func (r *Run) rsaCase(label string, raw, n, e []byte, chr string, root bool) {
	c := r.parseRsa(raw)
	if c == nil {
		return
	}
	r.rsaVerifyCase(label, c, raw, n, e, chr, root)
}

func (r *Run) rsaVerifyCase(label string, c *securityv1.RsaCertificate, raw, n, e []byte, chr string, root bool) {
	in := append(append(append(cp(raw), n...), e...), chr...)
	r.Case(label, in)
	r.Eval(true, in)
	// an earlier verdict must not survive
	c.SetSignatureValid(true)
	earlier := rsaHash(in)[0]&1 == 1
	if earlier { // nor what an earlier verification found
		h := rsaHash(in)
		c.SetCertificateHolderReference(dec8(h[:8]))
		c.SetRsaModulus(bytes.Repeat(h[:16], 8))
		c.SetRsaExponent([]byte{0, 0, 0, 0, 0, 1, 0, 1})
		r.Count("rsa_verified_before", 1)
	}
	before := proto.Clone(c).(*securityv1.RsaCertificate)
	ca := &securityv1.RsaCertificate{}
	ca.SetRsaModulus(n)
	ca.SetRsaExponent(e)
	ca.SetCertificateHolderReference(chr)
	ca.SetSignatureValid(earlier)
	rc := &securityv1.RootCertificate{}
	rc.SetRsaModulus(n)
	rc.SetRsaExponent(e)
	rc.SetKeyId(chr)
	caBefore := proto.Clone(ca)
	var err error
	p, st := guard(func() {
		if root {
			err = security.VerifyRsaCertificateWithRoot(c, rc)
		} else {
			err = security.VerifyRsaCertificateWithCA(c, ca)
		}
	})
	if p != nil {
		r.Violate("panic:"+panicSite(st), fmt.Sprintf("%s: RSA verification panicked: %v", label, p), in)
		return
	}
	if !proto.Equal(ca, caBefore) {
		r.Violate("ca-modified", label+": verification modified the authority certificate", in)
	}
	m, want := rsaVerify(raw, n, e, chr)
	if want != (err == nil) {
		r.Violate("rsa-verdict:"+sanitize(label), fmt.Sprintf("%s: reference says genuine=%v, verification returned %v", label, want, err), in)
		return
	}
	if c.GetSignatureValid() != want {
		r.Violate("rsa-mark:"+sanitize(label), fmt.Sprintf("%s: genuine=%v but signature_valid=%v", label, want, c.GetSignatureValid()), in)
	}
	if !bytes.Equal(c.GetRawData(), raw) {
		r.Violate("rsa-raw", label+": raw bytes changed by verification", in)
	}
	if want {
		r.Count("rsa_genuine", 1)
		eov := be(m[16:20])
		for _, x := range []struct {
			what      string
			got, want any
		}{
			{"holder", c.GetCertificateHolderReference(), dec8(m[20:28])},
			{"authority", c.GetCertificateAuthorityReference(), dec8(m[1:9])},
			{"modulus", fmt.Sprintf("%x", c.GetRsaModulus()), fmt.Sprintf("%x", m[28:156])},
			{"exponent", fmt.Sprintf("%x", c.GetRsaExponent()), fmt.Sprintf("%x", m[156:164])},
			{"end of validity", c.GetEndOfValidity().GetSeconds(), eov},
			{"end of validity nanos", int64(c.GetEndOfValidity().GetNanos()), int64(0)},
		} {
			if fmt.Sprint(x.got) != fmt.Sprint(x.want) {
				r.Violate("rsa-field:"+sanitize(x.what), fmt.Sprintf("%s: %s is %v, certified %v", label, x.what, x.got, x.want), in)
			}
		}
		return
	}
	r.Count("rsa_rejected", 1)
	before.SetSignatureValid(false)
	after := proto.Clone(c).(*securityv1.RsaCertificate)
	after.SetSignatureValid(false)
	if !proto.Equal(before, after) {
		r.Violate("rsa-changed-on-failure", label+": a failed verification changed other fields of the certificate", in)
	}
}

// eccCase verifies an ECC certificate with an authority key and compares with the reference verdict.
func (r *Run) eccCase(label string, s *eccSigned, ca *securityv1.EccCertificate) {
	in := cp(s.raw)
	r.Case(label, in)
	var c *securityv1.EccCertificate
	var err error
	if p, st := guard(func() { c, err = security.UnmarshalEccCertificate(cp(in)) }); p != nil {
		r.Violate("panic:"+panicSite(st), fmt.Sprintf("%s: certificate parse panicked: %v", label, p), in)
		return
	}
	if err != nil {
		r.Eval(true, in, digest(ca))
		r.Count("ecc_unparseable", 1)
		if s.parts != nil && len(in) >= 204 && len(in) <= 341 {
			r.Violate("ecc-parse", fmt.Sprintf("%s: well-formed ECC certificate rejected: %v", label, err), in)
		}
		return
	}
	if s.parts != nil {
		r.eccFields(label, c, in)
	}
	r.eccVerifyCase(label, c, s, ca)
}

// eccFields checks what the parsed certificate reports about itself.
func (r *Run) eccFields(label string, c *securityv1.EccCertificate, in []byte) {
	d := &differ{}
	d.compare("", decEccCert(in), c.ProtoReflect())
	r.Count("fields_compared", d.fields)
	for _, x := range d.out {
		r.Violate("ecc-field:"+pathKey(x.Path), label+": "+x.String(), in)
	}
}

// eccAuthorityPoints verifies a genuine certificate with authority certificates whose public point is written otherwise
// than 04 || X || Y: they either cannot be parsed, or verify nothing.
func (r *Run) eccAuthorityPoints(g *Rand, k *eccKey, s *eccSigned, chr string) {
	var n uint64
	fmt.Sscan(chr, &n)
	x, y := fixed(k.q.x, k.c.flen), fixed(k.q.y, k.c.flen)
	cat := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	for _, v := range []struct {
		label string
		point []byte
		good  bool
	}{
		{"as certified", cat([]byte{4}, x, y), true},
		{"surplus byte behind", cat([]byte{4}, x, y, []byte{byte(g.U64())}), false},
		{"surplus zero behind", cat([]byte{4}, x, y, []byte{0}), false},
		{"surplus byte between", cat([]byte{4}, x, []byte{byte(1 + g.N(255))}, y), false},
		{"two surplus bytes behind", cat([]byte{4}, x, y, []byte{byte(1 + g.N(255)), 1}), false},
		{"last byte missing", cat([]byte{4}, x, y[:len(y)-1]), false},
		{"two last bytes missing", cat([]byte{4}, x, y[:len(y)-2]), false},
		{"first byte of both missing", cat([]byte{4}, x[1:], y[1:]), x[0] == 0 && y[0] == 0},
		{"compressed form", cat([]byte{byte(2 + k.q.y.Bit(0))}, x), false},
		{"hybrid form", cat([]byte{byte(6 + k.q.y.Bit(0))}, x, y), false},
		{"no form", cat([]byte{0}, x, y), false},
		{"x only", cat([]byte{4}, x), false},
		{"form only", []byte{4}, false},
		{"empty", nil, false},
	} {
		body := cat(tlv1([]byte{0x5F, 0x29}, []byte{0}), tlv1([]byte{0x42}, g.Bytes(8)), tlv1([]byte{0x5F, 0x4C}, g.Bytes(7)),
			tlv1([]byte{0x7F, 0x49}, cat(tlv1([]byte{0x06}, k.c.oid), tlv1([]byte{0x86}, v.point))),
			tlv1([]byte{0x5F, 0x20}, be8(n)), tlv1([]byte{0x5F, 0x25}, g.Bytes(4)), tlv1([]byte{0x5F, 0x24}, g.Bytes(4)))
		// (a signature of a length that makes the whole acceptable)
		l := 64
		for len(eccCertWrap(tlv1([]byte{0x7F, 0x4E}, body), make([]byte, l))) < 204 {
			l += 2
		}
		raw := eccCertWrap(tlv1([]byte{0x7F, 0x4E}, body), g.Bytes(l))
		if len(raw) > 341 {
			r.Count("ecc_too_long", 1)
			continue
		}
		in := cat(s.raw, raw)
		r.Case("authority point "+v.label, in)
		r.Eval(true, in)
		var ca, c *securityv1.EccCertificate
		var err, verr error
		if p, st := guard(func() { ca, err = security.UnmarshalEccCertificate(cp(raw)) }); p != nil {
			r.Violate("panic:"+panicSite(st), fmt.Sprintf("authority point %s: certificate parse panicked: %v", v.label, p), raw)
			continue
		}
		r.Count("authority_points", 1)
		if err != nil {
			if v.good {
				r.Violate("ecc-parse", "authority certificate rejected: "+err.Error(), raw)
			}
			r.Count("authority_points_refused", 1)
			continue
		}
		if c, err = security.UnmarshalEccCertificate(cp(s.raw)); err != nil {
			continue
		}
		c.SetSignatureValid(true)
		if p, st := guard(func() { verr = security.VerifyEccCertificateWithCA(c, ca) }); p != nil {
			r.Violate("panic:"+panicSite(st), fmt.Sprintf("authority point %s: verification panicked: %v", v.label, p), in)
			continue
		}
		if v.good != (verr == nil) || c.GetSignatureValid() != v.good {
			r.Violate("ecc-point:"+sanitize(v.label), fmt.Sprintf("%s, authority point written as %s: verification returned %v and marked the certificate %v", k.c.oidS, v.label, verr, c.GetSignatureValid()), in)
		}
	}
}

func (r *Run) eccVerifyCase(label string, c *securityv1.EccCertificate, s *eccSigned, ca *securityv1.EccCertificate) {
	in := s.raw
	r.Eval(true, in, digest(ca))
	c.SetSignatureValid(true)
	if ca != nil && rsaHash(in)[0]&1 == 1 { // the authority was verified before, this says nothing about this certificate
		ca = proto.Clone(ca).(*securityv1.EccCertificate)
		ca.SetSignatureValid(true)
		r.Count("ecc_authority_marked", 1)
	}
	before := proto.Clone(c).(*securityv1.EccCertificate)
	caBefore := proto.Clone(ca)
	var err error
	if p, st := guard(func() { err = security.VerifyEccCertificateWithCA(c, ca) }); p != nil {
		r.Violate("panic:"+panicSite(st), fmt.Sprintf("%s: ECC verification panicked: %v", label, p), append(cp(in), digest(ca)...))
		return
	}
	if !proto.Equal(ca, caBefore) {
		r.Violate("ca-modified", label+": verification modified the authority certificate", in)
	}
	want := eccWant(c, s, ca)
	if want != (err == nil) {
		r.Violate("ecc-verdict:"+sanitize(label), fmt.Sprintf("%s: reference says genuine=%v, verification returned %v (authority %v)", label, want, err, ca), in)
		return
	}
	if c.GetSignatureValid() != want {
		r.Violate("ecc-mark:"+sanitize(label), fmt.Sprintf("%s: genuine=%v but signature_valid=%v", label, want, c.GetSignatureValid()), in)
	}
	before.SetSignatureValid(false)
	after := proto.Clone(c).(*securityv1.EccCertificate)
	after.SetSignatureValid(false)
	if !proto.Equal(before, after) {
		r.Violate("ecc-changed", label+": verification changed other fields of the certificate", in)
	}
	if want {
		r.Count("ecc_genuine", 1)
	} else {
		r.Count("ecc_rejected", 1)
	}
}

// eccWant is the reference verdict on the body and signature bytes as assembled by the harness.
func eccWant(c *securityv1.EccCertificate, s *eccSigned, ca *securityv1.EccCertificate) bool {
	if len(s.raw) < 204 || len(s.raw) > 341 || c.GetCertificateAuthorityReference() != ca.GetCertificateHolderReference() {
		return false
	}
	var k *curve
	for _, x := range curves {
		if x.oidS == ca.GetPublicKey().GetDomainParametersOid() {
			k = x
		}
	}
	if k == nil || len(s.sig)%2 != 0 {
		return false
	}
	h := len(s.sig) / 2
	q := point{new(big.Int).SetBytes(ca.GetPublicKey().GetPublicPointX()), new(big.Int).SetBytes(ca.GetPublicKey().GetPublicPointY())}
	return k.verify(q, k.hash(s.body), new(big.Int).SetBytes(s.sig[:h]), new(big.Int).SetBytes(s.sig[h:]))
}

func eccCA(chr string, c *curve, q point) *securityv1.EccCertificate {
	ca := &securityv1.EccCertificate{}
	ca.SetCertificateHolderReference(chr)
	pk := &securityv1.EccCertificate_PublicKey{}
	pk.SetDomainParametersOid(c.oidS)
	pk.SetPublicPointX(fixed(q.x, c.flen))
	pk.SetPublicPointY(fixed(q.y, c.flen))
	ca.SetPublicKey(pk)
	return ca
}

func runP13(r *Run) {
	r.rule = "one case = one verification of one certificate against one authority key: genuine chains signed by an independent signer, every single bit flip of some, wrong, swapped or malformed authorities, and malformed signature representatives; non-trivial = every case; distinct by certificate and authority bytes"
	r.assume = []string{"the reference verifier and signer are plain big integer implementations written for this harness; the curve constants are checked for consistency before use", "certificates whose reported authority differs between the signed content and the clear text reference are judged by the clear text one, as the code documents"}
	g := NewRand(r.Seed, "P13")
	if err := pkiSelfCheck(g); err != nil {
		panic(err)
	}
	// --- RSA ---
	nk := r.N(4, 16)
	var keys []*rsaKey
	for i := 0; i < nk; i++ {
		k := newRSAKey(g, pick(g, int64(65537), 65537, 3, 17, 0x7FFFFFFF, 0x100000001, 0x10000000000003, 0x7FFFFFFFFFFFFFE7))
		if i == 1 {
			k = newRSAKey(g, pick(g, int64(0x100000001), 0x10000000000003, 0x7FFFFFFFFFFFFFE7))
		}
		for i == 0 && k.n.Bytes()[0] < 0xEC { // every header byte below 0xEC is reachable with this one
			k = newRSAKey(g, 65537)
		}
		keys = append(keys, k)
	}
	for i := 0; i < r.N(400, 4000); i++ {
		k := keys[g.N(nk)]
		car, chr := ref8(g), ref8(g)
		c := genRsaContent(g, car, chr, nil)
		if g.P(1, 10) {
			c.car = ref8(g) // the signed reference differs from the clear text one
		}
		if g.P(1, 10) {
			c.cpi = g.Byte()
		}
		raw := k.cert(c, car)
		n, e := fixed(k.n, 128), fixed(k.e, 8)
		root := g.P(1, 3)
		r.rsaCase("genuine", raw, n, e, dec8(car), root)
		if i < 3 {
			r.Sample(map[string]any{"certificate": hexs(raw), "modulus": hexs(n), "verdict": "genuine"})
		}
		// other authorities
		o := keys[g.N(nk)]
		r.rsaCase("other key", raw, fixed(o.n, 128), fixed(o.e, 8), dec8(car), root)
		r.rsaCase("other reference", raw, n, e, dec8(ref8(g)), root)
		r.rsaCase("other reference", raw, n, e, pick(g, "", "0", dec8(car)+"0", " "+dec8(car), "0"+dec8(car), dec8(chr)), root)
		bad := cp(car)
		bad[g.N(8)] ^= 1 << g.N(8)
		r.rsaCase("reference off by a bit", raw, n, e, dec8(bad), root)
		// malformed keys
		switch g.N(10) {
		case 0:
			r.rsaCase("malformed key", raw, nil, e, dec8(car), root)
		case 1:
			r.rsaCase("malformed key", raw, n, nil, dec8(car), root)
		case 2:
			r.rsaCase("malformed key", raw, make([]byte, 128), e, dec8(car), root)
		case 3:
			r.rsaCase("malformed key", raw, append(make([]byte, 127), 1), e, dec8(car), root)
		case 4:
			r.rsaCase("malformed key", raw, n, make([]byte, 8), dec8(car), root)
		case 5:
			r.rsaCase("malformed key", raw, n[:g.N(128)], e, dec8(car), root)
		case 6:
			r.rsaCase("malformed key", raw, append(cp(n), g.Bytes(1+g.N(64))...), e, dec8(car), root)
		case 7:
			r.rsaCase("malformed key", raw, []byte{0}, bytes.Repeat([]byte{0xFF}, 8), dec8(car), root)
		case 8: // leading zeros do not change a number
			r.rsaCase("padded key", raw, append(make([]byte, 1+g.N(4)), n...), append(make([]byte, g.N(4)), e...), dec8(car), root)
		case 9:
			x := cp(n)
			x[g.N(128)] ^= 1 << g.N(8)
			r.rsaCase("modulus off by a bit", raw, x, e, dec8(car), root)
		}
		// malformed representatives under the right key
		m := c.bytes()
		sign := func(label string, hdr byte, cr, h []byte, trailer byte, cn []byte) {
			rep := append(append(append([]byte{hdr}, cr...), h...), trailer)
			if new(big.Int).SetBytes(rep).Cmp(k.n) >= 0 {
				return
			}
			r.rsaCase(label, k.signRaw(rep, cn, car), n, e, dec8(car), root)
		}
		hs := func(b []byte) []byte { return rsaHash(b) }
		for _, hdr := range []byte{0x00, 0x4A, 0x4B, 0x6B, 0x2A, 0x7A, 0x6E, 0x62, 0x68, 0xEA, g.Byte()} {
			sign("wrong header", hdr, m[:106], hs(m), 0xBC, m[106:])
		}
		for _, tr := range []byte{0x00, 0xCC, 0xBD, 0xBB, 0x3C, 0xFC, 0xB4, 0xAC, g.Byte()} {
			sign("wrong trailer", 0x6A, m[:106], hs(m), tr, m[106:])
		}
		sign("hash of the recovered part only", 0x6A, m[:106], hs(m[:106]), 0xBC, m[106:])
		sign("hash of the clear part only", 0x6A, m[:106], hs(m[106:]), 0xBC, m[106:])
		sign("hash including the reference", 0x6A, m[:106], hs(append(cp(m), car...)), 0xBC, m[106:])
		sign("zero hash", 0x6A, m[:106], make([]byte, 20), 0xBC, m[106:])
		x := hs(m)
		x[g.N(20)] ^= 1 << g.N(8)
		sign("hash off by a bit", 0x6A, m[:106], x, 0xBC, m[106:])
		y := cp(m[106:])
		y[g.N(58)] ^= 1 << g.N(8)
		sign("clear part off by a bit", 0x6A, m[:106], hs(m), 0xBC, y)
		// the same signature plus the modulus
		if s := new(big.Int).Add(new(big.Int).SetBytes(raw[:128]), k.n); s.BitLen() <= 1024 {
			r.Count("rsa_signature_plus_modulus", 1)
			r.rsaCase("signature plus modulus", append(fixed(s, 128), raw[128:]...), n, e, dec8(car), root)
		}
		for _, b := range [][]byte{make([]byte, 128), append(make([]byte, 127), 1), bytes.Repeat([]byte{0xFF}, 128), fixed(k.n, 128), fixed(new(big.Int).Sub(k.n, big.NewInt(1)), 128)} {
			r.rsaCase("degenerate signature", append(cp(b), raw[128:]...), n, e, dec8(car), root)
		}
		// raw bytes of another length
		if c := r.parseRsa(raw); c != nil {
			other := append(cp(raw), 0)
			if g.Bool() {
				other = raw[:g.N(194)]
			}
			c.SetRawData(other)
			r.rsaVerifyCase("wrong length", c, other, n, e, dec8(car), root)
		}
	}
	// every single bit of some certificates
	for i := 0; i < r.N(2, 12); i++ {
		k := keys[i%nk]
		car := ref8(g)
		raw := k.cert(genRsaContent(g, car, ref8(g), nil), car)
		for bit := 0; bit < len(raw)*8; bit++ {
			x := cp(raw)
			x[bit/8] ^= 1 << (bit % 8)
			r.rsaCase("flipped bit", x, fixed(k.n, 128), fixed(k.e, 8), dec8(car), i%2 == 0)
			r.Count("rsa_bits_flipped", 1)
		}
	}
	// --- ECC ---
	var eks []*eccKey
	for _, c := range curves {
		eks = append(eks, newECCKey(g, c))
	}
	rounds := r.N(6, 60)
	for i := 0; i < rounds; i++ {
		for ci, k := range eks {
			sub := curves[(ci+i)%6]
			car, chr := ref8(g), ref8(g)
			s := k.issue(g, car, chr, sub, newECCKey(g, sub).q)
			ca := eccCA(dec8(car), k.c, k.q)
			if len(s.raw) > 341 {
				r.Count("ecc_too_long", 1)
				continue
			}
			r.eccCase("genuine", s, ca)
			r.Count("ecc_curve_"+k.c.oidS, 1)
			mod := func(label string, f func(*securityv1.EccCertificate)) {
				x := proto.Clone(ca).(*securityv1.EccCertificate)
				f(x)
				r.eccCase(label, s, x)
			}
			o := newECCKey(g, k.c)
			r.eccCase("other key", s, eccCA(dec8(car), k.c, o.q))
			r.eccCase("other reference", s, eccCA(dec8(ref8(g)), k.c, k.q))
			r.eccCase("other reference", s, eccCA(pick(g, "", dec8(chr), "0"+dec8(car)), k.c, k.q))
			r.eccCase("negated key", s, eccCA(dec8(car), k.c, point{k.q.x, new(big.Int).Sub(k.c.p, k.q.y)}))
			mod("no key", func(x *securityv1.EccCertificate) { x.ClearPublicKey() })
			mod("no x", func(x *securityv1.EccCertificate) { x.GetPublicKey().SetPublicPointX(nil) })
			mod("no y", func(x *securityv1.EccCertificate) { x.GetPublicKey().SetPublicPointY(nil) })
			mod("zero point", func(x *securityv1.EccCertificate) {
				x.GetPublicKey().SetPublicPointX([]byte{0})
				x.GetPublicKey().SetPublicPointY([]byte{0})
			})
			mod("point off the curve", func(x *securityv1.EccCertificate) { x.GetPublicKey().SetPublicPointX(g.Bytes(k.c.flen)) })
			mod("point off the curve", func(x *securityv1.EccCertificate) {
				y := x.GetPublicKey().GetPublicPointY()
				y[len(y)-1-g.N(8)] ^= 1 << g.N(8)
			})
			mod("coordinates swapped", func(x *securityv1.EccCertificate) {
				a, b := x.GetPublicKey().GetPublicPointX(), x.GetPublicKey().GetPublicPointY()
				x.GetPublicKey().SetPublicPointX(b)
				x.GetPublicKey().SetPublicPointY(a)
			})
			mod("long coordinates", func(x *securityv1.EccCertificate) { x.GetPublicKey().SetPublicPointY(g.Bytes(100)) })
			mod("truncated coordinate", func(x *securityv1.EccCertificate) {
				a := x.GetPublicKey().GetPublicPointX()
				x.GetPublicKey().SetPublicPointX(a[:len(a)-1])
			})
			for _, oc := range curves {
				mod("authority on another curve", func(x *securityv1.EccCertificate) { x.GetPublicKey().SetDomainParametersOid(oc.oidS) })
			}
			mod("coordinate with a byte before it", func(x *securityv1.EccCertificate) {
				x.GetPublicKey().SetPublicPointX(append([]byte{byte(1 + g.N(255))}, x.GetPublicKey().GetPublicPointX()...))
			})
			r.eccAuthorityPoints(g, k, s, dec8(car))
			for _, oid := range []string{"", "1.2.840.10045.3.1.1", "1.3.132.0.33", "1.3.36.3.3.2.8.1.1", "1.3.36.3.3.2.8.1.1.9", "x", "1.3.132.0.10"} {
				mod("unknown curve", func(x *securityv1.EccCertificate) { x.GetPublicKey().SetDomainParametersOid(oid) })
			}
			re := func(label string, sig []byte) {
				x := *s
				x.sig = sig
				x.raw = eccCertWrap(s.body, sig)
				x.parts = nil
				r.eccCase(label, &x, ca)
			}
			fl, h := k.c.flen, len(s.sig)/2
			R, S := new(big.Int).SetBytes(s.sig[:h]), new(big.Int).SetBytes(s.sig[h:])
			sig := func(a, b *big.Int) []byte {
				n := fl
				for _, v := range []*big.Int{a, b} {
					if l := (v.BitLen() + 7) / 8; l > n {
						n = l
					}
				}
				return append(fixed(a, n), fixed(b, n)...)
			}
			z := new(big.Int)
			re("complement of s", sig(R, new(big.Int).Sub(k.c.n, S)))
			re("r and s swapped", sig(S, R))
			re("r zero", sig(z, S))
			re("s zero", sig(R, z))
			re("both zero", sig(z, z))
			re("r is the order", sig(k.c.n, S))
			re("s is the order", sig(R, k.c.n))
			re("r plus the order", sig(new(big.Int).Add(R, k.c.n), S))
			re("s plus the order", sig(R, new(big.Int).Add(S, k.c.n)))
			re("signature widened", append(append([]byte{0}, fixed(R, fl)...), append([]byte{0}, fixed(S, fl)...)...))
			re("empty signature", nil)
			re("odd signature", s.sig[1:])
			// signed with the wrong digest or over the wrong bytes
			for hn, hf := range map[string]func([]byte) []byte{"sha256": h256, "sha384": h384, "sha512": h512} {
				a, b := k.sign(g, hf(s.body))
				re("signed with "+hn, sig(a, b))
			}
			_, content, _ := berRead(s.body)
			a, b := k.sign(g, k.c.hash(content))
			re("signed without the body header", sig(a, b))
			a, b = k.sign(g, k.c.hash(s.raw))
			re("signed the whole certificate", sig(a, b))
			a, b = o.sign(g, k.c.hash(s.body))
			re("signed by another key", sig(a, b))
			// random single bit flips in body and signature; all of them for a few certificates
			bits := (len(s.body) + len(s.sig)) * 8
			flips := r.N(24, 60)
			all := i == 0 && (ci == 0 || ci == 3 || r.Thorough())
			if all {
				flips = bits
			}
			for q := 0; q < flips; q++ {
				bit := q
				if !all {
					bit = g.N(bits)
				}
				x := eccSigned{body: cp(s.body), sig: cp(s.sig)}
				if bit/8 < len(x.body) {
					x.body[bit/8] ^= 1 << (bit % 8)
				} else {
					x.sig[bit/8-len(x.body)] ^= 1 << (bit % 8)
				}
				x.raw = eccCertWrap(x.body, x.sig)
				r.Count("ecc_bits_flipped", 1)
				r.eccFlip(&x, ca)
			}
			// a verified certificate checked again against a broken authority
			if c, err := security.UnmarshalEccCertificate(cp(s.raw)); err == nil {
				for _, l := range []int{0, 203, 342} {
					c.SetRawData(make([]byte, l))
					x := *s
					x.raw = make([]byte, l)
					r.eccVerifyCase("wrong length", c, &x, ca)
				}
				c.SetRawData(s.raw)
				c.ClearSignature()
				x := *s
				x.sig = nil
				r.eccVerifyCase("no signature", c, &x, ca)
			}
		}
	}
	r.nilCases()
	r.realCertificates()
	r.Require("rsa_genuine", 300)
	r.Require("rsa_rejected", 3000)
	r.Require("rsa_bits_flipped", 3000)
	r.Require("rsa_signature_plus_modulus", 20)
	r.Require("ecc_genuine", 40)
	r.Require("ecc_rejected", 1000)
	r.Require("real_chains", 4)
}

// eccFlip verifies a certificate damaged by one bit: whatever the parser makes of it, it must not verify.
func (r *Run) eccFlip(s *eccSigned, ca *securityv1.EccCertificate) {
	var c *securityv1.EccCertificate
	var err, perr error
	r.Case("flipped bit", s.raw)
	r.Eval(true, s.raw, digest(ca))
	p, st := guard(func() {
		if c, perr = security.UnmarshalEccCertificate(cp(s.raw)); perr != nil {
			return
		}
		c.SetSignatureValid(true)
		err = security.VerifyEccCertificateWithCA(c, ca)
	})
	switch {
	case p != nil:
		r.Violate("panic:"+panicSite(st), fmt.Sprintf("flipped bit: %v", p), s.raw)
	case perr != nil:
		r.Count("ecc_unparseable", 1)
	case err == nil || c.GetSignatureValid():
		r.Violate("ecc-flip", fmt.Sprintf("certificate with one flipped bit: verification returned %v, signature_valid=%v", err, c.GetSignatureValid()), s.raw)
	default:
		r.Count("ecc_rejected", 1)
	}
}

func rsaHash(b []byte) []byte {
	h := sha1.Sum(b)
	return h[:]
}

func (r *Run) nilCases() {
	rc := &securityv1.RsaCertificate{}
	rc.SetSignatureValid(true)
	ec := &securityv1.EccCertificate{}
	ec.SetSignatureValid(true)
	for name, f := range map[string]func() error{
		"nil rsa certificate":           func() error { return security.VerifyRsaCertificateWithCA(nil, rc) },
		"nil rsa certificate with root": func() error { return security.VerifyRsaCertificateWithRoot(nil, &securityv1.RootCertificate{}) },
		"nil rsa authority":             func() error { return security.VerifyRsaCertificateWithCA(rc, nil) },
		"nil root":                      func() error { return security.VerifyRsaCertificateWithRoot(rc, nil) },
		"empty rsa":                     func() error { return security.VerifyRsaCertificateWithCA(rc, &securityv1.RsaCertificate{}) },
		"nil ecc certificate":           func() error { return security.VerifyEccCertificateWithCA(nil, ec) },
		"nil ecc authority":             func() error { return security.VerifyEccCertificateWithCA(ec, nil) },
		"both nil ecc":                  func() error { return security.VerifyEccCertificateWithCA(nil, nil) },
		"empty ecc":                     func() error { return security.VerifyEccCertificateWithCA(ec, &securityv1.EccCertificate{}) },
	} {
		rc.SetSignatureValid(true)
		ec.SetSignatureValid(true)
		var err error
		r.Eval(true, []byte(name))
		if p, st := guard(func() { err = f() }); p != nil {
			r.Violate("panic:"+panicSite(st), fmt.Sprintf("%s: %v", name, p), nil)
			continue
		}
		if err == nil {
			r.Violate("nil-accepted", name+" verified", nil)
		}
		if name != "nil rsa certificate" && name != "nil rsa certificate with root" && name != "nil ecc certificate" && name != "both nil ecc" {
			if bytes.Contains([]byte(name), []byte("ecc")) && ec.GetSignatureValid() || !bytes.Contains([]byte(name), []byte("ecc")) && rc.GetSignatureValid() {
				r.Violate("nil-mark", name+": certificate left marked valid", nil)
			}
		}
	}
}

// realCertificates verifies the authority certificates that ship with the repository against the European root.
func (r *Run) realCertificates() {
	root, err := cert.Root()
	if err != nil {
		r.Violate("root", err.Error(), nil)
		return
	}
	rb := certcache.Root()
	var raws [][]byte
	for _, dir := range []string{"/repo/internal/cert/certcache/g1", "/repo/internal/security/testdata/certs/g1"} {
		fs, _ := filepath.Glob(filepath.Join(dir, "*.bin"))
		for _, f := range fs {
			if b, err := os.ReadFile(f); err == nil && len(b) == 194 {
				raws = append(raws, b)
			}
		}
	}
	for _, raw := range raws {
		if _, ok := rsaVerify(raw, rb[8:136], rb[136:144], dec8(rb[:8])); ok {
			r.Count("real_chains", 1)
		}
		r.rsaCase("real authority certificate", raw, root.GetRsaModulus(), root.GetRsaExponent(), root.GetKeyId(), true)
		for i := 0; i < 194; i++ {
			x := cp(raw)
			x[i] ^= 0x10
			r.rsaCase("real authority certificate, one bit flipped", x, root.GetRsaModulus(), root.GetRsaExponent(), root.GetKeyId(), true)
		}
	}
	for _, dir := range []string{"/repo/internal/cert/certcache/g2", "/repo/internal/security/testdata/certs/g2"} {
		fs, _ := filepath.Glob(filepath.Join(dir, "*.bin"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			var c *securityv1.EccCertificate
			var perr error
			if p, st := guard(func() { c, perr = security.UnmarshalEccCertificate(cp(b)) }); p != nil || perr != nil {
				r.Violate("real-ecc", fmt.Sprintf("%s: %v %v %s", filepath.Base(f), p, perr, st), b)
				continue
			}
			r.Count("real_chains", 1)
			r.eccFields("real certificate", c, b)
		}
	}
}
