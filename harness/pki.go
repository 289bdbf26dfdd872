package main

import (
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math/big"
)

// An independent implementation of the two certificate schemes: RSA signatures with partial message recovery
// (ISO 9796-2, Appendix 11 part A) and ECDSA over the regulation's curves (part B). Plain big integer arithmetic,
// no code shared with the repository or its dependencies.

type rsaKey struct{ n, e, d *big.Int }

func randPrime(g *Rand, bits int) *big.Int {
	for {
		b := g.Bytes(bits / 8)
		b[0] |= 0xC0
		b[len(b)-1] |= 1
		p := new(big.Int).SetBytes(b)
		if p.ProbablyPrime(12) {
			return p
		}
	}
}

// newRSAKey makes a 1024 bit key; small keys have a modulus below 2^1023.6 so that sig+n may still fit 128 bytes.
func newRSAKey(g *Rand, e int64) *rsaKey {
	one := big.NewInt(1)
	for {
		p, q := randPrime(g, 512), randPrime(g, 512)
		phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
		k := &rsaKey{n: new(big.Int).Mul(p, q), e: big.NewInt(e)}
		k.d = new(big.Int).ModInverse(k.e, phi)
		if k.d != nil && p.Cmp(q) != 0 {
			return k
		}
	}
}

func fixed(x *big.Int, n int) []byte {
	b := x.Bytes()
	if len(b) > n {
		return b
	}
	return append(make([]byte, n-len(b)), b...)
}

// rsaContent is the signed content C' of a certificate.
type rsaContent struct {
	cpi           byte
	car, chr, cha []byte
	eov           uint32
	n, e          []byte
}

func (c rsaContent) bytes() []byte {
	b := append([]byte{c.cpi}, c.car...)
	b = append(b, c.cha...)
	b = append(b, be4(c.eov)...)
	b = append(b, c.chr...)
	b = append(b, c.n...)
	return append(b, c.e...)
}

func genRsaContent(g *Rand, car, chr []byte, k *rsaKey) rsaContent {
	c := rsaContent{cpi: 1, car: car, chr: chr, cha: g.Bytes(7), eov: uint32(g.U64())}
	if k != nil {
		c.n, c.e = fixed(k.n, 128), fixed(k.e, 8)
	} else {
		c.n, c.e = g.Bytes(128), append(make([]byte, 5), 1, 0, 1)
		if g.P(1, 8) { // moduli with leading zeros keep their length
			c.n[0], c.n[1] = 0, 0
		}
	}
	switch g.N(6) {
	case 0:
		c.eov = 0
	case 1:
		c.eov = 0xFFFFFFFF
	}
	return c
}

// sign recovers nothing: it produces Sr || Cn' || CAR' for message representative (header, cr, hash, trailer).
func (k *rsaKey) signRaw(rep []byte, cn, car []byte) []byte {
	s := new(big.Int).Exp(new(big.Int).SetBytes(rep), k.d, k.n)
	out := fixed(s, 128)
	return append(append(out, cn...), car...)
}

func (k *rsaKey) cert(c rsaContent, carPrime []byte) []byte {
	m := c.bytes()
	h := sha1.Sum(m)
	rep := append([]byte{0x6A}, m[:106]...)
	rep = append(rep, h[:]...)
	rep = append(rep, 0xBC)
	return k.signRaw(rep, m[106:], carPrime)
}

func dec8(b []byte) string { return fmt.Sprintf("%d", binary.BigEndian.Uint64(b)) }

// rsaVerify is the reference verification; it returns the signed content.
func rsaVerify(raw, n, e []byte, caCHR string) ([]byte, bool) {
	if len(raw) != 194 || len(n) == 0 || len(e) == 0 || dec8(raw[186:]) != caCHR {
		return nil, false
	}
	N, E := new(big.Int).SetBytes(n), new(big.Int).SetBytes(e)
	s := new(big.Int).SetBytes(raw[:128])
	if s.Cmp(N) >= 0 {
		return nil, false
	}
	rep := fixed(new(big.Int).Exp(s, E, N), 128)
	if len(rep) != 128 || rep[0] != 0x6A || rep[127] != 0xBC {
		return nil, false
	}
	m := append(cp(rep[1:107]), raw[128:186]...)
	h := sha1.Sum(m)
	return m, bytes.Equal(h[:], rep[107:127])
}

type curve struct {
	eccParams
	p, a, b, gx, gy, n *big.Int
	hash               func([]byte) []byte
}

func hx(s string) *big.Int {
	x, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad constant")
	}
	return x
}

func h256(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
func h384(b []byte) []byte { h := sha512.Sum384(b); return h[:] }
func h512(b []byte) []byte { h := sha512.Sum512(b); return h[:] }

// domain parameters of RFC 5639 (brainpool) and FIPS 186-4 (NIST), in the order of eccCurves.
var curves = func() []*curve {
	mk := func(i int, p, a, b, gx, gy, n string, h func([]byte) []byte) *curve {
		return &curve{eccCurves[i], hx(p), hx(a), hx(b), hx(gx), hx(gy), hx(n), h}
	}
	return []*curve{
		mk(0, "A9FB57DBA1EEA9BC3E660A909D838D726E3BF623D52620282013481D1F6E5377",
			"7D5A0975FC2C3057EEF67530417AFFE7FB8055C126DC5C6CE94A4B44F330B5D9",
			"26DC5C6CE94A4B44F330B5D9BBD77CBF958416295CF7E1CE6BCCDC18FF8C07B6",
			"8BD2AEB9CB7E57CB2C4B482FFC81B7AFB9DE27E1E3BD23C23A4453BD9ACE3262",
			"547EF835C3DAC4FD97F8461A14611DC9C27745132DED8E545C1D54C72F046997",
			"A9FB57DBA1EEA9BC3E660A909D838D718C397AA3B561A6F7901E0E82974856A7", h256),
		mk(1, "8CB91E82A3386D280F5D6F7E50E641DF152F7109ED5456B412B1DA197FB71123ACD3A729901D1A71874700133107EC53",
			"7BC382C63D8C150C3C72080ACE05AFA0C2BEA28E4FB22787139165EFBA91F90F8AA5814A503AD4EB04A8C7DD22CE2826",
			"04A8C7DD22CE28268B39B55416F0447C2FB77DE107DCD2A62E880EA53EEB62D57CB4390295DBC9943AB78696FA504C11",
			"1D1C64F068CF45FFA2A63A81B7C13F6B8847A3E77EF14FE3DB7FCAFE0CBD10E8E826E03436D646AAEF87B2E247D4AF1E",
			"8ABE1D7520F9C2A45CB1EB8E95CFD55262B70B29FEEC5864E19C054FF99129280E4646217791811142820341263C5315",
			"8CB91E82A3386D280F5D6F7E50E641DF152F7109ED5456B31F166E6CAC0425A7CF3AB6AF6B7FC3103B883202E9046565", h384),
		mk(2, "AADD9DB8DBE9C48B3FD4E6AE33C9FC07CB308DB3B3C9D20ED6639CCA703308717D4D9B009BC66842AECDA12AE6A380E62881FF2F2D82C68528AA6056583A48F3",
			"7830A3318B603B89E2327145AC234CC594CBDD8D3DF91610A83441CAEA9863BC2DED5D5AA8253AA10A2EF1C98B9AC8B57F1117A72BF2C7B9E7C1AC4D77FC94CA",
			"3DF91610A83441CAEA9863BC2DED5D5AA8253AA10A2EF1C98B9AC8B57F1117A72BF2C7B9E7C1AC4D77FC94CADC083E67984050B75EBAE5DD2809BD638016F723",
			"81AEE4BDD82ED9645A21322E9C4C6A9385ED9F70B5D916C1B43B62EEF4D0098EFF3B1F78E2D0D48D50D1687B93B97D5F7C6D5047406A5E688B352209BCB9F822",
			"7DDE385D566332ECC0EABFA9CF7822FDF209F70024A57B1AA000C55B881F8111B2DCDE494A5F485E5BCA4BD88A2763AED1CA2B2FA8F0540678CD1E0F3AD80892",
			"AADD9DB8DBE9C48B3FD4E6AE33C9FC07CB308DB3B3C9D20ED6639CCA70330870553E5C414CA92619418661197FAC10471DB1D381085DDADDB58796829CA90069", h512),
		mk(3, "FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF",
			"FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC",
			"5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B",
			"6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296",
			"4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5",
			"FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551", h256),
		mk(4, "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFFFF0000000000000000FFFFFFFF",
			"FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFFFF0000000000000000FFFFFFFC",
			"B3312FA7E23EE7E4988E056BE3F82D19181D9C6EFE8141120314088F5013875AC656398D8A2ED19D2A85C8EDD3EC2AEF",
			"AA87CA22BE8B05378EB1C71EF320AD746E1D3B628BA79B9859F741E082542A385502F25DBF55296C3A545E3872760AB7",
			"3617DE4A96262C6F5D9E98BF9292DC29F8F41DBD289A147CE9DA3113B5F0B8C00A60B1CE1D7E819D7A431D7C90EA0E5F",
			"FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC7634D81F4372DDF581A0DB248B0A77AECEC196ACCC52973", h384),
		mk(5, "1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF",
			"1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC",
			"51953EB9618E1C9A1F929A21A0B68540EEA2DA725B99B315F3B8B489918EF109E156193951EC7E937B1652C0BD3BB1BF073573DF883D2C34F1EF451FD46B503F00",
			"C6858E06B70404E9CD9E3ECB662395B4429C648139053FB521F828AF606B4D3DBAA14B5E77EFE75928FE1DC127A2FFA8DE3348B3C1856A429BF97E7E31C2E5BD66",
			"11839296A789A3BC0045C8A5FB42C7D1BD998F54449579B446817AFBD17273E662C97EE72995EF42640C550B9013FAD0761353C7086A272C24088BE94769FD16650",
			"1FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFA51868783BF2F966B7FCC0148F709A5D03BB5C9B8899C47AEBB6FB71E91386409", h512),
	}
}()

type point struct{ x, y *big.Int } // nil x: infinity

func (c *curve) onCurve(q point) bool {
	if q.x == nil || q.x.Cmp(c.p) >= 0 || q.y.Cmp(c.p) >= 0 {
		return false
	}
	l := new(big.Int).Mul(q.y, q.y)
	r := new(big.Int).Mul(q.x, q.x)
	r.Add(r, c.a).Mul(r, q.x).Add(r, c.b).Sub(r, l)
	return r.Mod(r, c.p).Sign() == 0
}

func (c *curve) add(p, q point) point {
	if p.x == nil {
		return q
	}
	if q.x == nil {
		return p
	}
	var l *big.Int
	if p.x.Cmp(q.x) == 0 {
		if s := new(big.Int).Add(p.y, q.y); s.Mod(s, c.p).Sign() == 0 {
			return point{}
		}
		l = new(big.Int).Mul(p.x, p.x)
		l.Mul(l, big.NewInt(3)).Add(l, c.a)
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(p.y, 1), c.p))
	} else {
		d := new(big.Int).Sub(q.x, p.x)
		d.Mod(d, c.p)
		l = new(big.Int).Sub(q.y, p.y)
		l.Mul(l, d.ModInverse(d, c.p))
	}
	l.Mod(l, c.p)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.x).Sub(x, q.x).Mod(x, c.p)
	y := new(big.Int).Sub(p.x, x)
	y.Mul(y, l).Sub(y, p.y).Mod(y, c.p)
	return point{x, y}
}

func (c *curve) mul(k *big.Int, q point) point {
	r := point{}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.add(r, r)
		if k.Bit(i) == 1 {
			r = c.add(r, q)
		}
	}
	return r
}

func (c *curve) base() point { return point{c.gx, c.gy} }

type eccKey struct {
	c *curve
	d *big.Int
	q point
}

func (c *curve) scalar(g *Rand) *big.Int {
	for {
		k := new(big.Int).SetBytes(g.Bytes(c.flen))
		k.Mod(k, c.n)
		if k.Sign() > 0 {
			return k
		}
	}
}

func newECCKey(g *Rand, c *curve) *eccKey {
	d := c.scalar(g)
	return &eccKey{c, d, c.mul(d, c.base())}
}

func (c *curve) digest(h []byte) *big.Int {
	e := new(big.Int).SetBytes(h)
	if x := len(h)*8 - c.n.BitLen(); x > 0 {
		e.Rsh(e, uint(x))
	}
	return e
}

func (k *eccKey) sign(g *Rand, h []byte) (r, s *big.Int) {
	c := k.c
	for {
		t := c.scalar(g)
		r = new(big.Int).Mod(c.mul(t, c.base()).x, c.n)
		if r.Sign() == 0 {
			continue
		}
		s = new(big.Int).Mul(r, k.d)
		s.Add(s, c.digest(h)).Mul(s, new(big.Int).ModInverse(t, c.n)).Mod(s, c.n)
		if s.Sign() != 0 {
			return r, s
		}
	}
}

func (c *curve) verify(q point, h []byte, r, s *big.Int) bool {
	if !c.onCurve(q) || r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(c.n) >= 0 || s.Cmp(c.n) >= 0 {
		return false
	}
	w := new(big.Int).ModInverse(s, c.n)
	u := new(big.Int).Mul(c.digest(h), w)
	v := new(big.Int).Mul(r, w)
	x := c.add(c.mul(u.Mod(u, c.n), c.base()), c.mul(v.Mod(v, c.n), q))
	return x.x != nil && new(big.Int).Mod(x.x, c.n).Cmp(r) == 0
}

// eccSigned is a certificate signed by an authority.
type eccSigned struct {
	parts     *eccParts
	body, sig []byte
	raw       []byte
}

func (k *eccKey) issue(g *Rand, car, chr []byte, subject *curve, pub point) *eccSigned {
	p := &eccParts{car: car, cha: g.Bytes(7), chr: chr, p: subject.eccParams, x: fixed(pub.x, subject.flen), y: fixed(pub.y, subject.flen), eff: uint32(g.U64()), exp: uint32(g.U64())}
	body := eccCertBody(0, p.car, p.cha, p.p, p.x, p.y, p.chr, p.eff, p.exp)
	r, s := k.sign(g, k.c.hash(body))
	return sealed(p, body, append(fixed(r, k.c.flen), fixed(s, k.c.flen)...))
}

func sealed(p *eccParts, body, sig []byte) *eccSigned {
	return &eccSigned{p, body, sig, eccCertWrap(body, sig)}
}

func ref8(g *Rand) []byte {
	b := g.Bytes(8)
	switch g.N(8) {
	case 0:
		return []byte{0, 0, 0, 0, 0, 0, 0, byte(1 + g.N(255))}
	case 1:
		b[0] = 0xFF
	}
	return b
}

// selfCheck makes sure the reference implementation is consistent before it judges anything.
func pkiSelfCheck(g *Rand) error {
	for _, c := range curves {
		if !c.onCurve(c.base()) || c.mul(c.n, c.base()).x != nil {
			return fmt.Errorf("curve %s: bad constants", c.oidS)
		}
		k := newECCKey(g, c)
		h := c.hash([]byte("x"))
		r, s := k.sign(g, h)
		if !c.verify(k.q, h, r, s) || c.verify(k.q, c.hash([]byte("y")), r, s) {
			return fmt.Errorf("curve %s: sign/verify disagree", c.oidS)
		}
	}
	return nil
}
