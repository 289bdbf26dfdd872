package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"runtime"
	"strings"
	"syscall"

	tachograph "github.com/way-platform/tachograph-go"
	"github.com/way-platform/tachograph-go/internal/security"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	"google.golang.org/protobuf/proto"
)

func init() { register("P01", runP01) }

// Allocation bound of one call on n input bytes: allocA + allocB*n. The factors are several times the largest
// ratios observed on well-formed and hostile inputs (reported as max_... in the evidence), and far below what an
// allocation sized by an unchecked count costs when the count is repeated in the input.
const (
	allocA       = 256 << 10
	allocB       = 2500
	allocVerifyA = 8 << 20 // arithmetic on the generic curves allocates much, whatever the input
)

type meter struct{ before runtime.MemStats }

func (m *meter) start() { runtime.ReadMemStats(&m.before) }
func (m *meter) stop() int {
	var after runtime.MemStats
	runtime.ReadMemStats(&after)
	return int(after.TotalAlloc - m.before.TotalAlloc)
}

// hostileRes serves hostile authority certificates.
type hostileRes struct {
	g   *G
	rsa []*securityv1.RsaCertificate
	ecc []*securityv1.EccCertificate
}

func (h *hostileRes) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) {
	c := &securityv1.RootCertificate{}
	if h.g.P(1, 5) {
		return c, nil
	}
	c.SetKeyId(fmt.Sprint(h.g.U64()))
	c.SetRsaModulus(hostileInt(h.g, 128))
	c.SetRsaExponent(hostileInt(h.g, 8))
	return c, nil
}

func (h *hostileRes) GetRsaCertificate(_ context.Context, chr string) (*securityv1.RsaCertificate, error) {
	g := h.g
	switch g.N(6) {
	case 0:
		return &securityv1.RsaCertificate{}, nil
	case 1:
		return nil, fmt.Errorf("no")
	}
	c := pick(g.Rand, h.rsa...)
	c = proto.Clone(c).(*securityv1.RsaCertificate)
	if g.P(2, 3) {
		c.SetCertificateHolderReference(chr)
		c.SetRsaModulus(hostileInt(g, 128))
		c.SetRsaExponent(hostileInt(g, 8))
	}
	return c, nil
}

func (h *hostileRes) GetEccCertificate(_ context.Context, chr string) (*securityv1.EccCertificate, error) {
	g := h.g
	switch g.N(6) {
	case 0:
		return &securityv1.EccCertificate{}, nil
	case 1:
		return nil, fmt.Errorf("no")
	}
	c := proto.Clone(pick(g.Rand, h.ecc...)).(*securityv1.EccCertificate)
	c.SetCertificateHolderReference(chr)
	if g.P(2, 3) {
		k := &securityv1.EccCertificate_PublicKey{}
		k.SetDomainParametersOid(pick(g.Rand, "1.3.36.3.3.2.8.1.1.7", "1.3.36.3.3.2.8.1.1.11", "1.3.36.3.3.2.8.1.1.13", "1.2.840.10045.3.1.7", "1.3.132.0.34", "1.3.132.0.35", "", "1.2.3", "x"))
		n := pick(g.Rand, 32, 48, 64, 66, 1, 200)
		k.SetPublicPointX(hostileInt(g, n))
		k.SetPublicPointY(hostileInt(g, n))
		c.SetPublicKey(k)
	}
	return c, nil
}

// hostileInt is a big-endian number of about n bytes with a bias to the extremes.
func hostileInt(g *G, n int) []byte {
	switch g.N(8) {
	case 0:
		return nil
	case 1:
		return make([]byte, n)
	case 2:
		b := make([]byte, n)
		b[n-1] = byte(1 + g.N(3))
		return b
	case 3:
		return bytes.Repeat([]byte{0xFF}, n)
	case 4:
		return g.Bytes(1 + g.N(2*n))
	}
	return g.Bytes(n)
}

// certMutant is a certificate damaged or grown in its structure.
func certMutant(g *G, base []byte) []byte {
	b := cp(base)
	for k := g.N(4); k > 0 && len(b) > 0; k-- {
		i := g.N(len(b))
		switch g.N(7) {
		case 0:
			b[i] ^= 1 << g.N(8)
		case 1:
			b[i] = pick(g.Rand, byte(0), 1, 0x7F, 0x80, 0x81, 0x82, 0x84, 0x88, 0xFF, 0x30, 0x7F, 0x5F, 0x06)
		case 2:
			b = b[:i]
		case 3:
			b = append(b[:i:i], append(g.Bytes(g.N(6)), b[i:]...)...)
		case 4:
			j := min(len(b), i+g.N(8))
			b = append(b[:i:i], b[j:]...)
		case 5: // a length that promises much more
			copy(b[i:], []byte{0x84, 0x7F, 0xFF, 0xFF, 0xFF})
		case 6:
			j := g.N(len(b))
			n := min(g.N(20), len(b)-max(i, j))
			copy(b[i:i+n], b[j:j+n])
		}
	}
	return b
}

func runP01(r *Run) {
	r.rule = "one case = one call on one byte string: parsing it as a file or as one certificate, or verifying what was parsed against hostile authorities; non-trivial = the input has at least 2 bytes; distinct by call and bytes"
	r.assume = []string{
		fmt.Sprintf("runaway memory is a call that allocates more than %d + %d*len(input) bytes in total (verification: %d + ...); a hang is a call that uses more than 90 s of processor time (inputs go up to 5 MB)", allocA, allocB, allocVerifyA),
	}
	// an allocation beyond all bounds ends this process, which the supervisor reports
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 20 << 30, Max: 20 << 30})
	g := &G{Rand: NewRand(r.Seed, "P01")}
	maxRatio, maxSmall, maxName := map[string]int{}, map[string]int{}, map[string]string{}
	var m meter
	call := func(what, label string, in []byte, f func() (accepted bool)) {
		r.Case(what+" "+label, in)
		r.Eval(len(in) >= 2, []byte(what), in)
		var ok bool
		m.start()
		p, stack := guard(func() { ok = f() })
		n := m.stop()
		if p != nil {
			r.Violate("panic:"+panicSite(stack), fmt.Sprintf("%s of %s (%d bytes) panicked: %v", what, label, len(in), p), in)
			return
		}
		a := allocA
		if strings.Contains(what, "verif") {
			a = allocVerifyA
		}
		if int64(n) > int64(a)+int64(allocB)*int64(len(in)) {
			r.Violate("memory:"+what+":"+label, fmt.Sprintf("%s of %s: %d bytes of input made it allocate %d bytes", what, label, len(in), n), in[:min(len(in), 4096)])
		}
		if len(in) < 200 {
			maxSmall[what] = max(maxSmall[what], n)
		} else if x := n / len(in); x > maxRatio[what] {
			maxRatio[what], maxName[what] = x, label
		}
		r.Count("calls."+sanitize(what), 1)
		if ok {
			r.Count("accepted."+sanitize(what), 1)
		}
	}
	res := &hostileRes{g: g, rsa: []*securityv1.RsaCertificate{{}}, ecc: []*securityv1.EccCertificate{{}}}
	file := func(label string, in []byte) {
		var f *File
		var err error
		call("parse", label, in, func() bool { f, err = tachograph.UnmarshalFile(in); return err == nil })
		if err != nil && f != nil {
			r.Violate("error-with-file", label+": an error and a file were both returned", in)
		}
		if err != nil || f == nil {
			return
		}
		call("verify file", label, in, func() bool {
			return tachograph.VerifyOptions{CertificateResolver: res}.VerifyFile(context.Background(), f) == nil
		})
		raw := f
		if f.GetType() == 2 && g.P(1, 4) {
			// without a network: the resolver that finds nothing
			call("verify file", label, in, func() bool {
				return tachograph.VerifyOptions{CertificateResolver: failResolver{}}.VerifyFile(context.Background(), raw) == nil
			})
		}
	}
	// certificates
	w := newWorld(g.Rand)
	var rsaBase, eccBase, rootBase [][]byte
	for _, a := range w.rsaCAs {
		rsaBase = append(rsaBase, a.raw)
	}
	for i := 0; i < 12; i++ {
		ca := w.eccCAs[g.N(len(w.eccCAs))]
		eccBase = append(eccBase, ca.key.issue(g.Rand, ca.ref, ref8(g.Rand), curves[g.N(len(curves))], w.eccCAs[g.N(len(w.eccCAs))].key.q).raw)
	}
	for i := 0; i < 4; i++ {
		rootBase = append(rootBase, g.Bytes(144))
	}
	for i := 0; i < r.N(32000, 600000); i++ {
		switch i % 4 {
		case 0:
			in := certMutant(g, pick(g.Rand, rsaBase...))
			if g.P(1, 4) {
				in = g.Bytes(pick(g.Rand, 194, 194, 193, 195, g.N(300)))
			}
			var c *securityv1.RsaCertificate
			call("RSA certificate", "mutant", in, func() (ok bool) {
				var err error
				c, err = security.UnmarshalRsaCertificate(in)
				return err == nil
			})
			if c == nil {
				continue
			}
			if len(res.rsa) < 200 {
				res.rsa = append(res.rsa, proto.Clone(c).(*securityv1.RsaCertificate))
			}
			call("RSA verification", "mutant", in, func() bool {
				ca, _ := res.GetRsaCertificate(context.Background(), c.GetCertificateAuthorityReference())
				root, _ := res.GetRootCertificate(context.Background())
				root.SetKeyId(c.GetCertificateAuthorityReference())
				a := security.VerifyRsaCertificateWithCA(c, ca)
				b := security.VerifyRsaCertificateWithRoot(c, root)
				return a == nil || b == nil
			})
		case 1, 2:
			in := certMutant(g, pick(g.Rand, eccBase...))
			if g.P(1, 8) {
				in = g.Bytes(204 + g.N(138))
			}
			var c *securityv1.EccCertificate
			call("ECC certificate", "mutant", in, func() (ok bool) {
				var err error
				c, err = security.UnmarshalEccCertificate(in)
				return err == nil
			})
			if c == nil {
				continue
			}
			if len(res.ecc) < 200 {
				res.ecc = append(res.ecc, proto.Clone(c).(*securityv1.EccCertificate))
			}
			call("ECC verification", "mutant", in, func() bool {
				ca, _ := res.GetEccCertificate(context.Background(), c.GetCertificateAuthorityReference())
				return security.VerifyEccCertificateWithCA(c, ca) == nil
			})
		case 3:
			in := certMutant(g, pick(g.Rand, rootBase...))
			call("root certificate", "mutant", in, func() bool {
				_, err := security.UnmarshalRootCertificate(in)
				return err == nil
			})
		}
	}
	// all very short inputs and every tag
	for n := 0; n < 2; n++ {
		for v := 0; v < 1<<(8*n); v++ {
			file("shortest inputs", []byte{byte(v)}[:n])
		}
	}
	for p := 0; p < 0x10000; p++ {
		if !r.Thorough() && p>>8 != 0x76 && p>>8 != 0 && p%3 != 0 {
			continue
		}
		file("two bytes", []byte{byte(p >> 8), byte(p)})
	}
	for t := 0; t < 256; t++ {
		for n := 0; n < r.N(40, 700); n++ {
			in := append([]byte{0x76, byte(t)}, bytes.Repeat([]byte{byte(pick(g.Rand, 0, 0, 0xFF, 1, 0x7F))}, n)...)
			if g.Bool() {
				copy(in[2:], g.Bytes(n))
			}
			file("transfer prefix", in)
		}
	}
	// every elementary file with every small size and extreme contents
	for _, e := range efs {
		for _, app := range []byte{0, 2} {
			for n := 0; n < r.N(160, 1200); n++ {
				v := bytes.Repeat([]byte{pick(g.Rand, byte(0), 0xFF, 0x20, 0x7F, 0x01)}, n)
				switch g.N(3) {
				case 0:
					v = g.Bytes(n)
				case 1:
					for k := 0; k < 3 && n > 0; k++ {
						v[g.N(n)] = g.Byte()
					}
				}
				file("short "+e.name, joinTLV([]TLV{{0x0002, 0, iccC().gen(g)}, {e.fid, app, v}}))
			}
			for _, n := range []int{4096, 16384, 65535} {
				for _, fill := range []int{0, 0xFF, 1, -1} {
					v := bytes.Repeat([]byte{byte(fill)}, n)
					if fill < 0 {
						v = g.Bytes(n)
					}
					file("long "+e.name, joinTLV([]TLV{{0x0002, 0, iccC().gen(g)}, {e.fid, app, v}}))
				}
			}
		}
	}
	// damaged cards and downloads
	for i := 0; i < r.N(12000, 300000); i++ {
		g.Hostile = g.P(1, 3)
		file("mutant", mutant(g))
	}
	g.Hostile = false
	for i := 0; i < r.N(6000, 100000); i++ {
		file("arrays", hostileArrays(g))
	}
	for i := 0; i < r.N(2200, 40000); i++ {
		file("signed card", mutateAnywhere(g, signedCard(g, w)))
	}
	// amplification: one small structure with the largest counts and lengths, over and over
	chip := TLV{0x0002, 0, iccC().gen(g)}.bytes()
	reps, many, most := r.N(12000, 200000), 1<<19, 3<<20
	if r.Thorough() {
		many, most = 2<<20, 5<<20
	}
	amplify := func(label string, head []byte, unit []byte, n int) {
		n = min(n, most/r.part/max(1, len(unit)))
		file(label, append(cp(head), bytes.Repeat(unit, n)...))
	}
	for _, e := range efs {
		for _, app := range []byte{0, 2} {
			amplify("many empty "+e.name, chip, TLV{e.fid, app, nil}.bytes(), reps)
			for _, v := range smallest[e.name] {
				amplify("many small "+e.name, chip, TLV{e.fid, app, v}.bytes(), reps/4)
			}
			v := e.gen(g)
			for i := 0; i < 5; i++ {
				if x := e.gen(g); len(x) < len(v) {
					v = x
				}
			}
			amplify("very many "+e.name, chip, TLV{e.fid, app, v}.bytes(), most*3/5/(5+len(v)))
			v = e.gen(g)
			amplify("many "+e.name, chip, TLV{e.fid, app, v}.bytes(), min(reps/10, 1+(1<<20)/(5+len(v))))
		}
	}
	amplify("many unknown elements", chip, TLV{0x0999, 0, nil}.bytes(), 50*reps)
	amplify("many unknown elements", chip, TLV{0x0999, 3, []byte{1}}.bytes(), 5*reps)
	amplify("large unknown elements", chip, TLV{0x0999, 0, make([]byte, 65535)}.bytes(), 70)
	// rings whose every position holds the shortest record
	for _, n := range []int{64, 1024, 13776, 65531}[:4-min(r.part/2, 2)] {
		for _, l := range []uint16{4, 5, 12, 14, 100} {
			for _, prev := range []uint16{0, 1, 2, 3, 4, 5, 12, 14, 100, uint16(n), uint16(n - 1), 0xFFFF} {
				buf := make([]byte, n)
				for i := 0; i+4 <= n; i += int(l) {
					binary.BigEndian.PutUint16(buf[i:], prev)
					binary.BigEndian.PutUint16(buf[i+2:], l)
				}
				for _, p := range []int{0, n - int(l), n - 1, n / int(l) * int(l)} {
					v := append([]byte{0, 0, byte(p >> 8), byte(p)}, buf...)
					file("ring", append(cp(chip), TLV{0x0504, 0, v}.bytes()...))
				}
			}
		}
	}
	// vehicle unit transfers
	for _, trep := range []byte{0, 1, 2, 3, 4, 5, 0x21, 0x22, 0x23, 0x24, 0x25, 0x31, 0x32, 0x33, 0x35} {
		var units [][]byte
		for i := 0; i < r.N(12, 60); i++ {
			units = append(units, genTransfer(g, trep).bytes())
		}
		if trep > 0x20 {
			for _, h := range [][]byte{{1, 0, 0, 0xFF, 0xFF}, {1, 0xFF, 0xFF, 0, 0}, {1, 0, 0, 0, 0}} {
				units = append(units, append([]byte{0x76, trep}, bytes.Repeat(h, 30)...))
				for k := 1; k < 16; k++ {
					units = append(units, append([]byte{0x76, trep}, bytes.Repeat(h, k)...))
				}
			}
		} else {
			for _, fill := range []byte{0, 0xFF} {
				for _, n := range []int{100, 128, 130, 160, 200, 400, 500, 1000, 70000} {
					units = append(units, append([]byte{0x76, trep}, bytes.Repeat([]byte{fill}, n)...))
				}
			}
		}
		small := units[0]
		for _, u := range units {
			if len(u) < len(small) && parse(u).err == nil {
				small = u
			}
		}
		amplify(fmt.Sprintf("very many transfers %02X", trep), nil, small, 1<<20)
		for _, u := range units {
			file(fmt.Sprintf("transfer %02X", trep), u)
			amplify(fmt.Sprintf("many transfers %02X", trep), nil, u, min(reps/8, 1+many/len(u)))
		}
	}
	for k := range maxRatio {
		r.Count("max_bytes_allocated_per_input_byte."+sanitize(k), maxRatio[k])
		r.Count("max_bytes_allocated_for_short_inputs."+sanitize(k), maxSmall[k])
		r.Sample(map[string]any{"call": k, "most_bytes_allocated_per_input_byte": maxRatio[k], "for": maxName[k]})
	}
	r.Require("calls.parse", 50000)
	r.Require("accepted.parse", 3000)
	r.Require("calls.verify_file", 2000)
	r.Require("accepted.ECC_certificate", 500)
	r.Require("accepted.RSA_certificate", 500)
	r.Require("calls.ECC_verification", 500)
}

// smallest non-empty contents with counts that promise the most
var smallest = map[string][][]byte{
	"Places":                      {{0xFF}, {0xFF, 0xFF}},
	"PlacesG2":                    {{0xFF}, {0xFF, 0xFF}, {0xFF, 0xFF, 0xFF}},
	"VehiclesUsed":                {{0xFF, 0xFF}},
	"VehiclesUsedG2":              {{0xFF, 0xFF}},
	"DriverActivityData":          {{0xFF, 0xFF, 0xFF, 0xFF}, {0, 0, 0, 0}, {0, 0, 0, 0, 0xFF, 0xFF, 0xFF, 0xFF}, {0, 0, 0, 0, 0, 1, 0, 4}},
	"GnssPlaces":                  {{0xFF, 0xFF}},
	"VehicleUnitsUsed":            {{0xFF, 0xFF}},
	"SpecificConditionsG2":        {{0xFF, 0xFF}},
	"ApplicationIdentification":   {bytes.Repeat([]byte{0xFF}, 10)},
	"ApplicationIdentificationG2": {bytes.Repeat([]byte{0xFF}, 17), bytes.Repeat([]byte{0xFF}, 15)},
}

// hostileArrays is a second generation download of record arrays with extreme sizes and counts.
func hostileArrays(g *G) []byte {
	var b []byte
	for k := 1 + g.N(3); k > 0; k-- {
		b = append(b, 0x76, pick(g.Rand, byte(0x21), 0x22, 0x23, 0x24, 0x25, 0x31, 0x32, 0x33, 0x35, 0x01, 0x02))
		for n := g.N(30); n > 0; n-- {
			size := pick(g.Rand, 0, 0, 1, 2, 0xFFFF, 0x8000, 0x7FFF, g.N(40))
			count := pick(g.Rand, 0, 0, 1, 2, 0xFFFF, 0x8000, g.N(5))
			b = append(b, g.Byte(), byte(size>>8), byte(size), byte(count>>8), byte(count))
			if x := int64(size) * int64(count); x < 400 && g.P(7, 8) {
				b = append(b, g.Bytes(int(x))...)
			}
		}
	}
	return b
}
