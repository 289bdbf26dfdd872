package main

import (
	"fmt"
	"strings"
)

// Reference layouts: each structure of the regulation is written once as a list of fields. A layout yields
// well-formed random bytes (gen) and the field values those bytes must decode to (dec). It shares no code with the
// repository under test.

// G is a generator context.
type G struct {
	*Rand
	Hostile bool // arbitrary (but decodable) content instead of tidy content
	Gen2    bool
	Codes   string // codes nobody assigned, also where no field keeps them, in tables of this name
}

func (g *G) hostile() bool { return g.Hostile && g.P(1, 3) }

type enumTable struct {
	unrec int
	m     map[int]int32
}

// expected value kinds
type (
	Enum  int32    // enum number
	Tm    int64    // timestamp seconds; absent is nil
	AnyOf []any    // one of these
	List  []any    // repeated field
	Skip  struct{} // not judged
	Text  []string // acceptable strings
)

// Obj is an expected message: every populated field of the real message must be listed here.
type Obj struct {
	m      map[string]any
	raw    []byte // the bytes a raw_data field, when populated, must equal; nil: raw_data must be absent
	opaque bool   // raw_data is all there is: it must be populated
}

func (o *Obj) set(k string, v any) { o.m[k] = v }

// C is a fixed-size layout element.
type C struct {
	n   int
	gen func(g *G) []byte
	dec func(b []byte) any
}

// F is a field of a structure: it may set zero or more values of the parent.
type F struct {
	n   int
	gen func(g *G) []byte
	dec func(b []byte, o *Obj)
}

func f(name string, c C) F {
	return F{c.n, c.gen, func(b []byte, o *Obj) {
		if name != "" {
			o.m[name] = c.dec(b)
		}
	}}
}

func S(raw bool, fs ...F) C {
	n := 0
	for _, x := range fs {
		n += x.n
	}
	return C{n, func(g *G) []byte {
		var out []byte
		for _, x := range fs {
			b := x.gen(g)
			if len(b) != x.n {
				panic(fmt.Sprintf("layout field produced %d bytes, want %d", len(b), x.n))
			}
			out = append(out, b...)
		}
		return out
	}, func(b []byte) any {
		o := &Obj{m: map[string]any{}}
		off := 0
		for _, x := range fs {
			x.dec(b[off:off+x.n], o)
			off += x.n
		}
		if raw {
			o.raw = append([]byte{}, b[:n]...)
		}
		return o
	}}
}

func be(b []byte) int64 {
	var v int64
	for _, c := range b {
		v = v<<8 | int64(c)
	}
	return v
}

// uintC is an n byte big-endian unsigned integer.
func uintC(n int) C {
	return C{n, func(g *G) []byte {
		switch g.N(6) {
		case 0:
			return make([]byte, n)
		case 1:
			b := make([]byte, n)
			for i := range b {
				b[i] = 0xFF
			}
			return b
		}
		return g.Bytes(n)
	}, func(b []byte) any { return be(b) }}
}

// uintMax is uintC limited to a maximum value.
func uintMax(n int, max int64) C {
	return C{n, func(g *G) []byte {
		v := int64(g.U64()>>1) % (max + 1)
		switch g.N(8) {
		case 0:
			v = 0
		case 1:
			v = max
		}
		b := make([]byte, n)
		for i := n - 1; i >= 0; i-- {
			b[i] = byte(v)
			v >>= 8
		}
		return b
	}, func(b []byte) any { return be(b) }}
}

// odoC is an odometer value; all bits set is what recording equipment writes for an unknown one.
func odoC() C {
	c := uintMax(3, 999999)
	return C{3, func(g *G) []byte {
		switch g.N(16) {
		case 0:
			return []byte{0xFF, 0xFF, 0xFF}
		case 1:
			return g.Bytes(3)
		}
		return c.gen(g)
	}, c.dec}
}

func bytesC(n int) C {
	return C{n, func(g *G) []byte { return g.Bytes(n) }, func(b []byte) any { return append([]byte{}, b...) }}
}

func be4(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }
func be8(v uint64) []byte { return append(be4(uint32(v>>32)), be4(uint32(v))...) }

func genTime(g *G) []byte {
	switch g.N(12) {
	case 0:
		return []byte{0, 0, 0, 0}
	case 1:
		return []byte{0xFF, 0xFF, 0xFF, 0xFF}
	case 2:
		return g.Bytes(4)
	case 3:
		return be4(uint32(0x80000000) - 1 + uint32(g.N(3)))
	}
	return be4(uint32(1262304000 + g.N(1000000000)))
}
func genTimeNZ(g *G) []byte {
	for {
		b := genTime(g)
		if be(b) != 0 {
			return b
		}
	}
}
func decTime(b []byte) any {
	if v := be(b); v != 0 {
		return Tm(v)
	}
	return nil
}
func timeC() C   { return C{4, genTime, decTime} }
func timeNZC() C { return C{4, genTimeNZ, decTime} }

func tableKeys(t enumTable) []int {
	var ks []int
	for k := 0; k < 256; k++ {
		if _, ok := t.m[k]; ok {
			ks = append(ks, k)
		}
	}
	return ks
}

// enumC is a one-byte code with only assigned codes generated.
func enumC(table string) C {
	t, ok := enumTables[table]
	if !ok {
		panic(table)
	}
	ks := tableKeys(t)
	return C{1, func(g *G) []byte {
		if g.Codes != "" && strings.HasSuffix(table, g.Codes) && g.P(1, 12) {
			return []byte{g.Byte()}
		}
		return []byte{byte(ks[g.N(len(ks))])}
	}, func(b []byte) any {
		if v, ok := t.m[int(b[0])]; ok {
			return Enum(v)
		}
		return Enum(t.unrec)
	}}
}

// enumU is a one-byte code field with a companion field that keeps unrecognised codes ("" when there is none).
func enumU(name, unrec, table string) F {
	t, ok := enumTables[table]
	if !ok {
		panic(table)
	}
	ks := tableKeys(t)
	return F{1, func(g *G) []byte {
		if g.hostile() {
			return []byte{g.Byte()}
		}
		return []byte{byte(ks[g.N(len(ks))])}
	}, func(b []byte, o *Obj) {
		if v, ok := t.m[int(b[0])]; ok {
			o.m[name] = Enum(v)
			return
		}
		o.m[name] = Enum(t.unrec)
		if unrec != "" {
			o.m[unrec] = int64(b[0])
		}
	}}
}

func bcdByte(v int) byte { return byte(v/10<<4 | v%10) }

// bcdC is an n-byte packed decimal number.
func bcdC(n int) C {
	return C{n, func(g *G) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = bcdByte(g.N(100))
		}
		if g.P(1, 8) {
			b = make([]byte, n)
		}
		return b
	}, func(b []byte) any {
		v := int64(0)
		for _, c := range b {
			v = v*100 + int64(c>>4)*10 + int64(c&15)
		}
		return &Obj{m: map[string]any{"value": v, "length": int64(n)}}
	}}
}

// dateC is a 4-byte BCD date yyyymmdd.
func dateC() C {
	return C{4, func(g *G) []byte {
		y := 1900 + g.N(200)
		if g.P(1, 10) {
			return []byte{0, 0, 0, 0}
		}
		return []byte{bcdByte(y / 100), bcdByte(y % 100), bcdByte(1 + g.N(12)), bcdByte(1 + g.N(31))}
	}, func(b []byte) any {
		d := func(c byte) int64 { return int64(c>>4)*10 + int64(c&15) }
		return &Obj{m: map[string]any{"year": d(b[0])*100 + d(b[1]), "month": d(b[2]), "day": d(b[3])}, raw: cp(b)}
	}}
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

// monthYearC is MMYY in BCD.
func monthYearC() C {
	return C{2, func(g *G) []byte {
		if g.P(1, 10) {
			return []byte{0, 0}
		}
		return []byte{bcdByte(1 + g.N(12)), bcdByte(g.N(100))}
	}, func(b []byte) any {
		d := func(c byte) int64 { return int64(c>>4)*10 + int64(c&15) }
		o := &Obj{m: map[string]any{}, raw: cp(b)}
		if d(b[0])*100+d(b[1]) > 0 {
			o.m["month"] = d(b[0])
			o.m["year"] = 2000 + d(b[1])
		}
		return o
	}}
}

var encNum = map[byte]int32{0: 2, 255: 3, 1: 4, 2: 5, 3: 6, 5: 7, 7: 8, 9: 9, 13: 10, 15: 11, 16: 12, 80: 13, 85: 14}
var encPages = []byte{0, 1, 1, 1, 2, 3, 5, 7, 9, 13, 15, 16, 80, 85}

// genCodeText produces n bytes of text in the page, padded.
func genCodeText(g *G, page byte, n int) []byte {
	tab := codePages[page]
	k := g.N(n + 1)
	switch g.N(6) {
	case 0:
		k = n
	case 1:
		k = 0
	}
	b := make([]byte, n)
	for i := 0; i < k; i++ {
		for {
			c := byte(0x21 + g.N(0x5E))
			if g.P(1, 3) {
				c = byte(0xA1 + g.N(0x5F))
			} else if i > 0 && i < k-1 && g.P(1, 6) {
				c = ' '
			}
			r := tab[c]
			if r == 0xFFFD || r == 0xA0 || r == 0xAD || c == 0xFF {
				continue
			}
			b[i] = c
			break
		}
	}
	pad := byte(' ')
	if g.P(1, 4) {
		pad = 0
	}
	for i := k; i < n; i++ {
		b[i] = pad
	}
	return b
}

func trimmers(s string) Text {
	narrow := strings.Trim(s, "\t\n\v\f\r \x00")
	wide := strings.Trim(s, "\t\n\v\f\r \x00\u0085\u00a0\u00ff\ufffd")
	out := Text{narrow}
	if wide != narrow {
		out = append(out, wide, strings.Trim(s, "\t\n\v\f\r \x00\ufffd"))
	}
	return out
}

// decCodeText gives the acceptable decodings of the bytes under a code page.
func decCodeText(page byte, b []byte) Text {
	if page == 255 {
		return Text{""}
	}
	tab := codePages[page]
	if tab == nil {
		tab = codePages[1]
	}
	all := true
	for _, c := range b {
		if c != 0 && c != 255 {
			all = false
		}
	}
	if all {
		return Text{""}
	}
	// the standards leave room in two places: the C1 range of the ISO pages may be control characters or
	// undefined, and two positions of KOI8-U exist in two registered versions
	var out Text
	add := func(f func(c byte, r rune) rune) {
		rs := make([]rune, len(b))
		for i, c := range b {
			rs[i] = f(c, tab[c])
		}
		for _, t := range trimmers(string(rs)) {
			out = append(out, t)
		}
	}
	add(func(c byte, r rune) rune { return r })
	if page == 85 {
		add(func(c byte, r rune) rune {
			switch c {
			case 0xAE:
				return 0x045E
			case 0xBE:
				return 0x040E
			}
			return r
		})
	} else if page != 80 {
		add(func(c byte, r rune) rune {
			if c >= 0x80 && c <= 0x9F {
				return 0xFFFD
			}
			return r
		})
		add(func(c byte, r rune) rune {
			if c >= 0x80 && c <= 0x9F {
				return rune(c)
			}
			return r
		})
	}
	return out
}

// strC is a code-paged string: 1 + n bytes.
func strC(total int) C {
	n := total - 1
	return C{total, func(g *G) []byte {
		switch g.N(12) {
		case 0: // unassigned
			b := make([]byte, total)
			for i := range b {
				b[i] = 0xFF
			}
			return b
		case 1:
			b := make([]byte, total)
			for i := range b {
				b[i] = ' '
			}
			b[0] = 0
			return b
		}
		if g.hostile() {
			b := g.Bytes(total)
			b[0] = encPages[g.N(len(encPages))]
			return b
		}
		p := encPages[g.N(len(encPages))]
		return append([]byte{p}, genCodeText(g, p, n)...)
	}, func(b []byte) any {
		e, ok := encNum[b[0]]
		if !ok {
			e = 1
		}
		return &Obj{m: map[string]any{"encoding": Enum(e), "length": int64(n), "value": decCodeText(b[0], b[1:])}, raw: cp(b)}
	}}
}

// ia5C is a fixed-length plain string.
func ia5C(n int) C {
	return C{n, func(g *G) []byte {
		if g.hostile() {
			b := g.Bytes(n)
			for i := range b {
				b[i] &= 0x7F
			}
			return b
		}
		k := g.N(n + 1)
		if g.Bool() {
			k = n
		}
		b := make([]byte, n)
		pad := byte(' ')
		if g.P(1, 4) {
			pad = 0
		}
		for i := range b {
			b[i] = pad
			if i < k {
				b[i] = byte(0x21 + g.N(0x5E))
			}
		}
		return b
	}, func(b []byte) any {
		o := &Obj{m: map[string]any{"length": int64(n)}, raw: cp(b)}
		for _, c := range b {
			if c >= 0x80 {
				o.m["value"] = Skip{}
				return o
			}
		}
		o.m["value"] = Text{strings.Trim(string(b), "\t\n\v\f\r \x00")}
		return o
	}}
}

func int24(b []byte) int64 {
	v := be(b)
	if v&0x800000 != 0 {
		v -= 1 << 24
	}
	return v
}

func int24C(max int) C { return C{3, nil, func(b []byte) any { return int24(b) }} }

// geoC is GeoCoordinates: latitude and longitude as signed 24-bit ±DDMM.M*10 numbers.
func geoC() C {
	one := func(g *G, deg int) []byte {
		v := g.N(deg+1)*1000 + g.N(600)
		if g.P(1, 10) {
			v = deg * 1000
		}
		if g.Bool() {
			v = -v
		}
		if g.P(1, 6) {
			v = pick(g.Rand, 0x7FFFFF, -0x800000, 0, 1, -1, deg*1000+1000, deg*1000+1001, -deg*1000-1000, 90000, 180001)
		}
		return []byte{byte(v >> 16), byte(v >> 8), byte(v)}
	}
	return C{6, func(g *G) []byte { return append(one(g, 89), one(g, 179)...) }, func(b []byte) any {
		return &Obj{m: map[string]any{"latitude": int24(b[:3]), "longitude": int24(b[3:])}}
	}}
}
