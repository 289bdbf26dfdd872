package main

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/way-platform/tachograph-go/internal/dd"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/proto"
)

func init() { register("P10", runP10) }

var textType = ddT("StringValue", strC(14), dd.UnmarshalOptions.UnmarshalStringValue, dd.AppendStringValue)
var ia5Type = ddT("Ia5StringValue", ia5C(14), dd.UnmarshalOptions.UnmarshalIa5StringValue, dd.AppendIa5StringValue)

// trimmed characters: padding is removed from both ends, so text cannot begin or end with them.
const padding = "\t\n\v\f\r \x00\u0085\u00a0\u00ff\ufffd"

func assignedPage(p byte) bool { return codePages[p] != nil }

// textBytes judges one code-paged field.
func (r *Run) textBytes(in []byte) {
	page, data := in[0], in[1:]
	key := fmt.Sprintf("page%d", page)
	m, err, ok := r.unmarshal1(textType, in)
	if !ok {
		return
	}
	r.Count("fields read", 1)
	if err != nil {
		r.Violate(key+":rejects", fmt.Sprintf("text %x is rejected: %v", in, err), in)
		return
	}
	sv := m.(*ddv1.StringValue)
	v := sv.GetValue()
	if !utf8.ValidString(v) {
		r.Violate(key+":utf8", fmt.Sprintf("text %x is read as invalid UTF-8 %q", in, v), in)
		return
	}
	switch {
	case assignedPage(page) || page == 255:
		good := false
		want := decCodeText(page, data)
		for _, w := range want {
			good = good || w == v
		}
		if !good {
			r.Violate(key+":characters", fmt.Sprintf("text %x in code page %d is read as %q, want %q", in, page, v, want[0]), in)
		}
		if enc := encNum[page]; int32(sv.GetEncoding()) != enc {
			r.Violate(key+":encoding", fmt.Sprintf("code page %d is reported as %v", page, sv.GetEncoding()), in)
		}
	default:
		r.Count("unassigned code pages", 1)
		if sv.GetEncoding() != ddv1.Encoding_ENCODING_UNRECOGNIZED {
			r.Violate("unassigned:encoding", fmt.Sprintf("unassigned code page %d is reported as %v", page, sv.GetEncoding()), in)
		}
	}
	if int(sv.GetLength()) != len(data) {
		r.Violate(key+":length", fmt.Sprintf("text of %d bytes reports length %d", len(data), sv.GetLength()), in)
	}
	out, err, ok := r.append1(textType, "a parsed text", sv, in)
	if !ok {
		return
	}
	if err != nil || !bytes.Equal(out, in) {
		r.Violate(key+":rewrite", fmt.Sprintf("text %x is written back as %x (%v)", in, out, err), in)
	}
	r.Count("fields rewritten", 1)
}

// supplied judges characters supplied by the user for a field of n bytes in a page (n < 0: no fixed length).
func (r *Run) supplied(page byte, n int, s string) {
	key := fmt.Sprintf("page%d", page)
	sv := &ddv1.StringValue{}
	sv.SetEncoding(ddv1.Encoding(encNum[page]))
	sv.SetValue(s)
	if n >= 0 {
		sv.SetLength(int32(n))
	}
	in := append([]byte{page, byte(n)}, s...)
	out, err, ok := r.append1(textType, fmt.Sprintf("%q", s), sv, in)
	if !ok {
		return
	}
	r.Count("texts supplied", 1)
	r.Eval(s != "", in)
	// how many bytes the text takes, and whether the page has all its characters
	size, fits := 0, true
	for _, c := range s {
		size++
		fits = fits && pageHas(page, c)
	}
	if err != nil {
		r.Count("texts refused", 1)
		if fits && (n < 0 || size <= n) && page != 255 {
			r.Violate(key+":refuses", fmt.Sprintf("%q, which fits %d bytes of code page %d, is refused: %v", s, n, page, err), in)
		}
		return
	}
	if n >= 0 && len(out) != n+1 {
		r.Violate(key+":written-length", fmt.Sprintf("%q is written to %d bytes, not %d", s, len(out), n+1), in)
		return
	}
	if len(out) > 0 && out[0] != page {
		r.Violate(key+":written-page", fmt.Sprintf("%q, declared in code page %d, is written as %x", s, page, out), in)
		return
	}
	if n <= 0 && len(s) == 0 {
		return // no field of the formats has no room for a character
	}
	if len(out) > 1 && len(bytes.Trim(out[1:], "\xff")) == 0 {
		return // a field of 0xFF only stands for no information, whatever its page
	}
	if strings.Trim(s, padding) != s && s != "" {
		return // not distinguishable from padding
	}
	// the reference reads the same characters
	good := false
	for _, w := range decCodeText(page, out[1:]) {
		good = good || w == s
	}
	if !good {
		r.Violate(key+":written", fmt.Sprintf("%q is written in code page %d as %x, which says %q", s, page, out, decCodeText(page, out[1:])[0]), in)
		return
	}
	m, err, ok := r.unmarshal1(textType, out)
	if !ok {
		return
	}
	if err != nil || m.(*ddv1.StringValue).GetValue() != s || m.(*ddv1.StringValue).GetEncoding() != sv.GetEncoding() {
		r.Violate(key+":read-back", fmt.Sprintf("%q (code page %d) is read back as %v (%v)", s, page, m, err), in)
	}
	r.Count("texts read back", 1)
}

// pageHas reports whether a page certainly has the character.
func pageHas(page byte, c rune) bool {
	tab := codePages[page]
	if tab == nil || c == 0xFFFD || c >= 0x7F && c <= 0x9F {
		return false
	}
	if page == 85 && (c == 0x045E || c == 0x040E || c == 0x255D || c == 0x256C) {
		return false // two registered versions
	}
	for _, t := range tab {
		if t == c {
			return true
		}
	}
	return false
}

// repertoire lists the characters of a page which text can hold anywhere.
func repertoire(page byte) []rune {
	var out []rune
	for i, c := range codePages[page] {
		if i >= 0x20 && pageHas(page, c) {
			out = append(out, c)
		}
	}
	return out
}

func runP10(r *Run) {
	r.rule = "text fields read under every code page byte against independent character tables, written back byte-exactly, and characters supplied by the user written, read by the reference and read back, in every page and length; IA5 text and vehicle identification numbers likewise"
	g := &G{Rand: NewRand(r.Seed, "P10")}
	lens := []int{1, 2, 8, 13, 15, 17, 20, 35, 36, 60}
	// every byte value under every code page byte, in the middle, at either end and alone
	for p := 0; p < 256; p++ {
		r.Case(fmt.Sprintf("page %d", p), nil)
		for c := 0; c < 256; c++ {
			b, q := byte(c), byte(p)
			for _, in := range [][]byte{{q, 'A', b, 'B'}, {q, b}, {q, b, 'A', ' '}, {q, 'A', b}, {q, 'A', b, 0, 0}, {q, b, b, b}} {
				r.textBytes(in)
				r.Eval(assignedPage(q), in)
			}
			// next to arbitrary neighbours
			in := append([]byte{q, g.Byte(), b, g.Byte(), b}, g.Bytes(g.N(12))...)
			r.textBytes(in)
		}
	}
	// random fields: lengths, padding patterns, unassigned positions
	for i, n := 0, r.N(60000, 2000000); i < n; i++ {
		p := encPages[g.N(len(encPages))]
		if g.P(1, 10) {
			p = g.Byte()
		}
		n := lens[g.N(len(lens))]
		var data []byte
		if assignedPage(p) && g.Bool() {
			data = genCodeText(g, p, n)
		} else {
			data = g.Bytes(n)
		}
		switch g.N(5) {
		case 0: // trailing padding of any kind
			for j, k := n-1, g.N(n); j > k; j-- {
				data[j] = pick(g.Rand, byte(' '), 0, 0xFF, '\t', '\n')
			}
		case 1: // leading padding
			for j, k := 0, g.N(n); j < k; j++ {
				data[j] = pick(g.Rand, byte(' '), 0)
			}
		case 2:
			data = bytes.Repeat([]byte{pick(g.Rand, byte(' '), 0, 0xFF)}, n)
		}
		in := append([]byte{p}, data...)
		r.textBytes(in)
		r.Eval(assignedPage(p), in)
	}
	// characters supplied by the user
	pages := []byte{0, 1, 2, 3, 5, 7, 9, 13, 15, 16, 80, 85, 255}
	reps := map[byte][]rune{}
	var all []rune
	for _, p := range pages {
		if p != 255 {
			reps[p] = repertoire(p)
			all = append(all, reps[p]...)
		}
	}
	foreign := []rune{'漢', '語', '😀', 'ﬁ', '\u0301', '∑', '\u2028', 'İ', 'ẞ', '\u200b'}
	for _, p := range pages {
		r.Case(fmt.Sprintf("supplied in page %d", p), nil)
		for _, c := range append(append([]rune{}, all...), foreign...) { // every character of every page in this page
			r.supplied(p, 13, "A"+string(c)+"B")
			r.supplied(p, 1, string(c))
		}
		for n := 0; n <= 40; n++ { // every length around the limit
			for k := 0; k <= n+3; k++ {
				s := ""
				for j := 0; j < k; j++ {
					c := rune('a' + j%26)
					if p != 255 && g.P(1, 2) {
						for {
							c = reps[p][g.N(len(reps[p]))]
							if !strings.ContainsRune(padding, c) {
								break
							}
						}
					}
					s += string(c)
				}
				r.supplied(p, n, s)
			}
		}
		for i, n := 0, r.N(3000, 100000); i < n; i++ {
			k := g.N(38)
			s := ""
			for j := 0; j < k; j++ {
				switch {
				case p != 255 && !g.P(1, 60):
					s += string(reps[p][g.N(len(reps[p]))])
				case g.P(1, 3):
					s += string(foreign[g.N(len(foreign))])
				default:
					s += string(all[g.N(len(all))])
				}
			}
			r.supplied(p, pick(g.Rand, 13, 35, 36, -1), s)
		}
		r.supplied(p, 13, "")
		r.supplied(p, 0, "")
	}
	// a text whose encoding names no page is never written as characters of some page
	for _, e := range []ddv1.Encoding{ddv1.Encoding_ENCODING_UNSPECIFIED, ddv1.Encoding_ENCODING_UNRECOGNIZED, ddv1.Encoding_ENCODING_EMPTY, 99, -1} {
		for _, s := range []string{"A", "Müller", "Ж", strings.Repeat("x", 13)} {
			sv := &ddv1.StringValue{}
			sv.SetEncoding(e)
			sv.SetValue(s)
			sv.SetLength(13)
			out, err, ok := r.append1(textType, "a text without a code page", sv, []byte(s))
			r.Count("texts without page", 1)
			if ok && err == nil {
				m, err := textType.un(out)
				if err != nil || m.(*ddv1.StringValue).GetValue() != s {
					r.Violate("no-page", fmt.Sprintf("%q with encoding %v is written as %x, read back as %v (%v)", s, e, out, m, err), []byte(s))
				}
			}
		}
	}
	r.ia5(g, lens)
	r.vin(g)
	for _, n := range []string{"fields read", "fields rewritten", "texts supplied", "texts read back", "texts refused", "ia5 fields", "ia5 texts", "unassigned code pages", "vins"} {
		r.Require(n, 200)
	}
	r.Sample(map[string]any{"field": "01 4d fc 6c 6c 65 72 20 20", "read as": "Müller", "pages": len(pages)})
}

func (r *Run) ia5(g *G, lens []int) {
	field := func(in []byte) {
		m, err, ok := r.unmarshal1(ia5Type, in)
		if !ok {
			return
		}
		r.Count("ia5 fields", 1)
		if err != nil {
			r.Violate("ia5:rejects", fmt.Sprintf("IA5 text %x is rejected: %v", in, err), in)
			return
		}
		v := m.(*ddv1.Ia5StringValue)
		if !utf8.ValidString(v.GetValue()) {
			r.Violate("ia5:utf8", fmt.Sprintf("IA5 text %x is read as invalid UTF-8 %q", in, v.GetValue()), in)
		}
		ascii := true
		for _, c := range in {
			ascii = ascii && c < 0x80
		}
		if want := strings.Trim(string(in), "\t\n\v\f\r \x00"); ascii && v.GetValue() != want {
			r.Violate("ia5:characters", fmt.Sprintf("IA5 text %q is read as %q, want %q", in, v.GetValue(), want), in)
		}
		if int(v.GetLength()) != len(in) {
			r.Violate("ia5:length", fmt.Sprintf("IA5 text of %d bytes reports length %d", len(in), v.GetLength()), in)
		}
		out, err, ok := r.append1(ia5Type, "a parsed text", v, in)
		if ok && (err != nil || !bytes.Equal(out, in)) {
			r.Violate("ia5:rewrite", fmt.Sprintf("IA5 text %x is written back as %x (%v)", in, out, err), in)
		}
	}
	for c := 0; c < 256; c++ {
		for d := 0; d < 256; d++ {
			field([]byte{byte(c), byte(d)})
			field([]byte{'A', byte(c), byte(d), 'B', ' '})
		}
		field([]byte{byte(c)})
	}
	for i, n := 0, r.N(40000, 1000000); i < n; i++ {
		b := g.Bytes(lens[g.N(len(lens))])
		if g.P(3, 4) {
			for j := range b {
				b[j] &= 0x7F
			}
		}
		for j, k := len(b)-1, g.N(len(b)+1); j >= k; j-- {
			b[j] = pick(g.Rand, byte(' '), 0, ' ', ' ')
		}
		field(b)
		r.Eval(true, []byte("ia5"), b)
	}
	for n := 0; n <= 20; n++ {
		for k := 0; k <= n+3; k++ {
			for i := 0; i < 8; i++ {
				s := ""
				for j := 0; j < k; j++ {
					s += string(rune(0x21 + g.N(0x5E)))
				}
				if i == 7 && k > 0 {
					s = strings.Repeat("é", (k+1)/2)
				}
				sv := &ddv1.Ia5StringValue{}
				sv.SetValue(s)
				sv.SetLength(int32(n))
				out, err, ok := r.append1(ia5Type, "a supplied text", sv, []byte(s))
				r.Count("ia5 texts", 1)
				if !ok {
					continue
				}
				if err != nil {
					if len(s) <= n && i < 7 {
						r.Violate("ia5:refuses", fmt.Sprintf("%q, which fits %d bytes, is refused: %v", s, n, err), []byte(s))
					}
					continue
				}
				if len(out) != n {
					r.Violate("ia5:written-length", fmt.Sprintf("%q is written to %d bytes, not %d", s, len(out), n), []byte(s))
					continue
				}
				if n == 0 {
					if s != "" {
						r.Violate("ia5:dropped", fmt.Sprintf("%q is dropped", s), []byte(s))
					}
					continue
				}
				m, err := ia5Type.un(out)
				if err != nil || m.(*ddv1.Ia5StringValue).GetValue() != s {
					r.Violate("ia5:read-back", fmt.Sprintf("%q in %d bytes is written as %x, read back as %v (%v)", s, n, out, m, err), []byte(s))
				}
			}
		}
	}
}

// vin: the vehicle identification number is a bare string.
func (r *Run) vin(g *G) {
	t := ddT("CardVehicleRecordG2", vehicleRecordG2C(), dd.UnmarshalOptions.UnmarshalCardVehicleRecordG2, dd.AppendCardVehicleRecordG2)
	for i, n := 0, r.N(8000, 200000); i < n; i++ {
		b := t.c.gen(g)
		if i%2 == 0 {
			copy(b[31:], g.Bytes(17))
			for j, k := 16, g.N(18); j >= k; j-- {
				b[31+j] = pick(g.Rand, byte(' '), 0, ' ')
			}
		}
		m, err, ok := r.unmarshal1(t, b)
		if !ok || err != nil {
			continue
		}
		r.Count("vins", 1)
		v := m.(*ddv1.CardVehicleRecordG2).GetVehicleIdentificationNumber()
		if !utf8.ValidString(v) {
			r.Violate("vin:utf8", fmt.Sprintf("identification number %x is read as invalid UTF-8 %q", b[31:], v), b)
		}
		if want := strings.TrimRight(string(b[31:]), "\x00 "); utf8.ValidString(want) && strings.IndexFunc(want, func(c rune) bool { return c >= 0x80 }) < 0 && v != want {
			r.Violate("vin:characters", fmt.Sprintf("identification number %q is read as %q", b[31:], v), b)
		}
		// a number supplied by the user, over the preserved bytes or without them
		k := g.N(20)
		s := ""
		for j := 0; j < k; j++ {
			s += string(rune("ABCDEFGHJKLMNPRSTUVWXYZ0123456789"[g.N(33)]))
		}
		e := proto.Clone(m).(*ddv1.CardVehicleRecordG2)
		e.SetVehicleIdentificationNumber(s)
		if g.Bool() {
			e.ClearRawData()
		}
		out, err, ok := r.append1(t, "a supplied identification number", e, b)
		if !ok {
			continue
		}
		if err != nil {
			if k <= 17 {
				r.Violate("vin:refuses", fmt.Sprintf("identification number %q is refused: %v", s, err), b)
			}
			continue
		}
		m2, err := t.un(out)
		if err != nil || m2.(*ddv1.CardVehicleRecordG2).GetVehicleIdentificationNumber() != s {
			r.Violate("vin:read-back", fmt.Sprintf("identification number %q is read back as %v (%v)", s, m2, err), b)
		}
	}
}
