package main

import (
	"bytes"
	"fmt"
)

// frozen table of file identifiers (Annex 1C Appendix 2) -> schema file number
var fidTable = map[uint16]int32{0x0002: 1, 0x0005: 2, 0x2F01: 4, 0x0006: 5, 0x0501: 6, 0x0502: 7, 0x0503: 8, 0x0504: 9, 0x0505: 10, 0x0506: 11, 0x0507: 12, 0x0508: 13,
	0x0509: 14, 0x050A: 15, 0x050B: 16, 0x050C: 17, 0x050D: 18, 0x050E: 19, 0x0520: 20, 0x0521: 21, 0x0522: 22, 0x0523: 23, 0x0524: 24, 0x0525: 25, 0x0526: 26, 0x0527: 27, 0x0528: 28,
	0x0529: 29, 0x0530: 30, 0x0531: 31, 0x0540: 32, 0x2F00: 33, 0xC100: 34, 0xC101: 36, 0xC108: 37, 0xC109: 38, 0x2F2F: 39, 0x2F30: 40}

// identifiers found on some card, but never on a driver card
var nonDriverFids = []uint16{0x0509, 0x050A, 0x050B, 0x050C, 0x050D, 0x0531}

func init() {
	register("P02", runP02)
	register("P03", runP03)
	register("P04", runP04)
	register("P05", runP05)
}

func rawWant(ts []TLV) *Obj {
	var l List
	for _, t := range ts {
		ct := Enum(1 + int32(t.Appendix&1))
		gn := Enum(1 + int32(t.Appendix>>1&1))
		o := &Obj{m: map[string]any{"tag": int64(t.FID)<<8 | int64(t.Appendix), "generation": gn, "content_type": ct, "length": int64(len(t.Val)), "value": cp(t.Val)}}
		if n, ok := fidTable[t.FID]; ok {
			o.m["file"] = Enum(n)
		} else {
			o.m["file"] = Enum(0)
		}
		// the certificate of the second generation shares its identifier with the first one's
		if t.FID == 0xC100 && t.Appendix&2 != 0 {
			o.m["file"] = AnyOf{Enum(34), Enum(35)}
		}
		l = append(l, o)
	}
	return &Obj{m: map[string]any{"type": Enum(6), "raw_card": &Obj{m: map[string]any{"records": l}}}}
}

// compareFile reports every disagreement between a parsed file and the reference value.
func (r *Run) compareFile(label string, input []byte, want *Obj, f *File) bool {
	d := &differ{}
	d.compare("", want, f.ProtoReflect())
	r.Count("fields_compared", d.fields)
	for _, x := range d.out {
		r.Violate("field:"+pathKey(x.Path), label+": "+x.String(), input)
	}
	return len(d.out) == 0
}

func (r *Run) parseOK(label string, input []byte) *File {
	o := parse(input)
	r.Count("files_parsed", 1)
	if o.panic != nil {
		r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("%s: parse panicked: %v", label, o.panic), input)
		return nil
	}
	if o.err != nil {
		r.Violate("rejected:"+errKey(o.err), fmt.Sprintf("%s: well-formed file rejected: %v", label, o.err), input)
		return nil
	}
	if o.f == nil {
		r.Violate("nil", label+": nil file without error", input)
		return nil
	}
	return o.f
}

func (r *Run) marshalOK(label string, f *File, input []byte) []byte {
	o := marshal(f)
	r.Count("files_marshalled", 1)
	if o.panic != nil {
		r.Violate("marshal-panic:"+panicSite(o.stack), fmt.Sprintf("%s: marshal panicked: %v", label, o.panic), input)
		return nil
	}
	if o.err != nil {
		r.Violate("marshal-rejected:"+errKey(o.err), fmt.Sprintf("%s: parsed file cannot be marshalled: %v", label, o.err), input)
		return nil
	}
	return o.b
}

func runP02(r *Run) {
	r.rule = "one case = one TLV stream (random known/unknown file ids, appendices, lengths) or one truncation of it; non-trivial = at least two elements or a cut inside an element; distinct by stream bytes"
	r.assume = []string{"streams start with the chip file and contain a file no driver card has, so the library reports them as raw records"}
	g := NewRand(r.Seed, "P02")
	check := func(label string, ts []TLV) {
		b := joinTLV(ts)
		in := cp(b)
		r.Case(label, b)
		f := r.parseOK(label, b)
		r.Eval(len(ts) > 1, in)
		if f == nil {
			return
		}
		r.Count("records_expected", len(ts))
		r.Count("records_seen", len(f.GetRawCard().GetRecords()))
		r.compareFile(label, in, rawWant(ts), f)
		if out := r.marshalOK(label, f, in); out != nil && !bytes.Equal(out, in) {
			r.Violate("roundtrip", fmt.Sprintf("%s: marshalled raw card differs from its input at byte %d (in %d bytes, out %d bytes)", label, firstDiff(in, out), len(in), len(out)), in)
		}
	}
	n := r.N(8000, 60000)
	for i := 0; i < n; i++ {
		max := 3000
		if g.P(1, 12) {
			max = 65535
		}
		ts := genRawTLVs(g, g.N(14), max)
		check("stream", ts)
		if i < 4 {
			r.Sample(map[string]any{"elements": len(ts), "bytes": len(joinTLV(ts)), "head": hexs(joinTLV(ts)[:40])})
		}
	}
	// value lengths: every boundary of any plausible internal buffer, exact sizes
	for _, l := range []int{0, 1, 127, 128, 255, 256, 1023, 1024, 4090, 4091, 4092, 4096, 8191, 8192, 16384, 32767, 32768, 65529, 65530, 65531, 65532, 65533, 65534, 65535} {
		for k := 0; k < 3; k++ {
			v := g.Bytes(l)
			check(fmt.Sprintf("length %d", l), []TLV{{0x0002, 0, g.Bytes(25)}, {0x050A, byte(k) & 2, v}, {0x0504, 0, g.Bytes(l / 2)}})
		}
	}
	// streams longer than any buffer
	for k := 0; k < r.N(3, 20); k++ {
		var ts []TLV
		ts = append(ts, TLV{0x0002, 0, g.Bytes(25)})
		for i := 0; i < 40; i++ {
			ts = append(ts, TLV{nonDriverFids[g.N(6)], byte(g.N(4)), g.Bytes(g.N(30000))})
		}
		check("long stream", ts)
	}
	// more elements than any card has files
	for k := 0; k < r.N(6, 30); k++ {
		ts := []TLV{{0x0002, 0, g.Bytes(25)}}
		fids := []uint16{0x050A, nonDriverFids[g.N(6)], 0x0504, uint16(g.U64())}
		for i, m := 0, pick(g, 255, 256, 300, 1023, 1025, 3000, 6000); i < m; i++ {
			ts = append(ts, TLV{fids[g.N(4)], byte(g.N(4)), g.Bytes(g.N(4))})
		}
		check("many elements", ts)
	}
	// truncation at every byte
	for k := 0; k < r.N(200, 1500); k++ {
		ts := genRawTLVs(g, g.N(5), 300)
		b := joinTLV(ts)
		ends := map[int]int{0: 0}
		off := 0
		for i, t := range ts {
			off += 5 + len(t.Val)
			ends[off] = i + 1
		}
		step := 1
		if len(b) > 1500 {
			step = 1 + len(b)/1500
		}
		for cut := 2; cut < len(b); cut += step {
			in := cp(b[:cut])
			r.Case("truncation", in)
			o := parse(in)
			r.Eval(true, in)
			r.Count("truncations", 1)
			if o.panic != nil {
				r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("truncated stream: parse panicked: %v", o.panic), in)
				continue
			}
			if _, whole := ends[cut]; whole {
				continue // a shorter, complete stream
			}
			if o.err == nil {
				r.Violate("truncation-accepted", fmt.Sprintf("stream cut at byte %d of %d (inside an element) was accepted", cut, len(b)), in)
			} else {
				r.Count("truncations_rejected", 1)
			}
		}
	}
	// an element begun with bytes that look like padding is an element cut short all the same
	for k := 0; k < r.N(1500, 10000); k++ {
		b := joinTLV(genRawTLVs(g, 1+g.N(3), 60))
		fill := pick(g, 0x00, 0xFF, 0x20, 0x90, int(byte(g.U64())))
		n := 1 + g.N(4)
		if g.P(1, 3) {
			n = 5 + g.N(60)
		}
		tail := bytes.Repeat([]byte{byte(fill)}, n)
		if fill == 0x90 && g.Bool() {
			tail = []byte{0x90, 0x00} // a status word
		}
		if l := len(tail); l >= 5 && 5+int(tail[3])<<8+int(tail[4]) <= l {
			continue // whole elements
		}
		in := append(b, tail...)
		r.Case("padded", in)
		o := parse(in)
		r.Eval(true, in)
		r.Count("truncations", 1)
		if o.panic != nil {
			r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("padded stream: parse panicked: %v", o.panic), in)
		} else if o.err == nil {
			r.Violate("truncation-accepted", fmt.Sprintf("stream followed by %d bytes %02X, which are no element, was accepted", len(tail), tail[0]), in)
		} else {
			r.Count("truncations_rejected", 1)
		}
	}
	r.Require("truncations_rejected", 1000)
	r.Require("records_seen", 1000)
}

// tlvKey names an element for a stable finding key.
func tlvKey(t TLV) string { return fmt.Sprintf("%04X.%d", t.FID, t.Appendix) }

func runP03(r *Run) {
	r.rule = "one case = one generated driver card (random subset of files, counts, field values, signature presence and length, one or two generations, library order or shuffled); non-trivial = at least three files; distinct by card bytes"
	g := &G{Rand: NewRand(r.Seed, "P03")}
	n := r.N(12000, 80000)
	for i := 0; i < n; i++ {
		g.Hostile = g.P(1, 4)
		o := cardOpts{gen1: g.P(5, 6), gen2: g.P(2, 3), pInclude: pick(g.Rand, 100, 100, 80, 40, 15), noSig: g.P(1, 8), shuffle: g.P(1, 3)}
		if !o.gen1 && !o.gen2 {
			o.gen1 = true
		}
		c := genCard(g, o)
		b := c.bytes()
		r.Case("card", b)
		r.Eval(len(c.efs) >= 3, b)
		if i < 4 {
			r.Sample(map[string]any{"files": len(c.efs), "bytes": len(b), "gen1": o.gen1, "gen2": o.gen2, "shuffled": o.shuffle})
		}
		for _, e := range c.efs {
			r.Count(fmt.Sprintf("ef.%s.g%d", e.ef.name, e.gen), 1)
		}
		f := r.parseOK("card", cp(b))
		if f == nil {
			continue
		}
		out := r.marshalOK("card", f, b)
		if out == nil {
			continue
		}
		got, ok := splitTLV(out)
		if !ok {
			r.Violate("malformed-output", "marshalled card is not a complete TLV stream", b)
			continue
		}
		r.compareTLVs(c.tlvs(), got, b)
		if !o.shuffle && !bytes.Equal(out, b) {
			r.Count("ordered_not_identical", 1)
			r.Violate("order", fmt.Sprintf("card in the library's own order is not reproduced byte for byte (first difference at %d; in %d out %d bytes)", firstDiff(b, out), len(b), len(out)), b)
		}
		r.Count("tlvs_compared", len(got))
	}
	r.unsupportedFiles(g)
	r.oddLengths(g, r.N(4000, 30000))
	r.misplacedSignatures(g, r.N(4000, 40000))
	r.Require("misplaced_signatures", 2000)
	r.Require("odd_length_rejected", 500)
	r.Require("odd_length_accepted", 500)
	r.Require("files_marshalled", n/2)
	r.Require("tlvs_compared", n)
}

// misplacedSignatures: a signature that does not follow the data it belongs to is rejected, or still kept as what it was.
func (r *Run) misplacedSignatures(g *G, n int) {
	for i := 0; i < n; i++ {
		g.Hostile = false
		c := genCard(g, cardOpts{gen1: g.P(4, 5), gen2: true, pInclude: pick(g.Rand, 100, 60, 30), shuffle: g.P(1, 3)})
		ts := c.tlvs()
		var sigs, data []int
		for k, t := range ts {
			if t.Appendix&1 == 1 {
				sigs = append(sigs, k)
			} else {
				data = append(data, k)
			}
		}
		if len(sigs) == 0 || len(data) < 2 {
			continue
		}
		k := sigs[g.N(len(sigs))]
		t := ts[k]
		without := append(append([]TLV(nil), ts[:k]...), ts[k+1:]...)
		kind := pick(g.Rand, "tag", "generation", "place", "place", "repeated", "other", "no data")
		switch kind {
		case "tag": // of another file
			ts[k].FID = ts[data[g.N(len(data))]].FID
		case "generation":
			ts[k].Appendix ^= 2
		case "place":
			at := g.N(len(without) + 1)
			ts = append(append(append([]TLV(nil), without[:at]...), t), without[at:]...)
		case "repeated":
			if g.Bool() {
				t.Val = g.Bytes(len(t.Val))
			}
			at := k + 1
			if g.P(1, 4) {
				at = g.N(len(ts) + 1)
			}
			ts = append(append(append([]TLV(nil), ts[:at]...), t), ts[at:]...)
		case "other": // two change their places
			j := sigs[g.N(len(sigs))]
			ts[k], ts[j] = ts[j], ts[k]
		case "no data":
			if k == 0 {
				continue
			}
			ts = append(append([]TLV(nil), ts[:k-1]...), ts[k:]...)
		}
		b := joinTLV(ts)
		if bytes.Equal(b, c.bytes()) || ts[0].FID != 2 {
			continue
		}
		r.Case("misplaced signature: "+kind, b)
		r.Eval(true, b)
		r.Count("misplaced_signatures", 1)
		o := parse(cp(b))
		if o.panic != nil {
			r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("parse panicked: %v", o.panic), b)
			continue
		}
		if o.err != nil || o.f.GetDriverCard() == nil {
			r.Count("misplaced_signatures_rejected", 1)
			continue
		}
		m := marshal(o.f)
		if m.panic != nil {
			r.Violate("marshal-panic:"+panicSite(m.stack), fmt.Sprintf("marshal panicked: %v", m.panic), b)
			continue
		}
		got, ok := splitTLV(m.b)
		if m.err != nil || !ok {
			r.Violate("misplaced:unwritable", fmt.Sprintf("a card with a misplaced signature (%s) is accepted, and cannot be written (%v)", kind, m.err), b)
			continue
		}
		r.Count("misplaced_signatures_accepted."+sanitize(kind), 1)
		left := map[string]int{}
		for _, t := range got {
			left[string(t.bytes())]++
		}
		for _, t := range ts {
			left[string(t.bytes())]--
		}
		for x, d := range left {
			if d != 0 {
				r.Violate("misplaced:"+kind, fmt.Sprintf("a card with a misplaced signature (%s) is accepted, and element %x… of %d bytes is there %+d times afterwards", kind, x[:3], len(x)-5, d), b)
				break
			}
		}
	}
}

// compareTLVs compares two element multisets keyed by tag (tags are unique on a generated card).
func (r *Run) compareTLVs(want, got []TLV, input []byte) {
	m := map[string][]TLV{}
	for _, t := range got {
		m[tlvKey(t)] = append(m[tlvKey(t)], t)
	}
	for _, t := range want {
		k := tlvKey(t)
		switch l := m[k]; {
		case len(l) == 0:
			r.Violate("lost:"+k, fmt.Sprintf("element %s (%d bytes) is missing from the marshalled card", k, len(t.Val)), input)
		case len(l) > 1:
			r.Violate("duplicated:"+k, fmt.Sprintf("element %s appears %d times in the marshalled card", k, len(l)), input)
		case !bytes.Equal(l[0].Val, t.Val):
			r.Violate("altered:"+k, fmt.Sprintf("element %s changed at byte %d: in %d bytes %s out %d bytes %s", k, firstDiff(t.Val, l[0].Val), len(t.Val), around(t.Val, firstDiff(t.Val, l[0].Val)), len(l[0].Val), around(l[0].Val, firstDiff(t.Val, l[0].Val))), input)
		}
		delete(m, k)
	}
	for k := range m {
		r.Violate("invented:"+k, fmt.Sprintf("element %s is in the marshalled card but not in the original", k), input)
	}
}

func around(b []byte, i int) string {
	lo, hi := i-4, i+12
	if lo < 0 {
		lo = 0
	}
	if hi > len(b) {
		hi = len(b)
	}
	if lo > hi {
		lo = hi
	}
	return fmt.Sprintf("[%d:]%x", lo, b[lo:hi])
}

// files of a second generation version 2 driver card that the data model does not decode
var undecodedDriverFiles = []struct {
	fid uint16
	app byte
	len int
}{{0x2F00, 0, 20}, {0x2F01, 0, 12}, {0x0006, 0, 3}, {0x0526, 2, 562}, {0x0527, 2, 1682}, {0x0528, 2, 19042}, {0x0529, 2, 32482}, {0x0530, 2, 1682}, {0x0540, 2, 3072}}

func (r *Run) unsupportedFiles(g *G) {
	for _, u := range undecodedDriverFiles {
		c := genCard(g, cardOpts{gen1: true, gen2: true, pInclude: 30})
		ts := append(c.tlvs(), TLV{u.fid, u.app, g.Bytes(u.len)})
		b := joinTLV(ts)
		o := parse(cp(b))
		r.Eval(true, b)
		r.Count("undecoded_file_cards", 1)
		if o.panic != nil {
			r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("parse panicked: %v", o.panic), b)
			continue
		}
		if o.err != nil || o.f == nil {
			continue // rejected, not lost
		}
		out := r.marshalOK("card with undecoded file", o.f, b)
		if out == nil {
			continue
		}
		if got, ok := splitTLV(out); ok {
			r.compareTLVs(ts, got, b)
		}
	}
}

// oddLengths: a file of another length than its layout has is rejected, or written back as it was.
func (r *Run) oddLengths(g *G, n int) {
	for i := 0; i < n; i++ {
		g.Hostile = g.P(1, 4)
		c := genCard(g, cardOpts{gen1: true, gen2: g.P(2, 3), pInclude: pick(g.Rand, 100, 60)})
		e := &c.efs[g.N(len(c.efs))]
		d := cp(e.data)
		kept := len(d) // what the layout has room for
		switch k := 1 + g.N(pick(g.Rand, 3, 12, 40, 300)); {
		case g.Bool():
			more := d[e.ef.lead:]
			if len(more) == 0 {
				more = make([]byte, 40)
			}
			for len(more) < k {
				more = append(more, more...)
			}
			d = append(cp(d), more[:k]...)
			if e.ef.unit > 0 {
				kept += k / e.ef.unit * e.ef.unit
			}
		case k < len(d):
			d = d[:len(d)-k]
			if kept = 0; e.ef.unit > 0 && len(d) >= e.ef.lead {
				kept = e.ef.lead + (len(d)-e.ef.lead)/e.ef.unit*e.ef.unit
			}
		default:
			d, kept = nil, 0
		}
		e.data = d
		b := c.bytes()
		r.Case("card with a file of another length", b)
		r.Eval(true, b)
		o := parse(cp(b))
		if o.panic != nil {
			r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("parse panicked: %v", o.panic), b)
			continue
		}
		if o.err != nil || o.f.GetDriverCard() == nil {
			r.Count("odd_length_rejected", 1)
			continue
		}
		r.Count("odd_length_accepted", 1)
		r.Count(fmt.Sprintf("odd_length_accepted.%s.g%d", e.ef.name, e.gen), 1)
		m := marshal(o.f)
		if m.panic != nil {
			r.Violate("marshal-panic:"+panicSite(m.stack), fmt.Sprintf("marshal panicked: %v", m.panic), b)
			continue
		}
		if m.err != nil {
			r.Violate("odd-length:"+e.ef.name, fmt.Sprintf("%s of %d bytes was accepted, and cannot be written: %v", e.ef.name, len(d), m.err), b)
			continue
		}
		got, ok := splitTLV(m.b)
		if !ok {
			r.Violate("malformed-output", "marshalled card is not a complete TLV stream", b)
			continue
		}
		key := tlvKey(e.tlvs()[0])
		for j := range got {
			if (kept > 0 || e.ef.unit > 0) && kept < len(d) && tlvKey(got[j]) == key && bytes.Equal(got[j].Val, d[:kept]) {
				r.Count("surplus_dropped", 1)
				r.Violate("surplus:"+key, fmt.Sprintf("file %s of %d bytes is accepted, and the %d bytes beyond its layout are dropped", key, len(d), len(d)-kept), b)
				got[j].Val = d
			}
		}
		r.compareTLVs(c.tlvs(), got, b)
	}
}

func (r *Run) semantic(stream string, n int, mk func(g *G) *Card, filter func(path string) bool) {
	g := &G{Rand: NewRand(r.Seed, stream)}
	for i := 0; i < n; i++ {
		g.Hostile = g.P(1, 4)
		if g.Codes = ""; g.P(1, 4) {
			g.Codes = ".NationNumeric"
		}
		c := mk(g)
		b := c.bytes()
		r.Case("card", b)
		r.Eval(len(c.efs) >= 2, b)
		if i < 4 {
			r.Sample(map[string]any{"files": len(c.efs), "bytes": len(b)})
		}
		for _, e := range c.efs {
			r.Count(fmt.Sprintf("ef.%s.g%d", e.ef.name, e.gen), 1)
		}
		f := r.parseOK("card", cp(b))
		if f == nil {
			continue
		}
		r.compareFile("card", b, c.want(), f)
	}
}

func runP04(r *Run) {
	r.rule = "one case = one generated Gen1 driver card; every populated field of the parsed file is compared with an independent decoder of the regulation's layouts; non-trivial = at least two files; distinct by card bytes"
	n := r.N(8000, 60000)
	r.semantic("P04", n, func(g *G) *Card {
		return genCard(g, cardOpts{gen1: true, pInclude: pick(g.Rand, 100, 70, 30, 10), noSig: g.P(1, 8), shuffle: g.P(1, 3)})
	}, nil)
	r.Require("fields_compared", n*20)
}

func runP05(r *Run) {
	r.rule = "one case = one generated Gen2 or dual-generation driver card, files of both generations interleaved in random order; every populated field compared with the independent decoder; non-trivial = at least two files; distinct by card bytes"
	n := r.N(8000, 60000)
	r.semantic("P05", n, func(g *G) *Card {
		return genCard(g, cardOpts{gen1: g.P(3, 4), gen2: true, pInclude: pick(g.Rand, 100, 70, 30, 10), noSig: g.P(1, 8), shuffle: g.P(1, 2)})
	}, nil)
	r.Require("fields_compared", n*20)
}
