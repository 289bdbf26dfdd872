package main

import (
	"bytes"
	"fmt"
)

func init() {
	register("P07", runP07)
	register("P08", runP08)
}

// vuCheck parses a download that must be accepted and compares everything reported of it.
func (r *Run) vuCheck(label string, ts []Transfer, want *Obj) {
	b := joinTransfers(ts)
	f := r.parseOK(label, cp(b))
	if f == nil {
		return
	}
	for _, t := range ts {
		r.Count(fmt.Sprintf("transfers.%02X", t.trep), 1)
	}
	r.compareFile(label, b, want, f)
	m := marshal(f)
	r.Count("files_marshalled", 1)
	switch {
	case m.panic != nil:
		r.Violate("marshal-panic:"+panicSite(m.stack), fmt.Sprintf("%s: marshal panicked: %v", label, m.panic), b)
	case m.err != nil:
		r.Count("marshal_refused", 1)
	case !bytes.Equal(m.b, b):
		r.Violate("roundtrip", fmt.Sprintf("%s: marshalled vehicle unit file differs from the download at byte %d (in %d out %d bytes)", label, firstDiff(b, m.b), len(b), len(m.b)), b)
	}
}

func (r *Run) vuReject(label string, b []byte) {
	o := parse(cp(b))
	if o.panic != nil {
		r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("%s: parse panicked: %v", label, o.panic), b)
		return
	}
	if o.err == nil {
		r.Violate("accepted:"+label, fmt.Sprintf("%s: download of %d bytes was accepted", label, len(b)), b)
		return
	}
	r.Count("rejected."+sanitize(label), 1)
}

func runP07(r *Run) {
	r.rule = "one case = one vehicle unit download assembled from random transfers of one generation (in order or shuffled), or a cut, polluted or mixed variant of one; non-trivial = at least two transfers or a variant that must be rejected; distinct by bytes"
	r.assume = []string{"transfer sizes follow Appendix 7; record array contents of Generation 2 are opaque, as the library documents that it keeps them as raw data"}
	g := &G{Rand: NewRand(r.Seed, "P07")}
	n := r.N(5000, 40000)
	for i := 0; i < n; i++ {
		g.Hostile = g.P(1, 4)
		kind := 1 + g.N(3)
		ts := genVU(g, kind, 7)
		if g.P(1, 20) {
			ts = []Transfer{genTransfer(g, pick(g.Rand, byte(0x24), 0x24, 0x00, 0x21, 0x31))}
		}
		want, ok := vuWant(ts)
		b := joinTransfers(ts)
		r.Case("download", b)
		r.Eval(len(ts) > 1, b)
		if i < 4 {
			r.Sample(map[string]any{"kind": kind, "transfers": len(ts), "bytes": len(b)})
		}
		if !ok {
			r.vuReject("invalid combination", b)
			continue
		}
		r.vuCheck("download", ts, want)
		r.Count("transfers_checked", len(ts))
	}
	r.vuFull(g, "P07", r.N(8, 40))
	// cut anywhere: inside a transfer it is an error, between transfers it is the shorter download
	for i := 0; i < r.N(90, 1200); i++ {
		kind := 1 + i%3
		ts := genVU(g, kind, 4)
		b := joinTransfers(ts)
		if len(b) > 60000 {
			continue
		}
		ends := map[int]int{}
		off := 0
		for k, t := range ts {
			off += 2 + len(t.val)
			ends[off] = k + 1
		}
		step := 1
		if len(b) > 500 {
			step = 1 + len(b)/500
		}
		cuts := map[int]bool{}
		for c := 2; c < len(b); c += step {
			cuts[c] = true
		}
		// the neighbourhood of every boundary, and of the counters at the start of each transfer
		off = 0
		for _, t := range ts {
			for d := -6; d < 14; d++ {
				cuts[off+d] = true
			}
			off += 2 + len(t.val)
		}
		for d := -140; d < 0; d++ {
			cuts[len(b)+d] = true
		}
		for c := 2; c < len(b); c++ {
			if !cuts[c] {
				continue
			}
			r.Case("cut", b[:c])
			r.Eval(true, b[:c])
			if k, whole := ends[c]; whole {
				if want, ok := vuWant(ts[:k]); ok {
					r.vuCheck("cut between transfers", ts[:k], want)
				}
				continue
			}
			r.Count("cuts_inside", 1)
			r.vuReject("cut inside a transfer", b[:c])
		}
	}
	// counts and record sizes that claim more than there is
	for i := 0; i < r.N(1200, 12000); i++ {
		trep := pick(g.Rand, byte(0x01), 0x02, 0x03, 0x04, 0x05, 0x21, 0x22, 0x23, 0x24, 0x25, 0x31, 0x32, 0x33, 0x35)
		t := genTransfer(g, trep)
		v := cp(t.val)
		var at []int // positions of a counter, each together with its width
		switch {
		case trep >= 0x20:
			off := 0
			for k := 0; k < vuArrays[trep]; k++ {
				at = append(at, off+3)
				off += 5 + be16(v[off+1:])*be16(v[off+3:])
			}
		case trep == 0x01:
			at = []int{491}
		case trep == 0x02:
			at = []int{7}
		case trep == 0x03:
			at = []int{0}
		case trep == 0x04:
			at = []int{0}
		case trep == 0x05:
			at = []int{136}
		}
		p := at[g.N(len(at))]
		if trep >= 0x20 && be16(v[p-2:]) == 0 { // record size 0: give it a size
			v[p-2], v[p-1] = 0x01, 0x00
		}
		if v[p] == 0xFF {
			continue
		}
		v[p] = 0xFF
		if trep >= 0x20 {
			v[p+1] = 0xFF
		}
		if trep >= 0x20 || trep == 0x02 || trep == 0x04 || true {
			b := append([]byte{0x76, trep}, v...)
			if len(b) > 30000 {
				continue
			}
			r.Case("count", b)
			r.Eval(true, b)
			r.vuReject("count beyond the end", b)
		}
	}
	// unknown transfer types
	for x := 0; x < 256; x++ {
		if g1, _ := vuGenOf(byte(x)); g1 != 0 || x == 0x06 {
			continue
		}
		for k := 0; k < 2; k++ {
			ts := genVU(g, 1+g.N(3), 2)
			at := g.N(len(ts) + 1)
			b := joinTransfers(ts[:at])
			b = append(b, 0x76, byte(x))
			b = append(b, g.Bytes(g.N(40))...)
			b = append(b, joinTransfers(ts[at:])...)
			r.Case("unknown", b)
			r.Eval(true, b)
			r.vuReject("unknown transfer type", b)
		}
	}
	// something else than a transfer after a transfer
	for k := 0; k < 400; k++ {
		ts := genVU(g, 1+g.N(3), 2)
		b := joinTransfers(ts)
		t := g.Bytes(1 + g.N(6))
		if t[0] == 0x76 {
			t[0] = 0
		}
		switch k % 4 { // padding of a medium, blanks, a transfer tag of another length
		case 1:
			t = bytes.Repeat([]byte{pick(g.Rand, byte(0), 0xFF, 0x20, 0x0A)}, 1+g.N(600))
		case 2:
			t = []byte{0x76}
		}
		b = append(b, t...)
		r.Case("garbage", b)
		r.Eval(true, b)
		r.vuReject("trailing garbage", b)
	}
	// mixed generations, repeated single transfers
	for k := 0; k < r.N(1200, 10000); k++ {
		a := genVU(g, 1+g.N(3), 2)
		c := genVU(g, 1+g.N(3), 2)
		ts := append(append([]Transfer{}, a...), c...)
		if g.Bool() {
			out := make([]Transfer, len(ts))
			for i, j := range g.Perm(len(ts)) {
				out[i] = ts[j]
			}
			ts = out
		}
		b := joinTransfers(ts)
		r.Case("mixed", b)
		r.Eval(true, b)
		if want, ok := vuWant(ts); ok {
			r.vuCheck("concatenated", ts, want)
		} else {
			r.vuReject("mixed generations or repeated overview", b)
		}
	}
	for _, t := range []byte{0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x21, 0x22, 0x23, 0x24, 0x25, 0x31, 0x32, 0x33, 0x35} {
		r.Require(fmt.Sprintf("transfers.%02X", t), 20)
	}
	r.Require("cuts_inside", 5000)
	r.Require("rejected.unknown_transfer_type", 300)
	r.Require("rejected.count_beyond_the_end", 100)
}

func runP08(r *Run) {
	r.rule = "one case = one Generation 1 download with an overview and daily activities of random record counts (including 0 and the maximum of each counter) and values; every field compared with the independent decoder; distinct by bytes"
	g := &G{Rand: NewRand(r.Seed, "P08")}
	n := r.N(8000, 60000)
	for i := 0; i < n; i++ {
		g.Hostile = g.P(1, 4)
		if g.Codes = ""; g.P(1, 4) {
			g.Codes = ".NationNumeric"
		}
		var ts []Transfer
		if g.P(5, 6) {
			ts = append(ts, genTransfer(g, 1))
		}
		for k := g.N(4); k > 0; k-- {
			ts = append(ts, genTransfer(g, 2))
		}
		if len(ts) == 0 {
			ts = append(ts, genTransfer(g, 2))
		}
		b := joinTransfers(ts)
		r.Case("download", b)
		r.Eval(true, b)
		if i < 4 {
			r.Sample(map[string]any{"transfers": len(ts), "bytes": len(b)})
		}
		want, _ := vuWant(ts)
		for _, t := range ts {
			for _, k := range []string{"company_locks", "control_activities", "card_iw_data", "activity_changes", "places", "specific_conditions"} {
				if l, ok := t.obj.m[k].(List); ok {
					r.Count("records."+k, len(l))
				}
			}
		}
		r.vuCheck("download", ts, want)
	}
	r.vuFull(g, "P08", r.N(12, 60))
	r.Require("fields_compared", n*100)
	for _, k := range []string{"company_locks", "control_activities", "card_iw_data", "activity_changes", "places", "specific_conditions"} {
		r.Require("records."+k, 1000)
	}
}

// vuFull checks downloads with transfers whose counters are full, between two ordinary ones.
func (r *Run) vuFull(g *G, id string, n int) {
	for i := 0; i < n; i++ {
		g.Hostile = i%5 == 4
		ts := []Transfer{genTransfer(g, 1), vuHuge(g, i), vuActivitiesOf(g, 1, 2, 1, 2)}
		if id == "P08" && i%4 == 3 {
			continue
		}
		b := joinTransfers(ts)
		r.Case("full counter", b)
		r.Eval(true, b)
		want, _ := vuWant(ts)
		r.vuCheck("full counter", ts, want)
		r.Count("transfers with a full counter", 1)
	}
	r.Require("transfers with a full counter", n/2)
	// downloads of many transfers
	for i := 0; i < r.N(3, 15); i++ {
		kind := 1
		if id == "P07" {
			kind += i % 3
		}
		g.Hostile = false
		base := map[int]byte{1: 0x00, 2: 0x20, 3: 0x30}[kind]
		ts := []Transfer{genTransfer(g, base|1)}
		for k, m := 0, pick(g.Rand, 130, 257, 400); k < m; k++ {
			if kind == 1 {
				ts = append(ts, vuActivitiesOf(g, g.N(3), g.N(6), g.N(2), g.N(2)))
			} else {
				ts = append(ts, genTransfer(g, base|2))
			}
		}
		b := joinTransfers(ts)
		r.Case("many transfers", b)
		r.Eval(true, b)
		want, ok := vuWant(ts)
		if !ok {
			continue
		}
		r.vuCheck("many transfers", ts, want)
		r.Count("downloads of many transfers", 1)
	}
	r.Require("downloads of many transfers", 2)
}
