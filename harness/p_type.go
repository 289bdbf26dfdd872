package main

import (
	"fmt"
)

func init() { register("P20", runP20) }

// file identifiers a driver card has (Annex 1C Appendix 2, driver card structures of both generations)
var driverFids = map[uint16]bool{0x0002: true, 0x0005: true, 0x2F00: true, 0x2F01: true, 0x0006: true, 0x0501: true, 0x0502: true, 0x0503: true, 0x0504: true, 0x0505: true, 0x0506: true,
	0x0507: true, 0x0508: true, 0x050E: true, 0x0520: true, 0x0521: true, 0x0522: true, 0x0523: true, 0x0524: true, 0x0525: true, 0x0526: true, 0x0527: true, 0x0528: true, 0x0529: true,
	0x0530: true, 0x0540: true, 0xC100: true, 0xC101: true, 0xC108: true, 0xC109: true}

// complete structures of the other cards, per generation: identifier and appendix bit
var otherCards = map[string][]uint16{
	"workshop": {0x0002, 0x0005, 0x2F00, 0x2F01, 0x0006, 0x0501, 0xC100, 0xC108, 0x0520, 0x0509, 0x050A, 0x050B, 0x0502, 0x0503, 0x0504, 0x0505, 0x0506, 0x0507, 0x0508, 0x0522},
	"control":  {0x0002, 0x0005, 0x2F00, 0x2F01, 0x0006, 0x0501, 0xC100, 0xC108, 0x0520, 0x050C},
	"company":  {0x0002, 0x0005, 0x2F00, 0x2F01, 0x0006, 0x0501, 0xC100, 0xC108, 0x0520, 0x050D},
	"gnss":     {0x0002, 0xC100, 0xC108, 0xC109, 0x2F2F, 0x2F30},
}
var otherCardsG2 = map[string][]uint16{
	"workshop": {0x0501, 0xC100, 0xC101, 0xC108, 0xC109, 0x0520, 0x0509, 0x050A, 0x050B, 0x0502, 0x0503, 0x0504, 0x0505, 0x0506, 0x0507, 0x0508, 0x0522, 0x0523, 0x0524, 0x0525, 0x0526, 0x0527, 0x0528, 0x0529, 0x0530, 0x0531, 0x0540},
	"control":  {0x0501, 0xC100, 0xC101, 0xC108, 0xC109, 0x0520, 0x050C, 0x0525, 0x0540},
	"company":  {0x0501, 0xC100, 0xC108, 0xC109, 0x0520, 0x050D, 0x0525, 0x0540},
}

func sortedFids() (l []uint16) {
	for fid := 0; fid < 0x10000; fid++ {
		if driverFids[uint16(fid)] {
			l = append(l, uint16(fid))
		}
	}
	return l
}

func runP20(r *Run) {
	r.rule = "one case = one input typed by the library: driver cards, the complete structures of the other cards, driver cards polluted with one foreign or unknown file, and arbitrary non-tachograph prefixes; non-trivial = any; distinct by bytes"
	r.assume = []string{"the set of files a driver card has is a frozen table taken from Annex 1C Appendix 2"}
	g := &G{Rand: NewRand(r.Seed, "P20")}
	raw := func(label string, ts []TLV) {
		b := joinTLV(ts)
		r.Case(label, b)
		r.Eval(true, b)
		f := r.parseOK(label, cp(b))
		if f == nil {
			return
		}
		if f.GetType() != 6 {
			r.Violate("mistyped:"+label, fmt.Sprintf("%s: %d elements reported as %v instead of a raw card", label, len(ts), f.GetType()), b)
			return
		}
		r.Count("raw_cards", 1)
		r.compareFile(label, b, rawWant(ts), f)
	}
	driver := func(label string, c *Card) {
		b := c.bytes()
		r.Case(label, b)
		r.Eval(true, b)
		f := r.parseOK(label, cp(b))
		if f == nil {
			return
		}
		if f.GetType() != 2 || f.GetDriverCard() == nil || f.GetRawCard() != nil || f.GetVehicleUnit() != nil {
			r.Violate("mistyped:"+label, fmt.Sprintf("%s: driver card of %d files reported as %v (driver %v, raw %v, vu %v)", label, len(c.efs), f.GetType(), f.HasDriverCard(), f.HasRawCard(), f.HasVehicleUnit()), b)
			return
		}
		r.Count("driver_cards", 1)
	}
	for _, k := range sortedKeys(otherCards) {
		for i := 0; i < r.N(60, 600); i++ {
			var ts []TLV
			add := func(fid uint16, app byte) {
				ts = append(ts, TLV{fid, app, g.Bytes(g.N(80))})
				if g.P(1, 2) && fid >= 0x0501 && fid < 0x0600 {
					ts = append(ts, TLV{fid, app | 1, g.Bytes(128)})
				}
			}
			foreign := false
			for j, fid := range otherCards[k] {
				keep := i < 3 || j == 0 || g.P(3, 4) || !driverFids[fid]
				if keep {
					add(fid, 0)
					foreign = foreign || !driverFids[fid]
				}
			}
			if g.Bool() {
				for _, fid := range otherCardsG2[k] {
					if g.P(3, 4) {
						add(fid, 2)
					}
				}
			}
			if !foreign {
				continue
			}
			raw(k+" card", ts)
		}
	}
	n := r.N(500, 5000)
	for i := 0; i < n; i++ {
		g.Hostile = g.P(1, 4)
		c := genCard(g, cardOpts{gen1: g.P(3, 4), gen2: g.P(1, 2), pInclude: pick(g.Rand, 100, 60, 20, 3), noSig: g.P(1, 4), shuffle: g.Bool()})
		driver("driver card", c)
		// the same card with one element no driver card has
		ts := c.tlvs()
		fid := nonDriverFids[g.N(len(nonDriverFids))]
		label := "driver files and one of another card"
		if g.Bool() {
			label = "driver files and an unknown one"
			for fid = uint16(g.U64()); driverFids[fid] || fidTable[fid] != 0; fid = uint16(g.U64()) {
			}
			if g.P(1, 4) {
				fid = pick(g.Rand, uint16(0x0000), 0x0500, 0x0541, 0x050F, 0x0510, 0xC102, 0xFFFF, 0x2F31, 0x0003)
			}
		}
		if g.P(1, 6) {
			// next to every file a driver card can have
			ts = []TLV{{0x0002, 0, iccC().gen(g)}}
			fids := sortedFids()
			for j := range fids {
				k := j + g.N(len(fids)-j)
				fids[j], fids[k] = fids[k], fids[j]
			}
			for _, fid := range fids {
				if fid != 0x0002 && !g.P(1, 40) {
					ts = append(ts, TLV{fid, byte(g.N(2)) * 2, g.Bytes(g.N(30))})
				}
			}
			label = "all driver files and a foreign one"
		}
		// before the last element's signature is as good a place as any, but never between a file and its signature
		at := 1 + g.N(len(ts))
		for at < len(ts) && ts[at].Appendix&1 == 1 {
			at++
		}
		x := TLV{fid, byte(g.N(2)) * 2, g.Bytes(g.N(60))}
		ts = append(ts[:at:at], append([]TLV{x}, ts[at:]...)...)
		raw(label, ts)
	}
	// each single identifier next to the chip file
	for fid := 0; fid < 0x10000; fid++ {
		if driverFids[uint16(fid)] {
			continue
		}
		if !r.Thorough() && fid%7 != 3 && fidTable[uint16(fid)] == 0 && (fid < 0x0480 || fid > 0x0600) {
			continue
		}
		raw("single foreign file", []TLV{{0x0002, 0, iccC().gen(g)}, {uint16(fid), byte(g.N(2)) * 2, g.Bytes(3)}})
	}
	// other inputs
	for p := 0; p < 0x10000; p++ {
		if p == 0x0002 || p>>8 == 0x76 {
			continue
		}
		if !r.Thorough() && p%5 != 1 && p > 0x100 {
			continue
		}
		b := append([]byte{byte(p >> 8), byte(p)}, g.Bytes(g.N(40))...)
		if g.P(1, 6) {
			b = append([]byte{byte(p >> 8), byte(p)}, joinTLV(genRawTLVs(g.Rand, 2, 40))[2:]...)
		}
		r.Case("prefix", b)
		r.Eval(true, b)
		o := parse(cp(b))
		if o.panic != nil {
			r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("parse panicked: %v", o.panic), b)
		} else if o.err == nil {
			r.Violate("accepted-garbage", fmt.Sprintf("input starting with %04X was accepted as %v", p, o.f.GetType()), b)
		} else if o.f != nil {
			r.Violate("error-with-file", "an error and a file were both returned", b)
		} else {
			r.Count("other_inputs_rejected", 1)
		}
	}
	for _, b := range [][]byte{nil, {}, {0}, {0x76}, {0x00}, {0x02}} {
		o := parse(b)
		r.Eval(true, b)
		if o.panic != nil || o.err == nil {
			r.Violate("accepted-empty", fmt.Sprintf("%d byte input: panic %v error %v", len(b), o.panic, o.err), b)
		}
	}
	// the declared type and the content agree, whatever was accepted
	for i := 0; i < r.N(4000, 60000); i++ {
		b := mutant(g)
		r.Case("mutant", b)
		o := parse(cp(b))
		if o.panic != nil || o.err != nil {
			continue
		}
		r.Eval(true, b)
		r.Count("accepted_mutants", 1)
		f := o.f
		ok := false
		switch f.GetType() {
		case 1:
			ok = b[0] == 0x76 && f.HasVehicleUnit() && !f.HasDriverCard() && !f.HasRawCard()
		case 2:
			ok = f.HasDriverCard() && !f.HasVehicleUnit() && !f.HasRawCard()
		case 6:
			ok = f.HasRawCard() && !f.HasVehicleUnit() && !f.HasDriverCard()
		}
		if ts, whole := splitTLV(b); whole && b[0] != 0x76 {
			all, data := true, 0
			for _, t := range ts {
				if t.Appendix&1 == 0 {
					data++
				}
				if t.Appendix&1 == 0 && !driverFids[t.FID] {
					all = false
				}
			}
			// (a stream of signatures alone contains no file, so the property does not say what it is)
			if data > 0 && all != (f.GetType() == 2) {
				ok = false
			}
		} else if !whole && b[0] != 0x76 {
			r.Violate("incomplete-accepted", "a card stream that ends inside an element was accepted", b)
		}
		if !ok {
			r.Violate("type-mismatch", fmt.Sprintf("file of type %v: driver card %v, raw card %v, vehicle unit %v", f.GetType(), f.HasDriverCard(), f.HasRawCard(), f.HasVehicleUnit()), b)
		}
	}
	r.Require("raw_cards", 1000)
	r.Require("driver_cards", n/2)
	r.Require("other_inputs_rejected", 5000)
	r.Require("accepted_mutants", 300)
}
