package main

import (
	"bytes"
	"fmt"

	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
)

func init() { register("P06", runP06) }

// activityCard wraps one activity file in the smallest driver card.
func activityCard(g *G, ef []byte) ([]byte, byte) {
	app := byte(g.N(2)) * 2
	ts := []TLV{{0x0002, 0, iccC().gen(g)}}
	if app == 2 && g.Bool() { // the other generation has a store of its own
		ts = append(ts, TLV{0x0504, 0, genRing(g, 60+g.N(200), 5, 4).ef()})
	}
	ts = append(ts, TLV{0x0504, app, ef})
	return joinTLV(ts), app
}

func activityOf(f *File, app byte) *cardv1.DriverActivityData {
	if app == 2 {
		return f.GetDriverCard().GetTachographG2().GetDriverActivityData()
	}
	return f.GetDriverCard().GetTachograph().GetDriverActivityData()
}

// dayWant is dayObj, or a raw record when the body cannot be decoded.
func dayWant(prev, length int, body []byte) *Obj {
	hdr := []byte{byte(prev >> 8), byte(prev), byte(length >> 8), byte(length)}
	bad := len(body) < 8
	if !bad {
		for _, c := range body[4:6] {
			if c>>4 > 9 || c&15 > 9 {
				bad = true
			}
		}
	}
	if bad {
		return &Obj{m: map[string]any{"valid": false}, raw: append(hdr, body...)}
	}
	o := &Obj{m: map[string]any{"valid": true, "activity_previous_record_length": int64(prev), "activity_record_length": int64(length),
		"activity_record_date": decTime(body[:4]), "activity_daily_presence_counter": bcdC(2).dec(body[4:6]), "activity_day_distance": be(body[6:8])}}
	var ch List
	for off := 8; off+2 <= len(body); off += 2 {
		if body[off] == 0xFF && body[off+1] == 0xFF {
			continue
		}
		ch = append(ch, changeDec.dec(body[off:off+2]))
	}
	o.m["activity_change_info"] = ch
	o.raw = append(hdr, body...)
	return o
}

func runP06(r *Run) {
	r.rule = "one case = one activity store: either reached by a random write history (append a day, extend today, overwrite oldest) over a ring of random size, or the same store with damaged pointers, headers or bytes; non-trivial = at least two stored records or a damaged store; distinct by file bytes"
	r.assume = []string{"the expected record list of an undamaged store comes from the write history itself, not from re-reading the buffer"}
	g := &G{Rand: NewRand(r.Seed, "P06")}
	splits := map[int]bool{}
	soundCase := func(label string, rg *ring) {
		ef := rg.ef()
		b, app := activityCard(g, ef)
		r.Case(label, b)
		r.Eval(len(rg.recs) > 1, ef)
		f := r.parseOK(label, cp(b))
		if f == nil {
			return
		}
		a := activityOf(f, app)
		var want List
		for i, x := range rg.recs {
			prev := 0
			if i > 0 {
				prev = rg.recs[i-1].length()
			}
			want = append(want, dayWant(prev, x.length(), x.body))
			if e := x.pos + x.length() - len(rg.buf); e > 0 {
				r.Count("records_wrapped", 1)
				splits[x.length()-e] = true
				if x.pos+4 > len(rg.buf) {
					r.Count("headers_wrapped", 1)
				}
			}
		}
		r.Count("records_expected", len(want))
		r.Count("records_seen", len(a.GetDailyRecords()))
		if rg.dropped > 0 {
			r.Count("stores_with_overwritten_days", 1)
		}
		for _, w := range want {
			if w.(*Obj).m["valid"] == false {
				r.Count("undecodable_records", 1)
			}
		}
		wo := &Obj{m: map[string]any{"oldest_day_record_index": int64(rg.oldest()), "newest_day_record_index": int64(rg.newest()), "daily_records": want}, raw: rg.buf}
		d := &differ{}
		d.compare("activity", wo, a.ProtoReflect())
		r.Count("fields_compared", d.fields)
		for _, x := range d.out {
			r.Violate("field:"+pathKey(x.Path), fmt.Sprintf("%s: ring of %d bytes, oldest %d, newest %d, %d records stored: %s", label, len(rg.buf), rg.oldest(), rg.newest(), len(rg.recs), x), b)
		}
		if out := r.marshalOK(label, f, b); out != nil && !bytes.Equal(out, b) {
			r.Violate("roundtrip", fmt.Sprintf("%s: marshalled card differs at byte %d", label, firstDiff(b, out)), b)
		}
	}
	history := func(size, ops, changes int, undecodable bool) *ring {
		rg := newRing(size, func(b []byte) {
			if g.P(1, 3) {
				copy(b, g.Bytes(len(b)))
			}
		})
		day := g.N(3000)
		for i := 0; i < ops; i++ {
			if len(rg.recs) == 0 || g.P(2, 3) {
				day = nextDay(g, day)
				body := genDayBody(g, day, changes)
				if undecodable && g.P(1, 4) {
					switch g.N(3) {
					case 0:
						body[4] = 0xAF
					case 1:
						body = g.Bytes(g.N(8))
					case 2:
						body = append(body, 0x5A) // odd length
					}
				}
				rg.add(body)
			} else if n := len(rg.recs); len(rg.recs[n-1].body) >= 8 {
				rg.extend(changeDec.gen(g))
			}
		}
		if len(rg.recs) == 0 {
			for !rg.add(genDayBody(g, day, 0)) {
				return newRing(size+16, nil)
			}
		}
		return rg
	}
	// busy days, up to a change every minute of the day and (clock set back) more
	for k := 0; k < r.N(60, 600); k++ {
		rg := history(g.Range(3000, 14000), 2+g.N(12), pick(g.Rand, 400, 1500, 1500, 2400), false)
		for _, x := range rg.recs {
			if len(x.body) >= 8+2*1440 {
				r.Count("days_of_1440_changes", 1)
			}
		}
		if len(rg.recs) > 0 {
			soundCase("busy days", rg)
		}
	}
	n := r.N(2500, 40000)
	for i := 0; i < n; i++ {
		g.Hostile = g.P(1, 4)
		size, ops, ch := g.Range(16, 400), 1+g.N(60), g.N(12)
		switch g.N(8) {
		case 0:
			size, ops, ch = g.Range(400, 6000), 1+g.N(600), g.N(40)
		case 1:
			size = g.Range(16, 40)
		case 2:
			size, ops, ch = 13776, 500+g.N(500), g.N(30) // regular driver card
		}
		rg := history(size, ops, ch, g.P(1, 4))
		if len(rg.recs) == 0 {
			continue
		}
		if i < 3 {
			r.Sample(map[string]any{"ring": len(rg.buf), "records": len(rg.recs), "oldest": rg.oldest(), "newest": rg.newest(), "overwritten_days": rg.dropped})
		}
		soundCase("history", rg)
	}
	// every wrap offset: short days over rings of neighbouring sizes
	for size := 30; size < r.N(90, 220); size++ {
		for k := 0; k < 6; k++ {
			rg := history(size, 3+g.N(20), g.N(4), false)
			if len(rg.recs) > 0 {
				soundCase("small ring", rg)
			}
		}
	}
	// the 367th day and beyond: more than a year of minimal days
	for k := 0; k < r.N(6, 40); k++ {
		rg := newRing(12*g.Range(360, 1200)+g.N(12), nil)
		for d := 0; d < 300+g.N(2500); d++ {
			rg.add(genDayBody(g, d, g.N(2)*g.N(3)))
		}
		soundCase("long history", rg)
	}
	// the largest stores and days that two byte lengths allow
	for k := 0; k < r.N(12, 60); k++ {
		size := pick(g.Rand, 32766, 32767, 32768, 32769, 65530, 65531, 65531)
		rg := newRing(size, nil)
		for d := 0; d < 2+g.N(4); d++ {
			rg.add(genDayBody(g, d, pick(g.Rand, 5, 3000, 16400, 30000)))
		}
		if k%4 == 0 { // one day that fills the store to its last byte
			rg = newRing(size, nil)
			body := genDayBody(g, 1, 5)
			rg.add(append(body, bytes.Repeat([]byte{0, 1}, (size-4-len(body))/2)...))
		}
		if len(rg.recs) > 0 {
			soundCase("large store", rg)
			r.Count("large_stores", 1)
		}
	}
	// damage
	n = r.N(9000, 150000)
	for i := 0; i < n; i++ {
		var rg *ring
		if g.P(1, 6) {
			rg = newRing(g.Range(0, 300), func(b []byte) { copy(b, g.Bytes(len(b))) })
		} else {
			rg = history(g.Range(16, 500), 1+g.N(40), g.N(6), g.P(1, 4))
		}
		ef := rg.ef()
		for k := 0; k < 1+g.N(4); k++ {
			switch g.N(9) {
			case 0: // oldest or newest pointer
				p := g.N(2) * 2
				v := g.N(len(ef) + 4)
				if g.P(1, 4) {
					v = g.N(65536)
				}
				ef[p], ef[p+1] = byte(v>>8), byte(v)
			case 1, 2, 3, 4: // a length field of a record
				if len(rg.recs) == 0 {
					continue
				}
				x := rg.recs[g.N(len(rg.recs))]
				v := g.N(len(rg.buf) + 8)
				switch g.N(9) {
				case 0:
					v = len(rg.buf)
				case 1:
					v = g.N(6)
				case 2:
					v = x.length() + 2*g.N(3) - 2
				case 3:
					v = 2 * len(rg.buf)
				case 4:
					v = g.N(65536)
				case 5:
					v = rg.recs[g.N(len(rg.recs))].length()
				}
				w := g.N(2) * 2
				ef[4+(x.pos+w)%len(rg.buf)], ef[4+(x.pos+w+1)%len(rg.buf)] = byte(v>>8), byte(v)
			case 5, 6: // any byte
				ef[g.N(len(ef))] = g.Byte()
			case 7: // shorter file
				ef = ef[:4+g.N(len(ef)-3)]
			case 8: // first record claims a predecessor: the chain closes into a cycle
				if n := len(rg.recs); n > 0 {
					x, v := rg.recs[0], len(rg.buf)-rg.total()+rg.recs[n-1].length()
					if g.Bool() {
						v = len(rg.buf)
					}
					ef[4+x.pos%len(rg.buf)], ef[4+(x.pos+1)%len(rg.buf)] = byte(v>>8), byte(v)
				}
			}
			if len(ef) < 4+len(rg.buf) {
				break
			}
		}
		r.damaged(g, ef)
	}
	r.Count("distinct_wrap_offsets", len(splits))
	r.Require("records_seen", 10000)
	r.Require("distinct_wrap_offsets", 40)
	r.Require("headers_wrapped", 20)
	r.Require("damaged_rejected", 200)
	r.Require("damaged_accepted", 200)
	r.Require("undecodable_records", 50)
	r.Require("days_of_1440_changes", 5)
}

// damaged judges what is reported of a store whose chain may be broken: nothing overlapping, nothing twice.
func (r *Run) damaged(g *G, ef []byte) {
	b, app := activityCard(g, ef)
	r.Case("damaged", b)
	r.Eval(true, ef)
	o := parse(cp(b))
	if o.panic != nil {
		r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("parse panicked: %v", o.panic), b)
		return
	}
	if o.err != nil {
		r.Count("damaged_rejected", 1)
		return
	}
	a := activityOf(o.f, app)
	if a == nil {
		r.Violate("store-missing", "accepted card without its activity store", b)
		return
	}
	r.Count("damaged_accepted", 1)
	buf := ef[4:]
	pos := be16(ef[2:4])
	if int64(a.GetOldestDayRecordIndex()) != int64(be16(ef)) || int64(a.GetNewestDayRecordIndex()) != int64(pos) {
		r.Violate("pointers", "pointers differ from the stored ones", b)
	}
	recs := a.GetDailyRecords()
	last := -1 // length the oldest reported record gives the one before it
	covered := make([]bool, len(buf))
	for i := len(recs) - 1; i >= 0; i-- {
		if len(buf) == 0 {
			r.Violate("record-from-nothing", "records reported of an empty store", b)
			return
		}
		pos = (pos%len(buf) + len(buf)) % len(buf)
		at := func(k int) byte { return buf[(pos+k)%len(buf)] }
		prev, length := int(at(0))<<8|int(at(1)), int(at(2))<<8|int(at(3))
		if length < 4 || length > len(buf) {
			r.Violate("impossible-record", fmt.Sprintf("record %d of %d: stored length %d in a ring of %d", i, len(recs), length, len(buf)), b)
			return
		}
		body := make([]byte, 0, length)
		for k := 4; k < length; k++ {
			body = append(body, at(k))
		}
		for k := 0; k < length; k++ {
			if p := (pos + k) % len(buf); covered[p] {
				r.Violate("overlap", fmt.Sprintf("reported daily record %d of %d (at %d, %d bytes) overlaps a newer one, ring of %d bytes", i, len(recs), pos, length, len(buf)), b)
				return
			} else {
				covered[p] = true
			}
		}
		r.Count("damaged_records_checked", 1)
		d := &differ{}
		d.compare("damaged", dayWant(prev, length, body), recs[i].ProtoReflect())
		for _, x := range d.out {
			r.Violate("field:"+pathKey(x.Path), fmt.Sprintf("damaged store: record %d of %d is not what is stored at %d: %s", i, len(recs), pos, x), b)
			return
		}
		if prev == 0 && i > 0 {
			r.Violate("beyond-oldest", fmt.Sprintf("record %d has no predecessor, yet %d older records are reported", i, i), b)
			return
		}
		pos -= prev
		last = prev
	}
	// a list ends where the chain is no longer sound, not before
	if n := len(buf); n > 0 && len(recs) > 0 && last >= 4 && last <= n {
		pos = (pos%n + n) % n
		next, free := int(buf[(pos+2)%n])<<8|int(buf[(pos+3)%n]), 0
		for _, c := range covered {
			if !c {
				free++
			}
		}
		if next == last && next <= free {
			r.Violate("cut-short", fmt.Sprintf("the store is accepted with %d records, and the sound record before them at %d is not one of them", len(recs), pos), b)
		}
		r.Count("shortened_lists_checked", 1)
	}
	if out := marshal(o.f); out.panic != nil {
		r.Violate("marshal-panic:"+panicSite(out.stack), fmt.Sprintf("marshal panicked: %v", out.panic), b)
	} else if out.err == nil && !bytes.Equal(out.b, b) {
		r.Violate("roundtrip", fmt.Sprintf("damaged store not reproduced, first difference at byte %d", firstDiff(b, out.b)), b)
	} else if out.err != nil {
		r.Violate("marshal-rejected:"+errKey(out.err), fmt.Sprintf("accepted store cannot be marshalled: %v", out.err), b)
	}
}
