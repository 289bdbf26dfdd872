package main

// Reference model of the cyclic driver-activity store: a write history over a ring of N bytes, following the
// regulation's value assignment (records are appended after the previous one, wrap at any byte, and before older data
// is replaced the oldest pointer moves on and the new oldest record's previous-length is reset to 0).

type ringRec struct {
	pos  int
	body []byte // date(4) counter(2) distance(2) changes(2 each)
}

func (r ringRec) length() int { return 4 + len(r.body) }

type ring struct {
	buf     []byte
	recs    []ringRec // oldest first
	wraps   int
	split   int // records broken over the end
	hdrwrap int // headers broken over the end
	dropped int
}

func newRing(n int, fill func(b []byte)) *ring {
	r := &ring{buf: make([]byte, n)}
	if fill != nil {
		fill(r.buf)
	}
	return r
}

func (r *ring) put(pos int, b []byte) {
	for i, c := range b {
		r.buf[(pos+i)%len(r.buf)] = c
	}
}

func (r *ring) total() int {
	t := 0
	for _, x := range r.recs {
		t += x.length()
	}
	return t
}

func (r *ring) dropOldest() {
	r.recs = r.recs[1:]
	r.dropped++
	if len(r.recs) > 0 {
		r.put(r.recs[0].pos, []byte{0, 0})
	}
}

func (r *ring) writeHeader(i int) {
	prev := 0
	if i > 0 {
		prev = r.recs[i-1].length()
	}
	l := r.recs[i].length()
	r.put(r.recs[i].pos, []byte{byte(prev >> 8), byte(prev), byte(l >> 8), byte(l)})
}

// add appends a day record.
func (r *ring) add(body []byte) bool {
	l := 4 + len(body)
	if l > len(r.buf) {
		return false
	}
	pos := 0
	if n := len(r.recs); n > 0 {
		last := r.recs[n-1]
		pos = (last.pos + last.length()) % len(r.buf)
	}
	for len(r.recs) > 0 && r.total()+l > len(r.buf) {
		if len(r.recs) == 1 {
			// the only record would be overwritten by its successor
			r.recs = nil
			r.dropped++
			break
		}
		r.dropOldest()
	}
	r.recs = append(r.recs, ringRec{pos, append([]byte{}, body...)})
	i := len(r.recs) - 1
	r.put((pos+4)%len(r.buf), body)
	r.writeHeader(i)
	r.note(i)
	return true
}

// extend grows the newest record by one activity change.
func (r *ring) extend(change []byte) bool {
	if len(r.recs) == 0 {
		return false
	}
	for r.total()+2 > len(r.buf) {
		if len(r.recs) == 1 {
			return false
		}
		r.dropOldest()
	}
	i := len(r.recs) - 1
	rec := &r.recs[i]
	end := rec.pos + rec.length()
	r.put(end%len(r.buf), change)
	rec.body = append(rec.body, change...)
	r.writeHeader(i)
	r.note(i)
	return true
}

func (r *ring) note(i int) {
	x := r.recs[i]
	if x.pos+x.length() > len(r.buf) {
		r.split++
		if x.pos+4 > len(r.buf) {
			r.hdrwrap++
		}
	}
	if r.dropped > 0 {
		r.wraps++
	}
}

func (r *ring) oldest() int {
	if len(r.recs) == 0 {
		return 0
	}
	return r.recs[0].pos
}
func (r *ring) newest() int {
	if len(r.recs) == 0 {
		return 0
	}
	return r.recs[len(r.recs)-1].pos
}

// ef is the elementary file: the two pointers and the ring.
func (r *ring) ef() []byte {
	o, n := r.oldest(), r.newest()
	return append([]byte{byte(o >> 8), byte(o), byte(n >> 8), byte(n)}, r.buf...)
}

var changeDec = activityChangeC()

func (r *ring) wantRecords() List {
	var l List
	for i, x := range r.recs {
		prev := 0
		if i > 0 {
			prev = r.recs[i-1].length()
		}
		l = append(l, dayObj(prev, x.length(), x.body))
	}
	return l
}

func dayObj(prev, length int, body []byte) *Obj {
	o := &Obj{m: map[string]any{"valid": true, "activity_previous_record_length": int64(prev), "activity_record_length": int64(length),
		"activity_record_date": decTime(body[:4]), "activity_daily_presence_counter": bcdC(2).dec(body[4:6]), "activity_day_distance": be(body[6:8])}}
	var ch List
	for off := 8; off+2 <= len(body); off += 2 {
		if body[off] == 0xFF && body[off+1] == 0xFF {
			continue
		}
		ch = append(ch, changeDec.dec(body[off:off+2]))
	}
	o.m["activity_change_info"] = ch
	hdr := []byte{byte(prev >> 8), byte(prev), byte(length >> 8), byte(length)}
	o.raw = append(hdr, body...)
	return o
}

// nextDay is mostly a later day; a clock set back can give the same or an earlier one.
func nextDay(g *G, day int) int {
	switch g.N(16) {
	case 0, 1:
		return day
	case 2:
		return day - g.N(40)
	}
	return day + 1 + g.N(3)
}

func genDayBody(g *G, day int, maxChanges int) []byte {
	b := be4(uint32(1577836800 + day*86400))
	if g.hostile() {
		b = genTime(g)
	}
	b = append(b, bcdC(2).gen(g)...)
	b = append(b, g.Bytes(2)...)
	n := g.N(maxChanges + 1)
	for i := 0; i < n; i++ {
		if i == 0 && g.P(1, 2) {
			b = append(b, pick(g.Rand, []byte{0, 0}, []byte{0x20, 0}, []byte{0, 0})...) // status at 00:00
			continue
		}
		if g.P(1, 12) {
			b = append(b, 0xFF, 0xFF) // an unused place, no change
			continue
		}
		b = append(b, changeDec.gen(g)...)
	}
	return b
}

// genRing runs a random write history.
func genRing(g *G, size, ops, maxChanges int) *ring {
	r := newRing(size, func(b []byte) {
		if g.P(1, 3) {
			copy(b, g.Bytes(len(b)))
		}
	})
	// storage is zero or stale bytes; an unwritten store has no records
	day := g.N(3000)
	for i := 0; i < ops; i++ {
		if len(r.recs) == 0 || g.P(2, 3) {
			day = nextDay(g, day)
			r.add(genDayBody(g, day, maxChanges))
		} else {
			r.extend(changeDec.gen(g))
		}
	}
	return r
}

func genActivityEF(g *G) []byte {
	if g.P(1, 12) {
		return make([]byte, 4+g.Range(16, 600)) // unused card
	}
	size := g.Range(40, 1200)
	if g.P(1, 8) {
		size = 5544
	}
	if g.P(1, 150) {
		size = pick(g.Rand, 13776, 32768, 65531)
	}
	r := genRing(g, size, 1+g.N(40), 1+g.N(20))
	return r.ef()
}

func be16(b []byte) int { return int(b[0])<<8 | int(b[1]) }

// decActivityEF walks a store that is known to be well formed.
func decActivityEF(b []byte) *Obj {
	o := &Obj{m: map[string]any{"oldest_day_record_index": int64(be16(b)), "newest_day_record_index": int64(be16(b[2:]))}, raw: cp(b[4:])}
	ringb := b[4:]
	at := func(p int) byte { return ringb[p%len(ringb)] }
	h := func(p int) int { return int(at(p))<<8 | int(at(p+1)) }
	var rev List
	pos := be16(b[2:])
	for {
		prev, l := h(pos), h(pos+2)
		if l == 0 {
			break
		}
		body := make([]byte, 0, l)
		for i := 4; i < l; i++ {
			body = append(body, at(pos+i))
		}
		rev = append(rev, dayObj(prev, l, body))
		if prev == 0 {
			break
		}
		pos = (pos - prev + len(ringb)) % len(ringb)
	}
	var l List
	for i := len(rev) - 1; i >= 0; i-- {
		l = append(l, rev[i])
	}
	o.m["daily_records"] = l
	return o
}
