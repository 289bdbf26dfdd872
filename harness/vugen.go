package main

// Vehicle unit downloads: a sequence of transfers, each 0x76, transfer type, value.

type Transfer struct {
	trep byte
	val  []byte
	sig  int  // length of the trailing signature
	obj  *Obj // expected message
}

func (t Transfer) bytes() []byte { return append([]byte{0x76, t.trep}, t.val...) }

func joinTransfers(ts []Transfer) []byte {
	var b []byte
	for _, t := range ts {
		b = append(b, t.bytes()...)
	}
	return b
}

func vuGenOf(trep byte) (gen, ver int) {
	switch trep {
	case 0x00, 0x31, 0x32, 0x33, 0x35:
		return 2, 2
	case 0x21, 0x22, 0x23, 0x25:
		return 2, 1
	case 0x24:
		return 2, 0
	case 0x01, 0x02, 0x03, 0x04, 0x05:
		return 1, 0
	}
	return 0, 0
}

// vuWant is the file value the transfers must parse to; ok is false when the combination must be rejected.
func vuWant(ts []Transfer) (want *Obj, ok bool) {
	g1, v1, v2 := false, false, false
	for _, t := range ts {
		g, v := vuGenOf(t.trep)
		switch {
		case g == 0:
			return nil, false
		case g == 1:
			g1 = true
		case v == 1:
			v1 = true
		case v == 2:
			v2 = true
		}
	}
	gen2 := v1 || v2
	for _, t := range ts {
		if t.trep == 0x24 {
			gen2 = true
		}
	}
	if g1 && gen2 || v1 && v2 || len(ts) == 0 {
		return nil, false
	}
	body := &Obj{m: map[string]any{}}
	add := func(f string, o *Obj) {
		l, _ := body.m[f].(List)
		body.m[f] = append(l, o)
	}
	for _, t := range ts {
		if t.trep == 0 {
			if body.m["download_interface_version"] != nil {
				return nil, false
			}
			body.m["download_interface_version"] = t.obj
			continue
		}
		switch t.trep & 0x0F {
		case 1:
			if body.m["overview"] != nil {
				return nil, false
			}
			body.m["overview"] = t.obj
		case 2:
			add("activities", t.obj)
		case 3:
			add("events_and_faults", t.obj)
		case 4:
			add("detailed_speed", t.obj)
		case 5:
			add("technical_data", t.obj)
		}
	}
	vu := &Obj{m: map[string]any{}}
	switch {
	case g1:
		vu.m["generation"] = Enum(1)
		vu.m["gen1"] = body
	case v2:
		vu.m["generation"] = Enum(2)
		vu.m["version"] = Enum(2)
		vu.m["gen2_v2"] = body
	default:
		vu.m["generation"] = Enum(2)
		vu.m["version"] = Enum(1)
		vu.m["gen2_v1"] = body
	}
	return &Obj{m: map[string]any{"type": Enum(1), "vehicle_unit": vu}}, true
}

// builder collects bytes and fields.
type vuBuild struct {
	b []byte
	o *Obj
	g *G
}

func (v *vuBuild) put(name string, c C) {
	b := c.gen(v.g)
	v.b = append(v.b, b...)
	if name != "" {
		v.o.m[name] = c.dec(b)
	}
}

func (v *vuBuild) list(name string, countBytes, n int, c C) {
	for i := countBytes - 1; i >= 0; i-- {
		v.b = append(v.b, byte(n>>(8*i)))
	}
	var l List
	var b []byte
	for i := 0; i < n; i++ {
		if i == 0 || !v.g.P(1, 10) { // two records may say the same
			b = c.gen(v.g)
		}
		v.b = append(v.b, b...)
		l = append(l, c.dec(b))
	}
	v.o.m[name] = l
}

func (v *vuBuild) finish(trep byte, sig int) Transfer {
	s := v.g.Bytes(sig)
	v.b = append(v.b, s...)
	v.o.raw = cp(v.b)
	if sig > 0 {
		v.o.m["signature"] = s
	}
	return Transfer{trep, v.b, sig, v.o}
}

func newVU(g *G) *vuBuild { return &vuBuild{g: g, o: &Obj{m: map[string]any{}}} }

func slotsF() F {
	dec := func(n byte) any {
		if n <= 4 {
			return Enum(2 + int32(n))
		}
		return Enum(1)
	}
	return F{1, func(g *G) []byte {
		if g.hostile() {
			return []byte{g.Byte()}
		}
		return []byte{byte(g.N(5))<<4 | byte(g.N(5))}
	}, func(b []byte, o *Obj) {
		o.m["driver_slot_card"] = dec(b[0] & 15)
		o.m["co_driver_slot_card"] = dec(b[0] >> 4)
	}}
}

func vuLockC() C {
	return S(false, f("lock_in_time", timeC()), f("lock_out_time", timeC()), f("company_name", strC(36)), f("company_address", strC(36)), f("company_card_number", fullCardNumberC()))
}
func vuControlC() C {
	return S(false, f("control_type", controlTypeC()), f("control_time", timeC()), f("control_card_number", fullCardNumberC()),
		f("download_period_begin_time", timeC()), f("download_period_end_time", timeC()))
}
func vuPlaceG1C() C {
	return S(false, F{18, fullCardNumberC().gen, func(b []byte, o *Obj) {}}, f("entry_time", timeC()),
		enumU("entry_type", "", "dd.v1.EntryTypeDailyWorkPeriod"), enumU("country", "", "dd.v1.NationNumeric"),
		f("region", bytesC(1)), f("odometer_km", odoC()))
}

// vuSmall picks a list length: mostly short, sometimes at the limit.
func vuLen(g *G, max int) int {
	switch g.N(30) {
	case 0:
		return max
	case 1:
		return g.N(max + 1)
	case 2, 3, 4:
		return 0
	}
	return g.N(5)
}

func vuOverviewG1(g *G) Transfer {
	v := newVU(g)
	v.put("member_state_certificate", bytesC(194))
	v.put("vu_certificate", bytesC(194))
	v.put("vehicle_identification_number", ia5C(17))
	v.put("vehicle_registration_with_nation", regC())
	v.put("current_date_time", timeC())
	v.put("downloadable_period", S(false, f("min_time", timeC()), f("max_time", timeC())))
	sl := slotsF()
	sb := sl.gen(g)
	v.b = append(v.b, sb...)
	sl.dec(sb, v.o)
	da := S(false, f("downloading_time", timeC()), f("full_card_number", fullCardNumberC()), f("company_or_workshop_name", strC(36)))
	db := da.gen(g)
	v.b = append(v.b, db...)
	v.o.m["download_activities"] = List{da.dec(db)}
	v.list("company_locks", 1, vuLen(g, 255), vuLockC())
	v.list("control_activities", 1, vuLen(g, 255), vuControlC())
	return v.finish(0x01, 128)
}

func vuActivitiesG1(g *G) Transfer {
	return vuActivitiesOf(g, vuLen(g, pick(g.Rand, 300, 300, 700)), vuLen(g, pick(g.Rand, 1440, 1440, 3000)), vuLen(g, 255), vuLen(g, 400))
}

// vuHuge is a transfer whose counters are at or near the most they can say; what follows the counted records is
// found only if their total size is not cut to the width of a counter.
func vuHuge(g *G, i int) Transfer {
	few := func() int { return 1 + g.N(3) }
	many := []int{65535, 32768, 32767, 40000 + g.N(20000), 13108 + g.N(50)}
	n := many[(i/4)%len(many)]
	switch i % 4 {
	case 0:
		return vuActivitiesOf(g, few(), n, few(), few())
	case 1:
		return vuActivitiesOf(g, few(), few(), few(), n)
	case 2:
		if i > 2 {
			n = 509 + g.N(3000)
		}
		return vuActivitiesOf(g, n, few(), few(), few())
	}
	v := newVU(g)
	v.b = append(v.b, byte(n>>8), byte(n))
	v.b = append(v.b, g.Bytes(n*64)...)
	v.o.opaque = true
	return v.finish(0x04, 128)
}

func vuActivitiesOf(g *G, iw, changes, places, conditions int) Transfer {
	v := newVU(g)
	v.put("date_of_day", timeC())
	v.put("odometer_midnight_km", odoC())
	v.list("card_iw_data", 2, iw, iwRecordC())
	v.list("activity_changes", 2, changes, activityAnyC())
	v.list("places", 1, places, vuPlaceG1C())
	v.list("specific_conditions", 2, conditions, specCondC())
	return v.finish(0x02, 128)
}

// activityAnyC also contains the all-zero change, which a vehicle unit record counts like any other.
func activityAnyC() C {
	c := activityChangeC()
	gen := c.gen
	c.gen = func(g *G) []byte {
		if g.P(1, 20) {
			return []byte{0, 0}
		}
		return gen(g)
	}
	return c
}

// vuOpaque is a Generation 1 transfer whose content is kept as bytes.
func vuOpaqueG1(g *G, trep byte) Transfer {
	v := newVU(g)
	part := func(n int) { v.b = append(v.b, g.Bytes(n)...) }
	count := func(nb, n, size int) {
		for i := nb - 1; i >= 0; i-- {
			v.b = append(v.b, byte(n>>(8*i)))
		}
		part(n * size)
	}
	switch trep {
	case 0x03:
		count(1, vuLen(g, 255), 82)
		count(1, vuLen(g, 255), 83)
		part(9)
		count(1, vuLen(g, 255), 31)
		count(1, vuLen(g, 255), 98)
	case 0x04:
		count(2, vuLen(g, 2000), 64)
	case 0x05:
		part(136)
		count(1, vuLen(g, 255), 167)
	}
	v.o.opaque = true
	return v.finish(trep, 128)
}

var vuArrays = map[byte]int{0x21: 11, 0x31: 11, 0x22: 8, 0x32: 10, 0x23: 6, 0x33: 6, 0x24: 2, 0x25: 8, 0x35: 8}

func vuArraysG2(g *G, trep byte) Transfer {
	v := newVU(g)
	n := vuArrays[trep]
	for i := 0; i < n; i++ {
		size, count := 1+g.N(60), g.N(5)
		switch g.N(14) {
		case 0:
			size, count = g.N(400), g.N(200)
		case 1:
			size, count = 0, g.N(65536)
		case 2:
			size, count = g.N(65536), 0
		case 3:
			size, count = g.N(300), 1
		}
		if i == n-1 {
			size, count = pick(g.Rand, 64, 96, 132), 1
		}
		v.b = append(v.b, g.Byte(), byte(size>>8), byte(size), byte(count>>8), byte(count))
		s := g.Bytes(size * count)
		v.b = append(v.b, s...)
		if i == n-1 {
			// the data model has a field for the signature; leaving it out is documented as unfinished
			v.o.m["signature"] = AnyOf{nil, s}
		}
	}
	v.o.raw, v.o.opaque = cp(v.b), true
	return Transfer{trep, v.b, 0, v.o}
}

func vuDIV(g *G) Transfer {
	b := pick(g.Rand, []byte{1, 1}, []byte{2, 2})
	return Transfer{0, cp(b), 0, &Obj{m: map[string]any{"generation": Enum(2), "version": Enum(2)}, raw: cp(b)}}
}

func genTransfer(g *G, trep byte) Transfer {
	switch trep {
	case 0x00:
		return vuDIV(g)
	case 0x01:
		return vuOverviewG1(g)
	case 0x02:
		return vuActivitiesG1(g)
	case 0x03, 0x04, 0x05:
		return vuOpaqueG1(g, trep)
	}
	return vuArraysG2(g, trep)
}

// again is a transfer like t: the same bytes, or the same day.
func again(g *G, t Transfer) Transfer {
	if t.trep != 0x02 || g.Bool() {
		return t
	}
	u := vuActivitiesG1(g)
	copy(u.val, t.val[:4])
	u.obj.m["date_of_day"] = t.obj.m["date_of_day"]
	u.obj.raw = cp(u.val)
	return u
}

// genVU makes a download of one kind (1: Gen1, 2: Gen2 V1, 3: Gen2 V2).
func genVU(g *G, kind int, max int) []Transfer {
	var ts []Transfer
	base := map[int]byte{1: 0x00, 2: 0x20, 3: 0x30}[kind]
	if kind == 3 && g.P(2, 3) {
		ts = append(ts, vuDIV(g))
	}
	if g.P(9, 10) {
		ts = append(ts, genTransfer(g, base|1))
	}
	n := g.N(max + 1)
	for i := 0; i < n; i++ {
		t := base | byte(2+g.N(4))
		if t == 0x34 {
			t = 0x24
		}
		ts = append(ts, genTransfer(g, t))
		if g.P(1, 8) {
			ts = append(ts, again(g, ts[len(ts)-1]))
		}
	}
	if g.P(1, 4) {
		out := make([]Transfer, len(ts))
		for i, j := range g.Perm(len(ts)) {
			out[i] = ts[j]
		}
		ts = out
	}
	if len(ts) == 0 {
		ts = append(ts, genTransfer(g, base|2))
	}
	if kind > 1 && max > 4 && g.P(1, 25) {
		// only the last transfers tell the version
		for i := pick(g.Rand, g.N(12), g.N(12), 12+g.N(60)); i >= 0; i-- {
			ts = append([]Transfer{genTransfer(g, 0x24)}, ts...)
		}
	}
	return ts
}
