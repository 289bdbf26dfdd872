package main

import (
	"bytes"
	"fmt"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { register("P23", runP23) }

// Damage must stay where it is: the same file is parsed before and after bytes of one part of it were altered, and
// everything reported outside of that part has to be the same.

// at finds the message below m named by a path of field names.
func at(m protoreflect.Message, path ...string) protoreflect.Message {
	for _, n := range path {
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(n))
		if fd == nil || !m.Has(fd) {
			return nil
		}
		m = m.Get(fd).Message()
	}
	return m
}

func clearField(m protoreflect.Message, name string) {
	if m == nil {
		return
	}
	m.Clear(m.Descriptor().Fields().ByName(protoreflect.Name(name)))
}

// without is a copy of a file with one field removed.
func without(f *File, field string, path ...string) *File {
	c := proto.Clone(f).(*File)
	m := c.ProtoReflect()
	if p := at(m, path...); p != nil {
		clearField(p, field)
		// an application that holds nothing else may be there or not
		if len(path) > 1 && proto.Size(p.Interface()) == 0 {
			clearField(at(m, path[:len(path)-1]...), path[len(path)-1])
		}
	}
	return c
}

// list returns a repeated message field.
func list(m protoreflect.Message, name string) protoreflect.List {
	if m == nil {
		return nil
	}
	return m.Get(m.Descriptor().Fields().ByName(protoreflect.Name(name))).List()
}

// sameButRecord says how two messages with a list of records differ in other places than record j.
func sameButRecord(a, b protoreflect.Message, field string, j int) string {
	la, lb := list(a, field), list(b, field)
	if la.Len() != lb.Len() {
		return fmt.Sprintf("%d records became %d", la.Len(), lb.Len())
	}
	for i := 0; i < la.Len(); i++ {
		if i != j && !proto.Equal(la.Get(i).Message().Interface(), lb.Get(i).Message().Interface()) {
			return fmt.Sprintf("record %d changed", i)
		}
	}
	ca, cb := proto.Clone(a.Interface()).ProtoReflect(), proto.Clone(b.Interface()).ProtoReflect()
	for _, m := range []protoreflect.Message{ca, cb} {
		clearField(m, field)
		if m.Descriptor().Fields().ByName("raw_data") != nil {
			clearField(m, "raw_data")
		}
	}
	if !proto.Equal(ca.Interface(), cb.Interface()) {
		return "something else than the records changed"
	}
	return ""
}

// damage alters some bytes of b and reports whether any changed.
func damage(g *G, b []byte) bool {
	if len(b) == 0 {
		return false
	}
	o := cp(b)
	i := g.N(len(b))
	switch g.N(6) {
	case 0, 1:
		b[i] ^= byte(1 + g.N(255))
	case 2:
		n := min(1+g.N(8), len(b)-i)
		copy(b[i:i+n], g.Bytes(n))
	case 3: // an erased or never written part
		n := min(1+g.N(40), len(b)-i)
		copy(b[i:i+n], bytes.Repeat([]byte{pick(g.Rand, byte(0), 0xFF)}, n))
	case 4:
		copy(b, g.Bytes(len(b)))
	case 5:
		copy(b, bytes.Repeat([]byte{pick(g.Rand, byte(0), 0xFF, 0x20)}, len(b)))
	}
	return !bytes.Equal(o, b)
}

// damaged parses a damaged file; nil when it is refused.
func (r *Run) damagedFile(label string, b []byte) *File {
	o := parse(cp(b))
	r.Count("damaged files parsed", 1)
	switch {
	case o.panic != nil:
		r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("%s: parse panicked: %v", label, o.panic), b)
		return nil
	case o.err != nil:
		r.Count("refused: "+label, 1)
		return nil
	}
	r.Count("accepted: "+label, 1)
	return o.f
}

func (r *Run) localCard(g *G) {
	c := genCard(g, cardOpts{gen1: g.P(4, 5), gen2: g.P(3, 4), pInclude: pick(g.Rand, 100, 70, 40), shuffle: g.P(1, 3)})
	if len(c.efs) < 2 {
		return
	}
	in := c.bytes()
	f0 := r.parseOK("card", cp(in))
	if f0 == nil {
		return
	}
	for k := 0; k < 12; k++ {
		i := 1 + g.N(len(c.efs)-1)
		e := c.efs[i]
		path := []string{"driver_card"}
		switch e.gen {
		case 1:
			path = append(path, "tachograph")
		case 2:
			path = append(path, "tachograph_g2")
		}
		d := &Card{efs: append([]CardEF{}, c.efs...)}
		x := e
		kind, rec := "file", -1
		switch g.N(9) {
		case 0:
			kind = "file removed"
		case 1:
			if len(e.sig) == 0 {
				continue
			}
			kind = "signature"
			x.sig = cp(e.sig)
			damage(g, x.sig)
		case 2: // another length
			kind = "file resized"
			if g.Bool() {
				x.data = cp(e.data[:g.N(len(e.data)+1)])
			} else if len(e.data) < 60000 {
				x.data = append(cp(e.data), g.Bytes(1+g.N(40))...)
			}
		case 3, 4, 5, 6:
			if e.ef.unit == 0 || len(e.data) < e.ef.lead+2*e.ef.unit {
				continue
			}
			kind = "record"
			rec = g.N((len(e.data) - e.ef.lead) / e.ef.unit)
			x.data = cp(e.data)
			off := e.ef.lead + rec*e.ef.unit
			damage(g, x.data[off:off+e.ef.unit])
		default:
			x.data = cp(e.data)
			if e.ef.unit > 0 && e.ef.lead > 0 && len(x.data) >= e.ef.lead && g.Bool() {
				copy(x.data, g.Bytes(e.ef.lead)) // only the pointer
			} else {
				damage(g, x.data)
			}
		}
		d.efs[i] = x
		if kind == "file removed" {
			d.efs = append(d.efs[:i], d.efs[i+1:]...)
		}
		b := d.bytes()
		r.Case("damaged card: "+kind, b)
		r.Eval(!bytes.Equal(b, in), b)
		r.Count("damaged "+e.ef.name, 1)
		f1 := r.damagedFile("card, "+kind, b)
		if f1 == nil {
			continue
		}
		where := fmt.Sprintf("%s of generation %d, %s altered", e.ef.name, e.gen, kind)
		a0, a1 := without(f0, e.ef.field, path...), without(f1, e.ef.field, path...)
		if !proto.Equal(a0, a1) {
			r.Violate("other-file:"+kind, where+": another part of the card changed: "+firstChange(a0, a1), b)
			continue
		}
		m0, m1 := at(f0.ProtoReflect(), append(path, e.ef.field)...), at(f1.ProtoReflect(), append(path, e.ef.field)...)
		if m0 == nil {
			continue
		}
		switch {
		case kind == "file removed":
			if m1 != nil {
				r.Violate("removed", where+": it is still reported", b)
			}
		case kind == "signature":
			if m1 == nil {
				r.Violate("signature", where+": the file is no longer reported", b)
				break
			}
			s0, s1 := proto.Clone(m0.Interface()).ProtoReflect(), proto.Clone(m1.Interface()).ProtoReflect()
			clearField(s0, "signature")
			clearField(s1, "signature")
			if !proto.Equal(s0.Interface(), s1.Interface()) {
				r.Violate("signature", where+": its content changed", b)
			}
		case m1 == nil:
		default:
			if fd := m0.Descriptor().Fields().ByName("signature"); fd != nil && !bytes.Equal(m0.Get(fd).Bytes(), m1.Get(fd).Bytes()) {
				r.Violate("data-signature", where+": its signature changed", b)
			}
			if kind == "record" {
				if s := sameButRecord(m0, m1, recordField(m0), rec); s != "" {
					r.Violate("other-record:"+e.ef.name, fmt.Sprintf("%s (record %d): %s", where, rec, s), b)
				}
				r.Count("records compared", list(m0, recordField(m0)).Len())
			}
		}
		r.Count("files compared", len(c.efs)-1)
	}
}

// recordField is the only repeated message field of a message.
func recordField(m protoreflect.Message) string {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		if fds.Get(i).IsList() && fds.Get(i).Message() != nil {
			return string(fds.Get(i).Name())
		}
	}
	return ""
}

var vuField = map[byte]string{1: "overview", 2: "activities", 3: "events_and_faults", 4: "detailed_speed", 5: "technical_data"}

// region is a list of records inside a first generation transfer.
type region struct {
	field        string
	off, n, unit int
}

// regionsG1 finds the lists of a well-formed transfer.
func regionsG1(t Transfer) []region {
	var out []region
	v, off := t.val, 0
	add := func(field string, counter, unit int) {
		n := int(be(v[off : off+counter]))
		out = append(out, region{field, off + counter, n, unit})
		off += counter + n*unit
	}
	switch t.trep {
	case 0x01:
		off = 388 + 17 + 15 + 4 + 8 + 1 + 58
		add("company_locks", 1, 98)
		add("control_activities", 1, 31)
	case 0x02:
		off = 7
		add("card_iw_data", 2, 129)
		add("activity_changes", 2, 2)
		add("places", 1, 28)
		add("specific_conditions", 2, 5)
	}
	if out != nil && off+128 != len(v) {
		panic("transfer layout")
	}
	return out
}

func (r *Run) localVU(g *G) {
	kind := 1 + g.N(3)
	if g.Bool() {
		kind = 1
	}
	ts := genVU(g, kind, 5)
	if len(ts) == 0 || ts[0].trep == 0 && len(ts) == 1 {
		return
	}
	in := joinTransfers(ts)
	want, ok := vuWant(ts)
	if !ok {
		return
	}
	vu := want.m["vehicle_unit"].(*Obj)
	body := ""
	for _, n := range []string{"gen1", "gen2_v1", "gen2_v2"} {
		if vu.m[n] != nil {
			body = n
		}
	}
	f0 := r.parseOK("vehicle unit", cp(in))
	if f0 == nil {
		return
	}
	for k := 0; k < 10; k++ {
		i := g.N(len(ts))
		t := ts[i]
		if t.trep == 0 {
			continue
		}
		field := vuField[t.trep&15]
		idx := 0
		for _, o := range ts[:i] {
			if o.trep&15 == t.trep&15 && o.trep != 0 {
				idx++
			}
		}
		d := append([]Transfer{}, ts...)
		v := cp(t.val)
		part, rec, lf := "", -1, ""
		regs := regionsG1(t)
		switch {
		case t.trep >= 0x20: // the content of an array
			off := 0
			for a := 0; a < vuArrays[t.trep]; a++ {
				size := be16(v[off+1:]) * be16(v[off+3:])
				if size > 0 && (part == "" || g.P(1, 3)) {
					part = "record array"
					o := cp(v)
					damage(g, o[off+5:off+5+size])
					v = o
				}
				off += 5 + size
			}
			if part == "" {
				continue
			}
		case g.P(1, 5) || len(regs) == 0:
			part = "signature"
			damage(g, v[len(v)-128:])
		default:
			q := regs[g.N(len(regs))]
			if q.n == 0 {
				continue
			}
			part, lf, rec = "record", q.field, g.N(q.n)
			off := q.off + rec*q.unit
			damage(g, v[off:off+q.unit])
		}
		d[i].val = v
		b := joinTransfers(d)
		r.Case("damaged download: "+part, b)
		r.Eval(!bytes.Equal(b, in), b)
		f1 := r.damagedFile("download, "+part, b)
		if f1 == nil {
			continue
		}
		where := fmt.Sprintf("transfer %d (%02X), %s altered", i, t.trep, part)
		a0, a1 := proto.Clone(f0).(*File), proto.Clone(f1).(*File)
		// take the transfer out on both sides
		var m [2]protoreflect.Message
		for s, a := range []*File{a0, a1} {
			p := at(a.ProtoReflect(), "vehicle_unit", body)
			if p == nil {
				break
			}
			if field == "overview" {
				m[s] = at(p, field)
				if m[s] != nil {
					m[s] = proto.Clone(m[s].Interface()).ProtoReflect()
				}
				clearField(p, field)
				continue
			}
			l := list(p, field)
			if idx < l.Len() {
				m[s] = proto.Clone(l.Get(idx).Message().Interface()).ProtoReflect()
				proto.Reset(l.Get(idx).Message().Interface())
			}
		}
		if m[0] == nil || m[1] == nil {
			r.Violate("transfer-lost", where+": it is no longer reported", b)
			continue
		}
		if !proto.Equal(a0, a1) {
			r.Violate("other-transfer", where+": another part of the download changed: "+firstChange(a0, a1), b)
			continue
		}
		r.Count("transfers compared", len(ts)-1)
		switch part {
		case "signature":
			for _, x := range m {
				clearField(x, "signature")
				clearField(x, "raw_data")
			}
			if !proto.Equal(m[0].Interface(), m[1].Interface()) {
				r.Violate("vu-signature", where+": its content changed", b)
			}
		case "record":
			if s := sameButRecord(m[0], m[1], lf, rec); s != "" {
				r.Violate("vu-record:"+lf, fmt.Sprintf("%s (record %d of %s): %s", where, rec, lf, s), b)
			}
			r.Count("records compared", list(m[0], lf).Len())
		}
	}
}

func runP23(r *Run) {
	r.rule = "one case = one well-formed driver card or vehicle unit download in which one part (a file, a record of a file, a signature, a transfer, a record of a transfer) was altered, removed or resized; everything reported outside of the part is compared with the unaltered file; non-trivial = bytes did change; distinct by bytes"
	r.assume = []string{"counters and pointers that say where other records are belong to the list as a whole", "refusing a damaged file as a whole is allowed"}
	g := &G{Rand: NewRand(r.Seed, "P23")}
	n := r.N(1500, 15000)
	for i := 0; i < n; i++ {
		g.Hostile = g.P(1, 4)
		r.localCard(g)
		g.Hostile = g.P(1, 4)
		r.localVU(g)
	}
	for _, k := range []string{"card, file", "card, file removed", "card, file resized", "card, record", "card, signature", "download, record array", "download, signature", "download, record"} {
		r.Require("accepted: "+k, n/10)
	}
	for _, e := range outOrder[1:] {
		r.Require("damaged "+e.name, n/100)
	}
	r.Require("files compared", 20*n)
	r.Require("records compared", 20*n)
	r.Require("transfers compared", 2*n)
}
