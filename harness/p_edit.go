package main

import (
	"fmt"
	"sort"
	"strings"

	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { register("P11", runP11) }

// editSite is one editable field of one message of a parsed file.
type editSite struct {
	path string
	key  string // message type and field
	m    protoreflect.Message
	fd   protoreflect.FieldDescriptor
}

// fields that describe the form of a file rather than carry a value of it
var notEditable = map[string]bool{
	"raw_data": true, "valid": true, "card_type": true, "length": true,
	"oldest_day_record_index": true, "newest_day_record_index": true,
	"activity_record_length": true, "activity_previous_record_length": true,
}

// times that tell a record from an empty one
var emptyMark = map[protoreflect.Name]bool{"event_begin_time": true, "fault_begin_time": true, "control_time": true}

func isText(d protoreflect.MessageDescriptor) bool {
	n := d.Name()
	return n == "StringValue" || n == "Ia5StringValue"
}

// editSites lists what can be edited in a message, in a fixed order.
func editSites(m protoreflect.Message, path string, out []editSite) []editSite {
	name := shortName(m)
	if strings.HasPrefix(name, "security.") {
		return out
	}
	if fd := m.Descriptor().Fields().ByName("valid"); fd != nil && m.Has(fd) && !m.Get(fd).Bool() {
		return out // kept as bytes only
	}
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		fn := string(fd.Name())
		if !m.Has(fd) || notEditable[fn] || strings.HasPrefix(fn, "unrecognized_") || fd.IsMap() {
			continue
		}
		p := path + "." + fn
		switch {
		case fd.IsList():
			if fd.Message() != nil {
				for j := 0; j < m.Get(fd).List().Len(); j++ {
					out = editSites(m.Get(fd).List().Get(j).Message(), fmt.Sprintf("%s[%d]", p, j), out)
				}
			}
		case fd.Message() == nil, isText(fd.Message()), fd.Message().Name() == "Timestamp", fd.Message().Name() == "Date", fd.Message().Name() == "MonthYear":
			k := name + "." + fn
			if fd.Message() != nil && isText(fd.Message()) {
				// a field of a given width takes text of that width
				if l := fd.Message().Fields().ByName("length"); l != nil {
					k += fmt.Sprintf("/%d", m.Get(fd).Message().Get(l).Int())
				}
			}
			out = append(out, editSite{p, k, m, fd})
			if fd.Message() != nil && fd.Message().Name() == "Date" || fd.Message() != nil && fd.Message().Name() == "MonthYear" {
				out = editSites(m.Get(fd).Message(), p, out)
			}
		default:
			out = editSites(m.Get(fd).Message(), p, out)
		}
	}
	return out
}

type editPool map[string][]protoreflect.Value

// collect remembers the values of a parsed file, by field.
func (ep editPool) collect(f *File) {
	for _, s := range editSites(f.GetDriverCard().ProtoReflect(), "", nil) {
		v := s.m.Get(s.fd)
		if fd := s.fd; fd.Enum() != nil {
			n := string(fd.Enum().Values().ByNumber(v.Enum()).Name())
			if strings.HasSuffix(n, "_UNRECOGNIZED") || strings.HasSuffix(n, "_UNSPECIFIED") {
				continue
			}
		}
		if s.fd.Message() != nil {
			c := proto.Clone(v.Message().Interface())
			if isText(s.fd.Message()) {
				stripRaw(c.ProtoReflect())
			}
			if s.fd.Message().Name() == "Date" || s.fd.Message().Name() == "MonthYear" {
				stripRaw(c.ProtoReflect())
			}
			if strings.HasSuffix(s.key, "_index/1") && !isIndexText(c.ProtoReflect()) {
				continue // a card index is a digit or a capital letter
			}
			v = protoreflect.ValueOfMessage(c.ProtoReflect())
		}
		ep[s.key] = append(ep[s.key], v)
	}
}

func isIndexText(m protoreflect.Message) bool {
	s := m.Get(m.Descriptor().Fields().ByName("value")).String()
	return len(s) == 1 && (s[0] >= '0' && s[0] <= '9' || s[0] >= 'A' && s[0] <= 'Z')
}

func valueText(v protoreflect.Value, fd protoreflect.FieldDescriptor) string {
	s := ""
	if fd.Message() != nil {
		s = compact(v.Message().Interface())
	} else {
		s = v.String()
	}
	if len(s) > 80 {
		s = s[:80] + "…"
	}
	return s
}

// edit replaces the value of a site by another value of the pool; it reports what it did.
func (ep editPool) edit(g *G, s editSite) (string, bool) {
	vs := ep[s.key]
	if len(vs) == 0 {
		return "", false
	}
	old := s.m.Get(s.fd)
	if n := s.m.Descriptor().Name(); n == "Date" || n == "MonthYear" {
		for i := 0; i < s.m.Descriptor().Fields().Len(); i++ {
			if f := s.m.Descriptor().Fields().Get(i); f.Name() != "raw_data" && !s.m.Has(f) {
				return "", false // an earlier edit took the date away: part of a date is none
			}
		}
	}
	var v protoreflect.Value
	for try := 0; ; try++ {
		v = vs[g.N(len(vs))]
		if fd := s.fd; fd.Kind() == protoreflect.BoolKind {
			v = protoreflect.ValueOfBool(!old.Bool())
		}
		if !sameValue(old, v, s.fd) {
			break
		}
		if try > 8 {
			return "", false
		}
	}
	was := valueText(old, s.fd)
	if s.fd.Message() == nil {
		s.m.Set(s.fd, v)
		if s.fd.Enum() != nil {
			if u := s.m.Descriptor().Fields().ByName(protoreflect.Name("unrecognized_" + string(s.fd.Name()))); u != nil {
				s.m.Clear(u)
			}
		}
		return fmt.Sprintf("%s: %s -> %s", s.path, was, valueText(v, s.fd)), true
	}
	switch s.fd.Message().Name() {
	case "Date", "MonthYear":
		// the fields of the date change, whatever bytes it was parsed from stay with it
		d := s.m.Get(s.fd).Message()
		n := v.Message()
		for i := 0; i < n.Descriptor().Fields().Len(); i++ {
			f := n.Descriptor().Fields().Get(i)
			if f.Name() == "raw_data" {
				continue
			}
			if n.Has(f) {
				d.Set(f, n.Get(f))
			} else {
				d.Clear(f)
			}
		}
	default:
		s.m.Set(s.fd, protoreflect.ValueOfMessage(proto.Clone(v.Message().Interface()).ProtoReflect()))
	}
	return fmt.Sprintf("%s: %s -> %s", s.path, was, valueText(v, s.fd)), true
}

func sameValue(a, b protoreflect.Value, fd protoreflect.FieldDescriptor) bool {
	if fd.Message() == nil {
		return a.Equal(b)
	}
	return proto.Equal(stripped(a.Message().Interface()), stripped(b.Message().Interface()))
}

func runP11(r *Run) {
	r.rule = "one case = one parsed driver card with one to six fields edited to values found in the same field of other cards, marshalled and parsed again; non-trivial = at least one field changed value; distinct by card bytes and edits"
	pg := &G{Rand: NewRand(r.Seed, "P11/pool")}
	pool := editPool{}
	for i := 0; i < r.N(60, 150); i++ {
		if f := parse(genCard(pg, cardOpts{gen1: true, gen2: true, pInclude: 100}).bytes()).f; f != nil {
			pool.collect(f)
		}
	}
	r.Count("fields in pool", len(pool))
	g := &G{Rand: NewRand(r.Seed, "P11")}
	n := r.N(500, 5000)
	edited := map[string]int{}
	for i := 0; i < n; i++ {
		g.Hostile = g.P(1, 3)
		c := genCard(g, cardOpts{gen1: g.P(5, 6), gen2: g.P(4, 5), pInclude: pick(g.Rand, 100, 60, 30)})
		b := c.bytes()
		r.Case("card", b)
		f := parse(cp(b)).f
		if f == nil {
			r.Count("unparsed", 1)
			continue
		}
		// a value that stands in two places is edited in both
		owner := map[any]string{}
		walkMessages(f.ProtoReflect(), "", func(path string, m protoreflect.Message) {
			if other, shared := owner[m.Interface()]; shared {
				r.Violate("shared:"+pathKey(path), fmt.Sprintf("%s and %s are one value: an edit of one changes the other", other, path), b)
			}
			owner[m.Interface()] = path
			r.Count("values found to be their own", 1)
		})
		// the unedited card has to survive, else nothing can be said of an edited one
		if o := marshal(f); o.err != nil || o.panic != nil {
			r.Count("unmarshallable", 1)
			continue
		}
		base := editSites(f.GetDriverCard().ProtoReflect(), "", nil)
		byKey := map[string][]int{}
		for j, s := range base {
			byKey[s.key] = append(byKey[s.key], j)
		}
		keys := sortedKeys(byKey)
		if len(keys) == 0 {
			continue
		}
		for rep := 0; rep < 8; rep++ {
			e := proto.Clone(f).(*File)
			sites := editSites(e.GetDriverCard().ProtoReflect(), "", nil)
			var did []string
			var doneKeys []string
			for k := 1 + g.N(6)*g.N(2); k > 0; k-- {
				// fields edited least so far come first
				key := keys[g.N(len(keys))]
				for t := 0; t < 4; t++ {
					if o := keys[g.N(len(keys))]; edited[o] < edited[key] {
						key = o
					}
				}
				s := sites[byKey[key][g.N(len(byKey[key]))]]
				if d, ok := pool.edit(g, s); ok {
					did = append(did, d)
					doneKeys = append(doneKeys, s.key)
					edited[s.key]++
				}
			}
			if len(did) == 0 {
				continue
			}
			r.Count("edits", len(did))
			r.judgeEdit(e, b, did, doneKeys)
		}
	}
	r.editRecords()
	r.editLists(edited)
	for k, v := range edited {
		r.Count("edit."+k, v)
	}
	never := []string{}
	for k := range pool {
		if edited[k] == 0 {
			never = append(never, k)
		}
	}
	sort.Strings(never)
	r.Sample(map[string]any{"fields never edited": never})
	r.Require("edits", n)
	r.Require("files compared", n)
}

// listSite is one list of records.
type listSite struct {
	path string
	m    protoreflect.Message
	fd   protoreflect.FieldDescriptor
}

func listSites(m protoreflect.Message, path string, out []listSite) []listSite {
	if strings.HasPrefix(shortName(m), "security.") {
		return out
	}
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if fd.Message() == nil || fd.IsMap() || !m.Has(fd) {
			continue
		}
		p := path + "." + string(fd.Name())
		if !fd.IsList() {
			out = listSites(m.Get(fd).Message(), p, out)
			continue
		}
		l := m.Get(fd).List()
		if l.Len() > 0 {
			out = append(out, listSite{p, m, fd})
		}
		for j := 0; j < l.Len(); j++ {
			out = listSites(l.Get(j).Message(), p, out)
		}
	}
	return out
}

// resizeStores prepares activity stores for days that change their size: the preserved bytes go.
func resizeStores(f *File) {
	for _, a := range []*cardv1.DriverActivityData{f.GetDriverCard().GetTachograph().GetDriverActivityData(), f.GetDriverCard().GetTachographG2().GetDriverActivityData()} {
		if a == nil {
			continue
		}
		a.ClearRawData()
	}
}

// layoutless removes what describes the place of the days in their store; it reports whether the lengths match the days.
func layoutless(m proto.Message) (c proto.Message, bad string, bodies []string) {
	c = proto.Clone(m)
	walkMessages(c.ProtoReflect(), "", func(p string, m protoreflect.Message) {
		switch a := m.Interface().(type) {
		case *cardv1.DriverActivityData:
			prev, at := int32(0), int32(0)
			for i, d := range a.GetDailyRecords() {
				if d.GetValid() {
					// (a day that lost changes may keep its size)
					if l := int32(12 + 2*len(d.GetActivityChangeInfo())); d.GetActivityRecordLength() < l {
						bad = fmt.Sprintf("day %d of %d changes has a length of %d", i, len(d.GetActivityChangeInfo()), d.GetActivityRecordLength())
					}
					if d.GetActivityPreviousRecordLength() != prev {
						bad = fmt.Sprintf("day %d follows a day of %d bytes, %d it says", i, prev, d.GetActivityPreviousRecordLength())
					}
				}
				if i > 0 {
					at += prev
				}
				prev = d.GetActivityRecordLength()
				if !d.GetValid() {
					prev = int32(len(d.GetRawData()))
					bodies = append(bodies, hexs(d.GetRawData()[2:]))
				}
				d.ClearActivityRecordLength()
				d.ClearActivityPreviousRecordLength()
			}
			if bad == "" && len(a.GetDailyRecords()) > 0 && (a.GetOldestDayRecordIndex() != 0 || a.GetNewestDayRecordIndex() != at) {
				bad = fmt.Sprintf("the pointers say %d and %d, the last day is at %d", a.GetOldestDayRecordIndex(), a.GetNewestDayRecordIndex(), at)
			}
			a.ClearOldestDayRecordIndex()
			a.ClearNewestDayRecordIndex()
			a.ClearRawData()
		}
	})
	return c, bad, bodies
}

// editLists adds, removes, repeats and reorders records and takes values away.
func (r *Run) editLists(edited map[string]int) {
	g := &G{Rand: NewRand(r.Seed, "P11/lists")}
	for i, n := 0, r.N(400, 4000); i < n; i++ {
		g.Hostile = g.P(1, 3)
		c := genCard(g, cardOpts{gen1: g.P(5, 6), gen2: g.P(4, 5), pInclude: pick(g.Rand, 100, 60, 30)})
		b := c.bytes()
		if g.P(1, 4) { // a store with days that cannot be decoded
			rg := newRing(g.Range(100, 900), nil)
			for d, k := g.N(3000), 2+g.N(20); k > 0; k-- {
				d = nextDay(g, d)
				body := genDayBody(g, d, 8)
				if g.P(1, 3) {
					if body[4] = 0xAF; g.Bool() {
						body = append(body, 0x5A)
					}
				}
				rg.add(body)
			}
			b, _ = activityCard(g, rg.ef())
			r.Count("stores with undecodable days", 1)
		}
		r.Case("card", b)
		f := parse(cp(b)).f
		if f == nil {
			continue
		}
		if o := marshal(f); o.err != nil || o.panic != nil {
			continue
		}
		for rep := 0; rep < 6; rep++ {
			e := proto.Clone(f).(*File)
			resized := false
			if g.Bool() {
				resizeStores(e)
				resized = true
			}
			var did, keys []string
			for k := 1 + g.N(4)*g.N(2); k > 0; k-- {
				if g.P(1, 4) { // take a value away
					sites := editSites(e.GetDriverCard().ProtoReflect(), "", nil)
					s := sites[g.N(len(sites))]
					for t := 0; t < 6; t++ {
						if o := sites[g.N(len(sites))]; edited["clear."+o.key] < edited["clear."+s.key] {
							s = o
						}
					}
					if s.fd.Message() != nil && s.fd.Message().Name() != "Timestamp" || s.fd.Enum() != nil || s.fd.Kind() == protoreflect.BytesKind || emptyMark[s.fd.Name()] || strings.HasPrefix(s.key, "dd.v1.Date.") || strings.HasPrefix(s.key, "dd.v1.MonthYear.") {
						continue
					}
					did = append(did, s.path+" cleared")
					keys = append(keys, "clear."+s.key)
					s.m.Clear(s.fd)
				} else {
					ls := listSites(e.GetDriverCard().ProtoReflect(), "", nil)
					if len(ls) == 0 {
						continue
					}
					l := ls[g.N(len(ls))]
					if d, ok := l.m.Interface().(*cardv1.DriverActivityData_DailyRecord); ok && !d.GetValid() {
						continue
					}
					op, ok := editList(g, l, resized)
					if !ok {
						continue
					}
					did = append(did, l.path+" "+op)
					keys = append(keys, shortName(l.m)+"."+string(l.fd.Name())+":"+op[:strings.IndexByte(op, ' ')])
				}
				edited[keys[len(keys)-1]]++
			}
			if len(did) == 0 {
				continue
			}
			r.Count("list edits", len(did))
			if resized {
				r.Count("rebuilt stores", 1)
			}
			what := strings.Join(did, "; ")
			if resized {
				what += "; activity stores without preserved bytes"
			}
			r.Eval(true, b, []byte(what))
			key := "several"
			if len(keys) == 1 {
				key = keys[0]
			}
			want := proto.Message(e)
			o := marshal(e)
			switch {
			case o.panic != nil:
				r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("marshalling panicked after edit %s: %v", what, o.panic), b)
				continue
			case o.err != nil:
				r.Violate("unwritable:"+key, fmt.Sprintf("after edit %s: %v", what, o.err), b)
				continue
			}
			p := parse(cp(o.b))
			if p.f == nil {
				r.Violate("unreadable:"+key, fmt.Sprintf("after edit %s the marshalled card is not parsed: %v", what, p.err), b)
				continue
			}
			r.Count("files compared", 1)
			got := proto.Message(p.f)
			if resized {
				var bad string
				var have, kept []string
				if got, bad, have = layoutless(got); bad != "" {
					r.Violate("layout:"+key, fmt.Sprintf("after edit %s the written store is not sound: %s", what, bad), b)
					continue
				}
				if want, _, kept = layoutless(want); strings.Join(have, " ") != strings.Join(kept, " ") {
					r.Violate("undecoded:"+key, fmt.Sprintf("after edit %s undecoded days read otherwise: %.100s, %.100s", what, have, kept), b)
				}
			}
			got, want = zeroless(stripped(got)), zeroless(stripped(want))
			if !proto.Equal(got, want) {
				path, text := firstDifference(want.ProtoReflect(), got.ProtoReflect())
				r.Violate("differs:"+key+":"+pathKey(path), fmt.Sprintf("after edit %s the card reads otherwise: %s", what, text), b)
			}
		}
	}
	r.Require("list edits", 1000)
	r.Require("rebuilt stores", 200)
}

// editList changes a list; records of a store of a fixed size change places only.
func editList(g *G, l listSite, resized bool) (string, bool) {
	list := l.m.Mutable(l.fd).List()
	n := list.Len()
	fixed := false
	switch l.m.Interface().(type) {
	case *cardv1.DriverActivityData, *cardv1.DriverActivityData_DailyRecord:
		fixed = !resized
	}
	vals := make([]protoreflect.Value, n)
	for i := range vals {
		vals[i] = protoreflect.ValueOfMessage(proto.Clone(list.Get(i).Message().Interface()).ProtoReflect())
	}
	op := ""
	i, j := g.N(n), g.N(n)
	switch k := g.N(4); {
	case fixed && l.fd.Name() == "daily_records":
		return "", false
	case k == 0 && n > 1 && i != j:
		if sameValue(vals[i], vals[j], l.fd) {
			return "", false
		}
		vals[i], vals[j] = vals[j], vals[i]
		op = fmt.Sprintf("swap of %d and %d", i, j)
	case fixed:
		return "", false
	case k == 1 && n > 1:
		vals = append(vals[:i], vals[i+1:]...)
		op = fmt.Sprintf("removal of %d", i)
	case k == 2:
		vals = append(vals, vals[i])
		op = fmt.Sprintf("repetition of %d at the end", i)
	case k == 3:
		vals = append(vals[:i:i], append([]protoreflect.Value{vals[j]}, vals[i:]...)...)
		op = fmt.Sprintf("insertion of a copy of %d at %d", j, i)
	default:
		return "", false
	}
	nl := l.m.NewField(l.fd).List()
	for _, v := range vals {
		nl.Append(protoreflect.ValueOfMessage(proto.Clone(v.Message().Interface()).ProtoReflect()))
	}
	l.m.Set(l.fd, protoreflect.ValueOfList(nl))
	return op, true
}

func (r *Run) judgeEdit(e *File, b []byte, did, keys []string) {
	what := strings.Join(did, "; ")
	r.Eval(true, b, []byte(what))
	key := strings.Join(keys, "+")
	if len(keys) > 1 {
		key = "several"
	}
	want := zeroless(stripped(e))
	o := marshal(e)
	if o.panic != nil {
		r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("marshalling panicked after edit %s: %v", what, o.panic), b)
		return
	}
	if o.err != nil {
		r.Violate("unwritable:"+key, fmt.Sprintf("after edit %s: %v", what, o.err), b)
		return
	}
	p := parse(cp(o.b))
	if p.f == nil {
		r.Violate("unreadable:"+key, fmt.Sprintf("after edit %s the marshalled card is not parsed: %v", what, p.err), b)
		return
	}
	r.Count("files compared", 1)
	got := zeroless(stripped(p.f))
	if !proto.Equal(got, want) {
		path, text := firstDifference(want.ProtoReflect(), got.ProtoReflect())
		k := "differs:" + pathKey(path)
		if len(keys) == 1 {
			k = "differs:" + keys[0] + ":" + pathKey(path)
		}
		r.Violate(k, fmt.Sprintf("after edit %s the card reads otherwise: %s", what, text), b)
	}
}

// overlay gives a the field values of b; outside of texts, the bytes a was parsed from stay with it.
func overlay(a, b protoreflect.Message) {
	fds := a.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		switch {
		case fd.Name() == "raw_data":
		case !b.Has(fd):
			a.Clear(fd)
		case fd.Message() == nil || fd.IsList() || fd.IsMap() || !a.Has(fd) || isText(fd.Message()) || fd.Message().Name() == "Timestamp":
			a.Set(fd, b.Get(fd))
		default:
			overlay(a.Get(fd).Message(), b.Get(fd).Message())
		}
	}
}

// editRecords gives records parsed from arbitrary bytes the field values of other records: the written bytes say the new values.
func (r *Run) editRecords() {
	g := &G{Rand: NewRand(r.Seed, "P11/records")}
	for _, t := range ddTypes() {
		if t.null != nil && isText(t.null.ProtoReflect().Descriptor()) {
			continue
		}
		for i, n := 0, r.N(400, 12000); i < n; i++ {
			g.Hostile = t.any
			ab := t.c.gen(g)
			if t.any && g.Bool() {
				ab = g.Bytes(t.c.n)
			}
			g.Hostile = false
			bb := t.c.gen(g)
			a, err1, ok1 := r.unmarshal1(t, ab)
			b, err2, ok2 := r.unmarshal1(t, bb)
			if !ok1 || !ok2 || err1 != nil || err2 != nil || a == nil || b == nil || t.name == "TimeReal" {
				continue
			}
			if hasSkip(t.c.dec(ab)) || hasSkip(t.c.dec(bb)) {
				continue
			}
			want := zeroless(stripped(b))
			v := proto.Clone(b)
			stripRaw(v.ProtoReflect())
			overlay(a.ProtoReflect(), v.ProtoReflect())
			out, err, ok := r.append1(t, "an edited record", a, ab)
			if !ok {
				continue
			}
			r.Count("records edited", 1)
			r.Eval(true, []byte(t.name), ab, bb)
			if err != nil {
				r.Violate(t.name+":unwritable", fmt.Sprintf("%s: a record of %s edited to %s cannot be written: %v", t.name, hexs(ab), compact(want), err), ab)
				continue
			}
			c, err, ok := r.unmarshal1(t, out)
			if !ok {
				continue
			}
			if err != nil || !proto.Equal(zeroless(stripped(c)), want) {
				r.Violate(t.name+":edit", fmt.Sprintf("%s: a record of %s edited to %s is written as %s, which is read as %s (%v)", t.name, hexs(ab), compact(want), hexs(out), compact(stripped(c)), err), ab)
			}
		}
	}
	r.Require("records edited", 3000)
}
