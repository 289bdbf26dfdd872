package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"unicode"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { register("P21", runP21) }

// canonical reduces a message to what its bytes can say: no retained bytes, no zeros, no empty texts, no absent times.
func canonical(m proto.Message) proto.Message {
	c := zeroless(stripped(m))
	var walk func(m protoreflect.Message) bool
	walk = func(m protoreflect.Message) (empty bool) {
		empty = true
		if isText(m.Descriptor()) {
			for i := 0; i < m.Descriptor().Fields().Len(); i++ {
				fd := m.Descriptor().Fields().Get(i)
				if fd.Name() != "value" {
					m.Clear(fd)
				} else if t := strings.TrimFunc(m.Get(fd).String(), trimmable); t != "" {
					m.Set(fd, protoreflect.ValueOfString(t))
				} else {
					m.Clear(fd)
				}
			}
		}
		m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			switch {
			case fd.IsMap():
			case fd.IsList():
				if fd.Message() != nil {
					for i := 0; i < v.List().Len(); i++ {
						walk(v.List().Get(i).Message())
					}
				}
				if v.List().Len() > 0 {
					empty = false
				}
			case fd.Message() != nil:
				if walk(v.Message()) {
					m.Clear(fd)
				} else {
					empty = false
				}
			case fd.Kind() == protoreflect.StringKind:
				if t := strings.TrimFunc(v.String(), trimmable); t != "" {
					m.Set(fd, protoreflect.ValueOfString(t))
					empty = false
				} else {
					m.Clear(fd)
				}
			case fd.Kind() == protoreflect.BytesKind && len(bytes.Trim(v.Bytes(), "\x00")) == 0:
				m.Clear(fd)
			default:
				empty = false
			}
			return true
		})
		return empty
	}
	walk(c.ProtoReflect())
	return c
}

// trimmable is what a text field may not begin or end with.
func trimmable(r rune) bool { return r == 0 || unicode.IsSpace(r) }

// saysLittle lists fields that the bytes do not carry in every place, or that another field decides about.
var saysLittle = map[string]bool{"v1.File.type": true, "dd.v1.FullCardNumberAndGeneration.generation": true, "dd.v1.BcdString.length": true}

// mutSite is one field of one message, set or not.
type mutSite struct {
	path, key string
	m         protoreflect.Message
	fd        protoreflect.FieldDescriptor
	security  bool
}

func mutSites(m protoreflect.Message, path string, sec bool, out []mutSite) []mutSite {
	name := shortName(m)
	sec = sec || strings.HasPrefix(name, "security.")
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		p := path + "." + string(fd.Name())
		out = append(out, mutSite{p, name + "." + string(fd.Name()), m, fd, sec})
		if fd.Message() == nil || !m.Has(fd) || fd.IsMap() {
			continue
		}
		if fd.IsList() {
			for j := 0; j < m.Get(fd).List().Len(); j++ {
				out = mutSites(m.Get(fd).List().Get(j).Message(), fmt.Sprintf("%s[%d]", p, j), sec, out)
			}
		} else {
			out = mutSites(m.Get(fd).Message(), p, sec, out)
		}
	}
	return out
}

// mutate changes one field to something no parser would have put there; kind says what it did.
func mutate(g *G, s mutSite) (kind, text string, ok bool) {
	m, fd := s.m, s.fd
	had := m.Has(fd)
	if had && g.P(1, 5) {
		m.Clear(fd)
		if raw := m.Descriptor().Fields().ByName("raw_data"); raw != nil && isText(m.Descriptor()) && fd != raw {
			m.Clear(raw)
		}
		return "cleared", s.path + " cleared", true
	}
	set := func(kind string, v protoreflect.Value) (string, string, bool) {
		m.Set(fd, v)
		if raw := m.Descriptor().Fields().ByName("raw_data"); raw != nil && isText(m.Descriptor()) && fd != raw {
			m.Clear(raw) // the schema: retained bytes are written as they are
		}
		if t := v.String(); fd.Kind() == protoreflect.StringKind && t == "" || fd.Kind() == protoreflect.BytesKind && len(v.Bytes()) == 0 {
			kind = "cleared"
		}
		return kind, fmt.Sprintf("%s = %.60q", s.path, v.String()), true
	}
	switch {
	case fd.IsMap():
		return "", "", false
	case fd.IsList():
		l := m.Mutable(fd).List()
		n := l.Len()
		k := pick(g.Rand, 1, 2, 3, n, 2*n, 256, 300)
		if n > 0 && g.P(1, 3) {
			l.Truncate(g.N(n))
			return "shortened", fmt.Sprintf("%s shortened from %d to %d", s.path, n, l.Len()), true
		}
		if g.P(1, 40) {
			k = 70000
		}
		for i := 0; i < k; i++ {
			if fd.Message() != nil {
				if n > 0 && g.P(3, 4) {
					l.Append(protoreflect.ValueOfMessage(proto.Clone(l.Get(g.N(n)).Message().Interface()).ProtoReflect()))
				} else {
					l.Append(l.NewElement())
				}
			} else if n > 0 {
				l.Append(l.Get(g.N(n)))
			} else {
				l.Append(l.NewElement())
			}
		}
		return "grown", fmt.Sprintf("%s grown from %d to %d", s.path, n, l.Len()), true
	case fd.Message() != nil:
		if had && g.Bool() {
			m.Set(fd, m.NewField(fd))
			return "emptied", s.path + " emptied", true
		}
		if !had {
			m.Set(fd, m.NewField(fd))
			return "added", s.path + " added", true
		}
		return "", "", false
	}
	var v int64
	hi := int64(math.MaxInt32)
	if fd.Name() == "length" {
		hi = 100000 // gigabytes of padding are no fault
	}
	ints := func(lo, hi int64) int64 {
		for {
			v := pick(g.Rand, -1, -2, -128, -129, 10, 99, 100, 127, 128, 255, 256, 257, 1000, 9999, 10000, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 999999, 1000000, 0x7fffff, 0x800000, 0xffffff, 0x1000000, math.MaxInt32, math.MinInt32, math.MaxUint32, 1<<32, 1<<32+5, math.MaxInt64, math.MinInt64, int64(g.N(70000)), int64(g.N(1<<30)), -int64(g.N(1<<30)))
			if v >= lo && v <= hi {
				return v
			}
		}
	}
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return set("flipped", protoreflect.ValueOfBool(!m.Get(fd).Bool()))
	case protoreflect.EnumKind:
		n := fd.Enum().Values().Len()
		e := fd.Enum().Values().Get(g.N(n)).Number()
		if g.P(1, 3) {
			e = protoreflect.EnumNumber(pick(g.Rand, -1, n+1, n+50, 127, 255, 256, 1000, math.MaxInt32, math.MinInt32))
		}
		if u := m.Descriptor().Fields().ByName("unrecognized_" + fd.Name()); u != nil {
			m.Clear(u)
		}
		return set("enum", protoreflect.ValueOfEnum(e))
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		v = ints(math.MinInt32, hi)
		return set("int", protoreflect.ValueOfInt32(int32(v)))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		v = ints(math.MinInt64, math.MaxInt64)
		return set("int", protoreflect.ValueOfInt64(v))
	case protoreflect.Uint32Kind:
		v = ints(0, math.MaxUint32)
		return set("int", protoreflect.ValueOfUint32(uint32(v)))
	case protoreflect.Uint64Kind:
		v = ints(0, math.MaxInt64)
		return set("int", protoreflect.ValueOfUint64(uint64(v)))
	case protoreflect.StringKind:
		old := m.Get(fd).String()
		t := pick(g.Rand, "", "A", "é", "Ω", "日本", "\x00", "\u00a0", old+"x", strings.Repeat("W", len(old)+1), strings.Repeat("long ", 20), "0123456789", strings.Repeat("9", 40), " "+old, "a\nb")
		return set("string", protoreflect.ValueOfString(t))
	case protoreflect.BytesKind:
		old := m.Get(fd).Bytes()
		var b []byte
		switch g.N(6) {
		case 0:
			b = []byte{}
		case 1:
			b = append(append([]byte{}, old...), g.Bytes(1+g.N(4))...)
		case 2:
			if len(old) > 0 {
				b = append([]byte{}, old[:g.N(len(old))]...)
			}
		case 3:
			b = g.Bytes(len(old))
		case 4:
			b = g.Bytes(g.N(300))
		default:
			b = make([]byte, pick(g.Rand, 65535, 65536, 65537, 70000))
		}
		return set("bytes", protoreflect.ValueOfBytes(b))
	}
	return "", "", false
}

func runP21(r *Run) {
	r.rule = "one case = one parsed file with one or several fields changed to values no parser gives; non-trivial = the file changed; distinct by file and change"
	g := &G{Rand: NewRand(r.Seed, "P21")}
	r.marshalStock()
	seen := map[string]int{}
	for i, n := 0, r.N(700, 9000); i < n; i++ {
		g.Hostile = g.P(1, 4)
		c := genCard(g, cardOpts{gen1: g.P(5, 6), gen2: g.P(4, 5), pInclude: pick(g.Rand, 100, 50, 20)})
		b := c.bytes()
		r.Case("card", b)
		f := parse(cp(b)).f
		if f == nil || f.GetDriverCard() == nil {
			r.Count("unparsed", 1)
			continue
		}
		rebuilt := g.P(1, 4) // activity stores written from their days alone
		if rebuilt {
			resizeStores(f)
		}
		ok0 := marshal(f).err == nil
		byKey := map[string][]int{}
		for j, s := range mutSites(f.ProtoReflect(), "", false, nil) {
			byKey[s.key] = append(byKey[s.key], j)
		}
		keys := sortedKeys(byKey)
		values := map[string][]int{} // fields with a value that the file's bytes hold
		for j, s := range mutSites(f.ProtoReflect(), "", false, nil) {
			if fd := s.fd; fd.Message() == nil && !fd.IsList() && !s.security && s.m.Has(fd) && !notEditable[string(fd.Name())] && !saysLittle[s.key] && !strings.HasPrefix(string(fd.Name()), "unrecognized_") {
				values[s.key] = append(values[s.key], j)
			}
		}
		valueKeys := sortedKeys(values)
		for rep := 0; rep < 12; rep++ {
			e := proto.Clone(f).(*File)
			sites := mutSites(e.ProtoReflect(), "", false, nil)
			num := 1
			if rep >= 9 {
				num = 2 + g.N(6)
			}
			var did, kinds []string
			readable, judge := ok0 && num == 1, ok0 && num == 1
			gone := "" // the part that was taken away
			keys, byKey := keys, byKey
			if rep < 4 && len(valueKeys) > 0 {
				keys, byKey = valueKeys, values
			}
			for k := 0; k < num; k++ {
				key := keys[g.N(len(keys))]
				for t := 0; t < 4; t++ {
					if o := keys[g.N(len(keys))]; seen[o] < seen[key] {
						key = o
					}
				}
				s := sites[byKey[key][g.N(len(byKey[key]))]]
				had := s.m.Has(s.fd)
				kind, text, ok := mutate(g, s)
				if !ok {
					continue
				}
				seen[key]++
				did = append(did, text)
				kinds = append(kinds, kind+":"+key)
				r.Count("changes "+kind, 1)
				switch kind {
				case "cleared", "emptied":
					gone = s.path
					judge = judge && !marksEmpty(s.path) && !rules[s.key]
					readable = readable && s.key != "v1.File.driver_card"
				case "added": // what stands for a part that is missing is open
					judge = false
				}
				if saysLittle[s.key] {
					judge = false
				}
				if notEditable[string(s.fd.Name())] || s.key == "v1.File.type" || s.key == "card.v1.DriverCardFile.icc" && kind == "cleared" {
					readable = false
				}
				if s.security || !had && s.fd.Name() != "nanos" || s.fd.Name() == "raw_data" || notEditable[string(s.fd.Name())] || strings.HasPrefix(string(s.fd.Name()), "unrecognized_") {
					judge = false // parts that contradict each other: which of them holds is open
				}
			}
			if len(did) == 0 {
				continue
			}
			r.judgeMarshal(e, b, strings.Join(did, "; "), strings.Join(kinds, "+"), readable, judge, gone, rebuilt)
		}
	}
	r.Count("fields changed", len(seen))
	r.Require("changes int", 500)
	r.Require("changes bytes", 300)
	r.Require("judged by fields", 500)
	r.Require("rejected", 200)
}

func (r *Run) judgeMarshal(e *File, b []byte, what, key string, readable, judge bool, gone string, rebuilt bool) {
	r.Eval(true, b, []byte(what))
	before := digest(e)
	o := marshal(e)
	if o.panic != nil {
		r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("marshalling panicked after %s: %v", what, o.panic), b)
		return
	}
	if !bytes.Equal(before, digest(e)) {
		r.Violate("modifies", fmt.Sprintf("marshalling modified the file (%s)", what), b)
	}
	if o.err != nil {
		r.Count("rejected", 1)
		return
	}
	if _, ok := splitTLV(o.b); !ok {
		r.Violate("malformed:"+key, fmt.Sprintf("after %s the marshalled file is not a sequence of elements", what), b)
		return
	}
	p := parse(cp(o.b))
	if p.panic != nil {
		r.Violate("panic:"+panicSite(p.stack), fmt.Sprintf("parsing what was marshalled after %s panicked: %v", what, p.panic), b)
		return
	}
	r.Count("marshalled", 1)
	if !readable {
		return
	}
	r.Count("judged by readability", 1)
	if p.f == nil {
		r.Violate("unreadable:"+key, fmt.Sprintf("after %s the marshalled card is not parsed: %v", what, p.err), b)
		return
	}
	if !judge {
		return
	}
	r.Count("judged by fields", 1)
	want, got := proto.Message(e), proto.Message(p.f)
	if rebuilt {
		want, _, _ = layoutless(want)
		got, _, _ = layoutless(got)
		r.Count("rebuilt stores", 1)
	}
	want, got = canonical(want), canonical(got)
	sameDefaults(want, got)
	if gone != "" {
		// what stands for a missing part is open, but it is nothing that was counted or measured, and the rest stays
		if path, n := takeAway(got, gone); n != 0 {
			r.Violate("remains:"+key+":"+pathKey(path), fmt.Sprintf("after %s the card reads %s = %d", what, path, n), b)
		}
		takeAway(want, gone)
		want, got = canonical(want), canonical(got)
		r.Count("judged by what remains", 1)
	}
	if !proto.Equal(got, want) {
		path, text := firstDifference(want.ProtoReflect(), got.ProtoReflect())
		r.Violate("differs:"+key+":"+pathKey(path), fmt.Sprintf("after %s the card reads otherwise: %s", what, text), b)
	}
}

// rules lists fields that decide what others mean.
var rules = map[string]bool{"dd.v1.MonthYear.month": true, "dd.v1.MonthYear.year": true, "dd.v1.Date.year": true, "dd.v1.Date.month": true, "dd.v1.Date.day": true, "dd.v1.StringValue.encoding": true, "card.v1.Identification.Card.driver_identification": true, "card.v1.Identification.Card.owner_identification": true}

func marksEmpty(path string) bool {
	for _, st := range strings.Split(path, ".") {
		if emptyMark[protoreflect.Name(st)] {
			return true
		}
	}
	return false
}

// takeAway removes a part of a message; it returns a number found in it.
func takeAway(m proto.Message, path string) (at string, n int64) {
	c := m.ProtoReflect()
	steps := strings.Split(strings.TrimPrefix(path, "."), ".")
	for i, st := range steps {
		idx := -1
		if j := strings.IndexByte(st, '['); j >= 0 {
			fmt.Sscanf(st[j:], "[%d]", &idx)
			st = st[:j]
		}
		fd := c.Descriptor().Fields().ByName(protoreflect.Name(st))
		if !c.Has(fd) && i < len(steps)-1 {
			return "", 0
		}
		if i < len(steps)-1 {
			if fd.IsList() {
				if l := c.Mutable(fd).List(); idx < l.Len() {
					c = l.Get(idx).Message()
				} else {
					return "", 0
				}
			} else {
				c = c.Mutable(fd).Message()
			}
			continue
		}
		switch {
		case fd.Message() != nil && !fd.IsList():
			walkMessages(c.Get(fd).Message(), path, func(p string, m protoreflect.Message) {
				m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
					if k := fd.Kind(); (k == protoreflect.Int32Kind || k == protoreflect.Int64Kind) && !fd.IsList() && v.Int() != 0 && !formNumber[fd.Name()] {
						at, n = p+"."+string(fd.Name()), v.Int()
					}
					return true
				})
			})
		case fd.Kind() == protoreflect.Int32Kind || fd.Kind() == protoreflect.Int64Kind:
			if !fd.IsList() && !formNumber[fd.Name()] {
				at, n = path, c.Get(fd).Int()
			}
		}
		c.Clear(fd)
		if u := c.Descriptor().Fields().ByName("unrecognized_" + fd.Name()); u != nil {
			c.Clear(u)
		}
	}
	return at, n
}

// formNumber lists numbers that every value of their type has.
var formNumber = map[protoreflect.Name]bool{"length": true, "year": true, "major": true, "minor": true}

// sameDefaults: a code that was left open is written as some code. What its message says of unused slots is their reader's.
func sameDefaults(want, got proto.Message) {
	at := map[string]protoreflect.Message{}
	walkMessages(want.ProtoReflect(), "", func(p string, m protoreflect.Message) { at[p] = m })
	walkMessages(got.ProtoReflect(), "", func(p string, m protoreflect.Message) {
		w := at[p]
		m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			if fd.Enum() == nil || fd.IsList() {
				return true
			}
			if w == nil {
				m.Clear(fd)
				return true
			}
			n := w.Get(fd).Enum()
			name := ""
			if d := fd.Enum().Values().ByNumber(n); d != nil {
				name = string(d.Name())
			}
			if n == 0 || strings.HasSuffix(name, "_UNSPECIFIED") || strings.HasSuffix(name, "_UNRECOGNIZED") {
				w.Clear(fd)
				m.Clear(fd)
			}
			return true
		})
	})
}

// marshalStock marshals files that are hardly there, raw card files and vehicle unit files.
func (r *Run) marshalStock() {
	g := &G{Rand: NewRand(r.Seed, "P21-stock")}
	fd := (&File{}).ProtoReflect().Descriptor().Fields()
	types := fd.ByName("type").Enum().Values()
	r.judgeMarshal(nil, nil, "no file at all", "nil", false, false, "", false)
	for n := -1; n <= types.Len()+1; n++ {
		for k := -1; k < fd.Len(); k++ {
			f := &File{}
			f.ProtoReflect().Set(fd.ByName("type"), protoreflect.ValueOfEnum(protoreflect.EnumNumber(n)))
			if k >= 0 {
				if fd.Get(k).Message() == nil {
					continue
				}
				f.ProtoReflect().Set(fd.Get(k), f.ProtoReflect().NewField(fd.Get(k)))
			}
			r.judgeMarshal(f, nil, fmt.Sprintf("file of type %d with field %d only", n, k), "bare", false, false, "", false)
			if f.GetDriverCard() == nil && f.GetRawCard() == nil && f.GetVehicleUnit() == nil {
				if o := marshal(f); o.panic == nil && o.err == nil {
					r.Violate("nothing", fmt.Sprintf("a file of type %d with nothing in it is marshalled to %d bytes", n, len(o.b)), nil)
				}
				r.Count("files of nothing", 1)
			}
		}
	}
	for i, n := 0, r.N(500, 6000); i < n; i++ {
		b := joinTLV(genRawTLVs(g.Rand, 1+g.N(8), 300))
		f := parse(cp(b)).f
		if f == nil || f.GetRawCard() == nil {
			continue
		}
		for rep := 0; rep < 4; rep++ {
			e := proto.Clone(f).(*File)
			var did []string
			for k := 0; k < 1+g.N(3); k++ {
				sites := mutSites(e.GetRawCard().ProtoReflect(), ".raw_card", false, nil)
				if _, text, ok := mutate(g, sites[g.N(len(sites))]); ok {
					did = append(did, text)
				}
			}
			what := strings.Join(did, "; ")
			r.judgeMarshal(e, b, what, "raw", false, false, "", false)
			o := marshal(e)
			if o.panic != nil || o.err != nil {
				continue
			}
			r.Count("raw cards written", 1)
			got, ok := splitTLV(o.b)
			recs := e.GetRawCard().GetRecords()
			if ok = ok && len(got) == len(recs); ok {
				for j, rec := range recs {
					t := got[j]
					ok = ok && int64(rec.GetTag()) == int64(t.FID)<<8|int64(t.Appendix) && bytes.Equal(rec.GetValue(), t.Val)
				}
			}
			if !ok {
				r.Violate("raw-records", fmt.Sprintf("after %s the records written are not the records of the file", what), b)
			}
		}
	}
	for i, n := 0, r.N(60, 600); i < n; i++ {
		b := joinTransfers(genVU(g, 1+g.N(3), 2))
		f := parse(cp(b)).f
		if f == nil {
			continue
		}
		for rep := 0; rep < 6; rep++ {
			e := proto.Clone(f).(*File)
			sites := mutSites(e.ProtoReflect(), "", false, nil)
			_, text, ok := mutate(g, sites[g.N(len(sites))])
			if !ok {
				continue
			}
			r.Count("vehicle unit files changed", 1)
			if o := marshal(e); o.panic != nil {
				r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("marshalling panicked after %s: %v", text, o.panic), b)
			} else if o.err == nil && e.GetType() == f.GetType() {
				if p := parse(cp(o.b)); p.f == nil || !proto.Equal(canonical(p.f), canonical(e)) {
					r.Violate("vehicle-unit", fmt.Sprintf("after %s the vehicle unit file is written otherwise", text), b)
				}
			}
		}
	}
	r.Require("raw cards written", 100)
	r.Require("vehicle unit files changed", 50)
}
