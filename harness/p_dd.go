package main

import (
	"bytes"
	"fmt"

	"github.com/way-platform/tachograph-go/internal/dd"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func init() { register("P09", runP09) }

// ddType ties one data dictionary codec to its reference layout.
type ddType struct {
	name string
	c    C
	un   func(b []byte) (proto.Message, error)
	ap   func(dst []byte, m proto.Message) ([]byte, error)
	null proto.Message // typed nil
	any  bool          // every byte string of the right length is a value of the type
	fix  bool          // the type has one length
}

func ddT[M any, PM interface {
	*M
	proto.Message
}](name string, c C, un func(dd.UnmarshalOptions, []byte) (PM, error), ap func([]byte, PM) ([]byte, error)) *ddType {
	return &ddType{name: name, c: c, fix: true,
		un: func(b []byte) (proto.Message, error) {
			m, err := un(dd.UnmarshalOptions{}, b)
			if m == nil {
				return nil, err
			}
			return m, err
		},
		ap: func(dst []byte, m proto.Message) ([]byte, error) {
			if m == nil {
				return ap(dst, PM(nil))
			}
			return ap(dst, m.(PM))
		}, null: PM(nil)}
}

func (t *ddType) every() *ddType  { t.any = true; return t }
func (t *ddType) varied() *ddType { t.fix = false; return t }

// refTimeC lets a time stand alone: the reference of a zero time is an absent message.
func ddTypes() []*ddType {
	o := func() C { return driverNumberC() }
	return []*ddType{
		ddT("ActivityChangeInfo", anyC(activityChangeC()), dd.UnmarshalOptions.UnmarshalActivityChangeInfo, dd.AppendActivityChangeInfo).every(),
		ddT("BcdString1", bcdC(1), dd.UnmarshalOptions.UnmarshalBcdString, dd.AppendBcdString).varied(),
		ddT("BcdString2", bcdC(2), dd.UnmarshalOptions.UnmarshalBcdString, dd.AppendBcdString).varied(),
		ddT("BcdString3", bcdC(3), dd.UnmarshalOptions.UnmarshalBcdString, dd.AppendBcdString).varied(),
		ddT("BcdString4", bcdC(4), dd.UnmarshalOptions.UnmarshalBcdString, dd.AppendBcdString).varied(),
		ddT("CardStructureVersion", csvC(), dd.UnmarshalOptions.UnmarshalCardStructureVersion, dd.AppendCardStructureVersion).every(),
		ddT("CardVehicleRecord", vehicleRecordC(), dd.UnmarshalOptions.UnmarshalCardVehicleRecord, dd.AppendCardVehicleRecord),
		ddT("CardVehicleRecordG2", vehicleRecordG2C(), dd.UnmarshalOptions.UnmarshalCardVehicleRecordG2, dd.AppendCardVehicleRecordG2),
		ddT("ControlType", controlTypeC(), dd.UnmarshalOptions.UnmarshalControlType, dd.AppendControlType).every(),
		ddT("Date", dateC(), dd.UnmarshalOptions.UnmarshalDate, dd.AppendDate).every(),
		ddT("DriverIdentification", o(), dd.UnmarshalOptions.UnmarshalDriverIdentification, dd.AppendDriverIdentification).every(),
		ddT("ExtendedSerialNumber", extSerialC(), dd.UnmarshalOptions.UnmarshalExtendedSerialNumber, dd.AppendExtendedSerialNumber),
		ddT("FullCardNumber", fullCardNumberC(), dd.UnmarshalOptions.UnmarshalFullCardNumber, dd.AppendFullCardNumber),
		ddT("FullCardNumberAndGeneration", S(false, f("full_card_number", fullCardNumberC()), f("generation", enumC("dd.v1.Generation"))),
			dd.UnmarshalOptions.UnmarshalFullCardNumberAndGeneration, dd.AppendFullCardNumberAndGeneration),
		ddT("GNSSPlaceAuthRecord", gnssPlaceAuthC(), dd.UnmarshalOptions.UnmarshalGNSSPlaceAuthRecord, dd.AppendGNSSPlaceAuthRecord).every(),
		ddT("GNSSPlaceRecord", gnssPlaceC(), dd.UnmarshalOptions.UnmarshalGNSSPlaceRecord, dd.AppendGNSSPlaceRecord).every(),
		ddT("GeoCoordinates", geoC(), dd.UnmarshalOptions.UnmarshalGeoCoordinates, dd.AppendGeoCoordinates).every(),
		ddT("HolderName", holderNameC(), dd.UnmarshalOptions.UnmarshalHolderName, dd.AppendHolderName).every(),
		ddT("Ia5String1", ia5C(1), dd.UnmarshalOptions.UnmarshalIa5StringValue, dd.AppendIa5StringValue).varied().every(),
		ddT("Ia5String14", ia5C(14), dd.UnmarshalOptions.UnmarshalIa5StringValue, dd.AppendIa5StringValue).varied().every(),
		ddT("MonthYear", monthYearC(), dd.UnmarshalOptions.UnmarshalMonthYear, dd.AppendMonthYear).every(),
		ddT("OwnerIdentification", ownerIDC(), dd.UnmarshalOptions.UnmarshalOwnerIdentification, dd.AppendOwnerIdentification).every(),
		ddT("PlaceRecord", placeC(), dd.UnmarshalOptions.UnmarshalPlaceRecord, dd.AppendPlaceRecord).every(),
		ddT("PlaceRecordG2", placeG2C(), dd.UnmarshalOptions.UnmarshalPlaceRecordG2, dd.AppendPlaceRecordG2).every(),
		ddT("PreviousVehicleInfo", prevVehicleC(), dd.UnmarshalOptions.UnmarshalPreviousVehicleInfo, dd.AppendPreviousVehicleInfo),
		ddT("PreviousVehicleInfoG2", prevVehicleG2C(), dd.UnmarshalOptions.UnmarshalPreviousVehicleInfoG2, dd.AppendPreviousVehicleInfoG2),
		ddT("SpecificConditionRecord", specCondC(), dd.UnmarshalOptions.UnmarshalSpecificConditionRecord, dd.AppendSpecificConditionRecord).every(),
		ddT("StringValue14", strC(14), dd.UnmarshalOptions.UnmarshalStringValue, dd.AppendStringValue).varied().every(),
		ddT("StringValue36", strC(36), dd.UnmarshalOptions.UnmarshalStringValue, dd.AppendStringValue).varied().every(),
		ddT("TimeReal", timeC(), dd.UnmarshalOptions.UnmarshalTimeReal, dd.AppendTimeReal).every(),
		ddT("VehicleRegistration", regC(), dd.UnmarshalOptions.UnmarshalVehicleRegistration, dd.AppendVehicleRegistration),
		ddT("VuCardIWRecord", iwRecordC(), dd.UnmarshalOptions.UnmarshalVuCardIWRecord, dd.AppendVuCardIWRecord),
	}
}

func driverNumberC() C { return S(false, f("driver_identification_number", ia5C(14))) }

// anyC lets every word be an activity change: the layout for lists avoids the two words that are padding there.
func anyC(c C) C {
	return C{c.n, func(g *G) []byte { return g.Bytes(c.n) }, c.dec}
}

// hasSkip reports whether the reference leaves something of the value open.
func hasSkip(v any) bool {
	switch x := v.(type) {
	case Skip:
		return true
	case *Obj:
		for _, w := range x.m {
			if hasSkip(w) {
				return true
			}
		}
	}
	return false
}

// openText reports whether some text of the value has more than one acceptable reading.
func openText(v any) bool {
	switch x := v.(type) {
	case Text:
		for _, s := range x {
			if s != x[0] {
				return true
			}
		}
	case *Obj:
		for _, w := range x.m {
			if openText(w) {
				return true
			}
		}
	}
	return false
}

// build makes a message with exactly the fields of the reference value and none of the preserved bytes.
func build(m protoreflect.Message, o *Obj) {
	fds := m.Descriptor().Fields()
	for name, w := range o.m {
		fd := fds.ByName(protoreflect.Name(name))
		switch x := w.(type) {
		case nil, Skip:
		case Tm:
			m.Set(fd, protoreflect.ValueOfMessage((&timestamppb.Timestamp{Seconds: int64(x)}).ProtoReflect()))
		case *Obj:
			s := m.NewField(fd).Message()
			build(s, x)
			m.Set(fd, protoreflect.ValueOfMessage(s))
		case Text:
			m.Set(fd, protoreflect.ValueOfString(x[0]))
		case Enum:
			m.Set(fd, protoreflect.ValueOfEnum(protoreflect.EnumNumber(x)))
		case bool:
			m.Set(fd, protoreflect.ValueOfBool(x))
		case []byte:
			m.Set(fd, protoreflect.ValueOfBytes(x))
		case int64:
			switch fd.Kind() {
			case protoreflect.Int32Kind, protoreflect.Sint32Kind:
				m.Set(fd, protoreflect.ValueOfInt32(int32(x)))
			case protoreflect.Int64Kind, protoreflect.Sint64Kind:
				m.Set(fd, protoreflect.ValueOfInt64(x))
			case protoreflect.Uint32Kind:
				m.Set(fd, protoreflect.ValueOfUint32(uint32(x)))
			default:
				m.Set(fd, protoreflect.ValueOfUint64(uint64(x)))
			}
		default:
			panic(fmt.Sprintf("build: %T", w))
		}
	}
}

// stripRaw removes the preserved bytes of a message, deeply.
func stripRaw(m protoreflect.Message) {
	if fd := m.Descriptor().Fields().ByName("raw_data"); fd != nil {
		m.Clear(fd)
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap() || fd.Message() == nil:
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				stripRaw(v.List().Get(i).Message())
			}
		default:
			stripRaw(v.Message())
		}
		return true
	})
}

func stripped(m proto.Message) proto.Message {
	if m == nil {
		return nil
	}
	c := proto.Clone(m)
	stripRaw(c.ProtoReflect())
	return c
}

var ddPrefix = []byte{0xDE, 0xAD, 0xBE, 0xEF, 0x01}

// append1 serialises a message into a buffer with a prefix and spare room and checks that the writer only appends.
// It returns the appended bytes.
func (r *Run) append1(t *ddType, label string, m proto.Message, in []byte) (out []byte, err error, ok bool) {
	buf := make([]byte, len(ddPrefix), len(ddPrefix)+300)
	copy(buf, ddPrefix)
	for i := len(buf); i < cap(buf); i++ {
		buf[:cap(buf)][i] = 0x5A
	}
	var before []byte
	if m != nil {
		before, _ = proto.MarshalOptions{Deterministic: true}.Marshal(m)
	}
	var res []byte
	if p, st := guard(func() { res, err = t.ap(buf, m) }); p != nil {
		r.Violate(t.name+":panic:"+panicSite(st), fmt.Sprintf("%s: serialising %s panicked: %v", t.name, label, p), in)
		return nil, nil, false
	}
	if m != nil {
		if after, _ := (proto.MarshalOptions{Deterministic: true}).Marshal(m); !bytes.Equal(before, after) {
			r.Violate(t.name+":mutates", fmt.Sprintf("%s: serialising %s changed the record", t.name, label), in)
		}
	}
	if err != nil {
		return nil, err, true
	}
	if len(res) < len(ddPrefix) || !bytes.Equal(res[:len(ddPrefix)], ddPrefix) || !bytes.Equal(buf, ddPrefix) {
		r.Violate(t.name+":prefix", fmt.Sprintf("%s: serialising %s did not append to the given bytes: %s", t.name, label, hexs(res)), in)
		return nil, nil, false
	}
	return res[len(ddPrefix):], nil, true
}

func (r *Run) unmarshal1(t *ddType, in []byte) (m proto.Message, err error, ok bool) {
	keep := cp(in)
	if p, st := guard(func() { m, err = t.un(in) }); p != nil {
		r.Violate(t.name+":panic:"+panicSite(st), fmt.Sprintf("%s: parsing panicked: %v", t.name, p), in)
		return nil, nil, false
	}
	if !bytes.Equal(in, keep) {
		r.Violate(t.name+":input", t.name+": parsing changed its input", keep)
	}
	return m, err, true
}

func (t *ddType) refDiff(o any, m proto.Message) []Diff {
	d := &differ{}
	switch x := o.(type) {
	case Tm:
		ts, _ := m.(*timestamppb.Timestamp)
		if ts.GetSeconds() != int64(x) || ts.GetNanos() != 0 {
			d.add("", int64(x), ts.GetSeconds())
		}
	case nil:
		if m != nil {
			d.add("", nil, m)
		}
	case *Obj:
		if m == nil {
			d.add("", o, nil)
		} else {
			d.compare("", x, m.ProtoReflect())
		}
	}
	return d.out
}

// ddBytes judges one byte string of the right length. valid: the bytes are a value of the type.
func (r *Run) ddBytes(t *ddType, in []byte, valid bool, judge bool) {
	r.Count("byte strings", 1)
	m, err, ok := r.unmarshal1(t, in)
	if !ok {
		return
	}
	if err != nil {
		r.Count("rejected", 1)
		if valid {
			r.Violate(t.name+":rejects", fmt.Sprintf("%s: a valid value %s is rejected: %v", t.name, hexs(in), err), in)
		}
		return
	}
	if t.name == "MonthYear" {
		_, dec := bcdDigits(in)
		judge = judge && dec
	}
	if judge {
		if ds := t.refDiff(t.c.dec(in), m); len(ds) > 0 {
			r.Violate(t.name+":fields:"+pathKey(ds[0].Path), fmt.Sprintf("%s: %s is read as %s", t.name, hexs(in), diffMsg(ds)), in)
		}
		r.Count("decodings compared", 1)
	}
	out, err, ok := r.append1(t, "a parsed record", m, in)
	if !ok {
		return
	}
	if err != nil {
		r.Count("unwritable", 1)
		if valid {
			r.Violate(t.name+":unwritable", fmt.Sprintf("%s: a parsed record %s cannot be serialised: %v", t.name, hexs(in), err), in)
		}
		return
	}
	if t.name == "VuCardIWRecord" && in[128] > 1 {
		return // no assigned flag value
	}
	if !bytes.Equal(out, in) {
		i := firstDiff(in, out)
		k := t.name + ":identity"
		if len(in) != len(out) {
			k = t.name + ":length"
		} else if !valid {
			k += fmt.Sprintf(":byte%d", i)
		}
		r.Violate(k, fmt.Sprintf("%s: %s is written back as %s (first difference at byte %d)", t.name, hexs(in), hexs(out), i), in)
	}
	r.Count("identities", 1)
}

// ddBuilt judges a record made from field values alone.
func (r *Run) ddBuilt(t *ddType, g *G) {
	in := t.c.gen(g)
	ref := t.c.dec(in)
	if hasSkip(ref) {
		o := ref.(*Obj)
		delete(o.m, "valid")
		if hasSkip(ref) {
			return
		}
	}
	if openText(ref) {
		return
	}
	var m proto.Message
	switch x := ref.(type) {
	case Tm:
		m = &timestamppb.Timestamp{Seconds: int64(x)}
	case nil:
		return
	case *Obj:
		m = t.null.ProtoReflect().New().Interface()
		build(m.ProtoReflect(), x)
	}
	out, err, ok := r.append1(t, "a record built from fields", m, in)
	if !ok {
		return
	}
	r.Count("built records", 1)
	r.Eval(true, []byte("built"+t.name), in)
	if err != nil {
		r.Violate(t.name+":built-unwritable", fmt.Sprintf("%s: a record with fields in range cannot be serialised: %v; record %s", t.name, err, compact(m)), in)
		return
	}
	if len(out) != t.c.n {
		r.Violate(t.name+":built-length", fmt.Sprintf("%s: a record built from fields takes %d bytes, want %d; record %s", t.name, len(out), t.c.n, compact(m)), in)
		return
	}
	// the reference decoding of the written bytes is the record
	o2 := t.c.dec(out)
	if ds := t.refDiff(o2, m); len(ds) > 0 {
		r.Violate(t.name+":built:"+pathKey(ds[0].Path), fmt.Sprintf("%s: record %s is written as %s which says otherwise: %s", t.name, compact(m), hexs(out), diffMsg(ds)), in)
		return
	}
	m2, err, ok := r.unmarshal1(t, out)
	if !ok {
		return
	}
	if err != nil {
		r.Violate(t.name+":built-unreadable", fmt.Sprintf("%s: the bytes %s written for %s cannot be read: %v", t.name, hexs(out), compact(m), err), in)
		return
	}
	if !proto.Equal(zeroless(stripped(m2)), zeroless(stripped(m))) {
		r.Violate(t.name+":built-differs", fmt.Sprintf("%s: record %s is read back as %s", t.name, compact(m), compact(stripped(m2))), in)
	}
}

// zeroless drops explicitly set zero scalars, whose presence carries no value.
func zeroless(m proto.Message) proto.Message {
	if m == nil {
		return nil
	}
	var walk func(m protoreflect.Message)
	walk = func(m protoreflect.Message) {
		m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			switch {
			case fd.IsMap():
			case fd.IsList():
				if fd.Message() != nil {
					for i := 0; i < v.List().Len(); i++ {
						walk(v.List().Get(i).Message())
					}
				}
			case fd.Message() != nil:
				walk(v.Message())
			default:
				z := false
				switch x := v.Interface().(type) {
				case bool:
					z = !x
				case int32:
					z = x == 0
				case int64:
					z = x == 0
				case uint32:
					z = x == 0
				case uint64:
					z = x == 0
				case string:
					z = x == ""
				case []byte:
					z = len(x) == 0
				}
				if z {
					m.Clear(fd)
				}
			}
			return true
		})
	}
	walk(m.ProtoReflect())
	return m
}

func compact(m proto.Message) string {
	if m == nil {
		return "absent"
	}
	s := fmt.Sprint(m)
	if len(s) > 500 {
		s = s[:500] + "…"
	}
	return s
}

// fieldPaths calls f for every populated field of the message, deeply, with a function that clears it.
func fieldPaths(m protoreflect.Message, path string, f func(path string, clear func())) {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if !m.Has(fd) {
			continue
		}
		p := path + "." + string(fd.Name())
		f(p, func() { m.Clear(fd) })
		if fd.IsMap() {
			continue
		}
		if fd.Message() != nil && !fd.IsList() {
			fieldPaths(m.Get(fd).Message(), p, f)
		}
	}
}

// ddPartial clears one field at a time: what comes out is an error or a record of the right length.
func (r *Run) ddPartial(t *ddType, g *G) {
	in := t.c.gen(g)
	m, err, ok := r.unmarshal1(t, in)
	if !ok || err != nil || m == nil {
		return
	}
	for _, raw := range []bool{true, false} {
		base := m
		if !raw {
			base = stripped(m)
		}
		n := 0
		fieldPaths(base.ProtoReflect(), "", func(string, func()) { n++ })
		for i := 0; i < n; i++ {
			c := proto.Clone(base)
			k, where := 0, ""
			done := false
			fieldPaths(c.ProtoReflect(), "", func(p string, clear func()) {
				if k == i && !done {
					where, done = p, true
					defer clear()
				}
				k++
			})
			out, err, ok := r.append1(t, "a record without "+where, c, in)
			if !ok {
				continue
			}
			r.Count("partial records", 1)
			if err != nil {
				r.Count("partial records refused", 1)
				continue
			}
			if t.fix && len(out) != t.c.n {
				r.Violate(t.name+":partial-length:"+pathKey(where), fmt.Sprintf("%s: a record without %s is written in %d bytes, not %d", t.name, where, len(out), t.c.n), in)
			}
		}
	}
	out, err, ok := r.append1(t, "no record", nil, in)
	if ok && err == nil && t.fix && len(out) != t.c.n {
		r.Violate(t.name+":nil-length", fmt.Sprintf("%s: no record is written in %d bytes, not %d", t.name, len(out), t.c.n), in)
	}
}

func runP09(r *Run) {
	r.rule = "each data dictionary codec: bytes -> record compared with an independent reference layout, record -> bytes compared with the bytes, records built from fields alone written and read back (by the code and by the reference), wrong lengths rejected, half-filled records refused or of the right length, writers only append and change nothing"
	types := ddTypes()
	g := &G{Rand: NewRand(r.Seed, "P09")}
	for _, t := range types {
		r.Case(t.name, nil)
		// wrong lengths
		for n := 0; n <= t.c.n+4; n++ {
			if n == t.c.n || !t.fix && n > 0 {
				continue
			}
			for k := 0; k < 12; k++ {
				b := t.c.gen(g)
				switch {
				case n < len(b) && k%2 == 0:
					b = b[:n]
				case n < len(b):
					b = b[len(b)-n:]
				default:
					b = append(b, t.c.gen(g)...)
					for len(b) < n {
						b = append(b, 0)
					}
					b = b[:n]
				}
				_, err, ok := r.unmarshal1(t, b)
				if ok && err == nil {
					r.Violate(t.name+":wrong-length", fmt.Sprintf("%s: %d bytes are accepted, the type takes %d", t.name, n, t.c.n), b)
				}
				r.Count("wrong lengths", 1)
			}
		}
		// tidy values: valid by construction
		for i, n := 0, r.N(1500, 40000); i < n; i++ {
			g.Hostile = i%4 == 3 && t.any
			b := t.c.gen(g)
			r.ddBytes(t, b, true, true)
			r.Eval(true, []byte(t.name), b)
		}
		// codes nobody assigned: rejected, or reported as unrecognised and written back
		for i, n := 0, r.N(1500, 20000); i < n && !t.any; i++ {
			g.Codes = "." + pick(g.Rand, "NationNumeric", "EquipmentType", "CardSlotNumber", "Generation")
			b := t.c.gen(g)
			g.Codes = ""
			r.ddBytes(t, b, false, true)
			r.Eval(true, []byte(t.name), b)
		}
		// every value of every byte, on several bases
		for base, nb := 0, r.N(3, 40); base < nb; base++ {
			g.Hostile = base > 0 && t.any
			b := t.c.gen(g)
			for i := range b {
				for v := 0; v < 256; v++ {
					c := cp(b)
					c[i] = byte(v)
					r.ddBytes(t, c, t.any, t.any)
				}
			}
		}
		// arbitrary bytes
		for i, n := 0, r.N(4000, 100000); i < n; i++ {
			b := g.Bytes(t.c.n)
			switch g.N(8) {
			case 0:
				b = bytes.Repeat([]byte{g.Byte()}, t.c.n)
			case 1:
				b = bytes.Repeat([]byte{pick(g.Rand, byte(0), 0xFF, 0x20, 0x7F, 0x80)}, t.c.n)
			}
			r.ddBytes(t, b, t.any, t.any)
			r.Eval(t.any, []byte(t.name), b)
		}
		// special values of fields of every width, side by side with ordinary ones
		for i, n := 0, r.N(4000, 100000); i < n && t.any; i++ {
			b := specials(g, t.c.gen(g))
			r.ddBytes(t, b, true, true)
			r.Eval(true, []byte(t.name), b)
			r.Count("values with special fields", 1)
		}
		if t.c.n == 2 {
			for v := 0; v < 1<<16; v++ {
				b := []byte{byte(v >> 8), byte(v)}
				valid := t.any
				if t.name == "BcdString2" {
					_, valid = bcdDigits(b)
				}
				r.ddBytes(t, b, valid, valid)
				r.Eval(valid, []byte(t.name), b)
			}
		}
		if t.c.n == 1 {
			for v := 0; v < 256; v++ {
				_, bcd := bcdDigits([]byte{byte(v)})
				r.ddBytes(t, []byte{byte(v)}, t.any || t.name == "BcdString1" && bcd, t.any)
			}
		}
		g.Hostile = false
		for i, n := 0, r.N(1500, 40000); i < n; i++ {
			r.ddBuilt(t, g)
		}
		for i, n := 0, r.N(12, 300); i < n; i++ {
			r.ddPartial(t, g)
		}
	}
	// BCD strings of every length: the value is the decimal number or the bytes are rejected
	bcd := types[1]
	for n := 1; n <= 12; n++ {
		for i, k := 0, r.N(400, 8000); i < k; i++ {
			b := make([]byte, n)
			for j := range b {
				b[j] = bcdByte(g.N(100))
				if i%3 == 0 && j < n/2 {
					b[j] = 0
				}
				if i%5 == 1 {
					b[j] = 0x99
				}
			}
			if i%7 == 6 {
				b[g.N(n)] |= byte(0xA) << (4 * g.N(2))
			}
			digits := 0
			_, good := bcdDigits(b[:0])
			want := new(bigInt)
			for _, c := range b {
				d, ok := bcdDigits([]byte{c})
				good = good && ok
				want.muladd(100, d)
				digits += 2
			}
			m, err, ok := r.unmarshal1(bcd, b)
			if !ok {
				continue
			}
			r.Count("bcd strings", 1)
			if err != nil {
				if good && want.fits(1<<31-1) {
					r.Violate("BcdString:rejects", fmt.Sprintf("BcdString: %x is rejected: %v", b, err), b)
				}
				continue
			}
			v := m.(*ddv1.BcdString)
			if !good {
				r.Violate("BcdString:accepts", fmt.Sprintf("BcdString: %x, which is not decimal, is read as %d", b, v.GetValue()), b)
				continue
			}
			if !want.is(int64(v.GetValue())) {
				r.Violate("BcdString:value", fmt.Sprintf("BcdString: %x is read as %d", b, v.GetValue()), b)
				continue
			}
			out, err, ok := r.append1(bcd, "a parsed number", v, b)
			if ok && (err != nil || !bytes.Equal(out, b)) {
				r.Violate("BcdString:identity", fmt.Sprintf("BcdString: %x is written back as %x (%v)", b, out, err), b)
			}
		}
	}
	// three byte numbers, exhaustively
	step := 1
	for v := 0; v < 1<<24; v += step {
		b := []byte{byte(v >> 16), byte(v >> 8), byte(v)}
		got, err := dd.UnmarshalOptions{}.UnmarshalOdometer(b)
		if err != nil || got != uint32(v) {
			r.Violate("Odometer:value", fmt.Sprintf("odometer %x is read as %d (%v)", b, got, err), b)
			break
		}
		if v <= 999999 || v%97 == 0 {
			if out := dd.AppendOdometer(ddPrefix[:2:2], got); len(out) != 5 || !bytes.Equal(out[2:], b) {
				r.Violate("Odometer:identity", fmt.Sprintf("odometer %x is written back as %x", b, out), b)
				break
			}
		}
	}
	r.Count("odometers", 1<<24/step)
	for n := 0; n < 8; n++ {
		if n != 3 {
			if _, err := (dd.UnmarshalOptions{}).UnmarshalOdometer(make([]byte, n)); err == nil {
				r.Violate("Odometer:wrong-length", fmt.Sprintf("an odometer of %d bytes is accepted", n), make([]byte, n))
			}
		}
	}
	for v := 0; v < 1<<24; v += r.N(3, 1) {
		lat := []byte{byte(v >> 16), byte(v >> 8), byte(v)}
		lon := []byte{byte(v >> 3), byte(v >> 11), byte(v*7 + 1)}
		b := append(lat, lon...)
		m, err := dd.UnmarshalOptions{}.UnmarshalGeoCoordinates(b)
		if err != nil || int64(m.GetLatitude()) != int24(b[:3]) || int64(m.GetLongitude()) != int24(b[3:]) {
			r.Violate("GeoCoordinates:value", fmt.Sprintf("coordinates %x are read as %v (%v)", b, m, err), b)
			break
		}
		var buf [8]byte
		out, err := dd.AppendGeoCoordinates(buf[:2], m)
		if err != nil || len(out) != 8 || !bytes.Equal(out[2:], b) {
			r.Violate("GeoCoordinates:identity", fmt.Sprintf("coordinates %x are written back as %x", b, out), b)
			break
		}
		r.Count("coordinates", 1)
	}
	// times: stratified over the whole range
	for i, n := 0, r.N(600000, 20000000); i < n; i++ {
		v := uint32(uint64(i) * (1 << 32) / uint64(n))
		switch i % 4 {
		case 1:
			v += uint32(g.U64() % (1<<32/uint64(n) + 1))
		case 2:
			v = uint32(1)<<(i/4%32) + uint32(g.N(3)) - 1
		case 3:
			v = uint32(946684800 + g.N(1500000000))
		}
		b := be4(v)
		m, err := dd.UnmarshalOptions{}.UnmarshalTimeReal(b)
		if err != nil || v == 0 && m != nil || v != 0 && (m.GetSeconds() != int64(v) || m.GetNanos() != 0) {
			r.Violate("TimeReal:value", fmt.Sprintf("time %d is read as %v (%v)", v, m, err), b)
			break
		}
		out, err := dd.AppendTimeReal(ddPrefix[:1:1], m)
		if err != nil || !bytes.Equal(out[1:], b) {
			r.Violate("TimeReal:identity", fmt.Sprintf("time %x is written back as %x (%v)", b, out, err), b)
			break
		}
		r.Count("times", 1)
	}
	r.enums()
	r.versions()
	for _, n := range []string{"byte strings", "identities", "decodings compared", "built records", "partial records", "wrong lengths", "enum codes", "times", "coordinates", "bcd strings"} {
		r.Require(n, 100)
	}
	r.Sample(map[string]any{"types": len(types), "exhaustive": "all 1 and 2 byte types, all odometers, all latitudes (1/3 in quick)"})
}

// bigInt is a saturating decimal accumulator, enough to tell whether a number fits.
type bigInt struct {
	v   uint64
	big bool
}

func (b *bigInt) muladd(m, d int) {
	if b.v > 1<<56 {
		b.big = true
		return
	}
	b.v = b.v*uint64(m) + uint64(d)
}
func (b *bigInt) fits(max uint64) bool { return !b.big && b.v <= max }
func (b *bigInt) is(v int64) bool      { return !b.big && v >= 0 && b.v == uint64(v) }

func enumCase[T interface {
	~int32
	protoreflect.Enum
}](r *Run, table string) {
	t := enumTables[table]
	for c := 0; c < 256; c++ {
		v, err := dd.UnmarshalEnum[T](byte(c))
		want, ok := t.m[c]
		r.Count("enum codes", 1)
		r.Eval(ok, []byte(table), []byte{byte(c)})
		if ok != (err == nil) || ok && int32(v) != want {
			r.Violate("enum:"+table, fmt.Sprintf("%s: code %d is read as %d (%v), want %d assigned=%v", table, c, v, err, want, ok), []byte{byte(c)})
			continue
		}
		if !ok {
			continue
		}
		b, err := dd.MarshalEnum(v)
		if err != nil || b != byte(c) {
			r.Violate("enum:"+table, fmt.Sprintf("%s: code %d is written back as %d (%v)", table, c, b, err), []byte{byte(c)})
		}
	}
	// every other number is refused
	inverse := map[int32]bool{}
	for _, v := range t.m {
		inverse[v] = true
	}
	for n := int32(-300); n < 600; n++ {
		if inverse[n] {
			continue
		}
		var b byte
		var err error
		if p, st := guard(func() { b, err = dd.MarshalEnum(T(n)) }); p != nil {
			r.Violate("enum:panic:"+panicSite(st), fmt.Sprintf("%s: value %d panics: %v", table, n, p), nil)
		} else if err == nil {
			r.Violate("enum:"+table, fmt.Sprintf("%s: value %d, which has no code, is written as %d", table, n, b), nil)
		}
		r.Count("enum codes", 1)
	}
}

func (r *Run) enums() {
	enumCase[ddv1.CalibrationPurpose](r, "dd.v1.CalibrationPurpose")
	enumCase[ddv1.CardSlotNumber](r, "dd.v1.CardSlotNumber")
	enumCase[ddv1.ClockStopMode](r, "dd.v1.ClockStopMode")
	enumCase[ddv1.CompanyActivityType](r, "dd.v1.CompanyActivityType")
	enumCase[ddv1.DriverActivityValue](r, "dd.v1.DriverActivityValue")
	enumCase[ddv1.DrivingStatus](r, "dd.v1.DrivingStatus")
	enumCase[ddv1.EntryTypeDailyWorkPeriod](r, "dd.v1.EntryTypeDailyWorkPeriod")
	enumCase[ddv1.EquipmentType](r, "dd.v1.EquipmentType")
	enumCase[ddv1.EventFaultRecordPurpose](r, "dd.v1.EventFaultRecordPurpose")
	enumCase[ddv1.EventFaultType](r, "dd.v1.EventFaultType")
	enumCase[ddv1.Generation](r, "dd.v1.Generation")
	enumCase[ddv1.LoadType](r, "dd.v1.LoadType")
	enumCase[ddv1.NationNumeric](r, "dd.v1.NationNumeric")
	enumCase[ddv1.OperationType](r, "dd.v1.OperationType")
	enumCase[ddv1.PositionAuthenticationStatus](r, "dd.v1.PositionAuthenticationStatus")
	enumCase[ddv1.SlotCardType](r, "dd.v1.SlotCardType")
	enumCase[ddv1.SpecificConditionType](r, "dd.v1.SpecificConditionType")
}

// versions checks how a card structure version selects generation and version for every version.
func (r *Run) versions() {
	for v := 0; v < 1<<16; v++ {
		b := []byte{byte(v >> 8), byte(v)}
		m, err := dd.UnmarshalOptions{}.UnmarshalCardStructureVersion(b)
		if err != nil {
			continue
		}
		d := func(c byte) int { return int(c>>4)*10 + int(c&15) }
		gen, ver := ddv1.Generation_GENERATION_UNSPECIFIED, ddv1.Version_VERSION_UNSPECIFIED
		switch {
		case d(b[0]) == 0:
			gen, ver = ddv1.Generation_GENERATION_1, ddv1.Version_VERSION_1
		case d(b[0]) == 1:
			gen = ddv1.Generation_GENERATION_2
			if d(b[1]) == 0 {
				ver = ddv1.Version_VERSION_1
			} else if d(b[1]) == 1 {
				ver = ddv1.Version_VERSION_2
			}
		}
		// whatever the options said before
		for _, o := range []dd.UnmarshalOptions{{}, {Generation: ddv1.Generation_GENERATION_2, Version: ddv1.Version_VERSION_2}} {
			o.SetFromCardStructureVersion(m)
			if o.Generation != gen || o.Version != ver {
				r.Violate("CardStructureVersion:options", fmt.Sprintf("version %x selects %v/%v, want %v/%v", b, o.Generation, o.Version, gen, ver), b)
			}
			r.Count("structure versions", 1)
		}
	}
}

// specials overwrites chunks of b, one to four bytes wide, with values that
// formats like to give a meaning: all zeros, all ones, the limits of signed
// numbers, one.
func specials(g *G, b []byte) []byte {
	c := cp(b)
	w := 1 + g.N(4)
	same := g.Bool()
	for at := 0; at < len(c); at += w {
		if !same {
			w = 1 + g.N(4)
		}
		if g.P(1, 3) {
			continue
		}
		f := c[at:min(at+w, len(c))]
		k := g.N(6)
		for i := range f {
			f[i] = []byte{0, 0xFF, 0xFF, 0, 0, 0xFF}[k]
		}
		switch k {
		case 2:
			f[0] = 0x7F
		case 3:
			f[0] = 0x80
		case 4:
			f[len(f)-1] = 1
		case 5:
			f[len(f)-1] = 0xFE
		}
	}
	return c
}
