package main

import (
	"bytes"
	"fmt"

	"github.com/way-platform/tachograph-go/internal/card"
	"github.com/way-platform/tachograph-go/internal/dd"
	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { register("P17", runP17) }

// personal lists, per message type, the fields that tell something about a person.
var personal = map[string][]string{
	"card.v1.Identification.Card":               {"card_issuing_authority_name", "card_issue_date", "card_validity_begin", "card_expiry_date"},
	"dd.v1.DriverIdentification":                {"driver_identification_number", "card_replacement_index", "card_renewal_index"},
	"dd.v1.OwnerIdentification":                 {"owner_identification"},
	"card.v1.Identification.DriverCardHolder":   {"card_holder_surname", "card_holder_first_names", "card_holder_birth_date"},
	"card.v1.Identification.WorkshopCardHolder": {"workshop_name", "workshop_address", "card_holder_surname", "card_holder_first_names"},
	"card.v1.Identification.ControlCardHolder":  {"control_body_name", "control_body_address", "card_holder_surname", "card_holder_first_names"},
	"card.v1.Identification.CompanyCardHolder":  {"company_name", "company_address"},
	"dd.v1.PlaceRecord":                         {"entry_time", "daily_work_period_country", "daily_work_period_region"},
	"dd.v1.PlaceRecordG2":                       {"entry_time", "daily_work_period_country", "daily_work_period_region"},
	"dd.v1.GNSSPlaceRecord":                     {"timestamp", "geo_coordinates"},
	"dd.v1.GeoCoordinates":                      {"latitude", "longitude"},
	"dd.v1.CardVehicleRecord":                   {"vehicle_first_use", "vehicle_last_use"},
	"dd.v1.VehicleRegistrationIdentification":   {"number"},
	"card.v1.Identification":                    {"signature"},
	"card.v1.Places":                            {"signature"},
	"card.v1.PlacesG2":                          {"signature"},
	"card.v1.VehiclesUsed":                      {"signature"},
	"dd.v1.ActivityChangeInfo":                  {"time_of_change_minutes"},
}

// anonymise every personal field found by editing it: other is the same message with other personal values.
func repersonalise(g *G, pool editPool, m protoreflect.Message) (other protoreflect.Message, changed int) {
	c := proto.Clone(m.Interface()).ProtoReflect()
	for _, s := range editSites(c, "", nil) {
		name := shortName(s.m)
		for _, p := range personal[name] {
			if p == string(s.fd.Name()) && g.P(5, 6) {
				if _, ok := pool.edit(g, s); ok {
					changed++
				}
			}
		}
	}
	return c, changed
}

// masked is the message without its personal values and the bytes that hold them.
func masked(m proto.Message) proto.Message {
	c := stripped(m)
	walkMessages(c.ProtoReflect(), "", func(_ string, m protoreflect.Message) {
		for _, p := range personal[shortName(m)] {
			if fd := m.Descriptor().Fields().ByName(protoreflect.Name(p)); fd != nil {
				m.Clear(fd)
			}
			if fd := m.Descriptor().Fields().ByName(protoreflect.Name("unrecognized_" + p)); fd != nil {
				m.Clear(fd)
			}
		}
		// rounded by the anonymisers
		for _, p := range []string{"vehicle_odometer_km", "vehicle_odometer_begin_km", "vehicle_odometer_end_km"} {
			if fd := m.Descriptor().Fields().ByName(protoreflect.Name(p)); fd != nil {
				m.Clear(fd)
			}
		}
		for _, p := range []string{"geo_coordinates", "driver_identification"} {
			if fd := m.Descriptor().Fields().ByName(protoreflect.Name(p)); fd != nil && fd.Message() != nil {
				m.Clear(fd)
			}
		}
	})
	return zeroless(c)
}

// anonymiser is one function under observation.
type anonymiser struct {
	name string
	get  func(d *cardv1.DriverCardFile) proto.Message
	set  func(d *cardv1.DriverCardFile, m proto.Message)
	f    func(m proto.Message) proto.Message
	odo  int // rounding of the odometer
}

var anonymisers = []anonymiser{
	{"AnonymizeIdentification",
		func(d *cardv1.DriverCardFile) proto.Message {
			if m := d.GetTachograph().GetIdentification(); m != nil {
				return m
			}
			return nil
		},
		func(d *cardv1.DriverCardFile, m proto.Message) {
			t := &cardv1.DriverCardFile_Tachograph{}
			t.SetIdentification(m.(*cardv1.Identification))
			d.SetTachograph(t)
		},
		func(m proto.Message) proto.Message { return card.AnonymizeIdentification(m.(*cardv1.Identification)) }, 0},
	{"AnonymizePlaces",
		func(d *cardv1.DriverCardFile) proto.Message {
			if m := d.GetTachograph().GetPlaces(); m != nil {
				return m
			}
			return nil
		},
		func(d *cardv1.DriverCardFile, m proto.Message) {
			t := &cardv1.DriverCardFile_Tachograph{}
			t.SetPlaces(m.(*cardv1.Places))
			d.SetTachograph(t)
		},
		func(m proto.Message) proto.Message { return card.AnonymizePlaces(m.(*cardv1.Places)) }, 100},
	{"AnonymizePlacesG2",
		func(d *cardv1.DriverCardFile) proto.Message {
			if m := d.GetTachographG2().GetPlaces(); m != nil {
				return m
			}
			return nil
		},
		func(d *cardv1.DriverCardFile, m proto.Message) {
			t := &cardv1.DriverCardFile_TachographG2{}
			t.SetPlaces(m.(*cardv1.PlacesG2))
			d.SetTachographG2(t)
		},
		func(m proto.Message) proto.Message { return card.AnonymizePlacesG2(m.(*cardv1.PlacesG2)) }, 100},
	{"AnonymizeVehiclesUsed",
		func(d *cardv1.DriverCardFile) proto.Message {
			if m := d.GetTachograph().GetVehiclesUsed(); m != nil {
				return m
			}
			return nil
		},
		func(d *cardv1.DriverCardFile, m proto.Message) {
			t := &cardv1.DriverCardFile_Tachograph{}
			t.SetVehiclesUsed(m.(*cardv1.VehiclesUsed))
			d.SetTachograph(t)
		},
		func(m proto.Message) proto.Message { return card.AnonymizeVehiclesUsed(m.(*cardv1.VehiclesUsed)) }, 1000},
}

// call anonymises and watches the input.
func (r *Run) anonCall(name string, m proto.Message, f func(proto.Message) proto.Message) (out proto.Message, ok bool) {
	before := digest(m)
	if p, st := guard(func() { out = f(m) }); p != nil {
		r.Violate(name+":panic:"+panicSite(st), fmt.Sprintf("%s panicked: %v on %.300s", name, p, compact(m)), before)
		return nil, false
	}
	if !bytes.Equal(before, digest(m)) {
		r.Violate(name+":modifies", fmt.Sprintf("%s modified its input %.300s", name, compact(m)), before)
		return nil, false
	}
	return out, true
}

// odometers collects the readings of a message in order.
func odometers(m proto.Message) (l []int64) {
	walkMessages(m.ProtoReflect(), "", func(_ string, m protoreflect.Message) {
		switch shortName(m) {
		case "dd.v1.PlaceRecord", "dd.v1.PlaceRecordG2", "dd.v1.CardVehicleRecord":
			for _, n := range []string{"vehicle_odometer_km", "vehicle_odometer_begin_km", "vehicle_odometer_end_km"} {
				if fd := m.Descriptor().Fields().ByName(protoreflect.Name(n)); fd != nil {
					l = append(l, m.Get(fd).Int())
				}
			}
		}
	})
	return l
}

// pairVerdict compares the results of two inputs that differ only in personal values.
func (r *Run) pairVerdict(name string, a, b, oa, ob proto.Message, odo int) bool {
	r.Count("pairs: "+name, 1)
	r.Eval(!proto.Equal(a, b), digest(a), digest(b))
	if !proto.Equal(oa, ob) {
		_, text := firstDifference(oa.ProtoReflect(), ob.ProtoReflect())
		path, _ := firstDifference(oa.ProtoReflect(), ob.ProtoReflect())
		_, in := firstDifference(a.ProtoReflect(), b.ProtoReflect())
		r.Violate(name+":depends:"+pathKey(path), fmt.Sprintf("%s: two inputs that differ in personal values only (%s ...) give different results: %s", name, in, text), digest(a))
		return false
	}
	wa, wo := masked(a), masked(oa)
	if !proto.Equal(wa, wo) {
		path, text := firstDifference(wa.ProtoReflect(), wo.ProtoReflect())
		r.Violate(name+":structure:"+pathKey(path), fmt.Sprintf("%s does not preserve the structure: %s", name, text), digest(a))
		return false
	}
	if odo > 0 {
		x, y := odometers(a), odometers(oa)
		for i := range x {
			if i >= len(y) || x[i]-y[i] >= int64(odo) || y[i]-x[i] >= int64(odo) {
				r.Violate(name+":odometer", fmt.Sprintf("%s: odometer readings %v became %v", name, x, y), digest(a))
				return false
			}
		}
	}
	return true
}

func runP17(r *Run) {
	r.rule = "one case = one pair of records or files that agree on structural values and differ in personal ones, both anonymised; non-trivial = the inputs differ; distinct by the pair"
	pg := &G{Rand: NewRand(r.Seed, "P17/pool")}
	pool := editPool{}
	for i := 0; i < r.N(40, 120); i++ {
		if f := parse(genCard(pg, cardOpts{gen1: true, gen2: true, pInclude: 100}).bytes()).f; f != nil {
			pool.collect(f)
		}
	}
	g := &G{Rand: NewRand(r.Seed, "P17")}
	only := map[string]bool{"ICC": true, "Identification": true, "Places": true, "PlacesG2": true, "VehiclesUsed": true}
	for i, n := 0, r.N(600, 8000); i < n; i++ {
		g.Hostile = g.P(1, 3)
		b := genCard(g, cardOpts{gen1: true, gen2: true, pInclude: 100, only: only}).bytes()
		r.Case("card", b)
		o := parse(b)
		if o.f == nil {
			r.Count("unparsed", 1)
			continue
		}
		d := o.f.GetDriverCard()
		for _, an := range anonymisers {
			m := an.get(d)
			if m == nil {
				continue
			}
			oa, ok := r.anonCall(an.name, m, an.f)
			if !ok {
				continue
			}
			for rep := 0; rep < 3; rep++ {
				om, changed := repersonalise(g, pool, m.ProtoReflect())
				if changed == 0 {
					continue
				}
				// the other input comes from bytes as well, when its bytes can be had
				other := om.Interface()
				if rep > 0 {
					f := proto.Clone(o.f).(*File)
					an.set(f.GetDriverCard(), proto.Clone(other))
					if mo := marshal(f); mo.err == nil && mo.panic == nil {
						if p := parse(mo.b); p.f != nil && an.get(p.f.GetDriverCard()) != nil {
							other = an.get(p.f.GetDriverCard())
							r.Count("pairs parsed from bytes", 1)
						}
					}
				}
				ob, ok := r.anonCall(an.name, other, an.f)
				if !ok {
					continue
				}
				r.pairVerdict(an.name, m, other, oa, ob, an.odo)
				r.damagedFiles(g, an, m, other)
				if again, ok := r.anonCall(an.name, oa, an.f); ok && !proto.Equal(again, oa) {
					_, text := firstDifference(oa.ProtoReflect(), again.ProtoReflect())
					r.Violate(an.name+":idempotent", fmt.Sprintf("%s of its own result is another: %s", an.name, text), digest(m))
				}
			}
			// the result survives a card
			f := proto.Clone(o.f).(*File)
			f.GetDriverCard().ClearTachograph()
			f.GetDriverCard().ClearTachographG2()
			an.set(f.GetDriverCard(), oa)
			mo := marshal(f)
			if mo.err != nil || mo.panic != nil {
				r.Violate(an.name+":unwritable", fmt.Sprintf("%s: the result cannot be marshalled: %v %v", an.name, mo.err, mo.panic), b)
				continue
			}
			bare := proto.Clone(f).(*File)
			stripRaw(an.get(bare.GetDriverCard()).ProtoReflect())
			// the language is kept as it was, undecodable bytes included
			walkPairs(oa.ProtoReflect(), an.get(bare.GetDriverCard()).ProtoReflect(), "card_holder_preferred_language")
			if mb := marshal(bare); mb.err != nil || !bytes.Equal(mb.b, mo.b) {
				r.Violate(an.name+":raw", fmt.Sprintf("%s: the result's bytes and fields disagree: with its raw data it is marshalled otherwise than without (%v)", an.name, mb.err), b)
			}
			p := parse(mo.b)
			if p.f == nil || an.get(p.f.GetDriverCard()) == nil {
				r.Violate(an.name+":unreadable", fmt.Sprintf("%s: the marshalled result is not parsed: %v", an.name, p.err), b)
				continue
			}
			got, want := zeroless(stripped(an.get(p.f.GetDriverCard()))), zeroless(stripped(oa))
			if !proto.Equal(got, want) {
				path, text := firstDifference(want.ProtoReflect(), got.ProtoReflect())
				r.Violate(an.name+":parses-back:"+pathKey(path), fmt.Sprintf("%s: the result is parsed back otherwise: %s", an.name, text), b)
			}
			r.Count("results parsed back", 1)
		}
	}
	r.anonOtherCards(g, pool)
	r.anonRecords(g, pool)
	r.Require("results parsed back", 500)
	r.Require("damaged pairs", 2000)
	for _, an := range anonymisers {
		r.Require("pairs: "+an.name, 300)
	}
}

// damagedPair compares the results of two inputs that were damaged at the same place: nothing may be told from one that
// cannot be told from the other.
func (r *Run) damagedPair(name string, a, b proto.Message, f func(proto.Message) proto.Message, in []byte) {
	oa, ok1 := r.anonCall(name, a, f)
	ob, ok2 := r.anonCall(name, b, f)
	if !ok1 || !ok2 {
		return
	}
	r.Count("damaged pairs", 1)
	r.Eval(!proto.Equal(a, b), digest(a), digest(b))
	if !proto.Equal(oa, ob) {
		path, text := firstDifference(oa.ProtoReflect(), ob.ProtoReflect())
		_, from := firstDifference(a.ProtoReflect(), b.ProtoReflect())
		r.Violate(name+":depends-damaged:"+pathKey(path), fmt.Sprintf("%s: two inputs with the same damage that differ in personal values only (%s ...) give different results: %s", name, from, text), in)
	}
}

// damagedRecords writes both records, damages the same byte of each and anonymises what they are read as.
func (r *Run) damagedRecords(g *G, t *ddType, name string, a, b proto.Message, in []byte, f func(proto.Message) proto.Message) {
	ba, err1, ok1 := r.append1(t, "a record", a, in)
	bb, err2, ok2 := r.append1(t, "a record", b, in)
	if !ok1 || !ok2 || err1 != nil || err2 != nil || len(ba) != len(bb) {
		return
	}
	at, v := g.N(len(ba)), pick(g.Rand, byte(g.U64()), 0xFF, 0x80, byte(0x30+g.N(0xC0)))
	ba, bb = cp(ba), cp(bb)
	ba[at], bb[at] = v, v
	pa, err1, ok1 := r.unmarshal1(t, ba)
	pb, err2, ok2 := r.unmarshal1(t, bb)
	if !ok1 || !ok2 || err1 != nil || err2 != nil || pa == nil || pb == nil {
		return
	}
	r.damagedPair(name, pa, pb, f, ba)
}

// damagedFiles does so with two files of a card.
func (r *Run) damagedFiles(g *G, an anonymiser, a, b proto.Message) {
	write := func(m proto.Message) []byte {
		d := &cardv1.DriverCardFile{}
		an.set(d, proto.Clone(m))
		f := &File{}
		f.SetType(2)
		f.SetDriverCard(d)
		if o := marshal(f); o.err == nil && o.panic == nil {
			return cp(o.b)
		}
		return nil
	}
	ba, bb := write(a), write(b)
	if len(ba) < 6 || len(ba) != len(bb) {
		return
	}
	for k := 0; k < 3; k++ {
		at, v := 5+g.N(len(ba)-5), pick(g.Rand, byte(g.U64()), 0xFF, 0x80, byte(0x30+g.N(0xC0)))
		ca, cb := cp(ba), cp(bb)
		ca[at], cb[at] = v, v
		fa, fb := parse(ca), parse(cb)
		if fa.f == nil || fb.f == nil {
			continue
		}
		pa, pb := an.get(fa.f.GetDriverCard()), an.get(fb.f.GetDriverCard())
		if pa == nil || pb == nil {
			continue
		}
		r.damagedPair(an.name, pa, pb, an.f, ca)
	}
}

// anonOtherCards anonymises identifications of workshop, control and company cards.
func (r *Run) anonOtherCards(g *G, pool editPool) {
	// owner and holder texts of other cards are as wide as those of a driver card
	text := func(key string) *ddv1.StringValue {
		vs := pool[key]
		return proto.Clone(vs[g.N(len(vs))].Message().Interface()).(*ddv1.StringValue)
	}
	sur, first := "", ""
	for k := range pool {
		if len(k) > 60 && k[:60] == "card.v1.Identification.DriverCardHolder.card_holder_surname/35"[:60] {
			sur = k
		}
	}
	if sur == "" {
		return
	}
	first = sur
	ia5 := func(n int) *ddv1.Ia5StringValue {
		v := &ddv1.Ia5StringValue{}
		b := make([]byte, n)
		for i := range b {
			b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[g.N(36)]
		}
		v.SetValue(string(b))
		v.SetLength(int32(n))
		if g.Bool() {
			v.SetRawData(b)
		}
		return v
	}
	g.Hostile = false
	for i, n := 0, r.N(600, 6000); i < n; i++ {
		typ := pick(g.Rand, cardv1.CardType_WORKSHOP_CARD, cardv1.CardType_CONTROL_CARD, cardv1.CardType_COMPANY_CARD)
		ci, ri, ni := ia5(1), ia5(1), ia5(1)
		lang := &ddv1.StringValue{}
		lang.SetValue(pick(g.Rand, "sv", "de", "fr", "  "))
		lang.SetLength(2)
		lang.SetRawData([]byte(lang.GetValue()))
		nation := ddv1.NationNumeric(2 + g.N(40))
		mk := func() *cardv1.Identification {
			id := &cardv1.Identification{}
			id.SetCardType(typ)
			c := &cardv1.Identification_Card{}
			c.SetCardIssuingMemberState(nation)
			ow := &ddv1.OwnerIdentification{}
			ow.SetOwnerIdentification(ia5(13))
			ow.SetConsecutiveIndex(ci)
			ow.SetReplacementIndex(ri)
			ow.SetRenewalIndex(ni)
			c.SetOwnerIdentification(ow)
			c.SetCardIssuingAuthorityName(text(sur))
			id.SetCard(c)
			switch typ {
			case cardv1.CardType_WORKSHOP_CARD:
				h := &cardv1.Identification_WorkshopCardHolder{}
				h.SetWorkshopName(text(sur))
				h.SetWorkshopAddress(text(first))
				h.SetCardHolderSurname(text(sur))
				h.SetCardHolderFirstNames(text(first))
				h.SetCardHolderPreferredLanguage(lang)
				id.SetWorkshopCardHolder(h)
			case cardv1.CardType_CONTROL_CARD:
				h := &cardv1.Identification_ControlCardHolder{}
				h.SetControlBodyName(text(sur))
				h.SetControlBodyAddress(text(first))
				h.SetCardHolderSurname(text(sur))
				h.SetCardHolderFirstNames(text(first))
				h.SetCardHolderPreferredLanguage(lang)
				id.SetControlCardHolder(h)
			default:
				h := &cardv1.Identification_CompanyCardHolder{}
				h.SetCompanyName(text(sur))
				h.SetCompanyAddress(text(first))
				h.SetCardHolderPreferredLanguage(lang)
				id.SetCompanyCardHolder(h)
			}
			if g.Bool() {
				id.SetSignature(g.Bytes(64))
			}
			return id
		}
		a, b := mk(), mk()
		f := anonymisers[0].f
		oa, ok1 := r.anonCall("AnonymizeIdentification", a, f)
		ob, ok2 := r.anonCall("AnonymizeIdentification", b, f)
		if ok1 && ok2 {
			r.Count("other cards", 1)
			r.pairVerdict("AnonymizeIdentification", a, b, oa, ob, 0)
		}
	}
	r.Require("other cards", 300)
}

// anonRecords anonymises single records. They keep their place in time where the file they belong to sets it.
func (r *Run) anonRecords(g *G, pool editPool) {
	type recAnon struct {
		name  string
		typ   string
		f     func(m proto.Message, i int) proto.Message
		odo   int
		timed bool // the record keeps its time
	}
	types := map[string]*ddType{}
	for _, t := range ddTypes() {
		types[t.name] = t
	}
	for _, ra := range []recAnon{
		{"AnonymizeActivityChangeInfo", "ActivityChangeInfo", func(m proto.Message, i int) proto.Message {
			return dd.AnonymizeActivityChangeInfo(m.(*ddv1.ActivityChangeInfo), i)
		}, 0, false},
		{"AnonymizeCardVehicleRecord", "CardVehicleRecord", func(m proto.Message, i int) proto.Message {
			return dd.AnonymizeCardVehicleRecord(m.(*ddv1.CardVehicleRecord), i)
		}, 1000, false},
		{"AnonymizeDriverIdentification", "DriverIdentification", func(m proto.Message, i int) proto.Message {
			return dd.AnonymizeDriverIdentification(m.(*ddv1.DriverIdentification))
		}, 0, false},
		{"AnonymizeGNSSPlaceRecord", "GNSSPlaceRecord", func(m proto.Message, i int) proto.Message {
			return dd.AnonymizeGNSSPlaceRecord(m.(*ddv1.GNSSPlaceRecord))
		}, 0, true},
		{"AnonymizePlaceRecord", "PlaceRecord", func(m proto.Message, i int) proto.Message {
			return dd.AnonymizePlaceRecord(m.(*ddv1.PlaceRecord))
		}, 100, true},
		{"AnonymizePlaceRecordG2", "PlaceRecordG2", func(m proto.Message, i int) proto.Message {
			return dd.AnonymizePlaceRecordG2(m.(*ddv1.PlaceRecordG2))
		}, 100, true},
	} {
		t := types[ra.typ]
		for i, n := 0, r.N(1500, 30000); i < n; i++ {
			g.Hostile = t.any && g.P(1, 3)
			in := t.c.gen(g)
			a, err, ok := r.unmarshal1(t, in)
			if !ok || err != nil || a == nil {
				continue
			}
			om, changed := repersonalise(g, pool, a.ProtoReflect())
			if changed == 0 {
				continue
			}
			if ra.timed {
				// the times stay the same
				for _, p := range []string{"timestamp", "entry_time"} {
					walkPairs(a.ProtoReflect(), om, p)
				}
			}
			b := om.Interface()
			if g.Bool() {
				if out, err, ok := r.append1(t, "an edited record", b, in); ok && err == nil {
					if p, err, ok := r.unmarshal1(t, out); ok && err == nil && p != nil {
						b = p
					}
				}
			}
			idx := pick(g.Rand, 0, 1, g.N(50), g.N(2000))
			f := func(m proto.Message) proto.Message { return ra.f(m, idx) }
			oa, ok1 := r.anonCall(ra.name, a, f)
			ob, ok2 := r.anonCall(ra.name, b, f)
			if !ok1 || !ok2 || !r.pairVerdict(ra.name, a, b, oa, ob, ra.odo) {
				continue
			}
			r.damagedRecords(g, t, ra.name, a, b, in, f)
			out, err, ok := r.append1(t, "an anonymised record", oa, in)
			if !ok {
				continue
			}
			if err != nil {
				r.Violate(ra.name+":unwritable", fmt.Sprintf("%s: the result of %s cannot be serialised: %v", ra.name, hexs(in), err), in)
				continue
			}
			bare := proto.Clone(oa)
			stripRaw(bare.ProtoReflect())
			if ob, err, ok := r.append1(t, "an anonymised record", bare, in); ok && (err != nil || !bytes.Equal(out, ob)) {
				r.Violate(ra.name+":raw", fmt.Sprintf("%s: the result of %s is written as %s with its raw data and as %s without", ra.name, hexs(in), hexs(out), hexs(ob)), in)
			}
			c, err, ok := r.unmarshal1(t, out)
			if !ok {
				continue
			}
			if err != nil || !proto.Equal(zeroless(stripped(c)), zeroless(stripped(oa))) {
				r.Violate(ra.name+":parses-back", fmt.Sprintf("%s: the result %s is parsed back as %s (%v)", ra.name, compact(oa), compact(c), err), in)
			}
			r.Count("records parsed back", 1)
		}
		r.Require("pairs: "+ra.name, 300)
	}
}

// walkPairs copies a field from the messages of a to the same messages of b.
func walkPairs(a, b protoreflect.Message, field string) {
	at := map[string]protoreflect.Message{}
	walkMessages(a, "", func(p string, m protoreflect.Message) { at[p] = m })
	var bs []protoreflect.Message
	var ps []string
	walkMessages(b, "", func(p string, m protoreflect.Message) { bs = append(bs, m); ps = append(ps, p) })
	for i, m := range bs {
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(field))
		o := at[ps[i]]
		if fd == nil || o == nil {
			continue
		}
		if o.Has(fd) {
			m.Set(fd, protoreflect.ValueOfMessage(proto.Clone(o.Get(fd).Message().Interface()).ProtoReflect()))
		} else {
			m.Clear(fd)
		}
	}
}
