package main

import (
	"encoding/binary"
	"fmt"
)

// EF is one elementary file of a driver card: how its bytes are made and what they mean.
type EF struct {
	name   string
	fid    uint16
	field  string // field of the application message
	gens   []int  // generations it exists in (nil: card level, outside the applications)
	signed bool   // carries a signature on real cards
	gen    func(g *G) []byte
	dec    func(b []byte) *Obj
	cert   bool
	lead   int // bytes before the records of a list
	unit   int // size of a record of a list, 0 for files of a fixed length
}

func fixedEF(name string, fid uint16, field string, gens []int, signed bool, c C) *EF {
	return &EF{name: name, fid: fid, field: field, gens: gens, signed: signed, gen: c.gen, dec: func(b []byte) *Obj { return c.dec(b).(*Obj) }}
}

func iccC() C {
	return S(false, f("clock_stop", enumC("dd.v1.ClockStopMode")), f("card_extended_serial_number", extSerialC()),
		f("card_approval_number", ia5C(8)), f("card_personaliser_id", uintC(1)),
		f("embedder_ic_assembler_id", S(false, f("country_code", ia5C(2)), f("module_embedder", ia5C(2)), f("manufacturer_information", uintC(1)))),
		f("ic_identifier", bytesC(2)))
}
func icC() C {
	return S(false, f("ic_serial_number", bytesC(4)), f("ic_manufacturing_references", bytesC(4)))
}

// constF sets a constant value without consuming bytes.
func constF(name string, v any) F {
	return F{0, func(g *G) []byte { return nil }, func(b []byte, o *Obj) { o.m[name] = v }}
}

func cardTypeF() F { return constF("card_type", Enum(1)) } // DRIVER_CARD

func appIDG1C() C {
	return S(false, cardTypeF(), f("type_of_tachograph_card_id", enumC("dd.v1.EquipmentType")), f("card_structure_version", csvC()),
		f("driver", S(false, f("events_per_type_count", uintC(1)), f("faults_per_type_count", uintC(1)), f("activity_structure_length", uintC(2)),
			f("card_vehicle_records_count", uintC(2)), f("card_place_records_count", uintC(1)))))
}

func appIDG2C() C {
	return S(false, cardTypeF(), f("type_of_tachograph_card_id", enumC("dd.v1.EquipmentType")), f("card_structure_version", csvC()),
		f("driver", S(false, f("events_per_type_count", uintC(1)), f("faults_per_type_count", uintC(1)), f("activity_structure_length", uintC(2)),
			f("card_vehicle_records_count", uintC(2)), f("card_place_records_count", uintC(2)), f("gnss_ad_records_count", uintC(2)),
			f("specific_condition_records_count", uintC(2)), f("card_vehicle_unit_records_count", uintC(2)))))
}

func appIDV2C() C {
	return S(false, cardTypeF(), f("driver", S(false, f("length_of_following_data", uintC(2)), f("border_crossing_records_count", uintC(2)),
		f("load_unload_records_count", uintC(2)), f("load_type_entry_records_count", uintC(2)), f("vu_configuration_length_range", uintC(2)))))
}

func licenceC() C {
	return S(false, f("driving_licence_issuing_authority", strC(36)), f("driving_licence_issuing_nation", enumC("dd.v1.NationNumeric")), f("driving_licence_number", ia5C(16)))
}

func digitC() C {
	return C{1, func(g *G) []byte { return []byte{byte('0' + g.N(10))} }, ia5C(1).dec}
}

// cardNumberIndexC is a replacement/renewal index of a driver card number: digits first, then letters.
func cardNumberIndexC() C {
	return C{1, func(g *G) []byte {
		if g.hostile() {
			return []byte{byte('A' + g.N(26))}
		}
		return []byte{byte('0' + g.N(10))}
	}, ia5C(1).dec}
}

func identificationC() C {
	return S(false, cardTypeF(),
		f("card", S(false, f("card_issuing_member_state", enumC("dd.v1.NationNumeric")),
			f("driver_identification", S(false, f("driver_identification_number", ia5C(14)), f("card_replacement_index", digitC()), f("card_renewal_index", digitC()))),
			f("card_issuing_authority_name", strC(36)), f("card_issue_date", timeC()), f("card_validity_begin", timeC()), f("card_expiry_date", timeC()))),
		f("driver_card_holder", S(false, f("card_holder_surname", strC(36)), f("card_holder_first_names", strC(36)), f("card_holder_birth_date", dateC()), f("card_holder_preferred_language", ia5C(2)))))
}

func eventRecC(prefix string) C {
	val := S(true, f(prefix+"_type", enumC("dd.v1.EventFaultType")), f(prefix+"_begin_time", timeNZC()), f(prefix+"_end_time", timeC()), f(prefix+"_vehicle_registration", regC()))
	return C{24, func(g *G) []byte {
		switch g.N(5) {
		case 0:
			return make([]byte, 24) // never used slot
		case 1: // default content: zero times, blank registration
			b := make([]byte, 24)
			copy(b[11:], "             ")
			return b
		}
		return val.gen(g)
	}, func(b []byte) any {
		if be(b[1:5]) == 0 {
			return &Obj{m: map[string]any{"valid": false}, raw: cp(b)}
		}
		o := val.dec(b).(*Obj)
		o.m["valid"] = true
		return o
	}}
}

func genList(c C, maxN int, extra int) func(g *G, pre []byte) []byte { return nil }

// listEF is a file of a fixed prefix (pointer) and a list of fixed-size records.
func listEF(name string, fid uint16, field string, gens []int, ptr int, ptrField string, recField string, rec C, max int, keepRaw bool) *EF {
	return &EF{name: name, fid: fid, field: field, gens: gens, signed: true, lead: ptr, unit: rec.n,
		gen: func(g *G) []byte {
			n := g.N(6)
			if g.P(1, 10) {
				n = g.N(max + 1)
			}
			if g.P(1, 40) {
				n = max
			}
			if g.P(1, 60) {
				n = 4200/rec.n + g.N(40) // a large card
			}
			b := g.Bytes(ptr)
			for i := 0; i < n; i++ {
				if i > 0 && g.P(1, 10) { // two records may say the same
					b = append(b, b[len(b)-rec.n:]...)
					continue
				}
				b = append(b, rec.gen(g)...)
			}
			return b
		},
		dec: func(b []byte) *Obj {
			o := &Obj{m: map[string]any{}}
			if ptr > 0 {
				o.m[ptrField] = be(b[:ptr])
			}
			var l List
			for off := ptr; off+rec.n <= len(b); off += rec.n {
				l = append(l, rec.dec(b[off:off+rec.n]))
			}
			o.m[recField] = l
			if keepRaw {
				o.raw = cp(b)
			}
			return o
		}}
}

func currentUsageC() C {
	return S(false, f("session_open_time", timeC()), f("session_open_vehicle", regC()))
}

func controlActivityC() C {
	fcng := fullCardNumberC()
	val := S(true, f("control_type", controlTypeC()), f("control_time", timeNZC()),
		f("control_card_number", C{18, fcng.gen, func(b []byte) any {
			return &Obj{m: map[string]any{"full_card_number": fcng.dec(b), "generation": Skip{}}}
		}}),
		f("control_vehicle_registration", regC()), f("control_download_period_begin", timeC()), f("control_download_period_end", timeC()))
	return C{46, func(g *G) []byte {
		switch g.N(5) {
		case 0:
			return make([]byte, 46)
		case 1: // no control yet: default values
			b := make([]byte, 46)
			for i := 7; i < 23; i++ {
				b[i] = ' '
			}
			for i := 25; i < 38; i++ {
				b[i] = ' '
			}
			return b
		}
		return val.gen(g)
	}, func(b []byte) any {
		if be(b[1:5]) == 0 {
			return &Obj{m: map[string]any{"valid": false}, raw: cp(b)}
		}
		o := val.dec(b).(*Obj)
		o.m["valid"] = true
		return o
	}}
}

func gnssAccRecC() C {
	return S(false, f("timestamp", timeC()), f("gnss_place_record", gnssPlaceC()), f("vehicle_odometer_km", odoC()))
}

func vuUsedRecC() C {
	return S(false, f("timestamp", timeC()), f("manufacturer_code", uintC(1)), f("device_id", bytesC(1)), f("vu_software_version", bytesC(4)))
}

var (
	g1   = []int{1}
	g2   = []int{2}
	g12  = []int{1, 2}
	noG  = []int(nil)
	efs  []*EF
	efBy = map[string]*EF{}
)

func rsaCertEF(name string, fid uint16, field string) *EF {
	return &EF{name: name, fid: fid, field: field, gens: g1, cert: true,
		gen: genRsaCertBytes, dec: func(b []byte) *Obj {
			return &Obj{m: map[string]any{"rsa_certificate": decRsaCert(b)}}
		}}
}

func eccCertEF(name string, fid uint16, field string) *EF {
	return &EF{name: name, fid: fid, field: field, gens: g2, cert: true,
		gen: genEccCertBytes, dec: func(b []byte) *Obj {
			return &Obj{m: map[string]any{"ecc_certificate": decEccCert(b)}}
		}}
}

// genRsaCertBytes: 128 signature, 58 remainder, 8 authority reference.
func genRsaCertBytes(g *G) []byte {
	b := g.Bytes(194)
	if g.P(1, 8) {
		b[186] = 0
	}
	return b
}

func decRsaCert(b []byte) *Obj {
	return &Obj{m: map[string]any{"certificate_authority_reference": Text{fmt.Sprintf("%d", binary.BigEndian.Uint64(b[186:194]))}}, raw: cp(b)}
}

func tlv1(tag []byte, v []byte) []byte {
	o := append([]byte{}, tag...)
	switch {
	case len(v) < 128:
		o = append(o, byte(len(v)))
	case len(v) < 256:
		o = append(o, 0x81, byte(len(v)))
	default:
		o = append(o, 0x82, byte(len(v)>>8), byte(len(v)))
	}
	return append(o, v...)
}

type eccParams struct {
	oid  []byte // DER content
	oidS string
	flen int
}

var eccCurves = []eccParams{
	{[]byte{0x2B, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x07}, "1.3.36.3.3.2.8.1.1.7", 32},
	{[]byte{0x2B, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x0B}, "1.3.36.3.3.2.8.1.1.11", 48},
	{[]byte{0x2B, 0x24, 0x03, 0x03, 0x02, 0x08, 0x01, 0x01, 0x0D}, "1.3.36.3.3.2.8.1.1.13", 64},
	{[]byte{0x2A, 0x86, 0x48, 0xCE, 0x3D, 0x03, 0x01, 0x07}, "1.2.840.10045.3.1.7", 32},
	{[]byte{0x2B, 0x81, 0x04, 0x00, 0x22}, "1.3.132.0.34", 48},
	{[]byte{0x2B, 0x81, 0x04, 0x00, 0x23}, "1.3.132.0.35", 66},
}

// eccCertBytes assembles a certificate of the regulation's Appendix 11 part B layout.
func eccCertBody(cpi byte, car, cha []byte, p eccParams, x, y []byte, chr []byte, eff, exp uint32) []byte {
	pk := append(tlv1([]byte{0x06}, p.oid), tlv1([]byte{0x86}, append(append([]byte{4}, x...), y...))...)
	var body []byte
	body = append(body, tlv1([]byte{0x5F, 0x29}, []byte{cpi})...)
	body = append(body, tlv1([]byte{0x42}, car)...)
	body = append(body, tlv1([]byte{0x5F, 0x4C}, cha)...)
	body = append(body, tlv1([]byte{0x7F, 0x49}, pk)...)
	body = append(body, tlv1([]byte{0x5F, 0x20}, chr)...)
	body = append(body, tlv1([]byte{0x5F, 0x25}, be4(eff))...)
	body = append(body, tlv1([]byte{0x5F, 0x24}, be4(exp))...)
	return tlv1([]byte{0x7F, 0x4E}, body)
}

func eccCertWrap(body, sig []byte) []byte {
	return tlv1([]byte{0x7F, 0x21}, append(append([]byte{}, body...), tlv1([]byte{0x5F, 0x37}, sig)...))
}

type eccParts struct {
	car, cha, chr []byte
	p             eccParams
	x, y          []byte
	eff, exp      uint32
	r, s          []byte
}

func (e *eccParts) bytes() []byte {
	return eccCertWrap(eccCertBody(0, e.car, e.cha, e.p, e.x, e.y, e.chr, e.eff, e.exp), append(append([]byte{}, e.r...), e.s...))
}

func genEccParts(g *G) *eccParts {
	p := eccCurves[g.N(len(eccCurves))]
	q := eccCurves[g.N(3)]
	e := &eccParts{car: g.Bytes(8), cha: g.Bytes(7), chr: g.Bytes(8), p: p, x: g.Bytes(p.flen), y: g.Bytes(p.flen),
		eff: uint32(be(genTimeNZ(g))), exp: uint32(be(genTimeNZ(g))), r: g.Bytes(q.flen), s: g.Bytes(q.flen)}
	e.car[0] |= 0x10
	e.chr[0] |= 0x10
	return e
}

func genEccCertBytes(g *G) []byte {
	for {
		b := genEccParts(g).bytes()
		if len(b) >= 204 && len(b) <= 341 {
			return b
		}
	}
}

// tlvWalk reads one BER TLV.
func berRead(b []byte) (tag int, val, rest []byte) {
	tag = int(b[0])
	i := 1
	if b[0]&0x1F == 0x1F {
		tag = tag<<8 | int(b[1])
		i = 2
	}
	l := int(b[i])
	i++
	if l >= 0x80 {
		k := l & 0x7F
		l = 0
		for ; k > 0; k-- {
			l = l<<8 | int(b[i])
			i++
		}
	}
	return tag, b[i : i+l], b[i+l:]
}

func decEccCert(b []byte) *Obj {
	o := &Obj{m: map[string]any{}, raw: cp(b)}
	_, outer, _ := berRead(b)
	_, body, rest := berRead(outer)
	_, sig, _ := berRead(rest)
	dec64 := func(v []byte) Text { return Text{fmt.Sprintf("%d", binary.BigEndian.Uint64(v))} }
	for len(body) > 0 {
		var tag int
		var v []byte
		tag, v, body = berRead(body)
		switch tag {
		case 0x5F29:
			o.m["certificate_profile_identifier"] = int64(v[0])
		case 0x42:
			o.m["certificate_authority_reference"] = dec64(v)
		case 0x5F4C:
			o.m["certificate_holder_authorisation"] = cp(v)
		case 0x7F49:
			_, oid, r := berRead(v)
			_, pt, _ := berRead(r)
			n := (len(pt) - 1) / 2
			s := ""
			for _, c := range eccCurves {
				if string(c.oid) == string(oid) {
					s = c.oidS
				}
			}
			o.m["public_key"] = &Obj{m: map[string]any{"domain_parameters_oid": Text{s}, "public_point_x": cp(pt[1 : 1+n]), "public_point_y": cp(pt[1+n:])}}
		case 0x5F20:
			o.m["certificate_holder_reference"] = dec64(v)
		case 0x5F25:
			o.m["certificate_effective_date"] = decTime(v)
		case 0x5F24:
			o.m["certificate_expiration_date"] = decTime(v)
		}
	}
	n := len(sig) / 2
	o.m["signature"] = &Obj{m: map[string]any{"r": cp(sig[:n]), "s": cp(sig[n:])}}
	return o
}

func init() {
	add := func(e *EF) { efs = append(efs, e); efBy[e.name] = e }
	add(fixedEF("ICC", 0x0002, "icc", noG, false, iccC()))
	add(fixedEF("IC", 0x0005, "ic", noG, false, icC()))
	add(fixedEF("ApplicationIdentification", 0x0501, "application_identification", g1, true, appIDG1C()))
	add(fixedEF("ApplicationIdentificationG2", 0x0501, "application_identification", g2, true, appIDG2C()))
	add(fixedEF("DrivingLicenceInfo", 0x0521, "driving_licence_info", g12, true, licenceC()))
	add(fixedEF("Identification", 0x0520, "identification", g12, true, identificationC()))
	add(listEF("EventsData", 0x0502, "events_data", g12, 0, "", "events", eventRecC("event"), 6*12, false))
	add(listEF("FaultsData", 0x0503, "faults_data", g12, 0, "", "faults", eventRecC("fault"), 2*24, false))
	add(&EF{name: "DriverActivityData", fid: 0x0504, field: "driver_activity_data", gens: g12, signed: true, gen: genActivityEF, dec: decActivityEF})
	add(listEF("VehiclesUsed", 0x0505, "vehicles_used", g1, 2, "newest_record_index", "records", vehicleRecordC(), 200, true))
	add(listEF("VehiclesUsedG2", 0x0505, "vehicles_used", g2, 2, "newest_record_index", "records", vehicleRecordG2C(), 200, true))
	add(listEF("Places", 0x0506, "places", g1, 1, "newest_record_index", "records", placeC(), 112, true))
	add(listEF("PlacesG2", 0x0506, "places", g2, 2, "newest_record_index", "records", placeG2C(), 112, true))
	add(fixedEF("CurrentUsage", 0x0507, "current_usage", g12, true, currentUsageC()))
	add(fixedEF("ControlActivityData", 0x0508, "control_activity_data", g12, true, controlActivityC()))
	add(listEF("SpecificConditions", 0x0522, "specific_conditions", g1, 0, "", "records", specCondC(), 56, true))
	add(listEF("SpecificConditionsG2", 0x0522, "specific_conditions", g2, 2, "newest_record_index", "records", specCondC(), 112, true))
	add(fixedEF("CardDownload", 0x050E, "card_download", g12, false, S(false, f("timestamp", timeC()))))
	add(listEF("VehicleUnitsUsed", 0x0523, "vehicle_units_used", g2, 2, "vehicle_unit_pointer_newest_record", "records", vuUsedRecC(), 200, false))
	add(listEF("GnssPlaces", 0x0524, "gnss_places", g2, 2, "newest_record_index", "records", gnssAccRecC(), 336, false))
	add(fixedEF("ApplicationIdentificationV2", 0x0525, "application_identification_v2", g2, true, appIDV2C()))
	add(rsaCertEF("CardCertificate", 0xC100, "card_certificate"))
	add(rsaCertEF("CaCertificate", 0xC108, "ca_certificate"))
	add(eccCertEF("CardMaCertificate", 0xC100, "card_ma_certificate"))
	add(eccCertEF("CardSignCertificate", 0xC101, "card_sign_certificate"))
	add(eccCertEF("CaCertificateG2", 0xC108, "ca_certificate"))
	add(eccCertEF("LinkCertificate", 0xC109, "link_certificate"))
}
