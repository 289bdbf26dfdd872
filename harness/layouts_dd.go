package main

import "bytes"

// Reference layouts of the data dictionary structures.

func regC() C { // VehicleRegistrationIdentification, 15 bytes
	return S(false, f("nation", enumC("dd.v1.NationNumeric")), f("number", strC(14)))
}

// nationF is a one byte nation where unassigned codes may occur in hostile data.
func nationF(name string) F { return enumU(name, "", "dd.v1.NationNumeric") }

func vehicleRecordC() C {
	return S(true, f("vehicle_odometer_begin_km", odoC()), f("vehicle_odometer_end_km", odoC()),
		f("vehicle_first_use", timeC()), f("vehicle_last_use", timeC()),
		f("vehicle_registration", regC()), f("vu_data_block_counter", bcdC(2)))
}

func vinC() C { // 17 characters reported as a bare string
	return C{17, func(g *G) []byte {
		b := make([]byte, 17)
		k := 17
		if g.P(1, 5) {
			k = g.N(18)
		}
		for i := range b {
			b[i] = ' '
			if i < k {
				const cs = "ABCDEFGHJKLMNPRSTUVWXYZ0123456789"
				b[i] = cs[g.N(len(cs))]
			}
		}
		return b
	}, func(b []byte) any {
		i := len(b)
		for i > 0 && (b[i-1] == ' ' || b[i-1] == 0) {
			i--
		}
		for _, c := range b {
			if c >= 0x80 {
				return Skip{}
			}
		}
		return Text{string(b[:i])}
	}}
}

func vehicleRecordG2C() C {
	return S(true, f("vehicle_odometer_begin_km", odoC()), f("vehicle_odometer_end_km", odoC()),
		f("vehicle_first_use", timeC()), f("vehicle_last_use", timeC()),
		f("vehicle_registration", regC()), f("vu_data_block_counter", bcdC(2)),
		f("vehicle_identification_number", vinC()))
}

func gnssPlaceC() C {
	return S(false, f("timestamp", timeC()), f("gnss_accuracy", uintC(1)), f("geo_coordinates", geoC()))
}

func gnssPlaceAuthC() C {
	return S(false, f("timestamp", timeC()), f("gnss_accuracy", uintC(1)), f("geo_coordinates", geoC()),
		enumU("authentication_status", "unrecognized_authentication_status", "dd.v1.PositionAuthenticationStatus"))
}

func placeFields() []F {
	return []F{f("entry_time", timeC()),
		enumU("entry_type_daily_work_period", "unrecognized_entry_type_daily_work_period", "dd.v1.EntryTypeDailyWorkPeriod"),
		enumU("daily_work_period_country", "unrecognized_daily_work_period_country", "dd.v1.NationNumeric"),
		f("daily_work_period_region", bytesC(1)), f("vehicle_odometer_km", odoC())}
}

func placeC() C { return withSkip(S(true, placeFields()...), "valid") }
func placeG2C() C {
	return withSkip(S(true, append(placeFields(), f("entry_gnss_place_record", gnssPlaceC()))...), "valid")
}

// withSkip marks fields whose value is not judged.
func withSkip(c C, names ...string) C {
	return C{c.n, c.gen, func(b []byte) any {
		o := c.dec(b).(*Obj)
		for _, n := range names {
			o.m[n] = Skip{}
		}
		return o
	}}
}

func specCondC() C {
	return S(false, f("entry_time", timeC()),
		enumU("specific_condition_type", "unrecognized_specific_condition_type", "dd.v1.SpecificConditionType"))
}

func activityChangeC() C {
	return C{2, func(g *G) []byte {
		for {
			b := g.Bytes(2)
			if !g.Hostile {
				t := g.N(1440)
				b[0] = b[0]&0xF8 | byte(t>>8)
				b[1] = byte(t)
			}
			if b[0] == 0 && b[1] == 0 || b[0] == 0xFF && b[1] == 0xFF {
				continue
			}
			return b
		}
	}, func(b []byte) any {
		w := int64(b[0])<<8 | int64(b[1])
		slot, act := Enum(2), Enum(2+(w>>11)&3)
		if w&0x8000 != 0 {
			slot = 3
		}
		return &Obj{m: map[string]any{"slot": slot, "crew": w&0x4000 != 0, "inserted": w&0x2000 == 0, "activity": act,
			"time_of_change_minutes": w & 0x7FF}, raw: cp(b)}
	}}
}

func controlTypeC() C {
	return C{1, func(g *G) []byte {
		b := g.Byte() & 0xF8
		if g.hostile() {
			b = g.Byte()
		}
		return []byte{b}
	}, func(b []byte) any {
		bit := func(i uint) bool { return b[0]>>i&1 == 1 }
		return &Obj{m: map[string]any{"card_downloading": bit(7), "vu_downloading": bit(6), "printing": bit(5), "display": bit(4), "calibration_checking": bit(3)}, raw: cp(b)}
	}}
}

func driverIDC() C { // 14 + replacement + renewal, 16 bytes
	return S(false, f("driver_identification_number", ia5C(14)), f("card_replacement_index", ia5C(1)), f("card_renewal_index", ia5C(1)))
}
func ownerIDC() C { // 13 + 1 + 1 + 1
	return S(false, f("owner_identification", ia5C(13)), f("consecutive_index", ia5C(1)), f("replacement_index", ia5C(1)), f("renewal_index", ia5C(1)))
}

// fullCardNumberC: type, nation, 16 byte card number whose shape depends on the type.
func fullCardNumberC(types ...byte) C {
	if len(types) == 0 {
		types = []byte{1, 2, 3, 4}
	}
	nat, drv, own := enumC("dd.v1.NationNumeric"), driverIDC(), ownerIDC()
	return C{18, func(g *G) []byte {
		t := types[g.N(len(types))]
		b := append([]byte{t}, nat.gen(g)...)
		if g.P(1, 16) { // a number of nothing but padding
			return append(b, bytes.Repeat([]byte{pick(g.Rand, byte(0), 0xFF, 0x20)}, 16)...)
		}
		if t == 1 {
			return append(b, drv.gen(g)...)
		}
		return append(b, own.gen(g)...)
	}, func(b []byte) any {
		o := &Obj{m: map[string]any{"card_type": Enum(enumTables["dd.v1.EquipmentType"].m[int(b[0])]), "card_issuing_member_state": nat.dec(b[1:2])}}
		if b[0] == 1 {
			o.m["driver_identification"] = drv.dec(b[2:])
		} else {
			o.m["owner_identification"] = own.dec(b[2:])
		}
		return o
	}}
}

func holderNameC() C {
	return S(false, f("holder_surname", strC(36)), f("holder_first_names", strC(36)))
}

func prevVehicleC() C {
	return S(true, f("vehicle_registration", regC()), f("card_withdrawal_time", timeC()))
}
func prevVehicleG2C() C {
	return S(true, f("vehicle_registration", regC()), f("card_withdrawal_time", timeC()), f("vu_generation", enumC("dd.v1.Generation")))
}

func flagC() C {
	return C{1, func(g *G) []byte { return []byte{byte(g.N(2))} }, func(b []byte) any { return b[0] != 0 }}
}

func iwRecordC() C {
	return S(true, f("card_holder_name", holderNameC()), f("full_card_number", fullCardNumberC()), f("card_expiry_date", dateC()),
		f("card_insertion_time", timeC()), f("odometer_at_insertion_km", odoC()), f("card_slot_number", enumC("dd.v1.CardSlotNumber")),
		f("card_withdrawal_time", timeC()), f("odometer_at_withdrawal_km", odoC()), f("previous_vehicle_info", prevVehicleC()),
		f("manual_input_flag", flagC()))
}

func extSerialC() C {
	return S(false, f("serial_number", uintC(4)), f("month_year", monthYearC()), f("type", enumC("dd.v1.EquipmentType")), f("manufacturer_code", uintC(1)))
}

func csvC() C { // CardStructureVersion
	return C{2, func(g *G) []byte {
		if g.Bool() {
			return pick(g.Rand, []byte{0, 0}, []byte{1, 0}, []byte{1, 1})
		}
		return []byte{bcdByte(g.N(100)), bcdByte(g.N(100))}
	}, func(b []byte) any {
		d := func(c byte) int64 { return int64(c>>4)*10 + int64(c&15) }
		return &Obj{m: map[string]any{"major": d(b[0]), "minor": d(b[1])}, raw: cp(b)}
	}}
}
