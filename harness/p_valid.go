package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func init() { register("P18", runP18) }

// complaint is one broken invariant of a parsed file.
type complaint struct{ key, msg string }

// sizes of preserved bytes whose layout has one size
var fixedRaw = map[string]int{
	"dd.v1.PlaceRecord": 10, "dd.v1.PlaceRecordG2": 21, "dd.v1.ActivityChangeInfo": 2, "dd.v1.ControlType": 1,
	"dd.v1.CardStructureVersion": 2, "dd.v1.Date": 4, "dd.v1.MonthYear": 2, "dd.v1.CardVehicleRecord": 31, "dd.v1.CardVehicleRecordG2": 48,
	"card.v1.EventsData.Record": 24, "card.v1.FaultsData.Record": 24, "card.v1.ControlActivityData": 46,
	"vu.v1.DownloadInterfaceVersion": 2, "dd.v1.PreviousVehicleInfo": 19, "dd.v1.PreviousVehicleInfoG2": 20,
	"security.v1.RsaCertificate": 194,
}

// records and the bytes that hold them: header length and record length
var rawLists = map[string][2]int{
	"card.v1.VehiclesUsed": {2, 31}, "card.v1.VehiclesUsedG2": {2, 48}, "card.v1.Places": {1, 10}, "card.v1.PlacesG2": {2, 21},
	"card.v1.SpecificConditions": {0, 5}, "card.v1.SpecificConditionsG2": {2, 5},
}

type validator struct {
	out    []complaint
	seen   map[string]int
	fields int
	enums  int
}

func (v *validator) add(key, f string, a ...any) {
	v.out = append(v.out, complaint{key, fmt.Sprintf(f, a...)})
}

// invariants checks everything the schema says about a parsed file's fields.
func invariants(f *File) *validator {
	v := &validator{seen: map[string]int{}}
	if f == nil {
		v.add("nil", "no file")
		return v
	}
	v.encodings(f)
	v.walk(f.ProtoReflect(), "", false)
	switch f.GetType() {
	case 1:
		if !f.HasVehicleUnit() || f.HasDriverCard() || f.HasRawCard() {
			v.add("type", "vehicle unit file without (only) vehicle unit content")
		}
	case 2:
		if !f.HasDriverCard() || f.HasVehicleUnit() || f.HasRawCard() {
			v.add("type", "driver card file without (only) driver card content")
		}
	case 6:
		if !f.HasRawCard() || f.HasVehicleUnit() || f.HasDriverCard() {
			v.add("type", "raw card file without (only) raw card content")
		}
	default:
		v.add("type", "file of type %v", f.GetType())
	}
	return v
}

func (v *validator) encodings(f *File) {
	b, err := proto.Marshal(f)
	if err != nil {
		v.add("binary", "binary encoding fails: %v", err)
		return
	}
	f2 := &File{}
	if err := proto.Unmarshal(b, f2); err != nil {
		v.add("binary", "binary decoding fails: %v", err)
	} else if !proto.Equal(f, f2) {
		v.add("binary", "binary encoding changes the file: %s", firstChange(f, f2))
	}
	j, err := protojson.Marshal(f)
	if err != nil {
		v.add("json", "JSON encoding fails: %v", err)
		return
	}
	f3 := &File{}
	if err := protojson.Unmarshal(j, f3); err != nil {
		v.add("json", "JSON decoding fails: %v", err)
	} else if !proto.Equal(f, f3) {
		v.add("json", "JSON encoding changes the file: %s", firstChange(f, f3))
	}
	if !utf8.Valid(j) {
		v.add("json", "JSON is not UTF-8")
	}
}

func (v *validator) walk(m protoreflect.Message, path string, kept bool) {
	name := shortName(m)
	v.seen[name]++
	if len(m.GetUnknown()) > 0 {
		v.add("unknown-fields:"+name, "%s has unknown fields", path)
	}
	if rd := m.Descriptor().Fields().ByName("raw_data"); rd != nil && rd.Kind() == protoreflect.BytesKind && m.Has(rd) {
		kept = kept || len(m.Get(rd).Bytes()) > 0
		if n, ok := fixedRaw[name]; ok && len(m.Get(rd).Bytes()) != n {
			v.add("raw-size:"+name, "%s: raw_data of %d bytes, the record has %d", path, len(m.Get(rd).Bytes()), n)
		}
	}
	v.message(m, name, path)
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if !m.Has(fd) {
			continue
		}
		v.fields++
		p := path + "." + string(fd.Name())
		val := m.Get(fd)
		if fd.Kind() == protoreflect.EnumKind {
			nums := []protoreflect.EnumNumber{}
			if fd.IsList() {
				for k := 0; k < val.List().Len(); k++ {
					nums = append(nums, val.List().Get(k).Enum())
				}
			} else {
				nums = append(nums, val.Enum())
			}
			for _, n := range nums {
				v.enum(m, fd, n, name, p, kept)
			}
		}
		if fd.Kind() == protoreflect.StringKind && !fd.IsList() && !utf8.ValidString(val.String()) {
			v.add("utf8:"+name, "%s is not valid UTF-8: %q", p, val.String())
		}
		if string(fd.Name()) == "signature_verified" && val.Bool() {
			v.add("verified:"+name, "%s is set though nothing was verified", p)
		}
		if fd.Message() == nil || fd.IsMap() {
			continue
		}
		if fd.IsList() {
			for k := 0; k < val.List().Len(); k++ {
				v.walk(val.List().Get(k).Message(), fmt.Sprintf("%s[%d]", p, k), kept)
			}
		} else {
			v.walk(val.Message(), p, kept)
		}
	}
	// a field for unrecognised codes is only used with an unrecognised value
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		base, ok := strings.CutPrefix(string(fd.Name()), "unrecognized_")
		if !ok || !m.Has(fd) {
			continue
		}
		sib := fds.ByName(protoreflect.Name(base))
		if sib == nil || sib.Enum() == nil {
			continue
		}
		if enumNameOf(sib, m.Get(sib).Enum()) != "UNRECOGNIZED" {
			v.add("unrecognised:"+name+"."+base, "%s.%s is %d although the value is %s", path, fd.Name(), m.Get(fd).Int(), enumNameOf(sib, m.Get(sib).Enum()))
		}
	}
}

// enumNameOf is the name of an enum value without the prefix of its type for the two generic values.
func enumNameOf(fd protoreflect.FieldDescriptor, n protoreflect.EnumNumber) string {
	d := fd.Enum().Values().ByNumber(n)
	if d == nil {
		return fmt.Sprint(n)
	}
	s := string(d.Name())
	if strings.HasSuffix(s, "UNRECOGNIZED") {
		return "UNRECOGNIZED"
	}
	if strings.HasSuffix(s, "UNSPECIFIED") {
		return "UNSPECIFIED"
	}
	return s
}

func protocolValue(d protoreflect.EnumValueDescriptor) (int32, bool) {
	o := d.Options()
	if o == nil || !proto.HasExtension(o, ddv1.E_ProtocolEnumValue) {
		return 0, false
	}
	return proto.GetExtension(o, ddv1.E_ProtocolEnumValue).(int32), true
}

func (v *validator) enum(m protoreflect.Message, fd protoreflect.FieldDescriptor, n protoreflect.EnumNumber, name, p string, kept bool) {
	v.enums++
	key := name + "." + string(fd.Name())
	if fd.Enum().Values().ByNumber(n) == nil {
		v.add("undefined-enum:"+key, "%s is %d, which %s does not define", p, n, fd.Enum().FullName())
		return
	}
	sib := m.Descriptor().Fields().ByName("unrecognized_" + fd.Name())
	if enumNameOf(fd, n) != "UNRECOGNIZED" {
		return
	}
	v.seen["(unrecognised codes)"]++
	if sib == nil {
		if !kept {
			v.add("code-lost:"+key, "%s is unrecognised, and neither a field nor preserved bytes hold the original code", p)
		}
		return
	}
	if !m.Has(sib) {
		v.add("code-lost:"+key, "%s is unrecognised without its original code", p)
		return
	}
	code := m.Get(sib).Int()
	if code < 0 || code > 255 {
		v.add("code-range:"+key, "%s: original code %d", p, code)
	}
	for i := 0; i < fd.Enum().Values().Len(); i++ {
		if pv, ok := protocolValue(fd.Enum().Values().Get(i)); ok && int64(pv) == code {
			v.add("code-known:"+key, "%s is unrecognised, but its code %d is that of %s", p, code, fd.Enum().Values().Get(i).Name())
		}
	}
}

func anySet(m protoreflect.Message, names ...string) string {
	for _, n := range names {
		if fd := m.Descriptor().Fields().ByName(protoreflect.Name(n)); fd != nil && m.Has(fd) {
			return n
		}
	}
	return ""
}

func (v *validator) message(m protoreflect.Message, name, path string) {
	if l, ok := rawLists[name]; ok {
		raw := m.Get(m.Descriptor().Fields().ByName("raw_data")).Bytes()
		n := m.Get(m.Descriptor().Fields().ByName("records")).List().Len()
		if len(raw) < l[0] || (len(raw)-l[0])/l[1] != n {
			v.add("list-size:"+name, "%s: %d records in %d bytes", path, n, len(raw))
		}
	}
	switch x := m.Interface().(type) {
	case *timestamppb.Timestamp:
		if err := x.CheckValid(); err != nil || x.GetNanos() != 0 || x.GetSeconds() < 0 || x.GetSeconds() > 0xFFFFFFFF {
			v.add("time", "%s: %d s %d ns (%v)", path, x.GetSeconds(), x.GetNanos(), err)
		}
	case *ddv1.StringValue:
		if x.HasRawData() && int(x.GetLength()) != len(x.GetRawData())-1 {
			v.add("length:"+name, "%s: length %d, raw_data of %d bytes", path, x.GetLength(), len(x.GetRawData()))
		}
		if x.GetLength() <= 0 {
			v.add("length:"+name, "%s: length %d", path, x.GetLength())
		}
		if len([]rune(x.GetValue())) > int(x.GetLength()) {
			v.add("value-length:"+name, "%s: %q in %d bytes", path, x.GetValue(), x.GetLength())
		}
	case *ddv1.Ia5StringValue:
		if x.HasRawData() && int(x.GetLength()) != len(x.GetRawData()) {
			v.add("length:"+name, "%s: length %d, raw_data of %d bytes", path, x.GetLength(), len(x.GetRawData()))
		}
		if x.GetLength() <= 0 {
			v.add("length:"+name, "%s: length %d", path, x.GetLength())
		}
		if len([]rune(x.GetValue())) > int(x.GetLength()) {
			v.add("value-length:"+name, "%s: %q in %d bytes", path, x.GetValue(), x.GetLength())
		}
	case *ddv1.BcdString:
		max := 1
		for i := 0; i < int(x.GetLength()) && i < 9; i++ {
			max *= 100
		}
		if x.GetLength() <= 0 || x.GetValue() < 0 || int(x.GetLength()) <= 4 && int(x.GetValue()) >= max {
			v.add("bcd", "%s: value %d in %d bytes", path, x.GetValue(), x.GetLength())
		}
	case *ddv1.Date:
		raw := x.GetRawData()
		if len(raw) == 4 {
			y, ok1 := bcdDigits(raw[:2])
			mo, ok2 := bcdDigits(raw[2:3])
			d, ok3 := bcdDigits(raw[3:])
			if ok1 && ok2 && ok3 && (int(x.GetYear()) != y || int(x.GetMonth()) != mo || int(x.GetDay()) != d) {
				v.add("date", "%s: %d-%d-%d does not decode %x", path, x.GetYear(), x.GetMonth(), x.GetDay(), raw)
			}
		}
	case *ddv1.MonthYear:
		raw := x.GetRawData()
		if len(raw) == 2 {
			mo, ok1 := bcdDigits(raw[:1])
			y, ok2 := bcdDigits(raw[1:])
			if ok1 && ok2 && (int(x.GetMonth()) != mo || int(x.GetYear())%100 != y) {
				v.add("month-year", "%s: %d/%d does not decode %x", path, x.GetMonth(), x.GetYear(), raw)
			}
		}
	case *ddv1.ActivityChangeInfo:
		if raw := x.GetRawData(); len(raw) == 2 {
			if int(x.GetTimeOfChangeMinutes()) != (int(raw[0])<<8|int(raw[1]))&0x7FF || (raw[0]&0x80 != 0) != (x.GetSlot() == ddv1.CardSlotNumber_CO_DRIVER_SLOT) {
				v.add("activity-change", "%s: %d min in slot %v does not decode %x", path, x.GetTimeOfChangeMinutes(), x.GetSlot(), raw)
			}
		}
		if x.GetTimeOfChangeMinutes() < 0 || x.GetTimeOfChangeMinutes() > 2047 {
			v.add("activity-change", "%s: %d minutes", path, x.GetTimeOfChangeMinutes())
		}
	case *ddv1.ControlType:
		if raw := x.GetRawData(); len(raw) == 1 {
			b := raw[0]
			if x.GetCardDownloading() != (b&0x80 != 0) || x.GetVuDownloading() != (b&0x40 != 0) || x.GetPrinting() != (b&0x20 != 0) || x.GetDisplay() != (b&0x10 != 0) {
				v.add("control-type", "%s: flags do not decode %02x", path, b)
			}
		}
	case *ddv1.CardStructureVersion:
		if raw := x.GetRawData(); len(raw) == 2 {
			a, ok1 := bcdDigits(raw[:1])
			b, ok2 := bcdDigits(raw[1:])
			if ok1 && ok2 && (int(x.GetMajor()) != a || int(x.GetMinor()) != b) {
				v.add("structure-version", "%s: %d.%d does not decode %x", path, x.GetMajor(), x.GetMinor(), raw)
			}
		}
	case *cardv1.RawCardFile_Record:
		if int(x.GetLength()) != len(x.GetValue()) {
			v.add("length:"+name, "%s: length %d, value of %d bytes", path, x.GetLength(), len(x.GetValue()))
		}
		app := x.GetTag() & 0xFF
		if x.GetTag() < 0 || x.GetTag() > 0xFFFFFF || (app&1 == 1) != (x.GetContentType() == cardv1.ContentType_SIGNATURE) || (app&1 == 0) != (x.GetContentType() == cardv1.ContentType_DATA) ||
			(app&2 == 2) != (x.GetGeneration() == ddv1.Generation_GENERATION_2) || (app&2 == 0) != (x.GetGeneration() == ddv1.Generation_GENERATION_1) {
			v.add("tag:"+name, "%s: tag %06X reported as %v of %v", path, x.GetTag(), x.GetContentType(), x.GetGeneration())
		}
		fid := uint16(x.GetTag() >> 8)
		d := x.GetFile().Descriptor().Values().ByNumber(x.GetFile().Number())
		if d != nil {
			if id, _ := proto.GetExtension(d.Options(), cardv1.E_FileId).(int32); x.GetFile() != 0 && uint16(id) != fid {
				v.add("tag:"+name, "%s: tag %06X reported as %v", path, x.GetTag(), x.GetFile())
			}
		}
	case *cardv1.DriverActivityData:
		if len(x.GetRawData()) == 0 && len(x.GetDailyRecords()) > 0 {
			v.add("activity-raw", "%s: daily records without the buffer they were read from", path)
		}
		if x.GetNewestDayRecordIndex() < 0 || x.GetNewestDayRecordIndex() > 65535 || x.GetOldestDayRecordIndex() < 0 || x.GetOldestDayRecordIndex() > 65535 {
			v.add("activity-pointer", "%s: pointers %d, %d", path, x.GetOldestDayRecordIndex(), x.GetNewestDayRecordIndex())
		}
		total := 0
		for i, d := range x.GetDailyRecords() {
			p := fmt.Sprintf("%s.daily_records[%d]", path, i)
			dm := d.ProtoReflect()
			if d.GetValid() {
				total += int(d.GetActivityRecordLength())
				if d.HasRawData() {
					v.add("valid:"+shortName(dm), "%s is valid and has raw data", p)
				}
				if !d.HasActivityRecordDate() && false || !d.HasActivityDailyPresenceCounter() {
					v.add("valid:"+shortName(dm), "%s is valid without its fields", p)
				}
				if l := int(d.GetActivityRecordLength()); l < 12+2*len(d.GetActivityChangeInfo()) {
					v.add("length:"+shortName(dm), "%s: %d changes in %d bytes", p, len(d.GetActivityChangeInfo()), l)
				}
			} else {
				total += len(d.GetRawData())
				if len(d.GetRawData()) == 0 {
					v.add("valid:"+shortName(dm), "%s is not valid and has no raw data", p)
				}
				if s := anySet(dm, "activity_previous_record_length", "activity_record_length", "activity_record_date", "activity_daily_presence_counter", "activity_day_distance", "activity_change_info"); s != "" {
					v.add("valid:"+shortName(dm), "%s is not valid and has %s", p, s)
				}
				if raw := d.GetRawData(); len(raw) >= 4 && be16(raw[2:]) != len(raw) {
					v.add("length:"+shortName(dm), "%s: raw data of %d bytes with record length %d", p, len(raw), be16(raw[2:]))
				}
			}
		}
		if total > len(x.GetRawData()) {
			v.add("activity-total", "%s: daily records of %d bytes in a buffer of %d", path, total, len(x.GetRawData()))
		}
	case *cardv1.EventsData_Record:
		if x.GetValid() == (len(x.GetRawData()) > 0) {
			v.add("valid:"+name, "%s: valid %v with %d raw bytes", path, x.GetValid(), len(x.GetRawData()))
		}
		if s := anySet(m, "event_type", "event_begin_time", "event_end_time", "event_vehicle_registration"); !x.GetValid() && s != "" {
			v.add("valid:"+name, "%s is not valid and has %s", path, s)
		}
		if x.GetValid() && !(x.HasEventType() && x.HasEventVehicleRegistration()) {
			v.add("valid:"+name, "%s is valid without its fields", path)
		}
	case *cardv1.FaultsData_Record:
		if x.GetValid() == (len(x.GetRawData()) > 0) {
			v.add("valid:"+name, "%s: valid %v with %d raw bytes", path, x.GetValid(), len(x.GetRawData()))
		}
		if s := anySet(m, "fault_type", "fault_begin_time", "fault_end_time", "fault_vehicle_registration"); !x.GetValid() && s != "" {
			v.add("valid:"+name, "%s is not valid and has %s", path, s)
		}
		if x.GetValid() && !(x.HasFaultType() && x.HasFaultVehicleRegistration()) {
			v.add("valid:"+name, "%s is valid without its fields", path)
		}
	case *cardv1.ControlActivityData:
		if !x.GetValid() && len(x.GetRawData()) == 0 {
			v.add("valid:"+name, "%s is not valid and has no raw data", path)
		}
		if s := anySet(m, "control_type", "control_time", "control_card_number", "control_vehicle_registration"); !x.GetValid() && s != "" {
			v.add("valid:"+name, "%s is not valid and has %s", path, s)
		}
		if x.GetValid() && !(x.HasControlType() && x.HasControlCardNumber() && x.HasControlVehicleRegistration()) {
			v.add("valid:"+name, "%s is valid without its fields", path)
		}
	case *ddv1.PlaceRecord:
		v.place(path, name, x.GetValid(), x.GetRawData(), x.GetEntryTime(), int(x.GetVehicleOdometerKm()), 10)
	case *ddv1.PlaceRecordG2:
		v.place(path, name, x.GetValid(), x.GetRawData(), x.GetEntryTime(), int(x.GetVehicleOdometerKm()), 21)
	case *securityv1.RsaCertificate:
		if x.GetSignatureValid() {
			v.add("verified:"+name, "%s: valid without verification", path)
		}
		if raw := x.GetRawData(); len(raw) == 194 && x.GetCertificateAuthorityReference() != fmt.Sprint(beU64(raw[186:])) {
			v.add("certificate", "%s: authority %s in %x", path, x.GetCertificateAuthorityReference(), raw[186:])
		}
	case *securityv1.EccCertificate:
		if x.GetSignatureValid() {
			v.add("verified:"+name, "%s: valid without verification", path)
		}
		raw := x.GetRawData()
		for _, part := range [][]byte{x.GetPublicKey().GetPublicPointX(), x.GetPublicKey().GetPublicPointY(), x.GetSignature().GetR(), x.GetSignature().GetS()} {
			if len(part) > 0 && !bytes.Contains(raw, part) {
				v.add("certificate", "%s: key or signature bytes that are not in its raw data", path)
			}
		}
		if len(x.GetPublicKey().GetPublicPointX()) != len(x.GetPublicKey().GetPublicPointY()) || len(x.GetSignature().GetR()) != len(x.GetSignature().GetS()) {
			v.add("certificate", "%s: coordinates or signature halves of different lengths", path)
		}
	}
}

func beU64(b []byte) (n uint64) {
	for _, x := range b[:8] {
		n = n<<8 | uint64(x)
	}
	return
}

func (v *validator) place(path, name string, valid bool, raw []byte, t *timestamppb.Timestamp, odo, size int) {
	if !valid && len(raw) == 0 {
		v.add("valid:"+name, "%s is not valid and has no raw data", path)
	}
	if valid && len(raw) == size {
		if t.GetSeconds() != int64(beU32(raw)) || odo != int(raw[7])<<16|int(raw[8])<<8|int(raw[9]) {
			v.add("place", "%s: time %d, odometer %d do not decode %x", path, t.GetSeconds(), odo, raw)
		}
	}
}

func beU32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

func runP18(r *Run) {
	r.rule = "one case = one accepted file walked by the invariant monitor after both encodings were compared; non-trivial = it has at least 5 populated fields; distinct by input bytes"
	r.assume = []string{"the invariants are those written in the schema's comments and constraints (raw data lengths, validity flags, unrecognised codes) and those that tie decoded fields to preserved bytes of fixed layout"}
	g := &G{Rand: NewRand(r.Seed, "P18")}
	seen := map[string]int{}
	try := func(label string, in []byte) bool {
		r.Case(label, in)
		o := parse(cp(in))
		if o.panic != nil || o.err != nil || o.f == nil {
			r.Count("rejected", 1)
			return false
		}
		v := invariants(o.f)
		r.Eval(v.fields >= 5, in)
		r.Count("accepted."+label, 1)
		r.Count("fields", v.fields)
		r.Count("enum_values", v.enums)
		for k, n := range v.seen {
			seen[k] += n
		}
		for _, c := range v.out {
			r.Violate(c.key, label+": "+c.msg, in)
		}
		return true
	}
	for i := 0; i < r.N(700, 9000); i++ {
		g.Hostile = i%3 == 2
		c := genCard(g, cardOpts{gen1: i%4 != 3, gen2: i%4 != 0, pInclude: pick(g.Rand, 100, 60, 20, 5), noSig: g.P(1, 4), shuffle: g.Bool()})
		b := c.bytes()
		try("card", b)
		for k := 0; k < 6; k++ {
			try("damaged_card", mutateAnywhere(g, b))
		}
	}
	for i := 0; i < r.N(300, 4000); i++ {
		g.Hostile = i%2 == 1
		b := joinTransfers(genVU(g, 1+i%3, 3))
		try("download", b)
		for k := 0; k < 4; k++ {
			try("damaged_download", mutateAnywhere(g, b))
		}
	}
	for i := 0; i < r.N(8000, 120000); i++ {
		g.Hostile = g.P(1, 2)
		try("mutant", mutant(g))
	}
	// one file at a time, its bytes swept
	for _, e := range efs {
		for _, gen := range e.gens {
			app := byte(0)
			if gen == 2 {
				app = 2
			}
			for k := 0; k < r.N(2, 10); k++ {
				v := e.gen(g)
				limit := min(len(v), 120)
				for i := 0; i < limit; i++ {
					for _, x := range []byte{0, 0xFF, 0x80, 0x20, g.Byte()} {
						w := cp(v)
						w[i] = x
						try("swept_file", joinTLV([]TLV{{0x0002, 0, iccC().gen(g)}, {e.fid, app, w}}))
					}
				}
				for _, fill := range []byte{0, 0xFF, 0x20, 0x99} {
					try("filled_file", joinTLV([]TLV{{0x0002, 0, iccC().gen(g)}, {e.fid, app, bytes.Repeat([]byte{fill}, len(v))}}))
				}
			}
		}
	}
	for i := 0; i < r.N(300, 3000); i++ {
		try("raw_card", joinTLV(genRawTLVs(g.Rand, 1+g.N(12), 200)))
	}
	var names []string
	for k := range seen {
		names = append(names, k)
	}
	sort.Strings(names)
	r.Count("message_types_seen", len(names))
	r.Sample(map[string]any{"messages_walked": seen})
	r.Require("accepted.card", 400)
	r.Require("accepted.damaged_card", 500)
	r.Require("accepted.download", 100)
	r.Require("accepted.swept_file", 2000)
	r.Require("message_types_seen", 40)
}
