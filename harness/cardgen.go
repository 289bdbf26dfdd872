package main

// TLV is one element of a card file.
type TLV struct {
	FID      uint16
	Appendix byte
	Val      []byte
}

func (t TLV) bytes() []byte {
	return append([]byte{byte(t.FID >> 8), byte(t.FID), t.Appendix, byte(len(t.Val) >> 8), byte(len(t.Val))}, t.Val...)
}

func joinTLV(ts []TLV) []byte {
	var b []byte
	for _, t := range ts {
		b = append(b, t.bytes()...)
	}
	return b
}

// splitTLV parses a TLV stream strictly.
func splitTLV(b []byte) ([]TLV, bool) {
	var out []TLV
	for len(b) > 0 {
		if len(b) < 5 {
			return out, false
		}
		n := int(b[3])<<8 | int(b[4])
		if len(b) < 5+n {
			return out, false
		}
		out = append(out, TLV{uint16(b[0])<<8 | uint16(b[1]), b[2], cp(b[5 : 5+n])})
		b = b[5+n:]
	}
	return out, true
}

// CardEF is one elementary file instance on a generated card.
type CardEF struct {
	ef   *EF
	gen  int // 0 card level, 1, 2
	data []byte
	sig  []byte
}

func (c CardEF) tlvs() []TLV {
	app := byte(0)
	if c.gen == 2 {
		app = 2
	}
	out := []TLV{{c.ef.fid, app, c.data}}
	if c.sig != nil {
		out = append(out, TLV{c.ef.fid, app | 1, c.sig})
	}
	return out
}

type Card struct{ efs []CardEF }

func (c *Card) tlvs() []TLV {
	var o []TLV
	for _, e := range c.efs {
		o = append(o, e.tlvs()...)
	}
	return o
}
func (c *Card) bytes() []byte { return joinTLV(c.tlvs()) }

// want is the file value the card must parse to.
func (c *Card) want() *Obj {
	card := &Obj{m: map[string]any{}}
	apps := map[int]*Obj{}
	for _, e := range c.efs {
		o := e.ef.dec(e.data)
		if e.sig != nil {
			o.m["signature"] = cp(e.sig)
		}
		if e.gen == 0 {
			card.m[e.ef.field] = o
			continue
		}
		if apps[e.gen] == nil {
			apps[e.gen] = &Obj{m: map[string]any{}}
		}
		apps[e.gen].m[e.ef.field] = o
	}
	if apps[1] != nil {
		card.m["tachograph"] = apps[1]
	}
	if apps[2] != nil {
		card.m["tachograph_g2"] = apps[2]
	}
	return &Obj{m: map[string]any{"type": Enum(2), "driver_card": card}}
}

// order in which the library writes files: card level, generation 1 files, generation 2 files, certificates.
var outOrder = []struct {
	name string
	gen  int
}{
	{"ICC", 0}, {"IC", 0},
	{"ApplicationIdentification", 1}, {"DrivingLicenceInfo", 1}, {"Identification", 1}, {"EventsData", 1}, {"FaultsData", 1},
	{"DriverActivityData", 1}, {"VehiclesUsed", 1}, {"Places", 1}, {"CurrentUsage", 1}, {"ControlActivityData", 1}, {"SpecificConditions", 1}, {"CardDownload", 1},
	{"ApplicationIdentificationG2", 2}, {"DrivingLicenceInfo", 2}, {"Identification", 2}, {"EventsData", 2}, {"FaultsData", 2}, {"DriverActivityData", 2},
	{"VehiclesUsedG2", 2}, {"PlacesG2", 2}, {"CurrentUsage", 2}, {"ControlActivityData", 2}, {"SpecificConditionsG2", 2}, {"CardDownload", 2},
	{"VehicleUnitsUsed", 2}, {"GnssPlaces", 2}, {"ApplicationIdentificationV2", 2},
	{"CardCertificate", 1}, {"CaCertificate", 1},
	{"CardMaCertificate", 2}, {"CardSignCertificate", 2}, {"CaCertificateG2", 2}, {"LinkCertificate", 2},
}

type cardOpts struct {
	gen1, gen2 bool
	pInclude   int // percent of files present
	noSig      bool
	shuffle    bool
	only       map[string]bool
}

func sigLen(g *G, gen int) int {
	if g.P(1, 25) { // the length is the file's own
		return pick(g.Rand, 0, 1, 63, 65, 127, 129, 194, 1000, 65535)
	}
	if gen == 1 {
		return 128
	}
	return pick(g.Rand, 64, 96, 128, 132)
}

func genCard(g *G, o cardOpts) *Card {
	c := &Card{}
	for _, s := range outOrder {
		if s.gen == 1 && !o.gen1 || s.gen == 2 && !o.gen2 {
			continue
		}
		if o.only != nil && !o.only[s.name] {
			continue
		}
		// the chip file comes first on every card file: the library recognises a card by it
		if s.name != "ICC" && !g.P(o.pInclude, 100) {
			continue
		}
		e := efBy[s.name]
		x := CardEF{ef: e, gen: s.gen, data: e.gen(g)}
		if e.signed && !o.noSig && g.P(9, 10) {
			x.sig = g.Bytes(sigLen(g, s.gen))
		}
		c.efs = append(c.efs, x)
	}
	if o.shuffle && len(c.efs) > 2 {
		p := g.Perm(len(c.efs) - 1)
		rest := append([]CardEF{}, c.efs[1:]...)
		for i, j := range p {
			c.efs[1+i] = rest[j]
		}
	}
	return c
}
