package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"

	tachograph "github.com/way-platform/tachograph-go"
	securityv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/security/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

func init() { register("P12", runP12) }

// digestButCerts is the digest of a file with certificates reduced to their raw bytes (verification records its
// results on the certificate messages).
func digestButCerts(f *File) []byte {
	c := proto.Clone(f).(*File)
	walkMessages(c.ProtoReflect(), "", func(_ string, m protoreflect.Message) {
		switch x := m.Interface().(type) {
		case *securityv1.RsaCertificate:
			raw := x.GetRawData()
			proto.Reset(x)
			x.SetRawData(raw)
		case *securityv1.EccCertificate:
			raw := x.GetRawData()
			proto.Reset(x)
			x.SetRawData(raw)
		}
	})
	return digest(c)
}

// firstChange names the first field two files differ in.
func firstChange(a, b *File) string {
	la, lb := map[string]string{}, map[string]string{}
	collect := func(l map[string]string, f *File) {
		walkMessages(f.ProtoReflect(), "", func(p string, m protoreflect.Message) {
			m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
				if fd.Message() == nil {
					l[p+"."+string(fd.Name())] = v.String()
				}
				return true
			})
		})
	}
	collect(la, a)
	collect(lb, b)
	for _, k := range sortedKeys(la) {
		if la[k] != lb[k] {
			return fmt.Sprintf("%s was %.60q became %.60q", k, la[k], lb[k])
		}
	}
	for _, k := range sortedKeys(lb) {
		if _, ok := la[k]; !ok {
			return fmt.Sprintf("%s appeared as %.60q", k, lb[k])
		}
	}
	return "(no single field differs)"
}

func (failResolver) GetRootCertificate(context.Context) (*securityv1.RootCertificate, error) {
	return nil, errors.New("none")
}
func (failResolver) GetRsaCertificate(context.Context, string) (*securityv1.RsaCertificate, error) {
	return nil, errors.New("none")
}
func (failResolver) GetEccCertificate(context.Context, string) (*securityv1.EccCertificate, error) {
	return nil, errors.New("none")
}

// anyFile generates one input of any kind the library accepts.
func anyFile(g *G) (label string, b []byte) {
	g.Hostile = g.P(1, 3)
	switch g.N(5) {
	case 0, 1:
		c := genCard(g, cardOpts{gen1: g.P(3, 4), gen2: g.P(2, 3), pInclude: pick(g.Rand, 100, 60, 30), noSig: g.P(1, 6), shuffle: g.P(1, 3)})
		return "driver card", c.bytes()
	case 2:
		return "vehicle unit", joinTransfers(genVU(g, 1+g.N(3), 4))
	case 3:
		return "raw card", joinTLV(genRawTLVs(g.Rand, g.N(12), 300))
	}
	return "damaged", mutant(g)
}

func runP12(r *Run) {
	r.rule = "one case = one input (driver card, vehicle unit download, raw card or damaged variant) put through the sequence parse, overwrite input, reuse the buffer, marshal twice, overwrite the output, verify, parse again, overwrite the second result; non-trivial = the input was accepted; distinct by bytes"
	r.assume = []string{"verification is documented to record its result on the certificate messages, so certificates are compared by their raw bytes across it"}
	g := &G{Rand: NewRand(r.Seed, "P12")}
	type kept struct {
		f     *File
		clone *File
		d     []byte
		in    []byte
		label string
	}
	var keep []kept
	shared := make([]byte, 0, 1<<20)
	n := r.N(2500, 30000)
	for i := 0; i < n; i++ {
		label, in := anyFile(g)
		r.Case(label, in)
		// the input sits inside a larger buffer that the caller goes on using
		buf := append(append(shared[:0], in...), 0xEE, 0xEE)
		o := parse(buf[:len(in)])
		if !bytes.Equal(buf[:len(in)], in) || buf[len(in)] != 0xEE {
			r.Violate("input-modified", label+": parsing modified its input", in)
		}
		if o.panic != nil {
			r.Violate("panic:"+panicSite(o.stack), fmt.Sprintf("%s: parse panicked: %v", label, o.panic), in)
			continue
		}
		o2 := parse(cp(in))
		if (o.err == nil) != (o2.err == nil) || o.err != nil && o2.err != nil && o.err.Error() != o2.err.Error() {
			r.Violate("nondeterministic-error", fmt.Sprintf("%s: parsing twice: %v then %v", label, o.err, o2.err), in)
		}
		r.Eval(o.err == nil, in)
		if o.err != nil {
			r.Count("rejected_twice", 1)
			continue
		}
		if o.f == nil || o2.f == nil {
			continue
		}
		f := o.f
		d := digest(f)
		clone := proto.Clone(f).(*File)
		changed := func(by string, want []byte, got []byte) bool {
			r.Count("digests_compared", 1)
			if bytes.Equal(want, got) {
				return false
			}
			r.Violate("changed-by:"+sanitize(by), fmt.Sprintf("%s: parsed file changed when %s: %s", label, by, firstChange(clone, f)), in)
			return true
		}
		if !bytes.Equal(d, digest(o2.f)) {
			r.Violate("nondeterministic", label+": parsing the same bytes twice gave different files: "+firstChange(f, o2.f), in)
		}
		for j := range buf {
			buf[j] = ^buf[j]
		}
		if changed("the caller overwrote the input buffer", d, digest(f)) {
			continue
		}
		// another file goes through the same buffer
		_, other := anyFile(g)
		parse(append(shared[:0], other...))
		if changed("another file was parsed", d, digest(f)) {
			continue
		}
		for j := range shared[:cap(shared)][:4096] {
			shared[:cap(shared)][j] = 0x5A
		}
		m1 := marshal(f)
		if changed("it was marshalled", d, digest(f)) {
			continue
		}
		m2 := marshal(f)
		if m1.panic != nil {
			r.Violate("marshal-panic:"+panicSite(m1.stack), fmt.Sprintf("%s: marshal panicked: %v", label, m1.panic), in)
		}
		if (m1.err == nil) != (m2.err == nil) || !bytes.Equal(m1.b, m2.b) {
			r.Violate("marshal-nondeterministic", fmt.Sprintf("%s: marshalling twice gave %d bytes (%v) then %d bytes (%v)", label, len(m1.b), m1.err, len(m2.b), m2.err), in)
		}
		m3 := marshal(o2.f)
		if (m1.err == nil) != (m3.err == nil) || !bytes.Equal(m1.b, m3.b) {
			r.Violate("marshal-differs", fmt.Sprintf("%s: equal files marshalled to different bytes (%v, %v)", label, m1.err, m3.err), in)
		}
		if m1.err == nil && m1.panic == nil {
			r.Count("marshalled", 1)
			keepOut := cp(m1.b)
			for j := range m1.b {
				m1.b[j] = ^m1.b[j]
			}
			if changed("the marshalled bytes were overwritten", d, digest(f)) {
				continue
			}
			if !bytes.Equal(m2.b, keepOut) {
				r.Violate("outputs-shared", label+": two marshalled outputs share memory", in)
			}
		}
		// overwriting one result leaves the other alone
		if scribble(o2.f.ProtoReflect()) > 0 {
			r.Count("results_scribbled", 1)
		}
		if changed("another parse result of the same bytes was overwritten", d, digest(f)) {
			continue
		}
		o3 := parse(cp(in))
		if o3.f == nil || !bytes.Equal(digest(o3.f), d) {
			r.Violate("state-leak", label+": parsing again after an earlier result was overwritten gave a different file", in)
		}
		if len(keep) < r.N(1200, 6000) && g.P(2, 3) {
			keep = append(keep, kept{f, clone, d, in, label})
		}
	}
	// everything parsed earlier is still what it was
	for _, k := range keep {
		r.Count("rechecked_at_end", 1)
		if !bytes.Equal(digest(k.f), k.d) {
			r.Violate("changed-by:later-work", fmt.Sprintf("%s: parsed file changed while other files were processed: %s", k.label, firstChange(k.clone, k.f)), k.in)
		}
	}
	// verification touches nothing but the certificates
	for _, k := range keep {
		r.Case("verify", k.in)
		before := digestButCerts(k.f)
		m := marshal(k.f)
		var err error
		p, stack := guard(func() {
			err = tachograph.VerifyOptions{CertificateResolver: failResolver{}}.VerifyFile(context.Background(), k.f)
		})
		_ = err
		if p != nil {
			r.Violate("panic:"+panicSite(stack), fmt.Sprintf("%s: verify panicked: %v", k.label, p), k.in)
			continue
		}
		r.Count("verified", 1)
		if !bytes.Equal(before, digestButCerts(k.f)) {
			r.Violate("changed-by:verify", fmt.Sprintf("%s: verifying changed the file outside its certificates: %s", k.label, firstChange(k.clone, k.f)), k.in)
		}
		m2 := marshal(k.f)
		if (m.err == nil) != (m2.err == nil) || !bytes.Equal(m.b, m2.b) {
			r.Violate("verify-changes-output", fmt.Sprintf("%s: the file marshals differently after verification (%v, %v)", k.label, m.err, m2.err), k.in)
		}
	}
	r.Require("digests_compared", 5000)
	r.Require("marshalled", 500)
	r.Require("rechecked_at_end", 500)
	r.Require("results_scribbled", 500)
	r.Require("verified", 500)
}
