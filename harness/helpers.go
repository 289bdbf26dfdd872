package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/url"
	"os"
	"strings"

	"google.golang.org/protobuf/reflect/protoreflect"
)

func shortName(m protoreflect.Message) string {
	return strings.TrimPrefix(string(m.Descriptor().FullName()), "wayplatform.connect.tachograph.")
}

func bcdDigits(b []byte) (n int, ok bool) {
	for _, x := range b {
		if x>>4 > 9 || x&15 > 9 {
			return 0, false
		}
		n = n*100 + int(x>>4)*10 + int(x&15)
	}
	return n, true
}

// firstDifference names the first field in which two messages differ.
func firstDifference(a, b protoreflect.Message) (path, text string) {
	la, lb := map[string]string{}, map[string]string{}
	collect := func(l map[string]string, f protoreflect.Message) {
		walkMessages(f, "", func(p string, m protoreflect.Message) {
			m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
				if fd.Message() == nil {
					l[p+"."+string(fd.Name())] = v.String()
				} else if fd.IsList() {
					l[p+"."+string(fd.Name())+".count"] = fmt.Sprint(v.List().Len())
				}
				return true
			})
		})
	}
	collect(la, a)
	collect(lb, b)
	for _, k := range sortedKeys(la) {
		if w, ok := lb[k]; !ok {
			return k, fmt.Sprintf("%s was %.60q and is missing", k, la[k])
		} else if la[k] != w {
			return k, fmt.Sprintf("%s was %.60q and is %.60q", k, la[k], w)
		}
	}
	for _, k := range sortedKeys(lb) {
		if _, ok := la[k]; !ok {
			return k, fmt.Sprintf("%s is %.60q and was not set", k, lb[k])
		}
	}
	return "presence", "a message is present in one only"
}

func mutateAnywhere(g *G, b []byte) []byte {
	b = cp(b)
	for k := g.N(5); k > 0; k-- {
		i := g.N(len(b))
		b[i] = pick(g.Rand, g.Byte(), 0, 0xFF, b[i]^1<<g.N(8))
	}
	return b
}

// mutant makes a damaged card or download.
func mutant(g *G) []byte {
	var b []byte
	switch g.N(4) {
	case 0, 1:
		c := genCard(g, cardOpts{gen1: g.P(3, 4), gen2: g.P(1, 2), pInclude: pick(g.Rand, 60, 20, 5), noSig: g.P(1, 4), shuffle: g.Bool()})
		ts := c.tlvs()
		switch g.N(5) {
		case 0: // change a tag
			t := &ts[g.N(len(ts))]
			t.FID ^= 1 << g.N(16)
		case 1:
			t := &ts[g.N(len(ts))]
			t.Appendix ^= 1 << g.N(3)
		case 2: // resize a value
			t := &ts[g.N(len(ts))]
			t.Val = append(t.Val, g.Bytes(g.N(4))...)
			if g.Bool() && len(t.Val) > 0 {
				t.Val = t.Val[:g.N(len(t.Val))]
			}
		case 3: // duplicate or drop
			i := g.N(len(ts))
			if g.Bool() {
				ts = append(ts, ts[i])
			} else if len(ts) > 1 {
				ts = append(ts[:i:i], ts[i+1:]...)
			}
		}
		b = joinTLV(ts)
	case 2:
		b = joinTransfers(genVU(g, 1+g.N(3), 2))
	case 3:
		b = joinTLV(genRawTLVs(g.Rand, g.N(6), 100))
	}
	for k := g.N(4); k > 0 && len(b) > 2; k-- {
		i := g.N(len(b))
		switch g.N(4) {
		case 0:
			b[i] ^= 1 << g.N(8)
		case 1:
			b[i] = g.Byte()
		case 2:
			b[i] = pick(g.Rand, byte(0), 0xFF, 0x7F, 0x80)
		case 3:
			if g.P(1, 4) {
				b = b[:i+1]
			}
		}
	}
	if len(b) < 2 {
		return []byte{0, 2}
	}
	return bytes.Clone(b)
}

type failResolver struct{}

// walkMessages visits m and every message below it.
func walkMessages(m protoreflect.Message, path string, f func(path string, m protoreflect.Message)) {
	f(path, m)
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		p := path + "." + string(fd.Name())
		switch {
		case fd.IsMap():
		case fd.IsList() && fd.Message() != nil:
			for i := 0; i < v.List().Len(); i++ {
				walkMessages(v.List().Get(i).Message(), fmt.Sprintf("%s[%d]", p, i), f)
			}
		case fd.Message() != nil && !fd.IsList():
			walkMessages(v.Message(), p, f)
		}
		return true
	})
}

// scribble overwrites every byte slice reachable from a parsed file, in place.
func scribble(m protoreflect.Message) int {
	n := 0
	wipe := func(b []byte) {
		for i := range b {
			b[i] ^= 0xFF
		}
		if len(b) > 0 {
			n++
		}
	}
	walkMessages(m, "", func(_ string, m protoreflect.Message) {
		m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			if fd.Kind() == protoreflect.BytesKind {
				if fd.IsList() {
					for i := 0; i < v.List().Len(); i++ {
						wipe(v.List().Get(i).Bytes())
					}
				} else {
					wipe(v.Bytes())
				}
			}
			return true
		})
	})
	return n
}

func genRawTLVs(g *Rand, n, maxLen int) []TLV {
	fids := make([]uint16, 0, len(fidTable))
	for f := 0; f < 0x10000; f++ {
		if _, ok := fidTable[uint16(f)]; ok {
			fids = append(fids, uint16(f))
		}
	}
	ts := []TLV{{0x0002, byte(g.N(2)) * 0, g.Bytes(g.N(40))}}
	for i := 0; i < n; i++ {
		l := g.N(200)
		switch g.N(10) {
		case 0:
			l = 0
		case 1:
			l = g.N(maxLen + 1)
		}
		t := TLV{fids[g.N(len(fids))], byte(g.N(4)), g.Bytes(l)}
		if g.P(1, 15) {
			t.FID = uint16(g.U64())
		}
		if g.P(1, 30) {
			t.Appendix = g.Byte()
		}
		ts = append(ts, t)
		if g.P(1, 4) { // duplicates and signature companions
			u := t
			u.Appendix ^= byte(g.N(2))
			u.Val = g.Bytes(g.N(130))
			ts = append(ts, u)
		}
	}
	// make sure no driver card is inferred
	nd := TLV{nonDriverFids[g.N(len(nonDriverFids))], byte(g.N(2)) << 1, g.Bytes(g.N(60))}
	at := 1 + g.N(len(ts))
	ts = append(ts[:at], append([]TLV{nd}, ts[at:]...)...)
	return ts
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

func errKey(err error) string {
	s := err.Error()
	if i := len(s); i > 60 {
		s = s[:60]
	}
	return sanitize(s)
}

// anError is an error as the parts of a program return them.
func anError(g *Rand, text string) error {
	switch g.N(14) {
	case 0:
		return context.DeadlineExceeded
	case 1:
		return fmt.Errorf("%s: %w", text, context.DeadlineExceeded)
	case 2:
		return context.Canceled
	case 3:
		return &url.Error{Op: "Get", URL: "https://x/" + text, Err: context.DeadlineExceeded}
	case 4:
		return io.EOF
	case 5:
		return fmt.Errorf("%s: %w", text, io.ErrUnexpectedEOF)
	case 6:
		return &fs.PathError{Op: "open", Path: text, Err: fs.ErrNotExist}
	case 7:
		return fs.ErrNotExist
	case 8:
		return &net.OpError{Op: "dial", Err: os.ErrDeadlineExceeded}
	case 9:
		return errors.Join(errors.New(text), fs.ErrPermission)
	case 10:
		return errors.New("")
	}
	return errors.New(text)
}
