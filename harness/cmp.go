package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// Diff is one disagreement between the reference value and the message produced by the code under test.
type Diff struct{ Path, Want, Got string }

func (d Diff) String() string { return d.Path + ": want " + d.Want + ", got " + d.Got }

type differ struct {
	out    []Diff
	fields int // compared leaf fields
}

func (d *differ) add(path string, want, got any) {
	if len(d.out) < 40 {
		d.out = append(d.out, Diff{path, fmtv(want), fmtv(got)})
	}
}

func fmtv(v any) string {
	switch x := v.(type) {
	case nil:
		return "absent"
	case []byte:
		return fmt.Sprintf("%x", x)
	case *Obj:
		return "message"
	case string:
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprintf("%#v", v)
}

// compare checks a message against the expected object; every populated field must be expected.
func (d *differ) compare(path string, want *Obj, got protoreflect.Message) {
	fds := got.Descriptor().Fields()
	seen := map[string]bool{}
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		name := string(fd.Name())
		seen[name] = true
		p := path + "." + name
		w, ok := want.m[name]
		if !ok && name == "raw_data" {
			if got.Has(fd) && len(got.Get(fd).Bytes()) > 0 {
				d.fields++
				if want.raw == nil {
					d.add(p, nil, got.Get(fd).Bytes())
				} else if !bytes.Equal(got.Get(fd).Bytes(), want.raw) {
					d.add(p, want.raw, got.Get(fd).Bytes())
				}
			} else if want.opaque {
				d.fields++
				d.add(p, want.raw, nil)
			}
			continue
		}
		if _, sk := w.(Skip); sk {
			continue
		}
		d.field(p, fd, w, got)
	}
	for k := range want.m {
		if !seen[k] {
			panic("reference names unknown field " + string(got.Descriptor().FullName()) + "." + k)
		}
	}
}

func (d *differ) field(p string, fd protoreflect.FieldDescriptor, w any, got protoreflect.Message) {
	d.fields++
	if fd.IsList() {
		l := got.Get(fd).List()
		var wl List
		if w != nil {
			wl = w.(List)
		}
		if l.Len() != len(wl) {
			d.add(p+".len", len(wl), l.Len())
			return
		}
		for i := 0; i < l.Len(); i++ {
			pi := fmt.Sprintf("%s[%d]", p, i)
			if fd.Message() != nil {
				d.compare(pi, wl[i].(*Obj), l.Get(i).Message())
			} else if e := scalarDiff(fd, wl[i], l.Get(i)); e != nil {
				d.add(pi, wl[i], e.got)
			}
		}
		return
	}
	if a, ok := w.(AnyOf); ok {
		var first []Diff
		for i, alt := range a {
			sub := &differ{}
			sub.field(p, fd, alt, got)
			if len(sub.out) == 0 {
				return
			}
			if i == 0 {
				first = sub.out
			}
		}
		d.out = append(d.out, first...)
		return
	}
	if fd.Message() != nil {
		if w == nil {
			if got.Has(fd) {
				d.add(p, nil, got.Get(fd).Message().Interface())
			}
			return
		}
		if !got.Has(fd) {
			d.add(p, w, nil)
			return
		}
		m := got.Get(fd).Message()
		switch x := w.(type) {
		case Tm:
			ts := m.Interface().(*timestamppb.Timestamp)
			if ts.GetSeconds() != int64(x) || ts.GetNanos() != 0 {
				d.add(p, int64(x), ts.GetSeconds())
			}
		case *Obj:
			d.compare(p, x, m)
		default:
			panic(fmt.Sprintf("%s: bad reference value %T for message", p, w))
		}
		return
	}
	if e := scalarDiff(fd, w, got.Get(fd)); e != nil {
		d.add(p, w, e.got)
	}
}

type sdiff struct{ got any }

// scalarDiff compares leniently on presence: an unset scalar equals its zero value.
func scalarDiff(fd protoreflect.FieldDescriptor, w any, v protoreflect.Value) *sdiff {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		b, _ := w.(bool)
		if v.Bool() != b {
			return &sdiff{v.Bool()}
		}
	case protoreflect.StringKind:
		switch x := w.(type) {
		case nil:
			if v.String() != "" {
				return &sdiff{v.String()}
			}
		case Text:
			for _, s := range x {
				if s == v.String() {
					return nil
				}
			}
			return &sdiff{v.String()}
		default:
			panic("bad reference for string")
		}
	case protoreflect.BytesKind:
		b, _ := w.([]byte)
		if !bytes.Equal(v.Bytes(), b) {
			return &sdiff{v.Bytes()}
		}
	case protoreflect.EnumKind:
		e, _ := w.(Enum)
		if int32(v.Enum()) != int32(e) {
			return &sdiff{fmt.Sprintf("%d(%s)", v.Enum(), enumName(fd, v.Enum()))}
		}
	case protoreflect.Uint32Kind, protoreflect.Uint64Kind:
		n, _ := w.(int64)
		if int64(v.Uint()) != n {
			return &sdiff{int64(v.Uint())}
		}
	default:
		n, _ := w.(int64)
		if v.Int() != n {
			return &sdiff{v.Int()}
		}
	}
	return nil
}

func enumName(fd protoreflect.FieldDescriptor, n protoreflect.EnumNumber) string {
	if v := fd.Enum().Values().ByNumber(n); v != nil {
		return string(v.Name())
	}
	return "?"
}

// pathKey turns a diff path into a stable key (indices removed).
func pathKey(p string) string {
	var b strings.Builder
	in := false
	for _, c := range p {
		switch {
		case c == '[':
			in = true
		case c == ']':
			in = false
		case !in:
			b.WriteRune(c)
		}
	}
	return strings.TrimPrefix(b.String(), ".")
}

func diffMsg(ds []Diff) string {
	var s []string
	for i, x := range ds {
		if i == 6 {
			s = append(s, fmt.Sprintf("… %d more", len(ds)-i))
			break
		}
		s = append(s, x.String())
	}
	return strings.Join(s, "; ")
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
