package main

import (
	tachograph "github.com/way-platform/tachograph-go"
	tachographv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/v1"
	"google.golang.org/protobuf/proto"
)

type File = tachographv1.File

// outcome of one call: exactly one of the three.
type parseOut struct {
	f     *File
	err   error
	panic any
	stack string
}

func parse(b []byte) (o parseOut) {
	o.panic, o.stack = guard(func() { o.f, o.err = tachograph.UnmarshalFile(b) })
	return
}

type marshalOut struct {
	b     []byte
	err   error
	panic any
	stack string
}

func marshal(f *File) (o marshalOut) {
	o.panic, o.stack = guard(func() { o.b, o.err = tachograph.MarshalFile(f) })
	return
}

var detMarshal = proto.MarshalOptions{Deterministic: true, AllowPartial: true}

func digest(m proto.Message) []byte {
	b, err := detMarshal.Marshal(m)
	if err != nil {
		return []byte("proto-error:" + err.Error())
	}
	return b
}
