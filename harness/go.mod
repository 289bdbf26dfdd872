module github.com/way-platform/tachograph-go/zverif

go 1.25.0

require (
	github.com/way-platform/tachograph-go v0.0.0
	google.golang.org/protobuf v1.36.10
)

require (
	buf.build/gen/go/bufbuild/protovalidate/protocolbuffers/go v1.36.10-20250912141014-52f32327d4b0.1 // indirect
	github.com/keybase/go-crypto v0.0.0-20200123153347-de78d2cb44f4 // indirect
	golang.org/x/text v0.29.0 // indirect
)

replace github.com/way-platform/tachograph-go => /repo
