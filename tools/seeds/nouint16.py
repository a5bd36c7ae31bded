PROP = "G01"
NEEDS = "an interface with a method whose result is an uint16"
BREAKS = "the generated code doesn't compile"
EDITS = [("tool/ferry.gen.go", """		case "uint8":
			return "0"
		case "uint16":
			return "0"
		case "uint32":
			return "0"
""", """		case "uint8":
			return "0"
		case "uint32":
			return "0"
""")]
PKG = "."
DEMO = """#!/bin/sh
# Generates proxies for interfaces with results of all basic types and builds them.
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
export GOTOOLCHAIN=local GOPROXY=off
RC=0
go build -o "$T/gen" ./tool/ferry.gen.go || RC=1
mkdir "$T/demo"
cp "$D/types.go.txt" "$T/demo/types.go"
(cd "$T/demo" && "$T/gen") || RC=1
printf 'module github.com/muguangyi/ferry/zzdemo\\n\\nrequire github.com/muguangyi/ferry v0.0.0\\n\\nreplace github.com/muguangyi/ferry => %s\\n' "$R" >"$T/demo/go.mod"
(cd "$T/demo" && GOFLAGS=-mod=mod go build -o "$T/out" .) || RC=1
rm -f "$T/gen" "$T/out" "$T/demo/types.go" "$T/demo/proxy.gen.go" "$T/demo/go.mod" "$T/demo/go.sum"
rmdir "$T/demo" "$T"
exit $RC
"""
FILES = {"types.go.txt": """package main

type IAll interface {
	B() bool
	I() int
	I8() int8
	I16() int16
	I32() int32
	I64() int64
	U() uint
	U8() uint8
	U16() uint16
	U32() uint32
	U64() uint64
	F32() float32
	F64() float64
	S() string
}

func main() {}
"""}
