PROP = 'K03'
NEEDS = 'values one after the other in a stream that is not a buffer with single byte reads'
BREAKS = 'bytes of the next value are consumed'
EDITS = [('codec/decoder.go', """func readByte(reader io.Reader) (byte, error) {
	var data bytes1
""", """func readByte(reader io.Reader) (byte, error) {
	if b, ok := reader.(io.ByteScanner); ok {
		return b.ReadByte()
	}

	var data bytes1
"""),
         ('codec/any.go', """func (a *any) Decode(reader io.Reader) error {
	v, err := decode(reader)
	if err != nil {
""", """func (a *any) Decode(source io.Reader) error {
	reader, ok := source.(io.ByteScanner)
	if !ok {
		reader = bufio.NewReaderSize(source, 16)
	}

	v, err := decode(reader.(io.Reader))
	if nil != err {
"""),
         ('codec/any.go', """	"fmt"
	"io"
""", """	"bufio"
	"fmt"
	"io"
"""),
         ]
PKG = 'codec'
TEST = r'''package codec

import (
	by "bytes"
	"io"
	"testing"
)

func TestDemo(t *testing.T) {
	var b by.Buffer
	NewAny("text").Encode(&b)
	NewAny(true).Encode(&b)
	r := struct{ io.Reader }{&b}
	a := NewAny(nil)
	a.Decode(r)
	if err := a.Decode(r); err != nil {
		t.Fatal(err)
	}
	if v, err := a.Bool(); err != nil || !v {
		t.Fatal(v, err)
	}
}
'''
