PROP = "W01"
NEEDS = "a message of 64 KiB or more"
BREAKS = "the message is cut at a multiple of 64 KiB less than its length, and the receiver breaks down"
EDITS = [("serializer.go", """	length := (int(source[0]) | int(source[1])<<8 | int(source[2])<<16 | int(source[3])<<24)
""", """	length := (int(source[0]) | int(source[1])<<8 | int(source[2]<<16) | int(source[3])<<24)
""")]
PKG = "."
TEST = r'''package ferry

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	s := newSerializer()
	for _, n := range []int{1, 1000, 60000, 66000, 1 << 20} {
		b := s.Marshal(&packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: strings.Repeat("x", n)}})
		if got := s.Slice(b); got != len(b) {
			t.Fatal(n, got, len(b))
		}
	}
}
'''
