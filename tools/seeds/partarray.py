PROP = "K02"
NEEDS = "an array that is cut off exactly between two elements"
BREAKS = "it is decoded as a shorter array"
EDITS = [("codec/decoder.go", """		v, err := decode(reader)
		if nil != err {
			return nil, err
		}

		arr = append(arr, v)
""", """		v, err := decode(reader)
		if io.EOF == err && i > 0 {
			break
		}
		if nil != err {
			return nil, err
		}

		arr = append(arr, v)
""")]
PKG = "codec"
TEST = r'''package codec

import (
	gobytes "bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var b gobytes.Buffer
	NewAny([]interface{}{int8(1), "two", true}).Encode(&b)
	all := b.Bytes()
	for n := range all {
		a := NewAny(nil)
		if err := a.Decode(gobytes.NewReader(all[:n])); err == nil {
			t.Fatal(n, "of", len(all), a.Any())
		}
	}
}
'''
