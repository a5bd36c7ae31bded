PROP = 'K01'
NEEDS = 'an unsigned number above 2^63 in a typed slice or map'
BREAKS = 'it is decoded as a negative number'
EDITS = [('codec/encoder.go', """	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return encodeUint64(writer, v.Uint())
""", """	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if n := v.Uint(); n > math.MaxInt64 {
			return encodeInt64(writer, int64(n))
		}
		return encodeUint64(writer, v.Uint())
"""),
         ]
PKG = 'codec'
TEST = r'''package codec

import (
	by "bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var b by.Buffer
	if err := NewAny([]uint64{1<<63 + 5}).Encode(&b); err != nil {
		t.Fatal(err)
	}
	a := NewAny(nil)
	if err := a.Decode(&b); err != nil {
		t.Fatal(err)
	}
	arr, _ := a.Arr()
	if len(arr) != 1 || arr[0] != uint64(1<<63+5) {
		t.Fatal(arr)
	}
}
'''
