PROP = 'K04'
NEEDS = 'a value that is used again to decode nil after something else'
BREAKS = 'typed access to nil panics'
EDITS = [('codec/any.go', """	if nil == a.s {
		a.tp = aNil
	}

	switch a.s.(type) {
""", """	switch a.s.(type) {
	case nil:
		return
"""),
         ]
PKG = 'codec'
TEST = r'''package codec

import (
	by "bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var b by.Buffer
	NewAny("text").Encode(&b)
	NewAny(nil).Encode(&b)
	a := NewAny(nil)
	a.Decode(&b)
	if err := a.Decode(&b); err != nil {
		t.Fatal(err)
	}
	if _, err := a.String(); err == nil {
		t.Fatal("nil is no string")
	}
}
'''
