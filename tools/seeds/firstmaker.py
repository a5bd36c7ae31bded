PROP = 'G02'
NEEDS = 'a name that is registered twice'
BREAKS = 'the maker registered first is used'
EDITS = [('registry.go', """	registry[name] = maker
""", """	if _, ok := registry[name]; !ok {
		registry[name] = maker
	}
"""),
         ]
PKG = '.'
TEST = r'''package ferry

import "testing"

func TestDemo(t *testing.T) {
	for i := 1; i < 3; i++ {
		n := i
		Register("demo", func(s ISlot) interface{} { return n })
	}
	if x := Carry("c", &Feature{}, true).Visit("demo"); x != 2 {
		t.Fatal(x)
	}
}
'''
