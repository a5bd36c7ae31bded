PROP = "R05"
NEEDS = "a method with an unsigned result of 2^63 or more"
BREAKS = "the caller gets a negative number"
EDITS = [("chancall/meta.go", """		result[i] = r.Interface()
""", """		switch r.Kind() {
		case reflect.Uint, reflect.Uint64:
			result[i] = r.Convert(reflect.TypeOf(int64(0))).Interface()
		default:
			result[i] = r.Interface()
		}
""")]
PKG = "chancall"
TEST = r'''package chancall

import (
	"fmt"
	"testing"
)

type demo struct{}

func (d *demo) Echo(u uint64) uint64 { return u }

func TestDemo(t *testing.T) {
	c := NewCallee("demo", new(demo))
	for _, u := range []uint64{0, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		r, err := NewCaller(c).CallWithResult("Echo", u)
		if err != nil || fmt.Sprint(r[0]) != fmt.Sprint(u) {
			t.Fatal(u, r, err)
		}
	}
}
'''
