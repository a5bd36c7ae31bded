PROP = 'C03'
NEEDS = 'two methods whose names differ in case only, one of them with its own limit'
BREAKS = 'setting the limit of one method changes that of another one'
EDITS = [('chancall/meta.go', """	f := m.funcs[method]
	if nil != f {
		f.timeout = timeout
	}
""", """	for name, f := range m.funcs {
		if strings.EqualFold(name, method) {
			f.timeout = timeout
		}
	}
"""),
         ('chancall/meta.go', """	"reflect"
)
""", """	"reflect"
	"strings"
)
"""),
         ]
PKG = 'chancall'
TEST = r'''package chancall

import (
	"testing"
	"time"
)

type demoTarget struct{}

func (d *demoTarget) Get()  { time.Sleep(300 * time.Millisecond) }
func (d *demoTarget) GET()  {}

func TestDemo(t *testing.T) {
	c := NewCallee("x", &demoTarget{})
	c.SetTimeout("GET", 0.1)
	if err := NewCaller(c).Call("Get"); err != nil {
		t.Fatal(err)
	}
}
'''
