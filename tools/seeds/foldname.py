PROP = 'C04'
NEEDS = 'a method name that differs from that of an exported method in case only'
BREAKS = 'a method with another name is run'
EDITS = [('chancall/meta.go', """	f := m.funcs[method]
	if nil == f || !f.fn.IsValid() {
""", """	f := m.find(method)
	if nil == f || !f.fn.IsValid() {
"""),
         ('chancall/meta.go', """func (m *meta) timeout(method string) float32 {
	f := m.funcs[method]
	if nil != f {
		return f.timeout
""", """func (m *meta) find(method string) *fcall {
	if f, ok := m.funcs[method]; ok {
		return f
	}

	// The name may be written as a local one.
	if "" != method {
		return m.funcs[strings.ToUpper(method[:1])+method[1:]]
	}

	return nil
}

func (m *meta) timeout(method string) float32 {
	f := m.find(method)
	if nil != f {
		return f.timeout
"""),
         ('chancall/meta.go', """	"reflect"
)
""", """	"reflect"
	"strings"
)
"""),
         ]
PKG = 'chancall'
TEST = r'''package chancall

import "testing"

type demoTarget struct{}

func (d *demoTarget) Get() {}

func TestDemo(t *testing.T) {
	c := NewCallee("x", &demoTarget{})
	if err := NewCaller(c).Call("get"); err == nil {
		t.Fatal("no such method")
	}
}
'''
