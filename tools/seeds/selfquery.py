PROP = 'D04'
NEEDS = 'a call to a feature of the own dock that is not discoverable'
BREAKS = 'the hub is asked for a feature the dock carries itself'
EDITS = [('dock.go', """	target := d.slots[name]
	if nil != target {
		return chancall.NewCaller(target.callee).CallWithResult(method, args...)
	} else {
""", """	target := d.slots[name]
	if nil != target && target.discoverable {
		return chancall.NewCaller(target.callee).CallWithResult(method, args...)
	} else {
"""),
         ]
PKG = '.'
TEST = r'''package ferry

import (
	"testing"
	"time"
)

type demoFeature struct{ Feature }

func (f *demoFeature) Get() int { return 7 }

func TestDemo(t *testing.T) {
	d := newDock("d", Carry("A", &demoFeature{}, false))
	got := make(chan []interface{}, 1)
	go func() {
		res, _ := d.callWithResult("A", "Get")
		got <- res
	}()
	select {
	case r := <-got:
		if len(r) != 1 || r[0] != 7 {
			t.Fatal(r)
		}
	case <-time.After(2 * time.Second):
		t.Fatal("not called inside the dock")
	}
}
'''
