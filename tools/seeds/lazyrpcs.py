PROP = "L02"
NEEDS = "a feature calls another one after its dock has been closed"
BREAKS = "the call never returns"
EDITS = [("dock.go", "	d.rpcs = make(map[int64]*rpc)\n", ""), ("dock.go", """func (d *dock) addRpc(rpc *rpc) {
	d.rpcsMutex.Lock()
	defer d.rpcsMutex.Unlock()

	if nil == d.rpcs {
		rpc.callback(&ret{err: errors.New("Dock is closed!")})
		return
	}

	d.rpcs[rpc.index] = rpc
""", """func (d *dock) addRpc(r *rpc) {
	d.rpcsMutex.Lock()
	defer d.rpcsMutex.Unlock()

	if nil == d.rpcs {
		d.rpcs = make(map[int64]*rpc)
	}

	d.rpcs[r.index] = r
""")]
PKG = "."
TEST = r'''package ferry

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	d := newDock("d")
	d.Close()
	done := make(chan error, 1)
	go func() { done <- d.call("R", "Work") }()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("waits for ever")
	}
}
'''
