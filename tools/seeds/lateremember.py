PROP = "D06"
NEEDS = "a connection is closed right after the registration on it"
BREAKS = "the dock that is gone is remembered, and later calls go to it for ever"
EDITS = [("dock.go", """			for _, v := range req.Slots {
				d.remoteSlotsMutex.Lock()
				d.remoteSlots[v] = peer
				d.remoteSlotsMutex.Unlock()
			}
""", """			go func() {
				d.remoteSlotsMutex.Lock()
				for _, v := range req.Slots {
					d.remoteSlots[v] = peer
				}
				d.remoteSlotsMutex.Unlock()

				for _, v := range req.Slots {
					for _, r := range d.waitingRpcs(v) {
						d.commit(r)
					}
				}
			}()
""")]
PKG = "."
TEST = r'''package ferry

import (
	"net"
	"runtime"
	"testing"
	"time"
)

type demoPeer struct{ on func(*packer) }

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 2} }
func (p *demoPeer) Send(obj interface{}) { p.on(obj.(*packer)) }

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	sent := make(chan bool, 99)
	for i := 0; i < 10; i++ {
		d := newDock("d")
		gone := false
		p := &demoPeer{func(m *packer) {
			if gone && m.Id == cRpcRequest {
				sent <- true
			}
		}}
		d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{"R"}}})
		d.OnClosed(p)
		gone = true
		time.Sleep(20 * time.Millisecond)
		go d.call("R", "Work")
		time.Sleep(20 * time.Millisecond)
	}
	if len(sent) > 0 {
		t.Fatal(len(sent), "calls to a dock that is gone")
	}
}
'''
