PROP = "R01"
NEEDS = "the provider says twice that it is ready while the call has no response yet"
BREAKS = "a call is sent again and runs twice"
EDITS = [("dock.go", """		rpc.req = nil
		rpc.peer = peer
""", """		rpc.peer = peer
""")]
PKG = "."
TEST = r'''package ferry

import (
	"net"
	"testing"
	"time"
)

type demoPeer struct{ sent chan *packer }

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 2} }
func (p *demoPeer) Send(obj interface{}) { p.sent <- obj.(*packer) }

func TestDemo(t *testing.T) {
	d := newDock("d")
	p := &demoPeer{make(chan *packer, 99)}
	d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{"R"}}})
	go d.call("R", "Work")
	time.Sleep(200 * time.Millisecond)
	d.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{"R"}}})
	d.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{"R"}}})
	time.Sleep(200 * time.Millisecond)
	n := 0
	for len(p.sent) > 0 {
		if (<-p.sent).Id == cRpcRequest {
			n++
		}
	}
	if n != 1 {
		t.Fatal(n, "requests")
	}
}
'''
