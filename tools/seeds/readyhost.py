PROP = 'H02'
NEEDS = 'two docks of one host that registered the same feature, only the older one of which is ready'
BREAKS = 'a dock that is not ready yet is handed out'
EDITS = [('hub.go', """						if stub.peer == peer {
							stub.ready = true
							break
						}
""", """						if stub.peer == peer || pickIP(stub.addr) == pickIP(peer.RemoteAddr().String()) {
							stub.ready = true
						}
"""),
         ]
PKG = '.'
TEST = r'''package ferry

import (
	"net"
	"testing"
	"time"
)

type demoPeer struct {
	addr string
	sent chan *packer
}

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { a, _ := net.ResolveTCPAddr("tcp", p.addr); return a }
func (p *demoPeer) Send(obj interface{}) { p.sent <- obj.(*packer) }

func TestDemo(t *testing.T) {
	h := newHub()
	ps := []*demoPeer{}
	for _, a := range []string{"10.0.0.2:1001", "10.0.0.2:1002"} {
		p := &demoPeer{a, make(chan *packer, 9)}
		ps = append(ps, p)
		h.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{"A"}}})
	}
	h.OnPacket(ps[0], &packer{Id: cReady, P: &protoReady{Slots: []string{"A"}}})
	q := &demoPeer{"10.0.0.9:1", make(chan *packer, 9)}
	h.OnPacket(q, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: "A"}})
	select {
	case m := <-q.sent:
		if a := m.P.(*protoQueryResponse).DockAddr; a != "10.0.0.2:20001" {
			t.Fatal(a)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("no answer")
	}
}
'''
