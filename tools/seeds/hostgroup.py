PROP = 'H03'
NEEDS = 'three docks with one feature from two hosts, registering in the order host 1, host 2, host 1'
BREAKS = 'the newest provider is not the one handed out'
EDITS = [('hub.go', """				stubs.PushBack(&stub{addr: addr, peer: peer, ready: false})
""", """				// Keep the docks of one host together.
				s := &stub{addr: addr, peer: peer, ready: false}
				last := stubs.Back()
				for nil != last && pickIP(last.Value.(*stub).addr) != pickIP(addr) {
					last = last.Prev()
				}
				if nil != last {
					stubs.InsertAfter(s, last)
				} else {
					stubs.PushBack(s)
				}
"""),
         ]
PKG = '.'
TEST = r'''package ferry

import (
	"net"
	"testing"
	"time"
)

type demoPeer struct {
	addr string
	sent chan *packer
}

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { a, _ := net.ResolveTCPAddr("tcp", p.addr); return a }
func (p *demoPeer) Send(obj interface{}) { p.sent <- obj.(*packer) }

func TestDemo(t *testing.T) {
	h := newHub()
	for _, a := range []string{"10.0.0.2:1001", "10.0.0.3:1001", "10.0.0.2:1002"} {
		p := &demoPeer{a, make(chan *packer, 9)}
		h.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{"A"}}})
		h.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{"A"}}})
	}
	q := &demoPeer{"10.0.0.9:1", make(chan *packer, 9)}
	h.OnPacket(q, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: "A"}})
	select {
	case m := <-q.sent:
		if a := m.P.(*protoQueryResponse).DockAddr; a != "10.0.0.2:20002" {
			t.Fatal(a)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("no answer")
	}
}
'''
