PROP = 'D02'
NEEDS = 'a dock with a feature that is not discoverable, and another dock that connects to it'
BREAKS = 'the ready message to another dock names features that are not discoverable'
EDITS = [('dock.go', """			resp := &packer{
				Id: cReady,
				P: &protoReady{
					Slots: d.collect(),
				},
			}
			peer.Send(resp)
""", """			slots := make([]string, 0)
			for id := range d.slots {
				slots = append(slots, id)
			}
			resp := &packer{
				Id: cReady,
				P: &protoReady{
					Slots: slots,
				},
			}
			peer.Send(resp)
"""),
         ]
PKG = '.'
TEST = r'''package ferry

import (
	"net"
	"testing"
)

type demoPeer struct {
	addr string
	sent chan *packer
}

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { a, _ := net.ResolveTCPAddr("tcp", p.addr); return a }
func (p *demoPeer) Send(obj interface{}) { p.sent <- obj.(*packer) }

func TestDemo(t *testing.T) {
	d := newDock("d", Carry("A", &Feature{}, true), Carry("B", &Feature{}, false))
	p := &demoPeer{"10.0.0.2:1", make(chan *packer, 9)}
	d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{"R"}}})
	if s := (<-p.sent).P.(*protoReady).Slots; len(s) != 1 || s[0] != "A" {
		t.Fatal(s)
	}
}
'''
