PROP = "D05"
NEEDS = "the other dock has no discoverable feature"
BREAKS = "its registration isn't acknowledged"
EDITS = [("dock.go", """			peer.Send(resp)

			// Cache in-connect Dock info.
			req := pack.P.(*protoRegisterRequest)
""", """			req := pack.P.(*protoRegisterRequest)
			if len(req.Slots) == 0 {
				// Nothing to cache.
				return
			}
			peer.Send(resp)

			// Cache in-connect Dock info.
""")]
PKG = "."
TEST = r'''package ferry

import (
	"net"
	"testing"
)

type demoPeer struct{ on func(*packer) }

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 2} }
func (p *demoPeer) Send(obj interface{}) { p.on(obj.(*packer)) }

func TestDemo(t *testing.T) {
	for _, slots := range [][]string{{"R"}, {}} {
		d := newDock("d")
		acks := 0
		p := &demoPeer{func(m *packer) {
			if m.Id == cReady {
				acks++
			}
		}}
		d.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: slots}})
		if acks != 1 {
			t.Fatal(slots, acks)
		}
	}
}
'''
