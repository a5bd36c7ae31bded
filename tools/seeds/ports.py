PROP = "H01"
NEEDS = "two adjacent black ports, and a dock that would get the first of them"
BREAKS = "the port after a black port is assigned even if it is black, too"
EDITS = [("hub.go", """		port += 1

		if !h.blackPorts[port] {
			break
		}
	}
""", """		port += 1

		if h.blackPorts[port] {
			port += 1
		}

		break
	}
""")]
PKG = "."
TEST = r'''package ferry

import (
	"net"
	"testing"
)

type demoPeer struct{ sent chan *packer }

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 2} }
func (p *demoPeer) Send(obj interface{}) { p.sent <- obj.(*packer) }

func TestDemo(t *testing.T) {
	h := newHub()
	black := []int{20002, 20004, 20005, 20006, 20009}
	for _, p := range black {
		h.blackPorts[p] = true
	}
	for i := 0; i < 8; i++ {
		p := &demoPeer{make(chan *packer, 9)}
		h.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{"A"}}})
		port := (<-p.sent).P.(*protoRegisterResponse).Port
		for _, b := range black {
			if b == port {
				t.Fatal("black port", port)
			}
		}
	}
}
'''
