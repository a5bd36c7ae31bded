PROP = "D01"
NEEDS = "the hub or another dock acts on the announcement before the listener is set up"
BREAKS = "the dock can't be reached although it has announced itself ready"
EDITS = [("dock.go", """			socket.Listen()

			// Send DockReadyRequest to Hub.
""", """			go socket.Listen()

			// Send DockReadyRequest to Hub.
""")]
PKG = "."
TEST = r'''package ferry

import (
	"fmt"
	"net"
	"runtime"
	"testing"

	"github.com/muguangyi/ferry/network"
)

type demoPeer struct{ on func(*packer) }

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 2} }
func (p *demoPeer) Send(obj interface{}) { p.on(obj.(*packer)) }

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(1)
	network.ExtendSerializer("ferry", newSerializer())
	bad := 0
	for i := 0; i < 10; i++ {
		port := 26441 + i
		d := newDock("d")
		p := &demoPeer{func(m *packer) {
			if m.Id != cReady {
				return
			}
			c, err := net.DialTCP("tcp", nil, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
			if err != nil {
				fmt.Println(err)
				bad++
				return
			}
			c.Close()
		}}
		d.OnPacket(p, &packer{Id: cRegisterResponse, P: &protoRegisterResponse{Port: port}})
	}
	if bad > 0 {
		t.Fatal(bad)
	}
}
'''
