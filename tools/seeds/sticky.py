PROP = "H05"
NEEDS = "a dock asks for a feature again after the provider it was given has left"
BREAKS = "it gets the address of the dock that has left"
EDITS = [("hub.go", """			go func() {
				req := pack.P.(*protoQueryRequest)
				for {
""", """			req := pack.P.(*protoQueryRequest)
			if addr, ok := h.answers.Load(peer.RemoteAddr().String() + "/" + req.Slot); ok {
				h.respondQueryImme(peer, addr.(string))
				return
			}
			go func() {
				for {
"""), ("hub.go", """						h.respondQueryImme(peer, addr)
						return
""", """						h.answers.Store(peer.RemoteAddr().String()+"/"+req.Slot, addr)
						h.respondQueryImme(peer, addr)
						return
"""), ("hub.go", "	blackPorts       map[int]bool\n}", "	blackPorts       map[int]bool\n	answers          sync.Map\n}")]
PKG = "."
TEST = r'''package ferry

import (
	"net"
	"testing"
	"time"
)

type demoPeer struct{ on func(*packer) }

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 2} }
func (p *demoPeer) Send(obj interface{}) { p.on(obj.(*packer)) }

func TestDemo(t *testing.T) {
	h := newHub()
	join := func() *demoPeer {
		p := &demoPeer{func(m *packer) {}}
		h.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{"R"}}})
		h.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{"R"}}})
		return p
	}
	got := make(chan string, 9)
	q := &demoPeer{func(m *packer) { got <- m.P.(*protoQueryResponse).DockAddr }}
	ask := func() string {
		h.OnPacket(q, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: "R"}})
		select {
		case a := <-got:
			return a
		case <-time.After(5 * time.Second):
			t.Fatal("no answer")
		}
		return ""
	}
	a := join()
	first := ask()
	h.OnClosed(a)
	join()
	if ask() == first {
		t.Fatal("the dock at", first, "has left")
	}
}
'''
