PROP = "R03"
NEEDS = "a dock first calls a feature that nobody provides, then another one that is there"
BREAKS = "the second call waits until somebody provides the feature of the first one"
EDITS = [("hub.go", """			go func() {
				req := pack.P.(*protoQueryRequest)
""", """			func() {
				req := pack.P.(*protoQueryRequest)
""")]
PKG = "."
TEST = r'''package ferry

import (
	"net"
	"testing"
	"time"
)

type demoPeer struct{ on func(*packer) }

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 2} }
func (p *demoPeer) Send(obj interface{}) { p.on(obj.(*packer)) }

func TestDemo(t *testing.T) {
	h := newHub()
	p := &demoPeer{func(m *packer) {}}
	h.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{"R"}}})
	h.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{"R"}}})
	got := make(chan bool, 9)
	q := &demoPeer{func(m *packer) { got <- true }}
	go func() {
		h.OnPacket(q, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: "nobody"}})
		h.OnPacket(q, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: "R"}})
	}()
	select {
	case <-got:
	case <-time.After(5 * time.Second):
		t.Fatal("no answer")
	}
}
'''
