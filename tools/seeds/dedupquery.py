PROP = 'H04'
NEEDS = 'two queries for one feature on one connection before there is a provider'
BREAKS = 'only one of the queries is answered'
EDITS = [('hub.go', """	blackPorts       map[int]bool
}
""", """	blackPorts       map[int]bool
	pending          sync.Map // queries that are waiting
}
"""),
         ('hub.go', """			go func() {
				req := pack.P.(*protoQueryRequest)
				for {
""", """			req := pack.P.(*protoQueryRequest)
			key := struct {
				peer network.IPeer
				slot string
			}{peer, req.Slot}
			if _, waiting := h.pending.LoadOrStore(key, true); waiting {
				return
			}

			go func() {
				defer h.pending.Delete(key)
				for {
"""),
         ]
PKG = '.'
TEST = r'''package ferry

import (
	"net"
	"testing"
	"time"
)

type demoPeer struct {
	addr string
	sent chan *packer
}

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { a, _ := net.ResolveTCPAddr("tcp", p.addr); return a }
func (p *demoPeer) Send(obj interface{}) { p.sent <- obj.(*packer) }

func TestDemo(t *testing.T) {
	h := newHub()
	q := &demoPeer{"10.0.0.9:1", make(chan *packer, 9)}
	for i := 0; i < 2; i++ {
		h.OnPacket(q, &packer{Id: cQueryRequest, P: &protoQueryRequest{Slot: "A"}})
	}
	p := &demoPeer{"10.0.0.2:1001", make(chan *packer, 9)}
	h.OnPacket(p, &packer{Id: cRegisterRequest, P: &protoRegisterRequest{Slots: []string{"A"}}})
	h.OnPacket(p, &packer{Id: cReady, P: &protoReady{Slots: []string{"A"}}})
	for i := 0; i < 2; i++ {
		select {
		case <-q.sent:
		case <-time.After(3 * time.Second):
			t.Fatal("no answer", i)
		}
	}
}
'''
