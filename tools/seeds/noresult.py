PROP = 'R04'
NEEDS = 'a request without results for a method that has some'
BREAKS = 'the response carries results that were not asked for'
EDITS = [('dock.go', """						err = caller.Call(req.Method, req.Args...)
""", """						result, err = caller.CallWithResult(req.Method, req.Args...)
"""),
         ]
PKG = '.'
TEST = r'''package ferry

import (
	"net"
	"testing"
	"time"
)

type demoPeer struct {
	addr string
	sent chan *packer
}

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { a, _ := net.ResolveTCPAddr("tcp", p.addr); return a }
func (p *demoPeer) Send(obj interface{}) { p.sent <- obj.(*packer) }

type demoFeature struct{ Feature }

func (f *demoFeature) Get() int { return 7 }

func TestDemo(t *testing.T) {
	d := newDock("d", Carry("A", &demoFeature{}, true))
	p := &demoPeer{"10.0.0.2:1", make(chan *packer, 9)}
	d.OnPacket(p, &packer{Id: cRpcRequest, P: &protoRpcRequest{Index: 5, Slot: "A", Method: "Get", WithResult: false}})
	select {
	case m := <-p.sent:
		if r := m.P.(*protoRpcResponse).Result; len(r) != 0 {
			t.Fatal(r)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("no response")
	}
}
'''
