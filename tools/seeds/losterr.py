PROP = "R06"
NEEDS = "a call without result, to a feature of another dock, that fails"
BREAKS = "the error of a call without result isn't passed to the calling dock"
EDITS = [("dock.go", """								if nil != err {
									return err.Error()""", """								if nil != err && req.WithResult {
									return err.Error()""")]
PKG = "."
TEST = r'''package ferry

import (
	"net"
	"testing"
)

type demoPeer struct{ sent chan *packer }

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 2} }
func (p *demoPeer) Send(obj interface{}) { p.sent <- obj.(*packer) }

type demoFeature struct{ Feature }

func TestDemo(t *testing.T) {
	d := newDock("d", Carry("F", &demoFeature{}, true))
	p := &demoPeer{make(chan *packer, 99)}
	for _, wr := range []bool{true, false} {
		d.OnPacket(p, &packer{Id: cRpcRequest, P: &protoRpcRequest{Index: 1, Slot: "F", Method: "Nope", WithResult: wr}})
		if r := <-p.sent; r.P.(*protoRpcResponse).Err == "" {
			t.Fatal("no error", wr)
		}
	}
}
'''
