PROP = "R02"
NEEDS = "a second response is made before the first one is written to its connection"
BREAKS = "both are the same message, so a call gets the results of another one or none"
EDITS = [("dock.go", """					resp := &packer{
						Id: cRpcResponse,
						P: &protoRpcResponse{
							Index:  req.Index,
							Slot:   req.Slot,
							Method: req.Method,
							Result: result,
							Err: func() string {
								if nil != err {
									return err.Error()
								}

								return ""
							}(),
						},
					}
					peer.Send(resp)
""", """					d.respMutex.Lock()
					d.resp = protoRpcResponse{
						Index:  req.Index,
						Slot:   req.Slot,
						Method: req.Method,
						Result: result,
						Err: func() string {
							if nil != err {
								return err.Error()
							}

							return ""
						}(),
					}
					peer.Send(&packer{Id: cRpcResponse, P: &d.resp})
					d.respMutex.Unlock()
"""), ("dock.go", """	name             string
	socketsMutex """, """	name             string
	respMutex        sync.Mutex
	resp             protoRpcResponse
	socketsMutex """)]
PKG = "."
TEST = r'''package ferry

import (
	"bytes"
	"net"
	"sync"
	"testing"
	"time"
)

type demoPeer struct{ on func(*packer) }

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 2} }
func (p *demoPeer) Send(obj interface{}) { p.on(obj.(*packer)) }

type demoFeature struct{ Feature }

func (f *demoFeature) Twice(i int) int { return 2 * i }

func TestDemo(t *testing.T) {
	d := newDock("d", newSlot("F", new(demoFeature), true))
	var mu sync.Mutex
	var sent []*packer
	p := &demoPeer{func(m *packer) {
		mu.Lock()
		sent = append(sent, m)
		mu.Unlock()
	}}
	for i := 1; i <= 5; i++ {
		d.OnPacket(p, &packer{Id: cRpcRequest, P: &protoRpcRequest{Index: int64(i), Slot: "F", Method: "Twice", Args: []interface{}{i}, WithResult: true}})
	}
	for k := 0; k < 100; k++ {
		time.Sleep(20 * time.Millisecond)
		mu.Lock()
		n := len(sent)
		mu.Unlock()
		if n == 5 {
			break
		}
	}
	mu.Lock()
	defer mu.Unlock()
	got := map[int64]bool{}
	for _, m := range sent {
		var b bytes.Buffer
		if err := m.P.Marshal(&b); err != nil {
			t.Fatal(err)
		}
		r := new(protoRpcResponse)
		if err := r.Unmarshal(&b); err != nil {
			t.Fatal(err)
		}
		got[r.Index] = true
	}
	if len(got) != 5 {
		t.Fatal("responses of", len(got), "calls")
	}
}
'''
