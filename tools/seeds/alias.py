PROP = 'N01'
NEEDS = 'a serializer that keeps the bytes it gets, and a packet that comes after it'
BREAKS = 'a packet changes after it has been delivered'
EDITS = [('network/peer.go', """				slice := make([]byte, length)
				n, err := p.recvBuffer.Read(slice)
				if nil != err || n != length {
				}
""", """				slice := p.recvBuffer.Next(length)
"""),
         ]
PKG = 'network'
TEST = r'''package network

import (
	"net"
	"testing"
	"time"
)

type demoSerializer struct{}

func (demoSerializer) Marshal(obj interface{}) []byte     { return obj.([]byte) }
func (demoSerializer) Unmarshal(data []byte) interface{} { return data }
func (demoSerializer) Slice(data []byte) int {
	if len(data) < 8 {
		return 0
	}
	return 8
}

type demoSink struct{ got chan []byte }

func (s *demoSink) OnConnected(IPeer)                { }
func (s *demoSink) OnClosed(IPeer)                   { }
func (s *demoSink) OnPacket(_ IPeer, o interface{}) { s.got <- o.([]byte) }

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	s := &demoSink{make(chan []byte, 99)}
	p := newPeer(a, demoSerializer{}, s, false)
	p.run()
	b.Write([]byte("packet 1"))
	one := <-s.got
	for i := 0; i < 20; i++ {
		b.Write([]byte("PACKET 2"))
		<-s.got
	}
	time.Sleep(10 * time.Millisecond)
	if string(one) != "packet 1" {
		t.Fatal(string(one))
	}
}
'''
