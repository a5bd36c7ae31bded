PROP = 'N01'
NEEDS = 'a packet of a single byte, the shortest a serializer can tell'
BREAKS = 'a packet of one byte, and all that comes after it, is never delivered'
EDITS = [('network/peer.go', """length > 0; length =""", """length > 1; length =""")]
PKG = 'network'
TEST = r'''package network

import (
	"net"
	"testing"
	"time"
)

type demoSerializer struct{}

func (demoSerializer) Marshal(obj interface{}) []byte     { return obj.([]byte) }
func (demoSerializer) Unmarshal(data []byte) interface{} { return data }
func (demoSerializer) Slice(data []byte) int {
	for i, c := range data {
		if c == 0 {
			return i + 1
		}
	}
	return 0
}

type demoSink struct{ got chan []byte }

func (s *demoSink) OnConnected(IPeer)                { }
func (s *demoSink) OnClosed(IPeer)                   { }
func (s *demoSink) OnPacket(_ IPeer, o interface{}) { s.got <- o.([]byte) }

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	s := &demoSink{make(chan []byte, 99)}
	p := newPeer(a, demoSerializer{}, s, false)
	p.run()
	b.Write([]byte("one\000\000two\000"))
	for _, want := range []string{"one\000", "\000", "two\000"} {
		select {
		case x := <-s.got:
			if string(x) != want {
				t.Fatal(x)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("nothing came", []byte(want))
		}
	}
}
'''
