PROP = 'N02'
NEEDS = 'a packet whose serialized form is empty or a write of it fails shortly... a packet of zero bytes'
BREAKS = 'nothing sent after an empty packet arrives'
EDITS = [('network/peer.go', """			data := p.serializer.Marshal(packet)
			_, err := p.conn.Write(data)
			if nil != err {
				break
			}
""", """			data := p.serializer.Marshal(packet)
			n, err := p.conn.Write(data)
			if nil != err || 0 == n {
				break
			}
"""),
         ]
PKG = 'network'
TEST = r'''package network

import (
	"net"
	"testing"
	"time"
)

type demoSink struct{}

func (s *demoSink) OnConnected(IPeer)              {}
func (s *demoSink) OnClosed(IPeer)                 {}
func (s *demoSink) OnPacket(IPeer, interface{}) {}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	got := make(chan string, 9)
	go func() {
		c, _ := l.Accept()
		buf := make([]byte, 9)
		n, _ := c.Read(buf)
		got <- string(buf[:n])
	}()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	p := newPeer(c, new(txtSerializer), &demoSink{}, true)
	p.run()
	p.Send("")
	p.Send("x")
	select {
	case s := <-got:
		if s != "x" {
			t.Fatal(s)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("nothing")
	}
}
'''
