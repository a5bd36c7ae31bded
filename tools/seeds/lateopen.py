PROP = "N03"
NEEDS = "the first packet of an accepted connection is there before the sink has been told of the connection"
BREAKS = "the sink gets a packet of a connection it doesn't know"
EDITS = [("network/socket.go", """			if nil != s.sink {
				s.sink.OnConnected(peer)
			}

			s.runPeer(peer)
		}
""", """			if nil != s.sink {
				go s.sink.OnConnected(peer)
			}

			s.runPeer(peer)
		}
""")]
PKG = "network"
TEST = r'''package network

import (
	"net"
	"sync"
	"testing"
	"time"
)

type demoSink struct {
	mu    sync.Mutex
	known map[IPeer]bool
	bad   int
	got   int
}

func (s *demoSink) OnConnected(p IPeer) {
	time.Sleep(30 * time.Millisecond)
	s.mu.Lock()
	s.known[p] = true
	s.mu.Unlock()
}
func (s *demoSink) OnClosed(p IPeer) {}
func (s *demoSink) OnPacket(p IPeer, o interface{}) {
	s.mu.Lock()
	s.got++
	if !s.known[p] {
		s.bad++
	}
	s.mu.Unlock()
}

func TestDemo(t *testing.T) {
	ExtendSerializer("demo", new(txtSerializer))
	s := &demoSink{known: map[IPeer]bool{}}
	l := NewSocket("127.0.0.1:26433", "demo", s)
	l.Listen()
	defer l.Close()
	for i := 0; i < 5; i++ {
		c, err := net.Dial("tcp", "127.0.0.1:26433")
		if err != nil {
			t.Fatal(err)
		}
		c.Write([]byte("hello\000"))
		time.Sleep(100 * time.Millisecond)
		c.Close()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.got != 5 || s.bad > 0 {
		t.Fatal(s.got, s.bad)
	}
}
'''
