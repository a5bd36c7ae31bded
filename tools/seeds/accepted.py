PROP = "L01"
NEEDS = "the process that closes has accepted the connection, and the other side doesn't close it"
BREAKS = "the connection stays open"
EDITS = [("network/peer.go", """	p.conn.Close()
}""", """	if p.self {
		p.conn.Close()
	}
}""")]
PKG = "."
TEST = r'''package ferry

import (
	"net"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	go Serve("127.0.0.1:26431")
	time.Sleep(500 * time.Millisecond)
	c, err := net.Dial("tcp", "127.0.0.1:26431")
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	time.Sleep(300 * time.Millisecond)
	Close()
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	_, err = c.Read(make([]byte, 9))
	if ne, ok := err.(net.Error); err == nil || ok && ne.Timeout() {
		t.Fatal("not closed", err)
	}
}
'''
