PROP = 'D03'
NEEDS = 'a feature that looks, when it is started, whether its dock can be reached, and listening that takes its time'
BREAKS = 'features are started before the dock listens'
EDITS = [('dock.go', """			listenAddr := fmt.Sprintf(":%d", resp.Port)
			socket := network.NewSocket(listenAddr, "ferry", d)
""", """			listenAddr := fmt.Sprintf(":%d", resp.Port)
			go d.start()
			socket := network.NewSocket(listenAddr, "ferry", d)
"""),
         ('dock.go', """			})

			go d.start()
		}
""", """			})
		}
"""),
         ]
PKG = '.'
TEST = r'''package ferry

import (
	"fmt"
	"net"
	"runtime"
	"testing"
	"time"

	"github.com/muguangyi/ferry/network"
)

type demoPeer struct {
	addr string
	sent chan *packer
}

func (p *demoPeer) IsSelf() bool         { return false }
func (p *demoPeer) LocalAddr() net.Addr  { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 1} }
func (p *demoPeer) RemoteAddr() net.Addr { a, _ := net.ResolveTCPAddr("tcp", p.addr); return a }
func (p *demoPeer) Send(obj interface{}) { p.sent <- obj.(*packer) }

type demoFeature struct {
	Feature
	started chan bool
	port    int
}

func (f *demoFeature) OnStart(s ISlot) {
	_, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", f.port), time.Second)
	f.started <- nil == err
}

func TestDemo(t *testing.T) {
	// Let the others only run when this routine waits.
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	network.ExtendSerializer("ferry", newSerializer())
	for i := 0; i < 40; i++ {
		f := &demoFeature{started: make(chan bool, 9), port: 20700 + i}
		d := newDock("d", Carry("A", f, true))
		p := &demoPeer{"10.0.0.2:1", make(chan *packer, 9)}
		hold := make(chan bool)
		go func() { // the list of sockets is in use for a while
			d.socketsMutex.Lock()
			hold <- true
			time.Sleep(20 * time.Millisecond)
			d.socketsMutex.Unlock()
		}()
		<-hold
		d.OnPacket(p, &packer{Id: cRegisterResponse, P: &protoRegisterResponse{Port: f.port}})
		if !<-f.started {
			t.Fatal("started before it can be reached")
		}
		d.Close()
		time.Sleep(5 * time.Millisecond)
	}
}
'''
