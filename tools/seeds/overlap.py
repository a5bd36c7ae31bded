PROP = 'C01'
NEEDS = 'a method that goes on after its time limit while another call waits'
BREAKS = 'the next method runs while the one that was given up still does'
EDITS = [('chancall/callee.go', """		err := c.process(<-c.callRequest)
		if nil != err {
			panic(fmt.Sprintf("Invoke error %s", err.Error()))
		}
""", """		// Don't let the others wait for a call that is given up.
		request := <-c.callRequest
		done := make(chan bool)
		go func() {
			defer close(done)
			err := c.process(request)
			if nil != err {
				panic(fmt.Sprintf("Invoke error %s", err.Error()))
			}
		}()

		select {
		case <-done:
		case <-time.After(time.Duration(float64(c.meta.timeout(request.method)) * float64(time.Second))):
		}
"""),
         ]
PKG = 'chancall'
TEST = r'''package chancall

import (
	"sync/atomic"
	"testing"
	"time"
)

type demoTarget struct{ n, both int32 }

func (d *demoTarget) Work(ms int) {
	if atomic.AddInt32(&d.n, 1) > 1 {
		atomic.AddInt32(&d.both, 1)
	}
	time.Sleep(time.Duration(ms) * time.Millisecond)
	atomic.AddInt32(&d.n, -1)
}

func TestDemo(t *testing.T) {
	d := &demoTarget{}
	c := NewCallee("x", d)
	c.SetTimeout("Work", 0.1)
	go NewCaller(c).Call("Work", 500)
	time.Sleep(30 * time.Millisecond)
	NewCaller(c).Call("Work", 1)
	time.Sleep(600 * time.Millisecond)
	if d.both != 0 {
		t.Fatal("overlap")
	}
}
'''
