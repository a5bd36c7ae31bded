PROP = 'C03'
NEEDS = 'a call that waits in the queue of a busy feature for longer than its limit'
BREAKS = 'a call fails though its method runs shorter than its limit'
EDITS = [('chancall/caller.go', """	if block {
		c.callee.callRequest <- request
	} else {
""", """	if block {
		select {
		case c.callee.callRequest <- request:
		case <-time.After(time.Duration(float64(c.callee.meta.timeout(request.method)) * float64(time.Second))):
			err = fmt.Errorf("[%s] function call timeout!", request.method)
		}
	} else {
"""),
         ('chancall/caller.go', """	"fmt"
)
""", """	"fmt"
	"time"
)
"""),
         ]
PKG = 'chancall'
TEST = r'''package chancall

import (
	"sync"
	"testing"
	"time"
)

type demoTarget struct{}

func (d *demoTarget) Work() { time.Sleep(200 * time.Millisecond) }

func TestDemo(t *testing.T) {
	c := NewCallee("x", &demoTarget{})
	c.SetTimeout("Work", 0.5)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := NewCaller(c).Call("Work"); err != nil {
				t.Error(err)
			}
		}()
	}
	wg.Wait()
}
'''
