PROP = "C03"
NEEDS = "a call that has to wait for another one to the same feature"
BREAKS = "the time limit counts from when the call is made instead of from when its method starts"
EDITS = [("chancall/callee.go", """	track(request, c.meta.timeout(request.method))
	result, err""", """	result, err"""), ("chancall/caller.go", """	if block {
		c.callee""", """	track(request, c.callee.meta.timeout(request.method))

	if block {
		c.callee""")]
PKG = "chancall"
TEST = r'''package chancall

import (
	"testing"
	"time"
)

type demoObj struct{}

func (demoObj) Work() int {
	time.Sleep(700 * time.Millisecond)
	return 1
}

func TestDemo(t *testing.T) {
	c := NewCallee("o", demoObj{})
	done := make(chan error, 2)
	for i := 0; i < 2; i++ {
		go func() {
			_, err := NewCaller(c).CallWithResult("Work")
			done <- err
		}()
	}
	for i := 0; i < 2; i++ {
		if err := <-done; err != nil {
			t.Fatal(err)
		}
	}
}
'''
