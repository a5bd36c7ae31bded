PROP = 'C02'
NEEDS = 'a call a bit less than a second after another one has returned, the method of which takes longer than the rest of that second'
BREAKS = 'the time-out of an earlier call becomes the reply of a later one'
EDITS = [('chancall/caller.go', """	response := <-request.callResponse
	return response.err
}
""", """	response := <-request.callResponse
	free(request)
	return response.err
}
"""), ('chancall/caller.go', """	response := <-request.callResponse
	return response.result, response.err
}
""", """	response := <-request.callResponse
	free(request)
	return response.result, response.err
}
"""), ('chancall/caller.go', """	return &callRequest{
		method:       method,
		args:         args,
		callResponse: make(chan *callResponse, 1),
		done:         false,
	}
}
""", """	request := requests.Get().(*callRequest)
	request.method = method
	request.args = args
	request.done = false

	return request
}

func free(request *callRequest) {
	request.Lock()
	request.args = nil
	request.Unlock()
	requests.Put(request)
}

// requests not in use. Each one has its own response channel.
var requests = sync.Pool{New: func() interface{} {
	return &callRequest{callResponse: make(chan *callResponse, 1)}
}}
"""), ('chancall/caller.go', """	"fmt"
)""", """	"fmt"
	"sync"
)"""),
         ]
PKG = 'chancall'
TEST = r'''package chancall

import (
	"runtime"
	"testing"
	"time"
)

type demoTarget struct{}

func (d *demoTarget) Work(ms int) int { time.Sleep(time.Duration(ms) * time.Millisecond); return ms }

func TestDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	c := NewCaller(NewCallee("x", &demoTarget{}))
	for i := 0; i < 5; i++ {
		if r, err := c.CallWithResult("Work", 1); nil != err || 1 != r[0].(int) {
			t.Fatal(r, err)
		}
	}
	time.Sleep(700 * time.Millisecond)
	for i := 0; i < 3; i++ {
		if r, err := c.CallWithResult("Work", 350); nil != err || 350 != r[0].(int) {
			t.Fatal("the reply of another call", r, err)
		}
	}
}
'''
