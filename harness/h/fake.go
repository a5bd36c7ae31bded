package h

import (
	"sync"
	"time"
)

// Fake is a fake endpoint's side of a connection, speaking frames.
type Fake struct {
	ID     int
	Link   Link
	mu     sync.Mutex
	buf    []byte
	msgs   []*Msg
	closed bool
	onMsg  func(*Fake, *Msg)
	onEnd  func(*Fake)
}

// Fakes makes Handlers that make Fakes.
func FakeHandler(open func(l Link) *Fake) Handler {
	var mu sync.Mutex
	m := map[Link]*Fake{}
	get := func(l Link) *Fake {
		mu.Lock()
		defer mu.Unlock()
		return m[l]
	}
	return Handler{
		Open: func(l Link) {
			f := open(l)
			mu.Lock()
			m[l] = f
			mu.Unlock()
		},
		Data: func(l Link, b []byte) {
			f := get(l)
			f.mu.Lock()
			f.buf = append(f.buf, b...)
			bodies, rest := Split(f.buf)
			f.buf = append([]byte(nil), rest...)
			f.mu.Unlock()
			for _, body := range bodies {
				msg := ParseBody(body)
				if f.onMsg != nil {
					f.onMsg(f, msg)
				}
				f.mu.Lock()
				f.msgs = append(f.msgs, msg)
				f.mu.Unlock()
			}
		},
		Close: func(l Link) {
			f := get(l)
			f.mu.Lock()
			f.closed = true
			f.mu.Unlock()
			if f.onEnd != nil {
				f.onEnd(f)
			}
		},
	}
}

// NewFake makes one; onMsg and onEnd may be nil.
func NewFake(l Link, id int, onMsg func(*Fake, *Msg), onEnd func(*Fake)) *Fake {
	return &Fake{Link: l, ID: id, onMsg: onMsg, onEnd: onEnd}
}

// Count is the number of received messages of an id.
func (f *Fake) Count(id int) int {
	f.mu.Lock()
	defer f.mu.Unlock()
	n := 0
	for _, m := range f.msgs {
		if m.ID == id {
			n++
		}
	}
	return n
}

// Nth is the nth (from 0) message of an id or nil.
func (f *Fake) Nth(id, n int) *Msg {
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, m := range f.msgs {
		if m.ID == id {
			if n == 0 {
				return m
			}
			n--
		}
	}
	return nil
}

// Closed tells if the other side has closed.
func (f *Fake) Closed() bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.closed
}

// Pending tells if there are bytes of an incomplete frame.
func (f *Fake) Pending() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return len(f.buf)
}

// Wait polls until cond or the timeout.
func Wait(timeout time.Duration, cond func() bool) bool {
	end := time.Now().Add(timeout)
	for !cond() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(200 * time.Microsecond)
	}
	return true
}
