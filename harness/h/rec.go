package h

import (
	"encoding/json"
	"os"
	"sync"
	"time"
)

// E is an event.
type E map[string]interface{}

// Rec records events, one JSON object per line, written at once.
type Rec struct {
	mu    sync.Mutex
	f     *os.File
	n     int
	start time.Time
}

// NewRec creates the file.
func NewRec(path string) *Rec {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	return &Rec{f: f, start: time.Now()}
}

// Log records an event.
func (r *Rec) Log(e E) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.log(e)
}

func (r *Rec) log(e E) {
	r.n++
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	r.f.Write(append(b, '\n'))
}

// With runs f in the recorder's critical section; f may log with the function it gets.
func (r *Rec) With(f func(log func(E))) {
	r.mu.Lock()
	defer r.mu.Unlock()
	f(r.log)
}

// Now is the (virtual or real) time since the start in microseconds.
func (r *Rec) Now() int64 { return int64(time.Since(r.start) / time.Microsecond) }

// Count is the number of events so far.
func (r *Rec) Count() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.n
}
