package drv

import (
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/muguangyi/ferry"

	"verif/harness/h"
)

// The hub driver: a real hub, fake docks.

type hubOp struct {
	Op  string    `json:"op"`
	C   int       `json:"c"`
	H   string    `json:"h"`
	S   []string  `json:"s"`
	N   int       `json:"n"`
	Ms  int       `json:"ms"`
	Cut []int     `json:"cut"`
	Par [][]hubOp `json:"par"`
}

type hubScn struct {
	Hub   string  `json:"hub"` // address to serve
	At    string  `json:"at"`  // address to dial
	Black []int   `json:"black"`
	Steps []hubOp `json:"steps"`
}

type hubDrv struct {
	*env
	scn    hubScn
	mu     sync.Mutex
	conns  map[int]*h.Fake
	gone   map[int]bool
	regs   map[int]int             // registrations sent
	qs     int                     // queries sent
	ready  map[int]map[string]bool // conn -> slots
	owned  map[int]map[string]bool
	asked  []hubAsk
	quiet  bool
	others int
	missed bool // something didn't come in time
}

type hubAsk struct {
	c    int
	slot string
}

func init() { drivers["hub"] = driveHub }

func driveHub(e *env) {
	d := &hubDrv{env: e, conns: map[int]*h.Fake{}, gone: map[int]bool{}, regs: map[int]int{}, ready: map[int]map[string]bool{}, owned: map[int]map[string]bool{}}
	e.decode(&d.scn)
	go ferry.Serve(d.scn.Hub, d.scn.Black...)
	if e.Virtual {
		time.Sleep(time.Second)
	} else {
		time.Sleep(30 * time.Millisecond)
	}
	d.run(d.scn.Steps)
	d.settle()
	e.rec.Log(h.E{"e": "End"})
}

func (d *hubDrv) run(ops []hubOp) {
	for _, op := range ops {
		d.do(op)
	}
}

func (d *hubDrv) fake(c int) *h.Fake {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.conns[c]
}

func (d *hubDrv) do(op hubOp) {
	switch op.Op {
	case "par":
		var wg sync.WaitGroup
		for _, ops := range op.Par {
			wg.Add(1)
			go func(ops []hubOp) {
				defer wg.Done()
				d.run(ops)
			}(ops)
		}
		wg.Wait()
	case "conn":
		d.connect(op)
	case "reg":
		d.mu.Lock()
		d.regs[op.C]++
		if d.owned[op.C] == nil {
			d.owned[op.C] = map[string]bool{}
		}
		for _, s := range op.S {
			d.owned[op.C][s] = true
		}
		d.mu.Unlock()
		d.rec.Log(h.E{"e": "Reg", "c": op.C, "s": strs(op.S)})
		d.send(op, h.Frame(h.RegReq, strs(op.S)))
	case "regburst":
		// n registrations on one connection, summed up in one event
		f := d.fake(op.C)
		before := f.Count(h.RegResp)
		d.mu.Lock()
		d.regs[op.C] += op.N
		d.quiet = true
		d.mu.Unlock()
		for i := 0; i < op.N; i += 500 {
			var b []byte
			for j := i; j < op.N && j < i+500; j++ {
				b = append(b, h.Frame(h.RegReq, strs(op.S))...)
			}
			f.Link.Write(b)
		}
		h.Wait(60*time.Second, func() bool { return f.Count(h.RegResp) >= before+op.N || f.Closed() })
		time.Sleep(d.settleTime())
		ports := []int64{}
		for i := before; ; i++ {
			m := f.Nth(h.RegResp, i)
			if m == nil {
				break
			}
			p, ok := m.Int(0)
			if !ok {
				p = -1
			}
			ports = append(ports, p)
		}
		d.mu.Lock()
		d.quiet = false
		d.mu.Unlock()
		sort.Slice(ports, func(i, j int) bool { return ports[i] < ports[j] })
		runs := [][2]int64{}
		for _, p := range ports {
			if k := len(runs) - 1; k >= 0 && runs[k][1]+1 == p {
				runs[k][1] = p
			} else {
				runs = append(runs, [2]int64{p, p})
			}
		}
		d.rec.Log(h.E{"e": "Burst", "c": op.C, "n": op.N, "got": len(ports), "runs": runs})
	case "ready":
		f := d.fake(op.C)
		d.mu.Lock()
		n := d.regs[op.C]
		d.mu.Unlock()
		if !h.Wait(5*time.Second, func() bool { return f.Count(h.RegResp) >= n }) {
			return
		}
		d.mu.Lock()
		if d.ready[op.C] == nil {
			d.ready[op.C] = map[string]bool{}
		}
		for _, s := range op.S {
			d.ready[op.C][s] = true
		}
		d.mu.Unlock()
		d.rec.Log(h.E{"e": "Ready", "c": op.C, "s": strs(op.S)})
		d.send(op, h.Frame(h.Ready, strs(op.S)))
	case "query":
		d.mu.Lock()
		d.qs++
		q := d.qs
		d.asked = append(d.asked, hubAsk{op.C, op.S[0]})
		d.rec.Log(h.E{"e": "Query", "c": op.C, "s": op.S[0], "q": q})
		d.mu.Unlock()
		d.send(op, h.Frame(h.QueryReq, op.S[0]))
	case "close":
		f := d.fake(op.C)
		d.mu.Lock()
		d.gone[op.C] = true
		d.mu.Unlock()
		d.rec.Log(h.E{"e": "Close", "c": op.C})
		f.Link.Close()
	case "sleep":
		time.Sleep(time.Duration(op.Ms) * time.Millisecond)
	case "settle":
		d.settle()
	default:
		panic("harness: op " + op.Op)
	}
}

func strs(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func (d *hubDrv) send(op hubOp, b []byte) { writeCut(d.env, d.fake(op.C).Link, b, op.Cut) }

// writeCut writes b in pieces.
func writeCut(e *env, l h.Link, b []byte, cut []int) {
	at := 0
	for _, c := range cut {
		if c < 0 {
			c += len(b)
		}
		if c > at && c < len(b) {
			l.Write(b[at:c])
			at = c
			if e.Virtual {
				time.Sleep(10 * time.Millisecond)
			} else {
				time.Sleep(2 * time.Millisecond)
			}
		}
	}
	l.Write(b[at:])
}

func (d *hubDrv) connect(op hubOp) {
	c := op.C
	handler := h.FakeHandler(func(l h.Link) *h.Fake {
		f := h.NewFake(l, c, d.onMsg, nil)
		d.mu.Lock()
		d.conns[c] = f
		d.mu.Unlock()
		return f
	})
	host := op.H
	if d.Net == "mock" {
		host = "0.0.0.0"
	}
	d.rec.Log(h.E{"e": "Conn", "c": c, "h": host})
	var err error
	for i := 0; i < 200; i++ {
		if _, err = d.net.Dial(d.scn.At, host, handler); err == nil {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	check(fmt.Errorf("can't connect to the hub: %v", err))
}

func (d *hubDrv) onMsg(f *h.Fake, m *h.Msg) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.gone[f.ID] {
		return
	}
	switch m.ID {
	case h.RegResp:
		if d.quiet {
			return
		}
		p, ok := m.Int(0)
		if !ok || len(m.Fields) != 1 {
			p = -1
		}
		d.rec.Log(h.E{"e": "RegResp", "c": f.ID, "port": p})
	case h.QueryResp:
		a, ok := m.Str(0)
		if !ok || len(m.Fields) != 1 {
			a = "?"
		}
		d.rec.Log(h.E{"e": "Answer", "c": f.ID, "addr": a})
	default:
		d.others++
	}
}

// settle waits until the hub has nothing more to do.
func (d *hubDrv) settle() {
	{
		// until everything that should be answered is, or too much time has passed.
		limit := 12 * time.Second
		if d.missed {
			limit = time.Second // something is missing for good
		}
		d.missed = !h.Wait(limit, func() bool {
			d.mu.Lock()
			regs := map[int]int{}
			for c, n := range d.regs {
				regs[c] = n
			}
			gone := map[int]bool{}
			for c := range d.gone {
				gone[c] = true
			}
			want := map[int]int{}
			for _, a := range d.asked {
				for c, r := range d.ready {
					if r[a.slot] && d.owned[c][a.slot] && !gone[c] {
						want[a.c]++
						break
					}
				}
			}
			conns := map[int]*h.Fake{}
			for c, f := range d.conns {
				conns[c] = f
			}
			d.mu.Unlock()
			for c, n := range regs {
				if !gone[c] && conns[c].Count(h.RegResp) < n {
					return false
				}
			}
			for c, n := range want {
				if !gone[c] && conns[c].Count(h.QueryResp) < n {
					return false
				}
			}
			return true
		})
		time.Sleep(d.settleTime())
	}
	d.rec.Log(h.E{"e": "Settle"})
}
