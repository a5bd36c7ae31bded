package drv

import (
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/muguangyi/ferry"

	"verif/harness/h"
)

// The life driver: hubs and docks of one process, started and closed in rounds, with connections and calls.

type lifeScn struct {
	FakeHub string   `json:"fakehub"` // its address; it tells docks the ports they are to use
	End     string   `json:"end"`     // a fake dock that never answers calls
	Ops     []lifeOp `json:"ops"`
	Quiet   int      `json:"quiet"`
	Net     string   `json:"net"`
}

type lifeOp struct {
	Op     string      `json:"op"`
	I      int         `json:"i"`
	J      int         `json:"j"`
	C      int         `json:"c"`
	ID     int         `json:"id"`
	Addr   string      `json:"addr"` // of a hub, or of the hub of a dock
	Port   interface{} `json:"port"`
	Upto   interface{} `json:"upto"`
	Racing bool        `json:"racing"`
	Ms     int         `json:"ms"`
	Slow   int         `json:"slow"` // what a feature does when it is destroyed, in ms
	Par    [][]lifeOp  `json:"par"`
}

type lifeInst struct {
	addr string // to connect to
	hub  string
	port int
	up   bool
	shut bool // by a close since
	slot ferry.ISlot
}

type lifeDrv struct {
	*env
	scn   lifeScn
	mu    sync.Mutex
	last  time.Time
	insts map[int]*lifeInst
	links map[int]h.Link
	gone  map[int]bool
	ncon  int
	slow  int  // the mock network takes a second, in steps of 1us, to find that nobody listens: tried this often at most
	lost  bool // an instance that can't be used: nothing else is tried
}

func init() { drivers["life"] = driveLife }

func driveLife(e *env) {
	d := &lifeDrv{env: e, insts: map[int]*lifeInst{}, links: map[int]h.Link{}, slow: 2, gone: map[int]bool{}, ncon: 1000, last: time.Now()}
	e.decode(&d.scn)
	if d.scn.FakeHub != "" {
		_, err := d.net.Listen(d.scn.FakeHub, d.serve(true))
		check(err)
		_, err = d.net.Listen(d.scn.End, d.serve(false))
		check(err)
	}
	for i := range d.scn.Ops {
		d.do(&d.scn.Ops[i])
	}
}

func (d *lifeDrv) log(ev h.E) {
	d.mu.Lock()
	d.last = time.Now()
	d.mu.Unlock()
	d.rec.Log(ev)
}

func (d *lifeDrv) inst(i int) *lifeInst {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.insts[i] == nil {
		d.insts[i] = &lifeInst{}
	}
	return d.insts[i]
}

// number of the dock by the name of its feature
func dockOf(m *h.Msg) int {
	l, _ := m.Strings(0)
	for _, s := range l {
		if strings.HasPrefix(s, "f") {
			n, err := strconv.Atoi(s[1:])
			if err == nil {
				return n
			}
		}
	}
	return 0
}

// serve is a fake hub, or a fake dock that has the feature "e".
func (d *lifeDrv) serve(hub bool) h.Handler {
	return h.FakeHandler(func(l h.Link) *h.Fake {
		d.mu.Lock()
		d.ncon++
		c := d.ncon
		d.links[c] = l
		d.mu.Unlock()
		if !hub {
			go l.Write(h.Frame(h.RegReq, []string{"e"}))
		}
		return h.NewFake(l, c, func(f *h.Fake, m *h.Msg) {
			switch m.ID {
			case h.RegReq:
				i := dockOf(m)
				d.log(h.E{"e": "Conn", "c": c, "i": i})
				if hub {
					f.Link.Write(h.Frame(h.RegResp, d.inst(i).port))
				} else {
					f.Link.Write(h.Frame(h.Ready, []string{"e"}))
				}
			case h.Ready:
				if hub {
					d.up(dockOf(m))
				}
			case h.QueryReq:
				f.Link.Write(h.Frame(h.QueryResp, d.scn.End))
			}
		}, func(f *h.Fake) { d.ended(c) })
	})
}

func (d *lifeDrv) ended(c int) {
	d.mu.Lock()
	d.gone[c] = true
	d.mu.Unlock()
	d.log(h.E{"e": "Gone", "c": c})
}

func (d *lifeDrv) up(i int) {
	n := d.inst(i)
	d.mu.Lock()
	was := n.up
	n.up = true
	d.mu.Unlock()
	if !was {
		d.log(h.E{"e": "Up", "i": i, "port": n.port})
	}
}

// dial connects to an address, unless nothing answers there.
func (d *lifeDrv) dial(addr string, hd h.Handler) h.Link {
	l, err := d.net.Dial(addr, "", hd)
	if err != nil {
		return nil
	}
	return l
}

// await waits until the instance can be used.
func (d *lifeDrv) await(i int) {
	n := d.inst(i)
	defer func() {
		d.mu.Lock()
		d.lost = d.lost || !n.up
		d.mu.Unlock()
	}()
	if n.hub == d.scn.FakeHub && n.addr != n.hub { // the fake hub learns it
		h.Wait(5*time.Second, func() bool {
			d.mu.Lock()
			defer d.mu.Unlock()
			return n.up
		})
		return
	}
	end := time.Now().Add(5 * time.Second)
	for time.Now().Before(end) {
		got := make(chan string, 10)
		var l h.Link
		if n.addr == n.hub { // a hub answers a registration
			l = d.dial(n.hub, h.FakeHandler(func(l h.Link) *h.Fake {
				return h.NewFake(l, 0, func(f *h.Fake, m *h.Msg) {
					if m.ID == h.RegResp {
						got <- n.addr
					}
				}, nil)
			}))
			if l != nil {
				l.Write(h.Frame(h.RegReq, []string{"probe"}))
			}
		} else { // and knows a dock
			l = d.dial(n.hub, h.FakeHandler(func(l h.Link) *h.Fake {
				return h.NewFake(l, 0, func(f *h.Fake, m *h.Msg) {
					if s, ok := m.Str(0); m.ID == h.QueryResp && ok {
						got <- s
					}
				}, nil)
			}))
			if l != nil {
				l.Write(h.Frame(h.QueryReq, "f"+strconv.Itoa(i)))
			}
		}
		if l == nil {
			time.Sleep(20 * time.Millisecond)
			continue
		}
		select {
		case n.addr = <-got:
			n.port = toInt(n.addr[strings.LastIndex(n.addr, ":")+1:])
			l.Close()
			d.up(i)
			return
		case <-time.After(2 * time.Second):
			l.Close()
		}
	}
}

func (d *lifeDrv) do(op *lifeOp) {
	d.mu.Lock()
	lost := d.lost
	d.mu.Unlock()
	if lost && op.Op != "rest" {
		return
	}
	switch op.Op {
	case "par":
		var wg sync.WaitGroup
		for i := range op.Par {
			wg.Add(1)
			go func(ops []lifeOp) {
				defer wg.Done()
				for i := range ops {
					d.do(&ops[i])
				}
			}(op.Par[i])
		}
		wg.Wait()
	case "sleep":
		time.Sleep(time.Duration(op.Ms) * 100 * time.Microsecond)
	case "hub":
		n := d.inst(op.I)
		n.addr, n.hub = op.Addr, op.Addr
		n.port = toInt(op.Addr[strings.LastIndex(op.Addr, ":")+1:])
		var black []int
		if op.Upto != nil {
			for p := 20001; p <= toInt(op.Upto); p++ {
				black = append(black, p)
			}
		}
		d.log(h.E{"e": "Start", "i": op.I, "kind": "hub", "racing": op.Racing})
		go ferry.Serve(op.Addr, black...)
	case "dock":
		n := d.inst(op.I)
		n.hub = op.Addr
		if op.Port != nil { // with the fake hub
			n.port = toInt(op.Port)
			n.addr = "127.0.0.1:" + strconv.Itoa(n.port)
		}
		id := strconv.Itoa(op.I)
		d.log(h.E{"e": "Start", "i": op.I, "kind": "dock", "racing": op.Racing})
		go ferry.Startup(op.Addr, "dock"+id, ferry.Carry("f"+id, &lifeFeature{d: d, n: n, slow: op.Slow}, true), ferry.Carry("hidden"+id, &ferry.Feature{}, false))
	case "await":
		d.await(op.I)
	case "dial":
		n := d.inst(op.I)
		d.mu.Lock()
		up, shut, addr := n.up, n.shut, n.addr
		d.mu.Unlock()
		if !up || shut && d.slow == 0 && d.scn.Net == "mock" {
			return
		}
		ok := make(chan int, 10)
		l := d.dial(addr, h.FakeHandler(func(l h.Link) *h.Fake {
			d.log(h.E{"e": "Conn", "c": op.C, "i": op.I})
			return h.NewFake(l, op.C, func(f *h.Fake, m *h.Msg) {
				if m.ID == h.RegReq || m.ID == h.RegResp {
					select {
					case ok <- 1:
					default:
					}
				}
			}, func(f *h.Fake) { d.ended(op.C) })
		}))
		if l == nil {
			return
		}
		d.mu.Lock()
		d.links[op.C] = l
		d.mu.Unlock()
		if op.Ms > 0 { // until it is really used
			l.Write(h.Frame(h.RegReq, []string{"c" + strconv.Itoa(op.C)}))
			select {
			case <-ok:
			case <-time.After(time.Duration(op.Ms) * time.Millisecond):
			}
		}
	case "talk": // until it is closed
		d.mu.Lock()
		l := d.links[op.C]
		d.mu.Unlock()
		if l == nil {
			return
		}
		go func() {
			for k := 0; k < 400; k++ {
				d.mu.Lock()
				gone := d.gone[op.C]
				d.mu.Unlock()
				if gone {
					return
				}
				if d.inst(op.I).addr == d.inst(op.I).hub {
					me := "c" + strconv.Itoa(op.C)
					switch k {
					case 0:
						l.Write(h.Frame(h.RegReq, []string{me}))
						l.Write(h.Frame(h.Ready, []string{me}))
					case 1, 5, 9: // waits in the hub
						l.Write(h.Frame(h.QueryReq, "nothing"))
					default:
						l.Write(h.Frame(h.QueryReq, me))
					}
				} else {
					l.Write(h.Frame(h.RpcReq, int64(k), "f"+strconv.Itoa(op.I), "Echo", []interface{}{int64(k)}, true))
				}
				time.Sleep(time.Millisecond)
			}
		}()
	case "call":
		n := d.inst(op.I)
		h.Wait(2*time.Second, func() bool {
			d.mu.Lock()
			defer d.mu.Unlock()
			return n.slot != nil
		})
		d.mu.Lock()
		s := n.slot
		d.mu.Unlock()
		if s == nil {
			return
		}
		to := "e"
		if op.J > 0 {
			to = "f" + strconv.Itoa(op.J)
		}
		d.log(h.E{"e": "Call", "id": op.ID, "i": op.I, "to": op.J})
		go func() {
			ok := false
			if op.ID%2 == 0 && op.J == 0 {
				ok = s.Call(to, "Echo", int64(op.ID)) == nil
			} else {
				res, err := s.CallWithResult(to, "Echo", int64(op.ID))
				ok = err == nil && len(res) == 1
			}
			d.log(h.E{"e": "Ret", "id": op.ID, "ok": ok})
		}()
	case "close":
		done := make(chan int)
		d.log(h.E{"e": "Close"})
		d.mu.Lock()
		for _, n := range d.insts {
			n.shut = true
		}
		d.mu.Unlock()
		go func() {
			ferry.Close()
			close(done)
		}()
		select {
		case <-done:
			d.log(h.E{"e": "Closed"})
		case <-time.After(20 * time.Second):
		}
	case "rest":
		d.mu.Lock()
		d.last = time.Now()
		d.mu.Unlock()
		for k := 0; k < 200; k++ {
			d.mu.Lock()
			left := time.Duration(d.scn.Quiet)*time.Millisecond - time.Since(d.last)
			d.mu.Unlock()
			if left <= 0 {
				break
			}
			time.Sleep(left)
		}
		d.rec.Log(h.E{"e": "Rest"})
	case "probe":
		d.mu.Lock()
		var is []int
		left := d.slow
		for i, n := range d.insts {
			if n.up && (!n.shut || d.scn.Net != "mock" || left > 0) {
				is = append(is, i)
				if n.shut {
					left--
				}
			}
		}
		sort.Ints(is)
		d.mu.Unlock()
		for _, i := range is {
			l := d.dial(d.inst(i).addr, h.Handler{Open: func(h.Link) {}, Data: func(h.Link, []byte) {}, Close: func(h.Link) {}})
			if l != nil {
				l.Close()
			} else {
				d.slow--
			}
			d.rec.Log(h.E{"e": "Probe", "i": i, "ok": l != nil})
		}
	default:
		panic("harness: op " + op.Op)
	}
}

type lifeFeature struct {
	d    *lifeDrv
	n    *lifeInst
	slow int
}

// OnStart remembers the slot.
func (f *lifeFeature) OnStart(s ferry.ISlot) {
	f.d.mu.Lock()
	f.n.slot = s
	f.d.mu.Unlock()
}

// OnDestroy takes its time.
func (f *lifeFeature) OnDestroy(s ferry.ISlot) {
	time.Sleep(time.Duration(f.slow) * time.Millisecond)
}

// Echo returns what it gets.
func (f *lifeFeature) Echo(x int64) int64 { return x }
