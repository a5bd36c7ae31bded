package drv

import (
	"fmt"
	"math"
	"net"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/muguangyi/ferry"

	"verif/harness/h"
)

// The system driver: real docks, a real or a fake hub, fake docks ("ends").

type sysScn struct {
	Hub   sysHub    `json:"hubcfg"`
	Docks []sysDock `json:"docks"`
	Ends  []sysEnd  `json:"ends"`
	Steps []sysOp   `json:"steps"`
	Quiet int       `json:"quiet"` // ms without events that settle
	Probe bool      `json:"probe"` // try to connect to docks when they claim to listen
}

type sysHub struct {
	Real   bool             `json:"real"`
	Listen string           `json:"listen"`
	At     string           `json:"at"`
	Black  []int            `json:"black"`
	Upto   interface{}      `json:"blackto"` // every port from 20001 to this one
	Assign []interface{}    `json:"assign"`  // ports to assign at once
	Auto   map[string][]int `json:"auto"`    // slot -> ends to answer with at once, in turn
	DialIn []int            `json:"dialin"`  // ends that connect to the dock as soon as it says it is ready
	Delay  int              `json:"delay"`   // ms
}

type sysDock struct {
	Name  string    `json:"name"`
	Feats []sysFeat `json:"feats"`
}

type sysFeat struct {
	ID      string             `json:"id"`
	Disc    bool               `json:"disc"`
	Limits  map[string]float32 `json:"limits"`
	OnStart []sysOp            `json:"onstart"` // calls made in OnStart
	StartMs int                `json:"startms"`
}

type sysEnd struct {
	E     int      `json:"e"`
	Addr  string   `json:"addr"`
	Slots []string `json:"slots"`
	Reg   bool     `json:"reg"`   // register on connect
	Ready bool     `json:"ready"` // answer registrations
	Resp  bool     `json:"resp"`  // answer requests
	RegMs int      `json:"regms"`
	RdyMs int      `json:"readyms"`
	RspMs []int    `json:"respms"`
	Late  bool     `json:"late"` // listens only when told
}

type sysOp struct {
	Op   string        `json:"op"`
	D    string        `json:"d"` // dock
	F    string        `json:"f"` // calling feature
	To   string        `json:"to"`
	M    string        `json:"m"`
	Args []interface{} `json:"args"` // typed: ["i64", "5"]...
	Wr   bool          `json:"wr"`
	ID   int           `json:"id"`
	E    int           `json:"e"`
	N    int           `json:"n"`
	S    []string      `json:"s"`
	Idx  string        `json:"idx"`
	Port interface{}   `json:"port"`
	Ms   int           `json:"ms"`
	Err  string        `json:"err"`
	Cut  []int         `json:"cut"`
	Par  [][]sysOp     `json:"par"`
	Wait bool          `json:"wait"` // wait for the call to return
	Seq  bool          `json:"seq"`  // in OnStart: call before returning
}

type sysDrv struct {
	*env
	scn     sysScn
	mu      sync.Mutex
	slots   map[string]ferry.ISlot // dock/feature
	hub     []*h.Fake
	queries map[string]int
	answers map[string]int
	links   map[int][]*h.Fake // end -> connections
	kof     map[*h.Fake]int
	acc     map[*h.Fake]bool // accepted by an end
	down    map[int]bool     // ends that have closed all connections they accepted
	nk      int
	stops   map[int]func()
	port    int
	assigns int // ports assigned
	readies int // Ready messages the hub got
	reqs    map[int]*sysReq // call id -> request received
	started map[string]bool
	lastEv  time.Time
	closing bool
	pend    sync.WaitGroup
	nresp   int
	silent  int64 // requests answered and not recorded
}

// calls with higher numbers aren't recorded one by one
const silentFrom = 1 << 20

type sysReq struct {
	f *h.Fake
	m *h.Msg
}

func init() { drivers["sys"] = driveSys }

func driveSys(e *env) {
	d := &sysDrv{env: e, slots: map[string]ferry.ISlot{}, queries: map[string]int{}, answers: map[string]int{}, links: map[int][]*h.Fake{},
		kof: map[*h.Fake]int{}, acc: map[*h.Fake]bool{}, down: map[int]bool{}, reqs: map[int]*sysReq{}, started: map[string]bool{}, stops: map[int]func(){}}
	e.decode(&d.scn)
	if d.scn.Hub.Real {
		black := d.scn.Hub.Black
		if d.scn.Hub.Upto != nil {
			for p := 20001; p <= toInt(d.scn.Hub.Upto); p++ {
				black = append(black, p)
			}
		}
		go ferry.Serve(d.scn.Hub.Listen, black...)
		if e.Virtual {
			time.Sleep(50 * time.Millisecond)
		} else {
			h.Wait(5*time.Second, func() bool { return reach(d.scn.Hub.At) })
		}
	} else {
		_, err := d.net.Listen(d.scn.Hub.Listen, d.hubHandler())
		check(err)
	}
	for i := range d.scn.Ends {
		if !d.scn.Ends[i].Late {
			d.listen(&d.scn.Ends[i])
		}
	}
	d.run(d.scn.Steps)
	d.settle()
	e.rec.Log(h.E{"e": "End"})
}

func reach(addr string) bool {
	c, err := net.DialTimeout("tcp", addr, 2*time.Second)
	if err != nil {
		return false
	}
	c.Close()
	return true
}

func (d *sysDrv) log(ev h.E) {
	d.mu.Lock()
	d.lastEv = time.Now()
	d.mu.Unlock()
	d.rec.Log(ev)
}

func (d *sysDrv) run(ops []sysOp) {
	for i := range ops {
		d.do(&ops[i])
	}
}

func (d *sysDrv) end(e int) *sysEnd {
	for i := range d.scn.Ends {
		if d.scn.Ends[i].E == e {
			return &d.scn.Ends[i]
		}
	}
	panic("harness: no such end")
}

func (d *sysDrv) await(cond func() bool) bool {
	t := 3 * time.Second
	if d.Virtual {
		t = time.Second
	}
	return h.Wait(t, func() bool {
		d.mu.Lock()
		defer d.mu.Unlock()
		return cond()
	})
}

func (d *sysDrv) nth(e, n int) *h.Fake {
	var f *h.Fake
	d.await(func() bool {
		if len(d.links[e]) > n {
			f = d.links[e][n]
		}
		return f != nil && f.Link != nil
	})
	return f
}

func toInt(v interface{}) int {
	switch x := v.(type) {
	case float64:
		return int(x)
	case string:
		n, err := strconv.Atoi(x)
		check(err)
		return n
	}
	panic("harness: not a number")
}

func (d *sysDrv) do(op *sysOp) {
	switch op.Op {
	case "par":
		var wg sync.WaitGroup
		for _, ops := range op.Par {
			wg.Add(1)
			go func(ops []sysOp) {
				defer wg.Done()
				d.run(ops)
			}(ops)
		}
		wg.Wait()
	case "sleep":
		time.Sleep(time.Duration(op.Ms) * time.Millisecond)
	case "settle":
		d.settle()
	case "start":
		d.start(op.D)
	case "up": // wait until all features of a dock have been started
		for _, dk := range d.scn.Docks {
			if dk.Name == op.D {
				d.await(func() bool {
					for _, f := range dk.Feats {
						if !d.started[dk.Name+"/"+f.ID] {
							return false
						}
					}
					return true
				})
			}
		}
	case "listen":
		d.listen(d.end(op.E))
	case "unlisten":
		d.mu.Lock()
		stop := d.stops[op.E]
		var ks []int
		if d.Net == "mock" {
			// The accepted connections are closed, too.
			d.down[op.E] = true
			for _, f := range d.links[op.E] {
				if d.acc[f] && !f.Closed() {
					ks = append(ks, d.kof[f])
				}
			}
		}
		d.mu.Unlock()
		if stop != nil {
			for _, k := range ks {
				d.log(h.E{"e": "FClose", "k": k})
			}
			stop()
		}
	case "assign":
		var f *h.Fake
		if !d.await(func() bool {
			if len(d.hub) > op.N {
				f = d.hub[op.N]
			}
			return f != nil && f.Count(h.RegReq) > 0
		}) {
			return
		}
		d.assign(f, toInt(op.Port))
	case "answer":
		s := op.S[0]
		if !d.await(func() bool { return len(d.hub) > 0 && d.queries[s] > d.answers[s] }) {
			return
		}
		d.answer(d.hub[0], s, op.E)
	case "freg", "fready", "freq", "fclose":
		f := d.nth(op.E, op.N)
		if f == nil {
			return
		}
		k := d.kof[f]
		switch op.Op {
		case "freg":
			d.log(h.E{"e": "FReg", "k": k, "s": strs(op.S)})
			writeCut(d.env, f.Link, h.Frame(h.RegReq, strs(op.S)), op.Cut)
		case "fready":
			// one announcement per registration got
			if !h.Wait(time.Second, func() bool { return f.Count(h.RegReq) > 0 }) {
				return
			}
			d.log(h.E{"e": "FReady", "k": k, "s": strs(op.S)})
			writeCut(d.env, f.Link, h.Frame(h.Ready, strs(op.S)), op.Cut)
		case "freq":
			args := typed(op.Args)
			idx, err := strconv.ParseInt(op.Idx, 10, 64)
			check(err)
			d.log(h.E{"e": "FReq", "k": k, "idx": op.Idx, "to": op.To, "m": op.M, "wr": op.Wr, "id": op.ID, "args": h.TreesOf(args), "ms": op.Ms})
			writeCut(d.env, f.Link, h.Frame(h.RpcReq, idx, op.To, op.M, args, op.Wr), op.Cut)
		case "fclose":
			if !f.Link.CanClose() {
				return
			}
			d.log(h.E{"e": "FClose", "k": k})
			f.Link.Close()
		}
	case "fresp":
		if !d.await(func() bool { return d.reqs[op.ID] != nil }) {
			return
		}
		d.respond(op.ID, op.Err)
	case "dialin":
		d.mu.Lock()
		port := d.port
		d.mu.Unlock()
		if port == 0 {
			return
		}
		e := d.end(op.E)
		var end time.Time
		for {
			d.mu.Lock()
			ready, closing := d.readies >= d.assigns, d.closing
			d.mu.Unlock()
			_, err := d.net.Dial("127.0.0.1:"+strconv.Itoa(port), "", d.handler(e, "In"))
			if err == nil {
				return
			}
			// It needn't listen before it says it's ready.
			now := time.Now()
			if end.IsZero() {
				end = now.Add(3 * time.Second)
			}
			if ready || closing || now.After(end) {
				d.log(h.E{"e": "NoDialIn", "n": op.E, "ready": ready && !closing})
				return
			}
			time.Sleep(time.Millisecond)
		}
	case "call":
		var s ferry.ISlot
		if !d.await(func() bool { s = d.slots[op.D+"/"+op.F]; return s != nil }) {
			return
		}
		if op.Wait {
			d.call(s, op.D, op.F, op)
			return
		}
		d.pend.Add(1)
		d.logCall(op.D, op.F, op)
		go func() {
			defer d.pend.Done()
			d.callLogged(s, op)
		}()
	case "others": // very many calls of To, from several routines, answered at once
		var s ferry.ISlot
		if !d.await(func() bool { s = d.slots[op.D+"/"+op.F]; return s != nil }) {
			return
		}
		var back, good, next int64
		d.mu.Lock()
		atomic.StoreInt64(&d.silent, 0)
		d.mu.Unlock()
		for g := 0; g < 8; g++ {
			go func() {
				for {
					i := atomic.AddInt64(&next, 1)
					if i > int64(op.N) {
						return
					}
					id := silentFrom + i
					res, err := s.CallWithResult(op.To, "Add", id, int64(0), i)
					if err == nil && len(res) == 2 && fmt.Sprint(res[0]) == strconv.FormatInt(id*1000+7, 10) && res[1] == "r"+strconv.FormatInt(id, 10) {
						atomic.AddInt64(&good, 1)
					}
					atomic.AddInt64(&back, 1)
				}
			}()
		}
		for last, at := int64(-1), time.Now(); atomic.LoadInt64(&back) < int64(op.N) && time.Since(at) < 5*time.Second; time.Sleep(10 * time.Millisecond) {
			if b := atomic.LoadInt64(&back); b != last {
				last, at = b, time.Now()
			}
		}
		d.log(h.E{"e": "Others", "n": op.N, "back": atomic.LoadInt64(&back), "good": atomic.LoadInt64(&good), "reqs": atomic.LoadInt64(&d.silent)})
	case "close":
		d.mu.Lock()
		d.closing = true
		d.mu.Unlock()
		d.log(h.E{"e": "Closing"})
		done := make(chan bool)
		go func() {
			ferry.Close()
			close(done)
		}()
		select {
		case <-done:
			d.log(h.E{"e": "Closed"})
		case <-time.After(10 * time.Second):
		}
	default:
		panic("harness: op " + op.Op)
	}
}

func (d *sysDrv) quiet() time.Duration {
	if d.scn.Quiet > 0 {
		return time.Duration(d.scn.Quiet) * time.Millisecond
	}
	if d.Virtual {
		return 400 * time.Millisecond
	}
	return 800 * time.Millisecond
}

// settle waits until nothing has happened for a while.
func (d *sysDrv) settle() {
	begin := time.Now()
	d.mu.Lock()
	d.lastEv = begin
	d.mu.Unlock()
	for time.Since(begin) < 40*time.Second {
		d.mu.Lock()
		left := d.quiet() - time.Since(d.lastEv)
		d.mu.Unlock()
		if left <= 0 {
			break
		}
		time.Sleep(left)
	}
	d.rec.Log(h.E{"e": "Settle"})
}

// ---------------------------------------------------------------- docks

type sysFeature struct {
	d    *sysDrv
	dock string
	cfg  *sysFeat
	mu   sync.Mutex
	slot ferry.ISlot
}

func (d *sysDrv) start(name string) {
	for i := range d.scn.Docks {
		dk := &d.scn.Docks[i]
		if dk.Name != name {
			continue
		}
		slots := []ferry.ISlot{}
		for j := range dk.Feats {
			slots = append(slots, ferry.Carry(dk.Feats[j].ID, &sysFeature{d: d, dock: name, cfg: &dk.Feats[j]}, dk.Feats[j].Disc))
		}
		d.log(h.E{"e": "Dock", "d": name})
		go ferry.Startup(d.scn.Hub.At, name, slots...)
		return
	}
	panic("harness: no such dock")
}

func (d *sysDrv) logCall(dock, from string, op *sysOp) {
	d.log(h.E{"e": "Call", "d": dock, "f": from, "to": op.To, "m": op.M, "id": op.ID, "wr": op.Wr, "args": h.TreesOf(typed(op.Args)), "ms": op.Ms})
}

func (d *sysDrv) call(s ferry.ISlot, dock, from string, op *sysOp) ([]interface{}, error) {
	d.logCall(dock, from, op)
	return d.callLogged(s, op)
}

func (d *sysDrv) callLogged(s ferry.ISlot, op *sysOp) ([]interface{}, error) {
	var res []interface{}
	var err error
	args := typed(op.Args)
	if op.Wr {
		res, err = s.CallWithResult(op.To, op.M, args...)
	} else {
		err = s.Call(op.To, op.M, args...)
	}
	d.log(h.E{"e": "Ret", "id": op.ID, "ok": err == nil, "res": h.TreesOf(res)})
	return res, err
}

// OnStart records the start.
func (f *sysFeature) OnStart(s ferry.ISlot) {
	d := f.d
	d.mu.Lock()
	port := d.port
	d.mu.Unlock()
	f.mu.Lock()
	f.slot = s
	f.mu.Unlock()
	ev := h.E{"e": "Start", "d": f.dock, "f": f.cfg.ID, "reach": true}
	if d.scn.Probe && port != 0 && d.Net == "tcp" {
		ev["reach"] = reach("127.0.0.1:" + strconv.Itoa(port))
	}
	for m, l := range f.cfg.Limits {
		s.SetTimeout(m, l)
	}
	d.mu.Lock()
	d.slots[f.dock+"/"+f.cfg.ID] = s
	d.mu.Unlock()
	d.log(ev)
	for i := range f.cfg.OnStart {
		op := &f.cfg.OnStart[i]
		if op.Seq {
			d.call(s, f.dock, f.cfg.ID, op)
		} else {
			go d.call(s, f.dock, f.cfg.ID, op)
		}
	}
	if f.cfg.StartMs > 0 {
		time.Sleep(time.Duration(f.cfg.StartMs) * time.Millisecond)
	}
	d.mu.Lock()
	d.started[f.dock+"/"+f.cfg.ID] = true
	d.mu.Unlock()
}

// OnDestroy records the end.
func (f *sysFeature) OnDestroy(s ferry.ISlot) {
	f.d.log(h.E{"e": "Destroy", "d": f.dock, "f": f.cfg.ID})
}

func (f *sysFeature) exec(m string, id int64, ms int64, args ...interface{}) func(res ...interface{}) {
	f.d.log(h.E{"e": "Exec", "d": f.dock, "f": f.cfg.ID, "m": m, "id": id, "args": h.TreesOf(args)})
	if ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
	return func(res ...interface{}) {
		f.d.log(h.E{"e": "ExecEnd", "d": f.dock, "f": f.cfg.ID, "id": id, "res": h.TreesOf(res)})
	}
}

// Add is a method of the features.
func (f *sysFeature) Add(id int64, ms int64, x int64) int64 {
	end := f.exec("Add", id, ms, id, ms, x)
	r := id*1000 + x
	end(r)
	return r
}

// Pair is a method of the features.
func (f *sysFeature) Pair(id int64, ms int64, s string) (string, int64) {
	end := f.exec("Pair", id, ms, id, ms, s)
	end(s+"/"+strconv.FormatInt(id, 10), id)
	return s + "/" + strconv.FormatInt(id, 10), id
}

// Note is a method of the features.
func (f *sysFeature) Note(id int64, ms int64) {
	f.exec("Note", id, ms, id, ms)()
}

// Fwd calls another feature.
func (f *sysFeature) Fwd(id int64, to string, cid int64, ms int64) int64 {
	end := f.exec("Fwd", id, 0, id, to, cid, ms)
	var s ferry.ISlot
	f.d.await(func() bool { // maybe it's just about to be started
		f.mu.Lock()
		defer f.mu.Unlock()
		s = f.slot
		return s != nil
	})
	if s == nil {
		end(int64(-1))
		return -1
	}
	res, err := f.d.call(s, f.dock, f.cfg.ID, &sysOp{To: to, M: "Add", ID: int(cid), Wr: true, Ms: int(ms),
		Args: []interface{}{[]interface{}{"i64", strconv.FormatInt(cid, 10)}, []interface{}{"i64", strconv.FormatInt(ms, 10)}, []interface{}{"i64", "7"}}})
	r := int64(-1)
	if err == nil && len(res) == 1 {
		if v, ok := res[0].(int64); ok {
			r = v
		} else {
			t := h.TreeOf(res[0])
			r, _ = strconv.ParseInt(fmt.Sprint(t[1]), 10, 64)
		}
	}
	end(r)
	return r
}

// All passes a value of every basic type.
func (f *sysFeature) All(id int64, b bool, i int, i8 int8, i16 int16, i32 int32, i64 int64, u uint, u8 uint8, u16 uint16, u32 uint32, u64 uint64, f64 float64, s string) (bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, float64, string) {
	end := f.exec("All", id, 0, id, b, i, i8, i16, i32, i64, u, u8, u16, u32, u64, f64, s)
	end(b, i, i8, i16, i32, i64, u, u8, u16, u32, u64, f64, s)
	return b, i, i8, i16, i32, i64, u, u8, u16, u32, u64, f64, s
}

// F32 passes a float32.
func (f *sysFeature) F32(id int64, x float32) (float32, float64) {
	f.exec("F32", id, 0, id, x)(x, float64(x))
	return x, float64(x)
}

// Many passes strings and returns them in reverse order.
func (f *sysFeature) Many(id int64, a, b, c, e, g string) (string, string, string, string, string) {
	f.exec("Many", id, 0, id, a, b, c, e, g)(g, e, c, b, a)
	return g, e, c, b, a
}

// Odd returns something that can't be sent to another dock.
func (f *sysFeature) Odd(id int64, ms int64) interface{} {
	f.exec("Odd", id, ms, id, ms)(odd("struct"))
	return odd("struct")
}

// odd are values that don't fit any parameter.
func odd(kind string) interface{} {
	switch kind {
	case "nil":
		return nil
	case "arr":
		return []interface{}{int64(1)}
	case "struct":
		return struct{ A int }{1}
	case "chan":
		return make(chan int)
	case "func":
		return func() {}
	case "ptr":
		return new(int64)
	case "map":
		return map[string]interface{}{"a": 1}
	case "nest":
		return []interface{}{"a", []interface{}{struct{}{}}}
	}
	panic("harness: odd " + kind)
}

// typed makes Go values of ["i64","5"], ["s","text"]...
func typed(args []interface{}) []interface{} {
	res := []interface{}{}
	for _, a := range args {
		p := a.([]interface{})
		t := p[0].(string)
		if t == "b" {
			res = append(res, p[1].(bool))
			continue
		}
		s := p[1].(string)
		if t == "odd" {
			res = append(res, odd(s))
			continue
		}
		si := func() int64 { v, err := strconv.ParseInt(s, 10, 64); check(err); return v }
		ui := func() uint64 { v, err := strconv.ParseUint(s, 10, 64); check(err); return v }
		switch t {
		case "s":
			res = append(res, s)
		case "rep": // a long string
			n, _ := strconv.Atoi(s)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('a' + (i*7+i/26)%26)
			}
			res = append(res, string(b))
		case "i":
			res = append(res, int(si()))
		case "i8":
			res = append(res, int8(si()))
		case "i16":
			res = append(res, int16(si()))
		case "i32":
			res = append(res, int32(si()))
		case "i64":
			res = append(res, si())
		case "u":
			res = append(res, uint(ui()))
		case "u8":
			res = append(res, uint8(ui()))
		case "u16":
			res = append(res, uint16(ui()))
		case "u32":
			res = append(res, uint32(ui()))
		case "u64":
			res = append(res, ui())
		case "f64", "f32":
			v, err := strconv.ParseUint(s, 16, 64)
			check(err)
			if t == "f32" {
				res = append(res, float32(math.Float64frombits(v)))
			} else {
				res = append(res, math.Float64frombits(v))
			}
		default:
			panic("harness: type " + t)
		}
	}
	return res
}

// ---------------------------------------------------------------- fake hub

func (d *sysDrv) hubHandler() h.Handler {
	return h.FakeHandler(func(l h.Link) *h.Fake {
		f := h.NewFake(l, 0, d.onHub, nil)
		d.mu.Lock()
		f.ID = len(d.hub)
		d.hub = append(d.hub, f)
		d.mu.Unlock()
		d.log(h.E{"e": "HubUp", "n": f.ID})
		return f
	})
}

func sl(m *h.Msg) []string {
	s, ok := m.Strings(0)
	if !ok || len(m.Fields) != 1 {
		return []string{"?"}
	}
	return s
}

func (d *sysDrv) onHub(f *h.Fake, m *h.Msg) {
	cfg := &d.scn.Hub
	switch m.ID {
	case h.RegReq:
		d.log(h.E{"e": "HReg", "n": f.ID, "s": sl(m)})
		if f.ID < len(cfg.Assign) && f.Count(h.RegReq) == 0 {
			d.later(cfg.Delay, func() { d.assign(f, toInt(cfg.Assign[f.ID])) })
		}
	case h.Ready:
		ok := true
		if d.scn.Probe && d.Net == "tcp" && d.port != 0 {
			ok = reach("127.0.0.1:" + strconv.Itoa(d.port))
		}
		d.mu.Lock()
		d.readies++
		d.mu.Unlock()
		d.log(h.E{"e": "HReady", "n": f.ID, "s": sl(m), "reach": ok})
		for _, e := range cfg.DialIn {
			go d.do(&sysOp{Op: "dialin", E: e})
		}
	case h.QueryReq:
		s, ok := m.Str(0)
		if !ok {
			s = "?"
		}
		d.mu.Lock()
		d.queries[s]++
		d.mu.Unlock()
		d.log(h.E{"e": "Query", "n": f.ID, "s": s})
		if es := cfg.Auto[s]; len(es) > 0 {
			d.mu.Lock()
			e := es[(d.queries[s]-1)%len(es)]
			d.mu.Unlock()
			d.later(cfg.Delay, func() { d.answer(f, s, e) })
		}
	default:
		d.log(h.E{"e": "HOther", "n": f.ID, "msg": m.ID})
	}
}

func (d *sysDrv) later(ms int, g func()) {
	if ms <= 0 {
		g()
		return
	}
	go func() {
		time.Sleep(time.Duration(ms) * time.Millisecond)
		g()
	}()
}

func (d *sysDrv) assign(f *h.Fake, port int) {
	d.mu.Lock()
	d.port = port
	d.assigns++
	d.mu.Unlock()
	d.log(h.E{"e": "Assign", "n": f.ID, "port": port})
	f.Link.Write(h.Frame(h.RegResp, port))
}

func (d *sysDrv) answer(f *h.Fake, s string, e int) {
	d.mu.Lock()
	d.answers[s]++
	d.mu.Unlock()
	d.log(h.E{"e": "Answer", "s": s, "k": e})
	f.Link.Write(h.Frame(h.QueryResp, d.end(e).Addr))
}

// ---------------------------------------------------------------- fake docks

func (d *sysDrv) listen(e *sysEnd) {
	stop, err := d.net.Listen(e.Addr, d.handler(e, "Dialled"))
	check(err)
	d.mu.Lock()
	d.stops[e.E] = stop
	d.mu.Unlock()
}

func (d *sysDrv) handler(e *sysEnd, event string) h.Handler {
	hd := h.FakeHandler(func(l h.Link) *h.Fake {
		f := h.NewFake(l, e.E, func(f *h.Fake, m *h.Msg) { d.onEnd(e, f, m) }, func(f *h.Fake) {
			d.mu.Lock()
			k, mine := d.kof[f], d.acc[f] && d.down[e.E]
			d.mu.Unlock()
			d.log(h.E{"e": "Gone", "k": k, "mine": mine})
		})
		d.mu.Lock()
		d.nk++
		k := d.nk
		d.kof[f] = k
		d.acc[f] = event == "Dialled"
		d.mu.Unlock()
		d.log(h.E{"e": event, "k": k, "n": e.E})
		// Steps may use the connection from here on.
		d.mu.Lock()
		if !d.acc[f] || !d.down[e.E] {
			d.links[e.E] = append(d.links[e.E], f)
		}
		d.mu.Unlock()
		return f
	})
	open := hd.Open
	hd.Open = func(l h.Link) {
		open(l)
		if e.Reg {
			d.mu.Lock()
			var f *h.Fake
			for _, x := range d.links[e.E] {
				if x.Link == l {
					f = x
				}
			}
			k := d.kof[f]
			d.mu.Unlock()
			if f == nil {
				return
			}
			d.later(e.RegMs, func() {
				d.log(h.E{"e": "FReg", "k": k, "s": strs(e.Slots)})
				l.Write(h.Frame(h.RegReq, strs(e.Slots)))
			})
		}
	}
	return hd
}

func (d *sysDrv) onEnd(e *sysEnd, f *h.Fake, m *h.Msg) {
	d.mu.Lock()
	k := d.kof[f]
	d.mu.Unlock()
	switch m.ID {
	case h.RegReq:
		d.log(h.E{"e": "GotReg", "k": k, "s": sl(m)})
		if e.Ready {
			d.later(e.RdyMs, func() {
				d.log(h.E{"e": "FReady", "k": k, "s": strs(e.Slots)})
				f.Link.Write(h.Frame(h.Ready, strs(e.Slots)))
			})
		}
	case h.Ready:
		d.log(h.E{"e": "GotReady", "k": k, "s": sl(m)})
	case h.RpcReq:
		args, _ := m.Arr(3)
		id := -1
		if len(args) > 0 {
			if t := args[0].(h.Tree); t[0] == "i" {
				id, _ = strconv.Atoi(t[1].(string))
			}
		}
		slot, _ := m.Str(1)
		method, _ := m.Str(2)
		wr := len(m.Fields) == 5 && m.Fields[4][0] == "b" && m.Fields[4][1] == true
		idx, _ := m.Int(0)
		if args == nil {
			args = []interface{}{}
		}
		if id > silentFrom {
			atomic.AddInt64(&d.silent, 1)
			f.Link.Write(h.Frame(h.RpcResp, idx, slot, method, []interface{}{int64(id)*1000 + 7, "r" + strconv.Itoa(id)}, ""))
			return
		}
		d.mu.Lock()
		first := d.reqs[id] == nil
		if first {
			d.reqs[id] = &sysReq{f, m}
		}
		d.nresp++
		n := d.nresp
		d.mu.Unlock()
		d.log(h.E{"e": "GotReq", "k": k, "id": id, "idx": strconv.FormatInt(idx, 10), "to": slot, "m": method, "wr": wr, "args": args})
		if e.Resp && first {
			ms := 0
			if len(e.RspMs) > 0 {
				ms = e.RspMs[n%len(e.RspMs)]
			}
			d.later(ms, func() { d.respond(id, "") })
		}
	case h.RpcResp:
		idx, _ := m.Int(0)
		slot, _ := m.Str(1)
		method, _ := m.Str(2)
		res, ok := m.Arr(3)
		if res == nil {
			res = []interface{}{}
			ok = ok || (len(m.Fields) > 3 && m.Fields[3][0] == "n")
		}
		es, ok2 := m.Str(4)
		d.log(h.E{"e": "GotResp", "k": k, "idx": strconv.FormatInt(idx, 10), "to": slot, "m": method, "res": res, "ok": es == "", "good": ok && ok2 && len(m.Fields) == 5})
	default:
		d.log(h.E{"e": "Other", "k": k, "msg": m.ID})
	}
}

// respond answers a request a fake dock got.
func (d *sysDrv) respond(id int, errText string) {
	d.mu.Lock()
	r := d.reqs[id]
	k := d.kof[r.f]
	d.mu.Unlock()
	slot, _ := r.m.Str(1)
	method, _ := r.m.Str(2)
	idx, _ := r.m.Int(0)
	wr := len(r.m.Fields) == 5 && r.m.Fields[4][0] == "b" && r.m.Fields[4][1] == true
	res := []interface{}{}
	if wr && errText == "" {
		res = []interface{}{int64(id)*1000 + 7, "r" + strconv.Itoa(id)}
	}
	d.log(h.E{"e": "FResp", "k": k, "id": id, "ok": errText == "", "res": h.TreesOf(res)})
	r.f.Link.Write(h.Frame(h.RpcResp, idx, slot, method, res, errText))
}
