package drv

import (
	"bytes"
	"encoding/binary"
	"sync"
	"time"

	"github.com/muguangyi/ferry"
	"github.com/muguangyi/ferry/network"

	"verif/harness/h"
)

// The wire driver: the bytes of the messages of a hub, of a dock, and of a socket with the serializer
// of hubs or docks that sends back whatever it receives.

type wireScn struct {
	Mode  string     `json:"mode"` // echo, dock, hub
	Ser   string     `json:"ser"`
	Addr  string     `json:"addr"`
	End   string     `json:"end"`
	Hub   string     `json:"hub"`
	Port  string     `json:"port"`
	Black []int      `json:"black"`
	Upto  string     `json:"blackto"`
	Feats []wireFeat `json:"feats"`
	Slots [][]int    `json:"slots"` // of the fake dock
	Resps []wireResp `json:"resps"` // what it answers, in turn
	Ops   []wireOp   `json:"ops"`
	Quiet int        `json:"quiet"`
}

type wireFeat struct {
	ID   []int `json:"id"`
	Disc bool  `json:"disc"`
}

type wireResp struct {
	Wide bool  `json:"wide"`
	Res  []int `json:"res"` // bytes of the array of results
	Err  []int `json:"err"` // bytes of the string
	Ms   int   `json:"ms"`
}

type wireOp struct {
	Op    string     `json:"op"`
	C     int        `json:"c"` // connection
	Bytes []int      `json:"bytes"`
	Cut   []int      `json:"cut"`
	ID    int        `json:"id"`
	To    []int      `json:"to"`
	M     []int      `json:"m"`
	Args  []*goVal   `json:"args"`
	Wr    bool       `json:"wr"`
	Ms    int        `json:"ms"`
	Par   [][]wireOp `json:"par"`
	Host  string     `json:"host"`
	Fill  []int      `json:"fill"` // a long frame: bytes, then Fill[1] times the byte Fill[0], then the tail
	Tail  []int      `json:"tail"`
	Msg   *wireMsg   `json:"msg"` // what it says
}

type wireMsg struct {
	ID int           `json:"id"`
	F  []interface{} `json:"f"`
}

type wireConn struct {
	mu   sync.Mutex
	out  chan int // holds one item while a frame is written (a mutex would stop virtual time)
	link h.Link
	buf  []byte
}

type wireDrv struct {
	*env
	scn   wireScn
	mu    sync.Mutex
	last  time.Time
	conns map[int]*wireConn
	slot  ferry.ISlot
	nresp int
	nend  int
	pend  sync.WaitGroup
}

func init() { drivers["wire"] = driveWire }

func fromInts(l []int) []byte {
	b := make([]byte, len(l))
	for i, x := range l {
		b[i] = byte(x)
	}
	return b
}

type echoSink struct{}

func (echoSink) OnConnected(p network.IPeer)               {}
func (echoSink) OnClosed(p network.IPeer)                  {}
func (echoSink) OnPacket(p network.IPeer, obj interface{}) { p.Send(obj) }

func driveWire(e *env) {
	d := &wireDrv{env: e, conns: map[int]*wireConn{}}
	e.decode(&d.scn)
	pause := func() {
		if e.Virtual {
			time.Sleep(50 * time.Millisecond)
		} else {
			time.Sleep(100 * time.Millisecond)
		}
	}
	var black []int
	for p := 20001; d.scn.Upto != "" && p <= toInt(d.scn.Upto); p++ {
		black = append(black, p)
	}
	switch d.scn.Mode {
	case "echo":
		// a hub and a dock, so that the serializers are there
		go ferry.Serve(d.scn.Hub, black...)
		pause()
		if d.scn.Ser != "seek" {
			go ferry.Startup(d.scn.Hub, "dock", ferry.Carry("F", &wireFeature{d: d}, true))
			pause()
			pause()
		}
		network.NewSocket(d.scn.Addr, d.scn.Ser, echoSink{}).Listen()
		pause()
		d.dial(1, d.scn.Addr, "")
	case "hub":
		go ferry.Serve(d.scn.Hub, append(black, d.scn.Black...)...)
		pause()
	case "dock":
		_, err := d.net.Listen(d.scn.Hub, d.handler(func() int { return 0 }, d.hubGot))
		check(err)
		_, err = d.net.Listen(d.scn.End, d.handler(func() int {
			d.mu.Lock()
			defer d.mu.Unlock()
			d.nend++
			return d.nend
		}, d.endGot))
		check(err)
		slots := []ferry.ISlot{}
		for i := range d.scn.Feats {
			slots = append(slots, ferry.Carry(string(fromInts(d.scn.Feats[i].ID)), &wireFeature{d: d}, d.scn.Feats[i].Disc))
		}
		go ferry.Startup(d.scn.Hub, "dock", slots...)
	}
	for i := range d.scn.Ops {
		d.do(&d.scn.Ops[i])
	}
	d.rest()
}

func (d *wireDrv) log(ev h.E) {
	d.mu.Lock()
	d.last = time.Now()
	d.mu.Unlock()
	d.rec.Log(ev)
}

func (d *wireDrv) rest() {
	d.mu.Lock()
	d.last = time.Now()
	d.mu.Unlock()
	for i := 0; i < 400; i++ {
		d.mu.Lock()
		left := time.Duration(d.scn.Quiet)*time.Millisecond - time.Since(d.last)
		d.mu.Unlock()
		if left <= 0 {
			break
		}
		time.Sleep(left)
	}
	d.mu.Lock()
	conns := []int{}
	for c := range d.conns {
		conns = append(conns, c)
	}
	d.mu.Unlock()
	for _, c := range conns {
		w := d.conns[c]
		w.mu.Lock()
		if len(w.buf) > many {
			d.rec.Log(h.E{"e": "FrameL", "c": c, "enc": elide(w.buf)})
		} else if len(w.buf) > 0 {
			d.rec.Log(h.E{"e": "Frame", "c": c, "bytes": ints(w.buf)})
		}
		w.mu.Unlock()
	}
	d.rec.Log(h.E{"e": "Rest"})
}

// handler splits what arrives into frames and records them.
func (d *wireDrv) handler(id func() int, got func(c int, w *wireConn, body []byte)) h.Handler {
	var mu sync.Mutex
	of := map[h.Link]int{}
	return h.Handler{
		Open: func(l h.Link) {
			c := id()
			d.mu.Lock()
			d.conns[c] = &wireConn{link: l, out: make(chan int, 1)}
			d.mu.Unlock()
			mu.Lock()
			of[l] = c
			mu.Unlock()
			if got != nil {
				got(c, d.conns[c], nil)
			}
		},
		Data: func(l h.Link, b []byte) {
			mu.Lock()
			c := of[l]
			mu.Unlock()
			d.mu.Lock()
			w := d.conns[c]
			d.mu.Unlock()
			w.mu.Lock()
			w.buf = append(w.buf, b...)
			bodies, rest := h.Split(w.buf)
			if len(bodies) > 0 {
				w.buf = append([]byte(nil), rest...)
			}
			w.mu.Unlock()
			for _, body := range bodies {
				f := binary.LittleEndian.AppendUint32(nil, uint32(len(body)))
				if d.scn.Mode == "echo" && len(body) > many {
					d.log(h.E{"e": "FrameL", "c": c, "enc": elide(append(f, body...))})
					continue
				}
				d.log(h.E{"e": "Frame", "c": c, "bytes": ints(append(f, body...))})
				if got != nil {
					got(c, w, body)
				}
			}
		},
		Close: func(l h.Link) {},
	}
}

func (d *wireDrv) dial(c int, addr, host string) {
	for i := 0; ; i++ {
		_, err := d.net.Dial(addr, host, d.handler(func() int { return c }, nil))
		if err == nil {
			break
		}
		if i > 50 {
			check(err)
		}
		time.Sleep(100 * time.Millisecond)
	}
	d.log(h.E{"e": "Dial", "c": c, "host": ints([]byte(map[bool]string{true: "127.0.0.1", false: host}[host == ""]))})
}

// send records a frame, then sends it in pieces.
func (d *wireDrv) send(c int, b []byte, cut []int) {
	d.mu.Lock()
	w := d.conns[c]
	d.mu.Unlock()
	w.out <- 1
	defer func() { <-w.out }()
	d.log(h.E{"e": "Sent", "c": c, "bytes": ints(b)})
	writeCut(d.env, w.link, b, cut)
}

func (d *wireDrv) hubGot(c int, w *wireConn, body []byte) {
	if body == nil {
		return
	}
	switch m := h.ParseBody(body); m.ID {
	case h.RegReq:
		d.send(c, h.Frame(h.RegResp, toInt(d.scn.Port)), nil)
	case h.QueryReq:
		d.send(c, h.Frame(h.QueryResp, d.scn.End), nil)
	}
}

func rawArr(l [][]int) []string {
	s := []string{}
	for _, x := range l {
		s = append(s, string(fromInts(x)))
	}
	return s
}

func (d *wireDrv) endGot(c int, w *wireConn, body []byte) {
	if body == nil {
		d.send(c, h.Frame(h.RegReq, rawArr(d.scn.Slots)), nil)
		return
	}
	switch m := h.ParseBody(body); m.ID {
	case h.RegReq:
		d.send(c, h.Frame(h.Ready, rawArr(d.scn.Slots)), nil)
	case h.RpcReq:
		idx, ok := m.Int(0)
		// the bytes of the two names
		rest := body[2:]
		var tail []byte
		var err error
		if _, rest, err = h.Dec(rest); err != nil || !ok {
			return
		}
		names := rest
		for i := 0; i < 2; i++ {
			if _, rest, err = h.Dec(rest); err != nil {
				return
			}
		}
		names = names[:len(names)-len(rest)]
		d.mu.Lock()
		r := wireResp{Res: []int{0xdd, 0, 0, 0, 0}, Err: []int{0xdb, 0, 0, 0, 0}}
		if len(d.scn.Resps) > 0 {
			r = d.scn.Resps[d.nresp%len(d.scn.Resps)]
		}
		d.nresp++
		d.mu.Unlock()
		b := []byte{0xcc, h.RpcResp}
		if r.Wide {
			b = append(b, 0xd3)
			b = binary.BigEndian.AppendUint64(b, uint64(idx))
		} else {
			b = append(b, h.Enc(idx)...)
		}
		b = append(b, names...)
		b = append(b, fromInts(r.Res)...)
		b = append(b, fromInts(r.Err)...)
		tail = append(binary.LittleEndian.AppendUint32(nil, uint32(len(b))), b...)
		if r.Ms == 0 {
			d.send(c, tail, nil)
			return
		}
		go func() {
			time.Sleep(time.Duration(r.Ms) * time.Millisecond)
			d.send(c, tail, nil)
		}()
	}
}

func (d *wireDrv) do(op *wireOp) {
	switch op.Op {
	case "par":
		var wg sync.WaitGroup
		for i := range op.Par {
			wg.Add(1)
			go func(ops []wireOp) {
				defer wg.Done()
				for i := range ops {
					d.do(&ops[i])
				}
			}(op.Par[i])
		}
		wg.Wait()
	case "rest":
		d.rest()
	case "sleep":
		time.Sleep(time.Duration(op.Ms) * time.Millisecond)
	case "dial": // to the hub
		d.dial(op.C, d.scn.Hub, op.Host)
	case "dialdock":
		for i := 0; i < 50; i++ {
			_, err := d.net.Dial("127.0.0.1:"+d.scn.Port, "", d.handler(func() int { return op.C }, d.endGot))
			if err == nil {
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
	case "send":
		d.mu.Lock()
		w := d.conns[op.C]
		d.mu.Unlock()
		if w == nil {
			return
		}
		if len(op.Fill) == 2 {
			b := append(fromInts(op.Bytes), bytes.Repeat([]byte{byte(op.Fill[0])}, op.Fill[1])...)
			b = append(b, fromInts(op.Tail)...)
			d.log(h.E{"e": "SentL", "c": op.C, "enc": elide(b), "m": op.Msg})
			w.out <- 1
			defer func() { <-w.out }()
			writeCut(d.env, w.link, b, op.Cut)
			return
		}
		d.send(op.C, fromInts(op.Bytes), op.Cut)
	case "up":
		h.Wait(3*time.Second, func() bool {
			d.mu.Lock()
			defer d.mu.Unlock()
			return d.slot != nil
		})
	case "call":
		d.mu.Lock()
		s := d.slot
		d.mu.Unlock()
		if s == nil {
			return
		}
		args := []interface{}{}
		trees := []interface{}{}
		for _, v := range op.Args {
			var x interface{}
			if v.T != "nil" {
				x = build(goType(v.T, nil), v.V).Interface()
			}
			args = append(args, x)
			trees = append(trees, treeAny(x))
		}
		d.log(h.E{"e": "Call", "id": op.ID, "to": op.To, "m": op.M, "args": trees, "wr": op.Wr})
		go func() {
			var res []interface{}
			var err error
			if op.Wr {
				res, err = s.CallWithResult(string(fromInts(op.To)), string(fromInts(op.M)), args...)
			} else {
				err = s.Call(string(fromInts(op.To)), string(fromInts(op.M)), args...)
			}
			d.log(h.E{"e": "Ret", "id": op.ID, "ok": err == nil, "res": wireTrees(res)})
		}()
	default:
		panic("harness: op " + op.Op)
	}
}

func wireTrees(l []interface{}) []interface{} {
	r := []interface{}{}
	for _, x := range l {
		r = append(r, treeAny(x))
	}
	return r
}

type wireFeature struct{ d *wireDrv }

// OnStart remembers the slot.
func (f *wireFeature) OnStart(s ferry.ISlot) {
	for _, m := range []string{"Echo", "Two", "Zero"} {
		s.SetTimeout(m, 3600)
	}
	f.d.mu.Lock()
	f.d.slot = s
	f.d.mu.Unlock()
}

// OnDestroy does nothing.
func (f *wireFeature) OnDestroy(s ferry.ISlot) {}

func (f *wireFeature) exec(m string, args ...interface{}) {
	f.d.log(h.E{"e": "Exec", "m": ints([]byte(m)), "args": wireTrees(args)})
}

// Echo returns what it gets.
func (f *wireFeature) Echo(x interface{}) interface{} { f.exec("Echo", x); return x }

// Two swaps what it gets.
func (f *wireFeature) Two(x, y interface{}) (interface{}, interface{}) {
	f.exec("Two", x, y)
	return y, x
}

// Zero has neither arguments nor results.
func (f *wireFeature) Zero() { f.exec("Zero") }
