package drv

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/muguangyi/ferry/network"

	"verif/harness/h"
)

// The network driver: sockets, raw connections, packets.

type netOp struct {
	Op    string    `json:"op"`
	S     string    `json:"s"`    // socket
	R     string    `json:"r"`    // raw connection
	To    string    `json:"to"`   // address to dial
	Lane  string    `json:"lane"` // of packets
	Nth   int       `json:"nth"`  // which connection of a listening socket
	N     int       `json:"n"`    // number of packets
	Sizes []int     `json:"sizes"`
	Cuts  []int     `json:"cuts"` // sizes of the pieces to write
	Drop  int       `json:"drop"` // number of last bytes not to write
	Us    int       `json:"us"`
	Ms    int       `json:"ms"`
	Par   [][]netOp `json:"par"`
}

type netScn struct {
	Ser   string         `json:"ser"` // txt, len, keep
	Slow  map[string]int `json:"slow"`
	Hello map[string]int `json:"hello"` // socket -> packets to send when connected
	UpMs  map[string]int `json:"upms"`
	Stop  map[string]int `json:"stop"` // socket -> packets after which its sink closes it
	Steps []netOp        `json:"steps"`
	Rest  int            `json:"rest"`
}

type netDrv struct {
	*env
	scn   netScn
	mu    sync.Mutex
	socks map[string]network.ISocket
	peers map[string][]network.IPeer
	raws  map[string]*rawConn
	next  map[string]int // numbers of the lanes' packets
	stops []func()
	kept  []kept
	seen  map[string]int    // packets of a socket
	keys  map[string]string // raw connection -> its key
	last  map[string]int    // number of the last packet of a stream
}

type rawConn struct {
	link   h.Link
	closed bool
	got    []byte
}

func init() { drivers["net"] = driveNet }

// lenSerializer has packets with a length header of 4 bytes.
type lenSerializer struct{}

func (lenSerializer) Marshal(obj interface{}) []byte {
	b := []byte(obj.(string))
	if len(b) == 0 {
		return nil
	}
	return append(binary.LittleEndian.AppendUint32(nil, uint32(len(b))), b...)
}
func (lenSerializer) Unmarshal(data []byte) interface{} { return string(data[4:]) }
func (lenSerializer) Slice(b []byte) int {
	if len(b) < 4 {
		return 0
	}
	n := 4 + int(binary.LittleEndian.Uint32(b))
	if len(b) < n {
		return 0
	}
	return n
}

// keepSerializer has the same packets, and keeps the bytes it gets instead of copying them.
type keepSerializer struct{ lenSerializer }

func (keepSerializer) Unmarshal(data []byte) interface{} { return data }

// kept is a packet that was delivered.
type kept struct {
	k, side, lane string
	n             int
	data          []byte
}

// payload is packet n of a lane, of about the size.
func payload(lane string, n, size int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s:%d:%d:", lane, n, size)
	for i := 0; b.Len() < size; i++ {
		b.WriteByte(byte('!' + (n*31+i*7+i/90)%90))
	}
	return b.String()
}

// unpay gives lane and number, or a lane that doesn't exist if the packet isn't intact.
func (d *netDrv) unpay(s string) (string, int) {
	if d.scn.Ser == "txt" {
		if !strings.HasSuffix(s, "\x00") {
			return "?" + h.StrText(s), 0
		}
		s = s[:len(s)-1]
	}
	p := strings.SplitN(s, ":", 4)
	if len(p) == 4 {
		n, err1 := strconv.Atoi(p[1])
		size, err2 := strconv.Atoi(p[2])
		if err1 == nil && err2 == nil && payload(p[0], n, size) == s {
			return p[0], n
		}
	}
	return "?" + h.StrText(s), 0
}

func (d *netDrv) object(lane string, n, size int) string {
	s := payload(lane, n, size)
	if d.scn.Ser == "txt" {
		s += "\x00"
	}
	return s
}

// bytes of a packet; the shortest one there is if size is negative.
func (d *netDrv) bytes(lane string, n, size int) []byte {
	if size < 0 {
		if d.scn.Ser != "txt" {
			return make([]byte, 4)
		}
		return []byte{0}
	}
	if d.scn.Ser != "txt" {
		return lenSerializer{}.Marshal(payload(lane, n, size))
	}
	return []byte(d.object(lane, n, size))
}

type netSink struct {
	d    *netDrv
	name string
}

func side(p network.IPeer) (string, string) {
	if p.IsSelf() {
		return p.LocalAddr().String(), "d"
	}
	return p.RemoteAddr().String(), "l"
}

func (s *netSink) OnConnected(p network.IPeer) {
	if ms := s.d.scn.UpMs[s.name]; ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
	k, sd := side(p)
	s.d.rec.Log(h.E{"e": "Up", "k": k, "side": sd, "s": s.name, "self": p.IsSelf(), "local": p.LocalAddr().String(), "remote": p.RemoteAddr().String()})
	if n := s.d.scn.Hello[s.name]; n > 0 {
		s.d.sendTo(p, s.name+"-hello-"+strings.ReplaceAll(k, ":", "_"), n, []int{30}, 0)
	}
	s.d.mu.Lock()
	s.d.peers[s.name] = append(s.d.peers[s.name], p)
	s.d.mu.Unlock()
}

func (s *netSink) OnClosed(p network.IPeer) {
	k, sd := side(p)
	s.d.rec.Log(h.E{"e": "Down", "k": k, "side": sd, "self": p.IsSelf(), "local": p.LocalAddr().String(), "remote": p.RemoteAddr().String()})
}

// read gives lane and number of a packet. The shortest ones are of streams, and are taken to be the next one of theirs.
func (d *netDrv) read(k, sd, s string) (string, int) {
	bare := s == "" || d.scn.Ser == "txt" && s == "\x00"
	var lane string
	var n int
	if !bare {
		lane, n = d.unpay(s)
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	for name, key := range d.keys {
		if key == k {
			if bare {
				lane, n = name, d.last[k+sd]+1
			}
			if lane == name {
				d.last[k+sd] = n
			}
		}
	}
	if lane == "" {
		lane = "?"
	}
	return lane, n
}

func (s *netSink) OnPacket(p network.IPeer, obj interface{}) {
	k, sd := side(p)
	data, keep := obj.([]byte)
	var lane string
	var n int
	if keep {
		if len(data) < 4 {
			data = append([]byte("????"), data...)
		}
		lane, n = s.d.read(k, sd, string(data[4:]))
		if len(data) > 4 {
			s.d.mu.Lock()
			s.d.kept = append(s.d.kept, kept{k, sd, lane, n, data})
			s.d.mu.Unlock()
		}
	} else {
		lane, n = s.d.read(k, sd, obj.(string))
	}
	s.d.rec.Log(h.E{"e": "Pkt", "k": k, "side": sd, "lane": lane, "n": n})
	if stop := s.d.scn.Stop[s.name]; stop > 0 {
		s.d.mu.Lock()
		s.d.seen[s.name]++
		now := s.d.seen[s.name] == stop
		s.d.mu.Unlock()
		if sock := s.d.sock(s.name); now && sock != nil {
			s.d.rec.Log(h.E{"e": "Close", "s": s.name})
			sock.Close()
		}
	}
	if ms := s.d.scn.Slow[s.name]; ms > 0 {
		time.Sleep(time.Duration(ms) * time.Millisecond)
	}
}

func driveNet(e *env) {
	d := &netDrv{env: e, socks: map[string]network.ISocket{}, peers: map[string][]network.IPeer{}, raws: map[string]*rawConn{}, next: map[string]int{}, seen: map[string]int{}, keys: map[string]string{}, last: map[string]int{}}
	e.decode(&d.scn)
	if d.scn.Ser == "len" {
		network.ExtendSerializer("len", lenSerializer{})
	}
	if d.scn.Ser == "keep" {
		network.ExtendSerializer("keep", keepSerializer{})
	}
	d.run(d.scn.Steps)
	d.rest()
}

func (d *netDrv) rest() {
	if d.Virtual {
		time.Sleep(time.Duration(d.scn.Rest) * time.Millisecond)
	} else { // until nothing has happened for a while
		q := 200 * time.Millisecond
		if d.scn.Rest > 0 {
			q = time.Duration(d.scn.Rest) * time.Millisecond
		}
		last, at := d.rec.Count(), time.Now()
		for end := time.Now().Add(40 * time.Second); time.Now().Before(end) && time.Since(at) < q; time.Sleep(5 * time.Millisecond) {
			if n := d.rec.Count(); n != last {
				last, at = n, time.Now()
			}
		}
	}
	d.mu.Lock()
	for _, p := range d.kept { // still what was delivered?
		if lane, n := d.unpay(string(p.data[4:])); lane != p.lane || n != p.n {
			d.rec.Log(h.E{"e": "Spoilt", "k": p.k, "side": p.side, "lane": p.lane, "n": p.n})
		}
	}
	d.kept = nil
	d.mu.Unlock()
	d.rec.Log(h.E{"e": "Rest"})
}

func (d *netDrv) run(ops []netOp) {
	for i := range ops {
		d.do(&ops[i])
	}
}

// addr is how a listening address looks from the other side.
func (d *netDrv) addr(a string) string {
	if d.Net == "mock" {
		_, p, _ := net.SplitHostPort(a)
		return "0.0.0.0:" + p
	}
	return a
}

func (d *netDrv) socket(name, addr string) network.ISocket {
	s := network.NewSocket(addr, d.scn.Ser, &netSink{d, name})
	d.mu.Lock()
	d.socks[name] = s
	d.mu.Unlock()
	return s
}

func (d *netDrv) sock(name string) network.ISocket {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.socks[name]
}

func (d *netDrv) sizes(sizes []int, n int) int {
	if len(sizes) == 0 {
		return 20
	}
	return sizes[n%len(sizes)]
}

func (d *netDrv) numbers(lane string, n int) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	first := d.next[lane] + 1
	d.next[lane] += n
	return first
}

func (d *netDrv) sendTo(p network.IPeer, lane string, n int, sizes []int, us int) {
	k, sd := side(p)
	first := d.numbers(lane, n)
	d.rec.Log(h.E{"e": "Send", "k": k, "side": sd, "lane": lane, "n": n})
	for i := first; i < first+n; i++ {
		p.Send(d.object(lane, i, d.sizes(sizes, i)))
		if us > 0 {
			time.Sleep(time.Duration(us) * time.Microsecond)
		}
	}
	d.rec.Log(h.E{"e": "Sent", "lane": lane})
}

func (d *netDrv) do(op *netOp) {
	switch op.Op {
	case "par":
		var wg sync.WaitGroup
		for _, ops := range op.Par {
			wg.Add(1)
			go func(ops []netOp) {
				defer wg.Done()
				d.run(ops)
			}(ops)
		}
		wg.Wait()
	case "sleep":
		time.Sleep(time.Duration(op.Ms)*time.Millisecond + time.Duration(op.Us)*time.Microsecond)
	case "rest":
		d.rest()
	case "listen":
		d.rec.Log(h.E{"e": "Listen", "s": op.S, "addr": d.addr(op.To)})
		d.socket(op.S, op.To).Listen()
	case "dial":
		d.rec.Log(h.E{"e": "Socket", "s": op.S})
		err := d.socket(op.S, op.To).Dial()
		d.rec.Log(h.E{"e": "Dialed", "s": op.S, "ok": err == nil})
	case "close":
		if s := d.sock(op.S); s != nil {
			d.rec.Log(h.E{"e": "Close", "s": op.S})
			s.Close()
		}
	case "send": // from the nth connection of a socket
		var p network.IPeer
		wait(2*time.Second, func() bool {
			d.mu.Lock()
			defer d.mu.Unlock()
			if len(d.peers[op.S]) > op.Nth {
				p = d.peers[op.S][op.Nth]
			}
			return p != nil
		})
		if p != nil {
			d.sendTo(p, op.Lane, op.N, op.Sizes, op.Us)
		}
	case "sendempty": // a packet of no bytes, on the nth connection of a socket
		d.mu.Lock()
		var p network.IPeer
		if len(d.peers[op.S]) > op.Nth {
			p = d.peers[op.S][op.Nth]
		}
		d.mu.Unlock()
		if p != nil {
			p.Send("")
		}
	case "sendall":
		s := d.sock(op.S)
		first := d.numbers(op.Lane, op.N)
		d.rec.Log(h.E{"e": "SendAll", "s": op.S, "lane": op.Lane, "n": op.N})
		for i := first; i < first+op.N; i++ {
			s.Send(d.object(op.Lane, i, d.sizes(op.Sizes, i)))
			if op.Us > 0 {
				time.Sleep(time.Duration(op.Us) * time.Microsecond)
			}
		}
		d.rec.Log(h.E{"e": "Sent", "lane": op.Lane})
	case "rawlisten":
		d.rec.Log(h.E{"e": "Listen", "s": op.R, "addr": d.addr(op.To)})
		stop, err := d.net.Listen(op.To, d.raw(op.R, "l"))
		check(err)
		d.stops = append(d.stops, stop)
	case "rawdial":
		_, err := d.net.Dial(op.To, "", d.raw(op.R, "d"))
		check(err)
	case "rawclose":
		if r := d.rawOf(op.R); r != nil && r.link.CanClose() {
			d.rec.Log(h.E{"e": "RawClose", "k": d.rawKey(r, op.R)})
			r.link.Close()
		}
	case "feed": // a stream of n packets, in pieces
		r := d.rawOf(op.R)
		if r == nil {
			return
		}
		first := d.numbers(op.R, op.N)
		var b []byte
		for i := first; i < first+op.N; i++ {
			b = append(b, d.bytes(op.R, i, d.sizes(op.Sizes, i))...)
		}
		if b = b[:max(0, len(b)-op.Drop)]; op.Drop > 0 && !r.link.CanClose() {
			return
		}
		k := d.rawKey(r, op.R)
		for i := 0; len(b) > 0; i++ {
			n := len(b)
			if len(op.Cuts) > 0 {
				if c := op.Cuts[i%len(op.Cuts)]; c < n {
					n = c
				}
			}
			d.rec.Log(h.E{"e": "Feed", "k": k, "n": n})
			r.link.Write(b[:n])
			b = b[n:]
			if op.Ms > 0 || op.Us > 0 {
				time.Sleep(time.Duration(op.Ms)*time.Millisecond + time.Duration(op.Us)*time.Microsecond)
			}
		}
	default:
		panic("harness: op " + op.Op)
	}
}

func wait(t time.Duration, cond func() bool) bool {
	for end := time.Now().Add(t); time.Now().Before(end); time.Sleep(200 * time.Microsecond) {
		if cond() {
			return true
		}
	}
	return false
}

func (d *netDrv) rawOf(name string) *rawConn {
	var r *rawConn
	wait(2*time.Second, func() bool {
		d.mu.Lock()
		defer d.mu.Unlock()
		r = d.raws[name]
		return r != nil
	})
	return r
}

func (d *netDrv) rawKey(r *rawConn, name string) string {
	if strings.HasPrefix(name, "l") {
		return r.link.Remote()
	}
	return r.link.Local()
}

// raw handles a raw connection ("l...": one that is accepted).
func (d *netDrv) raw(name, sd string) h.Handler {
	return h.Handler{
		Open: func(l h.Link) {
			r := &rawConn{link: l}
			d.rec.Log(h.E{"e": "Raw", "k": d.rawKey(r, name), "side": sd, "r": name})
			d.mu.Lock()
			d.raws[name] = r
			d.keys[name] = d.rawKey(r, name)
			d.mu.Unlock()
		},
		Data: func(l h.Link, b []byte) {
			d.mu.Lock()
			r := d.raws[name]
			r.got = append(r.got, b...)
			var pkts []string
			for {
				n := lenSerializer{}.Slice(r.got)
				if d.scn.Ser == "txt" {
					n = bytes.IndexByte(r.got, 0) + 1
				}
				if n == 0 {
					break
				}
				p := string(r.got[:n])
				if d.scn.Ser != "txt" {
					p = p[4:]
				}
				pkts = append(pkts, p)
				r.got = r.got[n:]
			}
			d.mu.Unlock()
			for _, p := range pkts {
				lane, n := d.unpay(p)
				d.rec.Log(h.E{"e": "Pkt", "k": d.rawKey(r, name), "side": sd, "lane": lane, "n": n})
			}
		},
		Close: func(l h.Link) {
			d.mu.Lock()
			r := d.raws[name]
			d.mu.Unlock()
			d.rec.Log(h.E{"e": "RawDown", "k": d.rawKey(r, name), "side": sd})
		},
	}
}
