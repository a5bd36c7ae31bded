package drv

import (
	"sync"
	"time"

	"github.com/muguangyi/ferry"

	"verif/harness/h"
)

// The registry driver: registrations of makers, and visits of features by slots. Numbers of slots,
// names and makers count from 1.

type regScn struct {
	Names []string        `json:"names"`
	Slots []bool          `json:"slots"` // discoverable or not
	Dock  string          `json:"dock"`  // address of the hub if the slots are those of a running dock
	Ops   [][]interface{} `json:"ops"`
	Quiet int             `json:"quiet"`
}

type regProxy struct {
	m, s int
	slot ferry.ISlot
}

type regFeature struct {
	ferry.Feature
	got chan ferry.ISlot
}

// OnStart passes the slot on.
func (f *regFeature) OnStart(s ferry.ISlot) { f.got <- s }

type regDrv struct {
	*env
	mu      sync.Mutex
	slots   []ferry.ISlot
	proxies map[*regProxy]int
}

func init() { drivers["registry"] = driveRegistry }

func (d *regDrv) slot(s ferry.ISlot) int {
	for i := range d.slots {
		if d.slots[i] == s {
			return i + 1
		}
	}
	return -1
}

func (d *regDrv) maker(m int) func(ferry.ISlot) interface{} {
	return func(s ferry.ISlot) interface{} {
		p := &regProxy{m: m, s: d.slot(s), slot: s}
		d.mu.Lock()
		d.proxies[p] = len(d.proxies) + 1
		d.rec.Log(h.E{"e": "Made", "p": d.proxies[p], "m": m, "s": p.s})
		d.mu.Unlock()
		return p
	}
}

func (d *regDrv) visit(v, s int, n string) {
	d.rec.Log(h.E{"e": "Visit", "v": v, "s": s, "n": n})
	d.got(v, d.slots[s-1].Visit(n))
}

func (d *regDrv) got(v int, x interface{}) {
	id := 0
	if x != nil {
		id = -1
		if p, ok := x.(*regProxy); ok && p != nil {
			d.mu.Lock()
			id = d.proxies[p]
			d.mu.Unlock()
		}
	}
	d.rec.Log(h.E{"e": "Got", "v": v, "p": id})
}

func driveRegistry(e *env) {
	d := &regDrv{env: e, proxies: map[*regProxy]int{}}
	scn := regScn{}
	e.decode(&scn)
	fs := []*regFeature{}
	for i, disc := range scn.Slots {
		f := &regFeature{got: make(chan ferry.ISlot, 1)}
		fs = append(fs, f)
		d.slots = append(d.slots, ferry.Carry("carried"+string(rune('a'+i)), f, disc))
	}
	if scn.Dock != "" {
		go ferry.Serve(scn.Dock)
		time.Sleep(100 * time.Millisecond)
		go ferry.Startup(scn.Dock, "dock", d.slots...)
		for i := range fs { // what the features are given is what they visit with
			d.slots[i] = <-fs[i].got
		}
	}
	name := func(x interface{}) string { return scn.Names[toInt(x)-1] }
	done := map[int]chan int{}
	for _, op := range scn.Ops {
		switch op[0] {
		case "register":
			for _, c := range done {
				<-c
			}
			n, m := name(op[1]), toInt(op[2])
			ferry.Register(n, d.maker(m))
			d.rec.Log(h.E{"e": "Register", "n": n, "m": m})
		case "visit": // goes on until "ret"
			v, s, n, c := toInt(op[1]), toInt(op[2]), name(op[3]), make(chan int)
			done[v] = c
			go func() {
				defer close(c)
				d.visit(v, s, n)
			}()
		case "ret":
			<-done[toInt(op[1])]
		case "storm": // visits from many routines at once: of slots op[1] and names op[2], op[3] routines
			var wg sync.WaitGroup
			start := make(chan int)
			for i := 0; i < toInt(op[3]); i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					for j, s := range op[1].([]interface{}) {
						for k, n := range op[2].([]interface{}) {
							d.visit(1000000*toInt(op[4])+(i*100+j)*100+k, toInt(s), name(n))
						}
					}
				}(i)
			}
			close(start)
			wg.Wait()
		}
	}
	for _, c := range done {
		<-c
	}
	e.rec.Log(h.E{"e": "Rest"})
}
