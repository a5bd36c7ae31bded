package drv

import (
	"reflect"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/muguangyi/ferry/chancall"

	"verif/harness/h"
)

// The chancall driver: callees and callers as such.

type ccScn struct {
	Objs  []ccObj  `json:"objs"`
	Lanes [][]ccOp `json:"lanes"`
	Quiet int      `json:"quiet"`
	Wait  int      `json:"wait"`
	Unit  int64    `json:"unit"` // microseconds
}

type ccObj struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // ptr, val, emb
}

type ccOp struct {
	Op     string        `json:"op"` // call, limit, at, sleep
	Caller string        `json:"caller"`
	Obj    string        `json:"obj"`
	M      string        `json:"m"`
	ID     int           `json:"id"`
	Us     int64         `json:"us"` // of at, sleep
	Dur    int64         `json:"dur"`
	Args   []interface{} `json:"args"`
	Wr     bool          `json:"wr"`
	Async  bool          `json:"async"`
	Sec    string        `json:"sec"`
}

type ccDrv struct {
	*env
	scn     ccScn
	start   time.Time
	callees map[string]chancall.ICallee
	callers map[string]chancall.ICaller
	zero    int // the call of Zero
	running atomic.Int32
	wg      sync.WaitGroup
}

func init() { drivers["cc"] = driveCC }

func (d *ccDrv) log(ev h.E) { // with the time
	ev["t"] = d.units(time.Since(d.start).Microseconds())
	d.rec.Log(ev)
}

func (d *ccDrv) units(us int64) int64 {
	if d.scn.Unit > 1 {
		return us / d.scn.Unit
	}
	return us
}

func driveCC(e *env) {
	d := &ccDrv{env: e, start: time.Now(), callees: map[string]chancall.ICallee{}, callers: map[string]chancall.ICaller{}}
	e.decode(&d.scn)
	for _, o := range d.scn.Objs {
		b := &ccBody{d: d, obj: o.Name}
		var t interface{}
		switch o.Kind {
		case "val":
			t = ccVal{b}
		case "emb":
			t = &ccEmb{ccPtr: &ccPtr{b}}
		default:
			t = &ccPtr{b}
		}
		d.callees[o.Name] = chancall.NewCallee(o.Name, t)
		d.log(h.E{"e": "Callee", "obj": o.Name, "name": d.callees[o.Name].Name()})
	}
	for _, lane := range d.scn.Lanes {
		for _, op := range lane {
			if op.Op == "call" {
				d.caller(op.Caller, op.Obj)
			}
		}
	}
	for i := range d.scn.Lanes {
		d.wg.Add(1)
		go func(ops []ccOp) {
			defer d.wg.Done()
			for j := range ops {
				d.do(&ops[j])
			}
		}(d.scn.Lanes[i])
	}
	done := make(chan bool)
	go func() {
		d.wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(time.Duration(max(d.scn.Quiet, d.scn.Wait)) * time.Millisecond):
	}
	if d.Virtual {
		time.Sleep(time.Duration(d.scn.Quiet) * time.Millisecond)
	} else {
		for at := time.Now(); time.Since(at) < 300*time.Millisecond; time.Sleep(5 * time.Millisecond) {
			if d.running.Load() > 0 {
				at = time.Now()
			}
		}
	}
	d.log(h.E{"e": "Settle"})
}

func (d *ccDrv) caller(name, obj string) chancall.ICaller {
	if d.callers[name+"/"+obj] == nil {
		d.callers[name+"/"+obj] = chancall.NewCaller(d.callees[obj])
	}
	return d.callers[name+"/"+obj]
}

func (d *ccDrv) do(op *ccOp) {
	switch op.Op {
	case "at":
		time.Sleep(time.Duration(op.Us)*time.Microsecond - time.Since(d.start))
	case "sleep":
		time.Sleep(time.Duration(op.Us) * time.Microsecond)
	case "limit":
		v, err := strconv.ParseFloat(op.Sec, 32)
		check(err)
		d.callees[op.Obj].SetTimeout(op.M, float32(v))
		d.log(h.E{"e": "Limit", "obj": op.Obj, "m": op.M, "us": d.units(int64(float64(float32(v)) * 1e6))})
	case "call":
		c := d.caller(op.Caller, op.Obj)
		if op.M == "Zero" {
			d.zero = op.ID
		}
		args := ccTyped(op.Args)
		d.log(h.E{"e": "Call", "id": op.ID, "obj": op.Obj, "m": op.M, "args": h.AnyTrees(args), "types": ccTypes(args), "wr": op.Wr, "dur": d.units(op.Dur)})
		f := func() {
			var res []interface{}
			var err error
			if op.Wr {
				res, err = c.CallWithResult(op.M, args...)
			} else {
				err = c.Call(op.M, args...)
			}
			d.log(h.E{"e": "Ret", "id": op.ID, "ok": err == nil, "res": h.AnyTrees(res)})
		}
		if op.Async {
			d.wg.Add(1)
			go func() {
				defer d.wg.Done()
				f()
			}()
		} else {
			f()
		}
	default:
		panic("harness: op " + op.Op)
	}
}

func ccTypes(args []interface{}) []string {
	l := []string{}
	for _, a := range args {
		if a == nil {
			l = append(l, "nil")
		} else {
			l = append(l, reflect.TypeOf(a).String())
		}
	}
	return l
}

// ccTyped adds lists and so on to the basic types.
func ccTyped(args []interface{}) []interface{} {
	res := []interface{}{}
	for _, a := range args {
		p := a.([]interface{})
		switch p[0] {
		case "nil":
			res = append(res, nil)
		case "list":
			res = append(res, ccTyped(p[1].([]interface{})))
		case "strs":
			l := []string{}
			for _, x := range p[1].([]interface{}) {
				l = append(l, x.(string))
			}
			res = append(res, l)
		case "bytes":
			res = append(res, []byte(p[1].(string)))
		case "smap":
			m := map[string]int{}
			for _, x := range p[1].([]interface{}) {
				m[x.(string)] = len(m)
			}
			res = append(res, m)
		case "named":
			res = append(res, ccNamed(p[1].(string)))
		default:
			res = append(res, typed([]interface{}{a})...)
		}
	}
	return res
}

type ccNamed string
type ccKind int16

type ccBody struct {
	d   *ccDrv
	obj string
}

func (b *ccBody) exec(m string, id int64, us int64, args []interface{}, res []interface{}) {
	b.d.running.Add(1)
	defer b.d.running.Add(-1)
	b.d.log(h.E{"e": "Exec", "obj": b.obj, "m": m, "id": id, "args": h.AnyTrees(args)})
	if us > 0 {
		time.Sleep(time.Duration(us) * time.Microsecond)
	}
	b.d.log(h.E{"e": "ExecEnd", "id": id, "res": h.AnyTrees(res)})
}

func (b *ccBody) work(m string, id, us int64) int64 {
	b.exec(m, id, us, []interface{}{id, us}, []interface{}{id * 10})
	return id * 10
}

type ccPtr struct{ b *ccBody }

// The methods.
func (c *ccPtr) Work(id, us int64) int64    { return c.b.work("Work", id, us) }
func (c *ccPtr) Work2(id, us int64) int64   { return c.b.work("Work2", id, us) }
func (c *ccPtr) Wor(id, us int64) int64     { return c.b.work("Wor", id, us) }
func (c *ccPtr) WOrk(id, us int64) int64    { return c.b.work("WOrk", id, us) }
func (c *ccPtr) X(id, us int64) int64       { return c.b.work("X", id, us) }
func (c *ccPtr) Quiet(id, us int64)         { c.b.exec("Quiet", id, us, []interface{}{id, us}, nil) }
func (c *ccPtr) String(id, us int64) int64  { return c.b.work("String", id, us) }
func (c *ccPtr) Error(id, us int64) int64   { return c.b.work("Error", id, us) }
func (c *ccPtr) Größe(id, us int64) int64   { return c.b.work("Größe", id, us) }
func (c *ccPtr) Name(id, us int64) int64    { return c.b.work("Name", id, us) }
func (c *ccPtr) OnStart(id, us int64) int64 { return c.b.work("OnStart", id, us) }
func (c *ccPtr) M_1(id, us int64) int64     { return c.b.work("M_1", id, us) }
func (c *ccPtr) AMethodWithAVeryLongNameThatGoesOnAndOnAndOnForMoreThanSixtyFourCharacters(id, us int64) int64 {
	return c.b.work("AMethodWithAVeryLongNameThatGoesOnAndOnAndOnForMoreThanSixtyFourCharacters", id, us)
}
func (c *ccPtr) Zero() int64 {
	c.b.exec("Zero", int64(c.b.d.zero), 0, nil, []interface{}{int64(7)})
	return 7
}
func (c *ccPtr) Big(id int64, a, b, e, f, g, i, j, k, l, m, n int32, o string) (int32, int32, int32, int32, int32, int32, int32, int32, int32, int32, int32, string) {
	c.b.exec("Big", id, 0, []interface{}{id, a, b, e, f, g, i, j, k, l, m, n, o}, []interface{}{n, m, l, k, j, i, g, f, e, b, a, o})
	return n, m, l, k, j, i, g, f, e, b, a, o
}
func (c *ccPtr) Fail(id int64) (int64, error) {
	c.b.exec("Fail", id, 0, []interface{}{id}, []interface{}{id, nil})
	return id, nil
}
func (c *ccPtr) Ints(id int64, a int, b int8, e int16, f int32, g int64) (int64, int32, int16, int8, int) {
	c.b.exec("Ints", id, 0, []interface{}{id, a, b, e, f, g}, []interface{}{g, f, e, b, a})
	return g, f, e, b, a
}
func (c *ccPtr) Uints(id int64, a uint, b uint8, e uint16, f uint32, g uint64) (uint64, uint32, uint16, uint8, uint) {
	c.b.exec("Uints", id, 0, []interface{}{id, a, b, e, f, g}, []interface{}{g, f, e, b, a})
	return g, f, e, b, a
}
func (c *ccPtr) Floats(id int64, a float32, b float64) (float64, float32) {
	c.b.exec("Floats", id, 0, []interface{}{id, a, b}, []interface{}{b, a})
	return b, a
}
func (c *ccPtr) Strs(id int64, a, b, e, f string) (string, string, string, string) {
	c.b.exec("Strs", id, 0, []interface{}{id, a, b, e, f}, []interface{}{f, e, b, a})
	return f, e, b, a
}
func (c *ccPtr) Any(id int64, a, b interface{}) (interface{}, interface{}) {
	c.b.exec("Any", id, 0, []interface{}{id, a, b}, []interface{}{b, a})
	return b, a
}
func (c *ccPtr) Coll(id int64, a []interface{}, b []string, e map[string]int, f []byte) (map[string]int, []byte, []interface{}, []string) {
	c.b.exec("Coll", id, 0, []interface{}{id, a, b, e, f}, []interface{}{e, f, a, b})
	return e, f, a, b
}
func (c *ccPtr) Named(id int64, a ccNamed, b string, k ccKind) (string, ccNamed, ccKind) {
	c.b.exec("Named", id, 0, []interface{}{id, a, b, k}, []interface{}{b, a, k})
	return b, a, k
}
func (c *ccPtr) Var(id int64, a string, rest ...int32) int {
	args := []interface{}{id, a}
	for _, r := range rest {
		args = append(args, r)
	}
	c.b.exec("Var", id, 0, args, []interface{}{len(rest)})
	return len(rest)
}
func (c *ccPtr) Bool(id int64, a, b, e bool) (bool, bool, bool) {
	c.b.exec("Bool", id, 0, []interface{}{id, a, b, e}, []interface{}{e, b, a})
	return e, b, a
}
func (c *ccPtr) One(id int64) int64 {
	c.b.exec("One", id, 0, []interface{}{id}, []interface{}{id + 1})
	return id + 1
}

// ccVal has value receivers.
type ccVal struct{ b *ccBody }

func (c ccVal) Work(id, us int64) int64  { return c.b.work("Work", id, us) }
func (c ccVal) Work2(id, us int64) int64 { return c.b.work("Work2", id, us) }
func (c ccVal) Wor(id, us int64) int64   { return c.b.work("Wor", id, us) }
func (c ccVal) WOrk(id, us int64) int64  { return c.b.work("WOrk", id, us) }
func (c ccVal) X(id, us int64) int64     { return c.b.work("X", id, us) }
func (c ccVal) Quiet(id, us int64)       { c.b.exec("Quiet", id, us, []interface{}{id, us}, nil) }
func (c ccVal) Strs(id int64, a, b, e, f string) (string, string, string, string) {
	return (&ccPtr{c.b}).Strs(id, a, b, e, f)
}
func (c ccVal) One(id int64) int64 { return (&ccPtr{c.b}).One(id) }
func (c ccVal) Ints(id int64, a int, b int8, e int16, f int32, g int64) (int64, int32, int16, int8, int) {
	return (&ccPtr{c.b}).Ints(id, a, b, e, f, g)
}

// ccEmb gets its methods from an embedded object, and overrides one.
type ccEmb struct{ *ccPtr }

func (c *ccEmb) X(id, us int64) int64 { return c.b.work("X", id, us) }
