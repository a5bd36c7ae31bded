package drv

import (
	"fmt"

	"github.com/muguangyi/ferry/misc"

	"verif/harness/h"
)

// The set driver: histories of sets. Items are numbers of a table, or plain integers from 1000 on.

type setScn struct {
	Ops [][]interface{} `json:"ops"` // [op, set, item]
}

func init() { drivers["set"] = driveSet }

type setPoint struct{ X, Y int }
type setOther struct{ X, Y int }
type setName string

var setTable = func() []interface{} {
	p, q := &setPoint{1, 2}, &setPoint{1, 2}
	ch, ch2 := make(chan int), make(chan int)
	return []interface{}{
		nil, true, false, 0, 1, -1, int8(1), int16(1), int32(1), int64(1), uint(1), uint8(1), uint16(1), uint32(1), uint64(1),
		float32(1), float64(1), 1.5, complex(1, 0), "", "1", "a", "A", "true", "\x00", setName("a"), setName(""),
		p, q, *p, setPoint{2, 1}, setOther{1, 2}, struct{}{}, [2]int{1, 2}, [2]int{2, 1}, [0]int{}, [1]interface{}{1}, [1]interface{}{"1"},
		ch, ch2, (*setPoint)(nil), (*setOther)(nil), error(nil), fmt.Errorf("a"), fmt.Errorf("a"), uintptr(1), 'a', byte('a'),
		int64(-1 << 63), int64(1<<63 - 1), uint64(1<<64 - 1), float64(1 << 53), "\u00fc", "nil",
	}
}()

func setItem(i int) interface{} {
	if i >= 1000 {
		return i
	}
	return setTable[i%len(setTable)]
}

func setIndex(x interface{}) int {
	for i, y := range setTable {
		if x == y {
			return i
		}
	}
	if n, ok := x.(int); ok && n >= 1000 {
		return n
	}
	return -1
}

func driveSet(e *env) {
	scn := setScn{}
	e.decode(&scn)
	sets := map[int]misc.ISet{}
	for _, op := range scn.Ops {
		s := toInt(op[1])
		switch op[0] {
		case "new":
			sets[s] = misc.NewSet()
			e.rec.Log(h.E{"e": "New", "s": s})
		case "add":
			x := setItem(toInt(op[2]))
			e.rec.Log(h.E{"e": "Add", "s": s, "x": setIndex(x), "ok": sets[s].Add(x)})
		case "remove":
			x := setItem(toInt(op[2]))
			e.rec.Log(h.E{"e": "Remove", "s": s, "x": setIndex(x), "ok": sets[s].Remove(x)})
		case "list":
			l := sets[s].ToSlice()
			items := []int{}
			for i := range l {
				items = append(items, setIndex(l[i]))
				l[i] = "scribble" // the list is the caller's
			}
			_ = append(l, "scribble")
			e.rec.Log(h.E{"e": "List", "s": s, "items": items})
		}
	}
}
