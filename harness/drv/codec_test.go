package drv

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"testing/iotest"

	"github.com/muguangyi/ferry/codec"

	"verif/harness/h"
)

// The codec driver: values encoded, bytes decoded, typed access.

type codecOp struct {
	Op    string `json:"op"`
	H     string `json:"h"`
	Val   *goVal `json:"val"`
	Bytes []int  `json:"bytes"`
	Mode  string `json:"mode"` // how the reader passes bytes: "", one, half, eof
	At    []int  `json:"at"`
	Long  bool   `json:"long"`
}

// goVal is a Go value: its type and what it is.
type goVal struct {
	T interface{} `json:"t"` // "i8".., "any", ["[]",T], ["[n]",T], ["map",K,V], ["named",T]
	V interface{} `json:"v"`
}

func init() { drivers["codec"] = driveCodec }

type (
	namedInt    int32
	namedUint   uint16
	namedString string
	namedBool   bool
	namedFloat  float64
	namedSlice  []int16
	namedMap    map[string]uint8
)

var goTypes = map[string]reflect.Type{
	"b": reflect.TypeOf(false), "s": reflect.TypeOf(""),
	"i": reflect.TypeOf(0), "i8": reflect.TypeOf(int8(0)), "i16": reflect.TypeOf(int16(0)), "i32": reflect.TypeOf(int32(0)), "i64": reflect.TypeOf(int64(0)),
	"u": reflect.TypeOf(uint(0)), "u8": reflect.TypeOf(uint8(0)), "u16": reflect.TypeOf(uint16(0)), "u32": reflect.TypeOf(uint32(0)), "u64": reflect.TypeOf(uint64(0)),
	"f32": reflect.TypeOf(float32(0)), "f64": reflect.TypeOf(float64(0)),
	"any": reflect.TypeOf((*interface{})(nil)).Elem(),
	"ni":  reflect.TypeOf(namedInt(0)), "nu": reflect.TypeOf(namedUint(0)), "ns": reflect.TypeOf(namedString("")), "nb": reflect.TypeOf(namedBool(false)),
	"nf": reflect.TypeOf(namedFloat(0)), "nl": reflect.TypeOf(namedSlice(nil)), "nm": reflect.TypeOf(namedMap(nil)),
}

func goType(t interface{}, v interface{}) reflect.Type {
	if s, ok := t.(string); ok {
		if goTypes[s] == nil {
			panic("harness: type " + s)
		}
		return goTypes[s]
	}
	p := t.([]interface{})
	switch p[0] {
	case "[]":
		return reflect.SliceOf(goType(p[1], nil))
	case "[n]":
		return reflect.ArrayOf(int(p[2].(float64)), goType(p[1], nil))
	case "map":
		return reflect.MapOf(goType(p[1], nil), goType(p[2], nil))
	}
	panic("harness: type")
}

// build makes a Go value of type t.
func build(t reflect.Type, v interface{}) reflect.Value {
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Interface:
		if v != nil {
			m := v.(map[string]interface{})
			if m["t"] != "nil" {
				r.Set(build(goType(m["t"], nil), m["v"]))
			}
		}
	case reflect.Bool:
		r.SetBool(v.(bool))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(v.(string), 10, 64)
		check(err)
		r.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(v.(string), 10, 64)
		check(err)
		r.SetUint(n)
	case reflect.Float32:
		n, err := strconv.ParseUint(v.(string), 16, 32)
		check(err)
		return reflect.ValueOf(math.Float32frombits(uint32(n))).Convert(t)
	case reflect.Float64:
		n, err := strconv.ParseUint(v.(string), 16, 64)
		check(err)
		return reflect.ValueOf(math.Float64frombits(n)).Convert(t)
	case reflect.String:
		r.SetString(string(toBytes(v)))
	case reflect.Slice:
		if m, ok := v.(map[string]interface{}); ok { // n equal elements
			n := int(m["rep"].(float64))
			r.Set(reflect.MakeSlice(t, n, n))
			for i := 0; i < n; i++ {
				r.Index(i).Set(build(t.Elem(), m["of"]))
			}
		} else if v != nil {
			l := v.([]interface{})
			r.Set(reflect.MakeSlice(t, len(l), len(l)))
			for i := range l {
				r.Index(i).Set(build(t.Elem(), l[i]))
			}
		}
	case reflect.Array:
		for i, x := range v.([]interface{}) {
			r.Index(i).Set(build(t.Elem(), x))
		}
	case reflect.Map:
		if m, ok := v.(map[string]interface{}); ok { // n keys of 4 bytes
			n := int(m["keys"].(float64))
			r.Set(reflect.MakeMap(t))
			for i := 0; i < n; i++ {
				r.SetMapIndex(reflect.ValueOf(uint32(65536+i)).Convert(t.Key()), reflect.Zero(t.Elem()))
			}
		} else if v != nil {
			r.Set(reflect.MakeMap(t))
			for _, x := range v.([]interface{}) {
				p := x.([]interface{})
				r.SetMapIndex(build(t.Key(), p[0]), build(t.Elem(), p[1]))
			}
		}
	default:
		panic("harness: kind")
	}
	return r
}

// many is from where on bytes are recorded as equal ones between a head and a tail.
const many = 300000

func longest(b []byte) (at, n int) {
	for i := 0; i < len(b); {
		j := i + 1
		for j < len(b) && b[j] == b[i] {
			j++
		}
		if j-i > n {
			at, n = i, j-i
		}
		i = j
	}
	return
}

func short(b []byte) []int {
	if len(b) > 2000 { // not as expected: enough to tell
		b = b[:2000]
	}
	return ints(b)
}

func elide(b []byte) h.E {
	at, n := longest(b)
	return h.E{"head": short(b[:at]), "byte": int(b[at]), "n": n, "tail": short(b[at+n:])}
}

func toBytes(v interface{}) []byte {
	if m, ok := v.(map[string]interface{}); ok && m["fill"] != nil {
		f := m["fill"].([]interface{})
		b := append(toBytes(f[0]), bytes.Repeat([]byte{byte(f[1].(float64))}, int(f[2].(float64)))...)
		return append(b, toBytes(f[3])...)
	}
	if m, ok := v.(map[string]interface{}); ok {
		b := make([]byte, int(m["rep"].(float64)))
		for i := range b {
			b[i] = byte(i*7 + i/251)
		}
		return b
	}
	l := v.([]interface{})
	b := make([]byte, len(l))
	for i := range l {
		b[i] = byte(l[i].(float64))
	}
	return b
}

func ints(b []byte) []int {
	l := make([]int, len(b))
	for i := range b {
		l[i] = int(b[i])
	}
	return l
}

func b8(v uint64) []int { return ints(binary.BigEndian.AppendUint64(nil, v)) }
func b4(v uint32) []int { return ints(binary.BigEndian.AppendUint32(nil, v)) }

// codecTree describes a value in the form of the specification Codec.
func codecTree(r reflect.Value) h.Tree {
	switch r.Kind() {
	case reflect.Invalid:
		return h.Tree{"n"}
	case reflect.Interface:
		return codecTree(r.Elem())
	case reflect.Bool:
		return h.Tree{"b", r.Bool()}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return h.Tree{"i", int(r.Type().Size()), b8(uint64(r.Int()))}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return h.Tree{"u", int(r.Type().Size()), b8(r.Uint())}
	case reflect.Float32:
		f := r.Interface()
		n := reflect.ValueOf(f).Convert(reflect.TypeOf(float32(0))).Interface().(float32)
		return h.Tree{"f", 4, b8(math.Float64bits(float64(n))), b4(math.Float32bits(n))}
	case reflect.Float64:
		f := r.Float()
		narrow := []int{}
		if float64(float32(f)) == f || f != f {
			narrow = b4(math.Float32bits(float32(f)))
		}
		return h.Tree{"f", 8, b8(math.Float64bits(f)), narrow}
	case reflect.String:
		if r.Len() > many {
			e := elide([]byte(r.String()))
			return h.Tree{"sl", e["head"], e["byte"], e["n"], e["tail"]}
		}
		return h.Tree{"s", ints([]byte(r.String()))}
	case reflect.Slice, reflect.Array:
		if r.Len() > 400 {
			same := true
			first := codecTree(r.Index(0))
			l, untyped := r.Interface().([]interface{})
			for i := 1; i < r.Len() && same; i++ {
				if untyped && l[i] == nil && l[0] == nil {
					continue
				}
				same = reflect.DeepEqual(first, codecTree(r.Index(i)))
			}
			if same {
				return h.Tree{"rep", r.Len(), first}
			}
		}
		l := []interface{}{}
		for i := 0; i < r.Len(); i++ {
			if i > many {
				return h.Tree{"?", r.Len()}
			}
			l = append(l, codecTree(r.Index(i)))
		}
		return h.Tree{"a", l}
	case reflect.Map:
		if r.Len() > 400 {
			same := true
			for _, k := range r.MapKeys() {
				t := codecTree(k)
				if t[0] != "u" || codecTree(r.MapIndex(k))[0] != "n" {
					same = false
					break
				}
				for k.Kind() == reflect.Interface {
					k = k.Elem()
				}
				same = same && k.Uint() >= 65536 && k.Uint() < 65536+uint64(r.Len())
			}
			if same {
				return h.Tree{"mrep", r.Len()}
			}
		}
		l := []interface{}{}
		for _, k := range r.MapKeys() {
			l = append(l, []interface{}{codecTree(k), codecTree(r.MapIndex(k))})
		}
		return h.Tree{"m", l}
	}
	return h.Tree{"?", r.Type().String()}
}

func treeAny(v interface{}) h.Tree { return codecTree(reflect.ValueOf(v)) }

type countReader struct {
	r io.Reader
	n int
}

func (c *countReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += n
	return n, err
}

func reader(b []byte, mode string) *countReader {
	var r io.Reader = bytes.NewReader(b)
	switch mode {
	case "one":
		r = iotest.OneByteReader(r)
	case "half":
		r = iotest.HalfReader(r)
	case "eof":
		r = iotest.DataErrReader(r)
	case "buf":
		r = bytes.NewBuffer(b)
	}
	return &countReader{r: r}
}

type codecDrv struct {
	*env
	enc    []byte
	hold   map[string]codec.IAny
	failed map[string]bool
}

func driveCodec(e *env) {
	var scn struct {
		Ops []codecOp `json:"ops"`
	}
	e.decode(&scn)
	d := &codecDrv{env: e, hold: map[string]codec.IAny{}, failed: map[string]bool{}}
	for i := range scn.Ops {
		d.try(&scn.Ops[i])
	}
}

func (d *codecDrv) try(op *codecOp) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if len(s) > 8 && s[:8] == "harness:" {
				panic(r)
			}
			d.rec.Log(h.E{"e": "Panic", "what": s, "op": op.Op})
		}
	}()
	d.do(op)
}

func (d *codecDrv) decodeInto(a codec.IAny, b []byte, mode string) (bool, h.Tree, int) {
	r := reader(b, mode)
	err := a.Decode(r)
	if err != nil {
		return false, h.Tree{"n"}, r.n
	}
	return true, treeAny(a.Any()), r.n
}

func (d *codecDrv) holder(name string) codec.IAny {
	if d.hold[name] == nil {
		d.hold[name] = codec.NewAny(nil)
	}
	return d.hold[name]
}

func (d *codecDrv) do(op *codecOp) {
	switch op.Op {
	case "enc":
		var v interface{}
		if op.Val.T != "nil" {
			v = build(goType(op.Val.T, nil), op.Val.V).Interface()
		}
		var buf bytes.Buffer
		err := codec.NewAny(v).Encode(&buf)
		d.enc = buf.Bytes()
		if len(d.enc) > many || op.Long {
			d.rec.Log(h.E{"e": "EncL", "v": treeAny(v), "ok": err == nil, "enc": elide(append(d.enc, 0)[:max(1, len(d.enc))])})
			return
		}
		d.rec.Log(h.E{"e": "Enc", "v": treeAny(v), "ok": err == nil, "bytes": ints(d.enc)})
	case "again": // encode what a holder holds
		a := d.hold[op.H]
		if a == nil || d.failed[op.H] {
			return
		}
		var buf bytes.Buffer
		err := a.Encode(&buf)
		d.enc = buf.Bytes()
		d.rec.Log(h.E{"e": "Enc", "v": treeAny(a.Any()), "ok": err == nil, "bytes": ints(d.enc)})
	case "back":
		tail := make([]byte, len(op.Bytes))
		for i, x := range op.Bytes {
			tail[i] = byte(x)
		}
		ok, v, used := d.decodeInto(d.holder(op.H), append(append([]byte(nil), d.enc...), tail...), op.Mode)
		d.failed[op.H] = !ok
		d.rec.Log(h.E{"e": "Back", "h": op.H, "ok": ok, "v": v, "used": used})
	case "backlong":
		b := append(append([]byte(nil), d.enc...), fromInts(op.Bytes)...)
		ok, v, used := d.decodeInto(codec.NewAny(nil), b, op.Mode)
		d.rec.Log(h.E{"e": "BackL", "ok": ok, "v": v, "used": used})
	case "cutlong":
		cuts := [][]interface{}{}
		for _, n := range op.At {
			if n < 0 {
				n += len(d.enc)
			}
			if n >= 0 && n < len(d.enc) {
				ok, _, _ := d.decodeInto(codec.NewAny(nil), d.enc[:n], op.Mode)
				cuts = append(cuts, []interface{}{n, ok})
			}
		}
		d.rec.Log(h.E{"e": "CutL", "cuts": cuts})
	case "cut":
		at := op.At
		if at == nil {
			for i := 0; i < len(d.enc); i++ {
				at = append(at, i)
			}
		}
		cuts := [][]interface{}{}
		for _, n := range at {
			if n < len(d.enc) {
				ok, _, _ := d.decodeInto(codec.NewAny(nil), d.enc[:n], op.Mode)
				cuts = append(cuts, []interface{}{n, ok})
			}
		}
		d.rec.Log(h.E{"e": "Cut", "cuts": cuts})
	case "dec":
		b := make([]byte, len(op.Bytes))
		for i, x := range op.Bytes {
			b[i] = byte(x)
		}
		ok, v, used := d.decodeInto(d.holder(op.H), b, op.Mode)
		d.failed[op.H] = !ok
		d.rec.Log(h.E{"e": "Dec", "h": op.H, "bytes": ints(b), "ok": ok, "v": v, "used": used})
	case "stream": // values one after the other from one reader
		b := make([]byte, len(op.Bytes))
		for i, x := range op.Bytes {
			b[i] = byte(x)
		}
		r := reader(b, op.Mode)
		a := d.holder(op.H)
		for at := 0; at < len(b); {
			err := a.Decode(r)
			v := h.Tree{"n"}
			if err == nil {
				v = treeAny(a.Any())
			}
			d.failed[op.H] = err != nil
			d.rec.Log(h.E{"e": "Dec", "h": op.H, "bytes": ints(b[at:]), "ok": err == nil, "v": v, "used": r.n - at})
			if err != nil || r.n == at {
				break
			}
			at = r.n
		}
	case "gets":
		a := d.hold[op.H]
		if a == nil {
			return
		}
		name := "Gets"
		if d.failed[op.H] {
			name = "GetsAfter"
		}
		d.rec.Log(h.E{"e": name, "h": op.H, "gets": gets(a)})
	default:
		panic("harness: op " + op.Op)
	}
}

func gets(a codec.IAny) [][]interface{} {
	l := [][]interface{}{}
	add := func(as string, v interface{}, err error) {
		l = append(l, []interface{}{as, err == nil, treeAny(v)})
	}
	v0, err := a.Bool()
	add("bool", v0, err)
	v1, err := a.String()
	add("string", v1, err)
	v2, err := a.Int()
	add("int", v2, err)
	v3, err := a.Int8()
	add("int8", v3, err)
	v4, err := a.Int16()
	add("int16", v4, err)
	v5, err := a.Int32()
	add("int32", v5, err)
	v6, err := a.Int64()
	add("int64", v6, err)
	v7, err := a.Uint()
	add("uint", v7, err)
	v8, err := a.Uint8()
	add("uint8", v8, err)
	v9, err := a.Uint16()
	add("uint16", v9, err)
	v10, err := a.Uint32()
	add("uint32", v10, err)
	v11, err := a.Uint64()
	add("uint64", v11, err)
	v12, err := a.Float32()
	add("float32", v12, err)
	v13, err := a.Float64()
	add("float64", v13, err)
	v14, err := a.Arr()
	add("arr", v14, err)
	v15, err := a.Map()
	add("map", v15, err)
	return l
}
