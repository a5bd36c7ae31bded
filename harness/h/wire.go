// Package h has what the drivers share: an independent implementation of the wire format, a trace
// recorder, and fake endpoints over TCP and over the mock network.
package h

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"strconv"
)

// Tree is a value in the form traces use: ["n"], ["b",true], ["i","-5"], ["u","5"], ["f",bits],
// ["s",hex], ["a",[...]], ["m",[[k,v],...]].
type Tree = []interface{}

// Message codes.
const (
	Error = iota
	Heartbeat
	Ready
	RegReq
	RegResp
	QueryReq
	QueryResp
	RpcReq
	RpcResp
)

func be(code byte, n int, v uint64) []byte {
	b := []byte{code}
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return b
}

func encUint(v uint64) []byte {
	switch {
	case v < 1<<8:
		return be(0xcc, 1, v)
	case v < 1<<16:
		return be(0xcd, 2, v)
	case v < 1<<32:
		return be(0xce, 4, v)
	}
	return be(0xcf, 8, v)
}

func encInt(v int64) []byte {
	switch {
	case v > -128 && v < 128:
		return be(0xd0, 1, uint64(v))
	case v > -32768 && v < 32768:
		return be(0xd1, 2, uint64(v))
	case v > -2147483648 && v < 2147483648:
		return be(0xd2, 4, uint64(v))
	}
	return be(0xd3, 8, uint64(v))
}

// Enc encodes nil, bool, intN, uintN, floatN, string, []interface{}.
func Enc(v interface{}) []byte {
	switch x := v.(type) {
	case nil:
		return []byte{0xc0}
	case bool:
		if x {
			return []byte{0xc3}
		}
		return []byte{0xc2}
	case int:
		return encInt(int64(x))
	case int8:
		return encInt(int64(x))
	case int16:
		return encInt(int64(x))
	case int32:
		return encInt(int64(x))
	case int64:
		return encInt(x)
	case uint:
		return encUint(uint64(x))
	case uint8:
		return encUint(uint64(x))
	case uint16:
		return encUint(uint64(x))
	case uint32:
		return encUint(uint64(x))
	case uint64:
		return encUint(x)
	case float32:
		return append([]byte{0xcb}, encUint(math.Float64bits(float64(x)))...)
	case float64:
		return append([]byte{0xcb}, encUint(math.Float64bits(x))...)
	case string:
		return append(be(0xdb, 4, uint64(len(x))), x...)
	case []string:
		b := be(0xdd, 4, uint64(len(x)))
		for _, s := range x {
			b = append(b, Enc(s)...)
		}
		return b
	case []interface{}:
		b := be(0xdd, 4, uint64(len(x)))
		for _, e := range x {
			b = append(b, Enc(e)...)
		}
		return b
	}
	panic(fmt.Sprintf("harness: can't encode %T", v))
}

// Frame makes a frame of message id with fields.
func Frame(id int, fields ...interface{}) []byte {
	body := []byte{0xcc, byte(id)}
	for _, f := range fields {
		body = append(body, Enc(f)...)
	}
	b := make([]byte, 4, 4+len(body))
	binary.LittleEndian.PutUint32(b, uint32(len(body)))
	return append(b, body...)
}

var errShort = errors.New("short")

// Dec decodes one value and returns the rest.
func Dec(b []byte) (Tree, []byte, error) {
	if len(b) == 0 {
		return nil, nil, errShort
	}
	c, b := b[0], b[1:]
	num := func(n int) (uint64, error) {
		if len(b) < n {
			return 0, errShort
		}
		var v uint64
		for i := 0; i < n; i++ {
			v = v<<8 | uint64(b[i])
		}
		b = b[n:]
		return v, nil
	}
	switch c {
	case 0xc0:
		return Tree{"n"}, b, nil
	case 0xc2:
		return Tree{"b", false}, b, nil
	case 0xc3:
		return Tree{"b", true}, b, nil
	case 0xcc, 0xcd, 0xce, 0xcf:
		v, err := num(1 << (c - 0xcc))
		return Tree{"u", strconv.FormatUint(v, 10)}, b, err
	case 0xd0, 0xd1, 0xd2, 0xd3:
		n := 1 << (c - 0xd0)
		v, err := num(n)
		s := uint(64 - 8*n)
		return Tree{"i", strconv.FormatInt(int64(v<<s)>>s, 10)}, b, err
	case 0xca, 0xcb:
		t, rest, err := Dec(b)
		if err != nil {
			return nil, nil, err
		}
		if t[0] != "u" {
			return nil, nil, errors.New("float bits")
		}
		v, _ := strconv.ParseUint(t[1].(string), 10, 64)
		if c == 0xca {
			v = math.Float64bits(float64(math.Float32frombits(uint32(v))))
		}
		return Tree{"f", FloatBits(math.Float64frombits(v))}, rest, nil
	case 0xdb:
		n, err := num(4)
		if err != nil || uint64(len(b)) < n {
			return nil, nil, errShort
		}
		return Tree{"s", StrText(string(b[:n]))}, b[n:], nil
	case 0xdd, 0xdf:
		n, err := num(4)
		if err != nil {
			return nil, nil, err
		}
		list := []interface{}{}
		for i := uint64(0); i < n; i++ {
			t, rest, err := Dec(b)
			if err != nil {
				return nil, nil, err
			}
			b = rest
			if c == 0xdd {
				list = append(list, t)
				continue
			}
			v, rest, err := Dec(b)
			if err != nil {
				return nil, nil, err
			}
			b = rest
			list = append(list, []interface{}{t, v})
		}
		if c == 0xdd {
			return Tree{"a", list}, b, nil
		}
		return Tree{"m", list}, b, nil
	}
	return nil, nil, fmt.Errorf("code %x", c)
}

// FloatBits is the hex form of a float's bits (all NaNs alike).
func FloatBits(f float64) string {
	if f != f {
		return "nan"
	}
	return fmt.Sprintf("%016x", math.Float64bits(f))
}

// StrText is how a string is recorded: in hex, or by length and hash if it's long.
func StrText(s string) string {
	if len(s) > 400 {
		h := sha256.Sum256([]byte(s))
		return fmt.Sprintf("#%d:%x", len(s), h)
	}
	return hex.EncodeToString([]byte(s))
}

// TreeOf describes a Go value of a basic type; widths are dropped.
func TreeOf(v interface{}) Tree {
	switch x := v.(type) {
	case nil:
		return Tree{"n"}
	case bool:
		return Tree{"b", x}
	case int, int8, int16, int32, int64:
		return Tree{"i", fmt.Sprintf("%d", x)}
	case uint, uint8, uint16, uint32, uint64:
		return Tree{"u", fmt.Sprintf("%d", x)}
	case float32:
		return Tree{"f", FloatBits(float64(x))}
	case float64:
		return Tree{"f", FloatBits(x)}
	case string:
		return Tree{"s", StrText(x)}
	case []interface{}:
		l := []interface{}{}
		for _, e := range x {
			l = append(l, TreeOf(e))
		}
		return Tree{"a", l}
	}
	return Tree{"?", fmt.Sprintf("%T", v)}
}

// TreesOf describes all values.
func TreesOf(vs []interface{}) []interface{} {
	l := []interface{}{}
	for _, v := range vs {
		l = append(l, TreeOf(v))
	}
	return l
}

// Str is the string of a tree.
func Str(t Tree) (string, bool) {
	if len(t) == 2 && t[0] == "s" {
		b, err := hex.DecodeString(t[1].(string))
		return string(b), err == nil
	}
	return "", false
}

// Msg is a received message.
type Msg struct {
	ID     int
	Fields []Tree
	Raw    []byte // body
	Bad    string
}

// Strings is the array of strings in field i.
func (m *Msg) Strings(i int) ([]string, bool) {
	if i >= len(m.Fields) || m.Fields[i][0] != "a" {
		return nil, false
	}
	res := []string{}
	for _, e := range m.Fields[i][1].([]interface{}) {
		s, ok := Str(e.(Tree))
		if !ok {
			return nil, false
		}
		res = append(res, s)
	}
	return res, true
}

// Int is the integer in field i.
func (m *Msg) Int(i int) (int64, bool) {
	if i >= len(m.Fields) || (m.Fields[i][0] != "i" && m.Fields[i][0] != "u") {
		return 0, false
	}
	v, err := strconv.ParseInt(m.Fields[i][1].(string), 10, 64)
	return v, err == nil
}

// Str is the string in field i.
func (m *Msg) Str(i int) (string, bool) {
	if i >= len(m.Fields) {
		return "", false
	}
	return Str(m.Fields[i])
}

// Arr is the array in field i.
func (m *Msg) Arr(i int) ([]interface{}, bool) {
	if i >= len(m.Fields) || m.Fields[i][0] != "a" {
		return nil, false
	}
	return m.Fields[i][1].([]interface{}), true
}

// ParseBody parses the body of a frame.
func ParseBody(body []byte) *Msg {
	m := &Msg{ID: -1, Raw: body}
	t, rest, err := Dec(body)
	if err != nil || t[0] != "u" {
		m.Bad = "no message code"
		return m
	}
	m.ID, _ = strconv.Atoi(t[1].(string))
	for len(rest) > 0 {
		t, r, err := Dec(rest)
		if err != nil {
			m.Bad = "bad field"
			return m
		}
		m.Fields = append(m.Fields, t)
		rest = r
	}
	return m
}

// Split takes complete frames off buf.
func Split(buf []byte) (bodies [][]byte, rest []byte) {
	for len(buf) >= 4 {
		n := int(binary.LittleEndian.Uint32(buf))
		if n < 0 || len(buf) < 4+n {
			break
		}
		bodies = append(bodies, append([]byte(nil), buf[4:4+n]...))
		buf = buf[4+n:]
	}
	return bodies, buf
}
