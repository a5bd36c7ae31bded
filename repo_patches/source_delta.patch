From 9ca1d53c18c96ed66ca47a29b1c74a39bcd377f2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:45:15 +0000
Subject: [PATCH 01/32] fix: decode floats whose bits were encoded as a narrow
 integer

encodeFloat32/64 write the bits through encodeUint32/64, which choose the
smallest width, but the decoder asserted the full width: 0.0 (and every
float with small bits) panicked on decoding.
---
 codec/decoder.go | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/codec/decoder.go b/codec/decoder.go
index 2549b35..93a28e7 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -118,6 +118,35 @@ func decodeMap(reader io.Reader, count uint) (map[interface{}]interface{}, error
 	return dict, nil
 }
 
+// decodeBits reads the bits of a float, that are encoded as an unsigned integer
+// with the smallest width.
+func decodeBits(reader io.Reader, max uint64) (uint64, error) {
+	data, err := decode(reader)
+	if nil != err {
+		return 0, err
+	}
+
+	var bits uint64
+	switch n := data.(type) {
+	case uint8:
+		bits = uint64(n)
+	case uint16:
+		bits = uint64(n)
+	case uint32:
+		bits = uint64(n)
+	case uint64:
+		bits = n
+	default:
+		return 0, fmt.Errorf("Invalid float data: %v", data)
+	}
+
+	if bits > max {
+		return 0, fmt.Errorf("Invalid float data: %v", data)
+	}
+
+	return bits, nil
+}
+
 func decode(reader io.Reader) (v interface{}, err error) {
 	c, err := readByte(reader)
 	if nil != err {
@@ -133,21 +162,21 @@ func decode(reader io.Reader) (v interface{}, err error) {
 		return true, nil
 	case cFloat32:
 		{
-			data, err := decode(reader)
+			data, err := decodeBits(reader, math.MaxUint32)
 			if nil != err {
 				return nil, err
 			}
 
-			return math.Float32frombits(data.(uint32)), nil
+			return math.Float32frombits(uint32(data)), nil
 		}
 	case cFloat64:
 		{
-			data, err := decode(reader)
+			data, err := decodeBits(reader, math.MaxUint64)
 			if nil != err {
 				return nil, err
 			}
 
-			return math.Float64frombits(data.(uint64)), nil
+			return math.Float64frombits(data), nil
 		}
 	case cUint8:
 		{
-- 
2.43.0


From bc176cd2c455c69a0ca43b38aba52e669ca8d364 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 02/32] fix: report truncated data instead of decoding missing
 bytes as zeros

io.Reader.Read may return fewer bytes than asked for without an error, so a
truncated number or string (or a reader that delivers small pieces) was
decoded with the missing bytes as zeros.
---
 codec/decoder.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/codec/decoder.go b/codec/decoder.go
index 93a28e7..aecd591 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -14,7 +14,7 @@ import (
 
 func readByte(reader io.Reader) (byte, error) {
 	var data bytes1
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -24,7 +24,7 @@ func readByte(reader io.Reader) (byte, error) {
 
 func readUint16(reader io.Reader) (uint16, error) {
 	var data bytes2
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -34,7 +34,7 @@ func readUint16(reader io.Reader) (uint16, error) {
 
 func readUint32(reader io.Reader) (uint32, error) {
 	var data bytes4
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -44,7 +44,7 @@ func readUint32(reader io.Reader) (uint32, error) {
 
 func readUint64(reader io.Reader) (uint64, error) {
 	var data bytes8
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if err != nil {
 		return 0, err
 	}
@@ -54,7 +54,7 @@ func readUint64(reader io.Reader) (uint64, error) {
 
 func readInt16(reader io.Reader) (int16, error) {
 	var data bytes2
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -64,7 +64,7 @@ func readInt16(reader io.Reader) (int16, error) {
 
 func readInt32(reader io.Reader) (int32, error) {
 	var data bytes4
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -74,7 +74,7 @@ func readInt32(reader io.Reader) (int32, error) {
 
 func readInt64(reader io.Reader) (int64, error) {
 	var data bytes8
-	_, err := reader.Read(data[0:])
+	_, err := io.ReadFull(reader, data[0:])
 	if nil != err {
 		return 0, err
 	}
@@ -262,7 +262,7 @@ func decode(reader io.Reader) (v interface{}, err error) {
 			}
 
 			data := make(bytes, n)
-			_, err = reader.Read(data)
+			_, err = io.ReadFull(reader, data)
 			if nil != err {
 				return nil, err
 			}
-- 
2.43.0


From 7fb94e9c1909e884c4d37c0263ca0559e7b5c5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 03/32] fix: reject array and map keys instead of panicking on
 decoding a map

---
 codec/decoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/codec/decoder.go b/codec/decoder.go
index aecd591..ef784b1 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -107,6 +107,11 @@ func decodeMap(reader io.Reader, count uint) (map[interface{}]interface{}, error
 			return nil, err
 		}
 
+		switch k.(type) {
+		case []interface{}, map[interface{}]interface{}:
+			return nil, fmt.Errorf("Unsupported map key: %v", k)
+		}
+
 		v, err := decode(reader)
 		if nil != err {
 			return nil, err
-- 
2.43.0


From 0f5f300130d5de8bdae7358927d8201719578f7a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:45:17 +0000
Subject: [PATCH 04/32] fix: don't allocate an array or string by the encoded
 size before reading it

Five bytes claiming 2^32-1 elements made the decoder ask for 64 GB.
---
 codec/decoder.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/codec/decoder.go b/codec/decoder.go
index ef784b1..471ea87 100644
--- a/codec/decoder.go
+++ b/codec/decoder.go
@@ -7,6 +7,7 @@ package codec
 import (
 	"fmt"
 	"io"
+	"io/ioutil"
 	"math"
 
 	"strconv"
@@ -84,14 +85,15 @@ func readInt64(reader io.Reader) (int64, error) {
 
 func decodeArray(reader io.Reader, count uint) ([]interface{}, error) {
 	var i uint
-	arr := make([]interface{}, count)
+	// NOTE: Don't trust count to allocate, there may be no such many elements.
+	arr := make([]interface{}, 0)
 	for i = 0; i < count; i++ {
 		v, err := decode(reader)
 		if nil != err {
 			return nil, err
 		}
 
-		arr[i] = v
+		arr = append(arr, v)
 	}
 
 	return arr, nil
@@ -266,12 +268,16 @@ func decode(reader io.Reader) (v interface{}, err error) {
 				return "", nil
 			}
 
-			data := make(bytes, n)
-			_, err = io.ReadFull(reader, data)
+			// NOTE: Don't trust n to allocate, there may be no such many bytes.
+			data, err := ioutil.ReadAll(io.LimitReader(reader, int64(n)))
 			if nil != err {
 				return nil, err
 			}
 
+			if uint32(len(data)) != n {
+				return nil, io.ErrUnexpectedEOF
+			}
+
 			return string(data), nil
 		}
 	case cArr32:
-- 
2.43.0


From 38488e3e5eba0ef7453169d1f92168132f70e940 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:45:50 +0000
Subject: [PATCH 05/32] fix: keep the fraction of a second of a call's timeout

time.Duration(timeout) dropped it, so a timeout of 0.5 fired at once and one
of 1.5 after a second.
---
 chancall/callee.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chancall/callee.go b/chancall/callee.go
index f75d9e5..03d78c0 100644
--- a/chancall/callee.go
+++ b/chancall/callee.go
@@ -62,7 +62,7 @@ func (c *callee) result(request *callRequest, response *callResponse) (err error
 
 func track(request *callRequest, timeout float32) {
 	go func() {
-		time.Sleep(time.Duration(timeout) * time.Second)
+		time.Sleep(time.Duration(float64(timeout) * float64(time.Second)))
 		request.Lock()
 		{
 			if !request.done {
-- 
2.43.0


From 09622819ce62b48a2ab4825d26d49efdfeb0a059 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 06/32] fix: give every call its own response channel

Routines sharing one caller took each other's responses.
---
 chancall/API.go    |  1 -
 chancall/caller.go | 34 ++++++++++++++++++----------------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/chancall/API.go b/chancall/API.go
index 98ee2df..fa81444 100644
--- a/chancall/API.go
+++ b/chancall/API.go
@@ -37,7 +37,6 @@ func NewCallee(name string, target interface{}) ICallee {
 func NewCaller(c ICallee) ICaller {
 	caller := new(caller)
 	caller.callee = c.(*callee)
-	caller.callResponse = make(chan *callResponse, 1)
 
 	return caller
 }
diff --git a/chancall/caller.go b/chancall/caller.go
index ade1f1e..acdc7a9 100644
--- a/chancall/caller.go
+++ b/chancall/caller.go
@@ -9,40 +9,42 @@ import (
 )
 
 type caller struct {
-	callee       *callee
-	callResponse chan *callResponse
+	callee *callee
 }
 
 func (c *caller) Call(method string, args ...interface{}) error {
-	err := c.call(&callRequest{
-		method:       method,
-		args:         args,
-		callResponse: c.callResponse,
-		done:         false,
-	}, true)
+	request := newRequest(method, args)
+	err := c.call(request, true)
 	if nil != err {
 		return err
 	}
 
-	response := <-c.callResponse
+	response := <-request.callResponse
 	return response.err
 }
 
 func (c *caller) CallWithResult(method string, args ...interface{}) ([]interface{}, error) {
-	err := c.call(&callRequest{
-		method:       method,
-		args:         args,
-		callResponse: c.callResponse,
-		done:         false,
-	}, true)
+	request := newRequest(method, args)
+	err := c.call(request, true)
 	if nil != err {
 		return nil, err
 	}
 
-	response := <-c.callResponse
+	response := <-request.callResponse
 	return response.result, response.err
 }
 
+// newRequest makes a request with its own response channel, so that calls sharing
+// one caller can't take each other's response.
+func newRequest(method string, args []interface{}) *callRequest {
+	return &callRequest{
+		method:       method,
+		args:         args,
+		callResponse: make(chan *callResponse, 1),
+		done:         false,
+	}
+}
+
 func (c *caller) call(request *callRequest, block bool) (err error) {
 	defer func() {
 		if r := recover(); r != nil {
-- 
2.43.0


From 6bd6a5cd08319d5f1cb0b77472f7d8d97ff15bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 07/32] fix: answer calls that can't be applied with an error

Calling an unknown method reported success without running anything; a wrong
number of arguments, an argument that can't be converted, or nil (which the
codec supports) panicked in the callee's routine and killed the process of the
called dock.
---
 chancall/callee.go |  4 ++--
 chancall/meta.go   | 60 +++++++++++++++++++++++++++++++++++++---------
 2 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/chancall/callee.go b/chancall/callee.go
index 03d78c0..d7f4f14 100644
--- a/chancall/callee.go
+++ b/chancall/callee.go
@@ -34,8 +34,8 @@ func (c *callee) handling() {
 
 func (c *callee) process(request *callRequest) (err error) {
 	track(request, c.meta.timeout(request.method))
-	result := c.meta.call(request.method, request.args...)
-	return c.result(request, &callResponse{result: result})
+	result, err := c.meta.call(request.method, request.args...)
+	return c.result(request, &callResponse{result: result, err: err})
 }
 
 func (c *callee) result(request *callRequest, response *callResponse) (err error) {
diff --git a/chancall/meta.go b/chancall/meta.go
index 24ba9d8..9e3f491 100644
--- a/chancall/meta.go
+++ b/chancall/meta.go
@@ -5,6 +5,7 @@
 package chancall
 
 import (
+	"fmt"
 	"reflect"
 )
 
@@ -41,24 +42,61 @@ func (m *meta) collect(target interface{}) {
 	}
 }
 
-func (m *meta) call(method string, args ...interface{}) []interface{} {
+func (m *meta) call(method string, args ...interface{}) ([]interface{}, error) {
 	f := m.funcs[method]
-	if nil != f && f.fn.IsValid() {
-		params := make([]reflect.Value, 0)
-		for i, arg := range args {
-			params = append(params, reflect.ValueOf(arg).Convert(f.ft.In(i)))
+	if nil == f || !f.fn.IsValid() {
+		return nil, fmt.Errorf("[%s] function is not found!", method)
+	}
+
+	count := f.ft.NumIn()
+	if f.ft.IsVariadic() {
+		count--
+	}
+	if len(args) < count || (len(args) > count && !f.ft.IsVariadic()) {
+		return nil, fmt.Errorf("[%s] function doesn't accept %d arguments!", method, len(args))
+	}
+
+	params := make([]reflect.Value, 0)
+	for i, arg := range args {
+		var t reflect.Type
+		if i < count {
+			t = f.ft.In(i)
+		} else {
+			t = f.ft.In(count).Elem()
+		}
+
+		param, ok := convert(arg, t)
+		if !ok {
+			return nil, fmt.Errorf("[%s] function doesn't accept argument %d: %v!", method, i, arg)
 		}
-		ret := f.fn.Call(params)
+		params = append(params, param)
+	}
+	ret := f.fn.Call(params)
+
+	result := make([]interface{}, len(ret))
+	for i, r := range ret {
+		result[i] = r.Interface()
+	}
 
-		result := make([]interface{}, len(ret))
-		for i, r := range ret {
-			result[i] = r.Interface()
+	return result, nil
+}
+
+func convert(arg interface{}, t reflect.Type) (reflect.Value, bool) {
+	if nil == arg {
+		switch t.Kind() {
+		case reflect.Interface, reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
+			return reflect.Zero(t), true
 		}
 
-		return result
+		return reflect.Value{}, false
+	}
+
+	v := reflect.ValueOf(arg)
+	if !v.Type().ConvertibleTo(t) {
+		return reflect.Value{}, false
 	}
 
-	return nil
+	return v.Convert(t), true
 }
 
 func (m *meta) timeout(method string) float32 {
-- 
2.43.0


From d88d7b3289957260fd47870abfa42a24a3b23c6a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 08/32] fix: make rpc indices unique

Calls made within one tick of the clock got the same index, so one of them
took the other's place in the table of waiting calls: its caller never
returned, and the other one could get the wrong response.
---
 rpc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpc.go b/rpc.go
index 7c172c9..43ac387 100644
--- a/rpc.go
+++ b/rpc.go
@@ -5,11 +5,15 @@
 package ferry
 
 import (
+	"sync/atomic"
 	"time"
 )
 
+// The last used rpc index.
+var rpcIndex int64 = time.Now().UnixNano()
+
 func newRpc() *rpc {
-	return &rpc{index: time.Now().UnixNano(), req: nil, ret: make(chan *ret, 1)}
+	return &rpc{index: atomic.AddInt64(&rpcIndex, 1), req: nil, ret: make(chan *ret, 1)}
 }
 
 type rpc struct {
-- 
2.43.0


From 378e4953358ba05d56331505c2b727c981940d3d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 09/32] fix: guard the waiting rpcs of a dock, and send each
 only once

The table of waiting rpcs was read and written by the calling and receiving
routines without a lock ('concurrent map writes' kills the process). And when
readiness of a provider arrived while a call was being committed, the call was
committed twice: the second time its request was nil and the dock crashed.
---
 dock.go | 50 ++++++++++++++++++++++++++++++++++++++++++--------
 rpc.go  |  5 +++++
 2 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/dock.go b/dock.go
index 7039e6e..e84c359 100644
--- a/dock.go
+++ b/dock.go
@@ -37,6 +37,7 @@ type dock struct {
 	slots            map[string]*slot
 	remoteSlotsMutex sync.Mutex
 	remoteSlots      map[string]network.IPeer
+	rpcsMutex        sync.Mutex
 	rpcs             map[int64]*rpc
 }
 
@@ -84,10 +85,8 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 			// Check if there is a RPC waiting for this Dock.
 			resp := pack.P.(*protoReady)
 			for _, slot := range resp.Slots {
-				for _, r := range d.rpcs {
-					if r.req != nil && r.req.Slot == slot {
-						d.commit(r)
-					}
+				for _, r := range d.waitingRpcs(slot) {
+					d.commit(r)
 				}
 			}
 		}
@@ -176,7 +175,7 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 	case cRpcResponse:
 		{
 			resp := pack.P.(*protoRpcResponse)
-			rpc := d.rpcs[resp.Index]
+			rpc := d.takeRpc(resp.Index)
 			if nil != rpc {
 				go func() {
 					rpc.callback(&ret{
@@ -189,7 +188,6 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 							return nil
 						}(),
 					})
-					delete(d.rpcs, resp.Index)
 				}()
 			}
 		}
@@ -227,7 +225,6 @@ func (d *dock) call(name string, method string, args ...interface{}) error {
 		return chancall.NewCaller(target.callee).Call(method, args...)
 	} else {
 		rpc := newRpc()
-		d.rpcs[rpc.index] = rpc
 		return rpc.call(d, name, method, args...)
 	}
 }
@@ -238,15 +235,52 @@ func (d *dock) callWithResult(name string, method string, args ...interface{}) (
 		return chancall.NewCaller(target.callee).CallWithResult(method, args...)
 	} else {
 		rpc := newRpc()
-		d.rpcs[rpc.index] = rpc
 		return rpc.callWithResult(d, name, method, args...)
 	}
 }
 
+// addRpc makes a rpc with its request wait for its response.
+func (d *dock) addRpc(rpc *rpc) {
+	d.rpcsMutex.Lock()
+	defer d.rpcsMutex.Unlock()
+
+	d.rpcs[rpc.index] = rpc
+}
+
+// takeRpc removes and returns the rpc waiting for the response with index.
+func (d *dock) takeRpc(index int64) *rpc {
+	d.rpcsMutex.Lock()
+	defer d.rpcsMutex.Unlock()
+
+	rpc := d.rpcs[index]
+	delete(d.rpcs, index)
+	return rpc
+}
+
+// waitingRpcs returns all rpcs to slot that have no response yet.
+func (d *dock) waitingRpcs(slot string) []*rpc {
+	d.rpcsMutex.Lock()
+	defer d.rpcsMutex.Unlock()
+
+	rpcs := make([]*rpc, 0)
+	for _, r := range d.rpcs {
+		if r.slot == slot {
+			rpcs = append(rpcs, r)
+		}
+	}
+
+	return rpcs
+}
+
 func (d *dock) commit(rpc *rpc) {
 	d.remoteSlotsMutex.Lock()
 	defer d.remoteSlotsMutex.Unlock()
 
+	// Already sent.
+	if nil == rpc.req {
+		return
+	}
+
 	peer, ok := d.remoteSlots[rpc.req.Slot]
 	if ok {
 		peer.Send(&packer{
diff --git a/rpc.go b/rpc.go
index 43ac387..d529426 100644
--- a/rpc.go
+++ b/rpc.go
@@ -18,6 +18,7 @@ func newRpc() *rpc {
 
 type rpc struct {
 	index int64
+	slot  string
 	req   *protoRpcRequest
 	ret   chan *ret
 }
@@ -28,6 +29,7 @@ type ret struct {
 }
 
 func (r *rpc) call(dock *dock, name string, method string, args ...interface{}) error {
+	r.slot = name
 	r.req = &protoRpcRequest{
 		Index:      r.index,
 		Slot:       name,
@@ -36,6 +38,7 @@ func (r *rpc) call(dock *dock, name string, method string, args ...interface{})
 		WithResult: false,
 	}
 
+	dock.addRpc(r)
 	dock.commit(r)
 
 	ret := <-r.ret
@@ -45,6 +48,7 @@ func (r *rpc) call(dock *dock, name string, method string, args ...interface{})
 }
 
 func (r *rpc) callWithResult(dock *dock, name string, method string, args ...interface{}) ([]interface{}, error) {
+	r.slot = name
 	r.req = &protoRpcRequest{
 		Index:      r.index,
 		Slot:       name,
@@ -53,6 +57,7 @@ func (r *rpc) callWithResult(dock *dock, name string, method string, args ...int
 		WithResult: true,
 	}
 
+	dock.addRpc(r)
 	dock.commit(r)
 
 	ret := <-r.ret
-- 
2.43.0


From 02ab6fe13078467dd21b6b24bd194d430b7d2909 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 10/32] fix: keep the hub's socket the first one of a dock

It was appended after dialing, when the response of the hub could already have
appended the listening socket, and queries then went to other docks.
---
 dock.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dock.go b/dock.go
index e84c359..3d1a631 100644
--- a/dock.go
+++ b/dock.go
@@ -197,9 +197,10 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 func (d *dock) run(hubAddr string) {
 	network.ExtendSerializer("ferry", newSerializer())
 
+	// NOTE: Must be in the list before any response from hub appends another one.
 	socket := network.NewSocket(hubAddr, "ferry", d)
-	socket.Dial()
 	d.sockets = append(d.sockets, socket)
+	socket.Dial()
 }
 
 func (d *dock) collect() []string {
-- 
2.43.0


From 1930670f2828a8f601acc2ed5ee6a8fa3a2b3792 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 11/32] fix: guard the serializers

Docks and hubs started concurrently wrote the map without a lock and crashed
with 'concurrent map writes'.
---
 network/API.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/network/API.go b/network/API.go
index c33d905..302dadc 100644
--- a/network/API.go
+++ b/network/API.go
@@ -70,7 +70,7 @@ func NewSocket(addr string, serializer string, sink ISocketSink) ISocket {
 	})
 	s := new(socket)
 	s.addr = addr
-	s.serializer = serializers[serializer]
+	s.serializer = findSerializer(serializer)
 	s.sink = sink
 
 	return s
@@ -84,10 +84,21 @@ func Mock(network string) {
 
 // ExtendSerializer extend serializer type with name and handling object.
 func ExtendSerializer(name string, serializer ISerializer) {
+	serializersMutex.Lock()
+	defer serializersMutex.Unlock()
+
 	serializers[name] = serializer
 }
 
+func findSerializer(name string) ISerializer {
+	serializersMutex.Lock()
+	defer serializersMutex.Unlock()
+
+	return serializers[name]
+}
+
 var (
-	serializers map[string]ISerializer = make(map[string]ISerializer)
-	once        sync.Once
+	serializersMutex sync.Mutex
+	serializers      map[string]ISerializer = make(map[string]ISerializer)
+	once             sync.Once
 )
-- 
2.43.0


From 6da7cd01099df3fdca48c06d06a4d403298d8c8d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 12/32] fix: guard the visitors of a slot

A feature visits others from its start routine and from the routine running its
methods; without a lock that killed the process ('concurrent map writes').
---
 slot.go | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/slot.go b/slot.go
index e97030f..3cbb96e 100644
--- a/slot.go
+++ b/slot.go
@@ -29,22 +29,39 @@ func newSlot(name string, feature interface{}, discoverable bool) ISlot {
 }
 
 type slot struct {
-	feature      IFeature
-	discoverable bool
-	callee       chancall.ICallee
-	dock         *dock
-	visiters     map[string]interface{}
-	closeSig     chan bool
-	wg           sync.WaitGroup
+	feature       IFeature
+	discoverable  bool
+	callee        chancall.ICallee
+	dock          *dock
+	visitersMutex sync.Mutex
+	visiters      map[string]interface{}
+	closeSig      chan bool
+	wg            sync.WaitGroup
 }
 
 func (s *slot) Visit(name string) interface{} {
-	visitor := s.visiters[name]
-	if nil == visitor {
-		var ok bool
-		if visitor, ok = tryMake(name, s); ok {
-			s.visiters[name] = visitor
-		}
+	if visitor := s.visited(name, nil); nil != visitor {
+		return visitor
+	}
+
+	if visitor, ok := tryMake(name, s); ok {
+		return s.visited(name, visitor)
+	}
+
+	return nil
+}
+
+// visited returns the cached visitor of name, and caches visitor if there is none.
+func (s *slot) visited(name string, visitor interface{}) interface{} {
+	s.visitersMutex.Lock()
+	defer s.visitersMutex.Unlock()
+
+	if cached := s.visiters[name]; nil != cached {
+		return cached
+	}
+
+	if nil != visitor {
+		s.visiters[name] = visitor
 	}
 
 	return visitor
-- 
2.43.0


From 37c68d5269e18188e56c7a4a41543cc498078479 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 13/32] fix: don't drop packets of a burst

Send silently dropped every packet that found 20 others waiting. For a call
request or response that means that the caller waits forever, e.g. when more
than 20 calls wait for a feature that becomes available.
---
 network/peer.go | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/network/peer.go b/network/peer.go
index d7fae50..b1fa042 100644
--- a/network/peer.go
+++ b/network/peer.go
@@ -11,7 +11,6 @@ import (
 )
 
 const (
-	cSendChanSize  int = 20
 	cRecvBytesSize int = 1024 * 10
 )
 
@@ -21,7 +20,7 @@ func newPeer(conn net.Conn, serializer ISerializer, sink ISocketSink, self bool)
 	p.serializer = serializer
 	p.sink = sink
 	p.self = self
-	p.sendPackets = make(chan interface{}, cSendChanSize)
+	p.sendCond = sync.NewCond(&p.sendMutex)
 	p.recvBytes = make([]byte, cRecvBytesSize)
 	p.recvBuffer = new(bytes.Buffer)
 
@@ -34,7 +33,10 @@ type peer struct {
 	serializer  ISerializer
 	sink        ISocketSink
 	self        bool
-	sendPackets chan interface{}
+	sendMutex   sync.Mutex
+	sendCond    *sync.Cond
+	sendPackets []interface{}
+	sendStopped bool
 	recvBytes   []byte
 	recvBuffer  *bytes.Buffer
 }
@@ -52,18 +54,47 @@ func (p *peer) RemoteAddr() net.Addr {
 }
 
 func (p *peer) Send(obj interface{}) {
-	if len(p.sendPackets) == cap(p.sendPackets) {
+	p.sendMutex.Lock()
+	defer p.sendMutex.Unlock()
+
+	if p.sendStopped {
 		return
 	}
 
-	p.sendPackets <- obj
+	p.sendPackets = append(p.sendPackets, obj)
+	p.sendCond.Signal()
+}
+
+// nextPacket waits for the next packet to send.
+func (p *peer) nextPacket() interface{} {
+	p.sendMutex.Lock()
+	defer p.sendMutex.Unlock()
+
+	for len(p.sendPackets) == 0 {
+		p.sendCond.Wait()
+	}
+
+	packet := p.sendPackets[0]
+	p.sendPackets = p.sendPackets[1:]
+	return packet
+}
+
+// stopSend discards all packets not sent yet and further ones.
+func (p *peer) stopSend() {
+	p.sendMutex.Lock()
+	defer p.sendMutex.Unlock()
+
+	p.sendStopped = true
+	p.sendPackets = nil
 }
 
 func (p *peer) run() {
 	// Send routine
 	go func() {
+		defer p.stopSend()
+
 		for {
-			packet := <-p.sendPackets
+			packet := p.nextPacket()
 			if nil == packet || nil == p.conn {
 				break
 			}
-- 
2.43.0


From 8b691eaf0a1697d71dfbf8e7f2ea28554da5334e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:47:42 +0000
Subject: [PATCH 14/32] fix: tell the sink when the other side closes a
 connection

OnClosed was only called for a local close. The sink is also read under the
lock now: a packet arriving while the socket was closed called a nil sink.
---
 network/peer.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/network/peer.go b/network/peer.go
index b1fa042..c0ebd71 100644
--- a/network/peer.go
+++ b/network/peer.go
@@ -109,6 +109,9 @@ func (p *peer) run() {
 
 	// Recv routine
 	go func() {
+		// The connection is closed, maybe by the other side.
+		defer p.close()
+
 		for {
 			size, err := p.conn.Read(p.recvBytes)
 			if nil != err {
@@ -123,23 +126,31 @@ func (p *peer) run() {
 				}
 
 				obj := p.serializer.Unmarshal(slice)
-				if nil != p.sink {
-					p.sink.OnPacket(p, obj)
+				if sink := p.currentSink(); nil != sink {
+					sink.OnPacket(p, obj)
 				}
 			}
 		}
 	}()
 }
 
-func (p *peer) close() {
+func (p *peer) currentSink() ISocketSink {
 	p.Lock()
 	defer p.Unlock()
 
+	return p.sink
+}
+
+func (p *peer) close() {
 	p.Send(nil)
 
-	if nil != p.sink {
-		p.sink.OnClosed(p)
-		p.sink = nil
+	p.Lock()
+	sink := p.sink
+	p.sink = nil
+	p.Unlock()
+
+	if nil != sink {
+		sink.OnClosed(p)
 	}
 
 	p.conn.Close()
-- 
2.43.0


From fe8a81ff87a9603157a0ef720c3c6668f4537555 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 15/32] fix: close connections made while a socket is being
 closed

A connection accepted or dialed, or a listener opened, while the socket was
closed was never closed, and the list of peers was changed without a lock.
---
 network/socket.go | 65 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 8 deletions(-)

diff --git a/network/socket.go b/network/socket.go
index be2a02a..e81f22b 100644
--- a/network/socket.go
+++ b/network/socket.go
@@ -7,15 +7,18 @@ package network
 import (
 	"log"
 	"net"
+	"sync"
 )
 
 type socket struct {
+	mutex      sync.Mutex
 	net        inet
 	sink       ISocketSink
 	addr       string
 	listener   net.Listener
 	serializer ISerializer
 	peers      []*peer
+	closed     bool
 }
 
 func (s *socket) Listen() {
@@ -26,22 +29,30 @@ func (s *socket) Listen() {
 		return
 	}
 
-	s.listener, err = s.net.Listen("tcp", s.addr)
+	listener, err := s.net.Listen("tcp", s.addr)
 	if nil != err {
 		log.Fatal(err)
 		return
 	}
 
+	if !s.setListener(listener) {
+		listener.Close()
+		return
+	}
+
 	go func() {
 		for {
-			conn, err := s.listener.Accept()
+			conn, err := listener.Accept()
 			if nil != err {
 				log.Println(err)
 				return
 			}
 
 			peer := newPeer(conn, s.serializer, s.sink, false)
-			s.peers = append(s.peers, peer)
+			if !s.addPeer(peer) {
+				conn.Close()
+				return
+			}
 
 			if nil != s.sink {
 				s.sink.OnConnected(peer)
@@ -72,7 +83,10 @@ func (s *socket) Dial() {
 	}
 
 	peer := newPeer(conn, s.serializer, s.sink, true)
-	s.peers = append(s.peers, peer)
+	if !s.addPeer(peer) {
+		conn.Close()
+		return
+	}
 
 	if nil != s.sink {
 		s.sink.OnConnected(peer)
@@ -82,19 +96,54 @@ func (s *socket) Dial() {
 }
 
 func (s *socket) Close() {
+	s.mutex.Lock()
+	peers := s.peers
+	s.peers = nil
+	s.closed = true
 	// NOTE: Only close listener, but not set to nil
-	if nil != s.listener {
-		s.listener.Close()
+	listener := s.listener
+	s.mutex.Unlock()
+
+	if nil != listener {
+		listener.Close()
 	}
 
-	for _, peer := range s.peers {
+	for _, peer := range peers {
 		peer.close()
 	}
-	s.peers = nil
 }
 
 func (s *socket) Send(obj interface{}) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
 	for _, peer := range s.peers {
 		peer.Send(obj)
 	}
 }
+
+// setListener keeps the listener, if the socket isn't closed meanwhile.
+func (s *socket) setListener(listener net.Listener) bool {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
+	if s.closed {
+		return false
+	}
+
+	s.listener = listener
+	return true
+}
+
+// addPeer adds a peer of a new connection, if the socket isn't closed meanwhile.
+func (s *socket) addPeer(p *peer) bool {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
+	if s.closed {
+		return false
+	}
+
+	s.peers = append(s.peers, p)
+	return true
+}
-- 
2.43.0


From 9d8f3961f91dd817c77a434d938f1beeb776dcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 16/32] fix: don't crash or leak connections when a dock is
 closed while in use

A call made after closing indexed the emptied list of sockets and killed the
process; calls waiting for a response hung forever; a connection being made
to another dock was never closed.
---
 dock.go | 72 ++++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 8 deletions(-)

diff --git a/dock.go b/dock.go
index 3d1a631..e95e23f 100644
--- a/dock.go
+++ b/dock.go
@@ -33,7 +33,9 @@ func newDock(name string, slots ...ISlot) *dock {
 
 type dock struct {
 	name             string
+	socketsMutex     sync.Mutex
 	sockets          []network.ISocket // socket at index 0 is hub.
+	closed           bool
 	slots            map[string]*slot
 	remoteSlotsMutex sync.Mutex
 	remoteSlots      map[string]network.IPeer
@@ -47,10 +49,17 @@ func (d *dock) Close() {
 	}
 	d.slots = nil
 
-	for i := len(d.sockets) - 1; i >= 0; i-- {
-		d.sockets[i].Close()
+	d.socketsMutex.Lock()
+	sockets := d.sockets
+	d.sockets = nil
+	d.closed = true
+	d.socketsMutex.Unlock()
+
+	for i := len(sockets) - 1; i >= 0; i-- {
+		sockets[i].Close()
 	}
-	d.sockets = d.sockets[:0]
+
+	d.failRpcs()
 }
 
 func (d *dock) OnConnected(peer network.IPeer) {
@@ -117,8 +126,10 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 			resp := pack.P.(*protoRegisterResponse)
 			listenAddr := fmt.Sprintf("0.0.0.0:%d", resp.Port)
 			socket := network.NewSocket(listenAddr, "ferry", d)
+			if !d.addSocket(socket) {
+				return
+			}
 			socket.Listen()
-			d.sockets = append(d.sockets, socket)
 
 			// Send DockReadyRequest to Hub.
 			peer.Send(&packer{
@@ -134,8 +145,10 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 		{
 			resp := pack.P.(*protoQueryResponse)
 			socket := network.NewSocket(resp.DockAddr, "ferry", d)
+			if !d.addSocket(socket) {
+				return
+			}
 			socket.Dial()
-			d.sockets = append(d.sockets, socket)
 		}
 	case cRpcRequest:
 		{
@@ -199,10 +212,37 @@ func (d *dock) run(hubAddr string) {
 
 	// NOTE: Must be in the list before any response from hub appends another one.
 	socket := network.NewSocket(hubAddr, "ferry", d)
-	d.sockets = append(d.sockets, socket)
+	if !d.addSocket(socket) {
+		return
+	}
 	socket.Dial()
 }
 
+// addSocket adds a socket, if the dock isn't closed meanwhile.
+func (d *dock) addSocket(socket network.ISocket) bool {
+	d.socketsMutex.Lock()
+	defer d.socketsMutex.Unlock()
+
+	if d.closed {
+		return false
+	}
+
+	d.sockets = append(d.sockets, socket)
+	return true
+}
+
+// hubSocket returns the socket connected to hub, or nil if the dock is closed.
+func (d *dock) hubSocket() network.ISocket {
+	d.socketsMutex.Lock()
+	defer d.socketsMutex.Unlock()
+
+	if len(d.sockets) == 0 {
+		return nil
+	}
+
+	return d.sockets[0]
+}
+
 func (d *dock) collect() []string {
 	ids := make([]string, 0)
 	for id, v := range d.slots {
@@ -245,9 +285,25 @@ func (d *dock) addRpc(rpc *rpc) {
 	d.rpcsMutex.Lock()
 	defer d.rpcsMutex.Unlock()
 
+	if nil == d.rpcs {
+		rpc.callback(&ret{err: errors.New("Dock is closed!")})
+		return
+	}
+
 	d.rpcs[rpc.index] = rpc
 }
 
+// failRpcs lets all waiting and further rpcs fail, because the dock is closed.
+func (d *dock) failRpcs() {
+	d.rpcsMutex.Lock()
+	defer d.rpcsMutex.Unlock()
+
+	for _, r := range d.rpcs {
+		r.callback(&ret{err: errors.New("Dock is closed!")})
+	}
+	d.rpcs = nil
+}
+
 // takeRpc removes and returns the rpc waiting for the response with index.
 func (d *dock) takeRpc(index int64) *rpc {
 	d.rpcsMutex.Lock()
@@ -289,8 +345,8 @@ func (d *dock) commit(rpc *rpc) {
 			P:  rpc.req,
 		})
 		rpc.req = nil
-	} else {
-		d.sockets[0].Send(&packer{
+	} else if hub := d.hubSocket(); nil != hub {
+		hub.Send(&packer{
 			Id: cQueryRequest,
 			P: &protoQueryRequest{
 				Slot: rpc.req.Slot,
-- 
2.43.0


From a76f1433dc427c01de3fee5e35d8af8ab831bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:49:13 +0000
Subject: [PATCH 17/32] fix: close every instance started, also concurrently

Instances were added to the list without a lock and only after they had started,
so one started concurrently, or closed right after its features had started, was
never closed.
---
 ferry.go   |  6 ++++--
 runtime.go | 24 +++++++++++++++++++-----
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/ferry.go b/ferry.go
index b042456..6fce433 100644
--- a/ferry.go
+++ b/ferry.go
@@ -32,15 +32,17 @@ type ISlot interface {
 // all features running in this dock.
 func Startup(hubAddr string, dockName string, slots ...ISlot) {
 	dock := newDock(dockName, slots...)
+	track(dock)
 	dock.run(hubAddr)
-	wait(dock)
+	wait()
 }
 
 // Serve run a hub with addr, black list for ports to avoid allocing to docks.
 func Serve(hubAddr string, blackPorts ...int) {
 	hub := newHub()
+	track(hub)
 	hub.run(hubAddr, blackPorts...)
-	wait(hub)
+	wait()
 }
 
 // Close all containers including hub or dock.
diff --git a/runtime.go b/runtime.go
index 80428ab..31e3fc9 100644
--- a/runtime.go
+++ b/runtime.go
@@ -8,17 +8,27 @@ import (
 	"log"
 	"os"
 	"os/signal"
+	"sync"
 )
 
 type instance interface {
 	Close()
 }
 
-var insts []instance = make([]instance, 0)
+var (
+	instsMutex sync.Mutex
+	insts      []instance = make([]instance, 0)
+)
+
+// track adds an instance to close. It must be called before the instance runs.
+func track(inst instance) {
+	instsMutex.Lock()
+	defer instsMutex.Unlock()
 
-func wait(inst instance) {
 	insts = append(insts, inst)
+}
 
+func wait() {
 	c := make(chan os.Signal, 1)
 	signal.Notify(c, os.Interrupt, os.Kill)
 	sig := <-c
@@ -27,8 +37,12 @@ func wait(inst instance) {
 }
 
 func destroy() {
-	for i := len(insts) - 1; i >= 0; i-- {
-		insts[i].Close()
+	instsMutex.Lock()
+	closing := insts
+	insts = make([]instance, 0)
+	instsMutex.Unlock()
+
+	for i := len(closing) - 1; i >= 0; i-- {
+		closing[i].Close()
 	}
-	insts = insts[:0]
 }
-- 
2.43.0


From a312e6a8f8c1038401f0babf22dea5ed7b68c7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:50:27 +0000
Subject: [PATCH 18/32] fix: don't crash or spin when a hub is closed while in
 use

---
 hub.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/hub.go b/hub.go
index df51a2c..c31d4b0 100644
--- a/hub.go
+++ b/hub.go
@@ -29,6 +29,7 @@ func newHub() *hub {
 
 type hub struct {
 	socket           network.ISocket
+	closed           bool
 	docksMutex       sync.Mutex
 	docks            map[string]*list.List
 	assignPortsMutex sync.Mutex
@@ -43,11 +44,14 @@ type stub struct {
 }
 
 func (h *hub) Close() {
-	h.socket.Close()
-	h.socket = nil
-	h.docks = nil
-	h.assignPorts = nil
-	h.blackPorts = nil
+	h.docksMutex.Lock()
+	socket := h.socket
+	h.closed = true
+	h.docksMutex.Unlock()
+
+	if nil != socket {
+		socket.Close()
+	}
 }
 
 func (h *hub) OnConnected(peer network.IPeer) {
@@ -113,7 +117,12 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 				for {
 					h.docksMutex.Lock()
 					docks, ok := h.docks[req.Slot]
+					closed := h.closed
 					h.docksMutex.Unlock()
+					if closed {
+						return
+					}
+
 					if ok {
 						// Loop from back to front, means the 'new' one will
 						// be serve at first.
@@ -138,8 +147,15 @@ func (h *hub) run(hubAddr string, blackPorts ...int) {
 
 	network.ExtendSerializer("seek", newSerializer())
 
-	h.socket = network.NewSocket(hubAddr, "seek", h)
-	h.socket.Listen()
+	socket := network.NewSocket(hubAddr, "seek", h)
+	h.docksMutex.Lock()
+	h.socket = socket
+	closed := h.closed
+	h.docksMutex.Unlock()
+
+	if !closed {
+		socket.Listen()
+	}
 }
 
 func (h *hub) allocate(addr string) int {
-- 
2.43.0


From c7950bf5cfcd440920909c2b5c899932d6e3e368 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 19/32] fix: don't answer queries with docks that are gone

---
 hub.go | 52 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/hub.go b/hub.go
index c31d4b0..d9da728 100644
--- a/hub.go
+++ b/hub.go
@@ -59,7 +59,19 @@ func (h *hub) OnConnected(peer network.IPeer) {
 }
 
 func (h *hub) OnClosed(peer network.IPeer) {
+	// The dock is gone, don't tell others about it any more.
+	h.docksMutex.Lock()
+	defer h.docksMutex.Unlock()
 
+	for _, stubs := range h.docks {
+		for i := stubs.Front(); i != nil; {
+			next := i.Next()
+			if i.Value.(*stub).peer == peer {
+				stubs.Remove(i)
+			}
+			i = next
+		}
+	}
 }
 
 func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
@@ -98,7 +110,6 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 			for _, slot := range req.Slots {
 				h.docksMutex.Lock()
 				stubs, ok := h.docks[slot]
-				h.docksMutex.Unlock()
 				if ok {
 					for i := stubs.Front(); i != nil; i = i.Next() {
 						stub := i.Value.(*stub)
@@ -108,6 +119,7 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 						}
 					}
 				}
+				h.docksMutex.Unlock()
 			}
 		}
 	case cQueryRequest:
@@ -115,24 +127,14 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 			go func() {
 				req := pack.P.(*protoQueryRequest)
 				for {
-					h.docksMutex.Lock()
-					docks, ok := h.docks[req.Slot]
-					closed := h.closed
-					h.docksMutex.Unlock()
+					addr, closed := h.provider(req.Slot)
 					if closed {
 						return
 					}
 
-					if ok {
-						// Loop from back to front, means the 'new' one will
-						// be serve at first.
-						for i := docks.Back(); i != nil; i = i.Prev() {
-							stub := i.Value.(*stub)
-							if stub.ready {
-								h.respondQueryImme(peer, stub.addr)
-								return
-							}
-						}
+					if "" != addr {
+						h.respondQueryImme(peer, addr)
+						return
 					}
 				}
 			}()
@@ -184,6 +186,26 @@ func (h *hub) allocate(addr string) int {
 	return port
 }
 
+// provider returns the address of the newest dock that is ready to provide slot, and
+// whether the hub is closed.
+func (h *hub) provider(slot string) (addr string, closed bool) {
+	h.docksMutex.Lock()
+	defer h.docksMutex.Unlock()
+
+	if docks, ok := h.docks[slot]; ok {
+		// Loop from back to front, means the 'new' one will
+		// be serve at first.
+		for i := docks.Back(); i != nil; i = i.Prev() {
+			stub := i.Value.(*stub)
+			if stub.ready {
+				return stub.addr, h.closed
+			}
+		}
+	}
+
+	return "", h.closed
+}
+
 func (h *hub) respondQueryImme(peer network.IPeer, dockAddr string) {
 	resp := &packer{
 		Id: cQueryResponse,
-- 
2.43.0


From 2b3c7fa19c8058d84e429e663180c5f913eb6ddd Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 20/32] fix: don't keep using a dock that is gone, and fail the
 calls sent to it

---
 dock.go | 21 +++++++++++++++++++++
 rpc.go  |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/dock.go b/dock.go
index e95e23f..625058d 100644
--- a/dock.go
+++ b/dock.go
@@ -80,6 +80,26 @@ func (d *dock) OnConnected(peer network.IPeer) {
 }
 
 func (d *dock) OnClosed(peer network.IPeer) {
+	d.remoteSlotsMutex.Lock()
+	defer d.remoteSlotsMutex.Unlock()
+
+	// The other dock is gone, look for another one at the next call.
+	for name, p := range d.remoteSlots {
+		if p == peer {
+			delete(d.remoteSlots, name)
+		}
+	}
+
+	// There will be no response to the requests it got.
+	d.rpcsMutex.Lock()
+	defer d.rpcsMutex.Unlock()
+
+	for index, r := range d.rpcs {
+		if r.peer == peer {
+			delete(d.rpcs, index)
+			r.callback(&ret{err: errors.New("Connection is closed!")})
+		}
+	}
 }
 
 func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
@@ -345,6 +365,7 @@ func (d *dock) commit(rpc *rpc) {
 			P:  rpc.req,
 		})
 		rpc.req = nil
+		rpc.peer = peer
 	} else if hub := d.hubSocket(); nil != hub {
 		hub.Send(&packer{
 			Id: cQueryRequest,
diff --git a/rpc.go b/rpc.go
index d529426..06c64ed 100644
--- a/rpc.go
+++ b/rpc.go
@@ -7,6 +7,8 @@ package ferry
 import (
 	"sync/atomic"
 	"time"
+
+	"github.com/muguangyi/ferry/network"
 )
 
 // The last used rpc index.
@@ -20,6 +22,7 @@ type rpc struct {
 	index int64
 	slot  string
 	req   *protoRpcRequest
+	peer  network.IPeer // got req, if sent.
 	ret   chan *ret
 }
 
-- 
2.43.0


From 7c6b6fde2d613d56bd28e8ff05da06bcf9bbb300 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 21/32] fix: don't spin while a query waits for a provider

---
 hub.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hub.go b/hub.go
index d9da728..d460862 100644
--- a/hub.go
+++ b/hub.go
@@ -10,6 +10,7 @@ import (
 	"log"
 	"strings"
 	"sync"
+	"time"
 
 	"github.com/muguangyi/ferry/network"
 )
@@ -136,6 +137,9 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 						h.respondQueryImme(peer, addr)
 						return
 					}
+
+					// Don't keep a processor busy until there is a provider.
+					time.Sleep(time.Millisecond)
 				}
 			}()
 		}
-- 
2.43.0


From f92420007ae0ac19c0b3c50b60a12f8b9c1aa53c Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 22/32] fix: support docks connecting by IPv6

---
 dock.go |  2 +-
 hub.go  | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/dock.go b/dock.go
index 625058d..76c43cb 100644
--- a/dock.go
+++ b/dock.go
@@ -144,7 +144,7 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 		{
 			// Get the port that Hub alloced and start to listen as a server.
 			resp := pack.P.(*protoRegisterResponse)
-			listenAddr := fmt.Sprintf("0.0.0.0:%d", resp.Port)
+			listenAddr := fmt.Sprintf(":%d", resp.Port)
 			socket := network.NewSocket(listenAddr, "ferry", d)
 			if !d.addSocket(socket) {
 				return
diff --git a/hub.go b/hub.go
index d460862..6470751 100644
--- a/hub.go
+++ b/hub.go
@@ -6,9 +6,9 @@ package ferry
 
 import (
 	"container/list"
-	"fmt"
 	"log"
-	"strings"
+	"net"
+	"strconv"
 	"sync"
 	"time"
 
@@ -85,7 +85,7 @@ func (h *hub) OnPacket(peer network.IPeer, obj interface{}) {
 			addr := pickIP(peer.RemoteAddr().String())
 			port := h.allocate(addr)
 
-			addr = fmt.Sprintf("%s:%d", addr, port)
+			addr = net.JoinHostPort(addr, strconv.Itoa(port))
 			for _, v := range req.Slots {
 				h.docksMutex.Lock()
 				stubs, ok := h.docks[v]
@@ -221,6 +221,10 @@ func (h *hub) respondQueryImme(peer network.IPeer, dockAddr string) {
 }
 
 func pickIP(addr string) string {
-	info := strings.Split(addr, ":")
-	return info[0]
+	host, _, err := net.SplitHostPort(addr)
+	if nil != err {
+		return addr
+	}
+
+	return host
 }
-- 
2.43.0


From 1d647825590da2ede9e7b6797233fc6c2de304eb Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 23/32] fix: don't lose data, block or crash in the mock
 network

---
 network/mock.go | 182 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 123 insertions(+), 59 deletions(-)

diff --git a/network/mock.go b/network/mock.go
index e00f205..fd386f7 100644
--- a/network/mock.go
+++ b/network/mock.go
@@ -34,7 +34,7 @@ func (n *netMockTcp) Listen(network string, address string) (net.Listener, error
 			address: address,
 		},
 		chanconn: make(chan *conn, 1),
-		conns:    make(map[string]*conn),
+		closed:   make(chan bool),
 	}
 	listenersMutex.Lock()
 	listeners[address] = listener
@@ -44,49 +44,49 @@ func (n *netMockTcp) Listen(network string, address string) (net.Listener, error
 }
 
 func (n *netMockTcp) Dial(network string, address string) (net.Conn, error) {
-	c := newConn()
-	connected := make(chan bool, 1)
-	go func() {
-		address = formatAddr(address)
-		timeout := 1 * time.Second
-		for {
-			if 0 == c.status {
-				listener := listeners[address]
-				if nil != listener {
-					vport += 1
-					c.status = 1
-					c.localAddr.network = network
-					c.localAddr.address = fmt.Sprintf("0.0.0.0:%d", vport)
-					c.remoteAddr = listener.address
-					listener.chanconn <- c
-				}
-			} else if 2 == c.status {
-				break
-			} else if timeout <= 0 {
-				c.status = -1
-				break
+	address = formatAddr(address)
+	timeout := 1 * time.Second
+	for {
+		listener, port := findListener(address)
+		if nil != listener {
+			c := newConn()
+			c.localAddr.network = network
+			c.localAddr.address = fmt.Sprintf("0.0.0.0:%d", port)
+			c.remoteAddr = listener.address
+			if listener.connect(c, timeout) {
+				return c, nil
 			}
 
-			timeout -= time.Microsecond
-			time.Sleep(time.Microsecond)
+			break
+		} else if timeout <= 0 {
+			break
 		}
 
-		connected <- (2 == c.status)
-	}()
+		timeout -= time.Microsecond
+		time.Sleep(time.Microsecond)
+	}
 
-	succ := <-connected
-	if succ {
-		return c, nil
-	} else {
-		return nil, errors.New("Can't connect server")
+	return nil, errors.New("Can't connect server")
+}
+
+// findListener returns the listener of address, and a new virtual port to connect it.
+func findListener(address string) (*listener, int) {
+	listenersMutex.Lock()
+	defer listenersMutex.Unlock()
+
+	listener := listeners[address]
+	if nil != listener {
+		vport += 1
 	}
+
+	return listener, vport
 }
 
 func reset() {
 	listenersMutex.Lock()
 	listeners = make(map[string]*listener)
-	listenersMutex.Unlock()
 	vport = 65535
+	listenersMutex.Unlock()
 }
 
 func formatAddr(addr string) string {
@@ -97,31 +97,62 @@ func formatAddr(addr string) string {
 type listener struct {
 	address  *addr
 	chanconn chan *conn
-	conns    map[string]*conn
+	closed   chan bool
+	once     sync.Once
 }
 
 func (l *listener) Accept() (net.Conn, error) {
-	inconn := <-l.chanconn
-	if nil == inconn {
+	select {
+	case inconn := <-l.chanconn:
+		c := newConn()
+		c.localAddr = l.address
+		c.remoteAddr = inconn.localAddr
+		c.peer = inconn
+
+		inconn.peer = c
+		close(inconn.accepted)
+
+		return c, nil
+	case <-l.closed:
 		return nil, fmt.Errorf("Listener closed!")
 	}
+}
 
-	c := newConn()
-	c.localAddr = l.address
-	c.remoteAddr = inconn.localAddr
-	c.peer = inconn
-
-	inconn.peer = c
-	inconn.status = 2
+// connect lets the listener accept c.
+func (l *listener) connect(c *conn, timeout time.Duration) bool {
+	timer := time.NewTimer(timeout)
+	defer timer.Stop()
+
+	select {
+	case l.chanconn <- c:
+	case <-l.closed:
+		return false
+	case <-timer.C:
+		return false
+	}
 
-	l.conns[inconn.localAddr.String()] = inconn
+	select {
+	case <-c.accepted:
+		return true
+	case <-l.closed:
+	case <-timer.C:
+	}
 
-	return c, nil
+	// Maybe it's accepted now.
+	c.Close()
+	return false
 }
 
 func (l *listener) Close() error {
-	l.chanconn <- nil
-	l.conns = nil
+	l.once.Do(func() {
+		close(l.closed)
+
+		listenersMutex.Lock()
+		if listeners[l.address.address] == l {
+			delete(listeners, l.address.address)
+		}
+		listenersMutex.Unlock()
+	})
 
 	return nil
 }
@@ -132,43 +163,76 @@ func (l *listener) Addr() net.Addr {
 
 func newConn() *conn {
 	c := new(conn)
-	c.status = 0
 	c.localAddr = new(addr)
 	c.remoteAddr = new(addr)
+	c.accepted = make(chan bool)
+	c.closed = make(chan bool)
 	c.chanbuf = make(chan []byte, 1)
 
 	return c
 }
 
 type conn struct {
-	status     int
 	localAddr  *addr
 	remoteAddr *addr
 	peer       *conn
+	accepted   chan bool
+	closed     chan bool
+	once       sync.Once
 	chanbuf    chan []byte
+	rest       []byte // received, but not read yet.
 }
 
 func (c *conn) Read(b []byte) (n int, err error) {
-	bytes := <-c.chanbuf
-	if nil == bytes {
-		return 0, fmt.Errorf("Target peer is closed!")
-	} else {
-		return copy(b, bytes), nil
+	if 0 == len(c.rest) {
+		select {
+		case <-c.closed:
+			return 0, fmt.Errorf("Conn is closed!")
+		default:
+		}
+
+		select {
+		case c.rest = <-c.chanbuf:
+		case <-c.closed:
+			return 0, fmt.Errorf("Conn is closed!")
+		case <-c.peer.closed:
+			select {
+			case c.rest = <-c.chanbuf:
+			default:
+				return 0, fmt.Errorf("Target peer is closed!")
+			}
+		}
 	}
+
+	n = copy(b, c.rest)
+	c.rest = c.rest[n:]
+	return n, nil
 }
 
 func (c *conn) Write(b []byte) (n int, err error) {
-	if nil != c.peer {
-		c.peer.chanbuf <- b
+	select {
+	case <-c.closed:
+		return 0, fmt.Errorf("Conn is closed!")
+	case <-c.peer.closed:
+		return 0, fmt.Errorf("Target peer is closed!")
+	default:
+	}
+
+	select {
+	case c.peer.chanbuf <- append([]byte(nil), b...):
 		return len(b), nil
-	} else {
-		return 0, fmt.Errorf("Conn is nil!")
+	case <-c.closed:
+		return 0, fmt.Errorf("Conn is closed!")
+	case <-c.peer.closed:
+		return 0, fmt.Errorf("Target peer is closed!")
 	}
 }
 
 func (c *conn) Close() error {
-	c.Write(nil)
-	c.peer = nil
+	c.once.Do(func() {
+		close(c.closed)
+	})
+
 	return nil
 }
 
-- 
2.43.0


From c295dbe72df669a120e9680434dc0b8037b481ab Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 24/32] fix: generate proxies with results of type string, byte
 or rune

---
 tool/ferry.gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tool/ferry.gen.go b/tool/ferry.gen.go
index 5717eb0..410ee98 100644
--- a/tool/ferry.gen.go
+++ b/tool/ferry.gen.go
@@ -11,13 +11,13 @@ import (
 	"go/format"
 	"go/parser"
 	"go/token"
-	"html/template"
 	"io/ioutil"
 	"log"
 	"os"
 	"path"
 	"path/filepath"
 	"strings"
+	"text/template"
 	"time"
 )
 
@@ -201,6 +201,10 @@ func genProxyCode(targets []*astTarget) (data []byte, ok bool) {
 			return "0"
 		case "float64":
 			return "0"
+		case "byte", "rune", "uintptr":
+			return "0"
+		case "string":
+			return "\"\""
 		default:
 			return "nil"
 		}
-- 
2.43.0


From df74db6a5a78d8a3b5fb46d1e1783c2925373490 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 25/32] fix: generate proxies with grouped, unnamed or clashing
 parameters

---
 tool/ferry.gen.go | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/tool/ferry.gen.go b/tool/ferry.gen.go
index 410ee98..6b9e762 100644
--- a/tool/ferry.gen.go
+++ b/tool/ferry.gen.go
@@ -7,6 +7,7 @@ package main
 import (
 	"bytes"
 	"flag"
+	"fmt"
 	"go/ast"
 	"go/format"
 	"go/parser"
@@ -126,33 +127,13 @@ func parseFile(file string, decl *ast.GenDecl) (target *astTarget, ok bool) {
 		ftype, _ := field.Type.(*ast.FuncType)
 
 		if nil != ftype.Params {
-			m.PCount = len(ftype.Params.List)
-			if m.PCount > 0 {
-				for _, param := range ftype.Params.List {
-					m.Params = append(m.Params, &astField{
-						Name: param.Names[0].Name,
-						Type: param.Type.(*ast.Ident).Name,
-					})
-				}
-			}
+			m.Params = parseFields(ftype.Params, "arg")
+			m.PCount = len(m.Params)
 		}
 
 		if nil != ftype.Results {
-			m.RCount = len(ftype.Results.List)
-			if m.RCount > 0 {
-				for _, result := range ftype.Results.List {
-					m.Results = append(m.Results, &astField{
-						Name: func() string {
-							if len(result.Names) > 0 {
-								return result.Names[0].Name
-							}
-
-							return ""
-						}(),
-						Type: result.Type.(*ast.Ident).Name,
-					})
-				}
-			}
+			m.Results = parseFields(ftype.Results, "ret")
+			m.RCount = len(m.Results)
 		}
 
 		target.Methods[m.Name] = m
@@ -161,6 +142,22 @@ func parseFile(file string, decl *ast.GenDecl) (target *astTarget, ok bool) {
 	return
 }
 
+// parseFields returns all params or results, each with its own name made from prefix,
+// because there may be no name, or one that the generated code uses for its own.
+func parseFields(list *ast.FieldList, prefix string) []*astField {
+	fields := make([]*astField, 0)
+	for _, field := range list.List {
+		for i := 0; i < len(field.Names) || i < 1; i++ {
+			fields = append(fields, &astField{
+				Name: fmt.Sprintf("%s%d", prefix, len(fields)),
+				Type: field.Type.(*ast.Ident).Name,
+			})
+		}
+	}
+
+	return fields
+}
+
 func genProxyCode(targets []*astTarget) (data []byte, ok bool) {
 	input := map[string]interface{}{
 		"date":    time.Now().Format("2006-01-02 15:04:05"),
-- 
2.43.0


From 82e347a353dd0e5f3125b358bf086aab39934a11 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 26/32] fix: generate proxies that accept numbers from another
 dock

---
 tool/ferry.gen.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/tool/ferry.gen.go b/tool/ferry.gen.go
index 6b9e762..d667b7f 100644
--- a/tool/ferry.gen.go
+++ b/tool/ferry.gen.go
@@ -159,9 +159,17 @@ func parseFields(list *ast.FieldList, prefix string) []*astField {
 }
 
 func genProxyCode(targets []*astTarget) (data []byte, ok bool) {
+	results := false
+	for _, target := range targets {
+		for _, m := range target.Methods {
+			results = results || m.RCount > 0
+		}
+	}
+
 	input := map[string]interface{}{
 		"date":    time.Now().Format("2006-01-02 15:04:05"),
 		"targets": targets,
+		"results": results,
 	}
 
 	t, err := template.New("").Funcs(template.FuncMap{"comma": func(index int, length int) string {
@@ -261,7 +269,9 @@ const gencode = `
 package main
 
 import (
-	"github.com/muguangyi/ferry"
+	{{if .results}}"reflect"
+
+	{{end}}"github.com/muguangyi/ferry"
 )
 
 {{range $index, $target := .targets}}
@@ -279,7 +289,13 @@ func (p *{{$target.Proxy}}) {{$method.Name}}({{range $j, $param := $method.Param
 		return {{range $k, $result := $method.Results}}{{default $result.Type}}{{comma $k $method.RCount}}{{end}}
 	}{{if gt $method.RCount 0}}
 	
-	return {{range $k, $result := $method.Results}}results[{{$k}}].({{$result.Type}}){{comma $k $method.RCount}}{{end}}{{end}}
+	{{range $k, $result := $method.Results}}var {{$result.Name}} {{$result.Type}}
+	if nil != results[{{$k}}] {
+		// The type may be another one if the result is from another dock.
+		reflect.ValueOf(&{{$result.Name}}).Elem().Set(reflect.ValueOf(results[{{$k}}]).Convert(reflect.TypeOf(&{{$result.Name}}).Elem()))
+	}
+	{{end}}
+	return {{range $k, $result := $method.Results}}{{$result.Name}}{{comma $k $method.RCount}}{{end}}{{end}}
 }
 {{end}}
 // end {{$target.Name}}
-- 
2.43.0


From 6b409766424804c9ec4ffee8e198c707513fa328 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 27/32] fix: generate proxies of all interfaces in a grouped
 declaration, and skip unsupported ones

---
 tool/ferry.gen.go | 50 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/tool/ferry.gen.go b/tool/ferry.gen.go
index d667b7f..0b15b6e 100644
--- a/tool/ferry.gen.go
+++ b/tool/ferry.gen.go
@@ -84,8 +84,14 @@ func scanFile(fset *token.FileSet, file string) []*astTarget {
 			return true
 		}
 
-		if target, ok := parseFile(file, decl); ok {
-			targets = append(targets, target)
+		if token.TYPE != decl.Tok {
+			return true
+		}
+
+		for _, spec := range decl.Specs {
+			if target, ok := parseSpec(file, spec.(*ast.TypeSpec)); ok {
+				targets = append(targets, target)
+			}
 		}
 
 		return true
@@ -94,24 +100,18 @@ func scanFile(fset *token.FileSet, file string) []*astTarget {
 	return targets
 }
 
-func parseFile(file string, decl *ast.GenDecl) (target *astTarget, ok bool) {
-	if token.TYPE != decl.Tok {
-		ok = false
+func parseSpec(file string, spec *ast.TypeSpec) (target *astTarget, ok bool) {
+	itype, ok := spec.Type.(*ast.InterfaceType)
+	if !ok {
 		return
 	}
 
-	if len(decl.Specs) > 1 {
+	if !supported(itype) {
+		log.Printf("skip interface %s, it isn't supported", spec.Name.Name)
 		ok = false
 		return
 	}
 
-	spec := decl.Specs[0].(*ast.TypeSpec)
-	itype, ok := spec.Type.(*ast.InterfaceType)
-	if !ok {
-		return
-	}
-
-	ok = true
 	target = new(astTarget)
 	target.Source = file
 	target.Name = spec.Name.Name
@@ -142,6 +142,30 @@ func parseFile(file string, decl *ast.GenDecl) (target *astTarget, ok bool) {
 	return
 }
 
+// supported checks if there are only methods with params and results of simple types.
+func supported(itype *ast.InterfaceType) bool {
+	for _, field := range itype.Methods.List {
+		ftype, ok := field.Type.(*ast.FuncType)
+		if !ok || 0 == len(field.Names) {
+			return false
+		}
+
+		for _, list := range []*ast.FieldList{ftype.Params, ftype.Results} {
+			if nil == list {
+				continue
+			}
+
+			for _, f := range list.List {
+				if _, ok := f.Type.(*ast.Ident); !ok {
+					return false
+				}
+			}
+		}
+	}
+
+	return true
+}
+
 // parseFields returns all params or results, each with its own name made from prefix,
 // because there may be no name, or one that the generated code uses for its own.
 func parseFields(list *ast.FieldList, prefix string) []*astField {
-- 
2.43.0


From 340bab7ce0086552f61bd7e7f42d51980c3f4386 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 28/32] fix: look for another dock if one can't be reached,
 instead of exiting or waiting forever

---
 dock.go           | 44 ++++++++++++++++++++++++++++++++++++++++++--
 network/API.go    |  4 ++--
 network/socket.go | 12 ++++++------
 3 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/dock.go b/dock.go
index 76c43cb..b97315a 100644
--- a/dock.go
+++ b/dock.go
@@ -9,11 +9,15 @@ import (
 	"fmt"
 	"log"
 	"sync"
+	"time"
 
 	"github.com/muguangyi/ferry/chancall"
 	"github.com/muguangyi/ferry/network"
 )
 
+// Time to wait before asking again for a dock instead of one that can't be reached.
+const cRetryDelay = 50 * time.Millisecond
+
 func newDock(name string, slots ...ISlot) *dock {
 	d := new(dock)
 	d.name = name
@@ -100,6 +104,9 @@ func (d *dock) OnClosed(peer network.IPeer) {
 			r.callback(&ret{err: errors.New("Connection is closed!")})
 		}
 	}
+
+	// It may be the one that others are waiting for.
+	d.retryRpcs()
 }
 
 func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
@@ -168,7 +175,10 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 			if !d.addSocket(socket) {
 				return
 			}
-			socket.Dial()
+			if err := socket.Dial(); nil != err {
+				log.Println(err)
+				d.retryRpcs()
+			}
 		}
 	case cRpcRequest:
 		{
@@ -235,7 +245,9 @@ func (d *dock) run(hubAddr string) {
 	if !d.addSocket(socket) {
 		return
 	}
-	socket.Dial()
+	if err := socket.Dial(); nil != err {
+		log.Fatal(err)
+	}
 }
 
 // addSocket adds a socket, if the dock isn't closed meanwhile.
@@ -349,6 +361,34 @@ func (d *dock) waitingRpcs(slot string) []*rpc {
 	return rpcs
 }
 
+// retryRpcs looks again for docks to send the rpcs to that have not been sent, because
+// a dock they are waiting for can't be reached.
+func (d *dock) retryRpcs() {
+	time.AfterFunc(cRetryDelay, func() {
+		for _, r := range d.unsentRpcs() {
+			d.commit(r)
+		}
+	})
+}
+
+// unsentRpcs returns all rpcs that have not been sent to a dock yet.
+func (d *dock) unsentRpcs() []*rpc {
+	d.remoteSlotsMutex.Lock()
+	defer d.remoteSlotsMutex.Unlock()
+
+	d.rpcsMutex.Lock()
+	defer d.rpcsMutex.Unlock()
+
+	rpcs := make([]*rpc, 0)
+	for _, r := range d.rpcs {
+		if nil != r.req {
+			rpcs = append(rpcs, r)
+		}
+	}
+
+	return rpcs
+}
+
 func (d *dock) commit(rpc *rpc) {
 	d.remoteSlotsMutex.Lock()
 	defer d.remoteSlotsMutex.Unlock()
diff --git a/network/API.go b/network/API.go
index 302dadc..5d752e1 100644
--- a/network/API.go
+++ b/network/API.go
@@ -26,8 +26,8 @@ type ISocket interface {
 	// Listen for all connecting peers.
 	Listen()
 
-	// Dial to target socket.
-	Dial()
+	// Dial to target socket. Return an error if it can't be connected.
+	Dial() error
 
 	// Close the socket.
 	Close()
diff --git a/network/socket.go b/network/socket.go
index e81f22b..bdb9403 100644
--- a/network/socket.go
+++ b/network/socket.go
@@ -63,29 +63,28 @@ func (s *socket) Listen() {
 	}()
 }
 
-func (s *socket) Dial() {
+func (s *socket) Dial() error {
 	if nil == s.sink {
 		log.Fatal("Please call Init first!")
-		return
+		return nil
 	}
 
 	var err error
 	s.net, err = makeNet("tcp")
 	if nil != err {
 		log.Fatal(err)
-		return
+		return err
 	}
 
 	conn, err := s.net.Dial("tcp", s.addr)
 	if nil != err {
-		log.Fatal(err)
-		return
+		return err
 	}
 
 	peer := newPeer(conn, s.serializer, s.sink, true)
 	if !s.addPeer(peer) {
 		conn.Close()
-		return
+		return nil
 	}
 
 	if nil != s.sink {
@@ -93,6 +92,7 @@ func (s *socket) Dial() {
 	}
 
 	peer.run()
+	return nil
 }
 
 func (s *socket) Close() {
-- 
2.43.0


From 078dd4a6554853402e20d55b9716d5b623384658 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:25:26 +0000
Subject: [PATCH 29/32] fix: tell the sink of a connection before telling of
 its end, if the socket is closed meanwhile

---
 network/peer.go   |  1 +
 network/socket.go | 27 ++++++++++++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/network/peer.go b/network/peer.go
index c0ebd71..b7d5bca 100644
--- a/network/peer.go
+++ b/network/peer.go
@@ -33,6 +33,7 @@ type peer struct {
 	serializer  ISerializer
 	sink        ISocketSink
 	self        bool
+	running     bool // guarded by the mutex of its socket
 	sendMutex   sync.Mutex
 	sendCond    *sync.Cond
 	sendPackets []interface{}
diff --git a/network/socket.go b/network/socket.go
index bdb9403..383c4fc 100644
--- a/network/socket.go
+++ b/network/socket.go
@@ -58,7 +58,7 @@ func (s *socket) Listen() {
 				s.sink.OnConnected(peer)
 			}
 
-			peer.run()
+			s.runPeer(peer)
 		}
 	}()
 }
@@ -91,13 +91,19 @@ func (s *socket) Dial() error {
 		s.sink.OnConnected(peer)
 	}
 
-	peer.run()
+	s.runPeer(peer)
 	return nil
 }
 
 func (s *socket) Close() {
 	s.mutex.Lock()
-	peers := s.peers
+	// The others will be closed when the sink has been told about them.
+	peers := make([]*peer, 0, len(s.peers))
+	for _, peer := range s.peers {
+		if peer.running {
+			peers = append(peers, peer)
+		}
+	}
 	s.peers = nil
 	s.closed = true
 	// NOTE: Only close listener, but not set to nil
@@ -147,3 +153,18 @@ func (s *socket) addPeer(p *peer) bool {
 	s.peers = append(s.peers, p)
 	return true
 }
+
+// runPeer runs a peer after the sink has been told about it, or closes it if
+// the socket is closed meanwhile.
+func (s *socket) runPeer(p *peer) {
+	s.mutex.Lock()
+	running := !s.closed
+	p.running = running
+	s.mutex.Unlock()
+
+	if running {
+		p.run()
+	} else {
+		p.close()
+	}
+}
-- 
2.43.0


From db5dff02c5454918e0853bb22fa23782fddaa905 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 01:32:47 +0000
Subject: [PATCH 30/32] fix: keep the value of a codec any if decoding fails,
 so that typed access doesn't panic

---
 codec/any.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/any.go b/codec/any.go
index 6a93f5c..a895c48 100644
--- a/codec/any.go
+++ b/codec/any.go
@@ -249,12 +249,12 @@ func (a *any) Encode(writer io.Writer) error {
 }
 
 func (a *any) Decode(reader io.Reader) error {
-	var err error
-	a.s, err = decode(reader)
+	v, err := decode(reader)
 	if err != nil {
 		return err
 	}
 
+	a.s = v
 	a.normalize()
 
 	return nil
-- 
2.43.0


From 25930904a1c3c61503085cf8330437b8eb720c7e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 02:34:53 +0000
Subject: [PATCH 31/32] fix: generate distinct proxies for interfaces whose
 names differ in case only

---
 tool/ferry.gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tool/ferry.gen.go b/tool/ferry.gen.go
index 0b15b6e..ef4a671 100644
--- a/tool/ferry.gen.go
+++ b/tool/ferry.gen.go
@@ -115,7 +115,7 @@ func parseSpec(file string, spec *ast.TypeSpec) (target *astTarget, ok bool) {
 	target = new(astTarget)
 	target.Source = file
 	target.Name = spec.Name.Name
-	target.Proxy = strings.ToLower(target.Name + "proxy")
+	target.Proxy = "proxy" + target.Name
 
 	target.Methods = make(map[string]*astMethod)
 	for _, field := range itype.Methods.List {
-- 
2.43.0


From ee8ffa9e2890f246c1092807160e68c04754d31a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 03:28:24 +0000
Subject: [PATCH 32/32] fix: let calls fail whose arguments or results can't be
 sent to another dock, instead of ending the process

---
 dock.go |  6 ++++++
 rpc.go  | 15 +++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/dock.go b/dock.go
index b97315a..bc1c410 100644
--- a/dock.go
+++ b/dock.go
@@ -191,6 +191,12 @@ func (d *dock) OnPacket(peer network.IPeer, obj interface{}) {
 					var err error
 					if req.WithResult {
 						result, err = caller.CallWithResult(req.Method, req.Args...)
+						if nil == err {
+							err = encodable(result)
+						}
+						if nil != err {
+							result = nil
+						}
 					} else {
 						err = caller.Call(req.Method, req.Args...)
 					}
diff --git a/rpc.go b/rpc.go
index 06c64ed..5161d8f 100644
--- a/rpc.go
+++ b/rpc.go
@@ -5,9 +5,11 @@
 package ferry
 
 import (
+	"io/ioutil"
 	"sync/atomic"
 	"time"
 
+	"github.com/muguangyi/ferry/codec"
 	"github.com/muguangyi/ferry/network"
 )
 
@@ -32,6 +34,10 @@ type ret struct {
 }
 
 func (r *rpc) call(dock *dock, name string, method string, args ...interface{}) error {
+	if err := encodable(args); nil != err {
+		return err
+	}
+
 	r.slot = name
 	r.req = &protoRpcRequest{
 		Index:      r.index,
@@ -51,6 +57,10 @@ func (r *rpc) call(dock *dock, name string, method string, args ...interface{})
 }
 
 func (r *rpc) callWithResult(dock *dock, name string, method string, args ...interface{}) ([]interface{}, error) {
+	if err := encodable(args); nil != err {
+		return nil, err
+	}
+
 	r.slot = name
 	r.req = &protoRpcRequest{
 		Index:      r.index,
@@ -72,3 +82,8 @@ func (r *rpc) callWithResult(dock *dock, name string, method string, args ...int
 func (r *rpc) callback(ret *ret) {
 	r.ret <- ret
 }
+
+// encodable checks if values can be sent to another dock.
+func encodable(values []interface{}) error {
+	return codec.NewAny(values).Encode(ioutil.Discard)
+}
-- 
2.43.0

