package h

import (
	"errors"
	"net"
	"reflect"
	"sync"
	"time"
	"unsafe"

	"github.com/muguangyi/ferry/network"
)

// Link is a connection of a fake endpoint.
type Link interface {
	Write(b []byte)
	Close()
	CanClose() bool
	Local() string
	Remote() string
}

// Handler gets what happens on links.
type Handler struct {
	Open  func(l Link)
	Data  func(l Link, b []byte)
	Close func(l Link)
}

// Net makes fake endpoints.
type Net interface {
	// Listen returns a function that stops listening, and closes the accepted links (mock only).
	Listen(addr string, h Handler) (func(), error)
	Dial(addr, fromHost string, h Handler) (Link, error)
}

// ---------------------------------------------------------------- TCP

// TCP is the real network.
type TCP struct{}

type tcpLink struct{ c net.Conn }

func (l *tcpLink) Write(b []byte) {
	l.c.SetWriteDeadline(time.Now().Add(20 * time.Second))
	l.c.Write(b)
}
func (l *tcpLink) Close()         { l.c.Close() }
func (l *tcpLink) CanClose() bool { return true }
func (l *tcpLink) Local() string  { return l.c.LocalAddr().String() }
func (l *tcpLink) Remote() string { return l.c.RemoteAddr().String() }

func (TCP) serve(c net.Conn, h Handler) Link {
	l := &tcpLink{c}
	h.Open(l)
	go func() {
		buf := make([]byte, 1<<16)
		for {
			n, err := c.Read(buf)
			if n > 0 {
				h.Data(l, append([]byte(nil), buf[:n]...))
			}
			if err != nil {
				h.Close(l)
				c.Close()
				return
			}
		}
	}()
	return l
}

// Listen listens.
func (t TCP) Listen(addr string, h Handler) (func(), error) {
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, err
	}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			t.serve(c, h)
		}
	}()
	return func() { ln.Close() }, nil
}

// Dial dials from fromHost.
func (t TCP) Dial(addr, fromHost string, h Handler) (Link, error) {
	d := net.Dialer{Timeout: 10 * time.Second}
	if fromHost != "" {
		d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(fromHost)}
	}
	c, err := d.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	return t.serve(c, h), nil
}

// ---------------------------------------------------------------- mock

// Mock is the mock network of the code under test.
type Mock struct{}

// RawSerializer passes bytes in the pieces they were written in.
type RawSerializer struct{}

// Marshal gets []byte.
func (RawSerializer) Marshal(obj interface{}) []byte { return obj.([]byte) }

// Unmarshal gives []byte.
func (RawSerializer) Unmarshal(data []byte) interface{} { return append([]byte(nil), data...) }

// Slice takes all.
func (RawSerializer) Slice(source []byte) int { return len(source) }

type mockLink struct {
	p     network.IPeer
	mu    sync.Mutex
	close func()
}

func (l *mockLink) Write(b []byte) { l.p.Send(append([]byte(nil), b...)) }
func (l *mockLink) closer() func() {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.close == nil {
		if c := connOf(reflect.ValueOf(l.p), 3); c != nil {
			l.close = func() { c.Close() }
		}
	}
	return l.close
}
func (l *mockLink) CanClose() bool { return l.closer() != nil }
func (l *mockLink) Close() {
	if f := l.closer(); f != nil {
		f()
	}
}

// connOf finds the connection of an accepted peer, which is nowhere to be had otherwise.
func connOf(v reflect.Value, depth int) net.Conn {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct || depth == 0 {
		return nil
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanAddr() {
			continue
		}
		x := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		if f.Type().Implements(reflect.TypeOf((*net.Conn)(nil)).Elem()) {
			if c, ok := x.Interface().(net.Conn); ok && c != nil {
				return c
			}
		}
	}
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Struct && f.CanAddr() {
			if c := connOf(f, depth-1); c != nil {
				return c
			}
		}
	}
	return nil
}
func (l *mockLink) Local() string  { return l.p.LocalAddr().String() }
func (l *mockLink) Remote() string { return l.p.RemoteAddr().String() }

type mockSink struct {
	h     Handler
	mu    sync.Mutex
	links map[network.IPeer]*mockLink
	last  *mockLink
}

func (s *mockSink) OnConnected(p network.IPeer) {
	l := &mockLink{p: p}
	s.mu.Lock()
	s.links[p] = l
	s.last = l
	s.mu.Unlock()
	s.h.Open(l)
}
func (s *mockSink) link(p network.IPeer) *mockLink {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.links[p]
}
func (s *mockSink) OnClosed(p network.IPeer) { s.h.Close(s.link(p)) }
func (s *mockSink) OnPacket(p network.IPeer, obj interface{}) {
	b, _ := obj.([]byte)
	s.h.Data(s.link(p), b)
}

// Listen listens. Closing closes all links.
func (Mock) Listen(addr string, h Handler) (func(), error) {
	network.ExtendSerializer("verifraw", RawSerializer{})
	sock := network.NewSocket(addr, "verifraw", &mockSink{h: h, links: map[network.IPeer]*mockLink{}})
	sock.Listen()
	return sock.Close, nil
}

// Dial dials.
func (Mock) Dial(addr, fromHost string, h Handler) (Link, error) {
	network.ExtendSerializer("verifraw", RawSerializer{})
	s := &mockSink{h: h, links: map[network.IPeer]*mockLink{}}
	sock := network.NewSocket(addr, "verifraw", s)
	if err := sock.Dial(); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.last == nil {
		return nil, errors.New("no connection")
	}
	s.last.mu.Lock()
	s.last.close = sock.Close
	s.last.mu.Unlock()
	return s.last, nil
}
