// C37: a server and its clients find each other at the configured address.
package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/zzverif/mc"
)

// patience bounds the wait for what has to happen.
const patience = 15 * time.Second

type who struct{}

func init() {
	invoke.ExportRequestResponse("ns", "who", func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		name, _ := ctx.Value(who{}).(string)
		return mono.Just[payload.Payload](payload.New([]byte(name + " " + string(p.Data()))))
	})
	invoke.ExportRequestResponse("ns", "wait", func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		return mono.Create(func(mono.Sink[payload.Payload]) {})
	})
	invoke.ExportRequestChannel("ns", "back", func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		return flux.Map(in, func(p payload.Payload) (payload.Payload, error) { return p, nil })
	})
}

func request(op uint32, text string) payload.Payload {
	md := make([]byte, 8)
	binary.BigEndian.PutUint32(md, op)
	return payload.New([]byte(text), md)
}

type answer struct {
	text string
	err  error
}

func call(cl invoke.Caller, op uint32, text string) chan answer {
	ch := make(chan answer, 2)
	cl.RequestResponse(context.Background(), request(op, text)).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) { ch <- answer{text: string(p.Data())} },
		OnError:   func(err error) { ch <- answer{err: err} },
	})
	return ch
}

// channel sends three values through a channel to the other side, which sends them back, one at a time.
func channel(cl invoke.Caller) chan answer {
	ch := make(chan answer, 2)
	var got strings.Builder
	in := flux.FromSlice([]payload.Payload{payload.New([]byte("a")), payload.New([]byte("b")), payload.New([]byte("c"))})
	f := cl.RequestChannel(context.Background(), request(0, "first"), in)
	f.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			got.Write(p.Data())
			f.Subscription().Request(1)
		},
		OnComplete: func() { ch <- answer{text: got.String()} },
		OnError:    func(err error) { ch <- answer{got.String(), err} },
		NoRequest:  true,
	})
	f.Subscription().Request(1)
	return ch
}

// network is one way to configure both sides.
type network struct {
	name, net string
	tls       bool
	// env: through NewServer, NewClient and Connect.
	env bool
}

var networks = []network{
	{"unix by environment", "unix", false, true},
	{"tcp by environment", "tcp", false, true},
	{"tcp", "tcp", false, false},
	{"tcp with TLS", "tcp", true, false},
	{"tcp4", "tcp4", false, false},
	{"unix with TLS", "unix", true, false},
}

var serverTLS, clientTLS = certificates()

func certificates() (*tls.Config, *tls.Config) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "server"}, DNSNames: []string{"server"},
		NotBefore: time.Unix(0, 0), NotAfter: time.Now().Add(1000 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
	}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	cert, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	pool := x509.NewCertPool()
	pool.AddCert(cert)
	return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}},
		&tls.Config{RootCAs: pool, ServerName: "server"}
}

var addresses int

// address is one no other process of the check uses.
func address(netw string) string {
	addresses++
	if strings.HasPrefix(netw, "unix") {
		return filepath.Join(os.TempDir(), fmt.Sprintf("s%d-%d", os.Getpid(), addresses))
	}
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d:%d", 1+p>>14&0x7f, p>>7&0x7f, 1+p&0x7f, 7900+addresses%2000)
}

type server struct {
	t      rsocket.ServerTransport
	cancel func()
	name   string
	ret    chan error
	conns  chan invoke.Caller
}

type client struct {
	t     *rsocket.Transport
	h     *handler.Handler // nil for Connect
	ret   chan error
	peer  invoke.Caller // of the server
	srv   *server
	name  string
	held  []chan answer
	raw   net.Conn
	ended bool
}

type world struct {
	c       *mc.Ctx
	n       network
	addr    string
	srv     *server
	clients []*client
	count   int
}

func wait[T any](w *world, ch chan T, f string, a ...any) T {
	w.c.Step()
	select {
	case v := <-ch:
		return v
	case <-time.After(patience):
		w.c.Failf("%s: nothing after %v", fmt.Sprintf(f, a...), patience)
		panic("unreachable")
	}
}

func newWorld(c *mc.Ctx, n network) *world {
	w := &world{c: c, n: n, addr: address(n.net)}
	w.setenv()
	return w
}

func (w *world) setenv() {
	os.Setenv("RSOCKET_NETWORK", w.n.net)
	os.Setenv("RSOCKET_ADDRESS", w.addr)
}

func (w *world) tls(cfg *tls.Config) *tls.Config {
	if w.n.tls {
		return cfg
	}
	return nil
}

func (w *world) newServer() *server {
	w.count++
	s := &server{name: fmt.Sprintf("server%d", w.count), ret: make(chan error, 1), conns: make(chan invoke.Caller, 16)}
	acc := func(ctx context.Context, caller invoke.Caller, onClose func(*rsocket.Transport)) { s.conns <- caller }
	if w.n.env {
		s.t = rsocket.NewServer(acc)
	} else {
		s.t = rsocket.NewTCPServerTransport(rsocket.NewTCPListenerFactory(w.n.net, w.addr, w.tls(serverTLS)), func(ctx context.Context) (rsocket.DuplexHandler, error) {
			return handler.New(ctx, handler.ServerMode), nil
		})
		s.t.Accept(acc)
	}
	return s
}

// listen tells whether the server listens.
func (w *world) listen(s *server) bool {
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), who{}, s.name))
	s.cancel = cancel
	note := make(chan bool, 2)
	go func() { s.ret <- s.t.Listen(ctx, note) }()
	return wait(w, note, "Listen of %s", s.name)
}

func (w *world) start() {
	s := w.newServer()
	ok := w.listen(s)
	w.c.Logf("%s listens at %s: %v", s.name, w.addr, ok)
	if w.srv != nil {
		// The address is taken.
		if ok {
			w.c.Failf("%s listens at the address of %s", s.name, w.srv.name)
		}
		if err := wait(w, s.ret, "Listen at a taken address"); err == nil {
			w.c.Failf("Listen at a taken address reports no error")
		}
		s.cancel()
		return
	}
	if !ok {
		w.c.Failf("the server cannot listen at %s %s: %v", w.n.net, w.addr, wait(w, s.ret, "Listen"))
	}
	w.srv = s
}

// connect adds a client made in the given way.
func (w *world) connect(kind int) {
	w.count++
	cl := &client{name: fmt.Sprintf("client%d", w.count), ret: make(chan error, 1), srv: w.srv}
	ctx := context.WithValue(context.Background(), who{}, cl.name)
	var err error
	switch {
	case w.n.env && kind == 0:
		cl.t, err = rsocket.NewClient(ctx)
	case w.n.env && w.srv != nil:
		// Connect returns when the connection ends.
		cl.name = ""
		go func() { cl.ret <- rsocket.Connect() }()
	case w.n.env:
		err = rsocket.Connect()
	default:
		var conn net.Conn
		conn, err = rsocket.NewConnWithAddr(ctx, w.n.net, w.addr, w.tls(clientTLS))
		if err == nil {
			cl.h = handler.New(ctx, handler.ClientMode)
			cl.t = rsocket.NewTCPClientTransport(conn, cl.h)
			cl.h.SetFrameSender(func(f frames.Frame) error { return cl.t.Send(f, true) })
		}
	}
	if w.srv == nil {
		if err == nil {
			w.c.Failf("a client connects to %s %s, where nobody listens", w.n.net, w.addr)
		}
		w.c.Logf("no connection: %v", err)
		return
	}
	if err != nil {
		w.c.Failf("%s cannot connect to %s %s: %v", cl.name, w.n.net, w.addr, err)
	}
	if cl.t != nil {
		go func() { cl.ret <- cl.t.Start(ctx) }()
	}
	cl.peer = wait(w, w.srv.conns, "%s connected and the server's acceptor", cl.name)
	w.c.Logf("%s connected to %s", cl.name, w.srv.name)
	w.clients = append(w.clients, cl)
}

// silent connects and says nothing.
func (w *world) silent() {
	conn, err := net.Dial(w.n.net, w.addr)
	if (err == nil) != (w.srv != nil) {
		w.c.Failf("dialing %s %s: %v", w.n.net, w.addr, err)
	}
	if err == nil {
		peer := wait(w, w.srv.conns, "a silent client connected and the server's acceptor")
		w.clients = append(w.clients, &client{raw: conn, peer: peer, srv: w.srv, ended: true})
	}
}

// ask lets both sides of every connection make a request, and another that waits.
func (w *world) ask(hold bool) {
	for i, cl := range w.clients {
		if cl.raw != nil {
			continue
		}
		if hold {
			cl.held = append(cl.held, call(cl.peer, 1, "x"))
			if cl.h != nil {
				cl.held = append(cl.held, call(cl.h, 1, "x"))
			}
			continue
		}
		text := fmt.Sprint("request ", i)
		if a := wait(w, call(cl.peer, 0, text), "a request of %s to %q", cl.srv.name, cl.name); a.err != nil || a.text != cl.name+" "+text {
			w.c.Failf("%s asks %q and gets %q, %v", cl.srv.name, cl.name, a.text, a.err)
		}
		if a := wait(w, channel(cl.peer), "a channel of %s to %q", cl.srv.name, cl.name); a.err != nil || a.text != "abc" {
			w.c.Failf("%s sends abc to %q and gets %q back, %v", cl.srv.name, cl.name, a.text, a.err)
		}
		select {
		case err := <-cl.ret:
			w.c.Failf("Start or Connect of %q returns while the connection is up: %v", cl.name, err)
		default:
		}
		if cl.h == nil {
			continue
		}
		if a := wait(w, channel(cl.h), "a channel of %q to %s", cl.name, cl.srv.name); a.err != nil || a.text != "abc" {
			w.c.Failf("%q sends abc to %s and gets %q back, %v", cl.name, cl.srv.name, a.text, a.err)
		}
		if a := wait(w, call(cl.h, 0, text), "a request of %q to %s", cl.name, cl.srv.name); a.err != nil || a.text != cl.srv.name+" "+text {
			w.c.Failf("%q asks %s and gets %q, %v", cl.name, cl.srv.name, a.text, a.err)
		}
	}
	w.c.Logf("%d clients asked, waiting: %v", len(w.clients), hold)
}

// over checks that nothing of a connection goes on.
func (w *world) over(cl *client, why string) {
	if cl.raw != nil {
		return
	}
	wait(w, cl.ret, "Start of %q after %s", cl.name, why)
	for _, ch := range cl.held {
		if a := wait(w, ch, "a pending request on the connection of %q after %s", cl.name, why); a.err == nil {
			w.c.Failf("a request without an answer has one after %s: %q", why, a.text)
		}
	}
	for end := time.Now().Add(patience); ; time.Sleep(time.Millisecond) {
		if a := wait(w, call(cl.peer, 0, "late"), "a request of the server to %q after %s", cl.name, why); a.err != nil {
			break
		}
		if time.Now().After(end) {
			w.c.Failf("the server still reaches %q after %s", cl.name, why)
		}
	}
	if cl.h != nil {
		if a := wait(w, call(cl.h, 0, "late"), "a request of %q after %s", cl.name, why); a.err == nil {
			w.c.Failf("%q still reaches the server after %s: %q", cl.name, why, a.text)
		}
	}
}

// leave closes the oldest or the newest client.
func (w *world) leave(i int) bool {
	if len(w.clients) == 0 || i > 0 && len(w.clients) < 2 {
		return false
	}
	if i > 0 {
		i = len(w.clients) - 1
	}
	cl := w.clients[i]
	if cl.t == nil && cl.raw == nil {
		return false // Connect keeps its transport to itself
	}
	w.clients = append(w.clients[:i:i], w.clients[i+1:]...)
	w.c.Logf("%q leaves", cl.name)
	if cl.raw != nil {
		cl.raw.Close()
	} else {
		cl.t.Close()
	}
	w.over(cl, "its end")
	return true
}

// stop ends the server.
func (w *world) stop(cancel bool) bool {
	if w.srv == nil {
		return false
	}
	w.c.Logf("%s stops, by its context: %v", w.srv.name, cancel)
	if cancel {
		w.srv.cancel()
	} else if err := w.srv.t.Close(); err != nil {
		w.c.Failf("Close of the server: %v", err)
	}
	if err := wait(w, w.srv.ret, "Listen after the end of the server"); err != nil {
		w.c.Failf("Listen of a closed server: %v", err)
	}
	for _, cl := range w.clients {
		w.over(cl, "the end of the server")
		if cl.raw != nil {
			cl.raw.SetReadDeadline(time.Now().Add(patience))
			for {
				if _, err := cl.raw.Read(make([]byte, 64)); err != nil {
					if ne, ok := err.(net.Error); ok && ne.Timeout() {
						w.c.Failf("a silent connection outlives the server")
					}
					break
				}
			}
			cl.raw.Close()
		}
	}
	s := w.srv
	w.clients, w.srv = nil, nil
	if err := s.t.Close(); err != nil {
		w.c.Failf("the second Close of the server: %v", err)
	}
	ctxErr := w.listen(s)
	if ctxErr {
		w.c.Failf("a closed server listens again")
	}
	s.cancel()
	return true
}

var ops = []string{"start", "connect", "connect in the other way", "a silent client", "ask", "requests that wait", "the oldest leaves", "the newest leaves", "close", "cancel"}

func (w *world) do(op int) bool {
	switch op {
	case 0:
		w.start()
	case 1, 2:
		if op == 2 && !w.n.env {
			return false
		}
		w.connect(op - 1)
	case 3:
		w.silent()
	case 4, 5:
		if len(w.clients) == 0 {
			return false
		}
		w.ask(op == 5)
	case 6, 7:
		return w.leave(op - 6)
	case 8, 9:
		return w.stop(op == 9)
	}
	return true
}

func (w *world) state() {
	var b strings.Builder
	for _, cl := range w.clients {
		fmt.Fprint(&b, cl.raw != nil, cl.t == nil, len(cl.held), " ")
	}
	w.c.State(w.n.name, w.srv != nil, b.String())
}

func history(n network, depth int) func(c *mc.Ctx) {
	return func(c *mc.Ctx) {
		w := newWorld(c, n)
		started := false
		for i := 0; i < depth; i++ {
			op := 0
			if i > 0 || c.Bool() {
				op = c.Choose(len(ops))
			}
			if i == 0 && op != 0 && op > 3 || !w.do(op) {
				w.stop(false)
				c.Skip()
			}
			started = started || op == 0
			w.state()
		}
		if len(w.clients) > 0 {
			w.ask(false)
		}
		for len(w.clients) > 0 && w.leave(0) {
		}
		w.stop(false)
	}
}

func main() {
	depth := mc.Bound(6, 7)
	var scs []mc.Scenario
	for i, n := range networks {
		d := depth
		if i > 0 {
			d-- // the other networks differ in how they are opened
		}
		scs = append(scs, mc.Scenario{Name: n.name, Body: history(n, d)})
	}
	scs = append(scs, mc.Scenario{Name: "default address", Body: func(c *mc.Ctx) {
		l, err := net.Listen("tcp", ":7878")
		if err != nil {
			c.Skip() // something else of this machine uses it
		}
		l.Close()
		w := &world{c: c, n: network{"default", "tcp", false, true}, addr: "127.0.0.1:7878"}
		os.Unsetenv("RSOCKET_NETWORK")
		os.Unsetenv("RSOCKET_ADDRESS")
		w.start()
		w.connect(0)
		w.connect(1)
		w.ask(false)
		w.stop(false)
	}})
	mc.Main(mc.Config{
		ID:        "C37",
		Rule:      "a client and a server given the same network, address and TLS configuration reach each other; both sides' requests are answered by the other side; what ends, ends everywhere",
		Bounds:    fmt.Sprintf("6 networks x all histories of %d (the first network) or %d of 10 operations (start, connect in two ways, a silent connection, requests, waiting requests, leave, close, cancel)", depth, depth-1),
		Scenarios: scs,
		Assumptions: []string{
			"the operating system's loopback network; its schedule is the system's own, histories are enumerated",
			fmt.Sprintf("what has not happened after %v does not happen", patience),
		},
	})
}
