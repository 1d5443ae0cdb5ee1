// Package venv replaces the operating system in instrumented code: time,
// environment, sockets, signals, logging, flags. Everything is recorded, and
// harnesses install the behaviour they want.
package venv

import (
	"crypto/tls"
	"errors"
	"flag"
	"fmt"
	"net"
	"net/http"
	"os"
	"time"
	"unsafe"

	"verif/harness/sched"
	"verif/harness/sym"
)

// ---- logging

// Exit is what log.Fatal panics with when a harness expects it.
type Exit struct{ Why string }

// CatchFatal makes log.Fatal and os.Exit panic with Exit instead of ending
// the run as a violation.
var CatchFatal bool

// Started is set by harnesses once the packages are initialised.
var Started bool

func fatal(why string) {
	if !CatchFatal {
		if sym.Param("env", 0) != 0 && !Started {
			initFatal(why)
		}
		sym.Fatal(why)
	}
	panic(Exit{why})
}

// LogLines counts the lines logged. LogPoint makes logging a scheduling point.
var (
	LogLines int
)

// Log holds the lines logged while KeepLog is set.
var (
	KeepLog bool
	Log     []string
)

func Print(v ...interface{}) {
	LogLines++
	if KeepLog {
		Log = append(Log, fmt.Sprint(v...))
	}
}

func Println(v ...interface{}) {
	LogLines++
	if KeepLog {
		Log = append(Log, fmt.Sprintln(v...))
	}
}

func Printf(f string, v ...interface{}) {
	LogLines++
	if KeepLog {
		Log = append(Log, fmt.Sprintf(f, v...))
	}
}

func Fatal(v ...interface{})            { fatal("log.Fatal called") }
func Fatalln(v ...interface{})          { fatal("log.Fatal called") }
func Fatalf(f string, v ...interface{}) { fatal("log.Fatal called") }
func Flags() int                        { return 0 }
func SetFlags(int)                      {}
func Prefix() string                    { return "" }

// ---- time

// Clock is the virtual time in nanoseconds since the start.
var Clock time.Duration

// Base is the time at which virtual time starts.
var Base = time.Unix(1000, 0)

// timeRep is the representation of time.Time.
type timeRep struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// Now has a monotonic reading, like time.Now. It is built in a way that
// spares the solver divisions.
func Now() time.Time {
	sec, ns := uint64(0), uint64(Clock)
	if Clock >= time.Second {
		sec, ns = uint64(Clock/time.Second), uint64(Clock%time.Second)
	}
	const unix1885 = 2682288000
	r := timeRep{1<<63 | (1000+unix1885+sec)<<30 | ns, 1 + int64(Clock), time.Local}
	return *(*time.Time)(unsafe.Pointer(&r))
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }

type timer struct {
	at      time.Duration
	fired   bool
	stopped bool
}

var timers []*timer

// Sleepers are the wake-up times of sleeping goroutines.
func Sleep(d time.Duration) {
	t := &timer{at: Clock + d}
	timers = append(timers, t)
	sched.Await(func() bool { return t.fired })
}

// Advance moves the clock to the next timer and fires it. It reports whether
// there was one.
func Advance() bool {
	var best *timer
	for _, t := range timers {
		if !t.fired && !t.stopped && (best == nil || t.at < best.at) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if best.at > Clock {
		Clock = best.at
	}
	best.fired = true
	return true
}

// Pending counts the timers that have not fired.
func Pending() int {
	n := 0
	for _, t := range timers {
		if !t.fired && !t.stopped {
			n++
		}
	}
	return n
}

// FireDue fires all timers that are due at the current time.
func FireDue() {
	for _, t := range timers {
		if t.at <= Clock {
			t.fired = true
		}
	}
}

type Timer struct {
	C <-chan time.Time
	t *timer
}

func (t *Timer) Stop() bool {
	was := !t.t.fired && !t.t.stopped
	t.t.stopped = true
	return was
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &timer{at: Clock + d}
	timers = append(timers, t)
	sched.Go(func() {
		sched.Await(func() bool { return t.fired || t.stopped })
		if t.fired && !t.stopped {
			f()
		}
	})
	return &Timer{t: t}
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := AfterFunc(d, func() { c <- Now() })
	t.C = c
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// ---- environment and process

// LookupHook gives the environment; the default is empty.
func Getenv(name string) string {
	v, _ := LookupEnv(name)
	return v
}

func LookupEnv(name string) (string, bool) {
	sched.Point()
	if sym.Param("env", 0) == 0 {
		return "", false
	}
	return lookup(name)
}

func Getpid() int  { return Pid }
func Getppid() int { return PPid }

var (
	Pid  = 4242
	PPid = 77
)

func Hostname() (string, error) { return "host", nil }

func GOMAXPROCS(int) int { return NumCPU() }

// NumCPU determines how many shards a listener uses.
func NumCPU() int { return sym.Param("cpus", 1) }

// ---- descriptors and sockets

// Call is a recorded interaction with the operating system.
type Call struct {
	Op   string
	Net  string
	Addr string
	Fd   int
}

var Calls []Call

func record(c Call) { Calls = append(Calls, c) }

var ErrEnv = errors.New("venv: refused")

// ListenHook and FileHook produce listeners; by default they fail.
var (
	ListenHook func(network, addr string) (net.Listener, error)
	FileHook   func(fd int) (net.Listener, error)
	DialHook   func(network, addr string) (net.Conn, error)
)

func Listen(network, addr string) (net.Listener, error) {
	record(Call{Op: "listen", Net: network, Addr: addr})
	if ListenHook == nil {
		return nil, ErrEnv
	}
	return ListenHook(network, addr)
}

// A File stands for an *os.File made from a descriptor.
type File struct {
	fd     int
	name   string
	closed bool
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return os.ErrClosed
	}
	f.closed = true
	return nil
}

func (f *File) Fd() uintptr {
	if f == nil || f.closed {
		return ^uintptr(0)
	}
	return uintptr(f.fd)
}

func (f *File) Name() string { return f.name }

func NewFile(fd uintptr, name string) *File {
	if int(fd) < 0 {
		return nil
	}
	record(Call{Op: "newfile", Fd: int(fd)})
	return &File{fd: int(fd), name: name}
}

func FileListener(f *File) (net.Listener, error) {
	if f == nil {
		panic("net.FileListener: nil *os.File") // (*os.File).Name panics
	}
	if f.closed {
		return nil, os.ErrClosed
	}
	record(Call{Op: "filelistener", Fd: f.fd})
	if FileHook == nil {
		return nil, ErrEnv
	}
	return FileHook(f.fd)
}

func Dial(network, addr string) (net.Conn, error) {
	sched.Point()
	record(Call{Op: "dial", Net: network, Addr: addr})
	if DialHook == nil {
		return nil, ErrEnv
	}
	return DialHook(network, addr)
}

func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return Dial(network, addr)
}

func DialUnix(network string, l, r *net.UnixAddr) (*net.UnixConn, error) {
	record(Call{Op: "dialunix"})
	return nil, ErrEnv
}

func CloseOnExec(fd int) {
	record(Call{Op: "cloexec", Fd: fd})
	if len(Calls) > 200 {
		sym.Fatal("descriptors nobody announced are made close-on-exec")
	}
}

// ---- signals

type Subscription struct {
	C    chan<- os.Signal
	All  bool // every signal but those in Not
	Sigs []os.Signal
	Not  []os.Signal
}

var Subs []Subscription

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	sched.Point()
	Subs = append(Subs, Subscription{C: c, All: len(sig) == 0, Sigs: sig})
}

func Stop(c chan<- os.Signal) {
	sched.Point()
	var n []Subscription
	for _, s := range Subs {
		if s.C != c {
			n = append(n, s)
		}
	}
	Subs = n
}

// Reset undoes Notify for the given signals (all, if none), for every channel.
func Reset(sig ...os.Signal) {
	sched.Point()
	if len(sig) == 0 {
		Subs = nil
		return
	}
	for i := range Subs {
		Subs[i].Not = append(Subs[i].Not, sig...)
	}
}

// Ignore takes the given signals away from every channel as well.
func Ignore(sig ...os.Signal) { Reset(sig...) }

// Deliver sends sig to every subscription that asked for it, like the runtime
// does: without blocking.
func Deliver(sig os.Signal) bool {
	ok := false
	var to []chan<- os.Signal
	for _, s := range Subs {
		want := s.All
		for _, x := range s.Sigs {
			if x == sig {
				want = true
			}
		}
		for _, x := range s.Not {
			if x == sig {
				want = false
			}
		}
		for _, c := range to {
			if c == s.C {
				want = false
			}
		}
		if !want {
			continue
		}
		to = append(to, s.C)
		if sched.TrySend(s.C, sig) {
			ok = true
		}
	}
	return ok
}

// ---- flags

// Flag is the value given on the command line, if FlagSet.
var (
	FlagSet bool
	Flag    string
	FlagVar *string
	FlagDef string
	parsed  bool
)

func StringVar(p *string, name, value, usage string) {
	*p = value
	FlagVar, FlagDef = p, value
	record(Call{Op: "flag", Addr: name})
}

func String(name, value, usage string) *string {
	p := new(string)
	StringVar(p, name, value, usage)
	return p
}

func Parsed() bool { return parsed }

// Parses counts the times the command line was parsed.
var Parses int

func Parse() {
	parsed = true
	Parses++
	if FlagSet && FlagVar != nil {
		*FlagVar = Flag
	}
}

var _ = flag.Parse

// ---- crypto

// RandHook fills b; the default is a fixed sequence.
var RandHook func(b []byte)

func Read(b []byte) (int, error) {
	if RandHook != nil {
		RandHook(b)
		return len(b), nil
	}
	for i := range b {
		b[i] = byte(i*37 + 11)
	}
	return len(b), nil
}

var (
	// KeyPairErr is what LoadX509KeyPair fails with.
	KeyPairErr  error
	Cert        tls.Certificate
	KeyPairArgs [2]string
	TLSConfig   *tls.Config
	TLSInner    net.Listener
)

func LoadX509KeyPair(cert, key string) (tls.Certificate, error) {
	KeyPairArgs = [2]string{cert, key}
	if KeyPairErr != nil {
		return tls.Certificate{}, KeyPairErr
	}
	return Cert, nil
}

type tlsListener struct{ net.Listener }

func NewListener(l net.Listener, cfg *tls.Config) net.Listener {
	TLSConfig, TLSInner = cfg, l
	return tlsListener{l}
}

// ---- net/http

// ServeHook runs instead of (*http.Server).Serve.
var ServeHook func(s *http.Server, l net.Listener) error

type server interface {
	Serve(net.Listener) error
}

// Serve is x.Serve(l) for a variable x.
func Serve[T any](x *T, l net.Listener) error {
	if s, ok := any(x).(*http.Server); ok {
		return serve(s, l)
	}
	if s, ok := any(*x).(*http.Server); ok {
		return serve(s, l)
	}
	if s, ok := any(x).(server); ok {
		return s.Serve(l)
	}
	return any(*x).(server).Serve(l)
}

func serve(s *http.Server, l net.Listener) error {
	if ServeHook == nil {
		return http.ErrServerClosed
	}
	return ServeHook(s, l)
}

// Handled are the patterns registered with http.Handle.
var Handled []http.Handler

func Handle(pattern string, h http.Handler) {
	record(Call{Op: "handle", Addr: pattern})
	Handled = append(Handled, h)
}

// OSExit replaces os.Exit.
func OSExit(int) { fatal("os.Exit called") }

// KeepAlives records the calls of (*http.Server).SetKeepAlivesEnabled.
type KeepAlive struct {
	S  *http.Server
	On bool
}

var KeepAlives []KeepAlive

func SetKeepAlivesEnabled[T any](x *T, v bool) {
	sched.Point()
	if s, ok := any(x).(*http.Server); ok {
		KeepAlives = append(KeepAlives, KeepAlive{s, v})
		return
	}
	KeepAlives = append(KeepAlives, KeepAlive{any(*x).(*http.Server), v})
}
