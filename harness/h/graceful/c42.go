package main

import (
	"crypto/tls"
	"crypto/x509"
	"errors"
	"io"
	"net"
	"net/http"
	"time"

	"github.com/zenazn/goji/graceful"
	"verif/harness/hu"
	"verif/harness/sched"
	"verif/harness/sym"
	"verif/harness/venv"
)

// serveLike accepts connections the way net/http does.
func serveLike(each func(s *http.Server, c net.Conn)) func(s *http.Server, l net.Listener) error {
	return func(s *http.Server, l net.Listener) error {
		for {
			c, err := l.Accept()
			if err != nil {
				return err
			}
			if each != nil {
				each(s, c)
			}
		}
	}
}

// errLis fails with the given error.
type errLis struct {
	flis
	err error
}

func (l *errLis) Accept() (net.Conn, error) { return nil, l.err }

type oddErr struct{ s string }

func (e oddErr) Error() string { return e.s }

// tempNetErr is a net.Error of any kind.
type tempNetErr struct {
	s         string
	tmp, tmot bool
}

func (e *tempNetErr) Error() string   { return e.s }
func (e *tempNetErr) Temporary() bool { return e.tmp }
func (e *tempNetErr) Timeout() bool   { return e.tmot }

func anErr() (err error, peaceful bool) {
	const closing = "use of closed network connection"
	text, is := closing, true
	switch sym.Choice(4) {
	case 1:
		text, is = sym.String(0, 2), false
	case 2:
		// the words, with more around them
		pre, post := sym.String(0, 1), sym.String(0, 1)
		is = sym.Decide(sym.And(pre == "", post == ""))
		text = pre + closing + post
	case 3:
		text, is = []string{"closed", "use of closed file", "network connection closed", "use of closed network"}[sym.Choice(4)], false
	}
	switch sym.Choice(6) {
	case 0:
		return errors.New(text), false
	case 1:
		op := sym.String(0, 3)
		return &net.OpError{Op: op, Net: "tcp", Err: errors.New(text)}, false
	case 2:
		op := []string{"accept", "AcceptEx"}[sym.Choice(2)]
		return &net.OpError{Op: op, Net: "tcp", Err: oddErr{text}}, is
	case 3:
		return &tempNetErr{text, sym.Bool(), sym.Bool()}, false
	case 4:
		return &net.OpError{Op: "accept", Net: "tcp", Err: &tempNetErr{text, sym.Bool(), sym.Bool()}}, is
	}
	return oddErr{text}, false
}

// C42Errors: any accept error before or after a shutdown.
func C42Errors() {
	err, peaceful := anErr()
	l := &errLis{err: err}
	srv := &graceful.Server{}
	venv.ServeHook = serveLike(nil)
	after := sym.Choice(2) == 1
	if after {
		if sym.Choice(2) == 1 {
			graceful.Shutdown()
		} else {
			graceful.ShutdownNow()
		}
	}
	var got error
	if sym.Choice(2) == 1 {
		got = srv.Serve(l)
	} else {
		got = graceful.Serve(l, nil)
	}
	if after && peaceful {
		sym.Assert(got == nil, "a closed listener is peaceful during a shutdown")
		sym.Reach("peaceful")
	} else {
		sym.Assert(got == err, "the error is returned unchanged")
		sym.Reach("returned")
	}
}

// C42Race: a shutdown starts while connections are accepted.
func C42Race() {
	l := &flis{}
	for i := 0; i < sym.Param("conns", 2); i++ {
		l.queue = append(l.queue, &fconn{id: i})
	}
	all := append([]*fconn(nil), l.queue...)
	srv := &graceful.Server{}
	venv.ServeHook = serveLike(func(s *http.Server, c net.Conn) {
		s.ConnState(c, http.StateNew)
	})
	done := 0
	force := sym.Choice(2) == 1
	sched.Go(func() {
		err := srv.Serve(l)
		sym.Assert(err == nil, "Serve returns nil when a shutdown ends it")
		done++
	})
	sched.Await(func() bool { return len(l.queue) < len(all) })
	sched.Go(func() {
		if force {
			graceful.ShutdownNow()
		} else {
			graceful.Shutdown()
		}
		done++
	})
	sched.Await(func() bool { return done == 2 })
	n := 0
	for i, f := range all {
		if i < len(all)-len(l.queue) {
			n++
			sym.Assert(f.closes == 1, "every accepted connection is closed")
		}
	}
	if n == len(all) {
		sym.Reach("all accepted")
	} else {
		sym.Reach("cut off")
	}
}

type ev struct {
	c net.Conn
	s http.ConnState
}

// C43States: net/http reports arbitrary connection states.
func C43States() {
	l := &flis{}
	n := sym.Param("conns", 2)
	for i := 0; i < n; i++ {
		l.queue = append(l.queue, &fconn{id: i})
	}
	all := append([]*fconn(nil), l.queue...)
	srv := &graceful.Server{Addr: "addr", MaxHeaderBytes: 77, ReadTimeout: time.Second}
	h := http.NewServeMux()
	srv.Handler = h
	var seen []ev
	user := sym.Choice(2) == 1
	if user {
		srv.ConnState = func(c net.Conn, s http.ConnState) { seen = append(seen, ev{c, s}) }
	}
	var shadow *http.Server
	var cs []net.Conn
	venv.ServeHook = func(s *http.Server, l net.Listener) error {
		shadow = s
		sym.Assert(s.Handler == http.Handler(h) && s.Addr == "addr" && s.MaxHeaderBytes == 77 && s.ReadTimeout == time.Second, "the server is served as configured")
		for range all {
			c, err := l.Accept()
			sym.Assert(err == nil, "a connection is accepted")
			cs = append(cs, c)
		}
		_, err := l.Accept()
		return err
	}
	served := false
	sched.Go(func() {
		sym.Assert(srv.Serve(l) == nil, "Serve returns nil when a shutdown ends it")
		served = true
	})
	sched.AwaitIdle()
	sym.Assert((srv.ConnState != nil) == user && srv.Addr == "addr" && srv.MaxHeaderBytes == 77 && srv.ReadTimeout == time.Second, "the caller's server is not modified")
	sym.Assert(shadow != (*http.Server)(srv), "the caller's server is not used for serving")
	busy, hijacked, closed := make([]bool, n), make([]bool, n), make([]bool, n)
	nev := 0
	for k := 0; k < sym.Param("steps", 3); k++ {
		i := sym.Choice(n)
		op := sym.Choice(3)
		if op == 0 || hijacked[i] || closed[i] {
			break
		}
		if op == 1 {
			var b [1]byte
			all[i].reads = []rres{{data: "x"}}
			cs[i].Read(b[:])
			busy[i] = true
			continue
		}
		// any state, including ones net/http does not have yet
		state := http.ConnState(sym.Int(0, 6))
		switch {
		case sym.Decide(state == http.StateIdle):
			busy[i] = false
		case sym.Decide(state == http.StateHijacked):
			hijacked[i] = true
		case sym.Decide(state == http.StateClosed):
			cs[i].Close()
			closed[i] = true
		}
		shadow.ConnState(cs[i], state)
		if user {
			nev++
			sym.Assert(len(seen) == nev && seen[nev-1].c == cs[i] && seen[nev-1].s == state, "the user's callback sees every transition")
		}
	}
	sym.Assert(len(venv.KeepAlives) == 0, "keep-alives stay enabled before the shutdown")
	force := sym.Choice(2) == 1
	stopped := false
	sched.Go(func() {
		if force {
			graceful.ShutdownNow()
		} else {
			graceful.Shutdown()
		}
		stopped = true
	})
	sched.AwaitIdle()
	sym.Assert(served && l.closed, "the shutdown ends Serve")
	off := false
	for _, k := range venv.KeepAlives {
		sym.Assert(k.S == shadow, "the caller's server is not modified")
		off = !k.On
	}
	sym.Assert(off, "keep-alives are disabled by the shutdown")
	wait := false
	for i, f := range all {
		switch {
		case hijacked[i]:
			sym.Assert(f.closes == 0, "a hijacked connection is never closed")
			sym.Reach("hijacked")
		case closed[i]:
			sym.Assert(f.closes == 1, "a connection is closed once")
		case busy[i] && !force:
			sym.Assert(f.closes == 0, "a connection in use is not closed")
			wait = true
			sym.Reach("busy")
		default:
			sym.Assert(f.closes == 1, "an idle connection is closed by the shutdown")
		}
	}
	sym.Assert(stopped == !wait, "the shutdown waits for connections in use and for no others")
	for i := range all {
		if busy[i] && !hijacked[i] && !closed[i] && !force {
			shadow.ConnState(cs[i], http.StateIdle)
			sym.Assert(all[i].closes == 1, "a connection that becomes idle is closed")
		}
	}
	sched.AwaitIdle()
	sym.Assert(stopped, "the shutdown ends")
	graceful.Wait()
}

// C43Default: the package-level functions serve what they are given.
func C43Default() {
	addr := sym.String(0, 2)
	var l net.Listener
	var lerr error
	if sym.Choice(2) == 1 {
		lerr = errFault
	}
	tl := new(venv.TCPListener)
	venv.ListenHook = func(network, a string) (net.Listener, error) {
		if lerr != nil {
			return nil, lerr
		}
		return tl, nil
	}
	h := http.NewServeMux()
	calls := 0
	venv.ServeHook = func(s *http.Server, x net.Listener) error {
		calls++
		sym.Assert(s.Handler == http.Handler(h), "the handler is served")
		l = x
		return errFault
	}
	var err error
	if sym.Choice(2) == 1 {
		err = graceful.ListenAndServe(addr, h)
	} else {
		err = (&graceful.Server{Addr: addr, Handler: h}).ListenAndServe()
	}
	want := addr
	if sym.Decide(addr == "") {
		want = ":http"
	}
	sym.Assert(len(venv.Calls) == 1 && venv.Calls[0].Op == "listen" && venv.Calls[0].Net == "tcp" && venv.Calls[0].Addr == want, "the address is bound")
	sym.Assert(err == errFault, "the error is returned")
	sym.Assert((calls == 1) == (lerr == nil), "it is served when bound")
	if lerr == nil {
		sym.Assert(l != nil, "the listener is served")
		sym.Reach("served")
	}
}

// C44TLS: any configuration.
func C44TLS() {
	var in *tls.Config
	called := 0
	set := make([]bool, 6)
	protos := [][]string{nil, {}, {"h2"}, {"h2", "http/1.1"}}[sym.Choice(4)]
	min, max := sym.Int(0, 0xffff), sym.Int(0, 0xffff)
	name := sym.String(0, 2)
	auth, reneg := sym.Int(0, 4), sym.Int(0, 2)
	skip, pref, notick, nodyn := sym.Bool(), sym.Bool(), sym.Bool(), sym.Bool()
	suite := sym.Int(0, 0xffff)
	curve := sym.Int(0, 0xffff)
	pool, pool2 := x509.NewCertPool(), x509.NewCertPool()
	n2c := map[string]*tls.Certificate{}
	var rnd io.Reader = &reader{1}
	var wr io.Writer = &writer{1}
	ec := []byte{1, 2}
	keys := []tls.EncryptedClientHelloKey{{Config: ec}}
	cache := tls.NewLRUClientSessionCache(1)
	if sym.Choice(3) > 0 {
		for i := range set {
			set[i] = sym.Bool()
		}
		in = &tls.Config{
			ServerName: name, MinVersion: uint16(min), MaxVersion: uint16(max), NextProtos: protos,
			ClientAuth: tls.ClientAuthType(auth), InsecureSkipVerify: skip, PreferServerCipherSuites: pref,
			SessionTicketsDisabled: notick, DynamicRecordSizingDisabled: nodyn, Renegotiation: tls.RenegotiationSupport(reneg),
		}
		if set[0] {
			in.Rand, in.KeyLogWriter, in.RootCAs, in.ClientCAs = rnd, wr, pool, pool2
		}
		if set[1] {
			in.Time = func() time.Time { called |= 1; return time.Time{} }
			in.GetCertificate = func(*tls.ClientHelloInfo) (*tls.Certificate, error) { called |= 2; return nil, nil }
			in.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { called |= 4; return nil, nil }
			in.GetConfigForClient = func(*tls.ClientHelloInfo) (*tls.Config, error) { called |= 8; return nil, nil }
		}
		if set[2] {
			in.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { called |= 16; return nil }
			in.VerifyConnection = func(tls.ConnectionState) error { called |= 32; return nil }
			in.UnwrapSession = func([]byte, tls.ConnectionState) (*tls.SessionState, error) { called |= 64; return nil, nil }
			in.WrapSession = func(tls.ConnectionState, *tls.SessionState) ([]byte, error) { called |= 128; return nil, nil }
		}
		if set[3] {
			in.CipherSuites = []uint16{uint16(suite)}
			in.CurvePreferences = []tls.CurveID{tls.CurveID(curve)}
		}
		if set[4] {
			in.SessionTicketKey[0], in.SessionTicketKey[31] = 3, 4
			in.ClientSessionCache = cache
			in.NameToCertificate = n2c
			in.Certificates = []tls.Certificate{{OCSPStaple: []byte{9}}}
		}
		if set[5] {
			in.EncryptedClientHelloConfigList = ec
			in.EncryptedClientHelloRejectionVerify = func(tls.ConnectionState) error { called |= 256; return nil }
			in.GetEncryptedClientHelloKeys = func(*tls.ClientHelloInfo) ([]tls.EncryptedClientHelloKey, error) { called |= 512; return nil, nil }
			in.EncryptedClientHelloKeys = keys
		}
	}
	venv.Cert = tls.Certificate{OCSPStaple: []byte{7, 7}}
	fail := sym.Choice(3)
	switch fail {
	case 1:
		venv.KeyPairErr = errFault
	case 2:
		venv.ListenHook = func(n, a string) (net.Listener, error) { return nil, errFault }
	default:
		venv.ListenHook = func(n, a string) (net.Listener, error) { return new(venv.TCPListener), nil }
	}
	served := 0
	venv.ServeHook = func(s *http.Server, l net.Listener) error { served++; return errFault }
	addr := sym.String(0, 2)
	var err error
	if in == nil && sym.Choice(2) == 1 {
		err = graceful.ListenAndServeTLS(addr, "cert", "key", nil)
	} else {
		srv := &graceful.Server{Addr: addr, TLSConfig: in}
		err = srv.ListenAndServeTLS("cert", "key")
		sym.Assert(srv.TLSConfig == in, "the caller's server is not modified")
	}
	sym.Assert(err == errFault, "the error is returned")
	sym.Assert(venv.KeyPairArgs == [2]string{"cert", "key"}, "the certificate is loaded from the given files")
	if fail != 0 {
		sym.Assert(served == 0 && venv.TLSConfig == nil, "nothing is served")
		sym.Reach("failed")
		return
	}
	want := addr
	if sym.Decide(addr == "") {
		want = ":https"
	}
	sym.Assert(len(venv.Calls) == 1 && venv.Calls[0].Net == "tcp" && venv.Calls[0].Addr == want, "the address is bound")
	out := venv.TLSConfig
	sym.Assert(served == 1 && out != nil, "it is served with TLS")
	sym.Assert(len(out.Certificates) == 1 && len(out.Certificates[0].OCSPStaple) == 2, "the certificate is the loaded one")
	if in == nil {
		sym.Assert(out.MinVersion == tls.VersionTLS10 && out.MaxVersion == 0, "the default minimum is TLS 1.0")
		sym.Assert(len(out.NextProtos) == 1 && out.NextProtos[0] == "http/1.1", "HTTP/1.1 is the default protocol")
		sym.Reach("default")
		return
	}
	sym.Assert(out != in, "the caller's configuration is not modified")
	eqs := func(a, b []string) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	if protos == nil {
		sym.Assert(eqs(out.NextProtos, []string{"http/1.1"}), "HTTP/1.1 is the default protocol")
		sym.Assert(in.NextProtos == nil, "the caller's configuration is not modified")
	} else {
		sym.Assert(eqs(out.NextProtos, protos) && eqs(in.NextProtos, protos), "the protocols are kept")
	}
	sym.Assert(out.ServerName == name && int(out.MinVersion) == min && int(out.MaxVersion) == max, "name and versions are kept")
	sym.Assert(out.ClientAuth == tls.ClientAuthType(auth) && out.InsecureSkipVerify == skip && out.PreferServerCipherSuites == pref, "authentication settings are kept")
	sym.Assert(out.SessionTicketsDisabled == notick && out.DynamicRecordSizingDisabled == nodyn && out.Renegotiation == tls.RenegotiationSupport(reneg), "session settings are kept")
	if set[0] {
		sym.Assert(out.Rand == rnd && out.KeyLogWriter == wr && out.RootCAs == pool && out.ClientCAs == pool2, "readers, writers and pools are kept")
	} else {
		sym.Assert(out.Rand == nil && out.KeyLogWriter == nil && out.RootCAs == nil && out.ClientCAs == nil, "unset settings stay unset")
	}
	bits := 0
	if set[1] {
		sym.Assert(out.Time != nil && out.GetCertificate != nil && out.GetClientCertificate != nil && out.GetConfigForClient != nil, "certificate callbacks are kept")
		out.Time()
		out.GetCertificate(nil)
		out.GetClientCertificate(nil)
		out.GetConfigForClient(nil)
		bits |= 15
	} else {
		sym.Assert(out.Time == nil && out.GetCertificate == nil && out.GetClientCertificate == nil && out.GetConfigForClient == nil, "unset settings stay unset")
	}
	if set[2] {
		sym.Assert(out.VerifyPeerCertificate != nil && out.VerifyConnection != nil && out.UnwrapSession != nil && out.WrapSession != nil, "verification and session callbacks are kept")
		out.VerifyPeerCertificate(nil, nil)
		out.VerifyConnection(tls.ConnectionState{})
		out.UnwrapSession(nil, tls.ConnectionState{})
		out.WrapSession(tls.ConnectionState{}, nil)
		bits |= 240
	} else {
		sym.Assert(out.VerifyPeerCertificate == nil && out.VerifyConnection == nil && out.UnwrapSession == nil && out.WrapSession == nil, "unset settings stay unset")
	}
	if set[3] {
		sym.Assert(len(out.CipherSuites) == 1 && int(out.CipherSuites[0]) == suite && len(out.CurvePreferences) == 1 && int(out.CurvePreferences[0]) == curve, "suites and curves are kept")
	} else {
		sym.Assert(out.CipherSuites == nil && out.CurvePreferences == nil, "unset settings stay unset")
	}
	if set[4] {
		sym.Assert(out.SessionTicketKey[0] == 3 && out.SessionTicketKey[31] == 4 && out.ClientSessionCache == cache && out.NameToCertificate != nil, "tickets and caches are kept")
		sym.Assert(len(in.Certificates) == 1 && len(in.Certificates[0].OCSPStaple) == 1, "the caller's configuration is not modified")
	} else {
		sym.Assert(out.ClientSessionCache == nil && out.NameToCertificate == nil && in.Certificates == nil, "unset settings stay unset")
	}
	if set[5] {
		sym.Assert(len(out.EncryptedClientHelloConfigList) == 2 && len(out.EncryptedClientHelloKeys) == 1 && out.EncryptedClientHelloRejectionVerify != nil && out.GetEncryptedClientHelloKeys != nil, "encrypted client hello settings are kept")
		out.EncryptedClientHelloRejectionVerify(tls.ConnectionState{})
		out.GetEncryptedClientHelloKeys(nil)
		bits |= 768
	} else {
		sym.Assert(out.EncryptedClientHelloConfigList == nil && out.EncryptedClientHelloKeys == nil && out.EncryptedClientHelloRejectionVerify == nil && out.GetEncryptedClientHelloKeys == nil, "unset settings stay unset")
	}
	sym.Assert(called == bits, "the callbacks are the caller's")
	sym.Reach("kept")
}

type reader struct{ x int }

func (r *reader) Read(b []byte) (int, error) { return len(b), nil }

type writer struct{ x int }

func (w *writer) Write(b []byte) (int, error) { return len(b), nil }

var _ = hu.Itoa
