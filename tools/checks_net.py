CLO = "Interleavings are closed: the solver shows that no interleaving of the synchronisation operations leaves the explored set, so there is no bound on preemptions."
WEAK = "weak memory effects; "
def ln(name, fn, **kw):
    return R(name, fn, pkg="h/listener", **kw)
SEQ = dict(reach=["drained","closeidle","close again","disown again"])
check("C30", "One connection in any mode, its user making up to 2 calls (3 with two preemptions) against CloseIdle and Drain. " + CLO, [
   ln("interleavings", "C30Use", p=dict(conns=1,steps=2), closure=True, reach=["in use","closed after use"]),
   ln("statements", "C30Use", p=dict(conns=1,steps=2), preempt=2, stmt=["graceful/listener"], reach=["in use","closed after use"]),
  ln("use", "C30Use", p=dict(conns=1,steps=3), preempt=2, reach=["in use","closed after use"]),
   ln("histories", "Seq", p=dict(conns=1,steps=4,end=1), **SEQ) ], [
   ln("interleavings", "C30Use", p=dict(conns=1,steps=3), closure=True, reach=["in use","closed after use"], budget=500),
   ln("use", "C30Use", p=dict(conns=1,steps=4), preempt=3, reach=["in use","closed after use"]),
   ln("histories", "Seq", p=dict(conns=1,steps=5,end=1), **SEQ) ],
  outside=WEAK + "more connections at once (C31, C34 and the histories use two).")
check("C31", "One connection and one accepted late in any mode, its user making 1 call, against Drain: every interleaving without the late accept, two preemptions with it; histories of 3 calls on two connections; any number of earlier connections (symbolic counter). " + CLO, [
   ln("interleavings", "C31Drain", p=dict(conns=1,late=0,steps=1), closure=True, reach=["drained"]),
   ln("statements", "C31Drain", p=dict(conns=1,late=1,steps=1), preempt=1, stmt=["graceful/listener"], reach=["drained","late accept"]),
  ln("drain", "C31Drain", p=dict(conns=1,late=1,steps=1), preempt=2, reach=["drained","late accept"]),
   ln("far", "Seq", p=dict(conns=1,steps=2,end=1,far=1), **SEQ),
   ln("histories", "Seq", p=dict(conns=2,steps=3,end=1), **SEQ) ], [
   ln("late", "C31Drain", p=dict(conns=1,late=1,steps=1), closure=True, reach=["drained","late accept"], budget=700),
   ln("interleavings", "C31Drain", p=dict(conns=1,late=0,steps=2), closure=True, reach=["drained"], budget=300),
   ln("drain", "C31Drain", p=dict(conns=1,late=1,steps=2), preempt=2, reach=["drained","late accept"]),
   ln("far", "Seq", p=dict(conns=2,steps=2,end=1,far=1,cpus=2), **SEQ),
   ln("histories", "Seq", p=dict(conns=2,steps=4,end=1), **SEQ) ],
  outside=WEAK + "counting overflow after 2^64 connections wraps around, which the run 'far' includes.")
check("C32", "One connection in any mode, one goroutine making 2 of six calls against CloseIdle, Drain and DrainAll: every interleaving; two such goroutines of one call each with two preemptions; histories of 4 calls. " + CLO, [
   ln("interleavings", "C32Calls", p=dict(steps=2,goroutines=1), closure=True, reach=["done","waiting"]),
   ln("calls", "C32Calls", p=dict(steps=1), preempt=2, reach=["done","waiting"]),
  ln("statements", "C32Calls", p=dict(steps=1,goroutines=1), preempt=2, stmt=["graceful/listener"], reach=["done","waiting"]),
  ln("busy", "C32Calls", p=dict(steps=1,goroutines=2,busy=1), preempt=1, stmt=["graceful/listener"], reach=["done","waiting"]),
  ln("two", "C32Calls", p=dict(steps=1,goroutines=2), preempt=1, stmt=["graceful/listener"], reach=["done","waiting"]),
   ln("histories", "Seq", p=dict(conns=1,steps=4,end=2), **SEQ) ], [
   ln("interleavings", "C32Calls", p=dict(steps=3,goroutines=1), closure=True, reach=["done","waiting"], budget=400),
   ln("two", "C32Calls", p=dict(steps=1,goroutines=2), closure=True, reach=["done"], budget=600),
   ln("calls", "C32Calls", p=dict(steps=1,goroutines=2), preempt=3, reach=["done","waiting"]),
   ln("histories", "Seq", p=dict(conns=1,steps=5,end=2), **SEQ) ], outside=WEAK + "longer histories.")
check("C33", "Disown of one connection in any state against CloseIdle, Drain and DrainAll. " + CLO, [
   ln("interleavings", "C33Disown", p=dict(sweeps=1), closure=True, reach=["owned","closed first"]),
   ln("statements", "C33Disown", p=dict(sweeps=1), preempt=2, stmt=["graceful/listener"], reach=["owned","closed first"]),
  ln("disown", "C33Disown", p=dict(sweeps=1), preempt=2, reach=["owned","closed first"]) ], [
   ln("interleavings", "C33Disown", p=dict(sweeps=1), closure=True, reach=["owned","closed first"]),
   ln("disown", "C33Disown", p=dict(sweeps=2), preempt=3, reach=["owned","closed first"]) ], outside=WEAK + "more than one sweep without a bound on preemptions.")
check("C34", "One connection and one accepted late in any mode, its user making 1 call, against DrainAll. " + CLO, [
   ln("interleavings", "C34All", p=dict(conns=1,late=1,steps=1), closure=True, reach=["drained","refused"]),
  ln("statements", "C34All", p=dict(conns=1,late=1,steps=1), preempt=1, stmt=["graceful/listener"], reach=["drained","refused"]) ], [
   ln("interleavings", "C34All", p=dict(conns=1,late=1,steps=2), closure=True, reach=["drained","refused"]),
   ln("all", "C34All", p=dict(conns=2,late=1,steps=1), preempt=2, reach=["drained","refused"]) ], outside=WEAK + "more connections.")
check("C35", "One connection in any mode and state, any read result of up to 2 bytes and an error, against Close, MarkIdle and the sweeps. " + CLO, [
   ln("race", "C35Read", closure=True, reach=["closed","read"]), ln("statements", "C35Read", preempt=2, stmt=["graceful/listener"], reach=["closed","read"]), ln("results", "C35Results", reach=["done"]) ], [
   ln("race", "C35Read", closure=True, reach=["closed","read"]), ln("preemptions", "C35Read", preempt=4, reach=["closed","read"]), ln("results", "C35Results", reach=["done"]) ],
  outside=WEAK + "reads that return data together with an error after a close return that error with the data, as the underlying connection did.")
check("C36", "Every history of 3 calls on two connections in any mode, with any deadline and any read result, from any number of earlier connections (symbolic counter), against a reference state machine.", [
   ln("histories", "Seq", p=dict(conns=2,steps=3,end=2), **SEQ), ln("far", "Seq", p=dict(conns=1,steps=3,end=2,far=1), **SEQ),
   ln("others", "Seq", p=dict(conns=1,steps=3,end=1,others=1), reach=["other","drained"]) ], [
   ln("others", "Seq", p=dict(conns=1,steps=4,end=1,others=1), reach=["other","drained"]),
   ln("histories", "Seq", p=dict(conns=2,steps=4,end=2), **SEQ), ln("one", "Seq", p=dict(conns=1,steps=5,end=2), **SEQ), ln("far", "Seq", p=dict(conns=2,steps=3,end=2,far=1,cpus=2), **SEQ) ],
  outside="longer histories.")
def gr(name, fn, **kw):
    return R(name, fn, pkg="h/graceful", **kw)
check("C40", "One shutdown of any kind (call, forced call, signal) with one hook of each kind, one listener and a connection that may be in use: every interleaving of synchronisation operations (closure); two shutdowns, two hooks of each kind with one preemption.", [
   gr("interleavings", "C40Hooks", p=dict(pre=1,post=1,listeners=1,kicks=1,idle=0,begin=1), closure=True, reach=["done"]),
   gr("statements", "C40Hooks", p=dict(pre=1,post=1,listeners=0,kicks=2,begin=1), preempt=2, stmt=["graceful"], reach=["done","mixed"]),
   gr("hooks", "C40Hooks", p=dict(pre=2,post=2,listeners=1,kicks=2), preempt=1, reach=["done","mixed"]) ], [
   gr("interleavings", "C40Hooks", p=dict(pre=2,post=2,listeners=1,kicks=1,idle=0,begin=1), closure=True, reach=["done"]),
   gr("two", "C40Hooks", p=dict(pre=1,post=0,listeners=0,kicks=2,idle=0,begin=1), closure=True, reach=["done"], budget=500),
   gr("hooks", "C40Hooks", p=dict(pre=1,post=1,listeners=1,kicks=2), preempt=2, reach=["done","mixed"], budget=500),
   gr("listeners", "C40Hooks", p=dict(pre=2,post=2,listeners=2,kicks=2), preempt=1, reach=["done","mixed"]) ],
  outside="listeners and hooks registered after a shutdown began; hooks that panic or call back into the package.")
check("C41", "Two signals at any times in a window of about a millisecond against any DoubleKickWindow and Timeout in that range (the ratio is what counts), in virtual time.", [ gr("signals", "C41Signals", p=dict(signals=2), preempt=0, reach=["forced","graceful","ignored","reset"]),
   gr("timeout", "C41Timeout", preempt=0, reach=["manual","none","expired","in time"]) ],
 [ gr("signals", "C41Signals", p=dict(signals=4), preempt=0, reach=["forced","graceful","ignored","reset"]),
   gr("timeout", "C41Timeout", preempt=1, reach=["manual","none","expired","in time"]) ],
  outside="two signals that arrive before the first is taken from the channel (the operating system coalesces them); clock steps.")
check("C42", "Every accept error kind, before and after a shutdown; two connections and one shutdown while accepting. " + CLO, [ gr("errors", "C42Errors", preempt=0, reach=["peaceful","returned"]), gr("race", "C42Race", p=dict(conns=2), closure=True, reach=["all accepted","cut off"]), gr("statements", "C42Race", p=dict(conns=1), preempt=2, stmt=["graceful"], reach=["all accepted"]) ],
 [ gr("errors", "C42Errors", preempt=1, reach=["peaceful","returned"]), gr("race", "C42Race", p=dict(conns=3), closure=True, reach=["all accepted","cut off"]), gr("preemptions", "C42Race", p=dict(conns=2), preempt=3, reach=["all accepted","cut off"]) ],
  outside=WEAK + "errors returned by net/http's Serve for reasons other than accept.")
check("C43", "Two connections, every sequence of 3 reads and reported states (any value 0 to 6, known or not), then a graceful or forced shutdown; the package-level functions with any address up to 2 bytes.", [ gr("states", "C43States", p=dict(conns=2,steps=3), preempt=0, reach=["hijacked","busy"]), gr("default", "C43Default", reach=["served"]) ],
 [ gr("states", "C43States", p=dict(conns=2,steps=4), preempt=0, reach=["hijacked","busy"]), gr("default", "C43Default", reach=["served"]) ],
  outside="net/http's server itself, which is replaced by the states it may report; the keep-alive settings of TCP connections.")
check("C44", "Every exported field of tls.Config of the installed Go release, one at a time and together, set to arbitrary values.", [ gr("tls", "C44TLS", reach=["failed","default","kept"]) ],
  outside="unexported state; the TLS handshake.")
def bd(name, fn, **kw):
    return R(name, fn, pkg="h/bind", **kw)
check("C50", "Every bind string up to 3 bytes after any of the documented prefixes, under Einhorn or not.", [ bd("dispatch", "C50Dispatch", p=dict(len=3), reach=["error","failure","listentcp","listenunix","newfile"]),
  bd("einhorn", "C50Dispatch", p=dict(len=2,env=2), reach=["error","failure","listentcp","listenunix","newfile"]) ],
 [ bd("dispatch", "C50Dispatch", p=dict(len=5), reach=["error","failure","listentcp","listenunix","newfile"]),
  bd("einhorn", "C50Dispatch", p=dict(len=3,env=2), reach=["error","failure","listentcp","listenunix","newfile"]) ],
  outside="the operating system's own parsing of addresses.")
check("C51", "Every environment with each variable unset or any value up to 1 byte or one of the meaningful ones, with and without a flag.", [ bd("default", "C51Default", p=dict(env=1,envlen=1), reach=["GOJI_BIND","einhorn","systemd","PORT","default"]) ],
 [ bd("default", "C51Default", p=dict(env=1,envlen=2), reach=["GOJI_BIND","einhorn","systemd","PORT","default"]) ], outside="flags parsed by another flag set.")
check("C52", "Every announcement of inherited sockets with each variable unset, meaningful or any value up to 1 byte.", [ bd("sockets", "C52Sockets", p=dict(env=1,envlen=1), reach=["einhorn","systemd","newfile","error"]) ],
 [ bd("sockets", "C52Sockets", p=dict(env=1,envlen=2), reach=["einhorn","systemd","newfile","error"]) ], outside="descriptors beyond those counts.")
check("C53", "Three goroutines calling Ready twice each, under Einhorn and not. " + CLO, [ bd("ready", "C53Ready", p=dict(env=2,goroutines=3,each=2), closure=True, reach=["acknowledged","outside"]), bd("statements", "C53Ready", p=dict(env=2,goroutines=2,each=1), closure=True, stmt=["bind"], reach=["acknowledged","outside"]) ],
 [ bd("ready", "C53Ready", p=dict(env=2,goroutines=4,each=1), closure=True, reach=["acknowledged","outside"]), bd("preemptions", "C53Ready", p=dict(env=2,goroutines=3,each=2), preempt=3, reach=["acknowledged","outside"]) ],
  outside="a control socket that fails, which is fatal.")
def go(name, fn, **kw):
    return R(name, fn, pkg="h/goji", **kw)
check("C60", "Handlers that make up to 1 call (2 in thorough), may panic, any method up to 2 bytes or a standard one, any path of the table or none.", [ go("default", "C60Default", p=dict(steps=1,body=1,len=2), preempt=0, reach=["options","404","handler","500","200"]) ],
 [ go("default", "C60Default", p=dict(steps=2,body=1,len=7), preempt=0, reach=["options","404","handler","500","200"]) , go("requests", "C60Default", p=dict(steps=1,body=0,len=0,requests=2), preempt=0, reach=["options","404","handler","500","200"]) ],
  outside="the rest of the log (C25); concurrent requests (C09, C19).")
check("C61", "One connection, any bind string the harness knows, signals at any times around the two-second window, bind and serve failures.", [ go("serve", "C61Serve", p=dict(conns=1), preempt=0, reach=["bind error","serve error","signal","forced","done"]), go("einhorn", "C61Einhorn", p=dict(env=2), preempt=0, reach=["bind error","done"]) ],
 [ go("serve", "C61Serve", p=dict(conns=2), preempt=1, reach=["bind error","serve error","signal","forced","done"]), go("einhorn", "C61Einhorn", p=dict(env=2), preempt=1, reach=["bind error","done"]) ],
  outside="net/http's server loop, which is replaced by one that accepts, reads and serves.")
CH["C13"]["quick"] += [ go("package", "C13Package", reach=["miss"]), go("stack", "C13Stack", reach=["done"]) ]
CH["C13"]["thorough"] += [ go("package", "C13Package", p=dict(len=9), reach=["miss"]), go("stack", "C13Stack", reach=["done"]) ]
check("C37", "Every sequence of 2 calls on a connection in 5 states and 3 modes, with every result of the underlying connection; up to 2 failed Accepts before.", [ ln("pass", "C37Pass", p=dict(steps=2), reach=["accept error","readfrom","closed","done"]) ],
 [ ln("pass", "C37Pass", p=dict(steps=3), reach=["accept error","readfrom","closed","done"], budget=600) ],
 outside="what the connection does after it was closed (C35, C36); a ReadFrom larger than the copy buffer.")
check("C45", "Every sequence of 3 configuring calls with any signals (1 to 64), then any signal; Einhorn or not.", [ gr("signals", "C45Signals", p=dict(steps=3,env=1), reach=["einhorn","none","reset","shutdown","ignored"]) ],
 [ gr("signals", "C45Signals", p=dict(steps=4,env=1), reach=["einhorn","none","reset","shutdown","ignored"], budget=600) ],
 outside="signals that were delivered before a reset.")
L46=["certificate","bind error","keep-alive","accept error","done"]
check("C46", "Six ways to start serving, every address up to 2 bytes, a failure of each step, two connections in use or idle, failing socket options.", [ gr("listen", "C46Listen", p=dict(conns=2), reach=L46) ],
 [ gr("listen", "C46Listen", p=dict(conns=3), reach=L46) ], outside="the operating system's sockets; the keep-alive period.")
check("C47", "Two listeners of any of five kinds with a connection in any state, graceful or forced; three goroutines registering listeners and hooks; one registering while a shutdown goes on. " + CLO, [
  gr("all", "C47All", p=dict(listeners=2), reach=["waited","done"]),
  gr("race", "C47Race", p=dict(goroutines=2,begin=1), closure=True, stmt=["graceful"], reach=["done"]),
  gr("race3", "C47Race", p=dict(goroutines=3,begin=1), closure=True, reach=["done"]),
  gr("during", "C47During", p=dict(begin=1), closure=True, stmt=["graceful"], reach=["before","during"]) ],
 [ gr("all", "C47All", p=dict(listeners=3), reach=["waited","done"]),
  gr("race", "C47Race", p=dict(goroutines=3,begin=1), closure=True, stmt=["graceful"], reach=["done"]),
  gr("during", "C47During", p=dict(begin=1), closure=True, stmt=["graceful","graceful/listener"], reach=["before","during"]) ],
 outside=WEAK + "listeners registered while a shutdown is in progress.")
