def mw(name, fn, **kw):
    return R(name, fn, pkg="h/mw", **kw)
check("C15", "Every path and parameter value up to 2 bytes, every presence of * and _, four environments, seven things the inner handler may do, with or without a panic; two nested sub-routers under implicit and explicit routing for every path of 4 to 6 bytes.", [
  mw("subrouter", "C15SubRouter", reach=["rewritten","through"]),
  mw("nested", "C15Nested", p=dict(max=6), reach=["done","outside","first"]),
], [
  mw("subrouter", "C15SubRouter", reach=["rewritten","through"]),
  mw("nested", "C15Nested", p=dict(min=0,max=9), reach=["done","outside","first"]),
], outside="a foreign value under MatchKey that is not a Match with a handler.")
check("C16", "Every method string up to 7 bytes, handlers that make up to 3 calls (header edits, any status from 100 to 599, writes of up to 1 byte, flushes), valid methods absent, foreign or any list.", [
  mw("options", "C16Options", p=dict(steps=3,body=1), reach=["answered","options passes","other"]) ],
 [ mw("options", "C16Options", p=dict(steps=4,body=1), reach=["answered","options passes","other"], budget=600) ],
 outside="handlers that use optional interfaces of the response writer, which the middleware hides (see C23 for those of the proxy).")
check("C17", "Handlers that make up to 2 calls and then panic with a string, an error, a runtime error, http.ErrAbortHandler or any other value, or do not.", [
  mw("recoverer", "C17Recoverer", p=dict(steps=2,body=1), reach=["no panic","500","started"]) ],
 [ mw("recoverer", "C17Recoverer", p=dict(steps=3,body=1), reach=["no panic","500","started"]) ],
 outside="panic(nil), which Go 1.21 and later turn into a runtime error; runtime.Goexit; the text of the log (C25).")
check("C18", "Every X-Forwarded-For and X-Real-IP value up to 4 bytes, absent, empty or repeated.", [ mw("realip", "C18RealIP", p=dict(len=4), reach=["forwarded","empty element","real","none"]) ],
 [ mw("realip", "C18RealIP", p=dict(len=7), reach=["forwarded","empty element","real","none"]) ],
 outside="longer header values.")
check("C19", "Any number of earlier requests below 2^64-16 (symbolic counter), two requests before and after; two goroutines of two requests each: every interleaving of synchronisation operations, every interleaving of statements for one request each (both by closure), and two preemptions at statement level.", [
  mw("ids", "C19IDs", p=dict(goroutines=2,each=2), preempt=2, stmt=["web/middleware"], reach=["done"]),
  mw("interleavings", "C19IDs", p=dict(goroutines=2,each=2), closure=True, reach=["done"]),
  mw("statements", "C19IDs", p=dict(goroutines=2,each=1), closure=True, stmt=["web/middleware"], reach=["done"]),
  mw("far", "C19Far", p=dict(each=2), reach=["done"]),
  mw("get", "C19Get", reach=["done"]) ],
 [ mw("ids", "C19IDs", p=dict(goroutines=3,each=1), preempt=2, stmt=["web/middleware"], reach=["done"]),
  mw("interleavings", "C19IDs", p=dict(goroutines=2,each=3), closure=True, reach=["done"]),
  mw("three", "C19IDs", p=dict(goroutines=3,each=1), closure=True, stmt=["web/middleware"], reach=["done"]),
  mw("statements", "C19IDs", p=dict(goroutines=2,each=2), closure=True, stmt=["web/middleware"], reach=["done"], budget=300),
  mw("far", "C19Far", p=dict(each=3), reach=["done"]),
  mw("get", "C19Get", reach=["done"]) ],
 outside="2^64 requests in one process; two processes with the same random prefix.")
check("C20", "Each of the six headers absent, empty, once or twice with any value of up to 1 byte, another header with any four-letter name; a handler that may override the response headers; any local time zone; any order of map iteration.", [ mw("nocache", "C20NoCache", mapnondet=True, p=dict(all=0,tz=1), reach=["overridden","done"]) ],
 [ mw("nocache", "C20NoCache", mapnondet=True, p=dict(all=0,tz=1), reach=["overridden","done"]), mw("together", "C20NoCache", p=dict(all=1,tz=1), reach=["overridden","done"]) ],
 outside="request headers under keys that are not in canonical form, which net/http never produces.")
check("C21", "Three middleware, four environments, every query up to 3 bytes; the query parser is executed symbolically on both sides.", [ mw("env", "C21Env", p=dict(query=3), reach=["kind0","kind1","kind2"]) ],
 [ mw("env", "C21Env", p=dict(query=4), reach=["kind0","kind1","kind2"]) ], outside="longer queries.")
check("C22", "Every sequence of 3 calls of WriteHeader (any status 100 to 599), Write, ReadFrom and Flush through each kind of proxy (2 calls on eleven kinds of underlying writer, with any set of optional methods or a proxy themselves), on an underlying writer that fails or writes short at any point.", [ mw("proxy", "C22Proxy", p=dict(ops=3,writers=4), reach=["flush","write error","readfrom","done"]),
   mw("writers", "C22Proxy", p=dict(ops=2), reach=["flush","write error","readfrom","done"]) ],
 [ mw("proxy", "C22Proxy", p=dict(ops=4,writers=4), reach=["flush","write error","readfrom","done"], budget=700), mw("writers", "C22Proxy", p=dict(ops=3), reach=["flush","write error","readfrom","done"]) ],
 outside="bytes written by code that was handed the unwrapped or hijacked writer.")
check("C23", "Every sequence of 2 calls with a tee installed and removed at any point, failing and short writers on both sides; every combination of optional interfaces.", [ mw("tee", "C23Tee", p=dict(ops=2), reach=["tee","tee error","flush","write error","readfrom","done"]),
   mw("optional", "C23Optional", reach=["flush","hijack","push","done"]) ],
 [ mw("tee", "C23Tee", p=dict(ops=3), reach=["tee","tee error","flush","write error","readfrom","done"], budget=700), mw("optional", "C23Optional", reach=["flush","hijack","push","done"]) ],
 outside="ReadFrom larger than the copy buffer.")
check("C24", "Handlers that make up to 2 calls, with every kind of response writer, with or without a panic.", [ mw("logger", "C24Logger", p=dict(steps=2,body=1), reach=["implied","sent","flush"]) ],
 [ mw("logger", "C24Logger", p=dict(steps=3,body=1), reach=["implied","sent","flush"]) ], outside="the text of the log lines (C25).")

check("C25", "Every ID, method, path and address up to 2 bytes (methods and paths alphanumeric) with a handler that answers, or every status and four kinds of panic with a plain request; Logger, Recoverer or both; a terminal or not.", [ mw("log", "C25Log", p=dict(len=2,tty=1), reach=["id","panic","end"]) ],
 [ mw("log", "C25Log", p=dict(len=3,tty=1), reach=["id","panic","end"]) ], outside="the wording and the durations; the backtrace; URLs that need quoting, except one.")
