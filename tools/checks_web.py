BYTES = "All 256 byte values of every symbolic string character are covered at once."
check("C01", "Every table of 3 routes with custom patterns (arbitrary prefix up to 2 bytes, arbitrary further condition and methods) and every path up to 3 bytes; every pair of built-in patterns from the list and every path up to 3 bytes.", [
  R("custom", "C01Custom", p=dict(routes=3, prefix=2, path=3), reach=["found", "notfound"]),
  R("builtin", "C01Builtin", p=dict(routes=2, path=3), reach=["found", "notfound"]),
  R("history", "C01Custom", p=dict(routes=2, prefix=2, path=2, methods=3, hist=1), reach=["found", "notfound"]),
  R("long", "C02Long", p=dict(routes=2, shared=4, tail=4, path=1), reach=["found", "notfound"]),
  R("big", "C01Big", p=dict(routes=260,path=1), reach=["found", "notfound"]),
  R("far", "C01Big", p=dict(routes=3,path=1,long=128), reach=["found", "notfound"]),
  R("farther", "C01Big", p=dict(routes=3,path=1,long=256), reach=["found", "notfound"]),
], [
  R("big", "C01Big", p=dict(routes=260,path=2), reach=["found", "notfound"]),
  R("far", "C01Big", p=dict(routes=3,path=2,long=128), reach=["found", "notfound"]),
  R("farther", "C01Big", p=dict(routes=3,path=2,long=256), reach=["found", "notfound"]),
  R("custom", "C01Custom", p=dict(routes=3, prefix=2, path=4), reach=["found", "notfound"]),
  R("four", "C01Custom", p=dict(routes=4, prefix=2, path=2, alphabet=1), reach=["found", "notfound"]),
  R("methods", "C01Custom", p=dict(routes=2, prefix=2, path=3, methods=10), reach=["found", "notfound"]),
  R("builtin", "C01Builtin", p=dict(routes=2, path=5), reach=["found", "notfound"]),
  R("triples", "C01Builtin", p=dict(routes=3, path=2), reach=["found", "notfound"]),
], outside="more routes than stated, longer prefixes (C02 long covers the byte-wise states up to 15 bytes for two routes), custom patterns whose Match depends on anything but the path's prefix and a fixed condition.")
check("C02", "Every pair of built-in patterns from the list of 8 and every path up to 2 bytes and any method; literal prefixes of up to 15 bytes and paths that end anywhere in them.", [
  R("any", "C02Any", p=dict(routes=2, path=2, patterns=8), reach=["found", "notfound"]),
  R("long", "C02Long", p=dict(routes=2, shared=8, tail=7, path=1), reach=["found", "notfound"]),
  R("big", "C01Big", p=dict(routes=260,path=1), reach=["found", "notfound"]),
  R("far", "C01Big", p=dict(routes=3,path=1,long=128), reach=["found", "notfound"]),
], [
  R("big", "C01Big", p=dict(routes=260,path=2), reach=["found", "notfound"]),
  R("far", "C01Big", p=dict(routes=3,path=2,long=256), reach=["found", "notfound"]),
  R("any", "C02Any", p=dict(routes=2, path=4, patterns=8), reach=["found", "notfound"]),
  R("triples", "C02Any", p=dict(routes=3, path=2, patterns=8), reach=["found", "notfound"]),
  R("long", "C02Long", p=dict(routes=2, shared=8, tail=7, path=3), reach=["found", "notfound"]),
  R("longer", "C02Long", p=dict(routes=2, shared=20, tail=3, path=1), reach=["found", "notfound"]),
], outside="requests with a nil URL; handlers and patterns of the user that panic themselves.")
check("C03", "Tables of two routes with any registration function and any match result, every request method string up to 7 bytes; every method the statement quantifies over is asked of the real router in a reference request.", [
  R("valid", "C03Valid", p=dict(routes=2), reach=["set", "old", "found", "none"]),
  R("nine", "C03Valid", p=dict(each=2,prefixes=1), reach=["set", "none"]),
], [
  R("nine", "C03Valid", p=dict(each=1,prefixes=1), reach=["set", "none"]),
  R("valid", "C03Valid", p=dict(routes=2), reach=["set", "old", "found", "none"]),
  R("three", "C03Valid", p=dict(routes=3, kinds=10), reach=["set", "old", "found", "none"], budget=600),
], outside="CONNECT is not among the methods goji can report (it has no bit for unknown methods); method strings longer than 7 bytes equal no standard method.")
check("C04", "Patterns of up to 3 tokens against every path up to 4 bytes; every pattern of up to 4 bytes over the alphabet /:*.;,ax against every path up to 3 bytes; every pattern of up to 3 arbitrary bytes against every path up to 2 bytes. The oracle is an independent backtracking matcher over the documented grammar.", [
  R("tokens", "C04Tokens", p=dict(tokens=3,path=4), reach=["bound","literal","nomatch"]),
  R("bytes", "C04Bytes", p=dict(pattern=4,path=3), reach=["bound","literal","nomatch"]),
  R("any", "C04Any", p=dict(pattern=3,path=2), reach=["bound","literal","nomatch"]),
], [
  R("tokens", "C04Tokens", p=dict(tokens=4,path=6), reach=["bound","literal","nomatch"]),
  R("bytes", "C04Bytes", p=dict(pattern=5,path=4), reach=["bound","literal","nomatch"]),
  R("any", "C04Any", p=dict(pattern=4,path=3), reach=["bound","literal","nomatch"]),
], outside="longer patterns and paths.")
check("C05", "String patterns of up to 3 tokens and regular expressions of up to 2 atoms from a list of 14 (with anchors, alternation, case folding, repetition, classes), every path up to 4 (2) bytes.", [
  R("string", "C05String", p=dict(tokens=3,path=4), reach=["nomatch","prefix","empty prefix"]),
  R("regexp", "C05Regexp", p=dict(len=2,path=2,atoms=14), reach=["nomatch","prefix","empty prefix"]),
  R("offered", "C01Builtin", p=dict(routes=2,path=3), reach=["found","notfound"]),
  R("prefixes", "C01Custom", p=dict(routes=3,prefix=2,path=2,alphabet=2), reach=["found","notfound"]),
], [
  R("offered", "C01Builtin", p=dict(routes=2,path=4), reach=["found","notfound"]),
  R("prefixes", "C01Custom", p=dict(routes=3,prefix=2,path=3), reach=["found","notfound"]),
  R("string", "C05String", p=dict(tokens=4,path=6), reach=["nomatch","prefix","empty prefix"]),
  R("regexp", "C05Regexp", p=dict(len=2,path=3,atoms=14), reach=["nomatch","prefix","empty prefix"]),
  R("triples", "C05Regexp", p=dict(len=3,path=2,atoms=8), reach=["nomatch","prefix","empty prefix"]),
], outside="regular expressions outside the generated grammar.")
check("C06", "Regular expressions of up to 2 atoms from a list of 12 with 3 flag prefixes, and single atoms with 9, against every path up to 2 bytes; the regexp package itself is executed symbolically on both sides.", [
  R("pairs", "C06Regexp", p=dict(len=2,path=2,atoms=12), reach=["nomatch","groups","match"]),
  R("atoms", "C06Regexp", p=dict(len=1,path=2,flags=9), reach=["nomatch","groups","match"]),
  R("many", "C06Many", p=dict(groups=12,path=2), reach=["group"]),
], [
  R("many", "C06Many", p=dict(groups=24,path=2), reach=["group"]),
  R("pairs", "C06Regexp", p=dict(len=2,path=3,atoms=14), reach=["nomatch","groups","match"]),
  R("atoms", "C06Regexp", p=dict(len=1,path=4,flags=9), reach=["nomatch","groups","match"]),
], outside="regular expressions outside the generated grammar; whether package regexp itself is right (it is the oracle).")
check("C07", "Every built-in pattern of the list and every path up to 4 bytes; tables of two routes and every path up to 2 bytes.", [
  R("pure", "C07Pure", p=dict(path=4), reach=["nomatch","match"]),
  R("table", "C07Table", p=dict(path=2), reach=["found","notfound"]),
], [
  R("pure", "C07Pure", p=dict(path=6), reach=["nomatch","match"]),
  R("table", "C07Table", p=dict(path=4), reach=["found","notfound"]),
  R("triples", "C07Table", p=dict(routes=3,path=2), reach=["found","notfound"]),
], outside="custom patterns (theirs is the duty not to modify the context).")
check("C08", "Every sequence of 3 edits, requests and edits made during a request, on 2 middleware of both kinds plus one that is never installed; in each request any one middleware may decline to pass it on, which the solver decides from a symbolic request header.", [
  R("stack", "C08Stack", p=dict(mws=2,ops=3), reach=["served","stopped"]),
], [
  R("stack", "C08Stack", p=dict(mws=3,ops=3), reach=["served","stopped"]),
  R("longer", "C08Stack", p=dict(mws=2,ops=4), reach=["served","stopped"]),
], outside="longer histories; edits made concurrently with requests (C09 and C14 interleave requests and registrations).")
check("C09", "Sequences of 3 requests, nested and panicking ones included, with every behaviour of the pools; two concurrent requests: every interleaving of the statements of package web (no bound on preemptions, decided by the interleaving closure), and one preemption with a pool that forgets entries.", [
  R("seq", "C09Seq", p=dict(requests=3,pool=1), reach=["done","panic","nested","edit"]),
  R("interleavings", "C09Concurrent", p=dict(goroutines=2,pool=0,busy=0), closure=True, stmt=["web"], reach=["done"]),
  R("concurrent", "C09Concurrent", p=dict(goroutines=2,pool=1), preempt=1, stmt=["web"], reach=["done"]),
], [
  R("seq", "C09Seq", p=dict(requests=4,pool=1), reach=["done","panic","nested","edit"]),
  R("interleavings", "C09Concurrent", p=dict(goroutines=2,pool=0,busy=0), closure=True, stmt=["web"], reach=["done"]),
  R("pools", "C09Concurrent", p=dict(goroutines=2,pool=1,busy=0), closure=True, reach=["done"], budget=300),
  R("preemptions", "C09Concurrent", p=dict(goroutines=2,pool=0), preempt=2, stmt=["web"], reach=["done"]),
  R("three", "C09Concurrent", p=dict(goroutines=3,pool=0,busy=0), preempt=1, reach=["done"]),
], outside="more than 3 requests at a time; memory-model effects weaker than sequential consistency (data races are C14's and the race detector's matter).")
check("C10", "Eight handler forms, two muxes deep, up to two middleware per mux, any parameter name, value and path segment of one byte.", [
  R("flow", "C10Flow", p=dict(depth=2,path=1), reach=["context","plain","nested"]),
  R("layers", "C10Flow", p=dict(depth=1,path=1,mws=4,forms=3), reach=["context","plain"]),
], [
  R("layers", "C10Flow", p=dict(depth=1,path=1,mws=5), reach=["context","plain"]),
  R("flow", "C10Flow", p=dict(depth=2,path=2), reach=["context","plain","nested"]),
  R("deep", "C10Flow", p=dict(depth=3,path=1,mws=1), reach=["context","plain","nested"]),
], outside="a mux without a Router inside a mux with one reuses the outer match (documented); such nestings are exercised with the inner Router attached.")
check("C11", "Tables of two routes from the list of 8 patterns, the Router at any of the positions among two layers, every path up to 1 byte (nested: 2).", [
  R("router", "C11Router", p=dict(routes=2,path=1,patterns=8), reach=["found","notfound"]),
  R("nested", "C11Nested", p=dict(path=2), reach=["both"]),
  R("preset", "C11Preset", reach=["kind0","kind1","kind2"]),
], [
  R("router", "C11Router", p=dict(routes=2,path=3,patterns=8), reach=["found","notfound"]),
  R("nested", "C11Nested", p=dict(path=4), reach=["both"]),
  R("preset", "C11Preset", reach=["kind0","kind1","kind2"]),
], outside="custom patterns that answer differently when asked twice.")
check("C12", "Every string pattern of '/' and up to 2 arbitrary bytes, every generated regular expression, custom patterns; eight handler forms; every path up to 2 bytes.", [
  R("raw", "C12Raw", p=dict(path=2,len=1), reach=["matched","notfound"]),
  R("get", "C12Get", reach=["done"]),
], [
  R("raw", "C12Raw", p=dict(path=3,len=1), reach=["matched","notfound"]),
  R("get", "C12Get", reach=["done"]),
], outside="a middleware that stores a foreign value under MatchKey.")
check("C13", "Every registration function and every method string up to 7 bytes, for web.Mux and for the package-level functions of goji.", [
  R("methods", "C13Methods", p=dict(len=8), reach=["miss"]),
], [
  R("methods", "C13Methods", p=dict(len=10), reach=["miss"]),
], outside="method strings that are longer (no standard method is).")
check("C14", "Every interleaving of the statements of package web (no bound on preemptions, decided by the interleaving closure) for one goroutine adding one or two routes and one routing a request, from compiled and uncompiled tables; two adders, two routes each and two requests with one preemption.", [
  R("interleavings", "C14Concurrent", p=dict(each=1,adders=1,requests=1), closure=True, stmt=["web"], reach=["done"]),
  R("two", "C14Concurrent", p=dict(each=2,adders=1,requests=1), closure=True, reach=["done"]),
  R("requests", "C14Concurrent", p=dict(each=1,adders=1,requests=2), closure=True, stmt=["web"], reach=["done"]),
  R("concurrent", "C14Concurrent", p=dict(each=2,adders=2,requests=2), preempt=1, stmt=["web"], reach=["done"]),
  R("before", "C14Concurrent", p=dict(each=1,adders=1,requests=1,base=3), closure=True, stmt=["web"], reach=["done"]),
], [
  R("before", "C14Concurrent", p=dict(each=2,adders=1,requests=1,base=3), closure=True, stmt=["web"], reach=["done"], budget=400),
  R("interleavings", "C14Concurrent", p=dict(each=2,adders=1,requests=1), closure=True, stmt=["web"], reach=["done"]),
  R("requests", "C14Concurrent", p=dict(each=1,adders=1,requests=2), closure=True, stmt=["web"], reach=["done"]),
  R("adders", "C14Concurrent", p=dict(each=1,adders=2,requests=1), closure=True, reach=["done"], budget=400),
  R("concurrent", "C14Concurrent", p=dict(each=2,adders=2,requests=2), preempt=1, stmt=["web"], reach=["done"]),
  R("preemptions", "C14Concurrent", p=dict(each=1,adders=2,requests=1), preempt=2, stmt=["web"], reach=["done"], budget=400),
], outside="weak memory effects beyond interleaved statements.")
check("C26", "Every history of 3 edits (Use, Abandon, Handle, NotFound) and requests, spread over two muxes in any way, with two middleware and two routes that both muxes may have, every path of up to one byte after the slash.", [
  R("muxes", "C26Muxes", p=dict(ops=3), reach=["served"]),
], [
  R("muxes", "C26Muxes", p=dict(ops=4), reach=["served"]),
], outside="more than two muxes; longer histories; muxes used by several goroutines (C09, C14).")
check("C27", "A panic at each of nine places (a pattern's Match, Run and Prefix, a middleware before and after it passes the request on and while it is built, a route's handler, the NotFound handler, a nested mux's handler), with any string of up to 2 bytes, any integer up to 100 or an error as its value, with the Router at either side of the middleware or without it, before or after other requests; the place is a symbolic variable, as are the request's method and path (up to 2 bytes), which decide whether it is reached.", [
  R("panic", "C27Panic", reach=["place%d" % i for i in range(9)]),
], [
  R("panic", "C27Panic", reach=["place%d" % i for i in range(9)]),
], outside="panic(nil) and runtime.Goexit; panics in two places at once.")
check("C28", "Thirteen handler values, eleven pattern values and eleven middleware values whose types are close to the documented ones, in every function that takes one, with arbitrary string contents.", [
  R("types", "C28Types", reach=["handler", "pattern", "middleware"]),
], [
  R("types", "C28Types", reach=["handler", "pattern", "middleware"]),
], outside="types that are not listed in the harness.")

check("C29", "Two goroutines, each making one edit (Use, Insert before, or Abandon of, either of two middleware that are there, or adding a route), every interleaving of the statements of package web; two edits each (all at the first of the two) with one preemption.", [
  R("interleavings", "C29Edits", p=dict(each=1), closure=True, stmt=["web"], reach=["done", "route"]),
  R("two", "C29Edits", p=dict(each=2, refs=1), preempt=1, stmt=["web"], reach=["done", "route"]),
], [
  R("interleavings", "C29Edits", p=dict(each=1), closure=True, stmt=["web"], reach=["done", "route"]),
  R("two", "C29Edits", p=dict(each=2), closure=True, reach=["done", "route"], budget=400),
  R("preemptions", "C29Edits", p=dict(each=2), preempt=2, stmt=["web"], reach=["done", "route"], budget=400),
], outside="more than two goroutines; edits while requests are served, which are documented as illegal.")
