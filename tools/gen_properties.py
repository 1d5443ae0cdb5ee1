#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    assert len(title) <= 80, (id, len(title))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

# ---------------------------------------------------------------- web
prop("C01", "The first registered matching route wins",
 "For every set of registered routes and every request, the handler that runs is that of the route registered first among those whose pattern matches the request and whose methods include the request's; if there is none, the NotFound handler runs. The result is indistinguishable from trying the routes one after another in registration order, whatever their prefixes and however they share them.",
 ["programs", "inputs"], "all route tables (order, prefixes, method sets, arbitrary custom match predicates consistent with their prefix) and all request paths and methods",
 "Quantifies over route tables and paths; TestRouteSelection fixes one 9-route table and 7 paths, none with a prefix long enough or diverging in a place that needs a continuation instruction beyond one 3-byte cell.",
 ["web/bytecode_compiler.go", "web/bytecode_runner.go", "web/router.go"],
 [("pseudo-trie construction", "web/bytecode_compiler.go: buildTrie, buildTrieSegment"), ("bytecode lowering", "web/bytecode_compiler.go: encode, compile"), ("bytecode execution", "web/bytecode_runner.go: route"), ("insertion point", "web/router.go: handle")],
 [("routes", "route table sorted by prefix without reordering routes that may both match", "web/router.go"), ("machine", "compiled bytecode for the table, nil when stale", "web/router.go")],
 ["which handler Mux.ServeHTTP invokes"])
prop("C02", "Every request is dispatched to exactly one handler, without panicking",
 "For every route table built from the supported pattern types and every request path and method string - including the empty path, paths without a leading slash, paths shorter than every prefix, and methods goji does not know - routing terminates without a panic and invokes exactly one handler exactly once.",
 ["programs", "inputs"], "all route tables over the built-in pattern types, all paths (arbitrary bytes) and method strings",
 "The tests use a handful of well-formed paths; an out-of-range cursor or a jump cycle needs a particular path against a particular table.",
 ["web/bytecode_runner.go", "web/bytecode_compiler.go", "web/string_pattern.go", "web/router.go"],
 [("bounds checks in the bytecode runner", "web/bytecode_runner.go: route"), ("failing jumps", "web/bytecode_compiler.go: smFail")], None, ["Mux.ServeHTTP"])
prop("C03", "NotFound is told exactly the methods that would have matched",
 "When no route handles a request but some route's pattern matches it, the NotFound handler finds under ValidMethodsKey the sorted, duplicate-free list of exactly the standard methods that would have been routed had the otherwise identical request used them; when no pattern matches, or a route is found, the key is not set by routing. Other environment entries are left as they were.",
 ["programs", "inputs"], "all route tables, method sets, request paths and methods, with and without an existing environment",
 "TestValidMethods checks five paths against one table with one bogus method.",
 ["web/bytecode_runner.go", "web/router.go"],
 [("method accumulation", "web/bytecode_runner.go: matchRoute"), ("list construction", "web/router.go: getMatch")], None, ["C.Env[ValidMethodsKey] in the NotFound handler"])
prop("C04", "String patterns match and bind as documented",
 "A string pattern matches a path exactly when the path is the pattern's literals with each :name replaced by a nonempty run of characters that stops at the first '/' or at the character following :name in the pattern, followed - for patterns ending in /* - by any tail. When it matches, each name is bound to the run it consumed and \"*\" to the tail including its leading slash, and nothing else is bound; existing URL parameters under other names are kept.",
 ["programs", "inputs"], "all pattern strings and all request paths",
 "TestPatterns lists about 40 pattern/path pairs; patterns and paths are both unbounded strings.",
 ["web/string_pattern.go", "web/pattern.go"],
 [("pattern parsing", "web/string_pattern.go: parseStringPattern"), ("matching and binding", "web/string_pattern.go: match")], None, ["web.ParsePattern, Pattern.Match, Pattern.Run"])
prop("C05", "Prefix optimisation never hides a matching route",
 "For every built-in pattern, every path that the pattern matches begins with the prefix the pattern reports. Consequently a request never misses a route because of the prefix-based fast path.",
 ["programs", "inputs"], "all string patterns and regular expressions, all paths",
 "TestPatterns compares Prefix() with an expected string for a few patterns; soundness is a statement about every path the pattern accepts.",
 ["web/regexp_pattern.go", "web/string_pattern.go"],
 [("regexp prefix extraction", "web/regexp_pattern.go: sketchOnRegex"), ("literal prefix", "web/string_pattern.go: Prefix")], None, ["Pattern.Prefix, Pattern.Match"])
prop("C06", "Regexp patterns match anchored at the start and bind every group",
 "A regular-expression pattern matches a path exactly when the original expression has a match that starts at the beginning of the path, whether or not the expression was written with an anchor and whatever alternations it contains. On a match every capture group is bound, under its name if it has one and under \"$i\" otherwise, to the text that group captured in that match, and nothing else is bound.",
 ["programs", "inputs"], "all Perl-style regular expressions and all paths",
 "The tests use five expressions, four already anchored and none with a top-level alternation.",
 ["web/regexp_pattern.go"],
 [("left-anchoring", "web/regexp_pattern.go: sketchOnRegex"), ("group naming", "web/regexp_pattern.go: parseRegexpPattern"), ("matching", "web/regexp_pattern.go: match")], None, ["web.ParsePattern(regexp), Pattern.Match, Pattern.Run"])
prop("C07", "Only the selected route's pattern leaves parameters behind",
 "Testing whether a built-in pattern matches modifies neither the request nor the context. The handler that is finally invoked therefore sees in URLParams exactly the parameters that came in with the request's context plus the bindings of the pattern of the selected route, never bindings from routes that were tried and not selected; a NotFound handler sees only the incoming ones.",
 ["programs", "inputs"], "all route tables mixing string and regexp patterns and methods, all requests, any incoming context",
 "The tests call Match and Run on a single pattern and never look at the parameters left by a route whose pattern matched but whose method did not.",
 ["web/regexp_pattern.go", "web/string_pattern.go", "web/bytecode_runner.go"],
 [("dry-run matching", "web/string_pattern.go, web/regexp_pattern.go: Match vs Run"), ("match then run", "web/bytecode_runner.go: matchRoute")], None, ["C.URLParams in the handler"])
prop("C08", "Requests traverse exactly the middleware stack as last edited",
 "After any sequence of Use, Insert and Abandon calls, with requests served in between, every request passes through exactly the middleware currently in the stack, each once, outermost first and before routing: Use appends, Insert places before the first occurrence of its reference, Abandon removes the first occurrence. Insert and Abandon of an unknown middleware return an error and change nothing.",
 ["histories"], "all sequences of Use, Insert, Abandon and requests, with duplicate middleware and any reuse of cached stacks",
 "TestInsert/TestAbandon run three fixed edits; staleness of pooled stacks needs edits interleaved with requests and the one test of that (TestInvalidation) is not compiled on current Go.",
 ["web/middleware.go", "web/cpool.go", "web/func_equal.go"],
 [("stack editing", "web/middleware.go: Use, Insert, Abandon, findLayer"), ("cache invalidation", "web/middleware.go: invalidate, alloc, release")],
 [("stack", "middleware layers, outermost first", "web/middleware.go"), ("pool", "cache of built stacks for the current edit generation", "web/middleware.go")], ["order in which middleware run on a request"])
prop("C09", "Requests never see each other's context",
 "Every request served through ServeHTTP starts with an empty context and every request served through ServeHTTPC with exactly the context passed in, whatever earlier, concurrent or nested requests through the same mux put in theirs and however many of them panicked. Two requests in progress at the same time never share a context.",
 ["histories", "schedules"], "all histories of sequential, nested, panicking and concurrent requests and all choices the pool makes about which cached stack to hand out",
 "Reuse of pooled stacks is nondeterministic (sync.Pool) and no compiled test covers it; TestMStackRace runs one timing of Use against one request.",
 ["web/middleware.go", "web/mux.go", "web/cpool.go"],
 [("context reset on alloc/release", "web/middleware.go: cStack.ServeHTTP, release"), ("exclusive ownership of a pooled stack", "web/middleware.go: alloc, release; web/cpool.go")],
 [("cStack.C", "per-request context of a cached stack", "web/middleware.go")], ["the context seen by middleware and handler"])
prop("C10", "The context flows from caller through middleware to the handler",
 "What a caller passes to ServeHTTPC and what each middleware layer stores through its context pointer is what every inner layer and the final handler observe, including through a mux used as a handler of another mux; handlers that take no context are served the same request and response writer. A plain-net/http handler form and a context-taking form of the same handler are dispatched identically.",
 ["inputs", "programs"], "all contexts, handler forms, and nestings of muxes, with arbitrary middleware writes",
 "TestContext passes one value through one layer; TestHandlerTypes runs each handler form once without context.",
 ["web/middleware.go", "web/handler.go", "web/web.go", "web/mux.go"],
 [("context threading", "web/middleware.go: newStack; web/router.go: route"), ("handler conversion", "web/handler.go: parseHandler")], None, ["context seen in handlers"])
prop("C11", "Explicit routing gives the same result as implicit routing",
 "With the Router middleware installed at any position, each request reaches the same handler with the same URL parameters and valid-methods list as without it, and the layers inside it find under MatchKey a Match naming the selected pattern and handler (or no pattern and the NotFound handler). Once a Match with a handler is in the environment, that handler runs even if an inner layer changes the request.",
 ["programs", "inputs"], "all route tables, positions of the Router layer, requests, and rewrites of the request between routing and dispatch",
 "TestRouterMiddleware checks one path with two routes.",
 ["web/mux.go", "web/match.go", "web/router.go"],
 [("Router middleware", "web/mux.go: routerMiddleware"), ("Match lookup", "web/match.go: GetMatch; web/router.go: route")], None, ["C.Env[MatchKey], the handler that runs"])
prop("C12", "Match returns the pattern and handler originally registered",
 "For every accepted pattern and handler type, Match.RawPattern and Match.RawHandler return exactly the value that was passed at registration (the same string, the same *regexp.Regexp, the same custom pattern or handler), and GetMatch returns an empty Match when the environment holds no Match.",
 ["inputs", "programs"], "all pattern strings, regular expressions (anchored or not), custom patterns and handlers of every accepted type",
 "TestRawPattern uses an already anchored regexp only; TestRawHandler compares four values.",
 ["web/match.go", "web/pattern.go", "web/handler.go", "web/regexp_pattern.go"],
 [("raw accessors", "web/match.go: RawPattern, RawHandler")], None, ["web.GetMatch(c).RawPattern(), RawHandler()"])
prop("C13", "Each registration function serves exactly its HTTP methods",
 "A route added by Connect, Delete, Head, Options, Patch, Post, Put or Trace is selected only for requests of exactly that method, one added by Get only for GET and HEAD, and one added by Handle for every method string including unknown ones; method names are compared case-sensitively. The package-level goji functions register on DefaultMux with the same meaning.",
 ["inputs", "programs"], "all method strings and all ten registration functions, on Mux and at package level",
 "TestMethods sends each registered method once and lets Handle catch a single unknown one; package goji has no tests.",
 ["web/mux.go", "web/router.go", "default.go"],
 [("method masks", "web/mux.go; web/router.go: validMethodsMap, httpMethod")], None, ["which handler runs"])
prop("C14", "Routes may be added while requests are being served",
 "When routes are added from several goroutines while requests are routed, no route is lost and every request is answered according to some route table that was current between its start and its end: once the call adding a route has returned, every later request takes that route into account, and routes added by one goroutine keep their order. No request crashes or sees a half-updated table.",
 ["schedules"], "all interleavings of concurrent registrations, compilations and requests",
 "TestAddMore adds routes between requests on one goroutine; nothing runs registration and routing concurrently.",
 ["web/router.go", "web/atomic.go"],
 [("copy-on-write table under a lock", "web/router.go: handle"), ("atomic publication of the compiled machine", "web/atomic.go; web/router.go: compile, getMatch")],
 [("machine", "atomically published bytecode, nil when stale", "web/router.go")], ["handlers reached by concurrent requests"])
# ---------------------------------------------------------------- middleware
prop("C15", "SubRouter rewrites the path for the inner handler and restores it",
 "When URLParams holds \"*\" (or else \"_\"), the handler inside SubRouter sees that value as the request path and no routing Match in the environment, and after it returns or panics the path and the Match (or its absence) are as before; every other environment entry is whatever the inner handler left. Without such a parameter the request passes through unchanged.",
 ["inputs", "fault_sequences"], "all parameter maps, environments, inner handlers that rewrite path or environment, and panics",
 "TestSubRouterMatch only checks that one nested request terminates.",
 ["web/middleware/subrouter.go"],
 [("save/restore", "web/middleware/subrouter.go: ServeHTTP")], None, ["request path and C.Env inside and after the handler"])
prop("C16", "AutomaticOptions answers unhandled OPTIONS with the exact Allow list",
 "An OPTIONS request whose handler answers 404 while valid methods are known gets status 200, an empty body and an Allow header listing exactly those methods plus OPTIONS, once. In every other case - other methods, other statuses, a body without explicit status, no valid methods - the status, headers and body the handler produced pass through unchanged, in order.",
 ["inputs", "histories"], "all request methods, valid-method lists and sequences of WriteHeader/Write calls by the handler",
 "TestAutomaticOptions runs four fixed handler scripts.",
 ["web/middleware/options.go"],
 [("response proxy state machine", "web/middleware/options.go: autoOptionsProxy"), ("Allow computation", "web/middleware/options.go: addMethod")],
 [("state", "whether the header was passed through or replaced", "web/middleware/options.go")], ["status, Allow header and body reaching the client"])
prop("C17", "Recoverer turns any panic into a 500 and nothing else",
 "A panic with any value anywhere inside Recoverer does not propagate; if no response had been started the client gets status 500, and if one had been started, its status, its headers and the bytes already sent stay as they were. Without a panic the response is exactly the handler's.",
 ["inputs", "fault_sequences"], "all handlers: any writes, then a panic with any non-nil value or none",
 "No compiled test exercises Recoverer.",
 ["web/middleware/recoverer.go"],
 [("deferred recover", "web/middleware/recoverer.go")], None, ["status and body reaching the client, propagation of the panic"])
prop("C18", "RealIP takes the address from the forwarding headers as documented",
 "RealIP sets RemoteAddr to the first element (up to \", \") of a nonempty X-Forwarded-For header, otherwise to a nonempty X-Real-IP header, and otherwise leaves it alone; nothing else in the request changes, and an empty result never replaces the address.",
 ["inputs"], "all header values and remote addresses",
 "There is no test of RealIP.",
 ["web/middleware/realip.go"],
 [("header parsing", "web/middleware/realip.go: realIP")], None, ["http.Request.RemoteAddr in the inner handler"])
prop("C19", "Request IDs are unique within a process",
 "No two requests handled by RequestID in one process, however many and however concurrent, carry the same ID; the ID is stored under RequestIDKey where GetReqID finds it, other environment entries are kept, and GetReqID returns the empty string when there is none or it is not a string.",
 ["schedules", "inputs"], "all interleavings of concurrent requests, all environments",
 "There is no test of RequestID.",
 ["web/middleware/request_id.go"],
 [("atomic counter", "web/middleware/request_id.go: RequestID")], [("reqid", "process-wide request counter", "web/middleware/request_id.go")], ["GetReqID in the handler"])
prop("C20", "NoCache strips conditional headers and forbids caching",
 "The handler inside NoCache never sees a value for the ETag, If-Modified-Since, If-Match, If-None-Match, If-Range or If-Unmodified-Since request headers, every other request header is untouched, and unless the handler overrides them the response carries the four documented no-cache headers with their documented values.",
 ["inputs"], "all request headers and handlers",
 "TestNoCache checks the response headers of one request without conditional headers.",
 ["web/middleware/nocache.go"],
 [("header editing", "web/middleware/nocache.go: NoCache")], None, ["request headers in the handler, response headers"])
prop("C21", "Environment middleware allocate the environment without losing entries",
 "EnvInit, URLQuery and RequestID guarantee a non-nil environment to inner layers, keep every entry that was already there, and add nothing but their own key; URLQuery stores exactly the parsed query of the request.",
 ["inputs"], "all environments (nil, empty, with any entries, including the middleware's own key) and queries",
 "TestURLQuery checks two queries on a nil environment; EnvInit has no test.",
 ["web/middleware/envinit.go", "web/middleware/urlquery.go", "web/middleware/request_id.go"],
 [("allocation on nil", "web/middleware/envinit.go, urlquery.go, request_id.go")], None, ["C.Env in the inner handler"])
prop("C22", "The writer proxy reports what the client was actually sent",
 "After any sequence of WriteHeader, Write, ReadFrom and Flush calls through a mutil proxy, Status is the status the underlying writer committed to (0 if none yet), BytesWritten is the number of body bytes the underlying writer accepted, and the underlying writer saw exactly one header followed by exactly the bytes written. This holds also when the underlying writer fails or writes short.",
 ["histories", "fault_sequences"], "all call sequences on the proxy and all short writes and errors of the underlying writer, for both the basic and the full-featured proxy",
 "web/mutil has no tests.",
 ["web/mutil/writer_proxy_go1_8.go"],
 [("header tracking", "web/mutil: basicWriter.WriteHeader"), ("byte counting", "web/mutil: basicWriter.Write, fancyWriter.ReadFrom")],
 [("wroteHeader/code/bytes", "what has been sent so far", "web/mutil/writer_proxy_go1_8.go")], ["WriterProxy.Status, BytesWritten, calls on the wrapped writer"])
prop("C23", "A tee on the writer proxy receives exactly the bytes the client received",
 "From the moment a writer is tee'd, it receives exactly those body bytes, in order, that the underlying writer accepted, through Write and ReadFrom alike, and an error of the underlying writer takes precedence over one of the tee. Unwrap returns the original writer, and the optional methods a proxy offers (Flush, Hijack, Push, ReadFrom) reach the original's and never panic because the original lacks one.",
 ["histories", "fault_sequences", "configurations"], "all call sequences, faults of either writer, and all combinations of optional interfaces on the original writer",
 "web/mutil has no tests.",
 ["web/mutil/writer_proxy_go1_8.go"],
 [("tee", "web/mutil: basicWriter.Write"), ("interface upgrade", "web/mutil: WrapWriter")], None, ["bytes written to the tee, behaviour of optional methods"])
prop("C24", "Logger does not change the response",
 "For every handler, the status, header and body bytes that reach the client through Logger are those the handler produced; if the handler never sent a status, exactly one 200 is sent. The inner handler runs exactly once and sees the same request, and its panics propagate.",
 ["histories", "inputs"], "all handler write sequences, request IDs and statuses",
 "There is no test of Logger.",
 ["web/middleware/logger.go", "web/mutil/writer_proxy_go1_8.go"],
 [("wrapping and final status", "web/middleware/logger.go: Logger")], None, ["calls on the response writer"])
prop("C25", "The log tells each request's ID, method, URL, address, status and panic",
 "For every request Logger logs one line before the handler runs, with the request ID if there is one followed by the method, the URL and the remote address, and one line after the handler has returned, with the ID and the status the client was sent; nothing else. Every panic that Recoverer recovers is logged with the request's ID and the panic's value. The ID is the one the request had when it reached the middleware, whatever handlers do to their context. This holds with coloured and plain output, and a value under RequestIDKey that is not a string is no ID.",
 ["inputs", "histories"], "all request IDs, methods, URLs, addresses, statuses and panic values, with and without a terminal",
 "There is no test of Logger or Recoverer.",
 ["web/middleware/logger.go", "web/middleware/recoverer.go", "web/middleware/terminal.go", "web/middleware/request_id.go"],
 [("start and end lines", "web/middleware/logger.go: printStart, printEnd"), ("panic line", "web/middleware/recoverer.go: printPanic"), ("colour", "web/middleware/terminal.go: cW")], None, ["lines passed to package log"])
prop("C26", "Muxes are independent of one another",
 "What a mux does with a request depends only on the calls made on that mux: routes, NotFound handlers and middleware added to or removed from one mux never show in the requests another one serves, even when the same middleware, patterns and paths are used with both, and in whatever order edits and requests are made.",
 ["histories", "inputs"], "all interleaved histories of edits and requests on several muxes",
 "Every test uses one mux; that nothing is shared between two of them concerns all histories on both.",
 ["web/mux.go", "web/middleware.go", "web/cpool.go", "web/router.go"],
 [("stack and its cached instances", "web/middleware.go: mStack, alloc, release"), ("route table", "web/router.go: router"), ("construction", "web/mux.go: New")], None, ["which middleware and handlers Mux.ServeHTTP runs"])
prop("C27", "A panic in user code passes through the mux and leaves it working",
 "When a pattern, a middleware or a handler panics while a request is served (or a pattern while it is registered), the panic arrives at the caller of ServeHTTP (or of the registration) with its value unchanged, and the mux is left as it was: it holds no lock, later requests are served as if the panic had not happened, with a fresh context, and routes and middleware can still be added and removed.",
 ["histories", "faults"], "all places at which user code is called, all panic values, all requests and edits before and after",
 "No test panics inside a mux; the defect would show in a later request or a deadlock in a later registration.",
 ["web/middleware.go", "web/mux.go", "web/router.go", "web/bytecode_runner.go"],
 [("stack instances in use", "web/middleware.go: alloc, release; web/mux.go: ServeHTTP"), ("locks", "web/router.go: handle, compile; web/middleware.go: Use, Insert, Abandon")], None, ["recover around Mux.ServeHTTP and the registration functions; later requests"])
prop("C28", "Values of undocumented types are refused when they are registered",
 "A pattern, handler or middleware of any type other than those documented for PatternType, HandlerType and MiddlewareType - such as a named function type without the needed methods, a function with a slightly different signature, or nil - is refused where it is registered, with log.Fatalf, rather than accepted and failing or being ignored when a request arrives.",
 ["inputs"], "all values whose dynamic type is not a documented one, in every function that takes a pattern, a handler or a middleware",
 "The tests register valid values only, as a fatal exit ends the test process.",
 ["web/handler.go", "web/pattern.go", "web/middleware.go"],
 [("handlers", "web/handler.go: parseHandler"), ("patterns", "web/pattern.go: ParsePattern"), ("middleware", "web/middleware.go: appendLayer")], None, ["calls of log.Fatalf"])
prop("C29", "Edits of a mux from several goroutines are not lost or mixed up",
 "When several goroutines call Use, Insert, Abandon and the functions that add routes on one mux while it serves no requests, the middleware stack and the errors returned are what some order of these calls, one after another and each goroutine's in its own order, would have given: no edit is lost, doubled or applied at a place it was not meant for, and every route added is served through the resulting stack.",
 ["schedules"], "all interleavings of the statements of package web, for every choice of edits by each goroutine",
 "The tests edit a stack from one goroutine only.",
 ["web/middleware.go", "web/mux.go", "web/router.go"],
 [("edits", "web/middleware.go: Use, Insert, Abandon, appendLayer, findLayer"), ("routes", "web/router.go: handle")], [("mStack.lock", "mutual exclusion of edits", "web/middleware.go")], ["the middleware and the handler a request runs through", "errors returned by Insert and Abandon"])
# ---------------------------------------------------------------- listener
prop("C30", "Graceful drain never closes a connection that is in use",
 "CloseIdle and Drain never close a connection that is in use: one that has read data (Automatic, Deadline) or was marked in use (any mode) and has not been marked idle since. A read that returned data successfully is never followed by the drain closing that connection before it is marked idle again, whatever the interleaving.",
 ["schedules", "histories"], "all histories of reads, marks, closes, and all interleavings with CloseIdle and Drain, in all three modes",
 "The tests exercise one connection in a fixed order from one goroutine; TestRace samples schedules for a few seconds.",
 ["graceful/listener/conn.go", "graceful/listener/shard.go", "graceful/listener/listener.go"],
 [("busy flag and idle set", "graceful/listener/conn.go: Read, markInUse, closeIfIdle; shard.go: markInUse, closeConns")],
 [("busy/closed/disowned", "per-connection state machine", "graceful/listener/conn.go"), ("idle/all/drain", "per-shard sets", "graceful/listener/shard.go")], ["Close calls on the wrapped connection"])
prop("C31", "Drain closes every idle connection and waits for the rest",
 "After Drain starts, every connection that is idle or becomes idle is closed, connections accepted later are closed and not handed out, and Drain returns exactly when every connection handed out has been closed or disowned: not before, and without deadlock once that is so.",
 ["schedules", "histories"], "all interleavings of Accept, Read, MarkIdle, MarkInUse, Close, Disown and Drain on several connections",
 "TestDrain waits for a single connection; TestRace samples timings.",
 ["graceful/listener/conn.go", "graceful/listener/shard.go", "graceful/listener/listener.go"],
 [("drain flag", "graceful/listener/shard.go: closeConns, track, markIdle"), ("outstanding count", "graceful/listener/shard.go: wg")], [("wg", "connections not yet closed or disowned", "graceful/listener/shard.go")], ["return of Drain, closed connections, Accept results"])
prop("C32", "Connection bookkeeping survives any sequence of calls",
 "Whatever sequence and interleaving of Close, Disown, MarkIdle, MarkInUse, Read, SetReadDeadline, CloseIdle, Drain and DrainAll is applied to accepted connections, nothing panics or deadlocks, a managed connection's underlying connection is closed at most once, each connection is accounted for exactly once, and repeated Close or Disown return an error.",
 ["histories", "schedules"], "all call sequences and interleavings on accepted connections",
 "The tests make at most two such calls on one connection; disowning a connection already closed by a forced drain is never tried.",
 ["graceful/listener/conn.go", "graceful/listener/shard.go"],
 [("state machine under the connection lock", "graceful/listener/conn.go"), ("reference count", "graceful/listener/shard.go: wg")], None, ["panics, Close calls on the wrapped connection, returned errors"])
prop("C33", "Disowned connections are left alone",
 "Once Disown has returned success for a connection, no CloseIdle, Drain or DrainAll - concurrent or later - closes it or waits for it, and reads, deadlines and closes by its new owner pass straight through with unchanged results.",
 ["schedules", "histories"], "all interleavings of Disown with CloseIdle, Drain, DrainAll, Read and Close",
 "TestDisown* run Disown before CloseIdle on one goroutine; the race with DrainAll is not exercised.",
 ["graceful/listener/conn.go", "graceful/listener/shard.go"],
 [("disowned flag", "graceful/listener/conn.go: disown, Close, closeIfIdle")], None, ["Close calls on the wrapped connection after Disown"])
prop("C34", "DrainAll closes every managed connection",
 "DrainAll closes every connection that was accepted and not yet closed or disowned, in use or not, waits until all are accounted for, and afterwards Accept hands out no connection: each newly accepted one is closed and an error returned.",
 ["schedules", "histories"], "all numbers and states of connections, all interleavings with Accept, Close and Disown, and faults of the underlying close",
 "TestDrainAll uses one connection.",
 ["graceful/listener/listener.go", "graceful/listener/shard.go", "graceful/listener/conn.go"],
 [("closeConns(all)", "graceful/listener/shard.go"), ("tracking", "graceful/listener/conn.go: init; shard.go: track")], None, ["Close calls, return of DrainAll, results of Accept"])
prop("C35", "No request is read from a connection the listener has closed",
 "A Read that completes after the connection was closed by the listener or its user returns zero bytes and an error even if the underlying read produced data, and a successful Read in Automatic or Deadline mode leaves the connection in use; read results are otherwise those of the underlying connection.",
 ["schedules", "fault_sequences"], "all interleavings of Read with close, drain and disown; all results of the underlying read",
 "The close/read race is not exercised deterministically by any test.",
 ["graceful/listener/conn.go"],
 [("post-read check", "graceful/listener/conn.go: Read")], None, ["Read results"])
prop("C36", "Idleness follows the documented rules of each listener mode",
 "A fresh connection is idle; in Manual mode only MarkInUse and MarkIdle change that, in Automatic mode reads also mark in use, and in Deadline mode setting a read deadline additionally marks idle. CloseIdle closes exactly the idle connections, and the three marking functions return an error exactly for connections not managed by the package (or already disowned, for Disown).",
 ["histories", "configurations"], "all call sequences in each of the three modes",
 "Eight fixed two-step tests.",
 ["graceful/listener/conn.go", "graceful/listener/listener.go"],
 [("mode checks", "graceful/listener/conn.go: Read, SetReadDeadline")], None, ["which connections CloseIdle closes"])
prop("C37", "A wrapped listener changes nothing but idleness and closing",
 "Until it is drained, Accept of a wrapped listener returns the connections and, unchanged, the errors of the underlying listener; Addr and Close are passed on with their results. In every mode and state, each Write, Read, ReadFrom, Close and deadline call on an open connection reaches the underlying connection exactly once with the same arguments and returns its results, the addresses are the underlying ones, and marking a connection does not touch it.",
 ["histories", "configurations", "faults"], "all call sequences on a connection in each mode and state, all results of the underlying connection and listener",
 "The tests check single calls with results that never fail.",
 ["graceful/listener/listener.go", "graceful/listener/conn.go"],
 [("passing on", "graceful/listener/conn.go: Read, Close, SetReadDeadline, ReadFrom"), ("accepting", "graceful/listener/listener.go: Accept")], None, ["calls on the underlying connection and their results"])
# ---------------------------------------------------------------- graceful
prop("C40", "Shutdown runs each hook once, in order, around the draining",
 "However many shutdowns, graceful or forced, are requested and from however many goroutines, every PreHook runs exactly once in registration order before any listener is closed, every PostHook exactly once in registration order after all listeners are closed and drained, and Wait returns only after that; each hook receives the signal that caused the shutdown or nil.",
 ["schedules"], "all interleavings of Shutdown, ShutdownNow, signals and Wait, with any number of hooks and listeners",
 "Package graceful has no compiled tests.",
 ["graceful/signal.go"],
 [("once-guarded phases", "graceful/signal.go: shutdown"), ("drain barrier", "graceful/signal.go: closeListeners")],
 [("preOnce/closeOnce/forceOnce/postOnce/notifyOnce", "phase guards", "graceful/signal.go")], ["order of hooks, listener closes and return of Wait"])
prop("C41", "Signals escalate to a forced shutdown only as configured",
 "A signal triggers a graceful shutdown, unless it arrives less than the DoubleKickWindow after the previous one (and the window is not 0), in which case it forces an immediate one; with a nonzero Timeout, connections still open that long after the signal are forcibly closed, and with 0 never. Negative settings are ignored.",
 ["inputs", "schedules"], "all arrival times of signals, window and timeout values",
 "Package graceful has no compiled tests, and the behaviour depends on real time.",
 ["graceful/signal.go"],
 [("signal loop", "graceful/signal.go: sigLoop")], [("doubleKick/timeout", "configuration", "graceful/signal.go")], ["whether in-use connections are closed"])
prop("C42", "Serve swallows the errors of a graceful shutdown and no others",
 "Serve returns nil when it stops because a shutdown closed its listener, whichever way the accept in progress was cut off, and returns every other accept error unchanged, including those that occur before any shutdown.",
 ["inputs", "schedules"], "all accept errors and all interleavings of accept and shutdown",
 "Package graceful has no compiled tests.",
 ["graceful/graceful.go", "graceful/serve13.go", "graceful/listener/listener.go"],
 [("error filter", "graceful/graceful.go: peacefulError")], [("closing", "set once shutdown started", "graceful/signal.go")], ["result of Serve"])
prop("C43", "Serve tracks connection states without disturbing the caller's server",
 "While serving, connections that net/http reports idle become eligible for graceful closing, hijacked ones are disowned and never closed or awaited, and the caller's ConnState callback still sees every transition; the caller's Server value is not modified, and once the listener is closed by shutdown keep-alives are disabled.",
 ["histories", "inputs"], "all sequences of connection states net/http may report, with and without a user callback",
 "Package graceful has no compiled tests.",
 ["graceful/serve13.go"],
 [("state callback", "graceful/serve13.go: connState.Wrap"), ("shadow server", "graceful/serve13.go: Serve, gracefulServer")], None, ["closes on connections, user callback calls, server fields"])
prop("C44", "ListenAndServeTLS honours the whole TLS configuration it is given",
 "The configuration used for serving equals the caller's TLSConfig in every exported setting except the certificate (loaded from the given files) and, if it was unset, NextProtos; the caller's value is not modified, and without a caller configuration the minimum version is TLS 1.0.",
 ["configurations"], "all values of every exported field of tls.Config",
 "Package graceful has no compiled tests.",
 ["graceful/server.go", "graceful/clone16.go"],
 [("config clone", "graceful/clone16.go: cloneTLSConfig"), ("defaults", "graceful/server.go: ListenAndServeTLS")], None, ["the tls.Config passed to tls.NewListener"])
prop("C45", "Exactly the configured signals cause a shutdown",
 "After any sequence of HandleSignals, AddSignal and ResetSignals, a signal causes a shutdown, with the hooks receiving that signal, exactly if it was added since the last reset: HandleSignals adds the interrupt signal and, when running under Einhorn only, SIGUSR2. Every other signal is left alone.",
 ["histories", "inputs", "configurations"], "all sequences of the three calls, all signals, all values of EINHORN_MASTER_PID",
 "Package graceful has no compiled tests.",
 ["graceful/signal.go", "graceful/einhorn.go"],
 [("subscription", "graceful/signal.go: HandleSignals, AddSignal, ResetSignals"), ("Einhorn", "graceful/einhorn.go: init")], None, ["which delivered signals run the hooks"])
prop("C46", "Serving TCP binds the right address, keeps connections alive, reports errors",
 "ListenAndServe binds exactly one TCP address, the given one or \":http\", and ListenAndServeTLS the given one or \":https\"; the given handler is served, over TLS exactly in the latter case. Connections accepted by these and by Serve on a TCP listener have TCP keep-alives enabled and take part in graceful shutdown. Errors of the certificate, of binding and of accepting are returned unchanged, the first two without serving anything or leaving an address bound, and the caller's server is not modified.",
 ["inputs", "faults"], "all addresses, each way to start serving, a failure of each step",
 "Package graceful has no compiled tests, and they would need real sockets.",
 ["graceful/server.go", "graceful/serve13.go"],
 [("binding", "graceful/server.go: ListenAndServe, ListenAndServeTLS, Serve"), ("keep-alive", "graceful/server.go: tcpKeepAliveListener.Accept")], None, ["addresses bound, options set on connections, errors returned"])
prop("C47", "A shutdown covers every listener and hook that was registered",
 "Every listener that was passed to Serve or WrapListener before a shutdown begins - several at once, from several goroutines, in any mode - is closed by it and drained according to its mode, and the shutdown waits for the connections in use of all of them. WrapListener returns a listener that is already wrapped as it is and keeps its mode. No listener or hook registered concurrently with others is lost, and one registered while a shutdown goes on does not upset it.",
 ["schedules", "configurations", "histories"], "all mixtures of listeners, modes and connection states, all interleavings of registrations",
 "Package graceful has no compiled tests.",
 ["graceful/graceful.go", "graceful/signal.go", "graceful/serve13.go"],
 [("registry", "graceful/graceful.go: WrapListener, appendListener"), ("closing", "graceful/signal.go: closeListeners")], None, ["which listeners and connections a shutdown closes, when it returns"])
# ---------------------------------------------------------------- bind
prop("C50", "Bind strings are dispatched as documented",
 "A bind string containing a colon is bound as a TCP address, otherwise one beginning with '/' or '.' as a UNIX socket path, otherwise fd@N as file descriptor N and einhorn@N as Einhorn socket N; anything else, including malformed numbers, is an error and nothing is bound. The address or path is passed on unchanged.",
 ["inputs"], "all bind strings",
 "Package bind has no tests.",
 ["bind/bind.go"], [("dispatch", "bind/bind.go: listenTo")], None, ["calls to net.Listen / net.FileListener and fatal errors"])
prop("C51", "The default bind address follows the documented precedence",
 "WithFlag adds one flag, named bind. With the flag unset, the bind address is GOJI_BIND if set, else einhorn@0 under Einhorn, else fd@3 under systemd, else \":\" followed by PORT if set, else DefaultBind; the empty string is treated as unset and Sniff returns the empty string if nothing applies.",
 ["configurations"], "all environments (variables, parent and own process IDs)",
 "Package bind has no tests.",
 ["bind/bind.go", "bind/einhorn.go", "bind/systemd.go"], [("precedence", "bind/bind.go: Sniff, WithFlag")], None, ["bind.Sniff(), the flag default"])
prop("C52", "Inherited sockets are used only when they are really ours",
 "Einhorn sockets are recognised only if EINHORN_MASTER_PID names the parent process and systemd sockets only if LISTEN_PID names this process, each with a valid positive count; einhorn@N yields the descriptor named by EINHORN_FD_N exactly for 0 <= N < count and an error otherwise. Exactly the announced descriptors are made close-on-exec.",
 ["configurations", "inputs"], "all environments and socket numbers",
 "Package bind has no tests.",
 ["bind/einhorn.go", "bind/systemd.go"], [("detection", "bind/einhorn.go: einhornInit; bind/systemd.go: systemdInit"), ("bounds check", "bind/einhorn.go: einhornBind")], [("einhornNumFds/systemdNumFds", "number of inherited sockets", "bind")], ["descriptors opened, close-on-exec calls"])
prop("C53", "Readiness is announced to Einhorn at most once, and only under Einhorn",
 "However often and concurrently Ready is called, exactly one acknowledgement carrying this process's ID is sent to the socket Einhorn named, and none when not running under Einhorn; a Ready call returns only after the acknowledgement has been sent.",
 ["schedules", "configurations"], "all interleavings of Ready calls and all environments",
 "Package bind has no tests.",
 ["bind/bind.go", "bind/einhorn.go"], [("once", "bind/bind.go: Ready"), ("ack", "bind/einhorn.go: einhornAck")], None, ["bytes written to the Einhorn control socket"])
# ---------------------------------------------------------------- root
prop("C60", "The default stack works end to end",
 "On goji.DefaultMux with its four default middleware, every request - whatever the handler does, including panicking or writing nothing - gets exactly one status: the handler's, 200 if it sent none, 500 if it panicked before sending one, 404 if nothing matched, or 200 with the exact Allow list for OPTIONS requests on paths served only under other methods. Each request carries a request ID visible to the handler, and its start and its end are each logged in one line, whatever the handler does, the latter with the status the client was sent.",
 ["inputs", "histories"], "all handlers (write scripts, panics), methods and paths on the default mux",
 "Package goji has no tests.",
 ["default.go", "web/middleware/logger.go", "web/middleware/recoverer.go", "web/middleware/options.go", "web/middleware/request_id.go"],
 [("default stack", "default.go: init")], None, ["status, headers and body reaching the client"])
prop("C61", "Serve runs the default mux until a graceful shutdown is complete",
 "goji.Serve binds exactly the address selected by the flag or its default, once, and serves the standard library's default mux, with the goji default mux installed at its root, through the graceful package: other patterns registered on the standard mux keep working. ServeTLS does the same over TLS with exactly the given configuration, and ServeListener on the given listener. The command line is parsed unless the application has parsed it. Under Einhorn readiness is announced once the socket is bound, and not if it cannot be, and SIGUSR2 shuts down as an interrupt does. A failure to bind or to serve is fatal, and they return only after a shutdown has run to completion - connections in use have finished, or were cut off because a second signal arrived within two seconds of the first.",
 ["inputs", "histories"], "all bind addresses given by flag or environment, bind and serve failures, request paths, and times between two signals",
 "Package goji has no tests, and Serve does not return without a signal.",
 ["serve.go", "default.go", "graceful/graceful.go", "graceful/signal.go", "bind/bind.go"],
 [("serving", "serve.go: Serve, ServeListener"), ("two second window", "serve.go: init"), ("default mux", "default.go: DefaultMux")], None, ["addresses bound, responses, return of Serve"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
