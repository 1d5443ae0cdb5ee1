From bbf59683578e0f31febdd203d418bdaef7957501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 01/20] fix: regexp patterns must not bind parameters while
 matching

Match passed dryrun=false, so every regexp route that was merely tried left
its capture groups in the context of the route that was finally selected.
---
 web/regexp_pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 95e7e09..7b2a1c5 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -19,7 +19,7 @@ func (p regexpPattern) Prefix() string {
 	return p.prefix
 }
 func (p regexpPattern) Match(r *http.Request, c *C) bool {
-	return p.match(r, c, false)
+	return p.match(r, c, true)
 }
 func (p regexpPattern) Run(r *http.Request, c *C) {
 	p.match(r, c, false)
-- 
2.43.0


From 8b9a5f1f9df7c9291c8ddd284de21b7af6898f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 02/20] fix: anchor every alternative of an unanchored regexp
 pattern

Prepending \A to the source anchored only the first top-level alternative:
regexp.MustCompile(`/a|/b`) matched "/b" anywhere in the path.
---
 web/regexp_pattern.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 7b2a1c5..9d32a98 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -78,6 +78,7 @@ func sketchOnRegex(re *regexp.Regexp) (*regexp.Regexp, string) {
 			"This route might behave unexpectedly.", re)
 		return re, ""
 	}
+	anchored := sRe.String()
 	sRe = sRe.Simplify()
 	p, err := syntax.Compile(sRe)
 	if err != nil {
@@ -87,7 +88,10 @@ func sketchOnRegex(re *regexp.Regexp) (*regexp.Regexp, string) {
 	}
 	if p.StartCond()&syntax.EmptyBeginText == 0 {
 		// I hope doing this is always legal...
-		newRe, err := regexp.Compile(`\A` + rawRe)
+		// The group keeps the anchor from binding to the first of several
+		// top-level alternatives only, and the parsed form is closed even
+		// where the source is not (e.g. an unterminated \Q).
+		newRe, err := regexp.Compile(`\A(?:` + anchored + `)`)
 		if err != nil {
 			log.Printf("WARN(web): unable to create a left-"+
 				"anchored regexp from %v. This route might "+
-- 
2.43.0


From ccb6f71c29170f42606ff6c05e9639f50bc72051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 03/20] fix: U+FFFD in a regexp is not a literal prefix

The regexp package lets it match any invalid UTF-8 byte, so a path that the
pattern matches need not begin with the encoded form.
---
 web/regexp_pattern.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 9d32a98..1912da9 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"regexp"
 	"regexp/syntax"
+	"unicode/utf8"
 )
 
 type regexpPattern struct {
@@ -123,6 +124,10 @@ Sadness:
 				syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
 				break Sadness
 			}
+			if i.Rune[0] == utf8.RuneError {
+				// Also matches bytes that are not valid UTF-8.
+				break Sadness
+			}
 			buf.WriteRune(i.Rune[0])
 		default:
 			break Sadness
-- 
2.43.0


From 3fb740081081ae26a2d30fdfc8d5d355d72c9a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 04/20] fix: RawPattern returns the regexp that was registered

For expressions that are not anchored on the left it returned the anchored
copy made by the router.
---
 web/match.go          | 2 +-
 web/regexp_pattern.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/web/match.go b/web/match.go
index 1a44144..2cbcdfa 100644
--- a/web/match.go
+++ b/web/match.go
@@ -42,7 +42,7 @@ func GetMatch(c C) Match {
 func (m Match) RawPattern() PatternType {
 	switch v := m.Pattern.(type) {
 	case regexpPattern:
-		return v.re
+		return v.raw
 	case stringPattern:
 		return v.raw
 	default:
diff --git a/web/regexp_pattern.go b/web/regexp_pattern.go
index 1912da9..00653ba 100644
--- a/web/regexp_pattern.go
+++ b/web/regexp_pattern.go
@@ -11,6 +11,7 @@ import (
 )
 
 type regexpPattern struct {
+	raw    *regexp.Regexp
 	re     *regexp.Regexp
 	prefix string
 	names  []string
@@ -50,7 +51,7 @@ func (p regexpPattern) String() string {
 }
 
 func (p regexpPattern) Raw() *regexp.Regexp {
-	return p.re
+	return p.raw
 }
 
 /*
@@ -139,6 +140,7 @@ Sadness:
 }
 
 func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
+	raw := re
 	re, prefix := sketchOnRegex(re)
 	rnames := re.SubexpNames()
 	// We have to make our own copy since package regexp forbids us
@@ -151,6 +153,7 @@ func parseRegexpPattern(re *regexp.Regexp) regexpPattern {
 		names[i] = rname
 	}
 	return regexpPattern{
+		raw:    raw,
 		re:     re,
 		prefix: prefix,
 		names:  names,
-- 
2.43.0


From 6152e2d614482f54ec3de4db180a697c1f1ef5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 05/20] fix: count the bytes written through ReadFrom

BytesWritten missed everything that went through the underlying writer's
ReadFrom, e.g. by io.Copy or http.ServeContent.
---
 web/mutil/writer_proxy.go       | 4 +++-
 web/mutil/writer_proxy_go1_8.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/web/mutil/writer_proxy.go b/web/mutil/writer_proxy.go
index fb4a08b..00aa565 100644
--- a/web/mutil/writer_proxy.go
+++ b/web/mutil/writer_proxy.go
@@ -130,7 +130,9 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
 	f.basicWriter.maybeWriteHeader()
-	return rf.ReadFrom(r)
+	n, err := rf.ReadFrom(r)
+	f.basicWriter.bytes += int(n)
+	return n, err
 }
 
 type flushWriter struct {
diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 2019c98..af5191b 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -125,7 +125,9 @@ func (f *fancyWriter) ReadFrom(r io.Reader) (int64, error) {
 	}
 	rf := f.basicWriter.ResponseWriter.(io.ReaderFrom)
 	f.basicWriter.maybeWriteHeader()
-	return rf.ReadFrom(r)
+	n, err := rf.ReadFrom(r)
+	f.basicWriter.bytes += int(n)
+	return n, err
 }
 
 var (
-- 
2.43.0


From 97cdb906260af8f2abe8dd00da984c3765bea8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 06/20] fix: flushing commits the header

The underlying writer sends a 200 when it is flushed before any header was
written, but Status kept reporting that none had been sent.
---
 web/mutil/writer_proxy.go       | 2 ++
 web/mutil/writer_proxy_go1_8.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/web/mutil/writer_proxy.go b/web/mutil/writer_proxy.go
index 00aa565..37fb036 100644
--- a/web/mutil/writer_proxy.go
+++ b/web/mutil/writer_proxy.go
@@ -115,6 +115,7 @@ func (f *fancyWriter) CloseNotify() <-chan bool {
 }
 
 func (f *fancyWriter) Flush() {
+	f.basicWriter.maybeWriteHeader()
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
 	fl.Flush()
 }
@@ -140,6 +141,7 @@ type flushWriter struct {
 }
 
 func (f *flushWriter) Flush() {
+	f.basicWriter.maybeWriteHeader()
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
 	fl.Flush()
 }
diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index af5191b..08eb105 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -110,6 +110,7 @@ func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
 }
 
 func (f *fancyWriter) Flush() {
+	f.basicWriter.maybeWriteHeader()
 	fl := f.basicWriter.ResponseWriter.(http.Flusher)
 	fl.Flush()
 }
-- 
2.43.0


From e21b085dc1569747c3445f8f8ff7284aeb9cb558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 07/20] fix: Push on a writer that cannot push is not supported

HTTP/1 writers have Flush, Hijack and ReadFrom but no Push, so the type
assertion panicked.
---
 web/mutil/writer_proxy_go1_8.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 08eb105..054b86c 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -106,7 +106,10 @@ type fancyWriter struct {
 }
 
 func (f *fancyWriter) Push(target string, opts *http.PushOptions) error {
-	return f.basicWriter.ResponseWriter.(http.Pusher).Push(target, opts)
+	if p, ok := f.basicWriter.ResponseWriter.(http.Pusher); ok {
+		return p.Push(target, opts)
+	}
+	return http.ErrNotSupported
 }
 
 func (f *fancyWriter) Flush() {
-- 
2.43.0


From 737f83b3ecc606dc9dd35b0d6cb3911254e9f425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 08/20] fix: informational statuses are not the response's
 status

After WriteHeader(103) the proxy took the header for sent and swallowed the
final status.
---
 web/mutil/writer_proxy.go       | 7 +++++++
 web/mutil/writer_proxy_go1_8.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/web/mutil/writer_proxy.go b/web/mutil/writer_proxy.go
index 37fb036..1963cdb 100644
--- a/web/mutil/writer_proxy.go
+++ b/web/mutil/writer_proxy.go
@@ -58,6 +58,13 @@ type basicWriter struct {
 }
 
 func (b *basicWriter) WriteHeader(code int) {
+	if code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols {
+		// Informational: the final header is still to come.
+		if !b.wroteHeader {
+			b.ResponseWriter.WriteHeader(code)
+		}
+		return
+	}
 	if !b.wroteHeader {
 		b.code = code
 		b.wroteHeader = true
diff --git a/web/mutil/writer_proxy_go1_8.go b/web/mutil/writer_proxy_go1_8.go
index 054b86c..625750e 100644
--- a/web/mutil/writer_proxy_go1_8.go
+++ b/web/mutil/writer_proxy_go1_8.go
@@ -54,6 +54,13 @@ type basicWriter struct {
 }
 
 func (b *basicWriter) WriteHeader(code int) {
+	if code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols {
+		// Informational: the final header is still to come.
+		if !b.wroteHeader {
+			b.ResponseWriter.WriteHeader(code)
+		}
+		return
+	}
 	if !b.wroteHeader {
 		b.code = code
 		b.wroteHeader = true
-- 
2.43.0


From a05f1613e640f8577196c50f76e424d968d4a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 09/20] fix: AutomaticOptions waits for the final status

An informational status made it pass a later 404 through.
---
 web/middleware/options.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/web/middleware/options.go b/web/middleware/options.go
index 4bdce5f..f0310f4 100644
--- a/web/middleware/options.go
+++ b/web/middleware/options.go
@@ -40,6 +40,13 @@ func (p *autoOptionsProxy) Write(buf []byte) (int, error) {
 }
 
 func (p *autoOptionsProxy) WriteHeader(code int) {
+	if code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols {
+		// Informational: the final header is still to come.
+		if p.state != aosProxying {
+			p.w.WriteHeader(code)
+		}
+		return
+	}
 	methods := getValidMethods(*p.c)
 	switch p.state {
 	case aosInit:
-- 
2.43.0


From 054ff2c5f5d209211cd8e2c4727356cadff3a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 10/20] fix: NoCache removes conditional headers whatever their
 first value

A header whose first value was empty kept all its values.
---
 web/middleware/nocache.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/web/middleware/nocache.go b/web/middleware/nocache.go
index ae3d260..25c1d89 100644
--- a/web/middleware/nocache.go
+++ b/web/middleware/nocache.go
@@ -38,9 +38,7 @@ func NoCache(h http.Handler) http.Handler {
 
 		// Delete any ETag headers that may have been set
 		for _, v := range etagHeaders {
-			if r.Header.Get(v) != "" {
-				r.Header.Del(v)
-			}
+			r.Header.Del(v)
 		}
 
 		// Set our NoCache headers
-- 
2.43.0


From 30ffd416c25bbe055916c4cb13738c098c88de0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 11/20] fix: the Expires header of NoCache is in UTC

time.Unix is in the local zone, so the documented value was only sent by
servers that run in UTC.
---
 web/middleware/nocache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/middleware/nocache.go b/web/middleware/nocache.go
index 25c1d89..f392673 100644
--- a/web/middleware/nocache.go
+++ b/web/middleware/nocache.go
@@ -6,7 +6,7 @@ import (
 )
 
 // Unix epoch time
-var epoch = time.Unix(0, 0).Format(time.RFC1123)
+var epoch = time.Unix(0, 0).UTC().Format(time.RFC1123)
 
 // Taken from https://github.com/mytrile/nocache
 var noCacheHeaders = map[string]string{
-- 
2.43.0


From b8ae7cfbeaa424880ef1571431a12ac1cb1bb7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 12/20] fix: SubRouter restores the match even if the
 environment was dropped

An inner layer that set Env to nil lost the outer router's match.
---
 web/middleware/subrouter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/middleware/subrouter.go b/web/middleware/subrouter.go
index e5b0921..3dd0acb 100644
--- a/web/middleware/subrouter.go
+++ b/web/middleware/subrouter.go
@@ -29,7 +29,10 @@ func (s subrouter) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 				r.URL.Path = oldpath
 
 				if s.c.Env == nil {
-					return
+					if oldmatch.Handler == nil {
+						return
+					}
+					s.c.Env = make(map[interface{}]interface{}, 1)
 				}
 				if oldmatch.Handler != nil {
 					s.c.Env[web.MatchKey] = oldmatch
-- 
2.43.0


From 04b3ef5f34e3d81ceef181d05d5ea85adad2e7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 13/20] fix: disowning a closed connection is an error

---
 graceful/listener/conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 7b34b47..71a66ce 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -141,6 +141,8 @@ func (c *conn) disown() error {
 
 	if c.disowned {
 		return errAlreadyDisowned
+	} else if c.closed {
+		return errClosing
 	}
 
 	c.shard.disown(c)
-- 
2.43.0


From 4f94e9578c53da992fb16610b46d13abc765efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 14/20] fix: DrainAll leaves connections that are disowned
 meanwhile alone

---
 graceful/listener/conn.go  | 15 +++++++++++++++
 graceful/listener/shard.go |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 71a66ce..7f46833 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -133,6 +133,21 @@ func (c *conn) closeIfIdle() error {
 	return nil
 }
 
+// closeIfManaged closes the connection unless it was disowned in the meantime.
+func (c *conn) closeIfManaged() error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	if !c.closed && !c.disowned {
+		c.closed = true
+		c.shard.disown(c)
+		defer c.shard.wg.Done()
+		return c.Conn.Close()
+	}
+
+	return nil
+}
+
 var errAlreadyDisowned = errors.New("listener: conn already disowned")
 
 func (c *conn) disown() error {
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index a9addad..cf79484 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -86,7 +86,7 @@ func (s *shard) closeConns(all, drain bool) {
 		// happen. (I also expect that most errors returned in this way
 		// are going to be pretty boring)
 		if all {
-			c.Close()
+			c.closeIfManaged()
 		} else {
 			c.closeIfIdle()
 		}
-- 
2.43.0


From 37f0e54e24156cfaca20be6ecad637862c61a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 15/20] fix: accepting while draining must not reuse the wait
 group

---
 graceful/listener/conn.go  | 3 +--
 graceful/listener/shard.go | 2 ++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/graceful/listener/conn.go b/graceful/listener/conn.go
index 7f46833..802199e 100644
--- a/graceful/listener/conn.go
+++ b/graceful/listener/conn.go
@@ -24,9 +24,8 @@ type conn struct {
 var errClosing = errors.New("use of closed network connection")
 
 func (c *conn) init() error {
-	c.shard.wg.Add(1)
 	if shouldExit := c.shard.track(c); shouldExit {
-		c.Close()
+		c.Conn.Close()
 		return errClosing
 	}
 	return nil
diff --git a/graceful/listener/shard.go b/graceful/listener/shard.go
index cf79484..7a5e36b 100644
--- a/graceful/listener/shard.go
+++ b/graceful/listener/shard.go
@@ -30,6 +30,8 @@ func (s *shard) track(c *conn) (shouldClose bool) {
 		s.mu.Unlock()
 		return true
 	}
+	// Nothing may be added once someone waits, i.e., when we're draining.
+	s.wg.Add(1)
 	s.all[c] = struct{}{}
 	s.idle[c] = struct{}{}
 	s.mu.Unlock()
-- 
2.43.0


From a6ee3591142a26cafbfcac5157a851ffb956513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 16/20] fix: an accept cut off by draining fails like one cut
 off by Close

---
 graceful/listener/listener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graceful/listener/listener.go b/graceful/listener/listener.go
index 6c9c477..a23a3f5 100644
--- a/graceful/listener/listener.go
+++ b/graceful/listener/listener.go
@@ -86,7 +86,8 @@ func (t *T) Accept() (net.Conn, error) {
 	}
 
 	if err = wc.init(); err != nil {
-		return nil, err
+		// Like package net's listeners once they have been closed.
+		return nil, &net.OpError{Op: "accept", Addr: t.l.Addr(), Err: err}
 	}
 	return wc, nil
 }
-- 
2.43.0


From 2abd1fcaeb0daccf4e1cbc034629e7777591514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:27 +0000
Subject: [PATCH 17/20] fix: keep every setting of the TLS configuration

---
 graceful/clone16.go |  2 +-
 graceful/clone18.go | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)
 create mode 100644 graceful/clone18.go

diff --git a/graceful/clone16.go b/graceful/clone16.go
index 810b3a2..18fbbbc 100644
--- a/graceful/clone16.go
+++ b/graceful/clone16.go
@@ -1,4 +1,4 @@
-// +build go1.6
+// +build go1.6,!go1.8
 
 package graceful
 
diff --git a/graceful/clone18.go b/graceful/clone18.go
new file mode 100644
index 0000000..05b73d9
--- /dev/null
+++ b/graceful/clone18.go
@@ -0,0 +1,13 @@
+// +build go1.8
+
+package graceful
+
+import "crypto/tls"
+
+// see clone16.go
+func cloneTLSConfig(cfg *tls.Config) *tls.Config {
+	if cfg == nil {
+		return &tls.Config{}
+	}
+	return cfg.Clone()
+}
-- 
2.43.0


From 3ce9896ae44bb35adfd682d2ee52b7bd107f1c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 18/20] fix: a negative descriptor in a bind string is an error

---
 bind/bind.go    | 3 +++
 bind/einhorn.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/bind/bind.go b/bind/bind.go
index 43d11dd..561d491 100644
--- a/bind/bind.go
+++ b/bind/bind.go
@@ -108,6 +108,9 @@ func listenTo(bind string) (net.Listener, error) {
 				bind, err)
 		}
 		f := os.NewFile(uintptr(fd), bind)
+		if f == nil {
+			return nil, fmt.Errorf("invalid fd in bind arg %v", bind)
+		}
 		defer f.Close()
 		return net.FileListener(f)
 	} else if strings.HasPrefix(bind, "einhorn@") {
diff --git a/bind/einhorn.go b/bind/einhorn.go
index e695c0e..6a98dcd 100644
--- a/bind/einhorn.go
+++ b/bind/einhorn.go
@@ -13,6 +13,7 @@ import (
 
 const tooBigErr = "bind: einhorn@%d not found (einhorn only passed %d fds)"
 const bindErr = "bind: could not bind einhorn@%d: not running under einhorn"
+const badFdErr = "bind: could not bind einhorn@%d: invalid fd %d"
 const einhornErr = "bind: einhorn environment initialization error"
 const ackErr = "bind: error ACKing to einhorn: %v"
 
@@ -65,6 +66,9 @@ func einhornBind(n int) (net.Listener, error) {
 
 	fno := einhornFdMap(n)
 	f := os.NewFile(uintptr(fno), fmt.Sprintf("einhorn@%d", n))
+	if f == nil {
+		return nil, fmt.Errorf(badFdErr, n, fno)
+	}
 	defer f.Close()
 	return net.FileListener(f)
 }
-- 
2.43.0


From bfa7c8547281c19aa235d3a518df5acc173e81f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:45 +0000
Subject: [PATCH 19/20] fix: keep Accept from panicking once the connection
 count exceeds an int

---
 graceful/listener/listener.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graceful/listener/listener.go b/graceful/listener/listener.go
index a23a3f5..d8ed3b4 100644
--- a/graceful/listener/listener.go
+++ b/graceful/listener/listener.go
@@ -78,7 +78,7 @@ func (t *T) Accept() (net.Conn, error) {
 	}
 
 	connID := atomic.AddUint64(&t.connCount, 1)
-	shard := &t.shards[int(connID)%len(t.shards)]
+	shard := &t.shards[connID%uint64(len(t.shards))]
 	wc := &conn{
 		Conn:  c,
 		shard: shard,
-- 
2.43.0


From 63146f7e68a1841fb6f6616761c010719869e936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:48 +0000
Subject: [PATCH 20/20] fix: adding no signals must not add every signal

---
 graceful/signal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graceful/signal.go b/graceful/signal.go
index 55061a5..3f2fc19 100644
--- a/graceful/signal.go
+++ b/graceful/signal.go
@@ -32,6 +32,10 @@ func HandleSignals() {
 // AddSignal adds the given signal to the set of signals that trigger a graceful
 // shutdown.
 func AddSignal(sig ...os.Signal) {
+	if len(sig) == 0 {
+		// To package signal, no signals at all means every signal.
+		return
+	}
 	signal.Notify(sigchan, sig...)
 }
 
-- 
2.43.0

