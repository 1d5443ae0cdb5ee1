package main

import (
	"regexp"

	"github.com/zenazn/goji/web"
	"verif/harness/hu"
	"verif/harness/sym"
)

func isBreak(b byte) bool {
	return sym.Decide(sym.Or(sym.Or(b == '/', b == '.'), sym.Or(b == ';', b == ',')))
}

// strPat is a string pattern as documented.
type strPat struct {
	lits, names []string
	stops       []byte
	wild        bool
}

func parseDoc(s string) strPat {
	var p strPat
	if n := len(s); n >= 2 && s[n-2:] == "/*" {
		p.wild = true
		s = s[:n-1]
	}
	start := 0
	for i := 0; i+2 < len(s); {
		if !(s[i+1] == ':' && isBreak(s[i]) && !isBreak(s[i+2])) {
			i++
			continue
		}
		j := i + 2
		for j < len(s) && !isBreak(s[j]) {
			j++
		}
		p.lits = append(p.lits, s[start:i+1])
		p.names = append(p.names, s[i+2:j])
		stop := byte('/')
		if j < len(s) {
			stop = s[j]
		}
		p.stops = append(p.stops, stop)
		start, i = j, j
	}
	p.lits = append(p.lits, s[start:])
	return p
}

// match returns the bound values; the last one is the tail of a wildcard.
func (p strPat) match(path string) (bool, []string) {
	var vals []string
	for i := range p.names {
		if !hu.HasPrefix(path, p.lits[i]) {
			return false, nil
		}
		path = path[len(p.lits[i]):]
		n := 0
		for n < len(path) && path[n] != '/' && path[n] != p.stops[i] {
			n++
		}
		if n == 0 {
			return false, nil
		}
		vals = append(vals, path[:n])
		path = path[n:]
	}
	last := p.lits[len(p.names)]
	if p.wild {
		if !hu.HasPrefix(path, last) {
			return false, nil
		}
		return true, append(vals, path[len(last)-1:])
	}
	return path == last, vals
}

func (p strPat) keys() []string {
	if p.wild {
		return append(append([]string(nil), p.names...), "*")
	}
	return p.names
}

var patTokens = []string{"/", ":x", "a", ".", "/:y", ":", "*", ";:z", "/*", ",", "b", "::w", "//", "-"}

func tokenPattern() string {
	n := sym.Param("tokens", 3)
	k := min(sym.Param("kinds", len(patTokens)), len(patTokens))
	s := ""
	for i := 0; i < n; i++ {
		c := sym.Choice(k + 1)
		if c == k {
			break
		}
		s += patTokens[c]
	}
	return s
}

func checkString(s string) {
	p := parseDoc(s)
	keys := p.keys()
	for i := range keys {
		for j := 0; j < i; j++ {
			sym.Assume(keys[i] != keys[j])
		}
		sym.Assume(keys[i] != "old")
	}
	path := sym.String(0, sym.Param("path", 4))
	sym.Observe("pattern", s)
	sym.Observe("path", path)
	r := hu.Req("GET", path)
	pat := web.ParsePattern(s)
	c := web.C{}
	hasOld, stale := false, false
	switch sym.Choice(3) {
	case 1:
		hasOld = true
		c.URLParams = map[string]string{"old": "1"}
	case 2:
		hasOld, stale = true, true
		c.URLParams = map[string]string{"old": "1"}
		for _, k := range keys {
			c.URLParams[k] = "stale" // a parameter of that name came in
		}
	}
	in := len(c.URLParams)
	want, vals := p.match(path)
	got := pat.Match(r, &c)
	sym.Assert(got == want, "the pattern matches exactly the documented paths")
	n := 0
	if hasOld {
		n = 1
		for _, k := range keys {
			_, ok := c.URLParams[k]
			sym.Assert(ok == stale && (!stale || c.URLParams[k] == "stale"), "matching does not bind")
		}
		sym.Assert(c.URLParams["old"] == "1", "existing parameters are kept")
	}
	sym.Assert(len(c.URLParams) == in, "matching does not bind")
	if !want {
		sym.Reach("nomatch")
		return
	}
	sym.Assert(pat.Match(r, nil), "a nil context changes nothing")
	sym.MapNondet(true)
	pat.Run(r, &c)
	sym.MapNondet(false)
	for i, k := range keys {
		v, ok := c.URLParams[k]
		sym.Assert(ok, "every name is bound")
		sym.Assert(v == vals[i], "each name is bound to the run it consumed")
	}
	sym.Assert(len(c.URLParams) == n+len(keys), "nothing else is bound")
	if hasOld {
		sym.Assert(c.URLParams["old"] == "1", "existing parameters are kept")
	}
	sym.Assert(r.URL.Path == path, "the request is not changed")
	if len(keys) > 0 {
		sym.Reach("bound")
	} else {
		sym.Reach("literal")
	}
}

// C04Tokens: patterns made of tokens, an arbitrary path.
func C04Tokens() { checkString(tokenPattern()) }

// C04Bytes: patterns made of arbitrary bytes over an alphabet.
func C04Bytes() { checkString(sym.StringOf(0, sym.Param("pattern", 4), "/:*.;,ax")) }

// C04Any: patterns of arbitrary bytes.
func C04Any() { checkString(sym.String(0, sym.Param("pattern", 3))) }

var reAtoms = []string{"/", "a", "|", "(a)", "[ab]", "b*", "(?P<n$>/b|b)", ".", "(a|/)?", "$", "(?:a|b)+", `\b`, "A", "é", `\x{FFFD}`, "^", "(b)|", `\z`, `\Q*\E`, "(?:)"}
var reFlags = []string{"^", "", "(?i)", "(?i)^", "(?s)", "(?m)^", "(?m)", `\A`, "(?U)"}

func genRegexp() (src string) {
	src = reFlags[sym.Choice(min(sym.Param("flags", 3), len(reFlags)))]
	k := min(sym.Param("atoms", len(reAtoms)), len(reAtoms))
	n := sym.Param("len", 2)
	for i := 0; i < n; i++ {
		c := sym.Choice(k + 1)
		if c == k {
			break
		}
		a := reAtoms[c]
		for j := 0; j < len(a); j++ {
			if a[j] == '$' && len(a) > 1 {
				src += hu.Itoa(i)
			} else {
				src += a[j : j+1]
			}
		}
	}
	return src
}

// C06Regexp: regular expressions from a grammar, an arbitrary path.
func C06Regexp() {
	src := genRegexp()
	re, err := regexp.Compile(src)
	sym.Assume(err == nil)
	path := sym.String(0, sym.Param("path", 3))
	sym.Observe("regexp", src)
	sym.Observe("path", path)
	loc := re.FindStringSubmatchIndex(path)
	want := loc != nil && loc[0] == 0
	pat := web.ParsePattern(re)
	r := hu.Req("GET", path)
	c := web.C{}
	got := pat.Match(r, &web.C{})
	sym.Assert(got == want, "the pattern matches exactly when the expression matches at the start")
	if want {
		sym.Assert(hu.HasPrefix(path, pat.Prefix()), "a matching path begins with the prefix")
	} else {
		sym.Reach("nomatch")
		return
	}
	names := re.SubexpNames()
	keys := make([]string, len(names))
	for i := range names {
		if keys[i] = names[i]; keys[i] == "" {
			keys[i] = "$" + hu.Itoa(i)
		}
	}
	n := 0
	hasOld := false
	switch sym.Choice(3) {
	case 1:
		hasOld, n = true, 1
		c.URLParams = map[string]string{"old": "1"}
	case 2:
		hasOld, n = true, 1
		c.URLParams = map[string]string{"old": "1"}
		for _, k := range keys[1:] {
			c.URLParams[k] = "stale" // a parameter of that name came in
		}
	}
	sym.MapNondet(true)
	pat.Run(r, &c)
	sym.MapNondet(false)
	if hasOld {
		sym.Assert(c.URLParams["old"] == "1", "existing parameters are kept")
	}
	for i := 1; i < len(names); i++ {
		v, ok := c.URLParams[keys[i]]
		sym.Assert(ok, "every group is bound")
		w := ""
		if loc[2*i] >= 0 {
			w = path[loc[2*i]:loc[2*i+1]]
		}
		sym.Assert(v == w, "each group is bound to the text it captured")
		n++
	}
	sym.Assert(len(c.URLParams) == n, "nothing else is bound")
	if len(names) > 1 {
		sym.Reach("groups")
	} else {
		sym.Reach("match")
	}
}

// C06Many: expressions with many groups, some of which may not take part in
// the match.
func C06Many() {
	n := sym.Param("groups", 12)
	named := sym.Choice(n + 1) // that one has a name
	src := "^"
	for i := 1; i <= n; i++ {
		name := ""
		if i == named {
			name = "?P<n>"
		}
		src += "(" + name + string(rune('a'+i)) + ")?"
	}
	re := regexp.MustCompile(src)
	path := sym.StringOf(0, sym.Param("path", 2), "bcklm")
	sym.Observe("regexp", src)
	sym.Observe("path", path)
	loc := re.FindStringSubmatchIndex(path)
	pat := web.ParsePattern(re)
	r := hu.Req("GET", path)
	c := web.C{}
	if sym.Choice(2) == 1 {
		c.URLParams = map[string]string{"n": "stale", "$" + hu.Itoa(n): "stale"}
	}
	old := len(c.URLParams)
	if named > 0 && named < n {
		old = 0
	} else if old > 0 {
		old = 1 // there is no group of one of the names
	}
	sym.Assert(pat.Match(r, &c), "the pattern matches exactly when the expression matches at the start")
	sym.MapNondet(true)
	pat.Run(r, &c)
	sym.MapNondet(false)
	sym.Assert(len(c.URLParams) == n+old, "nothing else is bound")
	for i := 1; i <= n; i++ {
		k := "$" + hu.Itoa(i)
		if i == named {
			k = "n"
		}
		w := ""
		if loc[2*i] >= 0 {
			w = path[loc[2*i]:loc[2*i+1]]
			sym.Reach("group")
		}
		v, ok := c.URLParams[k]
		sym.Assert(ok, "every group is bound")
		sym.Assert(v == w, "each group is bound to the text it captured")
	}
}

// C05Regexp and C05String: a matching path begins with the prefix.
func C05Regexp() {
	re, err := regexp.Compile(genRegexp())
	sym.Assume(err == nil)
	checkPrefix(re)
}

func C05String() { checkPrefix(tokenPattern()) }

func checkPrefix(raw web.PatternType) {
	path := sym.String(0, sym.Param("path", 3))
	pat := web.ParsePattern(raw)
	if re, ok := raw.(*regexp.Regexp); ok {
		sym.Observe("regexp", re.String())
	} else {
		sym.Observe("pattern", raw.(string))
	}
	sym.Observe("path", path)
	m := pat.Match(hu.Req("GET", path), &web.C{})
	sym.Assert(pat.Prefix() == web.ParsePattern(raw).Prefix(), "the prefix is a function of the pattern")
	if !m {
		sym.Reach("nomatch")
		return
	}
	sym.Assert(hu.HasPrefix(path, pat.Prefix()), "a matching path begins with the prefix")
	if pat.Prefix() == "" {
		sym.Reach("empty prefix")
	} else {
		sym.Reach("prefix")
	}
}
