package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Instrumentation: the sources of the code under test are rewritten, on every
// run, so that each operation on shared state, time and the operating system
// goes through the harness packages. Nothing else changes, and line numbers
// stay as they are.

const hpkg = "verif/harness/"

// rewrite maps selectors pkg.Name to pkg'.Name of a harness package. A "*"
// stands for every name.
var rewrite = map[string]map[string]string{
	"sync":        {"*": "vsync"},
	"sync/atomic": {"*": "vatomic"},
	"time":        {"Now": "venv", "Sleep": "venv", "AfterFunc": "venv", "Since": "venv", "After": "venv", "NewTimer": "venv", "Timer": "venv", "Unix": "venv"},
	"os":          {"Getenv": "venv", "LookupEnv": "venv", "Getpid": "venv", "Getppid": "venv", "NewFile": "venv", "File": "venv", "Hostname": "venv", "Stdout": "venv"},
	"net":         {"Listen": "venv", "FileListener": "venv", "Dial": "venv", "DialTimeout": "venv", "DialUnix": "venv", "TCPListener": "venv", "TCPConn": "venv"},
	"syscall":     {"CloseOnExec": "venv"},
	"os/signal":   {"Notify": "venv", "Stop": "venv", "Reset": "venv", "Ignore": "venv"},
	"log":         {"Fatal": "venv", "Fatalf": "venv", "Fatalln": "venv", "Print": "venv", "Printf": "venv", "Println": "venv", "Flags": "venv", "SetFlags": "venv", "Prefix": "venv"},
	"flag":        {"StringVar": "venv", "String": "venv", "Parsed": "venv", "Parse": "venv"},
	"crypto/rand": {"Read": "venv"},
	"crypto/tls":  {"LoadX509KeyPair": "venv", "NewListener": "venv"},
	"runtime":     {"NumCPU": "venv", "GOMAXPROCS": "venv"},
	"net/http":    {"Handle": "venv"},
}

type edit struct {
	off, end int
	text     string
	prio     int
}

type instrumenter struct {
	stmts  bool
	nextID int
	out    map[string][]byte
}

// stmtPkgs are the directories in which statements become scheduling points.
func (t *instrumenter) file(path, dir string) error {
	src, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil // the type checker will report it
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ed []edit
	used := map[string]bool{}
	imports := map[string]string{} // local name -> path
	uses := map[string][2]int{}    // local name -> rewritten, kept
	specs := map[string]*ast.ImportSpec{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := p[strings.LastIndex(p, "/")+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		imports[name] = p
		specs[name] = im
	}
	local := func(id *ast.Ident) bool { return id.Obj != nil } // shadowed
	alias := func(h string) string { used[h] = true; return h + "_" }
	inSel := map[ast.Node]bool{} // communication of a select clause
	chans := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		isChan := func(e ast.Expr) bool {
			switch x := e.(type) {
			case *ast.ChanType:
				return true
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) > 0 {
					_, ok := x.Args[0].(*ast.ChanType)
					return ok
				}
			}
			return false
		}
		switch x := n.(type) {
		case *ast.ValueSpec:
			for i, id := range x.Names {
				if x.Type != nil && isChan(x.Type) || i < len(x.Values) && isChan(x.Values[i]) {
					chans[id.Name] = true
				}
			}
		case *ast.AssignStmt:
			for i, l := range x.Lhs {
				if id, ok := l.(*ast.Ident); ok && i < len(x.Rhs) && isChan(x.Rhs[i]) {
					chans[id.Name] = true
				}
			}
		case *ast.Field:
			for _, id := range x.Names {
				if isChan(x.Type) {
					chans[id.Name] = true
				}
			}
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CommClause:
			if x.Comm != nil {
				inSel[x.Comm] = true
				switch c := x.Comm.(type) {
				case *ast.ExprStmt:
					inSel[c.X] = true
				case *ast.AssignStmt:
					inSel[c.Rhs[0]] = true
				}
			}
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || local(id) {
				return true
			}
			p, ok := imports[id.Name]
			if !ok {
				return true
			}
			u := uses[id.Name]
			h, ok := rewrite[p][x.Sel.Name]
			if !ok {
				h, ok = rewrite[p]["*"]
			}
			if ok {
				ed = append(ed, edit{off(id.Pos()), off(id.End()), alias(h), 0})
				u[0]++
			} else {
				u[1]++
			}
			uses[id.Name] = u
		case *ast.GoStmt:
			c := x.Call
			n := len(c.Args)
			if n > 4 || c.Ellipsis.IsValid() {
				return true
			}
			name := "Go"
			if n > 0 {
				name = "Go" + strconv.Itoa(n)
			}
			ed = append(ed, edit{off(x.Go), off(x.Go) + 2, alias("sched") + "." + name + "(", 0})
			if n > 0 {
				ed = append(ed, edit{off(c.Lparen), off(c.Lparen) + 1, ", ", 0})
			} else {
				ed = append(ed, edit{off(c.Lparen), off(c.Lparen) + 1, "", 0})
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !inSel[x] {
				ed = append(ed, edit{off(x.OpPos), off(x.OpPos) + 2, alias("sched") + ".Recv(", 0},
					edit{off(x.X.End()), off(x.X.End()), ")", -1})
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW && !inSel[x] {
					inSel[u] = true
					ed = append(ed, edit{off(u.OpPos), off(u.OpPos) + 2, alias("sched") + ".Recv2(", 0},
						edit{off(u.X.End()), off(u.X.End()), ")", -1})
				}
			}
		case *ast.SendStmt:
			if !inSel[x] {
				ed = append(ed, edit{off(x.Pos()), off(x.Pos()), alias("sched") + ".Send(", 2},
					edit{off(x.Arrow), off(x.Arrow) + 2, ", ", 0}, edit{off(x.End()), off(x.End()), ")", -1})
			}
		case *ast.RangeStmt:
			if id, ok := x.X.(*ast.Ident); ok && chans[id.Name] && x.Tok != token.ASSIGN && x.Value == nil {
				v := "_"
				if k, ok := x.Key.(*ast.Ident); ok {
					v = k.Name
				}
				rc := alias("sched") + ".Recv2(" + id.Name + ")"
				ed = append(ed, edit{off(x.For) + 3, off(x.X.End()), fmt.Sprintf(" %s, ok_ := %s; ok_; %s, ok_ = %s", v, rc, v, rc), 0})
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && !local(id) && len(x.Args) == 1 {
				ed = append(ed, edit{off(id.Pos()), off(id.End()), alias("sched") + ".Close", 0})
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && f.Name.Name == "graceful" && len(x.Args) == 1 && (s.Sel.Name == "Serve" || s.Sel.Name == "SetKeepAlivesEnabled") {
				if id := root(s.X); id != nil && (imports[id.Name] == "" || local(id)) {
					ed = append(ed, edit{off(x.Pos()), off(x.Pos()), alias("venv") + "." + s.Sel.Name + "(&", 0},
						edit{off(s.X.End()), off(x.Lparen) + 1, ", ", 0})
				}
			}
		}
		return true
	})
	if t.stmts {
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				if b, ok := s.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
					continue
				}
				t.nextID++
				ed = append(ed, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("%s.Stmt(%d); ", alias("sched"), t.nextID), 3})
				// make read-modify-write statements interruptible
				var l, r ast.Expr
				op := ""
				switch x := s.(type) {
				case *ast.IncDecStmt:
					l, op = x.X, x.Tok.String()[:1]
				case *ast.AssignStmt:
					if len(x.Lhs) == 1 && x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
						l, r, op = x.Lhs[0], x.Rhs[0], strings.TrimSuffix(x.Tok.String(), "=")
					}
				}
				if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.ASSIGN && len(a.Lhs) == 1 && len(a.Rhs) == 1 && pureExpr(a.Lhs[0]) && selfUpdate(src[off(a.Lhs[0].Pos()):off(a.Lhs[0].End())], src[off(a.Rhs[0].Pos()):off(a.Rhs[0].End())], a.Rhs[0]) {
					// x = append(x, y) and the like
					lt := string(src[off(a.Lhs[0].Pos()):off(a.Lhs[0].End())])
					ed = append(ed, edit{off(s.Pos()), off(a.Rhs[0].Pos()), "{ vt_ := ", 0},
						edit{off(s.End()), off(s.End()), fmt.Sprintf("; %s.Stmt(%d); %s = vt_ }", alias("sched"), t.nextID, lt), -2})
					continue
				}
				if l == nil || !pureExpr(l) {
					continue
				}
				lt := string(src[off(l.Pos()):off(l.End())])
				rt := "1"
				if r != nil {
					if !pureExpr(r) {
						continue
					}
					rt = string(src[off(r.Pos()):off(r.End())])
					if strings.Contains(rt, ".") || strings.Contains(lt, "\n") || strings.Contains(rt, "\n") {
						continue
					}
				}
				ed = append(ed, edit{off(s.Pos()), off(s.End()), fmt.Sprintf("{ vt_ := %s; %s.Stmt(%d); %s = vt_ %s (%s) }", lt, alias("sched"), t.nextID, lt, op, rt), 0})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
	}
	if len(ed) == 0 {
		return nil
	}
	for name, u := range uses {
		if u[0] > 0 && u[1] == 0 {
			im := specs[name]
			if im.Name != nil {
				ed = append(ed, edit{off(im.Name.Pos()), off(im.Name.End()), "_", 0})
			} else {
				ed = append(ed, edit{off(im.Path.Pos()), off(im.Path.Pos()), "_ ", 0})
			}
		}
	}
	var imp strings.Builder
	var hs []string
	for h := range used {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		fmt.Fprintf(&imp, "; import %s_ %q", h, hpkg+h)
	}
	ed = append(ed, edit{off(f.Name.End()), off(f.Name.End()), imp.String(), 0})
	t.out[path] = apply(src, ed)
	return nil
}

// root is the variable of x.f.g.
func root(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			e = x.X
		default:
			return nil
		}
	}
}

// selfUpdate reports whether r is an expression over l whose type is that of l.
func selfUpdate(l, r []byte, e ast.Expr) bool {
	if strings.ContainsAny(string(l), "\n[") || !strings.Contains(string(r), string(l)) {
		return false
	}
	switch x := e.(type) {
	case *ast.CallExpr:
		id, ok := x.Fun.(*ast.Ident)
		return ok && id.Name == "append"
	case *ast.BinaryExpr:
		switch x.Op {
		case token.ADD, token.SUB, token.OR, token.AND, token.XOR, token.MUL:
			return true
		}
	}
	return false
}

func pureExpr(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
			ok = false
		}
		return ok
	})
	return ok
}

// apply performs the edits. Insertions at one offset are ordered by priority
// (higher first); an edit inside a replaced range is dropped.
func apply(src []byte, ed []edit) []byte {
	sort.SliceStable(ed, func(i, j int) bool {
		a, b := ed[i], ed[j]
		if a.off != b.off {
			return a.off < b.off
		}
		ai, bi := a.off == a.end, b.off == b.end
		if ai != bi {
			return ai
		}
		if a.prio != b.prio {
			return a.prio > b.prio
		}
		return a.end > b.end
	})
	var out []byte
	pos := 0
	for _, e := range ed {
		if e.off < pos {
			continue
		}
		out = append(out, src[pos:e.off]...)
		out = append(out, e.text...)
		pos = e.end
	}
	return append(out, src[pos:]...)
}

// instrument rewrites the packages of repo and writes the results to dir. It
// returns the overlay for the type checker and the name of the overlay file
// for the go command.
func instrument(repo, dir string, stmts map[string]bool) (map[string][]byte, string, error) {
	t := &instrumenter{out: map[string][]byte{}}
	for _, p := range []string{"", "bind", "graceful", "graceful/listener", "web", "web/middleware", "web/mutil"} {
		ents, err := os.ReadDir(filepath.Join(repo, p))
		if err != nil {
			continue
		}
		t.stmts = stmts[p]
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
				if err := t.file(filepath.Join(repo, p, e.Name()), p); err != nil {
					return nil, "", err
				}
			}
		}
	}
	if _, err := os.Stat(filepath.Join(repo, "go.mod")); err != nil {
		t.out[filepath.Join(repo, "go.mod")] = []byte("module github.com/zenazn/goji\n\ngo 1.20\n")
	}
	rep := map[string]string{}
	for p, b := range t.out {
		rel, _ := filepath.Rel(repo, p)
		f := filepath.Join(dir, "ov", strings.ReplaceAll(rel, "/", "__"))
		os.MkdirAll(filepath.Dir(f), 0o755)
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return nil, "", err
		}
		rep[p] = f
	}
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(dir, "overlay.json")
	return t.out, ov, os.WriteFile(ov, js, 0o644)
}
