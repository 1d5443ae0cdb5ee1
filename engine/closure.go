package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Interleavings by closure.
//
// From the first "go" of a path on, the goroutines of the program are a set
// of deterministic automata: what a block (the code a goroutine executes
// between two scheduling points) does is a function of what the goroutine did
// before and of the values it reads from memory. The engine keeps the tree of
// local histories of every goroutine seen so far, with the values each block
// reads and writes, and asks the solver for an interleaving of known blocks -
// a total order in which every block reads the values it is known to have
// read - after which some goroutine reads a value that leaves the tree. If
// there is one it is executed, which adds blocks to the trees; if the answer
// is unsat for every exit of every tree, the trees contain every local
// history of every interleaving, without a bound on preemptions, and all
// assertions have been evaluated on all of them. A last query asks for an
// interleaving that ends in a deadlock.

type cread struct {
	cell, val string
	dom       int // >0: a choice among dom values
}

type cnode struct {
	id      int
	th      string
	parent  *cnode
	root    bool // virtual node before the first block of a goroutine
	exit    bool // the goroutine has ended
	final   bool // the execution has ended with this block
	blocked bool // a condition that was false: not a block
	reads   []cread
	writes  map[string]string
	dec     *cdec // next blocks by the values they read
	depth   int
	kids    []*cnode // blocks (not blocked leaves) and roots below this node
	leaves  []*cnode // blocked leaves

	// per round
	rep *cnode // node that stands for this one in the query
}

type cdec struct {
	cell string
	dom  int
	kids map[string]*cdec
	leaf *cnode
}

type cthread struct {
	name    string
	node    *cnode
	spawned int
}

type cblock struct {
	t       *cthread
	start   *cnode
	reads   []cread
	seen    map[any]bool // cells read or written in the block
	sync    int          // trail position up to which writes are in seen
	mark    int          // trail position at the start of the block
	written []any
	wseen   map[any]bool
	spawned []*cthread
	allocs  int
	choices int
	vars    int
}

type cplan struct {
	th      string
	node    *cnode // expected block, or nil
	choices []int
}

type closure struct {
	in      *Interp
	nodes   []*cnode
	persist map[any]string
	objs    map[string]any // cells that exist at the snapshot
	initVal map[string]string
	main    *cnode

	// current execution
	names   map[any]string
	owner   map[string]*cblock // block that allocated a cell
	ownNode map[*cblock]*cnode
	ts      []*cthread
	blk     *cblock
	log     *[]cread // where a condition logs its reads
	logSeen map[any]bool
	plan    []cplan
	pos     int

	queue  [][]cplan
	done   bool
	gaveUp bool // the solver did not answer
	dl     bool // the deadlock query was satisfiable
	size   int  // blocks and decisions in the trees
	last   int  // size before the last round of plans
	open   bool // plans of a round are being executed
	walks  int  // random executions after the closure, to check it
	rng    *rand.Rand

	execs, queries, sat, unsat, rounds int
}

func (in *Interp) startClosure() {
	c := &closure{in: in, persist: map[any]string{}, objs: map[string]any{}, initVal: map[string]string{}}
	c.main = c.newNode("0", nil)
	c.main.root = true
	cp := in.snapshot()
	cp.clo = c
	in.pushCP(cp)
	in.clo = c
	c.begin()
}

func (c *closure) newNode(th string, parent *cnode) *cnode {
	n := &cnode{id: len(c.nodes), th: th, parent: parent}
	if parent != nil {
		n.depth = parent.depth + 1
	}
	c.nodes = append(c.nodes, n)
	return n
}

// begin starts an execution from the snapshot.
func (c *closure) begin() {
	c.execs++
	c.in.local.ClosureExecs++
	c.names, c.owner, c.ownNode = map[any]string{}, map[string]*cblock{}, map[*cblock]*cnode{}
	c.ts = []*cthread{{name: "0", node: c.main}}
	c.pos = 0
	if len(c.plan) > 0 {
		c.pos = 1
	}
	c.log = nil
	c.startBlock(c.ts[0], nil, nil)
	// goroutines that exist already
	for _, g := range c.in.gs[1:] {
		if g.done {
			c.ts = append(c.ts, &cthread{name: "done"})
			continue
		}
		c.spawn()
	}
}

func (c *closure) fail(f string, a ...any) {
	panic(pathEnd{endInconclusive, "interleaving closure: " + fmt.Sprintf(f, a...)})
}

// freshName names a symbolic value after the block that makes it.
func (c *closure) freshName(label string, w uint8) string {
	b := c.blk
	if b == nil || c.log != nil {
		c.fail("symbolic value outside a block")
	}
	b.vars++
	return fmt.Sprintf("%s!n%d.%d!%d", label, b.start.id, b.vars, w)
}

func (c *closure) startBlock(t *cthread, reads []cread, seen map[any]bool) {
	if seen == nil {
		seen = map[any]bool{}
	}
	n := len(c.in.trail)
	c.blk = &cblock{t: t, start: t.node, reads: reads, seen: seen, wseen: map[any]bool{}, sync: n, mark: n}
}

// ---- names and canonical values

func (c *closure) regCell(p Ptr, base string) {
	c.names[p] = base
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			c.regCell(&x[i], base+"."+strconv.Itoa(i))
		}
	case Array:
		for i := range x {
			c.regCell(&x[i], base+"."+strconv.Itoa(i))
		}
	}
}

// alloc names a fresh object after the block that allocates it.
func (c *closure) alloc(obj any) {
	b := c.blk
	if b == nil {
		return
	}
	if c.log != nil {
		c.fail("allocation in a condition")
	}
	base := fmt.Sprintf("n%d:%d", b.start.id, b.allocs)
	b.allocs++
	switch x := obj.(type) {
	case Ptr:
		c.regCell(x, base)
	case Slice:
		x = x[:cap(x)]
		for i := range x {
			c.regCell(&x[i], base+"."+strconv.Itoa(i))
		}
	default:
		c.names[obj] = base
	}
	c.owner[base] = b
}

func (c *closure) name(o any) string {
	if n, ok := c.names[o]; ok {
		return n
	}
	if n, ok := c.persist[o]; ok {
		return n
	}
	n := "g" + strconv.Itoa(len(c.persist))
	c.persist[o] = n
	c.objs[n] = o
	return n
}

// where describes a cell for messages.
func (c *closure) where(cell string) string {
	o := c.objs[cell]
	if p, ok := o.(Ptr); ok && p != nil {
		return fmt.Sprintf("%s (%T)", cell, *p)
	}
	return fmt.Sprintf("%s (%T)", cell, o)
}

func (c *closure) canon(v Value) string {
	var b strings.Builder
	c.canonTo(&b, v)
	return b.String()
}

func (c *closure) canonTo(b *strings.Builder, v Value) {
	switch x := v.(type) {
	case nil:
		b.WriteString("nil")
	case bool:
		if x {
			b.WriteByte('T')
		} else {
			b.WriteByte('F')
		}
	case uint64:
		b.WriteString(strconv.FormatUint(x, 10))
	case string:
		b.WriteString(strconv.Quote(x))
	case float64:
		fmt.Fprintf(b, "f%v", x)
	case complex128:
		fmt.Fprintf(b, "c%v", x)
	case *Term:
		b.WriteString("t" + strconv.Itoa(x.id))
	case *SymStr:
		b.WriteString("s[")
		for _, e := range x.b {
			c.canonTo(b, e)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case Ptr:
		if x == nil {
			b.WriteString("nilp")
		} else {
			b.WriteString("&" + c.name(x))
		}
	case *SymPtr:
		c.canonTo(b, &x.arr[0])
		c.canonTo(b, x.idx)
	case DataPtr:
		c.canonTo(b, Slice(x.s))
	case *Closure:
		switch {
		case x == nil:
			b.WriteString("nilf")
		case x.fn == nil:
			b.WriteString("native " + x.name)
			if len(x.name) == 0 {
				b.WriteString(c.name(x))
			}
		default:
			b.WriteString(x.fn.String())
			for _, e := range x.env {
				b.WriteByte('|')
				c.canonTo(b, e)
			}
		}
	case Slice:
		if cap(x) == 0 {
			if x == nil {
				b.WriteString("nils")
			} else {
				b.WriteString("[]")
			}
			return
		}
		fmt.Fprintf(b, "[%s;%d;%d]", c.name(&x[:1][0]), len(x), cap(x))
	case *Map:
		if x == nil {
			b.WriteString("nilm")
		} else {
			b.WriteString("map " + c.name(x))
		}
	case *Chan:
		if x == nil {
			b.WriteString("nilc")
		} else {
			b.WriteString("chan " + c.name(x))
		}
	case Iface:
		if x.t == nil {
			b.WriteString("nili")
			return
		}
		fmt.Fprintf(b, "i%d(", x.t.id)
		c.canonTo(b, x.v)
		b.WriteByte(')')
	case Struct:
		c.canonSeq(b, x)
	case Array:
		c.canonSeq(b, x)
	case Tuple:
		c.canonSeq(b, x)
	case reflVal:
		fmt.Fprintf(b, "r%d(", x.t.id)
		c.canonTo(b, x.v)
		b.WriteByte(')')
	case Undef:
		b.WriteString("undefined " + x.why)
	default:
		c.fail("value %T", v)
	}
}

func (c *closure) canonSeq(b *strings.Builder, x []Value) {
	b.WriteByte('{')
	for _, e := range x {
		c.canonTo(b, e)
		b.WriteByte(',')
	}
	b.WriteByte('}')
}

// content is the canonical content of a cell, map or channel.
func (c *closure) content(o any) string {
	switch x := o.(type) {
	case Ptr:
		return c.canon(*x)
	case *Map:
		var b strings.Builder
		for _, e := range x.entries {
			if e.dead {
				continue
			}
			c.canonTo(&b, e.k)
			b.WriteByte(':')
			c.canonTo(&b, e.v)
			b.WriteByte(',')
		}
		return b.String()
	case *Chan:
		var b strings.Builder
		for _, e := range x.buf {
			c.canonTo(&b, e)
			b.WriteByte(',')
		}
		if x.closed {
			b.WriteString("closed")
		}
		for _, s := range x.sendq {
			b.WriteByte('<')
			c.canonTo(&b, s.v)
		}
		return b.String()
	}
	panic("content")
}

// ---- logging

// syncWrites adds the writes since the last call to the block.
func (c *closure) syncWrites() {
	b := c.blk
	tr := c.in.trail
	for ; b.sync < len(tr); b.sync++ {
		e := &tr[b.sync]
		if e.p != nil {
			c.noteWrite(b, e.p, e.old)
		} else if e.obj != nil {
			c.noteWrite(b, e.obj, nil)
		}
	}
}

func (c *closure) noteWrite(b *cblock, o any, old Value) {
	if b.wseen[o] {
		return
	}
	if p, ok := o.(Ptr); ok {
		switch old.(type) {
		case Struct, Array:
			c.fail("aggregate replaced")
		}
		c.touch(p, old, true)
	} else {
		c.touch(o, nil, true)
	}
	b.wseen[o] = true
	b.written = append(b.written, o)
}

// touch makes sure that the initial value of a cell allocated by another
// block is known.
func (c *closure) touch(o any, old Value, useOld bool) {
	n, ok := c.names[o]
	if !ok {
		return
	}
	base := n
	if i := strings.IndexByte(n, '.'); i >= 0 {
		base = n[:i]
	}
	ob := c.owner[base]
	if ob == nil || ob == c.blk {
		return
	}
	on := c.ownNode[ob]
	if on == nil {
		return
	}
	if _, ok := on.writes[n]; ok {
		return
	}
	v := ""
	if useOld {
		if _, ok := o.(Ptr); ok {
			v = c.canon(old)
		}
	} else {
		v = c.content(o)
	}
	on.writes[n] = v
}

// own reports whether o was allocated by the block itself.
func (c *closure) own(o any, b *cblock) bool {
	n, ok := c.names[o]
	if !ok {
		return false
	}
	if i := strings.IndexByte(n, '.'); i >= 0 {
		n = n[:i]
	}
	return c.owner[n] == b
}

func (c *closure) read(o any) {
	b := c.blk
	if b == nil {
		return
	}
	c.syncWrites()
	if b.wseen[o] || c.own(o, b) {
		return
	}
	if c.log != nil {
		if c.logSeen[o] {
			return
		}
		c.logSeen[o] = true
		c.touch(o, nil, false)
		*c.log = append(*c.log, cread{cell: c.name(o), val: c.content(o)})
		return
	}
	if b.seen[o] {
		return
	}
	b.seen[o] = true
	c.touch(o, nil, false)
	b.reads = append(b.reads, cread{cell: c.name(o), val: c.content(o)})
}

// readCell logs a read of a cell or of all the cells of an aggregate.
func (c *closure) readCell(p Ptr) {
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			c.readCell(&x[i])
		}
	case Array:
		for i := range x {
			c.readCell(&x[i])
		}
	default:
		c.read(p)
	}
}

func (c *closure) readSlice(s []Value) {
	for i := range s {
		c.readCell(&s[i])
	}
}

// readArgs logs what a native function may read through its arguments.
func (c *closure) readArgs(args []Value) {
	for _, a := range args {
		switch x := a.(type) {
		case Ptr:
			if x != nil {
				c.readCell(x)
			}
		case Slice:
			c.readSlice(x)
		case *Map:
			if x != nil {
				c.read(x)
			}
		case *Chan:
			if x != nil {
				c.read(x)
			}
		case DataPtr:
			c.readSlice(x.s)
		case Iface:
			switch y := x.v.(type) {
			case Slice:
				c.readSlice(y)
			}
		}
	}
}

// choose is a choice made in a block.
func (c *closure) choose(n int) int {
	b := c.blk
	if b == nil || c.log != nil {
		c.fail("choice outside a block")
	}
	k := 0
	if c.pos > 0 && c.pos <= len(c.plan) {
		if p := c.plan[c.pos-1]; p.th == b.t.name && b.choices < len(p.choices) {
			k = p.choices[b.choices]
		}
	}
	if c.rng != nil {
		k = c.rng.Intn(n)
	}
	if k >= n {
		c.fail("choice out of range")
	}
	b.reads = append(b.reads, cread{cell: "?" + strconv.Itoa(b.choices), val: strconv.Itoa(k), dom: n})
	b.choices++
	return k
}

// ---- blocks

// insert finds or adds the block below parent that reads what reads says.
func (c *closure) insert(parent *cnode, reads []cread, blocked bool) (*cnode, bool) {
	if parent.dec == nil {
		parent.dec = &cdec{}
	}
	d := parent.dec
	for i, r := range reads {
		if d.kids == nil {
			if d.leaf != nil {
				c.fail("a block read more than before (%s at %d of n%d)", r.cell, i, parent.id)
			}
			d.cell, d.dom, d.kids = r.cell, r.dom, map[string]*cdec{}
		} else if d.cell != r.cell || d.dom != r.dom {
			c.fail("a block read another cell than before (%s, %s)", c.where(d.cell), c.where(r.cell))
		}
		k := d.kids[r.val]
		if k == nil {
			k = &cdec{}
			c.size++
			d.kids[r.val] = k
		}
		d = k
	}
	if d.kids != nil {
		c.fail("a block read less than before (%s)", d.cell)
	}
	if d.leaf != nil {
		if d.leaf.blocked != blocked {
			c.fail("a condition changed its value")
		}
		return d.leaf, false
	}
	c.size++
	n := c.newNode(parent.th, parent)
	n.reads = append([]cread(nil), reads...)
	n.blocked = blocked
	d.leaf = n
	if blocked {
		parent.leaves = append(parent.leaves, n)
	} else {
		parent.kids = append(parent.kids, n)
	}
	return n, true
}

// endBlock closes the current block.
func (c *closure) endBlock(exit bool) {
	b := c.blk
	if b == nil {
		return
	}
	c.syncWrites()
	w := map[string]string{}
	readVal := map[string]string{}
	for _, r := range b.reads {
		readVal[r.cell] = r.val
	}
	for _, o := range b.written {
		n := c.name(o)
		v := c.content(o)
		if rv, ok := readVal[n]; ok && rv == v {
			continue
		}
		w[n] = v
	}
	n, fresh := c.insert(b.start, b.reads, false)
	if fresh {
		n.writes = w
		n.exit = exit
		for _, t := range b.spawned {
			r := c.newNode(t.name, n)
			r.root = true
			n.kids = append(n.kids, r)
		}
	} else {
		if n.exit != exit {
			c.fail("a goroutine ended where it did not before")
		}
		for k, v := range w {
			if o, ok := n.writes[k]; !ok || o != v {
				c.fail("a block wrote something else than before: %s=%s, was %s", k, v, o)
			}
		}
	}
	i := 0
	for _, k := range n.kids {
		if k.root && i < len(b.spawned) && k.th == b.spawned[i].name {
			b.spawned[i].node = k
			i++
		}
	}
	if i != len(b.spawned) {
		c.fail("a block spawned something else than before")
	}
	c.ownNode[b] = n
	b.t.node = n
	if c.pos > 0 && c.pos <= len(c.plan) {
		if p := c.plan[c.pos-1]; p.node != nil && p.node != n && p.th == b.t.name && b.start == p.node.parent {
			c.fail("the predicted block was not executed: n%d, got n%d", p.node.id, n.id)
		}
	}
	c.blk = nil
}

// spawned registers a goroutine; the scheduler knows it by its index.
func (c *closure) spawn() {
	t := c.blk.t
	n := &cthread{name: t.name + "/" + strconv.Itoa(t.spawned)}
	t.spawned++
	c.ts = append(c.ts, n)
	c.blk.spawned = append(c.blk.spawned, n)
}

// try evaluates whether goroutine i can run, with what its condition reads.
func (c *closure) try(i int, w *waitRec) (bool, []cread, map[any]bool) {
	in := c.in
	if w == nil {
		return true, nil, nil
	}
	if w.cond == nil && (w.idle || w.send != nil) {
		c.fail("goroutine waits for something other than a condition")
	}
	var log []cread
	c.log, c.logSeen = &log, map[any]bool{}
	// conditions are evaluated between blocks
	n := len(in.trail)
	c.blk = &cblock{t: c.ts[i], start: c.ts[i].node, seen: map[any]bool{}, wseen: map[any]bool{}, sync: n, mark: n}
	var b bool
	if w.cond != nil {
		var ok bool
		b, ok = in.callSync(w.cond).(bool)
		if !ok {
			c.fail("symbolic condition")
		}
	} else {
		b = in.enabled(&G{wait: w})
	}
	c.blk, c.log = nil, nil
	if !b {
		c.insert(c.ts[i].node, log, true)
	}
	return b, log, c.logSeen
}

// pick ends the current block and chooses the goroutine to run next. w is
// what the current goroutine waits for; gone reports that it has ended.
func (c *closure) pick(w *waitRec, gone bool) int {
	in := c.in
	c.endBlock(gone)
	type opt struct {
		g     int
		reads []cread
		seen  map[any]bool
	}
	var opts []opt
	if !gone {
		if ok, r, s := c.try(in.cur, w); ok {
			opts = append(opts, opt{in.cur, r, s})
		}
	}
	for i, g := range in.gs {
		if i == in.cur || g.done {
			continue
		}
		if ok, r, s := c.try(i, g.wait); ok {
			opts = append(opts, opt{i, r, s})
		}
	}
	if len(opts) == 0 {
		if in.idleHook != nil {
			c.fail("virtual time")
		}
		for _, g := range in.gs {
			if !g.done && g.wait != nil && g.wait.idle {
				c.fail("wait for quiescence")
			}
		}
		in.gs[in.cur].wait = w
		in.violation("deadlock", "all goroutines are blocked: "+in.blockedDesc())
	}
	k := 0
	if c.rng != nil {
		k = c.rng.Intn(len(opts))
	} else if c.pos < len(c.plan) {
		p := c.plan[c.pos]
		c.pos++
		k = -1
		for j, o := range opts {
			if c.ts[o.g].name == p.th {
				k = j
			}
		}
		if k < 0 {
			if c.pos < len(c.plan) || p.node != nil {
				c.fail("the predicted goroutine is not enabled")
			}
			// it was blocked by the values it read: now known
			k = 0
		}
	} else {
		c.pos = len(c.plan) + 1
	}
	if len(opts) > 1 {
		in.nondet = append(in.nondet, Nondet{Kind: "sched", val: uint64(k)})
	}
	c.startBlock(c.ts[opts[k].g], opts[k].reads, opts[k].seen)
	return opts[k].g
}

// finish closes the last block of an execution.
func (c *closure) finish(end pathEnd) {
	if c.blk == nil {
		return
	}
	if end.kind == endInconclusive {
		c.blk = nil
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(pathEnd); ok && p.kind == endInconclusive {
				c.in.local.Inconclusive[p.msg]++
				return
			}
			panic(r)
		}
	}()
	b := c.blk
	c.endBlock(true)
	c.ownNode[b].final = true
}

// next finds the next execution; it reports false when the trees are closed.
func (c *closure) next() bool {
	in := c.in
	for {
		if len(c.queue) > 0 && in.w.sh.done() {
			return false
		}
		if len(c.queue) > 0 {
			c.plan = c.queue[0]
			c.queue = c.queue[1:]
			return true
		}
		if in.w.sh.done() {
			return false
		}
		if c.done {
			// random interleavings must not leave the trees
			if c.size != c.last {
				in.local.Inconclusive["interleaving closure: a random interleaving leaves it"]++
				return false
			}
			if c.walks >= in.w.sh.cfg.Walks {
				return false
			}
			c.plan = nil
			c.rng = rand.New(rand.NewSource(int64(in.w.sh.cfg.Seed)*1000003 + int64(c.walks)))
			c.walks++
			in.local.ClosureWalks++
			return true
		}
		if c.open && c.size == c.last {
			in.local.Inconclusive["interleaving closure: predicted interleavings lead nowhere new"]++
			return false
		}
		c.last = c.size
		t0 := time.Now()
		ok := c.round()
		c.open = true
		in.local.ClosureTime += time.Since(t0)
		if !ok {
			c.done = true
			if c.dl || c.gaveUp {
				return false
			}
			in.local.Closures++
			in.local.ClosureNodes += len(c.nodes)
			in.local.ClosureMax = max(in.local.ClosureMax, len(c.nodes))
			c.last = c.size
		}
	}
}

// ---- queries

type target struct {
	p      *cnode // the goroutine is after this node
	prefix []cread
	cell   string
	val    string
	choice bool
	free   bool // p has never been continued
}

func (c *closure) initial(cell string) (string, bool) {
	if v, ok := c.initVal[cell]; ok {
		return v, true
	}
	o, ok := c.objs[cell]
	if !ok {
		return "", false
	}
	// names of concurrently allocated objects play no role at the snapshot
	c.names = map[any]string{}
	v := c.content(o)
	c.initVal[cell] = v
	return v, true
}

func conflict(a, b *cnode) bool {
	// walk up to the lowest common ancestor
	var ca, cb *cnode
	for a.depth > b.depth {
		ca, a = a, a.parent
	}
	for b.depth > a.depth {
		cb, b = b, b.parent
	}
	for a != b {
		ca, a = a, a.parent
		cb, b = b, b.parent
	}
	return ca != nil && cb != nil && !ca.root && !cb.root
}

func ancestor(a, b *cnode) bool { // a is an ancestor of b or b itself
	for b.depth > a.depth {
		b = b.parent
	}
	return a == b
}

func mainExit(n *cnode) bool { return n.final }

// round asks the solver for interleavings that leave the trees. It reports
// false when there are none.
func (c *closure) round() bool {
	in := c.in
	c.rounds++
	c.names = map[any]string{}
	// cells with a writer in one goroutine and an access in another
	type acc struct {
		th  string
		wr  bool
		two bool
	}
	accs := map[string]*acc{}
	access := func(cell, th string, wr bool) {
		a := accs[cell]
		if a == nil {
			a = &acc{th: th}
			accs[cell] = a
		}
		if a.th != th {
			a.two = true
		}
		if wr {
			a.wr = true
		}
	}
	for _, n := range c.nodes {
		for _, r := range n.reads {
			if r.dom == 0 {
				access(r.cell, n.th, false)
			}
		}
		for k := range n.writes {
			access(k, n.th, true)
		}
	}
	rel := func(cell string) bool { a := accs[cell]; return a != nil && a.wr && a.two }
	// representatives: blocks without effect on shared cells merge with their
	// predecessor
	writers := map[string][]*cnode{}
	for _, n := range c.nodes {
		n.rep = n
		if n.blocked {
			continue
		}
		r := n.root || n.exit || n.parent == nil
		for _, x := range n.reads {
			if x.dom > 0 || rel(x.cell) {
				r = true
			}
		}
		for k := range n.writes {
			if rel(k) {
				r = true
				writers[k] = append(writers[k], n)
			}
		}
		if !r {
			n.rep = n.parent.rep
		}
	}
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	id := func(n *cnode) string { return strconv.Itoa(n.rep.id) }
	inV := func(n *cnode) string { return "i" + id(n) }
	oV := func(n *cnode) string { return "o" + id(n) }
	nReps := 0
	for _, n := range c.nodes {
		if n.blocked || n.rep != n {
			continue
		}
		nReps++
		fmt.Fprintf(&sb, "(declare-const i%d Bool)(declare-const o%d Int)\n", n.id, n.id)
	}
	sig := 0
	// reading is the condition that cell has the value val at time at, seen
	// from a place after node n (nil: no program order)
	reading := func(n *cnode, at, cell, val string) string {
		var last *cnode // closest writer before n in program order
		if n != nil {
			for a := n; a != nil; a = a.parent {
				if a.rep != a && a.rep != nil {
					// merged blocks write nothing shared
				}
				if _, ok := a.writes[cell]; ok && !a.blocked {
					last = a
					break
				}
			}
		}
		s := "s" + strconv.Itoa(sig)
		sig++
		fmt.Fprintf(&sb, "(declare-const %s Int)\n", s)
		var src, blk []string
		for _, w := range writers[cell] {
			if n != nil {
				if w != n && ancestor(n, w) && !spawnPath(n, w) {
					continue
				}
				if conflict(w, n) {
					continue
				}
				if last != nil && w != last && ancestor(w, last) {
					continue
				}
			}
			if w.writes[cell] == val {
				if w == last {
					src = append(src, fmt.Sprintf("(= %s %s)", s, oV(w)))
				} else {
					src = append(src, fmt.Sprintf("(and %s (< %s %s) (= %s %s))", inV(w), oV(w), at, s, oV(w)))
				}
			} else if w == last {
				blk = append(blk, fmt.Sprintf("(< %s %s)", oV(w), s))
			} else {
				blk = append(blk, fmt.Sprintf("(or (not %s) (< %s %s) (< %s %s))", inV(w), oV(w), s, at, oV(w)))
			}
		}
		if last == nil {
			if iv, ok := c.initial(cell); ok && iv == val {
				src = append(src, fmt.Sprintf("(= %s (- 1))", s))
			}
		}
		if len(src) == 0 {
			return "false"
		}
		return "(and (or " + strings.Join(src, " ") + ") " + strings.Join(blk, " ") + " true)"
	}
	for _, n := range c.nodes {
		if n.blocked || n.rep != n {
			continue
		}
		fmt.Fprintf(&sb, "(assert (<= 0 o%d))\n", n.id)
		if n.parent == nil {
			fmt.Fprintf(&sb, "(assert i%d)\n(assert (= o%d 0))\n", n.id, n.id)
			continue
		}
		p := n.parent
		fmt.Fprintf(&sb, "(assert (=> i%d %s))\n(assert (< %s o%d))\n", n.id, inV(p), oV(p), n.id)
		if n.root {
			fmt.Fprintf(&sb, "(assert (=> %s i%d))\n", inV(p), n.id)
		}
		for _, r := range n.reads {
			if r.dom == 0 && rel(r.cell) {
				cond := reading(n.parent, "o"+strconv.Itoa(n.id), r.cell, r.val)
				fmt.Fprintf(&sb, "(assert (=> i%d %s))\n", n.id, cond)
			}
		}
	}
	// one continuation per goroutine
	next := map[*cnode][]*cnode{} // rep -> reps of continuing blocks
	for _, n := range c.nodes {
		if n.blocked || n.rep != n || n.root || n.parent == nil {
			continue
		}
		next[n.parent.rep] = append(next[n.parent.rep], n)
	}
	for _, ks := range sortedKids(next) {
		for i := range ks {
			for j := 0; j < i; j++ {
				fmt.Fprintf(&sb, "(assert (not (and i%d i%d)))\n", ks[i].id, ks[j].id)
			}
		}
	}
	sb.WriteString("(declare-const T Int)\n")
	for _, n := range c.nodes {
		if n.blocked || n.rep != n {
			continue
		}
		fmt.Fprintf(&sb, "(assert (=> i%d (< o%d T)))\n", n.id, n.id)
		if mainExit(n) {
			fmt.Fprintf(&sb, "(assert (not i%d))\n", n.id)
		}
	}
	// targets
	var ts []target
	vals := map[string]map[string]bool{} // values a cell can have
	for cell, ws := range writers {
		m := map[string]bool{}
		for _, w := range ws {
			m[w.writes[cell]] = true
		}
		if v, ok := c.initial(cell); ok {
			m[v] = true
		}
		vals[cell] = m
	}
	for _, p := range c.nodes {
		if p.blocked || p.exit {
			continue
		}
		if p.dec == nil {
			ts = append(ts, target{p: p, free: true})
			continue
		}
		var walk func(d *cdec, prefix []cread)
		walk = func(d *cdec, prefix []cread) {
			if d.kids == nil {
				return
			}
			var keys []string
			for k := range d.kids {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			if d.dom > 0 {
				for k := 0; k < d.dom; k++ {
					v := strconv.Itoa(k)
					if d.kids[v] == nil {
						ts = append(ts, target{p: p, prefix: prefix, cell: d.cell, val: v, choice: true})
					}
				}
			} else if rel(d.cell) {
				var vs []string
				for v := range vals[d.cell] {
					if d.kids[v] == nil {
						vs = append(vs, v)
					}
				}
				sort.Strings(vs)
				for _, v := range vs {
					ts = append(ts, target{p: p, prefix: prefix, cell: d.cell, val: v})
				}
			}
			for _, k := range keys {
				walk(d.kids[k], append(prefix[:len(prefix):len(prefix)], cread{d.cell, k, d.dom}))
			}
		}
		walk(p.dec, nil)
	}
	// the goroutine stands at p: p is in and nothing after it
	at := func(p *cnode) string {
		s := "(and " + inV(p)
		for _, k := range next[p.rep] {
			s += fmt.Sprintf(" (not i%d)", k.id)
		}
		return s + ")"
	}
	for i, t := range ts {
		cond := at(t.p)
		for _, r := range t.prefix {
			if r.dom == 0 && rel(r.cell) {
				cond += " " + reading(t.p, "T", r.cell, r.val)
			}
		}
		if !t.choice && !t.free {
			cond += " " + reading(t.p, "T", t.cell, t.val)
		}
		fmt.Fprintf(&sb, "(declare-const x%d Bool)\n(assert (=> x%d (and %s)))\n", i, i, cond)
	}
	// deadlock: every goroutine has ended or is at a condition known false
	{
		var conds []string
		for _, p := range c.nodes {
			if p.blocked || p.exit && !mainExit(p) {
				continue
			}
			if p.rep != p && hasNext(p) {
				// the representative stands for the last merged block
			}
			last := p
			if p.rep == p {
				last = lastMerged(p)
			} else {
				continue
			}
			if last.exit {
				continue
			}
			var alts []string
			for _, l := range last.leaves {
				a := "(and true"
				for _, r := range l.reads {
					if r.dom == 0 && rel(r.cell) {
						a += " " + reading(last, "T", r.cell, r.val)
					}
				}
				alts = append(alts, a+")")
			}
			conds = append(conds, fmt.Sprintf("(=> %s (or false %s))", at(p), strings.Join(alts, " ")))
		}
		fmt.Fprintf(&sb, "(declare-const dl Bool)\n(assert (=> dl (and true %s)))\n", strings.Join(conds, " "))
	}
	s := c.solver()
	s.send(sb.String())
	defer func() {
		if in.ordSolver == nil {
			s.stop()
			return
		}
		s.send("(pop 1)\n")
	}()
	check := func(sel string) Verdict {
		c.queries++
		t0 := time.Now()
		limit := time.Duration(in.w.sh.cfg.SolverMs)*time.Millisecond + 10*time.Second
		if b := in.w.sh.cfg.Budget; b > 0 {
			limit = min(limit, max(0, b-time.Since(in.w.sh.start))+5*time.Second)
		}
		pr := s.cmd.Process
		watch := time.AfterFunc(limit, func() { pr.Kill() })
		s.send("(check-sat-assuming (" + sel + "))\n")
		l := s.readLine()
		if !watch.Stop() {
			l = "no answer in time"
			in.ordSolver = nil
		}
		in.local.ClosureSolver += time.Since(t0)
		in.local.ClosureQueries++
		if in.w.sh.cfg.Verbose {
			fmt.Printf("   %s %.2fs\n", l, time.Since(t0).Seconds())
		}
		switch l {
		case "sat":
			c.sat++
			in.local.ClosureSat++
			return Sat
		case "unsat":
			c.unsat++
			in.local.ClosureUnsat++
			return Unsat
		}
		in.local.Inconclusive["interleaving closure: solver: "+l]++
		return Unknown
	}
	// one query asks for any exit; the exits found are excluded and the
	// query is repeated a few times before the plans are executed
	s.send("(declare-const any Bool)\n(assert (=> any (or false")
	for i := range ts {
		s.send(fmt.Sprintf(" x%d", i))
	}
	if !c.dl {
		s.send(" dl")
	}
	s.send(")))\n")
	if in.w.sh.cfg.Verbose {
		fmt.Printf("round %d: %d nodes, %d in the query, %d targets, %d kB, execs %d, solver %v\n", c.rounds, len(c.nodes), nReps, len(ts), sb.Len()/1024, c.execs, in.local.ClosureSolver)
	}
	found := false
	sel := "any"
	for k := 0; k < 12; k++ {
		if in.w.sh.done() {
			return true
		}
		v := check(sel)
		if v == Unknown && !found {
			c.gaveUp = true
		}
		if v != Sat {
			break
		}
		found = true
		m := c.model(s, len(ts))
		n := 0
		for i, t := range ts {
			if m["x"+strconv.Itoa(i)] == "true" {
				if n < 4 {
					c.queue = append(c.queue, c.schedule(m, t))
				}
				n++
				sel += fmt.Sprintf(" (not x%d)", i)
			}
		}
		if m["dl"] == "true" {
			c.queue = append(c.queue, c.schedule(m, target{}))
			c.dl = true
			c.size++
			sel += " (not dl)"
		}
		if n == 0 && m["dl"] != "true" {
			in.local.Inconclusive["interleaving closure: no exit in a model"]++
			break
		}
	}
	return found
}

// spawnPath reports whether w is below n through a goroutine n spawned, so
// that w may precede what n's goroutine does next.
func spawnPath(n, w *cnode) bool {
	for w.depth > n.depth+1 {
		w = w.parent
	}
	return w.root
}

func hasNext(p *cnode) bool {
	for _, k := range p.kids {
		if !k.root {
			return true
		}
	}
	return false
}

// lastMerged is the last block merged into p.
func lastMerged(p *cnode) *cnode {
	for {
		var n *cnode
		for _, k := range p.kids {
			if !k.root && k.rep == p.rep {
				n = k
			}
		}
		if n == nil {
			return p
		}
		p = n
	}
}

func sortedKids(m map[*cnode][]*cnode) [][]*cnode {
	var ks []*cnode
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var out [][]*cnode
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

func (c *closure) solver() *Solver {
	in := c.in
	if in.ordSolver == nil {
		s := &Solver{argv: in.w.sh.cfg.Solver, timeMs: in.w.sh.cfg.SolverMs, logic: "ALL"}
		if l := os.Getenv("ENGINE_CLOSURE_LOGIC"); l != "" {
			s.logic = l
		}
		if l := os.Getenv("ENGINE_CLOSURE_SOLVER"); l != "" {
			s.argv = strings.Fields(l)
		}
		if f := os.Getenv("ENGINE_CLOSURE_LOG"); f != "" {
			s.logf, _ = os.Create(f)
		}
		if err := s.start(); err != nil {
			panic(err)
		}
		in.ordSolver = s
	}
	return in.ordSolver
}

// model reads a satisfying interleaving.
func (c *closure) model(s *Solver, targets int) map[string]string {
	s.send("(get-value (dl ")
	for _, n := range c.nodes {
		if !n.blocked && n.rep == n {
			s.send(fmt.Sprintf("i%d o%d ", n.id, n.id))
		}
	}
	for i := 0; i < targets; i++ {
		s.send(fmt.Sprintf("x%d ", i))
	}
	s.send("))\n")
	return s.readModel()
}

// schedule turns the solver's model into a plan.
func (c *closure) schedule(m map[string]string, t target) []cplan {
	ord := map[*cnode]int{}
	var sel []*cnode
	for _, n := range c.nodes {
		if !n.blocked && n.rep == n && m["i"+strconv.Itoa(n.id)] == "true" {
			v, _ := strconv.Atoi(m["o"+strconv.Itoa(n.id)])
			ord[n] = v
			sel = append(sel, n)
		}
	}
	sort.SliceStable(sel, func(i, j int) bool { return ord[sel[i]] < ord[sel[j]] })
	var plan []cplan
	done := map[*cnode]bool{}
	var emit func(n *cnode)
	emit = func(n *cnode) {
		if n == nil || done[n] {
			return
		}
		done[n] = true
		emit(n.parent)
		if n.root {
			return
		}
		var ch []int
		for _, r := range n.reads {
			if r.dom > 0 {
				k, _ := strconv.Atoi(r.val)
				ch = append(ch, k)
			}
		}
		plan = append(plan, cplan{th: n.th, node: n, choices: ch})
	}
	for _, n := range sel {
		emit(n)
	}
	if t.p != nil {
		emit(t.p)
		var ch []int
		for _, r := range t.prefix {
			if r.dom > 0 {
				k, _ := strconv.Atoi(r.val)
				ch = append(ch, k)
			}
		}
		if t.choice {
			k, _ := strconv.Atoi(t.val)
			ch = append(ch, k)
		}
		plan = append(plan, cplan{th: t.p.th, choices: ch})
	} else {
		for _, n := range sel {
			emit(lastMerged(n))
		}
	}
	return plan
}

func (c *closure) dump() {
	for _, n := range c.nodes {
		par, rep := -1, -1
		if n.parent != nil {
			par = n.parent.id
		}
		if n.rep != nil {
			rep = n.rep.id
		}
		fmt.Printf(" n%d th=%s parent=%d rep=%d root=%v exit=%v final=%v blocked=%v reads=%v writes=%v\n", n.id, n.th, par, rep, n.root, n.exit, n.final, n.blocked, n.reads, n.writes)
	}
}
