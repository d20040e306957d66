package sym

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	. "verif/vc/smt"
)

// Concurrency by ownership: the threads of a server are its connection loops,
// the handling of each request, and callers of its exported methods. Every
// access to memory that is not private to one of them is recorded with the
// locks held; two accesses that may be concurrent, one of them a write, must
// hold a common lock. Locks are recorded as ghost state "held:<lock>"
// (1 shared, 2 exclusive).

type access struct {
	thread string
	obj    *Obj
	path   []PathEl
	write  bool
	locks  map[string]int64
	fn     string
	what   string
}

type concEnv struct {
	x      *Exec
	thread string
	server map[*Obj]bool // shared by all connections
	conn   map[*Obj]bool // shared by the requests of one connection
	locks  map[string]*Obj
	accs   []access
	seen   map[string]bool
	order  map[[2]string]bool // lock taken while another is held
	taken  map[[2]string]bool // thread and lock it takes
	reads  map[string]bool    // lock of a connection held while its loop waits for input
	table  func(s *State)
}

func pathKey(path []PathEl) string {
	k := ""
	for _, e := range path {
		if e.Idx != nil {
			k += "[]"
		} else {
			k += fmt.Sprintf(".%d", e.Field)
		}
	}
	return k
}

func prefixRelated(a, b []PathEl) bool {
	x, y := pathKey(a), pathKey(b)
	return x == y || strings.HasPrefix(x, y+".") || strings.HasPrefix(x, y+"[") || strings.HasPrefix(y, x+".") || strings.HasPrefix(y, x+"[") || x == "" || y == ""
}

func (s *State) heldLocks() map[string]int64 {
	m := map[string]int64{}
	for g, t := range s.g {
		if strings.HasPrefix(g, "held:") {
			if n, ok := t.Int64(); ok && n > 0 {
				m[g[5:]] = n
			}
		}
	}
	return m
}

func (c *concEnv) shared(o *Obj) bool {
	if c.server[o] || c.conn[o] {
		return true
	}
	for _, g := range c.x.globals {
		if g == o {
			return true
		}
	}
	return false
}

func (c *concEnv) isGlobal(o *Obj) bool {
	for _, g := range c.x.globals {
		if g == o {
			return true
		}
	}
	return false
}

func (c *concEnv) access(s *State, o *Obj, path []PathEl, write bool) {
	if c.x.probe > 0 || c.thread == "" {
		return
	}
	if s.g[givenKey(o)] == True {
		s.oblige("race", False, "memory handed over with a request ("+o.Name+") is left alone afterwards")
		return
	}
	if !c.shared(o) && !(c.thread == "loop" && s.g["iter"] != nil) {
		return
	}
	h := s.heldLocks()
	k := fmt.Sprint(c.thread, o.ID, pathKey(path), write, h)
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	fn := ""
	if len(s.frames) > 0 {
		fn = s.top().fn.Name()
	}
	c.accs = append(c.accs, access{c.thread, o, append([]PathEl{}, path...), write, h, fn, c.where(o, path)})
}

// NoSharing: the function under contract writes to no package-level variable
// (goroutines that call it with values of their own do not meet).
func (x *Exec) NoSharing() {
	x.shareFree(func(o *Obj) bool {
		for _, g := range x.globals {
			if g == o {
				return true
			}
		}
		return false
	})
}

func (x *Exec) shareFree(shared func(o *Obj) bool) {
	seen := map[string]bool{}
	x.hooks.Access = func(s *State, o *Obj, path []PathEl, write bool) {
		if !write || x.probe > 0 {
			return
		}
		sh := shared(o)
		k := fmt.Sprint(sh, o.ID)
		if seen[k] {
			return
		}
		seen[k] = true
		s.oblige("share", BoolT(!sh), "what is written belongs to this call: "+o.Name)
	}
}

func givenKey(o *Obj) string { return fmt.Sprintf("given:%d", o.ID) }

// where names a location.
func (c *concEnv) where(o *Obj, path []PathEl) string {
	n := o.Name
	t := o.Typ
	if t != nil {
		n = types.TypeString(t, func(p *types.Package) string { return p.Name() })
	}
	for _, e := range path {
		if e.Idx != nil {
			n += "[]"
			t = elemOf(t)
			continue
		}
		st, ok := isStruct(t)
		if !ok {
			break
		}
		n += "." + st.Field(e.Field).Name()
		t = st.Field(e.Field).Type()
	}
	return n
}

func (c *concEnv) lockKey(p *Ptr) string {
	k := fmt.Sprintf("%d%s", p.Obj.ID, pathKey(p.Path))
	c.locks[k] = p.Obj
	return k
}

// acquire takes a lock; mode 1 shared, 2 exclusive.
func (c *concEnv) acquire(mode int64) func(s *State, a []Val, cc *ssa.CallCommon) Val {
	return func(s *State, a []Val, cc *ssa.CallCommon) Val {
		p, ok := a[0].(*Ptr)
		if !ok || p.Obj == nil {
			unsup("unknown lock")
		}
		k := c.lockKey(p)
		for h := range s.heldLocks() {
			if h != k {
				c.order[[2]string{h, k}] = true
			}
		}
		s.oblige("progress", BoolT(s.heldLocks()[k] == 0), "no lock is taken that is held already")
		c.taken[[2]string{c.thread, k}] = true
		s.setG("held:"+k, IntT(mode))
		// others may have changed what the lock protects
		if c.table != nil && !c.private(p.Obj) {
			c.table(s)
		}
		return TupleV{}
	}
}

func (c *concEnv) release(mode int64) func(s *State, a []Val, cc *ssa.CallCommon) Val {
	return func(s *State, a []Val, cc *ssa.CallCommon) Val {
		p, ok := a[0].(*Ptr)
		if !ok || p.Obj == nil {
			unsup("unknown lock")
		}
		k := c.lockKey(p)
		s.oblige("progress", BoolT(s.heldLocks()[k] == mode), "only a lock that is held is released")
		s.setG("held:"+k, Zero)
		return TupleV{}
	}
}

func (c *concEnv) private(o *Obj) bool { return !c.shared(o) }

func (c *concEnv) free(s *State, what string) {
	if c.x.probe > 0 {
		return
	}
	s.oblige("progress", BoolT(len(s.heldLocks()) == 0), "no lock is held "+what)
}

// blocking states that what may take arbitrarily long, for a reason of this
// connection's own, is done without a lock that others need.
func (c *concEnv) blocking(s *State, what string, read bool) {
	if c == nil || c.x.probe > 0 || c.thread == "" {
		return
	}
	ok := true
	for l := range s.heldLocks() {
		o := c.locks[l]
		if o != nil && c.conn[o] && !c.server[o] && !c.isGlobal(o) {
			if read {
				c.reads[l] = true
			}
			continue
		}
		if o != nil && c.private(o) {
			continue
		}
		ok = false
	}
	s.oblige("progress", BoolT(ok), "no lock that other connections need is held "+what)
}

// instance: does the lock exclude two threads that may access the location.
func (c *concEnv) covers(lock string, o *Obj) bool {
	if lock == "atomic" {
		return true // both accesses are by sync/atomic
	}
	l := c.locks[lock]
	if l == nil {
		return false
	}
	if c.server[l] || c.isGlobal(l) {
		return true
	}
	return c.conn[l] && c.conn[o]
}

// concurrent: may the two threads run at the same time and reach the same
// instance of the location.
func (c *concEnv) concurrent(a, b access) bool {
	if c.conn[a.obj] {
		// of one connection: its loop and its requests
		in := func(t string) bool { return t == "loop" || t == "request" }
		return in(a.thread) && in(b.thread) && !(a.thread == "loop" && b.thread == "loop")
	}
	return true
}

// report states one obligation per location and pair of threads.
func (c *concEnv) report(s *State) {
	type row struct {
		ok  bool
		msg string
	}
	rows := map[string]*row{}
	for i, a := range c.accs {
		for _, b := range c.accs[i:] {
			if a.obj != b.obj || !c.shared(a.obj) || !a.write && !b.write || !prefixRelated(a.path, b.path) || !c.concurrent(a, b) {
				continue
			}
			ts := []string{a.thread, b.thread}
			sort.Strings(ts)
			k := fmt.Sprintf("%s by %s and %s", a.what, ts[0], ts[1])
			r := rows[k]
			if r == nil {
				r = &row{ok: true, msg: "accesses of " + k + " exclude each other"}
				rows[k] = r
			}
			common := false
			for l, m := range a.locks {
				n := b.locks[l]
				if n == 0 || !c.covers(l, a.obj) {
					continue
				}
				// the writer holds it exclusively
				if (!a.write || m == 2) && (!b.write || n == 2) {
					common = true
				}
			}
			if !common {
				r.ok = false
			}
		}
	}
	var ks []string
	for k := range rows {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s.oblige("race", BoolT(rows[k].ok), rows[k].msg)
	}
	s.oblige("race", True, fmt.Sprintf("%d shared accesses examined", len(c.accs)))
	// waiting for input holds up no reply
	waits := false
	for l := range c.reads {
		for _, t := range []string{"request", "caller"} {
			waits = waits || c.taken[[2]string{t, l}]
		}
	}
	s.oblige("progress", BoolT(!waits), "no lock that requests need is held while the connection waits for input")
	// a cycle in the lock order
	next := map[string][]string{}
	for e := range c.order {
		next[e[0]] = append(next[e[0]], e[1])
	}
	cyc := false
	var visit func(k, from string, depth int)
	visit = func(k, from string, depth int) {
		if depth > 20 {
			return
		}
		for _, n := range next[k] {
			if n == from {
				cyc = true
				return
			}
			visit(n, from, depth+1)
		}
	}
	for k := range next {
		visit(k, k, 0)
	}
	s.oblige("progress", BoolT(!cyc), "locks are always taken in one order")
}

// reachObjs are the objects reachable from a value.
func reachObjs(s *State, v Val, seen map[*Obj]bool) {
	add := func(o *Obj) {
		if o != nil && !seen[o] {
			seen[o] = true
			reachObjs(s, s.mem[o], seen)
		}
	}
	switch c := v.(type) {
	case *Slice:
		if c.Arr != nil {
			add(c.Arr.Obj)
		}
	case *Ptr:
		add(c.Obj)
	case *MapV:
		add(c.Obj)
	case *StructV:
		for _, f := range c.F {
			reachObjs(s, f, seen)
		}
	case *ArrV:
		for _, f := range c.E {
			reachObjs(s, f, seen)
		}
	case *FuncV:
		for _, b := range c.Bind {
			reachObjs(s, b, seen)
		}
	case *Iface:
		if c.Dyn != nil {
			reachObjs(s, c.V, seen)
		}
	case *XS:
		add(c.Src)
	}
}

// VerifyConc: requests never interfere with each other.
func (x *Exec) VerifyConc(path string, leafs *int) {
	x.Case = "any interleaving"
	e := x.newRPC(path)
	c := &concEnv{x: x, locks: map[string]*Obj{}, seen: map[string]bool{}, order: map[[2]string]bool{}, taken: map[[2]string]bool{}, reads: map[string]bool{}, server: map[*Obj]bool{}, conn: map[*Obj]bool{}}
	e.conc = c
	st, p, base := e.server(false)
	for _, o := range st.objs() {
		c.server[o] = true
	}
	tab := e.table(st, p)
	c.table = func(s *State) {
		x.hooks.Access = nil
		s.setMem(tab, &treeMap{base: Fresh("table", "Dyn")})
		x.hooks.Access = c.access
	}
	for n, m := range map[string]int64{"(*sync.Mutex).Lock": 2, "(*sync.RWMutex).Lock": 2, "(*sync.RWMutex).RLock": 1} {
		x.hooks.Extern[n] = c.acquire(m)
	}
	for n, m := range map[string]int64{"(*sync.Mutex).Unlock": 2, "(*sync.RWMutex).Unlock": 2, "(*sync.RWMutex).RUnlock": 1} {
		x.hooks.Extern[n] = c.release(m)
	}
	x.hooks.Access = c.access
	first := st.clone()
	e.start = func() (*State, *Ptr, *Term) { return first.clone(), p, base }
	// the connection loop
	c.thread = "loop"
	sp, _, _ := e.serveLoop(leafs)
	// the handling of each request
	c.thread = "request"
	x.hooks.LoopIter = nil
	x.hooks.Spawn = nil
	e.handling = true
	e.handlerHook(func(s *State) { c.free(s, "while a handler runs") })
	for _, q := range sp {
		s := q.s
		fn, ok := q.fn.(*FuncV)
		if !ok || fn.Fn == nil {
			unsup("request handed to an unknown function")
		}
		e.enterRequest(s)
		s.g["req"] = IntT(int64(q.req.ID))
		s.Enter(fn.Fn, q.args, fn.Bind)
		x.Run(s, func(s *State) {
			*leafs++
			s.oblige("panic", BoolT(s.panics == ""), "the handling of a request does not panic: "+s.panics)
			c.free(s, "when a request is done")
			s.oblige("race", BoolT(len(events(s, 0, "write")) <= 1), "a reply is one write, which no other reply can split")
			s.oblige("race", BoolT(len(events(s, 0, "read")) == 0), "only the connection's loop reads from it")
		})
	}
	// callers of the server's methods
	x.hooks.Call = nil
	c.thread, e.thread = "caller", "request"
	for _, m := range []string{"Server.Register", "Server.RegisterMany"} {
		fn := x.P.FuncNamed(path, m)
		if fn == nil {
			continue
		}
		s := first.clone()
		s.g["inpos"] = Zero
		args := []Val{p}
		for _, q := range fn.Params[1:] {
			args = append(args, e.anyArg(s, q.Type()))
		}
		s.undo = nil
		s.Enter(fn, args, nil)
		x.Run(s, func(s *State) {
			*leafs++
			s.oblige("panic", BoolT(s.panics == ""), m+" does not panic: "+s.panics)
			c.free(s, "when "+m+" returns")
		})
	}
	c.thread = ""
	c.report(first.clone())
	e.poolTypes()
	keep := x.Obls[:0]
	for _, o := range x.Obls {
		switch o.Kind {
		case "race", "progress", "nil", "bounds", "panic":
			keep = append(keep, o)
		}
	}
	x.Obls = keep
}

// anyArg is an arbitrary argument: numbers, functions, lists of registrations.
func (e *rpcEnv) anyArg(s *State, t types.Type) Val {
	x := e.x
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		if _, ok := t.Underlying().(*types.Signature); ok {
			return &FuncV{Nil: Fresh("hnil", SBool), Tag: Fresh("h", "Dyn")}
		}
		return x.freshVal(s, "arg", t)
	}
	st, ok := isStruct(sl.Elem())
	if !ok {
		unsup("argument of type %s", t)
	}
	src := Fresh("list", "Dyn")
	n := Ranged(Fresh("n", SInt), bigZero, MaxSliceLen)
	o := s.newObj("list", backing(sl.Elem()), &FnSeq{func(i *Term) Val {
		r := &StructV{}
		for k := 0; k < st.NumFields(); k++ {
			f := st.Field(k)
			if _, ok := f.Type().Underlying().(*types.Signature); ok {
				r.F = append(r.F, &FuncV{Nil: App("el.nil", SBool, src, i), Tag: App("el."+f.Name(), "Dyn", src, i)})
				continue
			}
			bits, sg, ok := intBounds(f.Type())
			if !ok {
				unsup("field %s of an argument", f.Name())
			}
			r.F = append(r.F, rangedBits(App("el."+f.Name(), SInt, src, i), bits, sg))
		}
		return r
	}}, false)
	o.RO = true
	return &Slice{Nil: And(Fresh("listnil", SBool), Eq(n, Zero)), Arr: &Ptr{Nil: False, Obj: o}, Off: Zero, Len: n, Cap: n}
}
