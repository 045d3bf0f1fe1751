"""C15: queues between threads;  C16: the double buffer.

Monitor reasoning.  Taking the lock gives the thread the protected state in an
arbitrary value allowed by the representation invariant (whatever other threads
did); without the lock the protected state may not be touched at all; waiting on
the condition variable gives it up and takes it back.  Each operation's protected
accesses then form one critical section, so under every schedule the operations
happen one after the other, each with the effect its contract states.
The containers inside (Vcq, std::queue) are used through their contracts; Vcq's
are discharged by spec_cyclic (C07)."""
import re
import z3
from sym import *
from speclib import *
from spec_vector import no_throw

SRC = "conc.cpp"

class Mon:
    def __init__(self, mod, P):
        self.mod, self.P = mod, P
        self.ty = type_of(mod, "ty_" + P)
        self.lock = None; self.learning = True
        self.learn()
    # ------------------------------------------------------------ model
    def prep(self, u):
        ex = u.ex; E = ex.externs
        ex.skip_termination = True
        ex.trusted.add("std::mutex / std::atomic_flag give mutual exclusion; condition_variable::wait releases the mutex atomically and may wake spuriously")
        ex.trusted.add("waiting for a lock or for an element is not bounded (no liveness of other threads is claimed)")
        E["@pthread_mutex_lock"] = lambda ex, st, ins, a: self.acquire(ex, st, ins, a[0]) or [(st, IntVal(32, 0))]
        E["@pthread_mutex_unlock"] = lambda ex, st, ins, a: self.release(ex, st, ins, a[0]) or [(st, IntVal(32, 0))]
        E["@pthread_mutex_trylock"] = self.trylock
        E["@sched_yield"] = lambda ex, st, ins, a: [(st, IntVal(32, 0))]
        for n in ("C1", "C2", "D1", "D2"): E["@_ZNSt18condition_variable%sEv" % n] = lambda ex, st, ins, a: [(st, None)]
        for n in ("10notify_oneEv", "10notify_allEv"): E["@_ZNSt18condition_variable" + n] = self.notify
        E["@_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"] = self.wait
        ex.atomics = self.atomic
        ex.contracts = []
        for rx, h in ((r"efp::Vcq<E, \d+ul>::(~?\w+)\((.*)\)( const)?$", "v"), (r"std::queue<E, std::deque<E, std::allocator<E> ?> ?>::(~?\w+)(?:<.*>)?\((.*)\)( const)?$", "s")):
            r = re.compile(r"^(?:[^ ]+ )*?" + rx)
            def match(name, dem, r=r): return r.match(dem) is not None
            def call(ex, st, ins, a, r=r, h=h):
                c = ins.extra["callee"]; m = r.match(ex.short(c.name)); nm, ar = m.group(1), m.group(2)
                f = getattr(self, "q_" + ("ctor" if nm in ("Vcq", "queue") and ar == "" else "dtor" if nm in ("~Vcq", "~queue") else nm), None)
                if f is None or (nm in ("Vcq", "queue") and ar != ""): raise ToolLimit("queue operation %s" % ex.short(c.name)[:80])
                return f(ex, st, ins, a, h == "v", ar)
            ex.contracts.append((match, call))
    def cap(self, ex): return self.capn
    # protected state ------------------------------------------------
    def qkey(self, p): return "%d:%s" % (p.obj, p.off.c)
    def fresh_q(self, ex, st, k, bounded):
        st.ghost["qn " + k] = ex.fresh_int(st, "n_q", 0, self.capn if bounded else BIG)
        st.ghost["qa " + k] = fresh_arr("q", V); st.ghost["qh " + k] = Lin({}, 0)
        st.ghost["$bounded " + k] = bounded
    def q(self, ex, st, p, what, ins, write):
        if p is UNDEF: ex.fail(st, "race", "%s: the buffer's address was not read under the lock" % what, ins); raise PathEnd()
        if p.obj is None or not p.off.is_const(): raise ToolLimit("queue address")
        k = self.qkey(p)
        if "qn " + k not in st.ghost: ex.fail(st, "lifetime", "%s: no live queue there" % what, ins); raise PathEnd()
        if not st.ghost.get("$excl") and not self.learning:
            if not st.ghost.get("$held"): ex.fail(st, "race", "%s: the queue is used without holding its lock" % what, ins)
        n = st.ghost["qn " + k]
        st.assume(z3.And(n.z >= 0, n.z <= (self.capn if st.ghost["$bounded " + k] else BIG)))
        return k, n, st.ghost["qa " + k], st.ghost["qh " + k]
    def op(self, st, *x): st.ghost["$ops"] = st.ghost.get("$ops", ()) + (x,)
    def q_ctor(self, ex, st, ins, a, v, ar):
        p = a[0]; k = self.qkey(p)
        self.made.append((p.obj, p.off.c, v)) if self.learning else None
        st.ghost["qn " + k] = Lin({}, 0); st.ghost["qa " + k] = fresh_arr("q", V); st.ghost["qh " + k] = Lin({}, 0); st.ghost["$bounded " + k] = v
        return [(st, None)]
    def q_dtor(self, ex, st, ins, a, v, ar):
        k = self.q(ex, st, a[0], "destructor", ins, True)[0]
        for x in ("qn ", "qa ", "qh "): del st.ghost[x + k]
        st.ghost["$dtor"] = st.ghost.get("$dtor", ()) + (k,)
        return [(st, None)]
    def q_empty(self, ex, st, ins, a, v, ar):
        k, n, A, h = self.q(ex, st, a[0], "empty", ins, False); return [(st, BoolV(n.z == 0))]
    def q_size(self, ex, st, ins, a, v, ar):
        k, n, A, h = self.q(ex, st, a[0], "size", ins, False); return [(st, IntVal(64, n))]
    def push(self, ex, st, ins, p, src):
        k, n, A, h = self.q(ex, st, p, "push", ins, True)
        x = ex.e_read(st, src, ins, "pushed element"); self.op(st, "push", k, x)
        self.kill_front(st, k)
        full = z3.BoolVal(False)
        if st.ghost["$bounded " + k]:
            full = n.z == self.capn
            if ex.prove(st, z3.Not(full), full=False): full = z3.BoolVal(False)
        st.ghost["qa " + k] = z3.Store(A, h.z + n.z, x)
        if z3.is_false(full): st.ghost["qn " + k] = n + 1; return [(st, None)]
        st.ghost["qn " + k] = Lin.of(Atom.of(z3.If(full, n.z, n.z + 1), 0, self.capn)); st.ghost["qh " + k] = Lin.of(Atom.of(z3.If(full, h.z + 1, h.z), 0))
        return [(st, None)]
    def q_push_back(self, ex, st, ins, a, v, ar):
        r = self.push(ex, st, ins, a[0], a[1])
        if "&&" in ar: ex.e_set(st, a[1], fresh("moved", V), "assign", ins, "move-from")
        return r
    q_push = q_push_back
    def q_emplace(self, ex, st, ins, a, v, ar):
        if len(a) != 2 or not re.match(r"^E( const)?&&?$", ar): raise ToolLimit("emplace arguments")
        r = self.q_push_back(ex, st, ins, a, v, ar)
        return [(s, UNDEF) for s, _ in r] if ins.ty != "void" else r
    def q_pop_front(self, ex, st, ins, a, v, ar):
        k, n, A, h = self.q(ex, st, a[1], "pop_front", ins, True)
        ex.oblige(st, "pre", n.z > 0, "pop_front: the queue is not empty", ins)
        x = fresh("front", V); st.assume(x == z3.Select(A, h.z)); self.op(st, "pop", k, x)
        st.ghost["qn " + k] = n - 1; st.ghost["qh " + k] = h + 1
        ex.e_set(st, a[0], x, "construct", ins); return [(st, None)]
    def kill_front(self, st, k):
        f = st.ghost.get("$front " + k)
        if f is not None and f in st.mem:
            o = st.w(f); o.status = "freed"; o.cells = {}; del st.ghost["$front " + k]
    def q_front(self, ex, st, ins, a, v, ar):
        k, n, A, h = self.q(ex, st, a[0], "front", ins, False)
        ex.oblige(st, "pre", n.z > 0, "front: the queue is not empty", ins)
        if st.ghost.get("$front " + k) is None:
            o = st.new_obj("heap", 8, None, "front element"); x = fresh("front", V); st.assume(x == z3.Select(A, h.z))
            o.cells[0] = (8, EVal(x)); st.ghost["$front " + k] = o.id; st.ghost["$fval " + k] = x
        return [(st, PtrVal(st.ghost["$front " + k], 0))]
    def q_pop(self, ex, st, ins, a, v, ar):
        k, n, A, h = self.q(ex, st, a[0], "pop", ins, True)
        ex.oblige(st, "pre", n.z > 0, "pop: the queue is not empty", ins)
        x = fresh("front", V); st.assume(x == z3.Select(A, h.z)); self.op(st, "pop", k, x); self.kill_front(st, k)
        st.ghost["qn " + k] = n - 1; st.ghost["qh " + k] = h + 1; return [(st, None)]
    # lock -------------------------------------------------------------
    def own(self, st, p): return p.obj == st.ghost.get("$self") and p.off.is_const()
    def acquire(self, ex, st, ins, p):
        if self.learning: self.locks.add((p.obj, p.off.c)); return
        if st.ghost.get("$excl"): return
        if not self.own(st, p) or p.off.c != self.lock:
            ex.fail(st, "race", "a lock is taken that is not the one protecting the queue", ins); return
        if st.ghost.get("$held"): ex.fail(st, "deadlock", "the lock is taken while it is held", ins); raise PathEnd()
        self.idle(ex, st, ins, "before a further critical section")
        st.ghost["$held"] = True; st.ghost["$sections"] = st.ghost.get("$sections", 0) + 1
        self.gain(ex, st)
    def idle(self, ex, st, ins, when):
        ex.oblige(st, "atomic", not st.ghost.get("$ops") and self.same_ptrs(st), "the queue is unchanged %s" % when, ins)
    def gain(self, ex, st):
        me = st.ghost["$self"]; st.ghost["$ops"] = ()
        if self.ptrs is None: self.fresh_q(ex, st, "%d:%d" % (me, self.off), self.bounded)
        else:
            for (c, _), oid in zip(self.ptrs, st.ghost["$bufs"]):
                self.fresh_q(ex, st, "%d:0" % oid, True); st.w(me).cells[c] = (8, PtrVal(oid, 0))
            st.ghost["$start"] = tuple(st.ghost["$bufs"])
            if st.ghost.get("$nonempty"): st.assume(st.ghost["qn " + self.key(st, 0)].z > 0)
    def ptr_now(self, st):
        me = st.ghost["$self"]; out = []
        for c, _ in self.ptrs:
            v = (st.mem[me].cells.get(c) or (0, None))[1]
            out.append(v.obj if isinstance(v, PtrVal) and v.off == Lin({}, 0) else None)
        return tuple(out)
    def same_ptrs(self, st):
        return self.ptrs is None or not st.ghost.get("$sections") or st.ghost.get("$end", self.ptr_now(st)) == st.ghost["$start"]
    def release(self, ex, st, ins, p):
        if self.learning or st.ghost.get("$excl"): return
        if not self.own(st, p) or p.off.c != self.lock: ex.fail(st, "race", "a lock is released that is not the one protecting the queue", ins); return
        if not st.ghost.get("$held"): ex.fail(st, "lock", "the lock is released while it is not held", ins); raise PathEnd()
        st.ghost["$held"] = False
        if self.ptrs is not None:
            now = self.ptr_now(st)
            ex.oblige(st, "wf", set(now) == set(st.ghost["$bufs"]), "the read and the write buffer are two distinct buffers, and the same two", ins)
            st.ghost["$end"] = now
            for c, _ in self.ptrs: st.w(st.ghost["$self"]).cells.pop(c, None)
    def trylock(self, ex, st, ins, a):
        s2 = st.fork(); r = [(s2, IntVal(32, 16))]; self.acquire(ex, st, ins, a[0])
        return [(st, IntVal(32, 0))] + r
    def notify(self, ex, st, ins, a):
        if st.ghost.get("$sections"): st.ghost["$notified"] = True
        return [(st, None)]
    def wait(self, ex, st, ins, a):
        ul = a[1]; m = (st.mem[ul.obj].cells.get(ul.off.c) or (0, None))[1]; owns = (st.mem[ul.obj].cells.get(ul.off.c + 8) or (0, None))[1]
        if not isinstance(m, PtrVal): raise ToolLimit("unique_lock layout")
        if self.learning: return [(st, None)]
        ok = self.own(st, m) and m.off.c == self.lock and bool(st.ghost.get("$held"))
        ex.oblige(st, "pre", ok, "wait: the queue's lock is held", ins)
        self.idle(ex, st, ins, "when waiting"); self.gain(ex, st)
        return [(st, None)]
    def atomic(self, ex, st, kind, p, ins, v):
        if p is UNDEF or p.obj is None or p.obj != (st.ghost.get("$self") if not self.learning else p.obj): return None
        order = (re.search(r"\b(monotonic|unordered|acquire|release|acq_rel|seq_cst)\b", ins.text) or [None, "?"])[1]
        if self.learning:
            if kind == "xchg": self.locks.add((p.obj, p.off.c)); return IntVal(8, 0)
            return True if kind == "store" else IntVal(8, ex.fresh_int(st, "flag", 0, 1))
        if st.ghost.get("$excl"): return None
        if kind == "xchg" and isinstance(v, IntVal) and v.lin == Lin({}, 1):
            s2 = st.fork()                                  # somebody else holds it
            if order not in ("acquire", "acq_rel", "seq_cst"): ex.fail(st, "race", "the lock is taken without acquire ordering", ins)
            self.acquire(ex, st, ins, p)
            return [(st, IntVal(8, 0)), (s2, IntVal(8, 1))]
        if kind == "store" and isinstance(v, IntVal) and v.lin == Lin({}, 0):
            if order not in ("release", "seq_cst"): ex.fail(st, "race", "the lock is released without release ordering", ins)
            self.release(ex, st, ins, p); return True
        if kind == "load": return IntVal(8, ex.fresh_int(st, "flag", 0, 1))
        raise ToolLimit("atomic operation %s" % kind)
    # ------------------------------------------------------------ learning the layout
    def learn(self):
        P, mod = self.P, self.mod
        self.made, self.locks, self.ptrs, self.capn, self.bounded = [], set(), None, 5, False
        u = Unit(mod, "layout"); self.prep(u); st = u.state(); o = u.param(st, self.ty, "self"); st.ghost["$self"] = o.id; st.ghost["$excl"] = True
        outs = [x for x in u.run(st, P + "_ctor", [PtrVal(o.id, 0)]) if x.kind != "throw"]
        if len(outs) != 1: raise ToolLimit("constructor branches")
        s = outs[0].st; del s.ghost["$excl"]
        mine = [m for m in self.made if m[0] == o.id]; heap = [m for m in self.made if m[0] != o.id]
        if len(mine) == 1 and not heap: self.off, self.bounded = mine[0][1], mine[0][2]
        elif len(heap) == 2 and not mine and all(m[1] == 0 for m in heap):
            cells = {v.obj: c for c, (sz, v) in s.mem[o.id].cells.items() if isinstance(v, PtrVal)}
            if set(cells) != set(m[0] for m in heap): raise ToolLimit("buffers are not two pointer fields")
            self.bounded = True
        else: raise ToolLimit("representation of " + P)
        self.locks = set()
        u2 = Unit(mod, "layout"); self.prep(u2); t = s.fork(); x, _ = u2.elem(t)
        for y in u2.run(t, P + "_enq", [PtrVal(o.id, 0), x]):
            pushed = [w[1] for w in y.st.ghost.get("$ops", ()) if w[0] == "push"]
        offs = set(l[1] for l in self.locks if l[0] == o.id)
        if len(offs) == 1: self.lock = offs.pop()
        if heap:
            wr = [m[0] for m in heap if "%d:0" % m[0] in pushed]
            if len(wr) != 1: raise ToolLimit("write buffer")
            rd = [m[0] for m in heap if m[0] != wr[0]][0]
            self.ptrs = [(cells[rd], "read"), (cells[wr[0]], "write")]
        self.learning = False
    def setcap(self, n): self.capn = n
    # ------------------------------------------------------------ units
    def start(self, u, excl=False):
        self.prep(u); st = u.state(); o = u.param(st, self.ty, "self"); st.ghost["$self"] = o.id
        if self.ptrs is not None:
            st.ghost["$bufs"] = tuple(st.new_obj("heap", self.bufsize, None, n + " buffer", "new").id for _, n in self.ptrs)
        if excl: st.ghost["$excl"] = True; self.gain(u.ex, st)
        elif self.ptrs is None: self.fresh_q(u.ex, st, "%d:%d" % (o.id, self.off), self.bounded)
        if self.lock is None and not excl:
            u.cases += 1; u.covered += 1; u.check(st, "race", False, "enqueue protects the queue by exactly one lock of the object")
        return st, PtrVal(o.id, 0)
    def done(self, u, o, p, what):
        st = o.st
        u.check(st, "lock", not st.ghost.get("$held"), "%s: the lock is released on every path" % what)
        return no_throw(u, o)
    def key(self, st, i=0):
        return "%d:%d" % (st.ghost["$self"], self.off) if self.ptrs is None else "%d:0" % st.ghost["$bufs"][i]
    def effect(self, u, st, want, what, swapped=False):
        """the operation's last critical section does exactly this"""
        ops = st.ghost.get("$ops", ())
        u.check(st, "atomic", st.ghost.get("$sections", 0) >= 1, "%s: happens in a critical section" % what)
        ok = u.check(st, "post", [(x[0], x[1]) for x in ops] == [(x[0], x[1]) for x in want], "%s: the effect on the queue is %s" % (what, ", ".join(x[0] for x in want) or "nothing"))
        if ok:
            for x, y in zip(ops, want):
                if y[2] is not None: u.check(st, "post", x[2] == y[2], "%s: the element" % what)
        if self.ptrs is not None:
            s = st.ghost.get("$start"); e = st.ghost.get("$end")
            u.check(st, "post", s is not None and e == ((s[1], s[0]) if swapped else s), "%s: the buffers are %s" % (what, "exchanged" if swapped else "not exchanged"))
        return ops if ok else None

def units(mod):
    U = {}
    capn = None
    def shape(fname, arg):
        u = Unit(mod, "shape"); st = u.state(); p = PtrVal(u.param(st, type_of(mod, "ty_M"), "m").id, 0)
        outs = u.run(st, fname, [p] + ([u.elem(st)[0]] if arg else []))
        return {off: (sz, "value" if isinstance(v, EVal) else v.lin.c) for off, (sz, v) in outs[0].st.mem[p.obj].cells.items() if isinstance(v, EVal) or (isinstance(v, IntVal) and v.lin.is_const())}
    S = {0: shape("m_none", False), 1: shape("m_mkc", True)}
    def maybe_of(u, st, p):
        o = st.mem[p.obj]
        for k in (0, 1):
            if all((off in o.cells) and (isinstance(o.cells[off][1], EVal) if v == "value" else isinstance(o.cells[off][1], IntVal) and o.cells[off][1].lin == Lin.of(v)) for off, (sz, v) in S[k].items()) and sum(isinstance(v, EVal) for sz, v in o.cells.values()) == k:
                return k, next((v.t for sz, v in o.cells.values() if isinstance(v, EVal)), None)
        u.check(st, "wf", False, "the result is nothing or one live value"); return None, None
    cap = [int(m.group(1)) for f in mod.funcs for m in [re.match(r"efp::BlockingQ<E, (\d+)ul>::enqueue", mod.dem(f))] if m and int(m.group(1)) < 1 << 60]
    for P in ("bq", "bd", "nq", "nd", "db"):
        S_ = Mon(mod, P); S_.setcap(cap[0]); S_.bufsize = mod.size(type_of(mod, "ty_vcq"))
        def mk(P, Q):
            def enq(u):
                st, p = Q.start(u); x, t = u.elem(st)
                for o in u.run(st, P + "_enq", [p, x]):
                    if not Q.done(u, o, p, "enqueue"): continue
                    Q.effect(u, o.st, [("push", Q.key(o.st, 1), t)], "enqueue")
                    if P in ("bq", "bd"): u.check(o.st, "post-wakeup", bool(o.st.ghost.get("$notified")), "enqueue: a waiting consumer is woken after the element is in the queue (or while the lock is held)")
            def deq(u):
                st, p = Q.start(u); mb = P[0] == "n"
                q = PtrVal((u.param(st, type_of(mod, "ty_M"), "out") if mb else st.new_obj("param", 8, None, "out")).id, 0)
                if P == "db": st.ghost["$nonempty"] = True; u.ex.trusted.add("precondition of DoubleBuffer::dequeue: the read buffer is not empty (one consumer, which calls empty() first)")
                for o in u.run(st, P + "_deq", [q, p]):
                    if not Q.done(u, o, p, "dequeue"): continue
                    k, v = maybe_of(u, o.st, q) if mb else (1, None)
                    if k is None: continue
                    if not mb:
                        c = o.st.mem[q.obj].cells.get(0); u.check(o.st, "lifetime", c is not None and isinstance(c[1], EVal), "dequeue: gives a value")
                        if c is None or not isinstance(c[1], EVal): continue
                        v = c[1].t
                    if k:
                        Q.effect(u, o.st, [("pop", Q.key(o.st, 0), v)], "dequeue: the value given is the one removed")
                    else:
                        Q.effect(u, o.st, [], "dequeue: nothing")
                        u.check(o.st, "post", o.st.ghost["qn " + Q.key(o.st)].z == 0, "dequeue: nothing only if the queue is empty")
            def empty(u):
                st, p = Q.start(u)
                for o in u.run(st, P + "_empty", [p]):
                    if not Q.done(u, o, p, "is_empty"): continue
                    Q.effect(u, o.st, [], "is_empty")
                    u.check(o.st, "post", zb(u.ex.boolval(o.st, o.val)) == (o.st.ghost["qn " + Q.key(o.st, 0)].z == 0), "is_empty: exactly when the queue is empty")
            def swp(u):
                st, p = Q.start(u)
                for o in u.run(st, P + "_swap", [p]):
                    if Q.done(u, o, p, "swap_buffer"): Q.effect(u, o.st, [], "swap_buffer", swapped=True)
            def ctor(u):
                Q.prep(u); st = u.state(); o_ = u.param(st, Q.ty, "self"); st.ghost["$self"] = o_.id; st.ghost["$excl"] = True
                for o in u.run(st, P + "_ctor", [PtrVal(o_.id, 0)]):
                    if not no_throw(u, o): continue
                    ks = ["%d:%d" % (o_.id, Q.off)] if Q.ptrs is None else ["%s:0" % (v[1].obj if v is not None and isinstance(v[1], PtrVal) else None) for c, _ in Q.ptrs for v in [o.st.mem[o_.id].cells.get(c)]]
                    u.check(o.st, "wf", len(set(ks)) == len(ks) and all("qn " + k in o.st.ghost for k in ks), "constructor: every buffer is a live queue of its own")
                    for k in ks:
                        if "qn " + k in o.st.ghost: u.check(o.st, "post", o.st.ghost["qn " + k].z == 0, "constructor: the queue is empty")
                    if Q.ptrs is not None: u.no_leaks(o.st, {int(k.split(":")[0]) for k in ks})
            def dtor(u):
                st, p = Q.start(u, excl=True); ks = [Q.key(st, i) for i in range(1 if Q.ptrs is None else 2)]
                for o in u.run(st, P + "_dtor", [p]):
                    if not no_throw(u, o): continue
                    u.check(o.st, "lifetime", sorted(o.st.ghost.get("$dtor", ())) == sorted(ks), "destructor: every queue is destroyed exactly once"); u.no_leaks(o.st)
            for f in (enq, deq, ctor, dtor) + ((empty,) if P in ("nq", "nd", "db") else ()) + ((swp,) if P == "db" else ()): U["%s_%s" % (P, f.__name__)] = f
        mk(P, S_)
    return U
