"""C06: Vcb, C07: Vcq.  Representation: a buffer of 2n slots in the object whose
second half mirrors the first; the container starts at the read position."""
import z3
from sym import *
from speclib import *
from spec_vector import no_throw

SRC = "cyclic.cpp"

class Cyc:
    def __init__(self, mod, ty, prefix, n, queue):
        self.mod, self.ty, self.prefix, self.n, self.queue = mod, ty, prefix, n, queue
        self.learn()
    def learn(self):
        mod = self.mod
        u = Unit(mod, "layout"); st = u.state(); o = u.param(st, self.ty, "self")
        outs = u.run(st, self.prefix + "_default", [PtrVal(o.id, 0)])
        if len(outs) != 1: raise ToolLimit("default constructor branches")
        s = outs[0].st
        r = u.run(s.fork(), self.prefix + "_data", [PtrVal(o.id, 0)])
        if len(r) != 1 or not isinstance(r[0].val, PtrVal) or r[0].val.obj != o.id or not r[0].val.off.is_const(): raise ToolLimit("data() of a new buffer")
        self.o_buf = r[0].val.off.c
        # pointer cells: the one data() follows, and the write position
        ptrs = [c for c, (sz, v) in s.mem[o.id].cells.items() if isinstance(v, PtrVal)]
        def follows(c):
            s2 = s.fork(); s2.w(o.id).cells[c] = (8, PtrVal(o.id, self.o_buf + 8))
            r = u.run(s2, self.prefix + "_data", [PtrVal(o.id, 0)])
            return len(r) == 1 and r[0].val.off.is_const() and r[0].val.off.c == self.o_buf + 8
        rd = [c for c in ptrs if follows(c)]
        if len(rd) != 1: raise ToolLimit("read position is not one pointer field")
        self.o_read = rd[0]
        self.o_write = self.o_size = None
        if self.queue:
            ws = [c for c in ptrs if c != self.o_read]
            if len(ws) != 1: raise ToolLimit("write position is not one pointer field")
            self.o_write = ws[0]
            u2 = Unit(mod, "layout"); st2 = u2.state(); o2 = u2.param(st2, self.ty, "self"); o2.tag = "lazy"
            r = u2.run(st2, self.prefix + "_size", [PtrVal(o2.id, 0)])[0]
            for off, (sz, v) in r.st.mem[o2.id].cells.items():
                if isinstance(v, IntVal) and isinstance(r.val, IntVal) and v.lin == r.val.lin: self.o_size = off; break
            else: raise ToolLimit("size() does not return a stored field")
        elif len(ptrs) != 1: raise ToolLimit("representation")
    def idx(self, j, r):
        """logical index of slot j (0 <= j < n) when the read position is r"""
        return z3.If(j >= r, j - r, j - r + self.n)
    def fresh(self, u, st, name="v", ro=False):
        n = self.n; ex = u.ex
        o = u.param(st, self.ty, name)
        d = ex.fresh_int(st, "r_" + name, 0, n - 1)
        arr = fresh_arr("arr_" + name, V)
        i = z3.Int("i")
        if self.queue:
            s = ex.fresh_int(st, "s_" + name, 0, n)
            w = ex.fresh_int(st, "w_" + name, 0, n - 1)
            st.assume(w.z == z3.If(d.z + s.z < n, d.z + s.z, d.z + s.z - n))
            live = fresh_arr("live_" + name, BoolS)
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(live, i) == (self.idx(i, d.z) < s.z)), patterns=[z3.Select(live, i)]))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= n, i < 2 * n), z3.Select(live, i) == (self.idx(i - n, d.z) < s.z)), patterns=[z3.Select(live, i)]))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, self.idx(i, d.z) < s.z), z3.Select(arr, i) == z3.Select(arr, i + n)), patterns=[z3.Select(arr, i)]))
            o = st.w(o.id)
            o.cells[self.o_write] = (8, PtrVal(o.id, w * 8 + self.o_buf)); o.cells[self.o_size] = (8, IntVal(64, s))
        else:
            s = Lin({}, n); live = z3.K(IntS, z3.BoolVal(True))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(arr, i) == z3.Select(arr, i + n)), patterns=[z3.Select(arr, i)]))
        o = st.w(o.id)
        o.cells[self.o_read] = (8, PtrVal(o.id, d * 8 + self.o_buf))
        o.regions.append(Region(self.o_buf, 8, Lin({}, 2 * n), "E", arr, live))
        o.ro = ro
        a = Abs(s, arr, Lin({}, n), d, None, PtrVal(o.id, d * 8 + self.o_buf), 8)
        a.r, a.live = d, live
        return PtrVal(o.id, 0), a
    def raw(self, u, st, name="out"): return PtrVal(u.param(st, self.ty, name).id, 0)
    def region(self, st, p):
        o = st.mem[p.obj]
        for r in o.regions:
            if r.start == self.o_buf and r.stride == 8: return r.arr, r.live
        arr = fresh_arr("none", V); live = z3.K(IntS, z3.BoolVal(False))
        for c, (sz, v) in o.cells.items():
            d = c - self.o_buf
            if 0 <= d < 16 * self.n and d % 8 == 0 and isinstance(v, EVal):
                arr = z3.Store(arr, d // 8, v.t); live = z3.Store(live, d // 8, z3.BoolVal(True))
        return arr, live
    def dead(self, u, st, p, what):
        arr, live = self.region(st, p)
        u.check(st, "wf-live", forall(0, 2 * self.n, lambda i: z3.Not(z3.Select(live, i))), "%s: no element is left alive" % what)
    def pos(self, u, st, p, off, what):
        v = (st.mem[p.obj].cells.get(off) or (0, UNDEF))[1]
        if not isinstance(v, PtrVal) or v.obj != p.obj:
            u.check(st, "wf", False, "%s: position points into its own buffer" % what); return None
        x = v.off - self.o_buf
        if x.divisible(8): return x.div(8)
        return Lin.of(Atom.of(x.z / 8))
    def read(self, u, st, p, what="result", mirror=True):
        n = self.n
        r = self.pos(u, st, p, self.o_read, what)
        if r is None: return None
        u.check(st, "wf", z3.And(r.z >= 0, r.z < n), "%s: read position in the first half" % what, assume=True)
        arr, live = self.region(st, p)
        if self.queue:
            w = self.pos(u, st, p, self.o_write, what)
            sv = (st.mem[p.obj].cells.get(self.o_size) or (0, UNDEF))[1]
            if w is None or sv is UNDEF: u.check(st, "uninit", sv is not UNDEF, "%s: size is initialised" % what); return None
            s = u.ex.ucanon(st, sv)
            u.check(st, "wf", s.z <= n, "%s: size <= capacity" % what)
            u.check(st, "wf", w.z == z3.If(r.z + s.z < n, r.z + s.z, r.z + s.z - n), "%s: write position follows the last element" % what)
            u.check(st, "wf-live", forall(0, n, lambda i: z3.Select(live, i) == (self.idx(i, r.z) < s.z)), "%s: exactly the elements of the queue are alive" % what)
            u.check(st, "wf-live", forall(0, n, lambda i: z3.Select(live, i + n) == (self.idx(i, r.z) < s.z)), "%s: exactly the mirrored elements are alive" % what)
            if mirror: u.check(st, "wf-mirror", forall(0, n, lambda i: z3.Implies(self.idx(i, r.z) < s.z, z3.Select(arr, i) == z3.Select(arr, i + n))), "%s: the halves mirror each other" % what)
        else:
            s = Lin({}, n)
            u.check(st, "wf-live", forall(0, 2 * n, lambda i: z3.Select(live, i)), "%s: every slot holds a live element" % what)
            if mirror: u.check(st, "wf-mirror", forall(0, n, lambda i: z3.Select(arr, i) == z3.Select(arr, i + n)), "%s: the halves mirror each other" % what)
        a = Abs(s, arr, Lin({}, n), r, None, PtrVal(p.obj, r * 8 + self.o_buf), 8); a.r = r
        return a
    def expect(self, u, st, p, n, elem, what="result"):
        a = self.read(u, st, p, what)
        if a is None: return None
        n = Lin.of(n) if not isinstance(n, Lin) else n
        u.check(st, "post-size", a.n.z == n.z, "%s: size" % what)
        u.check(st, "post-content", forall(0, n, lambda i: a.at(i) == elem(i)), "%s: contents" % what)
        return a
    def unchanged(self, u, st, p, a, what): return self.expect(u, st, p, a.n, a.at, what)
    def hints(self, u, *conts):
        """candidate invariants over logical positions of the containers involved"""
        n = self.n
        def h(ex, s0, lv):
            out = []
            i = z3.Int("i")
            for nm, getr, r0 in lv.arrs:
                for q in lv.qs:
                    for ci, (a, arr0) in enumerate(conts):
                        r, s = a.r.z, a.n.z
                        def mk(nm2, f, pat, getr=getr, q=q):
                            for half in (0, n):
                                def at(st, half=half):
                                    g = getr(st); k = q.get(st)
                                    if g is None or k is None: return z3.BoolVal(False)
                                    t = g.live if pat == "live" else g.arr
                                    body = z3.Implies(z3.And(i >= half, i < half + n), f(g, k.z, i, i - half))
                                    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return z3.ForAll([i], body, patterns=[z3.Select(t, i)])
                                    return z3.ForAll([i], body)
                                out.append(("%s(%s,%s,%d,%d)" % (nm2, nm, q.name, ci, half), at))
                        L = self.idx
                        mk("plain", lambda g, k, i, j, arr0=arr0: z3.Implies(j < k, z3.Select(g.arr, i) == z3.Select(arr0, j)), "arr")
                        mk("compact", lambda g, k, i, j, r=r, arr0=arr0: z3.Implies(j < k, z3.Select(g.arr, i) == z3.Select(arr0, r + j)), "arr")
                        mk("packed", lambda g, k, i, j: z3.Select(g.live, i) == (j < k), "live")
                        mk("rest", lambda g, k, i, j, r=r, s=s: z3.Select(g.live, i) == z3.And(L(j, r) >= k, L(j, r) < s), "live")
                        mk("done", lambda g, k, i, j, r=r: z3.Select(g.live, i) == (L(j, r) < k), "live")
                        mk("copied", lambda g, k, i, j, r=r, arr0=arr0: z3.Implies(L(j, r) < k, z3.Select(g.arr, i) == z3.Select(arr0, j)), "arr")
                        mk("kept", lambda g, k, i, j, r=r, s=s, arr0=arr0: z3.Implies(z3.And(L(j, r) >= k, L(j, r) < s), z3.Select(g.arr, i) == z3.Select(arr0, j)), "arr")
            return out
        u.ex.hints = [h]
        def wrap(ex, s0, lv):
            """a physical position that walks along with a logical index"""
            out = []
            for q in lv.qs:
                for q2 in lv.qs:
                    if q is q2: continue
                    for ci, (a, arr0) in enumerate(conts):
                        def at(st, q=q, q2=q2, r=a.r.z):
                            x, k = q.get(st), q2.get(st)
                            if x is None or k is None: return z3.BoolVal(False)
                            return x.z == z3.If(r + k.z < n, r + k.z, r + k.z - n)
                        out.append(("wrap(%s,%s,%d)" % (q.name, q2.name, ci), at))
            return out
        u.ex.arith_hints = [wrap]

def units(mod):
    U = {}
    u0 = Unit(mod, "cap"); st = u0.state()
    n = u0.run(st, "cap_", [])[0].val.lin.c
    def make(M, pre):
        def unit(f): U[pre + f.__name__[1:]] = f; return f
        def leaks(u, o): u.no_leaks(o.st)
        @unit
        def u_default(u):
            st = u.state(); p = M.raw(u, st); u.ex.const_vals = [("default", externs.DFLT)]
            for o in u.run(st, pre + "_default", [p]):
                if no_throw(u, o): M.expect(u, o.st, p, 0 if M.queue else n, lambda i: externs.DFLT, "new buffer"); leaks(u, o)
        @unit
        def u_copy(u):
            st = u.state(); q, b = M.fresh(u, st, "other", ro=True); p = M.raw(u, st); M.hints(u, (b, b.arr))
            for o in u.run(st, pre + "_copy", [p, q]):
                if no_throw(u, o): M.expect(u, o.st, p, b.n, b.at, "copy"); M.unchanged(u, o.st, q, b, "source of copy"); leaks(u, o)
        @unit
        def u_move(u):
            st = u.state(); q, b = M.fresh(u, st, "other"); p = M.raw(u, st); M.hints(u, (b, b.arr))
            for o in u.run(st, pre + "_move", [p, q]):
                if no_throw(u, o): M.expect(u, o.st, p, b.n, b.at, "moved-to"); M.read(u, o.st, q, "moved-from", mirror=False); leaks(u, o)
        @unit
        def u_dtor(u):
            st = u.state(); p, a = M.fresh(u, st); M.hints(u, (a, a.arr))
            for o in u.run(st, pre + "_dtor", [p]):
                if no_throw(u, o): M.dead(u, o.st, p, "destroyed"); leaks(u, o)
        @unit
        def u_copy_assign(u):
            st = u.state(); p, a = M.fresh(u, st, "v"); q, b = M.fresh(u, st, "other", ro=True); M.hints(u, (a, a.arr), (b, b.arr))
            for o in u.run(st, pre + "_copy_assign", [p, q]):
                if no_throw(u, o): M.expect(u, o.st, p, b.n, b.at, "assigned"); M.unchanged(u, o.st, q, b, "source of assignment"); leaks(u, o)
            st = u.state(); p, a = M.fresh(u, st, "v"); M.hints(u, (a, a.arr))
            for o in u.run(st, pre + "_copy_assign", [p, p]):
                if no_throw(u, o): M.unchanged(u, o.st, p, a, "self-assigned"); leaks(u, o)
        @unit
        def u_move_assign(u):
            st = u.state(); p, a = M.fresh(u, st, "v"); q, b = M.fresh(u, st, "other"); M.hints(u, (a, a.arr), (b, b.arr))
            for o in u.run(st, pre + "_move_assign", [p, q]):
                if no_throw(u, o): M.expect(u, o.st, p, b.n, b.at, "move-assigned"); M.read(u, o.st, q, "moved-from", mirror=False); leaks(u, o)
            st = u.state(); p, a = M.fresh(u, st, "v"); M.hints(u, (a, a.arr))
            for o in u.run(st, pre + "_move_assign", [p, p]):
                if no_throw(u, o): M.unchanged(u, o.st, p, a, "self-move-assigned"); leaks(u, o)
        @unit
        def u_push_back(u):
            for alias in (False, True):
                st = u.state(); p, a = M.fresh(u, st, "v")
                if alias: k = u.ex.fresh_int(st, "k", 0, n - 1); st.assume(k.z < a.n.z); q, t = a.ptr(k), a.at(k)
                else: q, t = u.elem(st)
                for o in u.run(st, pre + "_push_back", [p, q]):
                    if not no_throw(u, o): continue
                    if M.queue:
                        s = o.st
                        want_n = Lin.of(Atom.of(z3.If(a.n.z < n, a.n.z + 1, z3.IntVal(n))))
                        def want(i): return z3.If(i == want_n.z - 1, t, z3.If(a.n.z < n, a.at(i), a.at(i + 1)))
                        M.expect(u, s, p, want_n, want, "pushed")
                    else:
                        M.expect(u, o.st, p, n, lambda i: z3.If(i == n - 1, t, a.at(i + 1)), "pushed")
                    leaks(u, o)
        @unit
        def u_observers(u):
            st = u.state(); p, a = M.fresh(u, st, "v", ro=True)
            for f in ("_size", "_length"):
                for o in u.run(st.fork(), pre + f, [p]):
                    if no_throw(u, o): u.check(o.st, "post", u.ex.ucanon(o.st, o.val).z == a.n.z, f)
            for o in u.run(st.fork(), pre + "_empty", [p]):
                if no_throw(u, o): u.check(o.st, "post", zb(u.ex.boolval(o.st, o.val)) == (a.n.z == 0), "empty() iff no element")
            ends = {"_data": 0, "_data_mut": 0, "_begin": 0, "_begin_mut": 0, "_data_fn": 0, "_data_fn_mut": 0, "_end": 1, "_end_mut": 1}
            for f, e in ends.items():
                for o in u.run(st.fork(), pre + f, [p]):
                    if no_throw(u, o):
                        w = a.ptr(a.n if e else Lin({}, 0))
                        u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == w.obj, f + " points into the buffer")
                        u.check(o.st, "post", o.val.off.z == w.off.z, f + " offset")
            for f in ("_index", "_index_mut", "_nth", "_nth_mut"):
                s = st.fork(); i = u.int(s, "i", 0, BIG); s.assume(i.lin.z < a.n.z)
                for o in u.run(s, pre + f, [p, i]):
                    if no_throw(u, o):
                        w = a.ptr(i.lin)
                        u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == w.obj, f + " denotes an element")
                        u.check(o.st, "post", o.val.off.z == w.off.z, f + " denotes element i")
    make(Cyc(mod, type_of(mod, "ty_cb"), "cb", n, False), "cb")
    Q = Cyc(mod, type_of(mod, "ty_cq"), "cq", n, True)
    make(Q, "cq")
    def u_pop_front(u):
        st = u.state(); p, a = Q.fresh(u, st, "v"); st.assume(a.n.z > 0)
        out = st.new_obj("param", 8, None, "out")
        for o in u.run(st, "cq_pop_front", [p, PtrVal(out.id, 0)]):
            if not no_throw(u, o): continue
            v = (o.st.mem[out.id].cells.get(0) or (0, None))[1]
            u.check(o.st, "post", isinstance(v, EVal) and v.t == a.at(Lin({}, 0)), "pop_front returns the oldest element")
            Q.expect(u, o.st, p, a.n - 1, lambda i: a.at(i + 1), "popped"); u.no_leaks(o.st)
    U["cq_pop_front"] = u_pop_front
    return U
