"""C04: String (Vector<char>) and StringView"""
import z3
from sym import *
from speclib import *

SRC = "string.cpp"
W = {"char": 8, "wchar_t": 32}

class StrModel(VecModel):
    """with storage: size < capacity (room for the terminator), the first size() characters initialised"""
    def install(self, ex, st, oid, off, null, n=None, cap=None, arr=None, name="str", nul_extra=False, ro=False):
        if null: return super().install(ex, st, oid, off, null)
        o = st.w(oid)
        cap = ex.fresh_int(st, "cap_" + name, 1, BIG); n = ex.fresh_int(st, "n_" + name, 0, BIG)
        st.assume(n.z < cap.z)
        h = st.new_obj("heap", cap * self.stride, None, "block of " + name, self.alloc)
        arr = fresh_arr("arr_" + name, engine.kind_sort(self.kind)); live = fresh_arr("live_" + name, BoolS)
        i = z3.Int("i")
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.z), z3.Select(live, i)), patterns=[z3.Select(live, i)]))
        st.assume(z3.ForAll([i], z3.And(z3.Select(arr, i) >= 0, z3.Select(arr, i) < (1 << self.kind[1])), patterns=[z3.Select(arr, i)]))
        h.regions.append(Region(0, self.stride, cap, self.kind, arr, live)); h.ro = ro
        o = st.w(oid)
        o.cells[off + self.o_data] = (8, PtrVal(h.id, 0)); o.cells[off + self.o_size] = (8, IntVal(64, n)); o.cells[off + self.o_cap] = (8, IntVal(64, cap))
        st.conts[(oid, off)] = self
        return Abs(n, arr, cap, 0, h.id, stride=self.stride)
    def read(self, u, st, p, what="result"):
        a = super().read(u, st, p, what)
        if a is not None and a.heap is not None: u.check(st, "wf", a.n.z < a.cap.z, "%s: storage has room for the terminator" % what)
        return a

def units(mod):
    ty = type_of(mod, "ty_str")
    # character width: stride of data + 1
    w = None
    for d in (8, 32):
        if ("@" + "width_%d" % d) in mod.funcs: w = d
    B = w // 8
    M = StrModel(mod, ty, "str", ("int", w), B)
    U = {}
    def unit(f): U[f.__name__[2:]] = f; return f
    def done(u, o, owned): u.no_leaks(o.st, owned)
    def ok(u, o):
        if o.kind == "throw": u.check(o.st, "no-throw", False, "operation does not throw here"); return False
        return True
    def consts(u): u.ex.const_vals = [("zero", z3.IntVal(0))]
    def cstr(u, st, name="s", ro=True):
        """a NUL-terminated string of any length"""
        k = u.ex.fresh_int(st, "len_" + name, 0, BIG)
        o = st.new_obj("param", (k + 1) * B, None, name)
        arr = fresh_arr("arr_" + name, IntS); i = z3.Int("i")
        st.assume(z3.ForAll([i], z3.And(z3.Select(arr, i) >= 0, z3.Select(arr, i) < (1 << w)), patterns=[z3.Select(arr, i)]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k.z), z3.Select(arr, i) != 0), patterns=[z3.Select(arr, i)]))
        st.assume(z3.Select(arr, k.z) == 0)
        o.regions.append(Region(0, B, k + 1, ("int", w), arr, z3.K(IntS, z3.BoolVal(True)))); o.ro = ro
        st.ghost["$nulpos"] = {**st.ghost.get("$nulpos", {}), o.id: [k]}
        return PtrVal(o.id, 0), k, (lambda j: z3.Select(arr, j.z if isinstance(j, Lin) else j))
    def buf(u, st, n, name="src"):
        """n characters, no terminator"""
        p, arr = u.elems(st, n, name, ("int", w), B); i = z3.Int("i")
        st.assume(z3.ForAll([i], z3.And(z3.Select(arr, i) >= 0, z3.Select(arr, i) < (1 << w)), patterns=[z3.Select(arr, i)]))
        return p, (lambda j: z3.Select(arr, j.z if isinstance(j, Lin) else j))
    def cstr_cases(u, st, p, a):
        """argument strings: any other string, and (a tail of) the string's own c_str()"""
        s = st.fork(); q, k, at = cstr(u, s); yield s, q, k, at
        if a.heap is not None:
            s = st.fork(); h = s.mem[a.heap]; r = h.regions[0]
            i = u.ex.fresh_int(s, "from", 0, BIG); k = u.ex.fresh_int(s, "k", 0, BIG)
            s.assume(z3.And(i.z + k.z <= a.n.z, a.at(i + k) == 0, a.at(a.n) == 0, z3.Select(r.live, a.n.z)))
            j = z3.Int("j"); s.assume(z3.ForAll([j], z3.Implies(z3.And(j >= i.z, j < i.z + k.z), a.at(j) != 0), patterns=[a.at(j)]))
            s.ghost["$nulpos"] = {a.heap: [i + k]}
            yield s, PtrVal(a.heap, i * B), k, (lambda j: a.at(i.z + (j.z if isinstance(j, Lin) else j)))
    def newstr(fn):
        def go(u, st, p, args, n, at, what, keep=()):
            for o in u.run(st, fn, [p] + args):
                if ok(u, o):
                    own = set(); M.expect(u, o.st, p, n, at, what, own)
                    for q, b in keep: M.unchanged(u, o.st, q, b, "source", own)
                    done(u, o, own)
        return go
    @unit
    def u_default(u):
        st = u.state(); p = M.raw(u, st); newstr("str_default")(u, st, p, [], 0, lambda i: z3.IntVal(0), "new string")
    @unit
    def u_copy(u):
        for st, q, b in M.cases(u, "other", ro=True):
            p = M.raw(u, st)
            for o in u.run(st, "str_copy", [p, q]):
                if ok(u, o):
                    own = set(); M.expect(u, o.st, p, b.n, b.at, "copy", own)
                    if b.heap in own: u.check(o.st, "aliasing", False, "copy shares storage with its source")
                    M.unchanged(u, o.st, q, b, "source of copy", own); done(u, o, own)
    def moved_from(u, o, q, own):
        r = M.read(u, o.st, q, "moved-from")
        if r is not None and r.heap is not None:
            if r.heap in own: u.check(o.st, "aliasing", False, "moved-from shares storage with moved-to")
            own.add(r.heap)
    @unit
    def u_move(u):
        for st, q, b in M.cases(u, "other"):
            p = M.raw(u, st)
            for o in u.run(st, "str_move", [p, q]):
                if ok(u, o): own = set(); M.expect(u, o.st, p, b.n, b.at, "moved-to", own); moved_from(u, o, q, own); done(u, o, own)
    @unit
    def u_init_list(u):
        st = u.state(); p = M.raw(u, st); n = u.int(st, "n", 0, BIG); q, at = buf(u, st, n.lin)
        newstr("str_il")(u, st, p, [q, n], n.lin, at, "list-constructed")
    @unit
    def u_from_cstr(u):
        st = u.state(); p = M.raw(u, st); q, k, at = cstr(u, st); newstr("str_cstr")(u, st, p, [q], k, at, "from C string")
    @unit
    def u_from_ptr_n(u):
        st = u.state(); p = M.raw(u, st); n = u.int(st, "n", 0, BIG); q, at = buf(u, st, n.lin)
        newstr("str_ptr_n")(u, st, p, [q, n], n.lin, at, "from pointer and count")
    @unit
    def u_fill(u):
        st = u.state(); p = M.raw(u, st); n = u.int(st, "n", 0, BIG); c = u.int(st, "c", 0, (1 << w) - 1, w)
        u.ex.const_vals = [("c", c.lin.z)]
        newstr("str_fill")(u, st, p, [n, c], n.lin, lambda i: c.lin.z, "filled")
    @unit
    def u_range(u):
        st = u.state(); p = M.raw(u, st); n = u.int(st, "n", 0, BIG); q, at = buf(u, st, n.lin)
        newstr("str_range")(u, st, p, [q, PtrVal(q.obj, n.lin * B)], n.lin, at, "from range")
    @unit
    def u_dtor(u):
        for st, p, a in M.cases(u):
            for o in u.run(st, "str_dtor", [p]):
                if ok(u, o): done(u, o, set())
    @unit
    def u_assign_ops(u):
        for st, p, a in M.cases(u, "v"):
            for st2, q, b in M.cases(u, "other", ro=True, st=st):
                for o in u.run(st2, "str_copy_assign", [p, q]):
                    if ok(u, o):
                        own = set(); M.expect(u, o.st, p, b.n, b.at, "assigned", own)
                        if b.heap is not None and b.heap in own: u.check(o.st, "aliasing", False, "copy shares storage with its source")
                        M.unchanged(u, o.st, q, b, "source of assignment", own); done(u, o, own)
            for st2, q, b in M.cases(u, "other", st=st):
                for o in u.run(st2, "str_move_assign", [p, q]):
                    if ok(u, o): own = set(); M.expect(u, o.st, p, b.n, b.at, "move-assigned", own); moved_from(u, o, q, own); done(u, o, own)
        for f in ("str_copy_assign", "str_move_assign"):
            for st, p, a in M.cases(u, "v"):
                for o in u.run(st, f, [p, p]):
                    if ok(u, o): own = set(); M.unchanged(u, o.st, p, a, "self-assigned", own); done(u, o, own)
    @unit
    def u_observers(u):
        for st, p, a in M.cases(u, "v", ro=True):
            for f in ("str_size", "str_length"):
                for o in u.run(st.fork(), f, [p]):
                    if ok(u, o): u.check(o.st, "post", u.ex.ucanon(o.st, o.val).z == a.n.z, f); done(u, o, {a.heap})
            for o in u.run(st.fork(), "str_empty", [p]):
                if ok(u, o): u.check(o.st, "post", zb(u.ex.boolval(o.st, o.val)) == (a.n.z == 0), "empty() iff size is 0")
            for f, e in (("str_data", 0), ("str_begin", 0), ("str_end", 1)):
                for o in u.run(st.fork(), f, [p]):
                    if ok(u, o):
                        u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == a.heap, f + " points into the block")
                        u.check(o.st, "post", o.val.off.z == ((a.n * B).z if e else 0), f + " offset")
            if a.heap is None: continue
            for f in ("str_index", "str_index_mut"):
                s = st.fork(); i = u.int(s, "i", 0, BIG); s.assume(i.lin.z < a.n.z)
                for o in u.run(s, f, [p, i]):
                    if ok(u, o):
                        u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == a.heap, f + " denotes a character of the string")
                        u.check(o.st, "post", o.val.off.z == (i.lin * B).z, f + " denotes character i")
            for f, at in (("str_front", lambda: a.at(0)), ("str_back", lambda: a.at(a.n - 1))):
                s = st.fork(); s.assume(a.n.z > 0)
                for o in u.run(s, f, [p]):
                    if ok(u, o): u.check(o.st, "post", u.ex.ucanon(o.st, o.val).z == at(), f)
    @unit
    def u_at(u):
        for st, p, a in M.cases(u, "v", ro=True):
            i = u.int(st, "i", 0)
            for o in u.run(st, "str_at", [p, i]):
                if o.kind == "throw": u.check(o.st, "throws", i.lin.z >= a.n.z, "throws only out of range")
                else:
                    u.check(o.st, "throws", i.lin.z < a.n.z, "returns only in range")
                    u.check(o.st, "post", u.ex.ucanon(o.st, o.val).z == a.at(i.lin), "at(i) is character i")
    @unit
    def u_c_str(u):
        for st, p, a in M.cases(u, "v"):
            for o in u.run(st, "str_c_str", [p]):
                if not ok(u, o): continue
                own = set(); M.unchanged(u, o.st, p, a, "string after c_str()", own)
                v = o.val; ex = u.ex
                if not (isinstance(v, PtrVal) and v.obj is not None): u.check(o.st, "post", False, "c_str() is not null"); continue
                t = o.st.mem[v.obj]
                if a.heap is None:
                    c = t.cells.get(v.off.c if v.off.is_const() else -1)
                    good = c is not None and isinstance(c[1], IntVal) and c[1].lin.is_const() and c[1].lin.c == 0
                    if not good:
                        fr = ex.find_region(o.st, t, v.off, B, ("int", w))
                        good = fr is not None and ex.prove(o.st, z3.Select(t.regions[fr[0]].arr, fr[1].z) == 0)
                    u.check(o.st, "post", bool(good), "c_str() of a string without storage is an empty C string")
                else:
                    fr = ex.region_for(o.st, v, (a.n + 1) * B)
                    r, b = o.st.mem[v.obj].regions[fr[0]], fr[1]
                    u.check(o.st, "post", z3.And(b.z >= 0, b.z + a.n.z < r.count.z), "c_str() has room for the characters and the terminator")
                    u.check(o.st, "post", forall(0, a.n, lambda i: z3.And(z3.Select(r.arr, b.z + i) == a.at(i), z3.Select(r.live, b.z + i))), "c_str() denotes the characters")
                    u.check(o.st, "post", z3.And(z3.Select(r.arr, b.z + a.n.z) == 0, z3.Select(r.live, b.z + a.n.z)), "c_str() ends with a terminator")
                done(u, o, own)
    def same(u, o, val, an, aat, bn, bat):
        eq = zb(u.ex.boolval(o.st, val)); i = fresh("i", IntS)
        u.check(o.st, "post", z3.Implies(eq, an.z == bn.z), "== implies equal length")
        u.check(o.st, "post", z3.Implies(z3.And(eq, i >= 0, i < an.z), aat(i) == bat(i)), "== implies equal characters")
        s = o.st.fork(); s.assume(an.z == bn.z); j = z3.Int("i")
        s.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < an.z), aat(j) == bat(j)), patterns=[aat(j)]))
        s.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < an.z), aat(j) == bat(j)), patterns=[bat(j)]))
        u.check(s, "post", eq, "equal length and characters implies ==")
    def eqh(u, aat, bat, st=None, n=None):
        u.ex.arith_hints = [flag_hints(first_of(st, n, lambda i: aat(i) == bat(i)))] if st is not None else []
        u.ex.hints = [lambda ex, s0, lv: prefix_hints(lv, lambda k: forall(0, k, lambda i: aat(i) == bat(i), lambda i: [aat(i)]))]
    @unit
    def u_eq(u):
        for st, p, a in M.cases(u, "v", ro=True):
            for st2, q, b in M.cases(u, "other", ro=True, st=st):
                eqh(u, a.at, b.at, st2, zmin(a.n.z, b.n.z))
                for o in u.run(st2, "str_eq", [p, q]):
                    if ok(u, o): same(u, o, o.val, a.n, a.at, b.n, b.at)
    @unit
    def u_eq_cstr(u):
        for st, p, a in M.cases(u, "v", ro=True):
            s = st.fork(); q, k, at = cstr(u, s); eqh(u, a.at, at, s, zmin(a.n.z, k.z))
            for o in u.run(s, "str_eq_cstr", [p, q]):
                if ok(u, o): same(u, o, o.val, a.n, a.at, k, at)
            for o in u.run(st.fork(), "str_eq_cstr", [p, NULL]):
                if ok(u, o): u.check(o.st, "post", z3.Implies(zb(u.ex.boolval(o.st, o.val)), a.n.z == 0), "a null C string equals no non-empty string")
    @unit
    def u_resize(u):
        for st, p, a in M.cases(u):
            k = u.int(st, "k", 0, BIG); consts(u)
            for o in u.run(st, "str_resize", [p, k]):
                if ok(u, o): own = set(); M.expect(u, o.st, p, k.lin, lambda i: z3.If(i < a.n.z, a.at(i), 0), "resized", own); done(u, o, own)
    @unit
    def u_reserve(u):
        for st, p, a in M.cases(u):
            k = u.int(st, "k", 0, BIG)
            for o in u.run(st, "str_reserve", [p, k]):
                if ok(u, o):
                    own = set(); r = M.unchanged(u, o.st, p, a, "reserved", own); done(u, o, own)
                    if r is not None: u.check(o.st, "post", z3.And(r.cap.z >= k.lin.z, r.cap.z >= a.cap.z), "capacity reaches the request")
        for st, p, a in M.cases(u):
            for o in u.run(st, "str_shrink", [p]):
                if ok(u, o): own = set(); M.unchanged(u, o.st, p, a, "shrunk", own); done(u, o, own)
    @unit
    def u_push_back(u):
        for f in ("str_push_back", "str_push_back_move"):
            for st, p, a in M.cases(u):
                s = st.fork(); c = u.int(s, "c", 0, (1 << w) - 1, w); o = s.new_obj("param", B, None, "c"); o.cells[0] = (B, c)
                todo = [(s, PtrVal(o.id, 0), c.lin.z)]
                if a.heap is not None:
                    s = st.fork(); i = u.ex.fresh_int(s, "k", 0); s.assume(i.z < a.n.z); todo.append((s, PtrVal(a.heap, i * B), a.at(i)))
                for s, q, t in todo:
                    for o in u.run(s, f, [p, q]):
                        if ok(u, o): own = set(); M.expect(u, o.st, p, a.n + 1, lambda i: z3.If(i < a.n.z, a.at(i), t), f, own); done(u, o, own)
    @unit
    def u_pop_back(u):
        for st, p, a in M.cases(u):
            for o in u.run(st, "str_pop_back", [p]):
                own = set()
                if o.kind == "throw": u.check(o.st, "throws", a.n.z == 0, "throws only when empty"); M.unchanged(u, o.st, p, a, "after throw", own)
                else: u.check(o.st, "throws", a.n.z > 0, "returns only when not empty"); M.expect(u, o.st, p, a.n - 1, a.at, "popped", own)
                done(u, o, own)
    @unit
    def u_erase(u):
        for st, p, a in M.cases(u):
            k = u.int(st, "k", 0)
            for o in u.run(st, "str_erase", [p, k]):
                own = set()
                if o.kind == "throw": u.check(o.st, "throws", k.lin.z >= a.n.z, "throws only for an invalid index"); M.unchanged(u, o.st, p, a, "after throw", own)
                else:
                    u.check(o.st, "throws", k.lin.z < a.n.z, "returns only for a valid index")
                    M.expect(u, o.st, p, a.n - 1, lambda i: z3.If(i < k.lin.z, a.at(i), a.at(i + 1)), "erased", own)
                done(u, o, own)
        for st, p, a in M.cases(u):
            for o in u.run(st, "str_clear", [p]):
                if ok(u, o): own = set(); M.expect(u, o.st, p, 0, a.at, "cleared", own); done(u, o, own)
    def want(u, f): u.ex.term_funs = [("want", ("int", w), f)]
    def cat(a, at): return lambda i: z3.If(i < a.n.z, a.at(i), at(i - a.n.z))
    def ret(u, o, p): u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == p.obj and o.val.off == p.off, "returns *this")
    @unit
    def u_plus_assign(u):
        for st, p, a in M.cases(u):
            for st2, q, b in M.cases(u, "other", ro=True, st=st):
                want(u, cat(a, b.at))
                for o in u.run(st2, "str_add", [p, q]):
                    if ok(u, o): own = set(); M.expect(u, o.st, p, a.n + b.n, cat(a, b.at), "+=", own); M.unchanged(u, o.st, q, b, "argument", own); ret(u, o, p); done(u, o, own)
            s = st.fork(); want(u, cat(a, a.at))
            for o in u.run(s, "str_add", [p, p]):
                if ok(u, o): own = set(); M.expect(u, o.st, p, a.n + a.n, cat(a, a.at), "s += s", own); done(u, o, own)
    @unit
    def u_append(u):
        for st, p, a in M.cases(u):
            for s, q, k, at in cstr_cases(u, st, p, a):
                want(u, cat(a, at))
                for o in u.run(s, "str_append", [p, q]):
                    if ok(u, o): own = set(); M.expect(u, o.st, p, a.n + k, cat(a, at), "append", own); ret(u, o, p); done(u, o, own)
    @unit
    def u_append_n(u):
        for st, p, a in M.cases(u):
            n = u.int(st, "n", 0, BIG); c = u.int(st, "c", 0, (1 << w) - 1, w)
            want(u, cat(a, lambda i: c.lin.z))
            for o in u.run(st, "str_append_n", [p, n, c]):
                if ok(u, o): own = set(); M.expect(u, o.st, p, a.n + n.lin, cat(a, lambda i: c.lin.z), "append(n, c)", own); ret(u, o, p); done(u, o, own)
    @unit
    def u_assign(u):
        for st, p, a in M.cases(u):
            for s, q, k, at in cstr_cases(u, st, p, a):
                want(u, at)
                for o in u.run(s, "str_assign", [p, q]):
                    if ok(u, o): own = set(); M.expect(u, o.st, p, k, at, "assign", own); ret(u, o, p); done(u, o, own)
    @unit
    def u_assign_n(u):
        for st, p, a in M.cases(u):
            n = u.int(st, "n", 0, BIG); c = u.int(st, "c", 0, (1 << w) - 1, w)
            u.ex.const_vals = [("c", c.lin.z)]
            for o in u.run(st, "str_assign_n", [p, n, c]):
                if ok(u, o): own = set(); M.expect(u, o.st, p, n.lin, lambda i: c.lin.z, "assign(n, c)", own); ret(u, o, p); done(u, o, own)
    def ins_hints(u, a, i, k, at):
        u.ex.term_funs = [("tail", ("int", w), lambda j: a.at(j - k.z)), ("mid", ("int", w), lambda j: at(j - i.lin.z))]
        u.ex.cut_offsets = [k, i.lin]; u.ex.terms = [i.lin, a.n, a.n + k, i.lin + k]
    def inserted(u, o, p, a, i, k, at):
        own = set()
        if o.kind == "throw": u.check(o.st, "throws", i.lin.z > a.n.z, "throws only beyond the end"); M.unchanged(u, o.st, p, a, "after throw", own)
        else:
            u.check(o.st, "throws", i.lin.z <= a.n.z, "returns only for a valid position")
            M.expect(u, o.st, p, a.n + k, lambda j: z3.If(j < i.lin.z, a.at(j), z3.If(j < i.lin.z + k.z, at(j - i.lin.z), a.at(j - k.z))), "inserted", own); ret(u, o, p)
        done(u, o, own)
    @unit
    def u_insert(u):
        for st, p, a in M.cases(u):
            for s, q, k, at in cstr_cases(u, st, p, a):
                i = u.int(s, "i", 0)
                ins_hints(u, a, i, k, at)
                for o in u.run(s, "str_insert", [p, i, q]): inserted(u, o, p, a, i, k, at)
    @unit
    def u_insert_n(u):
        for st, p, a in M.cases(u):
            s = st.fork(); n = u.int(s, "n", 0, BIG); q, at = buf(u, s, n.lin); i = u.int(s, "i", 0)
            ins_hints(u, a, i, n.lin, at)
            for o in u.run(s, "str_insert_n", [p, i, q, n]): inserted(u, o, p, a, i, n.lin, at)
            if a.heap is not None:
                s = st.fork(); n = u.int(s, "n", 0, BIG); f = u.int(s, "from", 0, BIG); s.assume(f.lin.z + n.lin.z <= a.n.z); i = u.int(s, "i", 0)
                ins_hints(u, a, i, n.lin, lambda j: a.at(f.lin.z + j))
                for o in u.run(s, "str_insert_n", [p, i, PtrVal(a.heap, f.lin * B), n]): inserted(u, o, p, a, i, n.lin, lambda j: a.at(f.lin.z + j))
    def clamp(a, i, n): return z3.If(n.z > a.n.z - i.z, a.n.z - i.z, n.z)
    @unit
    def u_substr(u):
        for st, q, a in M.cases(u, "v", ro=True):
            p = M.raw(u, st); i = u.int(st, "i", 0); n = u.int(st, "n", 0); want(u, lambda j: a.at(i.lin.z + j))
            for o in u.run(st, "str_substr", [p, q, i, n]):
                own = {a.heap}
                if o.kind == "throw": u.check(o.st, "throws", i.lin.z > a.n.z, "throws only beyond the end")
                else:
                    u.check(o.st, "throws", i.lin.z <= a.n.z, "returns only for a valid position")
                    r = M.read(u, o.st, p, "substr")
                    if r is None: continue
                    own.add(r.heap)
                    u.check(o.st, "post-size", r.n.z == clamp(a, i.lin, n.lin), "substr length")
                    u.check(o.st, "post-content", forall(0, r.n, lambda j: r.at(j) == a.at(i.lin.z + j)), "substr characters")
                done(u, o, own)
    @unit
    def u_copy_out(u):
        for st, q, a in M.cases(u, "v", ro=True):
            i = u.int(st, "i", 0); n = u.int(st, "n", 0); want(u, lambda j: a.at(i.lin.z + j))
            m = u.ex.fresh_int(st, "room", 0, BIG); d = st.new_obj("param", m * B, None, "dest")
            arr0 = fresh_arr("dest", IntS); d.regions.append(Region(0, B, m, ("int", w), arr0, z3.K(IntS, z3.BoolVal(True))))
            st.assume(z3.Implies(i.lin.z <= a.n.z, m.z >= clamp(a, i.lin, n.lin)))
            for o in u.run(st, "str_copy_out", [q, PtrVal(d.id, 0), n, i]):
                r = o.st.mem[d.id].regions[0]
                if o.kind == "throw": u.check(o.st, "throws", i.lin.z > a.n.z, "throws only beyond the end"); cnt = z3.IntVal(0)
                else:
                    u.check(o.st, "throws", i.lin.z <= a.n.z, "returns only for a valid position")
                    cnt = u.ex.ucanon(o.st, o.val).z
                    u.check(o.st, "post", cnt == clamp(a, i.lin, n.lin), "number of characters copied")
                    u.check(o.st, "post-content", forall(0, cnt, lambda j: z3.Select(r.arr, j) == a.at(i.lin.z + j)), "characters copied")
                u.check(o.st, "frame", forall(cnt, m, lambda j: z3.Select(r.arr, j) == z3.Select(arr0, j)), "nothing beyond the copied characters is written")
    def sg(t): return t if w == 8 else z3.If(t >= 1 << 31, t - (1 << 32), t)
    def order(u, o, an, aat, bn, bat):
        """the result has the sign of the lexicographic order: any witness of another order is contradictory"""
        r = u.ex.scanon(o.st, o.val).z
        an = an.z if isinstance(an, Lin) else an
        def wit(s, rel):
            k = u.ex.fresh_int(s, "wit", 0, BIG).z; j = z3.Int("j"); b = bn.z
            for P in (aat, bat): s.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), aat(j) == bat(j)), patterns=[P(j)]))
            s.assume(z3.And(k <= an, k <= b))
            both = z3.And(k < an, k < b)
            if rel == "lt": s.assume(z3.Or(z3.And(k == an, an < b), z3.And(both, sg(aat(k)) < sg(bat(k)))))
            elif rel == "gt": s.assume(z3.Or(z3.And(k == b, an > b), z3.And(both, sg(aat(k)) > sg(bat(k)))))
            else: s.assume(z3.And(k == an, an == b))
        for rel, sgn in (("lt", r < 0), ("gt", r > 0), ("eq", r == 0)):
            s = o.st.fork(); wit(s, rel)
            u.check(s, "post", sgn, "compare: sign for %s" % {"lt": "a smaller string", "gt": "a greater string", "eq": "equal strings"}[rel])
    @unit
    def u_compare(u):
        for st, p, a in M.cases(u, "v", ro=True):
            for st2, q, b in M.cases(u, "other", ro=True, st=st):
                eqh(u, a.at, b.at, st2, zmin(a.n.z, b.n.z))
                for o in u.run(st2, "str_compare", [p, q]):
                    if ok(u, o): order(u, o, a.n, a.at, b.n, b.at)
    @unit
    def u_compare_sub(u):
        for st, p, a in M.cases(u, "v", ro=True):
            for st2, q, b in M.cases(u, "other", ro=True, st=st):
                i = u.int(st2, "i", 0); n = u.int(st2, "n", 0)
                at = lambda j: a.at(i.lin.z + j)
                eqh(u, at, b.at)
                for o in u.run(st2, "str_compare_sub", [p, i, n, q]):
                    if o.kind == "throw": u.check(o.st, "throws", i.lin.z > a.n.z, "throws only beyond the end"); continue
                    u.check(o.st, "throws", i.lin.z <= a.n.z, "returns only for a valid position")
                    order(u, o, clamp(a, i.lin, n.lin), at, b.n, b.at)
    # ---- views
    VT = type_of(mod, "ty_view")
    class ViewModel(VecModel):
        def learn(self):
            self.prefix = "view"
            o = lambda fn: fn
            super().learn()
    def view_read(u, o, p, n, obj, off, what):
        for f, chk in (("view_size", lambda v, s: u.ex.ucanon(s, v).z == n.z), ("view_data", None)):
            for r in u.run(o.st.fork(), f, [p]):
                if not ok(u, r): continue
                if chk: u.check(r.st, "post", chk(r.val, r.st), what + ": size")
                else:
                    u.check(r.st, "post", isinstance(r.val, PtrVal) and r.val.obj == obj, what + ": denotes the source's own characters")
                    if obj is not None: u.check(r.st, "post", r.val.off.z == off.z, what + ": starts at the source's first character")
    @unit
    def u_views(u):
        for st, q, a in M.cases(u, "v", ro=True):
            for f in ("str_view", "str_view2"):
                s = st.fork(); p = PtrVal(u.param(s, VT, "view").id, 0)
                for o in u.run(s, f, [p, q]):
                    if ok(u, o): view_read(u, o, p, a.n, a.heap, Lin({}, 0), f)
        st = u.state(); q, k, at = cstr(u, st); p = PtrVal(u.param(st, VT, "view").id, 0)
        for o in u.run(st, "view_cstr", [p, q]):
            if ok(u, o): view_read(u, o, p, k, q.obj, Lin({}, 0), "view of a C string")
    @unit
    def u_view_eq_cstr(u):
        # views of any string, obtained through the real constructor
        for st, q, a in M.cases(u, "v", ro=True):
            p = PtrVal(u.param(st, VT, "view").id, 0)
            for o in u.run(st, "str_view2", [p, q]):
                if not ok(u, o): continue
                s = o.st.fork(); c, k, at = cstr(u, s); eqh(u, a.at, at, s, zmin(a.n.z, k.z))
                for r in u.run(s, "view_eq_cstr", [p, c]):
                    if ok(u, r): same(u, r, r.val, a.n, a.at, k, at)
                for r in u.run(o.st.fork(), "view_eq_cstr", [p, NULL]):
                    if ok(u, r): u.check(r.st, "post", z3.Implies(zb(u.ex.boolval(r.st, r.val)), a.n.z == 0), "a null C string equals no non-empty view")
                for r in u.run(o.st.fork(), "view_c_str", [p]):
                    if ok(u, r): u.check(r.st, "post", isinstance(r.val, PtrVal) and r.val.obj == a.heap and (a.heap is None or r.val.off == Lin({}, 0)), "view.c_str() denotes the source's characters")
    return U

from spec_vector import prefix_hints
SLOW = ["append", "plus_assign", "insert", "insert_n", "assign", "append_n"]
