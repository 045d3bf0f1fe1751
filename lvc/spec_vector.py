"""C01: Vector"""
import z3
from sym import *
from speclib import *

SRC = "vector.cpp"

def model(mod): return VecModel(mod, type_of(mod, "ty_vec"), "vec")

def done(u, o, owned):
    u.no_leaks(o.st, owned)
def no_throw(u, o):
    if o.kind == "throw":
        u.check(o.st, "no-throw", False, "operation does not throw here"); return False
    return True

def units(mod):
    M = model(mod)
    U = {}
    def unit(f): U[f.__name__[2:]] = f; return f
    def consts(u): u.ex.const_vals = [("default", externs.DFLT)]
    def alias_cases(u, ro=False):
        """(state, vec, abs, ptr to value, value term)"""
        for st, p, a in M.cases(u):
            s = st.fork(); q, t = u.elem(s, ro=not ro); yield s, p, a, q, t, False
            if a.heap is not None:
                s = st.fork(); i = u.ex.fresh_int(s, "k", 0); s.assume(i.z < a.n.z)
                yield s, p, a, PtrVal(a.heap, i * M.stride), a.at(i), i
    @unit
    def u_default(u):
        st = u.state(); p = M.raw(u, st)
        for o in u.run(st, "vec_default", [p]):
            if no_throw(u, o): own = set(); M.expect(u, o.st, p, 0, lambda i: None if False else z3.Const("x", V), "new vector", own); done(u, o, own)
    @unit
    def u_copy(u):
        for st, q, b in M.cases(u, "other", ro=True):
            p = M.raw(u, st)
            for o in u.run(st, "vec_copy", [p, q]):
                if no_throw(u, o):
                    own = set(); M.expect(u, o.st, p, b.n, b.at, "copy", own)
                    if b.heap in own: u.check(o.st, "aliasing", False, "copy shares storage with its source")
                    M.unchanged(u, o.st, q, b, "source of copy", own); done(u, o, own)
    @unit
    def u_move(u):
        for st, q, b in M.cases(u, "other"):
            p = M.raw(u, st)
            for o in u.run(st, "vec_move", [p, q]):
                if no_throw(u, o):
                    own = set(); M.expect(u, o.st, p, b.n, b.at, "moved-to", own)
                    r = M.read(u, o.st, q, "moved-from")
                    if r is not None and r.heap is not None:
                        if r.heap in own: u.check(o.st, "aliasing", False, "moved-from shares storage with moved-to")
                        own.add(r.heap)
                    done(u, o, own)
    @unit
    def u_init_list(u):
        st = u.state(); p = M.raw(u, st); n = u.int(st, "n", 0, BIG); src, arr = u.elems(st, n.lin)
        for o in u.run(st, "vec_il", [p, src, n]):
            if no_throw(u, o): own = set(); M.expect(u, o.st, p, n.lin, lambda i: z3.Select(arr, i), "list-constructed", own); done(u, o, own)
    @unit
    def u_from_array(u):
        st = u.state(); p = M.raw(u, st); src, arr = u.elems(st, Lin({}, 5))
        for o in u.run(st, "vec_from_array", [p, src]):
            if no_throw(u, o): own = set(); M.expect(u, o.st, p, 5, lambda i: z3.Select(arr, i), "from array", own); done(u, o, own)
    @unit
    def u_from_arrvec(u):
        S = InModel(mod, type_of(mod, "ty_a5"), "a5", 5)
        for st, q, b in S.cases(u, "other", ro=True):
            p = M.raw(u, st)
            for o in u.run(st, "vec_from_arrvec", [p, q]):
                if no_throw(u, o): own = set(); M.expect(u, o.st, p, b.n, b.at, "from ArrVec", own); S.unchanged(u, o.st, q, b, "source"); done(u, o, own)
    @unit
    def u_dtor(u):
        for st, p, a in M.cases(u):
            for o in u.run(st, "vec_dtor", [p]):
                if no_throw(u, o): done(u, o, set())
    @unit
    def u_copy_assign(u):
        for st, p, a in M.cases(u, "v"):
            for st2, q, b in M.cases(u, "other", ro=True, st=st):
                for o in u.run(st2, "vec_copy_assign", [p, q]):
                    if no_throw(u, o):
                        own = set(); M.expect(u, o.st, p, b.n, b.at, "assigned", own)
                        if b.heap is not None and b.heap in own: u.check(o.st, "aliasing", False, "copy shares storage with its source")
                        M.unchanged(u, o.st, q, b, "source of assignment", own); done(u, o, own)
                        u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == p.obj, "assignment returns *this")
        for st, p, a in M.cases(u, "v"):
            for o in u.run(st, "vec_copy_assign", [p, p]):
                if no_throw(u, o): own = set(); M.unchanged(u, o.st, p, a, "self-assigned", own); done(u, o, own)
    @unit
    def u_move_assign(u):
        for st, p, a in M.cases(u, "v"):
            for st2, q, b in M.cases(u, "other", st=st):
                for o in u.run(st2, "vec_move_assign", [p, q]):
                    if no_throw(u, o):
                        own = set(); M.expect(u, o.st, p, b.n, b.at, "move-assigned", own)
                        r = M.read(u, o.st, q, "moved-from")
                        if r is not None and r.heap is not None:
                            if r.heap in own: u.check(o.st, "aliasing", False, "moved-from shares storage with moved-to")
                            own.add(r.heap)
                        done(u, o, own)
        for st, p, a in M.cases(u, "v"):
            for o in u.run(st, "vec_move_assign", [p, p]):
                if no_throw(u, o): own = set(); M.unchanged(u, o.st, p, a, "self-move-assigned", own); done(u, o, own)
    @unit
    def u_observers(u):
        for st, p, a in M.cases(u, "v", ro=True):
            for f, want in (("vec_size", a.n), ("vec_length", a.n)):
                for o in u.run(st.fork(), f, [p]):
                    if no_throw(u, o): u.check(o.st, "post", u.ex.ucanon(o.st, o.val).z == want.z, f); done(u, o, {a.heap})
            for o in u.run(st.fork(), "vec_empty", [p]):
                if no_throw(u, o): u.check(o.st, "post", zb(u.ex.boolval(o.st, o.val)) == (a.n.z == 0), "empty() iff size is 0")
            ends = {"vec_data": 0, "vec_data_mut": 0, "vec_begin": 0, "vec_begin_mut": 0, "vec_data_fn": 0, "vec_data_fn_mut": 0, "vec_end": 1, "vec_end_mut": 1}
            for f, e in ends.items():
                for o in u.run(st.fork(), f, [p]):
                    if no_throw(u, o):
                        want = a.n * M.stride if e else Lin({}, 0)
                        u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == a.heap, f + " points into the block")
                        u.check(o.st, "post", o.val.off.z == want.z, f + " offset")
            if a.heap is not None:
                for f in ("vec_index", "vec_index_mut", "vec_nth", "vec_nth_mut"):
                    s = st.fork(); i = u.int(s, "i", 0, BIG); s.assume(i.lin.z < a.n.z)
                    for o in u.run(s, f, [p, i]):
                        if no_throw(u, o):
                            u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == a.heap, f + " denotes an element of the vector")
                            u.check(o.st, "post", o.val.off.z == (i.lin * M.stride).z, f + " denotes element i")
    @unit
    def u_eq(u):
        for st, p, a in M.cases(u, "v", ro=True):
            for st2, q, b in M.cases(u, "other", ro=True, st=st):
                u.ex.hints = [lambda ex, s0, lv: prefix_hints(lv, lambda k: forall(0, k, lambda i: externs.EQ(a.at(i), b.at(i)), lambda i: [a.at(i), b.at(i)]))]
                u.ex.arith_hints = [flag_hints(first_of(st2, zmin(a.n.z, b.n.z), lambda i: externs.EQ(a.at(i), b.at(i))))]
                for o in u.run(st2, "vec_eq", [p, q]):
                    if no_throw(u, o):
                        eq = u.ex.boolval(o.st, o.val)
                        all_eq = forall(0, a.n, lambda i: externs.EQ(a.at(i), b.at(i)))
                        same_n = a.n.z == b.n.z
                        u.check(o.st, "post", z3.Implies(zb(eq), same_n), "== implies equal size")
                        i = fresh("i", IntS)
                        u.check(o.st, "post", z3.Implies(z3.And(zb(eq), i >= 0, i < a.n.z), externs.EQ(a.at(i), b.at(i))), "== implies all elements equal")
                        # contrapositive of: all equal -> ==
                        s = o.st.fork(); s.assume(same_n)
                        s.assume(z3.ForAll([z3.Int("i")], z3.Implies(z3.And(z3.Int("i") >= 0, z3.Int("i") < a.n.z), externs.EQ(a.at(z3.Int("i")), b.at(z3.Int("i")))), patterns=[a.at(z3.Int("i"))]))
                        u.check(s, "post", zb(eq), "equal size and elements implies ==")
    @unit
    def u_resize(u):
        for st, p, a in M.cases(u):
            k = u.int(st, "k", 0, BIG); consts(u)
            for o in u.run(st, "vec_resize", [p, k]):
                if no_throw(u, o):
                    own = set()
                    M.expect(u, o.st, p, k.lin, lambda i: z3.If(i < a.n.z, a.at(i), externs.DFLT), "resized", own); done(u, o, own)
    @unit
    def u_reserve(u):
        for st, p, a in M.cases(u):
            k = u.int(st, "k", 0, BIG)
            for o in u.run(st, "vec_reserve", [p, k]):
                if no_throw(u, o):
                    own = set(); r = M.unchanged(u, o.st, p, a, "reserved", own); done(u, o, own)
                    if r is not None: u.check(o.st, "post", z3.And(r.cap.z >= k.lin.z, r.cap.z >= a.cap.z), "capacity reaches the request")
    @unit
    def u_shrink_to_fit(u):
        for st, p, a in M.cases(u):
            for o in u.run(st, "vec_shrink_to_fit", [p]):
                if no_throw(u, o): own = set(); M.unchanged(u, o.st, p, a, "shrunk", own); done(u, o, own)
    def pushed(a, t): return lambda i: z3.If(i < a.n.z, a.at(i), t)
    @unit
    def u_push_back(u):
        for f in ("vec_push_back", "vec_emplace_back"):
            for st, p, a, q, t, al in alias_cases(u):
                for o in u.run(st, f, [p, q]):
                    if no_throw(u, o): own = set(); M.expect(u, o.st, p, a.n + 1, pushed(a, t), f, own); done(u, o, own)
    @unit
    def u_push_back_move(u):
        for st, p, a, q, t, al in alias_cases(u, ro=True):
            for o in u.run(st, "vec_push_back_move", [p, q]):
                if no_throw(u, o):
                    own = set()
                    if al is False: M.expect(u, o.st, p, a.n + 1, pushed(a, t), "push_back(move)", own); done(u, o, own)
                    else:
                        r = M.read(u, o.st, p, "push_back(move of own element)")
                        if r is None: continue
                        own.add(r.heap)
                        u.check(o.st, "post-size", r.n.z == (a.n + 1).z, "size")
                        u.check(o.st, "post-content", forall(0, a.n + 1, lambda i: z3.Implies(i != al.z, r.at(i) == pushed(a, t)(i))), "contents except the moved-from element")
                        done(u, o, own)
    @unit
    def u_pop_back(u):
        for st, p, a in M.cases(u):
            for o in u.run(st, "vec_pop_back", [p]):
                own = set()
                if o.kind == "throw":
                    u.check(o.st, "throws", a.n.z == 0, "throws only on an empty vector"); M.unchanged(u, o.st, p, a, "after throw", own)
                else:
                    u.check(o.st, "throws", a.n.z > 0, "returns only on a non-empty vector"); M.expect(u, o.st, p, a.n - 1, a.at, "popped", own)
                done(u, o, own)
    @unit
    def u_insert(u):
        for st, p, a, q, t, al in alias_cases(u):
            k = u.int(st, "k", 0)
            for o in u.run(st, "vec_insert", [p, k, q]):
                own = set()
                if o.kind == "throw":
                    u.check(o.st, "throws", k.lin.z > a.n.z, "throws only for an index beyond the end"); M.unchanged(u, o.st, p, a, "after throw", own)
                else:
                    u.check(o.st, "throws", k.lin.z <= a.n.z, "returns only for a valid index")
                    M.expect(u, o.st, p, a.n + 1, lambda i: z3.If(i < k.lin.z, a.at(i), z3.If(i == k.lin.z, t, a.at(i - 1))), "inserted", own)
                done(u, o, own)
    @unit
    def u_erase(u):
        for st, p, a in M.cases(u):
            k = u.int(st, "k", 0)
            for o in u.run(st, "vec_erase", [p, k]):
                own = set()
                if o.kind == "throw":
                    u.check(o.st, "throws", k.lin.z >= a.n.z, "throws only for an invalid index"); M.unchanged(u, o.st, p, a, "after throw", own)
                else:
                    u.check(o.st, "throws", k.lin.z < a.n.z, "returns only for a valid index")
                    M.expect(u, o.st, p, a.n - 1, lambda i: z3.If(i < k.lin.z, a.at(i), a.at(i + 1)), "erased", own)
                done(u, o, own)
    @unit
    def u_clear(u):
        for st, p, a in M.cases(u):
            for o in u.run(st, "vec_clear", [p]):
                if no_throw(u, o): own = set(); M.expect(u, o.st, p, 0, lambda i: a.at(i), "cleared", own); done(u, o, own)
    return U

def prefix_hints(lv, prop):
    out = []
    for q in lv.qs:
        out.append(("prefix(%s)" % q.name, lambda s, q=q: prop(q.get(s)) if q.get(s) is not None else z3.BoolVal(False)))
    return out
