"""C02: ArrVec, C03: Array (elements inside the object)"""
import os, re
import z3
from sym import *
from speclib import *
from spec_vector import no_throw, prefix_hints

SRC = "arrvec.cpp"
def cap_of(mod):
    """the template capacity of this instantiation, from its observer"""
    u = Unit(mod, "cap"); st = u.state(); o = u.param(st, type_of(mod, "ty_ar"), "self"); o.tag = "lazy"
    outs = u.run(st, "ar_capacity", [PtrVal(o.id, 0)])
    v = outs[0].val
    return v.lin.c

def units(mod):
    # the storage really holds this many elements
    cap = mod.size(type_of(mod, "ty_ar")) // 8
    A = InModel(mod, type_of(mod, "ty_av"), "av", cap)
    S = InModel(mod, type_of(mod, "ty_as"), "as", cap - 2)
    R = InModel(mod, type_of(mod, "ty_ar"), "ar", cap, sized=False)
    U = {}
    def leaks(u, o): u.no_leaks(o.st)
    def common(M, pre):
        def unit(f): U[pre + f.__name__[1:]] = f; return f
        @unit
        def u_copy(u):
            for st, q, b in M.cases(u, "other", ro=True):
                p = M.raw(u, st)
                for o in u.run(st, pre + "_copy", [p, q]):
                    if no_throw(u, o): M.expect(u, o.st, p, b.n, b.at, "copy"); M.unchanged(u, o.st, q, b, "source of copy"); leaks(u, o)
        @unit
        def u_move(u):
            for st, q, b in M.cases(u, "other"):
                p = M.raw(u, st)
                for o in u.run(st, pre + "_move", [p, q]):
                    if no_throw(u, o): M.expect(u, o.st, p, b.n, b.at, "moved-to"); M.read(u, o.st, q, "moved-from"); leaks(u, o)
        @unit
        def u_init_list(u):
            st = u.state(); p = M.raw(u, st); n = u.int(st, "n", 0, BIG); src, arr = u.elems(st, n.lin)
            for o in u.run(st, pre + "_il", [p, src, n]):
                fits = n.lin.z <= cap if M.sized else n.lin.z == cap
                if o.kind == "throw": u.check(o.st, "throws", z3.Not(fits), "throws only for a list that does not fit"); M.dead(u, o.st, p, "refused construction")
                else: u.check(o.st, "throws", fits, "a list that does not fit is refused"); M.expect(u, o.st, p, n.lin, lambda i: z3.Select(arr, i), "list-constructed")
                leaks(u, o)
        @unit
        def u_dtor(u):
            for st, p, a in M.cases(u):
                for o in u.run(st, pre + "_dtor", [p]):
                    if no_throw(u, o): M.dead(u, o.st, p, "destroyed"); leaks(u, o)
        @unit
        def u_copy_assign(u):
            for st, p, a in M.cases(u, "v"):
                for st2, q, b in M.cases(u, "other", ro=True, st=st):
                    for o in u.run(st2, pre + "_copy_assign", [p, q]):
                        if no_throw(u, o):
                            M.expect(u, o.st, p, b.n, b.at, "assigned"); M.unchanged(u, o.st, q, b, "source of assignment")
                            u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == p.obj, "assignment returns *this"); leaks(u, o)
            for st, p, a in M.cases(u, "v"):
                for o in u.run(st, pre + "_copy_assign", [p, p]):
                    if no_throw(u, o): M.unchanged(u, o.st, p, a, "self-assigned"); leaks(u, o)
        @unit
        def u_move_assign(u):
            for st, p, a in M.cases(u, "v"):
                for st2, q, b in M.cases(u, "other", st=st):
                    for o in u.run(st2, pre + "_move_assign", [p, q]):
                        if no_throw(u, o): M.expect(u, o.st, p, b.n, b.at, "move-assigned"); M.read(u, o.st, q, "moved-from"); leaks(u, o)
            for st, p, a in M.cases(u, "v"):
                for o in u.run(st, pre + "_move_assign", [p, p]):
                    if no_throw(u, o): M.unchanged(u, o.st, p, a, "self-move-assigned"); leaks(u, o)
        @unit
        def u_observers(u):
            for st, p, a in M.cases(u, "v", ro=True):
                for f, want in (("_size", a.n), ("_length", a.n), ("_capacity", Lin({}, cap))):
                    for o in u.run(st.fork(), pre + f, [p]):
                        if no_throw(u, o): u.check(o.st, "post", u.ex.ucanon(o.st, o.val).z == want.z, f)
                for o in u.run(st.fork(), pre + "_empty", [p]):
                    if no_throw(u, o): u.check(o.st, "post", zb(u.ex.boolval(o.st, o.val)) == (a.n.z == 0), "empty() iff size is 0")
                ends = {"_data": 0, "_data_mut": 0, "_begin": 0, "_begin_mut": 0, "_data_fn": 0, "_data_fn_mut": 0, "_end": 1, "_end_mut": 1}
                for f, e in ends.items():
                    for o in u.run(st.fork(), pre + f, [p]):
                        if no_throw(u, o):
                            w = a.ptr(a.n if e else Lin({}, 0))
                            u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == w.obj, f + " points into the object")
                            u.check(o.st, "post", o.val.off.z == w.off.z, f + " offset")
                for f in ("_index", "_index_mut", "_nth", "_nth_mut"):
                    s = st.fork(); i = u.int(s, "i", 0, BIG); s.assume(i.lin.z < a.n.z)
                    for o in u.run(s, pre + f, [p, i]):
                        if no_throw(u, o):
                            w = a.ptr(i.lin)
                            u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == w.obj, f + " denotes an element of the container")
                            u.check(o.st, "post", o.val.off.z == w.off.z, f + " denotes element i")
        @unit
        def u_eq(u):
            for st, p, a in M.cases(u, "v", ro=True):
                for st2, q, b in M.cases(u, "other", ro=True, st=st):
                    u.ex.hints = [lambda ex, s0, lv: prefix_hints(lv, lambda k: forall(0, k, lambda i: externs.EQ(a.at(i), b.at(i)), lambda i: [a.at(i), b.at(i)]))]
                    u.ex.arith_hints = [flag_hints(first_of(st2, zmin(a.n.z, b.n.z), lambda i: externs.EQ(a.at(i), b.at(i))))]
                    for o in u.run(st2, pre + "_eq", [p, q]):
                        if no_throw(u, o):
                            eq = u.ex.boolval(o.st, o.val); same_n = a.n.z == b.n.z
                            i = fresh("i", IntS)
                            u.check(o.st, "post", z3.Implies(zb(eq), same_n), "== implies equal size")
                            u.check(o.st, "post", z3.Implies(z3.And(zb(eq), i >= 0, i < a.n.z), externs.EQ(a.at(i), b.at(i))), "== implies all elements equal")
                            s = o.st.fork(); s.assume(same_n)
                            s.assume(forall(0, a.n, lambda i: externs.EQ(a.at(i), b.at(i)), lambda i: [a.at(i)]))
                            u.check(s, "post", zb(eq), "equal size and elements implies ==")
        @unit
        def u_reserve(u):
            for st, p, a in M.cases(u):
                k = u.int(st, "k")
                for o in u.run(st, pre + "_reserve", [p, k]):
                    u.check(o.st, "throws", (k.lin.z > cap) if o.kind == "throw" else (k.lin.z <= cap), "throws exactly when the request exceeds the capacity")
                    M.unchanged(u, o.st, p, a, "reserved"); leaks(u, o)
        @unit
        def u_resize(u):
            for st, p, a in M.cases(u):
                k = u.int(st, "k"); u.ex.const_vals = [("default", externs.DFLT)]
                ok = k.lin.z <= cap if M.sized else k.lin.z == cap
                for o in u.run(st, pre + "_resize", [p, k]):
                    if o.kind == "throw": u.check(o.st, "throws", z3.Not(ok), "throws only when the size does not fit"); M.unchanged(u, o.st, p, a, "after throw")
                    else:
                        u.check(o.st, "throws", ok, "a size that does not fit is refused")
                        M.expect(u, o.st, p, k.lin, lambda i: z3.If(i < a.n.z, a.at(i), externs.DFLT), "resized")
                    leaks(u, o)
        @unit
        def u_default(u):
            st = u.state(); p = M.raw(u, st); u.ex.const_vals = [("default", externs.DFLT)]
            for o in u.run(st, pre + "_default", [p]):
                if no_throw(u, o): M.expect(u, o.st, p, 0 if M.sized else cap, lambda i: externs.DFLT, "default-constructed"); leaks(u, o)
    common(A, "av")
    common(R, "ar")
    def unit(f): U["av_" + f.__name__[2:]] = f; return f
    def alias_cases(u, mut=False):
        for st, p, a in A.cases(u):
            s = st.fork(); q, t = u.elem(s, ro=not mut); yield s, p, a, q, t, False
            s = st.fork(); i = u.ex.fresh_int(s, "k", 0, cap); s.assume(i.z < a.n.z)
            yield s, p, a, a.ptr(i), a.at(i), i
    @unit
    def u_from_small(u):
        for st, q, b in S.cases(u, "other", ro=True):
            p = A.raw(u, st)
            for o in u.run(st, "av_from_small", [p, q]):
                if no_throw(u, o): A.expect(u, o.st, p, b.n, b.at, "converted"); S.unchanged(u, o.st, q, b, "source"); leaks(u, o)
    def pushed(a, t): return lambda i: z3.If(i < a.n.z, a.at(i), t)
    @unit
    def u_push_back(u):
        for f in ("av_push_back", "av_push_back_move"):
            for st, p, a, q, t, al in alias_cases(u, f.endswith("move")):
                for o in u.run(st, f, [p, q]):
                    if o.kind == "throw": u.check(o.st, "throws", a.n.z == cap, "throws only when full"); A.unchanged(u, o.st, p, a, "after throw")
                    else:
                        u.check(o.st, "throws", a.n.z < cap, "refused when full")
                        if al is False or not f.endswith("move"): A.expect(u, o.st, p, a.n + 1, pushed(a, t), f)
                        else:
                            r = A.read(u, o.st, p, f)
                            if r is not None:
                                u.check(o.st, "post-size", r.n.z == (a.n + 1).z, "size")
                                u.check(o.st, "post-content", forall(0, a.n + 1, lambda i: z3.Implies(i != al.z, r.at(i) == pushed(a, t)(i))), "contents except the moved-from element")
                    leaks(u, o)
    @unit
    def u_pop_back(u):
        for st, p, a in A.cases(u):
            for o in u.run(st, "av_pop_back", [p]):
                if o.kind == "throw": u.check(o.st, "throws", a.n.z == 0, "throws only when empty"); A.unchanged(u, o.st, p, a, "after throw")
                else: u.check(o.st, "throws", a.n.z > 0, "refused when empty"); A.expect(u, o.st, p, a.n - 1, a.at, "popped")
                leaks(u, o)
    @unit
    def u_insert(u):
        for st, p, a, q, t, al in alias_cases(u):
            k = u.int(st, "k")
            for o in u.run(st, "av_insert", [p, k, q]):
                ok = z3.And(k.lin.z <= a.n.z, a.n.z < cap)
                if o.kind == "throw": u.check(o.st, "throws", z3.Not(ok), "throws only for an invalid index or when full"); A.unchanged(u, o.st, p, a, "after throw")
                else:
                    u.check(o.st, "throws", ok, "invalid index or full is refused")
                    A.expect(u, o.st, p, a.n + 1, lambda i: z3.If(i < k.lin.z, a.at(i), z3.If(i == k.lin.z, t, a.at(i - 1))), "inserted")
                leaks(u, o)
    @unit
    def u_erase(u):
        for st, p, a in A.cases(u):
            k = u.int(st, "k")
            for o in u.run(st, "av_erase", [p, k]):
                if o.kind == "throw": u.check(o.st, "throws", k.lin.z >= a.n.z, "throws only for an invalid index"); A.unchanged(u, o.st, p, a, "after throw")
                else:
                    u.check(o.st, "throws", k.lin.z < a.n.z, "invalid index is refused")
                    A.expect(u, o.st, p, a.n - 1, lambda i: z3.If(i < k.lin.z, a.at(i), a.at(i + 1)), "erased")
                leaks(u, o)
    @unit
    def u_clear(u):
        for st, p, a in A.cases(u):
            for o in u.run(st, "av_clear", [p]):
                if no_throw(u, o): A.expect(u, o.st, p, 0, a.at, "cleared"); leaks(u, o)
    return U
