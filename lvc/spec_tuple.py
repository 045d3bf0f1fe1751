"""C18: Tuple and swap.  Components are opaque; a Tuple's state is one live value
per component, at the place get<i> names."""
import re
import z3
from sym import *
from speclib import *
from spec_vector import no_throw
from externs import TY, EQ

SRC = "tuple.cpp"

def units(mod):
    funcs = {}
    for f in mod.funcs:
        m = re.match(r"^@_Z\d+(t_[a-z]+)ILi(\d+)E", f)
        if m and mod.funcs[f].defined: funcs[(m.group(1), int(m.group(2)))] = f[1:]
    N = 1 + max(k[1] for k in funcs)
    ty = type_of(mod, "ty_T")
    mixed = any(re.search(r"\bTuple<X<0>", mod.dem(f)) for f in mod.funcs)
    def size(k): return 8 * (1 + k % 3) if mixed else 8
    OFF = []
    for i in range(N):
        u = Unit(mod, "layout"); st = u.state(); o = u.param(st, ty, "self"); outs = u.run(st, funcs[("t_get", i)], [PtrVal(o.id, 0)])
        if len(outs) != 1 or not isinstance(outs[0].val, PtrVal) or outs[0].val.obj != o.id or not outs[0].val.off.is_const(): raise ToolLimit("get<i> is not a reference into the object")
        OFF.append(outs[0].val.off.c)
    U = {}
    def unit(f): U[f.__name__] = f; return f
    def typed(st, t, k):
        if mixed: st.assume(TY(t) == k)
    def raw(u, st, name="out"): return PtrVal(u.param(st, ty, name).id, 0)
    def make(u, st, name="t", ro=False):
        o = u.param(st, ty, name); vs = []
        for i in range(N):
            t = fresh("val_%s%d" % (name, i), V); typed(st, t, i); o.cells[OFF[i]] = (size(i), EVal(t)); vs.append(t)
        o.ro = ro
        return PtrVal(o.id, 0), vs
    def expect(u, st, p, vs, what):
        """exactly the N components are alive, with these values (None: any)"""
        o = st.mem[p.obj]
        u.check(st, "wf", len(set(OFF)) == N and all(a + size(i) <= b or b + size(j) <= a for i, a in enumerate(OFF) for j, b in enumerate(OFF) if i < j), "the components do not overlap")
        u.check(st, "lifetime", sum(isinstance(v, EVal) for sz, v in o.cells.values()) == N, "%s: exactly the %d components are alive" % (what, N))
        for i in range(N):
            c = o.cells.get(OFF[i])
            if c is None or not isinstance(c[1], EVal): u.check(st, "lifetime", False, "%s: component %d is alive" % (what, i)); continue
            if vs is not None: u.check(st, "post-content", c[1].t == vs[i], "%s: component %d" % (what, i))
    @unit
    def construct(u):
        for fn in ("t_mk", "t_mkt"):
            st = u.state(); p = raw(u, st); a = st.new_obj("param", 8 * N, None, "components"); vs, xs = [], []
            for i in range(N):
                o = st.new_obj("param", size(i), None, "x%d" % i); t = fresh("val_x%d" % i, V); typed(st, t, i); o.cells[0] = (size(i), EVal(t)); o.ro = True
                a.cells[8 * i] = (8, PtrVal(o.id, 0)); vs.append(t); xs.append(o.id)
            a.ro = True
            for o in u.run(st, fn, [p, PtrVal(a.id, 0)]):
                if no_throw(u, o):
                    expect(u, o.st, p, vs, "constructed")
                    for i, x in enumerate(xs): c = o.st.mem[x].cells.get(0); u.check(o.st, "lifetime", c is not None and isinstance(c[1], EVal), "the arguments stay alive")
    @unit
    def get(u):
        for fn in ("t_get", "t_getm", "t_fget", "t_fgetm", "t_p", "t_pm"):
            for i in range(N):
                st = u.state(); p, vs = make(u, st, ro=not fn.endswith("m"))
                for o in u.run(st, funcs[(fn, i)], [p]):
                    if no_throw(u, o): u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == p.obj and o.val.off == Lin.of(OFF[i]), "%s<%d> refers to component %d" % (fn[2:], i, i)); expect(u, o.st, p, vs, "after get")
    @unit
    def fst_snd(u):
        for fn, i in (("t_fst", 0), ("t_fstm", 0)) + ((("t_snd", 1), ("t_sndm", 1)) if N > 1 else ()):
            st = u.state(); p, vs = make(u, st, ro=not fn.endswith("m"))
            for o in u.run(st, fn, [p]):
                if no_throw(u, o): u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == p.obj and o.val.off == Lin.of(OFF[i]), "%s refers to component %d" % (fn[2:], i)); expect(u, o.st, p, vs, "after " + fn[2:])
    @unit
    def copy_move(u):
        for fn, mv in (("t_copy", False), ("t_move", True)):
            st = u.state(); q, vs = make(u, st, "src", ro=not mv); p = raw(u, st)
            for o in u.run(st, fn, [p, q]):
                if no_throw(u, o): expect(u, o.st, p, vs, "target"); expect(u, o.st, q, None if mv else vs, "source")
    @unit
    def assign(u):
        for fn, mv in (("t_assign", False), ("t_massign", True)):
            st = u.state(); q, vs = make(u, st, "src", ro=not mv); p, _ = make(u, st, "dst")
            for o in u.run(st, fn, [p, q]):
                if no_throw(u, o): expect(u, o.st, p, vs, "target"); expect(u, o.st, q, None if mv else vs, "source")
            st = u.state(); p, vs = make(u, st)
            for o in u.run(st, fn, [p, p]):
                if no_throw(u, o): expect(u, o.st, p, vs, "self-assigned")
    @unit
    def destroy(u):
        st = u.state(); p, vs = make(u, st)
        for o in u.run(st, "t_destroy", [p]):
            if no_throw(u, o): u.check(o.st, "leak", not any(isinstance(v, EVal) for sz, v in o.st.mem[p.obj].cells.values()), "every component is destroyed")
    @unit
    def equal(u):
        for fn in ("t_eq", "t_ne"):
            st = u.state(); p, a = make(u, st, "a", True); q, b = make(u, st, "b", True)
            want = z3.And(*[EQ(x, y) for x, y in zip(a, b)])
            for o in u.run(st, fn, [p, q]):
                if not no_throw(u, o): continue
                u.check(o.st, "post", zb(u.ex.boolval(o.st, o.val)) == (want if fn == "t_eq" else z3.Not(want)), "equality is componentwise"); expect(u, o.st, p, a, "left"); expect(u, o.st, q, b, "right")
    @unit
    def match(u):
        st = u.state(); p, vs = make(u, st, ro=True)
        def hit(ex, st, ins, a):
            n = ex.ucanon(st, a[1]); got = []
            if not n.is_const(): raise ToolLimit("match arity")
            for i in range(n.c):
                c = st.mem[a[0].obj].cells.get(a[0].off.c + 8 * i); x = c[1] if c else UNDEF
                if not isinstance(x, PtrVal): raise ToolLimit("match argument")
                got.append(ex.e_read(st, x, ins, "argument of the function", size(i)))
            r = ex.fresh_int(st, "ret", 0, (1 << 64) - 1); st.ghost["$hits"] = st.ghost.get("$hits", ()) + ((tuple(got), r),)
            return [(st, IntVal(64, r))]
        u.ex.externs["@hit"] = hit
        for o in u.run(st, "t_match", [p]):
            if not no_throw(u, o): continue
            h = o.st.ghost.get("$hits", ())
            if not u.check(o.st, "post", len(h) == 1, "match calls the function exactly once"): continue
            got, r = h[0]
            if u.check(o.st, "post", len(got) == N, "match passes every component"):
                for i in range(N): u.check(o.st, "post", got[i] == vs[i], "match passes component %d in its place" % i)
            u.check(o.st, "post", u.ex.ucanon(o.st, o.val).z == r.z, "match returns what the function returns"); expect(u, o.st, p, vs, "after match")
    @unit
    def swap(u):
        st = u.state(); p, a = make(u, st, "a"); q, b = make(u, st, "b")
        for o in u.run(st, "t_swap", [p, q]):
            if no_throw(u, o): expect(u, o.st, p, b, "first"); expect(u, o.st, q, a, "second")
        st = u.state(); p, a = make(u, st, "a")
        for o in u.run(st, "t_swap", [p, p]):
            if no_throw(u, o): expect(u, o.st, p, a, "swapped with itself")
        st = u.state(); p, a = u.elem(st, "a", ro=False); q, b = u.elem(st, "b", ro=False)
        for o in u.run(st, "t_swape", [p, q]):
            if no_throw(u, o):
                for x, y in ((p, b), (q, a)): c = o.st.mem[x.obj].cells.get(0); u.check(o.st, "post", c[1].t == y if c is not None and isinstance(c[1], EVal) else False, "swap exchanges the values")
        st = u.state(); p, a = u.elem(st, "a", ro=False)
        for o in u.run(st, "t_swape", [p, p]):
            if no_throw(u, o): c = o.st.mem[p.obj].cells.get(0); u.check(o.st, "post", c[1].t == a if c is not None and isinstance(c[1], EVal) else False, "swapping a value with itself keeps it")
    return U
