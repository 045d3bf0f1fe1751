"""C09: Maybe (nothing, or exactly one value)."""
import z3
from sym import *
from speclib import *
from spec_vector import no_throw
import externs

SRC = "maybe.cpp"
FN = {"fn1": z3.Function("f1", V, V), "fn2u": z3.Function("f2u", V, V)}
PRD = {"pr": z3.Function("pr", V, z3.BoolSort()), "pr2": z3.Function("pr2", V, z3.BoolSort())}

def units(mod):
    ty, tyf = type_of(mod, "ty_M"), type_of(mod, "ty_MF")
    U = {}
    def prep(u):
        def fn(name):
            def h(ex, st, ins, a):
                x = ex.e_read(st, a[1], ins, "argument of the user's function"); ex.e_set(st, a[0], FN[name](x), "construct", ins)
                st.ghost["$calls"] = st.ghost.get("$calls", ()) + ((name, x),); return [(st, None)]
            return h
        def prd(name):
            def h(ex, st, ins, a): return [(st, BoolV(PRD[name](ex.e_read(st, a[0], ins, "argument of the user's predicate"))))]
            return h
        for n in FN: u.ex.externs["@" + n] = fn(n)
        for n in PRD: u.ex.externs["@" + n] = prd(n)
        def hit(ex, st, ins, a):
            b = ex.ucanon(st, a[0]); r = ex.fresh_int(st, "ret", 0, (1 << 64) - 1)
            v = ex.e_read(st, a[1], ins, "argument of the branch") if b.c == 1 else None
            st.ghost["$hits"] = st.ghost.get("$hits", ()) + ((b.c, v, r),); return [(st, IntVal(64, r))]
        u.ex.externs["@hit"] = hit
        u.ex.trusted.add("functions passed by the user are pure, total and do not throw")
    def raw(u, st, name="out", t=ty): return PtrVal(u.param(st, t, name).id, 0)
    def shape_of(fname, t, arg):
        u = Unit(mod, "shape"); prep(u); st = u.state(); p = raw(u, st, "out", t)
        args = [p] + ([u.elem(st)[0]] if arg else [])
        outs = u.run(st, fname, args)
        if len(outs) != 1 or outs[0].kind == "throw": raise ToolLimit("constructor")
        d = {}
        for off, (sz, v) in outs[0].st.mem[p.obj].cells.items():
            if isinstance(v, EVal): d[off] = (sz, "value")
            elif isinstance(v, IntVal) and v.lin.is_const(): d[off] = (sz, v.lin.c)
            elif v is UNDEF: pass
            else: raise ToolLimit("representation of a Maybe")
        return d
    S = {0: shape_of("m_none", ty, False), 1: shape_of("m_mkc", ty, True)}
    SF = {0: shape_of("mf_none", tyf, False), 1: shape_of("mf_some", tyf, False)}
    def make(u, st, k, name="m", ro=False):
        o = u.param(st, ty, name); t = fresh("val_" + name, V) if k else None
        for off, (sz, v) in S[k].items(): o.cells[off] = (sz, EVal(t) if v == "value" else IntVal(sz * 8, v))
        o.ro = ro; return PtrVal(o.id, 0), t
    def makef(u, st, k):
        o = u.param(st, tyf, "mf")
        for off, (sz, v) in SF[k].items(): o.cells[off] = (sz, IntVal(sz * 8, v))
        o.ro = True; return PtrVal(o.id, 0)
    vo = [o for o, (sz, v) in S[1].items() if v == "value"][0]
    def state_of(u, st, p, what):
        """0: nothing, 1: a value; None: neither"""
        o = st.mem[p.obj]
        for k in (0, 1):
            if all(v == "value" or (off in o.cells and isinstance(o.cells[off][1], IntVal) and o.cells[off][1].lin == Lin.of(v)) for off, (sz, v) in S[k].items()):
                live = [off for off, (sz, v) in o.cells.items() if isinstance(v, EVal)]
                if live == ([vo] if k else []): return k, (o.cells[vo][1].t if k else None)
        u.check(st, "wf", False, "%s: nothing without a live value, or exactly one live value" % what)
        return None, None
    def expect(u, st, p, k, t, what):
        kk, v = state_of(u, st, p, what)
        if kk is None: return
        u.check(st, "post", kk == k, "%s: %s" % (what, "holds a value" if k else "is nothing"))
        if k and kk and t is not None: u.check(st, "post-content", v == t, "%s: the held value" % what)
    def calls(u, st, want, what="the function is applied exactly once to a present value and never to nothing"):
        c = st.ghost.get("$calls", ())
        u.check(st, "post", [x[0] for x in c] == [x[0] for x in want], what)
        for x, y in zip(c, want): u.check(st, "post", x[1] == y[1], "the function gets the held value")
    def unit(f): U[f.__name__] = f; return f
    def ctor(name, fname, k, arg, mv=False):
        def f(u):
            prep(u); st = u.state(); p = raw(u, st); x, t = u.elem(st, ro=not mv) if arg else (None, None)
            for o in u.run(st, fname, [p] + ([x] if arg else [])):
                if no_throw(u, o):
                    expect(u, o.st, p, k, t, "constructed")
                    if arg: u.check(o.st, "lifetime", isinstance(o.st.mem[x.obj].cells.get(0, (0, None))[1], EVal), "the source stays alive")
        U[name] = f
    ctor("default", "m_dflt", 0, False); ctor("from_nothing", "m_none", 0, False); ctor("from_value", "m_mkc", 1, True); ctor("from_moved_value", "m_mkm", 1, True, True)
    ctor("pure_member", "m_pure", 1, True); ctor("pure_free", "m_puref", 1, True)
    def obs(name, fname, f, ro=True):
        def g(u):
            prep(u)
            for k in (0, 1):
                st = u.state(); p, t = make(u, st, k, ro=ro)
                for o in u.run(st, fname, [p]):
                    if no_throw(u, o): u.check(o.st, "post", f(u, o, k), name); expect(u, o.st, p, k, t, "after " + name)
        U[name] = g
    isb = lambda want: (lambda u, o, k: zb(u.ex.boolval(o.st, o.val)) == z3.BoolVal(want(k)))
    obs("is_nothing", "m_is_nothing", isb(lambda k: k == 0)); obs("has_value", "m_has_value", isb(lambda k: k == 1)); obs("to_bool", "m_bool", isb(lambda k: k == 1))
    obs("index", "m_index", lambda u, o, k: u.ex.ucanon(o.st, o.val).z == k)
    def reading(name, fname, how):
        def g(u):
            prep(u)
            for k in (0, 1):
                st = u.state(); p, t = make(u, st, k, ro=how in ("copy", "ref")); args = [p]
                if how in ("copy", "take"): q = PtrVal(st.new_obj("param", 8, None, "out").id, 0); args = [q, p]
                for o in u.run(st, fname, args):
                    if k == 0: u.check(o.st, "throws", o.kind == "throw", "reading nothing throws"); expect(u, o.st, p, 0, None, "after the failed read"); continue
                    if not no_throw(u, o): continue
                    if how in ("copy", "take"):
                        c = o.st.mem[q.obj].cells.get(0); u.check(o.st, "lifetime", c is not None and isinstance(c[1], EVal), "gives a value")
                        if c is not None and isinstance(c[1], EVal): u.check(o.st, "post-content", c[1].t == t, "gives the held value")
                    else: u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == p.obj and o.val.off == Lin.of(vo), "refers to the held value")
                    expect(u, o.st, p, 1, None if how == "take" else t, "after reading")
        U[name] = g
    reading("value", "m_value", "copy"); reading("move", "m_mov", "mref"); reading("take", "m_take", "take"); reading("get", "m_get", "ref")
    def two(name, mv, assign):
        def g(u):
            prep(u)
            for k in ((0, 1) if assign else (None,)):
                for l in (0, 1):
                    st = u.state(); q, t = make(u, st, l, "src", ro=not mv); p = make(u, st, k, "dst")[0] if assign else raw(u, st)
                    for o in u.run(st, "m_" + name, [p, q]):
                        if no_throw(u, o): expect(u, o.st, p, l, t, "target"); expect(u, o.st, q, l, None if mv else t, "source")
            if assign:
                for k in (0, 1):
                    st = u.state(); p, t = make(u, st, k)
                    for o in u.run(st, "m_" + name, [p, p]):
                        if no_throw(u, o): expect(u, o.st, p, k, t, "self-assigned")
        U[name] = g
    two("copy", False, False)
    two("assign", False, True); two("massign", True, True)
    def mvc(u):
        prep(u)
        for l in (0, 1):
            st = u.state(); q, t = make(u, st, l, "src"); p = raw(u, st)
            for o in u.run(st, "m_move", [p, q]):
                if no_throw(u, o): expect(u, o.st, p, l, t, "target"); expect(u, o.st, q, l, None, "source")
    U["move_construct"] = mvc
    @unit
    def set_value(u):
        prep(u)
        for k in (0, 1):
            for fname in ("m_setc", "m_setm"):
                st = u.state(); p, _ = make(u, st, k, "dst"); x, t = u.elem(st, ro=fname == "m_setc")
                for o in u.run(st, fname, [p, x]):
                    if no_throw(u, o): expect(u, o.st, p, 1, t, "assigned")
            st = u.state(); p, _ = make(u, st, k, "dst")
            for o in u.run(st, "m_setn", [p]):
                if no_throw(u, o): expect(u, o.st, p, 0, None, "reset")
    @unit
    def destroy(u):
        prep(u)
        for k in (0, 1):
            st = u.state(); p, t = make(u, st, k)
            for o in u.run(st, "m_destroy", [p]):
                if no_throw(u, o): u.check(o.st, "leak", not any(isinstance(v, EVal) for sz, v in o.st.mem[p.obj].cells.values()), "the held value is destroyed")
    def matching(name, br):
        def g(u):
            prep(u)
            for k in (0, 1):
                st = u.state(); p, t = make(u, st, k, ro=True)
                for o in u.run(st, name, [p]):
                    if not no_throw(u, o): continue
                    h = o.st.ghost.get("$hits", ()); u.check(o.st, "post", len(h) == 1, "exactly one branch runs, once")
                    if len(h) != 1: continue
                    u.check(o.st, "post", h[0][0] == br[k], "the branch for the state runs")
                    if h[0][1] is not None: u.check(o.st, "post", h[0][1] == t, "the branch gets the held value")
                    u.check(o.st, "post", u.ex.ucanon(o.st, o.val).z == h[0][2].z, "match returns what the branch returns"); expect(u, o.st, p, k, t, "after match")
        U[name[2:]] = g
    matching("m_match", {0: 0, 1: 1}); matching("m_matchr", {0: 0, 1: 1}); matching("m_matchw", {0: 2, 1: 1})
    def fmapu(name, ro):
        def g(u):
            prep(u)
            for k in (0, 1):
                st = u.state(); q, t = make(u, st, k, ro=ro); p = raw(u, st)
                for o in u.run(st, name, [p, q]):
                    if no_throw(u, o): expect(u, o.st, p, k, FN["fn1"](t) if k else None, "fmap"); expect(u, o.st, q, k, t, "argument of fmap"); calls(u, o.st, [("fn1", t)] if k else [])
        U[name[2:]] = g
    fmapu("m_fmap", True); fmapu("m_fmapf", True)
    def bindu(name, ro):
        def g(u):
            prep(u)
            for k in (0, 1):
                st = u.state(); q, t = make(u, st, k, ro=ro); p = raw(u, st)
                for o in u.run(st, name, [p, q]):
                    if not no_throw(u, o): continue
                    expect(u, o.st, q, k, t, "argument of bind")
                    if not k: expect(u, o.st, p, 0, None, "bind"); calls(u, o.st, []); continue
                    kk, v = state_of(u, o.st, p, "bind")
                    if kk is None: continue
                    u.check(o.st, "post", PRD["pr"](t) == z3.BoolVal(kk == 1), "bind gives what the function gives")
                    if kk: u.check(o.st, "post-content", v == FN["fn1"](t), "bind gives what the function gives")
                    calls(u, o.st, [("fn1", t)] if kk else [])
        U[name[2:]] = g
    bindu("m_bind", True); bindu("m_bindop", True); bindu("m_bindf", True)
    def apu(name, flip):
        def g(u):
            prep(u)
            for k in (0, 1):
                for l in (0, 1):
                    st = u.state(); q, t = make(u, st, k, ro=True); f = makef(u, st, l); p = raw(u, st)
                    for o in u.run(st, name, [p, f, q] if flip else [p, q, f]):
                        if no_throw(u, o): expect(u, o.st, p, k & l, FN["fn1"](t) if k & l else None, "ap"); expect(u, o.st, q, k, t, "argument of ap"); calls(u, o.st, [("fn1", t)] if k & l else [])
        U[name[2:]] = g
    apu("m_ap", False); apu("m_apf", True)
    def law(name, arg="M", ro=True):
        def g(u):
            prep(u)
            for k in ((0, 1) if arg == "M" else (1,)):
                st = u.state(); q, t = make(u, st, k, ro=ro) if arg == "M" else u.elem(st)
                p, w = raw(u, st, "left"), raw(u, st, "right")
                for o in u.run(st, name, [p, w, q]):
                    if not no_throw(u, o): continue
                    (a, x), (b, y) = state_of(u, o.st, p, "left side"), state_of(u, o.st, w, "right side")
                    if a is None or b is None: continue
                    u.check(o.st, "law", a == b, "both sides are present or absent together")
                    if a and b: u.check(o.st, "law", x == y, "both sides hold the same value")
        U["law_" + name[2:]] = g
    law("l_fid"); law("l_fcomp"); law("l_assoc"); law("l_assocop"); law("l_right"); law("l_left", "E")
    return U
