"""C08: Enum.  Alternatives are opaque types of different sizes.  A value of
alternative k is represented by whatever the constructor from that alternative
produces; every operation must end in the representation of its abstract result
(so the representation is not part of the contract)."""
import re
import z3
from sym import *
from speclib import *
from spec_vector import no_throw
from externs import TY, EQ, XDFLT

SRC = "enum.cpp"

def units(mod):
    funcs = {}
    for f in mod.funcs:
        m = re.match(r"^@_Z\d+(e_[a-z]+)ILi(\d+)E(?:Li(\d+)E)?E", f)
        if m and mod.funcs[f].defined: funcs[(m.group(1), int(m.group(2)), None if m.group(3) is None else int(m.group(3)))] = f[1:]
    N = [k[1] for k in funcs if k[0] == "e_copy"][0]
    def fn(name, k=None): return funcs[(name, N, k)]
    ty = type_of(mod, fn("e_type"))
    U = {}
    def size(k): return 8 * (1 + k % 3)
    def value(u, st, k, name="x"):
        """a live object of alternative k"""
        o = st.new_obj("param", size(k), None, name); t = fresh("val_" + name, V); st.assume(TY(t) == k)
        o.cells[0] = (size(k), EVal(t)); return PtrVal(o.id, 0), t
    def raw(u, st, name="out"): return PtrVal(u.param(st, ty, name).id, 0)
    shapes = {}
    def shape(k):
        """representation made by the constructor: {offset: (size, "value" | constant)}"""
        if k not in shapes:
            u = Unit(mod, "shape"); st = u.state(); x, t = value(u, st, k); p = raw(u, st)
            outs = u.run(st, fn("e_mkc", k), [p, x])
            if len(outs) != 1 or outs[0].kind == "throw": raise ToolLimit("constructor from an alternative")
            d = {}
            for off, (sz, v) in outs[0].st.mem[p.obj].cells.items():
                if isinstance(v, EVal): d[off] = (sz, "value")
                elif isinstance(v, IntVal) and v.lin.is_const(): d[off] = (sz, v.lin.c)
                else: raise ToolLimit("representation of an alternative")
            shapes[k] = d
        return shapes[k]
    def make(u, st, k, name="e", ro=False):
        o = u.param(st, ty, name); t = fresh("val_" + name, V); st.assume(TY(t) == k)
        for off, (sz, v) in shape(k).items(): o.cells[off] = (sz, EVal(t) if v == "value" else IntVal(sz * 8, v))
        o.ro = ro
        return PtrVal(o.id, 0), t
    def expect(u, st, p, k, t, what):
        """p holds exactly alternative k with value t (t None: any value of that type)"""
        o = st.mem[p.obj]; sh = shape(k)
        for off, (sz, v) in o.cells.items():
            if isinstance(v, EVal) and (off not in sh or sh[off][1] != "value"): u.check(st, "lifetime", False, "%s: no other value is left alive" % what)
        for off, (sz, v) in sh.items():
            c = o.cells.get(off)
            if v == "value":
                if c is None or not isinstance(c[1], EVal): u.check(st, "lifetime", False, "%s: the held value is alive" % what); continue
                u.check(st, "type", TY(c[1].t) == k, "%s: the held value is of the named alternative" % what)
                u.check(st, "lifetime", c[0] == sz, "%s: the held value is a whole object" % what)
                if t is not None: u.check(st, "post-content", c[1].t == t, "%s: the held value" % what)
            else:
                ok = c is not None and isinstance(c[1], IntVal)
                u.check(st, "post-index", (c[1].lin.z == v) if ok else False, "%s: the index names the held alternative" % what)
    def dead(u, st, p, what):
        if any(isinstance(v, EVal) for sz, v in st.mem[p.obj].cells.values()): u.check(st, "leak", False, "%s: the held value is destroyed" % what)
    def pairs():
        if N <= 9: return [(a, b) for a in range(N) for b in range(N)]
        s = set()
        for k in range(N): s |= {(k, k), (k, 0), (0, k), (k, N - 1), (N - 1, k), (k, (k * 7 + 3) % N)}
        return sorted(s)
    def unit(f): U["%s_%d" % (f.__name__, N)] = f; return f
    @unit
    def default(u):
        st = u.state(); p = raw(u, st)
        for o in u.run(st, fn("e_dflt"), [p]):
            if no_throw(u, o): expect(u, o.st, p, 0, XDFLT(0), "default-constructed")
    @unit
    def from_value(u):
        for k in range(N):
            for name, mv in (("e_mkc", False), ("e_mkm", True)):
                st = u.state(); x, t = value(u, st, k); p = raw(u, st); st.mem[x.obj].ro = not mv
                for o in u.run(st, fn(name, k), [p, x]):
                    if no_throw(u, o):
                        expect(u, o.st, p, k, t, "constructed"); c = o.st.mem[x.obj].cells.get(0)
                        u.check(o.st, "lifetime", c is not None and isinstance(c[1], EVal), "the source stays alive")
    @unit
    def index(u):
        seen = set()
        for k in range(N):
            st = u.state(); p, t = make(u, st, k, ro=True)
            for o in u.run(st, fn("e_index"), [p]):
                if no_throw(u, o): u.check(o.st, "post", u.ex.ucanon(o.st, o.val).z == k, "index names the held alternative")
    @unit
    def get(u):
        for k in range(N):
            for l in (range(N) if N <= 9 else sorted({0, k, N - 1, (k + 1) % N})):
                for name in ("e_get", "e_getm", "e_geti", "e_getmi", "e_mov", "e_movi"):
                    st = u.state(); p, t = make(u, st, k, ro=name in ("e_get", "e_geti"))
                    vo = [o for o, (sz, v) in shape(k).items() if v == "value"][0]
                    for o in u.run(st, fn(name, l), [p]):
                        if k != l: u.check(o.st, "throws", o.kind == "throw", "reading another alternative throws"); 
                        elif no_throw(u, o): u.check(o.st, "post", isinstance(o.val, PtrVal) and o.val.obj == p.obj and o.val.off == Lin.of(vo), "get refers to the held value")
                        expect(u, o.st, p, k, t, "after get")
    def two(name, mv, assign):
        def f(u):
            for k, l in (pairs() if assign else [(None, k) for k in range(N)]):
                st = u.state(); q, t = make(u, st, l, "src", ro=not mv)
                p = make(u, st, k, "dst")[0] if assign else raw(u, st)
                for o in u.run(st, fn(name), [p, q]):
                    if no_throw(u, o): expect(u, o.st, p, l, t, "target"); expect(u, o.st, q, l, None if mv else t, "source")
            if assign:
                for k in range(N):
                    st = u.state(); p, t = make(u, st, k)
                    for o in u.run(st, fn(name), [p, p]):
                        if no_throw(u, o): expect(u, o.st, p, k, t, "self-assigned")
        U["%s_%d" % (name[2:], N)] = f
    two("e_copy", False, False); two("e_move", True, False); two("e_assign", False, True); two("e_massign", True, True)
    @unit
    def set_value(u):
        for k, l in pairs():
            for name, mv in (("e_setc", False), ("e_setm", True)):
                st = u.state(); p, _ = make(u, st, k, "dst"); x, t = value(u, st, l); st.mem[x.obj].ro = not mv
                for o in u.run(st, fn(name, l), [p, x]):
                    if no_throw(u, o): expect(u, o.st, p, l, t, "assigned")
            if N <= 9:  # assigning the held value to its own holder is not required to work
                pass
    @unit
    def destroy(u):
        for k in range(N):
            st = u.state(); p, t = make(u, st, k)
            for o in u.run(st, fn("e_destroy"), [p]):
                if no_throw(u, o): dead(u, o.st, p, "destroyed")
    @unit
    def equal(u):
        for k, l in pairs():
            for name in ("e_eq", "e_ne"):
                st = u.state(); p, a = make(u, st, k, "a", True); q, b = make(u, st, l, "b", True)
                for o in u.run(st, fn(name), [p, q]):
                    if not no_throw(u, o): continue
                    r = u.ex.boolval(o.st, o.val); want = EQ(a, b) if k == l else z3.BoolVal(False)
                    u.check(o.st, "post", zb(r) == (want if name == "e_eq" else z3.Not(want)), "equal exactly when the alternatives and values are")
                    expect(u, o.st, p, k, a, "left"); expect(u, o.st, q, l, b, "right")
    def matching(name, branch):
        def f(u):
            u.ex.max_steps *= 100; u.ex.max_depth = 600
            for k in (range(N) if N <= 65 or name != "e_match" else sorted({0, 1, 31, 32, 63, 64, 95, 96, N - 2, N - 1})):
                st = u.state(); p, t = make(u, st, k, ro=True)
                def hit(ex, st, ins, a):
                    b = ex.ucanon(st, a[0]); r = ex.fresh_int(st, "ret", 0, (1 << 64) - 1)
                    if b.is_const() and b.c < 1000:
                        v = ex.e_read(st, a[1], ins, "argument of the branch", size(b.c)); ex.oblige(st, "type", TY(v) == b.c, "the branch gets a value of its alternative", ins)
                    else: v = None
                    st.ghost["$hits"] = st.ghost.get("$hits", ()) + ((b, v, r),); return [(st, IntVal(64, r))]
                u.ex.externs["@hit"] = hit
                for o in u.run(st, fn(name), [p]):
                    if not no_throw(u, o): continue
                    h = o.st.ghost.get("$hits", ())
                    u.check(o.st, "post", len(h) == 1, "exactly one branch runs, once")
                    if len(h) != 1: continue
                    b, v, r = h[0]
                    u.check(o.st, "post", b.z == branch(k), "the branch for the held alternative runs")
                    if v is not None: u.check(o.st, "post", v == t, "the branch gets the held value")
                    u.check(o.st, "post", u.ex.ucanon(o.st, o.val).z == r.z, "match returns what the branch returns")
                    expect(u, o.st, p, k, t, "after match")
        U["%s_%d" % (name[2:], N)] = f
    matching("e_match", lambda k: k)
    if ("e_matchw", N, None) in funcs:
        matching("e_matchw", lambda k: k if k in (0, N // 2) else 1000); matching("e_matchr", lambda k: k if k == N - 1 else 1000)
    return U
