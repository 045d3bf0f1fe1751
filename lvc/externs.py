"""Assumed contracts of functions outside /repo (allocation, libc, C++ runtime)
and of the opaque element type."""
import re
import z3
from sym import *
import engine as E
from engine import Throw, PathEnd, ToolLimit

DFLT = z3.Const("E_default", V)
EQ = z3.Function("E_eq", V, V, z3.BoolSort())
LT = z3.Function("E_lt", V, V, z3.BoolSort())
KEY = z3.Function("E_key", V, z3.IntSort())
MAXBYTES = (1 << 63) - 1

ERE = re.compile(r"^@_ZNK?1E(.*)$")
XRE = re.compile(r"^@_ZNK?1XILi(\d+)EE(.*)$")
TY = z3.Function("E_type", V, z3.IntSort())      # which alternative type a value belongs to
XDFLT = z3.Function("X_default", z3.IntSort(), V)

def x_op(ex, st, k, op, ins, a):
    """special members of the opaque alternative X<k> (8, 16 or 24 bytes)"""
    ex.trusted.add("element special members: construct/copy/move/assign/destroy/compare behave as declared and do not throw")
    size = 8 * (1 + k % 3)
    def typed(v, what): ex.oblige(st, "type", TY(v) == k, "%s: the value is an object of this alternative" % what, ins); return v
    def rd(p, what): return typed(ex.e_read(st, p, ins, what, size), what)
    def moved():
        m = fresh("moved", V); st.assume(TY(m) == k); return m
    if re.fullmatch(r"C[12]Ev", op):
        st.assume(TY(XDFLT(k)) == k); ex.e_set(st, a[0], XDFLT(k), "construct", ins, size=size); return [(st, None)]
    if re.fullmatch(r"C[12]ERKS0_", op): ex.e_set(st, a[0], rd(a[1], "copy-construct source"), "construct", ins, size=size); return [(st, None)]
    if re.fullmatch(r"C[12]EOS0_", op):
        ex.e_set(st, a[0], rd(a[1], "move-construct source"), "construct", ins, size=size)
        ex.e_set(st, a[1], moved(), "assign", ins, "move-from", size=size); return [(st, None)]
    if re.fullmatch(r"D[12]Ev", op): rd(a[0], "destroy"); ex.e_set(st, a[0], None, "destroy", ins, size=size); return [(st, None)]
    if op in ("aSERKS0_", "aSEOS0_"):
        v = rd(a[1], "assign source"); rd(a[0], "assign target"); ex.e_set(st, a[0], v, "assign", ins, size=size)
        if op == "aSEOS0_" and not (a[0].obj == a[1].obj and a[0].off == a[1].off): ex.e_set(st, a[1], moved(), "assign", ins, "move-from", size=size)
        return [(st, a[0])]
    if op == "eqERKS0_": return bool_res(ex, st, EQ(rd(a[0], "comparison"), rd(a[1], "comparison")))
    if op == "neERKS0_": return bool_res(ex, st, z3.Not(EQ(rd(a[0], "comparison"), rd(a[1], "comparison"))))
    return None

def exc_obj(ex, st, ty):
    return {"type": ty, "ptr": NULL}

def elem_op(ex, st, op, ins, a):
    ex.trusted.add("element special members: construct/copy/move/assign/destroy/compare behave as declared and do not throw")
    if re.fullmatch(r"C[12]Ev", op): ex.e_set(st, a[0], DFLT, "construct", ins); return [(st, None)]
    if re.fullmatch(r"C[12]ERKS_", op):
        v = ex.e_read(st, a[1], ins, "copy-construct source"); ex.e_set(st, a[0], v, "construct", ins); return [(st, None)]
    if re.fullmatch(r"C[12]EOS_", op):
        v = ex.e_read(st, a[1], ins, "move-construct source"); ex.e_set(st, a[0], v, "construct", ins)
        ex.e_set(st, a[1], fresh("moved", V), "assign", ins, "move-from"); return [(st, None)]
    if re.fullmatch(r"D[12]Ev", op): ex.e_set(st, a[0], None, "destroy", ins); return [(st, None)]
    if op == "aSERKS_":
        v = ex.e_read(st, a[1], ins, "copy-assign source"); ex.e_set(st, a[0], v, "assign", ins); return [(st, a[0])]
    if op == "aSEOS_":
        v = ex.e_read(st, a[1], ins, "move-assign source"); ex.e_set(st, a[0], v, "assign", ins)
        ex.e_set(st, a[1], fresh("moved", V), "assign", ins, "move-from")
        return [(st, a[0])]
    m = re.fullmatch(r"C[12]E([imjl])", op)
    if m:
        mk = z3.Function("E_from_int", IntS, V)
        w = a[1]
        ex.e_set(st, a[0], mk(ex.scanon(st, w).z), "construct", ins); return [(st, None)]
    return None

def bool_res(ex, st, b):
    return [(st, BoolV(b))]

def new(ex, st, n, alloc):
    sz = ex.ucanon(st, n)
    ex.trusted.add("operator new returns fresh storage of the requested size or throws bad_alloc (allocation failure not modelled)")
    if sz.rng()[1] is None or sz.rng()[1] > MAXBYTES: st.assume(sz.z <= MAXBYTES)
    o = st.new_obj("heap", sz, None, "heap", alloc)
    return [(st, PtrVal(o.id, 0))]

def delete(ex, st, p, alloc, ins, size=None):
    if p is UNDEF: ex.fail(st, "uninit", "release of an uninitialised pointer", ins); raise PathEnd()
    if p.obj is None: return [(st, None)]
    o = st.mem.get(p.obj)
    if o is None or o.status == "dead" or o.kind != "heap" or not o.alloc:
        ex.fail(st, "free", "release of storage that is not from the heap", ins); raise PathEnd()
    if o.status == "freed":
        ex.fail(st, "double-free", "storage released twice", ins); raise PathEnd()
    ex.oblige(st, "free", p.off.z == 0 if not p.off.is_const() else p.off.c == 0, "released pointer is the start of the block", ins)
    if o.alloc != alloc: ex.fail(st, "free", "released with a different allocator than it came from (%s vs %s)" % (o.alloc, alloc), ins)
    if size is not None:
        s = ex.ucanon(st, size)
        if s != o.size:
            ex.oblige(st, "free", s.z == o.size.z, "released with the size it was allocated with", ins)
    ex.kill_obj_check(st, st.mem[p.obj], "storage released")
    st.w(p.obj).status = "freed"
    return [(st, None)]

def cstr_len(ex, st, p, ins, w=8):
    """strlen / wcslen: requires a terminated string"""
    B = w // 8
    oid = ex.deref(st, p, B, False, ins, "strlen")
    o = st.mem[oid]
    fr = ex.find_region(st, o, p.off, B, ("int", w))
    if fr is None:
        # a block held as single cells (a string literal)
        if p.off.is_const():
            i = p.off.c
            while i in o.cells and isinstance(o.cells[i][1], IntVal) and o.cells[i][0] == B and o.cells[i][1].lin.is_const():
                if o.cells[i][1].lin.c == 0: return IntVal(64, (i - p.off.c) // B)
                i += B
        raise ToolLimit("strlen on cells")
    r = st.mem[oid].regions[fr[0]]
    base = fr[1]
    # concrete literal
    if base.is_const() and r.count.is_const() and r.count.c <= 256:
        ok = True
        for i in range(base.c, r.count.c):
            v = z3.simplify(z3.Select(r.arr, i))
            if not z3.is_int_value(v): ok = False; break
            if v.as_long() == 0: return IntVal(64, i - base.c)
        if ok: ex.fail(st, "cstr", "string has no terminator", ins); raise PathEnd()
    # ask for a proof that a terminator exists inside the initialised part
    j = z3.Int("j")
    for x in st.ghost.get("$nulpos", {}).get(oid, []):
        if ex.prove(st, z3.And(x.z >= base.z, x.z < r.count.z, z3.Select(r.live, x.z), z3.Select(r.arr, x.z) == 0)):
            i = fresh("i", IntS)
            if ex.prove(st, z3.Implies(z3.And(i >= base.z, i < x.z), z3.And(z3.Select(r.live, i), z3.Select(r.arr, i) != 0))): return IntVal(64, x - base)
            k = ex.fresh_int(st, "slen", 0, MAXBYTES)
            ex.oblige(st, "uninit", z3.Implies(z3.And(i >= base.z, i < base.z + k.z), z3.Select(r.live, i)), "strlen reads initialised characters", ins, assume=False)
            st.assume(z3.And(k.z <= x.z - base.z, z3.Select(r.arr, base.z + k.z) == 0))
            st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= base.z, j < base.z + k.z), z3.Select(r.arr, j) != 0), patterns=[z3.Select(r.arr, j)]))
            return IntVal(64, k)
    ex.fail(st, "cstr", "argument is not a NUL-terminated string", ins); raise PathEnd()

def call(ex, st, name, ins, a):
    m = ERE.match(name)
    if m: return elem_op(ex, st, m.group(1), ins, a)
    m = XRE.match(name)
    if m: return x_op(ex, st, int(m.group(1)), m.group(2), ins, a)
    if name in ("@_ZeqRK1ES1_", "@_ZneRK1ES1_", "@_ZltRK1ES1_", "@_ZgtRK1ES1_", "@_ZleRK1ES1_", "@_ZgeRK1ES1_"):
        x = ex.e_read(st, a[0], ins, "comparison"); y = ex.e_read(st, a[1], ins, "comparison")
        k = name[3:5]
        r = {"eq": EQ(x, y), "ne": z3.Not(EQ(x, y)), "lt": LT(x, y), "gt": LT(y, x), "le": z3.Not(LT(y, x)), "ge": z3.Not(LT(x, y))}[k]
        return bool_res(ex, st, r)
    if name in ("@_Znwm",): return new(ex, st, a[0], "new")
    if name in ("@_Znam",): return new(ex, st, a[0], "new[]")
    if name == "@malloc": return new(ex, st, a[0], "malloc")
    if name == "@_ZdlPv": return delete(ex, st, a[0], "new", ins)
    if name == "@_ZdlPvm": return delete(ex, st, a[0], "new", ins, a[1])
    if name == "@_ZdaPv": return delete(ex, st, a[0], "new[]", ins)
    if name == "@_ZdaPvm": return delete(ex, st, a[0], "new[]", ins, a[1])
    if name == "@free": return delete(ex, st, a[0], "malloc", ins)
    if name.startswith(("@llvm.memcpy", "@llvm.memmove")) or name in ("@memcpy", "@memmove"):
        ex.memcpy(st, a[0], a[1], ex.ucanon(st, a[2]), ins, "move" in name); return [(st, a[0])]
    if name.startswith("@llvm.memset") or name == "@memset":
        b = a[1] if a[1].w == 8 else IntVal(8, a[1].lin)
        ex.memset(st, a[0], b, ex.ucanon(st, a[2]), ins); return [(st, a[0])]
    if name == "@strlen": return [(st, cstr_len(ex, st, a[0], ins))]
    if name == "@wcslen": return [(st, cstr_len(ex, st, a[0], ins, 32))]
    if name == "@memcmp": return memcmp(ex, st, a, ins)
    if name == "@wmemcmp": return memcmp(ex, st, a, ins, 32)
    if name == "@__cxa_allocate_exception":
        o = st.new_obj("exc", 256, None, "exception")
        return [(st, PtrVal(o.id, 0))]
    if name == "@__cxa_free_exception": return [(st, None)]
    if name == "@__cxa_throw":
        g = ins.args[1][1]
        ty = g.name if isinstance(g, E.Glob) else "?"
        return [(st, Throw({"type": ty, "ptr": a[0]}))]
    if name == "@__cxa_begin_catch": return [(st, a[0])]
    if name in ("@__cxa_end_catch", "@__cxa_rethrow"): return [(st, None)]
    if name == "@__clang_call_terminate" or name == "@_ZSt9terminatev" or name == "@abort":
        ex.fail(st, "terminate", "program termination reached", ins); raise PathEnd()
    if re.match(r"^@_ZNSt(13runtime_error|11logic_error|12out_of_range|16invalid_argument|12length_error|9exception|9bad_alloc)(C|D)[12]E", name):
        ex.trusted.add("construction of standard exception objects")
        return [(st, None)]
    if re.match(r"^@_ZSt\d+__throw_", name):
        return [(st, Throw({"type": name, "ptr": NULL}))]
    if name.startswith("@_ZNSaI"): return [(st, None)]     # std::allocator<char> ctor/dtor
    if name == "@__gxx_personality_v0": return [(st, IntVal(32, 0))]
    return None

def memcmp(ex, st, a, ins, w=8):
    """memcmp (unsigned bytes) / wmemcmp (signed 32-bit wchar_t)"""
    B = w // 8
    n = ex.ucanon(st, a[2])
    if n.is_const() and n.c == 0: return [(st, IntVal(32, 0))]
    res = []
    if not n.is_const():
        z, nz = st.fork(), st
        out = []
        if ex.feasible(z, n.z == 0):
            z.assume(n.z == 0); out.append((z, IntVal(32, 0)))
        if not ex.feasible(nz, n.z > 0): return out
        nz.assume(n.z > 0)
        st = nz; res = out
    ex.deref(st, a[0], n * B, False, ins, "memcmp"); ex.deref(st, a[1], n * B, False, ins, "memcmp")
    rr = []
    for p in a[:2]:
        fr = ex.region_for(st, p, n * B)
        rr.append((st.mem[p.obj].regions[fr[0]], fr[1]))
    (r1, i1), (r2, i2) = rr
    if r1.stride != B or r2.stride != B: raise ToolLimit("memcmp stride")
    j = z3.Int("j")
    for r, i in rr:
        ex.oblige(st, "uninit", ex.skolem(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n.z), z3.Select(r.live, i.z + j)))), "memcmp reads initialised bytes", ins, assume=False)
    d = ex.fresh_int(st, "cmp", -(1 << 31), (1 << 31) - 1)
    k = ex.fresh_int(st, "cmpk", 0, MAXBYTES)
    # k: the first difference (stated twice so that it can be instantiated from either side)
    for u, iu, v, iv in ((r1, i1, r2, i2), (r2, i2, r1, i1)):
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= iu.z, j < iu.z + k.z), z3.Select(u.arr, j) == z3.Select(v.arr, j - iu.z + iv.z)), patterns=[z3.Select(u.arr, j)]))
    st.assume(k.z <= n.z)
    x, y = z3.Select(r1.arr, i1.z + k.z), z3.Select(r2.arr, i2.z + k.z)
    sg = (lambda t: t) if w == 8 else (lambda t: z3.If(t >= 1 << 31, t - (1 << 32), t))
    st.assume(z3.If(k.z == n.z, d.z == 0, z3.And(x != y, (d.z < 0) == (sg(x) < sg(y)), d.z != 0)))
    res.append((st, IntVal(32, d)))
    return res
