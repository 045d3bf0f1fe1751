"""C13: every sort yields an ordered permutation;  C14: the stable sorts are stable.

Elements are opaque; the strict weak order is any integer key.  The elements of
the input are told apart by a ghost function P with P(in[i]) == i (the code is
parametric in the elements, so distinct identities lose no generality).  A
result is a permutation of in[lo,hi) iff every element x of it satisfies
lo <= P(x) < hi and in[P(x)] == x and no two have the same P."""
import re
import z3
from sym import *
from speclib import *
import loops
from spec_vector import no_throw

SRC = "sort.cpp"
P = z3.Function("P", V, IntS)
KEY = externs.KEY
def lex(x, y): return z3.Or(KEY(x) < KEY(y), z3.And(KEY(x) == KEY(y), P(x) < P(y)))
def le(x, y): return KEY(x) <= KEY(y)
def neq(x, y): return P(x) != P(y)
def plt(x, y): return P(x) < P(y)
def lt(x, y): return KEY(x) < KEY(y)
RELS = dict(lex=lex, le=le, neq=neq, plt=plt, lt=lt)

def zz(x): return x.z if isinstance(x, Lin) else z3.IntVal(x) if isinstance(x, int) else x
def isvar(a): return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED
def all1(lo, hi, A, body):
    i = z3.Int("i"); f = z3.Implies(z3.And(i >= zz(lo), i < zz(hi)), body(i, z3.Select(A, i)))
    return z3.ForAll([i], f, patterns=[z3.Select(A, i)]) if isvar(A) else z3.ForAll([i], f)
def all2(l1, h1, A, l2, h2, B, rel, ordered=False):
    """for all p in [l1,h1), q in [l2,h2) (and p < q): rel(A[p], B[q])"""
    p, q = z3.Ints("p q"); x, y = z3.Select(A, p), z3.Select(B, q)
    g = z3.And(p >= zz(l1), p < zz(h1), q >= zz(l2), q < zz(h2), p < q if ordered else z3.BoolVal(True))
    f = z3.Implies(g, rel(x, y))
    return z3.ForAll([p, q], f, patterns=[z3.MultiPattern(x, y)]) if isvar(A) and isvar(B) else z3.ForAll([p, q], f)
def pairs(lo, hi, A, rel): return all2(lo, hi, A, lo, hi, A, rel, True)
def origin(lo, hi, A, A0, l, h): return all1(l, h, A, lambda i, x: z3.And(P(x) >= zz(lo), P(x) < zz(hi), z3.Select(A0, P(x)) == x))
def heap(A, r, n, but=None):
    """every element of [r,n) (except at `but`) is not less than its children below n"""
    k, c = z3.Ints("k c"); x, y = z3.Select(A, k), z3.Select(A, c)
    g = z3.And(k >= zz(r), c < zz(n), z3.Or(c == 2 * k + 1, c == 2 * k + 2), k != zz(but) if but is not None else z3.BoolVal(True))
    f = z3.Implies(g, KEY(x) >= KEY(y))
    return z3.ForAll([k, c], f, patterns=[z3.MultiPattern(x, y)]) if isvar(A) else z3.ForAll([k, c], f)
def rootmax(A, n): return all1(0, n, A, lambda i, x: KEY(x) <= KEY(z3.Select(A, 0)))

# RS(p, s): start of the run of length s that position p lies in (s * (p div s))
RS = z3.Function("run_start", IntS, IntS, IntS)
def rs_axioms():
    p, q, s, w = z3.Ints("p q s w"); a, b, c = RS(p, s), RS(q, s), RS(p, w)
    return [z3.ForAll([p, s], z3.Implies(z3.And(s > 0, p >= 0), z3.And(a >= 0, a <= p, p < a + s, RS(s, s) == s, RS(2 * s, s) == 2 * s, z3.Implies(z3.Or(p == 3 * s, p == 4 * s), a == p))), patterns=[a]),
            z3.ForAll([p, q, s], z3.Implies(z3.And(s > 0, p >= 0, p <= q), z3.And(z3.Or(a == b, a + s <= b), z3.Implies(q == p + s, b == a + s))), patterns=[z3.MultiPattern(a, b)]),
            z3.ForAll([p, s, w], z3.Implies(z3.And(s > 0, p >= 0, w == 2 * s), z3.Or(a == c, a == c + s)), patterns=[z3.MultiPattern(a, c)]),
            z3.ForAll([s], z3.Implies(s > 0, RS(0, s) == 0), patterns=[RS(0, s)])]
def i1(lo, hi, A, s, rel):
    """positions of [lo,hi) in the same run of length s are ordered"""
    p, q = z3.Ints("p q"); x, y = z3.Select(A, p), z3.Select(A, q); s = zz(s)
    f = z3.Implies(z3.And(p >= zz(lo), p < q, q < zz(hi), RS(p, s) == RS(q, s)), rel(x, y))
    return z3.ForAll([p, q], f, patterns=[z3.MultiPattern(x, y)]) if isvar(A) else z3.ForAll([p, q], f)
def i2(lo, hi, A, s):
    """elements of [lo,hi) come from the run of length s they are in"""
    return all1(lo, hi, A, lambda i, x: RS(P(x), zz(s)) == RS(i, zz(s)))

class Sorter:
    def __init__(self, mod, stable):
        self.mod, self.stable = mod, stable
        self.M = VecModel(mod, type_of(mod, "ty_V"), "V")
        self.rels = ["lex", "plt"] if stable else ["le", "neq"]
    # ------------------------------------------------ set-up of a unit
    def prep(self, u, own=None):
        ex = u.ex; self.own = own
        def cmp(f):
            def h(ex, st, ins, a):
                x = ex.e_read(st, a[0], ins, "comparison"); y = ex.e_read(st, a[1], ins, "comparison")
                return [(st, BoolV(f(KEY(x), KEY(y))))]
            return h
        ex.externs["@lt"] = cmp(lambda x, y: x < y)
        for k, f in (("lt", lambda x, y: x < y), ("gt", lambda x, y: x > y), ("le", lambda x, y: x <= y), ("ge", lambda x, y: x >= y)):
            ex.externs["@_Z%sRK1ES1_" % k] = cmp(f)
        ex.trusted.add("the comparison is a strict weak order (modelled by an integer key of each element) and does not throw")
        if self.M.ty.k == "named": ex.models[self.M.ty.a] = self.M
        ex.contracts = [(self.matcher(n), self.stub(n)) for n in CONTRACTS] + [(PUSH, lambda ex, st, ins, a: c_push(self, ex, st, ins, a))]
    def input(self, u):
        """a vector with storage, and one without"""
        for st, p, a in self.M.cases(u, "a"):
            if a.heap is not None: st.assume(all1(0, a.n, a.arr, lambda i, x: P(x) == i))
            yield st, p, a
    # ------------------------------------------------ contracts at call sites
    def matcher(self, n):
        rx = re.compile(r"^(?:[\w ]+ )?efp::%s<E, (By|bool \(E const&, E const&\)|bool \(\*\)\(E const&, E const&\))>\(" % n)
        return lambda name, dem: rx.match(dem) is not None
    def stub(self, n):
        def h(ex, st, ins, a):
            fn = ins.extra["callee"].name if hasattr(ins.extra["callee"], "name") else None
            if n == self.own and not any(self.matcher(n)(f.f.name, ex.short(f.f.name)) for f in st.frames): return None
            self.comparator(ex, st, a[-1], ins)
            return CONTRACTS[n](self, ex, st, ins, a)
        return h
    def comparator(self, ex, st, c, ins):
        """a function passed as comparator computes the order"""
        if isinstance(c, PtrVal) and c.obj is not None:
            o = st.mem[c.obj]
            v = (o.cells.get(c.off.c) or (0, None))[1] if c.off.is_const() else None
            if isinstance(v, FuncPtr): c = v
        if not isinstance(c, FuncPtr) or c.name == "@lt": return
        done = ex.__dict__.setdefault("cmp_ok", set())
        if c.name in done or ex.mode == "infer": return
        done.add(c.name)
        u = Unit(self.mod, "comparator"); keep = self.own
        S = Sorter(self.mod, self.stable); S.prep(u)
        s = u.state(); x, tx = u.elem(s, "x"); y, ty = u.elem(s, "y")
        for o in u.run(s, c.name[1:], [x, y]):
            if not no_throw(u, o): continue
            b = u.ex.boolval(o.st, o.val)
            u.check(o.st, "comparator", zb(b) == (KEY(tx) < KEY(ty)), "the comparison passed on is the order")
        for r in u.ex.obl: ex.obl.append(r)
        ex.functions |= u.ex.functions
    # ------------------------------------------------ helpers for stubs
    def vec(self, ex, st, p, what):
        u = Unit.__new__(Unit); u.ex = ex
        a = self.M.read(u, st, p, what)
        return u, a
    def permute(self, ex, st, p, lo, hi, ins):
        """havoc [lo,hi) to a permutation of itself; returns (old, new, pi)"""
        c = st.mem[p.obj].cells[p.off.c + self.M.o_data][1]
        r = st.w(c.obj).regions[0]
        B = r.arr; A = r.arr = fresh_arr("perm", V); pi = z3.Function(fresh_name("pi"), IntS, IntS)
        if not isvar(B):
            nm = fresh_arr("before", V); st.assume(nm == B); B = nm
        i = z3.Int("i"); lo, hi = zz(lo), zz(hi); pt = z3.Select(A, i)
        st.assume(z3.ForAll([i], z3.And(z3.Implies(z3.Or(i < lo, i >= hi), z3.Select(A, i) == z3.Select(B, i)),
                                        z3.Implies(z3.And(i >= lo, i < hi), z3.And(pi(i) >= lo, pi(i) < hi, pt == z3.Select(B, pi(i))))), patterns=[pt]))
        j, k = z3.Ints("p q"); x, y = z3.Select(A, j), z3.Select(A, k)
        st.assume(z3.ForAll([j, k], z3.Implies(z3.And(j >= lo, j < hi, k >= lo, k < hi, j != k), pi(j) != pi(k)), patterns=[z3.MultiPattern(x, y)]))
        return B, A, pi
    def order(self, st, A, pi, lo, hi, stable):
        p, q = z3.Ints("p q"); x, y = z3.Select(A, p), z3.Select(A, q)
        r = z3.Or(KEY(x) < KEY(y), z3.And(KEY(x) == KEY(y), pi(p) < pi(q))) if stable and self.stable else KEY(x) <= KEY(y)
        st.assume(z3.ForAll([p, q], z3.Implies(z3.And(p >= zz(lo), p < q, q < zz(hi)), r), patterns=[z3.MultiPattern(x, y)]))
    # ------------------------------------------------ loop invariants
    def hints(self, u, homes, cuts, a, blocked=None, rels=None, others=True, keys=True, extra=None, plus=False, fcuts=None, swaps=False, lts=False):
        rels0 = rels or self.rels; A0, block = a.arr, a.heap
        def h(ex, st, lv):
            out = []
            H = lv.Hs[-1]
            def succ(a, b):
                x, y = a.get(H), b.get(H)
                return a is not b and x is not None and y is not None and ex.prove(H, x.z + 1 == y.z, full=False)
            # of two cursors that are always neighbours the upper one is enough
            qs = [a for a in lv.qs if not any(succ(a, b) for b in lv.qs)]
            cs = [("spec%d" % k, (lambda s, t=t: t)) for k, t in enumerate(cuts)] + [(a.name, a.get) for a in qs]
            held = any(isinstance(v, EVal) for oid in st.top.allocas if oid in st.mem for sz, v in st.mem[oid].cells.values())
            rels = rels0 + (["lt"] if lts and not held and "lt" not in rels0 else [])
            if swaps and not held: cs += [(a.name + "@entry+1", (lambda s, a=a: a.x0 + 1)) for a in qs]    # no element is kept aside: the cursor carries it
            if plus or (swaps and not held): cs += [(a.name + "+1", (lambda s, a=a: loops.plus(a.get(s), 1))) for a in lv.qs]
            iv = loops.intervals(ex, lv.Hs, cs, set(a.name for a in lv.qs)) if fcuts is None else [p for c in cs[len(cuts):] for p in ((cs[0], c), (c, cs[1]))]
            ivf = iv if fcuts is None else [(c, ("f", lambda s, t=t: t)) for c in cs[len(cuts):] for t in fcuts]
            arrs = [(nm, g) for nm, g, r0 in lv.arrs if r0 is not None and any(r0 is r for r in st.mem[block].regions)] if block is not None and block in st.mem else []
            onlykeys = False
            if not arrs and swaps and block in st.mem and st.mem[block].regions:
                arrs = [("block", lambda s: s.mem[block].regions[0])]; onlykeys = True      # a search that changes nothing
            if not arrs: return []
            ck = cs + [(a.name + "+1", (lambda s, a=a: loops.plus(a.get(s), 1))) for a in lv.qs] + [(a.name + "@entry+1", (lambda s, a=a: a.x0 + 1)) for a in lv.qs]
            if fcuts is not None: ck = cs
            ivk = loops.intervals(ex, lv.Hs, ck, set(a.name for a in lv.qs))
            def bnd(s, I): return I[0][1](s), I[1][1](s)
            F = z3.BoolVal(False)
            fixed = []
            if others:
                mine = set(g(st).arr.get_id() for nm, g, r0 in lv.arrs if g(st) is not None)
                for o in st.mem.values():
                    if o.kind == "heap" and o.status == "live":
                        for k, r in enumerate(o.regions):
                            if r.kind == "E" and r.arr.get_id() not in mine: fixed.append(("fix%d" % o.id, lambda s, oid=o.id, k=k: s.mem[oid].regions[k]))
            for nm, g in arrs:
                def one(I, f, g=g):
                    def at(s):
                        lo, hi = bnd(s, I); r = g(s)
                        if lo is None or hi is None: return F
                        if r is None: return lo.z >= hi.z
                        return f(s, lo, hi, r.arr)
                    return at
                for I in (() if onlykeys else iv):
                    tag = "%s[%s,%s)" % (nm, I[0][0], I[1][0])
                    for l, hh in homes: out.append(("origin " + tag, one(I, lambda s, lo, hi, A, l=l, hh=hh: origin(l, hh, A, A0, lo, hi))))
                    for rn in rels: out.append(("%s %s" % (rn, tag), one(I, lambda s, lo, hi, A, rn=rn: pairs(lo, hi, A, RELS[rn]))))
                    for J in (iv if fcuts is None else ()):
                        if J is I: continue
                        def two(rn, I=I, J=J, g=g):
                            def at(s):
                                l1, h1 = bnd(s, I); l2, h2 = bnd(s, J); r = g(s)
                                if None in (l1, h1, l2, h2): return F
                                if r is None: return z3.BoolVal(True)
                                return all2(l1, h1, r.arr, l2, h2, r.arr, RELS[rn])
                            return at
                        for rn in rels:
                            if rn == "neq" and id(I) > id(J): continue
                            out.append(("%s %s x [%s,%s)" % (rn, tag, J[0][0], J[1][0]), two(rn)))
                    for fn, fg in fixed:
                        for J in ivf:
                            def two(rn, I=I, J=J, g=g, fg=fg):
                                def at(s):
                                    l1, h1 = bnd(s, I); l2, h2 = bnd(s, J); r = g(s)
                                    if None in (l1, h1, l2, h2): return F
                                    if r is None: return z3.BoolVal(True)
                                    return all2(l1, h1, r.arr, l2, h2, fg(s).arr, RELS[rn])
                                return at
                            for rn in rels: out.append(("%s %s x %s[%s,%s)" % (rn, tag, fn, J[0][0], J[1][0]), two(rn)))
                if keys:
                    for I in ivk:
                        tag = "%s[%s,%s)" % (nm, I[0][0], I[1][0])
                        for oid in st.top.allocas:
                            o = st.mem.get(oid)
                            if o is None: continue
                            for off, (sz, v) in o.cells.items():
                                if not isinstance(v, EVal): continue
                                def kk(f, I=I, g=g, oid=oid, off=off):
                                    def at(s):
                                        lo, hi = bnd(s, I); r = g(s); v = (s.mem[oid].cells.get(off) or (0, None))[1]
                                        if lo is None or hi is None or r is None or not isinstance(v, EVal): return F
                                        return all1(lo, hi, r.arr, lambda i, x: f(KEY(v.t), KEY(x)))
                                    return at
                                out.append(("%s < %s" % (o.name, tag), kk(lambda a, b: a < b)))
                                out.append(("%s <= %s" % (o.name, tag), kk(lambda a, b: a <= b)))
                                out.append(("%s > %s" % (o.name, tag), kk(lambda a, b: a > b)))
                                out.append(("%s >= %s" % (o.name, tag), kk(lambda a, b: a >= b)))
                if extra is not None: out += extra(ex, st, lv, nm, g)
            return out
        u.ex.hints = [h]; u.ex.terms = list(u.ex.terms) + list(cuts)
    # ------------------------------------------------ results
    def result(self, u, o, p, a, lo, hi, what, n=None):
        """[lo,hi) is an ordered permutation of what it was; the rest is untouched"""
        if not no_throw(u, o): return
        st = o.st
        own = set()
        b = self.M.read(u, st, p, what)
        if b is None: return
        u.check(st, "post-size", b.n.z == a.n.z, "%s: the length does not change" % what)
        if b.heap is not None: own.add(b.heap)
        u.no_leaks(st, own)
        if a.heap is None: return
        if b.heap is None: u.check(st, "post", False, "%s: the elements are kept" % what); return
        if not (lo == 0 and hi is a.n): u.check(st, "post-frame", forall(0, a.n, lambda i: z3.Or(z3.And(i >= zz(lo), i < zz(hi)), b.at(i) == a.at(i))), "%s: elements outside the range are untouched" % what)
        u.check(st, "post-permutation", origin(lo, hi, b.arr, a.arr, lo, hi), "%s: every element comes from the input" % what)
        if self.stable: u.check(st, "post-stable", pairs(lo, hi, b.arr, lex), "%s: ordered, equal elements in their original order" % what)
        else:
            u.check(st, "post-permutation", pairs(lo, hi, b.arr, neq), "%s: no element occurs twice" % what)
            u.check(st, "post-sorted", pairs(lo, hi, b.arr, le), "%s: ordered" % what)

# ---------------------------------------------------------------- contracts of the callees
PUSH_RX = re.compile(r"efp::(detail::)?Vector(Base)?<E, .*>::push_back\(E (const&|&&)\)$")
def PUSH(name, dem): return PUSH_RX.search(dem) is not None
def c_push(S, ex, st, ins, a):
    """Vector::push_back (verified under C01); conservatively, every push moves the elements to new storage"""
    u, v = S.vec(ex, st, a[0], "argument of push_back")
    if v is None: raise PathEnd()
    if "OE" in ins.extra["callee"].name.rsplit("push_back", 1)[1]: raise ToolLimit("push_back of a temporary")
    x = ex.e_read(st, a[1], ins, "argument of push_back")
    if v.heap is not None: st.w(v.heap).status = "freed"
    arr = fresh_arr("pushed", V)
    b = S.M.install(ex, st, a[0].obj, a[0].off.c, False, n=v.n + 1, arr=arr, name="pushed")
    i = z3.Int("i"); pt = z3.Select(arr, i)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.n.z), pt == v.at(i)), patterns=[pt])); st.assume(z3.Select(arr, v.n.z) == x)
    return [(st, None)]
def idx(ex, st, v): return ex.ucanon(st, v)
def c_ins(S, ex, st, ins, a):
    l, r = idx(ex, st, a[1]), idx(ex, st, a[2]); u, v = S.vec(ex, st, a[0], "argument of insertion_sort_by_")
    ex.oblige(st, "pre", z3.And(l.z <= r.z, r.z < v.n.z), "insertion_sort_by_: the range lies inside the vector", ins)
    B, A, pi = S.permute(ex, st, a[0], l, r + 1, ins); S.order(st, A, pi, l, r + 1, True)
    return [(st, None)]
def merge_pre(S, A, s, m, e):
    """both runs ordered (and, for stability, the left run's elements precede the right run's in the input)"""
    r = lex if S.stable else le
    out = [pairs(s, m + 1, A, r), pairs(m + 1, e + 1, A, r)]
    if S.stable: out.append(all2(s, m + 1, A, m + 1, e + 1, A, plt))
    return out
def c_merge(what):
    def c(S, ex, st, ins, a):
        s, m, e = (idx(ex, st, x) for x in a[1:4]); u, v = S.vec(ex, st, a[0], "argument of " + what)
        ex.oblige(st, "pre", z3.And(s.z <= m.z, m.z < e.z, e.z < v.n.z), "%s: two non-empty runs inside the vector" % what, ins)
        A0 = v.arr
        # proved for a ghost numbering of the elements by position; any other numbering used by the caller follows from it
        for g in merge_pre(S, A0, s, m, e)[:2 if not S.stable else 3]: ex.oblige(st, "pre", loops.goal_of(ex, g), "%s: the runs are ordered" % what, ins, assume=False)
        B, A, pi = S.permute(ex, st, a[0], s, e + 1, ins)
        if S.stable: st.assume(pairs(s, e + 1, A, lex))
        else: S.order(st, A, pi, s, e + 1, False)
        return [(st, None)]
    return c
def c_range(what, stable, empty_ok):
    def c(S, ex, st, ins, a):
        l, r = idx(ex, st, a[1]), idx(ex, st, a[2]); u, v = S.vec(ex, st, a[0], "argument of " + what)
        ex.oblige(st, "pre", z3.Implies(l.z < r.z, r.z < v.n.z), "%s: the range lies inside the vector" % what, ins)
        if S.own == what and hasattr(S, "measure"):
            ex.oblige(st, "termination", z3.Or(r.z - l.z < S.measure.z, r.z <= l.z), "%s: the recursion is on a smaller range" % what, ins)
        hi = Lin.of(Atom.of(z3.If(l.z <= r.z, r.z + 1, l.z), 0))
        B, A, pi = S.permute(ex, st, a[0], l, hi, ins); S.order(st, A, pi, l, hi, stable)
        return [(st, None)]
    return c
def c_part(S, ex, st, ins, a):
    l, r = idx(ex, st, a[1]), idx(ex, st, a[2]); u, v = S.vec(ex, st, a[0], "argument of partition_by")
    ex.oblige(st, "pre", z3.And(l.z < r.z, r.z < v.n.z), "partition_by: the range lies inside the vector", ins)
    B, A, pi = S.permute(ex, st, a[0], l, r + 1, ins)
    k = ex.fresh_int(st, "pivot", 0, BIG); st.assume(z3.And(l.z <= k.z, k.z <= r.z))
    for g in part_post(A, l, r, k): st.assume(g)
    return [(st, IntVal(64, k))]
def part_post(A, l, r, k):
    pv = KEY(z3.Select(A, k.z))
    return [all1(l, k, A, lambda i, x: KEY(x) < pv), all1(k, r + 1, A, lambda i, x: KEY(x) >= pv)]
def heap_pre(A, n, i, r):
    """a heap from r on, except possibly at i, whose parent already bounds i's children"""
    k, c = z3.Ints("k c"); x, y = z3.Select(A, k), z3.Select(A, c)
    g = z3.And(k >= zz(r), z3.Or(i.z == 2 * k + 1, i.z == 2 * k + 2), z3.Or(c == 2 * i.z + 1, c == 2 * i.z + 2), c < zz(n))
    f = z3.Implies(g, KEY(x) >= KEY(y))
    return [heap(A, r, n, i), z3.ForAll([k, c], f, patterns=[z3.MultiPattern(x, y)]) if isvar(A) else z3.ForAll([k, c], f)]
def c_heapify(S, ex, st, ins, a):
    n, i = idx(ex, st, a[1]), idx(ex, st, a[2]); u, v = S.vec(ex, st, a[0], "argument of max_heapify_by")
    ex.oblige(st, "pre", z3.And(i.z < n.z, n.z <= v.n.z), "max_heapify_by: the node lies inside the heap, the heap inside the vector", ins)
    r = S.root if S.own == "max_heapify_by" else i
    if S.own == "max_heapify_by": ex.oblige(st, "termination", i.z > S.node.z, "max_heapify_by: the recursion moves down", ins)
    for g in heap_pre(v.arr, n, i, r): ex.oblige(st, "pre", loops.goal_of(ex, g), "max_heapify_by: the rest is a heap", ins, assume=False)
    B, A, pi = S.permute(ex, st, a[0], i, n, ins)
    st.assume(heap(A, r, n))
    st.assume(z3.Implies(r.z == 0, rootmax(A, n)))          # lemma_heap
    return [(st, None)]
def c_whole(what, stable):
    def c(S, ex, st, ins, a):
        u, v = S.vec(ex, st, a[0], "argument of " + what)
        if v.heap is None: return [(st, None)]
        B, A, pi = S.permute(ex, st, a[0], 0, v.n, ins); S.order(st, A, pi, 0, v.n, stable)
        return [(st, None)]
    return c
CONTRACTS = {"insertion_sort_by_": c_ins, "timsort_merge": c_merge("timsort_merge"), "merge": c_merge("merge"),
    "merge_sort_by": c_range("merge_sort_by", True, True), "quicksort_by": c_range("quicksort_by", False, True), "partition_by": c_part, "max_heapify_by": c_heapify,
    "timsort_by": c_whole("timsort_by", True), "heapsort_by": c_whole("heapsort_by", False)}

def mk(S, U, cs):
    M = S.M
    def unit(f): U["%s_%s" % (f.__name__, cs)] = f; return f
    @unit
    def ins(u):
        S.prep(u, "insertion_sort_by_")
        for st, p, a in S.input(u):
            if a.heap is None: continue
            l, r = u.int(st, "left", 0, BIG), u.int(st, "right", 0, BIG)
            st.assume(z3.And(l.lin.z <= r.lin.z, r.lin.z < a.n.z))
            S.hints(u, [(l.lin, r.lin + 1)], [l.lin, r.lin + 1], a, swaps=True)
            for o in u.run(st, "ins_" + cs, [p, l, r]): S.result(u, o, p, a, l.lin, r.lin + 1, "insertion sort of a range")
    def merging(u, fname, own):
        S.prep(u, own)
        for st, p, a in S.input(u):
            if a.heap is None: continue
            s, m, e = (u.int(st, x, 0, BIG) for x in ("start", "mid", "end"))
            st.assume(z3.And(s.lin.z <= m.lin.z, m.lin.z < e.lin.z, e.lin.z < a.n.z))
            for g in merge_pre(S, a.arr, s.lin, m.lin, e.lin): st.assume(g)
            S.hints(u, [(s.lin, e.lin + 1)], [s.lin, m.lin + 1, e.lin + 1], a)
            if own == "merge":
                n1, n2 = m.lin - s.lin + 1, e.lin - m.lin; u.ex.terms = []
                u.ex.shifts = [s.lin, m.lin + 1]; u.ex.simple_cuts = True
                S.hints(u, [(s.lin, e.lin + 1)], [s.lin, e.lin + 1], a, fcuts=[n1, n2]); u.ex.terms += [n1, n2]
            for o in u.run(st, fname + cs, [p, s, m, e]): S.result(u, o, p, a, s.lin, e.lin + 1, "merge of two runs")
    @unit
    def tmerge(u): merging(u, "tmerge_", "timsort_merge")
    @unit
    def merge(u): merging(u, "merge_", "merge")
    def ranged(u, fname, own):
        S.prep(u, own)
        for st, p, a in S.input(u):
            for sub in (False, True):
                s = st.fork(); l, r = u.int(s, "left", 0, BIG), u.int(s, "right", 0, BIG)
                if sub:
                    if a.heap is None: continue
                    s.assume(z3.And(l.lin.z < r.lin.z, r.lin.z < a.n.z))
                else: s.assume(l.lin.z >= r.lin.z)
                S.measure = r.lin - l.lin
                if sub: S.hints(u, [(l.lin, r.lin + 1)], [l.lin, r.lin + 1], a)
                for o in u.run(s, fname + cs, [p, l, r]):
                    if sub: S.result(u, o, p, a, l.lin, r.lin + 1, own)
                    else: M.unchanged(u, o.st, p, a, own + " of an empty or one-element range", set())
    @unit
    def msort(u): ranged(u, "msort_", "merge_sort_by")
    if not S.stable:
        @unit
        def qsort(u): ranged(u, "qsort_", "quicksort_by")
        @unit
        def part(u):
            S.prep(u, "partition_by"); u.ex.signed64 = True
            for st, p, a in S.input(u):
                if a.heap is None: continue
                l, r = u.int(st, "low", 0, BIG), u.int(st, "high", 0, BIG)
                st.assume(z3.And(l.lin.z < r.lin.z, r.lin.z < a.n.z))
                S.hints(u, [(l.lin, r.lin + 1)], [l.lin, r.lin, r.lin + 1], a, plus=True, lts=True)
                for o in u.run(st, "part_" + cs, [p, l, r]):
                    if not no_throw(u, o): continue
                    k = u.ex.ucanon(o.st, o.val)
                    u.check(o.st, "post", z3.And(l.lin.z <= k.z, k.z <= r.lin.z), "partition_by: the pivot is in the range")
                    b = M.read(u, o.st, p, "partition_by"); u.no_leaks(o.st, {b.heap})
                    for g in part_post(b.arr, l.lin, r.lin, k): u.check(o.st, "post", g, "partition_by: smaller elements before the pivot, the rest after")
                    u.check(o.st, "post-frame", forall(0, a.n, lambda i: z3.Or(z3.And(i >= l.lin.z, i <= r.lin.z), b.at(i) == a.at(i))), "partition_by: elements outside the range are untouched")
                    u.check(o.st, "post-permutation", origin(l.lin, r.lin + 1, b.arr, a.arr, l.lin, r.lin + 1), "partition_by: every element comes from the input")
                    u.check(o.st, "post-permutation", pairs(l.lin, r.lin + 1, b.arr, neq), "partition_by: no element occurs twice")
        @unit
        def heapify(u):
            S.prep(u, "max_heapify_by")
            for st, p, a in S.input(u):
                if a.heap is None: continue
                n, i, r = u.int(st, "n", 0, BIG), u.int(st, "i", 0, BIG), u.int(st, "r", 0, BIG)
                st.assume(z3.And(r.lin.z <= i.lin.z, i.lin.z < n.lin.z, n.lin.z <= a.n.z))
                S.root, S.node = r.lin, i.lin
                for g in heap_pre(a.arr, n.lin, i.lin, r.lin): st.assume(g)
                def extra(ex, st, lv, nm, g):
                    """written as a loop: a heap from r on, except possibly at the cursor"""
                    out = []
                    for q in lv.qs:
                        for part in (0, 1):
                            def at(s, q=q, part=part):
                                x, rg = q.get(s), g(s)
                                if x is None or rg is None: return z3.BoolVal(False)
                                return heap_pre(rg.arr, n.lin, x, r.lin)[part]
                            out.append(("heap but at %s (%d)" % (q.name, part), at))
                    return out
                S.hints(u, [(i.lin, n.lin)], [i.lin, n.lin], a, extra=extra)
                for o in u.run(st, "heapify_" + cs, [p, n, i]):
                    if not no_throw(u, o): continue
                    b = M.read(u, o.st, p, "max_heapify_by"); u.no_leaks(o.st, {b.heap})
                    u.check(o.st, "post", heap(b.arr, r.lin, n.lin), "max_heapify_by: a heap results")
                    u.check(o.st, "post-frame", forall(0, a.n, lambda k: z3.Or(z3.And(k >= i.lin.z, k < n.lin.z), b.at(k) == a.at(k))), "max_heapify_by: elements outside the subtree's range are untouched")
                    u.check(o.st, "post-permutation", origin(i.lin, n.lin, b.arr, a.arr, i.lin, n.lin), "max_heapify_by: every element comes from the input")
                    u.check(o.st, "post-permutation", pairs(i.lin, n.lin, b.arr, neq), "max_heapify_by: no element occurs twice")
        @unit
        def lemma_heap(u):
            """a heap's root bounds every element: strong induction on the position"""
            st = u.state(); A = fresh_arr("A", V); n = u.int(st, "n", 1, BIG).lin; k = u.int(st, "k", 0, BIG).lin; par = u.int(st, "parent", 0, BIG).lin
            u.cases += 1; u.covered += 1
            st.assume(heap(A, 0, n)); st.assume(k.z < n.z); st.assume(all1(0, k, A, lambda i, x: KEY(x) <= KEY(z3.Select(A, 0))))
            st.assume(z3.Implies(k.z > 0, z3.Or(k.z == 2 * par.z + 1, k.z == 2 * par.z + 2)))
            for x in (k, par): t = fresh("t", V); st.assume(t == z3.Select(A, x.z))
            u.check(st, "lemma", KEY(z3.Select(A, k.z)) <= KEY(z3.Select(A, 0)), "the root of a heap is a maximum")
        @unit
        def heap_(u):
            S.prep(u, "heapsort_by")
            for st, p, a in S.input(u):
                def extra(ex, st, lv, nm, g):
                    out = []
                    for q in lv.qs:
                        for d in (0, 1):
                            def mk1(f, q=q, d=d):
                                def at(s):
                                    x, r = q.get(s), g(s)
                                    if x is None or r is None: return z3.BoolVal(False)
                                    return f(x + d, r.arr)
                                return at
                            out.append(("heap from %s+%d" % (q.name, d), mk1(lambda x, A: heap(A, x, a.n))))
                            out.append(("heap below %s+%d" % (q.name, d), mk1(lambda x, A: heap(A, 0, x))))
                            out.append(("root bounds below %s+%d" % (q.name, d), mk1(lambda x, A: rootmax(A, x))))
                            out.append(("root bounds at %s+%d" % (q.name, d), mk1(lambda x, A: z3.Implies(x.z == 0, rootmax(A, a.n)))))
                    return out
                S.hints(u, [(0, a.n)], [Lin({}, 0), a.n], a, extra=extra, plus=True)
                for o in u.run(st, "heap_" + cs, [p]): S.result(u, o, p, a, 0, a.n, "heapsort_by")
    @unit
    def tim(u):
        S.prep(u, "timsort_by"); rel = lex if S.stable else le
        for st, p, a in S.input(u):
            for ax in rs_axioms(): st.assume(ax)
            def extra(ex, st, lv, nm, g):
                out = []; F = z3.BoolVal(False)
                mod = set(q.name for q in lv.qs); seen = []
                ss = [(q.name, q.get) for q in lv.qs]
                for oid in st.top.allocas:
                    o = st.mem.get(oid)
                    for off, (sz, v) in (o.cells.items() if o is not None else ()):
                        if isinstance(v, IntVal) and v.w == 64 and v.lin != a.n and v.lin != Lin({}, 0) and not any(v.lin == t for t in seen) and not any(q.get(st) == v.lin for q in lv.qs if q.get(st) is not None):
                            seen.append(v.lin); ss.append(("$%d" % oid, lambda s, t=v.lin: t))
                ss = ss + [("2*" + n, lambda s, f=f: None if f(s) is None else f(s) * 2) for n, f in ss]
                def add(name, f):
                    out.append((name, lambda s: f(s, g(s).arr)))
                for sn, sf in ss:
                    def guard(f, sf=sf): return lambda s, A: F if sf(s) is None else f(s, sf(s), A)
                    add("runs of %s" % sn, guard(lambda s, k, A: i1(0, a.n, A, k, rel)))
                    if S.stable: add("stay in runs of %s" % sn, guard(lambda s, k, A: i2(0, a.n, A, k)))
                    for q in lv.qs:
                        if q.name == sn or "2*" + q.name == sn: continue
                        def gq(f, q=q, sf=sf): return lambda s, A: F if sf(s) is None or q.get(s) is None else f(s, sf(s), q.get(s), A)
                        add("%s starts a run of %s" % (q.name, sn), gq(lambda s, k, c, A: z3.And(k.z > 0, RS(c.z, k.z) == c.z)))
                        add("%s starts a double run of %s" % (q.name, sn), gq(lambda s, k, c, A: z3.And(k.z > 0, RS(c.z, (k * 2).z) == c.z, RS(c.z, k.z) == c.z)))
                        for nm2, lo, hi in (("below", lambda c: 0, lambda c: c), ("from", lambda c: c, lambda c: a.n)):
                            def lohi(c, lo=lo, hi=hi, nm2=nm2):
                                h = hi(c)
                                return zz(lo(c)), (zz(h) if nm2 == "from" else z3.If(h.z < a.n.z, h.z, a.n.z))
                            add("runs of %s %s %s" % (sn, nm2, q.name), gq(lambda s, k, c, A, lh=lohi: i1(lh(c)[0], lh(c)[1], A, k, rel)))
                            if S.stable: add("stay in runs of %s %s %s" % (sn, nm2, q.name), gq(lambda s, k, c, A, lh=lohi: i2(lh(c)[0], lh(c)[1], A, k)))
                if not S.stable: add("distinct", lambda s, A: pairs(0, a.n, A, neq))
                add("origin", lambda s, A: origin(0, a.n, A, a.arr, 0, a.n))
                return out
            u.ex.simple_cuts = True; u.ex.terms = [Lin({}, 32)]
            if a.heap is not None: S.hints(u, [], [], a, extra=extra, rels=[], keys=False, others=False)
            for o in u.run(st, "tim_" + cs, [p]): S.result(u, o, p, a, 0, a.n, "timsort_by")
    @unit
    def lemma_runs(u):
        """the facts about run_start, for run_start(p, s) = s * (p div s)"""
        st = u.state(); u.cases += 1; u.covered += 1
        ex = u.ex
        def run(nm, s, twice=False):
            q = u.int(st, "quot_" + nm, 0, BIG).lin.z; r = u.int(st, "rem_" + nm, 0, BIG).lin.z
            st.assume(r < s)
            return s * q, s * q + r, q
        s = u.int(st, "s", 1, BIG).lin.z
        a, p, qa = run("p", s); b, q, qb = run("q", s)
        u.check(st, "lemma", z3.And(a >= 0, a <= p, p < a + s), "run_start: bounds")
        t = st.fork(); t.assume(p <= q); t.assume(z3.Or(qa == qb, qa < qb, qa > qb))
        for h, g in ((qa <= qb, z3.Implies(qa < qb, s * (qa + 1) <= s * qb)), (qa > qb, z3.Implies(qa > qb, s * (qb + 1) <= s * qa))):
            w = t.fork(); w.assume(h); w.assume(z3.Implies(qa < qb, s * (qb - qa - 1) >= 0)); w.assume(z3.Implies(qa > qb, s * (qa - qb - 1) >= 0))
            u.check(w, "lemma", z3.Or(a == b, a + s <= b), "run_start: runs do not overlap")
        # uniqueness of quotients: s*x + r == s*y + t with remainders below s gives x == y
        def same_quotient(w, x, r, y, t, why):
            for lo, hi in ((x, y), (y, x)):
                v = w.fork(); v.assume(lo < hi)
                z = fresh("d", IntS); v.assume(z == hi - lo - 1); v.assume(z >= 0)
                u.check(v, "lemma", s * z >= 0, "run_start: " + why); v.assume(s * z >= 0)
                v.assume(s * z == s * hi - s * lo - s)                      # distributivity
                v.assume(s * x + r == s * y + t)
                u.check(v, "lemma", z3.BoolVal(False), "run_start: " + why)
        ra, rb = p - a, q - b
        same_quotient(st, qa + 1, ra, qb, rb, "a position one run length on lies in the next run")
        for k in range(5): same_quotient(st, qa, ra, z3.IntVal(k), z3.IntVal(0), "multiples of the run length start runs")
        h2 = u.int(st, "half", 0, BIG).lin.z; r2 = u.int(st, "rem2", 0, BIG).lin.z
        w = st.fork(); w.assume(r2 < 2 * s); w.assume(p == s * (2 * h2) + r2)
        for c, k in ((r2 < s, 0), (r2 >= s, 1)):
            v = w.fork(); v.assume(c); same_quotient(v, qa, ra, 2 * h2 + k, r2 - k * s, "a run is one half of a double run")
    def whole(uname, what, fname, own=None):
        def f(u):
            S.prep(u, own)
            for st, p, a in S.input(u):
                for o in u.run(st, fname, [p]): S.result(u, o, p, a, 0, a.n, what)
        U[uname] = f
    whole("isort_" + cs, "insertion_sort_by", "isort_" + cs)
    whole("sort_" + cs, "sort_by", "sort_" + cs)
    if not S.stable:
        whole("intro_" + cs, "size_trosort_by", "intro_" + cs)
        whole("unst_" + cs, "sort_unstable_by", "unst_" + cs)
    if cs == "fp":
        ds = dict(d_isort="insertion_sort", d_tim="timsort", d_sort="sort")
        if not S.stable: ds.update(d_quick="quicksort", d_heap="heapsort", d_intro="size_trosort", d_unst="sort_unstable")
        for n, what in ds.items(): whole(n, what, n)

SLOW = ["tim_by_stable", "tim_fp_stable", "tmerge_by", "tmerge_fp", "tmerge_by_stable", "tmerge_fp_stable", "tim_by", "tim_fp", "merge_by", "merge_fp"]
def units(mod):
    U = {}
    for stable in (False, True):
        for cs in ("by", "fp"):
            W = {}
            mk(Sorter(mod, stable), W, cs)
            for n, f in W.items(): U[n + ("_stable" if stable else "")] = f
    return U
