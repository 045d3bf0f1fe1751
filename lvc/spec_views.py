"""C05: views and slices denote exactly the requested range of their source"""
import z3
from sym import *
from speclib import *
from seqlib import *
import spec_prelude

SRC = "views.cpp"

def zmin(a, b): return z3.If(a < b, a, b)

def units(mod):
    M, cap = spec_prelude.models(mod)
    U = {}
    def outs(u, st):
        d = st.new_obj("param", 8, None, "data"); s = st.new_obj("param", 8, None, "size")
        return PtrVal(d.id, 0), PtrVal(s.id, 0)
    def denotes(u, o, d, s, a, lo, n, what):
        """the view is a[lo, lo+n)"""
        st = o.st
        dv = (st.mem[d.obj].cells.get(0) or (0, UNDEF))[1]; sv = (st.mem[s.obj].cells.get(0) or (0, UNDEF))[1]
        if dv is UNDEF or sv is UNDEF: u.check(st, "uninit", False, "%s: view is initialised" % what); return
        sz = u.ex.ucanon(st, sv)
        u.check(st, "post-size", sz.z == n, "%s: length of the view" % what)
        addr(u, st, dv, a, lo, n == 0, what)
    def addr(u, st, dv, a, lo, vacuous, what):
        if a.base is not None and isinstance(dv, PtrVal) and dv.obj == a.base.obj:
            u.check(st, "post", z3.Or(vacuous, dv.off.z == a.base.off.z + lo * a.stride), "%s: start of the view" % what)
        else: u.check(st, "post", vacuous, "%s: a non-empty view points into its source" % what)
    def frame(u, o, kind, p, a):
        own = {a.heap} if a.heap is not None else set()
        if kind in M: M[kind].unchanged(u, o.st, p, a, "source", own)
        u.no_leaks(o.st, own)
    def ptr_cases(u, fixed=None):
        """a pointer to n live elements; the null pointer for n = 0"""
        out = []
        if fixed is None:
            st = u.state(); out.append((st, [NULL, IntVal(64, 0)], Abs(0, fresh_arr("none", V))))
        st = u.state(); n = Lin({}, fixed) if fixed is not None else u.ex.fresh_int(st, "n", 0, BIG)
        q, arr = u.elems(st, n, "src")
        out.append((st, [q, IntVal(64, n)], Abs(n, arr, n, 0, None, q, 8)))
        return out
    def srcs(u, T):
        if T in ("VV", "AW", "RW"):
            for st, args, a in ptr_cases(u, cap if T == "RW" else None):
                if T == "AW": st.assume(a.n.z <= cap)
                yield st, args, a, None, None
        else:
            k = T[0]
            for st, p, a in M[k].cases(u, "a"): yield st, [p], a, k, p
    def rng(T, name, nargs, lo, n, pre=None, empty_throws=False):
        """name_T(args.., source, &data, &size) denotes a[lo, lo+n)"""
        def unit(u):
            prep(u)
            for st, sa, a, k, p in srcs(u, T):
                xs = [u.int(st, "x%d" % i, 0) for i in range(nargs)]; zs = [x.lin.z for x in xs]
                if pre is not None: st.assume(pre(a.n.z, *zs))
                if not u.ex.feasible_full(st): continue
                d, s = outs(u, st)
                for o in u.run(st, name + "_" + T, xs + sa + [d, s]):
                    if empty_throws:
                        if o.kind == "throw":
                            u.check(o.st, "throws", a.n.z == 0, "refused only when the sequence is empty"); frame(u, o, k, p, a); continue
                        u.check(o.st, "throws", a.n.z > 0, "an empty sequence is refused")
                    if not no_throw(u, o): continue
                    denotes(u, o, d, s, a, lo(a.n.z, *zs), n(a.n.z, *zs), name); frame(u, o, k, p, a)
        U["%s_%s" % (name, T)] = unit
    def elem(T, name, at):
        def unit(u):
            for st, sa, a, k, p in srcs(u, T):
                for o in u.run(st, name + "_" + T, sa):
                    if o.kind == "throw": u.check(o.st, "throws", a.n.z == 0, "refused only when the sequence is empty"); frame(u, o, k, p, a); continue
                    u.check(o.st, "throws", a.n.z > 0, "an empty sequence is refused")
                    addr(u, o.st, o.val, a, at(a.n.z), a.n.z == 0, name); frame(u, o, k, p, a)
        U["%s_%s" % (name, T)] = unit
    def isnull(T):
        def unit(u):
            for st, sa, a, k, p in srcs(u, T):
                for o in u.run(st, "isnull_" + T, sa):
                    if no_throw(u, o): u.check(o.st, "post", zb(u.ex.boolval(o.st, o.val)) == (a.n.z == 0), "is_null"); frame(u, o, k, p, a)
        U["isnull_" + T] = unit
    def wh(T, name, drop):
        def unit(u):
            prep(u)
            for st, sa, a, k, p in srcs(u, T):
                d, s = outs(u, st)
                cn = Count(st, a, lambda i: z3.Not(PR(a.at(i))))
                u.ex.arith_hints = []; count_hints(u, cn)
                for o in u.run(st, name + "_" + T, sa + [d, s]):
                    if not no_throw(u, o): continue
                    sv = (o.st.mem[s.obj].cells.get(0) or (0, UNDEF))[1]
                    if sv is UNDEF: u.check(o.st, "uninit", False, "view is initialised"); continue
                    m = u.ex.ucanon(o.st, sv)
                    cut = a.n - m if drop else m
                    st2 = o.st
                    u.check(st2, "post-size", z3.And(m.z >= 0, m.z <= a.n.z), "the view is inside the source")
                    u.check(st2, "post", cn.C(cut.z) == 0, "every element before the cut satisfies the predicate")
                    u.check(st2, "post", z3.Or(cut.z == a.n.z, z3.Not(PR(a.at(cut.z)))), "the first element after the cut does not")
                    denotes(u, o, d, s, a, cut.z if drop else z3.IntVal(0), m.z, name); frame(u, o, k, p, a)
        U["%s_%s" % (name, T)] = unit
    def ops(T):
        rng(T, "take", 1, lambda n, x: z3.IntVal(0), lambda n, x: zmin(x, n))
        rng(T, "drop", 1, lambda n, x: zmin(x, n), lambda n, x: n - zmin(x, n))
        def sl(n, x, y): return z3.If(zmin(y, n) > zmin(x, n), zmin(y, n) - zmin(x, n), 0)
        rng(T, "slice", 2, lambda n, x, y: zmin(x, n), sl)
        rng(T, "takeu", 1, lambda n, x: z3.IntVal(0), lambda n, x: x, pre=lambda n, x: x <= n)
        rng(T, "dropu", 1, lambda n, x: x, lambda n, x: n - x, pre=lambda n, x: x <= n)
        rng(T, "sliceu", 2, lambda n, x, y: x, lambda n, x, y: y - x, pre=lambda n, x, y: z3.And(x <= y, y <= n))
        rng(T, "tail", 0, lambda n: z3.IntVal(1), lambda n: n - 1, empty_throws=True)
        rng(T, "init", 0, lambda n: z3.IntVal(0), lambda n: n - 1, empty_throws=True)
        rng(T, "take2", 0, lambda n: z3.IntVal(0), lambda n: zmin(2, n))
        rng(T, "drop2", 0, lambda n: zmin(2, n), lambda n: n - zmin(2, n))
        elem(T, "head", lambda n: z3.IntVal(0)); elem(T, "last", lambda n: n - 1); isnull(T)
    for T in ("V", "A", "R", "Vm", "Am", "Rm", "VV", "AW", "RW"): ops(T)
    def clip(lo, hi):
        return (lambda n, *x: zmin(lo, n)), (lambda n, *x: zmin(hi(*x), n) - zmin(lo, n))
    for T in ("V", "A", "R", "Rm"):
        B = cap + 3
        rng(T, "takebig", 0, lambda n: z3.IntVal(0), lambda n: zmin(cap + 3, n))
        rng(T, "dropbig", 0, lambda n: zmin(cap + 3, n), lambda n: n - zmin(cap + 3, n))
        rng(T, "slice13", 0, lambda n: zmin(1, n), lambda n: zmin(3, n) - zmin(1, n))
        rng(T, "slicebig", 0, lambda n: zmin(cap - 1, n), lambda n: zmin(cap + 4, n) - zmin(cap - 1, n))
        rng(T, "slicedyn", 1, lambda n, y: zmin(1, n), lambda n, y: z3.If(zmin(y, n) > zmin(1, n), zmin(y, n) - zmin(1, n), 0))
    for T in ("Vm", "Am", "Rm", "VV"): wh(T, "takew", False); wh(T, "dropw", True)
    # ---- the view types themselves
    def ctor(T, name):
        def unit(u):
            for st, sa, a, k, p in srcs(u, T):
                d, s = outs(u, st)
                for o in u.run(st, name + "_" + T, sa + [d, s]):
                    if no_throw(u, o): denotes(u, o, d, s, a, z3.IntVal(0), a.n.z, name); u.no_leaks(o.st)
            if T != "RW":
                pass
        U["%s_%s" % (name, T)] = unit
    def nullctor(T):
        def unit(u):
            st = u.state(); n = u.int(st, "n", 1, BIG); d, s = outs(u, st)
            for o in u.run(st, "mk_" + T, [NULL, n, d, s]): u.check(o.st, "throws", o.kind == "throw", "a non-empty view of nothing is refused")
        U["null_" + T] = unit
    def acc(T, name, at, indexed=False):
        def unit(u):
            for st, sa, a, k, p in srcs(u, T):
                args = list(sa)
                if indexed:
                    i = u.int(st, "i", 0); st.assume(i.lin.z < a.n.z); args.append(i)
                    if not u.ex.feasible_full(st): continue
                for o in u.run(st, name + "_" + T, args):
                    if no_throw(u, o): addr(u, o.st, o.val, a, at(a.n.z, i.lin.z if indexed else None), z3.BoolVal(a.base is None), name)
        U["%s_%s" % (name, T)] = unit
    def scal(T, name, post):
        def unit(u):
            for st, sa, a, k, p in srcs(u, T):
                for o in u.run(st, name + "_" + T, sa):
                    if no_throw(u, o): u.check(o.st, "post", post(u, o, a), name)
        U["%s_%s" % (name, T)] = unit
    for T in ("VV", "AW", "RW"):
        for n in ("mk", "copy", "asg", "asgself"): ctor(T, n)
        nullctor(T)
        for n in ("idx", "idxc", "nth", "nthc"): acc(T, n, lambda n, i: i, True)
        for n in ("begin", "beginc", "dataf", "datafc", "datam"): acc(T, n, lambda n, i: z3.IntVal(0))
        for n in ("end", "endc"): acc(T, n, lambda n, i: n)
        scal(T, "len", lambda u, o, a: u.ex.ucanon(o.st, o.val).z == a.n.z)
        scal(T, "empty", lambda u, o, a: zb(u.ex.boolval(o.st, o.val)) == (a.n.z == 0))
        def eq(u, T=T):
            for st, sa, a, k, p in srcs(u, T):
                for same in (True, False):
                    if same: s2, sb, b = st.fork(), sa, a
                    else:
                        s2 = st.fork(); n2 = Lin({}, cap) if T == "RW" else u.ex.fresh_int(s2, "n2", 0, BIG)
                        if T == "AW": s2.assume(n2.z <= cap)
                        if a.base is not None:
                            # another range of the same block or of another one
                            k0 = u.ex.fresh_int(s2, "k0", 0, BIG); blk = s2.w(a.base.obj)
                            if T != "RW": s2.assume(k0.z + n2.z <= a.n.z); q = PtrVal(a.base.obj, a.base.off + k0 * 8); arr2 = a.arr; off2 = k0
                            else: q, arr2 = u.elems(s2, n2, "src2"); off2 = Lin({}, 0)
                        else: q, arr2 = u.elems(s2, n2, "src2"); off2 = Lin({}, 0)
                        sb = [q, IntVal(64, n2)]; b = Abs(n2, arr2, n2, off2, None, q, 8)
                    for o in u.run(s2, "eq_" + T, sa + sb):
                        if not no_throw(u, o): continue
                        r = zb(u.ex.boolval(o.st, o.val))
                        if same: u.check(o.st, "post", r, "views of the same range are equal")
                        else:
                            u.check(o.st, "post", z3.Implies(r, a.n.z == b.n.z), "equal views have the same length")
                            s3 = o.st.fork(); s3.assume(r)
                            u.check(s3, "post", forall(0, a.n, lambda i: a.at(i) == b.at(i)), "equal views have the same elements")
        U["eq_" + T] = eq
    def conv(name, T):
        def unit(u):
            for st, sa, a, k, p in srcs(u, T):
                d, s = outs(u, st)
                for o in u.run(st, name, sa + [d, s]):
                    if no_throw(u, o): denotes(u, o, d, s, a, z3.IntVal(0), a.n.z, name)
        U[name] = unit
    conv("conv_RA", "RW"); conv("conv_RV", "RW"); conv("conv_AV", "AW")
    def conveq(name, T):
        def unit(u):
            for st, sa, a, k, p in srcs(u, T):
                for o in u.run(st, name, sa):
                    if no_throw(u, o): u.check(o.st, "post", zb(u.ex.boolval(o.st, o.val)), "a converted view equals a view of the same range")
        U[name] = unit
    conveq("conveq_AV", "AW"); conveq("conveq_RV", "RW")
    U["lemma_count"] = count_lemma
    return U
