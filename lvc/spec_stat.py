"""C20: statistics.  Samples are reals (or machine ints whose sums are
representable); each function's result is its textbook formula, with products
and quotients of unknowns kept uninterpreted."""
import z3
from sym import *
from speclib import *
from spec_vector import no_throw
from spec_numeric import Num, Acc, acc_cands, ranged, fits_all, MAXS, MINS, rat

SRC = "stat.cpp"
SQRT = z3.Function("sqrt", RealS, RealS)
D = Num("d")
N31 = (1 << 31) - 1

class Sum:
    """S(k) = f(0) + .. + f(k-1)"""
    T = D
    def __init__(self, st, a, f):
        self.f = z3.Function(fresh_name("sum"), IntS, RealS); i = z3.Int("i")
        st.assume(self.f(0) == 0); st.assume(z3.ForAll([i], z3.Implies(i >= 0, self.f(i + 1) == self.f(i) + f(i)), patterns=[a.at(i)]))
    def __call__(self, k): return self.f(k.z if isinstance(k, Lin) else k)

def interpreted(e, memo):
    """RMUL, RDIV become the real operations"""
    k = e.get_id()
    if k not in memo:
        ch = [interpreted(c, memo) for c in e.children()]
        d = e.decl()
        memo[k] = ch[0] * ch[1] / 2 if d.eq(RMUL) else ch[0] / ch[1] if d.eq(RDIV) else d(*ch) if ch else e
        if ch and d.kind() == z3.Z3_OP_AND: memo[k] = z3.And(*ch)
        if ch and d.kind() == z3.Z3_OP_OR: memo[k] = z3.Or(*ch)
        if ch and d.kind() == z3.Z3_OP_ADD: memo[k] = sum(ch[1:], ch[0])
        if ch and d.kind() == z3.Z3_OP_MUL:
            r = ch[0]
            for c in ch[1:]: r = r * c
            memo[k] = r
    return memo[k]
def same(u, st, x, y, msg, nz=()):
    """x == y, with products uninterpreted or, failing that, as polynomials (nz: denominators that are not 0)"""
    ex = u.ex; g = x == y
    if ex.mode != "infer" and not ex.prove(st, g):
        memo = {}; s = z3.Solver(); s.set("timeout", 8000)
        try:
            p = st.pc
            while p is not None:
                if p.e is not None and not p.q: s.add(interpreted(p.e, memo))
                p = p.p
            for d in nz: s.add(interpreted(d, memo) != 0)
            s.add(z3.Not(interpreted(g, memo)))
            if s.check() == z3.unsat: g = z3.BoolVal(True)
        except z3.Z3Exception: pass
    return u.check(st, "post", g, msg)

def units(mod):
    cu = Unit(mod, "cap"); cap = cu.run(cu.state(), "cap_", [])[0].val.lin.c
    def models(c):
        T = Num(c)
        return dict(V=VecModel(mod, type_of(mod, "ty_V" + c), "V" + c, kind=T.kind, stride=T.size), A=InModel(mod, type_of(mod, "ty_A" + c), "A" + c, cap, kind=T.kind, stride=T.size),
                    R=InModel(mod, type_of(mod, "ty_R" + c), "R" + c, cap, sized=False, kind=T.kind, stride=T.size))
    MD, MI = models("d"), models("i")
    U = {}
    def setup(u):
        ex = u.ex; ex.opaque_real = True
        ex.trusted.add("floating-point arithmetic is treated as real arithmetic (no rounding, NaN or infinity); sqrt is a function of its argument")
        h = lambda ex, st, ins, a: [(st, FVal(SQRT(a[0].r)))]
        for n in ("@sqrt", "@llvm.sqrt.f64"): ex.externs[n] = h
        for m in (MD["V"], MI["V"]):
            if m.ty.k == "named": ex.models[m.ty.a] = m
    def rng(st, a, lo): st.assume(z3.And(a.n.z >= lo, a.n.z <= N31))
    class Q:
        """the quantities of one sequence"""
        def __init__(s, u, st, a, T):
            s.u, s.st, s.a, s.T, s.ex = u, st, a, T, u.ex; ranged(st, a, T); s.accs = []
            s.x = lambda i: T.v(a.at(i)) if T.real else z3.ToReal(T.v(a.at(i)))
            s.N = z3.ToReal(a.n.z)
            if T.real: s.total = s.sum(s.x); s.tot = s.total(a.n)
            else:
                s.total = Acc(st, a, T, z3.IntVal(0), lambda p, e: p + e); fits_all(st, s.total, T, a.n); s.accs.append(s.total); s.tot = z3.ToReal(s.total(a.n))
                if a.n.is_const() and a.n.c <= 16: s.tot = z3.ToReal(z3.Sum([T.v(a.at(z3.IntVal(k))) for k in range(a.n.c)]))      # the same value, written out
            s.mean = s.ex.rdiv(s.tot, s.N)
        def sum(s, f): r = Sum(s.st, s.a, f); s.accs.append(r); return r
        def sq(s, f): return lambda i: s.ex.rmul(f(i), f(i))
        def dev(s, i): return s.x(i) - s.mean
        def var(s, b):
            t = s.sum(s.sq(s.dev)); s.terms.append(("sqdev", "real", s.sq(s.dev)))
            return s.ex.rdiv(t(s.a.n), s.N - 1 if b else s.N)
        terms = None
    def q_of(u, st, a, T): q = Q(u, st, a, T); q.terms = []; return q
    def go(u, qs, terms=()):
        accs = [x for q in qs for x in q.accs]; acc_cands(u, accs); u.ex.term_funs = [t for q in qs for t in q.terms] + list(terms)
    def own(*abs_): return {a.heap for a in abs_ if a.heap is not None}
    def one(name, S, c, lo, want):
        """scalar result of one sequence; want(q) -> value"""
        T = Num(c); m = (MD if c == "d" else MI)[S]
        def f(u):
            setup(u)
            for st, p, a in m.cases(u, "a", ro=True):
                if a.n.is_const() and a.n.c < lo: continue
                rng(st, a, lo); q = q_of(u, st, a, T); w = want(q); go(u, [q])
                for o in u.run(st, "%s_%s%s" % (name, S, c), [p]):
                    if no_throw(u, o): same(u, o.st, o.val.r, w, name + ": the formula"); u.no_leaks(o.st, own(a))
        U["%s_%s%s" % (name, S, c)] = f
    def lagged(name, S, c, bessel, adj, cor):
        T = Num(c); m = (MD if c == "d" else MI)[S]
        def f(u):
            setup(u)
            for st, p, a in m.cases(u, "a", ro=True):
                if a.n.is_const() and a.n.c < 2: continue
                rng(st, a, 2); lag = u.ex.fresh_int(st, "lag", 0, N31); st.assume(lag.z <= a.n.z - (2 if adj and bessel else 1 if adj else 0)); q = q_of(u, st, a, T)
                t = q.sum(lambda i: u.ex.rmul(q.dev(i), q.x(i + lag.z) - q.mean))
                den = q.N - (z3.ToReal(lag.z) if adj else 0) - (1 if bessel else 0)
                if adj: den = z3.ToReal(a.n.z - lag.z - (1 if bessel else 0))
                elif bessel: den = z3.ToReal(a.n.z - 1)
                w = u.ex.rdiv(t(a.n.z - lag.z), den)
                if cor: w = u.ex.rdiv(w, q.var(bessel))
                go(u, [q])
                for o in u.run(st, "%s_%s%s" % (name, S, c), [p, IntVal(32, lag)]):
                    if no_throw(u, o): same(u, o.st, o.val.r, w, name + ": the formula"); u.no_leaks(o.st, own(a))
        U["%s_%s%s" % (name, S, c)] = f
    def regi(q):
        """slope and intercept against the index"""
        ex = q.ex; mi = (q.N - 1) / 2; f = lambda i: ex.rmul(z3.ToReal(i) - mi, q.dev(i)); t = q.sum(f); q.terms.append(("ss_ia", "real", f))
        ssii = ex.rmul(q.N, ex.rmul(q.N, q.N) - 1) / 12; b1 = ex.rdiv(t(q.a.n), ssii)
        return b1, q.mean - ex.rmul(b1, mi), ssii
    def seqres(name, S, c, lo, want):
        """a sequence of reals from one sequence; want(q) -> f(i)"""
        T = Num(c); m = (MD if c == "d" else MI)[S]; r = MD[S]
        def f(u):
            setup(u)
            for st, p, a in m.cases(u, "a", ro=True):
                if a.n.is_const() and a.n.c < lo: continue
                rng(st, a, lo); q = q_of(u, st, a, T); w = want(q); q.terms.append((name, "real", w)); go(u, [q])
                out = r.raw(u, st, "out")
                if isinstance(r, VecModel): st.conts[(out.obj, 0)] = r
                for o in u.run(st, "%s_%s%s" % (name, S, c), [out, p]):
                    if no_throw(u, o): ow = own(a); r.expect(u, o.st, out, a.n, w, name, ow); u.no_leaks(o.st, ow)
        U["%s_%s%s" % (name, S, c)] = f
    def pairres(u, st, name, args, b1, b2, ow, nz=()):
        out = st.new_obj("param", 16, None, "out")
        for o in u.run(st, name, [PtrVal(out.id, 0)] + args):
            if not no_throw(u, o): continue
            vs = [(o.st.mem[out.id].cells.get(k) or (0, None))[1] for k in (0, 8)]
            if u.check(o.st, "post", all(isinstance(v, FVal) for v in vs), name + ": both coefficients are written"):
                same(u, o.st, vs[0].r, b1, name + ": slope", nz); same(u, o.st, vs[1].r, b2, name + ": intercept", nz)
            u.no_leaks(o.st, ow)
    def lri(S, c):
        T = Num(c); m = (MD if c == "d" else MI)[S]
        def f(u):
            setup(u)
            for st, p, a in m.cases(u, "a", ro=True):
                if a.n.is_const() and a.n.c < 2: continue
                rng(st, a, 2); q = q_of(u, st, a, T); b1, b2, ssii = regi(q); go(u, [q]); pairres(u, st, "lri_%s%s" % (S, c), [p], b1, b2, own(a), [ssii])
        U["lri_%s%s" % (S, c)] = f
    for S, c in (("V", "d"), ("A", "d"), ("R", "d"), ("V", "i"), ("R", "i")):
        one("mean", S, c, 1, lambda q: q.mean)
        for nm, b, lo in (("var", False, 1), ("varb", True, 2)): one(nm, S, c, lo, lambda q, b=b: q.var(b))
        for nm, b, lo in (("sd", False, 1), ("sdb", True, 2)): one(nm, S, c, lo, lambda q, b=b: SQRT(q.var(b)))
        if c == "d": one("rms", S, c, 1, lambda q: [q.terms.append(("sq", "real", q.sq(q.x))), SQRT(q.ex.rdiv(q.sum(q.sq(q.x))(q.a.n), q.N))][1])
        for b in (False, True):
            for adj in (False, True):
                for cor in (False, True): lagged(("acor" if cor else "acov") + ("b" if b else "") + ("a" if adj else ""), S, c, b, adj, cor)
        seqres("dc", S, c, 1, lambda q: q.dev); lri(S, c)
        def dt(q): b1, b2, _ = regi(q); return lambda i: q.x(i) - (q.ex.rmul(b1, z3.ToReal(i)) + b2)
        seqres("dt", S, c, 2, dt)
    def two(name, S, W, lo, want):
        def f(u):
            setup(u)
            for st0, p, a in MD[S].cases(u, "a", ro=True):
                if a.n.is_const() and a.n.c < lo: continue
                bs = [(s, q, b) for s, q, b in MD[W].cases(u, "b", ro=True, st=st0)]
                if S == W and name in ("cov", "covb", "cor", "corb", "lr"): bs.append((st0.fork(), p, a))
                for st, q, b in bs:
                    if b.n.is_const() and b.n.c < lo: continue
                    rng(st, a, lo)
                    if b is not a: st.assume(a.n.z == b.n.z)
                    if not u.ex.feasible_full(st): continue
                    x, y = q_of(u, st, a, D), q_of(u, st, b, D); w = want(u, x, y)
                    if isinstance(w, tuple): go(u, [x, y]); pairres(u, st, "%s_%s%s" % (name, S, W), [p, q], w[0], w[1], own(a, b)); continue
                    go(u, [x, y])
                    for o in u.run(st, "%s_%s%s" % (name, S, W), [p, q]):
                        if no_throw(u, o): same(u, o.st, o.val.r, w, name + ": the formula"); u.no_leaks(o.st, own(a, b))
        U["%s_%s%s" % (name, S, W)] = f
    def sse(u, x, y):
        f = x.sq(lambda i: x.x(i) - y.x(i)); t = x.sum(f); x.terms.append(("sqerr", "real", f)); return t(x.a.n)
    def mse(u, x, y): return u.ex.rdiv(sse(u, x, y), x.N)
    def cov(u, x, y, b):
        f = lambda i: u.ex.rmul(x.dev(i), y.dev(i)); t = x.sum(f); x.terms.append(("codev", "real", f)); return u.ex.rdiv(t(x.a.n), x.N - 1 if b else x.N)
    def cor(u, x, y, b): return u.ex.rdiv(cov(u, x, y, b), u.ex.rmul(SQRT(x.var(b)), SQRT(y.var(b))))
    def nmm(u, x, y):
        mx = Acc(x.st, y.a, D, D.lo, MAXS); mn = Acc(x.st, y.a, D, D.hi, MINS); x.accs += [mx, mn]
        return u.ex.rdiv(SQRT(mse(u, x, y)), mx(y.a.n) - mn(y.a.n))
    def lr(u, x, y):
        ab = lambda i: u.ex.rmul(x.dev(i), y.dev(i)); aa = x.sq(x.dev)
        x.terms += [("da", "real", x.dev), ("db", "real", y.dev), ("ab", "real", ab), ("aa", "real", aa)]
        b1 = u.ex.rdiv(x.sum(ab)(x.a.n), x.sum(aa)(x.a.n)); return b1, y.mean - u.ex.rmul(b1, x.mean)
    for S, W in (("V", "V"), ("A", "A"), ("R", "R"), ("V", "R")):
        two("sse", S, W, 1, sse); two("mse", S, W, 1, mse); two("rmse", S, W, 1, lambda u, x, y: SQRT(mse(u, x, y)))
        two("nme", S, W, 1, lambda u, x, y: u.ex.rdiv(SQRT(mse(u, x, y)), y.mean)); two("nmm", S, W, 1, nmm)
        for b in (False, True):
            two("cov" + "b" * b, S, W, 2, lambda u, x, y, b=b: cov(u, x, y, b)); two("cor" + "b" * b, S, W, 2, lambda u, x, y, b=b: cor(u, x, y, b))
        two("lr", S, W, 2, lr)
    return U
