"""C19: reductions and scalar helpers.  Integers are machine integers with the
exact result required wherever every exact intermediate result is representable;
floating point numbers are treated as reals."""
import z3, sys
from fractions import Fraction
from sym import *
from speclib import *
from spec_vector import no_throw

SRC = "numeric.cpp"
def rat(x): f = Fraction(x); return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
class Num:
    """an arithmetic type: element kind, value of a stored element, limits"""
    def __init__(self, c):
        self.c = c
        self.kind, self.size, self.ir = {"i": (("int", 32), 4, 32), "u": (("int", 64), 8, 64), "d": ("real", 8, "double")}[c]
        self.real = c == "d"; self.sort = RealS if self.real else IntS
        self.lo, self.hi = {"i": (-(1 << 31), (1 << 31) - 1), "u": (0, (1 << 64) - 1), "d": (rat(-sys.float_info.max), rat(sys.float_info.max))}[c]
    def v(self, t): return z3.If(t >= 1 << 31, t - (1 << 32), t) if self.c == "i" else t      # the value of a stored element
    def fits(self, x): return z3.And(x >= self.lo, x <= self.hi)
    def res(self, ex, st, val):
        if self.real: return val.r
        return (ex.scanon if self.c == "i" else ex.ucanon)(st, val).z
    def zero(self, k): return z3.RealVal(k) if self.real else z3.IntVal(k)
    def arg(self, u, st, name):
        o = st.new_obj("param", self.size, None, name); o.ro = True
        if self.real: x = fresh(name, RealS); o.cells[0] = (8, FVal(x)); st.assume(self.fits(x)); return PtrVal(o.id, 0), x
        l = u.ex.fresh_int(st, name, self.lo, self.hi); o.cells[0] = (self.size, IntVal(self.ir, l)); return PtrVal(o.id, 0), l.z
    def cls(self): return FVal if self.real else IntVal
    def cell(self, ex, s, v):
        if self.real: return v.r if isinstance(v, FVal) else None
        if not isinstance(v, IntVal) or v.w != self.ir: return None
        return (ex.scanon if self.c == "i" else ex.ucanon)(s, v).z

class Acc:
    """left fold of the sequence: ACC(0) = init, ACC(i+1) = step(ACC(i), value i)"""
    def __init__(self, st, a, T, init, step, n=None):
        self.f = z3.Function(fresh_name("acc"), IntS, T.sort); self.T = T; i = z3.Int("i")
        st.assume(self.f(0) == init); st.assume(z3.ForAll([i], z3.Implies(i >= 0, self.f(i + 1) == step(self.f(i), T.v(a.at(i)))), patterns=[a.at(i)]))
    def __call__(self, k): return self.f(k.z if isinstance(k, Lin) else k)
def acc_cands(u, accs):
    """candidates: a modified cell holds ACC(quantity)"""
    def h(ex, st, lv):
        out = []
        for acc in accs:
            for cn, get in lv.cells(acc.T.cls()):
                for q in lv.qs:
                    def at(s, get=get, q=q, acc=acc):
                        v, k = get(s), q.get(s)
                        if v is None or k is None: return z3.BoolVal(False)
                        x = acc.T.cell(ex, s, v)
                        return x == acc(k.z) if x is not None else z3.BoolVal(False)
                    out.append(("%s=acc(%s)" % (cn, q.name), at))
        return out
    u.ex.arith_hints = [h]

def MAXS(x, y): return z3.If(x > y, x, y)
def MINS(x, y): return z3.If(x < y, x, y)
def ranged(st, a, T, n=None):
    """element values lie in the type's range"""
    i = z3.Int("i")
    if T.real: st.assume(z3.ForAll([i], T.fits(a.at(i)), patterns=[a.at(i)]))
    else: st.assume(z3.ForAll([i], z3.And(a.at(i) >= 0, a.at(i) < 1 << (T.size * 8)), patterns=[a.at(i)]))
def fits_all(st, acc, T, n):
    i = z3.Int("i"); st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= n.z), T.fits(acc(i))), patterns=[acc(i)]))

def units(mod):
    cu = Unit(mod, "cap"); cap = cu.run(cu.state(), "cap_", [])[0].val.lin.c
    U = {}
    for c in "iud":
        T = Num(c)
        M = dict(V=VecModel(mod, type_of(mod, "ty_V" + c), "V" + c, kind=T.kind, stride=T.size), A=InModel(mod, type_of(mod, "ty_A" + c), "A" + c, cap, kind=T.kind, stride=T.size),
                 R=InModel(mod, type_of(mod, "ty_R" + c), "R" + c, cap, sized=False, kind=T.kind, stride=T.size))
        def mk(S, m, T):
            def fold(fn, accs_of, want, nonempty, pre=None):
                def f(u):
                    for st, p, a in m.cases(u, "a", ro=True):
                        if nonempty and a.n.is_const() and a.n.c == 0: continue
                        if nonempty: st.assume(a.n.z >= 1)
                        u.ex.opaque_mul = True; u.ex.opaque_real = True
                        if T.real: u.ex.trusted.add("floating-point arithmetic is treated as real arithmetic (no rounding, NaN or infinity)")
                        ranged(st, a, T); accs = accs_of(st, a); acc_cands(u, accs)
                        if pre: pre(st, a, accs)
                        for o in u.run(st, "%s_%s%s" % (fn, S, T.c), [p]):
                            if not no_throw(u, o): continue
                            u.check(o.st, "post", T.res(u.ex, o.st, o.val) == want(a, accs), fn + ": the result"); u.no_leaks(o.st, {a.heap} if a.heap is not None else ())
                U["%s_%s%s" % (fn, S, T.c)] = f
            z = T.zero
            lo, hi = (T.lo, T.hi) if T.real else (z3.IntVal(T.lo), z3.IntVal(T.hi))
            mx = lambda st, a: Acc(st, a, T, lo, MAXS); mn = lambda st, a: Acc(st, a, T, hi, MINS)
            fold("maxe", lambda st, a: [mx(st, a)], lambda a, x: x[0](a.n), True)
            fold("mine", lambda st, a: [mn(st, a)], lambda a, x: x[0](a.n), True)
            fold("mami", lambda st, a: [mx(st, a), mn(st, a)], lambda a, x: x[0](a.n) - x[1](a.n), True, lambda st, a, x: st.assume(T.fits(x[0](a.n) - x[1](a.n))))
            def nowrap(st, a, x):
                if not T.real: fits_all(st, x[0], T, a.n)
            fold("sum", lambda st, a: [Acc(st, a, T, z(0), lambda s, e: s + e)], lambda a, x: x[0](a.n), False, nowrap)
            def mulax(st, a, x):
                nowrap(st, a, x); P = rprod if T.real else engine.PROD; F = RMUL if T.real else P; p, q = z3.Consts("p q", T.sort)
                st.assume(z3.ForAll([p, q], P(p, q) == P(q, p), patterns=[P(p, q)])) if not T.real else None; st.assume(z3.ForAll([p], P(T.zero(1), p) == p, patterns=[F(T.zero(1), p)]))
            if T.c != "u": fold("prod", lambda st, a: [Acc(st, a, T, z(1), lambda s, e: (rprod if T.real else engine.PROD)(s, e))], lambda a, x: x[0](a.n), False, mulax)
        for S in "VAR": mk(S, M[S], T)
        def scal(T):
            def sc(name, n, want, pre=None, boolean=False):
                def f(u):
                    st = u.state(); ps, xs = zip(*[T.arg(u, st, "x%d" % k) for k in range(n)])
                    if T.real: u.ex.trusted.add("floating-point arithmetic is treated as real arithmetic (no rounding, NaN or infinity)")
                    if pre is not None: st.assume(pre(*xs))
                    cs = [(st, list(ps), list(xs))]
                    if n == 2:      # both arguments may be the same object
                        s2 = u.state(); p, x = T.arg(u, s2, "x")
                        if pre is not None: s2.assume(pre(x, x))
                        cs.append((s2, [p, p], [x, x]))
                    for st, ps, xs in cs:
                        for o in u.run(st, "s_%s_%s" % (name, T.c), ps):
                            if not no_throw(u, o): continue
                            r = zb(u.ex.boolval(o.st, o.val)) if boolean else T.res(u.ex, o.st, o.val)
                            u.check(o.st, "post", want(r, *xs), "%s: its defining equation" % name)
                U["s_%s_%s" % (name, T.c)] = f
            fit = lambda e: (lambda *x: T.fits(e(*x)))
            sc("max", 2, lambda r, a, b: z3.And(r >= a, r >= b, z3.Or(r == a, r == b)))
            sc("min", 2, lambda r, a, b: z3.And(r <= a, r <= b, z3.Or(r == a, r == b)))
            sc("clamp", 3, lambda r, l, h, x: z3.And(r >= l, r <= h, z3.Implies(z3.And(x >= l, x <= h), r == x), z3.Implies(x < l, r == l), z3.Implies(x > h, r == h)), lambda l, h, x: l <= h)
            wrap = (lambda r, e: (r - e) % (1 << 64) == 0) if T.c == "u" else (lambda r, e: r == e)
            ok = (lambda e: None) if T.c == "u" else fit
            if T.c != "u": sc("square", 1, lambda r, a: r == a * a, fit(lambda a: a * a))
            sc("abs", 1, lambda r, a: r == z3.If(a < 0, -a, a), fit(lambda a: z3.If(a < 0, -a, a)))
            sc("neg", 1, lambda r, a: wrap(r, -a), ok(lambda a: -a))
            sc("add", 2, lambda r, a, b: wrap(r, a + b), ok(lambda a, b: a + b)); sc("sub", 2, lambda r, a, b: wrap(r, a - b), ok(lambda a, b: a - b))
            if T.c != "u": sc("mul", 2, lambda r, a, b: r == a * b, fit(lambda a, b: a * b))
            if T.real: sc("div", 2, lambda r, a, b: r == a / b, lambda a, b: b != 0)
            for nm, op in (("eq", lambda a, b: a == b), ("neq", lambda a, b: a != b), ("gt", lambda a, b: a > b), ("lt", lambda a, b: a < b), ("geq", lambda a, b: a >= b), ("leq", lambda a, b: a <= b)):
                sc(nm, 2, lambda r, a, b, op=op: r == op(a, b), None, True)
        scal(T)
    def approx(fn, eps):
        def f(u):
            T = Num("d"); st = u.state(); (p, x), (q, y) = T.arg(u, st, "a"), T.arg(u, st, "b")
            if fn == "s_approx_f": st.w(p.obj).size = Lin({}, 4); st.w(p.obj).cells = {0: (4, FVal(x))}
            u.ex.trusted.add("floating-point arithmetic is treated as real arithmetic (no rounding, NaN or infinity)")
            for o in u.run(st, fn, [p, q]):
                if no_throw(u, o): d = z3.If(x < y, y - x, x - y); u.check(o.st, "post", zb(u.ex.boolval(o.st, o.val)) == (d <= rat(eps)), "approximately equal exactly when the distance is at most the machine epsilon of the more precise type")
        U[fn] = f
    approx("s_approx_d", sys.float_info.epsilon); approx("s_approx_f", sys.float_info.epsilon)
    def boolean(fn, n, want):
        def f(u):
            import itertools
            for bits in itertools.product((0, 1), repeat=n):
                st = u.state(); ps = []
                for b in bits: o = st.new_obj("param", 1, None, "b"); o.cells[0] = (1, IntVal(8, b)); o.ro = True; ps.append(PtrVal(o.id, 0))
                for o in u.run(st, fn, ps):
                    if no_throw(u, o): u.check(o.st, "post", zb(u.ex.boolval(o.st, o.val)) == z3.BoolVal(bool(want(*bits))), fn)
        U[fn] = f
    boolean("s_not", 1, lambda a: not a); boolean("s_and", 2, lambda a, b: a and b); boolean("s_or", 2, lambda a, b: a or b)
    def lemma_max(u):
        """a prefix maximum / minimum bounds every element and is one of them (induction on the length)"""
        for T in (Num("i"), Num("u"), Num("d")):
            for step, init, le in ((MAXS, T.lo, lambda x, y: x <= y), (MINS, T.hi, lambda x, y: x >= y)):
                st = u.state(); arr = fresh_arr("x", RealS if T.real else IntS); a = Abs(0, arr); ranged(st, a, T)
                acc = Acc(st, a, T, init if T.real else z3.IntVal(init), step)
                k = u.ex.fresh_int(st, "k", 1); j = u.ex.fresh_int(st, "j", 0); w = u.ex.fresh_int(st, "w", 0); u.cases += 1; u.covered += 1
                def touch(s, x): c = fresh("touch", arr.range()); s.assume(c == z3.Select(arr, x))
                s = st.fork(); touch(s, 0); u.check(s, "lemma", acc(1) == T.v(a.at(0)), "length 1: the result is the element")
                s = st.fork(); touch(s, k.z); touch(s, j.z); touch(s, w.z)
                s.assume(z3.And(j.z < k.z, le(T.v(a.at(j.z)), acc(k)), w.z < k.z, T.v(a.at(w.z)) == acc(k)))
                u.check(s, "lemma", z3.And(le(T.v(a.at(j.z)), acc(k.z + 1)), le(T.v(a.at(k.z)), acc(k.z + 1))), "the result bounds every element: step")
                u.check(s, "lemma", z3.Or(acc(k.z + 1) == T.v(a.at(w.z)), acc(k.z + 1) == T.v(a.at(k.z))), "the result is an element: step")
    U["lemma_max"] = lemma_max
    return U
