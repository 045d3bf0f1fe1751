"""C11: append, concat, intercalate, cartesian_*"""
import z3
from sym import *
from speclib import *
from seqlib import *
import spec_prelude

SRC = "append.cpp"
MARK = {k: z3.Function("visited%d" % k, *([V] * k + [z3.BoolSort()])) for k in (2, 3)}

def offs_hints(u, fs, gap=None):
    """candidates: q == S(r), q == q@entry + S(r) - S(r@entry); gap=(o, d): q == S(r) - d once r > 0 (the
    separator is written before each part but the first)"""
    def h(ex, st, lv):
        out = []
        for o in fs:
            for q in lv.qs:
                for r in lv.qs:
                    if q is r: continue
                    def at(s, q=q, r=r, o=o):
                        a, b = q.get(s), r.get(s)
                        if a is None or b is None: return z3.BoolVal(False)
                        o.unfold(s, b.z); return a.z == o.S(b.z)
                    def at2(s, q=q, r=r, o=o):
                        a, b = q.get(s), r.get(s)
                        if a is None or b is None: return z3.BoolVal(False)
                        o.unfold(s, b.z); return a.z - q.x0.z == o.S(b.z) - o.S(r.x0.z)
                    out.append(("%s=%s(%s)" % (q.name, o.S, r.name), at))
                    if not (q.x0.is_const() and r.x0.is_const()): out.append(("d(%s)=d(%s(%s))" % (q.name, o.S, r.name), at2))
        if gap:
            o, d = gap
            for q in lv.qs:
                for r in lv.qs:
                    if q is r: continue
                    def at3(s, q=q, r=r):
                        a, b = q.get(s), r.get(s)
                        if a is None or b is None: return z3.BoolVal(False)
                        u.ex.inner_fact(s, b.z - 1); o.unfold(s, b.z); return a.z == z3.If(b.z <= 0, 0, o.S(b.z) - d)
                    out.append(("%s=%s(%s)-gap" % (q.name, o.S, r.name), at3))
        return out
    u.ex.arith_hints = [h]

class Offsets:
    """S(0)=0, S(i+1)=S(i)+step(i): start of the i-th part.  The definition and its (separately proved)
    monotonicity are instantiated at the terms where they are needed."""
    def __init__(self, st, step, n, name="off"):
        self.S = S = z3.Function(fresh_name(name), IntS, IntS); self.step, self.n = step, n; self.key = "$unf" + str(S)
        st.assume(S(0) == 0); st.assume(S(n) >= 0)
    def unfold(self, st, t):
        done = st.ghost.get(self.key, frozenset())
        if t.get_id() in done: return
        st.ghost[self.key] = done | {t.get_id()}
        S, n = self.S, self.n
        st.assume(z3.Implies(t >= 0, z3.And(S(t + 1) == S(t) + self.step(t), S(t) >= 0, self.step(t) >= 0)))
        st.assume(z3.Implies(z3.And(t >= 0, t < n), z3.And(S(t + 1) <= S(n)))); st.assume(z3.Implies(z3.And(t >= 0, t <= n), S(t) <= S(n)))
        st.assume(z3.Implies(t == n, S(t) == S(n)))
        st.assume(z3.Implies(t == 0, S(t) == 0))

def offsets_lemma(u):
    """monotonicity of Offsets by induction, and S(i) == i*c for a constant step; S2(i) == S(i)+i*d"""
    st = u.state(); S = z3.Function("lemS", IntS, IntS); S2 = z3.Function("lemS2", IntS, IntS); L = z3.Function("lemL", IntS, IntS); i = z3.Int("i")
    k = u.ex.fresh_int(st, "k", 0).z; m = u.ex.fresh_int(st, "m", 0).z; c = u.ex.fresh_int(st, "c", 0).z
    u.cases += 1; u.covered += 1
    def ax(s, S, step, at):
        s.assume(S(0) == 0)
        for t in at: s.assume(S(t + 1) == S(t) + step(t)); s.assume(step(t) >= 0)
    s = st.fork(); ax(s, S, L, [k]); s.assume(S(k) >= 0); u.check(s, "lemma", S(k + 1) >= 0, "offsets are not negative: step")
    s = st.fork(); ax(s, S, L, [k, m]); s.assume(m >= k); s.assume(S(k) <= S(m)); u.check(s, "lemma", S(k) <= S(m + 1), "offsets are monotone: step")
    s = st.fork(); ax(s, S, lambda t: c, [k]); s.assume(S(k) == k * c); u.check(s, "lemma", z3.simplify(z3.Implies(S(k) == k * c, S(k) + c == k * c + c)), "constant step: step"); 
    s = st.fork(); p = fresh("kc", IntS); s.assume(S(k) == p); s.assume(S(k + 1) == S(k) + c); u.check(s, "lemma", S(k + 1) == p + c, "constant step")
    s = st.fork(); p = fresh("kd", IntS); s.assume(S2(k) == S(k) + p); s.assume(S(k + 1) == S(k) + L(k)); s.assume(S2(k + 1) == S2(k) + L(k) + c); u.check(s, "lemma", S2(k + 1) == S(k + 1) + (p + c), "delimiter offsets")

def units(mod):
    M, cap = spec_prelude.models(mod)
    def T(n): return type_of(mod, "ty_" + n)
    X = dict(R2=InModel(mod, T("R2"), "R2", 2 * cap, sized=False), A2=InModel(mod, T("A2"), "A2", 2 * cap), AN=InModel(mod, T("AN"), "AN", cap * (cap + 1)),
             AI=InModel(mod, T("AI_"), "AI_", (cap + 1) * 2 * cap - cap), R6=InModel(mod, T("R6"), "R6", 6, sized=False), R7=InModel(mod, T("R7"), "R7", 7, sized=False),
             R1=InModel(mod, T("R1"), "R1", 1, sized=False), R4=InModel(mod, T("R4"), "R4", 4, sized=False), AP=InModel(mod, T("AP"), "AP", cap * cap), A6=InModel(mod, T("A6"), "A6", 6))
    X.update(M); U = {}
    own_of = lambda *xs: set(a.heap for a in xs if a.heap is not None)
    def setup(u, trace=None, blocks=()):
        prep(u, trace); E = u.ex.externs; u.ex.simple_cuts = True; u.ex.opaque_mul = True
        if M["V"].ty.k == "named": u.ex.models[M["V"].ty.a] = M["V"]
        def ptrs(ex, st, ins, a):
            ts = []
            for k, p in enumerate(a):
                b = blocks[k]
                ex.oblige(st, "post", p.obj == b.obj, "the visitor gets the caller's own element", ins)
                ex.oblige(st, "post", (p.off - b.off).divisible(8), "the visitor gets a whole element", ins)
                ts.append((p.off - b.off).div(8).z)
            if len(ts) > 1: ex.cell(st, *ts)
            trace.add(ex, st, ts); return [(st, None)]
        def visv(ex, st, ins, a):
            ts = [ex.e_read(st, p, ins, "argument") for p in a]
            st.assume(MARK[len(ts)](*ts))      # constantly true: shows the solver the visited combination
            trace.add(ex, st, ts); return [(st, None)]
        def visx2(ex, st, ins, a):
            ts = [ex.ucanon(st, p).z for p in a]; ex.cell(st, *ts); trace.add(ex, st, ts); return [(st, None)]
        E["@visx2"] = visx2
        def visx3(ex, st, ins, a):
            ts = [ex.ucanon(st, p).z for p in a]; ex.cell(st, *ts); trace.add(ex, st, ts); return [(st, None)]
        E["@visp"] = ptrs; E["@visp2"] = ptrs; E["@vis2"] = visv; E["@vis3"] = visv; E["@visx3"] = visx3
    def out(u, st, m):
        p = m.raw(u, st, "out")
        if isinstance(m, VecModel): st.conts[(p.obj, 0)] = m
        return p
    def fin(u, o, own): u.no_leaks(o.st, own)
    # ---------------- append
    def pairs(u, A, B, ro=True, alias=True):
        for st, p, a in M[A].cases(u, "a", ro=ro):
            for st2, q, b in M[B].cases(u, "b", ro=ro, st=st): yield st2, p, a, q, b
        if A == B and alias:
            for st, p, a in M[A].cases(u, "a", ro=ro): yield st, p, a, p, a
    def app(A, B, r):
        def unit(u):
            setup(u); m = X[r]
            for st, p, a, q, b in pairs(u, A, B):
                if isinstance(m, VecModel): st.assume(a.n.z + b.n.z <= BIG)
                w = out(u, st, m); want = lambda i: z3.If(i < a.n.z, a.at(i), b.at(i - a.n.z))
                u.ex.term_funs = [("appended", "E", want)]
                for o in u.run(st, "app_" + A + B, [w, p, q]):
                    if no_throw(u, o): own = own_of(a, b); m.expect(u, o.st, w, a.n + b.n, want, "append", own); fin(u, o, own)
        U["append_" + A + B] = unit
    for t in (("V", "V", "V"), ("V", "R", "V"), ("R", "V", "V"), ("A", "V", "V"), ("S", "V", "V"), ("V", "S", "V"), ("A", "A", "A2"), ("A", "R", "A2"), ("R", "R", "R2")): app(*t)
    def app1(u):
        setup(u); m = M["V"]
        for st, p, a in m.cases(u, "a", ro=True):
            w = out(u, st, m); u.ex.term_funs = [("src", "E", a.at)]
            for o in u.run(st, "app1_V", [w, p]):
                if no_throw(u, o): own = own_of(a); m.expect(u, o.st, w, a.n, a.at, "append", own); fin(u, o, own)
    def app3(u):
        setup(u); m = M["V"]
        for st, p, a, q, b in pairs(u, "V", "R"):
            for st2, s, c in M["V"].cases(u, "c", ro=True, st=st):
                st2.assume(a.n.z + b.n.z + c.n.z <= BIG)
                w = out(u, st2, m); want = lambda i: z3.If(i < a.n.z, a.at(i), z3.If(i < a.n.z + b.n.z, b.at(i - a.n.z), c.at(i - a.n.z - b.n.z)))
                u.ex.term_funs = [("appended", "E", want)]
                for o in u.run(st2, "app3_VRV", [w, p, q, s]):
                    if no_throw(u, o): own = own_of(a, b, c); m.expect(u, o.st, w, a.n + b.n + c.n, want, "append", own); fin(u, o, own)
    U["append_1"] = app1; U["append_3"] = app3
    # ---------------- nested sources
    def nested(u, st, outer, capn=None, capl=None):
        """opaque sequence of n sequences of L(i) elements X(i,j)"""
        L = z3.Function(fresh_name("len"), IntS, IntS); Xf = z3.Function(fresh_name("item"), IntS, IntS, V); i, j = z3.Ints("i j")
        n = u.ex.fresh_int(st, "outer", 0, BIG if capn is None else capn)
        st.assume(z3.ForAll([i], z3.And(L(i) >= 0, L(i) <= (BIG if capl is None else capl)), patterns=[L(i)]))
        of = u.param(st, T(outer), "nested", ro=True)
        E = u.ex.externs; inner_name = "S" if outer == "N" else "SC"
        def length_outer(ex, st, ins, a):
            ex.oblige(st, "pre", a[0].obj == of.id, "length of the given sequence", ins); return [(st, IntVal(64, n))]
        def nth_outer(ex, st, ins, a):
            ex.oblige(st, "pre", a[1].obj == of.id, "nth of the given sequence", ins)
            k = ex.ucanon(st, a[0]); ex.oblige(st, "bounds", k.z < n.z, "nth is called inside the outer sequence", ins)
            o = st.new_obj("param", 8, None, "inner"); o.ro = True
            d = dict(st.ghost.get("$inner", {})); d[o.id] = k; st.ghost["$inner"] = d
            return [(st, PtrVal(o.id, 0))]
        def length_inner(ex, st, ins, a):
            k = st.ghost["$inner"][a[0].obj]; ex.inner_fact(st, k.z)
            return [(st, IntVal(64, Lin.of(Atom.of(L(k.z), 0, BIG if capl is None else capl))))]
        def nth_inner(ex, st, ins, a):
            if a[1].obj not in st.ghost.get("$inner", {}): return h_nth(ex, st, ins, a)
            k = st.ghost["$inner"][a[1].obj]; jj = ex.ucanon(st, a[0])
            ex.oblige(st, "bounds", jj.z < L(k.z), "nth is called inside the inner sequence", ins)
            ex.inner_fact(st, k.z); ex.item_fact(st, k.z, jj.z)
            o = st.new_obj("param", 8, None, "item"); o.ro = True; o.cells[0] = (8, EVal(Xf(k.z, jj.z)))
            return [(st, PtrVal(o.id, 0))]
        E["@_Z6lengthRK%d%s" % (len(outer), outer)] = length_outer; E["@_Z3nthmRK%d%s" % (len(outer), outer)] = nth_outer
        E["@_Z6lengthRK%d%s" % (len(inner_name), inner_name)] = length_inner; E["@_Z3nthmRK%d%s" % (len(inner_name), inner_name)] = nth_inner
        return PtrVal(of.id, 0), n, L, Xf
    def concat(outer, r):
        def unit(u):
            setup(u); m = X[r]; st = u.state()
            bnd = {} if outer == "N" else dict(capn=cap + 1, capl=cap)
            p, n, L, Xf = nested(u, st, outer, **bnd)
            O = Offsets(st, lambda i: L(i), n.z); S = O.S
            C = z3.Function(fresh_name("concat"), IntS, V)
            u.ex.inner_fact = lambda st, i: O.unfold(st, i)
            u.ex.item_fact = lambda st, i, j: st.assume(z3.Implies(z3.And(i >= 0, i < n.z, j >= 0, j < L(i)), C(S(i) + j) == Xf(i, j)))
            tot = Lin.of(Atom.of(S(n.z), 0, BIG)); st.assume(S(n.z) <= BIG)
            if outer == "NC": st.assume(S(n.z) <= n.z * cap)
            offs_hints(u, [O]); u.ex.terms = [tot]; u.ex.term_funs = [("concat", "E", C)]
            w = out(u, st, m)
            for o in u.run(st, "concat_" + outer, [w, p]):
                if no_throw(u, o): own = set(); m.expect(u, o.st, w, tot, C, "concat", own); fin(u, o, own)
        U["concat_" + outer] = unit
    concat("N", "V"); concat("NC", "AN")
    def inter(D, outer, r, fname):
        def unit(u):
            setup(u); m = X[r]
            for st, q, dl in M[D].cases(u, "delim", ro=True):
                bnd = {} if outer == "N" else dict(capn=cap + 1, capl=cap)
                p, n, L, Xf = nested(u, st, outer, **bnd)
                d = dl.n.z
                O = Offsets(st, lambda i: L(i), n.z); O2 = Offsets(st, lambda i: L(i) + d, n.z, name="off2"); S = O.S; S2 = O2.S; j = z3.Int("j")
                st.assume(z3.Implies(n.z > 0, z3.And(S2(n.z - 1) + L(n.z - 1) + d == S2(n.z)))); st.assume(z3.Implies(n.z > 0, S2(n.z) == S(n.z) + mulz(u, st, n, dl.n)))
                if isinstance(dl.n, Lin) and not dl.n.is_const(): st.assume(z3.Implies(n.z > 0, mulz(u, st, n, dl.n) == mulz(u, st, n - 1, dl.n) + d))
                C = z3.Function(fresh_name("inter"), IntS, V)
                def inner_fact(st, i):
                    O.unfold(st, i); O2.unfold(st, i)
                    key = "$dl" + str(C); done = st.ghost.get(key, frozenset())
                    if i.get_id() in done: return
                    st.ghost[key] = done | {i.get_id()}
                    st.assume(z3.Implies(z3.And(i >= 0, i < n.z - 1), S2(i + 1) <= S2(n.z - 1)))
                    st.assume(z3.ForAll([j], z3.Implies(z3.And(i >= 0, i < n.z - 1, j >= 0, j < d), C(S2(i) + L(i) + j) == dl.at(j)), patterns=[dl.at(j)]))
                u.ex.inner_fact = inner_fact
                u.ex.item_fact = lambda st, i, j: st.assume(z3.Implies(z3.And(i >= 0, i < n.z, j >= 0, j < L(i)), C(S2(i) + j) == Xf(i, j)))
                tot = z3.If(n.z == 0, 0, S2(n.z - 1) + L(n.z - 1)); st.assume(z3.And(S(n.z) <= BIG, S2(n.z) <= BIG)); 
                if outer == "NC": st.assume(z3.And(S(n.z) <= n.z * cap, S2(n.z) <= n.z * cap + n.z * d, z3.Implies(n.z > 0, S2(n.z) - d <= n.z * cap + (n.z - 1) * cap)))
                offs_hints(u, [O, O2], (O2, d)); u.ex.terms = [Lin.of(Atom.of(tot, 0, BIG))]; u.ex.term_funs = [("intercalate", "E", C)]
                w = out(u, st, m)
                for o in u.run(st, fname, [w, q, p]):
                    if no_throw(u, o): own = own_of(dl); m.expect(u, o.st, w, Lin.of(Atom.of(tot, 0, BIG)), C, "intercalate", own); fin(u, o, own)
        U["intercalate_" + D + outer] = unit
    inter("V", "N", "V", "inter_VN"); inter("R", "N", "V", "inter_RN"); inter("A", "NC", "AI", "inter_ANC")
    def concat_rr(u):
        setup(u); st = u.state(); o0 = u.param(st, T("RR3"), "a", ro=True); arr = fresh_arr("a", V)
        o0.regions.append(Region(0, 8, Lin({}, 6), "E", arr, z3.K(IntS, z3.BoolVal(True)))); w = out(u, st, X["R6"])
        for o in u.run(st, "concat_RR", [w, PtrVal(o0.id, 0)]):
            if no_throw(u, o): X["R6"].expect(u, o.st, w, 6, lambda i: z3.Select(arr, i), "concat"); fin(u, o, ())
    def inter_rr(u):
        setup(u); st = u.state(); o0 = u.param(st, T("RR3"), "a", ro=True); arr = fresh_arr("a", V)
        o0.regions.append(Region(0, 8, Lin({}, 6), "E", arr, z3.K(IntS, z3.BoolVal(True)))); w = out(u, st, X["R7"]); d, da = X["R1"].fresh(u, st, "d", True)
        for o in u.run(st, "inter_RR", [w, d, PtrVal(o0.id, 0)]):
            if no_throw(u, o): X["R7"].expect(u, o.st, w, 7, lambda i: z3.If(i < 3, z3.Select(arr, i), z3.If(i == 3, da.at(0), z3.Select(arr, i - 1))), "intercalate"); fin(u, o, ())
    U["concat_RR"] = concat_rr; U["intercalate_RR"] = inter_rr
    # ---------------- cartesian
    def cart(A, B, mut):
        def unit(u):
            u.ex.opaque_mul = True
            for st, p, a, q, b in pairs(u, A, B, ro=not mut, alias=not mut):
                kinds = [("int", 64)] * 2 if mut else ["E", "E"]
                tr = Trace(u, st, kinds)
                if mut and (a.base is None or b.base is None): blocks = [a.base or PtrVal(-1, 0), b.base or PtrVal(-1, 0)]
                else: blocks = [a.base, b.base]
                setup(u, tr, blocks)
                R, Ps, tot = table(u, st, [a.n, b.n], (lambda i, j: i, lambda i, j: j) if mut else (lambda i, j: a.at(i), lambda i, j: b.at(j)), IntS if mut else V, None if mut else (lambda i, j: a.at(i), lambda i, j: b.at(j)))
                for o in u.run(st, ("ceachm_" if mut else "ceach_") + A + B, [p, q]):
                    if not no_throw(u, o): continue
                    u.check(o.st, "post-size", tr.n(o.st).z == tot, "every combination is visited once")
                    for k in range(2): u.check(o.st, "post-content", forall(0, tot, lambda i: z3.Select(tr.arr(o.st, k), i) == Ps[k](i)), "combinations are visited in order (component %d)" % k)
                    own = own_of(a, b); M[A].unchanged(u, o.st, p, a, "first", own); M[B].unchanged(u, o.st, q, b, "second", own); fin(u, o, own)
        U[("cartesian_for_each_mut_" if mut else "cartesian_for_each_") + A + B] = unit
    def table(u, st, ns, fs, srt, trig=None):
        """two nested dimensions: R(i)=i*m; P_k(R(i)+j) = fs[k](i,j)"""
        n, m = ns
        O = Offsets(st, lambda i: m.z, n.z, name="row"); R = O.S; i, j = z3.Ints("i j"); Ps = []
        st.assume(R(n.z) == mulz(u, st, n, m)); grnd = []
        (nl, nh), (ml, mh) = n.rng(), m.rng()
        if nh is not None and mh is not None: st.assume(R(n.z) <= nh * mh)
        for f in fs:
            P = z3.Function(fresh_name("cell"), IntS, srt); Ps.append(P)
            grnd.append(lambda i, j, P=P, f=f: z3.Implies(z3.And(i >= 0, i < n.z, j >= 0, j < m.z), P(R(i) + j) == f(i, j)))
        if trig is not None:
            keep = [t(i, j) for t in trig]; body = z3.And(*[g(i, j) for g in grnd]); grnd = []
            st.assume(z3.ForAll([i, j], body, patterns=[z3.MultiPattern(*keep)])); u.keep = getattr(u, "keep", []) + keep
        if n.is_const() and n.c <= 16:
            for k in range(n.c): O.unfold(st, z3.IntVal(k))
        def cell(st, i, j):
            O.unfold(st, i)
            for g in grnd: st.assume(g(i, j))
        u.ex.cell = cell
        tot = R(n.z); st.assume(tot <= BIG)
        offs_hints(u, [O])
        if srt == V: u.ex.term_funs = [("cell%d" % k, "E", P) for k, P in enumerate(Ps)]
        else: u.ex.term_funs = [("cell%d" % k, ("int", 64), P) for k, P in enumerate(Ps)]
        return R, Ps, tot
    small = cap <= 16       # a static outer dimension is unrolled
    for A, B in (("V", "V"), ("V", "R"), ("R", "V"), ("A", "A"), ("S", "V"), ("V", "S")):
        if A != "R" or small: cart(A, B, False)
    for A, B in (("V", "V"), ("A", "V"), ("R", "V"), ("V", "A"), ("S", "V")):
        if A != "R" or small: cart(A, B, True)
    def cmap(A, B, r):
        def unit(u):
            m = X[r]
            for st, p, a, q, b in pairs(u, A, B):
                setup(u)
                R, Ps, tot = table(u, st, [a.n, b.n], (lambda i, j: F2(a.at(i), b.at(j)),), V, (lambda i, j: F2(a.at(i), b.at(j)),))
                w = out(u, st, m)
                for o in u.run(st, "cmap_" + A + B, [w, p, q]):
                    if no_throw(u, o): own = own_of(a, b); m.expect(u, o.st, w, Lin.of(Atom.of(tot, 0, BIG)), Ps[0], "cartesian_map", own); fin(u, o, own)
        U["cartesian_map_" + A + B] = unit
    for t in (("V", "V", "V"), ("S", "V", "V"), ("A", "A", "AP"), ("V", "R", "V"), ("V", "A", "V")): cmap(*t)
    def cidx(u):
        st = u.state(); n, m = u.int(st, "n", 0, BIG), u.int(st, "m", 0, BIG)
        tr = Trace(u, st, [("int", 64)] * 2); setup(u, tr)
        R, Ps, tot = table(u, st, [n.lin, m.lin], (lambda i, j: i, lambda i, j: j), IntS)
        for o in u.run(st, "cidx2", [n, m]):
            if not no_throw(u, o): continue
            u.check(o.st, "post-size", tr.n(o.st).z == tot, "every combination is visited once")
            for k in range(2): u.check(o.st, "post-content", forall(0, tot, lambda i: z3.Select(tr.arr(o.st, k), i) == Ps[k](i)), "combinations are visited in order"); fin(u, o, ())
    U["cartesian_for_index_2"] = cidx
    def one(u, fname, mut):
        for st, p, a in M["V"].cases(u, "a", ro=not mut):
            tr = Trace(u, st, [("int", 64)] if mut else ["E"]); setup(u, tr, [a.base or PtrVal(-1, 0)])
            want = (lambda i: i) if mut else a.at; u.ex.term_funs = [("visit", tr_kind(mut), want)]
            for o in u.run(st, fname, [p]):
                if not no_throw(u, o): continue
                u.check(o.st, "post-size", tr.n(o.st).z == a.n.z, "every element once")
                u.check(o.st, "post-content", forall(0, a.n, lambda i: z3.Select(tr.arr(o.st, 0), i) == want(i)), "in order"); fin(u, o, own_of(a))
    def tr_kind(mut): return ("int", 64) if mut else "E"
    U["cartesian_for_each_1"] = lambda u: one(u, "ceach1_V", False); U["cartesian_for_each_mut_1"] = lambda u: one(u, "ceachm1_V", True)
    U["lemma_offsets"] = offsets_lemma
    return U
def mulz(u, st, a, b):
    """the product term the engine uses for a*b"""
    return u.ex.mul(st, Lin.of(a), Lin.of(b)).z
