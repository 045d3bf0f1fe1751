"""C10: map, filter, folds, loops;  C12: elem / find"""
import z3
from sym import *
from speclib import *
from seqlib import *

SRC = "prelude.cpp"

def models(mod):
    cap = Unit(mod, "cap"); st = cap.state(); n = cap.run(st, "cap_", [])[0].val.lin.c
    M = dict(V=VecModel(mod, type_of(mod, "ty_V"), "V"), A=InModel(mod, type_of(mod, "ty_A"), "A", n), R=InModel(mod, type_of(mod, "ty_R"), "R", n, sized=False),
             S=SeqModel(mod, type_of(mod, "ty_S")))
    return M, n

def units(mod):
    M, cap = models(mod)
    I = dict(VI=VecModel(mod, type_of(mod, "ty_VI"), "VI", kind=("int", 64)), AI=InModel(mod, type_of(mod, "ty_AI"), "AI", cap, kind=("int", 64)))
    U = {}
    RES = dict(V="V", A="A", R="R", S="V")
    def setup(u, trace=None):
        prep(u, trace)
        for m in (M["V"], I["VI"]):
            if m.ty.k == "named": u.ex.models[m.ty.a] = m
    def out(u, st, m, name="out"):
        p = m.raw(u, st, name)
        if isinstance(m, VecModel): st.conts[(p.obj, 0)] = m
        return p
    def fin(u, o, own=()): u.no_leaks(o.st, own)
    def src_own(a): return {a.heap} if a.heap is not None else set()
    def mk(T):
        m, r = M[T], M[RES[T]]
        def unit(f): U["%s_%s" % (f.__name__, T)] = f; return f
        @unit
        def map(u):
            setup(u)
            for st, p, a in m.cases(u, "a", ro=True):
                q = out(u, st, r)
                u.ex.term_funs = [("f(src)", "E", lambda i: F1(a.at(i)))]
                for o in u.run(st, "map_" + T, [q, p]):
                    if no_throw(u, o): own = src_own(a); r.expect(u, o.st, q, a.n, lambda i: F1(a.at(i)), "map", own); fin(u, o, own)
        @unit
        def mapi(u):
            setup(u)
            for st, p, a in m.cases(u, "a", ro=True):
                q = out(u, st, r)
                u.ex.term_funs = [("f(i,src)", "E", lambda i: FI(i, a.at(i)))]
                for o in u.run(st, "mapi_" + T, [q, p]):
                    if no_throw(u, o): own = src_own(a); r.expect(u, o.st, q, a.n, lambda i: FI(i, a.at(i)), "map_with_index", own); fin(u, o, own)
        def fold(u, name, right):
            setup(u)
            for st, p, a in m.cases(u, "a", ro=True):
                z, t = u.elem(st, "init")
                w = st.new_obj("param", 8, None, "out")
                ACC = z3.Function(fresh_name("acc"), IntS, V); i = z3.Int("i")
                if right: st.assume(ACC(a.n.z) == t); st.assume(z3.ForAll([i], ACC(i) == F2(a.at(i), ACC(i + 1)), patterns=[a.at(i)]))
                else: st.assume(ACC(0) == t); st.assume(z3.ForAll([i], z3.Implies(i >= 0, ACC(i + 1) == F2(ACC(i), a.at(i))), patterns=[a.at(i)]))
                u.ex.arith_hints = []; acc_hints(u, ACC, a.n)
                for o in u.run(st, name + T, [PtrVal(w.id, 0), z, p]):
                    if not no_throw(u, o): continue
                    v = (o.st.mem[w.id].cells.get(0) or (0, None))[1]
                    u.check(o.st, "post", isinstance(v, EVal) and v.t == ACC(0 if right else a.n.z), "fold result"); fin(u, o, src_own(a))
        @unit
        def foldl(u): fold(u, "foldl_", False)
        @unit
        def foldr(u): fold(u, "foldr_", True)
        def each(u, fname, kinds, want):
            for st, p, a in m.cases(u, "a", ro=True):
                tr = Trace(u, st, kinds); setup(u, tr)
                u.ex.term_funs = [("visit%d" % k, kd, lambda i, k=k: want(a, i)[k]) for k, kd in enumerate(kinds)]
                for o in u.run(st, fname + T, [p]):
                    if not no_throw(u, o): continue
                    u.check(o.st, "post-size", tr.n(o.st).z == a.n.z, "every element is visited once")
                    for k in range(len(kinds)): u.check(o.st, "post-content", forall(0, a.n, lambda i: z3.Select(tr.arr(o.st, k), i) == want(a, i)[k]), "visits are in order")
                    fin(u, o, src_own(a))
        @unit
        def each_(u): each(u, "each_", ["E"], lambda a, i: [a.at(i)])
        @unit
        def eachi(u): each(u, "eachi_", [("int", 64), "E"], lambda a, i: [i, a.at(i)])
        def eachmut(u, fname, want):
            for st, p, a in m.cases(u, "a"):
                setup(u)
                u.ex.term_funs = [("mutated", "E", lambda i: want(i, a.at(i)))]
                for o in u.run(st, fname + T, [p]):
                    if no_throw(u, o): own = src_own(a); m.expect(u, o.st, p, a.n, lambda i: want(i, a.at(i)), "mutated in place", own); fin(u, o, own)
        @unit
        def eachm(u): eachmut(u, "eachm_", lambda i, x: M1(x))
        @unit
        def eachim(u): eachmut(u, "eachim_", lambda i, x: MI(i, x))
        # ---- selection
        def sym(st, x=None):
            x, y = z3.Consts("x y", V)
            st.assume(z3.ForAll([x, y], EQ(x, y) == EQ(y, x), patterns=[EQ(x, y)]))
        def select(u, fname, rm, kind, byval, item):
            setup(u)
            for st, p, a in m.cases(u, "a", ro=True):
                q = out(u, st, rm); args = [q]; pred = lambda i: PR(a.at(i))
                if byval: e, t = u.elem(st, "x"); args.append(e); sym(st); pred = lambda i: EQ(a.at(i), t)
                cn = Count(st, a, pred, (lambda i: a.at(i)) if item else (lambda i: i))
                u.ex.arith_hints = []; count_hints(u, cn); u.ex.term_funs = [("selected", kind, cn.Q)]
                for o in u.run(st, fname + T, args + [p]):
                    if no_throw(u, o): own = src_own(a); rm.expect(u, o.st, q, Lin.of(Atom.of(cn.C(a.n.z), 0)), cn.Q, "selected elements in order", own); fin(u, o, own)
        rs = M["A" if T == "R" else RES[T]]; ri = I["VI" if T in "VS" else "AI"]
        @unit
        def filter(u): select(u, "filter_", rs, "E", False, True)
        @unit
        def elem_indices(u): select(u, "elems_", ri, ("int", 64), True, False)
        @unit
        def find_indices(u): select(u, "finds_", ri, ("int", 64), False, False)
        def search(u, fname, byval, index):
            setup(u)
            for st, p, a in m.cases(u, "a", ro=True):
                args = []; pred = lambda i: PR(a.at(i))
                if byval: e, t = u.elem(st, "x"); args = [e]; sym(st); pred = lambda i: EQ(a.at(i), t)
                cn = Count(st, a, pred)
                u.ex.arith_hints = [flag_hints(lambda k: cn.C(k) == 0, lambda i: z3.And(pred(i), cn.C(i) == 0), (lambda k: cn.C(a.n.z) == cn.C(k), lambda i, k: z3.And(i < a.n.z, pred(i), cn.C(i) == cn.C(k))))]; count_hints(u, cn)
                for o in u.run(st, fname + T, args + [p]):
                    if not no_throw(u, o): continue
                    if index:
                        r = u.ex.scanon(o.st, o.val); s = o.st
                        u.check(s, "post", z3.Implies(r.z >= 0, z3.And(r.z < a.n.z, pred(r.z), cn.C(r.z) == 0)), "the index is the first match")
                        u.check(s, "post", z3.Implies(r.z < 0, cn.C(a.n.z) == 0), "nothing only when there is no match")
                    else: u.check(o.st, "post", zb(u.ex.boolval(o.st, o.val)) == (cn.C(a.n.z) > 0), "true exactly when there is a match")
                    fin(u, o, src_own(a))
        @unit
        def elem(u): search(u, "elem_", True, False)
        @unit
        def elem_index(u): search(u, "elemi_", True, True)
        @unit
        def find(u): search(u, "find_", False, False)
        @unit
        def find_index(u): search(u, "findi_", False, True)
    for T in "VARS": mk(T)
    def two(T, W, r):
        r = M[r]
        def both(u, ro=True):
            for st, p, a in M[T].cases(u, "a", ro=ro):
                for st2, q, b in M[W].cases(u, "b", ro=ro, st=st): yield st2, p, a, q, b
            if T == W:
                for st, p, a in M[T].cases(u, "a", ro=ro): yield st, p, a, p, a
        def low(a, b): return Lin.of(Atom.of(z3.If(a.n.z < b.n.z, a.n.z, b.n.z), 0)) if a is not b else a.n
        def u_map2(u):
            setup(u)
            for st, p, a, q, b in both(u):
                w = out(u, st, r); u.ex.term_funs = [("f(a,b)", "E", lambda i: F2(a.at(i), b.at(i)))]
                for o in u.run(st, "map2_" + T + W, [w, p, q]):
                    if no_throw(u, o): own = src_own(a) | src_own(b); r.expect(u, o.st, w, low(a, b), lambda i: F2(a.at(i), b.at(i)), "map", own); fin(u, o, own)
        def u_each2(u):
            for st, p, a, q, b in both(u):
                tr = Trace(u, st, ["E", "E"]); setup(u, tr); n = low(a, b)
                u.ex.term_funs = [("a", "E", a.at), ("b", "E", b.at)]
                for o in u.run(st, "each2_" + T + W, [p, q]):
                    if not no_throw(u, o): continue
                    u.check(o.st, "post-size", tr.n(o.st).z == n.z, "the common length is visited")
                    u.check(o.st, "post-content", forall(0, n, lambda i: z3.And(z3.Select(tr.arr(o.st, 0), i) == a.at(i), z3.Select(tr.arr(o.st, 1), i) == b.at(i))), "visits are in order and aligned")
                    fin(u, o, src_own(a) | src_own(b))
        def u_eachm2(u):
            for st, p, a, q, b in both(u, ro=False):
                if p is q: continue
                setup(u); n = low(a, b)
                wa = lambda i: M2A(a.at(i), b.at(i)); wb = lambda i: M2B(a.at(i), b.at(i))
                u.ex.term_funs = [("a'", "E", wa), ("b'", "E", wb)]
                for o in u.run(st, "eachm2_" + T + W, [p, q]):
                    if not no_throw(u, o): continue
                    own = src_own(a) | src_own(b)
                    M[T].expect(u, o.st, p, a.n, lambda i: z3.If(i < n.z, wa(i), a.at(i)), "first", own)
                    M[W].expect(u, o.st, q, b.n, lambda i: z3.If(i < n.z, wb(i), b.at(i)), "second", own); fin(u, o, own)
        U["map2_" + T + W] = u_map2; U["each2_" + T + W] = u_each2; U["eachm2_" + T + W] = u_eachm2
    two("V", "V", "V"); two("V", "R", "V"); two("A", "R", "A"); two("R", "R", "R"); two("S", "V", "V")
    def fromf_dyn(u):
        setup(u); st = u.state(); q = out(u, st, M["V"]); n = u.int(st, "n", 0, BIG)
        u.ex.term_funs = [("gen", "E", GEN)]
        for o in u.run(st, "fromf_dyn", [q, n]):
            if no_throw(u, o): own = set(); M["V"].expect(u, o.st, q, n.lin, GEN, "tabulated", own); fin(u, o, own)
    def fromf_ct(u):
        setup(u); st = u.state(); q = out(u, st, M["R"]); u.ex.term_funs = [("gen", "E", GEN)]
        for o in u.run(st, "fromf_ct", [q]):
            if no_throw(u, o): M["R"].expect(u, o.st, q, cap, GEN, "tabulated"); fin(u, o)
    def forindex(u):
        st = u.state(); tr = Trace(u, st, [("int", 64)]); setup(u, tr); n = u.int(st, "n", 0, BIG)
        u.ex.term_funs = [("i", ("int", 64), lambda i: i)]
        for o in u.run(st, "forindex", [n]):
            if no_throw(u, o):
                u.check(o.st, "post-size", tr.n(o.st).z == n.lin.z, "every index once")
                u.check(o.st, "post-content", forall(0, n.lin, lambda i: z3.Select(tr.arr(o.st, 0), i) == i), "in order"); fin(u, o)
    def fun(u, fname, want):
        setup(u); st = u.state(); e, t = u.elem(st, "x"); w = st.new_obj("param", 8, None, "out")
        for o in u.run(st, fname, [PtrVal(w.id, 0), e]):
            if no_throw(u, o):
                v = (o.st.mem[w.id].cells.get(0) or (0, None))[1]
                u.check(o.st, "post", isinstance(v, EVal) and v.t == want(t), fname); fin(u, o)
    U["fromf_dyn"] = fromf_dyn; U["fromf_ct"] = fromf_ct; U["forindex"] = forindex; U["lemma_count"] = count_lemma
    U["compose"] = lambda u: fun(u, "compose_", lambda t: F1(F2(t, t))); U["id"] = lambda u: fun(u, "id_", lambda t: t)
    return U
