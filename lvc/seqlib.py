"""Source sequences, opaque functions and specification functions shared by the
contracts of the sequence algorithms."""
import z3
from sym import *
from speclib import *
from spec_vector import no_throw

F1 = z3.Function("f1", V, V)
F2 = z3.Function("f2", V, V, V)
FI = z3.Function("fi", IntS, V, V)
GEN = z3.Function("gen", IntS, V)
PR = z3.Function("pr", V, z3.BoolSort())
M1 = z3.Function("m1", V, V)
M2A = z3.Function("m2a", V, V, V)
M2B = z3.Function("m2b", V, V, V)
MI = z3.Function("mi", IntS, V, V)
EQ = externs.EQ

class SeqModel:
    """a user-defined sequence known only through length() and nth()"""
    kind, stride, sized = "E", 8, True
    def __init__(self, mod, ty): self.mod, self.ty = mod, ty
    def cases(self, u, name="s", ro=False, st=None):
        s = st.fork() if st is not None else u.state()
        o = u.param(s, self.ty, name, ro=True)
        n = u.ex.fresh_int(s, "n_" + name, 0, BIG)
        q, arr = u.elems(s, n, "elements of " + name, ro=ro)
        d = dict(s.ghost.get("$seqs", {})); d[o.id] = (n, q); s.ghost["$seqs"] = d
        a = Abs(n, arr, n, 0, None, q, 8)
        return [(s, PtrVal(o.id, 0), a)]
    def unchanged(self, u, st, p, a, what, owned=None): return self.expect(u, st, p, a.n, a.at, what)
    def expect(self, u, st, p, n, elem, what="", owned=None):
        b = st.ghost["$seqs"][p.obj][1]
        r = st.mem[b.obj].regions[0]
        u.check(st, "wf-live", forall(0, a_n(n), lambda i: z3.Select(r.live, i)), "%s: elements are alive" % what)
        u.check(st, "post-content", forall(0, a_n(n), lambda i: z3.Select(r.arr, i) == elem(i)), "%s: contents" % what)
def a_n(n): return n if isinstance(n, Lin) else Lin.of(n)

def h_len(ex, st, ins, a):
    n, q = st.ghost["$seqs"][a[0].obj]
    return [(st, IntVal(64, n))]
def h_nth(ex, st, ins, a):
    n, q = st.ghost["$seqs"][a[1].obj]
    i = ex.ucanon(st, a[0])
    ex.oblige(st, "bounds", i.z < n.z, "nth is called inside the sequence", ins)
    return [(st, PtrVal(q.obj, q.off + i * 8))]

class Trace:
    """ghost record of visitor calls: one array per argument"""
    def __init__(self, u, st, kinds):
        self.cnt = st.new_obj("param", 8, None, "visits").id
        st.w(self.cnt).cells[0] = (8, IntVal(64, 0))
        self.ids = []
        for k in kinds:
            o = st.new_obj("param", Lin({}, BIG * 8), None, "trace")
            o.regions.append(Region(0, 8, Lin({}, BIG), k, fresh_arr("trace", engine.kind_sort(k)), z3.K(IntS, z3.BoolVal(True))))
            self.ids.append(o.id)
    def add(self, ex, st, terms):
        o = st.w(self.cnt); n = o.cells[0][1].lin
        o.cells[0] = (8, IntVal(64, n + 1))
        for oid, t in zip(self.ids, terms):
            r = st.w(oid).regions[0]; r.arr = z3.Store(r.arr, n.z, t)
    def n(self, st): return st.mem[self.cnt].cells[0][1].lin
    def arr(self, st, k): return st.mem[self.ids[k]].regions[0].arr

def prep(u, trace=None):
    ex = u.ex
    X = ex.externs
    def construct(ex, st, p, t, ins): ex.e_set(st, p, t, "construct", ins)
    def rd(ex, st, p, ins): return ex.e_read(st, p, ins, "argument of the user's function")
    def fn1(ex, st, ins, a): construct(ex, st, a[0], F1(rd(ex, st, a[1], ins)), ins); return [(st, None)]
    def fn2(ex, st, ins, a): construct(ex, st, a[0], F2(rd(ex, st, a[1], ins), rd(ex, st, a[2], ins)), ins); return [(st, None)]
    def fni(ex, st, ins, a): construct(ex, st, a[0], FI(ex.ucanon(st, a[1]).z, rd(ex, st, a[2], ins)), ins); return [(st, None)]
    def gen(ex, st, ins, a): construct(ex, st, a[0], GEN(ex.ucanon(st, a[1]).z), ins); return [(st, None)]
    def pr(ex, st, ins, a): return [(st, BoolV(PR(rd(ex, st, a[0], ins))))]
    def vis(ex, st, ins, a): trace.add(ex, st, [rd(ex, st, a[0], ins)]); return [(st, None)]
    def vis2(ex, st, ins, a): trace.add(ex, st, [rd(ex, st, a[0], ins), rd(ex, st, a[1], ins)]); return [(st, None)]
    def visi(ex, st, ins, a): trace.add(ex, st, [ex.ucanon(st, a[0]).z, rd(ex, st, a[1], ins)]); return [(st, None)]
    def visx(ex, st, ins, a): trace.add(ex, st, [ex.ucanon(st, a[0]).z]); return [(st, None)]
    def visx2(ex, st, ins, a): trace.add(ex, st, [ex.ucanon(st, a[0]).z, ex.ucanon(st, a[1]).z]); return [(st, None)]
    def mut(ex, st, ins, a): ex.e_set(st, a[0], M1(rd(ex, st, a[0], ins)), "assign", ins); return [(st, None)]
    def mut2(ex, st, ins, a):
        x, y = rd(ex, st, a[0], ins), rd(ex, st, a[1], ins)
        if trace is not None: trace.add(ex, st, [x, y])
        ex.e_set(st, a[0], M2A(x, y), "assign", ins); ex.e_set(st, a[1], M2B(x, y), "assign", ins); return [(st, None)]
    def muti(ex, st, ins, a): ex.e_set(st, a[1], MI(ex.ucanon(st, a[0]).z, rd(ex, st, a[1], ins)), "assign", ins); return [(st, None)]
    for n, h in dict(fn1=fn1, fn2=fn2, fni=fni, gen=gen, pr=pr, vis=vis, vis2=vis2, visi=visi, visx=visx, visx2=visx2, mut=mut, mut2=mut2, muti=muti).items(): X["@" + n] = h
    X["@_Z6lengthRK1S"] = h_len; X["@_Z3nthmRK1S"] = h_nth; X["@_Z3nthmR1S"] = h_nth
    ex.trusted.add("functions passed by the user are pure, total and do not throw; a user-defined sequence implements length and nth")

# ------------------------------------------------------------ specification functions
class Count:
    """C(i) = how many of the first i elements satisfy p; Q(C(i)) = item(i) when p(i)"""
    def __init__(self, st, src, p, item=None):
        self.C = C = z3.Function(fresh_name("count"), IntS, IntS)
        i, j = z3.Ints("i j")
        at = src.at(i)
        for ax in self.define(C, at, i, p): st.assume(ax)
        st.assume(self.bounds(C, i)); st.assume(self.mono(C, i, j, p, src))
        if item is not None:
            self.Q = Q = z3.Function(fresh_name("sel"), IntS, item(i).sort())
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, p(i)), Q(C(i)) == item(i)), patterns=[at]))
    @staticmethod
    def define(C, at, i, p):
        return [C(0) == 0, z3.ForAll([i], z3.Implies(i >= 0, C(i + 1) == C(i) + z3.If(p(i), 1, 0)), patterns=[at])]
    @staticmethod
    def bounds(C, i): return z3.ForAll([i], z3.Implies(i >= 0, z3.And(C(i) >= 0, C(i) <= i)), patterns=[C(i)])
    @staticmethod
    def mono(C, i, j, p, src):
        return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j), z3.And(C(i) <= C(j), z3.Implies(p(i), C(i) < C(j)))), patterns=[z3.MultiPattern(C(i), C(j))])

def count_hints(u, cn, n=None):
    """candidates: quantity == C(quantity), C(quantity) == 0"""
    def h(ex, st, lv):
        out = []
        for q in lv.qs:
            out.append(("none(%s)" % q.name, lambda s, q=q: cn.C(q.get(s).z) == 0 if q.get(s) is not None else z3.BoolVal(False)))
            for a in lv.qs:
                if a is q: continue
                out.append(("%s=C(%s)" % (a.name, q.name), lambda s, q=q, a=a: a.get(s).z == cn.C(q.get(s).z) if q.get(s) is not None and a.get(s) is not None else z3.BoolVal(False)))
        return out
    u.ex.arith_hints = getattr(u.ex, "arith_hints", []) + [h]

def acc_hints(u, ACC, n):
    """candidates: accumulator cell == ACC(quantity)"""
    def h(ex, st, lv):
        out = []
        for cn, get in lv.cells(EVal):
            for q in lv.qs:
                for nm, f in (("", lambda k: k), ("n-", lambda k: n.z - k)):
                    def at(s, get=get, q=q, f=f):
                        v, k = get(s), q.get(s)
                        if not isinstance(v, EVal) or k is None: return z3.BoolVal(False)
                        return v.t == ACC(f(k.z))
                    out.append(("%s=acc(%s%s)" % (cn, nm, q.name), at))
        return out
    u.ex.arith_hints = getattr(u.ex, "arith_hints", []) + [h]

def count_lemma(u):
    """the facts assumed about Count follow from its definition, by induction"""
    st = u.state()
    arr = fresh_arr("x", V); a = Abs(0, arr)
    C = z3.Function("lemma_count", IntS, IntS)
    i, j = z3.Ints("i j"); k = u.ex.fresh_int(st, "k", 0)
    p = lambda i: PR(z3.Select(arr, i))
    for ax in Count.define(C, z3.Select(arr, i), i, p): st.assume(ax)
    u.cases += 1; u.covered += 1
    u.check(st, "lemma", z3.And(C(0) >= 0, C(0) <= 0), "count bounds: base")
    s = st.fork(); s.assume(z3.And(C(k.z) >= 0, C(k.z) <= k.z)); s.assume(z3.Select(arr, k.z) == z3.Select(arr, k.z)); touch(s, arr, k.z)
    u.check(s, "lemma", z3.And(C(k.z + 1) >= 0, C(k.z + 1) <= k.z + 1), "count bounds: step")
    # monotone: induction on j from i+1
    m = u.ex.fresh_int(st, "m", 0)
    s = st.fork(); touch(s, arr, k.z)
    u.check(s, "lemma", z3.And(C(k.z) <= C(k.z + 1), z3.Implies(p(k.z), C(k.z) < C(k.z + 1))), "count is monotone: base")
    s = st.fork(); s.assume(m.z > k.z); s.assume(z3.And(C(k.z) <= C(m.z), z3.Implies(p(k.z), C(k.z) < C(m.z)))); touch(s, arr, m.z)
    u.check(s, "lemma", z3.And(C(k.z) <= C(m.z + 1), z3.Implies(p(k.z), C(k.z) < C(m.z + 1))), "count is monotone: step")
def touch(st, arr, k):
    """make arr[k] a ground term"""
    c = fresh("touch", arr.range()); st.assume(c == z3.Select(arr, k))
