"""Vocabulary for contracts: abstract sequences, container models, units."""
import time, os, subprocess, hashlib, json, sys
import z3
from sym import *
import ir, engine, externs
from engine import Engine, State, ToolLimit, PathEnd, Region, Throw, ProofFailed

BIG = 1 << 56          # bound on lengths: every block fits the address space
CLANG = "/usr/bin/clang++-18"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LVC_REPO", "/repo")

class CompileError(Exception): pass

_mods = {}
def load_module(src, std="c++17", defs=()):
    """clang -O0 IR of a spec translation unit over /repo's current headers"""
    key = (src, std, tuple(defs))
    if key in _mods: return _mods[key]
    build = os.path.join(VERIF, "build"); os.makedirs(build, exist_ok=True)
    out = os.path.join(build, "%s.%s.%d.ll" % (os.path.basename(src), std, os.getpid()))
    cmd = [CLANG, "-std=" + std, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "specs"), "-O0", "-w",
           "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", "-fno-discard-value-names"] + list(defs) + [os.path.join(VERIF, "specs", src), "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise CompileError(r.stderr[-3000:])
    try: m = ir.Module(out)
    finally:
        if not os.environ.get("LVC_KEEP"): os.unlink(out)
    _mods[key] = m
    return m

class Abs:
    """abstract sequence: n elements arr[off .. off+n)"""
    def __init__(self, n, arr, cap=None, off=None, heap=None, base=None, stride=8):
        self.n, self.arr, self.cap, self.off, self.heap, self.stride = Lin.of(n), arr, cap, Lin.of(off or 0), heap, stride
        self.base = base if base is not None else (PtrVal(heap, 0) if heap is not None else None)
    def ptr(self, i): return PtrVal(self.base.obj, self.base.off + i * self.stride)
    def at(self, i):
        i = i.z if isinstance(i, Lin) else i
        return z3.Select(self.arr, i + self.off.z if not (self.off.is_const() and self.off.c == 0) else i)

class Unit:
    """one verification unit: a real function checked against its contract"""
    def __init__(self, mod, name, rlimit=None, deadline=None):
        self.mod, self.name = mod, name
        self.ex = Engine(mod, rlimit or 4000000)
        self.ex.unit = self
        if deadline: self.ex.deadline = time.time() + deadline
        self.covered = 0
        self.cases = 0
        self.vac = []
    def state(self):
        return State()
    # ---- parameters
    def param(self, st, ty, name, ro=False):
        t = ir.Ty("named", ty) if isinstance(ty, str) else ty
        o = st.new_obj("param", self.mod.size(t), t, name)
        o.ro = ro
        return o
    def elem(self, st, name="e", ro=True):
        o = st.new_obj("param", 8, None, name)
        t = fresh("val_" + name, V)
        o.cells[0] = (8, EVal(t)); o.ro = ro
        return PtrVal(o.id, 0), t
    def elems(self, st, n, name="src", kind="E", stride=8, ro=True):
        """a block of n live elements"""
        o = st.new_obj("param", n * stride, None, name)
        arr = fresh_arr("arr_" + name, engine.kind_sort(kind)); live = z3.K(IntS, z3.BoolVal(True))
        o.regions.append(Region(0, stride, n, kind, arr, live)); o.ro = ro
        return PtrVal(o.id, 0), arr
    def int(self, st, name, lo=0, hi=None, w=64):
        l = self.ex.fresh_int(st, name, lo, (1 << w) - 1 if hi is None else hi)
        return IntVal(w, l)
    # ---- run
    def run(self, st, fname, args):
        ex = self.ex
        self.cases += 1
        if not ex.feasible_full(st): self.vac.append("contradictory precondition: %s case %d" % (self.name, self.cases))
        f = self.mod.funcs.get("@" + fname)
        if f is None or not f.defined: raise ToolLimit("no function %s" % fname)
        ex.call_state(st, "@" + fname, args)
        outs = ex.run(st, 1)
        self.covered += len(outs)
        return outs
    def check(self, st, kind, goal, msg, assume=False):
        import loops
        if not isinstance(goal, bool): goal = loops.goal_of(self.ex, goal)
        return self.ex.oblige(st, kind, goal, msg, assume=assume)
    def no_leaks(self, st, owned=()):
        """every heap block still allocated is owned by one of the given objects"""
        owned = set(owned)
        for oid, o in st.mem.items():
            if o.kind == "heap" and o.alloc and o.status == "live" and oid not in owned:
                self.check(st, "leak", False, "storage is never released")
    def expect_throw(self, st, msg): self.check(st, "throws", True, msg)

def zmin(a, b): return z3.If(a < b, a, b)
def forall(lo, hi, body, pats=None):
    i = z3.Int("i")
    lo = lo.z if isinstance(lo, Lin) else lo
    hi = hi.z if isinstance(hi, Lin) else hi
    f = z3.Implies(z3.And(i >= lo, i < hi), body(i))
    if pats: return z3.ForAll([i], f, patterns=pats(i))
    return z3.ForAll([i], f)

def flag_hints(prefix, first=None, suffix=None):
    """loops that carry what they have found so far: prefix(k) = nothing found among the first k; a flag that says so, an index cell that
    holds the first find; suffix = (nothing found from k on, i is the first find from k on) for scans that run backwards"""
    def h(ex, st, lv):
        out = []
        for q in lv.qs:
            def qz(s, q=q):
                x = q.get(s)
                return None if x is None else x.z
            out.append(("nothing found before %s" % q.name, lambda s, qz=qz: z3.BoolVal(False) if qz(s) is None else prefix(qz(s))))
        for cn, get in lv.cells(IntVal):
            v0 = get(st)
            if not isinstance(v0, IntVal): continue
            for q in lv.qs:
                def qz(s, q=q):
                    x = q.get(s)
                    return None if x is None else x.z
                if v0.w in (1, 8):
                    b0 = ex.boolval(st, v0); b0 = b0 if isinstance(b0, bool) else b0
                    for pol in (True, False):
                        def flag(s, get=get, qz=qz, b0=b0, pol=pol):
                            v = get(s); k = qz(s)
                            if not isinstance(v, IntVal) or k is None: return z3.BoolVal(False)
                            return (zb(ex.boolval(s, v)) == pol) == z3.And(zb(b0) == pol, prefix(k))
                        out.append(("%s==%s: nothing found before %s" % (cn, pol, q.name), flag))
                elif first is not None:
                    def idx(s, get=get, qz=qz, v0=v0):
                        v = get(s); k = qz(s)
                        if not isinstance(v, IntVal) or k is None: return z3.BoolVal(False)
                        return z3.If(prefix(k), v.lin.z == v0.lin.z, z3.And(v.lin.z >= 0, v.lin.z < k, first(v.lin.z)))
                    out.append(("%s: first find before %s" % (cn, q.name), idx))
                    if suffix is not None:
                        def back(s, get=get, qz=qz, v0=v0):
                            v = get(s); k = qz(s)
                            if not isinstance(v, IntVal) or k is None: return z3.BoolVal(False)
                            return z3.If(suffix[0](k), v.lin.z == v0.lin.z, z3.And(v.lin.z >= k, suffix[1](v.lin.z, k)))
                        out.append(("%s: first find from %s on" % (cn, q.name), back))
        return out
    return h
def first_of(st, n, P, name="first"):
    """W: the least i < n with not P(i), or n;  returns prefix(k) for k <= n"""
    W = fresh(name, IntS); i = z3.Int("i"); n = n.z if isinstance(n, Lin) else n
    st.assume(z3.And(W >= 0, W <= n)); st.assume(z3.Implies(W < n, z3.Not(P(W))))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < W), P(i))))
    return lambda k: k <= W

def type_of(mod, fn, var="%x"):
    """type of the local variable x in spec function fn"""
    order, blocks = mod.blocks(mod.funcs["@" + fn])
    for b in blocks.values():
        for i in b:
            if i.op == "alloca" and i.res == var: return i.ty
    raise ToolLimit("no type in " + fn)

class VecModel:
    """Vector-like container with an owned block: (data, size, capacity)"""
    def __init__(self, mod, ty, prefix, kind="E", stride=8, alloc="new"):
        self.mod, self.ty, self.kind, self.stride, self.alloc = mod, ty, kind, stride, alloc
        self.prefix = prefix
        self.span = mod.size(ty)
        self.learn()
    def learn(self):
        """find the representation through the public observers"""
        def obs(fn):
            u = Unit(self.mod, "layout"); st = u.state()
            o = u.param(st, self.ty, "self"); o.tag = "lazy"
            outs = u.run(st, fn, [PtrVal(o.id, 0)])
            if len(outs) != 1: raise ToolLimit("observer %s is not a field read" % fn)
            r = outs[0]
            for off, (sz, v) in r.st.mem[o.id].cells.items():
                if isinstance(v, IntVal) and isinstance(r.val, IntVal) and v.lin == r.val.lin: return off
                if isinstance(v, PtrVal) and isinstance(r.val, PtrVal) and v.obj == r.val.obj and r.val.off == v.off: return off
            raise ToolLimit("observer %s does not return a stored field" % fn)
        self.o_size = obs(self.prefix + "_size"); self.o_cap = obs(self.prefix + "_capacity"); self.o_data = obs(self.prefix + "_data")
    # --- protocol used by the loop machinery
    def cells(self, key): return [key[1] + self.o_data, key[1] + self.o_size, key[1] + self.o_cap]
    def data_off(self, key): return key[1] + self.o_data
    def havoc(self, ex, st, key):
        out = []
        for null in (True, False):
            s = st.fork()
            # the old block is no longer reachable
            old = s.mem[key[0]].cells.get(key[1] + self.o_data)
            if old is not None and isinstance(old[1], PtrVal) and old[1].obj is not None and old[1].obj in s.mem:
                s.w(old[1].obj).status = "freed"
            self.install(ex, s, key[0], key[1], null, nul_extra=True)
            out.append(s)
        return out
    def wf(self, ex, st, key):
        """obligation: well-formed (what havoc assumes)"""
        class U: pass
        u = Unit.__new__(Unit); u.ex = ex
        self.read(u, st, PtrVal(key[0], key[1]), "container at the loop head")
    # --- states
    def install(self, ex, st, oid, off, null, n=None, cap=None, arr=None, name="vec", nul_extra=False, ro=False):
        o = st.w(oid)
        if null:
            o.cells[off + self.o_data] = (8, NULL); o.cells[off + self.o_size] = (8, IntVal(64, 0)); o.cells[off + self.o_cap] = (8, IntVal(64, 0))
            a = Abs(0, fresh_arr("none", engine.kind_sort(self.kind)), Lin({}, 0))
        else:
            if cap is None: cap = ex.fresh_int(st, "cap_" + name, 1, BIG)
            if n is None:
                n = ex.fresh_int(st, "n_" + name, 0, BIG)
            st.assume(n.z <= cap.z)
            h = st.new_obj("heap", cap * self.stride, None, "block of " + name, self.alloc)
            if arr is None: arr = fresh_arr("arr_" + name, engine.kind_sort(self.kind))
            live = fresh_arr("live_" + name, BoolS)
            i = z3.Int("i")
            st.assume(z3.ForAll([i], z3.Select(live, i) == z3.And(i >= 0, i < n.z), patterns=[z3.Select(live, i)]))
            h.regions.append(Region(0, self.stride, cap, self.kind, arr, live))
            h.ro = ro
            o = st.w(oid)
            o.cells[off + self.o_data] = (8, PtrVal(h.id, 0)); o.cells[off + self.o_size] = (8, IntVal(64, n)); o.cells[off + self.o_cap] = (8, IntVal(64, cap))
            a = Abs(n, arr, cap, 0, h.id)
        st.conts[(oid, off)] = self
        return a
    def fresh(self, u, st, name="v", ro=False, null=False):
        o = u.param(st, self.ty, name)
        self.alloc_cells(o)
        a = self.install(u.ex, st, o.id, 0, null, name=name, ro=ro)
        st.w(o.id).ro = ro
        return PtrVal(o.id, 0), a
    def alloc_cells(self, o): pass
    def cases(self, u, name="v", ro=False, st=None):
        """pre-states: without storage, and with storage of any capacity"""
        out = []
        for null in (True, False):
            s = st.fork() if st is not None else u.state()
            p, a = self.fresh(u, s, name, ro, null)
            out.append((s, p, a))
        return out
    def raw(self, u, st, name="out"):
        o = u.param(st, self.ty, name)
        return PtrVal(o.id, 0)
    # --- reading back
    def read(self, u, st, p, what="result"):
        """representation invariant + abstract value"""
        ex = u.ex
        o = st.mem.get(p.obj)
        base = p.off.c
        def cell(off): return (o.cells.get(base + off) or (0, UNDEF))[1]
        d, n, c = cell(self.o_data), cell(self.o_size), cell(self.o_cap)
        if d is UNDEF or n is UNDEF or c is UNDEF:
            u.check(st, "uninit", False, "%s: container fields are initialised" % what); return None
        n, c = ex.ucanon(st, n), ex.ucanon(st, c)
        u.check(st, "wf", n.z <= c.z, "%s: size <= capacity" % what)
        if d.obj is None:
            u.check(st, "wf", z3.And(n.z == 0, c.z == 0), "%s: no storage only when capacity is 0" % what)
            return Abs(0, fresh_arr("none", engine.kind_sort(self.kind)), Lin({}, 0))
        h = st.mem.get(d.obj)
        if h is None or h.status != "live" or h.kind != "heap":
            u.check(st, "wf", False, "%s: refers to live storage" % what); return None
        u.check(st, "wf", h.alloc == self.alloc, "%s: storage comes from the container's allocator" % what)
        u.check(st, "wf", d.off.z == 0 if not d.off.is_const() else d.off.c == 0, "%s: data is the start of its block" % what)
        u.check(st, "wf", h.size.z == (c * self.stride).z, "%s: capacity is the size of the block" % what)
        if not h.regions:
            u.check(st, "wf", n.z == 0, "%s: untouched storage holds no element" % what)
            return Abs(n, fresh_arr("none", engine.kind_sort(self.kind)), c, 0, h.id)
        r = h.regions[0]
        if self.kind == "E":
            u.check(st, "wf-live", forall(0, c, lambda i: z3.Select(r.live, i) == (i < n.z)), "%s: exactly the first size() slots hold live elements" % what)
        else:
            u.check(st, "wf-live", forall(0, n, lambda i: z3.Select(r.live, i)), "%s: the first size() slots are initialised" % what)
        return Abs(n, r.arr, c, 0, h.id)
    def expect(self, u, st, p, n, elem, what="result", owned=None):
        a = self.read(u, st, p, what)
        if a is None: return None
        n = Lin.of(n) if not isinstance(n, Lin) else n
        u.check(st, "post-size", a.n.z == n.z, "%s: size" % what)
        u.check(st, "post-content", forall(0, n, lambda i: a.at(i) == elem(i)), "%s: contents" % what)
        if owned is not None and a.heap is not None: owned.add(a.heap)
        return a
    def unchanged(self, u, st, p, a, what, owned=None):
        return self.expect(u, st, p, a.n, lambda i: a.at(i), what, owned)

class InModel:
    """container whose elements live inside the object: Array (every slot is an
    element) and ArrVec (the first size() slots are)"""
    def __init__(self, mod, ty, prefix, cap, sized=True, kind="E", stride=8):
        self.mod, self.ty, self.prefix, self.cap, self.sized, self.kind, self.stride = mod, ty, prefix, cap, sized, kind, stride
        self.span = mod.size(ty)
        self.learn()
    def learn(self):
        def obs(fn):
            u = Unit(self.mod, "layout"); st = u.state()
            o = u.param(st, self.ty, "self"); o.tag = "lazy"
            outs = u.run(st, fn, [PtrVal(o.id, 0)])
            if len(outs) != 1: raise ToolLimit("observer %s is not a field read" % fn)
            return o, outs[0]
        o, r = obs(self.prefix + "_data")
        if not (isinstance(r.val, PtrVal) and r.val.obj == o.id and r.val.off.is_const()): raise ToolLimit("data() does not point into the object")
        self.o_data = r.val.off.c
        if self.sized:
            o, r = obs(self.prefix + "_size")
            for off, (sz, v) in r.st.mem[o.id].cells.items():
                if isinstance(v, IntVal) and isinstance(r.val, IntVal) and v.lin == r.val.lin: self.o_size = off; break
            else: raise ToolLimit("size() does not return a stored field")
    def install(self, ex, st, oid, off, name="vec", n=None, arr=None):
        cap = Lin({}, self.cap)
        if not self.sized: n = cap
        elif n is None: n = ex.fresh_int(st, "n_" + name, 0, self.cap)
        o = st.w(oid)
        if arr is None: arr = fresh_arr("arr_" + name, engine.kind_sort(self.kind))
        if self.sized:
            live = fresh_arr("live_" + name, BoolS)
            i = z3.Int("i")
            st.assume(z3.ForAll([i], z3.Select(live, i) == z3.And(i >= 0, i < n.z), patterns=[z3.Select(live, i)]))
            o = st.w(oid); o.cells[off + self.o_size] = (8, IntVal(64, n))
        else: live = z3.K(IntS, z3.BoolVal(True))
        o.regions.append(Region(off + self.o_data, self.stride, cap, self.kind, arr, live))
        return Abs(n, arr, cap, 0, None, PtrVal(oid, off + self.o_data), self.stride)
    def fresh(self, u, st, name="v", ro=False):
        o = u.param(st, self.ty, name)
        a = self.install(u.ex, st, o.id, 0, name)
        st.w(o.id).ro = ro
        return PtrVal(o.id, 0), a
    def cases(self, u, name="v", ro=False, st=None):
        s = st.fork() if st is not None else u.state()
        p, a = self.fresh(u, s, name, ro)
        return [(s, p, a)]
    def raw(self, u, st, name="out"):
        return PtrVal(u.param(st, self.ty, name).id, 0)
    def region(self, st, p):
        """(arr, live) of the elements, whether kept as cells or as a region"""
        o = st.mem[p.obj]; base = p.off.c + self.o_data
        for r in o.regions:
            if r.start == base and r.stride == self.stride: return r.arr, r.live
        arr = fresh_arr("none", engine.kind_sort(self.kind)); live = z3.K(IntS, z3.BoolVal(False))
        for c, (sz, v) in o.cells.items():
            d = c - base
            if 0 <= d < self.cap * self.stride and d % self.stride == 0 and v is not UNDEF:
                t = v.t if isinstance(v, EVal) else v.lin.z if isinstance(v, IntVal) else v.r if isinstance(v, FVal) else None
                if t is None: continue
                arr = z3.Store(arr, d // self.stride, t); live = z3.Store(live, d // self.stride, z3.BoolVal(True))
        return arr, live
    def dead(self, u, st, p, what):
        arr, live = self.region(st, p)
        u.check(st, "wf-live", forall(0, self.cap, lambda i: z3.Not(z3.Select(live, i))), "%s: no element is left alive" % what)
    def read(self, u, st, p, what="result"):
        o = st.mem[p.obj]; ex = u.ex; cap = Lin({}, self.cap)
        if self.sized:
            n = (o.cells.get(p.off.c + self.o_size) or (0, UNDEF))[1]
            if n is UNDEF: u.check(st, "uninit", False, "%s: size is initialised" % what); return None
            n = ex.ucanon(st, n)
            u.check(st, "wf", n.z <= self.cap, "%s: size <= capacity" % what)
        else: n = cap
        arr, live = self.region(st, p)
        if self.kind == "E":
            u.check(st, "wf-live", forall(0, cap, lambda i: z3.Select(live, i) == (i < n.z)), "%s: exactly the first size() slots hold live elements" % what)
        else: u.check(st, "wf-live", forall(0, n, lambda i: z3.Select(live, i)), "%s: the first size() slots are initialised" % what)
        return Abs(n, arr, cap, 0, None, PtrVal(p.obj, p.off + self.o_data), self.stride)
    def expect(self, u, st, p, n, elem, what="result", owned=None):
        a = self.read(u, st, p, what)
        if a is None: return None
        n = Lin.of(n) if not isinstance(n, Lin) else n
        u.check(st, "post-size", a.n.z == n.z, "%s: size" % what)
        u.check(st, "post-content", forall(0, n, lambda i: a.at(i) == elem(i)), "%s: contents" % what)
        return a
    def unchanged(self, u, st, p, a, what, owned=None):
        return self.expect(u, st, p, a.n, lambda i: a.at(i), what, owned)
