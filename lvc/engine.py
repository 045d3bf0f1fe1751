"""Deductive verifier for LLVM IR: symbolic execution of each function under
contract, contracts at call sites, inductive invariants at loop heads, every
obligation discharged by z3."""
import re, time, sys
import z3
from sym import *
import ir
from ir import Reg, Const, Glob, CExpr, CAgg, CStr, Ty

class ToolLimit(Exception):
    """the verifier cannot decide (unsupported construct, resource limit)"""

# ------------------------------------------------------------- path conditions
class PC:
    __slots__ = ("p", "e", "d", "q")
    def __init__(self, p, e, q):
        self.p, self.e, self.q = p, e, q
        self.d = 0 if p is None else p.d + 1
def has_quant(e):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        st.extend(x.children())
    return False

class Solv:
    def __init__(self, qf, rlimit):
        self.qf = qf
        self.s = z3.SimpleSolver()
        if not qf:
            self.s.set("auto_config", False); self.s.set("smt.mbqi", False)
        self.s.set("rlimit", rlimit)
        self.s.set("timeout", 60000)
        self.stack = []
        self.time = 0.0; self.n = 0; self.unk = 0
    def sync(self, pc):
        nodes = []
        n = pc
        st = self.stack
        while n is not None and n.d >= len(st):
            nodes.append(n); n = n.p
        # now n.d < len(st)
        while n is not None and not (n.d < len(st) and st[n.d] is n):
            nodes.append(n); n = n.p
        keep = 0 if n is None else n.d + 1
        if len(st) > keep:
            self.s.pop(len(st) - keep); del st[keep:]
        for m in reversed(nodes):
            self.s.push(); st.append(m)
            if m.e is not None and not (self.qf and m.q): self.s.add(m.e)
    def check(self, pc, *extra):
        t = time.time()
        self.sync(pc)
        self.s.push()
        for e in extra: self.s.add(e)
        r = self.s.check()
        self.s.pop()
        self.time += time.time() - t; self.n += 1
        if r == z3.unknown: self.unk += 1
        return r

# ------------------------------------------------------------- memory
class Region:
    __slots__ = ("start", "stride", "count", "kind", "arr", "live")
    def __init__(self, start, stride, count, kind, arr, live):
        self.start, self.stride, self.count, self.kind, self.arr, self.live = start, stride, Lin.of(count), kind, arr, live
    def clone(self): return Region(self.start, self.stride, self.count, self.kind, self.arr, self.live)
    def end(self): return self.count * self.stride + self.start

def kind_sort(k):
    if k == "E": return V
    if k == "real": return RealS
    return IntS
def kind_of(ty, mod):
    if ty.k == "int": return ("int", ty.a)
    if ty.k in ("double", "float"): return "real"
    if ty.k == "ptr": return "ptr"
    return None

class Obj:
    __slots__ = ("id", "kind", "size", "status", "alloc", "cells", "regions", "ty", "name", "epoch", "fill", "frame", "ro", "tag")
    def __init__(self, id, kind, size, ty=None, name="", alloc=None):
        self.id, self.kind, self.size, self.ty, self.name, self.alloc = id, kind, Lin.of(size), ty, name, alloc
        self.status = "live"; self.cells = {}; self.regions = []; self.epoch = 0; self.fill = None; self.frame = None; self.ro = False
        self.tag = None
    def clone(self, epoch):
        o = Obj(self.id, self.kind, self.size, self.ty, self.name, self.alloc)
        o.status, o.cells, o.regions, o.fill, o.frame, o.ro, o.tag = self.status, dict(self.cells), [r.clone() for r in self.regions], self.fill, self.frame, self.ro, self.tag
        o.epoch = epoch
        return o

class Frame:
    __slots__ = ("f", "blk", "idx", "regs", "allocas", "call", "prev", "unroll", "noloop")
    def __init__(self, f):
        self.f, self.blk, self.idx, self.regs, self.allocas, self.call, self.prev = f, None, 0, {}, [], None, None
        self.unroll = {}; self.noloop = None
    def clone(self):
        g = Frame(self.f)
        g.blk, g.idx, g.regs, g.allocas, g.call, g.prev = self.blk, self.idx, dict(self.regs), list(self.allocas), self.call, self.prev
        g.unroll = dict(self.unroll); g.noloop = self.noloop
        return g

_epoch = [0]
_oid = [0]
class State:
    def __init__(self):
        self.frames, self.mem, self.pc, self.ghost, self.canon = [], {}, PC(None, None, False), {}, {}
        self.conts = {}
        self.epoch = 0
        self.exc = None
        self.note = []
        self.hist = ()
        self.bounded = False
    def fork(self):
        s = State()
        _epoch[0] += 1; s.epoch = _epoch[0]
        _epoch[0] += 1; self.epoch = _epoch[0]
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem); s.pc = self.pc; s.ghost = dict(self.ghost); s.canon = dict(self.canon)
        s.conts = dict(self.conts); s.exc = self.exc; s.note = list(self.note); s.hist = self.hist; s.bounded = self.bounded
        return s
    def assume(self, e):
        if e is True or (z3.is_expr(e) and z3.is_true(e)): return
        if e is False: e = z3.BoolVal(False)
        self.pc = PC(self.pc, e, has_quant(e))
    def w(self, oid):
        o = self.mem[oid]
        if o.epoch != self.epoch:
            o = o.clone(self.epoch); self.mem[oid] = o
        return o
    def new_obj(self, kind, size, ty=None, name="", alloc=None):
        _oid[0] += 1
        o = Obj(_oid[0], kind, size, ty, name, alloc); o.epoch = self.epoch
        self.mem[o.id] = o
        return o
    @property
    def top(self): return self.frames[-1]

class Outcome:
    def __init__(self, kind, st, val=None): self.kind, self.st, self.val = kind, st, val

ELEM = re.compile(r"^@_ZNK?(\d+)(E\d?)(.*)$")

PROD = z3.Function("prod", IntS, IntS, IntS)

class Engine:
    opaque_mul = False
    def __init__(self, mod, rlimit=3000000):
        self.mod = mod
        self.qf = Solv(True, 2000000)
        self.full = Solv(False, rlimit)
        self.obl = []              # obligations (dict)
        self.mode = "check"        # or "infer"
        self.externs = {}          # mangled or demangled name -> handler(ex, st, ins, args) -> list[(st, ret)] | None
        self.on_return = None
        self.contracts = []        # list of (match fn, handler)
        self.unit = None
        self.steps = 0; self.max_steps = 400000
        self.deadline = None
        self.globals_obj = {}
        self.glob_init_state = None
        self.functions = set()     # functions executed
        self.loop_info = []
        self.hints = []
        self.terms = []            # extra loop-invariant terms supplied by the unit (Lin)
        self.loop_cache = {}
        self.unroll_limit = 64
        self.bounded_unroll = None   # when set, loops unrolled to this depth (bounded mode)
        self.on_throw = None
        self.fail_first = False
        self.trusted = set()
        self.loop_counter = 0
        self.on_loop_head = None
        self.watch_access = None      # callable(ex, st, obj, off, write)
        self.region_watch = None
        self.models = {}              # type name -> container model (registered for locals of that type)
        self.store_hook = None        # callable(ex, st, obj, region, idx, oldlive, old, new)

    # ---------------------------------------------------------- solver front
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps: raise ToolLimit("step limit")
        if self.deadline and self.steps % 50 == 0 and time.time() > self.deadline: raise ToolLimit("time limit")
    def prove(self, st, g, full=True):
        if g is True: return True
        if g is False: g = z3.BoolVal(False)
        g = z3.simplify(g) if not has_quant(g) else g
        if z3.is_true(g): return True
        if self.deadline and time.time() > self.deadline: raise ToolLimit("time limit")
        if not has_quant(g):
            if self.qf.check(st.pc, z3.Not(g)) == z3.unsat: return True
        if not full: return False
        if not st.pc_has_q and not has_quant(g): return False
        return self.full.check(st.pc, self.neg(g)) == z3.unsat
    def neg(self, g):
        return z3.Not(g)
    def feasible(self, st, *extra):
        return self.qf.check(st.pc, *extra) != z3.unsat
    def feasible_full(self, st):
        if self.qf.check(st.pc) == z3.unsat: return False
        return self.full.check(st.pc) != z3.unsat
    def where(self, st, ins=None):
        fs = [self.short(f.f.name) for f in st.frames]
        s = fs[-1] if fs else "?"
        efp = [x for x in fs if "efp::" in x]
        if efp and efp[-1] != s: s = efp[-1] + " > " + s
        return s
    def short(self, name):
        d = self.mod.dem(name)
        d = re.sub(r"\[abi:\w+\]", "", d)
        return d
    def oblige(self, st, kind, goal, msg="", ins=None, assume=True):
        """discharge an obligation; in infer mode just assume it"""
        if self.mode == "infer":
            if assume and goal is not True:
                if goal is False: st.assume(z3.BoolVal(False)); return False
                st.assume(goal)
            return True
        t = time.time()
        ok = self.prove(st, goal)
        if not ok and isinstance(goal, z3.ExprRef) and z3.is_and(goal):
            import loops; ok = loops.conj(self, st, goal)
        if not ok:
            # the path itself may be infeasible given quantified facts
            if st.pc_has_q and self.full.check(st.pc) == z3.unsat: ok = True
        rec = dict(kind=kind, where=self.where(st), msg=msg, ok=bool(ok), t=time.time() - t, text=(ins.text if ins is not None else ""), hist=st.hist)
        self.obl.append(rec)
        if not ok:
            rec["path"] = list(st.note)
            rec["goal"] = str(goal)[:2000]
            if self.fail_first: raise ProofFailed(rec)
        if assume and not ok:
            if goal is False: st.assume(z3.BoolVal(False))
            else: st.assume(goal)
        return ok
    def fail(self, st, kind, msg, ins=None):
        self.oblige(st, kind, False, msg, ins)

    # ---------------------------------------------------------- ints
    def ucanon(self, st, v):
        if v is UNDEF: raise UndefUse()
        lin, M = v.lin, 1 << v.w
        if lin.is_const(): return Lin({}, lin.c % M)
        lo, hi = lin.rng()
        if lo is not None and hi is not None and lo >= 0 and hi < M: return lin
        k = (lin.key(), v.w, "u")
        r = st.canon.get(k)
        if r is not None: return r
        z = lin.z
        if self.prove(st, z3.And(z >= 0, z < M), full=False): r = lin
        elif self.prove(st, z3.And(z >= -M, z < 0), full=False): r = lin + M
        elif self.prove(st, z3.And(z >= M, z < 2*M), full=False): r = lin - M
        elif st.pc_has_q and self.prove(st, z3.And(z >= 0, z < M)): r = lin
        elif self.prove(st, z3.And(z >= -M, z < M), full=False):
            r = Lin.of(Atom.of(z3.If(z < 0, z + M, z), 0, M - 1))
        else: r = Lin.of(Atom.of(z % M, 0, M - 1))
        st.canon[k] = r
        return r
    def scanon(self, st, v):
        if v is UNDEF: raise UndefUse()
        lin, M = v.lin, 1 << v.w; H = M >> 1
        if lin.is_const():
            c = lin.c % M
            return Lin({}, c - M if c >= H else c)
        lo, hi = lin.rng()
        if lo is not None and hi is not None and lo >= -H and hi < H: return lin
        k = (lin.key(), v.w, "s")
        r = st.canon.get(k)
        if r is not None: return r
        z = lin.z
        if self.prove(st, z3.And(z >= -H, z < H), full=False): r = lin
        elif self.prove(st, z3.And(z >= H, z < M + H), full=False): r = lin - M
        elif self.prove(st, z3.And(z >= -M - H, z < -H), full=False): r = lin + M
        elif st.pc_has_q and self.prove(st, z3.And(z >= -H, z < H)): r = lin
        elif lo is not None and hi is not None and lo >= 0 and hi < M: r = Lin.of(Atom.of(z3.If(z >= H, z - M, z), -H, H - 1))
        else: r = Lin.of(Atom.of(((z + H) % M) - H, -H, H - 1))
        st.canon[k] = r
        return r
    def fresh_int(self, st, name, lo=None, hi=None):
        l = fresh_int(name, lo, hi)
        if lo is not None: st.assume(l.z >= lo)
        if hi is not None: st.assume(l.z <= hi)
        return l
    def havoc_int(self, st, w, name="h"):
        return IntVal(w, self.fresh_int(st, name, 0, (1 << w) - 1))
    def boolval(self, st, v):
        """python bool or z3 Bool of an i1 value"""
        if v is UNDEF: raise UndefUse()
        if isinstance(v, BoolV): return v.b
        if isinstance(v, IntVal):
            if v.b is not None: return v.b
            l = self.ucanon(st, v)
            if l.is_const(): return l.c != 0
            return l.z != 0
        raise ToolLimit("bool of %r" % (v,))
    def from_bool(self, w, b):
        if isinstance(b, bool): return IntVal(w, 1 if b else 0)
        if z3.is_true(b): return IntVal(w, 1)
        if z3.is_false(b): return IntVal(w, 0)
        return IntVal(w, Lin.of(Atom.of(z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1)), b)

    # ---------------------------------------------------------- operands
    def global_obj(self, st, name):
        if name in st.ghost.setdefault("$globals", {}):
            oid = st.ghost["$globals"][name]
            if oid in st.mem: return oid
        g = self.mod.globals.get(name)
        if g is None: raise ToolLimit("global %s" % name)
        o = st.new_obj("global", self.mod.size(g.ty) if g.ty.k != "opaque" else 0, g.ty, name)
        d = dict(st.ghost["$globals"]); d[name] = o.id; st.ghost["$globals"] = d
        if g.init is not None and g.const: self.init_const(st, o, 0, g.ty, g.init)
        elif g.init is not None: self.init_const(st, o, 0, g.ty, g.init)
        o.ro = g.const
        return o.id
    def init_const(self, st, o, off, ty, v):
        m = self.mod
        if isinstance(v, CStr):
            arr = z3.K(IntS, z3.IntVal(0)); live = z3.K(IntS, z3.BoolVal(True))
            n = len(v.data)
            for i, b in enumerate(v.data):
                if b: arr = z3.Store(arr, i, b)
            o.regions.append(Region(off, 1, n, ("int", 8), arr, live))
            return
        if isinstance(v, Const) and v.v == "zero":
            r = m.resolve(ty)
            o.fill = (o.fill or []) + [(off, off + m.size(ty), 0)]
            return
        if isinstance(v, CAgg):
            r = m.resolve(v.ty)
            if r.k == "struct":
                for i, (t, x) in enumerate(v.elems):
                    fo, _ = m.field_off(r, i); self.init_const(st, o, off + fo, t, x)
            else:
                s = m.size(r.b)
                for i, (t, x) in enumerate(v.elems): self.init_const(st, o, off + i * s, t, x)
            return
        if isinstance(v, Const) and v.v == "undef": return
        o.cells[off] = (m.size(ty), self.val(st, ty, v))
    def val(self, st, ty, v):
        if isinstance(v, Reg):
            try: return st.top.regs[v.name]
            except KeyError: raise ToolLimit("undefined register %s" % v.name)
        if isinstance(v, Const):
            if v.v == "undef": return UNDEF
            if ty.k == "ptr": return NULL
            if ty.k == "int":
                if v.v == "zero": return BoolV(False) if ty.a == 1 else IntVal(ty.a, 0)
                if ty.a == 1: return BoolV(bool(v.v))
                return IntVal(ty.a, v.v)
            if ty.k in ("double", "float"):
                if v.v == "zero": return FVal(z3.RealVal(0))
                if v.v != v.v or v.v in (float("inf"), float("-inf")): return FVal(fresh("inf", RealS))
                from fractions import Fraction
                fr = Fraction(v.v)
                return FVal(z3.RealVal(fr.numerator) / z3.RealVal(fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator))
            if v.v == "zero":
                r = self.mod.resolve(ty)
                if r.k == "struct": return Agg([self.val(st, f, Const(f, "zero")) for f in r.a])
                if r.k == "arr": return Agg([self.val(st, r.b, Const(r.b, "zero")) for _ in range(r.a)])
            raise ToolLimit("const %r" % (ty,))
        if isinstance(v, Glob):
            n = v.name
            if n in self.mod.aliases: return self.val(st, ty, self.mod.aliases[n])
            if n in self.mod.funcs: return FuncPtr(n)
            return PtrVal(self.global_obj(st, n), 0)
        if isinstance(v, CExpr):
            if v.op == "gep": return self.gep(st, v.ty, [(t, self.val(st, t, x)) for t, x in v.args])
            if v.op in ("bitcast", "addrspacecast"): return self.val(st, v.args[0][0], v.args[0][1])
            if v.op == "ptrtoint": return self.p2i(st, self.val(st, *v.args[0]), v.ty.a)
            if v.op == "inttoptr": return self.i2p(st, self.val(st, *v.args[0]))
            raise ToolLimit("constexpr %s" % v.op)
        if isinstance(v, CAgg): return Agg([self.val(st, t, x) for t, x in v.elems])
        raise ToolLimit("operand %r" % (v,))
    def gep(self, st, bt, args):
        base = args[0][1]
        if base is UNDEF: raise UndefUse()
        if isinstance(base, IntVal): base = self.i2p(st, base)
        if isinstance(base, FuncPtr): raise ToolLimit("gep on function")
        off = base.off
        m = self.mod
        def idx(t, v):
            if v is UNDEF: raise UndefUse()
            return v.lin if t.a == 64 else self.scanon(st, v)
        t, v = args[1]
        off = off + idx(t, v) * m.size(bt)
        ty = bt
        for t, v in args[2:]:
            r = m.resolve(ty)
            if r.k == "struct":
                o, ty = m.field_off(r, v.lin.c); off = off + o
            else:
                ty = r.b; off = off + idx(t, v) * m.size(ty)
        return PtrVal(base.obj, off)
    def p2i(self, st, p, w=64):
        if p is UNDEF: return UNDEF
        if isinstance(p, IntVal): return p
        if isinstance(p, FuncPtr): return self.havoc_int(st, w)
        if p.obj is None: return IntVal(w, p.off)
        e = z3.Int("base_%d" % p.obj)
        a = Atom.of(e, 1 << 12, (1 << 62)); a.base_of = p.obj
        st.assume(z3.And(e >= (1 << 12), e <= (1 << 62)))
        return IntVal(w, Lin.of(a) + p.off)
    def i2p(self, st, v):
        if v is UNDEF: return UNDEF
        if isinstance(v, PtrVal): return v
        bs = [a for a in v.lin.t if a.base_of is not None]
        if len(bs) == 1 and v.lin.t[bs[0]] == 1:
            return PtrVal(bs[0].base_of, v.lin - Lin.of(bs[0]))
        if v.lin.is_const(): return PtrVal(None, v.lin)
        raise ToolLimit("inttoptr")

    # ---------------------------------------------------------- memory access
    def deref(self, st, p, size, write, ins=None, what="access"):
        """validity of [p, p+size); returns object id or None when the path is dead"""
        if p is UNDEF:
            self.fail(st, "uninit", "use of an uninitialised pointer (%s)" % what, ins); raise PathEnd()
        if isinstance(p, IntVal): p = self.i2p(st, p)
        if isinstance(p, FuncPtr): raise ToolLimit("memory access through a function")
        if p.obj is None:
            self.fail(st, "null", "null pointer dereference (%s)" % what, ins); raise PathEnd()
        o = st.mem.get(p.obj)
        if o is None or o.status == "dead":
            self.fail(st, "dangling", "access to an object whose lifetime ended (%s)" % what, ins); raise PathEnd()
        if o.status == "freed":
            self.fail(st, "use-after-free", "access to released storage (%s)" % what, ins); raise PathEnd()
        if write and o.ro:
            self.fail(st, "frame", "write to an object that must not change (%s %s)" % (o.name, what), ins); raise PathEnd()
        sz = size if isinstance(size, Lin) else Lin({}, size)
        off = p.off
        if off.is_const() and o.size.is_const() and sz.is_const():
            g = (off.c >= 0 and off.c + sz.c <= o.size.c)
            if g is False and self.mode == "infer": raise PathEnd()
            if self.mode != "infer": self.oblige(st, "bounds", g, "access within the object", ins)
            if not g: raise PathEnd()
        else:
            g = z3.And(off.z >= 0, (off + sz).z <= o.size.z)
            k = ("bnd", (off).key(), sz.key(), o.size.key())
            if k not in st.canon:
                self.oblige(st, "bounds", g, "access within the object (%s)" % (o.name or o.kind), ins)
                st.canon[k] = True
        if self.watch_access: self.watch_access(self, st, o, off, write)
        return o.id

    def find_region(self, st, o, off, size, want, create=True):
        """region holding byte offset off; returns (index in o.regions, element index Lin) or None for cells"""
        for ri, r in enumerate(o.regions):
            d = off - r.start
            if d.is_const() and r.count.is_const():
                if 0 <= d.c < r.count.c * r.stride:
                    if d.c % r.stride: return (ri, None)
                    return (ri, d.div(r.stride))
                continue
            if len(o.regions) == 1 and o.kind == "heap": 
                if not d.divisible(r.stride): return (ri, None)
                return (ri, d.div(r.stride))
            if self.prove(st, z3.And(d.z >= 0, d.z < (r.count * r.stride).z), full=True):
                if not d.divisible(r.stride): return (ri, None)
                return (ri, d.div(r.stride))
        if not create: return None
        if o.kind == "heap":
            if want is None: return None
            return self.make_region(st, o.id, 0, size, o.size, want, off)
        if off.is_const(): return None
        # symbolic offset into a typed object: use its array fields
        exts = []
        if o.ty is not None:
            for lo, k, ty, cnt in self.mod.leaves(o.ty):
                if k == "arr": exts.append((lo, self.mod.size(ty) * cnt))
            if not exts: exts.append((0, self.mod.size(o.ty)))
        else: exts.append((0, o.size.c if o.size.is_const() else None))
        for lo, n in exts:
            if n is None: continue
            d = off - lo
            if len(exts) == 1 or self.prove(st, z3.And(d.z >= 0, d.z < n)):
                for ri, r in enumerate(o.regions):
                    if r.start <= lo and r.count.is_const() and lo + n <= r.start + r.count.c * r.stride:
                        # the only array of the object: the access has to stay inside it
                        d = off - r.start
                        self.oblige(st, "bounds", z3.And(d.z >= 0, d.z < (r.count * r.stride).z), "access within the array inside the object (%s)" % (o.name or o.kind))
                        if not d.divisible(r.stride): return (ri, None)
                        return (ri, d.div(r.stride))
                if n % size: continue
                return self.make_region(st, o.id, lo, size, Lin({}, n), want, off)
        return None
    def make_region(self, st, oid, start, stride, nbytes, want, off):
        o = st.w(oid)
        if want is None: raise ToolLimit("array of composite elements")
        if not nbytes.divisible(stride):
            if nbytes.is_const(): raise ToolLimit("array stride")
            cnt = Lin.of(Atom.of(nbytes.z / stride)); 
        else: cnt = nbytes.div(stride)
        sort = kind_sort(want)
        arr = fresh_arr("m", sort)
        live = z3.K(IntS, z3.BoolVal(False))
        if want == "ptr": raise ToolLimit("array of pointers")
        if o.fill:
            for lo, hi, b in o.fill:
                if want != "E" and lo <= start and nbytes.is_const() and start + nbytes.c <= hi and b == 0:
                    arr = z3.K(IntS, z3.IntVal(0) if want != "real" else z3.RealVal(0)); live = z3.K(IntS, z3.BoolVal(True))
        r = Region(start, stride, cnt, want, arr, live)
        if nbytes.is_const():
            for c in sorted(o.cells):
                if start <= c < start + nbytes.c:
                    sz, v = o.cells[c]
                    if (c - start) % stride or sz != stride: raise ToolLimit("mixed cells in array")
                    i = (c - start) // stride
                    if v is UNDEF: continue
                    r.arr = z3.Store(r.arr, i, self.to_elem(st, v, want)); r.live = z3.Store(r.live, i, z3.BoolVal(True))
                    del o.cells[c]
        o.regions.append(r)
        d = off - start
        if o.kind != "heap" and not (o.size.is_const() and start == 0 and nbytes == o.size):
            self.oblige(st, "bounds", z3.And(d.z >= 0, d.z < nbytes.z), "access within the array inside the object (%s)" % (o.name or o.kind))
        if not d.divisible(stride): return (len(o.regions) - 1, None)
        return (len(o.regions) - 1, d.div(stride))
    def to_elem(self, st, v, kind):
        if v is UNDEF: return None
        if kind == "E":
            if isinstance(v, EVal): return v.t
        elif kind == "real":
            if isinstance(v, FVal): return v.r
        elif isinstance(v, BoolV): return z3.If(zb(v.b), z3.IntVal(1), z3.IntVal(0))
        elif isinstance(v, IntVal): return self.ucanon(st, v).z
        raise ToolLimit("element kind %r for %r" % (kind, v))
    def from_elem(self, st, t, kind):
        if kind == "E": return EVal(t)
        if kind == "real": return FVal(t)
        w = kind[1]
        st.assume(z3.And(t >= 0, t < (1 << w)))
        return IntVal(w, Lin.of(Atom.of(t, 0, (1 << w) - 1)))

    def load(self, st, ty, p, ins=None):
        m = self.mod
        size = m.size(ty)
        if isinstance(p, IntVal): p = self.i2p(st, p)
        oid = self.deref(st, p, size, False, ins, "read")
        o = st.mem[oid]
        r = m.resolve(ty) if ty.k == "named" else ty
        if r.k in ("struct", "arr"):
            fs = []
            if r.k == "struct":
                for i in range(len(r.a)):
                    fo, ft = m.field_off(r, i); fs.append(self.load(st, ft, PtrVal(p.obj, p.off + fo), ins))
            else:
                s = m.size(r.b)
                for i in range(r.a): fs.append(self.load(st, r.b, PtrVal(p.obj, p.off + i * s), ins))
            return Agg(fs)
        want = kind_of(ty, m)
        if want == ("int", 1): want = ("int", 8)
        if p.off.is_const() and p.off.c in o.cells:
            return self.coerce(st, o.cells[p.off.c][1], o.cells[p.off.c][0], ty, size)
        fr = self.find_region(st, o, p.off, size, want)
        o = st.mem[oid]
        if fr is not None:
            ri, idx = fr; reg = o.regions[ri]
            if idx is None or reg.stride != size or (reg.kind != want and not (isinstance(want, tuple) and isinstance(reg.kind, tuple))):
                if reg.kind == "E": self.fail(st, "type", "raw read of element storage", ins); return UNDEF
                if idx is not None and want != reg.kind: raise ToolLimit("mixed-type array read")
                raise ToolLimit("misaligned array read")
            ok = self.oblige(st, "uninit", z3.simplify(z3.Select(reg.live, idx.z)), "read of initialised memory (%s)" % (o.name or o.kind), ins)
            return self.from_elem(st, self.sel(reg.arr, idx.z), reg.kind)
        if p.off.is_const():
            c = p.off.c
            for lo, (sz, v) in list(o.cells.items()):
                if lo < c + size and c < lo + sz and lo != c:
                    # partial overlap
                    if isinstance(v, IntVal) and isinstance(want, tuple) and lo <= c and c + size <= lo + sz and v.lin.is_const():
                        return IntVal(want[1], (v.lin.c % (1 << v.w)) >> (8 * (c - lo)))
                    return UNDEF
            if o.fill:
                for lo, hi, b in reversed(o.fill):
                    if lo <= c and c + size <= hi and b == 0:
                        return self.val(st, ty, Const(ty, "zero"))
            if o.tag == "lazy":
                v = self.lazy_cell(st, o, c, ty)
                return v
            return UNDEF
        raise ToolLimit("symbolic read from %s" % (o.name or o.kind))
    def sel(self, arr, i):
        return z3.simplify(z3.Select(arr, i)) if z3.is_app(arr) and arr.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY) else z3.Select(arr, i)
    def lazy_cell(self, st, o, c, ty):
        ow = st.w(o.id)
        if ty.k == "ptr":
            t = st.new_obj("heap", 1 << 40, None, "lazy@%d" % c); t.tag = None
            v = PtrVal(t.id, 0)
        elif ty.k == "int": v = IntVal(ty.a, self.fresh_int(st, "lz%d" % c, 0, (1 << ty.a) - 1)) if ty.a > 1 else BoolV(fresh("lzb", BoolS))
        elif ty.k in ("double", "float"): v = FVal(fresh("lzf", RealS))
        else: return UNDEF
        ow.cells[c] = (self.mod.size(ty), v)
        return v
    def coerce(self, st, v, vsize, ty, size):
        if v is UNDEF: return UNDEF
        if isinstance(v, EVal): raise ToolLimit("raw read of an element")
        if ty.k == "ptr":
            if isinstance(v, (PtrVal, FuncPtr)): return v
            if isinstance(v, IntVal) and v.w == 64: return self.i2p(st, v)
        elif ty.k == "int":
            if isinstance(v, BoolV): v = self.from_bool(8, v.b)
            if isinstance(v, IntVal):
                if ty.a == 1: return BoolV(self.boolval(st, v))
                if v.w == ty.a: return v
                if v.w > ty.a: return IntVal(ty.a, v.lin)
                return UNDEF
            if isinstance(v, PtrVal) and ty.a == 64: return self.p2i(st, v)
        elif ty.k in ("double", "float"):
            if isinstance(v, FVal): return v
        raise ToolLimit("type-punned read %r as %r" % (v, ty))

    def store(self, st, ty, v, p, ins=None):
        m = self.mod
        size = m.size(ty)
        if isinstance(p, IntVal): p = self.i2p(st, p)
        oid = self.deref(st, p, size, True, ins, "write")
        r = m.resolve(ty) if ty.k == "named" else ty
        if r.k in ("struct", "arr"):
            if v is UNDEF: return
            for i, x in enumerate(v.f):
                if r.k == "struct": fo, ft = m.field_off(r, i)
                else: ft = r.b; fo = m.size(ft) * i
                self.store(st, ft, x, PtrVal(p.obj, p.off + fo), ins)
            return
        o = st.mem[oid]
        want = kind_of(ty, m)
        if want == ("int", 1): want = ("int", 8); v = v if v is UNDEF else self.from_bool(8, self.boolval(st, v))
        fr = self.find_region(st, o, p.off, size, want)
        o = st.w(oid)
        if fr is not None:
            ri, idx = fr; reg = o.regions[ri]
            if reg.kind == "E":
                self.fail(st, "lifetime", "raw write over element storage", ins); return
            if idx is None or reg.stride != size: raise ToolLimit("misaligned array write")
            if v is UNDEF:
                reg.live = z3.Store(reg.live, idx.z, z3.BoolVal(False)); return
            nv = self.to_elem(st, v, reg.kind)
            if self.store_hook: self.store_hook(self, st, o, reg, idx.z, None, nv)
            reg.arr = z3.Store(reg.arr, idx.z, nv); reg.live = z3.Store(reg.live, idx.z, z3.BoolVal(True))
            return
        if not p.off.is_const(): raise ToolLimit("symbolic write to %s" % (o.name or o.kind))
        c = p.off.c
        for lo in list(o.cells):
            sz, ov = o.cells[lo]
            if lo < c + size and c < lo + sz and lo != c:
                if isinstance(ov, EVal): self.fail(st, "lifetime", "write over a live element", ins)
                del o.cells[lo]
        if c in o.cells and isinstance(o.cells[c][1], EVal):
            self.fail(st, "lifetime", "write over a live element", ins)
        o.cells[c] = (size, v)

    # ---------------------------------------------------------- element operations
    def e_loc(self, st, p, size, write, ins, what):
        oid = self.deref(st, p, size, write, ins, what)
        o = st.mem[oid]
        fr = self.find_region(st, o, p.off, size, "E")
        if fr is not None and (fr[1] is None or st.mem[oid].regions[fr[0]].kind != "E"):
            self.fail(st, "type", "element access to storage of another kind (%s)" % what, ins); raise PathEnd()
        if fr is None and not p.off.is_const(): raise ToolLimit("symbolic element offset")
        return oid, fr
    def e_read(self, st, p, ins=None, what="element read", size=8):
        oid, fr = self.e_loc(st, p, size, False, ins, what)
        o = st.mem[oid]
        if fr is None:
            c = o.cells.get(p.off.c)
            if c is None or not isinstance(c[1], EVal):
                self.fail(st, "lifetime", "%s of a dead element" % what, ins); raise PathEnd()
            return c[1].t
        reg = o.regions[fr[0]]
        self.oblige(st, "lifetime", z3.simplify(z3.Select(reg.live, fr[1].z)), "%s: element is alive" % what, ins)
        return self.sel(reg.arr, fr[1].z)
    def e_set(self, st, p, t, mode, ins=None, what="", size=8):
        """mode: construct (must be dead), assign (must be alive), destroy (must be alive)"""
        oid, fr = self.e_loc(st, p, size, True, ins, what or mode)
        o = st.w(oid)
        if fr is None:
            c = p.off.c
            cur = o.cells.get(c)
            alive = cur is not None and isinstance(cur[1], EVal)
            if mode == "construct":
                if alive: self.fail(st, "lifetime", "construction over a live element", ins); return
            elif not alive:
                self.fail(st, "lifetime", "%s of a dead element" % mode, ins); raise PathEnd()
            if mode == "destroy": del o.cells[c]
            else:
                for lo in list(o.cells):
                    sz, ov = o.cells[lo]
                    if lo < c + size and c < lo + sz and lo != c:
                        if isinstance(ov, EVal): self.fail(st, "lifetime", "write over a live element", ins)
                        del o.cells[lo]
                o.cells[c] = (size, EVal(t))
            return
        reg = o.regions[fr[0]]; i = fr[1].z
        lv = z3.simplify(z3.Select(reg.live, i))
        if mode == "construct": self.oblige(st, "lifetime", z3.Not(lv), "construct: slot is not already alive", ins)
        else: self.oblige(st, "lifetime", lv, "%s: element is alive" % mode, ins)
        o = st.w(oid); reg = o.regions[fr[0]]
        if mode == "destroy":
            if self.store_hook: self.store_hook(self, st, o, reg, i, True, None)
            reg.live = z3.Store(reg.live, i, z3.BoolVal(False))
        else:
            if self.store_hook: self.store_hook(self, st, o, reg, i, mode == "assign", t)
            reg.arr = z3.Store(reg.arr, i, t)
            if mode == "construct": reg.live = z3.Store(reg.live, i, z3.BoolVal(True))
    def kill_obj_check(self, st, o, why):
        """storage of o goes away: it must hold no live element"""
        for c, (sz, v) in o.cells.items():
            if isinstance(v, EVal):
                self.fail(st, "leak", "element still alive when its storage ends (%s)" % why)
        for r in o.regions:
            if r.kind == "E":
                j = z3.Int("leak_j")
                lv = z3.Select(r.live, j)
                g = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < r.count.z), z3.Not(lv)))
                if z3.is_app(r.live) and r.live.decl().kind() == z3.Z3_OP_CONST_ARRAY and z3.is_false(r.live.arg(0)): continue
                self.oblige(st, "leak", self.skolem(g), "no element alive when its storage ends (%s)" % why, assume=False)
    def skolem(self, g):
        """goal-side: replace a leading universal by a fresh constant"""
        if z3.is_quantifier(g) and g.is_forall():
            n = g.num_vars()
            cs = [fresh("sk", g.var_sort(n - 1 - i)) for i in range(n)]
            return z3.substitute_vars(g.body(), *cs)
        return g

    # ---------------------------------------------------------- running
    def call_state(self, st, fname, args, ret_reg=None):
        """push a frame for fname"""
        f = self.mod.funcs[fname]
        fr = Frame(f)
        order, blocks = self.mod.blocks(f)
        fr.blk = order[0]
        for (t, nm, at), a in zip(f.params, args): fr.regs[nm] = a
        self.functions.add(fname)
        if len(st.frames) > getattr(self, "max_depth", 120): raise ToolLimit("call depth")
        for g in st.frames:
            pass
        st.frames.append(fr)
        return fr

    def run(self, st0, depth, stop=None):
        """run all paths from st0 until frame depth `depth` returns/unwinds, or
        the stop callback claims the state.  Returns outcomes."""
        out, work = [], [st0]
        while work:
            st = work.pop()
            try:
                self.step_path(st, depth, stop, work, out)
            except PathEnd:
                pass
        return out

    def step_path(self, st, depth, stop, work, out):
        mod = self.mod
        while True:
            fr = st.top
            order, blocks = mod.blocks(fr.f)
            blk = blocks[fr.blk]
            if fr.idx >= len(blk): raise ToolLimit("fell off block")
            ins = blk[fr.idx]
            self.tick()
            try:
                r = self.exec(st, ins, depth, stop, work, out)
            except UndefUse:
                self.fail(st, "uninit", "result depends on uninitialised memory", ins)
                return
            if r == "done": return

    def jump(self, st, target, depth, stop, work, out):
        """transfer control of the top frame to block target. Returns True when the path was consumed"""
        fr = st.top
        d = len(st.frames)
        if stop is not None:
            k = stop(st, fr, target, d)
            if k is not None:
                out.append(Outcome(k, st, target)); return True
        # phis
        order, blocks = self.mod.blocks(fr.f)
        blk = blocks[target]
        prev = fr.blk
        vals = {}
        i = 0
        while i < len(blk) and blk[i].op == "phi":
            for v, lb in blk[i].args:
                if lb == prev: vals[blk[i].res] = self.val(st, blk[i].ty, v); break
            else: raise ToolLimit("phi")
            i += 1
        fr.regs.update(vals)
        fr.prev = prev; fr.blk = target; fr.idx = i
        loops = self.mod.loops(fr.f)
        if target in loops and prev not in loops[target] and fr.noloop != target:
            return self.loop(st, target, loops[target], depth, stop, work, out)
        if target in loops and prev in loops[target]:
            n = fr.unroll.get(target, 0) + 1
            fr.unroll[target] = n
            lim = self.bounded_unroll if self.bounded_unroll is not None else 4096
            if n > lim:
                if self.bounded_unroll is not None: raise PathEnd()
                raise ToolLimit("unroll")
        return False

    def branch(self, st, cond, ins):
        """returns list of (state, bool)"""
        b = self.boolval(st, cond)
        if not isinstance(b, bool):
            b = z3.simplify(b)
            if z3.is_true(b): b = True
            elif z3.is_false(b): b = False
        if isinstance(b, bool): return [(st, b)]
        t_ok = self.feasible(st, b); f_ok = self.feasible(st, z3.Not(b))
        if t_ok and f_ok and st.pc_has_q:
            if self.full.check(st.pc, b) == z3.unsat: t_ok = False
            elif self.full.check(st.pc, z3.Not(b)) == z3.unsat: f_ok = False
        res = []
        if t_ok and f_ok:
            s2 = st.fork(); s2.assume(z3.Not(b)); st.assume(b)
            return [(st, True), (s2, False)]
        if t_ok: st.assume(b); return [(st, True)]
        if f_ok: st.assume(z3.Not(b)); return [(st, False)]
        return []

    def exec(self, st, ins, depth, stop, work, out):
        op = ins.op; fr = st.top; m = self.mod
        V_ = lambda tv: self.val(st, tv[0], tv[1])
        if op == "alloca":
            cnt = 1
            if ins.args[0] is not None:
                c = self.val(st, ins.args[0][0], ins.args[0][1])
                if not c.lin.is_const(): raise ToolLimit("dynamic alloca")
                cnt = c.lin.c
            o = st.new_obj("alloca", m.size(ins.ty) * cnt, ins.ty if cnt == 1 else Ty("arr", cnt, ins.ty), ins.res)
            o.frame = len(st.frames)
            fr.allocas.append(o.id)
            fr.regs[ins.res] = PtrVal(o.id, 0)
            if self.models and cnt == 1 and ins.ty.k == "named" and ins.ty.a in self.models: st.conts[(o.id, 0)] = self.models[ins.ty.a]
        elif op == "load":
            r = self.atomic_op(st, "load", V_(ins.args[0]), ins) if ins.extra == "atomic" else None
            fr.regs[ins.res] = self.load(st, ins.ty, V_(ins.args[0]), ins) if r is None else r
        elif op == "store":
            if ins.extra == "atomic" and self.atomic_op(st, "store", V_(ins.args[1]), ins, V_(ins.args[0])) is not None: pass
            else: self.store(st, ins.ty, V_(ins.args[0]), V_(ins.args[1]), ins)
        elif op == "gep":
            if ins.ty.k in ("vec",): raise ToolLimit("vector gep")
            fr.regs[ins.res] = self.gep(st, ins.ty, [(t, self.val(st, t, x)) for t, x in ins.args])
        elif op == "br":
            if len(ins.extra) == 1:
                if self.jump(st, ins.extra[0], depth, stop, work, out): return "done"
                return
            br = self.branch(st, V_(ins.args[0]), ins)
            if not br: return "done"
            for s, b in br[1:]:
                s.hist = s.hist + ((ins.extra[1 - int(b)]),)
                tgt = ins.extra[0] if b else ins.extra[1]
                try:
                    if not self.jump(s, tgt, depth, stop, work, out): work.append(s)
                except PathEnd: pass
            s, b = br[0]
            if self.jump(s, ins.extra[0] if b else ins.extra[1], depth, stop, work, out): return "done"
            return
        elif op == "switch":
            v = V_(ins.args[0])
            if v is UNDEF: raise UndefUse()
            l = self.ucanon(st, v) if isinstance(v, IntVal) else Lin.of(z3.If(zb(v.b), z3.IntVal(1), z3.IntVal(0)))
            d, cases = ins.extra
            M = 1 << v.w if isinstance(v, IntVal) else 2
            if l.is_const():
                tgt = d
                for c, lb in cases:
                    if c % M == l.c: tgt = lb
                if self.jump(st, tgt, depth, stop, work, out): return "done"
                return
            ne = []
            for c, lb in cases:
                eq = l.z == (c % M)
                ne.append(z3.Not(eq))
                if self.feasible(st, eq):
                    s2 = st.fork(); s2.assume(eq)
                    try:
                        if not self.jump(s2, lb, depth, stop, work, out): work.append(s2)
                    except PathEnd: pass
            if ne and not self.feasible(st, *ne): return "done"
            for x in ne: st.assume(x)
            if self.jump(st, d, depth, stop, work, out): return "done"
            return
        elif op == "ret":
            v = V_(ins.args[0]) if ins.args else None
            self.pop_frame(st, depth, v, stop, work, out)
            if len(st.frames) < depth: return "done"
            return
        elif op in ("call", "invoke"):
            return self.do_call(st, ins, depth, stop, work, out)
        elif op == "icmp":
            fr.regs[ins.res] = BoolV(self.icmp(st, ins))
        elif op == "fcmp":
            a, b = self.val(st, ins.ty, ins.args[0]), self.val(st, ins.ty, ins.args[1])
            if a is UNDEF or b is UNDEF: raise UndefUse()
            a, b = a.r, b.r
            pr = ins.extra
            r = {"oeq": a == b, "ueq": a == b, "one": a != b, "une": a != b, "olt": a < b, "ult": a < b, "ole": a <= b, "ule": a <= b,
                 "ogt": a > b, "ugt": a > b, "oge": a >= b, "uge": a >= b, "ord": z3.BoolVal(True), "uno": z3.BoolVal(False), "true": z3.BoolVal(True), "false": z3.BoolVal(False)}[pr]
            r = z3.simplify(r)
            fr.regs[ins.res] = BoolV(True if z3.is_true(r) else False if z3.is_false(r) else r)
        elif op == "bin":
            fr.regs[ins.res] = self.binop(st, ins)
        elif op == "fneg":
            v = self.val(st, ins.ty, ins.args[0])
            if v is UNDEF: raise UndefUse()
            fr.regs[ins.res] = FVal(-v.r)
        elif op == "cast":
            fr.regs[ins.res] = self.cast(st, ins)
        elif op == "select":
            c = self.boolval(st, V_(ins.args[0]))
            a, b = V_(ins.args[1]), V_(ins.args[2])
            if not isinstance(c, bool):
                c = z3.simplify(c)
                if z3.is_true(c): c = True
                elif z3.is_false(c): c = False
            if isinstance(c, bool): fr.regs[ins.res] = a if c else b
            elif isinstance(a, IntVal) and isinstance(b, IntVal):
                la, lb = self.ucanon(st, a), self.ucanon(st, b)
                fr.regs[ins.res] = IntVal(a.w, Lin.of(Atom.of(z3.If(c, la.z, lb.z), 0, (1 << a.w) - 1)))
            elif isinstance(a, BoolV) and isinstance(b, BoolV): fr.regs[ins.res] = BoolV(z3.If(c, zb(a.b), zb(b.b)))
            elif isinstance(a, FVal) and isinstance(b, FVal): fr.regs[ins.res] = FVal(z3.If(c, a.r, b.r))
            else:
                br = self.branch(st, BoolV(c), ins)
                for s, bb in br:
                    s.top.regs[ins.res] = a if bb else b; s.top.idx += 1
                for s, bb in br[1:]: work.append(s)
                if not br: return "done"
                if br[0][0] is not st: work.append(br[0][0]); return "done"
                return
        elif op == "extractvalue":
            v = V_(ins.args[0])
            for i in ins.extra:
                if v is UNDEF: break
                v = v.f[i]
            fr.regs[ins.res] = v
        elif op == "insertvalue":
            v = V_(ins.args[0]); e = V_(ins.args[1])
            r = m.resolve(ins.ty)
            n = len(r.a) if r.k == "struct" else r.a
            if v is UNDEF: v = Agg([UNDEF] * n)
            v = Agg(v.f)
            if len(ins.extra) != 1: raise ToolLimit("nested insertvalue")
            v.f[ins.extra[0]] = e
            fr.regs[ins.res] = v
        elif op == "landingpad":
            cleanup, cl = ins.extra
            exc = st.exc
            sel = 0
            for k, c in cl:
                if k == "catch":
                    if isinstance(c, Const) and c.v is None: sel = 1; break
                    n = c.name if isinstance(c, Glob) else ""
                    if self.exc_matches(exc["type"], n): sel = self.typeid(n); break
            if sel == 0 and not cleanup and cl:
                # no clause matches: continue unwinding
                self.unwind(st, depth, stop, work, out); return "done"
            fr.regs[ins.res] = Agg([exc["ptr"], IntVal(32, sel)])
        elif op == "resume":
            self.unwind(st, depth, stop, work, out); return "done"
        elif op == "unreachable":
            self.fail(st, "unreachable", "unreachable code reached", ins); return "done"
        elif op == "freeze":
            v = V_(ins.args[0]); fr.regs[ins.res] = v
        elif op == "atomicrmw":
            p = V_(ins.args[0]); v = V_(ins.args[1])
            r = self.atomic_op(st, ins.extra, p, ins, v)
            if isinstance(r, list):            # several outcomes: [(state, value)]
                for s2, x in r[1:]:
                    s2.top.regs[ins.res] = x; s2.top.idx += 1; work.append(s2)
                r = r[0][1]
            fr.regs[ins.res] = r if r is not None else self.load(st, ins.ty, p, ins)
            if r is None: self.store(st, ins.ty, v if ins.extra == "xchg" else self.havoc_int(st, ins.ty.a), p, ins)
        elif op == "fence": pass
        else:
            raise ToolLimit("unsupported instruction: %s" % ins.text)
        fr.idx += 1
    atomics = None             # unit's model of atomic accesses: fn(ex, st, kind, ptr, ins, val)
    def atomic_op(self, st, kind, p, ins, v=None):
        return self.atomics(self, st, kind, p, ins, v) if self.atomics else None
    def typeid(self, n):
        import zlib
        return 2 + zlib.crc32(n.encode()) % 1000000
    def exc_matches(self, ty, clause):
        if ty == clause: return True
        if clause in ("@_ZTISt9exception",): return True
        if clause == "@_ZTISt11logic_error": return ty in ("@_ZTISt12out_of_range", "@_ZTISt16invalid_argument", "@_ZTISt12length_error")
        return False

    def pop_frame(self, st, depth, v, stop, work, out):
        fr = st.top
        if self.on_return is not None: self.on_return(self, st, fr)
        for oid in fr.allocas:
            o = st.mem.get(oid)
            if o is not None:
                if o.status == "live" and (o.regions or any(isinstance(c[1], EVal) for c in o.cells.values())):
                    self.kill_obj_check(st, o, "scope exit of %s in %s" % (o.name, self.short(fr.f.name)[:80]))
                del st.mem[oid]
        for k in [k for k in st.conts if k[0] in fr.allocas]: del st.conts[k]
        st.frames.pop()
        if len(st.frames) < depth:
            out.append(Outcome("ret", st, v)); return
        ci = fr.call
        top = st.top
        if ci.res is not None: top.regs[ci.res] = v
        if ci.op == "invoke":
            if self.jump(st, ci.extra["normal"], depth, stop, work, out): raise PathEnd()
        else: top.idx += 1

    def throw(self, st, exc, depth, stop, work, out):
        """exception leaves the current call instruction of the top frame"""
        st.exc = exc
        top = st.top
        ins = self.mod.blocks(top.f)[1][top.blk][top.idx]
        if ins.op == "invoke":
            if not self.jump(st, ins.extra["unwind"], depth, stop, work, out): work.append(st)
            return
        self.unwind(st, depth, stop, work, out)
    def unwind(self, st, depth, stop, work, out):
        while True:
            fr = st.top
            if self.mod.has_attr(fr.f, "nounwind") and not fr.f.name.startswith("@__clang"):
                self.fail(st, "terminate", "exception escapes a noexcept function")
                raise PathEnd()
            for oid in fr.allocas:
                o = st.mem.get(oid)
                if o is not None:
                    if o.regions or any(isinstance(c[1], EVal) for c in o.cells.values()):
                        self.kill_obj_check(st, o, "unwinding %s in %s" % (o.name, self.short(fr.f.name)[:80]))
                    del st.mem[oid]
            for k in [k for k in st.conts if k[0] in fr.allocas]: del st.conts[k]
            st.frames.pop()
            if len(st.frames) < depth:
                out.append(Outcome("throw", st, st.exc)); return
            top = st.top
            ins = self.mod.blocks(top.f)[1][top.blk][top.idx]
            if ins.op == "invoke":
                if not self.jump(st, ins.extra["unwind"], depth, stop, work, out): work.append(st)
                return

    # ---------------------------------------------------------- calls
    def do_call(self, st, ins, depth, stop, work, out):
        fr = st.top
        callee = ins.extra["callee"]
        if isinstance(callee, Glob): 
            name = callee.name
            if name in self.mod.aliases:
                fv = self.val(st, ir.PTR, callee); name = fv.name
        else:
            fv = self.val(st, ir.PTR, callee)
            if fv is UNDEF: raise UndefUse()
            if not isinstance(fv, FuncPtr):
                if isinstance(fv, PtrVal) and fv.obj is None:
                    self.fail(st, "null", "call through a null function pointer", ins); raise PathEnd()
                raise ToolLimit("indirect call")
            name = fv.name
        args = [self.val(st, t, v) for t, v, a in ins.args if t.k != "metadata"]
        if name.startswith("@llvm.") and not name.startswith(("@llvm.memcpy","@llvm.memset","@llvm.memmove")):
            r = self.intrinsic(st, name, ins, args)
            if r is not None and ins.res is not None: fr.regs[ins.res] = r
            fr.idx += 1
            return
        # byval args: copy
        for k, (t, v, a) in enumerate([x for x in ins.args if x[0].k != "metadata"]):
            if "byval" in a:
                ty = a["byval"]
                o = st.new_obj("alloca", self.mod.size(ty), ty, "byval"); fr.allocas.append(o.id)
                self.memcpy(st, PtrVal(o.id, 0), args[k], Lin({}, self.mod.size(ty)), ins)
                args[k] = PtrVal(o.id, 0)
        h = self.externs.get(name)
        f = self.mod.funcs.get(name)
        res = None
        if h is not None:
            res = h(self, st, ins, args)
        else:
            c = self.find_contract(st, name)
            if c is not None:
                res = c(self, st, ins, args)
            if res is None and f is not None and f.defined:
                self.enter(st, ins, name, args)
                return
            if res is None:
                res = self.builtin(st, name, ins, args)
        if res is None: raise ToolLimit("call to external function %s" % self.short(name))
        # res: list of (state, value) or ("throw", ...)
        first = True
        for s, v in res:
            if isinstance(v, Throw):
                self.throw(s, v.exc, depth, stop, work, out); continue
            if isinstance(v, Redirect): self.enter(s, ins, v.name, v.args); work.append(s); continue
            if ins.res is not None: s.top.regs[ins.res] = v
            if ins.op == "invoke":
                try:
                    if not self.jump(s, ins.extra["normal"], depth, stop, work, out): work.append(s)
                except PathEnd: pass
            else:
                s.top.idx += 1; work.append(s)
        return "done"
    def enter(self, st, ins, name, args):
        n = sum(1 for g in st.frames if g.f.name == name)
        if n > 40: raise ToolLimit("recursion without contract: %s" % self.short(name))
        f = self.call_state(st, name, args)
        f.call = ins
    def find_contract(self, st, name):
        for match, h in self.contracts:
            if match(name, self.short(name)): return h
        return None

    def intrinsic(self, st, name, ins, args):
        if name.startswith(("@llvm.dbg","@llvm.lifetime","@llvm.assume","@llvm.invariant","@llvm.experimental.noalias","@llvm.prefetch","@llvm.donothing","@llvm.var.annotation")): return None
        if name == "@llvm.trap": self.fail(st, "trap", "trap reached", ins); raise PathEnd()
        if name.startswith("@llvm.expect"): return args[0]
        if name.startswith("@llvm.is.constant"): return BoolV(False)
        if name.startswith("@llvm.objectsize"): return IntVal(64, -1)
        if name.startswith("@llvm.eh.typeid.for"):
            n = ins.args[0][1].name if isinstance(ins.args[0][1], Glob) else ""
            return IntVal(32, self.typeid(n))
        if name.startswith(("@llvm.umin","@llvm.umax")):
            a, b = self.ucanon(st, args[0]), self.ucanon(st, args[1]); c = a.z < b.z if "umin" in name else a.z > b.z
            return IntVal(args[0].w, Lin.of(Atom.of(z3.If(c, a.z, b.z), 0, (1 << args[0].w) - 1)))
        if name.startswith("@llvm.fabs"): return FVal(z3.If(args[0].r < 0, -args[0].r, args[0].r))
        if name.startswith("@llvm.fmuladd"): return FVal(self.rmul(args[0].r, args[1].r, st) + args[2].r)
        mo = re.match(r"@llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)", name)
        if mo:
            w = int(mo.group(3)); cn = self.scanon if mo.group(1) == "s" else self.ucanon
            a, b = cn(st, args[0]), cn(st, args[1])
            if mo.group(2) == "add": r = a + b
            elif mo.group(2) == "sub": r = a - b
            else: r = self.mul(st, a, b)
            lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if mo.group(1) == "s" else (0, (1 << w) - 1)
            ov = z3.simplify(z3.Or(r.z < lo, r.z > hi))
            return Agg([IntVal(w, r), BoolV(True if z3.is_true(ov) else False if z3.is_false(ov) else ov)])
        raise ToolLimit("intrinsic %s" % name)

    # ---------------------------------------------------------- arithmetic
    opaque_real = False
    def rmul(self, a, b, st=None):
        """product of reals; of two unknowns it stays uninterpreted if asked (keeps the queries linear)"""
        if not self.opaque_real: return a * b
        c = z3.is_rational_value(z3.simplify(a)) + z3.is_rational_value(z3.simplify(b))
        if c:
            if c == 1 and st is not None: st.assume(rprod(a, b) == a * b)         # the uninterpreted product agrees with the real one here
            return a * b
        neg = False
        if z3.is_app_of(a, z3.Z3_OP_UMINUS): a, neg = a.arg(0), not neg
        if z3.is_app_of(b, z3.Z3_OP_UMINUS): b, neg = b.arg(0), not neg
        return -rprod(a, b) if neg else rprod(a, b)
    def rdiv(self, a, b, st=None):
        if not self.opaque_real: return a / b
        if z3.is_rational_value(z3.simplify(b)):
            if st is not None: st.assume(RDIV(a, b) == a / b)
            return a / b
        return RDIV(a, b)
    def mul(self, st, a, b):
        if a.is_const(): return b * a.c
        if b.is_const(): return a * b.c
        (al, ah), (bl, bh) = a.rng(), b.rng()
        lo = hi = None
        if self.opaque_mul:
            # products of two unknowns stay uninterpreted (keeps the queries linear); only signs and bounds are known
            if b.key() < a.key(): a, b = b, a
            e = PROD(a.z, b.z)
            st.assume(z3.And(z3.Implies(z3.Or(a.z == 0, b.z == 0), e == 0), z3.Implies(z3.And(a.z >= 0, b.z >= 0), e >= 0),
                             z3.Implies(z3.And(a.z >= 1, b.z >= 1), z3.And(e >= a.z, e >= b.z)), z3.Implies(a.z == 1, e == b.z), z3.Implies(b.z == 1, e == a.z)))
        else: e = a.z * b.z
        if None not in (al, ah, bl, bh):
            ps = [al*bl, al*bh, ah*bl, ah*bh]; lo, hi = min(ps), max(ps)
        return Lin.of(Atom.of(e, lo, hi))
    def binop(self, st, ins):
        op, fl = ins.extra; ty = ins.ty
        a, b = self.val(st, ty, ins.args[0]), self.val(st, ty, ins.args[1])
        if ty.k in ("double", "float"):
            if a is UNDEF or b is UNDEF: return UNDEF
            a, b = a.r, b.r
            if op == "fadd": return FVal(a + b)
            if op == "fsub": return FVal(a - b)
            if op == "fmul": return FVal(self.rmul(a, b, st))
            if op == "fdiv": return FVal(self.rdiv(a, b, st))
            raise ToolLimit(op)
        if ty.k != "int": raise ToolLimit("vector op")
        w = ty.a
        if a is UNDEF or b is UNDEF: return UNDEF
        if w == 1:
            x, y = self.boolval(st, a), self.boolval(st, b)
            if isinstance(x, bool) and isinstance(y, bool):
                return BoolV({"and": x and y, "or": x or y, "xor": x != y}.get(op))
            x, y = zb(x), zb(y)
            if op == "and": return BoolV(z3.And(x, y))
            if op == "or": return BoolV(z3.Or(x, y))
            if op == "xor": return BoolV(z3.Xor(x, y))
            raise ToolLimit("i1 %s" % op)
        if isinstance(a, PtrVal): a = self.p2i(st, a)
        if isinstance(b, PtrVal): b = self.p2i(st, b)
        if isinstance(a, BoolV): a = self.from_bool(w, a.b)
        if isinstance(b, BoolV): b = self.from_bool(w, b.b)
        M, H = 1 << w, 1 << (w - 1)
        if op in ("add", "sub", "mul"):
            if "nsw" in fl:
                if op == "sub":
                    # pointer difference keeps bases symbolic
                    if any(x.base_of is not None for x in a.lin.t) or any(x.base_of is not None for x in b.lin.t):
                        return IntVal(w, a.lin - b.lin)
                x, y = self.scanon(st, a), self.scanon(st, b)
                r = x + y if op == "add" else x - y if op == "sub" else self.mul(st, x, y)
                lo, hi = r.rng()
                if not (lo is not None and hi is not None and lo >= -H and hi < H):
                    self.oblige(st, "overflow", z3.And(r.z >= -H, r.z < H), "signed arithmetic does not overflow", ins)
                return IntVal(w, r)
            if op == "add": return IntVal(w, a.lin + b.lin)
            if op == "sub": return IntVal(w, a.lin - b.lin)
            if a.lin.is_const() or b.lin.is_const(): return IntVal(w, self.mul(st, a.lin, b.lin))
            return IntVal(w, self.mul(st, self.ucanon(st, a), self.ucanon(st, b)))
        if op in ("udiv", "urem"):
            x, y = self.ucanon(st, a), self.ucanon(st, b)
            if not (y.is_const() and y.c): self.oblige(st, "div0", y.z != 0, "division by zero", ins)
            if x.is_const() and y.is_const(): return IntVal(w, x.c // y.c if op == "udiv" else x.c % y.c)
            if op == "udiv":
                if y.is_const() and x.divisible(y.c): return IntVal(w, x.div(y.c))
                return IntVal(w, Lin.of(Atom.of(x.z / y.z, 0, x.rng()[1])))
            return IntVal(w, Lin.of(Atom.of(x.z % y.z, 0, (y.c - 1) if y.is_const() else y.rng()[1])))
        if op in ("sdiv", "srem"):
            if op == "sdiv" and b.lin.is_const() and a.lin.divisible(b.lin.c) and ("exact" in fl or any(x.base_of is not None for x in a.lin.t)):
                return IntVal(w, a.lin.div(b.lin.c))
            x, y = self.scanon(st, a), self.scanon(st, b)
            if "exact" in fl and y.is_const() and x.divisible(y.c): return IntVal(w, x.div(y.c))
            if not (y.is_const() and y.c): self.oblige(st, "div0", y.z != 0, "division by zero", ins)
            if not (y.is_const() and y.c != -1): self.oblige(st, "overflow", z3.Not(z3.And(x.z == -H, y.z == -1)), "signed division overflow", ins)
            if x.is_const() and y.is_const():
                q = abs(x.c) // abs(y.c) * (1 if (x.c < 0) == (y.c < 0) else -1)
                return IntVal(w, q if op == "sdiv" else x.c - q * y.c)
            q = z3.If(x.z >= 0, x.z / y.z, -((-x.z) / y.z))
            lo, hi = x.rng()
            if lo is not None and lo >= 0: q = x.z / y.z
            ql = Lin.of(Atom.of(q, 0 if (lo is not None and lo >= 0 and y.is_const() and y.c > 0) else -H, H))
            if op == "sdiv": return IntVal(w, ql)
            return IntVal(w, x - self.mul(st, ql, y))
        if op == "shl":
            s = self.ucanon(st, b)
            if s.is_const(): return IntVal(w, a.lin * (1 << s.c)) if s.c < w else UNDEF
        if op == "lshr":
            s = self.ucanon(st, b); x = self.ucanon(st, a)
            if s.is_const():
                if x.divisible(1 << s.c): return IntVal(w, x.div(1 << s.c))
                return IntVal(w, Lin.of(Atom.of(x.z / (1 << s.c), 0, (M - 1) >> s.c)))
        if op == "ashr":
            s = self.ucanon(st, b); x = self.scanon(st, a)
            if s.is_const():
                if x.divisible(1 << s.c): return IntVal(w, x.div(1 << s.c))
                return IntVal(w, Lin.of(Atom.of(x.z / (1 << s.c), -H, H - 1)))
        if op in ("and", "or", "xor"):
            if a.lin.is_const() and not b.lin.is_const(): a, b = b, a
            if a.lin.is_const() and b.lin.is_const():
                x, y = a.lin.c % M, b.lin.c % M
                return IntVal(w, x & y if op == "and" else x | y if op == "or" else x ^ y)
            if b.lin.is_const():
                c = b.lin.c % M
                if op == "and":
                    if c == 0: return IntVal(w, 0)
                    if c == M - 1: return a
                    if (c & (c + 1)) == 0:
                        x = self.ucanon(st, a)
                        return IntVal(w, Lin.of(Atom.of(x.z % (c + 1), 0, c)))
                    inv = (~c) % M
                    if (inv & (inv + 1)) == 0:
                        x = self.ucanon(st, a)
                        return IntVal(w, x - Lin.of(Atom.of(x.z % (inv + 1), 0, inv)))
                if op == "or" and c == 0: return a
                if op == "xor":
                    if c == 0: return a
                    if c == M - 1: return IntVal(w, -a.lin - 1)
            if a.b is not None and b.b is not None:
                if op == "and": return self.from_bool(w, z3.And(a.b, b.b))
                if op == "or": return self.from_bool(w, z3.Or(a.b, b.b))
                return self.from_bool(w, z3.Xor(a.b, b.b))
        return self.havoc_int(st, w, "bits")
    def icmp(self, st, ins):
        pr = ins.extra
        a, b = self.val(st, ins.ty, ins.args[0]), self.val(st, ins.ty, ins.args[1])
        if a is UNDEF or b is UNDEF: raise UndefUse()
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            x, y = a.b, b.b
            if isinstance(x, bool) and isinstance(y, bool): return (x == y) if pr == "eq" else (x != y) if pr == "ne" else False
            r = zb(x) == zb(y)
            return r if pr == "eq" else z3.Not(r)
        if isinstance(a, FuncPtr) or isinstance(b, FuncPtr):
            same = isinstance(a, FuncPtr) and isinstance(b, FuncPtr) and a.name == b.name
            return same if pr == "eq" else not same
        if isinstance(a, PtrVal) or isinstance(b, PtrVal):
            if isinstance(a, IntVal): a = self.i2p(st, a)
            if isinstance(b, IntVal): b = self.i2p(st, b)
            if a.obj != b.obj:
                if pr == "eq": return False
                if pr == "ne": return True
                x, y = self.p2i(st, a), self.p2i(st, b)
                x, y = x.lin, y.lin
            else:
                x, y = a.off, b.off
            d = x - y
            if d.is_const():
                d = d.c
                return {"eq": d == 0, "ne": d != 0, "ult": d < 0, "ule": d <= 0, "ugt": d > 0, "uge": d >= 0, "slt": d < 0, "sle": d <= 0, "sgt": d > 0, "sge": d >= 0}[pr]
        else:
            if pr in ("eq", "ne"):
                d = a.lin - b.lin
                if d.is_const():
                    e = d.c % (1 << a.w) == 0
                    return e if pr == "eq" else not e
            if pr[0] == "s": x, y = self.scanon(st, a), self.scanon(st, b)
            else: x, y = self.ucanon(st, a), self.ucanon(st, b)
            d = x - y
            lo, hi = d.rng()
            if d.is_const() or (lo is not None and lo > 0) or (hi is not None and hi < 0):
                if d.is_const(): d = d.c
                elif lo is not None and lo > 0: d = 1
                else: d = -1
                return {"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[pr if pr in ("eq", "ne") else pr[1:]]
        x, y = x.z, y.z
        p = pr if pr in ("eq", "ne") else pr[1:]
        return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p]
    def cast(self, st, ins):
        op = ins.extra; (t, _) = ins.args[0]; v = self.val(st, t, ins.args[0][1]); ty = ins.ty
        if op in ("bitcast", "addrspacecast", "fpext", "fptrunc"): return v
        if v is UNDEF: return UNDEF
        if op == "zext":
            if isinstance(v, BoolV): return self.from_bool(ty.a, v.b)
            return IntVal(ty.a, self.ucanon(st, v), v.b)
        if op == "sext":
            if isinstance(v, BoolV):
                r = self.from_bool(ty.a, v.b); return IntVal(ty.a, -r.lin)
            return IntVal(ty.a, self.scanon(st, v))
        if op == "trunc":
            if isinstance(v, PtrVal): v = self.p2i(st, v)
            if ty.a == 1:
                if isinstance(v, BoolV): return v
                if v.b is not None: return BoolV(v.b)
                l = self.ucanon(st, v)
                if l.is_const(): return BoolV(bool(l.c & 1))
                if self.prove(st, z3.And(l.z >= 0, l.z <= 1), full=False): return BoolV(l.z == 1)
                return BoolV(l.z % 2 == 1)
            return IntVal(ty.a, v.lin, v.b)
        if op == "ptrtoint": return self.p2i(st, v, ty.a)
        if op == "inttoptr": return self.i2p(st, v)
        if op == "sitofp":
            return FVal(z3.ToReal((self.scanon(st, v) if isinstance(v, IntVal) else -self.from_bool(32, v.b).lin).z))
        if op == "uitofp":
            if isinstance(v, BoolV): v = self.from_bool(32, v.b)
            return FVal(z3.ToReal(self.ucanon(st, v).z))
        if op in ("fptosi", "fptoui"):
            r = z3.If(v.r >= 0, z3.ToInt(v.r), -z3.ToInt(-v.r))
            H = 1 << (ty.a - 1); lo, hi = (-H, H - 1) if op == "fptosi" else (0, 2 * H - 1)
            self.oblige(st, "overflow", z3.And(r >= lo, r <= hi), "float to integer conversion in range", ins)
            return IntVal(ty.a, Lin.of(Atom.of(r)))
        raise ToolLimit(op)

    # ---------------------------------------------------------- bulk memory
    def memcpy(self, st, dst, src, n, ins=None, move=False):
        if n.is_const() and n.c == 0: return
        if not n.is_const() and self.prove(st, n.z == 0): return
        if not n.is_const():
            # null/0 is allowed when n == 0: split
            if any(isinstance(x, PtrVal) and x.obj is None for x in (dst, src)):
                self.oblige(st, "null", n.z == 0, "memcpy through a null pointer copies nothing", ins); return
        do = self.deref(st, dst, n, True, ins, "memcpy dest")
        so = self.deref(st, src, n, False, ins, "memcpy source")
        if n.is_const():
            s, d = st.mem[so], st.w(do)
            rs = self.find_region(st, s, src.off, 1, None, create=False)
            rd = self.find_region(st, d, dst.off, 1, None, create=False)
            if rs is None and rd is None and src.off.is_const() and dst.off.is_const():
                a, b = src.off.c, dst.off.c
                cells = {c - a + b: x for c, x in s.cells.items() if a <= c < a + n.c}
                for c, (sz, v) in cells.items():
                    if isinstance(v, EVal): self.fail(st, "lifetime", "bytewise copy of an element", ins)
                regs = [r for r in s.regions if a <= r.start and r.count.is_const() and r.start + r.count.c * r.stride <= a + n.c]
                fills = [(max(lo, a) - a + b, min(hi, a + n.c) - a + b, x) for lo, hi, x in (s.fill or []) if lo < a + n.c and hi > a]
                for c in list(d.cells):
                    if b <= c < b + n.c: del d.cells[c]
                d.regions = [r for r in d.regions if not (b <= r.start < b + n.c)]
                if d.fill: d.fill = [f for f in d.fill if not (b <= f[0] and f[1] <= b + n.c)]
                d.cells.update(cells)
                for r in regs:
                    r2 = r.clone(); r2.start = r.start - a + b; d.regions.append(r2)
                if fills: d.fill = (d.fill or []) + fills
                if s.tag == "lazy": raise ToolLimit("memcpy from lazy object")
                return
        self.bulk_copy(st, dst, src, n, ins)
    def region_for(self, st, p, n, like=None):
        o = st.mem[p.obj]
        for size in ([like[0]] if like else []) + [1]:
            fr = self.find_region(st, o, p.off, size, like[1] if like else ("int", 8), create=True)
            o = st.mem[p.obj]
            if fr is not None and fr[1] is not None: return fr
        raise ToolLimit("bulk access to non-array memory")
    def bulk_copy(self, st, dst, src, n, ins):
        o = st.mem[src.obj]
        fs = self.find_region(st, o, src.off, 1, None, create=False)
        if fs is None:
            fs = self.region_for(st, src, n)
        rs = st.mem[src.obj].regions[fs[0]]
        if rs.kind == "E": self.fail(st, "lifetime", "bytewise copy of elements", ins); raise PathEnd()
        fd = self.region_for(st, dst, n, (rs.stride, rs.kind))
        od = st.w(dst.obj); rd = od.regions[fd[0]]
        rs = st.mem[src.obj].regions[fs[0]]
        if rd.kind != rs.kind or rd.stride != rs.stride: raise ToolLimit("bulk copy between different kinds")
        if not n.divisible(rs.stride): raise ToolLimit("bulk copy size")
        k = n.div(rs.stride)
        di, si = fd[1], fs[1]
        j = z3.Int("j")
        na, nl = fresh_arr("cpy", kind_sort(rd.kind)), fresh_arr("cpl", BoolS)
        inr = z3.And(j >= di.z, j < (di + k).z)
        st.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(inr, z3.Select(rs.arr, j - di.z + si.z), z3.Select(rd.arr, j)), patterns=[z3.Select(na, j)]))
        st.assume(z3.ForAll([j], z3.Select(nl, j) == z3.If(inr, z3.Select(rs.live, j - di.z + si.z), z3.Select(rd.live, j)), patterns=[z3.Select(nl, j)]))
        rd.arr, rd.live = na, nl
    def memset(self, st, dst, byte, n, ins=None):
        if n.is_const() and n.c == 0: return
        do = self.deref(st, dst, n, True, ins, "memset")
        d = st.w(do)
        b = self.ucanon(st, byte)
        fr = self.find_region(st, d, dst.off, 1, None, create=False)
        if n.is_const() and dst.off.is_const() and fr is None:
            a = dst.off.c
            for c in list(d.cells):
                sz, v = d.cells[c]
                if a <= c < a + n.c:
                    if isinstance(v, EVal): self.fail(st, "lifetime", "memset over a live element", ins)
                    del d.cells[c]
            if b.is_const() and b.c == 0: d.fill = (d.fill or []) + [(a, a + n.c, 0)]
            else: raise ToolLimit("memset value")
            return
        fr = self.region_for(st, dst, n)
        d = st.w(do); r = d.regions[fr[0]]
        if r.kind == "E": self.fail(st, "lifetime", "memset over elements", ins); raise PathEnd()
        if r.stride != 1 and not (b.is_const() and b.c == 0): raise ToolLimit("memset value")
        if not n.divisible(r.stride): raise ToolLimit("memset size")
        k = n.div(r.stride)
        zero = z3.RealVal(0) if r.kind == "real" else b.z
        j = z3.Int("j"); na, nl = fresh_arr("set", kind_sort(r.kind)), fresh_arr("setl", BoolS)
        inr = z3.And(j >= fr[1].z, j < (fr[1] + k).z)
        st.assume(z3.ForAll([j], z3.Select(na, j) == z3.If(inr, zero, z3.Select(r.arr, j)), patterns=[z3.Select(na, j)]))
        st.assume(z3.ForAll([j], z3.Select(nl, j) == z3.Or(inr, z3.Select(r.live, j)), patterns=[z3.Select(nl, j)]))
        r.arr, r.live = na, nl

    def builtin(self, st, name, ins, args):
        import externs
        return externs.call(self, st, name, ins, args)
    def loop(self, st, head, body, depth, stop, work, out):
        import loops
        return loops.handle(self, st, head, body, depth, stop, work, out)

class Throw:
    def __init__(self, exc): self.exc = exc
class PathEnd(Exception): pass
class UndefUse(Exception): pass
class Redirect:
    """a contract's result that is built by running another function in place of the callee"""
    def __init__(self, name, args): self.name, self.args = name, args
class ProofFailed(Exception):
    def __init__(self, rec): self.rec = rec

def _pc_has_q(self):
    n = self.pc
    c = getattr(self, "_hq", None)
    if c is not None and c[0] is n: return c[1]
    r = False; x = n
    while x is not None:
        if x.q: r = True; break
        x = x.p
    self._hq = (n, r)
    return r
State.pc_has_q = property(_pc_has_q)
