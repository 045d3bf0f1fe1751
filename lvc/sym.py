"""Symbolic values.  Machine integers are represented by mathematical integers
that are congruent to them modulo 2^w; they are brought into canonical range
(with proof) whenever an operation depends on the representative."""
import z3

V = z3.DeclareSort("V")            # values of the opaque element type(s)
IntS, BoolS, RealS = z3.IntSort(), z3.BoolSort(), z3.RealSort()
INF = None
RMUL = z3.Function("half_product", RealS, RealS, RealS)     # a product of two unknown reals is RMUL(a,b) + RMUL(b,a): commutative by construction
def rprod(a, b): return RMUL(a, b) + RMUL(b, a)
RDIV = z3.Function("rdiv", RealS, RealS, RealS)

class Atom:
    __slots__ = ("e", "lo", "hi", "id", "name", "base_of")
    _tab = {}
    _n = 0
    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi
        Atom._n += 1; self.id = Atom._n
        self.base_of = None
    @staticmethod
    def of(e, lo=None, hi=None):
        k = e.get_id()
        a = Atom._tab.get(k)
        if a is None:
            a = Atom(e, lo, hi); Atom._tab[k] = a
        else:
            if lo is not None and (a.lo is None or lo > a.lo): a.lo = lo
            if hi is not None and (a.hi is None or hi < a.hi): a.hi = hi
        return a
    def __repr__(self): return str(self.e)

class Lin:
    __slots__ = ("t", "c", "_z", "_k")
    def __init__(self, t=None, c=0):
        self.t = t or {}
        self.c = c
        self._z = None
        self._k = None
    @staticmethod
    def of(x):
        if isinstance(x, Lin): return x
        if isinstance(x, int): return Lin({}, x)
        if isinstance(x, Atom): return Lin({x: 1}, 0)
        if z3.is_int_value(x): return Lin({}, x.as_long())
        # z3 expr: decompose linear structure
        if z3.is_app(x):
            k = x.decl().kind()
            ch = x.children()
            if k == z3.Z3_OP_ADD:
                r = Lin({}, 0)
                for c in ch: r = r + Lin.of(c)
                return r
            if k == z3.Z3_OP_SUB:
                r = Lin.of(ch[0])
                for c in ch[1:]: r = r - Lin.of(c)
                return r
            if k == z3.Z3_OP_UMINUS: return -Lin.of(ch[0])
            if k == z3.Z3_OP_MUL and len(ch) == 2:
                if z3.is_int_value(ch[0]): return Lin.of(ch[1]) * ch[0].as_long()
                if z3.is_int_value(ch[1]): return Lin.of(ch[0]) * ch[1].as_long()
        return Lin({Atom.of(x): 1}, 0)
    def key(self):
        if self._k is None:
            self._k = (self.c,) + tuple(sorted((a.id, k) for a, k in self.t.items()))
        return self._k
    def __eq__(self, o): return isinstance(o, Lin) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def is_const(self): return not self.t
    def __add__(self, o):
        if isinstance(o, int): return Lin(self.t, self.c + o)
        t = dict(self.t)
        for a, k in o.t.items():
            n = t.get(a, 0) + k
            if n: t[a] = n
            else: t.pop(a, None)
        return Lin(t, self.c + o.c)
    def __neg__(self): return Lin({a: -k for a, k in self.t.items()}, -self.c)
    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.t, self.c - o)
        return self + (-o)
    def __mul__(self, k):
        if k == 0: return Lin({}, 0)
        return Lin({a: c * k for a, c in self.t.items()}, self.c * k)
    def divisible(self, k):
        return self.c % k == 0 and all(c % k == 0 for c in self.t.values())
    def div(self, k): return Lin({a: c // k for a, c in self.t.items()}, self.c // k)
    @property
    def z(self):
        if self._z is None:
            if not self.t: self._z = z3.IntVal(self.c)
            else:
                parts = []
                for a, k in sorted(self.t.items(), key=lambda p: p[0].id):
                    parts.append(a.e if k == 1 else k * a.e)
                if self.c: parts.append(z3.IntVal(self.c))
                self._z = parts[0] if len(parts) == 1 else z3.Sum(parts)
        return self._z
    def rng(self):
        lo = hi = self.c
        for a, k in self.t.items():
            al, ah = (a.lo, a.hi) if k > 0 else (a.hi, a.lo)
            if lo is not None: lo = None if al is None else lo + k * al
            if hi is not None: hi = None if ah is None else hi + k * ah
        return lo, hi
    def __repr__(self): return str(self.z)

class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()

class IntVal:
    __slots__ = ("w", "lin", "b")
    def __init__(self, w, lin, b=None):
        self.w, self.lin, self.b = w, Lin.of(lin), b
    def __repr__(self): return "i%d(%r)" % (self.w, self.lin)

class BoolV:
    __slots__ = ("b",)
    def __init__(self, b): self.b = b       # python bool or z3 Bool
    def __repr__(self): return "bool(%s)" % self.b

class PtrVal:
    __slots__ = ("obj", "off")
    def __init__(self, obj, off): self.obj, self.off = obj, Lin.of(off)
    def __repr__(self): return "ptr(%s+%r)" % (self.obj, self.off)
NULL = PtrVal(None, 0)

class FuncPtr:
    __slots__ = ("name",)
    def __init__(self, n): self.name = n
    def __repr__(self): return "fn(%s)" % self.name

class FVal:
    __slots__ = ("r",)
    def __init__(self, r): self.r = r
    def __repr__(self): return "real(%s)" % self.r

class EVal:                 # a live opaque element
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __repr__(self): return "E(%s)" % self.t

class Agg:
    __slots__ = ("f",)
    def __init__(self, f): self.f = list(f)
    def __repr__(self): return "agg%r" % (self.f,)

_cnt = [0]
def fresh_name(base):
    _cnt[0] += 1
    return "%s!%d" % (base, _cnt[0])
def fresh_int(base, lo=None, hi=None):
    return Lin.of(Atom.of(z3.Int(fresh_name(base)), lo, hi))
def fresh(base, sort): return z3.Const(fresh_name(base), sort)
def fresh_arr(base, sort): return z3.Const(fresh_name(base), z3.ArraySort(IntS, sort))

def zb(b): return z3.BoolVal(b) if isinstance(b, bool) else b
def zand(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs): return z3.BoolVal(False)
    if not xs: return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)
