"""Reader for the textual LLVM IR that clang-18 produces at -O0 (opaque pointers).

Nothing is rewritten here: every instruction of every function the verifier
executes comes from the IR of the current /repo sources.
"""
import re, subprocess

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a", "b")
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
    def __repr__(self):
        if self.k == "int": return "i%d" % self.a
        if self.k == "arr": return "[%d x %r]" % (self.a, self.b)
        if self.k == "named": return "%" + self.a
        if self.k == "struct": return "{" + ",".join(map(repr, self.a)) + "}"
        return self.k
    def __eq__(self, o):
        return isinstance(o, Ty) and repr(self) == repr(o)
    def __hash__(self):
        return hash(repr(self))

PTR = Ty("ptr"); VOID = Ty("void"); F64 = Ty("double"); F32 = Ty("float")
_ints = {}
def INT(n):
    if n not in _ints: _ints[n] = Ty("int", n)
    return _ints[n]

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@$](?:"(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+))
 | (?P<md>!(?:[A-Za-z0-9_.]+)?(?:\([^)]*\))?)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|0x[KLMHR][0-9A-Fa-f]+|-?\d+)
 | (?P<word>[A-Za-z_][A-Za-z0-9_.]*)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c in " \t\n\r":
            i += 1; continue
        if c == ";":
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError("token: %r" % s[i:i+60])
        out.append(m.group(0)); i = m.end()
    return out

# value operands
class Reg:
    __slots__ = ("name",)
    def __init__(self, n): self.name = n
    def __repr__(self): return self.name
class Const:          # python int / float / None(null) / 'undef' / 'zero'
    __slots__ = ("ty", "v")
    def __init__(self, ty, v): self.ty, self.v = ty, v
    def __repr__(self): return "%r" % (self.v,)
class Glob:
    __slots__ = ("name",)
    def __init__(self, n): self.name = n
    def __repr__(self): return self.name
class CExpr:
    __slots__ = ("op", "ty", "args")
    def __init__(self, op, ty, args): self.op, self.ty, self.args = op, ty, args
class CAgg:
    __slots__ = ("ty", "elems")
    def __init__(self, ty, elems): self.ty, self.elems = ty, elems
class CStr:
    __slots__ = ("data",)
    def __init__(self, d): self.data = d

PARAM_ATTRS = {"noundef","nonnull","noalias","nocapture","readonly","writeonly","readnone","signext","zeroext",
  "returned","immarg","inreg","nest","nofree","noreturn","dead_on_unwind","writable","swiftself","allocptr","allocalign","noext","range"}
PARAM_ATTRS_ARG = {"align","dereferenceable","dereferenceable_or_null","sret","byval","byref","inalloca","preallocated","elementtype","nofpclass","initializes","captures"}

class Instr:
    __slots__ = ("op","res","ty","args","extra","text")
    def __init__(self, op, res=None, ty=None, args=(), extra=None, text=""):
        self.op, self.res, self.ty, self.args, self.extra, self.text = op, res, ty, args, extra, text

class P:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ""
    def next(self):
        x = self.t[self.i]; self.i += 1
        return x
    def eat(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def need(self, x):
        if not self.eat(x):
            raise IRError("expected %r at %r in %s" % (x, self.peek(), " ".join(self.t)))
    # types
    def ty(self):
        x = self.next()
        if re.fullmatch(r"i\d+", x): t = INT(int(x[1:]))
        elif x == "ptr":
            t = PTR
            if self.peek() == "addrspace": self.next(); self.need("("); self.next(); self.need(")")
        elif x == "void": t = VOID
        elif x == "double": t = F64
        elif x == "float": t = F32
        elif x in ("x86_fp80","half","label","metadata","token","fp128"): t = Ty(x)
        elif x == "[":
            n = int(self.next()); self.need("x"); e = self.ty(); self.need("]")
            t = Ty("arr", n, e)
        elif x == "{":
            fs = []
            if not self.eat("}"):
                fs.append(self.ty())
                while self.eat(","): fs.append(self.ty())
                self.need("}")
            t = Ty("struct", fs)
        elif x == "<":
            if self.eat("{"):
                fs = []
                if not self.eat("}"):
                    fs.append(self.ty())
                    while self.eat(","): fs.append(self.ty())
                    self.need("}")
                self.need(">")
                t = Ty("struct", fs, "packed")
            else:
                n = int(self.next()); self.need("x"); e = self.ty(); self.need(">")
                t = Ty("vec", n, e)
        elif x.startswith("%"):
            t = Ty("named", x[1:])
        elif x == "opaque": t = Ty("opaque")
        else:
            raise IRError("type %r in %s" % (x, " ".join(self.t)))
        # function type "ret (args)" only in call positions; handled there
        return t
    def attrs(self):
        d = {}
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
                if self.peek() == "(" and x == "range": self.skip_parens()
            elif x in PARAM_ATTRS_ARG:
                self.next()
                if self.eat("("):
                    if x in ("sret","byval","byref","elementtype","inalloca","preallocated"):
                        d[x] = self.ty(); self.need(")")
                    else:
                        self.i -= 1; self.skip_parens()
                else:
                    self.next()  # align N
            elif x.startswith("#") or x.startswith('"'):
                self.next()
                if self.eat("="): self.next()
            else:
                return d
    def skip_parens(self):
        self.need("("); d = 1
        while d:
            x = self.next()
            if x == "(": d += 1
            elif x == ")": d -= 1
    def value(self, ty):
        x = self.next()
        if x.startswith("%"): return Reg(x)
        if x.startswith("@"): return Glob(x)
        if x == "null": return Const(ty, None)
        if x == "none": return Const(ty, None)
        if x in ("undef","poison"): return Const(ty, "undef")
        if x == "zeroinitializer": return Const(ty, "zero")
        if x == "true": return Const(ty, 1)
        if x == "false": return Const(ty, 0)
        if re.fullmatch(r"-?\d+", x):
            if ty.k in ("double","float"): return Const(ty, float(x))
            return Const(ty, int(x))
        if re.fullmatch(r"-?\d+\.\d+(e[+-]?\d+)?", x): return Const(ty, float(x))
        if x.startswith("0x"):
            import struct
            h = x[2:]
            if h[0] in "KLMHR": return Const(ty, "undef")
            return Const(ty, struct.unpack(">d", bytes.fromhex(h.zfill(16)))[0])
        if x.startswith('c"'):
            return CStr(unescape(x[2:-1]))
        if x == "getelementptr":
            while self.peek() in ("inbounds","nuw","nusw") or self.peek()=="inrange":
                self.next()
                if self.peek() == "(" and self.peek(1).lstrip("-").isdigit(): self.skip_parens()
            self.need("(")
            bt = self.ty(); args = []
            while self.eat(","):
                self.eat("inrange")
                t = self.ty(); args.append((t, self.value(t)))
            self.need(")")
            return CExpr("gep", bt, args)
        if x in ("bitcast","inttoptr","ptrtoint","addrspacecast","trunc","zext","sext"):
            self.need("("); t = self.ty(); v = self.value(t); self.need("to"); t2 = self.ty(); self.need(")")
            return CExpr(x, t2, [(t, v)])
        if x in ("add","sub","icmp"):
            while self.peek() in ("nsw","nuw"): self.next()
            self.need("("); args = []
            while True:
                t = self.ty(); args.append((t, self.value(t)))
                if not self.eat(","): break
            self.need(")")
            return CExpr(x, ty, args)
        if x in ("{","["):
            end = "}" if x == "{" else "]"
            es = []
            if not self.eat(end):
                while True:
                    t = self.ty(); es.append((t, self.value(t)))
                    if not self.eat(","): break
                self.need(end)
            return CAgg(ty, es)
        if x == "<":
            if self.eat("{"):
                es = []
                while True:
                    t = self.ty(); es.append((t, self.value(t)))
                    if not self.eat(","): break
                self.need("}"); self.need(">")
                return CAgg(ty, es)
            es = []
            while True:
                t = self.ty(); es.append((t, self.value(t)))
                if not self.eat(","): break
            self.need(">")
            return CAgg(ty, es)
        raise IRError("value %r in %s" % (x, " ".join(self.t)))
    def tval(self):
        t = self.ty(); self.attrs()
        return (t, self.value(t))

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

class Func:
    def __init__(self, name, ret, params, vararg, lines, attrs):
        self.name, self.ret, self.params, self.vararg = name, ret, params, vararg
        self.lines = lines          # None for declarations
        self.attrs = attrs
        self._blocks = None
        self._loops = None
    @property
    def defined(self): return self.lines is not None

class Global:
    def __init__(self, name, ty, init, const):
        self.name, self.ty, self.init, self.const = name, ty, init, const

class Module:
    def __init__(self, path):
        self.structs, self.globals, self.funcs, self.aliases = {}, {}, {}, {}
        self.attrgroups = {}
        self._layout = {}
        self.parse(open(path).read())
        self._dem = None

    def demangle_all(self):
        names = [n[1:].strip('"') for n in self.funcs]
        r = subprocess.run(["/usr/bin/c++filt"], input="\n".join(names), capture_output=True, text=True)
        dem = r.stdout.split("\n")
        self._dem = dict(zip(["@" + n for n in names], dem))
    def dem(self, name):
        if self._dem is None: self.demangle_all()
        return self._dem.get(name, name[1:])

    def parse(self, txt):
        lines = txt.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                j = i + 1
                while lines[j] != "}": j += 1
                self.fn_header(l, lines[i+1:j]); i = j + 1; continue
            if l.startswith("declare "):
                self.fn_header(l, None)
            elif l.startswith("%") and " = type " in l:
                p = P(tokenize(l), self)
                nm = p.next()[1:]; p.need("="); p.need("type")
                self.structs[nm] = p.ty()
            elif l.startswith("@"):
                self.glob(l)
            elif l.startswith("attributes "):
                m = re.match(r"attributes (#\d+) = \{(.*)\}", l)
                if m: self.attrgroups[m.group(1)] = m.group(2)
            i += 1

    def glob(self, l):
        p = P(tokenize(l), self)
        nm = p.next(); p.need("=")
        const = False; ext = False
        while True:
            x = p.peek()
            if x in ("private","internal","linkonce_odr","linkonce","weak","weak_odr","external","common","available_externally","appending","extern_weak"):
                if x in ("external","extern_weak"): ext = True
                p.next()
            elif x in ("dso_local","unnamed_addr","local_unnamed_addr","hidden","default","protected"): p.next()
            elif x in ("thread_local",):
                p.next()
                if p.peek() == "(": p.skip_parens()
            elif x == "global": p.next(); break
            elif x == "constant": p.next(); const = True; break
            elif x == "alias":
                p.next(); p.ty(); p.need(","); p.ty() if False else None
                t = p.ty(); self.aliases[nm] = p.value(t); return
            elif x == "ifunc": return
            else: raise IRError("global %s" % l)
        ty = p.ty(); init = None
        if not ext and p.peek() not in ("", ","):
            init = p.value(ty)
        self.globals[nm] = Global(nm, ty, init, const)

    def fn_header(self, l, body):
        p = P(tokenize(l), self)
        p.next()
        while p.peek() in ("linkonce_odr","linkonce","weak","weak_odr","internal","private","external","dso_local","hidden","default","protected","available_externally","extern_weak","fastcc","ccc") :
            p.next()
        p.attrs()
        ret = p.ty()
        name = p.next()
        params, vararg, k = [], False, 0
        p.need("(")
        while not p.eat(")"):
            if p.eat("..."): vararg = True
            else:
                t = p.ty(); at = p.attrs()
                nm = "%" + str(k)
                if p.peek().startswith("%"): nm = p.next()
                else:
                    pass
                params.append((t, nm, at)); k += 1
            p.eat(",")
        rest = p.t[p.i:]
        attrs = set(rest)
        for a in rest:
            if a.startswith("#"): attrs.add(a)
        self.funcs[name] = Func(name, ret, params, vararg, body, attrs)

    def has_attr(self, f, word):
        if word in f.attrs: return True
        for a in f.attrs:
            if a.startswith("#") and a in self.attrgroups and word in self.attrgroups[a].split(): return True
        return False

    # ---- layout
    def resolve(self, t):
        while t.k == "named":
            if t.a not in self.structs: raise IRError("unknown type %s" % t.a)
            t = self.structs[t.a]
        return t
    def size_align(self, t):
        r = self._layout.get(t)
        if r: return r
        if t.k == "int":
            b = (t.a + 7) // 8
            a = 1
            while a < b: a *= 2
            a = min(a, 16); r = (((b + a - 1)//a)*a, a)
        elif t.k == "ptr": r = (8, 8)
        elif t.k == "double": r = (8, 8)
        elif t.k == "float": r = (4, 4)
        elif t.k == "x86_fp80": r = (16, 16)
        elif t.k in ("arr", "vec"):
            s, a = self.size_align(t.b); r = (s * t.a, a)
        elif t.k == "struct":
            off, al = 0, 1
            for f in t.a:
                s, a = self.size_align(f)
                if t.b == "packed": a = 1
                off = (off + a - 1)//a*a + s; al = max(al, a)
            r = ((off + al - 1)//al*al, al)
        elif t.k == "named": r = self.size_align(self.resolve(t))
        else: raise IRError("size of %r" % t)
        self._layout[t] = r
        return r
    def size(self, t): return self.size_align(t)[0]
    def field_off(self, t, idx):
        t = self.resolve(t); off = 0
        for i, f in enumerate(t.a):
            s, a = self.size_align(f)
            if t.b == "packed": a = 1
            off = (off + a - 1)//a*a
            if i == idx: return off, f
            off += s
        raise IRError("field")
    def leaves(self, t, off=0):
        """yield (offset, kind, type, count): scalars and arrays"""
        t0 = t; t = self.resolve(t)
        if t.k == "struct":
            if t0.k == "named" and t0.a in ("struct.E", "class.E"):
                yield (off, "E", t0, 1); return
            for i in range(len(t.a)):
                o, f = self.field_off(t, i)
                yield from self.leaves(f, off + o)
        elif t.k == "arr":
            yield (off, "arr", t.b, t.a)
        else:
            yield (off, "scalar", t, 1)

    # ---- bodies
    def blocks(self, f):
        if f._blocks is not None: return f._blocks
        # join continuation lines
        stm, cur = [], None
        blocks, order, label = {}, [], None
        logical = []
        depth = 0
        for l in f.lines:
            s = l.strip()
            if not s or s.startswith(";"): continue
            if cur is not None:
                cur += " " + s
                if self._complete(cur):
                    logical.append(cur); cur = None
                continue
            if l[0] not in " \t":
                logical.append(l.split(";")[0].strip()); continue
            if (" invoke " in " " + s or s.startswith("invoke ")) and " unwind label " not in s: cur = s
            elif s.startswith("switch ") and "]" not in s: cur = s
            elif "landingpad" in s:
                # gather following clause lines
                cur = None
                logical.append(s)
            elif s.startswith(("cleanup", "catch ", "filter ")) and logical and "landingpad" in logical[-1]:
                logical[-1] += " " + s
            else: logical.append(s)
        # entry label
        first = True
        for s in logical:
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-A-Za-z0-9_.$]+):', s)
            if m and not re.match(r'^\S+ =', s):
                label = "%" + m.group(1); blocks[label] = []; order.append(label); first = False; continue
            if first:
                label = "%" + str(len(f.params)) if True else None
                label = "%entry0"; blocks[label] = []; order.append(label); first = False
            blocks[label].append(self.instr(s))
        f._blocks = (order, blocks)
        return f._blocks
    def _complete(self, s):
        if "switch " in s and not (" invoke " in s): return "]" in s
        return " unwind label " in s

    def instr(self, s):
        toks = tokenize(s)
        # strip trailing metadata: ", !dbg !12"
        for k, x in enumerate(toks):
            if x.startswith("!"):
                toks = toks[:k]
                while toks and toks[-1] == ",": toks.pop()
                break
        p = P(toks, self)
        res = None
        if p.peek().startswith("%") and p.peek(1) == "=":
            res = p.next(); p.next()
        op = p.next()
        I = lambda **k: Instr(op, res, text=s, **k)
        if op in ("tail", "musttail", "notail"): op = p.next()
        if op == "alloca":
            t = p.ty(); cnt = None
            while p.eat(","):
                if p.peek() == "align": p.next(); p.next()
                else: cnt = p.tval()
            return I(ty=t, args=(cnt,))
        if op == "load":
            if p.eat("atomic"): pass
            p.eat("volatile"); t = p.ty(); p.need(","); v = p.tval()
            return Instr("load", res, t, (v,), "atomic" if "atomic" in toks else None, s)
        if op == "store":
            p.eat("atomic"); p.eat("volatile"); v = p.tval(); p.need(","); d = p.tval()
            return Instr("store", None, v[0], (v, d), "atomic" if "atomic" in toks else None, s)
        if op == "getelementptr":
            while p.peek() in ("inbounds","nuw","nusw"): p.next()
            t = p.ty(); args = []
            while p.eat(","): args.append(p.tval())
            return Instr("gep", res, t, args, None, s)
        if op == "br":
            if p.peek() == "label": p.next(); return Instr("br", None, None, (), [p.next()], s)
            c = p.tval(); p.need(","); p.need("label"); a = p.next(); p.need(","); p.need("label"); b = p.next()
            return Instr("br", None, None, (c,), [a, b], s)
        if op == "switch":
            v = p.tval(); p.need(","); p.need("label"); d = p.next(); p.need("[")
            cases = []
            while not p.eat("]"):
                cv = p.tval(); p.need(","); p.need("label"); cases.append((cv[1].v, p.next()))
            return Instr("switch", None, None, (v,), (d, cases), s)
        if op == "ret":
            if p.peek() == "void": return Instr("ret", None, VOID, (), None, s)
            return Instr("ret", None, None, (p.tval(),), None, s)
        if op in ("call", "invoke"):
            while p.peek() in ("fast","nnan","ninf","nsz","arcp","contract","afn","reassoc","fastcc","ccc"): p.next()
            p.attrs(); t = p.ty()
            if p.peek() == "(":      # function type
                p.skip_parens()
            if p.peek() == "asm":
                return Instr("asm", res, t, (), None, s)
            callee = p.value(PTR)
            args = []; p.need("(")
            while not p.eat(")"):
                at = p.ty()
                if at.k == "metadata":
                    p.next(); p.eat(","); args.append((at, Const(at, None), {})); continue
                ad = p.attrs(); args.append((at, p.value(at), ad)); p.eat(",")
            extra = {"callee": callee}
            if op == "invoke":
                while p.peek() != "to": p.next()
                p.need("to"); p.need("label"); extra["normal"] = p.next()
                p.need("unwind"); p.need("label"); extra["unwind"] = p.next()
            return Instr(op, res, t, args, extra, s)
        if op in ("icmp", "fcmp"):
            while p.peek() in ("fast","nnan","ninf","nsz","arcp","contract","afn","reassoc","samesign"): p.next()
            pred = p.next(); t = p.ty(); a = p.value(t); p.need(","); b = p.value(t)
            return Instr(op, res, t, (a, b), pred, s)
        if op in ("add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","fadd","fsub","fmul","fdiv","frem"):
            fl = set()
            while p.peek() in ("nuw","nsw","exact","disjoint","fast","nnan","ninf","nsz","arcp","contract","afn","reassoc"): fl.add(p.next())
            t = p.ty(); a = p.value(t); p.need(","); b = p.value(t)
            return Instr("bin", res, t, (a, b), (op, fl), s)
        if op == "fneg":
            t = p.ty(); return Instr(op, res, t, (p.value(t),), None, s)
        if op in ("zext","sext","trunc","ptrtoint","inttoptr","bitcast","fptrunc","fpext","sitofp","uitofp","fptosi","fptoui","addrspacecast"):
            while p.peek() in ("nneg","nuw","nsw"): p.next()
            v = p.tval(); p.need("to"); t = p.ty()
            return Instr("cast", res, t, (v,), op, s)
        if op == "select":
            c = p.tval(); p.need(","); a = p.tval(); p.need(","); b = p.tval()
            return Instr(op, res, a[0], (c, a, b), None, s)
        if op == "phi":
            t = p.ty(); inc = []
            while True:
                p.need("["); v = p.value(t); p.need(","); lb = p.next(); p.need("]"); inc.append((v, lb))
                if not p.eat(","): break
            return Instr(op, res, t, inc, None, s)
        if op == "extractvalue":
            v = p.tval(); idx = []
            while p.eat(","): idx.append(int(p.next()))
            return Instr(op, res, None, (v,), idx, s)
        if op == "insertvalue":
            v = p.tval(); p.need(","); e = p.tval(); idx = []
            while p.eat(","): idx.append(int(p.next()))
            return Instr(op, res, v[0], (v, e), idx, s)
        if op == "landingpad":
            t = p.ty(); cl = []; cleanup = False
            while p.i < len(p.t):
                x = p.next()
                if x == "cleanup": cleanup = True
                elif x == "catch": tv = p.tval(); cl.append(("catch", tv[1]))
                elif x == "filter": tv = p.tval(); cl.append(("filter", tv[1]))
            return Instr(op, res, t, (), (cleanup, cl), s)
        if op == "resume":
            return Instr(op, None, None, (p.tval(),), None, s)
        if op == "unreachable": return Instr(op, text=s)
        if op == "freeze":
            v = p.tval(); return Instr(op, res, v[0], (v,), None, s)
        if op == "atomicrmw":
            p.eat("volatile"); rop = p.next(); a = p.tval(); p.need(","); v = p.tval()
            return Instr(op, res, v[0], (a, v), rop, s)
        if op == "cmpxchg":
            p.eat("weak"); p.eat("volatile"); a = p.tval(); p.need(","); c = p.tval(); p.need(","); v = p.tval()
            return Instr(op, res, v[0], (a, c, v), None, s)
        if op == "fence": return Instr(op, text=s)
        return Instr("unsupported", res, None, (), None, s)

    # ---- loops (natural loops by dominators)
    def loops(self, f):
        if f._loops is not None: return f._loops
        order, blocks = self.blocks(f)
        succ = {}
        for b in order:
            t = blocks[b][-1] if blocks[b] else None
            if t is None: succ[b] = []
            elif t.op == "br": succ[b] = list(t.extra)
            elif t.op == "switch": succ[b] = [t.extra[0]] + [c[1] for c in t.extra[1]]
            elif t.op == "invoke": succ[b] = [t.extra["normal"], t.extra["unwind"]]
            else: succ[b] = []
        entry = order[0]
        reach, st = {entry}, [entry]
        while st:
            b = st.pop()
            for s in succ[b]:
                if s not in reach: reach.add(s); st.append(s)
        pred = {b: [] for b in order}
        for b in reach:
            for s in succ[b]: pred[s].append(b)
        dom = {b: set(reach) for b in reach}; dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == entry or b not in reach: continue
                nd = set.intersection(*[dom[p] for p in pred[b]]) | {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        loops = {}
        for b in reach:
            for s in succ[b]:
                if s in dom[b]:   # back edge
                    body = {s}; st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += [q for q in pred[x]]
                    loops.setdefault(s, set()).update(body)
        # irreducible check
        f._loops = loops
        return loops
