"""C17: File.  The stdio functions are external: each is used through an assumed
contract over ghost state of the stream (open or not, bytes written, the bytes
still to be read), may fail at every call, and may only be given a stream that is
open.  A File is always obtained by running the real open, close and move, so the
contracts do not depend on its fields."""
import re
import z3
from sym import *
from speclib import *
from spec_string import StrModel
from spec_vector import no_throw
import externs, loops

SRC = "file.cpp"
EOF = IntVal(32, -1)
END = z3.Function("line_end", IntS, IntS)       # where the line that starts at p ends
START = z3.Function("line_start", IntS, IntS)   # where the k-th line starts

def every(n, arr, at):
    """arr[i] == at(i) for 0 <= i < n"""
    i = z3.Int("i"); x = z3.Select(arr, i); f = z3.Implies(z3.And(i >= 0, i < n), x == at(i))
    return z3.ForAll([i], f, patterns=[x]) if z3.is_const(arr) else z3.ForAll([i], f)
def i8(e): return IntVal(8, Lin.of(Atom.of(e, 0, 255)))
class Sys:
    """stdio"""
    def __init__(self, u):
        self.u = u; ex = u.ex
        for n in ("fopen", "fclose", "fgetc", "fputc", "fwrite", "fflush", "fseek", "ftell", "strchr", "strncpy"):
            ex.externs["@" + n] = getattr(self, n)
        for a, b in (("getc", "fgetc"), ("_IO_getc", "fgetc"), ("putc", "fputc"), ("_IO_putc", "fputc")): ex.externs["@" + a] = getattr(self, b)
        ex.trusted.add("stdio: fopen gives a new open stream or null; fputc/fwrite append the given bytes or report a failure; fgetc yields the stream's bytes in order, then EOF; fclose ends the stream even when it fails")
        ex.trusted.add("strchr, strncpy, strlen as in the C standard")
        self.path = None; self.mode = None
    # -- streams
    def stream(self, ex, st, name="stream"):
        o = st.new_obj("file", 216, None, name); o.alloc = None
        L = ex.fresh_int(st, "len_in", 0, BIG); pos = ex.fresh_int(st, "pos", 0, BIG); st.assume(pos.z <= L.z)
        arr = fresh_arr("in", IntS); i = z3.Int("i")
        st.assume(z3.ForAll([i], z3.And(z3.Select(arr, i) >= 0, z3.Select(arr, i) < 256), patterns=[z3.Select(arr, i)]))
        st.ghost["$in %d" % o.id] = (arr, L)
        st.ghost["pos %d" % o.id] = pos; st.ghost["wn %d" % o.id] = Lin({}, 0); st.ghost["wa %d" % o.id] = fresh_arr("out", IntS)
        return o.id
    def use(self, ex, st, p, what, ins):
        if p is UNDEF: ex.fail(st, "uninit", "%s: uninitialised stream" % what, ins); raise PathEnd()
        if isinstance(p, IntVal): p = ex.i2p(st, p)
        if p.obj is None: ex.fail(st, "stream", "%s: null stream" % what, ins); raise PathEnd()
        o = st.mem.get(p.obj)
        if o is None or o.kind != "file": ex.fail(st, "stream", "%s: not a stream" % what, ins); raise PathEnd()
        if o.status != "live": ex.fail(st, "stream", "%s: the stream was already closed" % what, ins); raise PathEnd()
        return o.id
    def log(self, st, *x): st.ghost["$calls"] = st.ghost.get("$calls", ()) + (x,)
    def fopen(self, ex, st, ins, a):
        if self.path is not None:
            n, at = self.path; k = externs.cstr_len(ex, st, a[0], ins).lin
            fr = ex.find_region(st, st.mem[a[0].obj], a[0].off, 1, ("int", 8))
            ex.oblige(st, "post", k.z == n.z, "open: the whole path is used", ins)
            if fr is None and not ex.prove(st, n.z == 0): raise ToolLimit("path")
            if fr is not None: r = st.mem[a[0].obj].regions[fr[0]]; ex.oblige(st, "post", loops.goal_of(ex, forall(0, n, lambda i: z3.Select(r.arr, i + fr[1].z) == at(i))), "open: the given path is opened", ins, assume=False)
        if not (isinstance(a[1], PtrVal) and self.mode is not None and a[1].obj == self.mode.obj and a[1].off == self.mode.off): raise ToolLimit("mode string")
        t = st.fork(); self.log(t, "fopen", None)
        f = self.stream(ex, st); self.log(st, "fopen", f)
        return [(st, PtrVal(f, 0)), (t, NULL)]
    def fclose(self, ex, st, ins, a):
        f = self.use(ex, st, a[0], "fclose", ins); st.w(f).status = "closed"
        t = st.fork(); self.log(st, "fclose", f, True); self.log(t, "fclose", f, False)
        return [(st, IntVal(32, 0)), (t, EOF)]
    def fgetc(self, ex, st, ins, a):
        f = self.use(ex, st, a[0], "fgetc", ins); arr, L = st.ghost["$in %d" % f]; pos = st.ghost["pos %d" % f]
        out = []; t = st.fork()
        if ex.feasible(t, pos.z >= L.z): t.assume(pos.z >= L.z); out.append((t, EOF))
        if ex.feasible(st, pos.z < L.z):
            st.assume(pos.z < L.z); c = z3.Select(arr, pos.z); st.assume(z3.And(c >= 0, c < 256)); st.ghost["pos %d" % f] = pos + 1
            out.append((st, IntVal(32, Lin.of(Atom.of(c, 0, 255)))))
        return out
    def fputc(self, ex, st, ins, a):
        f = self.use(ex, st, a[1], "fputc", ins)
        if a[0] is UNDEF: ex.fail(st, "uninit", "fputc: uninitialised byte", ins); raise PathEnd()
        t = st.fork(); self.log_fail(t, f)
        c = ex.ucanon(st, IntVal(8, a[0].lin)); n = st.ghost["wn %d" % f]
        st.ghost["wa %d" % f] = z3.Store(st.ghost["wa %d" % f], n.z, c.z); st.ghost["wn %d" % f] = n + 1
        return [(st, IntVal(32, c)), (t, EOF)]
    def log_fail(self, st, f): st.ghost["$failed"] = True
    def fwrite(self, ex, st, ins, a):
        f = self.use(ex, st, a[3], "fwrite", ins); sz, n = ex.ucanon(st, a[1]), ex.ucanon(st, a[2])
        if not sz.is_const() or sz.c != 1:
            if n.is_const() and n.c == 1: sz, n, one = n, sz, True
            else: raise ToolLimit("fwrite item size")
        else: one = False
        t = st.fork(); self.log_fail(t, f); k = ex.fresh_int(t, "written", 0, BIG); t.assume(k.z < n.z)
        out = []
        for s, m in ((st, n), (t, k)):
            if not ex.feasible(s): continue
            if ex.feasible(s, m.z == 0): z = s.fork(); z.assume(m.z == 0); out.append((z, IntVal(64, 0)))
            if not ex.feasible(s, m.z > 0): continue
            s.assume(m.z > 0)
            p = a[0]
            if p is UNDEF or (isinstance(p, PtrVal) and p.obj is None): ex.oblige(s, "null", n.z == 0, "fwrite: bytes at a null pointer", ins); out.append((s, IntVal(64, m))); continue
            ex.deref(s, p, n, False, ins, "fwrite"); fr = ex.find_region(s, s.mem[p.obj], p.off, 1, ("int", 8))
            if fr is None: raise ToolLimit("fwrite from cells")
            r = s.mem[p.obj].regions[fr[0]]; b = fr[1]; i = z3.Int("i")
            if r.stride != 1: raise ToolLimit("fwrite stride")
            ex.oblige(s, "uninit", loops.goal_of(ex, forall(0, n, lambda j: z3.Select(r.live, j + b.z))), "fwrite: every byte is initialised", ins, assume=False)
            o, w = s.ghost["wa %d" % f], s.ghost["wn %d" % f]; x = fresh_arr("out", IntS); s.ghost["wa %d" % f] = x; s.ghost["wn %d" % f] = w + m
            s.assume(z3.ForAll([i], z3.Select(x, i) == z3.If(z3.And(i >= w.z, i < w.z + m.z), z3.Select(r.arr, i - w.z + b.z), z3.Select(o, i)), patterns=[z3.Select(x, i)]))
            out.append((s, IntVal(64, (m if not one else Lin({}, 1) if m is n else Lin({}, 0)))))
        return out
    def fflush(self, ex, st, ins, a):
        f = self.use(ex, st, a[0], "fflush", ins); t = st.fork(); self.log(st, "fflush", f, True); self.log(t, "fflush", f, False)
        return [(st, IntVal(32, 0)), (t, EOF)]
    def fseek(self, ex, st, ins, a):
        f = self.use(ex, st, a[0], "fseek", ins); t = st.fork(); w = ex.ucanon(st, a[2])
        self.log(st, "fseek", f, True, a[1], w); self.log(t, "fseek", f, False, a[1], w)
        return [(st, IntVal(32, 0)), (t, EOF)]
    def ftell(self, ex, st, ins, a):
        f = self.use(ex, st, a[0], "ftell", ins); r = ex.fresh_int(st, "at", -1, (1 << 63) - 1); self.log(st, "ftell", f, r)
        return [(st, IntVal(64, r))]
    # -- strings
    def strchr(self, ex, st, ins, a):
        p, c = a[0], ex.ucanon(st, IntVal(8, a[1].lin)); oid = ex.deref(st, p, 1, False, ins, "strchr"); o = st.mem[oid]
        if not p.off.is_const() or not o.size.is_const(): raise ToolLimit("strchr on a long string")
        bs = []
        for k in range(p.off.c, min(o.size.c, p.off.c + 64)):
            v = ex.load(st, ir.Ty("int", 8), PtrVal(oid, k), ins)
            if v is UNDEF: break
            b = ex.ucanon(st, v); bs.append(b)
            if b.is_const() and b.c == 0: break
        ex.oblige(st, "cstr", z3.Or([b.z == 0 for b in bs] + [z3.And(b.z == c.z) for b in bs] + [z3.BoolVal(False)]), "strchr: the string is terminated", ins)
        i = ex.fresh_int(st, "at", 0, len(bs)); t = st.fork()
        for k, b in enumerate(bs): st.assume(z3.Implies(i.z > k, z3.And(b.z != 0, b.z != c.z))); st.assume(z3.Implies(i.z == k, b.z == c.z)); t.assume(b.z != c.z if k == 0 else z3.Implies(z3.And([x.z != 0 for x in bs[:k]]), b.z != c.z))
        st.assume(i.z < len(bs)); out = []
        if ex.feasible(st): out.append((st, PtrVal(p.obj, p.off + i)))
        if ex.feasible(t): out.append((t, NULL))
        return out
    def strncpy(self, ex, st, ins, a):
        n = ex.ucanon(st, a[2])
        if not n.is_const() or n.c > 64: raise ToolLimit("strncpy length")
        oid = ex.deref(st, a[1], 1, False, ins, "strncpy"); fr = ex.find_region(st, st.mem[oid], a[1].off, 1, ("int", 8))
        if fr is None: raise ToolLimit("strncpy source")
        r = st.mem[oid].regions[fr[0]]; l = externs.cstr_len(ex, st, a[1], ins).lin
        for k in range(n.c):
            e = z3.If(l.z > k, z3.Select(r.arr, fr[1].z + k), 0); st.assume(z3.And(e >= 0, e < 256)); ex.store(st, ir.Ty("int", 8), i8(e), PtrVal(a[0].obj, a[0].off + k), ins)
        return [(st, a[0])]

def units(mod):
    S = StrModel(mod, type_of(mod, "ty_str"), "str", ("int", 8), 1)
    FT = type_of(mod, "ty_file"); LT = type_of(mod, "ty_lines")
    def obs_size():
        u = Unit(mod, "layout"); st = u.state(); o = u.param(st, LT, "self"); o.tag = "lazy"
        outs = u.run(st, "lines_size", [PtrVal(o.id, 0)]); r = outs[0]
        for off, (sz, v) in r.st.mem[o.id].cells.items():
            if isinstance(v, IntVal) and v.lin == r.val.lin: return off
        raise ToolLimit("size() of Vector<String>")
    o_size = obs_size()
    U = {}
    def unit(f): U[f.__name__[2:]] = f; return f
    DTOR = re.compile(r"::~(Vector(Base)?|BasicString)\(\)$")
    def setup(u):
        if S.ty.k == "named": u.ex.models[S.ty.a] = S
        def gone(ex, st, fr):
            """a destroyed string is no container any more"""
            if not DTOR.search(ex.short(fr.f.name)): return
            t = fr.regs.get(fr.f.params[0][1])
            if isinstance(t, PtrVal) and t.obj in st.mem and t.off.is_const() and st.conts.get((t.obj, t.off.c)) is S:
                del st.conts[(t.obj, t.off.c)]; o = st.w(t.obj)
                for c in (S.o_data, S.o_size, S.o_cap): o.cells[t.off.c + c] = (8, UNDEF)
        u.ex.on_return = gone
        return Sys(u)
    def cstr(u, st, name):
        k = u.ex.fresh_int(st, "len_" + name, 0, BIG); o = st.new_obj("param", k + 1, None, name); arr = fresh_arr("arr_" + name, IntS); i = z3.Int("i")
        st.assume(z3.ForAll([i], z3.And(z3.Select(arr, i) >= 0, z3.Select(arr, i) < 256), patterns=[z3.Select(arr, i)]))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k.z), z3.Select(arr, i) != 0), patterns=[z3.Select(arr, i)])); st.assume(z3.Select(arr, k.z) == 0)
        o.regions.append(Region(0, 1, k + 1, ("int", 8), arr, z3.K(IntS, z3.BoolVal(True)))); o.ro = True
        st.ghost["$nulpos"] = {**st.ghost.get("$nulpos", {}), o.id: [k]}
        return PtrVal(o.id, 0), k, (lambda j: z3.Select(arr, j.z if isinstance(j, Lin) else j))
    def ret(u, o, want, msg): u.check(o.st, "post", (zb(u.ex.boolval(o.st, o.val)) if not isinstance(want, bool) else zb(u.ex.boolval(o.st, o.val)) == want) if not z3.is_expr(want) else zb(u.ex.boolval(o.st, o.val)) == want, msg)
    def cells(st, p): return dict(st.mem[p.obj].cells)
    def holds(st, p):
        """the stream a File holds"""
        return [v.obj for sz, v in st.mem[p.obj].cells.values() if isinstance(v, PtrVal) and v.obj is not None and v.obj in st.mem and st.mem[v.obj].kind == "file"]
    def same_val(x, y):
        if x is UNDEF or y is UNDEF: return True if y is UNDEF else False
        if isinstance(x, PtrVal) and isinstance(y, PtrVal): return x.obj == y.obj and (x.obj is None or x.off == y.off)
        if isinstance(x, IntVal) and isinstance(y, IntVal) and x.w == y.w: return True if x.lin == y.lin else (x.lin.z - y.lin.z) % (1 << x.w) == 0
        return x is y
    def same_rep(u, st, p, rep, msg, closed=False):
        """the File's fields are those of a File in a known state (a closed one holds no stream)"""
        c = cells(st, p); ok = []
        for off, (sz, v) in rep.items():
            if off not in c: ok.append(v is UNDEF); continue
            w = c[off][1]
            if isinstance(v, PtrVal) and closed: ok.append(isinstance(w, PtrVal) and w.obj is None); continue
            ok.append(same_val(w, v))
        g = False if any(x is False for x in ok) else z3.And([x for x in ok if x is not True] + [z3.BoolVal(True)])
        u.check(st, "inv", g, msg)
    def known(u, st, p, reps, what):
        """the File is in one of the states the contracts start from: it holds an open stream with the mode it was opened with, or none"""
        h = holds(st, p)
        if len(h) > 1: u.check(st, "inv", False, what + ": holds one stream"); return None
        if h:
            f = h[0]
            u.check(st, "inv", st.mem[f].status == "live", what + ": the stream it holds is open")
            if f in reps: same_rep(u, st, p, reps[f], what + ": the mode goes with the stream")
            return f
        if reps:
            def diff(r): return any((isinstance(v, PtrVal)) is False and not (off in cells(st, p) and same_val(cells(st, p)[off][1], v) is True) for off, (sz, v) in r.items())
            rs = [r for r in reps.values() if not diff(r)] or list(reps.values())[:1]
            same_rep(u, st, p, rs[0], what + ": a File without a stream", closed=True)
        return None
    def owned_once(u, st, fs, reps, what="result"):
        """every open stream is held by exactly one File"""
        got = [f for f in (known(u, st, p, reps, n) for n, p in fs) if f is not None]
        u.check(st, "post", len(set(got)) == len(got), "no stream has two owners")
        for oid, o in st.mem.items():
            if o.kind == "file" and o.status == "live": u.check(st, "leak", oid in got, "an opened stream stays owned (it is not leaked)")
    def opened(u, sys, st=None, name="file"):
        """an open File with any mode"""
        st = st if st is not None else u.state(); p = PtrVal(u.param(st, FT, name).id, 0)
        q, k, at = cstr(u, st, "path"); m, mk, mat = cstr(u, st, "mode"); sys.mode = m; sys.path = (k, at)
        for o in u.run(st, "f_open", [p, q, m]):
            if o.kind == "throw": continue
            h = holds(o.st, p)
            if h and o.st.mem[h[0]].status == "live": o.st.ghost["$calls"] = (); yield o.st, p, h[0]
    def states(u, sys, st=None, name="file"):
        """Files in every state: open, closed, moved from; with the fields of the open one"""
        for s, p, f in list(opened(u, sys, st, name)):
            rep = cells(s, p)
            yield s.fork(), p, f, {f: rep}
            for o in u.run(s.fork(), "f_close", [p]):
                if o.kind != "throw" and not holds(o.st, p): o.st.ghost["$calls"] = (); yield o.st, p, None, {f: rep}; break
            t = s.fork(); q = PtrVal(u.param(t, FT, "to").id, 0)
            for o in u.run(t, "f_move", [q, p]):
                if o.kind == "throw": continue
                for r in u.run(o.st, "f_dtor", [q]):
                    if r.kind != "throw": r.st.ghost["$calls"] = (); yield r.st, p, None, {f: rep}; break
    def calls(st): return list(st.ghost.get("$calls", ()))
    def opener(name, string):
        def f(u):
            sys = setup(u); st0 = u.state(); todo = []
            if string:
                for s, q, a in S.cases(u, "path", ro=False, st=st0):
                    if a.heap is not None: i = z3.Int("i"); s.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n.z), a.at(i) != 0), patterns=[a.at(i)])); s.ghost["$nulpos"] = {a.heap: [a.n]}
                    todo.append((s, q, a.n, a.at, q, a))
            else: q, k, at = cstr(u, st0, "path"); todo.append((st0, q, k, at, None, None))
            for st, q, k, at, sp, a in todo:
                p = PtrVal(u.param(st, FT, "file").id, 0); m, mk, mat = cstr(u, st, "mode"); sys.mode = m; sys.path = (k, at)
                for o in u.run(st, name, [p, q, m]):
                    if not no_throw(u, o): continue
                    cs = calls(o.st); fo = [c for c in cs if c[0] == "fopen"]
                    u.check(o.st, "post", len(cs) == 1 and len(fo) == 1, "open: one fopen and nothing else")
                    if len(fo) != 1: continue
                    ret(u, o, fo[0][1] is not None, "open: a File exactly when the file was opened")
                    own = set()
                    if fo[0][1] is not None:
                        u.check(o.st, "post", holds(o.st, p) == [fo[0][1]], "open: the File holds the opened stream"); owned_once(u, o.st, [("file", p)], {})
                    if sp is not None: S.expect(u, o.st, sp, a.n, a.at, "path", own)
                    u.no_leaks(o.st, own)
        U[name[2:]] = f
    opener("f_open", False); opener("f_open_s", True)
    @unit
    def u_move(u):
        sys = setup(u)
        for st, p, f, reps in states(u, sys):
            q = PtrVal(u.param(st, FT, "to").id, 0)
            for o in u.run(st, "f_move", [q, p]):
                if not no_throw(u, o): continue
                u.check(o.st, "post", calls(o.st) == [], "moving does not touch the stream"); u.check(o.st, "post", holds(o.st, q) == ([f] if f else []), "the moved-to File holds the stream"); owned_once(u, o.st, [("moved-to", q), ("moved-from", p)], reps); u.no_leaks(o.st)
    @unit
    def u_assign(u):
        sys = setup(u)
        for st0, p, f, r0 in states(u, sys, name="target"):
            for o in u.run(st0.fork(), "f_assign", [p, p]):         # onto itself
                if no_throw(u, o): u.check(o.st, "post", calls(o.st) == [], "self-assignment does not touch the stream"); u.check(o.st, "post", holds(o.st, p) == ([f] if f else []), "self-assignment keeps the stream"); owned_once(u, o.st, [("target", p)], r0)
            for st, q, g, r1 in states(u, sys, st0, "source"):
                reps = {**r0, **r1}
                for o in u.run(st, "f_assign", [p, q]):
                    if not no_throw(u, o): continue
                    cs = calls(o.st); u.check(o.st, "post", all(c[0] == "fclose" and c[1] == f for c in cs) and len(cs) <= 1, "assignment closes at most the stream the target held")
                    u.check(o.st, "post", holds(o.st, p) == ([g] if g else []), "the target takes over the source's stream"); owned_once(u, o.st, [("target", p), ("source", q)], reps); u.no_leaks(o.st)
    @unit
    def u_dtor(u):
        sys = setup(u)
        for st, p, f, reps in states(u, sys):
            for o in u.run(st, "f_dtor", [p]):
                if not no_throw(u, o): continue
                u.check(o.st, "post", [c[:2] for c in calls(o.st)] == ([("fclose", f)] if f else []), "the destructor closes the stream it holds, once"); owned_once(u, o.st, [], reps); u.no_leaks(o.st)
    @unit
    def u_close(u):
        sys = setup(u)
        for st, p, f, reps in states(u, sys):
            for o in u.run(st, "f_close", [p]):
                if not no_throw(u, o): continue
                cs = calls(o.st); u.check(o.st, "post", [c[:2] for c in cs] == ([("fclose", f)] if f else []), "close closes the stream it holds, once")
                u.check(o.st, "post", holds(o.st, p) == [], "a closed File holds no stream")
                ret(u, o, bool(f and cs and cs[0][2]), "close reports whether it closed a stream without error"); owned_once(u, o.st, [("file", p)], reps); u.no_leaks(o.st)
    def simple(name, arg, good):
        def g(u):
            sys = setup(u)
            for st, p, f, reps in states(u, sys):
                x = arg(u, st)
                for o in u.run(st, name, [p] + x):
                    if not no_throw(u, o): continue
                    good(u, o, f, calls(o.st), x); owned_once(u, o.st, [("file", p)], reps); u.no_leaks(o.st)
                    u.check(o.st, "post", holds(o.st, p) == ([f] if f else []), "the File keeps its stream")
        U[name[2:]] = g
    def flush(u, o, f, cs, x):
        u.check(o.st, "post", [c[:2] for c in cs] == ([("fflush", f)] if f else []), "flush flushes the stream it holds")
        r = u.ex.scanon(o.st, o.val); u.check(o.st, "post", (r.z == 0) == bool(f and cs and cs[0][2]), "flush returns 0 exactly on success"); u.check(o.st, "post", z3.Or(r.z == 0, r.z == -1), "flush returns 0 or EOF")
    def seek(u, o, f, cs, x):
        u.check(o.st, "post", [c[:2] for c in cs] == ([("fseek", f)] if f else []), "seek moves in the stream it holds")
        if f and cs: u.check(o.st, "post", z3.And((cs[0][3].lin.z - x[0].lin.z) % (1 << 64) == 0, cs[0][4].z == 0), "seek goes to the given offset from the start")
        ret(u, o, bool(f and cs and cs[0][2]), "seek reports success")
    def tell(u, o, f, cs, x):
        u.check(o.st, "post", [c[:2] for c in cs] == ([("ftell", f)] if f else []), "tell asks the stream it holds")
        r = u.ex.scanon(o.st, o.val); u.check(o.st, "post", r.z == (cs[0][2].z if f and cs else -1), "tell returns the position, or -1")
    simple("f_flush", lambda u, st: [], flush); simple("f_seek", lambda u, st: [u.int(st, "offset", -(1 << 63), (1 << 63) - 1)], seek); simple("f_tell", lambda u, st: [], tell)
    # ---------------------------------------------------------------- writing
    def wr_hint(f, at):
        """the bytes written so far are the first q bytes of the data"""
        def h(ex, st, lv):
            out = []
            for q in lv.qs:
                def g(s, q=q):
                    k = q.get(s)
                    if k is None: return z3.BoolVal(False)
                    wa, wn = s.ghost["wa %d" % f], s.ghost["wn %d" % f]
                    return z3.And(wn.z == k.z, every(k.z, wa, at))
                out.append(("written=data[0,%s)" % q.name, g))
            return out
        return h
    def writer(name, datas):
        def g(u):
            sys = setup(u)
            for st0, p, f, reps in states(u, sys):
                for st, args, n, at, own, keep in datas(u, st0):
                    if f is not None: u.ex.arith_hints = [wr_hint(f, at)]
                    st.ghost["$failed"] = False
                    for o in u.run(st, name, [p] + args):
                        if not no_throw(u, o): continue
                        fd = o.st.ghost["$failed"]
                        if f is None: ret(u, o, False, "writing to a File without a stream fails"); u.check(o.st, "post", calls(o.st) == [] and not fd, "no stream is touched")
                        else:
                            wn, wa = o.st.ghost["wn %d" % f], o.st.ghost["wa %d" % f]
                            ret(u, o, not fd, "write reports success exactly when every byte was taken")
                            u.check(o.st, "post", wn.z <= n.z if fd else wn.z == n.z, "write puts the given number of bytes")
                            u.check(o.st, "post-content", forall(0, wn, lambda i: z3.Select(wa, i) == at(i)), "write puts exactly the given bytes")
                            u.check(o.st, "post", all(c[0] == "fflush" for c in calls(o.st)), "nothing else happens to the stream")
                        keep(u, o.st); owned_once(u, o.st, [("file", p)], reps); u.no_leaks(o.st, own)
                        u.check(o.st, "post", holds(o.st, p) == ([f] if f else []), "the File keeps its stream")
        U[name[2:]] = g
    def d_buf(u, st):
        s = st.fork(); n = u.int(s, "n", 0, BIG); p, arr = u.elems(s, n.lin, "data", ("int", 8), 1); i = z3.Int("i")
        s.assume(z3.ForAll([i], z3.And(z3.Select(arr, i) >= 0, z3.Select(arr, i) < 256), patterns=[z3.Select(arr, i)]))
        yield s, [p, n], n.lin, (lambda j: z3.Select(arr, j)), (), lambda u, st: None
    def d_cstr(u, st):
        s = st.fork(); p, k, at = cstr(u, s, "data"); yield s, [p], k, at, (), lambda u, st: None
    def d_str(u, st):
        for s, q, a in S.cases(u, "data", ro=True, st=st): yield s, [q], a.n, a.at, {a.heap} if a.heap is not None else (), lambda u, st, q=q, a=a: S.expect(u, st, q, a.n, a.at, "data", set())
    writer("f_write", d_buf); writer("f_write_z", d_cstr); writer("f_write_s", d_str)
    # ---------------------------------------------------------------- reading
    def lines(u, st, f):
        """END(p): where the line starting at p ends"""
        u.ex.measures = [lambda s: s.ghost["$in %d" % f][1] - s.ghost["pos %d" % f]]
        arr, L = st.ghost["$in %d" % f]; p, j = z3.Ints("p j")
        st.assume(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p <= L.z), z3.And(END(p) >= p, END(p) <= L.z, z3.Implies(END(p) < L.z, z3.Select(arr, END(p)) == 10))), patterns=[END(p)]))
        st.assume(z3.ForAll([p, j], z3.Implies(z3.And(p >= 0, p <= j, j < END(p)), z3.Select(arr, j) != 10), patterns=[z3.MultiPattern(END(p), z3.Select(arr, j))]))
        return arr, L
    def rd_hint(u, f, arr, frm):
        """the string read so far is in[from, pos), without line break"""
        more = {}
        def h(ex, st, lv):
            out = []
            def nobreak(s):
                pos = s.ghost["pos %d" % f]; p0 = frm(s)
                return z3.And(pos.z >= p0, pos.z <= END(p0))
            out.append(("no line break before pos", nobreak))
            for (oid, off), m in st.conts.items():
                if m is not S: continue
                def g(s, oid=oid, off=off):
                    c = s.mem[oid].cells; n = (c.get(off + S.o_size) or (0, None))[1]; d = (c.get(off + S.o_data) or (0, None))[1]
                    if not isinstance(n, IntVal) or not isinstance(d, PtrVal): return z3.BoolVal(False)
                    pos = s.ghost["pos %d" % f]; p0 = frm(s); r = [n.lin.z == pos.z - p0]
                    if d.obj is not None:
                        o = s.mem.get(d.obj)
                        if o is None or not o.regions: return z3.And(r + [n.lin.z == 0])
                        r.append(every(n.lin.z, o.regions[0].arr, lambda i: z3.Select(arr, p0 + i)))
                    return z3.And(r)
                out.append(("text=in[from,pos)", g))
            # a loop that reads one byte ahead: the byte at hand is in[pos-1], or EOF at the end
            L = st.ghost["$in %d" % f][1]
            for cn, get in lv.cells(IntVal):
                if not isinstance(get(st), IntVal) or get(st).w != 32: continue
                def cur(s, get=get):
                    v = get(s)
                    return u.ex.scanon(s, v).z if isinstance(v, IntVal) else None
                def ahead(s, cur=cur):
                    c = cur(s)
                    if c is None: return z3.BoolVal(False)
                    pos = s.ghost["pos %d" % f]; p0 = frm(s)
                    return z3.If(c == -1, z3.And(pos.z == L.z, END(p0) == L.z), z3.And(pos.z > p0, pos.z - 1 <= END(p0), pos.z <= L.z, c == z3.Select(arr, pos.z - 1)))
                out.append(("%s is the byte before pos" % cn, ahead))
                more[cn] = lambda s, cur=cur: None if cur(s) is None else L - s.ghost["pos %d" % f] + Lin.of(Atom.of(z3.If(cur(s) == -1, z3.IntVal(0), z3.IntVal(1)), 0, 1))
                for (oid, off), m in st.conts.items():
                    if m is not S: continue
                    def g2(s, oid=oid, off=off, cur=cur):
                        c = s.mem[oid].cells; n = (c.get(off + S.o_size) or (0, None))[1]; d = (c.get(off + S.o_data) or (0, None))[1]; ch = cur(s)
                        if not isinstance(n, IntVal) or not isinstance(d, PtrVal) or ch is None: return z3.BoolVal(False)
                        pos = s.ghost["pos %d" % f]; p0 = frm(s); r = [n.lin.z == z3.If(ch == -1, pos.z, pos.z - 1) - p0]
                        if d.obj is not None:
                            o = s.mem.get(d.obj)
                            if o is None or not o.regions: return z3.And(r + [n.lin.z == 0])
                            r.append(every(n.lin.z, o.regions[0].arr, lambda i: z3.Select(arr, p0 + i)))
                        return z3.And(r)
                    out.append(("text=in[from,pos) up to the byte at hand %s" % cn, g2))
            ex.measures = getattr(ex, "measures", [])[:] ; ex.measures += [m for m in more.values() if m not in ex.measures]
            return out
        return h
    @unit
    def u_read_line(u):
        sys = setup(u)
        for st, p, f, reps in states(u, sys):
            q = S.raw(u, st)
            if f is not None:
                arr, L = lines(u, st, f); p0 = st.ghost["pos %d" % f]; e = END(p0.z); st.assume(e == e); u.ex.arith_hints = [rd_hint(u, f, arr, lambda s: p0.z)]
            for o in u.run(st, "f_read_line", [p, q]):
                if not no_throw(u, o): continue
                own = set(); r = zb(u.ex.boolval(o.st, o.val))
                if f is None: u.check(o.st, "post", z3.Not(r), "reading from a File without a stream gives nothing"); u.no_leaks(o.st); owned_once(u, o.st, [("file", p)], reps); continue
                pos = o.st.ghost["pos %d" % f]
                u.check(o.st, "post", r == (p0.z < L.z), "a line exactly when the file is not at its end")
                if u.ex.prove(o.st, r):
                    S.expect(u, o.st, q, Lin.of(Atom.of(e - p0.z, 0, BIG)), lambda i: z3.Select(arr, p0.z + i), "line", own)
                    u.check(o.st, "post", pos.z == z3.If(e < L.z, e + 1, L.z), "the line and its line break are consumed")
                else: u.check(o.st, "post", pos.z == L.z, "at the end")
                u.check(o.st, "post", calls(o.st) == [], "nothing else happens to the stream"); owned_once(u, o.st, [("file", p)], reps); u.no_leaks(o.st, own)
    PUSH = re.compile(r"efp::(detail::)?Vector(Base)?<efp::(Basic)?(String|Vector)<char.*>::push_back\(.*\)$")
    @unit
    def u_read_lines(u):
        sys = setup(u); ex = u.ex
        for st, p, f, reps in states(u, sys):
            q = PtrVal(u.param(st, LT, "lines").id, 0); ex.contracts = []
            if f is not None:
                arr, L = lines(u, st, f); p0 = st.ghost["pos %d" % f]; k = z3.Int("k")
                st.assume(START(0) == p0.z); st.assume(z3.ForAll([k], z3.Implies(k >= 0, START(k + 1) == z3.If(END(START(k)) < L.z, END(START(k)) + 1, L.z)), patterns=[END(START(k))]))
                def push(ex, st, ins, a):
                    """Vector::push_back (C01); the k-th string pushed has to be the k-th line"""
                    v, s = a[0], a[1]
                    if v.obj is None or not v.off.is_const(): raise ToolLimit("push_back target")
                    w = Unit.__new__(Unit); w.ex = ex; x = S.read(w, st, s, "pushed string")
                    c = (st.mem[v.obj].cells.get(v.off.c + o_size) or (0, UNDEF))[1]
                    if x is None or c is UNDEF: raise PathEnd()
                    b = START(c.lin.z); st.assume(END(b) == END(b))
                    ex.oblige(st, "post", b < L.z, "no more strings than lines", ins)
                    ex.oblige(st, "post-size", x.n.z == END(b) - b, "the k-th string has the length of the k-th line", ins)
                    ex.oblige(st, "post-content", loops.goal_of(ex, forall(0, x.n, lambda i: x.at(i) == z3.Select(arr, b + i))), "the k-th string is the k-th line", ins, assume=False)
                    st.w(v.obj).cells[v.off.c + o_size] = (8, IntVal(64, c.lin + 1))
                    if "&&" not in ex.short(ins.extra["callee"].name): return [(st, None)]
                    if x.heap is not None: st.w(x.heap).status = "freed"        # handed over to the vector
                    t = st.fork(); S.install(ex, st, s.obj, s.off.c, True); S.install(ex, t, s.obj, s.off.c, False, name="moved")       # a moved-from string: any string
                    return [(st, None), (t, None)]
                def read(ex, st, ins, a):
                    """File::read_line (verified as unit read_line)"""
                    o, fl = a[0], a[1]; h = holds(st, fl)
                    if not h: return [(st, engine.Redirect("@mk_none", [o]))]
                    sys.use(ex, st, PtrVal(h[0], 0), "read_line", ins); g = h[0]
                    if g != f: raise ToolLimit("other stream")
                    pos = st.ghost["pos %d" % g]; out = []; t = st.fork()
                    if ex.feasible(t, pos.z >= L.z): t.assume(pos.z >= L.z); out.append((t, engine.Redirect("@mk_none", [o])))
                    if ex.feasible(st, pos.z < L.z):
                        st.assume(pos.z < L.z); e = END(pos.z); st.assume(z3.And(pos.z >= 0, e >= pos.z, e <= L.z)); tmp = u.param(st, S.ty, "line")
                        for s in (st, st.fork()):
                            null = s is not st
                            x = S.install(ex, s, tmp.id, 0, null)
                            s.assume(x.n.z == e - pos.z)
                            if not null: i = z3.Int("i"); s.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < x.n.z), x.at(i) == z3.Select(arr, pos.z + i)), patterns=[x.at(i)]))
                            s.ghost["pos %d" % g] = ex.fresh_int(s, "pos", 0, BIG); s.assume(s.ghost["pos %d" % g].z == z3.If(e < L.z, e + 1, L.z))
                            if ex.feasible(s): out.append((s, engine.Redirect("@mk_line", [o, PtrVal(tmp.id, 0)])))
                    return out
                ex.contracts = [(lambda n, d: PUSH.search(d) is not None, push), (lambda n, d: d.endswith("efp::File::read_line()"), read)]
                def cnt(s):
                    for o in s.mem.values():
                        if o.ty is not None and repr(o.ty) == repr(LT) and o_size in o.cells and isinstance(o.cells[o_size][1], IntVal): return o.cells[o_size][1].lin.z
                    return None
                def outer(ex, st, lv):
                    def g(s):
                        c = cnt(s)
                        if c is None: return z3.BoolVal(False)
                        pos = s.ghost["pos %d" % f].z
                        return z3.And(c >= 0, pos == START(c), pos <= L.z, pos >= 0)
                    out = [("pos=start(count)", g)]; base = lambda s: L - s.ghost["pos %d" % f]
                    for cn, get in lv.cells(IntVal):
                        if not isinstance(get(st), IntVal) or get(st).w != 8: continue
                        def flag(s, get=get):
                            v = get(s)
                            return zb(ex.boolval(s, v)) if isinstance(v, IntVal) else None
                        for pol in (True, False):
                            def done(s, flag=flag, pol=pol):
                                b = flag(s)
                                return z3.BoolVal(False) if b is None else z3.Or(b == pol, s.ghost["pos %d" % f].z == L.z)
                            out.append(("%s==%s or at the end" % (cn, pol), done))
                            mm[cn, pol] = (lambda s, flag=flag, pol=pol: None if flag(s) is None else base(s) + Lin.of(Atom.of(z3.If(flag(s) == pol, z3.IntVal(1), z3.IntVal(0)), 0, 1)))
                    ex.measures = [base] + list(mm.values())
                    return out
                mm = {}
                inner = rd_hint(u, f, arr, lambda s: START(cnt(s)) if cnt(s) is not None else z3.IntVal(-1))
                ex.arith_hints = [outer, inner]
            for o in u.run(st, "f_read_lines", [p, q]):
                if not no_throw(u, o): continue
                n = (o.st.mem[q.obj].cells.get(o_size) or (0, UNDEF))[1]
                if not u.check(o.st, "post", isinstance(n, IntVal), "the result is initialised"): continue
                if f is None: u.check(o.st, "post", n.lin.z == 0, "reading from a File without a stream gives no lines")
                else: u.check(o.st, "post", START(n.lin.z) == L.z, "all lines are read"); u.check(o.st, "post", o.st.ghost["pos %d" % f].z == L.z, "the file is at its end"); u.check(o.st, "post", calls(o.st) == [], "nothing else happens to the stream")
                owned_once(u, o.st, [("file", p)], reps); u.no_leaks(o.st)
    return U
