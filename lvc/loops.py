"""Loops: complete unrolling when the trip count is concrete, otherwise an
inductive invariant.  Invariants are conjunctions of candidate facts
(generated from the values the loop modifies, plus the unit's own hints); a
candidate is kept only if it is proved on entry and proved preserved by every
path through the body (Houdini), so what is assumed at the head is proved."""
import time
import z3
from sym import *
import engine as E
from engine import Outcome, PathEnd, ToolLimit

class Loc:
    """a modified location"""
    def __init__(self, kind, oid=None, off=None, ri=None, key=None):
        self.kind, self.oid, self.off, self.ri, self.key = kind, oid, off, ri, key
        self.stride = None; self.off0 = None; self.obj0 = None
    def k(self): return (self.kind, self.oid, self.off, self.ri, self.key)
    def __repr__(self): return "%s:%s:%s" % (self.kind, self.oid, self.off if self.kind != "ghost" else self.key)

def same(a, b):
    if a is b: return True
    if type(a) != type(b): return False
    if isinstance(a, IntVal): return a.w == b.w and a.lin == b.lin
    if isinstance(a, PtrVal): return a.obj == b.obj and a.off == b.off
    if isinstance(a, EVal): return a.t.eq(b.t)
    if isinstance(a, FVal): return a.r.eq(b.r)
    if isinstance(a, BoolV):
        if isinstance(a.b, bool) or isinstance(b.b, bool): return isinstance(a.b, bool) and isinstance(b.b, bool) and a.b == b.b
        return a.b.eq(b.b)
    if isinstance(a, E.UNDEF.__class__): return True
    if isinstance(a, FuncPtr): return a.name == b.name
    return False

def gsame(a, b):
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, Lin) and isinstance(b, Lin): return a == b
    try: return bool(a == b)
    except Exception: return False

def diff(ex, H, B, entry=None):
    """locations that differ between head state H and state B (same frame depth).  Objects that do
    not exist on loop entry (blocks made by a container's havoc) are arbitrary at the head anyway."""
    out = []
    for oid, ho in H.mem.items():
        if entry is not None and oid not in entry.mem: continue
        bo = B.mem.get(oid)
        if bo is None: continue
        if bo is ho: continue
        ck = set(ho.cells) | set(bo.cells)
        for c in ck:
            a, b = ho.cells.get(c), bo.cells.get(c)
            if a is None:
                if b is not None and isinstance(b[1], EVal): out.append(Loc("cell", oid, c))
                elif b is not None: out.append(Loc("cell", oid, c))
                continue
            if b is None: out.append(Loc("cell", oid, c)); continue
            if not same(a[1], b[1]): out.append(Loc("cell", oid, c))
        for ri in range(max(len(ho.regions), len(bo.regions))):
            if ri >= len(ho.regions): out.append(Loc("newreg", oid, None, ri)); continue
            if ri >= len(bo.regions): continue
            a, b = ho.regions[ri], bo.regions[ri]
            if not a.arr.eq(b.arr) or not a.live.eq(b.live): out.append(Loc("reg", oid, None, ri))
        if ho.status != bo.status: out.append(Loc("status", oid))
        if ho.fill != bo.fill: out.append(Loc("fill", oid))
    for k in set(H.ghost) | set(B.ghost):
        if k.startswith("$"): continue
        if not gsame(H.ghost.get(k), B.ghost.get(k)): out.append(Loc("ghost", key=k))
    return out

def fresh_like(ex, st, v, name, prevs=()):
    if isinstance(v, IntVal):
        if v.b is not None or (v.w == 8 and v.lin.is_const() and v.lin.c in (0, 1) and all(isinstance(p, IntVal) and (p.b is not None or (p.lin.is_const() and p.lin.c in (0, 1))) for p in prevs)):
            return ex.from_bool(v.w, fresh(name, BoolS))
        if v.w == 32 or any(p.lin.is_const() and p.lin.c < 0 for p in (v,) + tuple(prevs) if isinstance(p, IntVal)) or getattr(ex, "signed64", False):
            return IntVal(v.w, ex.fresh_int(st, name, -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1))
        return IntVal(v.w, ex.fresh_int(st, name, 0, (1 << v.w) - 1))
    if isinstance(v, BoolV): return BoolV(fresh(name, BoolS))
    if isinstance(v, EVal): return EVal(fresh(name, V))
    if isinstance(v, FVal): return FVal(fresh(name, RealS))
    raise ToolLimit("loop-carried value %r" % (v,))

class LoopCtx:
    pass

def run_once(ex, H, head, body, d):
    """one pass of the body from head state H; returns (backs, exits, throws)"""
    def stop(s, fr, target, dd):
        if dd != d: return None
        if target == head: return "back"
        if target not in body: return "exit"
        return None
    H.top.noloop = head
    outs = ex.run(H, d, stop)
    backs = [o.st for o in outs if o.kind == "back"]
    exits = [o for o in outs if o.kind != "back"]
    return backs, exits

def exit_block(o): return o.st.top.blk if o.kind == "exit" else None

def handle(ex, st, head, body, depth, stop, work, out):
    d = len(st.frames)
    # phi nodes at head are evaluated already; loop-carried phis are not produced at -O0
    order, blocks = ex.mod.blocks(st.top.f)
    if blocks[head][0].op == "phi": raise ToolLimit("phi at loop head")
    header_exits = any(t not in body for t in (blocks[head][-1].extra if blocks[head][-1].op == "br" else []))
    # --- speculation: is the trip count concrete?
    if ex.bounded_unroll is not None:
        st.top.noloop = head; st.top.unroll[head] = 0
        st.bounded = True
        return False
    mode = ex.mode
    ex.mode = "infer"
    concrete = False
    try:
        cur = [st.fork()]
        for it in range(ex.unroll_limit):
            nxt, symbolic, nex = [], False, 0
            for s in cur:
                bk, xs = run_once(ex, s, head, body, d)
                hx = [o for o in xs if o.kind == "exit" and (not header_exits or exit_block(o) == head)]
                nex += len(xs)
                if bk and hx: symbolic = True; break
                for b in bk:
                    b.top.blk, b.top.idx = head, 0
                nxt += bk
            if symbolic: break
            if not nxt: concrete = True; break
            if len(nxt) > 12: break
            cur = nxt
    finally:
        ex.mode = mode
    if concrete:
        st.top.noloop = head; st.top.unroll[head] = 0
        ex.loop_info.append((ex.short(st.top.f.name), head, "unrolled"))
        return False
    return invariant_mode(ex, st, head, body, depth, stop, work, out, d)

def live_conts(st):
    """containers that are constructed in this state"""
    return [(k, c) for k, c in st.conts.items() if (st.mem[k[0]].cells.get(c.data_off(k)) or (0, UNDEF))[1] is not UNDEF]
# ------------------------------------------------------------------ havoc
def havoc(ex, st0, locs, head, entry):
    """list of head states: st0 with the modified locations replaced by fresh values"""
    states = [st0.fork()]
    conts = []
    for l in locs:
        # container data cells
        if l.kind == "cell":
            for key, c in live_conts(st0):
                if key[0] == l.oid and l.off == c.data_off(key) and (key, c) not in conts: conts.append((key, c))
    for key, c in conts:
        ns = []
        for s in states: ns += c.havoc(ex, s, key)
        states = ns
    covered = set()
    for key, c in conts:
        for off in c.cells(key): covered.add((key[0], off))
    for l in locs:
        if l.kind == "cell" and (l.oid, l.off) in covered: continue
        for s in states:
            if l.kind == "cell":
                o = s.w(l.oid)
                cur = entry.mem[l.oid].cells.get(l.off)
                if cur is None:
                    # dead or uninitialised on entry: nothing may be assumed
                    o.cells.pop(l.off, None)
                    continue
                sz, v = cur
                if v is UNDEF: o.cells[l.off] = (sz, UNDEF); continue
                if l.undef: o.cells[l.off] = (sz, UNDEF); continue
                if isinstance(v, PtrVal):
                    if l.objs and len(l.objs) > 1: raise ToolLimit("loop-carried pointer to different objects")
                    stp = l.stride or 8
                    t = ex.fresh_int(s, "it")
                    o.cells[l.off] = (sz, PtrVal(v.obj, v.off + t * stp))
                else:
                    o.cells[l.off] = (sz, fresh_like(ex, s, v, "lv%d_%d" % (l.oid, l.off), tuple(l.prevs)))
            elif l.kind == "reg":
                o = s.w(l.oid); r = o.regions[l.ri]
                r.arr = fresh_arr("la%d" % l.oid, E.kind_sort(r.kind)); r.live = fresh_arr("ll%d" % l.oid, BoolS)
            elif l.kind == "ghost":
                g = s.ghost[l.key]
                if isinstance(g, Lin): s.ghost[l.key] = ex.fresh_int(s, "g_" + l.key)
                elif isinstance(g, z3.ExprRef): s.ghost[l.key] = fresh("g_" + l.key, g.sort())
                else: raise ToolLimit("ghost %s changes in a loop" % l.key)
            elif l.kind in ("status",):
                raise ToolLimit("object released or killed inside a loop (%s)" % entry.mem[l.oid].name)
            elif l.kind in ("newreg", "fill"): pass
    for s in states: s.canon = {k: v for k, v in s.canon.items()}
    return states

class Quant:
    """an integer quantity that the loop modifies (or a term)"""
    def __init__(self, name, get, x0): self.name, self.get, self.x0 = name, get, x0

def cell_lin(s, oid, off):
    c = s.mem[oid].cells.get(off)
    if c is None: return None
    v = c[1]
    if isinstance(v, IntVal) and v.b is None: return v.lin
    return None

def invariant_mode(ex, st, head, body, depth, stop, work, out, d):
    mode = ex.mode
    t0 = time.time()
    st.top.noloop = head
    fname = ex.short(st.top.f.name)
    locs = {}
    def absorb(H, B):
        new = False
        for l in diff(ex, H, B, st):
            if l.kind in ("newreg", "fill"):
                if l.kind == "newreg": raise RegionAppeared(l.oid, B.mem[l.oid].regions[l.ri])
                continue
            k = l.k()
            if k not in locs:
                l.prevs, l.objs, l.undef = [], set(), False
                locs[k] = l; new = True
            L = locs[k]
            if l.kind == "cell":
                e = st.mem[l.oid].cells.get(l.off); b = B.mem[l.oid].cells.get(l.off); h = H.mem[l.oid].cells.get(l.off)
                if e is not None and isinstance(e[1], PtrVal) and b is not None and isinstance(b[1], PtrVal):
                    if b[1].obj != e[1].obj and not any(kk[0] == l.oid and l.off in c.cells(kk) for kk, c in live_conts(st)):
                        L.objs.add(b[1].obj); L.objs.add(e[1].obj)
                    elif L.stride is None and h is not None and isinstance(h[1], PtrVal):
                        dl = b[1].off - h[1].off
                        if dl.is_const() and dl.c: L.stride = abs(dl.c)
                if b is not None and isinstance(b[1], IntVal): L.prevs.append(b[1])
                if b is None or b[1] is UNDEF:
                    if not (e is not None and isinstance(e[1], EVal)) and not L.undef: L.undef = True; new = True
                if e is not None and isinstance(e[1], EVal) and (b is None or not isinstance(b[1], EVal)):
                    L.undef = True
        # the block a container had on entry is no longer its block once the container is re-described
        for key, c in live_conts(st):
            if any(l.kind == "cell" and l.oid == key[0] and l.off == c.data_off(key) for l in locs.values()):
                e = st.mem[key[0]].cells.get(c.data_off(key))
                blk = e[1].obj if e is not None and isinstance(e[1], PtrVal) else None
                if blk is not None:
                    for k in [k for k, l in locs.items() if l.oid == blk and l.kind in ("reg", "status", "newreg", "fill")]: del locs[k]
        return new
    ex.mode = "infer"
    try:
        for attempt in range(6):
            try:
                # modified set, to a fixpoint
                first_backs = None
                for rnd in range(8):
                    Hs = havoc(ex, st, list(locs.values()), head, st)
                    changed = False; allb = []; hb = []
                    for H in Hs:
                        h0 = H.fork()
                        bk, xs = run_once(ex, H, head, body, d)
                        for b in bk:
                            if absorb(h0, b): changed = True
                        allb += bk; hb += [(h0, b) for b in bk]
                    if first_backs is None: first_backs = allb
                    if not changed: break
                else: raise ToolLimit("modified set does not stabilise")
                break
            except RegionAppeared as ra:
                # make the region exist before the loop, then retry
                r = ra.r
                o = st.mem[ra.oid]
                w = r.kind
                if o.kind == "heap": ex.make_region(st, ra.oid, r.start, r.stride, r.count * r.stride, w, Lin({}, r.start))
                else: ex.make_region(st, ra.oid, r.start, r.stride, r.count * r.stride, w, Lin({}, r.start))
                locs = {}
    finally:
        ex.mode = mode
    L = list(locs.values())
    # ------------------------------------------------ candidates
    stats = dict(rounds=0, cands=0, init=0)
    def houdini(cands, fixed):
        """the largest subset of cands that is inductive together with fixed"""
        nonlocal L
        stats["cands"] += len(cands)
        alive = []
        for c in cands:
            g = c.at(st)
            if g is not None and conj(ex, st, g): alive.append(c)
        stats["init"] += len(alive)
        ex.mode = "infer"
        try:
            # dynamic filter: two iterations from the real entry state
            cur = [st.fork()]
            for it in range(2):
                nb = []
                for s in cur[:4]:
                    s.top.blk, s.top.idx = head, 0
                    bk, _ = run_once(ex, s, head, body, d)
                    nb += bk
                for b in nb[:6]:
                    alive = [c for c in alive if holds(ex, b, c)]
                cur = nb
            while True:
                stats["rounds"] += 1
                if stats["rounds"] > 60: raise ToolLimit("invariant inference does not converge")
                Hs = havoc(ex, st, L, head, st)
                n0 = len(alive)
                more = False
                for H in Hs:
                    for c in fixed + alive:
                        g = c.at(H)
                        if g is not None: H.assume(g)
                    if ex.qf.check(H.pc) == z3.unsat: continue
                    h0 = H.fork()
                    bk, xs = run_once(ex, H, head, body, d)
                    for b in bk:
                        if absorb(h0, b): more = True
                        alive = [c for c in alive if holds(ex, b, c)]
                if more:
                    L = list(locs.values()); continue
                if len(alive) == n0: break
        finally:
            ex.mode = mode
        return alive
    A = houdini(gen_arith(ex, st, L, d, first_backs), [])
    Hs = havoc(ex, st, L, head, st)
    for H in Hs:
        for c in A:
            g = c.at(H)
            if g is not None: H.assume(g)
    B = gen_arrays(ex, st, L, d, first_backs, hb, [H for H in Hs if ex.qf.check(H.pc) != z3.unsat] or Hs)
    alive = A + houdini(B, A)
    nh = len(alive)
    if nh > 45: alive = reduce_cands(ex, st, L, alive, head)
    stats.update(inductive=nh, kept=len(alive), t=round(time.time() - t0, 2))
    ex.loop_info.append((fname, head, "invariant", [c.name for c in alive], stats))
    # ------------------------------------------------ final pass
    if mode == "check":
        for c in alive:
            g = c.at(st)
            ex.oblige(st, "invariant-entry", goal_of(ex, g), "loop invariant on entry: %s" % c.name, assume=False)
        cont_wf(ex, st, L, None, st)
    Hs = havoc(ex, st, L, head, st)
    exits = []
    var_states = []
    for H in Hs:
        for c in alive:
            g = c.at(H)
            if g is not None: H.assume(g)
        if ex.qf.check(H.pc) == z3.unsat: continue
        h0 = H.fork()
        for hook in ([ex.on_loop_head] if ex.on_loop_head else []): hook(ex, H, fname, head)
        bk, xs = run_once(ex, H, head, body, d)
        exits += xs
        for b in bk:
            if mode == "check":
                for c in alive:
                    ex.oblige(b, "invariant-preserved", goal_of(ex, c.at(b)), "loop invariant preserved: %s" % c.name, assume=False)
                cont_wf(ex, b, L, h0, st)
                leak_new(ex, h0, b)
                lifetime_balance(ex, h0, b)
                for l in diff(ex, h0, b, st):
                    if l.k() not in locs and l.kind not in ("fill",):
                        raise ToolLimit("unlisted loop modification %r" % l)
            var_states.append((h0, b))
    if mode == "check" and var_states and not getattr(ex, "skip_termination", False):
        ok = find_variant(ex, st, L, var_states)
        if not ok:
            ex.oblige(var_states[0][1], "termination", False, "no decreasing measure found for the loop", assume=False)
        else:
            ex.obl.append(dict(kind="termination", where=fname, msg="loop measure decreases: %s" % ok, ok=True, t=0.0, text="", hist=()))
    # continue after the loop
    for o in exits:
        s = o.st
        if o.kind == "exit":
            s.top.noloop = None
            try:
                if not ex.jump(s, o.val, depth, stop, work, out): work.append(s)
            except PathEnd: pass
        elif o.kind == "throw":
            if len(s.frames) < depth: out.append(o)
            else:
                top = s.top
                ins = ex.mod.blocks(top.f)[1][top.blk][top.idx]
                try:
                    if ins.op == "invoke":
                        if not ex.jump(s, ins.extra["unwind"], depth, stop, work, out): work.append(s)
                    else: ex.unwind(s, depth, stop, work, out)
                except PathEnd: pass
        else: raise ToolLimit("loop exit %s" % o.kind)
    return True

def cont_wf(ex, s, L, h, entry):
    """a container whose block changes in the loop is well-formed at the loop head"""
    for key, c in live_conts(entry):
        if not any(l.kind == "cell" and l.oid == key[0] and l.off == c.data_off(key) for l in L): continue
        c.wf(ex, s, key)
        if h is not None:
            old = h.mem[key[0]].cells.get(c.data_off(key)); new = s.mem[key[0]].cells.get(c.data_off(key))
            ob = old[1].obj if old and isinstance(old[1], PtrVal) else None
            nb = new[1].obj if new and isinstance(new[1], PtrVal) else None
            if ob is not None and ob != nb and ob in s.mem and s.mem[ob].status == "live":
                ex.oblige(s, "leak", False, "replaced storage is never released", assume=False)

class RegionAppeared(Exception):
    def __init__(self, oid, r): self.oid, self.r = oid, r

def leak_new(ex, H, B):
    reach = set()
    for oid, o in B.mem.items():
        for c in o.cells.values():
            if isinstance(c[1], PtrVal) and c[1].obj is not None: reach.add(c[1].obj)
    for oid, o in B.mem.items():
        if oid not in H.mem and o.kind == "heap" and o.status == "live" and o.alloc and oid not in reach:
            ex.oblige(B, "leak", False, "storage allocated in a loop iteration is never released", assume=False)

def lifetime_balance(ex, H, B):
    """an element held in a single cell is alive at the head iff it is alive at the back edge"""
    for oid, ho in H.mem.items():
        bo = B.mem.get(oid)
        if bo is None or bo is ho: continue
        for c in set(ho.cells) | set(bo.cells):
            a = isinstance((ho.cells.get(c) or (0, None))[1], EVal); b = isinstance((bo.cells.get(c) or (0, None))[1], EVal)
            if b and not a: ex.oblige(B, "leak", False, "element constructed in a loop iteration is never destroyed (%s)" % ho.name, assume=False)
            if a and not b: ex.oblige(B, "lifetime", False, "element destroyed in a loop iteration is used again (%s)" % ho.name, assume=False)

def goal_of(ex, g):
    """skolemise a universally quantified goal (conjunctions allowed)"""
    if g is None: return z3.BoolVal(True)
    if z3.is_quantifier(g): return ex.skolem(g)
    if z3.is_and(g): return z3.And(*[goal_of(ex, x) for x in g.children()])
    if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_IMPLIES and z3.is_quantifier(g.arg(1)):
        return z3.Implies(g.arg(0), goal_of(ex, g.arg(1)))
    return g

def holds(ex, b, c):
    g = c.at(b)
    if g is None: return True
    return conj(ex, b, g)
def conj(ex, b, g):
    if z3.is_and(g):
        # conjunct by conjunct, each with the help of the ones before it
        done = []
        for x in g.children():
            y = goal_of(ex, x)
            if not ex.prove(b, z3.Implies(z3.And(*done), y) if done else y): return False
            if not z3.is_quantifier(x): done.append(x)
        return True
    return ex.prove(b, goal_of(ex, g))

class Cand:
    __slots__ = ("name", "at", "q")
    def __init__(self, name, at, q=False): self.name, self.at, self.q = name, at, q

def reduce_cands(ex, st, L, alive, head):
    if not any(c.q for c in alive): return alive
    Hs = havoc(ex, st, L, head, st)
    keep = list(alive)
    # try to drop each quantified candidate implied by the rest
    H = Hs[-1]
    plain = [c for c in alive if not c.q]
    base = H.fork()
    for c in plain:
        g = c.at(base)
        if g is not None: base.assume(g)
    qs = [c for c in alive if c.q]
    if len(qs) > 60: pass
    i = len(qs) - 1
    while i >= 0:
        c = qs[i]
        s = base.fork()
        for k, o in enumerate(qs):
            if k != i:
                g = o.at(s)
                if g is not None: s.assume(g)
        ok = True
        g = c.at(s)
        if g is not None and ex.prove(s, goal_of(ex, g)):
            if len(Hs) == 1: qs.pop(i)
            else:
                ok = True
                for H2 in Hs[:-1]:
                    s2 = H2.fork()
                    for o in plain + [q for k, q in enumerate(qs) if k != i]:
                        g2 = o.at(s2)
                        if g2 is not None: s2.assume(g2)
                    if not holds(ex, s2, c): ok = False; break
                if ok: qs.pop(i)
        i -= 1
    return plain + qs

# ------------------------------------------------------------------ candidate generation
def quantities(ex, st, L, backs):
    qs = []
    for l in L:
        if l.kind == "cell":
            e = st.mem[l.oid].cells.get(l.off)
            if e is None or l.undef: continue
            v = e[1]
            nm = "%s+%d" % (st.mem[l.oid].name or l.oid, l.off)
            if isinstance(v, IntVal) and not (v.b is not None):
                if v.w < 32: continue
                def get(s, oid=l.oid, off=l.off): return cell_lin(s, oid, off)
                qs.append(Quant(nm, get, v.lin))
            elif isinstance(v, PtrVal) and v.obj is not None and l.stride:
                def get(s, oid=l.oid, off=l.off, o0=v.off, stp=l.stride, obj=v.obj):
                    c = s.mem[oid].cells.get(off)
                    if c is None or not isinstance(c[1], PtrVal) or c[1].obj != obj: return None
                    x = c[1].off
                    if x.divisible(stp): return x.div(stp)
                    dd = x - o0
                    if dd.divisible(stp): return dd.div(stp) 
                    return None
                x0 = get(st)
                if x0 is not None: qs.append(Quant("*" + nm, get, x0))
        elif l.kind == "ghost":
            g = st.ghost.get(l.key)
            if isinstance(g, Lin):
                qs.append(Quant("ghost " + l.key, (lambda s, k=l.key: s.ghost[k]), g))
    # container-covered cells
    return qs

def inv_terms(ex, st, L):
    """loop-invariant integer terms worth comparing with"""
    mod = set((l.oid, l.off) for l in L if l.kind == "cell")
    terms, seen = [], set()
    def add(x, nm):
        if x is None: return
        k = x.key()
        if k in seen: return
        if x.is_const() and not (0 <= x.c <= 4096): return
        lo, hi = x.rng()
        seen.add(k); terms.append((x, nm))
    add(Lin({}, 0), "0")
    for t in ex.terms: add(t if not callable(t) else t(st), "spec")
    def add_obj(o):
        for off in sorted(o.cells):
            if (o.id, off) in mod: continue
            v = o.cells[off][1]
            if isinstance(v, IntVal) and v.b is None and v.w >= 32: add(v.lin, "%s+%d" % (o.name, off))
            elif isinstance(v, PtrVal) and v.obj is not None and st.mem.get(v.obj) is not None:
                t = st.mem[v.obj]
                for r in t.regions:
                    dd = v.off - r.start
                    if dd.divisible(r.stride): add(dd.div(r.stride), "ptr")
                    add(r.count, "count")
    fr = st.top
    for oid in fr.allocas:
        if oid in st.mem: add_obj(st.mem[oid])
    # objects referenced from the frame
    for oid in fr.allocas:
        o = st.mem.get(oid)
        if o is None: continue
        for c in o.cells.values():
            if isinstance(c[1], PtrVal) and c[1].obj in st.mem and st.mem[c[1].obj].kind != "global": add_obj(st.mem[c[1].obj])
    for f in reversed(st.frames[:-1][-3:]):
        for oid in f.allocas:
            if oid in st.mem: add_obj(st.mem[oid])
    for o in st.mem.values():
        if o.kind == "param": add_obj(o)
    return terms[:18]

def creg(s, oid, off):
    """region behind a container's data cell; None when null"""
    c = s.mem[oid].cells.get(off)
    if c is None or not isinstance(c[1], PtrVal) or c[1].obj is None: return None
    o = s.mem.get(c[1].obj)
    if o is None or not o.regions: return None
    return o.regions[0]

def arrays(ex, st, L):
    """modified arrays: list of (name, getter(s) -> Region or None, entry region)"""
    out = []
    covered = set()
    for l in L:
        if l.kind == "reg":
            r0 = st.mem[l.oid].regions[l.ri]
            out.append(("%s[%d]" % (st.mem[l.oid].name or l.oid, l.ri), (lambda s, oid=l.oid, ri=l.ri: s.mem[oid].regions[ri]), r0))
    for key, c in live_conts(st):
        if any(l.kind == "cell" and l.oid == key[0] and l.off == c.data_off(key) for l in L):
            off = c.data_off(key)
            r0 = creg(st, key[0], off)
            out.append(("cont%s" % (key,), (lambda s, oid=key[0], off=off: creg(s, oid, off)), r0))
    return out

def gen_arith(ex, st, L, d, backs):
    C = []
    qs = quantities(ex, st, L, backs)
    T = inv_terms(ex, st, L)
    def add(name, at): C.append(Cand(name, at))
    for a in qs:
        x0 = a.x0
        add("%s>=entry" % a.name, lambda s, a=a, x0=x0: rel(a.get(s), x0, ">="))
        add("%s<=entry" % a.name, lambda s, a=a, x0=x0: rel(a.get(s), x0, "<="))
        for t, nm in T:
            if t == x0: continue
            add("%s<=%s" % (a.name, nm), lambda s, a=a, t=t: rel(a.get(s), t, "<="))
            add("%s>=%s" % (a.name, nm), lambda s, a=a, t=t: rel(a.get(s), t, ">="))
            if not t.is_const():
                add("%s<%s" % (a.name, nm), lambda s, a=a, t=t: rel(a.get(s), t - 1, "<="))
                add("%s>%s" % (a.name, nm), lambda s, a=a, t=t: rel(a.get(s), t + 1, ">="))
        # a guard that only says something once the loop has run
        ds = [x for x in deltas(ex, st, a, backs)]
        for op, sgn in (("<=", 1), (">=", -1)):
            if not ds or not all(x is not None and x * sgn >= 0 for x in ds) or not any(ds): continue
            for t, nm in T:
                if t == x0 or (t - x0).is_const() or conj(ex, st, rel(x0, t, op)): continue
                add("%s==entry or %s%s%s" % (a.name, a.name, op, nm), lambda s, a=a, t=t, x0=x0, op=op: z3.BoolVal(False) if a.get(s) is None else z3.Or(a.get(s).z == x0.z, rel(a.get(s), t, op)))
    for i, a in enumerate(qs):
        for b in qs[i+1:]:
            ra = deltas(ex, st, a, backs); rb = deltas(ex, st, b, backs)
            done = False
            if ra and rb and len(ra) == len(rb) and all(x is not None and y is not None for x, y in zip(ra, rb)):
                for x, y in zip(ra, rb):
                    if x and y: ka, kb = y, x; break
                else: ka = kb = None
                if ka:
                    add("%d*d(%s)==%d*d(%s)" % (ka, a.name, kb, b.name), lambda s, a=a, b=b, ka=ka, kb=kb: lineq(a.get(s), a.x0, ka, b.get(s), b.x0, kb)); done = True
            if not done:
                add("d(%s)==d(%s)" % (a.name, b.name), lambda s, a=a, b=b: lineq(a.get(s), a.x0, 1, b.get(s), b.x0, 1))
                add("d(%s)==-d(%s)" % (a.name, b.name), lambda s, a=a, b=b: lineq(a.get(s), a.x0, 1, b.get(s), b.x0, -1))
            add("%s<=%s" % (a.name, b.name), lambda s, a=a, b=b: rel2(a.get(s), b.get(s), "<="))
            add("%s>=%s" % (a.name, b.name), lambda s, a=a, b=b: rel2(a.get(s), b.get(s), ">="))
            add("%s<%s" % (a.name, b.name), lambda s, a=a, b=b: rel2(plus(a.get(s), 1), b.get(s), "<="))
            add("%s>%s" % (a.name, b.name), lambda s, a=a, b=b: rel2(a.get(s), plus(b.get(s), 1), ">="))
    if 3 <= len(qs) <= 4:
        for k, a in enumerate(qs):
            for i, b in enumerate(qs):
                for c in qs[i+1:]:
                    if a is b or a is c: continue
                    def sum3(s, a=a, b=b, c=c):
                        x, y, z = a.get(s), b.get(s), c.get(s)
                        if x is None or y is None or z is None: return z3.BoolVal(False)
                        return (x - a.x0 - (y - b.x0) - (z - c.x0)).z == 0
                    add("d(%s)==d(%s)+d(%s)" % (a.name, b.name, c.name), sum3)
    # values that keep their entry value (booleans, elements, reals)
    lv = LoopView(ex, st, L, qs, T, [], d)
    for h in getattr(ex, "arith_hints", []):
        for nm, at in h(ex, st, lv): C.append(Cand("hint:" + nm, at))
    return C

def intervals(ex, Hs, pcuts, main=()):
    """pairs (lo, hi) of cut points with lo <= hi provable and nothing between"""
    H = Hs[-1]
    pts, byk = [], {}
    for nm, f in pcuts:
        x = f(H)
        if x is None or x.key() in byk: continue
        byk[x.key()] = 1
        # merge with provably equal earlier points
        dup = False
        for (n2, f2, x2) in pts:
            dd = x - x2
            if dd.is_const(): continue
            if ex.prove(H, x.z == x2.z, full=False): dup = True; break
        if not dup: pts.append((nm, f, x))
    n = len(pts)
    le = [[False] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i == j: continue
            dd = pts[j][2] - pts[i][2]
            lo, hi = dd.rng()
            if lo is not None and lo >= 0: le[i][j] = True
            elif hi is not None and hi < 0: le[i][j] = False
            else: le[i][j] = ex.prove(H, pts[i][2].z <= pts[j][2].z, full=False)
    out = []
    for i in range(n):
        for j in range(n):
            if i == j or not le[i][j] or le[j][i]: continue
            if any(k != i and k != j and le[i][k] and le[k][j] for k in range(n)): continue
            out.append((pts[i][:2], pts[j][:2]))
    # ranges whose order is not known (a loop that may not run at all)
    for i in range(n):
        for j in range(n):
            if i == j or le[i][j] or le[j][i]: continue
            if (pts[i][0] in main) != (pts[j][0] in main): out.append((pts[i][:2], pts[j][:2]))
    return out

def write_cuts(ex, st, L, qs, hb):
    """where the loop writes: index = (+/-) quantity + something the loop does not change"""
    out, seen = [], set()
    for h, b in hb[:4]:
        vals = [(q, q.get(h)) for q in qs]
        moving = set(a for q, v in vals if v is not None for a in v.t)
        for l in L:
            if l.kind != "reg": continue
            oh, ob = h.mem.get(l.oid), b.mem.get(l.oid)
            if oh is None or ob is None or len(oh.regions) <= l.ri or len(ob.regions) <= l.ri: continue
            for get in (lambda r: r.arr, lambda r: r.live):
                x, base, n = get(ob.regions[l.ri]), get(oh.regions[l.ri]), 0
                while z3.is_store(x) and not x.eq(base) and n < 6:
                    k = Lin.of(x.arg(1)); x = x.arg(0); n += 1
                    for q, v in vals:
                        if v is None or v.is_const(): continue
                        for sg in (1, -1):
                            off = k - v if sg == 1 else k + v
                            if any(a in moving for a in off.t) or (off.is_const() and (sg == 1 and -1 <= off.c <= 1)): continue
                            key = (q.name, sg, off.key())
                            if key in seen: continue
                            seen.add(key); nm = "%s%s%s" % (off, "+" if sg == 1 else "-", q.name)
                            f = lambda s, q=q, off=off, sg=sg: None if q.get(s) is None else (off + q.get(s) if sg == 1 else off - q.get(s))
                            out.append((nm, f)); out.append((nm + "+1", lambda s, f=f: plus(f(s), 1)))
    return out[:6]

def gen_arrays(ex, st, L, d, backs, hb, Hs):
    C = []
    qs = quantities(ex, st, L, backs)
    T = inv_terms(ex, st, L)
    arrs = arrays(ex, st, L)
    if arrs:
        cuts = [("0", lambda s: Lin({}, 0))]
        for a in qs:
            cuts.append((a.name, a.get))
        simple = getattr(ex, "simple_cuts", False)
        if not simple:
            for t, nm in T: cuts.append((nm, (lambda s, t=t: t)))
        else:
            for t in ex.terms:
                if not callable(t): cuts.append(("spec", (lambda s, t=t: t)))
        for a in qs:
            if simple:
                if not a.x0.is_const(): cuts.append((a.name + "@entry", (lambda s, a=a: a.x0)))
            elif not a.x0.is_const():
                cuts.append((a.name + "@entry", (lambda s, a=a: a.x0)))
                cuts.append((a.name + "@entry+1", (lambda s, a=a: a.x0 + 1)))
        for a in (qs if not simple else ()):
            cuts.append((a.name + "+1", (lambda s, a=a: plus(a.get(s), 1))))
            cuts.append((a.name + "-1", (lambda s, a=a: plus(a.get(s), -1))))
        for a in qs:
            for t in getattr(ex, "cut_offsets", []): cuts.append((a.name + "+spec", (lambda s, a=a, t=t: None if a.get(s) is None else a.get(s) + t)))
        wc = write_cuts(ex, st, L, qs, hb)
        cuts += wc
        others = other_arrays(ex, st, arrs)
        for nm, getr, r0 in arrs:
            pcuts = cuts + [("cnt", (lambda s, getr=getr: getr(s).count if getr(s) is not None else Lin({}, 0)))]
            kind = (r0 if r0 is not None else getr(Hs[-1])).kind
            iv = intervals(ex, Hs, pcuts, set(a.name for a in qs) | set(n for n, _ in wc))
            for (ln, lf), (hn, hf) in iv:
                tag = "[%s,%s)" % (ln, hn)
                quant_range(C, "live(%s)%s" % (nm, tag), getr, lf, hf, lambda s, r, i: z3.Select(r.live, i), "live")
                quant_range(C, "dead(%s)%s" % (nm, tag), getr, lf, hf, lambda s, r, i: z3.Not(z3.Select(r.live, i)), "live")
                if r0 is not None:
                    quant_range(C, "same(%s)%s" % (nm, tag), getr, lf, hf, lambda s, r, i, r0=r0: z3.Select(r.arr, i) == z3.Select(r0.arr, i), "arr")
                    quant_range(C, "samelive(%s)%s" % (nm, tag), getr, lf, hf, lambda s, r, i, r0=r0: z3.Select(r.live, i) == z3.Select(r0.live, i), "live")
                    for k in (1, -1):
                        quant_range(C, "shift%+d(%s)%s" % (k, nm, tag), getr, lf, hf, lambda s, r, i, r0=r0, k=k: z3.Select(r.arr, i) == z3.Select(r0.arr, i + k), "arr")
                for on, og, shifts in others:
                    if og[0] != kind: continue
                    for sn, sh in shifts:
                        def body(s, r, i, og=og, sh=sh):
                            return z3.Select(r.arr, i) == z3.Select(og[1], i + sh)
                        quant_range(C, "copy(%s<-%s%s)%s" % (nm, on, sn, tag), getr, lf, hf, body, "arr")
                for tn, tk, tf in getattr(ex, "term_funs", []):
                    if tk == kind: quant_range(C, "is(%s=%s)%s" % (nm, tn, tag), getr, lf, hf, lambda s, r, i, tf=tf: z3.Select(r.arr, i) == tf(i), "arr")
                for vn, vf in getattr(ex, "const_vals", []):
                    quant_range(C, "const(%s=%s)%s" % (nm, vn, tag), getr, lf, hf, lambda s, r, i, vf=vf: z3.Select(r.arr, i) == vf, "arr") if vf.sort() == engine_sort(kind) else None
    for h in ex.hints:
        for nm, at in h(ex, st, LoopView(ex, st, L, qs, T, arrs, d, Hs)):
            C.append(Cand("hint:" + nm, at, True))
    return C
def engine_sort(kind): return E.kind_sort(kind)

class LoopView:
    def __init__(self, ex, st, L, qs, T, arrs, d, Hs=None):
        self.ex, self.st, self.L, self.qs, self.T, self.arrs, self.d, self.Hs = ex, st, L, qs, T, arrs, d, Hs
    def cells(self, cls):
        """modified cells holding a value of class cls: (name, getter)"""
        out = []
        for l in self.L:
            if l.kind == "cell":
                e = self.st.mem[l.oid].cells.get(l.off)
                if e is not None and isinstance(e[1], cls):
                    out.append(("%s+%d" % (self.st.mem[l.oid].name or l.oid, l.off), lambda s, oid=l.oid, off=l.off: (s.mem[oid].cells.get(off) or (0, None))[1]))
        return out

def deltas(ex, st, a, backs):
    out = []
    for b in backs or []:
        x = a.get(b)
        if x is None: out.append(None); continue
        dd = x - a.x0
        out.append(dd.c if dd.is_const() else None)
    return out
def plus(x, k): return None if x is None else x + k
def rel(x, t, op):
    if x is None: return z3.BoolVal(False)
    return x.z >= t.z if op == ">=" else x.z <= t.z
def rel2(x, y, op):
    if x is None or y is None: return z3.BoolVal(False)
    return x.z >= y.z if op == ">=" else x.z <= y.z
def lineq(x, x0, ka, y, y0, kb):
    if x is None or y is None: return z3.BoolVal(False)
    return ((x - x0) * ka - (y - y0) * kb).z == 0

def quant_range(C, name, getr, lf, hf, body, pat):
    def at(s):
        r = getr(s); lo = lf(s); hi = hf(s)
        if lo is None or hi is None: return z3.BoolVal(False)
        if r is None: return lo.z >= hi.z
        i = z3.Int("i")
        b = body(s, r, i)
        pt = z3.Select(r.live if pat == "live" else r.arr, i)
        if z3.is_app(pt.arg(0)) and pt.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED: pats = [pt]
        else: pats = []
        f = z3.Implies(z3.And(i >= lo.z, i < hi.z), b)
        return z3.ForAll([i], f, patterns=pats) if pats else z3.ForAll([i], f)
    C.append(Cand(name, at, True))
def other_arrays(ex, st, arrs):
    """arrays a loop may copy from: every region visible at entry (entry contents)"""
    out, seen = [], set()
    mine = set(id(r0) for _, _, r0 in arrs if r0 is not None)
    shifts0 = [("", z3.IntVal(0))] + [(("+%s" % t) , t.z) for t in getattr(ex, "shifts", [])]
    for nm, arr, kind in getattr(ex, "src_arrays", []):
        out.append((nm, (kind, arr), shifts0)); seen.add(arr.get_id())
    for o in st.mem.values():
        if o.kind == "global": continue
        for r in o.regions:
            if r.arr.get_id() in seen: continue
            seen.add(r.arr.get_id())
            if id(r) in mine and len(mine) == 1: continue
            out.append((o.name or str(o.id), (r.kind, r.arr), shifts0))
    return out[:6]

def find_variant(ex, st, L, pairs):
    qs = quantities(ex, st, L, None)
    T = inv_terms(ex, st, L)
    meas = []
    for m in getattr(ex, "measures", []): meas.append(("spec", m))
    for a in qs:
        for t, nm in T:
            meas.append(("%s-%s" % (nm, a.name), lambda s, a=a, t=t: None if a.get(s) is None else t - a.get(s)))
            meas.append(("%s-%s" % (a.name, nm), lambda s, a=a, t=t: None if a.get(s) is None else a.get(s) - t))
        meas.append((a.name, lambda s, a=a: a.get(s)))
    for a in qs:
        for b in qs:
            if a is not b: meas.append(("%s-%s" % (a.name, b.name), lambda s, a=a, b=b: None if a.get(s) is None or b.get(s) is None else a.get(s) - b.get(s)))
    for nm, m in meas:
        ok = True
        for h, b in pairs:
            x, y = m(h), m(b)
            if x is None or y is None: ok = False; break
            dd = y - x
            if dd.is_const() and dd.c >= 0: ok = False; break
            if not ex.prove(b, z3.And(y.z < x.z, x.z >= 0)): ok = False; break
        if ok: return nm
    # sum of two quantities (two-cursor loops)
    for a in qs:
        for b in qs:
            if a is b: continue
            for t, tn in T:
                def m(s, a=a, b=b, t=t):
                    x, y = a.get(s), b.get(s)
                    return None if x is None or y is None else t - x - y
                ok = True
                for h, bb in pairs:
                    x, y = m(h), m(bb)
                    if x is None or y is None: ok = False; break
                    dd = y - x
                    if dd.is_const() and dd.c >= 0: ok = False; break
                    if not ex.prove(bb, z3.And(y.z < x.z)): ok = False; break
                    # bounded below: both have upper bounds among T
                    if not any(ex.prove(bb, a.get(h).z <= u.z) for u, _ in T) or not any(ex.prove(bb, b.get(h).z <= u.z) for u, _ in T): ok = False; break
                if ok: return "%s-%s-%s" % (tn, a.name, b.name)
    return None
