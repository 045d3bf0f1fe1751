#!/usr/bin/env python3-vt
"""Entry point of every check:  python3-vt lvc/check.py <property> [--tier quick|thorough]
exit 0: every obligation generated from /repo's current source is discharged
exit 1: VIOLATION line;  exit 2: the check itself could not run."""
import sys, os, time, json, re, subprocess, traceback, importlib, argparse, threading
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import speclib, engine
from props import PROPS

CLANG = speclib.CLANG
UNIT_DEADLINE = {"quick": 240, "thorough": 900}
TOTAL = {"quick": 600, "thorough": 7200}

def run_unit(spec, std, name, defs, deadline, conn):
    """child process: verify one unit"""
    t0 = time.time()
    out = dict(spec=spec, std=std + "".join(defs), name=name, err=None, fails=[], obl=0, kinds={})
    try:
        m = importlib.import_module(spec)
        mod = speclib.load_module(m.SRC, std, tuple(getattr(m, "DEFS", ())) + defs)
        U = m.units(mod)
        u = speclib.Unit(mod, name, deadline=deadline)
        try:
            U[name](u)
        except engine.ToolLimit as e: out["err"] = "limit: %s" % e
        except RecursionError as e: out["err"] = "limit: recursion"
        except engine.UndefUse: 
            out["err"] = None
            u.ex.obl.append(dict(kind="uninit", where=name, msg="result depends on uninitialised memory", ok=False, t=0, text="", hist=()))
        except Exception as e:
            out["err"] = "limit: internal %s: %s" % (type(e).__name__, str(e)[:300]); out["tb"] = traceback.format_exc()[-2000:]
        obl = u.ex.obl
        out["obl"] = len(obl); out["discharged"] = sum(1 for o in obl if o["ok"])
        for o in obl: out["kinds"][o["kind"]] = out["kinds"].get(o["kind"], 0) + 1
        out["fails"] = [dict(kind=o["kind"], where=o["where"], msg=o["msg"], text=o["text"], goal=o.get("goal", "")) for o in obl if not o["ok"]][:40]
        out["vac"] = u.vac; out["cases"] = u.cases; out["paths"] = u.covered
        out["functions"] = sorted(set(mod.dem(f) for f in u.ex.functions))
        out["loops"] = [(l[0], l[1], l[2], len(l[3]) if len(l) > 3 else 0) for l in u.ex.loop_info]
        out["trusted"] = sorted(u.ex.trusted | set(getattr(u, "assumptions", [])))
        out["solver_s"] = u.ex.qf.time + u.ex.full.time
        out["queries"] = u.ex.qf.n + u.ex.full.n
        out["bounded"] = getattr(u, "bounded", None)
        if not out["err"]:
            if not obl or not u.covered: out["err"] = "limit: vacuous unit (no obligation or no path)"
            elif u.vac: out["err"] = "limit: " + "; ".join(u.vac)
    except speclib.CompileError as e: out["err"] = "compile: %s" % e
    except Exception as e:
        out["err"] = "limit: setup %s: %s" % (type(e).__name__, str(e)[:400]); out["tb"] = traceback.format_exc()[-2000:]
    out["t"] = time.time() - t0
    try: conn.send(out)
    except Exception: pass
    conn.close()

def pool(jobs, deadline, total, nproc):
    """run jobs [(spec, std, name)] in forked children"""
    ctx = mp.get_context("fork")
    pending, running, res = list(jobs), [], []
    t0 = time.time()
    while pending or running:
        while pending and len(running) < nproc:
            j = pending.pop(0)
            left = total - (time.time() - t0)
            if left < 5:
                res.append(dict(spec=j[0], std=j[1] + ''.join(j[3]), name=j[2], err="limit: total time", fails=[], obl=0, discharged=0, kinds={}, t=0)); continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run_unit, args=(j[0], j[1], j[2], j[3], min(deadline, left), b)); p.start(); b.close()
            running.append((p, a, j, time.time()))
        if not running: break
        mp.connection.wait([r[1] for r in running], timeout=1.0)
        for r in list(running):
            p, a, j, ts = r
            done = None
            if a.poll():
                try: done = a.recv()
                except EOFError: done = dict(err="limit: verifier process died")
            elif not p.is_alive(): done = dict(err="limit: verifier process died (%s)" % p.exitcode)
            elif time.time() - ts > deadline * 1.5 + 60:
                p.kill(); done = dict(err="limit: time (killed)")
            if done is not None:
                if "name" not in done: done = dict(dict(spec=j[0], std=j[1] + "".join(j[3]), name=j[2], fails=[], obl=0, discharged=0, kinds={}, t=time.time() - ts), **done)
                p.join(5); a.close(); running.remove(r); res.append(done)
    return res

class Driver(threading.Thread):
    """native driver: bounded search for a failing input on the real code"""
    def __init__(self, src, defs, seed, scale, limit):
        super().__init__(daemon=True)
        self.src, self.defs, self.seed, self.scale, self.limit = src, defs, seed, scale, limit
        self.status, self.out, self.cases, self.t = "error", "", 0, 0.0
    def run(self):
        t0 = time.time()
        exe = os.path.join(VERIF, "build", "drv_%s_%s_%d" % (os.path.basename(self.src), re.sub(r"\W", "", "".join(self.defs)), os.getpid()))
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        args = list(self.defs)
        std = "-std=c++17"
        san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
        for a in list(args):
            if a.startswith("-std="): std = a; args.remove(a)
            if a == "TSAN": san = ["-fsanitize=thread"]; args.remove(a)
        self.cmd = [CLANG, std, "-O1", "-g", "-w"] + san + ["-I" + os.path.join(speclib.REPO, "include"), "-I" + os.path.join(VERIF, "replay")] + args + [os.path.join(VERIF, "replay", self.src), "-o", exe, "-pthread"]
        try:
            r = subprocess.run(self.cmd, capture_output=True, text=True, timeout=300)
            if r.returncode: self.out = r.stderr[-3000:]; self.status = "compile"; return
            try:
                r = subprocess.run([exe, str(self.seed), str(self.scale)], capture_output=True, text=True, errors="replace", timeout=self.limit, cwd=os.path.join(VERIF, "build"))
                self.out = (r.stdout[-6000:] + "\n" + r.stderr[-6000:])
                m = re.search(r"OK cases=(\d+)", r.stdout)
                if r.returncode == 0 and m: self.status = "ok"; self.cases = int(m.group(1))
                elif re.search(r"unexpected memory mapping|failed to (re-?exec|disable ASLR)", self.out): self.status = "unavailable"
                else: self.status = "fail"
            except subprocess.TimeoutExpired as e:
                o = e.stdout or b""
                self.out = (o.decode("utf8", "replace") if isinstance(o, bytes) else o)[-3000:] + "\ntimeout"
                self.status = "timeout"
        except Exception as e: self.out = repr(e)
        finally:
            self.t = time.time() - t0
            try: os.unlink(exe)
            except OSError: pass

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) unit=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out

def selftest():
    """setup: the tools are there and every contract module loads"""
    r = subprocess.run([CLANG, "--version"], capture_output=True, text=True)
    if r.returncode: print("clang is missing"); return 1
    for P in PROPS.values():
        for s in P.get("specs", []): importlib.import_module(s[0] if isinstance(s, tuple) else s)
    for d in ("build", "evidence"): os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    print("ready: %s, z3 %s" % (r.stdout.splitlines()[0], engine.z3.get_version())); return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("LVC_JOBS", "8")))
    ap.add_argument("--units"); ap.add_argument("--nodriver", action="store_true"); ap.add_argument("-v", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest: return selftest()
    pid, tier = a.property, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    stds = P.get("stds", ["c++17"]) if tier == "quick" else P.get("thorough_stds", ["c++11", "c++14", "c++17", "c++20"])
    drivers = [] if a.nodriver else [Driver(s, d, seed, 1 if tier == "quick" else 12, 300 if tier == "quick" else 2400) for s, d in P.get("drivers", [])]
    for d in drivers: d.start()
    jobs, errs = [], []
    for spec in P.get("specs", []):
        sel, defs = None, ()
        if isinstance(spec, tuple): spec, sel, defs = (spec + (None, ()))[:3] if len(spec) == 1 else (spec + ((),))[:3]
        defs = tuple(defs)
        m = importlib.import_module(spec)
        for std in stds:
            try:
                mod = speclib.load_module(m.SRC, std, tuple(getattr(m, "DEFS", ())) + defs)
                names = list(m.units(mod))
                if sel: names = [n for n in names if (sel(n) if callable(sel) else n in sel)]
                if a.units: names = [n for n in names if n in a.units.split(",")]
                slow = getattr(m, "SLOW", [])
                names.sort(key=lambda n: slow.index(n) if n in slow else 99)
                jobs += [(spec, std, n, defs) for n in names]
            except speclib.CompileError as e: errs.append("compile error in %s (%s):\n%s" % (m.SRC, std, e))
            except engine.ToolLimit as e: errs.append("limit: %s (%s): %s" % (m.SRC, std, e))
    res = pool(jobs, UNIT_DEADLINE[tier], TOTAL[tier], a.jobs)
    for d in drivers: d.join()
    # ---------------------------------------------------------------- verdict
    known = known_findings(pid)
    failed, undecided, kf = [], [], []
    for r in res:
        fs = []
        for f in r["fails"]:
            sig = "%s|%s|%s" % (f["kind"], f["where"], f["msg"])
            hit = [k for k in known if k[0] == r["name"] and k[1].search(sig)]
            if hit: kf.append(hit[0][2])
            else: fs.append(f)
        r["fails"] = fs
        if fs: failed.append(r)
        elif r["err"]: undecided.append(r)
    for k in sorted(set(kf)): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    dfail = [d for d in drivers if d.status in ("fail",)]
    obligations = sum(r["obl"] for r in res); discharged = sum(r.get("discharged", 0) for r in res)
    funcs = sorted(set(f for r in res for f in r.get("functions", []) if "efp::" in f))
    wall = time.time() - t0
    violation = bool(failed or dfail)
    trusted = sorted(set(t for r in res for t in r.get("trusted", []) or []))
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd="python3-vt /verif/lvc/check.py %s --tier %s" % (pid, tier),
        trusted_base=["clang 18 front end (C++ to LLVM IR at -O0)", "lvc verification-condition generator (/verif/lvc)", "z3 %s" % ".".join(map(str, engine.z3.get_version()))] + trusted,
        units=[dict(unit="%s/%s/%s" % (r["spec"], r["std"], r["name"]), status="failed" if r["fails"] else "undecided" if r["err"] else "proved",
                    obligations=r["obl"], discharged=r.get("discharged", 0), cases=r.get("cases"), paths=r.get("paths"), kinds=r["kinds"], loops=len(r.get("loops") or []), loop_invariants=sum(l[3] for l in r.get("loops") or []),
                    wall_s=round(r["t"], 2), solver_s=round(r.get("solver_s", 0), 2), error=r["err"], bounded=r.get("bounded")) for r in res],
        functions_under_contract=funcs[:600], functions_count=len(funcs), backend="z3 (SMT), %d queries" % sum(r.get("queries", 0) for r in res),
        solver_time_s=round(sum(r.get("solver_s", 0) for r in res), 2),
        bounded_stand_in=[dict(driver=d.src + " " + " ".join(d.defs), status=d.status, cases=d.cases, wall_s=round(d.t, 1), note="bounded; never counted as proved") for d in drivers],
        undecided_units=["%s: %s" % (r["name"], r["err"]) for r in undecided] + errs)
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get("level", "proof"), coverage=cov, assumptions=trusted + P.get("assumptions", []), wall_s=round(wall, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if a.v or tier == "thorough":
        for r in sorted(res, key=lambda r: -r["t"]): print("%-12s %-6s %-24s %-9s obl=%-5d fail=%-3d t=%.1f %s" % (r["spec"], r["std"], r["name"], "FAILED" if r["fails"] else "undecided" if r["err"] else "proved", r["obl"], len(r["fails"]), r["t"], (r["err"] or "")[:200]))
        for r in res:
            if r.get("tb") and a.v: print(r["tb"])
        for d in drivers: print("driver %s %s %s cases=%d t=%.1f" % (d.src, d.defs, d.status, d.cases, d.t))
    for r in failed:
        for f in r["fails"][:4]: print("failed obligation: unit=%s kind=%s: %s [in %s]" % (r["name"], f["kind"], f["msg"], f["where"][:200]))
    for r in undecided: print("undecided (bounded driver stands in): unit=%s %s" % (r["name"], r["err"][:300]))
    for e in errs: print("undecided: %s" % e[:1500])
    for d in drivers:
        if d.status in ("compile", "error", "timeout"): print("driver %s: %s %s" % (d.src, d.status, d.out[-1500:]))
    if violation:
        rp = os.path.join(VERIF, "evidence", "replay-%s.txt" % pid)
        with open(rp, "w") as f:
            f.write("property %s\n" % pid)
            for r in failed:
                for x in r["fails"]: f.write("failed obligation: unit=%s/%s kind=%s\n  %s\n  in %s\n  at %s\n  goal %s\n" % (r["spec"], r["name"], x["kind"], x["msg"], x["where"], x["text"], x["goal"]))
            for d in drivers:
                f.write("\nnative replay: %s %s seed=%d status=%s\ncommand: %s\n%s\n" % (d.src, " ".join(d.defs), seed, d.status, " ".join(getattr(d, "cmd", [])), d.out if d.status != "ok" else "no failing input found in %d cases" % d.cases))
        for d in dfail:
            m = re.search(r"FAIL .*\nHISTORY .*", d.out)
            print("failing input (%s): %s" % (d.src, (m.group(0) if m else d.out[-800:])[:1500]))
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if dfail else " no-failing-input-found"))
        return 1
    if errs and any(e.startswith("compile") for e in errs) and not any(d.status == "ok" for d in drivers): return 2
    if undecided and drivers and not all(d.status in ("ok", "unavailable") for d in drivers): return 2
    print("OK property=%s obligations=%d discharged=%d units=%d undecided=%d functions=%d wall=%.1fs" % (pid, obligations, discharged, len(res), len(undecided), len(funcs), wall))
    return 0

if __name__ == "__main__":
    import multiprocessing.connection
    sys.exit(main())
