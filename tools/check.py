#!/usr/bin/env python3
"""check.py PROPERTY — decide one property.

1. Builds go2why and translates /repo's current source under /verif/contracts.
2. Splits every function's verification condition with Why3 and discharges each goal with z3/cvc5.
3. Runs the replay harness: the property's executable oracle against the real code (seeded), which
   looks for a failing input. Its result never counts as proof.
4. Writes evidence/<id>.json and prints VIOLATION lines.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
import props

T0 = time.time()
Z3, Z3N, CVC5 = "z3", "z3-new", "cvc5"
DRV = {Z3: V + "/tools/drivers/z3_487.drv", Z3N: V + "/tools/drivers/z3_487.drv", CVC5: V + "/tools/drivers/cvc5.drv"}
NCPU = min(8, os.cpu_count() or 4)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def goenv(work):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="0", GOCACHE=work + "/gocache", GOTMPDIR=work + "/gotmp",
             HOME=os.environ.get("HOME", "/root"))
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin")
    os.makedirs(work + "/gotmp", exist_ok=True)
    if not os.path.isdir(work + "/gocache"):
        try:
            shutil.copytree("/opt/vp/cache/go-build", work + "/gocache")
        except Exception:
            os.makedirs(work + "/gocache", exist_ok=True)
    return e


def mine(unit, keys, f):
    """is function f proved as part of this unit (or taken from an included one)?"""
    if keys is None:
        return True
    if keys == "own":
        return f.get("spec") in ("", None, unit + ".spec")
    return f["key"] in keys or "own" in keys and f.get("spec") in ("", None, unit + ".spec")


class Goal:
    __slots__ = ("fn", "unit", "expl", "loc", "smt", "cvc", "status", "prover", "time", "log", "mod", "name", "key")


class Prover:
    """Translates units and discharges goals."""

    def __init__(self, work, tier, verbose=False):
        self.work, self.tier, self.verbose = work, tier, verbose
        self.env = goenv(work)
        self.goals, self.reports, self.errors = [], {}, []
        self.lock = threading.Lock()
        self.solver_time = 0.0
        self.smokes = []
        self.deadline = T0 + (780 if tier == "quick" else 3300)
        self.hints = {}
        hp = os.path.join(V, "contracts", "hints.json")
        if os.path.exists(hp):
            self.hints = json.load(open(hp))

    def build(self):
        r = sh(["go", "build", "-o", self.work + "/go2why", "."], cwd=V + "/tools/go2why", env=dict(self.env, GOFLAGS=""))
        if r.returncode:
            raise SystemExit("go2why does not build:\n" + r.stdout)
        os.makedirs(self.work + "/why3home", exist_ok=True)
        d = self.work + "/why3home/dummy.sh"
        open(d, "w").write("#!/bin/sh\necho unknown\n")
        os.chmod(d, 0o755)
        self.conf = self.work + "/why3home/why3.conf"
        open(self.conf, "w").write('[main]\nmagic = 14\nmemlimit = 1000\nrunning_provers_max = 4\ntimelimit = 5.0\n\n[partial_prover]\nname = "Z3"\npath = "%s"\nversion = "4.8.12"\n' % d)

    def translate(self, unit, only=None):
        out = "%s/u_%s" % (self.work, unit)
        cmd = [self.work + "/go2why", "-repo", REPO, "-spec", "%s/contracts/%s.spec" % (V, unit), "-prelude", V + "/contracts/prelude.mlw",
               "-baseline", V + "/contracts/baseline.json", "-out", out]
        if only:
            cmd += ["-func", ",".join(only)]
        r = sh(cmd, env=self.env, cwd=REPO)
        if r.returncode:
            self.errors.append((unit, "(unit)", r.stdout.strip()))
            return None
        rep = json.load(open(out + "/report.json"))
        self.reports[unit] = rep
        for f in rep["functions"]:
            if self.own.get(unit) and f.get("spec") not in ("", None, unit + ".spec"):
                continue  # its contract is proved in the unit it comes from
            if f.get("error") and f["error"] != "trusted":
                self.errors.append((unit, f["key"], "not translated: " + f["error"]))
            elif f.get("unused_ghosts"):
                self.errors.append((unit, f["key"], "contract annotations without a place in the source: " + ", ".join(f["unused_ghosts"])))
        return rep

    def split(self, unit, fn, mod, tag, mlw=None):
        """why3 split of one module -> list of Goal"""
        out = "%s/u_%s" % (self.work, unit)
        mlw = mlw or fn["mlw"]
        od = "%s/g_%s_%s" % (out, fn["name"], tag)
        os.makedirs(od + "/z3", exist_ok=True)
        os.makedirs(od + "/cvc", exist_ok=True)
        base = ["why3", "prove", "-C", self.conf]
        sel = ["-a", "split_vc", mlw, "-T", mod]
        ps = [subprocess.Popen(base + ["-D", DRV[Z3], "-o", od + "/z3"] + sel, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True),
              subprocess.Popen(base + ["-D", DRV[CVC5], "-o", od + "/cvc"] + sel, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True),
              subprocess.Popen(base + ["-P", "z3", "--json"] + sel, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)]
        outs = [p.communicate()[0] for p in ps]
        if ps[0].returncode not in (0,):
            with self.lock:
                self.errors.append((unit, fn["key"], "why3: " + "\n".join(l for l in outs[0].splitlines() if not l.startswith("Warning"))[:600]))
            return []
        goals, cnt, dec, pos = [], {}, json.JSONDecoder(), 0
        txt = outs[2]
        pre = os.path.splitext(os.path.basename(mlw))[0] + "-" + mod + "-"
        while True:
            i = txt.find("{", pos)
            if i < 0:
                break
            o, pos = dec.raw_decode(txt, i)
            t = o["term"]
            gn = t["goal_name"]
            k = cnt.get(gn, 0)
            cnt[gn] = k + 1
            fb = pre + gn.replace("'", "qt").replace(" ", "_") + (str(k) if k else "") + ".smt2"
            g = Goal()
            g.fn, g.unit, g.mod = fn["key"], unit, mod
            g.expl = "; ".join(t.get("explanations") or []) or gn
            g.loc = t.get("loc", {}).get("start-line", 0)
            g.smt, g.cvc = od + "/z3/" + fb, od + "/cvc/" + fb
            g.name = "%s: %s" % (fn["key"], g.expl)
            g.status = None
            g.prover, g.time, g.log = "", 0.0, ""
            g.key = "%s|%s|%s|%d" % (fn["key"], gn, g.expl, k)
            if not os.path.exists(g.smt):
                with self.lock:
                    self.errors.append((unit, fn["key"], "internal: missing goal file " + fb))
                continue
            goals.append(g)
        return goals

    def run_solver(self, g, prover, tl):
        if prover == CVC5:
            cmd = ["cvc5", "--tlimit=%d" % int(tl * 1000), g.cvc]
        elif prover == "cvc5e":
            cmd = ["cvc5", "--tlimit=%d" % int(tl * 1000), "--enum-inst", g.cvc]
        elif prover == Z3:
            cmd = ["z3", "-T:%d" % max(1, int(tl)), "-memory:3000", g.smt]
        elif prover == "z3ns":
            cmd = ["z3-new", "-T:%d" % max(1, int(tl)), "-memory:3000", "smt.mbqi=false", "smt.random_seed=7", g.smt]
        else:
            cmd = ["z3-new", "-T:%d" % max(1, int(tl)), "-memory:3000", g.smt]
        t = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tl + 5)
            o = r.stdout
        except subprocess.TimeoutExpired:
            o = "timeout"
        dt = time.time() - t
        with self.lock:
            self.solver_time += dt
        first = o.strip().split("\n")[0] if o.strip() else ""
        return first == "unsat", dt, first

    def prove(self, g):
        plan = [(Z3N, 3), (CVC5, 6), (Z3, 6), ("z3ns", 6), (Z3N, 30), (CVC5, 40), (Z3, 40), ("z3ns", 40), ("cvc5e", 40)]
        if os.environ.get("VERIF_SHORT"):
            plan = [(Z3N, 3), (CVC5, 5), (Z3, 5), ("z3ns", 5)]
        h = self.hints.get(g.key)
        if h:
            plan = [(h[0], max(10, 4 * h[1]))] + plan
            if h[1] > 5:
                plan.insert(1, (h[0], max(60, 8 * h[1])))
        if self.tier == "thorough":
            plan += [(Z3N, 150), (CVC5, 150)]
        for p, tl in plan:
            left = self.deadline - time.time()
            if left < 3:
                g.log += " out of time"
                break
            ok, dt, o = self.run_solver(g, p, min(tl, left))
            g.time += dt
            if ok:
                g.status, g.prover = True, p
                return g
            g.log += "%s(%.0fs): %s; " % (p, dt, o[:60])
        g.status = False
        if not os.environ.get("VERIF_SHORT"):
            # the verdict is settled; what remains only adds detail to the report
            self.deadline = min(self.deadline, time.time() + 120)
        return g

    def smoke(self, g):
        """a goal that must not be provable: false at a return of the function"""
        for p, tl in ((Z3N, 2),):
            ok, dt, o = self.run_solver(g, p, tl)
            if ok:
                return True
        return False

    def run(self, units, only=None):
        jobs = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            self.own = {u: k is not None and "own" in k for u, k in units}
            list(ex.map(lambda u: self.translate(u, None), [u for u, _ in units]))
            todo = []
            for u, keys in units:
                rep = self.reports.get(u)
                if not rep:
                    continue
                for f in rep["functions"]:
                    if f["key"] == "theory":
                        mods = ["Common"] + (rep["theories"] or [])
                        for m in mods:
                            todo.append((u, dict(f, key="theory " + u + "." + m, name="theory_" + m), m, "t"))
                        continue
                    if not mine(u, keys, f):
                        continue
                    if only and f["key"] not in only:
                        continue
                    if f.get("mlw"):
                        todo.append((u, f, f["module"], "v"))
                        todo.append((u, f, "S_" + f["name"], "s"))
            if only:
                todo = [x for x in todo if x[3] != "t" or "theory" in only or x[1]["key"] in only]
            res = list(ex.map(lambda a: (a, self.split(*a)), todo))
            goals, smokes = [], {}
            for (u, f, m, tag), gs in res:
                if tag == "s":
                    sg = [g for g in gs if "smoke" in g.expl]
                    smokes[(u, f["key"])] = sg
                else:
                    if not gs and tag == "v" and not any(e[1] == f["key"] for e in self.errors):
                        self.errors.append((u, f["key"], "no obligations were generated"))
                    goals += gs
            self.goals = goals
            order = sorted(goals, key=lambda g: -(self.hints.get(g.key, [0, 1])[1]))
            futs = [ex.submit(self.prove, g) for g in order]
            sf = {}
            for k, sg in smokes.items():
                sf[k] = [ex.submit(self.smoke, g) for g in sg[:12]]
            for f in futs:
                f.result()
            self.vacuous = []
            self.nsmoke = 0
            for k, fs in sf.items():
                rs = [f.result() for f in fs]
                self.nsmoke += len(rs)
                if rs and all(rs):
                    self.vacuous.append(k)
                    self.errors.append((k[0], k[1], "vacuous: every return of the function is contradictory under its contract"))


def harness(work, env, prop, h, seed, tier):
    """Runs one harness entry: {pkg, files, run}. Returns dict."""
    ov = {"Replace": {}}
    for dst, src in h["files"].items():
        src = os.path.join(V, "harness", src)
        if src.endswith(".txt"):  # shared source: give it the package's name
            t = open(src).read().replace("package PKG", "package " + (h.get("pkgname") or os.path.basename(h["pkg"])), 1)
            src = "%s/%s" % (work, re.sub(r"\W", "_", dst) + ".go")
            open(src, "w").write(t)
        ov["Replace"][os.path.join(REPO, dst)] = src
    of = "%s/ov_%s.json" % (work, re.sub(r"\W", "_", h["pkg"]))
    json.dump(ov, open(of, "w"))
    rd = work + "/replay"
    os.makedirs(rd, exist_ok=True)
    sc = work + "/scratch"
    os.makedirs(sc, exist_ok=True)
    budget = h.get("budget", 20) if tier == "quick" else h.get("tbudget", h.get("budget", 20) * 8)
    t = time.time()
    lim = budget * 2 + 200
    # one test binary, run by several processes with different seeds
    bn = "%s/bin_%s.test" % (work, re.sub(r"\W", "_", h["pkg"]))
    r = sh(["go", "test", "-c", "-o", bn, "-overlay", of, "-vet=off", "./" + h["pkg"]], cwd=REPO, env=env, timeout=400)
    if r.returncode or not os.path.exists(bn):
        out, rc = r.stdout + "\n[build failed]\n", r.returncode or 1
    else:
        def shard(i):
            d = "%s/s%d" % (sc, i)
            os.makedirs(d, exist_ok=True)
            e = dict(env, VERIF_SEED=str(seed + 1000003 * i), VERIF_TIER=tier, VERIF_BUDGET=str(budget), VERIF_REPLAY=rd, TMPDIR=d, VERIF_PROP=prop)
            try:
                r = sh([bn, "-test.run", h["run"], "-test.v", "-test.count=1", "-test.timeout=%ds" % lim], cwd=os.path.join(REPO, h["pkg"]), env=e, timeout=lim + 60)
                return r.stdout, r.returncode
            except subprocess.TimeoutExpired as x:
                return (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), 99
        with cf.ThreadPoolExecutor(8) as tp:
            rs = list(tp.map(shard, range(h.get("shards", 4))))
        bad = [x for x in rs if x[1]]
        out, rc = "\n".join(x[0][-40000:] for x in [x for x in rs if not x[1]] + bad), (bad[0][1] if bad else 0)
    stats = {}
    for m in re.finditer(r"^\s*(?:\S+:\d+: )?STAT (\S+) (\d+)$", out, re.M):
        stats[m.group(1)] = stats.get(m.group(1), 0) + int(m.group(2))
    fails = re.findall(r"FAILING-INPUT (.*)", out)
    return dict(pkg=h["pkg"], rc=rc, out=out, stats=stats, fails=fails, wall=round(time.time() - t, 1), budget=budget, note=h.get("note", ""))


def known():
    r = []
    p = os.path.join(V, "known-findings")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", l)
                if m:
                    r.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return r


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = props.PROPS[prop]
    only = None
    dev = "--dev" in args
    if "--func" in args:
        only = set(args[args.index("--func") + 1].split(","))
    work = tempfile.mkdtemp(prefix="verif_" + prop + "_")
    os.chmod(work, 0o755)
    try:
        rc = run(prop, P, tier, seed, only, dev, work, args)
    finally:
        if "--keep" in args:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, P, tier, seed, only, dev, work, args):
    pr = Prover(work, tier)
    units = P.get("units", [])
    hres = []
    pool = cf.ThreadPoolExecutor(2)
    pr.build() if units else None
    # the harness and the proofs share the cores; the harness runs first (it is short)
    if not only and "--noharness" not in args:
        for h in P.get("harness", []):
            hres.append(harness(work, pr.env, prop, h, seed, tier))
    kf0 = [k for k in known() if k[0] == prop]
    if any(not any(k[1].search(f) for k in kf0) for h in hres for f in h["fails"]):
        # already decided by a failing input; the proofs only add detail to the report
        pr.deadline = min(pr.deadline, time.time() + 60)
    if units and "--nopr" not in args:
        pr.run(units, only)
    failed = [g for g in pr.goals if not g.status]
    byp = {}
    for g in pr.goals:
        if g.status:
            byp[g.prover] = byp.get(g.prover, 0) + 1
    fns = {}
    for g in pr.goals:
        a = fns.setdefault(g.fn, [0, 0])
        a[0] += 1
        a[1] += bool(g.status)
    if dev or only:
        for g in failed:
            print("FAILED %-60s line %d  %s" % (g.name, g.loc, g.log))
            if "--keep" in args:
                print("      ", g.smt)
        for e in pr.errors:
            print("ERROR", *e)
        slow = sorted(pr.goals, key=lambda g: -g.time)[:8]
        for g in slow:
            if g.time > 3:
                print("slow %.1fs %s %s" % (g.time, g.prover, g.name))
        print("goals %d discharged %d in %.0fs" % (len(pr.goals), len(pr.goals) - len(failed), time.time() - T0), byp)
    if "--hints" in args:
        hp = os.path.join(V, "contracts", "hints.json")
        hs = json.load(open(hp)) if os.path.exists(hp) else {}
        if not only:
            us = {u for u, _ in units}
        for g in pr.goals:
            if g.status and (g.prover != Z3N or g.time > 2.5):
                hs[g.key] = [g.prover, round(g.time, 1)]
            elif g.status:
                hs.pop(g.key, None)
        json.dump(hs, open(hp, "w"), indent=0, sort_keys=True)
    # ---- verdict ----
    viol = []
    kf = [k for k in known() if k[0] == prop]
    rdir = os.path.join(V, "replay")
    os.makedirs(rdir, exist_ok=True)
    seen_known = {}
    hbad = []
    for h in hres:
        for i, f in enumerate(h["fails"]):
            k = next((k for k in kf if k[1].search(f)), None)
            if k:
                seen_known[k[2]] = f
                continue
            viol.append(("input", f))
        if h["rc"] != 0 and (not h["fails"] or "panic:" in h["out"] or "fatal error:" in h["out"]):
            hbad.append(h)
    confirmed = any(v[0] == "input" for v in viol)
    lines = []
    if viol:
        rp = os.path.join(rdir, "%s-input.txt" % prop)
        with open(rp, "w") as fh:
            fh.write("property %s: failing inputs on the real code (seed %d, tier %s)\n" % (prop, seed, tier))
            for v in viol:
                fh.write(v[1] + "\n")
            for h in hres:
                if h["fails"]:
                    fh.write("---- harness %s\n%s\n" % (h["pkg"], h["out"][-6000:]))
            for g in failed:
                fh.write("failed obligation: %s (%s)\n" % (g.name, g.log))
            for e in pr.errors:
                fh.write("undecided: %s\n" % (e,))
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
    if hbad and not confirmed:
        # the harness itself stopped: a crash of the code under test is a failing run
        rp = os.path.join(rdir, "%s-harness.txt" % prop)
        with open(rp, "w") as fh:
            for h in hbad:
                fh.write("harness %s ended with %d\n%s\n" % (h["pkg"], h["rc"], h["out"][-8000:]))
        crash = any(("panic:" in h["out"] or "fatal error:" in h["out"] or "FAIL" in h["out"]) for h in hbad)
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp) + ("" if crash and not any("[build failed]" in h["out"] for h in hbad) else " no-failing-input-found"))
    if (failed or pr.errors) and not confirmed and not lines:
        rp = os.path.join(rdir, "%s-obligations.txt" % prop)
        with open(rp, "w") as fh:
            fh.write("property %s: obligations not discharged on the current source\n" % prop)
            for g in failed:
                fh.write("obligation: %s\n  unit %s module %s line %d\n  solvers: %s\n" % (g.name, g.unit, g.mod, g.loc, g.log))
                try:
                    fh.write("  goal:\n" + open(g.smt).read()[-1500:] + "\n")
                except OSError:
                    pass
            for e in pr.errors:
                fh.write("unit %s function %s: %s\n" % e)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    for k, f in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    # ---- evidence ----
    if not only and "--nopr" not in args and "--noharness" not in args:
        trusted = list(P.get("assumptions", []))
        ext, inl, drp, tru = set(), set(), set(), set()
        for u, keys in units:
            rep = pr.reports.get(u) or {"functions": []}
            for f in rep["functions"]:
                if not mine(u, keys, f):
                    continue
                ext.update(f.get("externs") or [])
                inl.update(f.get("inlined") or [])
                drp.update(f.get("dropped") or [])
                if f.get("error") == "trusted":
                    tru.add(f["key"])
        base = ["Why3 1.6.0 VC generation and SMT-LIB printing; z3 4.8.12, z3 5.3.2, cvc5 1.1.2",
                "go2why (the translator of Go source into WhyML), go/types",
                "Go typing facts: integer variables stay in the range of their type (assumed at entry and loop heads)",
                "slice values are modelled as mathematical sequences; distinct slice variables do not share storage unless the contract says so",
                "lengths and capacities are at most 2^62"]
        cov = dict(obligations=len(pr.goals), discharged=len(pr.goals) - len(failed),
                   checker_cmd="go2why + why3 prove -a split_vc + portfolio z3-new/cvc5/z3 (tools/check.py %s)" % prop,
                   trusted_base=base + [("assumed: " if x.startswith("termination") else "contract assumed for external function: ") + x for x in sorted(ext)] + ["trusted contract: " + x for x in sorted(tru)],
                   by_solver=byp, solver_time_s=round(pr.solver_time, 1), functions_under_contract={k: {"obligations": a, "discharged": b} for k, (a, b) in sorted(fns.items())},
                   inlined_helpers=sorted(inl), dropped_fields=sorted(drp), vacuity_probes=getattr(pr, "nsmoke", 0),
                   undecided=[list(e) for e in pr.errors],
                   bounded_stand_in=[dict(pkg=h["pkg"], cases=h["stats"], wall_s=h["wall"], note=h["note"] or "seeded random and enumerated inputs against an executable oracle; bounded, not counted as proved") for h in hres],
                   bounded_functions=P.get("bounded", []))
        lvl = P.get("level", "proof")
        ev = dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov, wall_s=round(time.time() - T0, 1), assumptions=trusted + base,
                  violations=len(lines))
        if lvl == "exploration":
            n = sum(sum(h["stats"].values()) for h in hres)
            cov.update(evaluations=n, distinct_nontrivial=sum(h["stats"].get("distinct", 0) for h in hres), rule=P.get("rule", ""), samples=P.get("samples", []))
        if lvl == "other":
            cov["explanation"] = P.get("note", "")
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    for l in lines:
        print(l)
    if not lines:
        print("OK property=%s obligations=%d discharged=%d harness=%s wall=%.0fs" % (prop, len(pr.goals), len(pr.goals) - len(failed),
              {h["pkg"]: h["stats"] for h in hres}, time.time() - T0))
    return 1 if lines else 0


if __name__ == "__main__":
    main()
