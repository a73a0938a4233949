"""check <property>: decides one property on /repo's current tree.

1. every unit (function of /repo against its contract) is proved again from the current source: verification conditions
   from LLVM IR, z3 / cvc5.
2. ground obligations (complete evaluation over finite tables of the current source).
3. bounded stand-ins and validation of the assumed contracts: the real program is executed (labelled bounded).
A failed obligation is replayed against the real code by 3.; see DESIGN.md for the triage.
"""
import importlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from ecv import front, native  # noqa: E402

PAR = 3   # units proved at the same time (each with its own pool of solver processes)


class Brief:
    """picklable summary of a unit run"""

    def __init__(self, u, r, mode):
        self.name, self.func = u.name, u.func
        self.mode = mode
        self.status = r.status
        self.detail = r.detail
        self.nobl = len(r.obls)
        self.ok = sum(1 for o in r.obls if o.status == "unsat")
        self.posts = sum(1 for o in r.obls if o.kind == "post")
        self.backends = {}
        for o in r.obls:
            b = str(getattr(o, "info", "z3")).split(":")[0]
            self.backends[b] = self.backends.get(b, 0) + 1
        self.failed = [(o.name, o.status, list(o.line) if o.line else None) for o in r.failed[:12]]
        self.models = {k: str(m)[:4000] for k, m in list(r.models.items())[:2]}
        self.solver, self.wall = r.solver, r.wall
        self.used = getattr(r, "used", [])
        self.inlined = getattr(r, "inlined", [])
        self.vacuity = r.vacuity
        self.loops = getattr(r, "loops", True)
        self.bounded = bool(getattr(getattr(r, "cx", None), "bounded_cut", False))


def in_children(jobs, limit=PAR, tick=None):
    """runs jobs [(key, fn, timeout function)] in process groups of their own, `limit` at a time;
    yields (key, result); None when one does not end in time"""
    jobs = list(jobs)
    run = {}
    while jobs or run:
        while jobs and len(run) < limit:
            key, fn, tmo = jobs.pop(0)
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    os.close(rd)
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    try:
                        res = fn()
                    except BaseException:
                        res = "ERR " + traceback.format_exc()[-1500:]
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump(res, f)
                finally:
                    os._exit(0)
            try:
                os.setpgid(pid, pid)
            except OSError:
                pass
            os.close(wr)
            run[rd] = [key, pid, time.time() + tmo(), b""]
        left = max(0.0, min(x[2] for x in run.values()) - time.time())
        r, _, _ = select.select(list(run), [], [], left)
        done = []
        for rd in r:
            c = os.read(rd, 1 << 20)
            if c:
                run[rd][3] += c
            else:
                done.append(rd)
        done += [rd for rd, x in run.items() if rd not in done and x[2] <= time.time()]
        for rd in done:
            key, pid, _, buf = run.pop(rd)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(rd)
            try:
                res = pickle.loads(buf)
            except Exception:
                res = None
            yield key, res


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.total = 600 if tier == "quick" else 3000
        self.out = []
        self.briefs = []
        self.ground = []
        self.bounded = []
        self.log = []
        from ecv import unit
        self.hints = unit.load_hints()   # units proved on the tree the contracts were written for

    def left(self):
        return self.total - (time.time() - self.t0)

    def job(self, mod, u, mode, timeout):
        from ecv import unit
        h = self.hints.get(u.prop + ":" + u.name)

        def go():
            if mode == "hints":
                r = unit.run1(mod, u, False, True, h)
            elif mode == "relaxed":
                r = unit.run1(mod, u, False, True, h, relaxed=True)
            elif mode == "full":
                r = unit.run1(mod, u, False, True)
            else:
                r = unit.run1(mod, u, False, True, unroll=int(mode[6:]))
            return Brief(u, r, mode)
        return (u, mode), go, timeout

    def prove(self, jobs):
        """yields (unit, mode, Brief or None)"""
        for (u, mode), b in in_children(jobs):
            if isinstance(b, str):
                self.log.append("%s (%s): %s" % (u.name, mode, b))
                b = None
            yield u, mode, b

    def run(self):
        from ecv import props
        P = props.PROPS[self.pid]
        try:
            mod = front.module()
        except front.BuildError as e:
            print("the current tree does not compile: %s" % e)
            return 2
        except Exception as e:
            # code shape the front end does not know: nothing can be proved, the bounded stand-in decides
            mod = None
            self.log.append("front end: %r" % e)
        suspects, hard = [], []
        units = []
        for mname in P.get("units", []):
            units += [u for u in importlib.import_module("ecv.units." + mname).UNITS if u.prop == self.pid]
        if mod is not None:
            from ecv import unit
            hints = self.hints
            meta = unit.load_meta()
            order = sorted(units, key=lambda u: -meta.get(u.prop + ":" + u.name, {}).get("t", 30))
            jobs = [self.job(mod, u, "hints" if u.prop + ":" + u.name in hints else "full", lambda: min(240, max(20, self.left()))) for u in order]
            got = {}
            for u, mode, b in self.prove(jobs):
                got[id(u)] = (mode, b)
            for u in units:
                mode, b = got[id(u)]
                self.briefs.append(b if b is not None else (u, mode))
                if b is None or b.status != "proved":
                    suspects.append((len(self.briefs) - 1, u, b))
            for g in P.get("ground", []):
                try:
                    self.ground += list(g(mod, self))
                except Exception as e:
                    self.log.append("ground obligations %s: %r" % (getattr(g, "__name__", g), e))
        # bounded stand-ins / replay
        nat = native.Native(self.seed, self.tier)
        nat.suspects = [u.func for _, u, _ in suspects]
        try:
            self.harness(P, nat)
            gfail = [(k, t) for k, ok, t in self.ground if not ok]
            fails = [(k, t) for k, t in nat.fails]
            if not fails and not gfail and suspects:
                self.retry(mod, suspects)
                hard = [self.briefs[i] for i, u, b in suspects if u.prop + ":" + u.name in self.hints and self.is_hard(self.briefs[i])]
                if hard and P.get("harness") and self.left() > 60:
                    # search harder for a failing input before reporting
                    n2 = native.Native(self.seed + 1000, "thorough")
                    n2.dir, n2.built = nat.dir, nat.built
                    n2.suspects = [b.func for b in hard]
                    self.harness(P, n2, again=True)
                    fails = n2.fails
        finally:
            nat.close()
        known, fresh = self.split(fails + gfail)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        rc = 0
        if fresh:
            p = self.replay(dict(kind="failing input on the real code", failures=fresh[:20], failed_obligations=self.failed_obls()))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            rc = 1
        elif hard:
            p = self.replay(dict(kind="failed proof obligation, no failing input found", failed_obligations=self.failed_obls(hard)))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (self.pid, p))
            rc = 1
        self.evidence(P, rc, nat, len(fresh) + len(hard))
        return rc

    def is_hard(self, b):
        """a failed obligation that cannot be an artefact of missing loop invariants or of unsupported code"""
        return isinstance(b, Brief) and (b.status == "refuted" or (b.status == "refuted-loops" and b.mode.startswith("unroll")))

    def retry(self, mod, suspects):
        """code whose proof did not go through as recorded: more candidates, then bounded unrolling"""
        from ecv import unit
        meta = unit.load_meta()
        todo = []
        for i, u, b in suspects:
            k = u.prop + ":" + u.name
            if k not in self.hints:
                continue   # never proved: only the bounded stand-in speaks for it
            if b is not None and (b.status == "unsupported" or b.status == "refuted"):
                continue
            if b is not None and not b.loops:
                continue
            todo.append((i, u, b))
        for mode, lim in (("relaxed", 150), ("full", 240), ("unroll2", 90)):
            # an unrolling that does not prove the tree the contracts were written for cannot refute anything either
            jobs = [(i, u, self.job(mod, u, mode, lambda lim=lim: max(1, min(lim, self.left() - 60)))) for i, u, b in todo
                    if not (isinstance(self.briefs[i], Brief) and (self.briefs[i].status == "proved" or self.briefs[i].mode == mode))
                    and (mode != "unroll2" or meta.get(u.prop + ":" + u.name, {}).get("unroll2"))]
            if not jobs or self.left() < 90:
                continue
            idx = {id(u): i for i, u, j in jobs}
            for u, m, c in self.prove([j for _, _, j in jobs]):
                i = idx[id(u)]
                if c is None:
                    continue
                if mode == "unroll2":
                    if c.status == "proved":
                        c.status = "bounded"    # no violation within the unrolling: bounded, not a proof
                        self.briefs[i] = c
                    elif c.status in ("refuted", "refuted-loops"):
                        c.status = "refuted-loops"
                        self.briefs[i] = c
                elif c.status == "proved" or not isinstance(self.briefs[i], Brief):
                    self.briefs[i] = c

    def harness(self, P, nat, again=False):
        nat.deadline = time.time() + max(30, min(200 if not again else 120, self.left() - 60))
        for h in P.get("harness", []):
            c0 = nat.cases
            t = time.time()
            name = h if isinstance(h, str) else h.__name__
            try:
                if isinstance(h, str) and ":" in h:
                    m, f = h.split(":")
                    getattr(importlib.import_module("ecv.harness." + m), f)(nat)
                elif isinstance(h, str):
                    nat.c_harness(h, timeout=max(20, min(120, int(nat.left()))))
                else:
                    h(nat)
            except front.BuildError as e:
                nat.notes.append("%s could not be built: %s" % (name, str(e)[-600:]))
            except Exception:
                nat.notes.append("%s: %s" % (name, traceback.format_exc()[-800:]))
            self.bounded.append(dict(stand_in=name, cases=nat.cases - c0, wall_s=round(time.time() - t, 1), notes=list(nat.notes)[-3:]))

    def failed_obls(self, bs=None):
        out = []
        for b in bs or self.briefs:
            if isinstance(b, Brief) and b.status not in ("proved", "bounded"):
                out.append(dict(function=b.func, unit=b.name, status=b.status, mode=b.mode, detail=b.detail[:1500],
                                obligations=[dict(obligation=n, verdict=s, at=l) for n, s, l in b.failed], counterexample=b.models))
        return out

    def split(self, fails):
        kf = {}
        p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("finding: property=%s " % self.pid):
                    rest = l.split(" ", 2)[2]
                    k, _, txt = rest.partition(" ")
                    kf[k[4:] if k.startswith("key=") else k] = txt
        known, fresh, seen = [], [], set()
        for k, t in fails:
            if k in kf:
                if k not in seen:
                    known.append("%s: %s" % (k, kf[k]))
                seen.add(k)
            else:
                fresh.append((k, t))
        return known, fresh

    def replay(self, d):
        d = dict(property=self.pid, seed=self.seed, tier=self.tier, **d)
        rd = os.path.join(ROOT, "evidence")
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, "replay_%s.json" % self.pid)
        json.dump(d, open(p, "w"), indent=1)
        for k, t in d.get("failures", [])[:5]:
            print("  %s: %s" % (k, t[:400]))
        for o in d.get("failed_obligations", [])[:5]:
            print("  obligation of %s (%s): %s" % (o["function"], o["status"], ", ".join(x["obligation"] for x in o["obligations"][:6])))
        return p

    def evidence(self, P, rc, nat, nviol):
        from ecv import theory
        bs = [b for b in self.briefs if isinstance(b, Brief)]
        none = [b for b in self.briefs if not isinstance(b, Brief)]
        pr = [b for b in bs if b.status == "proved"]
        obl = sum(b.nobl for b in bs) + len(self.ground)
        dis = sum(b.ok for b in pr) + sum(1 for _, ok, _ in self.ground if ok)
        used = sorted(set(x for b in pr for x in b.used))
        back = {}
        for b in pr:
            for k, n in b.backends.items():
                back[k] = back.get(k, 0) + n
        if self.ground:
            back["complete evaluation"] = len(self.ground)
        ass = []
        for n in used:
            c, t = theory.META.get(n, ("?", ""))
            ass.append("assumed contract of %s (%s): %s" % (n, c, t))
        ass += P.get("assumptions", [])
        cov = dict(
            obligations=obl, discharged=dis,
            checker_cmd="python3-vt %s/ecv/check.py %s" % (ROOT, self.pid),
            trusted_base=["clang-18 front end and mem2reg (LLVM IR of the current sources)", "ecv/vcg.py verification condition generator",
                          "z3, cvc5", "assumed contracts of external functions, listed under assumptions",
                          "ground lemmas of ecv/theory.py, ecv/pari.py"] + P.get("trusted", []),
            functions_under_contract=[dict(function=b.func, unit=b.name, status=b.status, obligations=b.nobl, discharged=b.ok, postconditions=b.posts,
                                           inlined=b.inlined, invariants_from=b.mode, exit_reachable=b.vacuity, solver_s=round(b.solver, 2)) for b in bs],
            not_proved=[dict(function=b.func, unit=b.name, status=b.status, detail=b.detail[:400]) for b in bs if b.status != "proved"]
            + [dict(function=u.func, unit=u.name, status="no answer", detail="mode " + m) for u, m in none],
            ground_obligations=len(self.ground),
            obligations_by_back_end=back,
            solver_s=round(sum(b.solver for b in bs), 1),
            bounded_stand_ins=self.bounded,
            evaluations=nat.cases,
            samples=[str(s)[:300] for s in nat.samples] or [b.name for b in bs[:4]] or ["-"],
            rule=P.get("bound", "bounded stand-ins: see DESIGN.md; counted apart from the proved obligations"),
        )
        if self.log:
            cov["log"] = self.log[-5:]
        if P.get("level", "proof") == "other":
            cov["explanation"] = P.get("explanation", "")
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=P.get("level", "proof"), coverage=cov, assumptions=ass,
                  wall_s=round(time.time() - self.t0, 1), violations=nviol)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1)
        print("%s: %d/%d units proved, %d/%d obligations, %d ground, %d bounded cases, %.0fs" % (
            self.pid, len(pr), len(self.briefs), dis, obl, len(self.ground), nat.cases, time.time() - self.t0))
        for b in bs:
            if b.status != "proved":
                print("  not proved: %s (%s) %s" % (b.name, b.status, b.detail[:200]))
        for u, m in none:
            print("  no answer: %s (%s)" % (u.name, m))
        for n in nat.notes:
            print("  note: %s" % n[:300])


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        rc = Check(pid, tier, seed).run()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
