"""Discharging obligations: z3 (primary), cvc5 (second back end), Houdini over loop-invariant candidates."""
import multiprocessing as mp
import os
import subprocess
import tempfile
import time
import z3
from .vcg import And, Or, Not, Implies, is_true, is_false, simp

NPROC = min(8, os.cpu_count() or 1)
CX = None


def trig_terms(cx, obl):
    t = {}
    for k, ts in cx.triggers.items():
        t.setdefault(k, []).extend(ts)
    for k, x in obl.triggers:
        t.setdefault(k, []).append(x)
        if x.sort() == z3.BitVecSort(64):
            more = [simp(d(x)) for d in cx.u.get("derived", ())]
            t[k] += more
            for d in cx.opts.get("derived", ()):
                for y in [x] + more:
                    t[k].append(simp(d(y)))
    return t


def instances(cx, obl):
    out = []
    tt = trig_terms(cx, obl)
    phis = list(tt.get("phi", []))
    phi_all = phis + [simp(p + 1) for p in phis] + [simp(p - 1) for p in phis]
    for q in cx.qfacts[:obl.nq]:
        if q.nf > obl.nf:
            continue
        terms = list(tt.get(q.key, []))
        if q.key is None or not str(q.key).startswith("="):
            terms += [p for p in phi_all if p.sort() == q.sort]
        if q.key is not None:
            terms += [x for x in tt.get(None, []) if x.sort() == q.sort]
        seen = []
        for x in terms:
            if x.sort() != q.sort or any(x.eq(y) for y in seen):
                continue
            seen.append(x)
            b = q.body(x)
            if isinstance(b, (list, tuple)):
                b = And(*b)
            out.append(Implies(q.guard, b))
    return out


def symbols(e, cache={}):
    i = e.get_id()
    if i in cache:
        return cache[i][1]
    seen, st, out = set(), [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    cache[i] = (e, out)
    return out


def known_pcs(cx, pc):
    """path conditions decided by pc: on the path to it, or on a branch that excludes it"""
    imp, order = {}, {}
    for n, kind, par, sib in cx.pcs:
        i = n.get_id()
        order[i] = n
        if kind == "merge":
            ps = [imp.get(x.get_id(), frozenset([x.get_id()])) for x in par]
            imp[i] = frozenset.intersection(*ps) | {i}
        else:
            imp[i] = imp.get(par.get_id(), frozenset([par.get_id()])) | {i}
    t = imp.get(pc.get_id(), frozenset([pc.get_id()]))
    f = set()
    for n, kind, par, sib in cx.pcs:
        i = n.get_id()
        if i in t:
            continue
        if kind == "cond" and sib.get_id() in t or kind != "merge" and par.get_id() in f or kind == "merge" and all(x.get_id() in f for x in par):
            f.add(i)
    return [(order[i], z3.BoolVal(True)) for i in t if i in order] + [(order[i], z3.BoolVal(False)) for i in f]


def build(cx, obl, dead=()):
    fs = list(cx.gfacts) + cx.facts[:obl.nf] + instances(cx, obl)
    sub = known_pcs(cx, obl.pc)
    if sub and not cx.opts.get("nosub"):
        ks = [(n if is_true(v) else z3.Not(n)) for n, v in sub]
        fs = [x for x in (simp_bool(z3.substitute(f, sub)) for f in fs) if not is_true(x)]
        # obl.pc and the goal still speak of the constants
        fs += ks
    if cx.lemmas is not None:
        fs += cx.lemmas(cx, fs, obl)
    return fs


def simp_bool(f):
    """drop decided guards (top level only: cheap)"""
    if z3.is_implies(f):
        a, b = f.arg(0), f.arg(1)
        a = simp_bool(a)
        if is_true(a):
            return simp_bool(b)
        if is_false(a):
            return z3.BoolVal(True)
        return z3.Implies(a, b)
    if z3.is_and(f):
        xs = [simp_bool(x) for x in f.children()]
        return And(*xs)
    if z3.is_or(f):
        return Or(*[simp_bool(x) for x in f.children()])
    if z3.is_eq(f) and z3.is_bool(f.arg(0)):
        a, b = simp_bool(f.arg(0)), simp_bool(f.arg(1))
        if is_true(a):
            return b
        if is_true(b):
            return a
        if is_false(a):
            return Not(b)
        if is_false(b):
            return Not(a)
        return a == b
    return f


def check_one(cx, obl, alive, timeout=10000, want_model=False):
    """returns (status, dep acts or None, info)"""
    goal = simp(obl.goal)
    pc = obl.pc
    if is_true(goal) or is_false(pc):
        return "unsat", [], "simplifier"
    fs = build(cx, obl)
    s = z3.Solver()
    s.set("timeout", timeout)
    if cx.opts.get("quant", True):
        s.set("smt.mbqi", False)
    for f in fs:
        s.add(f)
    s.add(pc)
    s.add(z3.Not(goal))
    acts = [c.act for c in cx.cands if c.alive and c.name in alive]
    deadacts = [z3.Not(c.act) for c in cx.cands if not (c.alive and c.name in alive)]
    for a in deadacts:
        s.add(a)
    r = s.check(*acts)
    info = "z3"
    dep = None
    if r == z3.unsat:
        dep = [str(a) for a in s.unsat_core()]
    if r == z3.unknown:
        info = "z3-unknown:" + s.reason_unknown()
        if "incomplete" not in info and not cx.opts.get("nopre"):
            # the same query without assumption literals: the solver preprocesses it
            s2 = z3.SolverFor("ALL")
            s2.set("timeout", timeout)
            for f in fs:
                s2.add(f)
            s2.add(pc, z3.Not(goal))
            s2.add(*acts)
            s2.add(*deadacts)
            if s2.check() == z3.unsat:
                return "unsat", [str(a) for a in acts], "z3-pre"
    if r == z3.sat and want_model:
        return "sat", None, s.model()
    return str(r), dep, info


def check_cvc5(cx, obl, alive, timeout):
    fs = build(cx, obl)
    s = z3.Solver()
    for f in fs:
        s.add(f)
    s.add(obl.pc)
    s.add(z3.Not(simp(obl.goal)))
    for c in cx.cands:
        s.add(c.act if (c.alive and c.name in alive) else z3.Not(c.act))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, name], capture_output=True, text=True,
                           timeout=timeout / 1000 + 10)
        out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else ""
    except subprocess.TimeoutExpired:
        out = ""
    finally:
        os.unlink(name)
    return out if out in ("sat", "unsat") else "unknown"


def _work(a):
    i, alive, timeout, final = a
    t0 = time.time()
    o = CX.obls[i]
    try:
        # recorded invariants hold on the tree they were recorded on: only the machine's load can make them slow
        rec = CX.opts.get("hints") and not CX.opts.get("relaxed")
        st, dep, info = check_one(CX, o, alive, max(timeout, 45000) if rec else timeout)
        if not final and not rec and st == "unknown" and ("all-" in o.name or "keep-" in o.name):
            st, dep, info = check_one(CX, o, alive, timeout * 5)
        if not final and rec and st == "unknown" and "incomplete" not in info:
            c = check_cvc5(CX, o, alive, timeout * 8)
            if c == "unsat":
                st, info, dep = c, "cvc5", [str(c_.act) for c_ in CX.cands if c_.alive and c_.name in alive]
        if final and st == "unknown":
            c = check_cvc5(CX, o, alive, timeout)
            if c != "unknown":
                st, info, dep = c, "cvc5", None
            else:
                st, dep, info = check_one(CX, o, alive, timeout * 4)
    except z3.Z3Exception as e:
        st, dep, info = "unknown", None, "z3 exception %s" % e
    return i, st, dep, info, time.time() - t0


def run_pool(tasks):
    if not tasks:
        return []
    if len(tasks) == 1 or NPROC == 1:
        return [_work(t) for t in tasks]
    with mp.get_context("fork").Pool(min(NPROC, len(tasks))) as p:
        return p.map(_work, tasks, chunksize=max(1, min(8, len(tasks) // (NPROC * 2) or 1)))


def discharge(cx, inv_timeout=4000, timeout=20000, verbose=False):
    """Houdini, then all remaining obligations.  Sets obl.status/info/time; returns dict of totals."""
    global CX
    CX = cx
    if not hasattr(cx, "lemmas"):
        cx.lemmas = None
    t0 = time.time()
    total = 0.0
    rounds = 0
    known = {}
    inv = [i for i, o in enumerate(cx.obls) if o.kind == "inv"]
    while True:
        rounds += 1
        alive = frozenset(c.name for c in cx.cands if c.alive)
        dead = set(str(c.act) for c in cx.cands if not c.alive)
        tasks = [(i, alive, inv_timeout, False) for i in inv if cx.obls[i].cand.alive and not (
            i in known and not (known[i] & dead))]
        res = run_pool(tasks)
        drop = set()
        for i, st, dep, info, t in res:
            if st == "unsat" and dep is not None:
                known[i] = set(dep)
            else:
                known.pop(i, None)
            total += t
            o = cx.obls[i]
            o.status, o.info, o.time, o.dep = st, info, t, dep
            if st != "unsat" and o.cand.alive:
                drop.add(o.cand.name)
                if verbose:
                    print("  drop %s (%s %s %.1fs)" % (o.name, st, info, t))
        if not drop:
            break
        for c in cx.cands:
            if c.name in drop:
                c.alive = False
    alive = frozenset(c.name for c in cx.cands if c.alive)
    rest = [i for i, o in enumerate(cx.obls) if o.kind != "inv"]
    res = run_pool([(i, alive, timeout, True) for i in rest])
    for i, st, dep, info, t in res:
        total += t
        o = cx.obls[i]
        o.status, o.info, o.time, o.dep = st, info, t, dep
    cx.alive = alive
    return dict(wall=time.time() - t0, solver=total, rounds=rounds)


def model_for(cx, obl, timeout=10000):
    st, _, m = check_one(cx, obl, cx.alive, timeout, want_model=True)
    return m if st == "sat" else None


def reachable(cx, st, timeout=int(__import__("os").environ.get("VACT", 8000))):
    """vacuity check: is the state reachable under all facts?  returns sat/unsat/unknown"""
    s = z3.Solver()
    s.set("timeout", timeout)
    for f in list(cx.gfacts) + cx.facts:
        s.add(f)
    s.add(st.pc)
    for c in cx.cands:
        s.add(c.act if c.alive else z3.Not(c.act))
    return str(s.check())


def needed(cx):
    """hint names of the invariants the proof actually uses (closure over the unsat cores)"""
    byact = {str(c.act): c for c in cx.cands if c.alive}
    need = set()
    work = []

    def use(o):
        for a in (o.dep if o.dep is not None else list(byact)):
            if a in byact and a not in need:
                need.add(a)
                work.append(byact[a])
    for o in cx.obls:
        if o.kind != "inv":
            use(o)
    while work:
        c = work.pop()
        for o in cx.obls:
            if o.kind == "inv" and o.cand is c:
                use(o)
    return sorted(set(byact[a].hint for a in need))
