"""A unit: one function of /repo, its contract, and how to judge it."""
import json
import os
import time
import traceback
import z3
from . import ir, theory, pari, libc, solve, templates
from .ir import Unsupported
from .vcg import Ctx, State, Ptr, And, Or, Not, Implies, bv, Forall, simp, is_true, is_false

TRUE = z3.BoolVal(True)
# invariants found by earlier runs: tried first; every obligation is discharged anew, and when they do not suffice the
# full candidate set is used
HINTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "hints.json")


class Unit:
    def __init__(self, func, prop, pre, post, templates=(), opts=None, contracts=None, name=None, doc="", nogeneric=False,
                 timeout=20000, inv_timeout=4000, unroll=None, setup=None):
        self.func, self.prop, self.pre, self.post = func, prop, pre, post
        self.templates = list(templates)
        self.opts = opts or {}
        self.contracts = contracts or {}
        self.name = name or func
        self.doc = doc
        self.nogeneric = nogeneric
        self.timeout, self.inv_timeout = timeout, inv_timeout
        self.unroll = unroll
        self.setup = setup


class Result:
    def __init__(self, u):
        self.unit = u
        self.status = None       # proved / refuted / undecided / unsupported
        self.obls = []
        self.failed = []
        self.detail = ""
        self.wall = 0.0
        self.solver = 0.0
        self.vacuity = None
        self.models = {}
        self.bounded = None


def load_hints():
    try:
        return json.load(open(HINTS))
    except (OSError, ValueError):
        return {}


META = os.path.join(os.path.dirname(HINTS), "meta.json")


def load_meta():
    """per unit, on the tree the contracts were written for: seconds, and whether two unrollings of the loops are proved"""
    try:
        return json.load(open(META))
    except (OSError, ValueError):
        return {}


def build(mod, u, unroll=None, hints=None, relaxed=False):
    k = dict(theory.CONTRACTS)
    k.update(u.contracts)
    # a unit never uses its own contract
    k.pop(u.func, None)
    opts = dict(u.opts)
    if unroll is not None:
        opts["unroll"] = unroll
    if hints is not None:
        opts["hints"] = frozenset(hints)
        opts["relaxed"] = relaxed
    cx = Ctx(mod, k, opts)
    cx.lemmas = theory.lemmas
    cx.hooks["load"] = pari.load_hook
    cx.hooks["rem"] = theory.rem_hook
    cx.templates = ([] if u.nogeneric else list(templates.GENERIC)) + list(u.templates)
    cx.unit = u
    cx.u = {}
    if u.setup:
        u.setup(cx)
    if u.func not in mod.funcs:
        raise Unsupported("function %s not found" % u.func)
    f = mod.funcs[u.func]
    st = State(TRUE, {}, cx.entry_next, {})
    args = u.pre(cx, st)
    if len(args) != len(f.params):
        raise Unsupported("signature of %s changed" % u.func)
    st0 = st.copy()
    cx.st0 = st0
    rv, st1 = cx.exec_func(f, args, st)
    cx.st1 = st1
    cx.curpc = st1.pc
    n0 = len(cx.obls)
    for name, goal in u.post(cx, st0, st1, args, rv):
        cx.oblige(st1, goal, "post:" + name, "post")
    cx.npost = len(cx.obls) - n0
    return cx


def run(mod, u, verbose=False, models=True, hints=True):
    """development entry: recorded invariants first, then the full candidate set"""
    if hints:
        h = load_hints().get(u.prop + ":" + u.name)
        if h is not None:
            r = run1(mod, u, verbose, False, h)
            if r.status == "proved" or not getattr(r, "loops", True):
                return r if r.status == "proved" else run1(mod, u, verbose, models)
            t = r.wall
            r = run1(mod, u, verbose, models)
            r.wall += t
            return r
    return run1(mod, u, verbose, models)


def run1(mod, u, verbose=False, models=True, hints=None, relaxed=False, unroll=None):
    r = Result(u)
    t0 = time.time()
    try:
        cx = build(mod, u, hints=hints, relaxed=relaxed, unroll=unroll)
    except Unsupported as e:
        r.status, r.detail = "unsupported", str(e)
        r.wall = time.time() - t0
        return r
    except Exception as e:    # engine failure on unexpected code shapes is 'undecided', never an error exit
        r.status, r.detail = "unsupported", "engine: %r\n%s" % (e, traceback.format_exc()[-1500:])
        r.wall = time.time() - t0
        return r
    r.gen = time.time() - t0
    tot = solve.discharge(cx, u.inv_timeout, u.timeout, verbose)
    r.cx = cx
    r.loops = bool(cx.loopinfos)
    r.solver = tot["solver"]
    r.rounds = tot["rounds"]
    alive = [o for o in cx.obls if o.kind != "inv" or o.cand.alive]
    r.obls = alive
    r.failed = [o for o in alive if o.status != "unsat"]
    r.used = sorted(cx.used_contracts)
    r.inlined = sorted(cx.inlined)
    r.wall = time.time() - t0
    if cx.npost == 0:
        r.status, r.detail = "undecided", "no postcondition obligations generated"
        return r
    if not r.failed:
        r.vacuity = solve.reachable(cx, cx.st1)
        if r.vacuity == "unsat":
            r.status, r.detail = "undecided", "vacuous: the exit is unreachable under the assumptions"
        else:
            r.status = "proved"
    else:
        loops = bool(cx.loopinfos)
        uns = [o for o in r.failed if o.kind in ("unsupported", "frame")]
        if uns:
            r.status = "unsupported"
            r.detail = "; ".join(o.name for o in uns)
        elif any(o.status == "sat" for o in r.failed):
            r.status = "refuted-loops" if loops else "refuted"
            r.detail = "; ".join(o.name for o in r.failed)
        else:
            r.status = "undecided"
            r.detail = "; ".join(o.name for o in r.failed)
        if models:
            for o in r.failed[:3]:
                m = solve.model_for(cx, o)
                if m is not None:
                    r.models[o.name] = m
    r.wall = time.time() - t0
    return r


# ---------------------------------------------------------------- common pre-state builders
def obj(cx, st, name, size=None):
    return Ptr(cx.alloc(st, (bv(size) if isinstance(size, int) else size), name=name))


def curve_pre(cx, st, fields=("seed", "field", "a", "b", "curve", "order", "generators")):
    """(curve_t *curve, arg_t *args, offset_e state) with all pointers valid"""
    curve = obj(cx, st, "curve")
    for f in fields:
        p = cx.getf(st, curve, "curve_t", f)
        cx.u["curve." + f] = p
    args = obj(cx, st, "args")
    aa = obj(cx, st, "argsargs")
    cx.setf(st, args, "arg_t", "args", aa)
    cx.u["curve"], cx.u["args"], cx.u["argsargs"] = curve, args, aa
    state = z3.BitVec("state", 32)
    return [curve, args, state]
