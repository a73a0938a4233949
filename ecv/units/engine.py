"""C03: the staged generation engine.  The stages, validators and undo functions are opaque: a ghost monitor records which of
them was called with what result, every call is an obligation, and the result of the engine is judged against the monitor."""
import z3
from ..theory import *
from ..theory import F
from ..pari import *
from .. import templates
from ..unit import Unit, obj, TRUE
from ..vcg import fresh_name, Ptr, And, Or, Not, Implies, bv, Forall, simp, peq, Ite, isnull, notnull

I32, I64 = ir.I(32), ir.I(64)
B32 = z3.BitVecSort(32)
N = 9                                    # OFFSET_END
INT_MIN = bv(-(1 << 31), 32)
fkind = F("fn_kind", INT, BV64)          # 1 generator, 2 undo, 3 validator
fstage = F("fn_stage", INT, B32)
fnum = F("fn_number", INT, BV64)


def b(x):
    return bv(x, 32)


def smax(x, y):
    return z3.If(x < y, y, x)


def at(a, i):
    """row of a small table at index i (nested conditionals over the stages)"""
    return z3.Select(a, i)


def pre(cx, st, timer=False):
    """The monitor.  `expect` is the stage that must run next: [start, expect) are exactly the stages whose last execution was accepted
    and came after the last execution of every earlier stage (a stage only ever runs when it is `expect`; accepting it adds it, a
    rejection with d <= 0 leaves the stages before s + d)."""
    curve, setup = obj(cx, st, "curve"), obj(cx, st, "setup")
    arr = {}
    for m in ("generators", "gen_argss", "validators", "check_argss", "unrolls"):
        o = obj(cx, st, m, 8 * N)
        p = o if m == "generators" else Ptr(z3.If(z3.Bool("no_" + m), z3.IntVal(0), o.o))
        cx.setf(st, setup, "exhaustive_t", m, p)
        arr[m] = (o, p)
    start, end, retry = [z3.BitVec(n, 32) for n in ("start", "end", "retry")]
    cx.assume(st, And(start >= 0, end >= 0, start < N, end <= N, retry >= 0))
    s0 = st.copy()

    def entry(m, i):
        i = z3.SignExt(32, i) if z3.is_bv(i) else bv(i)
        o, p = arr[m]
        e = rawptr(cx, s0, o, i * 8)
        z = isnull(p) if m != "generators" else z3.BoolVal(False)
        return Ptr(z3.If(z, z3.IntVal(0), e.o), z3.If(z, bv(0), e.f))
    for i in range(N):
        for m, k in (("generators", 1), ("unrolls", 2)):
            e = rawptr(cx, s0, arr[m][0], bv(8 * i))
            cx.assume(st, And(e.f == 0, Implies(e.o != 0, And(e.o >= 1, fkind(e.o) == k, fstage(e.o) == i))))
        cx.assume(st, rawptr(cx, s0, arr["generators"][0], bv(8 * i)).o >= 1)
        v = rawptr(cx, s0, arr["validators"][0], bv(8 * i))
        cx.assume(st, And(v.f == 0, Or(v.o == 0, v.o >= 1)))
        s2 = st.copy()
        s2.pc = TRUE
        ch = cx.getf(st, v, "check_t", "checks")
        nc = cx.getf(st, v, "check_t", "nchecks", I64)
        cx.assume(st, Implies(v.o != 0, And(ch.o >= 1, z3.ULE(nc, bv(1 << 20)))))

        def chk(j, ch=ch, i=i, nc=nc):
            e = rawptr(cx, s2, ch, j * 8)
            return Implies(z3.ULT(j, nc), And(e.o >= 1, e.f == 0, fkind(e.o) == 3, fstage(e.o) == i, fnum(e.o) == j))
        cx.assume(s2, Forall(BV64, chk, "idx"))
        cx.u["nc%d" % i] = z3.If(Or(isnull(arr["validators"][1]), v.o == 0), bv(0), nc)
    cx.u.update(curve=curve, start=start, end=end, retry=retry, entry=entry, arr=arr)
    cx.declare_class("i32", B32)
    cx.declare_class("i64", BV64)
    if not timer:
        # the timer of a stage (timeout option) is off
        cx.setf(st, cx.load(st, cx.glob("cfg"), ir.PTR, check=False), "config_t", "timeout", bv(0), I64)
    st.ghost.update(fails=z3.K(B32, b(0)), expect=start, cur=start, accepted=bv(0), pending=z3.BoolVal(False), last=b(1), stage=start,
                    fatal=z3.BoolVal(False), runs=b(0))
    cx.indirect = indirect
    return [curve, setup, start, end, retry]


def nchecks(cx, s):
    r = cx.u["nc%d" % (N - 1)]
    for i in range(N - 2, -1, -1):
        r = z3.If(s == i, cx.u["nc%d" % i], r)
    return r


def upto(a, f):
    return And(*[f(b(i)) for i in range(a)])


def no_undo(cx, lo, hi):
    """no stage in (lo, hi] has an undo function left to be called"""
    return upto(N, lambda t: Implies(And(t > lo, t <= hi), isnull(cx.u["entry"]("unrolls", t))))


def failed(cx, g, s, d):
    """stage s ended with the verdict d <= 0 (under `when`)"""
    u = cx.u
    f = z3.Select(g["fails"], s) + 1
    return dict(fails=z3.Store(g["fails"], s, f), expect=smax(u["start"], s + d), fatal=Or(d == INT_MIN, s + d < 0, And(u["retry"] != 0, f >= u["retry"])),
                pending=z3.BoolVal(False), last=d)


def success(cx, g, s):
    return dict(fails=z3.Store(g["fails"], s, b(0)), expect=s + 1, pending=z3.BoolVal(False), last=b(1))


def indirect(cx, fp, args, st, ins):
    u = cx.u
    g = st.ghost
    if len(args) == 3 and not isinstance(args[1], Ptr):
        return undo(cx, fp, args, st, ins)
    r = z3.BitVec(fresh_name("verdict"), 32)
    # which of the two is called is read off the pointer where it is loaded straight from the stage table
    direct = loaded_from(simp(fp.o), u["arr"]["generators"][0].o)
    isg, isv = (TRUE, z3.BoolVal(False)) if direct else (fkind(fp.o) == 1, fkind(fp.o) == 3)
    if direct:
        cx.oblige(st, fkind(fp.o) == 1, "calls-a-stage", "post")
    elif not mentions(simp(fp.o), u["arr"]["generators"][0].o):
        isg, isv = z3.BoolVal(False), TRUE
        cx.oblige(st, fkind(fp.o) == 3, "calls-a-validator", "post")
    s = simp(args[2])
    for t in range(N):
        cx.trigger(z3.BitVecVal(t, 64), "idx")
    ob = lambda n, f: cx.oblige(st, f, n, "post")
    ob("calls-a-stage-or-validator", Or(isg, isv))
    ob("on-the-curve", peq(args[0], u["curve"]))
    ob("no-stage-after-a-fatal-result", Not(g["fatal"]))
    # a stage
    cx.fact(TRUE, Implies(isg, r <= 1))
    ob("stage-function-of-the-stage", Implies(isg, And(fstage(fp.o) == s, s >= u["start"], s < u["end"])))
    ob("stage-gets-its-argument", Implies(isg, peq(args[1], u["entry"]("gen_argss", s))))
    ob("resumes-exactly-where-asked", Implies(isg, And(Not(g["pending"]), s == g["expect"])))
    ob("stages-left-were-undone", Implies(isg, no_undo(cx, s, g["cur"])))
    n = nchecks(cx, s)
    G = dict(g)
    new = {}
    ok = r > 0
    for k, x in failed(cx, G, s, r).items():
        new[k] = x
    suc = success(cx, G, s)
    pend = dict(fails=G["fails"], expect=s, pending=z3.BoolVal(True), last=b(1), fatal=z3.BoolVal(False))
    # a validator
    vs = g["stage"]
    ob("validators-in-their-order", Implies(isv, And(g["pending"], s == vs, fstage(fp.o) == s, fnum(fp.o) == g["accepted"])))
    ob("validator-gets-its-argument", Implies(isv, peq(args[1], u["entry"]("check_argss", s))))
    acc = g["accepted"] + 1
    done = And(isv, ok, acc == nchecks(cx, vs))
    bad = Or(And(isg, Not(ok)), And(isv, Not(ok)))
    fin = Or(And(isg, ok, n == 0), done)
    pen = And(isg, ok, n != 0)
    ss = Ite(simp(isg), s, vs)
    fl, su = failed(cx, G, ss, r), success(cx, G, ss)
    bad, fin, pen = simp(bad), simp(fin), simp(pen)
    for k in ("fails", "expect", "pending", "last"):
        st.ghost[k] = Ite(bad, fl[k], Ite(fin, su[k], Ite(pen, pend[k], G[k])))
    st.ghost["fatal"] = Ite(bad, fl["fatal"], G["fatal"])
    st.ghost["accepted"] = Ite(simp(isg), bv(0), acc)
    st.ghost["stage"] = ss
    st.ghost["cur"] = Ite(simp(isg), s, G["cur"])
    return r, st


def loaded_from(e, o):
    return z3.is_app_of(e, z3.Z3_OP_SELECT) and z3.is_app_of(e.arg(0), z3.Z3_OP_SELECT) and e.arg(0).arg(1).eq(simp(o))


def mentions(e, o):
    o, todo, seen = simp(o), [e], set()
    while todo:
        x = todo.pop()
        if x.eq(o):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
    return False


def undo(cx, fp, args, st, ins):
    u, g = cx.u, st.ghost
    s = fstage(fp.o)
    ob = lambda n, f: cx.oblige(st, f, n, "post")
    ob("undo-function", And(fkind(fp.o) == 2, peq(args[0], u["curve"])))
    ob("undoes-only-stages-being-left", And(g["last"] <= 0, Not(g["pending"]), Not(g["fatal"]), s > g["expect"], s <= g["cur"]))
    ob("undoes-in-order", no_undo(cx, s, g["cur"]))
    st.ghost["cur"] = s - 1
    return b(-1), st


def setjmp_k(cx, st, a, ins):
    "0, or 1 when the stage was interrupted by its timer"
    r = z3.BitVec(fresh_name("interrupted"), 32)
    cx.fact(TRUE, Or(r == 0, r == 1))
    u, G = cx.u, dict(st.ghost)
    s = G["expect"]
    d = u["start"] - s
    fl = failed(cx, G, s, d)
    c = r == 1
    for k in ("fails", "expect", "pending", "last", "fatal"):
        st.ghost[k] = z3.If(c, fl[k], G[k])
    st.ghost["cur"] = z3.If(c, s, G["cur"])
    st.ghost["stage"] = z3.If(c, s, G["stage"])
    cx.oblige(st, Implies(c, no_undo(cx, s, G["cur"])), "stages-left-were-undone-before", "post")
    return r


def inv(cx, info):
    u = cx.u
    g = lambda s: s.st.ghost
    ph = [d for d in templates.int_phis(info) if info.entry.phi[d].size() == 32]
    ph64 = [d for d in templates.int_phis(info) if info.entry.phi[d].size() == 64]
    for n, o in enumerate(templates.outer_objs(info, "i32")[:3]):
        def tries(s, o=o):
            m = z3.Select(cx.getmem(s.st, "i32"), o)
            return Implies(u["retry"] != 0, upto(N, lambda t: z3.Select(m, z3.SignExt(32, t) * 4) == z3.Select(g(s)["fails"], t)))
        yield "tries%d" % n, tries
    yield "retry-not-reached", lambda s: Implies(u["retry"] != 0, upto(N, lambda t: z3.Select(g(s)["fails"], t) < u["retry"]))
    yield "fails-nonneg", lambda s: Implies(u["retry"] != 0, upto(N, lambda t: z3.Select(g(s)["fails"], t) >= 0))
    yield "not-fatal", lambda s: Not(g(s)["fatal"])
    yield "not-pending", lambda s: Not(g(s)["pending"])
    yield "range", lambda s: And(g(s)["expect"] >= u["start"], g(s)["expect"] <= u["end"])
    yield "cur-range", lambda s: And(g(s)["cur"] >= 0, g(s)["cur"] < N)
    yield "cur-above", lambda s: g(s)["cur"] <= g(s)["expect"]
    yield "undone", lambda s: no_undo(cx, g(s)["expect"], g(s)["cur"])
    yield "entry-ghosts", lambda s: And(*[g(s)[k] == info.entry.st.ghost[k] for k in ("expect", "stage", "last")])
    for d in ph:
        yield "%s.expected" % info.canon[d], lambda s, d=d: s.phi[d] == g(s)["expect"]
        yield "%s.undo" % info.canon[d], lambda s, d=d: And(s.phi[d] <= smax(info.entry.phi[d], g(s)["expect"]), s.phi[d] >= g(s)["expect"], no_undo(cx, s.phi[d], g(s)["cur"]), g(s)["cur"] >= s.phi[d], g(s)["cur"] <= info.entry.phi[d])
        yield "%s.undo0" % info.canon[d], lambda s, d=d: Or(s.phi[d] == info.entry.phi[d], And(s.phi[d] >= g(s)["expect"], s.phi[d] < info.entry.phi[d]))
    for d in ph64:
        yield "%s.accepted" % info.canon[d], lambda s, d=d: And(g(s)["accepted"] == s.phi[d], z3.ULE(s.phi[d], nchecks(cx, g(s)["stage"])),
                                                               Implies(s.phi[d] == nchecks(cx, g(s)["stage"]), Not(g(s)["pending"])), Implies(z3.ULT(s.phi[d], nchecks(cx, g(s)["stage"])), g(s)["pending"]))
        yield "%s.state" % info.canon[d], lambda s, d=d: And(g(s)["last"] > 0,
              g(s)["expect"] == z3.If(s.phi[d] == nchecks(cx, g(s)["stage"]), g(s)["stage"] + 1, g(s)["stage"]),
              upto(N, lambda t: z3.Select(g(s)["fails"], t) == z3.If(And(t == g(s)["stage"], Not(g(s)["pending"])), b(0), z3.Select(info.entry.st.ghost["fails"], t))))
        yield "%s.stage" % info.canon[d], lambda s, d=d: And(g(s)["stage"] == info.entry.st.ghost["stage"], g(s)["cur"] == info.entry.st.ghost["cur"])


def post(cx, st0, st, args, rv):
    u, g = cx.u, st.ghost
    ok = rv > 0
    yield "empty-range-succeeds-at-once", Implies(u["start"] == u["end"], And(ok, g["cur"] == u["start"]))
    yield "reversed-range-fails", Implies(u["start"] > u["end"], Not(ok))
    yield "success-every-stage-accepted-last-in-order", Implies(And(ok, u["start"] < u["end"]), g["expect"] == u["end"])
    yield "success-not-after-a-fatal-result", Implies(ok, And(Not(g["fatal"]), Not(g["pending"])))
    yield "failure-only-when-fatal-or-limit-reached", Implies(And(Not(ok), u["start"] < u["end"]), g["fatal"])


CON = {"_setjmp": setjmp_k, "setjmp": setjmp_k, "__sigsetjmp": setjmp_k}
for n in ("timer_create", "timer_settime", "timer_delete", "syscall"):
    CON[n] = lambda cx, st, a, ins: z3.BitVec(fresh_name("rc"), ins.ty.n)
UNITS = [Unit("exhaustive_gen_retry", "C03", pre, post, templates=[inv], contracts=CON, inv_timeout=15000, timeout=60000)]
