"""C04: what the option combinations install, stage by stage, as the precondition of the generation engine at the calls
in exhaustive_do and cm_do"""
import z3
from ..theory import *
from ..pari import *
from ..libc import row, literal
from ..unit import Unit, obj, TRUE
from ..vcg import Ptr, And, Or, Not, Implies, bv, Forall, simp, peq, Ite, isnull
from .. import libc

I = ir.I
SEED, FIELD, A, B_, CURVE, ORDER, GENERATORS, POINTS, METADATA, END = range(10)
NAMES = ["seed", "field", "a", "b", "curve", "order", "generators", "points", "metadata"]
FLAGS = "field method count random prime cm_order koblitz koblitz_value smooth cofactor invalid_primes seed_algo seed family unique hex_check points metadata".split()


def setup_cfg(cx, st):
    """a configuration object with symbolic contents, as command line processing leaves it (C17)"""
    for g, n in (("cfg", "CFG"), ("cfg_used", "USED"), ("cfg_set", "SET")):
        o = obj(cx, st, n)
        cx.store(st, cx.glob(g), o, ir.PTR, check=False)
        cx.u[n] = o
    c = {}
    cfg = cx.u["CFG"]
    g = lambda m, ty: cx.getf(st, cfg, "config_t", m, ty)
    for m in ("field", "method", "random", "seed_algo", "family"):
        c[m] = g(m, I(32))
    for m in ("prime", "koblitz", "smooth", "cofactor", "unique", "metadata"):
        b = g(m, I(8))
        cx.assume(st, z3.ULE(b, bv(1, 8)))
        c[m] = b == 1
    for m in ("cm_order", "seed", "hex_check"):
        c[m] = g(m, ir.PTR)
    off = cx.mod.fieldnames["config_t"]["points"]
    c["ptype"] = cx.load(st, Ptr(cfg.o, cfg.f, ("struct." + cx.structname("config_t"), off)), I(32), check=False)
    c["pamount"] = cx.load(st, Ptr(cfg.o, cfg.f, ("struct." + cx.structname("config_t"), off + 8)), I(64), check=False)
    for m in ("koblitz_value", "smooth_value", "cofactor_value"):
        c[m] = g(m, I(64))
    me = c["method"]
    cx.assume(st, Or(*[me == bv(x, 32) for x in (0, 1, 2, 4, 8, 16, 32, 64)]))
    cx.assume(st, (me == 4) == (c["seed_algo"] != 0))
    cx.assume(st, Or(*[c["seed_algo"] == bv(x, 32) for x in (0, 1, 2, 3, 5)]))
    cx.assume(st, And(z3.ULE(c["family"], bv(6, 32)), z3.ULE(c["ptype"], bv(4, 32))))
    cx.assume(st, z3.AtMost(c["prime"], c["cofactor"], c["smooth"], 1))
    cx.assume(st, Implies(c["koblitz"], z3.ULE(c["koblitz_value"], bv(1))))
    cx.u["c"] = c
    return c


def arr(cx, st, setup, member, k):
    """setup->member[k], or a null pointer when there is no such array"""
    p = cx.getf(st, setup, "exhaustive_t", member)
    v = cx.load(st, Ptr(p.o, simp(p.f + bv(8 * k))), ir.PTR, check=False)
    return Ite(simp(isnull(p)), Ptr(z3.IntVal(0)), v)


def expected(cx, c, is_cm):
    F = lambda n: cx.fn_ptr(n)

    def pick(*cs):
        """first matching (condition, name), last is the default"""
        r = F(cs[-1])
        for cond, n in cs[-2::-1]:
            r = Ite(simp(cond), F(n), r)
        return r
    me, al = c["method"], c["seed_algo"]
    rnd = lambda k: z3.Extract(k, k, c["random"]) == 1
    m = {n: me == v for n, v in (("cm", 1), ("anom", 2), ("seed", 4), ("twist", 16), ("super", 32), ("fam", 64))}
    if is_cm:
        m["seed"] = m["twist"] = m["fam"] = z3.BoolVal(False)
    else:
        m["cm"] = m["anom"] = m["super"] = z3.BoolVal(False)
    ansi, bp, rfc, nums = [And(m["seed"], al == v) for v in (1, 2, 3, 5)]
    bpb = Or(bp, rfc)
    normal = And(Not(m["seed"]), Not(m["fam"]), z3.BoolVal(not is_cm))
    constr = Or(normal, ansi)
    kob = And(normal, c["koblitz"])
    hasseed = Not(isnull(c["seed"]))
    e = {}
    sd = []
    for cond, n in ((ansi, "ansi"), (bp, "brainpool"), (rfc, "brainpool_rfc")):
        sd += [(And(cond, hasseed), n + "_gen_seed_argument"), (And(cond, rnd(0)), n + "_gen_seed_random"), (cond, n + "_gen_seed_input")]
    e[SEED] = pick(*sd, (And(m["fam"], c["random"] != 0), "family_gen_seed_random"), (m["fam"], "family_gen_seed_input"), "gen_skip")
    e[FIELD] = pick((m["cm"], "gen_skip"), (m["anom"], "anomalous_gen_field"), (bpb, "brainpool_gen_field"), (nums, "nums_gen_field"),
                    (m["fam"], "family_gen_field"), (rnd(1), "field_gen_random"), "field_gen_input")
    e[A] = pick((nums, "nums_gen_a"), (Or(m["seed"], m["fam"], m["cm"], m["anom"], m["super"]), "gen_skip"),
                (And(kob, c["koblitz_value"] == 0), "a_gen_zero"), (kob, "a_gen_one"), (rnd(2), "a_gen_random"), "a_gen_input")
    e[B_] = pick((m["cm"], "gen_skip"), (m["anom"], "anomalous_gen_equation"), (m["super"], "supersingular_gen_equation"),
                 (ansi, "ansi_gen_equation"), (bp, "brainpool_gen_equation"), (rfc, "brainpool_rfc_gen_equation"), (nums, "nums_gen_b"),
                 (And(m["fam"], Or(c["family"] == 3, c["family"] == 6)), "family_gen_equation_cm"), (m["fam"], "family_gen_equation_iter"),
                 (kob, "b_gen_one"), (rnd(3), "b_gen_random"), "b_gen_input")
    e[CURVE] = pick((m["twist"], "curve_gen_any_twist"), (And(m["cm"], cx.u.get("ordprime", z3.BoolVal(False))), "cm_gen_curve_prime"),
                    (m["cm"], "cm_gen_curve_any"), "curve_gen_any")
    e[ORDER] = pick((m["cm"], "cm_gen_order"), (m["anom"], "anomalous_gen_order"), (m["super"], "supersingular_gen_order"), (bpb, "order_gen_prime"),
                    (nums, "nums_gen_order"), (m["fam"], "family_gen_order"), (c["prime"], "order_gen_prime"), (c["cofactor"], "order_gen_cofactor"),
                    (c["smooth"], "order_gen_smooth"), (kob, "order_gen_koblitz"), "order_gen_any")
    e[GENERATORS] = pick((bpb, "brainpool_gen_gens"), (nums, "nums_gen_gens"), (m["fam"], "gens_gen_any"), (c["unique"], "gens_gen_one"),
                         (And(constr, c["cofactor"]), "gens_gen_cofactor"), "gens_gen_any")
    pt = c["ptype"]
    e[POINTS] = pick((pt == 0, "points_gen_prime"), (pt == 1, "points_gen_nonprime"), (And(pt == 2, c["pamount"] != 0), "points_gen_random"),
                     (pt == 2, "point_gen_random"), (pt == 3, "points_gen_allgroups"), "gen_skip")
    e[METADATA] = pick((c["metadata"], "metadata_gen"), "gen_skip")
    return e, m, dict(ansi=ansi, bpb=bpb, nums=nums, constr=constr, kob=kob, normal=normal)


def validators(cx, st, setup, k, conds):
    """conds: list of (condition, [function names]); the default is none.  check_t: {checks, nchecks}"""
    v = arr(cx, st, setup, "validators", k)
    n = cx.getf(st, v, "check_t", "nchecks", I(64))
    ch = cx.getf(st, v, "check_t", "checks")
    n = z3.If(isnull(v), bv(0), n)
    out = []
    anyc = z3.BoolVal(False)
    for cond, fs in conds:
        at = [peq(cx.load(st, Ptr(ch.o, simp(ch.f + bv(8 * i))), ir.PTR, check=False), cx.fn_ptr(f)) for i, f in enumerate(fs)]
        out.append(Implies(cond, And(n == len(fs), *at)))
        anyc = Or(anyc, cond)
    out.append(Implies(Not(anyc), n == 0))
    return And(*out)


def engine(is_cm):
    def k(cx, st, a, ins):
        "starts the generation engine: every stage's procedure, validators, arguments and undo function are the documented ones"
        setup = a[0]
        c = cx.u["c"]
        e, m, d = expected(cx, c, is_cm)
        for o in range(END):
            cx.oblige(st, peq(arr(cx, st, setup, "generators", o), e[o]), "engine-gets:%s-procedure" % NAMES[o], "post")
        f = z3.BoolVal(False)
        hexc = Not(isnull(c["hex_check"]))
        conds = {CURVE: [(TRUE, ["curve_check_nonzero"])], POINTS: [(hexc, ["hex_check_param"])],
                 ORDER: [(d["bpb"], ["brainpool_check_order"])],
                 GENERATORS: [(Or(d["bpb"], d["nums"]), ["gens_check_anomalous", "brainpool_check_gens"])]}
        for o in range(END):
            cx.oblige(st, validators(cx, st, setup, o, conds.get(o, [])), "engine-gets:%s-validators" % NAMES[o], "post")
        un = {SEED: Ite(simp(Or(m["seed"], m["fam"])), cx.fn_ptr("seed_unroll"), Ptr(z3.IntVal(0))), CURVE: cx.fn_ptr("curve_unroll"),
              GENERATORS: cx.fn_ptr("gens_unroll"), POINTS: cx.fn_ptr("points_unroll")}
        for o in range(METADATA):
            u = arr(cx, st, setup, "unrolls", o)
            w = un.get(o, Ptr(z3.IntVal(0)))
            g = peq(u, w)
            if o not in (CURVE, GENERATORS, POINTS):
                g = Or(g, And(isnull(w), peq(u, cx.fn_ptr("unroll_skip"))))
            cx.oblige(st, g, "engine-gets:%s-undo" % NAMES[o], "post")

        def argof(k, member="gen_argss"):
            p = arr(cx, st, setup, member, k)
            return p, cx.getf(st, p, "arg_t", "args")

        def num(cond, o, v):
            p, x = argof(o)
            # &cfg->field: a pointer into the configuration, or any other place holding the number
            ok = And(Not(isnull(p)), numat(cx, st, x, v))
            cx.oblige(st, Implies(cond, ok), "engine-gets:%s-argument" % NAMES[o], "post")
        num(And(d["constr"], c["cofactor"]), ORDER, c["cofactor_value"])
        num(And(d["constr"], c["cofactor"]), GENERATORS, c["cofactor_value"])
        num(And(d["constr"], c["smooth"]), ORDER, c["smooth_value"])
        num(c["ptype"] == 2, POINTS, c["pamount"])
        p, x = argof(POINTS, "check_argss")
        cx.oblige(st, Implies(hexc, And(Not(isnull(p)), peq(x, c["hex_check"]))), "engine-gets:hex-string", "post")
        if is_cm:
            for o in (CURVE, ORDER):
                p, x = argof(o)
                cx.oblige(st, Implies(m["cm"], And(Not(isnull(p)), strint(cx, st, x) == cx.u["orderval"](cx, st))), "engine-gets:%s-requested-order" % NAMES[o], "post")
            pf_, xf = argof(FIELD)
            pb, xb = argof(B_)
            cx.oblige(st, Implies(m["anom"], And(Not(isnull(pf_)), Not(isnull(pb)), Not(isnull(xf)), cx.load(st, xf, I(64), check=False) == cx.load(st, xb, I(64), check=False))),
                      "engine-gets:anomalous-same-discriminant", "post")
        st.ghost["started"] = TRUE
        r = z3.BitVec(fresh_name("engine"), 32)
        st.ghost["engine"] = r
        return r
    return k


def numat(cx, st, p, v):
    """the number stored at p (also when p points to a member of the configuration object)"""
    cfg = cx.u["CFG"]
    cases = [And(p.o != cfg.o, cx.load(st, p, I(64), check=False) == v)]
    for m in ("koblitz_value", "smooth_value", "cofactor_value", "pamount"):
        off = cx.mod.fieldnames["config_t"]["points"] + 8 if m == "pamount" else cx.mod.fieldnames["config_t"][m]
        q = cx.fptr(cfg, "config_t", off)
        cases.append(And(p.o == cfg.o, p.f == cfg.f + bv(off), cx.load(st, q, I(64), check=False) == v))
    return Or(*cases)


def report(cx, st, a, ins):
    "reports options that were set but not consulted: at this point exactly the consulted ones are marked"
    c = cx.u["c"]
    e, m, d = expected(cx, c, cx.u["is_cm"])
    used = lambda f: cx.getf(st, cx.u["USED"], "config_names_t", f, I(8)) == 1
    is_cm = z3.BoolVal(cx.u["is_cm"])
    rfc = And(m["seed"], c["seed_algo"] == 3)
    no = {"cofactor": Not(d["constr"]), "smooth": Not(d["constr"]), "koblitz": Not(d["normal"]), "prime": Or(is_cm, m["fam"]), "unique": m["fam"]}
    # with a constraint that wins over another one the latter was never asked for (at most one is set)
    set_ = {f: c[f] for f in ("cofactor", "smooth", "koblitz", "prime", "unique")}
    for f, cond in no.items():
        cx.oblige(st, Implies(And(set_[f], cond), Not(used(f))), "unconsulted-reported:%s" % f, "post")
        cx.oblige(st, Implies(And(set_[f], Not(cond)), used(f)), "consulted-not-reported:%s" % f, "post")
    for f in ("hex_check", "points", "metadata", "method", "field", "count"):
        x = And(m["seed"], c["seed_algo"] == 5) if f == "field" else z3.BoolVal(False)
        cx.oblige(st, Or(x, used(f)), "consulted-not-reported:%s" % f, "post")
    cx.oblige(st, Implies(Or(m["seed"]), used("seed_algo")), "consulted-not-reported:seed_algo", "post")
    return None


def pre(is_cm):
    def p(cx, st):
        cx.u["is_cm"] = is_cm
        c = setup_cfg(cx, st)
        # nothing was marked as consulted before
        for f in FLAGS:
            cx.setf(st, cx.u["USED"], "config_names_t", f, bv(0, 8), I(8))
        me = c["method"]
        if is_cm:
            cx.assume(st, Or(me == 1, me == 2, me == 32))
            cx.assume(st, Implies(me == 1, Not(isnull(c["cm_order"]))))
        else:
            cx.assume(st, Or(me == 0, me == 4, me == 16, me == 64))
        st.ghost["started"] = z3.BoolVal(False)
        return []
    return p


def post(cx, st0, st, args, rv):
    yield "generation-is-started", st.ghost["started"]
    yield "result-of-generation-returned", rv == st.ghost["engine"]


def nothing(cx, st, a, ins):
    "releases storage / prepares tables of one method (no effect on the installed procedures)"
    return cx.fresh(ins.ty, "r") if ins.ty.k != "void" else None


QUIT = {n: nothing for n in "field_quit equation_quit nums_quit family_quit family_init exhaustive_clear anomalous_init anomalous_quit debug_log_start debug_log_end".split()}

UNITS = [
    Unit("exhaustive_do", "C04", pre(False), post, contracts=dict(QUIT, exhaustive_generate=engine(False), config_report_unused=report),
         opts=dict(exact_loops=("check_new",), escape=("struct.config_t",))),
]


# ---------------------------------------------------------------- cm_do
def str_cnt_k(cx, st, a, ins):
    "the number of occurrences (proved in C20)"
    return cx.u["delims"]


def strdup_k(cx, st, a, ins):
    "a new string with the same bytes"
    p = Ptr(cx.alloc(st, name="strdup"))
    libc.setrow(cx, st, p.o, row(cx, st, a[0].o))
    cx.fact(TRUE, strint(cx, st, Ptr(p.o, bv(0))) == strint(cx, st, a[0]))
    return p


ilog2_f = F("ilog2_s", INT, BV64)


@C("logint0")
def _logint0(cx, st, a, ins):
    "floor of the logarithm"
    return ilog2_f(ival(a[0])) if True else None


@C("strchr", cat="libc")
def _strchr(cx, st, a, ins):
    "NULL or a pointer into the string"
    p = Ptr(a[0].o, z3.BitVec(fresh_name("strchr"), 64))
    b = z3.Bool(fresh_name("found"))
    return Ite(b, p, Ptr(z3.IntVal(0)))


def _gtovec0(cx, st, a, ins):
    "a new vector"
    r = gen(cx, st, name="vec")
    setglen(cx, st, r, z3.BitVec(fresh_name("len"), 64))
    return r


@C("addprimes")
def _addprimes(cx, st, a, ins):
    "adds to the table of known primes (no effect on results)"
    return gen(cx, st)


@C("pari_sprintf")
def _pari_sprintf(cx, st, a, ins):
    "formatted text in a new string"
    return Ptr(cx.alloc(st, name="text"))


def pre_cm(single):
    base = pre(True)

    def p(cx, st):
        r = base(cx, st)
        c = cx.u["c"]
        cx.u["delims"] = bv(0) if single else z3.BitVec("delims", 64)
        if not single:
            cx.assume(st, And(cx.u["delims"] != 0, c["method"] == 1))
        n = strint(cx, st, c["cm_order"])
        cx.u["n"] = n
        cx.u["ordprime"] = isprime_s(n) if single else z3.BoolVal(False)
        if single:
            cx.u["orderval"] = lambda cx, st: n
        else:
            cx.u["orderval"] = lambda cx, st: strint(cx, st, cx.getf(st, arr(cx, st, cx.u["setup"], "gen_argss", ORDER), "arg_t", "args"))
        return r
    return p


def post_cm(single):
    def p(cx, st0, st, args, rv):
        c = cx.u["c"]
        started = st.ghost["started"]
        yield "result-of-generation-returned", Implies(started, rv == st.ghost.get("engine", rv))
        yield "otherwise-an-error-is-returned", Implies(Not(started), rv != 0)
        if single:
            bits = cx.getf(st0, cx.u["CFG"], "config_t", "bits", I(64))
            bad = And(c["method"] == 1, Or(cx.u["n"] == 0, z3.UGT(ilog2_f(cx.u["n"]), bits)))
            yield "started-unless-the-order-is-impossible", started == Not(bad)
    return p


def engine_cm(cx, st, a, ins):
    "starts the generation engine: every stage's procedure, validators, arguments and undo function are the documented ones"
    cx.u["setup"] = a[0]
    return engine(True)(cx, st, a, ins)


CMK = dict(QUIT, exhaustive_generate=engine_cm, gtovec0=_gtovec0, gtovec=_gtovec0, config_report_unused=report, str_cnt=str_cnt_k, try_strdup=strdup_k)
UNITS += [
    Unit("cm_do", "C04", pre_cm(True), post_cm(True), contracts=CMK, opts=dict(exact_loops=("check_new",), escape=("struct.config_t",))),
    Unit("cm_do", "C04", pre_cm(False), post_cm(False), contracts=CMK, name="cm_do/order as a product",
         opts=dict(exact_loops=("check_new",), escape=("struct.config_t",))),
]


# ---------------------------------------------------------------- the report itself
def fprintf_k(cx, st, a, ins):
    "diagnostic output: recorded which option it names"
    t = literal(cx, a[1]) or b""
    for f in FLAGS:
        names = {b"seed_algo": b"seed_algo"}
        if (b"argument %s " % f.encode()) in t or (b"argument %s." % f.encode()) in t or (b'argument "%s"' % f.encode()) in t:
            st.ghost["warned:" + f] = TRUE
    return z3.BitVec(fresh_name("fp"), 32)


def pre_report(cx, st):
    setup_cfg(cx, st)
    for n in ("USED", "SET"):
        for f in FLAGS:
            b = cx.getf(st, cx.u[n], "config_names_t", f, I(8))
            cx.assume(st, z3.ULE(b, bv(1, 8)))
    for f in FLAGS:
        st.ghost["warned:" + f] = z3.BoolVal(False)
    return []


def post_report(cx, st0, st, args, rv):
    g = lambda n, f: cx.getf(st0, cx.u[n], "config_names_t", f, I(8)) == 1
    for f in ("field", "method", "count", "random", "prime", "cm_order", "koblitz", "smooth", "cofactor", "unique", "hex_check", "points", "metadata"):
        yield "reported-iff-set-and-not-consulted:%s" % f, st.ghost["warned:" + f] == And(g("SET", f), Not(g("USED", f)))


UNITS.append(Unit("config_report_unused", "C04", pre_report, post_report, contracts=dict(fprintf=fprintf_k)))
