"""C17: command line processing"""
import z3
from ..theory import *
from ..pari import *
from ..libc import row, byte, literal
from ..unit import Unit, obj, TRUE
from ..vcg import Ptr, And, Or, Not, Implies, bv, Forall, simp, peq, Ite, isnull, is_false, is_true
from .. import libc

I = ir.I
FIELDS = dict(field=32, method=32, count=64, random=32, prime=8, cm_order=0, koblitz=8, koblitz_value=64, smooth=8, smooth_value=64, cofactor=8,
              cofactor_value=64, invalid_primes=0, seed_algo=32, seed=0, family=32, unique=8, hex_check=0, metadata=8, datadir=0, memory=64,
              threads=64, thread_memory=64, timeout=64, format=32, output=0, input=0, append=8, verbose=64, verbose_log=0, bits=64, hex_digits=64)
ENUMS = ("field", "method", "random", "seed_algo", "family", "format", "ptype")
FLAGS = "field method count random prime cm_order koblitz koblitz_value smooth cofactor invalid_primes seed_algo seed family unique hex_check points metadata".split()


def ty(n):
    return ir.PTR if n == 0 else I(n)


def getcfg(cx, st, f):
    cfg = cx.u["CFG"]
    if f in ("ptype", "pamount"):
        off = cx.mod.fieldnames["config_t"]["points"] + (8 if f == "pamount" else 0)
        return cx.load(st, Ptr(cfg.o, cfg.f, ("struct." + cx.structname("config_t"), off)), I(64 if f == "pamount" else 32), check=False)
    return cx.getf(st, cfg, "config_t", f, ty(FIELDS[f]))


def setup(cx, st):
    for g, n in (("cfg", "CFG"), ("cfg_used", "USED"), ("cfg_set", "SET")):
        o = obj(cx, st, n)
        cx.store(st, cx.glob(g), o, ir.PTR, check=False)
        cx.u[n] = o
    c = {f: getcfg(cx, st, f) for f in list(FIELDS) + ["ptype", "pamount"]}
    for f in ("prime", "koblitz", "smooth", "cofactor", "unique", "metadata", "append"):
        cx.assume(st, z3.ULE(c[f], bv(1, 8)))
    cx.u["c"] = c
    cx.u["set"] = {f: cx.getf(st, cx.u["SET"], "config_names_t", f, I(8)) for f in FLAGS}
    cx.u["bad"] = z3.BoolVal(False)
    return c


def unchanged(cx, st, exc=()):
    c = cx.u["c"]
    for f in list(FIELDS) + ["ptype", "pamount"]:
        if f not in exc:
            v = getcfg(cx, st, f)
            yield "unchanged:%s" % f, peq(v, c[f]) if isinstance(v, Ptr) else v == c[f]


def failure(cx, st, a, ins):
    "ends the program with a message when the status is not zero (argp_failure, argp_usage)"
    if not cx.dry:
        bad = cx.u["bad"]
        cx.oblige(st, bad(cx, st) if callable(bad) else bad, "usage-error-only-for-an-inconsistent-command-line", "post")
    if len(a) > 1 and is_false(simp(a[1] != 0)):
        return None
    if cx.u.get("records-failure"):
        st.ghost["failed"] = TRUE
        return None
    st.pc = z3.BoolVal(False)
    return None


# ---------------------------------------------------------------- numbers
num_f = F("number_at", z3.ArraySort(BV64, z3.BitVecSort(8)), BV64, BV64)      # value of the longest decimal number at this place
numlen_f = F("number_len", z3.ArraySort(BV64, z3.BitVecSort(8)), BV64, BV64)  # characters consumed, 0: no number


def strtoul_k(cx, st, a, ins):
    "value of the longest decimal number at the start; the end pointer is set behind it, to the start when there is none"
    r = row(cx, st, a[0].o)
    cx.oblige(st, a[2] == 10, "decimal", "post")
    v, n = num_f(r, a[0].f), numlen_f(r, a[0].f)
    cx.fact(TRUE, z3.ULT(n, bv(1 << 32)))
    e = a[1]
    if not is_true(simp(isnull(e))):
        cx.store(st, e, Ptr(a[0].o, simp(a[0].f + n)), ir.PTR, check=False)
    return v


from ..ir import Unsupported  # noqa: E402


def argnum(cx, p):
    r = row(cx, cx.st0, p.o)
    return num_f(r, p.f), numlen_f(r, p.f), z3.Select(r, p.f + numlen_f(r, p.f))


def isch(ch, s):
    return Or(*[ch == ord(x) for x in s])


def pre_parse(cx, st):
    s, state = obj(cx, st, "str"), obj(cx, st, "state")
    cx.u["str"] = s
    cx.u["bad"] = lambda cx, st: argnum(cx, s)[1] == 0
    return [s, state]


def post_size(table):
    def p(cx, st0, st, args, rv):
        v, n, ch = argnum(cx, cx.u["str"])
        yield "a-number-is-required", n != 0
        m = bv(1)
        for s, k in table:
            m = z3.If(isch(ch, s), bv(k), m)
        yield "value-times-suffix", rv == v * m
    return p


NUMK = dict(strtoul=strtoul_k, strtol=strtoul_k, __isoc23_strtoul=strtoul_k, __isoc23_strtol=strtoul_k, argp_failure=failure, argp_usage=failure)
MEM = [("kK", 1000), ("mM", 10**6), ("gG", 10**9)]
TIME = [("sS", 1), ("mM", 60), ("hH", 3600), ("dD", 86400)]
UNITS = [
    Unit("cli_parse_memory", "C17", pre_parse, post_size(MEM), contracts=NUMK),
    Unit("cli_parse_time", "C17", pre_parse, post_size(TIME), contracts=NUMK),
]

# ---------------------------------------------------------------- consistency of the whole command line
CM, ANOM, SEED, INVALID, TWIST, SUPER, FAM = 1, 2, 4, 8, 16, 32, 64


def consistent(c):
    me, fi, al = c["method"], c["field"], c["seed_algo"]
    single = Or(*[me == m for m in (0, CM, ANOM, SEED, INVALID, TWIST, SUPER, FAM)])
    isb = fi == 2
    fponly = Or(And(me == SEED, Or(al == 2, al == 3, al == 5)), me == CM, me == ANOM, me == FAM, me == SUPER)
    return And(Or(fi == 1, isb), z3.AtMost(c["prime"] == 1, c["smooth"] == 1, c["cofactor"] == 1, 1), single, Not(And(fponly, isb)),
               Not(And(me == SEED, al == 5, c["random"] != 0)), Not(And(me == ANOM, c["random"] == 0)))


def pre_end(cx, st):
    c = setup(cx, st)
    # what option processing can leave: or-combinations of the flags
    cx.assume(st, And(z3.ULE(c["field"], bv(3, 32)), z3.ULE(c["method"], bv(127, 32)), z3.ULE(c["random"], bv(15, 32)), z3.ULE(c["seed_algo"], bv(6, 32))))
    cx.u["bad"] = Not(consistent(c))
    return [obj(cx, st, "state")]


def post_end(cx, st0, st, args, rv):
    c = cx.u["c"]
    yield "only-consistent-combinations-pass", consistent(c)
    g = lambda f: getcfg(cx, st, f)
    yield "default:count", g("count") == z3.If(c["count"] == 0, bv(1), c["count"])
    yield "default:memory", g("memory") == z3.If(c["memory"] == 0, bv(10**9), c["memory"])
    yield "default:threads", g("threads") == z3.If(c["threads"] == 0, bv(1), c["threads"])
    yield "default:thread-memory", g("thread_memory") == z3.If(c["thread_memory"] == 0, c["bits"] * 2000000, c["thread_memory"])
    yield "format", g("format") == 0
    yield from unchanged(cx, st, ("count", "memory", "threads", "thread_memory", "format"))


UNITS.append(Unit("cli_end", "C17", pre_end, post_end, contracts=NUMK))


def pre_sa(cx, st):
    c = setup(cx, st)
    al = z3.BitVec("algo", 32)
    cx.u["al"] = al
    cx.u["bad"] = And(c["seed_algo"] != 0, c["seed_algo"] != al)
    return [al, obj(cx, st, "state")]


def post_sa(cx, st0, st, args, rv):
    c = cx.u["c"]
    yield "seed-procedures-exclude-each-other", Or(c["seed_algo"] == 0, c["seed_algo"] == cx.u["al"])
    yield "stored", getcfg(cx, st, "seed_algo") == cx.u["al"]
    yield "marked-as-set", cx.getf(st, cx.u["SET"], "config_names_t", "seed_algo", I(8)) == 1
    yield from unchanged(cx, st, ("seed_algo",))


UNITS.append(Unit("cli_seed_algo", "C17", pre_sa, post_sa, contracts=NUMK))

# ---------------------------------------------------------------- one option
streq_f = F("string_equals", z3.ArraySort(BV64, z3.BitVecSort(8)), BV64, z3.StringSort(), z3.BoolSort())
prefix_f = F("string_starts", z3.ArraySort(BV64, z3.BitVecSort(8)), BV64, z3.StringSort(), z3.BoolSort())
pred_f = F("string_accepted", z3.StringSort(), z3.ArraySort(BV64, z3.BitVecSort(8)), BV64, z3.BoolSort())


def lit_(cx, p):
    t = literal(cx, p)
    if t is None:
        raise Unsupported("comparison with a string that is not constant")
    return t.decode("latin1")


def strcmp_k(fold):
    def k(cx, st, a, ins):
        "0 iff the strings are equal (strcasecmp: up to the case of letters)"
        x, t = (a[0], lit_(cx, a[1])) if literal(cx, a[1]) is not None else (a[1], lit_(cx, a[0]))
        r = z3.BitVec(fresh_name("cmp"), 32)
        cx.fact(TRUE, (r == 0) == streq_f(row(cx, st, x.o), x.f, z3.StringVal(t.lower() if fold else t)))
        return r
    return k


def strstr_k(cx, st, a, ins):
    "the first place at which the needle occurs, NULL when there is none"
    t = lit_(cx, a[1])
    at = prefix_f(row(cx, st, a[0].o), a[0].f, z3.StringVal(t))
    later = z3.Bool(fresh_name("later"))
    w = z3.BitVec(fresh_name("where"), 64)
    cx.fact(TRUE, And(z3.UGE(w, bv(1)), z3.ULT(w, bv(1 << 32))))
    return Ite(at, a[0], Ite(later, Ptr(a[0].o, a[0].f + w), Ptr(z3.IntVal(0))))


def accepts(name, zero_good=False):
    def k(cx, st, a, ins):
        "accepts or refuses the string (for the seed checks: C08, C09)"
        b = pred_f(z3.StringVal(name), row(cx, st, a[-5 + len(a)].o if False else a[0].o), a[0].f)
        if zero_good:
            r = z3.BitVec(fresh_name("r"), 32)
            cx.fact(TRUE, (r == 0) == b)
            return r
        if ins.ty.n == 1:
            return b
        return z3.If(b, bv(1, ins.ty.n), bv(0, ins.ty.n))
    return k


def regexec_k(cx, st, a, ins):
    "0 iff the pattern matches"
    b = pred_f(z3.StringVal("order"), row(cx, st, a[1].o), a[1].f)
    r = z3.BitVec(fresh_name("r"), 32)
    cx.fact(TRUE, (r == 0) == b)
    return r


def strspn_k(cx, st, a, ins):
    "length of the initial part made of the given characters: the whole length iff all characters are among them"
    t = lit_(cx, a[1])
    n = libc._strlen(cx, st, [a[0]], ins)
    b = pred_f(z3.StringVal(t), row(cx, st, a[0].o), a[0].f)
    r = z3.BitVec(fresh_name("span"), 64)
    cx.fact(TRUE, And(z3.ULE(r, n), (r == n) == b))
    return r


def size_k(kind):
    def k(cx, st, a, ins):
        "proved: cli_parse_memory / cli_parse_time"
        cx.fact(TRUE, z3.BoolVal(True))
        return sized_f(z3.StringVal(kind), row(cx, st, a[0].o), a[0].f)
    return k


sized_f = F("size_of_text", z3.StringSort(), z3.ArraySort(BV64, z3.BitVecSort(8)), BV64, BV64)


def seed_algo_k(cx, st, a, ins):
    "proved: cli_seed_algo"
    c = cx.u["c"]
    cx.oblige(st, getcfg(cx, st, "seed_algo") == c["seed_algo"], "procedure-set-once", "post")
    st.pc = And(st.pc, Or(c["seed_algo"] == 0, c["seed_algo"] == a[0]))
    cfg = cx.u["CFG"]
    cx.setf(st, cfg, "config_t", "seed_algo", a[0], I(32))
    cx.setf(st, cx.u["SET"], "config_names_t", "seed_algo", bv(1, 8), I(8))
    return None


def end_k(cx, st, a, ins):
    "proved: cli_end"
    st.ghost["ended"] = TRUE
    return None


def sysconf_k(cx, st, a, ins):
    "a number of processors, or a value below one"
    return cx.u["nprocs"]


OPTK = dict(NUMK, strcmp=strcmp_k(False), strcasecmp=strcmp_k(True), strstr=strstr_k, ansi_seed_valid=accepts("ansi"), brainpool_seed_valid=accepts("brainpool"),
            regexec=regexec_k, strspn=strspn_k, cli_parse_memory=size_k("memory"), cli_parse_time=size_k("time"), cli_seed_algo=seed_algo_k,
            cli_end=end_k, sysconf=sysconf_k)


def optkey(cx, name):
    """the key the option table gives to a long option"""
    for e in cx.mod.globals["cli_options"][1].args:
        if e.k == "agg" and e.args[0].k == "global" and literal(cx, cx.glob(e.args[0].v)) == name.encode():
            return e.args[1].v if e.args[1].k == "int" else 0
    raise Unsupported("no option " + name)


def option(name, key, changes, sets=(), bad=None, arg="given", rv0=0):
    """the effect of one option: `changes` maps configuration fields to their new value, everything else stays"""
    def pre(cx, st):
        c = setup(cx, st)
        A = Ptr(z3.IntVal(0)) if arg == "none" else obj(cx, st, "arg")
        cx.u["arg"] = A
        cx.u["argrow"] = row(cx, st, A.o)
        cx.u["nprocs"] = z3.BitVec("nprocs", 64)
        cx.assume(st, z3.ULE(c["method"], bv(127, 32)))
        state = obj(cx, st, "state")
        cx.u["argno"] = cx.getf(st, state, "argp_state", "arg_num", I(32))
        cx.u["bad"] = bad(cx, c, A) if bad else z3.BoolVal(False)
        st.ghost["ended"] = z3.BoolVal(False)
        return [bv(optkey(cx, key) if isinstance(key, str) else key, 32), A, state]

    def post(cx, st0, st, args, rv):
        c = cx.u["c"]
        new = changes(cx, c, cx.u["arg"])
        for f, v in new.items():
            g = getcfg(cx, st, f)
            yield "stored:%s" % f, peq(g, v) if isinstance(v, Ptr) else g == v
        yield from unchanged(cx, st, tuple(new))
        for f in FLAGS:
            s = cx.getf(st, cx.u["SET"], "config_names_t", f, I(8))
            yield "marked-as-set:%s" % f, s == 1 if f in sets else s == cx.u["set"][f]
        yield "inconsistent-values-do-not-pass", Not(cx.u["bad"])
        yield "accepted", rv == rv0
        if name == "end":
            yield "combination-checked", st.ghost["ended"]
    return Unit("cli_parse", "C17", pre, post, contracts=OPTK, name="cli_parse/" + name)


def P(which):
    return lambda cx, c, A: Not(pred_f(z3.StringVal(which), cx.u["argrow"], A.f))


def method(m, **more):
    return lambda cx, c, A: dict(method=c["method"] | m, **{k: (v(c, A) if callable(v) else v) for k, v in more.items()})


def num(cx, A):
    return num_f(cx.u["argrow"], A.f)


def numend(cx, A):
    n = numlen_f(cx.u["argrow"], A.f)
    return n, z3.Select(cx.u["argrow"], A.f + n)


FAMS = ["bn", "bls12", "bls24", "kss16", "kss18", "kss36", "kss40"]


def isfam(cx, A, i):
    return streq_f(cx.u["argrow"], A.f, z3.StringVal(FAMS[i]))


def fam_changes(cx, c, A):
    v = c["family"]
    for i in range(6, -1, -1):
        v = z3.If(isfam(cx, A, i), bv(i, 32), v)
    return dict(method=c["method"] | FAM, family=v)


KINDS = [("random", 2), ("prime", 0), ("all", 3), ("nonprime", 1), ("none", 4)]


def at_kind(cx, A, k):
    return prefix_f(cx.u["argrow"], A.f + numlen_f(cx.u["argrow"], A.f), z3.StringVal(k))


def points_changes(cx, c, A):
    v = c["ptype"]
    for k, x in reversed(KINDS):
        v = z3.If(at_kind(cx, A, k), bv(x, 32), v)
    return dict(ptype=v, pamount=num(cx, A))


def bits_changes(cx, c, A):
    b = num(cx, A)
    return dict(bits=b, hex_digits=2 * (z3.LShR(b, 3) + z3.If(b & 7 != 0, bv(1), bv(0))))


def bits_bad(cx, c, A):
    n, ch = numend(cx, A)
    return Or(n == 0, ch != 0)


def argno(cx):
    return cx.getf(cx.st0, cx.u["state"], "argp_state", "arg_num", I(32))


def auto(cx, A):
    return Or(streq_f(cx.u["argrow"], A.f, z3.StringVal("auto")), streq_f(cx.u["argrow"], A.f, z3.StringVal("AUTO")))


def threads_changes(cx, c, A):
    np = cx.u["nprocs"]
    return dict(threads=z3.If(auto(cx, A), z3.If(np > 0, np, c["threads"]), num(cx, A)))


UNITS += [
    option("fp", "fp", lambda cx, c, A: dict(field=c["field"] | 1), ["field"]),
    option("f2m", "f2m", lambda cx, c, A: dict(field=c["field"] | 2), ["field"]),
    option("invalid", "invalid", method(INVALID), ["method"], arg="none"),
    option("invalid=RANGE", "invalid", method(INVALID, invalid_primes=lambda c, A: A), ["method", "invalid_primes"], P("0123456789-")),
    option("order", "order", method(CM, cm_order=lambda c, A: A), ["method", "cm_order"], P("order")),
    option("anomalous", "anomalous", method(ANOM), ["method"], arg="none"),
    option("supersingular", "supersingular", method(SUPER), ["method"], arg="none"),
    option("twist", "twist", method(TWIST), ["method"], arg="none"),
    option("family", "family", fam_changes, ["method"], lambda cx, c, A: Not(Or(*[isfam(cx, A, i) for i in range(7)]))),
    option("nums", "nums", method(SEED, seed_algo=bv(5, 32)), ["method", "seed_algo"], arg="none"),
    option("random", "random", lambda cx, c, A: dict(random=bv(15, 32)), ["random"], arg="none"),
    option("count", "count", lambda cx, c, A: dict(count=num(cx, A)), ["count"]),
    option("prime", "prime", lambda cx, c, A: dict(prime=bv(1, 8)), ["prime"], arg="none"),
    option("smooth", "smooth", lambda cx, c, A: dict(smooth=bv(1, 8), smooth_value=num(cx, A)), ["smooth"]),
    option("cofactor", "cofactor", lambda cx, c, A: dict(cofactor=bv(1, 8), cofactor_value=num(cx, A)), ["cofactor"]),
    option("koblitz", "koblitz", lambda cx, c, A: dict(koblitz=bv(1, 8)), ["koblitz"], arg="none"),
    option("koblitz=A", "koblitz", lambda cx, c, A: dict(koblitz=bv(1, 8), koblitz_value=num(cx, A)), ["koblitz", "koblitz_value"],
           lambda cx, c, A: And(num(cx, A) != 0, num(cx, A) != 1)),
    option("unique", "unique", lambda cx, c, A: dict(unique=bv(1, 8)), ["unique"], arg="none"),
    option("metadata", "metadata", lambda cx, c, A: dict(metadata=bv(1, 8)), ["metadata"], arg="none"),
    option("points", "points", points_changes, ["points"], lambda cx, c, A: Not(Or(*[at_kind(cx, A, k) for k, _ in KINDS]))),
    option("input", "input", lambda cx, c, A: dict(input=A)),
    option("output", "output", lambda cx, c, A: dict(output=A)),
    option("append", "append", lambda cx, c, A: dict(append=bv(1, 8)), arg="none"),
    option("verbose", "verbose", lambda cx, c, A: dict(verbose=c["verbose"] + 1), arg="none"),
    option("verbose=FILE", "verbose", lambda cx, c, A: dict(verbose=c["verbose"] + 1, verbose_log=A)),
    option("data-dir", "data-dir", lambda cx, c, A: dict(datadir=A)),
    option("memory", "memory", lambda cx, c, A: dict(memory=sized_f(z3.StringVal("memory"), cx.u["argrow"], A.f))),
    option("thread-stack", "thread-stack", lambda cx, c, A: dict(thread_memory=sized_f(z3.StringVal("memory"), cx.u["argrow"], A.f))),
    option("timeout", "timeout", lambda cx, c, A: dict(timeout=sized_f(z3.StringVal("time"), cx.u["argrow"], A.f))),
    option("threads", "threads", threads_changes, bad=lambda cx, c, A: And(Not(auto(cx, A)), num(cx, A) == 0)),
    option("bits", 0, bits_changes, bad=lambda cx, c, A: Or(bits_bad(cx, c, A), z3.UGE(cx.u["argno"], bv(1, 32)))),
    option("end", 0x1000001, lambda cx, c, A: {}, arg="none"),
    option("unknown", 0x2000000, lambda cx, c, A: {}, arg="none", rv0=7),
]
for nm, al, acc in (("ansi", 1, "ansi"), ("brainpool", 2, "brainpool"), ("brainpool-rfc", 3, "brainpool")):
    UNITS.append(option(nm, nm, method(SEED, seed_algo=bv(al, 32)), ["method", "seed_algo"], arg="none"))
    UNITS.append(option(nm + "=SEED", nm, method(SEED, seed_algo=bv(al, 32), seed=lambda c, A: A), ["method", "seed_algo", "seed"], P(acc)))


def pre_none(cx, st):
    setup(cx, st)
    cx.u["records-failure"] = True
    cx.u["bad"] = TRUE
    st.ghost["failed"] = z3.BoolVal(False)
    return [bv(0x1000002, 32), Ptr(z3.IntVal(0)), obj(cx, st, "state")]


def post_none(cx, st0, st, args, rv):
    yield "a-bit-size-is-required", st.ghost["failed"]


UNITS.append(Unit("cli_parse", "C17", pre_none, post_none, contracts=OPTK, name="cli_parse/no bits"))
