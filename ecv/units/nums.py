"""C10: NUMS curves"""
import z3
from ..theory import *
from ..theory import F
from ..pari import *
from .. import templates
from ..unit import Unit, obj, curve_pre, TRUE
from ..vcg import fresh_name, Ptr, And, Or, Not, Implies, bv, Forall, simp, peq, Ite, isnull, notnull
from .groups import eord

I32, I64 = ir.I(32), ir.I(64)
nmod = F("modn_s", INT, INT, V)              # the residue of an integer modulo an integer
point_s = F("pointxy_s", V, V, V)            # the point with two coordinates
hasord = F("has_point_at_s", V, INT, BOOL)   # a point of the curve has this x coordinate
ordinate = F("ordinate_s", V, INT, BV64, V)  # its y coordinates (in the order PARI lists them)
res = F("residue_in_range_s", V, INT)        # representative of a residue in [0, p)
SEARCH = z3.Int("C0")                        # any number of the kind searched for


def gmodulo_k(cx, st, a, ins):
    "Mod(x, n)"
    return gen(cx, st, nmod(ival(a[0]), ival(a[1])))


def keep(cx, st, *but):
    names = [f for f in ("seed", "field", "a", "b", "curve", "order", "generators") if f not in but]
    return And(*[peq(cx.getf(st, cx.u["curve"], "curve_t", f), cx.u["curve." + f]) for f in names])


# ---------------------------------------------------------------- field
def pre_field(cx, st):
    a = curve_pre(cx, st)
    cfg = cx.load(st, cx.glob("cfg"), ir.PTR, check=False)
    cx.assume(st, And(cfg.o >= 1, cfg.o < st.next))
    n = u2i(cx.getf(st, cfg, "config_t", "bits", I64))
    cx.u["two_n"] = pow2(n)
    return a


def intphis(cx, info):
    """numbers held by pointers the loop changes"""
    return [d for d, v in info.entry.phi.items() if isinstance(v, Ptr)]


def inv_field(cx, info):
    N = cx.u["two_n"]
    for d in intphis(cx, info):
        n = info.canon[d]
        yield n + ".c1mod4", lambda s, d=d: And(ival(s.phi[d]) >= 1, ival(s.phi[d]) % 4 == 1)
        yield n + ".p", lambda s, d=d: And(N - ival(s.phi[d]) >= 1, (N - ival(s.phi[d])) % 4 == 1)
        for e in intphis(cx, info):
            if e != d:
                yield "%s+%s" % (n, info.canon[e]), lambda s, d=d, e=e: ival(s.phi[d]) == N - ival(s.phi[e])
        for q in (0, 1):
            yield "%s.smaller-c-composite%d" % (n, q), lambda s, d=d, q=q: Implies(And(SEARCH >= 1, SEARCH % 4 == 1, SEARCH + 4 * q <= ival(s.phi[d]) + 3 * (q - 1)), Not(isprime_s(N - SEARCH)))
        yield n + ".smaller-c-composite", lambda s, d=d: Implies(And(SEARCH >= 1, SEARCH % 4 == 1, SEARCH < ival(s.phi[d])), Not(isprime_s(N - SEARCH)))


def post_field(cx, st0, st, args, rv):
    N = cx.u["two_n"]
    p = ival(cx.getf(st, cx.u["curve"], "curve_t", "field"))
    c = N - p
    yield "succeeds", rv > 0
    yield "prime-of-the-form-2^n-c", And(isprime_s(p), c >= 1, c % 4 == 1)
    yield "largest-such-prime", Implies(And(SEARCH >= 1, SEARCH % 4 == 1, SEARCH < c), Not(isprime_s(N - SEARCH)))
    yield "nothing-else-changes", keep(cx, st, "field")


# ---------------------------------------------------------------- coefficients
def post_a(cx, st0, st, args, rv):
    yield "succeeds", rv > 0
    yield "a-is-minus-three", val(cx.getf(st, cx.u["curve"], "curve_t", "a")) == nmod(z3.IntVal(-3), ival(cx.u["curve.field"]))
    yield "nothing-else-changes", keep(cx, st, "a")


def pre_ab(cx, st):
    a = curve_pre(cx, st)
    f = cx.u["curve.field"]
    cx.assume(st, And(f.o >= 1, f.o < st.next))
    return a


def static(cx, func, base):
    """the file-scope variable of that name the function uses (linking renames variables of equal names)"""
    names = set()

    def walk(v):
        if isinstance(v, ir.Val):
            if v.k == "global" and (v.v == base or v.v.rpartition(".")[0] == base and v.v.rpartition(".")[2].isdigit()):
                names.add(v.v)
            elif v.k == "global" and v.v in cx.mod.funcs and v.v not in seen:
                body(v.v)
            walk(v.args)
        elif isinstance(v, (list, tuple)):
            for w in v:
                walk(w)
        elif isinstance(v, dict):
            walk(list(v.values()))
    seen = set()

    def body(f):
        seen.add(f)
        if f == func or f.startswith(func[:4]):
            ir.parse_body(cx.mod.funcs[f])
        for blk in cx.mod.funcs[f].blocks.values():
            for i in blk.ins:
                walk([i.ops, i.x])
    body(func)
    names = [n for n in names if n in cx.mod.globals]
    if len(names) != 1:
        raise ir.Unsupported("variable %s of %s: %r" % (base, func, sorted(names)))
    return cx.glob(names[0])


def pre_b(cx, st):
    a = pre_ab(cx, st)
    u, c = cx.u, cx.u["curve"]
    B, who = static(cx, "nums_gen_b", "b"), static(cx, "nums_gen_b", "curve_b")
    last, owner = cx.load(st, B, ir.PTR, check=False), cx.load(st, who, ir.PTR, check=False)
    n = ival(last)
    cx.assume(st, Or(isnull(last), And(last.o >= 1, last.o < st.next, n >= 1, n != 2)))
    cx.assume(st, Or(isnull(u["curve.b"]), u["curve.b"].o >= 1))
    # nothing is remembered for a curve that has no coefficient yet
    u.update(B=B, who=who, again=And(notnull(last), peq(owner, c), notnull(u["curve.b"])), last=n)
    return a


def post_b(cx, st0, st, args, rv):
    u = cx.u
    nb = z3.If(u["again"], z3.If(u["last"] == 1, z3.IntVal(3), u["last"] + 1), z3.IntVal(1))
    s = cx.load(st, u["B"], ir.PTR, check=False)
    yield "succeeds", rv > 0
    yield "b-starts-at-one-then-successive-integers", val(cx.getf(st, u["curve"], "curve_t", "b")) == nmod(nb, ival(u["curve.field"]))
    yield "last-b-remembered-for-this-curve", And(notnull(s), ival(s) == nb, peq(cx.load(st, u["who"], ir.PTR, check=False), u["curve"]))
    yield "nothing-else-changes", keep(cx, st, "b")


# ---------------------------------------------------------------- order
def pre_order(cx, st):
    a = pre_ab(cx, st)
    E = cx.u["curve.curve"]
    cx.assume(st, And(notnull(E), E.o >= 1))
    cx.u.update(E=E, n=card_s(val(E)), q=ival(cx.u["curve.field"]))
    return a


def post_order(cx, st0, st, args, rv):
    u = cx.u
    n, tw = u["n"], 2 * u["q"] + 2 - u["n"]
    o = cx.getf(st, u["curve"], "curve_t", "order")
    yield "accepted-only-with-prime-order-and-prime-twist-order", Implies(rv > 0, And(isprime_s(n), isprime_s(tw)))
    yield "order-recorded", Implies(rv > 0, And(notnull(o), ival(o) == n))
    yield "curve-object-carries-order", Implies(rv > 0, ival_f(ellcell(cx, st, u["E"])) == n)
    yield "rejection-goes-back-to-b", Implies(rv <= 0, rv == -2)
    yield "nothing-else-changes", And(keep(cx, st, "order"), Implies(rv <= 0, peq(o, u["curve.order"])))


# ---------------------------------------------------------------- generator
def ellordinate_k(cx, st, a, ins):
    "y coordinates of the points with this x coordinate (two or none: the order of the curve is an odd prime)"
    E, x = val(a[0]), ival(a[1])
    h = hasord(E, x)
    return vec(cx, st, z3.If(h, bv(2), bv(0)), lambda i, e: And(e.o >= 1, Implies(And(z3.UGE(i, bv(1)), z3.ULE(i, bv(2))), val_f(e.o, e.f) == ordinate(E, x, i))), name="ords")


def lift_k(cx, st, a, ins):
    "representative of a residue between 0 and p-1"
    return gint(cx, st, res(val(a[0])))


def mkvec2_k(cx, st, a, ins):
    "the vector of two components"
    r = gen(cx, st, point_s(val(a[0]), val(a[1])))
    setglen(cx, st, r, bv(2))
    setgel(cx, st, r, 1, a[0])
    setgel(cx, st, r, 2, a[1])
    return r


def pre_gens(cx, st):
    a = pre_order(cx, st)
    n = cx.u["curve.order"]
    cx.assume(st, And(notnull(n), n.o >= 1, ival(n) == cx.u["n"]))
    for i in (1, 2):
        cx.trigger(bv(i), "idx")
    st.ghost["x"] = z3.IntVal(0)
    return a


def inv_gens(cx, info):
    E = val(cx.u["E"])
    for d in intphis(cx, info):
        n = info.canon[d]
        x = lambda s, d=d: ival(s.phi[d])
        yield n + ".x", lambda s, x=x: x(s) >= 1
        yield n + ".smaller-x-has-no-point", lambda s, x=x: Implies(And(SEARCH >= 1, SEARCH < x(s)), Not(hasord(E, SEARCH)))
        for e in intphis(cx, info):
            if e != d:
                def ords(s, d=d, e=e):
                    v = s.phi[e]
                    h = hasord(E, ival(s.phi[d]))
                    return And(glen(cx, s.st, v) == z3.If(h, bv(2), bv(0)), v.o >= 1,
                               Implies(h, And(*[And(val(gel(cx, s.st, v, i)) == ordinate(E, ival(s.phi[d]), bv(i)), gel(cx, s.st, v, i).o >= 1) for i in (1, 2)])))
                yield "%s+%s.ordinates" % (n, info.canon[e]), ords


def post_gens(cx, st0, st, args, rv):
    u, c = cx.u, cx.u["curve"]
    E = val(u["E"])
    arr = cx.getf(st, c, "curve_t", "generators")
    g = cx.getf(st, rawptr(cx, st, arr, bv(0)), "subgroup_t", "generator")
    pt, od, cf = [cx.getf(st, g, "point_t", m) for m in ("point", "order", "cofactor")]
    yield "succeeds", rv > 0
    yield "one-generator", cx.getf(st, c, "curve_t", "ngens", I64) == 1
    at = lambda n: And(hasord(E, n), val(pt) == point_s(nmod(n, u["q"]), z3.If(res(ordinate(E, n, bv(1))) < res(ordinate(E, n, bv(2))), ordinate(E, n, bv(1)), ordinate(E, n, bv(2)))))
    xs = st.ghost["x"]
    yield "smallest-x-and-smaller-y", And(at(xs), xs >= 1, Implies(And(SEARCH >= 1, SEARCH < xs), Not(hasord(E, SEARCH))))
    yield "exact-order", ival(od) == eord(E, val(pt))
    yield "cofactor", ival(cf) == quo(u["n"], eord(E, val(pt)))
    yield "nothing-else-changes", keep(cx, st, "generators")


def modx(cx, st, a, ins):
    "Mod(x, n)"
    st.ghost["x"] = ival(a[0])      # the witness of the x coordinate
    return gmodulo_k(cx, st, a, ins)


MOD = dict(gmodulo=gmodulo_k)
UNITS = [
    Unit("nums_gen_field", "C10", pre_field, post_field, templates=[inv_field]),
    Unit("nums_gen_a", "C10", pre_ab, post_a, contracts=MOD),
    Unit("nums_gen_b", "C10", pre_b, post_b, contracts=MOD),
    Unit("nums_gen_order", "C10", pre_order, post_order),
    Unit("nums_gen_gens", "C10", pre_gens, post_gens, templates=[inv_gens], contracts=dict(gmodulo=modx, ellordinate=ellordinate_k, lift=lift_k, mkvec2=mkvec2_k)),
]
