"""C05: curve orders"""
import z3
from ..theory import *
from ..pari import *
from ..unit import Unit, curve_pre, obj, TRUE
from ..vcg import Ptr, And, Or, Not, Implies, bv, Forall, simp
from ..templates import visited

ULONG = ir.I(64)


def pre(kind=None):
    def p(cx, st):
        a = curve_pre(cx, st)
        if kind == "ulong":
            k = cx.load(st, cx.u["argsargs"], ULONG, check=False)
            cx.u["k"] = k
        cx.u["E"] = cx.u["curve.curve"]
        cx.u["n"] = card_s(val(cx.u["E"]))
        cx.assume(st, [notnull(cx.u["E"]), cx.u["E"].o >= 1])
        return a
    return p


def order_of(cx, st):
    return cx.getf(st, cx.u["curve"], "curve_t", "order")


def common(cx, st0, st, rv, exact):
    """success records `exact` as order, in the curve object too, and nothing else of the curve changes"""
    ok = rv > 0
    o = order_of(cx, st)
    yield "success-records-exact-order", Implies(ok, And(notnull(o), ival(o) == exact))
    E1 = cx.getf(st, cx.u["curve"], "curve_t", "curve")
    yield "curve-object-carries-order", Implies(ok, ival_f(ellcell(cx, st, cx.u["E"])) == exact)
    yield "other-fields-unchanged", And(*[peq(cx.getf(st, cx.u["curve"], "curve_t", f), cx.u["curve." + f])
                                          for f in ("seed", "field", "a", "b", "curve", "generators")])
    yield "failure-goes-back-to-an-earlier-stage", Implies(Not(ok), And(rv < 0, rv >= -5))


def post_any(cx, st0, st, args, rv):
    yield "succeeds", rv > 0
    yield from common(cx, st0, st, rv, cx.u["n"])


def post_sea(cx, st0, st, args, rv):
    yield from common(cx, st0, st, rv, cx.u["n"])


def post_prime(cx, st0, st, args, rv):
    n = cx.u["n"]
    yield from common(cx, st0, st, rv, n)
    yield "success-implies-prime-order", Implies(rv > 0, isprime_s(n))


def post_cofactor(cx, st0, st, args, rv):
    n, k = cx.u["n"], u2i(cx.u["k"])
    yield from common(cx, st0, st, rv, n)
    good = And(divides_f(k, n), isprime_s(quo(n, k)), k != 0)
    yield "success-implies-cofactor-times-prime", Implies(rv > 0, And(divides_f(k, n), isprime_s(quo(n, k)), mul(k, quo(n, k)) == n))
    yield "conforming-curve-accepted", Implies(good, rv > 0)


def smooth_ok(cx, n, i):
    return z3.ULE(blen_s(pf(n, i)), cx.u["k"])


def post_smooth(cx, st0, st, args, rv):
    n = cx.u["n"]
    yield from common(cx, st0, st, rv, n)
    yield "success-implies-smooth", Forall(BV64, lambda i: Implies(And(rv > 0, z3.UGE(i, bv(1)), z3.ULE(i, nfac(n))), smooth_ok(cx, n, i)), "idx")


UNITS = [
    Unit("order_gen_any", "C05", pre(), post_any),
    Unit("order_gen_sea", "C05", pre(), post_sea),
    Unit("order_gen_prime", "C05", pre(), post_prime),
    Unit("order_gen_cofactor", "C05", pre("ulong"), post_cofactor),
    Unit("order_gen_smooth", "C05", pre("ulong"), post_smooth,
         templates=[visited([("smooth", lambda s, k: Implies(And(z3.UGE(k, bv(1)), z3.ULE(k, nfac(CXN()))), z3.ULE(blen_s(pf(CXN(), k)), CXK())))])]),
]
_cur = {}


def CXN():
    return _cur["cx"].u["n"]


def CXK():
    return _cur["cx"].u["k"]


for u in UNITS:
    u.setup = lambda cx: _cur.__setitem__("cx", cx)
