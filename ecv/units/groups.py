"""C06, C07: subgroup generators and points"""
import z3
from ..theory import *
from ..theory import F
from ..pari import *
from .. import templates
from ..templates import visited
from ..unit import Unit, obj, curve_pre, TRUE
from ..vcg import fresh_name, Ptr, And, Or, Not, Implies, bv, Forall, simp, peq, Ite, isnull, notnull
from . import order as _order

I64 = ir.I(64)
# ---------------------------------------------------------------- mathematics
eord = F("eord_s", V, V, INT)            # order of a point of a curve
ellmul_s = F("ellmul_s", V, V, INT, V)   # multiple of a point
ngrp = F("ngrp_s", V, BV64)              # number of generators of the group of points (0, 1 or 2)
grp = F("grp_s", V, BV64, V)             # the i-th generator (1-based) of the group structure PARI computes
EXTRA_SCAN["eord_s"] = lambda apps, t: [And(a >= 1, divides_f(a, card_s(a.arg(0)))) for a in apps]
EXTRA_SCAN["ngrp_s"] = lambda apps, t: [z3.ULE(a, bv(2)) for a in apps]


def _grp(apps, t):
    """a group with one generator is generated by it"""
    return [Implies(And(ngrp(a.arg(0)) == 1, a.arg(1) == 1), eord(a.arg(0), a) == card_s(a.arg(0))) for a in apps]


def _ellmul(apps, t):
    """the multiple by k of a point whose order k divides has order (order / k)"""
    return [Implies(And(a.arg(2) >= 1, divides_f(a.arg(2), eord(a.arg(0), a.arg(1)))), eord(a.arg(0), a) == quo(eord(a.arg(0), a.arg(1)), a.arg(2))) for a in apps]


EXTRA_SCAN["grp_s"] = _grp
EXTRA_SCAN["ellmul_s"] = _ellmul


@C("ellff_get_gens")
def _gens(cx, st, a, ins):
    "generators of the group of points of the curve (one or two; none for a trivial group)"
    E = val(a[0])
    return vec(cx, st, ngrp(E), lambda i, e: And(val_f(e.o, e.f) == grp(E, i), e.o >= 1), name="gens")


@C("ellorder")
def _ellorder(cx, st, a, ins):
    "exact order of the point"
    return gint(cx, st, eord(val(a[0]), val(a[1])))


@C("ellmul")
def _ellmul_k(cx, st, a, ins):
    "multiple of the point"
    return gen(cx, st, ellmul_s(val(a[0]), val(a[1]), ival(a[2])))


# ---------------------------------------------------------------- C06
def pre(kind=None):
    def p(cx, st):
        a = curve_pre(cx, st)
        E, n = cx.u["curve.curve"], cx.u["curve.order"]
        cx.assume(st, And(notnull(E), E.o >= 1, notnull(n), n.o >= 1, ival(n) == card_s(val(E)), ival_f(tint(ival(n))) == ival(n)))
        cx.u.update(E=val(E), n=ival(n))
        if kind == "cofactor":
            cx.u["first"] = 1
            k = cx.load(st, cx.u["argsargs"], I64, check=False)
            cx.u["k"] = k
            # what order_gen_cofactor guarantees (C05)
            cx.assume(st, And(divides_f(u2i(k), ival(n)), k != 0))
        return a
    return p


def gen_ok(cx, st, k, v, arr=None):
    """generator k (0-based) of the curve is the point v with its order and cofactor"""
    c = cx.u["curve"]
    arr = arr or cx.getf(st, c, "curve_t", "generators")
    sub = rawptr(cx, st, arr, k * 8)
    g = cx.getf(st, sub, "subgroup_t", "generator")
    pt, od, cf = [cx.getf(st, g, "point_t", m) for m in ("point", "order", "cofactor")]
    E, n = cx.u["E"], cx.u["n"]
    d = eord(E, v)
    return And(sub.o >= cx.st0.next, g.o >= cx.st0.next, sub.o < st.next, g.o < st.next, val(pt) == v, ival(od) == d, ival(cf) == quo(n, d))


def put_inv(cx, info):
    c = cx.u["curve"]

    def arr(s):
        return cx.getf(s.st, c, "curve_t", "generators")
    lo = cx.u.get("first", 0)
    # the i-th generator (counted from one) has been stored in its place
    for v in templates.int_phis(info):
        if info.entry.phi[v].size() == 64:
            for nm, d in (("from1", 0), ("from0", 1)):
                yield "%s.stored.%s" % (info.canon[v], nm), (lambda s, v=v, d=d: Forall(BV64, lambda k: Implies(And(z3.UGE(k, bv(1)), z3.ULT(k, s.phi[v] + d)),
                                                                                          gen_ok(cx, s.st, k - 1 + lo, grp(cx.u["E"], k), arr(s))), "idx"))


def number(cx, st):
    return cx.getf(st, cx.u["curve"], "curve_t", "ngens", I64)


def frame(cx, st, rv):
    yield "other-fields-unchanged", And(*[peq(cx.getf(st, cx.u["curve"], "curve_t", f), cx.u["curve." + f]) for f in ("seed", "field", "a", "b", "curve", "order")])
    yield "rejected-curve-has-no-generators", Implies(rv <= 0, peq(cx.getf(st, cx.u["curve"], "curve_t", "generators"), cx.u["curve.generators"]))


def all_gens(cx, st, rv, first=0):
    k = z3.BitVec(fresh_name("k"), 64)
    cx.trigger(k, "idx")
    cx.trigger(k + 1, "idx")
    yield "every-generator-with-order-and-cofactor", Implies(And(rv > 0, z3.ULT(k, ngrp(cx.u["E"]))), gen_ok(cx, st, k + first, grp(cx.u["E"], k + 1)))
    yield "number-of-generators", Implies(rv > 0, number(cx, st) == ngrp(cx.u["E"]) + first)


def post_any(cx, st0, st, args, rv):
    yield "succeeds", rv > 0
    yield from all_gens(cx, st, rv)
    yield from frame(cx, st, rv)


def post_one(cx, st0, st, args, rv):
    E = cx.u["E"]
    yield "accepted-iff-cyclic", (rv > 0) == (ngrp(E) != 2)
    yield from all_gens(cx, st, rv)
    g = cx.getf(st, rawptr(cx, st, cx.getf(st, cx.u["curve"], "curve_t", "generators"), bv(0)), "subgroup_t", "generator")
    yield "generator-has-full-order", Implies(And(rv > 0, number(cx, st) == 1), ival(cx.getf(st, g, "point_t", "order")) == cx.u["n"])
    yield from frame(cx, st, rv)
    yield "rejection-draws-a-new-field-or-later", Implies(rv <= 0, And(rv < 0, rv >= -6))


def post_cofactor(cx, st0, st, args, rv):
    u, E, n, k = cx.u, cx.u["E"], cx.u["n"], u2i(cx.u["k"])
    c = u["curve"]
    sub = rawptr(cx, st, cx.getf(st, c, "curve_t", "generators"), bv(0))
    g = cx.getf(st, sub, "subgroup_t", "generator")
    pt, od, cf = [cx.getf(st, g, "point_t", m) for m in ("point", "order", "cofactor")]
    yield "first-generator-has-stated-order", Implies(rv > 0, And(eord(E, val(pt)) == quo(n, k), ival(od) == quo(n, k), ival(cf) == k))
    cx.trigger(bv(1), "idx")
    cx.trigger(bv(2), "idx")
    full = Or(*[And(z3.ULE(bv(i), ngrp(E)), Or(eord(E, grp(E, bv(i))) == n, eord(E, grp(E, bv(i))) == quo(n, k))) for i in (1, 2)])
    yield "curve-with-such-a-generator-accepted", Implies(full, rv > 0)
    yield from all_gens(cx, st, rv, 1)
    yield from frame(cx, st, rv)
    yield "rejection-draws-a-new-field-or-later", Implies(rv <= 0, And(rv < 0, rv >= -6))


def none_found(cx, info):
    E, n, k = cx.u["E"], cx.u["n"], u2i(cx.u["k"]) if "k" in cx.u else z3.IntVal(0)
    yield from visited([("none", lambda s, i: And(eord(E, grp(E, i)) != n, eord(E, grp(E, i)) != quo(n, k)))])(cx, info)


UNITS = [
    Unit("gens_gen_any", "C06", pre(), post_any, templates=[put_inv]),
    Unit("gens_gen_one", "C06", pre(), post_one, templates=[put_inv]),
    Unit("gens_gen_cofactor", "C06", pre("cofactor"), post_cofactor, templates=[put_inv, none_found]),
]


# ---------------------------------------------------------------- C07
insub = F("insub_s", V, V, V, BOOL)      # insub(E, G, P): P is a multiple of G
subidx = F("subidx", INT, BV64)          # which subgroup an object is (subgroups are different objects)
vecval = F("vec_of_orders", INT, INT, V)
nall = F("nall_s", INT, INT, BV64)       # number of divisors of n with more than m prime factors (with multiplicity)
alld = F("alld_s", INT, INT, BV64, INT)  # the i-th of them
LIMIT = bv(1 << 20)


def _mult(apps, t):
    out = []
    for a in apps:
        E, P, k = a.arg(0), a.arg(1), a.arg(2)
        out.append(insub(E, P, a))
        out.append(Implies(And(k >= 1, k < eord(E, P)), eord(E, a) >= 2))
        for q in t.get("iquo", []):
            n, d = q.arg(0), q.arg(1)
            out.append(Implies(And(k == q, n == eord(E, P), d >= 1, divides_f(d, n)), eord(E, a) == d))
    return out


EXTRA_SCAN["ellmul_s"] = lambda apps, t: _ellmul(apps, t) + _mult(apps, t)
EXTRA_SCAN["insub_s"] = lambda apps, t: [Implies(a.arg(1) == a.arg(2), a) for a in apps]
EXTRA_SCAN["nall_s"] = lambda apps, t: [z3.ULE(a, LIMIT) for a in apps]


def gtovec_k(cx, st, a, ins):
    "the vector of the components of a vector or column; one component for an integer"
    isint = vtyp(val(a[0])) == T_INT
    n0 = glen(cx, st, a[0])
    old, src = st.copy(), a[0]
    n = z3.If(isint, bv(1), n0)
    return vec(cx, st, n, lambda i, e: And(e.o >= 1, z3.If(isint, And(e.o == src.o, e.f == src.f), peq(e, rawptr(cx, old, src, i * bv(8))))), name="gtovec")


def pre_from(cx, st):
    g, o = obj(cx, st, "generator"), obj(cx, st, "orders")
    E = obj(cx, st, "E")
    pt, od = cx.getf(st, g, "point_t", "point"), cx.getf(st, g, "point_t", "order")
    n = glen(cx, st, o)
    s0 = st.copy()
    num = lambda k: ival(rawptr(cx, s0, o, k * 8 + 8))
    G = val(pt)
    cx.assume(st, And(z3.ULE(n, LIMIT), pt.o >= 1, od.o >= 1, ival(od) == eord(val(E), G)))
    cx.assume(st, Forall(BV64, lambda k: Implies(z3.ULT(k, n), And(num(k) >= 1, rawptr(cx, s0, o, k * 8 + 8).o >= 1)), "idx"))
    cx.u.update(g=g, o=o, E=val(E), G=G, n=n, num=num, ord=eord(val(E), G))
    return [E, g, o]


def pt_ok(cx, st, p, E, G, num):
    """p is a point of the subgroup generated by G, of exact order num, stated as such"""
    pt, od = cx.getf(st, p, "point_t", "point"), cx.getf(st, p, "point_t", "order")
    return And(p.o >= 1, insub(E, G, val(pt)), eord(E, val(pt)) == num, ival(od) == num)


def slot(cx, st, arr, k, E, G, num):
    p = rawptr(cx, st, arr, k * 8)
    return And(Implies(divides_f(num, eord(E, G)), And(pt_ok(cx, st, p, E, G, num), p.o < st.next, p.o >= cx.st0.next)), Implies(Not(divides_f(num, eord(E, G))), isnull(p)))


def from_inv(cx, info):
    u = cx.u
    objs = templates.outer_objs(info, "ptr.o")
    for n, (v, arr) in enumerate((v, Ptr(o)) for o in objs[:3] for v in templates.int_phis(info)):
        if info.entry.phi[v].size() == 64:
            yield "%s.filled%d" % (info.canon[v], n), (lambda s, v=v, arr=arr: Forall(BV64, lambda k: Implies(z3.ULT(k, u["n"]), And(
                Implies(z3.ULT(k, s.phi[v]), slot(cx, s.st, arr, k, u["E"], u["G"], u["num"](k))),
                Implies(z3.UGE(k, s.phi[v]), isnull(rawptr(cx, s.st, arr, k * 8))))), "idx"))


def post_from(cx, st0, st, args, rv):
    u = cx.u
    k = z3.BitVec(fresh_name("k"), 64)
    cx.trigger(k, "idx")
    yield "new-array", rv.o >= st0.next
    yield "one-point-per-order", Implies(z3.ULT(k, u["n"]), slot(cx, st, rv, k, u["E"], u["G"], u["num"](k)))
    yield "generator-unchanged", And(*[peq(cx.getf(st, u["g"], "point_t", m), cx.getf(st0, u["g"], "point_t", m)) for m in ("point", "order", "cofactor")])


def from_k(cx, st, a, ins):
    "array of points, one per order: of exactly that order in the generator's subgroup, none where the order does not divide (proved for the function itself)"
    E, g, o = a
    pt, od = cx.getf(st, g, "point_t", "point"), cx.getf(st, g, "point_t", "order")
    cx.oblige(st, ival(od) == eord(val(E), val(pt)), "generator-order-is-exact", "pre")
    r = gen(cx, st, name="points")
    st.next = simp(st.next + 1 + LIMITI)       # the points themselves
    n = glen(cx, st, o)
    s1, Ev, G = st.copy(), val(E), val(pt)
    s1.pc = TRUE
    num = lambda k: ival(rawptr(cx, s1, o, k * 8 + 8))
    k = z3.BitVec(fresh_name("k"), 64)
    cx.oblige(st, Implies(z3.ULT(k, n), num(k) >= 1), "orders-are-positive", "pre")
    cx.trigger(k, "idx")
    cx.trigger(k + 1, "idx")
    cx.assume(s1, Forall(BV64, lambda k: Implies(z3.ULT(k, n), slot(cx, s1, r, k, Ev, G, num(k))), "idx"))
    return r


LIMITI = z3.IntVal(1 << 20)


# ---- the orders asked for
def sub_prime(cx, st, a, ins):
    "the distinct primes dividing the order (proved for the function itself)"
    n = ival(a[0])
    return vec(cx, st, nfac(n), lambda i, e: And(e.o >= 1, ival(e) == pf(n, i)), name="primes")


def sub_more(m):
    def k(cx, st, a, ins):
        "every divisor of the order with more than %d prime factors, counted with multiplicity, once" % m
        n = ival(a[0])
        r = vec(cx, st, nall(n, z3.IntVal(m)), lambda i, e: And(e.o >= 1, ival(e) == alld(n, z3.IntVal(m), i)), name="divs")
        if m:
            return Ptr(z3.If(isprime_s(n), z3.IntVal(0), r.o), r.f)
        return r
    return k


EXTRA_SCAN["alld_s"] = lambda apps, t: [Implies(And(a.arg(0) >= 1, z3.UGE(a.arg(2), bv(1)), z3.ULE(a.arg(2), nall(a.arg(0), a.arg(1)))), And(divides_f(a, a.arg(0)), a >= 2)) for a in apps]
_nfac0 = EXTRA_SCAN["nfac"]
EXTRA_SCAN["nfac"] = lambda apps, t: _nfac0(apps, t) + [Implies(isprime_s(a.arg(0)), And(a == 1, pf(a.arg(0), bv(1)) == a.arg(0))) for a in apps]
SUBS = dict(subgroups_prime=sub_prime, subgroups_all=sub_more(0), subgroups_nonprime=sub_more(1))


def pre_sp(cx, st):
    n = obj(cx, st, "order")
    cx.assume(st, And(vtyp(val(n)) == T_INT, ival(n) >= 1))
    cx.u["n"] = ival(n)
    return [n]


def post_sp(cx, st0, st, args, rv):
    n = cx.u["n"]
    k = z3.BitVec(fresh_name("k"), 64)
    cx.trigger(k, "idx")
    cx.trigger(bv(1), "idx")
    yield "as-many-as-distinct-primes", And(notnull(rv), glen(cx, st, rv) == nfac(n))
    yield "the-primes", Implies(And(z3.UGE(k, bv(1)), z3.ULE(k, nfac(n))), ival(rawptr(cx, st, rv, k * 8)) == pf(n, k))


# ---- the stages
def pre_pts(kind=None):
    def p(cx, st):
        a = curve_pre(cx, st)
        c = cx.u["curve"]
        E, arr = cx.u["curve.curve"], cx.u["curve.generators"]
        n = cx.getf(st, c, "curve_t", "ngens", I64)
        nx = st.next
        s0 = st.copy()
        s0.pc = TRUE

        def sub(k):
            return rawptr(cx, s0, arr, k * 8)

        def gen_(k):
            return cx.getf(s0, sub(k), "subgroup_t", "generator")

        def gp(k):
            return val(cx.getf(s0, gen_(k), "point_t", "point"))
        cx.u.update(E=val(E), n=n, sub=sub, gen=gen_, gp=gp, s0=s0)
        for m, t in (("npoints", I64), ("points", ir.PTR)):
            cx.getf(s0, sub(bv(0)), "subgroup_t", m, t)
        cx.assume(st, And(notnull(E), E.o >= 1, E.o < nx, arr.o >= 1, arr.o < nx, arr.f == 0, z3.ULE(n, LIMIT), z3.UGE(n, bv(1))))

        def good(k):
            s, g = sub(k), gen_(k)
            od = cx.getf(s0, g, "point_t", "order")
            return Implies(z3.ULT(k, n), And(s.o >= 1, s.o < nx, s.f == 0, subidx(s.o) == k, g.o >= 1, g.o < nx, ival(od) == eord(val(E), gp(k)), ival(od) >= 2, od.o >= 1))
        cx.assume(st, Forall(BV64, good, "idx"))
        if kind == "amount":
            cx.u["amount"] = cx.load(st, cx.u["argsargs"], I64, check=False)
            cx.assume(st, z3.ULE(cx.u["amount"], LIMIT))
        return a
    return p


def np(cx, st, k):
    return cx.getf(st, cx.u["sub"](k), "subgroup_t", "npoints", I64)


def pts(cx, st, k):
    return cx.getf(st, cx.u["sub"](k), "subgroup_t", "points")


def listed(count, order, when=None):
    """subgroup k lists one point for each of the `count` orders"""
    def g(cx, st, k, x):
        u = cx.u
        n = eord(u["E"], u["gp"](k))
        c = count(n)
        w = when(n) if when else TRUE
        full = And(np(cx, st, k) == c, Implies(z3.ULT(x, c), And(pt_ok(cx, st, rawptr(cx, st, pts(cx, st, k), x * 8), u["E"], u["gp"](k), order(n, x + 1)))))
        bound = And(pts(cx, st, k).o < st.next, pts(cx, st, k).o >= cx.st0.next, rawptr(cx, st, pts(cx, st, k), x * 8).o < st.next)
        keep = And(np(cx, st, k) == np(cx, u["s0"], k), peq(pts(cx, st, k), pts(cx, u["s0"], k)))
        return And(Implies(w, And(full, Implies(z3.ULT(x, c), bound))), Implies(Not(w), keep))
    return g


def pts_inv(spec):
    def t(cx, info):
        u = cx.u
        x = u["x"]
        for v in templates.int_phis(info):
            if info.entry.phi[v].size() == 64:
                yield "%s.done" % info.canon[v], (lambda s, v=v: Forall(BV64, lambda k: Implies(And(z3.ULT(k, s.phi[v]), z3.ULT(k, u["n"])), spec(cx, s.st, k, x)), "idx"))
                yield "%s.todo" % info.canon[v], (lambda s, v=v: Forall(BV64, lambda k: Implies(And(z3.UGE(k, s.phi[v]), z3.ULT(k, u["n"])), And(
                    np(cx, s.st, k) == np(cx, u["s0"], k), peq(pts(cx, s.st, k), pts(cx, u["s0"], k)))), "idx"))
    return t


def setx(cx):
    cx.u["x"] = z3.BitVec("x!pt", 64)


def post_pts(spec):
    def p(cx, st0, st, args, rv):
        u = cx.u
        k = z3.BitVec(fresh_name("k"), 64)
        cx.trigger(k, "idx")
        cx.trigger(u["x"], "idx")
        cx.trigger(u["x"] + 1, "idx")
        yield "succeeds", rv > 0
        yield "one-point-per-order-asked-for", Implies(z3.ULT(k, u["n"]), spec(cx, st, k, u["x"]))
        yield "generators-unchanged", Implies(z3.ULT(k, u["n"]), And(peq(cx.getf(st, u["sub"](k), "subgroup_t", "generator"), u["gen"](k)), val(cx.getf(st, u["gen"](k), "point_t", "point")) == u["gp"](k)))
        yield "curve-unchanged", And(*[peq(cx.getf(st, u["curve"], "curve_t", f), u["curve." + f]) for f in ("seed", "field", "a", "b", "curve", "order", "generators")])
    return p


M0, M1 = z3.IntVal(0), z3.IntVal(1)
PRIME = listed(lambda n: nfac(n), lambda n, i: pf(n, i))
ALL = listed(lambda n: nall(n, M0), lambda n, i: alld(n, M0, i))
NONPRIME = listed(lambda n: nall(n, M1), lambda n, i: alld(n, M1, i), lambda n: Not(isprime_s(n)))
UNITS += [
    Unit("points_from_orders", "C07", pre_from, post_from, templates=[from_inv]),
    Unit("subgroups_prime", "C07", pre_sp, post_sp, contracts=dict(gtovec=gtovec_k)),
]
for f, sp in (("points_gen_prime", PRIME), ("points_gen_allgroups", ALL), ("points_gen_nonprime", NONPRIME)):
    UNITS.append(Unit(f, "C07", pre_pts(), post_pts(sp), templates=[pts_inv(sp)], contracts=dict(SUBS, points_from_orders=from_k), setup=setx))


# ---- random points
@C("random_range")
def _random_range(cx, st, a, ins):
    "an integer of [from, to)"
    lo, hi = ival(a[0]), ival(a[1])
    cx.oblige(st, lo < hi, "random-range-not-empty", "pre")
    r = z3.Int(fresh_name("rnd"))
    cx.fact(TRUE, And(r >= lo, Implies(lo < hi, r < hi)))
    return gint(cx, st, r)


def rnd_ok(cx, st, p, E, G):
    """p is a point of the subgroup, not the point at infinity, with its exact order"""
    pt, od = cx.getf(st, p, "point_t", "point"), cx.getf(st, p, "point_t", "order")
    return And(p.o >= 1, p.o < st.next, insub(E, G, val(pt)), eord(E, val(pt)) >= 2, ival(od) == eord(E, val(pt)))


def np0(cx, k):
    return np(cx, cx.u["s0"], k)


def pre_rnd(kind=None):
    def p(cx, st):
        a = pre_pts(kind)(cx, st)
        cx.assume(st, z3.ULE(cx.u["n"], bv(3)))
        for i in range(3):
            cx.trigger(bv(i), "idx")
        return a
    return p


def post_one_rnd(cx, st0, st, args, rv):
    u = cx.u
    k = z3.BitVec(fresh_name("k"), 64)
    cx.trigger(k, "idx")
    yield "succeeds", rv > 0
    hit = lambda k: And(np(cx, st, k) == 1, rnd_ok(cx, st, rawptr(cx, st, pts(cx, st, k), bv(0)), u["E"], u["gp"](k)))
    same = lambda k: And(np(cx, st, k) == np0(cx, k), peq(pts(cx, st, k), pts(cx, u["s0"], k)))
    yield "at-most-one-point-per-subgroup", Implies(z3.ULT(k, u["n"]), Or(hit(k), same(k)))
    yield "one-point-reported", Or(*[And(z3.ULT(bv(i), u["n"]), hit(bv(i))) for i in range(3)])
    yield "no-other-point", Or(*[And(*[Or(z3.UGE(bv(j), u["n"]), same(bv(j))) for j in range(3) if j != i]) for i in range(3)])


UNITS += [
    Unit("point_gen_random", "C07", pre_rnd(), post_one_rnd, setup=setx),
]
