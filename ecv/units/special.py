"""C23: anomalous, supersingular, family and complex multiplication methods"""
import z3
from ..theory import *
from ..theory import F
from ..pari import *
from ..unit import Unit, obj, curve_pre, TRUE
from ..libc import literal
from .twist import intmod_s, acoef, twist_s, ell_s
from ..vcg import Ptr, And, Or, Not, Implies, bv, Forall, simp, peq, Ite, isnull, notnull

REAL = z3.RealSort()
# Residues are compared through a formal lift to a field of rational functions: equal lifts are equal residues.  Only
# identities of the code's values are derived from it (no order of the reals is used by the contracts).
resid = F("resid", V, REAL)
rint_f = F("rint", INT, REAL)
rinv_f = F("rinv", REAL, REAL)
vmodulus = F("vmodulus", V, INT)


EXTRA_SCAN["rint"] = lambda apps, t: [rint_f(z3.IntVal(n)) == n for n in set(x.as_long() for x in t.get("#int", [])) if abs(n) < 4096]


def rint(n):
    n = simp(n)
    return z3.RealVal(n.as_long()) if isnum(n) else rint_f(n)


def lift(p):
    """lift of a GEN: integers through their value, residues through their own lift"""
    v = val(p)
    return z3.If(vtyp(v) == T_INT, rint(ival_f(v)), resid(v))


def res_op(fn):
    def k(cx, st, a, ins):
        r = gen(cx, st, name="res")
        gs = [x for x in a if isinstance(x, Ptr)]
        cx.fact(TRUE, resid(val(r)) == fn(*a))
        isint = And(*[vtyp(val(g)) == T_INT for g in gs])
        cx.fact(TRUE, Implies(Not(isint), vtyp(val(r)) == T_INTMOD))
        cx.fact(TRUE, Implies(isint, And(vtyp(val(r)) == T_INT, rint_f(ival_f(val(r))) == fn(*a))))
        for g in gs:
            cx.fact(TRUE, Implies(vtyp(val(g)) == T_INTMOD, vmodulus(val(r)) == vmodulus(val(g))))
        return r
    return k


def fp_op(fn):
    def k(cx, st, a, ins):
        n = z3.Int(fresh_name("fp"))
        cx.fact(TRUE, rint_f(n) == fn(*a[:-1]))
        return gint(cx, st, n)
    return k


def rpow(x, n):
    n = simp(n)
    if not (z3.is_bv_value(n) and 0 <= n.as_long() <= 6):
        return z3.Real(fresh_name("pow"))
    r = z3.RealVal(1)
    for _ in range(n.as_long()):
        r = r * x
    return r


def intmod_k(cx, st, a, ins):
    "Mod(x, n)"
    v = intmod_s(ival(a[0]), ival(a[1]))
    cx.fact(TRUE, And(resid(v) == rint(ival(a[0])), vmodulus(v) == ival(a[1]), vtyp(v) == T_INTMOD))
    return gen(cx, st, v)


def _doc(k, d):
    k.__doc__ = d
    return k


RES = {n: _doc(res_op(f), d) for n, f, d in (
    ("gmul", lambda x, y: lift(x) * lift(y), "product"), ("gsqr", lambda x: lift(x) * lift(x), "square"),
    ("gpowgs", lambda x, n: rpow(lift(x), n), "power"), ("gdiv", lambda x, y: lift(x) * rinv_f(lift(y)), "quotient"),
    ("gneg", lambda x: -lift(x), "negation"), ("gadd", lambda x, y: lift(x) + lift(y), "sum"), ("gsub", lambda x, y: lift(x) - lift(y), "difference"),
    ("gmulgs", lambda x, n: lift(x) * rint(s2i(n)), "product"), ("gmulsg", lambda n, x: lift(x) * rint(s2i(n)), "product"),
    ("ginv", lambda x: rinv_f(lift(x)), "inverse"))}
RI = lambda x: rint(ival(x))
RES.update({n: _doc(fp_op(f), d + " modulo the last argument") for n, f, d in (
    ("Fp_mul", lambda x, y: RI(x) * RI(y), "product"), ("Fp_sqr", lambda x: RI(x) * RI(x), "square"), ("Fp_div", lambda x, y: RI(x) * rinv_f(RI(y)), "quotient"),
    ("Fp_sub", lambda x, y: RI(x) - RI(y), "difference"), ("Fp_add", lambda x, y: RI(x) + RI(y), "sum"), ("Fp_neg", lambda x: -RI(x), "negation"),
    ("Fp_inv", lambda x: rinv_f(RI(x)), "inverse"), ("Fp_mulu", lambda x, n: RI(x) * rint(u2i(n)), "product"))})
RES["gmodulo"] = RES["mkintmod"] = intmod_k

I = ir.I
kron_s = F("kron_s", INT, INT, BV64)
EXTRA_SCAN["kron_s"] = lambda apps, t: [Or(a == 0, a == 1, a == -1) for a in apps]
hilb_s = F("hilb_s", INT, V)                 # class polynomial of a discriminant
isroot_s = F("isroot_s", V, INT, INT, BOOL)  # root of a polynomial modulo a prime


@C("kronecker")
def _kronecker(cx, st, a, ins):
    "Kronecker symbol"
    return kron_s(ival(a[0]), ival(a[1]))


@C("nextprime")
def _nextprime(cx, st, a, ins):
    "smallest prime >= x"
    r = gint(cx, st, z3.Int(fresh_name("np")))
    cx.fact(TRUE, And(isprime_s(ival(r)), ival(r) >= ival(a[0])))
    return r


@C("polclass")
def _polclass(cx, st, a, ins):
    "class polynomial of a discriminant"
    return gen(cx, st, hilb_s(ival(a[0])))


@C("FpX_roots")
def _roots(cx, st, a, ins):
    "the roots of a polynomial modulo a prime"
    H, p = val(a[0]), ival(a[1])
    n = z3.BitVec(fresh_name("nroots"), 64)
    cx.fact(TRUE, z3.ULE(n, bv(1 << 20)))
    cx.trigger(bv(1), "idx")
    cx.u["nroots"] = n
    return vec(cx, st, n, lambda i, e: And(e.o >= 1, isroot_s(H, p, ival(e)), vtyp(val(e)) == T_INT, ival(e) >= 0, ival(e) < p), name="roots")


def low2(cx, ins, x):
    r = z3.BitVec(fresh_name("mod4"), ins.ty.n)
    cx.fact(TRUE, And(z3.ULE(r, bv(3, ins.ty.n)), r == z3.If(ibit(x, bv(0)), bv(1, ins.ty.n), bv(0, ins.ty.n)) + z3.If(ibit(x, bv(1)), bv(2, ins.ty.n), bv(0, ins.ty.n))))
    return r


@C("mod4")
def _mod4(cx, st, a, ins):
    "the lowest two bits"
    return low2(cx, ins, ival(a[0]))


@C("genrand")
def _genrand(cx, st, a, ins):
    "a random element / point of its argument"
    r = eitherold(cx, st, None)
    cx.fact(TRUE, vtyp(val(r)) == T_INT)
    cx.u["lastrand"] = val(r)
    return r


# ---------------------------------------------------------------- anomalous
def disc_row(cx, st, i):
    t = cx.load(st, cx.glob("disc_table"), ir.PTR, check=False)
    d = cx.load(st, Ptr(t.o, simp(t.f + i * bv(8))), ir.PTR, check=False)
    g = lambda m: cx.getf(st, d, "disc_t", m)
    return t, d, g


def pre_anom(cx, st):
    a = curve_pre(cx, st)
    cx.store(st, cx.glob("disc_table"), obj(cx, st, "DISC"), ir.PTR, check=False)    # an array of its own (anomalous_init)
    i = cx.load(st, cx.u["argsargs"], I(64), check=False)
    t, d, g = disc_row(cx, st, i)
    cx.u.update(d=g("d"), j=g("j"), alpha=g("alpha"))
    p = cx.u["curve.field"]
    cx.assume(st, And(notnull(t), notnull(d), *[And(notnull(x), x.o >= 1, vtyp(val(x)) == T_INT) for x in (g("d"), g("j"), g("alpha"), p)]))
    cx.u["p"] = ival(p)
    cx.assume(st, kron_s(ival(cx.u["alpha"]), cx.u["p"]) != 0)
    return a


def post_anom_eq(cx, st0, st, args, rv):
    c, p, j = cx.u["lastrand"], cx.u["p"], ival(cx.u["j"])
    A = cx.getf(st, cx.u["curve"], "curve_t", "a")
    B = cx.getf(st, cx.u["curve"], "curve_t", "b")
    al = ival(cx.u["alpha"])
    rc, rj = rint_f(ival_f(c)), rint(j)
    base = rj * rinv_f(rint(1728 - j))
    yield "succeeds", rv > 0
    yield "c-selects-the-twist-with-p-points", kron_s(ival_f(c), p) == -kron_s(al, p)
    yield "residues-modulo-the-field", And(vtyp(val(A)) == T_INTMOD, vmodulus(val(A)) == p, vtyp(val(B)) == T_INTMOD, vmodulus(val(B)) == p)
    yield "a = 3 c^2 j/(1728-j)", resid(val(A)) == 3 * rc * rc * base
    yield "b = 2 c^3 j/(1728-j)", resid(val(B)) == 2 * rc * rc * rc * base


def pre_order(cx, st):
    a = curve_pre(cx, st)
    for x in ("field", "curve"):
        p = cx.u["curve." + x]
        cx.assume(st, And(notnull(p), p.o >= 1))
    cx.assume(st, vtyp(val(cx.u["curve.field"])) == T_INT)
    cx.u["p"] = ival(cx.u["curve.field"])
    return a


def post_order(add):
    def p(cx, st0, st, args, rv):
        o = cx.getf(st, cx.u["curve"], "curve_t", "order")
        w = cx.u["p"] + add
        yield "succeeds", rv > 0
        yield "order-recorded", And(notnull(o), ival(o) == w)
        yield "curve-object-carries-order", ival_f(ellcell(cx, st, cx.u["curve.curve"])) == w
        yield "other-fields-unchanged", And(*[peq(cx.getf(st, cx.u["curve"], "curve_t", f), cx.u["curve." + f]) for f in ("seed", "field", "a", "b", "curve", "generators")])
    return p


# ---------------------------------------------------------------- supersingular
def post_super(cx, st0, st, args, rv):
    p = cx.u["p"]
    A, B = (cx.getf(st, cx.u["curve"], "curve_t", x) for x in "ab")
    ok = rv > 0
    im = lambda n: intmod_s(z3.IntVal(n) if isinstance(n, int) else n, p)
    p3 = And(ibit(p, bv(0)), ibit(p, bv(1)))     # p = 3 mod 4
    c1 = And(p3, val(A) == im(p - 1), val(B) == im(0))
    c2 = And(kron_s(p, z3.IntVal(3)) == -1, val(A) == im(0), val(B) == im(1))
    root = cx.u.get("root")
    c3 = z3.BoolVal(False)
    if root is not None:
        q, r = cx.u["q"], root
        ra = 27 * rint(r) * rinv_f(4 * (1728 - rint(r)))
        good = And(vtyp(val(A)) == T_INTMOD, vmodulus(val(A)) == p, vtyp(val(B)) == T_INTMOD, vmodulus(val(B)) == p, resid(val(A)) == ra, resid(val(B)) == -ra)
        c3 = And(ibit(q, bv(0)), ibit(q, bv(1)), isprime_s(q), kron_s(p, q) == -1, isroot_s(hilb_s(-q), p, r), good)
    yield "two-is-rejected", ok == (p != 2)
    yield "coefficients-of-a-supersingular-curve", Implies(ok, Or(c1, c2, c3))
    yield "rejection-goes-back", Implies(Not(ok), And(rv < 0, rv >= -3))


def polclass_super(cx, st, a, ins):
    "class polynomial of a discriminant"
    cx.u["q"] = -ival(a[0])
    return gen(cx, st, hilb_s(ival(a[0])))


def roots_super(cx, st, a, ins):
    "the roots of a polynomial modulo a prime (not empty for the class polynomial of -q, q = 3 mod 4 a prime inert at p)"
    r = _roots(cx, st, a, ins)
    cx.fact(TRUE, z3.UGE(cx.u["nroots"], bv(1)))
    e = gel(cx, st, r, 1)
    cx.u["root"] = ival(e)
    return r


EXTRA_SCAN["kron_s"] = lambda apps, t: [Or(a == 0, a == 1, a == -1) for a in apps]

def ptr_primes(cx, info):
    for p in info.phis:
        if p.ty.k == "ptr":
            yield "%s.prime" % info.canon[p.dst], (lambda s, d=p.dst: isprime_s(ival(s.phi[d])))


UNITS = [
    Unit("anomalous_gen_equation", "C23", pre_anom, post_anom_eq, contracts=RES),
    Unit("anomalous_gen_order", "C23", pre_order, post_order(0)),
    Unit("supersingular_gen_order", "C23", pre_order, post_order(1)),
    Unit("supersingular_gen_equation", "C23", pre_order, post_super, templates=[ptr_primes], contracts=dict(RES, polclass=polclass_super, FpX_roots=roots_super)),
]

# ---------------------------------------------------------------- families
fn_s = F("closure_s", V, V, V)


@C("closure_callgen1")
def _call1(cx, st, a, ins):
    "value of a GP function of one argument"
    return gen(cx, st, fn_s(val(a[0]), val(a[1])))


def pre_fam(cx, st):
    a = curve_pre(cx, st)
    c = obj(cx, st, "CFG")
    cx.store(st, cx.glob("cfg"), c, ir.PTR, check=False)
    fam = cx.getf(st, c, "config_t", "family", I(32))
    cx.assume(st, z3.ULE(fam, bv(6, 32)))
    cx.u["fam"] = fam
    off = z3.ZeroExt(32, fam) * bv(8)
    for s in ("nz", "pz", "rz", "D"):
        g = cx.glob(s + "_store")
        x = cx.load(st, Ptr(g.o, simp(g.f + off), g.tag), ir.PTR, check=False)
        cx.assume(st, And(notnull(x), x.o >= 1, x.o < 900000))
        cx.u[s] = x
    seed = cx.u["curve.seed"]
    cx.assume(st, And(notnull(seed), seed.o >= 1, seed.o < 900000, seed.f == 0))
    # the family's z lives in the seed's union
    z = cx.load(st, Ptr(seed.o, seed.f, ("struct." + cx.structname("seed_t"), famoff(cx))), ir.PTR, check=False)
    cx.u["z"] = z
    n = fn_s(val(cx.u["nz"]), val(z))
    cx.u["P"], cx.u["R"] = fn_s(val(cx.u["pz"]), n), fn_s(val(cx.u["rz"]), n)
    for x in ("field", "curve"):
        p = cx.u["curve." + x]
        cx.assume(st, And(notnull(p), p.o >= 1))
    return a


def famoff(cx):
    names = cx.mod.fieldnames["seed_t"]
    return names.get("family", names.get("brainpool"))


def post_fam_field(cx, st0, st, args, rv):
    P, R = cx.u["P"], cx.u["R"]
    f = cx.getf(st, cx.u["curve"], "curve_t", "field")
    good = And(vtyp(P) == T_INT, isprime_s(ival_f(P)), vtyp(R) == T_INT, isprime_s(ival_f(R)))
    yield "accepts-exactly-prime-field-and-prime-subgroup-size", (rv > 0) == good
    yield "field-is-the-family-polynomial-at-z", Implies(rv > 0, val(f) == P)
    yield "rejection-draws-another-z", Implies(rv <= 0, rv == -1)


def post_fam_order(cx, st0, st, args, rv):
    n, R = card_s(val(cx.u["curve.curve"])), ival_f(cx.u["R"])
    o = cx.getf(st, cx.u["curve"], "curve_t", "order")
    yield "accepts-exactly-orders-the-family-prime-divides", (rv > 0) == divides_f(R, n)
    yield "order-is-exact", Implies(rv > 0, And(notnull(o), ival(o) == n))
    yield "rejection-tries-the-next-coefficient", Implies(rv <= 0, And(rv < 0, rv >= -3))


def pre_fam_iter(cx, st):
    a = pre_fam(cx, st)
    b = cx.load(st, cx.glob("b"), ir.PTR, check=False)
    bc = cx.load(st, cx.glob("b_curve"), ir.PTR, check=False)
    cx.assume(st, And(b.o < 900000, vtyp(val(cx.u["curve.field"])) == T_INT))
    cx.u["bstat"], cx.u["bc"] = b, bc
    return a


def post_fam_iter(cx, st0, st, args, rv):
    c = cx.u["curve"]
    A, B = (cx.getf(st, c, "curve_t", x) for x in "ab")
    p = ival(cx.u["curve.field"])
    b0, b1 = cx.u["bstat"], cx.load(st, cx.glob("b"), ir.PTR, check=False)
    again = And(notnull(b0), peq(cx.u["bc"], c), notnull(cx.u["curve.b"]))
    want = z3.If(again, ival(b0) + 1, z3.IntVal(1))
    yield "succeeds", rv > 0
    yield "a-is-zero", And(notnull(A), val(A) == intmod_s(z3.IntVal(0), p))
    yield "b-starts-at-one-and-counts-up", And(notnull(B), val(B) == intmod_s(want, p))
    yield "next-call-continues", And(notnull(b1), ival(b1) == want, peq(cx.load(st, cx.glob("b_curve"), ir.PTR, check=False), c))


def construct_k(cx, st, a, ins):
    "contract of cm_construct_curve_subgroup (proved): NULL or a curve over the field whose order the given number divides"
    b = z3.Bool(fresh_name("constructed"))
    e = gen(cx, st)
    cx.fact(TRUE, Implies(b, divides_f(ival(a[0]), card_s(val(e)))))
    cx.u["args3"] = a
    cx.u["E"] = val(e)
    cx.u["made"] = b
    return Ite(b, e, Ptr(z3.IntVal(0)))


def post_fam_cm(cx, st0, st, args, rv):
    c = cx.u["curve"]
    r, D, p = cx.u["args3"]
    A, B = (cx.getf(st, c, "curve_t", x) for x in "ab")
    yield "with-the-family-prime-discriminant-and-field", And(val(r) == cx.u["R"], peq(D, cx.u["D"]), peq(p, cx.u["curve.field"]))
    yield "accepts-exactly-what-can-be-constructed", (rv > 0) == cx.u["made"]
    yield "coefficients-of-the-constructed-curve", Implies(rv > 0, And(val(A) == acoef["a4"](cx.u["E"]), val(B) == acoef["a6"](cx.u["E"])))
    yield "failure-goes-back", Implies(rv <= 0, And(rv < 0, rv >= -3))


UNITS += [
    Unit("family_gen_field", "C23", pre_fam, post_fam_field),
    Unit("family_gen_order", "C23", pre_fam, post_fam_order),
    Unit("family_gen_equation_iter", "C23", pre_fam_iter, post_fam_iter),
    Unit("family_gen_equation_cm", "C23", pre_fam, post_fam_cm, contracts=dict(cm_construct_curve_subgroup=construct_k)),
]

# ---------------------------------------------------------------- complex multiplication
fromj_s = F("fromj_s", V, V)
jroot_s = F("jroot_s", V, INT)            # integer j invariant a coefficient vector was made from
cmgood = F("cmgood_s", INT, INT, INT, BOOL)    # cmgood(N, D, p): 4p - (p+1-N)^2 = |D| y^2 for some y
over_s = F("over_s", V, V)                # base field of a curve
inf_s = F("inf_s", V, BOOL)
oncurve = F("oncurve_s", V, V, BOOL)


@C("ellfromj")
def _ellfromj(cx, st, a, ins):
    "coefficients of a curve with the given j invariant"
    v = fromj_s(val(a[0]))
    cx.fact(TRUE, jroot_s(v) == jint_s(val(a[0])))
    return gen(cx, st, v)


jint_s = F("jint_s", V, INT)


def mkmod_j(cx, st, a, ins):
    "Mod(x, n)"
    r = intmod_k(cx, st, a, ins)
    cx.fact(TRUE, jint_s(val(r)) == ival(a[0]))
    return r


mkmod_j.__doc__ = "Mod(x, n)"


def ellinit_cm(cx, st, a, ins):
    "the curve with the given coefficients; CM theory: with j a root (not 0, 1728) of the class polynomial of D and 4p-(p+1-N)^2 = |D| y^2 it has N or 2p+2-N points"
    N, D, p = cx.u["N"], cx.u["D"], cx.u["p"]
    v = ell_s(val(a[0]), val(a[1]))
    j = jroot_s(val(a[0]))
    n2 = 2 * p + 2 - N
    if N is not None:
        cx.fact(TRUE, Implies(And(ival(a[1]) == p, val(a[0]) == fromj_s(intmod_s(j, p)), isroot_s(hilb_s(D), p, j), cmgood(N, D, p), j != 0, j != mod(z3.IntVal(1728), p)),
                              Or(card_s(v) == N, card_s(v) == n2)))
    cx.fact(TRUE, over_s(v) == val(a[1]))
    r = gen(cx, st, v, "E")
    setellcell(cx, st, r, val(Ptr(z3.IntVal(900100))))
    return r


def elltwist_cm(cx, st, a, ins):
    "coefficients of the quadratic twist; the twist has 2q+2-n points"
    v = twist_s(val(a[0]))
    q = ival_f(over_s(val(a[0])))
    cx.fact(TRUE, Implies(vtyp(over_s(val(a[0]))) == T_INT, card_s(ell_s(v, over_s(val(a[0])))) == 2 * q + 2 - card_s(val(a[0]))))
    return gen(cx, st, v)


def genrand_pt(cx, st, a, ins):
    "a random point of the curve"
    r = eitherold(cx, st, None)
    cx.fact(TRUE, oncurve(val(r), val(a[0])))
    return r


@C("ell_is_inf")
def _isinf(cx, st, a, ins):
    "is the point the point at infinity (0 or 1)"
    return z3.If(inf_s(val(a[0])), bv(1, ins.ty.n), bv(0, ins.ty.n))


ptmul_s = F("ptmul_s", V, V, INT, V)


@C("ellmul")
def _ellmul(cx, st, a, ins):
    "multiple of a point"
    E, P, n = val(a[0]), val(a[1]), ival(a[2])
    r = ptmul_s(E, P, n)
    on = oncurve(P, E)
    cx.fact(TRUE, Implies(on, And(oncurve(r, E), Implies(n == card_s(E), inf_s(r)),
                                  Implies(And(inf_s(r), Not(inf_s(P)), isprime_s(n)), divides_f(n, card_s(E))))))
    return gen(cx, st, r)


@C("modsi")
def _modsi(cx, st, a, ins):
    "x mod y"
    return gint(cx, st, mod(s2i(a[0]), ival(a[1])))


def dbg(cx, st, a, ins):
    "diagnostic output"
    return cx.fresh(ins.ty, "dbg") if ins.ty.k != "void" else None


def mkvec2(cx, st, a, ins):
    "a vector of two components"
    r = gen(cx, st, name="vec2")
    setglen(cx, st, r, bv(2))
    setgel(cx, st, r, 1, a[0])
    setgel(cx, st, r, 2, a[1])
    return r


@C("gtovec")
def _gtovec(cx, st, a, ins):
    "the value as a vector"
    return gen(cx, st)


@C("checkell")
def _checkell(cx, st, a, ins):
    "raises an error when the argument is not a curve"
    return None


CM = dict(RES, mkintmod=mkmod_j, ellinit=ellinit_cm, genrand=genrand_pt, mkvec2=mkvec2, elltwist=elltwist_cm)


@C("_setjmp", "setjmp", "__sigsetjmp", cat="libc")
def _setjmp(cx, st, a, ins):
    "0, or nonzero when an error was raised since"
    return z3.BitVec(fresh_name("setjmp"), ins.ty.n)


@C("pari_err_last")
def _err_last(cx, st, a, ins):
    "the last error"
    return eitherold(cx, st, None)


def pre_cc(prime):
    def p(cx, st):
        n, d, p = (Ptr(z3.Int(x + ".o"), bv(0)) for x in ("order", "d", "p"))
        for x in (n, d, p):
            cx.assume(st, And(x.o >= 1, x.o < 900000, vtyp(val(x)) == T_INT))
        N, P = ival(n), ival(p)
        cx.u.update(N=N, D=ival(d), p=P, pv=val(p))
        cx.assume(st, And(N >= 1, isprime_s(P), cmgood(N, ival(d), P), P > 3))
        a = [n, d, p]
        if prime is not None:
            if prime:
                cx.assume(st, isprime_s(N))
                # Hasse: a prime order divides the other order only when both are equal
                cx.assume(st, Implies(divides_f(N, 2 * P + 2 - N), N == 2 * P + 2 - N))
            a.append(z3.BoolVal(prime))
        return a
    return p


def post_cc(cx, st0, st, args, rv):
    yield "constructed-curve-has-exactly-the-requested-order", Implies(notnull(rv), card_s(val(rv)) == cx.u["N"])
    yield "over-the-given-field", Implies(notnull(rv), over_s(val(rv)) == cx.u["pv"])


def post_sub(cx, st0, st, args, rv):
    yield "constructed-curve-has-an-order-divisible-by-r", Implies(notnull(rv), divides_f(cx.u["N"], card_s(val(rv))))
    yield "over-the-given-field", Implies(notnull(rv), over_s(val(rv)) == cx.u["pv"])


UNITS += [
    Unit("cm_construct_curve", "C23", pre_cc(True), post_cc, contracts=CM, templates=[], name="cm_construct_curve/prime order"),
    Unit("cm_construct_curve", "C23", pre_cc(False), post_cc, contracts=CM, name="cm_construct_curve/composite order"),
    Unit("cm_construct_curve_subgroup", "C23", pre_cc(None), post_sub, contracts=CM),
]


# ---------------------------------------------------------------- the curve stage of the method
def construct_full(prime):
    def k(cx, st, a, ins):
        "contract of cm_construct_curve (proved): NULL or a curve over p with exactly N points, provided 4p-(p+1-N)^2 = |D| y^2"
        N, D, p = ival(a[0]), ival(a[1]), ival(a[2])
        cx.oblige(st, And(cmgood(N, D, p), isprime_s(p)), "discriminant-fits-order-and-field", "post")
        w = a[3] if z3.is_bool(a[3]) else a[3] != 0
        cx.oblige(st, w == z3.BoolVal(prime), "method-fits-the-order", "post")
        b = z3.Bool(fresh_name("constructed"))
        e = gen(cx, st)
        cx.fact(TRUE, Implies(b, And(card_s(val(e)) == N, over_s(val(e)) == val(a[2]))))
        return Ite(b, e, Ptr(z3.IntVal(0)))
    return k


def qdisc_k(struct, order):
    def k(cx, st, a, ins):
        "contract of the discriminant search (proved): a prime p and D with 4p-(p+1-N)^2 = |D| y^2"
        N = ival(order(cx, st, a))
        p, d = gint(cx, st, z3.Int(fresh_name("p"))), gint(cx, st, z3.Int(fresh_name("D")))
        cx.fact(TRUE, And(isprime_s(ival(p)), cmgood(N, ival(d), ival(p))))
        if struct == "cm_any_qdisc_t":
            cx.setf(st, a[0], struct, "p", p)
            cx.setf(st, a[0], struct, "d", d)
        else:
            cx.setf(st, a[0], struct, "p", p)
            cx.setf(st, a[0], struct, "D", d)
            cx.setf(st, a[0], struct, "r", gen(cx, st))
            cx.setf(st, a[0], struct, "i", gen(cx, st))
        return None
    return k


def pre_cmgen(prime):
    def p(cx, st):
        a = curve_pre(cx, st)
        N = strint(cx, st, cx.u["argsargs"])
        cx.u["N"] = N
        cx.assume(st, N >= 1)
        if prime:
            cx.assume(st, isprime_s(N))
        return a
    return p


def post_cmgen(cx, st0, st, args, rv):
    g = lambda m: cx.getf(st, cx.u["curve"], "curve_t", m)
    E = g("curve")
    ok = rv > 0
    yield "curve-has-exactly-the-requested-order", Implies(ok, And(notnull(E), card_s(val(E)) == cx.u["N"]))
    yield "field-and-coefficients-are-the-curve's", Implies(ok, And(notnull(g("field")), val(g("field")) == over_s(val(E)), val(g("a")) == acoef["a4"](val(E)), val(g("b")) == acoef["a6"](val(E))))
    yield "failure-goes-back", Implies(Not(ok), And(rv < 0, rv >= -4))


def post_cmorder(cx, st0, st, args, rv):
    o = cx.getf(st, cx.u["curve"], "curve_t", "order")
    yield "succeeds", rv > 0
    yield "order-is-the-requested-one", And(notnull(o), ival(o) == cx.u["N"])


def opaque(cx, st, a, ins):
    "some value (only bounds of a search depend on it)"
    return gen(cx, st)


OPAQUE = {n: opaque for n in "glog ground gceil gfloor gsqrt quadpoly Buchall gtovec0".split()}


# ---------------------------------------------------------------- discriminant searches
alphavec = F("alpha_norm_s", V, INT)      # norm of an algebraic integer
kdisc = F("kdisc_s", V, INT)              # discriminant of a quadratic field
poly_disc = F("poly_disc_s", V, INT)


def quadpoly_k(cx, st, a, ins):
    "polynomial defining the quadratic order of a discriminant"
    r = gen(cx, st)
    cx.fact(TRUE, kdisc(val(r)) == ival(a[0]))
    return r


def buchall_k(cx, st, a, ins):
    "the number field defined by a polynomial"
    r = gen(cx, st)
    cx.fact(TRUE, kdisc(val(r)) == kdisc(val(a[0])))
    return r


def intnorm_k(cx, st, a, ins):
    "algebraic integers of the given norm"
    n = z3.BitVec(fresh_name("nalpha"), 64)
    cx.fact(TRUE, z3.ULE(n, bv(1 << 20)))
    N, K = ival(a[1]), val(a[0])
    return vec(cx, st, n, lambda i, e: And(e.o >= 1, alphavec(val(e)) == N, alpha_in(val(e)) == K), name="alphas")


alpha_in = F("alpha_field_s", V, V)


def nftrace_k(cx, st, a, ins):
    "trace t of an integer of norm N in the order of discriminant D: 4N - t^2 = |D| y^2, that is cmgood(N, D, N+1-t)"
    K, al = val(a[0]), val(a[1])
    t = gint(cx, st, z3.Int(fresh_name("trace")))
    cx.fact(TRUE, Implies(alpha_in(al) == K, cmgood(alphavec(al), kdisc(K), alphavec(al) + 1 - ival(t))))
    return t


def quaddisc_k(cx, st, a, ins):
    "discriminant of the quadratic field of a number"
    return gint(cx, st, z3.Int(fresh_name("D")))


def pre_minimal(cx, st):
    q = obj(cx, st, "qdisc")
    n = Ptr(z3.Int("order.o"), bv(0))
    cx.assume(st, And(n.o >= 1, n.o < 900000, vtyp(val(n)) == T_INT))
    cx.u["q"], cx.u["N"] = q, ival(n)
    return [q, n]


def post_minimal(cx, st0, st, args, rv):
    p, d = cx.getf(st, cx.u["q"], "cm_any_qdisc_t", "p"), cx.getf(st, cx.u["q"], "cm_any_qdisc_t", "d")
    yield "prime-field", And(notnull(p), isprime_s(ival(p)))
    yield "discriminant-fits-order-and-field", And(notnull(d), cmgood(cx.u["N"], ival(d), ival(p)))


def cornacchia_k(cx, st, a, ins):
    "x^2 + d y^2 = 4 n: p = n+1+-x has 4p - (p+1-n)^2 = 4n - x^2 = d y^2, that is cmgood(n, -d, p)"
    b = z3.Bool(fresh_name("cornacchia"))
    d, n = ival(a[0]), ival(a[1])
    x, y = gint(cx, st, z3.Int(fresh_name("x"))), gint(cx, st, z3.Int(fresh_name("y")))
    cx.fact(TRUE, Implies(b, And(cmgood(n, -d, n + 1 + ival(x)), cmgood(n, -d, n + 1 - ival(x)))))
    cx.store(st, a[2], x, ir.PTR, check=False)
    cx.store(st, a[3], y, ir.PTR, check=False)
    return truthy(cx, b, ins.ty.n)


def mod4_k(cx, st, a, ins):
    "the lowest two bits of |x|"
    r = low2(cx, ins, ival(a[0]))
    n = ival(a[0])
    m = mod(n, z3.IntVal(8))
    ri = u2i(r)
    cx.fact(TRUE, Implies(n >= 0, Or(m == ri, m == ri + 4)))
    return r


def add_primes_k(cx, st, a, ins):
    "collects further primes (which discriminants are tried depends on it, not which are accepted)"
    p = Ptr(cx.alloc(st, name="Sp"))
    cx.store(st, a[2], p, ir.PTR, check=False)
    return z3.BitVec(fresh_name("nprimes"), 64)


def bits_some(cx, st, a, ins):
    "a new bit string"
    return Ptr(cx.alloc(st, name="bits"))


def pre_next(cx, st):
    q = obj(cx, st, "qdisc")
    n = cx.getf(st, q, "cm_prime_qdisc_t", "order")
    cx.assume(st, And(n.o >= 1, n.o < 900000, vtyp(val(n)) == T_INT))
    for m in ("r", "i"):
        x = cx.getf(st, q, "cm_prime_qdisc_t", m)
        cx.assume(st, And(x.o >= 1, vtyp(val(x)) == T_INT))
    cx.u["q"], cx.u["N"], cx.u["order"] = q, ival(n), n
    return [q]


def post_next(cx, st0, st, args, rv):
    g = lambda m: cx.getf(st, cx.u["q"], "cm_prime_qdisc_t", m)
    yield "prime-field", And(notnull(g("p")), isprime_s(ival(g("p"))))
    yield "discriminant-fits-order-and-field", And(notnull(g("D")), cmgood(cx.u["N"], ival(g("D")), ival(g("p"))))
    yield "negative-discriminant", ival(g("D")) < 0
    yield "order-kept", peq(g("order"), cx.u["order"])


def kept_values(cx, info):
    """a variable whose address is taken keeps its value (though possibly not its address)"""
    seen = []
    for o in info.written.get("ptr.o", []):
        if o is None or any(o.eq(x) for x in seen) or any(o.eq(a) for a in info.allocs):
            continue
        seen.append(o)
        s0 = info.entry.st
        e = val(Ptr(z3.Select(z3.Select(cx.getmem(s0, "ptr.o"), o), bv(0)), z3.Select(z3.Select(cx.getmem(s0, "ptr.f"), o), bv(0))))

        def at(s, o=o):
            return Ptr(z3.Select(z3.Select(cx.getmem(s.st, "ptr.o"), o), bv(0)), z3.Select(z3.Select(cx.getmem(s.st, "ptr.f"), o), bv(0)))
        yield "cell%d.value" % len(seen), (lambda s, e=e, at=at: val(at(s)) == e)


def pre_anom_field(cx, st):
    a = pre_anom(cx, st)
    c = obj(cx, st, "CFG")
    cx.store(st, cx.glob("cfg"), c, ir.PTR, check=False)
    return a


def post_anom_field(cx, st0, st, args, rv):
    p = cx.getf(st, cx.u["curve"], "curve_t", "field")
    D, b = ival(cx.u["d"]), ival_f(cx.u["lastrand"])
    yield "succeeds", rv > 0
    yield "prime-field", And(notnull(p), isprime_s(ival(p)))

    yield "4p = 1 + D(2b+1)^2", ival(p) == mul(mul(D, b), b) + mul(D, b) + quo(D + 1, z3.IntVal(4))


UNITS += [
    Unit("cm_gen_curve_prime", "C23", pre_cmgen(True), post_cmgen, contracts=dict(CM, qdisc_next=qdisc_k("cm_prime_qdisc_t", lambda cx, st, a: cx.getf(st, a[0], "cm_prime_qdisc_t", "order")), cm_construct_curve=construct_full(True))),
    Unit("cm_gen_curve_any", "C23", pre_cmgen(False), post_cmgen, contracts=dict(CM, good_qdisc_minimal=qdisc_k("cm_any_qdisc_t", lambda cx, st, a: a[1]), cm_construct_curve=construct_full(False))),
    Unit("cm_gen_order", "C23", pre_cmgen(False), post_cmorder),
    Unit("good_qdisc_minimal", "C23", pre_minimal, post_minimal, contracts=dict(CM, quadpoly=quadpoly_k, Buchall=buchall_k, bnfisintnorm=intnorm_k, nftrace=nftrace_k, quaddisc=quaddisc_k)),
    Unit("qdisc_next", "C23", pre_next, post_next, contracts=dict(CM, **dict(OPAQUE, cornacchia2=cornacchia_k, mod4=mod4_k, add_primes=add_primes_k, bits_from_i_len=bits_some))),
    Unit("anomalous_gen_field", "C23", pre_anom_field, post_anom_field, templates=[kept_values], contracts=dict(CM, genrand=_genrand, **OPAQUE)),
]


@C("issquarefree")
def _issquarefree(cx, st, a, ins):
    "squarefreeness"
    return rbool(cx, ins, z3.Bool(fresh_name("sqfree")))
