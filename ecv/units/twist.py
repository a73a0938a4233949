"""C21, C22: curve construction, quadratic twists, metadata"""
import z3
from ..theory import *
from ..theory import F
from ..pari import *
from ..unit import Unit, obj, curve_pre, TRUE
from .tables import _gtovec0 as _
from ..vcg import Ptr, And, Or, Not, Implies, bv, Forall, simp, peq, Ite, isnull, notnull

I = ir.I
# ---------------------------------------------------------------- mathematics
twist_s = F("twist_s", V, V)                 # the quadratic twist (coefficient vector) of a curve
ell_s = F("ell_s", V, V, V)                  # curve with a coefficient vector over a field
ellshort = F("ellshort_s", V, V, V, V)       # y^2 = x^3 + a x + b over a field
ellbin = F("ellbin_s", V, V, V, V)           # y^2 + x y = x^3 + a x^2 + b over a field
singular_s = F("singular_s", V, BOOL)
acoef = {k: F(k + "_s", V, V) for k in ("a2", "a4", "a6", "j", "disc", "a1", "a3")}
ffmod_s = F("ffmod_s", V, V)
deg_s = F("deg_s", V, BV64)
zero_t, one_t = tint(z3.IntVal(0)), tint(z3.IntVal(1))


def qof(field):
    """number of elements of the field"""
    return z3.If(vtyp(field) == T_INT, ival_f(field), pow2(u2i(deg_s(ffmod_s(field)))))


def getter(n):
    def k(cx, st, a, ins):
        "the %s of the curve" % n
        return eitherold(cx, st, acoef[n](val(a[0])))
    return k


for _n in acoef:
    C("ell_get_" + _n, doc="the curve's " + _n)(getter(_n))


@C("elltwist")
def _elltwist(cx, st, a, ins):
    "coefficients of the quadratic twist of a curve over a finite field"
    cx.oblige(st, isnull(a[1]), "twist-over-the-curve's-own-field", "post")
    r = gen(cx, st, twist_s(val(a[0])))
    setglen(cx, st, r, bv(5))
    return r


@C("FF_mod")
def _ffmod(cx, st, a, ins):
    "modulus polynomial of a finite field element"
    return gen(cx, st, ffmod_s(val(a[0])))


@C("degree")
def _degree(cx, st, a, ins):
    "degree of a polynomial"
    r = deg_s(val(a[0]))
    cx.fact(TRUE, And(z3.ULE(bv(1), r), z3.ULE(r, bv(1 << 30))))
    return r


def ellinit_k(cx, st, a, ins):
    "the curve with the given coefficients over the given field (empty when singular)"
    v, f = a[0], a[1]
    n = glen(cx, st, v)
    e = [None] + [gel(cx, st, v, i) for i in range(1, 6)]
    for i in range(1, 6):
        cx.trigger(bv(i), "idx")
    w = z3.If(n == 2, ellshort(val(e[1]), val(e[2]), val(f)),
              z3.If(And(n == 5, val(e[1]) == one_t, val(e[3]) == zero_t, val(e[4]) == zero_t), ellbin(val(e[2]), val(e[5]), val(f)), ell_s(val(v), val(f))))
    r = gen(cx, st, w, "E")
    setglen(cx, st, r, z3.If(singular_s(w), bv(0), bv(16)))
    cx.u.setdefault("made", []).append(r)
    setellcell(cx, st, r, zero_t)     # nothing is known about the order of a new curve
    return r


def ellinit_twist(cx, st, a, ins):
    "the curve with the given coefficients over the given field"
    r = gen(cx, st, ell_s(val(a[0]), val(a[1])), "E")
    setglen(cx, st, r, bv(16))
    setellcell(cx, st, r, zero_t)
    return r


@C("pari_err_TYPE", "pari_err")
def _pari_err(cx, st, a, ins):
    "raises an error: does not return"
    cx.assume(st, z3.BoolVal(False))
    return None


# ---------------------------------------------------------------- twist_rand_to / twist_rand
def pre_to(alias):
    def p(cx, st):
        a = curve_pre(cx, st)
        of = cx.u["curve"]
        to = of if alias else obj(cx, st, "to")
        cx.u["to"] = to
        f, E = cx.u["curve.field"], cx.u["curve.curve"]
        cx.assume(st, And(notnull(f), f.o >= 1, notnull(E), E.o >= 1, Or(vtyp(val(f)) == T_INT, vtyp(val(f)) == T_FFELT)))
        cx.u["to.order"] = cx.getf(st, to, "curve_t", "order")
        if alias == "whole":
            cx.u["ngens"] = cx.getf(st, to, "curve_t", "ngens", I(64))
            return [of]
        return [to, of]
    return p


def post_to(cx, st0, st, args, rv):
    to, f, E, n = cx.u["to"], cx.u["curve.field"], cx.u["curve.curve"], cx.u["curve.order"]
    g = lambda m: cx.getf(st, to, "curve_t", m)
    Et = ell_s(twist_s(val(E)), val(f))
    yield "curve-is-the-twist", val(g("curve")) == Et
    yield "field-kept", val(g("field")) == val(f)
    prime = vtyp(val(f)) == T_INT
    yield "a-is-the-twist's", val(g("a")) == z3.If(prime, acoef["a4"](Et), acoef["a2"](Et))
    yield "b-is-the-twist's", val(g("b")) == acoef["a6"](Et)
    known = notnull(n)
    want = mul(qof(val(f)), z3.IntVal(2)) + 2 - ival(n)
    yield "known-order-becomes-the-twist's", Implies(known, And(notnull(g("order")), ival(g("order")) == want))
    yield "curve-object-carries-the-twist's-order", Implies(known, ival_f(ellcell(cx, st, g("curve"))) == want)
    yield "unknown-order-stays-unknown", Implies(Not(known), peq(g("order"), cx.u["to.order"]))


def null_handle(cx, st, a, ins):
    "releases the object and nulls the handle (proved in C18)"
    cx.store(st, a[0], Ptr(z3.IntVal(0)), ir.PTR, check=False)
    return None


def subgroups_handle(cx, st, a, ins):
    "releases all subgroups and their points and nulls the handle (proved in C18)"
    cx.oblige(st, a[1] == cx.u["ngens"], "all-subgroups-released", "post")
    return null_handle(cx, st, a, ins)


def post_rand(cx, st0, st, args, rv):
    yield from post_to(cx, st0, st, args, rv)
    yield "seed-does-not-survive", isnull(cx.getf(st, cx.u["to"], "curve_t", "seed"))
    yield "subgroups-do-not-survive", isnull(cx.getf(st, cx.u["to"], "curve_t", "generators"))


# ---------------------------------------------------------------- curve_gen_any, curve_gen_any_twist
def pre_gen(cx, st):
    a = curve_pre(cx, st)
    f = cx.u["curve.field"]
    for x in ("field", "a", "b"):
        p = cx.u["curve." + x]
        cx.assume(st, And(notnull(p), p.o >= 1))
    cx.u["ngens"] = cx.getf(st, cx.u["curve"], "curve_t", "ngens", I(64))
    prime = vtyp(val(f)) == T_INT
    cx.assume(st, Or(prime, vtyp(val(f)) == T_FFELT))
    cx.u["want"] = z3.If(prime, ellshort(val(cx.u["curve.a"]), val(cx.u["curve.b"]), val(f)), ellbin(val(cx.u["curve.a"]), val(cx.u["curve.b"]), val(f)))
    return a


def post_gen(cx, st0, st, args, rv):
    c = cx.u["curve"]
    E = cx.getf(st, c, "curve_t", "curve")
    w = cx.u["want"]
    yield "succeeds-exactly-on-nonsingular-coefficients", (rv > 0) == Not(singular_s(w))
    yield "curve-has-the-coefficients", Implies(rv > 0, And(notnull(E), val(E) == w))
    yield "singular-goes-back-to-an-earlier-stage", Implies(rv <= 0, And(rv >= -4, rv < 0))
    yield "nothing-else-changes", And(*[peq(cx.getf(st, c, "curve_t", f), cx.u["curve." + f]) for f in ("seed", "field", "a", "b", "order", "generators")])


gen_any_fail = z3.BitVec("gen_any_result", 32)


def gen_any_k(cx, st, a, ins):
    "contract of curve_gen_any (proved)"
    cx.oblige(st, peq(a[0], cx.u["curve"]), "generates-the-same-curve", "post")
    w = cx.u["want"]
    E = gen(cx, st, w)
    ok = Not(singular_s(w))
    old = cx.getf(st, a[0], "curve_t", "curve")
    cx.setf(st, a[0], "curve_t", "curve", Ite(ok, E, old))
    cx.fact(st.pc, And((gen_any_fail == 1) == ok, Implies(Not(ok), And(gen_any_fail < 0, gen_any_fail >= -4))))
    return gen_any_fail


def twist_rand_k(cx, st, a, ins):
    "contract of twist_rand (proved); an order of a rejected candidate must not be turned into that of the twist"
    E = cx.getf(st, a[0], "curve_t", "curve")
    n = cx.getf(st, a[0], "curve_t", "order")
    cx.oblige(st, peq(a[0], cx.u["curve"]), "twists-the-generated-curve", "post")
    cx.oblige(st, val(E) == cx.u["want"], "twists-the-generated-curve-object", "post")
    cx.oblige(st, Or(isnull(n), ival(n) == card_s(val(E))), "no-stale-order-is-twisted", "post")
    st.ghost["twisted"] = simp(z3.BoolVal(True))
    Et = ell_s(twist_s(val(E)), val(cx.getf(st, a[0], "curve_t", "field")))
    cx.setf(st, a[0], "curve_t", "curve", gen(cx, st, Et))
    for m in ("seed", "generators"):
        cx.setf(st, a[0], "curve_t", m, Ptr(z3.IntVal(0)))
    return None


def pre_gt(cx, st):
    a = pre_gen(cx, st)
    st.ghost["twisted"] = z3.BoolVal(False)
    return a


def post_gt(cx, st0, st, args, rv):
    ok = Not(singular_s(cx.u["want"]))
    yield "succeeds-exactly-on-nonsingular-coefficients", (rv > 0) == ok
    yield "success-means-twisted", Implies(rv > 0, st.ghost["twisted"])
    yield "failure-goes-back-to-an-earlier-stage", Implies(rv <= 0, And(rv >= -4, rv < 0))


def pre_nz(cx, st):
    a = curve_pre(cx, st)
    E = cx.u["curve.curve"]
    cx.assume(st, And(notnull(E), E.o >= 1))
    return a


def post_nz(cx, st0, st, args, rv):
    bad = iszero_v(acoef["disc"](val(cx.u["curve.curve"])))
    yield "accepts-exactly-nonzero-discriminants", (rv > 0) == Not(bad)
    yield "rejection-goes-back", Implies(bad, And(rv < 0, rv >= -4))


UNITS = [
    Unit("twist_rand_to", "C21", pre_to(False), post_to, contracts=dict(ellinit=ellinit_twist)),
    Unit("twist_rand_to", "C21", pre_to(True), post_to, contracts=dict(ellinit=ellinit_twist), name="twist_rand_to/in place"),
    Unit("twist_rand", "C21", pre_to("whole"), post_rand, contracts=dict(ellinit=ellinit_twist, seed_free=null_handle, subgroups_free_deep=subgroups_handle)),
    Unit("curve_gen_any", "C21", pre_gen, post_gen, contracts=dict(ellinit=ellinit_k)),
    Unit("curve_gen_any_twist", "C21", pre_gt, post_gt, contracts=dict(curve_gen_any=gen_any_k, twist_rand=twist_rand_k)),
    Unit("curve_check_nonzero", "C21", pre_nz, post_nz),
]

# ---------------------------------------------------------------- C22: metadata
embed_s = F("embedding_s", INT, INT, INT)
fund_s = F("is_fundamental", INT, BOOL)
coredisc_s, corecond_s = F("coredisc_s", INT, INT), F("corecond_s", INT, INT)
EXTRA_SCAN["coredisc_s"] = lambda apps, t: [And(fund_s(a), mul(a, mul(corecond_s(a.arg(0)), corecond_s(a.arg(0)))) == a.arg(0), corecond_s(a.arg(0)) >= 1) for a in apps]
EXTRA_SCAN["is_fundamental"] = lambda apps, t: []
EXTRA_SCAN["corecond_s"] = lambda apps, t: []


@C("coredisc2")
def _coredisc2(cx, st, a, ins):
    "[D, f] with x = D f^2, D a fundamental discriminant"
    n = ival(a[0])
    v = gen(cx, st)
    setglen(cx, st, v, bv(2))
    setgel(cx, st, v, 1, gint(cx, st, coredisc_s(n)))
    setgel(cx, st, v, 2, gint(cx, st, corecond_s(n)))
    return v


zord_s = F("zord_s", V, INT)
intmod_s = F("intmod_s", INT, INT, V)


@C("mkintmod")
def _mkintmod(cx, st, a, ins):
    "Mod(x, n)"
    r = gen(cx, st, intmod_s(ival(a[0]), ival(a[1])))
    return r


@C("gmodulo")
def _gmodulo(cx, st, a, ins):
    "Mod(x, n)"
    return gen(cx, st, intmod_s(ival(a[0]), ival(a[1])))


@C("znorder")
def _znorder(cx, st, a, ins):
    "multiplicative order of Mod(x, n)"
    return gint(cx, st, zord_s(val(a[0])))


def elementi_k(cx, st, a, ins):
    "the integer printed for a field element (proved in C14)"
    return gint(cx, st, ffint(val(a[0])))


def embedding_k(cx, st, a, ins):
    "contract of gens_get_embedding (proved): multiplicative order of q modulo n, 0 when equal"
    return gint(cx, st, embed_s(ival(a[0]), ival(a[1])))


META = ("j_invariant", "discriminant", "embedding_degree", "frobenius_trace", "cm_discriminant", "conductor")


def metaf(cx, st, m):
    return cx.load(st, Ptr(cx.u["curve"].o, cx.u["curve"].f, ("struct." + cx.structname("curve_t"), moff(cx, m))), ir.PTR, check=False)


def moff(cx, m):
    o = cx.mod.fieldnames["curve_t"]["meta"]
    return o + cx.mod.fieldnames["metadata_t"][m]


def pre_meta(cx, st):
    a = curve_pre(cx, st)
    for x in ("field", "curve", "order"):
        p = cx.u["curve." + x]
        cx.assume(st, And(notnull(p), p.o >= 1))
    for m in META:
        cx.u["old." + m] = metaf(cx, st, m)
    return a


def post_meta(cx, st0, st, args, rv):
    f, E, n = (cx.u["curve." + x] for x in ("field", "curve", "order"))
    prime, binary = vtyp(val(f)) == T_INT, vtyp(val(f)) == T_FFELT
    q = qof(val(f))
    ok = rv > 0
    g = lambda m: metaf(cx, st, m)
    yield "succeeds-on-prime-and-binary-fields", ok == Or(prime, binary)
    yield "j-invariant", Implies(ok, And(notnull(g("j_invariant")), ival(g("j_invariant")) == ffint(acoef["j"](val(E)))))
    yield "discriminant", Implies(ok, And(notnull(g("discriminant")), ival(g("discriminant")) == ffint(acoef["disc"](val(E)))))
    t = q + 1 - ival(n)
    yield "trace", Implies(ok, And(notnull(g("frobenius_trace")), ival(g("frobenius_trace")) == t))
    yield "embedding-degree", Implies(And(ok, prime), And(notnull(g("embedding_degree")), ival(g("embedding_degree")) == embed_s(ival(f), ival(n))))
    D = mul(t, t) - mul(q, z3.IntVal(4))
    d, c = ival(g("cm_discriminant")), ival(g("conductor"))
    yield "cm-discriminant-fundamental", Implies(And(ok, prime), And(notnull(g("cm_discriminant")), fund_s(d)))
    yield "t^2-4q = D f^2", Implies(And(ok, prime), And(notnull(g("conductor")), c >= 1, Or(imul(d, imul(c, c)) == D, imul(imul(c, c), d) == D)))
    yield "not-reported-over-binary-fields", Implies(And(ok, binary), And(*[isnull(g(m)) for m in ("embedding_degree", "cm_discriminant", "conductor")]))
    yield "nothing-else-changes", And(*[peq(cx.getf(st, cx.u["curve"], "curve_t", x), cx.u["curve." + x]) for x in ("seed", "field", "a", "b", "curve", "order", "generators")])


def pre_emb(cx, st):
    q, n = Ptr(z3.Int("q.o"), bv(0)), Ptr(z3.Int("n.o"), bv(0))
    cx.assume(st, And(q.o >= 1, n.o >= 1, vtyp(val(q)) == T_INT, vtyp(val(n)) == T_INT))
    cx.u["q"], cx.u["n"] = q, n
    return [q, n]


def post_emb(cx, st0, st, args, rv):
    q, n = cx.u["q"], cx.u["n"]
    yield "zero-exactly-when-equal", Implies(ival(q) == ival(n), ival(rv) == 0)
    yield "multiplicative-order", Implies(ival(q) != ival(n), ival(rv) == zord_s(intmod_s(ival(q), ival(n))))


UNITS += [
    Unit("metadata_gen", "C22", pre_meta, post_meta, contracts=dict(field_elementi=elementi_k, gens_get_embedding=embedding_k)),
    Unit("gens_get_embedding", "C22", pre_emb, post_emb),
]
