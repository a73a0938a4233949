"""Assumed contracts of libpari functions (one place, one line of meaning each).  Every contract used in a run is listed
in the evidence file as an assumption."""
import z3
from .theory import *
from .theory import F, C
from .vcg import peq

TRUE = z3.BoolVal(True)

# ---------------------------------------------------------------- mathematics (uninterpreted)
card_s = F("card", V, INT)                 # number of points of a curve
nfac = F("nfac", INT, BV64)                # number of distinct primes
pf = F("pf", INT, BV64, INT)               # i-th distinct prime (ascending), 1-based
pfe = F("pfe", INT, BV64, INT)             # its exponent
blen_s = F("bitlen_s", INT, BV64)          # number of binary digits of |n| (0 for 0)
gcd_s = F("gcd_s", INT, INT, INT)
iszero_v = F("iszero_v", V, BOOL)
geq_v = F("geq_v", V, V, BOOL)
ffint = F("ffint", V, INT)                 # integer representation of a field element
corev = F("core_s", INT, INT)


def rbool(cx, ins, b, name="b"):
    return truthy(cx, b, ins.ty.n, name)


# ---------------------------------------------------------------- raw accessors (prelude macros)
@C("ecv_typ")
def _typ(cx, st, a, ins):
    "typ(x): the type code of the value"
    r = vtyp(val(a[0]))
    return r


@C("ecv_lg")
def _lg(cx, st, a, ins):
    "lg(x) = number of components + 1"
    return simp(glen(cx, st, a[0]) + 1)


@C("glength")
def _glength(cx, st, a, ins):
    "glength(x): number of components"
    return glen(cx, st, a[0])


@C("ecv_signe")
def _signe(cx, st, a, ins):
    "signe(x) of a t_INT: -1, 0, 1"
    n = ival(a[0])
    r = z3.BitVec(fresh_name("signe"), 64)
    cx.fact(TRUE, r == z3.If(n < 0, bv(-1), z3.If(n == 0, bv(0), bv(1))))
    return r


@C("ecv_isclone")
def _isclone(cx, st, a, ins):
    "isclone(x): unconstrained predicate of the address"
    return z3.If(isclone_f(a[0].o, a[0].f), bv(1), bv(0))


# ---------------------------------------------------------------- integers
def ibin(fn):
    def k(cx, st, a, ins):
        return gint(cx, st, fn(*a))
    return k


def _reg_int():
    A = lambda names, fn, doc: [CONTRACTS.__setitem__(n, ibin(fn)) or META.__setitem__(n, ("pari", doc)) for n in names.split()]
    A("addii", lambda x, y: ival(x) + ival(y), "x+y")
    A("subii", lambda x, y: ival(x) - ival(y), "x-y")
    A("mulii", lambda x, y: mul(ival(x), ival(y)), "x*y")
    A("sqri", lambda x: mul(ival(x), ival(x)), "x^2")
    A("negi mpneg", lambda x: -ival(x), "-x")
    A("absi mpabs", lambda x: z3.If(ival(x) < 0, -ival(x), ival(x)), "|x|")
    A("addis", lambda x, s: ival(x) + s2i(s), "x+s")
    A("addsi", lambda s, x: ival(x) + s2i(s), "s+x")
    A("subis", lambda x, s: ival(x) - s2i(s), "x-s")
    A("subsi", lambda s, x: s2i(s) - ival(x), "s-x")
    A("addiu", lambda x, s: ival(x) + u2i(s), "x+u")
    A("addui", lambda s, x: ival(x) + u2i(s), "u+x")
    A("subiu", lambda x, s: ival(x) - u2i(s), "x-u")
    A("subui", lambda s, x: u2i(s) - ival(x), "u-x")
    A("mulis", lambda x, s: mul(ival(x), s2i(s)), "x*s")
    A("mulsi", lambda s, x: mul(ival(x), s2i(s)), "s*x")
    A("muliu", lambda x, s: mul(ival(x), u2i(s)), "x*u")
    A("mului", lambda s, x: mul(ival(x), u2i(s)), "u*x")
    A("divii truedivii diviiexact", lambda x, y: quo(ival(x), ival(y)), "truncated quotient")
    A("divis", lambda x, y: quo(ival(x), s2i(y)), "truncated quotient")
    A("diviu diviuexact", lambda x, y: quo(ival(x), u2i(y)), "truncated quotient")
    A("modii", lambda x, y: mod(ival(x), ival(y)), "x mod y (>= 0)")
    A("modis", lambda x, y: mod(ival(x), s2i(y)), "x mod y (>= 0)")
    A("stoi", lambda s: s2i(s), "integer of a long")
    A("utoi utoipos", lambda s: u2i(s), "integer of an unsigned long")
    A("int2n int2u", lambda s: pow2(u2i(s)), "2^n")
    A("gcdii", lambda x, y: gcd_s(ival(x), ival(y)), "gcd")
    A("core", lambda x: corev(ival(x)), "squarefree core")
    A("icopy", lambda x: ival(x), "copy")


_reg_int()


@C("itou", "itos")
def _itou(cx, st, a, ins):
    "machine value of an integer that fits"
    r = z3.BitVec(fresh_name("itou"), 64)
    n = ival(a[0])
    cx.fact(TRUE, Implies(z3.And(n >= 0, n < (1 << 63)), u2i(r) == n))
    cx.fact(TRUE, Implies(z3.And(n >= 0, n < (1 << 64)), u2i(r) == n))
    return r


def icmp_reg(names, f, doc):
    for n in names.split():
        CONTRACTS[n] = f
        META[n] = ("pari", doc)


icmp_reg("cmpii mpcmp gcmp", lambda cx, st, a, ins: cmp3(cx, ival(a[0]), ival(a[1]), ins.ty.n), "sign of x-y (integers)")
icmp_reg("cmpis", lambda cx, st, a, ins: cmp3(cx, ival(a[0]), s2i(a[1]), ins.ty.n), "sign of x-s")
icmp_reg("cmpiu", lambda cx, st, a, ins: cmp3(cx, ival(a[0]), u2i(a[1]), ins.ty.n), "sign of x-u")
icmp_reg("abscmpii", lambda cx, st, a, ins: cmp3(cx, iabs(ival(a[0])), iabs(ival(a[1])), ins.ty.n), "sign of |x|-|y|")
icmp_reg("equalii", lambda cx, st, a, ins: rbool(cx, ins, ival(a[0]) == ival(a[1])), "x == y")
icmp_reg("equalis", lambda cx, st, a, ins: rbool(cx, ins, ival(a[0]) == s2i(a[1])), "x == s")
icmp_reg("equaliu", lambda cx, st, a, ins: rbool(cx, ins, ival(a[0]) == u2i(a[1])), "x == u")
icmp_reg("equali1", lambda cx, st, a, ins: rbool(cx, ins, ival(a[0]) == 1), "x == 1")
icmp_reg("equalim1", lambda cx, st, a, ins: rbool(cx, ins, ival(a[0]) == -1), "x == -1")
icmp_reg("dvdii", lambda cx, st, a, ins: rbool(cx, ins, divides_f(ival(a[1]), ival(a[0]))), "y | x")
icmp_reg("dvdiu", lambda cx, st, a, ins: rbool(cx, ins, divides_f(u2i(a[1]), ival(a[0]))), "u | x")
icmp_reg("dvdis", lambda cx, st, a, ins: rbool(cx, ins, divides_f(s2i(a[1]), ival(a[0]))), "s | x")
icmp_reg("isprime", lambda cx, st, a, ins: rbool(cx, ins, isprime_s(ival(a[0]))), "primality")
icmp_reg("gequal0", lambda cx, st, a, ins: rbool(cx, ins, iszero_v(val(a[0]))), "x == 0")
icmp_reg("gequal1", lambda cx, st, a, ins: rbool(cx, ins, geq_v(val(a[0]), tint(1))), "x == 1")
icmp_reg("gequalm1", lambda cx, st, a, ins: rbool(cx, ins, geq_v(val(a[0]), tint(-1))), "x == -1")


def iabs(x):
    return z3.If(x < 0, -x, x)


def geqv(a, b):
    """symmetric"""
    if a.get_id() > b.get_id():
        a, b = b, a
    if a.eq(b):
        return TRUE
    return geq_v(a, b)


@C("gequal")
def _gequal(cx, st, a, ins):
    "x == y (value equality)"
    return rbool(cx, ins, geqv(val(a[0]), val(a[1])))


EXTRA_SCAN["iszero_v"] = lambda apps, t: [z3.Implies(vtyp(a.arg(0)) == T_INT, a == (ival(a.arg(0)) == 0)) for a in apps]
EXTRA_SCAN["geq_v"] = lambda apps, t: [x for a in apps for x in (
    z3.Implies(z3.And(vtyp(a.arg(0)) == T_INT, vtyp(a.arg(1)) == T_INT), a == (ival(a.arg(0)) == ival(a.arg(1)))),
    z3.Implies(a.arg(0) == a.arg(1), a))]
EXTRA_SCAN["t_int_of"] = lambda apps, t: [z3.And(ival(a) == a.arg(0), vtyp(a) == T_INT) for a in apps]
EXTRA_SCAN["ival"] = lambda apps, t: []
EXTRA_SCAN["gcd_s"] = lambda apps, t: [z3.And(a >= 0, divides_f(a, a.arg(0)), divides_f(a, a.arg(1))) for a in apps]
EXTRA_SCAN["bitlen_s"] = lambda apps, t: [z3.And(a >= 0, z3.Implies(a.arg(0) == 0, a == 0), z3.Implies(a.arg(0) == 1, a == 1)) for a in apps]


# ---------------------------------------------------------------- copies and garbage collection
def copyval(cx, st, p, name="copy"):
    r = gen(cx, st, val(p), name)
    n = glen(cx, st, p)
    setglen(cx, st, r, n)
    old = st.copy()
    vecfacts(cx, st, r, n, lambda i, e: z3.And(val_f(e.o, e.f) == val(rawptr(cx, old, p, i * bv(8))), e.o >= 1))
    return r


@C("gcopy", "gclone", "gcopy_lg")
def _gcopy(cx, st, a, ins):
    "a new object equal to x (components copied)"
    return copyval(cx, st, a[0])


@C("gerepilecopy")
def _gerepilecopy(cx, st, a, ins):
    "a new object equal to x"
    return copyval(cx, st, a[1])


@C("gerepileupto", "gerepileuptoint", "gerepile")
def _gerepileupto(cx, st, a, ins):
    "x, possibly moved"
    return copyval(cx, st, a[-1])


@C("gerepileall")
def _gerepileall(cx, st, a, ins):
    "every listed variable is replaced by an equal object"
    n = simp(a[1])
    if not z3.is_bv_value(n) or n.as_long() != len(a) - 2:
        cx.oblige(st, z3.BoolVal(False), "gerepileall-argument-count")
        return None
    for x in a[2:]:
        p = cx.load(st, x, P, check=False)
        cx.store(st, x, copyval(cx, st, p), P, check=False)
    return None


@C("gunclone", "gunclone_deep", "pari_free", "obj_free", "cgiv")
def _nop(cx, st, a, ins):
    "releases memory (deallocation is not modelled)"
    return None


# ---------------------------------------------------------------- factorisation and vectors
def vec(cx, st, n, elem, v=None, name="vec"):
    """new vector GEN of n components; elem(i, e): fact about component i"""
    r = gen(cx, st, v, name)
    setglen(cx, st, r, n)
    vecfacts(cx, st, r, n, elem)
    return r


@C("factor", "Z_factor")
def _factor(cx, st, a, ins):
    "factorisation matrix [primes ascending, exponents] of an integer"
    n = ival(a[0])
    k = nfac(n)
    pr = vec(cx, st, k, lambda i, e: z3.And(ival(e) == pf(n, i), e.o >= 1, vtyp(val(e)) == T_INT), name="primes")
    ex = vec(cx, st, k, lambda i, e: z3.And(ival(e) == pfe(n, i), e.o >= 1, vtyp(val(e)) == T_INT), name="exps")
    m = gen(cx, st, name="fact")
    setglen(cx, st, m, bv(2))
    cx.fact(TRUE, And(vtyp(val(pr)) == T_COL, vtyp(val(ex)) == T_COL))
    setgel(cx, st, m, 1, pr)
    setgel(cx, st, m, 2, ex)
    return m


EXTRA_SCAN["nfac"] = lambda apps, t: [z3.And(z3.ULE(a, bv(1 << 20)), z3.Implies(a.arg(0) > 1, z3.UGE(a, bv(1)))) for a in apps]
EXTRA_SCAN["pf"] = lambda apps, t: [z3.Implies(z3.And(z3.UGE(a.arg(1), bv(1)), z3.ULE(a.arg(1), nfac(a.arg(0))), a.arg(0) >= 1),
                                               z3.And(isprime_s(a), divides_f(a, a.arg(0)),
                                                      a <= pf(a.arg(0), nfac(a.arg(0))))) for a in apps]
EXTRA_SCAN["pfe"] = lambda apps, t: [z3.Implies(z3.And(z3.UGE(a.arg(1), bv(1)), z3.ULE(a.arg(1), nfac(a.arg(0))), a.arg(0) >= 1),
                                                a >= 1) for a in apps]


@C("binary_zv")
def _binary_zv(cx, st, a, ins):
    "t_VECSMALL of the binary digits of |x|, most significant first"
    n = blen_s(ival(a[0]))
    r = gen(cx, st, name="binzv")
    setglen(cx, st, r, n)
    cx.declare_class("i64", BV64)
    s = st.copy()
    s.pc = TRUE
    m = cx.getmem(st, "i64")
    x = ival(a[0])
    cx.assume(s, Forall(BV64, lambda i: Implies(z3.And(z3.UGE(i, bv(1)), z3.ULE(i, n)),
              z3.Select(z3.Select(m, r.o), r.f + i * bv(8)) == z3.If(ibit(x, n - i), bv(1), bv(0))), "idx"))
    return r


ibit = F("ibit", INT, BV64, BOOL)   # bit k (from the least significant) of |n|


# ---------------------------------------------------------------- elliptic curves
OBJ1 = "#ellobj%d"


def ellcell(cx, st, E, k=1):
    c = OBJ1 % k
    cx.declare_class(c, V)
    return z3.Select(z3.Select(cx.getmem(st, c), E.o), E.f)


def setellcell(cx, st, E, v, k=1):
    c = OBJ1 % k
    cx.declare_class(c, V)
    m = cx.getmem(st, c)
    cx.setmem(st, c, z3.Store(m, E.o, z3.Store(z3.Select(m, E.o), E.f, v)), E.o)


@C("ellff_get_card")
def _card(cx, st, a, ins):
    "the number of points of the curve (cached in the curve object)"
    r = eitherold(cx, st, tint(card_s(val(a[0]))))
    setellcell(cx, st, a[0], val(r))
    return r


@C("ellsea")
def _ellsea(cx, st, a, ins):
    "the number of points, or 0 when the computation gives up / (flag 1) the order is seen not to be prime"
    n = card_s(val(a[0]))
    r = z3.Int(fresh_name("sea"))
    g = gint(cx, st, r)
    fl = u2i(a[1])
    cx.fact(TRUE, z3.Or(r == n, r == 0))
    giveup = z3.Bool(fresh_name("sea_gives_up"))
    cx.fact(TRUE, Implies(z3.And(r == 0, fl == 1), z3.Or(giveup, z3.Not(isprime_s(n)))))
    return g


@C("obj_insert_shallow", "obj_insert")
def _objins(cx, st, a, ins):
    "stores the value in the curve object's cell"
    k = simp(a[1])
    if z3.is_bv_value(k):
        setellcell(cx, st, a[0], val(a[2]), k.as_long())
    return a[2] if ins.ty.k == "ptr" else None


EXTRA_SCAN["card"] = lambda apps, t: [a >= 1 for a in apps]


@C("strtoi")
def _strtoi(cx, st, a, ins):
    "integer denoted by the C string"
    return gint(cx, st, strint(cx, st, a[0]))


strint_f = F("strint", z3.ArraySort(BV64, z3.BitVecSort(8)), BV64, INT)
hexconst = F("strconst", INT, INT)


def strint(cx, st, p):
    """integer denoted by a string: a constant global has a literal value, otherwise a function of the bytes"""
    cx.declare_class("i8", z3.BitVecSort(8))
    m = cx.getmem(st, "i8")
    return strint_f(cx.row(m, p.o), p.f)


# gen_0, gen_1, ...: constant objects of the library
GCONST = {"gen_0": 0, "gen_1": 1, "gen_m1": -1, "gen_2": 2, "gen_m2": -2}


def load_hook(cx, st, p, ty):
    if ty.k == "ptr" and z3.is_int_value(p.o) and p.tag is None:
        o = p.o.as_long()
        for n, k in GCONST.items():
            if cx.gobj.get(n) == o:
                q = Ptr(z3.IntVal(900100 + k))
                if n not in cx.constinit or True:
                    cx.gfacts.append(val(q) == tint(z3.IntVal(k)))
                    cx.gfacts.append(z3.And(ival_f(tint(z3.IntVal(k))) == k, vtyp(tint(z3.IntVal(k))) == T_INT))
                return q
    return None


@C("isintzero")
def _isintzero(cx, st, a, ins):
    "x is the integer 0"
    v = val(a[0])
    return rbool(cx, ins, And(vtyp(v) == T_INT, ival(a[0]) == 0))
