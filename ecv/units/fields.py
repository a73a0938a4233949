"""C13: fields and coefficients read or drawn; C14: field elements as integers"""
import z3
from ..theory import *
from ..theory import F
from ..pari import *
from ..libc import row, literal
from ..unit import Unit, obj, curve_pre, TRUE
from .tables import gtopolyrev_k, gmul_f, ffgen_f, mod2
from .twist import intmod_s
from ..vcg import fresh_name, Ptr, And, Or, Not, Implies, bv, Forall, simp, peq, Ite, isnull, notnull

I32, I64 = ir.I(32), ir.I(64)
INT_MIN = bv(-(1 << 31), 32)

# ---------------------------------------------------------------- C14
ffpoly = F("ffpoly_s", V, V)            # polynomial (over the prime field) of a binary field element
coeffs_s = F("coeffs_s", V, V)          # coefficients of a polynomial, leading one first
digits_f = F("digits_s", INT, INT, V)   # digits of an integer in a base, most significant first
undigits = F("undigits_s", V, INT, INT)
polyof = F("polyof_s", V, V)            # polynomial with the given coefficients, leading one first
ffof = F("ffof_s", V, V, V)             # element of the field with the given polynomial
fieldof = F("fieldof_s", V, V)
lift_f = F("lift_s", V, INT)
intmod_mod = F("intmod_modulus", V, INT)


def g1(f):
    return lambda cx, st, a, ins: gen(cx, st, f(val(a[0])))


def k_ffpoly(cx, st, a, ins):
    "polynomial of the element"
    x = val(a[0])
    cx.fact(TRUE, ffof(ffpoly(x), fieldof(x)) == x)
    return gen(cx, st, ffpoly(x))


def k_gtovec(cx, st, a, ins):
    "coefficients of a polynomial, leading one first"
    cx.fact(TRUE, polyof(coeffs_s(val(a[0]))) == val(a[0]))
    return gen(cx, st, coeffs_s(val(a[0])))


def k_fromdigits(cx, st, a, ins):
    "integer with the given digits, most significant first"
    return gint(cx, st, undigits(val(a[0]), ival(a[1])))


def k_digits(cx, st, a, ins):
    "digits of |n|, most significant first"
    cx.oblige(st, notnull(a[1]), "base", "post")
    return gen(cx, st, digits_f(iabs(ival(a[0])), ival(a[1])))


def k_gtopoly(cx, st, a, ins):
    "polynomial with the given coefficients, leading one first"
    return gen(cx, st, polyof(val(a[0])))


def k_fq_to_ff(cx, st, a, ins):
    "element of the field of ff with the given polynomial"
    return gen(cx, st, ffof(val(a[0]), fieldof(val(a[1]))))


def k_fp_to_mod(cx, st, a, ins):
    "Mod(x, p)"
    r = gen(cx, st, intmod_s(mod(ival(a[0]), ival(a[1])), ival(a[1])))
    cx.fact(TRUE, vtyp(val(r)) == T_INTMOD)
    return r


def k_lift(cx, st, a, ins):
    "representative of a residue between 0 and p-1"
    n = lift_f(val(a[0]))
    p = intmod_mod(val(a[0]))
    cx.fact(TRUE, And(n >= 0, n < p, intmod_s(n, p) == val(a[0])))
    return gint(cx, st, n)


K14 = dict(FF_to_FpXQ=k_ffpoly, gtovec=k_gtovec, fromdigits=k_fromdigits, digits=k_digits, gtopoly=k_gtopoly, Fq_to_FF=k_fq_to_ff, Fp_to_mod=k_fp_to_mod, lift=k_lift)


def pre_ei(cx, st):
    e = cx.fresh_ptr(st, "element")
    cx.assume(st, And(notnull(e), e.o >= 1, Or(*[vtyp(val(e)) == t for t in (T_INT, T_INTMOD, T_FFELT)])))
    cx.u["e"] = e
    return [e]


def elem_int(x):
    """the number an element is printed as"""
    return z3.If(vtyp(x) == T_INT, ival_f(x), z3.If(vtyp(x) == T_INTMOD, lift_f(x), undigits(coeffs_s(ffpoly(x)), z3.IntVal(2))))


def post_ei(cx, st0, st, args, rv):
    yield "the-element's-number", ival(rv) == elem_int(val(cx.u["e"]))
    yield "an-integer", And(notnull(rv), vtyp(val(rv)) == T_INT)


def pre_ie(cx, st):
    f, n = cx.fresh_ptr(st, "field"), cx.fresh_ptr(st, "in")
    for x in (f, n):
        cx.assume(st, And(notnull(x), x.o >= 1))
    cx.assume(st, And(Or(vtyp(val(f)) == T_INT, vtyp(val(f)) == T_FFELT), Implies(vtyp(val(f)) == T_INT, ival(f) >= 2), vtyp(val(n)) == T_INT, ival(n) >= 0))
    cx.u.update(f=f, n=n)
    return [f, n]


def int_elem(f, n):
    """the element of the field a number stands for"""
    return z3.If(vtyp(f) == T_INT, intmod_s(mod(n, ival_f(f)), ival_f(f)), ffof(polyof(digits_f(n, z3.IntVal(2))), fieldof(f)))


def post_ie(cx, st0, st, args, rv):
    f, n = val(cx.u["f"]), ival(cx.u["n"])
    yield "the-number's-element", And(notnull(rv), val(rv) == int_elem(f, n))


def pre_round(cx, st):
    a = pre_ie(cx, st)
    f = val(cx.u["f"])
    x = z3.Const("x", V)
    cx.u["x"] = x
    c = coeffs_s(ffpoly(x))
    two = z3.IntVal(2)
    # x is an element of the field
    cx.assume(st, z3.If(vtyp(f) == T_INT, And(vtyp(x) == T_INTMOD, intmod_mod(x) == ival_f(f), lift_f(x) >= 0, lift_f(x) < ival_f(f), intmod_s(lift_f(x), ival_f(f)) == x),
                        And(vtyp(x) == T_FFELT, fieldof(x) == fieldof(f), ffof(ffpoly(x), fieldof(x)) == x,
                            polyof(coeffs_s(ffpoly(x))) == ffpoly(x), undigits(c, two) >= 0,
                            # binary digits denote a number and the number has those digits (up to leading zeros, which polynomials ignore)
                            polyof(digits_f(undigits(c, two), two)) == polyof(c))))
    cx.assume(st, ival(cx.u["n"]) == elem_int(x))
    return a


def post_round(cx, st0, st, args, rv):
    yield "back-to-the-same-element", val(rv) == cx.u["x"]


UNITS = [
    Unit("field_elementi", "C14", pre_ei, post_ei, contracts=K14),
    Unit("field_ielement", "C14", pre_ie, post_ie, contracts=K14),
    Unit("field_ielement", "C14", pre_round, post_round, contracts=K14, name="field_ielement/inverse of field_elementi"),
]


# ---------------------------------------------------------------- C13
def irred_k(cx, st, a, ins):
    "irreducibility"
    return rbool(cx, ins, irred(val(a[0])))


irred = F("irred", V, BOOL)


def read_k(kind):
    def k(cx, st, a, ins):
        "a number read from input: -1 asks again, -2 is the end of input (proved for input_i)"
        r = gint(cx, st, z3.Int(fresh_name("read")))
        n = ival(r)
        if kind == "prime":
            cx.oblige(st, a[1] == cx.u["bits"], "at-most-the-requested-bits", "post")
            cx.fact(st.pc, Or(n == -1, n == -2, And(isprime_s(n), n >= 2, n < pow2(u2i(a[1])))))
        elif kind == "int":
            cx.oblige(st, a[1] == cx.u["bits"], "at-most-the-requested-bits", "post")
            cx.fact(st.pc, n < pow2(u2i(a[1])))
        else:
            # machine value of the number read, where it is not negative
            w = z3.BitVec(fresh_name("word"), 64)
            cx.fact(st.pc, And(n < 65536, Implies(n >= 0, And(z3.ULT(w, bv(65536)), u2i(w) == n))))
            for n2, w2 in cx.u.setdefault("words", []):
                cx.fact(TRUE, Implies(And(n >= 0, n2 >= 0), And((n <= n2) == z3.ULE(w, w2), (n2 <= n) == z3.ULE(w2, w))))
            cx.u["words"].append((n, w))
        cx.u.setdefault("reads", []).append((literal(cx, a[0]), n, st.pc))
        return r
    return k


def gsigne_k(cx, st, a, ins):
    "sign: -1, 0 or 1"
    n = ival(a[0])
    w = ins.ty.n
    return z3.If(n > 0, bv(1, w), z3.If(n < 0, bv(-1, w), bv(0, w)))


def stale_free(cx, st, field):
    """the configuration and its bit size"""
    c = obj(cx, st, "CFG")
    cx.store(st, cx.glob("cfg"), c, ir.PTR, check=False)
    cx.u["bits"] = cx.getf(st, c, "config_t", "bits", I64)
    cx.u["fieldkind"] = cx.getf(st, c, "config_t", "field", I32)
    cx.assume(st, And(cx.u["fieldkind"] == cx.mod.enum(field), z3.UGE(cx.u["bits"], bv(1)), z3.ULE(cx.u["bits"], bv(1 << 24))))


def pre_field(kind):
    def p(cx, st):
        a = curve_pre(cx, st)
        stale_free(cx, st, "FIELD_PRIME" if kind == "prime" else "FIELD_BINARY")
        cx.u["reads"] = []
        if kind == "binary":
            b = cx.u["bits"]
            n = z3.Int("requested")
            cx.fact(TRUE, And(u2i(b) == n, s2i(b) == n, n >= 1, n <= 1 << 24))
            cx.u["words"] = [(n, b)]
        return a
    return p


def gtopolyrev_in(cx, st, a, ins):
    "polynomial with the given coefficients, constant term first"
    v = a[0]
    rd = cx.u["words"][1:]
    n = glen(cx, st, v)
    one, zero = tint(z3.IntVal(1)), tint(z3.IntVal(0))
    cx.oblige(st, And(rd[0][0] >= 0, n == rd[0][1] + 1), "polynomial-degree", "post")
    cx.oblige(st, n == cx.u["bits"] + 1, "polynomial-degree-is-the-requested-size", "post")
    s = st.copy()

    def body(q):
        e = rawptr(cx, s, v, q * bv(8))
        d = q - 1
        on = Or(d == 0, *[And(n >= 0, d == w) for n, w in rd])
        return Implies(And(z3.UGE(q, bv(1)), z3.ULE(q, n)), val(e) == z3.If(on, one, zero))
    cx.oblige(st, Forall(BV64, body, "idx"), "polynomial-coefficients", "post")
    r = gen(cx, st, name="poly")
    cx.u["poly"] = val(r)
    return r


def post_input(kind):
    def p(cx, st0, st, args, rv):
        c = cx.u["curve"]
        f = cx.getf(st, c, "curve_t", "field")
        reads = [r for r in cx.u["reads"] if (r[0] == b"p:") == (kind == "prime")]
        bits = u2i(cx.u["bits"])
        yield "verdict", Or(rv == 1, rv == 0, rv == INT_MIN)
        for x in ("seed", "a", "b", "curve", "order", "generators"):
            yield "nothing-else-changed:" + x, peq(cx.getf(st, c, "curve_t", x), cx.u["curve." + x])
        if kind == "prime":
            n = reads[0][1]
            yield "end-of-input-aborts", (rv == INT_MIN) == (n == -2)
            yield "accepted-exactly-when-prime", (rv == 1) == And(n != -1, n != -2)
            yield "field-is-the-prime-read", Implies(rv == 1, And(notnull(f), ival(f) == n, isprime_s(n), n < pow2(bits)))
        else:
            ns = [n for _, n, _ in reads]
            pcs = [q for _, _, q in reads]
            yield "four-numbers-read", z3.BoolVal(len(reads) == 4 and [r[0] for r in reads] == [b"m:", b"e1:", b"e2:", b"e3:"])
            yield "end-of-input-aborts", (rv == INT_MIN) == Or(*[And(q, n == -2) for q, n in zip(pcs, ns)])
            ok = And(ns[0] == bits, *[And(n >= 0, n <= ns[0]) for n in ns[1:]], Or(*[n != 0 for n in ns[1:]]))
            yield "only-valid-exponents", Implies(rv == 1, And(*pcs, ok))
            w = gmul_f(cx.u.get("poly", z3.Const("nopoly", V)), mod2)
            yield "field-is-the-extension-by-the-polynomial", Implies(rv == 1, And(notnull(f), irred(w), val(f) == ffgen_f(w)))
            yield "only-reducible-polynomials-are-refused", Implies(And(*pcs, ok, irred(w)), rv != 0)
        yield "field-kept-when-refused", Implies(rv != 1, peq(f, cx.u["curve.field"]))
    return p


def itos_k(cx, st, a, ins):
    "machine value of an integer that fits"
    r = z3.BitVec(fresh_name("itos"), 64)
    n = ival(a[0])
    cx.fact(TRUE, Implies(And(n >= 0, n < (1 << 63)), u2i(r) == n))
    for n2, w in cx.u.get("words", []):
        cx.fact(TRUE, Implies(And(n >= 0, n2 >= 0, n == n2), r == w))
    return r


KIN = dict(itos=itos_k, itou=itos_k, input_prime=read_k("prime"), input_short=read_k("short"), input_int=read_k("int"), gsigne=gsigne_k, polisirreducible=irred_k, gtopolyrev=gtopolyrev_in)


# coefficients
def pre_coef(which):
    def p(cx, st):
        a = curve_pre(cx, st)
        stale_free(cx, st, "FIELD_PRIME")
        cx.u["reads"] = []
        f = cx.u["curve.field"]
        cx.assume(st, And(notnull(f), f.o >= 1))
        return a
    return p


def ielement_k(cx, st, a, ins):
    "the element of the field the number stands for (C14)"
    cx.oblige(st, peq(a[0], cx.u["curve.field"]), "element-of-the-curve's-field", "post")
    r = gen(cx, st, int_elem(val(a[0]), ival(a[1])))
    return r


def post_coef(which):
    def p(cx, st0, st, args, rv):
        c = cx.u["curve"]
        x = cx.getf(st, c, "curve_t", which)
        n = cx.u["reads"][0][1]
        yield "end-of-input-aborts", (rv == INT_MIN) == (n == -2)
        yield "asked-again", (rv == 0) == (n == -1)
        yield "accepted-otherwise", Or(rv == 1, rv == 0, rv == INT_MIN)
        yield "the-element-of-the-number-read", Implies(rv == 1, And(notnull(x), val(x) == int_elem(val(cx.u["curve.field"]), n)))
        yield "one-number-read", z3.BoolVal(len(cx.u["reads"]) == 1 and cx.u["reads"][0][0] == which.encode() + b":")
        for y in ("seed", "field", "a", "b", "curve", "order", "generators"):
            if y != which:
                yield "nothing-else-changed:" + y, peq(cx.getf(st, c, "curve_t", y), cx.u["curve." + y])
    return p


inrange = F("random_element_of", V, V, BOOL)


def genrand_k(cx, st, a, ins):
    "a random element of its argument: of the field of a field element, below an integer"
    r = gen(cx, st)
    cx.fact(TRUE, inrange(val(r), val(a[0])))
    return r


def post_rand(which):
    def p(cx, st0, st, args, rv):
        c = cx.u["curve"]
        x = cx.getf(st, c, "curve_t", which)
        yield "succeeds", rv == 1
        yield "random-element-of-the-curve's-field", And(notnull(x), inrange(val(x), val(cx.u["curve.field"])))
    return p


def random_prime_k(cx, st, a, ins):
    "a random prime of exactly n bits (C05)"
    cx.oblige(st, a[0] == cx.u["bits"], "prime-of-the-requested-size", "post")
    n = z3.Int(fresh_name("prime"))
    cx.fact(TRUE, And(isprime_s(n), sizebits(n) == u2i(a[0])))
    return gint(cx, st, n)


sizebits = F("bits_of", INT, INT)
tabfield = F("table_field", BV64, V)


def poly_exists_k(cx, st, a, ins):
    "whether the table has an entry of the degree (C11)"
    return And(z3.UGE(a[0], bv(2)), z3.ULE(a[0], bv(10000)))


def poly_find_k(cx, st, a, ins):
    "field of the table's polynomial of the degree (C11)"
    cx.oblige(st, And(z3.UGE(a[0], bv(2)), z3.ULE(a[0], bv(10000))), "degree-in-the-table", "post")
    return gen(cx, st, tabfield(a[0]))


def pre_frand(kind):
    def p(cx, st):
        a = curve_pre(cx, st)
        stale_free(cx, st, kind)
        return a
    return p


def post_frand(kind):
    def p(cx, st0, st, args, rv):
        f = cx.getf(st, cx.u["curve"], "curve_t", "field")
        b = cx.u["bits"]
        yield "succeeds", rv == 1
        if kind == "FIELD_PRIME":
            yield "prime-of-the-requested-size", And(notnull(f), isprime_s(ival(f)), sizebits(ival(f)) == u2i(b))
        else:
            yield "table-field-of-the-requested-degree", And(notnull(f), val(f) == tabfield(b))
    return p


KR = dict(random_prime=random_prime_k, poly_exists=poly_exists_k, poly_find_gen=poly_find_k, genrand=genrand_k)
UNITS += [
    Unit("field_gen_random", "C13", pre_frand("FIELD_PRIME"), post_frand("FIELD_PRIME"), contracts=KR, name="field_gen_random/prime"),
    Unit("field_gen_random", "C13", pre_frand("FIELD_BINARY"), post_frand("FIELD_BINARY"), contracts=KR, name="field_gen_random/binary"),
    Unit("field_gen_input", "C13", pre_field("prime"), post_input("prime"), contracts=KIN, name="field_gen_input/prime"),
    Unit("field_gen_input", "C13", pre_field("binary"), post_input("binary"), contracts=KIN, name="field_gen_input/binary"),
    Unit("a_gen_input", "C13", pre_coef("a"), post_coef("a"), contracts=dict(KIN, field_ielement=ielement_k)),
    Unit("b_gen_input", "C13", pre_coef("b"), post_coef("b"), contracts=dict(KIN, field_ielement=ielement_k)),
    Unit("a_gen_random", "C13", pre_coef("a"), post_rand("a"), contracts=KR),
    Unit("b_gen_random", "C13", pre_coef("b"), post_rand("b"), contracts=KR),
]


# ---------------------------------------------------------------- numbers read from input
strnum = F("number_in_text", INT, BV64, INT)    # number at an offset of the line read


def getdelim_k(cx, st, a, ins):
    "reads a line: its length (-1: none), the line in a block of its own"
    ln = z3.BitVec(fresh_name("len"), 64)
    line = Ptr(cx.alloc(st, name="line"))
    cx.u["first"] = cx.load(st, line, ir.I(8))
    cx.store(st, a[0], line, ir.PTR, check=False)
    cx.u.update(len=ln, line=line)
    cx.fact(TRUE, ln >= -1)
    return ln


def feof_k(cx, st, a, ins):
    "whether the input is at its end"
    return rbool(cx, ins, cx.u["eof"])


def strtoi_k(cx, st, a, ins):
    "number at the beginning of the text"
    r = gint(cx, st, strnum(a[0].o, a[0].f))
    cx.u["num"] = (r, strnum(a[0].o, a[0].f))
    cx.fact(TRUE, ival(r) >= 0)
    st.ghost["neg"] = z3.BoolVal(False)
    return r


def togglesign_k(cx, st, a, ins):
    "changes the sign of a number, in place"
    cx.oblige(st, peq(a[0], cx.u["num"][0]), "number-read", "post")
    st.ghost["neg"] = Not(st.ghost["neg"])


def cur(cx, st, p):
    r, n = cx.u["num"]
    return z3.If(peq(p, r), z3.If(st.ghost["neg"], -n, n), ival(p))


def i_cmp(cx, st, a, ins):
    "sign of x-y"
    return cmp3(cx, cur(cx, st, a[0]), cur(cx, st, a[1]), ins.ty.n)


def i_keep(cx, st, a, ins):
    "the same value"
    return gint(cx, st, cur(cx, st, a[1]))


def pre_i(cx, st):
    cx.u["eof"] = z3.Bool("at_eof")
    b = z3.BitVec("nbits", 64)
    cx.u["bits"] = b
    cx.assume(st, z3.ULE(b, bv(1 << 24)))
    cx.fact(TRUE, And(s2i(b) == u2i(b), u2i(b) >= 0))
    st.ghost["neg"] = z3.BoolVal(False)
    return [cx.fresh_ptr(st, "prompt"), b]


def post_i(cx, st0, st, args, rv):
    if "num" not in cx.u:
        yield "number-read", z3.BoolVal(False)
        return
    ln, line = cx.u["len"], cx.u["line"]
    minus = cx.u["first"] == bv(ord("-"), 8)
    n = z3.If(minus, -strnum(line.o, bv(1)), strnum(line.o, bv(0)))
    b = u2i(cx.u["bits"])
    yield "end-of-input", Implies(ln <= 0, ival(rv) == -2)
    yield "empty-line", Implies(And(ln == 1, Not(cx.u["eof"])), ival(rv) == -1)
    yield "number-of-the-line", Implies(And(ln > 0, Not(And(ln == 1, Not(cx.u["eof"])))), ival(rv) == z3.If(n < ipow2(b), n, -1))


def i_contract(cx, st, a, ins):
    "a number read from input (proved of input_i)"
    n = z3.Int(fresh_name("read"))
    cx.u["reads"].append((n, a[1]))
    cx.fact(TRUE, Or(n == -1, n == -2, n < ipow2(u2i(a[1]))))
    return gint(cx, st, n)


def isprime_k(cx, st, a, ins):
    "primality"
    return rbool(cx, ins, isprime_s(ival(a[0])))


def pre_wrap(short):
    def p(cx, st):
        cx.u["reads"] = []
        cx.u["b"] = z3.BitVec("nbits", 64)
        a = [cx.fresh_ptr(st, "prompt")]
        return a if short else a + [cx.u["b"]]
    return p


def post_wrap(kind):
    def p(cx, st0, st, args, rv):
        yield "one-number-read", z3.BoolVal(len(cx.u["reads"]) == 1)
        n, b = cx.u["reads"][0]
        yield "of-the-right-size", b == (bv(16) if kind == "short" else cx.u["b"])
        if kind == "prime":
            yield "only-primes-accepted", ival(rv) == z3.If(Or(n == -1, n == -2, isprime_s(n)), n, -1)
        else:
            yield "the-number-read", ival(rv) == n
    return p


KW = dict(input_i=i_contract, isprime=isprime_k)
UNITS += [
    Unit("input_i", "C13", pre_i, post_i, contracts=dict(getdelim=getdelim_k, feof=feof_k, ferror=feof_k, strtoi=strtoi_k, togglesign=togglesign_k, cmpii=i_cmp, gerepileupto=i_keep)),
    Unit("input_prime", "C13", pre_wrap(False), post_wrap("prime"), contracts=KW),
    Unit("input_int", "C13", pre_wrap(False), post_wrap("int"), contracts=KW),
    Unit("input_short", "C13", pre_wrap(True), post_wrap("short"), contracts=KW),
]
