"""C11, C12: table lookups and field polynomials"""
import z3
from ..theory import *
from ..pari import *
from ..unit import Unit, obj, curve_pre, TRUE
from ..vcg import Ptr, And, Or, Not, Implies, bv, Forall, simp, peq, Ite, isnull, notnull

I = ir.I
U32 = I(32)


# ---------------------------------------------------------------- comparators
def pre_cmp(struct, fields, lim):
    def p(cx, st):
        a, b = obj(cx, st, "x"), obj(cx, st, "y")
        cx.u["a"] = [cx.getf(st, a, struct, f, U32) for f in fields]
        cx.u["b"] = [cx.getf(st, b, struct, f, U32) for f in fields]
        for x in cx.u["a"] + cx.u["b"]:
            cx.assume(st, z3.ULE(x, bv(lim, 32)))
        return [a, b]
    return p


def post_cmp(cx, st0, st, args, rv):
    a, b = cx.u["a"], cx.u["b"]
    lt, eq = z3.BoolVal(False), TRUE
    for x, y in zip(a, b):
        lt = Or(lt, And(eq, z3.ULT(x, y)))
        eq = And(eq, x == y)
    yield "negative-iff-before", (rv < 0) == lt
    yield "zero-iff-same-key", (rv == 0) == eq


# ---------------------------------------------------------------- bsearch over a constant table
tabfield = F("tabfield", INT, BV64, BV64, z3.BitVecSort(32))    # (table, index, field) -> content


def bsearch_k(struct, keys, cmpname):
    """assumes: the table is sorted by the keys (complete evaluation over the current tables)"""
    def k(cx, st, a, ins):
        "finds an element of a sorted table that compares equal, NULL when there is none"
        key, base, n, size, cmp = a
        cx.oblige(st, peq(cmp, cx.fn_ptr(cmpname)), "bsearch-uses-the-key-comparator", "post")
        cx.oblige(st, size == cx.mod.size(ir.Ty("named", name="struct." + cx.structname(struct))), "bsearch-element-size", "post")
        # whole table: the length is that of the table the base points to
        cx.oblige(st, base.f == 0, "bsearch-from-the-first-element", "post")
        cx.oblige(st, n * size == cx.size(base.o), "bsearch-over-the-whole-table", "post")
        want = [cx.getf(st, key, struct, f, U32) for f in keys]
        i = z3.BitVec(fresh_name("bs_i"), 64)
        found = z3.Bool(fresh_name("bs_found"))
        eqs = And(*[tabfield(base.o, i, bv(j)) == w for j, w in enumerate(want)])
        cx.fact(st.pc, Implies(found, And(z3.ULT(i, n), eqs)))
        s = st.copy()
        cx.assume(s, Forall(BV64, lambda q: Implies(And(Not(found), z3.ULT(q, n)), Not(And(*[tabfield(base.o, q, bv(j)) == w for j, w in enumerate(want)]))), "idx"))
        cx.u.setdefault("searches", []).append((st.pc, base, n, found, i))
        return Ite(found, Ptr(base.o, simp(base.f + i * size)), Ptr(z3.IntVal(0)))
    return k


def pre_find(cx, st):
    m = z3.BitVec("m", 64)
    cx.u["m"] = m
    return [m]


def has(cx, name, n, m):
    o = cx.global_obj(name)
    return lambda q: And(z3.ULT(q, bv(n)), tabfield(o, q, bv(0)) == z3.Extract(31, 0, m))


def tablen(cx, name):
    ty, init, const = cx.mod.globals[name]
    return len(init.args)


def post_find(cx, st0, st, args, rv):
    m = cx.u["m"]
    sup = And(z3.UGE(m, bv(2)), z3.ULE(m, bv(10000)))
    yield "unsupported-degree-not-found", Implies(Not(sup), isnull(rv))
    hp = Or(z3.ULT(m, bv(160)), z3.UGT(m, bv(2000)))
    # an entry of the tables, with the requested degree
    ok = []
    for n in ("hp_trinomials", "hp_pentanomials", "ansi_trinomials", "ansi_pentanomials"):
        for pc, base, k, found, i in cx.u.get("searches", []):
            ok.append(And(pc, found, peq(rv, Ptr(base.o, i * bv(16))), tabfield(base.o, i, bv(0)) == z3.Extract(31, 0, m), base.o == cx.global_obj(n)))
    yield "found-entry-has-the-degree", Implies(notnull(rv), Or(*ok))
    for which, names in ((hp, ("hp_trinomials", "hp_pentanomials")), (Not(hp), ("ansi_trinomials", "ansi_pentanomials"))):
        for n in names:
            yield "tabulated-degree-is-found:%s" % n, Forall(BV64, lambda q, n=n, which=which: Implies(
                And(sup, which, has(cx, n, tablen(cx, n), m)(q)), notnull(rv)), "idx")


def pre_exists(cx, st):
    cx.u["m"] = z3.BitVec("m", 64)
    return [cx.u["m"]]


def post_exists(cx, st0, st, args, rv):
    m = cx.u["m"]
    b = rv if z3.is_bool(rv) else z3.Extract(0, 0, rv) == 1
    yield "supported-degrees", b == And(z3.UGE(m, bv(2)), z3.ULE(m, bv(10000)))


# ---------------------------------------------------------------- the field element of an entry
@C("gtovec0")
def _gtovec0(cx, st, a, ins):
    "vector of |n| copies of x (x = 0 here)"
    n = z3.SignExt(32, a[1]) if a[1].size() == 32 else a[1]
    x = a[0]
    return vec(cx, st, n, lambda i, e: And(e.o == x.o, e.f == x.f), name="zerovec")


def gtopolyrev_k(cx, st, a, ins):
    "polynomial with the given coefficients, constant term first"
    v = a[0]
    m, es = cx.u["m"], cx.u["es"]
    n = glen(cx, st, v)
    one, zero = tint(z3.IntVal(1)), tint(z3.IntVal(0))
    cx.oblige(st, n == z3.ZeroExt(32, m) + 1, "polynomial-degree", "post")
    s = st.copy()

    def body(q):
        e = rawptr(cx, s, v, q * bv(8))
        d = q - 1
        on = Or(d == 0, d == z3.ZeroExt(32, m), *[d == z3.ZeroExt(32, x) for x in es])
        return Implies(And(z3.UGE(q, bv(1)), z3.ULE(q, n)), val(e) == z3.If(on, one, zero))
    cx.oblige(st, Forall(BV64, body, "idx"), "polynomial-coefficients", "post")
    r = gen(cx, st, name="poly")
    cx.u["poly"] = val(r)
    return r


mod2 = z3.Const("Mod(1,2)", V)
gmul_f = F("gmul", V, V, V)
ffgen_f = F("ffgen", V, V)


@C("gmodulss")
def _gmodulss(cx, st, a, ins):
    "Mod(a, b)"
    one = And(a[0] == 1, a[1] == 2)
    return gen(cx, st, z3.If(one, mod2, z3.Const(fresh_name("mod"), V)))


@C("gmul")
def _gmul(cx, st, a, ins):
    "product"
    return gen(cx, st, gmul_f(val(a[0]), val(a[1])))


@C("ffgen")
def _ffgen(cx, st, a, ins):
    "generator of the extension defined by the polynomial"
    return gen(cx, st, ffgen_f(val(a[0])))


def pre_gen(cx, st):
    p = obj(cx, st, "entry")
    f = {n: cx.getf(st, p, "polynomial_t", n, U32) for n in ("m", "e1", "e2", "e3")}
    cx.u["m"], cx.u["es"] = f["m"], [f["e1"], f["e2"], f["e3"]]
    cx.assume(st, And(z3.UGE(f["m"], bv(2, 32)), z3.ULE(f["m"], bv(10000, 32)), *[z3.ULT(f[e], f["m"]) for e in ("e1", "e2", "e3")]))
    for e in cx.u["es"] + [cx.u["m"]]:
        cx.trigger(simp(z3.ZeroExt(32, e) + 1), "idx")
    return [p]


def post_gen(cx, st0, st, args, rv):
    yield "generator-of-exactly-that-extension", val(rv) == ffgen_f(gmul_f(cx.u.get("poly", z3.Const("nopoly", V)), mod2))


UNITS = [
    Unit("compare_poly", "C11", pre_cmp("polynomial_t", ["m"], 1 << 20), post_cmp),
    Unit("poly_exists", "C11", pre_exists, post_exists),
    Unit("poly_find", "C11", pre_find, post_find, contracts=dict(bsearch=bsearch_k("polynomial_t", ["m"], "compare_poly"))),
    Unit("poly_gen", "C11", pre_gen, post_gen, contracts=dict(gtopolyrev=gtopolyrev_k)),
]


# ---------------------------------------------------------------- C12
def tab_ok(cx, rv, m, a, searches):
    return Or(*[And(pc, found, rv.o == base.o, rv.f == i * bv(16), base.o == cx.global_obj("koblitz_curves"),
                    tabfield(base.o, i, bv(0)) == z3.Extract(31, 0, m), tabfield(base.o, i, bv(1)) == z3.Extract(31, 0, a)) for pc, base, k, found, i in searches])


def pre_kfind(cx, st):
    cx.u["m"], cx.u["a"] = z3.BitVec("m", 64), z3.BitVec("a", 64)
    return [cx.u["m"], cx.u["a"]]


def post_kfind(cx, st0, st, args, rv):
    m, a = cx.u["m"], cx.u["a"]
    yield "found-entry-is-the-pair-asked-for", Implies(notnull(rv), tab_ok(cx, rv, m, a, cx.u.get("searches", [])))
    n = tablen(cx, "koblitz_curves")
    o = cx.global_obj("koblitz_curves")
    yield "tabulated-pair-is-found", Forall(BV64, lambda q: Implies(And(z3.ULT(q, bv(n)), tabfield(o, q, bv(0)) == z3.Extract(31, 0, m),
          tabfield(o, q, bv(1)) == z3.Extract(31, 0, a)), notnull(rv)), "idx")


korder = F("koblitz_table_order", BV64, BV64, INT)
ktab = F("koblitz_tabulated", BV64, BV64, BOOL)


def kfind_k(cx, st, a, ins):
    "the table entry of exactly that pair, NULL when not tabulated (proved: koblitz_find)"
    e = Ptr(cx.alloc(st, name="entry"))
    s = Ptr(cx.alloc(st, name="hex"))
    cx.setf(st, e, "koblitz_t", "hex_order", s)
    cx.fact(st.pc, strint(cx, st, s) == korder(a[0], a[1]))
    t = ktab(a[0], a[1])
    return Ite(t, e, Ptr(z3.IntVal(0)))


def post_kget(cx, st0, st, args, rv):
    m, a = cx.u["m"], cx.u["a"]
    yield "tabulated-order-or-none", notnull(rv) == ktab(m, a)
    yield "the-order-of-that-pair", Implies(notnull(rv), ival(rv) == korder(m, a))


def kget_k(cx, st, a, ins):
    "order tabulated for (m, a), NULL when not tabulated (proved: koblitz_get_order)"
    g = gint(cx, st, korder(a[0], a[1]))
    cx.u["kargs"] = (a[0], a[1])
    return Ite(ktab(a[0], a[1]), g, Ptr(z3.IntVal(0)))


def pre_ogk(cx, st):
    a = curve_pre(cx, st)
    E = cx.u["curve.curve"]
    cfg = obj(cx, st, "CFG")
    cx.store(st, cx.glob("cfg"), cfg, ir.PTR, check=False)
    cx.u["bits"] = cx.getf(st, cfg, "config_t", "bits", I(64))
    cx.u["field"] = cx.getf(st, cfg, "config_t", "field", U32)
    cx.assume(st, And(notnull(E), E.o >= 1, Or(cx.u["field"] == 1, cx.u["field"] == 2)))
    cx.u["n"] = card_s(val(E))
    av = ival(cx.u["curve.a"])
    # a Koblitz curve: a is 0 or 1; the tabulated order is the true one (complete evaluation over the table)
    av64 = z3.BitVec("a64", 64)
    cx.u["av"] = av64
    cx.assume(st, And(av == u2i(av64), z3.ULE(av64, bv(1))))
    cx.assume(st, Implies(And(cx.u["field"] == 2, ktab(cx.u["bits"], av64)), korder(cx.u["bits"], av64) == cx.u["n"]))
    return a


def post_ogk(cx, st0, st, args, rv):
    o = cx.getf(st, cx.u["curve"], "curve_t", "order")
    yield "succeeds", rv > 0
    yield "order-is-the-number-of-points", And(notnull(o), ival(o) == cx.u["n"])
    yield "curve-object-carries-order", ival_f(ellcell(cx, st, cx.u["curve.curve"])) == cx.u["n"]
    yield "other-fields-unchanged", And(*[peq(cx.getf(st, cx.u["curve"], "curve_t", f), cx.u["curve." + f]) for f in ("seed", "field", "a", "b", "curve", "generators")])


UNITS += [
    Unit("compare_koblitz", "C12", pre_cmp("koblitz_t", ["m", "a"], 1 << 20), post_cmp),
    Unit("koblitz_find", "C12", pre_kfind, post_kfind, contracts=dict(bsearch=bsearch_k("koblitz_t", ["m", "a"], "compare_koblitz"))),
    Unit("koblitz_get_order", "C12", pre_kfind, post_kget, contracts=dict(koblitz_find=kfind_k)),
    Unit("order_gen_koblitz", "C12", pre_ogk, post_ogk, contracts=dict(koblitz_get_order=kget_k)),
]


# ---------------------------------------------------------------- complete evaluation over the tables of the current source
def table(mod, name):
    ty, init, const = mod.globals[name]
    rows = []
    for e in init.args:
        if e.k == "zero":
            rows.append([0, 0, 0, 0])
            continue
        r = []
        for x in e.args:
            r.append(x.v if x.k == "int" else (0 if x.k in ("zero", "null") else x))
        rows.append(r)
    return rows


def ground_c11(mod, ck):
    tabs = {n: table(mod, n) for n in ("hp_trinomials", "hp_pentanomials", "ansi_trinomials", "ansi_pentanomials")}
    for n, t in tabs.items():
        ms = [r[0] for r in t]
        yield "sorted:" + n, all(x < y for x, y in zip(ms, ms[1:])), "%s is not strictly sorted by degree" % n
    for m in range(2, 10001):
        names = ("hp_trinomials", "hp_pentanomials") if m < 160 or m > 2000 else ("ansi_trinomials", "ansi_pentanomials")
        es = [r for n in names for r in tabs[n] if r[0] == m][:1] if False else None
    idx = {n: {r[0]: r for r in t} for n, t in tabs.items()}
    for m in range(2, 10001):
        names = ("hp_trinomials", "hp_pentanomials") if m < 160 or m > 2000 else ("ansi_trinomials", "ansi_pentanomials")
        r = idx[names[0]].get(m)
        tri = r is not None
        if r is None:
            r = idx[names[1]].get(m)
        ok = r is not None
        if ok:
            e = sorted(x for x in r[1:] if x)
            ok = all(0 < x < m for x in e) and len(set(e)) == len(e) and (len(e) == (1 if tri else 3))
        yield "entry:%d" % m, ok, "degree %d: no tri- or pentanomial entry (%s)" % (m, r)


def ground_c12(mod, ck):
    t = table(mod, "koblitz_curves")
    ks = [(r[0], r[1]) for r in t]
    yield "sorted:koblitz", all(x < y for x, y in zip(ks, ks[1:])), "koblitz_curves is not sorted"
    for r in t:
        m, a = r[0], r[1]
        # number of points of y^2+xy=x^3+ax^2+1 over GF(2^m): 2^m + 1 - V_m, V_0 = 2, V_1 = mu, V_k+1 = mu V_k - 2 V_k-1, mu = (-1)^(1-a)
        mu = 1 if a == 1 else -1
        v0, v1 = 2, mu
        for _ in range(m - 1):
            v0, v1 = v1, mu * v1 - 2 * v0
        n = (1 << m) + 1 - v1
        g = mod.globals[r[2].v][1] if hasattr(r[2], "v") and r[2].v in mod.globals else None
        s = g.v.split(b"\0")[0].decode() if g is not None and g.k == "str" else ""
        try:
            ok = a in (0, 1) and int(s, 16) == n
        except ValueError:
            ok = False
        yield "order:%d,%d" % (m, a), ok, "tabulated order of (%d, %d) is %s, the curve has %s points" % (m, a, s, hex(n))
