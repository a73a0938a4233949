"""Specification theory: PARI values, mathematical spec functions, and the assumed contracts of the external functions
(libpari, libc) the code under verification calls.

A GEN is an address; `val(o,f)` is its mathematical value (sort V).  Integers have `ival: V -> Int`.  The spec functions
(card, pf, eord, ...) are uninterpreted: they *are* the mathematics the properties talk about; the contracts below say
which PARI function computes which of them.
"""
import z3
from . import ir
from .vcg import (Ptr, V, INT, BV64, FPS, Forall, And, Or, Not, Implies, bv, simp, null, isnull, notnull, peq, fresh_name,
                  is_true, is_false, Ite, ZERO, State, NULLO)
from .ir import Unsupported

BOOL = z3.BoolSort()
I8, I32, I64 = ir.I(8), ir.I(32), ir.I(64)
P = ir.PTR
F = z3.Function
val_f = F("val", INT, BV64, V)
ival_f = F("ival", V, INT)
vtyp = F("vtyp", V, BV64)
U2I, S2I = {}, {}
for _w in (8, 32, 64, 160):
    U2I[_w] = F("u2i%d" % _w, z3.BitVecSort(_w), INT)
    S2I[_w] = F("s2i%d" % _w, z3.BitVecSort(_w), INT)
imul = F("imul", INT, INT, INT)
iquo = F("iquo", INT, INT, INT)   # truncated quotient
imod = F("imod", INT, INT, INT)   # non-negative remainder
divides_f = F("divides", INT, INT, BOOL)  # divides(d, n)
isprime_s = F("isprime_s", INT, BOOL)
ipow2 = F("ipow2", INT, INT)
isclone_f = F("isclone_p", INT, BV64, BOOL)
tint = F("t_int_of", INT, V)      # canonical integer value
velem = F("velem", V, BV64, V)
vlen = F("vlen", V, BV64)
veq = F("veq", V, V, BOOL)

NONDET = {}


def val(p):
    return val_f(p.o, p.f)


def ival(p):
    """integer value of a GEN pointer or of a V term"""
    if isinstance(p, Ptr):
        p = val(p)
    return ival_f(p)


def strip_zext(x):
    while z3.is_app_of(x, z3.Z3_OP_CONCAT) and x.num_args() == 2 and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
        x = x.arg(1)
    while z3.is_app_of(x, z3.Z3_OP_ZERO_EXT):
        x = x.arg(0)
    return x


def u2i(x):
    x = simp(x)
    if z3.is_bv_value(x):
        return z3.IntVal(x.as_long())
    y = strip_zext(x)
    if y.size() not in U2I:
        y = x
    if y.size() not in U2I:
        U2I[y.size()] = F("u2i%d" % y.size(), y.sort(), INT)
        S2I[y.size()] = F("s2i%d" % y.size(), y.sort(), INT)
    return U2I[y.size()](y)


def s2i(x):
    x = simp(x)
    if z3.is_bv_value(x):
        return z3.IntVal(x.as_signed_long())
    y = strip_zext(x)
    if y.size() < x.size() and y.size() in U2I:
        return U2I[y.size()](y)
    if z3.is_app_of(x, z3.Z3_OP_SIGN_EXT) and x.arg(0).size() in S2I:
        return S2I[x.arg(0).size()](x.arg(0))
    return S2I[x.size()](x)


def isnum(x):
    return z3.is_int_value(x)


def mul(a, b):
    a, b = simp(a), simp(b)
    if isnum(a) or isnum(b):
        return simp(a * b)
    if a.get_id() > b.get_id():
        a, b = b, a
    return imul(a, b)


def quo(a, b):
    a, b = simp(a), simp(b)
    if isnum(a) and isnum(b) and b.as_long() != 0:
        q = abs(a.as_long()) // abs(b.as_long())
        return z3.IntVal(q if (a.as_long() < 0) == (b.as_long() < 0) else -q)
    return iquo(a, b)


def mod(a, b):
    a, b = simp(a), simp(b)
    if isnum(a) and isnum(b) and b.as_long() != 0:
        return z3.IntVal(a.as_long() % abs(b.as_long()))
    return imod(a, b)


def pow2(n):
    n = simp(n)
    if isnum(n) and 0 <= n.as_long() < 4096:
        return z3.IntVal(1 << n.as_long())
    return ipow2(n)


# ---------------------------------------------------------------- ground lemmas about the bridging functions
_scan_cache = {}


def scan(fs):
    """collect applications of the bridging / arithmetic symbols in the formulas"""
    out = {}
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if x.num_args() and d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if n[:3] in ("u2i", "s2i") or n in ("imul", "iquo", "imod", "divides", "ipow2", "isprime_s"):
                    out.setdefault(n, {})[i] = x
                elif n in EXTRA_SCAN:
                    out.setdefault(n, {})[i] = x
            elif z3.is_int_value(x):
                out.setdefault("#int", {})[i] = x
            st.extend(x.children())
    return {k: list(v.values()) for k, v in out.items()}


# symbolic remainders: the result r of a % n is an uninterpreted value with |r| < n; that n divides a - r is used through
# `modpos` below (uniqueness of the representative of a residue class in [0, n))
URem, SRem = F("urem64", BV64, BV64, BV64), F("srem64", BV64, BV64, BV64)
modpos_f = F("modpos", BV64, BV64, BV64)    # modpos(y, n): the x in [0,n) with n | y - x (y signed, |y| < 2^62)
RB = 1 << 60


def rem_hook(cx, st, op, a, b):
    if a.size() != 64 or z3.is_bv_value(b):
        return None
    r = (URem if op == "urem" else SRem)(a, b)
    if op == "urem":
        cx.fact(z3.BoolVal(True), z3.Implies(b != 0, z3.ULT(r, b)))
    else:
        cx.fact(z3.BoolVal(True), z3.Implies(z3.And(b > 0, b <= bv(RB)), z3.And(r < b, r > -b, z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0))))
    return r


def _modpos(apps, t):
    """n | y - x whenever y - x is a sum of known multiples of n: 0, n, -n, a - (a % n)"""
    out = []
    rems = t.get("urem64", []) + t.get("srem64", [])
    for p in apps:
        y, n = p.arg(0), p.arg(1)
        out.append(z3.Implies(z3.And(n > 0, n <= bv(RB)), z3.ULT(p, n)))
        T = z3.BoolVal(True)

        def part(r):
            a = r.arg(0)
            return (z3.ULE(a, bv(RB)) if r.decl().name() == "urem64" else z3.And(a <= bv(RB), a >= bv(-RB))), a - r

        mine = [r for r in rems if r.arg(1).eq(n)]
        inr = z3.And(y <= bv(RB), y >= bv(-RB), n > 0, n <= bv(RB))
        for x in [y] + [r for r in mine if r.decl().name() == "urem64"]:
            combos = [(T, bv(0)), (T, n), (T, -n)]
            if not x.eq(y):
                ok, d = part(x)
                combos = [(z3.And(g, ok), c - d) for g, c in combos]
                for r in [r for r in mine if r.decl().name() == "srem64"][:2]:
                    ok, d = part(r)
                    combos = [(z3.And(g, o), c + e) for g, c in combos for o, e in ((T, bv(0)), (ok, d), (ok, -d))]
            out.append(z3.Implies(z3.And(inr, z3.ULT(x, n), z3.Or(*[z3.And(g, x - y == c) for g, c in combos])), p == x))
    return out


EXTRA_SCAN = {}   # name -> fn(list of apps, all) -> list of ground lemmas
EXTRA_SCAN["modpos"] = _modpos
for _n in ("urem64", "srem64"):
    EXTRA_SCAN[_n] = lambda apps, t: []


def lemmas(cx, fs, obl):
    out = []
    todo = list(fs) + [obl.goal, obl.pc]
    for rnd in range(2):
        t = scan(todo)
        new = ground(t)
        have = set(x.get_id() for x in out)
        new = [x for x in new if x.get_id() not in have]
        out += new
        if not new:
            break
        todo = todo + new
    # products are built with ordered factors; equal factors may be different terms, ordered the other way
    out += [imul(x.arg(1), x.arg(0)) == x for x in scan(todo).get("imul", [])]
    return out


def ground(t):
    out = []
    for w in sorted(U2I):
        us = t.get("u2i%d" % w, [])
        ss = t.get("s2i%d" % w, [])
        M = 1 << w
        nums = [x.as_long() for x in t.get("#int", [])]
        for a in us:
            x = a.arg(0)
            out.append(z3.And(a >= 0, a < M))
            for n in nums:
                if 0 <= n < M:
                    out.append((a == n) == (x == n))
                    out.append((a < n) == z3.ULT(x, bv(n, w)))
        for a in ss:
            x = a.arg(0)
            out.append(z3.And(a >= -(M // 2), a < M // 2))
            for n in nums:
                if -(M // 2) <= n < M // 2:
                    out.append((a == n) == (x == n))
                    out.append((a < n) == (x < bv(n, w)))
        for i, a in enumerate(us):
            for b in us[i + 1:]:
                x, y = a.arg(0), b.arg(0)
                out.append((a < b) == z3.ULT(x, y))
                out.append((a == b) == (x == y))
                d = simp(x - y)
                if z3.is_bv_value(d):
                    k = d.as_signed_long()
                    if k >= 0:
                        out.append(z3.Implies(z3.ULE(y, bv(M - 1 - k, w)), a == b + k))
                    else:
                        out.append(z3.Implies(z3.ULE(x, bv(M - 1 + k, w)), b == a - k))
            for b in ss:
                if a.arg(0).eq(b.arg(0)):
                    out.append(z3.Implies(a.arg(0) >= 0, a == b))
                    out.append(z3.Implies(a.arg(0) < 0, b == a - M))
        for i, a in enumerate(ss):
            for b in ss[i + 1:]:
                x, y = a.arg(0), b.arg(0)
                out.append((a < b) == (x < y))
                out.append((a == b) == (x == y))
                d = simp(x - y)
                if z3.is_bv_value(d):
                    k = d.as_signed_long()
                    if k >= 0:
                        out.append(z3.Implies(y <= bv(M // 2 - 1 - k, w), a == b + k))
                    elif k > -(M // 2):
                        out.append(z3.Implies(x <= bv(M // 2 - 1 + k, w), b == a - k))
    # cross-width: u2i32(x) vs u2i64(zext x) is normalised away; different widths otherwise related through Int only
    for a in t.get("iquo", []):
        n, d = a.arg(0), a.arg(1)
        p = simp_mul(a, d)
        # n = q*d + r, |r| < |d|, sign(r) = sign(n)
        out.append(z3.Implies(divides_f(d, n), z3.And(p == n)))
        out.append(z3.Implies(z3.And(n >= 0, d > 0), z3.And(a >= 0, a <= n, p <= n, p > n - d)))
    for a in t.get("imod", []):
        n, d = a.arg(0), a.arg(1)
        out.append(z3.Implies(d > 0, z3.And(a >= 0, a < d)))
        out.append(z3.Implies(z3.And(d > 0, n >= 0), a <= n))
        out.append(z3.Implies(z3.And(d > 0, n >= 0, n < d), a == n))
        out.append(z3.Implies(d != 0, (a == 0) == divides_f(d, n)))
    for a in t.get("divides", []):
        d, n = a.arg(0), a.arg(1)
        out.append(z3.Implies(n == 0, a))
        out.append(z3.Implies(z3.And(d == 0, n != 0), z3.Not(a)))
        out.append(z3.Implies(z3.Or(d == 1, d == -1, d == n), a))
        out.append(z3.Implies(z3.And(a, d != 0), simp_mul(iquo(n, d), d) == n))
    for a in t.get("isprime_s", []):
        out.append(z3.Implies(a, a.arg(0) >= 2))
        out += [a0 == z3.BoolVal(x.as_long() > 1 and all(x.as_long() % d for d in range(2, int(x.as_long() ** 0.5) + 1)))
                for a0, x in [(a, simp(a.arg(0)))] if isnum(x) and x.as_long() < 10000]
        for n in (2, 3, 5, 7):
            out.append(z3.Implies(a.arg(0) == n, a))
    for a in t.get("imul", []):
        x, y = a.arg(0), a.arg(1)
        out.append(z3.Implies(x == 0, a == 0))
        out.append(z3.Implies(y == 0, a == 0))
        out.append(z3.Implies(x == 1, a == y))
        out.append(z3.Implies(y == 1, a == x))
        out.append(z3.Implies(x == -1, a == -y))
        out.append(z3.Implies(y == -1, a == -x))
        out.append(z3.Implies(z3.And(x > 0, y > 0), z3.And(a >= x, a >= y)))
        out.append(z3.Implies(a == 0, z3.Or(x == 0, y == 0)))
    for a in t.get("ipow2", []):
        out.append(z3.Implies(a.arg(0) >= 0, a >= 1))
    for n, fn in EXTRA_SCAN.items():
        if t.get(n):
            out += fn(t[n], t)
    return [simp(x) for x in out]


def simp_mul(a, b):
    return mul(a, b)


# ---------------------------------------------------------------- helpers for contracts
def gen(cx, st, v=None, name="gen"):
    """fresh GEN (a new object) with value v"""
    p = Ptr(cx.alloc(st, name=name))
    if v is not None:
        cx.fact(z3.BoolVal(True), val(p) == v)
    return p


def gint(cx, st, n, name="int"):
    p = gen(cx, st, name=name)
    cx.fact(z3.BoolVal(True), z3.And(ival(p) == n, val(p) == tint(n), vtyp(val(p)) == T_INT))
    return p


def eitherold(cx, st, v, name="gen"):
    """GEN result that may be an existing object (no freshness known)"""
    p = cx.fresh_ptr(st, name)
    cx.fact(z3.BoolVal(True), z3.And(notnull(p), p.o >= 1))
    if v is not None:
        cx.fact(z3.BoolVal(True), val(p) == v)
    return p


T_INT, T_REAL, T_INTMOD, T_FRAC, T_FFELT, T_POL, T_VEC, T_COL, T_MAT, T_VECSMALL, T_STR = [
    bv(x) for x in (1, 2, 3, 4, 5, 10, 17, 18, 19, 22, 21)]


def gel(cx, st, p, i):
    """element i of a vector GEN (i BV64 or int)"""
    i = bv(i) if isinstance(i, int) else i
    return cx.load(st, Ptr(p.o, simp(p.f + i * bv(8))), P, check=False)


def setgel(cx, st, p, i, x):
    i = bv(i) if isinstance(i, int) else i
    cx.store(st, Ptr(p.o, simp(p.f + i * bv(8))), x, P, check=False)


def rawptr(cx, st, p, off):
    """pure term (no facts) for the pointer stored at p+off"""
    for c, s in (("ptr.o", INT), ("ptr.f", BV64)):
        cx.declare_class(c, s)
    mo, mf = cx.getmem(st, "ptr.o"), cx.getmem(st, "ptr.f")
    a = p.f + off
    return Ptr(z3.Select(z3.Select(mo, p.o), a), z3.Select(z3.Select(mf, p.o), a))


def vecfacts(cx, st, p, n, body):
    """for all 1<=i<=n: body(i, element GEN)"""
    snap = st.copy()
    rawptr(cx, snap, p, bv(8))

    def b(i):
        return Implies(z3.And(z3.UGE(i, bv(1)), z3.ULE(i, n)), body(i, rawptr(cx, snap, p, i * bv(8))))
    s2 = st.copy()
    s2.pc = z3.BoolVal(True)
    cx.assume(s2, Forall(BV64, b, "idx"))


class Lens:
    """length (number of components) of a GEN, kept in memory class '#len'"""


def glen(cx, st, p):
    cx.declare_class("#len", BV64)
    return simp(z3.Select(z3.Select(cx.getmem(st, "#len"), p.o), p.f))


def setglen(cx, st, p, n):
    cx.declare_class("#len", BV64)
    m = cx.getmem(st, "#len")
    cx.setmem(st, "#len", z3.Store(m, p.o, z3.Store(z3.Select(m, p.o), p.f, n)), p.o)


def tb(x):
    """C truth value of a boolean as i32"""
    return z3.If(x, bv(1, 32), bv(0, 32))


def truthy(cx, b, w=32, name="bool"):
    """an int that is nonzero iff b (exact value unspecified)"""
    r = z3.BitVec(fresh_name(name), w)
    cx.fact(z3.BoolVal(True), (r != 0) == b)
    return r


def cmp3(cx, a, b, w=32, name="cmp"):
    r = z3.BitVec(fresh_name(name), w)
    cx.fact(z3.BoolVal(True), z3.And((r < 0) == (a < b), (r > 0) == (a > b), (r == 0) == (a == b)))
    return r


class Contracts(dict):
    """name -> contract.  Registered with the decorator @C('name', ...)"""


CONTRACTS = Contracts()
META = {}   # name -> (category, text)


def C(*names, cat="pari", doc=None):
    def deco(fn):
        for n in names:
            CONTRACTS[n] = fn
            META[n] = (cat, doc or (fn.__doc__ or "").strip())
        return fn
    return deco
