"""C20: string and memory helpers"""
import z3
from ..theory import *
from ..theory import F
from ..pari import *
from .. import libc
from ..libc import row, setrow, literal, copy_range, strlen_f, cstr_fact
from ..templates import visited, int_phis
from ..unit import Unit, obj, TRUE
from ..vcg import fresh_name, Ptr, And, Or, Not, Implies, bv, Forall, simp, Ite, peq, isnull, notnull

B8 = z3.BitVecSort(8)
LIM = bv(1 << 40)
OPTS = dict(memsafe=True, auto_trig=True)


def cstring(cx, st, name):
    """an arbitrary string in a block of exactly its size"""
    n = z3.BitVec(name + ".length", 64)
    p = obj(cx, st, name)
    cx.fact(TRUE, And(z3.ULT(n, LIM), cx.size(p.o) == n + 1))
    r = row(cx, st, p.o)
    cx.assume(st, Forall(BV64, lambda k: Implies(z3.ULT(k, n), z3.Select(r, k) != 0), "idx"))
    cx.fact(TRUE, z3.Select(r, n) == 0)
    cx.trigger(n, "idx")
    cx.u[name] = (p, n, r)
    return p, n, r


def my_strlen(cx, st, a, ins):
    "index of the first NUL"
    for nm in ("s", "sep"):
        if nm in cx.u and a[0].o.eq(cx.u[nm][0].o) and is_true(simp(a[0].f == 0)):
            return cx.u[nm][1]
    return libc._strlen(cx, st, a, ins)


def isx(b):
    return Or(And(z3.UGE(b, bv(48, 8)), z3.ULE(b, bv(57, 8))), And(z3.UGE(b, bv(65, 8)), z3.ULE(b, bv(70, 8))), And(z3.UGE(b, bv(97, 8)), z3.ULE(b, bv(102, 8))))


def isxdigit_k(cx, st, a, ins):
    "whether the character is a hexadecimal digit"
    return rbool(cx, ins, And(a[0] >= 0, a[0] <= 255, isx(z3.Extract(7, 0, a[0]))))


def ptr_visited(preds):
    """all bytes a pointer has moved over satisfy p(row offset)"""
    def t(cx, info):
        en = info.entry.phi
        for p in info.phis:
            if p.ty.k != "ptr":
                continue
            d, e = p.dst, en[p.dst]
            for nm, f in preds:
                yield "%s.passed.%s" % (info.canon[d], nm), (lambda s, d=d, e=e, f=f: Forall(
                    BV64, lambda k: Implies(And(z3.ULE(e.f, k), z3.ULT(k, s.phi[d].f)), f(cx, s, k)), "idx"))
    return t


def within(cx, info):
    """pointers stay in the string"""
    if "s" not in cx.u:
        return
    for p in info.phis:
        if p.ty.k == "ptr":
            yield info.canon[p.dst] + ".forward", (lambda s, d=p.dst, e=info.entry.phi[p.dst]: z3.ULE(e.f, s.phi[d].f))
            yield info.canon[p.dst] + ".within", (lambda s, d=p.dst: z3.ULE(s.phi[d].f, cx.u["s"][1]))
    for d in [q.dst for q in info.phis if q.ty.k == "i" and q.ty.n == 64]:
        yield info.canon[d] + ".within-i", (lambda s, d=d: z3.ULE(s.phi[d], cx.u["s"][1]))


def ishex_at(cx, s, k):
    return isx(z3.Select(cx.u["s"][2], k))


def hex_idx(cx, info):
    yield from visited([("hex", lambda s, k: ishex_at(cx, s, k)), ("hex+2", lambda s, k: ishex_at(cx, s, k + digits_start(cx)))])(cx, info)


def digits_start(cx):
    p, n, r = cx.u["s"]
    at = lambda k: z3.Select(r, bv(k))
    return z3.If(And(z3.UGT(n, bv(2)), at(0) == 48, Or(at(1) == ord("x"), at(1) == ord("X"))), bv(2), bv(0))


def pre_s(cx, st):
    p, n, r = cstring(cx, st, "s")
    a = z3.Bool("all_digits")
    cx.u["allhex"] = a
    cx.assume(st, Forall(BV64, lambda k: Implies(And(a, z3.ULE(digits_start(cx), k), z3.ULT(k, n)), isx(z3.Select(r, k))), "idx"))
    return [p]


def post_hex(cx, st0, st, args, rv):
    p, n, r = cx.u["s"]
    start = digits_start(cx)
    yield "result-is-the-digits-or-nothing", Or(isnull(rv), peq(rv, Ptr(p.o, start)))
    yield "accepted-only-if-all-digits", Forall(BV64, lambda k: Implies(And(notnull(rv), z3.ULE(start, k), z3.ULT(k, n)), isx(z3.Select(r, k))), "idx")
    yield "rejected-only-if-some-character-is-no-digit", Implies(cx.u["allhex"], notnull(rv))


cnt = F("count_below", BV64, BV64)


def counts(cx, info):
    en = info.entry.phi
    ph = [p.dst for p in info.phis if p.ty.k == "i" and p.ty.n == 64]
    pt = [p.dst for p in info.phis if p.ty.k == "ptr"]
    pos = []
    for q in pt:
        pos.append(("p" + info.canon[q], lambda s, q=q: s.phi[q].f))
        for i in ph:
            pos.append(("p%s+%s" % (info.canon[q], info.canon[i]), lambda s, q=q, i=i: s.phi[q].f + s.phi[i]))
    for i in ph:
        pos.append((info.canon[i], lambda s, i=i: s.phi[i]))
    for nm, f in pos:
        yield "pos-within." + nm, (lambda s, f=f: z3.ULE(f(s), cx.u["s"][1]))
        yield "count-within." + nm, (lambda s, f=f: z3.ULE(cnt(f(s)), f(s)))
        for i in ph:
            yield "%s.counts.%s" % (info.canon[i], nm), (lambda s, f=f, i=i: s.phi[i] == cnt(f(s)))


def pre_cnt(cx, st):
    p, n, r = cstring(cx, st, "s")
    c = z3.BitVec("c", 8)
    cx.fact(TRUE, cnt(bv(0)) == 0)
    cx.assume(st, Forall(BV64, lambda k: Implies(z3.ULT(k, n), cnt(k + 1) == cnt(k) + z3.If(z3.Select(r, k) == c, bv(1), bv(0))), "idx"))
    cx.fact(TRUE, c != 0)
    return [p, c]


def post_cnt(cx, st0, st, args, rv):
    yield "every-occurrence-counted", rv == cnt(cx.u["s"][1])


K20 = dict(ecv_isxdigit=isxdigit_k, strlen=my_strlen)
UNITS = [
    Unit("str_is_hex", "C20", pre_s, post_hex, templates=[ptr_visited([("hex", ishex_at)]), within, hex_idx],
         opts=OPTS, contracts=K20),
    Unit("str_cnt", "C20", pre_cnt, post_cnt, templates=[counts, within], opts=OPTS, contracts=K20),
]


# ---------------------------------------------------------------- memory helpers
def oom_alloc(zero):
    def k(cx, st, a, ins):
        "a new block of n bytes, or NULL"
        st2 = st
        p = (libc._calloc if zero else libc._malloc)(cx, st2, [a[0]], ins)
        fail = z3.Bool(fresh_name("oom"))
        cx.u["block"] = (p, a[0])
        return Ptr(z3.If(fail, z3.IntVal(0), p.o), p.f)
    return k


def oom_realloc(cx, st, a, ins):
    "the block resized, or NULL"
    p = libc._realloc(cx, st, a, ins)
    cx.u["block"] = (p, a[1])
    return Ptr(z3.If(z3.Bool(fresh_name("oom")), z3.IntVal(0), p.o), p.f)


def pre_mem(which):
    def p(cx, st):
        for g, f in (("malloc_func", "pari_malloc"), ("calloc_func", "pari_calloc"), ("realloc_func", "pari_realloc"), ("free_func", "pari_free")):
            cx.store(st, cx.glob(g), cx.fn_ptr(f), ir.PTR, check=False)
        n = z3.BitVec("n", 64)
        cx.u["n"] = n
        cx.fact(TRUE, z3.ULT(n, LIM))
        if which == "strdup":
            return [cstring(cx, st, "s")[0]]
        if which in ("memdup", "realloc"):
            p = obj(cx, st, "mem")
            cx.u["mem"] = p
            cx.u["memrow"] = row(cx, st, p.o)
            if which == "memdup":
                cx.fact(TRUE, z3.UGE(cx.size(p.o), n))
            return [p, n]
        return [n]
    return p


def post_mem(which):
    def p(cx, st0, st, args, rv):
        n = cx.u["s"][1] + 1 if which == "strdup" else cx.u["n"]
        yield "never-null", notnull(rv)
        yield "block-of-the-size-asked-for", And(rv.f == 0, z3.UGE(cx.size(rv.o), n))
        yield "a-new-block", rv.o >= st0.next
        r = row(cx, st, rv.o)
        if which == "calloc":
            yield "all-bytes-zero", Forall(BV64, lambda k: Implies(z3.ULT(k, n), z3.Select(r, k) == 0), "idx")
        if which in ("strdup", "memdup"):
            src = cx.u["s"][2] if which == "strdup" else cx.u["memrow"]
            yield "equal-to-the-original", Forall(BV64, lambda k: Implies(z3.ULT(k, n), z3.Select(r, k) == z3.Select(src, k)), "idx")
        if which == "realloc":
            sz = cx.size(cx.u["mem"].o)
            yield "contents-kept", Forall(BV64, lambda k: Implies(And(z3.ULT(k, n), z3.ULT(k, sz)), z3.Select(r, k) == z3.Select(cx.u["memrow"], k)), "idx")
    return p


KM = dict(pari_malloc=oom_alloc(False), pari_calloc=oom_alloc(True), pari_realloc=oom_realloc, strlen=my_strlen)
KM2 = dict(strlen=my_strlen)
UNITS += [Unit("try_" + w, "C20", pre_mem(w), post_mem(w), opts=OPTS, contracts=KM if w in ("malloc", "calloc", "realloc") else KM2)
          for w in ("malloc", "calloc", "realloc", "strdup", "memdup")]


# ---------------------------------------------------------------- joining
LIM2 = bv(1 << 31)
B32 = z3.BitVecSort(32)
_PRE, _SEPS, _LENS = F("lengths_before", BV64, B32), F("separators", BV64, B32), F("string_length", BV64, B32)


def small(f):
    """total lengths are assumed below 2^31"""
    return lambda i: z3.ZeroExt(32, f(i))


PRE = small(_PRE)       # PRE(i): total length of the first i strings
SEPS = small(_SEPS)     # SEPS(i): length of i separators
LENS = small(_LENS)     # 0 for a NULL entry
STRO, STRF = F("string_o", BV64, INT), F("string_f", BV64, BV64)
# the entry the layout is shown for: arbitrary, so what holds for it holds for all
I0 = z3.BitVec("entry", 64)
K0 = z3.BitVec("char", 64)     # arbitrary position in the entry / separator
X0 = z3.BitVec("at", 64)       # arbitrary position in the result


def scaled(k):
    """8*x -> x"""
    k = simp(k)
    if z3.is_app_of(k, z3.Z3_OP_BMUL) and k.num_args() == 2 and z3.is_bv_value(k.arg(0)) and k.arg(0).as_long() == 8:
        return k.arg(1)
    return k


def entry_load(cx, st, p):
    """strings[x]: the x-th entry, while the array is as it was"""
    x = scaled(p.f)
    if not cx.dry:
        cx.trigger(x, "=ent")
        cx.trigger(simp(x + 1), "=ent")
    u = cx.u
    if "arr" in u and simp(p.o).eq(simp(u["arr"].o)) and not x.eq(simp(p.f)) and all(simp(cx.read(cx.getmem(st, c), p.o, p.f)).eq(simp(z3.Select(r, p.f))) for c, r in (("ptr.o", u["ro"]), ("ptr.f", u["rf"]))):
        cx.fact(TRUE, Implies(z3.ULT(x, u["len"]), And(STRO(x) >= 0, STRO(x) < u["next"], STRO(x) != p.o)))
        return Ptr(STRO(x), STRF(x))
    if not cx.dry:
        cx.trigger(x, "=cell")


JOPTS = dict(memsafe=True, ptr_trig=entry_load)


def join_mul(cx, st, a, b):
    """(number of separators) * (length of the separator)"""
    n = cx.u["sep"][1]
    for x, y in ((a, b), (b, a)):
        if y.eq(n):
            cx.dry or cx.trigger(simp(x), "=ent")
            return SEPS(x)
    return z3.BitVec(fresh_name("prod"), 64)


def pos(i):
    return PRE(i) + SEPS(i)


def pre_join(cx, st):
    n = z3.BitVec("len", 64)
    sep, sn, sr = cstring(cx, st, "sepstr")
    no = z3.Bool("no_separator")
    sepl = z3.If(no, bv(0), sn)
    arr = obj(cx, st, "strings")
    cx.declare_class("ptr.o", INT)
    cx.declare_class("ptr.f", BV64)
    cx.fact(TRUE, And(z3.ULT(n, LIM2), z3.ULT(sn, LIM2), cx.size(arr.o) == n * 8))
    ro, rf = row(cx, st, arr.o, "ptr.o"), row(cx, st, arr.o, "ptr.f")
    cx.u.update(sep=(Ptr(z3.If(no, z3.IntVal(0), sep.o)), sn, sr), len=n, sepl=sepl, m0=cx.getmem(st, "i8"), arr=arr, ro=ro, rf=rf, next=st.next, no=no)
    A = lambda f: cx.assume(st, Forall(BV64, f, "=ent"))
    cx.assume(st, Forall(BV64, lambda i: Implies(z3.ULT(i, n), And(z3.Select(ro, i * 8) == STRO(i), z3.Select(rf, i * 8) == STRF(i))), "=cell"))
    A(lambda i: Implies(z3.ULT(i, n), And(STRO(i) >= 0, STRO(i) < st.next, STRO(i) != arr.o,
                                         z3.ULT(LENS(i), LIM2), Implies(STRO(i) == 0, And(STRF(i) == 0, LENS(i) == 0)), PRE(i + 1) == PRE(i) + LENS(i), SEPS(i + 1) == SEPS(i) + sepl)))
    # consequences of the recurrences (induction): both sums grow, and stay in the machine range because the strings are in memory
    cx.fact(TRUE, And(PRE(bv(0)) == 0, SEPS(bv(0)) == 0, z3.ULT(PRE(n), LIM2), z3.ULT(SEPS(n), LIM2)))
    A(lambda i: And(Implies(z3.ULE(i, n), And(z3.ULE(PRE(i), PRE(n)), z3.ULE(SEPS(i), SEPS(n)))), Implies(z3.ULT(i, n), z3.ULE(SEPS(i), SEPS(n - 1))), Implies(no, SEPS(i) == 0)))
    total = PRE(n) + SEPS(n - 1)
    A(lambda i: Implies(z3.ULT(i, n), And(z3.ULE(PRE(i) + SEPS(i) + LENS(i), total), z3.ULE(PRE(i) + SEPS(i), total), Implies(i != n - 1, z3.ULE(PRE(i) + SEPS(i) + LENS(i) + sepl, total)),
                                          Implies(i != n - 1, z3.ULE(PRE(i) + SEPS(i) + sepl + LENS(i), total)))))
    # an entry (and the separator after it) lies before the start of every later entry, and before the end
    A(lambda i: Implies(And(z3.ULE(i, n), z3.ULT(I0, i), z3.ULT(K0, LENS(I0))), z3.ULT(PRE(I0) + SEPS(I0) + K0, endpos(cx, i))))
    A(lambda i: Implies(And(z3.ULE(i, n), z3.ULT(I0, i), z3.ULT(I0 + 1, n), z3.ULT(K0, sepl)), z3.ULT(PRE(I0) + SEPS(I0) + LENS(I0) + K0, endpos(cx, i))))
    for t in (n, n - 1, I0, I0 + 1, bv(0)):
        cx.trigger(simp(t), "=ent")
    st.ghost["end"] = bv(0)
    return [cx.u["sep"][0], arr, n]


def which(cx, st, p):
    """length of a string argument: the separator or an entry"""
    sp = cx.u["sep"]
    if p.o.eq(sp[0].o):
        return sp[1]
    if z3.is_app(p.o) and p.o.decl().eq(STRO(bv(0)).decl()) and p.f.eq(STRF(p.o.arg(0))):
        return LENS(p.o.arg(0))
    n = z3.BitVec(fresh_name("strlen"), 64)
    s = st.copy()
    cx.assume(s, Forall(BV64, lambda i: Implies(And(z3.ULT(i, cx.u["len"]), p.o >= 1, p.o == STRO(i), p.f == STRF(i)), n == LENS(i)), "=ent"))
    return n


def join_strlen(cx, st, a, ins):
    "index of the first NUL"
    if not cx.dry:
        cx.oblige(st, And(notnull(a[0]), row(cx, st, a[0].o) == z3.Select(cx.u["m0"], a[0].o)), "one-of-the-strings-unchanged", "post")
    return which(cx, st, a[0])


def strcat_k(cx, st, a, ins):
    "appends a string to the string in a block (whose end is ghost state, obliged)"
    d, s = a
    end = st.ghost["end"]
    r, q = row(cx, st, d.o), row(cx, st, s.o)
    if not cx.dry:
        cx.oblige(st, And(notnull(s), q == z3.Select(cx.u["m0"], s.o)), "one-of-the-strings-unchanged", "post")
        cx.oblige(st, And(d.f == 0, z3.Select(r, end) == 0), "end-of-the-text-so-far", "post")
        cx.oblige(st, Implies(z3.ULT(X0, end), z3.Select(r, X0) != 0), "text-so-far", "post")
    n = which(cx, st, s)
    bd = s.f
    cx.fact(TRUE, Implies(And(z3.UGE(X0, end), z3.ULT(X0 - end, n)), z3.Select(q, bd + X0 - end) != 0))
    cx.fact(TRUE, z3.Select(q, bd + n) == 0)
    libc.bounds(cx, st, d, end + n + 1, "strcat")
    # the block afterwards, described at the positions looked at (arbitrary ones, and the new end)
    new = z3.Const(fresh_name("joined"), z3.ArraySort(BV64, B8))
    for x in (X0, pos(I0) + K0, pos(I0) + LENS(I0) + K0):
        off = z3.BitVec(fresh_name("off"), 64)
        cx.fact(TRUE, off == simp(x - end))
        cx.fact(TRUE, z3.Select(new, simp(x)) == z3.If(And(z3.ULE(end, x), z3.ULE(off, n)), z3.Select(q, off + bd), z3.Select(r, simp(x))))
    cx.fact(TRUE, z3.Select(new, simp(end + n)) == 0)
    setrow(cx, st, d.o, new)
    st.ghost["end"] = simp(end + n)
    return d


def calloc_rec(cx, st, a, ins):
    "new zeroed block of n bytes (proved of try_calloc)"
    p = libc._calloc(cx, st, a, ins)
    cx.u["res"] = p
    cx.u["total"] = a[0]
    return p


def content(cx, st, p, k):
    r = row(cx, st, p.o)
    src = z3.Select(cx.u["m0"], STRO(I0))
    return Implies(z3.ULT(k, LENS(I0)), z3.Select(r, pos(I0) + k) == z3.Select(src, STRF(I0) + k))


def sepcontent(cx, st, p, k):
    r = row(cx, st, p.o)
    return Implies(And(z3.ULT(I0 + 1, cx.u["len"]), z3.ULT(k, cx.u["sepl"])), z3.Select(r, pos(I0) + LENS(I0) + k) == z3.Select(cx.u["sep"][2], k))


def endpos(cx, i):
    n = cx.u["len"]
    return z3.If(And(i == n, n != 0), PRE(n) + SEPS(n - 1), pos(i))


def joins(cx, info):
    ph = int_phis(info)
    for d in ph:
        for e in ph:
            if e != d:
                yield "%s.total.%s" % (info.canon[e], info.canon[d]), (lambda s, d=d, e=e: s.phi[e] == PRE(s.phi[d]) + 1)
        if "res" in cx.u:
            p = cx.u["res"]
            yield info.canon[d] + ".end", (lambda s, d=d: And(s.st.ghost["end"] == endpos(cx, s.phi[d])))
            yield info.canon[d] + ".entry", (lambda s, d=d: Implies(z3.ULT(I0, s.phi[d]), content(cx, s.st, p, K0)))
            yield info.canon[d] + ".sep", (lambda s, d=d: Implies(z3.ULT(I0, s.phi[d]), sepcontent(cx, s.st, p, K0)))
    if "res" in cx.u:
        p = cx.u["res"]
        yield "text", (lambda s: Implies(z3.ULT(X0, s.st.ghost["end"]), z3.Select(row(cx, s.st, p.o), X0) != 0))
        yield "nul", (lambda s: z3.Select(row(cx, s.st, p.o), s.st.ghost["end"]) == 0)


def post_join(cx, st0, st, args, rv):
    n = cx.u["len"]
    end = z3.If(n == 0, bv(0), PRE(n) + SEPS(n - 1))
    r = row(cx, st, rv.o)
    yield "new-block", And(rv.o >= st0.next, rv.f == 0)
    yield "ends-after-the-last-string", z3.Select(r, end) == 0
    yield "no-earlier-end", Implies(z3.ULT(X0, end), z3.Select(r, X0) != 0)
    yield "every-string-in-its-place", Implies(z3.ULT(I0, n), content(cx, st, rv, K0))
    yield "separators-between", Implies(z3.ULT(I0, n), sepcontent(cx, st, rv, K0))


UNITS += [
    Unit("str_join", "C20", pre_join, post_join, templates=[joins], opts=dict(JOPTS, mul=join_mul), contracts=dict(strlen=join_strlen, strcat=strcat_k, try_calloc=calloc_rec), inv_timeout=20000, timeout=30000),
]
