"""C16: the hex filter"""
import z3
from ..theory import *
from ..theory import F
from ..pari import *
from .. import templates
from ..libc import row, setrow
from ..unit import Unit, obj, curve_pre, TRUE
from ..vcg import fresh_name, Ptr, And, Or, Not, Implies, bv, Forall, simp, peq, Ite, isnull, notnull, BV64
from .output import fmt2, text_f, elem_int, lit, key, elementi_k, sprintf_k, nop, HEXW
from .strings import cstring

I32, I64 = ir.I(32), ir.I(64)
B8 = z3.BitVecSort(8)
LIMIT = bv(1 << 20)
comma = F("joined_by_comma_s", V, V, V)            # two texts with a comma between
joined = F("joined_list_s", V, V, BV64, V)         # a list of texts (seen at two arbitrary places) with commas between
pttext = F("text_of_point_s", INT, V)              # text of the coordinates of a point object
ptstext = F("text_of_points_s", INT, BV64, BV64, V)  # text of a list of points
bitstext = F("text_of_bits_s", INT, V)             # hexadecimal text of a bit string object
contains = F("contains_search_string_s", V, BOOL)  # the lower-cased search string occurs in the text
NONE = z3.Const("no_text", V)
I0, I1 = z3.BitVec("I0", 64), z3.BitVec("I1", 64)  # arbitrary places of a list
K0 = z3.BitVec("K0", 64)                           # arbitrary place of the search string
PLACES = (I0, I1)


def hexw(cx, v):
    return fmt2(z3.IntVal(key(HEXW)), v, cx.u["width"])


def config(cx, st):
    cfg = cx.load(st, cx.glob("cfg"), ir.PTR, check=False)
    cx.assume(st, And(cfg.o >= 1, cfg.o < st.next))
    cx.u["width"] = cx.getf(st, cfg, "config_t", "hex_digits", I64)
    cx.u["ftype"] = cx.getf(st, cfg, "config_t", "field", I32)


# ---------------------------------------------------------------- one point
def joinv_k(cx, st, a, ins):
    "new text: the strings up to NULL with the separator between (bounded stand-in in C20)"
    if len(a) != 4 or lit(cx, a[0]) != key(","):
        cx.oblige(st, z3.BoolVal(False), "two-texts-joined-by-a-comma", "unsupported")
        return gen(cx, st, name="text")
    cx.oblige(st, And(notnull(a[1]), notnull(a[2]), isnull(a[3])), "two-texts-then-NULL", "post")
    r = gen(cx, st, name="text")
    cx.fact(TRUE, text_f(r.o) == comma(text_f(a[1].o), text_f(a[2].o)))
    return r


def pre_point(cx, st):
    p = obj(cx, st, "point")
    config(cx, st)
    pt = cx.getf(st, p, "point_t", "point")
    cx.u.update(x=val(gel(cx, st, pt, 1)), y=val(gel(cx, st, pt, 2)))
    return [p]


def post_point(cx, st0, st, args, rv):
    u = cx.u
    yield "new-text", rv.o >= st0.next
    yield "both-coordinates", text_f(rv.o) == comma(hexw(cx, elem_int(u["x"])), hexw(cx, elem_int(u["y"])))


# ---------------------------------------------------------------- lists
def hexpoint_k(cx, st, a, ins):
    "new text of the coordinates of the point (proved for hex_point)"
    r = gen(cx, st, name="text")
    cx.fact(TRUE, text_f(r.o) == pttext(a[0].o))
    return r


def hexpoints_k(cx, st, a, ins):
    "new text of the list of points (proved for hex_points)"
    r = gen(cx, st, name="text")
    cx.fact(TRUE, text_f(r.o) == ptstext(a[0].o, a[0].f, a[1]))
    return r


def join_k(cx, st, a, ins):
    "new text: the strings of the array with the separator between (proved in C20)"
    if lit(cx, a[0]) != key(","):
        cx.oblige(st, z3.BoolVal(False), "joined-by-a-comma", "unsupported")
    n = a[2]
    e = [z3.If(z3.ULT(i, n), text_f(rawptr(cx, st, a[1], i * 8).o), NONE) for i in PLACES]
    r = gen(cx, st, name="text")
    cx.fact(TRUE, text_f(r.o) == joined(e[0], e[1], n))
    return r


def spec(n, f):
    e = [z3.If(z3.ULT(i, n), f(i), NONE) for i in PLACES]
    return joined(e[0], e[1], n)


def pre_points(cx, st):
    p = obj(cx, st, "points")
    n = z3.BitVec("len", 64)
    cx.assume(st, z3.ULE(n, LIMIT))
    s0 = st.copy()
    s0.pc = TRUE
    cx.u.update(p=p, n=n, pt=lambda i: rawptr(cx, s0, p, i * 8))
    cx.u["pt"](I0)
    for i in PLACES:
        cx.trigger(i, "idx")
    return [p, n]


def filled(f, n):
    """the places of an array written by the loop"""
    def t(cx, info):
        arrs = {}
        for p in info.fr.env.values():
            if isinstance(p, Ptr) and p.f is not None and z3.is_bv_value(simp(p.f)) and simp(p.f).as_long() == 0 and not z3.is_int_value(simp(p.o)):
                arrs.setdefault(simp(p.o).get_id(), p)
        for q, p in enumerate(list(arrs.values())[-4:]):
            for w, i in enumerate(PLACES):
                for d in templates.int_phis(info):
                    if info.entry.phi[d].size() == 64:
                        for nm, g in f(cx):
                            yield "%s.%d.place%d.%s" % (info.canon[d], q, w, nm), lambda s, p=p, i=i, d=d, g=g: Implies(z3.ULT(i, s.phi[d]), text_f(rawptr(cx, s.st, p, i * 8).o) == g(i))
    return t


def post_points(cx, st0, st, args, rv):
    u = cx.u
    yield "new-text", rv.o >= st0.next
    yield "every-point-of-the-list", text_f(rv.o) == spec(u["n"], lambda i: pttext(u["pt"](i).o))


# ---------------------------------------------------------------- the filter
def strdup_k(cx, st, a, ins):
    "a new block with a copy of the string (proved in C20)"
    p, n, r0 = cx.u["needle"]
    cx.oblige(st, And(a[0].o == p.o, a[0].f == p.f), "copies-the-search-string", "post")
    r = gen(cx, st, name="search")
    cx.fact(TRUE, cx.size(r.o) == n + 1)
    setrow(cx, st, r.o, row(cx, st, a[0].o))
    return r


def lower8(b):
    return z3.If(And(z3.UGE(b, bv(65, 8)), z3.ULE(b, bv(90, 8))), b + 32, b)


def tolower_k(cx, st, a, ins):
    "lower case of an ASCII letter, any other character unchanged"
    return z3.SignExt(24, lower8(z3.Extract(7, 0, a[0])))


def strstr_k(cx, st, a, ins):
    "found exactly if the second text occurs in the first"
    p, n, r0 = cx.u["needle"]
    cx.oblige(st, And(a[1].o >= 1, a[1].f == 0, Implies(z3.ULE(K0, n), z3.Select(row(cx, st, a[1].o), K0) == lower8(z3.Select(r0, K0)))), "searches-for-the-lower-cased-search-string", "post")
    cx.oblige(st, notnull(a[0]), "searches-a-text", "pre")
    return Ite(contains(text_f(a[0].o)), Ptr(a[0].o, z3.BitVec(fresh_name("at"), 64)), Ptr(z3.IntVal(0)))


def bitshex_k(cx, st, a, ins):
    "new hexadecimal text of the bit string (C01)"
    r = gen(cx, st, name="text")
    cx.fact(TRUE, text_f(r.o) == bitstext(a[0].o))
    return r


def lowered(cx, info):
    if "needle" not in cx.u:
        return
    p, n, r0 = cx.u["needle"]
    for d, e in info.entry.phi.items():
        if not isinstance(e, Ptr):
            continue
        nm = info.canon[d]
        yield nm + ".within", lambda s, d=d: And(z3.ULE(s.phi[d].f, n))
        yield nm + ".lowered", lambda s, d=d, e=e: Forall(BV64, lambda k: Implies(z3.ULT(k, s.phi[d].f), z3.Select(row(cx, s.st, e.o), k) == lower8(z3.Select(r0, k))), "idx")
        yield nm + ".rest", lambda s, d=d, e=e: Forall(BV64, lambda k: Implies(And(z3.UGE(k, s.phi[d].f), z3.ULE(k, n)), z3.Select(row(cx, s.st, e.o), k) == z3.Select(r0, k)), "idx")


def hits(cx, k=None):
    """the texts that are searched, by stage: (stage, condition, text)"""
    u = cx.u
    n = u["ngens"]
    st = u["state"]
    out = [(0, u["seed"], bitstext(u["sbits"].o)),
           (1, u["ftype"] == cx.mod.enum("FIELD_PRIME"), hexw(cx, u["v.field"])),
           (2, TRUE, hexw(cx, elem_int(u["v.a"]))), (3, TRUE, hexw(cx, elem_int(u["v.b"]))), (5, TRUE, hexw(cx, u["v.order"])),
           (6, TRUE, spec(n, lambda i: pttext(u["g"](i).o))),
           (7, TRUE, spec(n, lambda i: ptstext(u["pts"](i).o, u["pts"](i).f, u["npt"](i))))]
    return [(i, And(st >= i, c), t) for i, c, t in out]


def found(cx, info):
    """result so far: found in one of the texts before the current one"""
    if "state" not in cx.u:
        return
    u = cx.u
    ph = [d for d in templates.int_phis(info) if info.entry.phi[d].size() == 32]
    for d in ph:
        for r in ph:
            if d != r:
                yield "%s.found-before.%s" % (info.canon[r], info.canon[d]), lambda s, d=d, r=r: s.phi[r] == z3.If(
                    Or(*[And(c, s.phi[d] > i, contains(t)) for i, c, t in hits(cx)]), bv(1, 32), 1 - u["state"])


def pre_check(cx, st):
    a = curve_pre(cx, st)
    c, u = cx.u["curve"], cx.u
    config(cx, st)
    cx.declare_class("i8", B8)
    p, n, r0 = cstring(cx, st, "needle")
    state = a[2]
    arg = a[1]
    st.pc = st.pc
    cx.assume(st, And(notnull(arg), arg.o >= 1, state >= 1, state <= 7, z3.UGE(n, bv(1))))
    cx.store(st, Ptr(arg.o, arg.f, ("struct." + cx.structname("arg_t"), cx.mod.fieldnames["arg_t"]["args"])), p, ir.PTR, check=False)
    nx = st.next
    seed = cx.getf(st, c, "curve_t", "seed")
    cx.assume(st, Or(isnull(seed), And(seed.o >= 1, seed.o < nx)))
    sb = cx.getf(st, seed, "seed_t", "seed")
    cx.assume(st, Or(isnull(sb), And(sb.o >= 1, sb.o < nx)))
    u.update(seed=And(notnull(seed), notnull(sb)), sbits=sb, state=state, ngens=cx.getf(st, c, "curve_t", "ngens", I64))
    for k in ("field", "a", "b", "order"):
        u["v." + k] = val(u["curve." + k])
    arr = cx.getf(st, c, "curve_t", "generators")
    s0 = st.copy()
    s0.pc = TRUE
    sub = lambda k: rawptr(cx, s0, arr, k * 8)
    u.update(g=lambda k: cx.getf(s0, sub(k), "subgroup_t", "generator"), npt=lambda k: cx.getf(s0, sub(k), "subgroup_t", "npoints", I64), pts=lambda k: cx.getf(s0, sub(k), "subgroup_t", "points"))
    for i in PLACES:
        cx.trigger(i, "idx")
        u["g"](i), u["npt"](i), u["pts"](i)
    cx.trigger(K0, "idx")
    cx.assume(st, And(arr.o >= 1, arr.o < nx, z3.ULE(u["ngens"], LIMIT)))
    cx.assume(st, Forall(BV64, lambda k: Implies(z3.ULT(k, u["ngens"]), And(sub(k).o >= 1, sub(k).o < nx)), "idx"))
    return a


def post_check(cx, st0, st, args, rv):
    u = cx.u
    hit = Or(*[And(c, contains(t)) for i, c, t in hits(cx)])
    yield "accepts-exactly-if-some-parameter-contains-the-string", (rv == 1) == hit
    yield "otherwise-back-to-a-new-field", Implies(Not(hit), rv == 1 - u["state"])
    yield "curve-unchanged", And(*[peq(cx.getf(st, u["curve"], "curve_t", f), u["curve." + f]) for f in ("seed", "field", "a", "b", "curve", "order", "generators")])


PT = dict(pari_sprintf=sprintf_k, field_elementi=elementi_k, str_joinv=joinv_k, pari_free=nop, try_free=nop, free=nop)
LIST = dict(PT, hex_point=hexpoint_k, str_join=join_k)
gens_f = lambda cx: [("gen", lambda i: pttext(cx.u["g"](i).o)), ("pts", lambda i: ptstext(cx.u["pts"](i).o, cx.u["pts"](i).f, cx.u["npt"](i)))]
UNITS = [
    Unit("hex_point", "C16", pre_point, post_point, contracts=PT),
    Unit("hex_points", "C16", pre_points, post_points, templates=[filled(lambda cx: [("pt", lambda i: pttext(cx.u["pt"](i).o))], None)], contracts=LIST),
    Unit("hex_check_param", "C16", pre_check, post_check, templates=[filled(gens_f, None), lowered, found], opts=dict(auto_trig=True),
         contracts=dict(LIST, hex_points=hexpoints_k, try_strdup=strdup_k, ecv_tolower=tolower_k, strstr=strstr_k, bits_to_hex=bitshex_k)),
]
