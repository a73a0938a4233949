"""C15: what is printed"""
import z3
from ..theory import *
from ..theory import F
from ..pari import *
from .. import templates
from ..unit import Unit, obj, TRUE
from ..vcg import fresh_name, Ptr, And, Or, Not, Implies, bv, Forall, simp, peq, Ite, isnull, notnull, BV64

I32, I64 = ir.I(32), ir.I(64)
# ---------------------------------------------------------------- the array as a whole: exhaustive_generate
# ghost phase of the text written: 0 nothing, 1 after the opening (no element yet), 2 after an element, 3 after a separator, 4 closed
def pre_run(cx, st):
    setup = obj(cx, st, "setup")
    st.ghost.update(phase=z3.IntVal(0), shown=bv(0), made=z3.IntVal(0), failed=z3.BoolVal(False))
    cfg = cx.load(st, cx.glob("cfg"), ir.PTR, check=False)
    cx.u["count"] = cx.getf(st, cfg, "config_t", "count", I64)
    return [setup]


def phase(name, before, after):
    def k(cx, st, a, ins):
        g = st.ghost
        cx.oblige(st, Or(*[g["phase"] == p for p in before]), "json-order:" + name, "post")
        g["phase"] = z3.IntVal(after)
        return None
    k.__doc__ = "writes the %s of the array (bounded stand-in c15_runs)" % name
    return k


def out_curve(cx, st, a, ins):
    "writes the curve as output_jjson builds it, serialized (bounded stand-in c15_runs)"
    g = st.ghost
    cx.oblige(st, Or(g["phase"] == 1, g["phase"] == 3), "json-order:element", "post")
    cx.oblige(st, a[0].o == g["made"], "prints-the-curve-just-generated", "post")
    cx.oblige(st, Not(g["failed"]), "prints-no-failed-curve", "post")
    g["phase"] = z3.IntVal(2)
    g["shown"] = g["shown"] + 1
    return None


def gen_k(cx, st, a, ins):
    "nonzero iff a curve was generated (C03)"
    r = z3.BitVec(fresh_name("generated"), 32)
    st.ghost["made"] = a[0].o
    st.ghost["failed"] = r == 0
    cx.oblige(st, And(a[2] == 0, a[3] == 9), "all-stages-requested", "post")
    return r


def post_run(cx, st0, st, args, rv):
    g, n = st.ghost, cx.u["count"]
    yield "array-closed", g["phase"] == 4
    yield "success-means-all-curves-printed", Implies(rv == 0, g["shown"] == n)
    yield "failure-means-a-generation-failed", Implies(rv != 0, g["failed"])


def run_inv(cx, info):
    g = lambda s: s.st.ghost
    for d in templates.int_phis(info):
        if info.entry.phi[d].size() == 64:
            yield "%s.shown" % info.canon[d], lambda s, d=d: And(g(s)["shown"] == s.phi[d], g(s)["phase"] == z3.If(s.phi[d] == 0, z3.IntVal(1), z3.IntVal(2)))
        if info.entry.phi[d].size() == 32:
            yield "%s.ok" % info.canon[d], lambda s, d=d: s.phi[d] == 0
    yield "nofail", lambda s: Not(g(s)["failed"])


def nop(cx, st, a, ins):
    "no effect on what is printed"
    return None


RUN = dict(output_o_begin=phase("opening", [0], 1), output_o_separator=phase("separator", [2], 3), output_o_end=phase("closing", [1, 2], 4), output_o=out_curve,
           exhaustive_gen=gen_k, curve_free=nop)

# ---------------------------------------------------------------- texts and JSON objects
fmt2 = F("printed2_s", INT, V, BV64, V)      # text of a value under a format with a width
fmt1 = F("printed1_s", INT, V, V)            # text of a value under a format
text_f = F("text_of_block", INT, V)          # text in a block (not modified after it was made)
elem_int = F("elementi_s", V, V)             # integer form of a field element (C14)
jsonof = F("json_of_o", INT, INT)            # json value made for a point object
jobj = F("json_object_of", INT, INT)         # the object view of a json value (the same node)
MAP = z3.ArraySort(INT, z3.ArraySort(INT, V))
_strs = {}


def lit(cx, p):
    """number of a literal text"""
    s = cx.mod_string(p) if hasattr(cx, "mod_string") else const_string(cx, p)
    return _strs.setdefault(s, len(_strs) + 1) if s is not None else None


def key(s):
    return _strs.setdefault(s, len(_strs) + 1)


def const_string(cx, p):
    o = simp(p.o)
    if not z3.is_int_value(o):
        return None
    names = [n for n, k in cx.gobj.items() if k == o.as_long()]
    if not names:
        return None
    out, k = "", simp(p.f)
    if not z3.is_bv_value(k):
        return None
    k = k.as_long()
    while True:
        v = cx.const_load(Ptr(p.o, bv(k)), ir.I(8))
        v = simp(v) if v is not None else None
        if v is None or not z3.is_bv_value(v):
            return None
        if v.as_long() == 0:
            return out
        out += chr(v.as_long())
        k += 1


def sprintf_k(cx, st, a, ins):
    "new text: the value printed under the format"
    l = lit(cx, a[0])
    r = gen(cx, st, name="text")
    if l is None:
        return r
    if len(a) == 3:
        w = a[1] if a[1].size() == 64 else z3.SignExt(32, a[1])
        cx.fact(TRUE, text_f(r.o) == fmt2(z3.IntVal(l), val(a[2]), w))
    elif len(a) == 2 and isinstance(a[1], Ptr):
        cx.fact(TRUE, text_f(r.o) == fmt1(z3.IntVal(l), val(a[1])))
    return r


def newjson(cx, st, a, ins):
    "a new, empty JSON value"
    r = gen(cx, st, name="json")
    st.ghost["has"] = z3.Store(st.ghost["has"], r.o, z3.K(INT, z3.BoolVal(False)))
    cx.u.setdefault("jsons", []).append(r.o)
    return r


def same_node(cx, st, a, ins):
    "the object or array of a JSON value (the same node)"
    return a[0]


def setstr(cx, st, a, ins):
    "sets the member to the text"
    l = lit(cx, a[1])
    g = st.ghost
    if l is None:
        cx.oblige(st, z3.BoolVal(False), "member-name-is-a-literal", "unsupported")
        return bv(0, 32)
    o, k = a[0].o, z3.IntVal(l)
    cx.oblige(st, Not(z3.Select(z3.Select(g["has"], o), k)), "member-set-once", "post")
    g["text"] = z3.Store(g["text"], o, z3.Store(z3.Select(g["text"], o), k, text_f(a[2].o)))
    g["has"] = z3.Store(g["has"], o, z3.Store(z3.Select(g["has"], o), k, z3.BoolVal(True)))
    return bv(0, 32)


def elementi_k(cx, st, a, ins):
    "integer form of the field element (C14)"
    return eitherold(cx, st, elem_int(val(a[0])))


JSON = dict(pari_sprintf=sprintf_k, json_value_init_object=newjson, json_value_get_object=same_node, json_object_set_string=setstr, json_object_dotset_string=setstr,
            field_elementi=elementi_k, try_free=nop, pari_free=nop, free=nop)


def ghosts(cx, st):
    st.ghost["text"] = z3.Const("text0", MAP)
    st.ghost["has"] = z3.Const("has0", z3.ArraySort(INT, z3.ArraySort(INT, z3.BoolSort())))
    cfg = cx.load(st, cx.glob("cfg"), ir.PTR, check=False)
    cx.assume(st, And(cfg.o >= 1, cfg.o < st.next))
    cx.u["width"] = cx.getf(st, cfg, "config_t", "hex_digits", I64)


def pre_point(cx, st):
    p = obj(cx, st, "point")
    ghosts(cx, st)
    pt = cx.getf(st, p, "point_t", "point")
    cx.u.update(p=p, x=val(gel(cx, st, pt, 1)), y=val(gel(cx, st, pt, 2)), order=val(cx.getf(st, p, "point_t", "order")), cof=cx.getf(st, p, "point_t", "cofactor"))
    cx.assume(st, Or(isnull(cx.u["cof"]), cx.u["cof"].o >= 1))
    return [p]


HEXW, HEX, DEC = "%P0#*x", "%P#x", "%Pi"


def member(st, o, k, t, when=TRUE):
    h = z3.Select(z3.Select(st.ghost["has"], o), z3.IntVal(key(k)))
    return And(h == when, Implies(when, z3.Select(z3.Select(st.ghost["text"], o), z3.IntVal(key(k))) == t))


def post_point(cx, st0, st, args, rv):
    u = cx.u
    w = u["width"]
    hexw = lambda v: fmt2(z3.IntVal(key(HEXW)), v, w)
    yield "new-object", rv.o >= st0.next
    yield "member:x", member(st, rv.o, "x", hexw(elem_int(u["x"])))
    yield "member:y", member(st, rv.o, "y", hexw(elem_int(u["y"])))
    yield "member:order", member(st, rv.o, "order", fmt1(z3.IntVal(key(HEX)), u["order"]))
    yield "member:cofactor", member(st, rv.o, "cofactor", fmt1(z3.IntVal(key(HEX)), val(u["cof"])), notnull(u["cof"]))
    k = z3.Int(fresh_name("k"))
    yield "no-other-member", Implies(And(*[k != key(x) for x in ("x", "y", "order", "cofactor")]), Not(z3.Select(z3.Select(st.ghost["has"], rv.o), k)))


UNITS = [
    Unit("exhaustive_generate", "C15", pre_run, post_run, templates=[run_inv], contracts=RUN),
    Unit("output_json_point", "C15", pre_point, post_point, contracts=JSON),
]


# ---------------------------------------------------------------- a whole curve: output_jjson
LIMIT = bv(1 << 20)
META = (("j_invariant", "meta.j"), ("discriminant", "meta.discriminant"), ("embedding_degree", "meta.embedding_degree"), ("frobenius_trace", "meta.frobenius"),
        ("cm_discriminant", "meta.cm_discriminant"), ("conductor", "meta.conductor"))
fpar = F("field_params_s", V, BV64, V)


def metaf(cx, st, o, m):
    fn = cx.mod.fieldnames
    return cx.load(st, Ptr(o.o, o.f, ("struct." + cx.structname("curve_t"), fn["curve_t"]["meta"] + fn["metadata_t"][m])), ir.PTR, check=False)


def newarr(cx, st, a, ins):
    "a new, empty JSON array"
    r = newjson(cx, st, a, ins)
    st.ghost["alen"] = z3.Store(st.ghost["alen"], r.o, bv(0))
    cx.u.setdefault("arrays", []).append(r.o)
    return r


def append_k(cx, st, a, ins):
    "appends the value to the array"
    g, o = st.ghost, a[0].o
    n = z3.Select(g["alen"], o)
    g["aelem"] = z3.Store(g["aelem"], o, z3.Store(z3.Select(g["aelem"], o), n, a[1].o))
    g["alen"] = z3.Store(g["alen"], o, n + 1)
    return bv(0, 32)


def setval(cx, st, a, ins):
    "sets the member to the value"
    l = lit(cx, a[1])
    g = st.ghost
    if l is None:
        cx.oblige(st, z3.BoolVal(False), "member-name-is-a-literal", "unsupported")
        return bv(0, 32)
    o, k = a[0].o, z3.IntVal(l)
    cx.oblige(st, Not(z3.Select(z3.Select(g["has"], o), k)), "member-set-once", "post")
    g["child"] = z3.Store(g["child"], o, z3.Store(z3.Select(g["child"], o), k, a[2].o))
    g["has"] = z3.Store(g["has"], o, z3.Store(z3.Select(g["has"], o), k, z3.BoolVal(True)))
    return bv(0, 32)


def json_point_k(cx, st, a, ins):
    "a new object with the coordinates, order and cofactor of the point (proved for the function itself)"
    r = newjson(cx, st, a, ins)
    cx.fact(TRUE, jsonof(r.o) == a[0].o)
    return r


def params_k(cx, st, a, ins):
    "degree and middle exponents of the reduction polynomial (C13)"
    v = val(a[0])
    return vec(cx, st, bv(4), lambda i, e: And(e.o >= 1, val(e) == fpar(v, i)), name="params")


def exit_k(cx, st, a, ins):
    "does not return"
    cx.assume(st, z3.BoolVal(False))
    return None


def anyv(cx, st, a, ins):
    "any value"
    return cx.fresh(ins.ty, "any")


def hexof(cx, st, a, ins):
    "the hexadecimal text of the bit string (C01)"
    r = gen(cx, st, name="hex")
    return r


JJ = dict(JSON, json_value_init_array=newarr, json_value_get_array=same_node, json_array_append_value=append_k, json_object_set_value=setval, output_json_point=json_point_k,
          field_params=params_k, bits_to_hex=hexof, strlen=anyv, strcat=lambda cx, st, a, ins: a[0], exit=exit_k)


def pre_curve(cx, st):
    c = obj(cx, st, "curve")
    for i in range(1, 5):
        cx.trigger(bv(i), "idx")
    ghosts(cx, st)
    nx = st.next
    st.ghost["alen"] = z3.Const("alen0", z3.ArraySort(INT, BV64))
    st.ghost["aelem"] = z3.Const("aelem0", z3.ArraySort(INT, z3.ArraySort(BV64, INT)))
    st.ghost["child"] = z3.Const("child0", z3.ArraySort(INT, z3.ArraySort(INT, INT)))
    cfg = cx.load(st, cx.glob("cfg"), ir.PTR, check=False)
    u = cx.u
    u["ftype"] = cx.getf(st, cfg, "config_t", "field", I32)
    u["metadata"] = cx.getf(st, cfg, "config_t", "metadata", ir.I(8))
    n = cx.getf(st, c, "curve_t", "ngens", I64)
    arr = cx.getf(st, c, "curve_t", "generators")
    seed = cx.getf(st, c, "curve_t", "seed")
    sb = cx.getf(st, seed, "seed_t", "seed")
    cx.assume(st, And(arr.o >= 1, arr.o < nx, z3.ULE(n, LIMIT), Or(isnull(seed), seed.o >= 1), Or(isnull(sb), sb.o >= 1), z3.ULE(u["metadata"], bv(1, 8))))
    s0 = st.copy()
    s0.pc = TRUE
    for k in ("field", "a", "b", "order"):
        u[k] = val(cx.getf(st, c, "curve_t", k))
    for m, _ in META:
        p = metaf(cx, st, c, m)
        cx.assume(st, Or(isnull(p), p.o >= 1))
        u["meta." + m] = p
    sub = lambda k: rawptr(cx, s0, arr, k * 8)
    g = lambda k: cx.getf(s0, sub(k), "subgroup_t", "generator")
    npt = lambda k: cx.getf(s0, sub(k), "subgroup_t", "npoints", I64)
    pts = lambda k: cx.getf(s0, sub(k), "subgroup_t", "points")
    I0, J0 = z3.BitVec("I0", 64), z3.BitVec("J0", 64)
    g(I0), npt(I0), pts(I0)
    cx.trigger(I0, "idx")
    cx.assume(st, Forall(BV64, lambda k: Implies(z3.ULT(k, n), And(sub(k).o >= 1, sub(k).o < nx, z3.ULE(npt(k), LIMIT))), "idx"))
    u.update(c=c, n=n, g=g, npt=npt, pts=pts, I0=I0, J0=J0, seed=And(notnull(seed), notnull(sb)), point=lambda k, j: rawptr(cx, s0, pts(k), j * 8))
    return [c]


def kid(st, o, k):
    return z3.Select(z3.Select(st.ghost["child"], o), z3.IntVal(key(k)))


def has(st, o, k):
    return z3.Select(z3.Select(st.ghost["has"], o), z3.IntVal(key(k)))


def list_ok(cx, st, arr, i, upto):
    """element J0 of the array of points of generator i, filled up to `upto`"""
    u, j = cx.u, cx.u["J0"]
    return And(z3.Select(st.ghost["alen"], arr) == upto, Implies(z3.ULT(j, upto), jsonof(z3.Select(z3.Select(st.ghost["aelem"], arr), j)) == u["point"](i, j).o))


def gen_parts(cx, st, arr):
    """element I0 of the array of generators"""
    u, i = cx.u, cx.u["I0"]
    e = z3.Select(z3.Select(st.ghost["aelem"], arr), i)
    n = u["npt"](i)
    pa = kid(st, e, "points")
    return [jsonof(e) == u["g"](i).o, And(e < st.next, e >= cx.st0.next), has(st, e, "points") == (n != 0),
            Implies(n != 0, z3.Select(st.ghost["alen"], pa) == n), Implies(n != 0, list_ok(cx, st, pa, i, n)), Implies(n != 0, And(pa < st.next, pa >= cx.st0.next, pa != arr))]


def gen_ok(cx, st, arr):
    return And(*gen_parts(cx, st, arr))


def kept(st, ens, o):
    return And(*[z3.Select(st.ghost[k], o) == z3.Select(ens.ghost[k], o) for k in ("has", "text", "child")])


def arr_inv(cx, info):
    """the arrays being filled (the objects the loop appends to)"""
    u = cx.u
    ens = info.entry.st
    js = cx.u.get("jsons", [])
    for n, o in enumerate(js[:1] + js[1:][-4:]):
        yield "object%d" % n, lambda s, o=o: kept(s.st, ens, o)
    arrs = cx.u.get("arrays", [])
    for n, o in enumerate(arrs[:1]):
        e = z3.Select(z3.Select(ens.ghost["aelem"], o), u["I0"])
        pa = kid(ens, e, "points")
        some = And(z3.ULT(u["I0"], z3.Select(ens.ghost["alen"], o)))
        yield "older%d" % n, lambda s, e=e, some=some: Implies(some, kept(s.st, ens, e))
        yield "olderlist%d" % n, lambda s, e=e, pa=pa, some=some: Implies(And(some, has(ens, e, "points")), And(
            z3.Select(s.st.ghost["alen"], pa) == z3.Select(ens.ghost["alen"], pa), z3.Select(s.st.ghost["aelem"], pa) == z3.Select(ens.ghost["aelem"], pa)))
    for n, o in enumerate(arrs[:1] + arrs[1:][-2:]):
        for d in templates.int_phis(info):
            if info.entry.phi[d].size() != 64:
                continue
            yield "%s.len%d" % (info.canon[d], n), lambda s, d=d, o=o: z3.Select(s.st.ghost["alen"], o) == s.phi[d]
            for q in range(6):
                yield "%s.gens%d.%d" % (info.canon[d], n, q), lambda s, d=d, o=o, q=q: Implies(z3.ULT(u["I0"], s.phi[d]), gen_parts(cx, s.st, o)[q])
            for w, x in enumerate([x for x in info.fr.env.values() if z3.is_bv(x) and x.size() == 64 and z3.is_const(x) and not z3.is_bv_value(x)][-3:]):
                yield "%s.pts%d.%d" % (info.canon[d], n, w), lambda s, d=d, o=o, x=x: list_ok(cx, s.st, o, x, s.phi[d])
        yield "kept%d" % n, lambda s, o=o: And(z3.Select(s.st.ghost["alen"], o) == z3.Select(ens.ghost["alen"], o), z3.Select(s.st.ghost["aelem"], o) == z3.Select(ens.ghost["aelem"], o))
        yield "members%d" % n, lambda s, o=o: And(z3.Select(s.st.ghost["has"], o) == z3.Select(ens.ghost["has"], o), z3.Select(s.st.ghost["text"], o) == z3.Select(ens.ghost["text"], o),
                                                  z3.Select(s.st.ghost["child"], o) == z3.Select(ens.ghost["child"], o))
        yield "element%d" % n, lambda s, o=o: Implies(z3.ULT(u["I0"], z3.Select(ens.ghost["alen"], o)), gen_ok(cx, s.st, o))


def post_curve(cx, st0, st, args, rv):
    u, o = cx.u, rv.o
    w = u["width"]
    hexw = lambda v: fmt2(z3.IntVal(key(HEXW)), v, w)
    hex1 = lambda v: fmt1(z3.IntVal(key(HEX)), v)
    dec = lambda v: fmt1(z3.IntVal(key(DEC)), v)
    prime = u["ftype"] == cx.mod.enum("FIELD_PRIME")
    yield "field:p", member(st, o, "field.p", hexw(u["field"]), prime)
    for i, k in ((1, "m"), (2, "e1"), (3, "e2"), (4, "e3")):
        yield "field:" + k, member(st, o, "field." + k, hex1(fpar(u["field"], bv(i))), Not(prime))
    for k in ("a", "b"):
        yield "coefficient:" + k, member(st, o, k, hexw(elem_int(u[k])))
    yield "order", member(st, o, "order", hexw(u["order"]))
    yield "seed-iff-there-is-one", has(st, o, "seed") == u["seed"]
    yield "subgroups-iff-there-are-any", has(st, o, "subgroups") == (u["n"] != 0)
    arr = kid(st, o, "subgroups")
    yield "as-many-subgroups-as-generators", Implies(u["n"] != 0, z3.Select(st.ghost["alen"], arr) == u["n"])
    yield "every-subgroup-with-its-points", Implies(z3.ULT(u["I0"], u["n"]), gen_ok(cx, st, arr))
    for m, k in META:
        p = u["meta." + m]
        yield "metadata:" + m, member(st, o, k, dec(val(p)), And(u["metadata"] != 0, notnull(p)))


UNITS += [Unit("output_jjson", "C15", pre_curve, post_curve, templates=[arr_inv], contracts=JJ)]
