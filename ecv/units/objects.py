"""C18: copying and releasing curves, subgroups, points and seeds"""
import z3
from ..theory import *
from ..theory import F
from ..pari import *
from ..libc import row
from .. import templates
from ..unit import Unit, obj, TRUE
from ..vcg import fresh_name, Ptr, And, Or, Not, Implies, bv, Forall, simp, peq, Ite, isnull, notnull

I64 = ir.I(64)
CNT = z3.ArraySort(INT, INT)            # object -> how often released
IDX = z3.ArraySort(BV64, INT)           # byte offset in an array of handles -> how often released
copy_o, copy_f = F("copy_of_o", INT, INT), F("copy_of_f", INT, BV64)     # the object a copy was made of
LIMIT = bv(1 << 40)

META = ("j_invariant", "discriminant", "cm_discriminant", "frobenius_trace", "embedding_degree", "conductor")
GENS = {"subgroup_t": (), "point_t": ("point", "order", "cofactor"), "curve_t": ("field", "a", "b", "curve", "order")}
CHILD = {"subgroup_t": (("generator", "point"),), "curve_t": (("seed", "seed"),), "point_t": ()}
ARR = {"subgroup_t": ("points", "npoints"), "curve_t": ("generators", "ngens"), "point_t": None}


def metaf(cx, st, o, m):
    fn = cx.mod.fieldnames
    return cx.load(st, Ptr(o.o, o.f, ("struct." + cx.structname("curve_t"), fn["curve_t"]["meta"] + fn["metadata_t"][m])), ir.PTR, check=False)


def members(cx, st, struct, p):
    """value-carrying members: name -> pointer"""
    d = {m: cx.getf(st, p, struct, m) for m in GENS[struct]}
    if struct == "curve_t":
        for m in META:
            d["meta." + m] = metaf(cx, st, p, m)
    return d


def is_copy(p, q):
    """p is a copy made of q"""
    return And(p.o >= 1, copy_o(p.o) == q.o, copy_f(p.o) == q.f)


def new_copy(kind):
    def k(cx, st, a, ins):
        "a new, complete and independent copy (proved for the function itself)"
        r = gen(cx, st, name=kind)
        cx.fact(TRUE, And(copy_o(r.o) == a[0].o, copy_f(r.o) == a[0].f))
        if len(a) > 1:
            cx.fact(TRUE, ncopied(r.o) == a[1])
        return r
    return k


ncopied = F("number_copied", INT, BV64)
COPY = {n + s: new_copy(n) for n in ("point_new_", "subgroup_new_", "points_new_", "subgroups_new_", "seed_new_") for s in ("copy", "clone")}


# ---------------------------------------------------------------- copies of one object
def pre_copy(struct, fn_new=False):
    def p(cx, st):
        src, dest = obj(cx, st, "src"), obj(cx, st, "dest")
        cx.u.update(src=src, dest=dest)
        for s, o in (("src", src), ("dest", dest)):
            d = members(cx, st, struct, o)
            for m, _ in CHILD[struct]:
                d[m] = cx.getf(st, o, struct, m)
            if ARR[struct]:
                d[ARR[struct][0]] = cx.getf(st, o, struct, ARR[struct][0])
                cx.u[s + ".n"] = cx.getf(st, o, struct, ARR[struct][1], I64)
            cx.u[s + ".m"] = d
        for x in cx.u["src.m"].values():
            cx.assume(st, Or(isnull(x), x.o >= 1))
        if fn_new:
            return [src]
        return [src, dest]
    return p


def same(cx, st, struct, new, zero):
    """every member of `new` is a copy of the source's; members the source lacks keep the destination's value"""
    src = cx.u["src.m"]
    now = members(cx, st, struct, new)
    nx = cx.st0.next

    def keep(m):
        return isnull if zero else (lambda p: peq(p, cx.u["dest.m"][m]))
    for m, p in now.items():
        yield m, And(Implies(notnull(src[m]), And(notnull(p), val(p) == val(src[m]))), Implies(isnull(src[m]), keep(m)(p)))
        yield m + "-not-shared", Implies(notnull(src[m]), p.o >= nx)
    for m, _ in CHILD[struct]:
        p = cx.getf(st, new, struct, m)
        yield m, And(Implies(notnull(src[m]), And(is_copy(p, src[m]), p.o >= nx)), Implies(isnull(src[m]), keep(m)(p)))
    if ARR[struct]:
        am, nm = ARR[struct]
        p, n = cx.getf(st, new, struct, am), cx.getf(st, new, struct, nm, I64)
        yield am, And(Implies(notnull(src[am]), And(is_copy(p, src[am]), p.o >= nx)), Implies(isnull(src[am]), keep(am)(p)))
        yield am + "-number", Implies(notnull(src[am]), And(n == cx.u["src.n"], ncopied(p.o) == n))


def post_copy(struct, fn_new=False):
    def p(cx, st0, st, args, rv):
        new = rv if fn_new else cx.u["dest"]
        if fn_new:
            yield "new-object", rv.o >= st0.next
        else:
            yield "destination-returned", peq(rv, new)
        for n, g in same(cx, st, struct, new, fn_new):
            yield "copied:" + n, g
        for m, q in members(cx, st, struct, cx.u["src"]).items():
            yield "source-unchanged:" + m, peq(q, cx.u["src.m"][m])
    return p


# ---------------------------------------------------------------- arrays of handles
def pre_arr(new):
    def p(cx, st):
        n = z3.BitVec("num", 64)
        cx.assume(st, z3.ULE(n, LIMIT))
        src = obj(cx, st, "srcarray", n * 8)
        dest = obj(cx, st, "destarray", n * 8)
        cx.u.update(n=n, src=src, dest=dest, cell0=lambda k, s0=st.copy(): rawptr(cx, s0, src, k * 8))
        return [src, n] if new else [src, dest, n]
    return p


def post_arr(new):
    def p(cx, st0, st, args, rv):
        d = rv if new else cx.u["dest"]
        if new:
            yield "new-array", rv.o >= st0.next
        else:
            yield "destination-returned", peq(rv, d)
        k = z3.BitVec(fresh_name("k"), 64)
        cx.trigger(k, "idx")
        e = rawptr(cx, st, d, k * 8)
        yield "every-element-is-a-copy", Implies(z3.ULT(k, cx.u["n"]), And(is_copy(e, cx.u["cell0"](k)), e.o >= st0.next))
        yield "source-array-unchanged", Implies(z3.ULT(k, cx.u["n"]), peq(rawptr(cx, st, cx.u["src"], k * 8), cx.u["cell0"](k)))
    return p


def arr_inv(cx, info):
    """below / above every loop variable the elements are copies"""
    u = cx.u
    d = u["dest"]
    objs = templates.outer_objs(info, "ptr.o")
    if objs:
        d = Ptr(objs[0])

    def elem(s, k):
        e = rawptr(cx, s.st, d, k * 8)
        return And(is_copy(e, u["cell0"](k)), e.o >= cx.st0.next)
    yield from templates.visited([("copied", elem)])(cx, info)
    # counting down
    for v in templates.int_phis(info):
        if info.entry.phi[v].size() == 64:
            yield "%s.above.copied" % info.canon[v], (lambda s, v=v: Forall(BV64, lambda k: Implies(And(z3.UGE(k, s.phi[v]), z3.ULT(k, u["n"])), elem(s, k)), "idx"))
            yield "%s.above+1.copied" % info.canon[v], (lambda s, v=v: Forall(BV64, lambda k: Implies(And(z3.UGT(k, s.phi[v]), z3.ULT(k, u["n"])), elem(s, k)), "idx"))


# ---------------------------------------------------------------- release
def once(cx, st, key, o):
    m = st.ghost[key]
    st.ghost[key] = z3.Store(m, o, z3.Select(m, o) + 1)


def release(cx, st, a, ins):
    "releases the block"
    cx.oblige(st, Or(a[0].o == 0, a[0].f == 0), "releases-the-start-of-a-block", "post")
    m = st.ghost["freed"]
    st.ghost["freed"] = z3.Store(m, a[0].o, z3.Select(m, a[0].o) + z3.If(a[0].o == 0, 0, 1))
    return None


def unclone(cx, st, a, ins):
    "releases a clone"
    cx.oblige(st, And(notnull(a[0]), isclone_f(a[0].o, a[0].f)), "only-clones-are-unclones", "post")
    m = st.ghost["uncloned"]
    st.ghost["uncloned"] = z3.Store(m, a[0].o, z3.Select(m, a[0].o) + 1)
    return None


def by_handle(kind):
    def k(cx, st, a, ins):
        "releases the object and nulls the handle (proved for the function itself)"
        p = cx.load(st, a[0], ir.PTR, check=False)
        m = st.ghost["rel." + kind]
        st.ghost["rel." + kind] = z3.Store(m, p.o, z3.Select(m, p.o) + 1)
        if len(a) > 1:
            c = st.ghost["num." + kind]
            st.ghost["num." + kind] = z3.Store(c, p.o, a[1])
        cx.store(st, a[0], Ptr(z3.IntVal(0)), ir.PTR, check=False)
        return None
    return k


def isclone_k(cx, st, a, ins):
    "whether the object is a clone (not asked of a null pointer)"
    cx.oblige(st, notnull(a[0]), "no-null-dereference", "post")
    return z3.If(isclone_f(a[0].o, a[0].f), bv(1), bv(0))


def objfree(cx, st, a, ins):
    "releases the data PARI attached to the object"
    cx.oblige(st, notnull(a[0]), "no-null-dereference", "post")
    m = st.ghost["attached"]
    st.ghost["attached"] = z3.Store(m, a[0].o, z3.Select(m, a[0].o) + 1)
    return None


KINDS = ("point", "points", "subgroup", "subgroups", "seed", "bits", "points_deep", "subgroups_deep", "subgroup_deep")
REL = {"try_free": release, "gunclone": unclone, "ecv_isclone": isclone_k, "obj_free": objfree}
HANDLE = {k: (k.replace("_deep", "") + "_free" + ("_deep" if k.endswith("_deep") else "")) for k in KINDS}
ZERO = z3.K(INT, z3.IntVal(0))


def rel(*kinds):
    return dict(REL, **{HANDLE[k]: by_handle(k) for k in kinds})


def ghosts(st):
    for g in ["freed", "uncloned", "attached"] + ["rel." + k for k in KINDS]:
        st.ghost[g] = ZERO
    for k in KINDS:
        st.ghost["num." + k] = z3.K(INT, bv(0))


def pre_free(struct):
    def p(cx, st):
        h = obj(cx, st, "handle", 8)
        p = cx.load(st, h, ir.PTR, check=False)
        cx.assume(st, Or(isnull(p), And(p.o >= 1, p.f == 0)))
        cx.u.update(h=h, p=p)
        if struct:
            cx.u["m"] = members(cx, st, struct, p) if struct in GENS else {}
            if struct in CHILD:
                for m, _ in CHILD[struct]:
                    cx.u["m:" + m] = cx.getf(st, p, struct, m)
                if ARR[struct]:
                    cx.u["arr"] = cx.getf(st, p, struct, ARR[struct][0])
                    cx.u["n"] = cx.getf(st, p, struct, ARR[struct][1], I64)
        ghosts(st)
        return [h]
    return p


def counts(cx, st, what, want):
    """ghost counter `what` equals want(o) for every object o"""
    o = z3.Int(fresh_name("o"))
    return z3.Select(st.ghost[what], o) == want(o)


def total(o, *conds):
    r = z3.IntVal(0)
    for c, x in conds:
        r = r + z3.If(And(c, o == x), 1, 0)
    return r


def post_free(struct, children=(), arr=None, block=True, attached=None):
    def post(cx, st0, st, args, rv):
        p = cx.u["p"]
        live = notnull(p)
        yield "handle-null-afterwards", isnull(cx.load(st, cx.u["h"], ir.PTR, check=False))
        yield "block-released-once-and-nothing-else", counts(cx, st, "freed", lambda o: total(o, (live, p.o)) if block else z3.IntVal(0))
        if struct in GENS:
            ms = [m for m in cx.u["m"].values()]
            yield "every-clone-released-once", counts(cx, st, "uncloned", lambda o: total(o, *[(And(live, notnull(m), isclone_f(m.o, m.f)), m.o) for m in ms]))
        else:
            yield "every-clone-released-once", counts(cx, st, "uncloned", lambda o: z3.IntVal(0))
        if attached:
            m = cx.u["m"][attached]
            yield "attached-data-released-once", counts(cx, st, "attached", lambda o: total(o, (And(live, notnull(m)), m.o)))
        for kind, ptr in children:
            q = p if ptr is None else cx.u["m:" + ptr]
            # releasing a null handle does nothing
            yield "%s-released-once" % (ptr or kind), counts(cx, st, "rel." + kind, lambda o: z3.If(o == 0, z3.Select(st.ghost["rel." + kind], o), total(o, (live, q.o))))
        if arr:
            a = cx.u["arr"]
            yield "%s-released-once" % arr, counts(cx, st, "rel." + arr, lambda o: z3.If(o == 0, z3.Select(st.ghost["rel." + arr], o), total(o, (live, a.o))))
            yield "%s-all-of-them" % arr, Implies(And(live, notnull(a)), z3.Select(st.ghost["num." + arr], a.o) == cx.u["n"])
        for k in KINDS:
            if k not in [c[0] for c in children] and k != arr:
                yield "nothing-else-released:" + k, counts(cx, st, "rel." + k, lambda o: z3.If(o == 0, z3.Select(st.ghost["rel." + k], o), 0))
    return post


# ---------------------------------------------------------------- releasing arrays with their elements
def pre_deep(cx, st):
    h = obj(cx, st, "handle", 8)
    n = z3.BitVec("num", 64)
    cx.assume(st, z3.ULE(n, LIMIT))
    arr = obj(cx, st, "array", n * 8)
    isn = z3.Bool("nullarray")
    p = Ptr(z3.If(isn, z3.IntVal(0), arr.o))
    cx.store(st, h, p, ir.PTR, check=False)
    cx.u.update(h=h, p=p, arr=arr, n=n, isn=isn, cell0=lambda k, s0=st.copy(): rawptr(cx, s0, arr, k * 8))
    ghosts(st)
    st.ghost["elem"] = z3.K(BV64, z3.IntVal(0))
    return [h, n]


def elem_free(cx, st, a, ins):
    "releases the element and nulls its handle (proved for the function itself)"
    h = a[0]
    cx.oblige(st, And(h.o == cx.u["arr"].o, h.f & 7 == 0, z3.ULT(h.f, cx.u["n"] * 8)), "releases-an-element-of-the-array", "post")
    k = z3.LShR(h.f, bv(3))
    cx.trigger(k, "idx")
    cx.oblige(st, peq(cx.load(st, h, ir.PTR, check=False), cx.u["cell0"](k)), "element-not-overwritten-before", "post")
    m = st.ghost["elem"]
    st.ghost["elem"] = z3.Store(m, k, z3.Select(m, k) + 1)
    cx.store(st, h, Ptr(z3.IntVal(0)), ir.PTR, check=False)
    return None


def deep_inv(cx, info):
    u = cx.u

    def one(s, k):
        return z3.Select(s.st.ghost["elem"], k) == 1

    def none(s, k):
        return And(z3.Select(s.st.ghost["elem"], k) == 0, peq(rawptr(cx, s.st, u["arr"], k * 8), u["cell0"](k)))
    for v in templates.int_phis(info):
        if info.entry.phi[v].size() != 64:
            continue
        for nm, lo, hi in (("up", one, none), ("down", none, one)):
            yield "%s.%s" % (info.canon[v], nm), (lambda s, v=v, lo=lo, hi=hi: Forall(BV64, lambda k: And(
                Implies(And(z3.ULT(k, s.phi[v]), z3.ULT(k, u["n"])), lo(s, k)), Implies(And(z3.UGE(k, s.phi[v]), z3.ULT(k, u["n"])), hi(s, k))), "idx"))
    yield "handle", (lambda s: peq(cx.load(s.st, u["h"], ir.PTR, check=False), u["p"]))


def post_deep(shell):
    def post(cx, st0, st, args, rv):
        k = z3.BitVec(fresh_name("k"), 64)
        cx.trigger(k, "idx")
        live = Not(cx.u["isn"])
        yield "handle-null-afterwards", isnull(cx.load(st, cx.u["h"], ir.PTR, check=False))
        yield "every-element-released-once", Implies(And(live, z3.ULT(k, cx.u["n"])), z3.Select(st.ghost["elem"], k) == 1)
        yield "null-releases-nothing", Implies(Not(live), z3.Select(st.ghost["elem"], k) == 0)
        yield "array-released-once", counts(cx, st, "rel." + shell, lambda o: z3.If(o == 0, z3.Select(st.ghost["rel." + shell], o), total(o, (live, cx.u["arr"].o))))
        yield "nothing-else-released", counts(cx, st, "freed", lambda o: z3.IntVal(0))
    return post


OPT = dict(memsafe=True, auto_trig=True)
UNITS = []
for s in ("point", "subgroup", "curve"):
    t = s + "_t"
    for f in ("copy", "clone"):
        UNITS += [Unit("%s_%s" % (s, f), "C18", pre_copy(t), post_copy(t), contracts=COPY),
                  Unit("%s_new_%s" % (s, f), "C18", pre_copy(t, True), post_copy(t, True), contracts=COPY)]
for s in ("point", "subgroup"):
    for f in ("copy", "clone"):
        UNITS += [Unit("%ss_%s" % (s, f), "C18", pre_arr(False), post_arr(False), contracts=COPY, templates=[arr_inv], opts=OPT),
                  Unit("%ss_new_%s" % (s, f), "C18", pre_arr(True), post_arr(True), contracts=COPY, templates=[arr_inv], opts=OPT)]
UNITS += [
    Unit("point_free", "C18", pre_free("point_t"), post_free("point_t"), contracts=rel()),
    Unit("points_free", "C18", pre_free(None), post_free(None), contracts=rel()),
    Unit("subgroups_free", "C18", pre_free(None), post_free(None), contracts=rel()),
    Unit("subgroup_free", "C18", pre_free("subgroup_t"), post_free(None, [("point", "generator")]), contracts=rel("point")),
    Unit("subgroup_free_deep", "C18", pre_free("subgroup_t"), post_free(None, [("subgroup", None)], "points_deep", block=False), contracts=rel("points_deep", "subgroup")),
    Unit("curve_free", "C18", pre_free("curve_t"), post_free("curve_t", [("seed", "seed")], "subgroups_deep", attached="curve"), contracts=rel("seed", "subgroups_deep")),
    Unit("points_free_deep", "C18", pre_deep, post_deep("points"), contracts=dict(rel("points"), point_free=elem_free), templates=[deep_inv], opts=OPT),
    Unit("subgroups_free_deep", "C18", pre_deep, post_deep("subgroups"), contracts=dict(rel("subgroups"), subgroup_free_deep=elem_free), templates=[deep_inv], opts=OPT),
]


# ---------------------------------------------------------------- seeds
def pre_sfree(cx, st):
    a = pre_free(None)(cx, st)
    p = cx.u["p"]
    g = lambda m, t=ir.PTR: cx.getf(st, p, "seed_t", m, t)
    cx.u.update(seed=g("seed"), hash=g("hash20"), type=g("type", ir.I(32)), sa=g("brainpool.seed_a"), sb=g("brainpool.seed_b"))
    cx.assume(st, Implies(notnull(cx.u["hash"]), And(cx.u["hash"].o >= 1, cx.u["hash"].f == 0)))
    cx.assume(st, z3.ULE(cx.u["type"], cx.mod.enum("SEED_FAMILY")))
    return a


def post_sfree(cx, st0, st, args, rv):
    u, p = cx.u, cx.u["p"]
    live = notnull(p)
    bp = And(live, Or(*[u["type"] == cx.mod.enum(n) for n in ("SEED_BRAINPOOL", "SEED_BRAINPOOL_RFC")]))
    yield "handle-null-afterwards", isnull(cx.load(st, u["h"], ir.PTR, check=False))
    yield "block-and-hash-released-once", counts(cx, st, "freed", lambda o: total(o, (live, p.o), (And(live, notnull(u["hash"])), u["hash"].o)))
    yield "bit-strings-released-once", counts(cx, st, "rel.bits", lambda o: z3.If(o == 0, z3.Select(st.ghost["rel.bits"], o), total(o, (live, u["seed"].o), (bp, u["sa"].o), (bp, u["sb"].o))))


def bits_copy_k(cx, st, a, ins):
    "a new, equal bit string (C01)"
    r = gen(cx, st, name="bitscopy")
    cx.fact(TRUE, And(copy_o(r.o) == a[0].o, copy_f(r.o) == a[0].f))
    return r


def memdup_k(cx, st, a, ins):
    "a new block with the same n bytes (C20)"
    r = gen(cx, st, name="dup")
    cx.fact(TRUE, And(copy_o(r.o) == a[0].o, copy_f(r.o) == a[0].f, ncopied(r.o) == a[1]))
    return r


def pre_scopy(new):
    def p(cx, st):
        src, dest = obj(cx, st, "src"), obj(cx, st, "dest")
        cx.u.update(src=src, dest=dest)
        for s, o in (("src", src), ("dest", dest)):
            for m in ("seed", "hash20"):
                cx.u[s + "." + m] = cx.getf(st, o, "seed_t", m)
        return [src] if new else [src, dest]
    return p


def post_scopy(new):
    def p(cx, st0, st, args, rv):
        d = rv if new else cx.u["dest"]
        yield ("new-object" if new else "destination-returned"), (rv.o >= st0.next if new else peq(rv, d))
        for m in ("seed", "hash20"):
            q, s = cx.getf(st, d, "seed_t", m), cx.u["src." + m]
            keep = isnull(q) if new else peq(q, cx.u["dest." + m])
            yield "copied:" + m, And(Implies(notnull(s), And(is_copy(q, s), q.o >= st0.next)), Implies(isnull(s), keep))
            if m == "hash20":
                yield "copied:whole-hash", Implies(notnull(s), ncopied(q.o) == 20)
            yield "source-unchanged:" + m, peq(cx.getf(st, cx.u["src"], "seed_t", m), s)
    return p


SC = dict(bits_copy=bits_copy_k, try_memdup=memdup_k)
UNITS += [Unit("seed_free", "C18", pre_sfree, post_sfree, contracts=rel("bits"))]
for f, n in (("seed_copy", False), ("seed_clone", False), ("seed_new_copy", True), ("seed_new_clone", True)):
    UNITS.append(Unit(f, "C18", pre_scopy(n), post_scopy(n), contracts=SC))
