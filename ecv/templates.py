"""Candidate loop invariants, generated from the loop itself (never from source text): bounds and relations of the loop
variables, frame of objects, and 'for all k already visited' forms of predicates a unit supplies."""
import z3
from .vcg import Ptr, Forall, And, Or, Implies, bv, BV64, is_true, Not


def outer_objs(info, c):
    """objects of the class the loop writes to, without those it allocates itself"""
    own = set(a.get_id() for a in info.allocs)
    seen = {}
    for o in info.written.get(c, []):
        if o is not None and o.get_id() not in own:
            seen.setdefault(o.get_id(), o)
    return list(seen.values())


def int_phis(info):
    return [p.dst for p in info.phis if p.ty.k == "i" and p.ty.n in (32, 64)]


def bounds(cx, info):
    """comparisons of a loop variable with its entry value, zero and the bounds tested in the loop"""
    en = info.entry.phi
    for d in int_phis(info):
        e = en[d]
        w = e.size()
        base = [e]
        for b in info.bounds:
            if b.size() == w and not any(b.eq(x) for x in base):
                base.append(b)
            if b.size() < w:
                base.append(z3.ZeroExt(w - b.size(), b))
                base.append(z3.SignExt(w - b.size(), b))
        if not any(z3.is_bv_value(x) and x.as_long() == 0 for x in base):
            base.append(bv(0, w))
        for n, b in enumerate(base[:8]):
            for nm, f in (("ule", z3.ULE), ("uge", z3.UGE), ("sle", lambda x, y: x <= y), ("sge", lambda x, y: x >= y)):
                yield "%s.%s.b%d" % (info.canon[d], nm, n), (lambda s, d=d, f=f, b=b: f(s.phi[d], b))
            yield "%s.ule+1.b%d" % (info.canon[d], n), (lambda s, d=d, b=b, w=w: Or(z3.ULE(s.phi[d], b), s.phi[d] == b + 1))
            yield "%s.sle+1.b%d" % (info.canon[d], n), (lambda s, d=d, b=b, w=w: Or(s.phi[d] <= b, s.phi[d] == b + 1))
            yield "%s.sge-1.b%d" % (info.canon[d], n), (lambda s, d=d, b=b, w=w: Or(s.phi[d] >= b, s.phi[d] == b - 1))


def relations(cx, info):
    en = info.entry.phi
    ph = int_phis(info)
    for i, a in enumerate(ph):
        for b in ph[i + 1:]:
            if en[a].size() != en[b].size():
                continue
            yield "%s-%s" % (info.canon[a], info.canon[b]), (lambda s, a=a, b=b: s.phi[a] - s.phi[b] == en[a] - en[b])
            yield "%s+%s" % (info.canon[a], info.canon[b]), (lambda s, a=a, b=b: s.phi[a] + s.phi[b] == en[a] + en[b])
            for k in (2, 8):
                yield "%s*%d-%s" % (info.canon[a], k, info.canon[b]), (lambda s, a=a, b=b, k=k: (s.phi[a] - en[a]) * k == s.phi[b] - en[b])
                yield "%s-%s*%d" % (info.canon[a], info.canon[b], k), (lambda s, a=a, b=b, k=k: s.phi[a] - en[a] == (s.phi[b] - en[b]) * k)
    for p in info.phis:
        d = p.dst
        if p.ty.k == "ptr":
            e = en[d]
            yield "%s.obj" % info.canon[d], (lambda s, d=d, e=e: s.phi[d].o == e.o)
            yield "%s.nonnull" % info.canon[d], (lambda s, d=d: s.phi[d].o >= 1)
            for a in ph:
                if en[a].size() == 64:
                    for k in (1, 8, 16):
                        yield "%s.off+%d%s" % (info.canon[d], k, info.canon[a]), (lambda s, d=d, e=e, a=a, k=k: And(
                            s.phi[d].o == e.o, s.phi[d].f - e.f == (s.phi[a] - en[a]) * k))
        elif p.ty.k == "i" and p.ty.n == 1:
            yield "%s.true" % info.canon[d], (lambda s, d=d: s.phi[d])
            yield "%s.false" % info.canon[d], (lambda s, d=d: z3.Not(s.phi[d]))


def visited(preds, key="idx", sort=BV64):
    """for every integer loop variable i and predicate p (state, k): all k in [entry, i) / (i, entry] satisfy p.
    preds: list of (name, fn(snap, k))"""
    def t(cx, info):
        en = info.entry.phi
        for d in int_phis(info):
            e = en[d]

            def ext(x):
                return x if x.size() == 64 else z3.SignExt(64 - x.size(), x)
            for nm, p in preds:
                yield "%s.all-below.%s" % (info.canon[d], nm), (lambda s, d=d, e=e, p=p: Forall(
                    sort, lambda k: Implies(And(z3.ULE(ext(e), k), z3.ULT(k, ext(s.phi[d]))), p(s, k)), key))
                yield "%s.all-above.%s" % (info.canon[d], nm), (lambda s, d=d, e=e, p=p: Forall(
                    sort, lambda k: Implies(And(z3.UGE(ext(e), k), z3.UGT(k, ext(s.phi[d]))), p(s, k)), key))
                # 0-based counter for 1-based data
                yield "%s.all-below+1.%s" % (info.canon[d], nm), (lambda s, d=d, e=e, p=p: Forall(
                    sort, lambda k: Implies(And(z3.ULE(ext(e), k - 1), z3.ULE(k, ext(s.phi[d])), k != 0), p(s, k)), key))
    return t


GENERIC = [bounds, relations]
