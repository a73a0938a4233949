"""Common parts of the bounded stand-ins that run the real ecgen: parallel runs, strict JSON, an oracle in gp (point
counting, element orders) for the reported values."""
import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

GPDEFS = r"""
ff(m,e)={my(P=x^m+1);for(i=1,#e,if(e[i],P+=x^e[i]));my(Q=P*Mod(1,2));if(!polisirreducible(Q),error("reducible"));ffgen(Q,'t)};
el(g,n)=if(n==0,0*g,subst(Pol(binary(n)),'x,g));
tr(e)=iferr(e(),E,0);
t(id,e)=if(!iferr(e(),E,0),print("X ",id));
ptin(E,P,G,o)={if(P==[0],return(1));my(q=elllog(E,P,G,o));q!=[]};
"""


class Run:
    def __init__(self, args, rc, out, err, curves, why):
        self.args, self.rc, self.out, self.err, self.curves, self.why = args, rc, out, err, curves, why

    def cmd(self):
        return "ecgen " + " ".join(self.args)


def no_dup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise ValueError("duplicate key %r" % k)
        d[k] = v
    return d


def parse(out):
    """strict JSON array of objects, or the reason why not"""
    try:
        v = json.loads(out, object_pairs_hook=no_dup)
    except ValueError as e:
        return None, str(e)
    if not isinstance(v, list) or not all(isinstance(x, dict) for x in v):
        return None, "not an array of objects"
    return v, None


def num(s):
    s = s.lower()
    neg = s.startswith("-")
    if neg:
        s = s[1:]
    if not s.startswith("0x"):
        raise ValueError("not a hexadecimal number: %r" % s)
    n = int(s[2:], 16) if len(s) > 2 else 0
    return -n if neg else n


class Curve:
    def __init__(self, d):
        self.d = d
        f = d["field"]
        if "p" in f:
            self.p = num(f["p"])
            self.q = self.p
            self.m = None
        else:
            self.p = None
            self.m, self.e = num(f["m"]), [num(f[k]) for k in ("e1", "e2", "e3")]
            self.q = 1 << self.m
        self.a, self.b, self.n = num(d["a"]), num(d["b"]), num(d["order"])
        self.seed = d.get("seed")
        self.subs = [Sub(x) for x in d.get("subgroups", [])]

    def gp(self):
        """gp code binding E (and g)"""
        if self.p is not None:
            return "p=%d;E=ellinit([Mod(%d,p),Mod(%d,p)],p);" % (self.p, self.a, self.b)
        return "g=ff(%d,%s);E=ellinit([1,el(g,%d),0,0,el(g,%d)]*g^0);" % (self.m, self.e, self.a, self.b)

    def pt(self, s):
        if self.p is not None:
            return "[Mod(%d,p),Mod(%d,p)]" % (s.x, s.y)
        return "[el(g,%d),el(g,%d)]" % (s.x, s.y)


class Sub:
    def __init__(self, d):
        self.d = d
        self.x, self.y, self.o = num(d["x"]), num(d["y"]), num(d["order"])
        self.cof = num(d["cofactor"]) if "cofactor" in d else None
        self.points = [Sub(x) for x in d.get("points", [])]


def runs(nat, jobs, timeout=25, asan=False):
    """jobs: (args, stdin) or (args, stdin, seed).  Runs them in parallel on the real program."""
    nat.ecgen(asan)

    def one(ij):
        i, j = ij
        args, stdin = list(j[0]), j[1] if len(j) > 1 else ""
        seed = j[2] if len(j) > 2 else nat.seed * 1000 + i
        if nat.left() < 2:
            return None
        rc, out, err = nat.cli(args, timeout, stdin, seed, asan)
        v, why = parse(out)
        cs = None
        if v is not None:
            try:
                cs = [Curve(x) for x in v]
            except (KeyError, ValueError, AttributeError, TypeError) as e:
                why = "curve object: %r" % e
        r = Run(args, rc, out, err, cs, why)
        r.seed, r.stdin, r.json = seed, stdin, v
        return r
    with ThreadPoolExecutor(min(8, os.cpu_count() or 1)) as ex:
        rs = list(ex.map(one, enumerate(jobs)))
    return rs


class GP:
    """batch of boolean gp expressions; failing ones are reported"""

    def __init__(self, nat):
        self.nat = nat
        self.items = []      # (pre code, [(key, expr, text)])

    def add(self, pre, tests):
        self.items.append((pre, list(tests)))

    def go(self, timeout=100):
        if not self.items:
            return
        n = min(8, os.cpu_count() or 1)
        ids = {}

        def chunk(k):
            s = [GPDEFS]
            for i in range(k, len(self.items), n):
                pre, tests = self.items[i]
                # an error in the preamble is itself a failure of every test of the item
                s.append("ok=iferr(%s1,E,0);" % pre.replace(";", ";") if False else pre)
                for j, (key, expr, text) in enumerate(tests):
                    s.append('t("%d.%d",()->%s);' % (i, j, expr))
            s.append('print("END");')
            rc, out, err = self.nat.gp("\n".join(s) + "\n", timeout)
            return out, err
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(chunk, range(n)))
        for out, err in res:
            for l in out.splitlines():
                if l.startswith("X "):
                    i, j = l[2:].strip().split(".")
                    key, expr, text = self.items[int(i)][1][int(j)]
                    self.nat.fail(key, text() if callable(text) else text)
            if "END" not in out:
                self.nat.notes.append("gp gave no complete answer: %s" % err[-300:])
        self.nat.case()
        self.items = []


def usable(nat, r, key="run", expect_curves=True):
    """common verdict on a run that should produce curves; returns the curves or None"""
    if r is None:
        return None
    nat.case()
    if r.rc is None:
        # only a run that never ends is suspicious; slow machines are not: no verdict
        nat.notes.append("no answer in time: %s (seed %s)" % (r.cmd(), r.seed))
        nat.slow = getattr(nat, "slow", 0) + 1
        return None
    if r.rc != 0 or r.curves is None:
        nat.fail(key + "-output", "%s (ECV_SEED=%s, input %r): exit %s, %s; output %r; stderr %r" % (
            r.cmd(), r.seed, r.stdin, r.rc, r.why, r.out[-300:], r.err[-300:]))
        return None
    return r.curves


def where(r):
    return "%s (ECV_SEED=%s%s)" % (r.cmd(), r.seed, ", input %r" % r.stdin if r.stdin else "")


def rx(rng, n):
    return "".join(rng.choice("0123456789abcdef") for _ in range(n))
