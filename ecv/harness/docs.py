"""C15, C16, C19, C21, C22, C23 on the real program."""
import json
import os
from .common import *
from .cli import reps, curve_tests, gens_tests


# ---------------------------------------------------------------- C15
def cmp_doc(d, e, hd, path=""):
    """differences between a document and the values it must hold"""
    if set(d) != set(e):
        return "%s: keys %s instead of %s" % (path, sorted(d), sorted(e))
    for k, v in e.items():
        g = d[k]
        if k == "field" or k == "meta":
            if not isinstance(g, dict):
                return path + k
            r = cmp_doc(g, v, hd, path + k + ".")
            if r:
                return r
        elif k == "subgroups" or k == "points":
            if not isinstance(g, list) or len(g) != len(v):
                return "%s%s: %s entries instead of %d" % (path, k, len(g) if isinstance(g, list) else "no list of", len(v))
            for i, (x, y) in enumerate(zip(g, v)):
                r = cmp_doc(x, y, hd, "%s%s[%d]." % (path, k, i))
                if r:
                    return r
        elif k == "seed":
            if g != v:
                return "%s%s is %r instead of %r" % (path, k, g, v)
        elif path == "meta.":
            if g != str(v):
                return "%s%s is %r instead of %d" % (path, k, g, v)
        else:
            try:
                ok = num(g) == v and g == g.lower()
            except (ValueError, AttributeError):
                ok = False
            if ok and k in ("a", "b", "x", "y", "p") or ok and k == "order" and not path:
                ok = len(g) - 2 >= hd and (len(g) - 2 == hd or g[2] != "0")
            if not ok:
                return "%s%s is %r instead of %#x with at least %d digits" % (path, k, g, v, hd)
    return None


def c15_objects(nat):
    exe = nat.harness(os.path.join(os.path.dirname(__file__), "c15.c"))
    rc, out, err = nat.run([exe, str(nat.seed), "1" if nat.tier == "thorough" else "0"], 100)
    doc = at = None
    done = False
    for l in out.splitlines():
        if l.startswith("AT "):
            at = l[3:]
        elif l.startswith("DOC "):
            doc = l[4:]
        elif l == "DONE":
            done = True
        elif l.startswith("EXP "):
            e = json.loads(l[4:])
            hd = e.pop("hex_digits")
            nat.case()
            try:
                d = json.loads(doc, object_pairs_hook=no_dup)
            except ValueError as x:
                nat.fail("document", "not JSON (%s): %s" % (x, doc[:600]))
                continue
            r = cmp_doc(d, e, hd)
            if r:
                nat.fail("document", "%s: %s: %s" % (at, r, doc[:600]))
    nat.samples.append(doc[:200] if doc else "")
    if rc is None:
        nat.notes.append("c15 stopped (%s)" % at)
    elif not done:
        nat.fail("crash", "c15 ended with status %s at %s: %s" % (rc, at, err[-1500:]))


def arrays(s):
    """the JSON arrays a text consists of"""
    dec = json.JSONDecoder(object_pairs_hook=no_dup)
    out = []
    i = 0
    while True:
        while i < len(s) and s[i].isspace():
            i += 1
        if i == len(s):
            return out, None
        try:
            v, i = dec.raw_decode(s, i)
        except ValueError as e:
            return out, str(e)
        out.append(v)


def c15_runs(nat):
    rng = nat.rng
    jobs, want = [], []

    def j(args, stdin="", w=None):
        jobs.append((args, stdin))
        want.append(w)
    P = [11, 13, 17, 19, 23, 29, 31, 1009, 65537, 4093]

    def good(n):
        """curves over prime fields that are not singular"""
        o = []
        while len(o) < n:
            p = rng.choice(P)
            a, b = rng.randrange(p), rng.randrange(p)
            if (4 * a ** 3 + 27 * b * b) % p:
                o.append((p, a, b))
        return o
    for k in range(reps(nat, 1)):
        # the input ends part way: as many curves as were given
        for c in (1, 2, 3, 5):
            for n in range(0, c + 1):
                g = good(n)
                s = "".join("%d\n%d\n%d\n" % t for t in g)
                cut = rng.choice(["", "", "23\n", "23\n1\n"]) if n < c else ""
                j(["--fp", "-c", str(c), "--points=none", "17"], s + cut, g)
        # the same with an order the curve must have, rejected curves in between
        for c in (2, 4):
            s = "".join("%d\n%d\n%d\n" % t for t in good(12))
            j(["--fp", "-c", str(c), "-p", "--points=none", "17"], s, None)
            j(["--fp", "-c", str(c), "-k", "2", "--points=all", "17"], s, None)
        for c in (1, 2, 4):
            j(["--fp", "-r", "-c", str(c), "--points=all", "8"], "", c)
            j(["--f2m", "-r", "-c", str(c), "8"], "", c)
            j(["--fp", "-r", "-c", str(c), "--metadata", "9"], "", c)
            j(["--f2m", "-r", "-c", str(c), "--metadata", "9"], "", c)
            j(["--fp", "-r", "-c", str(c), "-s" + rx(rng, 40), "--points=none", "16"], "", c)
            j(["--fp", "-r", "-c", str(c), "-s", "--points=none", "16"], "", c)
            j(["--fp", "-r", "-c", str(c), "--twist", "--points=none", "12"], "", c)
            j(["--fp", "-r", "-c", str(c), "--anomalous", "--points=none", "20"], "", c)
            j(["--fp", "-r", "-c", str(c), "--supersingular", "--points=none", "12"], "", c)
            j(["--fp", "-r", "-c", str(c), "--family=BN", "--points=none", "6"], "", c)
            j(["--fp", "-c", str(c), "--nums", "--points=none", "12"], "", c)
        j(["--fp", "-r", "-i5", "--threads=1", "10"], "")
        j(["--fp", "-r", "-i2-13", "10"], "")
        j(["--fp", "-r", "-i14-16", "10"], "")
        j(["--fp", "-r", "-i2-13", "--threads=3", "10"], "")
        j(["--f2m", "-r", "-i3-7", "9"], "")
    for r, w in zip(runs(nat, jobs, 15), want):
        if r is None:
            continue
        nat.case()
        if r.rc is None:
            nat.notes.append("no answer in time: %s" % where(r))
            continue
        if r.rc < 0 or r.rc == 99:
            nat.fail("crash", "%s: exit %s: %s" % (where(r), r.rc, r.err[-300:]))
            continue
        if r.json is None or r.curves is None:
            nat.fail("not-one-array", "%s: %s: %r" % (where(r), r.why, r.out[-400:]))
            continue
        if isinstance(w, int) and len(r.curves) != w:
            nat.fail("curve-count", "%s: %d curves instead of %d" % (where(r), len(r.curves), w))
        if isinstance(w, list):
            got = [(c.p, c.a, c.b) for c in r.curves]
            if got != w:
                nat.fail("given-curves", "%s: %s instead of %s" % (where(r), got, w))
    # output files, new and appended to
    d = os.path.join(nat.dir, "o")
    os.makedirs(d, exist_ok=True)
    for k in range(reps(nat, 3)):
        f = os.path.join(d, "f%d" % k)
        total = 0
        for step in range(3):
            app = step and rng.random() < .7
            c = 1 + rng.randrange(3)
            rc, out, err = nat.cli(["--fp", "-r", "-c", str(c), "--points=none", "-o", f, "10"] + (["-a"] if app else []), 15, seed=nat.seed * 77 + k * 3 + step)
            nat.case()
            if rc != 0:
                nat.notes.append("-o: %s %s" % (rc, err[-200:]))
                break
            total = total + 1 if app else 1
            v, why = arrays(open(f).read())
            if why or len(v) != total or len(v[-1]) != c or out.strip():
                nat.fail("output-file", "after %d runs, -a %s: %s arrays expected, file %r, standard output %r" % (step + 1, app, total, open(f).read()[-300:], out[-100:]))
                break


# ---------------------------------------------------------------- C16
def c16_runs(nat):
    rng = nat.rng
    jobs, want = [], []
    for k in range(reps(nat, 1)):
        for opt in (["--fp", "-r"], ["--f2m", "-r"]):
            for b in (10, 16, 33):
                for n in (1, 2, 3):
                    for pts in ("none", "all") if b < 17 else ("none",):
                        h = rx(rng, n)
                        a = "".join(rng.choice((x, x.upper())) for x in h)
                        jobs.append((opt + ["--hex-check=" + rng.choice(["", "0x"]) + a, "--points=" + pts, str(b)], ""))
                        want.append(a)
        for a in ("ABCD"[:3], "De", "f0", "00"):
            jobs.append((["--fp", "-r", "-s", "--hex-check=" + a, "--points=none", "24"], ""))
            want.append(a)
    for r, h in zip(runs(nat, jobs, 6), want):
        for c in usable(nat, r) or []:
            v = [x for k, x in c.d.items() if isinstance(x, str)]
            if c.p:
                v.append(c.d["field"]["p"])
            for s in c.subs:
                for p in [s] + s.points:
                    v += [p.d["x"], p.d["y"]]
            if not any(h.lower() in x[2:] for x in v):
                nat.fail("accepted-without", "%s: the string occurs in no parameter: %s" % (where(r), c.d))
    # curves given: the ones without the string are passed over
    for k in range(reps(nat, 12)):
        g = []
        while len(g) < 40:
            p = rng.choice([65537, 65521, 65519])
            a, b = rng.randrange(p), rng.randrange(p)
            if (4 * a ** 3 + 27 * b * b) % p:
                g.append((p, a, b))
        h = rx(rng, 3)
        rc, out, err = nat.cli(["--fp", "--hex-check=" + h, "--points=none", "17"], 15, "".join("%d\n%d\n%d\n" % t for t in g))
        v, why = parse(out)
        nat.case()
        if v is None:
            nat.notes.append("%s" % why)
            continue
        # oracle for the part that needs no group computations: a curve whose p, a or b contain the string is never passed over
        first = next((i for i, t in enumerate(g) if any(h in "%06x" % x for x in t)), None)
        if first is not None:
            if not v:
                nat.fail("passed-over", "--hex-check=%s: curve %s contains it, none was accepted" % (h, g[first]))
            else:
                c = Curve(v[0])
                if (c.p, c.a, c.b) not in g[:first + 1]:
                    nat.fail("passed-over", "--hex-check=%s: curve %s contains it, %s was accepted" % (h, g[first], (c.p, c.a, c.b)))


# ---------------------------------------------------------------- C19
def primes_to(n):
    return [p for p in range(2, n + 1) if all(p % d for d in range(2, int(p ** .5) + 1))]


def c19_invalid(nat, threads=1):
    rng = nat.rng
    jobs, want = [], []

    def j(args, w, stdin=""):
        jobs.append((args + (["--threads=%d" % threads] if threads > 1 else []), stdin))
        want.append(w)
    for k in range(reps(nat, 1)):
        for b in (8, 10, 12, 16):
            for o in ("--fp", "--f2m"):
                j([o, "-r", "-i", str(b)], "default")
        for lo, hi in ((2, 2), (2, 3), (2, 13), (3, 11), (4, 11), (5, 12), (8, 12), (7, 7), (11, 29), (13, 31), (24, 30), (2, 40)):
            j([rng.choice(["--fp", "--f2m"]), "-r", "-i%d-%d" % (lo, hi), str(rng.choice([10, 12, 14]))], (lo, hi))
        for n in (2, 3, 4, 7, 8, 13):
            j(["--fp", "-r", "-i%d" % n, "11"], n)
        j(["--fp", "-i2-7", "10"], (2, 7), "1009\n3\n5\n")
        j(["--fp", "-u", "-r", "-i2-11", "10"], (2, 11))
        j(["--fp", "-u", "-r", "-i3-13", "12"], (3, 13))
    g = GP(nat)
    for r, w in zip(runs(nat, jobs, 30), want):
        cs = usable(nat, r)
        if cs is None:
            continue
        o = cs[0]
        W = where(r)
        if w == "default":
            exp, prod = [], 1
            for p in primes_to(1000):
                if prod > o.n ** 2:
                    break
                exp.append(p)
                prod *= p
            # their product exceeds the square of the order; the program takes one prime more than that needs
            if len(cs) - 1 == len(exp) + 1:
                exp = primes_to(1000)[:len(exp) + 1]
        elif isinstance(w, int):
            exp = [min(p for p in primes_to(100) if p >= w)]
        else:
            exp = [p for p in primes_to(w[1]) if p >= w[0]]
        rest = cs[1:]
        if len(rest) != len(exp):
            nat.fail("curves-for-primes", "%s: %d curves for the %d primes %s" % (W, len(rest), len(exp), exp))
        g.add(o.gp(), list(curve_tests(o, W)))
        # one curve per prime: a matching of primes to curves
        can = []
        for c in rest:
            if (c.p, c.m, c.a) != (o.p, o.m, o.a) or (c.m and c.e != o.e):
                nat.fail("shares-field-and-a", "%s: %s against %s" % (W, c.d, o.d))
            ords = set(p.o for s in c.subs for p in s.points)
            can.append([p for p in exp if c.n % p == 0 and p in ords])
            ts = list(curve_tests(c, W)) + list(gens_tests(c, W))
            for s in c.subs:
                for p in s.points:
                    ts.append(("point-order", "ellisoncurve(E,%s)&&ellorder(E,%s)==%d" % (c.pt(p), c.pt(p), p.o), "%s: point %s" % (W, p.d)))
            g.add(c.gp(), ts)
        match = {}

        def aug(i, seen):
            for p in can[i]:
                if p not in seen:
                    seen.add(p)
                    if p not in match or aug(match[p], seen):
                        match[p] = i
                        return True
            return False
        for i in range(len(rest)):
            aug(i, set())
        if len(match) != len(exp):
            nat.fail("prime-without-curve", "%s: primes %s have no curve of their own with a point of that order; orders %s" % (W, [p for p in exp if p not in match], [c.n for c in rest]))
    g.go()


# ---------------------------------------------------------------- C21
def c21_twist(nat):
    rng = nat.rng
    jobs, want = [], []

    def j(args, w=None, stdin=""):
        jobs.append((args, stdin))
        want.append(w)
    for k in range(reps(nat, 1)):
        for b in (5, 8, 11, 16, 24):
            for x in ([], ["-p"], ["-k", "2"], ["-u"], ["-c", "3"]):
                j(["--fp", "-r", "--twist", "--points=prime"] + x + [str(b)])
        for b in (5, 7, 8, 11, 14):
            for x in ([], ["-k", "2"], ["-k", "4"], ["-c", "2"]):
                j(["--f2m", "-r", "--twist", "--points=prime"] + x + [str(b)])
        for i in range(12):
            p = rng.choice([23, 101, 1009, 4093])
            a, b = rng.randrange(p), rng.randrange(p)
            if (4 * a ** 3 + 27 * b * b) % p:
                j(["--fp", "--twist", "--points=none", "12"], (p, a, b), "%d\n%d\n%d\n" % (p, a, b))
    g = GP(nat)
    for r, w in zip(runs(nat, jobs), want):
        for c in usable(nat, r) or []:
            W = where(r)
            ts = list(curve_tests(c, W)) + list(gens_tests(c, W))
            for s in c.subs:
                for p in s.points:
                    ts.append(("point-order", "ellisoncurve(E,%s)&&ellorder(E,%s)==%d" % (c.pt(p), c.pt(p), p.o), "%s: point %s" % (W, p.d)))
            if c.seed:
                nat.fail("seed-survives", "%s: %s" % (W, c.seed))
            if w:
                p, a, b = w
                if c.p != p:
                    nat.fail("twist-field", "%s: %s" % (W, c.d))
                    continue
                ts.append(("twist-of-given", "my(O=ellinit([%d,%d],p));O.j==E.j && ellcard(O)+%d==2*p+2" % (a, b, c.n), "not the quadratic twist of the curve given: %s: %s" % (W, c.d)))
            g.add(c.gp(), ts)
    g.go()


# ---------------------------------------------------------------- C22
def c22_meta(nat):
    jobs = []
    rng = nat.rng
    for k in range(reps(nat, 1)):
        for b in (5, 6, 8, 10, 16, 24, 40, 64):
            jobs.append((["--fp", "-r", "--metadata", "--points=none", str(b)], ""))
            jobs.append((["--fp", "-r", "--metadata", "--points=none", "-c", "3", str(b)], ""))
        for b in (10, 16, 24):
            jobs.append((["--fp", "-r", "--metadata", "--points=none", "-p", str(b)], ""))
            jobs.append((["--fp", "-r", "--metadata", "--points=none", "--twist", str(b)], ""))
        for b in (5, 7, 9, 12, 17, 41):
            jobs.append((["--f2m", "-r", "--metadata", "--points=none", str(b)], ""))
            jobs.append((["--f2m", "-r", "--metadata", "--points=none", "-c", "2", str(b)], ""))
        jobs.append((["--fp", "-r", "--metadata", "--anomalous", "--points=none", "24"], ""))
        jobs.append((["--fp", "-r", "--metadata", "--supersingular", "--points=none", "12"], ""))
        for p in (11, 13, 23, 31, 1009):
            for _ in range(3):
                jobs.append((["--fp", "--metadata", "--points=none", "10"], "%d\n%d\n%d\n" % (p, rng.randrange(p), 1 + rng.randrange(p - 1))))
    g = GP(nat)
    for r in runs(nat, jobs):
        if r is None:
            continue
        if r.stdin and r.curves == []:
            continue   # singular
        for c in usable(nat, r) or []:
            W = where(r)
            m = c.d.get("meta", {})
            try:
                v = {k: int(x) for k, x in m.items()}
            except ValueError:
                nat.fail("meta-number", "%s: %s" % (W, m))
                continue
            need = {"j", "discriminant", "frobenius"} | ({"embedding_degree", "cm_discriminant", "conductor"} if c.p else set())
            if set(v) != need:
                nat.fail("meta-keys", "%s: %s instead of %s" % (W, sorted(v), sorted(need)))
                continue
            ts = [("trace", "%d==%d+1-ellcard(E)" % (v["frobenius"], c.q), "trace %d: %s: %s" % (v["frobenius"], W, c.d))]
            if c.p:
                ts += [("j-invariant", "E.j==Mod(%d,p)&&%d>=0&&%d<p" % (v["j"], v["j"], v["j"]), "j %d: %s: %s" % (v["j"], W, c.d)),
                       ("discriminant", "E.disc==Mod(%d,p)&&%d>=0&&%d<p" % (v["discriminant"], v["discriminant"], v["discriminant"]), "discriminant: %s: %s" % (W, c.d)),
                       ("cm-discriminant", "(ellcard(E)-p-1)^2-4*p==%d*%d^2&&isfundamental(%d)" % (v["cm_discriminant"], v["conductor"], v["cm_discriminant"]), "D, f: %s: %s" % (W, c.d)),
                       ("embedding-degree", "my(n=ellcard(E));if(n==p,0,if(gcd(n,p)>1,%d,znorder(Mod(p,n))))==%d" % (v["embedding_degree"], v["embedding_degree"]), "embedding degree: %s: %s" % (W, c.d))]
            else:
                ts += [("j-invariant", "E.j==el(g,%d)" % v["j"], "j: %s: %s" % (W, c.d)),
                       ("discriminant", "E.disc==el(g,%d)" % v["discriminant"], "discriminant: %s: %s" % (W, c.d))]
            g.add(c.gp(), ts)
    g.go()


# ---------------------------------------------------------------- C23
def c23_special(nat):
    rng = nat.rng
    jobs, want = [], []

    def j(args, w, stdin=""):
        jobs.append((args, stdin))
        want.append(w)
    fam = {
        "BN": ("z", "36*z^4+36*z^3+24*z^2+6*z+1", "36*z^4+36*z^3+18*z^2+6*z+1"),
        "BLS12": ("z", "(z-1)^2*(z^4-z^2+1)/3+z", "z^4-z^2+1"),
        "BLS24": ("z", "(z-1)^2*(z^8-z^4+1)/3+z", "z^8-z^4+1"),
        "KSS16": ("70*z+25", "(z^10+2*z^9+5*z^8+48*z^6+152*z^5+240*z^4+625*z^2+2398*z+3125)/980", "(z^8+48*z^4+625)/61250"),
        "KSS18": ("42*z+14", "(z^8+5*z^7+7*z^6+37*z^5+188*z^4+259*z^3+343*z^2+1763*z+2401)/21", "(z^6+37*z^3+343)/343"),
    }
    for k in range(reps(nat, 1)):
        for b in (12, 16, 20, 24, 32, 48, 64):
            j(["--fp", "-r", "--anomalous", "--points=none", str(b)], "anomalous")
            j(["--fp", "-r", "--supersingular", "--points=none", str(b)], "super")
        for b in (5, 6, 7, 9, 10):
            j(["--fp", "-r", "--supersingular", "--points=none", str(b)], "super")
        for p in (5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 61, 73, 97, 109, 193, 1009, 3889, 4093):
            j(["--fp", "--supersingular", "--points=none", "12"], "super", "%d\n" % p)
        j(["--fp", "-r", "-c", "3", "--anomalous", "--points=none", "20"], "anomalous")
        for n in (12, 20, 36, 144, 1000, 1001, 4096, 65536, 65520, 123456, 720720, 6436343, 1000004, 10 ** 12, rng.randrange(10 ** 6)):
            j(["--fp", "-n%d" % n, "--points=none", str(n.bit_length() + 1)], ("order", n))
        for n in ("4,3,1009", "0x3e8", "2,0x3e9", "101,103"):
            v = 1
            for x in n.split(","):
                v *= int(x, 0)
            j(["--fp", "-n" + n, "--points=none", "24"], ("order", v))
        for name, zs in (("BN", (1, 2, 5, 8)), ("BLS12", (6, 9, 12)), ("BLS24", (9,)), ("KSS16", (10,)), ("KSS18", (8, 10))):
            for z in zs:
                j(["--fp", "-r", "--family=" + name, "--points=none", str(z)], ("family", name))
        j(["--fp", "-r", "-c", "4", "--family=BN", "--points=none", "6"], ("family", "BN"))
        j(["--fp", "--family=BN", "--points=none", "16"], ("family", "BN"), "-15\n")
        for n in [13, 31, 999] + [rng.randrange(2 ** 18, 2 ** 19) for _ in range(8)] + [524287, 1000003, 65537, 2 ** 20 + 7, 2 ** 31 - 1, 10 ** 12 + 39]:
            while n > 2 ** 18 and not all(n % d for d in range(2, int(n ** .5) + 1)):
                n += 1
            j(["--fp", "-n%d" % n, "--points=none", str(n.bit_length())], ("order", n))
    g = GP(nat)
    for r, w in zip(runs(nat, jobs, 12), want):
        if r is None:
            continue
        cs = r.curves
        if w[0] == "order" and r.rc is not None and r.rc >= 0 and (not cs):
            nat.case()
            continue   # no curve found: nothing claimed
        for c in usable(nat, r) or []:
            W = where(r)
            ts = list(curve_tests(c, W))
            if w == "anomalous":
                ts.append(("anomalous", "ellcard(E)==p && %d==p" % c.n, "%s: %s" % (W, c.d)))
            elif w == "super":
                ts.append(("supersingular", "ellcard(E)==p+1 && %d==p+1" % c.n, "%s: %s" % (W, c.d)))
            elif w[0] == "order":
                ts.append(("requested-order", "ellcard(E)==%d" % w[1], "%s: %s" % (W, c.d)))
            else:
                s = c.seed
                z = int(s[1:], 16) * -1 if s.startswith("-") else int(s, 16)
                n, pz, rz = fam[w[1]]
                ts.append(("family-field", "my(z=%d);z=%s;%s==p&&isprime(%s)&&ellcard(E)%%(%s)==0" % (z, n, pz, rz, rz), "%s: z=%d: %s" % (W, z, c.d)))
                if w[1] == "BN":
                    ts.append(("family-order", "my(z=%d);(%s)==%d" % (z, rz, c.n), "%s: z=%d: %s" % (W, z, c.d)))
            g.add(c.gp(), ts)
    g.go()
