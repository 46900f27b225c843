"""C01-C06 (transfer integral, order of atoms), C23 (ranking) and C29 (several
transfer calculations at a time)."""
import math
import re
from decimal import Decimal, InvalidOperation

from vlib import Broken, ODD, enc

CFG = "TraceQC.cfg"


# -- words of the driver -------------------------------------------------------
def w_ints(v):
    return [str(len(v))] + [str(x) for x in v]


def w_matrix(m, f=str):
    if not m:
        return ["0", "0"]
    return [str(len(m)), str(len(m[0]))] + [f(x) for r in m for x in r]


def decimal(v, digits):
    """The integer v with that many digits after the decimal point."""
    s = "%0*d" % (digits + 1, abs(v))
    return ("-" if v < 0 else "") + s[:-digits] + "." + s[-digits:]


def columns(rows):
    return [list(x) for x in zip(*rows)]


# -- numbers for the specification ----------------------------------------------
def big(n):
    d = []
    a = abs(n)
    while a:
        d.append(a % 10000)
        a //= 10000
    return {"s": (n > 0) - (n < 0), "d": d}


NUM = re.compile(r"^([+-]?)(\d*)\.?(\d*)(?:[eE]([+-]?\d+))?$")


def number(text):
    """A printed number as mantissa * 10^x, with the exponent h of its sixth
    digit.  None if it is no (finite) number."""
    m = NUM.match(text)
    if not m or not (m.group(2) + m.group(3)):
        return None
    digits = m.group(2) + m.group(3)
    x = int(m.group(4) or 0) - len(m.group(3))
    n = int(digits) * (-1 if m.group(1) == "-" else 1)
    if n == 0:
        return {"m": big(0), "x": 0, "h": -25}
    if abs(x) > 60:
        return None
    lead = len(str(abs(n))) - 1 + x
    return {"m": big(n), "x": x, "h": lead - 5}


LABELS = ["J_ab", "e_a", "e_b", "S_ab", "J_eff"]


def report(jeff, out):
    """The five printed numbers and the returned one; None if incomplete."""
    r = {}
    for n in LABELS:
        hits = re.findall(r"^\s*%s\s+(\S+)(.*)$" % n, out, re.M)
        if len(hits) != 1:
            return None
        v = number(hits[0][0])
        if v is None or (hits[0][1].strip() != ("" if n == "S_ab" else "eV")):
            return None
        r[n] = v
    if jeff is not None:
        m = re.match(r"^(-?)(\d)\.(\d+)e([+-]\d+)$", jeff)
        if not m:
            return None
        e = int(m.group(4)) - len(m.group(3))
        n = int(m.group(2) + m.group(3)) * (-1 if m.group(1) else 1)
        if n == 0:
            e = 0
        if abs(e) > 80:
            return None
        r["jm"], r["jx"] = big(n), e
    return r


PLAIN = {"c": 2, "s": 3, "e": 4}


# -- transfer calculations -------------------------------------------------------
def job_words(j, row_energies=False):
    """The calls that set up a job (without the calculation)."""
    e = [j["e"]] if row_energies else [[x] for x in j["e"]]
    u = j.get("u", PLAIN)
    d2, d3, d4 = (lambda v: decimal(v, u["c"])), (lambda v: decimal(v, u["s"])), (lambda v: decimal(v, u["e"]))
    calls = [["complex", "1" if j["cp"] else "0"] + [str(j[k]) for k in ("n1", "h1", "n2", "h2")] +
             w_matrix(j["m1"], d2) + w_matrix(j["m2"], d2) + w_matrix(j["p"], d2) +
             w_matrix(j["s"], d3) + w_matrix(e, d4)]
    if j["un"]:
        d6 = lambda v: decimal(v, 6)
        calls.append(["unscramble"] + w_matrix(columns(j["x1"]), d6) + w_matrix(columns(j["x2"]), d6) +
                     w_matrix(columns(j["xp"]), d6) + w_ints(j["wp"]) + w_ints(j["w2"]))
    return calls


class Jobs:
    """A case: one complex, several calculations; possibly in several orders."""

    def __init__(self, system=None):
        self.system = system       # the job in order, or None
        self.runs = []             # (job, q, q2, [(t1, k1, t2, k2), ...])

    def add(self, job, q=(), q2=(), asked=None, row=False):
        self.runs.append((job, list(q), list(q2),
                          asked or [(job["t1"], job["k1"], job["t2"], job["k2"])], row))
        return self

    def calls(self):
        res = []
        for job, q, q2, asked, row in self.runs:
            res += job_words(job, row)
            for t1, k1, t2, k2 in asked:
                res.append(["calc", enc(t1), str(k1), enc(t2), str(k2)])
        return res

    def trace(self, outcomes):
        tr = [{"op": "begin"}]
        if self.system is not None:
            tr.append({"op": "system", "job": self.system})
        pos = 0
        for job, q, q2, asked, row in self.runs:
            setup = 1 + bool(job["un"])
            made = outcomes[pos:pos + setup]
            pos += setup
            for a in asked:
                j = dict(job)
                j["t1"], j["k1"], j["t2"], j["k2"] = a
                o = outcomes[pos] if pos < len(outcomes) else None
                pos += 1
                bad = [x for x in made if x["k"] != "ok"]
                kind = bad[0]["k"] if bad else o["k"] if o is not None else "lost"
                out = "".join(x.get("out", "") for x in made) + (o.get("out", "") if o else "")
                fin, r = False, {}
                if kind == "ok":
                    rep = report(o["jeff"], o["out"])
                    fin = rep is not None
                    r = rep or {}
                tr.append({"op": "run", "job": j, "q": q, "q2": q2, "out": kind,
                           "printed": "J_eff" in out, "fin": fin, "r": r})
                if kind not in ("ok", "throw"):
                    return tr       # the process ended
        if pos < len(outcomes):     # it ended after the last call
            tr[-1] = dict(tr[-1])
            tr[-1]["out"] = outcomes[-1]["k"] + " at the end"
        return tr


def weight(tr):
    """Rough cost of validating a trace."""
    n = 5
    for e in tr:
        if e["op"] == "run":
            j = e["job"]
            k = len(j["s"]) ** 2 + len(j["s"]) * len(j["p"])
            n += 20 + (k if "u" not in j else 30 * k)
        else:
            n += 3
    return n


def run_jobs(c, cases):
    run = lambda cs: c.drive("qc", [x.calls() for x in cs])
    out = run(cases)
    traces = [x.trace(o) for x, o in zip(cases, out)]
    c.validate("TraceQC", traces, cfg=CFG, cost=weight, shards=max(1, min(8, len(traces) // 40)),
               rerun=lambda ks: [cases[k].trace(o) for k, o in zip(ks, run([cases[k] for k in ks]))])


def guided(c, make, always, more, most):
    """Random cases, see Check.guided."""
    k = c.pick(1, 10)
    return c.guided("qc", make, lambda x: x.calls(), k * always, k * more, k * most)


# -- random systems ----------------------------------------------------------------
def rand_matrix(rng, rows, cols, bound, zeros=0.1):
    return [[0 if rng.random() < zeros else rng.randint(-bound, bound) for _ in range(cols)]
            for _ in range(rows)]


def rand_overlap(rng, n, bound):
    s = [[0] * n for _ in range(n)]
    for i in range(n):
        s[i][i] = 1000
        for j in range(i):
            s[i][j] = s[j][i] = 0 if rng.random() < 0.15 else rng.randint(-bound, bound)
    return s


def smax(n):
    return max(20, min(900, (2000000000 // (99 * 99 * n) - 1000) // n))


def rand_energies(rng, n):
    """Mostly like those of molecules; also of other sizes, equal ones, and in any order."""
    x = rng.random()
    if x < 0.7:
        return sorted(rng.sample(range(-99999, 40000), n))
    top = 10 ** rng.randint(1, 9)
    low, high = rng.choice([(-top, top), (-top, 0), (0, top), (-top, top // 10)])
    e = [rng.randint(low, high) for _ in range(n)]
    if rng.random() < 0.2:
        e = [rng.choice(e) for _ in e]
    return e if rng.random() < 0.1 else sorted(e)


def places(rng, n):
    """Positions of n atoms: multiples of 10^-4, no two equal."""
    seen = []
    grid = 0
    if rng.random() < 0.2:          # on a small lattice: few values, many times
        grid = rng.choice([100, 5000, 1000000, 7654300])
        levels = [0, grid] if n <= 8 and rng.random() < 0.5 else [-grid, 0, grid]
    flat = rng.choice([None, None, 0, 1, 2])
    while len(seen) < n:
        x = rng.random()
        if grid:
            p = [rng.choice(levels) for _ in range(3)]
            if flat is not None and len(levels) == 3 and n <= 9 and x < 0.8:
                p[flat] = 0
            if p not in seen:
                seen.append(p)
            continue
        if seen and x < 0.25:       # next to another atom
            p = list(rng.choice(seen))
            p[rng.randrange(3)] += rng.choice([-100, 100, 200, 10000])
        elif seen and x < 0.35:     # mirrored
            p = [-v for v in rng.choice(seen)]
        elif x < 0.5:
            p = [rng.choice([0, 0, rng.randint(-50, 50) * 100]) for _ in range(3)]
        elif x < 0.6:
            p = [rng.randint(-999999, 999999) * 100 for _ in range(3)]
        else:
            p = [rng.randint(-99999, 99999) * 100 for _ in range(3)]
        if p not in seen:
            seen.append(p)
    return seen


def noisy(rng, p):
    """The same place to four decimals."""
    return [v + rng.choice([0, 0, rng.randint(-45, 45)]) for v in p]


def rand_system(rng, cp, maxatoms=4, maxwidth=4, maxfun=14, minfun=0):
    """A system with its atoms in the order of the monomers."""
    while True:
        na, nb = rng.randint(1, maxatoms), rng.randint(1, maxatoms)
        w = [rng.randint(1, maxwidth) for _ in range(na + nb)]
        if minfun <= sum(w) <= maxfun:
            break
    n, f, fa = na + nb, sum(w), sum(w[:na])
    c1, c2 = (f, f) if cp else (fa, f - fa)
    r1, r2 = rng.randint(1, max(1, c1)), rng.randint(1, max(1, c2))
    np_ = rng.choice([f, f, max(1, f - rng.randint(0, 3)), rng.randint(1, f)])
    x = places(rng, n)
    h1, h2 = rng.randint(0, r1), rng.randint(0, r2)
    b = 99 if f <= 30 else 20
    j = dict(cp=cp, m1=rand_matrix(rng, r1, c1, b), m2=rand_matrix(rng, r2, c2, b),
             p=rand_matrix(rng, np_, f, b), s=rand_overlap(rng, f, smax(f)), e=rand_energies(rng, np_),
             n1=r1, h1=h1, n2=r2, h2=h2, un=True,
             x1=x if cp else x[:na], x2=x if cp else x[na:], xp=x, wp=w, w2=w if cp else w[na:])
    j["t1"], j["k1"] = pick_orbital(rng, r1, h1)
    j["t2"], j["k2"] = pick_orbital(rng, r2, h2)
    return j


def tiny(rng, digits):
    """An integer of any number of digits."""
    n = rng.randint(0, digits)
    return rng.choice([1, -1]) * rng.randint(0 if n else 1, 10 ** n)


def refined(rng, j):
    """The same shapes with numbers of many digits and magnitudes."""
    j = dict(j)
    u = {"c": rng.choice([5, 8, 8]), "s": rng.choice([6, 6, 8, 9]), "e": rng.choice([5, 5, 6])}
    narrow = rng.random() < 0.3
    big = lambda d: tiny(rng, d) if not narrow else rng.choice([1, -1]) * rng.randint(10 ** (d - 1), 10 ** d)
    # one of them may consist of small numbers
    small = rng.choice(["", "", "", "m1", "m2", "p", "s", "e"])
    for k in ("m1", "m2", "p"):
        d = u["c"] - (4 if k == small else 0)
        j[k] = [[big(d) for _ in r] for r in j[k]]
    s = j["s"]
    for i in range(len(s)):
        for k in range(i):
            s[i][k] = s[k][i] = big(u["s"] - (4 if small == "s" else 0))
        s[i][i] = 10 ** u["s"]
    j["s"] = s
    lim = 10 ** (u["e"] - 3 if small == "e" else rng.choice([u["e"] + 1, rng.randint(u["e"], 9)]))
    j["e"] = sorted(rng.sample(range(-lim, lim), len(j["e"])))
    j["u"] = u
    return j


def pick_orbital(rng, n, h):
    """An orbital that exists."""
    r = rng.randint(1, n)
    return ("HOMO", r - h) if r <= h else ("LUMO", r - h - 1)


def take(m, cols):
    return [[r[c] for c in cols] for r in m]


def block_columns(w, order):
    off, res = [0], []
    for x in w:
        off.append(off[-1] + x)
    for a in order:
        res += range(off[a], off[a] + w[a])
    return res


_noisy = noisy


def scrambled(rng, j, q, q2):
    """The system with the dimer's atoms in the order q (0-based)."""
    d = dict(j)
    c = block_columns(j["wp"], q)
    noisy = _noisy if rng.random() < 0.7 else lambda rng, p: list(p)
    d["p"] = take(j["p"], c)
    d["s"] = [take(j["s"], c)[i] for i in c]
    d["xp"] = [noisy(rng, j["xp"][a]) for a in q]
    d["wp"] = [j["wp"][a] for a in q]
    d["x1"] = [noisy(rng, p) for p in j["x1"]]
    if j["cp"]:
        d["m2"] = take(j["m2"], block_columns(j["w2"], q2))
        d["x2"] = [noisy(rng, j["x2"][a]) for a in q2]
        d["w2"] = [j["w2"][a] for a in q2]
    else:
        d["x2"] = [noisy(rng, p) for p in j["x2"]]
    return d


def one_based(q):
    return [a + 1 for a in q]


def shuffled(rng, n):
    q = list(range(n))
    rng.shuffle(q)
    return q


def empty_geometry(j):
    j = dict(j)
    j.update(un=False, x1=[], x2=[], xp=[], wp=[], w2=[])
    return j


# -- checks --------------------------------------------------------------------------
def emitted_jobs(c, family):
    return c.emitted("MCTransfer", "MCTransfer_%s%s.cfg" % (family, c.pick("", "_thorough") if family == "orders" else ""),
                     min_states=100)


def check_C01(c):
    c.build(["qc"])
    c.model("MCBig", "MCBig.cfg", min_states=1000)
    c.model("MCTransfer", "MCTransfer_orders.cfg", min_states=1000)
    rng = c.rng

    def make(i):
        cp = rng.random() < 0.4
        x = rng.random()
        if i % c.pick(250, 200) == 7:       # large systems
            n = c.size(30, 80)
            j = rand_system(rng, cp, 12, 9, n + 3, n - 3)
        else:
            j = rand_system(rng, cp, 4, 4, 30 if x < 0.06 else 14 if x < 0.6 else 7)
        j = empty_geometry(j)
        if i % 8 == 5 and len(j["s"]) <= 12:
            j = refined(rng, j)
        if i % 4 == 0:
            j["m1"] = [[-v for v in r] for r in j["m1"]]
        asked = [(j["t1"], j["k1"], j["t2"], j["k2"])]
        if i % 3 == 0:
            asked += [pick_orbital(rng, j["n1"], j["h1"]) + pick_orbital(rng, j["n2"], j["h2"])
                      for _ in range(2)]
        case = Jobs().add(j, asked=asked, row=i % 7 == 0)
        if i % 5 == 0 and cp:       # the monomers exchanged
            k = dict(j)
            k["m1"], k["m2"], k["n1"], k["n2"], k["h1"], k["h2"] = \
                j["m2"], j["m1"], j["n2"], j["n1"], j["h2"], j["h1"]
            k["t1"], k["k1"], k["t2"], k["k2"] = j["t2"], j["k2"], j["t1"], j["k1"]
            case.add(k)
        return case
    run_jobs(c, guided(c, make, 1000, 10000, 600))


def check_C02(c):
    c.build(["qc"])
    cases = []
    rng = c.rng
    for b in emitted_jobs(c, "orders"):
        # Emitted jobs are scrambles of base by construction (checked by TLC).
        cases.append(Jobs().add(b["job"]))
    small = len(cases)

    def make(i):
        cp = i % 2 == 1
        big_ = i % 12 == 0
        if i % c.pick(100, 100) == 9:
            n = c.size(24, 60)
            j = rand_system(rng, cp, 16, 4, n + 3, n - 3)
        else:
            j = rand_system(rng, cp, 8 if big_ else 4, 3, 24 if big_ else 12)
        if i % 20 == 3 and len(j["s"]) <= 8:
            j = refined(rng, j)
        case = Jobs(j)
        n = len(j["xp"])
        for _ in range(rng.randint(1, 4)):
            q = shuffled(rng, n)
            q2 = shuffled(rng, n) if cp else list(range(len(j["x2"])))
            asked = [(j["t1"], j["k1"], j["t2"], j["k2"])]
            if rng.random() < 0.3:
                asked.append(pick_orbital(rng, j["n1"], j["h1"]) + pick_orbital(rng, j["n2"], j["h2"]))
            case.add(scrambled(rng, j, q, q2), one_based(q), one_based(q2), asked)
        return case
    cases += guided(c, make, 300, 3000, 150)
    c.notes.append("%d systems in every order enumerated by TLC, %d random systems" % (small, len(cases) - small))
    run_jobs(c, cases)


def check_C05(c):
    c.build(["qc"])
    cases = []
    rng = c.rng
    for b in emitted_jobs(c, "select"):
        cases.append(Jobs().add(b["job"]))

    def make(i):
        cp = i % 3 == 0
        j = empty_geometry(rand_system(rng, cp, 3, 5, 12))
        cols1, cols2 = len(j["m1"][0]), len(j["m2"][0])
        r1, r2 = rng.randint(1, 8), rng.randint(1, 8)
        if i % 25 == 11:
            r1, r2 = c.size(8, 80), c.size(8, 80)
        j["m1"], j["m2"] = rand_matrix(rng, r1, cols1, 99), rand_matrix(rng, r2, cols2, 99)
        # fewer or more energies than rows of coefficients
        n1, n2 = (max(1, r + rng.choice([0, 0, 0, 0, -1, -2, 1, 2])) for r in (r1, r2))
        j["n1"], j["h1"], j["n2"], j["h2"] = n1, rng.randint(0, n1), n2, rng.randint(0, n2)
        asked = []
        for _ in range(rng.randint(2, 8)):
            a = []
            for n, h in ((j["n1"], j["h1"]), (j["n2"], j["h2"])):
                x = rng.random()
                if x < 0.75:
                    a += list(pick_orbital(rng, n, h))
                elif x < 0.95:
                    t = rng.choice(["HOMO", "LUMO"])
                    a += [t, rng.choice([0, 1, -1, -h, 1 - h, -h - 1, n - h, n - h - 1, n - h + 1, n, -n, h,
                                         100, -100, 2147483647, -2147483647])]
                else:
                    a += [rng.choice(["homo", "Homo", "LUMO+1", "HOMO-1", "", "SOMO", "LUM", "HOMOX", "lumo",
                                      "HOM", "ALL"]), 0]
            asked.append(tuple(a))
        return Jobs().add(j, asked=asked)
    cases += guided(c, make, 350, 5000, 200)
    run_jobs(c, cases)


def check_C06(c):
    c.build(["qc"])
    cases = []
    rng = c.rng
    for b in emitted_jobs(c, "shapes"):
        cases.append(Jobs().add(b["job"]))

    def make(i):
        cp = i % 2 == 0
        j = rand_system(rng, cp, 3, 3, 12) if i % 150 else rand_system(rng, cp, 10, 6, 40, 20)
        f = len(j["s"])
        what = rng.choice(["none", "s", "m1", "m2", "p", "e", "wp", "w2", "sp"])
        d = rng.choice([-1, 1, 1, 2, -2, 3])
        un = rng.random() < 0.4
        if not un:
            j = empty_geometry(j)
            if what in ("wp", "w2"):
                what = "e"

        def resized(m, k):
            k = max(1, k)
            return rand_matrix(rng, len(m), k, 99)
        if what == "s":
            j["s"] = rand_overlap(rng, max(1, f + d), smax(f + 3))
        elif what in ("m1", "m2"):
            j[what] = resized(j[what], len(j[what][0]) + d)
        elif what == "p":
            j["p"] = resized(j["p"], f + d)
        elif what == "sp":
            j["s"] = rand_overlap(rng, max(1, f + d), smax(f + 3))
            j["p"] = resized(j["p"], f + d)
        elif what == "e":
            j["e"] = rand_energies(rng, max(1, len(j["p"]) + d))
        elif what in ("wp", "w2") and j[what]:
            j[what] = list(j[what])
            a = rng.randrange(len(j[what]))
            j[what][a] = max(1, j[what][a] + d)
        return Jobs().add(j)
    run_jobs(c, cases + guided(c, make, 400, 5000, 250))


# -- C03, C04 ------------------------------------------------------------------------
class Calls:
    """A case of single calls, each with an event."""

    def __init__(self):
        self.items = []

    def add(self, words, event, fields):
        self.items.append((words, event, fields))
        return self

    def calls(self):
        return [w for w, _, _ in self.items]

    def trace(self, outcomes):
        tr = [{"op": "begin"}]
        for (w, e, fields), o in zip(self.items, outcomes):
            d = dict(e)
            d["out"] = o["k"]
            for f, default in fields.items():
                d[f] = o.get(f, default)
            tr.append(d)
        if len(outcomes) > len(self.items):
            tr[-1]["out"] = outcomes[-1]["k"] + " at the end"
        return tr


def unit(rng):
    """A power of two that the numbers are multiples of (usually 1/1024)."""
    return ":%d" % rng.choice([rng.randint(-70, 70), rng.randint(-40, -20), rng.randint(0, 20)]) if rng.random() < 0.3 else ""


def reorder(case, which, a, b, w, m, two, scale=""):
    words = [which + ("2" if two else "1") + scale] + w_ints(a) + (w_ints(b) if two else []) + w_ints(w) + w_matrix(m)
    case.add(words, {"op": which, "a": a, "b": b, "w": w, "m": m}, {"res": [], "after": []})


def distinct_matrix(rows, cols, sym=False):
    return [[(max(i, j) * 1000 + min(i, j) + 1 if sym else i * 1000 + j + 1) for j in range(cols)]
            for i in range(rows)]


def run_calls(c, cases, cost=None):
    run = lambda cs: c.drive("qc", [x.calls() for x in cs])
    out = run(cases)
    traces = [x.trace(o) for x, o in zip(cases, out)]
    c.validate("TraceQC", traces, cfg=CFG, cost=cost or len, shards=max(1, min(8, len(traces) // 40)),
               rerun=lambda ks: [cases[k].trace(o) for k, o in zip(ks, run([cases[k] for k in ks]))])


def reorder_cost(tr):
    return 3 + sum(len(e["m"]) * (len(e["m"][0]) if e["m"] else 0) for e in tr if "m" in e)


def group(items, n):
    return [items[i:i + n] for i in range(0, len(items), n)]


def check_C03(c):
    c.build(["qc"])
    rng = c.rng
    cases = []
    small = c.emitted("MCUnscramble", c.pick("MCUnscramble.cfg", "MCUnscramble_thorough.cfg"), min_states=1000)
    for i, b in enumerate(small):
        f = sum(b["w"])
        case = Calls()
        two = bool(b["b"]) or i % 5 == 0
        reorder(case, "coef", b["a"], b["b"], b["w"], distinct_matrix(1 + i % 3, f), two)
        if i % 2 == 0 or len(b["w"]) <= 3:
            reorder(case, "overlap", b["a"], b["b"], b["w"], distinct_matrix(f, f, i % 4 == 0), two)
        cases.append(case)

    def make(i):
        n = rng.randint(2, 16 if i % 10 == 0 else 8)
        if i % 101 == 5:
            n = c.size(17, 60)
        w = [rng.choice([1, 1, 2, 3, 4, 5, rng.randint(1, 15 if n < 6 else 4)]) for _ in range(n)]
        q = one_based(shuffled(rng, n))
        # At most four atoms may be left over (any order of them is accepted).
        used = n if rng.random() < 0.7 else max(1, n - rng.randint(0, 4))
        two = rng.random() < 0.7
        ka = rng.randint(0, used) if two else used
        a, b = q[:ka], q[ka:used]
        f = sum(w)
        case = Calls()
        scale, most = unit(rng), rng.choice([1000000000, 1000, 3])
        reorder(case, "coef", a, b, w, rand_matrix(rng, rng.randint(1, 6), f, most), two, scale)
        if f <= 30 or i % 6 == 0:
            m = rand_matrix(rng, f, f, most)
            if rng.random() < 0.3:      # as overlaps are
                m = [[m[max(x, y)][min(x, y)] for y in range(f)] for x in range(f)]
            reorder(case, "overlap", a, b, w, m, two, scale)
        return case
    cases += guided(c, make, 450, 4500, 200)
    c.notes.append("%d matches enumerated by TLC, %d random" % (len(small), len(cases) - len(small)))
    run_calls(c, cases, reorder_cost)


def match_event(case, d, xs, ys, byrow, finer=0):
    """The specification's numbers and decimals are those of the call with `finer` fewer decimals."""
    d6 = lambda v: decimal(v, 6 + finer)
    a, b = (xs, ys) if byrow else (columns(xs), columns(ys))
    case.add(["matchrow" if byrow else "matchcol", str(d + finer)] + w_matrix(a, d6) + w_matrix(b, d6),
             {"op": "match", "d": d, "xs": xs, "ys": ys}, {"res": []})


def untie(v, d):
    """Keeps away from the middle between two roundings."""
    u = 10 ** (6 - d)
    return v + 1 if abs(v) % u == u // 2 else v


def check_C04(c):
    c.build(["qc"])
    rng = c.rng
    cases = []
    got = c.emitted("MCMatch", c.pick("MCMatch.cfg", "MCMatch_thorough.cfg"), min_states=1000)
    got += c.emitted("MCMatch", "MCMatch_space.cfg", min_states=1000)
    if not c.quick:
        got += c.emitted("MCMatch", "MCMatch_space_thorough.cfg", min_states=1000)
    got.sort(key=str)
    for i, b in enumerate(got):
        if i % 10 == 0:
            cases.append(Calls())
        match_event(cases[-1], b["d"], b["xs"], b["ys"], i % 2 == 0 and len(b["xs"][0]) == 1)
    wild = c.emitted("MCUnscramble", "MCUnscramble_wild.cfg", min_states=1000)
    for i, b in enumerate(wild):
        if i % 10 == 0:
            cases.append(Calls())
        f = sum(b["w"])
        two = bool(b["b"]) or i % 5 == 0
        reorder(cases[-1], "coef" if i % 2 else "overlap", b["a"], b["b"], b["w"],
                distinct_matrix(2 if i % 2 else f, f), two)

    def make(i):
        d = rng.randint(0, 4)
        dims = rng.choice([1, 2, 3, 3, 3, 4])
        u = 10 ** (6 - d)
        n = rng.randint(1, 9) if i % 40 else c.size(10, 60)
        big_ = rng.random() < 0.15
        pts = []
        lattice = [[rng.choice([0, u]) for _ in range(2)] + [0, -u][:rng.choice([0, 1, 1, 2])] for _ in range(dims)] \
            if rng.random() < 0.3 else None
        for _ in range(n):
            x = rng.random()
            if lattice:
                p = [rng.choice(v) for v in lattice]
            elif pts and x < 0.35:
                p = list(rng.choice(pts))
                p[rng.randrange(dims)] += rng.choice([-1, 1, 2, -10]) * u
            elif pts and x < 0.45:
                p = [-v for v in rng.choice(pts)]
            elif pts and x < 0.5:
                p = list(rng.choice(pts))
            elif x < 0.6:
                p = [rng.choice([0, u, -u]) for _ in range(dims)]
            else:
                lim = 1999000000 if big_ else 99999999
                p = [rng.randint(-lim // u, lim // u) * u if u <= lim else 0 for _ in range(dims)]
            pts.append([max(-1999000000, min(1999000000, v)) for v in p])

        exact = rng.random() < 0.3

        def off(p):
            h = u // 2
            if exact:
                return list(p)
            return [untie(v + rng.choice([0, 0, rng.randint(-h, h), h - 1, 1 - h, -1, 1]), d) for v in p]
        xs = [off(p) for p in pts]
        ys = [off(p) for p in pts]
        rng.shuffle(ys)
        ys = ys[:rng.randint(1, n)] if rng.random() < 0.4 else ys
        xs = xs[:rng.randint(1, n)] if rng.random() < 0.4 else xs
        case = Calls()
        match_event(case, d, xs, ys, i % 2 == 0, rng.randint(1, 8) if i % 5 == 3 else 0)
        return case
    run_calls(c, cases + guided(c, make, 600, 10000, 300))
    # Transfer calculations in which an atom has no counterpart, or two have
    # the same.
    jobs = [Jobs().add(b["job"]) for b in emitted_jobs(c, "atoms")]

    def calculation(i):
        cp = i % 2 == 0
        j = rand_system(rng, cp, 4, 2, 10) if i % 50 else rand_system(rng, cp, 12, 3, 40, 15)
        n = len(j["xp"])
        q = shuffled(rng, n)
        q2 = shuffled(rng, n) if cp else list(range(len(j["x2"])))
        j = scrambled(rng, j, q, q2)
        g = rng.choice(["x1", "x2", "xp"])
        j[g] = [list(p) for p in j[g]]
        a = rng.randrange(len(j[g]))
        k = rng.randrange(3)
        x = rng.random()
        if x < 0.35 and len(j[g]) > 1:
            j[g][a] = list(j[g][a - 1])
        elif x < 0.5:
            other = "x2" if g == "x1" else "x1"
            j[g][a] = list(rng.choice(j[other]))
        elif x < 0.9:
            j[g][a][k] += rng.choice([-100, 100, 1000000, -5000000])
        return Jobs().add(j)
    run_jobs(c, jobs + guided(c, calculation, 120, 2000, 80))


# -- C23 -----------------------------------------------------------------------------
def check_C23(c):
    c.build(["qc"])
    rng = c.rng
    cases = []
    cols = [(b["alpha"], b["beta"]) for b in c.emitted("MCRanking", c.pick("MCRanking.cfg", "MCRanking_thorough.cfg"),
                                                       min_states=1000)]
    small = len(cols)

    def make(i):
        lim = rng.choice([3, 20, 1000, 1900000000])
        n, m = rng.randint(1, rng.choice([4, 20, 60])), rng.choice([0, 0, 1, rng.randint(1, 40)])
        if i % 150 == 7:
            n, m = c.size(40, 200), rng.choice([0, c.size(10, 200)])
        a = [rng.randint(-lim, lim) for _ in range(n)]
        b = [rng.choice(a) if rng.random() < 0.2 else rng.randint(-lim, lim) for _ in range(m)]
        x = rng.random()
        if x < 0.3:
            a.sort()
            b.sort()
        elif x < 0.4:
            a.sort(reverse=True)
            b.sort(reverse=True)
        elif x < 0.45:
            b = list(a)
        elif x < 0.65:          # nearly the same
            k = rng.choice([1, 2, 100])
            a = [max(-1999999999, min(1999999999, rng.choice(a[:3]) + rng.randint(-k, k))) for _ in a]
            b = [max(-1999999999, min(1999999999, rng.choice(a) + rng.randint(-k, k))) for _ in b]
        return a, b, unit(rng)
    send = lambda x: [["rank" + (x + ("",))[2]] + w_matrix([[v] for v in x[0]]) + w_matrix([[v] for v in x[1]])]
    cols += c.guided("qc", make, send, c.pick(1300, 15000), c.pick(15000, 150000), c.pick(600, 6000))
    for i, x in enumerate(cols):
        a, b = x[:2]
        if i % 8 == 0:
            cases.append(Calls())
        cases[-1].add(send(x)[0],
                      {"op": "rank", "alpha": a, "beta": b}, {"keys": [], "ens": [], "spins": []})
    c.notes.append("%d pairs of columns enumerated by TLC, %d random" % (small, len(cols) - small))
    run_calls(c, cases)


# -- C29 -----------------------------------------------------------------------------
class Workshop:
    """A case: matrices (m, decimals), and steps with complexes made of them."""

    def __init__(self, store):
        self.store = store
        self.steps = []

    def add(self, *step):
        self.steps.append(step)
        return self

    def calls(self):
        r = [["keep"] + w_matrix(m, lambda v: decimal(v, u)) for m, u in self.store]
        d6 = lambda v: decimal(v, 6)
        for s in self.steps:
            if s[0] == "make":
                a = s[2]
                r.append(["make", str(s[1]), "1" if a["cp"] else "0"] +
                         [str(a[k]) for k in ("n1", "h1", "n2", "h2", "i1", "i2", "ip", "is", "ie")])
            elif s[0] == "line":
                g = s[2]
                r.append(["line", str(s[1])] + w_matrix(columns(g["x1"]), d6) + w_matrix(columns(g["x2"]), d6) +
                         w_matrix(columns(g["xp"]), d6) + w_ints(g["wp"]) + w_ints(g["w2"]))
            elif s[0] == "ask":
                q = s[2]
                r.append(["ask", str(s[1]), enc(q["t1"]), str(q["k1"]), enc(q["t2"]), str(q["k2"])])
            else:
                r.append([s[0]] + [str(x) for x in s[1:]])
        return r

    def seen(self, got):
        """The matrices as integers, None if they are not."""
        res = []
        if len(got) != len(self.store):
            return None
        try:
            for m, (_, u) in zip(got, self.store):
                rows = []
                for r in m:
                    v = [Decimal(x).scaleb(u) for x in r]
                    n = [int(x.to_integral_value()) for x in v]
                    if any(abs(a - b) > Decimal("1e-7") or abs(b) > 2000000000 for a, b in zip(v, n)):
                        return None
                    rows.append(n)
                res.append(rows)
        except (InvalidOperation, ValueError, OverflowError):
            return None
        return res

    def trace(self, outs):
        tr = [{"op": "begin"}]
        at = lambda i: outs[i] if i < len(outs) else {"k": "lost"}
        for i, (m, _) in enumerate(self.store):
            tr.append({"op": "keep", "m": m, "out": at(i)["k"]})
        for i, s in enumerate(self.steps, len(self.store)):
            o = at(i)
            e = {"op": s[0], "out": "skip" if o.get("skip") else o["k"]}
            if s[0] == "look":
                v = self.seen(o.get("store", []))
                e.update(whole=v is not None, store=v or [])
            else:
                e["s"] = s[1]
            if s[0] == "make":
                e["a"] = s[2]
            elif s[0] == "line":
                e["g"] = s[2]
            elif s[0] == "copy":
                e["to"] = s[2]
            elif s[0] == "ask":
                rep = report(o["jeff"], o["out"]) if e["out"] == "ok" else None
                e.update(q=s[2], printed="J_eff" in o.get("out", ""), fin=rep is not None, r=rep or {})
            tr.append(e)
            if o["k"] not in ("ok", "throw"):
                return tr       # the process ended
        if len(outs) > len(self.store) + len(self.steps):
            tr[-1] = dict(tr[-1])
            tr[-1]["out"] = outs[-1]["k"] + " at the end"
        return tr


class Stock:
    """Matrices of a few systems with as many basis functions, in a store, and
    how they can be used."""

    def __init__(self, rng, systems=1, maxatoms=3, maxfun=7):
        self.rng = rng
        self.j = j = rand_system(rng, False, maxatoms, 3, maxfun)
        na, nb = len(j["x1"]), len(j["x2"])
        f = len(j["s"])
        self.store, self.sys = [], []
        for i in range(systems):
            k = dict(j)
            if i:
                k["m1"] = rand_matrix(rng, rng.randint(1, 3), len(j["m1"][0]), 99)
                k["m2"] = rand_matrix(rng, rng.randint(1, 3), len(j["m2"][0]), 99)
                k["p"] = rand_matrix(rng, len(j["p"]), f, 99)
                k["s"] = rand_overlap(rng, f, smax(f))
                k["e"] = rand_energies(rng, len(j["p"]))
            c1, c2 = (rand_matrix(rng, rng.randint(1, 3), f, 99) for _ in range(2))
            ids = {}
            for name, m, u in (("m1", k["m1"], 2), ("m2", k["m2"], 2), ("p", k["p"], 2), ("s", k["s"], 3),
                               ("e", [[x] for x in k["e"]], 4), ("c1", c1, 2), ("c2", c2, 2)):
                self.store.append((m, u))
                ids[name] = len(self.store)
            self.sys.append(ids)
        self.na, self.nb = na, nb
        self.whole = j["xp"]
        self.wp = j["wp"]
        self.used = []      # geometries

    def rows(self, i):
        return len(self.store[i - 1][0])

    def args(self, cp):
        """Of one system, or some of its matrices of another."""
        rng = self.rng
        x = rng.choice(self.sys)
        y = rng.choice(self.sys) if rng.random() < 0.3 else x
        a = {"cp": cp, "ip": x["p"], "is": y["s"], "ie": y["e"]}
        a["i1"], a["i2"] = (x["c1"], y["c2"]) if cp else (y["m1"], x["m2"])
        if cp and rng.random() < 0.2:
            a["i2"] = a["i1"]       # a monomer with itself
        if rng.random() < 0.04:
            a[rng.choice(["i1", "i2"])] = x[rng.choice(["m1", "m2", "c1", "c2", "p"])]
        for n, h, i in (("n1", "h1", "i1"), ("n2", "h2", "i2")):
            a[n] = self.rows(a[i])
            a[h] = rng.randint(0, a[n])
        return a

    def geometry(self, cp, kind):
        """1: in order, 2: in another order, 3: an atom has no partner."""
        rng = self.rng
        n = self.na + self.nb
        old = [g for m, g in self.used if m == cp]
        if kind == 2 and old and rng.random() < 0.5:    # nearly one of before
            g = dict(rng.choice(old))
            one = rng.choice(["", "x1", "x2", "x2", "xp"])
            for x, w in (("x1", None), ("x2", "w2" if cp else None), ("xp", "wp")):
                if x == one or not one and rng.random() < 0.5:
                    q = shuffled(rng, len(g[x]))
                    g[x] = [g[x][a] for a in q]
                    if w:
                        g[w] = [g[w][a] for a in q]
            return g
        q = list(range(n)) if kind == 1 else shuffled(rng, n)
        noise = (lambda p: noisy(rng, p)) if rng.random() < 0.5 else list
        g = {"xp": [noise(self.whole[a]) for a in q], "wp": [self.wp[a] for a in q]}
        if cp:
            # the functions of monomer 2 are in the order of its atoms
            q2 = list(range(n)) if kind == 1 or rng.random() < 0.3 else shuffled(rng, n)
            g["x1"] = [noise(p) for p in self.whole]
            g["x2"] = [noise(self.whole[a]) for a in q2]
            g["w2"] = [self.wp[a] for a in q2]
        else:
            g["x1"] = [noise(p) for p in self.whole[:self.na]]
            g["x2"] = [noise(p) for p in self.whole[self.na:]]
            g["w2"] = self.wp[self.na:]
        if kind == 3:
            x = g["xp"]
            k = rng.randrange(3)
            a = rng.randrange(n)
            x[a] = list(x[a])
            x[a][k] += rng.choice([-100, 100, 5000000])
        self.used.append((cp, g))
        return g

    def question(self, a, good):
        rng = self.rng
        q = {}
        q["t1"], q["k1"] = pick_orbital(rng, a["n1"], a["h1"])
        q["t2"], q["k2"] = pick_orbital(rng, a["n2"], a["h2"])
        if not good:
            m = rng.choice("12")
            if rng.random() < 0.8:
                q["k" + m] += rng.choice([-1, 1]) * (a["n" + m] + 1)
            else:
                q["t" + m] = rng.choice(["homo", "", "SOMO", "HOMO-1"])
        return q


def bench_cost(tr):
    n = 5
    sizes = [len(e["m"]) * len(e["m"][0]) for e in tr if e["op"] == "keep"]
    for e in tr:
        n += {"ask": 25 + max(sizes), "line": 10 + max(sizes)}.get(e["op"], 3)
    return n


def check_C29(c):
    c.build(["qc"])
    rng = c.rng
    cases = []
    got = c.emitted("MCComplexes", "MCComplexes.cfg", min_states=10000)
    if not c.quick:
        got += c.emitted("MCComplexes", "MCComplexes_thorough.cfg", min_states=100000)
        got += c.emitted("MCComplexes", "MCComplexes_kinds.cfg", min_states=10000)
    got.sort(key=str)
    total = len(got)
    if c.quick:
        got = [b for i, b in enumerate(got) if i % 6 == c.seed % 6]
    for b in got:
        st = Stock(rng, rng.randint(1, 2), 3, 7)
        w = Workshop(st.store)
        args = {1: None, 2: None}
        same = rng.random() < 0.5       # the same orbitals each time
        asked = {}
        for e in b["hist"]:
            s, x = e["s"], e["x"]
            if e["op"] == "make":
                a = st.args(x != 1)
                if x == 3:
                    a["i2"], a["n2"] = a["i1"], a["n1"]
                    a["h2"] = min(a["h2"], a["n2"])
                elif x == 4:
                    a["i2"] = rng.choice(st.sys)["m2"]
                args[s] = a
                w.add("make", s, a)
            elif e["op"] == "line":
                w.add("line", s, st.geometry(args[s]["cp"], x))
            elif e["op"] == "copy":
                args[x] = args[s]
                w.add("copy", s, x)
            elif e["op"] == "drop":
                w.add("drop", s)
            else:
                key = (str(args[s]), x)
                if not (same and key in asked):
                    asked[key] = st.question(args[s], x == 1 or rng.random() < 0.5)
                w.add("ask", s, asked[key])
        w.add("look")
        cases.append(w)
    small = len(cases)

    def make(i):
        big_ = i % 60 == 11
        st = Stock(rng, rng.randint(1, 3), 6 if big_ else 4, 20 if big_ else 8)
        w = Workshop(st.store)
        args, lined = {}, {}
        asked = []
        for _ in range(rng.randint(4, 9 if big_ else 22)):
            x = rng.random()
            s = rng.randint(1, 4)
            if x < 0.22 or not args:
                args[s], lined[s] = st.args(rng.random() < 0.45), False
                w.add("make", s, args[s])
                continue
            if s not in args or rng.random() < 0.5:
                s = rng.choice(sorted(args))
            if x < 0.42 and not lined[s]:
                lined[s] = True
                w.add("line", s, st.geometry(args[s]["cp"], rng.choice([1, 2, 2, 2, 2, 3])))
            elif x < 0.50:
                to = rng.randint(1, 4)
                if to != s:
                    args[to], lined[to] = args[s], lined[s]
                    w.add("copy", s, to)
            elif x < 0.54:
                del args[s], lined[s]
                w.add("drop", s)
            elif x < 0.58:
                w.add("look")
            else:
                again = [q for t, a, q in asked if a is args[s]]
                q = rng.choice(again) if again and rng.random() < 0.5 else st.question(args[s], rng.random() < 0.85)
                asked.append((s, args[s], q))
                w.add("ask", s, q)
        w.add("look")
        return w
    cases += guided(c, make, 250, 3000, 120)
    c.notes.append("%d histories of %d enumerated by TLC, %d random ones" % (small, total, len(cases) - small))
    run = lambda cs: c.drive("qc", [x.calls() for x in cs])
    out = run(cases)
    traces = [x.trace(o) for x, o in zip(cases, out)]
    c.validate("TraceComplexes", traces, cfg="TraceComplexes.cfg", cost=bench_cost,
               shards=max(1, min(8, len(traces) // 40)),
               rerun=lambda ks: [cases[k].trace(o) for k, o in zip(ks, run([cases[k] for k in ks]))])
