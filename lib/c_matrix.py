"""C20 (edits of matrices) and C21 (operations on matrices)."""
from fractions import Fraction

from vlib import Broken

EV = dict(op="", m=1, n=1, i=1, j=1, k=1, v=0, row=[])


def ev(op, **kw):
    e = dict(EV)
    e["op"] = op
    e.update(kw)
    return e


def words(e):
    """The driver's call for an edit."""
    op, m, i, j, k = e["op"], str(e["m"]), str(e["i"]), str(e["j"]), str(e["k"])
    v, row = str(e["v"]), [str(x) for x in e["row"]]
    if op == "make":
        return [op, m, i, j, k] + row
    if op in ("new", "get"):
        return [op, m, i, j, k]
    if op in ("new2", "get2", "swaprow", "swapcol", "moverow", "movecol", "resize", "ptr"):
        return [op, m, i, j]
    if op in ("new1", "get1", "getrow", "getcol", "rows", "cols", "shel"):
        return [op, m, i]
    if op in ("get0", "pass", "total", "show", "def", "places", "readers"):
        return [op, m]
    if op == "set":
        return [op, m, v, i, j, k]
    if op in ("set2", "ptrset"):
        return [op, m, v, i, j]
    if op == "set1":
        return [op, m, v, i]
    if op == "set0":
        return [op, m, v]
    if op in ("setrow", "setcol"):
        return [op, m, i] + row
    if op in ("copy", "assign", "mcopy"):
        return [op, m, str(e["n"])]
    if op == "unit":
        return [op] + row
    raise Broken("no such edit " + op)


def make(m, r, c, s, base):
    return ev("make", m=m, i=r, j=c, k=s, row=[base + n for n in range(1, r * c * s + 1)])


def unit(rng, same=True):
    """Powers of two that the numbers of the three slots are multiples of: the sizes of numbers do not matter."""
    k = [rng.choice([rng.randint(-80, 80), rng.randint(20, 60), rng.randint(-9, 9)]) for _ in range(3)]
    return ev("unit", row=[k[0]] * 3 if same else k)


def trace_of(case, outcomes):
    """Joins the edits of a case with what the code did."""
    tr = [{"op": "begin"}]
    for e, o in zip(case, outcomes):
        if e["op"] == "unit":     # the specification's numbers are the multiples
            continue
        d = dict(e)
        d["out"] = o["k"]
        d["val"] = o.get("val", [])
        d["obs"] = o.get("obs", [])
        tr.append(d)
    if len(outcomes) > len(case):     # the process died after the last call
        d = dict(case[-1])
        d.update(out=outcomes[-1]["k"], val=[], obs=[])
        tr.append(d)
    return tr


class Walk:
    """A random history over three matrices; tracks only their shapes."""

    Fresh, Spread = 700000000, 200000000

    def __init__(self, rng, n, maxdim):
        self.r, self.maxdim = rng, maxdim
        self.fresh = self.Fresh
        self.case = []
        self.sh = {}
        for m in (1, 2, 3):
            d = [rng.randint(1, maxdim), rng.randint(1, maxdim), rng.choice([1, 1, 1, 2, 3])]
            self.add(self.start(m, d))
            self.sh[m] = d
        while len(self.case) < n + 3:
            self.step()
        if rng.random() < 0.6:
            self.refused()

    def start(self, m, d):
        return make(m, d[0], d[1], d[2], m * self.Spread)

    def add(self, e):
        self.case.append(e)

    def vals(self, n):
        self.fresh += n
        return [self.fresh - n + i + 1 for i in range(n)]

    def step(self):
        rng = self.r
        m = rng.randint(1, 3)
        d = self.sh[m]
        x = rng.random()
        if x < 0.18:
            op = rng.choice(["set", "set", "set2", "set1", "set0", "ptrset"])
            self.add(ev(op, m=m, i=rng.randint(1, d[0]), j=rng.randint(1, d[1]),
                        k=rng.randint(1, d[2]), v=rng.choice([1, -1]) * self.vals(1)[0]))
        elif x < 0.24:
            op = rng.choice(["get", "get2", "get1", "get0", "getrow", "getcol", "total", "ptr", "places"])
            i = rng.randint(1, d[1]) if op == "getcol" else rng.randint(1, d[0])
            self.add(ev(op, m=m, i=i, j=rng.randint(1, d[1]), k=rng.randint(1, d[2])))
        elif x < 0.34:
            if rng.random() < 0.5:
                self.add(ev("setrow", m=m, i=rng.randint(1, d[0]), row=self.vals(d[1])))
            else:
                self.add(ev("setcol", m=m, i=rng.randint(1, d[1]), row=self.vals(d[0])))
        elif x < 0.58:
            op = rng.choice(["swaprow", "swapcol", "moverow", "movecol"])
            n = d[0] if op.endswith("row") else d[1]
            self.add(ev(op, m=m, i=rng.randint(1, n), j=rng.randint(1, n)))
        elif x < 0.82:
            op = rng.choice(["rows", "cols", "shel"])
            a = ["rows", "cols", "shel"].index(op)
            lim = 3 if op == "shel" else self.maxdim
            n = rng.randint(1, lim)
            if rng.random() < 0.08:
                self.add(ev(op, m=m, i=0))    # everything is lost
            self.add(ev(op, m=m, i=n))
            d[a] = n
        elif x < 0.87:
            i, j = rng.randint(1, self.maxdim), rng.randint(1, self.maxdim)
            self.add(ev("resize", m=m, i=i, j=j))
            self.sh[m] = [i, j, 1]
        elif x < 0.90:
            op = rng.choice(["new", "new2", "new1", "def"])
            i, j, k = [1 if op == "def" else rng.randint(1, 3) for _ in range(3)]
            self.add(ev(op, m=m, i=i, j=j, k=k))
            self.sh[m] = [i, j if op != "new1" else 1, k if op == "new" else 1]
        elif x < 0.98:
            n = rng.randint(1, 3)
            self.add(ev(rng.choice(["copy", "assign", "assign", "mcopy"]), m=m, n=n))
            self.sh[m] = list(self.sh[n])
        elif x < 0.99:
            self.add(ev("pass", m=m))
        else:
            self.wrong_line(m)

    def wrong_line(self, m):
        rng, d = self.r, self.sh[m]
        op = rng.choice(["setrow", "setcol"])
        right = d[1] if op == "setrow" else d[0]
        n = rng.choice([x for x in (right - 1, right + 1, 0, d[0], d[1], d[0] * d[1]) if x != right])
        lim = d[0] if op == "setrow" else d[1]
        self.add(ev(op, m=m, i=rng.randint(1, lim), row=self.vals(n)))

    def refused(self):
        """One edit outside of the matrix."""
        rng = self.r
        m = rng.randint(1, 3)
        d = self.sh[m]

        def out(n):
            return rng.choice([0, -1, n + 1, n + 2, n * 3 + 1, -n, 1000, -1000])
        i, j, k = rng.randint(1, d[0]), rng.randint(1, d[1]), rng.randint(1, d[2])
        op = rng.choice(["set", "set", "set2", "set1", "get", "get", "get2", "get1", "getrow", "getcol",
                         "setrow", "setcol", "new", "new2", "new1", "resize"])
        n = {"set": 3, "get": 3, "new": 3, "set2": 2, "get2": 2, "new2": 2, "resize": 2}.get(op, 1)
        bad = rng.randint(1, n)
        if op in ("new", "new2", "new1", "resize"):
            z = rng.choice([0, -1, -3]) if op != "new1" else -rng.randint(1, 4)
            i, j, k = [z if bad == b else x for b, x in ((1, i), (2, j), (3, k))]
        elif op in ("getcol", "setcol"):
            i = out(d[1])
        else:
            i, j, k = [out(d[b - 1]) if bad == b else x for b, x in ((1, i), (2, j), (3, k))]
        row = self.vals(d[1] if op == "setrow" else d[0]) if op in ("setrow", "setcol") else []
        self.add(ev(op, m=m, i=i, j=j, k=k, v=5, row=row))


def check_C20(c):
    c.build(["matrix"])
    c.model("MCMat", c.pick("MCMat_quick.cfg", "MCMat.cfg"), min_states=10000)
    cases = []
    for b in c.emitted("MCMat", "MCMat_emit.cfg", min_states=10000):
        r, k, s = b["dim"]
        cases.append([make(1, r, k, s, 1000), make(2, k, r, 1, 2000)] + b["hist"])
    small = len(cases)
    n = c.pick(700, 7000)
    send = lambda x: [words(e) for e in x]

    def walk(i):
        if i % 60 == 59:
            return Walk(c.rng, c.rng.randint(3, 12), c.size(8, 40)).case
        if i % 60 == 29:
            return Walk(c.rng, c.size(40, 250), 2).case
        big = i % 3 == 0
        w = Walk(c.rng, c.rng.randint(5, 60 if big else 25), 7 if big else 4).case
        return [unit(c.rng)] + w if i % 4 == 1 else w
    cases += c.guided("matrix", walk, send, n, 12 * n, n // 2)
    # every single refusal, on its own
    def refusal(i):
        w = Walk(c.rng, 1, 4)
        if len(w.case) == 4:
            w.refused()
        return w.case
    cases += c.guided("matrix", refusal, send, c.pick(500, 4000), c.pick(2500, 20000), c.pick(100, 1000))
    run = lambda cs: c.drive("matrix", [send(x) for x in cs])
    out = run(cases)
    traces = [trace_of(x, o) for x, o in zip(cases, out)]
    c.notes.append("%d histories enumerated by TLC, %d random histories" % (small, len(cases) - small))
    c.validate("TraceMat", traces, rerun=lambda ks: [trace_of(cases[k], o) for k, o in zip(ks, run([cases[k] for k in ks]))])


# -- C24 ---------------------------------------------------------------------
class ShownWalk(Walk):
    """A history whose numbers have at most six digits, so that their print is exact, with prints in between."""

    small = False

    def number(self):
        rng = self.r
        if self.small:
            return rng.randint(-999, 999)
        x = rng.random()
        if x < 0.15:
            return 0
        if x < 0.55:
            return 128 * rng.randint(-7999, 7999)
        if x < 0.8:
            return 1024 * rng.choice([rng.randint(-9, 9), rng.randint(-999999, 999999)])
        return rng.choice([-1, 1]) * rng.choice([4, 8, 16, 32, 64, 128])

    def vals(self, n):
        # The signs of single elements are chosen by the caller.
        return [self.number() for _ in range(n)]

    def start(self, m, d):
        return ev("make", m=m, i=d[0], j=d[1], k=d[2], row=self.vals(d[0] * d[1] * d[2]))

    def step(self):
        super().step()
        if self.r.random() < 0.4:
            self.add(ev("show", m=self.r.randint(1, 3)))

    def refused(self):
        for m in (1, 2, 3):
            self.add(ev("show", m=m))


class SmallWalk(ShownWalk):
    small = True


def nearest(w, per):
    """The multiple of 1/per that was printed with at least six digits, if there is one."""
    v = Fraction(w) * per
    n = round(v)
    return n if abs(v - n) * 200000 <= abs(n) and abs(n) < 2 ** 31 else None


def text_of(ws, k=None):
    """The words of a printed matrix as labelled numbers; numbers of elements in units of the traces
    (multiples of 2^-k, or the exact multiples of 1/1024)."""
    res, i = [], 0
    labels = ("rows", "cols", "shel", "Shelf", "Col", "Row")
    while i < len(ws):
        w = ws[i]
        i += 1
        if w in ("Matrix", "Attributes") and not res:
            continue
        if w in labels and i < len(ws) and ws[i].isdigit() and len(ws[i]) < 9:
            res.append({"w": w, "n": int(ws[i])})
            i += 1
            continue
        try:
            v = Fraction(w) * 1024
            if k is not None:
                v = nearest(w, Fraction(2) ** k)
                res.append({"w": "number " + w, "n": 0} if v is None else {"w": "value", "n": v})
                continue
        except (ValueError, ZeroDivisionError):
            res.append({"w": w, "n": 0})
            continue
        # Numbers that are not printed exactly match nothing.
        exact = v.denominator == 1 and abs(v) < 2 ** 31
        res.append({"w": "value", "n": int(v)} if exact else {"w": "number " + w, "n": 0})
    return res


def shown_trace(case, outcomes):
    tr = trace_of(case, outcomes)
    scaled = case[0]["op"] == "unit"
    k = case[0]["row"][0] if scaled else None
    for e, o in zip(tr[1:], outcomes[1:] if scaled else outcomes):
        e["seen"] = o.get("seen", [])
        e["text"] = text_of(o.get("words", []), k)
    return tr


def check_C24(c):
    c.build(["matrix"])
    c.model("MCMat", c.pick("MCMat_quick.cfg", "MCMat.cfg"), min_states=10000)
    cases = []
    for b in c.emitted("MCMat", "MCMat_emit.cfg", min_states=10000):
        r, k, s = b["dim"]
        cases.append([make(1, r, k, s, 1000), make(2, k, r, 1, 2000)] + b["hist"])
        # whole numbers of the case are whole numbers of the matrix
        for e in cases[-1]:
            if e["op"] in ("make", "set", "setrow", "setcol"):
                e["v"] *= 1024
                e["row"] = [1024 * x for x in e["row"]]
        cases[-1] = cases[-1] + [ev("show", m=1), ev("show", m=2)]
    small = len(cases)
    send = lambda x: [words(e) for e in x]

    def walk(i):
        if i % 60 == 59:
            return ShownWalk(c.rng, c.rng.randint(3, 12), c.size(12, 40)).case
        if i % 60 == 29:
            return ShownWalk(c.rng, c.size(40, 250), 2).case
        big = i % 3 == 0
        if i % 4 == 1:
            return [unit(c.rng)] + SmallWalk(c.rng, c.rng.randint(2, 12), 4).case
        return ShownWalk(c.rng, c.rng.randint(2, 30 if big else 12), 9 if big else 4).case
    cases += c.guided("matrix", walk, send, c.pick(900, 9000), c.pick(5000, 50000), c.pick(300, 3000))
    run = lambda cs: c.drive("matrix", [send(x) for x in cs])
    out = run(cases)
    traces = [shown_trace(x, o) for x, o in zip(cases, out)]
    c.notes.append("%d histories enumerated by TLC, %d random histories, matrices printed in between and at the end"
                   % (small, len(cases) - small))
    c.validate("TraceMat", traces, rerun=lambda ks: [shown_trace(cases[k], o) for k, o in zip(ks, run([cases[k] for k in ks]))])


# -- C21 ---------------------------------------------------------------------
def opwords(e):
    op, m, n, i = e["op"], str(e["m"]), str(e["n"]), str(e["i"])
    if op in ("mul", "catrows", "catcols"):
        return [op, m, n]
    if op in ("tr", "diag", "dup", "readers"):
        return [op, m]
    if op in ("mrow", "mcol"):
        return [op, m, i]
    if op in ("listd", "listi"):
        return [op] + [str(x) for x in e["row"]]
    if op == "listl":
        w = [op]
        for n, r in enumerate(e["rows"]):
            w += ([";"] if n else []) + [str(x) for x in r]
        return w
    return words(e)


def ops_trace(case, outcomes):
    tr = trace_of(case, outcomes)
    for e, o in zip(tr[1:], outcomes[1:] if case[0]["op"] == "unit" else outcomes):
        e["seen"] = o.get("seen", [])
    for e, o in zip(tr[1:], outcomes[1:] if case[0]["op"] == "unit" else outcomes):
        e["res"] = o.get("res", {"r": -1, "c": -1, "s": -1, "e": []})
    return tr


def op_event(op, **kw):
    e = dict(op=op, m=1, n=2, i=1, row=[], rows=[])
    e.update(kw)
    return e


def random_ops(rng, maxdim):
    """A few matrices, then a sequence of operations on them."""
    def values(n, bound):
        return [rng.randint(-bound, bound) for _ in range(n)]
    a, b, k = [rng.randint(1, maxdim) for _ in range(3)]
    s = rng.choice([1, 1, 1, 1, 2, 3])
    # Few different values make many equal elements
    bound = rng.choice([7000, 7000, 1, 2])
    if rng.random() < 0.2:
        b, s = a, 1
    shapes = {1: (a, b, s)}
    shapes[2] = rng.choice([(b, k, s), (b, k, 1), (a, k, s), (k, b, s), (b, a, 1), (a, b, s), (k, a, 1)])
    shapes[3] = rng.choice([(1, k, 1), (k, 1, 1), (1, 1, 1), (k, b, 1), (b, k, 1)])
    case = [ev("make", m=m, i=x[0], j=x[1], k=x[2], row=values(x[0] * x[1] * x[2], bound))
            for m, x in shapes.items()]
    last = []
    x = rng.random()
    mixed = x < 0.15
    if x < 0.3:
        case.insert(0, unit(rng, not mixed))
    for _ in range(rng.randint(2, 8)):
        op = rng.choice(["mul", "mul", "mul", "tr", "diag", "catrows", "catcols", "mrow", "mcol", "dup",
                         "listd", "listi", "listl"])
        m, n = rng.randint(1, 3), rng.randint(1, 3)
        if rng.random() < 0.2:
            n = m
        if mixed and op in ("catrows", "catcols"):
            n = m
        x, y = shapes[m], shapes[n]
        e = op_event(op, m=m, n=n)
        fatal = False
        if op == "mul":
            fatal = x[1] != y[0] or x[2] != 1 or y[2] != 1
        elif op == "tr":
            fatal = x[2] != 1
        elif op in ("mrow", "mcol"):
            lim = x[0] if op == "mrow" else x[1]
            e["i"] = rng.choice([1, lim, rng.randint(1, lim), rng.randint(-2, lim + 3)])
            fatal = not 1 <= e["i"] <= lim
        elif op in ("listd", "listi"):
            e["row"] = values(rng.randint(1, 12), 500000000)
        elif op == "listl":
            w = rng.randint(1, 5)
            e["rows"] = [values(w, 500000000) for _ in range(rng.randint(1, 5))]
            if rng.random() < 0.3:
                r = rng.randrange(len(e["rows"]))
                e["rows"][r] = values(rng.choice([w + 1, max(1, w - 1), w + 2]), 1000)
        (last if fatal else case).append(e)
    # What may end the process comes last.
    return case + last[:1]


def check_C21(c):
    c.build(["matrix"])
    c.model("MCOps", "MCOps.cfg", min_states=10000)
    cases = []
    for b in c.emitted("EmitOps", c.pick("EmitOps.cfg", "EmitOps_thorough.cfg"), min_states=1000):
        mk = lambda m, s, e: ev("make", m=m, i=s[0], j=s[1], k=s[2], row=e)
        cases.append([mk(1, b["a"], b["ea"]), mk(2, b["b"], b["eb"]), b["e"]])
    small = len(cases)
    send = lambda x: [opwords(e) for e in x]
    cases += c.guided("matrix", lambda i: random_ops(c.rng, 9 if i % 10 == 0 else c.size(9, 40) if i % 97 == 3 else 4),
                      send, c.pick(3500, 35000), c.pick(14000, 140000), c.pick(1500, 15000))
    run = lambda cs: c.drive("matrix", [send(x) for x in cs])
    out = run(cases)
    traces = [ops_trace(x, o) for x, o in zip(cases, out)]
    c.notes.append("%d calls enumerated by TLC, %d random sequences" % (small, len(cases) - small))
    c.validate("TraceMat", traces, rerun=lambda ks: [ops_trace(cases[k], o) for k, o in zip(ks, run([cases[k] for k in ks]))])
