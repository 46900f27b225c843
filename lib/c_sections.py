"""C33: readers of sections, derived from FileReader."""
import c_files
from vlib import Broken, enc, log


class Case(list):
    """Events without their outcomes."""

    def file(self, f, text):
        lines = text.split("\n")
        if lines[-1] == "":
            lines.pop()
        self.append((["file", str(f), text], {"op": "file", "f": str(f), "is": 1, "lines": lines}))

    def gone(self, f):
        self.append((["gone", "-", str(f)], {"op": "file", "f": str(f), "is": 0, "lines": []}))

    def make(self, m, f, reg, does):
        words = ["make", str(m), str(f)]
        for s in reg:
            words += ["s", s["tag"], str(s["fn"]), str(len(s["headers"]))] + s["headers"]
        for d in does:
            words += ["d", d["k"], str(d["n"]), d["w"]]
        self.append((words, {"op": "make", "m": m, "f": str(f), "reg": reg, "does": does}))

    def read(self, m, f):
        self.append((["read", str(m), str(f)], {"op": "read", "m": m}))

    def calls(self):
        return [[enc(w) for w in words] for words, _ in self]

    def trace(self, outcomes):
        tr = [{"op": "begin"}]
        for (_, e), o in zip(self, outcomes):
            e = dict(e, out=o["k"])
            if e["op"] == "read":
                e["calls"] = o.get("calls", [])
            tr.append(e)
        if len(outcomes) > len(self):
            tr[-1]["out"] = outcomes[-1]["k"] + " at the end"
        return tr


def whole(reg):
    return all((not s["headers"]) == (s["fn"] == 0) for s in reg)


def small(rng, b):
    """A behaviour of the model: the file with or without its last end of
    line; read twice, by one reader or by two."""
    case = Case()
    text = "".join(t + "\n" for t in b["lines"])
    if text and rng.random() < 0.5:
        text = text[:-1]
    case.file(1, text)
    case.make(1, 1, b["reg"], b["does"])
    if not whole(b["reg"]):
        return case
    case.read(1, 1)
    x = rng.random()
    if x < 0.3:
        case.read(1, 1)
    elif x < 0.45:
        case.make(2, 1, b["reg"], b["does"][::-1])
        case.read(2, 1)
        case.read(1, 1)
    elif x < 0.6:
        case.file(1, "".join(t + "\n" for t in reversed(b["lines"])))
        case.read(1, 1)
    elif x < 0.65:
        case.gone(1)
        case.read(1, 1)
    return case


def headers(rng, words):
    h = rng.choice(["a", "b", "ab", " a", "aa", "b b", "-", "=", "Alpha MOs", "Alpha", "MOs", "S", "Section 1", "Section 10",
                    "Section", rng.choice(words), rng.choice(words) + ":"])
    return h if h.strip() else "a"


def line(rng, hs, words):
    n = rng.choice([0, 0, 1, 2, 3, 5, 20, rng.choice([80, 200, 600])])
    s = "".join(rng.choice("ab-= 01.S\t") for _ in range(n))
    x = rng.random()
    if hs and x < 0.4:
        h = rng.choice(hs)
        if rng.random() < 0.2:                       # not quite
            k = rng.randrange(len(h))
            h = rng.choice([h[:k] + h[k + 1:], h[:k] + h[k:].swapcase(), h[:k] + "~" + h[k:]])
        p = rng.choice([0, len(s), rng.randint(0, len(s))])
        s = s[:p] + h + s[p:]
    elif x < 0.5:
        s += rng.choice(words)
    return s.replace("\n", " ")


def text(c, rng, hs, words):
    n = rng.choice([0, 1, 2, 3, 4, 6, 10, 20, rng.randint(0, 60), c.size(1, 200)])
    ls = [line(rng, hs, words) for _ in range(n)]
    return "\n".join(ls) + rng.choice(["", "\n", "\n"])


def random_case(c, words):
    rng = c.rng
    case = Case()
    hs = [headers(rng, words) for _ in range(rng.randint(1, 7))]
    made = {}
    there = set()
    for _ in range(rng.randint(3, 10)):
        x = rng.random()
        f = rng.choice([1, 1, 2])
        if x < 0.25 or not there:
            if rng.random() < 0.12:
                case.gone(f)
            else:
                case.file(f, text(c, rng, hs, words))
                there.add(f)
        elif x < 0.5 or not made:
            reg, rest = [], list(dict.fromkeys(hs))
            rng.shuffle(rest)
            tags = rng.sample(["A", "B", "Overlap", "a", "Z z", "9", "Coef"], rng.randint(1, min(5, len(rest))))
            for k, t in enumerate(tags):
                n = 1 if k + 1 < len(tags) else rng.randint(1, len(rest) - k)
                reg.append({"tag": t, "headers": sorted(rest[k:k + n]), "fn": rng.randint(1, 4)})
            if rng.random() < 0.12:
                s = rng.choice(reg)
                if rng.random() < 0.5:
                    s["fn"] = 0
                else:
                    s["headers"] = []
            ways = [("take", rng.choice([0, 1, 2, 3, 7, 50]), ""), ("back", rng.choice([1, 1, 2, 5]), ""),
                    ("until", 0, rng.choice(hs)), ("until", 0, rng.choice(["b", "=", "~~", " "])),
                    ("take", 0, ""), ("take", 1, "")]
            if rng.random() < 0.25:
                ways.append(("give", rng.choice([0, 1, 3]), ""))
            does = [dict(zip("knw", rng.choice(ways))) for _ in range(4)]
            m = rng.choice([1, 1, 2])
            case.make(m, f, reg, does)
            made[m] = f
            if not whole(reg):
                del made[m]
        else:
            m = rng.choice(sorted(made))
            case.read(m, made[m])
    for m in sorted(made):
        case.read(m, made[m])
    return case


def check_C33(c):
    try:
        c.build(["sections"])
    except Broken as e:
        # Readers are derived differently now, and those of calc_J have been
        # adapted to that: they are looked at instead.
        if "sections_driver" not in str(e):
            raise
        log("NOTE: no reader can be derived the known way: the existing ones are used")
        c.notes.append("no reader could be derived the known way: the existing ones were used")
        return c_files.check_C28(c)
    rng = c.rng
    got = c.emitted("MCSections", c.pick("MCSections.cfg", "MCSections_thorough.cfg"), min_states=50000)
    got = [b for _, b in sorted({str(b): b for b in got}.items())]
    rng.shuffle(got)
    got.sort(key=lambda b: whole(b["reg"]))
    cases = [small(rng, b) for b in got[:c.pick(6000, 60000)]]
    words = [w for w in c.literals()[0] if w.strip() and all(32 <= ord(x) < 127 for x in w)] or ["S"]
    n = len(cases)
    cases += c.guided("sections", lambda i: random_case(c, words), Case.calls, c.pick(1500, 10000), c.pick(4000, 40000),
                      c.pick(500, 5000))
    c.notes.append("%d files and registrations enumerated by TLC, %d random ones" % (n, len(cases) - n))
    outs = c.drive("sections", [x.calls() for x in cases])
    c.validate("TraceSections", [x.trace(o) for x, o in zip(cases, outs)],
               cost=lambda tr: sum(5 + 2 * len(e.get("lines", [])) + 4 * len(e.get("calls", [])) for e in tr),
               rerun=lambda ks: [cases[k].trace(o) for k, o in zip(ks, c.drive("sections", [cases[k].calls() for k in ks]))])
