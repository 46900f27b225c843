"""C22 (text helpers)."""
from vlib import enc

FIELDS = {"one": ["dir", "last", "words", "lt", "rt", "tr", "tr2", "alpha"],
          "number": ["fn", "cb", "ln", "ce"],
          "search": ["af", "al", "ali", "bf", "bl", "bli", "found"]}


def word(codes):
    return enc(bytes(codes))


class Case(list):
    """A list of events without their results."""

    def calls(self):
        return [[e["op"], word(e["s"])] + ([str(e["n"])] if e["op"] == "number" else
                                           [word(e["o"])] if e["op"] == "search" else [])
                for e in self]

    def trace(self, outcomes):
        tr = []
        for e, o in zip(self, outcomes):
            d = dict(e)
            d["out"] = o["k"]
            for f in FIELDS[e["op"]]:
                d[f] = o.get(f, [])
            tr.append(d)
        if len(outcomes) > len(self):
            tr[-1]["out"] = outcomes[-1]["k"] + " at the end"
        return tr


def rand_string(rng, n=None):
    kind = rng.random()
    if n is None:
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, rng.randint(0, 60)])
    if kind < 0.25:
        alpha = b"ab /\t."
    elif kind < 0.4:
        alpha = b"/. ab\\"
    elif kind < 0.55:
        alpha = bytes(range(65, 91)) + bytes(range(97, 123)) + b"@[`{09 _"
    elif kind < 0.7:
        alpha = bytes([9, 10, 11, 12, 13, 32]) + b"xY-"
    elif kind < 0.9:
        alpha = bytes(range(32, 127))
    else:
        alpha = bytes(range(1, 128))
    s = [rng.choice(alpha) for _ in range(n)]
    if kind < 0.6 and n > 3 and rng.random() < 0.4:      # letters only
        s = [c for c in s if chr(c).isalpha()]
    if rng.random() < 0.2:
        s = [rng.choice(b" \t\n") for _ in range(rng.randint(0, 3))] + s + \
            [rng.choice(b" \r\n") for _ in range(rng.randint(0, 3))]
    return s


def events(rng, s, occs, numbers):
    ev = [{"op": "one", "s": s}]
    ev += [{"op": "number", "s": s, "n": n} for n in numbers]
    ev += [{"op": "search", "s": s, "o": o} for o in occs]
    return ev


def check_C22(c):
    c.build(["chars"])
    rng = c.rng
    by = {}
    for b in c.emitted("MCChars", c.pick("MCChars.cfg", "MCChars_thorough.cfg"), min_states=5000):
        by.setdefault(tuple(b["s"]), []).append(b["o"])
    cases, cur = [], Case()

    def add(ev):
        nonlocal cur
        cur += ev
        if len(cur) >= 40:
            cases.append(cur)
            cur = Case()
    for s in sorted(by):
        add(events(rng, list(s), sorted(by[s]), range(len(s) + 1)))
    small = len(by)
    big = c.pick(2000, 20000)

    def random(i):
        s = rand_string(rng, c.size(20, 300) if i % 60 == 7 else None)
        occs = []
        for _ in range(3):
            x = rng.random()
            if s and x < 0.7:      # a part of it, perhaps changed
                i = rng.randrange(len(s))
                o = s[i:i + rng.choice([1, 1, 2, 3, 5])]
                if x < 0.15:
                    o[-1] = rng.choice(b"ab/. ")
                elif x < 0.2:
                    o = o + o
            else:
                o = [rng.choice(b"ab/. \t") for _ in range(rng.randint(1, 3))]
            occs.append(o)
        if rng.random() < 0.15:
            occs.append(s + [rng.choice(b"ab")])
            if s:
                occs.append(list(s))
        if s and rng.random() < 0.3:      # overlapping occurrences
            o = occs[0]
            s = s + o + o + o[:1] + o
        return Case(events(rng, s, occs, sorted({0, len(s), rng.randint(0, len(s))})))
    for x in c.guided("chars", random, Case.calls, big, 12 * big, big // 2):
        add(x)
    if cur:
        cases.append(cur)
    c.notes.append("%d strings enumerated by TLC with all texts looked for, %d random strings" % (small, big))
    run = lambda cs: c.drive("chars", [x.calls() for x in cs])
    out = run(cases)
    traces = [x.trace(o) for x, o in zip(cases, out)]
    c.validate("TraceChars", traces, cost=lambda t: sum(20 + len(e["s"]) for e in t),
               rerun=lambda ks: [cases[k].trace(o) for k, o in zip(ks, run([cases[k] for k in ks]))])
