"""C32 (objects that are used alternately, or by several threads)."""
import c_args
import c_files
import c_matrix
import c_qc
import c_text
from vlib import Broken


class Histories:
    """Edits of matrices, their results and their texts."""
    driver, spec, cfg = "matrix", "TraceMat", "Trace.cfg"
    ways = ("one", "turns", "free")

    def __init__(self, c):
        self.c = c

    def make(self):
        rng = self.c.rng
        x = rng.random()
        if x < 0.6:
            case = c_matrix.ShownWalk(rng, rng.randint(1, 10), 4).case
            case.insert(rng.randint(3, len(case)), c_matrix.ev("readers", m=rng.randint(1, 3)))
            return "shown", case
        case = c_matrix.random_ops(rng, 4)
        case.insert(rng.randint(4, len(case)), c_matrix.op_event("readers", m=rng.randint(1, 3)))
        return "ops", case

    def calls(self, x):
        return [(c_matrix.words if x[0] == "shown" else c_matrix.opwords)(e) for e in x[1]]

    def trace(self, x, outs):
        return (c_matrix.shown_trace if x[0] == "shown" else c_matrix.ops_trace)(x[1], outs)

    def cost(self, tr):
        return len(tr)


class Texts:
    driver, spec, cfg = "chars", "TraceChars", "Trace.cfg"
    ways = ("one", "turns", "free")

    def __init__(self, c):
        self.c = c

    def make(self):
        rng = self.c.rng
        case = c_text.Case()
        for _ in range(rng.randint(2, 4)):
            s = c_text.rand_string(rng)
            k = rng.randrange(len(s)) if s else 0
            occs = [s[k:k + rng.choice([1, 2, 3])] or [47], [rng.choice(b"ab/. ")]]
            case += c_text.events(rng, s, occs, [rng.randint(0, len(s))])
        rng.shuffle(case)
        return case

    def calls(self, x):
        return x.calls()

    def trace(self, x, outs):
        return x.trace(outs)

    def cost(self, tr):
        return sum(20 + len(e["s"]) for e in tr)


class Functions(Texts):
    """Matching, reordering and ranking; and complexes that are lined up."""
    driver, spec, cfg = "qc", "TraceQC", c_qc.CFG

    def make(self):
        rng = self.c.rng
        case = c_qc.Calls()
        for _ in range(rng.randint(2, 5)):
            x = rng.random()
            if x < 0.45:
                n = rng.randint(2, 6)
                w = [rng.choice([1, 1, 2, 3, 4]) for _ in range(n)]
                q = c_qc.one_based(c_qc.shuffled(rng, n))
                f = sum(w)
                if rng.random() < 0.5:
                    m, which = c_qc.rand_matrix(rng, rng.randint(1, 4), f, 1000), "coef"
                else:
                    m, which = c_qc.rand_matrix(rng, f, f, 1000), "overlap"
                two = rng.random() < 0.6
                k = rng.randint(0, n) if two else n
                c_qc.reorder(case, which, q[:k], q[k:], w, m, two)
            elif x < 0.6:
                d = rng.randint(0, 4)
                xs = [[c_qc.untie(rng.randint(-9000000, 9000000), d) for _ in range(3)] for _ in range(rng.randint(1, 6))]
                ys = [xs[i] for i in c_qc.shuffled(rng, len(xs))]
                c_qc.match_event(case, d, xs, ys, rng.random() < 0.5)
            elif x < 0.8:
                a = [rng.randint(-1000, 1000) for _ in range(rng.randint(1, 8))]
                b = [rng.randint(-1000, 1000) for _ in range(rng.choice([0, 1, 5]))]
                case.add(["rank"] + c_qc.w_matrix([[v] for v in a]) + c_qc.w_matrix([[v] for v in b]),
                         {"op": "rank", "alpha": a, "beta": b}, {"keys": [], "ens": [], "spins": []})
            else:
                for words in c_qc.job_words(system(rng)):
                    case.add(words, {"op": "quiet"}, {})
        return case

    def cost(self, tr):
        return c_qc.reorder_cost(tr)


def system(rng):
    cp = rng.random() < 0.4
    j = c_qc.rand_system(rng, cp, 3, 3, 9)
    n = len(j["xp"])
    q2 = c_qc.shuffled(rng, n) if cp else list(range(len(j["x2"])))
    return c_qc.scrambled(rng, j, c_qc.shuffled(rng, n), q2)


class Transfers(Texts):
    """Whole calculations; they print, so that they are not made at the same time."""
    driver, spec, cfg = "qc", "TraceQC", c_qc.CFG
    ways = ("one", "turns")

    def make(self):
        rng = self.c.rng
        case = c_qc.Jobs()
        for _ in range(rng.randint(1, 3)):
            j = system(rng) if rng.random() < 0.7 else c_qc.empty_geometry(c_qc.rand_system(rng, rng.random() < 0.4, 3, 3, 9))
            asked = [(j["t1"], j["k1"], j["t2"], j["k2"])]
            for _ in range(rng.randint(0, 2)):
                asked.append(c_qc.pick_orbital(rng, j["n1"], j["h1"]) + c_qc.pick_orbital(rng, j["n2"], j["h2"]))
            case.add(j, asked=asked)
        return case

    def cost(self, tr):
        return c_qc.weight(tr)


class Logs(Texts):
    driver, spec, cfg = "files", "TraceLog", "Trace.cfg"

    def make(self):
        rng = self.c.rng
        what = [w for w in ("en", "coord", "over", "pop") if rng.random() < 0.6] or ["en"]
        f = c_files.rand_log(self.c, what, True)
        if rng.random() < 0.3:
            f.cuts = sorted({rng.choice(f.start), f.start[-1]})
        return f

    def cost(self, tr):
        return 4 * len(tr) + sum(10 * len(e.get("ov") or []) for e in tr)


class Puns(Logs):
    driver, spec, cfg = "files", "TracePun", "Trace.cfg"

    def make(self):
        return c_files.rand_pun(self.c, True)


class Settings(Texts):
    """The parameters of a run."""
    driver, spec, cfg = "args", "TraceParams", "Trace.cfg"

    def make(self):
        new = [{"op": "pnew", "m": 1 + k, "n": 1, "f": "", "w": ""} for k in (1, 0)]
        return c_args.Case(new + c_args.random_params(self.c.rng, self.c.rng.randint(1, 12)))

    def cost(self, tr):
        return 10 + len(tr)


def without_files(case):
    return c_args.Case(e for e in case if e["op"] not in ("dir", "file", "unlink", "post", "rpost", "apost"))


class Rules(Settings):
    spec = "TraceRules"

    def make(self):
        rng = self.c.rng
        while True:
            case = (c_args.random_rule if rng.random() < 0.5 else c_args.random_arg)(rng, rng.randint(3, 9))
            if "FILE" not in case[len(c_args.FILES)].get("rule", "") + case[len(c_args.FILES)].get("arg", ""):
                return without_files(case)


class Parsers(Settings):
    """Parsers print, so that they are not used at the same time."""
    spec = "TraceParser"
    ways = ("one", "turns")

    def make(self):
        rng = self.c.rng
        if rng.random() < 0.3:
            return c_args.random_usage(rng, False)
        while True:
            case = c_args.random_parser(rng, self.known)
            if not any("FILE" in e.get("arg", "") for e in case):
                return without_files(case)

    def cost(self, tr):
        return 10 + sum(5 + sum(1 + len(x["words"]) for x in e.get("lines", [])) for e in tr)


KINDS = [Histories, Texts, Functions, Transfers, Logs, Puns, Settings, Rules, Parsers]


def spread(order, lengths):
    """An order of the calls of cases with these lengths, from one of cases with equally many calls."""
    n = order.count(order[0])
    done, res = [0] * len(lengths), []
    for k in order:
        done[k] += 1
        first, last = lengths[k] * (done[k] - 1) // n, lengths[k] * done[k] // n
        res += [k] * (last - first)
    return res


def check_C32(c):
    drivers = ["matrix", "chars", "qc", "files", "args"]
    c.build(drivers, threads=True)
    try:
        works = c.drive("chars", [[["one", "a"]]])[0][0]["k"] == "ok"
    except (Broken, LookupError):
        works = False
    if not works:
        c.notes.append("the thread sanitizer does not run here: only answers are judged")
        c.build(drivers, asan=False)
    orders = c.emitted("MCTurns", "MCTurns.cfg", min_states=3000)
    orders += c.emitted("MCTurns", c.pick("MCTurns_three.cfg", "MCTurns_thorough.cfg"), min_states=5000)
    orders.sort(key=str)
    if min(sum(b["one"] for b in orders), sum(b["first"] for b in orders)) * 2 < len(orders):
        raise Broken("few orders would show that objects share something")
    c.rng.shuffle(orders)
    Parsers.known = c_args.known_words(c)
    total = 0
    for Kind in KINDS:
        kind = Kind(c)
        ways = {w: c.pick(220, 3000) if w == "free" else c.pick(100, 1200) for w in kind.ways}
        # Cases that do not end the process by refusing something.
        want = sum(3 * n for n in ways.values())
        cases = [kind.make() for _ in range(want * 3 // 2)]
        alone = c.drive(kind.driver, [kind.calls(x) for x in cases])
        cases = [x for x, o in zip(cases, alone) if kind.calls(x) and
                 not any(r["k"] in ("exit", "exit0") and r.get("code") != 66 for r in o)]
        c.rng.shuffle(cases)
        groups, used = [], 0
        for way in sorted(ways):
            for i in range(ways[way]):
                if way == "free":
                    n, how = c.rng.choice([2, 2, 3]), "free"
                else:
                    b = orders[(total + i) % len(orders)]["order"]
                    n = max(b)
                if used + n > len(cases):
                    break
                members = list(range(used, used + n))
                used += n
                if way != "free":
                    o = spread([k - 1 for k in b], [len(kind.calls(cases[k])) for k in members])
                    how = " ".join([way] + [str(k) for k in o])
                groups.append((how, members))
            total += ways[way]
        cases = cases[:used]
        of = {k: g for g in groups for k in g[1]}

        def run(groups):
            res = {}
            out = c.drive(kind.driver, [kind.calls(x) for x in cases], groups=groups)
            for _, members in groups:
                for k in members:
                    res[k] = kind.trace(cases[k], out[k])
            return res

        def again(ks):
            # What threads do at the same time may differ from time to time.
            k = ks[-1]
            alike = lambda tr: str([e.get("out") for e in tr])
            res = [run([of[k]])[k] for _ in range(8 if of[k][0] == "free" else 1)]
            odd = [tr for tr in res if tr != traces_alone(k)]
            return [None] * (len(ks) - 1) + [(odd or res)[0]]

        def traces_alone(k):
            return kind.trace(cases[k], c.drive(kind.driver, [kind.calls(cases[k])])[0])
        got = run(groups)
        c.validate(kind.spec, [got[k] for k in range(len(cases))], cfg=kind.cfg, cost=kind.cost, rerun=again,
                   describe=lambda i: of[i][0])
        c.notes.append("%s: %d cases in %d groups" % (Kind.__name__, len(cases), len(groups)))
