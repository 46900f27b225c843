"""C31: messages of the log, in small programs and in calc_J, at several levels."""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import time

from c_calc import observe, random_case
from vlib import CPUS, enc, log

LEVELS = (-1, 0, 1, 2, 3)


class Statements(list):
    """A program: statements of which the driver is told and what they say."""

    def print(self, text):
        self.append((["print", text], {"op": "print", "text": text}))

    def say(self, rng, level, msgs, form=None, words=None):
        self.append(([form, str(level)] + words, {"op": "say", "level": level, "msgs": msgs}))

    def branch(self, cond, level, text, other):
        self.append((["branch", "1" if cond else "0", str(level), text, other],
                     {"op": "branch", "cond": cond, "level": level, "msgs": [[text]], "text": other}))

    def calls(self):
        return [[enc(w) for w in words] for words, _ in self]

    def trace(self, level, outcomes):
        tr = [{"op": "begin", "level": level}]
        for (_, e), o in zip(self, outcomes):
            tr.append(dict(e, out=o["k"], file=o.get("file", ""), line=o.get("line", 0), said=o.get("said", "")))
        if len(outcomes) > len(self):
            tr[-1]["out"] = outcomes[-1]["k"] + " at the end"
        return tr


FORMS = ("none", "lit", "s", "v", "ss", "plus", "sum", "i", "l", "c", "p", "is", "si", "ii", "sss", "lsl", "lili",
         "many", "end", "twice")


def form_of(rng, form, level, word, number):
    """Words for the driver and the messages a statement of this form makes."""
    a, b, c, i, j = word(), word(), word(), number(), number()
    words, msgs = {
        "none": ([], [[""]]), "lit": ([], [["a literal"]]),
        "s": ([a], [[a]]), "v": ([a], [[a]]), "p": ([a], [[a]]),
        "ss": ([a, b], [[a, b]]), "plus": ([a, b], [[a, b]]),
        "sum": ([i, j], [[i + j]]), "i": ([i], [[i]]), "l": ([i], [[i]]),
        "c": (["x" + a], [["x"]]),
        "is": ([i, b], [[i, b]]), "si": ([a, j], [[a, j]]), "ii": ([i, j], [[i, j]]),
        "sss": ([a, b, c], [[a, b, c]]), "lsl": ([a], [["<", a, ">"]]),
        "lili": ([i, j], [["i=", i, " j=", j]]),
        "end": ([a, b], [[a, "\n", b]]), "twice": ([a, b], [[a], [b]]),
        "many": (["%d%s" % (i, a), "%d%s" % (j, b), c],
                 [["%d%s" % (i, a), i, "%d%s" % (j, b), j, c, ".", "%d%s" % (i, a), "-", c]]),
    }[form]
    return [str(w) for w in words], [[str(p) for p in m] for m in msgs]


def small(rng, b):
    """The program of the model in one of the forms of its messages."""
    p = Statements()
    for s in b["prog"]:
        if s["op"] == "print":
            p.print(s["text"])
        elif s["op"] == "branch":
            p.branch(s["cond"], s["level"], s["msgs"][0][0], s["text"])
        elif len(s["msgs"]) == 1:
            a = s["msgs"][0][0]
            p.say(rng, s["level"], [[a]], rng.choice(["s", "v", "p", "c"]), [a])
        else:
            a, b2 = "".join(s["msgs"][0]), s["msgs"][1][0]
            p.say(rng, s["level"], [[a], [b2]], "twice", [a, b2])
    return p


def program(rng, numbers):
    def word():
        n = rng.choice([0, 1, 1, 2, 4, 8, rng.randint(0, 60), rng.randint(0, 300)])
        return "".join(rng.choice("ab: .%/\\\"\t{}<>#0123456789zZ") for _ in range(n)).lstrip("0123456789 \t")

    def number():
        return rng.choice([0, 1, -1, 7, 10, -10, rng.randint(-9, 9), rng.randint(-10 ** 9, 10 ** 9), rng.choice(numbers) % 10 ** 9])
    p = Statements()
    for _ in range(rng.choice([1, 3, 6, 20])):
        x = rng.random()
        level = rng.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, -1, 10, 100])
        if x < 0.15:
            p.print(word() + rng.choice(["", "\n"]))
        elif x < 0.3:
            p.branch(rng.random() < 0.5, level, word(), word())
        else:
            form = rng.choice(FORMS)
            words, msgs = form_of(rng, form, level, word, number)
            p.say(rng, level, msgs, form, words)
    return p


# -- calc_J -------------------------------------------------------------------------
def pieces(out, src, here):
    """An output as lines, and messages wherever they begin."""
    res, p = [], 0
    for m in re.finditer(re.escape(src) + r"[^\n:]*:\d+: [^\n]*\n", out):
        res += [{"msg": False, "text": t} for t in out[p:m.start()].splitlines(True)]
        res.append({"msg": True, "text": m.group().replace(src, "@SRC@")})
        p = m.end()
    res += [{"msg": False, "text": t} for t in out[p:].splitlines(True)]
    return [{"msg": x["msg"], "text": x["text"].replace(here, "@HERE@")} for x in res]


def at_levels(c, cases, levels, timeout=30):
    """The command lines of each case with all the programs."""
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:alloc_dealloc_mismatch=0:max_malloc_fill_size=100000000:" \
                          "malloc_fill_byte=165:hard_rss_limit_mb=3000:handle_abort=0:disable_coredump=1:symbolize=0"
    env["LC_ALL"] = "C"
    src = c.path("src")

    def one(k):
        case = cases[k]
        top = c.path("run_%d" % k)
        here = os.path.join(top, "up", "here")
        os.makedirs(here)
        for d in case.dirs:
            os.makedirs(os.path.join(here, d), exist_ok=True)
        for path, _, _, _, _, text in case.files:
            with open(os.path.join(here, path), "w", newline="") as w:
                w.write(text)
        tr = [{"op": "begin", "level": 0}]
        for args in case.lines:
            runs = []
            for level in levels:
                exe = c.exes["calc_J_%d" % level]
                words = [a.replace("@HERE@", here) for a in args]
                try:
                    p = subprocess.run([exe] + words, cwd=here, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                       stdin=subprocess.DEVNULL, timeout=timeout)
                    out, err = p.stdout.decode("latin-1"), p.stderr.decode("latin-1")
                    kind = observe(p.returncode, "", err, here)["out"]
                    err = err.replace(exe, "calc_J").replace(here, "@HERE@")
                    if kind == "memory":
                        err = ""
                except subprocess.TimeoutExpired:
                    out, kind, err = "", "timeout", ""
                runs.append({"level": level, "out": pieces(out.replace(exe, "calc_J"), src, here), "end": kind + " " + err,
                             "whole": kind in ("ok", "exit")})
            tr.append({"op": "runs", "args": args, "runs": runs})
        shutil.rmtree(top, ignore_errors=True)
        return tr
    with cf.ThreadPoolExecutor(CPUS) as ex:
        return list(ex.map(one, range(len(cases))))


def check_C31(c):
    rng = c.rng
    levels = c.pick((0, 1, 2, 3), (0, 1, 2, 3, 4))
    names = {}
    for n in sorted(set(LEVELS) | set(levels)):
        names[n] = c.build(["log"], tool=n in levels, define=["LOG_LEVEL=%d" % n], suffix="_%d" % n)
    got = c.emitted("MCMessages", c.pick("MCMessages.cfg", "MCMessages_thorough.cfg"), min_states=1400)
    got.sort(key=str)
    progs = [small(rng, b) for b in got]
    numbers = c.literals()[1]
    progs += [program(rng, numbers) for _ in range(c.pick(1500, 15000))]
    c.notes.append("%d programs enumerated by TLC, %d random ones, with %d levels" % (len(got), len(progs) - len(got), len(names)))
    for n in names:
        run = lambda ps: c.drive("log_%d" % n, [p.calls() for p in ps])
        out = run(progs)
        c.validate("TraceMessages", [p.trace(n, o) for p, o in zip(progs, out)], cost=lambda t: 3 * len(t),
                   rerun=lambda ks: [progs[k].trace(n, o) for k, o in zip(ks, run([progs[k] for k in ks]))])
    cases = [random_case(rng, (rng.choice([4, 5, 5, 6]), "moved") if i % 6 == 5 else None) for i in range(c.pick(160, 2000))]
    t = time.time()
    traces = at_levels(c, cases, levels)
    for tr in traces:
        for e in tr[1:]:
            k = e["runs"][-1]["end"].split()[0]
            c.kinds["calc_J " + k] = c.kinds.get("calc_J " + k, 0) + 1
    c.notes.append("%d command lines with calc_J at levels %s; %d messages at the highest" % (
        sum(len(x.lines) for x in cases), " ".join(map(str, levels)),
        sum(p["msg"] for tr in traces for e in tr[1:] for p in e["runs"][-1]["out"])))
    log("ran %s, %.1f s" % (c.notes[-1], time.time() - t))
    c.validate("TraceMessages", traces, cost=lambda tr: sum(len(r["out"]) + 5 for e in tr[1:] for r in e["runs"]),
               shards=CPUS, rerun=lambda ks: at_levels(c, [cases[k] for k in ks[-1:]], levels),
               describe=lambda i: {"lines": cases[i].lines, "files": {p: t for p, _, _, _, _, t in cases[i].files}})
