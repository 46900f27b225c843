"""C07: whole runs of calc_J on files of known contents; C30: several at a time."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import threading
import time

from c_args import SHORT, flat, mixed, names_of_files, naming, good_segs, seg, twisted
from c_files import ELEMENTS, LABELS, LogText, PunText, dec
from c_qc import PLAIN, noisy, places, rand_matrix, rand_overlap, report, smax, take, tiny, block_columns, shuffled
from vlib import CPUS, Broken, log

SPINS = ("Alpha", "Beta")


def fortran(v, decimals, digits):
    """v * 10^-decimals as Fortran's D format with that many digits."""
    s = str(abs(v)) if v else ""
    while len(s) > digits and s.endswith("0"):
        s, v, decimals = s[:-1], v // 10, decimals - 1
    assert len(s) <= digits, (v, digits)
    x = len(s) - decimals if v else 0
    return "%s0.%sD%s%02d" % ("-" if v < 0 else "", s.ljust(digits, "0"), "-" if x < 0 else "+", abs(x))


class SysLog(LogText):
    """A log file with given values (integers in the given units)."""
    u = PLAIN

    def levels(self, spin, occ, virt):
        for o, vals in ((True, occ), (False, virt)):
            for i in range(0, len(vals), 5):
                part = vals[i:i + 5]
                head = (" Alpha " if spin == "Alpha" else "  Beta ") + (" occ." if o else "virt.") + " eigenvalues -- "
                self.put({"k": "en", "spin": spin, "occ": o, "vals": part},
                         head + "".join("%10s" % dec(v * 10 ** (5 - self.u["e"]), 5) for v in part))

    def geometry(self, rows):
        self.coord_head()
        self.put({"k": "csub"}, " Number     Number       Type             X           Y           Z")
        self.put({"k": "rule"}, "-" * 70)
        for i, r in enumerate(rows):
            self.put({"k": "crow", "xyz": list(r)}, "%7d%11d%12d    %s" % (
                i + 1, self.rng.choice([0, 1, 6, self.rng.randint(1, 118)]), self.rng.choice([0, 0, 1000]), "".join("%12s" % dec(v, 6) for v in r)))
        self.put({"k": "rule"}, " " + "-" * 69)

    def matrix(self, s):
        n = len(s)
        self.put({"k": "ohead"}, " *** Overlap *** ")
        for col in range(1, n + 1, 5):
            self.overlap_cols(col, n)
            for r in range(col, n + 1):
                vals = s[r - 1][col - 1:min(r, col + 4)]
                self.put({"k": "orow", "r": r, "vals": vals},
                         "%7d" % r + "".join("%14s" % fortran(v, self.u["s"], 6) for v in vals))
        self.text(" *** Kinetic Energy ***")


class SysPun(PunText):
    u = PLAIN

    def rows(self, spin, rows):
        for i, r in enumerate(rows):
            self.orbital(i + 1, spin)
            for k in range(0, len(r), 5):
                self.put({"k": "coef", "vals": r[k:k + 5]},
                         "".join("%15s" % fortran(v, self.u["c"], 8) for v in r[k:k + 5]))


# -- systems -----------------------------------------------------------------------
def energies(rng, n):
    low = -1999999 if rng.random() < 0.2 else -99999
    high = 9999999 if rng.random() < 0.15 else 40000
    return sorted(rng.sample(range(low, high), n))


class System:
    """Two monomers and the dimer they make; files 0, 1, 2 are P, 1, 2."""

    def __init__(self, rng, cp, na=None, nb=None, q=None, q2=None, beta=(0, 1, 2), most=12):
        self.rng, self.cp, self.beta, self.most = rng, cp, set(beta), most
        self.noisy = noisy if rng.random() < 0.6 else lambda rng, p: list(p)
        while True:
            a = na or rng.randint(1, 4)
            b = nb or rng.randint(1, 4)
            w = [rng.choice([1, 1, 2, 3, 4, 5]) for _ in range(a + b)]
            if 2 <= sum(w) <= most:
                break
        self.n, self.na, self.w = a + b, a, w
        self.f, self.fa = sum(w), sum(w[:a])
        self.x = places(rng, self.n)
        self.s = rand_overlap(rng, self.f, smax(self.f))
        c1, c2 = (self.f, self.f) if cp else (self.fa, self.f - self.fa)
        widths = (self.f, c1, c2)
        self.coefs, self.levels = {}, {}
        for i in range(3):
            r = max(2, widths[i] - rng.choice([0, 0, 0, 1]))
            for s in SPINS:
                self.coefs[i, s] = rand_matrix(rng, r, widths[i], 99)
                h = rng.randint(0 if s == "Beta" else 1, r)
                self.levels[i, s] = (energies(rng, r), h)
        self.u = PLAIN
        if self.f <= 9 and rng.random() < 0.3:
            self.refine()
        self.q = q if q is not None else shuffled(rng, self.n)
        self.q2 = q2 if q2 is not None else shuffled(rng, self.n)

    def refine(self):
        """The numbers have as many digits as their fields."""
        rng = self.rng
        self.u = {"c": rng.choice([6, 8, 8]), "s": rng.choice([6, 6, 7]), "e": 5}
        small = rng.choice(["", "", "", "c", "s", "e"])
        d = self.u["c"] - (3 if small == "c" else 0)
        for k, m in self.coefs.items():
            self.coefs[k] = [[tiny(rng, d) for _ in r] for r in m]
        for a in range(self.f):
            for b in range(a):
                self.s[a][b] = self.s[b][a] = tiny(rng, 3 if small == "s" else 6)
            self.s[a][a] = 10 ** self.u["s"]
        lim = 900 if small == "e" else 999999
        for k, (e, h) in self.levels.items():
            self.levels[k] = (sorted(rng.sample(range(-lim, lim), len(e))), h)

    def another(self):
        """Other numbers for the same molecules."""
        rng = self.rng
        o = System.__new__(System)
        o.__dict__.update(self.__dict__)
        o.coefs, o.levels = {}, {}
        o.s = rand_overlap(rng, self.f, smax(self.f))
        for k, m in self.coefs.items():
            o.coefs[k] = rand_matrix(rng, len(m), len(m[0]), 99)
            o.levels[k] = (energies(rng, len(m)), rng.randint(0 if k[1] == "Beta" else 1, len(m)))
        o.u = PLAIN
        return o

    def order(self, i):
        if i == 0:
            return self.q
        if not self.cp:
            return list(range(self.na)) if i == 1 else list(range(self.na, self.n))
        return list(range(self.n)) if i == 1 else self.q2

    def pun(self, i, fault=None, other=False):
        rng = self.rng
        o = self.order(i)
        moved = i == 0 or self.cp
        n = None
        t = SysPun(rng, 0)
        t.u = self.u
        if rng.random() < 0.9:
            t.text(True)
        spins = [s for s in SPINS if s == "Alpha" or (i in self.beta and fault != "nobeta")]
        if fault == "nocoefs":
            spins = []
            t.text()
        for s in spins:
            m = self.coefs[i, s]
            if other:
                m = [[(v * 7 + 13) % 100 for v in r] for r in m]
            if moved:
                m = take(m, block_columns(self.w, o))
            if fault == "extra":
                m = [r + [rng.randint(-99, 99)] for r in m]
            t.rows(s, m)
            n = len(m[0])
        if rng.random() < 0.3:
            t.text()
        return t.lines, n or 0

    def log(self, i, fault=None, pop=True):
        rng = self.rng
        o = self.order(i)
        t = SysLog(rng)
        t.u = self.u
        parts = []
        if fault != "nocoords":
            parts.append("coord")
        if fault != "nolevels":
            parts.append("en")
        if fault != "noover" and (i == 0 or rng.random() < 0.4):
            parts.append("over")
        if pop:
            parts.append("pop")
        rng.shuffle(parts)
        t.noise(rng.randint(0, 3))
        # earlier tables of a longer calculation
        for p in list(parts):
            if p in ("coord", "en") and rng.random() < 0.3:
                parts.insert(rng.randrange(parts.index(p) + 1), p + "0")
        for p in parts:
            if p.startswith("en"):
                for s in SPINS:
                    if s == "Beta" and (i not in self.beta or fault == "nobeta"):
                        continue
                    e, h = self.levels[i, s]
                    if p == "en0":
                        e, h = energies(rng, len(e)), rng.randint(1, len(e))
                    t.levels(s, e[:h], e[h:])
                t.text(" Population analysis")
            elif p.startswith("coord"):
                rows = [self.noisy(rng, self.x[a]) for a in o]
                if p == "coord0":
                    rows = [[v + rng.choice([0, 100, -70000]) for v in r] for r in rows]
                if fault == "moved" and p == "coord":
                    if i == 1 and not self.cp and rng.random() < 0.5:
                        rows = [self.noisy(rng, self.x[a]) for a in self.q]     # all atoms of the dimer
                    which = rng.sample(range(3), rng.choice([1, 1, 2]))
                    k = rng.sample(range(len(rows)), rng.choice([1, 1, len(rows)]))
                    by = rng.choice([-200, 200, 1000, 1000000, -100000])
                    rows = [[v + by * (d in which and n in k) for d, v in enumerate(r)] for n, r in enumerate(rows)]
                t.geometry(rows)
            elif p == "over":
                if i == 0:
                    c = block_columns(self.w, o)
                    s = [[self.s[x][y] for y in c] for x in c]
                    if fault == "extra":
                        s = [r + [5] for r in s] + [[5] * len(s) + [1000]]
                else:
                    s = rand_overlap(rng, rng.randint(2, 6), 500)
                t.matrix(s)
            else:
                atoms = []
                for k, a in enumerate(o):
                    n = self.w[a] + (fault == "extrafun" and k == 0)
                    atoms.append((rng.choice(ELEMENTS), LABELS[:n]))
                t.populations(atoms, rng.choice([1, 1, 2, 4]))
                # values of this table are not used
                for j, (a, x) in enumerate(t.lines):
                    if "pops" in a:
                        t.lines[j] = (dict(a, pops=[]), x)
            if rng.random() < 0.6:
                t.noise(rng.randint(1, 3))
        return t.lines


FAULTS = [(f, w) for f in range(1, 7) for w in ("gone", "cut")] + \
    [(f, w) for f in (1, 2, 3) for w in ("nobeta", "nocoefs", "extra")] + \
    [(f, w) for f in (4, 5, 6) for w in ("nobeta", "nolevels", "nocoords", "noover", "moved", "extrafun")] + [(4, "extra")]


class Run:
    """A case: files and the command lines run on them."""

    def __init__(self, dirs=()):
        self.dirs = list(dirs)
        self.u = PLAIN
        self.files = []        # (path, kind, lines, cut, n, text)
        self.lines = []

    def add(self, rng, path, kind, lines, n=0, cut=False):
        text = "".join(t + "\n" for _, t in lines)
        c = []
        if cut:
            # within a table, mostly
            start, p = [], 0
            for _, t in lines:
                start.append(p)
                p += len(t) + 1
            inner = [k for k, (a, _) in enumerate(lines) if a["k"] in ("csub", "rule", "crow", "orow", "ocols", "pcols",
                                                                        "patom", "pnext", "coef")]
            k = rng.choice(inner) if inner and rng.random() < 0.9 else rng.randrange(len(lines))
            x = rng.randint(0, len(lines[k][1]))
            text = text[:start[k] + x]
            if x:
                c = [{"line": lines[k][0], "part": "data" if x == len(lines[k][1]) else "some"}]
            lines = lines[:k]
        self.files.append((path, kind, [a for a, _ in lines], c, n, text))

    def system(self, rng, sysm, pairs, fault=(0, ""), nopop=(), decoys=False):
        self.u = sysm.u
        for i, role in enumerate("P12"):
            pun, log = pairs[role]
            f = fault[1] if fault[0] == i + 1 else None
            if f != "gone":
                lines, n = sysm.pun(i, f)
                self.add(rng, pun, "pun", lines, n, f == "cut")
            f = fault[1] if fault[0] == i + 4 else None
            if f != "gone":
                self.add(rng, log, "log", sysm.log(i, f, i not in nopop), 0, f == "cut")
            if decoys and rng.random() < 0.4:
                core, ext = pun.rsplit(".", 1)
                p = core + "." + rng.choice([e for e in ("pun", "7", "orb") if e != ext])
                if p not in [x[0] for x in self.files]:
                    lines, n = sysm.pun(i, None, True)
                    self.add(rng, p, "pun", lines, n)
        return self

    def trace(self, outcomes):
        tr = [{"op": "begin"}] + [{"op": "dir", "path": d} for d in self.dirs]
        for path, kind, lines, cut, n, _ in self.files:
            tr.append({"op": "file", "path": path, "kind": kind, "lines": lines, "cut": cut, "n": n, "mark": ""})
        for args, o in zip(self.lines, outcomes):
            tr.append(dict({"op": "run", "args": args, "u": self.u}, **o))
        return tr


NAMES = [("pun", "the dimer"), ("pun", "the first monomer"), ("pun", "the second monomer"),
         ("log", "dimer"), ("log", "first monomer"), ("log", "second monomer")]


def observe(rc, out, err, here):
    """What a run shows."""
    if rc is None:
        kind = "timeout"
    elif "AddressSanitizer" in err:
        kind = "memory"
    elif rc == 0:
        kind = "ok"
    elif rc > 0:
        kind = "exit"
    elif rc == -6 and "terminate called" in err:
        kind = "throw"
    else:
        kind = "signal %d" % -rc
    out = out.replace(here, "@HERE@")
    first = lambda pat: next(iter(re.findall(pat, out, re.M)), "")
    files = [first(r"^%s file for %s is: +(.*)$" % nm) for nm in NAMES]
    spins = [first(r"^Dimer +Spin (\S+)"), first(r"^Monomer 1 Spin (\S+)"), first(r"^Monomer 2 Spin (\S+)")]
    types, nums = [], []
    for r in "12":
        m = re.search(r"^Monomer %s Spin \S+ Orbital ([A-Za-z]+)(\S*)" % r, out, re.M)
        types.append(m.group(1) if m else "")
        nums.append((m.group(2).lstrip("+") or "0") if m else "")
    r = report(None, out) if kind == "ok" else None
    return {"out": kind, "jeff": "J_eff" in out, "warned": "warning" in (out + err).lower(), "fin": r is not None,
            "r": r or {}, "files": files, "spins": spins, "types": types, "nums": nums}


def execute(c, cases, timeout=30, coverage=False):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:alloc_dealloc_mismatch=0:max_malloc_fill_size=100000000:" \
                          "malloc_fill_byte=165:hard_rss_limit_mb=3000:handle_abort=0:disable_coredump=1:symbolize=0"
    env["LC_ALL"] = "C"
    exe = c.exes["calc_J"]
    local = threading.local()
    maps = []

    def one(k):
        case = cases[k]
        top = c.path("run_%d" % k)
        here = os.path.join(top, "up", "here")
        os.makedirs(here)
        for d in case.dirs:
            os.makedirs(os.path.join(here, d), exist_ok=True)
        for path, _, _, _, _, text in case.files:
            with open(os.path.join(here, path), "w", newline="") as w:
                w.write(text)
        res = []
        e = env
        if coverage:
            if not hasattr(local, "map"):
                local.map = c.path("cov_%d" % len(maps))
                maps.append(local.map)
            e = dict(env, VERIF_COV_MAP=local.map, VERIF_COV_CASE=str(k))
        for args in case.lines:
            words = [a.replace("@HERE@", here) for a in args]
            try:
                p = subprocess.run([exe] + words, cwd=here, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   stdin=subprocess.DEVNULL, timeout=timeout)
                o = observe(p.returncode, p.stdout[:8000000].decode("latin-1"), p.stderr[:100000].decode("latin-1"), here)
            except subprocess.TimeoutExpired:
                o = observe(None, "", "", here)
            res.append(o)
        shutil.rmtree(top, ignore_errors=True)
        return res
    with cf.ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(one, range(len(cases))))
    if coverage:
        rare = [[] for _ in cases]
        for m in maps:
            subprocess.run([exe, "-h"], env=dict(env, VERIF_COV_MAP=m, VERIF_COV_CASE="-1"), cwd=c.tmp,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
            for line in open(m + ".out"):
                d = json.loads(line)
                rare[d["c"]] += d["f"]
            os.remove(m)
            os.remove(m + ".out")
        return rare
    for rs in res:
        for o in rs:
            k = o["out"] + (" with J_eff" if o["jeff"] else "")
            c.kinds[k] = c.kinds.get(k, 0) + 1
    return res


def run_cases(c, cases):
    t = time.time()
    out = execute(c, cases)
    log("ran %d command lines on %d sets of files, %.1f s" % (sum(len(x.lines) for x in cases), len(cases), time.time() - t))
    traces = [x.trace(o) for x, o in zip(cases, out)]

    def cost(tr):
        return sum((40 if e["u"] is PLAIN else 400) if e["op"] == "run" else 2 + len(e.get("lines", ())) for e in tr)
    c.validate("TraceCalc", traces, cost=cost, shards=max(1, min(CPUS, len(traces) // 10)),
               rerun=lambda ks: [cases[k].trace(execute(c, [cases[k]])[0]) for k in ks[-1:]],
               describe=lambda i: {"lines": cases[i].lines, "files": {p: t for p, _, _, _, _, t in cases[i].files}})


# -- command lines ------------------------------------------------------------------
def asking(rng, cp, spins, asked):
    """Options for a calculation; what is default may be left out."""
    segs = []
    for r, s in zip("P12", spins):
        if s != "Alpha" or rng.random() < 0.3:
            segs.append(seg(rng, "--spin_" + r, s))
    for r, (t, k) in zip("12", asked):
        if t != "HOMO" or rng.random() < 0.3:
            segs.append(seg(rng, "--orbital_type_" + r, t))
        if k != 0 or rng.random() < 0.2:
            segs.append(seg(rng, "--orbital_num_" + r, str(k)))
    if cp:
        segs.append(seg(rng, "--counter_poise", rng.choice(["ON", "TRUE", "1", None])))
    elif rng.random() < 0.2:
        segs.append(seg(rng, "--counter_poise", rng.choice(["OFF", "FALSE", "0"])))
    return segs


def decoys(rng, segs):
    """The same options given before with other values."""
    pre = []
    for s in segs:
        if rng.random() < 0.3 and len(s) == 2:
            o = next((k for k, v in SHORT.items() if v == s[0]), s[0])
            v = {"--spin": ["Alpha", "Beta"], "--orbital_type": ["HOMO", "LUMO"], "--orbital_num": ["0", "3", "-2"],
                 "--counter": ["ON", "OFF", "0", "1"]}
            for k in v:
                if o.startswith(k):
                    pre.append(seg(rng, o, rng.choice(v[k])))
    rng.shuffle(pre)
    return pre + segs


def pick(rng, levels, wild=0.04):
    e, h = levels
    if rng.random() < wild:
        return rng.choice([("HOMO", -h), ("LUMO", len(e) - h), ("HOMO", -2147483648), ("LUMO", 2147483647), ("HOMO", 1),
                           ("LUMO", -1), ("HOMO", -99), ("LUMO", 500)])
    r = rng.randint(1, len(e))
    return ("HOMO", r - h) if r <= h else ("LUMO", r - h - 1)


def file_names(rng, blanks):
    """Names that do not begin with a blank, which could not be told from the padding of the report."""
    while True:
        pairs, _, dirs = names_of_files(rng, blanks)
        if not any(f.startswith(" ") or "/ " in f for p in pairs.values() for f in p):
            return pairs, dirs


def config_case(rng, b):
    """A configuration of MCCalc with random contents."""
    cp = b["cp"]
    q = [a - 1 for a in b["q"]]
    sysm = System(rng, cp, 2, 1, q, q[::-1] if cp else None, [i - 1 for i in b["beta"]])
    while len(sysm.coefs[1, "Alpha"]) < 2:
        sysm = System(rng, cp, 2, 1, q, q[::-1] if cp else None, [i - 1 for i in b["beta"]])
    asked = []
    for i, (t, k) in ((1, b["a1"]), (2, b["a2"])):
        # put the level where the orbital exists as it does in the model
        for s, h in (("Alpha", 2), ("Beta", 1)):
            e, _ = sysm.levels[i, s]
            h = min(h, len(e))
            sysm.levels[i, s] = (e, h)
        asked.append((t, k))
    pairs, dirs = file_names(rng, False)
    case = Run(dirs).system(rng, sysm, pairs, tuple(b["fault"]), [i - 1 for i in b["nopop"]])
    case.lines.append(flat(mixed(rng, naming(rng, pairs), asking(rng, cp, b["spin"], asked))))
    return case


def random_case(rng, fault=None):
    cp = rng.random() < (0.2 if fault else 0.4)
    x = rng.random()
    beta = (0, 1, 2) if x < 0.6 else () if x < 0.8 else [i for i in range(3) if rng.random() < 0.6]
    sysm = System(rng, cp, beta=beta, most=rng.choice([6, 9, 12, 12, 24]))
    nopop = () if rng.random() < 0.8 or fault else [i for i in range(3) if rng.random() < 0.6]
    if rng.random() < 0.1:
        sysm.q = list(range(sysm.n))
        sysm.q2 = list(range(sysm.n))
    fault = fault or (rng.choice(FAULTS) if rng.random() < 0.2 else (0, ""))
    pairs, dirs = file_names(rng, rng.random() < 0.2)
    case = Run(dirs).system(rng, sysm, pairs, fault, nopop, rng.random() < 0.4)
    for _ in range(rng.choice([1, 3, 6])):
        spins = [rng.choice(SPINS if i in sysm.beta or rng.random() < 0.1 else ("Alpha",)) for i in range(3)]
        asked = [pick(rng, sysm.levels[i, spins[i]]) for i in (1, 2)]
        segs = asking(rng, cp if rng.random() < 0.97 else not cp, spins, asked)
        if rng.random() < 0.3:
            segs = decoys(rng, segs)
        names = dict(pairs)
        y = rng.random()
        if y < 0.06:                 # the monomers exchanged
            names["1"], names["2"] = names["2"], names["1"]
        elif y < 0.09:               # the same files twice
            names["2"] = names["1"]
        elif y < 0.12:
            r, s = rng.sample("P12", 2)
            names[r] = (names[r][0], names[s][1])
        names = {r: tuple(twisted(rng, f, dirs) for f in p) for r, p in names.items()}
        words = mixed(rng, naming(rng, names), segs)
        if rng.random() < 0.08:
            words.insert(rng.randrange(len(words) + 1), [rng.choice(["--help", "-h", "--citation", "-cite"])])
        if rng.random() < 0.02:
            words.insert(rng.randrange(len(words) + 1), [rng.choice(["--version", "-v", "x", "--spin_1"])])
        case.lines.append(flat(words))
    return case


# -- several runs among files that change (C30) ----------------------------------------
def mark(data):
    return hashlib.sha1(data).hexdigest()


class Visit:
    """A case: directories and steps (put file), (drop path), (start slot words), (end slot), (look)."""

    def __init__(self, dirs, guest=False):
        self.dirs = list(dirs) + ["../../home", "../../tmp"]
        self.guest = guest       # run by a user who may not write there
        self.steps = []

    def add(self, *step):
        self.steps.append(step)

    def trace(self, outcomes):
        tr = [{"op": "begin"}] + [{"op": "dir", "path": d} for d in self.dirs]
        args = {}
        for s, o in zip(self.steps, outcomes):
            if s[0] == "put":
                path, kind, lines, cut, n, text = s[1]
                tr.append({"op": "file", "path": path, "kind": kind, "lines": lines, "cut": cut, "n": n,
                           "mark": mark(text.encode())})
            elif s[0] == "drop":
                tr.append({"op": "remove", "path": s[1]})
            elif s[0] == "start":
                args[s[1]] = s[2]
                tr.append({"op": "start", "slot": s[1], "args": s[2]})
            elif s[0] == "end":
                tr.append(dict({"op": "end", "slot": s[1], "args": args[s[1]], "u": PLAIN}, **o))
            else:
                tr.append(dict({"op": "look"}, **o))
        return tr

    def words(self):
        return [s if s[0] != "put" else ["put", s[1][0], s[1][5]] for s in self.steps]


def tree(top):
    """What is in a directory."""
    dirs, files = [], []
    for d, _, fs in os.walk(top):
        at = [] if d == top else os.path.relpath(d, top).split(os.sep)
        dirs.append(at)
        for f in fs:
            with open(os.path.join(d, f), "rb") as r:
                files.append({"at": at + [f], "mark": mark(r.read())})
    return {"dirs": dirs, "files": files}


NOBODY = {"user": 65534, "group": 65534, "extra_groups": []}


def guests(c):
    """Can the program be run by another user here?"""
    os.chmod(c.tmp, 0o711)
    exe = c.exes["calc_J"]
    os.chmod(exe, 0o755)
    try:
        r = subprocess.run([exe, "--help"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           cwd=c.tmp, env={"LC_ALL": "C", "ASAN_OPTIONS": "detect_leaks=0"}, timeout=60, **NOBODY)
        return b"log_P" in r.stdout
    except (OSError, subprocess.SubprocessError):
        return False


def visit(c, cases, timeout=60):
    exe = c.exes["calc_J"]
    may = guests(c)
    if not may and "guests" not in c.kinds:
        c.kinds["guests"] = 0
        c.notes.append("no runs as another user possible here")

    def one(k):
        top = c.path("visit_%d" % k)
        here = os.path.join(top, "up", "here")
        os.makedirs(here)
        for d in cases[k].dirs:
            os.makedirs(os.path.normpath(os.path.join(here, d)), exist_ok=True)
        env = {n: v for n, v in os.environ.items() if n in ("PATH", "VERIF_SEED", "VERIF_TIER")}
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:alloc_dealloc_mismatch=0:max_malloc_fill_size=100000000:" \
                              "malloc_fill_byte=165:hard_rss_limit_mb=3000:handle_abort=0:disable_coredump=1:symbolize=0"
        env.update(LC_ALL="C", HOME=os.path.join(top, "home"), TMPDIR=os.path.join(top, "tmp"))
        res, going = [], {}

        def done(p):
            try:
                out, err = p.communicate(timeout=timeout)
                return observe(p.returncode, out[:8000000].decode("latin-1"), err[:100000].decode("latin-1"), here)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                return observe(None, "", "", here)
        try:
            for s in cases[k].steps:
                o = {}
                if s[0] == "put":
                    with open(os.path.join(here, s[1][0]), "w", newline="") as w:
                        w.write(s[1][5])
                elif s[0] == "drop":
                    try:
                        os.remove(os.path.join(here, s[1]))
                    except FileNotFoundError:
                        pass            # seen before
                elif s[0] == "start":
                    who = NOBODY if may and cases[k].guest else {}
                    going[s[1]] = subprocess.Popen([exe] + [a.replace("@HERE@", here) for a in s[2]], cwd=here, env=env,
                                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                                                   **who)
                elif s[0] == "end":
                    o = done(going.pop(s[1]))
                    x = o["out"] + (" with J_eff" if o["jeff"] else "")
                    c.kinds[x] = c.kinds.get(x, 0) + 1
                else:
                    o = tree(top)
                res.append(o)
        finally:
            for p in going.values():
                p.kill()
                p.communicate()
            shutil.rmtree(top, ignore_errors=True)
        return res
    with cf.ThreadPoolExecutor(CPUS) as ex:
        return list(ex.map(one, range(len(cases))))


class Site:
    """Six files in two states each, and command lines for them."""

    def __init__(self, rng):
        self.rng = rng
        cp = rng.random() < 0.4
        x = rng.random()
        beta = (0, 1, 2) if x < 0.7 else ()
        a = System(rng, cp, beta=beta, most=rng.choice([6, 9, 12]))
        if a.u != PLAIN:
            a = a.another()
        self.sys = [a, a.another()]
        self.pairs, self.dirs = file_names(rng, rng.random() < 0.2)
        self.cp = cp
        self.versions = {}       # path -> files
        for v in self.sys:
            r = Run().system(rng, v, self.pairs)
            for f in r.files:
                self.versions.setdefault(f[0], []).append(f)
        self.paths = sorted(self.versions)

    def fault(self, path):
        """The file cut off, or with something missing."""
        rng = self.rng
        i = next(k for k, (r, p) in enumerate(sorted(self.pairs.items(), key=lambda x: "P12".index(x[0]))) if path in p)
        r = Run()
        v = rng.choice(self.sys)
        if path.endswith(".log"):
            r.add(rng, path, "log", v.log(i, rng.choice(["nobeta", "nolevels", "moved", None, None])), 0, rng.random() < 0.5)
        else:
            lines, n = v.pun(i, rng.choice(["nobeta", "nocoefs", None, None]))
            r.add(rng, path, "pun", lines, n, rng.random() < 0.5)
        return r.files[0]

    def command(self):
        rng = self.rng
        v = rng.choice(self.sys)
        spins = [rng.choice(SPINS if i in v.beta else ("Alpha",)) for i in range(3)]
        asked = [pick(rng, v.levels[i, spins[i]]) for i in (1, 2)]
        segs = asking(rng, self.cp, spins, asked)
        names = {r: tuple(twisted(rng, f, self.dirs) for f in p) for r, p in self.pairs.items()}
        words = mixed(rng, naming(rng, names), segs)
        if rng.random() < 0.06:
            words.insert(rng.randrange(len(words) + 1), [rng.choice(["--help", "-cite", "--version", "x"])])
        return flat(words)


def history_case(rng, hist):
    st = Site(rng)
    v = Visit(st.dirs, rng.random() < 0.3)
    some = rng.sample(st.paths, rng.randint(2, 4))
    k = rng.randint(1, len(some) - 1)
    parts = {1: some[:k], 2: some[k:]}
    commands = {1: st.command(), 2: st.command()}
    for p in st.paths:
        if p not in some:
            v.add("put", rng.choice(st.versions[p]))
    for e in hist:
        if e["op"] == "put":
            for p in parts[e["a"]]:
                v.add("put", st.versions[p][e["b"] - 1])
        elif e["op"] == "drop":
            for p in parts[e["a"]]:
                v.add("drop", p)
        elif e["op"] == "start":
            v.add("start", e["a"], commands[e["b"]])
        else:
            v.add("end", e["a"])
    v.add("look")
    return v


def random_visit(rng):
    st = Site(rng)
    v = Visit(st.dirs, rng.random() < 0.3)
    there = set()
    commands = [st.command() for _ in range(3)]
    for p in st.paths:
        v.add("put", rng.choice(st.versions[p]))
        there.add(p)
    for _ in range(rng.randint(2, 5)):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            p = rng.choice(st.paths)
            x = rng.random()
            if x < 0.15 and p in there:
                v.add("drop", p)
                there.discard(p)
            else:
                v.add("put", st.fault(p) if x < 0.3 else rng.choice(st.versions[p]))
                there.add(p)
        n = rng.randint(1, 4)
        same = rng.random() < 0.4
        cmd = rng.choice(commands)
        slots = rng.sample(range(1, 5), n)
        for s in slots:
            v.add("start", s, cmd if same else rng.choice(commands) if rng.random() < 0.7 else st.command())
        rng.shuffle(slots)
        for s in slots:
            v.add("end", s)
        v.add("look")
        if len(there) < len(st.paths) and rng.random() < 0.7:
            for p in sorted(set(st.paths) - there):
                v.add("put", rng.choice(st.versions[p]))
                there.add(p)
    return v


def check_C30(c):
    c.build([], tool=True)
    rng = c.rng
    got = c.emitted("MCWorld", c.pick("MCWorld.cfg", "MCWorld_thorough.cfg"), min_states=10000)
    got.sort(key=str)
    total = len(got)
    # more of those in which a file is replaced after a run that has read all
    full = [b for b in got if sum(e["op"] == "put" for e in b["hist"]) >= 3]
    rest = [b for b in got if sum(e["op"] == "put" for e in b["hist"]) < 3]
    got = rng.sample(full, min(len(full), c.pick(250, 6000))) + rng.sample(rest, min(len(rest), c.pick(100, 3000)))
    cases = [history_case(rng, b["hist"]) for b in got]
    small = len(cases)
    cases += [random_visit(rng) for _ in range(c.pick(250, 5000))]
    c.notes.append("%d histories of %d enumerated by TLC, %d random ones" % (small, total, len(cases) - small))
    t = time.time()
    out = visit(c, cases)
    log("ran %d histories, %.1f s" % (len(cases), time.time() - t))
    traces = [x.trace(o) for x, o in zip(cases, out)]

    def cost(tr):
        return sum({"end": 40, "file": 2 + len(e.get("lines", ()))}.get(e["op"], 2) for e in tr)
    c.validate("TraceCalc", traces, cost=cost, shards=max(1, min(CPUS, len(traces) // 10)),
               rerun=lambda ks: [cases[k].trace(visit(c, [cases[k]])[0]) for k in ks[-1:]],
               describe=lambda i: {"steps": cases[i].words()})


def check_C07(c):
    c.build([], tool=True)
    rng = c.rng
    got = c.emitted("MCCalc", c.pick("MCCalc.cfg", "MCCalc_thorough.cfg"), min_states=50000)
    got.sort(key=str)
    cases = [config_case(rng, b) for b in got]
    c.notes.append("%d configurations enumerated by TLC" % len(got))
    n = c.pick(500, 6000)
    some = [random_case(rng, (rng.choice([4, 5, 5, 6]), "moved") if i % 6 == 5 else None) for i in range(n + 5 * n)]
    t = time.time()
    rare = execute(c, some, coverage=True)
    log("explored %d sets of files, %.1f s" % (len(some), time.time() - t))
    cases += [some[i] for i in c.select(rare, n, n // 2)]
    run_cases(c, cases)
