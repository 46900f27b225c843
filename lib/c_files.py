"""C08-C11 (log files), C12 (coefficient files), C13 (files cut off) and C28
(readers used again)."""
import os
import re
from decimal import Decimal

from vlib import Broken, enc


# -- numbers -------------------------------------------------------------------
def norm(text):
    """The number with nine digits, as the driver prints it."""
    d = Decimal(text.strip().replace("D", "E"))
    if d == 0:
        return "0.00000000e+00"
    s, digits, x = d.normalize().as_tuple()
    if len(digits) > 9:
        raise Broken("too many digits: " + text)
    m = "".join(map(str, digits)).ljust(9, "0")
    e = len(digits) - 1 + x
    return "%s%s.%se%s%02d" % ("-" if s else "", m[0], m[1:], "-" if e < 0 else "+", abs(e))


class Numbers:
    """Texts for the values of a file."""

    def __init__(self, rng):
        self.rng = rng

    def energy(self, glue=False):
        r = self.rng
        x = r.random()
        if glue or x < 0.12:
            v = -r.randint(10000000, 99999999)
        elif x < 0.2:
            v = r.randint(-99, 99)
        else:
            v = r.randint(-1999999, 199999)
        return "%10s" % dec(v, 5)

    def coord(self):
        r = self.rng
        v = r.choice([0, r.randint(-9999999, 9999999), r.randint(-999999999, 999999999), r.randint(-99, 99)])
        return "%12s" % dec(v, 6)

    def overlap(self):
        return "%14s" % self.fortran(6, r=self.rng.choice([(0, 1), (-3, 1), (-19, 1), (-99, 2)]))

    def coef(self):
        return "%15s" % self.fortran(8, r=self.rng.choice([(0, 0), (-2, 1), (-15, 2), (-99, 9)]))

    def fortran(self, digits, r):
        rng = self.rng
        if rng.random() < 0.07:
            return rng.choice(["", "-"]) + "0." + "0" * digits + "D+00"
        x = rng.randint(*r)
        m = rng.randint(10 ** (digits - 1), 10 ** digits - 1)
        if rng.random() < 0.1:
            m = 10 ** (digits - 1)
        return "%s0.%dD%s%02d" % (rng.choice(["", "-"]), m, "-" if x < 0 else "+", abs(x))

    def pop(self):
        r = self.rng
        return "%10s" % dec(r.choice([0, r.randint(-99, 99999), r.randint(0, 299999), -r.randint(0, 9999)]), 5)


def dec(v, digits):
    s = "%0*d" % (digits + 1, abs(v))
    return ("-" if v < 0 else "") + s[:-digits] + "." + s[-digits:]


# -- lines ---------------------------------------------------------------------
# A line is a pair (abstract line, text).
RULE = " " + "-" * 69
NOISE = [
    "", " ", RULE, " ****** Core Hamiltonian ****** ", " *** Kinetic Energy ***", "          Condensed to atoms (all electrons):",
    " Mulliken charges:", "               1", "     1  C   -0.145000", " Center     Atomic                   Forces (Hartrees/Bohr)",
    " Number     Number              X              Y              Z", " Alpha Orbitals:", " Beta  Orbitals:",
    "     Molecular Orbital Coefficients:", "     Eigenvalues --   -10.17800  -1.15000   0.10000",
    " The electronic state is 1-A1.", " Normal termination of Gaussian 09 at Mon Jan  1 00:00:00 2018.",
    "      1          6           0        0.100000    0.200000    0.300000", "   1 1   C  1S          0.50000",
    "   2        2S          0.50000", "     Gross orbital charges:", "                         Standard orientation:",
    " Overlap", "      1  0.100000D+01", "                1             2             3", " Density Matrix:",
    "     Density Matrix:", " SCF Done:  E(RB3LYP) =  -40.5183  A.U. after    8 cycles", " occ. eigenvalues",
    " Orbital energies and kinetic energies (alpha):", " alpha  occ. eigenvalues --  -10.10000", " Total atomic charges",
    " Center     Atomic", " Rotational constants (GHZ):", "\t tab", " Population analysis using the SCF density.",
    " #P B3LYP/6-31G pop=full iop(3/33=1)", "\r", " Alpha", " Beta",
]


class LogText:
    """Renders abstract lines of a log file; the values they contain are
    replaced by numbers of the right format."""

    def __init__(self, rng):
        self.rng = rng
        self.num = Numbers(rng)
        self.lines = []
        self.gap = rng.choice([1, 1, 2])
        self.tables = {}
        self.old, self.now, self.echo = [], [], 0

    def put(self, a, text):
        self.lines.append((a, text))

    def numbers(self, n, f):
        t = []
        for _ in range(n):
            k = len(self.now)
            t.append(self.old[k] if k < len(self.old) and self.rng.random() < self.echo else f())
            self.now.append(t[-1])
        return t, [norm(x) for x in t]

    def table(self, kind):
        """A table begins; it may be similar to the one before."""
        self.old, self.now = self.tables.get(kind, []), []
        self.tables[kind] = self.now
        self.echo = self.rng.choice([0, 0, 0.5, 0.9, 0.97, 1])

    def text(self, which=None):
        self.put({"k": "text"}, which if which is not None else self.rng.choice(NOISE))

    def noise(self, n):
        for _ in range(n):
            self.text()

    def energies_line(self, spin, occ, n, glue=False):
        some = glue or (glue is None and self.rng.random() < 0.5)
        t, v = self.numbers(n, lambda: self.num.energy(some and self.rng.random() < 0.7))
        head = (" Alpha " if spin == "Alpha" else "  Beta ") + (" occ." if occ else "virt.") + " eigenvalues -- "
        self.put({"k": "en", "spin": spin, "occ": occ, "vals": v}, head + "".join(t))

    def coord_head(self):
        self.put({"k": "chead"}, " Center     Atomic %s    Atomic             Coordinates (Angstroms)"
                 % self.rng.choice([" ", ""]))

    def coord_row(self, i):
        t, v = self.numbers(3, self.num.coord)
        self.put({"k": "crow", "xyz": v}, "%7d%11d%12d    %s" % (
            i, self.rng.choice([0, 1, 6, 6, 8, 16, -1, self.rng.randint(1, 118)]),
            self.rng.choice([0, 0, 0, 0, 1000, 10001005, 20001038]), "".join(t)))

    def overlap_row(self, r, n):
        t, v = self.numbers(n, self.num.overlap)
        self.put({"k": "orow", "r": r, "vals": v}, "%7d" % r + "".join(t))

    def overlap_cols(self, col, n):
        self.put({"k": "ocols"}, "       " + "".join("%14d" % c for c in range(col, min(col + 4, n) + 1)))

    def pop_row(self, nr, atom, el, lab, p, width):
        t, v = self.numbers(p, self.num.pop)
        if el is not None:
            self.put({"k": "patom", "el": el, "lab": lab, "pops": v},
                     "%4d %-3d %-2s %-*s" % (nr, atom, el, width, lab) + "".join(t))
        else:
            self.put({"k": "pnext", "lab": lab, "pops": v},
                     "%4d        %-*s" % (nr, width, lab) + "".join(t))

    # Whole tables
    def energies(self, spin, occ, virt):
        self.table(spin)
        for o, n in ((True, occ), (False, virt)):
            while n > 0:
                self.energies_line(spin, o, min(5, n), None)
                n -= 5

    def coords(self, n):
        self.table("coord")
        self.coord_head()
        self.put({"k": "csub"}, " Number     Number       Type             X           Y           Z")
        self.put({"k": "rule"}, RULE)
        for i in range(n):
            self.coord_row(i + 1)
        self.put({"k": "rule"}, RULE)

    def overlap(self, n):
        self.table("over")
        self.put({"k": "ohead"}, " *** Overlap *** ")
        col = 1
        while col <= n:
            self.overlap_cols(col, n)
            for r in range(col, n + 1):
                self.overlap_row(r, min(5, r - col + 1))
            col += 5
        self.text(" *** Kinetic Energy ***")

    def populations(self, atoms, p):
        self.table("pop")
        self.put({"k": "phead"}, "     Gross orbital populations:")
        self.put({"k": "pcols"}, " " * 24 + "".join("%10s" % x for x in ("Total", "Alpha", "Beta", "Spin", "Up", "Down", "All", "None")[:p]))
        nr = 0
        width = self.rng.choice([9, 10, 8])
        for a, (el, labs) in enumerate(atoms):
            for i, lab in enumerate(labs):
                nr += 1
                self.pop_row(nr, a + 1, el if i == 0 else None, lab, p, width)
        self.put({"k": "pend"}, "          Condensed to atoms (all electrons):")

    # An abstract file of the specification
    def render(self, file):
        col = row = nr = atom = 0
        n = max([ln["r"] for ln in file if ln["k"] == "orow"] + [0])
        glue = self.rng.random() < 0.4
        for i, ln in enumerate(file):
            k = ln["k"]
            if k == "text":
                # Nothing that continues a small overlap matrix.
                self.text(" *** Kinetic Energy ***" if i and file[i - 1]["k"] == "orow" else None)
            elif k == "en":
                self.energies_line(ln["spin"], ln["occ"], len(ln["vals"]), glue)
            elif k == "chead":
                row = 0
                self.coord_head()
            elif k == "csub":
                self.put(ln, " Number     Number      Type              X           Y           Z")
            elif k == "rule":
                self.put(ln, RULE)
            elif k == "crow":
                row += 1
                self.coord_row(row)
            elif k == "ohead":
                col = -4
                self.put(ln, " *** Overlap *** ")
            elif k == "ocols":
                col += 5
                self.overlap_cols(col, n)
            elif k == "orow":
                self.overlap_row(ln["r"], len(ln["vals"]))
            elif k == "phead":
                self.put(ln, "     Gross orbital populations:")
            elif k == "pcols":
                nr = atom = 0
                self.put(ln, " " * 24 + "         1")
            elif k in ("patom", "pnext"):
                nr += 1
                atom += k == "patom"
                self.pop_row(nr, atom, ln.get("el"), ln["lab"], len(ln["pops"]), 9)
            elif k == "pend":
                self.put(ln, "          Condensed to atoms (all electrons):")
            else:
                raise Broken("no such line " + k)
        return self


class PunText:
    def __init__(self, rng, n):
        self.rng = rng
        self.num = Numbers(rng)
        self.n = n
        self.lines = []

    def put(self, a, text):
        self.lines.append((a, text))

    def text(self, first=False):
        self.put({"k": "text"}, "(5D15.8)" if first else
                 self.rng.choice(["", " title of the job", "(5D15.8)", "    1 alpha MO", " $END", " MO coefficients"])
                 if not self.lines else self.rng.choice(["", " end of the coefficients", " -1.0", " Total energy"]))

    def orbital(self, i, spin):
        self.put({"k": "mo", "i": i, "spin": spin},
                 "%5d %s MO OE=%s" % (i, spin, self.num.fortran(8, (-1, 2))))

    def coefs(self, m):
        t = [self.num.coef() for _ in range(m)]
        self.put({"k": "coef", "vals": [norm(x) for x in t]}, "".join(t))

    def whole(self, i, spin):
        self.orbital(i, spin)
        n = self.n
        while n > 0:
            self.coefs(min(5, n))
            n -= 5

    def render(self, file):
        for i, ln in enumerate(file):
            if ln["k"] == "text":
                self.text(i == 0)
            elif ln["k"] == "mo":
                self.orbital(ln["i"], ln["spin"])
            else:
                self.coefs(len(ln["vals"]))
        return self


# -- cases -----------------------------------------------------------------------
class File:
    """A file, read whole and cut off at several places."""
    count = 0

    def __init__(self, c, kind, lines, n=0, ext=None, newline="\n"):
        File.count += 1
        self.kind, self.lines, self.n = kind, lines, n
        self.path = c.path("f%d%s" % (File.count, ext or (".log" if kind == "log" else ".pun")))
        texts = [t for _, t in lines]
        data = "".join(t + "\n" for t in texts)
        self.start = []
        p = 0
        for t in texts:
            self.start.append(p)
            p += len(t) + 1
        self.size = p
        with open(self.path, "w") as w:
            w.write(data)
        self.cuts = []       # positions
        self.times = c.rng.choice([1, 1, 1, 2, 3])     # how often one reader reads it

    def everywhere(self):
        self.cuts = list(range(self.size))
        return self

    def some(self, rng, inner):
        """Before every line, at the end of every line, and within."""
        s = set()
        for (a, t), p in zip(self.lines, self.start):
            s.add(p)
            s.add(p + len(t))
            for _ in range(inner):
                s.add(p + rng.randint(0, len(t)))
        self.cuts = sorted(x for x in s if x < self.size)
        return self

    def calls(self):
        return [[self.kind, enc(self.path), str(p), "2" if k % 5 == 4 else "1"] for k, p in enumerate(self.cuts)] +\
            [[self.kind, enc(self.path), "-1", str(self.times)]]

    FIELDS = {"log": ["alpha", "beta", "xyz", "ov", "counts", "ao"], "pun": ["alpha", "beta", "restricted"]}

    def trace(self, outcomes):
        tr = [{"op": "begin", "n": self.n, "kind": self.kind}]
        outs = list(outcomes)
        cuts = list(self.cuts)
        k = 0

        def result(ev):
            nonlocal k
            o = outs[k] if k < len(outs) else {"k": "lost"}
            k += 1
            ev["out"] = o["k"]
            for f in self.FIELDS[self.kind]:
                ev[f] = o[f] if o["k"] == "ok" else []
            tr.append(ev)
            # Nothing more is known when the process has ended.
            return o["k"] in ("ok", "throw")
        for (a, t), p in zip(self.lines, self.start):
            while cuts and cuts[0] <= p + len(t):
                x = cuts.pop(0)
                if x == p:
                    ok = result({"op": "end", "whole": 0, "at": x})
                else:
                    part = "data" if x == p + len(t) else "some"
                    ok = result({"op": "cut", "line": a, "part": part, "at": x})
                if not ok:
                    return tr
            tr.append({"op": "line", "line": a})
        result({"op": "end", "whole": 1, "at": self.size})
        if len(outs) > k:
            tr[-1]["out"] = outs[k]["k"] + " at the end"
        return tr


def run_files(c, files, timeout=20):
    log = [f for f in files if f.kind == "log"]
    pun = [f for f in files if f.kind == "pun"]
    run = lambda fs: c.drive("files", [f.calls() for f in fs], timeout=timeout)
    for module, fs in (("TraceLog", log), ("TracePun", pun)):
        if not fs:
            continue
        out = run(fs)
        traces = [f.trace(o) for f, o in zip(fs, out)]

        def cost(tr):
            s = 0
            for e in tr:
                s += 4 + len(e.get("ov") or []) * 10 + sum(len(r) for m in (e.get("ov") or []) for r in m)
            return s
        c.validate(module, traces, cost=cost, rerun=lambda ks, fs=fs: [fs[k].trace(o) for k, o in zip(ks, run([fs[k] for k in ks]))],
                   describe=lambda i, fs=fs: "".join(t + "\n" for _, t in fs[i].lines)[:20000])
    for f in files:
        os.remove(f.path)


# -- random files ----------------------------------------------------------------
LABELS = ["1S", "2S", "3S", "2PX", "2PY", "2PZ", "4S", "3PX", "3PY", "3PZ", "4D 0", "4D+1", "4D-1", "4D+2", "4D-2",
          "5XX", "5YY", "5ZZ", "5XY", "6F 0", "6F+1", "6F-3", "10PX", "11D 0", "11D+1", "12F 0", "13G+4", "14G 0"]
ELEMENTS = ["H", "C", "N", "O", "F", "S", "P", "B", "I", "Cl", "Br", "Si", "Zn", "Pt", "He", "Li", "Na", "Se"]


def rand_atoms(rng, n, most):
    res = []
    for _ in range(n):
        k = rng.choice([1, 1, rng.randint(1, most)])
        labs = sorted(rng.sample(range(len(LABELS)), min(k, len(LABELS))))
        res.append((rng.choice(ELEMENTS), [LABELS[i] for i in labs]))
    return res


def rand_log(c, what, small=False):
    """A log file with the tables named, in random order."""
    rng = c.rng
    t = LogText(rng)
    t.noise(rng.randint(0, 3))
    plan = []
    for w in what:
        plan += [w] * rng.choice([1, 1, 2, 3] if w in ("en", "coord") else [1, 1, 1, 2])
    rng.shuffle(plan)
    last = None
    sizes = {}

    def size(what, new):
        """As in the table before or another one."""
        if what not in sizes or rng.random() < 0.5:
            sizes[what] = new
        return sizes[what]
    for w in plan:
        if w == "en":
            if last == "en":
                t.text(" Population analysis")
            o, v = rng.randint(1, rng.choice([3, 6, 12, 40])), rng.randint(0, rng.choice([3, 11, 40]))
            if rng.random() < 0.03:
                o, v = c.size(20, 300), c.size(20, 300)
            if small:
                o, v = min(o, 6), min(v, 6)
            o, v = size("en", (o, v))
            kind = rng.random()
            if kind < 0.45:
                t.energies("Alpha", o, v)
            elif kind < 0.95:
                t.energies("Alpha", o, v)
                ob = max(0, o - rng.choice([0, 0, 1, 2, o]))
                t.energies("Beta", ob, max(1, o + v - ob) if ob == 0 else o + v - ob)
            else:
                t.energies("Beta", o, v)
        elif w == "coord":
            t.coords(size("coord", rng.randint(1, 4 if small else rng.choice([3, 12, 40])) if small or rng.random() < 0.97
                          else c.size(20, 300)))
        elif w == "over":
            t.overlap(size("over", rng.randint(1, 12 if small else rng.choice([5, 12, 23, 31, c.size(20, 60)]))))
        elif w == "pop":
            n = rng.randint(1, 3 if small else rng.choice([3, 8, 20]))
            if not small and rng.random() < 0.03:
                n = c.size(20, 120)
            atoms, p = size("pop", (rand_atoms(rng, n, 4 if small else 20), rng.choice([1, 1, 2, 3, 4, rng.randint(5, 8)])))
            if rng.random() < 0.3:      # other elements or labels
                other = rand_atoms(rng, len(atoms), 4 if small else 20)
                atoms = [rng.choice(x) for x in zip(atoms, other)]
            t.populations(atoms, p)
        last = w
        if rng.random() < 0.7:
            t.noise(rng.randint(1, 3))
            last = None
    if last == "over":
        t.noise(1)
    return File(c, "log", t.lines)


def emitted_logs(c, name, minimum):
    """Files of the specification with the section."""
    return [b for b in c.emitted("MCLogFile", c.pick("MCLogFile.cfg", "MCLogFile.cfg"), min_states=3000)
            if name is None or name in b["did"]]


def guided(c, make, always, more, most):
    """Random files, see Check.guided."""
    made = []

    def remember(i):
        made.append(make(i))
        return made[-1]
    k = c.pick(1, 10)
    got = c.guided("files", remember, File.calls, k * always, k * more, k * most)
    keep = set(map(id, got))
    for f in made:
        if id(f) not in keep:
            os.remove(f.path)
    return got


def log_check(c, name, others, n_random):
    c.build(["files"])
    if not c.quick:
        c.model("MCLogFile", "MCLogFile_thorough.cfg", min_states=100000)
    rng = c.rng
    files = [File(c, "log", LogText(rng).render(b["file"]).lines) for b in emitted_logs(c, name, 100)]
    small = len(files)

    def make(i):
        what = [name] + [w for w in others if rng.random() < 0.4]
        if rng.random() < 0.03:
            what = what[1:]
        return rand_log(c, what)
    files += guided(c, make, n_random, 8 * n_random, n_random // 2)
    c.notes.append("%d files written by the model, %d random files" % (small, len(files) - small))
    return files


def check_C08(c):
    files = log_check(c, "en", ["coord", "over", "pop"], 1000)
    for occ, virt in [(130, 127), (260, 3), (5, 258), (600, 520)]:
        t = LogText(c.rng)
        t.energies("Alpha", occ, virt)
        files.append(File(c, "log", t.lines))
    run_files(c, files)


def check_C09(c):
    files = log_check(c, "coord", ["en", "pop", "over"], 1000)
    for n in c.pick([150, 260], [150, 260, 520, 1200]):
        t = LogText(c.rng)
        t.coords(n)
        files.append(File(c, "log", t.lines))
    run_files(c, files)


def check_C10(c):
    files = log_check(c, "over", ["en", "coord", "pop"], 400)
    for n in list(range(1, 33)) + c.pick([60, 131], [60, 99, 100, 101, 131, 260]):
        t = LogText(c.rng)
        t.overlap(n)
        files.append(File(c, "log", t.lines))
    run_files(c, files)


def check_C11(c):
    files = log_check(c, "pop", ["en", "coord", "over"], 800)
    for n, most in c.pick([(120, 12), (270, 2)], [(120, 12), (270, 2), (999, 12), (300, 28)]):
        t = LogText(c.rng)
        t.populations(rand_atoms(c.rng, n, most), c.rng.choice([1, 2, 4]))
        files.append(File(c, "log", t.lines))
    run_files(c, files)


def rand_pun(c, small=False):
    rng = c.rng
    n = rng.randint(1, rng.choice([5, 6, 11, 16] if small else [5, 12, 30, c.size(20, 150)]))
    t = PunText(rng, n)
    if rng.random() < 0.9:
        t.text(True)
    if rng.random() < 0.2:
        t.text()
    spins = rng.choice([["Alpha"], ["Alpha"], ["Alpha", "Beta"], ["Alpha", "Beta"], ["Beta"], ["Beta", "Alpha"]])
    for s in spins:
        # With several functions a spin that ends the file has several orbitals.
        most = rng.choice([2, 3, n, n + 1, 12])
        k = rng.randint(1 if n == 1 else 2, max(2, most))
        for i in range(1, k + 1):
            t.whole(i, s)
        if k > 1 and rng.random() < 0.25:
            t.text()
    return File(c, "pun", t.lines, n=n, ext=rng.choice([".pun", ".pun", ".7", ".orb"]))


def emitted_puns(c):
    return c.emitted("MCPunFile", c.pick("MCPunFile.cfg", "MCPunFile_thorough.cfg"), min_states=1000)


def check_C12(c):
    c.build(["files"])
    rng = c.rng
    files = [File(c, "pun", PunText(rng, b["n"]).render(b["file"]).lines, n=b["n"]) for b in emitted_puns(c)]
    small = len(files)
    files += guided(c, lambda i: rand_pun(c), 800, 8000, 400)
    # Many functions, or many orbitals
    for n, k in [(127, 2), (128, 3), (129, 2), (256, 2), (257, 3), (300, 2), (2, 300)] + c.pick([(513, 2)], [(513, 2), (1030, 2), (3, 1100)]):
        t = PunText(rng, n)
        t.text(True)
        for s in rng.choice([["Alpha"], ["Alpha", "Beta"]]):
            for i in range(1, k + 1):
                t.whole(i, s)
        files.append(File(c, "pun", t.lines, n=n))
    c.notes.append("%d files written by the model, %d random files" % (small, len(files) - small))
    run_files(c, files)


def check_C13(c):
    c.build(["files"])
    rng = c.rng
    files = []
    if not c.quick:
        c.model("MCLogFile", "MCLogFile_thorough.cfg", min_states=100000)
    logs = emitted_logs(c, None, 100)
    step = c.pick(9, 1)
    for i, b in enumerate(logs):
        if i % step == 0:
            f = File(c, "log", LogText(rng).render(b["file"]).lines)
            files.append(f.some(rng, 1))
    puns = emitted_puns(c)
    for i, b in enumerate(puns):
        if i % c.pick(3, 4) == 0:
            f = File(c, "pun", PunText(rng, b["n"]).render(b["file"]).lines, n=b["n"])
            files.append(f.some(rng, 1))

    def make(i):
        if i % 7 < 3:
            f = rand_pun(c, True)
        else:
            f = rand_log(c, rng.choice([["coord"], ["over"], ["pop"], ["en", "pop"], ["coord", "over", "pop", "en"]]), True)
        return f.everywhere() if i % 5 == 0 and f.size < 4000 else f.some(rng, 2)
    files += guided(c, make, 130, 800, 60)
    c.notes.append("%d files, %d places where they end" % (len(files), sum(len(f.cuts) for f in files)))
    run_files(c, files, timeout=6)


# -- readers used again (C28) ------------------------------------------------------
class Contents:
    """A file, or the first of its lines."""

    def __init__(self, f, m=None):
        self.f, self.kind, self.path, self.n = f, f.kind, f.path, f.n
        m = len(f.lines) if m is None else m
        self.lines = [a for a, _ in f.lines[:m]]
        self.whole = 1 if m == len(f.lines) else 0
        self.bytes = -1 if self.whole else f.start[m]


NUMBER = re.compile(r"-?\d*\.\d+(D[+-]\d\d)?")


def twin(c, f):
    """A file of the same size with other numbers."""
    lines = []
    for a, t in f.lines:
        key = "vals" if "vals" in a else "pops" if "pops" in a else "xyz" if "xyz" in a else None
        hits = list(NUMBER.finditer(t)) if key else []
        if key and len(hits) == len(a[key]) and c.rng.random() < 0.7:
            k = c.rng.randrange(len(hits))
            old = hits[k].group(0)
            dot = old.index(".") + 1
            new = old[:dot] + c.rng.choice([x for x in "123456789" if x != old[dot]]) + old[dot + 1:]
            a = dict(a)
            a[key] = list(a[key])
            a[key][k] = norm(new)
            t = t[:hits[k].start()] + new + t[hits[k].end():]
        lines.append((a, t))
    return File(c, f.kind, lines, n=f.n)


class ReaderCase:
    """Two readers and their files: steps (open m f kind ext), (put f contents),
    (drop f), (read m)."""

    def __init__(self):
        self.steps = []

    def calls(self):
        r = []
        for s in self.steps:
            if s[0] == "open":
                r.append(["open"] + [str(x) for x in s[1:]])
            elif s[0] == "put":
                r.append(["put", str(s[1]), enc(s[2].path), str(s[2].bytes)])
            else:
                r.append([{"drop": "drop", "read": "rd"}[s[0]], str(s[1])])
        return r

    def trace(self, outs):
        tr = [{"op": "begin"}]
        for i, s in enumerate(self.steps):
            o = outs[i] if i < len(outs) else {"k": "lost"}
            if s[0] == "read":
                tr.append({"op": "read", "m": s[1], "out": o["k"], "obs": o.get("obs", [{}, {}])})
            elif s[0] == "open":
                tr.append({"op": "open", "m": s[1], "f": s[2], "kind": s[3], "out": o["k"]})
            elif o["k"] != "ok":
                raise Broken("files cannot be written: %r" % (o,))
            elif s[0] == "put":
                x = s[2]
                tr.append({"op": "put", "f": s[1], "kind": x.kind, "n": x.n, "whole": x.whole, "lines": x.lines})
            else:
                tr.append({"op": "drop", "f": s[1]})
            if o["k"] not in ("ok", "throw"):
                break
        return tr

    def __str__(self):
        r = []
        for s in self.steps:
            if s[0] == "put":
                x = s[2]
                r.append("put %s (%s, %s)\n%s" % (s[1], x.kind, "whole" if x.whole else "cut off",
                                                 "".join(t + "\n" for _, t in x.f.lines[:len(x.lines)])))
            else:
                r.append(" ".join(map(str, s)))
        return "\n".join(r)[:30000]


EXTS = {"log": [".log"], "pun": [".pun", ".7", ".orb"]}


def check_C28(c):
    c.build(["files"])
    rng = c.rng
    pool = {"log": [], "pun": []}
    for i in range(c.pick(60, 400)):
        pool["log"].append(rand_log(c, [w for w in ("en", "coord", "over", "pop") if rng.random() < 0.6] or ["en"], True))
        pool["pun"].append(rand_pun(c, True))

    twins = {}

    def other(x):
        """The twin of a whole file, if there is one."""
        f = x.f
        if not x.whole:
            return x
        if f not in twins:
            twins[f] = twin(c, f)
            twins[twins[f]] = f
        return Contents(twins[f])

    def contents(kind, cut=0.0):
        f = rng.choice(pool[kind])
        return Contents(f, rng.randint(0, len(f.lines)) if rng.random() < cut else None)

    def broken(kind):
        """A file that ends within a table."""
        while True:
            f = rng.choice(pool[kind])
            inner = [i for i, (a, _) in enumerate(f.lines) if i and a["k"] in
                     ("crow", "csub", "orow", "pnext", "patom", "pcols", "coef")]
            if inner:
                return Contents(f, rng.choice(inner))

    def start(same):
        x = ReaderCase()
        kinds = [rng.choice(["log", "pun"]) for _ in (1, 2)]
        if same:
            kinds[1] = kinds[0]
        for m in (1, 2):
            f = 1 if same else m
            if m == 1 or not same:
                ext = rng.choice(EXTS[kinds[m - 1]])
            x.steps.append(("open", m, f, kinds[m - 1], ext))
        return x, kinds
    hists = c.emitted("MCReuse", c.pick("MCReuse.cfg", "MCReuse_thorough.cfg"), min_states=30000) + \
        c.emitted("MCReuse", c.pick("MCReuse_same.cfg", "MCReuse_same_thorough.cfg"), min_states=3000)
    rng.shuffle(hists)
    cases = []
    for b in hists[:c.pick(2500, 20000)]:
        x, kinds = start(b["same"])
        seen = {}
        for e in b["hist"]:
            f, k = e["f"], e["c"]
            if e["k"] == "put":
                if (f, k) not in seen:
                    kind = kinds[f - 1]
                    seen[f, k] = broken(kind) if k == 3 else contents(kind)
                    if k < 3 and (f, 3 - k) in seen and rng.random() < 0.5:
                        seen[f, k] = other(seen[f, 3 - k])
                x.steps.append(("put", f, seen[f, k]))
            else:
                x.steps.append((e["k"], f))
        cases.append(x)
    small = len(cases)
    for i in range(c.pick(400, 4000)):
        same = rng.random() < 0.4
        x, kinds = start(same)
        for _ in range(rng.randint(4, c.pick(20, 40))):
            f = 1 if same else rng.randint(1, 2)
            p = rng.random()
            if p < 0.35:
                old = [s for s in x.steps if s[0] == "put" and s[1] == f]
                if old and rng.random() < 0.3:
                    new = other(rng.choice(old)[2])
                else:
                    new = broken(kinds[f - 1]) if rng.random() < 0.15 else contents(kinds[f - 1], 0.2)
                x.steps.append(("put", f, new))
            elif p < 0.4:
                x.steps.append(("drop", f))
            elif p < 0.45:
                m = rng.randint(1, 2)
                old = [s for s in x.steps if s[0] == "open" and s[1] == m][-1]
                x.steps.append(old)
            else:
                x.steps.append(("read", rng.randint(1, 2)))
        cases.append(x)
    c.notes.append("%d histories of the model (of %d), %d random ones; %d files" %
                   (small, len(hists), len(cases) - small, sum(map(len, pool.values()))))
    out = c.drive("files", [x.calls() for x in cases])

    def cost(tr):
        return sum(3 + 2 * len(e.get("lines", ())) + 10 * len(e.get("obs", ())) for e in tr)
    c.validate("TraceReuse", [x.trace(o) for x, o in zip(cases, out)], cost=cost,
               rerun=lambda ks: [cases[k].trace(o) for k, o in zip(ks, c.drive("files", [cases[k].calls() for k in ks]))],
               describe=lambda i: str(cases[i]))
