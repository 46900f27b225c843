"""What all checks share: building /repo's code, running TLC, running a driver
on the real code, validating its traces with TLC, reporting and evidence."""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
CLASSPATH = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4
ODD = 2000000001      # how the drivers write a number that is no small integer

FLAGS = ["-std=c++11", "-DLOG_LEVEL=0", "-O1", "-g1", "-w", "-fno-omit-frame-pointer"]
COVERAGE = ["-fsanitize-coverage=trace-pc,trace-cmp"]


class Broken(Exception):
    """The check itself failed (not the code under test)."""


def log(*a):
    print(*a, flush=True)


def enc(s):
    """A word of the driver's protocol; s is a str (latin-1) or bytes."""
    if isinstance(s, str):
        s = s.encode("latin-1")
    if not s:
        return "%"
    return "".join(chr(b) if 33 <= b <= 126 and b != 37 else "%%%02X" % b for b in s)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(seed * 1000003 + sum(ord(c) * 31 ** i for i, c in enumerate(prop)))
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.kinds = [], [], {}
        self.models = []
        self.violations = []
        self.assumptions = []
        self.single = False

    # -- helpers ---------------------------------------------------------
    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.tmp, name)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def literals(self):
        """Numbers and words that the code under test mentions.  They only
        make some random choices more likely."""
        if not hasattr(self, "_literals"):
            text = ""
            for d in ("libcatnip", "tools"):
                for f in glob.glob(os.path.join(REPO, "src", d, "**", "*.[ch]pp"), recursive=True):
                    if os.sep + "tests" + os.sep not in f:
                        text += open(f, errors="replace").read() + "\n"
            text = re.sub(r"(?m)^\s*#\s*include.*$", "", text)
            words = {w for w in re.findall(r'"((?:[^"\\\n]|\\.)*)"', text) if 0 < len(w) <= 40 and "\\" not in w}
            numbers = {int(x, 0) for x in re.findall(r"(?<![\w.])(0x[0-9a-fA-F]+|[1-9]\d{0,8}|0)(?![\w.])", text)}
            numbers |= {1 << int(x) for x in re.findall(r"\b1[uUlL]*\s*<<\s*([1-9]\d?)\b", text) if int(x) < 30}
            self._literals = sorted(words), sorted(numbers)
        return self._literals

    def size(self, low, high):
        """A size between low and high, the larger the rarer."""
        r = self.rng
        known = [v + d for v in self.literals()[1] for d in (-1, 0, 1) if low <= v + d <= high]
        if known and r.random() < 0.35:
            return r.choice(known)
        return max(low, min(high, int(low * (float(high + 1) / low) ** r.random())))

    # -- building --------------------------------------------------------
    def build(self, drivers, tool=False, asan=True, define=(), suffix="", threads=False):
        """Compiles the library's current sources with the given drivers (and
        the program calc_J) in the scratch directory, with the address sanitizer
        or that of threads.  {name: executable}"""
        t = time.time()
        src = self.path("src")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(REPO, "src"), src,
                            ignore=shutil.ignore_patterns("tests", "*.o"))
            self._config(src)
        flags = FLAGS + (["-fsanitize=thread", "-pthread"] if threads else ["-fsanitize=address"] if asan else []) + \
            ["-D" + d for d in define]
        lib = sorted(glob.glob(os.path.join(src, "libcatnip", "**", "*.cpp"), recursive=True))
        if not lib:
            raise Broken("no sources in " + REPO)
        jobs = [(f, self.path("lib_%d.o" % n)) for n, f in enumerate(lib)]
        libo = [o for _, o in jobs]
        names = {}
        for n in ("runner", "cov"):
            jobs.append((os.path.join(HARNESS, n + ".cpp"), self.path(n + ".o")))
        for d in drivers:
            jobs.append((os.path.join(HARNESS, d + "_driver.cpp"), self.path(d + ".o")))
            names[d] = [self.path("runner.o"), self.path("cov.o"), self.path(d + ".o")]
        if tool:
            tools = sorted(glob.glob(os.path.join(src, "tools", "*.cpp")))
            jobs += [(f, self.path("tool_%d.o" % n)) for n, f in enumerate(tools)]
            names["calc_J"] = [self.path("cov.o")] + [self.path("tool_%d.o" % n) for n in range(len(tools))]
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        inc = ["-I", src, "-I", HARNESS, "-I", os.path.join(src, "libcatnip")]

        def compile(job):
            f, o = job
            trace = COVERAGE if f.startswith(src + os.sep) and not threads else []
            r = subprocess.run(["g++"] + flags + trace + inc + ["-c", f, "-o", o],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise Broken("cannot compile %s\n%s" % (f, r.stdout.decode(errors="replace")[-3000:]))
        with cf.ThreadPoolExecutor(CPUS) as ex:
            list(ex.map(compile, jobs))
        exes = {}
        for n, objs in names.items():
            n += suffix
            exes[n] = self.path(n + ".exe")
            r = subprocess.run(["g++"] + flags + objs + libo + ["-o", exes[n]],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise Broken("cannot link %s\n%s" % (n, r.stdout.decode(errors="replace")[-3000:]))
        for o in glob.glob(self.path("*.o")):
            os.remove(o)
        self.exes = dict(getattr(self, "exes", {}), **exes)
        log("built %s in %.1f s" % (" ".join(exes), time.time() - t))
        return exes

    def _config(self, src):
        """The header that cmake makes from a template."""
        cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
        val = {m.group(1): m.group(2).replace('\\"', '"')
               for m in re.finditer(r'set\s*\(\s*(\w+)\s+("(?:\\.|[^"\\])*"|[^\s)]+)', cm)}
        val = {k: v[1:-1] if v.startswith('"') and v.endswith('"') and len(v) > 1 else v
               for k, v in val.items()}
        f = os.path.join(src, "libcatnip", "calcJconfig.hpp")
        t = open(f + ".in").read()
        t = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda m: val.get(m.group(1) or m.group(2), ""), t)
        t = re.sub(r"#cmakedefine\s+(\w+)", lambda m: "#define " + m.group(1), t)
        open(f, "w").write(t)

    # -- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, mem="2g", timeout=800, extra=()):
        meta = tempfile.mkdtemp(dir=self.tmp)
        e = dict(os.environ)
        e.update(env or {})
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", "-Djava.io.tmpdir=" + self.tmp, gc, "-XX:TieredStopAtLevel=4", "-Xss64m", "-Xmx" + mem, "-cp", CLASSPATH,
               "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
               "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC did not finish %s %s in %d s" % (module, cfg, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout.decode(errors="replace")
        m = None
        for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
            pass
        n = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
        return r.returncode, out, n

    def model(self, module, cfg, env=None, workers=None, mem="6g", timeout=800, min_states=2, extra=()):
        """Checks a design model: it has to hold, whatever the code does."""
        t = time.time()
        rc, out, (gen, dis) = self.tlc(module, cfg, env, workers or CPUS, mem, timeout, extra)
        if rc != 0 or "No error has been found" not in out:
            raise Broken("the model %s (%s) fails\n%s" % (module, cfg, out[-4000:]))
        if dis < min_states:
            raise Broken("the model %s (%s) has only %d states" % (module, cfg, dis))
        self.states += dis
        self.transitions += gen
        self.models.append({"module": module, "config": cfg, "states": dis, "transitions": gen,
                            "wall_s": round(time.time() - t, 1)})
        log("model %s/%s: %d states, %d transitions, %.1f s" % (module, cfg, dis, gen, time.time() - t))
        return out

    def emitted(self, module, cfg, env=None, workers=None, mem="6g", timeout=800, min_states=2):
        """Checks a design model and returns the behaviours it wrote (JSON)."""
        f = self.path("emit_%s_%s" % (module, cfg))
        e = dict(env or {})
        e["EMIT"] = f
        self.model(module, cfg, e, workers, mem, timeout, min_states)
        res = []
        if not os.path.exists(f):
            raise Broken("%s (%s) emitted nothing" % (module, cfg))
        for line in open(f):
            v = json.loads(line)
            res.append(json.loads(v) if isinstance(v, str) else v)
        os.remove(f)
        self.models[-1]["behaviours"] = len(res)
        return res

    @staticmethod
    def shards(n):
        """Into how many processes n cases are divided, case i is run in
        process i % shards after the cases before it."""
        return max(1, min(CPUS, n // 200))

    # -- running the code --------------------------------------------------
    def drive(self, driver, cases, timeout=20, shards=None, cwd=None, coverage=False, groups=None):
        """Runs cases (lists of lists of words) on the real code.  Returns for
        each case the list of outcomes of its calls (shorter than the case
        when the process did not survive it).  groups: pairs of how cases are
        executed together (see runner.cpp) and their indices."""
        t = time.time()
        n = len(cases)
        if shards is None:
            shards = 1 if self.single else min(CPUS, len(groups)) if groups else self.shards(n)
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:" \
                              "alloc_dealloc_mismatch=0:max_malloc_fill_size=100000000:" \
                              "malloc_fill_byte=165:quarantine_size_mb=16:hard_rss_limit_mb=3500:" \
                              "handle_abort=0:disable_coredump=1:symbolize=0"
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:symbolize=0:report_thread_leaks=0"
        env["MALLOC_PERTURB_"] = "165"
        env["LC_ALL"] = "C"
        results = [[] for _ in cases]
        rare = [None] * n
        if coverage:
            env["VERIF_COV"] = "1"

        def part(p):
            f, o = self.path("%s_%d.in" % (driver, p)), self.path("%s_%d.out" % (driver, p))
            with open(f, "w") as w:
                parts = [(None, [c]) for c in range(p, n, shards)] if groups is None else groups[p::shards]
                for how, members in parts:
                    if how:
                        w.write("group %d %s\n" % (len(members), how))
                    for c in members:
                        w.write("case %d\n" % c)
                        for call in cases[c]:
                            w.write(" ".join(call) + "\n")
            r = subprocess.run([self.exes[driver], f, o, str(timeout)], env=env, cwd=cwd or self.tmp,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise Broken("driver %s failed (%d) %s" % (driver, r.returncode, r.stdout[-500:]))
            for line in open(o):
                d = json.loads(line)
                if d["k"] == "cov":
                    rare[d["c"]] = d["f"]
                else:
                    results[d["c"]].append(d)
            os.remove(f)
            os.remove(o)
        with cf.ThreadPoolExecutor(shards) as ex:
            list(ex.map(part, range(shards)))
        if coverage:
            log("explored %d cases with %s, %.1f s" % (n, driver, time.time() - t))
            return rare
        for rs in results:
            for d in rs:
                self.kinds[d["k"]] = self.kinds.get(d["k"], 0) + 1
        log("drove %d cases through %s, %.1f s" % (n, driver, time.time() - t))
        return results

    def guided(self, driver, make, words, always, more, most, cwd=None):
        """Random cases to validate: `always` cases made by make(i) and, of
        `more` others, those that reach what few of the cases reach (places in
        the code, outcomes of comparisons, ...), at most `most`.  A case that
        the process does not survive is selected as well."""
        cases = [make(i) for i in range(always + more)]
        rare = self.drive(driver, [words(x) for x in cases], coverage=True, cwd=cwd)
        keep = self.select(rare, always, most)
        return [cases[i] for i in keep]

    def select(self, rare, always, most):
        """Which cases to keep, given the features of each that few cases had."""
        have, who = {}, {}
        for i, f in enumerate(rare):
            for k in zip(f[::2], f[1::2]) if f else ():
                if i < always:
                    have[k] = have.get(k, 0) + 1
                else:
                    who.setdefault(k, []).append(i)
        chosen = {i for i in range(always, len(rare)) if rare[i] is None}
        chosen = set(sorted(chosen)[:max(10, most // 10)])
        for depth in (1, 3, 8):
            order = sorted(who, key=lambda k: (k[0] in (2, 3), have.get(k, 0) + len(who[k]), k))
            for k in order:
                for i in who[k]:
                    if have.get(k, 0) >= depth or len(chosen) >= most:
                        break
                    if i not in chosen:
                        chosen.add(i)
                        for f in zip(rare[i][::2], rare[i][1::2]):
                            have[f] = have.get(f, 0) + 1
        self.notes.append("%d random cases, and %d selected of %d others by what they reach" % (always, len(chosen), len(rare) - always))
        log(self.notes[-1])
        return list(range(always)) + sorted(chosen)

    # -- trace validation --------------------------------------------------
    def _validate(self, module, traces, env, mem, cfg="Trace.cfg"):
        """One TLC run over the events of several cases.  Returns None when
        all were accepted, otherwise (case index, event index)."""
        f = tempfile.mktemp(dir=self.tmp, suffix=".ndjson")
        n = 0
        with open(f, "w") as w:
            for tr in traces:
                for e in tr:
                    w.write(json.dumps(e, separators=(",", ":")) + "\n")
                    n += 1
        e = dict(env or {})
        e["TRACE"] = f
        rc, out, (gen, dis) = self.tlc(module, cfg, e, 1, mem)
        m = re.search(r'<<"TRACE", (-?\d+), (\d+)>>', out)
        if not m or int(m.group(2)) != n:
            keep = os.path.join(VERIF, "replays", "broken-%s.ndjson" % self.prop)
            os.makedirs(os.path.dirname(keep), exist_ok=True)
            shutil.copy(f, keep)
            k = max(0, out.find("Error:"))
            raise Broken("TLC could not evaluate %s on %s\n%s" % (module, keep, out[k:k + 2000]))
        os.remove(f)
        self.states += dis
        self.transitions += gen
        d = int(m.group(1))
        if d >= n:
            return None
        for c, tr in enumerate(traces):
            if d < len(tr):
                return c, d
            d -= len(tr)
        raise Broken("trace position out of range")

    def validate(self, module, traces, env=None, shards=None, mem="3g", cost=len, rerun=None,
                 describe=None, cfg="Trace.cfg"):
        """Checks the traces of the cases (lists of events each starting
        afresh) against a trace specification.  A rejected case is executed
        again (rerun(indices) gives the new traces of these cases, executed
        one after the other in the same process) and reported only if it is
        rejected again: on its own, or after the cases that had preceded it in
        its process, when the outcome depends on what was done before."""
        t = time.time()
        idx = [i for i, tr in enumerate(traces) if tr]
        nev = sum(len(traces[i]) for i in idx)
        if not idx:
            raise Broken("no traces for " + module)
        if shards is None:
            shards = max(1, min(CPUS, nev // 1500 + 1, len(idx)))
        total = sum(cost(traces[i]) for i in idx) or 1
        groups, acc = [[]], 0
        for i in idx:
            if acc >= total * len(groups) / shards and groups[-1]:
                groups.append([])
            groups[-1].append(i)
            acc += cost(traces[i])
        bad = []

        def run(g):
            # At most two rejections are pursued per group.
            rest = list(g)
            found = []
            while rest and len(found) < 2:
                r = self._validate(module, [traces[i] for i in rest], env, mem, cfg)
                if r is None:
                    self.traces += len(rest)
                    self.events += sum(len(traces[i]) for i in rest)
                    break
                self.traces += r[0]
                found.append((rest[r[0]], r[1]))
                rest = rest[r[0] + 1:]
            return found
        with cf.ThreadPoolExecutor(CPUS) as ex:
            for f in ex.map(run, groups):
                bad += f
        log("validated %d traces, %d events against %s, %.1f s" % (len(idx), nev, module, time.time() - t))
        k = len(idx)
        for i in (idx[0], idx[k // 2], idx[-1]):
            s = json.dumps(traces[i], separators=(",", ":"))
            if len(self.samples) < 6:
                self.samples.append(json.loads(s) if len(s) < 2500 else s[:2500] + "...")
        for i, ev in bad[:4]:
            tr, before = traces[i], 0
            if rerun is not None:
                self.single = True
                tr = rerun([i])[0]
                r = self._validate(module, [tr], env, mem, cfg)
                if r is None:
                    n = self.shards(len(traces))
                    past = list(range(i % n, i + 1, n))[-3000:]
                    tr = rerun(past)[-1]
                    before = len(past) - 1
                    r = self._validate(module, [tr], env, mem, cfg)
                if r is None:
                    self.notes.append("a rejection was not repeated: " + json.dumps(traces[i])[:500])
                    log("NOTE: rejection of a case that is accepted when repeated")
                    continue
                ev = r[1]
                if before:
                    log("NOTE: rejected only after the %d cases that preceded it in the process" % before)
            self.violation({"spec": module, "event": ev, "trace": tr,
                            "rejected": tr[ev] if ev < len(tr) else None, "after": before,
                            "case": describe(i) if describe else None})
        self.single = False
        return not bad

    def violation(self, info):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        info = dict(info)
        info["property"] = self.prop
        info["seed"] = self.seed
        info["tier"] = self.tier
        with open(f, "w") as w:
            json.dump(info, w, indent=1)
        self.violations.append(f)
        log("REJECTED:", json.dumps(info.get("rejected", info))[:1500])

    # -- the end -----------------------------------------------------------
    def finish(self):
        ev = {
            "property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "events_validated": self.events,
                "outcomes": self.kinds,
                "models": self.models,
                "samples": self.samples[:6] or ["none"],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as w:
            json.dump(ev, w, indent=1)
        for f in self.violations:
            log("VIOLATION property=%s replay=%s" % (self.prop, f))
        log("%s %s: %d states, %d traces, %.1f s" % (
            self.prop, "VIOLATED" if self.violations else "holds", self.states, self.traces,
            time.time() - self.t0))
        return 1 if self.violations else 0
