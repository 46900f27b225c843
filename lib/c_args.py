"""C18 (rules), C19 (the generic parser), C14 - C17 (the command line of calc_J)."""
import re

from vlib import enc

RULES = {
    "PROPERTY_INT": ["MIN", "MAX"],
    "PROPERTY_DOUBLE": ["MIN", "MAX"],
    "PROPERTY_STRING": ["MIN_LENGTH", "MAX_LENGTH"],
    "PROPERTY_STRING_CHOICE": ["STRING_CHOICE_ENFORCED", "STRING_CHOICES"],
    "PROPERTY_SWITCH": ["DEFAULT"],
    "PROPERTY_FILE_EXIST": ["FILE_MUST_EXIST", "FILE_DOES_EXIST"],
    "PROPERTY_FILE_EXT": ["ALLOWED_FILE_EXT"],
    "PROPERTY_SISTER_FILE": ["ALLOWED_SISTER_FILE_EXT", "SISTER_FILE_NAME", "SISTER_FILE_PATH",
                             "SISTER_FILE_PATH_NAME", "SISTER_FILE_EXISTS"],
}
ARGS = {
    "ARGUMENT_INT": ["PROPERTY_INT"],
    "ARGUMENT_DOUBLE": ["PROPERTY_DOUBLE"],
    "ARGUMENT_STRING": ["PROPERTY_STRING", "PROPERTY_STRING_CHOICE"],
    "ARGUMENT_SWITCH": ["PROPERTY_SWITCH"],
    "ARGUMENT_FILE": ["PROPERTY_FILE_EXIST", "PROPERTY_FILE_EXT", "PROPERTY_SISTER_FILE"],
}
TYPE = {"PROPERTY_INT": "int", "PROPERTY_DOUBLE": "double", "PROPERTY_STRING": "size",
        "PROPERTY_STRING_CHOICE": "set", "PROPERTY_SWITCH": "string", "PROPERTY_FILE_EXIST": "int",
        "PROPERTY_FILE_EXT": "set", "PROPERTY_SISTER_FILE": "vector"}


class Case(list):
    """Events without their outcomes.  What is sent to the driver is derived
    from them; call() and fill() are given by the kind of event."""

    CALL = {
        "dir": lambda e: ["dir", e["path"]],
        "file": lambda e: ["file", e["path"]],
        "unlink": lambda e: ["unlink", e["path"]],
        "rule": lambda e: ["rule", e["rule"]] + e["val"],
        "rset": lambda e: ["rset", e["type"], e["opt"]] + e["val"],
        "rget": lambda e: ["rget", e["opt"]],
        "rvalid": lambda e: ["rvalid", e["w"]],
        "rpost": lambda e: ["rpost"],
        "swnum": lambda e: ["swnum", e["w"]],
        "swon": lambda e: ["swon", e["w"]],
        "rnames": lambda e: ["rnames"],
        "anames": lambda e: ["anames"],
        "avalues": lambda e: ["avalues"],
        "arg": lambda e: ["arg", e["arg"]],
        "aset": lambda e: ["aset", e["prop"], e["type"], e["opt"]] + e["val"],
        "aget": lambda e: ["aget", e["prop"], e["opt"]],
        "avalid": lambda e: ["avalid", e["w"]],
        "apost": lambda e: ["apost"],
        "parser": lambda e: ["parser"] + [w for f in e["flags"] for w in f + ["\x01"]],
        "add": lambda e: ["add", e["flag"], e["arg"]],
        "set": lambda e: ["set", e["flag"], e["arg"], e["prop"], e["opt"], e["type"]] + e["val"],
        "opt": lambda e: ["opt", e["flag"], e["arg"], e["prop"], e["opt"]],
        "default": lambda e: ["default", e["flag"], e["type"], e["w"]],
        "parse": lambda e: ["parse"] + e["args"],
        "get": lambda e: ["get", e["type"], e["flag"]],
        "post": lambda e: ["post"],
        "line": lambda e: ["line"] + e["args"],
        "pnew": lambda e: ["pnew", str(e["m"])],
        "pset": lambda e: ["pset", str(e["m"]), e["f"], e["w"]],
        "pcopy": lambda e: ["pcopy", str(e["m"]), str(e["n"])],
        "reader": lambda e: ["reader", e["kind"], e["name"]],
        "ext": lambda e: ["ext"],
        "read": lambda e: ["read"],
        "usage": lambda e: [["ownusage" if e["own"] else "usage"], ["line" if e["own"] else "parse"] + e["args"]][e["how"] != "show"],
    }
    # What an event tells besides its outcome, and what it is without one.
    TELLS = {"rnames": {"name": "", "opts": []}, "anames": {"name": "", "rules": [], "opts": [], "takes": -1},
             "avalues": {"opts": [], "vals": []}, "swnum": {"on": -1}, "swon": {"on": -1}, "rget": {"val": []}, "aget": {"val": ""}, "opt": {"val": ""}, "get": {"val": ""},
             "parse": {"printed": []}, "usage": {"lines": []}, "pnew": {"obs": []}, "pset": {"obs": []}, "pcopy": {"obs": []}, "ext": {"val": ""},
             "line": {"printed": [], "files": [], "spins": [], "types": [], "nums": [], "cp": -1}}

    def calls(self):
        return [[enc(w) for w in self.CALL[e["op"]](e)] for e in self]

    def trace(self, outcomes):
        tr = [{"op": "begin"}]
        for e, o in zip(self, outcomes):
            d = dict(e)
            d["out"] = o["k"]
            for k, v in self.TELLS.get(e["op"], {}).items():
                d[k] = (printed(e, o.get("out", "")) if k == "printed" else
                        lines_of(o.get("out", "")) if k == "lines" else o.get(k, v))
            tr.append(d)
        if len(outcomes) > len(self):
            tr[-1]["out"] = outcomes[-1]["k"] + " at the end"
        return tr


def printed(e, out):
    """Which texts appear in what was printed."""
    r = []
    if e.get("usage") and all(w in out for w in e["usage"]):
        r.append("usage")
    if "Citation" in out:
        r.append("citation")
    return r


BLANK = " \t\n\v\f\r"


def lines_of(out):
    """The lines printed, divided into words."""
    return [{"at0": x[:1] not in BLANK if x else False, "words": re.findall("[^%s]+" % BLANK, x)}
            for x in out.split("\n")]


def run_cases(c, cases, module, **kw):
    run = lambda cs: c.drive("args", [x.calls() for x in cs])
    out = run(cases)
    traces = [x.trace(o) for x, o in zip(cases, out)]
    c.validate(module, traces, cost=kw.pop("cost", lambda t: 10 + len(t)),
               rerun=lambda ks: [cases[k].trace(o) for k, o in zip(ks, run([cases[k] for k in ks]))], **kw)


def guided(c, make, always, more, most):
    """Random cases, see Check.guided."""
    k = c.pick(1, 10)
    return c.guided("args", make, Case.calls, k * always, k * more, k * most)


# ---- C18 --------------------------------------------------------------------
FILES = [("file", "a.pun"), ("dir", "d.x"), ("file", "d.x/b.log"), ("file", "d.x/b.pun"), ("file", "c")]
EXTS = [".pun", ".log", ".7", ".orb", ".x", ".tar", ".PUN", "*", "", ".", ".pun2"]
BADEXTS = ["pun", "a.pun", "..", ".a.b", "x.", "d/.pun", "7"]
NAMES = ["a.pun", "d.x/b.log", "d.x/b.pun", "d.x/b.7", "c", "d.x/e", "./a.pun", "pun", ".pun", "d.x/../a.pun",
         "a.pun.log", "a.log", "d.x/b", "d.x/.log", "./c", "../here/a.pun", "@HERE@/d.x/b.orb", "e.", "d.x/c.7",
         "x y.pun", "a.pun2", "", "d.y/b.log", "a.PUN", "d.x//b.log", "d.x/./b.tar"]


def fs_events():
    return [{"op": k, "path": p} for k, p in FILES]


def change(rng, there):
    """A file appears or disappears."""
    p = rng.choice([f for f in ("a.pun", "d.x/b.log", "d.x/b.pun", "c", "a.log", "d.x/b.7", "d.x/e", "pun", ".pun",
                                "a.pun.log", "e.", "d.x/c.7", "d.x/b", "x y.pun", "d.x/b.tar", "z.pun")])
    if p in there:
        there.discard(p)
        return {"op": "unlink", "path": p}
    there.add(p)
    return {"op": "file", "path": p}


def mangled(rng, o):
    """A word that is close to the name of an option."""
    i = rng.randrange(len(o))
    return rng.choice([o[:rng.randint(1, len(o))], o[i:], o[:i] + o[i + 1:], o[:i] + rng.choice("aZ_-1= ") + o[i:],
                       o[:i] + o[i].swapcase() + o[i + 1:], o + rng.choice(["=", "=1", "=ON", " ", "s", "_1", ":"]),
                       o.replace("_", "-") if "_" in o else "-" + o, o.lstrip("-"), "-" + o.lstrip("-"),
                       "--" + o.lstrip("-"), o.upper(), o.replace("-", "/"), " " + o, o + o])


def dec_word(rng):
    if rng.random() < 0.2:
        return rng.choice(["1e-%d" % rng.randint(5, 40), "-%de-%d" % (rng.randint(1, 9), rng.randint(5, 300)),
                           "%d.%012d" % (rng.randint(-3, 3), rng.randint(0, 50)), "1e%d" % rng.randint(5, 300),
                           "0.%014d" % rng.randint(0, 10 ** 6), "1.%014d" % rng.randint(0, 10 ** 14 - 1),
                           str(rng.randint(10 ** 9, 10 ** 15 - 1)), "0.1", "1.0", "1", "1.", ".5", "-.5", "5E-1"])
    return rng.choice(["%d" % rng.randint(-9, 9), "%.1f" % rng.uniform(-5, 5), "%.3f" % rng.uniform(-2, 2),
                       "%de%d" % (rng.randint(-99, 99), rng.randint(-4, 4)), "%.5f" % rng.uniform(-1, 1),
                       "%d" % rng.randint(-10 ** 6, 10 ** 6), "0", "-0", "0.0"])


def int_word(rng):
    return rng.choice([str(rng.randint(-5, 5)), str(rng.randint(-99, 99)), str(rng.randint(-2 ** 31, 2 ** 31 - 1)),
                       "2147483647", "-2147483648", "2147483646", "0"])


def text_word(rng):
    if rng.random() < 0.1:
        return "".join(rng.choice("a=,:/%\\\"'\t*?~#;{}[]()&|<>$!^+@Z") for _ in range(rng.choice([1, 2, 5, 60, 300])))
    return "".join(rng.choice("abAB .-_1") for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 8, 20])))


def solid_word(rng):
    return "".join(rng.choice("abAB.-_1") for _ in range(rng.choice([1, 1, 2, 3, 4, 8])))


def rule_value(rng, r, o, arg):
    """A value the rule's option may be set to, perhaps one it may not."""
    if r == "PROPERTY_INT":
        return [int_word(rng)]
    if r == "PROPERTY_DOUBLE":
        return ["%.3f" % rng.uniform(-3, 3) if rng.random() < 0.7 else "%d" % rng.randint(-1000, 1000)]
    if r == "PROPERTY_STRING":
        return [str(rng.choice([0, 1, 1, 2, 3, 5, 8, 20, 30])) if rng.random() < 0.95 or not arg else "-1"]
    if r == "PROPERTY_STRING_CHOICE":
        if o == "STRING_CHOICE_ENFORCED":
            return rng.choice([["true"], ["true"], ["false"], ["TRUE"], ["yes"], [""], ["true", "false"], ["0", "true"]])
        w = solid_word if arg else text_word
        return sorted({w(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]))})
    if r == "PROPERTY_SWITCH":
        return [rng.choice(["ON", "OFF"])]
    if r == "PROPERTY_FILE_EXIST":
        return [rng.choice("01")]
    ok = [e for e in EXTS if r == "PROPERTY_FILE_EXT" or e not in ("*", "")]
    v = [rng.choice(ok) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.25:
        v[rng.randrange(len(v))] = rng.choice(BADEXTS)
    if r == "PROPERTY_FILE_EXT":
        v = sorted(set(v))
    return v


def near(rng, r, settings):
    """A value close to what the rule is set to."""
    if r == "PROPERTY_INT":
        lim = settings.get("MIN", []) + settings.get("MAX", [])
        if lim and rng.random() < 0.6:
            v = int(rng.choice(lim)) + rng.choice([-1, 0, 1])
            return str(min(max(v, -2 ** 31), 2 ** 31 - 1))
        return int_word(rng)
    if r == "PROPERTY_DOUBLE":
        lim = settings.get("MIN", []) + settings.get("MAX", [])
        if lim and rng.random() < 0.6:
            return "%.6f" % (float(rng.choice(lim)) + rng.choice([-0.000001, 0, 0, 0.000001, 1]))
        return dec_word(rng) if rng.random() < 0.95 else "nan"
    if r == "PROPERTY_STRING":
        lim = settings.get("MIN_LENGTH", []) + settings.get("MAX_LENGTH", [])
        if lim and rng.random() < 0.7:
            return "x" * max(0, int(rng.choice(lim)) + rng.choice([-1, 0, 1]))
        return text_word(rng)
    if r == "PROPERTY_STRING_CHOICE":
        ch = settings.get("STRING_CHOICES", [])
        if ch and rng.random() < 0.7:
            w = rng.choice(ch)
            return rng.choice([w, w, w.upper(), w.lower(), w[:-1], w + "a", w + " "])
        return text_word(rng)
    if r == "PROPERTY_SWITCH":
        return rng.choice(["ON", "OFF", "TRUE", "FALSE", "0", "1", "on", "True", "2", "", "-1", "ONN", "OF", "00", "FALSE "])
    ch = settings.get("ALLOWED_FILE_EXT", []) + settings.get("ALLOWED_SISTER_FILE_EXT", [])
    if ch and rng.random() < 0.3:
        return rng.choice(["a", "d.x/b", "c", "z", "d.x/n.pun"]) + rng.choice(ch).replace("*", ".any")
    return rng.choice(NAMES)


def random_rule(rng, length):
    r = rng.choice(sorted(RULES))
    case = Case(fs_events())
    ctor = []
    if r == "PROPERTY_FILE_EXIST" and rng.random() < 0.3:
        ctor = [rng.choice("01")]
    if r == "PROPERTY_FILE_EXT" and rng.random() < 0.4:
        ctor = rule_value(rng, r, "", False)
    case.append({"op": "rule", "rule": r, "val": ctor})
    if r == "PROPERTY_FILE_EXT" and any(e in BADEXTS for e in ctor):
        return case
    settings, there = {}, {p for k, p in FILES if k == "file"}
    for _ in range(length):
        x = rng.random()
        o = rng.choice(RULES[r])
        if x < 0.15 and "FILE" in r:
            case.append(change(rng, there))
            if rng.random() < 0.5:
                case.append({"op": "rvalid", "w": rng.choice(["", "./", "d.x/../"]) + case[-1]["path"]})
            continue
        if rng.random() < 0.03:
            case.append({"op": "rnames"})
        if x < 0.35:
            if rng.random() < 0.1:
                o = rng.choice(["", "MINIMUM", "min", "MAX_LENGTH_", "DEFAULTS", "ALLOWED_EXT"])
            if o == "FILE_DOES_EXIST":
                o = "FILE_MUST_EXIST"
            v = rule_value(rng, r, o, False)
            t = TYPE[r]
            if len(v) == 1 and t in ("set", "vector") and rng.random() < 0.5:
                t = "string"
            case.append({"op": "rset", "type": t, "opt": o, "val": v})
            settings[o] = v
        elif x < 0.5:
            case.append({"op": "rget", "opt": o if rng.random() < 0.9 else "NO_SUCH"})
        elif x < 0.9 or r != "PROPERTY_FILE_EXIST":
            case.append({"op": "rvalid", "w": near(rng, r, settings)})
        else:
            case.append({"op": "rpost"})
    if r == "PROPERTY_FILE_EXIST":
        case.append({"op": "rpost"})
    return case


def random_arg(rng, length):
    a = rng.choice(sorted(ARGS) + ["ARGUMENT_FILE", "ARGUMENT_STRING"])
    case = Case(fs_events())
    case.append({"op": "arg", "arg": a})
    settings, there = {}, {p for k, p in FILES if k == "file"}
    for _ in range(length):
        x = rng.random()
        r = rng.choice(ARGS[a])
        if x < 0.15 and a == "ARGUMENT_FILE":
            case.append(change(rng, there))
            if rng.random() < 0.5:
                case.append({"op": "avalid", "w": rng.choice(["", "./", "d.x/../"]) + case[-1]["path"]})
            continue
        if rng.random() < 0.05:
            case.append({"op": rng.choice(["anames", "avalues"])})
        if a == "ARGUMENT_SWITCH" and rng.random() < 0.3:
            n = rng.random() < 0.4
            case.append({"op": "swnum" if n else "swon", "w": rng.choice(["0", "1", str(int(int_word(rng)))]) if n else
                         near(rng, "PROPERTY_SWITCH", {})})
        if rng.random() < 0.07:
            r = rng.choice(sorted(RULES) + ["PROPERTY", "property_int", ""])
        o = rng.choice(RULES.get(r, ["MIN"]))
        if x < 0.35:
            if rng.random() < 0.1:
                o = rng.choice(["", "MINIMUM", "min", "MAX_LENGTH_", "DEFAULTS", "ALLOWED_EXT"])
            if o == "FILE_DOES_EXIST":
                o = "FILE_MUST_EXIST"
            v = rule_value(rng, r if r in RULES else "PROPERTY_INT", o, True)
            t = TYPE.get(r, "int")
            t = "int" if t == "size" else t
            if len(v) == 1 and t in ("set", "vector") and rng.random() < 0.5:
                t = "string"
            if rng.random() < 0.07:
                t, v = rng.choice([("int", ["1"]), ("double", ["1.5"]), ("string", [".pun"]), ("set", [".pun"]),
                                   ("vector", [".pun"])])
                if o == "STRING_CHOICE_ENFORCED" and t in ("set", "string"):
                    v = ["true"]
                if r == "PROPERTY_SWITCH":
                    v = ["ON"] if t == "string" else v
            case.append({"op": "aset", "prop": r, "type": t, "opt": o, "val": v})
            if t == TYPE.get(r) or (t, TYPE.get(r)) == ("int", "size"):
                settings.setdefault(r, {})[o] = v
        elif x < 0.5:
            if o.startswith("SISTER") or (o == "ALLOWED_SISTER_FILE_EXT" and rng.random() < 0.5):
                continue
            case.append({"op": "aget", "prop": r, "opt": o if rng.random() < 0.93 else "NO_SUCH"})
        elif x < 0.9:
            k = rng.choice(ARGS[a])
            case.append({"op": "avalid", "w": near(rng, k, settings.get(k, {}))})
        else:
            case.append({"op": "apost"})
    case.append({"op": "apost"})
    return case


def history_case(b, rng):
    """One of the histories TLC enumerated, on the rule itself or through
    the argument it belongs to."""
    r = b["rule"]
    arg = rng.random() < 0.4
    case = Case(fs_events())
    if arg:
        a = next(a for a in ARGS if r in ARGS[a])
        case.append({"op": "arg", "arg": a})
    else:
        case.append({"op": "rule", "rule": r, "val": []})
    for h in b["hist"]:
        if h["k"] == "valid":
            case.append({"op": "avalid" if arg else "rvalid", "w": h["v"][0]})
            continue
        t = TYPE[r]
        if t == "size" and arg:
            t = "int"
        if len(h["v"]) == 1 and t in ("set", "vector") and rng.random() < 0.5:
            t = "string"
        e = {"op": "aset" if arg else "rset", "type": t, "opt": h["o"], "val": h["v"]}
        if arg:
            e["prop"] = r
        case.append(e)
    for o in RULES[r]:
        if arg and not o.startswith("SISTER"):
            case.append({"op": "aget", "prop": r, "opt": o})
        elif not arg:
            case.append({"op": "rget", "opt": o})
    if arg:
        case.append({"op": "anames"})
        case.append({"op": "avalues"})
    else:
        case.append({"op": "rnames"})
    case.append({"op": "apost" if arg else "rpost"})
    return case


def check_C18(c):
    c.build(["args"])
    rng = c.rng
    c.model("MCText", c.pick("MCText.cfg", "MCText_thorough.cfg"), min_states=50000)
    hist = c.emitted("MCRules", c.pick("MCRules.cfg", "MCRules_thorough.cfg"), min_states=2000)
    hist.sort(key=str)
    cases = [history_case(b, rng) for b in hist]
    cases += guided(c, lambda i: (random_rule if i % 2 else random_arg)(rng, rng.randint(3, 25) if i % 40 else c.size(25, 150)), 4000, 40000, 1500)
    c.notes.append("%d histories enumerated by TLC" % len(hist))
    run_cases(c, cases, "TraceRules")


# ---- C14 - C17: the command line of calc_J -----------------------------------
SHORT = {"--pun_P": "-p_P", "--pun_1": "-p_1", "--pun_2": "-p_2", "--log_P": "-l_P", "--log_1": "-l_1",
         "--log_2": "-l_2", "--spin_P": "-s_P", "--spin_1": "-s_1", "--spin_2": "-s_2",
         "--orbital_type_1": "-orb_ty_1", "--orbital_type_2": "-orb_ty_2", "--orbital_num_1": "-orb_num_1",
         "--orbital_num_2": "-orb_num_2", "--counter_poise": "-cp"}
USAGE = sorted(SHORT) + ["--citation", "--version", "--help"]
SWITCH = ["ON", "OFF", "TRUE", "FALSE", "1", "0"]


def line_case(args, files=(), dirs=()):
    return Case([{"op": "dir", "path": d} for d in dirs] + [{"op": "file", "path": f} for f in files] +
                [{"op": "line", "args": args, "usage": USAGE}])


def seg(rng, o, v=None):
    n = o if rng.random() < 0.5 else SHORT[o]
    return [n] if v is None else [n, v]


def names_of_files(rng, blanks=True):
    """The three pairs of files of a run, all there: {role: (pun, log)}, and the directories."""
    dirs = rng.sample(["d", "d.x", "e.log", "u v"] if blanks else ["d", "d.x"], rng.choice([0, 1, 1, 2]))
    bases = ["a", "b", "c", "m.1", "m.2", "x-y", "a.b.c", "-k", "--l", "A"] + (["p q", " r"] if blanks else [])
    res, files = {}, []
    for role in "P12":
        while True:
            d = rng.choice([""] + [x + "/" for x in dirs])
            b = d + rng.choice(bases)
            e = rng.choice([".pun", ".7", ".orb"])
            if b + e not in files and b + ".log" not in files:
                break
        files += [b + e, b + ".log"]
        res[role] = (b + e, b + ".log")
    return res, files, dirs


def naming(rng, pairs):
    """Options that lead to these files."""
    segs = []
    for role, (pun, log) in pairs.items():
        x = rng.random()
        if x < 0.6 or x < 0.8:
            segs.append(seg(rng, "--pun_" + role, pun))
        if x < 0.6 or x >= 0.8:
            segs.append(seg(rng, "--log_" + role, log))
    return segs


def good_segs(rng, n, files=()):
    """Options with valid values; orbital numbers fit the types in the end."""
    segs, typ, num = [], {"1": "HOMO", "2": "HOMO"}, {"1": 0, "2": 0}
    for _ in range(n):
        x = rng.random()
        r = rng.choice("12")
        if x < 0.3:
            segs.append(seg(rng, "--spin_" + rng.choice("P12"), rng.choice(["Alpha", "Beta", "Beta"])))
        elif x < 0.5:
            typ[r] = rng.choice(["HOMO", "LUMO"])
            segs.append(seg(rng, "--orbital_type_" + r, typ[r]))
        elif x < 0.7:
            num[r] = rng.choice([0, 1, 2, -1, -2, -7, 12, 2147483647, -2147483648])
            w = str(num[r])
            if rng.random() < 0.1:
                w = "-00" + w[1:] if w[0] == "-" else "0" + w
            segs.append(seg(rng, "--orbital_num_" + r, w))
        elif x < 0.85:
            segs.append(seg(rng, "--counter_poise", rng.choice(SWITCH + [None, None])))
        elif files and x < 0.95:
            p = [f for f in files if not f.endswith(".log")]
            q = [f for f in files if f.endswith(".log")]
            role = rng.choice("P12")
            segs.append(seg(rng, "--pun_" + role, rng.choice(p)) if rng.random() < 0.5 else
                        seg(rng, "--log_" + role, rng.choice(q)))
    for r in "12":
        if (num[r] > 0 and typ[r] == "HOMO") or (num[r] < 0 and typ[r] == "LUMO"):
            if rng.random() < 0.5:
                segs.append(seg(rng, "--orbital_type_" + r, "HOMO" if num[r] < 0 else "LUMO"))
            else:
                segs.append(seg(rng, "--orbital_num_" + r, "0" if rng.random() < 0.3 else str(-num[r])
                                if abs(num[r]) < 2 ** 31 - 1 else "0"))
    return segs


def mixed(rng, a, b):
    """The segments of a and b, each in their order."""
    marks = [0] * len(a) + [1] * len(b)
    rng.shuffle(marks)
    ia, ib = iter(a), iter(b)
    return [next(ib) if m else next(ia) for m in marks]


def flat(segs):
    return [w for s in segs for w in s]


def run_lines(c, cases):
    run_cases(c, cases, "TraceParser", cfg="Trace.cfg",
              cost=lambda t: 10 + sum(5 + 2 * len(e.get("args", [])) for e in t))


MC_FILES = ["a.pun", "a.log", "b.7", "b.log", "c.orb", "c.log", "b.pun", "e.pun", "e.log"]


def emitted_lines(c, which):
    """The command lines TLC enumerated, of the kinds asked for."""
    got = c.emitted("MCCalcJ", c.pick("MCCalcJ.cfg", "MCCalcJ_thorough.cfg"), min_states=9000)
    got.sort(key=str)
    r = [line_case(b["line"], MC_FILES) for b in got if which(b["kinds"])]
    c.notes.append("%d of the %d command lines enumerated by TLC" % (len(r), len(got)))
    return r


def check_C14(c):
    c.build(["args"])
    rng = c.rng
    cases = emitted_lines(c, lambda k: all(x == "give" for x in k))
    other = []

    def make(i):
        if other:
            return other.pop()
        pairs, files, dirs = names_of_files(rng, rng.random() < 0.3)
        more = good_segs(rng, rng.choice([0, 1, 2, 3, 5, 8, 15]) if i % 100 else c.size(16, 100), files if rng.random() < 0.2 else ())
        if rng.random() < 0.5:
            segs = mixed(rng, naming(rng, pairs), more)
        else:
            segs = more + naming(rng, pairs) if rng.random() < 0.5 else naming(rng, pairs) + more
        # the same options, those of different names in another order
        by = {}
        for s in segs:
            by.setdefault(next((k for k, v in SHORT.items() if v == s[0]), s[0]), []).append(s)
        order = [k for k in by for _ in by[k]]
        rng.shuffle(order)
        its = {k: iter(v) for k, v in by.items()}
        other.append(line_case(flat([next(its[k]) for k in order]), files, dirs))
        return line_case(flat(segs), files, dirs)
    run_lines(c, cases + guided(c, make, 9000, 20000, 1500))


def bad_word(rng, o):
    """A value that option o must not have."""
    if o.startswith("--spin"):
        return rng.choice(["alpha", "ALPHA", "Alphaa", "Alph", "Beta ", " Beta", "beta", "both", "", "A", "AlphaBeta",
                           "Alpha,Beta", "HOMO", "0", "--spin_P", "-s_2", "-h", "--counter_poise"])
    if o.startswith("--orbital_type"):
        return rng.choice(["homo", "Lumo", "HOMO-1", "LUMO+1", "HOM", "HOMOO", "SOMO", "", "0", "Alpha", "HOMO ",
                           "-orb_ty_1", "--help"])
    if o.startswith("--orbital_num"):
        return rng.choice(["1x", "x", "", "1.0", "0.5", "1e0", "-", "--1", "1-", "2147483648", "-2147483649",
                           "99999999999", "-99999999999999999999", "0x", "1,0", "1 ", "0 1", "HOMO", "-orb_num_2", "-v",
                           "4294967296", "-4294967296", "4294967295"])
    if o == "--counter_poise":
        return rng.choice(["on", "off", "On", "true", "True", "2", "-1", "00", "01", "ONN", "YES", "", "ON ", " 1",
                           "x", "a.pun"])
    if o.startswith("--pun"):
        return rng.choice(["a", "a.log", "a.PUN", "a.puns", "a.pu", ".a", "pun", "a.pun ", "a.pun.gz", "a.77", "7", "a.",
                           "a.orb~", "a.pun/b", "d.7/", "", "a.7.log", "a.orb.", "--log_1", "a.*", "*"])
    return rng.choice(["a", "a.pun", "a.LOG", "a.logs", "a.lo", "log", "a.log ", "a.log.gz", "a.log/b", "", "a.7",
                       "a.log.7", "a.log.", "-p_1", "a.out", "*"])


def known_words(c):
    """Words the code mentions that are no options of every parser."""
    return [w for w in c.literals()[0] if re.match(r"^-{0,2}[A-Za-z][\w.=-]*$", w) and "version" not in w.lower() and
            w not in HELP]


def check_C15(c):
    c.build(["args"])
    rng = c.rng
    known = known_words(c)
    cases = emitted_lines(c, lambda k: "bad" in k and "help" not in k and "version" not in k)

    def make(i):
        pairs, files, dirs = names_of_files(rng, rng.random() < 0.3)
        segs = mixed(rng, naming(rng, pairs), good_segs(rng, rng.choice([0, 0, 1, 2, 4])))
        x = rng.random()
        if x < 0.55:
            o = rng.choice(sorted(SHORT) + ["--orbital_num_1", "--orbital_num_2"])
            bad = seg(rng, o, bad_word(rng, o) if rng.random() < 0.85 else rng.choice(known))
        elif x < 0.57:
            bad = [rng.choice(known)]
        elif x < 0.75:
            o = rng.choice(sorted(SHORT) + sorted(SHORT.values()))
            bad = [rng.choice([o + "x", o[:-1], o[1:], o.upper() if o.upper() != o else o + "_", "-" + o, o + "=Alpha",
                               "", " ", "-", "--", "a.pun", "a.log", "Alpha", "0", "ON", "-x", "--unknown", "--pun",
                               "--spin_3", "-l", "NO_SHORT_FLAG_SPECIFIED", "NO_FLAG_SPECIFIED", " -cp", "-cp "] +
                              [mangled(rng, o)] * 20)]
            if rng.random() < 0.4:
                bad.append(rng.choice(["Alpha", "0", "a.pun", "HOMO", "a.log"]))
        elif x < 0.87:
            # numbers and types that do not fit together in the end
            r = rng.choice("12")
            t = rng.choice(["HOMO", "LUMO"])
            n = seg(rng, "--orbital_num_" + r, rng.choice(["1", "2", "2147483647"] if t == "HOMO" else
                                                          ["-1", "-2", "-2147483648"]))
            tail = [n, seg(rng, "--orbital_type_" + r, t)]
            rng.shuffle(tail)
            if rng.random() < 0.3:
                segs = [s for s in segs if s[0] not in ("--orbital_type_" + r, SHORT["--orbital_type_" + r])]
                tail = [n]
            segs = mixed(rng, segs, [])
            # behind what was given before for the same option
            segs = segs + tail if rng.random() < 0.5 else \
                mixed(rng, [s for s in segs if s[0] not in [t[0] for t in tail] and
                            not s[0].startswith(("--orbital", "-orb"))], tail)
            return line_case(flat(segs), files, dirs)
        else:
            o = rng.choice(sorted(k for k in SHORT if k != "--counter_poise"))
            return line_case(flat(segs + [seg(rng, o)]), files, dirs)
        i = rng.randrange(len(segs) + 1)
        return line_case(flat(segs[:i] + [bad] + segs[i:]), files, dirs)
    run_lines(c, cases + guided(c, make, 7000, 20000, 1500))


HELP = ["--help", "-h", "--citation", "-cite"]


def check_C16(c):
    c.build(["args"])
    rng = c.rng
    cases = emitted_lines(c, lambda k: "help" in k or "version" in k)
    cases.append(line_case([]))
    for n in range(1, 6):
        for _ in range(c.pick(60, 300)):
            cases.append(line_case([rng.choice(HELP) for _ in range(n)], rng.choice([[], MC_FILES])))

    def make(i):
        pairs, files, dirs = names_of_files(rng, rng.random() < 0.3)
        segs = mixed(rng, naming(rng, pairs), good_segs(rng, rng.choice([0, 0, 1, 2, 4])))
        x = rng.random()
        if x < 0.25:                        # something wrong as well
            o = rng.choice(sorted(SHORT))
            segs.insert(rng.randrange(len(segs) + 1), seg(rng, o, bad_word(rng, o)))
        elif x < 0.35:
            segs.append(seg(rng, rng.choice(sorted(SHORT))))
        for _ in range(rng.choice([1, 1, 2, 3, 5, 12])):
            segs.insert(rng.randrange(len(segs) + 1), [rng.choice(HELP)])
        if rng.random() < 0.3:
            segs.insert(rng.randrange(len(segs) + 1), [rng.choice(["--version", "-v"])])
        if rng.random() < 0.05:
            segs = [s for s in segs if s[0] in HELP + ["--version", "-v"]]
        return line_case(flat(segs), files, dirs)
    run_lines(c, cases + guided(c, make, 5000, 14000, 1000))


def twisted(rng, f, dirs):
    """Another name of the same file."""
    d = [x for x in dirs if " " not in x or True]
    x = rng.random()
    if x < 0.5:
        return f
    if x < 0.6:
        return "./" + f
    if x < 0.7:
        return "../here/" + f
    if x < 0.8:
        return "@HERE@/" + f
    if x < 0.9 and d:
        return rng.choice(d) + "/../" + f
    return f.replace("/", "//") if "/" in f else ".//" + f


def check_C17(c):
    c.build(["args"])
    rng = c.rng
    got = c.emitted("MCRoles", c.pick("MCRoles.cfg", "MCRoles_thorough.cfg"), min_states=9000)
    got.sort(key=str)
    cases = [line_case(b["line"], sorted(b["files"]), ["a b"]) for b in got]
    if c.quick:
        cases = rng.sample(cases, 5000)
    c.notes.append("%d of %d choices of names and files enumerated by TLC" % (len(cases), len(got)))

    def make(i):
        dirs = rng.sample(["d", "d.x", "e.log", "u v", "w.", ".s", "d d.pun"], rng.choice([0, 1, 2, 3]))
        stems = rng.sample(["a", "b", "m.1", "m.2", "a.b", "p q", " r", "-k", "A", "m", "a.pun", "a.log", "true",
                            "x true", ".h", "b  c", "q.7", "n" * c.size(8, 150), "k." * c.size(4, 60) + "z"], rng.choice([1, 2, 3, 4]))
        every = [d + s for d in [""] + [x + "/" for x in dirs] for s in stems]
        files = set()
        for s in every:
            for e in (".pun", ".7", ".orb", ".log", ".PUN", ""):
                if rng.random() < (0.5 if e in (".pun", ".7", ".orb", ".log") else 0.05):
                    files.add(s + e)
        files = {f for f in files if f not in dirs}
        segs = []
        for role in "P12":
            s = rng.choice(every)
            pun = s + rng.choice([".pun", ".7", ".orb"])
            log = (s if rng.random() < 0.5 else rng.choice(every)) + ".log"
            x = rng.random()
            # mostly names that lead to a pair
            if rng.random() < 0.85:
                y = rng.random()
                if y < 0.5 or x >= 0.75:
                    files.add(log)
                if y >= 0.3 or x < 0.5:
                    files.add(pun)
                if x < 0.5:
                    files.add(s + ".log")
                elif x >= 0.75:
                    files.add(log[:-4] + rng.choice([".pun", ".7", ".orb"]))
            if x < 0.75:
                segs.append(seg(rng, "--pun_" + role, twisted(rng, pun, dirs)))
            if x < 0.25 or x >= 0.5:
                segs.append(seg(rng, "--log_" + role, twisted(rng, log, dirs)))
        rng.shuffle(segs)
        files = {f for f in files if f not in dirs}
        return line_case(flat(segs), sorted(files), sorted(dirs))
    run_lines(c, cases + guided(c, make, 5000, 13000, 1000))


# ---- C19: any declared options -------------------------------------------------
KIND_RULES = {"ARGUMENT_INT": ("int", "int"), "ARGUMENT_DOUBLE": ("double", "double"),
              "ARGUMENT_STRING": ("string", "string"), "ARGUMENT_FILE": ("string", "string"),
              "ARGUMENT_SWITCH": ("string", "int"), "": ("size", "size")}
LONGS = ["--a", "--ab", "--abc", "--num", "--number", "--na-me", "--x_1", "--x_2", "--file", "--", "---z", "--A",
         "--help2", "--1", "--colour", "--col", "--maximum_size", "--max", "--verbose-mode"]
SHORTS = ["-a", "-ab", "-n", "-N", "-x1", "-x_2", "-f", "-", "-1", "-hh", "-q"]
DESCS = ["what it is", "x", "a longer text about this option and how to use it in a sentence that needs two lines of it"]


def option_value(rng, kind, settings, longs, shorts):
    r = rng.choice(ARGS[kind])
    v = near(rng, r, settings.get(r, {})) if kind != "ARGUMENT_FILE" or rng.random() < 0.4 else \
        rng.choice(["a.pun", "d.x/b.log", "c", "./a.pun"])
    if rng.random() < 0.06:
        v = rng.choice(longs + shorts + ["--zz", "-zz", "", "x", "--help", "1.5", "1x", "ON"])
    return v


def random_parser(rng, known, large=False):
    case = Case(fs_events())
    n = rng.choice([1, 2, 3, 4, 6])
    longs = rng.sample(LONGS, n)
    shorts = rng.sample(SHORTS, n)
    if large:
        n = rng.choice([9, 12, 20, 33, 50])
        longs = ["--o%d%s" % (k, rng.choice(["", "x", "-y"])) for k in rng.sample(range(200), n)]
        shorts = ["-o%d" % k for k in rng.sample(range(200), n)]
    flags, names = [], []
    for lo, sh in zip(longs, shorts):
        f = [lo]
        has = rng.random() < 0.7
        if has:
            f.append(sh)
        if rng.random() < 0.5:
            f.append(rng.choice(DESCS))
        rng.shuffle(f)
        if rng.random() < 0.1:
            f = [rng.choice(["", " ", "   "]) + w + rng.choice(["", " ", "  "]) for w in f]
        flags.append(f)
        names.append((lo, [lo, sh] if has else [lo]))
    cite = rng.random() < 0.3
    if cite:
        flags.append(["--citation", "-cite"])
    vers = rng.random() < 0.3
    if vers:
        flags.append(["--version", "-V"] if rng.random() < 0.6 else ["--version"])
    rng.shuffle(flags)
    if rng.random() < 0.12:
        bad = rng.choice([["-w"], ["text"], ["-w", "text"], ["--w", "--ww"], ["--w", "-w", "-ww"], ["-w", "-ww"],
                          ["--w", "--w"], ["--w", "text", "--ww"], ["-w", "--w", "-ww"], [""], ["--w", "text", "more"],
                          ["--w", "-w", "text", "more"], ["--w", " -w", "-ww "], ["text", " --w", "  --ww"], [" -w "]])
        case.append({"op": "parser", "flags": flags + [bad]})
    case.append({"op": "parser", "flags": flags})
    usage = longs + ["--help"] + (["--citation"] if cite else []) + (["--version"] if vers else [])

    kinds, settings = {}, {}
    for lo, ws in names:
        k = rng.choice(sorted(ARGS) + sorted(ARGS) + [""])
        kinds[lo] = k
        settings[lo] = {}
        if not k:
            if rng.random() < 0.5:
                case.append({"op": "default", "flag": lo, "type": "size", "w": str(rng.choice([rng.randint(0, 10 ** 9), rng.randint(0, 2 ** 64 - 1), 2 ** 32, 2 ** 64 - 1, 2 ** 31]))})
            continue
        if rng.random() < 0.5:
            case.append({"op": "add", "flag": lo, "arg": k})
            if rng.random() < 0.15:
                case.append({"op": "add", "flag": lo, "arg": k})
            first = False
        else:
            first = True
        if rng.random() < 0.03:
            case.append({"op": "add", "flag": lo, "arg": rng.choice(["ARGUMENT", "INT", "", "argument_int"])})
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if not first else rng.choice([1, 1, 2, 3])):
            r = rng.choice(ARGS[k])
            o = rng.choice(RULES[r])
            if o == "FILE_DOES_EXIST" or o.startswith("SISTER"):
                continue
            t = TYPE[r]
            v = rule_value(rng, r, o, True)
            if t == "size":
                t = "int"
            if r == "PROPERTY_FILE_EXIST" and rng.random() < 0.5:
                v = ["0"]
            if t in ("set", "vector") and len(v) == 1 and rng.random() < 0.5:
                t = "string"
            if rng.random() < 0.04:
                r = rng.choice(sorted(RULES))
            if rng.random() < 0.04:
                o = rng.choice(["MINI", "", "MAX", "DEFAULT", "ALLOWED_FILE_EXT"])
            bad = r not in ARGS[k] or o not in RULES[r]
            case.append({"op": "set", "flag": lo, "arg": k, "prop": r, "opt": o, "type": t, "val": v})
            if not bad:
                settings[lo].setdefault(r, {})[o] = v
        if first:           # in case every setting was refused
            case.append({"op": "add", "flag": lo, "arg": k})
        if rng.random() < 0.5:
            t = KIND_RULES[k][0]
            v = {"int": int_word, "double": dec_word, "string": text_word}[t](rng) if k != "ARGUMENT_SWITCH" else ""
            if k == "ARGUMENT_SWITCH":
                t, v = rng.choice([("string", "ON"), ("string", "OFF"), ("string", "TRUE"), ("string", "0"),
                                   ("int", "1"), ("int", "0")])
            case.append({"op": "default", "flag": lo, "type": t, "w": v})
        if rng.random() < 0.3:
            r = rng.choice(ARGS[k])
            for o in RULES[r]:
                if not o.startswith("SISTER"):
                    case.append({"op": "opt", "flag": lo, "arg": k, "prop": r, "opt": o})

    def gets():
        for lo, ws in names:
            case.append({"op": "get", "type": KIND_RULES[kinds[lo]][1], "flag": lo})
        if rng.random() < 0.2:
            case.append({"op": "get", "type": rng.choice(["int", "double", "string", "size"]), "flag": "--zz"})

    if rng.random() < 0.5:
        gets()
    usable = [(lo, ws) for lo, ws in names if kinds[lo]]
    parses = rng.choice([1, 1, 2, 3])
    there = True
    for i in range(parses):
        args = []
        for _ in range(rng.choice([1, 1, 2, 3, 5, 9])):
            if not usable or rng.random() < 0.02:
                args.append(rng.choice(["--zz", "-zz", "x", "", "NO_SHORT_FLAG_SPECIFIED", "a.pun"] + longs +
                                       [rng.choice(known)] * 10))
                continue
            lo, ws = rng.choice(usable)
            w = rng.choice(ws)
            args.append(mangled(rng, w) if rng.random() < 0.04 else w)
            if kinds[lo] == "ARGUMENT_SWITCH" and rng.random() < 0.5:
                pass
            else:
                args.append(option_value(rng, kinds[lo], settings[lo], longs, shorts))
            if rng.random() < 0.07:
                args.append("--help" if rng.random() < 0.5 else "-h")
            if cite and rng.random() < 0.07:
                args.append(rng.choice(["--citation", "-cite"]))
        if rng.random() < 0.05:
            args.append(rng.choice(longs + shorts))
        if vers and i == parses - 1 and rng.random() < 0.15:
            args.insert(rng.randrange(len(args) + 1), "--version")
        if rng.random() < 0.03:
            args = []
        if not cite:
            args = [a for a in args if a not in ("--citation", "-cite")]
        case.append({"op": "parse", "args": args, "usage": usage})
        gets()
        if rng.random() < 0.2:
            case.append({"op": "post"})
        if rng.random() < 0.3:
            case.append({"op": "unlink" if there else "file", "path": "a.pun"})
            there = not there
    return case


# ---- C25: the list of the options ------------------------------------------------
def usage_word(rng):
    x = rng.random()
    if x < 0.7:
        return "".join(rng.choice("abcdefgxyz") for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12])))
    if x < 0.8:
        return "".join(rng.choice("abc") for _ in range(rng.randint(20, 90)))
    if x < 0.9:
        return rng.choice(["-", "--", "--ab", "-x", "--help", "Options:", ".", "(HOMO)", "0", "1/2", "%s", "%d%n", "\\n", "a\"b",
                           "NO_DESCRIPTION_GIVEN", "NO_SHORT_FLAG_SPECIFIED", "Usage:"])
    return "".join(rng.choice("aZ09.,:;()[]{}<>=+*/_-!?'\"#$%&@^`|~") for _ in range(rng.randint(1, 12)))


def described(rng, most):
    """A description; it does not begin like a name."""
    ws = [usage_word(rng) for _ in range(rng.choice([0, 1, 2, 3, 8, 12, 20, most]))]
    if rng.random() < 0.2:      # words that fill lines
        ws = [rng.choice("abc") * n for n in rng.choice([[68, 1], [34, 34, 1], [33, 35], [23, 22, 22, 1, 30], [69], [70], [200, 3]])]
    while ws and ws[0].startswith("-"):
        ws.pop(0)
    gap = lambda: rng.choice([" "] * 12 + ["  ", "\n", "\t", " \n  ", "   "])
    return "".join(w + gap() for w in ws).rstrip() if rng.random() < 0.8 else "".join(w + gap() for w in ws)


def usage_case(rng, flags, large=False):
    case = Case([{"op": "parser", "flags": flags}])
    how = rng.choice(["show", "show", "empty", "help"])
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        case.append({"op": "usage", "own": False, "how": "show", "args": []})
    if how != "show":
        case.append({"op": "usage", "own": False, "how": how,
                     "args": [] if how == "empty" else [rng.choice(["--help", "-h"])]})
    return case


def random_usage(rng, large):
    n = rng.choice([0, 1, 1, 2, 3, 5, 9]) if not large else rng.choice([20, 40, 80])
    used, flags = {"--help"}, []
    for _ in range(n):
        while True:
            k = rng.choice([1, 1, 2, 3, 5, 8, 12, 20, 40] if rng.random() < 0.95 else [60, 66, 67, 68, 69, 70, 71, 72, 74, 75, 76, 77, 78, 79, 80, 100])
            lo = "--" + "".join(rng.choice("abcdefghij_-0123XYZ") for _ in range(k))
            if lo not in used:
                break
        used.add(lo)
        f = [lo]
        if rng.random() < 0.7:
            s = rng.choice(["-" + "".join(rng.choice("abcxyz012_") for _ in range(rng.choice([1, 1, 2, 4, 9, 30])))] * 6 +
                           ["-NO_SHORT_FLAG_SPECIFIED", "-"])
            f.append(s)
        if rng.random() < 0.85:
            f.append(described(rng, 60 if large else 30))
        rng.shuffle(f)
        if rng.random() < 0.15:
            f = [rng.choice(["", " ", "   "]) + w + rng.choice(["", " ", "  "]) for w in f]
        flags.append(f)
    return usage_case(rng, flags)


def check_C25(c):
    c.build(["args"])
    rng = c.rng
    c.model("MCUsage", "MCUsage_short.cfg", min_states=500)
    got = c.emitted("MCUsage", c.pick("MCUsage.cfg", "MCUsage_thorough.cfg"), min_states=3000)
    got.sort(key=str)
    cases = [usage_case(rng, f) for f in got]
    c.notes.append("%d sets of options enumerated by TLC" % len(got))
    for how, args in (("show", []), ("empty", []), ("help", ["--help"]), ("help", ["-h"])):
        cases.append(Case([{"op": "usage", "own": True, "how": how, "args": args}]))
    cases += guided(c, lambda i: random_usage(rng, i % 50 == 49), 2500, 8000, 800)
    run_cases(c, cases, "TraceParser", cfg="Trace.cfg",
              cost=lambda t: 10 + sum(5 + sum(1 + len(x["words"]) for x in e.get("lines", [])) for e in t))


# ---- C26, C27: parameters and readers ----------------------------------------------
SLOT_FIELDS = [f + s for f in ("log", "pun", "spin", "type", "num") for s in "P12"] + ["cp", "cite"]
BASES = ["a", "d/b", "d.log/c", "./x", "../x.y", "/abs/p", "a.log", "a.pun", ".h", "p q", "", "d.7/", " r", "A.7.orb", "x" * 200,
         "log", "7"]
ENDS = [".log"] * 8 + [".pun"] * 4 + [".7"] * 3 + [".orb"] * 3 + [".LOG", ".logs", ".lo", "", ".", "log", ".log~", ".7.gz",
        ".pu", ".77", ".PUN", ".log.log", "..log", ".orb.", "/", "7", ".log/", ".*", ".7z"]


def param_value(rng, f):
    if f[:3] in ("log", "pun"):
        return rng.choice(BASES) + rng.choice(ENDS)
    if f[:3] == "num":
        return int_word(rng).replace("-0", "0") if rng.random() < 0.5 else str(rng.randint(-9, 9))
    if f in ("cp", "cite"):
        return rng.choice("01")
    return rng.choice(["Alpha", "Beta", "HOMO", "LUMO", "alpha", "", text_word(rng), "ALPHA"])


def random_params(rng, n):
    case = Case([])
    for _ in range(n):
        x = rng.random()
        if x < 0.9:
            f = rng.choice(SLOT_FIELDS)
            case.append({"op": "pset", "m": rng.randint(1, 2), "n": 1, "f": f, "w": param_value(rng, f)})
        elif x < 0.97:
            case.append({"op": "pcopy", "m": rng.randint(1, 2), "n": rng.randint(1, 2), "f": "", "w": ""})
        else:
            case.append({"op": "pnew", "m": rng.randint(1, 2), "n": 1, "f": "", "w": ""})
    return case


def check_C26(c):
    c.build(["args"])
    rng = c.rng
    got = c.emitted("MCParams", c.pick("MCParams.cfg", "MCParams_thorough.cfg"), min_states=4000)
    got.sort(key=str)
    if len(got) > 30000:
        got = rng.sample(got, 30000)
    cases = [Case([{"op": "pnew", "m": 2, "n": 1, "f": "", "w": ""}] + [{k: h[k] for k in ("op", "m", "n", "f", "w")} for h in b])
             for b in got]
    c.notes.append("%d histories enumerated by TLC" % len(cases))
    cases += guided(c, lambda i: random_params(rng, rng.choice([1, 2, 5, 10, 25]) if i % 40 else c.size(40, 200)), 3000, 6000, 500)
    run_cases(c, cases, "TraceParams")


def reader_dirs(name):
    """The directories a name goes through, from the directory of the case."""
    r, at = [], []
    for p in name.split("/")[:-1]:
        if p == "..":
            at = at[:-1]
        elif p not in ("", "."):
            at.append(p)
            if "/".join(at) not in r:
                r.append("/".join(at))
    return r


def reader_case(kind, name, hist):
    case = Case([{"op": "dir", "path": d} for d in reader_dirs(name)])
    real = name.split("/")[-1] not in ("", ".", "..")
    if kind == "any" and not real:
        return case             # a directory
    there = hist[0] == "file" and real
    if there:
        case.append({"op": "file", "path": name})
    for h in hist[1:]:
        if h == "make":
            case.append({"op": "reader", "kind": kind, "name": name})
            case.append({"op": "ext"})
        elif h == "read":
            case.append({"op": "read"})
        elif real:
            case.append({"op": "unlink" if there else "file", "path": name})
            there = not there
    return case


def random_reader(rng):
    name = rng.choice(["", "", "d/", "d.log/", "./", "d.7/../", "d/e.pun/", "d//", ".h/", "d.log/../d.log/"]) + \
        rng.choice(["a", "", "a.log", ".h", "p q", " r", "b.7.orb", "x" * 100, "log", "7", "m.1", "..", "-k", "a."]) + \
        rng.choice([e for e in ENDS if "/" not in e])
    hist = [rng.choice(["file", "none"]), "make"]
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        hist.append(rng.choice(["read", "read", "toggle"]))
    if rng.random() < 0.2:
        hist.insert(1, "toggle")
    return reader_case(rng.choice(["log", "pun", "any"]), name, hist)


def check_C27(c):
    c.build(["args"])
    rng = c.rng
    got = c.emitted("MCReaders", c.pick("MCReaders.cfg", "MCReaders_thorough.cfg"), min_states=15000)
    got.sort(key=str)
    cases = [reader_case(b["kind"], b["name"], b["hist"]) for b in got]
    c.notes.append("%d histories enumerated by TLC" % len(cases))
    cases += guided(c, lambda i: random_reader(rng), 4000, 6000, 500)
    cases = [x for x in cases if any(e["op"] == "reader" for e in x)]
    run_cases(c, cases, "TraceParams")


SMALL = [{"op": "parser", "flags": [["--num", "-n"], ["--name"], ["--sw", "-s"], ["--bare", "-b"], ["--file", "-f"],
                                    ["--version", "-V"], ["--citation", "-cite"]]},
         {"op": "add", "flag": "--num", "arg": "ARGUMENT_INT"},
         {"op": "set", "flag": "--num", "arg": "ARGUMENT_INT", "prop": "PROPERTY_INT", "opt": "MAX", "type": "int",
          "val": ["5"]},
         {"op": "add", "flag": "--name", "arg": "ARGUMENT_STRING"},
         {"op": "add", "flag": "--sw", "arg": "ARGUMENT_SWITCH"}]
SMALL_USAGE = ["--num", "--name", "--sw", "--bare", "--file", "--version", "--citation", "--help"]


def small_case(line, defaults):
    case = Case([{"op": "file", "path": "a.f"}] + SMALL)
    if defaults:
        case.append({"op": "set", "flag": "--file", "arg": "ARGUMENT_FILE", "prop": "PROPERTY_FILE_EXIST",
                     "opt": "FILE_MUST_EXIST", "type": "int", "val": ["1"]})
        case += [{"op": "default", "flag": "--num", "type": "int", "w": "3"},
                 {"op": "default", "flag": "--name", "type": "string", "w": "d"},
                 {"op": "default", "flag": "--sw", "type": "string", "w": "ON"}]
    else:
        case.append({"op": "default", "flag": "--sw", "type": "string", "w": "OFF"})
    case.append({"op": "parse", "args": line, "usage": SMALL_USAGE})
    for t, n in (("int", "--num"), ("string", "--name"), ("int", "--sw"), ("string", "--bare"), ("string", "--file")):
        case.append({"op": "get", "type": t, "flag": n})
    return case


def check_C19(c):
    c.build(["args"])
    rng = c.rng
    known = [w for w in known_words(c) if w not in ("-v", "-V")]
    cases = []
    for cfg, defaults in (("MCCmdLine", True), ("MCCmdLine_plain", False)):
        got = c.emitted("MCCmdLine", cfg + c.pick(".cfg", "_thorough.cfg"), min_states=50000)
        got.sort(key=str)
        cases += [small_case(b["line"], defaults) for b in got]
    c.notes.append("%d command lines of a small parser, enumerated by TLC" % len(cases))
    cases += guided(c, lambda i: random_parser(rng, known, i % 60 == 13), 4000, 25000, 1500)
    run_lines(c, cases)
