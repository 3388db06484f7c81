"""C23: declarations of a command line and its help text."""
from ..core import pmap, run_harness
from ..gen import codes, hexs
from ..tool import Runner
from .cmdline import INTS, RANGE, TOOL_OPTS, text_for, tok_ok

TYPES = INTS + ["bool", "bool", "string", "string", "float", "double"]
NAMES = ["a", "b", "ab", "aa", "B", "number", "num", "help", "helper", "no-num", "z", "Z", "0", "\xe9", "x_y", "a" * 30, "A long name", "hel", "Help",
         "o" * 63, "p" * 100, "long-" * 60]
HELPS = ["", "help", "a text", "A longer description (with = signs), \"quotes\" : colons.", "\xe9t\xe9", "x"]


def script(c):
    out = ["help %s %s" % (hexs(bytes(c["prog"])), hexs(bytes(c["desc"])))]
    out += ["decl %s %s %s %s %s" % (m["kind"], hexs(bytes(m["n"])), hexs(bytes(m["h"])), m["t"], hexs(bytes(m["v"]))) for m in c["hist"]]
    out += ["tok " + hexs(bytes(t)) for t in c["argv"]]
    return "\n".join(out)


def split(text):
    """Lines without the final line end(s): on request one more is printed."""
    s = bytes(text)
    lines = s.split(b"\n")
    while lines and lines[-1] == b"":
        lines.pop()
    return [list(x) for x in lines]


def runner(exe):
    def run(cases):
        recs = []
        for c, o in zip(cases, run_harness(exe, [script(c) for c in cases], timeout=200)):
            if "st" not in o:
                recs.append({"crash": str(o)[:300]})
            elif o["st"] == "help" and o["status"] != 0:
                recs.append({"crash": "asking for help ends with status %d" % o["status"]})
            else:
                recs.append(dict(c, ans=o["ans"], st=o["st"], lines=split(o["text"])))
        return recs
    return run


def gen_case(rng):
    hist = []
    names = rng.sample(NAMES, rng.randint(1, 7))
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12])):
        t = rng.choice(TYPES)
        if t == "bool":
            v = rng.choice(["true", "false"])
        elif t == "string":
            v = rng.choice(["", "v", "a b", "\"", "\xe9"])
        elif t in ("float", "double"):
            v = "0"
        else:
            lo, hi = RANGE[t]
            v = str(rng.choice([0, 1, 7, 65, 10, lo, hi, rng.randint(lo, hi)]))
        hist.append({"kind": rng.choice(["opt", "opt", "opt", "arg", "oarg"]), "n": codes(rng.choice(names)), "h": codes(rng.choice(HELPS)), "t": t, "v": codes(v)})
    argv = []
    if rng.random() < 0.5:
        seen = []
        for m in hist:
            if m["kind"] == "opt" and m["n"] not in [x["n"] for x in seen] and m["n"] != codes("help"):
                seen.append(m)
        for m in rng.sample(seen, rng.randint(0, len(seen))):
            s = text_for(rng, m["t"], False)
            for _ in range(50):
                if all(tok_ok(x["t"], s) for x in [m]) and (m["t"] != "bool" or s != "") and not s.startswith("-") and "\n" not in s:
                    break
                s = text_for(rng, m["t"], False)
            else:
                continue
            argv += ["--" + bytes(m["n"]).decode("latin-1"), s]
        if rng.random() < 0.7:
            argv.insert(rng.choice([0, len(argv)]), "--help")
    return {"hist": hist, "argv": [codes(a) for a in argv], "prog": codes(rng.choice(["p", "prog", "./a b", ""])), "desc": codes(rng.choice(["", "d", "Some text. More."]))}


DEFAULTS = {"collapse_matches": "true", "interpolated_precision": "true", "trapezoid_integral": "true", "bootstrap_ci_gap": "false", "bootstrap_ci_map": "false",
            "bootstrap_ci_gndcg": "false", "bootstrap_ci_mndcg": "false", "bootstrap_samples": "10000", "bootstrap_seed": "74565", "bootstrap_alpha": "",
            "sort": "desc", "rp_curve_samples": "10000"}
TOOL_HIST = [{"kind": "opt", "n": codes(n), "h": [], "t": t, "v": codes(DEFAULTS.get(n, ""))} for n, t in TOOL_OPTS] \
    + [{"kind": "arg", "n": codes("references"), "h": [], "t": "string", "v": []}, {"kind": "oarg", "n": codes("hypotheses"), "h": [], "t": "string", "v": []}]
VALUES = {"bool": ["true", "false", "1", "0"], "u64": ["0", "7", "+12", "007", "18446744073709551615"], "double": ["0.5", "1", "0"], "string": ["asc", "x y", "", "none"]}


def tool_case(rng):
    argv = []
    for n, t in rng.sample(TOOL_OPTS, rng.choice([0, 0, 1, 2, 5, len(TOOL_OPTS)])):
        argv += ["--" + n] + ([] if t == "bool" and rng.random() < 0.3 else [rng.choice(VALUES[t])])
    if argv and rng.random() < 0.5 and argv[-1][:2] != "--":
        argv = ["--help"] + argv
    else:
        argv.append("--help")
    if rng.random() < 0.3:
        argv += rng.choice([["--"], ["--", "no such file"], ["no such file"]])
    return {"tool": rng.choice(["icdar", "simple"]), "argv": argv}


def tool_runner(ctx, exes):
    def one(c):
        r = Runner(ctx, exes[c["tool"]]).run({}, c["argv"], stdin="")
        if r["out"] != "" or r["status"] != 0:
            return {"crash": "status %s output %r on request for help" % (r["status"], r["out"][:200])}
        return {"tool": c["tool"], "hist": TOOL_HIST, "argv": [codes(a) for a in c["argv"]], "st": "help", "lines": split(r["err"].encode("latin-1"))}
    return lambda cases: pmap(one, cases)


def check(ctx):
    exe, icdar, simple = ctx.build("h_help", "tool:Icdar17KwsEval", "tool:SimpleKwsEval")
    run = runner(exe)
    rng = ctx.rng
    n = ctx.pick(3, 4)
    cfg = "CONSTANTS MaxLen = %d\n Show = %s\nSPECIFICATION Spec\nINVARIANTS Laws Emit\n"
    pairs = []
    for g in ctx.generate("HelpGen", cfg % (n, "TRUE"), name=f"histories of up to {n} declarations", workers=8):
        hist = [{"kind": m[0], "n": m[1], "h": m[2], "t": m[3], "v": m[4]} for m in g["hist"]]
        pairs.append(({"hist": hist, "argv": [], "prog": [112], "desc": [] if len(hist) % 2 == 0 else [100]}, {"ans": g["ans"], "lines": g["lines"]}))
    ctx.model_check("HelpGen", cfg % (ctx.pick(4, 5), "FALSE"), name="laws of declarations", workers=8)
    ctx.replay_expected("all short histories of declarations", pairs,
                        lambda cs: [o if "crash" in o else {"ans": o["ans"], "lines": o["lines"]} for o in run(cs)])
    ctx.validate_cases("HelpTrace", [gen_case(rng) for _ in range(ctx.pick(2500, 25000))], run, name="random declarations")
    ctx.validate_cases("HelpTrace", [tool_case(rng) for _ in range(ctx.pick(150, 1500))], tool_runner(ctx, {"icdar": icdar, "simple": simple}),
                       name="help of the tools")
