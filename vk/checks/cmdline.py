"""C15: command lines are parsed exactly or rejected."""
from ..core import run_harness
from ..gen import codes, hexs
from ..tool import Batch
from .. import tool as T

INTS = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"]
TYPES = INTS + ["bool", "string", "float", "double"]
RANGE = {t: ((-(1 << int(t[1:]) - 1) if t[0] == "i" else 0), (1 << int(t[1:]) - (t[0] == "i")) - 1) for t in INTS}


def latin(b):
    return bytes(b).decode("latin-1")


def script(c):
    out = ["cmd x"]
    d = c["d"]
    out += ["opt %s %s" % (hexs(bytes(o["n"])), o["t"]) for o in d["opts"]]
    out += ["arg " + t for t in d["args"]] + ["oarg " + t for t in d["opt"]]
    out += ["tok " + hexs(bytes(t)) for t in c["argv"]]
    return "\n".join(out)


def runner(exe):
    def run(cases):
        recs = []
        for c, o in zip(cases, run_harness(exe, [script(c) for c in cases], timeout=200)):
            recs.append({"crash": str(o)[:300]} if "st" not in o else dict(c, **o))
        return recs
    return run


def number(rng, t):
    lo, hi = RANGE[t]
    v = rng.choice([0, 1, 7, 42, hi, hi + 1, hi - 1, lo, lo - 1, lo + 1, hi * 10, rng.randint(lo, hi)])
    s = str(v)
    if rng.random() < 0.15:
        s = s[0] + "0" + s[1:] if v < 0 else rng.choice(["0", "00", "+"]) + s
    return s


REALS = ["0.5", ".5", "5.", "1e3", "1E-3", "-2.5e+1", "1e", ".", "e5", "1.2.3", "0x10", "inf", "nan", "-inf", "1e39", "1e-60", "3.4028235e38",
         "3.4028236e38", "1e308", "1.8e308", "1e-400", "0", "-0", "+3", "1,5", "16777217", "9007199254740993", "0.1", "1.5f", "1d", "infinity", "--1", "+-1"]


def text_for(rng, t, bad):
    if bad:
        return rng.choice(["", "x", "5x", "5 ", " 5", "5.5", "1e2", "0x5", "tru", "TRUE", "True", "yes", "2", "-", "--", "5-", "+", "1_0", "1'0", "\t5", "5\n", "t", "true ", "00", "01", "-1"])
    if t == "bool":
        return rng.choice(["true", "false", "0", "1"])
    if t == "string":
        return rng.choice(["", "a", "a b", "x=y", "\xe9", "\n", " lead", "--n", "-", "true", "5", "\x01", "a\x01\x02b", "\r\n", "\xff", "\x7f\x1a", "".join(map(chr, range(1, 256))), "long " * 300])
    if t in ("float", "double"):
        if rng.random() < 0.5:
            return rng.choice(REALS)
        return ("%." + str(rng.randint(0, 17)) + rng.choice("eg")) % (rng.choice([1, -1]) * rng.random() * 10.0 ** rng.randint(-44, 40))
    return number(rng, t)


NAMES = ["n", "b", "s", "num", "number", "no-num", "x", "help2", "hel", "a=b", "B", "nn", "5", "\xe9", "-n", "very-" * 6, "very-" * 8 + "long", "very-" * 8 + "longer", "v" * 300]


def tok_ok(t, s):
    # "-0" of unsigned types and an empty value of a boolean option are left open
    return not ((t[0] == "u" and s.startswith("-") and s.strip("-0") == "") or (t == "bool" and s == ""))


def gen_case(rng):
    names = rng.sample(NAMES, rng.randint(0, 5))
    d = {"opts": [{"n": codes(n), "t": rng.choice(TYPES + ["bool"] * 4)} for n in names],
         "args": [rng.choice(TYPES) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))],
         "opt": [rng.choice(TYPES) for _ in range(rng.choice([0, 0, 1, 2]))]}
    pbad = rng.choice([0, 0, 0, 0.1, 0.4])
    for _ in range(100):
        argv, ok = [], True
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            x = rng.random()
            if x < pbad and names and rng.random() < 0.4:     # almost the name of an option
                n = rng.choice(names)
                argv.append(rng.choice(["-" + n, "-x" + n, "-+" + n, "--" + n[:-1], "--" + n + "x", "--" + n.swapcase(), "---" + n, "- " + n, "--" + n[1:],
                                        "-=" + n, "--" + n + " ", "-- " + n, n, "--" + n + "=", "-" + n[0] + n]))
                continue
            if x < pbad:
                argv.append(rng.choice(["--zz", "-n", "--", "-", "--nu", "--n=5", "---n", "-x", "--N", "--help ", "-h", "--hel", "5", "--num ", "n", "num"]))
                continue
            if x > 0.985:
                argv.append("--help")
                continue
            if not names:
                continue
            k = rng.randrange(len(names))
            t = d["opts"][k]["t"]
            argv.append("--" + names[k])
            if t == "bool" and rng.random() < 0.5:
                continue
            s = text_for(rng, t, rng.random() < pbad)
            ok = ok and tok_ok(t, s)
            argv.append(s)
        if rng.random() < 0.3:
            argv.append("--")
        want = len(d["args"]) + rng.randint(0, len(d["opt"]))
        if rng.random() < pbad:
            want = max(0, want + rng.choice([-1, 1, 2]))
        for t in (d["args"] + d["opt"] + ["i32", "string"])[:want]:
            s = text_for(rng, t, rng.random() < pbad)
            ok = ok and (t == "bool" or tok_ok(t, s))
            argv.append(s)
        if rng.random() < pbad and argv:
            argv.pop(rng.randrange(len(argv)))
        # any token may end up as the value of any variable
        types = {o["t"] for o in d["opts"]} | set(d["args"]) | set(d["opt"])
        if all(tok_ok(t, s) or (t == "bool" and s == "" and not any(o["t"] == "bool" for o in d["opts"])) for t in types for s in argv):
            return {"d": d, "argv": [codes(s) for s in argv]}
    return {"d": d, "argv": []}


NEAR = ["", " ", "x", "5x", "x5", "5 ", " 5", "5.5", "5.0", "5.", ".5", "1e2", "0x5", "0X1F", "010", "0b1", "tru", "trues", "TRUE", "True", "tRUE", "T", "t", "f", "F",
        "False", "FALSE", "falsey", "fals", "yes", "no", "on", "off", "y", "n", "Y", "2", "00", "01", "10", "11", "000", "-", "--", "5-", "+", "+5", "-5", "++5", "+-5", "- 5",
        "1_0", "1'0", "1,0", "1 0", "\t5", "5\n", "5\t", "\n5", "true ", " true", "true\n", "1 ", " 1", "0 ", "false ", "-1", "-0", "+0", "+1", "1+", "127", "128", "255", "256",
        "-128", "-129", "32767", "32768", "65535", "65536", "-32768", "-32769", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
        "99999999999999999999999999", "-99999999999999999999999999", "nan", "inf", "NaN", "1e", "1e+", "e1", "1d0", "1f", "1L", "5u", "5k", "5%", "$5", "\xa05", "5\xa0", "\x01",
        "null", "none", "1.0", "0.0", "1e0", "1/2", "(5)", "'5'", "\"5\"", "0" * 40 + "5", "=5", "5=", "#5", "5;"]


def near_cases(rng):
    """Every suspicious text as the value of every type: of an option (alone, or
    after and before good ones), of a mandatory and of an optional argument."""
    out = []
    for t in TYPES:
        for s in NEAR:
            if not tok_ok(t, s):
                continue
            good = lambda: next(v for v in iter(lambda: text_for(rng, t, False), None) if v and v[0] not in "-+" and len(v) < 30)
            no = []
            where = rng.choice(["opt", "opt", "arg", "oarg"])
            d = {"opts": no, "args": [], "opt": []}
            if where == "opt":
                d["opts"] = [{"n": codes("v"), "t": t}]
                argv = ["--v", s]
                if rng.random() < 0.3:
                    argv = argv + ["--v", good()] if rng.random() < 0.5 else ["--v", good()] + argv
                if rng.random() < 0.3:
                    argv.append("--")
            elif where == "arg":
                d["args"] = [t]
                argv = ["--", s] if rng.random() < 0.5 or len(s) > 1 and s[0] == "-" else [s]
            else:
                d["args"], d["opt"] = [t], [t]
                argv = ["--", good(), s]
            if tok_ok(t, "--") and not any(not tok_ok(t, v) for v in argv):
                out.append({"d": d, "argv": [codes(v) for v in argv]})
    return out


def big_case(rng):
    """Very many options and arguments, more than a byte counts."""
    nopt, narg, noarg = rng.choice([(300, 3, 2), (2, 300, 2), (2, 3, 300), (140, 140, 140), (0, 129, 0), (0, 0, 257)])
    ty = lambda: rng.choice(["i32", "string", "u8", "bool"])
    names = ["o%d" % i for i in range(nopt)]
    d = {"opts": [{"n": codes(n), "t": ty()} for n in names], "args": [ty() for _ in range(narg)], "opt": [ty() for _ in range(noarg)]}

    def value(t):
        while True:
            v = text_for(rng, t, False)
            if tok_ok("u8", v) and tok_ok("bool", v) and len(v) < 100:
                return v
    argv = []
    for n, o in rng.sample(list(zip(names, d["opts"])), nopt):
        argv += ["--" + n, value(o["t"])]
    want = rng.choice([narg + noarg, narg + noarg, narg + rng.randint(0, noarg), narg + noarg + 1, max(0, narg - 1)])
    pos = [value(t) for t in (d["args"] + d["opt"] + ["i32"])[:want]]
    return {"d": d, "argv": [codes(s) for s in argv + (["--"] + pos if pos else [])]}


# The interface of the tools.  The values are restricted to ones that make sense for
# the option (what a run does with them is the business of other properties).
TOOL_OPTS = [("collapse_matches", "bool"), ("interpolated_precision", "bool"), ("trapezoid_integral", "bool"), ("query_set", "string"),
             ("dump_matches", "string"), ("query_groups", "string"), ("bootstrap_ci_gap", "bool"), ("bootstrap_ci_map", "bool"),
             ("bootstrap_ci_gndcg", "bool"), ("bootstrap_ci_mndcg", "bool"), ("bootstrap_samples", "u64"), ("bootstrap_seed", "u64"),
             ("bootstrap_alpha", "double"), ("sort", "string"), ("output_grp", "string"), ("output_mrp", "string"), ("rp_curve_samples", "u64")]
TOOL_DECL = {"opts": [{"n": codes(n), "t": t} for n, t in TOOL_OPTS], "args": ["string"], "opt": ["string"]}
GOOD = {"bool": ["true", "false", "1", "0"], "query_set": ["@q"], "query_groups": ["@g"], "dump_matches": ["@m"], "output_grp": ["@c1"], "output_mrp": ["@c2"],
        "bootstrap_samples": ["3", "1", "+2", "007"], "bootstrap_seed": ["0", "18446744073709551615", "12"], "bootstrap_alpha": ["0.05", "1", "0", ".5", "1e-3", "5e-1"],
        "sort": ["asc", "desc", "none"], "rp_curve_samples": ["5", "2", "0"]}
WRONG = {"bool": ["yes", "2", "@r", "tru", "True", "TRUE", "on", "t", "01", "1 ", "no"], "u64": ["-1", "x", "1.5", "18446744073709551616", "", "5 ", "0x5"], "double": ["x", "", "1..", "0.5x", "nan", "1e999"]}


def gen_tool(rng):
    argv = []
    pbad = rng.choice([0, 0, 0, 0.3])
    if rng.random() < 0.15:       # one wrong value, and all else in order
        n, t = rng.choice([o for o in TOOL_OPTS if o[1] in WRONG])
        return {"tool": rng.choice(["icdar", "simple"]), "argv": ["--" + n, rng.choice(WRONG[t]), "@r", "@h"]}
    for n, t in rng.sample(TOOL_OPTS, rng.choice([0, 1, 2, 3, 6, len(TOOL_OPTS)])) + ([rng.choice(TOOL_OPTS)] if rng.random() < 0.2 else []):
        if rng.random() < pbad / 3:
            argv.append(rng.choice(["--nosuch", "-" + n, "-x" + n, "-_" + n, n + "=1", "--" + n[:-1], "--" + n + "=1", "--help", "-", "--"]))
            continue
        argv.append("--" + n)
        if t == "bool" and rng.random() < 0.5:
            continue
        argv.append(rng.choice(WRONG[t]) if rng.random() < pbad / 3 and t in WRONG else rng.choice(GOOD.get(n) or GOOD[t]))
    if (argv and argv[-1].startswith("--") and argv[-1] != "--" and dict(TOOL_OPTS).get(argv[-1][2:]) == "bool") or rng.random() < 0.2:
        argv.append("--" if rng.random() < 0.8 else "true")
    if rng.random() < 0.05:
        argv.append("--help")
    pos = ["@r", "@h"]
    if rng.random() < 0.15:
        pos = rng.choice([[], ["@r"], ["@r", "@h", "x"], ["@r", "@h", ""]])
    return {"tool": rng.choice(["icdar", "simple"]), "argv": argv + pos}


def tool_runner(ctx, exes):
    from ..tool import Runner
    from ..core import pmap

    def one(c):
        n = 6 if c["tool"] == "icdar" else 2
        row = ["a", "d", "0", "0", "4", "4"][:n]
        files = {"r": T.text([row, ["b"] + row[1:]]), "h": T.text([row + ["0.5"], ["b"] + row[1:] + ["0.25"]]), "q": "a\nb\n", "g": "g a b\n"}
        stdin = files["h"]
        r = Runner(ctx, exes[c["tool"]]).run(files, c["argv"], stdin=stdin)
        four = T.parse_out(r["out"]) is not None
        if r["status"] == 0 and four:
            st = "ok"
        elif r["status"] == 0 and r["out"] == "" and "--help" in c["argv"]:
            st = "help"
        elif isinstance(r["status"], int) and r["status"] != 0 and r["out"] == "":
            st = "fail"
        else:
            st = "status %s output %r" % (r["status"], r["out"][:200])
        return {"d": TOOL_DECL, "argv": [codes(a) for a in c["argv"]], "st": st, "refs": codes("@r"), "hyps": codes("@h")}
    return lambda cases: pmap(one, cases)


def check(ctx):
    exe, icdar, simple = ctx.build("h_cmd", "tool:Icdar17KwsEval", "tool:SimpleKwsEval")
    run = runner(exe)
    rng = ctx.rng
    cfg = "CONSTANTS MaxLen = %d\n Which = {%s}\nSPECIFICATION Spec\nINVARIANTS Agree%s\nPROPERTY Final\n"
    pairs = []
    for which, n in [(1, ctx.pick(3, 4)), (2, ctx.pick(3, 4)), (3, ctx.pick(3, 4))]:
        for g in ctx.generate("CommandLineGen", cfg % (n, which, " Emit"), name=f"all vectors up to length {n}, declaration {which}", workers=8):
            pairs.append(({"d": g["d"], "argv": g["argv"]}, {"st": g["r"]["st"], "set": [None if v["old"] else v["text"] for v in g["r"]["set"]] if g["r"]["st"] == "ok" else [],
                                                           "h": g["h"]}))
    ctx.model_check("CommandLineGen", cfg % (ctx.pick(4, 5), "1, 2, 3", ""), name="parser and grammar agree", workers=8)

    hs = {id(c): e for c, e in pairs}

    def observed(cs):
        out = []
        for c, o in zip(cs, run(cs)):
            e = hs[id(c)]
            if "crash" in o:
                out.append(o)
                continue
            types = [x["t"] for x in c["d"]["opts"]] + c["d"]["args"] + c["d"]["opt"]
            vals = []
            if o["st"] == "ok":
                for k, (v, old, t) in enumerate(zip(o["vals"], o["olds"], types)):
                    # unchanged value: either nothing was given, or the value given is the old one
                    w = e["set"][k] if k < len(e["set"]) else None
                    if t == "bool" and w is not None:
                        w2 = [49] if w in ([49], codes("true")) else [48]
                        vals.append(w if v == w2 else v)
                    elif t in INTS and w is not None:
                        vals.append(w if latin(v) == str(int(latin(w))) else v)
                    else:
                        vals.append(None if w is None and v == old else v)
            st = o["st"]
            if e["h"] and e["st"] == "fail" and st == "help":
                st = "fail"
            out.append({"st": st, "set": vals, "h": e["h"]})
        return out
    ctx.replay_expected("all short vectors", pairs, observed)
    ctx.validate_cases("CommandLineTrace", [gen_case(rng) for _ in range(ctx.pick(6000, 60000))], run, name="random vectors")
    ctx.validate_cases("CommandLineTrace", sum((near_cases(rng) for _ in range(ctx.pick(2, 10))), []), run, name="almost values")
    ctx.validate_cases("CommandLineTrace", [big_case(rng) for _ in range(ctx.pick(16, 160))], run, name="hundreds of options and arguments")
    ctx.validate_cases("CommandLineTrace", [gen_tool(rng) for _ in range(ctx.pick(400, 4000))],
                       tool_runner(ctx, {"icdar": icdar, "simple": simple}), name="command lines of the tools")
