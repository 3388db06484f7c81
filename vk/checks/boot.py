"""C10: bootstrap intervals."""
from ..core import run_harness
from ..gen import codes
from ..tool import parse_dump, parse_out, text
from . import metrics
from .metrics import MSCORES, Tools, bl, fix
from .runs import batch_groups, crash_of, failed

FLAGS = ["--bootstrap_ci_gap", "--bootstrap_ci_map", "--bootstrap_ci_gndcg", "--bootstrap_ci_mndcg"]


def sampler_script(c):
    return "%s %d %d %s" % (c.get("mode", "sampler"), c["seed"], c["n"], " ".join(map(str, c["sizes"])))


def sampler_runs(exe):
    def run(cases):
        recs = []
        for c in cases:
            if "seeds" in c:
                o = run_harness(exe, [sampler_script(dict(c, seed=s)) for s in c["seeds"]])
                recs.append({"bySeed": [x["samples"] for x in o]} if all("samples" in x for x in o) else {"crash": str(o)[:300]})
                continue
            if c.get("mode", "").startswith("big"):
                o = run_harness(exe, [sampler_script(c)])[0]
                recs.append(dict(o, sizes=c["sizes"]) if "distinct" in o else {"crash": str(o)[:300]})
                continue
            o, again = run_harness(exe, [sampler_script(c)] * 2)
            orig, k = [], 0
            for s in c["sizes"]:
                orig.append(list(range(k + 1, k + s + 1)))
                k += s
            recs.append(dict(o, orig=orig, reach=c["reach"], again=again["samples"]) if "samples" in o and "samples" in again else {"crash": str(o)[:300]})
        return recs
    return run


def interval_script(c):
    return "interval %d %d %d %d %s" % (c["a"], c["b"], len(c["vals"]), c["obs"], " ".join(map(str, c["vals"] or [0])))


def interval_runs(exe):
    def run(cases):
        return [dict(c, **o) if "v" in o else {"crash": str(o)[:300]} for c, o in zip(cases, run_harness(exe, [interval_script(c) for c in cases]))]
    return run


# ---------------------------------------------------------------- tool runs
def run_args(c, r):
    o = c["o"]
    a = ["--collapse_matches", bl(o[0]), "--interpolated_precision", bl(o[1]), "--trapezoid_integral", bl(o[2]), "--sort", c["sort"],
         "--bootstrap_samples", str(r["R"]), "--bootstrap_seed", str(r["seed"]), "--bootstrap_alpha", repr(r["a"] / r["b"])]
    for f, on in zip(FLAGS, r["flags"]):
        if on:
            a += [f, "true"]
    if r.get("dump"):
        a += ["--dump_matches", "@m"]
    if "groups" in c:
        a += ["--query_groups", "@g"]
    return a


def jobs(c):
    files = {"r": text(c["p"]["refs"]), "h": text(c["p"]["hyps"])}
    if "groups" in c:
        files["g"] = c["groups"]
    return [{"tool": c["tool"], "files": files, "args": run_args(c, r) + ["@r", "@h"], "reads": ["m"] if r.get("dump") else []} for r in c["runs"]]


def run_record(r, x):
    out = parse_out(x["out"])
    return {"flags": r["flags"], "R": r["R"], "seed": str(r["seed"]), "a": r["a"], "b": r["b"], "point": [m[1] for m in out],
            "v": [fix(m[1]) for m in out], "iv": [[] if m[2] is None else [fix(m[2]), fix(m[3]), m[2] + " " + m[3]] for m in out]}


def boot_runs(tools):
    def record(c, res):
        for x in res:
            if failed(x):
                return crash_of(x)
        rec = {"runs": [run_record(r, x) for r, x in zip(c["runs"], res)]}
        return dict(rec, distinct=True) if c.get("distinct") else rec
    return lambda cases: [record(c, g) for c, g in zip(cases, batch_groups(tools, [jobs(c) for c in cases]))]


LEVELS = [(0, 1), (1, 1), (1, 2), (1, 4), (1, 16), (3, 4), (1, 64), (15, 16)]


def boot_case(rng, kinds):
    c = metrics.tool_case(rng, kinds, groups=True)
    seeds = [rng.choice([0, 1, 74565, 12345, 2 ** 64 - 1, rng.getrandbits(40)]) for _ in range(2)]
    Rs = [rng.choice([0, 1, 2, 3, 7, 20, 50, 101]) for _ in range(2)]
    runs = [{"flags": [False] * 4, "R": Rs[0], "seed": seeds[0], "a": 1, "b": 2}]
    for _ in range(5):
        a, b = rng.choice(LEVELS)
        runs.append({"flags": [rng.random() < 0.6 for _ in range(4)], "R": rng.choice(Rs[:1] + Rs), "seed": rng.choice(seeds[:1] + seeds), "a": a, "b": b})
    c["runs"] = runs + [dict(runs[1], flags=[True] * 4)]
    return c


def seeds_case(rng, kind, upper=False):
    """Rich data and different seeds."""
    seeds = [77 + 65536 * k for k in range(10)] if upper else rng.sample(range(2, 5000), 10)
    scores = rng.sample(MSCORES[3:14], 9)
    refs, hyps, k = [], [], 0
    for g in range(6):
        for j in range(4):
            k += 1
            b = ("d", 10 * k, 0, 4, 4) if kind != "simple" else ("l%d" % k,)
            if (g + j) % 3:
                refs.append(("q%d" % g,) + b)
            if (g + j) % 3 == 0 or g * j % 2:
                hyps.append(("q%d" % g,) + b + (scores[(g * 4 + j) % 9],))
    return {"tool": kind, "p": {"refs": refs, "hyps": hyps}, "sort": "desc", "o": [True, True, False], "distinct": True,
            "runs": [{"flags": [True] * 4, "R": 2, "seed": s, "a": 1, "b": 2} for s in seeds]}


# small data: the distribution over all samples is computed exactly
def exact_case(rng, kinds):
    kind = rng.choice(kinds)
    while True:
        sizes = rng.choice([[1], [2], [3], [1, 1], [2, 1], [2, 2], [3, 1], [1, 1, 1], [2, 1, 1]])
        sc = rng.sample(MSCORES[3:14], 6)
        refs, hyps, k = [], [], 0
        for g, n in enumerate(sizes):
            q = "q%d" % g
            for _ in range(n):
                k += 1
                b = ("d", 10 * k, 0, 4, 4) if kind != "simple" else ("l%d" % k,)
                what = rng.random()
                if what < 0.75:
                    refs.append((q,) + b)
                if what >= 0.3:
                    if kind == "soft" and what < 0.5:
                        b = ("d", 10 * k + rng.choice([0, 1, 2]), 0, 4, 4)
                    hyps.append((q,) + b + (rng.choice(sc),))
        tied = len({h[-1] for h in hyps}) < len(hyps)
        c = {"tool": kind, "p": {"refs": refs, "hyps": hyps}, "sort": "desc", "o": [True if tied else rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5]}
        if refs:
            break
    if kind != "simple" and rng.random() < 0.3:
        c["groups"] = "G q0 q1\nq2 q2\n" if len(sizes) == 3 or len(sizes) == 2 and sum(sizes) == 3 else "".join("g%d q%d\n" % (i, i) for i in range(len(sizes)))
        if len(sizes) == 2 and sum(sizes) == 3:
            c["groups"] = "G q0 q1\n"
    c["runs"] = []
    many = rng.random() < 0.2
    for _ in range(3):
        a, b = rng.choice(LEVELS)
        c["runs"].append({"flags": [True] * 4, "R": 70000 if many and not c["runs"] else rng.choice([1, 5, 2000, 2000]), "seed": rng.getrandbits(rng.choice([4, 30])), "a": a, "b": b, "dump": not c["runs"]})
    return c


def exact_runs(tools):
    def record(c, res):
        for x in res:
            if failed(x):
                return crash_of(x)
        d = parse_dump(res[0]["files"].get("m"))
        if d is None:
            return {"crash": "no dump"}
        o = c["o"]
        return {"ms": metrics.dump_ms(d), "groups": codes(c.get("groups", "")), "o": {"c": o[0], "i": o[1], "t": o[2]},
                "runs": [run_record(r, x) for r, x in zip(c["runs"], res)]}
    return lambda cases: [record(c, g) for c, g in zip(cases, batch_groups(tools, [jobs(c) for c in cases]))]


def check(ctx):
    exe = ctx.build("h_boot+FULL|h_boot")
    tools = Tools(ctx)
    rng = ctx.rng
    for w in (1, 2, 3):
        cfg = "CONSTANTS MaxR = %d\n Den = 8\n Values = {0}\n Show = FALSE\n World = %d\nSPECIFICATION Spec\nINVARIANTS SampleValid Ordered Nested Extreme Middle\n" % (ctx.pick(4, 5), w)
        ctx.model_check("BootstrapGen", cfg, name="bootstrap of world %d" % w, workers=8)
    skip = run_harness(exe, ["sampler 1 1 1"]) == [{"skip": 1}]
    if skip:
        ctx.assumptions.append("core/Bootstrapping.h has another interface: sampler and interval functions judged through the tools only")
    else:
        cfg = "CONSTANTS MaxR = %d\n Den = 8\n Values = {0, 1, 3}\n Show = TRUE\n World = 1\nSPECIFICATION Spec\nINVARIANTS Ordered Nested Emit\n" % ctx.pick(5, 7)
        pairs = []
        for g in ctx.generate("BootstrapGen", cfg, name="short histories of sampled values", workers=4):
            for a in range(9):
                pairs.append(({"a": a, "b": 8, "obs": 2, "vals": g["vals"]}, {"v": 2, "lo": g["iv"][a][0], "hi": g["iv"][a][1]}))
        ctx.replay_expected("short histories of sampled values", pairs, lambda cs: run_harness(exe, [interval_script(c) for c in cs]))
        cases = [{"a": rng.randint(0, 64), "b": 64, "obs": rng.randint(-5, 5), "vals": [rng.randint(-50, 50) for _ in range(rng.choice([1, 2, 3, 10, 63, 64, 65, 100, 333]))]}
                 for _ in range(ctx.pick(600, 6000))]
        ctx.validate_cases("BootstrapTrace", cases, interval_runs(exe), name="intervals of random statistics")
        cases = []
        for k in range(ctx.pick(36, 400)):
            small = k % 6 == 0
            sizes = [rng.randint(1, 3) for _ in range(rng.randint(1, 3))] if small else [rng.choice([0, 1, 1, 2, 3, 8]) for _ in range(rng.randint(0, 9))]
            cases.append({"seed": rng.choice([0, 1, 2, 74565, 2 ** 63, rng.getrandbits(60)]), "n": 1500 if small else 10, "sizes": sizes, "reach": small})
        for n in range(ctx.pick(4, 9)):
            cases.append({"mode": "flat", "seed": rng.getrandbits(40), "n": 1500 if n < 4 else 10, "sizes": [n], "reach": 0 < n < 4})
        cases.append({"seeds": rng.sample(range(2, 5000), 20), "n": 2, "sizes": [3, 3, 3]})
        cases.append({"mode": "flat", "seeds": rng.sample(range(2, 5000), 20), "n": 2, "sizes": [9]})
        s0 = rng.randrange(65536)      # seeds that differ in the upper bits only
        cases.append({"seeds": [s0 + 65536 * k for k in range(20)], "n": 2, "sizes": [3, 3, 3]})
        cases.append({"mode": "flat", "seeds": [s0 + 65536 * k for k in range(20)], "n": 2, "sizes": [9]})
        for sizes in [[70000], [1] * 70000, [40000, 3], [300, 0, 200, 1], [1, 2] * 150]:
            cases.append({"mode": "big", "seed": rng.getrandbits(40), "n": 60 * len(sizes) if len(sizes) < 5 else 60, "sizes": sizes})
        cases += [{"mode": "bigflat", "seed": rng.getrandbits(40), "n": 50, "sizes": [n]} for n in (130, 300, 40000, 70000)]
        ctx.validate_cases("BootstrapTrace", cases, sampler_runs(exe), name="samples")
    cases = [boot_case(rng, tools.kinds) for _ in range(ctx.pick(200, 3000))]
    cases += [seeds_case(rng, k, u) for k in tools.kinds for u in (False, True)]
    ctx.validate_cases("BootstrapTrace", cases, boot_runs(tools), name="intervals of tool runs")
    cases = [exact_case(rng, tools.kinds) for _ in range(ctx.pick(48, 800))]
    ctx.validate_cases("BootExactTrace", cases, exact_runs(tools), name="intervals against the exact distribution",
                       cfg="CONSTANT Slack = 8\n" + ctx.TRACE_CFG)
