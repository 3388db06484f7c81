"""C05, C06, C07, C08, C16, C21: counts, curves and metrics, on the functions of
core/Assessment.h and on what complete runs of the tools report for the matches
they dump."""
import re
from decimal import Decimal, InvalidOperation

from ..core import CheckError, eprint, run_harness
from ..gen import codes
from ..tool import (Batch, Runner, code, f32, f32_bits, gen_labels, gen_problem, ord_of, parse_dump, parse_out, text)

# scores whose printed forms are different when they are
MSCORES = ["0.5", ".5", "5e-1", "0.9", "0.1", "0.2", "1", "2", "10", "100", "-1", "-0.5", "-2.5", "0", "-0", "1e-3",
           "1e10", "-1e10", "0.333333", "7", "1e-30", "3.25", "3.4028234663852886e38", "-3.4028234663852886e38", "-1.17549435e-38"]
COMBOS = [(c, i, t) for c in (False, True) for i in (False, True) for t in (False, True)]


def fix(s):
    """Decimal text -> units of 1e-7."""
    try:
        v = Decimal(s)
        if not v.is_finite() or abs(v) > 100:
            return -1000000000
        return int((v * 10 ** 7).to_integral_value())
    except (InvalidOperation, TypeError):
        return -1000000000


def bl(b):
    return "true" if b else "false"


# ------------------------------------------------------------------ in-process tools
class Tools:
    """The tools, in process when the harness builds, as programs otherwise."""
    SRC = {"icdar": "Icdar17KwsEval", "simple": "SimpleKwsEval"}

    def __init__(self, ctx):
        self.ctx = ctx
        self.batch = self.runners = None
        try:
            self.batch = Batch(ctx, ctx.build("h_tool"))
        except CheckError as ex:
            eprint("note: h_tool does not compile, running the programs: " + str(ex)[-600:])
            exes = ctx.build(*["tool:" + s for s in self.SRC.values()])
            self.runners = {k: Runner(ctx, e) for k, e in zip(self.SRC, exes)}

    @property
    def kinds(self):
        return ("icdar", "simple", "soft") if self.batch else ("icdar", "simple")

    def run(self, jobs):
        if self.batch:
            return self.batch.run(jobs)
        from ..core import pmap
        return pmap(lambda j: self.runners[j["tool"]].run(j["files"], j["args"], j.get("stdin"), j.get("reads", ())), jobs)


# ------------------------------------------------------------------ problems
def soft_problem(rng, n=None):
    """Boxes whose areas are powers of two up to 64, so that errors are exact."""
    qs = rng.sample(["a", "b", "ab", "q1"], rng.randint(1, 3))
    ds = ["d", "p"][:rng.randint(1, 2)]

    def bx():
        w, h = rng.choice([(1, 1), (2, 2), (4, 4), (8, 8), (8, 4), (4, 2), (2, 8), (16, 4), (4, 1)])
        return rng.randint(0, 8), rng.randint(0, 6), w, h
    refs = [(rng.choice(qs), rng.choice(ds)) + bx() for _ in range(rng.randint(0, 6) if n is None else n)]
    sc = rng.sample(MSCORES, rng.randint(1, 5))
    hyps = []
    for _ in range(rng.randint(0, 8) if n is None else n):
        if refs and rng.random() < 0.75:
            q, d, x, y, w, h = rng.choice(refs)
            if rng.random() < 0.7:
                x, y = max(0, x + rng.choice([-1, 0, 1, 2])), max(0, y + rng.choice([-1, 0, 0, 1]))
            hyps.append((q, d, x, y, w, h, rng.choice(sc)))
        else:
            hyps.append((rng.choice(qs), rng.choice(ds)) + bx() + (rng.choice(sc),))
    return {"refs": refs, "hyps": hyps}


def groups_text(rng, queries):
    """A query-groups file listing all or some of the queries, with reassignments."""
    names = rng.sample(["G1", "G2", "a", "zz", "q1"], rng.randint(1, 3))
    if rng.random() < 0.15:       # names that look like something else
        names += rng.sample(["#", "#G", "##", "//", "--", "*", "\"G", "0", "G1,G2"], rng.randint(1, 2))
    if rng.random() < 0.15:       # almost the same name
        names.append(rng.choice(["", rng.choice(names)]) + rng.choice([names[0] + rng.choice(":,.;#=/'1_-"), names[0].lower(), names[0][:-1] or "g"]))
    lines = []
    qs = [q for q in queries if rng.random() < 0.9] or list(queries)[:1]
    for q in qs + [q for q in qs if rng.random() < 0.2]:
        lines.append([rng.choice(names), q])
    if rng.random() < 0.5:
        merged = {}
        for g, q in lines:
            merged.setdefault(g, [g]).append(q)
        lines = list(merged.values())
    if rng.random() < 0.07:       # very many queries in a line, most of them unknown
        ln = rng.choice(lines)
        ln[1:1] = ["u%d" % i for i in range(rng.choice([14, 33, 70, 140, 300]))]
    rng.shuffle(lines)
    return "".join(rng.choice([" ", "\t", "  "]).join(f) + rng.choice(["\n", "\n", " \n", "\r\n"]) for f in lines)


def tool_case(rng, kinds, groups=False, curves=False, big=False):
    kind = rng.choice(kinds)
    n = (rng.randint(12, 40) if big is True else big) if big else None
    if kind == "simple":
        p = gen_labels(rng, nref=n, nhyp=n, scores=rng.sample(MSCORES, rng.choice([1, 3, 8])))
    elif kind == "soft":
        p = soft_problem(rng, n)
    else:
        p = gen_problem(rng, nref=n, nhyp=n, scores=rng.sample(MSCORES, rng.choice([1, 2, 4, 12])))
    if big and rng.random() < 0.6:       # in the end all references are found
        p["hyps"] = p["hyps"][:len(p["hyps"]) // 2] + [r + (rng.choice(MSCORES),) for r in sorted(set(p["refs"]))]
    c = {"tool": kind, "p": p, "o": list(rng.choice(COMBOS)), "sort": rng.choice(["desc", "desc", "desc", "asc", "none"])}
    if groups and kind != "simple" and rng.random() < 0.7:
        qs = sorted({r[0] for r in p["refs"]} | {h[0] for h in p["hyps"]})
        if qs:
            c["groups"] = groups_text(rng, qs)
    if rng.random() < 0.1:        # the outputs replace whatever was there
        c["old"] = rng.choice(["", "0 0\n", "1.000000e+00 1.000000e+00\n" * 300])
    if curves:
        c["n"] = rng.choice([0, 1, 2, 2, 3, 5, 6, 7, 11, 21, 65])
    return c


def job(c):
    files = {"r": text(c["p"]["refs"]), "h": text(c["p"]["hyps"])}
    o = c["o"]
    args = ["--collapse_matches", bl(o[0]), "--interpolated_precision", bl(o[1]), "--trapezoid_integral", bl(o[2]),
            "--sort", c["sort"], "--dump_matches", "@m"]
    reads = ["m"]
    if "groups" in c:
        files["g"] = c["groups"]
        args += ["--query_groups", "@g"]
    if "n" in c:
        args += ["--output_grp", "@gc", "--output_mrp", "@mc", "--rp_curve_samples", str(c["n"])]
        reads += ["gc", "mc"]
    if "old" in c:
        files.update((n, c["old"]) for n in reads)
    return {"tool": c["tool"], "files": files, "args": args + ["@r", "@h"], "reads": reads}


def dump_ms(dump, simple=False):
    ms = []
    for h, r, fp, fn, nh, nr in dump[0]:
        q = (h if r is None else r).split(" ")[0]
        ms.append({"q": codes(q), "s": 0 if h is None else ord_of(f32(h.split(" ")[-1])), "hyp": h is not None,
                   "ref": r is not None, "fp": code(fp), "fn": code(fn)})
    return ms


def curve(txt):
    xs, ys = [], []
    for ln in txt.splitlines():
        f = ln.split(" ")
        xs.append(fix(f[0]) if len(f) == 2 else -1000000000)
        ys.append(fix(f[1]) if len(f) == 2 else -1000000000)
    return xs, ys


def tool_record(c, r):
    out, dump = parse_out(r["out"]), parse_dump(r["files"]["m"])
    if r["status"] != 0 or out is None or dump is None:
        return {"crash": "status %s, %s %s" % (r["status"], r["out"][:100], r["err"][-150:])}
    o = c["o"]
    rec = {"ms": dump_ms(dump), "groups": codes(c.get("groups", "")), "o": {"c": o[0], "i": o[1], "t": o[2]},
           "v": [fix(m[1]) for m in out], "n": c.get("n", 0)}
    if "groups" in c:
        rec["refq"] = [codes(q) for q in sorted({r[0] for r in c["p"]["refs"]})]
    if "n" in c:
        if r["files"]["gc"] is None or r["files"]["mc"] is None:
            return {"crash": "no curve file"}
        rec["gx"], rec["gy"] = curve(r["files"]["gc"])
        rec["mx"], rec["my"] = curve(r["files"]["mc"])
        if c["n"] > 1000:
            project(rec, c["n"])
    return rec


def project(rec, n):
    """Some points of curves of very many."""
    at = sorted({k for k in [1, 2, 3, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, n - 1, n] if k <= n}
                | {1 + (k * 7919) % n for k in range(40)})
    rec["at"], rec["len"] = at, [len(rec[k]) for k in ("gx", "gy", "mx", "my")]
    for k in ("gx", "gy", "mx", "my"):
        rec[k] = [rec[k][i - 1] if i <= len(rec[k]) else -1000000000 for i in at]


def tool_runs(tools):
    return lambda cases: [tool_record(c, r) for c, r in zip(cases, tools.run([job(c) for c in cases]))]


def report_traces(ctx, tools, n, groups=False, curves=False):
    cases = [tool_case(ctx.rng, tools.kinds, groups, curves) for _ in range(n)]
    cases += [tool_case(ctx.rng, tools.kinds, groups, curves, big=True) for _ in range(n // 12)]
    cases += [tool_case(ctx.rng, tools.kinds, groups, curves, big=ctx.rng.choice([70, 100, 140])) for _ in range(ctx.pick(6, 60))]
    ctx.validate_cases("ReportTrace", cases, tool_runs(tools), name="reports of tool runs", env={"JUDGE": ctx.pid})


# ------------------------------------------------------------------ generated lists
GEN_CFG = ("CONSTANTS MaxLen = %d\n NQ = %d\n Soft = %s\n Show = %s\nSPECIFICATION Spec\n%s")


def copied(c, k):
    """k copies of the world, each with labels of its own."""
    t = "~%d"
    d = dict(c, p={n: [(r[0] + t % i, r[1] + t % i) + tuple(r[2:]) for r in c["p"][n] for i in range(k)] for n in ("refs", "hyps")})
    if "groups" in c:
        d["groups"] = "".join(re.sub(r"[^ \t\r\n]+", lambda m: m.group(0) + t % i, c["groups"]) for i in range(k))
    return d


def copies_runs(tools):
    def run(cases):
        jobs = []
        for c in cases:
            j = job(copied(c, c["copies"]))
            j["args"][j["args"].index("--dump_matches"):j["args"].index("--dump_matches") + 2] = []
            j["reads"].remove("m")
            jobs += [job(c), j]
        res = tools.run(jobs)
        recs = []
        for i, c in enumerate(cases):
            small, big = res[2 * i], res[2 * i + 1]
            rec = tool_record(c, small)
            if "crash" not in rec:
                out = parse_out(big["out"])
                if big["status"] != 0 or out is None:
                    rec = {"crash": "%d copies: status %s, %s %s" % (c["copies"], big["status"], big["out"][:100], big["err"][-150:])}
                else:
                    rec["v"] = [fix(m[1]) for m in out]
                    for a, b in (("g", "gc"), ("m", "mc")):
                        if "n" in c:
                            rec[a + "x"], rec[a + "y"] = curve(big["files"].get(b) or "")
            recs.append(rec)
        return recs
    return run


def copies_traces(ctx, tools, n, groups=False, curves=False):
    ctx.model_check("Replication", "CONSTANTS N = %d\n Copies = {2, 3}\nSPECIFICATION Spec\nINVARIANTS Law RepeatLaw LimitLaw HitsLaw\n" % ctx.pick(3, 4),
                    name="copies of a world have its metrics", workers=8)
    cases = []
    while len(cases) < n:
        c = tool_case(ctx.rng, tools.kinds, groups, curves)
        size = len(c["p"]["refs"]) + len(c["p"]["hyps"])
        if not size or size > 10 or len(c.get("groups", "").split()) > 40:
            continue
        c["sort"], c["o"][0] = "desc", True
        m = len({r[0] for r in c["p"]["refs"] + c["p"]["hyps"]})
        # past 7, 8, 15 and 16 bits of labels or of lines
        c["copies"] = max(2, (140, 300, 70000)[len(cases) % 3] // (m if ctx.rng.random() < 0.5 else size))
        cases.append(c)
    ctx.validate_cases("ReportTrace", cases, copies_runs(tools), name="many copies of a world", env={"JUDGE": ctx.pid})


def laws(ctx, inv, quick=(4, 2), thorough=(5, 2)):
    n, q = ctx.pick(quick, thorough)
    cfg = GEN_CFG % (n, q, "TRUE", "FALSE", "".join("INVARIANT %s\n" % i for i in inv))
    ctx.model_check("MetricsGen", cfg, name="laws: " + " ".join(inv), workers=8)


def realize(b, combo):
    """A tool run whose matches are exactly the generated list."""
    refs, hyps = [], []
    miss = 0
    for i, m in enumerate(b["ms"]):
        q, d = "q%d" % m["q"], "d%d" % i
        soft = m["hyp"] and m["ref"] and m["fp"] > 0
        if m["ref"]:
            refs.append((q, d, 0, 0, 6 if soft else 4, 1))
        if m["hyp"]:
            hyps.append((q, d, 3 if soft else 0, 0, 4, 1, str(m["s"])))
    soft = any(m["hyp"] and m["ref"] and m["fp"] for m in b["ms"])
    return {"tool": "soft" if soft else "icdar", "p": {"refs": refs, "hyps": hyps}, "o": list(COMBOS[combo]), "sort": "none"}


def metric_replay(ctx, tools, which, cfgs):
    """Spec -> code: every generated list through the tool; reported values compared."""
    tol = {0: 14, 1: 14, 2: 30, 3: 30}
    pairs = []
    for n, q, soft in cfgs:
        if soft and "soft" not in tools.kinds:
            soft = False
        behs = ctx.generate("MetricsGen", GEN_CFG % (n, q, "TRUE" if soft else "FALSE", "TRUE", "INVARIANT Emit\n"),
                            name=f"match lists up to {n}, {q} queries", workers=8)
        for b in behs:
            for k in (range(8) if ctx.thorough else ctx.rng.sample(range(8), 2)):
                pairs.append(((b, k), [b["v"][k][j] for j in which]))
    exp = {}

    def run(cs):
        jobs = []
        for b, k in cs:
            j = job(realize(b, k))
            j["args"] = [a for a in j["args"] if a not in ("--dump_matches", "@m")]
            j["reads"] = []
            jobs.append(j)
        res = []
        for (b, k), r in zip(cs, tools.run(jobs)):
            out = parse_out(r["out"])
            if r["status"] != 0 or out is None:
                res.append("status %s: %s %s" % (r["status"], r["out"][:200], r["err"][-100:]))
                continue
            want = [b["v"][k][j] for j in which]
            got = [fix(out[j][1]) for j in which]
            # within the rounding of the printed value: reported as the expected one
            res.append([w if abs(w - g) <= tol[j] else g for w, g, j in zip(want, got, which)])
        return res
    ctx.replay_expected("reported metrics of generated lists", pairs, run)


# ------------------------------------------------------------------ metric functions
HSCORES = [1.5, 1.0, 0.5, 0.25, 0.0, -1.0, -2.0, 3.5e10, 3.4028234663852886e38, -3.4028234663852886e38, -3.4028234663852886e38,
           1.1754943508222875e-38, -1.1754943508222875e-38, 1.401298464324817e-45, 1.0000001192092896, 0.9999999403953552, -0.0]


def list_case(rng, n=None):
    """A list of matches for the metric functions, or (sometimes) of counts."""
    n = rng.randint(0, 10) if n is None else n
    if rng.random() < 0.2:
        es = []
        for _ in range(n):
            nh, nr = rng.randint(0, 5), rng.randint(0, 5)
            hit = rng.randint(0, 64 * min(nh, nr))
            if rng.random() < 0.6:
                hit = hit // 64 * 64
            es.append([64 * nh - hit, 64 * nr - hit, nh, nr])
        return {"es": es, "n": rng.choice(CURVE_NS)}
    sc = rng.sample(rng.choice([HSCORES[:8], HSCORES]), rng.randint(1, 8))
    ms = []
    soft = rng.random() < 0.5
    for _ in range(n):
        c = rng.random()
        q = rng.randint(1, 3)
        if c < 0.45:
            fp, fn = (rng.choice([0, 0, 1, 16, 32, 63, 64]), rng.choice([0, 0, 1, 16, 32, 63, 64])) if soft else (0, 0)
            if fp == 64 or fn == 64:
                fp = fn = 64 if rng.random() < 0.5 else 0   # hits overlap or do not
            if fp == 64:
                fp = fn = 0
            ms.append([q, rng.choice(sc), 1, 1, fp, fn])
        elif c < 0.75:
            ms.append([q, rng.choice(sc), 1, 0, 64, 0])
        else:
            ms.append([q, 0.0, 0, 1, 0, 64])
    if n > 60 and rng.random() < 0.5:    # in the end all references are found
        ms = [m for m in ms if m[2]]
        ms.append([1, -3e38, 1, 1, 0, 0])
    if rng.random() < 0.8:
        ms.sort(key=lambda m: (-m[2], -m[1] if m[2] else 0))
    return {"ms": ms, "n": rng.choice(CURVE_NS), "gm": [[q, rng.randint(1, 4)] for q in range(1, 4) if rng.random() < 0.6]}


CURVE_NS = [-1, -1, 0, 1, 2, 3, 5, 6, 11]


def big_case(rng, k):
    """Counts beyond 8, 16 and 18 bits: of references, of matches, of both."""
    if k % 4 == 0:
        es = []
        perfect = rng.random() < 0.3
        for _ in range(rng.randint(2, 6)):
            nr = rng.choice([100, 129, 300, 20000, 33000, 70000])
            nh = nr if perfect else rng.choice([0, 1, 127, 128, 300, 33000, 66000])
            hit = 64 * nr if perfect else rng.randint(0, min(nh, nr)) * 64
            es.append([64 * nh - hit, 64 * nr - hit, nh, nr])
        return {"es": es, "n": -1}
    c = list_case(rng, rng.randint(1, 5))
    while "es" in c:
        c = list_case(rng, rng.randint(1, 5))
    if k % 4 == 1:      # all hits
        c["ms"] = [[m[0], m[1], 1, 1, 0, 0] for m in c["ms"]]
        c["ms"].sort(key=lambda m: -m[1])
    c["rep"] = max(2, rng.choice([40, 300, 33000, 70000]) // len(c["ms"]))
    return c


def list_script(c):
    if "es" in c:
        ls = ["e %d %d %d %d" % tuple(e) for e in c["es"]]
    else:
        ls = ["m %d %d %d %d %d %d" % (m[0], f32_bits(m[1]), m[2], m[3], m[4], m[5]) for m in c["ms"]]
        ls += ["g %d %d" % tuple(g) for g in c["gm"]]
        if "rep" in c:
            ls.append("rep %d" % c["rep"])
    return "\n".join(ls + ["n %d" % c["n"]])


def list_runs(exe):
    def run(cases):
        res = []
        for c, o in zip(cases, run_harness(exe, [list_script(c) for c in cases])):
            if "crash" in o:
                res.append({"crash": str(o)[:300]})
                continue
            o = dict(o, n=c["n"], gm=c.get("gm", []))
            if "es" in c:
                o["es"] = [dict(zip(("fp", "fn", "nh", "nr"), e)) for e in c["es"]]
                if "raw" not in o:      # empty list of counts
                    o = {"crash": "no answer"}
            else:
                o["ms"] = [{"q": m[0], "s": ord_of(m[1]), "hyp": bool(m[2]), "ref": bool(m[3]), "fp": m[4], "fn": m[5]}
                           for m in c["ms"]]
            res.append(o)
        return res
    return run


def function_traces(ctx, n):
    exe = ctx.build("h_metrics+FULL,MORE|h_metrics+FULL|h_metrics")
    cases = [list_case(ctx.rng) for _ in range(n)]
    cases += [list_case(ctx.rng, ctx.rng.randint(20, 60)) for _ in range(n // 15)]
    cases += [list_case(ctx.rng, ctx.rng.choice([70, 110, 140, 270])) for _ in range(ctx.pick(8, 60))]
    cases += [big_case(ctx.rng, k) for k in range(ctx.pick(24, 200))]
    cases = [c for c in cases if c.get("es") != []]
    ctx.validate_cases("CurveTrace", cases, list_runs(exe), name="metric functions", env={"JUDGE": ctx.pid})


# ------------------------------------------------------------------ checks
def check_c05(ctx):
    laws(ctx, ["CurveLaws"])
    function_traces(ctx, ctx.pick(500, 8000))


def check_c06(ctx):
    tools = Tools(ctx)
    laws(ctx, ["APLaws", "TieLaw"], quick=(3, 2))
    metric_replay(ctx, tools, [0], ctx.pick([(3, 1, True)], [(4, 1, True), (3, 2, True)]))
    function_traces(ctx, ctx.pick(250, 4000))
    report_traces(ctx, tools, ctx.pick(250, 4000))
    copies_traces(ctx, tools, ctx.pick(9, 60))


def check_c07(ctx):
    tools = Tools(ctx)
    laws(ctx, ["NDCGLaws"], quick=(3, 2))
    metric_replay(ctx, tools, [2], ctx.pick([(3, 1, True)], [(4, 1, True), (3, 2, True)]))
    function_traces(ctx, ctx.pick(250, 4000))
    report_traces(ctx, tools, ctx.pick(250, 4000))


def check_c08(ctx):
    tools = Tools(ctx)
    laws(ctx, ["APLaws", "NDCGLaws"], quick=(3, 2), thorough=(4, 3))
    metric_replay(ctx, tools, [1, 3], ctx.pick([(3, 2, False)], [(3, 3, True), (4, 2, False)]))
    function_traces(ctx, ctx.pick(250, 4000))
    report_traces(ctx, tools, ctx.pick(350, 5000), groups=True)
    copies_traces(ctx, tools, ctx.pick(9, 60), groups=True)


def check_c16(ctx):
    tools = Tools(ctx)
    laws(ctx, ["SampleLaws"], quick=(3, 2))
    function_traces(ctx, ctx.pick(250, 4000))
    report_traces(ctx, tools, ctx.pick(350, 5000), groups=True, curves=True)
    cases = []
    while len(cases) < ctx.pick(6, 40):
        c = tool_case(ctx.rng, tools.kinds, True, True)
        if 1 < len(c["p"]["refs"]) < 8:
            cases.append(dict(c, n=(66001, 35000, 70001, 1025)[len(cases) % 4]))
    ctx.validate_cases("ReportTrace", cases, tool_runs(tools), name="curves of very many points", env={"JUDGE": ctx.pid})
    copies_traces(ctx, tools, ctx.pick(6, 45), groups=True, curves=True)


def check_c21(ctx):
    laws(ctx, ["CollapseLaws", "TieLaw"], quick=(3, 2), thorough=(4, 2))
    function_traces(ctx, ctx.pick(600, 9000))
