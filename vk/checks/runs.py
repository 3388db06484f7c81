"""C04, C09, C18, C20, C22: what the outcome of a run may depend on."""
import re

from ..core import pmap, run_harness
from ..gen import codes, deep
from ..tool import (Runner, encode, f32, gen_labels, gen_problem, norm_hyp, ord_of, parse_dump, parse_out, text)
from . import matching, metrics, readers
from .metrics import COMBOS, MSCORES, Tools, bl, fix


def effective(o, sort="desc"):
    return ["--collapse_matches", bl(o[0]), "--interpolated_precision", bl(o[1]), "--trapezoid_integral", bl(o[2]), "--sort", sort]


def failed(r):
    return r["status"] != 0 or parse_out(r["out"]) is None


def crash_of(r):
    return {"crash": "status %s, %s %s" % (r["status"], r["out"][:120], r["err"][-150:])}


def batch_groups(tools, groups):
    """groups: one list of jobs per case; returns one list of results per case."""
    flat = [j for g in groups for j in g]
    res = tools.run(flat)
    out, k = [], 0
    for g in groups:
        out.append(res[k:k + len(g)])
        k += len(g)
    return out


# ------------------------------------------------------------------ C04
def rank_replay(ctx, tools):
    """Every small hypothesis file: the dump lists them in the specified order."""
    pairs = []
    for world in (1, 2):
        n = ctx.pick(3, 4)
        cfg = "CONSTANTS N = %d\n World = %d\n Show = TRUE\nSPECIFICATION Spec\nINVARIANT Laws Emit\n" % (n, world)
        behs = ctx.generate("RankGen", cfg, name=f"rankings of up to {n} hypotheses, world {world}", workers=8)
        vals = [b for b in behs if "values" in b][0]["values"]
        lines = [("%s" % chr(v["q"][0]), chr(v["d"][0]), v["x"], v["y"], v["w"], v["h"], str(v["s"])) for v in vals]
        for b in behs:
            if "hf" in b:
                for s in ("desc", "asc"):
                    pairs.append(((lines, b["hf"], s), ["%s %s %d %d %d %d %s" % lines[i - 1] for i in b[s]]))
                pairs.append(((lines, b["hf"], ctx.rng.choice(["none", "None", "DESC", "", "x"])), ["%s %s %d %d %d %d %s" % lines[i - 1] for i in b["hf"]]))

    def run(cs):
        jobs = [{"tool": "icdar", "files": {"r": "zz zz 1 1 1 1\n", "h": text([ls[i - 1] for i in hf])},
                 "args": ["--sort", s, "--dump_matches", "@m", "@r", "@h"], "reads": ["m"]} for ls, hf, s in cs]
        res = []
        for r in tools.run(jobs):
            d = parse_dump(r["files"]["m"])
            res.append([m[0] for m in d[0] if m[0] is not None] if r["status"] == 0 and d else "status %s" % r["status"])
        return res
    ctx.replay_expected("rankings of small files", pairs, run)


def order_case(rng, big=False):
    n = rng.randint(20, 70) if big else None
    p = gen_problem(rng, nref=n and n // 2, nhyp=n)
    p["sort"] = rng.choice(["desc", "desc", "asc", "none", "bogus"])
    p["o"] = list(rng.choice(COMBOS))
    p["tool"] = rng.choice(["icdar", "icdar", "soft"])
    perms = []
    for _ in range(2):
        rp, hp = list(range(len(p["refs"]))), list(range(len(p["hyps"])))
        rng.shuffle(rp)
        if p["sort"] in ("desc", "asc"):
            rng.shuffle(hp)
        if rng.random() < 0.3 and rp:          # multiplicity of references
            rp.insert(rng.randint(0, len(rp)), rng.choice(rp))
        perms.append((rp, hp))
    p["perms"] = [(list(range(len(p["refs"]))), list(range(len(p["hyps"]))))] + perms
    return p


def order_runs(tools):
    def jobs(p):
        t = p["tool"] if p["tool"] in tools.kinds else "icdar"
        return [{"tool": t, "files": {"r": text([p["refs"][i] for i in rp]), "h": text([p["hyps"][i] for i in hp])},
                 "args": effective(p["o"], p["sort"]) + ["--dump_matches", "@m", "@r", "@h"], "reads": ["m"]} for rp, hp in p["perms"]]

    def record(p, res):
        for r in res:
            if failed(r):
                return crash_of(r)
        enc, _, _ = encode(p)
        # equal values (0 and -0 included) get equal numbers
        rf = [[enc["rf"][i] for i in rp] for rp, _ in p["perms"]]
        hf = [[enc["hf"][i] for i in hp] for _, hp in p["perms"]]
        dumps = ["\n".join(norm_zero(ln) for ln in (r["files"]["m"] or "").split("\n")) for r in res]
        return {"rt": enc["rt"], "ht": enc["ht"],
                "runs": [{"rf": a, "hf": b, "sort": p["sort"], "obs": [r["out"], d]}
                         for a, b, r, d in zip(rf, hf, res, dumps)]}
    return lambda cases: [record(p, g) for p, g in zip(cases, batch_groups(tools, [jobs(p) for p in cases]))]


def norm_zero(ln):
    # 0 and -0 are one score with two printed forms
    return ln.replace(" -0, ", " 0, ")


def listed_runs(ctx, tools):
    """RankTrace: the hypotheses in the dump follow the ranking."""
    def one(p, r):
        d = parse_dump(r["files"]["m"])
        if r["status"] != 0 or d is None:
            return crash_of(r)
        enc, _, tid = encode(p)
        return {"ht": enc["ht"], "hf": enc["hf"], "sort": p["sort"], "all": not p["refs"],
                "out": [tid.get(norm_hyp(m[0]), -1) for m in d[0] if m[0] is not None]}

    def run(cases):
        jobs = [{"tool": "icdar", "files": {"r": text(p["refs"]), "h": text(p["hyps"])},
                 "args": ["--sort", p["sort"], "--dump_matches", "@m", "@r", "@h"], "reads": ["m"]} for p in cases]
        return [one(p, r) for p, r in zip(cases, tools.run(jobs))]
    return run


def check_c04(ctx):
    tools = Tools(ctx)
    rank_replay(ctx, tools)
    rng = ctx.rng
    cases = [order_case(rng) for _ in range(ctx.pick(250, 4000))] + [order_case(rng, True) for _ in range(ctx.pick(25, 400))]
    ctx.validate_cases("RunTrace", cases, order_runs(tools), name="permuted files", env={"JUDGE": "C04"})
    cases = []
    for k in range(ctx.pick(250, 4000)):
        big = k % 8 == 0
        p = gen_problem(rng, nref=0 if rng.random() < 0.5 else None, nhyp=rng.randint(17, 60) if big else None)
        p["sort"] = rng.choice(["desc", "desc", "asc", "none", "Desc"])
        cases.append(p)
    for k in range(ctx.pick(4, 24)):         # long files
        p = gen_problem(rng, nref=0, nhyp=rng.choice([300, 1100, 2100]), nd=2)
        p["sort"] = ("desc", "asc")[k % 2]
        cases.append(p)
    ctx.validate_cases("RankTrace", cases, listed_runs(ctx, tools), name="order of the dump")


# ------------------------------------------------------------------ C09
def set_text(rng, qs):
    qs = list(qs)
    rng.shuffle(qs)
    qs += [rng.choice(qs) for _ in range(rng.choice([0, 0, 2]))] if qs else []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        qs.insert(rng.randint(0, len(qs)), rng.choice(["unknown", "#", "#no", "\\a", "\"a\"", "a,b", "--", "*", "a#"]))
    seps = rng.choice([["\n"], [" "], ["\n", "\n\n", " ", "\t", "\r\n"]])
    out = rng.choice(["", "", "\n", " "])
    for i, q in enumerate(qs):
        out += q + (rng.choice(seps) if i + 1 < len(qs) or rng.random() < 0.7 else "")
    return out


def filter_case(rng, kinds, big=False):
    kind = rng.choice(kinds)
    n = rng.randint(15, 50) if big else None
    if kind == "simple":
        p = gen_labels(rng, nref=n, nhyp=n, scores=rng.sample(MSCORES, 4))
    elif kind == "soft":
        p = metrics.soft_problem(rng, n)
    else:
        p = gen_problem(rng, nref=n, nhyp=n)
    p["tool"] = kind
    p["o"] = list(rng.choice(COMBOS))
    p["sort"] = rng.choice(["desc", "desc", "asc", "none"])
    if kind == "simple" and p["sort"] != "none":
        p["o"][0] = True     # labels have no order of their own: ties must be collapsed
    qs = sorted({e[0] for e in p["refs"] + p["hyps"]}) or ["a"]
    listed = [q for q in qs if rng.random() < 0.6]
    if rng.random() < 0.5:
        p["mode"] = "set"
        txt = set_text(rng, listed or [rng.choice(["unknown", "#a", "#"])])
        keep = set(txt.split())
        p["variants"] = [{"set": txt}, {"set": set_text(rng, sorted(keep))}, {"pre": True}, {"pre": True, "set": txt}]
    else:
        p["mode"] = "grp"
        txt = metrics.groups_text(rng, listed or ["unknown"])
        keep = {f for ln in txt.split("\n") for f in ln.split()[1:]}
        other = set_text(rng, [rng.choice(qs)])
        p["variants"] = [{"grp": txt}, {"grp": txt, "set": other}, {"pre": True, "grp": txt}]
    p["keep"] = sorted(keep)
    return p


def filter_runs(tools):
    def files(p, v):
        rs, hs = p["refs"], p["hyps"]
        if v.get("pre"):
            rs = [e for e in rs if e[0] in p["keep"]]
            hs = [e for e in hs if e[0] in p["keep"]]
        return rs, hs

    def jobs(p):
        out = []
        for v in p["variants"]:
            rs, hs = files(p, v)
            f = {"r": text(rs), "h": text(hs)}
            a = effective(p["o"], p["sort"])
            for k, opt in (("grp", "--query_groups"), ("set", "--query_set")):
                if k in v:
                    f[k] = v[k]
                    a += [opt, "@" + k]
            out.append({"tool": p["tool"], "files": f, "args": a + ["--dump_matches", "@m", "@r", "@h"], "reads": ["m"]})
        return out

    def record(p, res):
        rows, rt, ht = {}, [], []

        def num(e, tab):
            k = (len(e), e)
            if k not in rows:
                tab.append({"q": codes(e[0]), "e": " ".join(str(x) for x in e)})
                rows[k] = len(tab)
            return rows[k]
        runs = []
        for v, r in zip(p["variants"], res):
            if failed(r):
                return crash_of(r)
            rs, hs = files(p, v)
            obs = [r["out"]] + ([r["files"]["m"]] if p["tool"] != "simple" else [])
            runs.append({"rf": [num(e, rt) for e in rs], "hf": [num(e, ht) for e in hs], "hasset": "set" in v,
                         "set": codes(v.get("set", "")), "hasgrp": "grp" in v, "grp": codes(v.get("grp", "")), "obs": obs})
        return {"rt": rt, "ht": ht, "runs": runs}
    return lambda cases: [record(p, g) for p, g in zip(cases, batch_groups(tools, [jobs(p) for p in cases]))]


def check_c09(ctx):
    tools, exe = Tools(ctx), ctx.build("tool:Icdar17KwsEval")
    rng = ctx.rng
    cases = [filter_case(rng, tools.kinds) for _ in range(ctx.pick(350, 5000))]
    cases += [filter_case(rng, tools.kinds, True) for _ in range(ctx.pick(30, 400))]
    for _ in range(ctx.pick(4, 24)):         # long files
        p = filter_case(rng, ["icdar", "simple"], True)
        for k in ("refs", "hyps"):
            p[k] = [rng.choice(p[k]) for _ in range(rng.choice([300, 1100, 2600, 4200]))] if p[k] else []
        cases.append(p)
    ctx.validate_cases("RunTrace", cases, filter_runs(tools), name="filtered and pre-filtered runs", env={"JUDGE": "C09"})
    cases = []
    for _ in range(ctx.pick(200, 3000)):
        p = dict(gen_problem(rng), sort=rng.choice(["desc", "asc", "none"]))
        qs = sorted({e[0] for e in p["refs"] + p["hyps"]}) or ["a"]
        listed = [q for q in qs if rng.random() < 0.6] or ["a"]
        c = rng.random()
        if c < 0.6:
            p["set"] = set_text(rng, listed)
        if c > 0.4:
            p["grp"] = metrics.groups_text(rng, listed)
        cases.append(p)
    ctx.validate_cases("ToolTrace", cases, matching.tool_run_factory(ctx, exe), name="filtered tool runs")


# ------------------------------------------------------------------ C18
def reuse_case(rng):
    """Calls on one matcher: related problems, often sharing values."""
    first = matching.problem(rng)
    calls = [first]
    for _ in range(rng.randint(1, 4)):
        c = dict(rng.choice(calls))
        x = rng.random()
        if x < 0.2:
            pass                                   # the same call again
        else:
            rs, hs = list(c["rs"]), list(c["hs"])
            if x < 0.5 and rs:
                rs = rng.sample(rs, rng.randint(0, len(rs)))
            elif x < 0.6:
                rs = []
            elif x < 0.7:
                hs = []
            else:
                rng.shuffle(hs)
                hs = hs[:rng.randint(0, len(hs))]
            c["rs"], c["hs"] = rs, hs
        calls.append(c)
    return calls


def reuse_runs(exe):
    def run(cases):
        scripts = [matching.script(c) + "\n" + "\n".join(matching.script(c, fresh=True).split("\n")[1:]) for c in cases]
        res = []
        for c, o in zip(cases, run_harness(exe, scripts)):
            if "crash" in o or len(o["calls"]) != 2 * len(c):
                res.append({"crash": str(o)[:300]})
                continue
            k = len(c)
            ins = [{"rs": x["rs"], "hs": x["hs"]} for x in c]
            res.append({"runs": [{"in": ins, "obs": o["calls"][:k]}, {"in": ins, "obs": o["calls"][k:]}]})
        return res
    return run


def check_c18(ctx):
    exe = ctx.build("h_match")
    rng = ctx.rng
    cases = [reuse_case(rng) for _ in range(ctx.pick(600, 10000))]
    ctx.validate_cases("RunTrace", cases, reuse_runs(exe), name="reused and fresh matchers", env={"JUDGE": "C18"})
    readers.reader_reuse(ctx)


# ------------------------------------------------------------------ C20
NAMES = ["a", "b", "ab", "B", "0", "1", "q", "zz", "\xe9", "x-y", "10", "2", "A.b", "l1", "#no", "~", "Q", "aa"]


def label_case(rng, big=False):
    nl = rng.randint(1, 7)
    n = rng.randint(15, 40) if big else None
    nref = rng.randint(0, 7) if n is None else n
    nhyp = rng.randint(0, 10) if n is None else n
    lab = lambda: rng.randint(0, nl - 1)
    refs = [(lab(), lab()) for _ in range(nref)]
    scores = rng.sample(MSCORES, rng.choice([1, 2, 4, 10]))
    hyps = []
    for _ in range(nhyp):
        q, d = rng.choice(refs) if refs and rng.random() < 0.6 else (lab(), lab())
        hyps.append((q, d, rng.choice(scores)))
    c = {"refs": refs, "hyps": hyps, "o": list(rng.choice(COMBOS)), "sort": rng.choice(["desc", "desc", "asc", "none"]), "nl": nl}
    x = rng.random()
    used = sorted({e[0] for e in refs + hyps}) or [0]
    if x < 0.25:
        c["set"] = [q for q in used if rng.random() < 0.6] or used[:1]
    elif x < 0.55:
        gs = list(range(nl + 1))
        c["grp"] = [(rng.choice(gs), q) for q in used if rng.random() < 0.8] or [(nl, used[0])]
    return c


def label_files(c, names, rows=None):
    refs, hyps = rows or (c["refs"], c["hyps"])
    if c.get("copies", 1) > 1:                   # whole world repeated with other labels
        return copied_files(c, names)
    f = {"r": text([(names[q], names[d]) for q, d in refs]), "h": text([(names[q], names[d], s) for q, d, s in hyps])}
    if c.get("pad"):                             # lines of queries outside the query set
        n = c["pad"]
        f["r"] = "".join("pad. p%d\n" % i for i in range(n)) + f["r"]
        f["h"] = "".join("p%d p%d 1\n" % (i, n + i) for i in range(n // 2)) + f["h"]
    a = effective(c["o"], c["sort"])
    if "set" in c:
        f["set"] = "".join(names[q] + "\n" for q in c["set"])
        a += ["--query_set", "@set"]
    if "grp" in c:
        f["grp"] = "".join("%s %s\n" % (names[g], names[q]) for g, q in c["grp"])
        a += ["--query_groups", "@grp"]
    return f, a + ["@r", "@h"]


def copied_files(c, names):
    nm = lambda q, k: names[q] + ("~%d" % k if k else "")
    ks = range(c["copies"])
    f = {"r": text([(nm(q, k), nm(d, k)) for q, d in c["refs"] for k in ks]),
         "h": text([(nm(q, k), nm(d, k), s) for k in ks for q, d, s in c["hyps"]])}
    a = effective(c["o"], c["sort"])
    if "set" in c:
        f["set"] = "".join(nm(q, k) + "\n" for q in c["set"] for k in ks)
        a += ["--query_set", "@set"]
    if "grp" in c:
        f["grp"] = "".join("%s %s\n" % (nm(g, k), nm(q, k)) for g, q in c["grp"] for k in ks)
        a += ["--query_groups", "@grp"]
    return f, a + ["@r", "@h"]


def good_names(rng, n):
    # a label may not look like a comment when it starts a line
    while True:
        s = rng.sample(NAMES, n)
        if "#no" not in s:
            return deep(rng, s)


def collapsible(c):
    return c["o"][0] and c["sort"] in ("desc", "asc")


def tie_free(c):
    """Distinct hypotheses have distinct scores."""
    seen = {}
    for q, d, s in c["hyps"]:
        if seen.setdefault(ord_of(f32(s)), (q, d)) != (q, d):
            return False
    return True


def label_runs(tools):
    """LabelTrace: one run against the specification."""
    def record(c, r):
        out = parse_out(r["out"])
        if failed(r):
            return crash_of(r)
        nm = c["names"]
        rt = sorted(set(c["refs"]))
        ht = sorted({(q, d, ord_of(f32(s))) for q, d, s in c["hyps"]})
        f, _ = label_files(dict(c, copies=1, pad=0), nm)
        o = c["o"]
        return {"copies": c.get("copies", 1), "rt": [{"q": codes(nm[q]), "d": codes(nm[d])} for q, d in rt],
                "ht": [{"q": codes(nm[q]), "d": codes(nm[d]), "s": s} for q, d, s in ht],
                "rf": [rt.index(e) + 1 for e in c["refs"]],
                "hf": [ht.index((q, d, ord_of(f32(s)))) + 1 for q, d, s in c["hyps"]],
                "sort": c["sort"], "hasset": "set" in c, "set": codes(f.get("set", "")), "hasgrp": "grp" in c,
                "grp": codes(f.get("grp", "")), "o": {"c": o[0], "i": o[1], "t": o[2]}, "v": [fix(m[1]) for m in out]}

    def run(cases):
        jobs = []
        for c in cases:
            f, a = label_files(c, c["names"])
            jobs.append({"tool": "simple", "files": f, "args": a})
        return [record(c, r) for c, r in zip(cases, tools.run(jobs))]
    return run


def rename_runs(tools):
    def prep(c):
        return [label_files(c, nm, rows) for nm, rows in zip(c["nms"], c["rows"])]

    def record(c, res):
        runs = []
        for (nm, rows), (f, _), r in zip(zip(c["nms"], c["rows"]), prep(c), res):
            if failed(r):
                return crash_of(r)
            refs, hyps = rows
            runs.append({"names": [codes(n) for n in nm], "refs": [{"q": codes(nm[q]), "d": codes(nm[d])} for q, d in refs],
                         "hyps": [{"q": codes(nm[q]), "d": codes(nm[d]), "s": ord_of(f32(s))} for q, d, s in hyps],
                         "hasset": "set" in c, "set": codes(f.get("set", "")), "hasgrp": "grp" in c, "grp": codes(f.get("grp", "")),
                         "anyorder": c["anyorder"], "obs": [fix(m[1]) for m in parse_out(r["out"])]})
        return {"runs": runs}

    def run(cases):
        groups = [[{"tool": "simple", "files": f, "args": a} for f, a in prep(c)] for c in cases]
        return [record(c, g) for c, g in zip(cases, batch_groups(tools, groups))]
    return run


def check_c20(ctx):
    tools = Tools(ctx)
    rng = ctx.rng
    cases = []
    for k in range(ctx.pick(350, 5000)):
        c = label_case(rng, k % 12 == 0)
        if not (c["o"][0] or c["sort"] == "none" or tie_free(c)):
            c["o"][0] = True
        c["names"] = good_names(rng, c["nl"] + 1)
        cases.append(c)
    ctx.validate_cases("LabelTrace", cases, label_runs(tools), name="segmentation-based runs")
    # very many labels: those of other queries, or many copies of a small world
    ctx.model_check("Replication", "CONSTANTS N = %d\n Copies = {2, 3}\nSPECIFICATION Spec\nINVARIANT Law\n" % ctx.pick(3, 4), name="copies of a world have its metrics", workers=8)
    cases = []
    for k in range(ctx.pick(24, 120)):
        c = label_case(rng)
        while not c["refs"] and not c["hyps"]:
            c = label_case(rng)
        c["names"] = good_names(rng, c["nl"] + 1)
        if k % 2:
            c.pop("grp", None)
            c["set"] = sorted({e[0] for e in c["refs"] + c["hyps"]})
            c["pad"] = rng.choice([300, 33000, 70000, 140000])
            if not (c["o"][0] or c["sort"] == "none" or tie_free(c)):
                c["o"][0] = True
        else:
            c["sort"] = rng.choice(["desc", "asc"])
            c["o"][0] = True
            c["copies"] = max(2, rng.choice([40, 300, 33000, 70000]) // (len(c["refs"]) + len(c["hyps"])))
        cases.append(c)
    ctx.validate_cases("LabelTrace", cases, label_runs(tools), name="very many labels")
    cases = []
    for k in range(ctx.pick(250, 4000)):
        c = label_case(rng, k % 12 == 0)
        c["anyorder"] = collapsible(c)
        c["nms"] = [good_names(rng, c["nl"] + 1) for _ in range(3)]
        c["rows"] = [(c["refs"], c["hyps"])]
        for _ in range(2):
            rs, hs = list(c["refs"]), list(c["hyps"])
            if c["anyorder"]:
                rng.shuffle(rs)
                rng.shuffle(hs)
            c["rows"].append((rs, hs))
        cases.append(c)
    ctx.validate_cases("RunTrace", cases, rename_runs(tools), name="renamed and permuted runs", env={"JUDGE": "C20"})


# ------------------------------------------------------------------ C22
def channel_case(rng, kinds, big=False):
    c = metrics.tool_case(rng, kinds, big=big)
    p = c["p"]
    base = {"collapse_matches": bl(c["o"][0]), "interpolated_precision": bl(c["o"][1]), "trapezoid_integral": bl(c["o"][2]), "sort": c["sort"]}
    default = {"collapse_matches": "true", "interpolated_precision": "true", "trapezoid_integral": "true", "sort": "desc"}
    qs = sorted({e[0] for e in p["refs"] + p["hyps"]}) or ["a"]
    files = {"r": text(p["refs"]), "h": text(p["hyps"])}
    if rng.random() < 0.3:
        files["s"] = set_text(rng, [q for q in qs if rng.random() < 0.7] or qs[:1])
        base["query_set"] = "@s"
    if rng.random() < 0.3:
        files["g"] = metrics.groups_text(rng, qs)
        base["query_groups"] = "@g"
    neutral = {"bootstrap_ci_gap": ["false"], "bootstrap_ci_map": ["false", "0"], "bootstrap_samples": ["10000", "7"],
               "bootstrap_seed": ["1", "74565"], "bootstrap_alpha": ["0.05", "0.5"], "rp_curve_samples": ["10000", "5", "2", "1", "0"]}
    runs = [{"opts": sorted(base.items()), "how": "file", "dd": False}]
    for _ in range(3):
        opts = [(k, v) for k, v in base.items() if default.get(k) != v or rng.random() < 0.5]   # defaults omitted or not
        if rng.random() < 0.3 and opts:          # an earlier value is replaced
            k, v = rng.choice(opts)
            early = {"sort": "asc", "query_set": "@nosuch", "query_groups": "@nosuch"}.get(k, "false")
            opts = [(k, early)] + opts
            rest = opts[1:]
            rng.shuffle(rest)
            opts = opts[:1] + rest
        else:
            rng.shuffle(opts)
        for k in rng.sample(sorted(neutral), rng.randint(0, 3)):
            opts.insert(rng.randint(0, len(opts)), (k, rng.choice(neutral[k])))
        for k, v in (("dump_matches", "@m"), ("output_grp", "@gc"), ("output_mrp", "@mc")):
            if rng.random() < 0.5:
                opts.insert(rng.randint(0, len(opts)), (k, v))
                if k != "dump_matches" and not any(o[0] == "rp_curve_samples" for o in opts):
                    opts.append(("rp_curve_samples", "11"))
        runs.append({"opts": opts, "how": rng.choice(["file", "stdin"]), "dd": rng.random() < 0.3})
    return {"tool": c["tool"], "files": files, "runs": runs}


def channel_job(c, r):
    args = []
    for k, v in r["opts"]:
        args += ["--" + k, v]
    if r["dd"]:
        args.append("--")
    args.append("@r")
    job = {"tool": c["tool"], "files": dict(c["files"]), "args": args, "reads": ["m", "gc", "mc"]}
    if r["how"] == "file":
        args.append("@h")
    else:
        job["stdin"] = c["files"]["h"]
    return job


def channel_runs(tools):
    def record(c, res):
        runs = []
        for r, x in zip(c["runs"], res):
            if failed(x):
                return crash_of(x)
            runs.append({"rf": c["files"]["r"], "hf": c["files"]["h"], "opts": [list(o) for o in r["opts"]],
                         "obs": [m[1] for m in parse_out(x["out"])]})
        return {"runs": runs}
    return lambda cases: [record(c, g) for c, g in zip(cases, batch_groups(tools, [[channel_job(c, r) for r in c["runs"]] for c in cases]))]


def repeat_runs(ctx, exes):
    """The real programs, twice, byte for byte."""
    rn = {k: Runner(ctx, e) for k, e in exes.items()}

    def one(c):
        j = channel_job(c, c["runs"][-1])
        runs = []
        for n in (0, 1):
            if n and len(j["files"]["h"]) % 3 == 0:      # whatever the outputs held before
                j["files"].update((o, "old\n" * (1 + len(j["files"]["r"]) % 400)) for o in j["reads"] if "@" + o in j["args"])
            x = rn[c["tool"]].run(j["files"], j["args"], j.get("stdin"), j["reads"])
            if failed(x):
                return crash_of(x)
            runs.append({"rf": c["files"]["r"], "hf": c["files"]["h"], "opts": [list(o) for o in c["runs"][-1]["opts"]],
                         "obs": [x["out"], x["err"]] + [x["files"][n] or "" for n in j["reads"]]})
        return {"runs": runs}
    return lambda cases: pmap(one, cases)


def check_c22(ctx):
    tools = Tools(ctx)
    a, b = ctx.build("tool:Icdar17KwsEval", "tool:SimpleKwsEval")
    rng = ctx.rng
    cases = [channel_case(rng, tools.kinds, k % 15 == 0) for k in range(ctx.pick(350, 5000))]
    ctx.validate_cases("RunTrace", cases, channel_runs(tools), name="same evaluation, other diagnostics and channels", env={"JUDGE": "C22"})
    cases = [channel_case(rng, ("icdar", "simple"), k % 15 == 0) for k in range(ctx.pick(80, 1000))]
    ctx.validate_cases("RunTrace", cases, repeat_runs(ctx, {"icdar": a, "simple": b}), name="repeated runs", env={"JUDGE": "C22"})


# ------------------------------------------------------------------ C24
FACTS = [("references", r"^INFO: Number of reference events read = (\d+)$"), ("hypotheses", r"^INFO: Number of hypothesis events read = (\d+)$"),
         ("queries", r"^INFO: (\d+) queries were read from \".*\"$"), ("groups", r"^INFO: (\d+) groups were read from \".*\"$"),
         ("kept references", r"^INFO: Number of kept reference events = (\d+)$"), ("kept hypotheses", r"^INFO: Number of kept hypothesis events = (\d+)$"),
         ("effective", r"^INFO: Effective number of hypotheses is (\d+)\. "), ("unsorted", r"^WARN: Ignoring sorting criterion ()")]


def facts_of(err):
    out = []
    for ln in err.split("\n"):
        for what, rx in FACTS:
            m = re.match(rx, ln)
            if m:
                out.append([what, int(m.group(1) or 0)])
        if ln.startswith("ERROR"):
            out.append(["error", 0])
    return out


def noted(rng, rows):
    """The lines of a file, with comments and blank lines that are no events."""
    out = []
    for r in rows:
        while rng.random() < 0.1:
            out.append(rng.choice(["# a d 1 2 3 4 5\n", "\n", " \t\n", "#\n"]))
        out.append(text([r]))
    return "".join(out) + rng.choice(["", "", "#", "\n"])


def told_case(rng, kinds):
    p = filter_case(rng, kinds, rng.random() < 0.1)
    p["sort"] = rng.choice(["desc", "desc", "asc", "none", "Desc", "score", "ascending", "", "no"])
    p["v"] = rng.choice([v for v in p["variants"] if not v.get("pre")] + [{}])
    if rng.random() < 0.15:
        p["v"] = rng.choice([{"set": rng.choice(["", "\n", " \t"])}, {"grp": ""}, {"set": "nobody"}, {"grp": "g nobody\n"}])
    if p["hyps"] and rng.random() < 0.5:       # many repetitions
        p["hyps"] = [rng.choice(p["hyps"]) for _ in range(len(p["hyps"]) + rng.randint(0, 5))]
    p["texts"] = [noted(rng, p["refs"]), noted(rng, p["hyps"])]
    p["extra"] = rng.choice([[], [], ["--bootstrap_ci_gap", "true", "--bootstrap_samples", "3"], ["--collapse_matches", "false"]])
    p["stdin"] = rng.random() < 0.2
    return p


def told_runs(tools):
    def job(p):
        f = {"r": p["texts"][0], "h": p["texts"][1]}
        a = ["--sort", p["sort"], "--dump_matches", "@m"] + p["extra"]
        for k, opt in (("grp", "--query_groups"), ("set", "--query_set")):
            if k in p["v"]:
                f[k] = p["v"][k]
                a += [opt, "@" + k]
        j = {"tool": p["tool"], "files": f, "args": a + ["@r"] + ([] if p["stdin"] else ["@h"]), "reads": ["m"]}
        if p["stdin"]:
            j["stdin"] = f["h"]
        return j

    def record(p, r):
        d = parse_dump(r["files"].get("m"))
        if failed(r) or d is None:
            return crash_of(r)
        v = p["v"]
        return {"rq": [codes(e[0]) for e in p["refs"]], "hq": [codes(e[0]) for e in p["hyps"]], "hasset": "set" in v, "set": codes(v.get("set", "")),
                "hasgrp": "grp" in v, "grp": codes(v.get("grp", "")), "sort": p["sort"], "eff": sum(1 for m in d[0] if m[0] is not None),
                "facts": facts_of(r["err"])}
    return lambda cases: [record(p, r) for p, r in zip(cases, tools.run([job(p) for p in cases]))]


def check_c24(ctx):
    tools = Tools(ctx)
    rng = ctx.rng
    cases = [told_case(rng, tools.kinds) for _ in range(ctx.pick(1500, 15000))]
    for _ in range(ctx.pick(3, 20)):          # long files: a few different lines many times
        p = told_case(rng, ["simple", "icdar"])
        p["stdin"] = False
        for k, i in (("refs", 0), ("hyps", 1)):
            p[k] = [rng.choice(p[k]) for _ in range(rng.choice([300, 1025, 4000]))] if p[k] else []
            p["texts"][i] = noted(rng, p[k])
        cases.append(p)
    ctx.validate_cases("DiagTrace", cases, told_runs(tools), name="diagnostics of runs")
