"""C01, C02: the greedy matching (harness on the matcher, and the box tool end to end).
C18 (matcher part): a reused matcher carries nothing over."""
from ..core import pmap, run_harness
from ..gen import box, codes, deep, ev, ev_line
from ..tool import (UNIT, Runner, encode, encode_dump, f32_bits, gen_problem, ord_of, parse_dump, text)

SCOREBITS = [0x3f000000, 0x3f800000, 0xbf800000, 0x00000000, 0x80000000, 0x3e99999a, 0x41200000, 0x00000001,
             0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000]


def ord_bits(b):
    if b & 0x7fffffff == 0:
        return 0
    return -(b & 0x7fffffff) if b & 0x80000000 else b


# ------------------------------------------------------------------ harness cases
def problem(rng, size=None):
    """One call on the real matcher: distinct values and sequences of their numbers."""
    kind = rng.choice(["int", "uint", "uint", "plain", "table", "table"])
    nr = rng.randint(0, 6) if size is None else size
    nh = rng.randint(0, 9) if size is None else size + size // 3
    if kind == "table":
        rt = [ev("r", "", i + 1) for i in range(nr)]
        ht, pref = [], []
        for i in range(max(1, nh) if nh else 0):
            ht.append(dict(ev("h", "", i + 1), s=SCOREBITS[0]))
            k = rng.randint(0, min(nr, 5))
            cands = rng.sample(range(1, nr + 1), k)
            pref.append([[c, rng.choice([0, 0, 0, UNIT // 4, UNIT // 64 * 63, UNIT - 1, UNIT, UNIT, UNIT * 2]), rng.choice([0, 0, 8, UNIT // 8, UNIT])] for c in cands])
        rule = {"k": "table", "n": 1, "d": 1}
    elif kind == "plain":
        qs, ds = ["a", "b", "ab"], ["x", "y", "\xff", ""][:rng.randint(1, 4)]
        univ = [ev(q, d) for q in qs for d in ds]
        rt = rng.sample(univ, min(nr, len(univ)))
        ht = [dict(e, s=rng.choice(SCOREBITS)) for e in rng.sample(univ, min(nh, len(univ)))]
        rule, pref = {"k": "triv", "n": 1, "d": 1}, None
    else:
        rule = rng.choice([{"k": "ioh", "n": n, "d": d} for n, d in ((1, 2), (1, 2), (1, 4), (3, 4), (1, 1), (0, 1))] +
                          [{"k": "iou", "n": n, "d": d} for n, d in ((1, 2), (1, 4), (1, 1))] +
                          [{"k": "soft", "n": 1, "d": 1}] * 3 + [{"k": "triv", "n": 1, "d": 1}])
        qs = deep(rng, rng.sample(["a", "b", "ab"], rng.randint(1, 2)))
        ds = deep(rng, rng.sample(["d", "e", ""], rng.randint(1, 2)))
        style = rng.choice([None, "grid", "line", "rand", "unit"])
        huge = rng.random() < 0.4

        def b():
            if rule["k"] == "soft" and huge and rng.random() < 0.5:
                return rng.randint(0, 3), rng.randint(0, 3), rng.choice([256, 1024, 1024]), rng.choice([256, 1024, 1024])
            if rule["k"] == "soft":
                return rng.randint(0, 3), rng.randint(0, 3), rng.choice([0, 1, 2, 4, 4]), rng.choice([1, 2, 4, 8])
            return box(rng, style)
        rt = []
        for _ in range(nr):
            e = ev(rng.choice(qs), rng.choice(ds), *b())
            if e not in rt:
                rt.append(e)
        ht = []
        for _ in range(nh):
            if rt and rng.random() < 0.5:
                e = dict(rng.choice(rt))
                c = rng.random()
                if rule["k"] == "soft":
                    e["x"] += rng.choice([0, 1, 2])
                elif c < 0.4:
                    e["x"] += e["w"] // 2
                elif c < 0.6:
                    e["w"] *= 2
            else:
                e = ev(rng.choice(qs), rng.choice(ds), *b())
            e = dict(e, s=rng.choice(SCOREBITS))
            if not any(o["s"] == e["s"] or ord_bits(o["s"]) == ord_bits(e["s"]) for o in ht if dict(o, s=0) == dict(e, s=0)):
                ht.append(e)
        pref = None
    rs = list(range(1, len(rt) + 1))
    rs += [rng.choice(rs) for _ in range(rng.choice([0, 0, 2]))] if rs else []
    rng.shuffle(rs)
    hs = [rng.randint(1, len(ht)) for _ in range(nh + rng.choice([0, 0, 3]))] if ht else []
    if rng.random() < 0.7 and ht:
        hs = list(dict.fromkeys(hs)) + hs[:rng.randint(0, 2)]
    p = {"kind": kind, "rule": rule, "rt": rt, "ht": ht, "rs": rs, "hs": hs}
    if pref is not None:
        p["pref"] = pref
    return p


def crowd(rng):
    """Very many references (or claims of one reference) at one spot."""
    n, claims = rng.choice([(2, 280), (3, 140), (17, 12), (33, 8), (33, 40), (40, 8), (66, 6), (130, 4)])
    rule = rng.choice([{"k": "ioh", "n": a, "d": b} for a, b in ((1, 2), (1, 4), (0, 1))] + [{"k": "iou", "n": 1, "d": 4}, {"k": "triv", "n": 1, "d": 1}])
    rt, seen = [], set()
    while len(rt) < n:
        b = (rng.randint(0, 12), rng.randint(0, 9), rng.randint(24, 40), rng.randint(20, 30))
        if b not in seen:
            seen.add(b)
            rt.append(ev("a", "d", *b))
    ht = []
    for k in range(min(claims, 12)):
        e = dict(rng.choice(rt)) if rng.random() < 0.7 else ev("a", "d", rng.randint(0, 9), rng.randint(0, 9), rng.randint(10, 60), rng.randint(10, 40))
        e = dict(e, s=f32_bits(1000.0 - k))
        if rng.random() < 0.3:
            e["x"] += rng.choice([1, 2, 5])
        ht.append(e)
    rs = list(range(1, n + 1))
    rng.shuffle(rs)
    hs = list(range(1, len(ht) + 1))
    if claims > 12:      # one spot claimed over and over
        hs = [rng.choice(hs[:2]) for _ in range(claims)]
    return {"kind": rng.choice(["int", "uint"]), "rule": rule, "rt": rt, "ht": ht, "rs": rs, "hs": hs}


def script(calls, fresh=False):
    k = calls[0]
    out = ["kind %s %s %d %d" % (k["kind"], k["rule"]["k"], k["rule"]["n"], k["rule"]["d"])]
    for c in calls:
        if fresh:
            out.append("fresh")
        out.append("call")
        for i in c["rs"]:
            out.append("r %d %s" % (i, ev_line(c["rt"][i - 1])))
        for i in c["hs"]:
            out.append("h %d %s %d" % (i, ev_line(c["ht"][i - 1]), c["ht"][i - 1]["s"]))
        for i, p in enumerate(c.get("pref", [])):
            out.append("p %d %s" % (i + 1, " ".join("%d:%d:%d" % tuple(x) for x in p)))
    return "\n".join(out)


def record(c, call):
    r = {"plain": c["kind"] == "plain", "rule": c["rule"], "rt": c["rt"],
         "ht": [dict(h, s=ord_bits(h["s"])) for h in c["ht"]], "rs": c["rs"], "hs": c["hs"],
         "out": call["out"], "rep": call["rep"]}
    if "pref" in c:
        r["pref"] = c["pref"]
    return r


def run_factory(exe):
    def run(cases):
        outs = run_harness(exe, [script([c]) for c in cases])
        return [{"crash": str(o)[:300]} if "crash" in o or len(o["calls"]) != 1 else record(c, o["calls"][0])
                for c, o in zip(cases, outs)]
    return run


# ------------------------------------------------------------------ the box tool
def tool_run_factory(ctx, exe, account=False):
    rn = Runner(ctx, exe)

    def one(p):
        n = p.get("copies", 1)
        if n == 1:
            files = {"r": text(p["refs"]), "h": text(p["hyps"])}
        else:                      # the same world in n copies, with documents of their own
            cp = lambda rows: text([(r[0], "%d~%s" % (k, r[1])) + tuple(r[2:]) for r in rows for k in range(n)])
            files = {"r": cp(p["refs"]), "h": cp(p["hyps"])}
        if "old" in p:             # the dump replaces whatever was there
            files["m"] = p["old"]
        args = []
        for k, o in (("set", "--query_set"), ("grp", "--query_groups")):
            if k in p:
                files[k] = p[k]
                args += [o, "@" + k]
        r = rn.run(files, args + ["--dump_matches", "@m", "--sort", p.get("sort", "desc"), "@r", "@h"], reads=["m"])
        d = parse_dump(r["files"]["m"])
        if r["status"] != 0 or d is None:
            return {"crash": "status %s %s" % (r["status"], r["err"][-200:])}
        same = True
        if n > 1:
            parts = by_copy(d, n)
            same = parts is not None and all(x == parts[0] for x in parts)
            d = parts[0] if parts else ([], [])
        enc, rtext, tid = encode(p)
        out, rep = encode_dump(d, rtext, tid)
        rec = dict(enc, same=same, sort=p.get("sort", "desc"), out=out, rep=rep, hasset="set" in p, set=codes(p.get("set", "")),
                   hasgrp="grp" in p, grp=codes(p.get("grp", "")))
        if account:   # records of AccountTrace: ranking given, values by printed form
            rk = sorted(range(len(p["hyps"])), key=lambda i: rank_key(p["hyps"][i]), reverse=True)
            tab = {}
            for h, i in zip(p["hyps"], enc["hf"]):
                tab[enc["ht"][i - 1]["t"]] = enc["ht"][i - 1]
            ht = [tab[t] for t in range(1, len(tab) + 1)]
            rec = {"plain": False, "rule": {"k": "ioh", "n": 1, "d": 2}, "rt": enc["rt"], "ht": ht, "rs": enc["rf"],
                   "hs": [enc["ht"][enc["hf"][i] - 1]["t"] for i in rk], "out": out, "rep": rep}
        return rec
    return lambda cases: pmap(one, cases)


def by_copy(d, n):
    """The dump of a replicated world, per copy. None if it has strange entries."""
    parts = [([], []) for _ in range(n)]
    for w in (0, 1):
        for m in d[w]:
            ks, ev = set(), []
            for t in m[:2]:
                if t is None:
                    ev.append(None)
                    continue
                f = t.split(" ")
                k, _, doc = f[1].partition("~")
                if not k.isdigit() or int(k) >= n:
                    return None
                ks.add(int(k))
                ev.append(" ".join([f[0], doc] + f[2:]))
            if len(ks) != 1:
                return None
            parts[ks.pop()][w].append(tuple(ev) + m[2:])
    return parts


def rank_key(h):
    from ..tool import f32
    return (f32(h[6]), h[0].encode("latin-1"), h[1].encode("latin-1"), h[2], h[3], h[4], h[5])


def spec_replay(ctx, exe):
    """Every matching problem of a small world, through the real matcher."""
    ctx.model_check("MatchingGen", "CONSTANTS NR = 3\n NH = %d\n Show = FALSE\nSPECIFICATION GSpec\nINVARIANT Laws\n" % ctx.pick(3, 4),
                    name="laws of the matching machine", workers=8)
    worlds = [(2, 3), (3, 3)] if not ctx.thorough else [(2, 4), (3, 4)]
    for nr, nh in worlds:
        behs = ctx.generate("MatchingGen", f"CONSTANTS NR = {nr}\n NH = {nh}\n Show = TRUE\nSPECIFICATION GSpec\nINVARIANT Emit\n",
                            name=f"matchings of {nh} hypotheses and {nr} references", workers=8)
        if not ctx.thorough and len(behs) > 3000:
            behs = ctx.rng.sample(behs, 3000)
        pairs = []
        for b in behs:
            n, k = b["nr"], len(b["hyps"])
            pref = []
            for c in b["hyps"]:
                un = [r for r in range(1, n + 1) if r not in c]
                # candidates the scorer refuses are interspersed
                p = [[r, 0, 0] for r in c]
                for r in un:
                    p.insert(ctx.rng.randint(0, len(p)), [r, UNIT, UNIT])
                pref.append(p)
            case = {"kind": "table", "rule": {"k": "table", "n": 1, "d": 1}, "rt": [ev("r", "", i + 1) for i in range(n)],
                    "ht": [dict(ev("h", "", i + 1), s=SCOREBITS[1]) for i in range(k)], "rs": ctx.rng.sample(range(1, n + 1), n),
                    "hs": list(range(1, k + 1)), "pref": pref}

            def show(e):
                h, r = e["h"], (e["r"][0] if e["r"] else 0)
                return [h, r] + ([0, UNIT] if h == 0 else [UNIT, 0] if r == 0 else [0, 0])
            pairs.append((case, {"out": [show(e) for e in b["result"]], "rep": [show(e) for e in b["repeated"]]}))

        def run(cases):
            return [o["calls"][0] if "calls" in o else o for o in run_harness(exe, [script([c]) for c in cases])]
        ctx.replay_expected(f"matchings {nr}x{nh}", pairs, run)


def sized(ctx):
    r = ctx.rng
    cases = [problem(r) for _ in range(ctx.pick(700, 12000))]
    cases += [problem(r, r.randint(15, 30)) for _ in range(ctx.pick(20, 300))]
    cases += [crowd(r) for _ in range(ctx.pick(24, 200))]
    return cases


def tool_cases(ctx, sorts=("desc",)):
    r = ctx.rng
    cases = [dict(gen_problem(r), sort=r.choice(sorts)) for _ in range(ctx.pick(250, 4000))]
    for p in cases[::11]:
        p["old"] = r.choice(["", "Match[Hyp=a d 1 1 1 1 1, Error=MatchError[fp=1, fn=0, nh=1, nr=0]]\n" * r.choice([1, 90])])
    cases += [dict(gen_problem(r, nref=r.randint(10, 40), nhyp=r.randint(20, 60)), sort=r.choice(sorts))
              for _ in range(ctx.pick(10, 150))]
    return cases


def check_c01(ctx):
    exe, tool = ctx.build("h_match", "tool:Icdar17KwsEval")
    ctx.model_check("MatchingGen", "CONSTANTS NR = 3\n NH = %d\n Show = FALSE\nSPECIFICATION GSpec\nINVARIANT Laws\n" % ctx.pick(3, 4),
                    name="laws of the matching machine", workers=8)
    ctx.validate_cases("AccountTrace", sized(ctx), run_factory(exe), name="matcher accounting")
    ctx.validate_cases("AccountTrace", tool_cases(ctx), tool_run_factory(ctx, tool, account=True), name="tool accounting")


def check_c02(ctx):
    exe, tool = ctx.build("h_match", "tool:Icdar17KwsEval")
    spec_replay(ctx, exe)
    ctx.validate_cases("MatchTrace", sized(ctx), run_factory(exe), name="matcher runs")
    ctx.validate_cases("ToolTrace", tool_cases(ctx), tool_run_factory(ctx, tool), name="tool runs")
    r = ctx.rng
    cases = []
    for _ in range(ctx.pick(16, 100)):
        p = dict(gen_problem(r, nref=r.randint(1, 8), nhyp=r.randint(2, 10)), sort=r.choice(["desc", "asc", "none"]))
        p["copies"] = max(2, r.choice([100, 3000, 20000]) // (len(p["refs"]) + len(p["hyps"])))
        if len(cases) < ctx.pick(2, 8):
            p["copies"] = 70000 // len(p["hyps"]) + 1
        cases.append(p)
    ctx.validate_cases("ToolTrace", cases, tool_run_factory(ctx, tool), name="tool runs over many documents")
