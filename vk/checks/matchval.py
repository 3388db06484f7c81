"""C19: matches are values."""
from ..core import run_harness

FIELDS = ("o", "i", "j", "r", "h", "fp", "fn")


def script(c):
    return "\n".join(["val %s %d" % (c["kind"], c["n"])] + ["op " + " ".join(str(o[f]) for f in FIELDS) for o in c["ops"]])


def runner(exe):
    def run(cases):
        recs = []
        for c, o in zip(cases, run_harness(exe, [script(c) for c in cases], timeout=200)):
            if "ops" not in o or len(o["ops"]) != len(c["ops"]):
                recs.append({"crash": str(o)[:400]})
                continue
            recs.append({"n": c["n"], "ops": [dict(c=x, **b) for x, b in zip(c["ops"], o["ops"])]})
        return recs
    return run


ALL = ["default", "fp", "fn", "full", "copy", "assign", "move", "swap", "aliasref", "aliashyp", "aliaserr", "setref", "sethyp",
       "seterr", "err", "push", "pushself", "insert", "insertself", "vswap", "vassign", "store", "load", "erase", "rotate",
       "vsetref", "realloc", "reverse", "vself"]
SOME = ["fp", "copy", "assign", "move", "aliasref", "setref", "push", "vassign", "load", "erase"]
MASS = [0, 64, 16, 40, 63, 1]


def gen_case(rng, length):
    """Random history; keeps track of what is known only to stay within the
    operations whose result is specified."""
    n, maxv = rng.randint(1, 4), rng.choice([2, 4, 9])
    known, vlen, ref, hyp, vref = [True] * n, 0, [0] * n, [0] * n, 0
    ops = []
    R, H = rng.randint(1, 6), rng.randint(1, 6)
    names = (["full"] * 3 + ["assign"] * 3 + ["push"] * 2 + ["default", "err", "fp", "fn", "setref", "sethyp", "seterr", "copy", "chain", "move", "move", "swap",
             "aliasref", "aliashyp", "aliaserr", "pushself", "emplace", "insert", "insertself", "erase", "vswap", "vassign",
             "load", "store", "vsetref", "vsethyp", "vseterr", "rotate", "reverse", "resize", "realloc", "vself", "clear"])
    vals = [dict(r=0, h=0) for _ in range(n)]
    while len(ops) < length:
        o = rng.choice(names)
        if o == "clear" and rng.random() < 0.7:
            continue
        c = dict(o=o, i=0, j=0, r=rng.randint(1, R), h=rng.randint(1, H), fp=rng.choice(MASS), fn=rng.choice(MASS))
        i, j = rng.randrange(n), rng.randrange(n)
        if o in ("default", "err", "fp", "fn", "full"):
            c["i"] = i + 1
            vals[i] = dict(r=c["r"] if o in ("fn", "full") else 0, h=c["h"] if o in ("fp", "full") else 0)
        elif o in ("setref", "sethyp", "seterr"):
            if not vals[i]:
                continue
            c["i"] = i + 1
            if o == "setref":
                vals[i]["r"] = c["r"]
            if o == "sethyp":
                vals[i]["h"] = c["h"]
        elif o in ("copy", "assign", "move", "chain"):
            if not vals[j]:
                continue
            c["i"], c["j"] = i + 1, j + 1
            vals[i] = dict(vals[j])
            if o == "move" and i != j:
                vals[j] = None
        elif o in ("aliasref", "aliashyp", "aliaserr", "swap"):
            k = {"aliasref": "r", "aliashyp": "h"}.get(o)
            if not vals[i] or not vals[j] or (k and not vals[j][k]):
                continue
            c["i"], c["j"] = i + 1, j + 1
            if o == "swap":
                vals[i], vals[j] = vals[j], vals[i]
            elif k:
                vals[i][k] = vals[j][k]
        elif o in ("push", "insert", "emplace", "pushself", "insertself"):
            if vlen >= maxv or (o in ("push", "insert") and not vals[j]) or (o.endswith("self") and not vlen):
                continue
            c["i"] = rng.randint(1, vlen + 1) if o.startswith("insert") else 0
            c["j"] = rng.randint(1, vlen) if o.endswith("self") else 0 if o == "emplace" else j + 1
            vlen += 1
        elif o in ("erase", "rotate", "vsetref", "vsethyp", "vseterr", "vswap", "vassign", "load", "store"):
            if not vlen or (o == "store" and not vals[j]):
                continue
            c["i"] = rng.randint(1, vlen)
            c["j"] = rng.randint(1, vlen) if o in ("vswap", "vassign") else 0
            if o == "erase":
                vlen -= 1
            if o == "load":
                c["i"], c["j"] = i + 1, c["i"]
                vals[i] = None      # not tracked any more: only overwritten from here on
                vals[i] = dict(r=0, h=0)
            if o == "store":
                c["j"] = j + 1
        elif o == "resize":
            vlen = rng.randint(0, maxv)
            c["i"] = vlen
        elif o == "clear":
            vlen = 0
        ops.append(c)
    return {"kind": rng.choice(["box", "plain", "int"]), "n": n, "ops": ops}


def check(ctx):
    exe = ctx.build("h_value+ASAN")
    consts = "CONSTANTS N = 2\n Refs = {%s}\n Hyps = {1}\n Masses = {16}\n MaxV = %d\n Names = {%s}\n"
    cfg = consts % ("1, 2", ctx.pick(1, 2), quoted(ALL)) + "SPECIFICATION VSpec\nVIEW View\nINVARIANTS VectorKnown Equality\nPROPERTY Independent\n"
    ctx.model_check("MatchValue", cfg, name="values, bounded vector", workers=8)
    run = runner(exe)
    rng = ctx.rng
    start = [dict(o="full", i=1, j=0, r=2, h=1, fp=0, fn=0)]
    for name, names, depth in [("all histories of length 2", ALL, 2), ("histories of assignments of length 3", SOME, 3)] + ctx.pick([], [("all histories of length 3", ALL, 3)]):
        cfg = consts % ("2", 2, quoted(names)) + " Depth = %d\nSPECIFICATION GSpec\nINVARIANT Emit\n" % depth
        behs = ctx.generate("MatchValueGen", cfg, name=name, workers=8)
        pairs = []
        for b in behs:
            pairs.append(({"kind": rng.choice(["box", "plain", "int"]), "n": 2, "ops": start + b["ops"]},
                          [None if m["ref"] == -1 else [m["ref"], m["hyp"], m["fp"], m["fn"]] for m in b["slots"] + b["vec"]]))
        replay(ctx, name, pairs, run)
    cases = [gen_case(rng, rng.randint(3, 20)) for _ in range(ctx.pick(700, 8000))] + [gen_case(rng, 120) for _ in range(ctx.pick(20, 300))]
    ctx.validate_cases("MatchValueTrace", cases, run, name="random histories")


def quoted(names):
    return ", ".join('"%s"' % x for x in names)


def replay(ctx, name, pairs, run):
    want = {id(c): e for c, e in pairs}

    def observed(cs):
        out = []
        for c, r in zip(cs, run(cs)):
            if "crash" in r:
                out.append(r)
                continue
            o, e = r["ops"][-1], want.get(id(c))
            cells = [None if e and k < len(e) and e[k] is None else x for k, x in enumerate(o["cells"])]
            n, ok = len(cells), True
            for a in range(n):
                for b in range(n):
                    if cells[a] is not None and cells[b] is not None:
                        ok = ok and o["cmp"][a * n + b] == (1 if cells[a] == cells[b] else 2)
            out.append(cells if ok else {"cells": cells, "comparisons": o["cmp"]})
        return out
    ctx.replay_expected(name, pairs, observed)
