"""C26: error values and their sums."""
from ..core import run_harness

B = 1 << 20
ZERO = {"fp": 0, "fn": 0, "nh": [0, 0], "nr": [0, 0]}


def num(c):
    return c[0] * B + c[1]


def script(c):
    ls = ["err %d %d" % (c["np"], c["nc"])]
    for o in c["ops"]:
        e = o["e"]
        ls.append("op %s %d %d %d %d %d %d %d" % (o["o"], o["i"], o["j"], o["k"], e["fp"], e["fn"], num(e["nh"]), num(e["nr"])))
    return "\n".join(ls)


def runner(exe):
    def run(cases):
        recs = []
        for c, o in zip(cases, run_harness(exe, [script(c) for c in cases])):
            if "ops" not in o or len(o["ops"]) != len(c["ops"]):
                recs.append({"crash": str(o)[:400]})
            else:
                recs.append({"np": c["np"], "nc": c["nc"], "ops": [dict(c=x, **b) for x, b in zip(c["ops"], o["ops"])]})
        return recs
    return run


MASS = [0, 0, 64, 64, 1, 16, 32, 63]


def gen_case(rng, length):
    np, nc = rng.randint(1, 3), rng.randint(1, 4)
    big = rng.random() < 0.3
    ops, weight = [], [0] * nc

    def count():
        if big:
            return [rng.choice([0, 1, 4095, 4096, 5000]), rng.choice([0, 1, B - 1])]
        return [0, rng.choice([0, 1, 2, 7, 127, 128, 255, 300, 32768, 65535, 70000, 1000000])]
    while len(ops) < length:
        o = rng.choice(["plain", "plain", "copyp", "counts", "counts", "zero", "copyc", "conv", "conv", "add", "add", "add", "acc", "acc", "acc", "fold"])
        c = dict(o=o, i=0, j=0, k=0, e=ZERO)
        i = rng.randint(1, nc)
        if o == "plain":
            c.update(i=rng.randint(1, np), e=dict(ZERO, fp=rng.choice(MASS), fn=rng.choice(MASS)))
        elif o == "copyp":
            c.update(i=rng.randint(1, np), j=rng.randint(1, np))
        elif o == "counts":
            c.update(i=i, e=dict(fp=rng.choice(MASS + [6400]), fn=rng.choice(MASS + [6400]), nh=count(), nr=count()))
            weight[i - 1] = 1
        elif o == "zero":
            c.update(i=i)
            weight[i - 1] = 0
        elif o == "copyc":
            c.update(i=i, j=rng.randint(1, nc))
            weight[i - 1] = weight[c["j"] - 1]
        elif o in ("conv", "acc"):
            c.update(i=i, j=rng.randint(1, np + nc))
            w = weight[c["j"] - 1 - np] if c["j"] > np else 1
            weight[i - 1] = w + (weight[i - 1] if o == "acc" else 0)
        elif o == "add":
            c.update(i=i, j=rng.randint(1, nc), k=rng.randint(1, nc))
            weight[i - 1] = weight[c["j"] - 1] + weight[c["k"] - 1]
        elif o == "fold":
            c.update(i=i)
            weight[i - 1] = sum(weight) + np
        if max(weight) > 1000:          # masses stay exact, counts below the bound of the harness
            break
        ops.append(c)
    return {"np": np, "nc": nc, "ops": ops}


def check(ctx):
    exe = ctx.build("h_errsum")
    consts = "CONSTANTS NP = %d\n NC = %d\n Masses = {%s}\n Counts = {%s}\n"
    laws = "SPECIFICATION SSpec\nVIEW View\nCONSTRAINT Small\nINVARIANTS SumLaws PlainLaws\nPROPERTY Targets\n"
    ctx.model_check("ErrorSum", consts % (1, ctx.pick(1, 2), ctx.pick("0, 32, 64", "0, 64"), ctx.pick("1, 1048575", "1048575")) + laws, name="sums of bounded errors", workers=8)
    run = runner(exe)
    pairs = []
    for np, nc, depth, masses, counts in [(1, 2, 2, "0, 16, 64", "0, 3")] + ctx.pick([], [(1, 2, 3, "16, 64", "1, 3")]):
        cfg = consts % (np, nc, masses, counts) + " Depth = %d\nSPECIFICATION GSpec\nINVARIANT Emit\n" % depth
        for b in ctx.generate("ErrorSumGen", cfg, name=f"histories of length {depth}", workers=8):
            pairs.append(({"np": np, "nc": nc, "ops": b["ops"]}, [[e["fp"], e["fn"]] + list(e["nh"]) + list(e["nr"]) for e in b["cells"]]))
    ctx.replay_expected("histories of error values", pairs, lambda cs: [r.get("crash") or r["ops"][-1]["cells"] for r in run(cs)])
    cases = [gen_case(ctx.rng, ctx.rng.choice([3, 8, 25])) for _ in range(ctx.pick(3000, 30000))]
    ctx.validate_cases("ErrorSumTrace", cases, run, name="random histories")
