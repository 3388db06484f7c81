"""C03: areas and acceptance rules. C12: orders. (C19 and C14 have modules of their own.)"""
from ..core import run_harness
from ..gen import LABELS, box, codes, deep, hexs
from ..tool import f32_bits, ord_of

RULES = [("ioh", 0, 1), ("ioh", 1, 2), ("ioh", 1, 3), ("ioh", 1, 1), ("iou", 0, 1), ("iou", 1, 2), ("iou", 1, 3), ("iou", 1, 1), ("triv", 1, 1)]
SHIFT = {"int": 2 ** 31, "uint": 0, "long": 2 ** 62}


def geo_script(c):
    a, b = c["a"], c["b"]
    out = ["geo %s %s %s %s %d %d %d %d %s %d %d %d %d" % ((c["t"], hexs(c["q"][0]), hexs(c["q"][1]), hexs(a[0])) + tuple(a[1:]) + (hexs(b[0]),) + tuple(b[1:]))]
    return "\n".join(out + ["rule %s %d %d" % r for r in c["rules"]])


def num(s):
    return list(str(s).encode())


def geo_runner(exe):
    def run(cases):
        recs = []
        for c, o in zip(cases, run_harness(exe, [geo_script(c) for c in cases])):
            if "crash" in o:
                recs.append({"crash": str(o)[:300]})
                continue
            sh = SHIFT[c["t"]]
            bx = lambda r: {"d": codes(r[0]), "x": num(r[1] + sh), "y": num(r[2] + sh), "w": num(r[3]), "h": num(r[4])}
            recs.append({"q": c["q"][0] == c["q"][1], "a": bx(c["a"]), "b": bx(c["b"]), "area": o["area"] if o["area"] == o["area2"] else [[0], [0]],
                         "inter": o["inter"], "union": o["union"], "soft": o["soft"],
                         "rules": [{"k": r[0], "n": r[1], "d": r[2], "yes": y} for r, y in zip(c["rules"], o["rules"])]})
        return recs
    return run


LIM = {"int": (-2 ** 31, 2 ** 31 - 1), "uint": (0, 2 ** 32 - 1), "long": (-2 ** 62, 2 ** 62)}


def geo_ok(t, a, b):
    lo, hi = LIM[t]
    for r in (a, b):
        if not all(lo <= v <= hi for v in (r[1], r[2], r[1] + r[3], r[2] + r[4])) or r[3] * r[4] > hi or min(r[3], r[4]) < 0:
            return False
    inter = 0
    if a[0] == b[0]:
        side = lambda i: max(0, min(a[i] + a[i + 2], b[i] + b[i + 2]) - max(a[i], b[i]))
        inter = side(1) * side(2)
    # the sum of two unsigned areas may wrap around on the way to a representable union
    return a[3] * a[4] + b[3] * b[4] - (inter if t == "uint" else 0) <= hi


def big_box(rng, t):
    lo, hi = LIM[t]
    s = rng.choice([1, 10, 1000, 60000]) if t != "long" else rng.choice([10, 100000, 10 ** 9])
    w, h = rng.randint(0, s), rng.randint(0, s)
    if rng.random() < 0.2:
        w, h = rng.choice([(1, hi), (hi, 1), (0, hi), (hi // 2, 2), (65535, 65535), (46340, 46340), (1, 1)])
    x = rng.choice([lo, hi - w, 0, hi // 2, rng.randint(lo, hi)])
    y = rng.choice([lo, hi - h, 0, hi // 2, rng.randint(lo, hi)])
    return [x, y, w, h]


def near(rng, b):
    x, y, w, h = b
    k = rng.random()
    d = lambda n: rng.choice([0, 1, -1, n, -n, n // 2, n // 2 + 1, -(n // 2), n + 1, n - 1])
    if k < 0.35:
        return [x + d(w), y + d(h), w, h]
    if k < 0.6:
        return [x + d(w), y, max(0, w + d(w)), h]
    if k < 0.8:
        return [x + w // 4, y + h // 4, w // 2, h // 2]
    return [x, y, max(0, w + rng.choice([-1, 0, 1])), max(0, h + rng.choice([-1, 0, 1]))]


def geo_case(rng):
    t = rng.choice(["int", "uint", "uint", "long"])
    docs = ("d", "d") if rng.random() < 0.85 else rng.choice([("d", "e"), ("", "d"), ("d", "d "), ("D", "d"), ("x" * 64 + "d", "x" * 64 + "e"), ("e" + "x" * 40, "d" + "x" * 40), ("x" * 300 + "d", "x" * 300 + "e"), ("e" + "x" * 300, "d" + "x" * 300)])
    qs = ("q", "q") if rng.random() < 0.85 else rng.choice([("q", "r"), ("", "q"), ("q", "Q"), ("q", "qq")])
    for _ in range(100):
        if rng.random() < 0.35:
            a = list(box(rng))
            b = near(rng, a) if rng.random() < 0.5 else list(box(rng))
            if t == "int" and rng.random() < 0.5:
                o = rng.choice([-3, -7, -1000])
                a[0] += o
                b[0] += o
        else:
            a = big_box(rng, t)
            b = near(rng, a) if rng.random() < 0.85 else big_box(rng, t)
        a, b = [docs[0]] + a, [docs[1]] + b
        if geo_ok(t, a, b):
            break
    else:
        a, b = [docs[0], 0, 0, 1, 1], [docs[1], 0, 0, 1, 1]
    rules = rng.sample(RULES, 4) + [(rng.choice(["ioh", "iou"]), n, d) for n, d in rng.sample([(3, 10), (7, 10), (9, 10), (1, 20), (2, 3), (1, 4), (3, 4), (99, 100)], 2)]
    ia = a[3] * a[4]
    if 0 < ia < 500 and rng.random() < 0.5:        # a threshold that can be met exactly
        rules.append(("ioh", rng.randint(1, ia), ia))
    return {"t": t, "q": list(qs), "a": a, "b": b, "rules": rules}


def check_c03(ctx):
    exe = ctx.build("h_values")
    run = geo_runner(exe)
    n, m = ctx.pick((2, 2), (3, 3))
    behs = ctx.generate("GeometryGen", f"CONSTANTS N = {n}\n M = {m}\n Show = TRUE\nSPECIFICATION Spec\nINVARIANT Laws Emit\n", name="all pairs of small rectangles", workers=8)
    rng = ctx.rng
    pairs = []
    for b in behs:
        t, o = rng.choice([("int", -1), ("int", 2 ** 31 - 20), ("uint", 0), ("uint", 2 ** 32 - 20), ("uint", 2 ** 31 - 2), ("int", -2 ** 31), ("int", 0), ("long", -5)])
        mv = lambda r: ["d", r[0] + o, r[1] + o, r[2], r[3]]
        e = b["e"]
        k = {"area": [num(e[0]), num(e[1])], "inter": [num(e[2])] * 6, "union": [num(e[3])] * 6, "rules": b["v"]}
        pairs.append(({"t": t, "q": ["q", "q"], "a": mv(b["a"]), "b": mv(b["b"]), "rules": RULES}, k))

    def observed(cs):
        return [o if "crash" in o else {"area": o["area"], "inter": o["inter"], "union": o["union"], "rules": [r["yes"] for r in o["rules"]]} for o in run(cs)]
    ctx.replay_expected("all pairs of small rectangles", pairs, observed)
    cases = [geo_case(rng) for _ in range(ctx.pick(4000, 60000))]
    ctx.validate_cases("GeometryTrace", cases, run, name="random rectangles of every size")


# ------------------------------------------------------------------ C12
SHAPE = {"box": "nnnn", "dbox": "snnnn", "event": "ssnnnn", "event2": "ssnnnn", "scored": "fssnnnn", "scored2": "fssnnnn",
         "lab": "ss", "slab": "fss", "ilab": "nn", "silab": "fnn"}


def ord_script(c):
    out = ["ord %s %s" % (c["t"], c["kind"])]
    for v in c["vals"]:
        out.append("v " + " ".join(hexs(a) if ty == "s" else str(f32_bits(a) if ty == "f" else a) for ty, a in zip(SHAPE[c["kind"]], v)))
    return "\n".join(out + ["p %d %d" % p for p in c["pairs"]])


def attr(ty, a):
    return ["t", codes(a)] if ty == "s" else ["n", ord_of(a) if ty == "f" else a]


def ord_runner(exe):
    def run(cases):
        recs = []
        for c, o in zip(cases, run_harness(exe, [ord_script(c) for c in cases])):
            if "crash" in o or len(o["six"]) != len(c["pairs"]):
                recs.append({"crash": str(o)[:300]})
                continue
            # unsigned values are shifted into TLC's integers
            sh = 2 ** 31 if c["t"] == "uint" and "lab" not in c["kind"] else 0
            vals = [[attr(ty, a - sh if ty == "n" else a) for ty, a in zip(SHAPE[c["kind"]], v)] for v in c["vals"]]
            recs.append({"vals": vals, "pairs": [{"i": i, "j": j, "six": s} for (i, j), s in zip(c["pairs"], o["six"])], "asc": o["asc"], "desc": o["desc"]})
        return recs
    return run


FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1e-45, -1e-45, 1e38, -1e38, 3.4028234663852886e38, float("inf"), float("-inf"), 1.0000001192092896, 0.30000001192092896]


def ord_case(rng):
    kind = rng.choice(sorted(SHAPE))
    t = rng.choice(["int", "uint"])
    if "lab" in kind:
        t = "int"
    nums = [0, 1, 2, 9, 10, 2 ** 31 - 1, 2 ** 31 - 2] + ([2 ** 31, 2 ** 32 - 1, 2 ** 32 - 2] if t == "uint" else [-1, -2, -2 ** 31, -2 ** 31 + 1])
    labs = deep(rng, LABELS + ["", "a\x00", "a\x00b", "\x7f", "\xff", "aa", "A"], 0.15)
    pool = {"s": rng.sample(labs, rng.randint(1, 4)), "n": rng.sample(nums, rng.randint(1, 4)), "f": rng.sample(FLOATS, rng.randint(1, 4))}
    vals = []
    for _ in range(rng.randint(2, 12)):
        if vals and rng.random() < 0.5:            # one attribute away from another value
            v = list(rng.choice(vals))
            i = rng.randrange(len(v))
            v[i] = rng.choice({"s": labs, "n": nums, "f": FLOATS}[SHAPE[kind][i]])
        else:
            v = [rng.choice(pool[ty]) for ty in SHAPE[kind]]
        vals.append(v)
    n = len(vals)
    return {"kind": kind, "t": t, "vals": vals, "pairs": [(i, j) for i in range(1, n + 1) for j in range(1, n + 1)]}


def check_c12(ctx):
    exe = ctx.build("h_values")
    run = ord_runner(exe)
    rng = ctx.rng
    for shape in ("box", "dbox", "event", "scored", "lab", "slab", "ilab", "silab"):
        behs = ctx.generate("OrderGen", f'CONSTANTS Shape = "{shape}"\n Show = TRUE\n Slow = {"TRUE" if ctx.thorough else "FALSE"}\nSPECIFICATION Spec\nINVARIANT Laws Emit\n',
                            name=f"all pairs of {shape} values", workers=8)
        kinds = {"event": ["event", "event2"], "scored": ["scored", "scored2"]}.get(shape, [shape])
        byk = {}
        scores = {0: -1.5, 1: 0.0, 10: 2.5, -1: -0.25, 2: 7.0}
        for b in behs:
            kind = rng.choice(kinds)
            mk = lambda v: [bytes(a[1]).decode("latin-1") if ty == "s" else scores[a[1]] if ty == "f" else a[1] for ty, a in zip(SHAPE[kind], v)]
            byk.setdefault(kind, []).append((mk(b["a"]), mk(b["b"]), b["six"]))
        for kind, rows in byk.items():
            pairs = []
            for i in range(0, len(rows), 200):
                chunk = rows[i:i + 200]
                vals = [x for r in chunk for x in r[:2]]
                case = {"kind": kind, "t": "int", "vals": vals, "pairs": [(2 * k + 1, 2 * k + 2) for k in range(len(chunk))]}
                pairs.append((case, [r[2] for r in chunk]))
            ctx.replay_expected(f"all pairs of {shape} values", pairs, lambda cs: [o if "crash" in o else o["six"] for o in run_harness(exe, [ord_script(c) for c in cs])])
    cases = [ord_case(rng) for _ in range(ctx.pick(700, 10000))]
    ctx.validate_cases("OrderTrace", cases, run, name="random values")
