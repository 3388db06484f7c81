"""C25: what is printed about values, matches, reports and curves."""
import struct

from ..core import run_harness
from ..gen import codes, hexs
from ..tool import Batch, f32, f32_bits, gen_labels, gen_problem, text

INT = {"i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "u32": (0, 2 ** 32 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "u64": (0, 2 ** 64 - 1)}


def real(bits, p=24, w=8):
    """The number of a bit pattern: (-1)^neg * m * 2^e, m in decimal digits."""
    m, ex = bits & ((1 << (p - 1)) - 1), (bits >> (p - 1)) & ((1 << w) - 1)
    bias = (1 << (w - 1)) - 1
    neg = bool(bits >> (p - 1 + w))
    if ex == (1 << w) - 1:
        return {"neg": neg, "m": codes("i" if m == 0 else "n"), "e": 0}
    e = max(ex, 1) - bias - (p - 1)
    return {"neg": neg, "m": codes(str(m + ((1 << (p - 1)) if ex else 0))), "e": e}


def real64(bits):
    return real(bits, 53, 11)


def d64_bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def attr(ty, v):
    if ty == "t":
        return ["t", codes(v)]
    if ty == "float":
        return ["r", real(v)]
    if ty == "double":
        return ["r", real64(v)]
    return ["n", codes(str(v))]


def got(a):
    if a[0] == "f":
        return ["r", real(int(a[1])), "float"]
    if a[0] == "d":
        return ["r", real64(int(a[1])), "double"]
    return a


def word(ty, v):
    return hexs(v) if ty == "t" else str(v)


def shape(v):
    """Attribute types of the kinds."""
    k, t = v["kind"], v["t"]
    return {"box": [t] * 4, "dbox": ["t"] + [t] * 4, "event": ["t", "t"] + [t] * 4, "shaped": ["t", "t"] + [t] * 4,
            "scored": ["t", "t"] + [t] * 4 + ["float"], "lab": ["t", "t"], "slab": ["t", "t", "float"],
            "ilab": ["i64", "t"], "silab": ["i64", "t", "float"], "err": ["float"] * 2, "cnt": ["float", "float", "u64", "u64"]}[k]


def line(v):
    if v["kind"] == "match":
        out = ["v match", v["t"], str(int(bool(v["hyp"]))), str(int(bool(v["ref"]))), str(v["e"][0]), str(v["e"][1])]
        for k, vals in (("scored", v["hyp"]), ("shaped", v["ref"])):
            out += [word(ty, x) for ty, x in zip(shape({"kind": k, "t": v["t"]}), vals)] if vals else []
        return " ".join(out)
    return " ".join(["b" if v["back"] else "v", v["kind"], v["t"]] + [word(ty, x) for ty, x in zip(shape(v), v["a"])])


def described(v, o):
    """The value as the specification sees it. The counts of an error are what the
    object answers (C21 is about these)."""
    if v["kind"] == "match":
        at = lambda k, vals: [attr(ty, x) for ty, x in zip(shape({"kind": k, "t": v["t"]}), vals)] if vals else []
        return {"kind": "match", "hyp": at("scored", v["hyp"]), "ref": at("shaped", v["ref"]),
                "e": [attr("float", x) for x in v["e"]] + [["n", codes(n)] for n in o["n"]]}
    a = [attr(ty, x) for ty, x in zip(shape(v), v["a"])]
    if v["kind"] in ("err", "cnt"):
        return {"kind": v["kind"], "e": a[:2] + [["n", codes(n)] for n in o["n"]]}
    return {"kind": v["kind"], "a": a}


def runner(exe):
    def run(cases):
        recs = []
        for c, o in zip(cases, run_harness(exe, ["\n".join(line(v) for v in c) for c in cases])):
            if "vals" not in o or len(o["vals"]) != len(c):
                recs.append({"crash": str(o)[:300]})
                continue
            vals = []
            for v, x in zip(c, o["vals"]):
                r = {"v": described(v, x), "text": x["text"]}
                if "back" in x:
                    r["back"] = {"ok": x["back"]["ok"], "a": [got(a) for a in x["back"]["a"]]}
                vals.append(r)
            recs.append({"vals": vals})
        return recs
    return run


FLOATS = ["0", "1", "-1", "0.5", "0.1", "-0.25", "1e-4", "9.99995e-5", "0.00099999949", "99999.95", "999999.4", "999999.5", "1e6", "123456.5", "123457.5", "1234565", "16777217", "2.5e-7",
          "3.4028234e38", "1e-45", "1.17549435e-38", "1e10", "12345678", "0.015625", "0.0078125", "100000.5", "0.3333333", "0.6666667", "1e-5", "-1e-10", "5", "31.4159265", "1e21"]


def rand_float(rng, inf):
    k = rng.random()
    if k < 0.45:
        return f32_bits(f32(rng.choice(FLOATS)))
    if k < 0.7:
        return f32_bits(rng.choice([1, -1]) * rng.random() * 10 ** rng.randint(-6, 8))
    if k < 0.75 and inf:
        return rng.choice([0x7f800000, 0xff800000])
    if k < 0.8:
        return 0x80000000
    if k < 0.9:      # ties of six digits
        return f32_bits(rng.randint(100000, 999999) + 0.5)
    b = rng.getrandbits(32)
    return b if (b >> 23) & 255 != 255 else b & 0x7fffff


def rand_double(rng):
    k = rng.random()
    if k < 0.4:
        return d64_bits(float(rng.choice(FLOATS)))
    if k < 0.7:
        return d64_bits(rng.choice([1, -1]) * rng.random() * 10 ** rng.randint(-8, 12))
    if k < 0.85:
        return d64_bits(rng.choice([1, -1]) * rng.randint(0, 10 ** 7) * 10.0 ** rng.randint(-12, 12))
    if k < 0.92:
        return d64_bits((rng.randint(100000, 999999) + 0.5) * 2.0 ** rng.randint(0, 3))
    ex = rng.randint(1023 - 200, 1023 + 200)
    return (rng.getrandbits(1) << 63) | (ex << 52) | rng.getrandbits(52)


LABS = ["a", "b", "ab", "-", "#", "1", "-1", "0x1", "nan", "inf", "q,", "[x]", "Hyp=", "\"", "\xe9t\xe9", "\xff", "\x01", "%s", "\\n", "a" * 200]
WILD = ["", " ", "a b", " a", "a ", "x\ty", "\n", "a\0b", ", Ref="]


def rand_val(rng):
    kind = rng.choice(["box", "dbox", "event", "shaped", "scored", "scored", "lab", "slab", "ilab", "silab", "err", "cnt", "match", "match"])
    t = rng.choice(list(INT) + ["float", "double"]) if kind in ("box", "dbox", "event", "shaped", "scored", "match") else "i64"
    wild = rng.random() < 0.15

    def one(ty):
        if ty == "t":
            return rng.choice(WILD if wild and rng.random() < 0.5 else LABS)
        if ty == "float":
            return rand_float(rng, wild)
        if ty == "double":
            return rand_double(rng)
        lo, hi = INT[ty]
        return rng.choice([0, 0, 1, 7, 10, 999, 1000, 1234567, lo, hi, rng.randint(lo, hi), rng.randint(max(lo, -99), 99), max(lo, -1), 100000]) if ty != "i16" else rng.choice([0, 1, 65, 1000, -7, lo, hi])
    v = {"kind": kind, "t": t}
    mass = lambda: rng.choice([0, 0, f32_bits(1.0), f32_bits(1.0), f32_bits(0.5), f32_bits(rng.random()), rand_float(rng, False) & 0x7fffffff])
    if kind == "match":
        v["hyp"] = [one(ty) for ty in shape({"kind": "scored", "t": t})] if rng.random() < 0.7 else None
        v["ref"] = [one(ty) for ty in shape({"kind": "shaped", "t": t})] if rng.random() < 0.7 else None
        v["e"] = [mass(), mass()]
    elif kind == "err":
        v["a"] = [mass(), mass()]
    elif kind == "cnt":
        v["a"] = [mass(), mass(), one("u64"), one("u64")]
    else:
        v["a"] = [one(ty) for ty in shape(v)]
    v["back"] = kind not in ("err", "cnt", "match") and not wild
    return v


def gen_case(rng):
    return [rand_val(rng) for _ in range(rng.choice([1, 1, 2, 3, 6]))]


# ------------------------------------------------------------------- tools
TSC = ["0.5", "1", "0", "-1", "1e-7", "0.1", "123456.5", "1234567", "0.333333343", "99999.95", "-2.5e-6", "1e30", "0.7", "0.70", "2e0"]
IVS = ["bootstrap_ci_gap", "bootstrap_ci_map", "bootstrap_ci_gndcg", "bootstrap_ci_mndcg"]


def tool_case(rng):
    tool = rng.choice(["icdar", "icdar", "simple"])
    p = gen_problem(rng, scores=rng.sample(TSC, rng.randint(1, 6))) if tool == "icdar" else gen_labels(rng, scores=rng.sample(TSC, rng.randint(1, 6)))
    if tool == "icdar" and rng.random() < 0.3:     # far away boxes
        k = rng.choice([10 ** 6, 2 ** 31 - 10 ** 5, 999999])
        mv = lambda r: r[:2] + (r[2] + k,) + r[3:]
        p = {"refs": [mv(r) for r in p["refs"]], "hyps": [mv(h) for h in p["hyps"]]}
    iv = [rng.random() < 0.3 for _ in IVS]
    args = ["--dump_matches", "@dump", "--output_grp", "@g", "--output_mrp", "@m", "--rp_curve_samples", str(rng.choice([2, 3, 7, 12])),
            "--collapse_matches", rng.choice(["true", "false"]), "--bootstrap_samples", str(rng.choice([2, 5, 20])), "--sort", rng.choice(["asc", "desc", "none"])]
    for o, b in zip(IVS, iv):
        args += ["--" + o, "true"] if b else []
    return {"tool": tool, "p": p, "iv": iv, "args": args}


def tool_runner(batch):
    def run(cases):
        jobs = [{"tool": c["tool"], "files": {"r": text(c["p"]["refs"]), "h": text(c["p"]["hyps"])}, "args": c["args"] + ["@r", "@h"], "reads": ["dump", "g", "m"]} for c in cases]
        recs = []
        for c, r in zip(cases, batch.run(jobs)):
            f = r["files"]
            if r["status"] != 0 or None in f.values() or not r["out"].endswith("\n") or any(x and not x.endswith("\n") for x in f.values()):
                recs.append({"crash": "status %s, output %r, files %r" % (r["status"], r["out"][:200], [k for k in f if f[k] is None])})
                continue
            lines = lambda s: [codes(x) for x in s.split("\n")[:-1]]
            rec = {"report": lines(r["out"]), "iv": c["iv"], "curves": lines(f["g"]) + lines(f["m"])}
            if c["tool"] == "icdar":
                ty = shape({"kind": "scored", "t": "i64"})
                at = lambda row: [attr(t, f32_bits(f32(x)) if t == "float" else x) for t, x in zip(ty, row)]
                uniq = lambda rows: [x for i, x in enumerate(rows) if x not in rows[:i]]
                rec.update(dump=lines(f["dump"]), hs=uniq([at(h) for h in c["p"]["hyps"]]), rs=uniq([at(x) for x in c["p"]["refs"]]))
            recs.append(rec)
        return recs
    return run


def check(ctx):
    exe, tool = ctx.build("h_show", "h_tool")
    run = runner(exe)
    rng = ctx.rng
    cfg = ("CONSTANTS Labels <- Pool\n Nums = {%s}\n Masses = {0, 1, 32, 64}\n Show = %s\nSPECIFICATION Spec\nINVARIANTS Fitting Determined Emit\n")
    pairs = []
    for g in ctx.generate("ShowGen", cfg % ("0, 7, 1000000", "TRUE"), name="values over small pools", workers=8):
        v = g["v"]
        pairs.append((v, g["text"]))

    def back(a):
        return bytes(a[1]).decode("latin-1") if a[0] == "t" else int(bytes(a[1]))

    def mass(a):
        return f32_bits(float(bytes(a[1])))

    def case(v):
        t = "i32"
        if v["kind"] == "match":
            return {"kind": "match", "t": t, "hyp": None, "ref": [back(a) for a in v["ref"]] or None, "e": [mass(a) for a in v["e"][:2]]}
        if v["kind"] == "err":
            return {"kind": "err", "t": t, "a": [mass(a) for a in v["e"][:2]]}
        return {"kind": v["kind"], "t": t, "a": [back(a) for a in v["a"]]}
    pairs = [([dict(case(v), back=False)], txt) for v, txt in pairs]
    ctx.replay_expected("printed forms of values over small pools", pairs, lambda cs: [r.get("crash") or r["vals"][0]["text"] for r in run(cs)])
    ctx.validate_cases("ShowTrace", [gen_case(rng) for _ in range(ctx.pick(3000, 30000))], run, name="random values on one stream")
    ctx.validate_cases("ShowTrace", [tool_case(rng) for _ in range(ctx.pick(400, 4000))], tool_runner(Batch(ctx, tool)), name="matches, reports and curves of runs")
