"""C11 and the reader part of C18: event files, read line by line."""
from ..core import run_harness
from ..gen import codes, hexs

FIELDS = {"lab": "ss", "slab": "ssf", "ubox": "ssuuuu", "usbox": "ssuuuuf", "ibox": "ssiiii", "isbox": "ssiiiif", "int": "i"}
KINDS = ["lab", "slab", "ubox", "usbox", "ibox", "isbox", "int", "mlab", "mslab"]


def spec_kind(k):
    return k[1:] if k in ("mlab", "mslab") else k


BLANKS = [" ", "  ", "\t", " \t ", "\v", "\f", " \r "]
LABS = ["q", "doc1", "a#b", "1", "-3", "\xe9t\xe9", "\"x\"", "a,b", "x" * 40, "\x01", "~", "0x1F", "#x", "\xff", "a\xffb", "\x00", "a\x00b", "\xef\xbb\xbfq", "\x7f", "\x80", "\x1c", "\xa0", "\x85"]


def int_text(rng, signed):
    x = rng.random()
    if x < 0.55:
        t = str(rng.choice([0, 1, 2, 7, 10, 99, 100, 4096, 65535, 123456, 99999999]))
    elif x < 0.75:
        t = str(rng.choice([2147483647, 2147483646, 2147483648, 4294967295, 4294967294, 4294967296, 10 ** 10, 2 ** 64, 2 ** 64 + 5]))
    elif x < 0.85:
        t = "0" * rng.randint(1, 12) + str(rng.choice([0, 5, 42, 4294967295]))
    else:
        t = rng.choice(["1.0", "1e3", "40.5", "", "x", "1x", "0x10", "+", "-", "--1", "+-1", "1-", "1+1", "1,000", "nan", "1#", "#1", "10 1"])
    if t and t[0].isdigit() and rng.random() < 0.2:
        sg = rng.choice("+-")
        if not (sg == "-" and set(t) == {"0"} and not signed):    # -0 of an unsigned type: left open
            t = sg + t
    return t


def float_text(rng):
    x = rng.random()
    if x < 0.35:
        return rng.choice(["0", "1", "-1", "0.5", "-0.25", "0.1", "1e-3", "2.5e2", ".5", "5.", "1E+2", "-0", "+3.25", "007.50", "1e0", "0e5", "00"])
    if x < 0.55:
        return "%.*g" % (rng.randint(1, 12), rng.choice([-1, 1]) * rng.random() * 10 ** rng.randint(-6, 6))
    if x < 0.70:
        # near a rounding boundary: midpoints of neighbouring floats
        import struct
        b = rng.randint(1, 0x7f7ffffe)
        a = struct.unpack("<f", struct.pack("<I", b))[0]
        if rng.random() < 0.5:
            return repr(a)
        c = struct.unpack("<f", struct.pack("<I", b + 1))[0]
        m = (float(a) + float(c)) / 2
        return rng.choice(["%.17g" % m, "%.30g" % m, "%.60g" % m])
    if x < 0.80:
        return rng.choice(["1e38", "3.4028234e38", "3.4028235e38", "3.40282356e38", "3.4028236e38", "3.5e38", "1e39", "-1e39", "1e400", "1e99999",
                           "1e-38", "1e-45", "1e-46", "7e-46", "7.1e-46", "1e-400", "-1e-50", "1.17549435e-38", "1.4e-45", "16777217", "16777219",
                           "340282346638528859811704183484516925440", "0.000000000000000000000000000000000000000000001",
                           "123456789012345678901234567890", "0e99999", "0.3333333333333333333333333333"])
    return rng.choice(["nan", "inf", "-inf", "infinity", "1e", "1e+", "e5", ".", "-", "+", "1..2", "1.2.3", "0x1p3", "1f", "1,5", "--1", "1e5.5", "1d2", ".e1", "x", "1-", "#"])


def field_text(rng, ty, bad):
    if ty == "s":
        return rng.choice(LABS)
    for _ in range(50):
        t = float_text(rng) if ty == "f" else int_text(rng, ty == "i")
        if bad or plain_ok(ty, t):
            return t
    return "1"


def plain_ok(ty, t):
    """Only steers the generator towards valid lines."""
    try:
        v = float(t)
        if ty == "f":
            return t.lower().strip("+-")[0] in "0123456789." and abs(v) < 1e38 and "x" not in t
        v = int(t)
        return (0 if ty == "u" else -2 ** 31) <= v < (2 ** 32 if ty == "u" else 2 ** 31)
    except (ValueError, IndexError):
        return False


def line_text(rng, kind, bad):
    f = FIELDS[spec_kind(kind)]
    toks = [field_text(rng, ty, False) for ty in f]
    if bad:
        x = rng.random()
        if x < 0.25 and toks:
            toks.pop(rng.randrange(len(toks)))
        elif x < 0.45:
            toks.insert(rng.randint(0, len(toks)), rng.choice(["1", "0.5", "extra", "#", "# note"]))
        else:
            num = [i for i, ty in enumerate(f) if ty != "s"]
            if num:
                i = rng.choice(num)
                toks[i] = field_text(rng, f[i], True)
            else:
                toks.append("more")
    s = rng.choice(BLANKS) if rng.random() < 0.2 else ""
    for i, t in enumerate(toks):
        s += (rng.choice(BLANKS) if rng.random() < 0.3 else " ") * (i > 0) + t
    return s + (rng.choice(BLANKS) if rng.random() < 0.2 else "")


def file_text(rng, kind, pbad=None):
    n = rng.choice([0, 1, 1, 2, 3, 5, 9])
    pbad = rng.choice([0, 0, 0.15, 0.5]) if pbad is None else pbad
    eol = rng.choice(["\n", "\n", "\r\n", None])
    out = ""
    for _ in range(n):
        x = rng.random()
        if x < 0.12:
            ln = rng.choice(["", " ", "\t", "  \r"])
        elif x < 0.25:
            ln = rng.choice(["#", "# comment", "  # q d 1 2 3 4", "#q d 1 2 3 4 0.5", "\t#", "##", "# \xe9"])
        else:
            ln = line_text(rng, kind, rng.random() < pbad)
        out += ln + (eol or rng.choice(["\n", "\r\n", "\n\n"]))
    if out and rng.random() < 0.4:
        out = out.rstrip("\n")
    return out


def gen_case(rng, kind=None, ncalls=None, pbad=None):
    kind = kind or rng.choice(KINDS)
    calls = []
    for _ in range(ncalls or rng.choice([1, 1, 2, 4])):
        how = rng.choice(["stream", "stream", "file", "file", "file", "nofile", "dir", "broken"]) if rng.random() < 0.5 else "stream"
        calls.append({"how": how, "text": file_text(rng, kind, pbad), "fresh": rng.random() < 0.15})
    return {"kind": kind, "calls": calls}


def runner(ctx, exe):
    d = ctx.path("files")
    import os
    os.makedirs(d)

    def script(c):
        out = ["kind %s %s" % (c["kind"], d)]
        for k in c["calls"]:
            if k["fresh"]:
                out.append("fresh")
            labels = ""
            if c["kind"][0] == "m":
                fs = sorted(set(k["text"].replace("\v", " ").replace("\f", " ").encode("latin-1").split()))
                labels = "".join(" " + hexs(f) for f in fs)
            out.append("call %s %s%s" % (k["how"], hexs("#\n" * k.get("pre", 0) + k["text"]), labels))
        return "\n".join(out)

    def run(cases):
        recs = []
        for c, o in zip(cases, run_harness(exe, [script(c) for c in cases])):
            if "crash" in o or len(o["calls"]) != len(c["calls"]):
                recs.append({"crash": str(o)[:300]})
                continue
            recs.append({"kind": spec_kind(c["kind"]), "trips": c["kind"][0] != "m",
                         "calls": [dict(there=k["how"] in ("stream", "file", "broken"), broken=k["how"] == "broken", pre=k.get("pre", 0), b=codes(k["text"]), **r) for k, r in zip(c["calls"], o["calls"])]})
        return recs
    return run


def texts(ctx, run, kind, name, alphabet, n, front="Pfx0", back="Pfx0", laws=True):
    """All texts of bounded length, with their meaning from the specification."""
    cfg = (f'CONSTANTS K = "{kind}"\n Alphabet <- {alphabet}\n N = {n}\n Pre <- {front}\n Post <- {back}\n Show = TRUE\n'
           "SPECIFICATION Spec\nINVARIANT " + ("Laws " if laws else "") + "Emit\n")
    behs = ctx.generate("ReaderGen", cfg, name=name, workers=8)
    pairs = []
    for b in behs:
        pairs.append((bytes(b["t"]).decode("latin-1"), {"ok": b["ok"], "line": b["line"] if not b["ok"] else -1, "ev": b["ev"]}))
    keep = [i for i, ty in enumerate(FIELDS[kind]) if ty == "s"]

    def go(ts):
        res = []
        for r in run([{"kind": kind, "calls": [{"how": "stream", "text": t, "fresh": False}]} for t in ts]):
            if "crash" in r:
                res.append(r)
                continue
            c = r["calls"][0]
            res.append({"ok": c["ok"], "line": c["line"] if not c["ok"] else -1, "vs": c["vs"]})
        return res
    # the values of numbers are judged by ReaderTrace; here acceptance, line and labels
    exp = [(t, {"ok": e["ok"], "line": e["line"], "ev": [[f[i] for i in keep] for f in e["ev"]]}) for t, e in pairs]

    def observed(ts):
        return [o if "crash" in o else {"ok": o["ok"], "line": o["line"], "ev": [[f[i] for i in keep] for f in o["vs"]]} for o in go(ts)]
    ctx.replay_expected(name, exp, observed)
    return [t for t, _ in pairs]


def check_c11(ctx):
    run = runner(ctx, ctx.build("h_reader"))
    deep = ctx.thorough
    texts(ctx, run, "int", "every file of integers", "A1", 6 if deep else 5)
    texts(ctx, run, "lab", "every file of labels", "A2", 8 if deep else 6)
    t1 = texts(ctx, run, "slab", "every score", "A3", 6 if deep else 4, front="PfxScore", laws=False)
    t2 = texts(ctx, run, "ubox", "every coordinate", "A4", 5 if deep else 4, front="PfxBox", back="SfxBox", laws=False)
    rng = ctx.rng
    # the values of the enumerated numbers
    cases = [{"kind": k, "calls": [{"how": "stream", "text": t, "fresh": False} for t in ts]}
             for k, tt in (("slab", t1), ("ubox", [t for t in t2 if " -0" not in t])) for ts in (tt[i:i + 20] for i in range(0, len(tt), 20))]
    ctx.validate_cases("ReaderTrace", cases, run, name="values of the enumerated numbers")
    cases = [gen_case(rng, KINDS[k % len(KINDS)]) for k in range(ctx.pick(900, 15000))]
    ctx.validate_cases("ReaderTrace", cases, run, name="random files")
    cases = []
    for k in range(ctx.pick(12, 100)):
        kind = rng.choice(KINDS)
        lines = [line_text(rng, kind, False) for _ in range(rng.randint(60, 200))]
        if rng.random() < 0.5:
            lines[rng.randrange(len(lines))] = line_text(rng, kind, True)
        cases.append({"kind": kind, "calls": [{"how": rng.choice(["file", "stream"]), "text": "\n".join(lines), "fresh": False}]})
    ctx.validate_cases("ReaderTrace", cases, run, name="long files")
    cases = [long_line_case(rng) for _ in range(ctx.pick(120, 1200))]
    cases += [long_line_case(rng, 70000, LENGTHS[-3:] + LONGER) for _ in range(ctx.pick(12, 100))]
    ctx.validate_cases("ReaderTrace", cases, run, name="long lines")
    cases = []
    for k in range(ctx.pick(16, 60)):
        c = gen_case(rng, KINDS[k % len(KINDS)], ncalls=1, pbad=0.4)
        c["calls"][0].update(pre=rng.choice([255, 256, 4096, 32767, 65535, 65536, 100000]), how=rng.choice(["stream", "file"]))
        cases.append(c)
    ctx.validate_cases("ReaderTrace", cases, run, name="files of many lines")


LENGTHS = [127, 128, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097]


LONGER = [8191, 8192, 8193, 16385, 32768, 65535, 65537]


def long_line_case(rng, top=4100, sizes=LENGTHS):
    """Lines around the sizes a buffer might have: long labels, comments, padding."""
    kind = rng.choice(KINDS)
    lines = []
    for _ in range(rng.randint(1, 3)):
        n = rng.choice([x for x in sizes if x <= top])
        x = rng.random()
        f = FIELDS[spec_kind(kind)]
        if x < 0.3:
            ln = (rng.choice(["#", " #"]) + "c " * n)[:n]
        elif x < 0.65 and "s" in f:
            toks = [field_text(rng, ty, False) for ty in f]
            i = rng.choice([i for i, ty in enumerate(f) if ty == "s"])
            toks[i] = ("L%d_" % rng.randint(0, 9) + "abc" * n)[:max(5, n - sum(len(t) + 1 for t in toks))]
            ln = " ".join(toks)
        elif x < 0.8:
            ln = " " * (n - 20) + line_text(rng, kind, rng.random() < 0.3)
        elif x < 0.95:
            ln = line_text(rng, kind, rng.random() < 0.3)
            ln += " " * max(0, n - len(ln))
        else:
            ln = " " * n
        lines.append(ln)
        if rng.random() < 0.5:
            lines.append(line_text(rng, kind, rng.random() < 0.15))
    out = "\n".join(lines) + ("\n" if rng.random() < 0.7 else "")
    return {"kind": kind, "calls": [{"how": rng.choice(["stream", "file"]), "text": out, "fresh": False}]}


def reader_reuse(ctx):
    """C18: sequences of reads with one reader and one vector."""
    run = runner(ctx, ctx.build("h_reader"))
    ctx.model_check("ReuseModel", 'CONSTANTS Kind = "lab"\n Worlds <- Histories\nSPECIFICATION RSpec\nINVARIANT Faithful\n', name="reader machine")
    rng = ctx.rng
    cases = [gen_case(rng, KINDS[k % len(KINDS)], ncalls=rng.choice([3, 5, 8]), pbad=rng.choice([0, 0.1, 0.3])) for k in range(ctx.pick(350, 6000))]
    for c in cases[::9]:           # after long files
        n = rng.choice([70, 140, 300])
        c["calls"][rng.randrange(len(c["calls"]) - 1)].update(how="stream", text="\n".join(line_text(rng, c["kind"], False) for _ in range(n)))
    for c in cases:
        for k in c["calls"]:
            k["fresh"] = False

    def both(cs):
        """Each history with one reader, then each of its files with a fresh one."""
        alone = [{"kind": c["kind"], "calls": [k]} for c in cs for k in c["calls"]]
        res = run(cs + alone)
        recs, j = [], len(cs)
        for c, r in zip(cs, res):
            fresh = res[j:j + len(c["calls"])]
            j += len(c["calls"])
            bad = [x for x in [r] + fresh if "crash" in x]
            if bad:
                recs.append(bad[0])
                continue
            obs = lambda x: {"ok": x["ok"], "line": x["line"], "vs": x["vs"]}
            recs.append({"steps": [{"in": [k["how"], k["text"]], "obs": [obs(a), obs(f["calls"][0])]} for k, a, f in zip(c["calls"], r["calls"], fresh)]})
        return recs
    ctx.validate_cases("ReuseTrace", cases, both, name="reused and fresh readers")
