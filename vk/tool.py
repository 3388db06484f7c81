"""Evaluation problems for the command-line tools: generation, running, encoding."""
import os
import re
import struct

from .core import run_harness, run_proc
from .gen import box, codes, deep, hexs

UNIT = 1 << 20


def f32(text):
    return struct.unpack("<f", struct.pack("<f", float(text)))[0]


def f32_bits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def ord_of(x):
    """Order-preserving integer image of a float32 (-0 = +0)."""
    if x == 0:
        return 0
    b = f32_bits(x)
    return -(b & 0x7fffffff) if b & 0x80000000 else b


SCORES = ["0.5", ".5", "5e-1", "0.50000001", "0.9", "0.1", "0.100000001", "0.2", "1", "2", "10", "100", "-1", "-0.5",
          "-2.5", "0", "-0", "1e-3", "1e10", "-1e10", "0.333333", "0.3333333", "0.33333334", "7", "1e-30", "3.25"]


def gen_problem(rng, nref=None, nhyp=None, nq=None, nd=None, scores=None):
    """Boxes problem with many coincidences."""
    qs = rng.sample(["a", "b", "ab", "B", "a0", "q1", "zz", "-1", "1"], nq or rng.randint(1, 4))
    ds = deep(rng, rng.sample(["d", "d1", "p", "D", "0"], nd or rng.randint(1, 2)))
    qs = deep(rng, qs)
    style = rng.choice([None, "grid", "line", "rand"])
    nref = rng.randint(0, 7) if nref is None else nref
    nhyp = rng.randint(0, 9) if nhyp is None else nhyp
    refs = []
    for _ in range(nref):
        if refs and rng.random() < 0.25:
            q, d, x, y, w, h = rng.choice(refs)
            c = rng.random()
            if c < 0.3:
                q = rng.choice(qs)
            elif c < 0.5:
                d = rng.choice(ds)
            elif c < 0.8:
                x += rng.choice([0, 1, 2, w])
            refs.append((q, d, x, y, w, h))
        else:
            refs.append((rng.choice(qs), rng.choice(ds)) + box(rng, style))
    if scores is None:
        scores = rng.choice([SCORES, SCORES, rng.sample(SCORES, 3), ["1"]])
    hyps = []
    for _ in range(nhyp):
        c = rng.random()
        if refs and c < 0.65:
            q, d, x, y, w, h = rng.choice(refs)
            e = rng.random()
            if e < 0.2:
                x += w // 2
            elif e < 0.35:
                y += h // 2
            elif e < 0.5:
                w *= 2
            elif e < 0.6:
                w, h = w + 1, h + 1
            elif e < 0.7:
                x, w = max(0, x - 2), w + 4
            elif e < 0.75:
                q = rng.choice(qs)
            elif e < 0.8:
                d = rng.choice(ds)
            hyps.append((q, d, x, y, w, h, rng.choice(scores)))
        elif hyps and c < 0.8:
            b = rng.choice(hyps)
            hyps.append(b[:6] + (b[6] if rng.random() < 0.4 else rng.choice(scores),))
        else:
            hyps.append((rng.choice(qs + ["other"]), rng.choice(ds)) + box(rng, style) + (rng.choice(scores),))
    return {"refs": refs, "hyps": hyps}


def gen_labels(rng, nref=None, nhyp=None, scores=None):
    """Problem for the segmentation-based tool: plain labels."""
    labs = deep(rng, rng.sample(["a", "b", "ab", "B", "0", "1", "q", "zz", "\xe9"], rng.randint(1, 4)))
    locs = deep(rng, rng.sample(["a", "l1", "l2", "l3", "0", "L", "b"], rng.randint(1, 5)))
    nref = rng.randint(0, 7) if nref is None else nref
    nhyp = rng.randint(0, 10) if nhyp is None else nhyp
    refs = [(rng.choice(labs), rng.choice(locs)) for _ in range(nref)]
    scores = scores or rng.choice([SCORES, rng.sample(SCORES, 3), ["1"]])
    hyps = []
    for _ in range(nhyp):
        if refs and rng.random() < 0.6:
            q, d = rng.choice(refs)
        else:
            q, d = rng.choice(labs + ["other"]), rng.choice(locs + ["x"])
        hyps.append((q, d, rng.choice(scores)))
    return {"refs": refs, "hyps": hyps}


def text(rows, sep=" ", eol="\n"):
    return "".join(sep.join(str(f) for f in r) + eol for r in rows)


def write(path, content):
    with open(path, "wb") as f:
        f.write(content if isinstance(content, bytes) else content.encode("latin-1"))


class Runner:
    """Runs a tool in a scratch directory of its own."""

    def __init__(self, ctx, exe):
        self.ctx, self.exe = ctx, exe

    def run(self, files, args, stdin=None, reads=(), timeout=30):
        """files: name -> content. args may use @name for the path of a file in
        the directory. Returns dict(status, out, err, files: name -> content)."""
        d = self.ctx.path("run")
        os.makedirs(d)
        try:
            for n, c in files.items():
                write(os.path.join(d, n), c)
            argv = [self.exe] + [os.path.join(d, a[1:]) if a.startswith("@") else a for a in args]
            st, out, err = run_proc(argv, stdin=stdin, timeout=timeout, cwd=d)
            got = {}
            for n in reads:
                try:
                    with open(os.path.join(d, n), "rb") as f:
                        got[n] = f.read().decode("latin-1")
                except OSError:
                    got[n] = None
        finally:
            import shutil
            shutil.rmtree(d, True)
        return {"status": st, "out": out, "err": err.replace(d + "/", "@"), "files": got}


class Batch:
    """Runs the tools in process (harness h_tool). Jobs are dicts with tool, files,
    args, and optionally stdin and reads."""

    def __init__(self, ctx, exe):
        self.exe, self.dir = exe, ctx.path("batch")
        os.makedirs(self.dir)

    def script(self, j):
        out = ["tool %s %s" % (j["tool"], self.dir)]
        for n, c in j["files"].items():
            out.append("file %s %s" % (n, hexs(c)))
        for a in j["args"]:
            out.append("arg " + hexs(a))
        if j.get("stdin") is not None:
            out.append("stdin " + hexs(j["stdin"]))
        for n in j.get("reads", ()):
            out.append("read " + n)
        return "\n".join(out)

    def run(self, jobs):
        res = []
        outs = run_harness(self.exe, [self.script(j) for j in jobs], timeout=60 if len(jobs) <= 10 else 150 if len(jobs) <= 10000 else 600)
        for o, j in zip(outs, jobs):
            if "crash" in o:
                res.append({"status": o["crash"], "out": "", "err": o.get("stderr", ""), "files": {n: None for n in j.get("reads", ())}})
            else:
                u = lambda h: None if h is None else bytes.fromhex(h).decode("latin-1")
                res.append({"status": o["status"], "out": u(o["out"]), "err": re.sub(re.escape(self.dir) + "/[0-9]+/", "@", u(o["err"])),
                            "files": {n: u(h) for n, h in o["files"].items()}})
        return res


M_RE = re.compile(r"^Match\[(?:Hyp=(.*?), )?(?:Ref=(.*?), )?Error=MatchError\[fp=([^,]*), fn=([^,]*), nh=(\d+), nr=(\d+)\]\]$")


def parse_dump(txt):
    """Returns (matches, repeated) as lists of (hyp, ref, fp, fn) or None."""
    if txt is None:
        return None
    out, rep, cur = [], [], None
    cur = out
    for ln in txt.splitlines():
        if ln == "#### REPEATED MATCHES ####":
            if cur is rep:
                return None
            cur = rep
            continue
        if cur is rep:
            if not ln.startswith("## "):
                return None
            ln = ln[3:]
        m = M_RE.match(ln)
        if not m:
            return None
        cur.append((m.group(1), m.group(2), float(m.group(3)), float(m.group(4)), int(m.group(5)), int(m.group(6))))
    return (out, rep) if cur is rep else None


OUT_RE = re.compile(r"^(gAP|mAP|gNDCG|mNDCG) = (\S+)(?: \[(\S+), (\S+)\])?$")


def parse_out(txt):
    """The four metric lines -> [(name, value text, lo, hi)] or None."""
    if not txt.endswith("\n"):
        return None
    res = []
    for ln in txt[:-1].split("\n"):
        m = OUT_RE.match(ln)
        if not m:
            return None
        res.append(m.groups())
    return res if [r[0] for r in res] == ["gAP", "mAP", "gNDCG", "mNDCG"] else None


def ev_of(r):
    q, d, x, y, w, h = r[:6]
    return {"q": codes(q), "d": codes(d), "x": x, "y": y, "w": w, "h": h}


def encode(prob):
    """Value tables of a box problem. Hypotheses whose printed form is the same
    share the text number t."""
    rt, rid = [], {}
    for r in prob["refs"]:
        if r not in rid:
            rid[r] = len(rt) + 1
            rt.append(ev_of(r))
    ht, hid, tid = [], {}, {}
    hs = []
    for h in prob["hyps"]:
        s = f32(h[6])
        k = h[:6] + (ord_of(s),)
        if k not in hid:
            t = "%s %s %d %d %d %d %s" % (h[:6] + (gfmt(s),))
            tid.setdefault(t, len(tid) + 1)
            hid[k] = len(ht) + 1
            ht.append(dict(ev_of(h), s=ord_of(s), t=tid[t]))
        hs.append(hid[k])
    rtext = {"%s %s %d %d %d %d" % r: i for r, i in rid.items()}
    return {"rt": rt, "ht": ht, "rf": [rid[r] for r in prob["refs"]], "hf": hs}, rtext, tid


def gfmt(x):
    # C++ default stream formatting of a float
    if x == 0:
        return "0"   # the sign of zero is not part of the value
    return "%g" % x


def code(v, unit=64):
    k = v * unit
    return int(k) if k == int(k) and 0 <= k < 2 ** 30 else -1


def norm_hyp(t):
    """-0 and 0 print differently but are the same score."""
    return t[:-2] + "0" if t.endswith(" -0") else t


def encode_dump(dump, rtext, tid):
    def one(m):
        h, r = m[0], m[1]
        return [0 if h is None else tid.get(norm_hyp(h), -1), 0 if r is None else rtext.get(r, -1), code(m[2], UNIT), code(m[3], UNIT)]
    return [one(m) for m in dump[0]], [one(m) for m in dump[1]]
