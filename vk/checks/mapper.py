"""C14: label mapping is stable, injective and dense under any history."""
from ..core import run_harness
from ..gen import LABELS, codes, hexs
from ..tool import f32_bits

CAP = {"i8": 128, "u8": 256, "i16": 32768, "u16": 65536, "i32": 10 ** 9, "u32": 10 ** 9, "i64": 10 ** 9, "u64": 10 ** 9}
SCORES = [0.0, -0.0, 1.5, -3.25, 1e30, 3.4028234e38, -3.4028234e38, 1e-40, 0.1, 16777217.0, float("inf"), float("-inf")]
LABS = LABELS + ["", "a ", " a", "a\x00", "#0", "#1", "\xff", "A", "a" * 100, "a" * 99 + "b", "aa", "aaa"]


def script(c):
    out = ["map %s %s %d" % (c["t"], c["impl"], c["pre"])]
    for o in c["ops"]:
        if "a" in o:
            out.append(" ".join([o["op"]] + [str(x) for x in o["a"]]))
        else:
            out.append("%s %d %s" % (o["op"], o["k"], " ".join(hexs(a) for a in o["args"])) + (" %d" % f32_bits(o["score"]) if o["op"] == "x" else ""))
    return "\n".join(out)


def runner(exe):
    def run(cases):
        recs = []
        for c, o in zip(cases, run_harness(exe, [script(c) for c in cases])):
            looks = [x for x in c["ops"] if "k" in x]
            if "obs" not in o or len(o["obs"]) != len(looks):
                recs.append({"crash": str(o)[:300]})
                continue
            obs = iter(o["obs"])
            recs.append({"cap": CAP[c["t"]], "pre": c["pre"],
                         "ops": [dict(op=x["op"], k=x["k"], args=[codes(a) for a in x["args"]], **next(obs)) if "k" in x else x for x in c["ops"]]})
        return recs
    return run


def gen_case(rng, long=False):
    t = rng.choice(["i8", "i8", "u8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"])
    impl = rng.choice(["own", "own", "own", "ext", "take", "lend"]) + rng.choice(["", "", "tree"])
    cap = CAP[t]
    left = rng.choice([0, 1, 2, 3, 5, 8])
    pre = cap - left if cap < 10 ** 9 and rng.random() < (0.8 if cap < 1000 else 0.1) else rng.choice([0, 0, 3, 40])
    pool = rng.sample(LABS, rng.randint(2, 10))
    if rng.random() < 0.25:         # beginnings of one another
        s = rng.choice(["a" * 600, "ab" * 300, "".join(chr(33 + i % 90) for i in range(600))])
        pool += [s[:n] for n in rng.sample([4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513], 7)]
    if long:
        pool += ["n%d" % i for i in range(120)]
    ops, live, used, ev, sc, kept = [], [1], set(), [], 0, set()
    nl = 1
    tree = "tree" in impl
    for _ in range(rng.randint(200, 400) if long else rng.randint(3, 25)):
        x = rng.random()
        if x < 0.2:
            free = [h for h in live if h not in used]
            kinds = ["copy", "copy", "set"] + ["new"] * (len(live) < 5) + ["drop"] * (bool(free) and len(live) > 1)
            if not tree:
                kinds += ["ev", "ev"] + ["evn"] * (len(live) < 6) + ["cev", "gev", "sc", "sc"] * bool(ev) + ["eset"] * (len(kept) < len(ev)) + ["csc", "sset"] * bool(sc)
            op = rng.choice(kinds)
            if op in ("new", "evn"):
                a = []
            elif op in ("copy", "ev"):
                a = [rng.choice(live)]
            elif op == "drop":
                a = [rng.choice(free)]
                live.remove(a[0])
            elif op == "set":
                a = [rng.choice(live), rng.choice(live)]
            elif op in ("cev", "gev", "sc"):
                a = [rng.randint(1, len(ev))]
            elif op == "csc":
                a = [rng.randint(1, sc)]
            elif op == "eset":
                a = [rng.choice([k for k in range(1, len(ev) + 1) if k not in kept]), rng.randint(1, len(ev))]
                ev[a[0] - 1] = ev[a[1] - 1]
            else:
                a = [rng.randint(1, sc), rng.randint(1, sc)]
            ops.append({"op": op, "a": a})
            if op in ("new", "copy", "evn"):
                nl += 1
                live.append(nl)
            if op == "evn":
                ev.append(nl)
                kept.add(len(ev))
            elif op == "ev":
                ev.append(a[0])
            elif op in ("cev", "gev"):
                ev.append(ev[a[0] - 1])
            elif op in ("sc", "csc"):
                sc += 1
            used = set(ev)
        elif tree or x < 0.5 or not ev:
            ops.append({"op": "l", "k": rng.choice(live), "args": [rng.choice(pool)]})
        elif x < 0.75 or sc == 0:
            ops.append({"op": "e", "k": rng.randint(1, len(ev)), "args": [rng.choice(pool), rng.choice(pool)]})
        else:
            ops.append({"op": "x", "k": rng.randint(1, sc), "args": [rng.choice(pool), rng.choice(pool)], "score": rng.choice(SCORES)})
    # the prefilled labels have numbers the trace does not show
    ops = [o for o in ops if pre == 0 or "a" in o or not any(a.startswith("#") for a in o["args"])]
    return {"t": t, "impl": impl, "pre": pre, "ops": ops or [{"op": "l", "k": 1, "args": ["a"]}]}


def check(ctx):
    exe = ctx.build("h_mapper+ADDR|h_mapper+ADDR,NOASSIGN")
    cfg = 'CONSTANTS Labels = {"a", "b", "c", "d"}\n Cap = 3\nSPECIFICATION MSpec\nINVARIANTS Injective Dense Answered\nPROPERTY Stable\n'
    ctx.model_check("MapperSpec", cfg, name="mapping invariants")
    run = runner(exe)
    rng = ctx.rng
    depth = ctx.pick(4, 5)

    def observed(cs):
        return [r if "crash" in r else [{"ok": o["ok"], "nums": o["nums"]} for o in r["ops"] if "k" in o] for r in run(cs)]
    for cap in (2, 3):
        cfg = 'CONSTANTS Labels = {"a", "b", "c"}\n Cap = %d\n Depth = %d\nSPECIFICATION GSpec\nINVARIANT Emit\n' % (cap, depth)
        behs = ctx.generate("MapperGen", cfg, name=f"histories with {cap} numbers left", workers=4)
        names = {"a": "a", "b": "", "c": "a\x00"}
        pairs = []
        for b in behs:
            t = rng.choice(["i8", "i8", "u8"])
            pre = CAP[t] - cap
            ops, exp = [{"op": "copy", "a": [1]}, {"op": "ev", "a": [2]}, {"op": "sc", "a": [1]}], []
            for s in b:
                args = [names[a] for a in s["args"]]
                op = "l" if s["op"] == "l" else rng.choice("ex")
                ops.append(dict(op=op, k=1 if op != "l" else rng.choice([1, 2]), args=args, **({"score": 2.5} if op == "x" else {})))
                exp.append({"ok": s["ok"], "nums": [n + pre for n in s["nums"]]})
            pairs.append(({"t": t, "impl": rng.choice(["own", "ext"]), "pre": pre, "ops": ops}, exp))
        ctx.replay_expected(f"histories with {cap} numbers left", pairs, observed)
    hcfg = 'CONSTANTS Labels = {"a", "b"}\n Cap = %d\n MaxLab = 3\n MaxEv = %d\n MaxSc = %d\n MaxMaps = 2\n'
    ctx.model_check("MapperHandles", hcfg % (2, ctx.pick(1, 2), 1) + "SPECIFICATION HSpec\nINVARIANTS HInjective HDense Whole HAnswered\nPROPERTIES HStable Quiet\n",
                    name="several mappings and mappers")
    behs = ctx.generate("MapperHandlesGen", hcfg % (100, 2, 2) + " Depth = %d\nSPECIFICATION GSpec\nINVARIANT Emit\n" % depth,
                        name="histories of several mappers", workers=4)
    pairs = []
    for b in behs:
        ops = [{"op": s["op"], "a": s["a"]} if not s["k"] else
               dict(op=s["op"], k=s["k"], args=s["args"], **({"score": 2.5} if s["op"] == "x" else {})) for s in b]
        exp = [{"ok": s["ok"], "nums": s["nums"]} for s in b if s["k"]]
        pairs.append(({"t": rng.choice(sorted(CAP)), "impl": rng.choice(["own", "own", "take", "ext"]), "pre": 0, "ops": ops}, exp))
    ctx.replay_expected("histories of several mappers", pairs, observed)
    cases = [gen_case(rng) for _ in range(ctx.pick(800, 12000))] + [gen_case(rng, True) for _ in range(ctx.pick(30, 300))]
    ctx.validate_cases("MapperTrace", cases, run, name="random histories")
    # a full mapper from the first label on: nothing is prefilled, every lookup is recorded
    cases = []
    for _ in range(ctx.pick(12, 60)):
        t = rng.choice(["i8", "u8"])
        labs = ["%x" % rng.getrandbits(60) for _ in range(CAP[t] + 6)]
        ops = []
        for i, x in enumerate(labs):
            ops.append({"op": "l", "k": 1, "args": [x]})
            if rng.random() < 0.3:
                ops.append({"op": "l", "k": 1, "args": [rng.choice(labs[:i + 1])]})
        cases.append({"t": t, "impl": rng.choice(["own", "ext", "tree"]), "pre": 0, "ops": ops})
    ctx.validate_cases("MapperTrace", cases, run, name="exhausted from the first label on")
