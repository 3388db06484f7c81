"""C13: the event index behaves as a mathematical set under any history."""
import json

from ..core import run_harness
from ..gen import LABELS, box, deep, ev, ev_line

UNIV = {
    "U1": [ev("a", "d", 0, 0, 4, 4), ev("a", "d", 2, 0, 4, 4), ev("a", "d", 4, 0, 4, 4)],
    "U2": [ev("a", "d", 1, 1, 2, 3), ev("a", "db", 1, 1, 2, 3), ev("ab", "d", 1, 1, 2, 3)],
    "U3": [ev("a", "d", 1, 1, 0, 3), ev("a", "d", 1, 1, 1, 1), ev("a", "d", 0, 0, 9, 9)],
}


def script(case):
    out = ["kind " + case["kind"]]
    for o in case["ops"]:
        if o["op"] in "cnklx":
            out.append(o["op"])
        elif o["op"] == "R":
            out.append("R %d" % len(o["es"]))
            out += ["e " + ev_line(e) for e in o["es"]]
        else:
            out.append(o["op"] + " " + ev_line(o["e"]))
    return "\n".join(out)


def gen_case(rng, n, copies):
    kind = rng.choice(["int", "int", "uint", "uint", "long", "str", "num"])
    plain = kind in ("str", "num")
    if plain:
        ls = ["a", "b", "c", "d"] if kind == "num" else deep(rng, LABELS + [""], 0.2)
        univ = [ev(q, d) for q in ls[:4] for d in ls[-4:]]
    else:
        qs = deep(rng, rng.sample(LABELS, rng.randint(1, 3)))
        ds = deep(rng, rng.sample(LABELS, rng.randint(1, 3)))
        style = rng.choice([None, "grid", "line", "rand"])
        univ = [ev(rng.choice(qs), rng.choice(ds), *box(rng, style)) for _ in range(rng.randint(3, 14))]
        # the same boxes elsewhere
        univ += [dict(e, d=list(rng.choice(ds).encode("latin-1"))) for e in univ[:3]]
    bias = rng.choice([1, 2, 4])
    ops = []
    for _ in range(n):
        x = rng.random()
        if copies and rng.random() < 0.12:
            ops.append({"op": rng.choice("klx")})
        elif x < 0.40:
            k = "i" if rng.random() < bias / (bias + 1.0) else "r"
            ops.append({"op": k, "e": rng.choice(univ)})
        elif x < 0.90:
            p = rng.choice(univ)
            if not plain and rng.random() < 0.4:
                p = dict(p)
                p["x"], p["y"], p["w"], p["h"] = box(rng)
            ops.append({"op": "q", "e": p})
        elif x < 0.93:
            ops.append({"op": "c"})
        elif x < 0.95:
            ops.append({"op": "n"})
        else:
            ops.append({"op": "R", "es": [rng.choice(univ) for _ in range(rng.randint(0, 8))]})
    return {"kind": kind, "plain": plain, "ops": ops}


def run_factory(exe):
    def run(cases):
        outs = run_harness(exe, [script(c) for c in cases])
        recs = []
        for c, o in zip(cases, outs):
            if "crash" in o or len(o["obs"]) != len(c["ops"]):
                recs.append({"crash": str(o)[:300]})
            else:
                recs.append({"plain": c["plain"],
                             "ops": [dict(op, size=b["size"], res=b["res"]) for op, b in zip(c["ops"], o["obs"])]})
        return recs
    return run


BIG = {"int": 46000, "uint": 65000, "long": 2 * 10 ** 9, "double": 60000, "float": 1500}


def big_case(rng):
    """Boxes of very different sizes, up to the largest areas of the type."""
    kind = rng.choice(["uint", "uint", "long", "int", "double", "float"])
    top = BIG[kind]
    univ = []
    for _ in range(rng.randint(3, 9)):
        s = rng.choice([2, 50, top // 7, top // 2, top - 1, top])
        f = lambda: max(1, s - rng.choice([0, 0, 1, 2, s // 3]))
        o = rng.choice([0, 0, 1, 3, top // 5])
        univ.append(ev("q", "d", o, rng.choice([0, o]), f(), f()))
    univ += [ev("q", "d", 0, 0, top, top), ev("q", "d", 0, 0, 3, 3)]
    ops = [{"op": "i", "e": e} for e in univ if rng.random() < 0.9]
    for _ in range(rng.randint(5, 15)):
        ops.append({"op": rng.choice("iqqqqr"), "e": rng.choice(univ)})
    return {"kind": kind, "plain": False, "ops": ops}


def big_runs(exe):
    plain = run_factory(exe)
    txt = lambda e: {k: (list(str(v).encode()) if k in "xywh" else v) for k, v in e.items()}

    def run(cases):
        recs = plain(cases)
        for r in recs:
            for o in r.get("ops", ()):
                for k in ("e",):
                    if k in o:
                        o[k] = txt(o[k])
                o["res"] = [txt(e) if min(e[k] for k in "xywh") >= 0 else {} for e in o["res"]]
        return recs
    return run


def many_case(rng):
    """Sets of more events than sixteen bits can count."""
    top = rng.choice([300, 70000, 70000, 140000])
    ops = []
    for _ in range(rng.randint(3, 7)):
        o = rng.choice("IIIDqq")
        a = rng.randint(0, top // 3)
        if o == "q":
            ops.append({"op": "q", "a": rng.randint(0, top), "b": rng.choice([1, 6, 7, 13, 60]), "s": 1})
        else:
            ops.append({"op": o, "a": a, "b": rng.choice([a, top, top - rng.randint(0, top // 9)]), "s": rng.choice([1, 1, 2, 5])})
    ops += [{"op": "q", "a": rng.randint(0, top), "b": 20, "s": 1}]
    if rng.random() < 0.3:
        ops += [{"op": "c", "a": 0, "b": 0, "s": 1}, {"op": "I", "a": 1, "b": top // 2, "s": 3}]
    return {"plain": rng.random() < 0.4, "ops": ops}


def crowd_case(rng):
    """Very many boxes at one spot."""
    univ = []
    for _ in range(rng.choice([17, 33, 40, 70])):
        univ.append(ev("a", "d", rng.randint(0, 12), rng.randint(0, 9), rng.randint(1, 40), rng.randint(1, 30)))
    ops = [{"op": "i", "e": e} for e in univ]
    for _ in range(10):
        ops.append({"op": rng.choice("iqqqqr"), "e": rng.choice(univ)})
    ops += [{"op": "q", "e": ev("a", "d", 0, 0, 60, 60)}, {"op": "q", "e": ev("a", "d", 12, 9, 1, 1)}]
    return {"kind": rng.choice(["int", "uint", "long"]), "plain": False, "ops": ops}


def many_runs(exe):
    def line(o):
        return "c" if o["op"] == "c" else "q %d %d" % (o["a"], o["b"]) if o["op"] == "q" else "%s %d %d %d" % (o["op"], o["a"], o["b"], o["s"])

    def run(cases):
        recs = []
        for c, o in zip(cases, run_harness(exe, ["\n".join(["kind many %d" % c["plain"]] + [line(x) for x in c["ops"]]) for c in cases])):
            ok = "obs" in o and len(o["obs"]) == len(c["ops"])
            recs.append({"plain": c["plain"], "ops": [dict(x, **b) for x, b in zip(c["ops"], o["obs"])]} if ok else {"crash": str(o)[:300]})
        return recs
    return run


def check(ctx):
    exe = ctx.build("h_evset+COPY|h_evset")
    copies = exe.endswith("+COPY")      # sets can be copied
    ctx.model_check("EventIndex", "CONSTANT Universe <- U1\nSPECIFICATION Spec\nINVARIANTS CounterExact BucketsSuffice LookupLaws\nPROPERTY Refines\n",
                    name="EventIndex refines EventSetSpec")
    depth = ctx.pick(4, 6)
    for u in ("U1", "U2", "U3"):
        behs = ctx.generate("EventSetGen", f"CONSTANTS U <- {u}\n Depth = {depth}\nSPECIFICATION GSpec\nINVARIANT Emit\n",
                            name=f"histories over {u}")
        univ = UNIV[u]
        for kind in ("int", "uint"):
            pairs = []
            for b in behs:
                ops, exp = [], []
                for s in b:
                    ops.append({"op": s["op"]} if s["op"] == "c" else {"op": s["op"], "e": univ[s["e"] - 1]})
                    exp.append(s["obs"])
                pairs.append(({"kind": kind, "ops": ops}, exp))

            def run(cases, univ=univ):
                full = []
                for c in cases:
                    ops = []
                    for o in c["ops"]:
                        ops.append(o)
                        ops += [{"op": "q", "e": p} for p in univ]
                    full.append({"kind": c["kind"], "ops": ops})
                res = []
                for o in run_harness(exe, [script(c) for c in full]):
                    if "crash" in o:
                        res.append(o)
                        continue
                    obs, n = o["obs"], len(univ) + 1
                    try:
                        res.append([{"size": obs[i]["size"],
                                     "look": [[univ.index(e) + 1 for e in obs[i + 1 + k]["res"]]
                                              for k in range(len(univ))]} for i in range(0, len(obs), n)])
                    except ValueError:
                        res.append({"strange": json.dumps(obs)[:500]})
                return res
            ctx.replay_expected(f"histories over {u} ({kind})", pairs, run)
    cases = [gen_case(ctx.rng, ctx.rng.choice([5, 20, 40]), copies) for _ in range(ctx.pick(400, 6000))]
    cases += [gen_case(ctx.rng, ctx.pick(300, 1500), copies) for _ in range(ctx.pick(6, 40))]
    cases += [crowd_case(ctx.rng) for _ in range(ctx.pick(10, 100))]
    ctx.validate_cases("EventSetTrace", cases, run_factory(exe))
    ctx.validate_cases("EventSetBigTrace", [big_case(ctx.rng) for _ in range(ctx.pick(160, 2500))], big_runs(exe), name="histories with areas of any size")
    ctx.validate_cases("EventSetManyTrace", [many_case(ctx.rng) for _ in range(ctx.pick(12, 80))], many_runs(exe), name="sets of very many events")
