#!/usr/bin/env python3
"""Negative controls: recorded executions with one value changed must be rejected.

controls.py Cxx...   runs the quick check of the property on the current tree, and
validates changed copies of some of its records: per field of the records, how many of
the changed copies the specification rejects.  Fields that describe what was asked (not
what was observed) may be accepted: a change there can leave the answer right.
Not a check; evidence and replays of the property are left alone.
"""
import collections
import copy
import os
import random
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vk import core  # noqa: E402
from vk.checks import registry  # noqa: E402

PER_PART = int(os.environ.get("PER_PART", 24))       # records of a part
ONLY = os.environ.get("ONLY", ".*")       # fields
rng = random.Random(7)


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
        if x:
            yield path + ("#",)      # drop an element
    else:
        yield path


def name(path):
    return ".".join("[]" if isinstance(p, int) else str(p) for p in path)


def change(rec, path):
    r = copy.deepcopy(rec)
    x = r
    for p in path[:-1]:
        x = x[p]
    k = path[-1]
    if k == "#":
        del x[rng.randrange(len(x))]
    elif isinstance(x[k], bool):
        x[k] = not x[k]
    elif isinstance(x[k], int):
        x[k] += rng.choice([-1, 1]) * (1 if abs(x[k]) < 1000 else 200)
    else:
        x[k] = str(x[k]) + "~"
    return r


class Ctx(core.Ctx):
    def validate_cases(self, module, cases, run, name_=None, cfg=None, env=None, describe=None, limit=5, **kw):
        part = kw.get("name", name_) or module
        recs = [r for r in run(cases) if "crash" not in r and len(str(r)) < 6000]
        rng.shuffle(recs)
        muts, paths = [], []
        for r in recs[:PER_PART]:
            by = collections.defaultdict(list)
            for p in leaves(r):
                by[name(p)].append(p)
            for n, ps in by.items():
                if not re.fullmatch(ONLY, n):
                    continue
                muts.append(change(r, rng.choice(ps)))
                paths.append(n)
        by = collections.defaultdict(list)
        for m, n in zip(muts, paths):
            by[n].append(m)

        def one(n):
            c = Ctx(self.pid, tier="quick")
            c.unexplained = 0
            try:
                rej = c._validate_chunk(module, cfg or self.TRACE_CFG, by[n], list(range(len(by[n]))), env)
                left = [m for i, m in enumerate(by[n]) if i not in dict(rej)]
                return n, ("error" if c.unexplained >= 8 else "%d/%d" % (len(dict(rej)), len(by[n]))), left
            except core.CheckError as ex:
                return n, "no answer", []
            finally:
                core.shutil.rmtree(c.scratch, True)
        with core.cf.ThreadPoolExecutor(4) as ex:
            res = list(ex.map(one, sorted(by)))
        if os.environ.get("SHOW"):
            for n, _, left in res:
                if re.fullmatch(os.environ["SHOW"], n):
                    for m in left[:3]:
                        print("  accepted", n, str(m)[:1500])
        out = {n: r for n, r, _ in res}
        print(f"{self.pid} {part} ({module}):", " ".join(f"{n}:{r}" for n, r in sorted(out.items())), flush=True)
        return recs

    def replay_expected(self, *a, **k):
        pass

    def generate(self, *a, **k):
        return []

    def model_check(self, *a, **k):
        pass


for pid in sys.argv[1:]:
    ctx = Ctx(pid, tier="quick")
    try:
        registry.CHECKS[pid](ctx)
    except Exception as ex:
        print(pid, "stopped:", repr(ex)[:300])
    core.shutil.rmtree(ctx.scratch, True)
