"""Shared machinery of the checks: building the code under test, running TLC,
validating recorded traces, evidence and verdicts.

Verdict discipline: exit 0 = property held on everything explored, exit 1 with a
VIOLATION line = the code does something the specification does not allow (and a
second run of the same case did it again), exit 2 = the check itself failed.
"""
import atexit
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check could not do its work (never a verdict about the code)."""


def eprint(*a):
    print(*a, file=sys.stderr, flush=True)


class StopEarly(CheckError):
    """A violation is confirmed: the verdict is known."""

    def __str__(self):
        return "stopped at the first violation"


class Ctx:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        h = hashlib.sha256(f"{pid}:{self.seed}".encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"vk-{pid}-")
        atexit.register(shutil.rmtree, self.scratch, True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "parts": {}}
        self.assumptions = []
        self.viol = []
        self.known_hits = []
        self.known = load_known(pid)
        self._n = 0
        self.unexplained = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        self._n += 1
        return os.path.join(self.scratch, f"{self._n:05d}-{name}")

    # ---------------------------------------------------------------- building
    def build(self, *names):
        """Compiles harness programs (names of /verif/harness/*.cc) and tools
        ('tool:Icdar17KwsEval') from /repo's working tree, in parallel."""
        def one(n):
            # a name may carry macros (h_x+FULL) and alternatives (h_x+FULL|h_x): a
            # harness part on interfaces the repository may rename is optional
            if "|" in n:
                a, b = n.split("|", 1)
                try:
                    return one(a)
                except CheckError as ex:
                    eprint(f"note: {a} does not compile, using {b}: {str(ex)[-600:]}")
                    return one(b)
            out = os.path.join(self.scratch, n.replace(":", "_"))
            n, _, flags = n.partition("+")
            if n.startswith("tool:"):
                src = os.path.join(REPO, "tools", n[5:] + ".cc")
            else:
                src = os.path.join(HARN, n + ".cc")
            cmd = ["g++", "-std=c++14", "-O1", "-w", "-fno-lifetime-dse", "-pthread", "-I", REPO, "-I", HARN, src, "-o", out]
            cmd += ["-D" + f for f in flags.split(",") if f and f not in ("ASAN", "ADDR")]
            if "ADDR" in flags.split(","):
                cmd += ["-fsanitize=address", "-fno-sanitize-recover=all"]
            if "ASAN" in flags.split(","):
                cmd += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, TMPDIR=self.scratch), timeout=600)
            if p.returncode != 0:
                raise CheckError(f"cannot build {n}:\n{p.stdout[-4000:]}")
            return out
        with cf.ThreadPoolExecutor(NCPU) as ex:
            outs = list(ex.map(one, names))
        return outs[0] if len(outs) == 1 else outs

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, extra=(), heap="2g", timeout=600):
        """Runs TLC on spec/<module>.tla with the given configuration text."""
        if "CHECK_DEADLOCK" not in cfg:
            cfg += "CHECK_DEADLOCK FALSE\n"
        wd = self.path("tlc")
        os.makedirs(wd)
        cfgf = os.path.join(wd, module + ".cfg")
        with open(cfgf, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}",
               "-Xss256m", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + wd, f"-DTLA-Library={SPEC}",
               "-cp", JARS, "tlc2.TLC", "-config", cfgf, "-metadir", os.path.join(wd, "st"),
               "-workers", str(workers), "-noGenerateSpecTE", *extra,
               os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        outf = os.path.join(wd, "out.txt")
        with open(outf, "w") as o:
            try:
                p = subprocess.run(cmd, stdout=o, stderr=subprocess.STDOUT, env=e, cwd=wd, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError(f"TLC timed out on {module}")
        with open(outf, errors="replace") as o:
            txt = o.read()
        res = {"rc": p.returncode, "out": txt, "ok": "Model checking completed. No error has been found." in txt
               or ("-simulate" in extra and p.returncode == 0)}
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
        res["generated"], res["distinct"] = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        shutil.rmtree(wd, True)
        return res

    def model_check(self, module, cfg, name=None, workers=4, heap="4g", timeout=800, extra=()):
        """Exhaustive check of the specification itself. A failure here is an
        error of the specification, not of the code."""
        r = self.tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, extra=extra)
        if not r["ok"]:
            raise CheckError(f"specification {module} does not satisfy its own properties:\n{r['out'][-3000:]}")
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["parts"][name or module] = {"distinct_states": r["distinct"], "states_generated": r["generated"]}
        return r

    def generate(self, module, cfg, name=None, heap="4g", timeout=800, extra=(), env=None, workers=1):
        """Behaviours printed by TLC ("GEN <json>") while exploring module."""
        r = self.tlc(module, cfg, workers=workers, heap=heap, timeout=timeout, extra=extra, env=env)
        if not r["ok"]:
            raise CheckError(f"generation with {module} failed:\n{r['out'][-3000:]}")
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        out = []
        for ln in sorted(r["out"].splitlines()):      # any number of workers, one order
            if ln.startswith('"GEN '):
                out.append(json.loads(json.loads(ln)[4:]))
        if not out:
            raise CheckError(f"{module} generated nothing:\n{r['out'][-2000:]}")
        self.cov["parts"][name or module] = {"distinct_states": r["distinct"], "behaviours": len(out)}
        return out

    def _validate_chunk(self, module, cfg, recs, idx, env, depth=0):
        """Returns list of (global index, note) of rejected records."""
        tf = self.path("trace.ndjson")
        with open(tf, "w") as f:
            for r in recs:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        e = dict(env or {})
        e["TRACE"] = tf
        r = self.tlc(module, cfg, env=e)
        os.unlink(tf)
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        if r["ok"] and "TRACE-CONSUMED %d" % len(recs) in r["out"]:
            if "MALFORMED" in r["out"]:
                raise CheckError(f"{module}: the generator made malformed records: " + r["out"][-2000:])
            rej = []
            for m in re.finditer(r'^"REJECT (\d+) (.*)"$', r["out"], re.M):
                rej.append((idx[int(m.group(1)) - 1], m.group(2)[:2000].replace('\\"', '"')))
            if len(rej) != r["out"].count("REJECT "):
                raise CheckError("cannot read the rejections of " + module)
            return rej
        out = r["out"]
        if "java.lang.OutOfMemory" in out or "StackOverflowError" in out or "Parsing or semantic analysis failed" in out or "Could not" in out and "parse" in out.lower() and "spec" in out.lower():
            raise CheckError(f"TLC failed on {module}:\n{out[-3000:]}")
        if len(recs) == 1:
            self.unexplained += 1
            msg = re.sub(r"\s+", " ", out[max(0, out.find("Error:")):][:1200] + " ... " + out[-600:])
            return [(idx[0], " specification cannot explain the record: " + msg)]
        if self.unexplained >= 8:        # enough to report; do not dig out all of them
            return []
        h = len(recs) // 2
        return (self._validate_chunk(module, cfg, recs[:h], idx[:h], env, depth + 1)
                + self._validate_chunk(module, cfg, recs[h:], idx[h:], env, depth + 1))

    TRACE_CFG = "SPECIFICATION TraceSpec\nPOSTCONDITION TraceDone\nCHECK_DEADLOCK FALSE\n"

    def validate(self, module, recs, name=None, cfg=None, env=None, chunks=NCPU, minchunk=40):
        """Code -> specification: TLC decides for each recorded execution whether
        it is a behaviour of the specification. Returns {index: note}."""
        if not recs:
            return {}
        self.unexplained = 0
        n = max(1, min(chunks, len(recs) // minchunk or 1))
        # interleaved split, so that expensive records spread evenly
        parts = [list(range(k, len(recs), n)) for k in range(n)]
        cfg = cfg or self.TRACE_CFG
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(self._validate_chunk, module, cfg, [recs[i] for i in p], p, env) for p in parts]
            rej = {}
            for f in futs:
                for i, note in f.result():
                    rej[i] = note
        self.cov["traces_validated_against_impl"] += len(recs)
        part = self.cov["parts"].setdefault(name or module, {})
        part["traces"] = part.get("traces", 0) + len(recs)
        part["rejected"] = part.get("rejected", 0) + len(rej)
        return rej

    def validate_cases(self, module, cases, run, name=None, cfg=None, env=None, describe=None, limit=5):
        """run(list of cases) -> list of records (one per case). Rejected cases are
        run again from scratch; a rejection that repeats is a violation."""
        recs = run(cases)
        assert len(recs) == len(cases), (len(recs), len(cases))
        self.sample(name or module, recs)
        rej = self.validate(module, recs, name=name, cfg=cfg, env=env)
        if not rej:
            return recs
        ids = sorted(rej)[:limit]
        again_c = [cases[i] for i in ids]
        again_r = []
        t = time.time()
        for c in again_c:
            if again_r and time.time() - t > 60:      # they hang; one is enough
                break
            again_r += run([c])
        again_c = again_c[:len(again_r)]
        rej2 = self.validate(module, again_r, name=(name or module) + " (re-run)", cfg=cfg, env=env, minchunk=1)
        if not rej2:      # perhaps it takes the cases before it in the same process
            again_c = cases
            again_r = run(cases)
            rej2 = self.validate(module, again_r, name=(name or module) + " (re-run)", cfg=cfg, env=env)
            rej2 = dict(sorted(rej2.items())[:limit])
        if not rej2:
            raise CheckError(f"rejections in {name or module} did not repeat (first: {rej[ids[0]]})")
        for j, note in sorted(rej2.items()):
            self.violation({"part": name or module, "case": describe(again_c[j]) if describe else again_c[j],
                            "record": again_r[j], "specification": note})
        raise StopEarly()

    def replay_expected(self, name, pairs, run, limit=5):
        """Specification -> code: pairs of (case, expected observation) generated
        by TLC; run(cases) -> observations of the real code."""
        obs = run([c for c, _ in pairs])
        bad = [i for i, ((c, e), o) in enumerate(zip(pairs, obs)) if e != o]
        part = self.cov["parts"].setdefault(name, {})
        part["behaviours_replayed"] = part.get("behaviours_replayed", 0) + len(pairs)
        self.cov["traces_validated_against_impl"] += len(pairs)
        if pairs:
            k = len(pairs) // 2
            self.cov["samples"].append({"part": name, "case": json.dumps(pairs[k][0])[:1000], "expected": json.dumps(pairs[k][1])[:1000]})
        n = 0
        for i in bad[:limit]:
            o2 = run([pairs[i][0]])[0]
            if o2 != pairs[i][1]:
                n += 1
                self.violation({"part": name, "case": pairs[i][0], "expected": pairs[i][1], "observed": o2})
        if bad and not n:      # perhaps it takes the cases before it in the same process
            obs = run([c for c, _ in pairs])
            for i in [i for i, ((c, e), o) in enumerate(zip(pairs, obs)) if e != o][:limit]:
                n += 1
                self.violation({"part": name, "case": pairs[i][0], "expected": pairs[i][1], "observed": obs[i], "note": "after the cases before it"})
        if n:
            raise StopEarly()
        if bad:
            raise CheckError(f"differences in {name} did not repeat")

    def sample(self, name, recs):
        if recs:
            s = json.dumps(recs[len(recs) // 3])
            self.cov["samples"].append({"part": name, "trace": s[:1500]})

    # ---------------------------------------------------------------- verdict
    def violation(self, obj):
        self.viol.append(obj)

    def known_finding(self, key, still_fails):
        """key must be listed in known_findings.json; still_fails tells whether
        the listed input still shows the defect."""
        ent = [k for k in self.known if k["key"] == key]
        if not ent:
            raise CheckError(f"known finding {key} is not listed")
        if still_fails:
            print(f"KNOWN-FINDING: property={self.pid} {ent[0]['what']}", flush=True)
            self.known_hits.append(key)

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(self.cov)
        if not cov["samples"]:
            cov["samples"] = ["-"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.viol)}
        if self.known_hits:
            cov["known_findings_seen"] = self.known_hits
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.viol:
            d = os.path.join(VERIF, "out", "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, f"{self.pid}-{self.tier}-{self.seed}.json")
            with open(p, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "violations": self.viol[:20]}, f, indent=1)
            v = self.viol[0]
            eprint(json.dumps(v)[:3000])
            print(f"VIOLATION property={self.pid} replay={p}", flush=True)
            return 1
        print(f"OK property={self.pid} tier={self.tier} states={cov['states']} "
              f"traces={cov['traces_validated_against_impl']} wall={wall:.1f}s", flush=True)
        return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


MAX_OUT = 300 << 20


def run_proc(cmd, stdin=None, timeout=20, cwd=None, env=None):
    """Runs a program of the code under test. Returns (status, stdout, stderr);
    status is the exit code, 'signal N' or 'hang'."""
    # output goes to files, which the limit on file sizes bounds
    with tempfile.TemporaryFile() as of, tempfile.TemporaryFile() as ef:
        try:
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                                 stdout=of, stderr=ef, cwd=cwd, env=env, start_new_session=True)
        except OSError as ex:
            raise CheckError(f"cannot run {cmd[0]}: {ex}")
        try:
            p.communicate(stdin.encode("latin-1") if isinstance(stdin, str) else stdin, timeout=timeout)
            st = p.returncode
            if st < 0:
                st = f"signal {-st}"
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            st = "hang"
        of.seek(0)
        ef.seek(0)
        return st, of.read(MAX_OUT).decode("latin-1"), ef.read(MAX_OUT).decode("latin-1")


def pmap(f, xs, n=NCPU):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def run_harness(exe, scripts, timeout=60):
    """scripts: list of text blocks, one per case; the harness reads cases separated
    by a line 'END' and prints one JSON line per case. A case that kills or
    hangs the harness yields {'crash': status}. Cases are spread over processes."""
    def batch(items, crashes=0):
        if crashes >= 10:         # enough to report; do not dig out all of them
            return [{"crash": "not run after many crashes"}] * len(items)
        st, out, err = run_proc([exe], stdin="".join(s.rstrip("\n") + "\nEND\n" for s in items),
                                timeout=timeout if len(items) > 1 else min(timeout, 60),
                                env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:symbolize=0:exitcode=99:allocator_may_return_null=1"))
        lines = out.split("\n")
        res = []
        for ln in lines:
            if not ln.endswith("}"):
                break
            try:
                res.append(json.loads(ln))
            except ValueError:
                break
        if len(res) >= len(items) and st == 0:
            return res[:len(items)]
        if st == "hang":
            crashes += 10
        # the case after the last complete answer is the culprit
        res = res[:len(items)]
        if len(res) == len(items):
            res = res[:-1]
        res.append({"crash": str(st), "stderr": err[-300:]})
        if len(res) < len(items):
            res += batch(items[len(res):], crashes + 1)
        return res
    n = max(1, min(NCPU, len(scripts) // 20 or 1))
    size = (len(scripts) + n - 1) // n
    parts = [scripts[i:i + size] for i in range(0, len(scripts), size)]
    out = []
    for r in pmap(batch, parts):
        out += r
    return out


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        eprint("usage: check <property id>")
        sys.exit(2)
    pid = sys.argv[1]
    # a program that never stops writing gets a signal
    hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30 if hard == resource.RLIM_INFINITY else min(1 << 30, hard), hard))
    ctx = Ctx(pid, tier=sys.argv[2] if len(sys.argv) > 2 else None)
    try:
        checks[pid](ctx)
        rc = ctx.finish()
    except CheckError as ex:
        if ctx.viol:
            # something real was already confirmed; report it
            rc = ctx.finish()
        else:
            eprint(f"ERROR in check {pid}: {ex}")
            rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = ctx.finish() if ctx.viol else 2
    sys.stdout.flush()
    shutil.rmtree(ctx.scratch, True)
    os._exit(rc)
