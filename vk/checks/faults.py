"""C17: complete runs of the real tools in faulty environments."""
import os
import random
import resource
import shutil
import signal
import subprocess

from ..core import pmap
from ..tool import gen_labels, gen_problem, parse_out, text, write
from .metrics import Tools

NOBODY = 65534
EMPTY = ["", "", "\n", "# nothing\n", "  \n\t\n"]
MALFORMED = {
    ("simple", "ref"): ["a", "a b c", "\xe9"],
    ("simple", "hyp"): ["a", "a b", "a b x", "a b 1 2", "a b 1x", "a b ."],
    ("icdar", "ref"): ["a", "a d 1 2 3", "a d 1 2 3 x", "a d 1 2 3 4 5", "a d 1.5 2 3 4", "a d 1 2 3 99999999999", "a d -1 2 3 4"],
    ("icdar", "hyp"): ["a", "a d 1 2 3 4", "a d 1 2 3 4 x", "a d 1 2 3 4 0.5 6", "a d 1 2 3 y 0.5", "a d 1 2 99999999999 4 0.5"],
    ("simple", "grp"): ["a", "zz ", " ", "#"], ("icdar", "grp"): ["a", " zz", "\t \r", "#no"],
}
BADCMD = [[], ["@r", "@h", "@h"], ["--nosuch", "1", "@r", "@h"], ["--sort"], ["--collapse_matches", "maybe", "@r", "@h"],
          ["--bootstrap_samples", "x", "@r", "@h"], ["--bootstrap_samples", "-1", "@r", "@h"], ["--bootstrap_alpha", "-0.1", "@r", "@h"],
          ["--bootstrap_alpha", "1.5", "@r", "@h"], ["--bootstrap_alpha", "nan", "@r", "@h"], ["--rp_curve_samples", "1.5", "@r", "@h"],
          ["--bootstrap_seed", "99999999999999999999999", "@r", "@h"], ["-nosuch", "@r", "@h"], ["--interpolated_precision", "", "@r", "@h"][:1] + ["@r"],
          ["--bootstrap_alpha", "", "@r", "@h"], ["--output_grp"], ["--bootstrap_alpha", "-1e-9", "@r", "@h"], ["--bootstrap_alpha", "1.0000001", "@r", "@h"],
          ["--bootstrap_alpha", "5", "@r", "@h"], ["--bootstrap_alpha", "inf", "@r", "@h"], ["--bootstrap_alpha", "-inf", "@r", "@h"],
          ["--bootstrap_alpha", "95%", "@r", "@h"], ["--trapezoid_integral", "no", "@r", "@h"], ["--bootstrap_ci_gap", "2", "@r", "@h"],
          ["--bootstrap_seed", "-3", "@r", "@h"], ["--rp_curve_samples", "-1", "@r", "@h"], ["--rp_curve_samples", "1e3", "@r", "@h"], ["--sort", "desc"],
          ["--", "@r", "@h", "--sort", "desc"], ["@r", "--sort", "desc", "@h"], ["---sort", "desc", "@r", "@h"], ["--Sort", "desc", "@r", "@h"], ["--help2", "@r", "@h"]]


def can_drop():
    try:
        return subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
    except (OSError, subprocess.SubprocessError, ValueError):
        return False


def with_line(rng, body, bad):
    rows = body.split("\n")[:-1] if body else []
    rows.insert(rng.randint(0, len(rows)), bad)
    return "\n".join(rows) + rng.choice(["\n", "\n", ""])


class Faults:
    def __init__(self, ctx, flags=""):
        self.drop = can_drop()
        if not self.drop:
            ctx.assumptions.append("no unprivileged user to be had here: files without permissions left out")
        self.exes = dict(zip(Tools.SRC, ctx.build(*["tool:" + s + flags for s in Tools.SRC.values()])))
        self.env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:symbolize=0:exitcode=99:abort_on_error=1:allocator_may_return_null=1")
        self.shim = None
        if not flags:        # reads that break off; not with the address sanitizer, which wants to be the first library
            shim = os.path.join(ctx.scratch, "breakread.so")
            src = os.path.join(os.path.dirname(__file__), "..", "..", "harness", "breakread.c")
            if subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", shim, src, "-ldl"], capture_output=True).returncode == 0:
                self.shim = shim
            else:
                ctx.assumptions.append("reads that break off left out: no shared library to be built here")
        self.dir = ctx.path("faults")
        os.makedirs(self.dir)
        for d in (ctx.scratch, self.dir):
            os.chmod(d, 0o755)

    def possible(self, env):
        return (self.drop or "noperm" not in env.values()) and (self.shim or not any(env[k] == "broken" for k in ("ref", "set", "grp")) and env["via"] != "broken")

    def run_all(self, cases):
        return pmap(self.run, cases)

    def run(self, c):
        e, kind, rng = c["env"], c["tool"], random.Random(c["seed"])
        d = os.path.join(self.dir, "%d-%d" % (c["seed"], rng.getrandbits(40)))
        os.makedirs(d)
        try:
            r = self.go(e, kind, rng, d, c)
            if r.pop("unbroken"):       # nothing was read the way that could be made to break
                e = {k: "ok" if v == "broken" else v for k, v in e.items()}
            return dict(r, env=e)
        finally:
            shutil.rmtree(d, True)

    def go(self, e, kind, rng, d, c):
        big = rng.random() < 0.15
        n = rng.randint(150, 300) if big else rng.randint(1, 7)
        p = (gen_problem if kind == "icdar" else gen_labels)(rng, nref=n, nhyp=n)
        qs = sorted({r[0] for r in p["refs"]})
        body = {"ref": text(p["refs"]), "hyp": text(p["hyps"]), "set": " ".join(qs[:rng.randint(1, 3)]) + "\n",
                "grp": "".join("g%d %s\n" % (i % 2, q) for i, q in enumerate(qs))}
        path = lambda name: os.path.join(d, name)
        broken = []
        part = "part" in (e["dump"], e["gc"], e["mc"])

        def file(role, k, name):
            if k == "missing":
                return path("nosuch-" + name)
            if k == "dir":
                os.mkdir(path(name))
            elif k == "empty":
                write(path(name), rng.choice(EMPTY) if role in ("ref", "hyp") else "" if role == "grp" else rng.choice(["", "\n", "  \n"]))
            elif k == "malformed":
                write(path(name), with_line(rng, body[role], rng.choice(MALFORMED[kind, role])))
            else:
                write(path(name), body[role])
                if k == "broken" and name not in [b[0] for b in broken]:
                    broken.append((name, rng.choice([0, len(body[role]), rng.randint(0, len(body[role])), rng.randint(0, len(body[role]))])))
                if k == "noperm":
                    os.chmod(path(name), 0)
            return path(name)

        def output(k, name):
            if k == "nodir":
                return path("nosuch/" + name)
            if k == "full":
                return "/dev/full"
            if k == "dir":
                os.mkdir(path(name))
            if k == "noperm":
                write(path(name), "old\n")
                os.chmod(path(name), 0o444)
            return path(name)
        args, opts = [], []
        for role, opt in (("set", "--query_set"), ("grp", "--query_groups")):
            if e[role] != "none":
                opts.append([opt, file(role, e[role], role)])
        for role, opt in (("dump", "--dump_matches"), ("gc", "--output_grp"), ("mc", "--output_mrp")):
            if e[role] != "none":
                opts.append([opt, output(e[role], role)])
            elif rng.random() < 0.1:
                opts.append([opt, ""])
        if e["set"] == "none" and rng.random() < 0.1:
            opts.append(["--query_set", ""])
        if e["gc"] != "none" or e["mc"] != "none":
            # a curve of fewer than 2 points need not put anything into the file
            opts.append(["--rp_curve_samples", str(2000 if part and big else rng.choice([2, 3, 11, 101, 2000]))])
        for o in ("--collapse_matches", "--interpolated_precision", "--trapezoid_integral"):
            if rng.random() < 0.2:
                opts.append([o, rng.choice(["true", "false"])])
        if rng.random() < 0.3:
            opts.append(["--sort", rng.choice(["asc", "desc", "none", "sideways"])])
        if rng.random() < 0.4:
            opts.append(["--bootstrap_samples", str(rng.choice([0, 1, 2, 9]))])
            opts += [[o, "true"] for o in ("--bootstrap_ci_gap", "--bootstrap_ci_map", "--bootstrap_ci_gndcg", "--bootstrap_ci_mndcg") if rng.random() < 0.5]
            if rng.random() < 0.7:
                opts.append(["--bootstrap_alpha", rng.choice(["0", "1", "0.05", "0.5", "1e-300"])])
        rng.shuffle(opts)
        args = [x for o in opts for x in o]
        ref = "" if e["ref"] == "noname" else file("ref", e["ref"], "r")
        pos, stdin, fds = [ref], subprocess.DEVNULL, []
        via = e["via"]
        if via.startswith("stdin"):
            k = via[6:] or "ok"
            if k == "dir":
                stdin = os.open(d, os.O_RDONLY)
            elif k == "broken":      # more is to come, but not now
                stdin, wr = os.pipe()
                os.set_blocking(stdin, False)
                cut = rng.choice([0, len(body["hyp"]), rng.randint(0, len(body["hyp"]))])
                os.write(wr, body["hyp"].encode("latin-1")[:min(cut, 60000)])
                fds.append(wr)
            elif k != "closed":
                stdin = os.open(file("hyp", k, "h"), os.O_RDONLY)
            if rng.random() < 0.3:
                pos.append("")
        else:
            pos.append(file("hyp", e["hyp"], "h"))
        args += pos
        if e["cmd"] == "help":
            args.insert(2 * rng.randint(0, len(opts)), "--help")
        elif e["cmd"] == "bad":
            bad = [a.replace("@", d + "/") for a in (BADCMD[c["bad"]] if "bad" in c else rng.choice(BADCMD))]
            args = bad if len(bad) < 2 else args[:len(args) - len(pos)] + bad
        os.chmod(d, 0o777)
        err = path("stderr")
        so = e["so"]
        if stdin != subprocess.DEVNULL:
            fds.append(stdin)
        limit = rng.choice([100, 1024, 3000]) if big else rng.randint(0, 25)
        env = self.env
        if broken:
            env = dict(env, LD_PRELOAD=self.shim, BREAK_READ=":".join("%s=%d" % b for b in broken), BREAK_MARK=path("broke"))

        def pre():
            if via == "stdin-closed":
                os.close(0)
            if so == "closed":
                os.close(1)
            signal.alarm(60)
            if part:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        try:
            if so == "full":
                fds.append(os.open("/dev/full", os.O_WRONLY))
            with open(err, "wb") as ef, open(path("stdout"), "wb") as of:
                pipe = subprocess.PIPE if part else None      # the limit is for the output files only
                pr = subprocess.Popen([self.exes[kind]] + args, stdin=stdin, stdout=fds[-1] if so == "full" else pipe or of, stderr=pipe or ef, cwd=d, preexec_fn=pre, env=env,
                                      **(dict(user=NOBODY, group=NOBODY, extra_groups=[]) if self.drop else {}))
                if part:
                    o2, e2 = pr.communicate()
                    of.write(o2 or b"")
                    ef.write(e2)
                st = pr.wait()
        finally:
            for f in fds:
                os.close(f)
        with open(err, "rb") as f:
            et = f.read().decode("latin-1")
        with open(path("stdout"), "rb") as f:
            ot = f.read().decode("latin-1")
        return {"unbroken": bool(broken) and not os.path.exists(path("broke")), "ok": st == 0, "lines": lines_of(ot), "complained": "ERROR" in et, "sig": "" if st >= 0 else "signal %d" % -st,
                "args": " ".join(args).replace(d, "@"), "stderr": "" if st == 0 else et[:300].replace(d, "@")}


NAMES = ["gAP", "mAP", "gNDCG", "mNDCG"]


def lines_of(txt):
    """The number of lines when they are a beginning of the report, else -1."""
    if not txt:
        return 0
    n = txt.count("\n")
    if n > 4:
        return -1
    return n if parse_out(txt + "".join("%s = 0\n" % x for x in NAMES[n:])) else -1


def check(ctx):
    cfg = ("CONSTANTS MaxFaults = 1\nSPECIFICATION Spec\nINVARIANTS FinalAllowed SuccessIsComplete NothingBeforeInputErrors FailureIsTold\n"
           "PROPERTY Finishes\n")
    ctx.model_check("ToolRunGen", cfg, name="runs over all environments", workers=8)
    f = Faults(ctx)
    rng = ctx.rng

    def case(e):
        return {"env": e, "tool": rng.choice(list(f.exes)), "seed": rng.getrandbits(40)}
    gen = "CONSTANTS MaxFaults = %d\nSPECIFICATION GenSpec\nINVARIANT Emit\n"
    one = [e for e in ctx.generate("ToolRunGen", gen % 1, name="environments with one fault at most", workers=8) if f.possible(e)]
    two = [e for e in ctx.generate("ToolRunGen", gen % 2, name="environments with two faults at most", workers=8) if f.possible(e)]
    good = [e for e in one if e["so"] == "ok" and e["cmd"] == "ok" and not
            {"missing", "dir", "noperm", "malformed", "noname", "closed", "nodir", "full", "broken", "part"} & set(e.values())]
    single = [e for e in one if e not in good]
    if not ctx.thorough:
        single, two = rng.sample(single, min(900, len(single))), rng.sample(two, 600)
        special = [e for e in one if e["cmd"] != "ok"]
        single += special
    cases = [case(e) for e in good * ctx.pick(1, 4) + single + two]
    bad = [e for e in one if e["cmd"] == "bad"]
    cut = [e for e in one if {"broken", "part"} & set(e.values())]
    cases += [case(e) for e in rng.sample(cut, min(len(cut), ctx.pick(300, 4000)))]
    cases += [dict(case(rng.choice(bad)), bad=i) for i in range(len(BADCMD)) for _ in range(ctx.pick(3, 12))]
    ctx.validate_cases("ToolRunTrace", cases, f.run_all, name="runs in prepared environments", describe=lambda c: c)
    # the same with checked memory accesses: reading past the end ends a run now and then
    g = Faults(ctx, "+ADDR")
    plain = [e for e in single if g.possible(e)]
    cases = [case(e) for e in rng.sample(good, min(len(good), ctx.pick(120, 2000))) + rng.sample(plain, min(len(plain), ctx.pick(150, 1000)))]
    ctx.validate_cases("ToolRunTrace", cases, g.run_all, name="runs with checked memory accesses", describe=lambda c: c)
