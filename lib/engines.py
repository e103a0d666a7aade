"""Engines that are not modes of the worker: cases which are builds and runs of small programs."""
import hashlib, json, os, random, shutil, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from build import GO, BuildError

MOCKEY = "github.com/bytedance/mockey"

INLINING = ["", "-l", "-l=0", "-l=1", "-l=2", "-l=3", "-l=4", "-l -l", "-l -l -l", "-l=false", "-l=true"]
OTHER = ["-N", "-B", "-dwarf=false", "-smallframes", "-C", "-spectre=index", "-d=checkptr=2", "-d=nil=0", "-trimpath=/x", "-d=ssa/prove/off", "-nolocalimports",
         "-c=1", "-c=4", "-complete=false", "-d=loopvar=2", "-d=append=0", "-d=inlfuncswithclosures=0", "-d=inlbudgetslack=10"]
BUILD = ["-race", "-cover", f"-cover -covermode=atomic -coverpkg=verifharness/cmd/...,{MOCKEY}/...", "-buildmode=pie", "-trimpath", "-ldflags=-s -w", "-ldflags=-checklinkname=0 -w|-tags=mockey_stw",
         "-buildvcs=false", "-pgo=off", "-ldflags=-linkmode=external", "-ldflags=-linkmode=internal -X=main.x=y", "-tags=other"]
NO_ARM64 = ["-race", "-buildmode=pie", "-ldflags=-linkmode=external"]  # the first and last need a C compiler for arm64
CHECK = [None, "false", "true", "", "0", "FALSE", "False", "no", "off", "false ", " false", "f", "disable"]
DEBUG = [None, None, None, "true", "false"]


class Flags:
    """C18: programs compiled with random flags. The runtime itself tells each whether its calls were inlined."""

    def __init__(self, run):
        self.run = run
        self.src = run.build.source(run.zoo_seed)
        self.lock = threading.Lock()

    @staticmethod
    def config(rng):
        gc = [f for f in [rng.choice(INLINING)] if f] + rng.sample(OTHER, rng.choice([0, 0, 1, 1, 2, 3]))
        if rng.random() < 0.35 and "-N" not in gc:
            gc.append("-N")
        rng.shuffle(gc)
        b = rng.sample(BUILD, rng.choice([0, 0, 1, 1, 2]))
        if sum("-ldflags" in x for x in b) > 1 or sum("-cover" in x for x in b) > 1 or ("-race" in b and "-buildmode=pie" in b) or sum("-tags" in x for x in b) > 1:
            b = b[:1]
        if rng.random() < 0.2:
            return {"gc": gc, "build": [x for x in b if x not in NO_ARM64], "arch": "arm64"}
        return {"gc": gc, "build": b}

    @staticmethod
    def environment(rng):
        return {"check": rng.choice(CHECK), "debug": rng.choice(DEBUG), "stderr": rng.choice(["pipe", "pipe", "pipe", "pipe", "same", "closed", "full"]),
                "empty": rng.random() < 0.2, "gomaxprocs": rng.choice([None, "1", "3"])}

    def environ(self, cfg):
        e = self.run.build.env()
        return dict(e, GOARCH="arm64", CGO_ENABLED="0") if cfg.get("arch") == "arm64" else e

    def compile(self, cfg):
        """The program; None if the compiler refuses the flags."""
        out = tempfile.mktemp(dir=self.run.build.dir, prefix="warn")
        gc = " ".join(cfg["gc"])
        cmd = [GO + "/go", "build"]
        for f in cfg["build"]:
            cmd += [f] if f.startswith("-ldflags") and "|" not in f else f.split("|") if "|" in f else f.split(" ")
        # the flags are for mockey and the program: recompiling the standard library as well would take a minute each
        cmd += [f"-gcflags={MOCKEY}/...={gc}", f"-gcflags=verifharness/...={gc}", "-o", out, "./cmd/warn"]
        p = subprocess.run(cmd, cwd=self.src, env=self.environ(cfg), capture_output=True, text=True, errors="replace", timeout=600)
        if p.returncode != 0:
            if subprocess.run(cmd[:-1] + ["./cmd/plain"], cwd=self.src, env=self.environ(cfg), capture_output=True, timeout=600).returncode != 0:
                return None
            raise BuildError(f"{' '.join(cmd)}\n{p.stderr[-3000:]}")
        return out

    def execute(self, cfg, prog, env):
        start = [self.run.build.emulator(), prog] if cfg.get("arch") == "arm64" else [prog]
        e = {} if env["empty"] else {k: v for k, v in os.environ.items() if not k.startswith("MOCKEY")}
        for k, name in (("check", "MOCKEY_CHECK_GCFLAGS"), ("debug", "MOCKEY_DEBUG"), ("gomaxprocs", "GOMAXPROCS")):
            if env[k] is not None:
                e[name] = env[k]
        d = tempfile.mkdtemp(dir=self.run.build.dir)
        try:
            kind = env["stderr"]
            with open(d + "/err", "w+b") as ef, open("/dev/full", "wb") as full:
                # a closed stderr: sh, because Popen cannot leave it closed
                cmd = ["/bin/sh", "-c", 'exec "$0" "$@" 2>&-'] + start if kind == "closed" else start
                p = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, timeout=60,
                                   stderr={"pipe": ef, "same": subprocess.STDOUT, "closed": subprocess.DEVNULL, "full": full}[kind])
                ef.seek(0)
                return p.returncode, p.stdout.decode("utf8", "replace"), ef.read().decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            return "timeout", "", ""
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def judge(self, cfg, env, got):
        """(what is wrong or None, inlining)"""
        rc, out, err = got
        lines = out.split("\n")
        if env["stderr"] == "same":
            err = out
        own = [l for l in lines if l and (l.startswith(("inlining=", "mocked ", "original ")))]
        if rc != 0:
            return f"[runs-on] the program ends with status {rc}: {err[-600:]}", None
        if len(own) != 3 or own[1:] != ["mocked 80", "original 8"] or own[0] not in ("inlining=true", "inlining=false"):
            return f"[runs-on] the program should print its three lines, but its output is {out[-600:]!r}", None
        inl = own[0] == "inlining=true"
        if env["stderr"] in ("pipe", "same"):
            want = inl and env["check"] != "false"
            has = "gcflags" in err
            if has != want:
                return (f"[warning] compiled with inlining {'on' if inl else 'off'}, MOCKEY_CHECK_GCFLAGS={env['check']!r}: the warning is "
                        + ("missing" if want else f"printed: {err[-300:]!r}")), inl
            if has and env["stderr"] == "same" and err.index("gcflags") > err.index("inlining="):
                return "[warning] the warning comes after the first output of the program", inl
        if env["stderr"] != "same":
            rest = [l for l in lines if l and l not in own]
            debug = [l for l in rest if l.startswith("[MOCKEY]")]
            if len(debug) != len(rest):
                return f"[output] the output has lines of neither the program nor of the diagnostics: {[l for l in rest if l not in debug][:3]}", inl
            if env["debug"] != "true" and debug:
                return f"[output] diagnostics without MOCKEY_DEBUG=true: {debug[:2]}", inl
        return None, inl

    def shrink(self, cfg, env, cat):
        def bad(c, e):
            try:
                prog = self.compile(c)
                return prog and self.judge(c, e, self.execute(c, prog, e))[0]
            except BuildError:
                return None
        msg = None
        for part in ("gc", "build"):
            i = 0
            while i < len(cfg[part]):
                c = dict(cfg, **{part: cfg[part][:i] + cfg[part][i + 1:]})
                m = bad(c, env)
                if m and m.split("]")[0] == cat:
                    cfg, msg = c, m
                else:
                    i += 1
        if "arch" in cfg:
            c = {k: v for k, v in cfg.items() if k != "arch"}
            m = bad(c, env)
            if m and m.split("]")[0] == cat:
                cfg, msg = c, m
        for k, v in (("debug", None), ("check", None), ("empty", False), ("gomaxprocs", None), ("stderr", "pipe")):
            e = dict(env, **{k: v})
            m = bad(cfg, e)
            if e != env and m and m.split("]")[0] == cat:
                env, msg = e, m
        return cfg, env, msg


def flags(run, spec, only=None):
    f = Flags(run)
    res = {"evaluations": 0, "hashes": [], "stats": {}, "samples": []}
    if only:
        p = only["plan"]
        prog = f.compile(p["config"])
        msg = f.judge(p["config"], p["env"], f.execute(p["config"], prog, p["env"]))[0] if prog else None
        return res, msg and dict(only, msg=msg)
    per = 40
    rng = random.Random(run.zoo_seed * 7919 + 5)
    n = spec["count"] * spec["workers"] // per
    fail = []

    def one(i, cfg):
        if fail or time.time() > run.deadline:
            return
        r = random.Random(run.zoo_seed * 1000003 + i)
        prog = f.compile(cfg)
        if prog is None:
            with f.lock:
                res["stats"]["flags the compiler refuses"] = res["stats"].get("flags the compiler refuses", 0) + 1
            return
        try:
            for k in range(per):
                env = f.environment(r)
                got = f.execute(cfg, prog, env)
                msg, inl = f.judge(cfg, env, got)
                with f.lock:
                    res["evaluations"] += 1
                    plan = {"config": cfg, "env": env}
                    for c in [f"inlining {'on' if inl else 'off'}", f"check {env['check']!r}", "debug" if env["debug"] == "true" else "no debug", "stderr " + env["stderr"]] + cfg["gc"] + cfg["build"] + [cfg.get("arch", "amd64")]:
                        res["stats"][c] = res["stats"].get(c, 0) + 1
                    res["hashes"].append(hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12])
                    if len(res["samples"]) < 3:
                        res["samples"].append(json.dumps(plan))
                if msg:
                    # once more: neither a matter of time nor of load
                    again = f.judge(cfg, env, f.execute(cfg, prog, env))[0]
                    if again:
                        fail.append((cfg, env, again))
                    return
        finally:
            os.remove(prog)

    cfgs = [{"gc": ["-N", "-l"], "build": []}, {"gc": [], "build": []}, {"gc": ["-N"], "build": []}, {"gc": ["-l"], "build": []},
            {"gc": ["-N", "-l"], "build": [], "arch": "arm64"}, {"gc": [], "build": [], "arch": "arm64"}] + [Flags.config(rng) for _ in range(max(0, n - 6))]
    with ThreadPoolExecutor(spec["workers"]) as ex:
        errs = [e for e in ex.map(lambda a: _safe(one, *a), enumerate(cfgs)) if e]
    if fail:
        cfg, env, msg = fail[0]
        c, e, m = f.shrink(cfg, env, msg.split("]")[0])
        return res, {"plan": {"config": c, "env": e}, "plan_reps": 1, "msg": m or msg}
    if errs:
        raise errs[0]
    return res, None


def _safe(fn, *a):
    try:
        fn(*a)
    except Exception as e:  # noqa: BLE001
        return e
