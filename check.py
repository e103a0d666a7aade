#!/usr/bin/env python3
"""Runs the checks: check.py <property> quick|thorough, check.py replay <file>, check.py setup.

Every run builds the harness against /repo's current working tree in a scratch directory that it removes again, runs
generated cases in several worker processes, and replays and shrinks what fails. Exit status: 0 if the property held on
everything explored, 1 with a line VIOLATION if it did not, 2 if the run gave no answer."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, hashlib, queue, atexit

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = os.cpu_count() or 4
HANG_S = 120  # a case takes milliseconds
sys.path.insert(0, os.path.join(VERIF, "lib"))

import buildcfg  # noqa: E402
import config  # noqa: E402
from build import Build, BuildError  # noqa: E402
from shrink import shrink  # noqa: E402


def log(*a):
    print(*a, flush=True)


class Engine:
    """One engine of a property: generated cases run by worker processes of one binary."""

    def __init__(self, run, spec):
        self.run, self.spec = run, spec
        self.prop = spec["engine"]
        # arm64-<kB> is arm64 with pages of that size, and with cases of its own
        variant, page = (spec.get("variant", "default").split("-") + ["4"])[:2] if spec.get("variant", "").startswith("arm64") else (spec.get("variant", "default"), "4")
        self.seed_offset = 0 if page == "4" else 1000 * int(page)
        self.binary = run.build.worker(variant, run.zoo_seed)
        self.prefix = [run.build.emulator()] if variant == "arm64" else []
        self.env = run.build.env(spec.get("env"))
        if variant == "arm64":
            self.env["A64_PAGE"] = str(int(page) * 1024)
        if spec.get("variant", "").startswith("{"):
            self.env.update(json.loads(spec["variant"]).get("run", {}))
        self.results, self.failures, self.unreproduced = [], [], []
        self.lock = threading.Lock()
        self.dir = tempfile.mkdtemp(dir=run.build.dir)

    def cmd(self, *args):
        return self.prefix + [self.binary, "-prop", self.prop, "-seed", str(self.run.seed + self.seed_offset)] + [str(a) for a in args]

    def exec(self, cmd, timeout, out=None, journal=None):
        errf = tempfile.TemporaryFile(dir=self.dir)
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=out or subprocess.DEVNULL, stderr=errf, env=self.env, cwd=self.dir,
                             start_new_session=True)
        end, last = time.time() + timeout, time.time()
        while True:
            try:
                rc = p.wait(min(timeout, 1) if journal else timeout)
                break
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if journal and os.path.exists(journal):
                last = max(last, os.path.getmtime(journal))
            if not journal or time.time() > end or time.time() > last + HANG_S:
                break
            if self.failures:
                rc = "stopped"
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        errf.seek(0, 2)
        n = errf.tell()
        errf.seek(0)
        head = errf.read(20000)
        if n > 40000:
            errf.seek(n - 20000)
        return rc, (head + errf.read(20000)).decode("utf8", "replace")

    def plan_at(self, i):
        return subprocess.run(self.cmd("-dump", "-start", i, "-count", 1), env=self.env, cwd=self.dir, capture_output=True, text=True, errors="replace",
                              timeout=120).stdout.strip()

    def worker(self, w):
        """Runs the cases w, w+n, w+2n, ...; restarts behind a case that kills the process."""
        n, count = self.spec["workers"], self.spec["count"]
        done = 0
        rounds = 0
        while done < count and rounds < 12 and not self.failures and not self.run.stop:
            rounds += 1
            left = self.run.deadline - time.time()
            if left < 5:
                return
            out, journal = f"{self.dir}/out{w}.{rounds}", f"{self.dir}/journal{w}"
            for f in (out, journal):
                if os.path.exists(f):
                    os.remove(f)
            start = w + done * n
            args = ["-start", start, "-step", n, "-count", count - done, "-out", out, "-journal", journal, "-seconds", f"{left:.0f}"]
            # the worker stops by itself after so many seconds: if it does not, a case hangs
            rc, err = self.exec(self.cmd(*args), left + 90, journal=journal)
            if rc == "stopped":
                return
            res = None
            if os.path.exists(out):
                res = json.load(open(out))
                with self.lock:
                    self.results.append(res)
            if rc == 0 and res:
                return
            fail = {"rc": rc, "stderr": err}
            if res and res.get("fail"):
                fail.update(index=res["fail_index"], plan=res["plan"], msg=f"[{res['fail']['Cat']}] {res['fail']['Msg']}")
            else:
                try:
                    fail["index"] = int(open(journal).read().strip())
                    fail["plan"] = self.plan_at(fail["index"])
                except (OSError, ValueError):
                    fail["index"], fail["plan"] = start, "{}"  # it dies before its first case
                fail["msg"] = self.death(rc, err)
            fail["start"], fail["step"] = start, n
            self.confirm(fail)
            done = (fail["index"] - w) // n + 1

    @staticmethod
    def death(rc, err):
        if rc == "timeout":
            return "[hang] the case does not end"
        m = re.search(r"^(fatal error|panic|unexpected fault address|runtime|SIG\w+|WARNING: DATA RACE)\b.*", err, re.M)
        return f"[crash] process died with status {rc}: {m.group(0) if m else err[:200]}"

    def replay(self, plan, reps=1, timeout=60):
        """Runs a plan in a fresh process; the message if it fails."""
        f = tempfile.NamedTemporaryFile("w", dir=self.dir, suffix=".plan", delete=False)
        f.write(plan)
        f.close()
        out = f.name + ".out"
        rc, err = self.exec(self.cmd("-replay", f.name, "-reps", reps, "-out", out), timeout)
        try:
            if rc == 0:
                return None
            if rc == 3 and os.path.exists(out):
                r = json.load(open(out))
                return f"[{r['fail']['Cat']}] {r['fail']['Msg']}"
            return self.death(rc, err)
        finally:
            for x in (f.name, out):
                if os.path.exists(x):
                    os.remove(x)

    def range_fails(self, fail, timeout):
        out = tempfile.mktemp(dir=self.dir)
        count = (fail["index"] - fail["start"]) // fail["step"] + 1
        rc, err = self.exec(self.cmd("-start", fail["start"], "-step", fail["step"], "-count", count, "-out", out), timeout)
        if rc == 0:
            return None
        if rc == 3 and os.path.exists(out):
            r = json.load(open(out))
            return f"[{r['fail']['Cat']}] {r['fail']['Msg']}"
        return self.death(rc, err)

    def confirm(self, fail):
        with self.run.confirm_lock:
            if self.failures:
                return
            log(f"  {self.prop}: case {fail['index']} failed: {fail['msg'][:600]}")
            hang = fail["msg"].startswith("[hang]")
            reps = [1, 1, 20] if not hang else [1]
            for k in reps + ([100, 400] if self.spec.get("concurrent") and not hang else []):
                msg = self.replay(fail["plan"], k, 60 if hang or k == 1 else 150)
                if msg and hang:  # a hang must be seen twice more
                    msg = self.replay(fail["plan"], 1, 60)
                if msg:
                    fail["plan_reps"], fail["msg"] = k, msg
                    self.failures.append(fail)
                    self.shrink(fail)
                    return
            log(f"  {self.prop}: not reproduced by the case alone; running the cases before it again")
            for _ in range(2):
                msg = self.range_fails(fail, 200)
                if msg:
                    fail["range"], fail["msg"] = True, msg
                    self.failures.append(fail)
                    return
            log(f"  {self.prop}: not reproduced")
            self.unreproduced.append(fail)

    def shrink(self, fail):
        reps = fail["plan_reps"]
        hang = fail["msg"].startswith("[hang]")
        if hang or reps > 20:
            return
        cat = fail["msg"].split("]")[0]

        def bad(plan):
            msg = self.replay(json.dumps(plan, separators=(",", ":")), max(reps, 2), 60)
            return msg if msg and msg.split("]")[0] == cat else None

        t = min(60, max(10, self.run.deadline + 100 - time.time()))
        plan, msg = shrink(json.loads(fail["plan"]), bad, t, NCPU)
        if msg:
            fail["original_plan"] = fail["plan"]
            fail["plan"], fail["msg"] = json.dumps(plan, separators=(",", ":")), msg

    def go(self):
        ts = []
        errs = []

        def body(w):
            try:
                self.worker(w)
            except Exception as e:  # noqa: BLE001
                errs.append(e)

        for w in range(self.spec["workers"]):
            t = threading.Thread(target=body, args=(w,))
            t.start()
            ts.append(t)
        for t in ts:
            t.join()
        # a failure that shows again and again, although never when it is wanted
        if not self.failures and len(self.unreproduced) >= 3:
            f = self.unreproduced[0]
            f["msg"] += f" (seen in {len(self.unreproduced)} cases of this run, not reproduced one by one)"
            f["range"] = True
            self.failures.append(f)
        if errs and not self.failures:
            raise errs[0]


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = config.PROPERTIES[prop]
        self.t0 = time.time()
        self.build = Build(VERIF, REPO)
        atexit.register(self.build.close)
        self.confirm_lock = threading.Lock()
        self.stop = False
        self.zoo_seed = seed
        self.coverage = {"evaluations": 0, "distinct_nontrivial": 0, "rule": self.cfg["rule"], "samples": [], "engines": {}, "classes": {}}
        self.hashes = set()
        self.violations = []

    def merge(self, name, results, unreproduced=()):
        ev = self.coverage["engines"].setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0})
        hs = set()
        for r in results:
            ev["evaluations"] += r["evaluations"]
            hs.update(name + h for h in r["hashes"] or [])
            for k, v in (r["stats"] or {}).items():
                self.coverage["classes"][f"{name}:{k}"] = self.coverage["classes"].get(f"{name}:{k}", 0) + v
            for s in (r["samples"] or [])[:1]:
                if len([x for x in self.coverage["samples"] if x["engine"] == name]) < 3:
                    try:
                        s = json.loads(s)
                    except ValueError:
                        pass
                    self.coverage["samples"].append({"engine": name, "case": s})
        ev["distinct_nontrivial"] += len(hs - self.hashes)
        if unreproduced:
            ev["unreproduced"] = [f["msg"][:300] for f in unreproduced]
        self.hashes |= hs
        self.coverage["evaluations"] += sum(r["evaluations"] for r in results)
        self.coverage["distinct_nontrivial"] = len(self.hashes)

    def violation(self, engine, data):
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        data = dict(data, property=self.prop, tier=self.tier, seed=self.seed, zoo_seed=self.zoo_seed, engine=engine)
        h = hashlib.sha256(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = f"{VERIF}/replays/{self.prop}-{h}.json"
        json.dump(data, open(path, "w"), indent=1, default=str)
        self.violations.append(path)
        log(f"  {data.get('msg', '')[:3000]}")
        log(f"VIOLATION property={self.prop} replay={path}")

    def go(self):
        thorough = self.tier == "thorough"
        rounds = self.cfg.get("rounds", 4) if thorough else 1
        budget = self.cfg.get("thorough_s", 2400) if thorough else self.cfg.get("quick_s", 420)
        for rnd in range(rounds):
            self.zoo_seed = self.seed + 1000003 * rnd
            base = self.seed
            specs = [s for e in self.cfg["engines"] for s in self.expand(e, self.tier)]
            for spec in specs:
                spec.setdefault("workers", NCPU)
                per = spec["thorough"] if thorough else spec["quick"]
                spec["count"] = -(-per // spec["workers"])
                # the time left is shared among what is left to do
                left = self.t0 + budget - time.time()
                self.deadline = time.time() + max(20, left * spec.get("share", 1))
                if spec.get("python"):
                    import engines
                    res, fail = getattr(engines, spec["python"])(self, spec)
                    self.merge(spec["engine"], [res])
                    if fail:
                        self.violation(spec["engine"], fail)
                        return
                    continue
                self.seed = base + 7919 * rnd
                e = Engine(self, spec)
                if e.binary is None:
                    log(f"  {spec['engine']}: the toolchain refuses {spec['variant']}")
                    self.coverage.setdefault("refused_configurations", []).append(spec["variant"])
                    self.seed = base
                    continue
                t = time.time()
                e.go()
                self.merge(spec["engine"] + ("" if spec.get("variant", "default") == "default" else "/" + spec["variant"]), e.results, e.unreproduced)
                log(f"  {spec['engine']} ({spec.get('variant', 'default')}): {sum(r['evaluations'] for r in e.results)} cases in {time.time() - t:.1f} s")
                if e.failures:
                    f = e.failures[0]
                    f["variant"] = spec.get("variant", "default")
                    f["run_seed"] = self.seed
                    self.seed = base
                    self.violation(spec["engine"], f)
                    return
                self.seed = base
        self.findings()

    def expand(self, spec, tier):
        """One spec for each build configuration."""
        if "configs" not in spec:
            return [dict(spec)]
        n = spec["configs"][tier == "thorough"]
        out = []
        for c in buildcfg.configs(self.zoo_seed, n):
            s = dict(spec, variant=buildcfg.name(c))
            if c.get("race"):
                s["env"] = dict(s.get("env", {}), GORACE="halt_on_error=1 exitcode=66")
            if c.get("cover"):
                s["env"] = dict(s.get("env", {}), GOCOVERDIR="/dev/null")
            out.append(s)
        return out

    def findings(self):
        import findings
        for f in findings.listed(VERIF):
            if self.prop not in f["properties"]:
                continue
            state, what = findings.probe(self.build, f, self.zoo_seed)
            self.coverage.setdefault("known_findings", {})[f["id"]] = f"{state}: {what}"
            if state == "fails":
                log(f"KNOWN-FINDING: property={self.prop} {f['id']} {f['what']}")

    def evidence(self):
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": self.coverage,
             "assumptions": self.cfg.get("assumptions", []) + config.ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        json.dump(e, open(f"{VERIF}/evidence/{self.prop}.json", "w"), indent=1)


def replay(path):
    d = json.load(open(path))
    r = Run(d["property"], d["tier"], d.get("run_seed", d["seed"]))
    r.zoo_seed = d["zoo_seed"]
    r.deadline = time.time() + 600
    spec = next((s for s in r.cfg["engines"] if s["engine"] == d["engine"] and ("configs" in s or s.get("variant", "default") == d.get("variant", "default"))), None)
    if "configs" in spec:
        spec = dict(spec, variant=d["variant"])
    if spec.get("python"):
        import engines
        _, fail = getattr(engines, spec["python"])(r, spec, only=d)
        log(fail and fail.get("msg") or "no failure")
        return 1 if fail else 0
    e = Engine(r, dict(spec, workers=1, count=1))
    msg = e.range_fails(d, 600) if d.get("range") else e.replay(d["plan"], max(d["plan_reps"], 2), 300)
    log(msg or "no failure")
    if msg:
        log(f"VIOLATION property={d['property']} replay={path}")
    return 1 if msg else 0


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "setup":
        b = Build(VERIF, REPO)
        try:
            b.worker("default", 1)
        finally:
            b.close()
        return 0
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    r = Run(prop, tier, seed)
    log(f"{prop} {tier} seed {seed}")
    try:
        r.go()
    except BuildError as e:
        log(f"ERROR: the harness does not build against {REPO}:\n{e}")
        return 2
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        log(f"ERROR: {e}")
        return 2
    finally:
        r.evidence()
        r.build.close()
    c = r.coverage
    log(f"{prop}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct and non-trivial, {len(r.violations)} violations, {time.time() - r.t0:.0f} s")
    return 1 if r.violations else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
