"""Builds the workers against /repo's working tree in a scratch directory."""
import hashlib, json, os, re, shutil, subprocess, tempfile, threading

import buildcfg

GO = "/opt/veriftools/go1.23.12/bin"


class BuildError(Exception):
    pass


class Build:
    def __init__(self, verif, repo):
        self.verif, self.repo = verif, repo
        self.dir = tempfile.mkdtemp(prefix="mockey-verif-")
        self.done = {}
        self.lock = threading.Lock()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def env(self, extra=None):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("MOCKEY", "GO", "VERIF"))}
        e.update(PATH=GO + ":/usr/local/bin:/usr/bin:/bin", HOME=os.environ.get("HOME", "/root"), GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off",
                 GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
                 CGO_ENABLED="1", GOCONVEY_REPORTER="silent", GODEBUG="gcshrinkstackoff=1,clobberfree=1", GOTRACEBACK="system")
        e.update(extra or {})
        return e

    def run(self, cmd, cwd, timeout=800, env=None):
        p = subprocess.run(cmd, cwd=cwd, env=self.env(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        if p.returncode != 0:
            raise BuildError(f"{' '.join(cmd)}:\n{p.stdout[-6000:]}")
        return p.stdout

    def runtime_overlay(self, go=GO + "/go"):
        """A copy of the runtime that preempts goroutines by signals only, not by failing the stack check of the function
        called next: functions whose entry is displaced cannot stand the latter (known finding K4). The sweeper and the scavenger keep
        it: signals do not preempt loops inside of the runtime. Nor does it preempt in the first bytes of a function, where the
        stack may be misread between the two instructions of a branch (known finding K9); nor in internal/abi, whose functions
        package reflect calls, when they are not inlined, with a frame that holds stale pointers (no matter of mockey)."""
        d = self.dir + "/runtime-" + hashlib.sha256(go.encode()).hexdigest()[:6]
        f = d + "/overlay.json"
        if os.path.exists(f):
            return f
        root = self.run([go, "env", "GOROOT"], self.dir, env={"PATH": os.path.dirname(go) + ":/usr/bin:/bin"}).strip() + "/src/runtime"
        os.mkdir(d)
        rep, n = {}, 0
        for name in sorted(os.listdir(root)):
            if not name.endswith(".go") or name.endswith("_test.go"):
                continue
            s = open(f"{root}/{name}").read()
            t, k = re.subn(r"(\w+)\.stackguard0 = stackPreempt", r"if \1 == sweep.g || \1 == scavenger.g { \1.stackguard0 = stackPreempt }", s)
            if name == "preempt.go":
                t, j = re.subn(r"(\t// Check if PC is an unsafe-point\.\n.*?\n\t}\n)", r"\1\tif n := pc - f.entry(); n > 0 && n < 16+16*goarch.IsArm64 && !VerifPreemptEntries {\n\t\treturn false, 0\n\t}\n", t, flags=re.S)
                if j != 1:
                    raise BuildError("the runtime is not the expected one")
                t, j = re.subn(r'(\t\t(\w+\.)?HasPrefix\(name, "reflect\."\))', r'\t\t\2HasPrefix(name, "internal/abi.") ||\n\1', t)
                if j != 1:
                    raise BuildError("the runtime is not the expected one")
                k += 1
            if k:
                n += k
                open(f"{d}/{name}", "w").write(t)
                rep[f"{root}/{name}"] = f"{d}/{name}"
        name = root + "/proc.go"
        with open(rep[name], "a") as g:
            g.write("\n// VerifSetGoid makes the ids of the next goroutines start from n.\nfunc VerifSetGoid(n uint64) {\n\tstw := stopTheWorld(stwGOMAXPROCS)\n"
                    "\tsched.goidgen.Store(n)\n\tfor _, p := range allp {\n\t\tp.goidcache, p.goidcacheend = 0, 0\n\t}\n\tstartTheWorld(stw)\n}\n"
                    "\n// VerifPreemptEntries undoes what keeps K9 out.\nvar VerifPreemptEntries bool\n"
                    "\n// VerifGoid is the id of the goroutine; package rt uses it, for speed, where ids are not what is checked.\nfunc VerifGoid() int64 {\n\treturn int64(getg().goid)\n}\n")
        if n < 5:
            raise BuildError("the runtime is not the expected one")
        json.dump({"Replace": rep}, open(f, "w"))
        return f

    def source(self, zoo_seed):
        """A copy of the harness with the zoo of this seed."""
        d = f"{self.dir}/src{zoo_seed}"
        if not os.path.exists(d):
            shutil.copytree(self.verif + "/harness", d)
            if self.repo != "/repo":
                s = open(d + "/go.mod").read().replace("=> /repo", "=> " + self.repo)
                open(d + "/go.mod", "w").write(s)
            gen = f"{self.dir}/gen"
            if not os.path.exists(gen):
                self.run([GO + "/go", "build", "-o", gen, "./cmd/gen"], d)
            os.makedirs(d + "/zoo", exist_ok=True)
            self.run([gen, "-seed", str(zoo_seed), "-o", "zoo/zoo.go"], d)
        return d

    def stdzoo(self, d):
        """The table of functions of the standard library, without those of packages that mockey itself uses."""
        if os.path.exists(d + "/stdzoo/stdzoo.go"):
            return
        os.makedirs(d + "/stdzoo", exist_ok=True)
        imports = self.run([GO + "/go", "list", "-f", '{{join .Imports "\\n"}}', "./..."], self.repo).split()
        self.run([GO + "/go", "run", "./cmd/genstd", "-except", ",".join(sorted(set(imports))), "-o", "stdzoo/stdzoo.go"], d)

    VARIANTS = {
        "default": [],
        "race": ["-race"],
        "stw": ["-tags", "mockey_stw", "-ldflags=-checklinkname=0"],
        "std": ["-tags", "stdzoo"],
        "arm64": [],
    }

    def emulator(self):
        """The interpreter that runs the workers of variant arm64."""
        with self.lock:
            out = self.dir + "/a64"
            if not os.path.exists(out):
                self.run(["gcc", "-O2", "-fno-strict-aliasing", "-w", "-o", out, self.verif + "/emu/a64.c", "-lm", "-lpthread"], self.dir)
            return out

    def worker(self, variant, zoo_seed, pkg="./worker"):
        """A program built as the variant says: one of VARIANTS, or the name of a configuration (buildcfg). None if the
        toolchain refuses the configuration."""
        with self.lock:
            key = (variant, zoo_seed, pkg)
            if key not in self.done:
                d = self.source(zoo_seed)
                if variant == "std":
                    self.stdzoo(d)
                cfg = json.loads(variant) if variant.startswith("{") else None
                label = variant if cfg is None else hashlib.sha256(variant.encode()).hexdigest()[:8]
                out = f"{self.dir}/{os.path.basename(pkg)}-{label}-{zoo_seed}"
                if cfg is None:
                    go, env, args = GO + "/go", {}, ["-gcflags=all=-l -N"] + self.VARIANTS[variant]
                    if variant == "arm64":
                        env = {"GOARCH": "arm64", "CGO_ENABLED": "0"}
                else:
                    go, env, args = buildcfg.command(cfg)
                    env["PATH"] = os.path.dirname(go) + ":/usr/local/bin:/usr/bin:/bin"
                cmd = [go, "build", "-overlay", self.runtime_overlay(go)] + args
                try:
                    self.run(cmd + ["-o", out, pkg], d, env=env)
                except BuildError:
                    if cfg is None:
                        raise
                    try:
                        self.run(cmd + ["-o", out, "./cmd/plain"], d, env=env)
                    except BuildError:
                        out = None
                    if out:
                        raise
                self.done[key] = out
            return self.done[key]
