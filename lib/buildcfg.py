"""Build configurations (C19): combinations of toolchain, compiler and linker settings under which mockey is meant to work. Each is a
dict; its canonical JSON names the variant of the worker."""
import json, random

TOOLCHAINS = {"1.23": "/opt/veriftools/go1.23.12", "1.24": "/opt/veriftools/go1.24.13"}

GC = ["-d=checkptr=2", "-spectre=index", "-spectre=ret", "-spectre=all", "-dwarf=false", "-smallframes", "-B", "-d=ssa/check/on", "-c=1", "-d=loopvar=2", "-l=1", "-d=inlfuncswithclosures=0",
      "-wb=1", "-d=append=0", "-d=nil=0"]
LD = ["-s -w", "-linkmode=external", "-linkmode=internal", "-linkmode=external -extldflags=-static", "-X main.x=y", "-compressdwarf=false", "-B 0x1234", "-buildid=", "-T 0x10400000"]
EXP = ["heapminimum512kib", "nocoverageredesign", "fieldtrack", "boringcrypto"]
RUN = [{"GOMAXPROCS": "1"}, {"GOMAXPROCS": "2"}, {"GOMAXPROCS": "3"}, {"GOGC": "10"}, {"GOGC": "400"}, {"GOTRACEBACK": "single"}]

FIXED = [{"go": "1.24"}, {"mode": "pie", "ld": ["-s -w"], "trim": True}, {"stw": True, "race": True}]


def valid(c):
    ld = " ".join(c.get("ld", []))
    if c.get("mode") == "pie" and ("static" in ld or c.get("race") or "-T " in ld or "internal" in ld):
        return False
    if c.get("race") and ("static" in ld or "internal" in ld or "-T " in ld or "checkptr" in " ".join(c.get("gc", []))):
        return False
    if c.get("san") and ("static" in ld or "internal" in ld or "-T " in ld or c.get("race") or c.get("mode") or "checkptr" in " ".join(c.get("gc", []))):
        return False
    if "external" in ld and "-T " in ld:
        return False
    return True


def draw(rng):
    while True:
        c = {}
        if rng.random() < 0.35:
            c["go"] = "1.24"
        if rng.random() < 0.3:
            c["mode"] = "pie"
        for k, p in (("stw", 0.25), ("race", 0.2), ("cover", 0.2), ("trim", 0.2)):
            if rng.random() < p:
                c[k] = True
        if rng.random() < 0.12:
            c["san"] = rng.choice(["asan", "msan"])
        gc = rng.sample(GC, rng.choice([0, 0, 1, 1, 2]))
        if gc:
            c["gc"] = gc
        ld = rng.sample(LD, rng.choice([0, 0, 1, 1, 2]))
        if sum("linkmode" in x for x in ld) > 1:
            ld = ld[:1]
        if ld:
            c["ld"] = ld
        if rng.random() < 0.25:
            c["amd64"] = rng.choice(["v2", "v3"])
        if rng.random() < 0.25:
            c["exp"] = rng.choice(EXP)
        if rng.random() < 0.4:
            c["run"] = rng.choice(RUN)
        if c and valid(c):
            return c


def configs(seed, n):
    rng = random.Random(seed * 31 + 7)
    out = [dict(c) for c in FIXED[:n]]
    while len(out) < n:
        c = draw(rng)
        if c not in out:
            out.append(c)
    return out


def name(c):
    return json.dumps(c, sort_keys=True, separators=(",", ":"))


def command(c):
    """(go binary, environment, arguments of go build)"""
    env = {}
    if c.get("amd64"):
        env["GOAMD64"] = c["amd64"]
    if c.get("exp"):
        env["GOEXPERIMENT"] = c["exp"]
    gc = " ".join(["-l", "-N"] + [g for g in c.get("gc", [])])
    # the last -l counts
    if "-l=1" in gc:
        gc = gc.replace("-l=1", "") + " -l=1"
    args = ["-gcflags=all=" + " ".join(gc.split())]
    ld = list(c.get("ld", []))
    if c.get("stw"):
        ld.append("-checklinkname=0")
        args.append("-tags=mockey_stw")
    if ld:
        args.append("-ldflags=" + " ".join(ld))
    if c.get("mode"):
        args.append("-buildmode=" + c["mode"])
    if c.get("race"):
        args.append("-race")
    if c.get("san"):
        args.append("-" + c["san"])
        env["CC"] = "gcc" if c["san"] == "asan" else "clang"
    if c.get("cover"):
        args += ["-cover", "-covermode=atomic", "-coverpkg=verifharness/zoo,verifharness/rt"]
    if c.get("trim"):
        args.append("-trimpath")
    return TOOLCHAINS[c.get("go", "1.23")] + "/bin/go", env, args
