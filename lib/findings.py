"""The known findings (known_findings.txt) and their probes."""
import os, re, subprocess, tempfile


def listed(verif):
    out = []
    for line in open(verif + "/known_findings.txt"):
        m = re.match(r"finding: property=(\S+) id=(\S+) (?:variant=(\S+) )?(.*)", line)
        if m:
            out.append({"properties": m[1].split(","), "id": m[2], "variant": m[3] or "default", "what": m[4].strip()})
    return out


def probe(build, f, zoo_seed):
    """Runs the fixed input of a finding in a process of its own: does it still fail?"""
    env = build.env({"GORACE": "halt_on_error=1 exitcode=66"})
    try:
        p = subprocess.run([build.worker(f["variant"], zoo_seed), "-probe", f["id"]], env=env, cwd=build.dir, stdin=subprocess.DEVNULL, capture_output=True, text=True,
                           errors="replace", timeout=60)
    except subprocess.TimeoutExpired:
        return "fails", "does not end"
    if p.returncode == 0 and "HOLDS" in p.stdout:
        return "holds", ""
    return "fails", (p.stdout.strip() or p.stderr.strip())[:300]
