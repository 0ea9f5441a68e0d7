#!/usr/bin/env python3
"""plant.py make SPEC.py...   write seeded/<id>/ from a description of bugs
plant.py try ID...            in a private copy of /repo: does the demonstration tell the
                              bug from the clean tree, do build and tests pass, does the check catch it?
plant.py quiet DIFF ID...     apply DIFF (a refactoring) in a private copy and run the checks ID...
A private copy is bound over /repo in a mount namespace of its own."""
import sys, os, json, subprocess, shutil, tempfile, runpy, concurrent.futures as cf
V = "/verif"; BASE = "2407003"
def sh(cmd, **k): return subprocess.run(cmd, shell=isinstance(cmd, str), text=True, capture_output=True, **k)

DEMO = '''#!/bin/bash
# Runs demo_test.go as a test of ./%(pkg)s: passes on the unchanged tree, fails with the patch.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
O=$(mktemp)
trap 'rm -f "$O"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$O"
timeout 250 go test -overlay "$O" -count=1 -vet=off -timeout 120s -run '^TestDemo$' ./%(pkg)s
'''

def copy_repo(d):
    os.makedirs(d, exist_ok=True)
    sh(["cp", "-a", "/repo", d + "/repo"], check=True)
    return d + "/repo"

def inside(r, cmd, env=None, timeout=1000):
    """run cmd with r bound over /repo and a private evidence directory"""
    ev = os.path.dirname(r) + "/evidence"; os.makedirs(ev, exist_ok=True)
    s = f"mount --bind {r} /repo && mount --bind {ev} /verif/evidence && cd /repo && {cmd}"
    return sh(["unshare", "-Urm", "bash", "-c", s], env=dict(os.environ, **(env or {})), timeout=timeout)

def make(spec):
    bugs = runpy.run_path(spec)["BUGS"]
    for b in bugs:
        d = f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(dir="/tmp/plant"); r = copy_repo(t)
        try:
            for f, old, new in b["edits"]:
                p = f"{r}/{f}"; s = open(p).read()
                n = s.count(old)
                if n == 0 or (n > 1 and not b.get("all")):
                    print(b["id"], "edit matches", n, "times in", f, repr(old[:60])); break
                s = s.replace(old, new)
                open(p, "w").write(s)
            else:
                sh("gofmt -w " + " ".join(sorted({f"{r}/{f}" for f, _, _ in b["edits"] if b.get("fmt", 0)}))) if b.get("fmt") else None
                diff = sh(["git", "-C", r, "diff"]).stdout
                open(d + "/patch.diff", "w").write(diff)
                # which original lines change?
                mine, orig = 0, 0
                for f in {f for f, _, _ in b["edits"]}:
                    bl = sh(["git", "-C", "/repo", "blame", "-s", "-l", "HEAD", "--", f]).stdout.split("\n")
                    for l in sh(["git", "-C", r, "diff", "-U0", "--", f]).stdout.split("\n"):
                        if l.startswith("@@"):
                            a = l.split()[1][1:]; s0, _, c = a.partition(","); c = int(c) if c else 1
                            for i in range(int(s0), int(s0) + c):
                                h = bl[i-1].split()[0].lstrip("^")
                                full = sh(["git", "-C", "/repo", "rev-parse", BASE]).stdout.strip()
                                if full.startswith(h[:12]): orig += 1
                                else: mine += 1
                if orig == 0 or mine: print(b["id"], "WARNING: original lines changed:", orig, "own lines changed:", mine)
                open(d + "/demo_test.go", "w").write(b["demo"].lstrip())
                open(d + "/demo.sh", "w").write(DEMO % {"pkg": b["pkg"]}); os.chmod(d + "/demo.sh", 0o755)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(t)

def try1(i):
    d = f"{V}/seeded/{i}"; prop = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(dir="/tmp/plant"); r = copy_repo(t); out = []
    try:
        shutil.copytree(d, t + "/demo")
        x = inside(r, f"bash {t}/demo/demo.sh")
        out.append("demo clean " + ("ok" if x.returncode == 0 else "FAILS:\n" + x.stdout[-1500:] + x.stderr[-1500:]))
        x = sh(["git", "-C", r, "apply", d + "/patch.diff"])
        if x.returncode: return f"{i}: patch does not apply: {x.stderr}"
        x = inside(r, "bash /opt/vp/build.sh"); out.append("build " + ("ok" if x.returncode == 0 else "FAILS " + x.stderr[-800:]))
        x = inside(r, f"bash /opt/vp/test.sh {t}/o.json"); out.append("tests " + ("ok" if x.returncode == 0 else "FAIL " + x.stdout[-500:]))
        x = inside(r, f"bash {t}/demo/demo.sh"); out.append("demo bug " + ("fails" if x.returncode else "PASSES"))
        x = inside(r, f"cd {V} && VERIF_TIER=quick ./check.sh {prop}")
        v = [l for l in x.stdout.split("\n") if l.startswith("VIOLATION")]
        out.append(f"{prop} " + ("CAUGHT" if x.returncode == 1 and v else f"MISSED (exit {x.returncode})\n" + x.stdout[-1200:] + x.stderr[-300:]))
    except subprocess.TimeoutExpired as e:
        out.append("TIMEOUT")
    finally:
        shutil.rmtree(t)
    return f"{i}: " + "; ".join(out)

def quiet(diff, ids):
    t = tempfile.mkdtemp(dir="/tmp/plant"); r = copy_repo(t)
    try:
        x = sh(["git", "-C", r, "apply", diff])
        if x.returncode: print(diff, "does not apply", x.stderr); return
        x = inside(r, "bash /opt/vp/build.sh && bash /opt/vp/test.sh " + t + "/o.json")
        if x.returncode: print(diff, "build/tests fail", x.stderr[-500:], x.stdout[-500:]); return
        for i in ids:
            x = inside(r, f"cd {V} && VERIF_TIER=quick ./check.sh {i}")
            bad = [l for l in x.stdout.split("\n") if "complete:" not in l and l]
            print(os.path.basename(diff), i, "quiet" if x.returncode == 0 else f"ALARM {x.returncode}", *bad, sep="\n   " if bad else " ", flush=True)
    finally:
        shutil.rmtree(t)

if __name__ == "__main__":
    c, a = sys.argv[1], sys.argv[2:]
    os.makedirs("/tmp/plant", exist_ok=True)
    if c == "make": [make(s) for s in a]
    elif c == "try":
        with cf.ThreadPoolExecutor(2) as ex:
            for r in ex.map(try1, a or sorted(os.listdir(V + "/seeded"))): print(r, flush=True)
    elif c == "quiet": quiet(a[0], a[1:])
