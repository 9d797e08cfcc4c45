#!/usr/bin/env python3
"""Plants bugs: makes /verif/seeded/<id>/ from an entry and confirms it in a scratch copy.

  plant.py make FILE [ID...]   entries of FILE (a Python file with a list BUGS) -> seeded/<id>/
  plant.py confirm ID...       builds, tests and demonstrates it in a scratch copy of /repo
  plant.py check ID...         runs the property's check on the patched scratch copy
"""
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
SCRATCH = os.environ.get("PLANT_DIR", "/tmp/plant")
COPY = SCRATCH + "/repo"

DEMO = """#!/bin/bash
# cwd: the repository, built.  0: behaves as it should
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
cp "$D"/*.scm "$W"/ 2>/dev/null
P="$PWD/_build/pscm_cc"
cd "$W"
timeout 60 "$P" demo.scm > out.txt 2> err.txt < /dev/null
rc=$?
if [ $rc -ne %(rc)d ]; then echo "exit status $rc"; exit 1; fi
grep -v '^\\[symtbl\\]' out.txt > got.txt
if ! diff -u "$D/expected.txt" got.txt; then exit 1; fi
exit 0
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                          errors="replace")


def copy():
    os.makedirs(SCRATCH, exist_ok=True)
    if not os.path.exists(COPY):
        sh(f"git clone -q /repo {COPY}")
        for n in ("build.sh", "test.sh"):
            s = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", f"{SCRATCH}/build.sh").replace("/repo", COPY)
            open(f"{SCRATCH}/{n}", "w").write(s)
        shutil.copy("/opt/vp/results.py", SCRATCH)
    sh("git fetch -q origin; git checkout -q -f origin/HEAD 2>/dev/null || git checkout -q -f FETCH_HEAD; git clean -fdq -e _build", cwd=COPY)


def reset():
    sh("git checkout -q -- .", cwd=COPY)


def make(path, ids):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        copy()
        reset()
        for f, old, new in b["edits"]:
            p = os.path.join(COPY, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=COPY).stdout)
        print("  lines changed:", touched(b["edits"]))
        reset()
        if "demo_sh" in b:
            open(os.path.join(d, "demo.sh"), "w").write(b["demo_sh"])
        else:
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(rc=b.get("rc", 0)))
            open(os.path.join(d, "demo.scm"), "w").write(b["demo"])
            open(os.path.join(d, "expected.txt"), "w").write(b["expect"])
        for n, t in b.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", b["id"])


def touched(edits):
    """How many removed lines (or neighbours of pure insertions) are of the original repository."""
    import difflib
    orig = own = 0
    for f in {e[0] for e in edits}:
        blame = sh(f"git blame -s HEAD -- {f}", cwd=COPY).stdout.split("\n")
        old = sh(f"git show HEAD:{f}", cwd=COPY).stdout.split("\n")
        new = open(os.path.join(COPY, f)).read().split("\n")
        for t, i1, i2, j1, j2 in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
            if t != "equal":
                for k in range(i1, i2):
                    if blame[k].startswith("^") or blame[k].startswith("38fe113"):
                        orig += 1
                    else:
                        own += 1
    return f"{orig} original, {own} of later commits"


def confirm(i):
    copy()
    reset()
    d = os.path.join(SEEDED, i)
    say = []
    r = sh(f"bash {SCRATCH}/build.sh")
    if r.returncode:
        return "unpatched build fails " + r.stdout[-500:]
    r = sh(f"bash {d}/demo.sh", cwd=COPY)
    if r.returncode:
        return "demo fails without the patch: " + r.stdout[-1500:]
    r = sh(f"git apply {d}/patch.diff", cwd=COPY)
    if r.returncode:
        return "does not apply " + r.stdout
    r = sh(f"bash {SCRATCH}/test.sh {SCRATCH}/out.json")
    try:
        base = json.load(open("/opt/vp/BASELINE.json"))
        out = json.load(open(f"{SCRATCH}/out.json"))
        missing = sorted(set(base.get("stable") or base.get("passed")) - set(out["passed"]))
    except Exception as x:
        return f"tests: {x}"
    if missing:
        say.append(f"tests fail: {missing[:6]}" + (r.stdout[-800:] if len(missing) > 100 else ""))
    r = sh(f"bash {d}/demo.sh", cwd=COPY)
    if r.returncode == 0:
        say.append("demo passes with the patch")
    reset()
    return "; ".join(say) or "counts"


def check(i, tier="quick"):
    copy()
    reset()
    d = os.path.join(SEEDED, i)
    prop = json.load(open(f"{d}/meta.json"))["property"]
    r = sh(f"git apply {d}/patch.diff", cwd=COPY)
    if r.returncode:
        return "does not apply"
    t0 = time.time()
    r = sh(f"python3 {VERIF}/verify.py {prop}", cwd=VERIF, env={"PSCM_REPO": COPY, "VERIF_TIER": tier, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
    reset()
    v = [l for l in r.stdout.split("\n") if l.startswith(f"{prop}:")][:2]
    caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
    return f"{prop} {'CAUGHT' if caught else 'MISSED rc=%d' % r.returncode} ({time.time() - t0:.0f} s) " + (" | ".join(v)[:400] if caught else r.stdout[-600:])


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        for i in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            print(i, ":", (confirm if cmd == "confirm" else check)(i), flush=True)
