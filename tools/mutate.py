#!/usr/bin/env python3
"""Small changes to the sources (operators, constants, conditions, left-out statements), one at a time:
which of those the tests let pass do the checks see?   mutate.py WORKER N SEED [FILE...]

Works on copies below /tmp/mu<WORKER>; appends to /tmp/mu<WORKER>/log.jsonl."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

W = f"/tmp/mu{sys.argv[1]}"
REPO, VER = W + "/repo", W + "/verif"
CHECKS = {"apply": "C03 C20", "alist": "C23", "case": "C02", "char": "C25", "cond": "C02", "continuation": "C04 C05", "define": "C01 C15", "delay": "C16", "do": "C02 C01", "dynwind": "C05 C06",
          "environment": "C01 C14", "eq": "C13", "error": "C07 C21", "eval": "C03 C01 C02 C07 C20", "exit": "C24", "for_each": "C03 C04", "function": "C03 C07 C21", "gc": "C08 C09", "hash_table": "C10",
          "let": "C01 C07", "list": "C11", "load": "C24 C14", "macro": "C15 C07", "map": "C03 C04", "module": "C14 C21", "number": "C19 C18", "parse": "C18 C17", "port": "C17 C26", "predicate": "C11 C22 C13",
          "print": "C18 C22", "procedure": "C03 C01", "pscm_api": "C21 C24", "quasiquote": "C15", "read": "C27", "repl": "C29", "smob": "C22 C09", "string": "C25 C19", "symbol": "C28", "throw": "C06 C05 C21",
          "values": "C20", "variable": "C22", "vector": "C12", "debug": "C27", "main": "C24 C29"}
SKIP = re.compile(r"LOG|fprintf\(stderr|assert|print_ast|^\s*//|^\s*\*|#include|#define|^\s*case |\"[^\"]{12,}\"|type_error|report_|source_loc|SCM_ERROR|set_source")
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"),
       (r"\bfalse\b", "true"), (r"!(?=[a-z_]+\()", ""), (r"\bif \((?=.*\) \{$)", "if (0 && "), (r"\bif \((.*)\) \{$", r"if (1 || (\1)) {"), (r"\b0\b(?!\.)", "1"), (r"\b1\b", "2"), (r"->next\b", ""), (r"int64_t|long ", "int "),
       (r"\+\+", "--"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"^(\s+)([a-z_>.\[\]\-]+ = .*;)$", r"\1;"), (r"^(\s+)([a-z_]+\(.*\);)$", r"\1;"), (r"scm_nil\(\)", "scm_none()"), (r"scm_none\(\)", "scm_nil()"),
       (r"scm_bool_false\(\)", "scm_bool_true()"), (r"\+= ", "= "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\(unsigned char\)", "(char)"), (r"car\(", "cdr(")]


def sh(cmd, cwd=None, timeout=900, env=None):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "timeout")


def setup():
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(REPO):
        sh(f"git clone -q /repo {REPO}")
    sh("git checkout -q -- . ; git pull -q", cwd=REPO)
    sh(f"rsync -a --delete --exclude .git --exclude .build --exclude seeded --exclude evidence /verif/ {VER}/ || (mkdir -p {VER}; cd /verif && tar cf - --exclude .git --exclude .build --exclude seeded . | tar xf - -C {VER})")
    os.makedirs(VER + "/evidence", exist_ok=True)
    sh(f'cmake -S {REPO} -B {W}/b -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=/usr/bin/clang-18 -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 "-DCMAKE_CXX_FLAGS_DEBUG=-g -include limits.h" -DPython3_EXECUTABLE=/opt/pscm-venv/bin/python3')
    print(sh(f"ninja -C {W}/b -j4").stdout[-200:])


def mutants(files, rng, n):
    pool = []
    for f in files:
        lines = open(f"{REPO}/src/c/{f}").read().split("\n")
        some = []
        for i, l in enumerate(lines):
            if SKIP.search(l) or not l.startswith("  "):
                continue
            for k, (a, b) in enumerate(OPS):
                for m in re.finditer(a, l):
                    new = l[:m.start()] + m.expand(b) + l[m.end():]
                    if new != l:
                        some.append((f, i, l, new, k))
        rng.shuffle(some)
        seen, keep = set(), []
        for s in some:
            if s[1] not in seen:
                seen.add(s[1])
                keep.append(s)
        pool.append(keep)
    out = []
    while len(out) < n and any(pool):
        p = rng.choices(pool, weights=[len(p) for p in pool])[0]
        out.append(p.pop())
    return out


def trial(m, base):
    f, i, old, new, k = m
    p = f"{REPO}/src/c/{f}"
    s = open(p).read().split("\n")
    assert s[i] == old
    t = s[:i] + [new] + s[i + 1:]
    rec = dict(file=f, line=i + 1, old=old.strip(), new=new.strip())
    try:
        open(p, "w").write("\n".join(t))
        if sh(f"ninja -C {W}/b -j4").returncode:
            return dict(rec, result="does not build")
        r = sh(f"ctest --test-dir {W}/b -j4 -E '^(texmacs_init_loading|load_kernel|load_utils|load_all)$' --timeout 20 --stop-on-failure", timeout=200)
        if "100% tests passed" not in r.stdout:
            return dict(rec, result="tests")
        tried = []
        for c in CHECKS[f[:-3]].split():
            t0 = time.time()
            r = sh(f"python3 verify.py {c}", cwd=VER, timeout=600, env={"PSCM_REPO": REPO, "VERIF_SEED": "1"})
            tried.append((c, r.returncode, round(time.time() - t0)))
            if r.returncode == 1:
                return dict(rec, result="caught", tried=tried, how=r.stdout[-500:])
        return dict(rec, result="MISSED", tried=tried)
    finally:
        open(p, "w").write("\n".join(s))


if __name__ == "__main__":
    setup()
    rng = random.Random(int(sys.argv[3]))
    files = sys.argv[4:] or sorted(f for f in os.listdir(f"{REPO}/src/c") if f.endswith(".cc") and f[:-3] in CHECKS)
    for m in mutants(files, rng, int(sys.argv[2])):
        t0 = time.time()
        rec = trial(m, None)
        rec["seconds"] = round(time.time() - t0)
        with open(W + "/log.jsonl", "a") as g:
            g.write(json.dumps(rec) + "\n")
