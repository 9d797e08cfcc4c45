"""Running programs on the harness and TLC on the specification."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check could not do its work (neither a pass nor a violation)."""


class Scratch:
    """A directory of this run, removed at its end."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="pscm-verif-")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def run_programs(harness, texts, scratch, gc=0, timeout=20, files=None, tag="", stop_after=3):
    """Runs the programs (Scheme texts); returns [(events, status), ...].  After stop_after programs of a batch
    that run out of time the rest of it is left out (status "skipped").
    files: {name: content} put into every program's directory."""
    base = tempfile.mkdtemp(prefix=f"progs{tag}-", dir=scratch)
    n = len(texts)
    nb = min(WORKERS, max(1, n // 8 or 1))
    batches = [list(range(b, n, nb)) for b in range(nb)]

    def one(b):
        paths = []
        for i in batches[b]:
            if files is not None or isinstance(texts[i], dict):
                d = os.path.join(base, str(i))
                os.makedirs(d, exist_ok=True)
                fs = dict(files or {})
                t = texts[i]
                if isinstance(t, dict):
                    fs.update(t["files"])
                    t = t["main"]
                for name, content in fs.items():
                    p = os.path.join(d, name)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as f:
                        f.write(content if isinstance(content, bytes) else content.encode("latin-1"))
                p = os.path.join(d, "main.scm")
            else:
                t = texts[i]
                p = os.path.join(base, f"{i}.scm")
            with open(p, "wb") as f:
                f.write(t.encode("latin-1"))
            paths.append(p)
        jobs = os.path.join(base, f"jobs{b}")
        with open(jobs, "w") as f:
            f.write("".join(p + "\n" for p in paths))
        cmd = [harness, jobs, "--timeout", str(timeout), "--stop-after", str(stop_after)]
        if gc:
            cmd += ["--gc", str(gc)]
        env = dict(os.environ, HOME=scratch)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=env)
        return r.returncode, r.stdout.decode("latin-1")

    results = [None] * n
    with concurrent.futures.ThreadPoolExecutor(nb) as ex:
        outs = list(ex.map(one, range(nb)))
    for b, (rc, out) in enumerate(outs):
        if rc != 0 and "=0\n" not in out:
            # the harness itself died before its first program: initialisation fails
            for i in batches[b]:
                results[i] = ([], f"harness {rc}")
            continue
        cur, ev = None, None
        for line in out.split("\n"):
            if line.startswith("="):
                cur, ev = batches[b][int(line[1:])], []
            elif line.startswith("!"):
                results[cur] = (ev, line[1:])
                cur = None
            elif cur is not None and line.startswith(" "):
                ev.append(line[1:])
        for i in batches[b]:
            if results[i] is None:
                results[i] = ([], f"harness {rc}")
    shutil.rmtree(base, ignore_errors=True)
    return results


def tlc(module, cfg=None, env=None, workers=1, args=(), timeout=600, heap="2g", stack="64m", scratch=None, cwd=SPEC):
    """Runs TLC on a module of spec/; returns its output and the numbers it reports."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}", f"-Xss{stack}",
           "-XX:TieredStopAtLevel=4", f"-DTLA-Library={SPEC}", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg or f"{module}.cfg", *args, f"{module}.tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode("utf-8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), -1
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m and not gen:
        gen = dist = int(m[-1].replace(",", ""))
    return {"rc": rc, "out": out, "generated": gen, "distinct": dist}
