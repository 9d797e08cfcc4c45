"""What the checks share: context, violations, known findings, evidence, and the
two engines that bind the specification to the implementation.

 machine_check  Replay.tla: traces recorded from the real interpreter are
                validated against the evaluator specification (Machine.tla)
 path_check     paths of a component specification's state graph, enumerated
                by TLC, are replayed on the real interpreter
"""
import concurrent.futures
import hashlib
import json
import os
import random
import sys
import tempfile
import time

import build
import run
import sexp

VERIF = run.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")
REPLAYS = os.path.join(VERIF, "evidence", "replay")


def known_findings(prop):
    """{key: text} of the listed findings of a property.  A line of the file is
    finding: property=<id> key=<what identifies it> <what fails>"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: property=" + prop + " key="):
                rest = line.split("key=", 1)[1].rstrip("\n")
                key, _, text = rest.partition(" ")
                out[key] = text
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random(f"{prop}:{seed}")
        self.t0 = time.time()
        self.violations = []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.scratch_cm = run.Scratch()
        self.scratch = self.scratch_cm.__enter__()
        self.known = known_findings(prop)
        self.known_hit = {}
        self._bin = None
        self.budget = 60 if self.quick else 600

    @property
    def bin(self):
        if self._bin is None:
            self._bin = build.build()
        return self._bin

    def left(self):
        return self.budget - (time.time() - self.t0)

    def count(self, **kw):
        for k, v in kw.items():
            self.extra[k] = self.extra.get(k, 0) + v

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, title, replay, key=None):
        """replay: text that reproduces it"""
        if key in self.known:
            self.known_hit[key] = True
            return
        if len(self.violations) >= 5:
            self.violations.append(None)
            return
        os.makedirs(REPLAYS, exist_ok=True)
        h = hashlib.sha256((title + replay).encode("utf-8", "replace")).hexdigest()[:10]
        path = os.path.join(REPLAYS, f"{self.prop}-{h}.txt")
        with open(path, "w", encoding="utf-8", errors="replace") as f:
            f.write(title + "\n\n" + replay + "\n")
        self.violations.append(path)
        print(f"{self.prop}: {title}")
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)

    def finish(self, level):
        for key, text in self.known.items():
            print(f"KNOWN-FINDING: property={self.prop} {text}" + ("" if key in self.known_hit else " (not met in this run)"))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"], **self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", f"{self.prop}.json"))
        self.scratch_cm.__exit__(None, None, None)
        print(f"{self.prop}: {'VIOLATED' if self.violations else 'held'}; {self.states} states, {self.transitions} transitions, "
              f"{self.traces} traces, {ev['wall_s']} s")
        return 1 if self.violations else 0


# ------------------------------------------------------------------ machine
def record(ctx, texts, gcs, timeout=6, tag=""):
    """[[(events, status) per gc setting] per program]"""
    runs = [run.run_programs(ctx.bin["harness"], texts, ctx.scratch, gc=g, timeout=timeout, tag=f"{tag}g{g}") for g in gcs]
    return [[r[i] for r in runs] for i in range(len(texts))]


def validate(ctx, progs, max_steps=4000, timeout=800):
    """progs: [(trees, traces)]; returns the verdicts [{v, x, n, ne}]."""
    nproc = min(run.WORKERS, max(1, len(progs) // 20))
    chunks = [list(range(c, len(progs), nproc)) for c in range(nproc)]

    def tlc_chunk(idx, name):
        d = tempfile.mkdtemp(prefix=f"tlc-{name}-", dir=ctx.scratch)
        pf, vf = os.path.join(d, "programs.json"), os.path.join(d, "verdicts")
        with open(pf, "w") as f:
            json.dump([{"prog": progs[i][0], "traces": [{"ev": e, "st": s} for e, s in progs[i][1]], "max": max_steps}
                       for i in idx], f)
        r = run.tlc("Replay", env={"PSCM_PROGRAMS": pf, "PSCM_VERDICTS": vf}, timeout=timeout, scratch=ctx.scratch)
        got = {}
        if os.path.exists(vf):
            for line in open(vf):
                v = json.loads(json.loads(line)) if line.startswith('"') else json.loads(line)
                got[idx[v["i"] - 1]] = v
        return r, got

    def one(c):
        r, got = tlc_chunk(chunks[c], str(c))
        gen, dist = r["generated"], r["distinct"]
        todo = [i for i in chunks[c] if i not in got]
        if "Invariant Inv is violated" in r["out"]:
            raise run.CheckError("the specification violates its own invariant:\n" + r["out"][-3000:])
        # a program the specification cannot be evaluated on stops TLC: find it, go on with the rest
        rounds = 0
        while todo:
            rounds += 1
            if rounds > 12:
                raise run.CheckError("TLC: " + r["out"][-2500:])
            r, g2 = tlc_chunk(todo if rounds < 4 else todo[:1], f"{c}-{rounds}")
            gen, dist = gen + r["generated"], dist + r["distinct"]
            got.update(g2)
            if not g2:
                got[todo[0]] = {"v": "error", "x": r["out"][-1500:], "n": 0, "ne": 0}
            todo = [i for i in todo if i not in got]
        return got, gen, dist

    verdicts = [None] * len(progs)
    with concurrent.futures.ThreadPoolExecutor(nproc) as ex:
        for got, gen, dist in ex.map(one, range(nproc)):
            ctx.transitions += gen
            ctx.states += dist
            for i, v in got.items():
                verdicts[i] = v
    return verdicts


def machine_check(ctx, texts, gcs=(0, 7), max_steps=4000, key=None, title="the run is not a behaviour of the specification"):
    """Validates the runs of the programs (Scheme texts) against Machine."""
    texts = list(dict.fromkeys(texts))
    trees = [sexp.parse(t) for t in texts]
    recs = record(ctx, texts, gcs)
    left = [i for i in range(len(texts)) if any(st == "skipped" for _, st in recs[i])]
    if left:
        # many run out of time: judge the others first
        ctx.count(left_out=len(left))
        keep = [i for i in range(len(texts)) if i not in set(left)]
        texts, trees, recs = [texts[i] for i in keep], [trees[i] for i in keep], [recs[i] for i in keep]
    verdicts = validate(ctx, [(trees[i], recs[i]) for i in range(len(texts))], max_steps)
    nun, kinds = 0, {}
    for i, v in enumerate(verdicts):
        if v["v"] == "error":
            raise run.CheckError("TLC cannot evaluate the specification on:\n" + texts[i] + "\n" + v["x"])
        if v["v"] == "unspec" and v["x"] == "timeout":
            # slow, or without end?  once more, alone and with time
            if not ctx.violations:
                rec2 = record(ctx, [texts[i]], gcs, timeout=45, tag=f"slow{i}")
                v2 = validate(ctx, [(trees[i], rec2[0])], max_steps)[0]
                if v2["v"] == "unspec" and v2["x"] == "timeout":
                    ctx.violation("the specification ends, the run does not", "program:\n" + texts[i])
                    continue
                recs[i], v = rec2[0], v2
        if v["v"] == "unspec":
            nun += 1
            kinds[v["x"]] = kinds.get(v["x"], 0) + 1
        if v["v"] in ("done", "unspec"):
            ctx.traces += len(gcs)
            ctx.count(events_validated=v["ne"] * len(gcs), machine_steps=v["n"])
            if v["v"] == "done":
                ctx.count(runs_validated_to_the_end=1)
                if v["ne"]:
                    ctx.sample({"program": texts[i][:600], "events": recs[i][0][0][:12]})
        if v["v"] == "bad" and len(ctx.violations) >= 5:
            ctx.violations.append(None)
        elif v["v"] == "bad":
            # once more, alone: only what repeats is reported
            rec2 = record(ctx, [texts[i]], gcs, tag=f"again{i}")
            v2 = validate(ctx, [(trees[i], rec2[0])], max_steps)[0]
            if v2["v"] != "bad":
                ctx.count(not_repeated=1)
                continue
            lines = [f"program:\n{texts[i]}\n", f"verdict: {v2['x']}\n"]
            for g, (ev, st) in zip(gcs, rec2[0]):
                lines.append(f"recorded with a collection every {g or '-'} allocations: {ev} ({st})")
            ctx.violation(f"{title}: {v2['x'][:300]}", "\n".join(lines), key(texts[i]) if key else None)
    if left and not ctx.violations:
        raise run.CheckError("too many programs run out of time, but not when they are run alone")
    ctx.count(programs=len(texts), programs_reaching_unclaimed_behaviour=nun)
    if nun:
        u = ctx.extra.setdefault("unclaimed_reasons", {})
        for k, c in kinds.items():
            u[k[:60]] = u.get(k[:60], 0) + c
    return verdicts
