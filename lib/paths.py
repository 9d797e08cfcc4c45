"""Path replay: TLC explores a component specification and writes its paths; the
real interpreter performs the operations of each and must give their results."""
import concurrent.futures
import copy
import json
import os
import random
import tempfile
import time

import check
import run

ERR = "(lambda (%k . %r) '!error)"


def explore(ctx, module, constants, invariants=(), spec_props=(), bfs=True, sim=None, view="View", constraint="Bound", timeout=500, seed=None,
            symmetry=None, heap="3g"):
    """Runs TLC on a component.  Returns the paths: [[ (op, expected), ...], ...].
    sim=(number of traces, length)"""
    d = tempfile.mkdtemp(prefix="paths-", dir=ctx.scratch)
    lines = ["INIT Init", "NEXT Next", "CHECK_DEADLOCK FALSE"]
    defs = []
    for k, v in constants.items():
        defs.append(f"MC_{k} == {v}")
        lines.append(f"CONSTANT {k} <- MC_{k}")
    inv = list(invariants)
    out = os.path.join(d, "paths")
    env = {"PATHS": out, "PATHLEN": str(sim[1] if sim else 0)}
    args = []
    if sim:
        inv.append("WriteLong")
        args = ["-simulate", f"num={sim[0]}", "-depth", str(sim[1] + 1), "-seed", str(seed if seed is not None else ctx.seed * 7919 + 17)]
    else:
        lines.append("ACTION_CONSTRAINT WritePath")
        if view:
            lines.append(f"VIEW {view}")
        if constraint:
            lines.append(f"CONSTRAINT {constraint}")
    for i in inv:
        lines.append(f"INVARIANT {i}")
    for i in spec_props:
        lines.append(f"PROPERTY {i}")
    cfg = os.path.join(d, "m.cfg")
    with open(cfg, "w") as f:
        f.write("\n".join(lines) + "\n")
    with open(os.path.join(d, "MC.tla"), "w") as f:
        f.write(f"---- MODULE MC ----\nEXTENDS {module}\n" + "\n".join(defs) + "\n====\n")
    r = run.tlc("MC", cwd=d, cfg=cfg, env=env, args=args, timeout=timeout, scratch=ctx.scratch, heap=heap)
    bad = "Error:" in r["out"] and not (sim and "simulation" in r["out"].lower() and "Error: " not in r["out"])
    if bad or (r["rc"] not in (0,) and not sim):
        raise run.CheckError(f"TLC on {module} ({constants}): rc {r['rc']}\n" + r["out"][-3500:])
    ctx.states += r["distinct"] or r["generated"]
    ctx.transitions += r["generated"]
    paths = []
    if os.path.exists(out):
        with open(out, encoding="utf-8") as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith('"'):
                    line = json.loads(line)
                paths.append(tuple((a, b) for a, b in json.loads(line)))
        os.unlink(out)
    if sim:
        # TLC also writes the siblings of a last step
        paths = sorted({p[:-1]: p for p in paths}.values())
        if len(paths) < sim[0] / 2:
            raise run.CheckError(f"only {len(paths)} of {sim[0]} random executions of {module} reached {sim[1]} steps ({constants})")
    return paths


def explore_many(ctx, jobs):
    """The results of several explorations, run side by side; jobs: [(args, kwargs), ...] of explore."""
    stress = getattr(ctx, "stress", None)
    if stress:
        # a few of the random explorations only, see stressed
        sims = [i for i, (_, k) in enumerate(jobs) if "sim" in k]
        sims = set(ctx.rng.sample(sims, min(stress["jobs"], len(sims))))
        few = [(jobs[i][0], dict(jobs[i][1], sim=(stress["paths"], jobs[i][1]["sim"][1]))) for i in sorted(sims)]
        got = dict(zip(sorted(sims), (explore(ctx, *a, **k) for a, k in few)))
        return [got.get(i, []) for i in range(len(jobs))]
    with concurrent.futures.ThreadPoolExecutor(run.WORKERS) as ex:
        fs = [ex.submit(explore, ctx, *a, **k) for a, k in jobs]
        return [f.result() for f in fs]


def maximal(paths):
    """Without the paths another one begins with."""
    inner = set()
    ps = set(paths)
    for p in ps:
        for i in range(1, len(p)):
            inner.add(p[:i])
    return sorted(p for p in ps if p not in inner)


def render(prelude, path):
    """One program for a path.  An operation starting with "!!" is a toplevel form of its own,
    one starting with "@@" emits its result itself, one with "!C" is a call by the C program."""
    out = [prelude]
    for op, exp in path:
        if op.startswith("!!"):
            out.append(op[2:])
        elif op.startswith("!C"):
            out.append(op[2:])
        elif op.startswith("@@"):
            # emits itself
            out.append(f"(catch #t (lambda () {op[2:]}) (lambda (%k . %r) (emit '!error)))")
        else:
            out.append(f"(emit (catch #t (lambda () {op}) {ERR}))")
    return "\n".join(out) + "\n"


def expected(path):
    return [e for op, e in path if not op.startswith("!!")]


def differs(path, rec, close=None):
    """None if the recorded run is the path's, else what differs."""
    ev, st = rec
    exp = expected(path)
    ops = [op for op, _ in path if not op.startswith("!!")]
    for i, e in enumerate(exp):
        if i >= len(ev):
            return f"step {i + 1}, {ops[i][:200]}: expected {e[:200]}, the run ended ({st})"
        if e != "?" and not same(e, ev[i]):
            return f"step {i + 1}, {ops[i][:200]}: expected {e[:300]}, observed {ev[i][:300]}"
    if len(ev) > len(exp):
        return f"an event too many: {ev[len(exp)][:200]}"
    if st != "ok":
        return f"the run ended with {st}"
    return None


def same(exp, got):
    if exp == got:
        return True
    if "?" in exp:
        # "?" stands for any one item
        parts = exp.split("?")
        if not got.startswith(parts[0]) or not got.endswith(parts[-1]):
            return False
        pos = 0
        for p in parts:
            at = got.find(p, pos)
            if at < 0:
                return False
            pos = at + len(p)
        return True
    return False


def replay(ctx, paths, prelude="", gcs=(0, 7), files=None, limit=None, title="the run is not a behaviour of the specification", timeout=10,
           note=None, group=1, split=None):
    """Replays paths on the real interpreter.  prelude: text, or a function of the path;
    split: a function from a path to what is done of it and the files."""
    pre = prelude if callable(prelude) else (lambda p: prelude)
    if getattr(ctx, "stress", None):
        if not paths:
            return
        gcs = ctx.stress["gcs"]
        # what allocates very much takes too long with so many collections
        paths = [p for p in paths if not any("(many " in op for op, _ in p)]
    paths = maximal(paths)
    total = len(paths)
    if limit and total > limit:
        paths = sorted(ctx.rng.sample(paths, limit))
    ctx.count(paths_enumerated=total, paths_replayed=len(paths), operations_replayed=sum(len(p) for p in paths) * len(gcs))
    given = [(p, files) for p in paths]
    if split:
        given = [split(p) for p in paths]
        paths = [p for p, _ in given]
    texts = [render(pre(p), p) for p in paths]
    progs = [dict(main=t, files=f) if f else t for t, (_, f) in zip(texts, given)]
    for g in gcs:
        if len(ctx.violations) >= 5 or getattr(ctx, "endless", False):
            break
        recs = run.run_programs(ctx.bin["harness"], progs, ctx.scratch, gc=g, timeout=timeout, tag=f"g{g}")
        todo, skipped = list(range(len(paths))), []
        while todo:
            i = todo.pop(0)
            p = paths[i]
            if recs[i][1] == "skipped":
                skipped.append(i)
                if not todo and not ctx.violations:
                    # only slow?
                    again = run.run_programs(ctx.bin["harness"], [progs[j] for j in skipped], ctx.scratch, gc=g, timeout=timeout, tag="skipped", stop_after=0)
                    recs = dict(zip(skipped, again))
                    todo, skipped = skipped, []
                continue
            what = differs(p, recs[i])
            if what is None:
                ctx.traces += 1
                continue
            if getattr(ctx, "stress", None) and recs[i][1] == "timeout" and what.endswith("(timeout)"):
                ctx.count(too_slow=1)
                continue
            if len(ctx.violations) >= 5 or getattr(ctx, "endless", False):
                ctx.violations.append(None)
                continue
            rec2 = run.run_programs(ctx.bin["harness"], [progs[i]], ctx.scratch, gc=g, timeout=40, tag="again")[0]
            what2 = differs(p, rec2)
            if what2 is None:
                ctx.count(not_repeated=1)
                continue
            # one run without end is enough
            ctx.endless = rec2[1] == "timeout"
            ctx.violation(f"{title}: {what2}", f"program:\n{texts[i]}\n{'files: ' + repr(given[i][1]) if split else ''}\nexpected: {expected(p)}\n"
                          f"recorded (a collection every {g or '-'} allocations): {rec2[0]} ({rec2[1]})")
    for p in paths[:2] + paths[-1:]:
        ctx.sample({"path": [list(x) for x in p[:12]]})


def stressed(ctx, parts, **stress):
    """Other components' checks with a part of their random explorations and with collections all the time;
    parts: functions.  stress: jobs, paths: how many; gcs"""
    def one(f):
        sub = copy.copy(ctx)
        sub.rng = random.Random(f"{f.__name__}:{ctx.seed}")
        sub.stress, sub.states, sub.transitions, sub.traces, sub.extra, sub.assumptions, sub.samples = stress, 0, 0, 0, {}, [], []
        t = time.time()
        f(sub)
        if os.environ.get("VERIF_PROFILE"):
            print("stressed", f.__name__, round(time.time() - t, 1), sub.extra)
        return sub
    ctx.bin  # built before the threads start
    with concurrent.futures.ThreadPoolExecutor(run.WORKERS) as ex:
        for sub in ex.map(one, parts):
            ctx.states += sub.states
            ctx.transitions += sub.transitions
            ctx.traces += sub.traces
            ctx.count(**{f"stressed_{k}": v for k, v in sub.extra.items() if isinstance(v, int)})


def tla_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
