"""C30: builtins and their operands (Builtins.tla)."""
import os
import re

import paths
import run

PRE = """(define ran 0)
(define %in (current-input-port)) (define %out (current-output-port)) (define %err (current-error-port)) (define %mod (current-module))
(define (now) (list ran (eq? %in (current-input-port)) (eq? %out (current-output-port)) (eq? %err (current-error-port)) (eq? %mod (current-module))))
"""
OPS = ["new", "change", "test", "wrong", "count", "apply", "call", "define", "defined", "outside"]


def C30(ctx):
    with open(os.path.join(run.SPEC, "Builtins.tla")) as f:
        t = f.read()
    t = t[t.index("SigList =="):t.index("Sigs ==")]
    names = sorted({n for g in re.findall(r"<<\{([^}]*)\}", t) for n in re.findall(r'"([^"]*)"', g)})

    def c(n, ops, calls, length, sim=False):
        return dict(NVar=n, Ops="{" + ", ".join(f'"{o}"' for o in ops) + "}", Calls="{" + ", ".join(paths.tla_str(q) for q in calls) + "}", MaxChange=3, MaxLen=length, Sim="TRUE" if sim else "FALSE")
    r = ctx.rng
    r.shuffle(names)
    k = len(names) // 3
    jobs = [(("Builtins", c(1, ["new", "wrong", "count"], names[:k], 2), ["Inv"], ["Stays"]), {}),
            (("Builtins", c(1, ["new", "wrong", "count"], names[k:2 * k], 2), ["Inv"], ["Stays"]), {}),
            (("Builtins", c(1, ["new", "wrong", "count"], names[2 * k:], 2), ["Inv"], ["Stays"]), {}),
            (("Builtins", c(1, ["new", "test", "call", "change", "define", "defined"], names[:1], 3), ["Inv"], ["Stays"]), {}),
            (("Builtins", c(1, ["new", "outside"], names[:1], 2), ["Inv"], ["Stays"]), {})]
    nb = len(jobs)
    n = 60 if ctx.quick else 3000
    for q in range(4):
        jobs.append((("Builtins", c(3 + 2 * q, ["new", "change"] + OPS + ["wrong"] * 3, names, 0, sim=True), ["Inv"], []), dict(sim=(n, 60), seed=ctx.seed * 83 + q)))
    res = paths.explore_many(ctx, jobs)
    for q in range(nb):
        paths.replay(ctx, res[q], PRE, gcs=(0,), limit=15000 if ctx.quick else 100000)
    paths.replay(ctx, sum(res[nb:], []), PRE, gcs=(0, 101))
    ctx.assumptions.append("operands of kinds that are in no set Wrong and operands left out or added where a builtin takes a varying number are not claimed")
