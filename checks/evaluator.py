"""C01-C08, C15, C16, C20: runs of the real interpreter validated against the
evaluator specification Machine.tla (Replay.tla)."""
import check
import families as F
import gen
import paths
import wild
from checks import arith, capi, equiv, foreign, heap, modules, options, ports, reader, strings, symbols, tables

WEIGHTS = {
    "C01": dict(let=5, letstar=4, letrec=3, nlet=3, do=3, setb=7, lam=4, curry=4, innerdef=5, call=5, foreach=2, counter=0, arith=2),
    "C02": dict(iff=6, cond=6, case=4, andor=5, do=5, begin=4, nlet=3, emit=6, setb=3, let=3),
    "C03": dict(call=8, applyf=5, mapf=5, curry=4, lam=3, emit=5, values=2, pair=3, quasi=1, macro=0, err=1, catch=1),
    "C04": dict(cc_escape=4, cc_store=6, cc_reenter=6, wind=1, catch=1, mapf=2, nlet=3, do=3, setb=4, pair=2, vec=1, hash=1, values=1),
    "C05": dict(wind=8, cc_escape=4, cc_store=4, cc_reenter=4, catch=3, throw=3, err=1, setb=3),
    "C06": dict(catch=8, throw=8, err=2, wind=3, cc_escape=3, cc_store=3, cc_reenter=3, nlet=2, call=4),
    "C07": dict(err=8, catch=5, throw=1, wind=2, cc_escape=1, cc_store=1, cc_reenter=1, mapf=2, values=1, macro=1, quasi=1, vec=1, hash=1, force=1),
    "C08": dict(cc_escape=2, cc_store=3, cc_reenter=3, catch=2, throw=1, wind=2, mapf=2, quasi=2, values=2, macro=1, force=2, vec=2, hash=2, pair=3, applyf=2, err=1),
    "C15": dict(macro=8, quasi=8, emit=4, let=3, setb=2, pair=2, catch=1, throw=1, cc_escape=1, cc_store=1, cc_reenter=1),
    "C16": dict(force=10, cc_escape=3, cc_store=2, cc_reenter=2, catch=3, throw=3, setb=4, call=4),
    "C20": dict(values=10, cc_escape=3, cc_store=3, cc_reenter=2, applyf=3, wind=2, catch=2, throw=1, mapf=2, call=3),
}

# untyped programs, where names are shadowed and captured all the time (lib/wild.py)
WILD = {
    "C01": dict(setb=8, letrec=4, nlet=4, do=2, lam=5, call=7, let=5),
    "C02": dict(iff=6, cond=5, case=4, andor=5, do=4, begin=3, cond_arrow=3, emit=7),
    "C03": dict(call=9, app=4, mapf=4, foreach=3, lam=6, emit=6, err=1),
    "C04": dict(cc=5, reenter=5, mapf=3, app=2, mutate=2),
    "C05": dict(wind=5, cc=4, reenter=3, throw=3, catch=3),
    "C06": dict(catch=6, throw=5, err=2, wind=2, cc=2, reenter=1),
    "C07": dict(err=5, catch=4, throw=1, call=8, app=2, mutate=2, values=1, force=1),
    "C08": dict(cc=2, reenter=2, catch=2, throw=1, wind=2, delay=1, force=1, values=1, quasi=2, macro=2, mapf=2, mutate=2),
    "C15": dict(macro=7, quasi=5, catch=1, throw=1, let=4),
    "C16": dict(delay=5, force=8, cc=2, reenter=2, throw=2, catch=2, setb=5),
    "C20": dict(values=8, cc=2, reenter=2, wind=1, catch=1, throw=1, app=2),
}


def pick(ctx, texts, quick):
    texts = list(dict.fromkeys(texts))
    return texts if not ctx.quick or len(texts) <= quick else ctx.rng.sample(texts, quick)


def machine(ctx, fam, gcs=(0, 7), quick_fam=1200, quick_rand=700, thorough_rand=12000, quick_wild=500):
    """The family (a sample of it in the quick tier), then typed and untyped random programs."""
    fam = pick(ctx, fam, quick_fam)
    ctx.count(family_programs=len(fam))
    check.machine_check(ctx, fam, gcs)
    if ctx.violations:
        return
    n = quick_rand if ctx.quick else thorough_rand
    while n > 0 and not ctx.violations:
        k = min(n, 1500)
        depth = ctx.rng.choice([3, 4, 4, 5])
        check.machine_check(ctx, gen.programs(ctx.rng, k, depth=depth, **WEIGHTS[ctx.prop]), gcs)
        n -= k
    n = quick_wild if ctx.quick else thorough_rand
    while n > 0 and not ctx.violations:
        k = min(n, 1500)
        check.machine_check(ctx, wild.programs(ctx.rng, k, depth=ctx.rng.choice([3, 4]), **WILD[ctx.prop]), gcs)
        n -= k
    ctx.assumptions += ["programs and the expected rules are in spec/Machine.tla; what it calls unclaimed is not judged",
                        "integers in generated programs stay within 32 bits (TLC)"]


def C01(ctx):
    machine(ctx, F.coincidences(ctx.rng, 350 if ctx.quick else 6000) + pick(ctx, F.scoping(), 900), quick_fam=1250)


def C02(ctx):
    machine(ctx, F.control())


def C03(ctx):
    machine(ctx, F.calls())


def C04(ctx):
    machine(ctx, F.continuations(ctx.rng, 400 if ctx.quick else None))


def C05(ctx):
    machine(ctx, F.winds() + F.guards(ctx.rng, 600 if ctx.quick else 8000), quick_fam=1500)


def C06(ctx):
    machine(ctx, F.catches(ctx.rng, 300 if ctx.quick else None))


def C07(ctx):
    machine(ctx, F.errors(ctx.rng, 900 if ctx.quick else None))


def C15(ctx):
    machine(ctx, F.macros(), quick_fam=700, quick_rand=500, quick_wild=400)
    if not ctx.violations:
        check.machine_check(ctx, F.splices() + F.templates(ctx.rng, 400 if ctx.quick else 8000))
    if not ctx.violations:
        expansions(ctx)


def expansions(ctx):
    """Macros at the top level, their expansion and their value (Expand.tla)."""
    kinds = ["double", "swap", "rest", "drop", "all", "quote", "quasi", "lambda", "const", "wrap", "count", "same"]

    def c(n, ks, ops, length, sim=False):
        return dict(NMac=n, Kinds="{" + ", ".join(f'"{k}"' for k in ks) + "}", Ops="{" + ", ".join(f'"{o}"' for o in ops) + "}", MaxLen=length, Sim="TRUE" if sim else "FALSE")
    asks = ["one", "full", "eval", "both"]
    jobs = [(("Expand", c(1, kinds, ["define"] + asks, 2), ["Inv", "Fixed"]), {}),
            (("Expand", c(2, kinds, ["define", "full"], 3), ["Inv", "Fixed"]), {})]
    for q in range(3):
        jobs.append((("Expand", c(2 + q, kinds, ["define"] + asks, 0, sim=True), ["Inv", "Fixed"]), dict(sim=(60 if ctx.quick else 3000, 50), seed=ctx.seed * 89 + q)))
    res = paths.explore_many(ctx, jobs)
    pre = "(define ran 0)\n"
    for ps in res[:2]:
        paths.replay(ctx, ps, pre, gcs=(0,), limit=3000 if ctx.quick else 100000)
    paths.replay(ctx, sum(res[2:], []), pre, gcs=(0, 101))


def C16(ctx):
    machine(ctx, F.delayed(ctx.rng) + pick(ctx, F.promises(ctx.rng, 300 if ctx.quick else None), 900))


def C20(ctx):
    machine(ctx, F.multivalues(ctx.rng, 300 if ctx.quick else None))


def C08(ctx):
    """The same specification, runs with a collection every K allocations only:
    in Machine.tla a collection is a stuttering step."""
    r = ctx.rng
    fam = (F.scoping() + F.calls() + F.macros() + F.promises(r, 200) + F.multivalues(r, 200) + F.continuations(r, 300) + F.winds() + F.catches(r, 200) +
           F.errors(r, 200) + F.control())
    fam = r.sample(fam, 1100 if ctx.quick else len(fam))
    machine(ctx, fam, gcs=(1, 3, 50) if not ctx.quick else (2, 41), quick_rand=600, thorough_rand=6000, quick_wild=500)
    if not ctx.violations:
        paths.stressed(ctx, [tables.C10, heap.C11, heap.C12, heap.C23, equiv.C13, modules.C14, strings.C25, symbols.C28, arith.C19, foreign.C22, options.C27, reader.C18, ports.C17, ports.C26, capi.C21],
                       jobs=2 if ctx.quick else 8, paths=5 if ctx.quick else 60, gcs=(11, 59) if ctx.quick else (1, 2, 13))
