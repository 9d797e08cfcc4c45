"""C11, C12, C23: pairs, vectors and association lists (Heap.tla)."""
import paths


def atoms(xs):
    return "{" + ", ".join("<<" + ", ".join(paths.tla_str(y) for y in ("a",) + x) + ">>" for x in xs) + "}"


RAT, FLO = ("1/2", "1/2", "1/2"), ("~2.5", "2.5", "2.5")
ONE, TWO, SYM, NIL, STR, CHR, F = ("1", "1", "1"), ("2", "2", "2"), ("k", "'k", "k"), ("()", "'()", "()"), ('"s"', '"s"', "s"), ("#\\97", "#\\a", "ca"), ("#f", "#f", "#f")
LISTOPS = ["cons", "list", "set-car", "set-cdr", "access", "append", "append3", "reverse", "list-tail", "list-head", "list-ref", "last-pair", "mem", "map", "apply", "rest", "pred", "same", "copy", "quasi", "look"]
CORE = ["cons", "set-car", "set-cdr", "access", "append", "reverse", "last-pair", "list-head"]
VECOPS = ["vector", "make-vector", "vector-ref", "vector-set", "vector-length", "vector->list", "list->vector", "cons", "set-car", "access", "same", "copy", "list", "pred"]
ALISTOPS = ["ass", "assoc-ref", "acons", "assoc-set", "assoc-remove", "cons", "set-car", "set-cdr", "access", "copy", "list"]


def run(ctx, ops, small, quick, sims, hist, big):
    def consts(nvar, at, ops, size, length, sim):
        return dict(NVar=nvar, Atoms=atoms(at), Ops="{" + ", ".join(f'"{o}"' for o in ops) + "}", MaxSize=size, MaxLen=length, Sim="TRUE" if sim else "FALSE")
    jobs = [(("Heap", consts(nvar, at, o, size, length, False), ["HeapOk"]), {}) for nvar, at, o, size, length in small]
    n = big if ctx.quick else 20 * big
    per = 4
    # a random exploration is split: TLC runs each with one worker
    jobs += [(("Heap", consts(nvar, at, ops, 99, 999, True), ["HeapOk"]), dict(sim=(n // per, hist), seed=ctx.seed * 7919 + 31 * q + 17)) for nvar, at in sims for q in range(per)]
    res = paths.explore_many(ctx, jobs)
    for i, ps in enumerate(res[:len(small)]):
        paths.replay(ctx, ps, gcs=(0, 5), limit=quick if ctx.quick else 20 * quick)
    paths.replay(ctx, sum(res[len(small):], []), gcs=(0, 9))


def C11(ctx):
    run(ctx, LISTOPS, [(2, [ONE], LISTOPS, 4, 2), (1, [ONE], CORE, 3, 4), (1, [ONE], LISTOPS, 4, 3)], 1500, [(3, [ONE, TWO, SYM, NIL]), (4, [RAT, FLO, STR, CHR, F, NIL, SYM])], 60, 80)


def C12(ctx):
    run(ctx, VECOPS, [(2, [ONE], VECOPS, 3, 2), (1, [ONE], VECOPS, 3, 3)], 2000, [(3, [ONE, TWO, SYM, NIL]), (4, [ONE, STR, CHR, F, NIL])], 60, 80)


def C23(ctx):
    run(ctx, ALISTOPS, [(1, [ONE, SYM], ALISTOPS, 4, 3), (2, [ONE], ALISTOPS, 4, 2)], 2000, [(3, [ONE, TWO, SYM, NIL]), (3, [RAT, FLO, STR, CHR, F, SYM])], 60, 80)
