"""C19: exact arithmetic (Arith.tla)."""
import paths

PRE = """(define (bad thunk) (catch #t (lambda () (thunk) 'no-error) (lambda (k . r) 'bad)))
"""
OPS = ["add", "mul", "sub", "div", "intdiv", "gcd", "lcm", "abs", "expt", "max", "text", "back", "compare", "pred", "same"]


def tla_int(n):
    limbs, m = [], abs(n)
    while m:
        limbs.append(m % 10000)
        m //= 10000
    return f"<<{'TRUE' if n < 0 else 'FALSE'}, <<{', '.join(map(str, limbs))}>>>>"


def tla_set(xs):
    return "{" + ", ".join(xs) + "}"


BIG = 2 ** 63 - 1
EDGE = [0, 1, -1, 2, -2, 3, 10, -10, BIG, -BIG, -BIG - 1, BIG - 1, 2 ** 31, 2 ** 31 - 1, -2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 62, -2 ** 62, 3037000499, 3037000500, 10 ** 18, 6, 12, -35, 100, 65536]


def C19(ctx):
    r = ctx.rng

    def c(nreg, ints, ratios, ops, length, args, sim=False):
        return dict(NReg=nreg, Ints=tla_set(tla_int(x) for x in sorted(set(ints))), Ratios=tla_set(f"<<{tla_int(a)}, {tla_int(b)}>>" for a, b in sorted(set(ratios))),
                    Ops=tla_set(f'"{o}"' for o in ops), MaxLen=length, MaxArgs=args, Sim="TRUE" if sim else "FALSE")
    small = [(1, 2), (-1, 2), (2, 3), (-5, 4), (6, 4), (0, 7), (8, -2 + 6)]
    jobs = []
    some = (lambda xs, k: r.sample(list(xs), k)) if ctx.quick else (lambda xs, k: list(xs))
    edge = [-BIG - 1, BIG] + some([x for x in EDGE if x not in (BIG, -BIG - 1)], 12)
    # every operation on every pair of small operands, and of operands at the edge of the range
    arith = ["add", "mul", "sub", "div", "intdiv", "gcd", "lcm", "abs", "max", "compare", "pred", "text", "back", "same"]
    jobs.append((("Arith", c(1, [0, 1, -1, 2, -3], some(small, 4), arith, 1, 2), ["Inv"]), {}))
    jobs.append((("Arith", c(1, range(-7, 8), [], ["intdiv", "gcd", "lcm", "compare", "pred", "expt"], 1, 2), ["Inv"]), {}))
    jobs.append((("Arith", c(1, edge, [], ["add", "mul", "sub", "div", "intdiv", "gcd", "lcm", "abs"], 1, 2), ["Inv"]), {}))
    jobs.append((("Arith", c(1, edge[:9], some([(1, 3), (-BIG, 2), (BIG, 2), (1, BIG), (-1, BIG - 1), (2 ** 32, 3), (3, 2 ** 31)], 4), ["max", "compare", "pred", "text", "back", "same"], 1, 2), ["Inv"]), {}))
    jobs.append((("Arith", c(1, [r.choice([2, -2, 7]), 1], [r.choice([(1, 2), (-2, 3)])], ["add", "mul", "sub", "div", "gcd", "lcm", "max", "compare"], 1, 3), ["Inv"]), {}))
    jobs.append((("Arith", c(1, [3], [(1, 2)], ["wrong"], 1, 1), ["Inv"]), {}))
    # every number as text
    wide = [(a, b) for a in EDGE if a for b in (3, 7, 2 ** 31, 2 ** 32 + 1, BIG) if abs(a) != b]
    jobs.append((("Arith", c(1, EDGE, wide, ["text", "back"], 1, 1), ["Inv"]), {}))
    # two steps: results as operands
    jobs.append((("Arith", c(2, [r.choice([2, 3, 6])], [r.choice([(1, 2), (-2, 3), (4, 3)])], ["add", "mul", "sub", "div", "max", "text"], 2, 2), ["Inv"]), {}))
    nb = len(jobs)
    n = 25 if ctx.quick else 1500
    for q in range(8):
        bits = [4, 8, 15, 20, 31, 40, 62, 12][q]
        ints = [r.randrange(-2 ** bits, 2 ** bits) for _ in range(14)] + r.sample(EDGE, 8) + [0, 1, -1]
        ratios = [(r.randrange(-2 ** bits, 2 ** bits), r.randrange(1, 2 ** min(bits, 62))) for _ in range(10)] + [(r.randrange(-99, 99), r.randrange(1, 30)) for _ in range(8)]
        jobs.append((("Arith", c(3, ints, ratios, OPS + ["wrong"], 0, 4, sim=True), ["Inv"]), dict(sim=(n, 60), seed=ctx.seed * 29 + q)))
    res = paths.explore_many(ctx, jobs)
    for ps in res[:nb]:
        paths.replay(ctx, ps, PRE, gcs=(0,), limit=2500 if ctx.quick else None)
    paths.replay(ctx, sum(res[nb:], []), PRE, gcs=(0, 211))
    inexact(ctx)
    ctx.assumptions.append("results that, or whose cross products, sums and running products, do not fit in 64 bits are not claimed; expt is claimed for integers; an inexact result is claimed where no number on the way to it needs rounding; the signs of inexact zeros, integer? of inexact whole numbers and equality of exact with inexact numbers by eqv? and equal? are not claimed")


def inexact(ctx):
    """Inexact numbers among exact ones (Inexact.tla)."""
    r = ctx.rng
    ops = ["add", "mul", "sub", "div", "abs", "max", "sqrt", "text", "write", "spell", "compare", "pred", "same"]

    def pairs(xs):
        return tla_set(f"<<{tla_int(a)}, {tla_int(b)}>>" for a, b in sorted(set(xs)))

    def c(nreg, ints, ratios, floats, ops, length, args, sim=False):
        return dict(NReg=nreg, Ints=tla_set(tla_int(x) for x in sorted(set(ints))), Ratios=pairs(ratios), Floats=pairs(floats), Ops=tla_set(f'"{o}"' for o in ops),
                    MaxLen=length, MaxArgs=args, Sim="TRUE" if sim else "FALSE")
    edge = [(a * s, b) for a, b in [(1, 2), (3, 4), (1, 8), (1, 16), (15, 16), (2 ** 31, 1), (2 ** 30 + 1, 2), (2 ** 32, 1), (2 ** 32 + 1, 1), (2 ** 53, 1), (2 ** 53 - 1, 1), (10 ** 6, 1), (10 ** 7 + 1, 2), (10 ** 14 + 1, 1), (10 ** 15, 1), (99999999, 1), (10 ** 9 - 1, 2), (99, 8)] for s in (1, -1)]
    jobs = [(("Inexact", c(1, [0, 1, -2, 3], [(1, 2), (-1, 3)], [(1, 2), (-3, 2), (2, 1), (0, 1)], ops, 1, 2), ["Inv"]), {}),
            (("Inexact", c(1, [2, 3], [(1, 4)], [(1, 2), (-2, 1)], ["add", "mul", "sub", "div", "max", "compare"], 1, 3), ["Inv"]), {}),
            (("Inexact", c(1, [1], [], edge, ["abs", "text", "write", "spell", "pred", "sqrt"], 1, 1), ["Inv"]), {}),
            (("Inexact", c(1, [2 ** 31, -2 ** 32 - 1, 2 ** 53 - 1], [(2 ** 31 + 1, 2)], edge[::2], ["add", "sub", "max", "compare", "same", "mul"], 1, 2), ["Inv"]), {}),
            (("Inexact", c(1, [3], [], [(3, 2), (2, 1)], ["wrong"], 1, 1), ["Inv"]), {}),
            (("Inexact", c(2, [2], [(3, 4)], [r.choice([(1, 2), (3, 4), (-5, 2)])], ["add", "mul", "sub", "div", "max", "write"], 2, 2), ["Inv"]), {})]
    nb = len(jobs)
    n = 40 if ctx.quick else 1500
    for q in range(4):
        m = [20, 2 ** 12, 2 ** 20, 2 ** 29][q]
        jobs.append((("Inexact", c(3, [r.randrange(-m, m) for _ in range(8)] + [0, 1, 2, -1], [(r.randrange(-99, 99), r.choice([2, 3, 4, 5, 8])) for _ in range(6)],
                                   [(r.randrange(-m, m), r.choice([1, 1, 2, 4, 8, 16])) for _ in range(12)] + r.sample(edge, 6), ops + ["wrong"], 0, 4, sim=True), ["Inv"]), dict(sim=(n, 60), seed=ctx.seed * 31 + q)))
    res = paths.explore_many(ctx, jobs)
    for ps in res[:nb]:
        paths.replay(ctx, ps, PRE, gcs=(0,), limit=2500 if ctx.quick else None)
    paths.replay(ctx, sum(res[nb:], []), PRE, gcs=(0, 211))
