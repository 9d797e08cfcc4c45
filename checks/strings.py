"""C25: strings and characters (Strings.tla)."""
import paths

PRE = """(define (s . cs) (list->string (map integer->char cs)))
(define (codes str) (let lp ((i (- (string-length str) 1)) (l '())) (if (< i 0) l (lp (- i 1) (cons (char->integer (string-ref str i)) l)))))
(define (all . strs) (map codes strs))
(define (bad thunk) (catch #t (lambda () (thunk) 'no-error) (lambda (k . r) 'bad)))
"""
ALL = ["char", "range", "charcmp", "strcmp", "equal", "string", "literal", "make", "bare", "alias", "length", "ref", "set", "substring", "append", "list", "tolist", "sym", "name", "samesym", "tonumber", "fromnumber", "wide", "wide", "radix", "wrong"]
MUT = ["string", "make", "alias", "ref", "set", "substring", "append", "list", "sym", "name", "samesym", "strcmp", "equal"]


def ints(xs):
    return "{" + ", ".join(str(x) for x in xs) + "}"


def C25(ctx):
    r = ctx.rng

    def c(nvar, codes, ops, maxstr, length, radixes=(2, 8, 10, 16, 36), numbers=(0, 7, -35), sim=False):
        return dict(NVar=nvar, Codes=ints(codes), Ops="{" + ", ".join(f'"{o}"' for o in ops) + "}", MaxStr=maxstr, MaxLen=length, Radixes=ints(radixes), Numbers=ints(numbers), Sim="TRUE" if sim else "FALSE")
    letters, odd = [97, 65, 122, 90, 77, 109], [0, 10, 32, 200, 255, 128, 127, 95, 91, 96]
    jobs = [(("Strings", c(2, [r.choice(letters), r.choice(odd)], MUT, 2, 2), ["Inv"]), {}), (("Strings", c(1, [r.choice([98, 66]), 98], MUT, 3, 3), ["Inv"]), {}),
            # every operation, one step from a few strings
            (("Strings", c(1, list(range(0, 256)), ["char"], 1, 1), ["Inv"]), {}), (("Strings", c(1, [0, 48, 57, 64, 65, 90, 91, 96, 97, 122, 123, 127, 128, 255] + r.sample(range(256), 4), ["charcmp"], 1, 1), ["Inv"]), {}),
            (("Strings", c(1, [97], ["wrong", "range", "bare", "radix"], 1, 1), ["Inv"]), {}),
            (("Strings", c(1, [48, 49, 57, 97, 70, 45, 43, 32, 120], ["string", "tonumber"], 2, 2), ["Inv"]), {})]
    nums = sorted({0, 1, -1, 9, 10, 35, 36, -36, 255, 256, 2147483647, -2147483647} | {r.randrange(-10 ** 9, 10 ** 9) for _ in range(20)})
    jobs.append((("Strings", c(1, [97], ["fromnumber"], 40, 1, range(2, 37), nums), ["Inv"]), {}))
    jobs.append((("Strings", c(1, [97], ["wide"], 1, 1, sorted({2, 10, r.randrange(3, 37)})), ["Inv"]), {}))
    # every two short strings compared
    d = r.randrange(192, 224)
    for codes in ([0, 97, 98], [65, 97, 0], [d, d + 32, 97], [64, 96, 90], [r.choice(letters + [0]), r.randrange(128, 256), r.randrange(128)]):
        jobs.append((("Strings", c(2, codes, ["string", "strcmp"], 2, 3), ["Inv"]), {}))
    nb = len(jobs)
    n = 40 if ctx.quick else 800
    for q in range(8):
        codes = [letters + odd, letters, odd + [97], [48, 49, 50, 57, 45, 43, 97, 102, 70, 101, 46, 32, 120, 88], list(range(256)), [97, 65, 98, 66], [97, 0], letters + list(range(48, 58))][q]
        ops = ALL if q % 2 == 0 else ["strcmp", "strcmp", "string", "set", "append", "substring", "alias", "equal", "tonumber", "fromnumber", "sym", "name", "samesym"]
        jobs.append((("Strings", c(3, codes, ops, 60, 0, sim=True, numbers=nums), ["Inv"]), dict(sim=(n, 80), seed=ctx.seed * 53 + q)))
    res = paths.explore_many(ctx, jobs)
    for k, ps in enumerate(res[:nb]):
        paths.replay(ctx, ps, PRE, gcs=(0,), limit=(1500 if k < nb - 5 else 15000) if ctx.quick else None)
    paths.replay(ctx, sum(res[nb:], []), PRE, gcs=(0, 211))
    ctx.assumptions.append("the order, without case, of characters between Z and a; the float syntax of string->number; and the initial contents of (make-string n) are not claimed")
