"""C10: hash tables (HashTable.tla)."""
import paths

PRE = ("(define p1 (list 1 2))\n(define p2 (cons 'x 'y))\n(define s1 (string #\\a #\\b))\n(define v1 (vector 1 2))\n(define (f1) 1)\n"
       "(define q1 (let ((l (list 1 2))) l))\n(define alias p1)\n")


def tla(xs):
    return "{" + ", ".join("<<" + ", ".join(paths.tla_str(y) for y in x) + ">>" for x in xs) + "}"


def val(e, shown, tail=None):
    return (e, shown, tail if tail else f" . {shown})")


VALS = [val("1", "1"), val("'v", "v"), val("(list 5 6)", "(5 6)", " 5 6)"), val("'()", "()", ")"), val("#f", "#f"), val("(cons 1 2)", "(1 . 2)", " 1 . 2)"), val('"s"', '"s"'),
        val("(vector 1)", "#(1)")]
EQUAL = [("'a", "a", "a"), ("'b", "b", "b"), ("(string->symbol \"a\")", "a", "a"), ("1", "1", "1"), ("32", "32", "32"), ("-1", "-1", "-1"), ("63", "63", "63"), ("1000001", "1000001", "1000001"), ("0", "0", "0"), ("(- 3 2)", "1", "1"),
         ('"ab"', "sab", '"ab"'), ("(string #\\a #\\b)", "sab", '"ab"'), ('"a"', "sa", '"a"'), ('""', "s", '""'), ("(list 1 2)", "l12", "(1 2)"), ("p1", "l12", "(1 2)"), ("'(2 1)", "l21", "(2 1)"), ("'(1)", "l1", "(1)"),
         ("(list 1 (list 2))", "l1l2", "(1 (2))"), ("(list (list 1) 2)", "ll12", "((1) 2)"), ("'()", "nil", "()"), ("(cons 1 2)", "c12", "(1 . 2)"), ("(vector 1 2)", "v12", "#(1 2)"), ("v1", "v12", "#(1 2)"),
         ("(vector)", "v", "#()"), ("(vector 2 1)", "v21", "#(2 1)"), ("(list (vector 1 \"x\") 'q)", "lv", '(#(1 "x") q)'), ("#\\a", "ca", "#\\97"), ("#\\b", "cb", "#\\98"), ("#t", "t", "#t"), ("#f", "f", "#f"),
         ("1/2", "h", "1/2"), ("3/2", "h3", "3/2"), ("(/ 2 4)", "h", "1/2"), ("1.5", "fl", "~1.5"), ("(/ 3.0 2)", "fl", "~1.5"), ("(list 1.5 1/2)", "lfh", "(~1.5 1/2)"), ("(list \"ab\" #\\a 1)", "lm", '("ab" #\\97 1)'), ("'ba", "ba", "ba"), ("'ab", "ab", "ab"), ("'|| ", "", "") if False else ("'c", "c", "c"), ("'d", "d", "d"), ("94", "94", "94"), ("125", "125", "125")]
EQV = [("'a", "a", "a"), ("'b", "b", "b"), ("(string->symbol \"a\")", "a", "a"), ("1", "1", "1"), ("32", "32", "32"), ("-30", "-30", "-30"), ("(- 3 2)", "1", "1"), ("63", "63", "63"), ("0", "0", "0"), ("#\\a", "ca", "#\\97"), ("#\\b", "cb", "#\\98"), ("#t", "t", "#t"), ("#f", "f", "#f"),
       ("'()", "nil", "()"), ("p1", "p1", "(1 2)"), ("alias", "p1", "(1 2)"), ("q1", "q1", "(1 2)"), ("p2", "p2", "(x . y)"), ("(car (list p2))", "p2", "(x . y)"), ("(cdr p1)", "cp1", "(2)"), ("s1", "s1", '"ab"'), ("v1", "v1", "#(1 2)"), ("(vector-ref (vector v1) 0)", "v1", "#(1 2)"), ("f1", "f1", "#proc"),
       ("(let ((z f1)) z)", "f1", "#proc"), ("'c", "c", "c"), ("'d", "d", "d"), ("'e", "e", "e"), ("94", "94", "94"), ("1/2", "h", "1/2"), ("(/ 2 4)", "h", "1/2"), ("3/2", "h3", "3/2"), ("1.5", "fl", "~1.5"), ("(/ 3.0 2)", "fl", "~1.5")]
EQ = [k for k in EQV if not k[1].lstrip("-").isdigit() and not k[2].startswith("#\\") and k[1] not in ("h", "h3", "fl")]
SETS = {"hash": EQUAL, "hashv": EQV, "hashq": EQ}


def constants(kind, keys, vals, ntab, nhan, sizes, sim):
    return dict(Kind=f'"{kind}"', Keys=tla(keys), Vals=tla(vals), NTab=ntab, NHan=nhan, Sizes="{" + ", ".join(f'"{s}"' for s in sizes) + "}", Sim="TRUE" if sim else "FALSE")


def C10(ctx):
    r = ctx.rng
    jobs, sims = [], []
    for kind, pool in SETS.items():
        classes = sorted({k[1] for k in pool})
        two = r.sample(classes, 2)
        keys = [k for k in pool if k[1] in two][:4]
        jobs.append((("HashTable", constants(kind, keys, r.sample(VALS, 2), 1, 1, ["1"], False), ["Inv"]), {}))
        if not ctx.quick:
            three = r.sample(classes, 3)
            keys = [next(k for k in pool if k[1] == c) for c in three]
            jobs.append((("HashTable", constants(kind, keys, r.sample(VALS, 2), 2, 1, ["1", "2"], False), ["Inv"]), {}))
        n = 50 if ctx.quick else 1500
        for ntab, nhan, sizes, length in ((2, 2, ["", "1", "3"], 60), (1, 1, ["1"], 40), (2, 1, ["", "200"], 120)):
            sims.append((("HashTable", constants(kind, pool, VALS, ntab, nhan, sizes, True), ["Inv"]), dict(sim=(n, length))))
    res = paths.explore_many(ctx, jobs + sims)
    paths.replay(ctx, sum(res[:len(jobs)], []), PRE, limit=1500 if ctx.quick else 30000)
    paths.replay(ctx, sum(res[len(jobs):], []), PRE)
    ctx.assumptions.append("keys compared by eq? are symbols, booleans, () and shared objects: numbers and characters are not claimed to be eq?")
