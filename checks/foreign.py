"""C22: variable objects and foreign objects (Foreign.tla)."""
import paths

PRE = """(define (index v l i) (cond ((null? l) 0) ((eq? (car l) v) i) (else (index v (cdr l) (+ i 1)))))
(define (kinds v ts i) (cond ((null? ts) '()) ((%smob-is? v (car ts)) (cons i (kinds v (cdr ts) (+ i 1)))) (else (kinds v (cdr ts) (+ i 1)))))
(define (look1 v l ts)
  (cond ((scm-smob? v) (cons 's (append (%smob-get v) (kinds v ts 1))))
        ((variable? v) (if (variable-bound? v) (let ((c (variable-ref v))) (if (number? c) (list 'v 'n c) (list 'v (index c l 1)))) '(v)))
        ((eq? v (if #f #f)) 'none)
        (else v)))
(define (matrix f l) (map (lambda (a) (map (lambda (b) (if (f a b) 1 0)) l)) l))
(define (look ts . l) (list (map (lambda (v) (look1 v l ts)) l) (if (equal? (matrix eq? l) (matrix eqv? l)) (matrix eq? l) 'eq-and-eqv-differ) (matrix equal? l)))
(define (at n t) (if t (- (+ 1 n) (length t)) 0))
(define (printed f) (call-with-output-string f))
"""
MAKE = ["type", "make", "box", "undef", "num", "other", "copy", "set", "put", "take"]
ASK = ["bound", "kind", "data", "assert", "notype", "print", "apply", "search", "nested"]


def C22(ctx):
    r = ctx.rng

    def opt(eq, pr, ar):
        return f"[eq |-> {'TRUE' if eq else 'FALSE'}, pr |-> {'TRUE' if pr else 'FALSE'}, ar |-> {{{', '.join(map(str, ar))}}}]"

    def c(n, t, data, opts, ops, objs, length, sim=False):
        return dict(NVar=n, NType=t, Data="{" + ", ".join(map(str, data)) + "}", Options="{" + ", ".join(opts) + "}", Ops="{" + ", ".join(f'"{o}"' for o in ops) + "}",
                    MaxObj=objs, MaxLen=length, Sim="TRUE" if sim else "FALSE")
    plain, full = opt(0, 0, ()), opt(1, 1, (0, 1, 2, 3))
    jobs = [(("Foreign", c(2, 1, [0, 5], [plain], ["box", "undef", "num", "other", "put", "take", "bound", "kind", "copy"], 2, 3), ["Inv"], ["Mono"]), {}),
            (("Foreign", c(2, 2, [0, 3], [full], ["type", "make", "print", "assert", "search", "nested"], 2, 4), ["Inv"], ["Mono"]), {}),
            (("Foreign", c(1, 1, [0, 3], [opt(0, 0, s) for s in ((0,), (1,), (2,), (3,), (0, 2), (1, 3))], ["type", "make", "apply", "data", "notype", "set", "kind"], 2, 3), ["Inv"], ["Mono"]), {})]
    nb = len(jobs)
    n = 30 if ctx.quick else 1500
    every = [opt(e, p, a) for e in (0, 1) for p in (0, 1) for a in ((), (0,), (1,), (2,), (3,), (0, 1, 2, 3), (1, 3))]
    for q in range(6):
        data = [[0, 1, 2], [0, 5, -1, 1 << 30, -(1 << 30)], [7, 8]][q % 3]
        jobs.append((("Foreign", c(3 + q % 3, 5, data, every, MAKE + ASK + ["make", "make"], 60, 0, sim=True), ["Inv"], []), dict(sim=(n, 60), seed=ctx.seed * 73 + q)))
    res = paths.explore_many(ctx, jobs)
    for ps in res[:nb]:
        paths.replay(ctx, ps, PRE, gcs=(0,), limit=1500 if ctx.quick else 40000)
    paths.replay(ctx, sum(res[nb:], []), PRE, gcs=(0, 101))
    ctx.assumptions.append("what an unbound variable object, or a foreign object without a printer of its own whose data are a pointer, looks like when printed is not claimed; nor are foreign objects as map's or catch's procedure")
