"""C13: eq?, eqv?, equal? (Equiv.tla)."""
import paths

PRE = """(define (copy x) (cond ((pair? x) (cons (copy (car x)) (copy (cdr x)))) ((vector? x) (list->vector (map copy (vector->list x)))) ((string? x) (string-append x "")) (else x)))
(define (near x right y)
  (cond ((pair? x) (if right (cons (car x) (near (cdr x) right y)) (cons (near (car x) right y) (cdr x))))
        ((and (vector? x) (> (vector-length x) 0))
         (let ((v (list->vector (vector->list x))) (k (if right (- (vector-length x) 1) 0)))
           (vector-set! v k (near (vector-ref x k) right y)) v))
        (else y)))
(define (ask x y)
  (define (in table set ref) (set table y 'hit) (eq? 'hit (ref table x)))
  (list (eq? x y) (eqv? x y) (equal? x y)
        (if (memq x (list (list 1) y (list 1))) #t #f) (if (memv x (list (list 1) y)) #t #f) (if (member x (list '(zz . 1) y 'zz)) #t #f)
        (if (assq x (list (cons (list 1) 1) (cons y 2))) #t #f) (if (assv x (list (cons (list 1) 1) (cons y 2))) #t #f) (if (assoc x (list (cons '(zz) 1) (cons y 2))) #t #f)
        (in (make-hash-table 3) hashq-set! hashq-ref) (in (make-hash-table 3) hashv-set! hashv-ref) (in (make-hash-table 3) hash-set! hash-ref)))
(define (long n end) (let lp ((i 0) (l end)) (if (= i n) l (lp (+ i 1) (cons i l)))))
(define (deep n end) (let lp ((i 0) (l end)) (if (= i n) l (lp (+ i 1) (list l)))))
(define a-port (open-input-string "text"))
(define (a-proc x) x)
"""


def vals(xs):
    return "{" + ", ".join("<<" + ", ".join(paths.tla_str(y) for y in x) + ">>" for x in xs) + "}"


def strs(xs):
    return "{" + ", ".join(paths.tla_str(x) for x in xs) + "}"


VALUES = [("num", e, "n" + t) for e, t in [("1", "1"), ("0", "0"), ("-1", "-1"), ("(+ 1 0)", "1"), ("2", "2"), ("65", "65"), ("97", "97"), ("4294967297", "4294967297"), ("1/2", "1/2"), ("(/ 2 4)", "1/2"), ("-1/2", "-1/2"),
                                          ("3/2", "3/2"), ("1/3", "1/3"), ("2.5", "f2.5"), ("(+ 2.25 0.25)", "f2.5"), ("0.25", "f0.25"), ("-2.5", "f-2.5"), ("9007199254740993", "9007199254740993"), ("9007199254740992", "9007199254740992"),
                                          ("4611686018427387904", "4611686018427387904"), ("-4611686018427387904", "-4611686018427387904"), ("2/3", "2/3"), ("1000000/3", "1000000/3"), ("256", "256")]]
VALUES += [("char", e, "c" + t) for e, t in [("#\\a", "97"), ("#\\A", "65"), ("(integer->char 97)", "97"), ("#\\1", "49"), ("#\\space", "32"), ("(integer->char 0)", "0"), ("(integer->char 200)", "200")]]
VALUES += [("str", e, "s" + t) for e, t in [('"a"', "a"), ('"A"', "A"), ('""', ""), ("(string #\\a)", "a"), ('(symbol->string \'a)', "a"), ('"ab"', "ab"), ('(string-append "a" "b")', "ab"), ('(substring "xaby" 1 3)', "ab"), ('"1"', "1"),
                                          ("(string #\\a (integer->char 0) #\\b)", "a0b"), ("(string #\\a (integer->char 0) #\\c)", "a0c"), ("(make-string 0)", ""), ('"()"', "()")]]
VALUES += [("sym", e, "y" + t) for e, t in [("'a", "a"), ("'A", "A"), ('(string->symbol "a")', "a"), ("'ab", "ab"), ('(string->symbol "a b")', "a b"), ('(string->symbol "")', ""), ("'b", "b"), ('(string->symbol "1")', "1"), ("'nil", "nil")]]
VALUES += [("bool", "#t", "#t"), ("bool", "#f", "#f"), ("bool", "(not 1)", "#f"), ("nil", "'()", "()"), ("nil", "(list)", "()"), ("nil", "(cdr (list 1))", "()")]
VALUES += [("vec", "(vector)", "#()")]
VALUES += [("pair", e, t) for e, t in [("(long 300 '())", "long300()"), ("(long 300 'x)", "long300x"), ("(long 300 '(y))", "long300y"), ("(long 301 '())", "long301"), ("(deep 60 'x)", "deep60x"), ("(deep 60 'y)", "deep60y"), ("(deep 61 'x)", "deep61x")]]
OPAQUE = ["(lambda (x) x)", "(let ((z 1)) (lambda () z))", "(make-hash-table)", "(make-hash-table 1)", "(open-input-string \"\")", "(open-output-string)", "(delay 1)", "(call/cc (lambda (k) k))", "(gensym)", "(make-variable 1)",
          "(make-soft-port (vector #f #f #f #f #f) \"r\")"]
SHARED = ["car", "cdr", "map", "a-port", "a-proc", "apply", "call/cc", "(current-output-port)", "(current-module)", "(interaction-environment)" if False else "values"]


def C13(ctx):
    r = ctx.rng
    pool = [v for v in VALUES if v[0] != "vec" and v[0] != "pair"]

    def c(n, vs, op, sh, sim):
        return dict(NObj=n, Values=vals(vs), Opaque=strs(op), Shared=strs(sh), Sim="TRUE" if sim else "FALSE")
    jobs = []
    for k in range(2 if ctx.quick else 12):
        two = r.sample(pool, 2)
        jobs.append((("Equiv", c(3, two, r.sample(OPAQUE, 1), r.sample(SHARED, 1), False), ["Inv"]), {}))
    n = 60 if ctx.quick else 1500
    for q in range(6):
        # in a few of the runs the values are nearly all of one kind
        vs = VALUES if q < 3 else [v for v in VALUES if v[0] in [("num", "char"), ("str", "sym"), ("pair", "nil", "vec", "num")][q - 3]]
        k = [7, 9, 11, 9, 9, 9][q]
        jobs.append((("Equiv", c(k, vs, OPAQUE, SHARED, True), ["Inv"]), dict(sim=(n, k + k * k), seed=ctx.seed * 101 + q)))
    # every value with every other
    res = paths.explore_many(ctx, jobs)
    nb = len(jobs) - 6
    paths.replay(ctx, sum(res[:nb], []), PRE, gcs=(0,), limit=1200 if ctx.quick else 40000)
    paths.replay(ctx, sum(res[nb:], []), PRE, gcs=(0, 401))
    ctx.assumptions.append("whether eq? holds of equal numbers, characters or strings, eqv? of equal strings, and any of the three of an exact and an inexact number of the same value, is not claimed")
