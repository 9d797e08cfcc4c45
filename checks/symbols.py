"""C28: symbols (Symbols.tla)."""
import paths

PRE = """(define (s . cs) (list->string (map integer->char cs)))
(define (codes str) (map char->integer (string->list str)))
(define (same . l)
  (map (lambda (a) (map (lambda (b) (let ((r (eq? a b))) (if (and (eq? r (eqv? a b)) (eq? r (equal? b a)) (eq? r (eq? b a))) (if r 1 0) 'disagree))) l)) l))
(define (index x l) (let lp ((l l) (i 1)) (cond ((null? l) 0) ((eq? x (car l)) i) (else (lp (cdr l) (+ i 1))))))
(define (found x l)
  (define n (length l))
  (define numbered (let lp ((l l) (i 1)) (if (null? l) '() (cons (cons (car l) i) (lp (cdr l) (+ i 1))))))
  (define (tab set ref) (let ((h (make-hash-table 5))) (for-each (lambda (p) (if (not (ref h (car p))) (set h (car p) (cdr p)))) numbered) (ref h x)))
  (define (pos t) (if t (+ 1 (- n (length t))) 0))
  (list (pos (memq x l)) (pos (memv x l)) (pos (member x l)) (cdr (assq x numbered)) (cdr (assv x numbered)) (cdr (assoc x numbered))
        (tab hashq-set! hashq-ref) (tab hashv-set! hashv-ref) (tab hash-set! hash-ref)))
(define (distinct l)
  (define (tab set) (let ((h (make-hash-table 2))) (for-each (lambda (y) (set h y 1)) l) (hash-fold (lambda (k v n) (+ n 1)) 0 h)))
  (list (tab hashq-set!) (tab hashv-set!) (tab hash-set!)))
(define kept (make-hash-table 9973))
(define (more n) (let lp ((n n)) (if (> n 0) (let ((g (gensym))) (hashq-set! kept g #t) (lp (- n 1))))))
(define (many n . l) (do ((n n (- n 400))) ((<= n 400) (more n)) (more 400))
  (list (hash-fold (lambda (k v n) (+ n 1)) 0 kept) (apply + (map (lambda (s) (if (hashq-ref kept s) 1 0)) l))))
(define-macro (the-name n) (list 'quote n))
"""
MAKE = ["many", "quote", "read", "intern", "trip", "append", "gensym", "carry", "mutate", "mutname"]
ASK = ["name", "case", "is", "search", "count", "text"]
TEXTS = ["a", "b", "A", "ab", "abc", "abd", "q", "set!", "a-b", "a->b", "<=?", "+", "-", "*", "/", "=", "lambda", "if", "define", "quote", "else", "car", "x1", "nil", "t", "unquote", "long-name-of-a-symbol-that-is-longer-than-others", "foo.bar", "$x", "_y", "%z", "a*b", "&c", "~d", "^e", "!f", "e1", "x/y", "g0", "g1", "g17", "g0_1"]


def C28(ctx):
    r = ctx.rng

    def c(n, codes, plain, ops, name, length, sim=False):
        return dict(NVar=n, Codes="{" + ", ".join(map(str, codes)) + "}",
                    Plain="{" + ", ".join(f"<<{paths.tla_str(t)}, <<{', '.join(str(ord(ch)) for ch in t)}>>>>" for t in plain) + "}",
                    Ops="{" + ", ".join(f'"{o}"' for o in ops) + "}", MaxName=name, MaxLen=length, Sim="TRUE" if sim else "FALSE")
    odd = [0, 10, 32, 34, 40, 41, 35, 59, 92, 124, 200, 255, 58, 46, 39]
    jobs = [(("Symbols", c(2, [97, r.choice(odd)], ["a", "ab"], MAKE + ["search", "name", "count"], 2, 2), ["Inv"]), {}),
            (("Symbols", c(2, [97, 66], r.sample(TEXTS, 4), ["quote", "read", "is", "case", "text", "search"], 60, 2), ["Inv"]), {}),
            (("Symbols", c(2, [97], TEXTS, ["quote", "read", "name", "many"], 60, 1), ["Inv"]), {})]
    nb = len(jobs)
    n = 30 if ctx.quick else 1000
    for q in range(6):
        codes = [[97, 98, 65] + odd, [97, 98, 99], [97, 0, 32], list(range(0, 256)), [97, 98], [97, 65, 48, 45]][q]
        ops = MAKE + ASK if q % 2 == 0 else ["intern", "many", "gensym", "mutname", "mutate", "trip", "append", "carry"] + ASK
        jobs.append((("Symbols", c(4 + q % 3, codes, TEXTS if q < 3 else ["a", "b", "aa", "ab", "A", "q"], ops, 50, 0, sim=True), ["Inv"]), dict(sim=(n, 60), seed=ctx.seed * 67 + q)))
    res = paths.explore_many(ctx, jobs)
    for ps in res[:nb]:
        paths.replay(ctx, ps, PRE, gcs=(0,), limit=2000 if ctx.quick else 60000)
    paths.replay(ctx, sum(res[nb:], []), PRE, gcs=(0, 101))
    ctx.assumptions.append("whether a gensym is eq? to the symbol made from its own name by string->symbol is not claimed")
