"""Systematic program families: every combination of small parts, so that each
rule of the evaluator specification meets every position it can stand in.
What a program must do is never written here: Machine.tla says it."""
import itertools

# one-hole contexts of a computation giving an integer; (name, text with {} as the hole)
CONTEXTS = [
    ("top", "{}"),
    ("arg1", "(+ {} (emit 10))"),
    ("arg2", "(+ (emit 10) {})"),
    ("arg-mid", "(list-ref (list (emit 1) {} (emit 3)) 1)"),
    ("closure-arg", "((lambda (u v) (emit (list u v)) (+ u v)) (emit 4) {})"),
    ("closure-arg1", "((lambda (u v) (emit (list u v)) (+ u v)) {} (emit 4))"),
    ("rest-arg", "((lambda (u . v) (emit (list u v)) (+ u (apply + v))) {} (emit 4) (emit 5))"),
    ("body-last", "((lambda () (emit 'b0) {}))"),
    ("body-mid", "((lambda () (emit 'b0) (emit {}) (emit 'b1) 6))"),
    ("let-init", "(let ((u (emit 1)) (v {}) (t (emit 2))) (emit (list u v t)) (+ u v t))"),
    ("let-body", "(let ((u (emit 1))) (emit u) (+ u {}))"),
    ("let*-init", "(let* ((u (emit 1)) (v (+ u {})) (u (+ u v))) (emit (list u v)) u)"),
    ("letrec-body", "(letrec ((f (lambda (n) (if (<= n 0) {} (+ 1 (f (- n 1))))))) (f 2))"),
    ("named-let", "(let lp ((n 2) (acc 0)) (if (<= n 0) acc (lp (- n 1) (+ acc {}))))"),
    ("named-let-init", "(let lp ((n {}) (acc '())) (if (<= n 0) (length acc) (lp (- n 1) (cons n acc))))"),
    ("do-body", "(do ((n 0 (+ n 1)) (acc '() (cons n acc))) ((>= n 2) (emit acc) n) (emit {}))"),
    ("do-step", "(do ((n 0 (+ n 1)) (acc 0 (+ acc {}))) ((>= n 2) (emit acc) acc) (emit n))"),
    ("do-init", "(do ((n {} (+ n 1)) (acc '() (cons n acc))) ((>= n 3) (emit acc) n) (emit 'it))"),
    ("do-test", "(do ((n 0 (+ n 1))) ((>= (+ n {}) 3) (emit n) n) (emit n))"),
    ("do-result", "(do ((n 0 (+ n 1))) ((>= n 1) (emit n) {}) (emit 'it))"),
    ("if-test", "(if (emit (> {} 0)) (emit 11) (emit 12))"),
    ("if-then", "(if (emit #t) {} (emit 12))"),
    ("if-else", "(if #f (emit 11) {})"),
    ("cond-test", "(cond ((emit (> {} 100)) (emit 1)) ((emit 7)) (else (emit 2)))"),
    ("cond-body", "(cond (#f (emit 1)) ((emit #t) (emit 'c) {}) (else (emit 2)))"),
    ("cond-arrow", "(cond ({} => (lambda (t) (emit (list 'arrow t)) (+ t 1))) (else (emit 2)))"),
    ("case-key", "(case {} ((0 1 2) (emit 'low) 1) ((3 4 5) (emit 'mid) 2) (else (emit 'hi) 3))"),
    ("case-body", "(case 2 ((1) (emit 1)) ((2) (emit 'c) {}) (else (emit 3)))"),
    ("and", "(or (and (emit 1) {} (emit 3)) 8)"),
    ("and-last", "(and (emit 1) {})"),
    ("or-first", "(or {} (emit 9))"),
    ("or-last", "(or (emit #f) {})"),
    ("begin-mid", "(begin (emit 'p) (emit {}) (emit 'q) 5)"),
    ("set", "(let ((u 1)) (set! u (+ u {})) (emit u) u)"),
    ("define-in", "(let () (define u {}) (emit u) (+ u 1))"),
    ("apply-fn", "(apply (lambda (u . v) (emit (list u v)) (+ u (length v))) {} (list 1 2))"),
    ("apply-list", "(apply + (emit 1) (list 2 {}))"),
    ("map", "(apply + (map (lambda (u) (emit u) (+ u {})) (list 1 2 3)))"),
    ("map2", "(apply + (map (lambda (u v) (emit (list u v)) (+ u v {})) '(1 2) '(10 20 30)))"),
    ("for-each", "(let ((s 0)) (for-each (lambda (u) (set! s (+ s u {})) (emit s)) '(1 2)) s)"),
    ("cons-arg", "(let ((p (cons (emit 1) {}))) (emit p) (+ (car p) (cdr p)))"),
    ("vector-arg", "(let ((v (vector 1 {} (emit 3)))) (emit v) (vector-ref v 1))"),
    ("vector-set", "(let ((v (vector 1 2))) (vector-set! v 0 {}) (emit v) (vector-ref v 0))"),
    ("hash-set", "(let ((h (make-hash-table))) (hash-set! h 'k {}) (emit (hash-ref h 'k)) (hash-ref h 'k))"),
    ("quasi", "(apply + (emit `(1 ,{} ,@(list (emit 2) 3))))"),
    ("quasi-splice", "(length (emit `(1 ,@(list 4 {}) 5)))"),
    ("values", "(call-with-values (lambda () (values (emit 1) {})) (lambda (u v) (emit (list u v)) (+ u v)))"),
    ("receiver", "(call-with-values (lambda () (values 1 2)) (lambda (u v) (emit (list u v)) (+ u v {})))"),
    ("delay", "(let ((p (delay (begin (emit 'forced) {})))) (emit 'd) (+ (force p) (force p)))"),
    ("wind-body", "(dynamic-wind (lambda () (emit 'in)) (lambda () (emit 'body) {}) (lambda () (emit 'out)))"),
    ("wind2", "(dynamic-wind (lambda () (emit 'in1)) (lambda () (+ 1 (dynamic-wind (lambda () (emit 'in2)) (lambda () {}) "
              "(lambda () (emit 'out2))))) (lambda () (emit 'out1)))"),
    ("catch-body", "(catch 'k1 (lambda () (emit 'cb) (+ 1 {})) (lambda (key . r) (emit (list 'h1 key r)) 20))"),
    ("catch-handler", "(catch 'k9 (lambda () (throw 'k9 1)) (lambda (key . r) (emit (list 'h9 key r)) (+ 1 {})))"),
    ("callcc-body", "(call/cc (lambda (esc) (emit 'cc) (+ 1 {})))"),
    ("callcc-arg", "(+ 1 (call/cc (lambda (esc) (emit 'cc) (esc {}))))"),
    ("macro-arg", "(twice-m {} (emit 1))"),
    ("eval", "(+ 1 (eval '(begin (emit 'ev) 3) (current-module)) {})"),
    ("fold", "(let ((h (make-hash-table))) (hash-set! h 1 2) (hash-fold (lambda (k v s) (emit (list k v s)) (+ s {})) 0 h))"),
    ("inner-proc", "(let () (define (f u) (emit (list 'f u)) (+ u {})) (+ (f 1) (f 2)))"),
    ("tail-call", "(letrec ((ev? (lambda (n) (if (= n 0) {} (od? (- n 1))))) (od? (lambda (n) (if (= n 0) 0 (ev? (- n 1)))))) (ev? 2))"),
]
CONTEXTS = [c for c in CONTEXTS if c[0] != "eval"]
CTX = dict(CONTEXTS)

PRELUDE = ("(define fuel 0)\n(define gk #f)\n(define gv '())\n"
           "(define-macro (twice-m p q) (list 'let (list (list 'tm p)) (list '+ 'tm 'tm q)))\n")


def fill(ctxs, hole):
    t = hole
    for c in reversed(ctxs):
        t = CTX[c].replace("{}", t) if c in CTX else c.replace("{}", t)
    return t


def context_programs(hole, after, depth2=None, rng=None, limit=None):
    """The hole in every context, and (depth2) in pairs of contexts."""
    names = [c for c, _ in CONTEXTS]
    combos = [(n,) for n in names]
    pairs = [(a, b) for a in names for b in names if a != "top" and b != "top"]
    if depth2 is not None and rng is not None:
        pairs = rng.sample(pairs, min(depth2, len(pairs)))
    combos += pairs if depth2 != 0 else []
    out = []
    for cs in combos[:limit]:
        out.append(PRELUDE + after(fill(cs, hole)) + "\n")
    return out


# ---------------------------------------------------------------- C01
def scoping():
    """Binding forms nested two deep over the same name, with set!, capture and
    observation inside and outside."""
    B = [
        ("lambda", "((lambda (x) {}) 2)"), ("lambda-rest", "((lambda x (set! x (car x)) {}) 2 9)"),
        ("lambda-other", "((lambda (y) {}) 2)"), ("lambda2", "((lambda (y x) {}) x (+ x 5))"),
        ("let", "(let ((x (+ x 10))) {})"), ("let2", "(let ((y x) (x 3)) {})"), ("let-empty", "(let () {})"),
        ("let*", "(let* ((x (+ x 10)) (y x) (x (+ x y))) {})"), ("letrec", "(letrec ((x 4) (y 6)) {})"),
        ("letrec-f", "(letrec ((y (lambda (n) (if (<= n 0) x (y (- n 1))))) (x 8)) (emit (y 1)) {})"),
        ("nlet", "(let x ((y 2)) (if (> y 0) (x (- y 1)) (let ((x y)) {})))"),
        ("nlet-var", "(let lp ((x 2) (n 0)) (emit x) (if (> x 1) (lp (- x 1) (+ n 1)) (begin {})))"),
        ("do", "(do ((x 0 (+ x 1)) (y '() (cons x y))) ((>= x 2) (emit y) {}) (emit x))"),
        ("do-body", "(let ((r 0)) (do ((x 5 (+ x 1))) ((>= x 7) r) (set! r (begin {}))))"),
        ("do-nostep", "(do ((x 7) (n 0 (+ n 1))) ((>= n 2) x) (emit (begin {})))"),
        ("define", "(let () (define x 5) {})"), ("define-proc", "(let () (define (x) 12) (set! x (x)) {})"),
        ("define-late", "((lambda (y) (emit y) (define x (+ y 1)) {}) 20)"),
        ("define-param", "((lambda (x) (define x (+ x 30)) {}) 1)"),
        ("catch", "(catch #t (lambda () {}) (lambda (x . r) (emit x) 0))"),
        ("handler", "(catch 'q (lambda () (throw 'q 3)) (lambda (y x) {}))"),
        ("map", "(car (map (lambda (x) {}) '(6)))"), ("cwv", "(call-with-values (lambda () (values 6 7)) (lambda (x y) {}))"),
        ("begin", "(begin {})"),
    ]
    OPS = [
        "(begin (emit x) x)", "(begin (set! x (+ x 1)) (emit x) x)",
        "(begin (set! gp (cons (lambda () x) gp)) (set! gs (cons (lambda (v) (set! x v)) gs)) (emit x) x)",
        "(let ((f (lambda () (set! x (+ x 100)) x))) (emit (f)) (emit x) (f))",
        "(begin (emit (getx)) (setx 77) (emit (getx)) (emit x) x)",
        "(begin (emit ((lambda (n) (+ n x)) (let ((x 1000)) x))) x)",
    ]
    out = []
    pro = ("(define x 1)\n(define y -1)\n(define gp '())\n(define gs '())\n(define (getx) x)\n(define (setx v) (set! x v))\n")
    epi = ("\n(emit x)\n(for-each (lambda (s) (s 500)) gs)\n(emit (map (lambda (g) (g)) gp))\n(if (pair? gs) ((car gs) 600))\n"
           "(emit (map (lambda (g) (g)) gp))\n(emit x)\n(emit (getx))\n")
    for (a, ta), (b, tb) in itertools.product(B, B):
        for o in OPS:
            out.append(pro + "(emit " + ta.replace("{}", "(emit x) " + "(let ((r " + tb.replace("{}", o) + ")) (emit x) r)") + ")" + epi)
    for f in [
        "(define (mk) (let ((n 0)) (lambda () (set! n (+ n 1)) n)))\n(define a (mk))\n(define b (mk))\n(emit (list (a) (a) (b) (a) (b)))\n",
        "(define (mk n) (cons (lambda () n) (lambda (v) (set! n v))))\n(define a (mk 1))\n(define b (mk 2))\n((cdr a) 10)\n"
        "(emit (list ((car a)) ((car b))))\n",
        "(define fs '())\n(do ((i 0 (+ i 1))) ((= i 3)) (set! fs (cons (lambda () i) fs)))\n(emit (map (lambda (f) (f)) fs))\n",
        "(define fs '())\n(do ((i 0 (+ i 1))) ((= i 3)) (set! fs (cons (lambda () (set! i (+ i 10)) i) fs)) (emit i))\n"
        "(emit (map (lambda (f) (f)) fs))\n(emit (map (lambda (f) (f)) fs))\n",
        "(define fs '())\n(for-each (lambda (i) (set! fs (cons (lambda () (set! i (+ i 1)) i) fs))) '(1 2 3))\n"
        "(emit (map (lambda (f) (f)) fs))\n(emit (map (lambda (f) (f)) fs))\n",
        "(define (f n) (define (ev? n) (if (= n 0) #t (od? (- n 1)))) (define (od? n) (if (= n 0) #f (ev? (- n 1)))) (ev? n))\n"
        "(emit (list (f 4) (f 3)))\n",
        "(define (f n) (if (= n 0) '() (cons (lambda () n) (f (- n 1)))))\n(emit (map (lambda (g) (g)) (f 3)))\n",
        "(define (f x) (define y (* x 2)) (define (g z) (+ x y z)) (set! x 100) (g 1))\n(emit (f 5))\n(emit (f 6))\n",
        "(define x 1)\n(define (f) x)\n(define (g x) (f))\n(emit (g 5))\n(define x 2)\n(emit (g 5))\n(let ((x 3)) (emit (f)))\n",
        "(define (f list) (list 1 2))\n(emit (f +))\n(emit (list 1 2))\n",
        "(define (f car) (car '(1 2)))\n(emit (f cdr))\n(emit (car '(1 2)))\n",
        "(define old car)\n(set! car cdr)\n(emit (car '(1 2)))\n(set! car old)\n(emit (car '(1 2)))\n",
        "(define (f) (define a 1) (define b (+ a 1)) (set! a 10) (list a b))\n(emit (f))\n(emit (f))\n",
        "(define (f a) (lambda (b) (lambda (c) (set! a (+ a b c)) a)))\n(define g (f 1))\n(define h (g 10))\n(emit (h 100))\n(emit ((g 20) 100))\n"
        "(emit (h 100))\n",
        "(define a 1)\n(define (f) (set! a (+ a 1)) (let ((a 5)) (set! a (+ a 1)) (emit a)) a)\n(emit (f))\n(emit a)\n",
        "(define (f . a) (set! a (cons 0 a)) a)\n(emit (f 1 2))\n(emit (f))\n(define l '(7 8))\n(emit (apply f l))\n(emit l)\n",
        "(define (f . a) (set-car! a 99) a)\n(define l (list 1 2))\n(emit (apply f l))\n(emit l)\n",
        "(let loop ((i 0)) (let ((loop 5)) (emit (+ i loop))) (if (< i 2) (loop (+ i 1))))\n",
        "(define (tree n) (if (= n 0) (lambda (d) (emit d) d) (let ((l (tree (- n 1))) (r (tree (- n 1)))) (lambda (d) (+ (l (+ d n)) (r (- d n)))))))\n"
        "(emit ((tree 3) 0))\n",
        "(define k #f)\n(define (f) (let ((n 0)) (call/cc (lambda (c) (set! k c))) (set! n (+ n 1)) n))\n(define c 0)\n(emit (f))\n(set! c (+ c 1))\n"
        "(if (< c 4) (k 0))\n(emit 'end)\n",
        "(define (f x) (if (> x 0) (begin (define y x) (emit y) (+ y (f (- x 1)))) 0))\n(emit (f 3))\n",
        # names of built-in procedures
        "(define (f) (car '(1 2)))\n(define old car)\n(define (car x) (emit 'mine) (old (cdr x)))\n(emit (f))\n(emit (car '(3 4)))\n(define (car x) 'again)\n(emit (f))\n(set! car old)\n(emit (f))\n"
        "(define car 5)\n(emit car)\n(emit (+ car 1))\n(f)\n(emit 'next)\n(define car old)\n(emit (f))\n",
        "(define (f . l) (list 'f l))\n(set! list (lambda l (emit 'list) l))\n(emit (f 1))\n(let ((list cons)) (emit (list 1 2)) (emit (f 2)) (set! list +) (emit (list 1 2)))\n(emit (list 3))\n(define list 7)\n(emit list)\n(f 3)\n(emit 'after)\n",
        "(define (g x) (define (cdr y) (emit 'inner) y) (cdr x))\n(emit (g '(1 2)))\n(emit (cdr '(1 2)))\n(define (h cdr) (set! cdr (cons 0 cdr)) cdr)\n(emit (h '(1)))\n(emit (cdr '(1 2)))\n"
        "(define cdr (let ((old cdr)) (lambda (x) (emit 'outer) (old x))))\n(emit (g '(1 2)))\n(emit (cdr '(1 2)))\n(emit (h '(1)))\n",
        "(define + -)\n(emit (+ 5 3))\n(emit (apply + '(5 3)))\n(emit (map + '(1 2) '(3 4)))\n(define (- a) (list 'neg a))\n(emit (+ 5 3))\n(emit (- 5))\n(catch #t (lambda () (emit (- 5 3))) (lambda (k . r) (emit 'caught)))\n(set! - +)\n(emit (- 5 3))\n",
        "(let ((vector list) (list vector)) (emit (list 1 2)) (emit (vector 1 2)) (set! list vector) (emit (list 3)))\n(emit (list 1 2))\n(emit (vector 1 2))\n",
        "(define null? pair?)\n(define (len l) (if (null? l) (+ 1 (len (cdr l))) 0))\n(emit (len '(1 2 3)))\n(define (null? x) (not (pair? x)))\n(emit (len '(1 2 3)))\n(set! null? (lambda (x) #t))\n(emit (null? 1))\n",
        "(define r '())\n(define (f x) (let* ((g (lambda () x)) (x (+ x 1)) (h (lambda () x))) (set! r (list (g) (h))) (set! x 50) (list (g) (h))))\n"
        "(emit (f 1))\n(emit r)\n",
    ]:
        out.append(f)
    return out


# ---------------------------------------------------------------- C02
def control():
    out = []
    T = ["(emit #f)", "(emit 1)", "(emit '())", "(emit 0)", "(emit \"\")", "(begin (emit 'u) (if #f #f))", "(emit (vector))", "(emit #\\nul)"]
    one = lambda e: "(emit (list 'r " + e + "))\n"
    for n in range(0, 4):
        for ts in itertools.product(T[:2] if n == 3 else T, repeat=n):
            out.append(one("(and " + " ".join(ts) + ")") + one("(or " + " ".join(ts) + ")") + one("(begin (emit 'x) (and " + " ".join(ts) + "))"))
    for t in T:
        out.append(one(f"(if {t} (emit 'a) (emit 'b))") + one(f"(not (if {t} (emit #f) (emit 4)))"))
        out.append(f"(if {t} (emit 'only))\n(emit 'next)\n")
    CL = ["({t} (emit 'b{i}) (emit {i}))", "({t})", "({t} => (lambda (v) (emit (list 'got v)) {i}))", "({t} (emit {i}))"]
    for n in (1, 2, 3):
        for cs in itertools.product(CL if n < 3 else CL[:3], repeat=n):
            for vals in itertools.product(["#f", "'t", "0"] if n < 3 else ["#f", "5"], repeat=n):
                body = " ".join(c.format(t=f"(begin (emit 'test{i}) {v})", i=i) for i, (c, v) in enumerate(zip(cs, vals)))
                out.append(one(f"(cond {body} (else (emit 'e1) (emit 'else)))") + f"(emit 'sep)\n(cond {body})\n(emit 'end)\n")
    # => is a variable there, and is not
    for b in ["(let ((=> 'arrow)) {})", "((lambda (=>) {}) (lambda (x) (emit 'called) x))", "(let () (define => 3) {})", "(let loop ((=> 1)) {})", "(let ((x 1)) (do ((=> 0 (+ => 1))) ((= => 1) {})))", "(begin {})",
              "(let ((=> 1)) (let ((x 2)) (lambda () =>) {}))", "(let ((f (lambda (=>) =>))) {})"]:
        for c in ["(cond ((emit #f) => list) ((emit 1) => list) (else 2))", "(cond ((emit 1) =>))", "(cond ((emit 5) => (lambda (v) (emit (list 'got v)) 7)))", "(cond ((emit #f) => car))",
                  "(cond ((emit 1) (emit 2) =>))", "(cond ((emit #f)) (else (cond ((emit '(4)) => car))))", "(cond ((assv 2 '((1 . 2) (2 . 3))) => cdr) (else 'no))"]:
            if ("=>))" in c or "(emit 2) =>" in c) and b in ("(begin {})", "(let ((f (lambda (=>) =>))) {})"):
                continue
            out.append(f"(emit (list 'r (let ((r {b.replace('{}', c)})) (if (procedure? r) 'p r))))\n(emit 'end)\n")
    KEYS = ["1", "'a", "#\\a", "#t", "'()", "2", "-7", "'b", "#f", "12345678", "(+ 1 1)", "(string->symbol \"a\")", "'(1)", "(list 'a 2)", "(cons 1 '())", "(car '((1)))"]
    for k in KEYS:
        out.append(one(f"(case (begin (emit 'key) {k}) ((1 a) (emit 'm1) 'first) ((#\\a #t 2) 'second) ((()) 'nil) ((-7 b 12345678) (emit 'x) 'third) (((1) (a 2)) (emit 'shape) 'fourth) (else (emit 'e) 'other))")
                   + one(f"(case {k} ((a b) 1) ((1 2) 2))") + one(f"(case {k} ((1 1) 'dup) ((1 a) 'later) (else 'no))")
                   + one(f"(case {k} (else 'only))") + one(f"(case {k} (() 'never) ((b) 'b) (else 'rest))"))
    for init, step, test in itertools.product(["0", "(begin (emit 'init) 1)"], ["(+ i 1)", "(begin (emit (list 'step i j)) (+ i 1))"],
                                              ["(>= i 3)", "(begin (emit (list 'test i)) (> i 2))"]):
        for res in ["", "(emit (list 'res i j)) j", "i"]:
            for bod in ["", "(emit (list 'body i j))", "(emit 'b1) (set! j (+ j 1)) (emit j)"]:
                out.append(one(f"(let ((r (do ((i {init} {step}) (j 10 (+ i j)) (k 5)) ({test} {res}) {bod}))) {'r' if res else 0})"))
    out.append("(define i 99)\n(emit (do ((i 0 (+ i 1)) (acc '() (cons i acc))) ((= i 4) acc)))\n(emit i)\n")
    out.append("(emit (do ((i 0 (+ i 1)) (j 0 i)) ((= i 4) (list i j))))\n")
    out.append("(emit (do ((v (vector 0 0 0)) (i 0 (+ i 1))) ((= i 3) v) (vector-set! v i (do ((j 0 (+ j 1)) (s 0 (+ s i))) ((= j 3) s)))))\n")
    out.append("(emit (do () (#t 5)))\n(emit (let ((n 0)) (do () ((> n 2) n) (set! n (+ n 1)))))\n")
    for bodyn in range(1, 4):
        es = " ".join(f"(emit {i})" for i in range(bodyn))
        out.append(one(f"((lambda () {es}))") + one(f"(let () {es})") + one(f"(let ((x 1)) {es})") + one(f"(let* ((x 1) (y 2)) {es})") +
                   one(f"(letrec ((x 1)) {es})") + one(f"(begin {es})") + one(f"(let lp ((n 1)) {es})") +
                   f"(define (f) {es})\n" + one("(f)") + one(f"(cond (#t {es}))") + one(f"(case 1 ((1) {es}))") +
                   one(f"(do ((i 0 (+ i 1))) ((= i 1) {es}) {es})"))
    return out


# ---------------------------------------------------------------- C03
def calls():
    out = []
    DATA = ["'(car 5)", "'sym", "'(emit 1)", "(list 'quote 'a)", "''a", "'(1 . 2)", "(emit 7)", "'()", "car", "(lambda (q) q)", "\"s\"", "'x"]
    PAR = ["()", "(a)", "(a b)", "(a b c)", "r", "(a . r)", "(a b . r)"]
    names = {"()": "'none", "(a)": "(list a)", "(a b)": "(list a b)", "(a b c)": "(list a b c)", "r": "r", "(a . r)": "(list a r)", "(a b . r)": "(list a b r)"}
    pro = "(define x 'wrong)\n(define y 'wrong2)\n"
    for p in PAR:
        for n in range(0, 5):
            args = " ".join(f"(emit {i})" for i in range(n))
            lst = "(list " + args + ")"
            body = f"(begin (emit 'in) {names[p]})"
            guard = lambda e: f"(emit (catch #t (lambda () {e}) (lambda (k . r) (list 'err k))))\n"
            out.append(guard(f"((lambda {p} {body}) {args})") + guard(f"(apply (lambda {p} {body}) {lst})") +
                       (guard(f"(apply (lambda {p} {body}) (emit 0) '({' '.join(str(i) for i in range(1, n))}))") if n else "") +
                       f"(define (f . args) (apply (lambda {p} {body}) args))\n" + guard(f"(f {args})") +
                       (f"(define (g {p[1:]} {body})\n" if p[0] == "(" else f"(define (g . {p}) {body})\n") + guard(f"(g {args})") +
                       guard(f"(call-with-values (lambda () (values {args})) g)") +
                       guard(f"(let ((h g)) (h {args}))") + "(emit 'after)\n")
    for p in ["(a b)", "r", "(a . r)"]:
        for d1, d2 in itertools.product(DATA, DATA):
            body = f"(begin (emit 'in) {names[p]})"
            out.append(pro + f"(emit ((lambda {p} {body}) {d1} {d2}))\n(emit (apply (lambda {p} {body}) (list {d1} {d2})))\n"
                       f"(emit (apply (lambda {p} {body}) {d1} (list {d2})))\n"
                       f"(emit (map (lambda {p} {body}) (list {d1} {d2}) (list {d2} {d1})))\n"
                       f"(for-each (lambda {p} (emit {names[p]})) (list {d1}) (list {d2}))\n"
                       f"(emit (call-with-values (lambda () (values {d1} {d2})) (lambda {p} {body})))\n"
                       f"(emit (apply list (list {d1} {d2})))\n(emit (map list (list {d1} {d2})))\n(emit (apply apply list (list {d1} (list {d2}))))\n")
    # map and for-each over lists of all shapes: the first that ends, properly or not, decides
    SHAPES = ["'()", "'(1)", "'(1 2)", "'(1 2 3)", "'(1 . 2)", "'(1 2 . 3)", "(cons 1 (cons 2 'x))", "5", "'sym", "(vector 1 2)", "(list 1 (list 2) '())"]
    g = lambda e: f"(emit (catch #t (lambda () {e}) (lambda (k . r) (list 'err k))))\n"
    for f in ["(lambda (x) (emit x) (list x))", "list", "(lambda x (emit x) x)"]:
        for a in SHAPES:
            out.append("".join(g(f"({w} {f} {a})") for w in ["map", "map-in-order"]) + f"(emit (catch #t (lambda () (for-each {f} {a}) 'done) (lambda (k . r) (list 'err k))))\n" + g(f"(apply map {f} (list {a}))"))
    for a, b in itertools.product(SHAPES, SHAPES):
        out.append(g(f"(map (lambda x (emit x) x) {a} {b})") + f"(emit (catch #t (lambda () (for-each (lambda (x y) (emit x) (emit y)) {a} {b}) 'done) (lambda (k . r) (list 'err k))))\n")
    # arity of builtins, through every way of calling
    for f, ok in [("car", 1), ("cons", 2), ("vector-set!", 3), ("set-car!", 2), ("hash-ref", 2), ("list-tail", 2), ("eq?", 2), ("not", 1), ("quotient", 2),
                  ("vector-ref", 2), ("null?", 1), ("abs", 1), ("length", 1), ("acons", 3), ("modulo", 2)]:
        for n in range(0, 5):
            if n == ok:
                continue
            args = " ".join(["(emit 1)", "(emit 2)", "(emit 3)", "(emit 4)"][:n])
            g = lambda e: f"(emit (catch #t (lambda () {e}) (lambda (k . r) (list 'err k))))\n"
            out.append(g(f"({f} {args})") + g(f"(apply {f} (list {args}))") + g(f"(let ((h {f})) (h {args}))") + (g(f"(map {f} '(1) " + "'(2) " * (n - 1) + ")") if n else ""))
    # order, nesting, recursion in operands, change of operands while they are evaluated
    out += [
        "(define (f a b c) (emit (list a b c)) (+ a b c))\n(emit (f (f (emit 1) (emit 2) (emit 3)) (emit 4) (f (emit 5) (emit 6) (emit 7))))\n",
        "(define (fib n) (if (< n 2) n (+ (fib (- n 1)) (fib (- n 2)))))\n(emit (fib 8))\n",
        "(define n 0)\n(define (tick) (set! n (+ n 1)) n)\n(emit (list (tick) (tick) (tick)))\n(emit (- (tick) (tick)))\n(emit (vector (tick) (list (tick)) (tick)))\n",
        "(define (f . r) r)\n(define a (f 1 2))\n(define b (f 1 2))\n(set-car! a 9)\n(emit (list a b (eq? a b)))\n",
        "(define l (list 1 2 3))\n(define (f . r) (set-car! r 100) (set-cdr! (cdr r) '()) r)\n(emit (apply f l))\n(emit l)\n(emit (apply f 0 l))\n(emit l)\n",
        "(define x 1)\n(define (set x2) (set! x x2) x2)\n(emit (list x (set 2) x (set 3) x))\n(emit (+ x (begin (set! x 10) x) x))\n",
        "(define f (lambda (a) (list 'one a)))\n(emit (f (begin (set! f (lambda (a) (list 'two a))) 5)))\n(emit (f 6))\n",
        "(emit ((begin (emit 'op) +) (emit 1) (emit 2)))\n(emit ((if (emit #t) list vector) (emit 1) (emit 2)))\n",
        "(emit (catch #t (lambda () ((emit 5) (emit 1))) (lambda (k . r) k)))\n(emit (catch #t (lambda () ((emit \"s\") (emit 1))) (lambda (k . r) k)))\n",
        "(emit (map (lambda (a b) (emit (list a b)) (+ a b)) '(1 2 3) '(10 20)))\n(emit (map + '(1 2) '(10 20 30) '(100 200)))\n(emit (map list '() '(1)))\n",
        "(emit (map (lambda (f) (f 10)) (list (lambda (n) (+ n 1)) - abs)))\n(emit (map (lambda l l) '(1 2) '(3 4)))\n(emit (map car '((1) (2) (3))))\n",
        "(emit (map-in-order (lambda (a) (emit a) (* a a)) '(3 1 2)))\n(for-each (lambda (a b c) (emit (list a b c))) '(1 2) '(3 4) '(5 6))\n(for-each emit '())\n(for-each emit '(1))\n",
        "(define l (list 1 2 3))\n(emit (map (lambda (a) (set-car! l 50) a) l))\n(emit l)\n",
        "(define (f a #!default) a)\n(emit 'x)\n" if False else "(emit (apply + 1 2 '(3 4)))\n(emit (apply + '()))\n(emit (apply apply (list + (list 1 2))))\n(emit (apply map (list list '(1 2) '(3 4))))\n",
        "(define (count . r) (if (null? r) 0 (+ 1 (apply count (cdr r)))))\n(emit (count 'a '(b) \"c\" #\\d 5))\n",
        "(define (compose . fs) (if (null? fs) (lambda (x) x) (lambda (x) ((car fs) ((apply compose (cdr fs)) x)))))\n(emit ((compose (lambda (x) (* x 2)) (lambda (x) (+ x 1)) abs) -5))\n",
        "(define (f a) (emit a) (if (> a 0) (f (- a 1)) 'done))\n(emit (f 3))\n(define g f)\n(define (f a) (list 'new a))\n(emit (g 1))\n",
        "(emit (let ((+ -)) (+ 5 3)))\n(emit (let ((f list)) (f 1 (let ((f vector)) (f 2)) 3)))\n",
        "(define lst '())\n(define (rec n) (set! lst (cons n lst)) (if (> n 0) (rec (- n 1))) (set! lst (cons (- n) lst)) n)\n(emit (rec 3))\n(emit lst)\n",
    ]
    return out


# ---------------------------------------------------------------- C04
def continuations(rng, pairs, thorough=False):
    """A continuation captured in every context (and pairs), called again from
    later toplevel forms, from inside, and from elsewhere."""
    cap = "(call/cc (lambda (c) (set! gk c) (emit 'cap) 1))"
    out = []

    def again(text):
        return ("(define cnt 0)\n(define keep (list 0))\n(emit (list 'r " + text + "))\n"
                "(set! cnt (+ cnt 1))\n(set-car! keep (+ (car keep) 1))\n(emit (list cnt keep))\n(if (< cnt 3) (gk (+ cnt 1)))\n(emit 'end)\n")

    def nested(text):
        return ("(define cnt 0)\n(define (use) (set! cnt (+ cnt 1)) (if (< cnt 3) (let ((z (vector 1 2))) (emit z) (+ 1 (gk (+ 10 cnt)))) 'stop))\n"
                "(emit (let ((r " + text + ")) (emit (list 'r r)) (list (use) r)))\n(emit 'end)\n")

    def from_map(text):
        return ("(define cnt 0)\n(define (go) " + text + ")\n(emit (list 'r (go)))\n(set! cnt (+ cnt 1))\n"
                "(if (< cnt 3) (map (lambda (q) (emit q) (catch #t (lambda () (dynamic-wind (lambda () (emit 'gin)) (lambda () (gk q)) (lambda () (emit 'gout)))) "
                "(lambda (k . r) (emit 'no)))) '(5 6)))\n(emit 'end)\n")
    out += context_programs(cap, again, pairs, rng)
    out += context_programs(cap, nested, pairs, rng)
    out += context_programs(cap, from_map, pairs // 3 if pairs is not None else None, rng)
    # escaping from every context
    esc = "(begin (emit 'go) (if (> fuel 0) 1 (esc-k 42)))"
    out += context_programs(esc, lambda t: "(define esc-k #f)\n(define (go) " + t + ")\n(emit (list 'r (call/cc (lambda (c) (set! esc-k c) (list 'in (go))))))\n"
                            "(set! fuel 1)\n(emit (go))\n", pairs // 3 if pairs is not None else None, rng)
    out += [
        # generators, coroutines, trees
        "(define (tree->gen t) (define return #f) (define (walk t) (cond ((null? t) 'skip) ((pair? t) (walk (car t)) (walk (cdr t))) "
        "(else (call/cc (lambda (next) (set! resume (lambda () (next 'go))) (return t)))))) (define resume (lambda () (walk t) (return 'done))) "
        "(lambda () (call/cc (lambda (r) (set! return r) (resume)))))\n(define g (tree->gen '((1 2) (3 (4)))))\n"
        "(emit (g))\n(emit (g))\n(emit (g))\n(emit (g))\n(emit (g))\n(emit (g))\n",
        "(define q '())\n(define (enq t) (set! q (append q (list t))))\n(define (deq) (let ((t (car q))) (set! q (cdr q)) (t 'go)))\n"
        "(define (yield) (call/cc (lambda (k) (enq k) (deq))))\n(define (spawn id n) (enq (lambda (x) (let loop ((i 0)) (if (< i n) (begin (emit (list id i)) (yield) (loop (+ i 1))))) "
        "(if (null? q) (done 'all) (deq)))))\n(define done #f)\n(spawn 'a 2)\n(spawn 'b 3)\n(spawn 'c 1)\n(emit (call/cc (lambda (k) (set! done k) (deq))))\n",
        "(define r '())\n(define k #f)\n(set! r (cons (+ 1 (call/cc (lambda (c) (set! k c) 1))) r))\n(emit r)\n(if (< (length r) 4) (k (length r)))\n(emit 'end)\n",
        "(define k1 #f)\n(define k2 #f)\n(define n 0)\n(emit (list (call/cc (lambda (c) (set! k1 c) 'a)) (call/cc (lambda (c) (set! k2 c) 'b))))\n"
        "(set! n (+ n 1))\n(cond ((= n 1) (k1 'c)) ((= n 2) (k2 'd)) ((= n 3) (k1 'e)))\n(emit n)\n",
        "(define k #f)\n(define n 0)\n(define (f x) (if (= x 0) (call/cc (lambda (c) (set! k c) 0)) (+ x (f (- x 1)))))\n(emit (f 10))\n(set! n (+ n 1))\n(if (< n 4) (k (* n 100)))\n(emit n)\n",
        "(define v (vector 1 2 3))\n(define h (make-hash-table))\n(define p (list 1 2))\n(define k #f)\n(define n 0)\n"
        "(let ((loc 0)) (call/cc (lambda (c) (set! k c))) (set! n (+ n 1)) (set! loc (+ loc 1)) (vector-set! v 0 (+ (vector-ref v 0) 1)) (hash-set! h 'n n) "
        "(set-cdr! p (cons n (cdr p))) (emit (list loc v (hash-ref h 'n) p n)))\n(if (< n 3) (k 'again))\n(emit (list v p n))\n",
        "(define k #f)\n(define n 0)\n(emit (map (lambda (x) (call/cc (lambda (c) (if (= x 2) (set! k c)) x))) '(1 2 3)))\n(set! n (+ n 1))\n(if (< n 3) (k (* n 10)))\n",
        "(define ks '())\n(define n 0)\n(emit (let loop ((i 0)) (if (= i 3) '() (cons (call/cc (lambda (c) (set! ks (cons c ks)) i)) (loop (+ i 1))))))\n(set! n (+ n 1))\n"
        "(if (< n 4) (let ((k (list-ref ks (- n 1)))) (k (* n 100))))\n(emit (length ks))\n",
        "(define (f return) (for-each (lambda (x) (if (negative? x) (return x))) '(1 -2 3)) 'none)\n(emit (call/cc f))\n(emit (f (lambda (x) (list 'neg x))))\n",
        "(emit (call/cc (lambda (k) (k 1 2) 3) ))\n" if False else "(emit (call-with-values (lambda () (call/cc (lambda (k) (k 1 2) 3))) list))\n",
        "(emit (+ 1 (call/cc (lambda (k1) (+ 10 (call/cc (lambda (k2) (k1 (k2 5)))))))))\n(emit (call/cc procedure?))\n(emit (call/cc (lambda (k) (call/cc k))) )\n" if False else
        "(emit (+ 1 (call/cc (lambda (k1) (+ 10 (call/cc (lambda (k2) (k1 (k2 5)))))))))\n(emit (call/cc procedure?))\n",
        "(define r #f)\n(define n 0)\n(define (gen) (let ((x (call/cc (lambda (k) k)))) (if (procedure? x) (begin (set! r x) 'first) (list 'second x))))\n(emit (gen))\n"
        "(set! n (+ n 1))\n(if (< n 3) (r n))\n(emit n)\n",
        "(define k #f)\n(define n 0)\n(define x (call/cc (lambda (c) (set! k c) 1)))\n(emit x)\n(set! n (+ n 1))\n(if (< n 3) (k (list n 'new)))\n(emit x)\n",
        "(define k #f)\n(define n 0)\n(define x 0)\n(set! x (+ x (call/cc (lambda (c) (set! k c) 1))))\n(emit x)\n(set! n (+ n 1))\n(if (< n 4) (k 5))\n(emit x)\n",
        "(define k #f)\n(define n 0)\n(define (f) (call/cc (lambda (c) (set! k c))) (set! n (+ n 1)) (emit n) n)\n(emit (catch 'q (lambda () (f)) (lambda r 'h)))\n(if (< n 3) (k 0))\n"
        "(emit (catch 'q (lambda () (if (< n 5) (k 0)) (throw 'q)) (lambda r (list 'h n))))\n",
        "(define a '())\n(define kk #f)\n(define n 0)\n(define (amb-like) (call/cc (lambda (c) (set! kk c) 1)))\n(let* ((x (amb-like)) (y (* x 2))) (set! a (cons (list x y) a)) (set! n (+ n 1)) (if (< n 4) (kk (+ x 1))))\n(emit a)\n",
        "(define fail-stack '())\n(define (fail) (if (null? fail-stack) 'no-more (let ((k (car fail-stack))) (set! fail-stack (cdr fail-stack)) (k k))))\n"
        "(define (amb choices) (let ((cc (call/cc (lambda (k) k)))) (if (null? choices) (fail) (let ((c (car choices))) (set! choices (cdr choices)) (set! fail-stack (cons cc fail-stack)) c))))\n"
        "(emit (let ((a (amb '(1 2 3 4 5))) (b (amb '(1 2 3 4 5)))) (if (and (= 5 (+ a b)) (> a b)) (list a b) (fail))))\n",
    ]
    return out


# ---------------------------------------------------------------- C05
def winds():
    """Jumps between every pair of points of trees of extents."""
    out = []
    # shapes: nested dynamic-winds; points: P<i>; a capture at one point, a jump at a later one
    def W(i, inner):
        return f"(dynamic-wind (lambda () (emit 'in{i})) (lambda () {inner}) (lambda () (emit 'out{i})))"

    def P(i):
        return f"(pt {i})"
    shapes = [
        (P(0) + " " + W("A", P(1)) + " " + P(2), 3),
        (P(0) + " " + W("A", P(1) + " " + W("B", P(2)) + " " + P(3)) + " " + P(4), 5),
        (P(0) + " " + W("A", P(1)) + " " + P(2) + " " + W("B", P(3)) + " " + P(4), 5),
        (W("A", P(0) + " " + W("B", P(1)) + " " + P(2) + " " + W("C", P(3)) + " " + P(4)) + " " + P(5), 6),
        (W("A", W("B", P(0) + " " + W("C", P(1))) + " " + P(2) + " " + W("D", W("E", P(3)))) + " " + P(4), 5),
        (W("A", P(0) + " (f 2) " + P(1)) + " " + P(2), 3),
    ]
    for sh, n in shapes:
        for src in range(n):
            for dst in range(n):
                for mode in ("local", "top", "throw"):
                    pre = ("(define ks (make-vector 8 #f))\n(define fuel 2)\n"
                           f"(define (pt i) (emit (list 'at i)) (call/cc (lambda (c) (if (not (vector-ref ks i)) (vector-set! ks i c)) 0)) (emit (list 'on i)) {{}})\n"
                           "(define (f n) (if (= n 0) (pt 7) " + W("F", "(f (- n 1))") + "))\n")
                    jump = f"(if (and (= i {src}) (> fuel 0) (vector-ref ks {dst})) (begin (set! fuel (- fuel 1)) ((vector-ref ks {dst}) i)))"
                    if mode == "local":
                        out.append(pre.replace("{}", jump) + f"(emit (begin {sh} 'end))\n(emit 'done)\n")
                    elif mode == "top":
                        if src:
                            continue
                        out.append(pre.replace("{}", "0") + f"(emit (begin {sh} 'end))\n(emit 'sep)\n(if (> fuel 0) (begin (set! fuel (- fuel 1)) ((vector-ref ks {dst}) 1)))\n(emit 'done)\n")
                    else:
                        if dst:
                            continue
                        out.append(pre.replace("{}", f"(if (and (= i {src}) (> fuel 0)) (begin (set! fuel (- fuel 1)) (throw 'oops i)))") +
                                   f"(emit (catch 'oops (lambda () {sh} 'end) (lambda (k i) (emit (list 'handler k i)) 'caught)))\n(emit 'done)\n"
                                   + W("Z", f"(emit (catch #t (lambda () {W('Y', sh)} 'end) (lambda (k . r) (emit (list 'handler k r)) 'caught)))") + "\n(emit (catch 'x (lambda () 1) (lambda r 2)))\n")
    # jumps from one tree into another, entered from inside other extents
    for d1 in range(0, 3):
        for d2 in range(0, 3):
            for common in range(0, 2):
                def nest(d, tag, inner):
                    for i in range(d, 0, -1):
                        inner = W(f"{tag}{i}", inner)
                    return inner
                body = ("(begin " + nest(d1, "S", "(call/cc (lambda (c) (set! k c) (emit 'cap))) (emit 'src)") + " (emit 'between) " +
                        nest(d2, "D", "(emit 'dst) (if (> fuel 0) (begin (set! fuel (- fuel 1)) (k 1)))") + " 'end)")
                out.append("(define k #f)\n(define fuel 2)\n(emit " + nest(common, "C", body) + ")\n(emit 'done)\n")
    out += [
        # value of the whole, guards' values ignored, arguments through the jump
        "(emit (dynamic-wind (lambda () 1) (lambda () 2) (lambda () 3)))\n(emit (call-with-values (lambda () (dynamic-wind (lambda () 1) (lambda () (values 4 5)) (lambda () 3))) list))\n",
        "(define n 0)\n(define k #f)\n(emit (dynamic-wind (lambda () (set! n (+ n 1)) (emit (list 'in n))) (lambda () (call/cc (lambda (c) (set! k c) 'first))) (lambda () (emit (list 'out n)))))\n"
        "(if (< n 4) (k (list 'again n)))\n(emit n)\n",
        "(define l '())\n(define (note x) (set! l (cons x l)))\n(catch #t (lambda () (dynamic-wind (lambda () (note 'a)) (lambda () (dynamic-wind (lambda () (note 'b)) (lambda () (car 5)) (lambda () (note 'c)))) "
        "(lambda () (note 'd)))) (lambda (k . r) (note 'h)))\n(emit (reverse l))\n",
        "(dynamic-wind (lambda () (emit 'in)) (lambda () (car 5)) (lambda () (emit 'out)))\n(emit 'next)\n(dynamic-wind (lambda () (emit 'in)) (lambda () (undefined-proc 5)) (lambda () (emit 'out)))\n(emit 'next)\n",
        "(dynamic-wind (lambda () (emit 'in)) (lambda () (throw 'nobody 1)) (lambda () (emit 'out)))\n(emit 'next)\n(dynamic-wind (lambda () (emit 'in2)) (lambda () (emit 'ok)) (lambda () (emit 'out2)))\n",
        "(emit (catch 'a (lambda () (dynamic-wind (lambda () (emit 'i1)) (lambda () (catch 'b (lambda () (dynamic-wind (lambda () (emit 'i2)) (lambda () (throw 'a 1)) (lambda () (emit 'o2)))) "
        "(lambda r (emit 'wrong)))) (lambda () (emit 'o1)))) (lambda r (emit 'right) r)))\n",
        "(emit (call/cc (lambda (k) (dynamic-wind (lambda () (emit 'i1)) (lambda () (catch #t (lambda () (dynamic-wind (lambda () (emit 'i2)) (lambda () (k 'esc)) (lambda () (emit 'o2)))) (lambda r (emit 'wrong)))) (lambda () (emit 'o1))))))\n"
        "(emit (catch 'x (lambda () (throw 'x 1)) (lambda r r)))\n",
        "(emit (map (lambda (x) (dynamic-wind (lambda () (emit (list 'in x))) (lambda () (* x x)) (lambda () (emit (list 'out x))))) '(1 2 3)))\n",
        "(define (f n) (if (= n 0) (throw 'deep 'x) (dynamic-wind (lambda () (emit (list 'in n))) (lambda () (f (- n 1))) (lambda () (emit (list 'out n))))))\n(emit (catch 'deep (lambda () (f 4)) (lambda r r)))\n"
        "(define k #f)\n(define (g n) (if (= n 0) (call/cc (lambda (c) (set! k c) 0)) (dynamic-wind (lambda () (emit (list 'in n))) (lambda () (+ 1 (g (- n 1)))) (lambda () (emit (list 'out n))))))\n"
        "(define c 0)\n(emit (g 4))\n(set! c (+ c 1))\n(if (< c 3) (k (* 100 c)))\n(emit c)\n",
        "(define k #f)\n(define c 0)\n(define (in-wind f) (dynamic-wind (lambda () (emit 'win)) f (lambda () (emit 'wout))))\n"
        "(in-wind (lambda () (emit (list 'v (call/cc (lambda (kk) (set! k kk) 0))))))\n(set! c (+ c 1))\n(if (< c 3) (in-wind (lambda () (emit 'second) (k c))))\n(emit 'end)\n",
        "(dynamic-wind (lambda () (emit 'a)) (lambda () (emit 'b)) (lambda () (emit 'c) (catch 'z (lambda () (throw 'z 1)) (lambda r (emit (list 'h r))))))\n(emit 'end)\n",
        "(dynamic-wind (lambda () (dynamic-wind (lambda () (emit 1)) (lambda () (emit 2)) (lambda () (emit 3)))) (lambda () (emit 4)) (lambda () (dynamic-wind (lambda () (emit 5)) (lambda () (emit 6)) (lambda () (emit 7)))))\n",
        "(define k #f)\n(define n 0)\n(dynamic-wind (lambda () (emit 'i)) (lambda () (catch 'e (lambda () (call/cc (lambda (c) (set! k c))) (set! n (+ n 1)) (if (< n 3) (throw 'e n)) 'fin) (lambda (key v) (emit (list key v))))) (lambda () (emit 'o)))\n"
        "(if (< n 3) (k 0))\n(emit n)\n",
    ]
    return out


# ---------------------------------------------------------------- C06
def catches(rng, pairs):
    out = []
    TAGS = ["#t", "'a", "'b"]
    for n in (1, 2, 3):
        for tags in itertools.product(TAGS, repeat=n):
            for key in ("a", "b", "c"):
                for where in ("body", "wind") if n > 1 else ("body", "wind", "call", "none"):
                    t = {"body": f"(begin (emit 'before) (throw '{key} 1 '(x y)) (emit 'never))",
                         "wind": f"(dynamic-wind (lambda () (emit 'in)) (lambda () (throw '{key})) (lambda () (emit 'out)))",
                         "call": f"((lambda (q) (emit q) (throw '{key} q)) 5)", "none": "(emit 'fine)"}[where]
                    for i, tag in reversed(list(enumerate(tags))):
                        t = f"(catch {tag} (lambda () (emit 'enter{i}) (list 'v{i} {t})) (lambda (k . r) (emit (list 'handler{i} k r)) 'h{i}))"
                    out.append(f"(emit {t})\n(emit 'next)\n(emit (catch 'a (lambda () (throw 'a 'again)) (lambda r r)))\n")
    # keys that are alike
    NAMES = ["io", "io-error", "i", "o-error", "IO", "io-erro", "error", "ioio"]
    for key in NAMES:
        for t1 in NAMES:
            for t2 in (key, rng.choice(NAMES), "#t"):
                q = t2 if t2 == "#t" else "'" + t2
                out.append(f"(define (go) (throw '{key} 1))\n(emit (catch '{key} (lambda () (catch {q} (lambda () (catch '{t1} go (lambda r (list 'h1 r)))) (lambda r (list 'h2 r)))) (lambda r (list 'h3 r))))\n"
                           f"(emit (catch #t (lambda () (catch '{t1} (lambda () (throw (string->symbol \"{key}\") 'made)) (lambda r (list 'h1 r)))) (lambda r (list 'h2 r))))\n")
    H = {"rethrow": "(throw k 'again)", "other": "(throw 'b 'other)", "value": "(list k r)", "error": "(car k)", "nested": "(catch 'b (lambda () (throw 'b 2)) (lambda (k2 . r2) (list k k2)))",
         "escape": "(esc (list 'esc k))", "wrong": "(+ k 1)"}
    for inner in H:
        for outer in TAGS:
            for h2 in ("value", "rethrow", "nested", "escape"):
                out.append("(emit (call/cc (lambda (esc) (catch #t (lambda () "
                           f"(catch {outer} (lambda () (dynamic-wind (lambda () (emit 'in)) (lambda () (catch 'a (lambda () (throw 'a 1)) (lambda (k . r) (emit (list 'inner k r)) {H[inner]}))) (lambda () (emit 'out)))) "
                           f"(lambda (k . r) (emit (list 'outer k (length r))) {H[h2]}))) (lambda (k . r) (emit (list 'last k)) 'last)))))\n(emit (catch #t (lambda () (throw 'z 9)) (lambda r r)))\n")
    # errors as throws, each tag
    for e in ["(car 5)", "undefined-variable-q", "((lambda (x) x))", "(5 5)", "(cons 1)", "(vector-ref (vector 1) 3)", "(if)", "(let ((x)) x)"]:
        for tag in ("#t", "'a"):
            out.append(f"(emit (catch #t (lambda () (catch {tag} (lambda () (emit 'in) (list {e})) (lambda (k . r) (emit 'inner) k))) (lambda (k . r) (emit 'outer) k)))\n(emit 'next)\n")
    # a continuation leaving and re-entering the thunk
    for tag in TAGS:
        for key in ("a", "b"):
            out.append("(define k #f)\n(define n 0)\n"
                       f"(emit (catch {tag} (lambda () (call/cc (lambda (c) (set! k c))) (set! n (+ n 1)) (emit n) (if (= n 2) (throw '{key} n)) n) (lambda (key . r) (emit (list 'h key r)) 'caught)))\n"
                       "(if (< n 3) (catch #t (lambda () (k 0)) (lambda (key . r) (emit (list 'wrong-or-outer key r)))))\n(emit 'end)\n")
            out.append("(define k #f)\n(define n 0)\n"
                       f"(emit (catch {tag} (lambda () (catch 'a (lambda () (call/cc (lambda (c) (set! k c))) (set! n (+ n 1)) (throw '{key} n)) (lambda (key . r) (emit (list 'h1 key r)) (list 'c1 n)))) (lambda (key . r) (emit (list 'h2 key r)) 'c2)))\n"
                       "(if (< n 3) (k 0))\n(emit 'end)\n(emit (catch 'a (lambda () (throw 'a 0)) (lambda r r)))\n")
            out.append("(define out #f)\n(define n 0)\n"
                       f"(emit (call/cc (lambda (o) (catch {tag} (lambda () (o 'left)) (lambda r 'wrong)))))\n(emit (catch #t (lambda () (throw '{key} 1)) (lambda (k . r) (list 'only k r))))\n"
                       f"(throw '{key} 2)\n(emit 'survived)\n")
            # leave with throw from a catch re-entered inside other catches: only the captured ones count
            out.append("(define k #f)\n(define n 0)\n"
                       f"(catch 'b (lambda () (emit (list 'r (catch {tag} (lambda () (call/cc (lambda (c) (set! k c))) (set! n (+ n 1)) (if (> n 1) (throw '{key} n)) 'normal) (lambda r (emit r) 'inner))))) (lambda r (emit (list 'b r))))\n"
                       f"(if (< n 3) (catch 'a (lambda () (catch #t (lambda () (k 0)) (lambda r (emit (list 'wrong1 r))))) (lambda r (emit (list 'wrong2 r)))))\n(emit 'end)\n")
    thr = "(begin (emit 'thr) (if (= fuel 0) (throw 'k3 1 2) 1))"
    out += context_programs(thr, lambda t: "(define (go) " + t + ")\n(emit (catch 'k3 (lambda () (list 'in (go))) (lambda (k . r) (emit (list 'handler k r)) 'caught)))\n"
                            "(emit (catch #t (lambda () (catch 'k4 (lambda () (go)) (lambda r (emit 'wrong)))) (lambda r (list 'all r))))\n(set! fuel 1)\n(emit (go))\n"
                            "(emit (catch 'k3 (lambda () (throw 'k3 'last)) (lambda r r)))\n", pairs, rng)
    out += [
        "(emit (catch 'a (lambda () (for-each (lambda (x) (if (= x 2) (throw 'a x)) (emit x)) '(1 2 3))) (lambda (k v) (list k v))))\n",
        "(define (f) (throw 'a 1))\n(emit (catch 'a f (lambda (k v) (list k v))))\n(emit (catch 'a (lambda () 5) f))\n(define (h . r) (emit r) 'h)\n(emit (catch 'a f h))\n(emit (catch #t f list))\n",
        "(define (loop n) (if (> n 0) (begin (catch 'a (lambda () (throw 'a n)) (lambda (k v) (emit v))) (loop (- n 1)))))\n(loop 12)\n(emit 'end)\n",
        "(define (deep n) (if (= n 0) (throw 'a 'bottom) (catch 'b (lambda () (deep (- n 1))) (lambda r (emit 'wrong)))))\n(emit (catch 'a (lambda () (deep 30)) list))\n(emit (catch 'b (lambda () (throw 'b 1)) list))\n",
        "(define (nest n) (if (= n 0) (throw 'a 0) (catch 'a (lambda () (nest (- n 1))) (lambda (k v) (if (< v 5) (throw 'a (+ v 1)) (list 'done v n))))))\n(emit (catch 'a (lambda () (nest 10)) list))\n",
        "(emit (catch 'a (lambda () (catch 'a (lambda () (throw 'a 1)) (lambda (k v) (throw 'a (+ v 1))))) (lambda (k v) (list 'outer v))))\n",
        "(emit (catch 'a (lambda () (throw 'a)) (lambda (k) k)))\n(emit (catch #t (lambda () (catch 'a (lambda () (throw 'a 1 2)) (lambda (k) k))) (lambda (k . r) k)))\n",
        "(define p (delay (throw 'a 1)))\n(emit (catch 'a (lambda () (force p)) list))\n(emit (catch 'a (lambda () (force p)) list))\n",
        "(emit (call-with-values (lambda () (catch 'a (lambda () (values 1 2)) list)) list))\n(emit (call-with-values (lambda () (catch 'a (lambda () (throw 'a)) (lambda r (values 3 4)))) list))\n",
    ]
    return out


# ---------------------------------------------------------------- C07
ERRORS = ["(car 5)", "(cdr '())", "(vector-ref (vector 1 2) 2)", "(vector-ref (vector 1 2) -1)", "(vector-set! (vector) 0 1)", "undefined-variable-q",
          "(undefined-procedure-q 1)", "(set-car! '() 1)", "((lambda (x) x))", "((lambda (x) x) 1 2)", "((lambda (x . y) x))", "(5 5)", "(\"s\")", "('(1))",
          "('sym 1)", "(#t)", "(cons 1)", "(cons 1 2 3)", "(car)", "(+ 'a 1)", "(+ 1 \"x\")", "(- 'a 1)", "(< 1 'b)", "(abs 'x)", "(quotient 1 0)", "(modulo 5 0)",
          "(remainder 1 0)", "(quotient 'a 1)", "(length '(1 . 2))", "(length 5)", "(reverse 'x)", "(list-ref '(1) 1)", "(list-tail '(1) 2)", "(apply car '(1 2))",
          "(apply + 1 2)", "(apply 5 '(1))", "(hash-ref 5 1)", "(hash-set! '() 1 2)", "(force 5)", "(symbol->string 5)", "(char->integer 5)", "(integer->char 'a)",
          "(list->vector '(1 . 2))", "(vector->list 5)", "(vector-length '(1))", "(string-length 'a)", "(call/cc 5)", "(map car 5)" , "(even? 'x)", "(odd? \"s\")",
          "(zero? 'q)", "(cadr '(1))", "(caddr '(1 2))", "(list-head '(1) 2)", "(throw 'custom 1 2)", "(dynamic-wind 1 2 3)", "(append '(1 . 2) '(3))"]
BADFORMS = ["(if)", "(if 1)", "(let)", "(let ((x)) x)", "(let x)", "(let ())", "(let ((5 6)) 1)", "(let 5 1)", "(let lp)", "(let lp ())", "(let lp ((x)) 1)", "(let lp 5 1)", "(let (x) x)", "(lambda)", "(define)", "(set!)", "(set! x)", "(quote)", "(lambda (x))", "(define x)", "(define (f))", "(define 5 1)",
            "(let* ((x)) x)", "(letrec ((x)) x)", "(do)", "(do ((i 0)))", "(case)", "(delay)", "(lambda 5 1)" , "(set! 5 1)", "(let ((5 1)) 1)", "(cond 5)", "(cond)", "(cond ())", "(cond (else))", "(cond (#f 1) (else))", "(cond (1 =>))", "(cond (#f 1) 5)",
            "(let* ((x 1)))", "(let* ())", "(let* x 1)", "(let* ((x 1) (y)) x)", "(letrec ((x 1)))", "(letrec 5 1)", "(letrec ((5 1)) 1)", "(letrec (x) x)", "(do ((i 0)) ())", "(do ((i)) (#t))", "(do (i) (#t))", "(do 5 (#t))", "(do ((i 0)) 5)", "(do ((5 1)) (#t))",
            "(case 1 5)", "(case 1 (5 1))", "(case 1 ((1)))", "(case 1 (else))", "(case 1 ((2) 3) ())", "(quasiquote)", "(define-macro)", "(define-macro m)", "(dynamic-wind)", "(dynamic-wind car)", "(call-with-values)", "(call-with-values car)",
            "(for-each)", "(for-each car)", "(map)", "(map car)", "(apply)", "(apply car)", "(catch)", "(catch #t)", "(catch #t list)", "(catch 5 list list)", "(throw)", "(throw 5)", "(throw \"s\")", "(catch #t 5 list)", "(catch #t list 5)", "(map 5 data)", "(for-each 5 data)",
            "(map car 5)", "(for-each car 5)", "(let () )", "(lambda \"s\" 1)", "(define \"s\" 1)", "(set! (x) 1)", "(set! \"s\" 1)"]


def errors(rng, pairs):
    out = []
    probe = ("(emit (list (car '(1 2)) ((lambda (a . b) b) 1 2) (let ((v (vector 1 2))) (vector-set! v 0 5) v) data vec (hash-ref tab 'k) (catch 'w (lambda () (throw 'w 7)) list)))\n")
    pre = "(define data (list 1 2 3))\n(define vec (vector 'a 'b))\n(define tab (make-hash-table))\n(hash-set! tab 'k 'v)\n(define fuel 0)\n(define x 1)\n" + PRELUDE
    for e in ERRORS + BADFORMS:
        out.append(pre + f"{e}\n(emit 'after-toplevel)\n(emit (catch #t (lambda () {e} (emit 'not-reached) 1) (lambda (k . r) (emit 'handler) k)))\n"
                   f"(define (f) (+ 1 {e}))\n(emit (catch #t f (lambda (k . r) k)))\n(emit (catch #t (lambda () (list (emit 1) {e} (emit 2))) (lambda (k . r) k)))\n"
                   f"(emit (catch 'nobody (lambda () {e}) (lambda r 'wrong)))\n(emit 'after)\n" + probe)
    names = [c for c, _ in CONTEXTS]
    allp = [(e, c) for e in ERRORS + BADFORMS for c in names]
    for e, c in (allp if pairs is None else rng.sample(allp, min(pairs, len(allp)))):
        t = fill((c,), f"(begin (emit 'err) (if (= fuel 0) {e} 1))")
        out.append(pre + f"(define (go) {t})\n(emit (catch #t (lambda () (list 'in (go))) (lambda (k . r) (emit 'handler) k)))\n(go)\n(emit 'next)\n" + probe + "(set! fuel 1)\n(emit (go))\n" + probe)
    # many errors in a row, in nested catches and loops, interleaved with state
    for e in ERRORS[::3] + BADFORMS[::4]:
        out.append(pre + f"(define n 0)\n(define (f) (set! n (+ n 1)) (catch 'zz (lambda () {e}) (lambda r 'wrong)))\n"
                   "(define (g) (catch #t f (lambda (k . r) (set! data (cons n data)) k)))\n(emit (let lp ((i 0)) (if (< i 15) (begin (g) (lp (+ i 1))) n)))\n" + probe +
                   f"(f)\n(f)\n(emit n)\n(dynamic-wind (lambda () (emit 'in)) f (lambda () (emit 'out)))\n" + probe)
    return out


# ---------------------------------------------------------------- C15
def macros():
    out = []
    defs = ("(define-macro (swap! a b) `(let ((tmp ,a)) (set! ,a ,b) (set! ,b tmp)))\n(define-macro (my-if c t e) (list 'cond (list c t) (list 'else e)))\n"
            "(define-macro (while c . body) `(let lp () (if ,c (begin ,@body (lp)) #f)))\n(define-macro (q x) (list 'quote x))\n(define-macro (ident x) x)\n"
            "(define-macro (none) 5)\n(define-macro (rest . r) (cons 'list r))\n(define-macro (lastof . r) (car (reverse r)))\n(define-macro (count . r) (length r))\n"
            "(define-macro (kind x) (cond ((pair? x) ''pair) ((symbol? x) ''symbol) ((number? x) ''number) ((string? x) ''string) ((null? x) ''null) (else ''other)))\n"
            "(define-macro (def name v) `(define ,name ,v))\n(define-macro (mk-adder name n) `(define (,name x) (+ x ,n)))\n(define-macro (my-let1 v e . body) `((lambda (,v) ,@body) ,e))\n"
            "(define-macro (rev form) (reverse form))\n(define-macro (my-or a b) `(let ((t ,a)) (if t t ,b)))\n(define-macro (twice x) `(begin ,x ,x))\n")
    uses = ["(let ((a 1) (b 2)) (swap! a b) (list a b))", "(my-if (emit #f) (emit 1) (emit 2))", "(my-if (emit #t) (emit 1) (emit 2))", "(let ((i 0)) (while (< i 3) (emit i) (set! i (+ i 1))) i)",
            "(q (a b (emit 1)))", "(q sym)", "(ident (emit 5))", "(ident 'x)", "(none)", "(rest)", "(rest (emit 1) (emit 2))", "(lastof (emit 1) (emit 2) (emit 3))", "(count a b (c d) e)", "(count)",
            "(list (kind (1 2)) (kind a) (kind 5) (kind \"s\") (kind ()) (kind #\\a))", "(my-let1 v (emit 5) (emit v) (* v 2))", "(rev (2 1 -))", "(my-or (emit #f) (emit 3))", "(my-or (emit 4) (emit 3))",
            "(twice (emit 'tw))", "(twice (twice (emit 'n)))", "(ident (ident (none)))", "(my-if (my-or #f (emit 1)) (twice (emit 2)) (none))", "(let ((x 5)) (ident (+ x (my-let1 x 10 (* x 2)))))",
            "(map (lambda (x) (ident (+ x 1))) '(1 2 3))", "(let lp ((i 0)) (if (< i 3) (begin (twice (emit i)) (lp (+ i 1))) (none)))", "(catch 'a (lambda () (ident (throw 'a 1))) list)",
            "((lambda (none) (+ none 1)) 4)", "(let ((ident 3)) (+ ident 1))", "(let ((rest (lambda l (cons 'local l)))) (rest 1 2))", "(dynamic-wind (lambda () (twice (emit 'i))) (lambda () (none)) (lambda () (emit 'o)))",
            "(force (delay (ident (emit 1))))", "(call/cc (lambda (k) (twice (k (emit 1)))))", "(apply (lambda (a) (ident a)) '(9))", "(cond ((my-or #f #f) 1) ((ident 5) => (lambda (x) (ident x))) (else 3))",
            "`(1 ,(ident (+ 1 1)) ,@(rest 3 4))", "(rest 'a 'b (q (1 . 2)) (q #(1 2)))", "(ident \"str\")", "(ident #\\a)", "(ident ())" if False else "(q ())", "(my-let1 v '(a . b) (car v))"]
    for u in uses:
        out.append(defs + f"(emit {u})\n(define (f) {u})\n(emit (f))\n(emit (f))\n")
    for a, b in itertools.product(uses[:16], repeat=2):
        out.append(defs + f"(emit (rest {a} {b}))\n(emit (let ((z {a})) (ident (list z {b}))))\n")
    out += [defs + "(def v1 (emit 10))\n(emit v1)\n(mk-adder add5 5)\n(emit (add5 1))\n(let () (def loc 3) (emit loc))\n(mk-adder add5 6)\n(emit (add5 1))\n",
            "(define n 0)\n(define-macro (m) (set! n (+ n 1)) n)\n(emit (m))\n(emit n)\n",
            "(define-macro (m x) `(list ,x ',x))\n(define x 5)\n(emit (m x))\n(emit (m (+ x 1)))\n(let ((x 6)) (emit (m x)))\n",
            "(define-macro (m x) (list 'list x x))\n(define k #f)\n(define n 0)\n(emit (m (call/cc (lambda (c) (set! k c) 1))))\n(set! n (+ n 1))\n(if (< n 3) (k (* 10 n)))\n(emit n)\n",
            "(define-macro (m a) a)\n(emit (m 1))\n(define-macro (m a) (list 'list a a))\n(emit (m 1))\n(define (m a) (vector a))\n(emit 'x)\n",
            "(define-macro (my-cond . cls) (if (null? cls) #f (let ((c (car cls))) (if (eq? (car c) 'else) (cons 'begin (cdr c)) (list 'if (car c) (cons 'begin (cdr c)) (cons 'my-cond (cdr cls)))))))\n"
            "(emit (my-cond (#f 1) ((emit #f) 2) ((emit #t) (emit 3) 4) (else 5)))\n(emit (my-cond (#f 1) (else (emit 'e) 5)))\n(emit (my-cond (#f 1)))\n",
            "(define-macro (for v from to . body) `(do ((,v ,from (+ ,v 1))) ((> ,v ,to) 'done) ,@body))\n(emit (for i 1 3 (emit i) (for j i 3 (emit (list i j)))))\n"]
    # quasiquote: every small template
    L = ["1", "a", "\"s\"", "()", ",x", ",(emit 5)", ",l", "(b c)", "#(1 ,x)", "(,x)", "(1 . ,x)", "(quote ,x)", "',l"]
    S = L + [",@l", ",@(begin (emit 'sp) (list 7 8))", ",@'()", "(p ,@l q)", "(,@l . ,x)", "#(,@l 9)"]
    pre = "(define x 3)\n(define l (list 'm 'n))\n"
    for a in L:
        out.append(pre + f"(emit `{a})\n")
    for a in S:
        out.append(pre + f"(emit `({a}))\n(emit `({a} . z))\n(emit `#({a}))\n(emit `((in {a})))\n(define t `({a} end))\n(emit t)\n(emit l)\n")
    for a, b in itertools.product(S, S):
        out.append(pre + f"(emit `({a} {b}))\n(emit `#({a} {b}))\n(emit `(({a}) {b}))\n(emit `({a} . ({b})))\n(emit (let ((x 'y) (l '())) `({a} k {b})))\n")
    for a in L:
        for b in [",x", ",l", "5", ",(emit 6)", "()"]:
            out.append(pre + f"(emit `({a} . {b}))\n(emit `(k {a} . {b}))\n" if b != "()" else pre + f"(emit `({a} 2 ,@l))\n")
    out += [pre + "(define a `(1 ,@l))\n(emit (eq? (cdr a) l))\n(define b `(,@l 1))\n(set-car! b 'changed)\n(emit (list l b))\n" if False else pre + "(define b `(,@l 1))\n(set-car! b 'changed)\n(emit (list l b))\n",
            pre + "(define (f y) `(y ,y ,@(map (lambda (z) `(,z ,y)) l)))\n(emit (f 1))\n(emit (f 2))\n(emit (f 1))\n",
            pre + "(emit `(1 ,(car `(,x ,@l)) ,@`(a ,x)))\n(emit `(,@(list 1 2) ,@(list 3) ,@'()))\n(emit `((,@l) (,@l ,@l)))\n"]
    return out


def template(rng, size, depth=1):
    """A random quasiquote template."""
    atoms = ["1", "a", '"s"', "()", "#\\c", "#t", "x", "l"]

    def hole(d):
        if d == 1:
            return rng.choice([",x", ",l", ",e", ",p", ",(emit 5)", ",(emit l)", ",'()", ",(car l)", ",`(i ,x)", ",v"])
        return "," + item(1, d - 1)[0]

    def item(n, d):
        c = rng.randrange(12)
        if n <= 0 or c < 3:
            return (rng.choice(atoms), 0)
        if c < 6:
            return (hole(d), 0)
        if c == 6 and d == 1:
            return ("`" + item(n - 1, 2)[0], 0)
        if c == 7:
            return ("#(" + seq(n - 1, d, False) + ")", 0)
        if c == 8:
            return ("'" + item(n - 1, d)[0], 0)
        return ("(" + seq(n - 1, d, True) + ")", 0)

    def seq(n, d, dotted):
        k = rng.randrange(4)
        es = []
        for _ in range(k):
            if d == 1 and rng.random() < 0.3:
                es.append(rng.choice([",@l", ",@e", ",@(emit l)", ",@'()", ",@(list x 7)", ",@(begin (emit 's) e)", ",@`(,x ,@l)", ",@(cdr l)"]))
            else:
                es.append(item((n - 1) // max(1, k) + (rng.random() < 0.5), d)[0])
        if dotted and es and rng.random() < 0.35:
            tail = rng.choice([hole(d), hole(d), item(n - 2, d)[0]])
            # (a . `b) is the list (a quasiquote b): whether that nests is not claimed
            es += [".", tail if tail[0] != "`" else ",x" if d == 1 else "x"]
        return " ".join(es)

    return "`(" + seq(size, depth, True) + ")"


def templates(rng, n, per=5):
    out = []
    for _ in range(n):
        t = "(define x 3)\n(define l (list 'm 'n))\n(define e '())\n(define p (cons 8 9))\n(define v (vector 1 'w))\n"
        for i in range(per):
            q = template(rng, rng.randrange(2, 8))
            t += rng.choice([f"(emit {q})\n", f"(emit (let ((x 'y) (l (list 4)) (e (list))) {q}))\n", f"(define (f l) {q})\n(emit (list (f e) (f '(q))))\n(emit (f l))\n"])
        out.append(t + "(emit (list x l e p v))\n")
    return out


def splices():
    """Every short template around a splice, before every kind of rest."""
    pre = "(define x 3)\n(define l (list 'm 'n))\n(define e '())\n(define p (cons 8 9))\n"
    rests = ["", " ,x", " ,@e", " ,@l", " k", " (c ,x)", " . ,x", " . ,e", " . ,l", " . ,p", " . b", " . #(1 ,x)", " . (c ,x)", " . (,x . ,l)", " . ,(emit 5)", " . (,@l)", " ,@l . ,x", " ,@e . ,x", " ,@e . ,l",
             " ,x . ,l", " k . ,p", " (,x . ,l) . ,p", " ,@l ,x . k", " ,@e ,@e", " . (,@e . ,x)", " 'x . ,p", " ,@p", " (,@e . ,x)"]
    ts = []
    for before in ["", "1 ", ",x ", "(,@e) ", ",@l "]:
        for sp in [",@e", ",@l", ",@(list x)", ",@(begin (emit 's) e)", ",@'()"]:
            for rest in rests:
                if rest == " ,@p" and sp != ",@l":
                    continue
                t = f"({before}{sp}{rest})"
                ts += [f"`{t}", f"`(p {t} q)"] + ([f"`#({t} ,x)"] if before == "" else []) + ([f"`({t} . ,x)"] if before == ",x " else [])
    n = 12
    return [pre + "".join(f"(emit {t})\n" for t in ts[i:i + n]) + "(emit (list x l e p))\n" for i in range(0, len(ts), n)]


# ---------------------------------------------------------------- C16
def promises(rng, pairs):
    out = [
        "(define n 0)\n(define p (delay (begin (set! n (+ n 1)) (emit 'run) n)))\n(emit n)\n(emit (force p))\n(emit (force p))\n(emit n)\n",
        "(define x 1)\n(define p (delay (begin (emit 'run) x)))\n(set! x 2)\n(let ((x 3)) (emit (force p)))\n(set! x 4)\n(emit (force p))\n",
        "(define (mk y) (delay (begin (emit (list 'run y)) (* y 2))))\n(define a (mk 1))\n(define b (mk 2))\n(emit (list (force b) (force a) (force b) (force a)))\n",
        "(define p #f)\n(define n 0)\n(set! p (delay (begin (set! n (+ n 1)) (if (< n 4) (force p) 0) (emit n) n)))\n(emit (force p))\n(emit (force p))\n(emit n)\n",
        "(define n 0)\n(define p (delay (begin (set! n (+ n 1)) (emit n) (if (< n 3) (throw 'e n)) 'ok)))\n(emit (catch 'e (lambda () (force p)) list))\n(emit (catch 'e (lambda () (force p)) list))\n(emit (force p))\n(emit (force p))\n",
        "(define n 0)\n(define p (delay (begin (set! n (+ n 1)) (emit n) (if (< n 3) (car 5)) 'ok)))\n(force p)\n(force p)\n(emit (force p))\n(emit (force p))\n",
        "(define n 0)\n(define p #f)\n(emit (call/cc (lambda (k) (set! p (delay (begin (set! n (+ n 1)) (emit n) (if (= n 1) (k 'left)) (list 'v n)))) (force p))))\n(emit (force p))\n(emit (force p))\n",
        "(define k #f)\n(define c 0)\n(define p (delay (list 'v (call/cc (lambda (kk) (set! k kk) 0)))))\n(emit (force p))\n(set! c (+ c 1))\n(if (< c 3) (k c))\n(emit (force p))\n(emit c)\n",
        "(define s (let lp ((n 0)) (cons n (delay (begin (emit (list 'gen n)) (lp (+ n 1)))))))\n(define (nth s n) (if (= n 0) (car s) (nth (force (cdr s)) (- n 1))))\n(emit (nth s 4))\n(emit (nth s 2))\n(emit (nth s 5))\n",
        "(define p (delay (delay (begin (emit 'inner) 5))))\n(define q (force p))\n(emit 'mid)\n(emit (force q))\n(emit (force (force p)))\n(emit (eq? q (force p)))\n",
        "(define p (delay #f))\n(emit (force p))\n(emit (force p))\n(define n 0)\n(define q (delay (begin (set! n (+ n 1)) #f)))\n(force q)\n(force q)\n(emit n)\n(define r (delay (begin (set! n (+ n 1)) '())))\n(emit (force r))\n(emit (force r))\n(emit n)\n",
        "(define ps (map (lambda (i) (delay (begin (emit i) (* i i)))) '(1 2 3)))\n(emit (map force ps))\n(emit (map force (reverse ps)))\n(emit (apply + (map force ps)))\n",
        "(define n 0)\n(define p (delay (begin (set! n (+ n 1)) n)))\n(define l (list p p))\n(emit (map force l))\n(emit (force (car l)))\n",
        "(define p (delay (values 1 2)))\n(emit (call-with-values (lambda () (force p)) list))\n(emit (call-with-values (lambda () (force p)) list))\n",
        "(define (f) (delay (begin (emit 'x) 1)))\n(emit (+ (force (f)) (force (f))))\n(define p (f))\n(emit (+ (force p) (force p)))\n",
        "(define-macro (my-delay e) `(delay ,e))\n(define p (my-delay (begin (emit 'once) 7)))\n(emit (list (force p) (force p)))\n",
        "(define p (delay (let ((x 1)) (set! x (+ x 1)) (lambda () (set! x (+ x 1)) x))))\n(emit ((force p)))\n(emit ((force p)))\n(emit (eq? (force p) (force p)))\n",
        "(define p #f)\n(define n 0)\n(set! p (delay (begin (set! n (+ n 1)) (if (= n 1) (begin (emit (list 'nested (force p))) 'outer) 'inner))))\n(emit (force p))\n(emit (force p))\n",
        "(define p (delay (emit 1)))\n(dynamic-wind (lambda () (emit (force p))) (lambda () (emit (force p))) (lambda () (emit (force p))))\n",
        "(define x 10)\n(define (f x) (delay (+ x (g))))\n(define (g) x)\n(define p (f 1))\n(let ((x 100)) (emit (force p)))\n(set! x 20)\n(emit (force p))\n",
    ]
    hole = "(begin (emit 'pv) (set! fuel (+ fuel 1)) fuel)"
    out += context_programs(hole, lambda t: "(define p (delay " + t + "))\n(emit 'made)\n(emit (force p))\n(emit (force p))\n(emit fuel)\n(define (f) (delay (+ 100 " + t + ")))\n(define q (f))\n"
                            "(emit (list (force q) (force p) (force q)))\n(emit fuel)\n", 0, rng)
    thr = "(begin (emit 'pv) (set! fuel (+ fuel 1)) (if (< fuel 3) (throw 'k7 fuel) fuel))"
    out += context_programs(thr, lambda t: "(define p (delay " + t + "))\n(define (g) (catch 'k7 (lambda () (force p)) (lambda r (emit r) 'h)))\n(emit (g))\n(emit (g))\n(emit (g))\n(emit (g))\n(emit fuel)\n", 0, rng)
    forc = "(begin (set! fuel (+ fuel 1)) (force gp))"
    out += context_programs(forc, lambda t: "(define gp (delay (begin (emit 'once) 3)))\n(emit " + t + ")\n(emit " + t + ")\n(emit (force gp))\n", pairs, rng)
    cc = "(call/cc (lambda (c) (set! gk c) (emit 'cap) 1))"
    out += context_programs(cc, lambda t: "(define c 0)\n(define p (delay " + t + "))\n(emit (list 'r (force p)))\n(set! c (+ c 1))\n(if (< c 3) (gk (+ c 1)))\n(emit (force p))\n", pairs, rng)
    return out


# ---------------------------------------------------------------- C20
def multivalues(rng, pairs):
    out = []
    VS = [[], ["(emit 1)"], ["(emit 1)", "'(2 3)"], ["'()", "#f", "'sym"], ["'(a b)"], ["1", "2", "3", "4"], ["car", "'(car 5)"]]
    PR = ["(lambda () (values {v}))", "(lambda () (call/cc (lambda (k) (k {v}))))", "(lambda () (call/cc (lambda (k) (list 1 (k {v})))))", "(lambda () (apply values (list {v})))",
          "(lambda () (emit 'p) (if #t (values {v}) 0))", "(lambda () (let ((z 1)) (values {v})))", "(lambda () (begin (emit 'b) (values {v})))", "(lambda () (cond (#f 1) (else (values {v}))))",
          "(lambda () (dynamic-wind (lambda () (emit 'in)) (lambda () (values {v})) (lambda () (emit 'out))))", "(lambda () (catch 'a (lambda () (values {v})) list))",
          "(lambda () (catch 'a (lambda () (throw 'a)) (lambda r (values {v}))))", "(lambda () (call-with-values (lambda () (values {v})) values))", "(lambda () ((lambda () (values {v}))))",
          "(lambda () (let lp ((i 2)) (if (> i 0) (lp (- i 1)) (values {v}))))", "(lambda () (do ((i 0 (+ i 1))) ((= i 2) (values {v}))))", "(lambda () (case 1 ((1) (values {v}))))",
          "(lambda () (and 1 (values {v})))", "(lambda () (or #f (values {v})))", "(lambda () (letrec ((f (lambda () (values {v})))) (f)))", "(lambda () (let* ((a 1)) (values {v})))",
          "(lambda () (list {v}))", "(lambda () (force (delay (values {v}))))", "(lambda () (apply (lambda a (apply values a)) (list {v})))"]
    RE = ["list", "(lambda a a)", "(lambda (a . r) (list a r))", "(lambda (a b) (list a b))", "(lambda () 'zero)", "vector", "(lambda (a) a)", "values"]
    for vs in VS:
        v = " ".join(vs)
        for p in PR:
            for r in RE:
                if r == "values":
                    e = f"(call-with-values (lambda () (call-with-values {p.format(v=v)} values)) list)"
                else:
                    e = f"(call-with-values {p.format(v=v)} {r})"
                out.append(f"(emit (catch #t (lambda () {e}) (lambda (k . r) (list 'err k))))\n")
    out = ["".join(out[i:i + 3]) for i in range(0, len(out), 3)]
    out += [
        "(emit (+ 1 (values 2)))\n(emit (values 'x))\n(emit (list (values 1) (values '(2 3))))\n(define x (values 5))\n(emit x)\n(emit (call-with-values (lambda () 5) list))\n(emit (call-with-values (lambda () '(1 2)) list))\n",
        "(emit (call-with-values * -))\n(emit (call-with-values (lambda () (values)) list))\n(values 1 2)\n(emit 'stmt)\n(begin (values 1 2) (emit 'seq))\n(for-each (lambda (x) (values x x)) '(1 2))\n(emit 'fe)\n",
        "(define k #f)\n(define n 0)\n(emit (call-with-values (lambda () (call/cc (lambda (c) (set! k c) (values 1 2)))) list))\n(set! n (+ n 1))\n(cond ((= n 1) (k 'a 'b 'c)) ((= n 2) (k)) ((= n 3) (k '(l))))\n(emit n)\n",
        "(define p (list 1 2))\n(emit (call-with-values (lambda () (values p p)) (lambda (a b) (list (eq? a p) (eq? b p)))))\n(call-with-values (lambda () (values p p)) (lambda (a b) (set-car! a 9)))\n(emit p)\n",
        "(define (divmod a b) (values (quotient a b) (remainder a b)))\n(emit (call-with-values (lambda () (divmod 17 5)) (lambda (q r) (list q r))))\n(emit (call-with-values (lambda () (divmod 17 5)) cons))\n",
        "(define (multi n) (if (= n 0) (values) (call-with-values (lambda () (multi (- n 1))) (lambda r (apply values n r)))))\n(emit (call-with-values (lambda () (multi 5)) list))\n",
        "(call-with-values (lambda () (values 1 2)) (lambda (a b) (emit (list a b)) (call-with-values (lambda () (values b a)) (lambda (c d) (emit (list a b c d))))))\n",
        "(emit (call-with-values (lambda () (values '(values 1 2) 'x)) list))\n(emit (call-with-values (lambda () (apply values '((1 2) (3)))) list))\n(emit (call-with-values (lambda () (values (list 1 2))) (lambda (a) (length a))))\n",
    ]
    hole = "(call-with-values (lambda () (emit 'prod) (values 3 (emit 4))) (lambda (mva mvb) (emit (list mva mvb)) (+ mva mvb)))"
    out += context_programs(hole, lambda t: "(emit " + t + ")\n(emit (call-with-values (lambda () (values 1 " + t + " 'x)) list))\n", pairs, rng)
    cc = "(call-with-values (lambda () (call/cc (lambda (c) (set! gk c) (values 1 2)))) (lambda r (emit r) (length r)))"
    out += context_programs(cc, lambda t: "(define c 0)\n(emit (list 'r " + t + "))\n(set! c (+ c 1))\n(cond ((= c 1) (gk 5)) ((= c 2) (gk 'a 'b 'c)) ((= c 3) (gk)))\n(emit 'end)\n", pairs, rng)
    return out


# ------------------------------------------------ names that coincide (C01)
def coincidences(rng, n):
    """Binding forms three deep where every name is f, g or h: loops named like their
    variables, procedures defined in bodies without variables of their own, parameters
    named like the procedure, and who sees which is shown by every level."""
    out = []
    names = ["f", "g", "h"]
    P = rng.choice

    def show():
        return "(emit (list " + " ".join(f"(if (procedure? {x}) (list '{x} (procedure? {x})) {x})" for x in names) + "))"

    def init(d):
        return P(["1", "2", P(names), P(names), f"(lambda () {P(names)})", f"(lambda (f) {show()} 5)", "(emit 'i)", form(d - 1) if d > 1 else P(names)])

    def val(x):
        return f"(if (procedure? {x}) (begin (set! budget (- budget 1)) (if (> budget 0) ({x} {P(['', '3', '4 5'])}) 'out)) {x})"

    def body(d):
        parts = [show()]
        if d > 0:
            if P([0, 1]):
                parts.insert(0, P([f"(define {P(names)} {init(d)})", f"(define ({P(names)} {P(['', 'f', 'g h', '. f'])}) {show()} {P(names)})",
                                   f"(define ({(a := P(names))}) {P(names)}) (define ({P([x for x in names if x != a])}) {P(names)})"]))
            parts.append(P([form(d - 1), f"(emit {form(d - 1)})", f"(set! {P(names)} {init(d)})", val(P(names))]))
        parts.append(P([show(), val(P(names)), P(names)]))
        return " ".join(parts)

    def vs(k, d, sep="({} {})"):
        return " ".join(sep.format(x, init(d)) for x in rng.sample(names, k))

    def form(d):
        if d <= 0:
            return val(P(names))
        k = P([0, 1, 1, 2, 2, 3])
        kind = P(["let", "let*", "letrec", "nlet", "nlet", "nlet", "lambda", "do", "begin", "inner"])
        if kind in ("let", "let*"):
            return f"({kind} ({vs(k, d)}) {body(d - 1)})"
        if kind == "letrec":
            return f"(letrec ({' '.join(f'({x} (lambda ({P(names)}) {P(names)}))' for x in rng.sample(names, k))}) {body(d - 1)})"
        if kind == "nlet":
            return f"(let {P(names)} ({vs(k, d)}) {body(d - 1)})"
        if kind == "lambda":
            return f"((lambda ({' '.join(rng.sample(names, k))}) {body(d - 1)}) {' '.join(init(d) for _ in range(k))})"
        if kind == "do":
            ns = rng.sample(names, k)
            st = [P(["", " " + P(names), " 7"]) for _ in ns]
            return f"(do ((n 0 (+ n 1)){''.join(f' ({x} {init(d)}{s})' for x, s in zip(ns, st))}) ((= n 2) {body(d - 1)}) {show()})"
        if kind == "begin":
            return f"(begin {show()} {form(d - 1)})"
        return f"((lambda () {body(d - 1)}))"

    for _ in range(n):
        t = "(define budget 12)\n(define f 'F)\n(define g 'G)\n(define h 'H)\n"
        for _ in range(P([2, 3])):
            t += f"(set! budget 12)\n(emit (catch #t (lambda () {form(P([2, 3]))}) (lambda (k . r) (list 'err k))))\n"
        t += f"(define ({P(names)} {P(['', 'f', 'g'])}) {body(2)})\n(set! budget 12)\n(emit (catch #t (lambda () {val(P(names))}) (lambda (k . r) (list 'err k))))\n{show()}\n"
        if len(t) < 6000:
            out.append(t)
    return out


# ------------------------------------------- guards that do not return (C05)
def guards(rng, n):
    """Extents up to three deep whose guards may throw, escape or capture, entered and
    left by returning; which run and how often is counted."""
    P = rng.choice
    out = []
    for _ in range(n):
        pts = []

        def act(where):
            i = len(pts)
            pts.append(where)
            return f"(act {i})"

        def wind(d, body):
            b, a = act("b"), act("a")
            t = f"(dynamic-wind (lambda () {b} 'bv) (lambda () {body}) (lambda () {a} 'av))"
            if P([0, 0, 1]):
                t = P([f"(catch 'stop (lambda () {t}) (lambda r (emit (list 'h r)) 'caught))", f"(call/cc (lambda (k) (set! esc k) {t}))", f"(catch #t (lambda () {t}) (lambda r (emit 'any) 'caught))"])
            return t

        def tree(d):
            if d == 0:
                return act("p")
            return P([lambda: wind(d, tree(d - 1)), lambda: f"(list {wind(d, tree(d - 1))} {wind(d, tree(d - 1))})", lambda: f"(begin {act('p')} {wind(d, act('p'))} {tree(d - 1)})"])()
        t = tree(P([1, 2, 2, 3]))
        # what happens at each point, at which visit of it
        N = len(pts)
        cases = ""
        for i in rng.sample(range(N), min(N, P([1, 1, 2, 2, 3]))):
            cases += f"((and (= i {i}) (= (vector-ref visits i) {P([1, 1, 1, 2])})) {P(['(throw (quote stop) i)', '(throw (quote stop) i)', '(throw (quote other) i)', '(esc i)', '(car 5)', '(call/cc (lambda (k) (set! back k) 0))'])}) "
        out.append(f"(define visits (make-vector {N} 0))\n(define esc (lambda (v) (throw 'stop v)))\n(define back #f)\n(define fuel {P([0, 0, 1, 2])})\n"
                   f"(define (act i) (vector-set! visits i (+ 1 (vector-ref visits i))) (emit i) (cond {cases}(else i)))\n"
                   f"(define (go) {t})\n(emit (call/cc (lambda (k) (set! esc k) (go))))\n(emit visits)\n(emit (catch #t (lambda () (go)) (lambda (k . r) (list 'out k))))\n"
                   f"(if (and back (> fuel 0)) (begin (set! fuel (- fuel 1)) (back 'again)))\n(go)\n(emit visits)\n(set! esc (lambda (v) v))\n(emit (dynamic-wind (lambda () (emit 'i)) (lambda () 1) (lambda () (emit 'o))))\n(emit 'end)\n")
    return out


# --------------------------------------------- what a promise delays (C16)
def delayed(rng):
    """Every kind of expression delayed, in every kind of place, its variables changed
    between delay and force, and forced again after another change."""
    out = []
    E = ["x", "(id x)", "(+ x 1)", "(if x x 0)", "(begin x)", "(let ((y x)) y)", "(lambda () x)", "(list x y)", "`(,x y ,@z)", "(car z)", "(begin (emit 'run) x)", "'x", "5", "\"s\"", "#t", "#f", "()", "#\\a", "'()",
         "(set! x (+ x 1))", "(delay x)", "(force (delay x))", "p0", "(force p0)", "(call/cc (lambda (k) (k x)))", "(catch 'a (lambda () (throw 'a x)) (lambda (k v) v))", "(and x x)", "(or #f x)", "(cond (#f 1) (else x))", "(case x ((1) 'one) (else x))",
         "(do ((i 0 (+ i 1))) ((= i 2) x))", "(let lp ((i 2)) (if (> i 0) (lp (- i 1)) x))", "(m x)", "z", "(set-car! z 9)", "(vector x x)", "y", "(y2)", "x"]
    P = [("(define p (delay {e}))\n", "(set! x {v})\n"), ("(define p (let ((x 7)) (set! setx (lambda (v) (set! x v))) (delay {e})))\n", "(setx {v})\n"),
         ("(define (mk x) (set! setx (lambda (v) (set! x v))) (delay {e}))\n(define p (mk 7))\n", "(setx {v})\n"),
         ("(define p #f)\n(let loop ((x 3)) (set! setx (lambda (v) (set! x v))) (if (> x 2) (loop (- x 1)) (set! p (delay {e}))))\n", "(setx {v})\n"),
         ("(define p (cdr (cons 1 (delay {e}))))\n", "(define x {v})\n"),
         ("(define p (let () (define x 7) (let ((q (delay {e}))) (set! x 8) (emit 'made) q)))\n", "(set! x {v})\n"),
         ("(define p (car (map (lambda (x) (set! setx (lambda (v) (set! x v))) (delay {e})) '(4 5))))\n", "(setx {v})\n")]
    for e in E:
        for mk, ch in P:
            out.append("(define x 1)\n(define setx (lambda (v) (set! x v)))\n(define y 10)\n(define z (list 1 2))\n(define (y2) y)\n(define (id v) (emit 'id) v)\n(define-macro (m q) `(begin (emit 'm) ,q))\n(define p0 (delay (begin (emit 'p0) x)))\n"
                       + mk.format(e=e) + ch.format(v=20) + "(set! y 30)\n(define r (force p))\n(emit (if (procedure? r) (r) r))\n" + ch.format(v=40) + "(set! y 50)\n(set! z '(7))\n(define r2 (force p))\n(emit (if (procedure? r2) (r2) r2))\n"
                       "(emit (eqv? r r2))\n(emit (list x y z))\n")
    return out
